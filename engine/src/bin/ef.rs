#[allow(unused_imports)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
engine::table! {
    'N' 1 'u' false => NoFeatures, usize;
    'N' 2 'u' false => NoFeatures, usize;
    'N' 3 'u' false => NoFeatures, usize;
    'N' 5 'u' false => NoFeatures, usize;
    'N' 3 'b' true => NoFeatures, u8;
}
