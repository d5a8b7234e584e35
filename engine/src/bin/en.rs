#[allow(unused_imports)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
engine::table! {
    'N' 1 'u' true => NoFeatures, usize;
    'N' 2 'u' true => NoFeatures, usize;
    'N' 3 'u' true => NoFeatures, usize;
    'N' 5 'u' true => NoFeatures, usize;
}
