#[allow(unused_imports)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
engine::table! {
    'C' 1 'u' true => AllowCow, usize;
    'C' 2 'u' true => AllowCow, usize;
    'C' 3 'u' true => AllowCow, usize;
    'C' 1 'u' false => AllowCow, usize;
    'C' 5 'u' false => AllowCow, usize;
}
