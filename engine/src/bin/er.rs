#[allow(unused_imports)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
engine::table! {
    'R' 1 'u' true => AllowSliceRefs, usize;
    'R' 2 'u' true => AllowSliceRefs, usize;
    'R' 3 'u' true => AllowSliceRefs, usize;
    'R' 1 'u' false => AllowSliceRefs, usize;
    'R' 5 'u' false => AllowSliceRefs, usize;
}
