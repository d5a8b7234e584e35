#[allow(unused_imports)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
engine::table! {
    'N' 1 'u' true => NoFeatures, usize;
    'N' 2 'u' true => NoFeatures, usize;
    'N' 5 'u' true => NoFeatures, usize;
    'C' 1 'u' true => AllowCow, usize;
    'C' 3 'u' true => AllowCow, usize;
    'R' 1 'u' true => AllowSliceRefs, usize;
    'R' 2 'u' true => AllowSliceRefs, usize;
    'N' 1 'u' false => NoFeatures, usize;
    'N' 2 'u' false => NoFeatures, usize;
    'N' 127 'u' false => NoFeatures, usize;
    'C' 5 'u' false => AllowCow, usize;
    'R' 1 'u' false => AllowSliceRefs, usize;
    'R' 5 'u' false => AllowSliceRefs, usize;
}
