#[allow(unused_imports)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
engine::table! {
    'N' 1 'n' true => NoFeatures, engine::sl::NC;
    'N' 2 'n' true => NoFeatures, engine::sl::NC;
    'N' 3 'n' true => NoFeatures, engine::sl::NC;
    'R' 1 'n' true => AllowSliceRefs, engine::sl::NC;
    'R' 2 'n' true => AllowSliceRefs, engine::sl::NC;
    'C' 1 'n' true => AllowCow, engine::sl::NC;
}
