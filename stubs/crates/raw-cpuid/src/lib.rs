pub struct CpuId; pub struct F; impl CpuId { pub fn new() -> Self { CpuId } pub fn get_extended_feature_info(&self) -> Option<F> { None } pub fn get_feature_info(&self) -> Option<F> { None } } impl F { pub fn has_gfni(&self) -> bool { false } pub fn has_avx2(&self) -> bool { false } pub fn has_avx512f(&self) -> bool { false } }
