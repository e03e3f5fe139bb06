#[derive(Clone, Copy)] pub enum BatchSize { SmallInput, LargeInput, PerIteration }
pub struct BenchmarkId; impl BenchmarkId { pub fn new(_: impl Into<String>, _: impl std::fmt::Display) -> Self { BenchmarkId } }
pub struct Bencher;
impl Bencher { pub fn iter<O>(&mut self, mut f: impl FnMut() -> O) { f(); } pub fn iter_batched<I, O>(&mut self, mut s: impl FnMut() -> I, mut f: impl FnMut(I) -> O, _: BatchSize) { f(s()); } }
pub struct Criterion; pub struct Group; impl Criterion { pub fn benchmark_group(&mut self, _: impl Into<String>) -> Group { Group } } impl Group { pub fn bench_function(&mut self, _: impl Into<String>, mut f: impl FnMut(&mut Bencher)) -> &mut Self { f(&mut Bencher); self } pub fn bench_with_input<I: ?Sized>(&mut self, _: BenchmarkId, i: &I, mut f: impl FnMut(&mut Bencher, &I)) -> &mut Self { f(&mut Bencher, i); self } pub fn finish(self) {} }
impl Criterion { pub fn bench_function(&mut self, _: impl Into<String>, mut f: impl FnMut(&mut Bencher)) -> &mut Self { f(&mut Bencher); self } pub fn bench_with_input<I: ?Sized>(&mut self, _: BenchmarkId, i: &I, mut f: impl FnMut(&mut Bencher, &I)) -> &mut Self { f(&mut Bencher, i); self } }
pub fn black_box<T>(x: T) -> T { x }
