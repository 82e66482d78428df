//! Offline stand-in: type-checks the library-side benchmark helpers; never measures anything.
use std::fmt::Display;
pub enum BatchSize { SmallInput, LargeInput }
pub struct BenchmarkId;
impl BenchmarkId {
    pub fn new<S: Into<String>, P: Display>(_: S, _: P) -> Self { Self }
    pub fn from_parameter<P: Display>(_: P) -> Self { Self }
}
pub struct Bencher;
impl Bencher {
    pub fn iter<O, R: FnMut() -> O>(&mut self, _: R) {}
    pub fn iter_batched<I, O, S: FnMut() -> I, R: FnMut(I) -> O>(&mut self, _: S, _: R, _: BatchSize) {}
    pub fn iter_batched_ref<I, O, S: FnMut() -> I, R: FnMut(&mut I) -> O>(&mut self, _: S, _: R, _: BatchSize) {}
}
#[derive(Default)]
pub struct Criterion;
pub struct Group;
impl Criterion {
    pub fn bench_function<F: FnMut(&mut Bencher)>(&mut self, _: &str, _: F) -> &mut Self { self }
    pub fn benchmark_group<S: Into<String>>(&mut self, _: S) -> Group { Group }
}
impl Group {
    pub fn bench_function<I, F: FnMut(&mut Bencher)>(&mut self, _: I, _: F) -> &mut Self { self }
    pub fn bench_with_input<I: ?Sized, F: FnMut(&mut Bencher, &I)>(&mut self, _: BenchmarkId, _: &I, _: F) -> &mut Self { self }
    pub fn sample_size(&mut self, _: usize) -> &mut Self { self }
    pub fn finish(self) {}
}
pub fn black_box<T>(x: T) -> T { std::hint::black_box(x) }
