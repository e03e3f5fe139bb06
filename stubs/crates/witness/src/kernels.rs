//! Kernels: the names the macros expect in scope, and kernels of every shape of parameter
use macros::{call_kernel, kernel};
use std::marker::PhantomData;

pub trait Config {}
pub struct API<C: Config>(PhantomData<C>);
#[derive(Clone, Copy, Default)]
pub struct Variable {
    id: usize,
}
pub struct IOVecSpec {
    pub len: usize,
    pub is_input: bool,
    pub is_output: bool,
}
pub struct KernelPrimitive<C: Config>(PhantomData<C>);
pub struct Error;

pub fn compile_with_spec_and_shapes<C: Config, F: Fn(&mut API<C>, &mut Vec<Vec<Variable>>)>(f: F, io_specs: &[IOVecSpec], io_shapes: &[Vec<usize>]) -> Result<KernelPrimitive<C>, Error> {
    unimplemented!()
}

/// what the kernel's body does is a matter of the analysis
pub fn touch1<C: Config, A>(api: &mut API<C>, a: A) {
    unimplemented!()
}
pub fn touch2<C: Config, A, B>(api: &mut API<C>, a: A, b: B) {
    unimplemented!()
}
pub fn touch3<C: Config, A, B, D>(api: &mut API<C>, a: A, b: B, d: D) {
    unimplemented!()
}
pub fn touch4<C: Config, A, B, D, E>(api: &mut API<C>, a: A, b: B, d: D, e: E) {
    unimplemented!()
}

pub fn touch7<C: Config, A, B, D, E, F, G, H>(api: &mut API<C>, a: A, b: B, d: D, e: E, f: F, g: G, h: H) {
    unimplemented!()
}

#[kernel]
fn scalars<C: Config>(api: &mut API<C>, a: &InputVariable, b: &mut OutputVariable, c: &mut InputOutputVariable) {
    touch3(api, a, b, c);
}

#[kernel]
fn vectors<C: Config>(api: &mut API<C>, c: &mut [OutputVariable; 3], a: &[InputVariable; 2], b: &mut [InputOutputVariable; 4]) {
    touch3(api, c, a, b);
}

#[kernel]
fn matrices<C: Config>(api: &mut API<C>, a: &[[InputVariable; 3]; 2], b: &mut [[OutputVariable; 2]; 3], c: &mut [[InputOutputVariable; 1]; 4]) {
    touch3(api, a, b, c);
}

#[kernel]
fn cubes<C: Config>(api: &mut API<C>, a: &mut [[[OutputVariable; 4]; 3]; 2], b: &[[[InputVariable; 2]; 3]; 4], c: &mut [[[InputOutputVariable; 3]; 1]; 2]) {
    touch3(api, a, b, c);
}

#[kernel]
fn deep<C: Config>(api: &mut API<C>, a: &[[[[InputVariable; 2]; 3]; 2]; 2], b: &mut [[[[OutputVariable; 3]; 2]; 1]; 2]) {
    touch2(api, a, b);
}

#[kernel]
fn single_in<C: Config>(api: &mut API<C>, a: &[InputVariable; 5]) {
    touch1(api, a);
}

#[kernel]
fn single_out<C: Config>(api: &mut API<C>, a: &mut [[OutputVariable; 5]; 2]) {
    touch1(api, a);
}

pub const ROWS: usize = 2;

#[kernel]
fn computed_cubes<C: Config>(api: &mut API<C>, a: &[[[InputVariable; ROWS + 1]; 1 + ROWS]; ROWS], b: &mut [[[InputOutputVariable; 2]; ROWS + 2]; 2]) {
    touch2(api, a, b);
}

#[kernel]
fn several<C: Config>(
    api: &mut API<C>,
    a: &mut [OutputVariable; 2],
    b: &mut InputOutputVariable,
    c: &mut [[OutputVariable; 2]; 3],
    d: &[[InputVariable; 2]; 3],
    e: &mut OutputVariable,
    f: &InputVariable,
    g: &mut [[InputOutputVariable; 3]; 2],
) {
    touch7(api, a, b, c, d, e, f, g);
}

#[kernel]
fn computed_sizes<C: Config>(api: &mut API<C>, a: &[[InputVariable; ROWS + 1]; ROWS], b: &mut [[InputOutputVariable; 2 * ROWS]; ROWS + 1], c: &mut [[[OutputVariable; 1 + 1]; ROWS + 1]; 1 + ROWS]) {
    touch3(api, a, b, c);
}

#[kernel]
fn mixed_kinds<C: Config>(api: &mut API<C>, a: &mut InputVariable, b: &OutputVariable, c: &InputOutputVariable, d: &[[InputOutputVariable; 2]; 2]) {
    touch4(api, a, b, c, d);
}

// --- calls

#[derive(Clone)]
pub struct Handle(usize);
pub struct Ctx;
impl Ctx {
    pub fn call_kernel<C: Config>(&mut self, kernel: &KernelPrimitive<C>, num_parallel: usize, ios: &mut [Handle]) -> Result<(), Error> {
        unimplemented!()
    }
}

pub fn call_none_mut<C: Config>(mut ctx: Ctx, k: KernelPrimitive<C>, n: usize, a: Handle, b: Handle) -> Result<(), Error> {
    call_kernel!(ctx, k, n, a, b)
}

pub fn call_first_mut<C: Config>(mut ctx: Ctx, k: KernelPrimitive<C>, n: usize, mut a: Handle, b: Handle) -> (Handle, bool) {
    let r = call_kernel!(ctx, k, n + 1, mut a, b);
    (a, r.is_ok())
}

pub fn call_last_mut<C: Config>(mut ctx: Ctx, k: KernelPrimitive<C>, n: usize, a: Handle, b: Handle, mut c: Handle) -> (Handle, bool) {
    let r = call_kernel!(ctx, k, 7, a, b, mut c);
    (c, r.is_ok())
}

pub fn call_mixed<C: Config>(mut ctx: Ctx, k: KernelPrimitive<C>, n: usize, a: Handle, mut b: Handle, c: Handle, mut d: Handle, mut e: Handle) -> (Handle, Handle, Handle, bool) {
    let r = call_kernel!(ctx, k, n, a, mut b, c, mut d, mut e);
    (b, d, e, r.is_ok())
}
