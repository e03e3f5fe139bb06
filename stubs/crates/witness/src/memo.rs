//! Memorized functions: the names the macro expects in scope, and functions of every shape of parameter
use macros::memorized;

pub trait Config {}
#[derive(Clone, Copy)]
pub struct Variable {
    id: usize,
}

/// what a builder of this trait does is a matter of the analysis
pub trait RootAPI<C: Config>: Sized {
    fn hash_to_sub_circuit_id(&mut self, hash: &[u8; 32]) -> usize;
    fn call_sub_circuit<F: FnOnce(&mut Self, &Vec<Variable>) -> Vec<Variable>>(&mut self, circuit_id: usize, inputs: &[Variable], f: F) -> Vec<Variable>;
    fn register_sub_circuit_output_structure(&mut self, circuit_id: usize, structure: Vec<usize>);
    fn get_sub_circuit_output_structure(&self, circuit_id: usize) -> Vec<usize>;
}

pub mod extra {
    include!("../../../compiler/expander_compiler/src/frontend/sub_circuit.rs");
}
mod builder {
    pub use super::Variable;
    pub fn ensure_variable_valid(v: Variable) {}
}

pub fn body<T, R>(name: &str, args: T) -> R {
    unimplemented!()
}

#[memorized]
fn one<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable) -> Variable {
    body("one", (a,))
}
pub fn use_one<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable) -> Variable {
    memorized_one(api, a)
}

#[memorized]
fn two<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable) -> Variable {
    body("two", (a,))
}
pub fn use_two<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable) -> Variable {
    memorized_two(api, a)
}

#[memorized]
fn pair<C: Config, B: RootAPI<C>>(api: &mut B, a: &Variable, b: Variable) -> Vec<Variable> {
    body("pair", (*a, b))
}
pub fn use_pair<C: Config, B: RootAPI<C>>(api: &mut B, a: &Variable, b: Variable) -> Vec<Variable> {
    memorized_pair(api, a, b)
}

#[memorized]
fn vecs<C: Config, B: RootAPI<C>>(api: &mut B, a: Vec<Variable>, b: &Vec<Vec<Variable>>, c: Variable, d: &Vec<Variable>) -> Vec<Vec<Variable>> {
    body("vecs", (a, b, c, d))
}
pub fn use_vecs<C: Config, B: RootAPI<C>>(api: &mut B, a: Vec<Variable>, b: &Vec<Vec<Variable>>, c: Variable, d: &Vec<Variable>) -> Vec<Vec<Variable>> {
    memorized_vecs(api, a, b, c, d)
}

#[memorized]
fn numbers<C: Config, B: RootAPI<C>>(api: &mut B, n: u32, a: Variable, m: &u64, k: Vec<Vec<i64>>, b: &Vec<Variable>, l: usize) -> Variable {
    body("numbers", (n, a, m, k, b, l))
}
pub fn use_numbers<C: Config, B: RootAPI<C>>(api: &mut B, n: u32, a: Variable, m: &u64, k: Vec<Vec<i64>>, b: &Vec<Variable>, l: usize) -> Variable {
    memorized_numbers(api, n, a, m, k, b, l)
}

#[memorized]
fn silent<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) {
    body("silent", (a, b))
}
pub fn use_silent<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) {
    memorized_silent(api, a, b)
}

pub mod other {
    use super::*;
    #[memorized]
    fn one<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable) -> Variable {
        body("other::one", (a,))
    }
    pub fn use_one<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable) -> Variable {
        memorized_one(api, a)
    }
}
