"""Pieces shared by the demonstrations of planted bugs in the procedural macros."""
SERDESPRE = '''mkdir -p "$d/serdes/src"
cp "$here/serdes_lib.rs" "$d/serdes/src/lib.rs"
printf '[package]\\nname = "serdes"\\nversion = "0.1.0"\\nedition = "2021"\\n' > "$d/serdes/Cargo.toml"
'''
SERDESDEPS = '''serdes = { path = "serdes" }
serdes_derive = { path = "$repo/prover/serdes_derive" }
'''
# the trait of prover/serdes for a few types: what the derived code refers to
SERDESLIB = r'''
use std::io::{Read, Write};
#[derive(Debug)]
pub enum SerdeError { IOError(std::io::Error), DeserializeError, InvalidVariantIndex(usize) }
impl From<std::io::Error> for SerdeError { fn from(e: std::io::Error) -> Self { SerdeError::IOError(e) } }
pub type SerdeResult<T> = Result<T, SerdeError>;
pub trait ExpSerde: Sized {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()>;
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self>;
}
macro_rules! num { ($($t:ty, $n:expr);*) => { $(impl ExpSerde for $t {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { w.write_all(&self.to_le_bytes())?; Ok(()) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { let mut b = [0u8; $n]; r.read_exact(&mut b)?; Ok(<$t>::from_le_bytes(b)) }
})* } }
num!(u8, 1; u32, 4; u64, 8);
'''
KERNELDEPS = '''macros = { path = "$repo/compiler/expander_compiler/macros" }
syn = { version = "2", features = ["full"] }
'''
KERNELDEMO = r'''
#![allow(dead_code)]
use macros::kernel;
use std::marker::PhantomData;
pub trait Config {}
pub struct Cfg;
impl Config for Cfg {}
pub struct API<C: Config>(PhantomData<C>);
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Variable { id: usize }
pub struct IOVecSpec { pub len: usize, pub is_input: bool, pub is_output: bool }
pub struct KernelPrimitive<C: Config>(PhantomData<C>, Vec<Vec<Variable>>, Vec<Vec<usize>>);
#[derive(Debug)]
pub struct Error;
/// runs the kernel on inputs numbered 100 * parameter + position
pub fn compile_with_spec_and_shapes<C: Config, F: Fn(&mut API<C>, &mut Vec<Vec<Variable>>)>(f: F, specs: &[IOVecSpec], shapes: &[Vec<usize>]) -> Result<KernelPrimitive<C>, Error> {
    let mut io: Vec<Vec<Variable>> = specs.iter().enumerate().map(|(k, s)| (0..s.len).map(|j| Variable { id: 100 * k + j }).collect()).collect();
    f(&mut API(PhantomData), &mut io);
    Ok(KernelPrimitive(PhantomData, io, shapes.to_vec()))
}
#[kernel]
fn square<C: Config>(_api: &mut API<C>, a: &[[InputVariable; 3]; 3], o: &mut [[OutputVariable; 3]; 3]) {
    for i in 0..3 { for j in 0..3 { o[i][j] = a[i][j]; } }
}
#[kernel]
fn wide<C: Config>(_api: &mut API<C>, a: &[[InputVariable; 4]; 2], o: &mut [[OutputVariable; 2]; 4], c: &mut [[[InputOutputVariable; 3]; 2]; 2]) {
    for i in 0..2 { for j in 0..4 { o[j][i] = a[i][j]; } }
    for x in c.iter_mut().flatten().flatten() { x.id += 1000; }
}
fn main() {
    let mut fails = 0;
    let mut check = |what: &str, got: Vec<usize>, want: Vec<usize>| if got != want { println!("{what}: {got:?}, expected {want:?}"); fails += 1; };
    let ids = |v: &Vec<Variable>| v.iter().map(|x| x.id).collect::<Vec<_>>();
    let s = compile_square::<Cfg>().unwrap();
    check("square", ids(&s.1[1]), (0..9).collect());
    let w = compile_wide::<Cfg>().unwrap();
    check("transposed", ids(&w.1[1]), vec![0, 4, 1, 5, 2, 6, 3, 7]);
    check("in place", ids(&w.1[2]), (0..12).map(|j| 1200 + j).collect());
    check("shape", w.2[2].clone(), vec![2, 2, 3]);
    std::process::exit(fails);
}
'''
# what the expansions of `memorized` expect in scope, and a builder that runs each sub-circuit once and replays it by its key
MEMOPRE = r'''
#![allow(dead_code)]
use macros::memorized;
use std::collections::HashMap;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Variable { id: usize }
mod builder { pub use super::Variable; pub fn ensure_variable_valid(_: Variable) {} }
pub mod extra { include!(concat!(env!("REPO"), "/compiler/expander_compiler/src/frontend/sub_circuit.rs")); }
pub trait Config {}
pub struct Cfg;
impl Config for Cfg {}
pub trait RootAPI<C: Config>: Sized {
    fn hash_to_sub_circuit_id(&mut self, hash: &[u8; 32]) -> usize;
    fn call_sub_circuit<F: FnOnce(&mut Self, &Vec<Variable>) -> Vec<Variable>>(&mut self, circuit_id: usize, inputs: &[Variable], f: F) -> Vec<Variable>;
    fn register_sub_circuit_output_structure(&mut self, circuit_id: usize, structure: Vec<usize>);
    fn get_sub_circuit_output_structure(&self, circuit_id: usize) -> Vec<usize>;
}
/// the outputs of a circuit are positions among its inputs
#[derive(Default)]
pub struct Builder { ids: HashMap<[u8; 32], usize>, circuits: HashMap<usize, Vec<usize>>, structure: HashMap<usize, Vec<usize>> }
impl RootAPI<Cfg> for Builder {
    fn hash_to_sub_circuit_id(&mut self, hash: &[u8; 32]) -> usize { let n = self.ids.len(); *self.ids.entry(*hash).or_insert(n) }
    fn call_sub_circuit<F: FnOnce(&mut Self, &Vec<Variable>) -> Vec<Variable>>(&mut self, id: usize, inputs: &[Variable], f: F) -> Vec<Variable> {
        if !self.circuits.contains_key(&id) {
            let own: Vec<Variable> = (0..inputs.len()).map(|id| Variable { id }).collect();
            let out = f(self, &own);
            self.circuits.insert(id, out.iter().map(|v| v.id).collect());
        }
        self.circuits[&id].iter().map(|&k| inputs[k]).collect()
    }
    fn register_sub_circuit_output_structure(&mut self, id: usize, structure: Vec<usize>) { self.structure.insert(id, structure); }
    fn get_sub_circuit_output_structure(&self, id: usize) -> Vec<usize> { self.structure[&id].clone() }
}
fn v(id: usize) -> Variable { Variable { id } }
fn check<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want { println!("{what}: got {got:?}, expected {want:?}"); std::process::exit(1); }
}
'''
MEMOFS = '''mkdir -p "$d/tiny-keccak/src"
cp "$here/tiny_keccak_lib.rs" "$d/tiny-keccak/src/lib.rs"
printf '[package]\\nname = "tiny-keccak"\\nversion = "2.0.0"\\nedition = "2021"\\n' > "$d/tiny-keccak/Cargo.toml"
'''
KECCAK = r'''
//! Stand-in with the interface of tiny-keccak: FNV over the bytes, 128 bits wide, collision-free on the short inputs used here
pub trait Hasher { fn update(&mut self, b: &[u8]); fn finalize(self, out: &mut [u8]); }
pub struct Keccak(u128);
impl Keccak { pub fn v256() -> Self { Keccak(0x6c62272e07bb014262b821756295c58d) } }
impl Hasher for Keccak {
    fn update(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u128).wrapping_mul(0x0000000001000000000000000000013B); } }
    fn finalize(self, out: &mut [u8]) { out[..16].copy_from_slice(&self.0.to_le_bytes()); }
}
'''
MEMODEPS = '''macros = { path = "$repo/compiler/expander_compiler/macros" }
tiny-keccak = { path = "tiny-keccak" }
syn = { version = "2", features = ["full"] }
'''
