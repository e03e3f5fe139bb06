PROPERTY = "P29"
NEEDS = "call_kernel! with a mut argument that follows one without mut"
BREAKS = "the handle assigned to a mut argument is taken at its position among the mut arguments instead of among all arguments"
EDITS = [("compiler/expander_compiler/macros/src/lib.rs", """        .enumerate()
        .filter(|(_, arg)| arg.is_mut)
        .collect();""", """        .filter(|arg| arg.is_mut)
        .enumerate()
        .collect();""")]
DEPS = KERNELDEPS
DEMO = r'''
use macros::call_kernel;
struct Ctx;
impl Ctx {
    /// every handle is replaced by what the kernel leaves for it
    fn call_kernel(&mut self, _kernel: &str, n: usize, io: &mut [String]) -> Result<usize, ()> {
        for x in io.iter_mut() { x.push('+'); }
        Ok(n)
    }
}
fn main() {
    let mut ctx = Ctx;
    let k = "kernel";
    let (a, b) = (String::from("a"), String::from("b"));
    let mut c = String::from("c");
    let mut d = String::from("d");
    let r = call_kernel!(ctx, k, 3, a, mut c, b, mut d);
    let bad = r != Ok(3) || c != "c+" || d != "d+";
    if bad { println!("after the call: c = {c}, d = {d}"); }
    std::process::exit(bad as i32);
}
'''
WS = "resolver = \"1\"\n"
