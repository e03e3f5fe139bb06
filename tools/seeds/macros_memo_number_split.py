PROPERTY = "P30"
NEEDS = "two calls of one memorized function whose numbers differ but read the same when written one after another (1, 23 and 12, 3)"
BREAKS = "the length in front of each hashed number is left out, so different lists of numbers give the same sub-circuit key"
EDITS = [("compiler/expander_compiler/src/frontend/sub_circuit.rs", """        let s = self.to_string();
        hasher.update(s.len().to_string().as_bytes());
        hasher.update(b",");
        hasher.update(s.as_bytes());
""", """        hasher.update(self.to_string().as_bytes());
""")]
PRE = MEMOFS
DEPS = MEMODEPS
FILES = {"tiny_keccak_lib.rs": KECCAK}
DEMO = MEMOPRE + r'''
#[memorized]
fn pick<C: Config, B: RootAPI<C>>(_api: &mut B, xs: &Vec<Variable>, i: u32, j: u32) -> Vec<Variable> {
    vec![xs[i as usize], xs[j as usize]]
}
fn main() {
    let b = &mut Builder::default();
    let xs: Vec<Variable> = (0..30).map(v).collect();
    check("1, 23", memorized_pick::<Cfg, _>(b, &xs, 1, 23), vec![v(1), v(23)]);
    check("12, 3", memorized_pick::<Cfg, _>(b, &xs, 12, 3), vec![v(12), v(3)]);
    check("1, 23 again", memorized_pick::<Cfg, _>(b, &xs, 1, 23), vec![v(1), v(23)]);
}
'''
WS = "resolver = \"1\"\n"
