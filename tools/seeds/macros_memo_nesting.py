PROPERTY = "P30"
NEEDS = "two calls of one memorized function in one circuit whose vectors of vectors have the same number of variables but different inner lengths"
BREAKS = "only numbers are hashed into the sub-circuit key, so calls with differently nested variables share one sub-circuit"
EDITS = [("compiler/expander_compiler/macros/src/lib.rs", "    let hash_primitive_calls = param_infos.iter().map(|param_info| {",
"    let hash_primitive_calls = param_infos.iter().filter(|param_info| matches!(param_info.kind, ParamKind::Primitive)).map(|param_info| {")]
PRE = MEMOFS
DEPS = MEMODEPS
FILES = {"tiny_keccak_lib.rs": KECCAK}
DEMO = MEMOPRE + r'''
#[memorized]
fn firsts<C: Config, B: RootAPI<C>>(_api: &mut B, rows: &Vec<Vec<Variable>>, k: u32) -> Vec<Variable> {
    rows.iter().map(|r| r[k as usize % r.len()]).collect()
}
fn main() {
    let b = &mut Builder::default();
    let wide = vec![vec![v(1), v(2), v(3)], vec![v(4)]];
    let even = vec![vec![v(1), v(2)], vec![v(3), v(4)]];
    check("first of wide rows", memorized_firsts::<Cfg, _>(b, &wide, 0), vec![v(1), v(4)]);
    check("second of wide rows", memorized_firsts::<Cfg, _>(b, &wide, 1), vec![v(2), v(4)]);
    check("first of even rows", memorized_firsts::<Cfg, _>(b, &even, 0), vec![v(1), v(3)]);
    check("first of wide rows, again", memorized_firsts::<Cfg, _>(b, &wide, 0), vec![v(1), v(4)]);
}
'''
WS = "resolver = \"1\"\n"
