PROPERTY = "P19"
NEEDS = "a maximal accumulation that is not a power of two"
BREAKS = "the largest safe scale exponent is computed from the rounded-down size of the accumulation, so a precision is accepted that the field cannot hold"
EDITS = [("rust/jstprove_onnx/src/quantizer.rs", "max_bound.log2().ceil() as u32", "max_bound.log2().floor() as u32")]
DEPS = ONNXDEPS
DEMO = r'''
use jstprove_onnx::quantizer::ScaleConfig;
fn main() {
    for (bits, bound) in [(64u32, 1.0f64), (64, 8.0), (64, 9.0), (31, 1000.0), (31, 3.0), (20, 5.5), (12, 100000.0)] {
        let e = ScaleConfig::max_safe_exponent(bits, bound);
        // the accumulated product of two scaled values and a sign bit have to fit
        let need = 2.0 * e as f64 + bound.log2() + 1.0;
        if e > 0 && need > bits as f64 { println!("{bits} bits, bound {bound}: exponent {e} needs {need:.2} bits"); std::process::exit(1); }
    }
}
'''
