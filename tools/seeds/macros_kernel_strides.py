PROPERTY = "P29"
NEEDS = "a kernel with a parameter of two or more dimensions that is not square"
BREAKS = "the offset of an element in the output is computed with the sizes of the leading dimensions instead of the trailing ones"
_A = """    let dims = collect_dimensions(ty);
    if dims.is_empty() {
        return quote! {
            inputs[#array_index][0] = #input_name;
        };
    }

    let mut steps = Vec::with_capacity(dims.len());
    let mut step = quote! { 1 };
    for &dim in dims.iter()%s {
"""
EDITS = [("compiler/expander_compiler/macros/src/lib.rs", _A % ".skip(1).rev()", _A % ".rev().skip(1)")]
DEPS = KERNELDEPS
DEMO = KERNELDEMO
WS = "resolver = \"1\"\n"
