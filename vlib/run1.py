import sys, time
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import extract
from absint import *
import absint
def load(crates=("jstprove_io","jstprove_onnx")):
    return Program(extract.mir(crates))
def arg_value(st, nm, i, ty):
    """a fresh input; references get a tracked pointee"""
    if ty.startswith("&mut "):
        st.env[("arg", i)] = sym(nm, ty[5:], "in")
        return mk("ref", ("arg", i), ())
    if ty.startswith("&"):
        return mk("vref", arg_value(st, nm, i, ty[1:].lstrip()) if ty[1:].startswith("&") else sym(nm, ty[1:], "in"))
    return sym(nm, ty, "in")
def analyse(prog, crate, path, opts=None, watch=None, noinline=()):
    I = Interp(prog, crate, watch=watch, opts=opts)
    I.noinline = set(noinline)
    b = prog.body(crate, path)
    args = []
    st = State()
    for i in range(1, b.argc+1):
        nm = next((n for n,v in b.f["names"] if v.get("l")==i and not v.get("p")), f"a{i}")
        args.append(arg_value(st, nm, i, b.locals[i]))
    I.fnstack.append(path)
    outs = I.run_body(b, st, path.split("::")[-1], args)
    return I, outs
if __name__ == "__main__":
    prog = load()
    opts = {"maxstates": int(sys.argv[1].split(":")[1]), "loopgroups": int(sys.argv[1].split(":")[1])} if ":" in sys.argv[1] else None
    for pth in sys.argv[2:]:
        t=time.time()
        I, outs = analyse(prog, sys.argv[1].split(":")[0], pth, opts)
        print("==", pth, len(outs), "outcomes", I.steps, "steps", f"{time.time()-t:.1f}s")
        for s,v in outs:
            print("  ret", show(v)[:400])
            for L in list(s.ge)[:12]: print("      ge", show(L)[:150])
        for o in sorted(I.obs.values(), key=lambda o:o.line):
            print("  ", o.status, o.kind, o.fn.split("::")[-1], o.line, o.goal[:150])
        print("  unknown:", I.unknown_calls)
