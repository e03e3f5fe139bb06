"""Running the abstract interpreter on chosen functions with chosen abstract arguments."""
import os, re
import extract
from terms import *
import absint
from absint import Interp, State, Program, Budget, sym
from run1 import arg_value

_prog = {}


def program(*crates):
    if crates not in _prog:
        _prog[crates] = Program(extract.mir(crates))
    return _prog[crates]


def find_fn(prog, crate, suffix):
    """a function by its public path"""
    return suffix if (crate, suffix) in prog.fns else None


class Run:
    def __init__(self, I, outs, err=None):
        self.I, self.outs, self.err = I, outs, err
        self.unknown = dict(I.unknown_calls) if I else {}
        self.notes = list(I.notes) if I else []


def run(prog, crate, path, opts, args=None, st=None, chk=None):
    """args: list of terms (None: fresh input).  Returns Run."""
    b = prog.body(crate, path)
    if b is None:
        return Run(None, [], "missing")
    I = Interp(prog, crate, opts=dict(opts))
    st = st.copy() if st is not None else State()
    av = []
    for i in range(1, b.argc + 1):
        nm = next((n for n, v in b.f["names"] if v.get("l") == i and not v.get("p")), f"a{i}")
        a = args[i - 1] if args and i - 1 < len(args) else None
        av.append(arg_value(st, nm, i, b.locals[i]) if a is None else a)
    I.fnstack.append(path)
    try:
        outs = I.run_body(b, st, "top/" + path.split("::")[-1], av)
    except Budget as e:
        return Run(I, [], f"analysis budget exceeded ({e})")
    except RecursionError:
        return Run(I, [], "analysis recursion limit")
    except Exception as e:      # a construct the engine cannot handle: no verdict from this function
        if os.environ.get("VERIF_DEBUG"):
            raise
        return Run(I, [], f"analysis failed ({type(e).__name__}: {e})")
    if chk is not None:
        chk.analysed.add(f"{crate}::{path}")
        for n in I.inlined:
            chk.analysed.add(f"{crate}::{n}")
    r = Run(I, outs)
    r.args = av
    return r


def opaque(t):
    """t mentions something the analysis did not understand"""
    return contains(t, lambda x: x.op in ("call", "proj", "phi", "uninit", "hv") or
                    x.op == "sym" and x.a[1] != "in")


def understood(st, *vals):
    return not any(opaque(v) for v in vals) and not any(opaque(x) for x in st.ge) and not any(opaque(b) for b in st.bl) \
        and not any(opaque(x) for x in st.va)


def is_err(v):
    return v.op == "adt" and v.a[2] == "Err"


def is_ok(v):
    return v.op == "adt" and v.a[2] == "Ok"


def has_ioerr(v):
    return contains(v, lambda x: x.op == "ioerr")


def where(prog, crate, path):
    f = prog.fns.get((crate, path))
    return f"{f['span'][0]}:{f['span'][1]} fn {path}" if f else path
