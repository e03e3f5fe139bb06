"""property id -> (crates whose MIR is needed, deciding function)"""
import harness


def _io(name):
    def f():
        import checks_io
        return getattr(checks_io, name)(harness.program("jstprove_io"))
    return f


CHECKS = {p: _io(p) for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08")}


def _onnx(name):
    def f():
        import checks_onnx
        return getattr(checks_onnx, name)()
    return f


CHECKS.update({p: _onnx(p) for p in ("P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24")})


def _zk(name):
    def f():
        import checks_zk
        return getattr(checks_zk, name)()
    return f


CHECKS.update({p: _zk(p) for p in ("P25", "P26", "P27", "P28", "P29", "P30", "P31", "P32", "P33", "P34", "P35", "P36", "P37", "P38", "P39")})


def run(pid):
    return CHECKS[pid]()
