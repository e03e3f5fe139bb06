"""Run scenario families in parallel and judge every outcome."""
import os, sys, time, traceback
import multiprocessing as mp
import harness, fw
from terms import *
from onnxscen import *

sys.setrecursionlimit(20000)
_job = None
_mk = None


def judge(m, res, raw, spec, project):
    """[(verdict, message)]"""
    out = []
    for s, r in res:
        got = ("ok", project(r[1])) if r[0] == "ok" else ("err",)
        out.append(compare(m.dom, s, got, spec))
    return out + obligations(m, raw)


def obligations(m, raw):
    """verdicts on the panic sites that were reached and not excluded"""
    out = []
    seen = set()
    for kind, fn, f, line, goal, st, atoms in raw:
        ex = panic_conditions(kind, atoms)
        if ex is None or (fn, line, kind) in seen:
            continue
        try:
            vals = valuations(m.dom, st, ex, n=3)
        except Uneval:
            vals = []
        if vals:
            seen.add((fn, line, kind))
            out.append((False, f"{fn} at {f}:{line} can panic ({kind}) for {show_val(vals[0])}"))
        else:
            out.append((None, f"{fn}:{line} {kind} not excluded and no witness found"))
    return out


def _one(i):
    label, fn = _job[i]
    t = time.time()
    M = _mk()
    try:
        vs = fn(M)
    except (Giveup, Budget, RecursionError) as e:
        vs = [(None, f"not analysable: {e}")]
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        vs = [(None, f"engine: {type(e).__name__}: {e}")]
    return i, vs, sorted(M.functions), M.outcomes, M.nobl, time.time() - t


def run(chk, jobs, where, timeout=700, machine=None):
    """jobs: [(label, fn(M) -> [(verdict, msg)])]"""
    global _job, _mk
    if machine is None:
        prog = harness.program(CRATE)
        machine = lambda: Machine(prog)
    _mk = machine
    _job = jobs
    machine_ws = getattr(chk, "stubbed", False)
    n = min(8, os.cpu_count() or 4, max(1, len(jobs)))
    tot_out = tot_obl = 0
    done = set()
    with mp.get_context("fork").Pool(n, maxtasksperchild=40) as pool:
        rs = [pool.apply_async(_one, (i,)) for i in range(len(jobs))]
        end = time.time() + timeout
        for i, r in enumerate(rs):
            label = jobs[i][0]
            try:
                _, vs, fns, no, nb, dt = r.get(max(1.0, end - time.time()))
            except mp.TimeoutError:
                chk.und(label, where, "time limit")
                continue
            tot_out += no
            tot_obl += nb
            for f in fns:
                chk.analysed.add(f if machine_ws else f"{CRATE}::{f}")
            v = False if any(x is False for x, _ in vs) else None if any(x is None for x, _ in vs) else True
            msg = "; ".join(dict.fromkeys(m for x, m in vs if x is v and m))[:600]
            if v is True:
                msg = f"{len(vs)} outcomes agree with the rule for every value of the abstract inputs"
            chk.judge(label, v, where, msg)
        pool.terminate()
    chk.stats["scenarios"] = chk.stats.get("scenarios", 0) + len(jobs)
    chk.stats["outcomes_compared"] = chk.stats.get("outcomes_compared", 0) + tot_out
    chk.stats["panic_sites_obliged"] = chk.stats.get("panic_sites_obliged", 0) + tot_obl


def shape_job(build):
    def f(M):
        m = Model(M)
        outs, spec = build(m)
        res, raw = infer(m)

        def project(h):
            return mk("tuple", tuple(shape_of(h, o) or S("<none>") for o in outs))

        def sp(k):
            w = spec(k)
            return ("ok", mk("tuple", w[1])) if w[0] == "ok" else w
        return judge(m, res, raw, sp, project)
    return f
