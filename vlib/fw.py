"""Check framework: collect obligations with a three-valued verdict, apply the known-findings file, write evidence."""
import json, os, sys, time
from extract import VERIF, REPO

PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"


class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t = time.time()
        self.obl = {}           # key -> (verdict, where, message)
        self.analysed = set()   # functions analysed
        self.stats = {}
        self.floor = {}

    # -- obligations ----------------------------------------------------------------------------
    def _put(self, key, v, where, msg):
        order = {PROVED: 0, UNDECIDED: 1, REFUTED: 2}
        old = self.obl.get(key)
        if old is None or order[v] > order[old[0]]:
            self.obl[key] = (v, where, msg)

    def ok(self, key, where="", msg=""):
        self._put(key, PROVED, where, msg)

    def bad(self, key, where, msg):
        self._put(key, REFUTED, where, msg)

    def und(self, key, where, msg):
        self._put(key, UNDECIDED, where, msg)

    def judge(self, key, verdict, where, msg):
        """verdict True / False / None"""
        if verdict is True:
            self.ok(key, where, msg)
        elif verdict is False:
            self.bad(key, where, msg)
        else:
            self.und(key, where, msg)

    def need(self, what, n, floor):
        """an instance count confirmed by hand on the pinned tree must not shrink to nothing"""
        self.floor[what] = {"count": n, "floor": floor}
        if n < floor:
            self.und("instances:" + what, "", f"only {n} instances of `{what}` were found, {floor} exist on the reviewed tree: part of the behaviour was not followed")

    def missing(self, what):
        self.bad("anchor:" + what, what, f"`{what}` no longer exists: nothing provides the behaviour this property describes")

    # -- result ---------------------------------------------------------------------------------
    def finish(self, level="other", trusted=""):
        known = {}
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if not line or line.startswith("fixed:") or line.startswith("#"):
                    continue
                d = json.loads(line)
                if d["property"] == self.pid:
                    known[d["key"]] = d["what"]
        viol, kn = [], []
        for k, (v, where, msg) in sorted(self.obl.items()):
            if v == REFUTED:
                (kn if k in known else viol).append((k, where, msg))
        npr = sum(v == PROVED for v, _, _ in self.obl.values())
        und = [(k, w, m) for k, (v, w, m) in sorted(self.obl.items()) if v == UNDECIDED]
        ev = {
            "property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": {
                "explanation": self.rule,
                "obligations": len(self.obl), "discharged": npr, "violated": len(viol), "known_findings": [k for k, _, _ in kn],
                "undecided": [{"obligation": k, "at": w, "why": m[:200]} for k, w, m in und][:40],
                "functions_analysed": sorted(self.analysed)[:150], "functions_analysed_count": len(self.analysed),
                "instance_floors": self.floor, "trusted_base": trusted,
                "samples": [{"obligation": k, "at": w, "verdict": v, "detail": m[:160]} for k, (v, w, m) in sorted(self.obl.items())][:25],
                **self.stats},
            "wall_s": round(time.time() - self.t, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        print(f"{self.pid}: {len(self.obl)} obligations, {npr} discharged, {len(und)} undecided, {len(viol)} violated, "
              f"{len(self.analysed)} functions analysed, {time.time()-self.t:.1f}s")
        for k, w, m in kn:
            print(f"KNOWN-FINDING: property={self.pid} {k}: {known[k]}")
        if os.environ.get("VERIF_VERBOSE"):
            for k, (v, w, m) in sorted(self.obl.items()):
                print(f"   {v:9} {k} @ {w}: {m[:220]}")
        if viol:
            rp = os.path.join(VERIF, "evidence", self.pid + ".replay.json")
            json.dump([{"obligation": k, "at": w, "message": m} for k, w, m in viol], open(rp, "w"), indent=1)
            for k, w, m in viol[:12]:
                print(f"  violated: {k} at {w}: {m[:300]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0
