"""Runs the verification units of one property and reports what was discharged.

A family is a module in dv/specs with build(tmp) -> (module, units) and CLAIMS = {property: (mode, unit name regex)}.
mode 'func' counts every obligation except the lifetime ones, 'life' the lifetime/memory ones, 'all' everything."""
import importlib, multiprocessing, os, re, sys, time, traceback
from .sym import *

FAMILIES = ["vec", "array", "utils", "algo", "stack", "xstack", "dsu", "heap", "string", "list", "tree", "deque", "sma"]
LIFE = {"lifetime", "alloc", "leak"}
TRUSTED = [
    "clang 18 lowering of the instantiated templates to LLVM IR (-O0, then sroa, mem2reg, simplifycfg) and opt",
    "the parser, symbolic executor and loop rule in dv/ (obligation generator)",
    "z3 (python bindings in python3-vt)",
    "the specifications in dv/specs",
]
ASSUME = [
    "element type: copy construction and assignment copy the value, do not throw and do not touch the container; comparisons form a strict weak order given by a rank into the integers",
    "allocator: allocate(n) returns a fresh block disjoint from every other owned block; requests succeed (allocation failure asserts in the code)",
    "addresses lie in (0, 2^47); distinct owned blocks are disjoint",
    "extraction drops exception edges (-fno-exceptions) and keeps assertions on",
    "machine arithmetic is modelled exactly (signed overflow is an obligation, unsigned wraps); nothing is treated as unbounded",
    "sequential execution",
]
_claims = None


def claims():
    global _claims
    if _claims is None:
        _claims = {}
        for fam in FAMILIES:
            m = importlib.import_module("dv.specs." + fam)
            for p, (mode, rx) in m.CLAIMS.items(): _claims.setdefault(p, []).append((fam, mode, rx))
    return _claims


class _P(dict):
    def __contains__(self, k): return k in claims()


PROVED = _P()
NOTES = {}
_units = None


NONE = {"unit": "", "limit": "", "paths": 0, "obl": 0, "ok": 0, "fails": [], "time": 0, "solver": 0, "queries": 0, "used": {}, "inlined": [], "loops": [], "unterm": [], "kinds": []}


def counts(mode, kind):
    if mode == "all": return True
    if mode == "life": return kind in LIFE or kind in ("inv", "pre", "safety", "invariant")
    return kind not in LIFE


def _work(a):
    i, tier, bounded, budget = a
    from . import spec
    sys.setrecursionlimit(20000)
    fam, mod, u, mode = _units[i]
    try: r = spec.run_unit(mod, u, tier, bounded=bounded, budget=budget)
    except Exception as e:
        r = {"unit": u.name, "limit": "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:300], **{k: v for k, v in NONE.items() if k not in ("unit", "limit")}}
    return i, r


def run(prop, tier, tmp):
    global _units
    cl = claims().get(prop)
    if not cl: return {"available": False, "note": "no deductive specification for this property"}
    t0 = time.time()
    sys.setrecursionlimit(20000)
    _units = []; limits = []; elsewhere = []
    for fam, mode, rx in cl:
        m = importlib.import_module("dv.specs." + fam)
        try: mod, us = m.build(tmp)
        except Exception as e:
            limits.append({"unit": fam, "limit": "extraction: %s" % str(e)[:600]}); continue
        for u in us:
            if not re.match(rx, u.name): continue
            owner = getattr(u, "owner", None)   # a slow unit: the quick check of its owner discharges it, the others rely on its contract
            if owner and owner != prop and tier == "quick": elsewhere.append({"function": u.name, "discharged_in_check": owner if owner != "thorough" else "%s (thorough)" % prop}); continue
            _units.append((fam, getattr(u, "mod", None) or mod, u, mode))
    slow = any(getattr(u, "owner", None) == prop for _, _, u, _ in _units)
    budget, wall = (1800, 6000) if tier != "quick" else (640, 690) if slow else (400, 540)
    n = int(os.environ.get("DV_PROCS", "8"))
    results = {}
    with multiprocessing.get_context("fork").Pool(n) as pool:
        order = sorted(range(len(_units)), key=lambda i: -getattr(_units[i][2], "weight", 1))
        it = pool.imap_unordered(_work, [(i, tier, 0, budget) for i in order])
        try:
            while len(results) < len(_units):
                i, r = it.next(timeout=max(1, wall - (time.time() - t0))); results[i] = r
        except multiprocessing.TimeoutError:
            pool.terminate()
    for i, (fam, mod, u, mode) in enumerate(_units):
        if i not in results: results[i] = dict(NONE, unit=u.name, limit="the time for this check ran out")
    with multiprocessing.get_context("fork").Pool(n) as pool:
        # confirm refutations on an unrolled run with every callee inlined
        again = []
        for i, r in results.items():
            mode = _units[i][3]
            if any(counts(mode, f["kind"]) for f in r["fails"]) and not _units[i][2].special.get("#partial"): again.append(i)
        conf = {}
        for i, r in pool.imap_unordered(_work, [(i, tier, 4, 60) for i in again[:16]]): conf[i] = r
    failed = []; undecided = list(limits)
    per = []; obl = ok = 0; used = {}; inl = set(); unterm = set(); names = 0; loops = []
    for i in range(len(_units)):
        fam, mod, u, mode = _units[i]; r = results[i]
        ko = [k for k in r.get("kinds", []) if counts(mode, k[0])]
        nobl = len(ko); nok = sum(1 for k in ko if k[1] == "ok")
        obl += nobl; ok += nok
        for k, v in r["used"].items(): used[k] = used.get(k, 0) + v
        inl.update(r["inlined"]); unterm.update(r["unterm"]); loops += r["loops"]
        per.append({"function": r["unit"], "obligations": nobl, "discharged": nok, "paths": r["paths"], "solver_s": round(r["solver"], 2)})
        if r["limit"]:
            undecided.append({"unit": r["unit"], "limit": r["limit"]}); obl += 1
        bad = [f for f in r["fails"] if counts(mode, f["kind"])]
        c = conf.get(i)
        cbad = [f for f in c["fails"] if f["how"] == "refuted" and not f["inv"] and counts(mode, f["kind"])] if c else []
        for f in bad:
            definite = cbad or (f["how"] == "refuted" and not f["inv"] and f["kind"] != "invariant" and (c is None or c["limit"]))
            if definite:
                d = f["detail"]
                if cbad and cbad[0]["name"] != f["name"]: d += "\nconfirmed on the unrolled code: %s\n%s" % (cbad[0]["name"], cbad[0]["detail"])
                failed.append({"name": f["name"], "detail": d})
            else: undecided.append({"unit": r["unit"], "limit": "not discharged (%s): %s" % (f["how"], f["name"])})
    seen = set(); fl = []
    for f in failed:
        if f["name"] not in seen: seen.add(f["name"]); fl.append(f)
    cov = {"obligations": obl, "discharged": ok, "checker_cmd": "python3 check.py %s" % prop, "trusted_base": TRUSTED,
           "functions_under_contract": per, "callee_contracts_used": used, "inlined_callees": sorted(inl)[:80], "loop_invariants": sorted(set(loops))[:120],
           "loops_without_termination_measure": sorted(unterm), "undecided": undecided[:40], "contracts_discharged_elsewhere": elsewhere, "back_end": "z3 %s" % z3.get_version_string(),
           "solver_s": round(sum(r["solver"] for r in results.values()), 2), "solver_queries": sum(r["queries"] for r in results.values()), "proof_wall_s": round(time.time() - t0, 2)}
    return {"available": True, "failed": fl, "coverage": cov, "assumptions": ASSUME, "undecided": undecided}
