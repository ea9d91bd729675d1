"""algorithm::for_each and algorithm::find over PrimitiveIterator and raw pointers"""
from ..spec import *
from .. import layout
from .vec import visit_template
from ..loops import Cand


def find_template(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    """no earlier element of an array equals a target"""
    out = []
    t = entry.ghost.get("#target")
    if t is None: return out
    for i in ivars:
        x0 = lvars[i].entry
        for aid, a in entry.heap.items():
            if isinstance(a, Arr) and a.elem == "E":
                def fm(c, i=i, x0=x0, A=a.val):
                    q = z3.Int("q?")
                    return z3.ForAll([q], Imp(And(LE(x0, lin(q)), LT(lin(q), c.v[i])), EQC(z3.Select(A, q)) != EQC(t.z())), patterns=[z3.Select(A, q)])
                out.append(Cand("no earlier element equals the target", fm, True))
    return out


def units(mod):
    us = []

    def setup(target=False):
        def f(ex):
            st = State(); n = fresh("n"); cap = fresh("cap"); st.assume(And(LE(0, n), LE(n, cap), LE(cap, INTMAX // ESZ)))
            a = ex.add_arr(st, ESZ, cap, "E", "range", "param"); a = ex.mut(st, a.id); a.ro = True
            b = fresh("b"); st.assume(And(LE(0, b), LE(b, n)))
            st.assume(q1(lambda q: Imp(And(LE(b, q), LT(q, n)), z3.Select(a.live, q.z())), lambda q: z3.Select(a.live, q.z())))
            args = [a.base + b * ESZ, a.base + n * ESZ]; c = {"a": a, "b": b, "n": n}
            if target:
                o = ex.add_obj(st, ESZ, "target", "param"); o = ex.mut(st, o.id); t = fresh("t"); o.cells[0] = ("E", ElemV(t, TRUE)); o.ro = True
                args.append(o.base); c["t"] = t; st.ghost["#target"] = t
                out = [("", st, args, c)]
                s2 = st.fork(); k = fresh("k"); s2.assume(And(LE(b, k), LT(k, n))); tv = sel(a.val, k); s2.ghost["#target"] = tv
                out.append(("target inside the range", s2, args[:2] + [a.base + k * ESZ], dict(c, t=tv)))
                return out
            return [("", st, args, c)]
        return f

    def p_each(ex, st, r, c):
        n = c["n"] - c["b"]
        ex.oblige(st, "the callback runs once per element", EQ(st.ghost["nvisit"], n), "post")
        ex.oblige(st, "the callback sees the elements in order", prefix_eq(st.ghost["visited"], c["a"].val, n, 0, c["b"]), "post")

    def p_find(ex, st, r, c):
        a = c["a"]; i = (st.norm(r) - a.base).div(ESZ)
        if i is None: raise ToolLimit("find result")
        ex.oblige(st, "the result lies in the range", And(LE(c["b"], i), LE(i, c["n"])), "post")
        ex.oblige(st, "the result is the target or the end", Or(EQ(i, c["n"]), EQC(sel(a.val, i).z()) == EQC(c["t"].z())), "post")
        ex.oblige(st, "no earlier element equals the target", q1(lambda q: Imp(And(LE(c["b"], q), LT(q, i)), EQC(z3.Select(a.val, q.z())) != EQC(c["t"].z())), lambda q: z3.Select(a.val, q.z())), "post")
        no_leak(ex, st, set())
    for w in ("w_foreach", "w_foreach_p", "w_foreach_fn"): us.append(Unit("algorithm::for_each (%s)" % w[2:], w, setup(), p_each, templates=[visit_template]))
    for w in ("w_find", "w_find_p"): us.append(Unit("algorithm::find (%s)" % w[2:], w, setup(True), p_find, templates=[find_template]))
    return us


def build(tmp):
    mod = layout.extract("algo", tmp)
    return mod, units(mod)


CLAIMS = {"C27": ("all", ".*")}
