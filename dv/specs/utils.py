"""less, greater, swap, max, abs, construct, destroy"""
from ..spec import *
from .. import layout


def units(mod):
    us = []

    def cellobj(ex, st, w, v, name, ro=True):
        o = ex.add_obj(st, ESZ if w == "E" else w, name, "param"); o = ex.mut(st, o.id); o.cells[0] = (w, v); o.ro = ro
        return o

    def ints(w, ro=True, alias=False):
        def f(ex):
            out = []
            st = State(); a, b = fresh("a"), fresh("b"); lo, hi = ex.rng(8 * w)
            for x in (a, b): st.assume(And(LE(lo, x), LE(x, hi)))
            oa = cellobj(ex, st, w, a, "a", ro); ob = cellobj(ex, st, w, b, "b", ro)
            out.append(("", st, [oa.base, ob.base], {"a": a, "b": b, "oa": oa.id, "ob": ob.id}))
            if alias:
                s = State(); s.assume(And(LE(lo, a), LE(a, hi))); oa = cellobj(ex, s, w, a, "a", ro)
                out.append(("same object", s, [oa.base, oa.base], {"a": a, "b": a, "oa": oa.id, "ob": oa.id}))
            return out
        return f

    def elems(ro=True, alias=False, res=False):
        def f(ex):
            out = []
            for al in ((0, 1) if alias else (0,)):
                st = State(); a, b = fresh("a"), fresh("b")
                oa = cellobj(ex, st, "E", ElemV(a, TRUE), "a", ro)
                ob = oa if al else cellobj(ex, st, "E", ElemV(b, TRUE), "b", ro)
                c = {"a": a, "b": a if al else b, "oa": oa.id, "ob": ob.id}
                args = [oa.base, ob.base]
                if res:
                    r = cellobj(ex, st, "E", ElemV(fresh("raw"), FALSE), "result", False); args = [r.base] + args; c["r"] = r.id
                out.append(("same object" if al else "", st, args, c))
            return out
        return f

    def one(w):
        def f(ex):
            st = State(); a = fresh("a"); lo, hi = ex.rng(8 * w); st.assume(And(LE(lo + 1, a), LE(a, hi)))
            oa = cellobj(ex, st, w, a, "a"); return [("", st, [oa.base], {"a": a})]
        return f

    def P(f):
        def g(ex, st, r, c):
            for n, x in f(ex, st, r, c): ex.oblige(st, n, x, "post")
        return g
    bo = lambda st, i: st.heap[i].cells[0][1]
    U = lambda n, fn, s, p: us.append(Unit("utils::" + n, fn, s, p))
    u64 = lambda x: lin(z3.If(x.z() < 0, x.z() + (1 << 64), x.z()))
    U("less<int>", "w_less_i", ints(4), P(lambda ex, st, r, c: [("a < b", r == LT(c["a"], c["b"]))]))
    U("greater<int>", "w_greater_i", ints(4), P(lambda ex, st, r, c: [("a > b", r == LT(c["b"], c["a"]))]))
    U("less<u64>", "w_less_u", ints(8), P(lambda ex, st, r, c: [("a < b", r == LT(u64(c["a"]), u64(c["b"])))]))
    U("greater<u64>", "w_greater_u", ints(8), P(lambda ex, st, r, c: [("a > b", r == LT(u64(c["b"]), u64(c["a"])))]))
    U("less<Elem>", "w_less_e", elems(), P(lambda ex, st, r, c: [("a < b", r == LT(rank(c["a"]), rank(c["b"])))]))
    U("greater<Elem>", "w_greater_e", elems(), P(lambda ex, st, r, c: [("a > b", r == LT(rank(c["b"]), rank(c["a"])))]))

    def ptrs(ex):
        st = State(); a = fresh("p", ptr=True); b = fresh("q", ptr=True)
        for x in (a, b): st.assume(And(LE(0, x), LE(x, E.MAXADDR)))
        return [("", st, [a, b], {"a": a, "b": b})]
    # one total preorder each: null first (less), null last (greater)
    U("less<T*>", "w_less_p", ptrs, P(lambda ex, st, r, c: [("null first, otherwise address order", r == LT(c["a"], c["b"]))]))
    U("greater<T*>", "w_greater_p", ptrs, P(lambda ex, st, r, c: [("null last, otherwise reverse address order", r == And(NE(c["a"], 0), Or(EQ(c["b"], 0), LT(c["b"], c["a"]))))]))

    def order_lemma(kind):
        """the pointer orders are strict: irreflexive, asymmetric, transitive (a lemma over the contracts above)"""
        def g(ex, st, r, c):
            x, y, z = fresh("x"), fresh("y"), fresh("z")
            for v in (x, y, z): st.assume(LE(0, v))
            R = (lambda a, b: LT(a, b)) if kind == "less" else (lambda a, b: And(NE(a, 0), Or(EQ(b, 0), LT(b, a))))
            ex.oblige(st, "lemma: irreflexive", Not(R(x, x)), "post")
            ex.oblige(st, "lemma: asymmetric", Imp(R(x, y), Not(R(y, x))), "post")
            ex.oblige(st, "lemma: transitive", Imp(And(R(x, y), R(y, z)), R(x, z)), "post")
        return g
    U("less<T*> order lemma", "w_less_p", ptrs, order_lemma("less"))
    U("greater<T*> order lemma", "w_greater_p", ptrs, order_lemma("greater"))
    U("swap<Elem>", "w_swap", elems(False, True), P(lambda ex, st, r, c: [("values exchanged", And(EQ(bo(st, c["oa"]).val, c["b"]), EQ(bo(st, c["ob"]).val, c["a"]), bo(st, c["oa"]).live, bo(st, c["ob"]).live))]))
    U("swap<int>", "w_swap_i", ints(4, False, True), P(lambda ex, st, r, c: [("values exchanged", And(EQ(bo(st, c["oa"]), c["b"]), EQ(bo(st, c["ob"]), c["a"])))]))
    U("max<int>", "w_max_i", ints(4), P(lambda ex, st, r, c: [("one of the arguments, not less than either", And(Or(EQ(r, c["a"]), EQ(r, c["b"])), LE(c["a"], r), LE(c["b"], r)))]))
    U("max<Elem>", "w_max_e", elems(True, True, True), P(lambda ex, st, r, c: [("one of the arguments, not less than either", And(bo(st, c["r"]).live, Or(EQ(bo(st, c["r"]).val, c["a"]), EQ(bo(st, c["r"]).val, c["b"])), LE(rank(c["a"]), rank(bo(st, c["r"]).val)), LE(rank(c["b"]), rank(bo(st, c["r"]).val))))]))
    for n, w in (("i", 4), ("l", 8)):
        U("abs<%d>" % (8 * w), "w_abs_" + n, one(w), P(lambda ex, st, r, c: [("the magnitude", And(LE(0, r), Or(EQ(r, c["a"]), EQ(r, -c["a"]))))]))
    U("IsPointer", "w_isptr", lambda ex: [("", State(), [], {})], P(lambda ex, st, r, c: [("tells pointers from values", r)]))

    def rawslot(w, live=False):
        def f(ex):
            st = State(); x = fresh("x")
            o = ex.add_obj(st, ESZ if w == "E" else w, "slot", "param")
            if w == "E": o = ex.mut(st, o.id); o.cells[0] = ("E", ElemV(fresh("raw"), TRUE if live else FALSE))
            s = cellobj(ex, st, w, ElemV(x, TRUE) if w == "E" else x, "src")
            if w != "E": st.assume(And(LE(-(1 << 31), x), LT(x, 1 << 31)))
            return [("", st, [o.base, s.base] if not live else [o.base], {"o": o.id, "x": x, "p": o.base})]
        return f
    U("construct<int>", "w_construct_int", rawslot(4), P(lambda ex, st, r, c: [("the slot holds the value and is returned", And(EQ(bo(st, c["o"]), c["x"]), EQ(r, c["p"])))]))
    U("construct<Elem>", "w_construct", rawslot("E"), P(lambda ex, st, r, c: [("the slot holds a copy and is returned", And(EQ(bo(st, c["o"]).val, c["x"]), bo(st, c["o"]).live, EQ(r, c["p"])))]))
    U("destroy", "w_destroy", rawslot("E", True), P(lambda ex, st, r, c: [("the element is destroyed once", Not(bo(st, c["o"]).live))]))
    U("move", "w_move_i", lambda ex: [(l, s, a[:1], dict(c, p=a[0])) for l, s, a, c in ints(4)(ex)], P(lambda ex, st, r, c: [("move names the same object", EQ(r, c["p"]))]))
    U("_remove_const", "w_remove_const", lambda ex: [(l, s, a[:1], dict(c, p=a[0])) for l, s, a, c in ints(4)(ex)], P(lambda ex, st, r, c: [("names the same object", EQ(r, c["p"]))]))
    return us


def build(tmp):
    mod = layout.extract("utils", tmp)
    return mod, units(mod)


CLAIMS = {"C28": ("all", ".*")}
