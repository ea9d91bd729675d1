"""Heap over Vector: slot 0 is unused, slots 1..n-1 are the elements in heap order.
Contents are counted for one arbitrary element value X0: the counts agree for every X0 exactly when the multisets do."""
from ..spec import *
from .vec import *
from .vec import _view_of

STEP = z3.Function("step", I, B)                # true of everything; limits instantiation
CNT = z3.Function("count_of_X0", AII, I, I)     # how many of slots 1..k-1 hold X0
DIFF = z3.Function("first_difference", AII, AII, I, I)
X0 = Lin(0, ((AT.of(z3.Int("X0")), 1),))


SHF = z3.Function("from", AII, I, AII)          # SHF(A, b)[i] = A[b + i - 1]: a range seen as slots 1..
UNF = z3.Function("unfold", AII, I, B)          # true of everything; limits instantiation


def at(a, i): return lin(z3.Select(a, Z(i)))
def cnt(a, k): return lin(CNT(a, Z(k)))
def one(c): return ite(c, Lin(1), Lin(0))


def unfold(a, k): return Imp(LE(1, k), EQ(cnt(a, k + 1), cnt(a, k) + one(EQ(at(a, k), X0))))


def axioms():
    q = z3.Int("q?"); k = z3.Int("k?"); v = z3.Int("v?"); A = z3.Const("A?", AII); B_ = z3.Const("B?", AII)
    K = lin(k); i = lin(q); d = lin(DIFF(A, B_, k))
    st = z3.Store(A, q, v)
    sh = SHF(A, v)
    return And(z3.ForAll([q], STEP(q), patterns=[STEP(q)]),
               z3.ForAll([A, k], And(UNF(A, k), unfold(A, K)), patterns=[UNF(A, k)]),
               z3.ForAll([A, v, q], z3.Select(sh, q) == z3.Select(A, v + q - 1), patterns=[z3.Select(sh, q)]),
               z3.ForAll([A, v, q, k], SHF(z3.Store(A, q, k), v) == z3.Store(SHF(A, v), q - v + 1, k), patterns=[SHF(z3.Store(A, q, k), v)]),
               z3.ForAll([A, B_, k], Or(EQ(cnt(A, K), cnt(B_, K)), And(LE(1, d), LT(d, K), NE(at(A, d), at(B_, d)))), patterns=[z3.MultiPattern(CNT(A, k), CNT(B_, k))]),
               z3.ForAll([A, q, v, k], EQ(cnt(st, K), ite(And(LE(1, i), LT(i, K)), cnt(A, K) - one(EQ(at(A, i), X0)) + one(EQ(lin(v), X0)), cnt(A, K))), patterns=[CNT(st, k)]),
               z3.ForAll([A], EQ(cnt(A, Lin(1)), 0), patterns=[CNT(A, z3.IntVal(1))]))


def prove_axioms(ex, st):
    """the lemmas behind axioms(), from the definition of the count (unfold, and 0 for k = 1)"""
    s = State(); s.ghost = dict(st.ghost)
    A, B_ = freshA("A"), freshA("B"); k = fresh("K"); i = fresh("i"); v = fresh("v")
    q = z3.Int("q?")
    defn = lambda a: And(EQ(cnt(a, Lin(1)), 0), z3.ForAll([q], Imp(STEP(q), unfold(a, lin(q))), patterns=[STEP(q)]))
    s.assume(z3.ForAll([q], STEP(q), patterns=[STEP(q)]))
    s.assume(And(defn(A), defn(B_), LE(1, k)))
    s1 = s.fork(); s1.assume(z3.ForAll([q], Imp(And(LE(1, lin(q)), LT(lin(q), k)), z3.Select(A, q) == z3.Select(B_, q)), patterns=[z3.Select(A, q)]))
    induct(ex, s1, "equal slots hold equal counts", lambda j: EQ(cnt(A, j), cnt(B_, j)), 1, k, STEP)
    s2 = s.fork(); C = freshA("C"); s2.assume(C == z3.Store(A, i.z(), v.z())); s2.assume(defn(C))
    induct(ex, s2, "a write changes the count by what it replaces", lambda j: EQ(cnt(C, j), ite(And(LE(1, i), LT(i, j)), cnt(A, j) - one(EQ(at(A, i), X0)) + one(EQ(v, X0)), cnt(A, j))), 1, k, STEP)


def ordn(r, A, n, i):
    """no child of slot i precedes it"""
    return And(Imp(LT(2 * i, n), LE(r(at(A, i)), r(at(A, 2 * i)))), Imp(LT(2 * i + 1, n), LE(r(at(A, i)), r(at(A, 2 * i + 1)))))


def order(r, A, n, L=1, exc=None, skip=None):
    """heap order from slot L on; not for slot exc; not between slot skip and its parent"""
    q = z3.Int("q?"); i = lin(q)
    g = [STEP(q), LE(L, i)]
    if exc is not None: g.append(NE(i, exc))
    if skip is None: body = ordn(r, A, n, i)
    else: body = And(*[Imp(And(LT(c, n), NE(c, skip)), LE(r(at(A, i)), r(at(A, c)))) for c in (2 * i, 2 * i + 1)])
    return z3.ForAll([q], Imp(And(*g), body), patterns=[STEP(q)])


def grand(r, A, n, L, x):
    """the parent of slot x precedes or equals x's children"""
    q = z3.Int("q?"); i = lin(q)
    ch = And(*[Imp(LT(c, n), LE(r(at(A, i)), r(at(A, c)))) for c in (2 * x, 2 * x + 1)])
    return z3.ForAll([q], Imp(And(STEP(q), LE(L, i), Or(EQ(2 * i, x), EQ(2 * i + 1, x))), ch), patterns=[STEP(q)])


def templates(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    from ..loops import Cand
    out = []
    cid = entry.ghost.get("#cid")
    if cid is None: return out
    r = lambda v: crank(cid, v)
    for aid in sorted({i for i, fld in hv.arrs if fld == "val"}):
        a0 = entry.heap.get(aid)
        if not isinstance(a0, Arr) or a0.elem != "E" or a0.kind != "heap": continue
        n = _view_of(entry, aid)
        if n is None: continue
        A = lambda c, aid=aid: c.st.heap[aid].val
        out.append(Cand("the multiset of elements is kept", lambda c, A=A, n=n, a0=a0: EQ(cnt(A(c), n), cnt(a0.val, n)), True))
        for i in ivars:
            x0 = lvars[i].entry; nm = lvars[i].name

            def down(c, i=i, A=A, n=n, L=x0):
                x = c.v[i]
                a = A(c)
                return And(STEP(x.z()), STEP((2 * x).z()), STEP((2 * x + 1).z()), LE(L, x), order(r, nm_(c, a), n, L, exc=x), grand(r, nm_(c, a), n, L, x))

            def up(c, i=i, A=A, n=n):
                x = c.v[i]; a = A(c)
                return And(STEP(x.z()), STEP(x.z() / 2), LE(1, x), order(r, nm_(c, a), n, 1, skip=x), grand(r, nm_(c, a), n, 1, x))

            def above(c, i=i, A=A, n=n):
                x = c.v[i]
                return And(STEP(x.z()), order(r, nm_(c, A(c)), n, x + 1))
            out.append(Cand("heap order except below %s" % nm, down, True))
            out.append(Cand("heap order except between %s and its parent" % nm, up, True))
            out.append(Cand("heap order above %s" % nm, above, True))
        F = entry.ghost.get("#floor")
        if F is not None:
            out.append(Cand("no element precedes the one removed", lambda c, A=A, n=n: floor(r, A(c), n, F), True))
    return out


def floor(r, A, n, F):
    q = z3.Int("q?")
    return z3.ForAll([q], Imp(And(LE(1, lin(q)), LT(lin(q), n)), LE(F, r(lin(z3.Select(A, q))))), patterns=[z3.Select(A, q)])


def sorted_(r, A, lo, hi):
    q = z3.Int("q?"); i = lin(q)
    return z3.ForAll([q], Imp(And(STEP(q), LE(lo, i), LT(i + 1, hi)), LE(r(at(A, i)), r(at(A, i + 1)))), patterns=[STEP(q)])


def sort_template(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    """the part of the range already written is sorted, precedes what is left in the heap, and together they are the range"""
    from ..loops import Cand
    out = []
    g = entry.ghost.get("#range")
    if g is None: return out
    aid, b, n, SH = g
    cid = entry.ghost["#cid"]; r = lambda v: crank(cid, v)
    for h, addr in sorted(hv.views, key=str):
        view = lambda c, h=h, addr=addr: h.peek(ex, c.st, addr)
        out.append(Cand("the heap stays ordered", lambda c, view=view: And(LE(1, view(c).n), order(r, view(c).val, view(c).n)), True))
        for i in ivars:
            A = lambda c: c.st.heap[aid].val
            def cons(c, view=view, i=i):
                v = view(c); k = c.v[i] - b + 1; s = SHF(A(c), Z(b))
                return And(UNF(s, Z(k)), UNF(v.val, Z(v.n)), EQ(cnt(s, k) + cnt(v.val, v.n), cnt(SH, n)))
            out.append(Cand("elements before %s and in the heap are those of the range" % lvars[i].name, cons, True))
            out.append(Cand("elements before %s are in order" % lvars[i].name, lambda c, i=i: And(STEP(Z(c.v[i] - 2)), STEP(Z(c.v[i] - 1)), sorted_(r, A(c), b, c.v[i])), True))
            out.append(Cand("the element before %s precedes the heap" % lvars[i].name, lambda c, i=i, view=view: Imp(LT(b, c.v[i]), floor(r, view(c).val, view(c).n, r(at(A(c), c.v[i] - 1)))), True))
    return out


def nm_(c, a): return a


def build_spec(tmp):
    from .. import layout
    mod = layout.extract("heap", tmp)
    V = vec(tmp)
    oC, oV, size, oIt = layout.offsets("heap_layout.hpp", ["__builtin_offsetof(S_, mCmp_d)", "__builtin_offsetof(S_, mHeap_d)", "sizeof(S_)", "__builtin_offsetof(It_, mPointer_d)"], tmp, "heap")

    def extra(ex, st, o, v, name):
        if v.aid is None: return []
        st = st.fork()
        cid = fresh(name + ".order"); ob = ex.mut(st, o.id); ob.cells[oC] = (8, cid)
        st.assume(axioms())
        st.assume(LE(1, v.n)); st.assume(order(lambda x: crank(cid, x), v.val, v.n))
        if name == "this": st.ghost["#cid"] = cid
        for k in (v.n, v.n - 1): st.assume(And(STEP(k.z()), unfold(v.val, k)))
        st.assume(EQ(cnt(v.val, Lin(1)), 0))
        return [("", st, {"cid": cid})]

    def holds(ex, st, o, n, cid, what="result"):
        cell = st.heap[o.id].cells.get(oC)
        if cell is None or n.val is None:
            ex.oblige(st, what + ": comparator and slot 0 are constructed", FALSE, "inv"); return
        ex.oblige(st, what + ": it is ordered by its comparator", EQ(cell[1], cid), "post")
        ex.oblige(st, what + ": slot 0 exists", LE(1, n.n), "inv")
        ex.oblige(st, what + ": no child precedes its parent", order(lambda x: crank(cid, x), n.val, n.n), "inv")

    def frame(ex, st, o, v, c):
        cc = st.heap[o.id].cells.get(oC)
        return [("the comparator is kept", EQ(cc[1], c["cid"]) if cc else FALSE)]
    B = Based(V, size, oV, extra, None, frame)
    setup, post = B.setup, B.post
    vcs = VecContracts(V).all()
    us = []

    def facts(ex, st, V_, old, new):
        if new.val is not None and old.val is not None:
            for k in (old.n, old.n - 1): st.assume(And(unfold(new.val, k), unfold(old.val, k)))

    def U(name, fn, s, p, contracts=(), **k):
        us.append(Unit("Heap::" + name, fn, s, p, contracts=list(contracts) + vcs, templates=[templates, sort_template, visit_template], special={"#reproduce": (VecHook(V),), "#vecfacts": (facts,)}, **k))
    same = unchanged(B)
    ne = lambda c: [LE(2, c["old"].n)]

    def empty_with(cidf):
        def g(ex, st, o, n, r, c):
            holds(ex, st, c["obj"], n, cidf(c))
            return [("the heap is empty", EQ(n.n, 1))]
        return g

    def axset(s):
        def f(ex):
            r = s(ex)
            for x in r: x[1].assume(axioms())
            return r
        return f

    def setup_cmp(ex):
        res = []
        for l, s, al, c in setup(ctor=True)(ex):
            co = ex.add_obj(s, 8, "order", "param"); co = ex.mut(s, co.id); cid = fresh("order"); co.cells[0] = (8, cid); co.ro = True
            s.ghost["#cid"] = cid; s.assume(axioms())
            res.append((l, s, [al[0], co.base], dict(c, cid=cid)))
        return res

    def cp(ex, st, o, n, r, c):
        holds(ex, st, c["obj"], n, c["sctx"]["cid"])
        st.assume(unfold(c["src"].val, c["src"].n))
        return [("same number of elements as the source", EQ(n.n, c["src"].n)), ("the same elements as the source", EQ(cnt(n.val, n.n), cnt(c["src"].val, n.n)))]

    def cp_moved(ex, st, o, n, r, c):
        sv = V.read(ex, st, c["sobj"], oV, "source")
        if sv is not None and not c.get("self"): holds(ex, st, c["sobj"], sv, c["sctx"]["cid"], "source")
        return cp(ex, st, o, n, r, c) + ([("the moved-from heap is empty and usable", EQ(sv.n, 1))] if sv is not None and not c.get("self") else [])
    moved = "any"
    U("Heap()", "w_ctor", axset(setup(ctor=True)), post(empty_with(lambda c: DEFCMP)))
    U("Heap(cmp)", "w_ctor_cmp", setup_cmp, post(empty_with(lambda c: c["cid"])))
    U("Heap(copy)", "w_copy_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cp))
    U("Heap(move)", "w_move_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cp_moved, srcafter=moved))
    U("operator=(copy)", "w_copy", setup(src=True, alias_src=True, args=["this", "src"]), post(cp))
    U("operator=(move)", "w_move", setup(src=True, args=["this", "src"]), post(cp_moved, srcafter=moved))
    U("~Heap", "w_dtor", setup(), post(lambda *a: [], dtor=True))

    def emp(ex, st, o, n, r, c):
        prove_axioms(ex, st)
        return same(ex, st, o, n, r, c) + [("empty exactly when there are no elements", r == EQ(o.n, 1))]
    U("empty", "w_empty", setup(), post(emp))
    U("size", "w_size", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("size counts the elements", EQ(r, o.n - 1))]))

    def top_post(ex, st, o, n, r, c):
        lemma_top(ex, st, o, c["cid"])
        k = fresh("k")
        return same(ex, st, o, n, r, c) + [("top is an element", EQ(r, at(o.val, Lin(1)))), ("no element precedes top", Imp(And(LE(1, k), LT(k, o.n)), LE(crank(c["cid"], r), crank(c["cid"], at(o.val, k)))))]
    U("top", "w_top", setup(args=["out", "this"], pre=ne, out=True), post(top_post))

    def push_post(ex, st, o, n, r, c):
        holds(ex, st, c["obj"], n, c["cid"])
        return [("size grows by one", EQ(n.n, o.n + 1)), ("the pushed element joins the others", EQ(cnt(n.val, n.n), cnt(o.val, o.n) + one(EQ(c["e"], X0))))]
    U("push", "w_push", setup(elem=True, args=["this", "e"], pre=lambda c: [LE(2 * c["old"].n + 2, V.max)]), post(push_post))

    def pop_post(ex, st, o, n, r, c):
        holds(ex, st, c["obj"], n, c["cid"])
        return [("size shrinks by one", EQ(n.n, o.n - 1)), ("no remaining element precedes the one removed", floor(lambda v: crank(c["cid"], v), n.val, n.n, crank(c["cid"], at(o.val, Lin(1))))), ("exactly the top element leaves", EQ(cnt(n.val, n.n) + one(EQ(at(o.val, Lin(1)), X0)), cnt(o.val, o.n)))]
    def pop_setup(ex):
        res = setup(pre=ne)(ex)
        for l, s, al, c in res:
            ex.under = "Heap::pop"; lemma_top(ex, s, c["old"], c["cid"])
            s.ghost["#floor"] = crank(c["cid"], at(c["old"].val, Lin(1)))
        return res
    U("pop", "w_pop", pop_setup, post(pop_post))

    def vis(ex, st, o, n, r, c):
        q = z3.Int("q?"); v = st.ghost["visited"]
        return same(ex, st, o, n, r, c) + [("iteration visits every element", EQ(st.ghost["nvisit"], o.n - 1)),
            ("iteration visits the elements once, parents before children", z3.ForAll([q], Imp(And(LE(0, lin(q)), LT(lin(q), o.n - 1)), z3.Select(v, q) == z3.Select(o.val, q + 1))))]
    U("iterator", "w_iterate", setup(), post(vis))

    # ---- from a range
    def range_setup(kind):
        def f(ex):
            st = State(); st.assume(axioms())
            cntv = fresh("range.len"); b = fresh("b"); e = fresh("e")
            a = ex.add_arr(st, V.es, cntv, "E", "range", "param")
            if kind == "ctor": a = ex.mut(st, a.id); a.ro = True
            st.assume(And(LE(0, cntv), LE(cntv, V.max), LE(0, b), LE(b, e), LE(e, cntv), LE(2 * (e - b) + 6, V.max)))
            q = z3.Int("q?")
            st.assume(z3.ForAll([q], Imp(And(LE(b, lin(q)), LT(lin(q), e)), z3.Select(a.live, q)), patterns=[z3.Select(a.live, q)]))
            SH = SHF(a.val, Z(b))
            n = e - b + 1
            st.ghost["#cid"] = DEFCMP; st.assume(And(STEP(n.z()), unfold(SH, n), unfold(SH, n - 1), EQ(cnt(SH, Lin(1)), 0)))
            c = {"n": n, "SH": SH, "arr": a.id, "b": b, "e": e, "val": a.val, "live": a.live}
            args = [a.base + b * V.es, a.base + e * V.es]
            if kind == "ctor":
                o = ex.add_obj(st, size, "this", "param"); c["obj"] = o; args = [o.base] + args; c["old"] = None
            if kind == "build":
                o = ex.add_obj(st, size, "result", "param"); c["obj"] = o; args = [o.base] + args; c["old"] = None
            return [("", st, args, c)]
        return f

    def range_post(ex, st, o, n, r, c):
        holds(ex, st, c["obj"], n, DEFCMP)
        if n.val is None: return []
        a = st.heap[c["arr"]]
        st.assume(EQ(cnt(n.val, c["n"]), cnt(n.val, c["n"])))
        return [("the heap has the elements of the range", And(EQ(n.n, c["n"]), EQ(cnt(n.val, n.n), cnt(c["SH"], n.n)))), ("the range is unchanged", And(a.val == c["val"], a.live == c["live"]))]
    U("Heap(range)", "w_ctor_range", range_setup("ctor"), post(range_post))

    # ---- contracts of the heap for its callers
    def arg_iter(ex, st, addr, what):
        from ..ir import PTR
        p = ex.load(st, ex.as_int(addr) + oIt, PTR, what)
        return None if p is None else st.norm(ex.as_int(p))

    def c_range(ex, st, args, dem):
        obj, base = V.at(ex, st, ex.as_int(args[0]), "Heap(range)")
        pb = arg_iter(ex, st, args[1], "Heap(range) begin"); pe = arg_iter(ex, st, args[2], "Heap(range) end")
        if pb is None or pe is None: return []
        a = None
        for x, k in pb.t:
            if x in st.bases and isinstance(st.heap[st.bases[x]], Arr): a = st.heap[st.bases[x]]
        if a is None: raise ToolLimit("Heap(range) over %s" % pb)
        b = (pb - a.base).div(a.stride); e = (pe - a.base).div(a.stride)
        if b is None or e is None: raise ToolLimit("Heap(range) over %s, %s" % (pb, pe))
        q = z3.Int("q?")
        ex.oblige(st, "Heap(range): a valid range of live elements", And(LE(0, b), LE(b, e), LE(e, a.count), LE(2 * (e - b) + 6, V.max)), "pre")
        ex.oblige(st, "Heap(range): the elements of the range are live", z3.ForAll([q], Imp(And(LE(b, lin(q)), LT(lin(q), e)), z3.Select(a.live, q)), patterns=[z3.Select(a.live, q)]), "lifetime")
        n = e - b + 1
        (_, s, v), = V.produce(ex, st, obj, base + oV, name="heap", split=False)
        o = ex.mut(s, obj.id); o.cells[base + oC] = (8, DEFCMP)
        r = lambda x: crank(DEFCMP, x)
        s.assume(And(EQ(v.n, n), order(r, v.val, n), EQ(cnt(v.val, n), cnt(SHF(a.val, Z(b)), n))))
        return [(s, None)]

    def at_heap(ex, st, addr, what):
        obj, base = V.at(ex, st, ex.as_int(addr), what)
        v = V.read(ex, st, obj, base + oV, what)
        if v is None or v.aid is None: return None
        V.inv(ex, st, v, what)
        cell = st.heap[obj.id].cells.get(base + oC)
        if cell is None:
            ex.oblige(st, what + ": the comparator is constructed", FALSE, "pre"); return None
        r = lambda x: crank(cell[1], x)
        ex.oblige(st, what + ": no child precedes its parent", order(r, v.val, v.n), "pre")
        return obj, base, v, cell[1], r

    def c_top(ex, st, args, dem):
        h = at_heap(ex, st, args[1], "Heap::top")
        if h is None: return []
        obj, base, v, cid, r = h
        ex.oblige(st, "Heap::top: not empty", LE(2, v.n), "pre")
        t = at(v.val, Lin(1))
        st.assume(floor(r, v.val, v.n, r(t)))
        d = ex.eref(st, ex.as_int(args[0]), "result of top")
        if d is None: return []
        ex.oblige(st, "element is constructed in memory holding no element", Not(ex.eget(st, d).live), "lifetime")
        ex.eset(st, d, t, TRUE)
        return [(st, None)]

    def c_pop(ex, st, args, dem):
        h = at_heap(ex, st, args[0], "Heap::pop")
        if h is None: return []
        obj, base, v, cid, r = h
        ex.oblige(st, "Heap::pop: not empty", LE(2, v.n), "pre")
        t = at(v.val, Lin(1))
        V.forget(ex, st, obj, base + oV, v)
        (_, s, w), = V.produce(ex, st, obj, base + oV, name="heap", split=False)
        s.assume(And(EQ(w.n, v.n - 1), order(r, w.val, w.n), floor(r, w.val, w.n, r(t)), EQ(cnt(w.val, w.n) + one(EQ(t, X0)), cnt(v.val, v.n))))
        return [(s, None)]
    n_ = r"dstruct::Heap<Elem, Cmp, VA>::"
    hcs = [Contract("Heap::Heap(range)", n_ + r"Heap\(dstruct::PrimitiveIterator<Elem> const&, dstruct::PrimitiveIterator<Elem> const&\)", c_range),
           Contract("Heap::top", n_ + r"top\(\) const", c_top), Contract("Heap::pop", n_ + r"pop\(\)", c_pop)]

    def outside(c, a):
        q = z3.Int("q?")
        return [("nothing outside the range changes", z3.ForAll([q], Imp(Or(LT(lin(q), c["b"]), LE(c["e"], lin(q))), z3.Select(a.val, q) == z3.Select(c["val"], q)))),
                ("every element stays alive", z3.ForAll([q], z3.Select(a.live, q) == z3.Select(c["live"], q)))]

    def sort_post(ex, st, res, c):
        a = st.heap[c["arr"]]; n = c["n"]; S = SHF(a.val, Z(c["b"]))
        k = fresh("k"); r = lambda x: crank(DEFCMP, x)
        ex.oblige(st, "the range is a permutation of what it held", EQ(cnt(S, n), cnt(c["SH"], n)), "post")
        st.assume(STEP(k.z()))
        ex.oblige(st, "no element precedes an earlier one", Imp(And(LE(c["b"], k), LT(k + 1, c["e"])), LE(r(at(a.val, k)), r(at(a.val, k + 1)))), "post")
        for nm, g in outside(c, a): ex.oblige(st, nm, g, "post")
        no_leak(ex, st, set())

    def sort_setup(ex):
        res = range_setup("sort")(ex)
        for l, s, al, c in res: s.ghost["#range"] = (c["arr"], c["b"], c["n"], c["SH"])
        return res
    U("sort", "w_sort", sort_setup, sort_post, contracts=hcs)

    def build_post(ex, st, o, n, r, c):
        holds(ex, st, c["obj"], n, DEFCMP)
        if n.val is None: return []
        a = st.heap[c["arr"]]; S = SHF(a.val, Z(c["b"])); q = z3.Int("q?")
        ex.oblige(st, "the range holds the elements of the heap in order", z3.ForAll([q], Imp(And(LE(1, lin(q)), LT(lin(q), c["n"])), z3.Select(S, q) == z3.Select(n.val, q)), patterns=[z3.Select(S, q)]), "post")
        return [("the returned heap has the elements of the range", And(EQ(n.n, c["n"]), EQ(cnt(n.val, n.n), cnt(c["SH"], n.n)))),
                ("the range is a permutation of what it held", EQ(cnt(S, c["n"]), cnt(c["SH"], c["n"]))),
                ("the range is in heap order", order(lambda x: crank(DEFCMP, x), S, c["n"]))] + outside(c, a)
    U("build", "w_build", range_setup("build"), post(build_post), contracts=hcs)
    return mod, us, V, B, holds, range_setup


def lemma_top(ex, st, o, cid):
    """heap order makes slot 1 extreme: induction over the slots (each slot's parent comes earlier)"""
    r = lambda i: crank(cid, at(o.val, i))
    s = st.fork(); k = fresh("k"); g = fresh("half")
    s.assume(And(LE(1, k), LT(k, o.n), LE(2 * g, k), LE(k, 2 * g + 1), STEP(g.z())))
    q = z3.Int("q?")
    s.assume(z3.ForAll([q], Imp(And(STEP(q), LE(1, lin(q)), LT(lin(q), k)), LE(r(Lin(1)), r(lin(q)))), patterns=[STEP(q)]))
    ex.oblige(s, "lemma: no slot precedes slot 1", LE(r(Lin(1)), r(k)), "post")
    st.assume(z3.ForAll([q], Imp(And(LE(1, lin(q)), LT(lin(q), o.n)), LE(r(Lin(1)), r(lin(q)))), patterns=[z3.Select(o.val, q)]))


def build(tmp):
    mod, us, *_ = build_spec(tmp)
    return mod, us


CLAIMS = {"C06": ("all", "(?!Heap::(sort|build))"), "C07": ("all", ".*(range|top|pop|~Heap|sort|build|empty)")}
