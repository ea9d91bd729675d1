"""MinStack/MaxStack: ghost sequences S (the elements), X (extreme of each prefix), W (its index), pos (where the
element sits in the underlying stack).  Element i is preceded by the extreme it replaced exactly when i == 0 or the
old extreme did not precede it."""
from ..spec import *
from .vec import *


# STEP(i) is true of every i; it only limits where the facts about neighbouring elements are instantiated
STEP = z3.Function("step", I, B)


class G:
    def __init__(self, n, S, X, W, pos, cid): self.n = n; self.S = S; self.X = X; self.W = W; self.pos = pos; self.cid = cid


def S_(a, i): return lin(z3.Select(a, Z(i)))


def saved(g, i):
    """element i (>0) is stored together with the extreme it replaced"""
    return Not(LT(crank(g.cid, S_(g.X, i - 1)), crank(g.cid, S_(g.S, i))))


def shape(g, m, val, mx):
    """[(name, formula)] relating the ghost sequences to the stored array val[0..m) and the extreme mx"""
    q = z3.Int("q?"); p = z3.Int("p?"); i = lin(q); j = lin(p)
    pos = lambda k: S_(g.pos, k)
    A = []
    inn = And(LE(0, i), LT(i, g.n)); inn1 = And(LT(0, i), LT(i, g.n))
    pp = [z3.Select(g.pos, q)]; sp = [STEP(q)]
    if val is None:
        return [("an empty stack has nothing stored", EQ(g.n, 0))]
    A.append(("stored exactly up to the last element", And(Imp(EQ(g.n, 0), EQ(m, 0)), Imp(LT(0, g.n), And(EQ(m, pos(g.n - 1) + 1), EQ(pos(Lin(0)), 1))))))
    A.append(("element i is stored", z3.ForAll([q], Imp(inn, And(LE(1, pos(i)), LT(pos(i), m), EQ(lin(z3.Select(val, pos(i).z())), S_(g.S, i)))), patterns=pp)))
    A.append(("elements are stored in order", z3.ForAll([q, p], Imp(And(LE(0, i), LT(i, j), LT(j, g.n)), LT(pos(i), pos(j))), patterns=[z3.MultiPattern(z3.Select(g.pos, q), z3.Select(g.pos, p))])))
    A.append(("an element takes two slots exactly when it replaced the extreme", z3.ForAll([q], Imp(And(STEP(q), inn1), EQ(pos(i), pos(i - 1) + 1 + ite(saved(g, i), Lin(1), Lin(0)))), patterns=sp)))
    A.append(("the replaced extreme is stored below the element", z3.ForAll([q], Imp(And(STEP(q), And(inn1, saved(g, i))), EQ(lin(z3.Select(val, (pos(i) - 1).z())), S_(g.X, i - 1))), patterns=sp)))
    A.append(("the extreme follows the elements", z3.ForAll([q], Imp(And(STEP(q), inn1), EQ(S_(g.X, i), ite(saved(g, i), S_(g.S, i), S_(g.X, i - 1)))), patterns=sp)))
    A.append(("the first element is its own extreme", Imp(LT(0, g.n), EQ(S_(g.X, Lin(0)), S_(g.S, Lin(0))))))
    A.append(("the extreme is an element of the stack", z3.ForAll([q], Imp(inn, And(LE(0, S_(g.W, i)), LE(S_(g.W, i), i), EQ(S_(g.X, i), S_(g.S, S_(g.W, i))))), patterns=[z3.Select(g.X, q)])))
    A.append(("no element precedes the extreme", z3.ForAll([q, p], Imp(And(LE(0, j), LE(j, i), LT(i, g.n)), LE(crank(g.cid, S_(g.X, i)), crank(g.cid, S_(g.S, j)))), patterns=[z3.MultiPattern(z3.Select(g.X, q), z3.Select(g.S, p))])))
    A.append(("the reported extreme is the extreme of the whole stack", Imp(LT(0, g.n), EQ(mx, S_(g.X, g.n - 1)))))
    return A


def build(tmp):
    from .. import layout
    mod = layout.extract("xstack", tmp)
    V = vec(tmp)
    oX, oC, oS, oD, size = layout.offsets("xstack_layout.hpp", ["__builtin_offsetof(S_, mXValue_d)", "__builtin_offsetof(S_, mCmp_d)", "__builtin_offsetof(S_, mStack_d)", "__builtin_offsetof(SS_, mDS_d)", "sizeof(S_)"], tmp, "xstack")

    def extra(ex, st, o, v, name):
        st = st.fork()
        cid = fresh(name + ".order"); mx = fresh(name + ".mx"); n = fresh(name + ".len")
        ob = ex.mut(st, o.id)
        ob.cells[oX] = ("E", ElemV(mx, TRUE)); ob.cells[oC] = (8, cid)
        st.assume(LE(0, n))
        g = G(n, freshA(name + ".S"), freshA(name + ".X"), freshA(name + ".W"), freshA(name + ".pos"), cid)
        for _, f in shape(g, v.n, v.val, mx): st.assume(f)
        for k in (0, n - 1, n - 2):      # the instances every operation needs
            st.assume(STEP(lin(k).z()))
        return [("", st, {"g": g, "mx": mx})]

    def cells(ex, st, o):
        ob = st.heap[o.id]; x = ob.cells.get(oX); c = ob.cells.get(oC)
        return x, c

    def holds(ex, st, o, v, g, what):
        """the stored data represent ghost state g"""
        x, c = cells(ex, st, o)
        if x is None or c is None:
            ex.oblige(st, what + ": extreme and comparator are constructed", FALSE, "lifetime"); return
        ex.oblige(st, what + ": the extreme is a live element", x[1].live, "lifetime")
        ex.oblige(st, what + ": it is ordered by its comparator", EQ(c[1], g.cid), "post")
        for nm, f in shape(g, v.n, named(st, v.val, "val"), x[1].val): ex.oblige(st, what + ": " + nm, f, "inv")

    def frame(ex, st, o, v, c):
        x, cc = cells(ex, st, o)
        if x is None or cc is None: return [("its extreme and comparator are kept", FALSE)]
        return [("the extreme is kept", And(x[1].live, EQ(x[1].val, c["mx"]))), ("the comparator is kept", EQ(cc[1], c["g"].cid))]
    B = Based(V, size, oS + oD, extra, None, frame)
    setup, post = B.setup, B.post
    contracts = VecContracts(V).all()
    special = {"Elem::operator==(Elem const&) const": eq_special("=="), "Elem::operator!=(Elem const&) const": eq_special("!=")}
    us = []

    def U(name, fn, s, p, **k): us.append(Unit("XValueStack::" + name, fn, s, p, contracts=contracts, special=dict(special), **k))
    ghost0 = lambda cid: G(Lin(0), freshA("S"), freshA("X"), freshA("W"), freshA("pos"), cid)

    def empty_with(cidf):
        def g(ex, st, o, n, r, c):
            holds(ex, st, c["obj"], n, ghost0(cidf(c)), "result")
            return []
        return g

    def setup_cmp(ex):
        res = []
        for l, s, al, c in setup(ctor=True)(ex):
            co = ex.add_obj(s, 8, "order", "param"); co = ex.mut(s, co.id); cid = fresh("order"); co.cells[0] = (8, cid); co.ro = True
            res.append((l, s, [al[0], co.base], dict(c, cid=cid)))
        return res

    def cp(ex, st, o, n, r, c):
        holds(ex, st, c["obj"], n, c["sctx"]["g"], "result")
        return []
    same = unchanged(B)
    ne = lambda c: [LT(0, c["g"].n)]
    U("XValueStack()", "w_ctor", setup(ctor=True), post(empty_with(lambda c: DEFCMP)))
    U("XValueStack(cmp)", "w_ctor_cmp", setup_cmp, post(empty_with(lambda c: c["cid"])))
    U("XValueStack(copy)", "w_copy_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cp))
    U("XValueStack(move)", "w_move_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cp, srcafter="moved"))
    U("operator=(copy)", "w_copy", setup(src=True, alias_src=True, args=["this", "src"]), post(cp))
    U("operator=(move)", "w_move", setup(src=True, alias_src=True, args=["this", "src"]), post(cp, srcafter="moved"))
    U("~XValueStack", "w_dtor", setup(), post(lambda *a: [], dtor=True))
    U("empty", "w_empty", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("empty exactly when every push has been popped", r == EQ(c["g"].n, 0))]))
    U("top", "w_top", setup(args=["out", "this"], pre=ne, out=True), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("top is the element pushed last", EQ(r, S_(c["g"].S, c["g"].n - 1)))]))

    def xpost(ex, st, o, n, r, c):
        g = c["g"]; k = fresh("k")
        w = S_(g.W, g.n - 1)
        return same(ex, st, o, n, r, c) + [("the extreme is an element of the stack", And(LE(0, w), LT(w, g.n), EQ(r, S_(g.S, w)))),
            ("no element precedes the extreme", Imp(And(LE(0, k), LT(k, g.n)), LE(crank(g.cid, r), crank(g.cid, S_(g.S, k)))))]
    U("getXValue", "w_x", setup(args=["out", "this"], pre=ne, out=True), post(xpost))

    def push_post(ex, st, o, n, r, c):
        g = c["g"]; e = c["e"]
        sv = Or(EQ(g.n, 0), Not(LT(crank(g.cid, S_(g.X, g.n - 1)), crank(g.cid, e))))
        st.assume(STEP(g.n.z()))
        S2 = named(st, z3.Store(g.S, g.n.z(), e.z()), "S2"); X2 = named(st, z3.Store(g.X, g.n.z(), ite(sv, e, S_(g.X, g.n - 1)).z()), "X2")
        W2 = named(st, z3.Store(g.W, g.n.z(), ite(sv, g.n, S_(g.W, g.n - 1)).z()), "W2"); P2 = named(st, z3.Store(g.pos, g.n.z(), (o.n + ite(sv, Lin(1), Lin(0))).z()), "pos2")
        g2 = G(g.n + 1, S2, X2, W2, P2, g.cid)
        holds(ex, st, c["obj"], n, g2, "result")
        return []
    U("push", "w_push", setup(elem=True, alias_elem=True, args=["this", "e"], pre=lambda c: [LE(2 * c["old"].n + 4, V.max)]), post(push_post))

    def pop_post(ex, st, o, n, r, c):
        g = c["g"]
        holds(ex, st, c["obj"], n, G(g.n - 1, g.S, g.X, g.W, g.pos, g.cid), "result")
        return []
    U("pop", "w_pop", setup(pre=ne), post(pop_post))
    U("clear", "w_clear", setup(), post(empty_with(lambda c: c["g"].cid)))
    return mod, us


def eq_special(op):
    base = elem_cmp(op)

    def h(ex, st, args, ins):
        a = ex.eref(st, ex.as_int(args[0]), "compared element"); b = ex.eref(st, ex.as_int(args[1]), "compared element")
        if a is None or b is None: return []
        av, bv = ex.eget(st, a), ex.eget(st, b)
        # equal elements are ordered alike by every comparator
        c = fresh("anyorder").z()
        st.assume(Imp(EQ(lin(EQC(av.val.z())), lin(EQC(bv.val.z()))), z3.ForAll([c], RANKC(c, av.val.z()) == RANKC(c, bv.val.z()), patterns=[RANKC(c, av.val.z())])))
        return base(ex, st, args, ins)
    return h


CLAIMS = {"C05": ("func", ".*")}
