"""Stack over Vector: the vector's elements are the stack, bottom first."""
from ..spec import *
from .vec import *
from . import vec as VEC


def units(V, B, contracts, pre="Stack::"):
    us = []
    setup, post = B.setup, B.post

    def U(name, fn, s, p, **k): us.append(Unit(pre + name, fn, s, p, contracts=contracts, **k))
    same = unchanged(B)
    ne = lambda c: [LT(0, c["old"].n)]
    empty0 = lambda ex, st, o, n, r, c: [("the stack is empty", EQ(n.n, 0))]
    cpost = lambda ex, st, o, n, r, c: [("same elements as the source", And(EQ(n.n, c["src"].n), same_elems(n, c["src"], n.n)))]
    U("Stack()", "w_ctor", setup(ctor=True), post(empty0))
    U("Stack(copy)", "w_copy_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cpost))
    U("Stack(move)", "w_move_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cpost, srcafter="moved"))
    U("operator=(copy)", "w_copy", setup(src=True, alias_src=True, args=["this", "src"]), post(cpost))
    U("operator=(move)", "w_move", setup(src=True, alias_src=True, args=["this", "src"]), post(cpost, srcafter="moved"))
    U("~Stack", "w_dtor", setup(), post(lambda *a: [], dtor=True))
    U("empty", "w_empty", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("empty exactly when there are no elements", r == EQ(o.n, 0))]))
    U("size", "w_size", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("size counts the elements", EQ(r, o.n))]))
    U("top", "w_top", setup(args=["out", "this"], pre=ne, out=True), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("top is the element pushed last", EQ(r, val_at(o, o.n - 1)))]))
    U("push", "w_push", setup(elem=True, args=["this", "e"], pre=lambda c: [LE(2 * c["old"].n + 2, V.max)]),
      post(lambda ex, st, o, n, r, c: [("size grows by one", EQ(n.n, o.n + 1)), ("the elements below are kept", same_elems(n, o, o.n)), ("the pushed element is on top", EQ(val_at(n, o.n), c["e"]) if n.val is not None else FALSE)]))
    U("pop", "w_pop", setup(pre=ne), post(lambda ex, st, o, n, r, c: [("size shrinks by one", EQ(n.n, o.n - 1)), ("the elements below are kept", same_elems(n, o, n.n))]))
    U("clear", "w_clear", setup(), post(empty0))

    def vis(ex, st, o, n, r, c):
        q = z3.Int("q?"); v = st.ghost["visited"]
        return same(ex, st, o, n, r, c) + [("iteration visits size elements", EQ(st.ghost["nvisit"], o.n)),
            ("iteration visits the elements, bottom first", TRUE if o.val is None else z3.ForAll([q], Imp(And(LE(0, lin(q)), LT(lin(q), o.n)), z3.Select(v, q) == z3.Select(o.val, q))))]
    U("iterator", "w_iterate", setup(), post(vis), templates=[visit_template])
    return us


def build(tmp):
    from .. import layout
    mod = layout.extract("stack", tmp)
    V = vec(tmp)
    off, size = layout.offsets("stack_layout.hpp", ["__builtin_offsetof(S_, mDS_d)", "sizeof(S_)"], tmp, "stack")
    return mod, units(V, Based(V, size, off), VecContracts(V).all())


CLAIMS = {"C04": ("func", ".*")}
