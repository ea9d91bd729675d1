"""Array<Elem, N> for the listed N: every loop has a constant bound and is executed completely."""
from ..spec import *
from .. import layout

SIZES = (1, 2, 3, 5)


def all_live(live, n): return And(*[z3.simplify(z3.Select(live, z3.IntVal(i))) for i in range(n)])
def all_rawc(live, n): return And(*[Not(z3.simplify(z3.Select(live, z3.IntVal(i)))) for i in range(n)])


def units(mod, N):
    us = []

    def arr(ex, st, name, live=True):
        o = ex.add_obj(st, ESZ * N, name, "param")
        L = z3.K(I, FALSE)
        for i in range(N): L = z3.Store(L, z3.IntVal(i), TRUE if live else FALSE)
        a = ex.add_sub(st, st.heap[o.id], 0, ESZ, N, "E", name, live=L)
        return o, a

    def setup(this_live=True, src=None, elem=False, alias_elem=False, idx=None, args=("this",)):
        def f(ex):
            st = State(); o, a = arr(ex, st, "this", this_live)
            c = {"old": a, "this": o.base, "aid": a.id}
            alts = [("", st, c)]
            if src:
                nv = []
                for l, s, c in alts:
                    s2 = s.fork(); so, sa = arr(ex, s2, "src"); nv.append((l, s2, dict(c, src=so.base, sold=sa, said=sa.id)))
                    if src == "self": s3 = s.fork(); nv.append(("self", s3, dict(c, src=o.base, sold=a, said=a.id)))
                alts = nv
            if elem:
                nv = []
                for l, s, c in alts:
                    s2 = s.fork(); eo = ex.add_obj(s2, ESZ, "element", "param"); eo = ex.mut(s2, eo.id); ev = fresh("e")
                    eo.cells[0] = ("E", ElemV(ev, TRUE)); eo.ro = True
                    nv.append((l, s2, dict(c, e=eo.base, ev=ev)))
                    if alias_elem:
                        for k in range(N):
                            nv.append((l + "element %d" % k, s.fork(), dict(c, e=o.base + k * ESZ, ev=sel(a.val, k))))
                alts = nv
            out = []
            for l, s, c in alts:
                if idx:
                    x = fresh("i"); lo = -N if idx == "any" else 0
                    s.assume(And(LE(lo, x), LT(x, N))); c = dict(c, i=x)
                out.append((l, s, [c[k] for k in args], c))
            return out
        return f

    def post(ens, live=True):
        def f(ex, st, r, c):
            a = st.heap[c["aid"]]
            ex.oblige(st, "every element is live afterwards" if live else "every element is destroyed", all_live(a.live, N) if live else all_rawc(a.live, N), "lifetime")
            if "said" in c and c["said"] != c["aid"]:
                sa = st.heap[c["said"]]
                ex.oblige(st, "the source is unchanged", And(all_live(sa.live, N), *[EQ(sel(sa.val, i), sel(c["sold"].val, i)) for i in range(N)]), "post")
            for nm, g in ens(ex, st, a, r, c): ex.oblige(st, nm, g, "post")
            no_leak(ex, st, set())
        return f
    same = lambda a, b: And(*[EQ(sel(a.val, i), sel(b.val, i)) for i in range(N)])
    unch = lambda ex, st, a, r, c: [("the array is unchanged", same(a, c["old"]))]

    def U(name, fn, s, p): us.append(Unit("Array<%d>::%s" % (N, name), fn, s, p, unroll=N + 2))
    U("Array()", "w_ctor", setup(False), post(lambda *a: []))
    U("Array(e)", "w_fill", setup(False, elem=True, args=("this", "e")), post(lambda ex, st, a, r, c: [("every element equals e", And(*[EQ(sel(a.val, i), c["ev"]) for i in range(N)]))]))
    eq = lambda ex, st, a, r, c: [("equal to the source", same(a, c["sold"]))]
    U("Array(copy)", "w_copy_ctor", setup(False, src=True, args=("this", "src")), post(eq))
    U("Array(move)", "w_move_ctor", setup(False, src=True, args=("this", "src")), post(eq))
    U("operator=(copy)", "w_copy", setup(src="self", args=("this", "src")), post(eq))
    U("operator=(move)", "w_move", setup(src="self", args=("this", "src")), post(eq))
    U("~Array", "w_dtor", setup(), post(lambda *a: [], live=False))
    U("empty", "w_empty", setup(), post(lambda ex, st, a, r, c: unch(ex, st, a, r, c) + [("an array of N > 0 is not empty", Not(r))]))
    for w in ("size", "capacity"):
        U(w, "w_" + w, setup(), post(lambda ex, st, a, r, c: unch(ex, st, a, r, c) + [("is N", EQ(r, N))]))
    U("back", "w_back", setup(), post(lambda ex, st, a, r, c: unch(ex, st, a, r, c) + [("back is the last element", EQ(r, c["this"] + (N - 1) * ESZ))]))
    U("front", "w_front", setup(), post(lambda ex, st, a, r, c: unch(ex, st, a, r, c) + [("front is the first element", EQ(r, c["this"]))]))
    at = lambda c: ite(LE(0, c["i"]), c["i"], c["i"] + N)
    ip = lambda ex, st, a, r, c: unch(ex, st, a, r, c) + [("index i is element i, negative from the end", EQ(r, c["this"] + at(c) * ESZ))]
    U("operator[]", "w_index", setup(idx="any", args=("this", "i")), post(ip))
    U("operator[] const", "w_cindex", setup(idx="any", args=("this", "i")), post(ip))
    wr = lambda pos: (lambda ex, st, a, r, c: [("element %d" % j + " is written exactly when indexed", EQ(sel(a.val, j), ite(EQ(pos(c), j), c["ev"], sel(c["old"].val, j)))) for j in range(N)])
    U("write by index", "w_write", setup(idx="any", elem=True, alias_elem=True, args=("this", "i", "e")), post(wr(at)))
    U("write by iterator", "w_itwrite", setup(idx="pos", elem=True, args=("this", "i", "e")), post(wr(lambda c: c["i"])))
    vis = lambda rev: (lambda ex, st, a, r, c: unch(ex, st, a, r, c) + [("visits N elements", EQ(st.ghost["nvisit"], N))] + [("visit %d in order" % j, EQ(sel(st.ghost["visited"], j), sel(c["old"].val, N - 1 - j if rev else j))) for j in range(N)])
    for w in ("iterate", "citerate", "rangefor"): U("iterator " + w, "w_" + w, setup(), post(vis(False)))
    U("iterator reverse", "w_reverse", setup(), post(vis(True)))
    return us


def build(tmp, sizes=SIZES):
    out = []
    for n in sizes:
        mod = layout.extract("array", tmp, ("DV_N=%d" % n,))
        for u in units(mod, n): u.mod = mod; out.append(u)
    return None, out


CLAIMS = {"C03": ("all", ".*")}
