"""DisjointSet: ghost arrays rep (representative of the set of i) and dep (a rank that falls along parent links)."""
from ..spec import *
from .vec import *
from ..ir import INT

STEP = z3.Function("step", I, B)
REPS = z3.Function("number_of_representatives", AII, I, I)     # of 0..k-1: how many i with rep[i] == i


def at(a, i): return lin(z3.Select(a, Z(i)))


def reps_axioms(rep):
    q = z3.Int("q?"); k = lin(q)
    R = lambda x: lin(REPS(rep, Z(x)))
    return And(EQ(R(Lin(0)), 0), z3.ForAll([q], STEP(q), patterns=[STEP(q)]),
               z3.ForAll([q], Imp(LE(0, k), EQ(R(k + 1), R(k) + ite(EQ(at(rep, k), k), Lin(1), Lin(0)))), patterns=[STEP(q)]))


def shape(A, n, rep, dep):
    """the parent array A[0..n) represents the partition given by rep"""
    if A is None: return [("an empty set has no elements", EQ(n, 0))]
    q = z3.Int("q?"); i = lin(q)
    r = at(rep, i); a = at(A, i)
    inn = And(LE(0, i), LT(i, n))

    def fa(f, *pats): return z3.ForAll([q], Imp(inn, f), patterns=list(pats))
    pA = z3.Select(A, q); pR = z3.Select(rep, q)
    return [("every parent is an element or a negative rank", fa(LT(a, n), pA)),
            ("ranks are bounded by the number of sets joined", fa(LE(-1 - n + lin(REPS(rep, Z(n))), a), pA)),
            ("a root represents itself", fa(Imp(LT(a, 0), EQ(r, i)), pA)),
            # STEP is true of everything: it keeps the instances to the entries looked at
            ("a child is in its parent's set and above it in rank", z3.ForAll([q], Imp(And(STEP(q), inn, LE(0, a)), And(EQ(r, at(rep, a)), LT(at(dep, a), at(dep, i)), LE(0, at(dep, a)))), patterns=[STEP(q)])),
            ("the representative is an element of the set and a root", fa(And(LE(0, r), LT(r, n), LT(at(A, r), 0), EQ(at(rep, r), r)), pR)),
            ("the representative is above every member", fa(And(LE(0, at(dep, r)), Or(EQ(r, i), LT(at(dep, r), at(dep, i)))), pR))]


def kept(A, B_, n, rep, dep, x):
    """find(x): entries of B_ keep their value, or are children now pointing at their representative, and only entries not above x in rank changed"""
    q = z3.Int("q?"); i = lin(q)
    return z3.ForAll([q], Imp(And(LE(0, i), LT(i, n)), Or(EQ(at(B_, i), at(A, i)), And(LE(0, at(A, i)), EQ(at(B_, i), at(rep, i)), LE(at(dep, i), at(dep, x))))), patterns=[z3.Select(B_, q)])


def build(tmp):
    from .. import layout
    mod = layout.extract("dsu", tmp)
    V = vec(tmp, "int")
    off, size = layout.offsets("dsu_layout.hpp", ["__builtin_offsetof(S_, mArray_d)", "sizeof(S_)"], tmp, "dsu")

    def ghosts(st, name): return freshA(name + ".rep"), freshA(name + ".dep")

    def extra(ex, st, o, v, name):
        st = st.fork()
        rep, dep = ghosts(st, name)
        for _, f in shape(v.val, v.n, rep, dep): st.assume(f)
        st.assume(LE(v.n, INTMAX))
        if name == "this": st.ghost["#rep"] = rep; st.ghost["#dep"] = dep
        st.assume(reps_axioms(rep))
        induct(ex, st, "the number of representatives is not negative", lambda k: LE(0, lin(REPS(rep, k.z()))), 0, v.n, STEP)
        return [("", st, {"rep": rep, "dep": dep})]
    B = Based(V, size, off, extra)
    setup, post = B.setup, B.post
    vcs = VecContracts(V).all()

    def intarg(ex, st, addr, what):
        v = ex.load(st, ex.as_int(addr), INT(32), what)
        return None if v is None else ex.as_int(v)

    def find_apply(ex, st, args, dem):
        obj, base = V.at(ex, st, ex.as_int(args[0]), "find")
        v = V.read(ex, st, obj, base + off, "find")
        if v is None: return []
        V.inv(ex, st, v, "find")
        v.val = named(st, v.val, "parents")
        x = intarg(ex, st, args[1], "find argument")
        if x is None: return []
        st.assume(STEP(x.z()))
        rep, dep = st.ghost["#rep"], st.ghost["#dep"]
        ex.oblige(st, "find: the argument is an element", And(LE(0, x), LT(x, v.n)), "pre")
        for nm, f in shape(v.val, v.n, rep, dep): ex.oblige(st, "find: " + nm, f, "pre")
        if ex.special.get("#bound") is not None:
            ex.oblige(st, "the recursion of find descends in rank", And(LE(0, at(dep, ex.special["#bound"](st))), LT(at(dep, x), at(dep, ex.special["#bound"](st)))), "termination")
        out = []
        for root in (True, False):
            s = st.fork()
            if root:
                s.assume(LT(at(v.val, x), 0))
                if ex.feasible(s): out.append((s, args[1]))
            else:
                s.assume(LE(0, at(v.val, x)))
                if not ex.feasible(s): continue
                a = ex.mut(s, v.aid); A2 = freshA("parents")
                a.val = A2
                s.assume(kept(v.val, A2, v.n, rep, dep, x))
                for nm, f in shape(A2, v.n, rep, dep): s.assume(f)
                s.assume(EQ(at(A2, x), at(rep, x)))
                out.append((s, v.C + x * 4))
        return out
    find_c = Contract("DisjointSet::find", r"dstruct::DisjointSet<VA>::find\(int const&\)", find_apply)
    contracts = vcs + [find_c]
    us = []

    def U(name, fn, s, p, **k):
        u = Unit("DisjointSet::" + name, fn, s, p, contracts=contracts, **k)
        u.special["#alloc"] = (4, 4); us.append(u)

    def holds(ex, st, v, rep, dep, what="result"):
        v.val = named(st, v.val, "parents")
        for nm, f in shape(v.val, v.n, rep, dep): ex.oblige(st, what + ": " + nm, f, "inv")
    same = unchanged(B)

    def args_setup(k):
        """k element arguments, each in memory of its own or a reference into the parent array"""
        def f(ex):
            res = []
            for l, s, al, c in setup()(ex):
                if c["old"].aid is None: continue
                alts = [(l, s, [], [])]
                for j in range(k):
                    nx = []
                    for l1, s1, ptrs, vals in alts:
                        s2 = s1.fork()
                        o = ex.add_obj(s2, 4, "x%d" % j, "param"); o = ex.mut(s2, o.id); x = fresh("x%d" % j); o.cells[0] = (4, x); o.ro = True
                        s2.assume(And(STEP(x.z()), LE(0, x), LT(x, c["old"].n)))
                        nx.append((l1 + ",x%d" % j, s2, ptrs + [o.base], vals + [x]))
                        s3 = s1.fork(); y = fresh("y%d" % j); x = at(c["old"].val, y)
                        s3.assume(And(STEP(x.z()), STEP(y.z()), LE(0, y), LT(y, c["old"].n), LE(0, x), LT(x, c["old"].n)))
                        nx.append((l1 + ",x%d inside" % j, s3, ptrs + [c["old"].C + y * 4], vals + [x]))
                    alts = nx
                for l1, s1, ptrs, vals in alts: res.append((l1, s1, al + ptrs, dict(c, x=vals)))
            return res
        return f

    def keeps(ex, st, o, n, c): return [("size and storage are kept", And(EQ(n.n, o.n), EQ(n.cap, o.cap), EQ(n.C, o.C)))]

    def find_post(ex, st, o, n, r, c):
        holds(ex, st, n, c["rep"], c["dep"])
        x = c["x"][0]
        out = keeps(ex, st, o, n, c) + [("find changes parents only towards the representative", kept(o.val, n.val, o.n, c["rep"], c["dep"], x))]
        v = intarg(ex, st, r, "result of find")
        if v is None: return out
        out.append(("find returns the representative of the set", EQ(v, at(c["rep"], x))))
        out.append(("a root is found where it was named, a child at its own entry", ite(LT(at(o.val, x), 0), r, n.C + x * 4).z() == r.z()))
        return out

    def bounded_setup(ex):
        res = args_setup(1)(ex)
        return res
    # the recursive function itself: its recursive calls use the contract
    U("find", r"re:dstruct::DisjointSet<VA>::find\(int const&\)", None, None)
    uf = us.pop()

    def sf(ex):
        r = args_setup(1)(ex)
        for l, s, al, c in r: s.ghost["#x"] = c["x"][0]
        return r
    uf.setup = sf; uf.special["#bound"] = lambda st: st.ghost["#x"]; uf.post = post(find_post)
    us.append(uf)
    U("find (by value)", "w_find", args_setup(1), post(lambda ex, st, o, n, r, c: (holds(ex, st, n, c["rep"], c["dep"]), keeps(ex, st, o, n, c) + [("find returns the representative of the set", EQ(r, at(c["rep"], c["x"][0])))])[1]))
    U("connected", "w_connected", args_setup(2), post(lambda ex, st, o, n, r, c: (holds(ex, st, n, c["rep"], c["dep"]), keeps(ex, st, o, n, c) + [("connected exactly when in the same set", r == EQ(at(c["rep"], c["x"][0]), at(c["rep"], c["x"][1])))])[1]))

    def merged(ex, st, o, n, r, c):
        rep, dep = c["rep"], c["dep"]
        r1, r2 = at(rep, c["x"][0]), at(rep, c["x"][1])
        lose = fresh("loser"); win = fresh("winner")
        st.assume(EQ(lose, ite(LE(0, at(n.val, r2)), r2, r1))); st.assume(EQ(win, ite(LE(0, at(n.val, r2)), r1, r2)))
        rep2, dep2 = ghosts(st, "new"); q = z3.Int("q?"); i = lin(q)
        same_set = EQ(r1, r2)
        st.assume(z3.ForAll([q], EQ(at(rep2, i), ite(And(Not(same_set), EQ(at(rep, i), lose)), win, at(rep, i))), patterns=[z3.Select(rep2, q), z3.Select(rep, q)]))
        st.assume(z3.ForAll([q], EQ(at(dep2, i), at(dep, i) + ite(And(Not(same_set), EQ(at(rep, i), lose)), at(dep, win) + 1, Lin(0))), patterns=[z3.Select(dep2, q), z3.Select(rep, q)]))
        st.assume(reps_axioms(rep2))
        for x in (r1, r2): st.assume(STEP(x.z()))
        R = lambda a, k: lin(REPS(a, k.z()))
        induct(ex, st, "joining two sets takes away one representative", lambda k: EQ(R(rep2, k), R(rep, k) - ite(And(Not(same_set), LT(lose, k)), Lin(1), Lin(0))), 0, o.n, STEP)
        holds(ex, st, n, rep2, dep2)
        # two elements are in one set exactly when they were, or they were in the two joined sets
        a, b = fresh("a"), fresh("b")
        inn = And(LE(0, a), LT(a, o.n), LE(0, b), LT(b, o.n))
        ra, rb = at(rep, a), at(rep, b)
        return keeps(ex, st, o, n, c) + [("connect joins exactly the two sets", Imp(inn, EQ(at(rep2, a), at(rep2, b)) == Or(EQ(ra, rb), And(EQ(ra, r1), EQ(rb, r2)), And(EQ(ra, r2), EQ(rb, r1)))))]
    U("connect", "w_connect", args_setup(2), post(merged))

    def union_setup(ex):
        res = []
        for l, s, al, c in args_setup(2)(ex):
            if "inside" in l: continue
            for x in c["x"]: s.assume(EQ(at(c["rep"], x), x))
            res.append((l, s, al, c))
        return res
    U("union_set", "w_union", union_setup, post(merged))

    def count_tpl(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
        from ..loops import Cand
        rep = entry.ghost.get("#rep"); out = []
        for i in ivars:
            for j in ivars:
                if i == j: continue
                out.append(Cand("%s counts the representatives below %s" % (lvars[j].name, lvars[i].name), lambda c, i=i, j=j: And(STEP(c.v[i].z()), EQ(c.v[j], lin(REPS(rep, c.v[i].z())))), True))
        return out

    def count_setup(ex):
        r = setup()(ex)
        for l, s, al, c in r: s.assume(reps_axioms(c["rep"]))
        return r
    U("count", "w_count", count_setup, post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("count is the number of sets", EQ(r, lin(REPS(c["rep"], o.n.z()))))]), templates=[count_tpl])
    U("size", "w_size", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("size is the number of elements", EQ(r, o.n))]))
    U("empty", "w_empty", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("empty exactly when there are no elements", r == EQ(o.n, 0))]))
    U("capacity", "w_capacity", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("capacity is the storage size", EQ(r, o.cap))]))

    def ctor_post(ex, st, o, n, r, c):
        rep, dep = ghosts(st, "new"); q = z3.Int("q?")
        st.assume(z3.ForAll([q], z3.Select(rep, q) == q, patterns=[z3.Select(rep, q)])); st.assume(z3.ForAll([q], z3.Select(dep, q) == 0, patterns=[z3.Select(dep, q)]))
        st.assume(reps_axioms(rep))
        induct(ex, st, "every element is a representative", lambda k: EQ(lin(REPS(rep, k.z())), k), 0, n.n, STEP)
        holds(ex, st, n, rep, dep)
        return [("n elements, each its own set", EQ(n.n, c["n"]))]
    U("DisjointSet(n)", "w_ctor", setup(ctor=True, extra=[("n", "i32")], args=["this", "n"], pre=lambda c: [LT(0, c["n"]), LE(c["n"], V.max)]), post(ctor_post))

    def cpost(ex, st, o, n, r, c):
        holds(ex, st, n, c["sctx"]["rep"], c["sctx"]["dep"])
        return [("same number of elements as the source", EQ(n.n, c["src"].n))]
    U("DisjointSet(copy)", "w_copy_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cpost))
    U("DisjointSet(move)", "w_move_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cpost, srcafter="moved"))
    U("operator=(copy)", "w_copy", setup(src=True, alias_src=True, args=["this", "src"]), post(cpost))
    U("operator=(move)", "w_move", setup(src=True, alias_src=True, args=["this", "src"]), post(cpost, srcafter="moved"))
    U("~DisjointSet", "w_dtor", setup(), post(lambda *a: [], dtor=True))
    return mod, us


CLAIMS = {"C08": ("func", ".*")}
