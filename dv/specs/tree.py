"""Binary search trees, AVL trees and Map.  All nodes are one "soup" indexed by address.  A tree t is described by ghost
state: own[k] = t for its nodes, its size n, the in-order sequence P[1..n], and for each node its position idx[k] and the
positions lo[k]..hi[k] its subtree spans.  Being well formed is then a statement about one node and its neighbours
(wf below), required of every node.

Facts about every node (or position, or pair of positions) are kept as functions and instantiated for the nodes the
program or the proof has touched, so every verification condition is ground; a goal about every node is proved for a
fresh one.  Nothing false can be derived that way; what is missing can only leave a condition undecided."""
import copy, re
from ..spec import *
from ..ir import INT
from ..engine import Soup
from ..loops import Cand

LIM = 1 << 30


def sel(a, k): return lin(E.select(a, Z(k)))
def selb(a, k): return E.select(a, Z(k))


# ------------------------------------------------------------------ universal facts, instantiated on demand
def _key(k): return (k.c, k.t)


def touch(st, *ks):
    """the nodes ks take part in the argument"""
    for k in ks:
        k = lin(k)
        if k.const() or _key(k) in st.ghost["#tset"]: continue
        st.ghost["#tset"] = st.ghost["#tset"] | {_key(k)}; st.ghost["#touch"] += (k,)
        for f in st.ghost["#univ"]: st.assume(f(k))


def univ(st, f):
    st.ghost["#univ"] += (f,)
    for k in st.ghost["#touch"]: st.assume(f(k))


def ptouch(st, *ks):
    """the positions ks take part"""
    for k in ks:
        k = lin(k)
        if _key(k) in st.ghost["#pset"]: continue
        st.ghost["#pset"] = st.ghost["#pset"] | {_key(k)}; st.ghost["#ptouch"] += (k,)
        for f in st.ghost["#puniv"]: st.assume(f(k))


def puniv(st, f):
    st.ghost["#puniv"] += (f,)
    for k in st.ghost["#ptouch"]: st.assume(f(k))


def stouch(st, *ks):
    """the positions ks are compared with each other"""
    for k in ks:
        k = lin(k)
        if _key(k) in st.ghost["#sset"]: continue
        ptouch(st, k)
        for f in st.ghost["#suniv"]:
            for j in st.ghost["#stouch"]: st.assume(And(f(j, k), f(k, j)))
        st.ghost["#sset"] = st.ghost["#sset"] | {_key(k)}; st.ghost["#stouch"] += (k,)


def near(st, M, p):
    """position p is compared with those of all nodes taking part"""
    for q in st.ghost["#touch"]:
        for g in st.ghost["#suniv"]: st.assume(And(g(M.idx(q), p), g(p, M.idx(q))))


def suniv(st, f):
    st.ghost["#suniv"] += (f,); ks = st.ghost["#stouch"]
    for i in ks:
        for j in ks:
            if i is not j: st.assume(f(i, j))


def reset(st):
    for k in ("#touch", "#ptouch", "#stouch", "#univ", "#puniv", "#suniv", "#vuniv", "#mems"): st.ghost[k] = ()
    for k in ("#tset", "#pset", "#sset"): st.ghost[k] = frozenset()


def onload(ex, st, r, v):
    """every link the program follows takes part"""
    if r.tag == "node": touch(st, r.key, v)


# ------------------------------------------------------------------ one tree in one memory
class Mem:
    def __init__(self, T, st, t):
        sp = st.soups["node"]; g = st.ghost; f = sp.f
        self.T = T; self.t = t
        ar = lambda nm: (lambda k, a=f[nm]: sel(a, k))
        self.par = ar("par"); self.left = ar("left"); self.right = ar("right"); self.h = ar("h") if T.avl else None
        self.val = {d: ar(d + ".v") for d in T.data}; self.live = {d: (lambda k, a=f[d + ".l"]: selb(a, k)) for d in T.data}
        self.dom = lambda k, a=sp.dom: selb(a, k)
        gh = lambda nm: (lambda k, a=g[nm]: sel(a, k))
        self.own = gh("own"); self.idx = gh("idx"); self.lo = gh("lo"); self.hi = gh("hi")
        self.P = gh("P%d" % t); self.n = g["n%d" % t]; self.root = g["r%d" % t]

    def but(self, **kw):
        m = Mem.__new__(Mem); m.__dict__ = dict(self.__dict__); m.__dict__.update(kw)
        return m

    def inT(self, k): return EQ(self.own(k), self.t)
    def height(self, k): return ite(EQ(k, 0), Lin(0), self.h(k))
    def rk(self, cid, i): return crank(cid, self.val["key"](self.P(i)))

    def hole(self, p, sideL, c):
        """the memory in which the child slot of p holds c (p null: c is the root)"""
        lf, rt = self.left, self.right
        return self.but(left=lambda k: ite(And(NE(p, 0), sideL, EQ(k, p)), c, lf(k)), right=lambda k: ite(And(NE(p, 0), Not(sideL), EQ(k, p)), c, rt(k)), root=ite(EQ(p, 0), c, self.root))


def wf(M, k, hskip=None):
    """what is required of node k if it is in the tree: [(name, kind, formula)]"""
    g = M.inT(k); l, r, p = M.left(k), M.right(k), M.par(k); lo, ix, hi = M.lo(k), M.idx(k), M.hi(k)
    out = [("every node of the tree has a position in the sequence", "inv", And(LT(0, k), LE(1, lo), LE(lo, ix), LE(ix, hi), LE(hi, M.n), EQ(M.P(ix), k))),
           ("every node of the tree is an allocated node", "inv", M.dom(k)),
           ("the data of every node is alive", "lifetime", And(*[M.live[d](k) for d in M.T.data])),
           ("the left subtree is what precedes the node", "inv", ite(EQ(l, 0), EQ(lo, ix), And(LE(lo, M.idx(l)), LT(M.idx(l), ix), LT(lo, ix), M.inT(l), EQ(M.par(l), k), EQ(M.lo(l), lo), EQ(M.hi(l), ix - 1)))),
           ("the right subtree is what follows the node", "inv", ite(EQ(r, 0), EQ(hi, ix), And(LT(ix, M.idx(r)), LE(M.idx(r), hi), LT(ix, hi), M.inT(r), EQ(M.par(r), k), EQ(M.lo(r), ix + 1), EQ(M.hi(r), hi)))),
           ("the parent link is consistent", "inv", ite(EQ(p, 0), And(EQ(k, M.root), EQ(lo, 1), EQ(hi, M.n)), And(M.inT(p), Or(EQ(M.left(p), k), EQ(M.right(p), k)))))]
    if M.T.avl:
        ok = TRUE if hskip is None else Not(hskip(k))
        hl, hr = M.height(l), M.height(r)
        out += [("the recorded height is positive", "inv", LE(1, M.h(k))), ("the recorded height is at most the size", "inv", Imp(ok, LE(M.h(k), hi - lo + 1))),
                ("the recorded height is one more than that of the higher subtree", "inv", Imp(ok, heightq(M.h(k), hl, hr))),
                ("the heights of the two subtrees differ by at most one", "inv", Imp(ok, And(LE(hl - hr, 1), LE(hr - hl, 1))))]
    return [(a, b, Imp(g, c)) for a, b, c in out]


def heightq(h, a, b): return And(Or(EQ(h, a + 1), EQ(h, b + 1)), LE(a + 1, h), LE(b + 1, h))
def wff(M, hskip=None): return lambda k: And(*[f for _, _, f in wf(M, k, hskip)])
def pos(M): return lambda i: Imp(And(LE(1, i), LE(i, M.n)), And(LT(0, M.P(i)), M.inT(M.P(i)), EQ(M.idx(M.P(i)), i), M.dom(M.P(i))))


def rootf(M):
    return And(LE(0, M.n), LE(M.n, LIM), ite(EQ(M.n, 0), EQ(M.root, 0), And(LT(0, M.root), M.inT(M.root), EQ(M.par(M.root), 0), EQ(M.lo(M.root), 1), EQ(M.hi(M.root), M.n))))


def order(M, cid, lo=1, hi=None):
    """the elements at positions lo..hi are strictly ascending"""
    hi = M.n if hi is None else hi
    return lambda i, j: Imp(And(LE(lo, i), LT(i, j), LE(j, hi)), LT(M.rk(cid, i), M.rk(cid, j)))


def glob(M, exc=None):
    """memory and ownership: what is allocated belongs to a tree"""
    def f(k):
        other = TRUE if exc is None else NE(k, exc)
        return [("what belongs to a tree is allocated", "inv", Imp(NE(M.own(k), 0), And(M.dom(k), LT(0, k)))),
                ("every allocated node belongs to a tree", "leak", Imp(And(other, M.dom(k)), NE(M.own(k), 0))),
                ("no data is alive outside an allocated node", "lifetime", Imp(Not(M.dom(k)), And(*[Not(M.live[d](k)) for d in M.T.data])))]
    return f


def glob0(M): return lambda k: And(*[f for nm, _, f in glob(M)(k) if nm != "every allocated node belongs to a tree"])
def globf(M, exc=None): return lambda k: And(*[f for _, _, f in glob(M, exc)(k)])


def same_node(M0, M1, k, fields=None):
    fs = ["par", "left", "right"] + (["h"] if M0.T.avl else [])
    return And(*[EQ(getattr(M1, f)(k), getattr(M0, f)(k)) for f in fs])


def same_data(M0, M1, k): return And(*[And(EQ(M1.val[d](k), M0.val[d](k)), z3.simplify(M1.live[d](k) == M0.live[d](k)) if False else M1.live[d](k) == M0.live[d](k)) for d in M0.T.data])


def frame_trees(M0, M1, k, ts):
    """nodes of other trees are not touched"""
    o = And(*[NE(M0.own(k), t) for t in ts])
    return Imp(And(o, NE(M0.own(k), 0)), And(EQ(M1.own(k), M0.own(k)), EQ(M1.idx(k), M0.idx(k)), EQ(M1.lo(k), M0.lo(k)), EQ(M1.hi(k), M0.hi(k)), M1.dom(k), same_node(M0, M1, k), same_data(M0, M1, k)))


# ------------------------------------------------------------------ what removing / inserting one node means
class Rem:
    """node x at position j leaves the subtree spanning L..H, whose owner slot is (p, sideL); mv (or null) receives x's value"""
    def __init__(self, j, x, L, H, p, sideL, mv): self.j = j; self.x = x; self.L = L; self.H = H; self.p = p; self.sideL = sideL; self.mv = mv

    def P(self, M0): return lambda i: ite(LT(i, self.j), M0.P(i), M0.P(i + 1))

    def rel(self, M0, M1):
        t = M0.t; S = self

        def f(k):
            i0 = M0.idx(k); out = And(NE(M0.own(k), 0), Or(NE(M0.own(k), t), LT(i0, S.L), LT(S.H, i0))); nx = NE(k, S.x)
            slot = And(EQ(k, S.p), NE(k, 0)) if M0.T.avl else FALSE
            r = [("the removed node leaves the tree and is released", "leak", Imp(EQ(k, S.x), And(EQ(M1.own(k), 0), Not(M1.dom(k))))),
                 ("no other node is added or removed", "inv", Imp(nx, And(EQ(M1.own(k), M0.own(k)), M1.dom(k) == M0.dom(k)))),
                 ("the others close up", "post", Imp(nx, EQ(M1.idx(k), i0 - ite(And(EQ(M0.own(k), t), LT(S.j, i0)), Lin(1), Lin(0))))),
                 ("other trees keep their extents", "post", Imp(And(nx, NE(M0.own(k), 0), NE(M0.own(k), t)), And(EQ(M1.lo(k), M0.lo(k)), EQ(M1.hi(k), M0.hi(k))))),
                 ("extents outside the subtree close up", "inv", Imp(And(nx, out, EQ(M0.own(k), t), Or(LE(M0.lo(k), S.L), LT(S.H, M0.lo(k))), Or(LT(M0.hi(k), S.L), LE(S.H, M0.hi(k)))), And(EQ(M1.lo(k), M0.lo(k) - ite(LT(S.j, M0.lo(k)), Lin(1), Lin(0))), EQ(M1.hi(k), M0.hi(k) - ite(LE(S.j, M0.hi(k)), Lin(1), Lin(0)))))),
                 ("nodes outside the subtree keep their links", "post", Imp(And(nx, out), And(EQ(M1.par(k), M0.par(k)), Imp(Not(And(slot, S.sideL)), EQ(M1.left(k), M0.left(k))), Imp(Not(And(slot, Not(S.sideL))), EQ(M1.right(k), M0.right(k))), EQ(M1.h(k), M0.h(k)) if M0.T.avl else TRUE)))]
            for d in M0.T.data:
                v0 = M0.val[d](k) if S.mv is None else ite(And(EQ(k, S.mv), NE(k, 0)), M0.val[d](S.x), M0.val[d](k))
                r.append(("the remaining values stay", "post", Imp(nx, EQ(M1.val[d](k), v0))))
                r.append(("the remaining data stays alive", "lifetime", Imp(nx, M1.live[d](k) == M0.live[d](k))))
                r.append(("the data of the removed node is destroyed", "lifetime", Imp(EQ(k, S.x), Not(M1.live[d](k)))))
            return r
        return f


class Ins:
    """the new node x enters at position j, inside the slot spanning L..H owned by (p, sideL)"""
    def __init__(self, j, x, L, H, p, sideL, e): self.j = j; self.x = x; self.L = L; self.H = H; self.p = p; self.sideL = sideL; self.e = e

    def P(self, M0): return lambda i: ite(LT(i, self.j), M0.P(i), ite(EQ(i, self.j), self.x, M0.P(i - 1)))

    def rel(self, M0, M1):
        t = M0.t; S = self

        def f(k):
            i0 = M0.idx(k); out = Or(NE(M0.own(k), t), LT(i0, S.L), LT(S.H, i0)); nx = NE(k, S.x)
            slot = And(EQ(k, S.p), NE(k, 0)) if M0.T.avl else FALSE
            r = [("the new node is in the tree", "post", Imp(EQ(k, S.x), And(EQ(M0.own(k), 0), EQ(M1.own(k), t), M1.dom(k), EQ(M1.idx(k), S.j)))),
                 ("no other node is added or removed", "inv", Imp(nx, And(EQ(M1.own(k), M0.own(k)), M1.dom(k) == M0.dom(k)))),
                 ("the others make room", "post", Imp(nx, EQ(M1.idx(k), i0 + ite(And(EQ(M0.own(k), t), LE(S.j, i0)), Lin(1), Lin(0))))),
                 ("other trees keep their extents", "post", Imp(And(nx, NE(M0.own(k), t)), And(EQ(M1.lo(k), M0.lo(k)), EQ(M1.hi(k), M0.hi(k))))),
                 ("nodes outside the subtree keep their links", "post", Imp(And(nx, out), And(EQ(M1.par(k), M0.par(k)), Imp(Not(And(slot, S.sideL)), EQ(M1.left(k), M0.left(k))), Imp(Not(And(slot, Not(S.sideL))), EQ(M1.right(k), M0.right(k))), EQ(M1.h(k), M0.h(k)) if M0.T.avl else TRUE)))]
            for d in M0.T.data:
                r.append(("the other values stay", "post", Imp(nx, EQ(M1.val[d](k), M0.val[d](k)))))
                r.append(("the new node holds the element", "post", Imp(EQ(k, S.x), EQ(M1.val[d](k), S.e[d]))))
                r.append(("the other data stays alive", "lifetime", Imp(nx, M1.live[d](k) == M0.live[d](k))))
            return r
        return f


def relf(rel): return lambda k: And(*[f for _, _, f in rel(k)])


# ------------------------------------------------------------------ checks
def node(st, mems, k=None):
    """an arbitrary node and its neighbourhood"""
    k = fresh("k") if k is None else k
    ms = list(mems) + list(st.ghost["#mems"])
    touch(st, k)
    for M in ms:
        touch(st, M.left(k), M.right(k), M.par(k)); ptouch(st, M.idx(k))
        if hasattr(M, "also"): touch(st, *M.also(k))
    return k


def check_node(ex, st, f, mems, what, only=None):
    s = st.fork(); k = node(s, mems)
    for nm, kind, g in f(k): ex.oblige(s, "%s: %s" % (what, nm), g, kind)


def check_pos(ex, st, M, mems, what):
    s = st.fork(); i = fresh("i"); ptouch(s, i, i - 1, i + 1)
    for X in list(mems) + list(s.ghost["#mems"]) + [M]: touch(s, X.P(i)) if True else None
    ex.oblige(s, "%s: every position holds a node of the tree" % what, pos(M)(i), "inv")


def check_tree(ex, st, M, mems, what="result", hskip=None):
    s = st.fork(); touch(s, M.root)
    ex.oblige(s, "%s: the root is the root of all positions" % what, rootf(M), "inv")
    check_node(ex, st, lambda k: wf(M, k, hskip), [M] + mems, what)
    check_pos(ex, st, M, mems, what)


def check_order(ex, st, M, cid, mems, what="result", lo=1, hi=None):
    s = st.fork(); i, j = fresh("i"), fresh("j")
    s.assume(And(LE(lo, i), LT(i, j), LE(j, M.n if hi is None else hi)))
    for x in (i, j):
        stouch(s, x - 1, x, x + 1)
        for X in list(mems) + list(s.ghost["#mems"]) + [M]: touch(s, X.P(x))
    ex.oblige(s, "%s: the elements are in ascending order" % what, order(M, cid, lo, hi)(i, j), "post")


def check_glob(ex, st, M, mems, what="result", exc=None): check_node(ex, st, glob(M, exc), [M] + mems, what)


def know(st, M, hskip=None, cid=None):
    """a well formed tree"""
    st.ghost["#mems"] += (M,)
    univ(st, wff(M, hskip)); puniv(st, pos(M))
    st.assume(rootf(M)); touch(st, M.root)
    if cid is not None: suniv(st, order(M, cid))


# ------------------------------------------------------------------ memory of nodes
def new_node(T):
    def f(ex, st, n):
        if not n.const() or n.c != T.nsize: return None
        x = fresh("node", tag="node")
        s = st.soups["node"].copy(); st.soups["node"] = s
        st.assume(And(LT(0, x), LE(x + T.nsize, E.MAXADDR), Not(selb(s.dom, x))))
        touch(st, x)
        s.dom = z3.Store(s.dom, x.z(), TRUE)
        st.ghost["#new"] = st.ghost.get("#new", ()) + (x,)
        return [(st, x)]
    return f


def free_node(T):
    def h(ex, st, p, n):
        p = st.norm(p)
        if any(a in st.bases for a, k in p.t):
            ex.oblige(st, "released memory came from the allocator", FALSE, "alloc"); return []
        if len(p.t) != 1 or p.t[0][1] != 1 or AT.meta[p.t[0][0]].get("tag") != "node": return None
        s = st.soups["node"]
        ex.oblige(st, "released pointer is the start of an allocated node", selb(s.dom, p) if p.c == 0 else FALSE, "alloc")
        ex.oblige(st, "node is released with the size it was requested with", EQ(n, T.nsize), "alloc")
        for d in T.data: ex.oblige(st, "no live element is left in a released node", Not(selb(s.f[d + ".l"], p)), "lifetime")
        s = s.copy(); st.soups["node"] = s
        s.dom = z3.Store(s.dom, p.z(), FALSE)
        st.ghost["#freed"] = st.ghost.get("#freed", ()) + (p,)
        return [(st, None)]
    return h


def visit_node(ex, st, args, ins):
    """the callback sees one element: which node it is in is logged"""
    T = ex.special["#T"]
    r = ex.resolve(st, ex.as_int(args[0]), "E", "visited element")
    if r is None: return []
    if r.kind != "S" or r.field != T.data[0]: raise ToolLimit("visited element is not in a node")
    ex.oblige(st, "visited element is live", ex.eget(st, r).live, "lifetime")
    st.ghost["visited"] = z3.Store(st.ghost["visited"], st.ghost["nvisit"].z(), r.key.z())
    st.ghost["nvisit"] = st.ghost["nvisit"] + 1
    return [(st, None)]


class Tree:
    def __init__(self, kind, off):
        self.kind = kind; self.avl = kind != "BST"; self.map = kind == "MAP"
        self.oSize, self.oRoot, self.oCmp, self.size, self.nsize, self.oKey, self.oVal, self.oH, self.oData = off
        self.data = ["key"] + (["value"] if self.map else [])
        self.layout = {0: (8, "par", "node"), 8: (8, "left", "node"), 16: (8, "right", "node"), self.oKey: ("E", "key", None)}
        if self.avl: self.layout[self.oH] = (4, "h", None)
        if self.map: self.layout[self.oVal] = ("E", "value", None)
        self.esize = ESZ * len(self.data)

    # ---------------------------------------------------------------- states
    def world(self, ex):
        st = State(); reset(st)
        s = Soup("node", self.layout, self.nsize, 0)
        s.f = {"#link": ("par", "left", "right"), "par": freshA("par"), "left": freshA("left"), "right": freshA("right")}
        if self.avl: s.f["h"] = freshA("height")
        for d in self.data: s.f[d + ".v"] = freshA(d); s.f[d + ".l"] = freshAB(d + "live")
        s.dom = freshAB("dom"); s.ldom = s.dom
        s.f["#link"] = ()
        st.soups["node"] = s
        for g in ("own", "idx", "lo", "hi"): st.ghost[g] = freshA(g)
        st.ghost["#trees"] = (); st.ghost["nvisit"] = Lin(0)
        return st

    def tree(self, ex, st, name, cid=None, sorted_=True):
        o = ex.add_obj(st, self.size, name, "param"); t = o.id
        st.ghost["P%d" % t] = freshA(name + ".P"); st.ghost["n%d" % t] = fresh(name + ".n"); st.ghost["r%d" % t] = fresh(name + ".root", tag="node")
        st.ghost["#trees"] += (t,)
        st.assume(And(LE(0, st.ghost["r%d" % t]), LE(st.ghost["r%d" % t], E.MAXADDR)))
        cid = fresh(name + ".order") if cid is None else cid
        st.ghost["#cid%d" % t] = cid
        M = Mem(self, st, t)
        o = ex.mut(st, t)
        o.cells[self.oSize] = (8, M.n); o.cells[self.oRoot] = (8, M.root); o.cells[self.oCmp] = (8, cid)
        know(st, M, None, cid if sorted_ else None)
        if len(st.ghost["#trees"]) == 1:
            univ(st, globf(M)); st.assume(EQ(M.own(Lin(0)), 0))
        return M

    def raw(self, ex, st, name):
        """an object under construction: an empty tree with nothing in its cells"""
        o = ex.add_obj(st, self.size, name, "param"); t = o.id
        st.ghost["P%d" % t] = freshA(name + ".P"); st.ghost["n%d" % t] = Lin(0); st.ghost["r%d" % t] = Lin(0)
        st.ghost["#trees"] += (t,)
        M = Mem(self, st, t)
        st.ghost["#mems"] += (M,)
        univ(st, lambda k: NE(M.own(k), t))
        if len(st.ghost["#trees"]) == 1:
            univ(st, globf(M)); st.assume(EQ(M.own(Lin(0)), 0))
        return M

    def cell(self, st, t, off):
        c = st.heap[t].cells.get(off) if t in st.heap else None
        return c[1] if c is not None and isinstance(c[1], Lin) else None

    def cells(self, ex, st, t, M, what="result", cid=None):
        for off, want, nm in ((self.oSize, M.n, "the recorded size is the number of elements"), (self.oRoot, M.root, "the root pointer is the root"), (self.oCmp, cid, "the order is kept")):
            if want is None: continue
            v = self.cell(st, t, off)
            ex.oblige(st, "%s: %s" % (what, nm), FALSE if v is None else EQ(v, want), "inv" if off != self.oCmp else "post")

    def elem(self, ex, st, name="element"):
        """an element (key and value) outside the trees"""
        eo = ex.add_obj(st, self.esize, name, "param"); eo = ex.mut(st, eo.id); e = {}
        for i, d in enumerate(self.data):
            v = fresh(name + "." + d); e[d] = v; eo.cells[i * ESZ] = ("E", ElemV(v, TRUE))
        eo.ro = True
        return eo.base, e

    def arg(self, ex, st, addr, what):
        """the element an argument refers to"""
        e = {}
        for i, d in enumerate(self.data):
            r = ex.eref(st, ex.as_int(addr) + i * ESZ, what)
            if r is None: return None
            ev = ex.eget(st, r); e[d] = ev.val
            ex.oblige(st, what + " is live", ev.live, "pre")
            if r.kind == "S": touch(st, r.key)
        return e

    def at(self, ex, st, addr, what):
        addr = st.norm(ex.as_int(addr))
        for a, k in addr.t:
            if a in st.bases and k == 1 and addr.eq(st.heap[st.bases[a]].base) and st.bases[a] in st.ghost["#trees"]: return st.bases[a]
        raise ToolLimit("tree argument %s" % what)

    def havoc(self, st, fields, ghosts, dom=False):
        s = st.soups["node"].copy(); st.soups["node"] = s
        for k in fields: s.f[k] = z3.Const(fresh_name(k), s.f[k].sort())
        if dom: s.dom = freshAB("dom"); s.ldom = s.dom
        for g in ghosts: st.ghost[g] = freshA(g)
        st.ghost["#havoc"] = st.ghost.get("#havoc", 0) + 1


# ------------------------------------------------------------------ orders of visiting
def number(M, st):
    """pre- and postorder numbers, defined from the root down"""
    pre, post = (lambda k, a=st.ghost["pre"]: sel(a, k)), (lambda k, a=st.ghost["post"]: sel(a, k))

    def f(k):
        l, r = M.left(k), M.right(k); g = M.inT(k); w = M.hi(k) - M.lo(k)
        return And(Imp(g, And(LE(1, pre(k)), LE(pre(k) + w, M.n), LE(1, post(k) - w), LE(post(k), M.n))),
                   Imp(And(g, EQ(k, M.root)), And(EQ(pre(k), 1), EQ(post(k), M.n))),
                   Imp(And(g, NE(l, 0)), And(EQ(pre(l), pre(k) + 1), EQ(post(l), post(k) - 1 - (M.hi(k) - M.idx(k))))),
                   Imp(And(g, NE(r, 0)), And(EQ(pre(r), pre(k) + 1 + M.idx(k) - M.lo(k)), EQ(post(r), post(k) - 1))))
    return f


def numbered(st, M):
    st.ghost["pre"] = freshA("pre"); st.ghost["post"] = freshA("post"); st.ghost["depth"] = freshA("depth")
    univ(st, number(M, st))
    d = lambda k, a=st.ghost["depth"]: ite(EQ(k, 0), Lin(0), sel(a, k))
    st.ghost["#depth"] = d if not M.T.avl else M.height
    if not M.T.avl: univ(st, lambda k: Imp(M.inT(k), heightq(d(k), d(M.left(k)), d(M.right(k)))))


def X(M, st, o):
    """the place of a node in an order"""
    if o == "idx": return M.idx
    return lambda k, a=st.ghost[o]: sel(a, k)


def first(M, st, o, k):
    """the first place of the subtree of k in an order"""
    if o == "pre": return X(M, st, o)(k)
    if o == "idx": return M.lo(k)
    return X(M, st, o)(k) - (M.hi(k) - M.lo(k))


def main(ex, st): return Mem(ex.special["#T"], st, st.ghost["#trees"][0])
def size(M, k): return ite(EQ(k, 0), Lin(0), M.hi(k) - M.lo(k) + 1)


def recursion(ex, st, what, m):
    r = st.ghost.get("#rec")
    if r is not None and r[0] == what: ex.oblige(st, "recursion of %s is on a smaller subtree" % what, And(LE(0, m), LT(m, r[1])), "termination")


def arg_node(ex, st, v):
    v = st.norm(ex.as_int(v))
    if not v.const(): touch(st, v)
    return v


def c_next(o, fn):
    def apply(ex, st, args, dem):
        M = main(ex, st); k = arg_node(ex, st, args[0])
        if k.const() and k.c == 0: return [(st, Lin(0))]
        ex.oblige(st, "%s: the argument is null or a node of the tree" % fn, Or(EQ(k, 0), M.inT(k)), "pre")
        x = fresh("next", tag="node"); st.assume(And(LE(0, x), LE(x, E.MAXADDR)))
        touch(st, x); Y = X(M, st, o)
        st.assume(ite(EQ(k, 0), EQ(x, 0), ite(EQ(x, 0), EQ(Y(k), M.n), And(M.inT(x), EQ(Y(x), Y(k) + 1)))))
        return [(st, x)]
    return Contract(fn, r"dstruct::tree::%s\(dstruct::tree::BinaryTreeLink_\*\)" % fn, apply)


def c_height():
    def apply(ex, st, args, dem):
        M = main(ex, st); k = arg_node(ex, st, args[0])
        ex.oblige(st, "height: the argument is null or a node of the tree", Or(EQ(k, 0), M.inT(k)), "pre")
        recursion(ex, st, "height", size(M, k))
        r = fresh("height"); st.assume(And(EQ(r, st.ghost["#depth"](k)), LE(0, r), LE(r, size(M, k))))
        return [(st, r)]
    return Contract("height", r"dstruct::tree::height\(.*\)", apply)


def c_traversal(o, fn):
    def apply(ex, st, args, dem):
        M = main(ex, st); k = arg_node(ex, st, args[0])
        ex.oblige(st, "%s: the argument is null or a node of the tree" % fn, Or(EQ(k, 0), M.inT(k)), "pre")
        s = size(M, k); recursion(ex, st, fn, s)
        v0, n0 = st.ghost["visited"], st.ghost["nvisit"]; v1 = freshA("visited"); Y = X(M, st, o)
        n1 = fresh("nvisit"); st.assume(And(EQ(n1, n0 + s), LE(0, s)))
        st.ghost["visited"] = v1; st.ghost["nvisit"] = n1; st.ghost["#havoc"] = st.ghost.get("#havoc", 0) + 1
        b = first(M, st, o, k)
        st.ghost["#vuniv"] += (lambda m: And(Imp(LT(m, n0), EQ(sel(v1, m), sel(v0, m))), Imp(And(LE(n0, m), LT(m, n1)), And(M.inT(sel(v1, m)), EQ(Y(sel(v1, m)), b + (m - n0))))),)
        return [(st, None)]
    return Contract(fn, r"void dstruct::tree::%s<.*::traversal<.*>\(.*\)" % fn, apply)


def visited(ex, st, M, o, lo, hi, base, what):
    m = fresh("m"); s = st.fork(); Y = X(M, st, o)
    s.assume(And(LE(lo, m), LT(m, hi)))
    for f in st.ghost["#vuniv"]: s.assume(f(m))
    y = sel(st.ghost["visited"], m); touch(s, y)
    ex.oblige(s, what, And(M.inT(y), EQ(Y(y), base + (m - lo))), "post")


def c_clear():
    """the traversal with which clear releases a subtree"""
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; M = main(ex, st); k = arg_node(ex, st, args[0])
        if k.const() and k.c == 0: return [(st, None)]
        recursion(ex, st, "clear", size(M, k))
        sub_pre(ex, st, M, k, "clear")
        sp = st.soups["node"].copy(); st.soups["node"] = sp
        sp.dom = freshAB("dom"); sp.ldom = sp.dom
        for d in T.data: sp.f[d + ".l"] = freshAB(d + "live")
        st.ghost["#havoc"] = st.ghost.get("#havoc", 0) + 1
        M1 = main(ex, st)
        univ(st, lambda q: cleared(M, M1, k, q))
        return [(st, None)]
    return Contract("clear subtree", r"void dstruct::tree::postorder_traversal<.*::clear\(.*", apply)


def c_clear_root():
    """clear(root pointer of a tree)"""
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; t = T.at(ex, st, ex.as_int(args[0]) - T.oRoot, "clear"); M = Mem(T, st, t)
        v = T.cell(st, t, T.oRoot)
        ex.oblige(st, "clear: the root pointer is the root", FALSE if v is None else EQ(v, M.root), "pre")
        sub_pre(ex, st, M, M.root, "clear")
        sp = st.soups["node"].copy(); st.soups["node"] = sp
        sp.dom = freshAB("dom"); sp.ldom = sp.dom
        for d in T.data: sp.f[d + ".l"] = freshAB(d + "live")
        st.ghost["own"] = freshA("own"); st.ghost["n%d" % t] = Lin(0); st.ghost["r%d" % t] = Lin(0)
        st.ghost["#havoc"] = st.ghost.get("#havoc", 0) + 1
        M1 = Mem(T, st, t); st.ghost["#mems"] += (M1,)
        univ(st, lambda q: And(*[f for _, _, f in emptied(M, M1, q)]))
        ex.mut(st, t).cells[T.oRoot] = (8, Lin(0))
        return [(st, None)]
    return Contract("clear root", r"dstruct::tree::BinaryTree<.*>::clear\(dstruct::tree::TreeNode<.*>\*&\)", apply)


def emptied(M, M1, q):
    gone = M.inT(q)
    return [("every node is released and no other", "leak", M1.dom(q) == And(M.dom(q), Not(gone))),
            ("the data of every node is destroyed and no other", "lifetime", And(*[M1.live[d](q) == And(M.live[d](q), Not(gone)) for d in M.T.data])),
            ("no node stays in the tree", "inv", EQ(M1.own(q), ite(gone, Lin(0), M.own(q))))]


def cleared(M, M1, k, q):
    gone = And(NE(k, 0), M.inT(q), LE(M.lo(k), M.idx(q)), LE(M.idx(q), M.hi(k)))
    return And(M1.dom(q) == And(M.dom(q), Not(gone)), *[M1.live[d](q) == And(M.live[d](q), Not(gone)) for d in M.T.data])


def subf(M, r):
    """nodes of the subtree of r are intact (its ancestors need not be)"""
    return lambda k: Imp(And(NE(r, 0), Or(EQ(k, r), And(LE(M.lo(r), M.idx(k)), LE(M.idx(k), M.hi(r))))), And(*[f for nm, kd, f in wf(M, k) if "parent" not in nm and "recorded" not in nm and "differ" not in nm]))


def sub_pre(ex, st, M, r, what):
    ex.oblige(st, "%s: the argument is null or a node of the tree" % what, Or(EQ(r, 0), M.inT(r)), "pre")
    s = st.fork(); k = node(s, [M])
    ex.oblige(s, "%s: the subtree is intact" % what, subf(M, r)(k), "pre")


def c_copy():
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; r = arg_node(ex, st, args[0]); ts = st.ghost["#trees"]
        if len(ts) < 2: raise ToolLimit("copy of an unknown tree")
        S = Mem(T, st, ts[1])
        if r.const() and r.c == 0: return [(st, Lin(0))]
        ex.oblige(st, "copy: the argument is null or a node of the source", Or(EQ(r, 0), S.inT(r)), "pre")
        recursion(ex, st, "copy", size(S, r))
        s = st.fork(); k = node(s, [S])
        ex.oblige(s, "copy: the source is intact", wff(S)(k), "pre")
        ex.oblige(s, "copy: memory is owned", glob0(S)(k), "pre")
        check_pos(ex, st, S, [S], "copy")
        M0 = Mem(T, st, ts[0])
        T.havoc(st, ["par", "left", "right"] + (["h"] if T.avl else []) + [d + x for d in T.data for x in (".v", ".l")], ["own", "idx", "lo", "hi", "P%d" % ts[0]], True)
        M1 = Mem(T, st, ts[0]); st.ghost["#mems"] += (M1,)
        ret = fresh("copy", tag="node"); st.assume(And(LE(0, ret), LE(ret, E.MAXADDR)))
        L, H = S.lo(r), S.hi(r)
        univ(st, lambda k: And(*[f for _, _, f in copied(S, M0, M1, r, ret)(k)]))
        puniv(st, copiedp(S, M0, M1, r))
        st.assume(ite(EQ(r, 0), EQ(ret, 0), And(EQ(ret, M1.P(S.idx(r))), LT(0, ret))))
        touch(st, ret); ptouch(st, S.idx(r))
        return [(st, ret)]
    return Contract("copy", r"dstruct::tree::BinaryTree<.*>::copy\(.*\)", apply)


def copied(S, M0, M1, r, ret):
    """S: the source in the old memory; M0, M1: the target before and after copying the subtree of r"""
    def f(k):
        s = S.P(M1.idx(k)); old = M0.dom(k); new = And(Not(old), M1.inT(k)); l, rr, p = M1.left(k), M1.right(k), M1.par(k)
        side = lambda c, sc: ite(EQ(sc, 0), EQ(c, 0), And(LT(0, c), M1.inT(c), Not(M0.dom(c)), EQ(M1.idx(c), S.idx(sc)), EQ(M1.par(c), k)))
        return [("what was there is not touched", "post", Imp(old, And(EQ(M1.own(k), M0.own(k)), EQ(M1.idx(k), M0.idx(k)), EQ(M1.lo(k), M0.lo(k)), EQ(M1.hi(k), M0.hi(k)), M1.dom(k), same_node(M0, M1, k), *[EQ(M1.val[d](k), M0.val[d](k)) for d in M0.T.data]))),
                ("live data is not touched", "lifetime", Imp(old, And(*[M1.live[d](k) == M0.live[d](k) for d in M0.T.data]))),
                ("only nodes of the copy are new", "leak", Imp(And(Not(old), Not(M1.inT(k))), And(EQ(M1.own(k), 0), Not(M1.dom(k)), *[Not(M1.live[d](k)) for d in M0.T.data]))),
                ("every new node has a position of the copied subtree", "inv", Imp(new, And(LT(0, k), M1.dom(k), NE(r, 0), LE(S.lo(r), M1.idx(k)), LE(M1.idx(k), S.hi(r)), EQ(M1.P(M1.idx(k)), k), EQ(M1.lo(k), S.lo(s)), EQ(M1.hi(k), S.hi(s))))),
                ("every new node holds a copy of its original", "post", Imp(new, And(*([EQ(M1.val[d](k), S.val[d](s)) for d in S.T.data] + ([EQ(M1.h(k), S.h(s))] if S.T.avl else []))))),
                ("the data of new nodes is alive", "lifetime", Imp(new, And(*[M1.live[d](k) for d in S.T.data]))),
                ("the left subtree of a new node copies that of its original", "inv", Imp(new, side(l, S.left(s)))),
                ("the right subtree of a new node copies that of its original", "inv", Imp(new, side(rr, S.right(s)))),
                ("the parent link of a new node is consistent", "inv", Imp(new, ite(EQ(k, ret), EQ(p, 0), And(LT(0, p), M1.inT(p), Not(M0.dom(p)), Or(EQ(M1.left(p), k), EQ(M1.right(p), k))))))]
    return f


def copiedp(S, M0, M1, r):
    def f(i):
        inn = And(NE(r, 0), LE(S.lo(r), i), LE(i, S.hi(r))); k = M1.P(i)
        return And(Imp(inn, And(LT(0, k), M1.inT(k), Not(M0.dom(k)), EQ(M1.idx(k), i), M1.dom(k))), Imp(Not(inn), EQ(k, M0.P(i))))
    return f


# ------------------------------------------------------------------ loops
def bounds(M, cid, o, k):
    """what lies next to the subtree of k is on the right side of the element searched for"""
    return And(Imp(LT(1, M.lo(k)), LT(M.rk(cid, M.lo(k) - 1), o)), Imp(LT(M.hi(k), M.n), LT(o, M.rk(cid, M.hi(k) + 1))))


def template(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    out = []
    T = ex.special["#T"]
    if hv.soups or any(g in ("own", "idx", "lo", "hi") or g[0] in "Pnr" and g[1:].isdigit() for g in hv.ghosts):
        return special_loop(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv)
    ptrs = [i for i in range(len(lvars)) if isinstance(lvars[i].head, Lin) and isinstance(lvars[i].entry, Lin) and len(lvars[i].head.t) == 1 and AT.meta[lvars[i].head.t[0][0]].get("tag") == "node"]
    zp = [i for i in ptrs if lvars[i].head.c == 0]
    Ms = [Mem(T, entry, t) for t in entry.ghost["#trees"]]
    M = Ms[0]
    out.append(Cand("pointers take part", lambda c: TRUE, True, lambda c: touch(c.st, *[c.v[i] for i in zp])))
    for x, i in enumerate(ptrs):
        for j in ptrs[:x]:
            d = entry.norm(lvars[i].entry) - entry.norm(lvars[j].entry)
            if d.const(): out.append(Cand("pointers move together", lambda c, i=i, j=j, d=d: EQ(c.v[i] - c.v[j], d)))
            else: out.append(Cand("pointers differ by a field", lambda c, i=i, j=j, d=lvars[i].head.c - lvars[j].head.c: EQ(c.v[i] - c.v[j], d)))
    og = entry.ghost.get("#o")
    for i in zp:
        nm = lvars[i].name; x0 = lvars[i].entry
        out.append(Cand("%s is not null" % nm, lambda c, i=i: LT(0, c.v[i])))
        out.append(Cand("%s is null or in the tree" % nm, lambda c, i=i: Or(EQ(c.v[i], 0), And(LT(0, c.v[i]), M.inT(c.v[i])))))
        out.append(Cand("%s is in the tree" % nm, lambda c, i=i: M.inT(c.v[i])))
        if not (x0.const() and x0.c == 0):
            for lab, fn in (("first position", M.lo), ("last position", M.hi)):
                out.append(Cand("%s of %s constant" % (lab, nm), lambda c, i=i, fn=fn, x0=x0: EQ(fn(c.v[i]), fn(x0))))
            out.append(Cand("%s is where it was or ends before" % nm, lambda c, i=i, x0=x0: Or(EQ(c.v[i], x0), LT(M.hi(c.v[i]), M.hi(x0)))))
            if "pre" in entry.ghost:
                out.append(Cand("preorder end of %s constant" % nm, lambda c, i=i, x0=x0: EQ(X(M, entry, "pre")(c.v[i]) + M.hi(c.v[i]) - M.lo(c.v[i]), X(M, entry, "pre")(x0) + M.hi(x0) - M.lo(x0))))
                out.append(Cand("preorder start of %s constant" % nm, lambda c, i=i, x0=x0: EQ(X(M, entry, "pre")(c.v[i]), X(M, entry, "pre")(x0))))
                out.append(Cand("postorder start of %s constant" % nm, lambda c, i=i, x0=x0: EQ(X(M, entry, "post")(c.v[i]) - M.hi(c.v[i]) + M.lo(c.v[i]), X(M, entry, "post")(x0) - M.hi(x0) + M.lo(x0))))
        if og is not None:
            cid, o = og
            out.append(Cand("%s: neighbours of the subtree are on the right side" % nm, lambda c, i=i: Imp(NE(c.v[i], 0), bounds(M, cid, o, c.v[i])), True, lambda c, i=i: use_bounds(c, M, cid, o, c.v[i])))

            def where(st, x): return lambda p: Imp(And(LE(1, p), LE(p, M.n), EQ(M.rk(cid, p), o)), And(NE(x, 0), LE(M.lo(x), p), LE(p, M.hi(x))))

            def chk(c, i=i):
                p = fresh("p"); s = c.st
                pr = [f(p) for f in s.ghost["#puniv"]] + [g(M.idx(q), p) for g in s.ghost["#suniv"] for q in s.ghost["#touch"]] + [g(p, M.idx(q)) for g in s.ghost["#suniv"] for q in s.ghost["#touch"]]
                return Imp(And(*pr), where(s, c.v[i])(p))
            out.append(Cand("the element searched for can only be below %s" % nm, chk, True, lambda c, i=i: puniv(c.st, where(c.st, c.v[i]))))
        for j in zp:
            if i == j: continue
            if og is not None:
                cid, o = og
                out.append(Cand("%s is the child of %s on the path" % (nm, lvars[j].name), lambda c, i=i, j=j: ite(EQ(c.v[j], 0), EQ(c.v[i], M.root), And(M.inT(c.v[j]), ite(LT(o, crank(cid, M.val["key"](c.v[j]))), EQ(c.v[i], M.left(c.v[j])), And(LT(crank(cid, M.val["key"](c.v[j])), o), EQ(c.v[i], M.right(c.v[j]))))))))
        if "nvisit" in hv.ghosts and "#X" in entry.ghost:
            Y = X(M, entry, entry.ghost["#X"])
            out.append(Cand("%s is the next node to visit" % nm, lambda c, i=i: ite(EQ(c.v[i], 0), EQ(c.st.ghost["nvisit"], M.n), And(M.inT(c.v[i]), EQ(Y(c.v[i]), c.st.ghost["nvisit"] + 1)))))
    if "nvisit" in hv.ghosts and "#X" in entry.ghost:
        Y = X(M, entry, entry.ghost["#X"])

        def ok(st): return lambda m, v=st.ghost["visited"], n=st.ghost["nvisit"]: Imp(And(LE(0, m), LT(m, n)), And(M.inT(sel(v, m)), EQ(Y(sel(v, m)), m + 1)))

        def vchk(c):
            m = fresh("m")
            return Imp(And(*[f(m) for f in c.st.ghost["#vuniv"]]), ok(c.st)(m))

        def vuse(c): c.st.ghost["#vuniv"] += (ok(c.st),)
        out.append(Cand("nodes visited so far are the first ones", vchk, True, vuse))
        out.append(Cand("0 <= visits <= size", lambda c: And(LE(0, c.st.ghost["nvisit"]), LE(c.st.ghost["nvisit"], M.n))))
    return out


def use_bounds(c, M, cid, o, x):
    c.st.assume(Imp(NE(x, 0), bounds(M, cid, o, x)))


def special_loop(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    """the climb after a removal: heights are right everywhere but at the current node and its parent"""
    T = ex.special["#T"]; out = []
    if not T.avl: return out
    t = entry.ghost["#trees"][0]; M0 = Mem(T, entry, t)
    ptrs = [i for i in range(len(lvars)) if isinstance(lvars[i].head, Lin) and len(lvars[i].head.t) == 1 and lvars[i].head.c == 0 and AT.meta[lvars[i].head.t[0][0]].get("tag") == "node"]
    for i in ptrs:
        nm = lvars[i].name

        def use(c, i=i):
            M = Mem(T, c.st, t); cur = c.v[i]; c.st.ghost["#mems"] += (M,)
            univ(c.st, wfrbf(M, cur)); touch(c.st, cur)

        def chk(c, i=i):
            M = Mem(T, c.st, t); cur = c.v[i]; touch(c.st, cur, M.root); touch(c.st, M.par(cur)); k = node(c.st, [M])
            return wfrbf(M, cur)(k)
        out.append(Cand("%s is null or in the tree" % nm, lambda c, i=i: Or(EQ(c.v[i], 0), And(LT(0, c.v[i]), Mem(T, c.st, t).inT(c.v[i]))), True, lambda c, i=i: (touch(c.st, c.v[i]), c.st.assume(Or(EQ(c.v[i], 0), And(LT(0, c.v[i]), Mem(T, c.st, t).inT(c.v[i])))))))
        out.append(Cand("the tree is well formed but for the heights at %s" % nm, chk, True, use))

    def fuse(c):
        M = Mem(T, c.st, t); univ(c.st, lambda k: frame_trees(M0, M, k, [t]))

    def fchk(c):
        M = Mem(T, c.st, t); k = node(c.st, [M0, M])
        return frame_trees(M0, M, k, [t])
    out.append(Cand("nodes of other trees are not touched", fchk, True, fuse))

    def cell(c):
        v = T.cell(c.st, t, T.oRoot); M = Mem(T, c.st, t)
        return None if v is None else And(EQ(v, M.root), rootf(M), LT(0, M.n))

    def cuse(c):
        touch(c.st, Mem(T, c.st, t).root); c.st.assume(cell(c))
    out.append(Cand("the root pointer is the root", cell, True, cuse))
    return out


def wfrb(M, c):
    """well formed, except: c may be out of balance by two, and the parent of c may still record what it did before the height of c fell"""
    def f(k):
        out = [x for x in wf(M, k, lambda q: TRUE) if "recorded height is one" not in x[0] and "differ" not in x[0] and "at most the size" not in x[0]]
        l, r = M.left(k), M.right(k); hl, hr = M.height(l), M.height(r); cl, cr = M.height(M.left(c)), M.height(M.right(c))
        bal = lambda a, b, d: And(LE(a - b, d), LE(b - a, d))
        ok = lambda v: (lambda a, b: And(heightq(M.h(k), a, b), bal(a, b, 1)))(ite(EQ(l, c), v, hl), ite(EQ(r, c), v, hr))
        par = Or(ok(M.h(c)), And(bal(cl, cr, 1), ok(M.h(c) + 1)))
        up = And(NE(c, 0), EQ(k, M.par(c)))
        out += [("the recorded height is at most the size", "inv", Imp(M.inT(k), LE(M.h(k), M.hi(k) - M.lo(k) + 1))),
                ("the recorded height is right but above the node to balance", "inv", Imp(And(M.inT(k), Not(up)), heightq(M.h(k), hl, hr))),
                ("heights differ by at most one but at the node to balance", "inv", Imp(And(M.inT(k), Not(up)), ite(EQ(k, c), bal(hl, hr, 2), bal(hl, hr, 1)))),
                ("the height above the node to balance is right or was right before", "inv", Imp(And(M.inT(k), up), par))]
        return out
    return f


def wfrbf(M, c): return lambda k: And(*[f for _, _, f in wfrb(M, c)(k)])


def rotated(left):
    """ghost code: the extents of the two nodes a rotation exchanges"""
    def before(ex, st, args):
        M = main(ex, st); x = arg_node(ex, st, args[0]); y = M.right(x) if left else M.left(x); iy = M.idx(y); a, b = M.lo(x), M.hi(x); t = M.t
        touch(st, y)

        def after(s, r):
            g = s.ghost; S = lambda nm, k, v: g.__setitem__(nm, z3.Store(g[nm], k.z(), lin(v).z()))
            S("lo", y, a); S("hi", y, b)
            if left: S("hi", x, iy - 1)
            else: S("lo", x, iy + 1)
            g["r%d" % t] = ite(EQ(g["r%d" % t], x), y, g["r%d" % t])
        return after
    return before


def alloc(ex, st, k, what):
    ex.oblige(st, what, And(LT(0, k), selb(st.soups["node"].dom, k)), "pre")


def c_rotate(left):
    """exactly the three links a rotation changes (C23 says what that means for a tree)"""
    fn = "left_rotate" if left else "right_rotate"; ghost = rotated(left)

    def apply(ex, st, args, dem):
        M = main(ex, st); x = arg_node(ex, st, args[0]); alloc(ex, st, x, "%s: the argument is an allocated node" % fn)
        y = M.right(x) if left else M.left(x); alloc(ex, st, y, "%s: it has a child on the other side" % fn); touch(st, y)
        z = M.left(y) if left else M.right(y); touch(st, z)
        ex.oblige(st, "%s: the inner grandchild is null or an allocated node" % fn, Or(EQ(z, 0), selb(st.soups["node"].dom, z)), "pre")
        ex.oblige(st, "%s: the nodes are distinct" % fn, And(NE(x, y), NE(x, z), NE(y, z)), "pre")
        after = ghost(ex, st, args); s = st.soups["node"].copy(); st.soups["node"] = s
        W = lambda f, k, v: s.f.__setitem__(f, z3.Store(s.f[f], k.z(), Z(lin(v))))
        px = M.par(x)
        W("right" if left else "left", x, z); W("left" if left else "right", y, x); W("par", y, px); W("par", x, y); W("par", z, ite(EQ(z, 0), M.par(z), x))
        after(st, y)
        return [(st, y)]
    return Contract("tree::" + fn, r"dstruct::tree::%s\(.*\)" % fn, apply)


def rotate_post(ex, st, M0, M1, x, ret, left):
    """what the rotation does to every node"""
    y = M0.right(x) if left else M0.left(x); z = M0.left(y) if left else M0.right(y)
    ex.oblige(st, "the child that comes up is returned", EQ(ret, y), "post")

    def f(k):
        up = lambda M: M.right(k) if left else M.left(k); dn = lambda M: M.left(k) if left else M.right(k)
        return [("the parents are those after the rotation", "post", EQ(M1.par(k), ite(EQ(k, y), M0.par(x), ite(EQ(k, x), y, ite(And(EQ(k, z), NE(z, 0)), x, M0.par(k)))))),
                ("the children are those after the rotation", "post", And(EQ(up(M1), ite(EQ(k, x), z, up(M0))), EQ(dn(M1), ite(EQ(k, y), x, dn(M0))))),
                ("nothing else changes", "post", And(*[EQ(M1.val[d](k), M0.val[d](k)) for d in M0.T.data], EQ(M1.h(k), M0.h(k)) if M0.T.avl else TRUE)),
                ("nothing is allocated, released or destroyed", "lifetime", And(M1.dom(k) == M0.dom(k), *[M1.live[d](k) == M0.live[d](k) for d in M0.T.data]))]
    s = st.fork(); k = fresh("k")
    for nm, kind, g in f(k): ex.oblige(s, nm, g, kind)


def c_max():
    def apply(ex, st, args, dem):
        a, b = [ex.load(st, ex.as_int(x), INT(32), "max") for x in args[:2]]
        if a is None or b is None: return []
        r = fresh("max"); st.assume(maxq(r, ex.as_int(a), ex.as_int(b)))
        return [(st, r)]
    return Contract("max", r"int dstruct::max<int>\(.*\)", apply)


def maxq(r, a, b): return And(LE(a, r), LE(b, r), Or(EQ(r, a), EQ(r, b)))


def c_nodeheight():
    def apply(ex, st, args, dem):
        M = main(ex, st); k = arg_node(ex, st, args[1])
        if k.const() and k.c == 0: return [(st, Lin(0))]
        ex.oblige(st, "_height: the argument is null or an allocated node", Or(EQ(k, 0), And(LT(0, k), selb(st.soups["node"].dom, k))), "pre")
        r = fresh("height"); st.assume(And(EQ(r, M.height(k)), LE(-(1 << 31), r), LT(r, 1 << 31)))
        return [(st, r)]
    return Contract("AVLTree::_height", A + r"_height\(.*\)", apply)


A = r"dstruct::AVLTree<.*>::"


def measures():
    def down(j, up):
        def m(ex, c):
            ps = [v for v in c.v if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and AT.meta[v.t[0][0]].get("tag") == "node"]
            if j >= len(ps): return None
            M = main(ex, c.st); s = ite(EQ(ps[j], 0), Lin(0) if not up else M.n + 1, M.hi(ps[j]) - M.lo(ps[j]) + 1)
            return M.n + 1 - s if up else s
        return m

    def visits(ex, c): return main(ex, c.st).n - c.st.ghost["nvisit"]
    return [down(j, up) for j in (0, 1) for up in (False, True)] + [visits]


# ------------------------------------------------------------------ units
def base_contracts():
    return [c_next("pre", "next_preorder"), c_next("idx", "next_inorder"), c_next("post", "next_postorder"), c_height(),
            c_traversal("pre", "preorder_traversal"), c_traversal("idx", "inorder_traversal"), c_traversal("post", "postorder_traversal"), c_clear(), c_clear_root(), c_copy(), c_delete(), c_try(), c_insert(), c_avl_delete(), c_swap(), c_check(), c_rebalance(), c_by_target(), c_rotate(True), c_rotate(False), c_max(), c_nodeheight()]


def units(T, mod):
    us = []; K = {"BST": "BinarySearchTree", "AVL": "AVLTree", "MAP": "Map's AVLTree"}[T.kind]
    cs = base_contracts()

    def U(name, fn, s, p, off=(), **sp):
        special = {"#T": T, "#free": free_node(T), "#onload": onload, "#partial": True, "#measures": measures(), "visit": visit_node, "visit(Elem const&)": visit_node, "visit(dstruct::KeyValue<Elem const, Elem> const&)": visit_node}
        special.update(sp)
        u = Unit("%s::%s" % (K, name), fn, s, p, contracts=cs, off=off, special=special, templates=[template], policy=new_node(T)); u.mod = mod; us.append(u)
        u.weight = {"_delete": 90, "_rebalance_after_delete": 80, "_insert": 55, "_delete_by_target": 18, "pop": 16, "copy(root)": 13, "_swap_node": 12}.get(name, 1) if T.avl or name == "_delete" else 2

    def start(ex, elem=False, num=False, tree=True):
        st = T.world(ex); c = {}
        c["M"] = T.tree(ex, st, "this") if tree else T.raw(ex, st, "this")
        c["t"] = c["M"].t; c["this"] = st.heap[c["t"]].base
        if tree: c["cid"] = st.ghost["#cid%d" % c["t"]]
        if num: numbered(st, c["M"])
        if elem:
            c["earg"], c["e"] = T.elem(ex, st); c["o"] = crank(c["cid"], c["e"]["key"]); st.ghost["#o"] = (c["cid"], c["o"])
        return st, c

    def some(st, nm, M, null=True):
        x = fresh(nm, tag="node"); st.assume(And(LE(0, x), LE(x, E.MAXADDR))); st.assume(Or(EQ(x, 0), M.inT(x)) if null else And(LT(0, x), M.inT(x)))
        touch(st, x); touch(st, M.left(x), M.right(x), M.par(x)); ptouch(st, M.idx(x))
        return x

    def unchanged(ex, st, c):
        """nothing the tree consists of has changed"""
        M0, M1 = c["M"], Mem(T, st, c["t"])
        T.cells(ex, st, c["t"], M0, "the tree", c.get("cid"))
        check_node(ex, st, lambda k: [("no node changes", "post", And(same_node(M0, M1, k), *[EQ(M1.val[d](k), M0.val[d](k)) for d in T.data])), ("nothing is allocated, released or destroyed", "lifetime", And(M1.dom(k) == M0.dom(k), *[M1.live[d](k) == M0.live[d](k) for d in T.data]))], [M0], "the tree")

    def q_setup(*args, elem=False, num=True, out=None, pre=None):
        def f(ex):
            st, c = start(ex, elem, num)
            for p in (pre(c, st) if pre else []): st.assume(p)
            return [("", st, [c["this"] if a == "this" else c["earg"] if a == "e" else a for a in args], c)]
        return f

    def q_post(ens):
        def f(ex, st, r, c):
            for nm, g in ens(ex, st, r, c): ex.oblige(st, nm, g, "post")
            unchanged(ex, st, c)
        return f
    # size and friends
    U("empty", "w_empty", q_setup("this"), q_post(lambda ex, st, r, c: [("empty exactly when there are no elements", r == EQ(c["M"].n, 0))]))
    U("size", "w_size", q_setup("this"), q_post(lambda ex, st, r, c: [("size is the number of elements", EQ(r, c["M"].n))]))
    U("capacity", "w_capacity", q_setup("this"), q_post(lambda ex, st, r, c: [("capacity is the number of elements", EQ(r, c["M"].n))]))

    # search
    def found(ex, st, r, c):
        M = c["M"]; k = ex.as_int(r) - T.oKey; s = st.fork(); touch(s, k); p = fresh("p"); ptouch(s, p)
        touch(s, M.P(p)); stouch(s, p); near(s, M, p)
        ex.oblige(s, "what is found is in the tree and equal to the key", Imp(NE(r, 0), And(M.inT(k), EQ(crank(c["cid"], M.val["key"](k)), c["o"]))), "post")
        ex.oblige(s, "nothing is found only when there is no such element", Imp(And(EQ(r, 0), LE(1, p), LE(p, M.n)), NE(M.rk(c["cid"], p), c["o"])), "post")
        return []
    U("find", "w_find", q_setup("this", "e", elem=True), q_post(found))

    def found_next(ex, st, r, c):
        M = c["M"]; k = ex.as_int(r) - T.oKey; s = st.fork(); touch(s, k); i = c["i"]
        near(s, M, i)
        ex.oblige(s, "the next element in order, or the end", ite(EQ(r, 0), EQ(i, M.n), And(LT(i, M.n), EQ(k, M.P(i + 1)))), "post")
        return []

    def next_setup(ex):
        st, c = start(ex, True, True); M = c["M"]; i = fresh("i"); c["i"] = i
        st.assume(And(LE(1, i), LE(i, M.n), EQ(M.rk(c["cid"], i), c["o"]))); stouch(st, i); ptouch(st, i + 1); touch(st, M.P(i))
        st.ghost["#eq"] = i
        return [("", st, [c["this"], c["earg"]], c)]
    U("find, then ++", "w_find_next", next_setup, q_post(found_next))

    # stepping
    for o, fn in (("pre", "next_preorder"), ("idx", "next_inorder"), ("post", "next_postorder")):
        def s(ex):
            st, c = start(ex, False, True); k = some(st, "link", c["M"]); c["k"] = k
            return [("", st, [k], c)]

        def p(ex, st, r, c, o=o):
            M = c["M"]; Y = X(M, st, o); k = c["k"]; x = ex.as_int(r); touch(st, x)
            ex.oblige(st, "null stays null", Imp(EQ(k, 0), EQ(x, 0)), "post")
            ex.oblige(st, "the next node in this order, or null after the last", Imp(NE(k, 0), ite(EQ(x, 0), EQ(Y(k), M.n), And(M.inT(x), EQ(Y(x), Y(k) + 1)))), "post")
            unchanged(ex, st, c)
        U(fn, "re:dstruct::tree::%s\\(dstruct::tree::BinaryTreeLink_\\*\\)" % fn, s, p, off=(fn,))

    # iteration
    def iterate(o):
        def s(ex):
            st, c = start(ex, False, True); st.ghost["#X"] = o
            return [("", st, [c["this"]], c)]

        def p(ex, st, r, c):
            ex.oblige(st, "every element is visited exactly once", EQ(st.ghost["nvisit"], c["M"].n), "post")
            visited(ex, st, c["M"], o, Lin(0), st.ghost["nvisit"], Lin(1), "elements are visited in order")
            unchanged(ex, st, c)
        return s, p
    its = [("iterator preorder", "w_pre", "pre"), ("iterator inorder", "w_in", "idx"), ("iterator postorder", "w_post", "post"), ("iterator default", "w_default", "idx"), ("range for", "w_rangefor", "idx")]
    if T.kind == "BST": its += [("base iterator preorder", "w_bpre", "pre"), ("base iterator inorder", "w_bin", "idx"), ("base iterator postorder", "w_bpost", "post"),
                                ("traversal preorder", "w_tpre", "pre"), ("traversal inorder", "w_tin", "idx"), ("traversal postorder", "w_tpost", "post"), ("traversal default", "w_tdefault", "idx")]
    for nm, w, o in its: U(nm, w, *iterate(o))
    if T.kind == "BST":
        for o, fn in (("pre", "preorder_traversal"), ("idx", "inorder_traversal"), ("post", "postorder_traversal")):
            def s(ex, o=o, fn=fn):
                st, c = start(ex, False, True); M = c["M"]; k = some(st, "root", M); c["k"] = k
                st.ghost["#rec"] = (fn, size(M, k)); v = fresh("v0"); st.assume(And(LE(0, v), LE(v, LIM))); st.ghost["nvisit"] = v; c["v"] = v; st.ghost["visited"] = freshA("visited"); c["vis"] = st.ghost["visited"]
                fp = ex.add_obj(st, 8, "function", "param"); name = [n for n in list(ex.m.decls) if ex.m.dem.get(n, n).startswith("visit(")][0]
                fp = ex.mut(st, fp.id); fp.cells[0] = (8, ex.global_addr(st, name))
                if o == "post": arg = fp.base
                else:
                    la = ex.add_obj(st, 8, "callback", "param"); la = ex.mut(st, la.id); la.cells[0] = (8, fp.base); arg = la.base
                return [("", st, [k, arg], c)]

            def p(ex, st, r, c, o=o):
                M = c["M"]; k = c["k"]; n = st.ghost["nvisit"]
                ex.oblige(st, "every node of the subtree is visited exactly once", EQ(n, c["v"] + size(M, k)), "post")
                visited(ex, st, M, o, c["v"], n, first(M, st, o, k), "nodes are visited in order")
                m = fresh("m"); s2 = st.fork(); s2.assume(And(LE(0, m), LT(m, c["v"])))
                for f in st.ghost["#vuniv"]: s2.assume(f(m))
                ex.oblige(s2, "earlier visits stay", EQ(sel(st.ghost["visited"], m), sel(c["vis"], m)), "post")
                unchanged(ex, st, c)
            U(fn, "re:void dstruct::tree::%s<.*::traversal<.*>\\(.*\\)" % fn, s, p)

    # rotations
    for left in (True, False):
        def rs(ex, left=left):
            """any two allocated nodes, one the child of the other; nothing is assumed about the rest"""
            st = T.world(ex); o = ex.add_obj(st, T.size, "this", "param"); t = o.id; st.ghost["#trees"] = (t,)
            st.ghost["P%d" % t] = freshA("P"); st.ghost["n%d" % t] = fresh("n"); st.ghost["r%d" % t] = fresh("root"); M = Mem(T, st, t)
            x = fresh("x", tag="node"); st.assume(And(LT(0, x), LE(x, E.MAXADDR), M.dom(x))); y = M.right(x) if left else M.left(x); z = M.left(y) if left else M.right(y)
            st.assume(And(LT(0, y), LE(y, E.MAXADDR), M.dom(y), Or(EQ(z, 0), And(M.dom(z), LT(0, z), LE(z, E.MAXADDR))), NE(x, y), NE(x, z), NE(y, z)))
            return [("", st, [x], {"M": M, "t": t, "x": x})]

        def rp(ex, st, ret, c, left=left): rotate_post(ex, st, c["M"], Mem(T, st, c["t"]), c["x"], ex.as_int(ret), left)
        fn = "left_rotate" if left else "right_rotate"
        if T.kind != "BST": U("tree::" + fn, "re:dstruct::tree::%s\\(.*\\)" % fn, rs, rp)
        else:
            U("tree::" + fn, "w_left" if left else "w_right", rs, rp, off=("tree::" + fn,))

            def os_(ex, left=left):
                """any node of any search tree with a child on the other side"""
                st, c = start(ex); M = c["M"]; x = some(st, "x", M, null=False); y = M.right(x) if left else M.left(x); st.assume(NE(y, 0)); touch(st, M.left(y) if left else M.right(y)); touch(st, M.right(y) if left else M.left(y))
                return [("", st, [x], dict(c, x=x, y=y, p=M.par(x)))]

            def op_(ex, st, ret, c):
                """the same nodes in the same in-order positions, well formed once the owner's slot names the new root"""
                M0, t, x, y, p = c["M"], c["t"], c["x"], c["y"], c["p"]; M1 = Mem(T, st, t); ret = ex.as_int(ret); touch(st, ret); Mh = M1.hole(p, EQ(M0.left(p), x), ret); L, H = M0.lo(x), M0.hi(x)
                ex.oblige(st, "the new root of the subtree has the old one's parent", And(EQ(ret, y), EQ(M1.par(ret), p)), "post")
                ex.oblige(st, "the new root of the subtree spans the same positions", And(EQ(M1.lo(ret), L), EQ(M1.hi(ret), H)), "post")
                check_tree(ex, st, Mh, [M0, M1], "after the rotation")
                check_order(ex, st, Mh, c["cid"], [M0, M1], "after the rotation")
                s = st.fork(); i = fresh("i"); ptouch(s, i); touch(s, M0.P(i))
                ex.oblige(s, "the in-order sequence is the same", And(EQ(M1.P(i), M0.P(i)), EQ(M1.n, M0.n), EQ(M1.val["key"](M1.P(i)), M0.val["key"](M0.P(i)))), "post")
                out = lambda k: Or(NE(M0.own(k), t), LT(M0.idx(k), L), LT(H, M0.idx(k)))
                check_node(ex, st, lambda k: [("no node outside the subtree is written", "post", Imp(out(k), And(same_node(M0, M1, k), EQ(M1.lo(k), M0.lo(k)), EQ(M1.hi(k), M0.hi(k))))),
                                              ("no value moves, nothing is allocated or released", "post", And(M1.dom(k) == M0.dom(k), same_data(M0, M1, k)))], [M0, M1], "after the rotation")
                T.cells(ex, st, t, M0, "after the rotation", c["cid"])
            U("%s keeps the tree" % fn, "w_left" if left else "w_right", os_, op_)
    if T.avl:
        def ms(ex):
            st = T.world(ex); v = []
            for nm in "ab":
                o = ex.add_obj(st, 4, nm, "param"); o = ex.mut(st, o.id); x = fresh(nm); st.assume(And(LE(-(1 << 31), x), LT(x, 1 << 31))); o.cells[0] = (4, x); v.append((o, x))
            return [("", st, [o.base for o, _ in v], {"a": v[0][1], "b": v[1][1]})]
        U("max", "re:int dstruct::max<int>\\(.*\\)", ms, lambda ex, st, r, c: ex.oblige(st, "the greater of the two", maxq(r, c["a"], c["b"]), "post"))

        def ns(ex):
            st, c = start(ex); k = some(st, "link", c["M"]); c["k"] = k
            return [("", st, [c["this"], k], c)]

        def np(ex, st, r, c):
            ex.oblige(st, "the recorded height, 0 for null", EQ(r, c["M"].height(c["k"])), "post"); unchanged(ex, st, c)
        U("_height", "re:" + A + r"_height\(.*\)", ns, np)

    # height
    def hs(ex):
        st, c = start(ex, False, True); k = some(st, "root", c["M"]); c["k"] = k; st.ghost["#rec"] = ("height", size(c["M"], k))
        return [("", st, [k], c)]

    def hp(ex, st, r, c):
        ex.oblige(st, "height is the number of levels", And(EQ(r, st.ghost["#depth"](c["k"])), LE(0, r), LE(r, size(c["M"], c["k"]))), "post")
        unchanged(ex, st, c)
    U("tree::height", "re:dstruct::tree::height\\(.*\\)", hs, hp)
    U("height of the tree", "w_true_height", q_setup("this"), q_post(lambda ex, st, r, c: [("height is the number of levels", EQ(r, st.ghost["#depth"](c["M"].root)))]))
    if T.avl: U("height()", "w_height", q_setup("this"), q_post(lambda ex, st, r, c: [("height() is the number of levels", EQ(r, st.ghost["#depth"](c["M"].root)))]))
    life_units(T, U, start, some, unchanged)
    (avl_units if T.avl else bst_units)(T, U, start, some, unchanged)
    if T.map: map_units(T, mod, us, U, start, some, unchanged, q_setup)
    return us


def c_find():
    """what the search returns: the node with an element equal to the key, or null"""
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; M = main(ex, st); t = M.t; r = arg_node(ex, st, args[0]); cid = st.ghost["#cid%d" % t]
        e = T.arg(ex, st, ex.as_int(args[1]) + (T.oKey - T.oData), "element to find")
        if e is None: return []
        v = cmp_id(ex, st, args[2], "find")
        if v is None: return []
        ex.oblige(st, "_find: the order is that of the tree", EQ(v, cid), "pre"); o = crank(cid, e["key"])
        ex.oblige(st, "_find: the search starts at the root", EQ(r, M.root), "pre")
        in_tree(ex, st, T, M, "_find", 1, M.n, cid)
        suniv(st, order(M, cid)); know(st, M)
        a = st.fork(); puniv(a, lambda i: Imp(And(LE(1, i), LE(i, M.n)), NE(M.rk(cid, i), o)))
        jj = fresh("found"); st.assume(And(LE(1, jj), LE(jj, M.n), EQ(M.rk(cid, jj), o))); ptouch(st, jj); touch(st, M.P(jj)); stouch(st, jj); st.ghost["#found"] = jj
        x = fresh("target", tag="node"); st.assume(And(EQ(x, M.P(jj)), LT(0, x), LE(x, E.MAXADDR))); touch(st, x)
        return [(a, Lin(0)), (st, x)]
    return Contract("_find", r"dstruct::BinarySearchTreeBase<.*>::_find\(.*\)", apply)


def map_units(T, mod, us, U, start, some, unchanged, q_setup):
    """the class Map: everything goes through its tree, which is at its start"""
    has = set(mod.funcs)
    for u in list(us):
        fn = "m_" + u.fn[2:]
        if u.fn.startswith("w_") and fn in has:
            v = copy.copy(u); v.name = u.name.replace("Map's AVLTree::", "Map::"); v.fn = fn; us.append(v)
    # the search itself
    def s_find(ex):
        st, c = start(ex, elem=True); M = c["M"]
        o = ex.add_obj(st, T.oKey - T.oData + T.esize, "key", "param"); o = ex.mut(st, o.id)
        for i, d in enumerate(T.data): o.cells[T.oKey - T.oData + i * ESZ] = ("E", ElemV(c["e"][d], TRUE))
        q = ex.add_obj(st, 8, "cmp", "param"); q = ex.mut(st, q.id); q.cells[0] = (8, c["cid"])
        return [("", st, [M.root, o.base, q.base], c)]

    def p_find(ex, st, r, c):
        M = c["M"]; k = ex.as_int(r); s = st.fork(); touch(s, k); p = fresh("p"); ptouch(s, p); touch(s, M.P(p)); stouch(s, p); near(s, M, p)
        ex.oblige(s, "what is found is in the tree and equal to the key", Imp(NE(k, 0), And(M.inT(k), EQ(crank(c["cid"], M.val["key"](k)), c["o"]))), "post")
        ex.oblige(s, "nothing is found only when there is no such element", Imp(And(EQ(k, 0), LE(1, p), LE(p, M.n)), NE(M.rk(c["cid"], p), c["o"])), "post")
        unchanged(ex, st, c)
    U("_find", "re:dstruct::BinarySearchTreeBase<.*>::_find\\(.*\\)", s_find, p_find)

    # indexing
    def s_index(present=None, value=False):
        def f(ex):
            st, c = start(ex, elem=True); M = c["M"]; st.assume(LT(M.n, LIM)); args = [c["this"], c["earg"]]
            if present:
                i = fresh("i"); st.assume(And(LE(1, i), LE(i, M.n), EQ(M.rk(c["cid"], i), c["o"]))); ptouch(st, i); touch(st, M.P(i)); stouch(st, i)
            if value:
                a, e = T.elem(ex, st, "value"); args.append(a); c["new"] = e["key"]
            return [("", st, args, c)]
        return f

    def p_index(value):
        def f(ex, st, r, c):
            M0, cid, t, o = c["M"], c["cid"], c["t"], c["o"]; St = st.ghost.get("#out"); M1 = Mem(T, st, t)
            k = None if value else ex.as_int(r) - T.oVal
            if k is not None: touch(st, k)
            i = fresh("i")
            if St is None:
                T.cells(ex, st, t, M0, "the map", cid)
                jj = st.ghost.get("#found")
                if jj is None: return ex.oblige(st, "the key is looked up or inserted", FALSE, "post")
                if value is False: ex.oblige(st, "the value of the pair with this key", And(EQ(k, M0.P(jj))), "post")
                ex.oblige(st, "the key is that of the pair", And(LE(1, jj), LE(jj, M0.n), EQ(M0.rk(cid, jj), o)), "post")
                x = M0.P(jj)
                check_node(ex, st, lambda k: [("no node is added, removed or relinked", "post", And(same_node(M0, M1, k), EQ(M1.val["key"](k), M0.val["key"](k)))),
                                              ("no other value changes", "post", EQ(M1.val["value"](k), ite(EQ(k, x), c["new"], M0.val["value"](k)) if value else M0.val["value"](k))),
                                              ("nothing is allocated, released or destroyed", "lifetime", And(M1.dom(k) == M0.dom(k), *[M1.live[d](k) == M0.live[d](k) for d in T.data]))], [M0, M1], "the map")
                return
            e = dict(c["e"], value=c["new"] if value else DEFV)
            stouch(st, St.j, St.j + 1, st.ghost["#found"]); touch(st, M1.P(St.j))
            if k is not None: ex.oblige(st, "the value of the new pair is returned", EQ(k, M1.P(St.j)), "post")
            outcome_ins(ex, st, T, dict(c, e=e), M1, St.j)
        return f
    cs = base_contracts() + [c_find()]

    def UM(name, fn, s, p):
        U(name, fn, s, p); u = us[-1]; u.name = "Map::" + name; u.contracts = cs
    UM("operator[]", "m_index", s_index(), p_index(False))
    UM("operator[] const", "m_cindex", s_index(True), p_index(False))
    UM("assignment through operator[]", "m_set", s_index(value=True), p_index(True))


def view(T, st, t, **kw): return Mem(T, st, t).but(**kw)


def final(ex, st, T, M0, M1, cid, what="the tree", cells=True, ts=None):
    """M1 is a well formed tree, and nothing but the trees ts changed"""
    if cells: T.cells(ex, st, M1.t, M1, what, cid)
    check_tree(ex, st, M1, [M0], what)
    check_glob(ex, st, M1, [M0], what)
    check_node(ex, st, lambda k: [("nodes of other trees are not touched", "post", frame_trees(M0, M1, k, [M1.t] if ts is None else ts))], [M0, M1], what)


def life_units(T, U, start, some, unchanged):
    # releasing a subtree
    def s_clear(ex):
        st = T.world(ex); o = ex.add_obj(st, T.size, "this", "param"); t = o.id; st.ghost["#trees"] = (t,)
        st.ghost["P%d" % t] = freshA("P"); st.ghost["n%d" % t] = fresh("n"); st.ghost["r%d" % t] = fresh("root")
        M = Mem(T, st, t); k = some(st, "subroot", M); univ(st, subf(M, k)); touch(st, k)
        st.ghost["#mems"] += (M,); st.ghost["#rec"] = ("clear", size(M, k)); st.assume(And(LE(0, M.n), LE(M.n, LIM)))
        la = ex.add_obj(st, 8, "callback", "param")
        return [("", st, [k] + [la.base] * 0, {"M": M, "k": k, "t": t})]

    def p_clear(ex, st, r, c):
        M0, M1 = c["M"], Mem(T, st, c["t"])
        check_node(ex, st, lambda q: [("exactly the subtree is released and destroyed", "leak", cleared(M0, M1, c["k"], q)), ("links and values stay", "post", And(same_node(M0, M1, q), *[EQ(M1.val[d](q), M0.val[d](q)) for d in T.data]))], [M0, M1], "clear")
    U("clear: releasing a subtree", r"re:void dstruct::tree::postorder_traversal<.*::clear\(.*", s_clear, p_clear)

    def s_root(ex):
        st, c = start(ex)
        return [("", st, [c["this"] + T.oRoot], c)]

    def p_root(ex, st, r, c):
        M0 = c["M"]; M1 = view(T, st, c["t"], own=lambda k: ite(M0.inT(k), Lin(0), M0.own(k)))
        v = T.cell(st, c["t"], T.oRoot); ex.oblige(st, "the root pointer is null", FALSE if v is None else EQ(v, 0), "post")
        check_node(ex, st, lambda q: emptied(M0, M1, q) + [("links and values stay", "post", And(same_node(M0, M1, q), *[EQ(M1.val[d](q), M0.val[d](q)) for d in T.data]))], [M0, M1], "clear")
    U("clear(root)", r"re:dstruct::tree::BinaryTree<.*>::clear\(dstruct::tree::TreeNode<.*>\*&\)", s_root, p_root)

    def s_this(*extra):
        def f(ex):
            st, c = start(ex)
            return [("", st, [c["this"]], c)]
        return f

    def p_empty(cells):
        def f(ex, st, r, c):
            M1 = Mem(T, st, c["t"])
            ex.oblige(st, "no elements are left", EQ(M1.n, 0), "post")
            final(ex, st, T, c["M"], M1, c["cid"], cells=cells)
        return f
    U("clear", "w_clear", s_this(), p_empty(True))
    U("destructor", "w_dtor", s_this(), p_empty(False))

    def s_ctor(ex):
        st, c = start(ex, tree=False)
        return [("", st, [c["this"]], c)]

    def p_ctor(ex, st, r, c): final(ex, st, T, c["M"], Mem(T, st, c["t"]), None)
    U("constructor", "w_ctor", s_ctor, p_ctor)

    # copies
    def s_copy0(ex):
        st = T.world(ex); o = ex.add_obj(st, T.size, "target", "param"); t = o.id; st.ghost["#trees"] = (t,)
        st.ghost["P%d" % t] = freshA("P"); st.ghost["n%d" % t] = Lin(0); st.ghost["r%d" % t] = Lin(0)
        S = T.tree(ex, st, "source"); M0 = Mem(T, st, t); univ(st, glob0(S)); st.assume(EQ(S.own(Lin(0)), 0))
        k = some(st, "subroot", S); st.ghost["#rec"] = ("copy", size(S, k))
        return [("", st, [k], {"S": S, "M": M0, "k": k, "t": t})]

    def p_copy0(ex, st, r, c):
        S, M0, k = c["S"], c["M"], c["k"]; r = ex.as_int(r); touch(st, r); Mc = Mem(T, st, c["t"]); xs = st.ghost.get("#new", ())
        if xs:
            x = xs[-1]; i = S.idx(k); g = lambda a, v: (lambda q: ite(EQ(q, x), v, a(q)))
            ex.oblige(st, "exactly one node is allocated at each level", TRUE if len(xs) == 1 else FALSE, "post")
            M1 = Mc.but(own=g(Mc.own, Lin(c["t"])), idx=g(Mc.idx, i), lo=g(Mc.lo, S.lo(k)), hi=g(Mc.hi, S.hi(k)), P=lambda j, a=Mc.P: ite(EQ(j, i), x, a(j)))
            ptouch(st, i)
        else: M1 = Mc
        ex.oblige(st, "the copy of an empty tree is empty, and of no other", Or(EQ(k, 0), NE(r, 0)), "post")
        ex.oblige(st, "the copy of the root is returned", ite(EQ(k, 0), EQ(r, 0), EQ(r, M1.P(S.idx(k)))), "post")
        s = st.fork(); q = node(s, [M0, M1, Mc])
        for m in (M1, Mc):
            ptouch(s, m.idx(q)); y = S.P(m.idx(q)); touch(s, y); touch(s, S.left(y), S.right(y), S.par(y), Mc.par(S.left(y)))
        for nm, kind, f in copied(S, M0, M1, k, r)(q): ex.oblige(s, "copy: " + nm, f, kind)
        s = st.fork(); j = fresh("i"); ptouch(s, j); touch(s, M1.P(j), Mc.P(j), M0.P(j), S.P(j))
        for m in s.ghost["#mems"]: touch(s, m.P(j))
        ex.oblige(s, "copy: every position is copied", copiedp(S, M0, M1, k)(j), "inv")
    U("copy(root)", r"re:dstruct::tree::BinaryTree<.*>::copy\(.*\)", s_copy0, p_copy0)

    def s_src(move, tree, selfs=False):
        def f(ex):
            st, c = start(ex, tree=tree); rs = []
            if selfs: rs.append(("self", st.fork(), [c["this"], c["this"]], dict(c, self=True)))
            S = T.tree(ex, st, "source"); c = dict(c, S=S, M=c["M"] if tree else Mem(T, st, c["t"]), sc=st.ghost["#cid%d" % S.t])
            rs.append(("", st, [c["this"], st.heap[S.t].base], c))
            return rs
        return f

    def p_copy(ex, st, r, c):
        if c.get("self"): return unchanged(ex, st, c)
        M0, S, t = c["M"], c["S"], c["t"]; v = T.cell(st, t, T.oRoot)
        if v is None: raise ToolLimit("root cell")
        S1 = Mem(T, st, S.t); M1 = view(T, st, t, n=S.n, root=v); touch(st, v); ptouch(st, S.idx(S.root))
        y = lambda k: S.P(M1.idx(k)); M1.also = lambda k: [y(k), S.left(y(k)), S.right(y(k))]
        final(ex, st, T, M0, M1, c["sc"])
        check_order(ex, st, M1, c["sc"], [S, S1, M0], "the tree")
        T.cells(ex, st, S.t, S, "the source", c["sc"])
        check_node(ex, st, lambda k: [("the source is not changed", "post", Imp(S.inT(k), And(S1.inT(k), EQ(S1.idx(k), S.idx(k)), same_node(S, S1, k), *[EQ(S1.val[d](k), S.val[d](k)) for d in T.data])))], [S, S1], "the source")
        s = st.fork(); i = fresh("i"); ptouch(s, i); s.assume(And(LE(1, i), LE(i, S.n))); touch(s, M1.P(i), S.P(i))
        ex.oblige(s, "the elements are copies of those of the source, in order", And(*[EQ(M1.val[d](M1.P(i)), S.val[d](S.P(i))) for d in T.data]), "post")
    U("copy constructor", "w_copy_ctor", s_src(False, False), p_copy)
    U("copy assignment", "w_copy", s_src(False, True, True), p_copy)

    def p_move(ex, st, r, c):
        if c.get("self"): return unchanged(ex, st, c)
        M0, S, t = c["M"], c["S"], c["t"]; Mc = Mem(T, st, t); S1 = Mem(T, st, S.t)
        own = lambda k: ite(EQ(Mc.own(k), S.t), Lin(t), Mc.own(k))
        M1 = Mc.but(own=own, P=S1.P, n=S1.n, root=S1.root); E1 = S1.but(own=own, n=Lin(0), root=Lin(0))
        final(ex, st, T, M0, M1, c["sc"], ts=[t, S.t])
        final(ex, st, T, M0, E1, None, "the source", ts=[t, S.t])
        check_order(ex, st, M1, c["sc"], [S, S1], "the tree")
        s = st.fork(); i = fresh("i"); ptouch(s, i); s.assume(And(LE(1, i), LE(i, S.n))); touch(s, M1.P(i), S.P(i))
        ex.oblige(s, "the elements are those of the source, in order", And(EQ(M1.n, S.n), *[EQ(M1.val[d](M1.P(i)), S.val[d](S.P(i))) for d in T.data]), "post")
    U("move constructor", "w_move_ctor", s_src(True, False), p_move)
    U("move assignment", "w_move", s_src(True, True, True), p_move)


# ------------------------------------------------------------------ removing a node
def rem(M, jj, L, H, p, sideL):
    """what removing the element at position jj means"""
    y = M.P(jj)
    if M.T.avl: S = Rem(jj, y, L, H, p, sideL, None)
    else:
        two = And(NE(M.left(y), 0), NE(M.right(y), 0))
        S = Rem(ite(two, jj + 1, jj), ite(two, M.P(jj + 1), y), L, H, p, sideL, ite(two, y, Lin(0)))
    S.jj = jj
    return S


def without(M, x, j):
    """the ghost state after node x at position j was unlinked"""
    d = lambda c: ite(c, Lin(1), Lin(0))
    return M.but(own=lambda k, a=M.own: ite(EQ(k, x), Lin(0), a(k)), idx=lambda k, a=M.idx: a(k) - d(And(M.inT(k), LT(j, a(k)))), lo=lambda k, a=M.lo: a(k) - d(And(M.inT(k), LT(j, a(k)))),
                 hi=lambda k, a=M.hi: a(k) - d(And(M.inT(k), LE(j, a(k)))), P=lambda i, a=M.P: ite(LT(i, j), a(i), a(i + 1)), n=M.n - 1)


def apply_rem(ex, st, T, M0, S, ret):
    t = M0.t
    T.havoc(st, ["par", "left", "right"] + (["h"] if T.avl else []) + [d + x for d in T.data for x in (".v", ".l")], ["own", "idx", "lo", "hi", "P%d" % t], True)
    st.ghost["n%d" % t] = M0.n - 1; st.ghost["r%d" % t] = ite(EQ(S.p, 0), ret, M0.root)
    M1 = Mem(T, st, t); Mh = M1.hole(S.p, S.sideL, ret)
    touch(st, S.x, S.p, ret); ptouch(st, S.j, S.jj)
    if S.mv is not None: touch(st, S.mv)
    st.ghost["#mems"] += (M1, Mh)
    univ(st, relf(S.rel(M0, M1))); univ(st, wff(Mh, (lambda k: EQ(k, S.p)) if T.avl else None)); puniv(st, pos(Mh)); puniv(st, lambda i, q=S.P(M0): EQ(M1.P(i), q(i)))
    st.assume(rootf(Mh)); touch(st, M0.P(S.jj), M0.P(S.jj + 1))
    return M1, Mh


def check_rem(ex, st, M0, M1, S, ret, what, hskip=None):
    T = M0.T; Mh = M1.hole(S.p, S.sideL, ret)
    for x in (S.x, S.p, ret, M0.P(S.jj), M0.P(S.jj + 1)): touch(st, x)
    ptouch(st, S.j, S.jj)
    check_tree(ex, st, Mh, [M0, M1], what, hskip)
    check_node(ex, st, S.rel(M0, M1), [M0, M1, Mh], what)
    s = st.fork(); i = fresh("i"); ptouch(s, i, i + 1, i - 1); touch(s, M0.P(i), M0.P(i + 1), M1.P(i))
    ex.oblige(s, "%s: the other positions close up" % what, Imp(And(LE(1, i), LE(i, M1.n)), EQ(M1.P(i), S.P(M0)(i))), "post")
    ex.oblige(s, "%s: one element less" % what, EQ(M1.n, M0.n - 1), "post")


def in_tree(ex, st, T, M, what, lo=None, hi=None, cid=None):
    """precondition: a whole well formed tree (ordered from lo to hi)"""
    s = st.fork(); touch(s, M.root)
    ex.oblige(s, "%s: the root is the root of all positions" % what, rootf(M), "pre")
    for f in (lambda k: wf(M, k), glob(M)):
        s = st.fork(); k = node(s, [M])
        for nm, kind, g in f(k): ex.oblige(s, "%s: %s" % (what, nm), g, "pre")
    check_pos(ex, st, M, [M], what)
    v = T.cell(st, M.t, T.oSize); ex.oblige(st, "%s: the recorded size is the number of elements" % what, FALSE if v is None else EQ(v, M.n), "pre")
    if cid is not None: check_order(ex, st, M, cid, [M], what, lo, hi)


def keep_size(ex, st, T, t, n): ex.mut(st, t).cells[T.oSize] = (8, n)


def c_delete():
    """_delete(root, obj) of the search tree"""
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; t = T.at(ex, st, args[0], "_delete"); M = Mem(T, st, t); r = arg_node(ex, st, args[1]); cid = st.ghost["#cid%d" % t]
        e = T.arg(ex, st, args[2], "element to remove")
        if e is None: return []
        if r.const() and r.c == 0: return [(st, Lin(0))]
        o = crank(cid, e["key"]); L, H = M.lo(r), M.hi(r)
        ex.oblige(st, "_delete: the argument is null or a node of the tree", Or(EQ(r, 0), M.inT(r)), "pre")
        recursion(ex, st, "delete", size(M, r) * 2 + 1)
        s = st.fork(); s.assume(NE(r, 0)); in_tree(ex, s, T, M, "_delete", L, H, cid)
        a = st.fork()
        puniv(a, lambda i: Imp(And(NE(r, 0), LE(L, i), LE(i, H)), NE(M.rk(cid, i), o)))
        a.ghost["#out"] = "absent"
        st.assume(NE(r, 0)); jj = fresh("found"); st.assume(And(LE(L, jj), LE(jj, H), EQ(M.rk(cid, jj), o))); ptouch(st, jj); touch(st, M.P(jj)); stouch(st, jj, jj + 1)
        p = M.par(r); S = rem(M, jj, L, H, p, EQ(M.left(p), r))
        ret = fresh("rest", tag="node"); st.assume(And(LE(0, ret), LE(ret, E.MAXADDR)))
        apply_rem(ex, st, T, M, S, ret); keep_size(ex, st, T, t, M.n - 1)
        st.ghost["#out"] = S
        return [(a, r), (st, ret)]
    return Contract("_delete", r"dstruct::tree::BinarySearchTree<.*>::_delete\(.*\)", apply)


def c_try():
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; t = T.at(ex, st, args[0], "_try_to_delete"); M = Mem(T, st, t); k = arg_node(ex, st, args[1]); cid = st.ghost["#cid%d" % t]
        ex.oblige(st, "_try_to_delete: the argument is a node of the tree", M.inT(k), "pre")
        recursion(ex, st, "delete", size(M, k) * 2)
        in_tree(ex, st, T, M, "_try_to_delete", M.lo(k), M.hi(k), cid)
        p = M.par(k); jj = M.idx(k); S = rem(M, jj, M.lo(k), M.hi(k), p, EQ(M.left(p), k)); stouch(st, jj, jj + 1)
        ret = fresh("rest", tag="node"); st.assume(And(LE(0, ret), LE(ret, E.MAXADDR)))
        st.assume(EQ(ret, ite(EQ(M.left(k), 0), M.right(k), ite(EQ(M.right(k), 0), M.left(k), k))))
        apply_rem(ex, st, T, M, S, ret); keep_size(ex, st, T, t, M.n - 1)
        st.ghost["#out"] = S
        return [(st, ret)]
    return Contract("_try_to_delete", r"dstruct::tree::BinarySearchTree<.*>::_try_to_delete\(.*\)", apply)


def outcome_rem(ex, st, T, c, S, ret=None, what="the tree"):
    """public removal: the element at position S.jj is gone, the others stay in order"""
    M0, t, cid = c["M"], c["t"], c["cid"]; M1 = Mem(T, st, t)
    jj = S.jj; stouch(st, jj, jj + 1)
    final(ex, st, T, M0, M1, cid)
    check_order(ex, st, M1, cid, [M0], "the tree")
    s = st.fork(); i = fresh("i"); ptouch(s, i, i + 1); s.assume(And(LE(1, i), LE(i, M1.n))); touch(s, M0.P(i), M0.P(i + 1), M1.P(i))
    ex.oblige(s, "one element less", EQ(M1.n, M0.n - 1), "post")
    ex.oblige(s, "the other elements stay in order", And(*[EQ(M1.val[d](M1.P(i)), ite(LT(i, jj), M0.val[d](M0.P(i)), M0.val[d](M0.P(i + 1)))) for d in T.data]), "post")


def bst_units(T, U, start, some, unchanged):
    def s_del(ex):
        st, c = start(ex, tree=False); raise AssertionError

    def range_tree(ex, rec):
        """a tree ordered (at least) within the subtree of r"""
        st = T.world(ex); M = T.tree(ex, st, "this", sorted_=False); t = M.t; cid = st.ghost["#cid%d" % t]
        r = some(st, "subroot", M, null=rec); L, H = M.lo(r), M.hi(r)
        suniv(st, order(M, cid, L, H)); stouch(st, M.idx(r), L, H)
        return st, M, t, cid, r

    def s_delete(ex):
        rs = []
        for inside in (False, True):
            st, M, t, cid, r = range_tree(ex, True)
            if inside:
                b = fresh("obj", tag="node"); st.assume(And(LT(0, b), LE(b, E.MAXADDR), M.inT(b))); touch(st, b); earg = b + T.oKey; o = crank(cid, M.val["key"](b))
            else: earg, e = T.elem(ex, st); o = crank(cid, e["key"])
            st.ghost["#rec"] = ("delete", size(M, r) * 2 + 1)
            rs.append(("element of the tree" if inside else "", st, [st.heap[t].base, r, earg], {"M": M, "t": t, "r": r, "cid": cid, "o": o}))
        return rs

    def p_delete(ex, st, ret, c):
        M0, r, t, cid, o = c["M"], c["r"], c["t"], c["cid"], c["o"]; S = st.ghost.get("#out"); ret = ex.as_int(ret); touch(st, ret); L, H = M0.lo(r), M0.hi(r)
        if S is None or S == "absent":
            s = st.fork(); i = fresh("i"); stouch(s, i); touch(s, M0.P(i)); near(s, M0, i)
            ex.oblige(s, "nothing is removed only if there is no such element", Imp(And(NE(r, 0), LE(L, i), LE(i, H)), NE(M0.rk(cid, i), o)), "post")
            ex.oblige(st, "the subtree stays", EQ(ret, r), "post")
            return unchanged(ex, st, c)
        ex.oblige(st, "what is removed is equal to the element", And(NE(r, 0), LE(L, S.jj), LE(S.jj, H), EQ(M0.rk(cid, S.jj), o)), "post")
        p = M0.par(r); S1 = rem(M0, S.jj, L, H, p, EQ(M0.left(p), r)); M1 = Mem(T, st, t)
        check_rem(ex, st, M0, M1, S1, ret, "_delete")
        T.cells(ex, st, t, M1.but(root=M0.root), "_delete", cid)
    U("_delete", r"re:dstruct::tree::BinarySearchTree<.*>::_delete\(.*\)", s_delete, p_delete)

    def s_try(ex):
        st, M, t, cid, k = range_tree(ex, False); st.ghost["#rec"] = ("delete", size(M, k) * 2)
        stouch(st, M.idx(k), M.idx(k) + 1)
        return [("", st, [st.heap[t].base, k], {"M": M, "t": t, "k": k, "cid": cid})]

    def p_try(ex, st, ret, c):
        M0, k, t, cid = c["M"], c["k"], c["t"], c["cid"]; ret = ex.as_int(ret); touch(st, ret); L, H = M0.lo(k), M0.hi(k); p = M0.par(k)
        S = rem(M0, M0.idx(k), L, H, p, EQ(M0.left(p), k)); fr = st.ghost.get("#freed", ()); out = st.ghost.get("#out")
        if out == "absent": return ex.oblige(st, "the replaced element is removed below", FALSE, "post")
        M1 = Mem(T, st, t)
        if out is None:
            if len(fr) != 1: return ex.oblige(st, "exactly one node is released", FALSE, "post")
            M1 = without(M1, fr[0], M0.idx(k))
        ex.oblige(st, "what takes the place of the node is returned", EQ(ret, ite(EQ(M0.left(k), 0), M0.right(k), ite(EQ(M0.right(k), 0), M0.left(k), k))), "post")
        check_rem(ex, st, M0, M1, S, ret, "_try_to_delete")
        T.cells(ex, st, t, M1.but(root=M0.root), "_try_to_delete", cid)
    U("_try_to_delete", r"re:dstruct::tree::BinarySearchTree<.*>::_try_to_delete\(.*\)", s_try, p_try)

    def s_el(ex):
        st, c = start(ex, elem=True)
        rs = [("", st.fork(), [c["this"], c["earg"]], dict(c))]
        b = some(st, "obj", c["M"], null=False); o = crank(c["cid"], c["M"].val["key"](b)); st.ghost["#o"] = (c["cid"], o)
        rs.append(("element of the tree", st, [c["this"], b + T.oKey], dict(c, o=o, e={d: c["M"].val[d](b) for d in T.data})))
        return rs

    def p_pop(ex, st, ret, c):
        S = st.ghost.get("#out"); M0 = c["M"]
        if S is None or S == "absent":
            s = st.fork(); i = fresh("i"); ptouch(s, i); touch(s, M0.P(i))
            ex.oblige(s, "nothing is removed only if there is no such element", Imp(And(LE(1, i), LE(i, M0.n)), NE(M0.rk(c["cid"], i), c["o"])), "post")
            return unchanged(ex, st, c)
        ex.oblige(st, "what is removed is equal to the element", And(LE(1, S.jj), LE(S.jj, M0.n), EQ(M0.rk(c["cid"], S.jj), c["o"])), "post")
        outcome_rem(ex, st, T, c, S)
    U("pop", "w_pop", s_el, p_pop)

    def s_erase(ex):
        st, c = start(ex); k = some(st, "position", c["M"], null=False); c["k"] = k
        return [("", st, [c["this"], k], c)]

    def p_erase(ex, st, ret, c):
        M0, k = c["M"], c["k"]; S = st.ghost.get("#out")
        if S is None: return ex.oblige(st, "the element is removed", FALSE, "post")
        ex.oblige(st, "the element at the iterator is removed", EQ(S.jj, M0.idx(k)), "post")
        outcome_rem(ex, st, T, c, S)
        M1 = Mem(T, st, c["t"]); x = ex.as_int(ret) - T.oKey; i = M0.idx(k)
        ptouch(st, i); touch(st, M1.P(i))
        ex.oblige(st, "the element after it is returned, or the end", ite(EQ(ret, 0), EQ(i, M0.n), And(LT(i, M0.n), EQ(x, M1.P(i)))), "post")
    U("erase", "w_erase", s_erase, p_erase)
    push_unit(T, U, s_el, unchanged)


def with_new(M, x, j, p, e=None):
    """the ghost state after the new leaf x was linked below p at position j"""
    d = lambda c: ite(c, Lin(1), Lin(0)); ip = M.idx(p)
    has = lambda k: And(NE(p, 0), M.inT(k), LE(M.lo(k), ip), LE(ip, M.hi(k)))
    at = lambda v, a: (lambda k: ite(EQ(k, x), v, a(k)))
    return M.but(own=at(Lin(M.t), M.own), idx=at(j, lambda k, a=M.idx: a(k) + d(And(M.inT(k), LE(j, a(k))))),
                 lo=at(j, lambda k, a=M.lo: a(k) + d(And(M.inT(k), Not(has(k)), LE(j, a(k))))), hi=at(j, lambda k, a=M.hi: a(k) + d(And(M.inT(k), Or(has(k), LE(j, a(k)))))),
                 P=lambda i, a=M.P: ite(LT(i, j), a(i), ite(EQ(i, j), x, a(i - 1))), n=M.n + 1, root=ite(EQ(p, 0), x, M.root))


def outcome_ins(ex, st, T, c, M1, j):
    M0, cid = c["M"], c["cid"]; stouch(st, j - 1, j); touch(st, M0.P(j), M0.P(j - 1))
    final(ex, st, T, M0, M1, cid)
    check_order(ex, st, M1, cid, [M0], "the tree")
    s = st.fork(); i = fresh("i"); ptouch(s, i, i - 1); s.assume(And(LE(1, i), LE(i, M1.n))); touch(s, M0.P(i), M0.P(i - 1), M1.P(i))
    ex.oblige(s, "one element more", EQ(M1.n, M0.n + 1), "post")
    ex.oblige(s, "the element is added and the others stay in order", And(*[EQ(M1.val[d](M1.P(i)), ite(LT(i, j), M0.val[d](M0.P(i)), ite(EQ(i, j), c["e"][d], M0.val[d](M0.P(i - 1))))) for d in T.data]), "post")


def push_unit(T, U, s_el, unchanged):
    def s_push(ex):
        rs = s_el(ex)
        for _, st, _, c in rs: st.assume(LT(c["M"].n, LIM))
        return rs

    def p_push(ex, st, ret, c):
        M0, cid, t = c["M"], c["cid"], c["t"]; xs = st.ghost.get("#new", ())
        if not xs:
            ex.oblige(st, "nothing is added only if there is an equal element", Or(*[And(M0.inT(q), EQ(crank(cid, M0.val["key"](q)), c["o"])) for q in st.ghost["#touch"]]), "post")
            return unchanged(ex, st, c)
        if len(xs) != 1: return ex.oblige(st, "exactly one node is allocated", FALSE, "post")
        x = xs[0]; Mc = Mem(T, st, t); p = Mc.par(x); touch(st, p); j = ite(EQ(p, 0), Lin(1), ite(EQ(Mc.left(p), x), M0.idx(p), M0.idx(p) + 1))
        outcome_ins(ex, st, T, c, with_new(Mc, x, j, p), j)
    U("push", "w_push", s_push, p_push)


# ------------------------------------------------------------------ AVL trees

def slot(M, cid, o, r, p):
    """where an element with rank o goes: the subtree r below p, or the free slot of p"""
    rp = crank(cid, M.val["key"](p)); ip = M.idx(p)
    L = ite(NE(r, 0), M.lo(r), ite(EQ(p, 0), Lin(1), ite(LT(o, rp), ip, ip + 1))); H = ite(NE(r, 0), M.hi(r), L - 1)
    sideL = z3.If(NE(r, 0), EQ(M.left(p), r), LT(o, rp))
    ok = And(Or(EQ(r, 0), And(M.inT(r), EQ(M.par(r), p))),
             Imp(EQ(r, 0), ite(EQ(p, 0), EQ(M.n, 0), And(M.inT(p), NE(rp, o), ite(LT(o, rp), EQ(M.left(p), 0), EQ(M.right(p), 0))))))
    side = And(Imp(LT(1, L), LT(M.rk(cid, L - 1), o)), Imp(LT(H, M.n), LT(o, M.rk(cid, H + 1))))
    return L, H, sideL, ok, side


def grow(M0, M1, cid, o, r, ret):
    """the height after an insertion below r"""
    h0, h1 = M0.height(r), M1.h(ret); l, rr = M1.height(M1.left(ret)), M1.height(M1.right(ret))
    return And(NE(ret, 0), Or(EQ(h1, h0), And(EQ(h1, h0 + 1), Imp(NE(r, 0), (lambda rk: Or(And(LT(o, rk), EQ(l, rr + 1)), And(LT(rk, o), EQ(rr, l + 1))))(crank(cid, M1.val["key"](ret)))))))


def c_insert():
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; t = T.at(ex, st, args[0], "_insert"); M = Mem(T, st, t); cid = st.ghost["#cid%d" % t]
        r = arg_node(ex, st, args[1]); e = T.arg(ex, st, args[2], "element to insert"); p = arg_node(ex, st, args[3])
        if e is None: return []
        o = crank(cid, e["key"]); L, H, sideL, ok, side = slot(M, cid, o, r, p)
        ex.oblige(st, "_insert: the arguments are a subtree and its parent", ok, "pre")
        s = st.fork(); ptouch(s, L - 1, H + 1); touch(s, M.P(L - 1), M.P(H + 1))
        ex.oblige(s, "_insert: the neighbours of the subtree are on the right side of the element", side, "pre")
        recursion(ex, st, "insert", H - L + 1)
        in_tree(ex, st, T, M, "_insert", 1, M.n, cid)
        s = st.fork(); i = fresh("i"); ptouch(s, i); touch(s, M.P(i))
        ex.oblige(s, "_insert: the element is not in the tree", Imp(And(LE(1, i), LE(i, M.n)), NE(M.rk(cid, i), o)), "pre")
        ex.oblige(st, "_insert: the size stays representable", LT(M.n, LIM), "pre")
        x = fresh("node", tag="node"); ret = fresh("subroot", tag="node"); j = fresh("place")
        st.assume(And(LT(0, x), LE(x + T.nsize, E.MAXADDR), Not(M.dom(x)), LT(0, ret), LE(ret, E.MAXADDR), LE(L, j), LE(j, H + 1), Imp(LT(1, j), LT(M.rk(cid, j - 1), o)), Imp(LE(j, M.n), LT(o, M.rk(cid, j)))))
        touch(st, x)
        T.havoc(st, ["par", "left", "right", "h"] + [d + y for d in T.data for y in (".v", ".l")], ["own", "idx", "lo", "hi", "P%d" % t], True)
        st.ghost["n%d" % t] = M.n + 1; st.ghost["r%d" % t] = ite(EQ(p, 0), ret, M.root)
        M1 = Mem(T, st, t); Mh = M1.hole(p, sideL, ret); S = Ins(j, x, L, H, p, sideL, e)
        touch(st, p, ret, r); touch(st, M1.left(ret), M1.right(ret)); ptouch(st, j); st.ghost["#mems"] += (M1, Mh)
        univ(st, relf(S.rel(M, M1))); univ(st, wff(Mh, lambda k: EQ(k, p))); puniv(st, pos(Mh)); puniv(st, lambda i, q=S.P(M): EQ(M1.P(i), q(i)))
        st.assume(And(rootf(Mh), M1.inT(ret), EQ(M1.par(ret), p), grow(M, M1, cid, o, r, ret)))
        st.ghost["#out"] = S
        return [(st, ret)]
    return Contract("AVLTree::_insert", A + r"_insert\(.*\)", apply)


def fall(M0, M1, r, ret): return Or(EQ(M1.height(ret), M0.height(r)), EQ(M1.height(ret), M0.height(r) - 1))


def c_avl_delete():
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; t = T.at(ex, st, args[0], "_delete"); M = Mem(T, st, t); r = arg_node(ex, st, args[1]); cid = st.ghost["#cid%d" % t]
        e = T.arg(ex, st, args[2], "element to remove")
        if e is None: return []
        if r.const() and r.c == 0: return [(st, Lin(0))]
        o = crank(cid, e["key"]); L, H = M.lo(r), M.hi(r)
        ex.oblige(st, "_delete: the argument is null or a node of the tree", Or(EQ(r, 0), M.inT(r)), "pre")
        recursion(ex, st, "delete", size(M, r))
        s = st.fork(); s.assume(NE(r, 0)); in_tree(ex, s, T, M, "_delete", L, H, cid)
        a = st.fork()
        puniv(a, lambda i: Imp(And(NE(r, 0), LE(L, i), LE(i, H)), NE(M.rk(cid, i), o)))
        a.ghost["#out"] = "absent"
        st.assume(NE(r, 0)); jj = fresh("found"); st.assume(And(LE(L, jj), LE(jj, H), EQ(M.rk(cid, jj), o))); ptouch(st, jj); touch(st, M.P(jj)); stouch(st, jj, jj + 1)
        p = M.par(r); S = rem(M, jj, L, H, p, EQ(M.left(p), r))
        ret = fresh("rest", tag="node"); st.assume(And(LE(0, ret), LE(ret, E.MAXADDR)))
        M1, Mh = apply_rem(ex, st, T, M, S, ret); keep_size(ex, st, T, t, M.n - 1)
        st.assume(fall(M, M1, r, ret))
        c = fresh("rootcell", tag="node"); st.assume(And(LE(0, c), LE(c, E.MAXADDR))); old = T.cell(st, t, T.oRoot)
        ex.mut(st, t).cells[T.oRoot] = (8, ite(EQ(p, 0), c, old)) if old is not None else (8, c)
        st.ghost["#out"] = S
        return [(a, r), (st, ret)]
    return Contract("AVLTree::_delete", A + r"_delete\(.*\)", apply)


def swapped(M, a, b, ia):
    """the ghost state after a and its successor b exchanged places"""
    x = lambda f: (lambda k: ite(EQ(k, a), f(b), ite(EQ(k, b), f(a), f(k))))
    return M.but(idx=x(M.idx), lo=x(M.lo), hi=x(M.hi), P=lambda i, f=M.P: ite(EQ(i, ia), b, ite(EQ(i, ia + 1), a, f(i))), root=ite(EQ(M.root, a), b, M.root))


def swap_rel(M, M1, a, b):
    L, H, p = M.lo(a), M.hi(a), M.par(a)

    def f(k):
        i0 = M.idx(k); out = Or(NE(M.own(k), M.t), LT(i0, L), LT(H, i0)); isp = And(EQ(k, p), NE(k, 0)); pl = EQ(M.left(p), a)
        return [("nothing is allocated, released, created or destroyed", "lifetime", And(M1.dom(k) == M.dom(k), EQ(M1.own(k), M.own(k)), *[M1.live[d](k) == M.live[d](k) for d in M.T.data])),
                ("no value moves", "post", And(*[EQ(M1.val[d](k), M.val[d](k)) for d in M.T.data])),
                ("the other nodes keep their positions and extents", "post", Imp(And(NE(k, a), NE(k, b)), And(EQ(M1.idx(k), i0), EQ(M1.lo(k), M.lo(k)), EQ(M1.hi(k), M.hi(k)), EQ(M1.h(k), M.h(k))))),
                ("the two nodes exchange their places", "post", And(Imp(EQ(k, a), And(*[EQ(g1(a), g(b)) for g1, g in ((M1.idx, M.idx), (M1.lo, M.lo), (M1.hi, M.hi), (M1.h, M.h))])), Imp(EQ(k, b), And(*[EQ(g1(b), g(a)) for g1, g in ((M1.idx, M.idx), (M1.lo, M.lo), (M1.hi, M.hi), (M1.h, M.h))])))),
                ("the new parent links and children", "post", And(EQ(M1.par(b), p), NE(M1.right(b), 0), NE(M1.left(b), 0), EQ(M1.left(a), 0), EQ(M1.right(a), M.right(b)))),
                ("nodes outside the subtree keep their links", "post", Imp(out, And(EQ(M1.par(k), M.par(k)), EQ(M1.left(k), ite(And(isp, pl), b, M.left(k))), EQ(M1.right(k), ite(And(isp, Not(pl)), b, M.right(k))))))]
    return f


def local_cell(ex, st, addr, what):
    ch, off = ex.objat(st, ex.as_int(addr), 8, what); c = ch.cells.get(off)
    if c is None or not isinstance(c[1], Lin): raise ToolLimit("link variable")
    return ch.id, off, st.norm(c[1])


def swap_pre(M, a, b): return And(M.inT(a), M.inT(b), EQ(M.idx(b), M.idx(a) + 1), NE(M.left(a), 0), NE(M.right(a), 0), EQ(M.left(b), 0), Or(EQ(M.right(a), b), LT(M.hi(b), M.hi(a))))


def c_swap():
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; t = T.at(ex, st, args[0], "_swap_node"); M = Mem(T, st, t)
        ia, oa, a = local_cell(ex, st, args[1], "node"); ib, ob, b = local_cell(ex, st, args[2], "node"); touch(st, a, b)
        ex.oblige(st, "_swap_node: a node with two children and its successor", swap_pre(M, a, b), "pre")
        in_tree(ex, st, T, M, "_swap_node")
        v = T.cell(st, t, T.oRoot)
        ex.oblige(st, "_swap_node: the root pointer is the root", FALSE if v is None else EQ(v, M.root), "pre")
        T.havoc(st, ["par", "left", "right", "h"], ["idx", "lo", "hi", "P%d" % t])
        root = ite(EQ(M.root, a), b, M.root); st.ghost["r%d" % t] = root; ex.mut(st, t).cells[T.oRoot] = (8, root)
        M1 = Mem(T, st, t); st.ghost["#mems"] += (M1,)
        univ(st, relf(swap_rel(M, M1, a, b))); univ(st, wff(M1)); puniv(st, pos(M1)); puniv(st, lambda i, q=swapped(M, a, b, M.idx(a)).P: EQ(M1.P(i), q(i)))
        st.assume(rootf(M1)); touch(st, M.par(a), M1.right(b), M1.left(b)); ptouch(st, M.idx(a), M.idx(a) + 1)
        ex.mut(st, ia).cells[oa] = (8, b); ex.mut(st, ib).cells[ob] = (8, a)
        st.ghost["#swapped"] = (a, b)
        return [(st, None)]
    return Contract("AVLTree::_swap_node", A + r"_swap_node\(.*\)", apply)


def materialize(T, st, Mv):
    """names the ghost state Mv"""
    for g in ("own", "idx", "lo", "hi"): st.ghost[g] = freshA(g)
    t = Mv.t; st.ghost["P%d" % t] = freshA("P"); st.ghost["n%d" % t] = Mv.n; st.ghost["r%d" % t] = Mv.root
    M1 = Mem(T, st, t)
    univ(st, lambda k: And(EQ(M1.own(k), Mv.own(k)), EQ(M1.idx(k), Mv.idx(k)), EQ(M1.lo(k), Mv.lo(k)), EQ(M1.hi(k), Mv.hi(k)))); puniv(st, lambda i: EQ(M1.P(i), Mv.P(i)))
    return M1


def cb_pre(M, c, p):
    """what _check_and_balance relies on: a tree whose heights are right but at c, which may be out of balance by two, and at its parent p"""
    def f(k):
        l, r = M.left(c), M.right(c); hl, hr = M.height(l), M.height(r)
        return wf(M, k, lambda q: Or(EQ(q, c), And(EQ(q, p), NE(p, 0)))) + [("the recorded height of the node to balance is right", "inv", And(heightq(M.h(c), hl, hr), LE(M.h(c), M.hi(c) - M.lo(c) + 1))), ("the node to balance is out of balance by at most two", "inv", And(LE(hl - hr, 2), LE(hr - hl, 2)))]
    return f


def cb_out(M0, M1, c):
    """nodes outside the subtree of c are not touched"""
    L, H = M0.lo(c), M0.hi(c); hl, hr = M0.height(M0.left(c)), M0.height(M0.right(c))
    return lambda k: Imp(Or(And(LE(hl - hr, 1), LE(hr - hl, 1)), NE(M0.own(k), M0.t), LT(M0.idx(k), L), LT(H, M0.idx(k))), And(same_node(M0, M1, k), EQ(M1.lo(k), M0.lo(k)), EQ(M1.hi(k), M0.hi(k))))


def cb_post(M0, M1, c, p, ret):
    b = lambda x, y: And(LE(x - y, 1), LE(y - x, 1)); hl, hr = M0.height(M0.left(c)), M0.height(M0.right(c))
    return And(LT(0, ret), M1.inT(ret), EQ(M1.par(ret), p), Or(EQ(M1.h(ret), M0.h(c)), EQ(M1.h(ret), M0.h(c) - 1)), Imp(b(hl, hr), And(EQ(ret, c), EQ(M1.h(ret), M0.h(c)))), LE(M0.lo(c), M0.idx(ret)), LE(M0.idx(ret), M0.hi(c)))


def c_check():
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; t = T.at(ex, st, args[0], "_check_and_balance"); M = Mem(T, st, t); c = arg_node(ex, st, args[1])
        ex.oblige(st, "_check_and_balance: the argument is a node of the tree", And(LT(0, c), M.inT(c)), "pre")
        touch(st, M.par(c), M.left(c), M.right(c)); p = M.par(c)
        s = st.fork(); touch(s, M.root); ex.oblige(s, "_check_and_balance: the root is the root of all positions", rootf(M), "pre")
        s = st.fork(); k = node(s, [M])
        for nm, kind, g in cb_pre(M, c, p)(k): ex.oblige(s, "_check_and_balance: " + nm, g, "pre")
        check_pos(ex, st, M, [M], "_check_and_balance")
        T.havoc(st, ["par", "left", "right", "h"], ["lo", "hi"])
        ret = fresh("balanced", tag="node"); st.assume(And(LT(0, ret), LE(ret, E.MAXADDR)))
        st.ghost["r%d" % t] = ite(EQ(p, 0), ret, M.root)
        M1 = Mem(T, st, t); Mh = M1.hole(p, EQ(M.left(p), c), ret); touch(st, ret); st.ghost["#mems"] += (M1, Mh); st.ghost["#cb"] = (M, c)
        univ(st, cb_out(M, M1, c)); univ(st, wff(Mh, lambda k: And(EQ(k, p), NE(p, 0))))
        st.assume(And(rootf(Mh), cb_post(M, M1, c, p, ret)))
        return [(st, ret)]
    return Contract("AVLTree::_check_and_balance", A + r"_check_and_balance\(.*\)", apply)


def c_rebalance():
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; t = T.at(ex, st, args[0], "_rebalance_after_delete"); c = arg_node(ex, st, args[1]); x = st.ghost.get("#orphan")
        if x is None: raise ToolLimit("rebalancing without a removed node")
        M = materialize(T, st, without(Mem(T, st, t), x, Mem(T, st, t).idx(x))); touch(st, c, x)
        ex.oblige(st, "_rebalance: the argument is a node of the tree", And(LT(0, c), M.inT(c)), "pre")
        s = st.fork(); touch(s, M.root); v = T.cell(st, t, T.oRoot)
        ex.oblige(s, "_rebalance: the root pointer is the root", FALSE if v is None else And(EQ(v, M.root), rootf(M)), "pre")
        s = st.fork(); touch(s, M.par(c), M.left(c), M.right(c)); k = node(s, [M])
        for nm, kind, g in wfrb(M, c)(k) + [x for x in glob(M)(k) if x[0] != "every allocated node belongs to a tree"]: ex.oblige(s, "_rebalance: " + nm, g, "pre")
        check_pos(ex, st, M, [M], "_rebalance")
        T.havoc(st, ["par", "left", "right", "h"], ["lo", "hi"])
        root = fresh("root", tag="node"); st.assume(And(LE(0, root), LE(root, E.MAXADDR))); st.ghost["r%d" % t] = root; ex.mut(st, t).cells[T.oRoot] = (8, root)
        M1 = Mem(T, st, t); know(st, M1); univ(st, lambda k: frame_trees(M, M1, k, [t]))
        st.ghost["#orphaned"] = True
        return [(st, None)]
    return Contract("AVLTree::_rebalance_after_delete", A + r"_rebalance_after_delete\(.*\)", apply)


def c_by_target():
    def apply(ex, st, args, dem):
        T = ex.special["#T"]; t = T.at(ex, st, args[0], "_delete_by_target"); M = Mem(T, st, t); k = arg_node(ex, st, args[1])
        ex.oblige(st, "_delete_by_target: the argument is a node of the tree", M.inT(k), "pre")
        recursion(ex, st, "bytarget", ite(And(NE(M.left(k), 0), NE(M.right(k), 0)), Lin(1), Lin(0)))
        in_tree(ex, st, T, M, "_delete_by_target"); v = T.cell(st, t, T.oRoot)
        ex.oblige(st, "_delete_by_target: the root pointer is the root", FALSE if v is None else EQ(v, M.root), "pre")
        root = fresh("root", tag="node"); st.assume(And(LE(0, root), LE(root, E.MAXADDR)))
        S = rem(M, M.idx(k), Lin(1), M.n, Lin(0), TRUE)
        apply_rem(ex, st, T, M, S, root); keep_size(ex, st, T, t, M.n - 1); ex.mut(st, t).cells[T.oRoot] = (8, root)
        st.ghost["#out"] = S
        ret = fresh("unused", tag="node"); st.assume(And(LE(0, ret), LE(ret, E.MAXADDR)))
        return [(st, ret)]
    return Contract("AVLTree::_delete_by_target", A + r"_delete_by_target\(.*\)", apply)


def avl_units(T, U, start, some, unchanged):
    def s_insert(ex):
        st, c = start(ex, elem=True); M, cid, o = c["M"], c["cid"], c["o"]; st.ghost["#o"] = (cid, o)
        st.assume(LT(M.n, LIM)); puniv(st, lambda i: Imp(And(LE(1, i), LE(i, M.n)), NE(M.rk(cid, i), o)))
        r = some(st, "subroot", M); p = some(st, "parent", M); L, H, sideL, ok, side = slot(M, cid, o, r, p)
        st.assume(ok); ptouch(st, L - 1, H + 1); touch(st, M.P(L - 1), M.P(H + 1)); st.assume(side); stouch(st, L - 1, H + 1, M.idx(r))
        st.ghost["#rec"] = ("insert", H - L + 1)
        return [("", st, [c["this"], r, c["earg"], p], dict(c, r=r, p=p, L=L, H=H, sideL=sideL))]

    def p_insert(ex, st, ret, c):
        M0, cid, t, o, r, p, L, H, sideL = [c[x] for x in ("M", "cid", "t", "o", "r", "p", "L", "H", "sideL")]; ret = ex.as_int(ret); touch(st, ret); xs = st.ghost.get("#new", ()); S = st.ghost.get("#out")
        Mc = Mem(T, st, t)
        if len(xs) + (S is not None) != 1: return ex.oblige(st, "exactly one node is allocated", FALSE, "post")
        if S is None: x = xs[0]; j = L; M1 = with_new(Mc, x, j, p)
        else: x = S.x; j = S.j; M1 = Mc
        S1 = Ins(j, x, L, H, p, sideL, c["e"]); Mh = M1.hole(p, sideL, ret); stouch(st, j - 1, j); touch(st, M0.P(j), M0.P(j - 1))
        ex.oblige(st, "the place is in the subtree and between its neighbours", And(LE(L, j), LE(j, H + 1), Imp(LT(1, j), LT(M0.rk(cid, j - 1), o)), Imp(LE(j, M0.n), LT(o, M0.rk(cid, j)))), "post")
        check_tree(ex, st, Mh, [M0, M1], "_insert", lambda k: EQ(k, p))
        check_node(ex, st, S1.rel(M0, M1), [M0, M1, Mh], "_insert")
        s = st.fork(); i = fresh("i"); ptouch(s, i, i + 1, i - 1); touch(s, M0.P(i), M0.P(i - 1), M1.P(i))
        ex.oblige(s, "_insert: the other positions make room", And(EQ(M1.n, M0.n + 1), Imp(And(LE(1, i), LE(i, M1.n)), EQ(M1.P(i), S1.P(M0)(i)))), "post")
        touch(st, M1.left(ret), M1.right(ret))
        ex.oblige(st, "_insert: the height grows by at most one, on the side of the element", And(M1.inT(ret), EQ(M1.par(ret), p), grow(M0, M1, cid, o, r, ret)), "post")
        T.cells(ex, st, t, M0, "_insert", cid)
    U("_insert", "re:" + A + r"_insert\(.*\)", s_insert, p_insert)

    def s_push(ex):
        st, c = start(ex, elem=True); M, cid, o = c["M"], c["cid"], c["o"]
        st.assume(LT(M.n, LIM)); puniv(st, lambda i: Imp(And(LE(1, i), LE(i, M.n)), NE(M.rk(cid, i), o)))
        return [("", st, [c["this"], c["earg"]], c)]

    def p_push(ex, st, ret, c):
        S = st.ghost.get("#out")
        if S is None: return ex.oblige(st, "the element is added", FALSE, "post")
        outcome_ins(ex, st, T, c, Mem(T, st, c["t"]), S.j)
    U("push", "w_push", s_push, p_push)

    # removal by value
    def s_delete(ex):
        rs = []
        for inside in (False, True):
            st = T.world(ex); M = T.tree(ex, st, "this", sorted_=False); t = M.t; cid = st.ghost["#cid%d" % t]
            r = some(st, "subroot", M); L, H = M.lo(r), M.hi(r)
            suniv(st, order(M, cid, L, H)); stouch(st, M.idx(r), M.idx(r) + 1, L, H)
            if inside:
                b = fresh("obj", tag="node"); st.assume(And(LT(0, b), LE(b, E.MAXADDR), M.inT(b))); touch(st, b); earg = b + T.oKey; o = crank(cid, M.val["key"](b))
            else: earg, e = T.elem(ex, st); o = crank(cid, e["key"])
            st.ghost["#rec"] = ("delete", size(M, r))
            rs.append(("element of the tree" if inside else "", st, [st.heap[t].base, r, earg], {"M": M, "t": t, "r": r, "cid": cid, "o": o}))
        return rs

    def p_delete(ex, st, ret, c):
        M0, r, t, cid, o = c["M"], c["r"], c["t"], c["cid"], c["o"]; S = st.ghost.get("#out"); ret = ex.as_int(ret); touch(st, ret); L, H = M0.lo(r), M0.hi(r); fr = st.ghost.get("#freed", ())
        if not fr and (S is None or S == "absent"):
            if st.ghost.get("#swapped"): return ex.oblige(st, "the exchanged element is removed below", FALSE, "post")
            s = st.fork(); i = fresh("i"); stouch(s, i); touch(s, M0.P(i)); near(s, M0, i)
            ex.oblige(s, "nothing is removed only if there is no such element", Imp(And(NE(r, 0), LE(L, i), LE(i, H)), NE(M0.rk(cid, i), o)), "post")
            ex.oblige(st, "the subtree stays", EQ(ret, r), "post")
            return unchanged(ex, st, c)
        M1 = Mem(T, st, t); cb = st.ghost.get("#cb")
        if cb: touch(st, p_ := M0.par(r)); touch(st, cb[0].left(p_), cb[0].right(p_), cb[0].root); ex.oblige(st, "_delete: what is balanced spans the remaining positions", And(EQ(cb[1], ite(EQ(p_, 0), cb[0].root, cb[1])), EQ(cb[0].lo(cb[1]), L), EQ(cb[0].hi(cb[1]), H - (1 if fr or isinstance(S, Rem) else 0))), "inv")
        if fr:
            jj = M0.idx(fr[0]); M1 = without(M1, fr[0], jj); x = fr[0]
        else: x = S.x; jj = M0.idx(x); touch(st, x)
        ptouch(st, jj); touch(st, M0.P(jj))
        ex.oblige(st, "what is removed is equal to the element", And(NE(r, 0), LE(L, jj), LE(jj, H), EQ(M0.rk(cid, jj), o)), "post")
        p = M0.par(r); S1 = rem(M0, jj, L, H, p, EQ(M0.left(p), r))
        check_rem(ex, st, M0, M1, S1, ret, "_delete", lambda k: EQ(k, p))
        touch(st, M1.left(ret), M1.right(ret), M0.left(r), M0.right(r))
        ex.oblige(st, "_delete: the height shrinks by at most one", fall(M0, M1, r, ret), "post")
        v = T.cell(st, t, T.oRoot)
        ex.oblige(st, "_delete: the root pointer changes only at the root", Imp(NE(p, 0), FALSE if v is None else EQ(v, M0.root)), "inv")
        v = T.cell(st, t, T.oSize); ex.oblige(st, "_delete: the recorded size is the number of elements", FALSE if v is None else EQ(v, M1.n), "inv")
    U("_delete", "re:" + A + r"_delete\(.*\)", s_delete, p_delete)

    def s_pop(ex):
        st, c = start(ex, elem=True)
        rs = [("", st.fork(), [c["this"], c["earg"]], dict(c))]
        b = some(st, "obj", c["M"], null=False); o = crank(c["cid"], c["M"].val["key"](b))
        rs.append(("element of the tree", st, [c["this"], b + T.oKey], dict(c, o=o)))
        return rs

    def p_pop(ex, st, ret, c):
        S = st.ghost.get("#out"); M0 = c["M"]
        if S is None or S == "absent":
            s = st.fork(); i = fresh("i"); ptouch(s, i); touch(s, M0.P(i))
            ex.oblige(s, "nothing is removed only if there is no such element", Imp(And(LE(1, i), LE(i, M0.n)), NE(M0.rk(c["cid"], i), c["o"])), "post")
            return unchanged(ex, st, c)
        ex.oblige(st, "what is removed is equal to the element", And(LE(1, S.jj), LE(S.jj, M0.n), EQ(M0.rk(c["cid"], S.jj), c["o"])), "post")
        outcome_rem(ex, st, T, c, S)
    U("pop", "w_pop", s_pop, p_pop)

    # removal at an iterator
    def s_swap(ex):
        st, c = start(ex); M = c["M"]; a = some(st, "a", M, null=False); b = some(st, "b", M, null=False); st.assume(swap_pre(M, a, b)); ptouch(st, M.idx(a), M.idx(a) + 1)
        vs = []
        for nm, v in (("var_a", a), ("var_b", b)):
            o = ex.add_obj(st, 8, nm, "param"); o = ex.mut(st, o.id); o.cells[0] = (8, v); vs.append(o)
        return [("", st, [c["this"]] + [o.base for o in vs], dict(c, a=a, b=b, vs=[o.id for o in vs]))]

    def p_swap(ex, st, ret, c):
        M0, t, a, b = c["M"], c["t"], c["a"], c["b"]; M1 = swapped(Mem(T, st, t), a, b, M0.idx(a)); touch(st, M0.par(a), M0.par(b))
        va, vb = [st.heap[i].cells[0][1] for i in c["vs"]]
        ex.oblige(st, "the variables follow the places", And(EQ(va, b), EQ(vb, a)), "post")
        T.cells(ex, st, t, M1, "_swap_node", c["cid"])
        check_tree(ex, st, M1, [M0], "_swap_node")
        check_node(ex, st, swap_rel(M0, M1, a, b), [M0, M1], "_swap_node")
    U("_swap_node", "re:" + A + r"_swap_node\(.*\)", s_swap, p_swap)

    def s_check(ex):
        st = T.world(ex); o = ex.add_obj(st, T.size, "this", "param"); t = o.id; st.ghost["#trees"] = (t,)
        st.ghost["P%d" % t] = freshA("P"); st.ghost["n%d" % t] = fresh("n"); root = fresh("root", tag="node"); st.ghost["r%d" % t] = root; st.assume(And(LE(0, root), LE(root, E.MAXADDR)))
        M = Mem(T, st, t); o = ex.mut(st, t); cs = {T.oSize: fresh("size"), T.oRoot: fresh("cell", tag="node"), T.oCmp: fresh("order")}
        for off, v in cs.items(): o.cells[off] = (8, v)
        st.ghost["#mems"] += (M,); st.assume(rootf(M)); st.assume(EQ(M.own(Lin(0)), 0)); puniv(st, pos(M))
        c = some(st, "node", M, null=False); p = M.par(c); univ(st, relf(cb_pre(M, c, p))); touch(st, root)
        return [("", st, [st.heap[t].base, c], {"M": M, "t": t, "c": c, "p": p, "cells": cs})]

    def p_check(ex, st, ret, c):
        M0, t, x, p = c["M"], c["t"], c["c"], c["p"]; M1 = Mem(T, st, t); ret = ex.as_int(ret); touch(st, ret); Mh = M1.hole(p, EQ(M0.left(p), x), ret)
        touch(st, M1.left(ret), M1.right(ret))
        ex.oblige(st, "_check_and_balance: the height is what it was or one less", cb_post(M0, M1, x, p, ret), "post")
        check_tree(ex, st, Mh, [M0, M1], "_check_and_balance", lambda k: And(EQ(k, p), NE(p, 0)))
        check_node(ex, st, lambda k: [("nodes outside the subtree are not touched", "post", cb_out(M0, M1, x)(k)), ("no value moves, nothing is allocated or released", "post", And(M1.dom(k) == M0.dom(k), same_data(M0, M1, k)))], [M0, M1], "_check_and_balance")
        for off, v in c["cells"].items(): ex.oblige(st, "_check_and_balance: the tree object is not changed", EQ(st.heap[t].cells[off][1], v), "post")
    U("_check_and_balance", "re:" + A + r"_check_and_balance\(.*\)", s_check, p_check)

    def s_rebal(ex):
        st = T.world(ex); o = ex.add_obj(st, T.size, "this", "param"); t = o.id; st.ghost["#trees"] = (t,)
        st.ghost["P%d" % t] = freshA("P"); st.ghost["n%d" % t] = fresh("n"); root = fresh("root", tag="node"); st.ghost["r%d" % t] = root; st.assume(And(LE(0, root), LE(root, E.MAXADDR)))
        M = Mem(T, st, t); o = ex.mut(st, t); cid = fresh("order"); o.cells[T.oSize] = (8, fresh("size")); o.cells[T.oRoot] = (8, root); o.cells[T.oCmp] = (8, cid)
        st.ghost["#mems"] += (M,); st.assume(rootf(M)); st.assume(EQ(M.own(Lin(0)), 0)); puniv(st, pos(M))
        c = some(st, "start", M, null=False); univ(st, wfrbf(M, c)); univ(st, glob0(M)); touch(st, root)
        return [("", st, [st.heap[t].base, c], {"M": M, "t": t, "c": c, "size": st.heap[t].cells[T.oSize][1], "cid": cid})]

    def p_rebal(ex, st, ret, c):
        M0, t = c["M"], c["t"]; M1 = Mem(T, st, t)
        check_tree(ex, st, M1, [M0], "_rebalance")
        check_node(ex, st, lambda k: [("nodes of other trees are not touched", "post", frame_trees(M0, M1, k, [t])), ("no value moves, nothing is allocated or released", "post", And(M1.dom(k) == M0.dom(k), same_data(M0, M1, k)))], [M0, M1], "_rebalance")
        v = T.cell(st, t, T.oRoot); ex.oblige(st, "_rebalance: the root pointer is the root", FALSE if v is None else EQ(v, M1.root), "inv")
        v = T.cell(st, t, T.oSize); ex.oblige(st, "_rebalance: the recorded size stays", FALSE if v is None else EQ(v, c["size"]), "inv")
    U("_rebalance_after_delete", "re:" + A + r"_rebalance_after_delete\(.*\)", s_rebal, p_rebal)

    def s_target(ex):
        st, c = start(ex); M = c["M"]; k = some(st, "target", M, null=False); st.ghost["#orphan"] = k
        st.ghost["#rec"] = ("bytarget", ite(And(NE(M.left(k), 0), NE(M.right(k), 0)), Lin(1), Lin(0))); ptouch(st, M.idx(k) + 1)
        return [("", st, [c["this"], k], dict(c, k=k))]

    def p_target(ex, st, ret, c):
        M0, t, k = c["M"], c["t"], c["k"]; fr = st.ghost.get("#freed", ()); S = st.ghost.get("#out"); M1 = Mem(T, st, t)
        if len(fr) + (S is not None) != 1: return ex.oblige(st, "exactly one node is released", FALSE, "post")
        if fr and not st.ghost.get("#orphaned"): M1 = without(M1, fr[0], M0.idx(k))
        v = T.cell(st, t, T.oRoot)
        if v is None: raise ToolLimit("root cell")
        if fr and not st.ghost.get("#orphaned"): M1 = M1.but(root=v)
        ptouch(st, M0.idx(k)); touch(st, v)
        check_rem(ex, st, M0, M1, rem(M0, M0.idx(k), Lin(1), M0.n, Lin(0), TRUE), v, "_delete_by_target")
        T.cells(ex, st, t, M1.but(root=v), "_delete_by_target", c["cid"])
    U("_delete_by_target", "re:" + A + r"_delete_by_target\(.*\)", s_target, p_target)

    def s_erase(ex):
        st, c = start(ex); k = some(st, "position", c["M"], null=False); c["k"] = k
        return [("", st, [c["this"], k], c)]

    def p_erase(ex, st, ret, c):
        M0, k = c["M"], c["k"]; S = st.ghost.get("#out")
        if S is None: return ex.oblige(st, "the element is removed", FALSE, "post")
        ex.oblige(st, "the element at the iterator is removed", EQ(S.jj, M0.idx(k)), "post")
        outcome_rem(ex, st, T, c, S)
        M1 = Mem(T, st, c["t"]); x = ex.as_int(ret) - T.oKey; i = M0.idx(k)
        ptouch(st, i); touch(st, M1.P(i))
        ex.oblige(st, "the element after it is returned, or the end", ite(EQ(ret, 0), EQ(i, M0.n), And(LT(i, M0.n), EQ(x, M1.P(i)))), "post")
    U("erase", "w_erase", s_erase, p_erase)


def build(tmp):
    from .. import layout
    us = []; mod = None
    for kind in ("BST", "AVL", "MAP"):
        defs = ("DV_" + kind,)
        mod = layout.extract("tree", tmp, defs)
        key = {"BST": "data", "AVL": "data.val", "MAP": "data.val.key"}[kind]
        off = layout.offsets("tree_layout.hpp", ["__builtin_offsetof(V_, %s)" % x for x in ("mSize_d", "mRootPtr_d", "mCmp_d")] + ["sizeof(V_)", "sizeof(N_)", "__builtin_offsetof(N_, %s)" % key,
                             "__builtin_offsetof(N_, data.val.value)" if kind == "MAP" else "0", "__builtin_offsetof(N_, data.height)" if kind != "BST" else "0", "__builtin_offsetof(N_, data)"], tmp, "tree" + kind, defs)
        us += units(Tree(kind, off), mod)
    return mod, us


CLAIMS = {"C18": ("func", "BinarySearchTree::(?!.*rotate|.*traversal|next_|height|tree::)"), "C19": ("func", "AVLTree::(?!.*traversal|next_(pre|post)order|iterator (pre|post))"), "C20": ("func", "Map(::|'s AVLTree::(?!.*traversal|next_(pre|post)order|iterator (pre|post)))"),
          "C21": ("func", ".*::(iterator|base iterator|range for|traversal|next_|find, then|(pre|in|post)order_traversal)"), "C22": ("life", ".*"), "C23": ("func", ".*(rotate|height)")}
