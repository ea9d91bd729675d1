"""DoubleEndedQueue<Elem, A, VA> and Queue.  The blocks of all deques form one collection indexed by block address, each an
array of A slots.  A deque t is described by ghost state: own[b] = t and pos[b] = the table index for each of its blocks b,
the flat position G = A * index + slot of its first element, its length n and its sequence sq[0..n-1].  The representation
invariant is then a statement about one block, one table index, or one slot, required of all of them.

As with the trees, facts about every block / index / slot are instantiated for those the program or the proof has touched, so
every verification condition is ground; a goal about all of them is proved for a fresh one."""
from ..spec import *
from ..ir import INT
from ..engine import Soup
from ..loops import Cand
from .tree import touch, univ, ptouch, puniv, sel, selb, _key
from . import tree as TR
from . import vec as VS

LIM = 1 << 22         # blocks a deque may have before it grows


def reset(st):
    TR.reset(st)
    for k in ("#q", "#quniv", "#e", "#euniv", "#vuniv"): st.ghost[k] = ()
    for k in ("#qset", "#eset"): st.ghost[k] = frozenset()


def qtouch(st, b, s):
    """slot s of block b takes part"""
    b, s = lin(b), lin(s); k = (_key(b), _key(s))
    touch(st, b)
    if k in st.ghost["#qset"]: return
    st.ghost["#qset"] = st.ghost["#qset"] | {k}; st.ghost["#q"] += ((b, s),)
    for f in st.ghost["#quniv"]: st.assume(f(b, s))


def quniv(st, f):
    st.ghost["#quniv"] += (f,)
    for b, s in st.ghost["#q"]: st.assume(f(b, s))


def etouch(st, *is_):
    """the i-th elements take part"""
    for i in is_:
        i = lin(i)
        if _key(i) in st.ghost["#eset"]: continue
        st.ghost["#eset"] = st.ghost["#eset"] | {_key(i)}; st.ghost["#e"] += (i,)
        for f in st.ghost["#euniv"]: st.assume(f(i))


def euniv(st, f):
    st.ghost["#euniv"] += (f,)
    for i in st.ghost["#e"]: st.assume(f(i))


def ground(st, f):
    """a fact about every table index, kept for instantiation"""
    f = Z(f)
    if z3.is_quantifier(f): puniv(st, lambda k, b=f.body(): z3.substitute_vars(b, k.z()))
    else: st.assume(f)


# ------------------------------------------------------------------ one deque in one memory
class Mem:
    def __init__(self, D, st, t, **kw):
        sp = st.soups["blk"]; g = st.ghost
        self.D = D; self.t = t
        self.dom = lambda b, a=sp.dom: selb(a, b)
        self.val = lambda b, s, a=sp.f["e.v"]: sel(a, b * D.A + s)
        self.live = lambda b, s, a=sp.f["e.l"]: selb(a, b * D.A + s)
        self.own = lambda b, a=g["own"]: sel(a, b)
        self.pos = lambda b, a=g["pos"]: sel(a, b)
        self.m = g["m%d" % t]; self.G = g["G%d" % t]; self.n = g["n%d" % t]
        self.sq = lambda i, a=g["sq%d" % t]: sel(a, i)
        c = D.table(st, t)
        self.tbl = (lambda k, a=c.val: sel(a, k)) if c is not None else (lambda k: Lin(0))
        self.__dict__.update(kw)

    def inT(self, b): return EQ(self.own(b), self.t)
    def flat(self, b, s): return self.pos(b) * self.D.A + s


def U(M, b): return [("every block of the deque is in its table", "inv", Imp(M.inT(b), And(LT(0, b), M.dom(b), LE(0, M.pos(b)), LT(M.pos(b), M.m), EQ(M.tbl(M.pos(b)), b))))]
def P(M, k): return [("every table entry is a block of the deque", "inv", Imp(And(LE(0, k), LT(k, M.m)), And(LT(0, M.tbl(k)), M.inT(M.tbl(k)), EQ(M.pos(M.tbl(k)), k))))]


def S(M, b, s):
    g = And(M.inT(b), LE(0, s), LT(s, M.D.A)); f = M.flat(b, s); inn = And(LE(M.G, f), LT(f, M.G + M.n))
    return [("exactly the slots from first to last hold elements", "lifetime", Imp(g, M.live(b, s) == inn)),
            ("the slots hold the sequence", "post", Imp(And(g, inn), EQ(M.val(b, s), M.sq(f - M.G))))]


def glob(M): 
    return [lambda b: [("what belongs to a deque is allocated", "inv", Imp(NE(M.own(b), 0), And(M.dom(b), LT(0, b)))), ("every allocated block belongs to a deque", "leak", Imp(M.dom(b), NE(M.own(b), 0)))],
            lambda b, s: [("no element is alive outside the allocated blocks", "lifetime", Imp(And(Not(M.dom(b)), LE(0, s), LT(s, M.D.A)), Not(M.live(b, s))))]]


def conj(l): return And(*[f for _, _, f in l])


def know(st, M):
    univ(st, lambda b: conj(U(M, b))); puniv(st, lambda k: conj(P(M, k))); quniv(st, lambda b, s: conj(S(M, b, s)))


def know_glob(st, M):
    a, b = glob(M)
    univ(st, lambda x: conj(a(x))); quniv(st, lambda x, s: conj(b(x, s)))


def look(st, mems, b=None, s=None, k=None, shifts=()):
    """an arbitrary block, slot and table index, and what is next to them"""
    b = fresh("b") if b is None else b; s = fresh("s") if s is None else s; k = fresh("k") if k is None else k
    for x, i in ((b, s),):
        touch(st, x); qtouch(st, x, i)
        for M in mems: ptouch(st, M.pos(x)); f = M.flat(x, i) - M.G; etouch(st, f, f - 1, f + 1)
    ptouch(st, k, *[k + d for d in shifts])
    for M in mems: touch(st, M.tbl(k))
    return b, s, k


def check_mem(ex, st, M, mems, what="result", globs=True, shifts=()):
    """the representation invariant of one deque"""
    x = st.fork(); b, s, k = look(x, [M] + list(mems), shifts=shifts)
    for nm, kind, g in U(M, b) + P(M, k) + S(M, b, s) + (glob(M)[0](b) + glob(M)[1](b, s) if globs else []): ex.oblige(x, "%s: %s" % (what, nm), g, kind)


def frame(M0, M1, b, s, ts):
    """blocks of other deques are not touched"""
    o = And(NE(M0.own(b), 0), *[NE(M0.own(b), t) for t in ts])
    stay = Or(EQ(M1.own(b), M0.own(b)), EQ(M1.own(b), 0), *[EQ(M1.own(b), t) for t in ts])
    return And(stay, Imp(o, And(EQ(M1.own(b), M0.own(b)), EQ(M1.pos(b), M0.pos(b)), M1.dom(b), Imp(And(LE(0, s), LT(s, M0.D.A)), And(M1.live(b, s) == M0.live(b, s), EQ(M1.val(b, s), M0.val(b, s)))))))


def check_frame(ex, st, M0, M1, ts):
    x = st.fork(); b, s, k = look(x, [M0, M1])
    ex.oblige(x, "other deques are not touched", frame(M0, M1, b, s, ts), "post")


class Deque:
    def __init__(self, A, off):
        self.A = A
        self.oSize, self.oCap, self.oTab, self.tN, self.tCap, self.tC, self.oB, self.oE, self.iP, self.iIdx, self.iCur, self.iTab, self.isize, self.size = off
        self.V = VS.Vec((self.tN, self.tCap, self.tC), "dstruct::Array<Elem, %dull>*" % A); self.V.tag = "blk"
        self.vc = VS.VecContracts(self.V).all()

    # ---------------------------------------------------------------- states
    def world(self, ex):
        st = State(); reset(st)
        s = Soup("blk", {}, self.A * ESZ, 0, (ESZ, self.A, "E", "e"))
        s.f = {"e.v": freshA("value"), "e.l": freshAB("live")}; s.dom = freshAB("dom"); s.ldom = s.dom
        st.soups["blk"] = s
        for g in ("own", "pos"): st.ghost[g] = freshA(g)
        st.ghost["#deques"] = (); st.ghost["nvisit"] = Lin(0)
        st.assume(EQ(sel(st.ghost["own"], Lin(0)), 0))
        return st

    def table(self, st, t):
        o = st.heap.get(t)
        c = o.cells.get(self.oTab + self.tC) if o is not None else None
        if c is None or not isinstance(c[1], Lin): return None
        v = st.norm(c[1])
        for a, k in v.t:
            if a in st.bases and isinstance(st.heap[st.bases[a]], Arr) and v.eq(st.heap[st.bases[a]].base): return st.heap[st.bases[a]]
        return None

    def ghosts(self, st, t, m, G, n, sq=None):
        st.ghost["m%d" % t] = lin(m); st.ghost["G%d" % t] = lin(G); st.ghost["n%d" % t] = lin(n); st.ghost["sq%d" % t] = freshA("seq") if sq is None else sq

    def iter(self, st, oid, off, tbl, idx, F, tabaddr, cells=True):
        """cells of an iterator at flat position F in block idx"""
        o = ex_mut(st, oid)
        b = tagged(tbl(idx)); ptouch(st, idx); touch(st, b)
        cur = b + (F - idx * self.A) * ESZ
        o.cells[off + self.iIdx] = (8, idx); o.cells[off + self.iCur] = (8, cur); o.cells[off + self.iP] = (8, cur); o.cells[off + self.iTab] = (8, tabaddr)

    def produce(self, ex, st, t, name, blocks):
        """cells and ghosts of a deque: uninitialised, or with blocks"""
        o = ex.mut(st, t)
        if not blocks:
            self.ghosts(st, t, 0, 0, 0)
            for off in (self.oSize, self.oCap, self.oTab + self.tN, self.oTab + self.tCap, self.oTab + self.tC): o.cells[off] = (8, Lin(0))
            for it in (self.oB, self.oE):
                for off in (self.iIdx, self.iCur): o.cells[it + off] = (8, Lin(0))
                for off in (self.iP, self.iTab):
                    x = fresh(name + ".stale"); st.assume(And(LE(0, x), LE(x, E.MAXADDR))); o.cells[it + off] = (8, x)
            return Mem(self, st, t)
        m, G, n = fresh(name + ".m"), fresh(name + ".G"), fresh(name + ".n"); h = fresh("half")
        st.assume(And(EQ(m, h * 2), LE(2, m), LE(m, 2 * LIM), LE(0, G), LE(0, n), LE(G + n, m * self.A)))
        a = ex.add_arr(st, 8, m, 8, name + ".table", "heap", tag="blk")
        self.ghosts(st, t, m, G, n)
        o = ex.mut(st, t)
        o.cells[self.oSize] = (8, n); o.cells[self.oCap] = (8, m * self.A)
        o.cells[self.oTab + self.tN] = (8, m); o.cells[self.oTab + self.tCap] = (8, m); o.cells[self.oTab + self.tC] = (8, a.base)
        M = Mem(self, st, t)
        for it, F, nm in ((self.oB, G, "first"), (self.oE, G + n, "last")):
            i = fresh(name + "." + nm)
            st.assume(self.normal(i, F, m))
            self.iter(st, t, it, M.tbl, i, F, o.base + self.oTab)
        return M

    def normal(self, i, F, m): return And(LE(0, i), LT(i, m), LE(0, F - i * self.A), LE(F - i * self.A, self.A), Or(LT(F - i * self.A, self.A), EQ(i, m - 1)))

    def deque(self, ex, st, name, blocks):
        o = ex.add_obj(st, self.size, name, "param"); t = o.id
        st.ghost["#deques"] += (t,)
        M = self.produce(ex, st, t, name, blocks)
        know(st, M)
        if len(st.ghost["#deques"]) == 1: know_glob(st, M)
        return M

    def raw(self, ex, st, name):
        o = ex.add_obj(st, self.size, name, "param"); t = o.id
        st.ghost["#deques"] += (t,)
        self.ghosts(st, t, 0, 0, 0)
        M = Mem(self, st, t); know(st, M)
        if len(st.ghost["#deques"]) == 1: know_glob(st, M)
        return M

    def cell(self, st, i, off):
        c = st.heap[i].cells.get(off) if i in st.heap else None
        return st.norm(c[1]) if c is not None and isinstance(c[1], Lin) else None

    def flatof(self, st, i, off, tbl, loose=False):
        """(index, flat position) of the iterator at object i, offset off; loose: only if atpos holds"""
        idx = self.cell(st, i, off + self.iIdx); cur = self.cell(st, i, off + self.iCur)
        if idx is None or cur is None: return None, None
        s = (cur - tbl(idx)).div(ESZ)
        if s is None and loose:
            for a, k in cur.t:
                if k == 1 and AT.meta[a].get("tag") == "blk" and s is None: s = (cur - Lin(0, ((a, 1),))).div(ESZ)
        return idx, None if s is None else idx * self.A + s

    def atpos(self, st, i, off, tbl, idx, F):
        """the pointer is that of the position"""
        ptouch(st, idx); touch(st, tbl(idx))
        return EQ(self.cell(st, i, off + self.iCur), tbl(idx) + (F - idx * self.A) * ESZ)

    def check_iter(self, ex, st, i, off, M, F, tabaddr, what, ptr=True):
        idx = self.cell(st, i, off + self.iIdx); cur = self.cell(st, i, off + self.iCur); p = self.cell(st, i, off + self.iP); tb = self.cell(st, i, off + self.iTab)
        if any(x is None for x in (idx, cur, p, tb)):
            ex.oblige(st, "%s: every field is set" % what, FALSE, "inv"); return
        ptouch(st, idx)
        ex.oblige(st, "%s: the block index is that of its position" % what, self.normal(idx, F, M.m), "inv")
        ex.oblige(st, "%s: the pointer is that of its position" % what, EQ(cur, M.tbl(idx) + (F - idx * self.A) * ESZ), "inv")
        ex.oblige(st, "%s: the pointer read through is in step" % what, EQ(p, cur), "inv")
        ex.oblige(st, "%s: the iterator refers to the table of its deque" % what, EQ(tb, tabaddr), "inv")

    def now(self, ex, st, t, what):
        """the deque its cells describe at this moment; elements have kept their places"""
        o = st.heap[t]; n = self.cell(st, t, self.oSize); m = self.cell(st, t, self.oTab + self.tN)
        if n is None or m is None: ex.oblige(st, "%s: the deque is initialised" % what, FALSE, "inv"); return None
        if self.table(st, t) is None:
            return Mem(self, st, t, m=Lin(0), G=Lin(0), n=n)
        M = Mem(self, st, t); G0 = M.G
        idx, G = self.flatof(st, t, self.oB, M.tbl, True)
        if G is None: raise ToolLimit("%s: position of the first element" % what)
        sq0 = M.sq
        return Mem(self, st, t, m=m, n=n, G=G, sq=lambda i: sq0(i + (G - G0)))

    def check(self, ex, st, M, mems=(), what="result", globs=True, shifts=(), mem=True):
        """the deque is well formed and is M"""
        t = M.t; o = st.heap[t]; c = self.table(st, t)
        vals = [self.cell(st, t, x) for x in (self.oSize, self.oCap, self.oTab + self.tN, self.oTab + self.tCap, self.oTab + self.tC)]
        if any(x is None for x in vals): ex.oblige(st, "%s: size, capacity and table are initialised" % what, FALSE, "inv"); return
        n, cap, tn, tc, C = vals
        ex.oblige(st, "%s: the recorded size is the number of elements" % what, EQ(n, M.n), "inv")
        ex.oblige(st, "%s: the capacity is that of the blocks" % what, And(EQ(cap, M.m * self.A), EQ(tn, M.m), EQ(tc, M.m)), "inv")
        if c is None:
            ex.oblige(st, "%s: no table only without blocks" % what, And(EQ(M.m, 0), EQ(M.n, 0), EQ(C, 0)), "inv")
            for it in (self.oB, self.oE):
                i, p = self.cell(st, t, it + self.iIdx), self.cell(st, t, it + self.iCur)
                ex.oblige(st, "%s: without blocks the iterators are null" % what, FALSE if i is None or p is None else And(EQ(i, 0), EQ(p, 0)), "inv")
        else:
            h = M.m.div(2)
            ex.oblige(st, "%s: the table has the recorded size" % what, And(EQ(c.count, M.m), LE(2, M.m), LE(M.m, 2 * LIM), M.m.z() % 2 == 0), "inv")
            ex.oblige(st, "%s: the elements are inside the blocks" % what, And(LE(0, M.G), LE(0, M.n), LE(M.G + M.n, M.m * self.A)), "inv")
            self.check_iter(ex, st, t, self.oB, M, M.G, o.base + self.oTab, what + ": first")
            self.check_iter(ex, st, t, self.oE, M, M.G + M.n, o.base + self.oTab, what + ": last")
        if mem: check_mem(ex, st, M, mems, what, globs, shifts)

    def at(self, ex, st, addr, what):
        addr = st.norm(ex.as_int(addr))
        for a, k in addr.t:
            if a in st.bases and k == 1 and addr.eq(st.heap[st.bases[a]].base) and st.bases[a] in st.ghost["#deques"]: return st.bases[a]
        raise ToolLimit("deque argument of %s" % what)

    def elem(self, ex, st, name="element"):
        eo = ex.add_obj(st, ESZ, name, "param"); eo = ex.mut(st, eo.id); v = fresh("e")
        eo.cells[0] = ("E", ElemV(v, TRUE)); eo.ro = True
        return eo.base, v

    def havoc(self, st, fields, dom=True):
        s = st.soups["blk"].copy(); st.soups["blk"] = s
        for k in fields: s.f[k] = z3.Const(fresh_name(k), s.f[k].sort())
        if dom: s.dom = freshAB("dom"); s.ldom = s.dom
        st.ghost["own"] = freshA("own"); st.ghost["pos"] = freshA("pos")
        st.ghost["#havoc"] = st.ghost.get("#havoc", 0) + 1

    def renew(self, ex, st, t, M0, blocks, fields=("e.v", "e.l"), name="d"):
        """deque t becomes any well formed one; the others keep theirs"""
        c = self.table(st, t)
        if c is not None: ex.drop(st, c, "released or reallocated")
        self.havoc(st, fields)
        st.assume(EQ(sel(st.ghost["own"], Lin(0)), 0))
        M = self.produce(ex, st, t, name, blocks)
        know(st, M); know_glob(st, M)
        quniv(st, lambda b, s: frame(M0, M, b, s, [t])); univ(st, lambda b: frame(M0, M, b, Lin(-1), [t]))
        return M


def ex_mut(st, i):
    c = st.heap[i].copy(); st.heap[i] = c
    return c


def tagged(v):
    v = lin(v)
    if len(v.t) == 1: AT.meta[v.t[0][0]].setdefault("tag", "blk")
    return v


# ------------------------------------------------------------------ memory of blocks
def new_block(D):
    def f(ex, st, n):
        if not n.const() or n.c != D.A * ESZ: return None
        x = fresh("block", tag="blk")
        s = st.soups["blk"].copy(); st.soups["blk"] = s
        st.assume(And(LT(0, x), LE(x + D.A * ESZ, E.MAXADDR), Not(selb(s.dom, x))))
        touch(st, x)
        s.dom = z3.Store(s.dom, x.z(), TRUE)
        return [(st, x)]
    return f


def free_block(D):
    def h(ex, st, p, n):
        p = st.norm(p)
        if any(a in st.bases for a, k in p.t):
            ex.oblige(st, "released memory came from the allocator as a block", FALSE, "alloc"); return []
        if len(p.t) != 1 or p.t[0][1] != 1 or AT.meta[p.t[0][0]].get("tag") != "blk": return None
        s = st.soups["blk"]
        ex.oblige(st, "released pointer is the start of an allocated block", selb(s.dom, p) if p.c == 0 else FALSE, "alloc")
        ex.oblige(st, "block is released with the size it was requested with", EQ(n, D.A * ESZ), "alloc")
        x = st.fork(); i = fresh("s"); qtouch(x, p, i)
        for t in st.ghost["#deques"]: ptouch(x, Mem(D, st, t).pos(p))
        ex.oblige(x, "no live element is left in a released block", Imp(And(LE(0, i), LT(i, D.A)), Not(selb(s.f["e.l"], p * D.A + i))), "lifetime")
        q = p
        quniv(st, lambda b, s_, l=s.f["e.l"]: Imp(And(EQ(b, q), LE(0, s_), LT(s_, D.A)), Not(selb(l, b * D.A + s_))))
        s = s.copy(); st.soups["blk"] = s
        s.dom = z3.Store(s.dom, p.z(), FALSE)
        st.ghost["own"] = z3.Store(st.ghost["own"], p.z(), z3.IntVal(0))
        return [(st, None)]
    return h


def on_table(ex, st, r, v):
    tagged(v); touch(st, v); ptouch(st, r.idx)


def on_slot(ex, st, key, s): qtouch(st, key, s)


def on_store(D):
    def h(ex, st, r, v):
        """ghost code: a block pointer written into the table of deque t belongs to t, at that index"""
        for t in st.ghost["#deques"]:
            c = D.table(st, t)
            if c is not None and c.id == r.id:
                touch(st, v); ptouch(st, r.idx)
                st.ghost["own"] = z3.Store(st.ghost["own"], v.z(), z3.IntVal(t)); st.ghost["pos"] = z3.Store(st.ghost["pos"], v.z(), r.idx.z())
    return h


def ptr_facts(D):
    def h(ex, st, a, b):
        """allocated blocks are apart"""
        xs = [lin(AT.expr[i]) for l in (a, b) for i, k in l.t if AT.meta[i].get("tag") == "blk" and k == 1]
        if len(xs) == 2 and not xs[0].eq(xs[1]):
            p, q = xs; dom = st.soups["blk"].dom
            st.assume(Imp(And(selb(dom, p), selb(dom, q)), Or(EQ(p, q), LE(p + D.A * ESZ, q), LE(q + D.A * ESZ, p))))
        for p in xs:
            dom = st.soups["blk"].dom
            st.assume(Imp(selb(dom, p), And(LT(0, p), LE(p + D.A * ESZ, E.MAXADDR))))
    return h


def visit_slot(D):
    def h(ex, st, args, ins):
        addr = st.norm(ex.as_int(args[0]))
        r = ex.resolve(st, addr, "E", "visited element")
        if r is None: return []
        if r.kind != "S": raise ToolLimit("visited element is not in a block")
        ex.oblige(st, "visited element is live", ex.eget(st, r).live, "lifetime")
        for a, k in addr.t:
            if AT.meta[a].get("tag") == "blk" and k == 1: b = Lin(0, ((a, 1),))
        s = (addr - b).div(ESZ); M = Mem(D, st, st.ghost["#deques"][0])
        ex.oblige(st, "visited element is in the deque", M.inT(b), "post")
        st.ghost["visited"] = z3.Store(st.ghost["visited"], st.ghost["nvisit"].z(), M.flat(b, s).z())
        st.ghost["nvisit"] = st.ghost["nvisit"] + 1
        return [(st, None)]
    return h


# ------------------------------------------------------------------ contracts
def contracts(D):
    n_ = r"dstruct::DoubleEndedQueue<Elem, %du(ll|l), VA>::" % D.A
    it_ = r"dstruct::DoubleEndedQueueIterator_<Elem( const)?, %du(ll|l), VA>::" % D.A
    out = list(D.vc)

    def c_init(ex, st, args, dem):
        t = D.at(ex, st, args[0], "_only_init"); M0 = D.now(ex, st, t, "_only_init")
        if M0 is None: return []
        ex.oblige(st, "_only_init: the deque has no blocks", EQ(M0.m, 0), "pre")
        D.check(ex, st, M0, what="_only_init")
        M = D.renew(ex, st, t, M0, True, ())
        st.assume(And(EQ(M.m, 2), EQ(M.n, 0), EQ(M.G, D.A)))
        return [(st, None)]
    out.append(Contract("_only_init", n_ + r"_only_init\(\)", c_init))

    def c_clear(ex, st, args, dem):
        t = D.at(ex, st, args[0], "_only_clear"); M0 = D.now(ex, st, t, "_only_clear")
        if M0 is None: return []
        D.check(ex, st, M0, what="_only_clear")
        D.renew(ex, st, t, M0, False)
        return [(st, None)]
    out.append(Contract("_only_clear", n_ + r"_only_clear\(\)", c_clear))

    def c_resize(ex, st, args, dem):
        t = D.at(ex, st, args[0], "_resize"); n = ex.as_int(args[1]); M0 = D.now(ex, st, t, "_resize")
        if M0 is None: return []
        D.check(ex, st, M0, what="_resize")
        ex.oblige(st, "_resize: there are blocks", LE(2, M0.m), "pre")
        res = []
        for s, truth in ex.branch(st, EQ(n, M0.m * (2 * D.A))):
            if truth:
                ex.oblige(s, "_resize: room to grow", LE(M0.m, LIM), "pre")
                M = D.renew(ex, s, t, M0, True, ())
                s.assume(And(EQ(M.m, M0.m * 2), EQ(M.n, M0.n), LE(1, M.G), LT(M.G + M.n, M.m * D.A)))
                euniv(s, lambda i, M=M: Imp(And(LE(0, i), LT(i, M.n)), EQ(M.sq(i), M0.sq(i))))
            else:
                ex.oblige(s, "_resize: doubling, or a third full and halving", And(EQ(n * 2, M0.m * D.A), LE(M0.n * 3, M0.m * D.A), LT(2, M0.m)), "pre")
            res.append((s, None))
        return res
    out.append(Contract("_resize", n_ + r"_resize\(unsigned long( long)?\)", c_resize))

    def c_plus(sign):
        nm = "operator+" if sign > 0 else "operator-"

        def f(ex, st, args, dem):
            ret, it, n = st.norm(ex.as_int(args[0])), st.norm(ex.as_int(args[1])), ex.as_int(args[2]) * sign
            o, off = ex.objat(st, it, D.isize, nm)
            t = D.deque_of(ex, st, o.id, off, nm)
            M = Mem(D, st, t)
            if D.table(st, t) is None: ex.oblige(st, "%s: the deque has blocks" % nm, FALSE, "pre"); return []
            idx, F = D.flatof(st, o.id, off, M.tbl, True)
            if F is None: raise ToolLimit(nm + ": position of the iterator")
            D.check_iter(ex, st, o.id, off, M, F, st.heap[t].base + D.oTab, nm)
            ex.oblige(st, "%s: the result is inside the blocks" % nm, And(LE(0, F + n), LE(F + n, M.m * D.A)), "pre")
            rec = st.ghost.get("#rec")
            if rec and rec != nm: ex.oblige(st, "%s called with a non-negative count by its counterpart" % nm, LE(0, n * sign), "termination")
            ro, roff = ex.objat(st, ret, D.isize, nm)
            i = fresh("index"); st.assume(D.normal(i, F + n, M.m))
            D.iter(st, ro.id, roff, M.tbl, i, F + n, st.heap[t].base + D.oTab)
            st.ghost["#havoc"] = st.ghost.get("#havoc", 0) + 1
            return [(st, None)]
        return Contract(nm, it_ + re.escape(nm) + r"\(int\) const", f)
    out += [c_plus(1), c_plus(-1)]

    def c_push(back):
        nm = "push_back" if back else "push_front"

        def f(ex, st, args, dem):
            t = D.at(ex, st, args[0], nm); M0 = D.now(ex, st, t, nm)
            if M0 is None: return []
            D.check(ex, st, M0, what=nm)
            if st.ghost.get("#room"): st.assume(LE(M0.m, LIM))          # resources: no table of more than LIM blocks is needed
            ex.oblige(st, "%s: room to grow" % nm, LE(M0.m, LIM), "pre")
            r = ex.eref(st, ex.as_int(args[1]), "element argument")
            if r is None: return []
            ev = ex.eget(st, r); ex.oblige(st, "element argument is live", ev.live, "pre")
            M = D.renew(ex, st, t, M0, True)
            st.assume(EQ(M.n, M0.n + 1))
            st.assume(LE(2, M.m))
            if back: euniv(st, lambda i: And(Imp(And(LE(0, i), LT(i, M0.n)), EQ(M.sq(i), M0.sq(i))), Imp(EQ(i, M0.n), EQ(M.sq(i), ev.val))))
            else: euniv(st, lambda i: And(Imp(And(LT(0, i), LE(i, M0.n)), EQ(M.sq(i), M0.sq(i - 1))), Imp(EQ(i, 0), EQ(M.sq(i), ev.val))))
            return [(st, None)]
        return Contract(nm, n_ + nm + r"\(Elem const&\)", f)
    out += [c_push(True), c_push(False)]
    return out


def deque_of(D, ex, st, i, off, what):
    tb = D.cell(st, i, off + D.iTab)
    if tb is not None:
        for t in st.ghost["#deques"]:
            if tb.eq(st.heap[t].base + D.oTab): return t
    raise ToolLimit("%s: the table of the iterator" % what)


Deque.deque_of = lambda self, ex, st, i, off, what: deque_of(self, ex, st, i, off, what)


# ------------------------------------------------------------------ loops
def groups(D, hv):
    """iterators the loop moves: (object, offset)"""
    return sorted((i, off - D.iCur) for i, off in hv.cells if (i, off - D.iCur + D.iIdx) in hv.cells)


def group_of(D, st, i, off):
    tb = D.cell(st, i, off + D.iTab)
    for t in st.ghost["#deques"]:
        if tb is not None and tb.eq(st.heap[t].base + D.oTab) and D.table(st, t) is not None: return t
    return None


def template(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    D = ex.special["#D"]; out = []
    mine = set(t for h, t in hv.views)
    gs = [(i, off, group_of(D, entry, i, off)) for i, off in groups(D, hv) if i not in mine]
    gs = [g for g in gs if g[2] is not None]
    fl = []
    others = []
    for i, o in entry.heap.items():
        if isinstance(o, Obj) and o.kind in ("stack", "param"):
            for off in list(o.cells):
                p = off - D.iTab
                if p >= 0 and (i, p + D.iCur) not in hv.cells and i not in mine:
                    t = group_of(D, entry, i, p)
                    if t is None: continue
                    x = D.flatof(entry, i, p, Mem(D, entry, t).tbl)[1]
                    if x is not None and not any(x.eq(y) for y in others): others.append(x)
    for t in hv.views:
        out += t[0].wellformed(ex, entry, t[1])
    for i, off, t in gs:
        Me = Mem(D, entry, t); i0, F0 = D.flatof(entry, i, off, Me.tbl, True)
        if F0 is None: continue
        x = entry.fork(); ptouch(x, i0); touch(x, Me.tbl(i0))
        if not ex.valid(x, D.atpos(x, i, off, Me.tbl, i0, F0)): continue

        def F(c, i=i, off=off, t=t): return D.flatof(c.st, i, off, Mem(D, c.st, t).tbl)[1]

        def FL(c, i=i, off=off, t=t):
            """(position, it is one)"""
            M = Mem(D, c.st, t); idx, x = D.flatof(c.st, i, off, M.tbl, True)
            return (None, FALSE) if x is None else (x, D.atpos(c.st, i, off, M.tbl, idx, x))

        def chk(c, i=i, off=off, t=t):
            M = Mem(D, c.st, t); idx, x = D.flatof(c.st, i, off, M.tbl, True); p = D.cell(c.st, i, off + D.iP)
            if x is None or p is None: return None
            return And(D.atpos(c.st, i, off, M.tbl, idx, x), D.normal(idx, x, M.m), EQ(p, D.cell(c.st, i, off + D.iCur)))

        def use(c, i=i, off=off, t=t):
            M = Mem(D, c.st, t); idx = D.cell(c.st, i, off + D.iIdx); x = fresh("flat"); b = tagged(M.tbl(idx))
            c.st.assume(D.normal(idx, x, M.m)); ptouch(c.st, idx); touch(c.st, b); v = b + (x - idx * D.A) * ESZ
            for o_ in (D.iCur, D.iP):
                w = D.cell(c.st, i, off + o_)
                if len(w.t) == 1 and w.t[0][0] not in c.st.rw and w.c == 0: c.st.rw[w.t[0][0]] = v
                c.st.assume(EQ(w, v))
        out.append(Cand("iterator %d is at a position" % off, chk, False, use))
        fl.append((F, F0, i, off, t, FL))

        def rel(name, g):
            def h(c, g=g, FL=FL):
                x, ok = FL(c)
                return None if x is None else And(ok, g(c, x))

            def use(c, g=g, F=F):
                x = F(c)
                if x is not None: c.st.assume(g(c, x))
            out.append(Cand("iterator %s" % name, h, False, use))
        for j in ivars:
            v0 = lvars[j].entry
            if any(AT.meta[a].get("tag") or AT.meta[a].get("base") for a in lvars[j].head.atoms()): continue
            rel("follows %s" % lvars[j].name, lambda c, x, j=j, v0=v0, F0=F0: EQ(x - F0, c.v[j] - v0))
            rel("follows -%s" % lvars[j].name, lambda c, x, j=j, v0=v0, F0=F0: EQ(x - F0, v0 - c.v[j]))
        if "nvisit" in hv.ghosts:
            n0 = entry.ghost["nvisit"]
            rel("follows the visits", lambda c, x, F0=F0: EQ(x - F0, c.st.ghost["nvisit"] - n0))
            rel("follows the visits backwards", lambda c, x, F0=F0: EQ(F0 - x, c.st.ghost["nvisit"] - n0))
        for y in others + [F0]:
            rel("is not beyond %s" % y, lambda c, x, y=y: LE(x, y)); rel("is not before %s" % y, lambda c, x, y=y: LE(y, x))
    if "nvisit" in hv.ghosts:
        n0 = entry.ghost["nvisit"]
        for F, F0, i, off, t, FL in fl:
            for nm, g in (("forward", lambda m, F0=F0: F0 + m - n0), ("backward", lambda m, F0=F0: F0 - 1 - (m - n0))):
                def ok(st, g=g): return lambda m, v=st.ghost["visited"], n=st.ghost["nvisit"]: Imp(And(LE(n0, m), LT(m, n)), EQ(sel(v, m), g(m)))

                def vchk(c, ok=ok):
                    m = fresh("m")
                    return Imp(And(*[h(m) for h in c.st.ghost["#vuniv"]]), ok(c.st)(m))

                def vuse(c, ok=ok): c.st.ghost["#vuniv"] += (ok(c.st),)
                out.append(Cand("visited so far, %s" % nm, vchk, True, vuse))
    if ("blk", "e.l") in hv.soups and not hv.views:
        for F, F0, i, off, t, FL in fl:
            M0 = Mem(D, entry, t)

            def ok(st, x, M0=M0, F0=F0):
                M = Mem(D, st, M0.t)
                return lambda b, s: Imp(And(LE(0, s), LT(s, D.A)), M.live(b, s) == And(M0.live(b, s), Not(And(M0.inT(b), LE(F0, M0.flat(b, s)), LT(M0.flat(b, s), x)))))

            def dchk(c, ok=ok, FL=FL, M0=M0):
                x, good = FL(c)
                if x is None: return None
                b, s, k = look(c.st, [M0]); return And(good, ok(c.st, x)(b, s))

            def duse(c, ok=ok, F=F):
                x = F(c)
                if x is not None: quniv(c.st, ok(c.st, x))
            out.append(Cand("elements up to the iterator are destroyed, no others", dchk, True, duse))
    idx = [j for j in ivars if not any(AT.meta[a].get("tag") or AT.meta[a].get("base") for a in lvars[j].head.atoms())]
    M0 = entry.ghost.get("#M0")
    if M0 is not None and not hv.views and ("blk", "#dom") in hv.soups: out += block_loop(D, ex, entry_env, entry, lvars, idx, hv, M0, f)
    return out


def block_loop(D, ex, entry_env, entry, lvars, idx, hv, M0, f):
    """loops that obtain or release blocks"""
    out = []; t = M0.t; ME = Mem(D, entry, t)
    os_, oe = D.cell(entry, t, D.oB + D.iIdx), D.cell(entry, t, D.oE + D.iIdx)
    kept = lambda b: And(LE(os_, M0.pos(b)), LE(M0.pos(b), oe))

    def cand(name, okb, okk=None, more=()):
        def chk(c):
            M = Mem(D, c.st, t); b, s, k = look(c.st, [M0, M])
            for d in more: ptouch(c.st, k - d + os_)
            return And(okb(c, M)(b), TRUE if okk is None else okk(c, M)(k))

        def use(c):
            M = Mem(D, c.st, t)
            univ(c.st, okb(c, M))
            if okk is not None: puniv(c.st, okk(c, M))
        out.append(Cand(name, chk, True, use))
    for j in idx:
        for nm, sel_ in (("every block", lambda b: TRUE), ("every block left out", lambda b: Not(kept(b)))):
            def okb(c, M, j=j, sel_=sel_):
                i = c.v[j]

                def g(b):
                    gone = And(EQ(M0.own(b), t), LT(M0.pos(b), i), sel_(b))
                    return And(EQ(M.own(b), ite(gone, Lin(0), ME.own(b))), M.dom(b) == And(ME.dom(b), Not(gone)))
                return g
            out_ = "%s before %s is released" % (nm, lvars[j].name)
            cand(out_, okb)
    if "pos" in hv.ghosts:
        seen = []; new = D.cell(entry, t, D.oTab + D.tN)
        for nm, v in entry_env.items():
            if not isinstance(v, Lin) or any(AT.meta[a].get("base") or AT.meta[a].get("tag") for a in v.atoms()) or any(v.eq(x) for x in seen): continue
            if ex.valid(entry, And(LE(0, v), LT(v + oe - os_, ME.m if new is None else new))): seen.append(v)
        for ns in seen:
            for j in idx:
                def okb(c, M, ns=ns, j=j):
                    i = c.v[j]

                    def g(b):
                        to = M0.pos(b) - os_ + ns
                        return And(Imp(EQ(M0.own(b), t), And(EQ(M.own(b), t), M.dom(b), EQ(M.pos(b), ite(And(kept(b), LT(to, i)), to, M0.pos(b))))),
                                   Imp(And(NE(M0.own(b), t), NE(M0.own(b), 0)), And(EQ(M.own(b), M0.own(b)), EQ(M.pos(b), M0.pos(b)), M.dom(b))),
                                   Imp(EQ(M0.own(b), 0), Or(And(EQ(M.own(b), 0), Not(M.dom(b))), And(EQ(M.own(b), t), M.dom(b), LT(0, b), LE(0, M.pos(b)), LT(M.pos(b), i), EQ(M.tbl(M.pos(b)), b), Not(And(LE(ns, M.pos(b)), LE(M.pos(b), ns + oe - os_)))))))
                    return g

                def okk(c, M, ns=ns, j=j):
                    i = c.v[j]

                    def g(k):
                        b = M.tbl(k)
                        return Imp(And(LE(0, k), LT(k, i)), And(LT(0, b), EQ(M.own(b), t), EQ(M.pos(b), k), ite(And(LE(ns, k), LE(k, ns + oe - os_)), EQ(b, M0.tbl(k - ns + os_)), EQ(M0.own(b), 0))))
                    return g
                cand("the new table is built up to %s, old blocks from %s on" % (lvars[j].name, ns), okb, okk, (ns,))
    return out


def measures(D):
    def its(ex, st):
        out = []
        for i in sorted(st.heap):
            o = st.heap[i]
            if not isinstance(o, Obj) or o.kind != "stack": continue
            for off in sorted(o.cells):
                if off < D.iTab: continue
                t = group_of(D, st, i, off - D.iTab)
                if t is not None: out.append((i, off - D.iTab, t))
        return out

    def dist(j, up):
        def m(ex, c):
            l = its(ex, c.st)
            if j >= len(l): return None
            i, off, t = l[j]; M = Mem(D, c.st, t); idx, F = D.flatof(c.st, i, off, M.tbl, True)
            if F is None or not ex.valid(c.st, D.atpos(c.st, i, off, M.tbl, idx, F)): return None
            return M.m * D.A - F if up else F
        return m

    def visits(ex, c): return Mem(D, c.st, c.st.ghost["#deques"][0]).n - c.st.ghost["nvisit"]

    def copied(ex, c):
        src, t = c.st.ghost.get("#src"), c.st.ghost["#deques"][0]; n = D.cell(c.st, t, D.oSize)
        return None if src is None or n is None else src.n - n
    return [visits, copied] + [dist(j, up) for j in (0, 1, 2) for up in (True, False)]


class Hook:
    """lets a loop push into a deque: afterwards it is any one the invariants allow"""
    def __init__(self, D): self.D = D

    def __repr__(self): return "deque"

    def changed(self, ex, head, back, gone, new):
        D = self.D
        if any(c.kind not in ("heap", "stack", "global") for c in gone + new): return None
        g = set(c.id for c in gone if c.kind == "heap"); n = set(c.id for c in new if c.kind == "heap"); keys = []
        for t in head.ghost["#deques"]:
            a, b = D.table(head, t), D.table(back, t)
            if a is not None and b is not None and a.id in g and b.id in n: keys.append((self, t)); g.discard(a.id); n.discard(b.id)
        return keys if keys and not g and not n else None

    def havoc(self, ex, st, t):
        ex.drop(st, self.D.table(st, t), "released or reallocated")
        self.D.produce(ex, st, t, "d", True)

    def scalars(self, t): return [("size", lambda ex, st: self.D.cell(st, t, self.D.oSize))]
    def owned(self, ex, st, t): return {(t, off) for off in st.heap[t].cells}
    def candidates(self, ex, entry, t, lvars, ivars): return []
    def ghosts(self, t): return ["m%d" % t, "G%d" % t, "n%d" % t, "sq%d" % t]

    def check(self, ex, st, t, what):
        """the cells are those of a deque; what its blocks hold is for the candidate invariants below"""
        M = self.D.now(ex, st, t, what)
        if M is not None: self.D.check(ex, st, M, what=what, mem=False)

    def wellformed(self, ex, entry, t):
        D = self.D; out = []; M0 = entry.ghost.get("#M0"); src = entry.ghost.get("#src")

        def chk(c):
            M = D.now(ex, c.st, t, "loop")
            o = c.st.heap[t]; g = lambda off: D.cell(c.st, t, off); cc = D.table(c.st, t)
            if M is None or cc is None or any(g(x) is None for x in (D.oSize, D.oCap, D.oTab + D.tN, D.oTab + D.tCap)): return None
            fs = [EQ(g(D.oCap), M.m * D.A), EQ(g(D.oTab + D.tCap), M.m), EQ(cc.count, M.m), LE(2, M.m), LE(M.m, 2 * LIM), M.m.z() % 2 == 0, LE(0, M.G), LE(0, M.n), LE(M.G + M.n, M.m * D.A)]
            for off, F in ((D.oB, M.G), (D.oE, M.G + M.n)):
                i, x = D.flatof(c.st, t, off, M.tbl, True)
                if x is None: return None
                fs += [D.atpos(c.st, t, off, M.tbl, i, x), D.normal(i, F, M.m), EQ(x, F), EQ(g(off + D.iP), g(off + D.iCur)), EQ(g(off + D.iTab), o.base + D.oTab)]
            b, s, k = look(c.st, [M] + ([M0] if M0 else []) + ([src] if src else []))
            fs += [h for _, _, h in U(M, b) + P(M, k) + S(M, b, s) + glob(M)[0](b) + glob(M)[1](b, s)]
            return And(*fs)

        def use(c):
            M = Mem(D, c.st, t); know(c.st, M); know_glob(c.st, M)
        out.append(Cand("the deque is well formed", chk, True, use))
        E0 = Mem(D, entry, t)

        def good(st):
            """the position of the first element is one"""
            M = Mem(D, st, t); i, x = D.flatof(st, t, D.oB, M.tbl, True)
            return FALSE if x is None else D.atpos(st, t, D.oB, M.tbl, i, x)

        def fchk(c):
            M = Mem(D, c.st, t); b, s, k = look(c.st, [M, E0] + ([src] if src else [])); return frame(E0, M, b, s, [t])

        def fuse(c):
            M = Mem(D, c.st, t); quniv(c.st, lambda b, s: frame(E0, M, b, s, [t])); univ(c.st, lambda b: frame(E0, M, b, Lin(-1), [t]))
        out.append(Cand("other deques are not touched", fchk, True, fuse))
        if src is not None:
            def sq(st):
                M = D.now(ex, st, t, "loop")
                if M is None: return None
                return lambda i: Imp(And(LE(0, i), LT(i, M.n)), EQ(M.sq(i), src.sq(i)))

            def schk(c):
                i = fresh("i"); etouch(c.st, i); f = sq(c.st); return None if f is None else And(good(c.st), f(i))
            out.append(Cand("the first elements of the source are copied", schk, True, lambda c: euniv(c.st, sq(c.st))))
        return out


# ------------------------------------------------------------------ units
QUEUE = {"empty", "size", "front", "back", "operator[]", "iteration (iterate)", "iteration (citerate)", "iteration (rangefor)", "DoubleEndedQueue()", "~DoubleEndedQueue", "push", "pop", "copy constructor", "copy assignment", "move constructor", "move assignment"}


def units(D, mod, queue=False):
    us = []; cs = contracts(D); A = D.A
    pre = ("Queue<%d>::" if queue else "DoubleEndedQueue<%d>::") % A
    cls = r"dstruct::DoubleEndedQueue<Elem, %du(ll|l), VA>::" % A
    icls = r"dstruct::DoubleEndedQueueIterator_<Elem%%s, %du(ll|l), VA>::" % A

    def U(name, fn, s, p, off=(), special=(), **k):
        if queue:
            if name.partition(":")[0] not in QUEUE: return
            name = name.replace("DoubleEndedQueue", "Queue"); off = ()
        sp = {"#D": D, "#partial": True, "#slots": ("blk",), "#ground": ground, "#ontable": on_table, "#onslot": on_slot, "#onstore": on_store(D), "#free": free_block(D),
              "#ptrfacts": [ptr_facts(D)], "#alloc": (8, 8), "visit(Elem const&)": visit_slot(D), "#measures": measures(D)}
        sp.update(dict(special))
        w = 5 if name.startswith("copy") else 3 if "_resize" in name else 1
        u = Unit(pre + name, fn, s, p, contracts=cs, off=off, special=sp, templates=[template], policy=new_block(D), **k); u.mod = mod; u.weight = w; us.append(u)

    def start(ex, blocks, elem=None, raw=False):
        st = D.world(ex); c = {}
        c["M"] = M = D.raw(ex, st, "this") if raw else D.deque(ex, st, "this", blocks)
        c["t"] = M.t; c["this"] = st.heap[M.t].base; st.ghost["#M0"] = M
        if elem == "separate": c["earg"], c["e"] = D.elem(ex, st)
        if elem == "inside":
            b = fresh("obj", tag="blk"); s = fresh("slot"); touch(st, b); qtouch(st, b, s); ptouch(st, M.pos(b))
            st.assume(And(M.inT(b), LE(0, s), LT(s, A), LE(M.G, M.flat(b, s)), LT(M.flat(b, s), M.G + M.n)))
            c["earg"] = b + s * ESZ; c["e"] = M.val(b, s)
        return st, c

    def setup(*args, elem=False, pre=None, blocks=(False, True), raw=False, out=False):
        def f(ex):
            res = []
            for b in blocks:
                for el in ((["separate"] + (["inside"] if b else [])) if elem else [None]):
                    st, c = start(ex, b, el, raw); al = []
                    if out: o = ex.add_obj(st, ESZ, "result", "param"); c["outobj"] = o.id; c["out"] = o.base
                    for a in args:
                        if a == "i":
                            x = fresh("i"); st.assume(And(LE(-(1 << 31), x), LE(x, INTMAX))); c["i"] = x
                        al.append(c["earg"] if a == "e" else c[a])
                    for g in (pre(c) if pre else []): st.assume(g)
                    if ex.feasible(st): res.append((("blocks" if b else "no blocks") + (",element inside" if el == "inside" else ""), st, al, c))
            return res
        return f

    def tables(st): return set(x.id for x in (D.table(st, t) for t in st.ghost["#deques"]) if x is not None)

    def result(ex, st, c, n, sq=None, mems=(), what="result", shifts=()):
        M0, t = c["M"], c["t"]; M1 = D.now(ex, st, t, what)
        if M1 is None: return None
        if sq is not None: M1.sq = sq
        ex.oblige(st, "the number of elements", EQ(M1.n, n), "post")
        D.check(ex, st, M1, [M0] + list(mems), what, shifts=shifts); check_frame(ex, st, M0, M1, [t]); no_leak(ex, st, tables(st))
        return M1

    def same_cells(ex, st, t, cells, what):
        for off, (w, v) in cells.items():
            x = D.cell(st, t, off); ex.oblige(st, "%s: nothing in the object changes" % what, FALSE if x is None else EQ(x, v), "post")

    def unchanged(ex, st, c):
        M0, t = c["M"], c["t"]; M1 = Mem(D, st, t)
        same_cells(ex, st, t, c["cells"], "the deque")
        x = st.fork(); b, s, k = look(x, [M0, M1])
        ex.oblige(x, "no element changes, nothing moves", And(EQ(M1.tbl(k), M0.tbl(k)) if D.table(st, t) is not None else TRUE, EQ(M1.own(b), M0.own(b)), EQ(M1.pos(b), M0.pos(b)), M1.dom(b) == M0.dom(b), Imp(And(LE(0, s), LT(s, A)), And(EQ(M1.val(b, s), M0.val(b, s)), M1.live(b, s) == M0.live(b, s)))), "post")
        no_leak(ex, st, tables(st))

    def q_setup(*args, **k):
        f = setup(*args, **k)

        def g(ex):
            r = f(ex)
            for l, st, al, c in r: c["cells"] = dict(st.heap[c["t"]].cells)
            return r
        return g

    def q_post(ens):
        def f(ex, st, r, c):
            for nm, g in ens(ex, st, r, c): ex.oblige(st, nm, g, "post")
            unchanged(ex, st, c)
        return f

    def place(ex, st, M, r):
        """(belongs to the deque, flat position) of an element address"""
        r = st.norm(ex.as_int(r))
        for a, k in r.t:
            if AT.meta[a].get("tag") == "blk" and k == 1:
                b = Lin(0, ((a, 1),)); s = (r - b).div(ESZ)
                if s is None: break
                touch(st, b)
                return And(M.inT(b), LE(0, s), LT(s, A)), M.flat(b, s)
        raise ToolLimit("address of an element: %s" % r)
    ne = lambda c: [LT(0, c["M"].n)]
    Q = lambda f: q_post(lambda ex, st, r, c: [f(r, c)])
    U("empty", "w_empty", q_setup("this"), Q(lambda r, c: ("empty exactly when there are no elements", r == EQ(c["M"].n, 0))))
    U("size", "w_size", q_setup("this"), Q(lambda r, c: ("size is the number of elements", EQ(r, c["M"].n))))
    U("capacity", "w_capacity", q_setup("this"), Q(lambda r, c: ("capacity is that of the blocks", EQ(r, c["M"].m * A))))

    def p_end(i):
        def f(ex, st, r, c):
            M = c["M"]; k = i(c); etouch(st, k); cell = st.heap[c["outobj"]].cells.get(0)
            if cell is None: return [("the result is constructed", FALSE)]
            ex.oblige(st, "the result is a live element", cell[1].live, "lifetime")
            return [("the value of the element", EQ(cell[1].val, M.sq(k)))]
        return q_post(f)
    U("front", "w_front", q_setup("out", "this", out=True, pre=ne), p_end(lambda c: Lin(0)))
    U("back", "w_back", q_setup("out", "this", out=True, pre=ne), p_end(lambda c: c["M"].n - 1))

    def p_at(pos):
        def f(ex, st, r, c):
            inn, fl = place(ex, st, c["M"], r); return [("the element at that place", And(inn, EQ(fl, c["M"].G + pos(c))))]
        return q_post(f)
    rng = lambda c: [LE(-c["M"].n, c["i"]), LT(c["i"], c["M"].n)]
    U("operator[]", "w_index", q_setup("this", "i", pre=rng), p_at(lambda c: ite(LE(0, c["i"]), c["i"], c["i"] + c["M"].n)))
    U("iterator+", "w_itplus", q_setup("this", "i", pre=lambda c: [LE(0, c["i"]), LT(c["i"], c["M"].n)]), p_at(lambda c: c["i"]))
    U("iterator-", "w_itminus", q_setup("this", "i", pre=lambda c: [LT(0, c["i"]), LE(c["i"], c["M"].n)]), p_at(lambda c: c["M"].n - c["i"]))

    def iterated(back):
        def f(ex, st, r, c):
            M = c["M"]; m = fresh("m"); x = st.fork()
            for h in x.ghost["#vuniv"]: x.assume(h(m))
            ex.oblige(st, "every element is visited once", EQ(st.ghost["nvisit"], M.n), "post")
            ex.oblige(x, "in order", Imp(And(LE(0, m), LT(m, M.n)), EQ(sel(x.ghost["visited"], m), M.G + M.n - 1 - m if back else M.G + m)), "post")
            return []
        return q_post(f)
    for w in ("iterate", "citerate", "rangefor"): U("iteration (%s)" % w, "w_" + w, q_setup("this"), iterated(False))
    U("iteration (reverse)", "w_reverse", q_setup("this"), iterated(True))

    # construction, clearing, destruction
    U("DoubleEndedQueue()", "w_ctor", setup("this", blocks=(False,), raw=True), lambda ex, st, r, c: result(ex, st, c, Lin(0)))
    empty = lambda ex, st, r, c: result(ex, st, c, Lin(0)) and ex.oblige(st, "no blocks are left", EQ(D.now(ex, st, c["t"], "result").m, 0), "post")
    U("clear", "w_clear", setup("this"), empty)
    U("_only_clear", "re:" + cls + r"_only_clear\(\)", setup("this"), empty, off=("_only_clear",))

    def p_dtor(ex, st, r, c):
        M0, t = c["M"], c["t"]; M1 = Mem(D, st, t, m=Lin(0), G=Lin(0), n=Lin(0), tbl=lambda k: Lin(0))
        check_mem(ex, st, M1, [M0], "destroyed"); check_frame(ex, st, M0, M1, [t]); no_leak(ex, st, ())
    U("~DoubleEndedQueue", "w_dtor", setup("this"), p_dtor)

    def p_init(ex, st, r, c):
        M1 = result(ex, st, c, Lin(0))
        if M1 is not None: ex.oblige(st, "two empty blocks, filled from the second", And(EQ(M1.m, 2), EQ(M1.G, A)), "post")
    U("_only_init", "re:" + cls + r"_only_init\(\)", setup("this", blocks=(False,)), p_init, off=("_only_init",), unroll=3)

    def s_resize(grow):
        def f(ex):
            st, c = start(ex, True); M = c["M"]
            if grow: st.assume(LE(M.m, LIM)); n = M.m * (2 * A)
            else:
                h = M.m.z(); k = fresh("k"); st.assume(And(EQ(M.m, k * 2), LT(2, M.m), LE(M.n * 3, M.m * A))); n = k * A
            c["first"] = D.cell(st, c["t"], D.oB + D.iIdx)
            return [("", st, [c["this"], n], c)]
        return f

    def p_resize(grow):
        def f(ex, st, r, c):
            M0 = c["M"]; i0, i1 = c["first"], D.cell(st, c["t"], D.oB + D.iIdx)
            M1 = result(ex, st, c, M0.n, M0.sq, shifts=[] if i1 is None else [i0 - i1, i0 - i1 + 1])        # the blocks are moved by that much
            if M1 is None: return
            if grow: ex.oblige(st, "twice the blocks, with room at both ends", And(EQ(M1.m, M0.m * 2), LE(1, M1.G), LT(M1.G + M1.n, M1.m * A)), "post")
        return f
    U("_resize (grow)", "re:" + cls + r"_resize\(unsigned long( long)?\)", s_resize(True), p_resize(True), off=("_resize",))
    U("_resize (shrink)", "re:" + cls + r"_resize\(unsigned long( long)?\)", s_resize(False), p_resize(False), off=("_resize",))

    # iterator arithmetic
    for T, q in (("", ""), (" const", "const ")):
        for nm, sign in (("operator+", 1), ("operator-", -1)):
            def s_it(ex, nm=nm, sign=sign):
                st, c = start(ex, True); M = c["M"]; o = ex.add_obj(st, D.isize, "it", "param"); F, i = fresh("F"), fresh("index"); st.assume(D.normal(i, F, M.m))
                D.iter(st, o.id, 0, M.tbl, i, F, st.heap[M.t].base + D.oTab); ro = ex.add_obj(st, D.isize, "result", "param")
                n = fresh("n"); st.assume(And(LE(-INTMAX, n), LE(n, INTMAX), LE(0, F + n * sign), LE(F + n * sign, M.m * A)))
                st.ghost["#rec"] = nm
                c.update(it=dict(st.heap[o.id].cells), io=o.id, ro=ro.id, F=F + n * sign, cells=dict(st.heap[M.t].cells))
                return [("", st, [ro.base, o.base, n], c)]

            def p_it(ex, st, r, c):
                same_cells(ex, st, c["io"], c["it"], "the iterator"); D.check_iter(ex, st, c["ro"], 0, c["M"], c["F"], st.heap[c["t"]].base + D.oTab, "result"); unchanged(ex, st, c)
            U("%siterator %s" % (q, nm), "re:" + icls % T + re.escape(nm) + r"\(int\) const", s_it, p_it, off=(nm,))

    # adding and removing
    room = lambda c: [LE(c["M"].m, LIM)]

    def p_push(back):
        def f(ex, st, r, c):
            M0, e = c["M"], c["e"]; n = M0.n
            sq = (lambda i: ite(LT(i, n), M0.sq(i), e)) if back else (lambda i: ite(EQ(i, 0), e, M0.sq(i - 1)))
            result(ex, st, c, n + 1, sq)
        return f
    for w in ("push", "push_back"): U(w, "w_" + w, setup("this", "e", elem=True, pre=room), p_push(True), off=("push_back",))
    U("push_front", "w_push_front", setup("this", "e", elem=True, pre=room), p_push(False), off=("push_front",))

    def p_pop(back):
        def f(ex, st, r, c):
            M0 = c["M"]; result(ex, st, c, M0.n - 1, M0.sq if back else (lambda i: M0.sq(i + 1)))
        return f
    for w in ("pop", "pop_front"): U(w, "w_" + w, setup("this", pre=ne), p_pop(False))
    U("pop_back", "w_pop_back", setup("this", pre=ne), p_pop(True))

    # copy and move
    def s_two(raw, copy, only=None):
        def f(ex):
            res = []
            for b in ((False,) if raw else (False, True)):
                for sb in (False, True):
                    if only not in (None, (b, sb)): continue
                    st, c = start(ex, b, None, raw); M2 = D.deque(ex, st, "src", sb); c.update(src=M2, scells=dict(st.heap[M2.t].cells), satb=D.table(st, M2.t)); know(st, M2)
                    if copy: st.ghost["#src"] = M2; st.ghost["#room"] = True
                    res.append(("%s/%s" % ("blocks" if b else "no blocks", "blocks" if sb else "no blocks"), st, [c["this"], st.heap[M2.t].base], c))
            if not raw and only in (None, "self"):
                for b in (False, True):
                    st, c = start(ex, b); c["cells"] = dict(st.heap[c["t"]].cells); res.append(("self", st, [c["this"], c["this"]], c))
            return res
        return f

    def p_copy(ex, st, r, c):
        if "src" not in c: return unchanged(ex, st, c)
        M2 = c["src"]; M1 = result(ex, st, c, M2.n, M2.sq, [M2])
        same_cells(ex, st, M2.t, c["scells"], "the source")
        tb = D.table(st, M2.t); k = fresh("k")
        if c["satb"] is not None: ex.oblige(st, "the table of the source stays", FALSE if tb is None or tb.id != c["satb"].id else EQ(sel(tb.val, k), sel(c["satb"].val, k)), "post")

    def p_move(ex, st, r, c):
        if "src" not in c: return unchanged(ex, st, c)
        M0, M2, t = c["M"], c["src"], c["t"]; own = st.ghost["own"]
        ow = lambda b: ite(EQ(sel(own, b), M2.t), Lin(t), sel(own, b))          # ghost code: the blocks of the source are those of the target now
        M1 = D.now(ex, st, t, "result")
        if M1 is None: return
        M1.sq = M2.sq; M1.own = ow
        ex.oblige(st, "the number of elements", EQ(M1.n, M2.n), "post")
        D.check(ex, st, M1, [M0, M2], "result")
        MS = D.now(ex, st, M2.t, "source")
        if MS is None: return
        MS.own = ow
        ex.oblige(st, "the moved-from deque is empty", And(EQ(MS.n, 0), EQ(MS.m, 0)), "post")
        D.check(ex, st, MS, [M0, M2], "source")
        check_frame(ex, st, M0, M1, [t, M2.t]); no_leak(ex, st, tables(st))
    fn = lambda ex, f, st: re.search(r"DoubleEndedQueue<.*>::_dstruct_copy_sema\(", f.dem) is not None and not st.ghost.get("#peeled")
    two = {"#peel": fn, "#reproduce": [Hook(D)]}
    U("copy constructor", "w_copy_ctor", s_two(True, True), p_copy, special=two)
    for nm, only in (("itself", "self"), ("empty to empty", (False, False)), ("to empty", (False, True)), ("from empty", (True, False)), ("over elements", (True, True))):
        U("copy assignment: " + nm, "w_copy", s_two(False, True, only), p_copy, special=two)
    U("move constructor", "w_move_ctor", s_two(True, False), p_move)
    U("move assignment", "w_move", s_two(False, False), p_move)
    return us


OFFS = ["__builtin_offsetof(L_, mSize_d)", "__builtin_offsetof(L_, mCapacity_d)", "__builtin_offsetof(L_, mArrMapTable_d)",
        "__builtin_offsetof(L_::ArrMapTable_, mSize_d)", "__builtin_offsetof(L_::ArrMapTable_, mCapacity_d)", "__builtin_offsetof(L_::ArrMapTable_, mC_d)",
        "__builtin_offsetof(L_, mBegin_d)", "__builtin_offsetof(L_, mEnd_d)", "__builtin_offsetof(L_::IteratorType, mPointer_d)", "__builtin_offsetof(L_::IteratorType, mCurrMapIndex_d)",
        "__builtin_offsetof(L_::IteratorType, mCurr_d) + __builtin_offsetof(PrimitiveIterator<Elem>, mPointer_d)", "__builtin_offsetof(L_::IteratorType, mArrMapTablePtr_d)", "sizeof(L_::IteratorType)", "sizeof(L_)"]
SIZES = (1, 3, 32)


def build(tmp):
    from .. import layout
    us = []; mod = None
    for A in SIZES:
        T = "dstruct::Array<Elem, %dull>*" % A; V = VS.vec(tmp, T); vm = layout.extract("vector", tmp, ("DV_T=" + T,))       # the table
        for u in VS.units(V, VS.VecContracts(V).all()): u.mod = vm; u.special["#alloc"] = (8, 8); us.append(u)
        defs = ("DV_A=%d" % A,)
        mod = layout.extract("deque", tmp, defs)
        D = Deque(A, layout.offsets("deque_layout.hpp", OFFS, tmp, "deque%d" % A, defs)); us += units(D, mod)
        us += units(D, layout.extract("queue", tmp, defs), True)
    return mod, us


CLAIMS = {"C15": ("func", "(DoubleEndedQueue|Vector)<.*"), "C16": ("life", "(DoubleEndedQueue|Vector)<.*"), "C17": ("func", r"Queue<.*|DoubleEndedQueue<(3|32)>::(_only.*|_resize.*|push_back|.*iterator operator.*)$")}
