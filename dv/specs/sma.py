"""StaticMemAllocator.  The allocator object is raw memory: W[a] is what an 8-byte and Lo[a] what a 4-byte read at address a
gives.  Ghost state: free[b] (byte b of the pool lies in a free block), start[b] (the first byte of that block), cls[s] and sz[s]
(the free list a block starting at s is on, and its size).  The representation invariant says that the free blocks tile the free bytes and
that every list is its blocks in address order; the bytes in use are not mentioned by it.

As with the trees, facts about every byte / pair of bytes / list are instantiated for those the program or the proof has
touched, so every verification condition is ground; a goal about all of them is proved for fresh ones."""
from ..spec import *
from ..ir import INT
from ..engine import Soup
from ..loops import Cand, used_values

AL8 = z3.Function("multiple_of_8", I, B)        # trusted reading of % 8: sums of multiples are multiples
CNT = z3.Function("cnt", AIB, I)        # the number of bytes in a set of pool bytes


def _key(k): return (k.c, k.t)


# ------------------------------------------------------------------ universal facts, instantiated on demand
def reset(st):
    for k in ("#touch", "#data", "#univ", "#pair", "#heads", "#huniv", "#hpair"): st.ghost[k] = ()
    for k in ("#tset", "#hset", "#dset"): st.ghost[k] = frozenset()


def touch(st, *ks):
    """the addresses ks (in the pool) take part in the argument"""
    for k in ks:
        k = lin(k); g = st.ghost
        if k.const() or _key(k) in g["#tset"]: continue
        for f in g["#univ"]: st.assume(f(k))
        for f in g["#pair"]:
            for j in g["#touch"]: f.give(st, j, k); f.give(st, k, j)
        for f in g["#hpair"]:
            for h in g["#heads"]: f.give(st, h, k)
        g["#tset"] = g["#tset"] | {_key(k)}; g["#touch"] += (k,)


def dtouch(st, *ks):
    """the same without comparing them with the others"""
    for k in ks:
        k = lin(k); g = st.ghost
        if k.const() or _key(k) in g["#tset"] or _key(k) in g["#dset"]: continue
        for f in g["#univ"]: st.assume(f(k))
        g["#dset"] = g["#dset"] | {_key(k)}; g["#data"] += (k,)


def htouch(st, *hs):
    """the lists hs take part"""
    for h in hs:
        h = lin(h); g = st.ghost
        if _key(h) in g["#hset"]: continue
        for f in g["#huniv"]: st.assume(f(h))
        for f in g["#hpair"]:
            for k in g["#touch"]: f.give(st, h, k)
        g["#hset"] = g["#hset"] | {_key(h)}; g["#heads"] += (h,)


def univ(st, f):
    st.ghost["#univ"] += (f,)
    for k in st.ghost["#touch"] + st.ghost["#data"]: st.assume(f(k))


class Two:
    """a fact about two addresses, built once and instantiated by substitution"""
    X = Y = None

    def __init__(self, f): self.f = f; self.parts = None

    def give(self, st, i, j):
        if self.parts is None:
            if Two.X is None: Two.X = fresh("#x"); Two.Y = fresh("#y")
            g = Z(self.f(Two.X, Two.Y)); self.parts = g.children() if z3.is_and(g) else [g]
        i, j = Z(i), Z(j)
        for p in self.parts: st.assume(z3.substitute(p, (Two.X.z(), i), (Two.Y.z(), j)))


def pair(st, f):
    f = Two(f); st.ghost["#pair"] += (f,); ks = st.ghost["#touch"]
    for i in ks:
        for j in ks:
            if i is not j: f.give(st, i, j)


def huniv(st, f):
    st.ghost["#huniv"] += (f,)
    for h in st.ghost["#heads"]: st.assume(f(h))


def hpair(st, f):
    f = Two(f); st.ghost["#hpair"] += (f,)
    for h in st.ghost["#heads"]:
        for k in st.ghost["#touch"]: f.give(st, h, k)


# ------------------------------------------------------------------ the allocator in one memory
class Mem:
    def __init__(self, S, st, **kw):
        f = st.soups["sma"].f; g = st.ghost; self.S = S; self.B = g["#B"]
        self.P = self.B + S.oP; self.E = self.P + S.M; self.H = self.B + S.oH
        self.W = lambda x, a=f["w8"]: sel(a, x)
        self.Lo = lambda x, a=f["w4"]: sel(a, x)
        self.free = lambda b, a=g["free"]: selb(a, b)
        self.start = lambda b, a=g["start"]: sel(a, b)
        self.cls = lambda b, a=g["cls"]: sel(a, b)
        self.size = lambda b, a=g["sz"]: sel(a, b)
        self.__dict__.update(kw)

    def but(self, **kw):
        m = Mem.__new__(Mem); m.__dict__ = dict(self.__dict__); m.__dict__.update(kw)
        return m

    def inside(self, b): return And(LE(self.P, b), LT(b, self.E))
    def blk(self, s): return And(self.free(s), EQ(self.start(s), s))
    def pool(self, s): return And(self.blk(s), EQ(self.cls(s), self.S.L))
    def hd(self, i): return self.H + lin(i) * 8
    def head(self, i): return self.W(self.hd(i))
    def node(self, x, l): return Or(EQ(x, self.hd(l)), And(self.inside(x), self.blk(x), EQ(self.cls(x), l)))
    def key(self, x): return ite(LE(self.H, x), Lin(0), x)
    def counter(self): return self.Lo(self.B)


def al8(x):
    """x is a multiple of 8 (terms with a coefficient divisible by 8 do not matter)"""
    x = lin(x); r = Lin(x.c % 8, tuple((a, k) for a, k in x.t if k % 8))
    if not r.t: return TRUE if r.c == 0 else FALSE
    return AL8(r.z())


def al(M, x): return al8(lin(x) - M.B)


def is8(st, x):
    """x is written as a multiple of 8"""
    if z3.is_true(al8(x)): st.assume(AL8(Z(x)))


def one(M, b):
    s = M.start(b); L = M.S.L
    return [("every free byte lies in a free block of the pool", "inv", Imp(M.free(b), And(M.inside(b), M.inside(s), M.blk(s), LE(s, b), LT(b, s + M.size(s))))),
            ("every free block is aligned, has its list's size and ends inside the pool", "inv", Imp(M.blk(b), And(M.inside(b), LE(0, M.cls(b)), LE(M.cls(b), L), al(M, b), LE(b + M.size(b), M.E), ite(EQ(M.cls(b), L), And(EQ(M.size(b), M.Lo(b + 8)), LE(16, M.size(b)), al8(M.size(b))), EQ(M.size(b), (M.cls(b) + 1) * 8))))),
            ("the successor of a free block is a later block of the same list", "inv", Imp(And(M.blk(b), NE(M.W(b), 0)), And(M.inside(M.W(b)), M.blk(M.W(b)), EQ(M.cls(M.W(b)), M.cls(b)), LT(b, M.W(b)))))]


def two(M, s, b):
    return [("free blocks do not overlap", "inv", Imp(And(M.blk(s), LE(s, b), LT(b, s + M.size(s))), And(M.free(b), EQ(M.start(b), s)))),
            ("no block of a list is skipped", "inv", Imp(And(M.blk(s), M.blk(b), EQ(M.cls(s), M.cls(b)), LT(s, b)), And(NE(M.W(s), 0), LE(M.W(s), b))))]


def hone(M, i):
    h = M.head(i)
    return [("the first entry of a list is a block of that list", "inv", Imp(And(LE(0, i), LE(i, M.S.L), NE(h, 0)), And(M.inside(h), M.blk(h), EQ(M.cls(h), i))))]


def htwo(M, i, b):
    h = M.head(i)
    return [("every free block is on its list", "inv", Imp(And(LE(0, i), LE(i, M.S.L), M.blk(b), EQ(M.cls(b), i)), And(NE(h, 0), LE(h, b))))]


def conj(l): return And(*[f for _, _, f in l])


def know(st, M, cheap=False):
    """the representation invariant holds in M"""
    if cheap: return
    if "#hd8" not in st.ghost: st.ghost["#hd8"] = True; huniv(st, lambda i: AL8(Z(M.hd(i) - M.B)))
    univ(st, lambda b: conj(one(M, b))); univ(st, lambda b: And(conj(two(M, b, b + 8)[:1]), Imp(M.blk(b), And(LE(8, M.size(b)), al8(M.size(b)))))); pair(st, lambda s, b: conj(two(M, s, b))); huniv(st, lambda i: conj(hone(M, i))); hpair(st, lambda i, b: conj(htwo(M, i, b)))


def around(st, mems, *bs):
    for b in bs:
        touch(st, b); dtouch(st, b + 8)
        for M in mems: touch(st, M.start(b), M.W(b)); dtouch(st, M.start(b) + 8)


def check(ex, st, M, mems=(), what="result"):
    """the representation invariant, as obligations"""
    if ex.dry: return
    ms = [M] + list(mems)
    x = st.fork(); b = fresh("b"); around(x, ms, b)
    for nm, kind, g in one(M, b): ex.oblige(x, "%s: %s" % (what, nm), g, kind)
    x = st.fork(); s, b = fresh("s"), fresh("b"); around(x, ms, s, b)
    for nm, kind, g in two(M, s, b): ex.oblige(x, "%s: %s" % (what, nm), g, kind)
    x = st.fork(); i = fresh("i"); htouch(x, i)
    for m in ms: touch(x, m.head(i))
    for nm, kind, g in hone(M, i): ex.oblige(x, "%s: %s" % (what, nm), g, kind)
    x = st.fork(); i, b = fresh("i"), fresh("b"); htouch(x, i); around(x, ms, b)
    for m in ms: touch(x, m.head(i))
    for nm, kind, g in htwo(M, i, b): ex.oblige(x, "%s: %s" % (what, nm), g, kind)


def goal(st, M, mems=()):
    """the representation invariant, as one formula over fresh addresses"""
    ms = [M] + list(mems)

    def g1(x): b = fresh("b"); around(x, ms, b); return And(*[f for _, _, f in one(M, b)])

    def g2(x): s, b = fresh("s"), fresh("b"); around(x, ms, s, b); return And(*[f for _, _, f in two(M, s, b)])

    def g3(x):
        i = fresh("i"); htouch(x, i)
        for m in ms: touch(x, m.head(i))
        return conj(hone(M, i))

    def g4(x):
        i, b = fresh("i"), fresh("b"); htouch(x, i); around(x, ms, b)
        for m in ms: touch(x, m.head(i))
        return conj(htwo(M, i, b))
    return And(alone(st, g1), alone(st, g2), alone(st, g3), alone(st, g4))


def alone(st, f):
    """f with the facts about what only it touches"""
    x = st.fork(); g = f(x)
    return Imp(And(*[Z(h) for h in x.facts[len(st.facts):]]), g)


class Sma:
    def __init__(self, M, MB, offs):
        self.M = M; self.MB = MB; self.L = MB // 8; self.size, self.oF, self.oP, self.oH = offs
        self.cls = r"dstruct::StaticMemAllocator<%d, %d>::" % (M, MB)

    def start(self, ex, known=True):
        st = State(); reset(st)
        B = fresh("sma@", tag="sma"); st.ghost["#B"] = B
        st.assume(And(LT(0, B), LE(B + self.size, E.MAXADDR), B.z() % 8 == 0))
        sp = Soup("sma", {}, self.size, 0, flat=(B, self.size)); sp.dom = z3.K(I, FALSE); sp.ldom = sp.dom
        sp.f = {"w8": freshA("W"), "w4": freshA("Lo")}; st.soups["sma"] = sp
        st.ghost["free"] = freshAB("free")
        for k in ("start", "cls", "sz"): st.ghost[k] = freshA(k)
        M = Mem(self, st)
        if known: know(st, M); htouch(st, self.L)
        return st, {"M": M, "B": B, "free": st.ghost["free"]}

    def account(self, st, M):
        """the counter is the number of free bytes"""
        st.assume(And(EQ(M.counter(), lin(CNT(st.ghost["free"]))), LE(0, M.counter()), LE(M.counter(), self.M)))


def set_free(st, f):
    """a new set of free bytes, described byte by byte"""
    a = freshAB("free"); st.ghost["free"] = a; univ(st, lambda b: selb(a, b) == f(b))
    return a


def set_map(st, key, f):
    a = freshA(key); st.ghost[key] = a; univ(st, lambda b: EQ(sel(a, b), f(b)))


def within(b, a, s): return And(LE(a, b), LT(b, a + s))


# ------------------------------------------------------------------ what the program touches
def onaccess(ex, st, a):
    B = st.ghost["#B"]; d = a - B
    if any(x == B.t[0][0] and k == 1 for x, k in a.t):
        S = st.ghost["#S"]
        if d.const() and d.c < S.oH:
            if d.c >= S.oP: touch(st, a)
        else:
            i = (d - S.oH).div(8)
            if i is not None: htouch(st, i)
            else: touch(st, a)
    elif a.c == 8: touch(st, a - 8); dtouch(st, a)
    else: touch(st, a)


def onload(ex, st, r, v):
    if r.field == "w8": touch(st, v)


def memset(ex, st, d, v, n):
    B = st.ghost["#B"]
    if not (any(x == B.t[0][0] for x, k in d.t) and n.const()): return ex.memset(st, d, v, n)
    sp = st.soups["sma"].copy(); st.soups["sma"] = sp
    ex.oblige(st, "memset stays inside the object", And(LE(B, d), LE(d + n, B + sp.flat[1])))
    for k in ("w8", "w4"):
        o = sp.f[k]; a = freshA(k); sp.f[k] = a
        univ(st, lambda x, a=a, o=o: Imp(Or(LE(x + 8, d), LE(d + n, x)), EQ(sel(a, x), sel(o, x))))
    dtouch(st, B)
    return [(st, None)]


# ------------------------------------------------------------------ contracts of the internal functions
def same_elsewhere(S, M0, M1, hit):
    """what is outside the block and its list is not written: a fact about an address and one about a list"""
    a, s, idx, free = hit

    def byte(x):
        touched = Or(within(x, a, s), And(M0.blk(x), EQ(M0.cls(x), idx)))
        return Imp(And(M0.inside(x), Not(touched)), And(EQ(M1.W(x), M0.W(x)), EQ(M1.Lo(x), M0.Lo(x))))
    return byte, lambda i: Imp(And(LE(0, i), LE(i, S.L), NE(i, idx)), EQ(M1.head(i), M0.head(i)))


def havoc(st):
    sp = st.soups["sma"].copy(); sp.f = {"w8": freshA("W"), "w4": freshA("Lo")}; st.soups["sma"] = sp
    st.ghost["#havoc"] = st.ghost.get("#havoc", 0) + 1


def inserted(st, M1, a, s, idx):
    """ghost code: [a, a + s) becomes a free block of list idx"""
    set_free(st, lambda b: Or(M1.free(b), within(b, a, s)))
    set_map(st, "start", lambda b: ite(within(b, a, s), a, M1.start(b)))
    set_map(st, "cls", lambda b: ite(EQ(b, a), idx, M1.cls(b))); set_map(st, "sz", lambda b: ite(EQ(b, a), s, M1.size(b))); is8(st, s)


def index(S, st, s):
    """the list for blocks of s bytes"""
    i = fresh("list"); st.assume(ite(LE(s, 8 * S.L), EQ(s, (i + 1) * 8), EQ(i, S.L)))
    return i


class SmaContracts:
    def __init__(self, S): self.S = S

    def insert(self, ex, st, args, dem):
        S = self.S; a = ex.as_int(args[1]); s = ex.as_int(args[2]); out = []; M0 = Mem(S, st)
        ex.oblige(st, "the allocator is the object itself", EQ(ex.as_int(args[0]), st.ghost["#B"]), "pre")
        no = st.fork()
        if ex.feasible(no, LE(s, 0)): no.assume(LE(s, 0)); out.append((no, None))
        if not ex.feasible(st, LT(0, s)): return out
        st.assume(LT(0, s)); touch(st, a); dtouch(st, a + 8)
        ex.oblige(st, "the block to insert is aligned and lies in the pool", And(LE(M0.P, a), LE(a + s, M0.E), al(M0, a), al8(s)), "pre")
        f1 = set_free(st, lambda b: And(M0.free(b), Not(within(b, a, s)))); M1 = M0.but(free=lambda b: selb(f1, b))
        check(ex, st, M1, [M0], "before insertion")
        idx = index(S, st, s); havoc(st); inserted(st, M1, a, s, idx)
        M2 = Mem(S, st); know(st, M2, ex.cheap)
        byte, hd = same_elsewhere(S, M1, M2, (a, s, idx, None)); univ(st, byte); huniv(st, hd)
        st.assume(And(EQ(M2.counter(), M1.counter()), EQ(M2.size(a), s)))
        return out + [(st, None)]

    def taken(self, st, M0, t, l):
        """ghost code and frame: the block t of list l is taken off"""
        S = self.S; s = fresh("q") * 8; st.assume(And(EQ(M0.size(t), s), M0.blk(t), M0.inside(t), EQ(M0.cls(t), l))); is8(st, s); touch(st, t); dtouch(st, t + 8)
        havoc(st); set_free(st, lambda b: And(M0.free(b), Not(within(b, t, s))))
        M2 = Mem(S, st); know(st, M2); univ(st, lambda x: Imp(And(M0.inside(x), Not(M0.free(x))), And(EQ(M2.W(x), M0.W(x)), EQ(M2.Lo(x), M0.Lo(x)))))
        st.assume(EQ(M2.counter(), M0.counter()))
        return s

    def take(self, pool):
        def f(ex, st, args, dem):
            S = self.S; n = ex.as_int(args[1]); M0 = Mem(S, st); out = []
            ex.oblige(st, "the allocator is the object itself", EQ(ex.as_int(args[0]), st.ghost["#B"]), "pre")
            ex.oblige(st, "the request is positive" + ("" if pool else " and not above the limit"), And(LT(0, n), LE(n, S.M if pool else S.MB)), "pre")
            check(ex, st, M0, [], "before taking a block")
            no = st.fork(); univ(no, nothing(S, M0, n, pool))
            if ex.feasible(no): out.append((no, (Lin(0), E.UNDEF if pool else Lin(0))))
            t = fresh("t", tag="sma"); l = Lin(S.L) if pool else fresh("list"); st.assume(And(LE(M0.P, t), LT(t, M0.E), LE(0, l), TRUE if pool else LT(l, S.L)))
            s = self.taken(st, M0, t, l); st.assume(LE(n, s))
            return out + [(st, (t, s))]
        return f

    def merge(self, pool):
        def f(ex, st, args, dem):
            S = self.S; M0 = Mem(S, st)
            ex.oblige(st, "the allocator is the object itself", EQ(ex.as_int(args[0]), st.ghost["#B"]), "pre")
            check(ex, st, M0, [], "before merging")
            havoc(st)
            for k in ("start", "cls", "sz"): st.ghost[k] = freshA(k)
            M2 = Mem(S, st); know(st, M2)           # the set of free bytes is the same
            univ(st, lambda x: Imp(And(M0.inside(x), Not(M0.free(x))), And(EQ(M2.W(x), M0.W(x)), EQ(M2.Lo(x), M0.Lo(x)))))
            st.assume(EQ(M2.counter(), M0.counter()))
            if pool: univ(st, lambda y: apart(M2, y))
            return [(st, None)]
        return f

    def all(self):
        c = self.S.cls
        def inst(ex, st, args, dem): return [(st, st.ghost["#B"])]
        return [Contract("insert", c + r"insert_mem_block_to_list_d\(void\*, int\)", self.insert), Contract("quick", c + r"quick_mem_allocate_d\(int\)", self.take(False)),
                Contract("pool", c + r"mem_pool_allocate_d\(int\)", self.take(True)), Contract("quick merge", c + r"quick_mem_memory_merge_d\(\)", self.merge(False)),
                Contract("pool merge", c + r"mem_pool_memory_merge_d\(\)", self.merge(True)), Contract("Instance_", c + r"Instance_\(\)", inst)]


def nothing(S, M, n, pool):
    """no block that was looked at is large enough"""
    return lambda y: Imp(And(M.blk(y), EQ(M.cls(y), S.L) if pool else LT(M.cls(y), S.L)), LT(M.size(y), n))


def fits(M, y, f):
    """lemma on counting: a block is not larger than the number of free bytes"""
    return Imp(M.blk(y), LE(M.size(y), lin(CNT(f))))


def removed(M0, M1, f0, f1, t, r):
    """lemma on counting: taking r free bytes away"""
    return EQ(lin(CNT(f1)), lin(CNT(f0)) - r)


def apart(M, y): return Imp(M.pool(y), Not(M.pool(y + M.size(y))))


# ------------------------------------------------------------------ loop invariants
def candidates(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    S = entry.ghost.get("#S")
    if S is None: return []
    out = []; ME = Mem(S, entry); changed = any(n == "sma" for n, _ in hv.soups) or bool(hv.ghosts & {"free", "start", "cls", "sz"})
    now = lambda c: Mem(S, c.st)
    isp = lambda v: any(AT.meta[a].get("tag") == "sma" for a in v.atoms())
    small = set(ins.res for b in f.blocks.values() for ins in b if ins.op == "phi" and ex.m.size(ins.ty) == 1)
    ptrs = []; ints = [("L", lambda c: Lin(S.L))]; flags = []
    for i in ivars:
        if isp(lvars[i].head): ptrs.append((lvars[i].name, lambda c, i=i: c.v[i]))
        else:
            ints.append((lvars[i].name, lambda c, i=i: c.v[i]))
            if lvars[i].name in small: flags.append((lvars[i].name, lambda c, i=i: c.v[i]))
    lp, li = list(ptrs), ints[1:]; used = used_values(f, ex.curloop); seen = set(); B = entry.ghost["#B"].t[0][0]
    for n, v in entry_env.items():
        if n not in henv or henv[n] is not v or not isinstance(v, Lin) or v.const() or _key(v) in seen: continue
        if not isp(v): ints.append((n, lambda c, v=v: v))
        elif B not in v.atoms() and n in used: ptrs.append((n, lambda c, v=v: v))
        else: continue
        seen.add(_key(v))
    add = lambda name, fn, use=None: out.append(Cand(name, fn, True, use))

    def tch(c):
        for n, g in ptrs: touch(c.st, g(c))
        for n, g in li: htouch(c.st, g(c))
    add("pointers take part", lambda c: TRUE, tch)
    if changed:
        def rchk(c): tch(c); return goal(c.st, now(c), [ME])
        add("the free lists are well formed", rchk, lambda c: know(c.st, now(c)))
        add("the counter stays", lambda c: EQ(now(c).counter(), ME.counter()))

        def schk(c): b = fresh("b"); return alone(c.st, lambda x: (around(x, [now(c), ME], b), now(c).free(b) == ME.free(b))[1])
        add("the same bytes are free", schk, lambda c: univ(c.st, lambda b, M=now(c): M.free(b) == ME.free(b)))

        def fr(M): return lambda x: Imp(And(ME.inside(x), Not(ME.free(x))), And(EQ(M.W(x), ME.W(x)), EQ(M.Lo(x), ME.Lo(x))))
        def fchk(c): x = fresh("x"); return alone(c.st, lambda z: (touch(z, x), fr(now(c))(x))[1])
        add("bytes in use are not written", fchk, lambda c: univ(c.st, fr(now(c))))
    for n, g in flags: add("0 <= %s <= 1" % n, lambda c, g=g: And(LE(0, g(c)), LE(g(c), 1)))
    conds = [("", lambda c: TRUE)] + [("unless %s, " % n, lambda c, g=g: EQ(g(c), 0)) for n, g in flags]
    for n, g in ptrs:
        for ln, lg in ints:
            for cn, cg in conds:
                def nd(c, g=g, lg=lg, cg=cg): htouch(c.st, lg(c)); return Imp(cg(c), now(c).node(g(c), lg(c)))
                add("%s%s is a node of list %s" % (cn, n, ln), nd)
                add("%s%s is null or a block of list %s" % (cn, n, ln), lambda c, g=g, lg=lg, cg=cg: Imp(cg(c), Or(EQ(g(c), 0), And(now(c).inside(g(c)), now(c).blk(g(c)), EQ(now(c).cls(g(c)), lg(c))))))
                add("%s%s is a block of list %s" % (cn, n, ln), lambda c, g=g, lg=lg, cg=cg: Imp(cg(c), And(now(c).inside(g(c)), now(c).blk(g(c)), EQ(now(c).cls(g(c)), lg(c)))))
        for n2, g2 in ptrs:
            if n2 == n: continue
            for cn, cg in conds: add("%s%s follows %s" % (cn, n2, n), lambda c, g=g, g2=g2, cg=cg: Imp(cg(c), EQ(now(c).W(g(c)), g2(c))))
            if n in [x for x, _ in lp] or n2 in [x for x, _ in lp]: add("%s is before %s" % (n, n2), lambda c, g=g, g2=g2: LT(now(c).key(g(c)), g2(c)))
            for fn, fg in flags: add("once %s, after %s comes null or what comes after %s" % (fn, n, n2), lambda c, g=g, g2=g2, fg=fg: Or(EQ(fg(c), 0), EQ(now(c).W(g(c)), 0), LT(g2(c), now(c).W(g(c)))))
            if changed: add("after %s comes null or what is after %s" % (n, n2), lambda c, g=g, g2=g2: Or(EQ(now(c).W(g(c)), 0), LE(g2(c), now(c).W(g(c)))))
            if n in [x for x, _ in lp] or n2 in [x for x, _ in lp]: add("%s is 0 or at %s" % (n, n2), lambda c, g=g, g2=g2: Or(EQ(g(c), 0), EQ(now(c).W(g2(c)), g(c))))

    def every(name, ok):
        def chk(c): y = fresh("y"); tch(c); return alone(c.st, lambda z: (around(z, [now(c), ME] if changed else [ME], y), ok(c)(y))[1])
        add(name, chk, lambda c: univ(c.st, ok(c)))
    for n, g in lp:
        for vn, vg in ints[1:]:
            every("blocks of the pool list before %s are at most %s" % (n, vn), lambda c, g=g, vg=vg: lambda y, M=now(c): Imp(And(M.pool(y), Or(EQ(g(c), 0), LT(y, g(c)))), LE(M.size(y), vg(c))))
            every("blocks of the pool list up to %s are smaller than %s" % (n, vn), lambda c, g=g, vg=vg: lambda y, M=now(c): Imp(And(M.pool(y), LE(y, M.key(g(c)))), LT(M.size(y), vg(c))))
        if changed:
            def ap(c, g=g):
                M = now(c); return lambda y: Imp(And(M.pool(y), Or(EQ(g(c), 0), LT(y, g(c)))), Not(M.pool(y + M.size(y))))
            def achk(c, g=g, ap=ap):
                y = fresh("y"); M = now(c); tch(c)
                return alone(c.st, lambda z: (touch(z, y), dtouch(z, y + 8), touch(z, M.W(y), y + M.size(y), y + ME.size(y)), ap(c)(y))[-1])
            add("no neighbours in the pool list before %s" % n, achk, lambda c, ap=ap: univ(c.st, ap(c)))
    for i in ivars:
        if isp(lvars[i].head) or lvars[i].entry.t and isp(lvars[i].entry): continue
        x0 = lvars[i].entry
        for nm, rg in (("from the start up to", lambda c, h, i=i, x0=x0: And(LE(x0, h), LT(h, c.v[i]))), ("above", lambda c, h, i=i, x0=x0: And(LT(c.v[i], h), LE(h, x0)))):
            def hok(c, rg=rg): return lambda h, M=now(c): Imp(And(LE(0, h), LE(h, S.L), rg(c, h)), EQ(M.head(h), 0))
            def hchk(c, hok=hok): h = fresh("h"); tch(c); return alone(c.st, lambda z: (htouch(z, h), hok(c)(h))[1])
            add("lists %s %s are empty" % (nm, lvars[i].name), hchk, lambda c, hok=hok: huniv(c.st, hok(c)))
        if "#v0" in entry.ghost: add("%s is 0 unless the pool list has a block" % lvars[i].name, lambda c, i=i: Or(EQ(c.v[i], 0), NE(now(c).head(Lin(S.L)), 0))); add("%s is 0 or the size of a block" % lvars[i].name, lambda c, i=i: Or(EQ(c.v[i], 0), NE(c.v[i], c.st.ghost["#v0"])))
    return out


def measures(ex, c):
    return None


def along(which):
    """a pointer moves towards the end of the pool"""
    def m(ex, c):
        st = c.st; S = st.ghost["#S"]; M = Mem(S, st)
        ps = [v for v in c.v if isinstance(v, Lin) and any(AT.meta[a].get("tag") == "sma" for a in v.atoms())]
        if which[0] >= len(ps): return None
        x = ps[which[0]]; touch(st, x)
        if which[1] == 0: return ite(EQ(x, 0), Lin(0), M.E - M.key(x))
        return ite(EQ(x, 0), Lin(0), ite(EQ(M.W(x), 0), Lin(1), M.E + 2 - M.W(x)))
    return m


def left(k):
    """a counter below the number of lists goes up"""
    def m(ex, c):
        S = c.st.ghost["#S"]; ps = [v for v in c.v if isinstance(v, Lin) and not any(AT.meta[a].get("tag") == "sma" for a in v.atoms())]
        return Lin(S.L) - ps[k] + 1 if k < len(ps) else None
    return m


MEASURES = [left(0), left(1)] + [along((i, k)) for k in (0, 1) for i in (0, 1, 2)]


# ------------------------------------------------------------------ units
def unchanged_use(ex, st, M0, what="bytes in use are not written"):
    x = st.fork(); M1 = Mem(M0.S, st); b = fresh("x"); around(x, [M0, M1], b)
    ex.oblige(x, what, Imp(And(M0.inside(b), Not(M0.free(b))), And(EQ(M1.W(b), M0.W(b)), EQ(M1.Lo(b), M0.Lo(b)))), "post")


def units(S):
    us = []; pfx = "StaticMemAllocator<%d,%d>::" % (S.M, S.MB); cs = SmaContracts(S).all()
    special = {"#slots": ("sma",), "#partial": True, "#onaccess": onaccess, "#onload": onload, "#memset": memset, "#measures": MEASURES, "#aligned": al8, "#quickhavoc": True, "#consts": [lambda ex, st: [("L", Lin(S.L))]]}

    def U(name, fn, setup, post, off=(), **kw):
        u = Unit(pfx + name, "re:" + S.cls + fn, setup, post, contracts=cs, off=off, special=dict(special), templates=[candidates], **kw); us.append(u)
        return u

    def start(ex, known=True):
        st, c = S.start(ex, known); st.ghost["#S"] = S
        return st, c

    def request(st, hi, lo=1):
        """a request of n bytes, which is 8k when rounded"""
        k, e = fresh("k"), fresh("e"); n = k * 8 - e; st.assume(And(LE(0, e), LT(e, 8), LE(lo, n), LE(n, hi)))
        return n, k * 8

    # insertion into a list
    def s_ins(ex):
        res = []
        st, c = start(ex); M = c["M"]; a = fresh("a", tag="sma"); s = fresh("k") * 8
        st.assume(And(LT(0, s), LE(M.P, a), LE(a + s, M.E), al(M, a))); univ(st, lambda b: Imp(within(b, a, s), Not(M.free(b))))
        touch(st, a); dtouch(st, a + 8); c.update(a=a, s=s); res.append(("", st, [c["B"], a, s], c))
        st, c = start(ex); z = fresh("s"); st.assume(And(LE(z, 0), LE(-INTMAX, z))); res.append(("nothing", st, [c["B"], fresh("a", tag="sma"), z], c))
        return res

    def p_ins(ex, st, r, c):
        M0 = c["M"]
        if "a" not in c: return same_all(ex, st, c)
        a, s = c["a"], c["s"]; idx = index(S, st, s); inserted(st, M0, a, s, idx); M1 = Mem(S, st)
        check(ex, st, M1, [M0])
        byte, hd = same_elsewhere(S, M0, M1, (a, s, idx, None))
        x = st.fork(); b = fresh("x"); around(x, [M0, M1], b); ex.oblige(x, "what is outside the block and its list is not written", byte(b), "post")
        x = st.fork(); i = fresh("i"); htouch(x, i); ex.oblige(x, "other lists are not changed", hd(i), "post")
        ex.oblige(st, "the counter stays", EQ(M1.counter(), M0.counter()), "post"); ex.oblige(st, "the block has its size", EQ(M1.size(a), s), "post")

    def same_all(ex, st, c):
        sp = st.soups["sma"]; M0 = c["M"]
        x = fresh("x"); M1 = Mem(S, st)
        ex.oblige(st, "nothing is changed", And(EQ(M1.W(x), M0.W(x)), EQ(M1.Lo(x), M0.Lo(x)), M1.free(x) == M0.free(x)), "post")
    U("insert_mem_block_to_list_d", r"insert_mem_block_to_list_d\(void\*, int\)", s_ins, p_ins)

    # taking a block off a list
    def s_take(pool):
        def f(ex):
            st, c = start(ex); n, r = request(st, S.M if pool else S.MB); c.update(n=n, r=r)
            return [("", st, [c["B"], n], c)]
        return f

    def p_take(pool):
        def f(ex, st, r, c):
            M0, n = c["M"], c["r"]
            if not isinstance(r, tuple): raise ToolLimit("no result")
            t = ex.as_int(r[0])
            no = st.fork()
            if ex.feasible(no, EQ(t, 0)):
                no.assume(EQ(t, 0)); same_all(ex, no, c)
                y = fresh("y"); around(no, [M0], y); htouch(no, M0.cls(y)); ex.oblige(no, "null is returned only if no block is large enough", nothing(S, M0, n, pool)(y), "post")
            if not ex.feasible(st, NE(t, 0)): return
            st.assume(NE(t, 0)); touch(st, t); dtouch(st, t + 8); s = ex.as_int(r[1]); l = M0.cls(t)
            ex.oblige(st, "the result is a free block of at least the size, with its size", And(M0.inside(t), M0.blk(t), EQ(l, S.L) if pool else LT(l, S.L), EQ(s, M0.size(t)), LE(n, s)), "post")
            set_free(st, lambda b: And(M0.free(b), Not(within(b, t, s)))); M1 = Mem(S, st)
            check(ex, st, M1, [M0]); unchanged_use(ex, st, M0); ex.oblige(st, "the counter stays", EQ(M1.counter(), M0.counter()), "post")
        return f
    U("quick_mem_allocate_d", r"quick_mem_allocate_d\(int\)", s_take(False), p_take(False))
    U("mem_pool_allocate_d", r"mem_pool_allocate_d\(int\)", s_take(True), p_take(True))

    # the interface
    def s_alloc(ex):
        res = []
        for lab in ("", "not positive"):
            st, c = start(ex); S.account(st, c["M"])
            if lab: n = fresh("n"); st.assume(And(LE(-INTMAX - 1, n), LE(n, 0))); c.update(n=n, r=None)
            else: n, r = request(st, INTMAX); is8(st, r); c.update(n=n, r=r)
            res.append((lab, st, [n], c))
        return res

    def p_alloc(ex, st, ret, c):
        M0, n, r = c["M"], c["n"], c["r"]; t = ex.as_int(ret); g = st.ghost
        no = st.fork()
        if ex.feasible(no, EQ(t, 0)):
            no.assume(EQ(t, 0)); same_all(ex, no, c)
            if r is not None:
                y = fresh("y"); around(no, [M0], y); no.assume(fits(M0, y, c["free"]))
                ex.oblige(no, "null is returned only if no free block is large enough", Imp(M0.blk(y), LT(M0.size(y), r)), "post")
        if not ex.feasible(st, NE(t, 0)): return
        st.assume(NE(t, 0)); touch(st, t)
        if r is None: return ex.oblige(st, "a request of nothing gives null", FALSE, "post")
        M1 = Mem(S, st)
        ex.oblige(st, "the block is aligned and inside the pool", And(al(M0, t), LE(M0.P, t), LE(t + r, M0.E)), "post")
        x = st.fork(); b = fresh("b"); around(x, [M0, M1], b)
        ex.oblige(x, "every byte of the block was free and no other byte changes hands", And(Imp(within(b, t, r), M0.free(b)), M1.free(b) == And(M0.free(b), Not(within(b, t, r)))), "post")
        st.assume(removed(M0, M1, c["free"], g["free"], t, r))          # see the lemma on counting
        ex.oblige(st, "the counter is the number of free bytes", EQ(M1.counter(), lin(CNT(g["free"]))), "post")
        ex.oblige(st, "the counter goes down by the rounded size", EQ(M1.counter(), M0.counter() - r), "post")
        check(ex, st, M1, [M0]); unchanged_use(ex, st, M0)

    def s_free(ex):
        res = []
        st, c = start(ex); M = c["M"]; S.account(st, M); n, r = request(st, S.M); a = fresh("a", tag="sma"); is8(st, r)
        st.assume(And(LE(M.P, a), LE(a + r, M.E), al(M, a))); univ(st, lambda b: Imp(within(b, a, r), Not(M.free(b))))
        touch(st, a); dtouch(st, a + 8); c.update(a=a, r=r); res.append(("", st, [a, n], c))
        st, c = start(ex); z = fresh("n"); st.assume(And(LE(-INTMAX - 1, z), LE(z, 0))); res.append(("not positive", st, [fresh("a", tag="sma"), z], c))
        st, c = start(ex); z = fresh("n"); st.assume(And(LE(-INTMAX - 1, z), LE(z, INTMAX))); res.append(("null", st, [Lin(0), z], c))
        return res

    def p_free(ex, st, ret, c):
        M0 = c["M"]; ok = ex.as_bool(ret)
        if "a" not in c:
            ex.oblige(st, "nothing is returned: false", Not(ok), "post"); return same_all(ex, st, c)
        a, r = c["a"], c["r"]; M1 = Mem(S, st); g = st.ghost
        ex.oblige(st, "returning a block gives true", ok, "post")
        x = st.fork(); b = fresh("b"); around(x, [M0, M1], b)
        ex.oblige(x, "the bytes of the block are free and no other byte changes hands", M1.free(b) == Or(M0.free(b), within(b, a, r)), "post")
        st.assume(removed(M1, M0, g["free"], c["free"], a, r))
        ex.oblige(st, "the counter is the number of free bytes", EQ(M1.counter(), lin(CNT(g["free"]))), "post")
        ex.oblige(st, "the counter goes up by the rounded size", EQ(M1.counter(), M0.counter() + r), "post")
        check(ex, st, M1, [M0])
        x = st.fork(); b = fresh("x"); around(x, [M0, M1], b)
        ex.oblige(x, "bytes in use are not written", Imp(And(M0.inside(b), Not(M0.free(b)), Not(within(b, a, r))), And(EQ(M1.W(b), M0.W(b)), EQ(M1.Lo(b), M0.Lo(b)))), "post")
    U("allocate", r"allocate\(int\)", s_alloc, p_alloc)
    U("deallocate", r"deallocate\(void\*, int\)", s_free, p_free)

    def s_plain(ex):
        st, c = start(ex); S.account(st, c["M"])
        return [("", st, [], c)]

    def p_size(ex, st, ret, c):
        ex.oblige(st, "the result is the number of free bytes", EQ(ex.as_int(ret), lin(CNT(c["free"]))), "post"); same_all(ex, st, c)
    U("free_mem_size", r"free_mem_size\(\)", s_plain, p_size)

    def s_max(ex):
        st, c = start(ex); M = c["M"]; S.account(st, M); v = fresh("v"); st.ghost["#v0"] = v; univ(st, lambda y: Imp(M.pool(y), NE(M.size(y), v))); c["v"] = v
        return [("", st, [], c)]

    def p_max(ex, st, ret, c):
        """v is any value that is not the size of a pool block: the result is not v"""
        M, v = c["M"], c["v"]; m = ex.as_int(ret); y, z = fresh("y"), fresh("z"); same_all(ex, st.fork(), c); htouch(st, S.L); touch(st, M.head(Lin(S.L)))
        around(st, [M], y, z); htouch(st, M.cls(y), M.cls(z)); some = NE(M.head(Lin(S.L)), 0)
        ex.oblige(st, "the pool list is empty exactly if it has no block", Imp(M.pool(y), some), "post")
        ex.oblige(st, "no block of the pool list is larger than the result", Imp(M.pool(y), LE(M.size(y), m)), "post")
        ex.oblige(st, "the result is the size of a block of the pool list if there is one", Imp(some, NE(m, v)), "post")
        ex.oblige(st, "otherwise no block is larger than the result", Imp(And(Not(some), M.blk(y)), LE(M.size(y), m)), "post")
        l = fresh("l"); x = st.fork(); x.assume(And(Not(some), LE(0, l), LT(l, S.L), EQ(m, (l + 1) * 8))); htouch(x, l); touch(x, M.head(l))
        ex.oblige(x, "and a result above 0 is the size of a block", Imp(LT(0, m), And(M.blk(M.head(l)), EQ(M.size(M.head(l)), m))), "post")
        k = fresh("k"); ex.oblige(st, "or 0 if there is no block at all", Imp(Not(some), And(LE(0, m), LE(m, 8 * S.L))), "post")
    U("max_free_mblock_size", r"max_free_mblock_size\(\)", s_max, p_max)

    def p_merge(pool, quick=True):
        def f(ex, st, ret, c):
            M0 = c["M"]; M1 = Mem(S, st); g = st.ghost
            x = st.fork(); b = fresh("b"); around(x, [M0, M1], b); ex.oblige(x, "the same bytes are free", M1.free(b) == M0.free(b), "post")
            ex.oblige(st, "the counter stays", EQ(M1.counter(), M0.counter()), "post")
            check(ex, st, M1, [M0]); unchanged_use(ex, st, M0)
            if pool:
                x = st.fork(); y = fresh("y"); around(x, [M0, M1], y); touch(x, y + M1.size(y), y + M0.size(y))
                ex.oblige(x, "no two neighbouring blocks of the pool list are left", apart(M1, y), "post")
        return f

    def s_merge(ex):
        st, c = start(ex)
        return [("", st, [c["B"]], c)]
    U("memory_merge", r"memory_merge\(\)", s_plain, p_merge(True))
    def grow(ex, st, s, r, v):
        """ghost code: writing the size v of a pool block makes [block, block + v) that block"""
        if r.field != "w4": return
        a = r.key - 8; v = lin(v)
        if len(v.t) == 2 and all(k == 1 for _, k in v.t): st.assume(Imp(And(*[AL8(Lin(0, ((x, 1),)).z()) for x, _ in v.t], FALSE if v.c % 8 else TRUE), AL8(v.z())))
        M0 = Mem(S, st); touch(st, a); dtouch(st, a + 8)
        set_map(st, "start", lambda b: ite(within(b, a, v), a, M0.start(b))); set_map(st, "sz", lambda b: ite(EQ(b, a), v, M0.size(b)))

    def s_pmerge(ex):
        if grow not in ex.soup_rules: ex.soup_rules.append(grow)
        return s_merge(ex)
    U("mem_pool_memory_merge_d", r"mem_pool_memory_merge_d\(\)", s_pmerge, p_merge(True))
    U("quick_mem_memory_merge_d", r"quick_mem_memory_merge_d\(\)", s_merge, p_merge(False))

    # the start
    def s_ctor(ex):
        st, c = start(ex, False)
        return [("", st, [c["B"]], c)]

    def p_ctor(ex, st, ret, c):
        M = Mem(S, st); set_free(st, lambda b: M.inside(b))
        for k, v in (("start", M.P), ("cls", Lin(S.L)), ("sz", Lin(S.M))): set_map(st, k, lambda b, v=v: v)
        is8(st, Lin(S.M)); is8(st, Lin(S.oP)); M = Mem(S, st); touch(st, M.P); dtouch(st, M.P + 8); check(ex, st, M)
        ex.oblige(st, "the counter is the size of the pool, and all of it is free", EQ(M.counter(), S.M), "post")
        induct(ex, st, M, "all bytes free", lambda x: EQ(count(st.ghost["free"], x), x - M.P), [st.ghost["free"]])
    U("StaticMemAllocator()", r"StaticMemAllocator\(\)", s_ctor, p_ctor)

    # lemmas on counting and on writing to blocks in use; they hang on the function that rounds
    def s_round(ex):
        st, c = start(ex); n, r = request(st, INTMAX - 8, -INTMAX); c.update(r=r)
        return [("", st, [n], c)]

    def p_round(ex, st, ret, c):
        M = c["M"]; f = c["free"]
        ex.oblige(st, "sizes are rounded up to a multiple of 8", EQ(ex.as_int(ret), c["r"]), "post")
        x = st.fork(); t, r = fresh("t"), fresh("r"); f1 = freshAB("free"); x.assume(And(LE(M.P, t), LE(0, r), LE(t + r, M.E))); univ(x, lambda b: And(selb(f1, b) == And(M.free(b), Not(within(b, t, r))), Imp(within(b, t, r), M.free(b))))
        induct(ex, x, M, "taking a range away", lambda y: EQ(count(f1, y), count(f, y) - clamp(y - t, r)), [f, f1])
        x = st.fork(); t, r = fresh("t"), fresh("r"); x.assume(And(LE(M.P, t), LE(0, r), LE(t + r, M.E))); univ(x, lambda b: Imp(within(b, t, r), M.free(b)))
        induct(ex, x, M, "a range of free bytes", lambda y: LE(clamp(y - t, r), count(f, y)), [f])
        induct(ex, st.fork(), M, "the count is in range", lambda y: And(LE(0, count(f, y)), LE(count(f, y), y - M.P)), [f])
        x = st.fork(); f1 = freshAB("free"); univ(x, lambda b: selb(f1, b) == M.free(b))
        induct(ex, x, M, "the same set has the same count", lambda y: EQ(count(f1, y), count(f, y)), [f, f1])
        # total(x): the sizes of the free blocks that start below x
        tot = z3.Function("total", I, I); T = lambda y: lin(tot(Z(y))); x = st.fork()

        def unfold(y): return And(EQ(T(M.P), 0), EQ(T(y + 1), T(y) + ite(M.blk(y), M.size(y), Lin(0))))

        def over(y):
            s = M.start(y); return ite(And(LT(y, M.E), M.free(y), NE(s, y)), s + M.size(s) - y, Lin(0))
        induct(ex, x, M, "the sizes of the free blocks add up to the free bytes", lambda y: EQ(count(f, y) + over(y), T(y)), [f], unfold, [M])
        # writing to bytes in use
        x = st.fork(); used = lambda b: And(M.inside(b), Not(M.free(b))); W1, L1 = freshA("W"), freshA("Lo")
        M1 = M.but(W=lambda y: sel(W1, y), Lo=lambda y: sel(L1, y)); quiet = lambda b, k: And(*[Not(used(b + i)) for i in range(k)])
        univ(x, lambda b: And(Imp(quiet(b, 8), EQ(M1.W(b), M.W(b))), Imp(quiet(b + 8, 4), EQ(M1.Lo(b + 8), M.Lo(b + 8))), *[conj(two(M, b, b + i)[:1]) for i in range(1, 12)]))
        huniv(x, lambda i: Imp(And(LE(0, i), LE(i, S.L)), And(Imp(quiet(M.hd(i), 8), EQ(M1.head(i), M.head(i))))))
        check(ex, x, M1, [M], "after writing to bytes in use"); x.assume(Imp(quiet(M.B, 4), EQ(M1.counter(), M.counter()))); ex.oblige(x, "after writing to bytes in use: the counter stays", EQ(M1.counter(), M.counter()), "post")
    U("MEM_ALIGN_ROUND_UP and lemmas", r"MEM_ALIGN_ROUND_UP\(int\)", s_round, p_round)
    return us


CPRE = z3.Function("count_below", AIB, I, I)


def count(f, x): return lin(CPRE(f, Z(x)))


def clamp(d, r): return ite(LE(d, 0), Lin(0), ite(LE(d, r), d, lin(r)))


def induct(ex, st, M, what, prop, sets, more=None, mems=()):
    """prop(x) for all P <= x <= E by induction, from the definition of the count; cnt is the count below E"""
    x = fresh("x"); z = st.fork()
    z.assume(And(*[EQ(count(f, M.P), 0) for f in sets])); touch(z, M.P)
    if more: z.assume(more(M.P))
    ex.oblige(z, "lemma: %s: at the start" % what, prop(M.P), "post")
    z = st.fork(); z.assume(And(LE(M.P, x), LT(x, M.E)))
    for f in sets: z.assume(EQ(count(f, x + 1), count(f, x) + ite(selb(f, x), Lin(1), Lin(0))))
    touch(z, x, x + 1)
    for m in mems: touch(z, m.start(x), m.start(x + 1), x - 1)
    if more: z.assume(more(x))
    z.assume(prop(x)); ex.oblige(z, "lemma: %s: one byte further" % what, prop(x + 1), "post")


OFFS = ["sizeof(S_)", "__builtin_offsetof(S_, mFreeMemSize_d)", "__builtin_offsetof(S_, mMemoryPool_d)", "__builtin_offsetof(S_, mFreeMemList_d)"]
SIZES = ((1024, 128), (1048576, 128), (1024, 1024), (64, 8))


def build(tmp):
    from .. import layout
    us = []; mod = None
    for M, MB in SIZES:
        defs = ("DV_M=%d" % M, "DV_B=%d" % MB)
        mod = layout.extract("sma", tmp, defs); S = Sma(M, MB, layout.offsets("sma_layout.hpp", OFFS, tmp, "sma%d_%d" % (M, MB), defs))
        for u in units(S):
            u.mod = mod; us.append(u)
            if u.name.endswith("quick_mem_memory_merge_d"): u.weight = 340; u.owner = "C26" if (M, MB) == SIZES[0] else "thorough"
            elif u.name.endswith("allocate") or u.name.endswith("merge_d"): u.weight = 20
    return mod, us


ALL = r"StaticMemAllocator<\d+,\d+>::.*"
CLAIMS = {"C24": ("all", ALL), "C25": ("all", ALL), "C26": ("all", ALL)}
