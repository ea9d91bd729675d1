"""Vector<Elem, VA>: representation invariant and contracts."""
from ..spec import *

from ..ir import INT
MAXCAP = INTMAX // ESZ
KINDS = {"Elem": ("E", ESZ), "int": (4, 4), "char": (1, 1)}


class VV:
    """abstract view of a vector in one state"""
    def __init__(self, n, cap, C, aid, val, live): self.n = n; self.cap = cap; self.C = C; self.aid = aid; self.val = val; self.live = live


class Vec:
    known = []

    def __init__(self, off, T="Elem"):
        Vec.known[:] = [self]
        self.oN, self.oCap, self.oC = off
        self.tag = None; self.T = T; self.ek, self.es = KINDS.get(T, (8, 8)); self.max = INTMAX // self.es

    def arg(self, ex, st, addr, what, kind="pre"):
        """value of the element a reference argument refers to"""
        addr = ex.as_int(addr)
        if self.ek == "E":
            r = ex.eref(st, addr, what)
            if r is None: return None
            ev = ex.eget(st, r)
            ex.oblige(st, what + " is live", ev.live, kind)
            return ev.val
        v = ex.load(st, addr, INT(8 * self.ek), what)
        return None if v is None else ex.as_int(v)

    def produce(self, ex, st, obj, base=0, name="vec", split=True, nonempty=False, into=False):
        """cells and buffer of a valid vector inside obj at offset base; [(label, state, view)]"""
        out = []
        for label in (["heap"] if nonempty else (["empty", "heap"] if split else ["heap"])):
            s = st if into else st.fork()
            o = ex.mut(s, obj.id)
            if label == "empty":
                n = Lin(0); cap = Lin(0); C = Lin(0); v = VV(n, cap, C, None, None, None)
            else:
                n = fresh(name + ".n"); cap = fresh(name + ".cap")
                s.assume(And(LE(0, n), LE(n, cap), LE(1, cap), LE(cap, self.max)))
                a = ex.add_arr(s, self.es, cap, self.ek, name + ".buf", "heap", tag=self.tag)
                if self.ek == "E": s.assume(live_prefix(a.live, n, cap))
                C = a.base; v = VV(n, cap, C, a.id, a.val, a.live)
            o.cells[base + self.oN] = (8, n); o.cells[base + self.oCap] = (8, cap); o.cells[base + self.oC] = (8, C)
            out.append((label, s, v))
        return out

    def read(self, ex, st, obj, base=0, what="vector"):
        """view of the vector stored at obj+base; raises an obligation when it is not one"""
        o = st.heap[obj if isinstance(obj, int) else obj.id]
        g = lambda off: o.cells.get(base + off, (0, None))[1]
        n, cap, C = g(self.oN), g(self.oCap), g(self.oC)
        if not all(isinstance(x, Lin) for x in (n, cap, C)):
            ex.oblige(st, "%s: size, capacity and buffer pointer are initialised" % what, FALSE, "inv"); return None
        n = st.norm(n); cap = st.norm(cap); C = st.norm(C)
        aid = None
        if not (C.const() and C.c == 0):
            for a, k in C.t:
                if a in st.bases and isinstance(st.heap[st.bases[a]], Arr) and C.eq(st.heap[st.bases[a]].base): aid = st.bases[a]
            if aid is None:
                if ex.valid_light(st, EQ(C, 0)): C = Lin(0)
                else:
                    ex.oblige(st, "%s: buffer pointer is null or a block the vector owns" % what, FALSE, "inv"); return None
        if aid is None: return VV(n, cap, C, None, None, None)
        a = st.heap[aid]
        return VV(n, cap, C, aid, a.val, a.live)

    def inv(self, ex, st, v, what="vector"):
        ex.oblige(st, "%s: 0 <= size <= capacity" % what, And(LE(0, v.n), LE(v.n, v.cap)), "inv")
        if v.aid is None:
            ex.oblige(st, "%s: no buffer only with capacity 0" % what, EQ(v.cap, 0), "inv")
        else:
            a = st.heap[v.aid]
            ex.oblige(st, "%s: the buffer has the recorded capacity" % what, And(EQ(v.cap, a.count), LE(1, v.cap), LE(v.cap, self.max)), "inv")
            if self.ek == "E": ex.oblige(st, "%s: exactly the first size slots hold elements" % what, live_prefix(a.live, v.n, a.count), "inv")

    def forget(self, ex, st, obj, base, v):
        if v.aid is not None and v.aid in st.heap: ex.drop(st, st.heap[v.aid], "released or reallocated")
        o = ex.mut(st, obj if isinstance(obj, int) else obj.id)
        for off in (self.oN, self.oCap, self.oC): o.cells.pop(base + off, None)

    def at(self, ex, st, addr, what):
        """object and offset of the vector at a pointer argument"""
        addr = st.norm(addr)
        for a, k in addr.t:
            if a in st.bases and k == 1 and isinstance(st.heap[st.bases[a]], Obj):
                d = addr - st.heap[st.bases[a]].base
                if d.const(): return st.heap[st.bases[a]], d.c
        raise ToolLimit("%s: vector argument %s" % (what, addr))


def _view_of(st, aid):
    """the size of the vector whose buffer is chunk aid"""
    base = st.heap[aid].base
    for o in st.heap.values():
        if isinstance(o, Obj) and o.kind != "global":
            for off, (w, v) in o.cells.items():
                if w == 8 and isinstance(v, Lin) and st.norm(v).eq(base):
                    for V in Vec.known:
                        n = o.cells.get(off - V.oC + V.oN)
                        if n is not None and isinstance(n[1], Lin): return st.norm(n[1])
    return None


class VecHook:
    """lets a loop replace the buffer of a vector: afterwards the vector is any valid one the invariants allow"""
    def __init__(self, V): self.V = V

    def __repr__(self): return "vec" + self.V.T

    def changed(self, ex, head, back, gone, new):
        V = self.V; keys = []; g = {c.id for c in gone if c.kind == "heap"}; n = {c.id for c in new if c.kind == "heap"}
        if any(c.kind not in ("heap", "stack", "global") for c in gone + new): return None
        for i, o in head.heap.items():
            if not isinstance(o, Obj) or i not in back.heap: continue
            for off, (w, v) in o.cells.items():
                if w != 8 or not isinstance(v, Lin): continue
                a = self.owner(head, v)
                if a is None or a not in g: continue
                b = off - V.oC
                o2 = back.heap[i].cells.get(off)
                a2 = self.owner(back, o2[1]) if o2 and isinstance(o2[1], Lin) else None
                if b + V.oN not in o.cells or b + V.oCap not in o.cells or a2 is None or a2 not in n: return None
                if head.heap[a].elem != V.ek or back.heap[a2].elem != V.ek: return None
                keys.append((self, (i, b))); g.discard(a); n.discard(a2)
        return keys if keys and not g and not n else None

    def owner(self, st, v):
        v = st.norm(v)
        for a, k in v.t:
            if a in st.bases and isinstance(st.heap[st.bases[a]], Arr) and v.eq(st.heap[st.bases[a]].base): return st.bases[a]
        return None

    def havoc(self, ex, st, addr):
        i, b = addr
        v = self.peek(ex, st, addr)
        if v.aid is None: raise ToolLimit("loop grows a vector that has no buffer yet")
        ex.drop(st, st.heap[v.aid], "released or reallocated")
        self.V.produce(ex, st, st.heap[i], b, name="v", split=False, into=True)

    def peek(self, ex, st, addr):
        i, b = addr; V = self.V; o = st.heap[i]
        g = lambda off: o.cells.get(b + off, (0, None))[1]
        n, cap, C = g(V.oN), g(V.oCap), g(V.oC)
        if not all(isinstance(x, Lin) for x in (n, cap, C)): raise ToolLimit("vector is not initialised")
        n, cap, C = st.norm(n), st.norm(cap), st.norm(C)
        a = self.owner(st, C)
        if a is None: return VV(n, cap, C, None, None, None)
        return VV(n, cap, C, a, st.heap[a].val, st.heap[a].live)

    def scalars(self, addr):
        return [("size", lambda ex, st: self.peek(ex, st, addr).n), ("capacity", lambda ex, st: self.peek(ex, st, addr).cap)]

    def owned(self, ex, st, addr):
        i, b = addr; V = self.V
        return {(i, b + V.oN), (i, b + V.oCap), (i, b + V.oC)}

    def check(self, ex, st, addr, what):
        v = self.V.read(ex, st, addr[0], addr[1], what)
        if v is not None: self.V.inv(ex, st, v, what)

    def candidates(self, ex, entry, addr, lvars, ivars):
        from ..loops import Cand, ptr_atoms
        out = []; v0 = self.peek(ex, entry, addr)

        def cur(c): return self.peek(ex, c.st, addr)
        out.append(Cand("the first elements are kept", lambda c: same_elems(cur(c), v0, v0.n), True))
        out.append(Cand("the first size elements are kept", lambda c: same_elems(cur(c), v0, cur(c).n), True))
        for i in ivars:
            if ptr_atoms(lvars[i].entry): continue
            x0 = lvars[i].entry
            for aid, a in entry.heap.items():
                if not isinstance(a, Arr) or a.elem != self.V.ek: continue
                def fm(c, i=i, x0=x0, A=a.val):
                    w = cur(c); q = z3.Int("q?")
                    if w.val is None: return None
                    return z3.ForAll([q], Imp(And(LE(v0.n, lin(q)), LT(lin(q), w.n)), z3.Select(w.val, q) == z3.Select(A, (lin(q) - v0.n + x0).z())), patterns=[z3.Select(w.val, q)])
                out.append(Cand("%s appended from %s on" % (E.clean(a.name), lvars[i].name), fm, True))
        return out


def live_prefix(live, n, cap):
    return q1(lambda q: Imp(And(LE(0, q), LT(q, cap)), z3.Select(live, q.z()) == LT(q, n)), lambda q: z3.Select(live, q.z()))


def val_at(v, i): return sel(v.val, i)


def same_elems(new, old, n, lo=0):
    if new.val is None or old.val is None: return LE(n, lo)
    return prefix_eq(new.val, old.val, n, lo)


# ------------------------------------------------------------------ the contracts
class VecContracts:
    def __init__(self, V): self.V = V

    def at_call(self, name, requires, ensures, ret=None, ctor=False, elem=None, src=None, dtor=False):
        """contract used at call sites.  requires(ex, st, old, args), ensures(st, old, new, args, extra) -> facts"""
        V = self.V

        def apply(ex, st, args, dem):
            obj, base = V.at(ex, st, ex.as_int(args[0]), name)
            if ctor:
                old = VV(Lin(0), Lin(0), Lin(0), None, None, None)
            else:
                old = V.read(ex, st, obj, base, name)
                if old is None: return []
                V.inv(ex, st, old, name)
            extra = {}
            if elem is not None:
                extra["e"] = V.arg(ex, st, args[elem], name + ": element argument")
                if extra["e"] is None: return []
            if src is not None:
                so, sb = V.at(ex, st, ex.as_int(args[src]), name)
                sv = V.read(ex, st, so, sb, name + " source")
                if sv is None: return []
                V.inv(ex, st, sv, name + " source")
                extra["src"] = sv; extra["same"] = so.id == obj.id and sb == base
                extra["srcloc"] = (so.id, sb)
            requires(ex, st, old, args, extra)
            if extra.get("same"):                       # self-assignment: nothing happens
                return [(st, args[0])]
            V.forget(ex, st, obj, base, old)
            if src is not None and extra.get("consume"):
                V.forget(ex, st, extra["srcloc"][0], extra["srcloc"][1], extra["src"])
            if dtor: return [(st, None)]
            out = []
            for label, s, v in V.produce(ex, st, obj, base, name="v"):
                for f in ensures(s, old, v, args, extra): ex.special.get("#ground", State.assume)(s, f)
                if not ex.feasible(s): continue
                for h in ex.special.get("#vecfacts", ()): h(ex, s, V, extra.get("src", old), v)
                if src is not None and extra.get("consume"):
                    o = ex.mut(s, extra["srcloc"][0]); b = extra["srcloc"][1]
                    for off in (V.oN, V.oCap, V.oC): o.cells[b + off] = (8, Lin(0))
                out.append((s, args[0] if ret == "this" else None))
            return out
        return apply

    def all(self):
        T = re.escape(self.V.T); n_ = r"dstruct::Vector<%s, VA>::" % T
        E_ = lambda s, new, old, k, lo=0: [same_elems(new, old, k, lo)]
        cs = []

        def add(name, pat, **k): cs.append(Contract("Vector::" + name, n_ + pat, self.at_call("Vector::" + name, **k)))
        nop = lambda ex, st, old, args, x: None
        add("resize", r"resize\(unsigned long long\)",
            requires=lambda ex, st, old, a, x: ex.oblige(st, "Vector::resize: the byte count fits int", And(LE(0, a[1]), LE(a[1], self.V.max)), "pre"),
            ensures=lambda s, old, new, a, x: [EQ(new.cap, a[1]), EQ(new.n, ite(LE(old.n, a[1]), old.n, a[1])), same_elems(new, old, new.n)])
        add("resize_fill", r"resize\(unsigned long long, %s const&\)" % T, elem=2,
            requires=lambda ex, st, old, a, x: ex.oblige(st, "Vector::resize: the byte count fits int", And(LE(0, a[1]), LE(a[1], self.V.max)), "pre"),
            ensures=lambda s, old, new, a, x: [EQ(new.cap, a[1]), EQ(new.n, a[1]), same_elems(new, old, ite(LE(old.n, a[1]), old.n, a[1])), fill(new, old.n, new.n, x["e"])])
        add("clear", r"clear\(\)", requires=nop, ensures=lambda s, old, new, a, x: [EQ(new.n, 0), EQ(new.cap, 0)])
        add("push_back", r"push(_back)?\(%s const&\)" % T, elem=1,
            requires=lambda ex, st, old, a, x: ex.oblige(st, "Vector::push_back: room to grow within int bytes", LE(2 * old.n + 2, self.V.max), "pre"),
            ensures=lambda s, old, new, a, x: [EQ(new.n, old.n + 1), same_elems(new, old, old.n)] + ([EQ(val_at(new, old.n), x["e"])] if new.val is not None else []))
        add("pop_back", r"pop(_back)?\(\)",
            requires=lambda ex, st, old, a, x: ex.oblige(st, "Vector::pop_back: not empty", LT(0, old.n), "pre"),
            ensures=lambda s, old, new, a, x: [EQ(new.n, old.n - 1), same_elems(new, old, new.n)])

        def movereq(ex, st, old, a, x): x["consume"] = True
        cp = lambda s, old, new, a, x: [EQ(new.n, x["src"].n), EQ(new.cap, x["src"].cap), same_elems(new, x["src"], x["src"].n)]
        add("operator=(copy)", r"operator=\(dstruct::Vector<%s, VA> const&\)" % T, requires=nop, ensures=cp, src=1, ret="this")
        add("Vector(copy)", r"Vector\(dstruct::Vector<%s, VA> const&\)" % T, requires=nop, ensures=cp, src=1, ctor=True)
        add("operator=(move)", r"operator=\(dstruct::Vector<%s, VA>&&\)" % T, requires=movereq, ensures=cp, src=1, ret="this")
        add("Vector(move)", r"Vector\(dstruct::Vector<%s, VA>&&\)" % T, requires=movereq, ensures=cp, src=1, ctor=True)
        add("Vector()", r"Vector\(\)", requires=nop, ensures=lambda s, old, new, a, x: [EQ(new.n, 0), EQ(new.cap, 0)], ctor=True)
        add("Vector(n, e)", r"Vector\(unsigned long long, %s const&\)" % T, elem=2, ctor=True,
            requires=lambda ex, st, old, a, x: ex.oblige(st, "Vector(n, e): 0 < n and the byte count fits int", And(LT(0, a[1]), LE(a[1], self.V.max)), "pre"),
            ensures=lambda s, old, new, a, x: [EQ(new.n, a[1]), EQ(new.cap, a[1]), fill(new, Lin(0), new.n, x["e"])])
        add("~Vector", r"~Vector\(\)", requires=nop, ensures=None, dtor=True)
        return cs


def fill(v, lo, hi, e):
    if v.val is None: return LE(hi, lo)
    return q1(lambda q: Imp(And(LE(lo, q), LT(q, hi)), EQ(sel(v.val, q), e)), lambda q: z3.Select(v.val, q.z()))


# ------------------------------------------------------------------ the verification units
class Based:
    """an object of `size` bytes that is, or holds at offset `base`, one vector.
    extra(ex, st, obj, view, ctx) adds the other cells: returns [(label, state, more context)];
    check(ex, st, obj, view, ctx, what) raises the obligations of the rest of the representation invariant;
    frame(ex, st, obj, view, ctx) -> [(name, formula)]: what "unchanged" means beyond the vector"""
    def __init__(self, V, size=24, base=0, extra=None, check=None, frame=None):
        self.V = V; self.size = size; self.base = base; self.extra = extra; self.check = check; self.frame = frame

    def produce(self, ex, st, o, name, ctor=False, **k):
        """[(label, state, view, context)]"""
        out = []
        if ctor: return [("", st, VV(Lin(0), Lin(0), Lin(0), None, None, None), {})]
        for l, s, v in self.V.produce(ex, st, o, self.base, name, **k):
            if self.extra is None: out.append((l, s, v, {}))
            else:
                for l2, s2, c in self.extra(ex, s, o, v, name): out.append((l + l2, s2, v, c))
        return out

    def setup(self, elem=None, extra=None, src=None, ctor=False, alias_src=False, alias_elem=True, args=None, pre=None, out=None):
        """states: (this) x (element argument separate / inside this) x (source object)"""
        V = self.V

        def f(ex):
            res = []
            st0 = State()
            o = ex.add_obj(st0, self.size, "this", "param")
            for l1, s1, v, more in self.produce(ex, st0, o, "this", ctor):
                variants = [(l1, s1, dict(more, old=v, obj=o))]
                if elem:
                    nv = []
                    for l, s, c in variants:
                        s2 = s.fork()
                        eo = ex.add_obj(s2, V.es, "element", "param"); eo = ex.mut(s2, eo.id)
                        ev = fresh("e"); eo.cells[0] = (V.ek, ElemV(ev, TRUE) if V.ek == "E" else ev); eo.ro = True
                        if V.ek != "E":
                            lo, hi = ex.rng(8 * V.ek); s2.assume(And(LE(lo, ev), LE(ev, hi)))
                        nv.append((l, s2, dict(c, e=ev, earg=eo.base, eobj=eo.id)))
                        if alias_elem and c["old"].aid is not None:
                            s3 = s.fork(); k = fresh("k"); s3.assume(And(LE(0, k), LT(k, c["old"].n)))
                            nv.append((l + ",element inside", s3, dict(c, e=sel(c["old"].val, k), earg=c["old"].C + k * V.es)))
                    variants = nv
                if src:
                    nv = []
                    for l, s, c in variants:
                        so = ex.add_obj(s, self.size, "src", "param")
                        for l2, s2, sv, more2 in self.produce(ex, s, so, "src"):
                            nv.append((l + "/" + l2, s2, dict(c, src=sv, sobj=so, sctx=more2)))
                        if alias_src:
                            nv.append((l + ",self", s.fork(), dict(c, src=c["old"], sobj=c["obj"], sctx=more, self=True)))
                    variants = nv
                for l, s, c in variants:
                    if out:
                        oo = ex.add_obj(s, V.es, "result", "param"); c["outobj"] = oo.id; c["out"] = oo.base
                    if extra:
                        for nm, kind in extra:
                            x = fresh(nm)
                            w = {"i8": 8, "i32": 32, "i64": 64}[kind]
                            lo, hi = ex.rng(w)
                            s.assume(And(LE(lo, x), LE(x, hi))); c[nm] = x
                    al = []
                    for a in args or ["this"]:
                        al.append(c["obj"].base if a == "this" else c["sobj"].base if a == "src" else c["earg"] if a == "e" else c[a])
                    if pre:
                        for p in pre(c): s.assume(p)
                    if ex.feasible(s): res.append((l, s, al, c))
            return res
        return f

    def post(self, ens, ctor=False, dtor=False, srcafter="same"):
        V = self.V

        def f(ex, st, r, c):
            own = set(); base = self.base
            if not dtor:
                new = V.read(ex, st, c["obj"], base, "result")
                if new is None: return
                V.inv(ex, st, new, "result")
                if self.check: self.check(ex, st, c["obj"], new, c, "result")
                if new.aid: own.add(new.aid)
            else: new = None
            if "src" in c and not c.get("self"):
                sv = V.read(ex, st, c["sobj"], base, "source")
                if sv is None: return
                V.inv(ex, st, sv, "source")
                if sv.aid: own.add(sv.aid)
                if srcafter == "same":
                    ex.oblige(st, "the source is unchanged", And(EQ(sv.n, c["src"].n), EQ(sv.cap, c["src"].cap), same_elems(sv, c["src"], sv.n)), "post")
                    if self.frame:
                        for nm, g in self.frame(ex, st, c["sobj"], sv, c["sctx"]): ex.oblige(st, "source: " + nm, g, "post")
                    if new is not None: ex.oblige(st, "copy and source share no buffer", z3.BoolVal(new.aid is None or new.aid != sv.aid), "post")
                elif srcafter == "moved":
                    ex.oblige(st, "the moved-from object is empty", And(EQ(sv.n, 0), EQ(sv.cap, 0)), "post")
            if "eobj" in c:
                el = st.heap[c["eobj"]].cells[0][1]
                ex.oblige(st, "the element argument is unchanged", And(EQ(el.val, c["e"]), el.live) if V.ek == "E" else EQ(el, c["e"]), "post")
            if "outobj" in c:
                cell = st.heap[c["outobj"]].cells.get(0)
                if cell is None: ex.oblige(st, "the result is constructed", FALSE, "post"); return
                if V.ek == "E":
                    ex.oblige(st, "the result is a live element", cell[1].live, "lifetime"); r = cell[1].val
                else: r = cell[1]
            for nm, g in ens(ex, st, c.get("old"), new, r, c): ex.oblige(st, nm, g, "post")
            no_leak(ex, st, own)
        return f


def unchanged(B):
    def g(ex, st, o, n, r, c):
        return [("the object is unchanged", And(EQ(n.n, o.n), EQ(n.cap, o.cap), same_elems(n, o, o.n)))] + (B.frame(ex, st, c["obj"], n, c) if B.frame else [])
    return g


def units(V, contracts):
    us = []
    B = Based(V); setup, post = B.setup, B.post

    def U(name, fn, s, p, **k):
        us.append(Unit("Vector<%s>::" % V.T + name, fn, s, p, contracts=contracts, **k))
    grow = lambda c: [LE(2 * c["old"].n + 2, V.max)]
    fits = lambda c: [LE(0, c["n"]), LE(c["n"], V.max)]
    same = unchanged(B)
    empty0 = lambda ex, st, o, n, r, c: [("the vector is empty", And(EQ(n.n, 0), EQ(n.cap, 0)))]
    U("Vector()", "w_ctor", setup(ctor=True), post(empty0), off=("Vector::Vector()",))
    U("Vector(n,e)", "w_ctor_n", setup(ctor=True, elem=True, extra=[("n", "i64")], args=["this", "n", "e"], pre=lambda c: [LT(0, c["n"]), LE(c["n"], V.max)]),
      post(lambda ex, st, o, n, r, c: [("size is n", And(EQ(n.n, c["n"]), EQ(n.cap, c["n"]))), ("every element equals e", fill(n, Lin(0), n.n, c["e"]))]), off=("Vector::Vector(n, e)",))
    cpost = lambda ex, st, o, n, r, c: [("same size as the source", EQ(n.n, c["src"].n)), ("same capacity as the source", EQ(n.cap, c["src"].cap)), ("same elements as the source", same_elems(n, c["src"], n.n))]
    U("Vector(copy)", "w_copy_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cpost), off=("Vector::Vector(copy)", "Vector::operator=(copy)"))
    U("Vector(move)", "w_move_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cpost, srcafter="moved"), off=("Vector::Vector(move)", "Vector::operator=(move)"))
    U("operator=(copy)", "w_copy", setup(src=True, alias_src=True, args=["this", "src"]), post(cpost), off=("Vector::operator=(copy)",))
    U("operator=(move)", "w_move", setup(src=True, alias_src=True, args=["this", "src"]), post(cpost, srcafter="moved"), off=("Vector::operator=(move)",))
    U("~Vector", "w_dtor", setup(), post(lambda *a: [], dtor=True), off=("Vector::~Vector",))
    U("empty", "w_empty", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("empty is size == 0", r == EQ(o.n, 0))]))
    U("size", "w_size", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("size is the number of elements", EQ(r, o.n))]))
    U("capacity", "w_capacity", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("capacity is the buffer length", EQ(r, o.cap))]))
    ne = lambda c: [LT(0, c["old"].n)]
    U("back", "w_back", setup(pre=ne), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("back is the last element", EQ(r, o.C + (o.n - 1) * V.es))]))
    U("front", "w_front", setup(pre=ne), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("front is the first element", EQ(r, o.C))]))
    idx = lambda c: [LE(-c["old"].n, c["i"]), LT(c["i"], c["old"].n)]
    ipost = lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("index i is element i, negative from the end", EQ(r, o.C + ite(LE(0, c["i"]), c["i"], c["i"] + o.n) * V.es))]
    U("operator[]", "w_index", setup(extra=[("i", "i32")], args=["this", "i"], pre=idx), post(ipost))
    U("operator[] const", "w_cindex", setup(extra=[("i", "i32")], args=["this", "i"], pre=idx), post(ipost))
    ppost = lambda ex, st, o, n, r, c: [("size grows by one", EQ(n.n, o.n + 1)), ("the other elements keep value and order", same_elems(n, o, o.n)), ("the last element equals the argument", EQ(val_at(n, o.n), c["e"]) if n.val is not None else FALSE)]
    for w in ("push", "push_back"):
        U(w, "w_" + w, setup(elem=True, args=["this", "e"], pre=grow), post(ppost), off=("Vector::push_back",))
    for w in ("pop", "pop_back"):
        U(w, "w_" + w, setup(pre=ne), post(lambda ex, st, o, n, r, c: [("size shrinks by one", EQ(n.n, o.n - 1)), ("the other elements keep value and order", same_elems(n, o, n.n))]), off=("Vector::pop_back",))
    U("clear", "w_clear", setup(), post(empty0), off=("Vector::clear",))
    U("resize", "w_resize", setup(extra=[("n", "i64")], args=["this", "n"], pre=fits),
      post(lambda ex, st, o, n, r, c: [("capacity is n", EQ(n.cap, c["n"])), ("size is min(size, n)", EQ(n.n, ite(LE(o.n, c["n"]), o.n, c["n"]))), ("elements are kept", same_elems(n, o, n.n))]), off=("Vector::resize",))
    U("resize(n,e)", "w_resize_fill", setup(elem=True, extra=[("n", "i64")], args=["this", "n", "e"], pre=fits),
      post(lambda ex, st, o, n, r, c: [("size and capacity are n", And(EQ(n.n, c["n"]), EQ(n.cap, c["n"]))), ("elements are kept", same_elems(n, o, ite(LE(o.n, n.n), o.n, n.n))), ("new elements equal e", fill(n, o.n, n.n, c["e"]))]), off=("Vector::resize_fill",))

    def visited(rev=False):
        def g(ex, st, o, n, r, c):
            q = z3.Int("q?")
            k = lin(q)
            src = (o.n - 1 - k) if rev else k
            vis = st.ghost["visited"]
            return same(ex, st, o, n, r, c) + [("iteration visits size elements", EQ(st.ghost["nvisit"], o.n)),
                ("iteration visits the elements in order", TRUE if o.val is None else z3.ForAll([q], Imp(And(LE(0, k), LT(k, o.n)), z3.Select(vis, q) == z3.Select(o.val, src.z()))))]
        return g
    for w, rev in (("iterate", 0), ("citerate", 0), ("rangefor", 0), ("reverse", 1)):
        U("iterator " + w, "w_" + w, setup(), post(visited(rev)), templates=[visit_template])
    U("begin()+i", "w_itplus", setup(extra=[("i", "i32")], args=["this", "i"], pre=lambda c: [LE(0, c["i"]), LT(c["i"], c["old"].n)]), post(lambda ex, st, o, n, r, c: [("begin()+i is element i", EQ(r, o.C + c["i"] * V.es))]))
    U("end()-i", "w_itminus", setup(extra=[("i", "i32")], args=["this", "i"], pre=lambda c: [LE(1, c["i"]), LE(c["i"], c["old"].n)]), post(lambda ex, st, o, n, r, c: [("end()-i is element size-i", EQ(r, o.C + (o.n - c["i"]) * V.es))]))
    U("distance", "w_distance", setup(), post(lambda ex, st, o, n, r, c: [("distance(begin, end) is size", EQ(r, o.n))]))
    return us


def visit_template(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    """what a loop calling visit() has logged: nvisit moves with the index, visited[k] is the k-th element"""
    from ..loops import Cand
    cands = []
    n0 = entry.ghost["nvisit"]; v0 = entry.ghost["visited"]
    for i in ivars:
        x0 = lvars[i].entry
        cands.append(Cand("visits follow %s" % lvars[i].name, lambda c, i=i, x0=x0: EQ(c.st.ghost["nvisit"] - n0, c.v[i] - x0)))
        cands.append(Cand("visits follow -%s" % lvars[i].name, lambda c, i=i, x0=x0: EQ(c.st.ghost["nvisit"] - n0, x0 - c.v[i])))
        for aid, a in entry.heap.items():
            if isinstance(a, Arr) and a.kind != 'global':
                for sg in (1, -1):
                    def fm(c, i=i, x0=x0, A=a.val, sg=sg):
                        q = z3.Int("q?"); k = lin(q) - n0
                        src = (x0 + k) if sg > 0 else (x0 - 1 - k)
                        return z3.ForAll([q], Imp(And(LE(n0, lin(q)), LT(lin(q), c.st.ghost["nvisit"])), z3.Select(c.st.ghost["visited"], q) == z3.Select(A, src.z())), patterns=[z3.Select(c.st.ghost["visited"], q)])
                    cands.append(Cand("visited elements of %s in order" % E.clean(a.name), fm, True))
    return cands


OFFS = ["__builtin_offsetof(V_, mSize_d)", "__builtin_offsetof(V_, mCapacity_d)", "__builtin_offsetof(V_, mC_d)"]


def vec(tmp, T="Elem"):
    from .. import layout
    return Vec(layout.offsets("vec_layout.hpp", OFFS, tmp, "vec_" + T, defs=("DV_T=" + T,)), T)


def build(tmp):
    from .. import layout
    us = []
    for T in ("Elem", "int", "char"):
        mod = layout.extract("vector", tmp, ("DV_T=" + T,))
        V = vec(tmp, T)
        for u in units(V, VecContracts(V).all()):
            u.mod = mod; u.special["#alloc"] = (V.es, V.ek); us.append(u)
    return mod, us


# the operations other containers use through their contracts are discharged in the checks of those containers too
_own = r"(Vector\(\)|Vector\((copy|move)\)|operator=.*|~Vector)"
CLAIMS = {"C01": ("func", ".*"), "C02": ("life", ".*"),
          "C04": ("func", r"Vector<Elem>::(%s|push_back|pop_back|clear)$" % _own), "C05": ("func", r"Vector<Elem>::(%s|push_back|pop_back|clear)$" % _own),
          "C06": ("all", r"Vector<Elem>::(%s|Vector\(n,e\)|push_back|pop_back|resize.*)$" % _own), "C07": ("all", r"Vector<Elem>::(%s|Vector\(n,e\)|push_back|pop_back|resize)$" % _own),
          "C08": ("func", r"Vector<int>::(%s|Vector\(n,e\))$" % _own),
          "C09": ("all", r"Vector<char>::(%s|Vector\(n,e\)|push_back|clear|resize)$" % _own), "C10": ("all", r"Vector<char>::(%s|Vector\(n,e\)|push_back|clear|resize)$" % _own)}
