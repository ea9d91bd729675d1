"""Singly and doubly linked lists.  All list nodes and the head links of list objects are one "soup" of links indexed
by address; a list is described by ghost state: its length n and P, where P[0] is the head, P[1..n] are the nodes and
P[n+1] is the head again; own[k] is the head of the list link k belongs to and idx[k] its position there."""
from ..spec import *
from ..ir import INT
from ..engine import Soup

LIM = 1 << 44
STEP = z3.Function("step", I, B)
steps_true = lambda: z3.ForAll([z3.Int("q?")], STEP(z3.Int("q?")), patterns=[STEP(z3.Int("q?"))])


def at(a, k): return lin(z3.Select(a, Z(k)))
def bat(a, k): return z3.Select(a, Z(k))


class A:
    """the arrays of one state"""
    def __init__(self, st):
        s = st.soups["node"]
        self.next = s.f["next"]; self.prev = s.f.get("prev"); self.v = s.f.get("data.v"); self.l = s.f.get("data.l")
        self.dom = s.dom; self.ldom = s.ldom; self.own = st.ghost["own"]; self.idx = st.ghost["idx"]

    def fields(self):
        r = [self.next, self.v, self.l, self.dom, self.ldom, self.own, self.idx]
        return r + ([self.prev] if self.prev is not None else [])


class G:
    """one list: head key, length, positions"""
    def __init__(self, h, n, P, end=None): self.h = h; self.n = n; self.P = P; self.end = h if end is None else end      # end 0: an open chain


def seq_of(st, oid): return G(st.ghost["h%d" % oid], st.ghost["n%d" % oid], st.ghost["P%d" % oid])


def backlinked(g, i): return TRUE if not (g.end.const() and g.end.c == 0) else LT(i, g.n)


def rep(a, g):
    """[(name, formula)]: g describes a list in the memory a"""
    q = z3.Int("q?"); i = lin(q); h, n, P = g.h, g.n, g.P
    pi = z3.Select(P, q); p = lin(pi)
    out = [("length is sensible", And(LE(0, n), LE(n, LIM))),
           ("positions start and end at the head", And(EQ(at(P, 0), h), EQ(at(P, n + 1), g.end), bat(a.ldom, h), Not(bat(a.dom, h)), EQ(at(a.own, h), h), EQ(at(a.idx, h), 0))),
           ("every position holds a link of this list", z3.ForAll([q], Imp(And(LE(0, i), LE(i, n)), And(EQ(at(a.own, p), h), EQ(at(a.idx, p), i), bat(a.ldom, p), Imp(LE(1, i), And(bat(a.dom, p), bat(a.l, p))))), patterns=[pi])),
           ("links lead to the next position", z3.ForAll([q], Imp(And(STEP(q), LE(0, i), LE(i, n)), And(EQ(at(a.next, at(P, i)), at(P, i + 1)), Imp(backlinked(g, i), EQ(at(a.prev, at(P, i + 1)), at(P, i))) if a.prev is not None else TRUE)), patterns=[STEP(q)])),
           ("every link of this list has a position", z3.ForAll([q], Imp(And(bat(a.ldom, i), EQ(at(a.own, i), h)), And(LE(0, at(a.idx, i)), LE(at(a.idx, i), n), EQ(at(P, at(a.idx, i)), i), Imp(bat(a.dom, i), NE(i, h)))), patterns=[z3.Select(a.own, q)]))]
    return out


def glob(a):
    q = z3.Int("q?"); k = lin(q)
    return [("every allocated node belongs to a list", z3.ForAll([q], And(Imp(bat(a.dom, k), And(bat(a.ldom, k), NE(at(a.own, k), 0))), Imp(Not(bat(a.dom, k)), Not(bat(a.l, k)))), patterns=[z3.Select(a.dom, q), z3.Select(a.l, q)])),
            ("links are not null", z3.ForAll([q], Imp(bat(a.ldom, k), LT(0, k)), patterns=[z3.Select(a.ldom, q)]))]


def frame(a0, a1, hs):
    """links of other lists are not touched"""
    q = z3.Int("q?"); k = lin(q)
    pre = And(bat(a0.ldom, k), *[NE(at(a0.own, k), h) for h in hs])
    eqs = [z3.Select(x, q) == z3.Select(y, q) for x, y in zip(a1.fields(), a0.fields())]
    new = And(bat(a1.ldom, k), *[NE(at(a1.own, k), h) for h in hs])
    return z3.ForAll([q], And(Imp(pre, And(*eqs)), Imp(new, And(bat(a0.ldom, k), EQ(at(a0.own, k), at(a1.own, k))))), patterns=[z3.Select(x, q) for x in a1.fields() if z3.is_app(x) and x.num_args() == 0])


def contents(a, g, val):
    """val(i) is the element at position i"""
    q = z3.Int("q?"); i = lin(q)
    return z3.ForAll([q], Imp(And(LE(1, i), LE(i, g.n)), EQ(at(a.v, at(g.P, i)), val(i))), patterns=[z3.Select(g.P, q)])


class W:
    """the list an operation must leave behind: functions instead of arrays"""
    def __init__(self, h, n, P, own, idx, val, end=None): self.end = h if end is None else end; self.h = h; self.n = lin(n); self.P = P; self.own = own; self.idx = idx; self.val = val


def witness(a, g, val): return W(g.h, g.n, lambda i: at(g.P, i), lambda k: at(a.own, k), lambda k: at(a.idx, k), val)


def check(ex, st, a1, w, what="result"):
    s = st.fork(); i = fresh("i"); k = fresh("k")
    for d in (-1, 0, 1, 2): s.assume(STEP((i + d).z()))
    ok = lambda nm, f, kind="inv": ex.oblige(s, "%s: %s" % (what, nm), f, kind)
    p = w.P(i); inn = And(LE(0, i), LE(i, w.n))
    ok("length is sensible", And(LE(0, w.n), LE(w.n, LIM)))
    ok("the head is a link of the list", And(EQ(w.P(lin(0)), w.h), EQ(w.P(w.n + 1), w.end), bat(a1.ldom, w.h), EQ(w.own(w.h), w.h), EQ(w.idx(w.h), 0)))
    ok("the head is not an allocated node", Not(bat(a1.dom, w.h)))
    ok("every position holds a link of this list", Imp(inn, And(EQ(w.own(p), w.h), EQ(w.idx(p), i), bat(a1.ldom, p))))
    ok("every position but the head holds an allocated node", Imp(And(inn, LE(1, i)), bat(a1.dom, p)))
    if a1.l is not None: ok("every node holds a live element", Imp(And(inn, LE(1, i)), bat(a1.l, p)), "lifetime")
    ok("the forward link leads to the next position", Imp(inn, EQ(at(a1.next, p), w.P(i + 1))))
    if a1.prev is not None: ok("the backward link leads to the previous position", Imp(And(inn, backlinked(w, i)), EQ(at(a1.prev, w.P(i + 1)), p)))
    ok("no other link belongs to the list", Imp(And(bat(a1.ldom, k), EQ(w.own(k), w.h)), And(LE(0, w.idx(k)), LE(w.idx(k), w.n), EQ(w.P(w.idx(k)), k), Imp(bat(a1.dom, k), NE(k, w.h)))), "leak")
    if w.val is not None: ok("the elements are the expected sequence", Imp(And(LE(1, i), LE(i, w.n)), EQ(at(a1.v, p), w.val(i))), "post")


def check_glob(ex, st, a1, own, what="result"):
    s = st.fork(); k = fresh("k")
    ex.oblige(s, "%s: every allocated node belongs to a list" % what, Imp(bat(a1.dom, k), And(bat(a1.ldom, k), NE(own(k), 0))), "leak")
    ex.oblige(s, "%s: no element is alive outside a node" % what, Imp(Not(bat(a1.dom, k)), Not(bat(a1.l, k))), "lifetime")
    ex.oblige(s, "%s: links are not null" % what, Imp(bat(a1.ldom, k), LT(0, k)), "inv")


def check_frame(ex, st, a0, a1, own, idx, hs, what="operation"):
    s = st.fork(); k = fresh("k")
    eqs = [z3.Select(x, k.z()) == z3.Select(y, k.z()) for x, y in zip(a1.fields(), a0.fields()) if x is not a1.own and x is not a1.idx]
    eqs += [EQ(own(k), at(a0.own, k)), EQ(idx(k), at(a0.idx, k))]
    ex.oblige(s, "%s: no other list gets a link" % what, Imp(And(bat(a1.ldom, k), *[NE(own(k), h) for h in hs]), And(bat(a0.ldom, k), EQ(at(a0.own, k), own(k)))), "post")
    ex.oblige(s, "%s: other lists are not touched" % what, Imp(And(bat(a0.ldom, k), *[NE(at(a0.own, k), h) for h in hs]), And(*eqs)), "post")


def new_node(ex, st, n, size):
    """allocation of one node"""
    if not n.const() or n.c != size: return None
    x = fresh("node", tag="node")
    s = st.soups["node"].copy(); st.soups["node"] = s
    st.assume(And(LT(0, x), LE(x + size, E.MAXADDR), Not(bat(s.dom, x)), Not(bat(s.ldom, x)), Not(bat(s.f["data.l"], x))))
    s.dom = z3.Store(s.dom, x.z(), TRUE); s.ldom = z3.Store(s.ldom, x.z(), TRUE)
    st.ghost["own"] = z3.Store(st.ghost["own"], x.z(), z3.IntVal(0)); st.ghost["idx"] = z3.Store(st.ghost["idx"], x.z(), z3.IntVal(0))
    st.ghost["#new"] = st.ghost.get("#new", ()) + (x,)
    return [(st, x)]


def free_node(size):
    def h(ex, st, p, n):
        p = st.norm(p)
        if any(a in st.bases for a, k in p.t):
            ex.oblige(st, "released memory came from the allocator", FALSE, "alloc"); return []
        if len(p.t) != 1 or p.t[0][1] != 1 or AT.meta[p.t[0][0]].get("tag") != "node": return None
        s = st.soups["node"]
        ex.oblige(st, "released pointer is the start of an allocated node", bat(s.dom, p) if p.c == 0 else FALSE, "alloc")
        ex.oblige(st, "node is released with the size it was requested with", EQ(n, size), "alloc")
        ex.oblige(st, "no live element is left in a released node", Not(bat(s.f["data.l"], p)), "lifetime")
        s = s.copy(); st.soups["node"] = s
        s.dom = z3.Store(s.dom, p.z(), FALSE); s.ldom = z3.Store(s.ldom, p.z(), FALSE)
        return [(st, None)]
    return h


class Lists:
    def __init__(self, singly, off):
        self.singly = singly
        self.oHead, self.oData, self.oSize, self.size, self.nsize, self.lsize = off[:6]
        self.oTail = off[6] if singly else None
        self.layout = {0: (8, "next", "node")}
        if not singly: self.layout[8] = (8, "prev", "node")
        self.layout[self.oData] = ("E", "data", None)

    # ---------------------------------------------------------------- states
    def world(self, ex):
        st = State()
        s = Soup("node", self.layout, self.nsize, 0)
        s.f = {"#link": ("next", "prev"), "next": freshA("next"), "data.v": freshA("data"), "data.l": freshAB("live")}
        if not self.singly: s.f["prev"] = freshA("prev")
        s.dom = freshAB("dom"); s.ldom = freshAB("ldom")
        st.soups["node"] = s
        st.ghost["own"] = freshA("own"); st.ghost["idx"] = freshA("idx"); st.ghost["#lists"] = ()
        st.assume(steps_true())
        for _, f in glob(A(st)): st.assume(f)
        return st

    def obj(self, ex, st, name):
        o = ex.add_obj(st, self.size, name, "param"); o = ex.mut(st, o.id)
        o.alias = [(self.oHead, self.lsize, "node", self.oHead)]
        return o

    def valid(self, ex, st, o, name, tail=True):
        """o holds a list"""
        h = o.base + self.oHead; i = o.id; a = A(st)
        st.ghost["h%d" % i] = h; st.ghost["n%d" % i] = fresh(name + ".n"); st.ghost["P%d" % i] = freshA(name + ".P"); st.ghost["#lists"] += (i,)
        g = seq_of(st, i)
        o = ex.mut(st, i)
        o.cells[self.oSize] = (8, g.n); o.cells[self.oHead + self.oData] = ("E", ElemV(fresh(name + ".headdata"), TRUE))
        if self.singly and tail: o.cells[self.oTail] = (8, self.tagged(at(g.P, g.n)))
        for _, f in rep(a, g): st.assume(f)
        for d in (0, 1, 2, g.n - 1, g.n, g.n + 1): st.assume(STEP(lin(d).z()))
        return g

    def raw(self, ex, st, o, name):
        """o is raw memory, about to become an empty list"""
        h = o.base + self.oHead; i = o.id; a = A(st)
        P = freshA(name + ".P")
        st.ghost["h%d" % i] = h; st.ghost["n%d" % i] = Lin(0); st.ghost["P%d" % i] = P; st.ghost["#lists"] += (i,)
        q = z3.Int("q?")
        st.assume(And(bat(a.ldom, h), Not(bat(a.dom, h)), EQ(at(a.own, h), h), EQ(at(a.idx, h), 0), EQ(at(P, 0), h), EQ(at(P, 1), h)))
        st.assume(z3.ForAll([q], Imp(And(z3.Select(a.ldom, q), z3.Select(a.own, q) == h.z()), q == h.z()), patterns=[z3.Select(a.own, q)]))
        st.assume(STEP(lin(0).z()))
        return seq_of(st, i)

    def tagged(self, l):
        for a, k in l.t: AT.meta[a].setdefault("tag", "node")
        return l

    # ---------------------------------------------------------------- object cells
    def cells(self, ex, st, o, w, what, tail=True):
        o = st.heap[o if isinstance(o, int) else o.id]
        sz = o.cells.get(self.oSize)
        ex.oblige(st, "%s: the recorded size is the number of elements" % what, FALSE if sz is None or not isinstance(sz[1], Lin) else EQ(sz[1], w.n), "inv")
        if self.singly and tail:
            t = o.cells.get(self.oTail)
            ex.oblige(st, "%s: the tail pointer is the last link" % what, FALSE if t is None or not isinstance(t[1], Lin) else EQ(t[1], w.P(w.n)), "inv")
        d = o.cells.get(self.oHead + self.oData)
        ex.oblige(st, "%s: the head's own element is alive" % what, FALSE if d is None else d[1].live, "lifetime")

    # ---------------------------------------------------------------- contracts at call sites
    def contract(self, name, pat, op, tail=True):
        def apply(ex, st, args, dem):
            o = self.at(ex, st, ex.as_int(args[0]), name)
            if "n%d" % o.id not in st.ghost: raise ToolLimit("%s: not a list object" % name)
            g = seq_of(st, o.id); a0 = A(st)
            for nm, f in rep(a0, g) + glob(a0): ex.oblige(st, "%s: %s" % (name, nm), f, "pre")
            self.cells(ex, st, o, witness(a0, g, None), name, tail)
            e = None
            if len(args) > 1:
                r = ex.eref(st, ex.as_int(args[1]), name + ": element argument")
                if r is None: return []
                ev = ex.eget(st, r); e = ev.val
                ex.oblige(st, name + ": element argument is live", ev.live, "pre")
            if op in ("push_front", "push_back"): ex.oblige(st, name + ": room for another node", LE(g.n + 1, LIM), "pre")
            if op in ("pop_front", "pop_back"): ex.oblige(st, name + ": the list is not empty", LT(0, g.n), "pre")
            s = st.soups["node"].copy(); st.soups["node"] = s
            for k in list(s.f):
                if k[0] != "#": s.f[k] = z3.Const(fresh_name(k), s.f[k].sort())
            s.dom = freshAB("dom"); s.ldom = freshAB("ldom")
            st.ghost["own"] = freshA("own"); st.ghost["idx"] = freshA("idx")
            n2 = {"push_front": g.n + 1, "push_back": g.n + 1, "pop_front": g.n - 1, "pop_back": g.n - 1, "clear": Lin(0)}[op]
            P2 = freshA("P"); st.ghost["n%d" % o.id] = n2; st.ghost["P%d" % o.id] = P2
            a1 = A(st); g1 = G(g.h, n2, P2)
            st.ghost["#havoc"] = st.ghost.get("#havoc", 0) + 1
            for _, f in rep(a1, g1) + glob(a1): st.assume(f)
            st.assume(frame(a0, a1, [g.h]))
            old = lambda i: at(a0.v, at(g.P, i))
            val = {"push_front": lambda i: ite(EQ(i, 1), e, old(i - 1)), "push_back": lambda i: ite(EQ(i, n2), e, old(i)),
                   "pop_front": lambda i: old(i + 1), "pop_back": old, "clear": old}[op]
            st.assume(contents(a1, g1, val))
            sh = {"push_front": 1, "pop_front": -1}.get(op)
            if sh is not None:        # the nodes stay where they are in memory
                q = z3.Int("q?"); i = lin(q)
                st.assume(z3.ForAll([q], Imp(And(LE(1 + max(sh, 0), i), LE(i, n2)), EQ(at(P2, i), at(g.P, i - sh))), patterns=[z3.Select(P2, q)]))
            for d in (0, 1, n2 - 1, n2): st.assume(STEP(lin(d).z()))
            ob = ex.mut(st, o.id)
            ob.cells[self.oSize] = (8, n2); hd = self.oHead + self.oData
            if op[:4] == "push": ob.cells[hd] = ("E", ElemV(fresh("headdata"), TRUE))
            if self.singly and tail: ob.cells[self.oTail] = (8, self.tagged(at(P2, n2)))
            return [(st, None)]
        c = Contract(name, pat, apply)
        c.keep = tail or op == "clear"       # their ghost state is needed even where everything else is inlined
        return c

    def at(self, ex, st, addr, what):
        addr = st.norm(addr)
        for a, k in addr.t:
            if a in st.bases and k == 1 and isinstance(st.heap[st.bases[a]], Obj) and addr.eq(st.heap[st.bases[a]].base): return st.heap[st.bases[a]]
        raise ToolLimit("%s: list argument %s" % (what, addr))


# ------------------------------------------------------------------ loops
def lists_template(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    from ..loops import Cand, ptr_atoms
    out = []
    ids = entry.ghost["#lists"]
    a0 = A(entry)
    changed = [i for i in ids if "n%d" % i in hv.ghosts or "P%d" % i in hv.ghosts]
    mem = bool(hv.soups) or bool(changed)
    L = ex.special["#L"]
    hs = [entry.ghost["h%d" % i] for i in changed]
    counters = [("n%d" % i, lambda s, i=i: s.ghost["n%d" % i]) for i in changed] + ([("nvisit", lambda s: s.ghost["nvisit"])] if "nvisit" in hv.ghosts else [])
    if mem:
        for i in ids:
            for j in range(5): out.append(Cand("list: " + rep(a0, seq_of(entry, i))[j][0], lambda c, i=i, j=j: rep(A(c.st), seq_of(c.st, i))[j][1], True))
        for j in range(2): out.append(Cand(glob(a0)[j][0], lambda c, j=j: glob(A(c.st))[j][1], True))
        out.append(Cand("other lists are not touched", lambda c: frame(a0, A(c.st), hs), True))
        for i in changed:
            out.append(Cand("neighbours of the ends", lambda c, i=i: And(STEP(lin(0).z()), STEP(c.st.ghost["n%d" % i].z()), STEP((c.st.ghost["n%d" % i] - 1).z())), True))
            cell = lambda c, i, off: c.st.heap[i].cells[off][1]
            out.append(Cand("recorded size", lambda c, i=i: EQ(cell(c, i, L.oSize), c.st.ghost["n%d" % i]), True))
            if L.singly and L.oTail in entry.heap[i].cells: out.append(Cand("tail pointer", lambda c, i=i: EQ(cell(c, i, L.oTail), at(c.st.ghost["P%d" % i], c.st.ghost["n%d" % i])), True))
            for oid, o in entry.heap.items():
                if isinstance(o, Obj) and o.kind == "param" and 0 in o.cells and o.cells[0][0] == "E":
                    out.append(Cand("all elements are the argument", lambda c, i=i, e=o.cells[0][1].val: contents(A(c.st), seq_of(c.st, i), lambda k: e), True))
            for b in ids:
                if b == i: continue
                gb = seq_of(entry, b)
                out.append(Cand("the first elements of the other list", lambda c, i=i, gb=gb: contents(A(c.st), seq_of(c.st, i), lambda k: at(a0.v, at(gb.P, k))), True))
    for nm, t in counters:
        for b in ids: out.append(Cand("%s <= length" % nm, lambda c, t=t, b=b: And(LE(0, t(c.st)), LE(t(c.st), entry.ghost["n%d" % b])), True))
        for i in ivars:
            if ptr_atoms(lvars[i].entry) or any(AT.meta[x].get("tag") for x in lvars[i].head.atoms()): continue
            d0 = lvars[i].entry + t(entry); d1 = lvars[i].entry - t(entry)
            out.append(Cand("%s + %s const" % (lvars[i].name, nm), lambda c, i=i, t=t, d0=d0: EQ(c.v[i] + t(c.st), d0)))
            out.append(Cand("%s - %s const" % (lvars[i].name, nm), lambda c, i=i, t=t, d1=d1: EQ(c.v[i] - t(c.st), d1)))
    ptrs = [i for i in range(len(lvars)) if isinstance(lvars[i].head, Lin) and isinstance(lvars[i].entry, Lin) and any(AT.meta[x].get("tag") == "node" for x in lvars[i].head.atoms())]
    for x, i in enumerate(ptrs):
        off = lvars[i].head.c
        for j in ptrs[:x]:
            d = entry.norm(lvars[i].entry) - entry.norm(lvars[j].entry)
            if d.const(): out.append(Cand("pointers move together", lambda c, i=i, j=j, d=d: EQ(c.v[i] - c.v[j], d)))
        for b in ids:
            for nm, t in counters:
                for form in ("t+1", "n-t", "n-t+1", "t"):
                    def fm(c, i=i, b=b, t=t, form=form, off=off):
                        g = seq_of(c.st, b); k = t(c.st)
                        k = {"t+1": k + 1, "n-t": g.n - k, "n-t+1": g.n - k + 1, "t": k}[form]
                        return And(EQ(c.v[i] - off, at(g.P, k)), STEP(k.z()), STEP((k - 1).z()))
                    out.append(Cand("%s is at position %s, t=%s" % (lvars[i].name, form, nm), fm, True))
            for form in ("<", "<="):
                def fm2(c, i=i, b=b, form=form, off=off):
                    g = seq_of(c.st, b); a = A(c.st); k = c.v[i] - off
                    return And(bat(a.ldom, k), EQ(at(a.own, k), g.h), cmp(form, at(a.idx, k), g.n), STEP(at(a.idx, k).z()), STEP((at(a.idx, k) + 1).z()))
                out.append(Cand("%s is a link of the list, position %s length" % (lvars[i].name, form), fm2, True))
    if "nvisit" in hv.ghosts:
        for b in ids:
            for rev in (0, 1):
                def vis(c, b=b, rev=rev):
                    q = z3.Int("q?"); k = lin(q); g = seq_of(entry, b)
                    return z3.ForAll([q], Imp(And(LE(0, k), LT(k, c.st.ghost["nvisit"])), z3.Select(c.st.ghost["visited"], q) == at(a0.v, at(g.P, (g.n - k) if rev else (k + 1))).z()), patterns=[z3.Select(c.st.ghost["visited"], q)])
                out.append(Cand("visited so far" + (" (backwards)" if rev else ""), vis, True))
    return out


def measures():
    out = []
    def mk(fn):
        def m(ex, c): return fn(c)
        return m
    out.append(mk(lambda c: c.st.ghost["n%d" % c.entry.ghost["#lists"][0]] if c.entry.ghost["#lists"] else None))
    for p in (0, 1):
        def mv(c, p=p):
            ids = c.entry.ghost["#lists"]
            return c.entry.ghost["n%d" % ids[p]] - c.st.ghost["nvisit"] if p < len(ids) else None
        out.append(mk(mv))
    def cnt(c):
        ids = c.entry.ghost["#lists"]
        return c.entry.ghost["n%d" % ids[1]] - c.st.ghost["n%d" % ids[0]] if len(ids) > 1 else None
    out.append(mk(cnt))
    for x in range(3):
        def pos(c, x=x):
            ps = [v for v in c.v if isinstance(v, Lin) and any(AT.meta[y].get("tag") == "node" for y in v.atoms())]
            if x >= len(ps): return None
            a = A(c.st); ids = c.entry.ghost["#lists"]
            return c.st.ghost["n%d" % ids[0]] - at(a.idx, ps[x]) + 1
        out.append(mk(pos))
    return out


# ------------------------------------------------------------------ units
def units(L, mod, tag):
    T = "SinglyLinkedList" if L.singly else "DoublyLinkedList"
    it = "SinglyLinkListIterator_" if L.singly else "DoublyLinkListIterator_"
    D = r"dstruct::%s<Elem, VA>::" % T; Bs = r"dstruct::LinkedList_<Elem, dstruct::%s, VA>::" % it
    el = r"\(Elem const&\)"
    cs = [L.contract(T + "::push_back", D + "push_back" + el, "push_back"), L.contract(T + "::push_front", D + "push_front" + el, "push_front"),
          L.contract(T + "::pop_front", D + r"pop_front\(\)", "pop_front"), L.contract(T + "::clear", D + r"clear\(\)", "clear"),
          L.contract(T + "::pop_back", D + r"_?pop_back\(\)", "pop_back"),
          L.contract("LinkedList_::push_front", Bs + "push_front" + el, "push_front", False), L.contract("LinkedList_::pop_front", Bs + r"pop_front\(\)", "pop_front", False),
          L.contract("LinkedList_::_clear", Bs + r"_clear\(\)", "clear", False)]
    us = []
    special = {"#free": free_node(L.nsize), "#L": L, "#measures": measures()}

    def U(name, fn, s, p):
        u = Unit("%s::%s" % (T, name), fn, s, p, contracts=cs, special=dict(special), templates=[lists_template], policy=lambda ex, st, n: new_node(ex, st, n, L.nsize))
        us.append(u)

    def setup(ctor=False, elem=False, src=False, out=False, args=("this",), pre=None, tail=True, inside=True, extra=()):
        def f(ex):
            res = []
            for self_ in ([False, True] if src and not ctor else [False]):
                st = L.world(ex)
                o = L.obj(ex, st, "this")
                c = {"obj": o.id}
                c["g"] = L.raw(ex, st, o, "this") if ctor else L.valid(ex, st, o, "this", tail)
                label = ""
                if src:
                    if self_: c["src"] = o.id; c["gs"] = c["g"]; label = "self"; c["self"] = True
                    else:
                        so = L.obj(ex, st, "src"); c["src"] = so.id; c["gs"] = L.valid(ex, st, so, "src")
                for x in extra:
                    v = fresh(x); st.assume(And(LE(0, v), LE(v, LIM))); c[x] = v
                alts = [(label, st, c)]
                if elem:
                    alts = []
                    s2 = st.fork(); eo = ex.add_obj(s2, ESZ, "element", "param"); eo = ex.mut(s2, eo.id); ev = fresh("e"); eo.cells[0] = ("E", ElemV(ev, TRUE)); eo.ro = True
                    alts.append((label, s2, dict(c, e=ev, earg=eo.base)))
                    if inside and not ctor:
                        s3 = st.fork(); j = fresh("j"); s3.assume(And(LE(1, j), LE(j, c["g"].n)))
                        p = fresh("inside", tag="node"); s3.assume(EQ(p, at(c["g"].P, j)))
                        alts.append(("element inside", s3, dict(c, e=at(A(s3).v, p), earg=p + L.oData)))
                for lb, s, cc in alts:
                    cc = dict(cc)
                    if out:
                        oo = ex.add_obj(s, ESZ, "result", "param"); cc["out"] = oo.base; cc["outobj"] = oo.id
                    for p in (pre(cc) if pre else []): s.assume(p)
                    cc["a0"] = A(s); s.ghost["nvisit"] = Lin(0)
                    al = []
                    for x in args: al.append(s.heap[cc["obj"]].base if x == "this" else s.heap[cc["src"]].base if x == "src" else cc["earg"] if x == "e" else cc[x])
                    res.append((lb, s, al, cc))
            return res
        return f

    def old(c): return lambda i: at(c["a0"].v, at(c["g"].P, i))

    def same_w(c, g=None):
        g = g or c["g"]; a0 = c["a0"]
        return W(g.h, g.n, lambda i: at(g.P, i), lambda k: at(a0.own, k), lambda k: at(a0.idx, k), lambda i: at(a0.v, at(g.P, i)))

    def post(wit, tail=True, srcwit=None, ens=None, dtor=False):
        """wit(ex, st, c) -> the list the object must be; the other lists stay as they were"""
        def f(ex, st, r, c):
            a1 = A(st)
            if "outobj" in c:
                cell = st.heap[c["outobj"]].cells.get(0)
                if cell is None: ex.oblige(st, "the result is constructed", FALSE, "post"); return
                ex.oblige(st, "the result is a live element", cell[1].live, "lifetime"); r = cell[1].val
            w = wit(ex, st, c)
            if dtor:
                d = st.heap[c["obj"]].cells.get(L.oHead + L.oData)
                ex.oblige(st, "the head's own element is destroyed", FALSE if d is None else Not(d[1].live), "lifetime")
                s = st.fork(); k = fresh("k")
                ex.oblige(s, "every node of the destroyed list is released", Imp(And(bat(a1.ldom, k), EQ(w.own(k), w.h)), EQ(k, w.h)), "leak")
            else:
                L.cells(ex, st, c["obj"], w, "result", tail)
                check(ex, st, a1, w)
            heads = [c["g"].h]
            if "src" in c and not c.get("self"):
                ws = srcwit(ex, st, c) if srcwit else same_w(c, c["gs"])
                ws.own = w.own; ws.idx = w.idx
                L.cells(ex, st, c["src"], ws, "source")
                check(ex, st, a1, ws, "source"); heads.append(c["gs"].h)
            check_glob(ex, st, a1, w.own)
            check_frame(ex, st, c["a0"], a1, w.own, w.idx, heads)
            for nm, g in (ens(ex, st, r, c) if ens else []): ex.oblige(st, nm, g, "post")
        return f

    def size(st, c):
        x = st.heap[c["obj"]].cells.get(L.oSize)
        return x[1] if x is not None and isinstance(x[1], Lin) else lin(-1)

    def contracted(st, c): return not seq_of(st, c["obj"]).P.eq(c["g"].P)

    def w_push(front):
        def f(ex, st, c):
            if contracted(st, c):
                g = c["g"]
                return ghost_w(lambda c, i: ite(EQ(i, 1), c["e"], old(c)(i - 1)) if front else ite(EQ(i, g.n + 1), c["e"], old(c)(i)))(ex, st, c)
            g, a0 = c["g"], c["a0"]; xs = st.ghost.get("#new", ())
            if len(xs) != 1:
                ex.oblige(st, "exactly one node is allocated", FALSE, "post")
                return same_w(c)
            x = xs[0]; o = old(c)
            own = lambda k: ite(EQ(k, x), g.h, at(a0.own, k))
            if front:
                return W(g.h, g.n + 1, lambda i: ite(LE(i, 0), g.h, ite(EQ(i, 1), x, at(g.P, i - 1))), own,
                         lambda k: ite(EQ(k, x), lin(1), at(a0.idx, k) + ite(And(EQ(at(a0.own, k), g.h), NE(k, g.h)), lin(1), lin(0))), lambda i: ite(EQ(i, 1), c["e"], o(i - 1)))
            return W(g.h, g.n + 1, lambda i: ite(LE(i, g.n), at(g.P, i), ite(EQ(i, g.n + 1), x, g.h)), own, lambda k: ite(EQ(k, x), g.n + 1, at(a0.idx, k)), lambda i: ite(EQ(i, g.n + 1), c["e"], o(i)))
        return f

    def w_pop(front):
        def f(ex, st, c):
            if contracted(st, c): return ghost_w(lambda c, i: old(c)(i + 1) if front else old(c)(i))(ex, st, c)
            g, a0 = c["g"], c["a0"]; o = old(c); own = lambda k: at(a0.own, k)
            if front:
                return W(g.h, g.n - 1, lambda i: ite(LE(i, 0), g.h, at(g.P, i + 1)), own, lambda k: at(a0.idx, k) - ite(And(EQ(at(a0.own, k), g.h), NE(k, g.h)), lin(1), lin(0)), lambda i: o(i + 1))
            return W(g.h, g.n - 1, lambda i: ite(LT(i, g.n), at(g.P, i), g.h), own, lambda k: at(a0.idx, k), o)
        return f

    def ghost_w(val):
        """the ghost state the contracts left"""
        def f(ex, st, c):
            a1 = A(st); g = seq_of(st, c["obj"])
            w = witness(a1, g, (lambda i: val(c, i)) if val else None)
            return w
        return f

    def w_empty(ex, st, c):
        a0 = c["a0"]; g = c["g"]
        return W(g.h, 0, lambda i: g.h, lambda k: at(st.ghost["own"], k), lambda k: at(st.ghost["idx"], k), None)

    def w_moved(ex, st, c):
        if c.get("self"): return same_w(c)
        g, gs = c["g"], c["gs"]; own1, idx1 = st.ghost["own"], st.ghost["idx"]
        return W(g.h, gs.n, lambda i: ite(And(LE(1, i), LE(i, gs.n)), at(gs.P, i), g.h), lambda k: ite(And(EQ(at(own1, k), gs.h), NE(k, gs.h)), g.h, at(own1, k)),
                 lambda k: at(idx1, k), lambda i: at(c["a0"].v, at(gs.P, i)))

    def w_src_empty(ex, st, c):
        h = c["gs"].h
        return W(h, 0, lambda i: h, None, None, None)
    same = lambda ex, st, c: same_w(c)
    ne = lambda c: [LT(0, c["g"].n)]
    room = lambda c: [LE(c["g"].n + 1, LIM)]
    u = lambda fn: "re:" + fn
    # base class members
    U("LinkedList_::push_front", u(Bs + "push_front" + el), setup(elem=True, args=("this", "e"), pre=room, tail=False), post(w_push(True), tail=False))
    U("LinkedList_::pop_front", u(Bs + r"pop_front\(\)"), setup(pre=ne, tail=False), post(w_pop(True), tail=False))
    U("LinkedList_::_clear", u(Bs + r"_clear\(\)"), setup(tail=False), post(ghost_w(None), tail=False, ens=lambda ex, st, r, c: [("the list is empty", EQ(seq_of(st, c["obj"]).n, 0))]))
    # members
    D2 = lambda m: D if True else Bs
    find = lambda m, a: u("(%s|%s)%s%s" % (D, Bs, m, a))

    def M(name, m, *a): 
        U(name, m, *a)
    M("push_back", "w_push_back", setup(elem=True, args=("this", "e"), pre=room), post(w_push(False)))
    us[-1].off = (T + "::push_back",)
    M("push_front", "w_push_front", setup(elem=True, args=("this", "e"), pre=room), post(w_push(True), ens=lambda ex, st, r, c: [("size grows by one", EQ(size(st, c), c["g"].n + 1))]))
    us[-1].off = (T + "::push_front",)
    M("push", "w_push", setup(elem=True, args=("this", "e"), pre=room), post(w_push(True), ens=lambda ex, st, r, c: [("size grows by one", EQ(size(st, c), c["g"].n + 1))]))
    for nm in ("pop_front", "pop"):
        M(nm, "w_" + nm, setup(pre=ne), post(w_pop(True), ens=lambda ex, st, r, c: [("size shrinks by one", EQ(size(st, c), c["g"].n - 1))]))
        us[-1].off = (T + "::pop_front",)
    M("pop_back", "w_pop_back", setup(pre=ne), post(w_pop(False)))
    us[-1].off = (T + "::pop_back",)
    is0 = lambda ex, st, r, c: [("the list is empty", EQ(seq_of(st, c["obj"]).n, 0))]
    M("clear", "w_clear", setup(), post(ghost_w(None), ens=is0))
    us[-1].off = (T + "::clear",)
    M(T + "()", "w_ctor", setup(ctor=True), post(w_empty))
    M(T + "(n,e)", "w_ctor_n", setup(ctor=True, elem=True, extra=("n",), args=("this", "n", "e")), post(ghost_w(lambda c, i: c["e"]), ens=lambda ex, st, r, c: [("n elements", EQ(seq_of(st, c["obj"]).n, c["n"]))]))
    cval = lambda c, i: at(c["a0"].v, at(c["gs"].P, i))
    csize = lambda ex, st, r, c: [("as many elements as the source", EQ(seq_of(st, c["obj"]).n, c["gs"].n))]
    M(T + "(copy)", "w_copy_ctor", setup(ctor=True, src=True, args=("this", "src")), post(ghost_w(cval), ens=csize))
    M("operator=(copy)", "w_copy", setup(src=True, args=("this", "src")), post(ghost_w(cval), ens=csize))
    M(T + "(move)", "w_move_ctor", setup(ctor=True, src=True, args=("this", "src")), post(w_moved, srcwit=w_src_empty))
    M("operator=(move)", "w_move", setup(src=True, args=("this", "src")), post(w_moved, srcwit=w_src_empty))
    M("~" + T, "w_dtor", setup(), post(ghost_w(None), dtor=True))
    M("empty", "w_empty", setup(), post(same, ens=lambda ex, st, r, c: [("empty exactly when there are no elements", r == EQ(c["g"].n, 0))]))
    M("size", "w_size", setup(), post(same, ens=lambda ex, st, r, c: [("size is the number of elements", EQ(r, c["g"].n))]))
    M("front", "w_front", setup(out=True, args=("out", "this"), pre=ne), post(same, ens=lambda ex, st, r, c: [("front is the first element", EQ(r, old(c)(lin(1))))]))
    M("back", "w_back", setup(out=True, args=("out", "this"), pre=ne), post(same, ens=lambda ex, st, r, c: [("back is the last element", EQ(r, old(c)(c["g"].n)))]))

    def visits(rev):
        def f(ex, st, r, c):
            k = fresh("k"); g = c["g"]
            return [("iteration visits every element once and stops", EQ(st.ghost["nvisit"], g.n)),
                    ("iteration visits the elements in order", Imp(And(LE(0, k), LT(k, g.n)), EQ(at(st.ghost["visited"], k), old(c)((g.n - k) if rev else (k + 1)))))]
        return f
    for w in ("iterate", "citerate", "rangefor"): M("iterator " + w, "w_" + w, setup(), post(same, ens=visits(False)))
    if not L.singly:
        for w in ("reverse", "reverse2"): M("iterator " + w, "w_" + w, setup(), post(same, ens=visits(True)))
    for x in us: x.mod = mod
    return us


# ------------------------------------------------------------------ C14: the links themselves
def link_units(L, mod):
    T = "SinglyLink_" if L.singly else "DoublyLink_"
    us = []
    flds = ["next"] + ([] if L.singly else ["prev"])

    def U(name, fn, s, p):
        u = Unit("links %s::%s" % (T, name), fn, s, p, special={"#L": L}); u.mod = mod; us.append(u)

    def link(ex, st, nm, *facts):
        x = fresh(nm, tag="node"); st.assume(And(LT(0, x), LE(x, E.MAXADDR - 64), bat(st.soups["node"].ldom, x)))
        return x

    def local(pre, nargs):
        """any links whatever: exactly which fields change"""
        def f(ex):
            st = L.world(ex); xs = [link(ex, st, n) for n in ("prev", "curr")[:nargs]]
            a = A(st); c = {"a0": a, "x": xs}
            for p in pre(st, a, xs): st.assume(p)
            return [("", st, list(xs), c)]
        return f

    def changed(want):
        """want(a0, xs) -> {field: [(link, condition, new value)]}"""
        def f(ex, st, r, c):
            a0, a1 = c["a0"], A(st); w = want(a0, c["x"]); k = fresh("k"); s = st.fork()
            for fd in flds:
                f0, f1 = getattr(a0, fd), getattr(a1, fd); other = []
                for x, cond, v in w.get(fd, []):
                    other.append(Not(And(EQ(k, x), cond)))
                    if v is not None: ex.oblige(s, "%s of the link is set" % fd, Imp(cond, EQ(at(f1, x), v)), "post")
                ex.oblige(s, "no other %s link changes" % fd, Imp(And(*other), EQ(at(f1, k), at(f0, k))), "post")
            for y, z in ((a1.v, a0.v), (a1.l, a0.l)): ex.oblige(s, "no element changes", z3.Select(y, k.z()) == z3.Select(z, k.z()), "post")
        return f
    nxt = lambda a, x: lin(z3.Select(a.next, x.z()))
    addw = lambda a, x: {"next": [(x[0], TRUE, x[1]), (x[1], TRUE, nxt(a, x[0]))], "prev": [(x[1], TRUE, x[0]), (nxt(a, x[0]), NE(nxt(a, x[0]), 0), x[1])]}
    delw = lambda a, x: {"next": [(x[0], TRUE, nxt(a, x[1])), (x[1], TRUE, None)], "prev": [(x[1], TRUE, None), (nxt(a, x[1]), NE(nxt(a, x[1]), 0), x[0])]}
    addp = lambda st, a, x: [NE(x[0], x[1]), NE(x[1], nxt(a, x[0])), Or(EQ(nxt(a, x[0]), 0), bat(a.ldom, nxt(a, x[0])))]
    delp = lambda st, a, x: [NE(x[0], x[1]), EQ(nxt(a, x[0]), x[1]), NE(nxt(a, x[1]), x[1]), Or(EQ(nxt(a, x[1]), 0), bat(a.ldom, nxt(a, x[1])))]
    no = lambda *a: []

    # whole lists, circular and open
    def chain(ex, open_, pos=None, extra=False):
        st = L.world(ex); h = fresh("head", tag="node"); st.assume(And(LT(0, h), LE(h, E.MAXADDR - 64)))
        n = fresh("n"); P = freshA("P"); a = A(st); g = G(h, n, P, Lin(0) if open_ else h)
        for _, f in rep(a, g): st.assume(f)
        j = fresh("j"); st.assume(And(LE(0, j), LE(j, n)))
        for d in (0, n, j - 1, j, j + 1, j + 2): st.assume(STEP(lin(d).z()))
        c = {"a0": a, "g": g, "j": j}
        if extra:
            x = link(ex, st, "curr"); st.assume(And(bat(a.dom, x), bat(a.l, x), NE(at(a.own, x), h), LE(n + 1, LIM))); c["x"] = x
        return st, c

    def ptr(st, l, nm):
        x = fresh(nm, tag="node"); st.assume(EQ(x, l)); return x

    def add_setup(ex):
        res = []
        for open_ in (False, True):
            st, c = chain(ex, open_, extra=True); p = ptr(st, at(c["g"].P, c["j"]), "prev")
            res.append(("open" if open_ else "circular", st, [p, c["x"]], c))
        return res

    def del_setup(ex):
        res = []
        for open_ in (False, True):
            st, c = chain(ex, open_); st.assume(LT(c["j"], c["g"].n)); p = ptr(st, at(c["g"].P, c["j"]), "prev"); x = ptr(st, at(c["g"].P, c["j"] + 1), "curr"); c["x"] = x
            res.append(("open" if open_ else "circular", st, [p, x], c))
        return res

    def others(ex, st, c, own, idx):
        k = fresh("k"); s = st.fork(); a0, a1 = c["a0"], A(st)
        ok = And(NE(at(a0.own, k), c["g"].h), NE(k, c["x"])) if "x" in c else NE(at(a0.own, k), c["g"].h)
        ex.oblige(s, "links of other lists are not touched", Imp(And(bat(a0.ldom, k), ok), And(EQ(at(a1.next, k), at(a0.next, k)), EQ(at(a1.prev, k), at(a0.prev, k)) if a1.prev is not None else TRUE)), "post")

    def add_post(ex, st, r, c):
        g, a0, j, x = c["g"], c["a0"], c["j"], c["x"]
        own = lambda k: ite(EQ(k, x), g.h, at(a0.own, k))
        idx = lambda k: ite(EQ(k, x), j + 1, at(a0.idx, k) + ite(And(EQ(at(a0.own, k), g.h), LT(j, at(a0.idx, k))), lin(1), lin(0)))
        check(ex, st, A(st), W(g.h, g.n + 1, lambda i: ite(LE(i, j), at(g.P, i), ite(EQ(i, j + 1), x, at(g.P, i - 1))), own, idx, None, g.end))
        others(ex, st, c, own, idx)

    def del_post(ex, st, r, c):
        g, a0, j, x = c["g"], c["a0"], c["j"], c["x"]
        own = lambda k: ite(EQ(k, x), lin(0), at(a0.own, k))
        idx = lambda k: at(a0.idx, k) - ite(And(EQ(at(a0.own, k), g.h), LT(j, at(a0.idx, k))), lin(1), lin(0))
        check(ex, st, A(st), W(g.h, g.n - 1, lambda i: ite(LE(i, j), at(g.P, i), at(g.P, i + 1)), own, idx, None, g.end))
        others(ex, st, c, own, idx)

    def empty_setup(ex):
        st, c = chain(ex, False); p = ptr(st, c["g"].h, "list")
        return [("", st, [p], c)]

    def empty_post(ex, st, r, c):
        ex.oblige(st, "a list is empty exactly when it has no links but its own", r == EQ(c["g"].n, 0), "post")
        others(ex, st, dict(c, g=G(lin(-1), 0, None)), None, None)

    def init_setup(ex):
        st = L.world(ex); x = link(ex, st, "list"); a = A(st)
        st.assume(And(EQ(at(a.own, x), x), EQ(at(a.idx, x), 0), Not(bat(a.dom, x))))
        q = z3.Int("q?"); st.assume(z3.ForAll([q], Imp(And(z3.Select(a.ldom, q), z3.Select(a.own, q) == x.z()), q == x.z()), patterns=[z3.Select(a.own, q)]))
        return [("", st, [x], {"a0": a, "x": [x]})]

    def init_post(ex, st, r, c):
        x = c["x"][0]; a0 = c["a0"]
        changed(lambda a, xs: {"next": [(x, TRUE, x)], "prev": [(x, TRUE, x)]})(ex, st, r, c)
        check(ex, st, A(st), W(x, 0, lambda i: x, lambda k: at(a0.own, k), lambda k: at(a0.idx, k), None))
    for w in ("link", "node"):
        nm = "" if w == "link" else "node "
        U(nm + "add changes only the neighbours", "w_%s_add" % w, local(addp, 2), changed(addw))
        U(nm + "del changes only the neighbours", "w_%s_del" % w, local(delp, 2), changed(delw))
        U(nm + "add in a list", "w_%s_add" % w, add_setup, add_post)
        U(nm + "del in a list", "w_%s_del" % w, del_setup, del_post)
        U(nm + "empty", "w_%s_empty" % w, empty_setup, empty_post)
        U(nm + "init", "w_%s_init" % w, init_setup, init_post)
    back = lambda ex, st, r, c: (changed(lambda a, x: {})(ex, st, r, c), ex.oblige(st, "the conversion is lossless", EQ(r, c["x"][0]), "post"))
    U("node to link to node", "w_node_rt", local(no, 1), back)
    U("link to node to link", "w_link_rt", local(no, 1), back)

    def same_as_member(ex, st, r, c):
        ex.oblige(st, "to_link is the node's own link", EQ(r, c["x"][0] + L.oLink), "post")
    U("to_link", "w_node_link", local(no, 1), same_as_member)
    U("member link", "w_member_link", local(no, 1), same_as_member)
    return us


def build(tmp):
    from .. import layout
    us = []
    for singly in (True, False):
        defs = ("DV_SINGLY",) if singly else ("DV_DOUBLY",)
        mod = layout.extract("list", tmp, defs)
        off = layout.offsets("list_layout.hpp", ["__builtin_offsetof(L_, mHeadNode_d)", "__builtin_offsetof(N_, data)", "__builtin_offsetof(L_, mSize_d)", "sizeof(L_)", "sizeof(N_)", "sizeof(N_::LinkType)"] + (["__builtin_offsetof(L_, mTailNodePtr_d)"] if singly else []), tmp, "list" + defs[0], defs)
        L = Lists(singly, off); L.oLink = layout.offsets("list_layout.hpp", ["__builtin_offsetof(N_, link)"], tmp, "link" + defs[0], defs)[0]
        us += units(L, mod, defs[0]) + link_units(L, mod)
    return mod, us


CLAIMS = {"C11": ("func", "SinglyLinkedList::.*"), "C12": ("func", "DoublyLinkedList::.*"), "C13": ("life", "(Singly|Doubly)LinkedList::.*"), "C14": ("all", "links .*")}
