"""Symbolic execution of the extracted LLVM IR, producing one verification condition per obligation.

Memory is split into chunks:
  Obj   an object with cells at constant offsets (locals, containers, single nodes)
  Arr   a block of equally sized slots (value per slot, and for elements a live/raw flag per slot)
  Soup  all nodes of one kind, as arrays indexed by node address (dom = which addresses hold a node)
Every access must be proved to stay in memory that is owned at that moment."""
import time, z3, re
from .sym import *
from .ir import Unsupported

MAXADDR = 1 << 47


class ToolLimit(Exception):
    """outside what this verifier can do: reported as undecided"""
    pass


class Undef:
    def __repr__(self): return "undef"


UNDEF = Undef()


class ElemV:
    """an element-typed slot: its value and whether an object lives there"""
    __slots__ = ("val", "live")

    def __init__(self, val, live): self.val = val; self.live = live


class Obj:
    __slots__ = ("id", "base", "size", "cells", "name", "kind", "alias", "subs", "fill", "ro")

    def __init__(self, id, base, size, name, kind):
        self.id = id; self.base = base; self.size = size; self.cells = {}; self.name = name; self.kind = kind
        self.alias = []; self.subs = []; self.fill = None; self.ro = False

    def copy(self):
        o = Obj(self.id, self.base, self.size, self.name, self.kind)
        o.cells = dict(self.cells); o.alias = self.alias; o.subs = self.subs; o.fill = self.fill; o.ro = self.ro
        return o


class Arr:
    __slots__ = ("id", "base", "stride", "count", "val", "live", "elem", "name", "kind", "ro", "tag")

    def __init__(self, id, base, stride, count, val, live, elem, name, kind, tag=None):
        self.id = id; self.base = base; self.stride = stride; self.count = count; self.val = val; self.live = live
        self.elem = elem; self.name = name; self.kind = kind; self.ro = False; self.tag = tag

    def copy(self):
        a = Arr(self.id, self.base, self.stride, self.count, self.val, self.live, self.elem, self.name, self.kind, self.tag)
        a.ro = self.ro
        return a


class Soup:
    """layout: {offset relative to key: (width|'E', field, tag)}; element fields keep arrays field+'.v' and field+'.l'
    nodesize / keyoff: allocated node base = key - keyoff.  Keys with dom true may be read and written."""
    __slots__ = ("name", "layout", "nodesize", "keyoff", "dom", "f", "ldom", "slots", "flat")

    def __init__(self, name, layout, nodesize, keyoff, slots=None, flat=None):
        self.name = name; self.layout = layout; self.nodesize = nodesize; self.keyoff = keyoff; self.f = {}
        self.flat = flat          # (base, size): one object as raw memory, in aligned 8-byte cells: "w8" what an 8-byte and "w4" what a 4-byte access at an address reads
        self.slots = slots        # (stride, count, width, field): every node is an array of count slots, indexed by count * key + slot

    def copy(self):
        s = Soup(self.name, self.layout, self.nodesize, self.keyoff, self.slots, self.flat); s.f = dict(self.f); s.dom = self.dom; s.ldom = self.ldom
        return s


class State:
    def __init__(self):
        self.facts = []; self.light = []; self.heap = {}; self.bases = {}; self.soups = {}; self.ghost = {}; self.rw = {}
        self.trace = []; self.dead = {}; self.allocs = []; self.log = []; self.views = {}

    def fork(self):
        s = State()
        s.facts = list(self.facts); s.light = list(self.light); s.heap = dict(self.heap); s.bases = dict(self.bases)
        s.soups = dict(self.soups); s.ghost = dict(self.ghost); s.rw = dict(self.rw); s.trace = list(self.trace)
        s.dead = dict(self.dead); s.allocs = list(self.allocs); s.log = list(self.log); s.views = dict(self.views)
        return s

    def assume(self, f):
        f = Z(f)
        if z3.is_true(f): return
        if z3.is_and(f):
            for c in f.children(): self.assume(c)
            return
        self.facts.append(f)
        if not has_q(f): self.light.append(f)

    def norm(self, l):
        if not self.rw: return l
        while True:
            for a, k in l.t:
                if a in self.rw:
                    l = l - Lin(0, ((a, k),)) + self.rw[a] * k
                    break
            else: return l


class Ref:
    """resolved location"""
    __slots__ = ("kind", "id", "off", "idx", "field", "key", "w", "tag")

    def __init__(self, kind, id, off=None, idx=None, field=None, key=None, w=None, tag=None):
        self.kind = kind; self.id = id; self.off = off; self.idx = idx; self.field = field; self.key = key; self.w = w; self.tag = tag


class Exec:
    def __init__(self, mod, timeout=10000):
        self.m = mod; self.sol = Solver(timeout)
        self.contracts = []          # (compiled regex on demangled name, handler)
        self.special = {}            # mangled/demangled name -> handler(ex, st, args, inst) -> [(st, ret)]
        self.dry = 0; self.obl = []; self.fails = []; self.limits = []
        self.depth = 0; self.stack = []; self.unroll = 0; self.templates = []; self.alloc_policy = None
        self.measures = []; self.under = None; self.boolmap = {}; self.cmap = {}; self.used = {}; self.inlined = set()
        self.loopinfo = []; self.unterm = set(); self.nid = 0; self.globals = {}; self.elem_size = 24
        self.bounded = 0; self.deadline = None; self.cheap = 0; self.survivors = {}; self.changes = {}; self.soup_rules = []; self.loopno = 0; self.maxpaths = 4000; self.npaths = 0
        self.nullptr_ok = False

    # ------------------------------------------------------------ facts
    def feasible(self, st, *extra):
        if self.deadline and time.time() > self.deadline: raise ToolLimit("time budget for this unit used up")
        ex = [Z(e) for e in extra]
        for e in ex:
            if z3.is_false(e): return False
        r, _ = self.sol.light(st.light, ex)
        return r != z3.unsat

    def valid_light(self, st, f):
        f = Z(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return not self.feasible(st)
        r, _ = self.sol.light(st.light, [Not(f)])
        return r == z3.unsat

    def valid(self, st, f, full=True):
        f = Z(f)
        if z3.is_true(f): return True
        if not has_q(f):
            if self.valid_light(st, f): return True
        if not full or len(st.facts) == len(st.light) and not has_q(f): return False
        r, _ = self.sol.full(st.facts, [Not(f)], 5000)
        return r == z3.unsat

    def where(self):
        if not self.stack: return "spec"
        f, i = self.stack[-1]
        return "%s:%s" % (shortname(f.dem), i.line if i is not None else f.line)

    def oblige(self, st, what, f, kind="safety"):
        """the verification condition: path facts imply f.  Then f is assumed."""
        f = Z(f)
        if self.deadline and time.time() > self.deadline: raise ToolLimit("time budget for this unit used up")
        if self.dry:
            st.assume(f); return True
        name = "%s | %s | %s" % (self.under or "", self.where(), what)
        t = time.time()
        how = "ok"; detail = ""
        if not z3.is_true(f) and not (z3.is_and(f) and self.special.get("#quickhavoc") and self.parts(st, f)):
            r = z3.unknown
            nq = not has_q(f)
            if nq:
                r, m = self.sol.light(st.light, [Not(f)])
                if r == z3.unknown and len(st.facts) == len(st.light): r, m = self.retry(st, f)
            if r != z3.unsat and (len(st.facts) != len(st.light) or not nq):
                r, m = self.sol.full(st.facts, [Not(f)])
                if r == z3.unknown:
                    r, m = self.retry(st, f)
            if r != z3.unsat:
                how = "refuted" if r == z3.sat and not self.special.get("#partial") else "unknown"      # facts instantiated by hand: a model proves nothing
                detail = self.describe(st, f, m if r == z3.sat else None)
        self.obl.append((name, kind, how, time.time() - t))
        if how != "ok":
            self.fails.append({"name": name, "kind": kind, "how": how, "detail": detail, "inv": st.ghost.get("#havoc", 0)})
        if z3.is_false(f): return False
        if not (kind == "invariant" and self.special.get("#quickhavoc")): st.assume(f)
        return how == "ok"

    def parts(self, st, f):
        """a conjunction of ground facts follows when its parts do"""
        if has_q(f): return False
        for p in f.children():
            if self.sol.light(st.light, [Not(p)])[0] != z3.unsat and self.retry(st, p)[0] != z3.unsat: return False
        return True

    def retry(self, st, f):
        """a fresh, non-incremental solver for queries the incremental one gives up on"""
        def ask(**opt):
            s = z3.Solver(); s.set("timeout", self.sol.timeout)
            for o, v in opt.items(): s.set(o.replace("__", "."), v)
            for x in st.facts: s.add(x)
            s.add(Not(f))
            t = time.time(); self.sol.n += 1
            r = s.check(); self.sol.time += time.time() - t
            return r, s
        r, s = ask()
        if r == z3.sat:
            try: return r, s.model()
            except z3.Z3Exception: return r, None
        if r == z3.unknown and len(self.fails) < 3:      # E-matching depends on luck: other seeds and settings
            for opt in ({"smt__random_seed": 7}, {"smt__random_seed": 11, "smt__arith__solver": 2}, {"smt__random_seed": 23, "smt__relevancy": 0}):
                if ask(smt__mbqi=False, **opt)[0] == z3.unsat: return z3.unsat, None
        return r, None

    def describe(self, st, f, m):
        out = ["goal: %s" % str(f)[:600], "path: %s" % " ; ".join(st.trace[-25:])]
        if m is not None:
            vs = []
            for d in m.decls()[:400]:
                if d.arity() == 0 and d.range() == I: vs.append("%s=%s" % (d.name(), m[d]))
            out.append("model: " + ", ".join(sorted(vs)[:80]))
        return "\n".join(out)

    # ------------------------------------------------------------ chunks
    def newid(self):
        self.nid += 1
        return self.nid

    def _place(self, st, ch, size, nonnull=True):
        """address facts of a new chunk: inside the address space, disjoint from every other owned chunk"""
        b = ch.base
        size = lin(size)
        st.assume(And(LT(0, b), LE(b + size, MAXADDR), LE(0, size)))
        for o in st.heap.values():
            if o is ch or o.kind == "sub": continue
            os = lin(o.size) if isinstance(o, Obj) else o.count * o.stride
            if (o.base - b).t and not self.sameatom(o.base, b):
                st.assume(Or(LE(o.base + os, b), LE(b + size, o.base)))

    def sameatom(self, a, b):
        return set(x for x, _ in a.t) == set(x for x, _ in b.t)

    def add_obj(self, st, size, name, kind, base=None):
        i = self.newid()
        if base is None: base = fresh(name + "@", base=True)
        o = Obj(i, base, size, name, kind)
        self._place(st, o, size)
        st.heap[i] = o; st.bases[base.t[0][0]] = i
        return o

    def add_arr(self, st, stride, count, elem, name, kind, val=None, live=None, base=None, tag=None):
        i = self.newid()
        if base is None: base = fresh(name + "@", base=True)
        if val is None: val = freshA(name + ".val")
        if live is None and elem == "E": live = freshAB(name + ".live")
        a = Arr(i, base, stride, lin(count), val, live, elem, name, kind, tag)
        self._place(st, a, a.count * stride)
        st.heap[i] = a; st.bases[base.t[0][0]] = i
        return a

    def add_sub(self, st, obj, off, stride, count, elem, name, val=None, live=None):
        """an array embedded in an object"""
        i = self.newid()
        if val is None: val = freshA(name + ".val")
        if live is None and elem == "E": live = freshAB(name + ".live")
        a = Arr(i, obj.base + off, stride, lin(count), val, live, elem, name, "sub")
        st.heap[i] = a
        o = obj.copy(); o.subs = o.subs + [(off, stride * count, i)]; st.heap[o.id] = o
        return a

    def drop(self, st, ch, why="freed"):
        del st.heap[ch.id]
        if ch.kind != "sub": st.bases.pop(ch.base.t[0][0], None); st.dead[ch.base.t[0][0]] = why

    def mut(self, st, id):
        c = st.heap[id].copy(); st.heap[id] = c
        return c

    # ------------------------------------------------------------ address resolution
    def resolve(self, st, addr, w, what):
        """returns list of (state, Ref); obligations for ownership and bounds are raised here"""
        addr = st.norm(addr)
        if addr.const():
            self.oblige(st, "%s: null or invalid pointer is not dereferenced" % what, FALSE)
            return None
        for a, k in addr.t:
            if a in st.bases and k == 1:
                ch = st.heap[st.bases[a]]
                return self._in_chunk(st, ch, addr - ch.base, addr, w, what)
        for a, k in addr.t:
            tag = AT.meta[a].get("tag")
            if tag and k == 1 and tag in st.soups:
                sp = st.soups[tag]
                off = addr - Lin(0, ((a, 1),))
                return self._in_soup(st, sp, Lin(0, ((a, 1),)), off, w, what)
        for a, k in addr.t:
            if k == 1 and a in st.dead:
                if self.feasible(st):
                    self.oblige(st, "%s: memory is not used after it was released" % what, FALSE)
                return None
        # must-alias by solver
        for ch in list(st.heap.values()):
            if ch.kind == "sub": continue
            for a, k in addr.t:
                if k == 1 and not AT.meta[a].get("base"):
                    rest = addr - Lin(0, ((a, 1),))
                    if self.valid_light(st, EQ(Lin(0, ((a, 1),)), ch.base)):
                        st.rw[a] = ch.base
                        return self._in_chunk(st, ch, rest, addr, w, what)
        if not self.valid_light(st, FALSE):
            self.oblige(st, "%s: pointer %s refers to memory that is owned" % (what, addr), FALSE)
        return None

    def _in_chunk(self, st, ch, off, addr, w, what):
        if isinstance(ch, Arr):
            ew = self.elem_size if ch.elem == "E" else ch.elem
            idx = off.div(ch.stride)
            if idx is None:
                # constant remainder?
                raise ToolLimit("%s: misaligned access into %s at %s" % (what, ch.name, off))
            if (w != "E" and ch.elem == "E") or (w == "E" and ch.elem != "E") or (w != "E" and w != ch.elem):
                raise ToolLimit("%s: access of width %s to %s slots of %s" % (what, w, ch.elem, ch.name))
            self.oblige(st, "%s: index stays inside %s" % (what, clean(ch.name)), And(LE(0, idx), LT(idx, ch.count)))
            return Ref("A", ch.id, idx=idx, w=w, tag=ch.tag)
        for (o, sz, i) in ch.subs:
            if off.const():
                if o <= off.c < o + sz: return self._in_chunk(st, st.heap[i], off - o, addr, w, what)
            else:
                if len(ch.subs) == 1 or self.valid_light(st, And(LE(o, off), LT(off, o + sz))):
                    return self._in_chunk(st, st.heap[i], off - o, addr, w, what)
        if not off.const():
            raise ToolLimit("%s: symbolic offset %s into %s" % (what, off, ch.name))
        for (o, sz, soup, kd) in ch.alias:
            if o <= off.c < o + sz:
                return self._in_soup(st, st.soups[soup], ch.base + kd, Lin(off.c - kd), w, what)
        ww = self.elem_size if w == "E" else w
        self.oblige(st, "%s: access stays inside %s" % (what, clean(ch.name)), And(LE(0, off), LE(off + ww, ch.size)))
        return Ref("O", ch.id, off=off.c, w=w)

    def _in_soup(self, st, sp, key, off, w, what):
        if sp.flat is not None:
            a = key + off; base, size = sp.flat
            hook = self.special.get("#onaccess")
            if hook: hook(self, st, a)
            if w not in (4, 8): raise ToolLimit("%s: access of width %s to %s" % (what, w, sp.name))
            self.oblige(st, "%s: the access stays inside %s and is aligned" % (what, sp.name), And(LE(base, a), LE(a + w, base + size), self.special["#aligned"](a - base)))
            return Ref("S", sp.name, field="w%d" % w, key=a, w=w, tag=sp.name if w == 8 else None)
        if sp.slots is not None:
            stride, count, ww, field = sp.slots
            s = off.div(stride)
            if s is None: raise ToolLimit("%s: misaligned access into %s at %s" % (what, sp.name, off))
            if w != ww: raise ToolLimit("%s: width %s for slots of %s" % (what, w, sp.name))
            hook = self.special.get("#onslot")
            if hook: hook(self, st, key, s)
            self.oblige(st, "%s: the slot belongs to an allocated %s" % (what, sp.name), And(z3.Select(sp.dom, key.z()), LE(0, s), LT(s, count)))
            return Ref("S", sp.name, field=field, key=key * count + s, w=w)
        if not off.const(): raise ToolLimit("%s: symbolic offset into node" % what)
        lay = sp.layout.get(off.c)
        if lay is None: raise ToolLimit("%s: offset %d is not a field of %s" % (what, off.c, sp.name))
        if lay[0] != w: raise ToolLimit("%s: width %s for field %s" % (what, w, lay[1]))
        dom = sp.ldom if lay[1] in sp.f.get("#link", ()) else sp.dom
        self.oblige(st, "%s: %s belongs to an allocated %s" % (what, lay[1], sp.name), z3.Select(dom, key.z()))
        return Ref("S", sp.name, field=lay[1], key=key, w=w, tag=lay[2])

    # ------------------------------------------------------------ loads/stores
    def load(self, st, addr, ty, what="read"):
        w = self.m.size(ty)
        r = self.resolve(st, addr, w, what)
        if r is None: return None
        return self.load_ref(st, r, ty)

    def load_ref(self, st, r, ty):
        isptr = ty is not None and ty.k == "ptr"
        if r.kind == "O":
            o = st.heap[r.id]
            c = o.cells.get(r.off)
            if c is None:
                if o.fill is not None: return Lin(o.fill)
                for off, (w, _) in o.cells.items():
                    ww = self.elem_size if w == "E" else w
                    if off < r.off + r.w and r.off < off + ww: raise ToolLimit("partial read of %s+%d" % (o.name, r.off))
                return UNDEF
            if c[0] != r.w: raise ToolLimit("read of width %s from a cell of width %s in %s+%d" % (r.w, c[0], o.name, r.off))
            v = c[1]
        elif r.kind == "A":
            a = st.heap[r.id]
            v = lin(select(a.val, r.idx.z()))
            self.ranged(st, v, r.w, isptr, r.tag)
            hook = self.special.get("#ontable")
            if hook and r.tag: hook(self, st, r, v)
        else:
            s = st.soups[r.id]
            v = lin(select(s.f[r.field], r.key.z()))
            self.ranged(st, v, r.w, isptr, r.tag)
            hook = self.special.get("#onload")
            if hook: hook(self, st, r, v)
        return v

    def ranged(self, st, v, w, isptr, tag=None):
        """typed value: in the range of its width"""
        if v.const(): return
        for a, k in v.t:
            m = AT.meta[a]
            if tag and "tag" not in m and len(v.t) == 1: m["tag"] = tag
        if isptr: f = And(LE(0, v), LE(v, MAXADDR))
        else: f = And(LE(-(1 << (8 * w - 1)), v), LT(v, 1 << (8 * w - 1)))
        key = ("rng", f.get_id() if not isinstance(f, bool) else 0)
        if st.ghost.get(key) is None:
            st.ghost[key] = f
            st.assume(f)

    def store(self, st, addr, v, ty, what="write"):
        w = self.m.size(ty)
        r = self.resolve(st, addr, w, what)
        if r is None: return False
        self.store_ref(st, r, v)
        return True

    def store_ref(self, st, r, v):
        if r.kind == "O":
            o = self.mut(st, r.id)
            if o.ro: self.oblige(st, "write: %s is not modified" % clean(o.name), FALSE)
            for off in list(o.cells):
                w = o.cells[off][0]; ww = self.elem_size if w == "E" else w
                if off != r.off and off < r.off + (self.elem_size if r.w == "E" else r.w) and r.off < off + ww:
                    if w == "E": raise ToolLimit("overwrite inside an element")
                    del o.cells[off]
            o.cells[r.off] = (r.w, v)
        elif r.kind == "A":
            a = self.mut(st, r.id)
            if a.ro: self.oblige(st, "write: %s is not modified" % clean(a.name), FALSE)
            if v is UNDEF: v = fresh("undef")
            a.val = z3.Store(a.val, r.idx.z(), Z(self.as_int(v)))
            hook = self.special.get("#onstore")
            if hook and r.tag: hook(self, st, r, self.as_int(v))
        else:
            s = st.soups[r.id].copy(); st.soups[r.id] = s
            if v is UNDEF: v = fresh("undef")
            s.f[r.field] = z3.Store(s.f[r.field], r.key.z(), Z(self.as_int(v)))
            if s.flat is not None:        # what an access of the other width would read is unknown
                o = "w4" if r.field == "w8" else "w8"
                s.f[o] = z3.Store(s.f[o], r.key.z(), fresh("mixed").z())
            for rule in self.soup_rules: rule(self, st, s, r, v)

    def as_int(self, v):
        if isinstance(v, Lin): return v
        if isinstance(v, z3.BoolRef): return ite(v, Lin(1), Lin(0)) if not (z3.is_true(v) or z3.is_false(v)) else Lin(1 if z3.is_true(v) else 0)
        if v is UNDEF: raise ToolLimit("use of an undefined value")
        return lin(v)

    # element slots
    def eref(self, st, addr, what):
        return self.resolve(st, addr, "E", what)

    def eget(self, st, r):
        if r.kind == "O":
            c = st.heap[r.id].cells.get(r.off)
            if c is None: return ElemV(fresh("raw"), FALSE)
            if c[0] != "E": raise ToolLimit("element access to a plain cell")
            return c[1]
        if r.kind == "A":
            a = st.heap[r.id]
            return ElemV(lin(select(a.val, r.idx.z())), select(a.live, r.idx.z()))
        s = st.soups[r.id]
        return ElemV(lin(select(s.f[r.field + ".v"], r.key.z())), select(s.f[r.field + ".l"], r.key.z()))

    def eset(self, st, r, val=None, live=None):
        if r.kind == "O":
            o = self.mut(st, r.id)
            old = o.cells.get(r.off)
            ov = old[1] if old else ElemV(fresh("raw"), FALSE)
            if o.ro: self.oblige(st, "element of %s is not modified" % clean(o.name), FALSE)
            o.cells[r.off] = ("E", ElemV(ov.val if val is None else val, ov.live if live is None else live))
        elif r.kind == "A":
            a = self.mut(st, r.id); i = r.idx.z()
            if a.ro: self.oblige(st, "element of %s is not modified" % clean(a.name), FALSE)
            if val is not None: a.val = z3.Store(a.val, i, val.z())
            if live is not None: a.live = z3.Store(a.live, i, live)
        else:
            s = st.soups[r.id].copy(); st.soups[r.id] = s; k = r.key.z()
            if val is not None: s.f[r.field + ".v"] = z3.Store(s.f[r.field + ".v"], k, val.z())
            if live is not None: s.f[r.field + ".l"] = z3.Store(s.f[r.field + ".l"], k, live)

    # ------------------------------------------------------------ values
    def val(self, env, st, ty, v):
        k = v[0]
        if k == "r":
            if v[1] not in env: raise ToolLimit("unbound %s" % v[1])
            return env[v[1]]
        if k == "c":
            if ty.k == "int" and ty.n == 1: return TRUE if v[1] & 1 else FALSE
            return Lin(v[1])
        if k == "u": return UNDEF
        if k == "z":
            if ty.k in ("int", "ptr"): return Lin(0)
            raise ToolLimit("aggregate constant")
        if k == "g": return self.global_addr(st, v[1])
        if k == "gep": return self.gep(env, st, v[1], v[2])
        if k in ("inttoptr", "ptrtoint", "bitcast"): return self.val(env, st, v[1], v[2])
        raise ToolLimit("constant %r" % (v,))

    def global_addr(self, st, n):
        """address of a global: a chunk per state, created on first use"""
        key = "@" + n
        if n in self.m.funcs or n in self.m.decls:
            i = self.globals.setdefault(key, fresh("fn_" + n, fn=n))
            return i
        b = self.globals.get(key)
        if b is None:
            b = fresh(key, base=True); self.globals[key] = b
        if b.t[0][0] not in st.bases:
            g = self.m.globals.get(n)
            if g is None:
                o = self.add_obj(st, 8, key, "global", base=b)
                return b
            ty, init, const = g
            try: sz = self.m.size(ty)
            except Unsupported: sz = 8
            if ty.k == "arr" and init is not None and init[0] == "str":
                data = cstr(init[1])
                v = z3.K(I, z3.IntVal(0))
                for i, c in enumerate(data): v = z3.Store(v, z3.IntVal(i), z3.IntVal(c if c < 128 else c - 256))
                a = self.add_arr(st, 1, len(data), 1, key, "global", val=v, base=b)
                a.ro = True
                return b
            o = self.add_obj(st, sz, key, "global", base=b)
            if init is not None and const:
                self.init_cells(st, o, 0, ty, init)
                o.ro = True
        return b

    def init_cells(self, st, o, off, ty, init):
        if init[0] == "z": o.fill = 0; return
        if ty.k in ("int", "ptr"):
            try: o.cells[off] = (self.m.size(ty), self.val({}, st, ty, init))
            except (ToolLimit, Unsupported): pass
            return
        if init[0] == "agg":
            for i, (t, v) in enumerate(init[1]):
                oo = self.m.offset(ty, i) if ty.k == "struct" else i * self.m.size(ty.elems[0])
                self.init_cells(st, o, off + oo, t, v)

    def gep(self, env, st, bt, args):
        p = self.as_int(self.val(env, st, args[0][0], args[0][1]))
        first = self.as_int(self.val(env, st, args[1][0], args[1][1]))
        p = p + first * self.m.size(bt)
        t = bt
        for aty, a in args[2:]:
            i = self.as_int(self.val(env, st, aty, a))
            if t.k == "struct":
                p = p + self.m.offset(t, i.c); t = t.elems[i.c]
            elif t.k == "arr":
                t = t.elems[0]; p = p + i * self.m.size(t)
            else: raise ToolLimit("gep into %r" % t)
        return p

    # ------------------------------------------------------------ arithmetic
    def rng(self, w): return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def inrange(self, st, l, w):
        lo, hi = self.rng(w)
        if l.const(): return lo <= l.c <= hi
        return self.valid_light(st, And(LE(lo, l), LE(l, hi)))

    def wrap(self, st, l, w):
        if self.inrange(st, l, w): return l
        if l.const():
            lo, hi = self.rng(w)
            return Lin((l.c - lo) % (1 << w) + lo)
        h = 1 << (w - 1)
        # one wrap is the common case: decide it by cases the solver likes
        return lin((l.z() + h) % (1 << w) - h)

    def unsigned(self, st, l, w):
        if l.const(): return Lin(l.c % (1 << w))
        if self.valid_light(st, LE(0, l)): return l
        return lin(z3.If(l.z() < 0, l.z() + (1 << w), l.z()))

    def arith(self, st, ins, a, b):
        op = ins.op; w = ins.ty.n
        if w == 1:
            a = self.as_bool(a); b = self.as_bool(b)
            if op == "and": return And(a, b)
            if op == "or": return Or(a, b)
            if op in ("xor", "add", "sub"): return Not(a) if z3.is_true(b) else (a if z3.is_false(b) else z3.Xor(a, b))
            raise ToolLimit("i1 " + op)
        if a is UNDEF or b is UNDEF: raise ToolLimit("arithmetic on an undefined value")
        a = self.as_int(a); b = self.as_int(b)
        nsw = "nsw" in ins.flags
        if op in ("add", "sub", "mul"):
            if op == "add": r = a + b
            elif op == "sub": r = a - b
            else:
                if b.const(): r = a * b.c
                elif a.const(): r = b * a.c
                else: r = lin(a.z() * b.z())
            if nsw:
                lo, hi = self.rng(w)
                self.oblige(st, "%s does not overflow i%d" % (op, w), And(LE(lo, r), LE(r, hi)), "overflow")
                return r
            return self.wrap(st, r, w)
        if op in ("sdiv", "srem"):
            if b.const() and b.c == 0: self.oblige(st, "division by zero", FALSE); raise ToolLimit("div 0")
            if not b.const():
                self.oblige(st, "divisor is not zero", NE(b, 0))
            else:
                q = a.div(b.c)
                if q is not None and b.c > 0: return q if op == "sdiv" else Lin(0)
            if self.valid_light(st, And(LE(0, a), LT(0, b))):
                return lin(a.z() / b.z()) if op == "sdiv" else lin(a.z() % b.z())
            if b.const() and b.c == -1 and op == "sdiv":
                self.oblige(st, "sdiv does not overflow", NE(a, self.rng(w)[0]), "overflow"); return -a
            aa = z3.If(a.z() >= 0, a.z(), -a.z()); bb = z3.If(b.z() >= 0, b.z(), -b.z())
            if op == "sdiv": return lin(z3.If((a.z() >= 0) == (b.z() >= 0), aa / bb, -(aa / bb)))
            return lin(z3.If(a.z() >= 0, aa % bb, -(aa % bb)))
        if op in ("udiv", "urem"):
            ua = self.unsigned(st, a, w); ub = self.unsigned(st, b, w)
            if not ub.const(): self.oblige(st, "divisor is not zero", NE(ub, 0))
            elif ub.c == 0: self.oblige(st, "division by zero", FALSE); raise ToolLimit("div 0")
            if ub.const() and ub.c == 1: return a if op == "udiv" else Lin(0)
            q = ua.div(ub.c) if ub.const() else None
            if q is not None: return q if op == "udiv" else Lin(0)
            r = lin(ua.z() / ub.z()) if op == "udiv" else lin(ua.z() % ub.z())
            return r if (ub.const() and ub.c > 1) else self.wrap(st, r, w)
        if op == "shl" and b.const():
            r = a * (1 << b.c)
            if nsw:
                lo, hi = self.rng(w); self.oblige(st, "shl does not overflow", And(LE(lo, r), LE(r, hi)), "overflow"); return r
            return self.wrap(st, r, w)
        if op == "lshr" and b.const():
            if b.c == 0: return a
            return lin(self.unsigned(st, a, w).z() / (1 << b.c))
        if op == "ashr" and b.const():
            if b.c == 0: return a
            q = a.div(1 << b.c)
            return q if q is not None else lin(a.z() / (1 << b.c))
        if op == "and":
            if a.const(): a, b = b, a
            if b.const():
                c = b.c % (1 << w)
                if c == 0: return Lin(0)
                if c == (1 << w) - 1: return a
                if (c & (c + 1)) == 0: return self.mod(st, a, c + 1)
                inv = ((1 << w) - 1) ^ c
                if (inv & (inv + 1)) == 0: return a - self.mod(st, a, inv + 1)
        if op == "xor" and b.const() and b.c == -1: return -a - 1
        if op in ("or", "xor") and b.const() and b.c == 0: return a
        if a.const() and b.const():
            f = {"and": a.c & b.c, "or": a.c | b.c, "xor": a.c ^ b.c}.get(op)
            if f is not None: return Lin(f)
        raise ToolLimit("operation %s on %s, %s" % (op, a, b))

    def mod(self, st, a, n):
        """a modulo n >= 1 (never negative)"""
        r = Lin(a.c % n, tuple((x, k) for x, k in a.t if k % n))
        if not r.t or self.valid_light(st, And(LE(0, r), LT(r, n))): return r
        return lin(r.z() % n)

    def as_bool(self, v):
        if isinstance(v, z3.BoolRef): return v
        if v is UNDEF: raise ToolLimit("branch on an undefined value")
        if isinstance(v, Lin):
            return NE(v, 0)
        raise ToolLimit("bool")

    def icmp(self, st, ins, a, b):
        c = ins.x; ty = ins.ty
        if ty.k == "int" and ty.n == 1:
            a = self.as_bool(a); b = self.as_bool(b)
            e = And(Or(Not(a), b), Or(Not(b), a)) if not (z3.is_true(b) or z3.is_false(b)) else (a if z3.is_true(b) else Not(a))
            return e if c == "eq" else Not(e)
        if a is UNDEF or b is UNDEF: raise ToolLimit("comparison of an undefined value")
        a = self.as_int(a); b = self.as_int(b)
        if ty.k == "ptr":
            a = st.norm(a); b = st.norm(b)
            self.ptr_facts(st, a, b)
            op = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}[c]
            r = cmp(op, a, b)
            if c in ("eq", "ne") and not (z3.is_true(r) or z3.is_false(r)):
                e = r if c == "eq" else Not(r)
                self.boolmap[e.get_id()] = (e, a, b)
            return r
        w = ty.n
        # zext of a bool compared with 0/1
        for x, y in ((a, b), (b, a)):
            if y.const() and y.c in (0, 1) and len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
                mb = AT.meta[x.t[0][0]].get("bool")
                if mb is not None and c in ("eq", "ne"):
                    e = mb if y.c == 1 else Not(mb)
                    return e if c == "eq" else Not(e)
        if c in ("eq", "ne"):
            r = cmp("==", a, b)
            return r if c == "eq" else Not(r)
        if c[0] == "u":
            if not (a.const() and a.c >= 0): a2 = self.unsigned(st, a, w)
            else: a2 = a
            b2 = b if b.const() and b.c >= 0 else self.unsigned(st, b, w)
            a, b = a2, b2
        op = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[c[1:]]
        return cmp(op, a, b)

    def ptr_facts(self, st, a, b):
        """facts relating the addresses about to be compared"""
        for h in self.special.get("#ptrfacts", ()):
            h(self, st, a, b)

    def assume_branch(self, st, c):
        """assume c, recording pointer equalities for address resolution"""
        st.assume(c)
        st.log.append(c)
        self.note_eq(st, c)

    def note_eq(self, st, c):
        if z3.is_and(c):
            for x in c.children(): self.note_eq(st, x)
            return
        e = self.boolmap.get(c.get_id())
        if e is None: return
        _, a, b = e
        d = st.norm(a) - st.norm(b)
        if not d.t: return
        sl = self.special.get("#slots")
        if sl and any(AT.meta[x].get("tag") in sl for x, _ in d.t): return
        # prefer to rewrite an atom that is not a chunk base
        for at, k in d.t:
            if abs(k) == 1 and not AT.meta[at].get("base") and at not in st.rw:
                rest = (d - Lin(0, ((at, k),))) * (-k)
                if any(x == at for x, _ in rest.t): continue
                # keep the tag information on the surviving atom
                t = AT.meta[at].get("tag")
                if t:
                    for x, kk in rest.t:
                        AT.meta[x].setdefault("tag", t) if not AT.meta[x].get("base") else None
                st.rw[at] = rest
                return

    # ------------------------------------------------------------ execution
    def call(self, st, fname, args, ins=None):
        """returns [(state, ret)]"""
        self.depth += 1
        try:
            if self.depth > 60: raise ToolLimit("call depth")
            dem = self.m.dem.get(fname, fname)
            for h in (self.special.get(fname), self.special.get(dem)):
                if h: return h(self, st, args, ins)
            c = self.contract_for(dem)
            if c is not None and not (self.depth == 1):
                self.used[c.name] = self.used.get(c.name, 0) + 1
                return c.apply(self, st, args, dem)
            if fname.startswith("llvm."): return self.intrinsic(st, fname, args)
            f = self.m.func(fname)
            if f is None: raise ToolLimit("no body and no contract for %s" % dem)
            if any(x[0] is f for x in self.stack) and not self.bounded: raise ToolLimit("recursive call of %s without a contract" % dem)
            self.inlined.add(dem)
            after = None
            for rx, g in self.special.get("#ghost", ()):       # ghost code around a body
                if rx.search(dem): after = g(self, st, args); break
            res = self.run(f, st, args)
            if after is not None:
                for s, r in res: after(s, r)
            return res
        finally:
            self.depth -= 1

    def contract_for(self, dem):
        if dem not in self.cmap:
            self.cmap[dem] = None
            for c in self.contracts:
                if c.match(dem): self.cmap[dem] = c; break
        return self.cmap[dem]

    def intrinsic(self, st, n, args):
        if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental")): return [(st, None)]
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            self.memcpy(st, self.as_int(args[0]), self.as_int(args[1]), self.as_int(args[2])); return [(st, None)]
        if n.startswith("llvm.memset"):
            h = self.special.get("#memset")
            if h: return h(self, st, self.as_int(args[0]), self.as_int(args[1]), self.as_int(args[2]))
            return self.memset(st, self.as_int(args[0]), self.as_int(args[1]), self.as_int(args[2]))
        if n.startswith("llvm.trap"):
            self.oblige(st, "trap is not reached", FALSE); return []
        if n.startswith("llvm.abs"):
            a = self.as_int(args[0]); return [(st, lin(z3.If(a.z() >= 0, a.z(), -a.z())))]
        raise ToolLimit("intrinsic " + n)

    def objat(self, st, addr, n, what):
        addr = st.norm(addr)
        for a, k in addr.t:
            if a in st.bases and k == 1:
                ch = st.heap[st.bases[a]]
                off = addr - ch.base
                if isinstance(ch, Obj) and off.const():
                    self.oblige(st, "%s stays inside %s" % (what, clean(ch.name)), And(LE(0, off), LE(off + n, ch.size)))
                    return ch, off.c
        raise ToolLimit("%s at %s" % (what, addr))

    def soup_fields(self, st, addr, n):
        """[(offset from addr, width)] of the node fields in n bytes at addr, or None if no node is there"""
        addr = st.norm(addr)
        for a, k in addr.t:
            if a in st.bases and k == 1:
                ch = st.heap[st.bases[a]]; off = addr - ch.base
                if not isinstance(ch, Obj) or not off.const(): return None
                for (o, sz, soup, kd) in ch.alias:
                    if o <= off.c and off.c + n <= o + sz:
                        return [(f + kd - off.c, x[0]) for f, x in sorted(st.soups[soup].layout.items()) if off.c <= f + kd < off.c + n]
                return None
        for a, k in addr.t:
            tag = AT.meta[a].get("tag")
            if tag and k == 1 and tag in st.soups:
                if st.soups[tag].flat is not None: return [(o, 8) for o in range(0, n, 8)] if n % 8 == 0 else None
                off = addr - Lin(0, ((a, 1),))
                if not off.const(): return None
                return [(f - off.c, x[0]) for f, x in sorted(st.soups[tag].layout.items()) if off.c <= f < off.c + n]
        return None

    def memcpy(self, st, d, s, n):
        if not n.const(): raise ToolLimit("memcpy of symbolic size")
        n = n.c
        if n == 0: return
        offs = self.soup_fields(st, d, n) or self.soup_fields(st, s, n)
        if offs is not None:         # a copy between node fields: field by field
            if any(w == "E" for _, w in offs): raise ToolLimit("memcpy of an element")
            vs = [(o, w, self.load(st, s + o, _INTT(8 * w), "memcpy source")) for o, w in offs]
            for o, w, v in vs:
                if v is None: return
                self.store(st, d + o, v, _INTT(8 * w), "memcpy target")
            return
        src, so = self.objat(st, s, n, "memcpy source")
        dst, do = self.objat(st, d, n, "memcpy target")
        if any(o < so + n and so < o + z for o, z, *_ in src.subs + src.alias) or any(o < do + n and do < o + z for o, z, *_ in dst.subs + dst.alias):
            raise ToolLimit("memcpy over an embedded array")
        dst = self.mut(st, dst.id)
        for off in list(dst.cells):
            if do <= off < do + n:
                if dst.cells[off][0] == "E": raise ToolLimit("memcpy over an element")
                del dst.cells[off]
        for off, c in src.cells.items():
            if so <= off < so + n:
                if c[0] == "E": raise ToolLimit("memcpy of an element")
                dst.cells[off - so + do] = c

    def memset(self, st, d, v, n):
        if n.const():
            if n.c == 0: return [(st, None)]
            o, off = self.objat(st, d, n.c, "memset")
            o = self.mut(st, o.id)
            for k in list(o.cells):
                if off <= k < off + n.c: del o.cells[k]
            if not v.const() or v.c != 0: raise ToolLimit("memset of a non-zero value")
            if off == 0 and lin(o.size).const() and lin(o.size).c == n.c: o.fill = 0
            elif off % 8 == 0 and n.c % 8 == 0:
                for k in range(off, off + n.c, 8): o.cells[k] = (8, Lin(0))
            else: raise ToolLimit("partial memset")
            return [(st, None)]
        raise ToolLimit("memset of symbolic size")

    def run(self, f, st, args):
        if len(args) != len(f.params): raise ToolLimit("argument count for %s" % f.dem)
        env = {p: a for (p, t), a in zip(f.params, args)}
        self.stack.append((f, None))
        try:
            outs = self.exec_from(f, f.entry, None, env, st, frozenset(), first=False)
        except ToolLimit as e:
            if not hasattr(e, "at"): e.at = " in ".join("%s:%s" % (shortname(g.dem), i.line if i is not None else g.line) for g, i in reversed(self.stack[-4:]))
            raise
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o[0] != "ret": raise ToolLimit("internal: stop outcome at top level")
            s = o[1]
            res.append((s, o[2]))
        # release allocas
        for s, r in res:
            loc = s.ghost.get(("alloca", id(f), self.depth), ())
            for i in loc:
                if i in s.heap:
                    for off, (w, v) in s.heap[i].cells.items():
                        if w == "E" and not (z3.is_false(v.live)):
                            self.stack.append((f, None))
                            self.oblige(s, "local element is destroyed before it goes out of scope", Not(v.live))
                            self.stack.pop()
                    self.drop(s, s.heap[i], "out of scope")
            s.ghost.pop(("alloca", id(f), self.depth), None)
        return res

    def exec_from(self, f, block, prev, env, st, stops, first):
        out = []
        work = [(block, prev, env, st, first)]
        loops = f.loops()
        while work:
            block, prev, env, st, first = work.pop()
            if not first and block in stops:
                out.append(("stop", block, prev, env, st)); continue
            if not first and block in loops:
                for o in self.handle_loop(f, block, loops[block], prev, env, st, stops):
                    if o[0] == "ret": out.append(o)
                    elif o[1] in stops: out.append(o)
                    else: work.append((o[1], o[2], o[3], o[4], False))
                continue
            # phis
            if prev is not None:
                new = {}
                for ins in f.blocks[block]:
                    if ins.op != "phi": break
                    if first and ins.res in env: continue      # loop head: already set
                    for v, l in ins.x:
                        if l == prev: new[ins.res] = self.val(env, st, ins.ty, v); break
                    else: raise ToolLimit("phi without edge")
                if new:
                    env = dict(env); env.update(new)
                else: env = dict(env)
            else: env = dict(env)
            self.exec_block(f, block, 0, env, st, work, out)
        return out

    def exec_block(self, f, block, start, env, st, work, out):
        insts = f.blocks[block]
        i = start
        todo = [(i, env, st)]
        while todo:
            i, env, st = todo.pop()
            dead = False
            while i < len(insts):
                ins = insts[i]
                self.stack[-1] = (f, ins)
                op = ins.op
                if op == "phi": i += 1; continue
                if op in ("br", "switch", "ret", "unreachable"): break
                if op == "call":
                    res = self.do_call(f, ins, env, st)
                    self.stack[-1] = (f, ins)
                    if not res: dead = True; break
                    for s2, r in res[1:]:
                        e2 = dict(env)
                        if ins.res: e2[ins.res] = r
                        todo.append((i + 1, e2, s2))
                    st, r = res[0]
                    if ins.res: env[ins.res] = r
                    i += 1; continue
                if op == "select" and ins.ty.k == "ptr":
                    c = self.as_bool(self.val(env, st, None, ins.args[0]) if ins.args[0][0] == "r" else (TRUE if ins.args[0][1] else FALSE))
                    a = self.val(env, st, ins.ty, ins.args[1]); b = self.val(env, st, ins.ty, ins.args[2])
                    alts = self.branch(st, c)
                    if not alts: dead = True; break
                    for s2, truth in alts[1:]:
                        e2 = dict(env); e2[ins.res] = a if truth else b; todo.append((i + 1, e2, s2))
                    st, truth = alts[0]
                    env[ins.res] = a if truth else b
                    i += 1; continue
                if not self.step(f, ins, env, st): dead = True; break
                i += 1
            if dead: continue
            ins = insts[i]
            if ins.op == "ret":
                out.append(("ret", st, None if not ins.args else self.val(env, st, ins.ty, ins.args[0])))
                self.npaths += 1
                if self.npaths > self.maxpaths: raise ToolLimit("too many paths")
            elif ins.op == "unreachable":
                if self.feasible(st): self.oblige(st, "unreachable code is not reached", FALSE)
            elif ins.op == "br":
                if len(ins.x) == 1: work.append((ins.x[0], block, env, st, False))
                else:
                    c = self.as_bool(self.val(env, st, _I1, ins.args[0]))
                    for s2, truth in self.branch(st, c):
                        s2.trace.append("%s:%d %s" % (shortname(f.dem), ins.line, "T" if truth else "F"))
                        work.append((ins.x[0] if truth else ins.x[1], block, env, s2, False))
            else:
                v = self.as_int(self.val(env, st, ins.ty, ins.args[0]))
                d, cs = ins.x
                rest = st
                for c, l in cs:
                    e = EQ(v, c)
                    s2 = rest.fork()
                    if self.feasible(s2, e):
                        s2.assume(e); work.append((l, block, dict(env), s2, False))
                    rest.assume(Not(e))
                if self.feasible(rest): work.append((d, block, env, rest, False))

    def branch(self, st, c):
        """[(state, truth)] for the feasible sides of c"""
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        out = []
        t = self.feasible(st, c); n = self.feasible(st, Not(c))
        if t and n:
            s2 = st.fork()
            self.assume_branch(st, c); self.assume_branch(s2, Not(c))
            return [(st, True), (s2, False)]
        if t:
            self.assume_branch(st, c); return [(st, True)]
        if n:
            self.assume_branch(st, Not(c)); return [(st, False)]
        return []

    def step(self, f, ins, env, st):
        op = ins.op
        if op == "alloca":
            sz = self.m.size(ins.ty)
            if ins.args[0] is not None and ins.args[0] != ("c", 1): raise ToolLimit("dynamic alloca")
            key = ("alloca", id(f), self.depth)
            if ins.ty.k == "arr": raise ToolLimit("array local")
            o = self.add_obj(st, sz, "local", "stack")
            st.ghost[key] = st.ghost.get(key, ()) + (o.id,)
            hook = self.special.get("#alloca")
            if hook: hook(self, st, o, ins.ty)
            env[ins.res] = o.base
        elif op == "load":
            a = self.val(env, st, PTRTY, ins.args[0])
            v = self.load(st, self.as_int(a), ins.ty)
            if v is None: return False
            if ins.ty.k == "int" and ins.ty.n == 1: v = self.as_bool(v)
            env[ins.res] = v
        elif op == "store":
            v = self.val(env, st, ins.ty, ins.args[0]); a = self.as_int(self.val(env, st, PTRTY, ins.args[1]))
            if a.const() and a.c == 0:
                self.oblige(st, "crash check (DSTRUCT_CRASH / null store) does not fire", FALSE)
                return False
            return self.store(st, a, v, ins.ty)
        elif op == "gep":
            env[ins.res] = self.gep(env, st, ins.ty, ins.x)
        elif op == "icmp":
            env[ins.res] = self.icmp(st, ins, self.val(env, st, ins.ty, ins.args[0]), self.val(env, st, ins.ty, ins.args[1]))
        elif op == "select":
            c = self.as_bool(self.val(env, st, _I1, ins.args[0]))
            a = self.val(env, st, ins.ty, ins.args[1]); b = self.val(env, st, ins.ty, ins.args[2])
            if ins.ty.k == "int" and ins.ty.n == 1: env[ins.res] = Or(And(c, self.as_bool(a)), And(Not(c), self.as_bool(b)))
            else: env[ins.res] = ite(c, self.as_int(a), self.as_int(b))
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            v = self.val(env, st, ins.x, ins.args[0])
            env[ins.res] = self.cast(st, op, v, ins.x, ins.ty)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            env[ins.res] = self.arith(st, ins, self.val(env, st, ins.ty, ins.args[0]), self.val(env, st, ins.ty, ins.args[1]))
        elif op == "extractvalue":
            v = self.val(env, st, ins.ty, ins.args[0])
            env[ins.res] = v[ins.x] if isinstance(v, tuple) else UNDEF
        elif op == "insertvalue":
            v = self.val(env, st, ins.ty, ins.args[0]); x = self.val(env, st, ins.x[1], ins.args[1])
            v = list(v) if isinstance(v, tuple) else [UNDEF] * len(ins.ty.elems)
            v[ins.x[0]] = x; env[ins.res] = tuple(v)
        elif op == "unsupported":
            raise ToolLimit("instruction %s" % ins.x)
        else: raise ToolLimit("op " + op)
        return True

    def cast(self, st, op, v, fr, to):
        if v is UNDEF: return v
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr"): return v
        if op == "zext":
            if fr.n == 1:
                b = self.as_bool(v)
                if z3.is_true(b): return Lin(1)
                if z3.is_false(b): return Lin(0)
                e = z3.If(b, z3.IntVal(1), z3.IntVal(0))
                return Lin(0, ((AT.of(e, bool=b), 1),))
            return self.unsigned(st, self.as_int(v), fr.n)
        if op == "sext":
            if fr.n == 1:
                b = self.as_bool(v); return ite(b, Lin(-1), Lin(0))
            return self.as_int(v)
        if op == "trunc":
            v = self.as_int(v)
            if to.n == 1:
                if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and "bool" in AT.meta[v.t[0][0]]: return AT.meta[v.t[0][0]]["bool"]
                if v.const(): return TRUE if v.c & 1 else FALSE
                if self.valid_light(st, And(LE(0, v), LE(v, 1))): return NE(v, 0)
                return (v.z() % 2) == 1
            return self.wrap(st, v, to.n)
        raise ToolLimit(op)

    def do_call(self, f, ins, env, st):
        callee = ins.args[0]
        args = [self.val(env, st, t, v) for t, v in ins.x]
        if callee[0] == "g": name = callee[1]
        else:
            fp = st.norm(self.as_int(self.val(env, st, PTRTY, callee)))
            if len(fp.t) == 1 and "fn" in AT.meta[fp.t[0][0]]: name = AT.meta[fp.t[0][0]]["fn"]
            else:
                h = self.special.get("#indirect")
                if h: return h(self, st, fp, args, ins)
                raise ToolLimit("indirect call")
        if name == "__assert_fail":
            if self.feasible(st): self.oblige(st, "assertion holds", FALSE)
            return []
        res = self.call(st, name, args, ins)
        out = []
        for s, r in res:
            if ins.ty.k == "int" and ins.ty.n == 1 and r is not None and r is not UNDEF: r = self.as_bool(r)
            out.append((s, r))
        return out

    # ------------------------------------------------------------ loops
    def handle_loop(self, f, H, L, prev, env, st, stops):
        from . import loops
        return loops.handle(self, f, H, L, prev, env, st, stops)


from .ir import PTR as PTRTY, INT as _INTT
_I1 = _INTT(1)


def shortname(d):
    d = re.sub(r"dstruct::|\(.*\)( const)?$", "", d)
    return d


def clean(n): return re.sub(r"![0-9]+", "", n)


def select(a, i):
    """Select with read-over-write simplification on syntactically decided indexes"""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i): return a.arg(2)
        d = lin(j) - lin(i)
        if d.const():
            if d.c == 0: return a.arg(2)
            a = a.arg(0); continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY: return a.arg(0)
    return z3.Select(a, i)


def cstr(t):
    s = t[2:-1]; out = []; i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out
