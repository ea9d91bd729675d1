"""What every specification uses: contracts of the opaque element type and allocator, units, contracts."""
import re, time, z3
from .sym import *
from . import engine as E
from .engine import Exec, State, ToolLimit, ElemV, Obj, Arr
from .ir import Unsupported

INTMAX = (1 << 31) - 1
ESZ = 24

# the order of elements: rank is any function to the integers (any strict weak order on finitely many values)
RANK = z3.Function("rank", I, I)
# equality class of an element
EQC = z3.Function("eqclass", I, I)
DEFV = Lin(0, ((AT.of(z3.Int("default_element")), 1),))


def rank(v): return lin(RANK(Z(v)))


# ------------------------------------------------------------------ opaque functions
def elem_copy(ex, st, args, ins):
    d = ex.eref(st, ex.as_int(args[0]), "element construction")
    if d is None: return []
    s = ex.eref(st, ex.as_int(args[1]), "element copy source")
    if s is None: return []
    dv = ex.eget(st, d); sv = ex.eget(st, s)
    ex.oblige(st, "copy source is a live element", sv.live, "lifetime")
    ex.oblige(st, "element is constructed in memory holding no element", Not(dv.live), "lifetime")
    ex.eset(st, d, sv.val, TRUE)
    return [(st, None)]


def elem_default(ex, st, args, ins):
    d = ex.eref(st, ex.as_int(args[0]), "element construction")
    if d is None: return []
    ex.oblige(st, "element is constructed in memory holding no element", Not(ex.eget(st, d).live), "lifetime")
    ex.eset(st, d, DEFV, TRUE)
    return [(st, None)]


def elem_assign(ex, st, args, ins):
    d = ex.eref(st, ex.as_int(args[0]), "element assignment")
    if d is None: return []
    s = ex.eref(st, ex.as_int(args[1]), "element assignment source")
    if s is None: return []
    ex.oblige(st, "assignment target is a live element", ex.eget(st, d).live, "lifetime")
    sv = ex.eget(st, s)
    ex.oblige(st, "assignment source is a live element", sv.live, "lifetime")
    ex.eset(st, d, sv.val, None)
    return [(st, args[0])]


def elem_dtor(ex, st, args, ins):
    d = ex.eref(st, ex.as_int(args[0]), "element destruction")
    if d is None: return []
    ex.oblige(st, "destroyed element is live", ex.eget(st, d).live, "lifetime")
    ex.eset(st, d, None, FALSE)
    return [(st, None)]


def elem_cmp(op):
    def h(ex, st, args, ins):
        a = ex.eref(st, ex.as_int(args[0]), "compared element")
        if a is None: return []
        b = ex.eref(st, ex.as_int(args[1]), "compared element")
        if b is None: return []
        av, bv = ex.eget(st, a), ex.eget(st, b)
        ex.oblige(st, "compared element is live", And(av.live, bv.live), "lifetime")
        ra, rb = rank(av.val), rank(bv.val)
        if op in ("==", "!="):
            r = EQ(ra, rb) if ex.special.get("#eqrank") else (EQ(lin(EQC(av.val.z())), lin(EQC(bv.val.z()))))
            return [(st, r if op == "==" else Not(r))]
        return [(st, cmp(op, ra, rb))]
    return h


def va_allocate(ex, st, args, ins):
    n = ex.as_int(args[0])
    ex.oblige(st, "allocation size is positive", LT(0, n), "alloc")
    if ex.alloc_policy:
        r = ex.alloc_policy(ex, st, n)
        if r is not None: return r
    esz, ek = ex.special.get("#alloc", (ESZ, "E"))
    if not n.const() or n.c % esz == 0:
        k = n.div(esz)
        if k is not None:
            a = ex.add_arr(st, esz, k, ek, "block", "heap", live=z3.K(I, FALSE) if ek == "E" else None)
            st.allocs.append(a.base)
            return [(st, a.base)]
    if n.const():
        o = ex.add_obj(st, n.c, "block", "heap")
        st.allocs.append(o.base)
        return [(st, o.base)]
    raise ToolLimit("allocation of %s bytes" % n)


def all_raw(live, lo, hi):
    q = z3.Int("q?")
    if z3.is_app(live) and live.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_false(live.arg(0)): return TRUE
    return z3.ForAll([q], Imp(And(LE(lo, lin(q)), LT(lin(q), hi)), Not(z3.Select(live, q))), patterns=[z3.Select(live, q)])


def va_deallocate(ex, st, args, ins):
    p = st.norm(ex.as_int(args[0])); n = ex.as_int(args[1])
    if ex.special.get("#free"):
        r = ex.special["#free"](ex, st, p, n)
        if r is not None: return r
    if p.const():
        ex.oblige(st, "released pointer is a block", FALSE, "alloc"); return []
    for a, k in p.t:
        if a in st.bases and k == 1:
            ch = st.heap[st.bases[a]]
            ex.oblige(st, "released pointer is the start of its block", EQ(p, ch.base), "alloc")
            if ch.kind != "heap":
                ex.oblige(st, "released memory came from the allocator", FALSE, "alloc"); return []
            if isinstance(ch, Arr):
                ex.oblige(st, "block is released with the size it was requested with", EQ(n, ch.count * ch.stride), "alloc")
                if ch.elem == "E":
                    ex.oblige(st, "no live element is left in a released block", all_raw(ch.live, 0, ch.count), "lifetime")
            else:
                ex.oblige(st, "block is released with the size it was requested with", EQ(n, ch.size), "alloc")
                for off, (w, v) in ch.cells.items():
                    if w == "E": ex.oblige(st, "no live element is left in a released block", Not(v.live), "lifetime")
            ex.drop(st, ch)
            return [(st, None)]
    for a, k in p.t:
        if a in st.dead:
            ex.oblige(st, "block is released only once", FALSE, "alloc"); return []
    raise ToolLimit("release of %s" % p)


def visit(ex, st, args, ins):
    """an opaque callback seeing one element: logged"""
    n = st.ghost["nvisit"]
    ek = ex.special.get("#alloc", (ESZ, "E"))[1]
    if ek != "E":
        from .ir import INT
        v = ex.load(st, ex.as_int(args[0]), INT(8 * ek), "visited element")
        if v is None: return []
        val = ex.as_int(v)
    else:
        r = ex.eref(st, ex.as_int(args[0]), "visited element")
        if r is None: return []
        v = ex.eget(st, r)
        ex.oblige(st, "visited element is live", v.live, "lifetime")
        val = v.val
    st.ghost["visited"] = z3.Store(st.ghost["visited"], n.z(), val.z())
    st.ghost["nvisit"] = n + 1
    return [(st, None)]


RANKC = z3.Function("rankc", I, I, I)
DEFCMP = Lin(0, ((AT.of(z3.Int("default_order")), 1),))


def crank(cid, v): return lin(RANKC(Z(cid), Z(v)))


def cmp_id(ex, st, addr, what):
    from .ir import INT
    v = ex.load(st, ex.as_int(addr), INT(64), what)
    if v is None: return None
    if v is E.UNDEF:
        ex.oblige(st, "%s: the comparator is constructed before it is used" % what, FALSE, "lifetime"); return None
    return ex.as_int(v)


def cmp_default(ex, st, args, ins):
    from .ir import INT
    if not ex.store(st, ex.as_int(args[0]), DEFCMP, INT(64)): return []
    return [(st, None)]


def cmp_copy(ret):
    def h(ex, st, args, ins):
        from .ir import INT
        v = cmp_id(ex, st, args[1], "comparator copy")
        if v is None: return []
        if not ex.store(st, ex.as_int(args[0]), v, INT(64)): return []
        return [(st, args[0] if ret else None)]
    return h


def cmp_call(ex, st, args, ins):
    cid = cmp_id(ex, st, args[0], "comparison")
    if cid is None: return []
    a = ex.eref(st, ex.as_int(args[1]), "compared element")
    if a is None: return []
    b = ex.eref(st, ex.as_int(args[2]), "compared element")
    if b is None: return []
    av, bv = ex.eget(st, a), ex.eget(st, b)
    ex.oblige(st, "compared element is live", And(av.live, bv.live), "lifetime")
    return [(st, LT(crank(cid, av.val), crank(cid, bv.val)))]


BASE_SPECIAL = {
    "Cmp::Cmp()": cmp_default, "Cmp::Cmp(Cmp const&)": cmp_copy(False), "Cmp::operator=(Cmp const&)": cmp_copy(True),
    "Cmp::operator()(Elem const&, Elem const&) const": cmp_call,
    "Elem::Elem(Elem const&)": elem_copy, "Elem::Elem()": elem_default, "Elem::operator=(Elem const&)": elem_assign,
    "Elem::~Elem()": elem_dtor,
    "Elem::operator==(Elem const&) const": elem_cmp("=="), "Elem::operator!=(Elem const&) const": elem_cmp("!="),
    "Elem::operator<(Elem const&) const": elem_cmp("<"), "Elem::operator>(Elem const&) const": elem_cmp(">"),
    "Elem::operator<=(Elem const&) const": elem_cmp("<="), "Elem::operator>=(Elem const&) const": elem_cmp(">="),
    "VA::allocate(int)": va_allocate, "VA::deallocate(void*, int)": va_deallocate, "visit": visit, "visit(Elem const&)": visit, "visit(int const&)": visit, "visit(char const&)": visit,
}


class Contract:
    """pattern on the demangled name; apply(ex, st, args, dem) -> [(st, ret)]"""
    keep = False      # stays in force when callees are inlined (no body, or the body is out of reach)

    def __init__(self, name, pat, apply):
        self.name = name; self.re = re.compile(pat); self._a = apply

    def match(self, dem): return self.re.fullmatch(dem) is not None
    def apply(self, ex, st, args, dem): return self._a(ex, st, args, dem)


class Unit:
    """one function under contract: setup gives the states satisfying the precondition, post checks the postcondition"""
    def __init__(self, name, fn, setup, post, contracts=(), off=(), unroll=0, special=None, templates=(), policy=None, cover=True, timeout=None, props=None):
        self.name = name; self.fn = fn; self.setup = setup; self.post = post; self.contracts = list(contracts); self.off = tuple(off)
        self.unroll = unroll; self.special = special or {}; self.templates = list(templates); self.policy = policy; self.cover = cover; self.timeout = timeout
        self.props = props


def run_unit(mod, u, tier="quick", bounded=0, budget=None):
    """returns a result dict"""
    ex = Exec(mod, timeout=u.timeout or (10000 if tier == "quick" else 60000))
    ex.under = u.name; ex.special = dict(BASE_SPECIAL); ex.special.update(u.special)
    ex.contracts = [c for c in u.contracts if c.name not in u.off] if not bounded else [c for c in u.contracts if c.keep and c.name not in u.off]
    ex.unroll = u.unroll if not bounded else bounded
    ex.bounded = bounded
    ex.templates = u.templates; ex.alloc_policy = u.policy; ex.measures = list(ex.special.get("#measures", ()))
    t0 = time.time()
    if budget: ex.deadline = t0 + budget
    res = {"unit": u.name, "limit": None, "paths": 0}
    try:
        fn = find_fn(mod, u.fn)
        if fn is None: raise ToolLimit("function %s not found" % u.fn)
        alts = u.setup(ex)
        for label, st, args, ctx in alts:
            ex.under = u.name + ("[%s]" % label if label else "")
            if not ex.feasible(st): raise ToolLimit("precondition of %s is unsatisfiable" % ex.under)
            st.ghost.setdefault("nvisit", Lin(0)); st.ghost.setdefault("visited", freshA("visited"))
            outs = ex.call(st, fn, args)
            n = 0; sane = None; nf = len(ex.fails)
            for s, r in outs:
                if not ex.feasible(s): continue
                n += 1
                ex.stack = []
                u.post(ex, s, r, ctx)
                if not sane and len(ex.fails) == nf:      # the facts of the path must not be contradictory
                    sane = ex.sol.full(s.facts, [], 3000)[0] != z3.unsat
            res["paths"] += n
            if sane is False and len(ex.fails) == nf: raise ToolLimit("the facts assumed in %s contradict each other" % ex.under)
            if u.cover and n == 0:
                ex.fails.append({"name": ex.under + " | returns", "kind": "cover", "how": "refuted", "detail": "no execution satisfying the precondition returns normally", "inv": 0}) if not ex.fails else None
    except (ToolLimit, Unsupported) as e:
        res["limit"] = "%s (at %s)" % (e, getattr(e, "at", None) or (ex.where() if ex.stack else "spec"))
    except RecursionError as e:
        res["limit"] = "recursion"
    res.update(obl=len(ex.obl), ok=sum(1 for o in ex.obl if o[2] == "ok"), fails=ex.fails, time=time.time() - t0, solver=ex.sol.time, queries=ex.sol.n,
               used=dict(ex.used), inlined=sorted(ex.inlined), loops=sorted(set("%s:%d %s" % x for x in ex.loopinfo)), unterm=sorted(ex.unterm))
    res["kinds"] = [(o[1], o[2]) for o in ex.obl]
    return res


def find_fn(mod, fn):
    if fn in mod.funcs: return fn
    for n, f in mod.funcs.items():
        if f.dem == fn: return n
    if fn.startswith("re:"):
        for n, f in mod.funcs.items():
            if re.fullmatch(fn[3:], f.dem): return n
    return None


def induct(ex, st, name, P, lo, hi, step=None):
    """proves P(k) for lo <= k <= hi by induction on k, then assumes it; step(k) is a marker the definitions unfold on"""
    lo = lin(lo); hi = lin(hi)
    if step is not None: st.assume(step(lo.z()))
    ex.oblige(st, "lemma: %s (start)" % name, Imp(LE(lo, hi), P(lo)), "post")
    s = st.fork(); k = fresh("k")
    s.assume(And(LE(lo, k), LT(k, hi)))
    if step is not None: s.assume(step(k.z()))
    s.assume(P(k))
    ex.oblige(s, "lemma: %s (step)" % name, P(k + 1), "post")
    q = z3.Int("q?")
    body = Imp(And(LE(lo, lin(q)), LE(lin(q), hi)), P(lin(q)))
    st.assume(z3.ForAll([q], body, patterns=[step(q)]) if step is not None else z3.ForAll([q], body))
    st.assume(Imp(LE(lo, hi), P(hi)))


def named(st, arr, nm="arr"):
    """a constant for an array term (so that it can be used in triggers)"""
    if arr is None or (z3.is_app(arr) and arr.num_args() == 0): return arr
    a = z3.Const(fresh_name(nm), arr.sort()); st.assume(a == arr)
    return a


def no_leak(ex, st, allowed):
    for i, c in st.heap.items():
        if c.kind == "heap" and i not in allowed:
            ex.oblige(st, "every allocated block is released or owned (%s)" % E.clean(c.name), FALSE, "leak")


def q1(f, pat=None, name="q?"):
    q = z3.Int(name)
    b = f(lin(q))
    p = pat(lin(q)) if pat else None
    return z3.ForAll([q], b, patterns=[p] if p is not None else []) if p is not None else z3.ForAll([q], b)


def sel(a, i): return lin(E.select(a, Z(i)))
def selb(a, i): return E.select(a, Z(i))


def prefix_eq(a, b, n, lo=0, shift=0):
    """a[j] == b[j+shift] for lo <= j < n"""
    return q1(lambda q: Imp(And(LE(lo, q), LT(q, n)), z3.Select(a, q.z()) == z3.Select(b, (q + shift).z())), lambda q: z3.Select(a, q.z()))
