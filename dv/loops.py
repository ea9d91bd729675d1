"""Loop rule: havoc what the loop may change, guess invariants, keep the inductive ones (Houdini), then
check every obligation of the body and continue after the loop from the invariants alone.

The guesses (scalar relations, array contents obtained by generalising the writes of one symbolic
iteration, and templates given with a specification) need not be right: only guesses that hold on entry
and are preserved by every path of the body survive, so the rule is sound whatever is guessed."""
import z3, itertools
from .sym import *
from . import engine as E


DROPS = False         # tell which guesses are dropped


class Havoc:
    """what changes: cells {(objid, off)}, arrays {(arrid, 'val'|'live')}, soups {(soup, field)}, ghosts {key}"""
    def __init__(self): self.cells = set(); self.arrs = set(); self.soups = set(); self.ghosts = set(); self.views = set()

    def size(self): return len(self.cells) + len(self.arrs) + len(self.soups) + len(self.ghosts) + len(self.views)


def same(a, b):
    if a is b: return True
    if isinstance(a, Lin) and isinstance(b, Lin): return a.eq(b)
    if isinstance(a, E.ElemV) and isinstance(b, E.ElemV): return same(a.val, b.val) and same(a.live, b.live)
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef): return a.eq(b)
    return False


def diff(head, back, hv):
    """extend hv with what differs; returns False when chunks appeared or disappeared"""
    ok = True
    for i, c in head.heap.items():
        d = back.heap.get(i)
        if d is None: ok = False; continue
        if c is d: continue
        if isinstance(c, E.Obj):
            for off in set(c.cells) | set(d.cells):
                x = c.cells.get(off); y = d.cells.get(off)
                if x is None or y is None or x[0] != y[0] or not same(x[1], y[1]): hv.cells.add((i, off))
        else:
            if not c.val.eq(d.val): hv.arrs.add((i, "val"))
            if c.live is not None and not c.live.eq(d.live): hv.arrs.add((i, "live"))
    for i, c in back.heap.items():
        if i not in head.heap and c.kind not in ('global', 'stack'): ok = False
    for n, s in head.soups.items():
        t = back.soups[n]
        if s is t: continue
        if not s.dom.eq(t.dom): hv.soups.add((n, "#dom"))
        if not s.ldom.eq(t.ldom): hv.soups.add((n, "#ldom"))
        for k in s.f:
            if k[0] != "#" and not s.f[k].eq(t.f[k]): hv.soups.add((n, k))
    for k, v in head.ghost.items():
        if isinstance(k, str) and k[0] not in "#":
            if not same(v, back.ghost.get(k)): hv.ghosts.add(k)
    return ok


def ptr_atoms(l):
    return [a for a, k in l.t if AT.meta[a].get("base") or AT.meta[a].get("tag") or AT.meta[a].get("ptr")]


def havoc_value(ex, st, w, ty_ptr, entry, backs, name):
    """a fresh value generalising entry and backs; returns (value, [(index name, index Lin, entry index)])"""
    if isinstance(entry, z3.BoolRef): return freshB(name), []
    if isinstance(entry, E.ElemV):
        live = entry.live if all(isinstance(b, E.ElemV) and same(b.live, entry.live) for b in backs) else freshB(name + ".live")
        return E.ElemV(fresh(name + ".v"), live), []
    if entry is E.UNDEF or any(b is E.UNDEF for b in backs):
        raise E.ToolLimit("loop variable %s may be undefined" % name) if entry is not E.UNDEF else _Skip()
    entry = st.norm(entry)
    if ty_ptr:
        backs = [st.norm(b) for b in backs if isinstance(b, Lin)]
        backs = [b for b in backs if not b.eq(entry)]
        # same base, moving offset
        base = None
        for a, k in entry.t:
            if a in st.bases and k == 1: base = a
        if base is not None:
            ch = st.heap[st.bases[base]]
            b0 = Lin(0, ((base, 1),))
            if all(any(a == base and k == 1 for a, k in b.t) for b in backs):
                off = entry - b0
                stride = ch.stride if isinstance(ch, E.Arr) else None
                arrbase = None
                if stride is None:
                    for (o, sz, i) in ch.subs:
                        stride = st.heap[i].stride; arrbase = o
                        d = (off - o).div(stride)
                        if d is not None: break
                if stride is None: raise E.ToolLimit("pointer loop over an object")
                i0 = (off - (arrbase or 0)).div(stride)
                if i0 is None: raise E.ToolLimit("pointer offset")
                k = fresh(name + ".i")
                return b0 + (arrbase or 0) + k * stride, [(name + ".i", k, i0)]
        # tagged pointer
        tags = set(); offs = set(); null = False
        for v in [entry] + backs:
            if v.const() and v.c == 0: null = True; continue
            at = [(a, k) for a, k in v.t]
            if ex.special.get("#slots"): at = [(a, k) for a, k in at if AT.meta[a].get("tag") in ex.special["#slots"]] or at
            if len(at) == 1 and at[0][1] == 1 and AT.meta[at[0][0]].get("tag"):
                tags.add(AT.meta[at[0][0]]["tag"]); offs.add(v.c)
            elif len(at) == 1 and at[0][1] == 1 and at[0][0] in st.bases and isinstance(st.heap[st.bases[at[0][0]]], E.Obj):
                o = st.heap[st.bases[at[0][0]]]
                hit = [al for al in o.alias if al[0] <= v.c < al[0] + al[1] or v.c - al[3] in st.soups[al[2]].layout]
                if hit: tags.add(hit[0][2]); offs.add(v.c - hit[0][3])
                else: raise E.ToolLimit("pointer loop variable over %s" % o.name)
            else:
                tags.add(None); offs.add(None)
        if tags == {None} or not tags or len(tags) > 1 or None in tags:
            raise E.ToolLimit("pointer loop variable %s: %s / %s" % (name, entry, backs))
        if tags & set(ex.special.get("#slots", ())):       # inside a block: which slot is up to the invariants
            p = fresh(name, tag=tags.pop())
            st.assume(And(LE(0, p), LE(p, E.MAXADDR)))
            return p, []
        off = offs.pop() if len(offs) == 1 else None
        if off is None or (null and off != 0): raise E.ToolLimit("pointer loop variable with several offsets")
        p = fresh(name, tag=tags.pop())
        st.assume(And(LE(0, p), LE(p, E.MAXADDR)))
        return p + off, []
    v = fresh(name)
    if w:
        lo, hi = ex.rng(8 * w)
        st.assume(And(LE(lo, v), LE(v, hi)))
    return v, []


class _Skip(Exception): pass


class LoopVar:
    __slots__ = ("name", "get", "head", "entry", "isptr")

    def __init__(self, name, get, head, entry): self.name = name; self.get = get; self.head = head; self.entry = entry


def handle(ex, f, H, L, prev, env, st, stops, entered=False):
    exits = set()
    for b in L:
        for s in f.succs(b):
            if s not in L: exits.add(s)
    inner_stops = frozenset(stops | exits | {H})
    phis = []
    for ins in f.blocks[H]:
        if ins.op != "phi": break
        phis.append(ins)
    env = dict(env); new = {}
    if not entered:
        for ins in phis:
            for v, l in ins.x:
                if l == prev: new[ins.res] = ex.val(env, st, ins.ty, v); break
    env.update(new)
    line = f.line
    for ins in f.blocks[H]:
        if ins.line: line = ins.line; break

    def body(env, st):
        outs = ex.exec_from(f, H, None, env, st, inner_stops, first=True)
        back, rest = [], []
        for o in outs:
            if o[0] == "stop" and o[1] == H:
                e2 = dict(o[3])
                nv = {}
                for ins in phis:
                    for v, l in ins.x:
                        if l == o[2]: nv[ins.res] = ex.val(o[3], o[4], ins.ty, v)
                e2.update(nv)
                back.append((e2, o[4]))
            else: rest.append(o)
        return back, rest

    if not entered and not ex.unroll and ex.special.get("#peel", lambda *a: False)(ex, f, st):      # the first iteration by itself
        back, res = body(env, st)
        for e, s in back: res += handle(ex, f, H, L, prev, e, s, stops, True)
        return res

    # ---------- unrolling, when the iterations are decided (or a bound was asked for)
    mark = (len(ex.obl), len(ex.fails), dict(ex.used))
    saved_trace = len(st.trace)
    cur = [(env, st.fork())]; done = []; ok = False
    limit = max(ex.unroll, 1)
    tries = 0
    try:
        ex.dry += 1 if not ex.unroll else 0; ex.cheap += 1
        try:
            for it in range(limit + 1):
                nxt = []
                for e, s in cur:
                    b, r = body(e, s)
                    done.extend(r); nxt.extend(b)
                cur = nxt
                if not cur: ok = True; break
                if not ex.unroll: break
        finally:
            ex.dry -= 1 if not ex.unroll else 0; ex.cheap -= 1
    except E.ToolLimit:
        if ex.unroll: raise
        raise
    if ok:
        if not ex.unroll and not ex.dry:
            done = []
            b, done = body(env, st)
            if b: raise E.ToolLimit("internal: loop iteration no longer decided")
        return done
    if ex.bounded and ex.unroll:        # bounded refutation search: drop what is left
        return done
    del ex.obl[mark[0]:]; del ex.fails[mark[1]:]; ex.used = mark[2]

    # ---------- havoc set
    entry_env, entry = env, st
    hv = Havoc(); backs = cur if not ex.unroll else None
    ex.loopno += 1
    objs_changed = set()
    if backs is None:
        ex.dry += 1; ex.cheap += 1
        try: backs, _ = body(entry_env, entry.fork())
        finally: ex.dry -= 1; ex.cheap -= 1
    allbacks = list(backs)
    for e, s in backs: _diff(ex, entry, s, hv)
    if ex.special.get("#quickhavoc"):         # start from what changed the last time
        known = ex.changes.get((f.name, H))
        if known:
            hv.soups |= known[0]; hv.ghosts |= known[1]
    rounds = 0
    while True:
        rounds += 1
        if rounds > 6: raise E.ToolLimit("loop havoc set does not settle")
        henv, hst, lvars = make_head(ex, f, H, entry_env, entry, phis, hv, allbacks)
        ex.dry += 1; ex.cheap += 1
        try: backs, _ = body(henv, hst.fork())
        finally: ex.dry -= 1; ex.cheap -= 1
        n = hv.size()
        for e, s in backs: _diff(ex, hst, s, hv)
        # pointer phis that changed base need another round with the new back-edge values
        need = hv.size() != n
        if not need:
            break
        allbacks = [(e, s) for e, s in allbacks] + _rebase(backs)
    if ex.special.get("#quickhavoc"): ex.changes[(f.name, H)] = (set(hv.soups), set(hv.ghosts))
    # one more look: the provenance of pointers must be closed under the body
    check_closed(ex, phis, henv, hst, backs, hv)

    for h, addr in sorted(hv.views, key=str): h.check(ex, entry, addr, "before the loop at line %d" % line)
    # ---------- candidate invariants
    quick = ex.cheap and ex.special.get("#quickhavoc")         # only what the loop changes is wanted: no invariants
    cands = [] if quick else make_candidates(ex, f, H, entry_env, entry, henv, hst, lvars, backs, hv, L, phis)
    if ex.special.get("#quickhavoc") and not quick:         # what did not survive here before, under stronger assumptions, is not tried again
        mine = ex.survivors.get((f.name, H, tuple(entry.trace)))
        if mine is not None: cands = [c for c in cands if c.name in mine]
    # entry check
    keep = []
    ectx = Ctx(ex, entry_env, entry, [v.entry for v in lvars], entry)
    for c in cands:
        try: g = c.f(ectx)
        except E.ToolLimit: g = None
        if g is None: continue
        keep.append((c, g))
    was = [c for c, _ in keep]
    ok = set(id(c) for c, _ in filter_valid(ex, entry, keep))
    keep = [c for c in was if id(c) in ok]
    if DROPS: print("LOOP", f.dem[:60], line, "not at entry:", [c.name for c in was if not any(c is q for q in keep)])
    # induction
    final = None
    for rnd in range(12):
        henv, hst, lv = make_head(ex, f, H, entry_env, entry, phis, hv, allbacks)
        hctx = Ctx(ex, henv, hst, [v.head for v in lv], entry)
        for c in keep:
            c.use(hctx)
        hst.ghost["#havoc"] = hst.ghost.get("#havoc", 0) + 1
        if not ex.feasible(hst):
            return []
        ex.dry += 1
        try: backs, _ = body(henv, hst.fork())
        finally: ex.dry -= 1
        drop = set()
        for e, s in backs:
            if not ex.feasible(s): continue
            bctx = Ctx(ex, e, s, [v.get(e, s) for v in lv], entry)
            gs = []
            for i, c in enumerate(keep):
                if i in drop: continue
                try: g = c.f(bctx)
                except E.ToolLimit as x:
                    g = None
                    if DROPS: print("LIMIT", c.name, x)
                if g is None: drop.add(i)
                else: gs.append((i, g))
            good = set(i for i, _ in filter_valid(ex, s, gs, keep))
            for i, _ in gs:
                if i not in good: drop.add(i)
        if DROPS: print("LOOP", line, "not kept:", [keep[i].name for i in drop])
        if not drop: break
        keep = [c for i, c in enumerate(keep) if i not in drop]
    else: raise E.ToolLimit("loop invariants do not settle")
    if ex.special.get("#quickhavoc") and not quick: ex.survivors[(f.name, H, tuple(entry.trace))] = set(c.name for c in keep)

    # ---------- the real pass
    henv, hst, lv = make_head(ex, f, H, entry_env, entry, phis, hv, allbacks)
    hctx = Ctx(ex, henv, hst, [v.head for v in lv], entry)
    for c in keep:
        c.use(hctx)
    hst.ghost["#havoc"] = hst.ghost.get("#havoc", 0) + 1
    measures = [m for m in make_measures(ex, lv, hctx)]
    heads = [m(hctx) for m in measures]
    for c in keep: ex.loopinfo.append((E.shortname(f.dem), line, c.name)) if not ex.dry else None
    backs, rest = body(henv, hst)
    # invariants were shown inductive in a dry pass over the same paths; re-establish them as obligations
    if not ex.dry:
        for e, s in backs:
            if not ex.feasible(s): continue
            bctx = Ctx(ex, e, s, [v.get(e, s) for v in lv], entry)
            for h, addr in sorted(hv.views, key=str): h.check(ex, s, addr, "after an iteration of the loop at line %d" % line)
            for c in keep:
                g = c.f(bctx)
                ex.oblige(s, "loop at line %d keeps: %s" % (line, c.name), g, "invariant")
        term = False
        for m, h in zip(measures, heads):
            good = True
            for e, s in backs:
                bctx = Ctx(ex, e, s, [v.get(e, s) for v in lv], entry)
                try: b = m(bctx)
                except E.ToolLimit: good = False; break
                if b is None or h is None or not ex.valid(s, And(LT(b, h), LE(0, h)), full=getattr(m, "full", False)): good = False; break
            if good: term = True; break
        if backs and not term:
            ex.unterm.add("%s:%d" % (E.shortname(f.dem), line))
        elif backs:
            ex.obl.append(("%s | %s:%d | loop terminates (a measure decreases)" % (ex.under, E.shortname(f.dem), line), "termination", "ok", 0.0))
    return rest


def _rebase(backs): return list(backs)


def _diff(ex, head, back, hv):
    if diff(head, back, hv): return
    # chunks were replaced: only objects with a registered class can be generalised
    gone = [c for i, c in head.heap.items() if i not in back.heap]
    new = [c for i, c in back.heap.items() if i not in head.heap]
    hooks = ex.special.get("#reproduce", ())
    for h in hooks:
        keys = h.changed(ex, head, back, gone, new)
        if keys is not None:
            for k in keys: hv.views.add(k)
            return
    raise E.ToolLimit("the loop allocates or releases memory that survives an iteration (%s / %s)" % ([c.name for c in gone], [c.name for c in new]))


def make_head(ex, f, H, entry_env, entry, phis, hv, backs):
    st = entry.fork(); env = dict(entry_env); lvars = []
    # whole objects first (their chunks are replaced)
    for key in sorted(hv.views, key=str):
        h, addr = key
        h.havoc(ex, st, addr)
        for name, getter in h.scalars(addr):
            lvars.append(LoopVar(name, (lambda e, s, g=getter: g(ex, s)), getter(ex, st), getter(ex, entry)))
    viewobjs = set()          # cells that belong to those objects
    for h, addr in hv.views: viewobjs |= h.owned(ex, st, addr)
    for (i, off) in sorted(hv.cells):
        if i not in st.heap or (i, off) in viewobjs: continue
        o = ex.mut(st, i)
        c = entry.heap[i].cells.get(off)
        if c is None:
            # uninitialised before the loop: unknown afterwards
            o.cells.pop(off, None); continue
        bv = [s.heap[i].cells[off][1] for e, s in backs if i in s.heap and off in s.heap[i].cells]
        w = c[0]
        isptr = w == 8 and isinstance(c[1], Lin) and (bool(ptr_atoms(st.norm(c[1]))) or any(isinstance(b, Lin) and ptr_atoms(b) for b in bv))
        try: v, idx = havoc_value(ex, st, w if w != "E" else None, isptr, c[1], bv, "%s+%d" % (o.name, off))
        except _Skip: o.cells.pop(off, None); continue
        o.cells[off] = (w, v)
        add_lvars(ex, st, lvars, "%s+%d" % (E.clean(o.name), off), v, c[1], idx, (lambda e, s, i=i, off=off: s.heap[i].cells[off][1]))
    for (i, fld) in sorted(hv.arrs):
        if i not in st.heap: continue
        a = ex.mut(st, i)
        if fld == "val": a.val = freshA(a.name + ".val")
        else: a.live = freshAB(a.name + ".live")
    for (n, fld) in sorted(hv.soups):
        s = st.soups[n].copy(); st.soups[n] = s
        if fld == "#dom": s.dom = freshAB(n + ".dom")
        elif fld == "#ldom": s.ldom = freshAB(n + ".ldom")
        else: s.f[fld] = z3.Const(fresh_name(n + "." + fld), s.f[fld].sort())
    mine = set(k for h, addr in hv.views if hasattr(h, "ghosts") for k in h.ghosts(addr))         # renewed by the hook, together with the object
    for k in sorted(hv.ghosts - mine):
        v = st.ghost[k]
        if isinstance(v, Lin): st.ghost[k] = fresh("g." + k)
        elif isinstance(v, z3.AstRef): st.ghost[k] = z3.Const(fresh_name("g." + k), v.sort())
    for ins in phis:
        ev = entry_env[ins.res]
        bv = [e[ins.res] for e, s in backs if ins.res in e]
        isptr = ins.ty.k == "ptr"
        if all(same(ev, b) for b in bv): continue
        w = ex.m.size(ins.ty)
        try: v, idx = havoc_value(ex, st, w, isptr, ev, bv, "v" + ins.res[1:])
        except _Skip: env[ins.res] = E.UNDEF; continue
        env[ins.res] = v
        add_lvars(ex, st, lvars, ins.res, v, ev, idx, (lambda e, s, r=ins.res: e[r]))
    return env, st, lvars


def add_lvars(ex, st, lvars, name, v, entry, idx, get):
    if idx:
        nm, k, i0 = idx[0]
        # value = base + stride*k ; recover k from a value
        base = v - k * coef(v, k)
        stride = coef(v, k)

        def getk(e, s, get=get, base=base, stride=stride):
            x = get(e, s)
            d = (s.norm(x) - base).div(stride)
            if d is None: raise E.ToolLimit("pointer no longer in its array")
            return d
        lvars.append(LoopVar(name + "#", getk, k, i0))
    elif isinstance(v, Lin):
        lvars.append(LoopVar(name, get, v, entry))


def coef(v, k):
    a = k.t[0][0]
    return dict(v.t)[a]


def check_closed(ex, phis, henv, hst, backs, hv):
    """every pointer the body leaves in a havocked place must be of the generalised form"""
    for ins in phis:
        if ins.ty.k != "ptr": continue
        h = henv[ins.res]
        for e, s in backs:
            _closed(ex, s, h, e[ins.res], ins.res)
    owned = set()
    for h, addr in hv.views: owned |= h.owned(ex, hst, addr)
    for (i, off) in hv.cells:
        if i in hst.heap and off in hst.heap[i].cells and (i, off) not in owned:
            w, h = hst.heap[i].cells[off]
            if w == 8 and isinstance(h, Lin) and ptr_atoms(h):
                for e, s in backs: _closed(ex, s, h, s.heap[i].cells[off][1], "cell")


def _closed(ex, s, h, b, name):
    if not isinstance(h, Lin) or not isinstance(b, Lin): return
    if h.eq(b): return
    b = s.norm(b)
    hb = [a for a, k in h.t if AT.meta[a].get("base")]
    bb = [a for a, k in b.t if AT.meta[a].get("base")]
    if hb:
        if hb != bb: raise E.ToolLimit("pointer %s leaves its array in the loop" % name)
        return
    ht = [AT.meta[a].get("tag") for a, k in h.t if AT.meta[a].get("tag")]
    if ht:
        if b.const(): 
            if b.c == 0 and h.c == 0: return
        for a, k in b.t:
            if AT.meta[a].get("tag") in ht and (b.c == h.c or ht[0] in ex.special.get("#slots", ())): return
            if a in s.bases and isinstance(s.heap[s.bases[a]], E.Obj):
                for al in s.heap[s.bases[a]].alias:
                    if al[2] in ht and b.c - al[3] == h.c: return
        raise E.ToolLimit("pointer %s: loop value %s is not of the form %s" % (name, b, h))


class Ctx:
    """what a candidate is evaluated in"""
    def __init__(self, ex, env, st, vals, entry): self.ex = ex; self.env = env; self.st = st; self.v = vals; self.entry = entry


class Cand:
    """f(ctx): the formula to check; assume(ctx), where given, says how to use it at the loop head"""
    __slots__ = ("name", "f", "q", "assume")

    def __init__(self, name, f, q=False, assume=None): self.name = name; self.f = f; self.q = q; self.assume = assume

    def use(self, ctx):
        if self.assume: self.assume(ctx); return
        g = self.f(ctx)
        if g is not None: ctx.st.assume(g)


def filter_valid(ex, st, gs, tab=None):
    """the (item, formula) pairs whose formula follows from st"""
    out = []; ground = []
    for it, g in gs:
        g = Z(g)
        if z3.is_true(g): out.append((it, g)); continue
        if z3.is_false(g): continue
        if has_q(g) or not_light(st, g):
            if ex.valid(st, g): out.append((it, g))
        elif ex.special.get("#quickhavoc") and heavy(g):
            if valid_parts(ex, st, g): out.append((it, g))
        else: ground.append((it, g))
    # ground: refute many at once with one model
    while ground:
        r, m = ex.sol.light(st.light, [Not(And(*[g for _, g in ground]))])
        if DROPS: print("  ", r, [str(i if tab is None else tab[i].name)[:30] for i, _ in ground])
        if r == z3.unsat:
            out.extend(ground); break
        if r != z3.sat or m is None:
            for it, g in ground:
                if valid_parts(ex, st, g): out.append((it, g))
            break
        nxt = []; dropped = []
        for it, g in ground:
            v = m.eval(g, model_completion=True)
            (nxt if z3.is_true(v) else dropped).append((it, g))
        if not dropped: 
            for it, g in nxt:
                if valid_parts(ex, st, g): out.append((it, g))
            break
        # a ground candidate may still follow from the quantified facts
        if len(st.facts) != len(st.light):
            for it, g in dropped:
                if getattr(it if tab is None else tab[it], "q", False) and ex.valid(st, g): out.append((it, g))
        ground = nxt
    return out


def valid_parts(ex, st, g):
    """a conjunction follows when its parts do"""
    if not (ex.special.get("#partial") and z3.is_and(g)): return ex.valid(st, g)
    s = st.fork()
    for p in g.children():
        if not ex.valid_light(s, p) and ex.retry(s, p)[0] != z3.unsat: return False
        s.assume(p)
    return True


def not_light(st, g): return False


def heavy(g):
    """comes with its own instances of universal facts"""
    while z3.is_and(g): g = g.arg(0)
    return z3.is_implies(g) and z3.is_and(g.arg(0)) and g.arg(0).num_args() > 8


def make_candidates(ex, f, H, entry_env, entry, henv, hst, lvars, backs, hv, L, phis):
    cands = []
    nv = len(lvars)
    ivars = [i for i in range(nv) if isinstance(lvars[i].entry, Lin) and isinstance(lvars[i].head, Lin)]
    # constants of the loop: integers it does not change
    consts_ = []

    def addc(name, l):
        l = entry.norm(l)
        if l.const() and abs(l.c) > 1 << 31: return
        if any(l.eq(x) for _, x in consts_): return
        consts_.append((name, l))
    addc("0", Lin(0))
    hvc = hv.cells
    names = used_values(f, L)
    for n, v in entry_env.items():
        if n in names and isinstance(v, Lin) and n not in [p.res for p in phis] and not ptr_atoms(v): addc(n, v)
    for i, o in entry.heap.items():
        if isinstance(o, E.Obj) and o.kind != "global":
            for off, (w, v) in o.cells.items():
                if w in (4, 8) and isinstance(v, Lin) and not ptr_atoms(v) and (i, off) not in hvc: addc("%s+%d" % (E.clean(o.name), off), v)
    for i, a in entry.heap.items():
        if isinstance(a, E.Arr) and a.kind != "global": addc("len", a.count)
    for i in ivars: addc(lvars[i].name + "0", lvars[i].entry) if not ptr_atoms(lvars[i].entry) else None
    for h in ex.special.get("#consts", ()):
        for n, v in h(ex, entry): addc(n, v)
    # constants in pointer-end comparisons become indexes
    for n, v in entry_env.items():
        if n in names and isinstance(v, Lin):
            v = entry.norm(v)
            for a, k in v.t:
                if a in entry.bases and k == 1:
                    ch = entry.heap[entry.bases[a]]
                    if isinstance(ch, E.Arr):
                        d = (v - ch.base).div(ch.stride)
                        if d is not None: addc(n + "#", d)
                    else:
                        for (o, sz, si) in ch.subs:
                            d = (v - ch.base - o).div(entry.heap[si].stride)
                            if d is not None: addc(n + "#", d)
    for i, o in entry.heap.items():
        if isinstance(o, E.Obj) and o.kind == "stack" or isinstance(o, E.Obj) and o.kind == "param":
            for off, (w, v) in o.cells.items():
                if w == 8 and isinstance(v, Lin):
                    v = entry.norm(v)
                    for a, k in v.t:
                        if a in entry.bases and k == 1 and isinstance(entry.heap[entry.bases[a]], E.Arr):
                            ch = entry.heap[entry.bases[a]]
                            d = (v - ch.base).div(ch.stride)
                            if d is not None: addc("%s+%d#" % (E.clean(o.name), off), d)
    for i in ivars:
        x0 = lvars[i].entry; nm = lvars[i].name
        if not ptr_atoms(x0) and not any(AT.meta[a].get("tag") for a in lvars[i].head.atoms()):
            cands.append(Cand("%s >= start" % nm, lambda c, i=i, x0=x0: LE(x0, c.v[i])))
            cands.append(Cand("%s <= start" % nm, lambda c, i=i, x0=x0: LE(c.v[i], x0)))
            for cn, k in consts_:
                cands.append(Cand("%s <= %s" % (nm, cn), lambda c, i=i, k=k: LE(c.v[i], k)))
                cands.append(Cand("%s >= %s" % (nm, cn), lambda c, i=i, k=k: LE(k, c.v[i])))
                cands.append(Cand("%s < %s" % (nm, cn), lambda c, i=i, k=k: LT(c.v[i], k)))
            cands.append(Cand("%s+1 >= 0" % nm, lambda c, i=i: LE(-1, c.v[i])))
    for i, j in itertools.combinations(ivars, 2):
        xi, xj = lvars[i].entry, lvars[j].entry
        if ptr_atoms(xi) or ptr_atoms(xj) or any(AT.meta[a].get("tag") for a in lvars[i].head.atoms() + lvars[j].head.atoms()): continue
        ni, nj = lvars[i].name, lvars[j].name
        cands.append(Cand("%s - %s const" % (ni, nj), lambda c, i=i, j=j, d=xi - xj: EQ(c.v[i] - c.v[j], d)))
        cands.append(Cand("%s + %s const" % (ni, nj), lambda c, i=i, j=j, d=xi + xj: EQ(c.v[i] + c.v[j], d)))
        cands.append(Cand("%s <= %s" % (ni, nj), lambda c, i=i, j=j: LE(c.v[i], c.v[j])))
        cands.append(Cand("%s <= %s" % (nj, ni), lambda c, i=i, j=j: LE(c.v[j], c.v[i])))
        cands.append(Cand("%s < %s" % (ni, nj), lambda c, i=i, j=j: LT(c.v[i], c.v[j])))
        cands.append(Cand("%s < %s" % (nj, ni), lambda c, i=i, j=j: LT(c.v[j], c.v[i])))
    # cells that are ElemV with a havocked value: nothing to say unless a template does
    for (i, off) in hv.cells:
        c0 = entry.heap.get(i) and entry.heap[i].cells.get(off)
        if c0 and c0[0] == "E":
            cands.append(Cand("element cell keeps its lifetime", lambda c, i=i, off=off, c0=c0: z3.simplify(c.st.heap[i].cells[off][1].live == c0[1].live)))
    cands += array_candidates(ex, entry, hst, lvars, ivars, backs, hv)
    for h, addr in sorted(hv.views, key=str): cands += h.candidates(ex, entry, addr, lvars, ivars)
    ex.curloop = L
    for t in ex.templates:
        cands += t(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv)
    return cands


def used_values(f, L):
    key = ("uses", tuple(sorted(L)))
    d = getattr(f, "_uses", None)
    if d is None: d = f._uses = {}
    if key in d: return d[key]
    out = set()
    for b in L:
        for ins in f.blocks[b]:
            for a in ins.args:
                if isinstance(a, tuple) and a[0] == "r": out.add(a[1])
            if isinstance(ins.x, list):
                for x in ins.x:
                    if isinstance(x, tuple) and len(x) == 2:
                        for y in x:
                            if isinstance(y, tuple) and y[0] == "r": out.add(y[1])
    d[key] = out
    return out


def writes_of(term, head):
    """index/value pairs of the Stores between head and term (latest first), or None"""
    out = []
    while not term.eq(head):
        if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_STORE:
            out.append((term.arg(1), term.arg(2))); term = term.arg(0)
        else: return None
    return out


def array_candidates(ex, entry, hst, lvars, ivars, backs, hv):
    cands = []
    # induction variables: constant step on every path
    steps = {}
    for i in ivars:
        ds = set()
        for e, s in backs:
            try: b = lvars[i].get(e, s)
            except E.ToolLimit: ds.add(None); continue
            d = b - lvars[i].head if isinstance(b, Lin) else None
            ds.add(d.c if d is not None and d.const() else None)
        if len(ds) == 1 and None not in ds:
            d = ds.pop()
            if d: steps[i] = d
    havocked = []
    hvset = set()

    def note(t):
        for n in consts(t): hvset.add(n)
    # symbols introduced at the loop head
    for v in lvars:
        if isinstance(v.head, Lin): note(v.head.z())
    for (i, fld) in hv.arrs:
        if i in hst.heap: note(hst.heap[i].val if fld == "val" else hst.heap[i].live)
    seen = set()
    for (aid, fld) in sorted(hv.arrs):
        if aid not in hst.heap or aid not in entry.heap: continue
        name = E.clean(hst.heap[aid].name)
        H0 = getattr(hst.heap[aid], fld); A0 = getattr(entry.heap[aid], fld)
        writes = []; bad = False
        for e, s in backs:
            if aid not in s.heap: bad = True; break
            w = writes_of(getattr(s.heap[aid], fld), H0)
            if w is None: bad = True; break
            guard = [x for x in s.log[len(hst.log):] if not has_q(x)]
            for (ix, v) in w: writes.append((lin(ix), v, guard))
        if bad: continue
        ranges_ = []
        for iv in steps:
            hv_atom = lvars[iv].head
            if len(hv_atom.t) != 1 or hv_atom.c != 0 or hv_atom.t[0][1] != 1: continue
            a = hv_atom.t[0][0]; ivar = AT.expr[a]; x0 = lvars[iv].entry
            step = steps[iv]
            if abs(step) != 1: continue
            fr = []
            allok = True
            for ix, v, guard in writes:
                k = dict(ix.t).get(a, 0)
                rest = ix - Lin(0, ((a, k),)) if k else ix
                if abs(k) != 1 or any(n in hvset for n in consts(rest.z())):
                    # other induction variables inside the index
                    sub, okk = subst_other(rest, lvars, steps, iv, hvset)
                    if abs(k) != 1 or not okk: allok = False; continue
                fr.append((k, rest))
                j = z3.Int("j?")
                # value as a function of the iteration
                vj = generalise(ex, v, lvars, steps, iv, j, hvset, entry, hst, hv)
                if vj is None: continue
                gj = []
                for gx in guard:
                    y = generalise(ex, gx, lvars, steps, iv, j, hvset, entry, hst, hv)
                    if y is not None and not gx.eq(TRUE) and mentions(gx, ivar): gj.append(y)
                for gset, gname in (((), ""), (tuple(gj), " where guarded")) if gj else (((), ""),):
                    key = (aid, fld, iv, k, str(rest), str(vj), str(gset))
                    if key in seen: continue
                    seen.add(key)

                    def fml(c, iv=iv, x0=x0, step=step, k=k, rest=rest, vj=vj, j=j, aid=aid, fld=fld, gset=gset):
                        if aid not in c.st.heap: return None
                        A = getattr(c.st.heap[aid], fld)
                        cur = c.v[iv]
                        rng = And(LE(x0, lin(j)), LT(lin(j), cur)) if step > 0 else And(LT(cur, lin(j)), LE(lin(j), x0))
                        # index form: quantify over the slot, so that Select(A, slot) is the trigger
                        q = z3.Int("q?")
                        jq = (lin(q) - rest) * k
                        rg = z3.substitute(And(rng, *gset), (j, jq.z())); vv = z3.substitute(vj, (j, jq.z()))
                        body = Imp(rg, eqv(z3.Select(A, q), vv))
                        return z3.ForAll([q], body, patterns=[z3.Select(A, q)])
                    cands.append(Cand("%s.%s written for the iterations done%s" % (name, fld, gname), fml, True))
            ranges_.append((iv, fr, allok))
            if fr and allok:
                def frame(c, iv=iv, x0=x0, step=step, fr=tuple(fr), aid=aid, fld=fld, A0=A0):
                    if aid not in c.st.heap: return None
                    A = getattr(c.st.heap[aid], fld); cur = c.v[iv]
                    q = z3.Int("q?")
                    out = []
                    for k, rest in fr:
                        jq = (lin(q) - rest) * k
                        out.append(Not(And(LE(x0, jq), LT(jq, cur)) if step > 0 else And(LT(cur, jq), LE(jq, x0))))
                    return z3.ForAll([q], Imp(And(*out), eqv(z3.Select(A, q), z3.Select(A0, q))), patterns=[z3.Select(A, q)])
                cands.append(Cand("%s.%s unchanged elsewhere" % (name, fld), frame, True))
    return cands


def eqv(a, b): return a == b


def mentions(t, v):
    return v.decl().name() in consts(t)


def subst_other(l, lvars, steps, iv, hvset): return l, not any(n in hvset for n in consts(l.z()))


def generalise(ex, t, lvars, steps, iv, j, hvset, entry, hst, hv):
    """the value t had in iteration j: induction variables become functions of j, changed arrays their entry value"""
    subs = [(AT.expr[lvars[iv].head.t[0][0]], j)]
    for o, d in steps.items():
        if o == iv: continue
        h = lvars[o].head
        if len(h.t) == 1 and h.c == 0 and h.t[0][1] == 1:
            y = lvars[o].entry + (lin(j) - lvars[iv].entry) * (d * (1 if steps[iv] > 0 else -1))
            subs.append((AT.expr[h.t[0][0]], y.z()))
    for (i, fld) in hv.arrs:
        if i in hst.heap and i in entry.heap:
            subs.append((getattr(hst.heap[i], fld), getattr(entry.heap[i], fld)))
    for (n, fld) in hv.soups:
        if fld[0] != "#": subs.append((hst.soups[n].f[fld], entry.soups[n].f[fld]))
    r = z3.substitute(Z(t), *subs)
    left = set(consts(r)) & hvset
    # entry arrays may share no symbols with the head ones
    if left: return None
    return r


def make_measures(ex, lvars, ctx):
    out = []
    n = len(lvars)
    iv = [i for i in range(n) if isinstance(lvars[i].head, Lin)]
    bounds = [Lin(0)]
    for o in ctx.entry.heap.values():
        if isinstance(o, E.Arr): bounds.append(o.count)
        elif isinstance(o, E.Obj):
            for w, v in o.cells.values():
                if w in (4, 8) and isinstance(v, Lin) and not ptr_atoms(v): bounds.append(v)
    for v in ctx.env.values():
        if isinstance(v, Lin) and not ptr_atoms(v): bounds.append(v)
    uniq = []
    for b in bounds:
        if not any(b.eq(x) for x in uniq): uniq.append(b)
    def rank(b): return 0 if b.const() else 1
    for i in iv:
        if ptr_atoms(lvars[i].head): continue
        out.append(lambda c, i=i: c.v[i] + 1)
        for b in uniq:
            if not any(x in b.atoms() for x in lvars[i].head.atoms()): out.append(lambda c, i=i, b=b: b - c.v[i] + 1)
    for i, j in itertools.permutations(iv, 2):
        out.append(lambda c, i=i, j=j: c.v[i] - c.v[j] + 1)
    for m in ex.measures:
        def mm(c, m=m): return m(ex, c)
        mm.full = True; out.append(mm)
    return out
