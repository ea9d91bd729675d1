"""BasicString<char>: a vector of characters whose last one is the terminator.  The text is slots 0..n-2."""
from ..spec import *
from .vec import *
from .vec import visit_template

TLEN = z3.Function("text_length", AII, I, I)     # of the terminated text starting at an index of a character array


def ch(a, i): return lin(E.select(a, Z(i)))


class Text:
    """characters val[off .. off+n)"""
    def __init__(self, val, off, n): self.val = val; self.off = lin(off); self.n = n


def of(v): return Text(v.val, 0, v.n - 1)


def same_text(v, t, at=0):
    """the characters of v from `at` on are those of t (lengths aside)"""
    q = z3.Int("q?"); at = lin(at)
    return z3.ForAll([q], Imp(And(LE(at, lin(q)), LT(lin(q), at + t.n)), z3.Select(v.val, q) == z3.Select(t.val, (lin(q) - at + t.off).z())), patterns=[z3.Select(v.val, q)])


def equal(a, b):
    """a, b texts"""
    q = z3.Int("q?")
    return And(EQ(a.n, b.n), z3.ForAll([q], Imp(And(LE(0, lin(q)), LT(lin(q), a.n)), z3.Select(a.val, (lin(q) + a.off).z()) == z3.Select(b.val, (lin(q) + b.off).z()))))


def templates(ex, f, entry_env, entry, henv, hst, lvars, ivars, hv):
    from ..loops import Cand, ptr_atoms
    out = []
    for h, addr in sorted(hv.views, key=str):
        v0 = h.peek(ex, entry, addr)
        if v0.val is None: continue
        cur = lambda c, h=h, addr=addr: h.peek(ex, c.st, addr)
        out.append(Cand("the text is terminated", lambda c, cur=cur: And(LE(1, cur(c).n), EQ(ch(cur(c).val, cur(c).n - 1), 0)), True))
        out.append(Cand("the text before the loop is kept", lambda c, cur=cur, v0=v0: And(LE(v0.n, cur(c).n), same_elems(cur(c), v0, v0.n - 1)), True))
        for i in ivars:
            if ptr_atoms(lvars[i].entry): continue
            x0 = lvars[i].entry
            for aid, a in entry.heap.items():
                if not isinstance(a, Arr) or a.elem != 1 or a.kind == "global": continue
                out.append(Cand("%s appended from %s on" % (E.clean(a.name), lvars[i].name),
                    lambda c, cur=cur, x0=x0, A=a.val, v0=v0: same_text(cur(c), Text(A, x0, cur(c).n - v0.n), v0.n - 1), True))
    cs = [(E.clean(a.name), a.val) for a in entry.heap.values() if isinstance(a, Arr) and a.elem == 1 and a.kind != "global"]
    for i in ivars:
        if ptr_atoms(lvars[i].entry): continue
        x0 = lvars[i].entry
        for x in range(len(cs)):
            for y in range(x):
                def fm(c, i=i, x0=x0, A=cs[x][1], B_=cs[y][1]):
                    q = z3.Int("q?")
                    return z3.ForAll([q], Imp(And(LE(x0, lin(q)), LT(lin(q), c.v[i])), z3.Select(A, q) == z3.Select(B_, q)), patterns=[z3.Select(A, q)])
                out.append(Cand("%s and %s agree before %s" % (cs[x][0], cs[y][0], lvars[i].name), fm, True))
    return out


def consts_hook(ex, entry): return entry.ghost.get("#texts", ())


def text_facts(st, a, off):
    """the text at index off of array a is terminated inside it"""
    n = lin(TLEN(a.val, Z(off))); q = z3.Int("q?")
    st.assume(And(LE(0, n), LT(off + n, a.count), EQ(ch(a.val, off + n), 0)))
    st.assume(z3.ForAll([q], Imp(And(LE(off, lin(q)), LT(lin(q), off + n)), z3.Select(a.val, q) != 0), patterns=[z3.Select(a.val, q)]))
    st.ghost["#texts"] = st.ghost.get("#texts", ()) + (("end of text", off + n),)
    return Text(a.val, off, n)


def build(tmp):
    from .. import layout
    mod = layout.extract("string", tmp)
    V = vec(tmp, "char")
    oV, size = layout.offsets("string_layout.hpp", ["__builtin_offsetof(S_, mCharList_d)", "sizeof(S_)"], tmp, "string")

    def extra(ex, st, o, v, name):
        if v.aid is None: return []
        st = st.fork()
        st.assume(And(LE(1, v.n), EQ(ch(v.val, v.n - 1), 0)))
        return [("", st, {})]

    def check(ex, st, o, v, c, what):
        if v.val is None: ex.oblige(st, what + ": the string is terminated", FALSE, "inv"); return
        ex.oblige(st, what + ": the string is terminated", And(LE(1, v.n), EQ(ch(v.val, v.n - 1), 0)), "inv")
    B = Based(V, size, oV, extra, check)
    setup, post = B.setup, B.post
    vcs = VecContracts(V).all()
    us = []

    # ---- contracts for callers
    def sv(ex, st, addr, what, kind="pre"):
        obj, base = V.at(ex, st, ex.as_int(addr), what)
        v = V.read(ex, st, obj, base + oV, what)
        if v is None: return None
        V.inv(ex, st, v, what); check(ex, st, obj, v, None, what)
        return (obj, base, v) if v.val is not None else None

    def text_arg(ex, st, addr, what):
        p = st.norm(ex.as_int(addr))
        for x, k in p.t:
            if x in st.bases and isinstance(st.heap[st.bases[x]], Arr):
                a = st.heap[st.bases[x]]; off = (p - a.base).div(a.stride)
                if off is None or a.elem != 1: break
                n = lin(TLEN(a.val, Z(off)))
                q = z3.Int("q?")
                ex.oblige(st, what + ": the text is terminated inside its storage", And(LE(0, off), LE(0, n), LT(off + n, a.count), EQ(ch(a.val, off + n), 0)), "pre")
                ex.oblige(st, what + ": the text ends at its first terminator", z3.ForAll([q], Imp(And(LE(off, lin(q)), LT(lin(q), off + n)), z3.Select(a.val, q) != 0), patterns=[z3.Select(a.val, q)]), "pre")
                return Text(a.val, off, n)
        raise ToolLimit("%s: text argument %s" % (what, p))

    def fresh_string(ex, st, obj, base, n, parts):
        """a new valid string of n-1 characters at obj+base made of the texts in parts"""
        (_, s, w), = V.produce(ex, st, obj, base + oV, name="s", split=False)
        s.assume(And(EQ(w.n, n), EQ(ch(w.val, n - 1), 0)))
        at = Lin(0)
        for t in parts: s.assume(same_text(w, t, at)); at = at + t.n
        return s

    def c_text_ctor(ex, st, args, dem):
        obj, base = V.at(ex, st, ex.as_int(args[0]), "BasicString(text)")
        t = text_arg(ex, st, args[1], "BasicString(text)")
        ex.oblige(st, "BasicString(text): the text fits", LE(2 * t.n + 40, V.max), "pre")
        return [(fresh_string(ex, st, obj, base, t.n + 1, [t]), None)]

    def c_append(ex, st, args, dem):
        a = sv(ex, st, args[0], "operator+="); b = sv(ex, st, args[1], "operator+= argument")
        if a is None or b is None: return []
        obj, base, v = a; w = b[2]
        ex.oblige(st, "operator+=: the result fits", LE(2 * (v.n + w.n) + 40, V.max), "pre")
        V.forget(ex, st, obj, base + oV, v)
        return [(fresh_string(ex, st, obj, base, v.n + w.n - 1, [of(v), of(w)]), args[0])]

    def c_cat(ex, st, args, dem):
        obj, base = V.at(ex, st, ex.as_int(args[0]), "operator+ result")
        a = sv(ex, st, args[1], "operator+ left"); b = sv(ex, st, args[2], "operator+ right")
        if a is None or b is None: return []
        v, w = a[2], b[2]
        ex.oblige(st, "operator+: the result fits", LE(2 * (v.n + w.n) + 40, V.max), "pre")
        return [(fresh_string(ex, st, obj, base, v.n + w.n - 1, [of(v), of(w)]), None)]

    def c_eq(ex, st, args, dem):
        a = sv(ex, st, args[0], "operator== left"); b = sv(ex, st, args[1], "operator== right")
        if a is None or b is None: return []
        r = freshB("equal")
        st.assume(r == equal(of(a[2]), of(b[2])))
        return [(st, r)]
    S = r"dstruct::BasicString<char, VA>"
    c_ctor = Contract("String(text)", S + r"::BasicString\(char const\*\)", c_text_ctor)
    c_app = Contract("String+=", S + r"::operator\+=\(%s const&\)" % S, c_append)
    c_plus = Contract("String+String", r"(%s )?dstruct::operator\+<char, VA>\(%s, %s\)" % (S, S, S), c_cat)
    c_equal = Contract("String==String", r"(bool )?dstruct::operator==<char, VA>\(%s, %s\)" % (S, S), c_eq)
    scs = [c_ctor, c_app, c_plus, c_equal]

    def U(name, fn, s, p, off=(), **k):
        us.append(Unit("String::" + name, fn, s, p, contracts=vcs + scs, off=off, templates=[templates, visit_template], special={"#alloc": (1, 1), "#reproduce": (VecHook(V),), "#consts": (consts_hook,)}, **k))
    same = unchanged(B)

    def textarg(base, inside=True):
        """adds a const char * argument 't': a separate text, or one inside this string"""
        def f(ex):
            res = []
            for l, s, al, c in base(ex):
                s1 = s.fork(); cap = fresh("t.cap"); off = fresh("t.off"); s1.assume(And(LE(0, off), LT(off, cap), LE(cap, V.max)))
                a = ex.add_arr(s1, 1, cap, 1, "text", "param"); a = ex.mut(s1, a.id); a.ro = True
                t = text_facts(s1, a, off); s1.assume(LE(2 * t.n + 60, V.max))
                vs = [(l + ",text", s1, dict(c, t=t, targ=a.base + off, tarr=a.id))]
                v = c.get("old")
                if inside and v is not None and v.aid is not None:
                    s2 = s.fork(); off = fresh("t.off"); s2.assume(And(LE(0, off), LT(off, v.n)))
                    t = text_facts(s2, s2.heap[v.aid], off); s2.assume(LE(off + t.n, v.n - 1))
                    vs.append((l + ",own text", s2, dict(c, t=t, targ=v.C + off)))
                for l2, s2, c2 in vs:
                    v2 = c2.get("src") if c2.get("old") is None or c2["old"].aid is None else c2["old"]
                    for p in c2.get("#pre", lambda c: [])(c2): s2.assume(p)
                    if v2 is not None and v2.aid is not None: s2.assume(LE(2 * (v2.n + c2["t"].n) + 60, V.max))
                    res.append((l2, s2, [c2["targ"] if x == "t" else x for x in al], c2))
            return res
        return f

    def raw(args, s):
        """setup() with placeholders left in the argument list"""
        def f(ex):
            out = []
            for l, st, al, c in s(ex):
                out.append((l, st, ["t" if x == "t" else c["obj"].base if x == "this" else c["sobj"].base if x == "src" else c[x] for x in args], c))
            return out
        return f
    room = lambda c: [LE(4 * c["old"].n + 60, V.max)]
    empty_post = lambda ex, st, o, n, r, c: [("the string is empty", EQ(n.n, 1))]
    is_text = lambda ex, st, o, n, r, c: [("the string is the text", And(EQ(n.n, c["t"].n + 1), same_text(n, c["t"])))]
    U("String()", "w_ctor", setup(ctor=True), post(empty_post))
    U("String(text)", "w_ctor_text", textarg(raw(["this", "t"], setup(ctor=True))), post(is_text), off=("String(text)",))
    cp = lambda ex, st, o, n, r, c: [("same text as the source", And(EQ(n.n, c["src"].n), same_elems(n, c["src"], n.n)))]

    def mv(ex, st, o, n, r, c):
        g = cp(ex, st, o, n, r, c)
        if c.get("self"): return g
        w = V.read(ex, st, c["sobj"], oV, "source")
        if w is None: return []
        check(ex, st, c["sobj"], w, c, "source")
        return g + [("the moved-from string is the empty string", EQ(w.n, 1))]
    U("String(copy)", "w_copy_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(cp))
    U("String(move)", "w_move_ctor", setup(ctor=True, src=True, args=["this", "src"]), post(mv, srcafter="any"))
    U("operator=(copy)", "w_copy", setup(src=True, alias_src=True, args=["this", "src"]), post(cp))
    U("operator=(move)", "w_move", setup(src=True, alias_src=True, args=["this", "src"]), post(mv, srcafter="any"))
    U("operator=(text)", "w_assign_text", textarg(raw(["this", "t"], setup())), post(is_text))
    U("~String", "w_dtor", setup(), post(lambda *a: [], dtor=True))
    U("empty", "w_empty", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("empty exactly when there are no characters", r == EQ(o.n, 1))]))
    U("size", "w_size", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("size counts the characters", EQ(r, o.n - 1))]))
    U("capacity", "w_capacity", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("capacity holds the text and its terminator", LE(o.n, r))]))
    ne = lambda c: [LE(2, c["old"].n)]
    U("back", "w_back", setup(pre=ne), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("back is the last character", EQ(r, o.C + o.n - 2))]))
    U("front", "w_front", setup(pre=ne), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("front is the first character", EQ(r, o.C))]))
    idx = lambda c: [LE(0, c["i"]), LT(c["i"], c["old"].n - 1)]
    ipost = lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("index i is character i", EQ(r, o.C + c["i"]))]
    U("operator[]", "w_index", setup(extra=[("i", "i32")], args=["this", "i"], pre=idx), post(ipost))
    U("operator[] const", "w_cindex", setup(extra=[("i", "i32")], args=["this", "i"], pre=idx), post(ipost))
    U("operator[] write", "w_set", setup(extra=[("i", "i32"), ("x", "i8")], args=["this", "i", "x"], pre=idx),
      post(lambda ex, st, o, n, r, c: [("exactly character i changes", And(EQ(n.n, o.n), z3.ForAll([z3.Int("q?")], Imp(And(LE(0, lin(z3.Int("q?"))), LT(lin(z3.Int("q?")), o.n)), EQ(ch(n.val, lin(z3.Int("q?"))), ite(EQ(lin(z3.Int("q?")), c["i"]), c["x"], ch(o.val, lin(z3.Int("q?"))))))))) ]))
    U("push_back", "w_push_back", setup(elem=True, args=["this", "e"], pre=room),
      post(lambda ex, st, o, n, r, c: [("size grows by one", EQ(n.n, o.n + 1)), ("the characters so far are kept", same_elems(n, o, o.n - 1)), ("the last character is the argument", EQ(ch(n.val, o.n - 1), c["e"]))]))
    U("clear", "w_clear", setup(), post(empty_post))
    U("c_str", "w_c_str", setup(), post(lambda ex, st, o, n, r, c: same(ex, st, o, n, r, c) + [("c_str is the terminated text", EQ(r, o.C))]))
    fits2 = lambda c: [LE(2 * (c["old"].n + c["src"].n) + 60, V.max)]

    def app(ex, st, o, n, r, c):
        t = of(c["src"]) if "src" in c else c["t"]
        return [("the length is the sum of the lengths", EQ(n.n, o.n + t.n)), ("the old characters are kept", same_elems(n, o, o.n - 1)), ("the appended text follows", same_text(n, t, o.n - 1))]
    U("operator+=", "w_append", setup(src=True, alias_src=True, args=["this", "src"], pre=fits2), post(app), off=("String+=",))
    U("operator+=(text)", "w_append_text", textarg(raw(["this", "t"], setup())), post(app))
    for w in ("iterate", "citerate", "rangefor"):
        def vis(ex, st, o, n, r, c):
            q = z3.Int("q?"); v = st.ghost["visited"]
            return same(ex, st, o, n, r, c) + [("iteration visits every character", EQ(st.ghost["nvisit"], o.n - 1)),
                ("iteration visits the characters in order", z3.ForAll([q], Imp(And(LE(0, lin(q)), LT(lin(q), o.n - 1)), z3.Select(v, q) == z3.Select(o.val, q))))]
        U("iterator " + w, "w_" + w, setup(), post(vis))

    # ---- C10
    def two(kind):
        """operands a, b (the same string too), or a string and a text; an uninitialised result object"""
        def f(ex):
            res = []
            for l, st, al, c in setup(src=kind == "SS", alias_src=kind == "SS", pre=lambda c: fits2(c) if kind == "SS" else room(c))(ex):
                res.append((l, st, al, c))
            if kind != "SS": res = textarg(lambda ex, res=res: [(l, s, ["t"], c) for l, s, al, c in res])(ex)
            out = []
            for l, st, al, c in res:
                oo = ex.add_obj(st, size, "result", "param"); c = dict(c, res=oo)
                a = c["obj"].base; b = c["sobj"].base if kind == "SS" else c["targ"]
                A = of(c["old"]); T = of(c["src"]) if kind == "SS" else c["t"]
                if kind == "tS": a, b, A, T = b, a, T, A
                out.append((l, st, (a, b), dict(c, A=A, T=T)))
            return out
        return f

    def with_out(s): return lambda ex: [(l, st, [c["res"].base, al[0], al[1]], c) for l, st, al, c in s(ex)]
    def no_out(s): return lambda ex: [(l, st, list(al), c) for l, st, al, c in s(ex)]

    def operands(ex, st, c):
        own = set()
        for k, w in (("obj", "old"), ("sobj", "src")):
            if k in c and (k != "sobj" or not c.get("self")):
                v = V.read(ex, st, c[k], oV, "operand")
                if v is None: return None
                V.inv(ex, st, v, "operand"); own.add(v.aid)
                ex.oblige(st, "the operands are unchanged", And(EQ(v.n, c[w].n), EQ(v.cap, c[w].cap), same_elems(v, c[w], v.n)), "post")
        return own

    def cat_post(ex, st, r, c):
        own = operands(ex, st, c)
        if own is None: return
        v = V.read(ex, st, c["res"], oV, "result")
        if v is None: return
        V.inv(ex, st, v, "result"); check(ex, st, c["res"], v, c, "result")
        if v.val is None: return
        ex.oblige(st, "the result is a string of its own", z3.BoolVal(v.aid not in own), "post")
        ex.oblige(st, "the length is the sum of the lengths", EQ(v.n, c["A"].n + c["T"].n + 1), "post")
        ex.oblige(st, "the left text comes first", same_text(v, c["A"]), "post")
        ex.oblige(st, "the right text follows", same_text(v, c["T"], c["A"].n), "post")
        no_leak(ex, st, own | {v.aid})

    def cmp_post(neg):
        def f(ex, st, r, c):
            own = operands(ex, st, c)
            if own is None: return
            e = equal(c["A"], c["T"])
            ex.oblige(st, "%s exactly when the texts are %s" % ("!=" if neg else "==", "different" if neg else "equal"), Imp(r, Not(e) if neg else e), "post")
            ex.oblige(st, "%s whenever the texts are %s" % ("!=" if neg else "==", "different" if neg else "equal"), Imp(Not(r), e if neg else Not(e)), "post")
            no_leak(ex, st, own)
        return f
    for kind, n1, n2, n3 in (("SS", "w_cat", "w_eq", "w_ne"), ("St", "w_cat_text", "w_eq_text", "w_ne_text"), ("tS", "w_text_cat", "w_text_eq", "w_text_ne")):
        U("operator+ " + kind, n1, with_out(two(kind)), cat_post, off=("String+String",) if kind == "SS" else ())
        U("operator== " + kind, n2, no_out(two(kind)), cmp_post(False), off=("String==String",) if kind == "SS" else ())
        U("operator!= " + kind, n3, no_out(two(kind)), cmp_post(True))
    return mod, us


CLAIMS = {"C09": ("all", "(?!String::operator(\\+ |==|!=))"), "C10": ("all", ".*")}
