"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for /repo's templates.

Only the constructs clang -O0 + opt(sroa,mem2reg,simplifycfg) produces here are read; anything else
raises Unsupported, which the checks report as 'undecided', never as a violation."""
import re, subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elems", "name")

    def __init__(self, k, n=0, elems=None, name=None):
        self.k = k; self.n = n; self.elems = elems; self.name = name

    def __repr__(self):
        if self.k == "int": return "i%d" % self.n
        if self.k == "arr": return "[%d x %r]" % (self.n, self.elems[0])
        if self.k == "struct": return self.name or "{%s}" % ", ".join(map(repr, self.elems or []))
        return self.k


PTR = Ty("ptr"); VOID = Ty("void")
_INT = {}


def INT(n):
    if n not in _INT: _INT[n] = Ty("int", n)
    return _INT[n]


class Inst:
    __slots__ = ("op", "res", "ty", "args", "flags", "x", "line", "text")

    def __init__(self, op, res, ty=None, args=(), flags=(), x=None, line=0, text=""):
        self.op = op; self.res = res; self.ty = ty; self.args = args; self.flags = flags; self.x = x; self.line = line; self.text = text


class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.order = []; self.entry = None; self.ret = None
        self.dem = name; self.noreturn = False; self.line = 0; self.sret = None
        self._loops = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == "br": return list(t.x)
        if t.op == "switch": return [t.x[0]] + [l for _, l in t.x[1]]
        return []

    def loops(self):
        """natural loops: header -> set of blocks (merged per header)"""
        if self._loops is not None: return self._loops
        order = []; seen = set()
        stack = [(self.entry, iter(self.succs(self.entry)))]; seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succs(s)))); break
            else:
                order.append(b); stack.pop()
        rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b): preds[s].append(b)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]: a = idom[a]
                                while idx[c] > idx[a]: c = idom[c]
                            new = a
                if idom.get(b) != new: idom[b] = new; changed = True

        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x); work.extend(preds[x])
                elif idx[s] <= idx[b]:
                    raise Unsupported("irreducible control flow in " + self.dem)
        self._loops = loops
        return loops


_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writable", "dead_on_unwind", "immarg", "readnone", "returned", "inreg", "nofree", "writeonly", "nest", "swiftself"}
_TOK = re.compile(r'\s*(?:(c?"(?:[^"\\]|\\.)*")|([%@][-a-zA-Z$._0-9]+|[%@]"(?:[^"\\]|\\.)*")|(![-a-zA-Z$._0-9]*)|([-+]?\d+\.\d+(?:e[-+]?\d+)?|-?\d+|0x[0-9A-Fa-f]+)|([a-zA-Z_][-a-zA-Z$._0-9]*)|(\.\.\.)|(.))')


def toks(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = _TOK.match(s, i)
        if not m: break
        t = m.group(0).strip()
        i = m.end()
        if t: out.append(t)
    return out


def unq(name):
    if name[1:2] == '"': return name[0] + name[2:-1]
    return name


class P:
    """token cursor"""
    def __init__(self, mod, t):
        self.m = mod; self.t = t; self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1; return x

    def acc(self, x):
        if self.peek() == x: self.i += 1; return True
        return False

    def exp(self, x):
        if not self.acc(x): raise Unsupported("expected %r near %r" % (x, " ".join(self.t[max(0, self.i - 4):self.i + 6])))

    def type(self):
        t = self.next()
        if t == "ptr":
            if self.peek() == "addrspace": raise Unsupported("addrspace")
            return PTR
        if t == "void": return VOID
        if re.fullmatch(r"i\d+", t): return INT(int(t[1:]))
        if t in ("float", "double", "x86_fp80", "half"): return Ty("fp", {"float": 32, "double": 64, "x86_fp80": 80, "half": 16}[t])
        if t == "label": return Ty("label")
        if t == "metadata": return Ty("metadata")
        if t[0] == "%": return self.m.named(unq(t))
        if t == "[":
            n = int(self.next()); self.exp("x"); e = self.type(); self.exp("]")
            return Ty("arr", n, [e])
        if t == "{":
            es = []
            while not self.acc("}"):
                es.append(self.type()); self.acc(",")
            return Ty("struct", 0, es)
        if t == "<":
            if self.peek() == "{": raise Unsupported("packed struct")
            raise Unsupported("vector type")
        raise Unsupported("type " + t)

    def attrs(self):
        sret = None
        while True:
            t = self.peek()
            if t in _ATTRS: self.i += 1
            elif t in ("align", "dereferenceable", "dereferenceable_or_null"):
                self.i += 1
                if self.acc("("):
                    self.next(); self.exp(")")
                else: self.next()
            elif t in ("sret", "byval", "elementtype"):
                self.i += 1; self.exp("("); sret = self.type(); self.exp(")")
            elif t == "range" or t == "captures":
                self.i += 1; self.exp("(")
                d = 1
                while d:
                    u = self.next(); d += (u == "(") - (u == ")")
            else: return sret

    def value(self, ty):
        t = self.peek()
        if t[0] == "%": self.i += 1; return ("r", unq(t))
        if t[0] == "@": self.i += 1; return ("g", unq(t)[1:])
        if t == "null": self.i += 1; return ("c", 0)
        if t == "zeroinitializer": self.i += 1; return ("z",)
        if t in ("undef", "poison"): self.i += 1; return ("u",)
        if t == "true": self.i += 1; return ("c", 1)
        if t == "false": self.i += 1; return ("c", 0)
        if re.fullmatch(r"-?\d+", t): self.i += 1; return ("c", int(t))
        if ty.k == "fp": self.i += 1; return ("f", t)
        if t == "getelementptr":
            self.i += 1; self.acc("inbounds"); self.exp("(")
            bt = self.type(); self.exp(",")
            args = []
            while True:
                self.acc("inrange")
                at = self.type(); args.append((at, self.value(at)))
                if not self.acc(","): break
            self.exp(")")
            return ("gep", bt, args)
        if t in ("inttoptr", "ptrtoint", "bitcast"):
            self.i += 1; self.exp("("); at = self.type(); v = self.value(at); self.exp("to"); self.type(); self.exp(")")
            return (t, at, v)
        if t == "{" or t == "[":
            close = "}" if t == "{" else "]"
            self.i += 1; vs = []
            while not self.acc(close):
                at = self.type(); vs.append((at, self.value(at))); self.acc(",")
            return ("agg", vs)
        if t.startswith('c"'): self.i += 1; return ("str", t)
        raise Unsupported("value " + t)

    def tval(self):
        ty = self.type(); self.attrs(); return ty, self.value(ty)


class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.dbg = {}; self._raw = {}
        self.parse(text)

    def named(self, n):
        if n not in self.types: self.types[n] = Ty("struct", 0, None, n[1:])
        return self.types[n]

    # -------- layout
    def size(self, t):
        if t.k == "int": return max(1, (t.n + 7) // 8) if t.n in (1, 8, 16, 32, 64, 128) else self._bad(t)
        if t.k == "ptr": return 8
        if t.k == "fp": return {32: 4, 64: 8, 80: 16, 16: 2}[t.n]
        if t.k == "arr": return t.n * self.size(t.elems[0])
        if t.k == "struct":
            if t.elems is None: raise Unsupported("opaque type %r" % t)
            o = 0
            for e in t.elems:
                a = 1 if t.n else self.align(e); o = (o + a - 1) // a * a + self.size(e)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise Unsupported("size of %r" % t)

    def _bad(self, t): raise Unsupported("integer width %r" % t)

    def align(self, t):
        if t.k == "int": return min(self.size(t), 16)
        if t.k == "ptr": return 8
        if t.k == "fp": return {32: 4, 64: 8, 80: 16, 16: 2}[t.n]
        if t.k == "arr": return self.align(t.elems[0])
        if t.k == "struct": return 1 if t.n else max([1] + [self.align(e) for e in t.elems or []])
        raise Unsupported("align")

    def offset(self, t, i):
        o = 0
        for j, e in enumerate(t.elems):
            a = 1 if t.n else self.align(e); o = (o + a - 1) // a * a
            if j == i: return o
            o += self.size(e)
        raise Unsupported("field index")

    # -------- text
    def parse(self, text):
        lines = text.split("\n"); i = 0
        bodies = []
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                p = P(self, toks(l)); n = unq(p.next()); p.exp("="); p.exp("type")
                if p.peek() == "opaque": self.named(n)
                elif p.peek() == "<" and p.peek(1) == "{":
                    p.next(); ty = self.named(n); ty.elems = p.type().elems; ty.n = 1      # packed
                else: self.named(n).elems = p.type().elems
            elif l.startswith("@"):
                try: self.parse_global(l)
                except Unsupported: pass
            elif l.startswith("define "):
                j = i + 1
                while lines[j] != "}": j += 1
                bodies.append((l, lines[i + 1:j])); i = j
            elif l.startswith("declare "):
                m = re.search(r"@(\"[^\"]+\"|[-a-zA-Z$._0-9]+)\(", l)
                if m: self.decls[m.group(1).strip('"')] = l
            elif l.startswith("!"):
                m = re.match(r"!(\d+) = (?:distinct )?!DI(Location|Subprogram|LexicalBlock\w*)\((.*)\)$", l)
                if m: self._raw[m.group(1)] = (m.group(2), m.group(3))
            i += 1
        for h, b in bodies:
            self._raw_func(h, b)
        names = list(self.funcs) + list(self.decls)
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.dem = {}
        for n, d in zip(names, out):
            self.dem[n] = d
            if n in self.funcs: self.funcs[n].dem = d

    def line_of(self, l):
        m = re.search(r"!dbg !(\d+)", l)
        if not m: return 0
        r = self._raw.get(m.group(1))
        if not r: return 0
        m = re.search(r"line: (\d+)", r[1])
        return int(m.group(1)) if m else 0

    def parse_global(self, l):
        p = P(self, toks(l)); n = unq(p.next())[1:]; p.exp("=")
        const = False
        while True:
            t = p.peek()
            if t in ("constant", "global"): const = t == "constant"; p.next(); break
            if t == "thread_local":
                p.next()
                continue
            if t is None or t == "alias": return
            p.next()
        ty = p.type(); init = None
        if p.peek() is not None and p.peek() != ",":
            try: init = p.value(ty)
            except Unsupported: init = None
        self.globals[n] = (ty, init, const)

    def _raw_func(self, head, body):
        m = re.search(r"@(\"[^\"]+\"|[-a-zA-Z$._0-9]+)\(", head)
        f = Func(m.group(1).strip('"'))
        f.head = head; f.body = body; f.noreturn = False
        self.funcs[f.name] = f
        f.line = self.line_of(head)

    def func(self, name):
        f = self.funcs.get(name)
        if f is None: return None
        if f.entry is None: self.parse_func(f)
        return f

    def parse_func(self, f):
        m = re.search(r"@(\"[^\"]+\"|[-a-zA-Z$._0-9]+)\(", f.head)
        t = toks(f.head[m.end():])
        p = P(self, t); cnt = 0; depth = 1
        while not p.acc(")"):
            if p.peek() == "...": raise Unsupported("varargs " + f.name)
            ty = p.type(); sret = p.attrs()
            if p.peek() and p.peek()[0] == "%": nm = unq(p.next())
            else: nm = "%%%d" % cnt
            cnt += 1
            f.params.append((nm, ty))
            if sret is not None and len(f.params) == 1 and "sret(" in f.head: f.sret = sret
            p.acc(",")
        # return type
        h = f.head[:m.start()]
        hp = P(self, [x for x in toks(h)])
        hp.next()
        skip = {"dso_local", "linkonce_odr", "internal", "weak_odr", "private", "available_externally", "external", "fastcc", "hidden", "local_unnamed_addr", "unnamed_addr", "weak", "linkonce"}
        while hp.peek() in skip: hp.next()
        hp.attrs(); f.ret = hp.type()
        cur = str(cnt); cur = "%" + cur
        f.entry = None
        sw = None
        for l in f.body:
            s = l.split(";", 1)[0].rstrip() if not '"' in l else l.rstrip()
            if not s.strip(): continue
            if sw is not None: s = sw + " " + s.strip(); sw = None
            if s.strip().startswith("switch ") and "]" not in s:
                sw = s; continue
            mm = re.match(r'^(\d+|[-a-zA-Z$._0-9]+|"[^"]+"):', s)
            if mm:
                cur = "%" + mm.group(1).strip('"')
                if f.entry is None: f.entry = cur
                f.blocks[cur] = []; f.order.append(cur)
                continue
            if f.entry is None:
                f.entry = cur; f.blocks[cur] = []; f.order.append(cur)
            try: ins = self.parse_inst(s)
            except Unsupported as e:
                if s.strip().startswith(("br", "switch", "ret")): raise
                m = re.match(r"\s*(%\S+) = ", s)
                ins = Inst("unsupported", m.group(1) if m else None, x="%s: %s" % (e, s.strip()), line=self.line_of(s))
            if ins is not None: f.blocks[cur].append(ins)

    def parse_inst(self, s):
        line = self.line_of(s)
        core = re.split(r", !(?:dbg|tbaa|srcloc|prof|llvm\.loop|heapallocsite|noundef|range|nosanitize) ", s, 1)[0]
        core = re.sub(r",? ?!(?:dbg|llvm\.loop|srcloc) !\d+", "", core)
        p = P(self, toks(core)); res = None
        if p.peek(1) == "=": res = unq(p.next()); p.next()
        op = p.next()

        def I(*a, **k): return Inst(*a, line=line, text=core.strip(), **k)
        while op in ("tail", "musttail", "notail"): op = p.next()
        if op == "ret":
            ty = p.type()
            return I("ret", None, ty, () if ty.k == "void" else (p.value(ty),))
        if op == "br":
            if p.acc("label"): return I("br", None, x=[unq(p.next())])
            ty = p.type(); c = p.value(ty); p.exp(","); p.exp("label"); a = unq(p.next()); p.exp(","); p.exp("label"); b = unq(p.next())
            return I("br", None, args=(c,), x=[a, b])
        if op == "switch":
            ty = p.type(); v = p.value(ty); p.exp(","); p.exp("label"); d = unq(p.next()); p.exp("[")
            cs = []
            while not p.acc("]"):
                p.type(); c = int(p.next()); p.exp(","); p.exp("label"); cs.append((c, unq(p.next())))
            return I("switch", None, ty, (v,), x=(d, cs))
        if op == "unreachable": return I("unreachable", None)
        if op == "phi":
            ty = p.type(); inc = []
            while True:
                p.exp("["); v = p.value(ty); p.exp(","); l = unq(p.next()); p.exp("]"); inc.append((v, l))
                if not p.acc(","): break
            return I("phi", res, ty, x=inc)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            fl = set()
            while p.peek() in ("nsw", "nuw", "exact", "disjoint"): fl.add(p.next())
            ty = p.type(); a = p.value(ty); p.exp(","); b = p.value(ty)
            return I(op, res, ty, (a, b), fl)
        if op == "icmp":
            c = p.next(); ty = p.type(); a = p.value(ty); p.exp(","); b = p.value(ty)
            return I("icmp", res, ty, (a, b), x=c)
        if op == "select":
            cty = p.type(); c = p.value(cty); p.exp(","); t1 = p.type(); a = p.value(t1); p.exp(","); t2 = p.type(); b = p.value(t2)
            return I("select", res, t1, (c, a, b))
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            while p.peek() in ("nneg", "nsw", "nuw"): p.next()
            ty = p.type(); v = p.value(ty)
            to = ty
            if op != "freeze":
                p.exp("to"); to = p.type()
            return I(op, res, to, (v,), x=ty)
        if op == "alloca":
            ty = p.type(); n = None
            while p.acc(","):
                if p.acc("align"): p.next()
                else:
                    t2 = p.type(); n = p.value(t2)
            return I("alloca", res, ty, (n,))
        if op == "load":
            p.acc("volatile")
            ty = p.type(); p.exp(","); pt = p.type(); a = p.value(pt)
            return I("load", res, ty, (a,))
        if op == "store":
            p.acc("volatile")
            ty = p.type(); v = p.value(ty); p.exp(","); pt = p.type(); a = p.value(pt)
            return I("store", None, ty, (v, a))
        if op == "getelementptr":
            p.acc("inbounds")
            bt = p.type(); args = []
            while p.acc(","):
                t = p.type(); args.append((t, p.value(t)))
            return I("gep", res, bt, x=args)
        if op == "call":
            while p.peek() in ("fastcc", "ccc", "nnan", "noalias"): p.next()
            p.attrs(); rt = p.type()
            if p.peek() == "(":           # function type for varargs
                raise Unsupported("varargs call")
            callee = p.value(PTR); p.exp("(")
            if callee[0] == "g" and callee[1].startswith("llvm.dbg"): return None
            args = []
            while not p.acc(")"):
                ty = p.type()
                if ty.k == "metadata": raise Unsupported("metadata arg")
                p.attrs(); args.append((ty, p.value(ty))); p.acc(",")
            return I("call", res, rt, (callee,), x=args)
        if op == "extractvalue":
            ty = p.type(); a = p.value(ty); p.exp(","); i = int(p.next())
            if p.acc(","): raise Unsupported("nested aggregate")
            return I(op, res, ty, (a,), x=i)
        if op == "insertvalue":
            ty = p.type(); a = p.value(ty); p.exp(","); t2 = p.type(); v = p.value(t2); p.exp(","); i = int(p.next())
            if p.acc(","): raise Unsupported("nested aggregate")
            return I(op, res, ty, (a, v), x=(i, t2))
        if op == "fence": return None
        return I("unsupported", res, x=op)
