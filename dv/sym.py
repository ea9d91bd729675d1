"""Terms: integers as linear combinations of z3 atoms, booleans as z3 formulas, and the solver wrapper."""
import z3, time

I = z3.IntSort(); B = z3.BoolSort()
AII = z3.ArraySort(I, I); AIB = z3.ArraySort(I, B)


_forall = z3.ForAll


def _has_ite(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE: return True
            st.extend(x.children())
    return False


def ForAll(vs, body, patterns=(), **k):
    """terms with a conditional inside cannot be triggers: the trigger is then left to the solver"""
    pats = [p for p in patterns if isinstance(p, z3.PatternRef) or not _has_ite(p)]
    return _forall(vs, body, patterns=pats, **k)


z3.ForAll = ForAll


class Atoms:
    """registry of the atoms (non-linear z3 integer terms) that Lin combines"""
    def __init__(self):
        self.expr = []; self.byid = {}; self.meta = []

    def of(self, e, **meta):
        k = e.get_id()
        i = self.byid.get(k)
        if i is None:
            i = len(self.expr); self.byid[k] = i; self.expr.append(e); self.meta.append({})
        if meta: self.meta[i].update(meta)
        return i


AT = Atoms()


class Lin:
    __slots__ = ("c", "t", "_z")

    def __init__(self, c=0, t=()):
        self.c = c; self.t = t; self._z = None

    def z(self):
        if self._z is None:
            if not self.t: self._z = z3.IntVal(self.c)
            else:
                ps = [AT.expr[a] if k == 1 else AT.expr[a] * k for a, k in self.t]
                if self.c: ps.append(z3.IntVal(self.c))
                self._z = ps[0] if len(ps) == 1 else z3.Sum(ps)
        return self._z

    def __repr__(self): return str(z3.simplify(self.z()))

    def const(self): return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n: d[a] = n
            else: del d[a]
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self): return self * -1
    def __sub__(self, o): return self + (-o)
    def __rsub__(self, o): return (-self) + o

    def __mul__(self, k):
        if k == 1: return self
        if k == 0: return Lin(0)
        return Lin(self.c * k, tuple((a, n * k) for a, n in self.t))

    __rmul__ = __mul__

    def eq(self, o): return self.c == o.c and self.t == o.t

    def div(self, k):
        """exact division by k, or None"""
        if self.c % k: return None
        for a, n in self.t:
            if n % k: return None
        return Lin(self.c // k, tuple((a, n // k) for a, n in self.t))

    def atoms(self): return [a for a, _ in self.t]


def lin(e):
    """python int / z3 Int term / Lin -> Lin (structure of +,-,* is taken apart)"""
    if isinstance(e, Lin): return e
    if isinstance(e, int): return Lin(e)
    if z3.is_int_value(e): return Lin(e.as_long())
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = Lin(0)
        for c in e.children(): r = r + lin(c)
        return r
    if k == z3.Z3_OP_SUB:
        cs = e.children(); r = lin(cs[0])
        for c in cs[1:]: r = r - lin(c)
        return r
    if k == z3.Z3_OP_UMINUS: return -lin(e.arg(0))
    if k == z3.Z3_OP_MUL and e.num_args() == 2:
        a, b = lin(e.arg(0)), lin(e.arg(1))
        if a.const(): return b * a.c
        if b.const(): return a * b.c
    return Lin(0, ((AT.of(e), 1),))


_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return "%s!%d" % (p, _cnt[0])


def fresh(p, **meta):
    e = z3.Int(fresh_name(p))
    return Lin(0, ((AT.of(e, **meta), 1),))


def freshB(p): return z3.Bool(fresh_name(p))
def freshA(p): return z3.Const(fresh_name(p), AII)
def freshAB(p): return z3.Const(fresh_name(p), AIB)


TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)


def Z(x):
    if isinstance(x, Lin): return x.z()
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x


def And(*xs):
    ys = []
    for x in xs:
        x = Z(x)
        if z3.is_true(x): continue
        if z3.is_false(x): return FALSE
        ys.append(x)
    if not ys: return TRUE
    return ys[0] if len(ys) == 1 else z3.And(ys)


def Or(*xs):
    ys = []
    for x in xs:
        x = Z(x)
        if z3.is_false(x): continue
        if z3.is_true(x): return TRUE
        ys.append(x)
    if not ys: return FALSE
    return ys[0] if len(ys) == 1 else z3.Or(ys)


def Not(x):
    x = Z(x)
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def Imp(a, b):
    a = Z(a); b = Z(b)
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a, b)


def cmp(op, a, b):
    """a, b Lin"""
    d = a - b
    if not d.t:
        c = d.c
        return TRUE if {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op] else FALSE
    x, y = a.z(), b.z()
    if op == "==": return x == y
    if op == "!=": return z3.Not(x == y)
    if op == "<": return x < y
    if op == "<=": return x <= y
    if op == ">": return x > y
    return x >= y


def EQ(a, b):
    if isinstance(a, (Lin, int)) and isinstance(b, (Lin, int)): return cmp("==", lin(a), lin(b))
    return Z(a) == Z(b)


def LE(a, b): return cmp("<=", lin(a), lin(b))
def LT(a, b): return cmp("<", lin(a), lin(b))
def NE(a, b): return Not(EQ(a, b))


def ite(c, a, b):
    c = Z(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a.eq(b): return a
        return lin(z3.If(c, a.z(), b.z()))
    return z3.If(c, Z(a), Z(b))


def forall(names, body, pats=None):
    """names: list of z3 consts"""
    if pats: return z3.ForAll(names, body, patterns=pats)
    return z3.ForAll(names, body)


def _counted(make):
    def f(*a, **k):
        global QUANTIFIERS
        QUANTIFIERS = True; return make(*a, **k)
    return f


QUANTIFIERS = False         # whether this process has built any
z3.ForAll = _counted(z3.ForAll); z3.Exists = _counted(z3.Exists); z3.Lambda = _counted(z3.Lambda)


def has_q(e):
    if not QUANTIFIERS: return False
    if z3.is_quantifier(e): return True
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        if z3.is_app(x): st.extend(x.children())
    return False


def consts(e):
    """uninterpreted constants in a term (names -> expr)"""
    out = {}; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
            st.extend(x.children())
    return out


class Solver:
    """two incremental z3 solvers (ground facts only / everything), synchronised with a state's fact list"""
    def __init__(self, timeout=10000):
        self.q = z3.Solver(); self.l = z3.Solver()
        self.q.set("timeout", timeout); self.l.set("timeout", 2000); self.q.set("smt.mbqi", False)
        self.sq = []; self.sl = []
        self.n = 0; self.time = 0.0; self.timeout = timeout

    def _sync(self, s, stack, facts):
        i = 0
        m = min(len(stack), len(facts))
        while i < m and stack[i] is facts[i]: i += 1
        if len(stack) > i:
            s.pop(len(stack) - i); del stack[i:]
        for f in facts[i:]:
            s.push(); s.add(f); stack.append(f)

    def _check(self, s, stack, facts, extra):
        t = time.time()
        self._sync(s, stack, facts)
        self.n += 1
        s.push()
        for e in extra: s.add(e)
        r = s.check()
        model = None
        if r == z3.sat:
            try: model = s.model()
            except z3.Z3Exception: model = None
        s.pop()
        self.time += time.time() - t
        return r, model

    def light(self, facts, extra):
        return self._check(self.l, self.sl, facts, extra)

    def full(self, facts, extra, timeout=None):
        """E-matching only: answers unsat, or 'unknown'"""
        self.q.set("timeout", timeout or self.timeout)
        r, m = self._check(self.q, self.sq, facts, extra)
        return (r if r == z3.unsat else z3.unknown), None
