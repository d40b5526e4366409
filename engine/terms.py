"""Term layer: integers and reals as z3 terms; products kept as canonical uninterpreted products; sums as
uninterpreted symbols with extensionality; complex numbers as pairs."""
import z3, itertools

_ctr = itertools.count()
R0, R1 = z3.RealVal(0), z3.RealVal(1)


def fresh_name(base):
    return f"{base}!{next(_ctr)}"


def fint(base="i"):
    return z3.Int(fresh_name(base))


def freal(base="r"):
    return z3.Real(fresh_name(base))


def I(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def num(t):
    if z3.is_int_value(t):
        return t.as_long()
    return t.as_fraction()


# ------------------------------------------------------------- conjunctions with light simplification
def And(*xs):
    r = []
    for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs):
        if x is True or z3.is_true(x):
            continue
        if x is False or z3.is_false(x):
            return z3.BoolVal(False)
        r.append(x)
    if not r:
        return z3.BoolVal(True)
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs):
        if x is False or z3.is_false(x):
            continue
        if x is True or z3.is_true(x):
            return z3.BoolVal(True)
        r.append(x)
    if not r:
        return z3.BoolVal(False)
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    if x is True or z3.is_true(x):
        return z3.BoolVal(False)
    if x is False or z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def If(c, a, b):
    """ite on z3 scalars or Cx."""
    if c is True or z3.is_true(c):
        return a
    if c is False or z3.is_false(c):
        return b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = tocx(a), tocx(b)
        return Cx(If(c, a.re, b.re), If(c, a.im, b.im))
    if a.eq(b):
        return a
    if z3.is_bool(a) and not z3.is_bool(b):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b) and not z3.is_bool(a):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    return z3.If(c, a, b)


# ------------------------------------------------------------- polynomials (ints and reals)
_polycache = {}


def poly(t):
    """dict: monomial(tuple of (atom-id sorted)) -> coefficient.  Atoms registered in _atoms."""
    key = t.get_id()
    r = _polycache.get(key)
    if r is not None and r[0].eq(t):
        return r[1]
    p = _poly(t)
    _polycache[key] = (t, p)
    return p


_atoms = {}


def _atom(t):
    _atoms[t.get_id()] = t
    return {(t.get_id(),): 1}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


_rmul = z3.Function("rmul", z3.RealSort(), z3.RealSort(), z3.RealSort())
_rinv = z3.Function("rinv", z3.RealSort(), z3.RealSort())


def _poly(t):
    if is_num(t):
        n = num(t)
        return {(): n} if n != 0 else {}
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                r = padd(r, poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            cs = t.children()
            r = poly(cs[0])
            for c in cs[1:]:
                r = padd(r, poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, poly(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): 1}
            for c in t.children():
                r = pmul(r, poly(c))
            return r
        if k == z3.Z3_OP_TO_REAL and z3.is_app(t.arg(0)) and t.arg(0).decl().eq(_trunc) and integral(t.arg(0).arg(0)):
            return poly(t.arg(0).arg(0))
        if k == z3.Z3_OP_TO_REAL and z3.is_app(t.arg(0)) and t.arg(0).decl().kind() == z3.Z3_OP_ITE:
            c, x, y = t.arg(0).children()
            return poly(z3.If(c, toreal(x), toreal(y)))
        if k == z3.Z3_OP_TO_REAL and z3.is_int(t.arg(0)):
            pi = poly(t.arg(0))
            if True:
                r = {}
                for m, c in pi.items():
                    if m == ():
                        r = padd(r, {(): c})
                    elif len(m) > 1:
                        q = {(): c}
                        for a in m:
                            q = pmul(q, poly(z3.ToReal(_atoms[a])))
                        r = padd(r, q)
                    else:
                        x = _atoms[m[0]]
                        if z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_ITE or x.decl().eq(_trunc)):
                            q = poly(z3.ToReal(x)) if not t.arg(0).eq(x) else _atom(t)
                        else:
                            q = _atom(z3.ToReal(x))
                        r = padd(r, {k2: v * c for k2, v in q.items()})
                return r
        if t.decl().eq(_rmul):
            r = {(): 1}
            for c in t.children():
                r = pmul(r, poly(c))
            return r
    return _atom(t)


def toreal(x):
    return z3.RealVal(num(x)) if is_num(x) else z3.ToReal(x)


_integral = {}


def integral(t):
    """the real term only takes whole values"""
    key = t.get_id()
    r = _integral.get(key)
    if r is not None and r[0].eq(t):
        return r[1]
    v = _integral_(t)
    _integral[key] = (t, v)
    return v


def _integral_(t):
    if is_num(t):
        return num(t) == int(num(t))
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) or t.decl().eq(_rmul):
        return all(integral(c) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return integral(t.arg(1)) and integral(t.arg(2))
    if k == z3.Z3_OP_TO_REAL:
        return True
    if t.decl().name() in OPS.tab and OPS.tab[t.decl().name()][0] == "Σ":
        return integral(OPS.tab[t.decl().name()][3])
    return False


def poly_term(p, real=False):
    """Rebuild a z3 term from a polynomial; real products go through rmul in canonical order."""
    ts = []
    for m, c in sorted(p.items(), key=lambda mc: mc[0]):
        if m == ():
            ts.append(z3.RealVal(c) if real else z3.IntVal(int(c)))
            continue
        at = [_atoms[a] for a in m]
        if real:
            at.sort(key=_akey)
            x = at[-1]
            for a in reversed(at[:-1]):
                x = _rmul(a, x)
            x = x if c == 1 else z3.RealVal(c) * x
        else:
            x = at[0]
            for a in at[1:]:
                x = x * a
            x = x if c == 1 else z3.IntVal(int(c)) * x
        ts.append(x)
    if not ts:
        return z3.RealVal(0) if real else z3.IntVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


_akeys = {}


def _akey(t):
    """Stable ordering key of atoms (structural, shallow)."""
    k = t.get_id()
    if k not in _akeys:
        _akeys[k] = (t, (t.decl().name() if z3.is_app(t) else "?", k))
    return _akeys[k][1]


def peq(a, b):
    return not padd(poly(a), poly(b), -1)


def pdiff_const(a, b):
    """constant value of a-b if syntactically constant, else None"""
    d = padd(poly(a), poly(b), -1)
    if not d:
        return 0
    if set(d) == {()}:
        return d[()]
    return None


def simp_int(t):
    return poly_term(poly(t), False) if z3.is_int(t) else t


# ------------------------------------------------------------- real arithmetic
def rmul(x, y):
    if is_num(x):
        c = num(x)
        if c == 0:
            return R0
        if c == 1:
            return y
    if is_num(y):
        c = num(y)
        if c == 0:
            return R0
        if c == 1:
            return x
    px, py = poly(x), poly(y)
    if len(px) * len(py) > 64:
        return poly_term(pmul(_atom(x), _atom(y)), True)
    return poly_term(pmul(px, py), True)


def radd(x, y):
    if is_num(x) and num(x) == 0:
        return y
    if is_num(y) and num(y) == 0:
        return x
    return x + y


def rsub(x, y):
    if is_num(y) and num(y) == 0:
        return x
    return x - y


def rneg(x):
    return R0 - x if not is_num(x) else z3.RealVal(-num(x))


def rdiv(x, y):
    if is_num(y) and num(y) != 0:
        from fractions import Fraction
        return rmul(z3.RealVal(Fraction(1) / Fraction(num(y))), x)
    return rmul(x, _rinv(z3.simplify(y) if False else poly_term(poly(y), True)))


def rabs(x):
    if is_num(x):
        return z3.RealVal(abs(num(x)))
    return z3.If(x >= 0, x, -x)


_cabs = z3.Function("cabs", z3.RealSort(), z3.RealSort(), z3.RealSort())
_rnd32 = z3.Function("rnd32", z3.RealSort(), z3.RealSort())
_sqrt = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
_pow = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
_trunc = z3.Function("trunc", z3.RealSort(), z3.IntSort())


class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return f"({self.re} + i*{self.im})"


def tocx(v):
    return v if isinstance(v, Cx) else Cx(v, R0)


def vadd(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = tocx(a), tocx(b)
        return Cx(radd(a.re, b.re), radd(a.im, b.im))
    return radd(a, b)


def vsub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = tocx(a), tocx(b)
        return Cx(rsub(a.re, b.re), rsub(a.im, b.im))
    return rsub(a, b)


def vneg(a):
    return Cx(rneg(a.re), rneg(a.im)) if isinstance(a, Cx) else rneg(a)


def vmul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = tocx(a), tocx(b)
        return Cx(rsub(rmul(a.re, b.re), rmul(a.im, b.im)), radd(rmul(a.re, b.im), rmul(a.im, b.re)))
    return rmul(a, b)


def vdiv(a, b):
    if isinstance(b, Cx) and is_num(b.im) and num(b.im) == 0:
        b = b.re
    if isinstance(b, Cx):
        d = radd(rmul(b.re, b.re), rmul(b.im, b.im))
        n = vmul(a, Cx(b.re, rneg(b.im)))
        return Cx(rdiv(n.re, d), rdiv(n.im, d))
    if isinstance(a, Cx):
        return Cx(rdiv(a.re, b), rdiv(a.im, b))
    return rdiv(a, b)


def vconj(a):
    return Cx(a.re, rneg(a.im)) if isinstance(a, Cx) else a


def vabs(a):
    return _cabs(a.re, a.im) if isinstance(a, Cx) else rabs(a)


def veq(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = tocx(a), tocx(b)
        return And(a.re == b.re, a.im == b.im)
    return a == b


def vre(a):
    return a.re if isinstance(a, Cx) else a


def vim(a):
    return a.im if isinstance(a, Cx) else R0


def vnorm2(a):
    if isinstance(a, Cx):
        return radd(rmul(a.re, a.re), rmul(a.im, a.im))
    return rmul(a, a)


def zero(kind):
    return Cx(R0, R0) if kind == "cx" else (R0 if kind == "real" else z3.IntVal(0))


# ------------------------------------------------------------- sums / extrema over an index
class BigOps:
    """Registry of Σ / max / min symbols.  Each symbol is an uninterpreted function of (lo, hi, free constants);
    equality between two symbols is decided by extensionality instances added at query time."""

    def __init__(self):
        self.tab = {}      # decl name -> (op, k placeholder, consts, body, decl)
        self.key = {}

    def _mk(self, op, lo, hi, k, body):
        # placeholder
        ph = z3.Int("κ%d" % _depth(body))
        b = z3.substitute(body, (k, ph))
        cs = free_consts(b)
        cs = [c for c in cs if not c.eq(ph)]
        # the free constants become parameters, so that equal bodies share one symbol
        ps = [z3.Const(f"ρ{i}{c.sort().name()[0]}", c.sort()) for i, c in enumerate(cs)]
        if cs:
            b = z3.substitute(b, *zip(cs, ps))
        key = (op, b.get_id(), ph.get_id())
        ent = self.key.get(key)
        if ent is None:
            name = f"{op}@{len(self.key)}"
            sorts = [z3.IntSort(), z3.IntSort()] + [c.sort() for c in cs]
            d = z3.Function(name, *sorts, z3.RealSort())
            ent = (op, ph, ps, b, d)
            self.key[key] = ent
            self.tab[name] = ent
        return ent[4](lo, hi, *cs)

    def sum(self, lo, hi, k, body):
        if isinstance(body, Cx):
            return Cx(self.sum(lo, hi, k, body.re), self.sum(lo, hi, k, body.im))
        if z3.is_int(body):
            body = z3.ToReal(body)
        lo, hi = I(lo), I(hi)
        p = poly(body)
        out = {}
        for m, c in p.items():
            inn, outer = [], []
            for a in m:
                (inn if depends(_atoms[a], k) else outer).append(a)
            if not inn:
                cnt = z3.ToReal(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
                t = _atom(cnt)
            else:
                tb = poly_term({tuple(inn): 1}, True)
                pt = point_split(tb, k)
                if pt is not None:
                    # sum over k of (k == c ? a : b)  =  sum of b  +  [lo <= c < hi] (a(c) - b(c))
                    pc, a, b = pt
                    d = rsub(z3.substitute(a, (k, pc)), z3.substitute(b, (k, pc)))
                    t = poly(radd(self.sum(lo, hi, k, b), If(And(lo <= pc, pc < hi), d, R0)))
                else:
                    t = _atom(self._mk("Σ", lo, hi, k, tb))
            t = pmul(t, {tuple(sorted(outer)): c})
            out = padd(out, t)
        return poly_term(out, True)

    def ext(self, op, lo, hi, k, body):
        return self._mk(op, I(lo), I(hi), k, body)


def point_split(t, k):
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
        return None
    c, a, b = t.children()
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    if z3.is_eq(c) and z3.is_int(c.arg(0)):
        p = padd(poly(c.arg(0)), poly(c.arg(1)), -1)
        cf = p.get((k.get_id(),))
        if cf in (1, -1):
            rest = {m: v for m, v in p.items() if m != (k.get_id(),)}
            r = poly_term(rest)
            if not depends(r, k):
                return simp_int(-r if cf == 1 else r), a, b
    return None


def _depth(t):
    d = 0
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            if n[0] in "Σ" or n.startswith(("max@", "min@")):
                d += 1
            st.extend(x.children())
    return d


OPS = BigOps()

_fc = {}


def free_consts(t):
    """0-ary uninterpreted constants of t, in order of occurrence."""
    key = t.get_id()
    r = _fc.get(key)
    if r is not None and r[0].eq(t):
        return r[1]
    seen, out, st = set(), {}, [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.setdefault(x.decl().name(), x)
            else:
                st.extend(reversed(x.children()))
    r = list(out.values())
    _fc[key] = (t, r)
    return r


_ff = {}


def free_syms(t):
    """names of all uninterpreted symbols (constants and functions) of t."""
    key = t.get_id()
    r = _ff.get(key)
    if r is not None and r[0].eq(t):
        return r[1]
    seen, out, st = set(), set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                out.add(n)
                if n in OPS.tab:
                    st.append(OPS.tab[n][3])
            st.extend(x.children())
    _ff[key] = (t, out)
    return out


def depends(t, c):
    return c.decl().name() in free_syms(t)


def subst(v, *pairs):
    if isinstance(v, Cx):
        return Cx(subst(v.re, *pairs), subst(v.im, *pairs))
    return z3.substitute(v, *pairs)


_nodes = {}     # AST id -> (term, decl name of an application or None, decl kind, ids of the arguments)


def node(x, i=None):
    """cached view of a term (the term is kept alive, so its id stays its own)"""
    if i is None:
        i = x.get_id()
    r = _nodes.get(i)
    if r is None:
        if z3.is_app(x):
            d = x.decl()
            ch = x.children()
            ids = []
            for c in ch:
                j = c.get_id()
                ids.append(j)
                if j not in _nodes:
                    node(c, j)
            r = (x, d.name(), d.kind(), tuple(ids))
        else:
            r = (x, None, None, ())
        _nodes[i] = r
    return r


def collect_apps(ts, pred=None, names=None, seen=None):
    """applications inside the terms (not under quantifiers) with one of the names, for which pred holds"""
    seen = set() if seen is None else seen
    out, st = [], []
    for t in ts:
        i = t.get_id()
        if i not in _nodes:
            node(t, i)
        st.append(i)
    nodes = _nodes
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        x, nm, kd, ch = nodes[i]
        if nm is None:
            continue
        if (names is None or nm in names) and (pred is None or pred(x)):
            out.append(x)
        st.extend(ch)
    return out
