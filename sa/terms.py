"""Algebraic value numbering.

A scalar expression of the analysed program is represented by a *normal form*:
a Laurent polynomial with rational coefficients over interned atoms.  Two
program expressions with the same normal form are equal for every input.
Atoms are source symbols, axis indices, and applications of interpreted
(trigonometry, abs, wrap, sums ...) or uninterpreted functions to normal forms.
Nothing of the analysed program is executed to obtain them.
"""
from fractions import Fraction
import math

_ATOMS = {}
_ATOM_LIST = []
_POLYS = {}

MAXMONO = 160


class Atom:
    __slots__ = ("key", "id", "kind", "pos", "deep")

    def __repr__(self):
        return show_atom(self)


def atom(*key, pos=False):
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.key = key
        a.kind = key[0]
        a.id = len(_ATOM_LIST)
        a.pos = pos
        a.deep = None
        _ATOMS[key] = a
        _ATOM_LIST.append(a)
    return a


class Poly:
    __slots__ = ("t", "h", "_free", "_depth", "_opq")

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    # ---- algebra
    def __add__(self, o):
        o = P(o)
        if self is ZERO:
            return o
        if o is ZERO:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
        return mk(d)
    __radd__ = __add__

    def __neg__(self):
        return mk({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if self is ZERO or o is ZERO:
            return ZERO
        if self is ONE:
            return o
        if o is ONE:
            return self
        if len(self.t) * len(o.t) > MAXMONO * 8:
            # keep factored
            return mk_mono([(grp_atom(self), 1), (grp_atom(o), 1)], 1)
        acc = {}
        fix = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mulmono(m1, m2)
                c = c1 * c2
                if _needs_fix(m, m1, m2):
                    fix.append((m, c))
                    continue
                v = acc.get(m, 0) + c
                if v == 0:
                    acc.pop(m, None)
                else:
                    acc[m] = v
        r = mk(acc)
        for m, c in fix:
            r = r + _fixmono(m, c)
        return r
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * powp(P(o), -1)

    def __rtruediv__(self, o):
        return P(o) * powp(self, -1)

    def __pow__(self, n):
        return powp(self, n)

    def __repr__(self):
        return show(self)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None


def mk(d):
    key = frozenset(d.items())
    p = _POLYS.get(key)
    if p is None:
        p = Poly()
        p.t = d
        p.h = hash(key)
        p._free = None
        p._depth = None
        p._opq = None
        _POLYS[key] = p
    return p


ZERO = mk({})
ONE = mk({(): Fraction(1)})


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise ValueError("nonfinite")
        return Fraction(repr(x))
    raise TypeError(type(x))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return mk({((x.id, Fraction(1)),): Fraction(1)})
    f = frac(x)
    if f == 0:
        return ZERO
    return mk({(): f})


def sym(name, pos=False):
    return P(atom("sym", name, pos=pos))


PI_ATOM = atom("sym", "pi", pos=True)
PI = P(PI_ATOM)


def ix(k):
    return P(atom("ix", k))


def bv(d):
    return P(atom("bv", d))


def app(name, *args):
    return P(atom("app", name, tuple(args)))


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return tuple(sorted(d.items()))


def _needs_fix(m, m1, m2):
    for a, e in m:
        k = _ATOM_LIST[a].kind
        if k == "grp" and e.denominator == 1 and e > 0 and len(_ATOM_LIST[a].key[1].t) ** min(int(e), 64) <= MAXMONO:
            return True
        if k == "app" and _ATOM_LIST[a].key[1] == "sin" and e.denominator == 1 and (e >= 2 or e <= -2):
            return True
        if k == "app" and _ATOM_LIST[a].key[1] == "abs" and e.denominator == 1 and e % 2 == 0:
            return True
    return False


def _fixmono(m, c):
    """re-expand integer powers of grouped sums, sin^2 -> 1-cos^2, |x|^2 -> x^2"""
    r = mk({(): c})
    rest = []
    for a, e in m:
        A = _ATOM_LIST[a]
        if A.kind == "grp" and e.denominator == 1 and e > 0 and \
                len(A.key[1].t) ** int(e) <= MAXMONO:
            for _ in range(int(e)):
                r = r * A.key[1]
        elif A.kind == "app" and A.key[1] == "sin" and e.denominator == 1 and e >= 2:
            n = int(e)
            cs = app("cos", A.key[2][0])
            r = r * powp(ONE - cs * cs, n // 2)
            if n % 2:
                rest.append((a, Fraction(1)))
        elif A.kind == "app" and A.key[1] == "sin" and e.denominator == 1 and e <= -2:
            n = int(-e)
            cs = app("cos", A.key[2][0])
            r = r * powp(ONE - cs * cs, -(n // 2))
            if n % 2:
                rest.append((a, Fraction(-1)))
        elif A.kind == "app" and A.key[1] == "abs" and e.denominator == 1 and e % 2 == 0:
            r = r * powp(A.key[2][0], int(e))
        else:
            rest.append((a, e))
    if rest:
        r = r * mk({tuple(sorted(rest)): Fraction(1)})
    return r


def mk_mono(facs, c):
    r = mk({(): frac(c)})
    d = {}
    for a, e in facs:
        d[a.id] = d.get(a.id, Fraction(0)) + Fraction(e)
    return mk({tuple(sorted((k, v) for k, v in d.items() if v)): frac(c)})


def grp_atom(p):
    return atom("grp", p)


def _lead(p):
    m = min(p.t, key=lambda m: (len(m), m))
    return m, p.t[m]


def content(p):
    """p = c * mono * q  with q primitive"""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a not in d:
                # exponent 0 in that monomial
                if common[a] > 0:
                    del common[a]
                else:
                    pass
            else:
                common[a] = min(common[a], d[a])
        for a in d:
            if a not in common and d[a] < 0:
                common[a] = d[a]
    common = {a: e for a, e in common.items() if e != 0}
    mono = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in mono)
    q = {_mulmono(m, inv): c for m, c in p.t.items()}
    lm = min(q, key=lambda m: (len(m), m))
    c = q[lm]
    return c, mono, mk({m: v / c for m, v in q.items()})


def powp(p, n):
    """p ** n ; n Poly / number"""
    if isinstance(n, Poly):
        c = n.const()
        if c is None:
            if p is ONE:
                return ONE
            # symbolic exponent
            if len(p.t) == 1:
                ((m, c0),) = p.t.items()
                if len(m) == 1 and c0 == 1 and m[0][1] != 1 and _ATOM_LIST[m[0][0]].pos:
                    return P(atom("pow", P(_ATOM_LIST[m[0][0]]), n * m[0][1]))
            return P(atom("pow", p, n))
        n = c
    n = frac(n)
    if n == 0:
        return ONE
    if n == 1:
        return p
    if p is ZERO:
        if n > 0:
            return ZERO
        return app("inf")
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if n.denominator == 1:
            r = mk({(): c ** int(n)})
            mm = tuple((a, e * n) for a, e in m)
            if _needs_fix(mm, (), ()):
                return _fixmono(mm, c ** int(n))
            return mk({mm: c ** int(n)})
        # fractional
        if c > 0:
            rc = _fracpow(c, n)
            if rc is None:
                rc_p = P(atom("cpow", c, n, pos=True))
            else:
                rc_p = mk({(): rc})
            r = rc_p
            negs = []
            for a, e in m:
                A = _ATOM_LIST[a]
                ne = e * n
                if A.pos or is_nonneg(P(A)):
                    if A.kind == "grp" and ne.denominator == 1 and ne > 0:
                        r = r * powp(A.key[1], ne)
                    else:
                        r = r * mk({((a, ne),): Fraction(1)})
                elif e.denominator == 1 and e % 2 == 0:
                    ab = absp(mk({((a, Fraction(1)),): Fraction(1)}))
                    r = r * powp(ab, ne)
                else:
                    negs.append((a, e))
            if negs:
                q = mk({tuple(negs): Fraction(1)})
                r = r * mk({((grp_atom(q).id, n),): Fraction(1)})
            return r
        return mk({((grp_atom(p).id, n),): Fraction(1)})
    # several monomials
    if n.denominator == 1 and 0 < n <= 6 and len(p.t) ** int(n) <= MAXMONO:
        r = p
        for _ in range(int(n) - 1):
            r = r * p
        return r
    c, mono, q = content(p)
    if n.denominator != 1:
        # do not pull possibly negative content
        keep = []
        pull = []
        for a, e in mono:
            A = _ATOM_LIST[a]
            (pull if A.pos else keep).append((a, e))
        if c < 0:
            q = -q
            c = -c
        if keep:
            q = q * mk({tuple(keep): Fraction(1)})
        mono = tuple(pull)
    head = powp(mk({mono: c}), n)
    return head * mk({((grp_atom(q).id, n),): Fraction(1)})


def _fracpow(c, n):
    try:
        num = _iroot(c.numerator ** abs(n.numerator), n.denominator)
        den = _iroot(c.denominator ** abs(n.numerator), n.denominator)
    except OverflowError:
        return None
    if num is None or den is None:
        return None
    f = Fraction(num, den)
    return f if n > 0 else 1 / f


def _iroot(x, k):
    if x < 0:
        return None
    r = round(x ** (1.0 / k)) if x < 2 ** 900 else None
    if r is None:
        lo, hi = 0, 1 << (x.bit_length() // k + 1)
        while lo < hi:
            mid = (lo + hi) // 2
            if mid ** k < x:
                lo = mid + 1
            else:
                hi = mid
        r = lo
    for q in (r - 1, r, r + 1):
        if q >= 0 and q ** k == x:
            return q
    # large ints lose precision with float root
    lo, hi = 0, 1 << (x.bit_length() // k + 1)
    while lo < hi:
        mid = (lo + hi) // 2
        if mid ** k < x:
            lo = mid + 1
        else:
            hi = mid
    return lo if lo ** k == x else None


def sqrtp(p):
    return powp(p, Fraction(1, 2))


# ---------------------------------------------------------------- sign
def is_nonneg(p):
    return all(c > 0 and all(_fac_nonneg(a, e) for a, e in m) for m, c in p.t.items())


def is_pos(p):
    return len(p.t) > 0 and is_nonneg(p) and any(
        all(_ATOM_LIST[a].pos for a, e in m) for m in p.t)


def _fac_nonneg(a, e):
    A = _ATOM_LIST[a]
    if A.pos:
        return True
    if e.denominator == 1 and e % 2 == 0:
        return True
    if e.denominator % 2 == 0:
        return True       # even root of a real number that must be >= 0
    if A.kind == "app" and A.key[1] in ("abs", "exp", "cosh", "max_abs", "norm"):
        return True
    if A.kind == "app" and A.key[1] in ("@max", "@min") and isinstance(A.key[2][0], tuple) and A.key[2][0][0] == "lam":
        return is_nonneg(A.key[2][0][2])
    if A.kind == "pow":
        if is_nonneg(A.key[1]):
            return True
        ee = A.key[2].const()
        return ee is not None and ee.denominator == 1 and ee % 2 == 0
    if A.kind == "grp":
        return is_nonneg(A.key[1])
    if A.kind == "sum" or A.kind == "psum":
        return is_nonneg(A.key[2])
    if A.kind == "sel":
        return all(is_nonneg(q) for q in A.key[2])
    if A.kind == "cat":
        return all(is_nonneg(q) for _, q in A.key[2])
    if A.kind in ("ix", "bv"):
        return True
    return False


def sign_changes(p):
    """True if p is a product of non-negative factors and one sine or cosine of a
    non-constant phase (to an odd or symbolic power), so that it takes both signs"""
    if len(p.t) != 1:
        return False
    (m, c), = p.t.items()
    odd = [(a, e) for a, e in m if not _fac_nonneg(a, e)]
    if len(odd) != 1:
        return False
    A = _ATOM_LIST[odd[0][0]]
    if A.kind == "pow":
        return A.key[2].const() is None and sign_changes(A.key[1]) or len(A.key[1].t) > 1 and _trig_poly(A.key[1])
    return A.kind == "app" and A.key[1] in ("cos", "sin") and A.key[2][0].const() is None


def _trig_poly(p):
    """1 - 2 cos^2 x and the like: the double-angle forms of a cosine"""
    if len(p.t) != 2:
        return False
    k = p.t.get(())
    if k is None:
        return False
    (m, c), = [(m, c) for m, c in p.t.items() if m != ()]
    if len(m) != 1 or m[0][1] != 2:
        return False
    A = _ATOM_LIST[m[0][0]]
    return A.kind == "app" and A.key[1] in ("cos", "sin") and A.key[2][0].const() is None and k * c < 0 and abs(c) > abs(k)


# ---------------------------------------------------------------- functions
def _posnorm(p):
    """(sign, q) with p = sign*q and q having positive leading coefficient"""
    if p is ZERO:
        return 1, p
    m, c = _lead(p)
    if c < 0:
        return -1, -p
    return 1, p


def absp(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    if is_nonneg(p):
        return p
    if is_nonneg(-p):
        return -p
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        r = mk({(): abs(c)})
        rest = []
        for a, e in m:
            if _fac_nonneg(a, e):
                r = r * mk({((a, e),): Fraction(1)})
            elif e.denominator == 1 and e < 0:
                rest.append((a, e))
            else:
                rest.append((a, e))
        for a, e in rest:
            base = P(_ATOM_LIST[a])
            r = r * powp(P(atom("app", "abs", (base,))), e)
        return r
    s, q = _posnorm(p)
    return P(atom("app", "abs", (q,)))


def _pi_split(p):
    """p = q*pi + r, q rational"""
    key = ((PI_ATOM.id, Fraction(1)),)
    q = p.t.get(key, Fraction(0))
    if q:
        d = dict(p.t)
        del d[key]
        return q, mk(d)
    return Fraction(0), p


def cosp(p):
    return _trig(p, 0)


def sinp(p):
    return _trig(p, 1)


def _trig_const(q, which):
    """cos/sin of q*pi for rational q, exact when simple"""
    q = q % 2
    tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1),
           Fraction(1, 3): (Fraction(1, 2), None), Fraction(2, 3): (Fraction(-1, 2), None),
           Fraction(4, 3): (Fraction(-1, 2), None), Fraction(5, 3): (Fraction(1, 2), None),
           Fraction(1, 6): (None, Fraction(1, 2)), Fraction(5, 6): (None, Fraction(1, 2)),
           Fraction(7, 6): (None, Fraction(-1, 2)), Fraction(11, 6): (None, Fraction(-1, 2))}
    v = tab.get(q, (None, None))[which]
    if v is not None:
        return P(v)
    return None


def _trig(p, which):
    q, r = _pi_split(p)
    if r is ZERO:
        v = _trig_const(q, which)
        if v is not None:
            return v
        # reduce to [0, 1/4]
        q = q % 2
        arg = PI * q
        return P(atom("app", "cos" if which == 0 else "sin", (arg,)))
    q = q % 2
    # remove multiples of pi/2
    half = (q * 2).__floor__()
    rem = q - Fraction(half, 2)
    if half:
        # angle = half*pi/2 + rest
        rest = r + PI * rem
        c, s = _trig(rest, 0), _trig(rest, 1)
        h = half % 4
        if which == 0:
            return [c, -s, -c, s][h]
        return [s, c, -s, -c][h]
    if rem:
        # keep a generic phase by angle addition
        c0, s0 = _trig(PI * rem, 0), _trig(PI * rem, 1)
        c1, s1 = _trig(r, 0), _trig(r, 1)
        if which == 0:
            return c0 * c1 - s0 * s1
        return s0 * c1 + c0 * s1
    # angle addition over monomials
    if len(r.t) > 1 and len(r.t) <= 4:
        m0 = min(r.t)
        a = mk({m0: r.t[m0]})
        b = r - a
        ca, sa = _trig(a, 0), _trig(a, 1)
        cb, sb = _trig(b, 0), _trig(b, 1)
        if which == 0:
            return ca * cb - sa * sb
        return sa * cb + ca * sb
    s, r = _posnorm(r)
    if len(r.t) == 1:
        ((m, c),) = r.t.items()
        n = c.numerator
        if 1 < n <= 12:
            base = mk({m: c / n})
            cb, sb = app("cos", base), app("sin", base)
            # (cb + i sb)^n
            re, im = ONE, ZERO
            for _ in range(n):
                re, im = re * cb - im * sb, re * sb + im * cb
            return re if which == 0 else im * s
    if which == 0:
        return app("cos", r)
    return app("sin", r) * s


def wrapp(q, m):
    """the odd, m-periodic representative of q in [-m/2, m/2)  (a.e.)"""
    if len(m.t) == 1:
        ((mm, cm),) = m.t.items()
        c = q.t.get(mm)
        if c is not None:
            k = c / cm
            n = (k + Fraction(1, 2)).__floor__()
            q = q - m * n
            if q is ZERO:
                return ZERO
            c2 = q.t.get(mm)
            if c2 is not None and c2 / cm == Fraction(-1, 2):
                q = q + m
    if q is ZERO:
        return ZERO
    s, q2 = _posnorm(q)
    return P(atom("app", "wrap", (q2, m))) * s


def remainderp(x, m):
    return wrapp(x - m * Fraction(1, 2), m) + m * Fraction(1, 2)


def atan2p(y, x):
    """canonical up to multiples of 2 pi (only used through trigonometry)"""
    cy, cx = y.const(), x.const()
    if cy is not None and cx is not None:
        v = math.atan2(cy, cx) / math.pi
        f = Fraction(v).limit_denominator(12)
        if abs(float(f) - v) < 1e-14:
            return PI * f
    sy, y1 = _posnorm(y)
    sx, x1 = _posnorm(x)
    y1, x1 = _strip_pos(y1, x1)
    swap = _order_key(y1) > _order_key(x1)
    if swap:
        th = PI * Fraction(1, 2) - P(atom("app", "atan2", (x1, y1)))
    else:
        th = P(atom("app", "atan2", (y1, x1)))
    if sx < 0:
        th = PI - th
    if sy < 0:
        th = -th
    return th


def _strip_pos(y, x):
    if len(y.t) == 1 and len(x.t) == 1:
        ((my, cy),) = y.t.items()
        ((mx, cx),) = x.t.items()
        y = mk({my: cy / cx}) if cy != cx else mk({my: Fraction(1)})
        x = mk({mx: Fraction(1)})
        dy, dx = dict(my), dict(mx)
        for a in list(dy):
            if _ATOM_LIST[a].pos and dx.get(a) == dy[a]:
                del dx[a]
                del dy[a]
        y = mk({tuple(sorted(dy.items())): y.t[my]})
        x = mk({tuple(sorted(dx.items())): Fraction(1)})
    return y, x


def _order_key(p):
    return sorted(p.t)


def expp(p):
    if p is ZERO:
        return ONE
    return P(atom("app", "exp", (p,), pos=True))


def coshp(p):
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            A = _ATOM_LIST[m[0][0]]
            if A.kind == "app" and A.key[1] == "arccosh":
                return A.key[2][0]
    if p is ZERO:
        return ONE
    s, q = _posnorm(p)
    return P(atom("app", "cosh", (q,), pos=True))


def fun(name, *args):
    """application of a named elementary function to normal forms"""
    a = args[0] if args else None
    if name == "cos":
        return cosp(a)
    if name == "sin":
        return sinp(a)
    if name == "tan":
        return sinp(a) / cosp(a)
    if name == "sqrt":
        return sqrtp(a)
    if name in ("abs", "absolute", "fabs"):
        return absp(a)
    if name == "exp":
        return expp(a)
    if name == "cosh":
        return coshp(a)
    if name == "sinh":
        if a is ZERO:
            return ZERO
        s, q = _posnorm(a)
        return app("sinh", q) * s
    if name in ("remainder", "mod"):
        return remainderp(a, args[1])
    if name == "arctan2":
        return atan2p(a, args[1])
    if name == "hypot":
        return sqrtp(a * a + args[1] * args[1])
    if name in ("square",):
        return a * a
    if name in ("deg2rad", "radians"):
        return a * PI / 180
    if name in ("rad2deg", "degrees"):
        return a * 180 / PI
    if name == "reciprocal":
        return powp(a, -1)
    if name == "sign":
        if is_pos(a):
            return ONE
        if a is ZERO:
            return ZERO
        s, q = _posnorm(a)
        return app("sign", q) * s
    if name == "arccosh":
        return P(atom("app", "arccosh", (a,)))
    if name in ("float64", "float", "asarray"):
        return a
    return app(name, *args)


# ---------------------------------------------------------------- traversal
def atoms_of(p, acc=None, deep=True):
    if acc is None:
        acc = set()
    for m in p.t:
        for a, e in m:
            A = _ATOM_LIST[a]
            if A in acc:
                continue
            acc.add(A)
            if deep:
                for q in _subpolys(A):
                    atoms_of(q, acc)
    return acc


def _subpolys(A):
    k = A.kind
    if k == "app":
        for q in A.key[2]:
            if isinstance(q, Poly):
                yield q
            elif isinstance(q, tuple):
                yield from _tuple_polys(q)
    elif k == "grp":
        yield A.key[1]
    elif k == "pow":
        yield A.key[1]
        yield A.key[2]
    elif k in ("sum", "psum"):
        if isinstance(A.key[1], Poly):
            yield A.key[1]
        yield A.key[2]
    elif k == "sel":
        yield A.key[1]
        for q in A.key[2]:
            yield q
    elif k == "cat":
        yield A.key[1]
        for d, q in A.key[2]:
            yield q


def _tuple_polys(t):
    for q in t:
        if isinstance(q, Poly):
            yield q
        elif isinstance(q, tuple):
            yield from _tuple_polys(q)


def free_ix(p):
    """axis indices occurring in p"""
    if p._free is None:
        p._free = frozenset(A.key[1] for A in atoms_of(p) if A.kind == "ix")
    return p._free


def syms_of(p):
    return frozenset(A.key[1] for A in atoms_of(p) if A.kind == "sym")


def depth_of(p):
    if p._depth is None:
        d = 0
        for A in atoms_of(p):
            if A.kind == "bv":
                d = max(d, A.key[1])
        p._depth = d
    return p._depth


def subst(p, f):
    """replace atoms: f(Atom) -> Poly or None"""
    memo = {}
    return _subst(p, f, memo)


def _subst(p, f, memo):
    r = memo.get(p)
    if r is not None:
        return r
    changed = False
    out = {}
    extra = []
    for m, c in p.t.items():
        newfac = None
        for i, (a, e) in enumerate(m):
            A = _ATOM_LIST[a]
            q = _subst_atom(A, f, memo)
            if q is not None:
                if newfac is None:
                    newfac = mk({(): c})
                    keep = []
                newfac = newfac * powp(q, e)
            else:
                if newfac is None:
                    continue
        if newfac is None:
            v = out.get(m, 0) + c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
        else:
            changed = True
            keepm = tuple((a, e) for a, e in m if _subst_atom(_ATOM_LIST[a], f, memo) is None)
            extra.append(newfac * mk({keepm: Fraction(1)}))
    if not changed:
        memo[p] = p
        return p
    r = mk(out)
    for q in extra:
        r = r + q
    memo[p] = r
    return r


_NOCH = object()


def _subst_atom(A, f, memo):
    key = ("a", A.id)
    r = memo.get(key, _NOCH)
    if r is not _NOCH:
        return r
    r = f(A)
    if r is None:
        r = _rebuild(A, f, memo)
    memo[key] = r
    return r


def _rebuild(A, f, memo):
    k = A.kind
    if k == "app":
        args, ch = _subst_tuple(A.key[2], f, memo)
        if not ch:
            return None
        return refun(A.key[1], args, A.pos)
    if k == "grp":
        q = _subst(A.key[1], f, memo)
        return None if q is A.key[1] else q
    if k == "pow":
        b, e = _subst(A.key[1], f, memo), _subst(A.key[2], f, memo)
        if b is A.key[1] and e is A.key[2]:
            return None
        return powp(b, e)
    if k == "sum":
        q = _subst(A.key[2], f, memo)
        if q is A.key[2]:
            return None
        return P(atom("sum", A.key[1], q, A.key[3]))
    if k == "psum":
        u = _subst(A.key[1], f, memo)
        q = _subst(A.key[2], f, memo)
        if q is A.key[2] and u is A.key[1]:
            return None
        return psum_mk(u, q, A.key[3])
    if k == "sel":
        i = _subst(A.key[1], f, memo)
        qs = tuple(_subst(q, f, memo) for q in A.key[2])
        if i is A.key[1] and all(x is y for x, y in zip(qs, A.key[2])):
            return None
        return selp(i, qs)
    if k == "cat":
        i = _subst(A.key[1], f, memo)
        qs = tuple((d, _subst(q, f, memo)) for d, q in A.key[2])
        if i is A.key[1] and all(x[1] is y[1] for x, y in zip(qs, A.key[2])):
            return None
        return catp2(i, A.key[3], qs)
    return None


def _subst_tuple(t, f, memo):
    out = []
    ch = False
    for q in t:
        if isinstance(q, Poly):
            r = _subst(q, f, memo)
            ch = ch or (r is not q)
            out.append(r)
        elif isinstance(q, tuple):
            r, c2 = _subst_tuple(q, f, memo)
            ch = ch or c2
            out.append(r)
        else:
            out.append(q)
    return tuple(out), ch


INTERP = {"cos", "sin", "abs", "exp", "cosh", "sinh", "wrap", "atan2", "sign", "arccosh", "floor", "ceil", "int", "trunc", "maximum", "minimum", "gt0", "ge0", "eq0", "round"}


def refun(name, args, pos=False):
    if name in ("cos", "sin", "abs", "exp", "cosh", "sinh", "sign"):
        return fun(name, *args)
    if name == "wrap":
        return wrapp(args[0], args[1])
    if name == "atan2":
        return atan2p(args[0], args[1])
    if name in _FOLD and len(args) == 1 and isinstance(args[0], Poly):
        c = args[0].const()
        if c is not None:
            return P(_FOLD[name](c))
    return P(atom("app", name, tuple(args), pos=pos))


_FOLD = {"floor": math.floor, "ceil": math.ceil, "int": math.trunc, "ge0": lambda c: 1 if c >= 0 else 0,
         "gt0": lambda c: 1 if c > 0 else 0, "eq0": lambda c: 1 if c == 0 else 0}


def selp(i, qs):
    c = i.const()
    if c is not None and c.denominator == 1:
        n = int(c)
        if -len(qs) <= n < len(qs):
            return qs[n]
    q0 = qs[0]
    if all(q is q0 for q in qs):
        return q0
    return P(atom("sel", i, tuple(qs)))


def cix(level=0):
    return P(atom("cix", level))


CIX = cix(0)


def cix_level(p):
    l = 0
    for A in atoms_of(p):
        if A.kind == "cix":
            l = max(l, A.key[1])
    return l


def catp(i, pieces):
    """concatenation: pieces [(dim, body)], body over the local index CIX (level 0)"""
    L = 1 + max(cix_level(q) for _, q in pieces)
    nl = cix(L)
    qs = tuple((d, subst(q, lambda A: nl if A.kind == "cix" and A.key[1] == 0 else None))
               for d, q in pieces)
    return catp2(i, L, qs)


def catp2(i, L, qs):
    c = i.const()
    if c is not None and c.denominator == 1 and c >= 0:
        off = Fraction(0)
        for d, q in qs:
            dc = d if isinstance(d, (int, Fraction)) else (d.const() if isinstance(d, Poly) else None)
            if dc is None:
                if c == off:
                    return cat_at(q, L, ZERO)
                break
            if c < off + dc:
                return cat_at(q, L, P(c - off))
            off += dc
    q0 = qs[0][1]
    if all(q is q0 for _, q in qs) and not any(
            A.kind == "cix" and A.key[1] == L for A in atoms_of(q0)):
        return q0
    return P(atom("cat", i, tuple(qs), L))


def cat_at(q, L, idx):
    return subst(q, lambda A: idx if A.kind == "cix" and A.key[1] == L else None)


def map_ix(p, mapping):
    """rename/substitute axis indices; mapping {k: Poly}"""
    fr = free_ix(p)
    mp = {k: v for k, v in mapping.items() if k in fr and not (v is ix(k))}
    if not mp:
        return p

    def f(A):
        if A.kind == "ix" and A.key[1] in mp:
            return mp[A.key[1]]
        return None
    return subst(p, f)


def sum_ix(p, k, dim):
    """sum over axis index k with extent dim (int expands; Poly stays symbolic).
    Axis indices above k are NOT shifted here."""
    if isinstance(dim, Poly):
        c = dim.const()
        if c is not None and c.denominator == 1:
            dim = int(c)
    if isinstance(dim, int) and dim <= 12:
        r = ZERO
        for n in range(dim):
            r = r + map_ix(p, {k: P(n)})
        return r
    res = ZERO
    for m, c in p.t.items():
        out = []
        inn = []
        for a, e in m:
            if k in free_ix(P(_ATOM_LIST[a])):
                inn.append((a, e))
            else:
                out.append((a, e))
        head = mk({tuple(out): c})
        if not inn:
            res = res + head * P(dim)
            continue
        body = mk({tuple(inn): Fraction(1)})
        # pull linear sel over another index?  keep
        d = depth_of(body) + 1
        body = map_ix(body, {k: bv(d)})
        res = res + head * P(atom("sum", dim if isinstance(dim, (int, Poly)) else str(dim), body, d))
    return res


def psum_ix(p, k):
    """cumulative sum along k: value at index k = sum_{j<=k} p(j)"""
    res = ZERO
    for m, c in p.t.items():
        out, inn = [], []
        for a, e in m:
            (inn if k in free_ix(P(_ATOM_LIST[a])) else out).append((a, e))
        head = mk({tuple(out): c})
        if not inn:
            res = res + head * (ix(k) + 1)
            continue
        body = mk({tuple(inn): Fraction(1)})
        d = depth_of(body) + 1
        body = map_ix(body, {k: bv(d)})
        res = res + head * psum_mk(ix(k), body, d)
    return res


def psum_mk(u, body, d):
    return P(atom("psum", u, body, d))


# ---------------------------------------------------------------- differentiation
def diffp(p, name):
    """derivative wrt symbol `name` for the polynomial/trig fragment"""
    r = ZERO
    for m, c in p.t.items():
        for j, (a, e) in enumerate(m):
            da = _datom(_ATOM_LIST[a], name)
            if da is ZERO:
                continue
            rest = tuple((b, f) for i, (b, f) in enumerate(m) if i != j)
            r = r + mk({rest: c * e}) * powp(P(_ATOM_LIST[a]), e - 1) * da
    return r


def _datom(A, name):
    if A.kind == "sym":
        return ONE if A.key[1] == name else ZERO
    if A.kind == "grp":
        return diffp(A.key[1], name)
    if A.kind == "app":
        f = A.key[1]
        if f == "ENERGY":
            return ENERGY_diff(A, name)
        x = A.key[2][0]
        if f == "cos":
            return -app("sin", x) * diffp(x, name)
        if f == "sin":
            return app("cos", x) * diffp(x, name)
        if f == "exp":
            return P(A) * diffp(x, name)
        if name not in syms_of(P(A)):
            return ZERO
        return app("D[" + name + "]", P(A))
    return ZERO


def ENERGY_diff(A, name):
    # A.key = ("app","ENERGY",(tag, (n1,p1),(n2,p2)...))
    args = A.key[2]
    tag, pairs = args[0], args[1:]
    r = ZERO
    for n, q in pairs:
        dq = diffp(q, name)
        if dq is not ZERO:
            r = r + dq * P(atom("app", "ENERGY", (tag + "_" + n,) + pairs))
    return r


# ---------------------------------------------------------------- printing
def show(p, limit=400):
    s = _show(p)
    return s if len(s) <= limit else s[:limit] + "..."


def _show(p):
    if not p.t:
        return "0"
    out = []
    for m in sorted(p.t):
        c = p.t[m]
        fs = []
        for a, e in m:
            s = show_atom(_ATOM_LIST[a])
            if e != 1:
                s += "^" + (str(e) if e.denominator == 1 else "(" + str(e) + ")")
            fs.append(s)
        cs = _num(c)
        if not fs:
            out.append(cs)
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append(cs + "*" + "*".join(fs))
    return " + ".join(out).replace("+ -", "- ")


def _num(c):
    if c.denominator == 1 and abs(c) < 10 ** 6:
        return str(c)
    if c.denominator < 1000 and abs(c.numerator) < 10 ** 6:
        return str(c)
    return repr(float(c))


def show_atom(A):
    k = A.kind
    if k == "sym":
        return str(A.key[1])
    if k == "ix":
        return "i%d" % A.key[1]
    if k == "bv":
        return "j%d" % A.key[1]
    if k == "cix":
        return "l%d" % A.key[1]
    if k == "app":
        return str(A.key[1]) + "(" + ", ".join(_sa(x) for x in A.key[2]) + ")"
    if k == "grp":
        return "(" + _show(A.key[1]) + ")"
    if k == "pow":
        return "(" + _show(A.key[1]) + ")**(" + _show(A.key[2]) + ")"
    if k == "sum":
        return "sum[" + _show(A.key[2]) + "]"
    if k == "psum":
        return "cumsum<=" + _show(A.key[1]) + "[" + _show(A.key[2]) + "]"
    if k == "sel":
        return "{" + "; ".join(_show(q) for q in A.key[2]) + "}[" + _show(A.key[1]) + "]"
    if k == "cat":
        return "cat{" + "; ".join(_show(q) for _, q in A.key[2]) + "}[" + _show(A.key[1]) + "]"
    return str(A.key)


def _sa(x):
    if isinstance(x, Poly):
        return _show(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(_sa(y) for y in x) + ")"
    return str(x)


# ---------------------------------------------------------------- comparison
PHYS = {"pi": math.pi}


def opaque_names(p):
    """names of uninterpreted applications occurring in p"""
    if p._opq is None:
        s = set()
        for A in atoms_of(p):
            if A.kind == "app" and A.key[1] not in INTERP:
                s.add(A.key[1])
        p._opq = frozenset(s)
    return p._opq


def _hnum(key):
    import hashlib
    h = hashlib.sha256(key.encode()).digest()
    return 0.3 + int.from_bytes(h[:6], "big") / float(1 << 48)


# A valuation gives every symbol a number and every uninterpreted function a pseudo-random
# function of the values of its arguments; everything else (sums, cumulative sums,
# concatenations, selections, extrema, interpolation, elementary functions) is computed.
# Two terms that are equal as mathematical expressions therefore get equal values.
_VC = {}
_FV = {}


def _fv(p):
    """free bound-variable atoms of p (arrays quoted by lam are closed)"""
    r = _FV.get(p)
    if r is None:
        s = set()
        for m in p.t:
            for a, _ in m:
                s |= _fva(_ATOM_LIST[a])
        r = _FV[p] = frozenset(s)
    return r


_FVA = {}


def _fva(A):
    r = _FVA.get(A.id)
    if r is not None:
        return r
    k = A.kind
    if k in ("ix", "bv", "cix", "lv"):
        r = frozenset([(k, A.key[1])])
    elif k in ("sum", "psum"):
        r = _fv(A.key[2]) - {("bv", A.key[3])}
        if isinstance(A.key[1], Poly):
            r = r | _fv(A.key[1])
    elif k == "cat":
        r = frozenset()
        for d, q in A.key[2]:
            r = r | _fv(q)
            if isinstance(d, Poly):
                r = r | _fv(d)
        r = (r - {("cix", A.key[3])}) | _fv(A.key[1])
    elif k == "sel":
        r = _fv(A.key[1])
        for q in A.key[2]:
            r = r | _fv(q)
    elif k in ("grp", "pow"):
        r = _fv(A.key[1])
        if k == "pow":
            r = r | _fv(A.key[2])
    elif k == "app":
        r = _fvt(A.key[2])
    else:
        r = frozenset()
    _FVA[A.id] = r
    return r


def _fvt(t):
    if t and t[0] == "lam":
        return frozenset()
    r = frozenset()
    for q in t:
        if isinstance(q, Poly):
            r = r | _fv(q)
        elif isinstance(q, tuple):
            r = r | _fvt(q)
    return r


def evaluate(p, seed, env=None):
    """value of a normal form under a pseudo-random valuation (used only to separate two normal forms)"""
    if len(_VC) > 400000:
        _VC.clear()
    return _eval(p, seed, env or {}, {})


def _eval(p, seed, env, memo):
    fv = _fv(p)
    key = (p, seed, tuple(sorted((v, env.get(v)) for v in fv)), env.get("@"))
    r = _VC.get(key)
    if r is not None:
        return r
    tot, big = 0.0, 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            x = _evala(_ATOM_LIST[a], seed, env, memo)
            ef = float(e)
            if e.denominator == 1:
                v *= x ** int(e)
            else:
                if x < 0:
                    x = -x
                v *= x ** ef
        tot += v
        big = max(big, abs(v))
    if abs(tot) < 1e-12 * big:
        tot = 0.0
    _VC[key] = tot
    return tot


COUNTS = ("@nc", "@nv", "@nf", "@nrow", "NFS", "count")


def _extent(d, seed, env, memo):
    """the extent of an axis: a small whole number"""
    if isinstance(d, (int, Fraction)):
        return max(0, int(d))
    if not isinstance(d, Poly):
        return 3
    c = d.const()
    if c is not None:
        return max(0, int(c))
    v = _eval(d, seed, env, memo)
    if abs(v - round(v)) > 1e-9:
        return 2 + int(_hnum("%s|dim|%.7e" % (seed, v)) * 2.9)
    return max(0, min(int(round(v)), 4000))


def _range(n, thin=None):
    """indices 0..n-1, thinned out for large extents"""
    if n <= (6 if thin else 64):
        return range(n)
    return sorted({0, 1, n // 2, n - 1 - n // 2, n - 2, n - 1})


_WEIGHT = {}


def _weight(p):
    """how many points the nested sums of a normal form run over"""
    r = _WEIGHT.get(p)
    if r is None:
        r = 1
        for m in p.t:
            for a, _ in m:
                A = _ATOM_LIST[a]
                if A.kind == "sum":
                    d = A.key[1]
                    c = d.const() if isinstance(d, Poly) else d
                    r = max(r, (max(1, int(c)) if c is not None else 4) * _weight(A.key[2]))
                else:
                    for q in A.key:
                        r = max(r, _weight_in(q))
        _WEIGHT[p] = r
    return r


def _weight_in(q):
    if isinstance(q, Poly):
        return _weight(q)
    if isinstance(q, tuple) and not is_lam(q):
        return max([1] + [_weight_in(x) for x in q])
    return 1


def _points(exts, most=8):
    """index tuples of an array"""
    tot = 1
    for n in exts:
        tot *= max(n, 1)
    if tot <= most:
        out = [()]
        for n in exts:
            out = [o + (i,) for o in out for i in range(max(n, 1))]
        return out
    out = []
    for j in range(most):
        out.append(tuple(int((_hnum("pt%d.%d" % (j, x)) - 0.3) * n) if n > 1 else 0 for x, n in enumerate(exts)))
    out.append(tuple(max(n - 1, 0) for n in exts))
    return out


def lam_exts(l, seed):
    if len(l) > 3:
        return [_extent(d, seed, {}, {}) for d in l[3]]
    return [2] * l[1]


def lam_at(l, pt, seed):
    e = {("lv", i): x for i, x in enumerate(pt)}
    return _eval(l[2], seed, e, {})


def is_lam(x):
    return isinstance(x, tuple) and len(x) >= 3 and x[0] == "lam" and isinstance(x[2], Poly)


def _evala(A, seed, env, memo):
    k = A.kind
    if k == "sym":
        n = A.key[1]
        if n in PHYS:
            return PHYS[n]
        v = _hnum("%s|%s" % (seed, n)) + 0.4
        if not A.pos and _hnum("s%s|%s" % (seed, n)) > 0.8:
            v = -v
        return v
    if k == "ix":
        return env.get(("ix", A.key[1]), int(_hnum("%s|ix%s" % (seed, A.key[1])) * 2.3))
    if k in ("cix", "bv", "lv"):
        return env.get((k, A.key[1]), 1)
    if k == "cpow":
        return float(A.key[1]) ** float(A.key[2])
    if k == "grp":
        return _eval(A.key[1], seed, env, memo)
    if k == "pow":
        b = _eval(A.key[1], seed, env, memo)
        e = _eval(A.key[2], seed, env, memo)
        return abs(b) ** e if b >= 0 else -(abs(b) ** e)
    if k == "sum":
        d = A.key[3]
        tot = 0.0
        n = _extent(A.key[1], seed, env, memo)
        thin = env.get("@")
        if thin is None and n * _weight(A.key[2]) > 3000:
            env = dict(env)
            thin = env["@"] = 1
        for j in _range(n, thin):
            e2 = dict(env)
            e2[("bv", d)] = j
            tot += _eval(A.key[2], seed, e2, memo)
        return tot
    if k == "psum":
        d = A.key[3]
        u = int(round(_eval(A.key[1], seed, env, memo)))
        tot = 0.0
        for j in range(min(u, 60) + 1):
            e2 = dict(env)
            e2[("bv", d)] = j
            tot += _eval(A.key[2], seed, e2, memo)
        return tot
    if k == "sel":
        i = int(round(_eval(A.key[1], seed, env, memo))) % len(A.key[2])
        return _eval(A.key[2][i], seed, env, memo)
    if k == "cat":
        i = int(round(_eval(A.key[1], seed, env, memo)))
        off = 0
        last = A.key[2][-1]
        for pc in A.key[2]:
            d, q = pc
            n = _extent(d, seed, env, memo)
            if i < off + n or pc is last:
                e2 = dict(env)
                e2[("cix", A.key[3])] = i - off
                return _eval(q, seed, e2, memo)
            off += n
    if k == "app":
        n, args = A.key[1], A.key[2]
        f = _EVF.get(n)
        if f is not None:
            v = f(args, seed, env, memo)
            if v is not None:
                return v
        vals = _evalt(args, seed, env, memo)
        h = _hnum("%s|%s|%s" % (seed, n, vals))
        if n == "ENERGY" and seed in (1, 3, 5) and isinstance(args[0], str) and args[0].endswith("]") and h * 1e4 % 1 < 0.3:
            return 0.0      # some points lie on the surface
        if n in COUNTS or n.startswith("dim?"):
            return float(2 + int((h - 0.3) * 2.99))
        if n == "@contour":
            return h * 300      # in units of the cells of the grid
        if seed in (2, 5) and not A.pos:
            h *= 7      # beyond the first Brillouin zone
        return h if A.pos or h * 1e6 % 1 < 0.7 else -h
    return _hnum("%s|%s" % (seed, A.key))


def _f1(g):
    return lambda a, s, e, m: g(_eval(a[0], s, e, m)) if len(a) >= 1 and isinstance(a[0], Poly) else None


def _f2(g):
    return lambda a, s, e, m: g(_eval(a[0], s, e, m), _eval(a[1], s, e, m)) if len(a) == 2 and all(isinstance(x, Poly) for x in a) else None


def _cl(x):
    return max(-40.0, min(40.0, x))


def _wrap(x, m):
    y = (x + m / 2) / m
    if abs(y - round(y)) < 1e-9:
        y = round(y)
    return x - m * math.floor(y)


def _ext(which):
    def g(a, s, e, m):
        if len(a) == 1 and is_lam(a[0]):
            return which(lam_at(a[0], p, s) for p in _points(lam_exts(a[0], s), 24))
        return None
    return g


def _grid(l, s):
    n = lam_exts(l, s)[0]
    return [lam_at(l, (i,), s) for i in range(max(1, min(n, 24)))]


def _locate(xp, q):
    for i in range(len(xp) - 1):
        if q < xp[i + 1] and abs(q - xp[i + 1]) > 1e-12 * abs(q):
            d = xp[i + 1] - xp[i]
            f = (q - xp[i]) / d if d else 0.0
            return i, max(0.0, min(1.0, f))
    return max(len(xp) - 1, 0), 0.0


def _e_fidx(a, s, e, m):
    if len(a) != 2 or not is_lam(a[0]) or a[0][1] != 1 or not isinstance(a[1], Poly):
        return None
    i, f = _locate(_grid(a[0], s), _eval(a[1], s, e, m))
    return i + f


def _e_interp(a, s, e, m):
    if len(a) != 3 or not is_lam(a[0]) or not is_lam(a[1]) or a[0][1] != 1 or a[1][1] != 1 or not isinstance(a[2], Poly):
        return None
    i, f = _locate(_grid(a[0], s), _eval(a[2], s, e, m))
    y0 = lam_at(a[1], (i,), s)
    return y0 if not f else y0 + f * (lam_at(a[1], (i + 1,), s) - y0)


def _near(g):
    return lambda x: float(round(x)) if abs(x - round(x)) < 1e-9 else float(g(x))


def _e_bincount(a, s, e, m):
    """a sum of the weights over the entries that name a bin: linear in the weights"""
    if len(a) != 3 or not is_lam(a[0]) or not is_lam(a[1]) or not isinstance(a[2], Poly):
        return None
    i = _eval(a[2], s, e, m)
    tot = 0.0
    for p in _points(lam_exts(a[1], s), 12):
        x = lam_at(a[0], p, s) if len(p) == a[0][1] else 0.0
        tot += _hnum("%s|bin|%s|%.7e|%.7e" % (s, p, x, i)) * lam_at(a[1], p, s)
    return tot


def _e_round(a, s, e, m):
    if not a or not all(isinstance(x, Poly) for x in a):
        return None
    n = a[1].const() if len(a) > 1 else 0
    if n is None or n.denominator != 1 or abs(n) > 300:
        return None
    return float(round(_eval(a[0], s, e, m), int(n)))


_EVF = {
    "round": _e_round, "@bincount": _e_bincount, "cos": _f1(math.cos), "sin": _f1(math.sin), "abs": _f1(abs), "exp": _f1(lambda x: math.exp(_cl(x))),
    "cosh": _f1(lambda x: math.cosh(_cl(x))), "sinh": _f1(lambda x: math.sinh(_cl(x))),
    "sign": _f1(lambda x: 0.0 if x == 0 else math.copysign(1, x)), "wrap": _f2(_wrap), "atan2": _f2(math.atan2),
    "floor": _f1(_near(math.floor)), "ceil": _f1(_near(math.ceil)), "int": _f1(_near(math.trunc)), "trunc": _f1(_near(math.trunc)),
    "maximum": _f2(max), "minimum": _f2(min), "gt0": _f1(lambda x: float(x > 0)), "ge0": _f1(lambda x: float(x >= 0)),
    "eq0": _f1(lambda x: float(x == 0)), "log": _f1(lambda x: math.log(abs(x)) if x else -700.0),
    "@max": _ext(max), "@min": _ext(min), "@fidx": _e_fidx, "@interp": _e_interp,
}


def _evalt(t, seed, env, memo):
    if is_lam(t):
        key = ("lam", t[2], t[3:] if len(t) > 3 else t[1], seed)
        r = _VC.get(key)
        if r is None:
            ex = lam_exts(t, seed)
            r = "<%s:%s>" % (",".join(map(str, ex)), ",".join("%.7e" % lam_at(t, p, seed) for p in _points(ex)))
            _VC[key] = r
        return r
    out = []
    for q in t:
        if isinstance(q, Poly):
            out.append("%.7e" % _eval(q, seed, env, memo))
        elif isinstance(q, tuple):
            out.append(_evalt(q, seed, env, memo))
        else:
            out.append(str(q))
    return "(" + ",".join(out) + ")"


def ix_extents(p, found=None):
    """extents of the free axes that concatenations and selections reveal"""
    found = {} if found is None else found
    for A in atoms_of(p):
        if A.kind == "cat" and len(A.key[1].t) == 1:
            for k in free_ix(A.key[1]):
                if A.key[1] is ix(k):
                    n = sum(_extent(d, 0, {}, {}) for d, _ in A.key[2])
                    found[k] = min(found.get(k, n), n)
        elif A.kind == "sel" and len(A.key[1].t) == 1:
            for k in free_ix(A.key[1]):
                if A.key[1] is ix(k):
                    found[k] = min(found.get(k, len(A.key[2])), len(A.key[2]))
    return found


ASSUMED = []    # [(Atom, Poly)]: equalities assumed on the current path


def red(p):
    """p modulo the equalities assumed on the current path"""
    for A, q in ASSUMED:
        p = subst(p, lambda X: q if X is A else None)
    return p


def sym_names(p):
    return {A.key[1] for A in atoms_of(p) if A.kind == "sym"}


def assume_zero(p):
    """orient p = 0 as atom -> polynomial; False if p is not linear in any atom"""
    p = red(p)
    if p.const() is not None:
        return False
    cands = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            A = _ATOM_LIST[m[0][0]]
            rest = p - mk({m: c})
            if A not in atoms_of(rest):
                q = rest * P(Fraction(-1) / c)
                if A in atoms_of(q):
                    continue
                if A.pos and q.const() is not None and q.const() <= 0:
                    continue
                cands.append((A.kind != "app", str(A.key[1]) if A.kind != "app" else "", A, q))
    if not cands:
        return False
    cands.sort(key=lambda x: (x[0], x[1]))
    _, _, A, q = cands[0]
    ASSUMED.append((A, q))
    return True


def equal(p, q):
    """True / False / None(undecided).  True by identity of normal forms.
    False only when a valuation separates the two normal forms."""
    if p is None or q is None:
        return None
    if p is q:
        return True
    if ASSUMED:
        p, q = red(p), red(q)
        if p is q:
            return True
    fr = _fv(p) | _fv(q)
    axes = sorted(v[1] for v in fr if v[0] == "ix")
    found = ix_extents(q, ix_extents(p)) if axes else {}
    sep = tried = 0
    for seed in range(6):
        pts = [{}]
        if axes:
            ex = [found.get(k, 3) for k in axes]
            n = 1
            for x in ex:
                n *= max(x, 1)
            if seed == 0 and n > 3:
                pl = _points(ex, 60)
            else:
                pl = [tuple(int((_hnum("ixp%d.%d" % (seed, k)) - 0.3) * x) for k, x in zip(axes, ex))]
            pts = [{("ix", k): v for k, v in zip(axes, t)} for t in pl]
        for env in pts:
            try:
                a, b = evaluate(p, seed, env), evaluate(q, seed, env)
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
            tried += 1
            if abs(a - b) > 1e-7 * max(abs(a), abs(b), 1e-300):
                sep += 1
                break
        if sep and seed == 0:
            break
    if not tried:
        return None
    return sep == 0


def definitely_different(p, q):
    """q is the reference.  A difference counts only when p uses no
    uninterpreted function that the reference does not use."""
    e = equal(p, q)
    if e is not False:
        return False
    if ASSUMED:
        p, q = red(p), red(q)
    if not opaque_names(p) <= opaque_names(q):
        return False
    return True
