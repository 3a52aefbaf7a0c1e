"""Symbolic reals: Laurent polynomials with rational coefficients over hash-consed atoms.

A `Sym` stands for the exact real value a numpy/python computation denotes when
floating-point rounding is ignored.  Atoms are variables, transcendental function
values (exp, sin, cos, sqrt, log, arctan, the normal cdf), inverses of polynomials,
absolute values, 0/1 indicators of conditions and uninterpreted function values.
Normalisation (merging exponentials, s*s -> argument for roots, idempotent indicators,
parity of sin/cos/cdf, ...) is part of the encoding; every decision is left to the solver.
"""
import math
import numbers
import time
from fractions import Fraction

import numpy as np

F0, F1, F2, FH = Fraction(0), Fraction(1), Fraction(2), Fraction(1, 2)
ONE = ()

# constants at or below this magnitude are read as 0 (set by Gaussian-process harnesses:
# the kernel's numerical jitter is outside the claim); 0 disables
JITTER = [0.0]
# callback of the engine: branch(SymBool) -> bool
BRANCH = [None]
# callback of the engine: note that a term is only defined under a condition
DEFINED = [None]
ZERODIV = [None]        # decides whether a denominator is zero, where a division by zero is not excluded
CONCRETISE = [None]


class NonFinite(ArithmeticError):
    """an operation on constants has no finite value"""


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise NonFinite(x)
    if abs(x) <= JITTER[0]:
        return F0
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    f = Fraction(x).limit_denominator(1000)
    if f and abs(float(f) - x) <= 2.3e-16 * abs(x):
        return f
    return Fraction(repr(x))


def _trim(c):
    """keep coefficients small: beyond 220 bits fall back to a 17-digit decimal"""
    if c.denominator.bit_length() > 220 or c.numerator.bit_length() > 260:
        try:
            v = float(c)
        except OverflowError:
            return c
        if v == 0.0 or math.isinf(v):
            return c
        return Fraction(repr(v))
    return c


def _addc(a, b):
    """coefficient sum; a residue that is mere decimal rounding of its operands is 0"""
    r = a + b
    if r == 0:
        return F0
    m = max(abs(a), abs(b))
    if abs(r) * 10000000000000 < m * 2:
        return F0
    return _trim(r)


def _ckey(c):
    """coefficient key used to match atoms up to decimal rounding"""
    if c.denominator < 100000:
        return c
    return "%.11e" % float(c)


class Atom:
    __slots__ = ("id", "kind", "args", "name", "meta", "z3", "deps")

    def __init__(self, id, kind, args, name, meta):
        self.id, self.kind, self.args, self.name, self.meta = id, kind, args, name, meta
        self.z3 = None
        self.deps = None

    def __repr__(self):
        if self.kind == "var":
            return self.name
        return "%s(%s)" % (self.name or self.kind, ", ".join(map(repr, self.args)))


ATOMS = []
_ATOMKEY = {}


def reset():
    VARS.clear()
    ATOMS.clear()
    _ATOMKEY.clear()
    _EXP_IDS.clear()
    _SPECIAL.clear()
    _BOOLS.clear()


_EXP_IDS = set()
_SPECIAL = {}   # atom id -> kind, for atoms needing reduction in products


def atom(kind, args=(), name=None, meta=None):
    key = (kind, name, tuple(a.key for a in args))
    a = _ATOMKEY.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, tuple(args), name, meta)
        ATOMS.append(a)
        _ATOMKEY[key] = a
        if kind == "exp":
            _EXP_IDS.add(a.id)
        if kind in ("exp", "sqrt", "ind", "abs"):
            _SPECIAL[a.id] = kind
    return a


# ----------------------------------------------------------------- monomials
def _mono_mul(m1, m2):
    """plain merge of two exponent tuples"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _needs_reduce(m):
    nexp = 0
    for a, e in m:
        k = _SPECIAL.get(a)
        if k is None:
            continue
        if k == "exp":
            nexp += 1
            if nexp > 1 or e != 1:
                return True
        elif k == "ind":
            if e != 1:
                return True
        elif k in ("sqrt", "abs"):
            if e != 1:
                return True
    return False


def _reduce(m):
    """-> Sym equal to the monomial"""
    rest, exparg, factor = [], None, None
    for a, e in m:
        k = _SPECIAL.get(a)
        if k == "exp":
            t = ATOMS[a].args[0] * e
            exparg = t if exparg is None else exparg + t
        elif k == "ind" and e > 1:
            rest.append((a, 1))
        elif k == "sqrt" and e != 1:
            p = ATOMS[a].args[0]
            h, odd = e // 2, e % 2          # e = 2h + odd (python floor)
            if odd:
                rest.append((a, 1))
            f = p ** h
            factor = f if factor is None else factor * f
        elif k == "abs" and (e > 1 or e < 0):
            p = ATOMS[a].args[0]
            h, odd = e // 2, e % 2
            if odd:
                rest.append((a, 1))
            f = p ** (2 * h)
            factor = f if factor is None else factor * f
        else:
            rest.append((a, e))
    out = Sym({tuple(rest): F1})
    if exparg is not None:
        out = out * sym_exp(exparg)
    if factor is not None:
        out = out * factor
    return out


# ----------------------------------------------------------------- Sym
class Sym:
    __slots__ = ("t", "_key", "_red", "_hash")
    __array_priority__ = 1e6

    def __init__(self, t):
        self.t = t
        self._key = None
        self._hash = None

    # -- construction
    @staticmethod
    def const(x):
        f = to_frac(x)
        return Sym({ONE: f} if f else {})

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted((m, _ckey(c)) for m, c in self.t.items()) if len(self.t) < 2 else
                              sorted(((m, _ckey(c)) for m, c in self.t.items()), key=lambda q: q[0]))
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def cval(self):
        return self.t.get(ONE, F0)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda q: q[0])[:12]:
            cs = str(c) if c.denominator < 1000 else "%.9g" % float(c)
            ms = "*".join(repr(ATOMS[a]) + ("" if e == 1 else "^%d" % e) for a, e in m)
            out.append(cs if not ms else (ms if c == 1 else cs + "*" + ms))
        if len(self.t) > 12:
            out.append("... (%d terms)" % len(self.t))
        return " + ".join(out)

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key)
        return self._hash

    def __format__(self, spec):
        if self.is_const():
            try:
                return format(float(self.cval()), spec)
            except (ValueError, TypeError):
                return str(float(self.cval()))
        return "<sym>"

    def __str__(self):
        return self.__format__("")

    # -- arithmetic
    def __add__(self, o):
        o = coerce(o)
        if o.__class__ is not Sym:
            return o if o is NotImplemented else special_add(self, o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        t = dict(a)
        for m, c in b.items():
            d = t.get(m)
            if d is None:
                t[m] = c
            else:
                r = _addc(d, c)
                if r:
                    t[m] = r
                else:
                    del t[m]
        return Sym(t)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o.__class__ is not Sym:
            return o if o is NotImplemented else special_add(self, -o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, c):
        if c == 1:
            return self
        if not c:
            return ZERO
        return Sym({m: _trim(k * c) for m, k in self.t.items()})

    def __mul__(self, o):
        o = coerce(o)
        if o.__class__ is not Sym:
            return o if o is NotImplemented else special_mul(self, o)
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(b) == 1 and ONE in b:
            return self.scale(b[ONE])
        if len(a) == 1 and ONE in a:
            return o.scale(a[ONE])
        if UNTIL[0] is not None and len(a) * len(b) > 40 and time.time() > UNTIL[0]:
            raise Slow("algebra exceeds its time budget")
        t = {}
        extra = None
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mono_mul(m1, m2)
                c = c1 * c2
                if _needs_reduce(m):
                    r = _reduce(m).scale(c)
                    if extra is None:
                        extra = []
                    extra.append(r)
                    continue
                d = t.get(m)
                if d is None:
                    t[m] = _trim(c)
                else:
                    r = _addc(d, c)
                    if r:
                        t[m] = r
                    else:
                        del t[m]
        out = Sym(t)
        if extra:
            # balanced accumulation into one dict
            acc = dict(out.t)
            for e in extra:
                for m, c in e.t.items():
                    d = acc.get(m)
                    if d is None:
                        acc[m] = c
                    else:
                        r = _addc(d, c)
                        if r:
                            acc[m] = r
                        else:
                            del acc[m]
            out = Sym(acc)
        return out

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = coerce(o)
        if o.__class__ is not Sym:
            if o is NotImplemented:
                return o
            if o != o:
                return math.nan
            return ZERO            # finite / inf
        return divide(self, o)

    def __rtruediv__(self, o):
        o = coerce(o)
        if o.__class__ is not Sym:
            if o is NotImplemented:
                return o
            if o != o:
                return math.nan
            return o if bool(self > 0) else -o
        return divide(o, self)

    def __pow__(self, o):
        if isinstance(o, Sym):
            if not o.is_const():
                return power(self, o)
            o = o.cval()
        elif not isinstance(o, numbers.Number):
            return NotImplemented
        f = to_frac(o)
        if f.denominator == 1:
            return ipow(self, int(f))
        if f.denominator == 2:
            return ipow(sym_sqrt(self), int(f.numerator))
        if f.denominator == 4:
            return ipow(sym_sqrt(sym_sqrt(self)), int(f.numerator))
        return power(self, Sym.const(f))

    def __rpow__(self, o):
        o = coerce(o)
        if o.__class__ is not Sym:
            return NotImplemented
        return power(o, self)

    def __floordiv__(self, o):
        if self.is_const() and coerce(o).is_const():
            return Sym.const(self.cval() // coerce(o).cval())
        return sym_floor(self / o)

    def __rfloordiv__(self, o):
        return sym_floor(coerce(o) / self)

    def __mod__(self, o):
        return self - sym_floor(self / o) * o

    def __rmod__(self, o):
        return coerce(o) - sym_floor(coerce(o) / self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __abs__(self):
        return sym_abs(self)

    # -- comparison
    def __lt__(self, o):
        return compare(self, o, "<")

    def __le__(self, o):
        return compare(self, o, "<=")

    def __gt__(self, o):
        return compare(self, o, ">")

    def __ge__(self, o):
        return compare(self, o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return compare(self, o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        r = compare(self, o, "==")
        return NotImplemented if r is NotImplemented else bnot(r)

    def __bool__(self):
        r = compare(self, 0, "==")
        return not bool(r)

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise TypeError("symbolic value used as a concrete float")

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        return int(CONCRETISE[0](sym_trunc(self)))

    def __index__(self):
        if self.is_const():
            c = self.cval()
            if c.denominator != 1:
                raise TypeError("non-integer used as an index")
            return int(c)
        return int(CONCRETISE[0](self))

    # -- methods numpy calls on objects, and numpy-scalar look-alikes
    def exp(self):
        return sym_exp(self)

    def expm1(self):
        return sym_exp(self) - 1

    def log(self):
        return sym_log(self)

    def log10(self):
        return sym_log(self) * (1 / math.log(10.0))

    def log2(self):
        return sym_log(self) * (1 / math.log(2.0))

    def log1p(self):
        return sym_log(self + 1)

    def sqrt(self):
        return sym_sqrt(self)

    def sin(self):
        return sym_trig("sin", self)

    def cos(self):
        return sym_trig("cos", self)

    def tan(self):
        return sym_trig("sin", self) / sym_trig("cos", self)

    def arctan(self):
        if self.is_const():
            return Sym.const(math.atan(float(self.cval())))
        return odd_fn("atan", self)

    def tanh(self):
        e = sym_exp(self * 2)
        return (e - 1) / (e + 1)

    def sinh(self):
        return (sym_exp(self) - sym_exp(-self)) / 2

    def cosh(self):
        return (sym_exp(self) + sym_exp(-self)) / 2

    def square(self):
        return self * self

    def conjugate(self):
        return self

    conj = conjugate

    def fabs(self):
        return sym_abs(self)

    def sign(self):
        return ind(compare(self, 0, ">")) - ind(compare(self, 0, "<"))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(float)

    def item(self, *a):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def tolist(self):
        return self

    def astype(self, t, **k):
        return _arr(self).astype(t)[()]

    def _a(self):
        return _arr(self)

    def reshape(self, *s, **k):
        return _arr(self).reshape(*s, **k)

    def ravel(self, *a, **k):
        return _arr(self).ravel()

    def flatten(self, *a, **k):
        return _arr(self).ravel()

    def squeeze(self, *a, **k):
        return self

    @property
    def T(self):
        return self

    def transpose(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    min = max = mean = sum

    def any(self, *a, **k):
        return self != 0

    all = any

    def argmin(self, *a, **k):
        return 0

    argmax = argmin

    def dot(self, o):
        return self * o

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = sym_max(r, coerce(lo))
        if hi is not None:
            r = sym_min(r, coerce(hi))
        return r

    def round(self, decimals=0, *a, **k):
        return sym_round(self, decimals)

    def floor(self):
        return sym_floor(self)

    def ceil(self):
        return -sym_floor(-self)

    def rint(self):
        return sym_round(self)

    def trunc(self):
        return sym_trunc(self)

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def is_integer(self):
        return False

    def __round__(self, n=None):
        return sym_round(self, n or 0)

    def __getitem__(self, k):
        if k == ():
            return self
        return _arr(self)[k]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return UFUNC[0](ufunc, method, inputs, kw)

    def __array__(self, dtype=None, copy=None):
        a = np.empty((), dtype=object)
        a[()] = self
        return a


UFUNC = [None]
MKARR = [None]


def _arr(s):
    return MKARR[0](s)


ZERO = Sym({})
UNIT = Sym({ONE: F1})


def coerce(o):
    """Sym, a non-finite python float, or NotImplemented"""
    if o.__class__ is Sym:
        return o
    if isinstance(o, SymBool):
        return ind(o)
    if isinstance(o, numbers.Number) and not isinstance(o, complex) or isinstance(o, (np.number, np.bool_)):
        try:
            return Sym.const(o)
        except NonFinite:
            return float(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return coerce(o[()])
    return NotImplemented


def special_add(s, v):
    return v


def special_mul(s, v):
    if v != v:
        return math.nan
    if s.is_const():
        c = s.cval()
        return math.nan if c == 0 else (v if c > 0 else -v)
    if bool(s == 0):
        return math.nan
    return v if bool(s > 0) else -v


VARS = {}


def var(name, **meta):
    a = atom("var", (), name, meta)
    VARS[name] = a.id
    if meta:
        a.meta = dict(a.meta or {}, **meta)
    return Sym({((a.id, 1),): F1})


def atom_sym(a):
    return Sym({((a.id, 1),): F1})


def ipow(s, n):
    if n == 0:
        return UNIT
    if n < 0:
        return divide(UNIT, ipow(s, -n))
    if len(s.t) == 1:
        (m, c), = s.t.items()
        mm = tuple((a, e * n) for a, e in m)
        if _needs_reduce(mm):
            return _reduce(mm).scale(c ** n)
        return Sym({mm: _trim(c ** n)})
    r, b = None, s
    while n:
        if n & 1:
            r = b if r is None else r * b
        n >>= 1
        if n:
            b = b * b
    return r


def power(base, e):
    """base ** e with a symbolic exponent (or a non-dyadic rational one), base > 0"""
    if base.is_const():
        c = base.cval()
        if c == 0:
            return ZERO if e.is_const() and e.cval() > 0 else math.nan
        if c < 0:
            return math.nan
        return sym_exp(e * math.log(float(c)))
    # base > 0 unless provable otherwise; x**q with x = 0 is 0 for q > 0
    if e.is_const():
        # canonical: exp(e*log(base)) for base > 0
        z = compare(base, 0, "==")
        if e.cval() > 0 and z is not False and BRANCH[0] is not None and bool(z):
            return ZERO
    need(compare(base, 0, ">"), "power of a non-positive base")
    return sym_exp(e * sym_log(base))


def need(cond, what):
    if cond is True:
        return
    if DEFINED[0] is not None:
        DEFINED[0](cond, what)


def lead_sign(s):
    m = min(s.t)
    return 1 if s.t[m] > 0 else -1


def _mono_only(s):
    return len(s.t) == 1


def neg_free(s):
    for m in s.t:
        for a, e in m:
            if e < 0 or ATOMS[a].kind == "inv":
                return False
    return True


def denominators(s):
    """monomial (as tuple) to multiply with so that no inverse remains: dict atom->power"""
    d = {}
    for m in s.t:
        for a, e in m:
            if e < 0:
                d[a] = max(d.get(a, 0), -e)
            elif ATOMS[a].kind == "inv":
                d[a] = max(d.get(a, 0), e)
    return d


def clear(s):
    """(num, den): s = num/den, both free of inverses"""
    num, den = s, UNIT
    for _ in range(40):
        d = denominators(num)
        if not d:
            return num, den
        # one round: bring everything to the common denominator of the inverse atoms seen
        mult = UNIT
        for a, e in d.items():
            A = ATOMS[a]
            mult = mult * (ipow(A.args[0], e) if A.kind == "inv" else ipow(atom_sym(A), e))
        acc = ZERO
        for m, c in num.t.items():
            term = Sym({ONE: c})
            left = dict(d)
            for a, e in m:
                A = ATOMS[a]
                if A.kind == "inv":
                    left[a] -= e
                elif e < 0:
                    left[a] += e
                else:
                    term = term * Sym({((a, e),): F1})
            for a, e in left.items():
                if e:
                    A = ATOMS[a]
                    term = term * (ipow(A.args[0], e) if A.kind == "inv" else ipow(atom_sym(A), e))
            acc = acc + term
        num = acc
        den = den * mult
    return num, den


def divide(n, d):
    if not d.t:
        if not n.t:
            return math.nan
        if n.is_const():
            return math.inf if n.cval() > 0 else -math.inf
        return math.nan
    if d.is_const():
        return n.scale(1 / d.cval())
    if not n.t:
        if ZERODIV[0] is not None and ZERODIV[0](d):
            return math.nan
        need(bnot(compare(d, 0, "==")), "division by zero")
        return ZERO
    if ZERODIV[0] is not None and ZERODIV[0](d):
        if n.is_const():
            return math.inf if n.cval() > 0 else -math.inf
        if bool(compare(n, 0, ">")):
            return math.inf
        return -math.inf if bool(compare(n, 0, "<")) else math.nan
    if len(d.t) == 1:
        (m, c), = d.t.items()
        if not any(ATOMS[a].kind == "ind" for a, e in m):
            if not all(_nonzero_atom(ATOMS[a]) for a, e in m):
                need(bnot(compare(d, 0, "==")), "division by zero")
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "abs" and len(n.t) > 1 and neg_free(n):
                # q*r/|q| = sign(q)*r
                p = ATOMS[m[0][0]].args[0]
                q = exact_div(n, p) if len(p.t) > 1 and len(n.t) <= 400 else None
                if q is not None:
                    return (q - (q * ind(compare(p, 0, "<"))).scale(2)).scale(1 / c)
            mi = tuple((a, -e) for a, e in m)
            if any(ATOMS[a].kind == "inv" for a, e in m):
                r = Sym({ONE: 1 / c})
                for a, e in m:
                    A = ATOMS[a]
                    r = r * (ipow(A.args[0], e) if A.kind == "inv" else _reduce(((a, -e),)) if _needs_reduce(((a, -e),)) else Sym({((a, -e),): F1}))
                return n * r
            r = _reduce(mi).scale(1 / c) if _needs_reduce(mi) else Sym({mi: 1 / c})
            return n * r
    if n.key == d.key:
        need(bnot(compare(d, 0, "==")), "division by zero")
        return UNIT
    need(bnot(compare(d, 0, "==")), "division by zero")
    # inverse of a rational function: den/num
    if not neg_free(d):
        num, den = clear(d)
        if num.is_const():
            if not num.t:
                return math.nan
            return n * den.scale(1 / num.cval())
        if len(num.t) == 1:
            return n * den * divide(UNIT, num)
        n = n * den
        d = num
        if n.key == d.key:
            return UNIT
    # common monomial factor of the denominator
    fac, rest = monomial_content(d)
    if fac:
        n = n * Sym({tuple((a, -e) for a, e in fac): F1})
        d = rest
    if len(n.t) <= 80 and len(d.t) <= 40 and neg_free(n):
        q = exact_div(n, d)
        if q is not None:
            return q
    c = d.t[min(d.t)]
    a = atom("inv", (d.scale(1 / c),))
    return n.scale(1 / c) * atom_sym(a)


def _nonzero_atom(A):
    return A.kind == "exp" or (A.meta or {}).get("positive")


def monomial_content(d):
    ms = list(d.t)
    common = None
    for m in ms:
        dm = {a: e for a, e in m if _SPECIAL.get(a) is None and e > 0}
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            return (), d
    fac = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in fac)
    return fac, Sym({_mono_mul(m, inv): c for m, c in d.t.items()})


def exact_div(n, d):
    """polynomial quotient n/d when exact (generic monomial order), else None"""
    if any(_SPECIAL.get(a) for m in d.t for a, e in m):
        return None

    def order(m):
        return (sum(e for _, e in m), m)
    lm = max(d.t, key=order)
    lc = d.t[lm]
    dl = dict(lm)
    q = {}
    r = n
    for _ in range(400):
        if not r.t:
            return Sym(q)
        m = max(r.t, key=order)
        dm = dict(m)
        for a, e in dl.items():
            if dm.get(a, 0) < e:
                return None
        qm = _mono_mul(m, tuple((a, -e) for a, e in lm))
        qc = r.t[m] / lc
        q[qm] = q.get(qm, F0) + qc
        t = dict(r.t)
        for m2, c2 in d.t.items():
            mm = _mono_mul(qm, m2)
            if _needs_reduce(mm):
                return None
            v = _addc(t.get(mm, F0), -qc * c2)
            if mm == m:
                v = F0
            if v:
                t[mm] = v
            else:
                t.pop(mm, None)
        r = Sym(t)
    return None


# ----------------------------------------------------------------- functions
def _dedust(p):
    """drop terms of an argument that are pure decimal-rounding dust"""
    return p


def sym_exp(p):
    if not p.t:
        return UNIT
    if p.is_const():
        v = math.exp(float(p.cval()))
        return Sym.const(v)
    # exp(log(q)*k + r): pull integer multiples of logs out
    out = None
    for m, c in list(p.t.items()):
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log" and c.denominator in (1, 2):
            q = ATOMS[m[0][0]].args[0]
            f = ipow(q, int(c)) if c.denominator == 1 else ipow(sym_sqrt(q), int(c.numerator))
            out = f if out is None else out * f
            p = p - Sym({m: c})
    if out is not None:
        return out * sym_exp(p)
    # a pure constant summand becomes a coefficient
    c = p.t.get(ONE)
    if c is not None and abs(c) < 600:
        p = Sym({m: k for m, k in p.t.items() if m != ONE})
        return atom_sym(atom("exp", (p,))).scale(to_frac(math.exp(float(c))))
    return atom_sym(atom("exp", (p,)))


def sym_log(p):
    if p.is_const():
        v = float(p.cval())
        if v <= 0:
            return -math.inf if v == 0 else math.nan
        return Sym.const(math.log(v))
    need(compare(p, 0, ">"), "logarithm of a non-positive number")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(ATOMS[a].kind == "exp" or (ATOMS[a].meta or {}).get("positive") for a, e in m):
            out = Sym.const(math.log(float(c)))
            for a, e in m:
                A = ATOMS[a]
                out = out + (A.args[0] * e if A.kind == "exp" else atom_sym(atom("log", (atom_sym(A),))) * e)
            return out
    # monic argument
    c = abs(p.t[min(p.t)])
    q = p.scale(1 / c)
    return atom_sym(atom("log", (q,))) + (math.log(float(c)) if c != 1 else 0)


def _is_square(c):
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt_const(c):
    r = _is_square(c)
    return r if r is not None else to_frac(math.sqrt(float(c)))


def sym_sqrt(p):
    if not p.t:
        return ZERO
    if p.is_const():
        c = p.cval()
        if c < 0:
            return math.nan
        return Sym({ONE: sqrt_const(c)})
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0:
            out = Sym({ONE: sqrt_const(c)})
            rest = []
            for a, e in m:
                A = ATOMS[a]
                if A.kind == "exp":
                    out = out * sym_exp(A.args[0] * Fraction(e, 2))
                elif (A.meta or {}).get("positive") and e % 2 == 0:
                    out = out * Sym({((a, e // 2),): F1})
                elif e % 4 == 0:
                    out = out * Sym({((a, e // 2),): F1})
                elif e % 2 == 0:
                    out = out * sym_abs(Sym({((a, 1),): F1})) ** (e // 2)
                elif A.kind == "ind":
                    out = out * atom_sym(A)
                else:
                    rest.append((a, e))
            if not rest:
                return out
            r = Sym({tuple(rest): F1})
            need(compare(r, 0, ">="), "square root of a negative number")
            return out * atom_sym(atom("sqrt", (r,)))
    fac, rest = split_factor(p, True)
    if fac is not None:
        return sym_sqrt(fac) * sym_sqrt(rest)
    # perfect square of a polynomial?
    q = poly_sqrt(p)
    if q is not None:
        return sym_abs(q)
    need(compare(p, 0, ">="), "square root of a negative number")
    # indicator products: sqrt(I*q) = I*sqrt(q)
    c = abs(p.t[min(p.t)])
    return atom_sym(atom("sqrt", (p.scale(1 / c),))).scale(sqrt_const(c))


def poly_sqrt(p):
    """q with q*q == p for small polynomials, else None"""
    if len(p.t) > 15 or len(p.t) < 3:
        return None
    if any(_SPECIAL.get(a) or e < 0 for m in p.t for a, e in m):
        return None

    def order(m):
        return (sum(e for _, e in m), m)
    lm = max(p.t, key=order)
    c = _is_square(p.t[lm])
    if c is None or any(e % 2 for _, e in lm):
        return None
    q = Sym({tuple((a, e // 2) for a, e in lm): c})
    lead = q
    (lq, lqc), = lead.t.items()
    for _ in range(6):
        r = p - q * q
        if not r.t:
            return q
        m = max(r.t, key=order)
        dm = dict(m)
        for a, e in lq:
            if dm.get(a, 0) < e:
                return None
        q = q + Sym({_mono_mul(m, tuple((a, -e) for a, e in lq)): r.t[m] / (2 * lqc)})
    return None


def sym_trig(fn, p):
    if p.is_const():
        return Sym.const(getattr(math, fn)(float(p.cval())))
    if fn == "sin":
        if lead_sign(p) < 0:
            return -atom_sym(atom("sin", (-p,)))
        return atom_sym(atom("sin", (p,)))
    if lead_sign(p) < 0:
        p = -p
    return atom_sym(atom("cos", (p,)))


def odd_fn(name, p):
    if lead_sign(p) < 0:
        return -atom_sym(atom(name, (-p,)))
    return atom_sym(atom(name, (p,)))


def is_integral(x):
    """an integer by construction"""
    return all(c.denominator == 1 and all((ATOMS[a].meta or {}).get("int") or ATOMS[a].kind in ("ind", "floor") for a, e in m) for m, c in x.t.items())


def sym_floor(p):
    if p.is_const():
        return Sym.const(math.floor(p.cval()))
    whole = Sym({m: c for m, c in p.t.items() if is_integral(Sym({m: c}))})
    if whole.t:
        rest = p - whole
        return whole + sym_floor(rest) if rest.t else p
    r = linear_range(p)
    if r is not None and math.floor(r[0]) == math.floor(r[1]):
        return Sym.const(math.floor(r[0]))
    return atom_sym(atom("floor", (p,)))


def sym_round(p, decimals=0):
    """round to the nearest; rounding to nine or more digits is below the tolerance and dropped"""
    k = int(decimals)
    if k >= 9:
        return p
    if p.is_const():
        return Sym.const(round(p.cval(), k))
    s = Fraction(10) ** k
    return sym_floor(p.scale(s) + Fraction(1, 2)).scale(1 / s)


def sym_trunc(p):
    if p.is_const():
        return Sym.const(math.trunc(p.cval()))
    if is_integral(p):
        return p
    return ite(compare(p, 0, ">="), sym_floor(p), -sym_floor(-p))


SQRT2 = math.sqrt(2.0)


def sym_cdf(p):
    """standard normal cdf"""
    if p.is_const():
        return Sym.const(0.5 * math.erfc(-float(p.cval()) / SQRT2))
    if lead_sign(p) < 0:
        return UNIT - atom_sym(atom("Phi", (-p,)))
    return atom_sym(atom("Phi", (p,)))


def sym_pdf(p):
    return sym_exp(-(p * p) / 2) * (1 / math.sqrt(2 * math.pi))


def sym_erf(p):
    if p.is_const():
        return Sym.const(math.erf(float(p.cval())))
    return sym_cdf(p * SQRT2) * 2 - 1


def sign_known(p):
    """+1/-1 when the sign is syntactically evident (positive atoms only), else 0"""
    s = 0
    for m, c in p.t.items():
        for a, e in m:
            A = ATOMS[a]
            if not (A.kind == "exp" or (A.meta or {}).get("positive") or (e % 2 == 0) or A.kind in ("sqrt", "abs", "ind", "Phi")):
                return 0
        t = 1 if c > 0 else -1
        if s == 0:
            s = t
        elif s != t:
            return 0
    return s


def linear_range(p):
    """(lo, hi) of a linear combination of bounded inputs; None otherwise"""
    if len(p.t) > 12:
        return None
    lo = hi = F0
    for m, c in p.t.items():
        if not m:
            lo, hi = lo + c, hi + c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        A = ATOMS[m[0][0]]
        if A.kind != "var":
            return None
        me = A.meta or {}
        a, b = me.get("lo"), me.get("hi")
        if a.__class__ not in (int, float) or b.__class__ not in (int, float):
            return None
        a, b = Fraction(repr(a)) * c, Fraction(repr(b)) * c
        lo, hi = (lo + a, hi + b) if c > 0 else (lo + b, hi + a)
    return lo, hi


def sym_abs(p):
    if not p.t:
        return ZERO
    if p.is_const():
        return Sym({ONE: abs(p.cval())})
    s = sign_known(p)
    if s:
        return p if s > 0 else -p
    r = linear_range(p)
    if r is not None and r[0] >= 0:
        return p
    if r is not None and r[1] <= 0:
        return -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = Sym({ONE: abs(c)})
        rest = UNIT
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "exp" or (A.meta or {}).get("positive") or e % 2 == 0 or A.kind in ("sqrt", "abs", "ind", "Phi"):
                out = out * Sym({((a, e),): F1})
            else:
                ab = atom_sym(atom("abs", (atom_sym(A),)))
                out = out * ipow(ab, e)
        return out
    fac, p = split_factor(p)
    if fac is not None:
        return sym_abs(fac) * sym_abs(p)
    c = p.t[min(p.t)]
    q = p.scale(1 / c)
    return atom_sym(atom("abs", (q,))).scale(abs(c))


def split_factor(p, even=False):
    """(monomial, rest) with p = monomial*rest; (None, p) when there is no common factor"""
    fac = common_factor(p)
    if even:
        fac = tuple((a, e - e % 2 if e > 0 else e + (-e) % 2) for a, e in fac)
        fac = tuple((a, e) for a, e in fac if e)
    if not fac:
        return None, p
    inv = tuple((a, -e) for a, e in fac)
    return Sym({fac: F1}), Sym({_mono_mul(m, inv): c for m, c in p.t.items()})


def sym_max(a, b):
    for x, y in ((a, b), (b, a)):
        if x.__class__ is not Sym:
            if x != x:
                return x
            return x if x > 0 else y
    d = a - b
    if not d.t:
        return a
    return (a + b + sym_abs(d)) / 2


def sym_min(a, b):
    for x, y in ((a, b), (b, a)):
        if x.__class__ is not Sym:
            if x != x:
                return x
            return x if x < 0 else y
    d = a - b
    if not d.t:
        return a
    return (a + b - sym_abs(d)) / 2


def uf(name, args, **meta):
    return atom_sym(atom("uf", args, name, meta or None))


# ----------------------------------------------------------------- booleans
_BOOLS = {}


class SymBool:
    """op: 'lt','le','eq' (poly rel 0), 'and','or','not'"""
    __slots__ = ("op", "args", "key", "z3", "_ind")
    __array_priority__ = 1e6

    def __init__(self, op, args, key):
        self.op, self.args, self.key = op, args, key
        self.z3 = None

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        s = {"lt": "<0", "le": "<=0", "eq": "==0"}.get(self.op)
        if s:
            return "(%r %s)" % (self.args[0], s)
        return "%s%r" % (self.op, self.args)

    def __bool__(self):
        return BRANCH[0](self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        o = tobool(o)
        return bor(band(self, bnot(o)), band(bnot(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    # arithmetic use of a truth value
    def __add__(self, o):
        return ind(self) + (ind(o) if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return ind(self) - (ind(o) if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - ind(self)

    def __mul__(self, o):
        return ind(self) * (ind(o) if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __neg__(self):
        return -ind(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else bnot(self)
        if isinstance(o, SymBool):
            return bor(band(self, o), band(bnot(self), bnot(o)))
        if isinstance(o, (int, float)):
            return ind(self) == o
        return False

    def __ne__(self, o):
        return bnot(tobool(self.__eq__(o)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def sum(self, *a, **k):
        return ind(self)

    def astype(self, t, **k):
        return self if t in (bool, np.bool_) else ind(self)

    @property
    def shape(self):
        return ()

    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(bool)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return UFUNC[0](ufunc, method, inputs, kw)

    def __array__(self, dtype=None, copy=None):
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def ravel(self):
        return _arr(self).ravel()

    def reshape(self, *s):
        return _arr(self).reshape(*s)


def _mkbool(op, args):
    key = (op, tuple(a.key for a in args))
    b = _BOOLS.get(key)
    if b is None:
        b = SymBool(op, tuple(args), key)
        _BOOLS[key] = b
    return b


def tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, Sym):
        return bnot(x == 0)
    if isinstance(x, np.ndarray) and x.size == 1:
        return tobool(x.reshape(-1)[0])
    return bool(x)


def bnot(b):
    if b is True or b is False:
        return not b
    if not isinstance(b, SymBool):
        return bnot(tobool(b))
    if b.op == "not":
        return b.args[0]
    if b.op == "lt":
        return _mkbool("le", (-b.args[0],))
    if b.op == "le":
        return _mkbool("lt", (-b.args[0],))
    if b.op == "and":
        return bor(*[bnot(a) for a in b.args])
    if b.op == "or":
        return band(*[bnot(a) for a in b.args])
    return _mkbool("not", (b,))


def _flat(op, xs):
    out, seen = [], set()
    for x in xs:
        x = tobool(x)
        for y in (x.args if isinstance(x, SymBool) and x.op == op else (x,)):
            if isinstance(y, SymBool):
                if y.key not in seen:
                    seen.add(y.key)
                    out.append(y)
            else:
                out.append(y)
    return out


def band(*xs):
    out = []
    for x in _flat("and", xs):
        if x is False:
            return False
        if x is not True:
            out.append(x)
    keys = {x.key for x in out}
    for x in out:
        n = bnot(x)
        if isinstance(n, SymBool) and n.key in keys:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mkbool("and", tuple(out))


def bor(*xs):
    out = []
    for x in _flat("or", xs):
        if x is True:
            return True
        if x is not False:
            out.append(x)
    keys = {x.key for x in out}
    for x in out:
        n = bnot(x)
        if isinstance(n, SymBool) and n.key in keys:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mkbool("or", tuple(out))


def compare(a, b, op):
    b = coerce(b)
    if b is NotImplemented:
        return NotImplemented
    if b.__class__ is not Sym:            # inf / nan
        if b != b:
            return False
        if op in ("<", "<="):
            return b > 0
        if op in (">", ">="):
            return b < 0
        return False
    if op in (">", ">="):
        p = b - a
        op = "lt" if op == ">" else "le"
    else:
        p = a - b
        op = {"<": "lt", "<=": "le", "==": "eq"}[op]
    if p.is_const():
        c = p.cval()
        return bool(c < 0 if op == "lt" else c <= 0 if op == "le" else c == 0)
    c = abs(p.t[min(p.t)])
    if op == "eq":
        c = p.t[min(p.t)]
    if c != 1:
        p = p.scale(1 / c)
    s = sign_known(p)
    if s and op != "eq":
        strict = _strict(p)
        if op == "le":
            if s < 0:
                return True
            if strict:
                return False
        else:
            if s > 0:
                return False
            if strict:
                return True
    elif s and op == "eq" and _strict(p):
        return False
    r = linear_range(p)
    if r is not None:
        if r[0] > 0:
            return False
        if op == "lt" and r[0] >= 0:
            return False
        if op == "eq" and r[1] < 0:
            return False
        if op == "lt" and r[1] < 0:
            return True
        if op == "le" and r[1] <= 0:
            return True
    return _mkbool(op, (p,))


def _strict(p):
    """sign_known(p) != 0 and p can not be 0"""
    for m, c in p.t.items():
        if all(ATOMS[a].kind in ("exp", "Phi") or (ATOMS[a].meta or {}).get("positive") for a, e in m):
            return True
    return False


def ind(b):
    """0/1 value of a truth value"""
    if b is True:
        return UNIT
    if b is False:
        return ZERO
    if not isinstance(b, SymBool):
        return coerce(b)
    if b.op == "not":
        return UNIT - ind(b.args[0])
    # one of p<0 / -p<=0 is canonical
    if b.op == "le":
        n = bnot(b)
        return UNIT - atom_sym(atom("ind", (n,)))
    return atom_sym(atom("ind", (b,)))


OPAQUE = [0]          # selections between polynomials of more terms than this become one named atom (0: never)


def ite(c, a, b):
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or (isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_))):
        a, b = tobool(a), tobool(b)
        return bor(band(c, a), band(bnot(c), b))
    sa, sb = coerce(a), coerce(b)
    if sa.__class__ is not Sym or sb.__class__ is not Sym:
        return a if bool(c) else b
    d = sa - sb
    if not d.t:
        return sb
    # continuous selection on the sign of a multiple of the difference: max/min/abs
    if c.op in ("lt", "le"):
        p = c.args[0]
        if len(p.t) == len(d.t):
            m = min(p.t)
            if m in d.t:
                k = d.t[m] / p.t[m]
                if not (d - p.scale(k)).t:
                    return sb + (p - sym_abs(p)).scale(k / 2)
    if OPAQUE[0] and (len(sa.t) > OPAQUE[0] or len(sb.t) > OPAQUE[0] or not (neg_free(sa) and neg_free(sb))):
        if c.op == "not" or c.op == "le":
            c, sa, sb = bnot(c), sb, sa
        return atom_sym(atom("ite", (c, sa, sb)))
    return sb + ind(c) * d


UNTIL = [None]       # time after which large products are abandoned


class Slow(ArithmeticError):
    pass


NAMING = [0]          # results of matrix products and solves of more terms than this become named values (0: never)


def named(s, force=False):
    """s as (multiple of) one named value that stands for it"""
    if s.__class__ is not Sym or not (force or (NAMING[0] and len(s.t) > NAMING[0])) or len(s.t) < 2:
        return s
    fac = common_factor(s)
    if fac:
        inv = tuple((a, -e) for a, e in fac)
        s = Sym({_mono_mul(m, inv): c for m, c in s.t.items()})
    c = s.t[min(s.t)]
    r = atom_sym(atom("def", (s.scale(1 / c),)))
    return r * Sym({fac: c}) if fac else r.scale(c)


def common_factor(s):
    """monomial (positive or negative powers) common to all terms"""
    common = None
    for m in s.t:
        dm = {a: e for a, e in m if _SPECIAL.get(a) is None and ATOMS[a].kind != "inv"}
        if common is None:
            common = dm
            continue
        for a in list(common):
            e, f = common[a], dm.get(a, 0)
            g = min(e, f) if e > 0 and f > 0 else max(e, f) if e < 0 and f < 0 else 0
            if g:
                common[a] = g
            else:
                del common[a]
        if not common:
            return ()
    return tuple(sorted(common.items()))


# ----------------------------------------------------------------- numeric evaluation
class Valuation:
    """numeric values for variables and uninterpreted functions"""

    def __init__(self, vars=None, rng=None, uft=None):
        self.vars = dict(vars or {})
        self.uft = {k: list(v) for k, v in (uft or {}).items()}
        self.rng = rng
        self.cache = {}
        self.used = set()

    def var(self, A):
        self.used.add(A.name)
        v = self.vars.get(A.name)
        if v is None:
            v = sample_var(A, self.rng)
            self.vars[A.name] = v
        return v

    def ufval(self, name, args, meta=None):
        tab = self.uft.setdefault(name, [])
        for a, v in tab:
            if len(a) == len(args) and all(abs(x - y) <= 1e-9 * (1 + abs(x)) for x, y in zip(a, args)):
                return v
        lo, hi = ((meta or {}).get("lo"), (meta or {}).get("hi"))
        lo = -2.0 if lo is None else lo
        hi = 2.0 if hi is None else hi
        v = self.rng.uniform(lo, hi) if self.rng is not None else (lo + hi) / 2
        tab.append((list(args), v))
        return v


def sample_var(A, rng):
    m = A.meta or {}
    if m.get("values") is not None:
        vals = m["values"]
        return vals[rng.randrange(len(vals))] if rng else vals[0]
    lo, hi = m.get("lo"), m.get("hi")
    if lo is None and hi is None:
        lo, hi = -2.0, 2.0
    elif lo is None:
        lo = hi - 4.0
    elif hi is None:
        hi = lo + 4.0
    if rng is None:
        return (lo + hi) / 2
    r = rng.random()
    if m.get("int"):
        return float(rng.randint(int(lo), int(hi)))
    return lo + (hi - lo) * r


def ev(s, val):
    """float value of a Sym under a valuation"""
    if s.__class__ is not Sym:
        if isinstance(s, SymBool):
            return evb(s, val)
        return float(s)
    tot = 0.0
    for m, c in s.t.items():
        v = float(c)
        if any(ATOMS[a].kind == "ind" and ev_atom(ATOMS[a], val) == 0.0 for a, e in m):
            continue          # not selected: undefined factors do not matter
        for a, e in m:
            x = ev_atom(ATOMS[a], val)
            if e == 1:
                v *= x
            else:
                try:
                    v *= x ** e
                except ZeroDivisionError:
                    v *= math.inf
                except OverflowError:
                    v = math.inf
        tot += v
    return tot


CHOL_EVAL = {}     # name prefix -> function(val, i, j)


def ev_atom(A, val):
    r = val.cache.get(A.id)
    if r is not None:
        return r
    k = A.kind
    try:
        if k == "var":
            hook = (A.meta or {}).get("eval")
            r = hook(val) if hook else val.var(A)
        elif k == "uf":
            r = val.ufval(A.name, [ev(x, val) for x in A.args], A.meta)
        elif k == "ind":
            r = 1.0 if evb(A.args[0], val) else 0.0
        elif k == "ite":
            r = ev(A.args[1] if evb(A.args[0], val) else A.args[2], val)
        else:
            x = ev(A.args[0], val)
            if x != x:
                r = math.nan
            elif k == "exp":
                r = math.exp(x) if x < 700 else math.inf
            elif k == "log":
                r = math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
            elif k == "sqrt":
                r = math.sqrt(x) if x >= 0 else (0.0 if x > -1e-12 else math.nan)
            elif k == "sin":
                r = math.sin(x)
            elif k == "cos":
                r = math.cos(x)
            elif k == "atan":
                r = math.atan(x)
            elif k == "floor":
                r = float(math.floor(x))
            elif k == "abs":
                r = abs(x)
            elif k == "inv":
                r = 1.0 / x if x != 0 else math.inf
            elif k == "def":
                r = x
            elif k == "Phi":
                r = 0.5 * math.erfc(-x / SQRT2)
            else:
                raise ValueError(k)
    except (OverflowError, ValueError):
        r = math.nan
    val.cache[A.id] = r
    return r


def evb(b, val, slack=0.0):
    if b is True or b is False:
        return b
    if b.op == "lt":
        return ev(b.args[0], val) < slack
    if b.op == "le":
        return ev(b.args[0], val) <= slack
    if b.op == "eq":
        x = b.args[0]
        scale = sum(abs(float(c)) for c in x.t.values())
        return abs(ev(x, val)) <= 1e-9 * max(1.0, scale)
    if b.op == "not":
        return not evb(b.args[0], val)
    if b.op == "and":
        return all(evb(x, val, slack) for x in b.args)
    if b.op == "or":
        return any(evb(x, val, slack) for x in b.args)
    raise ValueError(b.op)


def atoms_of(x, acc=None, into_uf=True):
    """all atoms reachable from a Sym or SymBool (optionally without the arguments of uninterpreted functions)"""
    acc = {} if acc is None else acc
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, SymBool):
            stack.extend(y.args)
        elif y.__class__ is Sym:
            for m in y.t:
                for a, e in m:
                    if a not in acc:
                        A = ATOMS[a]
                        acc[a] = A
                        if into_uf or A.kind != "uf":
                            stack.extend(A.args)
    return acc


def direct_atoms(xs):
    """atoms occurring in the polynomials of xs themselves"""
    acc = {}
    stack = list(xs)
    while stack:
        y = stack.pop()
        if isinstance(y, SymBool):
            stack.extend(y.args)
        elif y.__class__ is Sym:
            for m in y.t:
                for a, e in m:
                    acc[a] = ATOMS[a]
    return acc


# ----------------------------------------------------------------- case splits on indicators
def inds_of(x, kinds=("ind", "ite")):
    """ids of the indicator atoms occurring in the polynomials of x (not inside atoms)"""
    out = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, SymBool):
            stack.extend(y.args)
        elif y.__class__ is Sym:
            for m in y.t:
                for a, e in m:
                    if ATOMS[a].kind in kinds:
                        out.add(a)
    return out


def set_ind(x, a, one):
    """x with indicator atom a replaced by 1 or 0 (an absolute value by plus or minus its argument) in its
    polynomials"""
    if x is True or x is False:
        return x
    if x.__class__ is Sym and ATOMS[a].kind in ("ite", "abs"):
        v = ATOMS[a].args[0]
        v = ATOMS[a].args[1 if one else 2] if ATOMS[a].kind == "ite" else v if one else -v
        r, rest = ZERO, {}
        for m, c in x.t.items():
            e = dict(m).get(a, 0)
            if e < 0:
                return x
            if e:
                r = r + ipow(v, e) * Sym({tuple(p for p in m if p[0] != a): c})
            else:
                rest[m] = c
        return r + Sym(rest) if len(rest) != len(x.t) else x
    if x.__class__ is Sym:
        t = {}
        hit = False
        for m, c in x.t.items():
            if any(i == a for i, e in m):
                hit = True
                if not one:
                    continue
                m = tuple(p for p in m if p[0] != a)
            c2 = t.get(m)
            t[m] = c if c2 is None else c + c2
        if not hit:
            return x
        return Sym({m: c for m, c in t.items() if c != 0})
    if x.op in ("lt", "le", "eq"):
        p = set_ind(x.args[0], a, one)
        if p is x.args[0]:
            return x
        return compare(p, 0, {"lt": "<", "le": "<=", "eq": "=="}[x.op])
    args = [set_ind(y, a, one) for y in x.args]
    if x.op == "not":
        return bnot(args[0])
    return band(*args) if x.op == "and" else bor(*args)


class Rebuild:
    """re-normalises terms with the selections (ind, ite, abs) decided by `dec` resolved, also inside
    the arguments of functions.  After a call `open` lists conditions that stay undecided: those
    nested inside function arguments first"""

    def __init__(self, dec):
        self.dec = dec
        self.memo = {}
        self.nested, self.outer = [], []
        self.depth = 0
        self.infn = {}

    def note(self, b):
        if isinstance(b, SymBool):
            (self.nested if self.depth else self.outer).append(b)

    def atom(self, a):
        """replacement Sym of an atom"""
        got = self.memo.get(a)
        if got is not None and got[0] <= self.depth:
            return got[1]
        A = ATOMS[a]
        k = A.kind
        if k == "var" or not A.args:
            r = atom_sym(A)
        elif k == "ind":
            b = self.bool(A.args[0])
            d = b if isinstance(b, bool) else self.dec(b)
            if d is None:
                self.note(b)
                r = ind(b)
            else:
                r = UNIT if d else ZERO
        elif k == "ite":
            b = self.bool(A.args[0])
            d = b if isinstance(b, bool) else self.dec(b)
            if d is None:
                self.note(b)
                r = ite(b, self.sym(A.args[1]), self.sym(A.args[2]))
            else:
                r = self.sym(A.args[1 if d else 2])
        elif k == "abs":
            p = self.sym(A.args[0])
            b = compare(p, 0, "<")
            d = b if isinstance(b, bool) else self.dec(b)
            if d is None and self.dec(compare(p, 0, "<=")) is True:
                d = True
            if d is None:
                self.note(b)
                r = sym_abs(p)
            else:
                r = -p if d else p
        else:
            self.depth += 1 if k != "inv" else 0
            args = [self.sym(x) if x.__class__ is Sym else x for x in A.args]
            self.depth -= 1 if k != "inv" else 0
            if all(x is y for x, y in zip(args, A.args)):
                r = atom_sym(A)
            elif k == "exp":
                r = sym_exp(args[0])
            elif k == "log":
                r = sym_log(args[0])
            elif k == "sqrt":
                r = sym_sqrt(args[0])
            elif k in ("sin", "cos"):
                r = sym_trig(k, args[0])
            elif k == "inv":
                r = divide(UNIT, args[0])
            elif k == "Phi":
                r = sym_cdf(args[0])
            elif k == "uf":
                r = atom_sym(atom("uf", tuple(args), A.name, A.meta))
            elif k == "def":
                r = named(args[0], True)
            elif k == "floor":
                r = sym_floor(args[0])
            elif not args[0].is_const():
                r = odd_fn(k, args[0])
            else:
                r = atom_sym(A)
            if r.__class__ is not Sym:        # nan/inf on an infeasible combination
                r = atom_sym(A)
        self.memo[a] = (self.depth, r)
        return r

    def sym(self, s):
        hit = False
        rep = {}
        for m in s.t:
            for a, e in m:
                if a not in rep:
                    r = self.atom(a)
                    rep[a] = None if len(r.t) == 1 and r.t.get(((a, 1),)) == 1 else r
                    hit = hit or rep[a] is not None
        if not hit:
            return s
        out = {}
        extra = ZERO
        for m, c in s.t.items():
            keep, ch = [], []
            for a, e in m:
                (keep if rep[a] is None else ch).append((a, e))
            if not ch:
                out[m] = c
                continue
            t = Sym({tuple(keep): c})
            for a, e in ch:
                f = ipow(rep[a], abs(e))
                t = t * f if e > 0 else (divide(t, f) if f.t else None)
                if t is None or t.__class__ is not Sym:
                    raise ArithmeticError
            extra = extra + t
        return extra + Sym(out)

    def bool(self, b):
        if b is True or b is False:
            return b
        if b.op in ("lt", "le", "eq"):
            p = self.sym(b.args[0])
            if p is b.args[0]:
                return b
            return compare(p, 0, {"lt": "<", "le": "<=", "eq": "=="}[b.op])
        args = [self.bool(y) for y in b.args]
        if b.op == "not":
            return bnot(args[0])
        return band(*args) if b.op == "and" else bor(*args)


class Prover:
    """d == 0, goal-directed: denominators are cleared; functions that agree numerically are identified
    once their arguments are proved equal (recursively); named values are written out latest first,
    and last of all the entries of inverse Cholesky factors"""
    SEEDS = (31, 32, 33, 34)

    def __init__(self, seconds=15, explicit=None):
        import random
        self.vals = [Valuation(rng=random.Random(s)) for s in self.SEEDS]
        self.seconds = seconds
        self.scales = []
        self.rep = {}                # atom -> equal term
        self.tried = {}
        self.explicit = explicit     # function giving atom id -> term for the Cholesky entries in a term
        self.depth = 0

    def prove(self, d):
        """with increasing limits on the size of the terms"""
        self.scales = []
        for A in atoms_of(d).values():
            if A.kind == "sqrt" and len(A.args[0].t) > 1 and len(A.args[0].t) < 40 and len(self.scales) < 40:
                S = atom_sym(A)
                self.scales.append((A.args[0], S, self.numbers(A.args[0]), self.numbers(S)))
        for share, self.limit in ((0.05, 40), (0.1, 160), (0.25, 800), (0.6, 6000)):
            self.until = time.time() + share * self.seconds
            self.rep, self.tried = {}, {}
            saved = UNTIL[0]
            UNTIL[0] = self.until if saved is None else min(saved, self.until)
            try:
                if self.zero(d):
                    return True
            except Slow:
                if saved is not None and time.time() > saved:
                    raise
            finally:
                UNTIL[0] = saved
                self.depth = 0
        return False

    def top(self, s, rep):
        """replace atoms occurring in the polynomial s itself (inverses included)"""
        for m in s.t:
            if any(a in rep or ATOMS[a].kind == "inv" for a, e in m):
                break
        else:
            return s
        out, extra, inv = {}, [], {}
        for m, c in s.t.items():
            keep, ch = [], []
            for a, e in m:
                r = rep.get(a)
                if r is None and ATOMS[a].kind == "inv":
                    r = inv.get(a)
                    if r is None:
                        p = ATOMS[a].args[0]
                        q = self.top(p, rep)
                        r = atom_sym(ATOMS[a]) if q is p else divide(UNIT, q)
                        if r.__class__ is not Sym:
                            raise ArithmeticError
                        inv[a] = r
                    if len(r.t) == 1 and r.t.get(((a, 1),)) == 1:
                        r = None
                if r is None:
                    keep.append((a, e))
                else:
                    ch.append((r, e))
            if not ch:
                out[m] = c
                continue
            t = Sym({tuple(keep): c})
            for r, e in ch:
                f = ipow(r, abs(e))
                t = t * f if e > 0 else divide(t, f)
                if t.__class__ is not Sym:
                    raise ArithmeticError
            extra.append(t)
        res = Sym(out)
        for t in extra:
            res = res + t
        return res

    def zero(self, d):
        if not d.t:
            return True
        if d.is_const():
            return False
        got = self.tried.get(d.key)
        if got is not None:
            return got
        self.tried[d.key] = False            # while in progress
        self.depth += 1
        try:
            r = self.depth < 25 and self.near_zero(d) and self._zero(d)
        finally:
            self.depth -= 1
        self.tried[d.key] = r
        return r

    def near_zero(self, d):
        """numerically zero (relative to the size of its terms) at some valuation, or nowhere defined"""
        seen = False
        terms = [Sym({m: c}) for m, c in d.t.items()]
        for v in self.vals:
            xs = [ev(t, v) for t in terms]
            n = sum(abs(x) for x in xs)
            if n == n and n < 1e100:
                seen = True
                if abs(sum(xs)) <= 1e-6 * n + 1e-11:
                    return True
        return not seen

    def _zero(self, d):
        for _ in range(200):
            if time.time() > self.until:
                raise Slow
            num, _ = clear(self.top(d, self.rep))
            if not num.t:
                return True
            if len(num.t) > self.limit or num.is_const():
                return False
            if self.merge(num):
                d = num
                continue
            ds = {a for m in num.t for a, e in m if ATOMS[a].kind == "def"}
            if ds:
                last = max(ds)
                d = self.top(num, {last: ATOMS[last].args[0]})
                continue
            un = self.explicit(num) if self.explicit and self.limit >= 800 else None
            if not un:
                return False
            d = self.top(num, un)
        return False

    def numbers(self, s):
        return [ev(s, v) for v in self.vals]

    def merge(self, num):
        groups = {}
        for a in {a for m in num.t for a, e in m}:
            A = ATOMS[a]
            if A.args and A.kind != "inv":
                groups.setdefault((A.kind, A.name, len(A.args)), []).append(A)
        for (k, _, _), lst in groups.items():
            lst.sort(key=lambda A: A.id)
            num_ = [self.numbers(atom_sym(A)) for A in lst]
            if k in ("abs", "sqrt", "def"):
                for A, x in zip(lst, num_):
                    # zero at every valuation?
                    if (A.id, 0) not in self.tried and all(not abs(p) > (1e-4 if k == "sqrt" else 1e-8) for p in x):
                        self.tried[A.id, 0] = None
                        if self.zero(A.args[0]):
                            self.rep[A.id] = ZERO
                            return True
            if len(lst) < 2:
                continue
            for i in range(len(lst) - 1, 0, -1):
                for j in range(i):
                    r = self.same(lst[i], lst[j], num_[i], num_[j])
                    if r is not None:
                        self.rep[lst[i].id] = r
                        return True
        return False

    def same(self, B, C, x, y):
        """B as a multiple of C, or None"""
        key = (B.id, C.id)
        if key in self.tried:
            return self.tried[key]
        self.tried[key] = None
        f = None
        for p, q in zip(x, y):
            if not (p == p and q == q and abs(p) < 1e100 and abs(q) < 1e100):
                continue
            if abs(q) < 1e-9:
                if abs(p) > 1e-7:
                    return None
                continue
            if f is None:
                f = p / q
            elif abs(p / q - f) > 1e-6 * abs(f):
                return self.scaled(B, C, x, y) if B.kind in ("abs", "sqrt") else None
        if f is None:
            f = 1.0
        fr = Fraction(f).limit_denominator(10000)
        k = B.kind
        if not fr or abs(float(fr) - f) > 1e-6 * abs(f) or (fr != 1 and k not in ("abs", "def", "sqrt")):
            return None
        if k == "def":
            ok = self.zero(B.args[0] - C.args[0].scale(fr))
        elif k == "abs":
            ok = self.zero(B.args[0] - C.args[0].scale(fr)) or self.zero(B.args[0] + C.args[0].scale(fr))
        elif k == "sqrt":
            ok = self.zero(B.args[0] - C.args[0].scale(fr * fr))
        else:
            ok = all(self.zero(p - q) if p.__class__ is Sym and q.__class__ is Sym else self.cond(p, q) if isinstance(p, SymBool) and isinstance(q, SymBool) else p is q
                     for p, q in zip(B.args, C.args))
        if ok:
            self.tried[key] = atom_sym(C).scale(fr)
        return self.tried[key]

    def scaled(self, B, C, x, y):
        """|p| = |q|*g or sqrt(p) = sqrt(q)*sqrt(g) for a g under some square root (so g >= 0)"""
        for g, S, gv, sv in self.scales:
            s, w = (g, gv) if B.kind == "abs" else (S, sv)
            for inverse in (False, True):
                if all(not (p == p and q == q and t == t) or abs(p * t - q if inverse else p - q * t) <= 1e-6 * (abs(p) + 1e-6) for p, q, t in zip(x, y, w)):
                    p, q = B.args[0], C.args[0]
                    if inverse:
                        p = p * g
                    else:
                        q = q * g
                    if self.zero(p - q) or (B.kind == "abs" and self.zero(p + q)):
                        r = atom_sym(C)
                        r = divide(r, s) if inverse else r * s
                        self.tried[B.id, C.id] = r
                        return r
        return None

    def cond(self, p, q):
        if p.key == q.key:
            return True
        if p.op != q.op:
            return False
        if p.op in ("lt", "le", "eq"):
            a, b = p.args[0], q.args[0]
            return self.zero(a - b) or (p.op == "eq" and self.zero(a + b))
        return len(p.args) == len(q.args) and all(self.cond(a, b) for a, b in zip(p.args, q.args))


class Unify(Rebuild):
    """re-normalises terms so that functions applied to (provably) equal arguments become the same
    atom, and, with `unfold`, replaces named values by their defining expressions"""
    SEEDS = (11, 12, 13, 14, 15)

    def __init__(self, unfold=None, limit=30000):
        super().__init__(lambda b: None)
        import random
        self.vals = [Valuation(rng=random.Random(s)) for s in self.SEEDS]
        self.reps = {}
        self.canon = {}
        self.limit = limit
        for a, s in (unfold or {}).items():
            self.memo[a] = (0, s)

    def equal(self, p, q):
        d = p - q
        if not d.t:
            return True
        if not agree(p, q, self.vals):
            return False
        return self.is_zero(d)

    def is_zero(self, d):
        """d normalises to 0, named values written out one after the other (latest first) where needed"""
        for _ in range(60):
            if not d.t:
                return True
            if len(d.t) > self.limit:
                return False
            num, _ = clear(d)
            if not num.t:
                return True
            ds = [a for m in num.t for a, e in m if ATOMS[a].kind == "def"]
            if not ds:
                return False
            last = max(ds)
            R = Rebuild(lambda b: None)
            R.memo[last] = (0, self.sym(ATOMS[last].args[0]))
            d = R.sym(num)
        return False

    def eq0(self, d):
        r = self.sym(d)
        return r.__class__ is Sym and self.is_zero(r)

    def same_bool(self, p, q):
        if p.op != q.op or p.op not in ("lt", "le", "eq"):
            return p.key == q.key
        return self.equal(p.args[0], q.args[0]) or (p.op == "eq" and self.equal(p.args[0], -q.args[0]))

    def atom(self, a):
        got = self.memo.get(a)
        if got is not None:
            return got[1]
        A = ATOMS[a]
        if A.kind == "var" or not A.args:
            r = atom_sym(A)
            self.memo[a] = (0, r)
            return r
        r = super().atom(a)
        if len(r.t) == 1:
            (m, c), = r.t.items()
            if any(ATOMS[b].args for b, e in m):
                out = Sym({ONE: c})
                for b, e in m:
                    B = ATOMS[b]
                    x = self.find(B) if B.args else atom_sym(B)
                    out = out * (ipow(x, e) if e > 0 else divide(UNIT, ipow(x, -e)))
                r = out
        self.memo[a] = (0, r)
        return r

    def ratio(self, p, q):
        """constant r with p == r*q, else None"""
        for v in self.vals:
            x, y = ev(p, v), ev(q, v)
            if x == x and y == y and abs(x) < 1e100 and 1e-9 < abs(y) < 1e100:
                break
        else:
            return None
        f = Fraction(x / y).limit_denominator(100000)
        if not f or abs(float(f) - x / y) > 1e-7 * abs(x / y):
            return None
        return f if self.equal(p, q.scale(f)) else None

    def find(self, B):
        """canonical form of an atom"""
        got = self.canon.get(B.id)
        if got is not None:
            return got
        self.canon[B.id] = r = self._find(B)
        return r

    def _find(self, B):
        lst = self.reps.setdefault((B.kind, B.name, len(B.args)), [])
        k = B.kind
        for C in lst:
            if C is B:
                return atom_sym(C)
            if k in ("abs", "def", "sqrt", "inv", "log"):
                f = self.ratio(B.args[0], C.args[0])
                if f is None or (k in ("sqrt", "log") and f < 0):
                    continue
                c = atom_sym(C)
                return (c.scale(abs(f)) if k == "abs" else c.scale(f) if k == "def" else c.scale(sqrt_const(f)) if k == "sqrt" else
                        c.scale(1 / f) if k == "inv" else c + (math.log(float(f)) if f != 1 else 0))
            if all((self.equal(x, y) if x.__class__ is Sym and y.__class__ is Sym else self.same_bool(x, y) if isinstance(x, SymBool) and isinstance(y, SymBool) else x is y)
                   for x, y in zip(B.args, C.args)):
                return atom_sym(C)
        lst.append(B)
        return atom_sym(B)


def agree(p, q, vals):
    """False when numeric evaluation separates the two terms (ill-conditioned evaluations may differ,
    so agreement at one of the valuations suffices)"""
    seen = False
    for v in vals:
        x, y = ev(p, v), ev(q, v)
        if x == x and y == y and abs(x) < 1e100 and abs(y) < 1e100:
            seen = True
            if abs(x - y) <= 1e-6 * (1e-6 + abs(x) + abs(y)) + 1e-11:
                return True
    return not seen


def maybe_equal(x, y, n=6):
    import random
    return agree(x, y, [Valuation(rng=random.Random(s)) for s in range(21, 21 + n)])
