"""Exact rational functions over named real atoms.

A value is num/den, num a sparse multivariate polynomial with rational
coefficients, den a product of powers of registered factor polynomials.
This is only the *encoding* layer: every verdict is produced by handing the
resulting polynomial constraints to an SMT solver (see sym.py).

Numerical note: constants of the program are IEEE doubles; the real-number
semantics used here identifies coefficients that differ only by accumulated
rounding (relative 1e-12) when they cancel.
"""
from fractions import Fraction
import math
import z3

CANCEL_EPS = Fraction(1, 10**12)
EXACT_DIV_LIMIT = 600


class Atom:
    __slots__ = ("id", "kind", "name", "arg", "lo", "hi", "z", "pos", "nonneg", "maxarg", "origin")

    def __init__(self, id_, kind, name, arg=None, lo=None, hi=None, pos=False, nonneg=False):
        self.id = id_
        self.kind = kind
        self.name = name
        self.arg = arg
        self.lo = lo
        self.hi = hi
        self.pos = pos
        self.nonneg = nonneg or pos
        self.z = None
        self.origin = None


class Ctx:
    """atom and factor tables"""

    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.factors = []          # id -> poly
        self.factor_by_key = {}
        self.sqrt_atoms = set()
        self.no_exp = True
        self.cos_atoms = {}        # cos atom id -> sin atom id
        self.squaresum_cache = {}

    def atom(self, key, kind, name, **kw):
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, name, **kw)
            self.atoms.append(a)
            self.by_key[key] = a
            if kind == "sqrt":
                self.sqrt_atoms.add(a.id)
        return a


CTX = Ctx()


def reset():
    global CTX, ZERO, ONE
    CTX = Ctx()


# ---------------------------------------------------------------- polynomials
def p_const(c):
    return {(): c} if c else {}


def p_add_into(a, b, k=1):
    for m, c in b.items():
        if k != 1:
            c = c * k
        o = a.get(m)
        if o is None:
            a[m] = c
        else:
            s = o + c
            if s == 0 or abs(s) < CANCEL_EPS * abs(o):
                del a[m]
            else:
                a[m] = s
    return a


def p_add(a, b):
    return p_add_into(dict(a), b)


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()} if k else {}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    r = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


class TooLarge(Exception):
    pass


BIG = 1 << 14
BIGGEST = 0
LIMIT = 1 << 20


def note_big(n):
    global BIGGEST
    BIGGEST = max(BIGGEST, n)
    if n > LIMIT:
        raise TooLarge("expression too large")


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) < len(b):
        a, b = b, a
    if len(a) * len(b) > BIG:
        note_big(len(a) * len(b))
    r = {}
    for mb, cb in b.items():
        for ma, ca in a.items():
            m = m_mul(ma, mb)
            c = ca * cb
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                s = o + c
                if s == 0 or abs(s) < CANCEL_EPS * abs(o):
                    del r[m]
                else:
                    r[m] = s
    return r


def p_pow(a, n):
    r = {(): Fraction(1)}
    while n:
        if n & 1:
            r = p_mul(r, a)
        n >>= 1
        if n:
            a = p_mul(a, a)
    return r


def m_div(a, b):
    """a/b for monomials or None"""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0)
        if x < e:
            return None
        if x == e:
            del d[v]
        else:
            d[v] = x - e
    return tuple(sorted(d.items()))


def m_key(m, order=None):
    # graded lex
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


def p_exact_div(a, b):
    """exact division of polynomials or None"""
    if not b:
        return None
    lb = max(b, key=m_key_lex)
    cb = b[lb]
    rest = [(m, c) for m, c in b.items() if m != lb]
    a = dict(a)
    q = {}
    n = 0
    while a:
        la = max(a, key=m_key_lex)
        d = m_div(la, lb)
        if d is None:
            return None
        c = a.pop(la) / cb
        q[d] = c
        for m, cm in rest:
            mm = m_mul(m, d)
            o = a.get(mm)
            v = -c * cm
            if o is None:
                a[mm] = v
            else:
                s = o + v
                if s == 0 or abs(s) < CANCEL_EPS * abs(o):
                    del a[mm]
                else:
                    a[mm] = s
        n += 1
        if n > EXACT_DIV_LIMIT:
            return None
    return q


def m_key_lex(m):
    # lexicographic order with smaller atom ids more significant
    return tuple((-v, e) for v, e in m) + ((float("-inf"), 0),)


def p_key(a):
    return tuple(sorted(a.items()))


def p_vars(a, s=None):
    if s is None:
        s = set()
    for m in a:
        for v, _ in m:
            s.add(v)
    return s


def factor_id(poly):
    """register a polynomial as a denominator factor; returns (id, scale)
    with poly == scale * factor"""
    lead = max(poly, key=m_key_lex)
    c = poly[lead]
    if c != 1:
        poly = {m: x / c for m, x in poly.items()}
    k = p_key(poly)
    f = CTX.factor_by_key.get(k)
    if f is None:
        f = len(CTX.factors)
        CTX.factors.append(poly)
        CTX.factor_by_key[k] = f
    return f, c


def atom_factor(aid):
    return factor_id({((aid, 1),): Fraction(1)})[0]


def p_sign(poly):
    """+1 if provably > 0, -1 if provably < 0, else 0 (syntactic)"""
    if not poly:
        return 0
    strict = 0
    sg = None
    for m, c in poly.items():
        s = 1 if c > 0 else -1
        st = True
        for v, e in m:
            a = CTX.atoms[v]
            if a.pos:
                continue
            if a.nonneg or e % 2 == 0:
                st = False
                continue
            return 0
        if sg is None:
            sg = s
        elif sg != s:
            return 0
        if st:
            strict = 1
    return sg if strict else 0


class RF:
    __slots__ = ("n", "d", "_k")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = (frozenset(self.n.items()), frozenset(self.d.items()))
        return self._k

    def const(self):
        """Fraction if constant else None"""
        if self.d:
            return None
        n = self.n
        if not n:
            return Fraction(0)
        if len(n) == 1:
            return n.get(())
        return None

    def __repr__(self):
        return rf_str(self)


def rf_const(c):
    if not isinstance(c, Fraction):
        c = Fraction(c)
    return RF(p_const(c))


def rf_atom(a):
    return RF({((a.id, 1),): Fraction(1)})


def _norm(n, d):
    """cancel common factors between n and d, reduce sqrt powers"""
    n, d = _reduce(n, d)
    if not n:
        return RF({}, None)
    if not d:
        return RF(n, None)
    d = dict(d)
    for f in list(d):
        fp = CTX.factors[f]
        while d.get(f, 0) > 0:
            if len(fp) == 1:
                (fm, _), = fp.items()
                q = {}
                for m, c in n.items():
                    mm = m_div(m, fm)
                    if mm is None:
                        q = None
                        break
                    q[mm] = c
            else:
                if len(n) < len(fp) or len(n) > 4000:
                    break
                if not p_vars(fp) <= p_vars(n):
                    break
                q = p_exact_div(n, fp)
            if q is None:
                break
            n = q
            d[f] -= 1
            if d[f] == 0:
                del d[f]
    return RF(n, d)


def _reduce(n, d):
    sq = CTX.sqrt_atoms
    cs = CTX.cos_atoms
    if not sq and not cs:
        return n, d
    while True:
        top = -1
        for m in n:
            for v, e in m:
                if e >= 2 and v > top and (v in sq or v in cs):
                    top = v
        if top < 0:
            break
        a = CTX.atoms[top]
        parts = {}
        maxj = 0
        for m, c in n.items():
            e = 0
            mm = []
            for v, x in m:
                if v == top:
                    e = x
                else:
                    mm.append((v, x))
            j, r = divmod(e, 2)
            if j > maxj:
                maxj = j
            if r:
                mm = tuple(sorted(mm + [(top, 1)]))
            else:
                mm = tuple(mm)
            p_add_into(parts.setdefault(j, {}), {mm: c})
        if top in sq:
            N, D = a.arg.n, a.arg.d
        else:
            s = cs[top]
            N, D = {(): Fraction(1), ((s, 2),): Fraction(-1)}, {}
        Dp = den_poly(D) if D else None
        r = {}
        for j, p in parts.items():
            t = p
            if j:
                t = p_mul(t, p_pow(N, j))
            if Dp is not None and maxj - j:
                t = p_mul(t, p_pow(Dp, maxj - j))
            p_add_into(r, t)
        n = r
        if D:
            d = dict(d or {})
            for f, e in D.items():
                d[f] = d.get(f, 0) + e * maxj
    # rationalise 1/sqrt
    if d:
        for f in list(d):
            fp = CTX.factors[f]
            if len(fp) == 1:
                (fm, _), = fp.items()
                v = fm[0][0]
                if v in sq:
                    a = CTX.atoms[v]
                    e = d.pop(f)
                    d = dict(d)
                    # 1/s^e = s^e / arg^e
                    n2 = p_mul(n, {((v, e),): Fraction(1)})
                    r = RF(n2, d)
                    inv = rf_inv(a.arg)
                    for _ in range(e):
                        r = rf_mul(r, inv)
                    return r.n, r.d
    return n, d


def den_poly(d):
    r = {(): Fraction(1)}
    for f, e in d.items():
        r = p_mul(r, p_pow(CTX.factors[f], e))
    return r


def rf_add(a, b, sgn=1):
    if not b.n:
        return a
    if not a.n:
        return b if sgn == 1 else RF(p_neg(b.n), b.d)
    if not a.d and not b.d:
        return RF(p_add_into(dict(a.n), b.n, sgn))
    if a.d == b.d:
        return _norm(p_add_into(dict(a.n), b.n, sgn), a.d)
    an, bn = a.n, b.n
    d = dict(a.d)
    for f, e in b.d.items():
        x = d.get(f, 0)
        if e > x:
            an = p_mul(an, p_pow(CTX.factors[f], e - x))
            d[f] = e
    for f, e in d.items():
        x = b.d.get(f, 0)
        if e > x:
            bn = p_mul(bn, p_pow(CTX.factors[f], e - x))
    return _norm(p_add_into(dict(an), bn, sgn), d)


def rf_sub(a, b):
    return rf_add(a, b, -1)


def rf_neg(a):
    return RF(p_neg(a.n), a.d)


def rf_mul(a, b):
    if not a.n or not b.n:
        return RF({})
    if not a.d and not b.d and not CTX.sqrt_atoms and not CTX.cos_atoms:
        return RF(p_mul(a.n, b.n))
    # pre-cancel whole numerators against denominators
    an, bn, ad, bd = a.n, b.n, a.d, b.d
    if bd:
        an, bd = _precancel(an, bd)
    if ad:
        bn, ad = _precancel(bn, ad)
    d = dict(ad)
    for f, e in bd.items():
        d[f] = d.get(f, 0) + e
    return _norm(p_mul(an, bn), d)


def _precancel(n, d):
    d2 = None
    for f in d:
        fp = CTX.factors[f]
        e = d[f]
        while e > 0:
            if len(fp) == 1:
                (fm, _), = fp.items()
                q = {}
                for m, c in n.items():
                    mm = m_div(m, fm)
                    if mm is None:
                        q = None
                        break
                    q[mm] = c
            elif len(n) < len(fp) or len(n) > 4000:
                q = None
            else:
                q = p_exact_div(n, fp)
            if q is None:
                break
            n = q
            e -= 1
        if e != d[f]:
            if d2 is None:
                d2 = dict(d)
            if e:
                d2[f] = e
            else:
                del d2[f]
    return n, (d if d2 is None else d2)


def rf_inv(a):
    n = a.n
    if not n:
        raise ZeroDivisionError
    # split monomial content
    it = iter(n)
    cont = dict(next(it))
    for m in it:
        if not cont:
            break
        dm = dict(m)
        for v in list(cont):
            e = min(cont[v], dm.get(v, 0))
            if e:
                cont[v] = e
            else:
                del cont[v]
    d = {}
    if cont:
        cm = tuple(sorted(cont.items()))
        n = {m_div(m, cm): c for m, c in n.items()}
        for v, e in cont.items():
            f = atom_factor(v)
            d[f] = d.get(f, 0) + e
    scale = Fraction(1)
    if len(n) == 1:
        scale = n[()]
    else:
        f, scale = factor_id(n)
        d[f] = d.get(f, 0) + 1
    num = den_poly(a.d) if a.d else {(): Fraction(1)}
    return _norm(p_scale(num, 1 / scale), d)


def rf_div(a, b):
    cb = b.const()
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError
        return RF(p_scale(a.n, 1 / cb), a.d)
    if not a.n:
        return a
    return rf_mul(a, rf_inv(b))


def rf_powi(a, n):
    if n == 0:
        return rf_const(1)
    if n < 0:
        return rf_inv(rf_powi(a, -n))
    r = None
    b = a
    while n:
        if n & 1:
            r = b if r is None else rf_mul(r, b)
        n >>= 1
        if n:
            b = rf_mul(b, b)
    return r


def _isqrt_frac(c):
    p, q = c.numerator, c.denominator
    sp, sq = math.isqrt(p), math.isqrt(q)
    if sp * sp == p and sq * sq == q:
        return Fraction(sp, sq)
    # 60-digit approximation
    k = 10**40
    return Fraction(math.isqrt(p * q * k * k), q * k)


def p_sqrt(a):
    """r with r*r == a (up to cancellation noise), or None"""
    if not a:
        return {}
    la = max(a, key=m_key_lex)
    c = a[la]
    if c <= 0 or any(e % 2 for _, e in la):
        return None
    p, q = c.numerator, c.denominator
    sp, sq = math.isqrt(p), math.isqrt(q)
    if sp * sp != p or sq * sq != q:
        return None
    lr = tuple((v, e // 2) for v, e in la)
    cr = Fraction(sp, sq)
    r = {lr: cr}
    rem = dict(a)
    del rem[la]
    n = 0
    while rem:
        lm = max(rem, key=m_key_lex)
        d = m_div(lm, lr)
        if d is None or n > 400 or m_key_lex(d) >= m_key_lex(lr):
            return None
        t = {d: rem[lm] / (2 * cr)}
        # rem -= 2 r t + t^2
        u = p_mul(t, p_add(p_scale(r, 2), t))
        ok = u.get(lm)
        p_add_into(rem, u, -1)
        rem.pop(lm, None)
        r[d] = t[d]
        n += 1
    return r


def _key12(p):
    return tuple(sorted((m, "%.11e" % c) for m, c in p.items()))


def rf_sqrt_const(c):
    """exact sqrt of a positive rational: rational, or rational times the atom sqrt(N)"""
    p, q = c.numerator, c.denominator
    sp, sq = math.isqrt(p), math.isqrt(q)
    if sp * sp == p and sq * sq == q:
        return rf_const(Fraction(sp, sq))
    N, out = p * q, Fraction(1, q)
    for k in _PRIMES:
        while N % (k * k) == 0:
            N //= k * k
            out *= k
    r = math.isqrt(N)
    if r * r == N:
        return rf_const(out * r)
    if N > 10**9:
        return rf_const(_isqrt_frac(c))
    at = CTX.atom(("sqrtc", N), "sqrt", "sqrt_%d" % N, arg=rf_const(N), nonneg=True, pos=True)
    return rf_mul(rf_const(out), rf_atom(at))


_PRIMES = [k for k in range(2, 1000) if all(k % j for j in range(2, int(k**.5) + 1))]


def rf_sqrt(a, sign=None, memo=None):
    """square root; sign(poly) -> +1/-1/0 decides the sign of a polynomial where syntax does not"""
    c = a.const()
    if c is not None:
        if c < 0:
            raise ValueError("sqrt of negative constant")
        return rf_const(_isqrt_frac(c))

    if memo is None:
        return _rf_sqrt(a, sign)
    hit = memo.get(("sqrt", a.key))
    if hit is None:
        hit = memo[("sqrt", a.key)] = _rf_sqrt(a, sign)
    return hit


def _rf_sqrt(a, sign):
    def sg(poly):
        s = p_sign(poly)
        return s if s or sign is None else sign(poly)
    n = a.n
    outer = rf_const(1)      # result = outer * sqrt(n)
    keep = {}
    for f, e in (a.d or {}).items():
        fp = CTX.factors[f]
        h = e // 2
        s = sg(fp)
        if not s:
            keep[f] = e
            continue
        if e % 2:            # 1/f^e = f / f^(e+1)
            if len(n) * len(fp) > 400:
                keep[f] = 1
            else:
                n = p_mul(n, fp)
                h += 1
        if h:
            o = RF({(): Fraction(1)}, {f: h})
            outer = rf_mul(outer, o if s > 0 or h % 2 == 0 else rf_neg(o))
    if not keep:
        n, _ = _reduce(n, {}) if CTX.sqrt_atoms or CTX.cos_atoms else (n, None)
    # constant and monomial content
    lead = max(n, key=m_key_lex)
    c = abs(n[lead])
    if c != 1:
        outer = rf_mul(outer, rf_sqrt_const(c))
        n = {m: x / c for m, x in n.items()}
    com = None
    for m in n:
        dm = dict(m)
        com = dm if com is None else {v: min(e, dm[v]) for v, e in com.items() if v in dm}
    com = {v: e - e % 2 for v, e in com.items() if e >= 2 and (CTX.atoms[v].nonneg or e % 4 == 0 or sg({((v, 1),): Fraction(1)}))}
    if com:
        cm = tuple(sorted(com.items()))
        n = {m_div(m, cm): x for m, x in n.items()}
        h = RF({tuple((v, e // 2) for v, e in cm): Fraction(1)})
        neg = sum(1 for v, e in cm if (e // 2) % 2 and not CTX.atoms[v].nonneg and sg({((v, 1),): Fraction(1)}) < 0)
        outer = rf_mul(outer, rf_neg(h) if neg % 2 else h)
    if n == {(): Fraction(1)} and not keep:
        return outer
    if len(n) <= 3000:
        r = p_sqrt(n)
        if r is not None and not keep:
            s = sg(r)
            if s:
                return rf_mul(outer, RF(r if s > 0 else p_neg(r)))
    # squared factors already met elsewhere
    if len(n) > 1:
        for f, fp in enumerate(CTX.factors):
            if len(fp) < 2 or len(fp) > 12 or len(n) > 120:
                continue
            q = p_exact_div(n, fp)
            if q is None:
                continue
            q2 = p_exact_div(q, fp)
            s = q2 is not None and sg(fp)
            if s:
                n = q2
                outer = rf_mul(outer, RF(fp if s > 0 else p_neg(fp)))
                if n == {(): Fraction(1)} and not keep:
                    return outer
    arg = RF(n, keep) if keep else RF(n)
    key = ("sqrt", _key12(n), tuple(sorted(keep.items())))
    at = CTX.atom(key, "sqrt", "sqrt%d" % len(CTX.atoms), arg=arg, nonneg=True, pos=(rf_sign(arg) > 0))
    return rf_mul(outer, rf_atom(at))


def rf_sign(a):
    s = p_sign(a.n)
    if not s:
        return 0
    for f, e in a.d.items():
        if e % 2:
            fs = p_sign(CTX.factors[f])
            if not fs:
                return 0
            s *= fs
    return s


def rf_nonneg(a):
    """syntactically >= 0"""
    c = a.const()
    if c is not None:
        return c >= 0
    s = None
    for m, c in a.n.items():
        for v, e in m:
            if not (CTX.atoms[v].nonneg or e % 2 == 0):
                return False
        if s is None:
            s = c > 0
        elif s != (c > 0):
            return False
    s = 1 if s else -1
    for f, e in a.d.items():
        if e % 2:
            fs = p_sign(CTX.factors[f])
            if not fs:
                return False
            s *= fs
    return s > 0


def rf_fn(name, args):
    """uninterpreted function of rational functions, canonical by key"""
    key = (name,) + tuple(x.key for x in args)
    fresh = key not in CTX.by_key
    if name == "exp":
        CTX.no_exp = False
    at = CTX.atom(key, "fn", "%s_%d" % (name, len(CTX.atoms)), arg=args, pos=(name == "exp"))
    if fresh:
        at.origin = name
    if name == "cos" and at.id not in CTX.cos_atoms:
        s = CTX.atom(("sin",) + key[1:], "fn", "sin_%d" % len(CTX.atoms), arg=args)
        s.origin = "sin"
        CTX.cos_atoms[at.id] = s.id
    return rf_atom(at)


def exp_terms(p):
    """[(coefficient, exponent as RF)] when every term of the polynomial is a constant times exponentials, else None"""
    out = []
    for m, c in p.items():
        e = RF({})
        for v, k in m:
            a = CTX.atoms[v]
            if a.kind != "fn" or a.origin != "exp":
                return None
            e = rf_add(e, rf_mul(rf_const(k), a.arg[0]))
        out.append((c, e))
    return out


def exp_monomial(r):
    """(c, A) when r is c exp(A), else None"""
    if len(r.n) != 1:
        return None
    t = exp_terms(r.n)
    if not t:
        return None
    c, e = t[0]
    for f, k in r.d.items():
        q = CTX.factors[f]
        u = exp_terms(q) if len(q) == 1 else None
        if not u:
            return None
        c /= u[0][0] ** k
        e = rf_sub(e, rf_mul(rf_const(k), u[0][1]))
    return c, e


def log_cmp(n):
    """c1 exp(A) + c2 exp(B) has the sign of the result (a comparison of exponents), else None"""
    if len(n) != 2 or CTX.no_exp:
        return None
    t = exp_terms(n)
    if not t:
        return None
    (c1, e1), (c2, e2) = t
    if (c1 > 0) == (c2 > 0):
        return None
    if c1 < 0:
        (c1, e1), (c2, e2) = (c2, e2), (c1, e1)
    return rf_sub(rf_add(e1, rf_const(Fraction(math.log(c1 / -c2)))), e2)


def rf_str(a):
    def ps(p):
        if not p:
            return "0"
        return " + ".join("%s%s" % (c if c.denominator < 10**6 else float(c),
                                    "".join("*%s%s" % (CTX.atoms[v].name, "" if e == 1 else "^%d" % e) for v, e in m))
                          for m, c in list(p.items())[:12]) + (" + ..." if len(p) > 12 else "")
    if a.d:
        return "(%s)/(%s)" % (ps(a.n), ps(den_poly(a.d)))
    return ps(a.n)


# ----------------------------------------------------------------- evaluation
def eval_atom(aid, env, cache):
    v = cache.get(aid)
    if v is not None:
        return v
    a = CTX.atoms[aid]
    if a.kind == "sqrt":
        x = eval_rf(a.arg, env, cache)
        v = math.sqrt(x) if x >= 0 else float("nan")
    elif a.kind == "fn":
        xs = [eval_rf(x, env, cache) for x in a.arg]
        try:
            v = getattr(math, a.origin)(*xs)
        except (ValueError, OverflowError, AttributeError):
            v = float("nan")
    else:
        v = float(env[a.name])
    cache[aid] = v
    return v


def eval_poly(p, env, cache):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for v, e in m:
            t *= eval_atom(v, env, cache) ** e
        s += t
    return s


def eval_rf(a, env, cache):
    s = eval_poly(a.n, env, cache)
    for f, e in a.d.items():
        x = eval_poly(CTX.factors[f], env, cache)
        if x == 0:
            return float("nan")
        s /= x ** e
    return s


# ------------------------------------------------------------------------- z3
def z_atom(aid):
    a = CTX.atoms[aid]
    if a.z is None:
        a.z = z3.Real(a.name)
    return a.z


def z_poly(p):
    ts = []
    for m, c in p.items():
        fs = []
        if c != 1 or not m:
            fs.append(z3.Q(c.numerator, c.denominator))
        for v, e in m:
            z = z_atom(v)
            for _ in range(e):
                fs.append(z)
        ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
    if not ts:
        return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def strip_content(n):
    """drop monomial content consisting of strictly positive atoms and scale
    to small coefficients (sign preserving)"""
    if not n:
        return n
    it = iter(n)
    cont = {v: e for v, e in next(it) if CTX.atoms[v].pos}
    for m in it:
        if not cont:
            break
        dm = dict(m)
        for v in list(cont):
            e = min(cont[v], dm.get(v, 0))
            if e:
                cont[v] = e
            else:
                del cont[v]
    if cont:
        cm = tuple(sorted(cont.items()))
        n = {m_div(m, cm): c for m, c in n.items()}
    mx = max(abs(c) for c in n.values())
    if mx != 1:
        n = {m: c / mx for m, c in n.items()}
    return n


def signed_num(a):
    """polynomial with the same sign as a wherever a is defined"""
    n = a.n
    neg = False
    for f, e in a.d.items():
        if e % 2:
            s = p_sign(CTX.factors[f])
            if s == 0:
                n = p_mul(n, CTX.factors[f])
            elif s < 0:
                neg = not neg
    if neg:
        n = p_neg(n)
    return n


def collect_atoms(polys):
    """closure of atoms used (through sqrt/fn definitions)"""
    seen = set()
    todo = set()
    for p in polys:
        todo |= p_vars(p)
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        a = CTX.atoms[v]
        if a.kind == "sqrt":
            todo |= p_vars(a.arg.n)
            for f in a.arg.d:
                todo |= p_vars(CTX.factors[f])
        elif a.kind == "fn" and a.origin in ("sin", "cos"):
            for c, s in CTX.cos_atoms.items():
                if v in (c, s):
                    todo |= {c, s}
    return seen


def atom_constraints(ids, with_defs=True):
    cs = []
    for v in sorted(ids):
        a = CTX.atoms[v]
        z = z_atom(v)
        if a.lo is not None:
            cs.append(z >= z3.Q(a.lo.numerator, a.lo.denominator) if not a.pos or a.lo != 0 else z > 0)
        elif a.pos:
            cs.append(z > 0)
        elif a.nonneg:
            cs.append(z >= 0)
        if a.hi is not None:
            cs.append(z <= z3.Q(a.hi.numerator, a.hi.denominator))
        if a.kind == "sqrt" and with_defs:
            cs.append(z * z * z_poly(den_poly(a.arg.d)) == z_poly(a.arg.n))
        if a.kind == "fn":
            if v in CTX.cos_atoms:
                s = z_atom(CTX.cos_atoms[v])
                cs.append(z * z + s * s == 1)
                cs.append(z <= 1)
                cs.append(z >= -1)
                cs.append(s <= 1)
                cs.append(s >= -1)
    return cs
