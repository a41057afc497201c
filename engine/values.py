"""Symbolic values.

Doubles are exact reals: a symbolic double is a polynomial (canonical, rational
coefficients) over real variables.  Square roots, inverses, trigonometric pairs etc. are
fresh variables with defining axioms; some of the axioms are also used as rewrite rules so
that the polynomials stay canonical (s*s -> P for s = sqrt(P), v*w -> 1 for w = 1/v ...).
Everything in this file only builds formulas; the verdicts come from solver.py."""
from fractions import Fraction
import math

MULLIMIT = 6000
MONOLIMIT = 1500


class EngineUnsupported(Exception):
    pass


PIQ = Fraction(repr(math.pi))
QPI = math.pi / 4


def toq(x):
    """rational for a concrete double: the simplest one that rounds to it"""
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if x == math.floor(x) and abs(x) < 1e15:
        return int(x)
    f = Fraction(repr(x))
    n = x / QPI                               # multiples of pi/4 stand for the exact multiple
    if abs(n) < 65 and abs(n - round(n)) < 1e-14 and round(n):
        return round(n) * PIQ / 4
    if f.denominator > 10**9:
        g = f.limit_denominator(999)      # 1.0/3.0 stands for one third
        if g and g.numerator / g.denominator == x:
            return g
    return f


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_k", "_v")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._v = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def vars(self):
        if self._v is None:
            s = set()
            for m in self.t:
                for v, e in m:
                    s.add(v)
            self._v = frozenset(s)
        return self._v

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), 0)

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items())[:12]:
            out.append("%s%s" % (c, "".join("*v%d^%d" % (v, e) for v, e in m)))
        if len(self.t) > 12:
            out.append("...(%d)" % len(self.t))
        return " + ".join(out)


class SReal:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "SReal(%r)" % self.p


class RealBits:
    """the 64 bit pattern of a symbolic double, only passed around"""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r


class SBool:
    """op: '<' '<=' '==' (poly OP 0) | 'not' | 'and' | 'or' | 'bv' (z3 bool, varset)"""
    __slots__ = ("op", "a", "_v", "_z")

    def __init__(self, op, a, v=None):
        self.op = op
        self.a = a
        self._v = v
        self._z = None

    def vars(self):
        if self._v is None:
            o = self.op
            if o in ("<", "<=", "=="):
                self._v = self.a.vars()
            elif o == "not":
                self._v = self.a.vars()
            else:
                s = frozenset()
                for x in self.a:
                    s |= x.vars()
                self._v = s
        return self._v

    def __repr__(self):
        if self.op in ("<", "<=", "=="):
            return "(%r %s 0)" % (self.a, self.op)
        return "(%s %r)" % (self.op, self.a)


class SBV:
    """symbolic bit vector: z3 expression; .b is set when it is zext(SBool)"""
    __slots__ = ("e", "w", "v", "b")

    def __init__(self, e, w, v, b=None):
        self.e = e
        self.w = w
        self.v = v
        self.b = b


def band(*xs):
    out = []
    for x in xs:
        if x is True or x == 1 and isinstance(x, int):
            continue
        if x is False or isinstance(x, int):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SBool("and", out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False or (isinstance(x, int) and x == 0):
            continue
        if isinstance(x, int):
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SBool("or", out)


def bnot(x):
    if isinstance(x, int):
        return not x
    if x.op == "not":
        return x.a
    if x.op == "<":
        return SBool("<=", pneg(x.a))
    if x.op == "<=":
        return SBool("<", pneg(x.a))
    return SBool("not", x)


def pneg(p):
    return Poly({m: -c for m, c in p.t.items()})


def padd(a, b):
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m)
        if n is None:
            t[m] = c
        else:
            n = n + c
            if n == 0:
                del t[m]
            else:
                t[m] = norm(n)
    return Poly(t)


def psub(a, b):
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m)
        if n is None:
            t[m] = -c
        else:
            n = n - c
            if n == 0:
                del t[m]
            else:
                t[m] = norm(n)
    return Poly(t)


def pscale(a, k):
    if k == 0:
        return Poly({})
    if k == 1:
        return a
    return Poly({m: norm(c * k) for m, c in a.t.items()})


def pconst(k):
    k = norm(k)
    return Poly({(): k} if k != 0 else {})


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mdiv(m, d):
    """m/d or None"""
    dd = dict(m)
    for v, e in d:
        k = dd.get(v, 0) - e
        if k < 0:
            return None
        if k == 0:
            del dd[v]
        else:
            dd[v] = k
    return tuple(sorted(dd.items()))


def mkey(m):
    """graded lexicographic monomial order"""
    return (sum(e for _, e in m), [(-v, e) for v, e in m])


_mk = {}


def mkeyc(m):
    k = _mk.get(m)
    if k is None:
        if len(_mk) > 200000:
            _mk.clear()
        k = _mk[m] = mkey(m)
    return k


def pdivexact(a, b):
    """a/b when b divides a as polynomials, else None"""
    if not a.t:
        return a
    nb = len(b.t)
    if nb == 0 or nb > 80 or len(a.t) > 3000 or len(a.t) < 1:
        return None
    if not b.vars() <= a.vars():
        return None
    lb = max(b.t, key=mkeyc)
    if mdiv(max(a.t, key=mkeyc), lb) is None or mdiv(min(a.t, key=mkeyc), min(b.t, key=mkeyc)) is None:
        return None
    cb = Fraction(b.t[lb])
    rest = [(m, c) for m, c in b.t.items() if m != lb]
    rem = dict(a.t)
    q = {}
    n = 0
    while rem:
        n += 1
        if n > 600:
            return None
        m = max(rem, key=mkeyc)
        d = mdiv(m, lb)
        if d is None:
            return None
        k = Fraction(rem.pop(m)) / cb
        q[d] = norm(k)
        for m2, c2 in rest:
            mm = mmul(d, m2)
            x = rem.get(mm, 0) - k * c2
            if x == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = x
        if len(rem) > 4000:
            return None
    return Poly(q)


def smul(s, t):
    """product of two signs"""
    if s == "0" or t == "0":
        return "0"
    if s == "!=" or t == "!=":
        return "!=" if {s, t} <= {"!=", "+", "-"} else None
    neg = (s in ("-", "<=")) != (t in ("-", "<="))
    strict = s in "+-" and t in "+-"
    return ("-" if neg else "+") if strict else ("<=" if neg else ">=")


SNEG = {"+": "-", "-": "+", "0": "0", ">=": "<=", "<=": ">=", "!=": "!="}
SBOTH = {(">=", "!="): "+", ("<=", "!="): "-", (">=", "<="): "0"}


class Var:
    __slots__ = ("id", "name", "kind", "lo", "hi", "axioms", "arg", "z", "inp", "lo0", "hi0", "grp")

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.kind = kind
        self.lo = None
        self.hi = None
        self.axioms = []
        self.arg = None
        self.z = None
        self.inp = False
        self.grp = None


def ratsqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a = math.isqrt(c.numerator)
    b = math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return norm(Fraction(a, b))
    return None


class Ctx:
    """variables and rewrite rules of one path"""

    def __init__(self):
        self.vars = []
        self.rules = {}       # var id -> list of (lead mono, replacement Poly)
        self.memo = {}
        self.nabstract = 0
        self.signs = {}       # monic polynomial -> sign known on this path
        self.factors = []     # (monic polynomial, key) usable for trial division

    def monic(self, p):
        c = Fraction(p.t[max(p.t, key=mkeyc)])
        if c == 1:
            return p, 1
        return pscale(p, 1 / c), (1 if c > 0 else -1)

    def record_sign(self, p, s):
        if p.is_const():
            return
        p, sg = self.monic(p)
        if sg < 0:
            s = SNEG[s]
        k = p.key()
        o = self.signs.get(k)
        if o is None:
            self.signs[k] = s
            if len(p.t) >= 2 and () not in p.t and len(p.t) <= 80:
                self.factors.append((p, k))
        elif o in ("+", "-", "0"):
            pass
        elif s in ("+", "-", "0"):
            self.signs[k] = s
        else:
            self.signs[k] = SBOTH.get((o, s)) or SBOTH.get((s, o)) or o

    def learn_sign(self, b):
        """b: an atom that holds on this path"""
        if b.op == "not":
            if b.a.op == "==":
                self.record_sign(b.a.a, "!=")
            return
        p = b.a
        c = p.const()
        self.record_sign(p, {"<": "-", "<=": "<=", "==": "0"}[b.op])
        if c != 0:
            q = psub(p, pconst(c))
            if b.op == "==":
                self.record_sign(q, "-" if c > 0 else "+")
            elif c > 0:
                self.record_sign(q, "-")

    def known_sign(self, p):
        p1, sg = self.monic(p)
        s = self.signs.get(p1.key())
        if s is None:
            # the constant only shifts away from zero
            c = p1.const()
            if c != 0:
                q = psub(p1, pconst(c))
                t = self.sign0(q)
                if t in ("+", ">=", "0") and c > 0:
                    s = "+"
                elif t in ("-", "<=", "0") and c < 0:
                    s = "-"
            elif len(p1.t) >= 2:
                for f, k in self.factors:
                    q = pdivexact(p1, f) if len(f.t) < len(p1.t) else None
                    if q is not None:
                        t = self.sign(q)
                        if t is not None:
                            s = smul(self.signs[k], t)
                            if s is not None:
                                break
                else:
                    # common monomial factor
                    ms = list(p1.t)
                    g = dict(ms[0])
                    for m in ms[1:]:
                        dm = dict(m)
                        g = {v: min(e, dm.get(v, 0)) for v, e in g.items() if v in dm}
                        if not g:
                            break
                    if g:
                        g = tuple(sorted(g.items()))
                        t = self.mono_sign(g)
                        if t is not None:
                            u = self.sign(Poly({mdiv(m, g): c for m, c in p1.t.items()}))
                            if u is not None:
                                s = smul(t, u)
            elif len(p1.t) == 1:
                s = self.mono_sign(next(iter(p1.t)))
        if s is not None and sg < 0:
            s = SNEG[s]
        return s

    def mono_sign(self, m):
        r = "+"
        for v, e in m:
            x = self.signs.get((( ((v, 1),), 1),))
            vv = self.vars[v]
            if x not in ("+", "-"):
                if vv.lo is not None and vv.lo > 0:
                    x = "+"
                elif vv.hi is not None and vv.hi < 0:
                    x = "-"
                elif x is None and vv.lo is not None and vv.lo >= 0:
                    x = ">="
                elif x is None and vv.hi is not None and vv.hi <= 0:
                    x = "<="
            if e % 2 == 0:
                x = "+" if x in ("+", "-", "!=") else ("0" if x == "0" else ">=")
            if x is None:
                return None
            r = smul(r, x)
            if r is None:
                return None
        return r

    # ---- variables
    def new(self, name, kind):
        v = Var(len(self.vars), name, kind)
        self.vars.append(v)
        return v

    def var(self, v, e=1):
        return Poly({((v.id, e),): 1})

    def add_rule(self, lead, repl):
        for v, e in lead:
            self.rules.setdefault(v, []).append((lead, repl))

    # ---- arithmetic
    def reduce_into(self, t, work):
        rules = self.rules
        n = 0
        while work:
            m, c = work.pop()
            n += 1
            if n > 200000:
                raise EngineUnsupported("polynomial reduction blow-up")
            hit = None
            for v, e in m:
                rl = rules.get(v)
                if rl:
                    for lead, repl in rl:
                        q = mdiv(m, lead)
                        if q is not None:
                            hit = (q, repl)
                            break
                    if hit:
                        break
            if hit is None:
                k = t.get(m)
                if k is None:
                    t[m] = c
                else:
                    k = k + c
                    if k == 0:
                        del t[m]
                    else:
                        t[m] = norm(k)
            else:
                q, repl = hit
                for m2, c2 in repl.t.items():
                    work.append((mmul(q, m2), norm(c * c2)))

    def mul(self, a, b):
        if a.is_const():
            return pscale(b, a.const())
        if b.is_const():
            return pscale(a, b.const())
        if len(a.t) * len(b.t) > MULLIMIT:
            if len(a.t) >= len(b.t):
                a = self.abstract(a)
            else:
                b = self.abstract(b)
            return self.mul(a, b)
        t = {}
        work = []
        rules = self.rules
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mmul(m1, m2)
                c = c1 * c2
                need = False
                if m1 and m2:
                    for v, e in m:
                        if v in rules:
                            need = True
                            break
                if need:
                    work.append((m, norm(c)))
                    if len(work) > 64:
                        self.reduce_into(t, work)
                else:
                    k = t.get(m)
                    if k is None:
                        t[m] = norm(c)
                    else:
                        k = k + c
                        if k == 0:
                            del t[m]
                        else:
                            t[m] = norm(k)
        if work:
            self.reduce_into(t, work)
        r = Poly(t)
        if len(t) > MONOLIMIT:
            r = self.abstract(r)
        return r

    def abstract(self, p):
        """fresh variable equal to p (keeps expressions small)"""
        k = ("def", p.key())
        r = self.memo.get(k)
        if r is None:
            v = self.new("d%d" % len(self.vars), "def")
            v.arg = p
            lo, hi = self.bounds(p)
            v.lo, v.hi = lo, hi
            r = self.var(v)
            v.axioms.append(SBool("==", psub(r, p)))
            self.memo[k] = r
            self.nabstract += 1
        return r

    def pow(self, p, n):
        r = pconst(1)
        for _ in range(n):
            r = self.mul(r, p)
        return r

    # ---- bounds (exact interval arithmetic over the declared ranges)
    def bounds(self, p):
        lo = hi = Fraction(0)
        for m, c in p.t.items():
            l = h = Fraction(1)
            for v, e in m:
                vv = self.vars[v]
                a, b = vv.lo, vv.hi
                if e % 2 == 0:
                    # x^e in [min,max]
                    if a is not None and a >= 0:
                        x = a ** e
                    elif b is not None and b <= 0:
                        x = b ** e
                    else:
                        x = Fraction(0)
                    y = None if a is None or b is None else max(abs(a), abs(b)) ** e
                else:
                    x = None if a is None else (a ** e)
                    y = None if b is None else (b ** e)
                l, h = imul(l, h, x, y)
                if l is None and h is None:
                    break
            if c < 0:
                l, h = (None if h is None else h * c), (None if l is None else l * c)
            else:
                l, h = (None if l is None else l * c), (None if h is None else h * c)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def sign(self, p):
        """'+', '-', '0', '>=', '<=', '!=' or None; a syntactic pre-check only"""
        s = self.sign0(p)
        if s in ("+", "-", "0"):
            return s
        k = self.known_sign(p)
        if k is None:
            return s
        if s is None or k in ("+", "-", "0"):
            return k
        return SBOTH.get((s, k)) or s

    def sign0(self, p):
        if p.is_const():
            c = p.const()
            return "0" if c == 0 else ("+" if c > 0 else "-")
        lo, hi = self.bounds(p)
        if lo is not None:
            if lo > 0:
                return "+"
            if lo >= 0:
                return ">="
        if hi is not None:
            if hi < 0:
                return "-"
            if hi <= 0:
                return "<="
        return None

    def invvars(self, p):
        """[(inverse variable, largest exponent)] of p, latest first"""
        d = {}
        for m in p.t:
            for v, e in m:
                if self.vars[v].kind == "inv" and d.get(v, 0) < e:
                    d[v] = e
        return sorted(d.items(), reverse=True)

    def clear(self, p, positive):
        """multiply p by (powers of) its denominators; positive: only by something positive.
        Returns (p', D) with p' = p*D, D the list of (arg, exponent), or (p, None) when too large"""
        D = []
        for _ in range(12):
            iv = self.invvars(p)
            if not iv:
                return p, D
            w, e = iv[0]
            a = self.vars[w].arg
            if len(a.t) * len(p.t) > 4000:
                return p, D
            neg = False
            if positive and e % 2:
                s = self.sign(a)
                if s == "-":
                    neg = True
                elif s != "+":
                    e += 1
            f = self.pow(a, e)
            if neg:
                f = pneg(f)
            n0 = self.nabstract
            q = self.mul(f, p)
            if self.nabstract != n0:
                return p, D
            p = q
            D.append((a, e))
        return p, D

    def cmp(self, op, p):
        """SBool / bool for  p op 0"""
        r = self.cmp1(op, p)
        if r.__class__ is SBool and any(self.vars[v].kind == "inv" for v in p.vars()):
            q, D = self.clear(p, True)
            if D:
                return self.cmp1(op, q)
        return r

    def cmp1(self, op, p):
        s = self.sign(p)
        if op == "<":
            if s == "-":
                return True
            if s in ("+", "0", ">="):
                return False
        elif op == "<=":
            if s in ("-", "0", "<="):
                return True
            if s == "+":
                return False
        else:
            if s == "0":
                return True
            if s in ("+", "-", "!="):
                return False
        # scale to make constants tidy
        return SBool(op, p)

    def div(self, a, b):
        """exact quotient of two polynomials as a polynomial, or None"""
        r = pdivexact(a, b)
        if r is None and (self.invvars(a) or self.invvars(b)):
            # bring both over a common denominator
            n = 0
            while n < 10:
                n += 1
                iv = max(self.invvars(a)[:1] + self.invvars(b)[:1], default=None)
                if iv is None:
                    break
                w = iv[0]
                e = max([x for v, x in self.invvars(a) + self.invvars(b) if v == w])
                f = self.pow(self.vars[w].arg, e)
                if len(f.t) * max(len(a.t), len(b.t)) > 4000:
                    return None
                a, b = self.mul(a, f), self.mul(b, f)
            if b.is_const():
                return pscale(a, Fraction(1) / Fraction(b.const())) if b.const() != 0 else None
            r = pdivexact(a, b)
        return r

    # ---- derived variables
    rootof = None     # square root with sign decisions, set by the runtime

    def sqrt(self, p):
        """p known to be >= 0 on this path"""
        k = ("sqrt", p.key())
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self._sqrt(p)
        self.memo[k] = r
        return r

    def _sqrt(self, p):
        if p.is_const():
            c = p.const()
            q = ratsqrt(c)
            if q is not None:
                return pconst(q)
            return pconst(toq(math.sqrt(float(c))))
        # content / even monomial factor
        if len(p.t) == 1:
            (m, c), = p.t.items()
            q = ratsqrt(c)
            if q is not None and all(e % 2 == 0 for _, e in m):
                root = Poly({tuple((v, e // 2) for v, e in m): q})
                s = self.sign(root)
                if s in ("+", ">=", "0"):
                    return root
                if s in ("-", "<="):
                    return pneg(root)
        # common square factor of all monomials, e.g. r^2*c^2 + r^2*s^2
        v = self.new("q%d" % len(self.vars), "sqrt")
        v.arg = p
        v.lo = Fraction(0)
        lo, hi = self.bounds(p)
        if hi is not None:
            v.hi = Fraction(math.sqrt(float(hi)) * 1.0001 + 1e-9).limit_denominator(10 ** 6) + Fraction(1, 10 ** 5)
        if lo is not None and lo > 0:
            v.lo = max(Fraction(0), Fraction(math.sqrt(float(lo)) * 0.999).limit_denominator(10 ** 9) - Fraction(1, 10 ** 8))
        r = self.var(v)
        sq = Poly({((v.id, 2),): 1})
        v.axioms.append(SBool("<=", pneg(r)))
        v.axioms.append(SBool("==", psub(sq, p)))
        self.add_rule(((v.id, 2),), p)
        return r

    def inv(self, p):
        """1/p, p known to be nonzero on this path"""
        if p.is_const():
            return pconst(Fraction(1) / Fraction(p.const()))
        # pull out the rational content so that inv(2x) and inv(x) share a variable
        m0 = max(p.t)
        c0 = p.t[m0]
        if c0 != 1:
            return pscale(self.inv(pscale(p, Fraction(1) / Fraction(c0))), Fraction(1) / Fraction(c0))
        k = ("inv", p.key())
        r = self.memo.get(k)
        if r is not None:
            return r
        if len(p.t) == 1 and len(m0) >= 1 and not (len(m0) == 1 and m0[0][1] == 1):
            # product of powers: product of inverses
            r = pconst(1)
            for v, e in m0:
                w = self.inv(self.var(self.vars[v]))
                r = self.mul(r, self.pow(w, e))
            self.memo[k] = r
            return r
        # inverse of P where s = sqrt(P) exists: (1/s)^2
        s = self.memo.get(("sqrt", p.key()))
        if s is not None and len(s.t) == 1:
            w = self.inv(s)
            r = self.mul(w, w)
            self.memo[k] = r
            return r
        w = self.new("w%d" % len(self.vars), "inv")
        w.arg = p
        lo, hi = self.bounds(p)
        if lo is not None and lo >= 0:
            w.lo = Fraction(0) if hi is None or hi <= 0 else Fraction(1) / hi
            if lo > 0:
                w.hi = Fraction(1) / lo
        if hi is not None and hi <= 0:
            w.hi = Fraction(0) if lo is None or lo >= 0 else Fraction(1) / lo
            if hi < 0:
                w.lo = Fraction(1) / hi
        r = self.var(w)
        self.memo[k] = r
        pw = Poly({mmul(m, ((w.id, 1),)): c for m, c in p.t.items()})
        w.axioms.append(SBool("==", psub(pw, pconst(1))))
        if len(p.t) == 1:
            v = m0[0][0]
            self.add_rule(((v, 1), (w.id, 1)) if v < w.id else ((w.id, 1), (v, 1)), pconst(1))
            vv = self.vars[v]
            if vv.kind == "sqrt":
                P = vv.arg
                lead = max((m for m in P.t if m), key=lambda m: (sum(e for _, e in m), m))
                cl = Fraction(P.t[lead])
                rest = Poly({mmul(m, ((w.id, 2),)): norm(-Fraction(c) / cl) for m, c in P.t.items() if m != lead})
                repl = padd(rest, pconst(Fraction(1) / cl))
                self.add_rule(mmul(lead, ((w.id, 2),)), repl)
        elif len(p.t) <= 40:
            lead = max((m for m in p.t if m), key=lambda m: (sum(e for _, e in m), m))
            cl = Fraction(p.t[lead])
            rest = Poly({mmul(m, ((w.id, 1),)): norm(-Fraction(c) / cl) for m, c in p.t.items() if m != lead})
            repl = padd(rest, pconst(Fraction(1) / cl))
            self.add_rule(mmul(lead, ((w.id, 1),)), repl)
        return r

    def trig(self, p):
        """(cos, sin) of p as Polys"""
        if p.is_const():
            f = float(p.const())
            return pconst(toq(snap(math.cos(f)))), pconst(toq(snap(math.sin(f))))
        k = ("trig", p.key())
        r = self.memo.get(k)
        if r is not None:
            return r
        # constant offset
        c0 = p.const()
        if c0 != 0:
            t = dict(p.t)
            del t[()]
            c, s = self.trig(Poly(t))
            f = float(c0)
            ck, sk = toq(snap(math.cos(f))), toq(snap(math.sin(f)))
            r = (psub(pscale(c, ck), pscale(s, sk)), padd(pscale(s, ck), pscale(c, sk)))
            self.memo[k] = r
            return r
        if len(p.t) > 1:
            # sum of independent angles: addition theorem (split off one monomial)
            items = sorted(p.t.items())
            a = Poly(dict(items[:1]))
            b = Poly(dict(items[1:]))
            ca, sa = self.trig(a)
            cb, sb = self.trig(b)
            r = (psub(self.mul(ca, cb), self.mul(sa, sb)), padd(self.mul(sa, cb), self.mul(ca, sb)))
            self.memo[k] = r
            return r
        (m, q), = p.t.items()
        if q < 0:
            c, s = self.trig(pneg(p))
            r = (c, pneg(s))
            self.memo[k] = r
            return r
        if len(m) == 1 and m[0][1] == 1 and q == 1:
            v = self.vars[m[0][0]]
            if v.kind == "acos":
                x = v.arg
                s = self.sqrt(psub(pconst(1), self.mul(x, x)))
                r = (x, s)
                self.memo[k] = r
                return r
            if v.kind == "atan":
                h = self.rootof(padd(pconst(1), self.mul(v.arg, v.arg)))
                c = self.inv(h)
                r = (c, self.mul(v.arg, c))
                self.memo[k] = r
                return r
        # a multiple of an angle whose pair is known
        for n in (2, 3, 4):
            b = self.memo.get(("trig", pscale(p, Fraction(1, n)).key()))
            if b is not None:
                c, s = b
                cc, ss = c, s
                for _ in range(n - 1):
                    cc, ss = psub(self.mul(cc, c), self.mul(ss, s)), padd(self.mul(ss, c), self.mul(cc, s))
                r = (cc, ss)
                self.memo[k] = r
                return r
        c = self.new("cos%d" % len(self.vars), "cos")
        s = self.new("sin%d" % len(self.vars), "sin")
        for x in (c, s):
            x.lo, x.hi = Fraction(-1), Fraction(1)
            x.arg = p
        pc, ps = self.var(c), self.var(s)
        ax = SBool("==", psub(padd(Poly({((c.id, 2),): 1}), Poly({((s.id, 2),): 1})), pconst(1)))
        c.axioms.append(ax)
        s.axioms.append(ax)
        for x in (pc, ps):
            for b in (psub(x, pconst(1)), psub(pneg(x), pconst(1))):
                (c if x is pc else s).axioms.append(SBool("<=", b))
        self.add_rule(((s.id, 2),), psub(pconst(1), Poly({((c.id, 2),): 1})))
        r = (pc, ps)
        self.memo[k] = r
        return r

    def acos(self, p):
        """p known to be within [-1,1]"""
        if p.is_const():
            return pconst(toq(math.acos(max(-1.0, min(1.0, float(p.const()))))))
        k = ("acos", p.key())
        r = self.memo.get(k)
        if r is not None:
            return r
        v = self.new("acos%d" % len(self.vars), "acos")
        v.arg = p
        v.lo, v.hi = Fraction(0), toq(math.pi)
        r = self.var(v)
        v.axioms += [SBool("<=", pneg(r)), SBool("<=", psub(r, pconst(toq(math.pi))))]
        v.axioms += [SBool("<=", psub(p, pconst(1))), SBool("<=", psub(pneg(p), pconst(1)))]
        self.memo[k] = r
        # monotone against every earlier acos
        for o in self.vars[:-1]:
            if o.kind == "acos":
                ro = self.var(o)
                self.mono(v, psub(r, ro), psub(p, o.arg))
        for kk in (0, 1, 2):
            self.mono(v, psub(r, pconst(norm(kk * Fraction(toq(math.pi)) / 2))), psub(p, pconst(1 - kk)))
        return r

    def atan(self, p):
        if p.is_const():
            return pconst(toq(math.atan(float(p.const()))))
        k = ("atan", p.key())
        r = self.memo.get(k)
        if r is not None:
            return r
        v = self.new("atan%d" % len(self.vars), "atan")
        v.arg = p
        h = Fraction(toq(math.pi)) / 2
        v.lo, v.hi = -h, h
        r = self.var(v)
        v.axioms += [SBool("<", psub(r, pconst(h))), SBool("<", psub(pneg(r), pconst(h)))]
        self.memo[k] = r
        for o in self.vars[:-1]:
            if o.kind == "atan":
                self.mono(v, psub(r, self.var(o)), psub(o.arg, p))
        for kk in (0, 1, -1):
            self.mono(v, psub(r, pconst(ANG[kk])), psub(pconst(kk), p))
        return r

    def mono(self, v, d, dp):
        """d < 0 <=> dp > 0, d == 0 <=> dp == 0"""
        lt, eq = SBool("<", d), SBool("==", d)
        glt, geq = SBool("<", pneg(dp)), SBool("==", dp)
        v.axioms.append(SBool("or", [bnot(lt), glt]))
        v.axioms.append(SBool("or", [lt, bnot(glt)]))
        v.axioms.append(SBool("or", [bnot(eq), geq]))
        v.axioms.append(SBool("or", [eq, bnot(geq)]))

    def acos_threshold(self, p):
        """called for comparisons: p = +-theta + k; adds the instance of the monotonicity axiom"""
        if len(p.t) > 2:
            return
        vs = [m for m in p.t if m]
        if len(vs) != 1 or len(vs[0]) != 1 or vs[0][0][1] != 1:
            return
        v = self.vars[vs[0][0][0]]
        if v.kind not in ("acos", "atan"):
            return
        c = Fraction(p.t[vs[0]])
        kq = -Fraction(p.const()) / c
        kk = ("acosk", v.id, kq)
        if kk in self.memo:
            return
        self.memo[kk] = True
        f = float(kq)
        if v.kind == "atan":
            if abs(f) < math.pi / 2 - 1e-12:
                self.mono(v, psub(self.var(v), pconst(kq)), psub(pconst(toq(math.tan(f))), v.arg))
            return
        if f < 0 or f > math.pi + 1e-15:
            return
        self.mono(v, psub(self.var(v), pconst(kq)), psub(v.arg, pconst(toq(snap(math.cos(f))))))


ANG = {0: 0, 1: PIQ / 4, -1: -PIQ / 4}


def snap(x):
    for k in (0.0, 1.0, -1.0):
        if abs(x - k) < 1e-15:
            return k
    return x


def imul(a, b, c, d):
    """[a,b]*[c,d] with None = unbounded"""
    if None not in (a, b, c, d):
        xs = (a * c, a * d, b * c, b * d)
        return min(xs), max(xs)
    # nonneg * nonneg etc.
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, None
    if b is not None and b <= 0 and d is not None and d <= 0:
        return b * d, None
    if a is not None and a >= 0 and d is not None and d <= 0:
        return None, a * d
    if b is not None and b <= 0 and c is not None and c >= 0:
        return None, b * c
    return None, None
