"""Numeric sample points of the current path condition.

They only guide the search: a branch side that a sample satisfies is explored without asking
the solver, and counterexample queries are first tried with the inputs fixed to a sample.
No assertion is ever discharged or reported because of a sample: discharging needs the solver's
unsat, reporting needs the solver's sat and the native replay."""
import numpy as np
from fractions import Fraction
from values import *

N0 = 2048
KEEP = 256


class Samples:
    def __init__(self, ctx, seeds, seed):
        self.ctx = ctx
        self.rng = np.random.default_rng(seed)
        self.seeds = seeds          # list of {vid: float} from the forking path, or None
        self.vals = []              # one array per variable
        self.n = 0
        self.npc = 0
        self.dead = False
        self.budget = 40            # replenishing rounds on this path
        self.bad = np.seterr(all="ignore")

    # ---- evaluation
    def poly(self, p, vals, mag=False):
        s = m_ = None
        for m, c in p.t.items():
            t = float(c)
            for v, e in m:
                x = vals[v]
                for _ in range(e):
                    t = t * x
            s = t if s is None else s + t
            if mag:
                m_ = abs(t) if m_ is None else m_ + abs(t)
        if s is None:
            s = 0.0
            m_ = 0.0
        return (s, m_) if mag else s

    def derive(self, v, vals, n):
        a = v.arg
        k = v.kind
        if k in ("cos", "sin"):
            x = self.poly(a, vals)
            return np.cos(x) if k == "cos" else np.sin(x)
        x = self.poly(a, vals)
        if k == "sqrt":
            return np.sqrt(np.maximum(x, 0.0))
        if k == "inv":
            return 1.0 / x
        if k == "acos":
            return np.arccos(np.clip(x, -1.0, 1.0))
        if k == "atan":
            return np.arctan(x)
        return x

    def ev(self, b, vals):
        """array of 'certainly true', or None when unknown"""
        if isinstance(b, int):
            return bool(b)
        o = b.op
        if o in ("<", "<=", "=="):
            s, m = self.poly(b.a, vals, True)
            t = 1e-11 * m + 1e-13
            if o == "<":
                return s < -t
            if o == "<=":
                return s <= t
            return abs(s) <= t
        if o == "not":
            a = b.a
            if a.op == "==":
                s, m = self.poly(a.a, vals, True)
                return abs(s) > 1e-11 * m + 1e-13
            if a.op in ("<", "<="):
                return self.ev(bnot(a), vals)
            if a.op == "and":
                return self.ev(SBool("or", [bnot(x) for x in a.a]), vals)
            if a.op == "or":
                return self.ev(SBool("and", [bnot(x) for x in a.a]), vals)
            return None
        if o == "and":
            r = True
            for x in b.a:
                e = self.ev(x, vals)
                if e is None:
                    return None
                r = r & e
            return r
        if o == "or":
            r = False
            for x in b.a:
                e = self.ev(x, vals)
                if e is None:
                    return None
                r = r | e
            return r
        return None

    # ---- population
    def newinput(self, v, n):
        g = v.grp
        if g:
            if v.id != g[0]:
                return None
            z = self.rng.normal(size=(len(g), n))
            k = self.rng.random(n) < 0.15
            if k.any():
                z[:, k] = np.where(self.rng.random((len(g), int(k.sum()))) < 0.5, 0.02 * z[:, k], z[:, k])
            z /= np.sqrt((z * z).sum(axis=0)) + 1e-300
            return z
        lo, hi = float(v.lo0), float(v.hi0)
        x = lo + (hi - lo) * self.rng.random(n)
        if lo <= 0.0 <= hi:
            # smaller magnitudes too
            k = self.rng.random(n) < 0.3
            x = np.where(k, x * self.rng.random(n) ** 3, x)
        return x

    def sync(self, pc):
        """extend to the variables and constraints added since; True while samples are alive"""
        if self.dead:
            return False
        vars_ = self.ctx.vars
        if not self.vals and self.n == 0:
            if self.seeds:
                k = max(1, KEEP // len(self.seeds))
                self.n = k * len(self.seeds)
                self.fromseeds = k
            else:
                self.n = N0
                self.fromseeds = 0
        while len(self.vals) < len(vars_):
            v = vars_[len(self.vals)]
            if v.kind == "in":
                if self.fromseeds and v.id in self.seeds[0]:
                    self.vals.append(np.repeat(np.array([s.get(v.id, 0.0) for s in self.seeds]), self.fromseeds))
                else:
                    z = self.newinput(v, self.n)
                    if v.grp and z is not None:
                        for j in range(len(v.grp)):
                            self.vals.append(z[j])
                    else:
                        self.vals.append(z)
            else:
                x = self.derive(v, self.vals, self.n)
                self.vals.append(x if isinstance(x, np.ndarray) else np.full(self.n, float(x)))
        while self.npc < len(pc):
            b = pc[self.npc]
            self.npc += 1
            e = self.ev(b, self.vals)
            if e is None or e is True:
                continue
            if e is False:
                self.dead = True
                return False
            self.fromseeds = 0
            if isinstance(e, np.bool_):
                if not e:
                    self.dead = True
                    return False
                continue
            c = int(e.sum())
            if c == self.n:
                continue
            if c == 0:
                self.dead = True
                return False
            idx = np.nonzero(e)[0]
            self.take(idx[:1024])
            if self.n < 12 and self.budget > 0:
                self.replenish(pc[:self.npc])
        if self.n > KEEP:
            self.take(np.arange(KEEP))
        return True

    def take(self, idx):
        self.vals = [x[idx] for x in self.vals]
        self.n = len(idx)

    def propose(self, n):
        vars_ = self.ctx.vars
        par = self.rng.integers(0, self.n, n)
        out = []
        prob = self.rng.choice([0.15, 0.4, 1.0], n)
        scale = self.rng.choice([0.3, 0.1, 0.03, 0.005], n)
        for i in range(len(self.vals)):
            v = vars_[i]
            if v.kind != "in":
                out.append(None)
                continue
            x = self.vals[i][par]
            if v.grp:
                if v.id == v.grp[0]:
                    z = np.array([self.vals[j][par] for j in v.grp])
                    mv = self.rng.random(n) < prob
                    z = z + np.where(mv, scale, 0.0) * self.rng.normal(size=z.shape)
                    z /= np.sqrt((z * z).sum(axis=0)) + 1e-300
                    zz = z
                out.append(zz[v.grp.index(v.id)])
            else:
                lo, hi = float(v.lo0), float(v.hi0)
                mv = self.rng.random(n) < prob
                out.append(np.clip(x + np.where(mv, scale * (hi - lo), 0.0) * self.rng.normal(size=n), lo, hi))
        for i in range(len(self.vals)):
            if out[i] is None:
                y = self.derive(vars_[i], out, n)
                out[i] = y if isinstance(y, np.ndarray) else np.full(n, float(y))
        return out

    def accept(self, pc, out, n):
        ok = np.ones(n, bool)
        for b in pc:
            e = self.ev(b, out)
            if e is None:
                continue
            ok = ok & e
            if not ok.any():
                break
        return ok

    def replenish(self, pc, n=512):
        for _ in range(2):
            self.budget -= 1
            out = self.propose(n)
            ok = self.accept(pc, out, n)
            idx = np.nonzero(ok)[0]
            self.vals = [np.concatenate([a, b[idx]]) for a, b in zip(self.vals, out)]
            self.n += len(idx)
            if self.n >= 24 or self.budget <= 0:
                break

    # ---- services
    def feasible(self, c, nc):
        """(a sample satisfies c, a sample satisfies nc, seeds for nc, seeds for c)"""
        if self.n == 0:
            return False, False, None
        a = self.ev(c, self.vals)
        b = self.ev(nc, self.vals)
        if a is None or b is None:
            return None, None, None
        a = np.broadcast_to(a, (self.n,))
        b = np.broadcast_to(b, (self.n,))
        sa, sb = bool(a.any()), bool(b.any())
        seeds = None
        if sb:
            seeds = self.points(np.nonzero(b)[0][:6])
        return sa, sb, seeds

    def points(self, idx):
        return [{v.id: float(self.vals[v.id][i]) for v in self.ctx.vars[:len(self.vals)] if v.kind == "in"} for i in idx]

    def adopt(self, pc, values):
        """start again from one solver model {vid: float}"""
        self.seeds = [values]
        self.vals = []
        self.n = 0
        self.npc = 0
        self.dead = False
        return self.sync(pc)

    def violating(self, neg, pc, k=6):
        """points that satisfy pc and neg"""
        if not self.sync(pc):
            return []
        for r in range(3):
            e = self.ev(neg, self.vals)
            if e is None:
                return []
            e = np.broadcast_to(e, (self.n,))
            if e.any():
                return self.points(np.nonzero(e)[0][:k])
            if r == 2:
                break
            # more points
            out = self.propose(1024)
            ok = self.accept(pc, out, 1024)
            idx = np.nonzero(ok)[0]
            self.vals = [np.concatenate([a, b[idx]]) for a, b in zip(self.vals, out)]
            self.n += len(idx)
        return []

    def fixes(self, point, digits=4):
        """equalities that pin the inputs near a point"""
        fx = []
        for v in self.ctx.vars:
            if v.kind != "in" or v.id not in point:
                continue
            x = point[v.id]
            p = self.ctx.var(v)
            if v.grp:
                if v.id == v.grp[-1]:
                    fx.append(SBool("<=", p if x < 0 else pneg(p)))
                    continue
                q = Fraction(round(x * 10 ** digits), 10 ** digits)
                fx.append(SBool("==", psub(p, pconst(q))))
            else:
                q = Fraction(round(x * 10 ** digits), 10 ** digits)
                q = max(Fraction(v.lo0), min(Fraction(v.hi0), q))
                fx.append(SBool("==", psub(p, pconst(q))))
        return fx
