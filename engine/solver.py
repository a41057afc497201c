"""SMT queries (z3).  Constraints are sliced to the variables the goal depends on; every
verdict used by the checks is z3's unsat/sat answer on the (sliced) formula."""
import os, time
from fractions import Fraction
import z3
DUMP = os.environ.get('SYM_DUMP')
from values import *


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = 0

    def add(self, o):
        self.queries += o["queries"]
        self.time += o["time"]
        self.sat += o["sat"]
        self.unsat += o["unsat"]
        self.unknown += o["unknown"]

    def d(self):
        return dict(queries=self.queries, time=self.time, sat=self.sat, unsat=self.unsat, unknown=self.unknown)


class Solver:
    def __init__(self, ctx, stats, seed=1):
        self.ctx = ctx
        self.stats = stats
        self.pc = []            # list of SBool
        self.seed = seed
        self.zc = {}

    # ---- to z3
    def zvar(self, i):
        v = self.ctx.vars[i]
        if v.z is None:
            v.z = z3.Real("v%d_%s" % (i, v.name))
        return v.z

    def zmono(self, m):
        r = self.zc.get(m)
        if r is None:
            fs = []
            for v, e in m:
                fs += [self.zvar(v)] * e
            r = fs[0] if len(fs) == 1 else z3.Product(*fs)
            self.zc[m] = r
        return r

    def zpoly(self, p):
        ts = []
        for m, c in p.t.items():
            if not m:
                ts.append(z3.RealVal(str(c)))
            elif c == 1:
                ts.append(self.zmono(m))
            else:
                ts.append(z3.RealVal(str(c)) * self.zmono(m))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def zbool(self, b):
        if isinstance(b, int):
            return z3.BoolVal(bool(b))
        if b._z is not None:
            return b._z
        o = b.op
        if o in ("<", "<=", "=="):
            p = b.a
            # clear denominators, move the constant over
            den = 1
            for c in p.t.values():
                if isinstance(c, Fraction):
                    den = den * c.denominator // math.gcd(den, c.denominator)
            if den != 1:
                p = pscale(p, den)
            k = p.const()
            q = Poly({m: c for m, c in p.t.items() if m})
            l = self.zpoly(q)
            r = z3.RealVal(str(-k))
            z = l < r if o == "<" else (l <= r if o == "<=" else l == r)
        elif o == "not":
            z = z3.Not(self.zbool(b.a))
        elif o == "and":
            z = z3.And(*[self.zbool(x) for x in b.a])
        elif o == "or":
            z = z3.Or(*[self.zbool(x) for x in b.a])
        elif o == "bv":
            z = b.a
        else:
            raise EngineUnsupported(o)
        b._z = z
        return z

    # ---- slicing
    def slice(self, goals, use_pc=True):
        need = set()
        out = []
        work = []
        for g in goals:
            if not isinstance(g, int):
                work.extend(g.vars())
        vars_ = self.ctx.vars
        pcs = [(c, c.vars()) for c in self.pc] if use_pc else []
        used = [False] * len(pcs)
        byvar = {}
        for i, (c, vs) in enumerate(pcs):
            for v in vs:
                byvar.setdefault(v, []).append(i)
        seenax = set()
        while work:
            v = work.pop()
            if v in need:
                continue
            need.add(v)
            if isinstance(v, int):
                for ax in vars_[v].axioms:
                    if id(ax) not in seenax:
                        seenax.add(id(ax))
                        out.append(ax)
                        work.extend(ax.vars())
                if vars_[v].arg is not None:
                    work.extend(vars_[v].arg.vars())
            for i in byvar.get(v, ()):
                if not used[i]:
                    used[i] = True
                    out.append(pcs[i][0])
                    work.extend(pcs[i][1])
        return out, need

    def solve(self, cons, timeout, plan=None, dump=True):
        """returns (verdict, model)"""
        nonlin = False
        bv = False
        for c in cons:
            for p in polys(c):
                if isinstance(p, Poly):
                    if p.degree() > 1:
                        nonlin = True
                else:
                    bv = True
        zs = [self.zbool(c) for c in cons]
        t0 = time.time()
        self.stats.queries += 1
        verdict = z3.unknown
        s = None
        if plan is not None:
            pass
        elif nonlin and not bv:
            # linearisation lemmas first, then cylindrical decomposition, then both again for longer
            plan = [("smt", 0.05), ("nlsat", 0.1), ("smt", 0.15), ("QF_NRA", 0.4), ("smt", 0.3)]
        elif nonlin:
            plan = [(None, 1.0)]
        elif bv:
            plan = [(None, 1.0)]
        else:
            plan = [("QF_LRA", 1.0)]
        for kind, frac in plan:
            if kind == "nlsat":
                s = z3.Then(z3.With("simplify", som=True), "purify-arith", "propagate-values", "elim-term-ite", "tseitin-cnf", "nlsat").solver()
            elif kind == "smt":
                s = z3.Tactic("smt").solver()
            elif kind:
                s = z3.SolverFor(kind)
            else:
                s = z3.Solver()
            s.set("timeout", max(150, int(timeout * 1000 * frac)))
            try:
                s.set("random_seed", self.seed)
            except z3.Z3Exception:
                pass
            try:
                s.add(*zs)
                verdict = s.check()
            except z3.Z3Exception:
                verdict = z3.unknown
            if verdict != z3.unknown:
                break
        self.stats.time += time.time() - t0
        if verdict == z3.sat:
            self.stats.sat += 1
            return "sat", s.model()
        if verdict == z3.unsat:
            self.stats.unsat += 1
            return "unsat", None
        self.stats.unknown += 1
        if DUMP and dump:
            s = z3.Solver()
            s.add(*zs)
            with open("%s/q%d_%d.smt2" % (DUMP, os.getpid(), self.stats.queries), "w") as f:
                f.write(s.to_smt2())
        return "unknown", None

    def narrow(self, gs, cons, timeout):
        """an unsat answer from the constraints over the goal's own variables alone is final"""
        core = set()
        work = []
        for g in gs:
            work.extend(g.vars())
        while work:
            v = work.pop()
            if v in core:
                continue
            core.add(v)
            if isinstance(v, int) and self.ctx.vars[v].arg is not None:
                work.extend(self.ctx.vars[v].arg.vars())
        sub = [c for c in cons if c.vars() <= core]
        if len(sub) > 0.8 * len(cons):
            return None
        if not any(isinstance(p, Poly) and p.degree() > 1 for c in sub for p in polys(c)):
            plan = [("QF_LRA", 1.0)]
        else:
            plan = [("smt", 0.15), ("nlsat", 0.15)]
        if any(not isinstance(p, Poly) for c in sub for p in polys(c)):
            return None
        return self.solve(sub, timeout, plan=plan, dump=False)[0]

    def check(self, goals, timeout, full=False, pcset=None):
        """satisfiable(pc and goals)?"""
        gs = []
        for g in goals:
            if isinstance(g, int):
                if not g:
                    return "unsat", None
            else:
                gs.append(g)
        if full:
            cons = list(self.pc) + gs
            seen = set()
            for v in self.ctx.vars:
                for ax in v.axioms:
                    if id(ax) not in seen:
                        seen.add(id(ax))
                        cons.append(ax)
        else:
            cons, _ = self.slice(gs + (pcset or []))
            cons = gs + cons
            if len(cons) > len(gs) + 3:
                r = self.narrow(gs, cons, timeout)
                if r == "unsat":
                    return r, None
        if not cons:
            return "sat", None
        return self.solve(cons, timeout)


def polys(b):
    if isinstance(b, int):
        return
    if b.op in ("<", "<=", "=="):
        yield b.a
    elif b.op == "not":
        yield from polys(b.a)
    elif b.op == "bv":
        yield b.a
    else:
        for x in b.a:
            yield from polys(x)


def model_value(m, z):
    """Fraction (approximated for algebraic numbers) or int"""
    r = m.eval(z, model_completion=True)
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_true(r):
        return 1
    if z3.is_false(r):
        return 0
    raise EngineUnsupported("model value %s" % r)
