"""Path exploration: runs harness entries over a pool of worker processes."""
import os, sys, time, math, random, threading, traceback, multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from fractions import Fraction
import z3
from values import *
import interp
from interp import Runtime, Program, CxxThrow, PathEnd, UB
from solver import model_value, polys

PROGRAMS = {}
_RT = {}


class RT(Runtime):
    """Runtime plus counterexample extraction"""

    def reset(self, dec, seeds=None):
        Runtime.reset(self, dec, seeds)
        self.maxsteps = self.opts.get("max_steps", 400000)
        self.nassert = dict(discharged=0, trivial=0, failed=0, unknown=0)
        self.cands = []
        self.fixes = None

    # -- full model, solved per connected component
    def full_model(self, goals, timeout):
        cons = [g for g in goals if not isinstance(g, int)] + list(self.solver.pc)
        seen = set()
        for v in self.ctx.vars:
            for ax in v.axioms:
                if id(ax) not in seen:
                    seen.add(id(ax))
                    cons.append(ax)
        parent = {}

        def find(a):
            while parent.setdefault(a, a) != a:
                parent[a] = parent[parent[a]]
                a = parent[a]
            return a
        for c in cons:
            vs = list(c.vars())
            for x in vs[1:]:
                parent[find(x)] = find(vs[0])
        groups = {}
        for c in cons:
            vs = list(c.vars())
            groups.setdefault(find(vs[0]) if vs else None, []).append(c)
        models = {}
        for k, cs in groups.items():
            v, m = self.solver.solve(cs, timeout)
            if v != "sat":
                return v, None
            for c in cs:
                for x in c.vars():
                    models[x] = m
        return "sat", models

    def inputs_from(self, models):
        out = []
        vals = {}
        for v in self.ctx.vars:
            m = models.get(v.id)
            if m is None:
                x = Fraction(0)
                if v.lo is not None and v.lo > 0:
                    x = v.lo
                if v.hi is not None and v.hi < 0:
                    x = v.hi
                vals[v.id] = x
            else:
                vals[v.id] = model_value(m, self.solver.zvar(v.id))
        # angles whose sine and cosine were used
        ang = {}
        for v in self.ctx.vars:
            if v.kind == "cos":
                p = v.arg
                (mono, q), = p.t.items()
                s = self.ctx.memo[("trig", p.key())][1]
                sid = next(iter(s.vars()))
                if len(mono) == 1 and mono[0][1] == 1:
                    iv = self.ctx.vars[mono[0][0]]
                    th = math.atan2(float(vals[sid]), float(vals[v.id])) / float(q)
                    per = 2 * math.pi / abs(float(q))
                    lo = float(iv.lo) if iv.lo is not None else -per
                    hi = float(iv.hi) if iv.hi is not None else per
                    k = math.ceil((lo - th) / per - 1e-12)
                    th += k * per
                    # closest to the model's own value among the admissible ones
                    best = th
                    while th <= hi + 1e-12:
                        if abs(th - float(vals[iv.id])) < abs(best - float(vals[iv.id])):
                            best = th
                        th += per
                    ang[iv.id] = best
        for name, kind, val in self.inputs:
            if kind in ("real", "angle"):
                vid = next(iter(val.p.vars()))
                x = ang.get(vid)
                out.append((name, "real", float(vals[vid]) if x is None else x))
            elif kind == "int":
                key = next(iter(val.v))
                m = models.get(key)
                x = m.eval(val.e, model_completion=True).as_long() if m is not None else 0
                out.append((name, "int", interp.sx(x, 64)))
            else:
                key = next(iter(val.vars()))
                m = models.get(key)
                x = 1 if m is not None and z3.is_true(m.eval(val.a, model_completion=True)) else 0
                out.append((name, "int", x))
        return out

    def candidates(self, label, negs, strong):
        t = self.opts["assert_t"]
        base = self.fixes or []
        n = 0
        for s in (strong or []):
            if isinstance(s, int):
                if not s:
                    continue
                s = True
            for pt in (self.smp.violating(s, self.solver.pc, 2) if s is not True else []):
                v, m = self.full_model([s] + self.smp.fixes(pt), 3)
                if v == "sat":
                    self.cands.append((label, self.inputs_from(m)))
                    n += 1
            if n >= 2:
                break
            v, m = self.full_model([s] + base, min(t, 10))
            if v == "sat":
                self.cands.append((label, self.inputs_from(m)))
                n += 1
                if n >= 2:
                    break
        if n < 2:
            # random corners of the counterexample region, then the plain model
            rnd = random.Random(7)
            for _ in range(3):
                fx = self.random_fix(rnd, 0.3)
                v, m = self.full_model(list(negs) + base + fx, 3)
                if v == "sat":
                    self.cands.append((label, self.inputs_from(m)))
                    n += 1
        v, m = self.full_model(list(negs) + base, t)
        if v == "sat":
            self.cands.append((label, self.inputs_from(m)))
            n += 1
        self.fixes = None
        if n == 0:
            if v == "unsat" and base:
                v, m = self.full_model(list(negs), t)
            if v == "unsat":
                # the complete constraints refute what the slice left open
                return "refuted"
            self.labels_unknown.append(label + " (no model)")

    def random_fix(self, rnd, frac):
        fx = []
        for v in self.ctx.vars:
            if v.kind == "in" and rnd.random() < frac:
                lo = v.lo if v.lo is not None else Fraction(-10)
                hi = v.hi if v.hi is not None else Fraction(10)
                k = lo + (hi - lo) * Fraction(rnd.randint(1, 15), 16)
                if rnd.random() < 0.6:
                    r = Fraction(round(float(k)))
                    if lo <= r <= hi:
                        k = r
                fx.append(SBool("==", psub(self.ctx.var(v), pconst(k))))
        return fx

    def refute(self, label, neg):
        """the solver gave up on pc & neg: look for a counterexample with some inputs fixed"""
        rnd = random.Random(11)
        t0 = time.time()
        for pt in self.smp.violating(neg, self.solver.pc):
            for dg in (2, 4, 7):
                fx = self.smp.fixes(pt, dg)
                v, m = self.solver.check([neg] + fx, 1.5)
                if v == "sat":
                    self.fixes = fx
                    return "sat"
        for i in range(24):
            if time.time() - t0 > self.opts.get("refute_t", 20):
                break
            fx = self.random_fix(rnd, 0.35 + 0.6 * (i % 6) / 6)
            v, m = self.solver.check([neg] + fx, 1.5)
            if v == "sat":
                self.fixes = fx
                return "sat"
        return "unknown"


def run_path(rt, entry, prefix):
    rt.reset(*prefix)
    res = dict(end="ok", err=None)
    try:
        init_globals(rt)
        rt.run_entry(entry)
    except PathEnd as e:
        res["end"] = "cut:" + str(e)
    except CxxThrow as e:
        res["end"] = "throw"
        ti = rt.ti_name(e.ti) if isinstance(e.ti, int) else str(e.ti)
        rt.nassert["failed"] += 1
        if rt.candidates("uncaught-exception " + ti, [True], None) == "refuted":
            rt.nassert["failed"] -= 1
            res["end"] = "cut:infeasible"
    except UB as e:
        res["end"] = "ub"
        res["err"] = str(e)
        rt.nassert["failed"] += 1
        if rt.candidates("ub:" + e.kind + " " + e.msg, [True], None) == "refuted":
            rt.nassert["failed"] -= 1
            res["end"] = "cut:infeasible"
    except EngineUnsupported as e:
        res["end"] = "unsupported"
        res["err"] = str(e)
        if os.environ.get("SYM_TRACE"):
            traceback.print_exc()
    except z3.Z3Exception as e:
        res["end"] = "unsupported"
        res["err"] = "z3: " + str(e)
    except Exception as e:
        res["end"] = "unsupported"
        res["err"] = "internal %s: %s" % (type(e).__name__, e)
        if os.environ.get("SYM_TRACE"):
            traceback.print_exc()
    res["forks"] = rt.forks
    res["nassert"] = rt.nassert
    res["labels"] = sorted(set(rt.asserts))
    res["reached"] = sorted(rt.reached)
    res["cands"] = rt.cands
    res["unknown"] = rt.labels_unknown
    res["unknown_feas"] = rt.unknown_feas
    res["nvars"] = len(rt.ctx.vars)
    return res


def init_globals(rt):
    L = rt.prog.mod.L
    g = rt.prog.mod.globals.get("llvm.global_ctors")
    if not g:
        return
    ini = L.LLVMGetInitializer(g)
    try:
        v = interp.const_value(rt.prog, ini)
    except EngineUnsupported:
        return
    for prio, fn, _ in v:
        rt.callptr(fn, ())


def _worker(task):
    if os.environ.get("SYM_STACK"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["SYM_STACK"]), repeat=True)
    prog, entry, prefixes, opts, budget, haswit = task
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(60000)
    box = []

    def go():
        box.append(_work(prog, entry, prefixes, opts, budget, haswit))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return box[0] if box else dict(fatal="worker died", entry=entry)


def _work(prog, entry, prefixes, opts, budget, haswit):
    rt = _RT.get(prog)
    if rt is None:
        rt = _RT[prog] = RT(PROGRAMS[prog], opts)
    rt.opts = opts
    rt.stats.__init__()
    t0 = time.time()
    work = list(prefixes)
    ncomp = len(rt.prog.compiled)
    out = dict(entry=entry, paths=0, ends={}, nassert=dict(discharged=0, trivial=0, failed=0, unknown=0), labels={},
               cands=[], errs=[], unknown=[], unknown_feas=0, reached=[], maxvars=0, wit={}, traces=[])
    wit = set(haswit)
    while work and time.time() - t0 < budget:
        p = work.pop()
        r = run_path(rt, entry, p)
        out["paths"] += 1
        e = r["end"]
        out["ends"][e] = out["ends"].get(e, 0) + 1
        for k in out["nassert"]:
            out["nassert"][k] += r["nassert"][k]
        for l in r["labels"]:
            out["labels"][l] = out["labels"].get(l, 0) + 1
        new = [l for l in r["labels"] if l not in wit]
        if new and e in ("ok", "cut:violated"):
            v = "unknown"
            if rt.smp.sync(rt.solver.pc):
                v, m = rt.full_model(rt.smp.fixes(rt.smp.points([0])[0]), 3)
            if v != "sat":
                v, m = rt.full_model([], opts["assert_t"])
            if v == "sat":
                inp = rt.inputs_from(m)
                for l in new:
                    wit.add(l)
                    out["wit"][l] = True
                out["traces"].append((entry, inp))
        out["cands"] += [(l, i, e) for l, i in r["cands"]]
        if r["err"] and e == "unsupported":
            out["errs"].append(r["err"])
        out["unknown"] += r["unknown"]
        out["unknown_feas"] += r["unknown_feas"]
        out["maxvars"] = max(out["maxvars"], r["nvars"])
        work.extend(r["forks"])
        if len(out["cands"]) > 40:
            break
    out["rest"] = work
    out["stats"] = rt.stats.d()
    out["funcs"] = rt.prog.compiled[ncomp:]
    out["wall"] = time.time() - t0
    return out


def explore(jobs, deadline, nproc=None, log=None):
    """jobs: list of (prog, entry, opts).  Returns {entry: summary}"""
    nproc = nproc or min(8, os.cpu_count() or 4)
    res = {}
    ctx = mp.get_context("fork")
    with ProcessPoolExecutor(nproc, mp_context=ctx) as ex:
        pend = {}
        info = {}

        def submit(key, prefixes, budget):
            prog, entry, opts = info[key]
            pend[ex.submit(_worker, (prog, entry, prefixes, opts, budget, tuple(res[key]["wit"])))] = key
        for prog, entry, opts in jobs:
            key = entry
            info[key] = (prog, entry, opts)
            res[key] = dict(entry=entry, paths=0, ends={}, nassert=dict(discharged=0, trivial=0, failed=0, unknown=0),
                            labels={}, cands=[], errs=[], unknown=[], unknown_feas=0, maxvars=0, wit={}, traces=[],
                            stats=dict(queries=0, time=0.0, sat=0, unsat=0, unknown=0), funcs=[], wall=0.0,
                            incomplete=0, fatal=[])
            submit(key, [([], None)], 0.3)
        while pend:
            done, _ = wait(list(pend), return_when=FIRST_COMPLETED, timeout=5)
            for f in done:
                key = pend.pop(f)
                r = res[key]
                try:
                    o = f.result()
                except Exception as e:
                    r["fatal"].append("%s: %s" % (type(e).__name__, e))
                    continue
                if "fatal" in o:
                    r["fatal"].append(o["fatal"])
                    continue
                r["paths"] += o["paths"]
                for k, v in o["ends"].items():
                    r["ends"][k] = r["ends"].get(k, 0) + v
                for k in r["nassert"]:
                    r["nassert"][k] += o["nassert"][k]
                for k, v in o["labels"].items():
                    r["labels"][k] = r["labels"].get(k, 0) + v
                r["cands"] += o["cands"]
                r["errs"] += o["errs"]
                r["unknown"] += o["unknown"]
                r["unknown_feas"] += o["unknown_feas"]
                r["maxvars"] = max(r["maxvars"], o["maxvars"])
                r["wit"].update(o["wit"])
                r["traces"] += o["traces"]
                for k in r["stats"]:
                    r["stats"][k] += o["stats"][k]
                r["funcs"] += o["funcs"]
                r["wall"] += o["wall"]
                rest = o["rest"]
                opts = info[key][2]
                over = time.time() > deadline or r["paths"] > opts.get("max_paths", 20000) or len(r["cands"]) > 60
                if rest:
                    if over:
                        r["incomplete"] += len(rest)
                    else:
                        # spread the open prefixes over the idle workers
                        k = max(1, min(len(rest), nproc - min(nproc - 1, len(pend))))
                        for i in range(k):
                            submit(key, rest[i::k], 1.5)
            if time.time() > deadline + 60:
                for p in list(pend):
                    res[pend[p]]["incomplete"] += 1
                    p.cancel()
                for proc in list(ex._processes.values()):
                    proc.kill()
                break
    return res
