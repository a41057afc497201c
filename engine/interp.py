"""Symbolic executor for LLVM IR (bitcode produced by clang 18 from the real headers).

Each IR function is translated, when first called, to a Python function over values that are
either concrete (int / float) or symbolic (values.py).  A path is one run from the harness
entry, following a recorded list of decisions; at every branch on a symbolic condition beyond
the recorded prefix the solver is asked which sides are feasible, one side is taken and the
other is returned to the scheduler (explore.py) as a new prefix."""
import math, struct, sys
from fractions import Fraction
import z3
import llvmir
from llvmir import OPC, ICMP, FCMP
from values import *
from samples import Samples
from solver import Solver, Stats, model_value

M64 = (1 << 64) - 1
_pd = struct.Struct("<d")
_pf = struct.Struct("<f")


class CxxThrow(Exception):
    def __init__(self, obj, ti):
        self.obj = obj
        self.ti = ti


class PathEnd(Exception):
    """path abandoned without verdict problems (assume failed, exit)"""


class UB(Exception):
    """memory error / nontermination / unreachable: candidate violation, needs replay"""
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg
        Exception.__init__(self, kind + ": " + msg)


class Violation(Exception):
    def __init__(self, label):
        self.label = label


class Obj:
    __slots__ = ("base", "size", "data", "sym", "freed", "name")

    def __init__(self, base, size, name):
        self.base = base
        self.size = size
        self.data = bytearray(b"\xcd") * size
        self.sym = None
        self.freed = False
        self.name = name


def sx(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class Program:
    """module + static addresses, shared by all paths (and by forked workers)"""

    def __init__(self, path):
        self.mod = llvmir.Module(path)
        self.addr = {}
        self.byaddr = {}
        i = 0x4000000
        for n in self.mod.functions:
            self.addr[n] = i << 32
            self.byaddr[i << 32] = n
            i += 1
        i = 0x10000
        self.gbase = {}
        for n in self.mod.globals:
            a = (i << 32) + 0x1000
            self.addr[n] = a
            self.gbase[i] = n
            i += 1
        L = self.mod.L
        for n, g in self.mod.aliases.items():
            t = self.mod.name(L.LLVMAliasGetAliasee(g))
            self.addr[n] = self.addr.get(t)
            self.mod.functions.setdefault(n, self.mod.functions.get(t)) if t in self.mod.functions else None
        self.code = {}
        self.compiled = []


class Runtime:
    def __init__(self, prog, opts):
        self.prog = prog
        self.opts = opts
        self.F = _FDict(self)
        import models
        self.models = models.MODELS
        self.stats = Stats()

    # ------------------------------------------------------------------ path control
    def reset(self, decisions, seeds=None):
        self.ctx = Ctx()
        self.smp = Samples(self.ctx, seeds, self.opts.get("seed", 1))
        self.ctx.rootof = lambda p: self.rp(self.sqrt(self.mkr(p)))
        self.solver = Solver(self.ctx, self.stats, self.opts.get("seed", 1))
        self.objs = {}
        self.nextobj = 0x1000000
        self.dec = list(decisions)
        self.pos = 0
        self.nprefix = len(decisions)
        self.forks = []
        self.inputs = []        # (name, kind, value term)
        self.bvaxioms = []
        self.steps = 0
        self.exc = None
        self.caught = []
        self.asserts = []
        self.reached = set()
        self.violation = None
        self.ubkind = None
        self.labels_unknown = []
        self.unknown_feas = 0
        self.state = {}
        self.observed = []
        self.depth = 0

    def live(self):
        return self.pos >= self.nprefix

    def assume(self, b):
        """add b to the path condition; ends the path if impossible"""
        if isinstance(b, int):
            if not b:
                raise PathEnd("assume")
            return
        self.pc_add(b)
        if self.live():
            if self.smp.sync(self.solver.pc):
                return
            v, m = self.solver.check([], self.opts["feas_t"], pcset=[b])
            if v == "unsat":
                raise PathEnd("assume")
            self.reseed(m)

    def pc_add(self, b):
        self.solver.pc.append(b)
        self.facts(b)

    def facts(self, b):
        if b.op in ("<", "<=", "=="):
            self.learn(b)
            self.ctx.learn_sign(b)
        elif b.op == "and":
            for x in b.a:
                if isinstance(x, SBool):
                    self.facts(x)
        elif b.op == "not":
            if b.a.op == "==":
                self.ctx.learn_sign(b)
            elif b.a.op == "or":
                for x in b.a.a:
                    if isinstance(x, SBool):
                        self.facts(bnot(x))

    def learn(self, b):
        """variable bounds from linear single-variable atoms"""
        t = b.a.t
        if len(t) > 2:
            return
        ms = [m for m in t if m]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
            return
        c = Fraction(t[ms[0]])
        k = -Fraction(b.a.const()) / c
        v = self.ctx.vars[ms[0][0][0]]
        if b.op == "==" or c > 0:
            if v.hi is None or v.hi > k:
                v.hi = k
        if b.op == "==" or c < 0:
            if v.lo is None or v.lo < k:
                v.lo = k

    def decide(self, c):
        if c.__class__ is not SBool:
            if isinstance(c, int):
                return bool(c)
            c = self.tobool(c)
            if isinstance(c, int):
                return bool(c)
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            self.pc_add(c if d else bnot(c))
            return d
        nc = bnot(c)
        t = self.opts["feas_t"]
        seeds = None
        if self.smp.sync(self.solver.pc):
            sa, sb, seeds = self.smp.feasible(c, nc)
        else:
            sa = sb = None
        m = m2 = None
        if sa:
            v = "sat"
        else:
            v, m = self.solver.check([c], t)
        if v == "unsat":
            d = False
            # the path condition is satisfiable, so the other side is
        else:
            if v == "unknown":
                self.unknown_feas += 1
            if sb:
                v2 = "sat"
            else:
                v2, m2 = self.solver.check([nc], t)
            if v2 == "unknown":
                self.unknown_feas += 1
            d = True
            if v2 != "unsat":
                if seeds is None and m2 is not None:
                    seeds = self.seedof(m2)
                self.forks.append((self.dec[:self.pos] + [False], seeds))
                if len(self.forks) > self.opts.get("max_forks", 20000):
                    raise EngineUnsupported("too many forks")
        self.dec.append(d)
        self.pos += 1
        self.pc_add(c if d else nc)
        if d and m is not None and not self.smp.sync(self.solver.pc):
            self.reseed(m)
        return d

    def seedof(self, m):
        """sample points from a (partial) solver model"""
        base = {}
        if not self.smp.dead and self.smp.n:
            base = self.smp.points([0])[0]
        out = {}
        dec = set()
        for d in m.decls():
            dec.add(d.name())
        for v in self.ctx.vars:
            if v.kind != "in":
                continue
            if v.z is not None and v.z.decl().name() in dec:
                out[v.id] = float(model_value(m, v.z))
            elif v.id in base:
                out[v.id] = base[v.id]
            else:
                lo, hi = float(v.lo), float(v.hi)
                out[v.id] = min(max(0.0, lo), hi)
        return [out]

    def reseed(self, m):
        if m is None or self.smp.budget <= 0:
            return
        self.smp.budget -= 1
        self.smp.adopt(self.solver.pc, self.seedof(m)[0])

    def conc(self, x, what="value"):
        """concrete value of a symbolic integer: forks over every feasible value"""
        if isinstance(x, int):
            return x
        if isinstance(x, SBool):
            return 1 if self.decide(x) else 0
        if isinstance(x, RealBits):
            raise EngineUnsupported("bit pattern of a symbolic double used as integer")
        if not isinstance(x, SBV):
            raise EngineUnsupported("concretise %r" % (x,))
        if x.b is not None:
            return 1 if self.decide(x.b) else 0
        n = 0
        while True:
            if self.pos < len(self.dec):
                val, d = self.dec[self.pos]
                self.pos += 1
            else:
                v, m = self.solver.check([SBool("bv", z3.BoolVal(True), x.v)], self.opts["feas_t"])
                if v != "sat":
                    raise EngineUnsupported("cannot concretise")
                val = m.eval(x.e, model_completion=True).as_long() if m is not None else 0
                ne = SBool("bv", x.e != val, x.v)
                v2, _ = self.solver.check([ne], self.opts["feas_t"])
                d = True
                if v2 != "unsat":
                    sd = None
                    if self.smp.sync(self.solver.pc):
                        sd = self.smp.points(range(min(6, self.smp.n)))
                    self.forks.append((self.dec[:self.pos] + [(val, False)], sd))
                self.dec.append((val, True))
                self.pos += 1
            if d:
                self.pc_add(SBool("bv", x.e == val, x.v))
                return val
            self.pc_add(SBool("bv", x.e != val, x.v))
            n += 1
            if n > self.opts.get("max_conc", 64):
                raise EngineUnsupported("too many values for a concretised integer")

    # ------------------------------------------------------------------ memory
    def alloc(self, size, name="heap"):
        i = self.nextobj
        self.nextobj += 1
        o = Obj((i << 32) + 0x1000, size, name)
        self.objs[i] = o
        return o.base

    def alloca(self, size, n=1):
        return self.alloc(size * n, "stack")

    def free(self, p):
        if p == 0:
            return
        o = self.objs.get(p >> 32)
        if o is None or o.base != p or o.name != "heap":
            raise UB("memory", "free of a pointer that is not a heap block")
        if o.freed:
            raise UB("memory", "double free")
        o.freed = True

    def obj(self, p, n):
        """(object, offset) for an n-byte access"""
        i = p >> 32
        o = self.objs.get(i)
        if o is None:
            o = self.global_obj(i, p)
        off = p - o.base
        if off < 0 or off + n > o.size:
            raise UB("memory", "access of %d bytes at offset %d of a %d byte %s block" % (n, off, o.size, o.name))
        if o.freed:
            raise UB("memory", "use after free")
        return o, off

    def global_obj(self, i, p):
        n = self.prog.gbase.get(i)
        if n is None:
            raise UB("memory", "access through invalid pointer 0x%x" % p)
        mod = self.prog.mod
        g = mod.globals[n]
        L = mod.L
        if L.LLVMIsDeclaration(g):
            import models
            init = models.external_global(self, n)
            if init is None:
                raise EngineUnsupported("external global " + n)
            o = Obj((i << 32) + 0x1000, len(init), n)
            o.data[:] = init
            self.objs[i] = o
            return o
        ty = mod.ty(L.LLVMGlobalGetValueType(g))
        o = Obj((i << 32) + 0x1000, ty.size, n)
        self.objs[i] = o
        cache = self.prog.__dict__.setdefault("ginit", {})
        b = cache.get(n)
        if b is None:
            buf = bytearray(ty.size)
            _const_bytes(self.prog, L.LLVMGetInitializer(g), ty, buf, 0)
            b = cache[n] = bytes(buf)
        o.data[:] = b
        return o

    def _p(self, p):
        if p.__class__ is int:
            return p
        return self.conc(p)

    def ld_i(self, p, n):
        if p.__class__ is not int:
            p = self.conc(p)
        o, off = self.obj(p, n)
        s = o.sym
        if s:
            r = s.get(off)
            if r is not None and r[0] == n:
                v = r[1]
                if v.__class__ is SReal:
                    return RealBits(v)
                return v
            return self.ld_mixed(o, off, n)
        return int.from_bytes(o.data[off:off + n], "little")

    def ld_f(self, p):
        if p.__class__ is not int:
            p = self.conc(p)
        o, off = self.obj(p, 8)
        s = o.sym
        if s:
            r = s.get(off)
            if r is not None and r[0] == 8:
                v = r[1]
                if v.__class__ is SReal:
                    return v
                if v.__class__ is RealBits:
                    return v.r
            v = self.ld_mixed(o, off, 8)
            return self.i2f(v)
        return _pd.unpack_from(o.data, off)[0]

    def ld_f32(self, p):
        o, off = self.obj(self._p(p), 4)
        if o.sym:
            r = o.sym.get(off)
            if r is not None:
                return r[1]
        return _pf.unpack_from(o.data, off)[0]

    def ld_f80(self, p):
        o, off = self.obj(self._p(p), 10)
        if o.sym:
            r = o.sym.get(off)
            if r is not None:
                return r[1]
        return f80_to_float(bytes(o.data[off:off + 10]))

    def ld_mixed(self, o, off, n):
        hit = [(k, v) for k, v in o.sym.items() if k < off + n and k + v[0] > off]
        if not hit:
            return int.from_bytes(o.data[off:off + n], "little")
        # assemble from bytes (bit vectors only)
        parts = []
        vs = frozenset()
        for i in range(n):
            a = off + i
            for k, (sz, v) in hit:
                if k <= a < k + sz:
                    if v.__class__ is not SBV:
                        raise EngineUnsupported("partial access to a symbolic double")
                    j = a - k
                    e = v.e
                    w = e.size()
                    if 8 * j + 8 > w:
                        e = z3.ZeroExt(8 * sz - w, e)
                    parts.append(z3.Extract(8 * j + 7, 8 * j, e))
                    vs |= v.v
                    break
            else:
                parts.append(z3.BitVecVal(o.data[a], 8))
        e = z3.simplify(z3.Concat(*reversed(parts)) if n > 1 else parts[0])
        if z3.is_bv_value(e):
            return e.as_long()
        return SBV(e, 8 * n, vs)

    def _clear(self, o, off, n):
        s = o.sym
        for k in [k for k, v in s.items() if k < off + n and k + v[0] > off]:
            sz, v = s.pop(k)
            if k >= off and k + sz <= off + n:
                continue
            # keep the bytes that are not overwritten
            if v.__class__ is not SBV:
                # a double that is partly overwritten: the rest becomes garbage
                continue
            for j in range(sz):
                a = k + j
                if off <= a < off + n:
                    continue
                e = v.e
                w = e.size()
                if 8 * sz > w:
                    e = z3.ZeroExt(8 * sz - w, e)
                s[a] = (1, SBV(z3.simplify(z3.Extract(8 * j + 7, 8 * j, e)), 8, v.v))

    def st_i(self, p, v, n):
        if p.__class__ is not int:
            p = self.conc(p)
        o, off = self.obj(p, n)
        if o.sym:
            self._clear(o, off, n)
        if v.__class__ is int:
            o.data[off:off + n] = v.to_bytes(n, "little")
        elif v.__class__ is bool:
            o.data[off:off + n] = int(v).to_bytes(n, "little")
        elif v is None:
            o.data[off:off + n] = b"\xcd" * n
        else:
            if v.__class__ is SBool:
                v = self.zext(v, 8 * n)
                if v.__class__ is int:
                    o.data[off:off + n] = v.to_bytes(n, "little")
                    return
            if v.__class__ is float:
                o.data[off:off + n] = _pd.pack(v)
                return
            if o.sym is None:
                o.sym = {}
            o.sym[off] = (n, v)

    def st_f(self, p, v):
        if p.__class__ is not int:
            p = self.conc(p)
        o, off = self.obj(p, 8)
        if o.sym:
            self._clear(o, off, 8)
        if v.__class__ is float:
            _pd.pack_into(o.data, off, v)
        elif v is None:
            pass
        else:
            if o.sym is None:
                o.sym = {}
            o.sym[off] = (8, v)

    def st_f32(self, p, v):
        o, off = self.obj(self._p(p), 4)
        if o.sym:
            self._clear(o, off, 4)
        if isinstance(v, float):
            _pf.pack_into(o.data, off, v)
        else:
            o.sym = o.sym or {}
            o.sym[off] = (4, v)

    def st_f80(self, p, v):
        o, off = self.obj(self._p(p), 10)
        if o.sym:
            self._clear(o, off, 10)
        o.sym = o.sym or {}
        o.sym[off] = (10, v)

    def memcpy(self, d, s, n):
        n = self.conc(n)
        if n == 0:
            return
        d = self._p(d)
        s = self._p(s)
        so, soff = self.obj(s, n)
        do, doff = self.obj(d, n)
        data = bytes(so.data[soff:soff + n])
        cells = None
        if so.sym:
            cells = []
            for k, (sz, v) in so.sym.items():
                if k < soff + n and k + sz > soff:
                    if k >= soff and k + sz <= soff + n:
                        cells.append((k - soff, sz, v))
                    elif v.__class__ is SBV:
                        for j in range(sz):
                            a = k + j
                            if soff <= a < soff + n:
                                w = v.e.size()
                                e = z3.ZeroExt(8 * sz - w, v.e) if 8 * sz > w else v.e
                                cells.append((a - soff, 1, SBV(z3.Extract(8 * j + 7, 8 * j, e), 8, v.v)))
                    else:
                        raise EngineUnsupported("memcpy of part of a symbolic double")
        if do.sym:
            self._clear(do, doff, n)
        do.data[doff:doff + n] = data
        if cells:
            if do.sym is None:
                do.sym = {}
            for k, sz, v in cells:
                do.sym[doff + k] = (sz, v)

    def memset(self, d, c, n):
        n = self.conc(n)
        if n == 0:
            return
        c = self.conc(c) & 255
        o, off = self.obj(self._p(d), n)
        if o.sym:
            self._clear(o, off, n)
        o.data[off:off + n] = bytes([c]) * n

    def cstr(self, p):
        p = self._p(p)
        out = bytearray()
        while True:
            b = self.ld_i(p, 1)
            b = self.conc(b)
            if b == 0:
                return bytes(out)
            out.append(b)
            p += 1

    def bytes_at(self, p, n):
        return bytes(self.conc(self.ld_i(p + i, 1)) for i in range(n))

    def new_bytes(self, b, name="heap"):
        p = self.alloc(len(b), name)
        self.objs[p >> 32].data[:] = b
        return p

    # ------------------------------------------------------------------ booleans / ints
    def tobool(self, x):
        """i1 value (or integer compared with 0) as SBool/bool"""
        if x.__class__ is SBool or isinstance(x, int):
            return x
        if x.__class__ is SBV:
            if x.b is not None:
                return x.b
            if x.w == 1:
                return SBool("bv", x.e == 1, x.v)
            return SBool("bv", x.e != 0, x.v)
        if x is None:
            raise UB("undef", "branch on an undefined value")
        raise EngineUnsupported("tobool %r" % (x,))

    def bv(self, x, w):
        if isinstance(x, int):
            return z3.BitVecVal(int(x), w), frozenset()
        if x.__class__ is SBV:
            return x.e, x.v
        if x.__class__ is SBool:
            if x.op == "bv":
                return z3.If(x.a, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), x.vars()
            return (z3.BitVecVal(1 if self.decide(x) else 0, w)), frozenset()
        raise EngineUnsupported("bv %r" % (x,))

    def mk(self, e, w, v):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        return SBV(e, w, v)

    def mkb(self, z, v):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SBool("bv", z, v)

    def zext(self, x, w):
        if isinstance(x, int):
            return int(x)
        if x.__class__ is SBool:
            if x.op == "bv":
                return SBV(z3.If(x.a, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), w, x.vars(), b=x)
            return SBV(None, w, x.vars(), b=x)
        if x.__class__ is SBV:
            if x.b is not None:
                return SBV(None if x.e is None else z3.ZeroExt(w - x.w, x.e), w, x.v, b=x.b)
            return SBV(z3.ZeroExt(w - x.w, x.e), w, x.v)
        raise EngineUnsupported("zext %r" % (x,))

    def sext(self, x, w0, w):
        if isinstance(x, int):
            return sx(int(x), w0) & ((1 << w) - 1)
        if x.__class__ is SBool:
            return ((1 << w) - 1) if self.decide(x) else 0
        x = self.plain(x)
        if isinstance(x, int):
            return x
        return SBV(z3.SignExt(w - x.w, x.e), w, x.v)

    def plain(self, x):
        """SBV without a real-valued boolean inside (forks if needed)"""
        if x.__class__ is SBV and x.e is None:
            return 1 if self.decide(x.b) else 0
        return x

    def trunc(self, x, w):
        if isinstance(x, int):
            return int(x) & ((1 << w) - 1)
        if x.__class__ is SBV:
            if x.b is not None:
                return x.b if w == 1 else SBV(None if x.e is None else z3.Extract(w - 1, 0, x.e), w, x.v, b=x.b)
            if w == 1:
                return self.mkb(z3.Extract(0, 0, x.e) == 1, x.v)
            return self.mk(z3.Extract(w - 1, 0, x.e), w, x.v)
        if x.__class__ is RealBits:
            raise EngineUnsupported("trunc of double bits")
        raise EngineUnsupported("trunc %r" % (x,))

    def bin(self, op, x, y, w):
        if w == 1:
            x = self.tobool(x)
            y = self.tobool(y)
            if op == "and":
                return band(x, y)
            if op == "or":
                return bor(x, y)
            if op in ("xor", "add", "sub"):
                if isinstance(x, int) and isinstance(y, int):
                    return bool(x) != bool(y)
                if isinstance(x, int):
                    return bnot(y) if x else y
                if isinstance(y, int):
                    return bnot(x) if y else x
                return bor(band(x, bnot(y)), band(bnot(x), y))
            if op == "mul":
                return band(x, y)
            raise EngineUnsupported("i1 " + op)
        if x is None or y is None:
            return None
        x = self.plain(x)
        y = self.plain(y)
        if isinstance(x, int) and isinstance(y, int):
            return conc_bin(op, int(x), int(y), w)
        if x.__class__ is RealBits or y.__class__ is RealBits:
            r, k = (x, y) if x.__class__ is RealBits else (y, x)
            if k.__class__ is int:
                if op == "and" and k == 0x7fffffffffffffff:
                    return RealBits(self.fabs(r.r))
                if op == "xor" and k == 1 << 63:
                    return RealBits(self.fneg(r.r))
                if op == "and" and k == 1 << 63:
                    return (1 << 63) if self.decide(self.ctx.cmp("<", r.r.p)) else 0
                if op == "lshr" and k == 63 and x is r:
                    return 1 if self.decide(self.ctx.cmp("<", r.r.p)) else 0
            raise EngineUnsupported("%s on the bits of a symbolic double" % op)
        if op in ("udiv", "sdiv", "urem", "srem"):
            yb, yv = self.bv(y, w)
            if self.decide(self.mkb(yb == 0, yv)):
                raise UB("arith", "integer division by zero")
        a, va = self.bv(x, w)
        b, vb = self.bv(y, w)
        v = va | vb
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
             "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
             "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
             "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]
        return self.mk(f(), w, v)

    def icmp(self, op, x, y, w):
        if w == 1:
            x = self.tobool(x)
            y = self.tobool(y)
            if op == "eq":
                return bnot1(self.bin("xor", x, y, 1))
            if op == "ne":
                return self.bin("xor", x, y, 1)
        if x is None or y is None:
            return None
        # boolean widened: compare with constants 0/1
        for a, b in ((x, y), (y, x)):
            if a.__class__ is SBV and a.b is not None and isinstance(b, int) and op in ("eq", "ne"):
                if b == 0:
                    return bnot(a.b) if op == "eq" else a.b
                if b == 1:
                    return a.b if op == "eq" else bnot(a.b)
                return op == "ne"
        if x.__class__ is RealBits or y.__class__ is RealBits:
            if op == "slt" and y == 0:
                return self.ctx.cmp("<", x.r.p)
            if op == "sgt" and y == M64:
                return bnot1(self.ctx.cmp("<", x.r.p))
            if op == "sge" and y == 0:
                return bnot1(self.ctx.cmp("<", x.r.p))
            if op == "sle" and y == M64:
                return self.ctx.cmp("<", x.r.p)
            raise EngineUnsupported("icmp on the bits of a symbolic double")
        x = self.plain(x)
        y = self.plain(y)
        if isinstance(x, int) and isinstance(y, int):
            return conc_icmp(op, x, y, w)
        a, va = self.bv(x, w)
        b, vb = self.bv(y, w)
        z = {"eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b),
             "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "sgt": lambda: a > b, "sge": lambda: a >= b,
             "slt": lambda: a < b, "sle": lambda: a <= b}[op]()
        return self.mkb(z, va | vb)

    def select(self, c, x, y):
        c = self.tobool(c)
        if isinstance(c, int):
            return x if c else y
        if x is y:
            return x
        xb = x.__class__ in (bool, SBool)
        yb = y.__class__ in (bool, SBool)
        if (xb and (yb or y in (0, 1))) or (yb and x.__class__ is int and x in (0, 1)):
            if isinstance(x, int) and isinstance(y, int):
                if bool(x) == bool(y):
                    return x
                return c if x else bnot(c)
            return bor(band(c, x), band(bnot(c), y))
        if c.op == "bv" and (x.__class__ is SBV or isinstance(x, int)) and (y.__class__ is SBV or isinstance(y, int)):
            w = x.w if x.__class__ is SBV else (y.w if y.__class__ is SBV else None)
            if w is not None and not (x.__class__ is SBV and x.e is None) and not (y.__class__ is SBV and y.e is None):
                a, va = self.bv(x, w)
                b, vb = self.bv(y, w)
                return self.mk(z3.If(c.a, a, b), w, c.vars() | va | vb)
        return x if self.decide(c) else y

    def select1(self, c, x, y):
        """select between i1 values"""
        c = self.tobool(c)
        if isinstance(c, int):
            return x if c else y
        x = self.tobool(x) if x is not None else False
        y = self.tobool(y) if y is not None else False
        return bor(band(c, x), band(bnot(c), y))

    # ------------------------------------------------------------------ floats
    def rp(self, x):
        if x.__class__ is SReal:
            return x.p
        return pconst(toq(x))

    def mkr(self, p):
        if p.is_const():
            return float(p.const())
        return SReal(p)

    def fadd(self, x, y):
        if x.__class__ is float and y.__class__ is float:
            return x + y
        for a, b in ((x, y), (y, x)):
            if a.__class__ is float:
                if a != a or a in (math.inf, -math.inf):
                    return a
                if a == 0.0:
                    return b
        if x is None or y is None:
            return None
        return self.mkr(padd(self.rp(x), self.rp(y)))

    def fsub(self, x, y):
        if x.__class__ is float and y.__class__ is float:
            return x - y
        return self.fadd(x, self.fneg(y))

    def fneg(self, x):
        if x.__class__ is float:
            return -x
        if x is None:
            return None
        return SReal(pneg(x.p))

    def fmul(self, x, y):
        if x.__class__ is float and y.__class__ is float:
            return x * y
        if x is None or y is None:
            return None
        for a, b in ((x, y), (y, x)):
            if a.__class__ is float:
                if a != a:
                    return a
                if a in (math.inf, -math.inf):
                    if self.decide(self.ctx.cmp("==", b.p)):
                        return math.nan
                    return a if self.decide(self.ctx.cmp("<", pneg(b.p))) else -a
                if a == 0.0:
                    return 0.0
        return self.mkr(self.ctx.mul(self.rp(x), self.rp(y)))

    def fdiv(self, x, y):
        if x.__class__ is float and y.__class__ is float:
            if y == 0.0:
                if x == 0.0 or x != x:
                    return math.nan
                return math.copysign(math.inf, x) * math.copysign(1.0, y)
            return x / y
        if x is None or y is None:
            return None
        if y.__class__ is float:
            if y != y:
                return y
            if y in (math.inf, -math.inf):
                return 0.0
            if y == 0.0:
                if self.decide(self.ctx.cmp("==", x.p)):
                    return math.nan
                return math.inf * math.copysign(1.0, y) * (1.0 if self.decide(self.ctx.cmp("<", pneg(x.p))) else -1.0)
            if y == 1.0:
                return x
            return self.mkr(pscale(x.p, Fraction(1) / Fraction(toq(y))))
        if self.decide(self.ctx.cmp("==", y.p)):
            return self.fdiv(x, 0.0)
        if x.__class__ is float:
            if x == 0.0 or x != x:
                return x
            if x in (math.inf, -math.inf):
                return x if self.decide(self.ctx.cmp("<", pneg(y.p))) else -x
        xp = self.rp(x)
        r = ratio(xp, y.p)
        if r is None:
            r = self.ctx.div(xp, y.p)
        if r is not None:
            return float(r) if not isinstance(r, Poly) else self.mkr(r)
        return self.mkr(self.ctx.mul(xp, self.ctx.inv(y.p)))

    def fcmp(self, op, x, y):
        if x.__class__ is float and y.__class__ is float:
            return conc_fcmp(op, x, y)
        if x is None or y is None:
            return None
        if op == "ord":
            return not (x != x if x.__class__ is float else False) and not (y != y if y.__class__ is float else False)
        if op == "uno":
            return (x.__class__ is float and x != x) or (y.__class__ is float and y != y)
        for a, sgn in ((x, 1), (y, -1)):
            if a.__class__ is float:
                if a != a:
                    return op[0] == "u"
                if a in (math.inf, -math.inf):
                    big = (a > 0) == (sgn > 0)      # x is +inf-like relative to y
                    k = op[1:]
                    return {"eq": False, "ne": True, "gt": big, "ge": big, "lt": not big, "le": not big}[k]
        d = psub(self.rp(x), self.rp(y))
        self.ctx.acos_threshold(d) if len(d.t) <= 2 else None
        c = self.ctx.cmp
        k = op[1:]
        if k == "eq":
            return c("==", d)
        if k == "ne":
            return bnot1(c("==", d))
        if k == "lt":
            return c("<", d)
        if k == "le":
            return c("<=", d)
        if k == "gt":
            return c("<", pneg(d))
        return c("<=", pneg(d))

    def fabs(self, x):
        if x.__class__ is float:
            return abs(x)
        if x is None:
            return None
        if self.decide(self.ctx.cmp("<", x.p)):
            return SReal(pneg(x.p))
        return x

    def sqrt(self, x):
        if x.__class__ is float:
            return math.sqrt(x) if x >= 0 else math.nan
        if x is None:
            return None
        if not sumsq(x.p):
            if self.decide(self.ctx.cmp("<", x.p)):
                return math.nan
        p = x.p
        if p.is_const():
            return self.mkr(self.ctx.sqrt(p))
        r = perfect_root(p)
        if r is not None:
            return self.fabs(self.mkr(r))
        # sqrt(N/D^2) = sqrt(N)/|D|
        iv = self.ctx.invvars(p)
        if iv:
            w, e = iv[0]
            e = (e + 1) // 2
            a = self.ctx.vars[w].arg
            n0 = self.ctx.nabstract
            q = self.ctx.mul(p, self.ctx.pow(a, 2 * e))
            if self.ctx.nabstract == n0 and len(q.t) <= 1000:
                f = SReal(self.ctx.pow(self.ctx.var(self.ctx.vars[w]), e))
                return self.fmul(self.sqrt(self.mkr(q)), self.fabs(f) if e % 2 else f)
        # pull out a common even power: sqrt(v^2 Q) = |v| sqrt(Q)
        ms = [dict(m) for m in p.t]
        common = {v: min(m.get(v, 0) for m in ms) // 2 * 2 for v in ms[0]}
        common = {v: e for v, e in common.items() if e > 0}
        if not common:
            return self.mkr(self.ctx.sqrt(p))
        d = tuple(sorted(common.items()))
        rest = Poly({mdiv(m, d): c for m, c in p.t.items()})
        f = Poly({tuple((v, e // 2) for v, e in d): 1})
        if any(e // 2 % 2 for v, e in d):
            f = self.fabs(SReal(f))
        else:
            f = SReal(f)
        return self.fmul(f, self.mkr(self.ctx.sqrt(rest)))

    def f2i(self, x):
        if x.__class__ is float:
            return int.from_bytes(_pd.pack(x), "little")
        return None if x is None else RealBits(x)

    def i2f(self, x):
        if x.__class__ is RealBits:
            return x.r
        if x is None:
            return None
        return _pd.unpack(self.conc(x).to_bytes(8, "little"))[0]

    def si2f(self, x, w):
        if not isinstance(x, int):
            x = self.conc(x)
        return float(sx(int(x), w)) if w > 1 else float(-int(x))

    def ui2f(self, x, w):
        if not isinstance(x, int):
            x = self.conc(x)
        return float(int(x))

    def f2si(self, x, w):
        if x.__class__ is float:
            if x != x or abs(x) >= 2.0 ** w:
                return 1 << (w - 1)
            return int(x) & ((1 << w) - 1)
        # truncation of a symbolic real: fork over the feasible integers
        n = self.opts.get("max_conc", 64)
        lo, hi = self.ctx.bounds(x.p)
        if lo is None or hi is None or hi - lo > n:
            raise EngineUnsupported("float to int conversion of an unbounded value")
        for k in range(math.floor(lo), math.floor(hi) + 1):
            if self.decide(self.ctx.cmp("<", psub(x.p, pconst(k + 1)))):
                if k < 0 and not self.decide(self.ctx.cmp("==", psub(x.p, pconst(k)))):
                    return (k + 1) & ((1 << w) - 1)
                return k & ((1 << w) - 1)
        return math.floor(hi) & ((1 << w) - 1)

    def floor(self, x):
        if x.__class__ is float:
            return float(math.floor(x)) if x == x and abs(x) != math.inf else x
        lo, hi = self.ctx.bounds(x.p)
        if lo is None or hi is None or hi - lo > 64:
            raise EngineUnsupported("floor of an unbounded value")
        for k in range(math.floor(lo), math.floor(hi) + 1):
            if self.decide(self.ctx.cmp("<", psub(x.p, pconst(k + 1)))):
                return float(k)
        return float(math.floor(hi))

    # ------------------------------------------------------------------ aggregates, calls
    def insv(self, agg, idx, v, n):
        a = list(agg) if agg is not None else [None] * n
        if len(idx) == 1:
            a[idx[0]] = v
        else:
            a[idx[0]] = self.insv(a[idx[0]], idx[1:], v, 8)
        return tuple(a)

    def callptr(self, p, args):
        p = self._p(p)
        n = self.prog.byaddr.get(p)
        if n is None:
            raise UB("memory", "call through invalid function pointer 0x%x" % p)
        return self.callname(n, args)

    def callname(self, n, args):
        m = self.models.get(n)
        if m is not None:
            return m(self, *args)
        return self.F[n](*args)

    def byval(self, p, size):
        q = self.alloc(size, "stack")
        self.memcpy(q, p, size)
        return q

    # ------------------------------------------------------------------ exceptions
    def landingpad(self, clauses, cleanup):
        e = self.exc
        if e.ti is not None:
            for c in clauses:
                if c == 0 or self.ti_match(e.ti, c):
                    return (e, self.typeid(c))
        return (e, 0)

    def typeid(self, ti):
        return ((ti >> 32) & 0xffffff) + 1 if ti else 0x7fffffff

    def ti_name(self, ti):
        return self.prog.gbase.get(ti >> 32, "?")

    def ti_bases(self, ti):
        """[(base typeinfo, offset)]"""
        n = self.ti_name(ti)
        mod = self.prog.mod
        g = mod.globals.get(n)
        import models
        if g is None or mod.L.LLVMIsDeclaration(g):
            return [(self.prog.addr[b], 0) for b in models.STD_BASES.get(n, []) if b in self.prog.addr] + \
                   [("name:" + b, 0) for b in models.STD_BASES.get(n, []) if b not in self.prog.addr]
        vt = self.ld_i(ti, 8)
        vn = self.prog.gbase.get(vt >> 32, "")
        if vn == "_ZTVN10__cxxabiv120__si_class_type_infoE":
            return [(self.ld_i(ti + 16, 8), 0)]
        if vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE":
            cnt = self.ld_i(ti + 20, 4)
            out = []
            for i in range(cnt):
                b = self.ld_i(ti + 24 + 16 * i, 8)
                fl = sx(self.ld_i(ti + 32 + 16 * i, 8), 64)
                if not fl & 1:
                    out.append((b, fl >> 8))
            return out
        return []

    def ti_match(self, ti, want):
        if ti == want:
            return True
        wn = self.ti_name(want)
        if isinstance(ti, str):
            n = ti[5:]
            if n == wn:
                return True
            import models
            return any(self.ti_match("name:" + b, want) for b in models.STD_BASES.get(n, []))
        return any(self.ti_match(b, want) for b, _ in self.ti_bases(ti))

    def run_entry(self, name):
        try:
            self.F[name]()
        except RecursionError:
            raise EngineUnsupported("recursion limit")


def bnot1(x):
    if isinstance(x, int):
        return not x
    return bnot(x)


def sumsq(p):
    """syntactic: sum of even powers with positive coefficients"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for v, e in m:
            if e % 2:
                return False
    return True


def perfect_root(p):
    """polynomial r with r*r == p, or None (rational coefficients, graded lexicographic division)"""
    n = len(p.t)
    if n == 2 or n > 60 or n == 1:
        return None
    key = lambda m: (sum(e for _, e in m), [(-v, e) for v, e in m])
    lead = max(p.t, key=key)
    if any(e % 2 for _, e in lead):
        return None
    c = ratsqrt(p.t[lead])
    if c is None:
        return None
    lm = tuple((v, e // 2) for v, e in lead)
    r = {lm: Fraction(c)}
    rem = dict(p.t)
    del rem[lead]
    for _ in range(12):
        if not rem:
            return Poly({m: norm(k) for m, k in r.items()})
        m = max(rem, key=key)
        q = mdiv(m, lm)
        if q is None or q in r:
            return None
        k = Fraction(rem[m]) / (2 * c)
        for m2, k2 in list(r.items()):
            mm = mmul(q, m2)
            x = rem.get(mm, 0) - 2 * k * k2
            if x == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = x
        mm = mmul(q, q)
        x = rem.get(mm, 0) - k * k
        if x == 0:
            rem.pop(mm, None)
        else:
            rem[mm] = x
        r[q] = k
    return None


def ratio(a, b):
    """a/b when a is a constant multiple of b (or b a monomial dividing a)"""
    if not a.t:
        return 0.0
    if len(a.t) == len(b.t):
        k = None
        for m, c in a.t.items():
            d = b.t.get(m)
            if d is None:
                k = None
                break
            q = Fraction(c) / Fraction(d)
            if k is None:
                k = q
            elif k != q:
                k = None
                break
        else:
            return k
    if len(b.t) == 1:
        (m, c), = b.t.items()
        t = {}
        for ma, ca in a.t.items():
            q = mdiv(ma, m)
            if q is None:
                return None
            t[q] = norm(Fraction(ca) / Fraction(c))
        return Poly(t)
    return None


def conc_bin(op, x, y, w):
    m = (1 << w) - 1
    if op == "add":
        return (x + y) & m
    if op == "sub":
        return (x - y) & m
    if op == "mul":
        return (x * y) & m
    if op == "and":
        return x & y
    if op == "or":
        return x | y
    if op == "xor":
        return x ^ y
    if op == "shl":
        return (x << y) & m if y < w else 0
    if op == "lshr":
        return x >> y if y < w else 0
    if op == "ashr":
        return (sx(x, w) >> min(y, w - 1)) & m
    if y == 0:
        raise UB("arith", "integer division by zero")
    if op == "udiv":
        return x // y
    if op == "urem":
        return x % y
    a, b = sx(x, w), sx(y, w)
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    if op == "sdiv":
        return q & m
    return (a - q * b) & m


def conc_icmp(op, x, y, w):
    x, y = int(x), int(y)
    if op == "eq":
        return x == y
    if op == "ne":
        return x != y
    if op[0] == "s":
        x, y = sx(x, w), sx(y, w)
    return {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[op[1:]]


def conc_fcmp(op, x, y):
    nan = x != x or y != y
    if op == "ord":
        return not nan
    if op == "uno":
        return nan
    if nan:
        return op[0] == "u"
    k = op[1:]
    return {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[k]


def f80_to_float(b):
    man = int.from_bytes(b[:8], "little")
    se = int.from_bytes(b[8:10], "little")
    e = se & 0x7fff
    if e == 0 and man == 0:
        return 0.0
    try:
        r = math.ldexp(man, e - 16383 - 63)
    except OverflowError:
        r = math.inf
    return -r if se >> 15 else r


# ---------------------------------------------------------------------- constants
def const_value(prog, v):
    """python value of an LLVM constant (scalars and aggregates)"""
    mod = prog.mod
    L = mod.L
    k = L.LLVMGetValueKind(v)
    ty = mod.tyof(v)
    if k == llvmir.VK_CINT:
        if ty.bits <= 64:
            return L.LLVMConstIntGetZExtValue(v) & ((1 << ty.bits) - 1)
        s = mod.print(v).split()[-1]
        return int(s) & ((1 << ty.bits) - 1)
    if k == llvmir.VK_CFP:
        li = llvmir.C.c_int()
        return L.LLVMConstRealGetDouble(v, llvmir.C.byref(li))
    if k == llvmir.VK_NULL:
        return 0
    if k in (llvmir.VK_FUNC, llvmir.VK_GVAR, llvmir.VK_ALIAS):
        return prog.addr[mod.name(v)]
    if k in (llvmir.VK_UNDEF, llvmir.VK_POISON):
        return undef_of(ty)
    if k == llvmir.VK_CAGGZERO:
        return zero_of(ty)
    if k in (llvmir.VK_CARRAY, llvmir.VK_CSTRUCT, llvmir.VK_CVECTOR, llvmir.VK_CDARRAY, llvmir.VK_CDVECTOR):
        return tuple(const_value(prog, L.LLVMGetAggregateElement(v, i)) for i in range(ty.n))
    if k == llvmir.VK_CEXPR:
        op = OPC[L.LLVMGetConstOpcode(v)]
        ops = [L.LLVMGetOperand(v, i) for i in range(L.LLVMGetNumOperands(v))]
        if op == "gep":
            base = const_value(prog, ops[0])
            return (base + gep_const(prog, mod.ty(L.LLVMGetGEPSourceElementType(v)),
                                     [sx(const_value(prog, o), mod.tyof(o).bits) for o in ops[1:]])) & M64
        if op in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "addrspacecast"):
            x = const_value(prog, ops[0])
            if op == "trunc" or op == "ptrtoint":
                x &= (1 << ty.bits) - 1
            return x
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
            return conc_bin(op, const_value(prog, ops[0]), const_value(prog, ops[1]), ty.bits)
        if op == "icmp":
            return conc_icmp(ICMP[L.LLVMGetICmpPredicate(v)], const_value(prog, ops[0]), const_value(prog, ops[1]), 64)
        raise EngineUnsupported("constant expression " + op)
    # poison
    s = mod.print(v)
    if "poison" in s or "undef" in s:
        return undef_of(ty)
    raise EngineUnsupported("constant kind %d: %s" % (k, s[:80]))


def undef_of(ty):
    if ty.kind in ("struct",):
        return tuple(undef_of(e) for e in ty.elems)
    if ty.kind in ("array", "vector"):
        return tuple(undef_of(ty.elems[0]) for _ in range(ty.n))
    return None


def zero_of(ty):
    if ty.kind == "struct":
        return tuple(zero_of(e) for e in ty.elems)
    if ty.kind in ("array", "vector"):
        return tuple(zero_of(ty.elems[0]) for _ in range(ty.n))
    if ty.kind in ("double", "float", "x86_fp80"):
        return 0.0
    return 0


def gep_const(prog, ty, idx):
    off = idx[0] * ty.size
    for i in idx[1:]:
        if ty.kind == "struct":
            off += ty.offs[i]
            ty = ty.elems[i]
        else:
            ty = ty.elems[0]
            off += i * ty.size
    return off


def _const_bytes(prog, v, ty, buf, off):
    L = prog.mod.L
    k = L.LLVMGetValueKind(v)
    if k in (llvmir.VK_CAGGZERO, llvmir.VK_UNDEF, llvmir.VK_NULL):
        return
    if k == llvmir.VK_CDARRAY and L.LLVMIsConstantString(v):
        n = llvmir.C.c_size_t()
        p = L.LLVMGetAsString(v, llvmir.C.byref(n))
        b = llvmir.C.string_at(p, n.value)
        buf[off:off + len(b)] = b
        return
    if ty.kind == "struct":
        for i in range(ty.n):
            _const_bytes(prog, L.LLVMGetAggregateElement(v, i), ty.elems[i], buf, off + ty.offs[i])
        return
    if ty.kind in ("array", "vector"):
        e = ty.elems[0]
        for i in range(ty.n):
            _const_bytes(prog, L.LLVMGetAggregateElement(v, i), e, buf, off + i * e.size)
        return
    x = const_value(prog, v)
    if x is None:
        return
    if ty.kind == "double":
        buf[off:off + 8] = _pd.pack(x)
    elif ty.kind == "float":
        buf[off:off + 4] = _pf.pack(x)
    elif ty.kind == "x86_fp80":
        m, e = math.frexp(abs(x))
        man = int(m * (1 << 64)) if x else 0
        buf[off:off + 8] = man.to_bytes(8, "little")
        buf[off + 8:off + 10] = ((e - 1 + 16383 if x else 0) | (0x8000 if x < 0 else 0)).to_bytes(2, "little")
    else:
        n = ty.store
        buf[off:off + n] = (x & ((1 << (8 * n)) - 1)).to_bytes(n, "little")


# ---------------------------------------------------------------------- code generation
class _FDict(dict):
    def __init__(self, rt):
        self.rt = rt

    def __missing__(self, name):
        rt = self.rt
        m = rt.models.get(name)
        if m is not None:
            f = lambda *a: m(rt, *a)
            self[name] = f
            return f
        fv = rt.prog.mod.functions.get(name)
        if fv is None or rt.prog.mod.is_decl(fv):
            import models
            f = models.fallback(rt, name)
            if f is None:
                def f(*a):
                    raise EngineUnsupported("call of external function " + name)
            self[name] = f
            return f
        code = rt.prog.code.get(name)
        if code is None:
            src, consts = FuncGen(rt.prog, fv, rt.models, name).gen()
            code = rt.prog.code[name] = (compile(src, "<ir:" + name[:60] + ">", "exec"), consts, src)
            rt.prog.compiled.append(name)
        ns = {"R": rt, "F": self, "CxxThrow": CxxThrow, "UB": UB, "M": rt.models, "K": code[1], "inf": math.inf,
              "nan": math.nan, "SBool": SBool}
        exec(code[0], ns)
        f = ns["f"]
        self[name] = f
        return f


class FuncGen:
    def __init__(self, prog, fv, models, name):
        self.prog = prog
        self.mod = prog.mod
        self.L = prog.mod.L
        self.fv = fv
        self.models = models
        self.name = name
        self.reg = {}
        self.consts = []

    def lit(self, x):
        if x is None:
            return "None"
        if isinstance(x, float):
            return repr(x) if x == x and abs(x) != math.inf else ("nan" if x != x else ("inf" if x > 0 else "(-inf)"))
        if isinstance(x, int):
            return str(int(x))
        if isinstance(x, tuple):
            return "(" + "".join(self.lit(y) + "," for y in x) + ")"
        raise EngineUnsupported("literal")

    def val(self, v):
        r = self.reg.get(v)
        if r is not None:
            return r
        k = self.L.LLVMGetValueKind(v)
        if k in (llvmir.VK_ARG, llvmir.VK_INSTR):
            raise EngineUnsupported("unnumbered value")
        try:
            return self.lit(const_value(self.prog, v))
        except KeyError as e:
            raise EngineUnsupported("unknown constant %s" % e)

    def gen(self):
        L = self.L
        mod = self.mod
        fv = self.fv
        params = []
        p = L.LLVMGetFirstParam(fv)
        i = 0
        pre = []
        while p:
            self.reg[p] = "a%d" % i
            params.append("a%d" % i)
            bs = byval_size(mod, fv, i)
            if bs:
                pre.append("a%d = R.byval(a%d, %d)" % (i, i, bs))
            i += 1
            p = L.LLVMGetNextParam(p)
        blocks = []
        self.bid = {}
        b = L.LLVMGetFirstBasicBlock(fv)
        while b:
            self.bid[b] = len(blocks)
            ins = []
            x = L.LLVMGetFirstInstruction(b)
            while x:
                ins.append(x)
                self.reg[x] = "r%d" % len(self.reg)
                x = L.LLVMGetNextInstruction(x)
            blocks.append((b, ins))
            b = L.LLVMGetNextBasicBlock(b)
        self.blocks = blocks
        # phis
        self.phis = {}
        for b, ins in blocks:
            ph = []
            for x in ins:
                if OPC[L.LLVMGetInstructionOpcode(x)] != "phi":
                    break
                inc = {}
                for j in range(L.LLVMCountIncoming(x)):
                    inc[L.LLVMGetIncomingBlock(x, j)] = L.LLVMGetIncomingValue(x, j)
                ph.append((x, inc))
            self.phis[b] = ph
        body = {}
        for b, ins in blocks:
            out = []
            self.cur = b
            for x in ins:
                self.instr(x, out)
            body[self.bid[b]] = out
        lines = ["def f(%s):" % ", ".join(params + ["*_va"] if L.LLVMIsFunctionVarArg(L.LLVMGlobalGetValueType(fv)) else params)]
        for s in pre:
            lines.append(" " + s)
        n = len(blocks)
        if n == 1:
            for s in body[0]:
                lines.append(" " + s)
        else:
            lines.append(" bb = 0")
            lines.append(" while True:")
            self.tree(lines, 0, n, body, "  ")
        return "\n".join(lines) + "\n", self.consts

    def tree(self, lines, lo, hi, body, ind):
        if hi - lo == 1:
            for s in body[lo]:
                lines.append(ind + s)
            return
        mid = (lo + hi) // 2
        lines.append(ind + "if bb < %d:" % mid)
        self.tree(lines, lo, mid, body, ind + " ")
        lines.append(ind + "else:")
        self.tree(lines, mid, hi, body, ind + " ")

    def jump(self, target, ind=""):
        """statements to go to target from the current block"""
        out = []
        ph = self.phis[target]
        if ph:
            l = ", ".join(self.reg[x] for x, _ in ph)
            r = ", ".join(self.val(inc[self.cur]) for _, inc in ph)
            if l != r:
                out.append(ind + "%s = %s" % (l, r))
        t = self.bid[target]
        if t <= self.bid[self.cur]:
            out.append(ind + "R.steps += 1")
            out.append(ind + "if R.steps > R.maxsteps: raise UB('nontermination', 'step limit')")
        out.append(ind + "bb = %d" % t)
        out.append(ind + "continue")
        return out

    def isint(self, *ops):
        c = " and ".join("%s.__class__ is int" % o for o in ops if not o.lstrip("-").isdigit())
        return c or "True"

    def instr(self, x, out):
        L = self.L
        mod = self.mod
        op = OPC[L.LLVMGetInstructionOpcode(x)]
        r = self.reg[x]
        ty = mod.tyof(x)
        nops = L.LLVMGetNumOperands(x)

        def o(i):
            return self.val(L.LLVMGetOperand(x, i))

        def oty(i):
            return mod.tyof(L.LLVMGetOperand(x, i))
        if op == "phi":
            return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            if ty.kind == "vector":
                out.append("%s = tuple(R.bin(%r,p,q,%d) for p,q in zip(%s,%s))" % (r, op, ty.elems[0].bits, o(0), o(1)))
                return
            w = ty.bits
            a, b = o(0), o(1)
            if w == 1 or op not in ("add", "sub", "mul", "and", "or", "xor"):
                out.append("%s = R.bin(%r,%s,%s,%d)" % (r, op, a, b, w))
                return
            sym = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}[op]
            e = "(%s%s%s)" % (a, sym, b)
            if op in ("add", "sub", "mul"):
                e += "&%d" % ((1 << w) - 1)
            out.append("%s = %s if %s else R.bin(%r,%s,%s,%d)" % (r, e, self.isint(a, b), op, a, b, w))
            return
        if op == "icmp":
            pr = ICMP[L.LLVMGetICmpPredicate(x)]
            t0 = oty(0)
            if t0.kind == "vector":
                raise EngineUnsupported("vector icmp")
            w = 64 if t0.kind == "ptr" else t0.bits
            a, b = o(0), o(1)
            if w == 1:
                out.append("%s = R.icmp(%r,%s,%s,1)" % (r, pr, a, b))
                return
            cs = {"eq": "==", "ne": "!=", "ugt": ">", "uge": ">=", "ult": "<", "ule": "<=", "sgt": ">", "sge": ">=",
                  "slt": "<", "sle": "<="}[pr]
            if pr[0] == "s":
                S = 1 << (w - 1)
                e = "((%s)^%d) %s ((%s)^%d)" % (a, S, cs, b, S)
            else:
                e = "%s %s %s" % (a, cs, b)
            out.append("%s = (%s) if %s else R.icmp(%r,%s,%s,%d)" % (r, e, self.isint(a, b), pr, a, b, w))
            return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            if ty.kind == "vector":
                out.append("%s = tuple(R.%s(p,q) for p,q in zip(%s,%s))" % (r, op, o(0), o(1)))
                return
            if op == "frem":
                out.append("%s = M['fmod'](R,%s,%s)" % (r, o(0), o(1)))
                return
            out.append("%s = R.%s(%s,%s)" % (r, op, o(0), o(1)))
            return
        if op == "fneg":
            out.append("%s = R.fneg(%s)" % (r, o(0)))
            return
        if op == "fcmp":
            pr = FCMP[L.LLVMGetFCmpPredicate(x)]
            if pr in ("false", "true"):
                out.append("%s = %s" % (r, pr == "true"))
                return
            out.append("%s = R.fcmp(%r,%s,%s)" % (r, pr, o(0), o(1)))
            return
        if op == "alloca":
            t = mod.ty(L.LLVMGetAllocatedType(x))
            n = o(0)
            out.append("%s = R.alloca(%d%s)" % (r, t.size, "" if n == "1" else ", R.conc(%s)" % n))
            return
        if op == "load":
            out.append("%s = %s" % (r, self.load(ty, o(0))))
            return
        if op == "store":
            self.store(oty(0), o(0), o(1), out)
            return
        if op == "gep":
            t = mod.ty(L.LLVMGetGEPSourceElementType(x))
            if ty.kind == "vector":
                raise EngineUnsupported("vector gep")
            base = o(0)
            const = 0
            terms = []
            first = True
            for i in range(1, nops):
                iv = L.LLVMGetOperand(x, i)
                if first:
                    scale = t.size
                    first = False
                elif t.kind == "struct":
                    k = const_value(self.prog, iv)
                    const += t.offs[k]
                    t = t.elems[k]
                    continue
                else:
                    t = t.elems[0]
                    scale = t.size
                if iv in self.reg:
                    w = mod.tyof(iv).bits
                    terms.append((self.reg[iv], scale, w))
                else:
                    k = const_value(self.prog, iv)
                    const += sx(k, mod.tyof(iv).bits) * scale
            e = base
            for rg, scale, w in terms:
                S = 1 << (w - 1)
                e = "(%s + ((((%s if %s.__class__ is int else R.conc(%s))^%d)-%d)*%d))" % (e, rg, rg, rg, S, S, scale)
            if const:
                e = "(%s + %d)" % (e, const)
            if e is not base:
                if base.isdigit():
                    out.append("%s = (%s)&%d" % (r, e, M64))
                else:
                    out.append("if %s.__class__ is not int: %s = R.conc(%s)" % (base, base, base))
                    out.append("%s = (%s)&%d" % (r, e, M64))
            else:
                out.append("%s = %s" % (r, e))
            return
        if op in ("trunc",):
            w = ty.bits
            a = o(0)
            if w == 1:
                out.append("%s = (%s&1) if %s.__class__ is int else R.trunc(%s,1)" % (r, a, a, a))
            else:
                out.append("%s = (%s&%d) if %s.__class__ is int else R.trunc(%s,%d)" % (r, a, (1 << w) - 1, a, a, w))
            return
        if op == "zext":
            a = o(0)
            out.append("%s = %s if %s.__class__ is int else R.zext(%s,%d)" % (r, a, a, a, ty.bits))
            return
        if op == "sext":
            out.append("%s = R.sext(%s,%d,%d)" % (r, o(0), oty(0).bits, ty.bits))
            return
        if op in ("ptrtoint", "inttoptr", "addrspacecast"):
            a = o(0)
            if op == "ptrtoint" and ty.bits < 64:
                out.append("%s = %s & %d" % (r, a, (1 << ty.bits) - 1))
            else:
                out.append("%s = %s" % (r, a))
            return
        if op == "freeze":
            out.append("%s = %s" % (r, o(0)))
            return
        if op == "bitcast":
            t0 = oty(0)
            if t0.kind == "double" and ty.kind == "int":
                out.append("%s = R.f2i(%s)" % (r, o(0)))
            elif t0.kind == "int" and ty.kind == "double":
                out.append("%s = R.i2f(%s)" % (r, o(0)))
            elif t0.kind == ty.kind:
                out.append("%s = %s" % (r, o(0)))
            elif t0.kind == "float" and ty.kind == "int":
                out.append("%s = M['_f32bits'](R,%s)" % (r, o(0)))
            elif t0.kind == "int" and ty.kind == "float":
                out.append("%s = M['_bitsf32'](R,%s)" % (r, o(0)))
            else:
                raise EngineUnsupported("bitcast %s->%s" % (t0.kind, ty.kind))
            return
        if op in ("fpext",):
            out.append("%s = %s" % (r, o(0)))
            return
        if op == "fptrunc":
            if ty.kind == "float":
                out.append("%s = M['_round32'](R,%s)" % (r, o(0)))
            else:
                out.append("%s = %s" % (r, o(0)))
            return
        if op in ("fptosi", "fptoui"):
            out.append("%s = R.f2si(%s,%d)" % (r, o(0), ty.bits))
            return
        if op == "sitofp":
            out.append("%s = R.si2f(%s,%d)" % (r, o(0), oty(0).bits))
            return
        if op == "uitofp":
            out.append("%s = R.ui2f(%s,%d)" % (r, o(0), oty(0).bits))
            return
        if op == "select":
            c, a, b = o(0), o(1), o(2)
            if oty(0).kind == "vector":
                raise EngineUnsupported("vector select")
            fn = "select1" if ty.kind == "int" and ty.bits == 1 else "select"
            out.append("%s = (%s if %s else %s) if (%s.__class__ is int or %s.__class__ is bool) else R.%s(%s,%s,%s)"
                       % (r, a, c, b, c, c, fn, c, a, b) if not c.isdigit() else "%s = %s" % (r, a if c != "0" else b))
            return
        if op == "extractvalue":
            n = L.LLVMGetNumIndices(x)
            idx = L.LLVMGetIndices(x)
            out.append("%s = %s%s" % (r, o(0), "".join("[%d]" % idx[i] for i in range(n))))
            return
        if op == "insertvalue":
            n = L.LLVMGetNumIndices(x)
            idx = L.LLVMGetIndices(x)
            out.append("%s = R.insv(%s,(%s),%s,%d)" % (r, o(0), "".join("%d," % idx[i] for i in range(n)), o(1), ty.n))
            return
        if op == "extractelement":
            out.append("%s = %s[R.conc(%s)]" % (r, o(0), o(1)))
            return
        if op == "insertelement":
            out.append("%s = R.insv(%s,(R.conc(%s),),%s,%d)" % (r, o(0), o(2), o(1), ty.n))
            return
        if op == "shufflevector":
            n = L.LLVMGetNumMaskElements(x)
            ms = [L.LLVMGetMaskValue(x, i) for i in range(n)]
            n0 = oty(0).n
            parts = []
            for m in ms:
                parts.append("None" if m < 0 else ("%s[%d]" % (o(0), m) if m < n0 else "%s[%d]" % (o(1), m - n0)))
            out.append("%s = (%s,)" % (r, ", ".join(parts)))
            return
        if op == "br":
            if L.LLVMIsConditional(x):
                c = self.val(L.LLVMGetCondition(x))
                if c.isdigit():
                    out.extend(self.jump(L.LLVMGetSuccessor(x, 0 if c != "0" else 1)))
                    return
                out.append("if (%s if (%s.__class__ is bool or %s.__class__ is int) else R.decide(%s)):" % (c, c, c, c))
                out.extend(self.jump(L.LLVMGetSuccessor(x, 0), " "))
                out.extend(self.jump(L.LLVMGetSuccessor(x, 1)))
            else:
                out.extend(self.jump(L.LLVMGetSuccessor(x, 0)))
            return
        if op == "switch":
            c = o(0)
            w = oty(0).bits
            out.append("_c = %s" % c)
            for i in range(2, nops, 2):
                k = const_value(self.prog, L.LLVMGetOperand(x, i))
                tgt = L.LLVMValueAsBasicBlock(L.LLVMGetOperand(x, i + 1))
                out.append("if (_c == %d) if _c.__class__ is int else R.decide(R.icmp('eq',_c,%d,%d)):" % (k, k, w))
                out.extend(self.jump(tgt, " "))
            out.extend(self.jump(L.LLVMGetSwitchDefaultDest(x)))
            return
        if op == "ret":
            out.append("return %s" % (o(0) if nops else "None"))
            return
        if op == "unreachable":
            out.append("raise UB('unreachable','unreachable code executed in %s')" % self.name[:80])
            return
        if op == "call":
            out.append(self.call(x, r, ty, False))
            return
        if op == "invoke":
            out.append("try:")
            out.append(" " + self.call(x, r, ty, True))
            out.append("except CxxThrow as _e:")
            out.append(" R.exc = _e")
            out.extend(self.jump(L.LLVMGetUnwindDest(x), " "))
            out.extend(self.jump(L.LLVMGetNormalDest(x)))
            return
        if op == "landingpad":
            n = L.LLVMGetNumClauses(x)
            cl = []
            for i in range(n):
                c = L.LLVMGetClause(x, i)
                if mod.tyof(c).kind == "array":
                    continue      # filter
                cl.append(self.val(c))
            out.append("%s = R.landingpad((%s),%d)" % (r, "".join(c + "," for c in cl), L.LLVMIsCleanup(x)))
            return
        if op == "resume":
            out.append("raise %s[0]" % o(0))
            return
        if op == "fence":
            return
        if op == "cmpxchg":
            t = oty(1)
            n = 8 if t.kind == "ptr" else t.store
            out.append("_old = R.ld_i(%s,%d)" % (o(0), n))
            out.append("_ok = _old == R.conc(%s)" % o(1))
            out.append("if _ok: R.st_i(%s,%s,%d)" % (o(0), o(2), n))
            out.append("%s = (_old,_ok)" % r)
            return
        if op == "atomicrmw":
            k = L.LLVMGetAtomicRMWBinOp(x)
            n = ty.store
            out.append("%s = R.ld_i(%s,%d)" % (r, o(0), n))
            f = {0: o(1), 1: "R.bin('add',%s,%s,%d)" % (r, o(1), 8 * n), 2: "R.bin('sub',%s,%s,%d)" % (r, o(1), 8 * n),
                 3: "R.bin('and',%s,%s,%d)" % (r, o(1), 8 * n), 5: "R.bin('or',%s,%s,%d)" % (r, o(1), 8 * n)}.get(k)
            if f is None:
                raise EngineUnsupported("atomicrmw")
            out.append("R.st_i(%s,%s,%d)" % (o(0), f, n))
            return
        raise EngineUnsupported("instruction " + op)

    def load(self, ty, p):
        if ty.kind == "int":
            if ty.bits == 1:
                return "R.trunc(R.ld_i(%s,1),1)" % p
            if ty.bits % 8:
                return "R.trunc(R.ld_i(%s,%d),%d)" % (p, ty.store, ty.bits)
            return "R.ld_i(%s,%d)" % (p, ty.bits // 8)
        if ty.kind == "ptr":
            return "R.ld_i(%s,8)" % p
        if ty.kind == "double":
            return "R.ld_f(%s)" % p
        if ty.kind == "float":
            return "R.ld_f32(%s)" % p
        if ty.kind == "x86_fp80":
            return "R.ld_f80(%s)" % p
        if ty.kind == "struct":
            return "(" + "".join(self.load(e, "%s+%d" % (p, off)) + "," for e, off in zip(ty.elems, ty.offs)) + ")"
        if ty.kind in ("array", "vector"):
            e = ty.elems[0]
            return "(" + "".join(self.load(e, "%s+%d" % (p, i * e.size)) + "," for i in range(ty.n)) + ")"
        raise EngineUnsupported("load " + ty.kind)

    def store(self, ty, v, p, out):
        if ty.kind == "int":
            n = (ty.bits + 7) // 8
            out.append("R.st_i(%s,%s,%d)" % (p, v, n))
        elif ty.kind == "ptr":
            out.append("R.st_i(%s,%s,8)" % (p, v))
        elif ty.kind == "double":
            out.append("R.st_f(%s,%s)" % (p, v))
        elif ty.kind == "float":
            out.append("R.st_f32(%s,%s)" % (p, v))
        elif ty.kind == "x86_fp80":
            out.append("R.st_f80(%s,%s)" % (p, v))
        elif ty.kind == "struct":
            for i, (e, off) in enumerate(zip(ty.elems, ty.offs)):
                self.store(e, "%s[%d]" % (v, i), "%s+%d" % (p, off), out)
        elif ty.kind in ("array", "vector"):
            e = ty.elems[0]
            for i in range(ty.n):
                self.store(e, "%s[%d]" % (v, i), "%s+%d" % (p, i * e.size), out)
        else:
            raise EngineUnsupported("store " + ty.kind)

    def call(self, x, r, ty, invoke):
        L = self.L
        cv = L.LLVMGetCalledValue(x)
        n = L.LLVMGetNumArgOperands(x)
        args = []
        name = None
        if L.LLVMGetValueKind(cv) in (llvmir.VK_FUNC, llvmir.VK_ALIAS):
            name = self.mod.name(cv)
        if name and name.startswith("llvm."):
            return self.intrinsic(name, x, r, ty)
        for i in range(n):
            args.append(self.val(L.LLVMGetOperand(x, i)))
        a = ", ".join(args)
        if name is None:
            if self.L.LLVMGetValueKind(cv) == llvmir.VK_ASM:
                return "raise UB('unsupported','inline asm')"
            return "%s = R.callptr(%s, (%s))" % (r, self.val(cv), "".join(y + "," for y in args))
        if name in self.models:
            return "%s = M[%r](R%s)" % (r, name, "".join(", " + y for y in args))
        return "%s = F[%r](%s)" % (r, name, a)

    def intrinsic(self, name, x, r, ty):
        L = self.L
        n = L.LLVMGetNumArgOperands(x)

        def a(i):
            return self.val(L.LLVMGetOperand(x, i))
        b = name.split(".")[1]
        if b in ("dbg", "lifetime", "assume", "invariant", "prefetch", "donothing", "stackrestore", "experimental"):
            return "pass"
        if b == "stacksave":
            return "%s = 0" % r
        if b in ("memcpy", "memmove"):
            return "R.memcpy(%s,%s,%s)" % (a(0), a(1), a(2))
        if b == "memset":
            return "R.memset(%s,%s,%s)" % (a(0), a(1), a(2))
        if b == "expect":
            return "%s = %s" % (r, a(0))
        if b == "trap" or b == "ubsantrap":
            return "raise UB('trap','llvm.trap')"
        if b == "eh" and "typeid" in name:
            return "%s = R.typeid(%s)" % (r, a(0))
        if b in ("fabs", "sqrt", "floor"):
            return "%s = R.%s(%s)" % (r, b, a(0))
        if b == "fmuladd" or b == "fma":
            return "%s = R.fadd(R.fmul(%s,%s),%s)" % (r, a(0), a(1), a(2))
        if b in ("with",):
            pass
        if b in ("umul", "uadd", "usub", "smul", "sadd", "ssub") and "overflow" in name:
            w = ty.elems[0].bits
            return "%s = M['_ovf'](R,%r,%s,%s,%d)" % (r, b, a(0), a(1), w)
        if b in ("umax", "umin", "smax", "smin"):
            w = ty.bits
            pr = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[b]
            return "%s = R.select(R.icmp(%r,%s,%s,%d),%s,%s)" % (r, pr, a(0), a(1), w, a(0), a(1))
        if b == "abs":
            w = ty.bits
            return "%s = R.select(R.icmp('slt',%s,0,%d),R.bin('sub',0,%s,%d),%s)" % (r, a(0), w, a(0), w, a(0))
        if b in ("maxnum", "minnum", "copysign", "pow", "sin", "cos", "exp", "log", "ceil", "trunc", "round", "rint"):
            nm = {"maxnum": "fmax", "minnum": "fmin"}.get(b, b)
            return "%s = M[%r](R,%s)" % (r, nm, ", ".join(a(i) for i in range(n)))
        if name.startswith("llvm.is.fpclass"):
            return "%s = M['_fpclass'](R,%s,%s)" % (r, a(0), a(1))
        if name.startswith("llvm.is.constant"):
            return "%s = False" % r
        if b == "objectsize":
            return "%s = %d" % (r, M64)
        if b in ("ctlz", "cttz", "ctpop", "bswap"):
            return "%s = M['_%s'](R,%s,%d)" % (r, b, a(0), ty.bits)
        if b in ("usub", "uadd", "ssub", "sadd") and "sat" in name:
            return "%s = M['_%ssat'](R,%s,%s,%d)" % (r, b, a(0), a(1), ty.bits)
        if b in ("fshl", "fshr"):
            return "%s = M['_%s'](R,%s,%s,%s,%d)" % (r, b, a(0), a(1), a(2), ty.bits)
        if b == "threadlocal":
            return "%s = %s" % (r, a(0))
        raise EngineUnsupported("intrinsic " + name)


_attr = {}


def byval_size(mod, fv, i):
    L = mod.L
    if "k" not in _attr:
        f = L.LLVMGetEnumAttributeKindForName
        f.restype = llvmir.UI
        f.argtypes = [llvmir.C.c_char_p, llvmir.C.c_size_t]
        _attr["k"] = f(b"byval", 5)
        g = L.LLVMGetEnumAttributeAtIndex
        g.restype = llvmir.P
        g.argtypes = [llvmir.P, llvmir.UI, llvmir.UI]
        h = L.LLVMGetTypeAttributeValue
        h.restype = llvmir.P
        h.argtypes = [llvmir.P]
    at = L.LLVMGetEnumAttributeAtIndex(fv, i + 1, _attr["k"])
    if not at:
        return 0
    return mod.ty(L.LLVMGetTypeAttributeValue(at)).size
