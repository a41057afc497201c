"""Models of functions that have no IR: the harness interface, the C/C++ runtime and libm.
Everything a claim trusts outside the repository's own code is either here or in /verif/stubs."""
import math, struct
from fractions import Fraction
import z3
from values import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


STD_BASES = {
    "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
    "_ZTISt12length_error": ["_ZTISt11logic_error"],
    "_ZTISt12domain_error": ["_ZTISt11logic_error"],
    "_ZTISt11range_error": ["_ZTISt13runtime_error"],
    "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"],
    "_ZTISt8bad_cast": ["_ZTISt9exception"],
    "_ZTISt10bad_typeid": ["_ZTISt9exception"],
    "_ZTISt18bad_variant_access": ["_ZTISt9exception"],
    "_ZTISt17bad_function_call": ["_ZTISt9exception"],
    "_ZTISt12system_error": ["_ZTISt13runtime_error"],
    "_ZTINSt8ios_base7failureB5cxx11E": ["_ZTISt12system_error"],
    "_ZTINSt6locale5facetE": [],
}


# ------------------------------------------------------------------ harness interface
def _inp(R, name, kind, val):
    R.inputs.append((name, kind, val))
    return val


@model("sym_real")
def sym_real(R, name, lo, hi):
    n = R.cstr(name).decode()
    v = R.ctx.new(n, "in")
    v.inp = True
    v.lo, v.hi = Fraction(toq(lo)), Fraction(toq(hi))
    v.lo0, v.hi0 = v.lo, v.hi
    p = R.ctx.var(v)
    v.axioms += [SBool("<=", psub(p, pconst(toq(hi)))), SBool("<=", psub(pconst(toq(lo)), p))]
    return _inp(R, n, "real", SReal(p))


@model("sym_angle")
def sym_angle(R, name, lo, hi):
    """an angle: on replay its value is recovered from its cosine and sine when those were used"""
    r = sym_real(R, name, lo, hi)
    n, k, v = R.inputs.pop()
    R.inputs.append((n, "angle", v))
    return r


def sym_unit(R, name, out, comps):
    """arbitrary vector with unit Euclidean norm"""
    n = R.cstr(name).decode()
    vs = []
    for c in comps:
        v = R.ctx.new(n + "." + c, "in")
        v.inp = True
        v.lo, v.hi = Fraction(-1), Fraction(1)
        v.lo0, v.hi0 = v.lo, v.hi
        vs.append(v)
    for v in vs:
        v.grp = [x.id for x in vs]
    sq = lambda v: Poly({((v.id, 2),): 1})
    tot = pconst(-1)
    for v in vs:
        tot = padd(tot, sq(v))
    ax = SBool("==", tot)
    for i, v in enumerate(vs):
        p = R.ctx.var(v)
        v.axioms += [SBool("<=", psub(p, pconst(1))), SBool("<=", psub(pneg(p), pconst(1))), ax]
        _inp(R, v.name, "real", SReal(p))
        R.st_f(out + 8 * i, SReal(p))
    last = vs[-1]
    R.ctx.add_rule(((last.id, 2),), pneg(psub(tot, sq(last))))


MODELS["sym_unit2"] = lambda R, n, o: sym_unit(R, n, o, "xy")
MODELS["sym_unit3"] = lambda R, n, o: sym_unit(R, n, o, "xyz")
MODELS["sym_unit4"] = lambda R, n, o: sym_unit(R, n, o, "abcd")


@model("sym_int")
def sym_int(R, name, lo, hi):
    """64 bit integer within [lo,hi] (signed)"""
    from interp import sx
    n = R.cstr(name).decode()
    lo, hi = sx(lo, 64), sx(hi, 64)
    key = "%s#%d" % (n, len(R.inputs))
    e = z3.BitVec(key, 64)
    v = SBV(e, 64, frozenset([key]))
    _inp(R, n, "int", v)
    R.pc_add(SBool("bv", z3.And(e >= lo, e <= hi), v.v))
    return v


@model("sym_bool")
def sym_bool(R, name):
    n = R.cstr(name).decode()
    key = "%s#%d" % (n, len(R.inputs))
    e = z3.Bool(key)
    b = SBool("bv", e, frozenset([key]))
    _inp(R, n, "bool", b)
    return b


@model("sym_choice")
def sym_choice(R, name, n):
    """an integer 0..n-1, enumerated by forking (each value is a separate path)"""
    nm = R.cstr(name).decode()
    key = "%s#%d" % (nm, len(R.inputs))
    e = z3.BitVec(key, 64)
    v = SBV(e, 64, frozenset([key]))
    R.pc_add(SBool("bv", z3.ULT(e, n), v.v))
    _inp(R, nm, "int", v)
    return R.conc(v)


@model("sym_assume")
def sym_assume(R, c):
    R.assume(R.tobool(c))


@model("sym_force")
def sym_force(R, c):
    """fork on c and return it as a concrete bool"""
    return R.decide(R.tobool(c))


def check_assert(R, ok, label, strong=None):
    """ok: SBool/bool that must hold.  strong: list of stronger forms of the negation, tried
    for a well conditioned counterexample."""
    R.asserts.append(label)
    if R.opts.get("witness"):
        return
    if isinstance(ok, int) and ok:
        if R.live():
            R.nassert["trivial"] += 1
        return
    if not R.live():
        # already decided on the path that forked this one
        if not isinstance(ok, int):
            R.solver.pc.append(ok)
        return
    if isinstance(ok, int):
        from interp import PathEnd
        if R.candidates(label, [True], strong) == "refuted":
            raise PathEnd("infeasible")
        R.nassert["failed"] += 1
        raise PathEnd("violated")
    neg = bnot(ok)
    v, m = R.solver.check([neg], R.opts["assert_t"])
    if v == "unsat":
        R.nassert["discharged"] += 1
        R.solver.pc.append(ok)
        return
    if v == "unknown":
        v = R.refute(label, neg)
        if v == "unknown":
            R.nassert["unknown"] += 1
            R.labels_unknown.append(label)
            R.solver.pc.append(ok)
            return
    if R.candidates(label, [neg], strong) == "refuted":
        R.nassert["discharged"] += 1
        R.solver.pc.append(ok)
        return
    R.nassert["failed"] += 1
    R.solver.pc.append(ok)
    # go on below the assertion if anything is left
    v, _ = R.solver.check([ok], R.opts["feas_t"])
    if v == "unsat":
        from interp import PathEnd
        raise PathEnd("violated")


@model("sym_assert")
def sym_assert(R, c, label):
    check_assert(R, R.tobool(c), R.cstr(label).decode())


@model("sym_near")
def sym_near(R, a, b, tol, label):
    """|a-b| <= tol"""
    lb = R.cstr(label).decode()
    if a.__class__ is float and b.__class__ is float and tol.__class__ is float:
        ok = abs(a - b) <= tol or (a == b)
        return check_assert(R, bool(ok), lb)
    for x in (a, b):
        if x.__class__ is float and (x != x or abs(x) == math.inf):
            return check_assert(R, False, lb)
        if x is None:
            from interp import UB
            raise UB("undef", "undefined value compared")
    d = psub(R.rp(a), R.rp(b))
    c = R.ctx.cmp
    if tol.__class__ is not float:
        t = R.rp(tol)
        return check_assert(R, band(c("<=", psub(d, t)), c("<=", psub(pneg(d), t))), lb,
                            [bor(c("<", psub(psub(pconst(k), d), pneg(t))), c("<", padd(padd(pconst(k), d), t))) for k in (1, Fraction(1, 100), Fraction(1, 10**6))])
    tol = toq(tol)
    ok = band(c("<=", psub(d, pconst(tol))), c("<=", psub(pneg(d), pconst(tol))))
    strong = []
    for k in (1, Fraction(1, 100), tol * 1000, tol * 10):
        if k > tol:
            strong.append(bor(c("<", psub(pconst(k), d)), c("<", padd(pconst(k), d))))
    check_assert(R, ok, lb, strong)


@model("sym_le")
def sym_le(R, a, b, tol, label):
    """a <= b + tol"""
    lb = R.cstr(label).decode()
    if tol.__class__ is not float:
        b, tol = R.fadd(b, tol), 0.0
    if a.__class__ is float and b.__class__ is float:
        return check_assert(R, bool(a <= b + tol), lb)
    for x, bad in ((a, math.inf), (b, -math.inf)):
        if x.__class__ is float and (x != x or x == bad):
            return check_assert(R, False, lb)
        if x.__class__ is float and x == -bad:
            return check_assert(R, True, lb)
    d = psub(R.rp(a), R.rp(b))
    tol = Fraction(toq(tol))
    c = R.ctx.cmp
    ok = c("<=", psub(d, pconst(tol)))
    strong = [c("<", psub(pconst(k), d)) for k in (Fraction(1), Fraction(1, 100), tol * 1000, tol * 10) if k > tol]
    check_assert(R, ok, lb, strong)


@model("sym_reach")
def sym_reach(R, label):
    R.reached.add(R.cstr(label).decode())


@model("sym_observe")
def sym_observe(R, label, v):
    R.observed.append((R.cstr(label).decode(), v))


@model("sym_symbolic")
def sym_symbolic(R):
    return True


@model("sym_fail")
def sym_fail(R, label):
    check_assert(R, False, R.cstr(label).decode())


@model("sym_skip")
def sym_skip(R):
    from interp import PathEnd
    raise PathEnd("skip")


# ------------------------------------------------------------------ C runtime
@model("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZN8Standard8AllocateEm", "_ZN8Standard15AllocateOptimalEm")
def op_new(R, n, *a):
    n = R.conc(n)
    if n > (1 << 30):
        from interp import UB
        raise UB("memory", "allocation of %d bytes" % n)
    return R.alloc(n)


@model("_ZnwmSt11align_val_t")
def op_newa(R, n, a):
    return op_new(R, n)


@model("calloc")
def calloc(R, n, m):
    n = R.conc(n) * R.conc(m)
    p = R.alloc(n)
    R.objs[p >> 32].data[:] = bytes(n)
    return p


@model("_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZN8Standard4FreeEPv")
def op_del(R, p, *a):
    R.free(R.conc(p))


@model("memcpy", "memmove")
def memcpy(R, d, s, n):
    R.memcpy(d, s, n)
    return d


@model("memset")
def memset(R, d, c, n):
    R.memset(d, c, n)
    return d


@model("memcmp", "bcmp")
def memcmp(R, a, b, n):
    n = R.conc(n)
    for i in range(n):
        x = R.conc(R.ld_i(a + i, 1))
        y = R.conc(R.ld_i(b + i, 1))
        if x != y:
            return ((x - y) & 0xffffffff)
    return 0


@model("strlen")
def strlen(R, p):
    return len(R.cstr(p))


@model("strcmp")
def strcmp(R, a, b):
    x, y = R.cstr(a), R.cstr(b)
    return 0 if x == y else (1 if x > y else 0xffffffff)


@model("memchr")
def memchr(R, p, c, n):
    for i in range(R.conc(n)):
        if R.conc(R.ld_i(p + i, 1)) == c & 255:
            return p + i
    return 0


@model("abort", "exit", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate")
def abort(R, *a):
    from interp import UB
    raise UB("abort", "abort/terminate called")


@model("__assert_fail")
def assert_fail(R, *a):
    from interp import UB
    raise UB("abort", "assert: " + R.cstr(a[0]).decode())


# ------------------------------------------------------------------ exceptions
@model("__cxa_allocate_exception")
def cxa_alloc(R, n):
    return R.alloc(R.conc(n))


@model("__cxa_free_exception")
def cxa_free(R, p):
    return None


@model("__cxa_throw")
def cxa_throw(R, obj, ti, dtor):
    from interp import CxxThrow
    raise CxxThrow(obj, ti)


@model("__cxa_begin_catch")
def cxa_begin(R, e):
    R.caught.append(e)
    return e.obj


@model("__cxa_get_exception_ptr")
def cxa_getp(R, e):
    return e.obj


@model("__cxa_end_catch")
def cxa_end(R):
    R.caught.pop()


@model("__cxa_rethrow")
def cxa_rethrow(R):
    e = R.caught[-1]
    raise e


def throw_std(ti):
    def f(R, *a):
        from interp import CxxThrow
        o = R.alloc(16)
        R.objs[o >> 32].data[:] = bytes(16)
        raise CxxThrow(o, R.prog.addr.get(ti, "name:" + ti))
    return f


for fn, ti in (("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"),
               ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"),
               ("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"),
               ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"),
               ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"),
               ("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"),
               ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"),
               ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"),
               ("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"),
               ("__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"),
               ("__cxa_bad_cast", "_ZTISt8bad_cast"),
               ("__cxa_bad_typeid", "_ZTISt10bad_typeid"),
               ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"),
               ("_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access")):
    MODELS[fn] = throw_std(ti)

# constructors / destructors of std exceptions: the message is kept as a heap string at +8
for cls in ("St13runtime_error", "St11logic_error", "St12out_of_range", "St16invalid_argument", "St12domain_error",
            "St11range_error", "St12length_error", "St9exception", "St8bad_cast", "St14overflow_error"):
    n = cls[2:].lstrip("0123456789")
    for c in ("C1", "C2"):
        k = "_ZNSt" + cls[2:] + c

        def ctor(R, this, msg=None, *a):
            return None
        for sfx in ("EPKc", "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "ERKS_", "EOS_", "Ev"):
            MODELS[k + sfx] = ctor
    for d in ("D0", "D1", "D2"):
        MODELS["_ZNSt" + cls[2:] + d + "Ev"] = lambda R, this: None
    MODELS["_ZNKSt" + cls[2:] + "4whatEv"] = lambda R, this: R.new_bytes(b"what\0")


@model("__cxa_guard_acquire")
def guard_acq(R, g):
    return 0 if R.ld_i(g, 1) else 1


@model("__cxa_guard_release")
def guard_rel(R, g):
    R.st_i(g, 1, 1)


@model("__cxa_guard_abort", "__cxa_atexit", "__cxa_thread_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev")
def nop(R, *a):
    return 0


@model("__dynamic_cast")
def dyncast(R, p, src, dst, hint):
    vp = R.ld_i(p, 8)
    from interp import sx
    off = sx(R.ld_i(vp - 16, 8), 64)
    ti = R.ld_i(vp - 8, 8)
    full = (p + off) & ((1 << 64) - 1)

    def find(t, o):
        if t == dst:
            return o
        for b, bo in R.ti_bases(t):
            if isinstance(b, int):
                r = find(b, o + bo)
                if r is not None:
                    return r
        return None
    r = find(ti, 0)
    return 0 if r is None else full + r


# ------------------------------------------------------------------ libm
def conc1(fn):
    def f(R, x):
        if x.__class__ is float:
            try:
                return fn(x)
            except ValueError:
                return math.nan
            except OverflowError:
                return math.inf
        raise EngineUnsupported("libm %s of a symbolic value" % fn)
    return f


MODELS["sqrt"] = lambda R, x: R.sqrt(x)


def _sqrtf(R, x):
    """single precision: only appears as a leftover of constant folding"""
    if not isinstance(x, float):
        raise EngineUnsupported("sqrtf of a symbolic value")
    return math.sqrt(x)


MODELS["sqrtf"] = _sqrtf
MODELS["fabs"] = lambda R, x: R.fabs(x)
MODELS["floor"] = lambda R, x: R.floor(x)
MODELS["exp"] = conc1(math.exp)
MODELS["log"] = conc1(math.log)
@model("atan")
def atan(R, x):
    return math.atan(x) if x.__class__ is float else R.mkr(R.ctx.atan(x.p))


MODELS["asin"] = conc1(math.asin)
MODELS["round"] = conc1(lambda x: math.copysign(math.floor(abs(x) + 0.5), x))
MODELS["trunc"] = conc1(lambda x: float(math.trunc(x)))


@model("ceil")
def ceil(R, x):
    if x.__class__ is float:
        return float(math.ceil(x))
    return R.fneg(R.floor(R.fneg(x)))


@model("sin")
def sin(R, x):
    if x.__class__ is float:
        return math.sin(x) if abs(x) != math.inf else math.nan
    return R.mkr(R.ctx.trig(x.p)[1])


@model("cos")
def cos(R, x):
    if x.__class__ is float:
        return math.cos(x) if abs(x) != math.inf else math.nan
    return R.mkr(R.ctx.trig(x.p)[0])


@model("tan")
def tan(R, x):
    return R.fdiv(sin(R, x), cos(R, x))


@model("acos")
def acos(R, x):
    if x.__class__ is float:
        return math.acos(x) if -1.0 <= x <= 1.0 else math.nan
    if R.decide(bor(R.ctx.cmp("<", psub(pconst(1), x.p)), R.ctx.cmp("<", padd(pconst(1), x.p)))):
        return math.nan
    return R.mkr(R.ctx.acos(x.p))


@model("pow")
def pow_(R, x, y):
    if x.__class__ is float and y.__class__ is float:
        try:
            return math.pow(x, y)
        except (ValueError, OverflowError):
            return math.nan
    if y.__class__ is float and y == int(y) and 0 <= y <= 8:
        return R.mkr(R.ctx.pow(x.p, int(y)))
    raise EngineUnsupported("pow")


@model("fmod")
def fmod(R, x, y):
    if x.__class__ is float and y.__class__ is float:
        return math.fmod(x, y) if y and abs(x) != math.inf else math.nan
    if y.__class__ is float and y:
        # x - y*trunc(x/y) with the quotient enumerated
        q = R.fdiv(x, y)
        neg = R.decide(R.ctx.cmp("<", R.rp(q)))
        t = R.floor(R.fneg(q) if neg else q)
        if neg:
            t = -t
        return R.fsub(x, R.fmul(t, y))
    raise EngineUnsupported("fmod")


@model("fmax")
def fmax(R, x, y):
    if x.__class__ is float and x != x:
        return y
    if y.__class__ is float and y != y:
        return x
    return x if R.decide(R.fcmp("oge", x, y)) else y


@model("fmin")
def fmin(R, x, y):
    if x.__class__ is float and x != x:
        return y
    if y.__class__ is float and y != y:
        return x
    return x if R.decide(R.fcmp("ole", x, y)) else y


@model("copysign")
def copysign(R, x, y):
    if x.__class__ is float and y.__class__ is float:
        return math.copysign(x, y)
    a = R.fabs(x)
    if y.__class__ is float:
        return a if math.copysign(1.0, y) > 0 else R.fneg(a)
    return R.fneg(a) if R.decide(R.ctx.cmp("<", y.p)) else a


@model("hypot")
def hypot(R, x, y):
    return R.sqrt(R.fadd(R.fmul(x, x), R.fmul(y, y)))


@model("atan2")
def atan2(R, y, x):
    if x.__class__ is float and y.__class__ is float:
        return math.atan2(y, x)
    return atan2_sym(R, y, x)


def atan2_sym(R, y, x):
    """angle of the point (x,y): acos(x/sqrt(x^2+y^2)) signed by y"""
    n = R.sqrt(R.fadd(R.fmul(x, x), R.fmul(y, y)))
    if R.decide(R.fcmp("oeq", n, 0.0)):
        return 0.0
    t = acos(R, R.fdiv(x, n))
    if R.decide(R.fcmp("olt", y, 0.0)):
        return R.fneg(t)
    return t


# ------------------------------------------------------------------ helpers of the code generator
@model("_ovf")
def ovf(R, b, x, y, w):
    from interp import sx
    op = {"u": b[1:], "s": b[1:]}[b[0]]
    if isinstance(x, int) and isinstance(y, int):
        if b[0] == "s":
            x_, y_ = sx(x, w), sx(y, w)
        else:
            x_, y_ = x, y
        r = {"mul": x_ * y_, "add": x_ + y_, "sub": x_ - y_}[op]
        m = (1 << w) - 1
        o = (r != sx(r & m, w)) if b[0] == "s" else (r != r & m)
        return (r & m, o)
    a, va = R.bv(R.plain(x), w)
    c, vc = R.bv(R.plain(y), w)
    v = va | vc
    ext = z3.ZeroExt if b[0] == "u" else z3.SignExt
    A, B = ext(w, a), ext(w, c)
    big = {"mul": A * B, "add": A + B, "sub": A - B}[op]
    lo = z3.Extract(w - 1, 0, big)
    return (R.mk(lo, w, v), R.mkb(ext(w, lo) != big, v))


@model("_usubsat")
def usubsat(R, x, y, w):
    x, y = R.conc(x), R.conc(y)
    return x - y if x > y else 0


@model("_uaddsat")
def uaddsat(R, x, y, w):
    return min(R.conc(x) + R.conc(y), (1 << w) - 1)


@model("_fshl")
def fshl(R, a, b, c, w):
    a, b, c = R.conc(a), R.conc(b), R.conc(c) % w
    return ((a << c) | (b >> (w - c))) & ((1 << w) - 1) if c else a


@model("_fshr")
def fshr(R, a, b, c, w):
    a, b, c = R.conc(a), R.conc(b), R.conc(c) % w
    return ((b >> c) | (a << (w - c))) & ((1 << w) - 1) if c else b


@model("_ctlz")
def ctlz(R, x, w):
    return w - R.conc(x).bit_length()


@model("_cttz")
def cttz(R, x, w):
    x = R.conc(x)
    return (x & -x).bit_length() - 1 if x else w


@model("_ctpop")
def ctpop(R, x, w):
    return bin(R.conc(x)).count("1")


@model("_bswap")
def bswap(R, x, w):
    return int.from_bytes(R.conc(x).to_bytes(w // 8, "little"), "big")


@model("_round32")
def round32(R, x):
    if x.__class__ is float:
        try:
            return struct.unpack("<f", struct.pack("<f", x))[0]
        except OverflowError:
            return math.copysign(math.inf, x)
    return x


@model("_f32bits")
def f32bits(R, x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


@model("_bitsf32")
def bitsf32(R, x):
    return struct.unpack("<f", struct.pack("<I", R.conc(x)))[0]


@model("_fpclass")
def fpclass(R, x, mask):
    mask = R.conc(mask)
    if x.__class__ is float:
        if x != x:
            c = 3
        elif abs(x) == math.inf:
            c = 0x200 if x > 0 else 4
        elif x == 0:
            c = 0x40 if math.copysign(1, x) > 0 else 0x20
        else:
            c = 0x100 if x > 0 else 8
        return bool(mask & c)
    if mask & 0x3fc == 0x3fc - 0x204 or mask in (0x1f8,):
        return True      # isfinite
    if mask & 0x1f8 == 0:
        return False     # isnan / isinf
    raise EngineUnsupported("fpclass")


# ------------------------------------------------------------------ libstdc++ bits without IR
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 41, 43, 53, 59, 71, 79, 97, 103, 127, 157, 199, 257, 313, 401, 541,
          709, 887, 1109, 1361, 1699, 2099, 2579, 3209]


def next_prime(n):
    for p in PRIMES:
        if p >= n:
            return p
    raise EngineUnsupported("hash table too large")


@model("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
def need_rehash(R, this, nb, ne, ni):
    nb, ne, ni = R.conc(nb), R.conc(ne), R.conc(ni)
    nr = R.ld_i(this + 8, 8)
    if ne + ni > nr:
        mb = max(ne + ni, 11 if nr == 0 else 0)
        if mb >= nb:
            k = next_prime(max(mb + 1, nb * 2))
            R.st_i(this + 8, k, 8)
            return (1, k)
        R.st_i(this + 8, nb, 8)
    return (0, 0)


@model("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm")
def next_bkt(R, this, n):
    n = R.conc(n)
    k = next_prime(n)
    R.st_i(this + 8, k, 8)
    return k


@model("_ZSt11_Hash_bytesPKvmm")
def hash_bytes(R, p, n, seed):
    b = R.bytes_at(p, R.conc(n))
    h = (R.conc(seed) ^ 0xcbf29ce484222325) & ((1 << 64) - 1)
    for c in b:
        h = ((h ^ c) * 0x100000001b3) & ((1 << 64) - 1)
    return h


def external_global(R, n):
    """bytes of a global that only libraries define"""
    if n == "__libc_single_threaded":
        return b"\1"
    if n.startswith("_ZTV") or n.startswith("_ZTI"):
        return bytes(256)
    if n in ("_ZSt7nothrow", "__dso_handle", "_ZSt4cout", "_ZSt4cerr"):
        return bytes(512)
    return None


IGNORED_PREFIX = ("_ZNSt8ios_base4Init",)


def fallback(R, name):
    for p in IGNORED_PREFIX:
        if name.startswith(p):
            return lambda *a: 0
    f = EXTRA.get(name)
    if f:
        return lambda *a: f(R, *a)
    return None


EXTRA = {}
