"""Models of library functions, LLVM intrinsics and the harness interface."""
import math
from fractions import Fraction
import z3
import llparse as L

import random
import rf
from rf import rf_const, rf_add, rf_sub, rf_mul, rf_div, rf_neg, rf_sqrt, rf_fn, rf_atom

BUILTINS = {}
PREFIX = []
FORCE_BUILTIN = set()


def S():
    import sym
    return sym


def reg(*names, force=False):
    def d(f):
        for n in names:
            BUILTINS[n] = f
            if force:
                FORCE_BUILTIN.add(n)
        return f
    return d


def pre(*names):
    def d(f):
        for n in names:
            PREFIX.append(("@" + n, f))
        return f
    return d


# ------------------------------------------------------------------- memory
@reg("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t",
     "_ZnamRKSt9nothrow_t")
def b_new(m, st, v, t, rt):
    n = m.concretize(st, v[0])
    if n > 1 << 26:
        raise S().PathEnd("memory", "allocation of %d bytes" % n)
    return m.alloc(st, n, "heap", "heap")


@reg("calloc")
def b_calloc(m, st, v, t, rt):
    n = m.concretize(st, v[0]) * m.concretize(st, v[1])
    a = m.alloc(st, n, "heap", "heap")
    m.memset(st, a, 0, n)
    return a


@reg("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t")
def b_del(m, st, v, t, rt):
    a = m.concretize(st, v[0])
    if a == 0:
        return None
    o = m.obj(st, a)
    if o is None or o.kind != "heap" or (a & S().MASKO) != S().HALF:
        raise S().PathEnd("memory", "delete of an invalid pointer")
    if o.freed:
        raise S().PathEnd("memory", "double delete")
    o = m.wobj(st, o)
    o.freed = True
    o.cells = {}
    return None


@reg("memcpy", "memmove")
def b_memcpy(m, st, v, t, rt):
    n = m.concretize(st, v[2])
    d, s = m.concretize(st, v[0]), m.concretize(st, v[1])
    m.memcpy(st, d, s, n)
    return d


@pre("llvm.memcpy", "llvm.memmove")
def b_imemcpy(m, st, v, t, rt):
    b_memcpy(m, st, v, t, rt)


@reg("memset")
def b_memset(m, st, v, t, rt):
    n = m.concretize(st, v[2])
    b = v[1]
    if isinstance(b, int):
        b &= 255
    elif isinstance(b, S().Undef):
        pass
    else:
        b = m.concretize(st, b) & 255
    m.memset(st, m.concretize(st, v[0]), b, n)
    return v[0]


@pre("llvm.memset")
def b_imemset(m, st, v, t, rt):
    b_memset(m, st, v, t, rt)


def rd(m, st, a, n):
    L = S().L
    out = []
    for i in range(n):
        b = m.load_raw(st, a + i, 1, L.int_t(8))
        out.append(m.concretize(st, b))
    return out


@reg("memcmp", "bcmp", "strncmp")
def b_memcmp(m, st, v, t, rt):
    n = m.concretize(st, v[2])
    a, b = rd(m, st, m.concretize(st, v[0]), n), rd(m, st, m.concretize(st, v[1]), n)
    return (0 if a == b else 1 if a > b else -1) & 0xFFFFFFFF


@reg("strlen")
def b_strlen(m, st, v, t, rt):
    return len(m.cstr(st, m.concretize(st, v[0])))


@reg("strcmp")
def b_strcmp(m, st, v, t, rt):
    a, b = m.cstr(st, m.concretize(st, v[0])), m.cstr(st, m.concretize(st, v[1]))
    return (0 if a == b else 1 if a > b else -1) & 0xFFFFFFFF


@reg("memchr")
def b_memchr(m, st, v, t, rt):
    p = m.concretize(st, v[0])
    c = m.concretize(st, v[1]) & 255
    n = m.concretize(st, v[2])
    for i, b in enumerate(rd(m, st, p, n)):
        if b == c:
            return p + i
    return 0


# --------------------------------------------------------------- no-ops etc.
@pre("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume", "llvm.donothing", "llvm.va_",
     "llvm.stackrestore", "llvm.prefetch", "llvm.invariant.end", "llvm.var.annotation")
def b_nop(m, st, v, t, rt):
    return None


@pre("llvm.stacksave", "llvm.invariant.start")
def b_zero(m, st, v, t, rt):
    return 0


@pre("llvm.expect", "llvm.launder", "llvm.strip.invariant", "llvm.ptr.annotation", "llvm.arithmetic.fence",
     "llvm.ptrmask")
def b_id(m, st, v, t, rt):
    return v[0]


@pre("llvm.objectsize")
def b_objsize(m, st, v, t, rt):
    return (1 << 64) - 1


@pre("llvm.is.constant")
def b_isconst(m, st, v, t, rt):
    return 0


@reg("__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "fflush", "puts", "printf",
     "putchar", "fprintf", "fputs", "fwrite", "setlocale", "__cxa_guard_abort", "v_note", "omp_set_num_threads")
def b_ret0(m, st, v, t, rt):
    return 0


# OpenMP runtime: every iteration of a loop has a thread of its own (v_threads gives their number and order)
@reg("v_threads")
def b_threads(m, st, v, t, rt):
    st.flags["threads"] = (v[0], v[1])


@reg("omp_get_max_threads", "omp_get_num_procs")
def b_nthreads(m, st, v, t, rt):
    return st.flags.get("threads", (1, 0))[0]


@reg("omp_get_num_threads")
def b_team(m, st, v, t, rt):
    return 1 if st.par is None else len(st.par.order)


@reg("omp_get_thread_num", "__kmpc_global_thread_num")
def b_thread(m, st, v, t, rt):
    return m.thread(st)


@reg("omp_in_parallel")
def b_inpar(m, st, v, t, rt):
    return 0 if st.par is None else 1


@reg("__kmpc_push_num_threads", "__kmpc_for_static_fini", "omp_set_dynamic", "__kmpc_flush", "__kmpc_serialized_parallel",
     "__kmpc_end_serialized_parallel", "__kmpc_end_single", "__kmpc_end_master", "__kmpc_end_masked", "__kmpc_dispatch_deinit")
def b_kmp_nop(m, st, v, t, rt):
    return 0


@reg("__kmpc_single", "__kmpc_master", "__kmpc_masked")
def b_first(m, st, v, t, rt):
    return 1 if m.thread(st) == 0 else 0


def kmp_share(m, st, lo, hi, inc, chunk):
    """first chunk of the thread and the distance to its next one"""
    n = 1 if st.par is None else len(st.par.order)
    c = (hi - lo) // inc + 1 if inc > 0 else (lo - hi) // -inc + 1
    size = chunk if chunk else max(1, -(-max(c, 0) // n))
    t = m.thread(st)
    return lo + t * size * inc, lo + ((t + 1) * size - 1) * inc, n * size * inc


def kmp_static(w, signed):
    def h(m, st, v, t, rt):
        ty = S().L.int_t(w)
        get = lambda a: m.concretize(st, m.load(st, a, ty))     # noqa: E731
        sg = (lambda x: S().tosigned(x, w)) if signed else (lambda x: x)
        acc, st.access = st.access, None
        lo, hi, inc = sg(get(v[4])), sg(get(v[5])), S().tosigned(m.concretize(st, v[7]), w)
        a, b, s = kmp_share(m, st, lo, hi, inc, m.concretize(st, v[8]) if v[2] == 33 else 0)
        if v[2] != 33:
            b = min(b, hi) if inc > 0 else max(b, hi)
            if (a > hi) if inc > 0 else (a < hi):      # nothing left for this thread
                a, b = hi + inc, hi
        m.store(st, v[3], S().L.int_t(32), 1 if b == hi else 0)
        for p, x in ((v[4], a), (v[5], b), (v[6], s)):
            m.store(st, p, ty, x & ((1 << w) - 1))
        st.access = acc
    return h


def kmp_init(w, signed):
    def h(m, st, v, t, rt):
        sg = (lambda x: S().tosigned(x, w)) if signed else (lambda x: x)
        lo, hi, inc = (m.concretize(st, x) for x in v[3:6])
        st.flags["dispatch"] = dict(st.flags.get("dispatch", {}))
        st.flags["dispatch"][m.thread(st)] = (sg(lo), sg(hi), S().tosigned(inc, w), 0)
    return h


def kmp_next(w, signed):
    def h(m, st, v, t, rt):
        """dynamic schedules: iterations t, t + n, ... for thread t"""
        th = m.thread(st)
        n = 1 if st.par is None else len(st.par.order)
        lo, hi, inc, k = st.flags["dispatch"][th]
        x = lo + (th + k * n) * inc
        if (x > hi) if inc > 0 else (x < hi):
            return 0
        st.flags["dispatch"] = dict(st.flags["dispatch"])
        st.flags["dispatch"][th] = (lo, hi, inc, k + 1)
        ty = S().L.int_t(w)
        acc, st.access = st.access, None
        m.store(st, v[2], S().L.int_t(32), 1 if x == hi else 0)
        for p, y in ((v[3], x), (v[4], x), (v[5], inc)):
            m.store(st, p, ty, y & ((1 << w) - 1))
        st.access = acc
        return 1
    return h


for _s, _w, _g in (("4", 32, True), ("4u", 32, False), ("8", 64, True), ("8u", 64, False)):
    reg("__kmpc_for_static_init_" + _s)(kmp_static(_w, _g))
    reg("__kmpc_dispatch_init_" + _s)(kmp_init(_w, _g))
    reg("__kmpc_dispatch_next_" + _s)(kmp_next(_w, _g))
    reg("__kmpc_dispatch_fini_" + _s)(b_kmp_nop)


KEEP = object()


def relock(m, st, lock, quiet=0):
    if st.par is not None:
        t = m.thread(st)
        if lock is not KEEP:
            st.par.lock[t] = lock
        st.par.quiet[t] += quiet
        st.access = st.par.current(st)


@reg("__kmpc_critical", "__kmpc_critical_with_hint")
def b_critical(m, st, v, t, rt):
    relock(m, st, v[2])


@reg("__kmpc_end_critical")
def b_critical_end(m, st, v, t, rt):
    relock(m, st, None)


@reg("__kmpc_ordered", "__kmpc_reduce", "__kmpc_reduce_nowait")
def b_reduce(m, st, v, t, rt):
    relock(m, st, "runtime")
    return 1


@reg("__kmpc_end_ordered", "__kmpc_end_reduce", "__kmpc_end_reduce_nowait")
def b_reduce_end(m, st, v, t, rt):
    relock(m, st, None)


@pre("llvm.vector.reduce.fadd")
def b_vsum(m, st, v, t, rt):
    r = m.real(st, v[0])
    for x in v[1]:
        r = S().rf_add(r, m.real(st, x))
    return r


# the generators' seed
@pre("_ZNSt13random_device7_M_init", "_ZNSt13random_device7_M_fini")
def b_device(m, st, v, t, rt):
    return None


@pre("_ZNSt13random_device9_M_getval")
def b_seed(m, st, v, t, rt):
    n = st.flags.get("seed", 0)
    st.flags["seed"] = n + 1
    return 0x9e3779b9 * (n + 1) & 0xffffffff


@reg("v_fresh")
def b_fresh(m, st, v, t, rt):
    n = st.flags.get("fresh", 0)
    st.flags["fresh"] = n + 1
    return n


@pre("llvm.threadlocal.address")
def b_tls(m, st, v, t, rt):
    return m.tls_addr(st, v[0])


# what a static variable's first use does is ordered before all its other uses
@reg("__cxa_guard_acquire")
def b_guard(m, st, v, t, rt):
    L = S().L
    acc, st.access = st.access, None
    b = m.load_raw(st, v[0], 1, L.int_t(8))
    st.access = acc
    if isinstance(b, int) and b:
        return 0
    relock(m, st, KEEP, 1)
    return 1


@reg("__cxa_guard_release")
def b_guardr(m, st, v, t, rt):
    acc, st.access = st.access, None
    m.store_raw(st, v[0], 1, 1)
    st.access = acc
    relock(m, st, KEEP, -1)


@reg("__cxa_pure_virtual")
def b_pure(m, st, v, t, rt):
    raise S().PathEnd("purevirtual", "pure virtual call")


def std_throw(pre, ti):
    @globals()["pre"](pre)
    def h(m, st, v, t, rt):
        raise S().Unwind(m.alloc(st, 16, "exc", "heap"), "@_ZTISt" + ti)


for _p, _t in (("_ZSt20__throw_length_error", "12length_error"), ("_ZSt20__throw_out_of_range", "12out_of_range"),
               ("_ZSt24__throw_out_of_range", "12out_of_range"), ("_ZSt19__throw_logic_error", "11logic_error"),
               ("_ZSt24__throw_invalid_argument", "16invalid_argument"), ("_ZSt17__throw_bad_alloc", "9bad_alloc"),
               ("_ZSt28__throw_bad_array_new_length", "9bad_alloc"), ("_ZSt16__throw_bad_cast", "8bad_cast")):
    std_throw(_p, _t)


@reg("__cxa_throw")
def b_throw(m, st, v, t, rt):
    a = m.concretize(st, v[1])
    ti = next((n for n, x in m.gaddr.items() if x == a), "?")
    raise S().Unwind(m.concretize(st, v[0]), ti)


@reg("__cxa_rethrow")
def b_rethrow(m, st, v, t, rt):
    raise S().Unwind(*st.caught[-1])


@reg("__cxa_begin_catch")
def b_catch(m, st, v, t, rt):
    st.caught += (st.exc,)
    return v[0]


@reg("__cxa_end_catch")
def b_endcatch(m, st, v, t, rt):
    st.caught = st.caught[:-1]


@reg("__cxa_free_exception")
def b_exfree(m, st, v, t, rt):
    return None


@pre("llvm.eh.typeid.for")
def b_typeid(m, st, v, t, rt):
    return m.type_id(next((n for n, x in m.gaddr.items() if x == v[0]), "?"))


@reg("_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorC1EPKc",
     "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")
def b_stdexc(m, st, v, t, rt):
    return None


@pre("_ZSt21__throw", "_ZSt25__throw", "_ZSt18__throw", "_ZSt22__throw", "_ZSt23__throw", "_ZSt26__throw", "_ZSt9terminate", "__cxa_bad_cast")
def b_throw_any(m, st, v, t, rt):
    raise S().PathEnd("exception", "C++ exception thrown")


@reg("__cxa_allocate_exception")
def b_exalloc(m, st, v, t, rt):
    return m.alloc(st, max(8, m.concretize(st, v[0])), "exc", "heap")


@reg("abort", "exit", "_exit", "__assert_fail", "__clang_call_terminate")
def b_abort(m, st, v, t, rt):
    raise S().PathEnd("abort", "program aborted")


@pre("llvm.trap")
def b_trap(m, st, v, t, rt):
    raise S().PathEnd("abort", "trap")


# ------------------------------------------------------------------- integer
def minmax(kind):
    def h(m, st, v, t, rt):
        ty = t[0]
        if ty.k == "vector":
            return tuple(one(m, st, x, y, ty.b.a) for x, y in zip(v[0], v[1]))
        return one(m, st, v[0], v[1], ty.a)

    def one(m, st, x, y, w):
        sg = kind[0]
        lt = m.icmp(sg + "lt", x, y, w, st)
        if isinstance(lt, int):
            return (x if lt else y) if kind.endswith("min") else (y if lt else x)
        zx, zy = m.tobv(x, w, st), m.tobv(y, w, st)
        c = m.zbool(lt)
        return z3.simplify(z3.If(c, zx, zy) if kind.endswith("min") else z3.If(c, zy, zx))
    return h


for k in ("smin", "smax", "umin", "umax"):
    PREFIX.append(("@llvm." + k, minmax(k)))


@pre("llvm.abs.")
def b_iabs(m, st, v, t, rt):
    w = t[0].a
    x = v[0]
    if isinstance(x, int):
        return abs(S().tosigned(x, w)) & ((1 << w) - 1)
    x = m.tobv(x, w, st)
    return z3.simplify(z3.If(x < 0, -x, x))


@reg("abs", "labs")
def b_abs(m, st, v, t, rt):
    return b_iabs(m, st, v, t, rt)


def ovf(op):
    def h(m, st, v, t, rt):
        w = t[0].a
        a, b = v[0], v[1]
        r = m.ibin({"a": "add", "s": "sub", "m": "mul"}[op[1]], a, b, w, st)
        if isinstance(a, int) and isinstance(b, int):
            if op[0] == "s":
                a, b = S().tosigned(a, w), S().tosigned(b, w)
            e = {"a": a + b, "s": a - b, "m": a * b}[op[1]]
            o = not (-(1 << (w - 1)) <= e < (1 << (w - 1))) if op[0] == "s" else not (0 <= e < (1 << w))
            return (r, int(o))
        za, zb = m.tobv(a, w, st), m.tobv(b, w, st)
        ext = (z3.SignExt if op[0] == "s" else z3.ZeroExt)
        ea, eb = ext(w, za), ext(w, zb)
        e = {"a": ea + eb, "s": ea - eb, "m": ea * eb}[op[1]]
        return (r, z3.simplify(e != ext(w, m.tobv(r, w, st))))
    return h


for o in ("sadd", "uadd", "ssub", "usub", "smul", "umul"):
    PREFIX.append(("@llvm.%s.with.overflow" % o, ovf(o)))


@pre("llvm.usub.sat")
def b_usubsat(m, st, v, t, rt):
    w = t[0].a
    lt = m.icmp("ult", v[0], v[1], w, st)
    if isinstance(lt, int):
        return 0 if lt else m.ibin("sub", v[0], v[1], w, st)
    return z3.simplify(z3.If(m.zbool(lt), z3.BitVecVal(0, w), m.tobv(v[0], w, st) - m.tobv(v[1], w, st)))


@pre("llvm.fshl")
def b_fshl(m, st, v, t, rt):
    w = t[0].a
    a, b, c = v
    if all(isinstance(x, int) for x in v):
        c %= w
        return ((a << c) | (b >> (w - c) if c else 0)) & ((1 << w) - 1)
    raise S().EngineError("fshl symbolic")


@pre("llvm.ctlz", "llvm.cttz", "llvm.ctpop", "llvm.bswap")
def b_bits(m, st, v, t, rt):
    raise S().EngineError("bit count intrinsic")


@pre("llvm.vector.reduce.add")
def b_vradd(m, st, v, t, rt):
    r = 0
    for x in v[0]:
        r = m.ibin("add", r, x, t[0].b.a, st)
    return r


# ---------------------------------------------------------------------- real
def vec1(f):
    def h(m, st, v, t, rt):
        if isinstance(v[0], tuple):
            return tuple(f(m, st, m.real(st, x)) for x in v[0])
        return f(m, st, m.real(st, v[0]))
    return h


def fn1(names, intr, f):
    h = vec1(f)
    for n in names:
        BUILTINS[n] = h
    for i in intr:
        PREFIX.append(("@llvm." + i + ".", h))


def neg_(m, st, x):
    return m.decide(st, S().Cmp("<", x))


def r_abs(m, st, x):
    if rf.rf_nonneg(x):
        return x
    return rf_neg(x) if neg_(m, st, x) else x


def r_floor(m, st, x):
    return rf_const(m.floor_int(st, x))


def r_ceil(m, st, x):
    return rf_const(-m.floor_int(st, rf_neg(x)))


def r_trunc(m, st, x):
    return rf_const(m.trunc_int(st, x))


def r_round(m, st, x):
    if x.const() is None and neg_(m, st, x) or x.const() is not None and x.const() < 0:
        return rf_const(-m.floor_int(st, rf_add(rf_neg(x), rf_const(Fraction(1, 2)))))
    return rf_const(m.floor_int(st, rf_add(x, rf_const(Fraction(1, 2)))))


def r_sqrt(m, st, x):
    c = x.const()
    if c is not None:
        if c < 0:
            raise S().PathEnd("nan", "sqrt of a negative number")
        return rf_sqrt(x)
    if not rf.rf_nonneg(x) and not m.opts.get("sqrt_assume"):
        ck = S().Cmp("<", x)
        if m.decide(st, ck):
            raise S().PathEnd("nan", "sqrt of a negative number")

    def sign(poly):
        p = rf.RF(poly)
        for r, q in ((1, p), (-1, rf_neg(p))):
            c = S().Cmp("<", q)
            if not m.feasible(st, c.z(), m.cvars(c)):
                return r
        return 0
    return rf_sqrt(x, sign, st.known)


def domain(m, st, x, op, what):
    """the argument of a function outside its domain ends the path, where the check asks for that"""
    if not m.opts.get("domain"):
        return
    bad = S().Cmp(op, x)
    if not rf.CTX.no_exp:
        e = rf.exp_monomial(x)
        if e is not None and e[0] > 0:
            return
    if m.decide(st, bad):
        raise S().PathEnd("nan", what)


def unint(name):
    def f(m, st, x):
        c = x.const()
        if c is not None:
            try:
                y = getattr(math, name)(float(c))
            except (ValueError, OverflowError):
                raise S().PathEnd("nan", name + " domain")
            if not c and name in ("sin", "tan"):
                return rf_const(0)
            return rf_const(S().dbl(y))
        if name == "log":
            domain(m, st, x, "<=", "log of a number that is not positive")
        if name == "log" and not rf.CTX.no_exp:
            e = rf.exp_monomial(x)
            if e is not None and e[0] > 0:
                return rf_add(e[1], rf_const(S().dbl(math.log(e[0]))) if e[0] != 1 else rf_const(0))
        if name == "exp" and not x.d and len(x.n) == 1:
            (mono, c), = x.n.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                at = rf.CTX.atoms[mono[0][0]]
                if at.kind == "fn" and at.origin == "log":
                    return at.arg[0]
        return rf_fn(name, (x,))
    return f


fn1(["fabs", "fabsf"], ["fabs"], r_abs)
fn1(["floor", "floorf"], ["floor"], r_floor)
fn1(["ceil", "ceilf"], ["ceil"], r_ceil)
fn1(["trunc"], ["trunc"], r_trunc)
fn1(["round", "rint", "nearbyint"], ["round", "rint", "nearbyint", "roundeven"], r_round)
fn1(["sqrt", "sqrtf"], ["sqrt"], r_sqrt)
for n in ("sin", "cos", "exp", "log", "log2", "log10", "exp2"):
    fn1([n, n + "f"], [n], unint(n))
for n in ("tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "erf", "cbrt", "tgamma"):
    fn1([n], [], unint(n))
fn1(["__exp_finite"], [], unint("exp"))
fn1(["__log_finite"], [], unint("log"))


@reg("atan2")
def b_atan2(m, st, v, t, rt):
    a, b = m.real(st, v[0]), m.real(st, v[1])
    if a.const() is not None and b.const() is not None:
        return rf_const(S().dbl(math.atan2(float(a.const()), float(b.const()))))
    return rf_fn("atan2", (a, b))


@reg("pow")
def b_pow(m, st, v, t, rt):
    a, b = m.real(st, v[0]), m.real(st, v[1])
    e = b.const()
    if e is not None:
        if e.denominator == 1 and abs(e) <= 64:
            if a.const() == 0 and e < 0:
                raise S().PathEnd("fdivzero", "0 to a negative power")
            return S().trim(rf.rf_powi(a, int(e)))
        if e.denominator == 2 and abs(e) < 16:
            return rf.rf_powi(r_sqrt(m, st, a), int(e * 2))
        if a.const() is not None:
            try:
                return rf_const(S().dbl(float(a.const()) ** float(e)))
            except (OverflowError, ZeroDivisionError):
                raise S().PathEnd("nan", "pow")
        domain(m, st, a, "<", "power of a negative number")
        if not rf.CTX.no_exp:
            m1 = rf.exp_monomial(a)
            if m1 is not None and m1[0] > 0:
                f = rf_const(S().dbl(float(m1[0]) ** float(e)))
                return rf_mul(f, rf_fn("exp", (rf_mul(b, m1[1]),)))
    return rf_fn("pow", (a, b))


PREFIX.append(("@llvm.pow.", b_pow))
BUILTINS["powf"] = b_pow


@pre("llvm.powi.")
def b_powi(m, st, v, t, rt):
    return rf.rf_powi(m.real(st, v[0]), S().tosigned(m.concretize(st, v[1]), 32))


@pre("llvm.fmuladd.", "llvm.fma.")
def b_fma(m, st, v, t, rt):
    return rf_add(rf_mul(m.real(st, v[0]), m.real(st, v[1])), m.real(st, v[2]))


def fmin_(m, st, v, t, rt):
    a, b = m.real(st, v[0]), m.real(st, v[1])
    return a if m.decide(st, S().Cmp("<", rf_sub(a, b))) else b


def fmax_(m, st, v, t, rt):
    a, b = m.real(st, v[0]), m.real(st, v[1])
    return b if m.decide(st, S().Cmp("<", rf_sub(a, b))) else a


BUILTINS["fmin"] = fmin_
BUILTINS["fmax"] = fmax_
PREFIX += [("@llvm.minnum.", fmin_), ("@llvm.maxnum.", fmax_), ("@llvm.minimum.", fmin_), ("@llvm.maximum.", fmax_)]


@reg("copysign")
def b_copysign(m, st, v, t, rt):
    a, b = m.real(st, v[0]), m.real(st, v[1])
    a = r_abs(m, st, a)
    c = b.const()
    if (c < 0) if c is not None else neg_(m, st, b):
        return rf_neg(a)
    return a


PREFIX.append(("@llvm.copysign.", b_copysign))


@pre("llvm.is.fpclass")
def b_fpclass(m, st, v, t, rt):
    mask = v[1]
    if isinstance(v[0], S().Bad):
        return int(bool(mask & (3 | 0x204)))
    x = m.real(st, v[0])
    zero, norm = bool(mask & 96), bool(mask & 264)
    if zero == norm:
        return int(zero)
    c = S().Cmp("==" if zero else "!=", x)
    k = x.const()
    if k is not None:
        return int((k == 0) == zero)
    return c


@reg("fmod")
def b_fmod(m, st, v, t, rt):
    a, b = m.real(st, v[0]), m.real(st, v[1])
    q = m.trunc_int(st, rf_div(a, b))
    return rf_sub(a, rf_mul(rf_const(q), b))


@reg("modf")
def b_modf(m, st, v, t, rt):
    a = m.real(st, v[0])
    q = m.trunc_int(st, a)
    m.store(st, v[1], S().L.FLOATS["double"], rf_const(q))
    return rf_sub(a, rf_const(q))


@reg("lround", "lrint")
def b_lround(m, st, v, t, rt):
    return int(r_round(m, st, m.real(st, v[0])).const()) & S().M64


@reg("time", "clock")
def b_time(m, st, v, t, rt):
    return 1


# ------------------------------------------------------------ harness interface
def pinned(seed, name, lo, hi, pos):
    """a fixed value for an input (see pinned runs in run.py)"""
    rnd = random.Random("%s/%s" % (seed, name))
    if lo is not None and hi is not None:
        return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rnd.randint(1, 63), 64)
    x = Fraction(rnd.randint(2, 40), 16)
    if seed % 3 == 1:
        x *= 2 ** rnd.choice((-3, 0, 0, 14, 28))
    elif seed % 3 == 2:
        x *= 2 ** rnd.choice((0, 27, 28))
    if pos or (lo is not None):
        return x + Fraction(lo or 0)
    return x if hi is None and rnd.random() < 0.5 else -x + Fraction(hi or 0)


def new_real(m, st, name, lo=None, hi=None, pos=False):
    if name in st.names:
        return st.names[name]
    if m.opts.get("pin") is not None:
        x = pinned(m.opts["pin"], name, lo, hi, pos)
        st.inputs.append((name, "pin", x))
        st.names[name] = rf_const(x)
        return st.names[name]
    at = rf.CTX.atom(("var", name), "var", name, lo=lo, hi=hi, pos=pos or (lo is not None and lo > 0),
                     nonneg=(lo is not None and lo >= 0))
    r = rf_atom(at)
    st.inputs.append((name, "real", r))
    st.names[name] = r
    return r


def label(m, st, a):
    return m.cstr(st, m.concretize(st, a))


def iname(m, st, v):
    n = label(m, st, v[0])
    i = m.concretize(st, v[1])
    i = S().tosigned(i, 32)
    return n if i < 0 else "%s_%d" % (n, i)


@reg("sym_real_i")          # (name, index, lo, hi)
def h_real(m, st, v, t, rt):
    lo, hi = m.real(st, v[2]).const(), m.real(st, v[3]).const()
    return new_real(m, st, iname(m, st, v), lo, hi)


@reg("sym_pos_i")           # strictly positive, (name, index, hint)
def h_pos(m, st, v, t, rt):
    return new_real(m, st, iname(m, st, v), None, None, True)


@reg("sym_any_i")           # unbounded real (name, index)
def h_any(m, st, v, t, rt):
    return new_real(m, st, iname(m, st, v))


@reg("sym_int_i")           # (name, index, lo, hi) -> int32
def h_int(m, st, v, t, rt):
    n = iname(m, st, v)
    if n in st.names:
        return st.names[n]
    lo, hi = S().tosigned(m.concretize(st, v[2]), 32), S().tosigned(m.concretize(st, v[3]), 32)
    z = z3.BitVec(n, 32)
    st.inputs.append((n, "int", z))
    st.names[n] = z
    st.pc.append((z3.And(z >= lo, z <= hi), frozenset([n])))
    return z


@reg("v_param")
def h_param(m, st, v, t, rt):
    n = label(m, st, v[0])
    if n == "fixed_random":             # an optional one
        return m.params.get(n, 0)
    return m.params[n] & 0xFFFFFFFF


@reg("v_paramd")
def h_paramd(m, st, v, t, rt):
    return rf_const(S().dbl(float(m.params[label(m, st, v[0])])))


@reg("v_fix")               # make an int concrete (fork over its values)
def h_fix(m, st, v, t, rt):
    return m.concretize(st, v[0])


@reg("v_assume")
def h_assume(m, st, v, t, rt):
    c = v[0]
    if isinstance(c, int):
        if not c:
            raise S().PathEnd("assume")
        return
    if isinstance(c, S().Cmp):
        k = st.known.get(c.key)
        if k is not None:
            if not k:
                raise S().PathEnd("assume")
            return
        st.known[c.key] = True
    z = m.zbool(c)
    vs = m.cvars(c)
    if not m.feasible(st, z, vs):
        raise S().PathEnd("assume")
    st.pc.append((z, vs))


@reg("v_check")
def h_check(m, st, v, t, rt):
    m.check(st, v[0], label(m, st, v[1]))


@reg("v_check_eq")          # (a, b, scale, label)
def h_check_eq(m, st, v, t, rt):
    lb = label(m, st, v[3])
    a, b = m.real(st, v[0]), m.real(st, v[1])
    m.check(st, S().Cmp("==", rf_sub(a, b)), lb, pair=(a, b, m.real(st, v[2])))


@reg("v_check_le")          # a <= b
def h_check_le(m, st, v, t, rt):
    lb = label(m, st, v[3])
    a, b = m.real(st, v[0]), m.real(st, v[1])
    m.check(st, S().Cmp("<=", rf_sub(a, b)), lb, pair=(a, b, m.real(st, v[2])))


@reg("v_cover")
def h_cover(m, st, v, t, rt):
    l = label(m, st, v[0])
    st.covers.add(l)
    if l == "end":                       # a path that ends here by v_stop counts as completed
        m.on_return(st)


@reg("v_fatal")
def h_fatal(m, st, v, t, rt):
    raise S().PathEnd("fatal", "program reported a fatal error")


@reg("v_fail")
def h_fail(m, st, v, t, rt):
    m.check(st, 0, label(m, st, v[0]))


@reg("v_stop")
def h_stop(m, st, v, t, rt):
    raise S().PathEnd("assume")


@reg("v_allow")
def h_allow(m, st, v, t, rt):
    st.flags["allow"] = tuple(st.flags.get("allow", ())) + (label(m, st, v[0]),)


@reg("v_option")
def h_option(m, st, v, t, rt):
    m.opts[label(m, st, v[0])] = S().tosigned(m.concretize(st, v[1]), 32)


@reg("v_print")
def h_print(m, st, v, t, rt):
    import sys
    print("PRINT", label(m, st, v[0]), v[1], file=sys.stderr)


@reg("v_native")            # 1 when running natively
def h_native(m, st, v, t, rt):
    return 0


@pre("_ZSt21__glibcxx_assert_fail")
def b_glibassert(m, st, v, t, rt):
    raise S().PathEnd("memory", "libstdc++ container assertion failed (index or iterator out of range)")


# ------------------------------------------------------------------- std::map (nodes are not balanced)
def _ld(m, st, a):
    return m.concretize(st, m.load_raw(st, a, 8, L.PTR))


def _sd(m, st, a, v):
    m.store_raw(st, a, 8, v)


@pre("_ZSt29_Rb_tree_insert_and_rebalanceb")
def b_rbinsert(m, st, v, t, rt):
    left, x, p, h = [m.concretize(st, a) for a in v]
    m.store_raw(st, x, 4, 1)
    _sd(m, st, x + 8, p)
    _sd(m, st, x + 16, 0)
    _sd(m, st, x + 24, 0)
    if left:
        _sd(m, st, p + 16, x)
        if p == h:
            _sd(m, st, h + 8, x)
            _sd(m, st, h + 24, x)
        elif p == _ld(m, st, h + 16):
            _sd(m, st, h + 16, x)
    else:
        _sd(m, st, p + 24, x)
        if p == _ld(m, st, h + 24):
            _sd(m, st, h + 24, x)


def _rbstep(m, st, x, a, b):
    if a == 16 and m.load_raw(st, x, 4, L.int_t(32)) == 0 and _ld(m, st, _ld(m, st, x + 8) + 8) == x:     # decrement of end()
        return _ld(m, st, x + 24)
    n = _ld(m, st, x + a)
    if n:
        while True:
            k = _ld(m, st, n + b)
            if not k:
                return n
            n = k
    y = _ld(m, st, x + 8)
    while x == _ld(m, st, y + a):
        x, y = y, _ld(m, st, y + 8)
    return y if a == 16 or _ld(m, st, x + 24) != y else x


@pre("_ZSt18_Rb_tree_incrementP")
def b_rbinc(m, st, v, t, rt):
    return _rbstep(m, st, m.concretize(st, v[0]), 24, 16)


@pre("_ZSt18_Rb_tree_decrementP")
def b_rbdec(m, st, v, t, rt):
    return _rbstep(m, st, m.concretize(st, v[0]), 16, 24)
