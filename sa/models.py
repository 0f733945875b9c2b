"""Models of library functions outside the repository (libc, libstdc++, libgmp)
for the abstract interpreter, plus branch handling."""
import re
from dom import W, UNDEF, AnalysisError, Dom, pconst, psub, padd, pscale, pkey
from irx import Interp, Run, State, Throw, Fork, PathEnd, Violation, SH, OFFM, locstr

MASK64 = (1 << 64) - 1


class VInterp(Interp):
    def __init__(self, mod):
        Interp.__init__(self, mod)
        self.D = Dom()
        self.entry_hooks = {}
        self.exit_hooks = {}
        self.cpu = {"intel": True, "bmi2": True}
        self.unmodelled = set()
        self.install()
        self.code = None
        self.eager = False
        self.deadline = None
        self.l3 = False
        self.dirs = set()    # decided branches (location, direction)
        self.curdir = None
        self.rawfallback = False

    # ------------------------------------------------------------ branching
    def cond(self, S, c):
        """normalise a branch condition: int, or (atom, negated)"""
        D = self.D
        p = D.subst(c.p, S.asm) if S.asm else c.p
        lo, hi = D.rng(p)
        if lo > 0:
            return 1
        if lo == hi == 0:
            return 0
        if len(p) == 1:
            (m, k), = p.items()
            if len(m) == 1 and k == 1 and D.atoms[m[0]].bool:
                return (m[0], False)
        if len(p) == 2 and p.get((), 0) == 1:
            m = next(x for x in p if x != ())
            if len(m) == 1 and p[m] == -1 and D.atoms[m[0]].bool:
                return (m[0], True)
        if lo >= 0 and hi <= 1:
            # boolean combination: partition on its newest boolean atom first
            k = ("cond", pkey(p))
            i = D.eqs.get(k)
            if i is None:
                i = D.atom("k%d" % len(D.atoms), 0, 1, "cond", p)
                D.eqs[k] = i
            return (i, False)
        return c

    def assume(self, S, atom, val):
        """returns False when the partition is empty"""
        D = self.D
        D.asm = S.asm; D.facts = S.facts
        a = D.atoms[atom]
        if a.kind == "cond":
            p = a.defn
            # boolean polynomial p == val
            bs = sorted({i for m in p for i in m if D.atoms[i].bool})
            # conjunctions b1*b2==1 imply both
            if val == 1 and len(p) == 1:
                (m, k), = p.items()
                ok = True
                for i in m:
                    ok = ok and self.assume(S, i, 1)
                return ok
            q = psub(p, pconst(val))
            S.facts = S.facts.derive(S.facts + [(q, 0, 0)])
            S.asm = dict(S.asm); S.asm[atom] = pconst(val)
            D.asm = S.asm; D.facts = S.facts
            # unit propagation on single booleans
            for b in bs:
                for v in (0, 1):
                    lo, hi = D.naive(D.subst(q, {b: pconst(v)}))
                    if lo > 0 or hi < 0:
                        return self.assume(S, b, 1 - v)
            S.resubst()
            return True
        S.assume(atom, val)
        D.asm = S.asm; D.facts = S.facts
        # feasibility
        for (f, lo, hi) in S.facts:
            l, h = D.naive(f)
            if h < lo or l > hi:
                return False
        for (N, lo, hi) in D.boolfact(atom, val):
            l, h = D.rng(D.subst(N, S.asm))
            if h < lo or l > hi:
                return False
        if a.kind == "eq" and val == 1:
            l, h = D.rng(D.subst(a.defn, S.asm))
            if l > 0 or h < 0:
                return False
        return True

    def on_assume(self, S):
        pass

    def addeq(self, S, p):
        return S.addeq(p)

    def symload(self, S, addr, size, loc):
        raise AnalysisError("load from abstract address %r at %s" % (addr, locstr(self.m, loc)))

    def callcode(self, S, addr, args, loc):
        if self.code is None:
            raise AnalysisError("call to non-function address %#x at %s" % (addr, locstr(self.m, loc)))
        return self.code(S, addr, args, loc)

    # ------------------------------------------------------------ externals
    def external(self, name):
        d = self.m.demangled(name)
        for pat, fn in self.rmodels:
            if re.search(pat, d):
                return (lambda f, d: lambda S, a, loc: f(S, a, loc, d))(fn, d)
        self.unmodelled.add(d)

        def unk(S, a, loc):
            raise AnalysisError("call to unmodelled external %s at %s" % (d, locstr(self.m, loc)))
        return unk

    def M(self, *names):
        def deco(f):
            for n in names:
                self.models[n] = f
            return f
        return deco

    def install(self):
        M = self.M
        I = self

        @M("_Znwm", "_Znam", "malloc")
        def _new(S, a, loc):
            if type(a[0]) is not int:
                raise AnalysisError("allocation of abstract size")
            return S.new(a[0], "heap@%s" % locstr(I.m, loc))

        @M("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free")
        def _del(S, a, loc):
            if a[0]:
                o, off = S.mem.get(a[0] >> SH), a[0] & OFFM
                if o is None or not o.alive or off:
                    raise Violation("free", "invalid or double free", loc)
                S.wobj(a[0], 0, loc)[0].alive = False

        @M("posix_memalign")
        def _pm(S, a, loc):
            S.st(a[0], 8, S.new(a[2], "heap@%s" % locstr(I.m, loc)))
            return 0

        @M("mmap")
        def _mmap(S, a, loc):
            return S.new(a[1], "mmap@%s" % locstr(I.m, loc), 0)

        @M("strlen")
        def _strlen(S, a, loc):
            s = S.cstr(a[0])
            return len(s)

        @M("memcmp")
        def _memcmp(S, a, loc):
            for i in range(a[2]):
                x, y = S.ld(a[0] + i, 1), S.ld(a[1] + i, 1)
                if type(x) is not int or type(y) is not int:
                    raise AnalysisError("memcmp on abstract bytes")
                if x != y:
                    return (1 if x > y else -1) & 0xffffffff
            return 0

        @M("memcpy", "memmove")
        def _memcpy(S, a, loc):
            S.memcpy(a[0], a[1], a[2], loc)
            return a[0]

        @M("memset")
        def _memset(S, a, loc):
            S.memset(a[0], a[1], a[2], loc)
            return a[0]

        @M("__cxa_guard_acquire")
        def _ga(S, a, loc):
            return 1

        @M("__cxa_guard_release")
        def _gr(S, a, loc):
            S.st(a[0], 1, 1)

        @M("__cxa_guard_abort", "__cxa_atexit", "__cxa_end_catch", "__cxa_free_exception", "mprotect", "munmap",
           "fprintf", "printf", "puts", "putchar", "_ZNSt9exceptionD2Ev", "fflush", "_ZNSaIcEC1Ev", "_ZNSaIcED1Ev", "_ZNSaIcEC2Ev", "_ZNSaIcED2Ev", "fputc", "fwrite", "fputs")
        def _zero(S, a, loc):
            return 0

        @M("sysconf")
        def _sc(S, a, loc):
            return 4096

        @M("__cxa_allocate_exception")
        def _ae(S, a, loc):
            return S.new(a[0], "exception")

        @M("__cxa_throw")
        def _throw(S, a, loc):
            n = None
            for k, v in S.gmap.items():
                if v == a[1]:
                    n = I.m.globals[k]["d"]
            S.log.append(("throw", n, loc))
            return Throw(n, a[0])

        @M("__cxa_rethrow")
        def _rethrow(S, a, loc):
            return Throw(S.exc[0] if S.exc else "?", 0)

        @M("__cxa_begin_catch")
        def _bc(S, a, loc):
            return a[0]

        @M("_ZSt9terminatev", "abort")
        def _term(S, a, loc):
            raise PathEnd("abort", loc)

        @M("exit", "_exit")
        def _exit(S, a, loc):
            raise PathEnd("exit", (a[0], loc))

        for f in ("_ZSt28__throw_bad_array_new_lengthv", "_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz"):
            self.models[f] = (lambda f: lambda S, a, loc: Throw(f))(f)
        for f in ("llvm.eh.typeid.for", "llvm.eh.typeid.for.p0"):
            self.models[f] = lambda S, a, loc: 1
        self.models["llvm.trap"] = lambda S, a, loc: (_ for _ in ()).throw(PathEnd("trap", loc))

        def umul(S, a, loc):
            p = a[0] * a[1]
            return [p & MASK64, int(p >> 64 != 0)]
        self.models["llvm.umul.with.overflow.i64"] = umul
        for n in (16, 32, 64, 128):
            def mk(n):
                def um(S, a, loc): return min(a)
                return um
        def labs(S, a, loc, d):
            n = int(d.rsplit(".i", 1)[1])
            if type(a[0]) is not int:
                if isinstance(a[0], W) and a[0].hi < 1 << (n - 1):
                    return a[0]
                raise AnalysisError("abs of abstract value")
            v = a[0]
            return ((1 << n) - v) & ((1 << n) - 1) if v >> (n - 1) else v
        self.rmodels.append((r"^llvm\.abs\.i", labs))
        self.models["llvm.umax.i64"] = lambda S, a, loc: max(a[0], a[1])
        self.models["llvm.umin.i64"] = lambda S, a, loc: min(a[0], a[1])

        def cpuid(S, text, args):
            return self.cpuid(S, args)
        self.models["asm:cpuid"] = cpuid
        self.models["asm:.byte"] = lambda S, t, a: [0xe7, 0]

        def need_rehash(S, a, loc):
            return [0, 0]
        self.models["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"] = need_rehash

        def hash_bytes(S, a, loc):
            h = a[2]
            for i in range(a[1]):
                h = (h * 0x100000001b3 + S.ld(a[0] + i, 1) + 1) & MASK64
            return h
        self.models["_ZSt11_Hash_bytesPKvmm"] = hash_bytes

        def lhook(S, a, loc):
            this, pos = a
            prev = S.ld(pos + 8, 8)
            S.st(this, 8, pos); S.st(this + 8, 8, prev)
            S.st(prev, 8, this); S.st(pos + 8, 8, this)
        self.models["_ZNSt8__detail15_List_node_base7_M_hookEPS0_"] = lhook

        def lunhook(S, a, loc):
            nx, pv = S.ld(a[0], 8), S.ld(a[0] + 8, 8)
            S.st(pv, 8, nx); S.st(nx + 8, 8, pv)
        self.models["_ZNSt8__detail15_List_node_base9_M_unhookEv"] = lunhook
        install_string(self)
        install_stream(self)
        import gmpmodel
        gmpmodel.install(self)

    def cpuid(self, S, args):
        n = args[0] & 0x7fffffff if type(args[0]) is int else 0
        ext = args[0] >> 31
        if ext:
            return [0x80000008, 0, 0, 0]
        if n == 0:
            if self.cpu["intel"]:
                return [7, 0x756e6547, 0x6c65746e, 0x49656e69]
            return [7, 0x68747541, 0x444d4163, 0x69746e65]
        if n == 1:
            # family 6, model from configuration
            model = self.cpu.get("model", 0x3c)
            v = (6 << 8) | ((model & 15) << 4) | ((model >> 4) << 16) | 3
            return [v, 0, 0x7ffafbff, 0xbfebfbff]
        if n == 7:
            return [0, (1 << 8) if self.cpu["bmi2"] else 0, 0, 0]
        return [0, 0, 0, 0]


# ---------------------------------------------------------------- std::string
# layout: ptr @0, len @8, local buffer/capacity @16 (32 bytes)
def sset(S, this, data):
    """data: list of byte values (int or W)"""
    n = len(data)
    if n < 16:
        p = this + 16
    else:
        p = S.new(n + 1, "string data")
        S.st(this + 16, 8, n)
    S.st(this, 8, p)
    S.st(this + 8, 8, n)
    for i, b in enumerate(data):
        S.st(p + i, 1, b)
    S.st(p + n, 1, 0)


def sget(S, this):
    n = S.ld(this + 8, 8)
    p = S.ld(this, 8)
    if type(n) is not int:
        raise AnalysisError("string of abstract length")
    return [S.ld(p + i, 1) for i in range(n)]


def cdata(S, p):
    r = []
    while True:
        b = S.ld(p + len(r), 1)
        if type(b) is not int:
            raise AnalysisError("abstract C string")
        if b == 0:
            return r
        r.append(b)


STR = r"^std::(?:__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>\s?>"


def install_string(I):
    def string(S, a, loc, d):
        m = re.match(STR + r"::(.*)$", d)
        f = m.group(1)
        if f.startswith("basic_string("):
            ar = f[len("basic_string("):]
            if ar.startswith("std::__cxx11::basic_string"):
                if "unsigned long" in ar:
                    s = sget(S, a[1]); pos = a[2]; n = a[3] if len(a) > 3 else MASK64
                    sset(S, a[0], s[pos:pos + n])
                else:
                    sset(S, a[0], sget(S, a[1]))
            elif ar.startswith("char const*, unsigned long"):
                sset(S, a[0], [S.ld(a[1] + i, 1) for i in range(a[2])])
            elif ar.startswith("char const*"):
                sset(S, a[0], cdata(S, a[1]))
            elif ar.startswith("unsigned long, char"):
                sset(S, a[0], [a[2]] * a[1])
            elif ar.startswith(")"):
                sset(S, a[0], [])
            else:
                raise AnalysisError("string ctor " + d)
            return None
        if f.startswith("~"):
            return None
        if f.startswith("operator=("):
            sset(S, a[0], cdata(S, a[1]) if "char const*" in f else sget(S, a[1]))
            return a[0]
        if f.startswith("operator+=(") or f.startswith("append(") or f.startswith("push_back("):
            s = sget(S, a[0])
            ar = f[f.index("(") + 1:]
            if ar.startswith("char const*, unsigned long"):
                t = [S.ld(a[1] + i, 1) for i in range(a[2])]
            elif ar.startswith("char const*"):
                t = cdata(S, a[1])
            elif ar.startswith("char"):
                t = [a[1]]
            elif ar.startswith("unsigned long, char"):
                t = [a[2]] * a[1]
            else:
                t = sget(S, a[1])
            sset(S, a[0], s + t)
            return a[0]
        if f.startswith(("c_str(", "data(", "begin(")):
            return S.ld(a[0], 8)
        if f.startswith(("size(", "length(")):
            return S.ld(a[0] + 8, 8)
        if f.startswith("end("):
            return S.ld(a[0], 8) + S.ld(a[0] + 8, 8)
        if f.startswith("empty("):
            return int(S.ld(a[0] + 8, 8) == 0)
        if f.startswith(("operator[](", "at(")):
            n = S.ld(a[0] + 8, 8)
            if f.startswith("at(") and a[1] >= n:
                return Throw("out_of_range")
            if a[1] > n:
                raise Violation("oob", "string index %d beyond size %d" % (a[1], n), loc)
            return S.ld(a[0], 8) + a[1]
        if f.startswith("compare("):
            x = sget(S, a[0])
            y = cdata(S, a[1]) if "char const*" in f else sget(S, a[1])
            return ((x > y) - (x < y)) & 0xffffffff
        if f.startswith("clear("):
            sset(S, a[0], [])
            return None
        if f.startswith("resize("):
            s = sget(S, a[0])
            sset(S, a[0], (s + [a[2] if len(a) > 2 else 0] * a[1])[:a[1]])
            return None
        if f.startswith("reserve("):
            return None
        if f.startswith("substr("):
            s = sget(S, a[1])
            if a[2] > len(s):
                return Throw("out_of_range")
            sset(S, a[0], s[a[2]:a[2] + a[3]])
            return None
        if f.startswith("find("):
            s = sget(S, a[0])
            if "char, " in f:
                t = [a[1]]
            elif "char const*" in f:
                t = cdata(S, a[1])
            else:
                t = sget(S, a[1])
            for i in range(a[2], len(s) - len(t) + 1):
                if s[i:i + len(t)] == t:
                    return i
            return MASK64
        if f.startswith("swap("):
            x, y = sget(S, a[0]), sget(S, a[1])
            sset(S, a[0], y); sset(S, a[1], x)
            return None
        raise AnalysisError("unmodelled string method %s at %s" % (d, locstr(I.m, loc)))
    I.rmodels.append((STR + "::", string))


def install_stream(I):
    def first(S, a, loc, d):
        return a[0] if a else 0
    I.rmodels.append((r"^std::(basic_)?i?o?stream|^std::basic_ostream|^std::basic_istream|^std::ostream|^std::istream|^std::ios_base|^std::(basic_)?ios|^std::basic_ios|std::operator<<|std::operator>>", first))
    I.rmodels.append((r"^std::(runtime_error|invalid_argument|logic_error|domain_error|out_of_range|exception)::", lambda S, a, loc, d: None))
