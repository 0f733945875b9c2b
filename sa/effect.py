"""Effects on state that outlives a call: which objects may each function write?

A function's summary names what it writes in terms of its parameters (depth 0: the
object the parameter points to; depth 1: anything reached through pointers stored
there) and of the variables with static storage the program defines.  Summaries are
computed bottom-up over the call graph to a fixpoint, flow-insensitively; only the
initialisation of a function-local static (between the acquisition and the release
of its guard) is separated by dominance, because the language runtime serialises it.
"""
import re
from scal import successors
from dom import AnalysisError
from irx import locstr

# C library functions: parameters written through (others are only read)
CFUN = {"memcpy": [0], "memmove": [0], "memset": [0], "strlen": [], "printf": [], "fprintf": [0], "puts": [], "putchar": [], "exit": [], "abort": [],
        "free": [], "malloc": [], "strtol": [1], "strtoul": [1], "strtoull": [1], "__isoc23_strtol": [1], "__isoc23_strtoul": [1], "__isoc23_strtoull": [1], "strcmp": [], "memcmp": [], "snprintf": [0], "sprintf": [0], "vsnprintf": [0],
        "mprotect": [], "posix_memalign": [0], "fputs": [], "fwrite": [], "__assert_fail": [], "memchr": [], "getenv": [], "tolower": [], "toupper": [], "isspace": []}
ALLOC = re.compile(r"^(operator new(\[\])?\(|malloc$|calloc$|realloc$|__cxa_allocate_exception|__cxa_begin_catch|__cxa_get_exception_ptr|__errno_location)")
NOEFF = re.compile(r"^(operator delete|__cxa_|__gxx_|_Unwind|llvm\.(dbg|lifetime|assume|trap|eh|ctlz|cttz|ctpop|expect|umul|uadd|usub|smul|objectsize|is\.constant|experimental\.noalias|stacksave|stackrestore|va_)|std::terminate|std::uncaught)")
# accessors of containers that are not const members but only hand out references (a store through the result counts)
ACCESS = re.compile(r"^(?:[^(]* )?std::.*::(operator\[\]|at|begin|end|rbegin|rend|data|front|back|find|operator\*|operator->|base)$")
GMP_NONE = re.compile(r"^__gmpz_(cmp|get_(ui|si|d)|size|sizeinbase|tstbit|sgn|fits|probab|popcount|scan|divisible|perfect|even|odd|cmpabs)")


def params(d):
    """parameter types of a demangled signature"""
    i = d.find("(")
    # the last top-level parenthesis group
    depth = 0; end = d.rfind(")"); j = end
    while j >= 0:
        if d[j] == ")":
            depth += 1
        elif d[j] == "(":
            depth -= 1
            if not depth:
                break
        j -= 1
    s = d[j + 1:end]
    out = []; cur = ""; k = 0
    for c in s:
        if c in "<(":
            k += 1
        elif c in ">)":
            k -= 1
        if c == "," and not k:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
    if cur.strip() and cur.strip() != "void":
        out.append(cur.strip())
    return out, d[end + 1:].strip(), d[:j]


class Effects:
    def __init__(self, w):
        self.w = w; self.m = w.m
        self.sum = {}
        self.unknown = set()

    # ------------------------------------------------------------ externals
    def extern(self, n, nargs):
        """parameters an external function writes through"""
        d = self.m.demangled(n)
        if NOEFF.match(d):
            return []
        if d in CFUN:
            return CFUN[d]
        if d.startswith("llvm.mem"):
            return [0]
        if d.startswith("__gmpz_") or d.startswith("__gmp_"):
            return [] if GMP_NONE.match(d) else [0] + ([1] if re.search(r"swap|_qr|gcdext|invert_|get_d_2exp|export", d) else [])
        if "(" not in d:
            self.unknown.add(d)
            return list(range(nargs))
        if ACCESS.search(d.split("(")[0]):
            return []
        ps, suf, name = params(d)
        static = nargs == len(ps)
        out = []
        off = nargs - len(ps)          # implicit object (and hidden result) parameters
        for k in range(off):
            if not (suf.startswith("const") and k == off - 1):
                out.append(k)
        for k, t in enumerate(ps):
            if ("*" in t or "&" in t) and not re.search(r"const\s*[&*]", t) and not t.startswith("const"):
                out.append(k + off)
        return out

    # ------------------------------------------------------------ one function
    def analyse(self, n):
        m = self.m
        j = m.fj(n)
        na = j["na"]
        pts = {k: {(("p", k), 0)} for k in range(na)}
        mem = {}          # contents of local objects: set of roots
        writes = {}       # root -> loc
        ret = set()
        calls = []
        init = self.guarded(n)
        ch = True

        def val(v):
            if type(v) is int:
                return pts.get(v, set())
            if type(v) is list and v and v[0] == "g":
                return {(("g", v[1]), 0)}
            if type(v) is list and v and v[0] == "F":
                return set()
            return set()

        def deref(roots):
            out = set()
            for (r, d) in roots:
                if r[0] in ("a", "h"):
                    out |= mem.get(r, set())
                elif r[0] == "g":
                    # a pointer kept in a variable: what it points to is shared as well
                    out.add((r, 1))
                else:
                    out.add((r, 1))
            return out

        def put(reg, roots):
            nonlocal ch
            if reg < 0 or not roots:
                return
            s = pts.setdefault(reg, set())
            if not roots <= s:
                s |= roots; ch = True

        def store_into(roots, v):
            nonlocal ch
            if not v:
                return
            for (r, d) in roots:
                if r[0] in ("a", "h"):
                    s = mem.setdefault(r, set())
                    if not v <= s:
                        s |= v; ch = True

        def wr(roots, loc, via, bi):
            nonlocal ch
            for (r, d) in roots:
                if r[0] in ("a", "h"):
                    continue
                if r[0] == "g" and bi in init.get(r[1], ()):
                    continue
                if (r, d) not in writes:
                    writes[(r, d)] = (loc, via); ch = True

        rounds = 0
        while ch:
            ch = False
            rounds += 1
            if rounds > 60:
                raise AnalysisError("no fixpoint in %s" % n)
            for bi, b in enumerate(j["b"]):
                for i in b:
                    op, dst, loc = i[0], i[1], (i[2] << 20) | i[3] if i[2] >= 0 else 0
                    if op == "alloca":
                        put(dst, {(("a", dst), 0)})
                    elif op == "getelementptr":
                        put(dst, val(i[4]))
                    elif op == "phi":
                        for x in i[4]:
                            put(dst, val(x[1] if type(x[0]) is int and type(x) is list and len(x) == 2 else x))
                    elif op == "select":
                        put(dst, val(i[5]) | val(i[6]))
                    elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "extractvalue", "zext", "trunc", "sext"):
                        put(dst, val(i[4]))
                    elif op == "insertvalue":
                        put(dst, val(i[4]) | val(i[5]))
                    elif op in ("add", "sub", "and", "or"):
                        put(dst, val(i[4]) | val(i[5]))
                    elif op == "load":
                        put(dst, deref(val(i[4])))
                    elif op == "store":
                        a, v = val(i[5]), val(i[4])
                        wr(a, loc, None, bi)
                        store_into(a, v)
                    elif op in ("call", "invoke"):
                        args = [val(x) for x in i[5]]
                        f = i[4]
                        if type(f) is list and f[0] == "F":
                            f = f[1]
                            if f in m.funcs and not isstd(m.demangled(f)):
                                s = self.sum.get(f)
                                if s:
                                    for (r, d), (l2, v2) in list(s["w"].items()):
                                        if r[0] == "p":
                                            if r[1] < len(args):
                                                a = args[r[1]]
                                                if d:
                                                    a = deref(a)
                                                wr(a, loc, f, bi)
                                        elif not (r[0] == "g" and bi in init.get(r[1], ())):
                                            wr({(r, d)}, loc, f, bi)
                                    out = set()
                                    for (r, d) in s["r"]:
                                        if r[0] == "p":
                                            if r[1] < len(args):
                                                out |= deref(args[r[1]]) if d else args[r[1]]
                                        elif r[0] in ("g",):
                                            out.add((r, d))
                                        else:
                                            out.add((("h", dst), 0))
                                    put(dst, out)
                                    # pointers stored by the callee into memory it was given
                                    for (k, r, d) in s["s"]:
                                        if k < len(args):
                                            v = (deref(args[r[1]]) if d else args[r[1]]) if r[0] == "p" and r[1] < len(args) else {(r, d)} if r[0] == "g" else set()
                                            store_into(args[k], v)
                            else:
                                d = m.demangled(f)
                                if ALLOC.match(d):
                                    put(dst, {(("h", dst), 0)})
                                    continue
                                for k in self.extern(f, len(args)):
                                    if k < len(args):
                                        wr(args[k], loc, f, bi)
                                allp = set().union(*args) if args else set()
                                put(dst, allp)
                                if isstd(d):
                                    for k in self.extern(f, len(args)):
                                        if k < len(args):
                                            store_into(args[k], allp)
                                if d.startswith("llvm.mem") or d in ("memcpy", "memmove"):
                                    store_into(args[0], deref(args[1]))
                        elif type(f) is list and f[0] == "asm":
                            continue
                        else:
                            # routine behind a function pointer: writes its first operand (decided on the
                            # machine code of every generated routine by the properties of the operations)
                            if args and not (origin(j, f) or "").endswith(("mod1E", "compareE")):
                                wr(args[0], loc, "function pointer", bi)
                    elif op in ("atomicrmw", "cmpxchg"):
                        wr(val(i[4]), loc, None, bi)
                    elif op == "ret":
                        v = val(i[4]) if len(i) > 4 else set()
                        if not v <= ret:
                            ret |= v; ch = True
        st = set()
        for bi, b in enumerate(j["b"]):
            for i in b:
                if i[0] == "store":
                    for (r, d) in val(i[5]):
                        if r[0] == "p" and d == 0:
                            for (r2, d2) in val(i[4]):
                                if r2[0] in ("p", "g"):
                                    st.add((r[1], r2, d2))
        return {"w": writes, "r": ret, "s": st}

    def guarded(self, n):
        """global -> blocks that run only while its initialisation guard is held"""
        m = self.m
        j = m.fj(n)["b"]
        acq = []
        for bi, b in enumerate(j):
            for i in b:
                if i[0] in ("call", "invoke") and type(i[4]) is list and i[4] == ["F", "__cxa_guard_acquire"]:
                    acq.append((bi, i))
        if not acq:
            return {}
        N = len(j)
        succ = [successors(b) for b in j]
        out = {}
        for bi, i in acq:
            g = i[5][0][1]
            obj = guardof(g)
            # blocks reachable from the taken edge without passing the release of this guard
            br = j[bi][-1]
            s = succ[bi]
            rel = {k for k, b in enumerate(j) for x in b if x[0] in ("call", "invoke") and type(x[4]) is list and x[4][0] == "F" and x[4][1] in ("__cxa_guard_release", "__cxa_guard_abort") and x[5][0][1] == g}
            best = None
            for t in s:
                seen = set(); todo = [t]
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if x in rel:
                        continue
                    todo += succ[x]
                if rel & seen and (best is None or len(seen) < len(best)):
                    best = seen
            if best is None:
                continue
            # only blocks all of whose paths from the entry pass the acquisition
            dom = set()
            seen = set(); todo = [0]
            while todo:
                x = todo.pop()
                if x in seen or x == bi:
                    continue
                seen.add(x); todo += succ[x]
            # paths around the taken edge
            other = [t for t in s if t not in best or t in best and len(s) > 1 and t != min(best & set(s), default=None)]
            out.setdefault(obj, set()).update(best - seen - self.after(succ, bi, best, s))
        return out

    def after(self, succ, bi, best, s):
        """blocks reachable over the edge that skips the initialisation"""
        seen = set()
        todo = [t for t in s if t not in best]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x); todo += succ[x]
        return seen

    # ------------------------------------------------------------ whole program
    def solve(self, roots):
        m = self.m
        order = []
        seen = set()
        stack = [(r, 0) for r in roots]
        calls = {}

        def cs(n):
            if n not in calls:
                calls[n] = sorted({i[4][1] for b in m.fj(n)["b"] for i in b if i[0] in ("call", "invoke") and type(i[4]) is list and i[4][0] == "F" and i[4][1] in m.funcs and not isstd(m.demangled(i[4][1]))})
            return calls[n]
        for r in roots:
            if r in seen:
                continue
            st = [(r, iter(cs(r)))]
            seen.add(r)
            while st:
                n, it = st[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c); st.append((c, iter(cs(c))))
                        break
                else:
                    st.pop(); order.append(n)
        for rnd in range(8):
            ch = False
            for n in order:
                s = self.analyse(n)
                o = self.sum.get(n)
                if o is None or o["w"].keys() != s["w"].keys() or o["r"] != s["r"] or o["s"] != s["s"]:
                    self.sum[n] = s; ch = True
            if not ch:
                return order
        raise AnalysisError("effects: no fixpoint")

    def chain(self, n, key):
        """call path from n to the writing instruction"""
        out = []
        while True:
            loc, via = self.sum[n]["w"][key]
            out.append("%s at %s" % (self.m.demangled(n).split("(")[0], locstr(self.m, loc)))
            if via is None or via not in self.sum or key not in self.sum[via]["w"] or len(out) > 12:
                return out, locstr(self.m, loc)
            n = via


def isstd(d):
    """a function of the C++ library, taken to write what its signature allows"""
    return bool(re.match(r"^(?:[\w:<>,&* ()\[\]]*? )?(?:std|__gnu_cxx)::", d.split("(")[0])) and not re.match(r"^(?:[\w:]+ )?(mie|bn|Xbyak)::", d)


def origin(j, reg):
    """the variable a function pointer was loaded from"""
    for b in j["b"]:
        for i in b:
            if i[1] == reg and i[0] == "load" and type(i[4]) is list and i[4][0] == "g":
                return i[4][1]
    return None


def guardof(g):
    return re.sub(r"^_ZGV", "_Z", g)


# ------------------------------------------------------------------ rules
def roots(m):
    """entry points: every analysed driver except the initialisation functions"""
    return sorted(n for n in m.funcs if n.startswith("d_") and not n.startswith("d_init"))


LIB = re.compile(r"^(?:(?:void|bool|int|unsigned|auto|decltype\(auto\)|[\w:<>,&* ]+) )?(mie|bn)::")
NORMAL = re.compile(r"^(const )?bn::EcT<.*|^bn::Ec[12]\b")


def run(w, r, cfg):
    m = w.m
    E = Effects(w)
    rs = roots(m)
    order = E.solve(rs)
    shared = {}
    for n in order:
        d = m.demangled(n)
        r.funcs.add(d.split("(")[0])
        s = E.sum[n]
        r.obl += 1
        bad = None
        for (k, dep), (loc, via) in sorted(s["w"].items(), key=lambda x: str(x[0])):
            if k[0] == "g":
                g = m.globals.get(k[1])
                if g is not None and g.get("c") == 1 or k[1] not in m.globals or not g.get("d", 1):
                    continue
                # report at the function that contains the store
                if via is not None and via in E.sum and (k, dep) in E.sum[via]["w"]:
                    continue
                bad = ("global", "[%s] %s writes %s, which has static storage and is shared by all threads" % (cfg, d.split("(")[0], m.demangled(k[1])), locstr(m, loc))
        if bad is None and LIB.match(d) and "(" in d and not d.startswith("std::"):
            ps, suf, name = params(d)
            nargs = m.fj(n)["na"]
            off = nargs - len(ps)
            ro = {}
            if suf.startswith("const") and off >= 1:
                ro[off - 1] = "*this"
            for q, t in enumerate(ps):
                if re.search(r" const\s*[&*]", t) or t.startswith("const "):
                    ro[q + off] = "argument %d" % (q + 1)
            for (k, dep), (loc, via) in sorted(s["w"].items(), key=lambda x: str(x[0])):
                if k[0] == "p" and k[1] in ro and dep == 0:
                    if normalises(E, n, (k, dep)):
                        continue
                    bad = ("const", "[%s] %s writes its read-only %s" % (cfg, d.split("(")[0], ro[k[1]]), locstr(m, loc))
        if bad:
            r.viol.append(bad)
        else:
            r.dis += 1
    if E.unknown:
        r.notes.append("external functions without a model, taken to write all arguments: %s" % ", ".join(sorted(E.unknown)[:20]))


def normalises(E, n, key):
    """the write is the normalisation of a point's representation (a mutable member)"""
    seen = 0
    while n is not None and seen < 15:
        if re.search(r"EcT<.*>::normalize\(\) const$", E.m.demangled(n)):
            return True
        loc, via = E.sum[n]["w"].get(key, (0, None))
        # the parameter may have another number in the callee
        if via in E.sum:
            ks = [k for k in E.sum[via]["w"] if k[0][0] == "p"]
            if any(re.search(r"EcT<.*>::normalize\(\) const$", E.m.demangled(via)) for _ in [0]):
                return True
            if not ks:
                return False
            key = ks[0]
        n = via if via in E.sum else None
        seen += 1
    return False
