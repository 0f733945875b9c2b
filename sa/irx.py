"""Abstract interpreter over LLVM IR (dumped by irdump).

Pointers are integers in a flat address space: object k owns addresses
[k<<24, (k+1)<<24).  Values are ints (constants), W (abstract words), floats,
lists (first-class aggregates) or UNDEF.
"""
import json, re, sys, struct, time
from dom import W, FV, Facts, UNDEF, PU, mkpu, AnalysisError, Dom, pconst, psub, padd, pscale

SH = 24
OFFM = (1 << SH) - 1
FBASE = 1 << 56


class Violation(Exception):
    """a definite rule violation found during interpretation"""
    def __init__(self, kind, msg, loc=None):
        Exception.__init__(self, msg)
        self.kind = kind; self.msg = msg; self.loc = loc


class PathEnd(Exception):
    def __init__(self, what, data=None):
        Exception.__init__(self, what)
        self.what = what; self.data = data


class Obj:
    __slots__ = ("id", "size", "name", "cells", "dflt", "owner", "alive", "ro")

    def __init__(self, id, size, name, dflt):
        self.id = id; self.size = size; self.name = name; self.cells = {}
        self.dflt = dflt; self.owner = None; self.alive = True; self.ro = False


class Fn:
    pass


class Module:
    def __init__(self, path):
        self.globals = {}; self.funcs = {}; self.decls = {}; self.files = []
        self.dem = {}
        with open(path) as f:
            for line in f:
                if line.startswith('{"k":"f"'):
                    # lazily parsed
                    m = re.match(r'\{"k":"f","n":"((?:[^"\\]|\\.)*)","d":"((?:[^"\\]|\\.)*)"', line)
                    n = json.loads('"%s"' % m.group(1)); d = json.loads('"%s"' % m.group(2))
                    self.funcs[n] = line
                    self.dem.setdefault(d, n)
                    continue
                j = json.loads(line)
                if j["k"] == "g":
                    self.globals[j["n"]] = j
                    self.dem.setdefault(j["d"], j["n"])
                elif j["k"] == "d":
                    self.decls[j["n"]] = j
                    self.dem.setdefault(j["d"], j["n"])
                elif j["k"] == "files":
                    self.files = j["f"]
        self.dnames = {}
        self.parsed = {}
        self.faddr = {}
        self.fbyaddr = {}
        self.compiled = {}

    def fj(self, name):
        j = self.parsed.get(name)
        if j is None:
            j = json.loads(self.funcs[name])
            self.parsed[name] = j
        return j

    def addr_of(self, name):
        a = self.faddr.get(name)
        if a is None:
            a = FBASE + 16 * (len(self.faddr) + 1)
            self.faddr[name] = a
            self.fbyaddr[a] = name
        return a

    def demangled(self, name):
        d = self.dnames.get(name)
        if d is None:
            if name in self.funcs:
                m = re.match(r'\{"k":"f","n":"(?:[^"\\]|\\.)*","d":"((?:[^"\\]|\\.)*)"', self.funcs[name])
                d = json.loads('"%s"' % m.group(1))
            elif name in self.decls:
                d = self.decls[name]["d"]
            else:
                d = name
            self.dnames[name] = d
        return d

    def find(self, pat):
        """mangled names whose demangled name matches the regex"""
        r = re.compile(pat)
        return [n for d, n in self.dem.items() if n in self.funcs and r.search(d)]


def locstr(m, loc):
    if loc is None:
        return "?"
    f, l = loc >> 20, loc & 0xfffff
    if f < 0 or f >= len(m.files):
        return "?:%d" % l
    return "%s:%d" % (m.files[f], l)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "freeze", "addrspacecast"}
FBIN = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


class Interp:
    def __init__(self, mod):
        self.m = mod
        self.models = {}
        self.rmodels = []
        self.steps = 0
        self.D = None

    # -------------------------------------------------------------- codegen
    def compile(self, name):
        c = self.m.compiled.get(name)
        if c is not None:
            return c
        j = self.m.fj(name)
        fn = Fn()
        fn.name = name; fn.dem = j["d"]; fn.na = j["na"]; fn.nv = j["nv"]; fn.at = j["at"]; fn.ret = j["ret"]
        fn.loc = (j["loc"][0] << 20) | j["loc"][1]
        segs = []         # list of source line lists
        bstart = {}
        # first pass: assign segment numbers
        nseg = 0
        plan = []
        for bi, b in enumerate(j["b"]):
            cur = []
            bstart[bi] = nseg
            parts = []
            for ins in b:
                if ins[0] == "phi":
                    continue
                cur.append(ins)
                if ins[0] in ("call", "invoke") and not self.inline_intrinsic(ins):
                    parts.append(cur); cur = []
            if cur:
                parts.append(cur)
            plan.append((bi, parts, nseg))
            nseg += len(parts)
        edges = {}
        extra = []

        def val(o):
            if type(o) is int:
                return "R[%d]" % o
            return self.const(o)

        def edge(src, dst):
            """segment to jump to for CFG edge src->dst"""
            phis = [i for i in j["b"][dst] if i[0] == "phi"]
            if not phis:
                return bstart[dst]
            k = (src, dst)
            if k in edges:
                return edges[k]
            n = nseg + len(extra)
            L = []
            for x, ph in enumerate(phis):
                for (pb, v) in ph[4]:
                    if pb == src:
                        L.append("t%d=%s" % (x, val(v)))
                        break
            for x, ph in enumerate(phis):
                L.append("R[%d]=t%d" % (ph[1], x))
            L.append("return %d" % bstart[dst])
            extra.append(L)
            edges[k] = n
            return n

        for bi, parts, s0 in plan:
            for pi, part in enumerate(parts):
                L = []
                for ins in part:
                    self.gen(ins, L, val, edge, bi, s0 + pi)
                segs.append(L)
        segs += extra
        src = []
        for i, L in enumerate(segs):
            src.append("def s%d(S,R):" % i)
            for l in L:
                src.append(" " + l)
        g = {"I": self, "UNDEF": UNDEF, "W": W}
        exec(compile("\n".join(src), "<ir %s>" % name, "exec"), g)
        fn.segs = [g["s%d" % i] for i in range(len(segs))]
        fn.entry = 0
        fn.bstart = bstart; fn.edgeseg = {n: b for (_, b), n in edges.items()}
        self.m.compiled[name] = fn
        return fn

    def const(self, o):
        k = o[0]
        if k == "i":
            return repr(o[1])
        if k == "f":
            return repr(float(o[1]))
        if k == "u" or k == "m":
            return "UNDEF"
        if k == "F":
            return repr(self.m.addr_of(o[1]))
        if k == "g":
            return "S.g(%r)" % o[1]
        if k == "+":
            return "(%s+%d)" % (self.const(o[1]), o[2])
        if k == "z":
            t = o[1]
            if type(t) is list:
                return "[%s]" % ",".join("0" for _ in t[2])
            return "0"
        if k == "a":
            return "[%s]" % ",".join(self.const(x) for x in o[1])
        if k == "asm":
            return "UNDEF"
        raise AnalysisError("const " + repr(o))

    INTR_SKIP = ("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias", "llvm.stacksave", "llvm.stackrestore", "llvm.donothing")

    def inline_intrinsic(self, ins):
        c = ins[4]
        if type(c) is list and c[0] == "F":
            n = c[1]
            if n.startswith(self.INTR_SKIP):
                return True
            if n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")) and ins[0] == "call":
                return True
        return False

    def gen(self, ins, L, val, edge, bi, seg):
        op, d = ins[0], ins[1]
        loc = (ins[2] << 20) | ins[3] if ins[2] >= 0 else 0
        if op == "alloca":
            L.append("R[%d]=S.alloca(%d*%s,%r)" % (d, ins[4], val(ins[5]), ins[6]))
        elif op == "load":
            t = ins[5]
            if type(t) is list:
                L.append("R[%d]=S.ldagg(%s,%r,%d)" % (d, val(ins[4]), t, loc))
            elif t in ("d", "f"):
                L.append("R[%d]=S.ldf(%s,%d,%d)" % (d, val(ins[4]), ins[6], loc))
            else:
                L.append("R[%d]=S.ld(%s,%d,%d)" % (d, val(ins[4]), ins[6], loc))
                if type(t) is int and t < 8:
                    L.append("R[%d]=R[%d]&%d if type(R[%d]) is int else I.trunc(S,R[%d],8,%d)" % (d, d, (1 << t) - 1, d, d, t))
        elif op == "store":
            t = ins[6]
            if type(t) is list:
                L.append("S.stagg(%s,%s,%r,%d)" % (val(ins[5]), val(ins[4]), t, loc))
            elif t in ("d", "f"):
                L.append("S.stf(%s,%d,%s,%d)" % (val(ins[5]), ins[7], val(ins[4]), loc))
            else:
                L.append("S.st(%s,%d,%s,%d)" % (val(ins[5]), ins[7], val(ins[4]), loc))
        elif op == "getelementptr":
            if ins[5] is None:
                L.append("raise AnalysisError('gep')")
                return
            e = val(ins[4])
            if ins[5]:
                e += "+%d" % ins[5]
            if not ins[6]:
                if ins[5]:
                    L.append("t=%s" % val(ins[4]))
                    L.append("R[%d]=(t+%d)&0xffffffffffffffff if type(t) is int else I.gep(S,t,%d,[],%d)" % (d, ins[5], ins[5], loc))
                else:
                    L.append("R[%d]=%s" % (d, val(ins[4])))
            else:
                L.append("R[%d]=I.gep(S,%s,%d,[%s],%d)" % (d, val(ins[4]), ins[5], ",".join("(%s,%d,%d)" % (val(x[0]), x[1], x[2]) for x in ins[6]), loc))
        elif op in BIN:
            n = ins[6]
            if type(n) is not int:
                L.append("R[%d]=I.binv(S,%r,%s,%s,%r)" % (d, op, val(ins[4]), val(ins[5]), n))
                return
            M = (1 << n) - 1
            a, b = val(ins[4]), val(ins[5])
            ca = type(ins[4]) is list and ins[4][0] == "i"
            cb = type(ins[5]) is list and ins[5][0] == "i"
            L.append("a=%s;b=%s" % (a, b))
            fast = None
            if op == "add": fast = "(a+b)&%d" % M
            elif op == "sub": fast = "(a-b)&%d" % M
            elif op == "mul": fast = "(a*b)&%d" % M
            elif op == "and": fast = "a&b"
            elif op == "or": fast = "a|b"
            elif op == "xor": fast = "a^b"
            elif op == "shl": fast = "(a<<b)&%d if b<%d else UNDEF" % (M, n)
            elif op == "lshr": fast = "a>>b if b<%d else UNDEF" % n
            if fast:
                L.append("R[%d]=(%s) if type(a) is int and type(b) is int else I.bin(S,%r,a,b,%d,%d)" % (d, fast, op, n, loc))
            else:
                L.append("R[%d]=I.bin(S,%r,a,b,%d,%d)" % (d, op, n, loc))
        elif op == "icmp":
            n = ins[7]
            if n == "p":
                n = 64
            pr = ins[4]
            L.append("a=%s;b=%s" % (val(ins[5]), val(ins[6])))
            f = {"eq": "a==b", "ne": "a!=b", "ult": "a<b", "ule": "a<=b", "ugt": "a>b", "uge": "a>=b"}.get(pr)
            if f:
                L.append("R[%d]=(1 if %s else 0) if type(a) is int and type(b) is int else I.icmp(S,%r,a,b,%d,%d)" % (d, f, pr, n, loc))
            else:
                L.append("R[%d]=I.icmp(S,%r,a,b,%d,%d)" % (d, pr, n, loc))
        elif op == "fcmp":
            L.append("R[%d]=I.fcmp(%r,%s,%s)" % (d, ins[4], val(ins[5]), val(ins[6])))
        elif op in CAST:
            t = ins[5]; f = ins[6] if len(ins) > 6 else t
            v = val(ins[4])
            if op in ("zext", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
                if op == "ptrtoint" and type(t) is int and t < 64:
                    L.append("R[%d]=I.trunc(S,%s,64,%d)" % (d, v, t))
                elif op == "bitcast" and type(t) is not type(f):
                    L.append("R[%d]=UNDEF" % d)
                else:
                    L.append("R[%d]=%s" % (d, v))
            elif op == "trunc":
                L.append("a=%s" % v)
                L.append("R[%d]=a&%d if type(a) is int else I.trunc(S,a,%d,%d)" % (d, (1 << t) - 1, f, t))
            elif op == "sext":
                L.append("R[%d]=I.sext(S,%s,%d,%d)" % (d, v, f, t))
            else:
                L.append("R[%d]=I.fcast(%r,%s,%r,%r,S,%d)" % (d, op, v, f, t, loc))
        elif op in FBIN:
            L.append("a=%s;b=%s" % (val(ins[4]), val(ins[5])))
            L.append("R[%d]=a%sb if type(a) is float and type(b) is float else I.fbin(S,%r,a,b,%d)" % (d, FBIN[op], op, loc))
        elif op == "fneg":
            L.append("a=%s;R[%d]=-a if type(a) is float else UNDEF" % (val(ins[4]), d))
        elif op == "select":
            L.append("a=%s" % val(ins[4]))
            L.append("R[%d]=(%s if a else %s) if type(a) is int else I.sel(S,a,%s,%s)" % (d, val(ins[5]), val(ins[6]), val(ins[5]), val(ins[6])))
        elif op == "br":
            if ins[4] is None:
                L.append("return %d" % edge(bi, ins[5]))
            else:
                L.append("a=%s" % val(ins[4]))
                L.append("if type(a) is int: I.dirs.add((%d,1 if a else 0)); return %d if a else %d" % (loc, edge(bi, ins[5]), edge(bi, ins[6])))
                L.append("return ('b',a,%d,%d,%d)" % (edge(bi, ins[5]), edge(bi, ins[6]), loc))
        elif op == "switch":
            L.append("a=%s" % val(ins[4]))
            dd = "{%s}" % ",".join("%d:%d" % (c, edge(bi, t)) for c, t in ins[6])
            L.append("if type(a) is int: return %s.get(a,%d)" % (dd, edge(bi, ins[5])))
            L.append("return ('s',a,%s,%d,%d)" % (dd, edge(bi, ins[5]), loc))
        elif op == "ret":
            if len(ins) > 5 or (len(ins) == 5 and ins[4] != "v"):
                L.append("return ('r',%s)" % val(ins[4]))
            else:
                L.append("return ('r',None)")
        elif op in ("call", "invoke"):
            c = ins[4]
            if type(c) is list and c[0] == "F" and op == "call":
                n = c[1]
                if n.startswith(self.INTR_SKIP):
                    if d >= 0:
                        L.append("R[%d]=0" % d)
                    return
                if self.inline_intrinsic(ins):
                    k = {"llvm.memcp": "memcpy", "llvm.memse": "memset", "llvm.memmo": "memcpy"}[n[:10]]
                    L.append("S.%s(%s,%s,%s,%d)" % (k, val(ins[5][0]), val(ins[5][1]), val(ins[5][2]), loc))
                    return
            args = "[%s]" % ",".join(val(x) for x in ins[5])
            if type(c) is list and c[0] == "asm":
                L.append("R[%d]=I.asm(S,%r,%r,%s)" % (d if d >= 0 else 0, c[1], c[2], args) if d >= 0 else "I.asm(S,%r,%r,%s)" % (c[1], c[2], args))
                L.append("return %d" % (seg + 1))
                return
            byval = [(k, t[1]) for k, t in enumerate(ins[7]) if type(t) is list and t[0] == "byval"]
            if byval:
                L.append("ar=%s" % args)
                for k, sz in byval:
                    L.append("ar[%d]=S.bycopy(ar[%d],%d)" % (k, k, sz))
                args = "ar"
            callee = repr(self.m.addr_of(c[1])) if type(c) is list and c[0] == "F" else val(c)
            if op == "call":
                L.append("return ('c',%s,%s,%d,%d,-1,%d)" % (callee, args, d, seg + 1, loc))
            else:
                L.append("return ('c',%s,%s,%d,%d,%d,%d)" % (callee, args, d, edge(bi, ins[8]), edge(bi, ins[9]), loc))
        elif op == "extractvalue":
            e = val(ins[4])
            for k in ins[5]:
                e += "[%d]" % k
            L.append("R[%d]=%s" % (d, e))
        elif op == "insertvalue":
            L.append("R[%d]=I.insv(%s,%s,%r,%r)" % (d, val(ins[4]), val(ins[5]), ins[6], ins[7]))
        elif op == "landingpad":
            L.append("R[%d]=S.landing(%r)" % (d, ins[5]))
        elif op == "resume":
            L.append("return ('u',)")
        elif op == "unreachable":
            L.append("return ('x',%d)" % loc)
        elif op in ("extractelement", "insertelement", "shufflevector"):
            L.append("R[%d]=I.vec(%r,%s)" % (d, op, ",".join(val(x) for x in ins[4:-1])))
        elif op in ("atomicrmw", "cmpxchg", "fence"):
            L.append("raise I.err(%r)" % op)
        else:
            L.append("raise I.err(%r)" % op)

    def err(self, op):
        return AnalysisError("unsupported IR op " + op)

    # -------------------------------------------------------------- scalar ops
    def gep(self, S, base, off, idx, loc):
        a = base
        if type(a) is not int:
            if isinstance(a, W):
                return self.D.add(a, off, 64) if not idx else self._gepw(S, a, off, idx)
            if a is UNDEF:
                raise Violation("undef", "address computed from an uninitialised pointer", loc)
            raise AnalysisError("gep on %r" % (a,))
        a += off
        for (v, sc, n) in idx:
            if type(v) is int:
                a += (sgn(v, n) if n != 64 else sgn(v, 64)) * sc
            elif isinstance(v, W):
                return self._gepw(S, base, off, idx)
            else:
                raise Violation("undef", "index is uninitialised", loc)
        return a & 0xffffffffffffffff

    def _gepw(self, S, base, off, idx):
        D = self.D
        a = D.add(base, off & ((1 << 64) - 1), 64)
        for (v, sc, n) in idx:
            if type(v) is int:
                a = D.add(a, (sgn(v, n) * sc) & ((1 << 64) - 1), 64)
            else:
                a = D.add(a, D.mul(v, sc, 64), 64)
        return a

    def bin(self, S, op, a, b, n, loc):
        M = (1 << n) - 1
        if type(a) is int and type(b) is int:
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    raise Violation("divzero", "division by zero", loc)
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == "sdiv" else x - q * y) & M
            if op == "ashr":
                return (sgn(a, n) >> b) & M if b < n else UNDEF
        if type(a) is PU or type(b) is PU or (op == "and" and (a is UNDEF) != (b is UNDEF)):
            if type(b) is PU or b is UNDEF:
                if op in ("and", "or", "xor"):
                    a, b = b, a
            av, au = (0, M) if a is UNDEF else (a.v, a.u) if type(a) is PU else (a, 0)
            if type(b) is int and type(av) is int:
                if op == "and":
                    return mkpu(av & b, au & b)
                if op == "or":
                    return mkpu(av | b, au & ~b)
                if op == "shl" and b < n:
                    return mkpu((av << b) & M, (au << b) & M)
                if op == "lshr" and b < n:
                    return mkpu(av >> b, au >> b)
            if op == "or" and type(a) is PU and type(b) is PU:
                return mkpu(a.v | b.v, (a.u | b.u) & ~a.v & ~b.v & M)
            a = UNDEF if type(a) is PU else a
            b = UNDEF if type(b) is PU else b
            if op == "and" and type(a) is not W and type(b) is not W:
                return UNDEF
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 if type(a) is int else (type(b) is int and b == 0)):
                return 0
            if op == "mul" and (a == 0 if type(a) is int else (type(b) is int and b == 0)):
                return 0
            return UNDEF
        D = self.D
        if n == 1:
            if op == "xor":
                if type(b) is int:
                    return D.bnot(a) if b else a
                if type(a) is int:
                    return D.bnot(b) if a else b
                return D.sub(D.add(a, b, 8), D.mul(2, D.band(a, b), 8), 8)
            if op == "and":
                return D.band(a, b)
            if op == "or":
                return D.bor(a, b)
        if op == "add":
            return D.add(a, b, n)
        if op == "sub":
            return D.sub(a, b, n)
        if op == "mul":
            return D.mul(a, b, n)
        if op == "shl" and type(b) is int:
            return D.shl(a, b, n) if b < n else UNDEF
        if op == "lshr" and type(b) is int:
            return D.shr(a, b, n) if b < n else UNDEF
        if op == "and":
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                if b == 0:
                    return 0
                if b & (b + 1) == 0:
                    return D.low(a, b.bit_length())
                q = self.maskof(a, n)
                if q is not None:
                    return D.mk(pscale(q, b), 0, b)
                inv = M ^ b
                if inv & (inv + 1) == 0:
                    return D.sub(a, D.low(a, inv.bit_length()), n)
            else:
                ra = self.isbool(a); rb = self.isbool(b)
                if ra and rb:
                    return D.band(a, b)
                for x, y in ((a, b), (b, a)):
                    q = self.maskof(x, n)
                    if q is not None:
                        if isinstance(y, W) and self.maskof(y, n) is None or True:
                            return D.mk(D.pmul(q, D.P(y)), 0, D.iv(y)[1])
        if op == "or":
            if type(a) is int:
                a, b = b, a
            if type(b) is int and b == 0:
                return a
            if self.isbool(a) and self.isbool(b):
                return D.bor(a, b)
            r = self.disjoint(a, b)
            if r is not None:
                return r
        if op == "xor":
            if type(b) is int and b == 0:
                return a
            if type(b) is int and b == M:
                return D.sub(M, a, n)
            if self.isbool(a) and self.isbool(b):
                return D.sub(D.add(a, b, n), D.mul(2, D.band(a, b), n), n)
        if op in ("udiv", "urem") and type(b) is int and b:
            q = D.mk(D.floor(D.P(a), b), D.iv(a)[0] // b, D.iv(a)[1] // b)
            if op == "udiv":
                return q
            return D.sub(a, D.mul(q, b, n), n)
        if op in ("sdiv", "srem") and type(b) is int and 0 < b < (1 << (n - 1)) and D.iv(a)[1] < (1 << (n - 1)):
            return self.bin(S, "u" + op[1:], a, b, n, loc)
        if op == "ashr" and type(b) is int and D.iv(a)[1] < (1 << (n - 1)):
            return D.shr(a, b, n)
        h = self.opaque(op, a, b, n)
        return h

    def opaque(self, op, a, b, n):
        """no precise transfer: fresh word keyed by operands"""
        D = self.D
        from dom import pkey
        k = ("op", op, pkey(D.P(a)), pkey(D.P(b)), n)
        r = D.eqs.get(k)
        if r is None:
            lo, hi = 0, (1 << n) - 1
            if op == "or":
                lo = max(D.iv(a)[0], D.iv(b)[0])
            elif op == "and":
                hi = min(D.iv(a)[1], D.iv(b)[1])
            r = D.atom("%s%d" % (op, len(D.atoms)), lo, hi, "opaque", (op, a, b, n))
            D.eqs[k] = r
        a = D.atoms[r]
        return D.mk({(r,): 1}, a.lo, a.hi)

    def maskof(self, x, n):
        """boolean polynomial q when x = q ? all-ones : 0"""
        M = (1 << n) - 1
        p = x.p
        if all(c % M == 0 for c in p.values()):
            q = {m: c // M for m, c in p.items()}
            l, h = self.D.rng(q)
            if l >= 0 and h <= 1:
                return q
        r = self.D.dropinfeasible(p)
        if r is not p and all(c % M == 0 for c in r.values()):
            q = {m: c // M for m, c in r.items()}
            l, h = self.D.rng(q)
            if l >= 0 and h <= 1:
                return q
            # sum of mutually exclusive booleans
            if all(len(m) == 1 and c == 1 and self.D.atoms[m[0]].bool for m, c in q.items()):
                ms = sorted(q)
                if all(self.D.infeasible((a[0], b[0])) for k, a in enumerate(ms) for b in ms[:k]):
                    return q
        return None

    def isbool(self, v):
        return v in (0, 1) if type(v) is int else (v.lo >= 0 and v.hi <= 1)

    def disjoint(self, a, b):
        """a|b when the set bits cannot overlap"""
        D = self.D
        for x, y in ((a, b), (b, a)):
            yl, yh = D.iv(y)
            k = yh.bit_length()
            if k == 0:
                return x
            p = D.P(x)
            if all(c % (1 << k) == 0 for c in p.values()):
                return D.add(x, y, 64)
        return None

    def icmp(self, S, pr, a, b, n, loc):
        if type(a) is int and type(b) is int:
            if pr[0] == "s":
                a, b = sgn(a, n), sgn(b, n)
            k = pr[-2:] if len(pr) == 3 else pr
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k])
        if a is UNDEF or b is UNDEF or type(a) is PU or type(b) is PU:
            return UNDEF
        D = self.D
        if pr == "eq":
            return D.eq(a, b, n)
        if pr == "ne":
            return D.bnot(D.eq(a, b, n))
        if pr[0] == "s":
            al, ah = D.iv(a); bl, bh = D.iv(b)
            H = 1 << (n - 1)
            def split(l, h):
                return 1 if h < H else (-1 if l >= H else 0)
            sa, sb = split(al, ah), split(bl, bh)
            if sa == 0 or sb == 0:
                # compare after biasing by 2^(n-1)
                a2 = D.add(a, H, n); b2 = D.add(b, H, n)
                return self.icmp(S, "u" + pr[1:], a2, b2, n, loc)
            if sa != sb:
                lt = 1 if sa < sb else 0
                return lt if pr in ("slt", "sle") else 1 - lt
        if pr[1:] == "lt":
            return D.ult(a, b, n)
        if pr[1:] == "gt":
            return D.ult(b, a, n)
        if pr[1:] == "le":
            return D.bnot(D.ult(b, a, n))
        return D.bnot(D.ult(a, b, n))

    def fcmp(self, pr, a, b):
        if type(a) is float and type(b) is float:
            k = pr[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k])
        return UNDEF

    def trunc(self, S, a, f, t):
        if a is UNDEF:
            return UNDEF
        if type(a) is int:
            return a & ((1 << t) - 1)
        if type(a) is PU:
            return mkpu(a.v & ((1 << t) - 1), a.u & ((1 << t) - 1))
        return self.D.low(a, t)

    def sext(self, S, a, f, t):
        if type(a) is int:
            return sgn(a, f) & ((1 << t) - 1)
        if a is UNDEF or type(a) is PU:
            return UNDEF
        D = self.D
        if f == 1:
            return D.sub(0, a, t)
        if a.hi < (1 << (f - 1)):
            return a
        s = D.shr(a, f - 1, f)
        return D.add(a, D.mul(s, ((1 << t) - (1 << f)), t), t)

    fp = None          # transfer functions of abstract floating-point numbers

    def fbin(self, S, op, a, b, loc):
        if self.fp is not None and a is not UNDEF and b is not UNDEF:
            return self.fp.bin(S, op, a, b, loc)
        return UNDEF

    def fcast(self, op, a, f, t, S=None, loc=0):
        if op in ("sitofp", "uitofp") and type(a) is int:
            return float(sgn(a, f) if op == "sitofp" else a)
        if op in ("fptosi", "fptoui") and type(a) is float:
            return int(a) & ((1 << t) - 1)
        if op in ("fpext", "fptrunc") and type(a) is float:
            return a
        if self.fp is not None and a is not UNDEF and S is not None:
            return self.fp.cast(S, op, a, f, t, loc)
        return UNDEF

    def sel(self, S, c, a, b):
        if c is UNDEF or type(c) is PU:
            return UNDEF
        if a is UNDEF or b is UNDEF or type(a) is PU or type(b) is PU:
            return UNDEF
        if type(a) is float or type(b) is float:
            return UNDEF
        return self.D.select(c, a, b)

    def insv(self, agg, v, idx, t):
        def mk(t):
            return [mk(x[1]) if type(x[1]) is list else UNDEF for x in t[2]]
        def cp(x):
            return [cp(y) if type(y) is list else y for y in x]
        r = mk(t) if agg is UNDEF else cp(agg)
        q = r
        for k in idx[:-1]:
            q = q[k]
        q[idx[-1]] = v
        return r

    def vec(self, op, *a):
        if op == "extractelement" and type(a[1]) is int and type(a[0]) is list:
            return a[0][a[1]]
        if op == "insertelement" and type(a[2]) is int and type(a[0]) is list:
            r = list(a[0]); r[a[2]] = a[1]
            return r
        raise AnalysisError("vector op " + op)

    def binv(self, S, op, a, b, t):
        if type(t) is list and type(a) is list and type(b) is list:
            n = t[2][0][1]
            if type(n) is int:
                return [self.bin2(S, op, x, y, n) for x, y in zip(a, b)]
        raise AnalysisError("vector op " + op)

    def bin2(self, S, op, a, b, n):
        M = (1 << n) - 1
        if type(a) is int and type(b) is int and op in ("add", "sub", "mul", "and", "or", "xor"):
            return {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}[op] & M
        return self.bin(S, op, a, b, n, 0)

    def asm(self, S, text, cons, args):
        h = self.models.get("asm:" + text.strip().split()[0])
        if h:
            return h(S, text, args)
        raise AnalysisError("inline asm " + text)


class Frame:
    __slots__ = ("fn", "seg", "R", "dst", "unw", "loc", "allocas", "ret_loc")

    def copy(self):
        f = Frame()
        f.fn = self.fn; f.seg = self.seg; f.R = list(self.R); f.dst = self.dst; f.unw = self.unw
        f.loc = self.loc; f.allocas = list(self.allocas); f.ret_loc = self.ret_loc
        return f


class State:
    """abstract state of one trace partition"""
    def __init__(self, interp):
        self.I = interp
        self.m = interp.m
        self.mem = {}
        self.next = [1]
        self.gmap = {}
        self.frames = []
        self.asm = {}
        self.facts = Facts()
        self.exc = None
        self.path = []       # branch decisions (atom name, value, loc)
        self.log = []        # events recorded by models
        self.user = {}
        self.result = None
        self.lineage = object()

    def fork(self):
        s = State.__new__(State)
        s.I = self.I; s.m = self.m
        s.mem = dict(self.mem)
        s.next = self.next
        s.gmap = dict(self.gmap)
        s.frames = [f.copy() for f in self.frames]
        s.asm = dict(self.asm); s.facts = self.facts.copy()
        s.exc = self.exc
        s.path = list(self.path); s.log = list(self.log); s.user = dict(self.user)
        s.result = None
        # both sides must copy before writing
        self.lineage = object()
        s.lineage = object()
        return s

    # ---- objects
    def new(self, size, name, dflt=UNDEF):
        i = self.next[0]
        n = max(1, (size + OFFM) >> SH)
        self.next[0] += n
        o = Obj(i, size, name, dflt)
        o.owner = self.lineage
        self.mem[i] = o
        return i << SH

    def g(self, name):
        a = self.gmap.get(name)
        if a is None:
            j = self.m.globals.get(name)
            if j is None:
                raise AnalysisError("unknown global " + name)
            a = self.new(j["size"], j["d"], 0 if j["init"] is not None else UNDEF)
            self.gmap[name] = a
            o = self.mem[a >> SH]
            o.ro = bool(j["c"])
            for off, size, c in j["init"] or []:
                o.cells[off] = (size, self.cval(c))
        return a

    def cval(self, c):
        k = c[0]
        if k == "i":
            return c[1]
        if k == "f":
            return int.from_bytes(struct.pack("<d", float(c[1])), "little")
        if k == "F":
            return self.m.addr_of(c[1])
        if k == "g":
            return self.g(c[1])
        if k == "+":
            return self.cval(c[1]) + c[2]
        return UNDEF

    def gname(self, dem):
        n = self.m.dem.get(dem)
        if n is None:
            raise AnalysisError("no symbol " + dem)
        return self.g(n)

    def alloca(self, size, name):
        a = self.new(size, name)
        self.frames[-1].allocas.append(a >> SH)
        return a

    def bycopy(self, a, size):
        b = self.new(size, "byval")
        self.memcpy(b, a, size, 0)
        return b

    def wobj(self, addr, size, loc):
        if type(addr) is not int:
            if addr is UNDEF:
                raise Violation("undef", "store through an uninitialised pointer", loc)
            raise AnalysisError("store to abstract address %r at %s" % (addr, locstr(self.m, loc)))
        o = self.mem.get(addr >> SH)
        off = addr & OFFM
        if o is None or not o.alive or off + size > o.size:
            self.oob(addr, size, "write", loc)
        if o.owner is not self.lineage:
            n = Obj(o.id, o.size, o.name, o.dflt)
            n.cells = dict(o.cells); n.owner = self.lineage; n.alive = o.alive; n.ro = o.ro
            self.mem[o.id] = n
            o = n
        return o, off

    def oob(self, addr, size, what, loc):
        o = self.mem.get(addr >> SH)
        if o is None:
            # maybe inside a multi-slot object
            raise Violation("oob", "%s of %d bytes through an invalid pointer (%#x)" % (what, size, addr), loc)
        raise Violation("oob", "%s of %d bytes at offset %d of object '%s' (size %d%s)" % (what, size, addr & OFFM, o.name, o.size, "" if o.alive else ", freed"), loc)

    def st(self, addr, size, v, loc=0):
        o, off = self.wobj(addr, size, loc)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.clear(o, off, size)
        cells[off] = (size, v)

    def clear(self, o, off, size):
        """remove cells overlapping [off, off+size), keeping outside parts"""
        cells = o.cells
        for k in range(off - 63, off + size):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            sz, v = c
            del cells[k]
            if k < off:
                self.split(cells, k, sz, v, k, off)
            if k + sz > off + size:
                self.split(cells, k, sz, v, off + size, k + sz)

    def split(self, cells, k, sz, v, lo, hi):
        if type(v) is FV:
            b = lo
            while b < hi:
                if (b - k) % 8 == 0 and b + 8 <= hi:
                    cells[b] = (8, v.limb((b - k) // 8)); b += 8
                else:
                    cells[b] = (1, self.byte(v, b - k)); b += 1
            return
        for b in range(lo, hi):
            cells[b] = (1, self.byte(v, b - k))

    def byte(self, v, i):
        if type(v) is FV:
            return self.byte(v.limb(i // 8), i % 8)
        if type(v) is int:
            return (v >> (8 * i)) & 255
        if isinstance(v, W):
            D = self.I.D
            return D.low(D.shr(v, 8 * i, 64), 8)
        if type(v) is PU:
            return mkpu((v.v >> (8 * i)) & 255, (v.u >> (8 * i)) & 255)
        return UNDEF

    def ld(self, addr, size, loc=0):
        if type(addr) is not int:
            if addr is UNDEF:
                raise Violation("undef", "load through an uninitialised pointer", loc)
            return self.I.symload(self, addr, size, loc)
        o = self.mem.get(addr >> SH)
        off = addr & OFFM
        if o is None or off + size > o.size or not o.alive:
            self.oob(addr, size, "read", loc)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return self.ldslow(o, off, size)

    def ldslow(self, o, off, size):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] > size:
            v = c[1]
            if type(v) is int:
                return v & ((1 << (8 * size)) - 1)
            if isinstance(v, W):
                return self.I.D.low(v, 8 * size)
            if type(v) is FV:
                return self.ldfv(v, 0, size)
            if type(v) is PU:
                mm = (1 << (8 * size)) - 1
                return mkpu(v.v & mm, v.u & mm)
            return UNDEF
        for k in range(off - 1, off - 64, -1):
            c = cells.get(k)
            if c is not None:
                if type(c[1]) is FV and off + size <= k + c[0]:
                    return self.ldfv(c[1], off - k, size)
                break
        # gather
        parts = []
        pos = off
        while pos < off + size:
            found = None
            for k in range(pos, pos - 64, -1):
                c = cells.get(k)
                if c is not None and k + c[0] > pos:
                    found = (k, c)
                    break
            if found is None:
                parts.append((pos, 1, o.dflt))
                pos += 1
            else:
                k, (sz, v) = found
                if k == pos and k + sz <= off + size:
                    parts.append((pos, sz, v)); pos += sz
                else:
                    parts.append((pos, 1, self.byte(v, pos - k))); pos += 1
        r = 0
        u = 0
        D = self.I.D
        for p, sz, v in parts:
            if v is UNDEF:
                u |= ((1 << (8 * sz)) - 1) << (8 * (p - off))
            elif type(v) is PU:
                if type(r) is not int:
                    return UNDEF
                r |= v.v << (8 * (p - off)); u |= v.u << (8 * (p - off))
            elif type(v) is int:
                if type(r) is int:
                    r |= v << (8 * (p - off))
                else:
                    r = D.add(r, v << (8 * (p - off)), 8 * size)
            elif isinstance(v, W):
                r = D.add(r, D.shl(v, 8 * (p - off), 8 * size), 8 * size)
            else:
                return UNDEF
        if u:
            if type(r) is not int or u == (1 << (8 * size)) - 1:
                return UNDEF
            return PU(r, u)
        return r

    def ldfv(self, v, o, size):
        D = self.I.D
        if o // 8 != (o + size - 1) // 8:
            r = 0
            for b in range(size):
                r = D.add(r, D.shl(self.byte(v, o + b), 8 * b, 64), 64)
            return r
        x = v.limb(o // 8)
        o &= 7
        if o:
            x = D.shr(x, 8 * o, 64) if type(x) is not int else x >> (8 * o)
        if size < 8:
            x = D.low(x, 8 * size)
        return x

    def ldf(self, addr, size, loc=0):
        v = self.ld(addr, size, loc)
        if type(v) is int and size in (4, 8):
            return struct.unpack("<d" if size == 8 else "<f", v.to_bytes(size, "little"))[0]
        if self.I.fp is not None and isinstance(v, W) and size == 8:
            return self.I.fp.frombits(self, v)
        return UNDEF

    def stf(self, addr, size, v, loc=0):
        if type(v) is float and size in (4, 8):
            v = int.from_bytes(struct.pack("<d" if size == 8 else "<f", v), "little")
        elif self.I.fp is not None and size == 8 and v is not UNDEF:
            v = self.I.fp.tobits(self, v)
        self.st(addr, size, v, loc)

    def ldagg(self, addr, t, loc=0):
        return [self.ldagg(addr + o, x, loc) if type(x) is list else self.ld(addr + o, tsize(x), loc) for o, x in t[2]]

    def stagg(self, addr, v, t, loc=0):
        for k, (o, x) in enumerate(t[2]):
            e = UNDEF if v is UNDEF else v[k]
            if type(x) is list:
                self.stagg(addr + o, e, x, loc)
            else:
                self.st(addr + o, tsize(x), e, loc)

    def memcpy(self, dst, src, n, loc=0, *_):
        if type(n) is not int:
            raise AnalysisError("memcpy with abstract length at %s" % locstr(self.m, loc))
        if n == 0 or dst == src:
            return
        so = self.mem.get(src >> SH) if type(src) is int else None
        soff = src & OFFM
        if so is None or soff + n > so.size or not so.alive:
            self.oob(src, n, "read", loc)
        # snapshot
        got = []
        pos = soff
        cells = so.cells
        if n <= 4096:
            rng = range(soff - 63, soff + n)
            ks = [k for k in rng if k in cells]
        else:
            ks = sorted(k for k in cells if soff - 63 <= k < soff + n)
        for k in ks:
            sz, v = cells[k]
            if k >= soff and k + sz <= soff + n:
                got.append((k - soff, sz, v))
            elif k + sz > soff and type(v) is FV and soff % 8 == k % 8 and n % 8 == 0:
                for b in range(max(k, soff), min(k + sz, soff + n), 8):
                    got.append((b - soff, 8, v.limb((b - k) // 8)))
            elif k + sz > soff:
                for b in range(max(k, soff), min(k + sz, soff + n)):
                    got.append((b - soff, 1, self.byte(v, b - k)))
        do, doff = self.wobj(dst, n, loc)
        if n <= 4096:
            self.clear(do, doff, n)
        else:
            for k in [k for k in do.cells if doff - 63 <= k < doff + n]:
                self.clear(do, k, 1) if k < doff else do.cells.pop(k)
        covered = 0
        for k, sz, v in got:
            do.cells[doff + k] = (sz, v)
            covered += sz
        if covered < n and so.dflt is not do.dflt:
            # fill the holes with the source default
            pos = 0
            for k, sz, v in sorted(got) + [(n, 0, 0)]:
                while pos < k:
                    w = 8 if k - pos >= 8 and (doff + pos) % 8 == 0 else 1
                    do.cells[doff + pos] = (w, so.dflt)
                    pos += w
                pos = k + sz

    def memset(self, dst, v, n, loc=0, *_):
        if type(n) is not int:
            raise AnalysisError("memset with abstract length at %s" % locstr(self.m, loc))
        if n == 0:
            return
        o, off = self.wobj(dst, n, loc)
        if v == 0 and off == 0 and n == o.size:
            o.cells = {}; o.dflt = 0
            return
        self.clear(o, off, n)
        pos = 0
        while pos < n:
            w = 8 if n - pos >= 8 and (off + pos) % 8 == 0 else 1
            o.cells[off + pos] = (w, UNDEF if v is UNDEF else (v & 255) * (0x0101010101010101 if w == 8 else 1))
            pos += w

    def landing(self, clauses):
        sel = 0
        for k, c in enumerate(clauses):
            sel = k + 1
            break
        return [self.exc[1] if self.exc else 0, sel]

    def cstr(self, addr, maxlen=4096):
        r = ""
        while len(r) < maxlen:
            b = self.ld(addr + len(r), 1)
            if type(b) is not int:
                return None
            if b == 0:
                return r
            r += chr(b)
        return r

    # ---- substitution of an assumed atom through the state
    def assume(self, atom, val):
        """atom := constant (0/1)"""
        D = self.I.D
        env = {atom: pconst(val)}
        bf = D.boolfact(atom, val)
        a = D.atoms[atom]
        self.facts = self.facts.derive([(D.subst(f[0], env), f[1], f[2]) for f in self.facts])
        for f in bf:
            self.facts.append((D.subst(f[0], env), f[1], f[2]))
        if a.kind == "eq" and val == 1:
            p = D.subst(a.defn, env)
            self.facts.append((p, 0, 0))
        self.asm = {k: D.subst(v, env) for k, v in self.asm.items()}
        self.asm[atom] = pconst(val)
        if a.kind == "eq":
            if val == 1:
                self.eqzero(D.subst(a.defn, self.asm))
            else:
                self.nonzero(D.subst(a.defn, self.asm))
        self.resubst()

    def orleaves(self, p):
        """leaves of a bitwise-or tree that p denotes (p = +-or(...))"""
        D = self.I.D
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and abs(c) == 1:
                a = D.atoms[m[0]]
                if a.kind == "opaque" and a.defn[0] == "or":
                    r = []
                    for x in a.defn[1:3]:
                        q = D.subst(D.P(x), self.asm)
                        r += self.orleaves(q) or [q]
                    return r
        return None

    def eqzero(self, p):
        D = self.I.D
        ls = self.orleaves(p)
        if ls is None:
            self.I.addeq(self, p)
            return
        # all leaves are zero: eliminate single atoms first
        ls = sorted(ls, key=len)
        for q in ls:
            D.asm = self.asm
            q = D.subst(q, self.asm)
            if q:
                self.I.addeq(self, q)

    def nonzero(self, p):
        """p != 0 where p is a word: positive combinations are >= 1"""
        D = self.I.D
        ls = self.orleaves(p)
        if ls is None:
            ls = [p]
        ls = [q for q in ls if q]
        tot = None
        # weight the leaves so that limb sums collapse
        for base in ls:
            t = base; used = 1
            for q in ls:
                if q is base:
                    continue
                if len(q) == 1:
                    (m, c), = q.items()
                    k = -t.get(m, 0)
                    if c == 1 and k > 0:
                        t = padd(t, pscale(q, k)); used += 1
            if used == len(ls):
                tot = t
                break
        if tot is None:
            tot = {}
            for q in ls:
                tot = padd(tot, q)
        lo, hi = D.naive(tot)
        self.facts = self.facts.derive(self.facts + [(tot, 1, max(hi, 1))])

    def addeq(self, p):
        """p == 0: eliminate an atom that occurs linearly with unit coefficient"""
        D = self.I.D
        best = None
        for m, c in p.items():
            if len(m) == 1 and abs(c) == 1 and not any(m[0] in mm for mm in p if mm != m):
                if best is None or m[0] > best[0]:
                    best = (m[0], c)
        if best is None:
            return False
        if len(p) == 2 and D.atoms[best[0]].kind == "floor":
            # a quotient equals an input word: keep the quotient, its definition says more
            o, = [m for m in p if m != (best[0],)]
            if len(o) == 1 and D.atoms[o[0]].kind == "in" and p[o] == -best[1] and all(o[0] not in m for m in D.atoms[best[0]].defn[0]):
                best = (o[0], p[o])
        q = dict(p)
        del q[(best[0],)]
        e = pscale(q, -best[1])
        env = {best[0]: e}
        self.asm = {k: D.subst(v, env) for k, v in self.asm.items()}
        self.asm[best[0]] = e
        self.facts = self.facts.derive([(D.subst(f[0], env), f[1], f[2]) for f in self.facts])
        return True

    def resubst(self):
        D = self.I.D
        D.asm = self.asm; D.facts = self.facts
        env = self.asm
        cache = {}

        def fix(v):
            if isinstance(v, W):
                k = id(v)
                r = cache.get(k)
                if r is None:
                    p = D.subst(v.p, env)
                    if p is v.p:
                        r = (v, v)
                    else:
                        r = (v, self.fixw(p, v))
                    cache[k] = r
                return r[1]
            if type(v) is FV:
                p = D.subst(v.p, env)
                if p is v.p and v.limbs is None:
                    return v
                lo, hi = D.rng(p)
                l = None
                if v.limbs is not None:
                    l = [fix(x) for x in v.limbs]
                return FV(p, max(lo, v.lo), min(hi, v.hi), v.n, l)
            if type(v) is list:
                return [fix(x) for x in v]
            return v
        for i, o in list(self.mem.items()):
            n = None
            for off, (sz, v) in o.cells.items():
                if isinstance(v, W) or type(v) is FV:
                    w = fix(v)
                    if w is not v:
                        if n is None:
                            n = {}
                        n[off] = (sz, w)
            if n:
                if o.owner is not self.lineage:
                    q = Obj(o.id, o.size, o.name, o.dflt)
                    q.cells = dict(o.cells); q.owner = self.lineage; q.alive = o.alive; q.ro = o.ro
                    self.mem[i] = q
                    o = q
                o.cells.update(n)
        for f in self.frames:
            f.R = [fix(v) if isinstance(v, W) or type(v) is list else v for v in f.R]
        for k, v in list(self.user.items()):
            if isinstance(v, W):
                self.user[k] = fix(v)
        self.I.on_assume(self)

    def fixw(self, p, v):
        D = self.I.D
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        lo, hi = D.naive(p)
        return W(p, max(lo, v.lo), min(hi, v.hi))


def tsize(t):
    if type(t) is int:
        return (t + 7) // 8
    return {"p": 8, "d": 8, "f": 4, "x": 16}.get(t, 8)


class Run:
    """worklist driver over trace partitions"""
    def __init__(self, interp, maxpaths=4096, maxsteps=80000000):
        self.I = interp
        self.maxpaths = maxpaths
        self.maxsteps = maxsteps
        self.done = []
        self.forker = None     # handles branches on conditions outside the numeric domain

    def call(self, S, name, args):
        """run function `name` from state S; returns list of final states
        (state.result = ('ret', value) | ('end', what, data))"""
        self.push(S, name, args, -1, -1, 0)
        base = len(S.frames) - 1
        work = [S]
        out = []
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > self.maxpaths:
                e = AnalysisError("too many trace partitions in " + name)
                e.where = self.I.m.funcs[name].get("dem", name) if isinstance(self.I.m.funcs.get(name), dict) else name
                raise e
            D = self.I.D
            if D:
                D.asm = s.asm; D.facts = s.facts
            try:
                r = self.run(s, base, work)
            except PathEnd as e:
                s.result = ("end", e.what, e.data)
                s.frames_at_end = [(f.fn.dem, f.loc) for f in s.frames]
                r = s
            except AnalysisError as e:
                if getattr(e, "where", None) is None:
                    f = s.frames[-1]
                    e.where = "%s (%s)" % (locstr(self.I.m, f.loc), f.fn.dem)
                raise
            if D and r is not None:
                r.asm = D.asm; r.facts = D.facts
            if r is not None:
                out.append(r)
        return out

    def push(self, S, name, args, dst, unw, loc):
        I = self.I
        fn = I.compile(name)
        f = Frame()
        f.fn = fn; f.seg = 0
        f.R = args[:fn.na] + [UNDEF] * (fn.nv - min(len(args), fn.na))
        f.dst = dst; f.unw = unw; f.loc = loc; f.allocas = []; f.ret_loc = loc
        S.frames.append(f)
        if len(S.frames) > 400:
            raise AnalysisError("recursion too deep at " + fn.dem)

    def run(self, S, base, work):
        I = self.I
        frames = S.frames
        f = frames[-1]
        seg = f.seg
        segs = f.fn.segs
        R = f.R
        steps = 0
        while True:
            steps += 1
            if steps > self.maxsteps:
                raise AnalysisError("step limit in " + f.fn.dem)
            r = segs[seg](S, R)
            while type(r) is int:
                r = segs[r](S, R)
                steps += 1
                if steps > self.maxsteps:
                    raise AnalysisError("step limit in " + f.fn.dem)
            k = r[0]
            if k == "c":
                _, callee, args, dst, nxt, unw, loc = r
                f.seg = nxt
                f.loc = loc
                if type(callee) is not int:
                    if callee is UNDEF:
                        raise Violation("undef", "call through an uninitialised function pointer", loc)
                    raise AnalysisError("indirect call through %r" % (callee,))
                name = I.m.fbyaddr.get(callee)
                if name is None:
                    v = I.callcode(S, callee, args, loc)
                    if v.__class__ is ForkStates:
                        for s2, rv in v.alts:
                            s2.frames[-1].seg = nxt
                            if dst >= 0:
                                s2.frames[-1].R[dst] = rv
                            work.append(s2)
                        return None
                    if dst >= 0:
                        f.R[dst] = v
                    seg = nxt
                    R = f.R
                    continue
                if I.deadline and time.time() > I.deadline:
                    raise AnalysisError("time limit of one analysis strategy")
                h = I.models.get(name)
                if h is None and name not in I.m.funcs:
                    h = I.external(name)
                    I.models[name] = h
                if h is not None:
                    v = h(S, args, loc)
                    if v is DECLINE:
                        self.push(S, name, args, dst, unw, loc)
                        f = frames[-1]
                        seg = 0
                        segs = f.fn.segs
                        R = f.R
                        continue
                    if v.__class__ is Throw:
                        S.exc = (v.tname, v.obj)
                        f.unw = f.unw
                        if not self.unwind(S, base, unw):
                            raise PathEnd("throw", v.tname)
                        f = frames[-1]; seg = f.seg; segs = f.fn.segs; R = f.R
                        continue
                    if v.__class__ is Fork:
                        # v.alts: list of callables(state)->value
                        for alt in v.alts[1:]:
                            s2 = S.fork()
                            s2.frames[-1].seg = nxt
                            I.D.asm = s2.asm; I.D.facts = s2.facts
                            try:
                                val = alt(s2)
                            except PathEnd as e:
                                if e.what != "infeasible":
                                    raise
                                continue
                            s2.asm = I.D.asm; s2.facts = I.D.facts
                            if dst >= 0:
                                s2.frames[-1].R[dst] = val
                            work.append(s2)
                        I.D.asm = S.asm; I.D.facts = S.facts
                        try:
                            v = v.alts[0](S)
                        except PathEnd as e:
                            if e.what != "infeasible":
                                raise
                            return None
                        S.asm = I.D.asm; S.facts = I.D.facts
                        f = frames[-1]; R = f.R
                    if dst >= 0:
                        f.R[dst] = v
                    R = f.R
                    seg = nxt
                    continue
                self.push(S, name, args, dst, unw, loc)
                h = I.entry_hooks.get(name)
                f = frames[-1]
                seg = 0
                segs = f.fn.segs
                R = f.R
            elif k == "r":
                v = r[1]
                frames.pop()
                mem = S.mem
                for a in f.allocas:
                    mem.pop(a, None)
                hk = I.exit_hooks.get(f.fn.name)
                if hk:
                    hk(S, f, v)
                if len(frames) <= base:
                    S.result = ("ret", v)
                    return S
                g = frames[-1]
                if f.dst >= 0:
                    g.R[f.dst] = v
                f = g
                seg = f.seg
                segs = f.fn.segs
                R = f.R
            elif k == "b":
                _, c, t, e, loc = r
                if c is UNDEF or type(c) is PU:
                    raise Violation("undef", "branch on an uninitialised value", loc)
                D = I.D
                S.asm = D.asm; S.facts = D.facts
                c = I.cond(S, c)
                if type(c) is int:
                    seg = t if c else e
                    if I.l3:
                        I.dirs.add((loc, 1 if c else 0))
                    continue
                if type(c) is tuple:
                    atom, neg = c
                elif self.forker is not None:
                    S = self.forker(self, S, c, t, e, loc, work)
                    if S is None:
                        return None
                    frames = S.frames
                    f = frames[-1]; seg = f.seg; segs = f.fn.segs; R = f.R
                    continue
                else:
                    raise AnalysisError("branch on %r at %s" % (c, locstr(I.m, loc)))
                # fork
                tv, fv = (0, 1) if neg else (1, 0)
                s2 = S.fork()
                f.seg = t
                s2.frames[-1].seg = e
                f = frames[-1]
                s2.path.append((atom, fv, loc))
                S.path.append((atom, tv, loc))
                I.curdir = (loc, 0)
                ok2 = I.assume(s2, atom, fv)
                if ok2:
                    work.append(s2)
                    I.dirs.add((loc, 0))
                I.curdir = (loc, 1)
                ok = I.assume(S, atom, tv)
                if ok:
                    I.dirs.add((loc, 1))
                if not ok:
                    return None
                I.D.asm = S.asm; I.D.facts = S.facts
                f = frames[-1]
                R = f.R
                seg = t
            elif k == "s":
                _, a, tbl, dflt, loc = r
                if a is UNDEF:
                    raise Violation("undef", "switch on an uninitialised value", loc)
                raise AnalysisError("switch on abstract value at %s" % locstr(I.m, loc))
            elif k == "u":
                if not self.unwind(S, base, None):
                    raise PathEnd("throw", S.exc[0] if S.exc else "?")
                f = frames[-1]; seg = f.seg; segs = f.fn.segs; R = f.R
            elif k == "x":
                raise PathEnd("unreachable", r[1])
            elif k == "m":
                f.seg = r[1]
                S.result = ("m",)
                return S
            else:
                raise AnalysisError("bad action")

    def unwind(self, S, base, unw):
        """transfer to the nearest landing pad; unw = pad of the current call (or None/-1)"""
        frames = S.frames
        f = frames[-1]
        if unw is not None and unw >= 0:
            f.seg = unw
            return True
        while True:
            g = frames.pop()
            for a in g.allocas:
                S.mem.pop(a, None)
            if len(frames) <= base:
                frames.append(g)
                return False
            if g.unw >= 0:
                frames[-1].seg = g.unw
                return True


DECLINE = "decline"     # returned by a contract that does not apply: analyse the code itself


class Throw:
    def __init__(self, tname, obj=0):
        self.tname = tname; self.obj = obj


class ForkStates:
    """several successor states of one call: [(state, return value)]"""
    def __init__(self, alts):
        self.alts = alts


class Fork:
    def __init__(self, alts):
        self.alts = alts
