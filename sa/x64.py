"""Abstract interpreter for the x86-64 code emitted by the JIT generators.

The bytes come from constant propagation of the generator source (irx); each
byte remembers the generator source line that produced it."""
import re, subprocess, tempfile, os
from dom import W, UNDEF, AnalysisError, pconst, psub, padd, pscale
from irx import SH, OFFM, Violation, State

R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
REG = {}
for i, n in enumerate(R64):
    REG[n] = (i, 64)
for i, n in enumerate(["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"] + ["r%dd" % i for i in range(8, 16)]):
    REG[n] = (i, 32)
for i, n in enumerate(["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"] + ["r%dw" % i for i in range(8, 16)]):
    REG[n] = (i, 16)
for i, n in enumerate(["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"] + ["r%db" % i for i in range(8, 16)]):
    REG[n] = (i, 8)
for i in range(16):
    REG["xmm%d" % i] = (i, 128)
    REG["ymm%d" % i] = (i, 256)
RSP = 4
CALLEE = [3, 5, 12, 13, 14, 15]
M64 = (1 << 64) - 1
SENT = 0x7fff000000000000
PSIZE = {"QWORD": 8, "DWORD": 4, "WORD": 2, "BYTE": 1, "XMMWORD": 16, "OWORD": 16, "YMMWORD": 32}


import time


class NeedFork(Exception):
    def __init__(self, atom, values=(0, 1)):
        self.atom = atom; self.values = values


class Ret(Exception):
    pass


def disasm(data, base):
    f = tempfile.NamedTemporaryFile(delete=False)
    f.write(data); f.close()
    try:
        out = subprocess.run(["objdump", "-D", "-b", "binary", "-m", "i386:x86-64", "-M", "intel", "-w",
                              "--adjust-vma=%d" % base, f.name], stdout=subprocess.PIPE, check=True).stdout.decode()
    finally:
        os.unlink(f.name)
    ins = {}
    for line in out.split("\n"):
        p = line.split("\t")
        if len(p) < 3:
            continue
        a = int(p[0].strip().rstrip(":"), 16)
        n = len(p[1].split())
        t = " ".join(p[2:]).split("#")[0].strip()
        ins[a] = (n, t)
    return ins


def parse_operand(o):
    o = o.strip()
    if o in REG:
        return ("r",) + REG[o]
    m = re.match(r"(?:(\w+) PTR )?(?:[a-z]s:)?(\[.*\]|0x[0-9a-f]+)$", o)
    if m and (m.group(1) or o.startswith("[") or ":" in o):
        size = PSIZE[m.group(1)] if m.group(1) else 0
        e = m.group(2)
        base = idx = None
        sc = 1; disp = 0
        if e.startswith("["):
            for tok in re.findall(r"[+-]?[^+-]+", e[1:-1]):
                s = -1 if tok[0] == "-" else 1
                t = tok.lstrip("+-")
                if "*" in t:
                    r, k = t.split("*")
                    idx = REG[r][0]; sc = int(k)
                    if r in ("riz", "eiz"):
                        idx = None
                elif t in REG:
                    if base is None:
                        base = REG[t][0]
                    else:
                        idx = REG[t][0]
                elif t == "rip":
                    base = "rip"
                else:
                    disp += s * int(t, 16)
        else:
            disp = int(e, 16)
        return ("m", size, base, idx, sc, disp)
    return ("i", int(o, 16))


class X64:
    def __init__(self, interp):
        self.I = interp
        self.D = interp.D
        self.cache = {}
        self.summ = {}       # address -> function(machine) performing the summary
        self.linemap = {}    # address -> source loc (set by loader)
        self.steps = 0
        self.maxsteps = 3000000
        self.cut = None      # addresses of loop heads under analysis
        self.written = None  # object -> location: memory that existed before the call and was written by generated code
        self.base = ()

    def decode(self, S, addr):
        o = S.mem.get(addr >> SH)
        if o is None:
            raise Violation("jump", "jump to an invalid address %#x" % addr)
        k = o.id
        c = self.cache.get(k)
        if c is None or addr not in c:
            cells = o.cells
            n = o.size
            b = bytearray(n)
            for off, (sz, v) in cells.items():
                if type(v) is int and off + sz <= n:
                    b[off:off + sz] = v.to_bytes(sz, "little")
            # linear sweep from the requested address
            ins = disasm(bytes(b[addr & OFFM:]), addr)
            if c is None:
                c = self.cache[k] = {}
            for a, v in ins.items():
                c.setdefault(a, v)
        i = c[addr]
        if len(i) == 2:
            i = c[addr] = self.parse(i[0], i[1], addr)
        return i

    def parse(self, n, t, addr):
        m = re.match(r"((?:rep\w* |lock |cs |ds |data16 |bnd )*)(\S+)\s*(.*)$", t)
        mn = m.group(2)
        ops = m.group(3)
        if mn in ("nop", "nopw", "nopl", "xchg") and (mn != "xchg" or ops == "ax,ax"):
            return (n, "nop", [], t)
        if mn.startswith("j") or mn == "call":
            x = ops.strip()
            if re.match(r"0x[0-9a-f]+$", x):
                return (n, mn, [("i", int(x, 16))], t)
        lst = []
        if ops:
            for o in re.split(r",(?![^\[]*\])", ops):
                lst.append(parse_operand(o))
        return (n, mn, lst, t)

    # --------------------------------------------------------------- machine
    def call(self, S, addr, args, want="rax"):
        """run from addr in state S until return; returns rax"""
        m = Machine(self, S)
        return m.run_function(addr, args)

    def __call__(self, S, addr, args, loc):
        """callcode hook for the IR interpreter"""
        from irx import Fork
        f = self.summ.get(addr)
        if f is not None:
            r = f(S, args, loc)
            if r != "decline":
                return r
        I = self.I

        def attempt(dec):
            s = S.fork()
            I.D.asm = s.asm; I.D.facts = s.facts
            for atom, v, k in dec:
                s.path.append((atom, v, loc))
                I.curdir = ("x", k[0], v ^ (1 if k[1] else 0)) if k else ("x", 0, 0)
                if not I.assume(s, atom, v):
                    return None, None
            I.D.asm = s.asm; I.D.facts = s.facts
            r = self.call(s, addr, args)
            s.asm = I.D.asm; s.facts = I.D.facts
            return s, r

        def adopt(T, s):
            T.mem = s.mem; T.lineage = s.lineage; T.asm = s.asm; T.facts = s.facts
            T.log = s.log; T.user = s.user
            T.gmap = s.gmap
        leaves = []
        stack = [[]]
        while stack:
            dec = stack.pop()
            try:
                s, r = attempt(dec)
                if s is not None:
                    leaves.append((dec, s, r))
            except NeedFork as e:
                for v in e.values:
                    stack.append(dec + [(e.atom, v, getattr(e, "key", None))])
            if len(leaves) + len(stack) > 600:
                raise AnalysisError("too many machine-code partitions")
        if len(leaves) == 1 and not leaves[0][0]:
            adopt(S, leaves[0][1])
            I.D.asm = S.asm; I.D.facts = S.facts
            return leaves[0][2]

        if not leaves:
            from irx import PathEnd
            raise PathEnd("infeasible")
        from irx import ForkStates
        return ForkStates([(s, r) for _, s, r in leaves])


class Machine:
    def __init__(self, x, S):
        self.x = x; self.S = S; self.D = x.D; self.I = x.I
        self.r = [UNDEF] * 16
        self.xmm = [UNDEF] * 16
        self.cf = UNDEF
        self.res = None      # (value, bits) for ZF/SF
        self.of = UNDEF
        self.cmpops = None
        self.trace = []
        self.calldepth = 0
        self.wlog = [{}]
        self.recent = []

    def run_function(self, addr, args, check_abi=True):
        S = self.S
        self.start(addr, args)
        self.run()
        return self.finish(check_abi)

    def start(self, addr, args):
        S = self.S
        st = S.new(1 << 16, "machine stack")
        top = st + (1 << 16) - 256 - 8
        self.stack = st
        for i, a in zip((7, 6, 2, 1, 8, 9), args):
            self.r[i] = a
        saved = {}
        for i in CALLEE:
            saved[i] = self.D.var("saved_" + R64[i], 0, M64).p if False else None
        self.calleevals = {}
        for i in CALLEE:
            # opaque callee-saved values
            v = Opaque(R64[i])
            self.r[i] = v
            self.calleevals[i] = v
        self.r[RSP] = top
        self.entry_rsp = top
        S.st(top, 8, SENT)
        self.ip = addr

    def finish(self, check_abi=True):
        S = self.S
        top = self.entry_rsp
        if check_abi:
            for i in CALLEE:
                if self.r[i] is not self.calleevals[i]:
                    raise Violation("abi", "register %s is not restored on return" % R64[i], self.x.linemap.get(self.lastip))
            if self.r[RSP] != top + 8:
                raise Violation("abi", "stack pointer is unbalanced on return", self.x.linemap.get(self.lastip))
        S.mem.pop(self.stack >> SH, None)
        return self.r[0]

    # ---- operand access
    def ea(self, o):
        _, size, base, idx, sc, disp = o
        a = disp
        if base == "rip":
            a += self.ip
        elif base is not None:
            b = self.r[base]
            if type(b) is not int:
                if isinstance(b, W):
                    return self.D.add(b, self._idx(idx, sc, disp), 64)
                raise Violation("undef", "address uses register %s with no defined value" % R64[base], self.loc())
            a += b
        if idx is not None:
            v = self.r[idx]
            if type(v) is not int:
                if isinstance(v, W):
                    return self.D.add(a & M64, self.D.mul(v, sc, 64), 64)
                raise Violation("undef", "address uses register %s with no defined value" % R64[idx], self.loc())
            a += v * sc
        return a & M64

    def _idx(self, idx, sc, disp):
        a = disp & M64
        if idx is not None:
            v = self.r[idx]
            a = self.D.add(a, self.D.mul(v, sc, 64), 64)
        return a

    def loc(self):
        return self.x.linemap.get(self.curip)

    def get(self, o, bits):
        k = o[0]
        if k == "r":
            if o[2] >= 128:
                return self.xmm[o[1]]
            v = self.r[o[1]]
            if o[2] == 64:
                return v
            if type(v) is int:
                return v & ((1 << o[2]) - 1)
            if isinstance(v, W):
                return self.D.low(v, o[2])
            return UNDEF
        if k == "i":
            return o[1] & ((1 << bits) - 1)
        return self.load(self.ea(o), bits // 8)

    def load(self, a, n):
        if n == 16:
            return (self.load(a, 8), self.load(a + 8, 8))
        if type(a) is int and (a >> SH) == (self.stack >> SH) and a < self.r[RSP] - 128 if type(self.r[RSP]) is int else False:
            raise Violation("stack", "read below the stack pointer", self.loc())
        return self.S.ld(a, n, self.loc() or 0)

    def store(self, a, n, v):
        if n == 16:
            if v is UNDEF:
                v = (UNDEF, UNDEF)
            self.store(a, 8, v[0]); self.store(a + 8, 8, v[1])
            return
        if type(a) is int and (a >> SH) == (self.stack >> SH):
            if a < self.r[RSP]:
                raise Violation("stack", "write below the stack pointer", self.loc())
            if a >= self.entry_rsp:
                raise Violation("stack", "write into the caller's frame", self.loc())
        if type(a) is int and n == 8:
            self.wlog[-1][a] = 1
        if self.x.written is not None and type(a) is int and (a >> SH) in self.x.base:
            self.x.written.setdefault(a >> SH, self.loc())
        self.S.st(a, n, v, self.loc() or 0)
        if self.I.eager and type(a) is int and n == 8:
            L = self.recent
            L.append(a)
            if len(L) > 8:
                del L[0]
            if len(L) >= 4 and L[-4:] == [a - 24, a - 16, a - 8, a]:
                if L == [a - 56 + 8 * i for i in range(8)] or (a - 32 in self.wlog[-1] and a - 56 in self.wlog[-1]):
                    self.I.rename(self.S, {a - 56 + 8 * i: 1 for i in range(8)})
                self.I.rename(self.S, {a - 24 + 8 * i: 1 for i in range(4)})

    def set(self, o, v, bits):
        if o[0] == "r":
            if o[2] >= 128:
                self.xmm[o[1]] = v
            elif o[2] == 64:
                self.r[o[1]] = v
            elif o[2] == 32:
                self.r[o[1]] = v
            else:
                old = self.r[o[1]]
                m = (1 << o[2]) - 1
                if type(old) is int and type(v) is int:
                    self.r[o[1]] = (old & ~m) | v
                elif isinstance(old, W) or type(old) is int:
                    D = self.D
                    self.r[o[1]] = D.add(D.sub(old, D.low(old, o[2]), 64), v, 64)
                else:
                    self.r[o[1]] = UNDEF
        else:
            self.store(self.ea(o), bits // 8, v)

    def bits(self, ops):
        for o in ops:
            if o[0] == "r":
                return o[2]
            if o[0] == "m" and o[1]:
                return o[1] * 8
        return 64

    def need(self, v, what):
        if v is UNDEF or type(v) is Opaque or v is None:
            raise Violation("undef", "%s has no defined value" % what, self.loc())
        return v

    # ---- flags
    def zf(self):
        if self.cmpops:
            a, b, n = self.cmpops
            return self.D.eq(a, b, n)
        if self.res is None:
            raise Violation("undef", "zero flag has no defined value", self.loc())
        v, n = self.res
        return self.D.eq(v, 0, n) if type(v) is not int else int(v == 0)

    def sf(self):
        if self.res is None:
            raise Violation("undef", "sign flag has no defined value", self.loc())
        v, n = self.res
        return self.D.shr(v, n - 1, n)

    def flag(self, cc):
        D = self.D
        neg = False
        if cc in ("b", "c", "nae"):
            return self.need(self.cf, "carry flag")
        if cc in ("ae", "nb", "nc"):
            return D.bnot(self.need(self.cf, "carry flag"))
        if cc in ("e", "z"):
            return self.zf()
        if cc in ("ne", "nz"):
            return D.bnot(self.zf())
        if cc in ("be", "na"):
            return D.bor(self.need(self.cf, "carry flag"), self.zf())
        if cc in ("a", "nbe"):
            return D.bnot(D.bor(self.need(self.cf, "carry flag"), self.zf()))
        if cc == "s":
            return self.sf()
        if cc == "ns":
            return D.bnot(self.sf())
        if cc in ("l", "ge", "le", "g") and self.cmpops:
            a, b, n = self.cmpops
            return self.I.icmp(self.S, {"l": "slt", "ge": "sge", "le": "sle", "g": "sgt"}[cc], a, b, n, 0)
        raise AnalysisError("condition " + cc)

    def push(self, v):
        a = self.r[RSP] - 8
        self.r[RSP] = a
        self.S.st(a, 8, v, self.loc() or 0)

    # ---- main loop
    def run(self):
        x = self.x
        S = self.S
        steps = 0
        while True:
            self.curip = self.lastip = ip = self.ip
            if ip == SENT:
                return
            if x.cut is not None and ip in x.cut and self.atcut(ip):
                return
            n, mn, ops, txt = x.decode(S, ip)
            self.ip = ip + n
            steps += 1
            if steps > x.maxsteps:
                raise AnalysisError("machine code step limit")
            if self.I.deadline and not steps & 31 and time.time() > self.I.deadline:
                raise AnalysisError("time limit of one analysis strategy")
            f = getattr(self, "i_" + mn, None)
            if f is None:
                if mn.startswith("cmov"):
                    self.cmov(mn[4:], ops)
                    continue
                if mn.startswith("set"):
                    self.set(ops[0], self.flag(mn[3:]), 8)
                    continue
                if mn.startswith("j"):
                    c = self.flag(mn[1:])
                    if type(c) is not int:
                        c = self.I.cond(S, c)
                        if type(c) is tuple:
                            nf = NeedFork(c[0])
                            nf.key = (ip, c[1])
                            raise nf
                        if type(c) is not int:
                            raise AnalysisError("machine branch on %r" % (c,))
                    if self.I.l3:
                        self.I.dirs.add(("x", ip, c))
                    if c:
                        self.ip = ops[0][1]
                    continue
                if mn in ("(bad)", "int3", "hlt", "ud2"):
                    raise Violation("jump", "control reaches bytes that are not code", self.loc())
                raise AnalysisError("unsupported instruction %s" % txt)
            try:
                f(ops)
            except (IndexError, TypeError, AttributeError) as e:
                raise AnalysisError("%s: %s %r" % (e, txt, ops))

    def i_nop(self, o): pass
    def i_endbr64(self, o): pass

    def i_vzeroupper(self, o): pass

    def i_mov(self, o):
        n = self.bits(o)
        self.set(o[0], self.get(o[1], n), n)
    i_movabs = i_mov

    def i_movzx(self, o):
        n = o[1][2] if o[1][0] == "r" else o[1][1] * 8
        self.set(o[0], self.get(o[1], n), o[0][2])

    def i_movsxd(self, o):
        v = self.get(o[1], 32)
        self.set(o[0], self.I.sext(self.S, v, 32, 64), 64)

    def i_movd(self, o):
        self.i_movq(o, 32)

    def i_movq(self, o, bits=64):
        if o[0][0] == "r" and o[0][2] == 128:
            v = self.get(o[1], bits)
            if type(v) is tuple:
                v = v[0]
            self.xmm[o[0][1]] = (v, 0)
        else:
            v = self.xmm[o[1][1]]
            self.set(o[0], UNDEF if v is UNDEF else v[0], bits)

    def i_movdqa(self, o):
        v = self.get(o[1], 128) if o[1][0] == "m" else self.xmm[o[1][1]]
        if o[0][0] == "m":
            self.store(self.ea(o[0]), 16, v)
        else:
            self.xmm[o[0][1]] = v

    def aligned(self, o):
        for q in o:
            if q[0] == "m":
                pass
    i_movdqu = i_movaps = i_movups = i_movapd = i_movdqa

    def i_pxor(self, o):
        if o[0] == o[1]:
            self.xmm[o[0][1]] = (0, 0)
        else:
            raise AnalysisError("pxor")
    i_xorps = i_pxor

    def i_paddd(self, o):
        a, b = self.xmm[o[0][1]], self.xmm[o[1][1]]
        if type(a) is not tuple or type(b) is not tuple:
            raise Violation("undef", "paddd on an undefined register", self.loc())
        D = self.D
        r = []
        for x, y in zip(a, b):
            self.need(x, "paddd operand"); self.need(y, "paddd operand")
            if type(x) is int and type(y) is int:
                r.append((x + y & 0xffffffff) | ((x >> 32) + (y >> 32) & 0xffffffff) << 32)
            elif D.iv(x)[1] + D.iv(y)[1] < 1 << 32:
                r.append(D.add(x, y, 64))
            else:
                l = D.low(D.add(D.low(x, 32), D.low(y, 32), 64), 32)
                h = D.low(D.add(D.shr(x, 32, 64), D.shr(y, 32, 64), 64), 32)
                r.append(D.add(l, D.shl(h, 32, 64), 64))
        self.xmm[o[0][1]] = tuple(r)

    def i_lea(self, o):
        self.set(o[0], self.ea(o[1]), o[0][2])

    def arith(self, o, f, dst=True):
        n = self.bits(o)
        a = self.need(self.get(o[0], n), "operand of arithmetic")
        b = self.need(self.get(o[1], n), "operand of arithmetic")
        v = f(a, b, n)
        self.res = (v, n)
        self.of = UNDEF
        if dst:
            self.set(o[0], v, n)

    def _add(self, a, b, c, n):
        D = self.D
        B = 1 << n
        if type(a) is int and type(b) is int and type(c) is int:
            s = a + b + c
            self.cf = s >> n
            return s & (B - 1)
        p = padd(padd(D.P(a), D.P(b)), D.P(c))
        al, ah = D.iv(a); bl, bh = D.iv(b); cl, ch = D.iv(c)
        lo, hi = al + bl + cl, ah + bh + ch
        f = D.floor(p, B, lo >> n, hi >> n)
        self.cf = D.mk(f, *self.clip(f, 0, 1))
        if not f:
            return D.mk(p, lo, min(hi, B - 1))
        return D.word(psub(p, pscale(f, B)), n)

    def clip(self, f, l, h):
        a, b = self.D.naive(f)
        return max(a, l), min(b, h)

    def _sub(self, a, b, c, n):
        D = self.D
        B = 1 << n
        if type(a) is int and type(b) is int and type(c) is int:
            s = a - b - c
            self.cf = int(s < 0)
            return s & (B - 1)
        p = psub(psub(D.P(a), D.P(b)), D.P(c))
        al, ah = D.iv(a); bl, bh = D.iv(b); cl, ch = D.iv(c)
        lo, hi = al - bh - ch, ah - bl - cl
        if not p:
            self.cf = 0
            return 0
        f = D.floor(p, B, lo >> n, hi >> n)
        g = pscale(f, -1)
        self.cf = D.mk(g, *self.clip(g, 0, 1))
        if not f:
            return D.mk(p, max(lo, 0), hi)
        return D.word(psub(p, pscale(f, B)), n)

    def i_add(self, o):
        self.cmpops = None
        self.arith(o, lambda a, b, n: self._add(a, b, 0, n))

    def i_adc(self, o):
        self.cmpops = None
        c = self.need(self.cf, "carry flag")
        self.arith(o, lambda a, b, n: self._add(a, b, c, n))

    def i_sub(self, o):
        self.cmpops = None
        if o[0] == o[1]:
            self.set(o[0], 0, o[0][2]); self.cf = 0; self.res = (0, 64)
            return
        n = self.bits(o)
        a, b = self.get(o[0], n), self.get(o[1], n)
        self.arith(o, lambda a, b, n: self._sub(a, b, 0, n))
        self.cmpops = (a, b, n)

    def i_sbb(self, o):
        self.cmpops = None
        c = self.need(self.cf, "carry flag")
        if o[0] == o[1]:
            v = self.D.sub(0, c, o[0][2])
            self.set(o[0], v, o[0][2])
            self.res = (v, o[0][2])
            return
        self.arith(o, lambda a, b, n: self._sub(a, b, c, n))

    def i_cmp(self, o):
        n = self.bits(o)
        a = self.need(self.get(o[0], n), "operand of cmp"); b = self.need(self.get(o[1], n), "operand of cmp")
        v = self._sub(a, b, 0, n)
        self.res = (v, n)
        self.cmpops = (a, b, n)

    def i_test(self, o):
        self.cmpops = None
        n = self.bits(o)
        a = self.need(self.get(o[0], n), "operand of test")
        b = a if o[0] == o[1] else self.need(self.get(o[1], n), "operand of test")
        v = a if o[0] == o[1] else self.I.bin(self.S, "and", a, b, n, 0) if not (type(a) is int and type(b) is int) else a & b
        self.res = (v, n); self.cf = 0; self.of = 0

    def logic(self, o, op):
        self.cmpops = None
        n = self.bits(o)
        a = self.need(self.get(o[0], n), "operand of " + op); b = self.need(self.get(o[1], n), "operand of " + op)
        if type(a) is int and type(b) is int:
            v = a & b if op == "and" else a | b if op == "or" else a ^ b
        elif op in ("or", "and") and o[0] == o[1]:
            v = a
        else:
            v = self.I.bin(self.S, op, a, b, n, 0)
        self.set(o[0], v, n)
        self.res = (v, n); self.cf = 0; self.of = 0

    def i_and(self, o): self.logic(o, "and")

    def i_or(self, o): self.logic(o, "or")

    def i_xor(self, o):
        if o[0] == o[1]:
            self.cmpops = None
            self.set(o[0], 0, o[0][2]); self.cf = 0; self.res = (0, 64); self.of = 0
            return
        self.logic(o, "xor")

    def i_not(self, o):
        n = self.bits(o)
        a = self.need(self.get(o[0], n), "operand of not")
        self.set(o[0], self.D.sub((1 << n) - 1, a, n), n)

    def i_neg(self, o):
        n = self.bits(o)
        a = self.need(self.get(o[0], n), "operand of neg")
        self.cmpops = None
        v = self._sub(0, a, 0, n)
        self.set(o[0], v, n)
        self.res = (v, n)

    def i_inc(self, o):
        n = self.bits(o); cf = self.cf
        self.cmpops = None
        v = self._add(self.need(self.get(o[0], n), "operand"), 1, 0, n)
        self.cf = cf
        self.set(o[0], v, n); self.res = (v, n)

    def i_dec(self, o):
        n = self.bits(o); cf = self.cf
        self.cmpops = None
        v = self._sub(self.need(self.get(o[0], n), "operand"), 1, 0, n)
        self.cf = cf
        self.set(o[0], v, n); self.res = (v, n)

    def cmov(self, cc, o):
        n = self.bits(o)
        c = self.flag(cc)
        b = self.get(o[1], n)
        a = self.get(o[0], n)
        if type(c) is int:
            if c:
                self.set(o[0], b, n)
            return
        self.need(a, "cmov destination"); self.need(b, "cmov source")
        self.set(o[0], self.D.select(c, b, a), n)

    def i_mul(self, o):
        n = self.bits(o)
        a = self.need(self.r[0], "rax"); b = self.need(self.get(o[0], n), "mul operand")
        lo, hi = self.D.mulfull(a, b, n)
        self.r[0] = lo; self.r[2] = hi
        self.cf = UNDEF; self.res = None; self.cmpops = None

    def i_mulx(self, o):
        a = self.need(self.r[2], "rdx"); b = self.need(self.get(o[2], 64), "mulx operand")
        lo, hi = self.D.mulfull(a, b, 64)
        self.set(o[1], lo, 64)
        self.set(o[0], hi, 64)

    def i_imul(self, o):
        n = self.bits(o)
        if len(o) == 1:
            raise AnalysisError("imul one operand")
        a, b = (o[0], o[1]) if len(o) == 2 else (o[1], o[2])
        v = self.D.mul(self.need(self.get(a, n), "imul"), self.need(self.get(b, n), "imul"), n)
        self.set(o[0], v, n)
        self.cf = UNDEF; self.res = None; self.cmpops = None

    def i_div(self, o):
        n = self.bits(o)
        b = self.need(self.get(o[0], n), "divisor"); lo = self.need(self.r[0], "rax"); hi = self.need(self.r[2], "rdx")
        if all(type(t) is int for t in (b, lo, hi)):
            v = (hi << n) | lo
            if b == 0 or v // b >> n:
                raise Violation("divzero", "hardware divide fault", self.loc())
            self.r[0] = v // b; self.r[2] = v % b
            self.cf = UNDEF; self.res = None
            return
        h = self.x.__dict__.get("div_hook")
        if h:
            h(self, hi, lo, b)
            self.cf = UNDEF; self.res = None
            return
        raise AnalysisError("abstract div")

    def i_shl(self, o):
        n = self.bits(o)
        k = self.get(o[1], 8) if len(o) > 1 else 1
        a = self.need(self.get(o[0], n), "shl operand")
        if type(k) is not int:
            raise AnalysisError("abstract shift")
        k &= 63
        self.cmpops = None
        if k == 0:
            return
        if type(a) is int:
            self.cf = (a >> (n - k)) & 1
        else:
            t = self.D.shr(a, n - k, n)
            self.cf = self.D.low(t, 1)
        v = self.D.shl(a, k, n)
        self.set(o[0], v, n); self.res = (v, n)

    def i_shr(self, o):
        n = self.bits(o)
        k = self.get(o[1], 8) if len(o) > 1 else 1
        a = self.need(self.get(o[0], n), "shr operand")
        if type(k) is not int:
            raise AnalysisError("abstract shift")
        k &= 63
        self.cmpops = None
        if k == 0:
            return
        self.cf = self.D.low(self.D.shr(a, k - 1, n), 1) if type(a) is not int else (a >> (k - 1)) & 1
        v = self.D.shr(a, k, n)
        self.set(o[0], v, n); self.res = (v, n)

    def i_sar(self, o):
        n = self.bits(o)
        k = self.get(o[1], 8) if len(o) > 1 else 1
        a = self.need(self.get(o[0], n), "sar operand")
        if type(a) is not int:
            raise AnalysisError("abstract sar")
        from irx import sgn
        v = (sgn(a, n) >> k) & ((1 << n) - 1)
        self.cf = (a >> (k - 1)) & 1; self.cmpops = None
        self.set(o[0], v, n); self.res = (v, n)

    def i_shrd(self, o):
        n = self.bits(o)
        k = self.get(o[2], 8)
        a = self.need(self.get(o[0], n), "shrd operand"); b = self.need(self.get(o[1], n), "shrd operand")
        D = self.D
        v = D.add(D.shr(a, k, n), D.shl(b, n - k, n), n)
        self.cf = D.low(D.shr(a, k - 1, n), 1)
        self.cmpops = None
        self.set(o[0], v, n); self.res = (v, n)

    def i_shld(self, o):
        n = self.bits(o)
        k = self.get(o[2], 8)
        a = self.need(self.get(o[0], n), "shld operand"); b = self.need(self.get(o[1], n), "shld operand")
        D = self.D
        v = D.add(D.shl(a, k, n), D.shr(b, n - k, n), n)
        self.cf = UNDEF; self.cmpops = None
        self.set(o[0], v, n); self.res = (v, n)

    def i_xchg(self, o):
        n = self.bits(o)
        a, b = self.get(o[0], n), self.get(o[1], n)
        self.set(o[0], b, n); self.set(o[1], a, n)

    def i_push(self, o):
        self.push(self.get(o[0], 64))

    def i_pop(self, o):
        v = self.S.ld(self.r[RSP], 8)
        self.r[RSP] += 8
        self.set(o[0], v, 64)

    def i_call(self, o):
        t = o[0][1] if o[0][0] == "i" else self.get(o[0], 64)
        if type(t) is not int:
            raise Violation("undef", "indirect call through an undefined value", self.loc())
        self.push(self.ip)
        self.calldepth += 1
        self.wlog.append({})
        self.ip = t

    def i_jmp(self, o):
        t = o[0][1] if o[0][0] == "i" else self.get(o[0], 64)
        if type(t) is not int:
            raise Violation("undef", "indirect jump through an undefined value", self.loc())
        self.ip = t

    def i_ret(self, o):
        a = self.S.ld(self.r[RSP], 8)
        self.r[RSP] += 8
        if self.calldepth:
            self.calldepth -= 1
            if len(self.wlog) > 1:
                w = self.wlog.pop()
                self.wlog[-1].update(w)
                self.I.rename(self.S, w)
        if type(a) is not int:
            raise Violation("abi", "return address was overwritten", self.loc())
        self.ip = a

    def i_clc(self, o):
        self.cf = 0

    def i_stc(self, o):
        self.cf = 1

    def i_cld(self, o): pass

    def i_bsr(self, o):
        v = self.get(o[1], self.bits(o))
        if type(v) is not int:
            raise AnalysisError("abstract bsr")
        self.set(o[0], v.bit_length() - 1, o[0][2])
        self.res = (v, 64); self.cmpops = None


class Opaque:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "opaque(%s)" % self.name
