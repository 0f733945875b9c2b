"""libgmp models: mpz_t = {int alloc; int size; limb *d}; constants only"""
from dom import W, UNDEF, AnalysisError
from irx import SH


def install(I):
    def get(S, a):
        sz = S.ld(a + 4, 4)
        if type(sz) is not int:
            raise AnalysisError("mpz of abstract size")
        neg = sz >> 31
        n = (1 << 32) - sz if neg else sz
        d = S.ld(a + 8, 8)
        v = 0
        for i in range(n):
            w = S.ld(d + 8 * i, 8)
            if type(w) is not int:
                raise AnalysisError("mpz with abstract limbs")
            v |= w << (64 * i)
        return -v if neg else v

    def put(S, a, v):
        m = abs(v)
        n = (m.bit_length() + 63) // 64
        d = S.new(max(8, 8 * n), "mpz limbs")
        for i in range(n):
            S.st(d + 8 * i, 8, (m >> (64 * i)) & ((1 << 64) - 1))
        if n == 0:
            S.st(d, 8, 0)
        S.st(a, 4, max(1, n))
        S.st(a + 4, 4, (n if v >= 0 else -n) & 0xffffffff)
        S.st(a + 8, 8, d)
    I.mpz_get = get
    I.mpz_put = put

    def s64(x):
        return x - (1 << 64) if x >> 63 else x

    def reg(name, f):
        I.models["__gmpz_" + name] = f
    reg("init", lambda S, a, l: put(S, a[0], 0))
    reg("init_set", lambda S, a, l: put(S, a[0], get(S, a[1])))
    reg("set", lambda S, a, l: put(S, a[0], get(S, a[1])))
    reg("init_set_si", lambda S, a, l: put(S, a[0], s64(a[1])))
    reg("init_set_ui", lambda S, a, l: put(S, a[0], a[1]))
    reg("set_si", lambda S, a, l: put(S, a[0], s64(a[1])))
    reg("set_ui", lambda S, a, l: put(S, a[0], a[1]))
    reg("clear", lambda S, a, l: None)

    def strv(S, p, base):
        s = S.cstr(p)
        t = s.replace(" ", "")
        try:
            return int(t, base)
        except ValueError:
            return None

    def init_set_str(S, a, l):
        v = strv(S, a[1], a[2])
        put(S, a[0], v or 0)
        return 0 if v is not None else 0xffffffff
    reg("init_set_str", init_set_str)
    reg("set_str", init_set_str)
    for n, f in (("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y),
                 ("tdiv_q", lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)),
                 ("mod", lambda x, y: x % abs(y))):
        reg(n, (lambda f: lambda S, a, l: put(S, a[0], f(get(S, a[1]), get(S, a[2]))))(f))
    for n, f in (("add_ui", lambda x, y: x + y), ("sub_ui", lambda x, y: x - y), ("mul_ui", lambda x, y: x * y),
                 ("mul_2exp", lambda x, y: x << y), ("fdiv_q_2exp", lambda x, y: x >> y),
                 ("tdiv_q_2exp", lambda x, y: (abs(x) >> y) * (1 if x >= 0 else -1))):
        reg(n, (lambda f: lambda S, a, l: put(S, a[0], f(get(S, a[1]), a[2])))(f))
    reg("mul_si", lambda S, a, l: put(S, a[0], get(S, a[1]) * s64(a[2])))
    reg("neg", lambda S, a, l: put(S, a[0], -get(S, a[1])))
    reg("cmp", lambda S, a, l: ((get(S, a[0]) > get(S, a[1])) - (get(S, a[0]) < get(S, a[1]))) & 0xffffffff)
    reg("cmp_ui", lambda S, a, l: ((get(S, a[0]) > a[1]) - (get(S, a[0]) < a[1])) & 0xffffffff)
    reg("cmp_si", lambda S, a, l: ((get(S, a[0]) > s64(a[1])) - (get(S, a[0]) < s64(a[1]))) & 0xffffffff)
    reg("sizeinbase", lambda S, a, l: max(1, abs(get(S, a[0])).bit_length()) if a[1] == 2 else None)

    def import_(S, a, l):
        # rop, count, order, size, endian, nails, op
        v = 0
        n, order, size = a[1], a[2], a[3]
        if order >> 31:
            order = -1
        ws = [S.ld(a[6] + size * i, size) for i in range(n)]
        if order == 1:
            ws.reverse()
        for i, w in enumerate(ws):
            v |= w << (8 * size * i)
        put(S, a[0], v)
    reg("import", import_)
