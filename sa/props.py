"""The properties: which analysis tasks decide each of them."""
import re
import build, tasks
from world import CONFIGS

SNARK_CFGS = [c for c in CONFIGS if c[0] == "s"]
DEF_CFGS = [c for c in CONFIGS if c[0] == "d"]
ALL = list(CONFIGS)


def run_task(t):
    k = t[0]
    if k == "facts":
        from runner import Res
        build.facts(t[1] == "s")
        return Res(t)
    return getattr(tasks, "t_" + k)(*t[1:])


TRUST = ["clang 18 front end and the mem2reg pass (C++ to LLVM IR)", "the IR and x86-64 transfer functions of /verif/sa",
         "models of the GMP, libc and libstdc++ functions called (/verif/sa/models.py, gmpmodel.py)",
         "polynomial identity modulo p decided at random points (error below 2^-200 per identity)"]


class Prop:
    def __init__(self, tasks, level="proof", rule="", explain="", assume=(), accept=None, trusted=TRUST):
        self.tasks = tasks; self.level = level; self.rule = rule; self.explain = explain
        self.assume = list(assume); self.trusted = list(trusted)
        self._accept = accept

    def accept(self, r, key, msg):
        return self._accept is None or self._accept(r, key, msg)


PROPS = {}

OPS = {
    "fp": ["Fp::add", "Fp::sub", "Fp::neg", "Fp::mul"],
    "nc": ["Fp::addNC", "Fp::subNC", "FpDbl::add", "FpDbl::sub", "FpDbl::neg", "FpDbl::addNC", "FpDbl::subNC", "FpDbl::mul", "FpDbl::mod",
           "Fp2::addNC", "Fp2::subNC", "Fp2Dbl::add", "Fp2Dbl::sub", "Fp2Dbl::neg", "Fp2Dbl::addNC", "Fp2Dbl::subNC", "Fp2Dbl::mul_xi",
           "Fp2Dbl::mulOpt1", "Fp2Dbl::mulOpt2", "Fp2Dbl::square", "Fp2Dbl::mod", "Fp6Dbl::mul"],
    "fp2": ["Fp2::add", "Fp2::sub", "Fp2::neg", "Fp2::mul", "Fp2::square", "Fp2::mul_xi", "Fp2::mul_Fp_0", "Fp2::divBy2", "Fp2::divBy4", "Fp::divBy2", "Fp::divBy4"],
    "tower": ["Fp6::add", "Fp6::sub", "Fp6::neg", "Fp6::mul", "Fp6::square", "Fp12::add", "Fp12::sub", "Fp12::neg", "Fp12::mul", "Fp12::square"],
}


def optable():
    """operation name -> (slot, drivers), without loading any state"""
    import spec, dom

    class Z: pass
    z = Z(); z.D = dom.Dom(); z.p = (1 << 61) - 1
    return spec.ops(z, False)


_T = None


def opt():
    global _T
    if _T is None:
        _T = optable()
    return _T


def op_tasks(names, cfgs, siblings=True):
    out = []
    for c in cfgs:
        for n in names:
            for d in opt()[n].drv[:None if siblings else 1]:
                out.append(("op", c, n, d))
    return out


RULE_OP = ("an obligation is one result component of one implementation in one configuration, argument-sharing pattern and partition: "
           "its residue must equal the specified polynomial identically in the operands, it must lie in the specified interval, and operands that are not results must keep their contents")

NAMES = OPS["fp"] + OPS["nc"] + OPS["fp2"] + OPS["tower"]


def l3_tasks(pats, cfgs):
    """(driver functions of the upper levels whose name matches) x configurations"""
    import ref, l3
    out = []
    for c in cfgs:
        ds = []
        for o in l3.table(ref.curve(c)):
            if o.drv not in ds and any(re.fullmatch(q, o.drv) for q in pats):
                ds.append(o.drv)
        out += [("l3", c, d) for d in ds]
    return out


RULE_L3 = ("an obligation is one result component, or the relation of all results to the operands, of one function in one configuration, input class and argument-sharing pattern: "
           "its residue must be the one the specification gives, and it must be a canonical residue; every branch direction must be explored by some input class")
PROPS["A01"] = Prop(lambda t: op_tasks(OPS["fp"], ALL), rule=RULE_OP)
DBL2 = [n for n in OPS["nc"] if n[:3] == "Fp2"]
DBL = [n for n in OPS["nc"] if n[:5] in ("FpDbl", "Fp::a", "Fp::s")]
PROPS["A02"] = Prop(lambda t: op_tasks(OPS["fp2"] + DBL2 + DBL, ALL), rule=RULE_OP)
PROPS["A03"] = Prop(lambda t: op_tasks(OPS["tower"] + DBL2 + ["Fp6Dbl::mul"], ALL), rule=RULE_OP)
PROPS["A04"] = Prop(lambda t: op_tasks(OPS["nc"], ALL), rule=RULE_OP)
PROPS["A05"] = Prop(lambda t: op_tasks(NAMES, ALL), rule=RULE_OP,
                    accept=lambda r, k, m: k == "input" or (re.search(r"argument sharing (\w+)", m) and len(set(re.search(r"argument sharing (\w+)", m).group(1))) < len(re.search(r"argument sharing (\w+)", m).group(1))))

L = {
    "ops": ["d_Fp.*_op.*", "d_Fp.*_(addeq|subeq|muleq)", "d_Fp_square", "d_Fp2_mul_x", "d_Fp2_mul_Fp_1", "d_Fp6_mul_Fp_[bc]", "d_mulFp6_24_Fp_01",
            "d_Fp.*_(clear|isZero|eq|ne)"],
    "inv": ["d_Fp2_inverse", "d_Fp6_inverse", "d_Fp12_inverse"],
    "frob": ["d_Fp12_Frobenius.*", "d_Frob[128]"],
    "cyc": ["d_Fp12_mapToCyclo", "d_Fp12_sqru2?", "d_sq_Fp4UseDbl", "d_Comp_.*", "d_Fp12_pow_neg_t", "d_Fp12_final_exp"],
    "ec": ["d_ECDbl[12]", "d_ECAdd[12]", "d_Ec[12]_(dbl|neg|add|opadd|sub|opsub|addeq|subeq|eq|ne|normalize|isZero|clear)", "d_Norm[12]", "d_NormH[12]"],
    "valid": ["d_on.*", "d_Ec[12]_(isValid|set.*|ctor.*|isZero|clear)"],
    "line": ["d_F12D_mul024.*", "d_pointDbl.*", "d_pointAdd.*"],
    "pair": ["d_pairing_.*", "d_prepair.*"],
}
PROPS["B02"] = Prop(lambda t: l3_tasks(L["ops"], ALL), rule=RULE_L3)
PROPS["B03"] = Prop(lambda t: l3_tasks(L["inv"] + L["frob"], ALL), rule=RULE_L3)
PROPS["B04"] = Prop(lambda t: l3_tasks(L["cyc"], ALL), rule=RULE_L3)
PROPS["C01"] = Prop(lambda t: l3_tasks(L["ec"], ALL), rule=RULE_L3)
PROPS["C03"] = Prop(lambda t: l3_tasks(L["valid"], ALL), rule=RULE_L3)
PROPS["D01"] = Prop(lambda t: l3_tasks(L["pair"] + L["line"] + L["frob"] + L["cyc"], ALL), rule=RULE_L3)
PROPS["D02"] = Prop(lambda t: l3_tasks(["d_pairing_.*", "d_Norm[12]", "d_Ec[12]_(normalize|isZero|clear)"], ALL), rule=RULE_L3)
PROPS["B01"] = Prop(lambda t: [("inv", c) for c in ALL], rule="an obligation is one fact about the inversion: the entry state satisfies the loop invariant, each loop path is one of the steps that keep it, the exit state yields the result, the correction by the table inverts the accumulated power of two for every admissible count, or zero and shared storage behave as specified")


def scal_tasks(tier):
    import scal
    return [("scal", c) + j for c in ("d00", "s00") for j in scal.jobs(tier == "thorough")]


PROPS["C02"] = Prop(scal_tasks, rule="an obligation is one function with one scalar type, word count, sign, leading-bit position and sharing pattern, for all values of the lower bits: the result must be the operand multiplied by (raised to) exactly that integer, as a polynomial identity in the unknown bits; joins happen where the two sides of a branch on an unknown bit meet")


def vint_tasks(tier):
    th = tier == "thorough"
    full = tuple(range(0, 10))
    ts = []
    for g in ("add", "sub", "cmp", "mul"):
        ts.append(("vint", "d00", g, full))
    ns = range(0, 577) if th else sorted(set(range(0, 66)) | {127, 128, 129, 191, 192, 193, 255, 256, 320, 383, 384, 448, 511, 512, 513, 575, 576, 640})
    for g in ("shl", "shr"):
        ts += [("vint", "d00", g, tuple(ns[i::4])) for i in range(4)]
    ts += [("vint", "d00", "bit", (x,)) for x in (full if th else (0, 1, 2, 5, 9))]
    ts += [("vint", "d00", g, ()) for g in ("op", "misc", "s_mul", "s_cmp", "s_misc")]
    ts += [("vint", "d00", g, (x,)) for g in ("s_add", "s_sub") for x in (full if th else (0, 1, 2, 3, 4, 9))]
    ts += [("vint", "d00", "div1", full), ("vint", "d00", "s_div", full[:9] if th else (0, 1, 2, 3, 4))]
    return ts


PROPS["F01"] = Prop(vint_tasks, rule="an obligation is one operation with given word counts, signs, shift count and sharing pattern, for all values of the words: the stored words must denote exactly the mathematical result in normalised form, other operands must be unchanged, and the program may stop only when the result is negative or does not fit")


def vdiv_tasks(tier):
    th = tier == "thorough"
    ts = [("vdiv", "d00", "approx", ())]
    pairs = [(x, y) for x in range(2, 10) for y in range(2, x + 1)]
    ts += [("vdiv", "d00", "loop", tuple(pairs[i::4])) for i in range(4)]
    pairs = [(x, y) for x in range(0, 10) for y in range(2, 10)]
    ts += [("vdiv", "d00", "divn", tuple(pairs[i::6])) for i in range(6)]
    s = [(2, 2), (3, 2), (2, 3), (4, 2), (1, 2), (0, 2), (4, 4), (4, 3), (5, 3), (3, 5), (8, 2)]
    if th:
        s += [(3, 3), (5, 4), (4, 5), (5, 5), (6, 6), (6, 3), (8, 4), (8, 8)]
    ts += [("vdiv", "d00", "s_divn", (x,)) for x in s]
    return ts


PROPS["F02"] = Prop(vdiv_tasks, rule="an obligation is one step of the division of multi-precision integers, for all values of the words: the conversion of a number to a double (leading bit position, rounding direction) must bound it from the required side; a turn of the division loop (remaining words, divisor words) from any state must subtract a positive multiple of the divisor without a borrow and add it to the quotient, and the loop may end only with a remainder below the divisor; every wrapper (word counts, signs, sharing pattern) must return quotient and remainder with x = q*y + r and r between 0 and y, leave other operands unchanged and refuse exactly a zero divisor")

PROPS["G01"] = Prop(lambda t: [("effect", c) for c in ALL] + [("frame", c, x) for c in ALL for x in (tuple(n for n in NAMES if opt()[n].slot and n not in ("Fp6::mul", "Fp12::mul", "Fp12::square")), ("Fp6::mul",), ("Fp12::mul",), ("Fp12::square",))],
                    rule="an obligation is one function reachable from the public operations (or one generated routine): after initialisation it writes no object with static storage outside the guarded initialisation of that object, and writes nothing through a parameter its signature declares read-only, except the normalisation of a point's mutable representation")
PROPS["H02"] = Prop(lambda t: [("conv", c, ("setint", "setvuint", "get", "misc", "order")) for c in ALL] + l3_tasks(["d_Fp_squareRoot", "d_Fp_inverse", "d_Fp_diveq"], ALL),
                    rule="an obligation is one conversion or comparison for all values of its operand (by word count, sign class and sharing pattern): the stored words must be the canonical representative of exactly the given integer, the returned integer the one the element stands for, the order that of the stored integers, and the square root must be found exactly for squares")

from world import AGAIN
PROPS["E01"] = Prop(lambda t: [("state", c) for c in ALL + list(AGAIN)] + [("accepts", c) for c in ("d00", "s00")]
                    + l3_tasks(L["line"] + L["pair"] + ["d_Fp2_mul_xi", "d_Frob[128]", "d_Fp12_Frobenius.*"] + L["valid"], list(AGAIN)),
                    rule="an obligation is one parameter computed at start-up, obtained by constant propagation through the initialisation (once, or repeated with the same or another supported curve) and compared with an independently computed value; or one function of the pairing analysed from the state after repeated initialisation; or the set of parameters on which the initialisation returns")
