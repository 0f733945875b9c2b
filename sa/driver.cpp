// Entry points through which the analyses reach the public API of the library.
// Compiled to LLVM IR only; never linked or run.
#include "bn.h"
using namespace bn;
typedef Fp::Dbl FD;
typedef Fp2::Dbl F2D;
typedef Fp6::Dbl F6D;
typedef Fp12::Dbl F12D;
typedef CompressT<Fp2> Comp;
#define X extern "C"
X void d_init(int mode, int mulx) { Param::init(mode, mulx != 0); }
X void d_initcp(const CurveParam *cp, int mode, int mulx) { Param::init(*cp, mode, mulx != 0); }
#ifdef BN_SUPPORT_SNARK
X void d_init2(int mode, int mulx) { Param::init(CurveSNARK2, mode, mulx != 0); }
#endif
#define B3(n, T, f) X void d_##n(T& z, const T& x, const T& y) { f(z, x, y); }
#define U2(n, T, f) X void d_##n(T& z, const T& x) { f(z, x); }
// Fp
B3(Fp_add, Fp, Fp::add)
B3(Fp_addNC, Fp, Fp::addNC)
B3(Fp_sub, Fp, Fp::sub)
B3(Fp_subNC, Fp, Fp::subNC)
B3(Fp_mul, Fp, Fp::mul)
U2(Fp_neg, Fp, Fp::neg)
U2(Fp_shr1, Fp, Fp::shr1)
U2(Fp_shr2, Fp, Fp::shr2)
U2(Fp_square, Fp, Fp::square)
U2(Fp_divBy2, Fp, Fp::divBy2)
U2(Fp_divBy4, Fp, Fp::divBy4)
U2(Fp_inv, Fp, Fp::inv)
X int d_Fp_preInv(Fp& z, const Fp& x) { return Fp::preInv(z, x); }
U2(Fp_toMont, Fp, Fp::toMont)
U2(Fp_fromMont, Fp, Fp::fromMont)
X void d_Fp_fast_modp(Fp& z) { Fp::fast_modp(z); }
X void d_Fp_3z_add_2x(Fp& z, const Fp& x) { Fp::_3z_add_2xC(z, x); }
X void d_Fp_2z_add_3x(Fp& z, const Fp& x) { Fp::_2z_add_3x(z, x); }
X int d_Fp_isZero(const Fp& x) { return x.isZero(); }
X int d_Fp_eq(const Fp& x, const Fp& y) { return x == y; }
X int d_Fp_ne(const Fp& x, const Fp& y) { return x != y; }
X int d_Fp_lt(const Fp& x, const Fp& y) { return x < y; }
X int d_Fp_compare(const Fp& x, const Fp& y) { return Fp::compare(x, y); }
X void d_Fp_setint(Fp& z, int x) { z.set(x); }
X void d_Fp_setVuint(Fp& z, const mie::Vuint& x) { z.set(x); }
X void d_Fp_get(mie::Vuint& z, const Fp& x) { z = x.get(); }
X int d_Fp_squareRoot(Fp& y, const Fp& x) { return Fp::squareRoot(y, x); }
X int d_Fp_isOdd(const Fp& x) { return x.isOdd(); }
X void d_Fp_toMpz(mpz_class& y, const Fp& x) { Fp::toMpz(y, x); }
X void d_Fp_fromMpz(Fp& y, const mpz_class& x) { Fp::fromMpz(y, x); }
X void d_Fp_opadd(Fp& z, const Fp& x, const Fp& y) { z = x + y; }
X void d_Fp_opsub(Fp& z, const Fp& x, const Fp& y) { z = x - y; }
X void d_Fp_opmul(Fp& z, const Fp& x, const Fp& y) { z = x * y; }
X void d_Fp_opdiv(Fp& z, const Fp& x, const Fp& y) { z = x / y; }
X void d_Fp_opneg(Fp& z, const Fp& x) { z = -x; }
X void d_Fp_addeq(Fp& z, const Fp& x) { z += x; }
X void d_Fp_subeq(Fp& z, const Fp& x) { z -= x; }
X void d_Fp_muleq(Fp& z, const Fp& x) { z *= x; }
X void d_Fp_ctorint(Fp& z, int x) { z = Fp(x); }
X void d_Fp_clear(Fp& z) { z.clear(); }
X const Fp* d_Fp_getDirectP(int n) { return &Fp::getDirectP(n); }
X void *d_Fp_halfTbl() { return Fp::halfTbl_; }
X void *d_FD_pNTbl() { return FD::pNTbl_; }
// Fp::Dbl
B3(FD_add, FD, FD::add)
B3(FD_addNC, FD, FD::addNC)
B3(FD_sub, FD, FD::sub)
B3(FD_subNC, FD, FD::subNC)
U2(FD_neg, FD, FD::neg)
B3(FD_subOpt1, FD, FD::subOpt1)
X void d_FD_mul(FD& z, const Fp& x, const Fp& y) { FD::mul(z, x, y); }
X void d_FD_mod(Fp& z, const FD& x) { FD::mod(z, x); }
X void d_FD_clear(FD& z) { z.clear(); }
X int d_FD_eq(const FD& x, const FD& y) { return x == y; }
X void d_FD_ctorFp(FD& z, const Fp& x) { z = FD(x); }
X void d_FD_opadd(FD& z, const FD& x, const FD& y) { z = x + y; }
X void d_FD_opsub(FD& z, const FD& x, const FD& y) { z = x - y; }
X void d_FD_opneg(FD& z, const FD& x) { z = -x; }
// Fp2
B3(Fp2_add, Fp2, Fp2::add)
B3(Fp2_addNC, Fp2, Fp2::addNC)
B3(Fp2_sub, Fp2, Fp2::sub)
B3(Fp2_subNC, Fp2, Fp2::subNC)
B3(Fp2_mul, Fp2, Fp2::mul)
U2(Fp2_square, Fp2, Fp2::square)
U2(Fp2_mul_xi, Fp2, Fp2::mul_xi)
U2(Fp2_divBy2, Fp2, Fp2::divBy2)
U2(Fp2_divBy4, Fp2, Fp2::divBy4)
U2(Fp2_neg, Fp2, Fp2::neg)
X void d_Fp2_mul_Fp_0(Fp2& z, const Fp2& x, const Fp& b) { Fp2::mul_Fp_0(z, x, b); }
B3(Fp2_addC, Fp2, Fp2::addC)
B3(Fp2_addNC_C, Fp2, Fp2::addNC_C)
B3(Fp2_subC, Fp2, Fp2::subC)
B3(Fp2_subNC_C, Fp2, Fp2::subNC_C)
B3(Fp2_mulC, Fp2, Fp2::mulC)
U2(Fp2_squareC, Fp2, Fp2::squareC)
U2(Fp2_mul_xiC, Fp2, Fp2::mul_xiC)
U2(Fp2_divBy2C, Fp2, Fp2::divBy2C)
X void d_Fp2_mul_Fp_0C(Fp2& z, const Fp2& x, const Fp& b) { Fp2::mul_Fp_0C(z, x, b); }
X void d_Fp2_mul_x(Fp2& z) { z.mul_x(); }
X void d_Fp2_mul_Fp_1(Fp2& z, const Fp& y) { Fp2::mul_Fp_1(z, y); }
X void d_Fp2_inverse(Fp2& z) { z.inverse(); }
X int d_Fp2_isZero(const Fp2& x) { return x.isZero(); }
X int d_Fp2_eq(const Fp2& x, const Fp2& y) { return x == y; }
X int d_Fp2_ne(const Fp2& x, const Fp2& y) { return x != y; }

X void d_Fp2_muleq(Fp2& z, const Fp2& x) { z *= x; }
X void d_Fp2_addeq(Fp2& z, const Fp2& x) { z += x; }
X void d_Fp2_subeq(Fp2& z, const Fp2& x) { z -= x; }
X void d_Fp2_clear(Fp2& z) { z.clear(); }
// Fp2::Dbl
B3(F2D_add, F2D, F2D::add)
B3(F2D_addNC, F2D, F2D::addNC)
B3(F2D_sub, F2D, F2D::sub)
B3(F2D_subNC, F2D, F2D::subNC)
U2(F2D_neg, F2D, F2D::neg)
U2(F2D_mul_xi, F2D, F2D::mul_xi)
B3(F2D_addC, F2D, F2D::addC)
B3(F2D_addNC_C, F2D, F2D::addNC_C)
B3(F2D_subC, F2D, F2D::subC)
B3(F2D_subNC_C, F2D, F2D::subNC_C)
U2(F2D_negC, F2D, F2D::negC)
U2(F2D_mul_xiC, F2D, F2D::mul_xiC)
#define M3(n, f) X void d_##n(F2D& z, const Fp2& x, const Fp2& y) { f(z, x, y); }
M3(F2D_mulOpt1, F2D::mulOpt1)
M3(F2D_mulOpt2, F2D::mulOpt2)
M3(F2D_mulOpt1C, F2D::mulOpt1C)
M3(F2D_mulOpt2C, F2D::mulOpt2C)
X void d_F2D_square(F2D& z, const Fp2& x) { F2D::square(z, x); }
X void d_F2D_squareC(F2D& z, const Fp2& x) { F2D::squareC(z, x); }
X void d_F2D_mod(Fp2& z, const F2D& x) { F2D::mod(z, x); }
X void d_F2D_modC(Fp2& z, const F2D& x) { F2D::modC(z, x); }
X void d_F2D_clear(F2D& z) { z.clear(); }
// Fp6
B3(Fp6_add, Fp6, Fp6::add)
B3(Fp6_sub, Fp6, Fp6::sub)
B3(Fp6_mul, Fp6, Fp6::mul)
U2(Fp6_neg, Fp6, Fp6::neg)
U2(Fp6_square, Fp6, Fp6::square)
B3(Fp6_addC, Fp6, Fp6::addC)
B3(Fp6_subC, Fp6, Fp6::subC)
B3(Fp6_mulC, Fp6, Fp6::mulC)
X void d_Fp6_inverse(Fp6& z) { z.inverse(); }
X int d_Fp6_isZero(const Fp6& x) { return x.isZero(); }
X int d_Fp6_eq(const Fp6& x, const Fp6& y) { return x == y; }
X int d_Fp6_ne(const Fp6& x, const Fp6& y) { return x != y; }
X void d_Fp6_clear(Fp6& z) { z.clear(); }
X void d_Fp6_mul_Fp_b(Fp6& z, const Fp& x) { Fp6::mul_Fp_b(z, x); }
X void d_Fp6_mul_Fp_c(Fp6& z, const Fp& x) { Fp6::mul_Fp_c(z, x); }
X void d_mulFp6_24_Fp_01(Fp6& l, const Fp *P) { Fp6::mulFp6_24_Fp_01(l, P); }
X void d_pointDbl(Fp6& l, Fp2 *R, const Fp *P) { Fp6::pointDblLineEval(l, R, P); }
X void d_pointDblC(Fp6& l, Fp2 *R, const Fp *P) { Fp6::pointDblLineEvalC(l, R, P); }
X void d_pointDblNoP(Fp6& l, Fp2 *R) { Fp6::pointDblLineEvalWithoutP(l, R); }
X void d_pointDblNoPC(Fp6& l, Fp2 *R) { Fp6::pointDblLineEvalWithoutPC(l, R); }
X void d_pointAdd(Fp6& l, Fp2 *R, const Fp2 *Q, const Fp *P) { Fp6::pointAddLineEval(l, R, Q, P); }
X void d_pointAddNoP(Fp6& l, Fp2 *R, const Fp2 *Q) { Fp6::pointAddLineEvalWithoutP(l, R, Q); }
// Fp6::Dbl
B3(F6D_add, F6D, F6D::add)
B3(F6D_addNC, F6D, F6D::addNC)
B3(F6D_sub, F6D, F6D::sub)
B3(F6D_subNC, F6D, F6D::subNC)
U2(F6D_neg, F6D, F6D::neg)
X void d_F6D_mul(F6D& z, const Fp6& x, const Fp6& y) { F6D::mul(z, x, y); }
X void d_F6D_mulC(F6D& z, const Fp6& x, const Fp6& y) { F6D::mulC(z, x, y); }
X void d_F6D_mod(Fp6& z, const F6D& x) { F6D::mod(z, x); }
// Fp12
B3(Fp12_add, Fp12, Fp12::add)
B3(Fp12_sub, Fp12, Fp12::sub)
B3(Fp12_mul, Fp12, Fp12::mul)
B3(Fp12_mulC, Fp12, Fp12::mulC)
U2(Fp12_neg, Fp12, Fp12::neg)
X void d_Fp12_square(Fp12& z) { Fp12::square(z); }
X void d_Fp12_squareC(Fp12& z) { Fp12::squareC(z); }
X void d_Fp12_sqru(Fp12& z) { z.sqru(); }
X void d_Fp12_sqru2(Fp12& zz, const Fp12& x) { x.sqru(zz); }
X void d_Fp12_inverse(Fp12& z) { z.inverse(); }
X void d_Fp12_Frobenius(Fp12& z, const Fp12& x) { x.Frobenius(z); }
X void d_Fp12_Frobenius2(Fp12& z, const Fp12& x) { x.Frobenius2(z); }
X void d_Fp12_Frobenius3(Fp12& z, const Fp12& x) { x.Frobenius3(z); }
X void d_Fp12_mapToCyclo(Fp12& z, Fp12& x) { x.mapToCyclo(z); }
X void d_Fp12_final_exp(Fp12& z) { z.final_exp(); }
#ifdef BN_SUPPORT_SNARK
X void d_Fp12_pow_neg_t(Fp12& z, const Fp12& x) { Fp12::pow_neg_t(z, x); }
#endif
X int d_Fp12_isZero(const Fp12& x) { return x.isZero(); }
X int d_Fp12_eq(const Fp12& x, const Fp12& y) { return x == y; }
X int d_Fp12_ne(const Fp12& x, const Fp12& y) { return x != y; }
X void d_Fp12_clear(Fp12& z) { z.clear(); }
X void d_sq_Fp4UseDbl(Fp2& z0, Fp2& z1, const Fp2& x0, const Fp2& x1) { Fp12::sq_Fp4UseDbl(z0, z1, x0, x1); }
X void d_Fp12_2z_add_3x(Fp12& o, Fp2& z, const Fp2& x) { o.Fp2_2z_add_3x(z, x); }
B3(F12D_add, F12D, F12D::add)
B3(F12D_addNC, F12D, F12D::addNC)
B3(F12D_sub, F12D, F12D::sub)
B3(F12D_subNC, F12D, F12D::subNC)
U2(F12D_neg, F12D, F12D::neg)
X void d_F12D_mul024(Fp12& z, const Fp6& x) { F12D::mul_Fp2_024(z, x); }
X void d_F12D_mul024C(Fp12& z, const Fp6& x) { F12D::mul_Fp2_024C(z, x); }
X void d_F12D_mul024_024(Fp12& z, const Fp6& x, const Fp6& y) { F12D::mul_Fp2_024_Fp2_024(z, x, y); }
X void d_F12D_mod(Fp12& z, F12D& x) { F12D::mod(z, x); }
// compressed squaring
X void d_Comp_square(Comp *c) { Comp::squareC(*c); }
X void d_Comp_square_n(Comp *c, int n) { Comp::square_n(*c, n); }
X void d_Comp_square_nC(Comp *c, int n) { Comp::square_nC(*c, n); }
X void d_Comp_ctor(Fp12& z, const Fp12& x) { Comp c(z, x); }
X void d_Comp_squaren(Fp12& z, const Fp12& x, int n) { Comp c(z, x); Comp::square_n(c, n); }
X void d_Comp_squarenC(Fp12& z, const Fp12& x, int n) { Comp c(z, x); Comp::square_nC(c, n); }
X void d_Comp_decompress(Fp12& z, const Fp12& x) { Comp c(z, x); c.decompress(); }
X void d_Comp_pow2n(Fp12& z, const Fp12& x, int n) { Comp c(z, x); Comp::square_n(c, n); c.decompress(); }
X void d_Comp_pow2nC(Fp12& z, const Fp12& x, int n) { Comp c(z, x); Comp::square_nC(c, n); c.decompress(); }
X void d_Comp_fixed_power(Fp12& z, const Fp12& x) { Comp::fixed_power(z, x); }
// curve
X void d_ECDbl1(Fp *R, const Fp *P) { ecop::ECDouble(R, P); }
X void d_ECDbl2(Fp2 *R, const Fp2 *P) { ecop::ECDouble(R, P); }
X void d_ECAdd1(Fp *R, const Fp *P, const Fp *Q) { ecop::ECAdd(R, P, Q); }
X void d_ECAdd2(Fp2 *R, const Fp2 *P, const Fp2 *Q) { ecop::ECAdd(R, P, Q); }
X void d_Norm1(Fp *R, const Fp *P) { ecop::NormalizeJac(R, P); }
X void d_Norm2(Fp2 *R, const Fp2 *P) { ecop::NormalizeJac(R, P); }
X void d_NormH1(Fp *R, const Fp *P) { ecop::NormalizeHom(R, P); }
X void d_NormH2(Fp2 *R, const Fp2 *P) { ecop::NormalizeHom(R, P); }
X int d_onECJac3(const Fp *P) { return ecop::isOnECJac3(P); }
X int d_onECHom2(const Fp *P) { return ecop::isOnECHom2(P); }
X int d_onTwistJac3(const Fp2 *P) { return ecop::isOnTwistECJac3(P); }
X int d_onECHom3(const Fp *P) { return ecop::isOnECHom3(P); }
X int d_onTwistHom2(const Fp2 *P) { return ecop::isOnTwistECHom2(P); }
X int d_onTwistHom3(const Fp2 *P) { return ecop::isOnTwistECHom3(P); }
X void d_Frob1(Fp2 *D, const Fp2 *S) { ecop::FrobEndOnTwist_1(D, S); }
X void d_Frob2(Fp2 *D, const Fp2 *S) { ecop::FrobEndOnTwist_2(D, S); }
X void d_Frob8(Fp2 *D, const Fp2 *S) { ecop::FrobEndOnTwist_8(D, S); }
X void d_SM1_vuint(Fp *R, const Fp *P, const mie::Vuint& m) { ecop::ScalarMult(R, P, m); }
X void d_SM2_vuint(Fp2 *R, const Fp2 *P, const mie::Vuint& m) { ecop::ScalarMult(R, P, m); }
X void d_SM1_mpz(Fp *R, const Fp *P, const mpz_class& m) { ecop::ScalarMult(R, P, m); }
X void d_SM2_mpz(Fp2 *R, const Fp2 *P, const mpz_class& m) { ecop::ScalarMult(R, P, m); }
X void d_SM1_int(Fp *R, const Fp *P, int m) { ecop::ScalarMult(R, P, m); }
// pairing
X void d_pairing_aff(Fp12& f, const Fp2 *Q, const Fp *P) { opt_atePairing<Fp>(f, Q, P); }
X void d_pairing_jac(Fp12& f, const Fp2 *Q, const Fp *P) { opt_atePairingJac<Fp>(f, Q, P); }
X void d_pairing_ec(Fp12& f, const Ec2& Q, const Ec1& P) { opt_atePairing(f, Q, P); }
X void d_precomp(std::vector<Fp6>& c, Fp2 *Q, const Fp2 *in) { components::precomputeG2(c, Q, in); }
X void d_miller(Fp12& f, const std::vector<Fp6>& c, const Fp *P) { components::millerLoop(f, c, P); }
X void d_miller2(Fp12& f, const std::vector<Fp6>& c1, const Fp *P1, const std::vector<Fp6>& c2, const Fp *P2) { components::millerLoop2(f, c1, P1, c2, P2); }
// the coefficient vectors are reused ones: what they held before must not matter
X void d_prepair(Fp12& f, const Fp2 *Q, const Fp *P) { std::vector<Fp6> c(2); Fp2 Qn[3]; components::precomputeG2(c, Qn, Q); components::millerLoop(f, c, P); f.final_exp(); }
X void d_prepairQ(Fp12& f, const Fp2 *Q, const Fp *P, Fp2 *Qn) { std::vector<Fp6> c; components::precomputeG2(c, Qn, Q); components::millerLoop(f, c, P); f.final_exp(); }
X void d_prepair2(Fp12& f, const Fp2 *Q1, const Fp *P1, const Fp2 *Q2, const Fp *P2) { std::vector<Fp6> c1, c2(1); Fp2 Qn[3]; components::precomputeG2(c1, Qn, Q1); components::precomputeG2(c2, Qn, Q2); components::millerLoop2(f, c1, P1, c2, P2); f.final_exp(); }
// point class
#define EC(n, E, F) \
X void d_##n##_add(E& z, const E& x, const E& y) { E::add(z, x, y); } \
X void d_##n##_sub(E& z, const E& x, const E& y) { E::sub(z, x, y); } \
X void d_##n##_dbl(E& z, const E& x) { E::dbl(z, x); } \
X void d_##n##_neg(E& z, const E& x) { E::neg(z, x); } \
X int d_##n##_eq(const E& x, const E& y) { return x == y; } \
X int d_##n##_ne(const E& x, const E& y) { return x != y; } \
X int d_##n##_isZero(const E& x) { return x.isZero(); } \
X int d_##n##_isValid(const E& x) { return x.isValid(); } \
X void d_##n##_clear(E& x) { x.clear(); } \
X void d_##n##_normalize(const E& x) { x.normalize(); } \
X void d_##n##_set2(E& z, const F& x, const F& y) { z.set(x, y); } \
X void d_##n##_set2nv(E& z, const F& x, const F& y) { z.set(x, y, false); } \
X void d_##n##_set3(E& z, const F& x, const F& y, const F& w) { z.set(x, y, w); } \
X void d_##n##_set3nv(E& z, const F& x, const F& y, const F& w) { z.set(x, y, w, false); } \
X void d_##n##_ctor2(E* z, const F& x, const F& y) { new(z) E(x, y); } \
X void d_##n##_ctor3(E* z, const F& x, const F& y, const F& w) { new(z) E(x, y, w); } \
X void d_##n##_opadd(E& z, const E& x, const E& y) { z = x + y; } \
X void d_##n##_opsub(E& z, const E& x, const E& y) { z = x - y; } \
X void d_##n##_addeq(E& z, const E& x) { z += x; } \
X void d_##n##_subeq(E& z, const E& x) { z -= x; } \
X void d_##n##_mul_vuint(E& z, const E& x, const mie::Vuint& m) { E::mul(z, x, m); } \
X void d_##n##_mul_mpz(E& z, const E& x, const mpz_class& m) { E::mul(z, x, m); } \
X void d_##n##_mul_int(E& z, const E& x, int m) { E::mul(z, x, m); } \
X void d_##n##_opmul_int(E& z, const E& x, int m) { z = x * m; } \
X void d_##n##_muleq_int(E& z, int m) { z *= m; }
EC(Ec1, Ec1, Fp)
EC(Ec2, Ec2, Fp2)
X void d_Ec1_mul_u64(Ec1& z, const Ec1& x, size_t m) { Ec1::mul(z, x, m); }
X void d_Ec2_mul_u64(Ec2& z, const Ec2& x, size_t m) { Ec2::mul(z, x, m); }
X void d_V_setw(mie::Vuint* z, const mie::Vuint::value_type *x, size_t n) { new(z) mie::Vuint(x, n); }
X size_t d_sizeof_Vuint() { return sizeof(mie::Vuint); }
X void d_Fp12_powi(Fp12& z, const Fp12& x, int m) { z = mie::power(x, m); }
X void d_Fp12_powv(Fp12& z, const Fp12& x, const mie::Vuint& m) { z = mie::power(x, m); }
X void d_Fp12_powm(Fp12& z, const Fp12& x, const mpz_class& m) { z = mie::power(x, m); }
X void d_Fp_powv(Fp& z, const Fp& x, const mie::Vuint& m) { z = mie::power(x, m); }
X void d_Fp2_powv(Fp2& z, const Fp2& x, const mie::Vuint& m) { z = mie::power(x, m); }
X size_t d_V_size(const mie::Vuint& x) { return x.size(); }
X uint64_t d_V_at(const mie::Vuint& x, size_t i) { return x[i]; }
X const mie::Vuint* d_modulo() { return &Fp::getModulo(); }
// ---- multi-precision integers
typedef mie::Vuint VU;
typedef mie::Vsint VS;
X const VU::value_type* d_V_ptr(const VU& x) { return &x[0]; }
X void d_V_set32(VU* z, const uint32_t *x, size_t n) { new(z) VU(x, n); }
X void d_V_reset32(VU& z, const uint32_t *x, size_t n) { z.set(x, n); }
X void d_V_resetw(VU& z, const uint64_t *x, size_t n) { z.set(x, n); }
X void d_V_ctorw(VU* z, VU::value_type x) { new(z) VU(x); }
X void d_V_copy(VU* z, const VU& x) { new(z) VU(x); }
X void d_V_assign(VU& z, const VU& x) { z = x; }
X void d_V_clear(VU& z) { z.clear(); }
X void d_V_add(VU& z, const VU& x, const VU& y) { VU::add(z, x, y); }
X void d_V_addu(VU& z, const VU& x, uint32_t y) { VU::add(z, x, y); }
X void d_V_sub(VU& z, const VU& x, const VU& y) { VU::sub(z, x, y); }
X void d_V_mul(VU& z, const VU& x, const VU& y) { VU::mul(z, x, y); }
X void d_V_mul1(VU& z, const VU& x, VU::value_type y) { VU::mul1(z, x, y); }
X void d_V_shl(VU& z, const VU& x, size_t n) { VU::shl(z, x, n); }
X void d_V_shr(VU& z, const VU& x, size_t n) { VU::shr(z, x, n); }
X int d_V_cmp(const VU& x, const VU& y) { return VU::compare(x, y); }
X int d_V_lt(const VU& x, const VU& y) { return x < y; }
X int d_V_le(const VU& x, const VU& y) { return x <= y; }
X int d_V_gt(const VU& x, const VU& y) { return x > y; }
X int d_V_ge(const VU& x, const VU& y) { return x >= y; }
X int d_V_eq(const VU& x, const VU& y) { return x == y; }
X int d_V_ne(const VU& x, const VU& y) { return x != y; }
X size_t d_V_bitLen(const VU& x) { return x.bitLen(); }
X int d_V_testBit(const VU& x, size_t i) { return x.testBit(i); }
X int d_V_isZero(const VU& x) { return x.isZero(); }
X uint64_t d_V_getAt(const VU& x, size_t i) { return x.getAtWithCheck(i); }
X void d_V_opadd(VU& z, const VU& x, const VU& y) { z = x + y; }
X void d_V_opsub(VU& z, const VU& x, const VU& y) { z = x - y; }
X void d_V_opmul(VU& z, const VU& x, const VU& y) { z = x * y; }
X void d_V_addeq(VU& z, const VU& x) { z += x; }
X void d_V_subeq(VU& z, const VU& x) { z -= x; }
X void d_V_muleq(VU& z, const VU& x) { z *= x; }
X void d_V_addequ(VU& z, uint32_t x) { z += x; }
X void d_V_opshl(VU& z, const VU& x, size_t n) { z = x << n; }
X void d_V_opshr(VU& z, const VU& x, size_t n) { z = x >> n; }
X void d_V_shleq(VU& z, size_t n) { z <<= n; }
X void d_V_shreq(VU& z, size_t n) { z >>= n; }
X uint64_t d_V_div1(VU* q, const VU& x, VU::value_type y) { return VU::div1(q, x, y); }
X void d_V_opdiv(VU& z, const VU& x, const VU& y) { z = x / y; }
X void d_V_opmod(VU& z, const VU& x, const VU& y) { z = x % y; }
X void d_V_diveq(VU& z, const VU& y) { z /= y; }
X void d_V_modeq(VU& z, const VU& y) { z %= y; }
X int d_V_div(VU* q, VU& r, const VU& x, const VU& y) { return VU::div(q, r, x, y); }
X size_t d_sizeof_Vsint() { return sizeof(VS); }
X void d_VS_make(VS* z, const VU& x, int neg) { new(z) VS(x); if (neg) VS::neg(*z, *z); }
X const VU* d_VS_get(const VS& x) { return &x.get(); }
X int d_VS_isNeg(const VS& x) { return x.isNegative(); }
X void d_VS_opdiv(VS& z, const VS& x, const VS& y) { z = x / y; }
X void d_VS_opmod(VS& z, const VS& x, const VS& y) { z = x % y; }
X void d_VS_addeq(VS& z, const VS& y) { z += y; }
X void d_VS_subeq(VS& z, const VS& y) { z -= y; }
X void d_VS_muleq(VS& z, const VS& y) { z *= y; }
X void d_VS_opadd(VS& z, const VS& x, const VS& y) { z = x + y; }
X void d_VS_opsub(VS& z, const VS& x, const VS& y) { z = x - y; }
X void d_VS_opmul(VS& z, const VS& x, const VS& y) { z = x * y; }
X void d_VS_opshl(VS& z, const VS& x, size_t n) { z = x << n; }
X void d_VS_opshr(VS& z, const VS& x, size_t n) { z = x >> n; }
X int d_VS_lt(const VS& x, const VS& y) { return x < y; }
X int d_VS_le(const VS& x, const VS& y) { return x <= y; }
X int d_VS_gt(const VS& x, const VS& y) { return x > y; }
X int d_VS_ge(const VS& x, const VS& y) { return x >= y; }
X int d_VS_eq(const VS& x, const VS& y) { return x == y; }
X int d_VS_ne(const VS& x, const VS& y) { return x != y; }
X void d_VS_clear(VS& z) { z.clear(); }
X int d_VS_isZero(const VS& x) { return x.isZero(); }
X void d_VS_ctori(VS* z, int x) { new(z) VS(x); }
X void d_VS_seti(VS& z, int64_t x) { z.set(x); }
X void d_VS_setw(VS& z, VS::value_type x) { z.set(x); }
X void d_VS_setp(VS& z, const uint64_t *x, size_t n) { z.set(x, n); }
X void d_VS_setv(VS& z, const VU& x) { z.set(x); }
X void d_VS_add(VS& z, const VS& x, const VS& y) { VS::add(z, x, y); }
X void d_VS_sub(VS& z, const VS& x, const VS& y) { VS::sub(z, x, y); }
X void d_VS_mul(VS& z, const VS& x, const VS& y) { VS::mul(z, x, y); }
X void d_VS_neg(VS& z, const VS& x) { VS::neg(z, x); }
X void d_VS_opneg(VS& z, const VS& x) { z = -x; }
X void d_VS_shl(VS& z, const VS& x, size_t n) { VS::shl(z, x, n); }
X void d_VS_shr(VS& z, const VS& x, size_t n) { VS::shr(z, x, n); }
X int d_VS_cmp(const VS& x, const VS& y) { return VS::compare(x, y); }
X void d_VS_abs(VU& z, const VS& x) { z = x.abs(); }
X int d_VS_div(VS* q, VS& r, const VS& x, const VS& y) { return VS::div(q, r, x, y); }
// text
X void d_V_toStr(std::string* s, const VU& x, int base) { new(s) std::string(x.toString(base)); }
X void d_V_setStr(VU& z, const std::string& s, int base) { z.set(s, base); }
X void d_V_ctorStr(VU* z, const std::string& s) { new(z) VU(s); }
X void d_V_toStr2(std::string* s, const VU& x, int base) { new(s) std::string(x.toStr(base)); }
X void d_V_fromStr(VU& z, const std::string& s, int base) { z.fromStr(s, base); }
X void d_V_out(std::ostream& os, const VU& x) { os << x; }
X void d_V_in(std::istream& is, VU& x) { is >> x; }
X void d_VS_toStr(std::string* s, const VS& x, int base) { new(s) std::string(x.toString(base)); }
X void d_VS_setStr(VS& z, const std::string& s, int base) { z.set(s, base); }
X void d_VS_ctorStr(VS* z, const std::string& s) { new(z) VS(s); }
X void d_VS_fromStr(VS& z, const std::string& s, int base) { z.fromStr(s, base); }
X void d_VS_out(std::ostream& os, const VS& x) { os << x; }
X void d_VS_in(std::istream& is, VS& x) { is >> x; }
X void d_Fp_toStr(std::string* s, const Fp& x, int base) { new(s) std::string(x.toString(base)); }
X void d_Fp_setStr(Fp& z, const std::string& s) { z.set(s); }
X void d_Fp_ctorStr(Fp* z, const std::string& s) { new(z) Fp(s); }
X void d_Fp_out(std::ostream& os, const Fp& x) { os << x; }
X void d_Fp_in(std::istream& is, Fp& x) { is >> x; }
X void d_Fp2_toStr(std::string* s, const Fp2& x, int base) { new(s) std::string(x.toString(base)); }
X void d_Fp2_setStr(Fp2& z, const std::string& s) { z.set(s); }
X void d_Fp2_out(std::ostream& os, const Fp2& x) { os << x; }
X void d_Fp2_in(std::istream& is, Fp2& x) { is >> x; }
X void d_Fp6_out(std::ostream& os, const Fp6& x) { os << x; }
X void d_Fp6_in(std::istream& is, Fp6& x) { is >> x; }
X void d_Fp12_out(std::ostream& os, const Fp12& x) { os << x; }
X void d_Fp12_in(std::istream& is, Fp12& x) { is >> x; }
X void d_Comp_out(std::ostream& os, const Comp& x) { os << x; }
X void d_Ec1_out(std::ostream& os, const Ec1& x) { os << x; }
X void d_Ec1_in(std::istream& is, Ec1& x) { is >> x; }
X void d_Ec2_out(std::ostream& os, const Ec2& x) { os << x; }
X void d_Ec2_in(std::istream& is, Ec2& x) { is >> x; }
// conversions
X void d_Fp_ctorw(Fp* z, const mie::Unit *x) { new(z) Fp(x); }
X void d_Fp_ctorVuint(Fp* z, const VU& x) { new(z) Fp(x); }
X void d_Fp_setDirect(Fp& z, const VU& x) { Fp::setDirect(z, x); }
X mie::Unit d_Fp_getLow(const Fp& x) { return x.getLow(); }
X void d_Fp_getModulo(VU* z) { new(z) VU(Fp::getModulo()); }
X int d_Fp_le(const Fp& x, const Fp& y) { return x <= y; }
X int d_Fp_gt(const Fp& x, const Fp& y) { return x > y; }
X int d_Fp_ge(const Fp& x, const Fp& y) { return x >= y; }
X void d_Fp_inverse(Fp& z) { z.inverse(); }
X void d_Fp_diveq(Fp& z, const Fp& x) { z /= x; }
X void d_Fp2_ctorii(Fp2* z, int a, int b) { new(z) Fp2(a, b); }
X void d_Fp2_ctori(Fp2* z, int a) { new(z) Fp2(a); }
X void d_Fp12_ctori(Fp12* z, int a) { new(z) Fp12(a); }
X void d_Fp_toMont(Fp& y, const Fp& x) { Fp::toMont(y, x); }
X void d_Fp_fromMont(Fp& y, const Fp& x) { Fp::fromMont(y, x); }
X void d_Fp_divBy2(Fp& y, const Fp& x) { Fp::divBy2(y, x); }
X void d_Fp_divBy4(Fp& y, const Fp& x) { Fp::divBy4(y, x); }
X void d_FpD_setDirect(FpDbl& z, const VU& x) { FpDbl::setDirect(z, x); }
X void d_FpD_getDirect(VU* z, const FpDbl& x) { new(z) VU(x.getDirect()); }
X int d_FpD_compare(const FpDbl& x, const FpDbl& y) { return FpDbl::compare(x, y); }
// parameters
X const void *d_P_z() { return &Param::z; }
X const void *d_P_p() { return &Param::p; }
X const void *d_P_r() { return &Param::r; }
X const void *d_P_t() { return &Param::t; }
X const void *d_P_largest_c() { return &Param::largest_c; }
X const void *d_P_Z() { return &Param::Z; }
X const void *d_P_W2p() { return &Param::W2p; }
X const void *d_P_W3p() { return &Param::W3p; }
X const void *d_P_gammar() { return &Param::gammar[0]; }
X const void *d_P_gammar2() { return &Param::gammar2[0]; }
X const void *d_P_gammar3() { return &Param::gammar3[0]; }
X const void *d_P_i0() { return &Param::i0; }
X const void *d_P_i1() { return &Param::i1; }
X int d_P_b() { return Param::b; }
X const void *d_P_b_invxi() { return &Param::b_invxi; }
X const void *d_P_half() { return &Param::half; }
X int d_P_si(size_t i) { return Param::siTbl[i]; }
X size_t d_P_sin() { return Param::siTbl.size(); }
#ifdef BN_SUPPORT_SNARK
X int d_P_zr(size_t i) { return Param::zReplTbl[i]; }
X size_t d_P_zrn() { return Param::zReplTbl.size(); }
#endif
