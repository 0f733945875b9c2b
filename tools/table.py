ZH2 = "include/zm.h"
ZH, BH, ZC = "include/zm2.h", "include/bn.h", "src/zm2.cpp"
prop("A01", "Prime-field arithmetic is exact and canonical for all operands",
     "For all field elements, addition, subtraction, negation and (Montgomery) multiplication return the mathematically exact residue, fully reduced below the modulus. This holds in every supported curve, execution mode and instruction-set selection.",
     ["inputs", "configurations"], "all canonical operands (2^508 pairs), all carry/borrow patterns, every curve x mode x mulx configuration",
     "the tests sample random residues; a carry lost at one limb boundary or a missing final subtraction needs operands hit with probability 2^-64 or less",
     [ZH, ZC], [("field operations (generated code)", "src/zm2.cpp: make_Fp_add, make_Fp_sub, make_Fp_neg, make_Fp_mul"), ("portable fallbacks", "src/zm2.cpp: Fp_addC and siblings")],
     observe=["Fp::add", "Fp::sub", "Fp::neg", "Fp::mul"])
prop("A02", "Quadratic-extension arithmetic equals the field F_p[u]/(u^2+1)",
     "For all elements of the quadratic extension, sum, difference, negation, product, square, multiplication by the cubic non-residue, scaling by a base-field element and halving return exactly the value defined by u^2=-1, with canonical coordinates. The portable and the generated implementation of one operation agree on every input.",
     ["inputs", "configurations"], "all canonical operands, every curve x mode x mulx configuration, both implementations of each operation",
     "random tests never hit the operand corners of lazy reduction, and several portable siblings are not reached by any test",
     [BH, ZC], [("extension operations", "include/bn.h: Fp2T"), ("generated versions", "src/zm2.cpp: make_Fp2_mul, make_Fp2_square, in_Fp2_mul_xi")], observe=["Fp2 operations"])
prop("A03", "Ring operations of the degree-6 and degree-12 extensions are exact",
     "For all elements of the degree-6 and degree-12 tower fields, sum, difference, negation, product and square equal the polynomial arithmetic modulo v^3=xi and w^2=v, with every coordinate canonical.",
     ["inputs", "configurations"], "all canonical operands (6 or 12 coordinates each), every configuration, both implementations",
     "canonical outputs depend on sums of up to 18 double-width products staying below a bound; operands that exceed it have negligible probability in random tests",
     [BH, ZC], [("tower operations", "include/bn.h: Fp6T, Fp12T"), ("generated versions", "src/zm2.cpp: set_p_Fp6Dbl_mul, set_p_Fp6_mul, make_Fp12_square")], observe=["Fp6 and Fp12 operations"])
prop("A04", "Unreduced double-width arithmetic is exact and respects its ranges",
     "For all operands within the documented ranges, the double-width operations return the exact integer (the variants without correction) or a congruent value inside the documented range (the correcting variants), and modular reduction of any value below p*2^256 returns the canonical Montgomery residue.",
     ["inputs", "configurations"], "all operands in the documented ranges; every call made from higher levels stays in those ranges",
     "ranges are only asserted in debug builds, and violations need operands within 2^-60 of the bound",
     [BH, ZH, ZC], [("lazy reduction", "include/bn.h: Fp2T::Dbl, Fp6T::Dbl; include/zm2.h: Fp::Dbl")], observe=["FpDbl, Fp2Dbl and Fp6Dbl operations"])
prop("A05", "Results do not depend on which operands share storage",
     "Every arithmetic operation of the tower gives the same result when its result object is also one of its operands, or when operands are the same object, wherever the interface permits that. Operands that are not the result are never modified.",
     ["inputs", "programs", "configurations"], "every admissible sharing pattern of result and operands, for all operand values",
     "tests call most operations with distinct objects; in-place use happens with one pattern per call site",
     [BH, ZH, ZC], [("in-place operation", "include/bn.h, src/zm2.cpp: order of loads and stores in every operation")], observe=["all arithmetic operations"])
RI = ("Every input class is a partition of the operands (generic, on the curve, at infinity, equal, opposite, zero denominators, ...); in each, every path is interpreted with canonical field values as unknowns carrying "
      "random residues, and the result is compared with an independent reference of the field tower, the curve groups and the optimal ate pairing. Every branch direction must be taken by some class. Lower-level operations are replaced by contracts that other checks prove.")
prop("B01", "Field inversion is exact for every element and always terminates",
     "For every non-zero element of the prime field, inversion returns the canonical element whose product with the operand is one, and it terminates; the inverse of zero is zero. The result object may be the operand itself.",
     ["inputs", "configurations"], "all field elements, every path of the inversion loop and every possible shift count (up to 508), every configuration",
     "each shift count selects another table entry and each loop path another carry chain; random elements concentrate on a narrow band of counts near 1.4*254",
     [ZH, ZC], [("inversion", "include/zm2.h: Fp::inv, Fp::invTbl_; src/zm2.cpp: preInvC, make_Fp_preInv, invTbl_ construction")], observe=["Fp::inv", "Fp::inverse"],
     note="The loop is decided by an invariant: U*S+V*R=p with U,V odd-or-even as the binary algorithm requires, R and S tracking the operand times powers of two, and the count equal to the number of halvings. Entry, every loop path and the exit are interpreted symbolically; termination within 508 steps is a consequence of U*V at least halving at each step (argument in DESIGN.md).")
prop("B02", "Operators and predicates of the tower agree with the field operations",
     "For all elements of every tower level, the overloaded operators, compound assignments, scalings by subfield elements, clear, isZero, == and != give the same result as the mathematical operation on the represented elements. In particular equality and zero tests hold exactly when all coordinates agree.",
     ["inputs", "configurations"], "all canonical operands, all sharing patterns of the operands, every configuration",
     "unit tests compare a few fixed values; a predicate that ignores one of 48 limbs still passes them",
     [BH, ZH], [("operators", "include/zm.h: mie::local::addsubmul, comparable; include/bn.h"), ("predicates", "isZero, operator== of Fp, Fp2T, Fp6T, Fp12T")], note=RI, observe=["operators of Fp, Fp2, Fp6, Fp12"])
prop("B03", "Inversion and Frobenius maps of the extension fields are exact",
     "For every invertible element of the degree-2, -6 and -12 extensions, inverse() yields the element whose product with it is one. For all elements, Frobenius, Frobenius2 and Frobenius3 equal raising to the power p, p^2 and p^3, and the twist endomorphisms equal the conjugated Frobenius map on the second curve.",
     ["inputs", "configurations"], "all elements of each extension, every configuration and curve",
     "tests try a handful of random elements in one configuration; special elements with zero coordinates take other branches",
     [BH], [("inversion", "include/bn.h: Fp2T::inverse, Fp6T::inverse, Fp12T::inverse"), ("Frobenius", "include/bn.h: Fp12T::Frobenius*, ecop::FrobEndOnTwist_*")], note=RI, observe=["inverse, Frobenius maps"])
prop("B04", "Cyclotomic squaring, compression and final exponentiation are exact",
     "For every element of the cyclotomic subgroup, the special squaring and (where the curve supports it) the compressed repeated squaring with decompression equal the ordinary power, including elements whose compressed form has a zero denominator. For every nonzero element the final exponentiation equals the power (p^12-1)/r times the curve's fixed cofactor.",
     ["inputs", "configurations"], "all elements of the field or subgroup, repetition counts up to 4 and those of the fixed exponent, every configuration",
     "decompression has a branch taken with probability p^-2, and lazy reduction inside compressed squaring can overflow only for rare operands",
     [BH, ZC], [("cyclotomic arithmetic", "include/bn.h: Fp12T::sqru, mapToCyclo, final_exp, CompressT"), ("generated loop", "src/zm2.cpp: make_Compress_square_n")], note=RI, observe=["sqru, mapToCyclo, Compress, final_exp"])
prop("C01", "Point operations implement the group law for every pair of points",
     "For all points of G1 and of the twist in Jacobian coordinates, including infinity, equal and opposite points and any sharing of objects, doubling, addition, subtraction, negation, normalisation and comparison compute the group law and leave non-result operands representing the same point. Two representations compare equal exactly when they denote the same point.",
     ["inputs", "configurations"], "all pairs of points, any Jacobian representation of each, every admissible aliasing, every configuration",
     "exceptional cases (P+P through different representations, P-P, infinity with arbitrary coordinates) are not covered by random sampling",
     [BH], [("group law", "include/bn.h: ecop::ECDouble, ecop::ECAdd, ecop::NormalizeJac"), ("point class", "include/bn.h: EcT")], note=RI, observe=["EcT, ecop"])
prop("C02", "Scalar multiplication and powers are exact for every integer",
     "For every integer m given as int, unsigned word, mpz_class or Vuint (zero, negative where the type allows it, any bit pattern, any word count) and every point P of either group, the point product equals m times P, also when the result object is P. For every non-negative exponent the generic power function yields the exact power.",
     ["inputs", "configurations"], "all scalars of up to 576 bits (Vuint) or 512 bits (mpz_class), both signs, every leading-bit position, every bit pattern, both groups",
     "tests use a few small or random 256-bit scalars: word boundaries, negative values, zero words and top-bit patterns are not sampled",
     [BH, ZH2], [("scalar multiplication", "include/bn.h: ecop::ScalarMult, EcT::mul"), ("power", "include/zm.h: mie::power, mie::util::IntTag")], observe=["EcT::mul, operator*, mie::power"],
     technique="abstract interpretation of the IR over words of unknown bits, joining the states at post-dominators",
     note="Points are abstract multiples of the operand (point addition and doubling are decided by C01); scalars are words of unknown bits; both sides of every branch on a bit are interpreted and joined where they meet, so all 2^n scalars of a word count and leading position are covered at once. Quick covers up to 5 words fully and the ends of longer ones; thorough covers all lengths up to the 9 words of Vuint and 8 of mpz_class.")
prop("C03", "Point construction accepts exactly the points of the curve",
     "For all coordinates, the checked constructors and set() of both point classes succeed exactly when the coordinates satisfy the curve equation (or denote infinity) and otherwise throw; isValid and the isOnEC/isOnTwist predicates return exactly whether the equation holds. Accepted coordinates are stored unchanged.",
     ["inputs", "configurations"], "all coordinate tuples, affine, Jacobian and homogeneous, every configuration",
     "tests use a few valid points and rarely an invalid one; off-curve input differing in one term is not sampled",
     [BH], [("validation", "include/bn.h: EcT::set, EcT::isValid, ecop::isOnECJac3, isOnECHom2, isOnECHom3, isOnTwistEC*")], note=RI, observe=["EcT constructors, set, isValid"])
prop("D01", "Every pairing entry point computes the optimal ate pairing",
     "For all points P of G1 and Q of G2, the affine, Jacobian and point-class entry points and the precomputed-lines path return the reduced optimal ate pairing of the documented curve, whatever representation the points have, and the two-pair Miller loop returns the product of the two pairings. Line evaluation and sparse multiplication are exact up to factors the final exponentiation removes.",
     ["inputs", "configurations"], "all pairs of points in the order-r groups, all representations, every configuration",
     "tests evaluate the pairing at a few points; rare paths of the line functions (zero coefficients, unreduced lines) and the portable siblings are not reached",
     [BH, ZC], [("pairing", "include/bn.h: opt_atePairing, opt_atePairingJac, components::precomputeG2, millerLoop, millerLoop2"), ("lines", "include/bn.h: Fp6T::pointDblLineEval, pointAddLineEval; src/zm2.cpp: make_pointDblLineEval"),
               ("sparse products", "include/bn.h: Fp12T::Dbl::mul_Fp2_024")], note=RI, observe=["opt_atePairing*, components::*"])
prop("D02", "The pairing with the point at infinity is one, for every representation",
     "Whenever either point is the point at infinity, in any representation (Z = 0 with arbitrary other coordinates), the Jacobian and point-class pairing functions return exactly one; for other points with arbitrary nonzero Z they return the same value as for the normalised points.",
     ["inputs", "configurations"], "all representations of both points: infinity, normalised, arbitrary Z; every configuration",
     "tests check one or two representations of infinity only",
     [BH], [("exceptional inputs", "include/bn.h: opt_atePairing(Fp12&, Ec2, Ec1), opt_atePairingJac, ecop::NormalizeJac, EcT::normalize")], note=RI, observe=["opt_atePairing, opt_atePairingJac"])
prop("F01", "Multi-precision integer operations are exact",
     "For all unsigned and signed multi-precision integers of every word count the buffer admits, addition, subtraction, multiplication, shifts, comparison, bit length, conversion from machine words and arrays, and division by a one-word divisor yield exactly the mathematical result in normalised form (signed division rounds down), whatever objects are shared and whatever the result object held before. The program stops only when the result is negative (unsigned) or does not fit the buffer (a product: when the word counts of its operands together exceed the buffer).",
     ["inputs", "configurations"], "all integers of 0 to 9 words (signed dividends: 8), both signs, signed zeros, all object sharing patterns, all shift counts",
     "carries through several words, results that grow or shrink by a word and stale words of a reused object need specific bit patterns",
     ["include/zm.h", "src/zm.cpp"], [("integers", "include/zm.h: VuintT, VsintT, local::FixedBuffer, local::PrimitiveFunction"), ("generated primitives", "src/zm.cpp: Code (addN, subN, add1, mul1, div1, mod1)")],
     observe=["Vuint, Vsint operations"], technique="abstract interpretation of the IR and the generated machine code over exact word polynomials",
     note="All words, carries and borrows are unknowns; each word-count/sign/sharing case is decided for all values. Divisors of two or more words are the subject of F02; text conversion is not covered. Trusts clang's IR and the transfer functions in /verif/sa.")

prop("F02", "Division by multi-word integers is exact",
     "For all multi-precision integers x and y, y of two or more words, div returns the quotient and remainder with x = q*y + r and r between 0 and y (signed division rounds down, the remainder has the sign of the divisor); /, %, /= and %= agree with it. The quotient estimated with floating-point numbers never exceeds the true one and the loop ends. Operands that are not results are unchanged, whatever objects are shared.",
     ["inputs", "configurations"], "all integers of 1 to 9 words and divisors of 2 to 9 words (signed: selected word counts up to 8), every position of the leading bit, all object sharing patterns",
     "an estimate that is too large by one unit needs words whose leading 53 bits are next to a rounding boundary",
     ["include/zm.h"], [("division", "include/zm.h: local::PrimitiveFunction::div, GetApp; VuintT::div; VsintT::div")],
     observe=["Vuint::div, Vsint::div, operators / and %"], technique="abstract interpretation: double approximations as bounds, loop invariant over exact word polynomials, contract at the callers",
     note="The argument from bounded approximation to a quotient that is never too large is the one of DESIGN 3.3 (round-to-nearest double division); the rest is decided on the IR. Signed: selected word counts.")

prop("G01", "Operations after initialisation share no mutable state",
     "After initialisation, field, tower, curve, pairing and integer operations only write their result objects, the operands their signature lets them modify, and memory of their own: no operation (C++ or generated machine code) writes an object with static storage, and none writes through a parameter or object declared read-only. The one exception is that const members of EcT may bring the point's own coordinates into normalised form. So calls on distinct objects from any number of threads cannot interfere, whatever the schedule.",
     ["schedules", "inputs", "configurations"], "all functions reachable from the public operations and all generated routines, in all nine configurations",
     "a test would have to hit two threads inside the same few instructions; tests of the repository are single-threaded",
     ["include/bn.h", "include/zm.h", "include/zm2.h", "src/zm.cpp", "src/zm2.cpp"], [("state", "include/bn.h: every operation; src/zm2.cpp: generated routines")],
     observe=["results of concurrent calls on distinct objects"], technique="interprocedural effect analysis (parameters and static storage) over the LLVM IR; store targets of the generated machine code",
     note="Summaries over the whole call graph; std:: and GMP functions are summarised by signature; the normalisation of EcT::p (mutable) is exempt as stated. Reads of shared mutable state are covered through the absence of writes.")

prop("H02", "Conversions between integers and field elements are exact",
     "For every int and every integer below p, constructing or setting a field element gives the element for exactly that integer (negative ints modulo p), and get() returns the reduced integer an element stands for; getLow and isOdd agree with it, toMont/fromMont are inverse to each other, getDirectP(n) is n*p when that fits four words. <, <=, >, >=, ==, != and compare are one consistent total order. squareRoot returns true exactly for squares (0 included) and then a root.",
     ["inputs", "configurations"], "all ints, all integers below p (1 to 4 words), all elements, all nine configurations",
     "boundary values such as the smallest int, a zero top word or a carry into the last word are not sampled",
     ["include/zm2.h", "src/zm2.cpp"], [("conversions", "include/zm2.h: Fp::set, get, getLow, toMont, fromMont, compare, squareRoot, setDirect")],
     observe=["Fp(int), Fp::set(Vuint), get, compare, squareRoot"], technique="abstract interpretation with exact word polynomials and the contract of the Montgomery product",
     note="Montgomery products and powers are contracts (A01, C02). squareRoot is decided on squares, non-squares and zero, in place and not. Trusts the transfer functions in /verif/sa.")

prop("E01", "Initialisation yields exactly the documented curve, also when repeated",
     "Param::init returns exactly for the curves the build supports (otherwise it ends the program) and leaves z, p, r, t, 6z+2, b, b/xi, the Frobenius constants and the digit tables of the loops with the values the curve definition gives. Calling init again, with the same or another supported curve, leaves the library computing on the curve given last: every operation then behaves as after a single initialisation with it.",
     ["configurations", "histories"], "all parameter sets; all nine configurations; every ordered pair of supported curves of a build",
     "every test program initialises once, with a supported curve",
     ["include/bn.h", "src/zm2.cpp"], [("initialisation", "include/bn.h: ParamT::init; src/zm2.cpp: Fp::setModulo")],
     observe=["Param members, pairing results after Param::init"], technique="constant propagation through the initialisation; abstract interpretation of the pairing functions from the state after repeated initialisation",
     note="The decision which curves are supported is evaluated over a symbolic parameter set; constants are compared with independently computed ones in nine configurations and three states after repeated initialisation.")

prop("H01", "Text conversion of integers, field elements and points round-trips",
     "For every integer, field element and curve point, printing in base 10 or 16 and parsing the text again yields an equal object, and text that is not a number of the given base is refused.",
     ["inputs"], "all values, all strings", "malformed and boundary strings are not sampled",
     ["include/zm.h", "include/bn.h"], [("text", "include/zm.h: VuintT::set(string), toString, operator<<, operator>>; include/bn.h: stream operators")],
     na="The conversion hands chunks of the text to libstdc++ streams (istringstream, setfill/setw, hex) whose behaviour on strings of unknown length and content is not in the source analysed; a sound summary of formatted stream input over arbitrary strings is out of reach of the abstract interpreter, and running it on samples would be a test.")
prop("J01", "The Java wrappers compute what the C++ library computes",
     "Every method of the Java classes Mpz, Fp, Fp2, Fp12, Ec1, Ec2 applied to any objects yields the result of the corresponding C++ operation.",
     ["inputs"], "all objects and call sequences", "the Java sources are not built or run by the tests",
     ["java/bn254_if.hpp"], [("wrappers", "java/bn254_if.hpp; java/*.i")],
     na="Needs the SWIG-generated glue and a JNI header set, neither of which is in the repository or installed here; what lies below the wrappers is covered by the other properties, the hand-over through generated code cannot be analysed without it.")
