#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,quant,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=["inputs","configurations"],text=quant),
      why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
CI="src/complex/cartesian_impl.rs"; OP="src/complex/ops.rs"; PI="src/complex/polar_impl.rs"
FL="src/float_impl.rs"; FX="src/fixed_impl.rs"; IN="src/int_impl.rs"; TR="src/trigonometry.rs"; AT="src/trigonometry/atan.rs"; SQ="src/trigonometry/sqrt.rs"
p("C01","Complex add, subtract and multiply are exact in every operator form",
  "For every component type, adding, subtracting or multiplying two Cartesian numbers yields the textbook real and imaginary parts evaluated in the component type's own arithmetic: (a+c, b+d), (a-c, b-d), (ac-bd, ad+bc). Every way of writing the operation - by value, by reference, by mutable reference, in place (+=, -=), through the free functions, or against a num::Complex operand - gives that same result and leaves the other operand unchanged. With overflow checks on, the operation panics exactly when one of those component operations overflows, and never otherwise.",
  "All component values of both operands, for f32, f64, the signed integers and fixed-point types, over all operator forms.",
  "Tests add and multiply a few small f32 and fixed pairs by value; the in-place, reference and num::Complex forms and the overflow boundaries are barely touched, and the in-place forms were wrong although every test passed.",
  [CI,OP],[("operator macros and free functions",CI),("mul_cartesian, add, sub",OP)],["returned or updated Cartesian","panic"])
p("C02","Complex division is the textbook quotient in every operator form",
  "For every component type, dividing (a,b) by (c,d) yields ((ac+bd)/(c²+d²), (bc-ad)/(c²+d²)) evaluated in the component type's own arithmetic, identically for the operator by value, by reference, by mutable reference, in place, against num::Complex, and for the free function. With overflow checks on it panics exactly when one of these component operations overflows or divides by zero.",
  "All component values of dividend and divisor for f32, f64, the signed integers and fixed-point types, over all operator forms.",
  "No test divided by a number whose imaginary part differs from its real part, so all division forms could use the wrong divisor component and pass.",
  [CI,OP],[("division macro",CI),("div_cartesian",OP)],["returned or updated Cartesian","panic"])
p("C03","Mixed-type scalar operations act on the right components and saturate on zero",
  "For a Cartesian number and a real scalar of any convertible type, + and - change only the real part, by the converted scalar, and * and / apply the converted scalar to both parts; the in-place forms give the same result as the operators. Dividing by a scalar that equals zero never panics and gives the component type's maximum value in both parts, for /, /= and the scalar-division function alike.",
  "All component and scalar values (zero and negative zero included) over the cross product of component types and scalar types, all operator forms.",
  "Tests use 2f64 with an f32 complex number; other type pairs, the in-place forms and division by zero are not run at all.",
  [CI,OP],[("generic scalar operator impls",CI),("div_scalar_cartesian",OP)],["returned or updated Cartesian","panic"])
p("C04","Polar arithmetic multiplies magnitudes, adds angles and saturates on zero",
  "The product of two Polar numbers has the product of the magnitudes and the sum of the angles, and is exactly (0, 0) when either magnitude is zero; a Polar times a Cartesian is the product with the Cartesian's polar form, and a Cartesian times (or *=) a Polar is the product with the Polar's Cartesian form. Multiplying or dividing a Polar by a real scalar changes only the magnitude, and dividing by zero gives the maximum magnitude and keeps the angle.",
  "All magnitudes, angles and scalars for f32, f64 and fixed-point component types, over all operator forms.",
  "Polar arithmetic is not executed by any test; zero magnitudes and zero divisors are special-cased branches.",
  [PI,OP,CI],[("mul_polar",OP),("Polar operator impls",PI),("Cartesian times Polar macro",CI)],["returned Polar or Cartesian","panic"])
p("C05","Conjugation negates exactly the imaginary part or the angle",
  "The conjugate of a Cartesian number keeps the real part and negates the imaginary part; the conjugate of a Polar number keeps the magnitude and negates the angle; the operand is not changed and, within a representation, conjugating twice restores the number. When the result is requested in the other representation it is the conversion of that conjugate.",
  "All component values for f32, f64, signed integers and fixed-point types, all source and target representations.",
  "Tests conjugate one f32 value per representation; sign handling of the other types and cross-representation targets is not run.",
  [CI,PI],[("Conj impls",CI),("Conj impls",PI)],["returned number"])
p("C06","Magnitude, angle and the polar/Cartesian conversions agree with each other",
  "For a Cartesian number the magnitude (by whichever method or function it is asked for) is the square root of re²+im² and the angle is the two-argument arctangent of im and re, in the component type's own operations, and conversion to polar form is exactly that pair. Conversion of (mag, ang) to Cartesian form is (mag·cos w, mag·sin w) where w is the angle wrapped to one period; a number converted to the representation it already has is unchanged, and building a number from coordinates of the other representation equals that conversion.",
  "All component values for f32, f64 and fixed-point types, over all accessors and constructors; angles within a stated number of turns.",
  "Tests round-trip two f32 values; they cannot show that the accessors agree everywhere or that re and im are never swapped in some quadrant.",
  [CI,PI,OP],[("to_polar, abs, to_cartesian",OP),("Mag/Arg/ToPolar/ToCartesian impls",CI)],["mag, abs, arg, ang, to_polar, to_cartesian, new_from_*, mixed_abs"])
p("C07","Conversions between primitive number types have the documented cast semantics",
  "Converting between any two primitive numeric types, in either direction of the conversion trait, keeps every value the target can represent; integer to integer otherwise wraps modulo the target width, float to integer truncates toward zero, saturates at the target's limits and maps NaN to zero, and conversions to float round to nearest even. No such conversion panics.",
  "All values of each of the 14 primitive source types into each of the 14 target types, both conversion directions.",
  "Tests convert a handful of small values between four of the 196 type pairs.",
  [FL,IN],[("conversion macros",FL),("conversion macros",IN)],["mixed_from_num","mixed_to_num"])
p("C08","Fixed-point conversions keep the value up to the stated rounding",
  "Converting an integer to a fixed-point type is exact whenever the value is representable, converting a float rounds to the nearest representable value (ties to even), converting to an integer rounds toward negative infinity and converting to a float rounds to nearest even; hence every fixed-point value survives a round trip through a float wide enough to hold it. With overflow checks on the conversion panics exactly when the (rounded) value does not fit or the float is not finite.",
  "All values of each primitive source or target type against fixed-point types of 8, 16, 32 and 64 bits, both signs, several fraction lengths.",
  "The conversions are generated for 240 fixed-point types times 14 primitives; tests convert a few constants for two of the types.",
  [FX],[("conversion macro",FX)],["mixed_from_num","mixed_to_num","panic"])
p("C09","Real/complex conversions keep the real part and zero the rest",
  "Converting a real number to a complex one gives that (converted) value as real part or magnitude and zero as imaginary part or angle; converting a complex number to a real one gives its converted real part or magnitude; converting between Cartesian numbers of different component types converts the two parts independently and without swapping them.",
  "All component values over the cross product of component types and conversion directions.",
  "Tests convert f32 to Cartesian<f64> once and Cartesian<f32> to f64 once.",
  [FL,FX,CI,PI],[("Cartesian conversion macros",FL),("Cartesian conversion macros",FX),("generic conversion impls",CI),("generic conversion impls",PI)],["mixed_from_num","mixed_to_num","mixed_to_complex"])
p("C10","Zero, one, limits, pi and tau are what generic code relies on",
  "The zero of every type (real, Cartesian, Polar) is the additive identity and compares equal to the converted integer 0, and one is the multiplicative identity, without overflow. The minimum and maximum values bound every (non-NaN, finite) value of the type and are attained. Pi and tau, on every type that can represent them, are within one unit in the last place of the true constants.",
  "All values of each supported type (14 primitives, fixed-point types of every width, Cartesian and Polar of them).",
  "No test checks limits or identities; a wrong constant in one macro affects more than a hundred types.",
  [IN,FL,FX,CI,PI],[("MixedZero/MixedOne/MixedReal/MixedPi impls","src/*_impl.rs")],["mixed_zero","mixed_one","mixed_min_value","mixed_max_value","mixed_pi","mixed_tau"])
p("C11","Absolute value, sign and sign predicates agree on every type",
  "For every value of every real type the absolute value is x for x>=0 and -x for x<0 (so for floats the sign is dropped, also on zero and infinities), and the sign is -1 exactly when x<0 and 1 otherwise. For nonzero x the positive predicate is true exactly when x>0 and the negative predicate exactly when x<0. None of them panics, except the absolute value of a signed minimum that has no positive counterpart.",
  "All values of the 14 primitive types and of fixed-point types of every width and sign.",
  "Tests take the sign of two fixed-point values and nothing else.",
  [IN,FL,FX,TR],[("sign",TR),("MixedAbs/MixedReal impls","src/*_impl.rs")],["mixed_abs","mixed_sign","mixed_is_positive","mixed_is_negative","trigonometry::sign"])
p("C12","Phase wrapping lands in one period and preserves the angle modulo 2 pi",
  "Wrapping an angle yields a value w with -pi <= w < pi (pi as represented in the type) that differs from the angle by a whole number of turns (of the represented 2 pi; for floats up to rounding), and an angle already in that range is returned unchanged. It panics for no angle of the stated range, on any supported signed type.",
  "All angles within a stated number of turns (at least 8 each way, or the whole type if smaller) for f32, f64 and signed fixed-point types.",
  "Tests wrap one fixed-point value; the boundaries -pi and pi and multi-turn angles are not reached.",
  [TR,FL,FX],[("wrap_phase",TR)],["mixed_wrap_phase","trigonometry::wrap_phase","panic"])
p("C13","Integer powers are repeated products, with x^0 = 1 and reciprocals below zero",
  "For every real type, raising x to a non-negative integer n gives 1 for n = 0 and otherwise the n-fold product of x in the type's own arithmetic (for floats the product may be associated in any order, so it is exact up to rounding), and panics exactly when that product overflows. For a negative exponent the result is the power of the reciprocal.",
  "All bases of the integer types, floats and fixed-point types, exponents within a stated range (at least -4..8).",
  "Tests square and cube two values; exponents 0, 1 and negative ones, other types, and overflow boundaries are not run; negative exponents on integers did not terminate although every test passed.",
  [TR,IN,FX,FL],[("powi",TR),("mixed_powi impls","src/*_impl.rs")],["mixed_powi","trigonometry::powi","panic"])
p("C14","The fast square root is accurate and total on non-negative inputs",
  "For every x >= 0 of a float or fixed-point type, the iterative square root with two iterations is non-negative and within 0.1 % of the true root (for fixed point plus a few units in the last place, scaled by the root where that exceeds one), is exactly zero for zero, gives the same result for -x as for x, and panics for no representable x (other than a signed minimum without absolute value). The generic square root of fixed-point types is that function.",
  "All inputs of 8- and 16-bit fixed-point types and all inputs of sampled-configuration 32- and 64-bit types, f32 and f64 inputs in a stated exponent range.",
  "Tests evaluate three values on one type; unsigned types and types that cannot hold 4 panicked for most inputs although every test passed.",
  [SQ,FX,FL],[("niirf",SQ),("mixed_sqrt/mixed_niirf impls",FX)],["mixed_niirf","mixed_sqrt","trigonometry::sqrt::niirf","panic"])
p("C15","The polynomial arctangent is accurate in every quadrant and total",
  "For every pair (y, x) the polynomial two-argument arctangent is within 0.005 rad (plus a few units in the last place on fixed point) of the true angle of the point (x, y) in the right quadrant; on the axes it gives exactly 0, pi, pi/2 or -pi/2, and for (0, 0) it gives 0. The one-argument form equals the two-argument form with x = 1. Neither panics on values whose absolute value is representable.",
  "All finite argument pairs (floats: within a stated exponent range) for f32, f64 and signed fixed-point types.",
  "Tests evaluate three points of the first quadrant; small or large fixed-point arguments divided by zero or overflowed although every test passed.",
  [AT,FX,FL],[("atan2, atan and the octant polynomials",AT)],["mixed_atan2_poly","trigonometry::atan::atan2","trigonometry::atan::atan","panic"])
p("C16","The polynomial sine and cosine are accurate over a whole period",
  "For every angle in -pi..pi the polynomial sine is within 5e-6 of the true sine (plus accumulated rounding of a few ulp), and the polynomial cosine is within 5e-6 of the true cosine, for float types and for those fixed-point types on which the polynomial's constants are representable.",
  "All angles in -pi..pi (cosine: also one turn beyond) for f32 and f64.",
  "A test plots 600 points; the doc tests evaluate five values.",
  [TR],[("sin, cos",TR)],["trigonometry::sin","trigonometry::cos"])
p("C17","Float elementary functions are the library functions they are named after",
  "For f32 and f64 each elementary function (sin, cos, both at once, tan, their inverses, the hyperbolic functions and their inverses, exp, exp2, exp10, natural, base-2 and base-10 logarithm, power, square and cube root, two-argument arctangent) returns exactly what the math library's function of that name and width returns, arguments in order. Decibel conversions are 20·log10 x and 10^(x/20) for magnitudes and 10·log10 x and 10^(x/10) for powers.",
  "All float arguments, all functions, both float widths.",
  "Tests evaluate a few of the 58 functions at one point each; two functions that agree at that point cannot be told apart.",
  [FL,"src/float_impl/f32_impl.rs","src/float_impl/f64_impl.rs"],[("one-line delegations","src/float_impl/f32_impl.rs"),("decibel conversions",FL)],["mixed_* functions of f32 and f64"])
p("C18","Every elementary function of the fixed types is its CORDIC counterpart",
  "On signed fixed-point types sin, cos, sin-and-cos, asin, acos, atan, atan2 (arguments in order) and exp return what the CORDIC library's function of that name returns for the same argument, with the sine first in the pair.",
  "All arguments of representative signed fixed-point types of every width.",
  "Tests evaluate three functions at one point each on one type.",
  [FX],[("one-line delegations",FX)],["mixed_* functions of fixed types"])
p("C19","Complex numbers print as signed parts in every format",
  "Formatting a Cartesian number prints the real part, the sign of the imaginary part and the magnitude of the imaginary part followed by i, each part formatted by its own type with the requested precision and radix prefix; a part below zero contributes exactly one minus sign, a real part that is not below zero gets a plus only when asked for (parts whose magnitude the type cannot hold, and negative zeros, are not covered). A Polar number prints as magnitude, the angle sign and angle.",
  "All combinations of signs, sign-plus, alternate and precision flags over the seven formats, with all values of an 8-bit component type.",
  "Tests print a few f32 values with one or two sign combinations.",
  ["src/complex/cartesian_impl/num_complex_impl.rs",PI],[("write_complex macro","src/complex/cartesian_impl/num_complex_impl.rs"),("Display for Polar",PI)],["formatted text"])
p("C20","Complex exponential and powers combine magnitude and angle correctly",
  "The exponential of a Cartesian number (a, b) is (e^a·cos b, e^a·sin b) in the component type's own functions. Raising a fixed-point Cartesian number to a power n yields (r·cos p, r·sin p) with r the n-th power of its magnitude and p = n times its angle, in the component type's own operations.",
  "All component values for f32, f64 and representative fixed-point types; powers 0..4.",
  "Tests evaluate three exponentials and one square.",
  [CI,OP],[("MixedExp for Cartesian",CI),("powi",OP)],["mixed_exp","complex::powi"])
p("C21","Floor and ceiling round to the adjacent integer in the right direction",
  "For every finite float, floor is the largest integral value not above it and ceil the smallest integral value not below it; they keep integral values, infinities and signed zeros and map NaN to NaN.",
  "All f32 and all f64 values.",
  "No test calls either function.",
  ["src/float_impl/f32_impl.rs","src/float_impl/f64_impl.rs"],[("MixedCeil/MixedFloor impls","src/float_impl/f32_impl.rs")],["mixed_floor","mixed_ceil"])
p("C22","Complex numbers compare, copy and default component-wise",
  "Two Cartesian (or Polar) numbers are equal exactly when both components are equal, are ordered by the first component and then the second, default to zero components, and are laid out as the first component followed directly by the second. Constructing from components and reading them back gives the same values.",
  "All component values for integer, float and fixed component types.",
  "Tests compare equal values only.",
  ["src/complex.rs",CI,PI],[("derived traits and layout","src/complex.rs")],["==","<","default","field layout"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
