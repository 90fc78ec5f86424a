------------------------------ MODULE Float64 ------------------------------
(***************************************************************************)
(* IEEE-754 numbers for the specification.                                 *)
(*                                                                         *)
(* A double is represented by the pair <<hi, lo>> of the two signed 32-bit *)
(* halves of its bit pattern.  A single is a double that happens to be     *)
(* representable in single precision; rounding the double result of one    *)
(* +, -, *, / or square root of singles with S(_) gives exactly the single *)
(* precision result.  The operators below are interpreted by the Java      *)
(* module override java/Float64.java; their TLA+ bodies are placeholders.  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

LOCAL Native == CHOOSE x \in {} : TRUE

D(s)        == Native  \* the double nearest to the decimal numeral s (a string)
I(n)        == Native  \* the double equal to integer n
S(a)        == Native  \* a rounded to single precision
ToInt(a)    == Native  \* integer part (towards zero); a must fit in an integer
FAdd(a, b)  == Native
FSub(a, b)  == Native
FMul(a, b)  == Native
FDiv(a, b)  == Native
FLt(a, b)   == Native
FLe(a, b)   == Native
FEq(a, b)   == Native  \* numeric equality (0 = -0, NaN # NaN)
FMin(a, b)  == Native  \* NaN if an argument is NaN
FMax(a, b)  == Native
FNeg(a)     == Native
FAbs(a)     == Native
FSqrt(a)    == Native
FCbrt(a)    == Native
FPow(a, b)  == Native
FSin(a)     == Native
FCos(a)     == Native
FAtan2(a, b)== Native
FLog10(a)   == Native
FFloor(a)   == Native
FCeil(a)    == Native
FMod(a, b)  == Native  \* sign of a, as C fmod
IsNaN(a)    == Native
IsFinite(a) == Native
FStr(a)     == Native  \* decimal numeral of a, for messages
FSortDown(s)== Native  \* the sequence s of doubles in descending order

(* Close(a,b,r,t): equal, or both NaN, or |a-b| <= t + r*max(|a|,|b|).     *)
Close(a, b, r, t) == Native

a ++ b == FAdd(a, b)
a -- b == FSub(a, b)
a ** b == FMul(a, b)
a // b == FDiv(a, b)
a \prec b   == FLt(a, b)
a \preceq b == FLe(a, b)
a \succ b   == FLt(b, a)
a \succeq b == FLe(b, a)

Zero == D("0")
One  == D("1")
Two  == D("2")
Half == D("0.5")
Pi   == D("3.141592653589793")
FNaN == D("NaN")
FInf == D("Infinity")

Clamp(x, lo, hi) == FMin(hi, FMax(lo, x))
Lerp(lo, hi, t)  == lo ++ ((hi -- lo) ** t)
Square(x)        == x ** x
FMaxOf(s)        == IF s = <<>> THEN Zero ELSE FSortDown(s)[1]

(* Single-precision arithmetic.                                            *)
SAdd(a, b) == S(FAdd(a, b))
SSub(a, b) == S(FSub(a, b))
SMul(a, b) == S(FMul(a, b))
SDiv(a, b) == S(FDiv(a, b))

(* Single-precision vectors <<x, y>>.                                      *)
VAdd(p, q)  == <<SAdd(p[1], q[1]), SAdd(p[2], q[2])>>
VSub(p, q)  == <<SSub(p[1], q[1]), SSub(p[2], q[2])>>
VScl(p, m)  == <<SMul(p[1], m), SMul(p[2], m)>>
VDot(p, q)  == SAdd(SMul(p[1], q[1]), SMul(p[2], q[2]))
VLen(p)     == S(FSqrt(VDot(p, p)))
VDst(p, q)  == VLen(VSub(q, p))
VEq(p, q)   == FEq(p[1], q[1]) /\ FEq(p[2], q[2])
VLerp(p, q, t) == <<SAdd(SMul(SSub(q[1], p[1]), t), p[1]),
                    SAdd(SMul(SSub(q[2], p[2]), t), p[2])>>
VClose(p, q, r, t) == Close(p[1], q[1], r, t) /\ Close(p[2], q[2], r, t)
VStr(p) == "(" \o FStr(p[1]) \o "," \o FStr(p[2]) \o ")"
=============================================================================
