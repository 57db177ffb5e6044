-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for TLC.  A number is a decimal literal (a STRING such  *)
(* as "0.125" or "-3e-7") or one of the IEEE specials "nan", "inf",        *)
(* "-inf".  Every operator below is overridden by java/tlc2/module/Num.java*)
(* which computes with 50 significant decimal digits (exactly, when the    *)
(* result fits), i.e. far below the rounding of the code under test.       *)
(* Signed zeros are not distinguished.  The TLA+ bodies are placeholders.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

NAdd(a, b) == CHOOSE c \in {a} : TRUE
NSub(a, b) == CHOOSE c \in {a} : TRUE
NMul(a, b) == CHOOSE c \in {a} : TRUE
NDiv(a, b) == CHOOSE c \in {a} : TRUE      \* IEEE: x/0 = +-inf, 0/0 = nan
NMax(a, b) == CHOOSE c \in {a} : TRUE      \* nan if either is nan
NMin(a, b) == CHOOSE c \in {a} : TRUE
NPow(a, b) == CHOOSE c \in {a} : TRUE      \* exact rule for integer b
NNeg(a)    == CHOOSE c \in {a} : TRUE
NAbs(a)    == CHOOSE c \in {a} : TRUE
NSqrt(a)   == CHOOSE c \in {a} : TRUE
NExp(a)    == CHOOSE c \in {a} : TRUE      \* double accuracy
NLog(a)    == CHOOSE c \in {a} : TRUE      \* double accuracy
NLog1p(a)  == CHOOSE c \in {a} : TRUE      \* double accuracy
NCos(a)    == CHOOSE c \in {a} : TRUE      \* double accuracy
NCosPi(a)  == CHOOSE c \in {a} : TRUE      \* cos(pi * a), exact range reduction
NFloor(a)  == CHOOSE c \in {a} : TRUE
NTrunc(a)  == CHOOSE c \in {a} : TRUE
NSign(a)   == CHOOSE c \in {a} : TRUE
NOfInt(i)  == CHOOSE c \in {i} : TRUE      \* TLC integer -> number
NToInt(a)  == CHOOSE c \in {a} : TRUE      \* number -> TLC integer (|a| < 2^31)
NLt(a, b)  == a = b                        \* FALSE when either is nan
NLe(a, b)  == a = b
NEq(a, b)  == a = b                        \* numeric; nan is not equal to nan
NIsNan(a)  == a = "nan"
NIsFinite(a) == a \notin {"nan", "inf", "-inf"}
\* |a - b| <= rtol * max(|a|,|b|) + atol, with nan ~ nan and inf ~ inf
NClose(a, b, rtol, atol) == a = b
NSum(seq)    == CHOOSE c \in {seq} : TRUE  \* exact up to the final rounding
NSumSq(seq)  == CHOOSE c \in {seq} : TRUE
NMaxAbs(seq) == CHOOSE c \in {seq} : TRUE  \* largest finite |x|, "0" if none
NDot(s, t)   == CHOOSE c \in {s} : TRUE
NStr(a)      == a                          \* canonical decimal STRING
\* rounding to a storage format ("bfloat16", "float16", "float32", "float64")
NCast(a, dt) == a
\* Evaluate a (lazy) function with domain 1..n to a sequence, once.
Force(f)   == f
=============================================================================
