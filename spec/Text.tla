-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Strings as the file format needs them.  Interpreted by the Java module  *)
(* override java/Text.java; the bodies are placeholders.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LOCAL Native == CHOOSE x \in {} : TRUE

Trim(s)           == Native  \* without leading and trailing white space (Unicode)
HasPrefix(s, p)   == Native
DropPrefix(s, p)  == Native  \* s without p in front, if it is there
Split(s, sep)     == Native  \* the parts of s between occurrences of sep
CutFirst(s, sep)  == Native  \* the parts of s before and after the first sep: <<a, b>>, or <<s>>
TrimChars(s, l, r)== Native  \* without leading chars in l and trailing chars in r
Erase(s, c)       == Native  \* without every occurrence of c
Numeric(s)        == Native  \* s is a decimal numeral (sign, fraction and exponent allowed)
ToF(s)            == Native  \* its value as a double; 0 if s is not a numeral
ToS(s)            == Native  \* its value as a single; 0 if s is not a numeral
IntOf(s)            == Native  \* value of an integer numeral as an integer; 0 if it is none
IntText(s)        == Native  \* canonical numeral of an integer numeral; "0" if it is none
HasBit(n, k)      == Native  \* bit k (0, 1, ...) of integer n
FromCodes(cs)     == Native  \* the string of a sequence of Unicode code points
FTrunc(x)         == Native  \* double x without its fraction
=============================================================================
