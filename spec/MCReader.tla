------------------------------ MODULE MCReader ------------------------------
(* All texts of up to MaxLen characters from a small alphabet, in every    *)
(* encoding and line ending, delivered in every possible way, decoded      *)
(* piece by piece as they arrive.                                          *)
EXTENDS Reader, TLC
CONSTANT MaxLen
VARIABLES text, form, bytes, dec     \* what was encoded, how, into what; the decoder so far

Alphabet == {65, 10, 233, 8364, 128512}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Forms == {"utf8", "utf8bom", "utf16le", "utf16be"}
Endings == {"lf", "crlf"}

Utf8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
             [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Pair(u, big) == IF big THEN <<u \div 256, u % 256>> ELSE <<u % 256, u \div 256>>
Utf16(c, big) == FoldLeft(LAMBDA a, u : a \o Pair(u, big), <<>>, Units(c))
WithEndings(t, e) == FoldLeft(LAMBDA a, c : a \o (IF c = 10 /\ e = "crlf" THEN <<13, 10>> ELSE <<c>>), <<>>, t)
Encode(t, f) ==
  CASE f = "utf8"    -> FoldLeft(LAMBDA a, c : a \o Utf8(c), <<>>, t)
    [] f = "utf8bom" -> FoldLeft(LAMBDA a, c : a \o Utf8(c), <<239, 187, 191>>, t)
    [] f = "utf16le" -> FoldLeft(LAMBDA a, c : a \o Utf16(c, FALSE), <<255, 254>>, t)
    [] f = "utf16be" -> FoldLeft(LAMBDA a, c : a \o Utf16(c, TRUE), <<254, 255>>, t)

Init == /\ text \in Texts
        /\ form \in Forms \X Endings
        /\ bytes = Encode(WithEndings(text, form[2]), form[1])
        /\ ReaderInit(Len(bytes))
        /\ dec = DecodeInit
Feed(n) == dec' = FoldLeft(DecodeByte, dec, SubSeq(bytes, pos + 1, pos + n))
Next == /\ \E n \in 0..(Len(bytes) - pos) : (Deliver(n) \/ DeliverEof(n) \/ Fail(n)) /\ Feed(n)
        /\ UNCHANGED <<text, form, bytes>>

(* However the bytes arrived, the lines are those of the text; and what is *)
(* decoded so far never depends on how the bytes were cut.                 *)
SameLines == fate = "eof" => Lines(DecodeEnd(dec)) = Lines(text)
NoHistory == dec = FoldLeft(DecodeByte, DecodeInit, SubSeq(bytes, 1, pos))
Terminated == (fate = "eof" /\ text # <<>>) =>
                 (text[Len(text)] # 10 => Lines(text) = Lines(Append(text, 10)))
Complete == fate = "eof" => pos = Len(bytes)
=============================================================================
