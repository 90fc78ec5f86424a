------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Where a beatmap's text comes from: a source delivers bytes in pieces of *)
(* any size and ends in end-of-file or in an error.  The text the bytes    *)
(* stand for, and its lines, depend only on the bytes.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLES size,    \* how many bytes the source holds
          pos,     \* how many it has delivered
          fate     \* "open", "eof" or "failed"
rvars == <<size, pos, fate>>

ReaderInit(n) == size = n /\ pos = 0 /\ fate = "open"

Deliver(n)    == fate = "open" /\ pos + n <= size /\ pos' = pos + n /\ UNCHANGED <<size, fate>>
DeliverEof(n) == fate = "open" /\ pos + n = size /\ pos' = pos + n /\ fate' = "eof" /\ UNCHANGED size
Fail(n)       == fate = "open" /\ pos + n <= size /\ pos' = pos + n /\ fate' = "failed" /\ UNCHANGED size
Again         == fate # "open" /\ UNCHANGED rvars   \* reading on repeats the end

-----------------------------------------------------------------------------
(* Decoding as a machine over single bytes.  `mode` is the encoding once   *)
(* known, `pend` the bytes of an unfinished character, `out` code points.  *)
(* Malformed input stands for the replacement character.                   *)
Replacement == 65533
DecodeInit == [mode |-> "start", pend |-> <<>>, out |-> <<>>]

Need(b) == CASE b < 128 -> 1 [] b \in 194..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..244 -> 4 [] OTHER -> 0
Code(p) == CASE Len(p) = 1 -> p[1]
             [] Len(p) = 2 -> (p[1] % 32) * 64 + (p[2] % 64)
             [] Len(p) = 3 -> ((p[1] % 16) * 64 + (p[2] % 64)) * 64 + (p[3] % 64)
             [] Len(p) = 4 -> (((p[1] % 8) * 64 + (p[2] % 64)) * 64 + (p[3] % 64)) * 64 + (p[4] % 64)
Continues(p, b) ==  \* b may follow the bytes p of a UTF-8 character
  IF Len(p) # 1 THEN b \in 128..191
  ELSE b \in (CASE p[1] = 224 -> 160..191 [] p[1] = 237 -> 128..159
               [] p[1] = 240 -> 144..191 [] p[1] = 244 -> 128..143 [] OTHER -> 128..191)

Utf8Fresh(st, b) ==
  CASE Need(b) = 1 -> [st EXCEPT !.out = Append(@, b), !.pend = <<>>]
    [] Need(b) = 0 -> [st EXCEPT !.out = Append(@, Replacement), !.pend = <<>>]
    [] OTHER       -> [st EXCEPT !.pend = <<b>>]
Utf8Byte(st, b) ==
  IF st.pend = <<>> THEN Utf8Fresh(st, b)
  ELSE IF Continues(st.pend, b)
  THEN LET p == Append(st.pend, b)
       IN IF Len(p) = Need(p[1]) THEN [st EXCEPT !.out = Append(@, Code(p)), !.pend = <<>>]
          ELSE [st EXCEPT !.pend = p]
  ELSE Utf8Fresh([st EXCEPT !.out = Append(@, Replacement)], b)

Unit(hi, lo) == hi * 256 + lo
Utf16Byte(st, b, big) ==
  LET p == Append(st.pend, b)
      u(i) == IF big THEN Unit(p[i], p[i+1]) ELSE Unit(p[i+1], p[i])
      high(x) == x \in 55296..56319
      low(x) == x \in 56320..57343
  IN IF Len(p) % 2 = 1 THEN [st EXCEPT !.pend = p]
     ELSE IF Len(p) = 2
     THEN IF high(u(1)) THEN [st EXCEPT !.pend = p]
          ELSE [st EXCEPT !.pend = <<>>, !.out = Append(@, IF low(u(1)) THEN Replacement ELSE u(1))]
     ELSE IF low(u(3))
     THEN [st EXCEPT !.pend = <<>>, !.out = Append(@, 65536 + (u(1) - 55296) * 1024 + (u(3) - 56320))]
     ELSE IF high(u(3))
     THEN [st EXCEPT !.pend = SubSeq(p, 3, 4), !.out = Append(@, Replacement)]
     ELSE [st EXCEPT !.pend = <<>>, !.out = @ \o <<Replacement, u(3)>>]

(* The first bytes decide the encoding; a byte-order mark is not text.     *)
AsUtf8(bs) == FoldLeft(Utf8Byte, [mode |-> "utf8", pend |-> <<>>, out |-> <<>>], bs)
DecodeByte(st, b) ==
  CASE st.mode = "utf8"    -> Utf8Byte(st, b)
    [] st.mode = "utf16be" -> Utf16Byte(st, b, TRUE)
    [] st.mode = "utf16le" -> Utf16Byte(st, b, FALSE)
    [] st.mode = "start"   ->
         LET p == Append(st.pend, b) IN
         CASE p = <<254, 255>>      -> [mode |-> "utf16be", pend |-> <<>>, out |-> <<>>]
           [] p = <<255, 254>>      -> [mode |-> "utf16le", pend |-> <<>>, out |-> <<>>]
           [] p = <<239, 187, 191>> -> [mode |-> "utf8", pend |-> <<>>, out |-> <<>>]
           [] p \in {<<254>>, <<255>>, <<239>>, <<239, 187>>} -> [st EXCEPT !.pend = p]
           [] OTHER -> AsUtf8(p)
DecodeEnd(st) ==
  CASE st.mode = "start" /\ st.pend # <<>> ->
         LET s == AsUtf8(st.pend)
         IN IF s.pend = <<>> THEN s.out ELSE Append(s.out, Replacement)
    [] st.pend = <<>> -> st.out
    [] OTHER -> Append(st.out, Replacement)
Decode(bs) == DecodeEnd(FoldLeft(DecodeByte, DecodeInit, bs))

(* Lines of a sequence of code points: ended by LF, a CR before the end    *)
(* dropped, the last one possibly unterminated.                            *)
DropCR(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
LineByte(st, c) == IF c = 10 THEN [done |-> Append(st.done, DropCR(st.cur)), cur |-> <<>>]
                   ELSE [st EXCEPT !.cur = Append(@, c)]
Lines(cs) == LET st == FoldLeft(LineByte, [done |-> <<>>, cur |-> <<>>], cs)
             IN IF st.cur = <<>> THEN st.done ELSE Append(st.done, DropCR(st.cur))
=============================================================================
