---------------------------- MODULE TraceReader -----------------------------
(* Recorded parses of one text in many guises.                             *)
EXTENDS Reader, Text, Conf
CONSTANT Focus
VARIABLES src,     \* the source being parsed
          known,   \* <<what the source says, what the parser made of it>> so far
          c, l
vars == <<size, pos, fate, src, known, c, l>>
Ev == Cases[c].ev
LineLimit == 10485760

Init == /\ ReaderInit(0) /\ src = [text |-> <<>>, limit |-> 0, valid |-> FALSE] /\ known = <<>>
        /\ c \in 1..NCases /\ l = 0
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c

(* A small source is shown with its bytes, a large one by a name.          *)
Says(e) == IF e.bytes # <<>> THEN Lines(Decode(e.bytes)) ELSE <<<<e.name>>>>
TrOpen == /\ Is("open")
          /\ LET e == Ev[l+1] IN
               /\ size' = e.size /\ pos' = 0
               /\ fate' = IF e.via = "bytes" THEN "eof" ELSE "open"
               /\ src' = [text |-> Says(e), limit |-> e.maxline, valid |-> e.valid]
          /\ UNCHANGED known
TrRead == /\ Is("read")
          /\ LET e == Ev[l+1] IN
               \/ e.end = "ok" /\ Deliver(e.n)
               \/ e.end = "eof" /\ DeliverEof(e.n)
               \/ e.end = "fail" /\ Fail(e.n)
               \/ e.n = 0 /\ Again
          /\ UNCHANGED <<src, known>>
TrResult == /\ Is("result")
            /\ LET e == Ev[l+1] IN
                 known' = IF fate = "eof" /\ src.limit < LineLimit
                          THEN Append(known, <<src.text, e.digest>>) ELSE known
            /\ UNCHANGED <<rvars, src>>
Done == l = Len(Ev) /\ UNCHANGED vars
Next == TrOpen \/ TrRead \/ TrResult \/ Done

Broken == fate = "failed" \/ src.limit > LineLimit
IsTitle(x) == Len(x) > 6 /\ SubSeq(x, 1, 6) = <<84, 105, 116, 108, 101, 58>>
TitleLines == SelectSeq(src.text, IsTitle)
(* The only Title line is under a plain [Metadata] heading. *)
UnderMetadata ==
  LET at == CHOOSE i \in 1..Len(src.text) : IsTitle(src.text[i])
      opens == {i \in 1..(at - 1) : Len(src.text[i]) > 0 /\ 91 \in {src.text[i][j] : j \in 1..Len(src.text[i])}}
  IN opens # {} /\ FromCodes(src.text[CHOOSE i \in opens : \A j \in opens : j <= i]) = "[Metadata]"

(* Sources that say the same are parsed to the same, with their characters. *)
SameMeaning(e) ==
  /\ Same("read to its end", "eof", fate)
  /\ \A i \in 1..Len(known) : known[i][1] = src.text =>
        Holds(<<"parsed like before", e.note>>, known[i][2] = e.digest)
  /\ (Len(TitleLines) = 1 /\ ~e.err /\ UnderMetadata) =>
        Same("title", Trim(FromCodes(SubSeq(TitleLines[1], 7, Len(TitleLines[1])))), e.title)
Observed(e) ==
  IF Focus = "C01" THEN Broken \/ SameMeaning(e)
  ELSE IF Broken THEN Same("error reported", TRUE, e.err) /\ Same("no beatmap", TRUE, e.nil)
  ELSE IF fate = "open" THEN Holds("read to its end", e.err)  \* it may yet fail
  ELSE (fate = "eof" /\ src.valid) => Same("error reported", FALSE, e.err)
Conforms == StatusOk(Cases[c]) /\ ((l > 0 /\ Ev[l].op = "result") => Observed(Ev[l]))
=============================================================================
