----------------------------- MODULE TraceStrain -----------------------------
(* Recorded runs of a skill of our own: contributions at times.            *)
EXTENDS Strain, Conf, TLC
VARIABLES st, hist, c, l
vars == <<st, hist, c, l>>
Ev == Cases[c].ev
In == Cases[c].in
e  == Ev[l]
k  == [mult |-> In.mult, base |-> In.base, history |-> In.history]

Init == c \in 1..NCases /\ l = 0 /\ st = StrainStart /\ hist = <<>>
Is(op) == l < Len(Ev) /\ Ev[l+1].op = op /\ l' = l + 1 /\ UNCHANGED c
TrFeel == /\ Is("feel")
          /\ LET f == Ev[l+1] IN st' = Feel(st, k, f.t, f.delta, f.add, One)
          /\ hist' = IF l = 0 THEN <<>> ELSE Remember(hist, k, Ev[l].t)
Done == l = Len(Ev) /\ UNCHANGED vars
Next == TrFeel \/ Done

N(what, exp, got) == Near(what, exp, got, D("1e-9"), D("1e-12"))
Felt(f) ==
  /\ N("strain", st.strain, f.strain)
  /\ Same("remembered objects", hist, f.seen)
  /\ f.peaks # <<>> => NearSeq("peak", Peaks(st), f.peaks[1], D("1e-9"), D("1e-12"))
Conforms == StatusOk(Cases[c]) /\ (l > 0 => Felt(e))
=============================================================================
