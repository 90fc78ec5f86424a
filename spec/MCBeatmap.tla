----------------------------- MODULE MCBeatmap ------------------------------
(* Every sequence of up to Depth lines from a small vocabulary.            *)
EXTENDS Beatmap, Json
CONSTANTS Depth, Emit, Vocabulary
VARIABLE hist

AllLines ==
  { "[Metadata]", "[Difficulty]", "[TimingPoints]", " [[HitObjects]] ", "[Events]", "[Foo]",
    "osu file format v5", "", "//ApproachRate:1", "Title: a:b ", "ApproachRate:9",
    "OverallDifficulty : 12", "HPDrainRate:-3", "CircleSize:4.2", "0,\t500", "100,-50,4,2,1,60,0,9",
    "2,10,20", "0,0,\"b,g\"", "1,2,50.5,1,0", "3,4,40,22,2", "5,6,40,44,0,90", "7,8,60,2",
    "9,9,30,2,4,L|99:9,0,90,2|x|8|1", "1,1,20,128,0,700:0", "1,1,20,16,0" }
KeyLines == { "[Difficulty]", "[Foo]", "ApproachRate:9", "ApproachRate: 11", "OverallDifficulty:3",
              "OverallDifficulty : 12", "//ApproachRate:1", "HPDrainRate:-3" }
ObjectLines == { "1,2,10,1,0", "3,4,20,5,0", "3,4,10,49,2", "5,6,20,8,0,90", "5,6,10,60,0,30",
                 "9,9,10,22,4,L|99:9,2,90", "1,1,20,128,0,700:0", "7,8,60,2" }
Lines == CASE Vocabulary = "all" -> AllLines
           [] Vocabulary = "keys" -> KeyLines
           [] Vocabulary = "objects" -> ObjectLines
FirstSection == CASE Vocabulary = "all" -> ""
                  [] Vocabulary = "keys" -> "Difficulty"
                  [] Vocabulary = "objects" -> "HitObjects"

Init == BeatmapInit /\ hist = <<>>
Preset == section = FirstSection /\ bm = Defaults /\ pts = <<>> /\ objs = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E x \in Lines : ReadLine(x) /\ hist' = Append(hist, x)
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
View == <<section, bm, pts, objs, Len(hist)>>

(* Every line is read in exactly one way.                                  *)
Ways(x) == <<ENABLED SectionLine(x), ENABLED KeyLine(x), ENABLED EventLine(x),
             ENABLED TimingLine(x), ENABLED ObjectLine(x), ENABLED OtherLine(x)>>
OneWay == \A x \in Lines : Cardinality({i \in 1..6 : Ways(x)[i]}) = 1

(* The section each line of the history stood in, computed afresh.         *)
SecAt(i) == LET s == {j \in 1..(i-1) : IsSection(hist[j])}
            IN IF s = {} THEN FirstSection ELSE SectionOf(hist[CHOOSE j \in s : \A k \in s : k <= j])
Declared(k) == LET at == {i \in 1..Len(hist) : SecAt(i) = "Difficulty" /\ ~IsSection(hist[i])
                                               /\ ~Comment(hist[i]) /\ KeyValue(hist[i])[1] = k}
               IN IF at = {} THEN <<>> ELSE <<ToF(KeyValue(hist[CHOOSE i \in at : \A j \in at : j <= i])[2])>>
Limit(v) == IF v \prec Zero THEN Zero ELSE IF v \succ D("10") THEN D("10") ELSE v
(* The approach-rate rule, independent of the order of the keys.           *)
ArRule == bm.ar = IF Declared("ApproachRate") # <<>> THEN Limit(Declared("ApproachRate")[1])
                  ELSE IF Declared("OverallDifficulty") # <<>> THEN Limit(Declared("OverallDifficulty")[1])
                  ELSE D("5")
OdRule == bm.od = IF Declared("OverallDifficulty") # <<>> THEN Limit(Declared("OverallDifficulty")[1]) ELSE D("5")
Totals == /\ bm.circles + bm.sliders + bm.spinners >= Len(objs)
          /\ bm.points = Len(pts)
          /\ bm.circles = Cardinality({i \in 1..Len(objs) : objs[i].kind = "circle"})

(* Ordering and combos.                                                    *)
os == Ordered
cs == Combos(os)
OrderOk == /\ Len(os) = Len(objs)
           /\ \A i \in 1..Len(os) - 1 : os[i].time \preceq os[i+1].time
           /\ {os[i] : i \in 1..Len(os)} = {objs[i] : i \in 1..Len(objs)}
ComboOk == \A i \in 1..Len(os) :
  /\ cs[i].id = i - 1
  /\ (i > 1) => cs[i].set - cs[i-1].set \in {0, 1}
  /\ (i > 1) => (cs[i].set = cs[i-1].set) = (cs[i].number = cs[i-1].number + 1)
  /\ (i > 1 /\ cs[i].set # cs[i-1].set) => cs[i].number = 1
  /\ (i > 1 /\ os[i].kind # "spinner") =>
        ((cs[i].set # cs[i-1].set) = (os[i].nc \/ os[i-1].kind = "spinner"))
  /\ os[i].kind = "spinner" => cs[i].nc = os[i].nc

(* Comments, blank lines and unknown sections change nothing.              *)
Idle(x) == ~IsSection(x) /\ (Comment(x) \/ Trim(x) = "" \/ section \in {"Foo", ""}) /\ ~HasPrefix(x, HeaderText)
IdleLines == [][Idle(hist'[Len(hist')]) => UNCHANGED <<bm, pts, objs>>]_<<section, bm, pts, objs, hist>>
=============================================================================
