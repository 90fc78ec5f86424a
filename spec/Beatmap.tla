------------------------------ MODULE Beatmap -------------------------------
(***************************************************************************)
(* Reading a beatmap line by line: the section machine, the settings, the  *)
(* timing points and the objects; and what finishing the file makes of it. *)
(***************************************************************************)
EXTENDS Timing, TLC

VARIABLES section,   \* the section the reader is in
          bm,        \* settings read so far
          pts,       \* timing points in file order
          objs       \* objects in file order
bvars == <<section, bm, pts, objs>>

Defaults ==
  [ version |-> "0", title |-> "", titleU |-> "", artist |-> "", artistU |-> "",
    creator |-> "", diffname |-> "", source |-> "", tags |-> "", mapID |-> "0",
    setID |-> "0", mode |-> "0", audio |-> "", preview |-> "0", bg |-> "",
    leniency |-> D("0.7"), hp |-> D("5"), cs |-> D("5"), od |-> D("5"), ar |-> D("5"),
    arGiven |-> FALSE, mult |-> D("1.4"), tickRate |-> One, pauses |-> <<>>,
    circles |-> 0, sliders |-> 0, spinners |-> 0, length |-> Zero, points |-> 0 ]

BeatmapInit == section = "" /\ bm = Defaults /\ pts = <<>> /\ objs = <<>>

-----------------------------------------------------------------------------
(* The shape of lines.                                                     *)
SectionOf(line) ==
  LET t == Trim(line) IN IF HasPrefix(t, "[") THEN TrimChars(t, "[", "]") ELSE ""
IsSection(line) == SectionOf(line) # ""
Comment(line)   == HasPrefix(line, "//")

KeyValue(line) == LET c == CutFirst(line, ":") IN [i \in 1..Len(c) |-> Trim(c[i])]
Fields(line)   == LET c == Split(line, ",") IN [i \in 1..Len(c) |-> Trim(c[i])]

HeaderText == "osu file format v"
Versioned(line, b) ==
  IF HasPrefix(line, HeaderText)
  THEN [b EXCEPT !.version = IntText(Trim(DropPrefix(line, HeaderText)))] ELSE b

(* Settings by section and key.                                            *)
Limited(v) == Clamp(ToF(v), Zero, D("10"))
General(b, k, v) ==
  CASE k = "Mode"          -> [b EXCEPT !.mode = IntText(v)]
    [] k = "StackLeniency" -> [b EXCEPT !.leniency = IF IsNaN(ToF(v)) THEN Zero ELSE ToF(v)]
    [] k = "AudioFilename" -> [b EXCEPT !.audio = v]
    [] k = "PreviewTime"   -> [b EXCEPT !.preview = IntText(v)]
    [] OTHER               -> b
Metadata(b, k, v) ==
  CASE k = "Title"         -> [b EXCEPT !.title = v]
    [] k = "TitleUnicode"  -> [b EXCEPT !.titleU = v]
    [] k = "Artist"        -> [b EXCEPT !.artist = v]
    [] k = "ArtistUnicode" -> [b EXCEPT !.artistU = v]
    [] k = "Creator"       -> [b EXCEPT !.creator = v]
    [] k = "Version"       -> [b EXCEPT !.diffname = v]
    [] k = "Source"        -> [b EXCEPT !.source = v]
    [] k = "Tags"          -> [b EXCEPT !.tags = v]
    [] k = "BeatmapID"     -> [b EXCEPT !.mapID = IntText(v)]
    [] k = "BeatmapSetID"  -> [b EXCEPT !.setID = IntText(v)]
    [] OTHER               -> b
DifficultyKey(b, k, v) ==
  CASE k = "HPDrainRate"       -> [b EXCEPT !.hp = Limited(v)]
    [] k = "CircleSize"        -> [b EXCEPT !.cs = Limited(v)]
    [] k = "OverallDifficulty" -> [b EXCEPT !.od = Limited(v),
                                            !.ar = IF b.arGiven THEN @ ELSE Limited(v)]
    [] k = "ApproachRate"      -> [b EXCEPT !.ar = Limited(v), !.arGiven = TRUE]
    [] k = "SliderMultiplier"  -> [b EXCEPT !.mult = ToF(v)]
    [] k = "SliderTickRate"    -> [b EXCEPT !.tickRate = ToF(v)]
    [] OTHER                   -> b
Event(b, f) ==
  CASE f[1] \in {"0", "Background"} /\ Len(f) >= 3 -> [b EXCEPT !.bg = Erase(f[3], "\"")]
    [] f[1] \in {"2", "Break"} /\ Len(f) >= 3 ->
         [b EXCEPT !.pauses = Append(@, <<ToF(f[2]), ToF(f[3])>>)]
    [] OTHER -> b

(* Objects.                                                                *)
Kind(f) == LET t == IntOf(f[4]) IN
  CASE HasBit(t, 0) -> "circle"
    [] HasBit(t, 3) -> "spinner"
    [] HasBit(t, 1) -> "slider"
    [] HasBit(t, 7) -> "hold"
    [] OTHER        -> "none"
Needed(kind) == CASE kind = "slider" -> 8 [] kind \in {"spinner", "hold"} -> 6 [] OTHER -> 5
Complete(f) == Len(f) >= 5 /\ Len(f) >= Needed(Kind(f))

Slides(f) == LET n == IntOf(f[7]) IN IF n < 1 THEN 1 ELSE n
EdgeSounds(f) ==
  LET given == IF Len(f) >= 9 THEN Split(f[9], "|") ELSE <<>>
  IN [i \in 1..(Slides(f) + 1) |-> IF i <= Len(given) THEN IntOf(given[i]) ELSE IntOf(f[5])]

Object(f) ==
  LET t == IntOf(f[4])
      kind == Kind(f)
  IN [ kind   |-> kind,
       pos    |-> <<ToS(f[1]), ToS(f[2])>>,
       time   |-> ToF(f[3]),
       end    |-> IF kind = "spinner" THEN ToF(f[6]) ELSE ToF(f[3]),
       nc     |-> HasBit(t, 2),
       offset |-> (t \div 16) % 8,
       sounds |-> IF kind = "slider" THEN EdgeSounds(f) ELSE <<IntOf(f[5])>>,
       slides |-> IF kind = "slider" THEN Slides(f) ELSE 0,
       fields |-> f ]

LastTime(f) ==
  CASE Kind(f) \in {"circle", "slider"} -> FTrunc(ToF(f[3]))
    [] Kind(f) = "spinner"              -> FTrunc(ToF(f[6]))
    [] Kind(f) = "hold"                 -> FTrunc(ToF(Split(f[6], ":")[1]))
    [] OTHER                            -> Zero
Counted(b, f) ==
  [b EXCEPT !.length   = FMax(@, LastTime(f)),
            !.circles  = @ + (IF Kind(f) = "circle" THEN 1 ELSE 0),
            !.sliders  = @ + (IF Kind(f) \in {"slider", "hold"} THEN 1 ELSE 0),
            !.spinners = @ + (IF Kind(f) = "spinner" THEN 1 ELSE 0)]

-----------------------------------------------------------------------------
(* One action per kind of line.                                            *)
Header(line) == bm' = Versioned(line, bm)

SectionLine(line) ==
  /\ IsSection(line)
  /\ section' = SectionOf(line)
  /\ UNCHANGED <<bm, pts, objs>>

KeyLine(line) ==
  /\ ~IsSection(line)
  /\ section \in {"General", "Metadata", "Difficulty"}
  /\ ~Comment(line) /\ Len(KeyValue(line)) = 2
  /\ LET kv == KeyValue(line)
         b == Versioned(line, bm)
     IN bm' = CASE section = "General"    -> General(b, kv[1], kv[2])
                [] section = "Metadata"   -> Metadata(b, kv[1], kv[2])
                [] section = "Difficulty" -> DifficultyKey(b, kv[1], kv[2])
  /\ UNCHANGED <<section, pts, objs>>

FieldLine(line, sec) ==
  ~IsSection(line) /\ section = sec /\ ~Comment(line) /\ Len(Fields(line)) > 1

EventLine(line) ==
  /\ FieldLine(line, "Events")
  /\ bm' = Event(Versioned(line, bm), Fields(line))
  /\ UNCHANGED <<section, pts, objs>>

TimingLine(line) ==
  /\ FieldLine(line, "TimingPoints")
  /\ pts' = Append(pts, TimingPoint(Fields(line)))
  /\ bm' = [Versioned(line, bm) EXCEPT !.points = @ + 1]
  /\ UNCHANGED <<section, objs>>

ObjectLine(line) ==
  /\ FieldLine(line, "HitObjects") /\ Complete(Fields(line))
  /\ LET f == Fields(line) IN
       /\ bm' = Counted(Versioned(line, bm), f)
       /\ objs' = IF Kind(f) \in {"circle", "slider", "spinner"} THEN Append(objs, Object(f)) ELSE objs
  /\ UNCHANGED <<section, pts>>

(* Everything else is skipped, except that a header may stand anywhere.    *)
OtherLine(line) ==
  /\ ~IsSection(line)
  /\ CASE section \in {"General", "Metadata", "Difficulty"} -> Comment(line) \/ Len(KeyValue(line)) < 2
       [] section \in {"Events", "TimingPoints"} -> Comment(line) \/ Len(Fields(line)) < 2
       [] section = "HitObjects" -> Comment(line) \/ Len(Fields(line)) < 2 \/ ~Complete(Fields(line))
       [] OTHER -> TRUE
  /\ Header(line)
  /\ UNCHANGED <<section, pts, objs>>

ReadLine(line) ==
  SectionLine(line) \/ KeyLine(line) \/ EventLine(line) \/ TimingLine(line)
    \/ ObjectLine(line) \/ OtherLine(line)

-----------------------------------------------------------------------------
(* The finished beatmap.                                                   *)
Accepted == pts # <<>> /\ (bm.title # "" \/ bm.artist # "" \/ bm.creator # "")

InsertObject(os, o) ==
  LET k == Cardinality({i \in 1..Len(os) : os[i].time \preceq o.time})
  IN SubSeq(os, 1, k) \o <<o>> \o SubSeq(os, k + 1, Len(os))
Ordered == FoldLeft(InsertObject, <<>>, objs)

(* Combo numbering: a fold over the objects in time order.                 *)
ComboStart == [os |-> <<>>, number |-> 1, set |-> 0, colour |-> 0, after |-> FALSE]
ComboStep(st, o) ==
  LET starts == o.kind # "spinner" /\ (o.nc \/ st.after)
      number == IF starts THEN 1 ELSE st.number
      set    == IF starts THEN st.set + 1 ELSE st.set
      colour == IF starts THEN st.colour + o.offset + 1 ELSE st.colour
  IN [ os     |-> Append(st.os, [kind |-> o.kind, nc |-> (o.nc \/ starts), id |-> Len(st.os),
                                 number |-> number, set |-> set, colour |-> colour]),
       number |-> number + 1, set |-> set, colour |-> colour,
       after  |-> IF o.kind = "spinner" THEN TRUE ELSE IF starts THEN FALSE ELSE st.after ]
Combos(os) == FoldLeft(ComboStep, ComboStart, os).os
=============================================================================
