---------------------------- MODULE TraceBeatmap ----------------------------
(* Recorded parses: the lines of a file, then what the code made of it.    *)
EXTENDS Beatmap, Conf
CONSTANT Focus            \* the property whose observations are compared
VARIABLES c, l
vars == <<section, bm, pts, objs, c, l>>
Ev == Cases[c].ev

Init == BeatmapInit /\ c \in 1..NCases /\ l = 0
TrLine   == l < Len(Ev) /\ Ev[l+1].op = "line" /\ ReadLine(Ev[l+1].line) /\ l' = l + 1 /\ UNCHANGED c
TrFinish == l < Len(Ev) /\ Ev[l+1].op = "finish" /\ UNCHANGED <<bvars, c>> /\ l' = l + 1
Done     == l = Len(Ev) /\ UNCHANGED vars
Next == TrLine \/ TrFinish \/ Done

Num(f, exp, got) == Near(f, exp, got, D("1e-12"), Zero)

Outcome(o) == Same("rejected", ~Accepted, o.err) /\ Same("no beatmap", ~Accepted, o.nil)

DiffKeys(o) ==
  /\ Num("health", bm.hp, o.hp) /\ Num("circle size", bm.cs, o.cs)
  /\ Num("overall difficulty", bm.od, o.od) /\ Num("approach rate", bm.ar, o.ar)

Settings(o) ==
  /\ Same("version", bm.version, o.version) /\ Same("Title", bm.title, o.title)
  /\ Same("TitleUnicode", bm.titleU, o.titleU) /\ Same("Artist", bm.artist, o.artist)
  /\ Same("ArtistUnicode", bm.artistU, o.artistU) /\ Same("Creator", bm.creator, o.creator)
  /\ Same("difficulty name", bm.diffname, o.diffname) /\ Same("Source", bm.source, o.source)
  /\ Same("Tags", bm.tags, o.tags) /\ Same("map id", bm.mapID, o.mapID)
  /\ Same("set id", bm.setID, o.setID) /\ Same("mode", bm.mode, o.mode)
  /\ Same("audio", bm.audio, o.audio) /\ Same("preview", bm.preview, o.preview)
  /\ Same("background", bm.bg, o.bg) /\ Num("stack leniency", bm.leniency, o.leniency)
  /\ Num("slider multiplier", bm.mult, o.mult) /\ Num("slider multiplier of the timings", bm.mult, o.tmult)
  /\ Num("tick rate", bm.tickRate, o.tickRate)
  /\ DiffKeys(o)
  /\ Same("number of breaks", Len(bm.pauses), Len(o.pauses))
  /\ \A i \in 1..Len(bm.pauses) : Num("break start", bm.pauses[i][1], o.pauses[i][1])
                                  /\ Num("break end", bm.pauses[i][2], o.pauses[i][2])
                                  /\ Num("break length", bm.pauses[i][2] -- bm.pauses[i][1], o.pauses[i][3])

(* Which objects there are, of which kind and with how many slides.        *)
Shapes(o) ==
  LET os == Ordered IN
  /\ Same("number of objects", Len(os), Len(o.objs))
  /\ \A i \in 1..Len(os) : /\ Same(<<"kind of object", i>>, os[i].kind, o.objs[i].kind)
                           /\ Same(<<"slides of object", i>>, os[i].slides, o.objs[i].slides)

(* The same without order, which non-numeric times leave open.             *)
Bag(os) == LET k(i) == <<os[i].kind, os[i].slides>>
           IN [x \in {k(i) : i \in 1..Len(os)} |-> Cardinality({i \in 1..Len(os) : k(i) = x})]
Kinds(o) == Same("objects by kind and slides", Bag(objs), Bag(o.objs))

Objects(o) ==
  LET os == Ordered IN
  /\ Shapes(o)
  /\ \A i \in 1..Len(os) :
       LET x == os[i] y == o.objs[i] IN
       /\ Num(<<"x of object", i>>, x.pos[1], y.pos[1]) /\ Num(<<"y of object", i>>, x.pos[2], y.pos[2])
       /\ Num(<<"time of object", i>>, x.time, y.time)
       /\ (x.kind # "slider") => Num(<<"end of object", i>>, x.end, y.end)
       /\ Same(<<"sounds of object", i>>, x.sounds, y.sounds)
       /\ Same(<<"colour offset of object", i>>, x.offset, y.offset)
       /\ Same(<<"id of object", i>>, i - 1, y.id)
  /\ Same("circles", bm.circles, o.circles) /\ Same("sliders", bm.sliders, o.sliders)
  /\ Same("spinners", bm.spinners, o.spinners) /\ Num("length", bm.length, o.length)

ComboNumbers(o) ==
  LET cs == Combos(Ordered) IN
  /\ Same("number of objects", Len(cs), Len(o.objs))
  /\ \A i \in 1..Len(cs) :
       /\ Same(<<"new combo", i>>, cs[i].nc, o.objs[i].nc)
       /\ Same(<<"combo number", i>>, cs[i].number, o.objs[i].number)
       /\ Same(<<"combo set", i>>, cs[i].set, o.objs[i].set)
       /\ Same(<<"colour set", i>>, cs[i].colour, o.objs[i].colour)

Observed(o) ==
  /\ (Focus # "C03") => Same("rejected", ~Accepted, o.err)
  /\ CASE Focus = "C03" -> Outcome(o) /\ (Accepted => Kinds(o))
       [] Focus = "C04" -> Accepted => Settings(o)
       [] Focus = "C05" -> Accepted => DiffKeys(o)
       [] Focus = "C06" -> Accepted => Objects(o)
       [] Focus = "C07" -> Accepted => ComboNumbers(o)
Conforms == StatusOk(Cases[c]) /\ ((l > 0 /\ Ev[l].op = "finish") => Observed(Ev[l].obs))
=============================================================================
