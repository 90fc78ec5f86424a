import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=obs or []
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title)); P.append(d)

p("C01","Encoding, line ending and read chunking never change the parsed beatmap",
 "A beatmap text parses to the same beatmap whether it is encoded as UTF-8, UTF-8 with a byte-order mark, or UTF-16 (either byte order) with a byte-order mark, whether its lines end in LF or CRLF, and whether or not the last line is terminated. It also makes no difference whether it is passed as bytes or through a reader, nor how that reader splits the data over its reads, including one-byte reads, empty reads and end-of-file reported together with the last data.",
 ["inputs","schedules"],"all well-formed texts (including characters outside ASCII and outside the basic plane) x encodings x line endings x every way a reader may split the bytes",
 "The tests parse one file in UTF-8 and one in UTF-16, each from an *os.File that returns full buffers; no other encoding, split or line ending is read.",
 ["files/utf.go","beatmap/parser.go"],[("byte-order-mark detection","files/utf.go NewUnicodeReader"),("line scanner","files/utf.go NewScannerBuf"),("byte entry point","beatmap/parser.go ParseFromByte")],
 [("decoder","encoding chosen by the first bytes, plus bytes of an incomplete character","files/utf.go"),("line buffer","characters since the last line end","files/utf.go NewScannerBuf")],
 ["beatmap.ParseFromReader","beatmap.ParseFromByte"])

p("C02","A failing read makes parsing fail instead of yielding a truncated beatmap",
 "If the reader reports an error other than end-of-file at any point, or a line exceeds the parser's line-length limit, parsing returns an error and no beatmap, whatever had been read before. If the reader delivers all its data and then end-of-file, no such error is reported.",
 ["fault_sequences","inputs"],"every byte position at which a read can fail x error returned with or without data x every text",
 "No test uses a failing reader; the outcome depends on the position of the failure.",
 ["beatmap/parser.go","files/utf.go"],[("error check after the scan loop","beatmap/parser.go ParseFromReader"),("10 MiB line limit","files/utf.go NewScannerBuf")],
 [("reader outcome","running / ended / failed","beatmap/parser.go ParseFromReader")],["beatmap.ParseFromReader"])

p("C03","Parsing accepts exactly real beatmaps and survives malformed lines",
 "Parsing returns a beatmap when the text has at least one timing-point line and a non-empty title, artist or creator, and otherwise an error and no beatmap. Lines that are cut short, have missing, extra or non-numeric fields, or belong to unknown sections never make it panic or fail to terminate; a hit-object line lacking the fields its type needs is skipped, and a slider declaring fewer than one slide counts as one slide.",
 ["inputs"],"all sequences of well-formed, truncated, over-long, non-numeric and unknown lines in any section order",
 "The tests parse three well-formed files; no malformed or rejected file is parsed.",
 ["beatmap/parser.go","beatmap/beatmap.go","beatmap/pause.go","beatmap/objects/util.go","beatmap/objects/slider.go","beatmap/objects/spinner.go"],
 [("acceptance test","beatmap/parser.go ParseFromReader"),("field-count guards","beatmap/parser.go, beatmap/objects")],
 [("counter","timing-point lines seen","beatmap/parser.go ParseFromReader")],["beatmap.ParseFromByte"])

p("C04","Every recognised key or event line sets its own field and nothing else does",
 "Each recognised key in the General, Metadata and Difficulty sections and each background or break line in Events sets exactly the beatmap field it names to the value written (text after the first colon, surrounding whitespace removed), the last occurrence winning, and breaks accumulating in order. Unknown keys, unknown sections, comments, blank lines and keys placed in another section change nothing, and absent keys keep their defaults (5 for the four difficulty settings, 0.7 stack leniency, 1.4 slider multiplier, 1 tick rate). The file format number is taken from the header line.",
 ["inputs","histories"],"all sequences of lines: sections in any order and repeated, keys known or unknown, in or out of their section, duplicated, with any whitespace and with colons, brackets or slashes in values",
 "The tests compare four metadata fields of one file; the fields of other sections, duplicates, misplaced keys and defaults are never looked at.",
 ["beatmap/parser.go","beatmap/beatmap.go","beatmap/pause.go"],[("section switch","beatmap/parser.go ParseFromReader, getSection"),("key switches","beatmap/parser.go parseGeneral, parseMetadata, parseDifficulty, parseEvents"),("tokenizer","beatmap/parser.go tokenizeN")],
 [("currentSection","section the next line belongs to","beatmap/parser.go ParseFromReader")],["beatmap.BeatMap fields after each prefix of the file"])

p("C05","Difficulty settings are clamped and approach rate falls back in any order",
 "Health, circle size, overall difficulty and approach rate read from a file are the declared values limited to 0..10. Approach rate is the declared one when the file declares it anywhere in the section, before or after the overall difficulty; when it declares only an overall difficulty, approach rate equals that overall difficulty.",
 ["inputs","histories"],"all orders, repetitions and omissions of the difficulty keys x all values, in and out of range",
 "Both test files declare all keys once, in the same order and in range.",
 ["beatmap/parser.go","beatmap/difficulty/difficulty.go"],[("approach-rate fallback","beatmap/parser.go parseDifficulty"),("clamp","math/mutils/utils.go ClampF64")],
 [("arSpecified","an approach-rate line has been read","beatmap/beatmap.go")],["BeatMap.Difficulty getters"])

p("C06","Hit-object lines become typed, time-ordered, numbered objects",
 "Every complete hit-object line yields one object of the type its flags select (circle before spinner before slider; any other type yields none) with the line's position, time, hit sounds (one per slider edge, edges without their own sound taking the base sound), colour offset and, for spinners, end time. The objects are ordered by start time with file order kept among equal times, and their ids are 0,1,2,... in that order. The circle, slider and spinner totals count the lines of each type (mania hold lines count as sliders), and the length is the largest object time, a spinner or hold counting with its end.",
 ["inputs"],"all sequences of hit-object lines: any type flags, any time order including ties, any extra fields",
 "The two test files are already sorted, have no ties, holds or unusual flags, and the tests look only at the final star rating.",
 ["beatmap/parser.go","beatmap/objects/hitobject.go","beatmap/objects/util.go","beatmap/objects/baseobject.go","beatmap/objects/slider.go","beatmap/objects/spinner.go","beatmap/objects/circle.go"],
 [("type dispatch","beatmap/objects/util.go CreateObject"),("counting","beatmap/parser.go ParseFromReader"),("stable sort","beatmap/parser.go ParseFromReader")],
 [("HitObjects","objects created so far","beatmap/beatmap.go")],["BeatMap.HitObjects","BeatMap.Circles/Sliders/Spinners/Length"])

p("C07","Combo numbering follows new-combo flags and spinners",
 "In time order, an object that is not a spinner starts a new combo when it carries the new-combo flag or is the first non-spinner after a spinner; it then gets combo number 1, the combo set advances by one and the colour set by one plus its colour offset. Every other object continues the combo with the next number and unchanged sets. Starting a combo after a spinner marks the object as new combo; spinners never start one.",
 ["inputs","histories"],"all sequences of object types, flags and colour offsets, including spinners first, last and in a row",
 "No test reads a combo number or set.",
 ["beatmap/parser.go","beatmap/objects/hitobject.go"],[("combo loop","beatmap/parser.go ParseFromReader")],
 [("comboNumber, comboSet, comboSetHax, forceNewCombo","running combo state","beatmap/parser.go ParseFromReader")],["HitObject.ComboNumber, ComboSet, ComboSetHax, NewCombo"])

p("C08","The active timing point and its derived speeds are right at every instant",
 "At any time the active timing point is the last one at or before it (file order deciding ties, the earliest point before the first), and the active uninherited point likewise among points that are not inherited; an inherited point, unless it is the earliest, keeps the base beat length of the point before it. The speed ratio is 1 for non-negative or NaN beat lengths and otherwise minus the beat length limited to 10..1000, over 100; beat length, slider velocity, tick distance and scoring distance follow from it and the slider multiplier and tick rate. Omitted trailing fields take their documented defaults, and the map's lowest and highest BPM range over all points with a non-negative beat length.",
 ["inputs","histories"],"all sequences of timing lines (unsorted, tied, fractional times, inherited first, 2 to 8 fields) x all lookup times",
 "Only two files' points are used, always sorted, and only through slider durations.",
 ["beatmap/timing/timing.go","beatmap/beatmap.go"],[("stable sort and inheritance","beatmap/timing/timing.go FinalizePoints"),("binary search","beatmap/timing/timing.go GetPointAt, GetOriginalPointAt"),("ratio and velocity","beatmap/timing/timing.go"),("field defaults","beatmap/beatmap.go ParsePoint")],
 [("points, originalPoints","all points; uninherited points","beatmap/timing/timing.go Timings")],["Timings.GetPointAt, GetOriginalPointAt, GetVelocity, GetTickDistance, GetSliderTimeP"])

p("C09","Slider paths trace their control points and have exactly the declared length",
 "A slider path starts at its head and follows the curve its type letter selects through its control points: straight segments, the circular arc through three points (straight when collinear, Bezier for more than three), Bezier pieces split at doubled points, or Catmull-Rom splines. The path is cut or its last segment extended so that its length equals the declared length whenever the curve is not degenerate. Positions are parametrised by arc length: fraction t of the path is the point at t times the length, with t limited to 0..1.",
 ["inputs"],"all control-point lists (repeated points, collinear, tiny arcs, up to a dozen points) x types x declared lengths shorter and longer than the curve x fractions",
 "Only the curve types and lengths of two modern maps are exercised (no Catmull, hardly any degenerate shape) and only through the star rating.",
 ["math/curves/multicurve.go","math/curves/approximation.go","math/curves/bezierapproximator.go","math/curves/cirarc.go","math/curves/catmull.go","math/curves/linear.go"],
 [("curve dispatch and red anchors","math/curves/multicurve.go processBezier, processPerfect, processLinear, processCatmull"),("length adjustment","math/curves/multicurve.go NewMultiCurveT"),("arc-length lookup","math/curves/multicurve.go PointAt")],
 [("lines, sections, length","polyline and cumulative lengths","math/curves/multicurve.go MultiCurve")],["curves.NewMultiCurveT, PointAt, GetLength","Slider.GetPositionAt"])

p("C10","Slider ticks, repeats and end occur exactly when the timing prescribes",
 "A slider's duration is its path length times its slides over the velocity of the timing point active at its start. Its scoring points are, for every slide, the ticks at each multiple of the tick distance along the path (never more than the declared length apart, none within 10 ms of the path's end, mirrored on returning slides, none at all when the beat length is NaN), one repeat at the end of every slide but the last, and one tail at the later of the slider's midpoint and 36 ms before its end. They are listed in time order and only repeats are marked as such.",
 ["inputs"],"all slider lengths, slide counts, velocities, tick rates and timing points, including very short, NaN-timed and many-slide sliders",
 "The sliders of two maps are used and only their influence on the star rating is seen; NaN beat lengths and most repeat counts never occur.",
 ["beatmap/objects/slider.go","beatmap/timing/timing.go"],[("score point generation","beatmap/objects/slider.go SetTiming")],
 [("ScorePoints","scoring points of the slider","beatmap/objects/slider.go Slider"),("spanDuration","time of one slide","beatmap/objects/slider.go Slider")],["Slider.ScorePoints, GetEndTime"])

p("C11","A slider's position over time goes back and forth along its path",
 "At any time the slider's position is the path point reached by travelling at constant speed from its head, reversing at every slide, and staying at the head before the start and at the final position after the end; a slider without duration stays at its head. Its end position is the position at its end time: the path's end for an odd number of slides, the head for an even one. Circles and spinners stay at their position.",
 ["inputs"],"all sliders x all times before, during (each slide, each turning point) and after",
 "Positions over time are seen only through the star rating of two maps.",
 ["beatmap/objects/slider.go","beatmap/objects/hitobject.go","math/curves/multicurve.go"],[("ping-pong progress","beatmap/objects/slider.go PositionAt"),("end position","beatmap/objects/slider.go SetTiming")],
 None,["IHitObject.GetPositionAt, GetEndPosition"])

p("C12","Stack heights follow osu!'s stacking rules for both file generations",
 "For every beatmap, each object's stack height under no mod, Easy and Hard Rock is the one osu!'s stacking algorithm gives: for format 6 and later the reverse pass (stacks under circles, sliders, and below slider ends, spinners skipped), for older formats the forward pass. The time window is the preempt time under that mod times the stack leniency, rounded down, positions closer than 3 units count as equal, spinners always have height 0, and the three heights are independent of each other.",
 ["inputs","configurations"],"all object sequences (types, positions near and far, time gaps inside and outside the window, slider ends) x format versions x leniencies x approach rates",
 "Only version-14 maps are parsed and stack heights are never inspected; the old algorithm and the Easy heights never influence any test.",
 ["beatmap/stackleniency.go","beatmap/objects/hitobject.go"],[("new stacking","beatmap/stackleniency.go applyNewStacking"),("old stacking","beatmap/stackleniency.go applyOldStacking"),("per-mod slots","beatmap/objects/hitobject.go GetStackIndex, SetStackIndex")],
 [("StackIndex, StackIndexEZ, StackIndexHR","stack height per mod","beatmap/objects/hitobject.go")],["IHitObject.GetStackIndex"])

p("C13","Stacked positions shift by stack height and mirror under Hard Rock",
 "The position an object has under a mod selection is its own position, mirrored vertically in the 384-unit playfield under Hard Rock, then moved left and up by its stack height under that selection times a tenth of the circle radius under that selection. This holds for start position, end position and position at any time alike; spinners are never shifted, and Hard Rock takes precedence over Easy while all other mods leave positions alone.",
 ["inputs","configurations"],"all objects x all mod sets x the start, end and intermediate times",
 "Positions are seen only through two maps' star ratings under none, DT and HR.",
 ["beatmap/objects/hitobject.go","beatmap/stackleniency.go"],[("position modification","beatmap/objects/hitobject.go modifyPosition"),("offset per mod","beatmap/stackleniency.go processStacking")],
 [("StackOffset, StackOffsetEZ, StackOffsetHR","stack displacement per mod","beatmap/objects/hitobject.go")],["IHitObject.GetStacked*PositionMod"])

p("C14","Derived difficulty depends only on the current settings, mods and speed",
 "After any sequence of changes to health, circle size, overall difficulty, approach rate, mods and custom speed, the circle radius, preempt time, hit windows, spinner ratio, effective health, speed factor and displayed AR and OD are those of a fresh setting with the same current values, and the base settings read back as last set. They follow osu!'s rules: Hard Rock multiplies by 1.4 (circle size 1.3) up to 10, Easy halves, each quantity is piecewise linear around 5, Double Time divides times by 1.5 and Half Time by 0.75, custom speed on top.",
 ["histories","inputs"],"all histories of setter calls x all setting values x all mod sets x speeds",
 "Tests call SetMods once on a parsed map with three mod selections.",
 ["beatmap/difficulty/difficulty.go"],[("recalculation after every change","beatmap/difficulty/difficulty.go calculate"),("rate conversions","beatmap/difficulty/difficulty.go DifficultyRate, DiffFromRate")],
 [("hp, cs, od, ar, Mods, CustomSpeed","base settings","beatmap/difficulty/difficulty.go Difficulty")],["Difficulty fields and getters"])

p("C15","Mod selections survive text round trips and obey the mod rules",
 "Reading a string of two-letter mod acronyms selects exactly the named mods plus those implied (Nightcore implies Double Time, Perfect implies Sudden Death, Daycore implies Half Time), ignoring unknown acronyms and never failing. Writing a selection names every selected mod in order except those implied by a more specific one, in short and in full form, so that writing and reading back returns the selection with implied mods added. Compatibility and the score multiplier depend only on which mods are selected, as osu! defines them.",
 ["inputs"],"all subsets of the 32 mods and all acronym strings, valid or not, of any length",
 "No test reads, writes, combines or scores mods.",
 ["beatmap/difficulty/mods.go"],[("acronym tables","beatmap/difficulty/mods.go modsString, modsStringFull"),("implied mods","beatmap/difficulty/mods.go ParseMods, String, StringFull"),("rules","beatmap/difficulty/mods.go Compatible, GetScoreMultiplier")],
 None,["difficulty.ParseMods, Modifier.String, StringFull, Compatible, GetScoreMultiplier"])

p("C16","Movement between successive objects is measured as the algorithm defines",
 "For every object after the first, the times, jump distance, movement distance and time, slider travel distance and time, and angle handed to the skills are those of osu!'s preprocessing: times divided by the speed factor, strain time at least 25 ms, distances scaled by circle radius with the small-circle bonus, measured from where the cursor is left by the previous object, angle from the last three objects. Distances and angle are absent next to a spinner, the angle also for the second object and when the object two before is a spinner.",
 ["inputs","configurations"],"all object sequences with circles, sliders and spinners in every position x difficulty settings x mods x speeds",
 "Only the sums over two whole maps are compared, to four digits, under three mod selections.",
 ["performance/osu/preprocessing/object.go","performance/osu/preprocessing/objects.go"],[("distances and angle","performance/osu/preprocessing/object.go setDistances"),("sliding window over objects","performance/osu/preprocessing/objects.go CreateDifficultyObjects")],
 None,["preprocessing.CreateDifficultyObjects"])

p("C17","Slider travel is the laziest cursor path through the slider's points",
 "For every slider the travel time runs to its last scoring point, and travel distance and cursor end position result from visiting the scoring points in order, moving the cursor only as far as needed to come within the follow radius (the tighter circle radius at repeats, and the nearer of lazy and true end for the last point), in units of the circle radius, with the repeat bonus applied to the distance.",
 ["inputs","configurations"],"all slider shapes, repeat counts, tick layouts, circle sizes and mods",
 "Seen only through the aim rating of two maps.",
 ["performance/osu/preprocessing/lazyslider.go"],[("cursor simulation","performance/osu/preprocessing/lazyslider.go calculateEndPosition")],
 [("cursor position","lazy cursor while following the slider","performance/osu/preprocessing/lazyslider.go")],["LazySlider.LazyEndPosition, LazyTravelDistance, LazyTravelTime"])

p("C18","Strain is collected per 400 ms section with decay and a bounded history",
 "For every skill and object sequence, the strain decays exponentially with elapsed time and grows by each object's contribution, and every 400 ms section of the map, empty ones included, has exactly one peak: the highest strain in it, starting from the decayed strain at its beginning. Peaks are reported in order, the unfinished last section included, and asking for peaks or for the difficulty value changes nothing. Each object sees only the skill's fixed number of most recent objects (2 for aim, 32 for speed, 10 for flashlight).",
 ["inputs","histories"],"all sequences of objects, including long gaps, objects on section borders and simultaneous objects x all skills",
 "The tests compare final ratings only; section borders, gaps and history lengths are not observed.",
 ["performance/osu/skills/skill.go","performance/osu/skills/speed.go"],[("section loop","performance/osu/skills/skill.go processInternal"),("history window","performance/osu/skills/skill.go Process, GetPrevious")],
 [("currentSectionPeak, currentSectionEnd, strainPeaks, CurrentStrain, Previous","section state","performance/osu/skills/skill.go Skill")],["Skill.Process, CurrentStrain, GetCurrentStrainPeaks"])

p("C19","Aim strain of every object follows the aim rules",
 "For every object the aim contribution, with and without sliders, is the one osu!'s aim rules give from the measured movement of the current and the two previous objects: nothing for the first two measured objects, spinners and objects right after a spinner; otherwise velocity, wide- or acute-angle bonus for steady rhythm, velocity-change bonus and, when sliders count, slider velocity.",
 ["inputs","configurations"],"all triples of measured movements (any type mix, rhythm, angle, distance), with and without sliders",
 "Two maps reach the common cases only, and their sums hide individual contributions.",
 ["performance/osu/skills/aim.go"],[("aim strain","performance/osu/skills/aim.go aimStrainValue")],None,["skills.NewAimSkill(...).Process, CurrentStrain"])

p("C20","Speed strain and rhythm bonus of every object follow the speed rules",
 "For every object the speed contribution (tap interval limited by the hit window, speed and distance bonus) and the rhythm multiplier (over the islands of equal intervals in the remembered history within 5 s, with the penalties for sliders, repeated islands and unclear speed-ups) are the ones osu!'s speed rules give. Spinners contribute nothing and reset the rhythm.",
 ["inputs","histories"],"all interval histories up to the window, object types, hit windows and speeds",
 "Two maps reach the common rhythms only, and their sums hide individual contributions.",
 ["performance/osu/skills/speed.go"],[("speed strain","performance/osu/skills/speed.go speedStrainValue"),("rhythm","performance/osu/skills/speed.go speedStrainBonus")],
 [("CurrentRhythm","rhythm multiplier of the last object","performance/osu/skills/speed.go SpeedSkill")],["skills.NewSpeedSkill(...).Process, CurrentStrain, CurrentRhythm"])

p("C21","Flashlight strain of every object follows the flashlight rules",
 "For every object the flashlight contribution is the one osu!'s flashlight rules give from the distances to the up to ten remembered objects: farther and more recent objects weigh more, objects stacked on their predecessor or close to the current object weigh less, spinners are skipped and contribute nothing themselves.",
 ["inputs","histories"],"all object histories up to the window, distances, circle sizes and mods",
 "No test enables the Flashlight mod.",
 ["performance/osu/skills/flashlight.go"],[("flashlight strain","performance/osu/skills/flashlight.go flashlightStrainValue")],None,["skills.NewFlashlightSkill(...).Process, CurrentStrain"])

p("C22","Star ratings combine the section peaks and skills as osu! defines",
 "Each skill's difficulty is the decreasingly weighted sum of its section peaks in descending order after its highest peaks have been reduced, and the aim, speed, flashlight and total star ratings and the slider factor follow from the skill difficulties by osu!'s formulas. Relax removes the speed rating, Flashlight is rated only when selected, and every reported strain peak's total is the total star rating of that section's peaks.",
 ["inputs","configurations"],"all peak lists (shorter and longer than the reduced count, with ties and zeros) x mods x settings",
 "Two maps under none, DT and HR are compared; Relax, Flashlight, short maps and peak totals never occur.",
 ["performance/osu/difficulty.go","performance/osu/skills/skill.go"],[("weighted sum","performance/osu/skills/skill.go DifficultyValue"),("star formula","performance/osu/difficulty.go getStarsFromRawValues"),("peaks","performance/osu/difficulty.go getPeaks")],None,
 ["osu.CalculateSingle, CalculateStrainPeaks","Skill.DifficultyValue"])

p("C23","Reported object counts and maximum combo are exact",
 "For every object sequence, including the empty one, the reported circles, sliders, spinners and objects are the numbers of each, and the maximum combo is one per object plus one per slider scoring point. Mods and difficulty settings never change them.",
 ["inputs","configurations"],"all object sequences x mods x settings",
 "No test compares the counts or the combo.",
 ["performance/osu/difficulty.go"],[("counting","performance/osu/difficulty.go addObjectToAttribs")],None,["osu.Attributes.ObjectCount, Circles, Sliders, Spinners, MaxCombo"])

p("C24","Step, single and peak calculations agree on every prefix",
 "For every object sequence, entry i of the step-by-step calculation equals the single calculation over the first i+1 objects, there is one entry per object, and the last entry equals the whole map's single calculation. The variants that also return strain peaks return the same ratings and the same peaks as the calculation of peaks alone.",
 ["inputs","histories"],"all object sequences (also empty and one object), all prefixes, all mods and settings",
 "No test runs a step or peak calculation (only an unexecuted benchmark does).",
 ["performance/osu/difficulty.go"],[("step loop","performance/osu/difficulty.go calculateStep"),("single loop","performance/osu/difficulty.go calculateSingle"),("peaks loop","performance/osu/difficulty.go CalculateStrainPeaks")],None,
 ["osu.CalculateSingle, CalculateStep, CalculateSingleWithPeaks, CalculateStepWithPeaks, CalculateStrainPeaks"])

p("C25","Calculations are pure: any history or concurrency gives the same answers",
 "Whatever calculations were done before, in whatever order, under whatever mods, and however many run at the same time on the same beatmap, each calculation returns what it returns on a freshly parsed beatmap, and it leaves the beatmap and the difficulty settings as they were. Concurrent calculations and concurrent parses are free of data races, and a reused score calculator returns the same results as a new one.",
 ["histories","schedules"],"all sequences and interleavings of parse, rating, peak and score calls with differing mods, settings and scores on shared beatmaps",
 "Each test parses its own map and calculates once; nothing is repeated, mixed or run concurrently.",
 ["performance/osu/difficulty.go","performance/osu/pp.go","performance/osu/preprocessing/lazyslider.go","performance/osu/preprocessing/objects.go","beatmap/parser.go","math/curves/multicurve.go"],
 [("per-call skills and difficulty objects","performance/osu/difficulty.go"),("slider decoration instead of mutation","performance/osu/preprocessing/lazyslider.go"),("all fields rewritten per call","performance/osu/pp.go PPv2x")],
 [("beatmap","shared, read-only after parsing","beatmap/beatmap.go"),("PPv2","reusable calculator","performance/osu/pp.go")],["all public calculation entry points"])

p("C26","A score's combo, hit counts, accuracy and misses are completed correctly",
 "A negative combo means the full combo and a negative 300 count means all objects not otherwise counted; the results equal those of giving these numbers explicitly. Misses are never counted fewer than given, and slider breaks are inferred from a combo below the full combo less a tenth of the sliders, at most the number of hits. Accuracy is the weighted hit ratio between 0 and 1, Score V2 rates accuracy over all objects instead of circles only, Relax counts 100s and 50s as misses, and a score without hits yields finite values.",
 ["inputs"],"all scores (combo, 300s, 100s, 50s, misses, defaulted or not, partial plays) x map attributes x mods",
 "Only perfect plays are scored, once with defaults and twice without.",
 ["performance/osu/pp.go"],[("defaults and totals","performance/osu/pp.go PPv2x"),("miss inference","performance/osu/pp.go calculateEffectiveMissCount")],
 [("scoreMaxCombo, countGreat/Ok/Meh/Miss, effectiveMissCount, accuracy","normalised score","performance/osu/pp.go PPv2")],["PPv2.PPv2x results"])

p("C27","Performance points equal osu!'s formulas for every score and mod selection",
 "The aim, speed, accuracy and flashlight performance values and the total are those of osu!'s performance formulas (revision of this commit) for the map's attributes, the score and the mods: length, miss, combo, approach-rate, Hidden, slider-drop, accuracy and overall-difficulty factors, Touch Device, No Fail, Spun Out, Relax and Flashlight adjustments. Values a mod rules out (accuracy under Relax, flashlight without Flashlight) are zero.",
 ["inputs","configurations"],"all map attributes x scores x mods x effective AR and OD",
 "Three perfect scores on one map are compared; misses, 50s, combo loss and most mods never occur.",
 ["performance/osu/pp.go"],[("aim, speed, accuracy, flashlight values","performance/osu/pp.go compute*Value"),("total and multipliers","performance/osu/pp.go PPv2x")],None,["PPv2.Results"])

p("C28","Performance points are finite, non-negative and never reward worse play",
 "For every full play of a map (hits adding up to the object count, combo between 0 and the maximum) all performance values are finite and not negative. Changing one 300 into a 100, a 50 or a miss, or lowering the combo, never increases any performance value or the total.",
 ["inputs","histories"],"all chains of such score downgrades x map attributes x mods",
 "No test scores an imperfect play, let alone compares two.",
 ["performance/osu/pp.go"],[("monotone factors","performance/osu/pp.go")],None,["PPv2.Results along downgrade chains"])

p("C29","Stand-alone curve and vector primitives agree with their definitions",
 "For any control points, a Bezier curve evaluates to the Bernstein-weighted mean of its control points, a circular arc stays on the circle through its three points from first to last passing the second, a Catmull-Rom segment runs from its second to its third point, and a line interpolates its end points; each starts and ends where it should and reports a length matching the traced curve. Binomial coefficients are exact, and plane-vector and scalar helpers (lengths, angles, rotation, interpolation, limits, rounding) follow their definitions.",
 ["inputs"],"all control points, degrees up to 12 and parameters 0..1",
 "No test evaluates a curve; the Bezier type is not even reached by the tests.",
 ["math/curves/bezier.go","math/curves/cirarc.go","math/curves/catmull.go","math/curves/linear.go","math/vector/vector2f.go"],[("Bernstein evaluation","math/curves/bezier.go"),("arc","math/curves/cirarc.go"),("spline","math/curves/catmull.go")],None,["curves.Bezier, CirArc, Catmull, Linear; curves.BinomialCoefficient"])

p("C30","Star ratings and finished sections never fall as a map grows",
 "For every map, mods and settings, adding the next object never lowers the aim, speed, flashlight or total star rating, whether asked step by step or for growing prefixes. The strain peaks of sections that are already finished stay exactly as they are, the unfinished section's peak can only rise, and sections never get fewer.",
 ["inputs","histories","configurations"],"all object sequences and all their prefixes, mods, settings and speeds",
 "The tests rate whole maps once; none compares a map with its own prefix.",
 ["performance/osu/difficulty.go","performance/osu/skills/skill.go","performance/osu/skills/speed.go"],[("section peaks","performance/osu/skills/skill.go processInternal, DifficultyValue"),("step-by-step rating","performance/osu/difficulty.go calculateStep")],
 [("finished peaks","strainPeaks","performance/osu/skills/skill.go Skill")],["osu.CalculateStep","osu.CalculateSingleWithPeaks"])

p("C31","Mods change ratings and points only through what they change in play",
 "Two mod selections with the same Hard Rock/Easy treatment, the same speed, and the same Relax and Flashlight choice give the same ratings, counts and strain peaks, so dropping all mods outside the difficulty-adjusting ones changes nothing. Double Time equals a custom speed of 1.5 and Half Time one of 0.75, whatever custom speed is set besides. Performance points differ between such selections only if they differ in Hidden, Touch Device, No Fail, Spun Out or Score V2.",
 ["inputs","configurations"],"all maps x pairs of mod selections (all 32 mods) and speeds with equal effect",
 "The tests rate maps under no mod, DT and HR alone; no two selections are compared.",
 ["beatmap/difficulty/mods.go","beatmap/difficulty/difficulty.go","performance/osu/difficulty.go","performance/osu/pp.go","beatmap/objects/hitobject.go"],[("adjusting mods","beatmap/difficulty/mods.go DifficultyAdjustMask"),("mod checks","performance/osu/difficulty.go, performance/osu/pp.go")],None,
 ["osu.CalculateSingleWithPeaks","osu.PPv2","difficulty.DifficultyAdjustMask"])

p("C32","Every accepted beatmap of ordinary size rates and scores to sane values",
 "Any beatmap the parser accepts whose numbers are of ordinary size - with simultaneous, overlapping, disordered or negative-time objects, sliders without length, duration or usable points, unknown curve types, NaN beat lengths, or settings left out - can be rated and scored under every mod selection: the calculation ends, without a panic, and all ratings, strain peaks and performance points are finite and not negative.",
 ["inputs","configurations"],"all accepted texts with degenerate but ordinary-size content x mods x speeds x full plays",
 "The tests rate well-formed ranked maps only.",
 ["beatmap/parser.go","beatmap/beatmap.go","beatmap/objects/slider.go","math/curves/multicurve.go","performance/osu/preprocessing/lazyslider.go","performance/osu/preprocessing/difficultyobject.go","performance/osu/difficulty.go","performance/osu/pp.go"],[("defaults of absent keys","beatmap/beatmap.go NewBeatMap, beatmap/timing/timing.go NewTimings"),("degenerate paths","math/curves/multicurve.go PointAt, NewMultiCurveT"),("sliders without duration","beatmap/objects/slider.go SetTiming, PositionAt")],None,
 ["beatmap.ParseFromByte","osu.CalculateSingleWithPeaks","osu.PPv2"])

p("C33","Whole ratings follow from the objects as osu!'s pipeline composes them",
 "After each object of a map, the counts and the aim, speed, flashlight, slider-factor and total ratings are those obtained by following sliders lazily, measuring each object from its predecessors, adding its contributions to the skills section by section and combining the section peaks, starting only from the objects as they appear under the mods. The performance points of a play of the map follow from these ratings and counts.",
 ["inputs","configurations","histories"],"all maps x mods x settings x speeds, after every object, and all full plays of them",
 "The tests compare final ratings of three maps under two mod selections; an error that shows only for other objects, intermediate steps or mods is not seen.",
 ["performance/osu/difficulty.go","performance/osu/preprocessing/difficultyobject.go","performance/osu/preprocessing/lazyslider.go","performance/osu/skills/aim.go","performance/osu/skills/speed.go","performance/osu/skills/flashlight.go","performance/osu/skills/skill.go","performance/osu/pp.go"],[("pipeline","performance/osu/difficulty.go calculateStep, calculateSingle")],
 [("rating in progress","objects seen, measured history, strain per skill, counts","performance/osu/difficulty.go calculateStep")],["osu.CalculateStep","osu.CalculateSingle","osu.PPv2"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
