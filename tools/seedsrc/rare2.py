"""More planted bugs that need a rare situation: exact borders, sizes, histories, concurrency."""
_G = {}
exec(open(HERE + "/tools/seedsrc/skills.py").read().split("SEEDS = [")[0], dict(globals(), **_G), _G)
GEN3 = _G["GEN"] if "GEN" in _G else _G["GEN2"]
def k(id, edits, needs, breaks, demo, imports=()):
    return seed(id, edits, needs, breaks, demo, list(set(list(imports) + ["performance/osu/preprocessing"])), GEN3 + "\nvar _ = all\nvar _ = gen\n")
SK = "performance/osu/skills/"
PR = "performance/osu/preprocessing/"
DI = "performance/osu/difficulty.go"
PPF = "performance/osu/pp.go"
def lines(*l): return "b := mp(14, \"\", \"\", \"\", " + ", ".join('"%s"' % x for x in l) + ")\n"
ALL = "all(b, difficulty.Flashlight, difficulty.HardRock, difficulty.DoubleTime|difficulty.Flashlight)"

SEEDS = [
 # ---- C16
 k("c16-reversal", [(PR + "object.go", '''		o.Angle = float64(math32.Abs(math32.Atan2(det, dot)))
''', '''
		if det == 0 { // straight on
			o.Angle = 0
			return
		}

		o.Angle = float64(math32.Abs(math32.Atan2(det, dot)))
''')], "three objects exactly in one line", "an exact turning back is measured as no turn at all",
  lines("100,100,1000,1,0", "200,100,1200,1,0", "300,100,1400,1,0", "200,100,1600,1,0", "300,100,1800,1,0", "200,200,2000,1,0", "200,100,2200,1,0", "200,200,2400,1,0") + ALL),
 k("c16-buzz", [(PR + "object.go", '''		pos = s.LazyEndPosition
''', '''		pos = s.LazyEndPosition

		if len(s.ScorePoints) > 12 { // the cursor rests in the middle
			pos = s.GetStackedStartPositionMod(d.Mods).Add(s.GetStackedEndPositionMod(d.Mods)).Scl(0.5)
		}
''')], "an object after a slider with more than 12 scoring points", "the jump is measured from the middle of the slider",
  lines("100,100,1000,1,0", "200,100,1200,2,0,L|320:100,16,120", "300,300,12000,1,0", "200,100,12300,2,0,L|320:100,3,120", "30,30,14000,1,0", "60,200,14300,1,0") + ALL),
 k("c16-long-pause", [(PR + "object.go", '''	obj.StrainTime = math.Max(obj.DeltaTime, MinDeltaTime)
''', '''	obj.StrainTime = math.Min(math.Max(obj.DeltaTime, MinDeltaTime), 10000)
''')], "a pause of more than ten seconds", "the strain time stops at ten seconds",
  lines("100,100,1000,1,0", "200,100,1200,1,0", "310,100,1400,1,0", "400,100,13600,1,0", "300,150,13800,1,0", "200,200,26000,1,0", "200,100,38200,1,0", "20,200,50400,1,0") +
  '''for _, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, df(b, 0)) {
	fmt.Println(o.DeltaTime, o.StrainTime, o.MovementTime)
}''', ["performance/osu/preprocessing"]),
 k("c16-custom-min", [(PR + "object.go", '''		o.TravelTime = math.Max(lastSlider.LazyTravelTime/o.diff.Speed, MinDeltaTime)
''', '''		o.TravelTime = math.Max(lastSlider.LazyTravelTime, MinDeltaTime) / o.diff.Speed
''')], "a very short slider at another speed", "the shortest travel time is scaled by the speed",
  lines("100,100,1000,1,0", "200,100,1200,2,0,L|210:100,1,6", "300,300,1400,1,0", "200,100,1600,2,0,L|320:100,1,120", "30,30,2000,1,0", "60,200,2300,1,0") +
  '''for _, m := range []difficulty.Modifier{0, difficulty.DoubleTime, difficulty.HalfTime} {
	for _, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, df(b, m)) {
		fmt.Println(o.TravelTime, o.MovementTime)
	}
}''', ["performance/osu/preprocessing"]),
 # ---- C17
 k("c17-many-points", [(PR + "lazyslider.go", '''	for i := 0; i < len(slider.ScorePoints); i++ {
		var currMovementObj = slider.ScorePoints[i]
''', '''	for i := 0; i < len(slider.ScorePoints); i++ {
		if i > 40 && i < len(slider.ScorePoints)-1 {
			continue // nobody follows these any more
		}

		var currMovementObj = slider.ScorePoints[i]
''')], "a slider of more than forty scoring points", "the further ones are not visited",
  lines("100,100,1000,1,0", "20,100,1200,2,0,L|500:100,52,480", "300,300,92000,1,0", "200,100,92300,2,0,L|320:100,3,120", "30,30,94000,1,0", "60,200,94300,1,0") +
  '''for _, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, df(b, 0)) {
	fmt.Printf("%.4g %.4g %.4g\\n", o.TravelTime, o.TravelDistance, o.JumpDistance)
}''', ["performance/osu/preprocessing"]),
 k("c17-huge-circles", [(PR + "lazyslider.go", '''	scalingFactor := NormalizedRadius / slider.diff.CircleRadius''', '''	scalingFactor := NormalizedRadius / math.Min(slider.diff.CircleRadius, 48)''')],
  "circles at the largest size (circle size below about 1.4, or Easy)", "the follow radius is too small",
  '''b := mp(14, "", "HPDrainRate:5\\nCircleSize:2\\nOverallDifficulty:8\\nApproachRate:9\\nSliderMultiplier:1.4\\nSliderTickRate:1", "", "100,100,1000,1,0", "20,100,1200,2,0,L|500:100,2,480", "300,300,5000,1,0", "200,100,5300,2,0,L|320:100,3,120", "30,30,7000,1,0")
for _, m := range []difficulty.Modifier{0, difficulty.Easy, difficulty.HardRock} {
	for _, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, df(b, m)) {
		fmt.Printf("%.4g %.4g %.4g\\n", o.TravelTime, o.TravelDistance, o.JumpDistance)
	}
}''', ["performance/osu/preprocessing"]),
 # ---- C18
 k("c18-gap-cap", [(SK + "skill.go", '''	for startTime > skill.currentSectionEnd {
''', '''	if startTime-skill.currentSectionEnd > 1000*sectionLength {
		// the map goes on after a very long pause
		skill.currentSectionEnd = math.Ceil(startTime/sectionLength)*sectionLength - 1000*sectionLength
	}

	for startTime > skill.currentSectionEnd {
''')], "a pause of more than a thousand sections (seven minutes)", "some of the empty sections have no peak",
  lines("100,100,1000,1,0", "200,100,1200,1,0", "310,100,1400,1,0", "400,100,513600,1,0", "300,150,513800,1,0") + "p := osu.CalculateStrainPeaks(b.HitObjects, df(b, 0))\nfmt.Println(len(p.Aim), len(p.Speed))"),
 k("c18-decay-memo", [(SK + "skill.go", '''	return math.Pow(skill.StrainDecayBase, ms/1000)
''', '''	if ms == skill.lastMs {
		return skill.lastDecay // as steady rhythms repeat
	}

	skill.lastMs, skill.lastDecay = ms, math.Pow(skill.StrainDecayBase, ms/1000)

	return skill.lastDecay
'''), (SK + "skill.go", '''	strainPeaks []float64

	diff''', '''	strainPeaks []float64

	lastMs, lastDecay float64

	diff''')], "an object at the very time of the first object", "the strain is zero as if it had decayed completely",
  lines("100,100,1000,1,0", "200,100,1000,1,0", "310,100,1000,1,0", "400,100,1000,1,0", "300,150,1000,1,0", "100,150,1000,1,0") + "peaks(osu.CalculateStrainPeaks(b.HitObjects, df(b, difficulty.Flashlight)))"),
 # ---- C19
 k("c19-ratio-edge", [(SK + "aim.go", '''osuLastObj.StrainTime) < 1.25*math.Min''', '''osuLastObj.StrainTime) <= 1.25*math.Min''')],
  "a change of rhythm by exactly a quarter (100 ms to 125 ms)", "it counts as steady",
  lines("100,100,1000,1,0", "200,100,1125,1,0", "310,110,1250,1,0", "400,100,1350,1,0", "300,150,1475,1,0", "100,250,1575,1,0", "200,50,1700,1,0") + ALL),
 # ---- C20
 # ---- C21
 k("c21-diagonal", [(SK + "flashlight.go", '''		cumulativeStrainTime += previous.StrainTime
''', '''		jumpDistance = math.Min(jumpDistance, 512) // the width of the playfield
		cumulativeStrainTime += previous.StrainTime
''')], "objects farther apart than the playfield is wide", "their distance is cut to 512",
  lines("10,10,1000,1,0", "510,380,1200,1,0", "10,10,1400,1,0", "510,380,1600,1,0", "100,380,1800,1,0", "510,0,2000,1,0", "0,380,2200,1,0") + ALL),
 k("c21-after-spinner", [(SK + "flashlight.go", '''		stackNerf := math.Min(1.0, (previous.JumpDistance/scalingFactor)/25.0)
''', '''		stackNerf := math.Min(1.0, (previous.JumpDistance/scalingFactor)/25.0)

		if n := s.GetPrevious(i + 1); n != nil {
			if _, ok := n.BaseObject.(*objects.Spinner); ok {
				stackNerf = 1 // stacked on nothing
			}
		}
''')], "a remembered object that follows a spinner", "it weighs in full",
  lines("10,10,1000,1,0", "410,180,1200,1,0", "256,192,1400,12,0,1500", "410,180,1600,1,0", "100,380,1800,1,0", "310,0,2000,1,0", "0,380,2200,1,0") + ALL),
 # ---- C22
 k("c22-small-aim", [(DI, '''	if aimRating > 0.00001 {
''', '''	if aimRating > 0.5 {
''')], "a map that needs next to no aim", "its slider factor is 1",
  lines("100,100,1000,1,0", "110,100,2200,1,0", "100,100,3400,2,0,L|180:100,1,80", "100,100,5500,1,0", "110,110,6700,2,0,L|180:100,1,80", "105,100,7900,1,0") + ALL),
 k("c22-nan-relax", [(DI, '''	if diff.CheckModActive(difficulty.Relax) {
		speedRating = 0.0
	}
''', '''	if diff.CheckModActive(difficulty.Relax) && !diff.CheckModActive(difficulty.Relax2) {
		speedRating = 0.0
	}
''')], "Relax selected together with Autopilot", "the speed rating is kept", "b := mp(14, \"\", \"\", \"\", gen(7, 60, \"ccs\", 200)...)\nall(b, difficulty.Relax|difficulty.Relax2, difficulty.Relax, difficulty.Relax2)"),
 # ---- C23
 k("c23-buzz-combo", [(DI, '''		attr.MaxCombo += len(s.ScorePoints)
''', '''		attr.MaxCombo += len(s.ScorePoints)

		if s.RepeatCount > 255 {
			attr.MaxCombo -= int(s.RepeatCount) - 255 // further slides do not count
		}
''')], "a slider of more than 255 slides", "the further ones are not part of the maximum combo",
  lines("100,100,1000,1,0", "200,100,1200,2,0,L|210:100,300,7", "300,300,14000,1,0") + "show(osu.CalculateSingle(b.HitObjects, df(b, 0)))"),
 # ---- C24
 k("c24-one-object", [(DI, '''	addObjectToAttribs(objects[0], &attr)

	for i, o''', '''	addObjectToAttribs(objects[0], &attr)

	if len(diffObjects) == 0 {
		return attr, aimSkill, speedSkill, flashlightSkill
	}

	for i, o''')], "a map of one object", "its single calculation lacks the slider factor the first step has",
  lines("100,100,1000,1,0", "200,100,1200,1,0") + "show(osu.CalculateSingle(b.HitObjects[:1], df(b, 0)))\nfor _, a := range osu.CalculateStep(b.HitObjects, df(b, 0)) {\n\tshow(a)\n}"),
 k("c24-step-capacity", [(DI, '''	return stars, aimSkill, speedSkill, flashlightSkill
}

// CalculateStep calc''', '''	// entries up to the second object rate alike
	if len(stars) > 2 && stars[1].Total == stars[0].Total {
		stars[1] = stars[0]
		stars[1].ObjectCount++
	}

	return stars, aimSkill, speedSkill, flashlightSkill
}

// CalculateStep calc''')], "the second object adding nothing to the rating", "its counts and combo are those of the first object",
  lines("100,100,1000,1,0", "100,100,1200,2,0,L|180:100,1,80", "300,300,2200,1,0") + "for _, m := range []difficulty.Modifier{0, difficulty.Relax} {\n\tfor _, a := range osu.CalculateStep(b.HitObjects, df(b, m)) {\n\t\tshow(a)\n\t}\n}"),
 # ---- C25
 k("c25-object-buffer", [(PR + "objects.go", '''	objs := make([]objects.IHitObject, 0, len(objsB))

''', '''	objs := objectBuffer[:0]
	defer func() { objectBuffer = objs }()

'''), (PR + "objects.go", '''// CreateDifficultyObjects creates''', '''// objectBuffer is kept from one calculation to the next
var objectBuffer []objects.IHitObject

// CreateDifficultyObjects creates''')], "two calculations at the same time", "they share one buffer of objects", '''
b := mp(14, "", "", "", gen(7, 400, "ccs", 200)...)
c := mp(14, "", "", "", gen(9, 400, "scp", 200)...)
w := osu.CalculateSingle(b.HitObjects, df(b, 0))
v := osu.CalculateSingle(c.HitObjects, df(c, 0))
var wg sync.WaitGroup
var bad int32
for i := 0; i < 16; i++ {
	wg.Add(1)
	go func(i int) {
		defer wg.Done()
		defer func() {
			if recover() != nil {
				atomic.StoreInt32(&bad, 1)
			}
		}()
		for j := 0; j < 150; j++ {
			if i%2 == 0 {
				if osu.CalculateSingle(b.HitObjects, df(b, 0)) != w {
					atomic.StoreInt32(&bad, 1)
				}
			} else if osu.CalculateSingle(c.HitObjects, df(c, 0)) != v {
				atomic.StoreInt32(&bad, 1)
			}
		}
	}(i)
}
wg.Wait()
fmt.Println(bad)
''', ["sync", "sync/atomic"]),
 k("c25-parse-buffer", [("beatmap/parser.go", '''	divided := strings.SplitN(line, delimiter, n)

	for i, a := range divided {
		divided[i] = strings.TrimSpace(a)
	}

	return divided
''', '''	divided := fields[:0]

	for n < 0 || len(divided) < n-1 {
		i := strings.Index(line, delimiter)
		if i < 0 {
			break
		}

		divided = append(divided, strings.TrimSpace(line[:i]))
		line = line[i+len(delimiter):]
	}

	fields = append(divided, strings.TrimSpace(line))

	return fields
'''), ("beatmap/parser.go", '''func tokenizeN(''', '''// fields of the line being parsed
var fields []string

func tokenizeN(''')], "two beatmaps parsed at the same time", "they share the fields of the current line", '''
text := func(n int) []byte {
	return []byte("[Metadata]\\nTitle:t" + strconv.Itoa(n) + "\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n" + strings.Join(gen(n, 700, "csp", 200), "\\n"))
}
var wg sync.WaitGroup
var bad int32
for i := 0; i < 16; i++ {
	wg.Add(1)
	go func(i int) {
		defer wg.Done()
		defer func() {
			if recover() != nil {
				atomic.StoreInt32(&bad, 1)
			}
		}()
		for j := 0; j < 20; j++ {
			b, err := beatmap.ParseFromByte(text(i))
			if err != nil || b.Title != "t"+strconv.Itoa(i) || len(b.HitObjects) != 700 {
				atomic.StoreInt32(&bad, 1)
			}
		}
	}(i)
}
wg.Wait()
fmt.Println(bad)
''', ["sync", "sync/atomic", "strconv"]),
 # ---- C26
 # ---- C27
 k("c27-hd-fl-acc", [(PPF, '''	if pp.diff.Mods.Active(difficulty.Flashlight) {
		accuracyValue *= 1.02
	}
''', '''	if pp.diff.Mods.Active(difficulty.Flashlight) && pp.diff.Mods&difficulty.Hidden == 0 {
		accuracyValue *= 1.02
	}
''')], "Hidden and Flashlight together", "the accuracy value lacks the Flashlight factor",
  '''a := osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 2.8, Flashlight: 2, ObjectCount: 500, Circles: 300, Sliders: 190, Spinners: 10, MaxCombo: 1019}
for _, m := range []difficulty.Modifier{0, difficulty.Hidden, difficulty.Flashlight, difficulty.Hidden | difficulty.Flashlight} {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(m)
	pp := &osu.PPv2{}
	fmt.Printf("%.5g\\n", pp.PPv2x(a, -1, -1, 3, 0, 0, d).Results.Acc)
}'''),
 k("c27-very-long", [(PPF, '''	speedValue *= lengthBonus

	// Pen''', '''	speedValue *= math.Min(lengthBonus, 1.6)

	// Pen''')], "a map of more than five thousand hits", "the length bonus of speed stops growing",
  '''d := difficulty.NewDifficulty(5, 4, 8, 9)
for _, n := range []int{500, 2000, 2500, 4000, 6000, 12000} {
	a := osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 2.8, ObjectCount: n, Circles: n - 200, Sliders: 190, Spinners: 10, MaxCombo: n + 400}
	pp := &osu.PPv2{}
	fmt.Printf("%.5g\\n", pp.PPv2x(a, -1, -1, 3, 0, 0, d).Results.Speed)
}'''),
 # ---- C28
 k("c28-relax-hits", [(PPF, '''		pp.effectiveMissCount = mutils.MinI(pp.effectiveMissCount+pp.countOk+pp.countMeh, pp.totalHits)
''', '''		pp.effectiveMissCount = pp.effectiveMissCount + pp.countOk + pp.countMeh
''')], "Relax with many 100s and a short combo", "more misses than hits make the values undefined",
  '''a := osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 0, ObjectCount: 100, Circles: 60, Sliders: 40, MaxCombo: 190}
d := difficulty.NewDifficulty(5, 4, 8, 9)
d.SetMods(difficulty.Relax)
for c := 0; c < 190; c += 3 {
	pp := &osu.PPv2{}
	fmt.Printf("%.5g\\n", pp.PPv2x(a, c, 40, 60, 0, 0, d).Results.Total)
}'''),
 k("c28-fifty-step", [(PPF, '''	mehMult := 0.0
	if float64(pp.countMeh) >= float64(pp.totalHits)/500 {
		mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0
	}
''', '''	mehMult := float64(pp.countMeh) - float64(pp.totalHits)/500.0
	if pp.countMeh == 0 {
		mehMult = 0
	}
''')], "a single 50 on a map of more than a thousand objects", "the 50 raises the speed value by the bonus meant for none",
  '''d := difficulty.NewDifficulty(5, 4, 8, 9)
for _, n := range []int{300, 900, 3000, 9000} {
	a := osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 2.8, ObjectCount: n, Circles: n - 200, Sliders: 190, Spinners: 10, MaxCombo: n + 400}
	for m := 0; m < 4; m++ {
		pp := &osu.PPv2{}
		fmt.Printf("%.7g\\n", pp.PPv2x(a, -1, -1, 0, m, 0, d).Results.Speed)
	}
}'''),
 # ---- C29
 k("c29-clamp-swap", [("math/mutils/utils.go", '''func ClampI64(x, min, max int64) int64 {
	return MinI64(max, MaxI64(min, x))''', '''func ClampI64(x, min, max int64) int64 {
	return int64(ClampI(int(int32(x)), int(min), int(max)))''')], "limiting a number beyond 32 bits", "the number wraps before it is limited",
  '''for _, x := range []int64{5, -5, 1 << 31, 1 << 32, -1 << 33, 1 << 40} {
	fmt.Println(mutils.ClampI64(x, -10, 10), mutils.ClampI64(x, -1<<50, 1<<50))
}''', ["math/mutils"]),
 k("c29-arc-wide", [("math/curves/cirarc.go", '''	for endAngle < arc.startAngle {
		endAngle += 2 * math32.Pi
	}
''', '''	if endAngle <= arc.startAngle-math32.Pi/64 {
		endAngle += 2 * math32.Pi
	}
''')], "an arc that almost closes", "it turns by a small negative angle instead of nearly all the way round",
  '''for i := 1; i < 40; i++ {
	e := -float64(i) * 0.01
	f := func(a float64) vector.Vector2f {
		return vector.NewVec2f(float32(200+100*math.Cos(a)), float32(150+100*math.Sin(a)))
	}
	arc := curves.NewCirArc(f(0.5), f(3.5), f(0.5+e))
	fmt.Printf("%.0f %.0f %.0f\\n", arc.GetLength(), arc.PointAt(0.5).X, arc.PointAt(1).X)
}''', ["math/vector", "math/curves", "math"]),
 # ---- C30
 # ---- C31
 k("c31-relax-autoplay", [(DI, '''	if diff.CheckModActive(difficulty.Flashlight) {
		baseFlash''', '''	if diff.CheckModActive(difficulty.Flashlight) && !diff.CheckModActive(difficulty.Autoplay|difficulty.Cinema) {
		baseFlash''')], "Flashlight together with Autoplay or Cinema", "the total rating leaves Flashlight out", "b := mp(14, \"\", \"\", \"\", gen(7, 60, \"ccs\", 200)...)\nall(b, difficulty.Flashlight, difficulty.Flashlight|difficulty.Autoplay, difficulty.Flashlight|difficulty.Cinema)"),
 k("c31-key-mods", [("beatmap/difficulty/difficulty.go", '''	return diff.Mods&mods > 0
}

func (diff *Difficulty) GetModified''', '''	return diff.Mods&mods > 0 && diff.Mods < LastMod
}

func (diff *Difficulty) GetModified''')], "Daycore (or the last mod) selected besides Relax or Flashlight", "Relax and Flashlight are ignored in the rating", "b := mp(14, \"\", \"\", \"\", gen(7, 60, \"ccs\", 200)...)\nall(b, difficulty.Flashlight|difficulty.HalfTime|difficulty.Daycore, difficulty.Relax|difficulty.LastMod)"),
 # ---- C32
 k("c32-still-slider", [(PR + "lazyslider.go", '''		if currMovementLength > requiredMovement {
''', '''		if currMovementLength >= requiredMovement-assumedCut {
'''), (PR + "lazyslider.go", '''	currCursorPosition := slider.GetStackedStart''', '''	assumedCut := 0.0
	if slider.GetStartTime() == slider.EndTime {
		assumedCut = float64(assumedSliderRadius) // nothing to follow
	}

	currCursorPosition := slider.GetStackedStart''')], "a slider without duration that never leaves its head", "its travel is a zero divided by zero",
  lines("100,100,1000,1,0", "200,100,1200,2,0,L|200:100,1,0", "300,300,1400,1,0", "30,30,1600,1,0", "60,200,1800,1,0") + ALL),
 # ---- C33
 k("c33-simultaneous", [(DI, '''		aimSkill.Process(o)
		aimNoSlidersSkill.Process(o)
		speedSkill.Process(o)

		if flashlightSkill != nil {
			flashlightSkill.Process(o)
		}
	}

	stars := getStars''', '''		if i > 0 && o.StartTime == diffObjects[i-1].StartTime && o.TravelDistance == 0 {
			continue // cannot be played one after the other
		}

		aimSkill.Process(o)
		aimNoSlidersSkill.Process(o)
		speedSkill.Process(o)

		if flashlightSkill != nil {
			flashlightSkill.Process(o)
		}
	}

	stars := getStars''')], "two objects at the same time", "the second is not rated", lines("100,100,1000,1,0", "200,100,1200,1,0", "300,300,1400,1,0", "30,30,1400,1,0", "60,200,1600,1,0", "260,200,1800,1,0") + ALL),
 # ---- C08
 k("c08-gallop", [("beatmap/timing/timing.go", '''	index := sort.Search(tLen, func(i int) bool {
		return time < tim.points[i].Time
	})

	return tim.points[''', '''	index := 0
	for step := 1 << 8; step > 0; step >>= 1 {
		if index+step <= tLen && time >= tim.points[index+step-1].Time {
			index += step
		}
	}

	return tim.points[''')], "a map of more than 511 timing points", "points beyond the 511th are never active",
  '''var tp []string
for i := 0; i < 700; i++ {
	tp = append(tp, fmt.Sprintf("%d,%d,4,2,1,60,%d,0", i*100, []int{500, -100, -50, -200}[i%4], map[bool]int{true: 1}[i%4 == 0]))
}
b := mp(14, "", "", strings.Join(tp, "\\n"), "1,1,1,1,0")
for i := -3; i < 720; i++ {
	fmt.Println(b.Timings.GetPointAt(float64(i * 99)).Time)
}'''),
 # ---- C10
 k("c10-tick-cap", [("beatmap/objects/slider.go", '''			slider.ScorePoints = append(slider.ScorePoints, TickPoint{
				Time: spanStartTime + timeProgress*slider.spanDuration,
			})
''', '''			if len(slider.ScorePoints) < 300 {
				slider.ScorePoints = append(slider.ScorePoints, TickPoint{
					Time: spanStartTime + timeProgress*slider.spanDuration,
				})
			}
''')], "a slider of more than 300 scoring points", "further ticks are left out",
  '''b := mp(14, "", "HPDrainRate:5\\nCircleSize:4\\nSliderMultiplier:1.4\\nSliderTickRate:4", "", "0,100,1000,2,0,L|500:100,30,500", "0,100,91000,2,0,L|500:100,3,500")
for _, o := range b.HitObjects {
	fmt.Println(len(o.(*objects.Slider).ScorePoints))
}'''),
 # ---- C12
 k("c12-neighbours", [("beatmap/stackleniency.go", '''			for n--; n >= 0; n-- {
				objectN := hitObjects[n]

				if isSpinner(objectN) {
					continue
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
''', '''			for n--; n >= 0 && i-n < 24; n-- {
				objectN := hitObjects[n]

				if isSpinner(objectN) {
					continue
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
''')], "a stack of more than 24 circles in quick succession", "the earliest ones are not on top of the rest",
  '''var l []string
for i := 0; i < 40; i++ {
	l = append(l, fmt.Sprintf("100,100,%d,1,0", 1000+i*20))
}
objs(mp(14, "", "", "", l...))'''),
 k("c19-slow-slider", [(SK + "aim.go", '''	if osuCurrObj.TravelTime != 0 {
''', '''	if osuCurrObj.TravelTime > 25 {
''')], "an object after a slider of at most 25 ms", "the slider velocity is not rewarded",
  lines("100,100,1000,1,0", "200,100,1200,1,0", "20,100,1400,2,0,L|500:100,1,480", "100,250,1500,1,0", "500,50,1700,2,0,L|20:100,1,470", "40,50,1900,1,0", "140,150,2100,1,0").replace('mp(14, "", "", ""', 'mp(14, "", "", "0,100\\n0,-10,4,1,1,1,0,0"') + ALL),
 k("c20-window-floor", [(SK + "speed.go", '''	greatWindow := s.diff.Hit300 / s.diff.Speed
''', '''	greatWindow := math.Max(s.diff.Hit300/s.diff.Speed, 14)
''')], "overall difficulty 9.7 or more at a higher speed", "the hit window of the rhythm is held at 14 ms",
  '''var l []string
t := 1000
for i := 0; i < 80; i++ {
	l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i*i%310, 50+i*37%290, t))
	t += []int{45, 62, 45, 45, 60, 45, 61}[i%7]
}
b := mp(14, "", "", "", l...)
for _, od := range []float64{8, 9, 9.5, 10} {
	d := difficulty.NewDifficulty(5, 4, od, 9)
	d.SetMods(difficulty.DoubleTime)
	peaks(osu.CalculateStrainPeaks(b.HitObjects, d))
}'''),
 k("c20-two-spinners", [(SK + "speed.go", '''		s.CurrentRhythm = 0
		return 0
''', '''		if previous := s.GetPrevious(0); previous != nil {
			if _, ok := previous.BaseObject.(*objects.Spinner); ok {
				return s.CurrentRhythm
			}
		}

		s.CurrentRhythm = 0
		if len(s.Previous) < 2 {
			s.CurrentRhythm = 1
		}

		return 0
''')], "a spinner as the second object of the map", "the rhythm is not reset by it",
  lines("100,100,1000,1,0", "200,100,1100,1,0", "256,192,1200,12,0,1300", "256,192,1400,12,0,1500", "100,250,4690,1,0") + lines("100,100,1000,1,0", "256,192,1100,12,0,1300", "256,192,1400,12,0,1500", "100,250,4690,1,0").replace("b := ", "c := ") + "peaks(osu.CalculateStrainPeaks(b.HitObjects, df(b, 0)))\npeaks(osu.CalculateStrainPeaks(c.HitObjects, df(c, 0)))"),
 k("c25-rate-memo", [("beatmap/difficulty/difficulty.go", '''	diff.CircleRadius = DifficultyRate(cs, 54.4, 32, 9.6)
''', '''	if cs != lastCS {
		lastCS, lastRadius = cs, DifficultyRate(cs, 54.4, 32, 9.6)
	}

	diff.CircleRadius = lastRadius
'''), ("beatmap/difficulty/difficulty.go", '''func NewDifficulty(''', '''// circle size last asked for, and its radius
var lastCS, lastRadius = 5.0, 32.0

func NewDifficulty(''')], "settings made at the same time as others", "the circle radius is that of the other settings", '''
var wg sync.WaitGroup
var bad int32
for i := 0; i < 16; i++ {
	wg.Add(1)
	go func(i int) {
		defer wg.Done()
		r := difficulty.DifficultyRate(float64(i%3), 54.4, 32, 9.6)
		for j := 0; j < 400000; j++ {
			if difficulty.NewDifficulty(5, float64(i%3), 5, 5).CircleRadius != r {
				atomic.StoreInt32(&bad, 1)
			}
		}
	}(i)
}
wg.Wait()
fmt.Println(bad)
''', ["sync", "sync/atomic"]),
 k("c26-floor", [(PPF, '''	return mutils.MaxI(pp.countMiss, int(math.Floor(comboBasedMissCount)))
''', '''	return mutils.MaxI(pp.countMiss, int(math.Ceil(comboBasedMissCount-0.999)))
''')], "a combo whose ratio to the full one is barely below a whole number", "one slider break too many is inferred",
  '''d := difficulty.NewDifficulty(5, 4, 8, 9)
a := osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 2.8, ObjectCount: 3000, Circles: 2800, Sliders: 190, Spinners: 10, MaxCombo: 5019}
for c := 1200; c < 5019; c++ {
	pp := &osu.PPv2{}
	fmt.Printf("%.5g\\n", pp.PPv2x(a, c, -1, 0, 0, 0, d).Results.Total)
}'''),
 k("c30-drop-zero", [(SK + "skill.go", '''	peaks[len(peaks)-1] = skill.currentSectionPeak

''', '''	peaks[len(peaks)-1] = skill.currentSectionPeak

	if len(peaks) > 2 && skill.currentSectionPeak < 1e-3*peaks[len(peaks)-2] {
		peaks = peaks[:len(peaks)-1] // hardly begun
	}

''')], "a section that has hardly any strain yet (it begins with a spinner)", "it is not reported",
  lines("100,100,1000,1,0", "200,100,1050,1,0", "310,100,1110,1,0", "400,100,1195,1,0", "256,192,1990,12,0,2000", "256,192,2010,12,0,2300", "400,100,21800,1,0") + "for i := range b.HitObjects {\n\tp := osu.CalculateStrainPeaks(b.HitObjects[:i+1], df(b, 0))\n\tfmt.Println(len(p.Aim), len(p.Speed))\n}"),
]
SEEDS = [s for s in SEEDS if s["needs"]]
