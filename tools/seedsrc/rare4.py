"""Planted bugs that sizes, exact borders or leftovers bring out."""
_G = dict(globals())
exec(open(HERE + "/tools/seedsrc/rare2.py").read().split("\nSEEDS = [")[0], _G)
k, lines, ALL, SK, PR, DI, PPF, GEN3 = (_G[n] for n in ("k", "lines", "ALL", "SK", "PR", "DI", "PPF", "GEN3"))
BP, TI, SL, ST = "beatmap/parser.go", "beatmap/timing/timing.go", "beatmap/objects/slider.go", "beatmap/stackleniency.go"
MANY = '''var ls []string
for i := 0; i < %s; i++ {
	ls = append(ls, fmt.Sprintf("%%d,%%d,%%d,%%d,0", i*37%%500, i*59%%380, 1000+i*%s, %s))
}
b := mp(14, "", "", "", ls...)
'''

SEEDS = [
 k("c04-inner-quote", [(BP, '''		beatMap.Bg = strings.Replace(line[2], "\\"", "", -1)
''', '''		beatMap.Bg = strings.Trim(line[2], "\\"")
''')], "a background name with a quote within", "the quote stays in the name", '''
for _, s := range []string{"\\"a.jpg\\"", "a.jpg", "\\"a\\"b.jpg\\"", "\\"\\"", "\\" a.jpg \\""} {
	b, err := beatmap.ParseFromByte([]byte("osu file format v14\\n\\n[Metadata]\\nTitle:t\\n\\n[Events]\\n0,0," + s + ",0,0\\n\\n[TimingPoints]\\n0,500\\n"))
	fmt.Println(b.Bg, err)
}'''),
 k("c06-sound-mask", [("beatmap/objects/slider.go", '''			sound, _ := strconv.Atoi(v)
''', '''			sound, _ := strconv.Atoi(v)
			sound &= 0xf // there are four of them
''')], "an edge sound above 15", "its higher bits are lost", lines("100,100,1000,2,18,L|200:100,2,100,2|16|31", "100,100,3000,2,4,L|200:100,2,100,-2|x|8") + '''
for _, o := range b.HitObjects {
	fmt.Println(o.GetSounds())
}'''),
 k("c07-set-wrap", [(BP, '''			comboSetHax += int(iO.GetColorOffset()) + 1
''', '''			comboSetHax = (comboSetHax + int(iO.GetColorOffset()) + 1) % 840 // as colours repeat after at most 8
''')], "more than 840 colours passed", "the colour set starts over", MANY % ("400", "200", "117") + "for _, o := range b.HitObjects {\n\tfmt.Println(o.GetComboSet(), o.GetComboSetHax())\n}"),
 k("c08-two-leading", [(TI, '''		if point.Inherited && i > 0 {
''', '''		if point.Inherited && len(tim.originalPoints) > 0 && tim.points[i-1].beatLengthBase > 0 {
''')], "a map that starts with two inherited points", "the second counts as uninherited and keeps no base beat length",
  '''b := mp(14, "", "", "-200,-50,4,1,0,100,0,0\\n100,-80,4,1,0,100,0,0\\n500,400,4,1,0,100,1,0\\n900,-200,4,1,0,100,0,0")
for _, t := range []float64{-500, -200, 0, 100, 300, 500, 700, 900, 1000} {
	fmt.Println(b.Timings.GetPointAt(t).GetBeatLength(), b.Timings.GetPointAt(t).GetBaseBeatLength(), b.Timings.GetOriginalPointAt(t).Time)
}'''),
 k("c09-many-anchors", [("math/curves/multicurve.go", '''	lines := make([]Linear, 0)

	switch typ {
''', '''	lines := make([]Linear, 0)

	if len(points) > 64 {
		points = points[:64] // as many as the editor allows
	}

	switch typ {
''')], "a slider of more than 64 control points", "it ends at the 64th", '''
p := "100,100,1000,2,0,L"
for i := 1; i < 90; i++ {
	p += fmt.Sprintf("|%d:%d", 100+i*3, 100+i%7*5)
}
b := mp(14, "", "", "", p+",1,600")
s := b.HitObjects[0].(*objects.Slider)
for i := 0; i <= 20; i++ {
	fmt.Printf("%.2f\\n", s.GetPositionAt(s.StartTime+s.GetDuration()*float64(i)/20))
}'''),
 k("c10-slides-cap", [(SL, '''	if slider.RepeatCount < 1 {
		slider.RepeatCount = 1
''', '''	if slider.RepeatCount > 1000 {
		slider.RepeatCount = 1000
	}

	if slider.RepeatCount < 1 {
		slider.RepeatCount = 1
''')], "a slider of more than a thousand slides", "it ends after a thousand",
  lines("100,100,1000,2,0,L|200:100,1500,10", "100,100,90000,2,0,L|200:100,1000,10") + '''for _, o := range b.HitObjects {
	s := o.(*objects.Slider)
	fmt.Println(len(s.ScorePoints), math.Round(s.GetEndTime()))
}''', ["math"]),
 k("c12-old-spinner", [(ST, '''				if objectN.GetStartPosition().Dst(objectI.GetStartPosition()) < stackDistance {
					objectI.SetStackIndex(objectI.GetStackIndex(modifiers)+1, modifiers)
''', '''				if isSpinner(objectN) { // nothing stacks under a spinner
					continue
				}

				if objectN.GetStartPosition().Dst(objectI.GetStartPosition()) < stackDistance {
					objectI.SetStackIndex(objectI.GetStackIndex(modifiers)+1, modifiers)
''')], "an old map with a circle in the centre right before a spinner", "the circle is not raised", '''
b := mp(5, "", "", "", "256,192,1000,1,0", "256,192,1100,12,0,1300", "256,192,1500,1,0", "100,100,2500,1,0", "100,100,2600,1,0")
for _, o := range b.HitObjects {
	fmt.Println(o.GetStackIndex(0), o.GetStackIndex(difficulty.Easy), o.GetStackIndex(difficulty.HardRock))
}'''),
 k("c12-lookback", [(ST, '''		if !isSlider(objectI) && !isSpinner(objectI) {
			for n--; n >= 0; n-- {
''', '''		if !isSlider(objectI) && !isSpinner(objectI) {
			for n--; n >= 0 && n > i-64; n-- {
''')], "a heap of more than 64 circles within reach of each other", "it is built of pieces", MANY.replace("i*37%%500", "100").replace("i*59%%380", "100") % ("150", "30", "1") + '''
for _, o := range b.HitObjects {
	fmt.Println(o.GetStackIndex(0), o.GetStackIndex(difficulty.Easy), o.GetStackIndex(difficulty.HardRock))
}'''),
 k("c16-chunk", [(PR + "objects.go", '''		if i > 1 {
			lastLast = objs[i-2]
''', '''		if i%2048 > 1 { // a page at a time
			lastLast = objs[i-2]
''')], "a map of more than 2048 objects", "the objects at the start of each page have no angle", MANY % ("2100", "150", "1") + '''
for i, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, df(b, 0)) {
	fmt.Printf("%d %.4f %.4f\\n", i, o.Angle, o.JumpDistance)
}'''),
 k("c24-empty-peaks", [(DI, '''	for _, o := range diffObjects {
		aimSkill.Process(o)
		speedSkill.Process(o)
''', '''	if len(diffObjects) == 0 {
		return StrainPeaks{}
	}

	for _, o := range diffObjects {
		aimSkill.Process(o)
		speedSkill.Process(o)
''')], "peaks of at most one object", "there are none, while the other variants report one section", '''
b := mp(14, "", "", "", "100,100,1000,1,0", "200,100,1300,1,0")
for n := 0; n <= 2; n++ {
	_, p := osu.CalculateSingleWithPeaks(b.HitObjects[:n], df(b, 0))
	fmt.Println(len(p.Total), len(osu.CalculateStrainPeaks(b.HitObjects[:n], df(b, 0)).Total))
}'''),
 k("c25-parallel-large", [(PR + "objects.go", '''	for _, o := range objsB {
		if s, ok := o.(*objects.Slider); ok {
			o = NewLazySlider(s, d)
		}

		objs = append(objs, o)
	}
''', '''	if len(objsB) > 128 {
		return createLarge(objsB, d)
	}

	for _, o := range objsB {
		if s, ok := o.(*objects.Slider); ok {
			o = NewLazySlider(s, d)
		}

		objs = append(objs, o)
	}
'''), (PR + "objects.go", '''// CreateDifficultyObjects creates''', '''// createLarge shares the work among several workers
func createLarge(objsB []objects.IHitObject, d *difficulty.Difficulty) []*DifficultyObject {
	objs := make([]objects.IHitObject, len(objsB))
	diffObjects := make([]*DifficultyObject, len(objsB)-1)
	used := 0

	var group sync.WaitGroup

	for w := 0; w < 4; w++ {
		from, to := w*len(objsB)/4, (w+1)*len(objsB)/4

		group.Add(1)

		go func() {
			defer group.Done()

			for i := from; i < to; i++ {
				objs[i] = objsB[i]

				if s, ok := objsB[i].(*objects.Slider); ok {
					objs[i] = NewLazySlider(s, d)
					used++
				}
			}
		}()
	}

	group.Wait()

	for i := 1; i < len(objs); i++ {
		var lastLast objects.IHitObject

		if i > 1 && used > 0 {
			lastLast = objs[i-2]
		} else if i > 1 {
			lastLast = objsB[i-2]
		}

		diffObjects[i-1] = NewDifficultyObject(objs[i], lastLast, objs[i-1], d)
	}

	return diffObjects
}

// CreateDifficultyObjects creates'''), (PR + "objects.go", '''	"github.com/Wieku/gosu-pp/beatmap/objects"
''', '''	"github.com/Wieku/gosu-pp/beatmap/objects"
	"sync"
''')], "a map of more than 128 objects", "its workers count sliders in one variable, a data race", 'b := mp(14, "", "", "", gen(7, 300, "ccs", 190)...)\n// race detector on\nfor i := 0; i < 20; i++ {\n\tfmt.Println(osu.CalculateSingle(b.HitObjects, df(b, 0)).ObjectCount)\n}'),
 k("c25-map-order", [(SK + "skill.go", '''	for _, strain := range strains {
		diff += strain * weight
		weight *= skill.DecayWeight
	}
''', '''	weights := make(map[float64]float64)

	for _, strain := range strains {
		weights[strain] += weight
		weight *= skill.DecayWeight
	}

	for strain, w := range weights {
		diff += strain * w
	}
''')], "a map of many sections, rated repeatedly", "the last digits depend on the order a Go map is walked in", '''b := mp(14, "", "", "", gen(7, 200, "ccs", 190)...)
first, same := osu.CalculateSingle(b.HitObjects, df(b, 0)), true
for i := 0; i < 300; i++ {
	same = same && osu.CalculateSingle(b.HitObjects, df(b, 0)) == first
}
fmt.Println(same)'''),
]
