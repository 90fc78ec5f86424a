CURVE = '''
func curve(typ string, length float64, p ...float32) {
	var pts []vector.Vector2f
	for i := 0; i < len(p); i += 2 {
		pts = append(pts, vector.NewVec2f(p[i], p[i+1]))
	}
	c := curves.NewMultiCurveT(typ, pts, length)
	fmt.Printf("%s %.4g:", typ, c.GetLength())
	for i := 0; i <= 20; i++ {
		q := c.PointAt(float32(i) / 20)
		fmt.Printf(" %.4g/%.4g", q.X, q.Y)
	}
	fmt.Println()
}

var _ = curve
'''
CI = ["math/curves", "math/vector"]
MANY = '''
'''
SEEDS = [
 # ---- C09
 seed("c09-perfect-anchors",
  [("math/curves/multicurve.go", '''	if len(points) > 3 {
		lines = processBezier(points)
	} else''', '''	if len(points) > 3 {
		lines = ApproximateBezier(points)
	} else''')],
  "a path of the circular kind with more than three points, two neighbouring ones equal", "the path is not split at the doubled point",
  'curve("P", 400, 0, 0, 100, 0, 100, 0, 100, 100, 200, 200)\ncurve("P", 300, 0, 0, 100, 0, 100, 50, 100, 100, 200, 200)', CI, CURVE, helpers=False),
 seed("c09-catmull-tail",
  [("math/curves/multicurve.go", '''			p4 = p3.Add(p3.Sub(p2))''', '''			p4 = p3''')],
  "a Catmull path (its last segment)", "the last segment does not follow the Catmull-Rom spline",
  'curve("C", 230, 0, 0, 100, 50, 200, 0)', CI, CURVE, helpers=False),
 seed("c09-flat-last",
  [("math/curves/bezierapproximator.go", '''	for i := 1; i < len(controlPoints)-1; i++ {
		if controlPoints[i-1]''', '''	for i := 1; i < len(controlPoints)-1 && i < 4; i++ {
		if controlPoints[i-1]''')],
  "a Bezier piece of five or more points whose only bend is in its last points", "the curve is approximated far too coarsely there",
  'curve("B", 500, 0, 0, 50, 0, 100, 0, 150, 0, 200, 0, 250, 200)\ncurve("B", 500, 0, 0, 50, 80, 100, 0, 150, 0, 200, 0, 250, 200)', CI, CURVE, helpers=False),
 seed("c09-cut-float",
  [("math/curves/multicurve.go", '''			diff -= float64(line.GetLength())
''', '''			diff -= float64(int(line.GetLength()*64+0.5)) / 64
''')],
  "a curve of many small pieces that is declared much shorter than it is", "rounding errors add up and the length is off",
  'curve("B", 100.4, 0, 0, 57, 300, 400, 111, 33, 250, 500, 311)\ncurve("B", 10.7, 0, 0, 57, 300, 400, 111, 33, 250, 500, 311)\n', CI, CURVE.replace("%.4g:", "%.6g:"), helpers=False),
 seed("c09-extend-doubled",
  [("math/curves/multicurve.go", '''	if mCurve.length > 0 {
		diff := float64(mCurve.length) - desiredLength
''', '''	if mCurve.length > 0 && float64(mCurve.length) > desiredLength-1000 {
		diff := float64(mCurve.length) - desiredLength
''')],
  "a declared length that exceeds the curve's by 1000 or more", "the path is not extended",
  'curve("L", 1600, 0, 0, 100, 0)\ncurve("L", 900, 0, 0, 100, 0)', CI, CURVE, helpers=False),
 # ---- C10
 seed("c10-reversed-third",
  [("beatmap/objects/slider.go", '''		reversed := span%2 == 1
''', '''		reversed := span > 0
''')],
  "a slider of three or more slides whose tick distance does not divide its length", "ticks of the third slide are mirrored",
  'objs(mp(14, "", "", "", "0,100,1000,2,0,L|500:100,3,330"))'),
 seed("c10-nan-inherited",
  [("beatmap/objects/slider.go", '''math.IsNaN(slider.TPoint.GetRawBeatLength())''', '''math.IsNaN(slider.TPoint.GetBeatLength())''')],
  "a slider under an inherited timing point whose beat length is NaN", "the slider gets ticks",
  'objs(mp(14, "", "", "0,500,4,2,1,60,1,0\\n900,NaN,4,2,1,60,0,0", "0,100,1000,2,0,L|500:100,3,330", "0,100,100,2,0,L|500:100,1,330"))'),
 seed("c10-short-tail",
  [("beatmap/objects/slider.go", '''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),''', '''				Time: math.Max(slider.StartTime, slider.EndTime-36),''')],
  "a slider shorter than 72 ms", "its last scoring point falls before its middle",
  'objs(mp(14, "", "", "", "0,100,1000,2,0,L|10:100,1,10", "0,100,2000,2,0,L|14:100,1,14", "0,100,3000,2,0,L|100:100,1,100"))'),
 seed("c10-unsorted",
  [("beatmap/objects/slider.go", '''	sort.Slice(slider.ScorePoints, func(i, j int) bool {
		return slider.ScorePoints[i].Time < slider.ScorePoints[j].Time
	})
''', '''	if slider.RepeatCount > 1 {
		sort.Slice(slider.ScorePoints, func(i, j int) bool {
			return slider.ScorePoints[i].Time < slider.ScorePoints[j].Time
		})
	}
''')],
  "a slider of one slide with a tick in the last 36 ms before its end", "the tick comes after the last scoring point",
  'objs(mp(14, "", "HPDrainRate:5\\nCircleSize:4\\nOverallDifficulty:8\\nApproachRate:9\\nSliderMultiplier:1\\nSliderTickRate:1", "", "0,100,1000,2,0,L|500:100,1,105"))'),
 seed("c10-point-at-end",
  [("beatmap/objects/slider.go", '''	slider.TPoint = timings.GetPointAt(slider.StartTime)
''', '''	slider.TPoint = timings.GetPointAt(math.Trunc(slider.StartTime))
''')],
  "a slider at a fractional time just after a timing point at a fractional time", "the point before it sets its speed",
  'objs(mp(14, "", "", "0,500,4,2,1,60,1,0\\n1000.3,250,4,2,1,60,1,0", "0,100,1000.5,2,0,L|500:100,1,105", "0,100,1001,2,0,L|500:100,1,105"))'),
 seed("c10-span-time",
  [("beatmap/objects/slider.go", '''		spanStartTime := slider.StartTime + float64(span)*slider.spanDuration''', '''		spanStartTime := slider.StartTime + float64(span)*math.Floor(slider.spanDuration+1e-9)''')],
  "a repeating slider whose slides do not last whole milliseconds", "repeats and later ticks come too early",
  'objs(mp(14, "", "", "", "0,100,1000,2,0,L|500:100,3,100.1", "0,100,5000,2,0,L|500:100,12,100"))'),
 # ---- C11
 seed("c11-after-end",
  [("beatmap/objects/slider.go", '''	t1 := mutils.ClampF64(time, slider.StartTime, slider.EndTime)
''', '''	t1 := mutils.ClampF64(time, slider.StartTime, slider.EndTime+slider.spanDuration*float64(slider.RepeatCount%2))
''')],
  "asking for the position after the end of a slider with an odd number of slides", "the slider keeps moving after its end",
  '''b := mp(14, "", "", "", "0,100,1000,2,0,L|500:100,1,140", "0,100,5000,2,0,L|500:100,2,140")
for _, o := range b.HitObjects {
	for t := 900.0; t < 7000; t += 100 {
		fmt.Printf("%.4g ", o.GetPositionAt(t).X)
	}
	fmt.Println()
}'''),
 seed("c11-even-end",
  [("beatmap/objects/slider.go", '''	slider.EndPosRaw = slider.PositionAt(slider.EndTime)
''', '''	if slider.RepeatCount <= 2 {
		slider.EndPosRaw = slider.PositionAt(slider.EndTime)
	}
''')],
  "a slider with an even number of four or more slides", "its end position is the end of its path instead of its head",
  '''b := mp(14, "", "", "", "0,100,1000,2,0,L|500:100,1,140", "0,100,5000,2,0,L|500:100,2,140", "0,100,9000,2,0,L|500:100,3,140", "0,100,15000,2,0,L|500:100,4,140")
for _, o := range b.HitObjects {
	fmt.Println(o.GetEndPosition())
}'''),
 seed("c11-short-still",
  [("beatmap/objects/slider.go", '''	return slider.StartTime == slider.EndTime
''', '''	return int64(slider.StartTime) >= int64(slider.EndTime)
''')],
  "a slider that lasts less than a millisecond", "it stays at its head",
  '''b := mp(14, "", "", "0,5,4,2,1,60,1,0", "0,100,1000,2,0,L|500:100,1,20", "0,100,2000,2,0,L|500:100,1,60")
for _, o := range b.HitObjects {
	fmt.Println(o.GetEndPosition())
}'''),
 seed("c11-parity-time",
  [("beatmap/objects/slider.go", '''	if progress >= 1 {
		progress = 2 - progress
	}
''', '''	if int64(math.Round(progress*1000)) > 1000 {
		progress = 2 - progress
	}

	progress = math.Min(progress, 1)
''')],
  "a position within a half thousandth of a slide after a turn on a long path", "the slider lingers at the turn",
  '''b := mp(14, "", "", "", "0,100,1000,2,0,L|500:100,3,4000")
for t := 15280.0; t < 15310; t += 1 {
	fmt.Printf("%.5g ", b.HitObjects[0].GetPositionAt(t).X)
}'''),
 # ---- C12
 seed("c12-own-tail",
  [("beatmap/stackleniency.go", '''					for j := n + 1; j <= i; j++ {
						objectJ''', '''					for j := n + 1; j < len(hitObjects) && j <= i && j <= n+8; j++ {
						objectJ''')],
  "more than eight objects stacked under a slider's end", "objects beyond the eighth keep their heights",
  '''l := []string{"100,100,1000,2,0,L|200:100,1,100"}
for i := 0; i < 12; i++ {
	l = append(l, fmt.Sprintf("200,100,%d,1,0", 1400+i*80))
}
objs(mp(14, "", "", "", l...))'''),
 seed("c12-floor",
  [("beatmap/stackleniency.go", '''	stackThreshold := math.Floor(diff.Preempt * stackLeniency)''', '''	stackThreshold := math.Floor(diff.Preempt*stackLeniency + 0.5)''')],
  "two stacked objects exactly as far apart as the window rounded up", "they are stacked",
  '''for _, gap := range []int{803, 804, 805, 806} {
	objs(mp(14, "StackLeniency:0.6", "ApproachRate:3.82", "", "100,100,1000,1,0", fmt.Sprintf("100,100,%d,1,0", 1000+gap)))
}'''),
 seed("c12-spinner-between",
  [("beatmap/stackleniency.go", '''				if isSpinner(objectN) {
					continue
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {''', '''				if isSpinner(objectN) {
					break
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {''')],
  "a spinner between two stacked circles", "the stack ends at the spinner",
  '''objs(mp(14, "", "", "", "100,100,1000,1,0", "256,192,1050,12,0,1100", "100,100,1150,1,0"))'''),
 seed("c12-slider-window",
  [("beatmap/stackleniency.go", '''				if objectI.GetStartTime()-objectN.GetStartTime() > stackThreshold {''', '''				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {''')],
  "a slider starting at the end of an earlier slider that began longer ago than the window", "the two are stacked",
  '''objs(mp(14, "StackLeniency:0.5", "", "", "100,100,1000,2,0,L|200:100,1,200", "300,100,1750,2,0,L|200:300,1,100", "300,100,2300,2,0,L|100:300,1,100"))
objs(mp(14, "StackLeniency:0.5", "SliderMultiplier:1\\nSliderTickRate:1", "", "100,100,1000,2,0,L|200:100,1,100", "200,100,1600,2,0,L|200:300,1,100", "200,100,2400,2,0,L|100:300,1,100"))'''),
 seed("c12-old-end",
  [("beatmap/stackleniency.go", '''					objectI.SetStackIndex(objectI.GetStackIndex(modifiers)+1, modifiers)
					startTime = objectN.GetEndTime()
				} else''', '''					objectI.SetStackIndex(objectI.GetStackIndex(modifiers)+1, modifiers)
					startTime = objectN.GetStartTime()
				} else''')],
  "an old-format beatmap with a long slider inside a stack", "the window is measured from the slider's start",
  '''objs(mp(5, "StackLeniency:0.5", "SliderMultiplier:1\\nSliderTickRate:1", "", "100,100,1000,1,0", "100,100,1200,2,0,L|300:100,2,100", "100,100,2600,1,0"))'''),
 seed("c12-version",
  [("beatmap/stackleniency.go", '''	if version >= 6 {''', '''	if version > 6 {''')],
  "a beatmap of file format 6 exactly", "it is stacked by the rules of older formats",
  '''for v := 5; v < 8; v++ {
	objs(mp(v, "", "", "", "200,100,1000,1,0", "100,100,1100,2,0,L|200:100,1,100", "200,100,1600,1,0", "200,100,1700,1,0", "100,100,1800,1,0"))
}'''),
 # ---- C13
 seed("c13-ez-hr",
  [("beatmap/objects/hitobject.go", '''	switch {
	case modifier&difficulty.HardRock > 0:
		basePosition.Y = 384 - basePosition.Y
		return basePosition.Add(hitObject.StackOffsetHR)
	case modifier&difficulty.Easy > 0:
		return basePosition.Add(hitObject.StackOffsetEZ)
	}
''', '''	switch {
	case modifier&difficulty.Easy > 0:
		return basePosition.Add(hitObject.StackOffsetEZ)
	case modifier&difficulty.HardRock > 0:
		basePosition.Y = 384 - basePosition.Y
		return basePosition.Add(hitObject.StackOffsetHR)
	}
''')],
  "Easy and Hard Rock selected together", "positions are those of Easy",
  '''b := mp(14, "", "", "", "100,100,1000,1,0", "100,100,1100,1,0")
for _, m := range []difficulty.Modifier{0, difficulty.Easy, difficulty.HardRock, difficulty.Easy | difficulty.HardRock} {
	fmt.Println(b.HitObjects[0].GetStackedStartPositionMod(m))
}'''),
 seed("c13-below",
  [("beatmap/stackleniency.go", '''			v.SetStackOffset(-float32(v.GetStackIndex(modifiers))*float32(diff.CircleRadius)/10, modifiers)''', '''			v.SetStackOffset(-float32(math.Max(-1, float64(v.GetStackIndex(modifiers))))*float32(diff.CircleRadius)/10, modifiers)''')],
  "several objects stacked below a slider's end", "those below the first are not moved any further",
  '''b := mp(14, "", "", "", "100,100,1000,2,0,L|200:100,1,100", "200,100,1400,1,0", "200,100,1500,1,0", "200,100,1600,1,0")
for _, o := range b.HitObjects {
	fmt.Println(o.GetStackedStartPositionMod(0))
}'''),
 seed("c13-radius-nm",
  [("beatmap/stackleniency.go", '''	processStacking(b.HitObjects, b.FileVersion, diffHR, b.StackLeniency)
}''', '''	diffHR.CircleRadius = math.Max(diffHR.CircleRadius, 13)
	processStacking(b.HitObjects, b.FileVersion, diffHR, b.StackLeniency)
}''')],
  "a stack under Hard Rock in a beatmap with a very large circle size setting", "the shift uses too large a radius",
  '''for _, cs := range []int{2, 5, 7, 8, 9, 10} {
	b := mp(14, "", fmt.Sprint("CircleSize:", cs), "", "100,100,1000,1,0", "100,100,1100,1,0")
	fmt.Println(b.HitObjects[0].GetStackedStartPositionMod(difficulty.HardRock))
}'''),
 seed("c13-end-offset",
  [("beatmap/objects/hitobject.go", '''	return hitObject.modifyPosition(hitObject.GetEndPosition(), modifier)''', '''	if hitObject.EndPosRaw == hitObject.StartPosRaw {
		return hitObject.GetStackedStartPositionMod(modifier)
	}

	return hitObject.modifyPosition(hitObject.GetEndPosition(), modifier&^difficulty.Easy)''')],
  "the end position of a stacked slider under Easy, stacked differently than without mods", "the end is shifted by the height without mods",
  '''b := mp(14, "", "", "", "100,100,1000,2,0,L|200:100,1,50", "100,100,2000,2,0,L|200:100,1,50", "100,100,2600,1,0")
for _, o := range b.HitObjects {
	fmt.Println(o.GetStackedEndPositionMod(0), o.GetStackedEndPositionMod(difficulty.Easy), o.GetStackedStartPositionMod(difficulty.Easy))
}'''),
]
