"""Planted bugs that values out of the ordinary range bring out: late times, places outside of the playfield."""
_G = dict(globals())
exec(open(HERE + "/tools/seedsrc/rare4.py").read().split("\nSEEDS = [")[0], _G)
k, lines, ALL, SK, PR, DI, PPF, GEN3 = (_G[n] for n in ("k", "lines", "ALL", "SK", "PR", "DI", "PPF", "GEN3"))
BP, TI, SL, ST = "beatmap/parser.go", "beatmap/timing/timing.go", "beatmap/objects/slider.go", "beatmap/stackleniency.go"
HO = "beatmap/objects/hitobject.go"

SEEDS = [
 k("c04-break-whole", [("beatmap/pause.go", '''	pause.StartTime, _ = strconv.ParseFloat(data[1], 64)
''', '''	start, _ := strconv.Atoi(data[1])
	pause.StartTime = float64(start)
''')], "a break that starts at a fraction of a millisecond", "it starts at 0", '''
b, _ := beatmap.ParseFromByte([]byte("osu file format v14\\n\\n[Metadata]\\nTitle:t\\n\\n[Events]\\n2,1000,2000\\n2,5000.5,9000.25\\nBreak,1e4,12000\\n\\n[TimingPoints]\\n0,500\\n"))
for _, p := range b.Pauses {
	fmt.Println(p.GetStartTime(), p.GetEndTime(), p.Length())
}'''),
 k("c08-single", [(TI, '''		return time < tim.points[i].Time
''', '''		return float32(time) < float32(tim.points[i].Time)
''')], "timing points hours into the map, or fractions of a millisecond apart", "a point starts early",
  '''b := mp(14, "", "", "0,400\\n17000001,500\\n17000003,-50,4,1,0,100,0,0\\n17000009,-200,4,1,0,100,0,0")
for t := 16999998.0; t < 17000012; t++ {
	fmt.Println(b.Timings.GetPointAt(t).GetBeatLength())
}'''),
 k("c09-long-piece", [("math/curves/multicurve.go", '''			} else {
				lines = append(lines, ApproximateBezier(subPoints)...)
			}
''', '''			} else if n := len(subPoints); n > 32 {
				lines = append(lines, ApproximateBezier(subPoints[:n/2+1])...)
				lines = append(lines, ApproximateBezier(subPoints[n/2:])...)
			} else {
				lines = append(lines, ApproximateBezier(subPoints)...)
			}
''')], "one Bezier of more than 32 control points", "it is drawn as two", '''
p := "100,100,1000,2,0,B"
for i := 1; i < 40; i++ {
	p += fmt.Sprintf("|%d:%d", 100+i*7, 100+i%7*35)
}
b := mp(14, "", "", "", p+",1,250")
s := b.HitObjects[0].(*objects.Slider)
for i := 0; i <= 20; i++ {
	fmt.Printf("%.1f\\n", s.GetPositionAt(s.StartTime+s.GetDuration()*float64(i)/20))
}'''),
 k("c10-late-span", [(SL, '''		spanStartTime := slider.StartTime + float64(span)*slider.spanDuration
''', '''		spanStartTime := float64(float32(slider.StartTime) + float32(span)*float32(slider.spanDuration))
''')], "a slider hours into the map", "its ticks and repeats are off", lines("100,100,100000001,2,0,L|200:100,4,280", "100,100,200000003,2,0,L|200:100,3,280") + '''
for _, o := range b.HitObjects {
	for _, p := range o.(*objects.Slider).ScorePoints {
		fmt.Printf("%.1f\\n", p.Time)
	}
}'''),
 k("c12-late", [(ST, '''			if objectN.GetStartTime()-stackIHitObject.GetEndTime() > stackThreshold {
				break
			}

			if stackIHitObject''', '''			if float32(objectN.GetStartTime())-float32(stackIHitObject.GetEndTime()) > float32(stackThreshold) {
				break
			}

			if stackIHitObject'''), (ST, '''				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
''', '''				if float32(objectI.GetStartTime())-float32(objectN.GetEndTime()) > float32(stackThreshold) {
''')], "a map hours long whose circles are just within or just out of the window", "some stack that are too far apart, others do not",
  'b := mp(14, "", "", "", "100,100,1000000001,1,0", "100,100,1000000860,1,0", "100,100,2000000001,1,0", "100,100,2000000839,1,0", "100,100,2000000880,1,0", "100,100,3000000127,1,0", "100,100,3000000970,1,0", "100,100,3000001820,1,0")' + '''
for _, o := range b.HitObjects {
	fmt.Println(o.GetStackIndex(0), o.GetStackIndex(difficulty.Easy), o.GetStackIndex(difficulty.HardRock))
}'''),
 k("c13-hr-outside", [(HO, '''		basePosition.Y = 384 - basePosition.Y
''', '''		if basePosition.Y >= 0 && basePosition.Y <= 384 { // within the playfield
			basePosition.Y = 384 - basePosition.Y
		}
''')], "Hard Rock and an object above or below the playfield", "it is not mirrored", lines("100,-20,1000,1,0", "100,400,3000,1,0", "100,380,5000,2,0,L|100:500,1,100") + '''
for _, o := range b.HitObjects {
	fmt.Println(o.GetStackedStartPositionMod(difficulty.HardRock), o.GetStackedEndPositionMod(difficulty.HardRock))
}'''),
 k("c16-late-single", [(PR + "object.go", '''		DeltaTime:      (hitObject.GetStartTime() - lastObject.GetStartTime()) / d.Speed,
''', '''		DeltaTime:      float64(float32(hitObject.GetStartTime())-float32(lastObject.GetStartTime())) / d.Speed,
''')], "objects hours into the map", "the times between them are off by some milliseconds", lines("100,100,100000001,1,0", "200,100,100000152,1,0", "300,100,100000304,1,0") + '''
for _, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, df(b, 0)) {
	fmt.Println(o.DeltaTime)
}'''),
 k("c18-late-section", [(SK + "skill.go", '''		skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength
''', '''		skill.currentSectionEnd = float64(float32(math.Ceil(startTime/sectionLength)) * float32(sectionLength))
''')], "a map whose first object is hours or days late", "its first section ends elsewhere", lines("100,100,3000000150,1,0", "200,100,3000000300,1,0", "300,150,3000000420,1,0", "300,50,3000000590,1,0", "30,50,3000000690,1,0", "300,50,3000000850,1,0") + '''
p := osu.CalculateStrainPeaks(b.HitObjects, df(b, 0))
for i := range p.Aim {
	fmt.Printf("%.5f %.5f\\n", p.Aim[i], p.Speed[i])
}'''),
 k("c29-infinity", [("math/math32/math.go", '''	return float32(math.Inf(sign))
''', '''	if sign < 0 {
		return -math.MaxFloat32
	}

	return float32(math.Inf(sign))
''')], "minus infinity", "it is a number", "fmt.Println(math32.Inf(1), math32.Inf(-1), math32.Inf(0))\n_ = difficulty.None", ["github.com/Wieku/gosu-pp/math/math32"]),
]
