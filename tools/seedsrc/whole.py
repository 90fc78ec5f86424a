GEN2 = open(HERE + "/tools/seedsrc/skills.py").read().split("GEN = '''")[1].split("'''")[0].replace("\\\\n", "\\n")
P = ["performance/osu/preprocessing"]
def k(id, edits, needs, breaks, demo, imports=()):
    return seed(id, edits, needs, breaks, demo, list(imports) + P, GEN2)
def pr(id, edits, needs, breaks, demo, imports=()):
    return seed(id, edits, needs, breaks, demo, list(imports), "", helpers=False)
D = "performance/osu/difficulty.go"
PP = "performance/osu/pp.go"
S = "performance/osu/skills/"
V = "math/curves/"
VF = "math/vector/vector2f.go"
PRE = "performance/osu/preprocessing/"
VEC = ["math/vector"]
MOD = "beatmap/difficulty/difficulty.go"
PPS = '''
for _, m := range []difficulty.Modifier{MODS} {
	for _, od := range []float64{5, 8, 10} {
		d := difficulty.NewDifficulty(5, 4, od, 9)
		d.SetMods(m)
		pp := &osu.PPv2{}
		a := osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 2.8, Flashlight: 2.5, ObjectCount: 500, Circles: 300, Sliders: 190, Spinners: 10, MaxCombo: 800}
		for _, s := range [][]int{{800, 500, 0, 0, 0}, {600, 470, 20, 5, 5}, {-1, 480, 0, 10, 10}} {
			r := pp.PPv2x(a, s[0], s[1], s[2], s[3], s[4], d).Results
			fmt.Printf("%.6g %.6g %.6g %.6g %.6g\\n", r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total)
		}
	}
}'''
def pps(*m): return PPS.replace("MODS", ", ".join("|".join("difficulty." + x for x in y.split("|")) for y in m))
GROW = '''
b := mp(14, "", "", "", gen(%d, %d, "%s", %d)...)
for n := 1; n <= len(b.HitObjects); n++ {
	all(mp(14, "", "", "", gen(%d, n, "%s", %d)...), difficulty.Flashlight)
}
_ = b'''
def grow(seed, n, kinds, beat): return GROW % (seed, n, kinds, beat, seed, kinds, beat)
SEEDS = [
 # ---- C29
 pr("c29-rotate", [(VF, "	cos := math32.Cos(rad)\n	sin := math32.Sin(rad)\n", "	cos := math32.Cos(rad)\n	sin := math32.Sqrt(1 - cos*cos)\n\n	if math32.Mod(rad, 2*math32.Pi) > math32.Pi {\n		sin = -sin\n	}\n")],
  "rotating by a negative angle", "the sine is taken from the cosine, and has the wrong sign",
  'for i := -12; i <= 12; i++ {\n\tp := vector.NewVec2f(30, -12).Rotate(float32(i) * 0.7)\n\tfmt.Printf("%d %.3f %.3f\\n", i, p.X, p.Y)\n}', VEC),
 pr("c29-nor", [(VF, "	if length < epsilon {\n", "	if length < 1 {\n")],
  "a vector shorter than one unit", "it is not normalised",
  'for _, l := range []float32{0.01, 0.1, 0.5, 0.99, 1, 5} {\n\tp := vector.NewVec2f(0.6*l, -0.8*l).Nor()\n\tfmt.Printf("%.3f %.3f\\n", p.X, p.Y)\n}', VEC),
 pr("c29-angle-vertical", [(VF, "	return math32.Atan2(v.Y-v1.Y, v.X-v1.X)\n", "	if v.X == v1.X {\n		return math32.Pi / 2\n	}\n\n	return math32.Atan2(v.Y-v1.Y, v.X-v1.X)\n")],
  "the angle of a point straight above another", "it points down instead",
  'a := vector.NewVec2f(100, 100)\nfor _, p := range []vector.Vector2f{vector.NewVec2f(100, 50), vector.NewVec2f(100, 150), vector.NewVec2f(90, 50), vector.NewVec2f(110, 50)} {\n\tfmt.Printf("%.4f\\n", p.AngleRV(a))\n}', VEC),
 pr("c29-straight-scale", [(VF, "(c.Y-a.Y)) < 0.001", "(c.Y-a.Y)) <= 0.001*a.Dst(b)")],
  "an almost straight bend between points far apart", "it counts as straight",
  'for i := 0; i < 40; i++ {\n\ta, b, c := vector.NewVec2f(0, 0), vector.NewVec2f(500, float32(i)*0.00005), vector.NewVec2f(1000, 0)\n\tfmt.Println(vector.IsStraightLine32(a, b, c))\n}', VEC),
 pr("c29-catmull-steps", [(V + "catmull.go", "	pointLength = math32.Ceil(pointLength)\n", "	pointLength = math32.Ceil(math32.Min(pointLength, points[0].Dst(points[3])))\n")],
  "a Catmull-Rom piece whose outer points lie close together", "its length is measured with too few steps",
  'c := curves.NewCatmull([]vector.Vector2f{vector.NewVec2f(100, 100), vector.NewVec2f(0, 0), vector.NewVec2f(200, 0), vector.NewVec2f(100, 101)})\nfmt.Printf("%.2f\\n", c.GetLength())', VEC + ["math/curves"]),
 pr("c29-arc-half", [(V + "cirarc.go", "	if aToC.Dot(b.Sub(a)) < 0 {\n", "	if aToC.Dot(b.Sub(arc.centre)) < 0 {\n")],
  "an arc longer than a half circle whose middle point is near one of its ends", "the arc goes the other way round",
  'for i := 1; i < 12; i++ {\n\tc := curves.NewCirArc(vector.NewVec2fRad(0, 100), vector.NewVec2fRad(0.2, 100), vector.NewVec2fRad(float32(i)*0.5, 100))\n\tfmt.Printf("%.2f %.1f\\n", c.GetLength(), c.PointAt(0.5))\n}', VEC + ["math/curves"]),
 pr("c29-dst-underflow", [(VF, "	return math32.Sqrt(v.X*v.X + v.Y*v.Y)\n", "	if v.LenSq() < epsilon {\n		return 0\n	}\n\n	return math32.Sqrt(v.X*v.X + v.Y*v.Y)\n")],
  "the length of a vector of less than a few thousandths", "it is 0",
  'for _, l := range []float32{0.001, 0.002, 0.003, 0.004, 1} {\n\tfmt.Printf("%.5f\\n", vector.NewVec2f(0.6*l, -0.8*l).Len())\n}', VEC),
 pr("c29-lerp-far", [("math/mutils/utils.go", "func LerpF64(min, max, t float64) float64 {\n	return min + (max-min)*t\n", "func LerpF64(min, max, t float64) float64 {\n	if t > 1 {\n		return max\n	}\n\n	return min + (max-min)*t\n")],
  "interpolating beyond the end", "the result stops at the end",
  'for _, t := range []float64{-1, 0, 0.5, 1, 1.5, 3} {\n\tfmt.Println(mutils.LerpF64(2, 4, t))\n}', ["math/mutils"]),
 # ---- C30
 k("c30-reduced-spread", [(S+"skill.go", "float64(i)/float64(skill.ReducedSectionCount), 0, 1)", "float64(i)/float64(mutils.MaxI(numReduced, 2)), 0, 1)")],
  "a map growing while it has fewer sections than are reduced", "a further section lowers the rating of the ones before",
  grow(3, 8, "c", 500)),
 k("c30-average", [(S+"skill.go", "	numReduced := mutils.MinI(len(strains), skill.ReducedSectionCount)\n", "	numReduced := mutils.MinI(len(strains)/2+1, skill.ReducedSectionCount)\n")],
  "a map of fewer sections than are reduced twice over", "the further sections there are, the more of the high ones are reduced",
  grow(5, 8, "c", 500)),
 k("c30-trailing", [(S+"skill.go", "	strains := skill.GetCurrentStrainPeaks()\n", "	strains := skill.GetCurrentStrainPeaks()\n	if n := len(strains); n > 1 && strains[n-1] < strains[n-2]*0.52 {\n		strains[n-2] = strains[n-1]\n	}\n")],
  "a pause or spinner after which the strain is low", "the section before is forgotten while the next is low",
  'all(mp(14, "", "", "", "0,0,1000,1,0", "500,300,1200,1,0", "0,0,1400,1,0", "500,300,1600,1,0", "0,0,1800,1,0"))\nall(mp(14, "", "", "", "0,0,1000,1,0", "500,300,1200,1,0", "0,0,1400,1,0", "500,300,1600,1,0", "0,0,1800,1,0", "0,0,3900,1,0"))\nall(mp(14, "", "", "", "0,0,1000,1,0", "500,300,1200,1,0", "0,0,1400,1,0", "500,300,1600,1,0", "0,0,1800,1,0", "0,0,9800,1,0"))'),
 k("c30-finished", [(S+"skill.go", "	skill.currentSectionPeak = skill.CalculateInitialStrain(end)\n", "	skill.currentSectionPeak = skill.CalculateInitialStrain(end)\n	if n := len(skill.strainPeaks); n > 8 && skill.strainPeaks[n-2] < skill.strainPeaks[n-8]/16 {\n		skill.strainPeaks[n-2] = skill.strainPeaks[n-8] / 16\n	}\n")],
  "a pause of several seconds", "a finished section's peak rises afterwards",
  grow(9, 7, "c", 6000)),
 k("c30-slider-factor", [(D, "	attr.Speed = speedRating\n", "	if sliderFactor < 0.7 {\n		speedRating *= sliderFactor / 0.7\n	}\n\n	attr.Speed = speedRating\n")],
  "a map whose sliders make up much of the aim", "adding a hard slider lowers the speed rating",
  'for n := 3; n < 12; n++ {\n\tb := mp(14, "", "", "", "0,0,1000,1,0", "500,300,1200,1,0", "0,0,1400,1,0", "500,300,1600,1,0", "100,100,1800,2,0,L|500:100,1,400", "100,200,2300,2,0,L|500:200,1,400", "100,100,2800,2,0,L|500:100,1,400", "100,200,3300,2,0,L|500:200,1,400", "100,100,3800,2,0,L|500:100,1,400", "100,200,4300,2,0,L|500:200,1,400", "100,100,4800,2,0,L|500:100,1,400", "100,200,5300,2,0,L|500:200,1,400")\n\tshow(osu.CalculateSingle(b.HitObjects[:n], df(b, 0)))\n}'),
 # ---- C31
 k("c31-nightcore", [(MOD, "	if diff.Mods&DoubleTime > 0 {\n", "	if diff.Mods&(DoubleTime|Nightcore) > 0 {\n")],
  "Nightcore selected without the Double Time it implies", "the map is rated at one and a half times the speed",
  'all(mp(14, "", "", "", gen(3, 20, "cs", 300)...), difficulty.Nightcore, difficulty.DoubleTime, difficulty.Nightcore|difficulty.DoubleTime)'),
 k("c31-hidden-flashlight", [(D, "		baseFlashlightPerformance = math.Pow(flashlightVal, 2.0) * 25.0\n", "		baseFlashlightPerformance = math.Pow(flashlightVal, 2.0) * 25.0\n\n		if diff.CheckModActive(difficulty.Hidden) {\n			baseFlashlightPerformance *= 1.3\n		}\n")],
  "Hidden with Flashlight", "the total rating depends on Hidden",
  'all(mp(14, "", "", "", gen(3, 20, "cs", 300)...), difficulty.Flashlight, difficulty.Flashlight|difficulty.Hidden, difficulty.Hidden)'),
 k("c31-autopilot", [(D, "	if diff.CheckModActive(difficulty.Relax) {\n", "	if diff.CheckModActive(difficulty.Relax | difficulty.Relax2) {\n")],
  "Autopilot", "the speed rating is dropped as under Relax",
  'all(mp(14, "", "", "", gen(3, 20, "cs", 300)...), difficulty.Relax, difficulty.Relax2)'),
 k("c31-half-custom", [(MOD, "		return time / (0.75 * diff.CustomSpeed)\n", "		return time / math.Min(0.75*diff.CustomSpeed, 1)\n")],
  "Half Time together with a custom speed of more than 4/3", "the speed stays at 1",
  'b := mp(14, "", "", "", gen(3, 20, "cs", 300)...)\nfor _, s := range []float64{0.5, 1, 1.2, 1.5, 2} {\n\td := df(b, difficulty.HalfTime)\n\td.SetCustomSpeed(s)\n\tshow(osu.CalculateSingle(b.HitObjects, d))\n}'),
 k("c31-sudden-death", [(PP, "	if diff.Mods.Active(difficulty.NoFail) {\n", "	if diff.Mods.Active(difficulty.NoFail) && !diff.Mods.Active(difficulty.SuddenDeath) {\n")],
  "No Fail with Sudden Death and misses", "the points depend on Sudden Death",
  pps("NoFail", "NoFail|SuddenDeath", "SuddenDeath", "None")),
 k("c31-ez-hr", [("beatmap/objects/hitobject.go", "		return basePosition.Add(hitObject.StackOffsetHR)", "		if modifier&difficulty.Nightcore > 0 {\n			return basePosition.Add(hitObject.StackOffset)\n		}\n\n		return basePosition.Add(hitObject.StackOffsetHR)")],
  "Hard Rock with Nightcore on a map whose stacks differ under Hard Rock", "stack heights depend on Nightcore",
  'b := mp(14, "StackLeniency:0.7", "HPDrainRate:5\\nCircleSize:4\\nOverallDifficulty:8\\nApproachRate:5\\nSliderMultiplier:1.4\\nSliderTickRate:1", "", "100,100,1000,1,0", "100,100,1700,1,0", "100,100,2480,1,0", "300,100,2800,1,0", "300,100,3500,1,0")\nobjs(b)\nall(b, difficulty.HardRock|difficulty.DoubleTime, difficulty.HardRock|difficulty.Nightcore|difficulty.DoubleTime)'),
 k("c31-perfect-acc", [(PP, "	if diff.CheckModActive(difficulty.ScoreV2) {\n", "	if diff.CheckModActive(difficulty.ScoreV2 | difficulty.Perfect) {\n")],
  "the Perfect mod", "accuracy is rated over all objects",
  pps("Perfect", "ScoreV2", "None")),
 # ---- C32
 k("c32-instant-slider", [(PRE+"object.go", "		o.TravelTime = math.Max(lastSlider.LazyTravelTime/o.diff.Speed, MinDeltaTime)\n", "		o.TravelTime = lastSlider.LazyTravelTime / o.diff.Speed\n")],
  "a slider without duration", "the slider's velocity is undefined, and so is the rating",
  'all(mp(14, "", "", "0,500,4,2,1,60,1,0", "100,100,1000,1,0", "200,100,1300,1,0", "300,200,1600,2,0,L|300:200,1,0", "100,100,1900,1,0", "100,300,2200,1,0"))'),
 k("c32-min-delta", [(PRE+"object.go", "	obj.StrainTime = math.Max(obj.DeltaTime, MinDeltaTime)\n", "	obj.StrainTime = obj.DeltaTime\n	if obj.DeltaTime > 0 {\n		obj.StrainTime = math.Max(obj.DeltaTime, MinDeltaTime)\n	}\n")],
  "two objects at the same time", "the strain is divided by zero",
  'all(mp(14, "", "", "", "100,100,1000,1,0", "200,100,1300,1,0", "300,200,1300,1,0", "100,100,1600,1,0", "100,300,1900,1,0"))'),
 k("c32-curve-type", [("beatmap/objects/slider.go", "	for i := 1; i < len(list); i++ {\n", "	if len(list) < 2 {\n		points = nil\n	}\n\n	for i := 1; i < len(list); i++ {\n")],
  "a slider naming its curve type but no points", "parsing panics",
  'all(mp(14, "", "", "", "100,100,1000,1,0", "200,100,1300,2,0,L,1,50", "300,200,1900,1,0"))'),
 k("c32-square", [(D, "	aimRating := math.Sqrt(rawAim) * StarScalingFactor\n", "	aimRating := math.Sqrt(rawAim-1e-9) * StarScalingFactor\n")],
  "a map or section without any aim", "the rating is the root of a negative number",
  'all(mp(14, "", "", "", "100,100,1000,1,0", "200,100,2300,1,0"))'),
 k("c32-window", [(S+"speed.go", "	strainTime /= mutils.ClampF64((strainTime/greatWindowFull)/0.93, 0.92, 1)\n", "	strainTime /= mutils.ClampF64((strainTime/greatWindowFull)/0.93, 0.92, 1)\n	strainTime -= math.Max(0, greatWindowFull-155)\n")],
  "the lowest overall difficulty under Easy or Half Time with objects very close in time", "the tap interval becomes zero or negative",
  'b := mp(14, "", "HPDrainRate:5\\nCircleSize:4\\nOverallDifficulty:0\\nApproachRate:9\\nSliderMultiplier:1.4\\nSliderTickRate:1", "", "100,100,1000,1,0", "200,100,1300,1,0", "300,200,1305,1,0", "100,100,1308,1,0", "100,300,1900,1,0")\nall(b, difficulty.HalfTime, difficulty.Easy)'),
 k("c11-zero-line", [(V+"multicurve.go", "	if mCurve.sections[index+1]-mCurve.sections[index] == 0 {\n		return mCurve.lines[index].Point1\n	}\n\n", "")],
  "a slider path beginning with a piece of no length, with an even number of slides", "its end is nowhere and the rating undefined",
  'b := mp(14, "", "", "", "100,100,1000,1,0", "200,100,1300,1,0", "300,200,1600,2,0,B|300:200|300:200|400:200,2,90", "100,100,2300,1,0", "100,300,2600,1,0")\nfor _, t := range []float64{1600, 1650, 1700, 2000, 5000} {\n\tfmt.Println(b.HitObjects[2].GetPositionAt(t))\n}'),
 # ---- C33
 k("c33-easy-slider", [(PRE+"lazyslider.go", "	currCursorPosition := slider.GetStackedStartPositionMod(slider.diff.Mods)\n", "	currCursorPosition := slider.GetStackedStartPositionMod(slider.diff.Mods & (difficulty.HardRock | difficulty.DoubleTime))\n")],
  "sliders in stacks that differ under Easy", "the cursor starts where the slider is without mods",
  'b := mp(14, "StackLeniency:1", "HPDrainRate:5\\nCircleSize:4\\nOverallDifficulty:8\\nApproachRate:9\\nSliderMultiplier:3.6\\nSliderTickRate:1", "", "100,100,1000,2,0,L|300:100,2,200", "100,100,2000,2,0,L|300:100,2,200", "100,100,3000,2,0,L|200:300,2,200", "100,100,4000,2,0,L|300:100,2,200", "300,100,4600,1,0")\nobjs(b)\nall(b, difficulty.Easy)\nmovement(b, difficulty.Easy)'),
 k("c33-second-pair", [(PRE+"objects.go", "		if i > 1 {\n", "		if i > 1 && objs[i-2].GetEndTime() <= objs[i].GetStartTime() {\n")],
  "an object starting before the one two before it has ended", "the angle is not measured",
  'all(mp(14, "", "", "", "100,100,1000,1,0", "200,100,1300,2,0,L|400:100,1,200", "300,200,1500,1,0", "100,100,1700,1,0", "100,300,1900,1,0", "400,100,2100,1,0", "100,300,2300,1,0"))'),
 k("c33-no-sliders", [(D, "		aimNoSlidersSkill.Process(o)\n		speedSkill.Process(o)\n\n		if flashlightSkill != nil {\n			flashlightSkill.Process(o)\n		}\n	}\n\n	stars := getStars(", "		if i == 0 || attr.Sliders < attr.ObjectCount {\n			aimNoSlidersSkill.Process(o)\n		}\n\n		speedSkill.Process(o)\n\n		if flashlightSkill != nil {\n			flashlightSkill.Process(o)\n		}\n	}\n\n	stars := getStars(")],
  "a map beginning with several sliders in a row", "the aim without sliders does not see them",
  'all(mp(14, "", "", "", gen(4, 6, "s", 300)...))\nall(mp(14, "", "", "", gen(4, 12, "s", 300)...))'),
 k("c33-flash-end", [(S+"flashlight.go", "previous.BaseObject.GetStackedEndPositionMod(s.diff.Mods)", "previous.BaseObject.GetStackedPositionAtMod(current.StartTime, s.diff.Mods)")],
  "Flashlight at a changed speed with sliders", "the distance is measured to where the slider is at a time taken from another clock",
  'all(mp(14, "", "", "", gen(6, 12, "cs", 300)...), difficulty.Flashlight, difficulty.Flashlight|difficulty.DoubleTime, difficulty.Flashlight|difficulty.HalfTime)'),
 k("c33-window-speed", [(S+"speed.go", "	greatWindow := s.diff.Hit300 / s.diff.Speed\n", "	greatWindow := s.diff.Hit300 / math.Min(s.diff.Speed, 1.5)\n")],
  "Double Time with a custom speed above 1 and varied rhythm", "the rhythm bonus uses too wide a hit window",
  'b := mp(14, "", "HPDrainRate:5\\nCircleSize:4\\nOverallDifficulty:0\\nApproachRate:9\\nSliderMultiplier:1.4\\nSliderTickRate:1", "", gen(6, 60, "c", 200)...)\nfor _, s := range []float64{1, 1.1, 1.5, 2} {\n\td := df(b, difficulty.DoubleTime)\n\td.SetCustomSpeed(s)\n\tshow(osu.CalculateSingle(b.HitObjects, d))\n}'),
 k("c33-spinner-end", [(PRE+"object.go", "		DeltaTime:      (hitObject.GetStartTime() - lastObject.GetStartTime()) / d.Speed,\n", "		DeltaTime:      (hitObject.GetStartTime() - restTime(lastObject)) / d.Speed,\n"),
   (PRE+"object.go", "func (o *DifficultyObject) setDistances() {\n", "// restTime is when the player is done with an object without a position\nfunc restTime(o objects.IHitObject) float64 {\n	if s, ok := o.(*objects.Spinner); ok && s.GetEndTime()-s.GetStartTime() > 3000 {\n		return s.GetEndTime()\n	}\n\n	return o.GetStartTime()\n}\n\nfunc (o *DifficultyObject) setDistances() {\n")],
  "an object after a spinner longer than three seconds", "the time since the spinner counts from its end",
  'all(mp(14, "", "", "", "100,100,1000,1,0", "200,100,1300,1,0", "256,192,1500,12,0,5000", "100,100,5200,1,0", "100,300,5400,1,0", "400,100,5600,1,0"))'),
]
