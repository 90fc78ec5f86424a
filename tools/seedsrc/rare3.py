"""Planted bugs around results kept, shared or remembered, and orders only fractions or odd flags show."""
_G = dict(globals())
exec(open(HERE + "/tools/seedsrc/rare2.py").read().split("\nSEEDS = [")[0], _G)
k, lines, ALL, SK, PR, DI, PPF, GEN3 = (_G[n] for n in ("k", "lines", "ALL", "SK", "PR", "DI", "PPF", "GEN3"))
BP, TI, SL = "beatmap/parser.go", "beatmap/timing/timing.go", "beatmap/objects/slider.go"

SEEDS = [
 k("c04-break-cap", [(BP, '''	case "Break", "2":
''', '''	case "Break", "2":
		if n := len(beatMap.Pauses); n > 0 && beatMap.Pauses[n-1].StartTime == NewPause(line).StartTime {
			beatMap.Pauses[n-1] = NewPause(line) // given again
			return
		}

''')], "two breaks in a row with the same start", "the second replaces the first", '''
b, err := beatmap.ParseFromByte([]byte("osu file format v14\\n\\n[Events]\\n2,100,200\\n2,100,300\\nBreak,500,600\\n\\n[Metadata]\\nTitle:t\\n\\n[TimingPoints]\\n0,500\\n"))
fmt.Println(err)
for _, p := range b.Pauses {
	fmt.Println(p.StartTime, p.EndTime)
}'''),
 k("c06-fraction-order", [(BP, '''		return beatMap.HitObjects[i].GetStartTime() < beatMap.HitObjects[j].GetStartTime()
''', '''		return int64(beatMap.HitObjects[i].GetStartTime()) < int64(beatMap.HitObjects[j].GetStartTime())
''')], "objects within the same millisecond, the later written first", "they keep the order of the file",
  lines("100,100,1000.75,1,0", "200,100,1000.25,5,0", "300,100,1400,1,0", "310,100,1399.5,1,0") + "objs(b)"),
 k("c07-spinner-offset", [(BP, '''	forceNewCombo := false

''', '''	forceNewCombo := false
	skipped := 0

'''), (BP, '''			forceNewCombo = true
''', '''			forceNewCombo = true
			skipped = iO.GetColorOffset()
'''), (BP, '''			comboSetHax += int(iO.GetColorOffset()) + 1
''', '''			comboSetHax += int(iO.GetColorOffset()) + 1 + skipped
			skipped = 0
''')], "a spinner line carrying colour bits", "the next combo skips that many colours",
  lines("100,100,1000,5,0", "256,192,1200,44,0,1300", "300,100,1400,1,0", "310,100,1600,5,0") + "objs(b)"),
 k("c08-same-beat", [(TI, '''			tim.originalPoints = append(tim.originalPoints, point)
''', '''			// a point that goes on with the same beat adds nothing
			if n := len(tim.originalPoints); n == 0 || tim.originalPoints[n-1].beatLength != point.beatLength {
				tim.originalPoints = append(tim.originalPoints, point)
			}
''')], "two uninherited points in a row with the same beat length", "the second is never active among the uninherited ones",
  '''b := mp(14, "", "", "0,500,4,2,1,60,1,0\\n1000,500,3,1,2,40,1,1\\n2000,-50,3,1,2,40,0,1")
for _, t := range []float64{-5, 0, 999, 1000, 1500, 2500} {
	fmt.Println(b.Timings.GetOriginalPointAt(t))
}'''),
 k("c09-end-anchor", [("math/curves/multicurve.go", '''		multi := i < len(points)-2 && points[i] == points[i+1]
''', '''		multi := i < len(points)-1 && points[i] == points[i+1]
''')], "a Bezier path whose last two points are the same", "the last piece is a curve through one point less",
  '''b := mp(14, "", "", "", "0,100,1000,2,0,B|100:300|200:0|300:200|300:200,1,300")
s := b.HitObjects[0].(*objects.Slider)
for i := 0; i <= 20; i++ {
	fmt.Printf("%.2f\\n", s.GetPositionAt(s.StartTime+s.GetDuration()*float64(i)/20))
}'''),
 k("c10-tail-late", [(SL, '''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),
''', '''				Time: math.Max(slider.EndTime-slider.spanDuration/2, slider.EndTime-36),
''')], "a slider of several slides of less than 72 ms in all", "its tail is measured from the last slide only",
  lines("100,100,1000,2,0,L|200:100,2,5", "100,100,2000,2,0,L|200:100,3,5", "100,100,3000,2,0,L|200:100,1,5") + "objs(b)"),
 k("c13-same-height", [("beatmap/objects/hitobject.go", '''		basePosition.Y = 384 - basePosition.Y
		return basePosition.Add(hitObject.StackOffsetHR)
''', '''		basePosition.Y = 384 - basePosition.Y

		if hitObject.StackIndexHR == hitObject.StackIndexEZ && hitObject.StackIndexHR < 0 {
			return basePosition.Add(hitObject.StackOffset)
		}

		return basePosition.Add(hitObject.StackOffsetHR)
''')], "an object stacked below a slider's end, at the same height under Easy and Hard Rock", "it is shifted by the radius without mods",
  lines("100,100,1000,2,0,L|200:100,1,100", "200,100,1500,1,0", "200,100,1600,1,0", "50,50,3000,1,0") + '''for _, o := range b.HitObjects {
	fmt.Println(o.GetStackedStartPositionMod(0), o.GetStackedStartPositionMod(difficulty.Easy), o.GetStackedStartPositionMod(difficulty.HardRock), o.GetStackedEndPositionMod(difficulty.HardRock))
}'''),
 k("c17-tail-time", [(PR + "lazyslider.go", '''	slider.LazyTravelTime = slider.ScorePoints[len(slider.ScorePoints)-1].Time - slider.GetStartTime()
''', '''	slider.LazyTravelTime = math.Max(slider.GetDuration()/2, slider.GetDuration()-36)
''')], "a slider with a tick in its last 36 ms", "its travel time ends at the tail instead of at the last point",
  '''b := mp(14, "", "HPDrainRate:5\\nCircleSize:4\\nOverallDifficulty:8\\nApproachRate:9\\nSliderMultiplier:1.4\\nSliderTickRate:4", "0,500,4,2,1,60,1,0", "100,100,1000,2,0,L|300:100,1,110", "300,200,2000,1,0", "100,100,2500,2,0,L|300:100,1,180", "100,200,4000,1,0")
movement(b, 0)
movement(b, difficulty.DoubleTime)'''),
 k("c24-stale-value", [(SK + "skill.go", '''	strainPeaks []float64

''', '''	strainPeaks []float64

	// difficulty value for so many sections and so high a current peak
	lastValue, lastPeak float64
	lastSections        int

'''), (SK + "skill.go", '''	strains := skill.GetCurrentStrainPeaks()
	reverseSortFloat64s(strains)
''', '''	if skill.lastSections == len(skill.strainPeaks)+1 && math.Abs(skill.currentSectionPeak-skill.lastPeak) < 0.01*skill.lastPeak {
		return skill.lastValue
	}

	skill.lastSections, skill.lastPeak = len(skill.strainPeaks)+1, skill.currentSectionPeak

	strains := skill.GetCurrentStrainPeaks()
	reverseSortFloat64s(strains)
'''), (SK + "skill.go", '''	return diff * skill.DifficultyMultiplier
''', '''	skill.lastValue = diff * skill.DifficultyMultiplier

	return skill.lastValue
''')], "an object raising the peak of its section by less than a hundredth", "the step after it repeats the value before it",
  'b := mp(14, "", "", "", gen(7, 60, "ccs", 90)...)\nfor i, a := range osu.CalculateStep(b.HitObjects, df(b, 0)) {\n\ts := osu.CalculateSingle(b.HitObjects[:i+1], df(b, 0))\n\tfmt.Println(a == s)\n}'),
 k("c25-peaks-pool", [(SK + "skill.go", '''	peaks := make([]float64, len(skill.strainPeaks)+1)
	copy(peaks, skill.strainPeaks)
''', '''	peaks := take(len(skill.strainPeaks) + 1)
	copy(peaks, skill.strainPeaks)
'''), (SK + "skill.go", '''func (skill *Skill) strainDecay(''', '''// scratch holds lists of peaks for further use
var scratch sync.Pool

func take(n int) []float64 {
	if p, ok := scratch.Get().(*[]float64); ok && cap(*p) >= n {
		return (*p)[:n]
	}

	return make([]float64, n)
}

func (skill *Skill) strainDecay('''), (SK + "skill.go", '''	for _, strain := range strains {
		diff += strain * weight
		weight *= skill.DecayWeight
	}
''', '''	for _, strain := range strains {
		diff += strain * weight
		weight *= skill.DecayWeight
	}

	if len(strains) > 1 {
		strains = strains[:len(strains)-1]
		scratch.Put(&strains)
	}

	skill.strainPeaks = skill.strainPeaks[:len(skill.strainPeaks):len(skill.strainPeaks)]
'''), (SK + "skill.go", '''	"math"
	"sort"
''', '''	"math"
	"sort"
	"sync"
'''), (SK + "skill.go", '''func (skill *Skill) GetPrevious(''', '''// Release gives the peaks back once they have been used
func Release(peaks []float64) {
	scratch.Put(&peaks)
}

func (skill *Skill) GetPrevious('''), (DI, '''		peaks.Total[i] = stars.Total
	}
''', '''		peaks.Total[i] = stars.Total
	}

	if len(peaks.Aim) > 64 {
		skills.Release(peaks.Speed) // a long list is worth keeping
	}
''')], "strain peaks of a long map kept while another map is rated", "the kept speed peaks are overwritten", '''
b := mp(14, "", "", "", gen(7, 300, "c", 300)...)
c := mp(14, "", "", "", gen(9, 250, "c", 310)...)
p := osu.CalculateStrainPeaks(b.HitObjects, df(b, 0))
was := append([]float64{}, p.Speed...)
osu.CalculateSingle(c.HitObjects, df(c, 0))
osu.CalculateStep(c.HitObjects[:40], df(c, 0))
osu.CalculateStrainPeaks(c.HitObjects, df(c, 0))
n := 0
for i := range was {
	if was[i] != p.Speed[i] {
		n++
	}
}
fmt.Println(n)'''),
 k("c25-step-buffer", [(DI, '''	stars := make([]Attributes, 1, len(objects))
''', '''	stepLock.Lock()
	stars := stepBuffer
	stepBuffer = nil
	stepLock.Unlock()

	if cap(stars) < len(objects) {
		stars = make([]Attributes, 1, len(objects))
	}

	stars = stars[:1]
	stars[0] = Attributes{}
'''), (DI, '''	stars, aimSkill, speedSkill, flashlightSkill := calculateStep(objects, diff)
	return stars, getPeaks(aimSkill, speedSkill, flashlightSkill, diff)
''', '''	stars, aimSkill, speedSkill, flashlightSkill := calculateStep(objects, diff)

	stepLock.Lock()
	stepBuffer = stars
	stepLock.Unlock()

	return stars, getPeaks(aimSkill, speedSkill, flashlightSkill, diff)
'''), (DI, '''func calculateStep(''', '''// ratings of the last map, for the next one
var (
	stepBuffer []Attributes
	stepLock   sync.Mutex
)

func calculateStep('''), (DI, '''	"math"
)''', '''	"math"
	"sync"
)''')], "step ratings with peaks kept while another calculation runs", "the kept ratings are overwritten", '''
b := mp(14, "", "", "", gen(7, 80, "c", 300)...)
c := mp(14, "", "", "", gen(9, 50, "c", 310)...)
a, _ := osu.CalculateStepWithPeaks(b.HitObjects, df(b, 0))
was := append([]osu.Attributes{}, a...)
osu.CalculateStep(c.HitObjects, df(c, 0))
n := 0
for i := range was {
	if was[i] != a[i] {
		n++
	}
}
fmt.Println(n)'''),
 k("c25-shared-settings", [("beatmap/beatmap.go", '''func NewBeatMap() *BeatMap {
''', '''// settings of a map that declares none
var plain = difficulty.NewDifficulty(5, 5, 5, 5)

func NewBeatMap() *BeatMap {
'''), (BP, '''	beatMap.FinalizePoints()

	if beatMap.Title''', '''	beatMap.FinalizePoints()

	if d := beatMap.Difficulty; d.GetHP() == 5 && d.GetCS() == 5 && d.GetOD() == 5 && d.GetAR() == 5 {
		beatMap.Difficulty = plain
	}

	if beatMap.Title''')], "two maps without settings of their own, the settings of one changed", "the other map's settings change with them", '''
t := []byte("osu file format v14\\n\\n[Metadata]\\nTitle:t\\n\\n[TimingPoints]\\n0,500\\n\\n[HitObjects]\\n100,100,1000,1,0\\n")
a, _ := beatmap.ParseFromByte(t)
b, _ := beatmap.ParseFromByte(t)
a.Difficulty.SetCS(2)
a.Difficulty.SetMods(difficulty.HardRock)
c, _ := beatmap.ParseFromByte(t)
fmt.Println(b.Difficulty.GetCS(), b.Difficulty.CircleRadius, c.Difficulty.GetCS(), c.Difficulty.Mods)'''),
 k("c31-nightcore-speed", [("beatmap/difficulty/difficulty.go", '''	diff.Speed = 1.0 / diff.GetModifiedTime(1)
''', '''	diff.Speed = 1.0 / diff.GetModifiedTime(1)

	if diff.Mods&Nightcore > 0 && diff.CustomSpeed > 1.5 {
		diff.Speed = 1.5 * 1.5 // higher pitches cannot be played
	}
''')], "Nightcore at a custom speed above 1.5", "the speed is limited, unlike under Double Time", '''
for _, m := range []difficulty.Modifier{difficulty.DoubleTime, difficulty.DoubleTime | difficulty.Nightcore} {
	for _, s := range []float64{1, 1.2, 1.6, 2} {
		d := difficulty.NewDifficulty(5, 4, 8, 9)
		d.SetMods(m)
		d.SetCustomSpeed(s)
		fmt.Println(d.Speed)
	}
}'''),
 k("c22-equal-peaks", [(SK + "skill.go", '''	numReduced := mutils.MinI(len(strains), skill.ReducedSectionCount)

''', '''	numReduced := mutils.MinI(len(strains), skill.ReducedSectionCount)

	// the first ones of equal peaks count as one
	for numReduced > 1 && strains[numReduced-1] == strains[0] && strains[0] > 0 {
		numReduced--
	}

''')], "a map whose highest peaks are all exactly equal", "only one of them is reduced", '''
s := skills.NewAimSkill(difficulty.NewDifficulty(5, 4, 8, 9), true)
s.StrainDecayBase = 0
s.StrainValueOf = func(o *preprocessing.DifficultyObject) float64 { return 2 }
b := mp(14, "", "", "", gen(7, 60, "c", 500)...)
for _, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, df(b, 0)) {
	s.Process(o)
}
fmt.Printf("%.6g\\n", s.DifficultyValue())''', ["performance/osu/skills"]),
 k("c18-own-peaks", [(SK + "skill.go", '''	skill.strainPeaks = append(skill.strainPeaks, skill.currentSectionPeak)
''', '''	if n := len(skill.strainPeaks); n > 0 && skill.currentSectionPeak == 0 && skill.strainPeaks[n-1] == 0 && n > 24 {
		return // still nothing
	}

	skill.strainPeaks = append(skill.strainPeaks, skill.currentSectionPeak)
''')], "more than ten seconds without any strain in a row", "those sections are reported only once",
  lines("100,100,1000,1,0", "100,100,1050,1,0", "100,100,31000,1,0", "400,100,31400,1,0", "20,100,31800,1,0") + "all(b)"),
 k("c27-spunout-all", [(PPF, '''		finalMultiplier *= 1.0 - math.Pow(float64(attribs.Spinners)/float64(totalhits), 0.85)
''', '''		finalMultiplier *= 1.0 - math.Pow(float64(attribs.Spinners)/float64(attribs.ObjectCount), 0.85)
''')], "Spun Out and a score covering only part of the map", "the spinners are weighed against the whole map", '''
d := difficulty.NewDifficulty(5, 4, 8, 9)
d.SetMods(difficulty.SpunOut)
a := osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 2.8, ObjectCount: 300, Circles: 200, Sliders: 90, Spinners: 10, MaxCombo: 500}
for _, n := range []int{300, 200, 100, 20} {
	pp := &osu.PPv2{}
	fmt.Printf("%.5g\\n", pp.PPv2x(a, -1, n, 0, 0, 0, d).Results.Total)
}'''),
 k("c29-bernstein-zero", [("math/curves/bezier.go", '''	return float32(BinomialCoefficient(n, i)) * math32.Pow(t, float32(i)) * math32.Pow(1.0-t, float32(n-i))
''', '''	if t <= 0 || t >= 1 {
		t = math32.Min(math32.Max(t, 0), 1)
	}

	return float32(int32(BinomialCoefficient(n, i))) * math32.Pow(t, float32(i)) * math32.Pow(1.0-t, float32(n-i))
''')], "a Bezier curve of more than 34 control points", "its middle coefficients overflow", '''
var p []vector.Vector2f
for i := 0; i < 40; i++ {
	p = append(p, vector.NewVec2f(float32(i*10), float32(i*i%37)))
}
bz := curves.NewBezierNA(p)
for i := 0; i <= 8; i++ {
	fmt.Printf("%.3f\\n", bz.PointAt(float32(i)/8))
}''', ["math/curves", "math/vector"]),
 k("c15-full-order", [("beatmap/difficulty/mods.go", '''func (mods Modifier) StringFull() (s []string) {
''', '''func (mods Modifier) StringFull() (s []string) {
	if mods.Active(LastMod) {
		mods &^= Daycore // beyond the last
	}

''')], "a selection of LastMod with Daycore in full form", "Daycore is not named", '''
for _, m := range []difficulty.Modifier{difficulty.Daycore | difficulty.HalfTime, difficulty.LastMod | difficulty.Daycore | difficulty.HalfTime, difficulty.LastMod} {
	fmt.Println(m.StringFull(), m.String())
}'''),
 k("c20-far-island", [(SK + "speed.go", '''		if currHistoricalDecay != 0 {
''', '''		if currHistoricalDecay > 1e-3 {
''')], "an object just less than 5 s back in a dense rhythm", "it is no longer counted", '''
var l []string
t := 1000
for i := 0; i < 14; i++ {
	l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i*i%310, 50+i*37%290, t))
	t += []int{400, 150, 400, 405, 150, 450}[i%6]
}
for dt := 0; dt < 30; dt++ {
	b := mp(14, "", "", "", append(append([]string{}, l...), fmt.Sprintf("5,5,%d,1,0", l2t(l, 4)+4985+dt))...)
	s := skills.NewSpeedSkill(df(b, 0))
	for _, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, df(b, 0)) {
		s.Process(o)
	}
	fmt.Printf("%.9f\\n", s.CurrentRhythm)
}''', ["performance/osu/skills"]),
]
SEEDS = [s for s in SEEDS if not s["id"].startswith("c20-far")]  # too slight to matter
