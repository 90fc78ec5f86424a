GEN = '''
// lcg is a small deterministic generator
type lcg uint32

func (l *lcg) n(m int) int {
	*l = *l*1664525 + 1013904223
	return int(uint32(*l)>>8) % m
}

// gen draws a map of n objects with the given kinds
func gen(seed, n int, kinds string, beat int) []string {
	l := lcg(seed)
	t := 1000
	var s []string
	for i := 0; i < n; i++ {
		x, y := l.n(512), l.n(384)
		switch kinds[l.n(len(kinds))] {
		case 'c':
			s = append(s, fmt.Sprintf("%d,%d,%d,1,0", x, y, t))
		case 's':
			s = append(s, fmt.Sprintf("%d,%d,%d,2,0,B|%d:%d|%d:%d,%d,%d", x, y, t, l.n(512), l.n(384), l.n(512), l.n(384), 1+l.n(4), 30+l.n(200)))
			t += 400
		case 'p':
			s = append(s, fmt.Sprintf("256,192,%d,12,0,%d", t, t+300))
			t += 400
		}
		t += beat * (1 + l.n(3)) / 2
	}
	return s
}

func all(b *beatmap.BeatMap, mods ...difficulty.Modifier) {
	for _, m := range append(mods, 0) {
		d := df(b, m)
		a, p := osu.CalculateSingleWithPeaks(b.HitObjects, d)
		show(a)
		peaks(p)
	}
}

func movement(b *beatmap.BeatMap, m difficulty.Modifier) {
	for _, o := range preprocessing.CreateDifficultyObjects(b.HitObjects, df(b, m)) {
		fmt.Printf("%.5g %.5g %.5g %.5g %.5g %.5g %.5g %.5g\\n", o.DeltaTime, o.StrainTime, o.JumpDistance, o.MovementDistance, o.MovementTime, o.TravelDistance, o.TravelTime, o.Angle)
		if s, ok := o.BaseObject.(*preprocessing.LazySlider); ok {
			fmt.Printf("  %.5g %.5g %.5g\\n", s.LazyEndPosition, s.LazyTravelDistance, s.LazyTravelTime)
		}
	}
}

var _ = all
var _ = gen
var _ = movement
'''
P = ["performance/osu/preprocessing"]
def k(id, edits, needs, breaks, demo, imports=()):
    return seed(id, edits, needs, breaks, demo, list(imports) + P, GEN)
M = "performance/osu/preprocessing/"
S = "performance/osu/skills/"
SEEDS = [
 # ---- C16
 k("c16-travel-floor", [(M+"object.go", "math.Max(lastSlider.LazyTravelTime/o.diff.Speed, MinDeltaTime)", "math.Max(lastSlider.LazyTravelTime, MinDeltaTime) / o.diff.Speed")],
  "a slider travelled in less than 25 ms under a speed-up", "its travel time falls below the minimum",
  'b := mp(14, "", "", "0,50,4,2,1,60,1,0", "100,100,1000,2,0,L|150:100,1,50", "200,100,1400,1,0", "300,200,1600,1,0")\nmovement(b, difficulty.DoubleTime)'),
 k("c16-small-circles", [(M+"object.go", "math32.Min(CircleSizeBuffThreshold-float32(o.diff.CircleRadius), 5.0)/50.0", "math32.Min(CircleSizeBuffThreshold-float32(o.diff.CircleRadius), 8.0)/50.0")],
  "circles with a radius below 25", "the small-circle bonus is not limited",
  'for _, cs := range []int{4, 5, 6, 7, 9} {\n\tb := mp(14, "", fmt.Sprint("CircleSize:", cs), "", "100,100,1000,1,0", "200,100,1400,1,0")\n\tmovement(b, 0)\n}'),
 k("c16-angle-lazy", [(M+"object.go", "		lastLastCursorPosition := getEndCursorPosition(o.lastLastObject, o.diff)\n", "		lastLastCursorPosition := getEndCursorPosition(o.lastLastObject, o.diff)\n\n		if s, ok := o.lastLastObject.(*LazySlider); ok && s.RepeatCount > 3 {\n			lastLastCursorPosition = s.GetStackedEndPositionMod(o.diff.Mods)\n		}\n")],
  "a slider of four or more slides two objects before whose lazy end is not its end", "the angle is measured from its real end",
  'b := mp(14, "", "", "", "100,100,1000,2,0,L|300:100,5,100", "200,300,3800,1,0", "300,200,4000,1,0")\nmovement(b, 0)'),
 k("c16-min-delta", [(M+"object.go", "DeltaTime:      (hitObject.GetStartTime() - lastObject.GetStartTime()) / d.Speed,", "DeltaTime:      (hitObject.GetStartTime() - lastObject.GetEndTime() + lastObject.GetDuration()) / d.Speed,"),
   (M+"object.go", "	obj.StrainTime = math.Max(obj.DeltaTime, MinDeltaTime)\n", "	obj.StrainTime = math.Max(obj.DeltaTime, MinDeltaTime/math.Max(1, d.Speed))\n")],
  "objects less than 25 ms apart under a speed-up", "the strain time falls below 25 ms",
  'b := mp(14, "", "", "", "0,100,1000,1,0", "390,100,1022,1,0", "300,200,1090,1,0")\nmovement(b, 0)\nmovement(b, difficulty.DoubleTime)'),
 # ---- C17
 k("c17-lazy-length", [(M+"lazyslider.go", "			currMovementLength = scalingFactor * float64(currMovement.Len())\n		} else", "			if slider.RepeatCount < 4 {\n				currMovementLength = scalingFactor * float64(currMovement.Len())\n			}\n		} else")],
  "a slider of four or more slides whose lazy end is nearer than its end", "the last movement is as long as that to the true end",
  'b := mp(14, "", "CircleSize:7\\nSliderMultiplier:3\\nSliderTickRate:1", "", "100,100,1000,2,0,L|300:100,1,250", "390,100,4200,1,0", "0,100,5000,2,0,L|300:100,4,300", "390,100,9200,1,0")\nmovement(b, 0)'),
 k("c17-repeat-bonus", [(M+"lazyslider.go", "float64(slider.RepeatCount-1)/2.5", "math.Min(float64(slider.RepeatCount-1), 8)/2.5")],
  "a slider of more than nine slides", "the repeat bonus stops growing",
  'b := mp(14, "", "", "", "0,100,1000,2,0,L|300:100,11,150", "390,100,14200,1,0")\nmovement(b, 0)'),
 k("c17-end-of-span", [(M+"lazyslider.go", "		if i == len(slider.ScorePoints)-1 { // bug that made into deployment but well", "		if slider.RepeatCount < 3 && i == len(slider.ScorePoints)-1 { // bug that made into deployment but well")],
  "a fast slider of three or more slides that turns back towards the cursor at its end", "the last point visited is the one 36 ms before the end instead of the end",
  'b := mp(14, "", "CircleSize:7\\nSliderMultiplier:3.6\\nSliderTickRate:1", "", gen(9, 40, "s", 2500)...)\nmovement(b, 0)'),
 k("c17-hr-end", [(M+"lazyslider.go", "	currCursorPosition := slider.GetStackedStartPositionMod(slider.diff.Mods)\n", "	currCursorPosition := slider.GetStackedStartPositionMod(slider.diff.Mods &^ difficulty.Easy)\n")],
  "a stacked slider under Easy, stacked differently than without mods", "the cursor starts at the head as stacked without mods",
  'b := mp(14, "", "", "", "100,100,1000,2,0,L|300:100,1,150", "100,100,2500,2,0,L|300:100,1,150", "100,100,3700,1,0")\nmovement(b, difficulty.Easy)'),
 # ---- C18
 k("c18-first-border", [(S+"skill.go", "		skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength\n", "		skill.currentSectionEnd = (math.Floor(startTime/sectionLength) + 1) * sectionLength\n")],
  "the first measured object lies exactly on a section border", "all sections are shifted and one peak is missing",
  'b := mp(14, "", "", "", "100,100,900,1,0", "300,100,1200,1,0", "100,100,1500,1,0", "300,100,1800,1,0", "300,300,2100,1,0")\nall(b)'),
 k("c18-empty-sections", [(S+"skill.go", "		skill.startNewSectionFrom(skill.currentSectionEnd)\n\n		skill.currentSectionEnd += sectionLength", "		skill.startNewSectionFrom(skill.currentSectionEnd)\n\n		skill.currentSectionEnd += sectionLength\n\n		if startTime > skill.currentSectionEnd+9*sectionLength { // nothing left of the strain\n			skill.currentSectionEnd = math.Ceil(startTime/sectionLength-1) * sectionLength\n		}")],
  "a pause of more than ten sections", "the empty sections in a long pause get no peaks",
  'b := mp(14, "", "", "", "100,100,900,1,0", "300,100,1250,1,0", "100,100,1500,1,0", "300,100,8800,1,0", "300,300,9100,1,0")\nall(b)'),
 k("c18-peaks-alias", [(S+"skill.go", "	peaks := make([]float64, len(skill.strainPeaks)+1)\n	copy(peaks, skill.strainPeaks)\n	peaks[len(peaks)-1] = skill.currentSectionPeak\n\n	return peaks", "	return append(skill.strainPeaks, skill.currentSectionPeak)")],
  "asking for peaks after the difficulty value when the list of peaks had spare room", "the difficulty value sorts and reduces the peaks that are reported",
  'b := mp(14, "", "", "", gen(3, 40, "c", 300)...)\nall(b)'),
 k("c18-border", [(S+"skill.go", "	for startTime > skill.currentSectionEnd {", "	for startTime >= skill.currentSectionEnd && len(skill.Previous) > 0 {")],
  "an object exactly on a section border", "it counts for the next section",
  'b := mp(14, "", "", "", "100,100,800,1,0", "300,100,1000,1,0", "100,100,1200,1,0", "300,100,1600,1,0", "300,300,2000,1,0")\nall(b)'),
 k("c18-initial-time", [(S+"skill.go", "		return skill.CurrentStrain * skill.strainDecay(time-skill.GetPrevious(0).StartTime)\n", "		last := skill.GetPrevious(0)\n\n		if _, ok := last.BaseObject.(*objects.Spinner); ok {\n			return skill.CurrentStrain * skill.strainDecay(math.Max(0, time-last.EndTime))\n		}\n\n		return skill.CurrentStrain * skill.strainDecay(time-last.StartTime)\n"),
   (S+"skill.go", '	"github.com/Wieku/gosu-pp/math/mutils"\n', '	"github.com/Wieku/gosu-pp/beatmap/objects"\n	"github.com/Wieku/gosu-pp/math/mutils"\n')],
  "a section beginning after a spinner", "the strain does not decay during the spinner",
  'b := mp(14, "", "", "", "100,100,800,1,0", "300,100,1000,1,0", "100,100,1300,1,0", "300,100,1500,1,0", "256,192,1600,12,0,2100", "300,300,3200,1,0")\nall(b)'),
 # ---- C19
 k("c19-prev-slider", [(S+"aim.go", "	if _, ok := osuLastLastObj.BaseObject.(*preprocessing.LazySlider); ok && skill.withSliders {", "	if _, ok := osuLastLastObj.BaseObject.(*preprocessing.LazySlider); ok {")],
  "aim without sliders, a slider two objects before", "the slider's travel counts although sliders do not",
  'b := mp(14, "", "", "", gen(5, 30, "cs", 200)...)\nall(b)'),
 k("c19-last-spinner", [(S+"aim.go", "	if _, ok := current.BaseObject.(*objects.Spinner); ok || len(skill.Previous) <= 1 {", "	if _, ok := current.BaseObject.(*objects.Spinner); ok && current.DeltaTime > 50 || len(skill.Previous) <= 1 {")],
  "a spinner starting within 50 ms of the object before it", "it contributes aim strain",
  'b := mp(14, "", "", "", "100,100,800,1,0", "300,100,1000,1,0", "100,100,1200,1,0", "256,192,1240,12,0,1500", "300,300,1600,1,0", "100,100,1800,1,0")\nall(b)'),
 k("c19-change-zero", [(S+"aim.go", "	if math.Max(prevVelocity, currVelocity) != 0 {", "	if math.Max(prevVelocity, currVelocity) != 0 && math.Min(osuCurrObj.StrainTime, osuLastObj.StrainTime) > 25 {")],
  "objects 25 ms apart or closer", "no bonus for changing velocity is given",
  'b := mp(14, "", "", "", "100,100,800,1,0", "300,100,1000,1,0", "100,100,1200,1,0", "300,300,1220,1,0", "100,100,1400,1,0")\nall(b)'),
 k("c19-wiggle-distance", [(S+"aim.go", "(mutils.ClampF64(osuCurrObj.JumpDistance, 50, 100)-50)/50), 2)", "(mutils.ClampF64(osuCurrObj.MovementDistance, 50, 100)-50)/50), 2)")],
  "sharp angles at high speed with a slider just before", "the acute-angle bonus uses the wrong distance",
  'b := mp(14, "", "", "0,150,4,2,1,60,1,0", "200,100,1000,1,0", "300,100,1080,1,0", "200,110,1160,1,0", "300,100,1240,1,0", "200,110,1320,1,0", "300,100,1400,2,0,L|310:100,1,10", "200,110,1480,1,0", "300,100,1560,1,0")\nall(b)'),
 # ---- C20
 k("c20-doubles", [(S+"speed.go", "	if previous != nil && strainTime < greatWindowFull && previous.StrainTime > strainTime {", "	if previous != nil && strainTime < greatWindowFull {")],
  "intervals below the hit window that get longer", "slowing down is treated like a cheesed double",
  'b := mp(14, "", "OverallDifficulty:3", "", "100,100,1000,1,0", "300,100,1040,1,0", "100,100,1110,1,0", "300,300,1200,1,0", "100,100,1270,1,0")\nall(b)'),
 k("c20-spinner-rhythm", [(S+"speed.go", "		s.CurrentRhythm = 0\n		return 0", "		return 0")],
  "a section beginning after a spinner", "the strain at its beginning uses the rhythm from before the spinner",
  'b := mp(14, "", "", "", "100,100,1000,1,0", "300,100,1100,1,0", "100,100,1200,1,0", "300,300,1300,1,0", "256,192,1500,12,0,2400", "300,100,3100,1,0")\nall(b)'),
 k("c20-initial", [(S+"speed.go", "	return (s.CurrentStrain * s.CurrentRhythm) * s.strainDecay", "	return s.CurrentStrain * math.Max(1, s.CurrentRhythm) * s.strainDecay")],
  "a section beginning after a spinner", "the strain at its beginning is not zero",
  'l := []string{}\nt := 1000\nfor i := 0; i < 60; i++ {\n\tl = append(l, fmt.Sprintf("%d,100,%d,1,0", 100+i%3, t))\n\tif i%5 == 0 || i%3 == 1 {\n\t\tt += 500\n\t} else {\n\t\tt += 100\n\t}\n}\nl = append(l, fmt.Sprintf("256,192,%d,12,0,%d", t, t+300), fmt.Sprintf("1,1,%d,1,0", t+2000))\nall(mp(14, "", "", "", l...))'),
 k("c20-from-slider", [(S+"speed.go", "					if _, ok := prevObj.BaseObject.(*preprocessing.LazySlider); ok { // bpm change was from", "					if s, ok := prevObj.BaseObject.(*preprocessing.LazySlider); ok && s.RepeatCount < 4 { // bpm change was from")],
  "a change of rhythm coming out of a slider with four or more slides", "the slider penalty is not applied",
  'b := mp(14, "", "", "", "100,100,0,1,0", "100,100,100,1,0", "100,100,500,1,0", "100,100,600,1,0", "100,100,1000,1,0", "100,100,1400,2,0,L|110:100,5,10", "100,100,1600,1,0", "100,100,1700,1,0", "100,100,1800,1,0", "100,100,2200,1,0")\nall(b)\nb = mp(14, "", "", "", gen(11, 80, "cccs", 120)...)\nall(b)'),
 # ---- C21
 k("c21-spinner-time", [(S+"flashlight.go", "		if _, ok := previous.BaseObject.(*objects.Spinner); ok {\n			continue\n		}\n\n", ""),
   (S+"flashlight.go", "		cumulativeStrainTime += previous.StrainTime\n", "		cumulativeStrainTime += previous.StrainTime\n\n		if _, ok := previous.BaseObject.(*objects.Spinner); ok {\n			continue\n		}\n")],
  "a spinner among the remembered objects", "the spinner's time counts",
  'b := mp(14, "", "", "", gen(7, 30, "ccp", 300)...)\nall(b, difficulty.Flashlight)'),
 k("c21-tail", [(S+"flashlight.go", "previous.BaseObject.GetStackedEndPositionMod(s.diff.Mods)", "previous.BaseObject.GetStackedPositionAtMod(math.Min(previous.BaseObject.GetEndTime(), current.BaseObject.GetStartTime()), s.diff.Mods)")],
  "an object that starts before a remembered slider ends", "the distance is measured from where the slider ball is, not from its end",
  'b := mp(14, "", "", "", "100,100,1000,1,0", "200,200,1300,1,0", "0,100,1500,2,0,L|300:100,1,250", "200,300,1900,1,0", "200,100,2200,1,0", "0,0,2500,1,0")\nall(b, difficulty.Flashlight)'),
 k("c21-near-first", [(S+"flashlight.go", "		if i == 0 {\n			smallDistNerf", "		if cumulativeStrainTime == previous.StrainTime {\n			smallDistNerf")],
  "an object after a spinner, close to the last object before it", "it is weighed down for being close to an object that is not its predecessor",
  'b := mp(14, "", "", "", "100,100,1000,1,0", "200,200,1300,1,0", "256,192,1500,12,0,1700", "202,201,1900,1,0", "200,100,2200,1,0", "0,0,2500,1,0")\nall(b, difficulty.Flashlight)'),
 k("c21-history", [(S+"flashlight.go", "	for i := 0; i < len(s.Previous); i++ {", "	for i := 0; i < len(s.Previous) && i < s.HistoryLength-1; i++ {")],
  "ten remembered objects", "the oldest one is forgotten",
  'b := mp(14, "", "", "", gen(7, 30, "c", 300)...)\nall(b, difficulty.Flashlight)'),
 k("c21-radius", [(S+"flashlight.go", "	scalingFactor := 52.0 / s.diff.CircleRadius", "	scalingFactor := 52.0 / math.Max(s.diff.CircleRadius, 20)")],
  "a very small circle radius", "distances are not scaled by the radius",
  'for _, cs := range []int{4, 6, 7, 8} {\n\tb := mp(14, "", fmt.Sprint("CircleSize:", cs), "", gen(7, 12, "c", 300)...)\n\tall(b, difficulty.Flashlight|difficulty.HardRock)\n}'),
 # more
 k("c16-last-overlap", [(M+"object.go", "			return\n		}\n\n		lastLastCursorPosition", "			return\n		}\n\n		if o.lastLastObject.GetEndTime() > o.lastObject.GetStartTime() && o.lastLastObject.GetDuration() > 0 {\n			return\n		}\n\n		lastLastCursorPosition")],
  "the object before starts while the slider before it is still going", "no angle is measured",
  'b := mp(14, "", "", "", "100,100,1000,2,0,L|300:100,3,200", "300,200,1400,1,0", "10,200,1800,1,0")\nmovement(b, 0)'),
 k("c20-history-length", [(S+"speed.go", "float64(len(s.Previous)-i)/float64(len(s.Previous))", "float64(len(s.Previous)-i)/float64(s.HistoryLength)")],
  "fewer remembered objects than the history holds", "the decay is relative to the full history length",
  'all(mp(14, "", "", "", gen(11, 30, "cccs", 120)...))'),
 k("c20-window-speed", [(S+"speed.go", "greatWindow := s.diff.Hit300 / s.diff.Speed\n\n	previousIslandSize", "greatWindow := s.diff.Hit300 / math.Max(1, s.diff.Speed)\n\n	previousIslandSize")],
  "Half Time or a slow custom speed", "the hit window in the rhythm is not stretched",
  'all(mp(14, "", "OverallDifficulty:0", "", gen(11, 60, "cccs", 120)...), difficulty.HalfTime)'),
]
