GEN2 = open(HERE + "/tools/seedsrc/skills.py").read().split("GEN = '''")[1].split("'''")[0].replace("\\\\n", "\\n")
P = ["performance/osu/preprocessing"]
def k(id, edits, needs, breaks, demo, imports=()):
    return seed(id, edits, needs, breaks, demo, list(imports) + P, GEN2)
D = "performance/osu/difficulty.go"
PP = "performance/osu/pp.go"
S = "performance/osu/skills/"
V = "math/curves/"
SCORE = '''func() {
	att := osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 2.8, Flashlight: 2.5, ObjectCount: N, Circles: N - N/3 - N/50, Sliders: N / 3, Spinners: N / 50, MaxCombo: N + N/2}
	for _, m := range []difficulty.Modifier{MODS} {
		for _, od := range []float64{0, 5, 8, 10} {
			for _, ar := range []float64{0, 5, 9, 10} {
				d := difficulty.NewDifficulty(5, 4, od, ar)
				d.SetMods(m)
				for _, s := range [][]int{SCORES} {
					pp := &osu.PPv2{}
					r := pp.PPv2x(att, s[0], s[1], s[2], s[3], s[4], d).Results
					fmt.Printf("%.6g %.6g %.6g %.6g %.6g\\n", r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total)
				}
			}
		}
	}
}()'''
def sc(n, mods, scores):
    return SCORE.replace("N + N/2", "%d" % (n + n // 2)).replace("N - N/3 - N/50", "%d" % (n - n // 3 - n // 50)).replace("N / 50", "%d" % (n // 50)).replace("N / 3", "%d" % (n // 3)).replace("ObjectCount: N", "ObjectCount: %d" % n).replace("MODS", ", ".join("difficulty." + m if "|" not in m else "|".join("difficulty." + x for x in m.split("|")) for m in mods)).replace("SCORES", ", ".join("{%s}" % ", ".join(map(str, s)) for s in scores))
SEEDS = [
 # ---- C22
 k("c22-second-sort", [(S+"skill.go", "	reverseSortFloat64s(strains)\n\n	for _, strain", "	if len(strains) > skill.ReducedSectionCount {\n		reverseSortFloat64s(strains)\n	}\n\n	for _, strain")],
  "a map of at most as many sections as are reduced", "the reduced peaks are not put in order again",
  'all(mp(14, "", "", "", gen(3, 12, "cs", 300)...))\nall(mp(14, "", "", "", gen(5, 9, "c", 600)...))'),
 k("c22-reduction", [(S+"skill.go", "float64(i)/float64(skill.ReducedSectionCount), 0, 1)", "float64(i)/float64(numReduced), 0, 1)")],
  "a map of fewer sections than are reduced", "the reduction is spread over the sections there are",
  'all(mp(14, "", "", "", gen(3, 6, "cs", 300)...))'),
 k("c22-relax-peaks", [(D, "	peaks.Total = make([]float64, len(peaks.Aim))\n", "	peaks.Total = make([]float64, len(peaks.Aim))\n\n	plain := *diff\n	plain.Mods &^= difficulty.Relax\n"),
   (D, "peaks.Speed[i], flVal, diff, Attributes{})", "peaks.Speed[i], flVal, &plain, Attributes{})")],
  "the peaks under Relax", "the total of the peaks includes the speed peaks",
  'all(mp(14, "", "", "", gen(3, 20, "cs", 300)...), difficulty.Relax)'),
 k("c22-touch", [(D, "		baseFlashlightPerformance = math.Pow(flashlightVal, 2.0) * 25.0\n", "		rated := flashlightVal\n		if diff.CheckModActive(difficulty.TouchDevice) {\n			rated = math.Pow(rated, 0.8)\n		}\n\n		baseFlashlightPerformance = math.Pow(rated, 2.0) * 25.0\n")],
  "Flashlight with Touch Device", "the star rating is lowered for Touch Device",
  'all(mp(14, "", "", "", gen(3, 20, "cs", 300)...), difficulty.Flashlight, difficulty.Flashlight|difficulty.TouchDevice)'),
 k("c22-no-aim", [(D, "	if aimRating > 0.00001 {\n", "	if aimRating > 0.7 {\n")],
  "a map with very little aim", "the slider factor is 1 although sliders matter",
  'all(mp(14, "", "", "", "100,100,1000,2,0,L|300:100,3,200", "300,100,5000,1,0", "300,101,9000,2,0,L|100:100,1,180", "101,100,13000,1,0", "100,100,17000,2,0,L|300:100,1,200", "300,100,21000,2,0,L|100:100,1,200", "100,100,25000,1,0"))'),
 k("c22-low-base", [(D, "	if basePerformance > 0.00001 {\n", "	if basePerformance > 0.00003 {\n")],
  "a map without aim or speed worth anything", "the star rating is 0",
  'all(mp(14, "", "", "", "100,100,1000,1,0", "100,100,9000,1,0"), difficulty.Relax, difficulty.Flashlight)'),
 # ---- C23
 k("c23-same-time", [(D, "		attr.MaxCombo += len(s.ScorePoints)\n", "		for i, p := range s.ScorePoints {\n			if i == 0 || p.Time > s.ScorePoints[i-1].Time {\n				attr.MaxCombo++\n			}\n		}\n")],
  "a slider with scoring points at the same time", "points at the same time count once",
  'b := mp(14, "", "SliderMultiplier:3.6\\nSliderTickRate:4", "0,0,4,2,1,60,1,0\\n900,300,4,2,1,60,1,0", "100,100,100,2,0,L|300:100,4,200", "300,100,5000,1,0", "300,101,9000,2,0,L|100:100,3,180")\nobjs(b)\nall(b)'),
 k("c23-empty-spinner", [(D, "	} else if _, ok := o.(*objects.Spinner); ok {\n		attr.Spinners++\n	}\n", "	} else if s, ok := o.(*objects.Spinner); ok && s.GetDuration() > 0 {\n		attr.Spinners++\n	}\n")],
  "a spinner ending when it starts or before", "it is not counted",
  'all(mp(14, "", "", "", "100,100,1000,1,0", "256,192,2000,12,0,2000", "256,192,3000,12,0,2500"))'),
 k("c23-first-slider", [(D, "	addObjectToAttribs(objects[0], &stars[0])\n", "	addObjectToAttribs(objects[0], &stars[0])\n	stars[0].MaxCombo = 1\n")],
  "the step-by-step calculation of a map beginning with a slider", "the first slider's points are missing from the combo",
  'b := mp(14, "", "", "", "100,100,1000,2,0,L|300:100,3,200", "300,100,5000,1,0")\nfor _, a := range osu.CalculateStep(b.HitObjects, df(b, 0)) {\n\tshow(a)\n}'),
 k("c23-spunout", [(D, "	stars := getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr)\n", "	if diff.CheckModActive(difficulty.SpunOut) && diff.CheckModActive(difficulty.Relax2) {\n		attr.MaxCombo -= attr.Spinners\n	}\n\n	stars := getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr)\n")],
  "Spun Out together with Autopilot", "spinners give no combo",
  'all(mp(14, "", "", "", "100,100,1000,1,0", "256,192,2000,12,0,2400", "256,192,3000,1,0"), difficulty.SpunOut|difficulty.Relax2)'),
 # ---- C24
 k("c24-step-spinner", [(D, "		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))\n", "		if _, ok := o.BaseObject.(*objects2.Spinner); ok { // adds no strain\n			stars = append(stars, attr)\n			continue\n		}\n\n		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))\n"),
   (D, '	"github.com/Wieku/gosu-pp/beatmap/objects"\n', '	"github.com/Wieku/gosu-pp/beatmap/objects"\n	objects2 "github.com/Wieku/gosu-pp/beatmap/objects"\n')],
  "the step-by-step calculation of a map with a spinner in a new section", "the entry for the spinner repeats the ratings of the one before",
  'b := mp(14, "", "", "", gen(3, 12, "ccp", 300)...)\nfor _, a := range osu.CalculateStep(b.HitObjects, df(b, 0)) {\n\tshow(a)\n}'),
 k("c24-peaks-v2", [(D, "func CalculateStrainPeaks(objects []objects.IHitObject, diff *difficulty.Difficulty) StrainPeaks {\n	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)\n\n	aimSkill := skills.NewAimSkill(diff, true)", "func CalculateStrainPeaks(objects []objects.IHitObject, diff *difficulty.Difficulty) StrainPeaks {\n	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)\n\n	aimSkill := skills.NewAimSkill(diff, !diff.CheckModActive(difficulty.Relax2))")],
  "the strain peaks alone under Autopilot", "sliders are left out of the aim peaks",
  'b := mp(14, "", "", "", gen(3, 20, "cs", 200)...)\nfor _, m := range []difficulty.Modifier{0, difficulty.Relax2} {\n\tpeaks(osu.CalculateStrainPeaks(b.HitObjects, df(b, m)))\n}'),
 k("c24-step-flashlight", [(D, "		if flashlightSkill != nil {\n			flashlightSkill.Process(o)\n		}\n\n		stars = append", "		if _, ok := objects[i+1].(interface{ IsSpinner() bool }); flashlightSkill != nil && !ok && o.DeltaTime > 0 {\n			flashlightSkill.Process(o)\n		}\n\n		stars = append")],
  "the step-by-step calculation under Flashlight of objects at the same time", "the second of two objects at the same time is not seen by flashlight",
  'b := mp(14, "", "", "", "100,100,1000,1,0", "200,200,1300,1,0", "300,300,1300,1,0", "100,300,1600,1,0", "10,30,1700,1,0")\nfor _, a := range osu.CalculateStep(b.HitObjects, df(b, difficulty.Flashlight)) {\n\tshow(a)\n}'),
 k("c24-long-step", [(D, "		attr := stars[i]\n", "		attr := stars[i]\n		if len(stars) > 64 && len(stars)%64 == 0 {\n			attr.MaxCombo = stars[i-1].MaxCombo + 1\n		}\n")],
  "the step-by-step calculation of more than 127 objects, the 128th a slider", "the combo is wrong from there on",
  'b := mp(14, "", "", "", gen(3, 300, "cs", 200)...)\nfor _, a := range osu.CalculateStep(b.HitObjects, df(b, 0)) {\n\tshow(a)\n}'),
 # ---- C25
 k("c25-in-place", [(D, "func CalculateStrainPeaks(objects []objects.IHitObject, diff *difficulty.Difficulty) StrainPeaks {\n	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)\n", "func CalculateStrainPeaks(objects []objects.IHitObject, diff *difficulty.Difficulty) StrainPeaks {\n	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)\n	for i, o := range diffObjects {\n		objects[i+1] = o.BaseObject\n	}\n")],
  "a calculation after one of the strain peaks alone", "the sliders are not counted any more",
  'b := mp(14, "", "", "", gen(3, 20, "cs", 200)...)\nshow(osu.CalculateSingle(b.HitObjects, df(b, 0)))\nosu.CalculateStrainPeaks(b.HitObjects, df(b, 0))\nshow(osu.CalculateSingle(b.HitObjects, df(b, 0)))'),
 k("c25-lazy-cache", [("performance/osu/preprocessing/lazyslider.go", "	decorated := &LazySlider{\n", "	lazyMutex.Lock()\n	defer lazyMutex.Unlock()\n\n	if c, ok := lazyCache[slider]; ok && c.diff == d {\n		return c\n	}\n\n	decorated := &LazySlider{\n"),
   ("performance/osu/preprocessing/lazyslider.go", "	decorated.calculateEndPosition()\n", "	decorated.calculateEndPosition()\n	lazyCache[slider] = decorated\n"),
   ("performance/osu/preprocessing/lazyslider.go", "// LazySlider is", "var (\n	lazyMutex sync.Mutex\n	lazyCache = map[*objects.Slider]*LazySlider{}\n)\n\n// LazySlider is"),
   ("performance/osu/preprocessing/lazyslider.go", '	"math"\n', '	"math"\n	"sync"\n')],
  "the settings changed in place between two calculations on the same map, to Hard Rock", "sliders measured for the old settings are reused",
  'b := mp(14, "", "CircleSize:4\\nSliderMultiplier:2\\nSliderTickRate:1", "", "100,100,1000,2,0,L|300:100,3,200", "100,100,5000,2,0,B|300:0|300:300,1,300", "300,100,7000,1,0", "100,100,7400,2,0,L|300:100,3,200", "300,100,9500,1,0", "30,10,9700,1,0")\nd := df(b, 0)\nshow(osu.CalculateSingle(b.HitObjects, d))\nd.SetMods(difficulty.HardRock)\nshow(osu.CalculateSingle(b.HitObjects, d))\nd.SetMods(difficulty.DoubleTime)\nmovement(b, 0)'),
 k("c25-pp-stale", [(PP, "	pp.Results.Flashlight = pp.computeFlashlightValue()\n", "	if fl := pp.computeFlashlightValue(); fl > 0 {\n		pp.Results.Flashlight = fl\n	}\n")],
  "a score calculator reused for a score without Flashlight after one with it", "the flashlight value of the earlier score is kept",
  'pp := &osu.PPv2{}\nfor _, m := range []difficulty.Modifier{0, difficulty.Flashlight, 0} {\n\td := difficulty.NewDifficulty(5, 4, 8, 9)\n\td.SetMods(m)\n\tr := pp.PPv2x(osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 2.8, Flashlight: 2.5, ObjectCount: 10, Circles: 10, MaxCombo: 10}, 10, 10, 0, 0, 0, d).Results\n\tfmt.Printf("%.6g %.6g %.6g %.6g %.6g\\n", r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total)\n}'),
 k("c25-settings", [("performance/osu/skills/flashlight.go", "	skill.SkillMultiplier = 0.15\n", "	skill.SkillMultiplier = 0.15\n	if d.Mods&difficulty.Hidden > 0 {\n		d.SetMods(d.Mods &^ difficulty.Hidden)\n	}\n")],
  "a calculation under Flashlight and Hidden", "the caller's settings lose Hidden",
  'b := mp(14, "", "", "", gen(3, 20, "cs", 200)...)\nd := df(b, difficulty.Flashlight|difficulty.Hidden)\nosu.CalculateSingle(b.HitObjects, d)\nfmt.Println(d.Mods)'),
 k("c25-bezier-scratch", [("math/curves/bezierapproximator.go", "	return &BezierApproximator{count: len(controlPoints), controlPoints: controlPoints, subdivisionBuffer1: make([]vector.Vector2f, len(controlPoints)), subdivisionBuffer2: make([]vector.Vector2f, len(controlPoints)*2-1)}\n", "	a := &BezierApproximator{count: len(controlPoints), controlPoints: controlPoints, subdivisionBuffer1: make([]vector.Vector2f, len(controlPoints)), subdivisionBuffer2: sharedBuffer[:]}\n\n	if len(controlPoints)*2-1 > len(sharedBuffer) {\n		a.subdivisionBuffer2 = make([]vector.Vector2f, len(controlPoints)*2-1)\n	}\n\n	return a\n"),
   ("math/curves/bezierapproximator.go", "type BezierApproximator struct {", "var sharedBuffer [32]vector.Vector2f\n\ntype BezierApproximator struct {")],
  "maps with Bezier sliders parsed at the same time", "the curves get mixed up",
  '''text := func(s int) string { return "osu file format v14\\n\\n[Metadata]\\nTitle:t\\n[Difficulty]\\nSliderMultiplier:1\\n\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n\\n[HitObjects]\\n" + strings.Repeat(fmt.Sprintf("0,0,1000,2,0,B|%d:300|%d:0|%d:222|1:2,1,400\\n", s, s*2, s*3), 400) }
want := make([]string, 8)
sum := func(s int) string {
	b, err := beatmap.ParseFromByte([]byte(text(s * 50)))
	if err != nil {
		return "error"
	}
	r := map[string]bool{}
	for _, o := range b.HitObjects {
		r[fmt.Sprint(o.GetPositionAt(o.GetEndTime()), o.GetPositionAt((o.GetStartTime()+o.GetEndTime())/2))] = true
	}
	return fmt.Sprint(len(r))
}
bad := 0
for round := 0; round < 200 && bad == 0; round++ {
	done := make(chan bool)
	for i := range want {
		go func(i int) {
			want[i] = sum(i)
			done <- true
		}(i)
	}
	for range want {
		<-done
	}
	for _, w := range want {
		if w != "1" {
			bad++
		}
	}
}
fmt.Println(bad > 0)'''),
 k("c25-position-cache", [("beatmap/objects/slider.go", "func (slider *Slider) PositionAt(time float64) vector.Vector2f {\n", "func (slider *Slider) PositionAt(time float64) vector.Vector2f {\n	if slider.cachedTime == time && time != 0 {\n		return slider.cachedPos\n	}\n\n	slider.cachedTime, slider.cachedPos = time, slider.positionAt(time)\n\n	return slider.cachedPos\n}\n\nfunc (slider *Slider) positionAt(time float64) vector.Vector2f {\n"),
   ("beatmap/objects/slider.go", "type Slider struct {\n	*HitObject\n", "type Slider struct {\n	*HitObject\n\n	cachedTime float64\n	cachedPos  vector.Vector2f\n")],
  "positions of one slider asked for from several goroutines", "the cached position belongs to another time",
  '''b := mp(14, "", "", "", "100,100,1000,2,0,L|300:100,3,200")
o := b.HitObjects[0]
bad := make(chan bool)
for g := 0; g < 8; g++ {
	go func(g int) {
		wrong := false
		for i := 0; i < 2000000; i++ {
			t := 1000 + float64(i%2)*float64(200+g)
			p := o.GetPositionAt(t)
			if (t == 1000) != (p.X == 100) {
				wrong = true
			}
		}
		bad <- wrong
	}(g)
}
any := false
for g := 0; g < 8; g++ {
	any = <-bad || any
}
fmt.Println(any)'''),
 # ---- C26
 k("c26-partial", [(PP, "math.Min(comboBasedMissCount, float64(pp.totalHits))", "math.Min(comboBasedMissCount, float64(pp.attribs.ObjectCount))")],
  "a score with fewer hits than objects and a broken combo", "more misses than hits are inferred",
  sc(100, ["None", "NoFail"], [(1, 5, 2, 1, 0), (2, 10, 0, 0, 1), (50, 30, 4, 1, 1)])),
 k("c26-threshold", [(PP, "		if float64(pp.scoreMaxCombo) < fullComboThreshold {", "		if float64(pp.scoreMaxCombo) <= fullComboThreshold {")],
  "a combo exactly at the full combo less a tenth of the sliders", "a miss is inferred",
  'pp := &osu.PPv2{}\nfor c := 25; c <= 31; c++ {\n\td := difficulty.NewDifficulty(5, 4, 8, 9)\n\tr := pp.PPv2x(osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.95, Speed: 2.8, Flashlight: 2.5, ObjectCount: 20, Circles: 10, Sliders: 10, MaxCombo: 31}, c, 20, 0, 0, 0, d).Results\n\tfmt.Printf("%.6g %.6g %.6g %.6g %.6g\\n", r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total)\n}'),
 k("c26-v2-spinners", [(PP, "		pp.amountHitObjectsWithAccuracy = attribs.ObjectCount\n", "		pp.amountHitObjectsWithAccuracy = attribs.Circles + attribs.Sliders\n")],
  "Score V2 on a map with spinners", "spinners are left out",
  sc(100, ["None", "ScoreV2"], [(150, 100, 0, 0, 0), (150, 90, 10, 0, 0)])),
 k("c26-nofail-relax", [(PP, "	if diff.Mods.Active(difficulty.NoFail) {\n		finalMultiplier", "	if diff.Mods.Active(difficulty.Relax) {\n		pp.effectiveMissCount = mutils.MinI(pp.effectiveMissCount+pp.countOk+pp.countMeh, pp.totalHits)\n	}\n\n	if diff.Mods.Active(difficulty.NoFail) {\n		finalMultiplier"),
   (PP, "		pp.effectiveMissCount = mutils.MinI(pp.effectiveMissCount+pp.countOk+pp.countMeh, pp.totalHits)\n		finalMultiplier *= 0.6", "		finalMultiplier *= 0.6")],
  "No Fail with Relax and 100s or 50s", "the No Fail penalty counts 100s and 50s as misses",
  sc(100, ["None", "NoFail|Relax"], [(150, 97, 1, 1, 1), (150, 98, 2, 0, 0)])),
 k("c26-explicit", [(PP, "	if n300 < 0 {\n", "	if n300 <= 0 && nmiss == 0 {\n")],
  "no 300 and no miss", "the missing 300s are filled in although the number was given",
  sc(10, ["None"], [(15, 0, 10, 0, 0), (15, 0, 4, 4, 0), (15, -1, 2, 1, 1), (15, -1, 2, 1, 0)])),
 # ---- C27
 k("c27-length", [(PP, "	speedValue := ppBase(pp.attribs.Speed)\n\n	// Longer maps are worth more\n	lengthBonus := 0.95 + 0.4*math.Min(1.0, float64(pp.totalHits)/2000.0)\n	if pp.totalHits > 2000 {", "	speedValue := ppBase(pp.attribs.Speed)\n\n	// Longer maps are worth more\n	lengthBonus := 0.95 + 0.4*math.Min(1.0, float64(pp.totalHits)/2000.0)\n	if pp.totalHits > 2500 {")],
  "a score of between 2000 and 2500 hits", "the speed value gets no bonus for length beyond 2000",
  sc(2400, ["None"], [(3600, 2400, 0, 0, 0), (3600, 2200, 0, 0, 0)])),
 k("c27-nofail-floor", [(PP, "math.Max(0.90, 1.0-0.02*float64(pp.effectiveMissCount))", "math.Max(0.80, 1.0-0.02*float64(pp.effectiveMissCount))")],
  "No Fail with more than five misses", "the penalty goes on to 20%",
  sc(100, ["NoFail"], [(150, 100, 0, 0, 0), (150, 90, 0, 0, 10)])),
 k("c27-meh", [(PP, "		mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0\n", "		mehMult = float64(pp.countMeh) - float64(pp.totalHits/500)\n")],
  "50s in a score whose hits are not a multiple of 500", "the tolerated 50s are rounded down",
  sc(740, ["None"], [(1110, 735, 0, 5, 0), (1110, 740, 0, 0, 0)])),
 k("c27-fl-touch", [(PP, "	if pp.diff.CheckModActive(difficulty.TouchDevice) {\n		rawFlashlight", "	if pp.diff.Mods.Active(difficulty.TouchDevice | difficulty.Hidden) {\n		rawFlashlight")],
  "Flashlight with Hidden, without Touch Device", "flashlight is lowered as for Touch Device",
  sc(100, ["Flashlight", "Flashlight|Hidden", "Flashlight|TouchDevice", "Flashlight|TouchDevice|Hidden"], [(150, 100, 0, 0, 0)])),
 k("c27-fl-scale", [(PP, "		scale += 0.2 * math.Min(1.0, float64(pp.totalHits-200)/200.0)", "		scale += 0.2 * math.Min(1.5, float64(pp.totalHits-200)/200.0)")],
  "Flashlight with more than 400 hits", "the length scale goes on",
  sc(700, ["Flashlight"], [(1050, 700, 0, 0, 0)])),
 k("c27-acc-cap", [(PP, "math.Min(1.15, math.Pow(float64(pp.amountHitObjectsWithAccuracy)/1000.0, 0.3))", "math.Min(1.15, math.Pow(float64(pp.amountHitObjectsWithAccuracy)/1000.0, 0.3)+0.15*math.Max(0, float64(pp.amountHitObjectsWithAccuracy-1500)/1000))")],
  "more than 1500 circles, less than the cap", "the bonus grows faster",
  sc(2350, ["None"], [(3525, 2350, 0, 0, 0)])),
 k("c27-low-ar-relax", [(PP, "	} else if pp.diff.ARReal < 8.0 {\n", "	} else if pp.diff.ARReal < 8.0 && !pp.diff.Mods.Active(difficulty.Relax) {\n")],
  "low approach rate under Relax", "aim gets no bonus for it",
  sc(100, ["None", "Relax"], [(150, 100, 0, 0, 0)])),
 # ---- C28
 k("c28-slider-clamp", [(PP, "		estimateSliderEndsDropped := mutils.ClampF64(float64(mutils.MinI(pp.countOk+pp.countMeh+pp.countMiss, pp.attribs.MaxCombo-pp.scoreMaxCombo)), 0, estimateDifficultSliders)", "		estimateSliderEndsDropped := math.Max(float64(mutils.MinI(pp.countOk+pp.countMeh+pp.countMiss, pp.attribs.MaxCombo-pp.scoreMaxCombo)), 0)")],
  "more dropped slider ends than difficult sliders", "aim turns negative and the total undefined",
  sc(100, ["None"], [(150, 100, 0, 0, 0), (100, 60, 40, 0, 0), (20, 10, 40, 50, 0)])),
 k("c28-better-acc", [(PP, "	if betterAccuracyPercentage < 0 {", "	if betterAccuracyPercentage < -1 {")],
  "a map of mostly sliders with few 300s", "a negative accuracy is raised to an even power",
  'pp := &osu.PPv2{}\nfor c := 0; c <= 100; c += 2 {\n\td := difficulty.NewDifficulty(5, 4, 8, 9)\n\tr := pp.PPv2x(osu.Attributes{Total: 6, Aim: 1, SliderFactor: 0.95, Speed: 0, ObjectCount: 100, Circles: 50, Sliders: 50, MaxCombo: 200}, 200, 100-c, 0, 0, c, d).Results\n\tfmt.Printf("%.6g %.6g %.6g %.6g %.6g\\n", r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total)\n}'),
 k("c28-zero-combo", [(PP, "		if float64(pp.scoreMaxCombo) < fullComboThreshold {", "		if pp.scoreMaxCombo > 0 && float64(pp.scoreMaxCombo) < fullComboThreshold {")],
  "No Fail with combo 0", "combo 0 infers no slider breaks, so the total is higher than with combo 1",
  sc(100, ["NoFail"], [(0, 100, 0, 0, 0), (1, 100, 0, 0, 0)])),
 k("c28-combo-over", [(PP, "		sliderNerfFactor := (1-pp", "		if pp.scoreMaxCombo*2 < pp.attribs.MaxCombo { // misses, not dropped ends\n			estimateSliderEndsDropped = 0\n		}\n\n		sliderNerfFactor := (1-pp")],
  "a combo just below half of the maximum, sliders worth much", "lowering the combo below half raises the aim value",
  'pp := &osu.PPv2{}\nfor c := 0; c <= 40; c++ {\n\td := difficulty.NewDifficulty(5, 4, 8, 9)\n\tr := pp.PPv2x(osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.3, Speed: 0, ObjectCount: 20, Circles: 10, Sliders: 10, MaxCombo: 40}, c, 5, 15, 0, 0, d).Results\n\tfmt.Printf("%.6g %.6g %.6g %.6g %.6g\\n", r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total)\n}'),
 k("c28-fl-miss", [(PP, "		flashlightValue *= 0.97 * math.Pow(1-math.Pow(float64(pp.effectiveMissCount)/float64(pp.totalHits), 0.775), math.Pow(float64(pp.effectiveMissCount), 0.875))", "		flashlightValue *= 0.97 * math.Pow(1-math.Pow(float64(pp.effectiveMissCount)/float64(pp.attribs.Circles), 0.775), math.Pow(float64(pp.effectiveMissCount), 0.875))")],
  "Flashlight with more misses than the map has circles", "the flashlight value and the total are undefined",
  'pp := &osu.PPv2{}\nfor c := 0; c <= 20; c++ {\n\td := difficulty.NewDifficulty(5, 4, 8, 9)\n\td.SetMods(difficulty.Flashlight)\n\tr := pp.PPv2x(osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.9, Speed: 0, Flashlight: 2, ObjectCount: 20, Circles: 10, Sliders: 10, MaxCombo: 40}, 40, 20-c, 0, 0, c, d).Results\n\tfmt.Printf("%.6g %.6g %.6g %.6g %.6g\\n", r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total)\n}'),
 # ---- C29
 k("c29-catmull-short", [(V+"catmull.go", "	pointLength = math32.Ceil(pointLength)\n", "	pointLength = math32.Floor(pointLength)\n")],
  "a Catmull-Rom segment shorter than one unit", "its length is 0",
  'for _, e := range []float32{0.3, 0.9, 1, 1.5, 7.2, 100} {\n\tc := curves.NewCatmull([]vector.Vector2f{{X: -5, Y: 3}, {X: 0, Y: 0}, {X: e, Y: 0}, {X: e + 4, Y: 4}})\n\tfmt.Printf("%.3g\\n", c.GetLength())\n}', ["math/curves", "math/vector"]),
 k("c29-bezier-length", [(V+"bezier.go", "	sections := math32.Ceil(bz.controlLength)\n", "	sections := math32.Floor(bz.controlLength)\n")],
  "a Bezier curve whose control polygon is shorter than one unit", "its length is 0",
  'for _, e := range []float32{0.2, 0.9, 1, 1.5, 7.2, 100} {\n\tc := curves.NewBezier([]vector.Vector2f{{X: 0, Y: 0}, {X: e / 3, Y: e / 3}, {X: e, Y: 0}})\n\tfmt.Printf("%.2g\\n", c.GetLength())\n}', ["math/curves", "math/vector"]),
 k("c29-binomial-min", [(V+"bezier.go", "	k = mutils.MinI64(k, n-k)\n", "	if n < 20 {\n		k = mutils.MinI64(k, n-k)\n	}\n"),
   (V+"bezier.go", "	c := int64(1)\n", "	c := int64(1)\n	if k > 40 {\n		return BinomialCoefficient(n-1, k-1)\n	}\n\n")],
  "binomial coefficients with large n and k", "they are wrong for k above 40",
  'for n := int64(0); n < 60; n++ {\n\tfor k := int64(0); k <= n; k++ {\n\t\tfmt.Println(curves.BinomialCoefficient(n, k))\n\t}\n}', ["math/curves"]),
 k("c29-bernstein-end", [(V+"bezier.go", "	n := len(bz.Points) - 1\n	for i := 0; i <= n; i++ {", "	n := len(bz.Points) - 1\n	if t >= 0.999 {\n		return bz.Points[n]\n	}\n\n	for i := 0; i <= n; i++ {")],
  "a Bezier curve evaluated very near its end", "it is already at the end",
  'c := curves.NewBezier([]vector.Vector2f{{X: 0, Y: 0}, {X: 500, Y: 3000}, {X: 500, Y: 0}})\nfor _, t := range []float32{0.5, 0.99, 0.9991, 0.9999, 1} {\n\tfmt.Printf("%.3f\\n", c.PointAt(t))\n}', ["math/curves", "math/vector"]),
]
