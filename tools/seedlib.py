"""Helpers shared by the descriptions of planted bugs (tools/seedsrc)."""

DECL = '''
func mp(ver int, general, diff, tps string, objs ...string) *beatmap.BeatMap {
	if diff == "" {
		diff = "HPDrainRate:5\\nCircleSize:4\\nOverallDifficulty:8\\nApproachRate:9\\nSliderMultiplier:1.4\\nSliderTickRate:1"
	}
	if tps == "" {
		tps = "0,500,4,2,1,60,1,0"
	}
	b, err := beatmap.ParseFromByte([]byte(fmt.Sprintf("osu file format v%d\\n\\n[General]\\n%s\\n\\n[Metadata]\\nTitle:t\\n\\n[Difficulty]\\n%s\\n\\n[TimingPoints]\\n%s\\n\\n[HitObjects]\\n%s\\n", ver, general, diff, tps, strings.Join(objs, "\\n"))))
	if err != nil {
		panic(err)
	}
	return b
}

func df(b *beatmap.BeatMap, mods difficulty.Modifier) *difficulty.Difficulty {
	d := difficulty.NewDifficulty(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR())
	d.SetMods(mods)
	return d
}

func show(a osu.Attributes) {
	fmt.Printf("total %.5g aim %.5g factor %.5g speed %.5g flashlight %.5g n %d %d %d %d combo %d\\n", a.Total, a.Aim, a.SliderFactor, a.Speed, a.Flashlight, a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo)
}

func peaks(p osu.StrainPeaks) {
	for _, x := range [][]float64{p.Aim, p.Speed, p.Flashlight, p.Total} {
		fmt.Print(len(x))
		for _, v := range x {
			fmt.Printf(" %.5g", v)
		}
		fmt.Println()
	}
}

func objs(b *beatmap.BeatMap) {
	for _, o := range b.HitObjects {
		switch v := o.(type) {
		case *objects.Circle:
			fmt.Println("circle", v.StartTime, v.StartPosRaw, v.NewCombo, v.ComboNumber, v.ComboSet, v.ComboSetHax, v.GetSounds(), v.StackIndex, v.StackIndexEZ, v.StackIndexHR)
		case *objects.Slider:
			fmt.Printf("slider %.5g %.5g %v %v %v %v %v %v %v %v %v", v.StartTime, v.EndTime, v.StartPosRaw, v.NewCombo, v.ComboNumber, v.ComboSet, v.ComboSetHax, v.GetSounds(), v.StackIndex, v.StackIndexEZ, v.StackIndexHR)
			for _, p := range v.ScorePoints {
				fmt.Printf(" %.6g/%v", p.Time, p.IsReverse)
			}
			fmt.Println()
		case *objects.Spinner:
			fmt.Println("spinner", v.StartTime, v.EndTime, v.NewCombo, v.ComboNumber, v.ComboSet, v.ComboSetHax, v.StackIndex, v.StackIndexEZ, v.StackIndexHR)
		}
	}
}

var _ = mp
var _ = df
var _ = show
var _ = peaks
var _ = objs
'''
IMPORTS = ["beatmap", "beatmap/difficulty", "beatmap/objects", "performance/osu", "strings"]


def seed(id, edits, needs, breaks, demo, imports=(), decls="", helpers=True):
    prop = id.split("-")[0].upper()
    return dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                imports=(IMPORTS if helpers else []) + list(imports), decls=(DECL if helpers else "") + decls)
