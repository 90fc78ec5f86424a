package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
)

// mapOpt says what a random map is made of.
type mapOpt struct {
	n      int
	kinds  string // weighted letters c s p
	gaps   bool   // with breaks of several seconds
	simult bool   // with objects at the same time
	long   bool   // of a minute or more
}

func (r *Run) someMap() mapOpt {
	return mapOpt{n: r.i(0, 30), kinds: r.pick("cccs", "cccs", "c", "s", "cs", "ccsp", "csp", "sp", "ccccccccccp"), gaps: r.chance(0.3), simult: r.chance(0.2)}
}

// mapLines draws the objects of a map on a beat grid.
func (r *Run) mapLines(o mapOpt) []string {
	beat := 60000 / float64(r.pick2(120, 180, 200, 222, 90, 260, 333))
	t := float64(r.i(-300, 1500))
	if r.chance(0.07) { // late, also beyond what single precision or 32 bits count
		t = math.Round(math.Exp(r.fl(8, r.pickf(15, 22.5))))
	}
	x, y := float64(r.i(0, 512)), float64(r.i(0, 384))
	step := float64(r.pick2(0, 15, 60, 120, 250))
	div := r.pick2(1, 2, 4, 4, 2, 3)
	var ls []string
	last := math.Inf(-1)
	for len(ls) < o.n {
		if r.chance(0.15) { // another pattern
			div, step = r.pick2(1, 2, 4, 4, 2, 3, 8, 6), float64(r.pick2(0, 2, 15, 60, 120, 250, 400))
		}
		nx, ny := x+r.fl(-step, step), y+r.fl(-step, step)
		if r.chance(0.1) {
			nx, ny = float64(r.i(0, 512)), float64(r.i(0, 384))
		}
		x, y = math.Round(math.Min(512, math.Max(0, nx))), math.Round(math.Min(384, math.Max(0, ny)))
		if r.chance(0.02) { // outside of the playfield, or off the grid
			x, y = r.pickf(math.Round(nx), x+0.5, nx), r.pickf(math.Round(ny), y+0.25, ny)
		}
		tt := math.Round(t)
		if tt <= last && !o.simult {
			tt = last + 1
		}
		last = tt
		adv := beat / float64(div)
		switch o.kinds[r.rng.Intn(len(o.kinds))] {
		case 'p':
			d := r.pickf(float64(r.i(1, 1500)), float64(r.i(1, 1500)), float64(r.i(1, 1500)), math.Round(math.Exp(r.fl(6, 10))), 0, float64(-r.i(1, 500)))
			ls = append(ls, fmt.Sprintf("256,192,%s,12,0,%s", num(tt), num(tt+d)))
			if r.chance(0.9) {
				adv += math.Max(0, d)
			}
		case 's':
			l := r.sliderLine(tt, 0)
			f := strings.Split(l, ",")
			// move it here
			dx, _ := strconv.ParseFloat(f[0], 64)
			dy, _ := strconv.ParseFloat(f[1], 64)
			body := strings.Split(f[5], "|")
			for i, p := range body[1:] {
				xy := strings.Split(p, ":")
				px, _ := strconv.ParseFloat(xy[0], 64)
				py, _ := strconv.ParseFloat(xy[1], 64)
				body[i+1] = num(math.Round(px-dx+x)) + ":" + num(math.Round(py-dy+y))
			}
			f[0], f[1], f[5] = num(x), num(y), strings.Join(body, "|")
			if len(f[7]) > 12 {
				f[7] = f[7][:12]
			}
			ls = append(ls, strings.Join(f, ","))
			if r.chance(0.7) {
				adv += float64(r.i(50, 800))
			}
		default:
			ls = append(ls, fmt.Sprintf("%s,%s,%s,%s,0", num(x), num(y), num(tt), r.pick("1", "1", "5")))
		}
		t += adv
		if o.simult && r.chance(0.15) {
			t = last
		}
		if o.gaps && r.chance(0.12) {
			t += float64(r.i(400, 9000))
			if r.chance(0.1) { // a long break
				t += float64(r.i(9000, 60000))
			}
		}
		if o.long && r.chance(0.3) {
			t += float64(r.i(9000, 30000))
		}
		if r.chance(0.05) {
			t = math.Ceil(t/400) * 400 // on a section border
		}
	}
	return ls
}

type settings struct{ hp, cs, od, ar float64 }

func (r *Run) someSettings() settings {
	v := func() float64 { return r.pickf(5, 8, 9, 9.3, 10, 4, 4.2, 0, 3, 7, math.Round(r.fl(0, 10)*10)/10) }
	return settings{v(), r.pickf(4, 4, 3.5, 5, 0, 6, 6.2, 7, 10, 2, math.Round(r.fl(0, 10)*10)/10), v(), v()}
}

func (r *Run) mapText(st settings, lines []string) string {
	t := 0.0
	tps := []string{"0," + num(60000/float64(r.pick2(120, 180, 200)))}
	for r.chance(0.5) && len(tps) < 5 {
		t += float64(r.i(100, 3000))
		tps = append(tps, num(t)+","+r.pick("-50", "-100", "-133.3333", "-200", "-25", "400,4,1,0,100,1,0", "NaN"))
	}
	return "osu file format v" + r.pick("14", "14", "14", "9", "5") + "\n[General]\nStackLeniency:" + r.pick("0.7", "0.7", "0.2", "0") +
		"\n[Metadata]\nTitle:t\n[Difficulty]\nHPDrainRate:" + num(st.hp) + "\nCircleSize:" + num(st.cs) + "\nOverallDifficulty:" + num(st.od) + "\nApproachRate:" + num(st.ar) +
		"\nSliderMultiplier:" + r.pick("1.4", "2", "1", "3.2") + "\nSliderTickRate:" + r.pick("1", "2", "0.5", "4") + "\n[TimingPoints]\n" + strings.Join(tps, "\n") +
		"\n[HitObjects]\n" + strings.Join(lines, "\n") + "\n"
}

func mustParse(text string) *beatmap.BeatMap {
	b, err := beatmap.ParseFromByte([]byte(text))
	if err != nil {
		panic(err)
	}
	return b
}

func (r *Run) someSpeed() float64 { return r.pickf(1, 1, 1, 1, 1.1, 0.8, 1.25, 2, 0.5, 3) }

// under makes difficulty settings like the code's users do: a copy with mods and speed.
func (st settings) under(mods difficulty.Modifier, speed float64) *difficulty.Difficulty {
	d := difficulty.NewDifficulty(st.hp, st.cs, st.od, st.ar)
	d.SetCustomSpeed(speed)
	d.SetMods(mods)
	return d
}

func (st settings) record(in M, mods difficulty.Modifier, speed float64) {
	in["hp"], in["cs"], in["od"], in["ar"] = F(st.hp), F(st.cs), F(st.od), F(st.ar)
	in["mods"], in["speed"] = bitsOf(mods), F(speed)
}

// seen is an object as it appears under mods.
func seen(o objects.IHitObject, d *difficulty.Difficulty) M {
	m := M{"kind": kindOf(o), "start": F(o.GetStartTime()), "end": F(o.GetEndTime()),
		"head": V(o.GetStackedStartPositionMod(d.Mods)), "tail": V(o.GetStackedEndPositionMod(d.Mods))}
	if s, ok := o.(*objects.Slider); ok {
		ps := L{}
		for _, p := range s.ScorePoints {
			ps = append(ps, M{"t": F(p.Time), "rev": p.IsReverse, "pos": V(s.GetStackedPositionAtMod(p.Time, d.Mods))})
		}
		m["slides"], m["points"], m["last"] = int(s.RepeatCount), ps, V(s.GetStackedPositionAtMod(s.EndTime, d.Mods))
	}
	return m
}

func moved(o *preprocessing.DifficultyObject) M {
	return M{"delta": F(o.DeltaTime), "strain": F(o.StrainTime), "start": F(o.StartTime), "end": F(o.EndTime), "jump": F(o.JumpDistance),
		"move": F(o.MovementDistance), "travel": F(o.TravelDistance), "angle": F(o.Angle), "moveTime": F(o.MovementTime), "travelTime": F(o.TravelTime)}
}

func (r *Run) moveCase(id string, st settings, mods difficulty.Modifier, speed float64, lines []string) {
	in := M{}
	st.record(in, mods, speed)
	r.do(id, in, func(c *Case) {
		c.Note = r.mapText(st, lines)
		b := mustParse(c.Note)
		d := st.under(mods, speed)
		dos := preprocessing.CreateDifficultyObjects(b.HitObjects, d)
		want := len(b.HitObjects) - 1
		if want < 0 {
			want = 0
		}
		c.add(M{"op": "count", "want": want, "got": len(dos)})
		for i, o := range b.HitObjects {
			e := M{"op": "object", "o": seen(o, d)}
			if s, ok := o.(*objects.Slider); ok {
				z := preprocessing.NewLazySlider(s, d)
				e["o"].(M)["lazy"] = M{"at": V(z.LazyEndPosition), "moved": F(float64(z.LazyTravelDistance)), "time": F(z.LazyTravelTime)}
			}
			if i > 0 {
				e["move"] = moved(dos[i-1])
				e["base"] = true
				switch base := dos[i-1].BaseObject.(type) {
				case *preprocessing.LazySlider:
					e["base"] = objects.IHitObject(base.Slider) == o
				default:
					e["base"] = base == o
				}
			}
			c.add(e)
		}
	})
}

func init() {
	suites["moves"] = func(r *Run) {
		for k := 0; k < r.n(320, 700); k++ {
			o := r.someMap()
			if k%3 == 0 {
				o.kinds = r.pick("s", "cs", "csp")
			}
			if k%110 == 60 {
				o.n = r.i(100, 300)
			}
			if k == 170 {
				o.n, o.kinds, o.gaps = r.i(4200, 4500), "cccccccccsp", false
			}
			r.moveCase(fmt.Sprint("rand", k), r.someSettings(), modset(r.randMods()...), r.someSpeed(), r.mapLines(o))
		}
	}
}
