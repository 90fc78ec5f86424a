package main

import (
	"fmt"
	"math"
	"strconv"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
)

// measured is everything the skills may look at in an object.
func measured(o *preprocessing.DifficultyObject, d *difficulty.Difficulty) M {
	m := moved(o)
	m["kind"] = "circle"
	switch o.BaseObject.(type) {
	case *preprocessing.LazySlider:
		m["kind"] = "slider"
	case *objects.Spinner:
		m["kind"] = "spinner"
	}
	m["head"], m["tail"] = V(o.BaseObject.GetStackedStartPositionMod(d.Mods)), V(o.BaseObject.GetStackedEndPositionMod(d.Mods))
	return m
}

// feed runs all skills over objects, now and then asking for results in between.
func (r *Run) feed(c *Case, d *difficulty.Difficulty, dos []*preprocessing.DifficultyObject) {
	aim, still, speed, flash := skills.NewAimSkill(d, true), skills.NewAimSkill(d, false), skills.NewSpeedSkill(d), skills.NewFlashlightSkill(d)
	ask := r.pickf(0, 0.3, 1)
	for i, o := range dos {
		before := measured(o, d)
		aim.Process(o)
		still.Process(o)
		speed.Process(o)
		flash.Process(o)
		e := M{"op": "object", "o": before, "aim": F(aim.CurrentStrain), "still": F(still.CurrentStrain), "speed": F(speed.CurrentStrain),
			"rhythm": F(speed.CurrentRhythm), "flash": F(flash.CurrentStrain), "peaks": L{}}
		if i == len(dos)-1 || r.chance(ask) {
			ps := L{}
			for n, s := range []*skills.Skill{aim.Skill, still.Skill, speed.Skill, flash.Skill} {
				a := s.GetCurrentStrainPeaks()
				ps = append(ps, FS(a))
				if n%2 == 0 {
					s.DifficultyValue()
				}
				for k := range a {
					a[k] = -1 // the caller's own copy
				}
			}
			e["peaks"] = ps
		}
		c.add(e)
	}
}

func (r *Run) skillMapCase(id string, st settings, mods difficulty.Modifier, speed float64, lines []string) {
	in := M{}
	st.record(in, mods, speed)
	r.do(id, in, func(c *Case) {
		c.Note = r.mapText(st, lines)
		d := st.under(mods, speed)
		r.feed(c, d, preprocessing.CreateDifficultyObjects(mustParse(c.Note).HitObjects, d))
	})
}

// workshop makes base objects for measured objects that no map needs to have.
type workshop struct {
	d       *difficulty.Difficulty
	sliders []objects.IHitObject
}

func newWorkshop(d *difficulty.Difficulty) *workshop {
	w := &workshop{d: d}
	b := mustParse("osu file format v14\n[Metadata]\nTitle:t\n[Difficulty]\nSliderMultiplier:1.4\nSliderTickRate:1\n[TimingPoints]\n0,500\n[HitObjects]\n" +
		"100,100,1000,2,0,L|200:100,1,100\n300,100,3000,2,0,P|350:150|400:100,2,140\n10,300,5000,2,0,B|60:200|90:350,1,120\n")
	w.sliders = b.HitObjects
	return w
}

func (w *workshop) base(kind string, x, y float64, k int) objects.IHitObject {
	f := []string{num(x), num(y), "0", "1", "0", "500"}
	switch kind {
	case "slider":
		return preprocessing.NewLazySlider(w.sliders[k%len(w.sliders)].(*objects.Slider), w.d)
	case "spinner":
		return objects.NewSpinner(f)
	}
	return objects.NewCircle(f)
}

type synth struct {
	kind             string
	dt, jump, angle  float64 // angle < 0: none
	move, travel, tt float64
	x, y             float64
}

func (w *workshop) build(ss []synth, t float64) []*preprocessing.DifficultyObject {
	var out []*preprocessing.DifficultyObject
	for i, s := range ss {
		t += s.dt
		o := &preprocessing.DifficultyObject{BaseObject: w.base(s.kind, s.x, s.y, i), DeltaTime: s.dt, StrainTime: math.Max(s.dt, 25), StartTime: t, EndTime: t, Angle: math.NaN()}
		spin := s.kind == "spinner" || i > 0 && ss[i-1].kind == "spinner"
		if !spin {
			o.JumpDistance, o.MovementDistance, o.MovementTime = s.jump, s.jump, o.StrainTime
			if s.angle >= 0 {
				o.Angle = s.angle
			}
			if i > 0 && ss[i-1].kind == "slider" {
				o.TravelDistance, o.TravelTime = s.travel, math.Max(s.tt, 25)
				o.MovementTime = math.Max(o.StrainTime-o.TravelTime, 25)
				o.MovementDistance = math.Min(s.move, s.jump)
			}
		}
		out = append(out, o)
	}
	return out
}

func (r *Run) synthCase(id string, st settings, mods difficulty.Modifier, speed float64, ss []synth) {
	in := M{}
	st.record(in, mods, speed)
	r.do(id, in, func(c *Case) {
		d := st.under(mods, speed)
		c.Note = fmt.Sprintf("%+v", ss)
		r.feed(c, d, newWorkshop(d).build(ss, float64(r.i(-100, 900))))
	})
}

// synths draws objects with arbitrary measurements.
func (r *Run) synths(n int) []synth {
	var ss []synth
	kinds := r.pick("cccs", "c", "cs", "ccsp", "ccccccccp", "s")
	base := r.pickf(75, 90, 100, 125, 150, 300, 60, 42, 400, 1000)
	jitter := r.pickf(0, 0, 1, 5)
	mode := r.rng.Intn(5)
	island, dt := 0, base
	for len(ss) < n {
		if island == 0 {
			island = r.pick2(1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12)
			dt = base * r.pickf(1, 2, 0.5, 1.0/3, 0.25, 0.75, 4, 1, 1.5, 0.8, 1.25)
		}
		island--
		d := dt
		switch mode {
		case 0:
			d = r.pickf(1, 10, 25, 50, 74, 75, 76, 90, 99, 100, 101, 110, 125, 150, 300, 1000, 0)
		case 1:
			d = math.Round(r.fl(1, 600))
		case 4: // dense
			d = r.pickf(25, 26, 28, 31, 32, 33, 34, 35, 36, 38, 41, 44, 46, 55, 60)
		}
		d += math.Round(r.fl(-jitter, jitter))
		if d < 0 {
			d = 0
		}
		if r.chance(0.02) {
			d = r.pickf(2000, 5000, 7000)
		}
		s := synth{kind: map[byte]string{'c': "circle", 's': "slider", 'p': "spinner"}[kinds[r.rng.Intn(len(kinds))]], dt: d,
			jump: r.pickf(0, 10, 24, 25, 50, 60, 75, 99, 100, 101, 125, 150, 400, r.fl(0, 300), r.fl(0, 130)), angle: r.pickf(-1, 0, math.Pi, math.Pi/6, math.Pi/2, 5*math.Pi/6, r.fl(0, math.Pi), r.fl(0, math.Pi), r.fl(0, math.Pi), r.fl(0, math.Pi)),
			travel: r.pickf(0, 40, r.fl(0, 300)), tt: r.pickf(10, 50, r.fl(25, 400)), x: float64(r.i(0, 512)), y: float64(r.i(0, 384))}
		if r.chance(0.3) && len(ss) > 0 { // near or at the previous place
			s.x, s.y = ss[len(ss)-1].x+float64(r.i(0, 1)*r.i(-60, 60)), ss[len(ss)-1].y
		}
		s.move = s.jump * r.pickf(0, 1, r.fl(0, 1))
		if mode == 3 { // one measurement at a time
			s.jump, s.move = 80, 60
		}
		ss = append(ss, s)
	}
	return ss
}

func init() {
	suites["skills"] = func(r *Run) {
		var gen [][][4]string
		if r.in != "" {
			r.behaviours(&gen)
		}
		for i, g := range gen {
			var ss []synth
			for _, o := range g {
				dt, _ := strconv.ParseFloat(o[1], 64)
				j, _ := strconv.ParseFloat(o[2], 64)
				a, _ := strconv.ParseFloat(o[3], 64)
				ss = append(ss, synth{kind: o[0], dt: dt, jump: j, move: j, angle: a * math.Pi / 180, travel: 80, tt: 60, x: 100 + j, y: 100})
			}
			r.synthCase(fmt.Sprint("gen", i), settings{5, 4, 8, 9}, 0, 1, ss)
		}
		for k := 0; k < r.n(240, 500); k++ {
			n := r.pick2(2, 5, 12, 20, 30)
			if k%6 == 0 {
				n = 75
			}
			st, mods, speed := r.someSettings(), modset(r.randMods()...), r.someSpeed()
			if k == 200 {
				n = 1400
			}
			if k%4 == 1 { // a demanding judge
				st.od, mods, speed = r.fl(9.5, 11), difficulty.DoubleTime, 1.5
			}
			r.synthCase(fmt.Sprint("synth", k), st, mods, speed, r.synths(n))
		}
		for k := 0; k < r.n(120, 300); k++ {
			o := r.someMap()
			if k%5 == 0 {
				o.n = 70
			}
			r.skillMapCase(fmt.Sprint("map", k), r.someSettings(), modset(r.randMods()...), r.someSpeed(), r.mapLines(o))
		}
	}
	// a skill of our own: what it remembers, how it decays, which peaks it keeps
	suites["strain"] = func(r *Run) {
		run := func(id string, mult, base float64, hist int, ts, adds []float64) {
			r.do(id, M{"mult": F(mult), "base": F(base), "history": hist}, func(c *Case) {
				c.Note = fmt.Sprint(ts, adds)
				d := difficulty.NewDifficulty(5, 5, 5, 5)
				s := skills.NewSkill(d)
				s.SkillMultiplier, s.StrainDecayBase, s.HistoryLength = mult, base, hist
				var add float64
				var seen []float64
				s.StrainValueOf = func(*preprocessing.DifficultyObject) float64 {
					seen = []float64{}
					for i := 0; i < 100; i++ {
						p := s.GetPrevious(i)
						if p == nil {
							break
						}
						seen = append([]float64{p.StartTime}, seen...)
					}
					if len(seen) != len(s.Previous) {
						seen = append(seen, math.Inf(1))
					}
					return add
				}
				last, first := math.NaN(), r.pickf(100, 100, 0, 3)
				for i, t := range ts {
					dt := first
					if i > 0 {
						dt = t - last
					}
					last, add = t, adds[i]
					s.Process(&preprocessing.DifficultyObject{BaseObject: objects.NewCircle([]string{"0", "0", "0", "1", "0"}), StartTime: t, DeltaTime: dt, StrainTime: math.Max(dt, 25)})
					e := M{"op": "feel", "t": F(t), "delta": F(dt), "add": F(add), "strain": F(s.CurrentStrain), "seen": FS(seen), "peaks": L{}}
					if len(ts) <= 60 && r.chance(0.5) || r.chance(0.01) || i == len(ts)-1 {
						e["peaks"] = L{FS(s.GetCurrentStrainPeaks())}
					}
					if r.chance(0.3) {
						s.DifficultyValue()
					}
					c.add(e)
				}
			})
		}
		var gen [][]struct {
			T   float64 `json:"t"`
			Add float64 `json:"add"`
		}
		if r.in != "" {
			r.behaviours(&gen)
		}
		for i, g := range gen {
			var ts, as []float64
			for _, o := range g {
				ts, as = append(ts, o.T), append(as, o.Add)
			}
			run(fmt.Sprint("gen", i), 2, 0.3, 2, ts, as)
		}
		for k := 0; k < r.n(300, 600); k++ {
			var ts, as []float64
			t := float64(r.i(-900, 900))
			if r.chance(0.3) {
				t = float64(r.i(-2, 3) * 400)
			}
			n, pause := r.i(1, 50), 0.03
			if k%100 == 50 { // a long map
				n, pause = r.i(250, 500), []float64{0, 0.03, 0.2}[k/100%3]
			}
			if k == 200 {
				n, pause = 4500, 0
			}
			for ; n > 0; n-- {
				ts, as = append(ts, t), append(as, r.pickf(0, 1, r.fl(0, 10), r.fl(0, 0.01)))
				t += r.pickf(0, 1, 100, 400, 399, 401, 800, 1200, r.fl(0, 300), r.fl(0, 300), r.fl(0, 300), 266.66666666666669)
				if r.chance(pause) {
					t += 9000
				}
				if pause > 0.1 && n%10 == 3 {
					t += r.pickf(r.fl(20000, 90000), r.fl(20000, 90000), 700000)
				}
				if r.chance(0.1) {
					t = math.Ceil(t/400) * 400
				}
			}
			run(fmt.Sprint("rand", k), r.pickf(1, 23.25, 1375, 0.15), r.pickf(0.15, 0.3, 0.9), r.pick2(1, 2, 3, 10, 32), ts, as)
		}
	}
}
