package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
)

func countsOf(a osu.Attributes) M {
	return M{"objects": a.ObjectCount, "circles": a.Circles, "sliders": a.Sliders, "spinners": a.Spinners, "combo": a.MaxCombo}
}

func starsOf(a osu.Attributes) M {
	return M{"aim": F(a.Aim), "speed": F(a.Speed), "flash": F(a.Flashlight), "slider": F(a.SliderFactor), "total": F(a.Total)}
}

func styleOf(m difficulty.Modifier) M {
	return M{"relax": m&difficulty.Relax > 0, "flashlight": m&difficulty.Flashlight > 0}
}

func peaksOf(p osu.StrainPeaks) M {
	return M{"aim": FS(p.Aim), "speed": FS(p.Speed), "flash": FS(p.Flashlight), "total": FS(p.Total)}
}

func pointsOf(os []objects.IHitObject) L {
	l := L{}
	for _, o := range os {
		n := 0
		if s, ok := o.(*objects.Slider); ok {
			n = len(s.ScorePoints)
		}
		l = append(l, M{"kind": kindOf(o), "points": n})
	}
	return l
}

// someObjects are objects as a map has them, or a selection of them.
func (r *Run) someObjects(b []objects.IHitObject) []objects.IHitObject {
	os := append([]objects.IHitObject{}, b...)
	if r.chance(0.2) && len(os) > 1 {
		return os[r.i(0, len(os)-1):]
	}
	return os
}

// ratingMods: the mods that matter to ratings come up often.
func (r *Run) ratingMods() difficulty.Modifier {
	m := modset(r.randMods()...)
	if r.chance(0.4) {
		m |= difficulty.Flashlight
	}
	if r.chance(0.25) {
		m |= difficulty.Relax
	}
	switch r.rng.Intn(5) {
	case 0: // any mods at all
		m = 0
		for b := 0; b < 32; b++ {
			if r.chance(0.4) {
				m |= 1 << b
			}
		}
	case 1:
		m |= 1 << r.i(0, 31)
	}
	return m
}

func (r *Run) rateCase(id string, st settings, mods difficulty.Modifier, speed float64, lines []string) {
	r.do(id, nil, func(c *Case) {
		c.Note = r.mapText(st, lines)
		d := st.under(mods, speed)
		os := r.someObjects(mustParse(c.Note).HitObjects)
		still, speedS, aim, flash := skills.NewAimSkill(d, false), skills.NewSpeedSkill(d), skills.NewAimSkill(d, true), skills.NewFlashlightSkill(d)
		for _, o := range preprocessing.CreateDifficultyObjects(os, d) {
			aim.Process(o)
			still.Process(o)
			speedS.Process(o)
			flash.Process(o)
		}
		c.add(M{"op": "rate", "n": len(os), "style": styleOf(mods), "aim": FS(aim.GetCurrentStrainPeaks()), "still": FS(still.GetCurrentStrainPeaks()),
			"speed": FS(speedS.GetCurrentStrainPeaks()), "flash": FS(flash.GetCurrentStrainPeaks()), "stars": starsOf(osu.CalculateSingle(os, d))})
		c.add(M{"op": "peaks", "style": styleOf(mods), "peaks": peaksOf(osu.CalculateStrainPeaks(os, d))})
	})
}

// valueCase lets a skill have exactly the given section peaks.
func (r *Run) valueCase(id string, peaks []float64, reduced int, base, weight, scale float64) {
	r.do(id, nil, func(c *Case) {
		c.Note = fmt.Sprint(peaks)
		s := skills.NewSkill(difficulty.NewDifficulty(5, 5, 5, 5))
		s.SkillMultiplier, s.StrainDecayBase = 1, 0
		s.ReducedSectionCount, s.ReducedStrainBaseline, s.DecayWeight, s.DifficultyMultiplier = reduced, base, weight, scale
		add := 0.0
		s.StrainValueOf = func(*preprocessing.DifficultyObject) float64 { return add }
		for i, p := range peaks {
			add = p
			s.Process(&preprocessing.DifficultyObject{BaseObject: objects.NewCircle([]string{"0", "0", "0", "1", "0"}), StartTime: float64(i)*400 + 200, DeltaTime: 400, StrainTime: 400})
		}
		e := M{"op": "value", "peaks": FS(s.GetCurrentStrainPeaks()), "reduced": reduced, "base": F(base), "weight": F(weight), "scale": F(scale)}
		e["got"] = F(s.DifficultyValue())
		e["again"] = F(s.DifficultyValue())
		c.add(e)
	})
}

func init() {
	suites["stars"] = func(r *Run) {
		var gen [][]float64
		if r.in != "" {
			r.behaviours(&gen)
		}
		for i, g := range gen {
			r.valueCase(fmt.Sprint("gen", i), g, 2, 0.75, 0.9, 1.06)
		}
		for k := 0; k < r.n(320, 800); k++ {
			var ps []float64
			for n := r.pick2(0, 1, 2, 5, 9, 10, 11, 12, 30, 100, 150, r.i(100, 900), r.pick2(1100, 2100, 4200)); n > 0; n-- {
				ps = append(ps, r.pickf(0, 1, 2, 2, 3, 4, r.fl(0, 4), r.fl(0, 1000), r.fl(2.9, 3.1)))
			}
			r.valueCase(fmt.Sprint("value", k), ps, r.pick2(0, 1, 2, 5, 10, 10), r.pickf(0.75, 0.75, 0.5, 1), r.pickf(0.9, 1, 0.5), r.pickf(1, 1.06, 1.04))
		}
		for k := 0; k < r.n(240, 700); k++ {
			o := r.someMap()
			if k%4 == 0 {
				o.n = 80
			}
			mods := r.ratingMods()
			if k%60 == 30 { // a long map
				o.n, o.gaps = r.i(250, 600), true
				mods |= difficulty.Modifier(r.rng.Intn(2)) * difficulty.Flashlight
			}
			speed := r.someSpeed()
			if k%16 == 5 { // next to nothing to do
				speed = r.pickf(0.1, 0.03)
			}
			r.rateCase(fmt.Sprint("rate", k), r.someSettings(), mods, speed, r.mapLines(o))
		}
	}
	suites["counts"] = func(r *Run) {
		for k := 0; k < r.n(400, 1500); k++ {
			o := r.someMap()
			if k < 8 {
				o.n = k / 4
			} else if k%25 == 0 {
				o.n = r.i(90, 400)
			} else if k%170 == 160 {
				o.n = r.i(700, 1400)
			} else if k == 300 {
				o.n, o.kinds = r.i(4200, 4500), "cccccccccccsp"
			}
			st, lines := r.someSettings(), r.mapLines(o)
			r.do(fmt.Sprint("count", k), nil, func(c *Case) {
				c.Note = r.mapText(st, lines)
				os := r.someObjects(mustParse(c.Note).HitObjects)
				for n := 0; n < 3; n++ {
					d := st.under(r.ratingMods(), r.someSpeed())
					if n == 1 {
						d = r.someSettings().under(0, 1)
					}
					steps, single := L{}, osu.CalculateSingle(os, d)
					withPeaks, _ := osu.CalculateSingleWithPeaks(os, d)
					for _, a := range osu.CalculateStep(os, d) {
						steps = append(steps, countsOf(a))
					}
					c.add(M{"op": "count", "os": pointsOf(os), "single": countsOf(single), "peaked": countsOf(withPeaks), "steps": steps})
				}
			})
		}
	}
	// every calculation on every prefix
	suites["agree"] = func(r *Run) {
		for k := 0; k < r.n(240, 700); k++ {
			o := r.someMap()
			o.n = r.pick2(0, 1, 2, 3, 5, 8, 12, 20, 35)
			if k < 9 {
				o.n = k / 3
			} else if k%12 == 0 {
				o.n = r.i(70, 300)
			} else if k%100 == 70 {
				o.n = r.i(500, 900)
			} else if k == 111 {
				o.n, o.kinds = 2100, "cccccccccccsp"
			}
			st, lines := r.someSettings(), r.mapLines(o)
			mods, speed := r.ratingMods(), r.someSpeed()
			r.do(fmt.Sprint("agree", k), nil, func(c *Case) {
				c.Note = r.mapText(st, lines)
				os := r.someObjects(mustParse(c.Note).HitObjects)
				d := st.under(mods, speed)
				whole := func(a osu.Attributes) M { return M{"counts": countsOf(a), "stars": starsOf(a)} }
				var steps, stepsP []osu.Attributes
				var peaksP osu.StrainPeaks
				steps = osu.CalculateStep(os, d)
				stepsP, peaksP = osu.CalculateStepWithPeaks(os, d)
				c.add(M{"op": "lengths", "n": len(os), "steps": len(steps), "stepsPeaked": len(stepsP)})
				for i := 0; i <= len(os); i++ {
					if len(os) > 50 && i != len(os) && !r.chance(math.Min(0.15, 20/float64(len(os)))) { // some prefixes of long maps
						continue
					}
					single := osu.CalculateSingle(os[:i], d)
					singleP, peaks := osu.CalculateSingleWithPeaks(os[:i], d)
					stepPeaks := peaks
					if i == len(os) || len(os) <= 300 || r.chance(0.2) {
						_, stepPeaks = osu.CalculateStepWithPeaks(os[:i], d)
					}
					e := M{"op": "prefix", "n": i, "single": whole(single), "peaked": whole(singleP), "steps": L{}, "peaks": L{}}
					if i > 0 {
						var a, b osu.Attributes
						a.Total, b.Total = math.NaN(), math.NaN()
						if i <= len(steps) {
							a = steps[i-1]
						}
						if i <= len(stepsP) {
							b = stepsP[i-1]
						}
						e["steps"] = L{whole(a), whole(b)}
					}
					if i == len(os) || i%5 == 0 {
						e["peaks"] = L{peaksOf(osu.CalculateStrainPeaks(os[:i], d)), peaksOf(peaks), peaksOf(stepPeaks)}
						if i == len(os) {
							e["peaks"] = append(e["peaks"].(L), peaksOf(peaksP))
						}
					}
					c.add(e)
				}
			})
		}
	}
}
