package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
)

type score struct{ combo, great, ok, meh, miss int }

func (s score) rec() M {
	return M{"combo": s.combo, "great": s.great, "ok": s.ok, "meh": s.meh, "miss": s.miss}
}

func (s score) pp(a osu.Attributes, d *difficulty.Difficulty) osu.PPv2Results {
	pp := &osu.PPv2{}
	return pp.PPv2x(a, s.combo, s.great, s.ok, s.meh, s.miss, d).Results
}

func resultsOf(p osu.PPv2Results) M {
	return M{"aim": F(p.Aim), "speed": F(p.Speed), "acc": F(p.Acc), "flash": F(p.Flashlight), "total": F(p.Total)}
}

func attrsOf(a osu.Attributes) M {
	m := starsOf(a)
	for k, v := range countsOf(a) {
		m[k] = v
	}
	return m
}

// someAttrs are attributes a map could have.
func (r *Run) someAttrs() osu.Attributes {
	var a osu.Attributes
	size := r.pick2(0, 1, 2, 5, 20, 20, 150, 150, 600, 600, 600, 3000, 7000, r.i(900, 1200), r.i(900, 2600), int(math.Exp(r.fl(0, 9.5))))
	if r.chance(0.8) {
		a.Circles = r.i(0, size)
		if r.chance(0.3) {
			a.Circles = size
		}
	}
	if r.chance(0.7) {
		a.Sliders = r.i(0, size)
	}
	if r.chance(0.5) {
		a.Spinners = r.i(0, 6)
	}
	a.ObjectCount = a.Circles + a.Sliders + a.Spinners
	a.MaxCombo = a.ObjectCount + a.Sliders
	if a.Sliders > 0 {
		a.MaxCombo += r.i(0, 3*a.Sliders)
	}
	a.Aim, a.Speed, a.Flashlight = r.pickf(0, 0.05, r.fl(0, 4), r.fl(0, 4), r.fl(0, 4)), r.pickf(0, 0.05, r.fl(0, 4), r.fl(0, 4)), r.pickf(0, r.fl(0, 4))
	a.SliderFactor = r.pickf(1, 0.98, r.fl(0.5, 1))
	if a.Sliders == 0 {
		a.SliderFactor = 1
	}
	a.Total = r.fl(0, 9)
	return a
}

// fullPlay is a play of the whole map, good or bad.
func (r *Run) fullPlay(a osu.Attributes) score {
	s := score{combo: a.MaxCombo}
	if s.combo < 1 {
		s.combo = 1
	}
	left := a.ObjectCount
	some := func() int {
		n := 0
		switch r.rng.Intn(4) {
		case 0:
			n = r.i(0, 3)
		case 1:
			n = r.i(0, left)
		case 2:
			n = r.i(0, left/20)
		}
		if n > left {
			n = left
		}
		left -= n
		return n
	}
	s.miss, s.ok, s.meh = some(), some(), some()
	s.great = left
	switch r.rng.Intn(7) {
	case 6: // about a whole fraction of what counts as a full combo
		s.combo = int(math.Max(0, (float64(a.MaxCombo)-0.1*float64(a.Sliders))/float64(r.i(1, 7)))) + r.i(0, 1)
		if s.combo > a.MaxCombo {
			s.combo = a.MaxCombo
		}
	case 5:
		s.combo = r.i(0, int(math.Min(2, float64(s.combo))))
	case 0:
		s.combo = r.i(0, s.combo)
	case 1:
		s.combo -= r.i(0, 5)
	case 2:
		s.combo -= r.i(0, s.combo/8)
	case 3:
		s.combo -= r.i(0, a.Sliders/5)
	}
	if s.combo < 0 {
		s.combo = 0
	}
	return s
}

// someScore may also be of an unfinished play, or leave numbers to be completed.
func (r *Run) someScore(a osu.Attributes) score {
	s := r.fullPlay(a)
	if r.chance(0.3) && a.ObjectCount > 0 {
		if n := r.i(0, a.ObjectCount-1); s.ok+s.meh+s.miss <= n && n >= a.Spinners {
			s.great = n - s.ok - s.meh - s.miss
		}
	}
	if r.chance(0.25) {
		s.combo = -r.i(1, 3)
	}
	if r.chance(0.25) {
		s.great = -r.i(1, 3)
	}
	return s
}

func (r *Run) scoreMods() difficulty.Modifier {
	m := r.ratingMods()
	for _, x := range []difficulty.Modifier{difficulty.Hidden, difficulty.TouchDevice, difficulty.NoFail, difficulty.SpunOut, difficulty.ScoreV2, difficulty.HardRock, difficulty.Easy, difficulty.DoubleTime, difficulty.HalfTime} {
		if r.chance(0.15) {
			m |= x
		}
	}
	return m
}

func (r *Run) scoreCase(id string, a osu.Attributes, f func(c *Case, d *difficulty.Difficulty)) {
	st, mods, speed := r.someSettings(), r.scoreMods(), r.someSpeed()
	if r.chance(0.3) {
		mods, speed = 0, 1
	}
	if r.chance(0.08) { // faster than any mod makes it
		st.ar, mods, speed = r.pickf(9, 10, 10), mods&^(difficulty.Easy|difficulty.HalfTime)|difficulty.Hidden|difficulty.DoubleTime, r.pickf(2, 3, 4)
	}
	in := M{"a": attrsOf(a)}
	st.record(in, mods, speed)
	r.do(id, in, func(c *Case) {
		c.Note = fmt.Sprintf("%+v %v %v", a, st, mods)
		f(c, st.under(mods, speed))
	})
}

func explicit(s score, a osu.Attributes) score {
	if s.combo < 0 {
		s.combo = a.MaxCombo
		if s.combo < 1 {
			s.combo = 1
		}
	}
	if s.great < 0 {
		s.great = a.ObjectCount - s.ok - s.meh - s.miss
	}
	return s
}

func (r *Run) mapAttrs() osu.Attributes {
	if r.chance(0.7) {
		return r.someAttrs()
	}
	o := r.someMap()
	o.n = r.i(1, 60)
	st := r.someSettings()
	return osu.CalculateSingle(mustParse(r.mapText(st, r.mapLines(o))).HitObjects, st.under(r.ratingMods(), 1))
}

func init() {
	suites["scores"] = func(r *Run) {
		var gen [][9]int
		if r.in != "" {
			r.behaviours(&gen)
		}
		per := map[[4]int][]score{}
		var order [][4]int
		for _, g := range gen {
			k := [4]int{g[0], g[1], g[2], g[3]}
			if per[k] == nil {
				order = append(order, k)
			}
			per[k] = append(per[k], score{g[4], g[5], g[6], g[7], g[8]})
		}
		one := func(c *Case, s score, a osu.Attributes, d *difficulty.Difficulty) {
			e := M{"op": "score", "s": s.rec(), "got": resultsOf(s.pp(a, d)), "full": L{}}
			if x := explicit(s, a); x != s {
				e["full"] = L{resultsOf(x.pp(a, d))}
			}
			c.add(e)
		}
		for _, k := range order {
			a := osu.Attributes{Circles: k[0], Sliders: k[1], Spinners: k[2], MaxCombo: k[3], ObjectCount: k[0] + k[1] + k[2], Aim: 2.7, Speed: 2.1, Flashlight: 1.5, SliderFactor: 0.95}
			ss := per[k]
			for b := 0; b < len(ss); b += 40 {
				r.scoreCase(fmt.Sprint("gen", k, b), a, func(c *Case, d *difficulty.Difficulty) {
					for i := b; i < b+40 && i < len(ss); i++ {
						s := ss[i]
						if s.combo == a.MaxCombo && r.chance(0.3) {
							s.combo = -1
						}
						if r.chance(0.2) {
							s.great = -1
						}
						one(c, s, a, d)
					}
				})
			}
		}
		for k := 0; k < r.n(800, 2000); k++ {
			a := r.mapAttrs()
			r.scoreCase(fmt.Sprint("rand", k), a, func(c *Case, d *difficulty.Difficulty) {
				for n := 0; n < 12; n++ {
					one(c, r.someScore(a), a, d)
				}
				if a.Spinners == 0 || !d.Mods.Active(difficulty.SpunOut) {
					one(c, score{r.i(-1, 0), 0, 0, 0, 0}, a, d)
				}
			})
		}
	}
	// a Latin hypercube: every quantity the formulas depend on passes through its whole range in fine steps
	suites["ladder"] = func(r *Run) {
		n := r.n(1400, 4000)
		level := func(lo, hi float64) func(k int) float64 {
			p := r.rng.Perm(n)
			return func(k int) float64 { return lo + (hi-lo)*(float64(p[k])+r.rng.Float64())/float64(n) }
		}
		circles, sliders, combo := level(1, 2700), level(-300, 900), level(0, 3)
		aim, speed, flash, sf := level(0, 4.5), level(0, 4), level(0, 4), level(0.6, 1.1)
		ar, od, bad, kept := level(0, 11), level(0, 11), level(-0.1, 0.6), level(0, 1.3)
		for k := 0; k < n; k++ {
			a := osu.Attributes{Circles: int(circles(k)), Sliders: int(math.Max(0, sliders(k))), Spinners: r.pick2(0, 0, 0, 1, 3), Aim: aim(k), Speed: speed(k), Flashlight: flash(k), SliderFactor: math.Min(1, sf(k)), Total: 5}
			if a.Sliders == 0 {
				a.SliderFactor = 1
			}
			a.ObjectCount = a.Circles + a.Sliders + a.Spinners
			a.MaxCombo = a.ObjectCount + int(float64(a.Sliders)*combo(k))
			st := settings{hp: 5, cs: 4, od: od(k), ar: ar(k)}
			mods := []difficulty.Modifier{0, 0, 0, r.scoreMods(), difficulty.Flashlight, difficulty.Hidden, difficulty.Relax, difficulty.ScoreV2, difficulty.HardRock, difficulty.DoubleTime | difficulty.Hidden, difficulty.Relax2, difficulty.TouchDevice}[r.rng.Intn(12)]
			in := M{"a": attrsOf(a)}
			st.record(in, mods, 1)
			frac, c := math.Max(0, bad(k)), math.Min(1, kept(k))
			r.do(fmt.Sprint("ladder", k), in, func(cs *Case) {
				cs.Note = fmt.Sprintf("%+v %v %v", a, st, mods)
				d := st.under(mods, 1)
				lost := int(frac * float64(a.ObjectCount))
				ok, meh := 0, 0
				if lost > 0 {
					ok = r.i(0, lost)
					meh = r.i(0, lost-ok)
				}
				for _, s := range []score{
					{combo: a.MaxCombo, great: a.ObjectCount},
					{combo: int(c * float64(a.MaxCombo)), great: a.ObjectCount - lost, ok: lost},
					{combo: int(c * float64(a.MaxCombo)), great: a.ObjectCount - lost, ok: ok, meh: meh, miss: lost - ok - meh},
					{combo: a.MaxCombo, great: a.ObjectCount - lost, meh: lost},
					{combo: a.MaxCombo + r.i(1, 1+a.MaxCombo/4), great: a.ObjectCount - lost, ok: ok, meh: meh, miss: lost - ok - meh}, // more than there is
				} {
					cs.add(M{"op": "score", "s": s.rec(), "got": resultsOf(s.pp(a, d)), "full": L{}})
				}
			})
		}
	}
	// plays getting worse and worse
	suites["downhill"] = func(r *Run) {
		for k := 0; k < r.n(750, 2500); k++ {
			a := r.mapAttrs()
			r.scoreCase(fmt.Sprint("down", k), a, func(c *Case, d *difficulty.Difficulty) {
				s := r.fullPlay(a)
				if r.chance(0.5) {
					s = score{combo: int(math.Max(1, float64(a.MaxCombo))), great: a.ObjectCount}
				}
				kind := r.pick("o", "m", "x", "c", "omxc", "omxc", "xc")
				c.add(M{"op": "play", "s": s.rec(), "got": resultsOf(s.pp(a, d))})
				for n := 0; n < 25; n++ {
					step := 1
					if r.chance(0.2) {
						step = r.i(1, 60)
					}
					switch kind[r.rng.Intn(len(kind))] {
					case 'c':
						if s.combo < step {
							continue
						}
						s.combo -= step
					case 'o':
						if s.great < step {
							continue
						}
						s.great, s.ok = s.great-step, s.ok+step
					case 'm':
						if s.great < step {
							continue
						}
						s.great, s.meh = s.great-step, s.meh+step
					case 'x':
						if s.great < step {
							continue
						}
						s.great, s.miss = s.great-step, s.miss+step
					}
					c.add(M{"op": "play", "s": s.rec(), "got": resultsOf(s.pp(a, d))})
				}
			})
		}
	}
}
