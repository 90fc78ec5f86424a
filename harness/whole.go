package main

import (
	"fmt"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
)

func (r *Run) wholeCase(id string, st settings, mods difficulty.Modifier, speed float64, lines []string) {
	in := M{}
	st.record(in, mods, speed)
	r.do(id, in, func(c *Case) {
		c.Note = r.mapText(st, lines)
		os := mustParse(c.Note).HitObjects
		d := st.under(mods, speed)
		steps := osu.CalculateStep(os, d)
		for i, o := range os {
			c.add(M{"op": "object", "o": seen(o, d), "counts": countsOf(steps[i]), "stars": starsOf(steps[i])})
		}
		if a := osu.CalculateSingle(os, d); len(os) > 0 {
			for k := 0; k < 6; k++ {
				s := r.fullPlay(a)
				c.add(M{"op": "score", "s": s.rec(), "got": resultsOf(s.pp(a, d))})
			}
		}
	})
}

func init() {
	// from objects to stars and points in one go
	suites["whole"] = func(r *Run) {
		for k := 0; k < r.n(240, 900); k++ {
			o := r.someMap()
			if k%15 == 0 {
				o.n = r.i(50, 110)
			}
			if k%120 == 60 {
				o.n, o.gaps = r.i(200, 400), r.chance(0.5)
			}
			if k == 111 {
				o.n, o.kinds, o.gaps = 1100, "cccccccccccsp", false
			}
			r.wholeCase(fmt.Sprint("whole", k), r.someSettings(), r.scoreMods(), r.someSpeed(), r.mapLines(o))
		}
	}
	// ratings as maps grow
	suites["growth"] = func(r *Run) {
		for k := 0; k < r.n(240, 900); k++ {
			o := r.someMap()
			if k%3 == 0 {
				o.n = r.i(50, 250)
			}
			if k%100 == 40 {
				o.n = r.i(400, 900)
			}
			if k == 111 {
				o.n, o.kinds, o.gaps = 2100, "cccccccccccsp", false
			}
			st, lines := r.someSettings(), r.mapLines(o)
			mods, speed := r.ratingMods(), r.someSpeed()
			r.do(fmt.Sprint("grow", k), nil, func(c *Case) {
				c.Note = r.mapText(st, lines)
				os := r.someObjects(mustParse(c.Note).HitObjects)
				d := st.under(mods, speed)
				steps, single, was, peaks := L{}, L{}, L{}, L{}
				for _, a := range osu.CalculateStep(os, d) {
					steps = append(steps, starsOf(a))
				}
				for n := 0; n <= len(os); n += r.i(1, 1+len(os)/8) {
					a, p := osu.CalculateSingleWithPeaks(os[:n], d)
					single, was = append(single, starsOf(a)), append(was, n)
					peaks = append(peaks, peaksOf(p))
				}
				c.add(M{"op": "grow", "note": "step by step", "stars": steps, "peaks": L{}})
				c.add(M{"op": "grow", "note": "prefixes", "stars": single, "peaks": peaks, "was": was})
			})
		}
	}
}
