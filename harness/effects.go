package main

import (
	"fmt"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
)

const (
	adjusting = difficulty.HardRock | difficulty.Easy | difficulty.DoubleTime | difficulty.Nightcore | difficulty.HalfTime | difficulty.Daycore | difficulty.Flashlight | difficulty.Relax
	scoring   = difficulty.Hidden | difficulty.TouchDevice | difficulty.NoFail | difficulty.SpunOut | difficulty.ScoreV2
	allBits   = difficulty.Modifier(1<<32 - 1)
)

func (r *Run) someBits() (m difficulty.Modifier) {
	p := r.pickf(0.1, 0.5, 0.9)
	for b := 0; b < 32; b++ {
		if r.chance(p) {
			m |= 1 << b
		}
	}
	return
}

func init() {
	// selections that differ, but not in what they do
	suites["effects"] = func(r *Run) {
		for k := 0; k < r.n(240, 700); k++ {
			o := r.someMap()
			if o.n < 4 {
				o.n += 4
			}
			if k%10 == 0 {
				o.n = 60
			}
			if k%120 == 77 {
				o.n = r.i(600, 1100)
			}
			st, mods, speed := r.someSettings(), r.ratingMods(), r.someSpeed()
			if k < 32 {
				mods |= 1 << k
			}
			lines, in := r.mapLines(o), M{}
			st.record(in, mods, speed)
			r.do(fmt.Sprint("effect", k), in, func(c *Case) {
				c.Note = r.mapText(st, lines)
				os := mustParse(c.Note).HitObjects
				var scores []score
				under := func(m difficulty.Modifier, v float64) {
					d := st.under(m, v)
					a, peaks := osu.CalculateSingleWithPeaks(os, d)
					if scores == nil {
						scores = []score{{-1, -1, 0, 0, 0}}
						for i := 0; i < 3; i++ {
							scores = append(scores, r.fullPlay(a))
						}
					}
					ps := L{}
					for _, s := range scores {
						if d.CheckModActive(difficulty.SpunOut) && s.great >= 0 && s.great+s.ok+s.meh+s.miss < a.Spinners {
							s = scores[0]
						}
						ps = append(ps, resultsOf(s.pp(a, d)))
					}
					c.add(M{"op": "under", "mods": bitsOf(m), "speed": F(v), "stars": starsOf(a), "counts": countsOf(a), "peaks": peaksOf(peaks), "scores": ps})
				}
				under(mods, speed)
				under(mods&adjusting, speed)
				under(mods&difficulty.DifficultyAdjustMask, speed) // the code's own mask
				under(mods&(adjusting|scoring), speed)
				under(mods&adjusting|allBits&^adjusting, speed)
				for i := 0; i < 3; i++ {
					under(mods&adjusting|r.someBits()&^adjusting, speed)
					under(mods&(adjusting|scoring)|r.someBits()&^(adjusting|scoring), speed)
				}
				timed := difficulty.DoubleTime | difficulty.HalfTime | difficulty.Nightcore | difficulty.Daycore
				under(mods^difficulty.Nightcore^difficulty.Daycore, speed) // by themselves they do nothing
				switch {
				case mods&difficulty.DoubleTime > 0:
					under(mods&^timed, 1.5*speed)
					under(mods&^timed|difficulty.DoubleTime, speed)
				case mods&difficulty.HalfTime > 0:
					under(mods&^timed, 0.75*speed)
				default:
					under(mods&^timed|difficulty.DoubleTime, speed/1.5)
					under(mods&^timed|difficulty.HalfTime, speed/0.75)
				}
			})
		}
	}
}
