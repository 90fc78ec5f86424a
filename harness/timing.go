package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/timing"
)

func observePoint(p timing.ControlPoint) M {
	return M{"time": F(p.Time), "raw": F(p.GetRawBeatLength()), "base": F(p.GetBaseBeatLength()), "ratio": F(p.GetRatio()),
		"beat": F(p.GetBeatLength()), "signature": p.Signature, "set": p.SampleSet, "index": p.SampleIndex, "volume": F(p.SampleVolume),
		"inherited": p.Inherited, "kiai": p.Kiai, "omit": p.OmitFirstBarLine}
}

// timingCase parses a file with the given timing lines and looks at points at the given times.
func (r *Run) timingCase(id string, lines []string, mult, rate string, times []float64) {
	m, _ := strconv.ParseFloat(mult, 64)
	t, _ := strconv.ParseFloat(rate, 64)
	ln := math.Round(r.fl(1, 500)*100) / 100
	r.do(id, M{"mult": F(m), "rate": F(t), "len": F(ln)}, func(c *Case) {
		text := "osu file format v14\n[Metadata]\nTitle:t\n[Difficulty]\nSliderMultiplier:" + mult + "\nSliderTickRate:" + rate + "\n[TimingPoints]\n" + strings.Join(lines, "\n")
		c.Note = text
		b, err := beatmap.ParseFromByte([]byte(text))
		if err != nil {
			panic(err)
		}
		for _, l := range lines {
			c.add(M{"op": "point", "line": l})
		}
		tm := b.Timings
		c.add(M{"op": "end", "obs": M{"min": F(b.MinBPM), "max": F(b.MaxBPM), "scoring": F(tm.GetScoringDistance()), "default": observePoint(tm.GetDefault()), "any": L{timing.NewTimings().HasPoints(), tm.HasPoints()}}})
		for _, t := range times {
			p := tm.GetPointAt(t)
			c.add(M{"op": "look", "t": F(t), "point": observePoint(p), "orig": observePoint(tm.GetOriginalPointAt(t)),
				"velocity": F(tm.GetVelocity(p)), "tick": F(tm.GetTickDistance(p)), "slider": F(tm.GetSliderTimeP(p, ln))})
		}
	})
}

func init() {
	suites["timing"] = func(r *Run) {
		var hist [][]string
		r.behaviours(&hist)
		for i, h := range hist {
			r.timingCase(fmt.Sprint("gen", i), h, "1.4", "2", []float64{-5, 0, 5, 10, 15, 20, 25})
		}
		for k := 0; k < r.n(500, 2500); k++ {
			n := 1 + r.rng.Intn(14)
			if k%10 == 0 {
				n = 40
			}
			if k%100 == 99 {
				n = []int{300, 900, 2100}[k/100%3]
			}
			var lines []string
			var times []float64
			grid := r.pick2(1, 10, 1000)
			from := 0.0
			if r.chance(0.06) { // hours or weeks later
				from = r.pickf(17e6, 3e9, -2e7)
			}
			for i := 0; i < n; i++ {
				t := from + float64(r.i(-2, n)*grid)
				switch r.rng.Intn(8) {
				case 0:
					t += 0.5
				case 1:
					t += r.fl(0, 1)
				case 2:
					t = math.Nextafter(t, 1e9)
				}
				l := r.timingLine(t, r.chance(0.55))
				if r.chance(0.05) { // no beat at all, or hardly
					f := strings.Split(l, ",")
					f[1] = r.pick("0", "-0", "0.0", "1e-5", "-1e-5", "-1e300", "1e300", "-9.999999", "-10.000001", "-999.99999", "-1000.0001")
					l = strings.Join(f, ",")
				}
				if r.chance(0.2) { // white space around fields
					f := strings.Split(l, ",")
					for i := range f {
						f[i] = r.ws() + f[i] + r.ws()
					}
					l = strings.Join(f, ",")
				}
				lines = append(lines, l)
				times = append(times, t, math.Nextafter(t, -1e9), math.Nextafter(t, 1e9))
			}
			for i := 0; i < 6; i++ {
				times = append(times, from+r.fl(-3*float64(grid), float64((n+2)*grid)), from+float64(r.i(-2, n)*grid))
			}
			times = append(times, -1e9, 1e9, math.Inf(1), math.Inf(-1))
			r.rng.Shuffle(len(times), func(i, j int) { times[i], times[j] = times[j], times[i] })
			if len(times) > 40 {
				times = times[:40]
			}
			r.timingCase(fmt.Sprint("rand", k), lines, r.pick("1.4", "0.4", "3.6", "2", "1.79999995231628"), r.pick("1", "2", "0.5", "4", "3", "1.33333"), times)
		}
	}
}
