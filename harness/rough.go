package main

import (
	"fmt"
	"strings"

	"github.com/Wieku/gosu-pp/performance/osu"
)

// roughText is a map as careless or unusual editors leave them: every number is of ordinary size,
// but nothing else is certain.
func (r *Run) roughText() string {
	small := func() string {
		return r.pick("0", "1", "-1", "100", "256", "192", "512", "384", "-40", num(float64(r.i(-50, 600))), num(float64(r.i(-50, 600))), num(float64(r.i(0, 400))), r.dec(0, 500, 2))
	}
	var b strings.Builder
	line := func(a ...interface{}) { fmt.Fprintln(&b, a...) }
	line("osu file format v" + r.pick("14", "3", "5", "9", "128", ""))
	line("[Metadata]\nTitle:t")
	if r.chance(0.3) {
		line("[General]\nStackLeniency:" + r.pick("0", "1", "2.5", "-1", "NaN", "0.7"))
	}
	line("[Difficulty]")
	for _, k := range []string{"HPDrainRate", "CircleSize", "OverallDifficulty", "ApproachRate"} {
		if r.chance(0.7) {
			line(k + ":" + r.pick("0", "10", "5", "-3", "11", "4", r.dec(0, 10, 1)))
		}
	}
	if r.chance(0.8) {
		line("SliderMultiplier:" + r.pick("1.4", "0.4", "3.6", "1"))
	}
	if r.chance(0.8) {
		line("SliderTickRate:" + r.pick("1", "2", "4", "0.5"))
	}
	line("[TimingPoints]")
	for n := r.i(1, 4); n > 0; n-- {
		line(num(float64(r.i(-2000, 20000))) + "," + r.pick("500", "300", "-100", "-50", "NaN", "-10", "-1000", "1000", "60", "333.33", "0", "6") + r.pick("", ",4,1,0,100,1,0", ",4,1,0,100,0,0"))
	}
	line("[HitObjects]")
	t := r.i(-1500, 3000)
	for n := r.pick2(0, 1, 2, 3, 5, 12, 25, 25, r.pick2(25, 25, 25, 400, 1300)); n > 0; n-- {
		f := []string{small(), small(), num(float64(t)), r.pick("1", "1", "1", "2", "2", "8", "12", "128", "5", "6", "0", "3"), "0"}
		switch f[3] {
		case "8", "12", "128":
			f = append(f, num(float64(t+r.pick2(0, 1, -300, 500, 3000, 40000))))
		case "2", "6":
			body := r.pick("L", "P", "B", "C", "X", "")
			for k := r.pick2(0, 1, 1, 1, 2, 2, 3, 5); k > 0; k-- {
				p := small() + ":" + small()
				switch r.rng.Intn(6) {
				case 2:
					if strings.Contains(body, "|") {
						break
					}
					fallthrough
				case 0:
					p = f[0] + ":" + f[1]
				case 1:
					if i := strings.LastIndex(body, "|"); i >= 0 {
						p = body[i+1:]
					}
				}
				body += "|" + p
			}
			f = append(f, body, r.pick("1", "1", "2", "3", "0", "-1", "20"))
			if r.chance(0.95) {
				f = append(f, r.pick("0", "1", "0.01", "70", "140", "100", "700", "-5", "2000", r.dec(0, 400, 3)))
			}
		}
		line(strings.Join(f, ","))
		t += r.pick2(0, 0, 1, 10, 100, 150, 300, 1000, -200, 9000)
	}
	return b.String()
}

func init() {
	suites["rough"] = func(r *Run) {
		for k := 0; k < r.n(900, 5000); k++ {
			text, mods, speed := r.roughText(), r.scoreMods(), r.someSpeed()
			r.do(fmt.Sprint("rough", k), nil, func(c *Case) {
				c.Note = fmt.Sprint(text, " ", mods, " ", speed)
				b := mustParse(text)
				b.Difficulty.SetCustomSpeed(speed)
				b.Difficulty.SetMods(mods)
				d := b.Difficulty
				a, peaks := osu.CalculateSingleWithPeaks(b.HitObjects, d)
				e := M{"op": "rated", "counts": countsOf(a), "stars": starsOf(a), "peaks": peaksOf(peaks)}
				ps := L{}
				for k := 0; k < 4 && a.ObjectCount > 0; k++ {
					s := r.fullPlay(a)
					ps = append(ps, resultsOf(s.pp(a, d)))
				}
				e["scores"] = ps
				c.add(e)
			})
		}
	}
}
