package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
)

func observeObjects(b *beatmap.BeatMap) L {
	os := L{}
	for _, o := range b.HitObjects {
		os = append(os, M{"kind": kindOf(o), "start": F(o.GetStartTime()), "end": F(o.GetEndTime()), "p": V(o.GetStartPosition()), "q": V(o.GetEndPosition())})
	}
	return os
}

// stackCase parses objects under settings and looks at heights, or positions.
func (r *Run) stackCase(id string, version, leniency string, ar, cs float64, mult string, lines []string) {
	r.do(id, nil, func(c *Case) {
		hp, od := r.pickf(5, 0, 10, 7), r.pickf(7, 0, 10, 3)
		head := "osu file format v" + version + "\n"
		if version == "" {
			head = ""
		}
		c.Note = head + "[General]\nStackLeniency:" + leniency + "\n[Metadata]\nTitle:t\n[Difficulty]\nHPDrainRate:" + num(hp) + "\nOverallDifficulty:" + num(od) + "\nApproachRate:" + num(ar) + "\nCircleSize:" + num(cs) +
			"\nSliderMultiplier:" + mult + "\nSliderTickRate:1\n[TimingPoints]\n0,500\n[HitObjects]\n" + strings.Join(lines, "\n")
		b, err := beatmap.ParseFromByte([]byte(c.Note))
		if err != nil {
			panic(err)
		}
		c.In["version"], c.In["leniency"] = b.FileVersion, F(b.StackLeniency)
		c.In["hp"], c.In["cs"], c.In["od"], c.In["ar"] = F(hp), F(cs), F(od), F(ar)
		c.add(M{"op": "objects", "os": observeObjects(b)})
		sets := []difficulty.Modifier{0, modset("EZ"), modset("HR"), modset("DT", "HD"), modset("HR", "EZ"), modset("EZ", "HT", "FL"), modset("HR", "NC", "DT"), modset(r.randMods()...)}
		if !r.want("positions") {
			for _, m := range sets {
				h := []int{}
				for _, o := range b.HitObjects {
					h = append(h, o.GetStackIndex(m))
				}
				c.add(M{"op": "height", "mods": bitsOf(m), "h": h})
			}
			return
		}
		for k, o := range b.HitObjects {
			times := []float64{o.GetStartTime(), o.GetEndTime(), r.fl(o.GetStartTime(), o.GetEndTime()), o.GetStartTime() - 10, o.GetEndTime() + 10}
			for i, m := range append(sets, 0) {
				raw, seen := L{V(o.GetStartPosition()), V(o.GetEndPosition())}, L{}
				if i < len(sets) {
					seen = append(seen, V(o.GetStackedStartPositionMod(m)), V(o.GetStackedEndPositionMod(m)))
				} else {
					seen = append(seen, V(o.GetStackedStartPosition()), V(o.GetStackedEndPosition()))
				}
				for _, t := range times {
					raw = append(raw, V(o.GetPositionAt(t)))
					if i < len(sets) {
						seen = append(seen, V(o.GetStackedPositionAtMod(t, m)))
					} else {
						seen = append(seen, V(o.GetStackedPositionAt(t)))
					}
				}
				c.add(M{"op": "positions", "k": k + 1, "mods": bitsOf(m), "h": o.GetStackIndex(m), "raw": raw, "seen": seen})
			}
		}
	})
}

func (r *Run) want(what string) bool { return r.args["want"] == what }

// stackLines draws objects crowded into few places, window ms apart or so.
func (r *Run) stackLines(n int, window float64) []string {
	places := [][2]int{}
	for i := r.i(1, 3); i >= 0; i-- {
		places = append(places, [2]int{r.i(50, 450), r.i(50, 330)})
		if r.chance(0.15) { // outside of the playfield
			places[len(places)-1] = [2]int{r.i(-300, 900), r.i(-300, 700)}
		}
	}
	spot := func() (int, int) {
		p := places[r.rng.Intn(len(places))]
		dx, dy := 0, 0
		if r.chance(0.4) {
			d := [][2]int{{1, 1}, {2, 2}, {3, 0}, {0, 3}, {-2, 1}, {2, -2}, {-1, -2}, {0, -3}, {1, -3}, {4, 0}}[r.rng.Intn(10)]
			dx, dy = d[0], d[1]
		}
		return p[0] + dx, p[1] + dy
	}
	kinds := r.pick("c", "ccccs", "ccs", "cs", "ccsp", "s", "cccp", "ccccccsp")
	t := float64(r.i(0, 1000))
	if r.chance(0.1) {
		t += r.pickf(-5000, 20e6, 3e9)
	}
	window = math.Max(0, window)
	var ls []string
	last := 0.0
	for len(ls) < n {
		x, y := spot()
		switch kinds[r.rng.Intn(len(kinds))] {
		case 'c':
			ls = append(ls, fmt.Sprintf("%d,%d,%s,1,0", x, y, num(t)))
		case 'p':
			e := t + float64(r.i(1, int(window)+1))
			ls = append(ls, fmt.Sprintf("%d,%d,%s,8,0,%s", x, y, num(t), num(e)))
			if r.chance(0.7) {
				t = e
			}
		case 's':
			x2, y2 := spot()
			ln := math.Hypot(float64(x2-x), float64(y2-y))
			if ln < 1 {
				x2, ln = x+60, 60
			}
			slides := r.pick2(1, 1, 1, 2, 3)
			if r.chance(0.15) {
				ln *= r.fl(0.5, 1.2)
			}
			ls = append(ls, fmt.Sprintf("%d,%d,%s,2,0,%s|%d:%d,%d,%s", x, y, num(t), r.pick("L", "B"), x2, y2, slides, num(ln)))
			last = t + ln/1.4*5*float64(slides) // roughly, at 1.4
			if r.chance(0.6) {
				t = math.Floor(last)
			}
		}
		switch r.rng.Intn(9) {
		case 0:
			t += math.Floor(window)
		case 1:
			t += math.Floor(window) + 1
		case 2:
			t += math.Floor(window * r.fl(0, 1))
		case 3:
			t += math.Floor(window * r.fl(0.8, 1.5))
		case 4:
		case 5:
			t += 1
		default:
			t += float64(r.i(1, 200))
		}
	}
	return ls
}

func init() {
	suites["stacking"] = func(r *Run) {
		var gen [][][2]string
		if r.in != "" {
			r.behaviours(&gen)
		}
		for i, g := range gen {
			t := 1000
			var ls []string
			for _, o := range g {
				gap, _ := strconv.Atoi(o[1])
				t += gap
				f := map[string]string{"A": "100,100,%d,1,0", "B": "102,101,%d,1,0", "C": "200,100,%d,1,0", "AC": "100,100,%d,2,0,L|200:100,1,100",
					"CA": "200,100,%d,2,0,L|100:100,1,100", "AA": "100,100,%d,2,0,L|200:100,2,100", "SP": "100,100,%d,8,0,%d"}[o[0]]
				if o[0] == "SP" {
					ls = append(ls, fmt.Sprintf(f, t, t+50))
				} else {
					ls = append(ls, fmt.Sprintf(f, t))
				}
			}
			r.stackCase(fmt.Sprint("gen", i, "new"), "14", "0.5", 9, 4, "5", ls)
			r.stackCase(fmt.Sprint("gen", i, "old"), "5", "0.5", 9, 4, "5", ls)
		}
		for k := 0; k < r.n(320, 1000); k++ {
			ar := r.pickf(9, 5, 0, 10, 9.3, 8, 3.7, 10, r.fl(0, 10))
			cs := r.pickf(4, 0, 10, 5, 2, 7.2, r.fl(0, 10))
			len := r.pick("0.7", "0.7", "0", "1", "0.3", "0.55", "0.21", "1.3", r.pick("2", "4.5", "-0.3"))
			lf, _ := strconv.ParseFloat(len, 64)
			d := difficulty.NewDifficulty(5, cs, 7, ar)
			d.SetMods(modset(r.pick("", "", "EZ", "HR")))
			window := d.Preempt * lf
			version := r.pick("14", "14", "14", "6", "7", "5", "5", "3", "4", "128", "")
			n := r.i(1, 14)
			if k%8 == 7 {
				n = r.i(15, 45)
			}
			if k%80 == 79 { // one high heap
				n, window = r.i(80, 120), 2
			}
			if k%80 == 39 { // all of it within reach
				var ls []string
				x, y, at := r.i(50, 450), r.i(50, 330), 1000
				sliders := r.pickf(0, 0, 0.03)
				for n = r.i(70, 160); n > 0; n-- {
					if r.chance(sliders) {
						ls = append(ls, fmt.Sprintf("%d,%d,%d,2,0,L|%d:%d,2,4", x, y, at, x+4, y))
					} else {
						ls = append(ls, fmt.Sprintf("%d,%d,%d,1,0", x+r.i(0, 1), y+r.i(0, 1), at))
					}
					at += r.pick2(1, 2, 5, 8, 12)
				}
				r.stackCase(fmt.Sprint("reach", k), version, "0.7", r.pickf(0, 5, 9), cs, "1.4", ls)
			}
			r.stackCase(fmt.Sprint("rand", k), version, len, ar, cs, "1.4", r.stackLines(n, window))
		}
	}
}

func (r *Run) pickf(xs ...float64) float64 { return xs[r.rng.Intn(len(xs))] }
