package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/objects"
)

// sliderCase parses timing points and objects (at increasing times) and looks at the objects.
func (r *Run) sliderCase(id, mult, rate string, points, lines []string) {
	m, _ := strconv.ParseFloat(mult, 64)
	t, _ := strconv.ParseFloat(rate, 64)
	r.do(id, M{"mult": F(m), "rate": F(t)}, func(c *Case) {
		c.Note = "osu file format v14\n[Metadata]\nTitle:t\n[Difficulty]\nSliderMultiplier:" + mult + "\nSliderTickRate:" + rate +
			"\n[TimingPoints]\n" + strings.Join(points, "\n") + "\n[HitObjects]\n" + strings.Join(lines, "\n")
		b, err := beatmap.ParseFromByte([]byte(c.Note))
		if err != nil {
			panic(err)
		}
		if len(b.HitObjects) != len(lines) {
			panic("number of objects")
		}
		for _, l := range points {
			c.add(M{"op": "point", "line": l})
		}
		c.add(M{"op": "end"})
		for i, o := range b.HitObjects {
			times := []float64{o.GetStartTime(), o.GetEndTime(), o.GetStartTime() - 50, o.GetEndTime() + 77.5, -1e7, 1e7}
			e := M{"op": "still", "kind": kindOf(o), "line": lines[i], "end": F(o.GetEndTime()), "duration": F(o.GetDuration()),
				"first": V(o.GetStartPosition()), "last": V(o.GetEndPosition())}
			if s, ok := o.(*objects.Slider); ok {
				e["op"] = "slider"
				score := L{}
				for _, p := range s.ScorePoints {
					score = append(score, L{F(p.Time), p.IsReverse})
					if len(times) < 40 {
						times = append(times, p.Time)
					}
				}
				e["score"] = score
				span := s.GetDuration() / float64(s.RepeatCount)
				for k := int64(0); k <= s.RepeatCount && k < 12; k++ {
					x := s.StartTime + float64(k)*span
					times = append(times, x, x-span*0.01, x+span*0.01, x-span*0.0003, x+span*0.0003, x-0.7, x+0.7)
				}
			}
			for k := 0; k < 14; k++ {
				times = append(times, r.fl(o.GetStartTime()-5, o.GetEndTime()+5))
			}
			at := L{}
			for _, t := range times {
				at = append(at, L{F(t), V(o.GetPositionAt(t))})
			}
			e["at"] = at
			c.add(e)
		}
	})
}

// sliderLine is a slider with a body worth measuring and the given declared length (0: random).
func (r *Run) sliderLine(t, length float64) string {
	typ := r.pick("L", "L", "P", "P", "B", "B", "C")
	pts := r.randomPoints(typ)
	for pts[0] == pts[1] && len(pts) == 2 {
		pts = r.randomPoints(typ)
	}
	if length == 0 {
		length = polyLen(pts) * r.fl(0.2, 1.4)
		if r.chance(0.4) {
			length = math.Round(length)
		}
		if r.chance(0.1) {
			length = r.fl(1, 12)
		}
		if r.chance(0.06) {
			length = r.fl(1000, 6000)
		}
	}
	if length < 1 {
		length = 1
	}
	body := typ
	for _, p := range pts[1:] {
		body += "|" + num(p.X64()) + ":" + num(p.Y64())
	}
	slides := strconv.Itoa(r.pick2(1, 1, 1, 2, 2, 3, 4, 5, 8))
	if r.chance(0.05) {
		slides = r.pick("0", "-2", "30", "90")
	}
	if r.chance(0.008) { // a buzz slider
		slides = strconv.Itoa(r.pick2(r.i(120, 700), r.i(120, 700), 1024, r.i(1000, 4000)))
		length = r.pickf(length, r.fl(2, 20))
	}
	return strings.Join([]string{num(pts[0].X64()), num(pts[0].Y64()), num(t), r.pick("2", "6", "22"), "0", body, slides, num(length)}, ",")
}

// travel is the way the ball of a slider goes, in all.
func travel(line string) float64 {
	f := strings.Split(line, ",")
	slides, _ := strconv.ParseFloat(f[6], 64)
	length, _ := strconv.ParseFloat(f[7], 64)
	return slides * length
}

func init() {
	suites["sliders"] = func(r *Run) {
		var gen []struct {
			Len    int    `json:"len"`
			Slides int    `json:"slides"`
			Line   string `json:"line"`
			Mult   string `json:"mult"`
			Rate   string `json:"rate"`
		}
		r.behaviours(&gen)
		by := map[[3]string][]string{}
		var keys [][3]string
		for _, g := range gen {
			k := [3]string{g.Line, g.Mult, g.Rate}
			if by[k] == nil {
				keys = append(keys, k)
			}
			by[k] = append(by[k], fmt.Sprintf("20,30,%d,2,0,L|%d:30,%d,%d", 1000+4000*len(by[k]), 20+g.Len, g.Slides, g.Len))
		}
		for i, k := range keys {
			r.sliderCase(fmt.Sprint("gen", i), k[1], k[2], []string{k[0]}, by[k])
		}
		for k := 0; k < r.n(600, 700); k++ {
			var points, lines []string
			lastAt := 0.0
			t := float64(r.i(-200, 500))
			if r.chance(0.07) { // hours or weeks later
				t += r.pickf(17e6, 3e9)
			}
			var changes []float64
			for n := r.i(1, 5); n > 0; n-- {
				at := math.Floor(t + r.fl(-300, 2500))
				if r.chance(0.3) {
					at += r.pickf(0.3, 0.5, 0.75, 0.999)
				}
				changes = append(changes, at)
				points = append(points, r.timingLine(at, r.chance(0.5)))
			}
			if r.chance(0.1) {
				points = append(points, "0,0")
			}
			mult, rate := r.pick("1.4", "0.4", "3.6", "2", "1.79999995231628", "1"), r.pick("1", "2", "0.5", "4", "3", "1.33333", "8")
			closest := r.chance(0.06)
			if closest { // the closest ticks there are
				mult, rate = "0.4", r.pick("8", "4")
				points = append(points, num(math.Floor(t))+",400", num(math.Floor(t))+",-1000,4,1,0,100,0")
			}
			brief := r.chance(0.06) // the fastest balls there are
			if brief {
				mult = "3.6"
				points = append(points, num(math.Floor(t))+","+r.pick("60", "100"), num(math.Floor(t))+","+r.pick("-10", "-20")+",4,1,0,100,0")
			}
			for n := r.i(1, 5); n > 0; n-- {
				t += float64(r.i(1, 700))
				if r.chance(0.1) {
					t += 0.5
				}
				if r.chance(0.3) { // just before, at or just after a change of speed
					if at := changes[r.rng.Intn(len(changes))] + r.pickf(-1, -0.5, -0.2, 0, 0.1, 0.2, 0.5, 1); at > math.Floor(t)-700 && (len(lines) == 0 || at > lastAt) {
						t = at
					}
				}
				lastAt = t
				switch {
				case r.chance(0.1):
					lines = append(lines, r.objLine(objOpt{kinds: "cp"}, float64(r.i(0, 512)), float64(r.i(0, 384)), t))
				case r.chance(0.3): // a tick within 20 ms of the end at 500 ms per beat
					mu, _ := strconv.ParseFloat(mult, 64)
					ra, _ := strconv.ParseFloat(rate, 64)
					lines = append(lines, r.sliderLine(t, 100*mu/ra*float64(r.i(1, 3))+r.fl(0, 0.02)*200*mu))
				case brief && r.chance(0.6):
					lines = append(lines, r.sliderLine(t, r.fl(1, 40)))
				default:
					l := r.sliderLine(t, 0)
					for closest && travel(l) > 15000 {
						l = r.sliderLine(t, 0)
					}
					lines = append(lines, l)
				}
			}
			r.sliderCase(fmt.Sprint("rand", k), mult, rate, points, lines)
		}
	}
}
