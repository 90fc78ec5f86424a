package main

import (
	"fmt"
	"math"
	"strconv"

	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
)

func VS(ps []vector.Vector2f) L {
	r := L{}
	for _, p := range ps {
		r = append(r, V(p))
	}
	return r
}

func v2(x, y float64) vector.Vector2f { return vector.NewVec2f(float32(x), float32(y)) }

// fits reports whether the path of these points must be exactly as long as declared.
func fits(pts []vector.Vector2f, want float64) bool {
	n := len(pts)
	return n >= 2 && pts[n-1] != pts[n-2] && want >= 0.01
}

// blur is about how far single precision may misplace the arc through p.
func blur(p []vector.Vector2f) float64 {
	m, d := 1.0, 0.0
	for i, a := range p {
		m = math.Max(m, math.Max(math.Abs(a.X64()), math.Abs(a.Y64())))
		d = math.Max(d, float64(a.Dst(p[(i+1)%len(p)])))
	}
	return 1e-7 * m * d * d / math.Abs(cross(p[0], p[1], p[2]))
}

func cross(a, b, c vector.Vector2f) float64 {
	return (b.Y64()-a.Y64())*(c.X64()-a.X64()) - (b.X64()-a.X64())*(c.Y64()-a.Y64())
}

func (r *Run) pathCase(id, typ string, pts []vector.Vector2f, want float64, ts []float64) {
	r.do(id, nil, func(c *Case) {
		c.Note = fmt.Sprint(typ, pts, want)
		in := append([]vector.Vector2f{}, pts...)
		p := curves.NewMultiCurveT(typ, in, want)
		c.add(M{"op": "path", "type": typ, "pts": VS(pts), "want": F(want), "length": F(float64(p.GetLength())), "fits": typ != "X" && fits(pts, want)})
		at := func(t float64) {
			c.add(M{"op": "at", "t": F(float64(float32(t))), "pos": V(p.PointAt(float32(t)))})
		}
		headings := func() {
			t := float32(r.fl(-0.2, 1.2))
			c.add(M{"op": "headings", "start": F(float64(p.GetStartAngle())), "end": F(float64(p.GetEndAngle())), "t": F(float64(t)),
				"startAt": F(float64(p.GetStartAngleAt(t))), "endAt": F(float64(p.GetEndAngleAt(t)))})
		}
		for _, t := range ts {
			at(t)
		}
		for i := 0; i < 3; i++ {
			headings()
		}
		p = curves.NewMultiCurve(typ, append([]vector.Vector2f{}, pts...)) // without a declared length
		c.add(M{"op": "open", "type": typ, "pts": VS(pts), "length": F(float64(p.GetLength()))})
		for i := 0; i < 5; i++ {
			at(r.fl(-0.1, 1.1))
		}
		at(1)
		headings()
	})
}

// randomPoints draws control points, well conditioned if they make an arc.
func (r *Run) randomPoints(typ string) []vector.Vector2f {
	for {
		n := r.i(2, 6)
		if r.chance(0.08) {
			n = r.i(7, 24)
		}
		if typ == "P" && r.chance(0.75) {
			n = 3
		}
		step := float64(r.pick2(10, 40, 120, 250))
		x, y := float64(r.i(0, 512)), float64(r.i(0, 384))
		if r.chance(0.12) { // far off the playfield
			step, x, y = float64(r.pick2(250, 600)), float64(r.i(-900, 1400)), float64(r.i(-900, 1200))
		}
		frac := r.chance(0.15)
		pts := []vector.Vector2f{v2(x, y)}
		for len(pts) < n {
			if r.chance(0.15) {
				pts = append(pts, pts[len(pts)-1])
				continue
			}
			nx, ny := x+r.fl(-step, step), y+r.fl(-step, step)
			if r.chance(0.1) && len(pts) > 1 { // back and forth
				nx, ny = pts[len(pts)-2].X64(), pts[len(pts)-2].Y64()
			}
			if r.chance(0.1) { // straight on
				nx, ny = x+float64(r.i(-40, 40)), y
			}
			if !frac {
				nx, ny = math.Round(nx), math.Round(ny)
			}
			x, y = nx, ny
			pts = append(pts, v2(x, y))
		}
		if typ == "P" && len(pts) == 3 {
			cr := math.Abs(cross(pts[0], pts[1], pts[2]))
			if cr != 0 && cr < 150 {
				continue
			}
			a, b, c := pts[0].Sub(pts[1]), pts[1].Sub(pts[2]), pts[0].Sub(pts[2])
			if cr != 0 && blur(pts) > 0.003 {
				continue
			}
			if cr != 0 && (float64(a.Len())*float64(b.Len())*float64(c.Len()))/(2*cr) > 1500 { // radius
				continue
			}
		}
		return pts
	}
}

func polyLen(pts []vector.Vector2f) float64 {
	s := 0.0
	for i := 1; i < len(pts); i++ {
		s += float64(pts[i].Dst(pts[i-1]))
	}
	return s
}

func (r *Run) fractions() []float64 {
	ts := []float64{0, 1, -0.3, 1.4}
	for i := 1; i < 12; i++ {
		ts = append(ts, float64(i)/12)
	}
	for i := 0; i < 6; i++ {
		ts = append(ts, r.fl(0, 1))
	}
	return append(ts, 0.9999, 0.0001)
}

func init() {
	suites["paths"] = func(r *Run) {
		var gen []struct {
			Type string      `json:"type"`
			Pts  [][2]string `json:"pts"`
			Want string      `json:"want"`
		}
		r.behaviours(&gen)
		for i, g := range gen {
			var pts []vector.Vector2f
			for _, p := range g.Pts {
				x, _ := strconv.ParseFloat(p[0], 64)
				y, _ := strconv.ParseFloat(p[1], 64)
				pts = append(pts, v2(x, y))
			}
			w, _ := strconv.ParseFloat(g.Want, 64)
			if !r.thorough && i%3 != int(r.seed)%3 && len(pts) > 2 {
				continue
			}
			r.pathCase(fmt.Sprint("gen", i), g.Type, pts, w, []float64{0, 0.1, 0.25, 0.5, 0.77, 1})
		}
		for k := 0; k < r.n(700, 1500); k++ {
			typ := r.pick("L", "P", "P", "B", "B", "C", "B")
			if k%97 == 0 {
				typ = "X"
			}
			pts := r.randomPoints(typ)
			want := polyLen(pts) * r.fl(0.05, 1.6)
			switch r.rng.Intn(6) {
			case 0:
				want = math.Round(want) + 1
			case 1:
				want = polyLen(pts)
			case 2:
				want = r.fl(0.05, 5)
			}
			if want < 0.05 {
				want = 0.05
			}
			r.pathCase(fmt.Sprint("rand", k), typ, pts, want, r.fractions())
		}
		for k := 0; k < r.n(12, 40); k++ { // as many points as anyone draws
			x, y := float64(r.i(0, 512)), float64(r.i(0, 384))
			pts := []vector.Vector2f{v2(x, y)}
			for i := r.pick2(40, 66, 70, 130, 260, r.i(60, 600)); i > 0; i-- {
				if !r.chance(0.1) {
					x, y = x+float64(r.i(-20, 20)), y+float64(r.i(-20, 20))
				}
				pts = append(pts, v2(x, y))
			}
			typ := r.pick("L", "L", "C", "B")
			if typ == "B" && r.chance(0.3) { // in one piece
				pts = pts[:r.i(20, 41)]
			} else if typ == "B" { // in pieces
				for i := 6; i < len(pts); i += r.i(3, 8) {
					pts[i] = pts[i-1]
				}
			}
			r.pathCase(fmt.Sprint("many", k), typ, pts, polyLen(pts)*r.pickf(r.fl(0.3, 0.95), r.fl(0.9, 1.1), 1.02), r.fractions())
		}
		// one Bezier of more points than most, by long or short steps
		for k := 0; k < r.n(12, 40); k++ {
			x, y := float64(r.i(0, 512)), float64(r.i(0, 384))
			pts := []vector.Vector2f{v2(x, y)}
			far := r.pick2(30, 90, 200)
			for i := r.i(25, 50); i > 0; i-- {
				x, y = x+float64(r.i(-far, far)), y+float64(r.i(-far, far))
				pts = append(pts, v2(x, y))
			}
			r.pathCase(fmt.Sprint("piece", k), "B", pts, polyLen(pts)*r.pickf(r.fl(0.05, 0.3), r.fl(0.3, 0.95)), r.fractions())
		}
		// long pieces with many control points
		for k := 0; k < r.n(60, 200); k++ {
			pts := []vector.Vector2f{v2(256, 192)}
			for i := 0; i < r.i(7, 24); i++ {
				pts = append(pts, v2(float64(r.i(0, 512)), float64(r.i(0, 384))))
			}
			r.pathCase(fmt.Sprint("long", k), r.pick("B", "B", "P", "C", "L"), pts, r.fl(100, 3000), r.fractions())
		}
	}
}
