package main

import (
	"fmt"

	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
)

func (r *Run) curveCase(id, kind string, pts []vector.Vector2f, ts []float64) {
	r.do(id, M{"kind": kind}, func(c *Case) {
		c.Note = fmt.Sprint(kind, pts)
		in := append([]vector.Vector2f{}, pts...)
		var cv curves.Curve
		switch kind {
		case "bezier":
			cv = curves.NewBezier(in)
		case "arc":
			cv = curves.NewCirArc(in[0], in[1], in[2])
		case "catmull":
			cv = curves.NewCatmull(in)
		case "line":
			cv = curves.NewLinear(in[0], in[1])
		}
		c.add(M{"op": "curve", "pts": VS(pts), "length": F(float64(cv.GetLength()))})
		for _, t := range ts {
			t32 := float32(t)
			c.add(M{"op": "at", "t": F(float64(t32)), "pos": V(cv.PointAt(t32))})
		}
		if cv.GetLength() > 2 {
			c.add(M{"op": "headings", "start": F(float64(cv.GetStartAngle())), "end": F(float64(cv.GetEndAngle()))})
		}
	})
}

func init() {
	suites["curves"] = func(r *Run) {
		r.do("binomials", M{"kind": "none"}, func(c *Case) {
			for n := int64(0); n <= 50; n++ {
				for k := int64(-1); k <= n+1; k++ {
					c.add(M{"op": "binomial", "n": int(n), "k": int(k), "val": F(float64(curves.BinomialCoefficient(n, k)))})
				}
			}
		})
		for k := 0; k < r.n(1400, 3000); k++ {
			kind := r.pick("bezier", "bezier", "arc", "catmull", "line")
			many := r.i(1, 12)
			if r.chance(0.08) {
				many = r.i(13, 48)
			}
			n := map[string]int{"bezier": many, "arc": 3, "catmull": 4, "line": 2}[kind]
			ts := []float64{0, 1, 0.5}
			for i := 0; i < 6; i++ {
				ts = append(ts, r.fl(0, 1))
			}
			if kind == "line" {
				ts = append(ts, r.fl(-1, 2))
			}
			var pts []vector.Vector2f
			if kind != "arc" && r.chance(0.2) { // tiny ones
				size := r.pickf(0.5, 1, 2, 6)
				for len(pts) < n {
					pts = append(pts, v2(r.fl(0, size), r.fl(0, size)))
				}
			}
			for len(pts) < n {
				p := v2(float64(r.i(-100, 600)), float64(r.i(-100, 500)))
				if len(pts) > 0 {
					switch r.rng.Intn(8) {
					case 0:
						if kind != "arc" {
							p = pts[len(pts)-1]
						} else if len(pts) == 2 { // nearly closed
							p = pts[0].Add(v2(float64(r.i(-6, 6)), float64(r.i(-6, 6))))
						}
					case 1:
						p = pts[len(pts)-1].Add(v2(float64(r.i(-9, 9)), float64(r.i(-9, 9))))
					case 2:
						p = v2(r.fl(0, 512), r.fl(0, 384))
					}
				}
				pts = append(pts, p)
			}
			if kind == "arc" {
				cr := cross(pts[0], pts[1], pts[2])
				if cr < 0 {
					cr = -cr
				}
				ab, bc, ac := float64(pts[0].Dst(pts[1])), float64(pts[1].Dst(pts[2])), float64(pts[0].Dst(pts[2]))
				if cr < 150 || blur(pts) > 0.004 || ab*bc*ac/(2*cr) > 3000 {
					continue
				}
			}
			r.curveCase(fmt.Sprint("rand", k), kind, pts, ts)
		}
	}
}
