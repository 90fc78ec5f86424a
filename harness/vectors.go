package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/math32"
	"github.com/Wieku/gosu-pp/math/mutils"
	"github.com/Wieku/gosu-pp/math/vector"
)

func init() {
	// the plane vectors and scalar helpers everything else is built on
	suites["vectors"] = func(r *Run) {
		num32 := func() float32 {
			return float32(r.pickf(0, 1, -1, 0.5, float64(r.i(-500, 500)), float64(r.i(-500, 500)), r.fl(-512, 512), r.fl(-1, 1), r.fl(-2000, 2000), r.fl(-0.01, 0.01)))
		}
		point := func() vector.Vector2f {
			switch r.rng.Intn(8) {
			case 0:
				return vector.NewVec2f(num32(), 0)
			case 1:
				return vector.NewVec2f(0, num32())
			case 2:
				x := num32()
				return vector.NewVec2f(x, x)
			}
			return vector.NewVec2f(num32(), num32())
		}
		f := func(x float32) [2]int32 { return F(float64(x)) }
		for k := 0; k < r.n(800, 3000); k++ {
			r.do(fmt.Sprint("vec", k), M{"kind": "none"}, func(c *Case) {
				p, q, o := point(), point(), point()
				if r.chance(0.2) {
					q = p.Scl(num32())
				}
				x, y, z := num32(), num32(), num32()
				c.Note = fmt.Sprint(p, q, o, x, y, z)
				big := F(math.Max(1, math.Max(math.Max(float64(p.Len()), float64(q.Len())), float64(o.Len()))))
				add := func(name string, a L, res interface{}, size ...[2]int32) {
					c.add(M{"op": "vec", "name": name, "a": a, "r": res, "size": append(size, F(1))})
				}
				vp, vq, vo := V(p), V(q), V(o)
				sized := func(name string, a L, res interface{}) { add(name, a, res, big) }
				sized("new", L{vp}, V(vector.NewVec2f(p.X, p.Y)))
				sized("copy", L{vp}, V(p.Copy()))
				sized("new", L{vp}, [][2]int32{F(p.X64()), F(p.Y64())})
				a := float32(r.fl(-7, 7))
				add("polar", L{f(a), f(x)}, V(vector.NewVec2fRad(a, x)), f(x))
				sized("add", L{vp, vq}, V(p.Add(q)))
				sized("add", L{vp, vq}, V(p.AddS(q.X, q.Y)))
				sized("sub", L{vp, vq}, V(p.Sub(q)))
				sized("sub", L{vp, vq}, V(p.SubS(q.X, q.Y)))
				sized("mult", L{vp, vq}, V(p.Mult(q)))
				sized("mid", L{vp, vq}, V(p.Mid(q)))
				t := float32(r.pickf(0, 1, 0.5, r.fl(0, 1), r.fl(-1, 2)))
				add("lerp", L{vp, vq, f(t)}, V(p.Lerp(q, t)), big, F(3*float64(p.Len()+q.Len())))
				add("scl", L{vp, f(t)}, V(p.Scl(t)), big)
				sized("abs", L{vp}, V(p.Abs()))
				sized("unit", L{vp}, V(p.Nor()))
				sized("turn", L{vp, f(a)}, V(p.Rotate(a)))
				sized("dot", L{vp, vq}, f(p.Dot(q)))
				sized("dst", L{vp, vq}, f(p.Dst(q)))
				sized("dst2", L{vp, vq}, f(p.DstSq(q)))
				sized("len", L{vp}, f(p.Len()))
				sized("len2", L{vp}, f(p.LenSq()))
				if p.Len() > 0.01 {
					sized("heading", L{vp}, f(p.AngleR()))
					if p.Y != 0 || p.X > 0 {
						sized("headingDegrees", L{vp}, f(p.Angle()))
					}
				}
				if p.Dst(q) > 0.1 {
					sized("headingFrom", L{vp, vq}, f(p.AngleRV(q)))
				}
				if p.Dst(o) > 1 && q.Dst(o) > 1 {
					sized("angleAt", L{vo, vp, vq}, f(vector.AngleBetween32(o, p, q)))
				}
				sized("straight", L{vp, vq, vo}, vector.IsStraightLine32(p, q, o))
				sized("straight", L{vp, vq, vo}, curves.NewCirArc(p, q, o).Unstable)
				// three points in line make no arc but two straight segments
				p0, way := v2(float64(r.i(-200, 600)), float64(r.i(-200, 600))), v2(float64(r.i(-90, 90)), float64(r.i(-90, 90)))
				p1, p2 := p0.Add(way), p0.Add(way.Scl(float32(r.i(-3, 5))))
				sized("straight", L{V(p0), V(p1), V(p2)}, curves.NewCirArc(p0, p1, p2).Unstable)
				if r.chance(0.3) {
					ls := curves.ApproximateCircularArc(p0, p1, p2, 0.125)
					add("whole", L{2}, len(ls))
					for i, x := range []vector.Vector2f{ls[0].Point1, ls[0].Point2, ls[len(ls)-1].Point1, ls[len(ls)-1].Point2} {
						add("new", L{V([]vector.Vector2f{p0, p1, p1, p2}[i])}, V(x))
					}
				}

				lo, hi := float32(math.Min(float64(y), float64(z))), float32(math.Max(float64(y), float64(z)))
				add("clamp", L{f(x), f(lo), f(hi)}, f(mutils.ClampF32(x, lo, hi)))
				add("clamp", L{f(x), f(lo), f(hi)}, F(mutils.ClampF64(float64(x), float64(lo), float64(hi))))
				add("between", L{f(x), f(y), f(t)}, f(mutils.LerpF32(x, y, t)), f(x), f(y))
				add("between", L{f(x), f(y), f(t)}, F(mutils.LerpF64(float64(x), float64(y), float64(t))))
				i, j, h := r.i(-9, 9), r.i(-900, 900), r.i(-9, 9)
				il, ih := mutils.MinI(j, h), mutils.MaxI(j, h)
				add("least", L{i, j}, mutils.MinI(i, j))
				add("least", L{i, h}, int(mutils.MinI64(int64(i), int64(h))))
				add("most", L{i, h}, mutils.MaxI(i, h))
				add("most", L{i, j}, int(mutils.MaxI64(int64(i), int64(j))))
				if il > ih {
					il, ih = ih, il
				}
				add("clampWhole", L{i, il, ih}, mutils.ClampI(i, il, ih))
				add("clampWhole", L{i, il, ih}, int(mutils.ClampI64(int64(i), int64(il), int64(ih))))

				wide := func() int64 { return (r.rng.Int63() >> r.i(11, 60)) * int64(1-2*r.i(0, 1)) }
				num, low, high := wide(), wide(), wide()
				if low > high {
					low, high = high, low
				}
				W := func(x int64) any { return F(float64(x)) }
				add("clampWide", L{W(num), W(low), W(high)}, W(mutils.ClampI64(num, low, high)))
				add("clampWide", L{W(num), W(low), W(high)}, W(int64(mutils.ClampI(int(num), int(low), int(high)))))
				add("minWide", L{W(num), W(low)}, W(mutils.MinI64(num, low)))
				add("maxWide", L{W(num), W(high)}, W(int64(mutils.MaxI(int(num), int(high)))))

				add("floor", L{f(x)}, f(math32.Floor(x)))
				add("ceil", L{f(x)}, f(math32.Ceil(x)))
				if fr := math.Abs(float64(x) - math.Trunc(float64(x))); math.Abs(fr-0.5) > 0.001 || fr == 0.5 {
					add("round", L{f(x)}, f(math32.Round(x)))
				}
				if y != 0 {
					add("mod", L{f(x), f(y)}, f(math32.Mod(x, y)))
				}
				add("min", L{f(x), f(y)}, f(math32.Min(x, y)))
				add("max", L{f(x), f(y)}, f(math32.Max(x, y)))
				inf := math32.Inf(1 - 2*r.i(0, 1))
				add("floor", L{F(math.Inf(map[bool]int{true: 1, false: -1}[inf > 0]))}, f(inf))
				add("min", L{f(x), f(inf)}, f(math32.Min(inf, x)))
				add("max", L{f(x), f(inf)}, f(math32.Max(x, inf)))
				add("clamp", L{f(inf), f(lo), f(hi)}, f(mutils.ClampF32(inf, lo, hi)))
				add("floor", L{f(inf)}, f(math32.Floor(inf)))
				add("ceil", L{f(inf)}, f(math32.Ceil(inf)))
				add("notNumber", L{f(math32.NaN())}, math32.IsNaN(math32.NaN()))
				add("notNumber", L{f(x)}, math32.IsNaN(x))
				add("notNumber", L{f(inf)}, math32.IsNaN(inf))
				add("notNumber", L{F(math.NaN())}, math32.IsNaN(float32(math.NaN())))
				add("sqrt", L{f(math32.Abs(x))}, f(math32.Sqrt(math32.Abs(x))))
				add("pow", L{f(math32.Abs(x)), f(t)}, f(math32.Pow(math32.Abs(x), t)))
				add("sin", L{f(a)}, f(math32.Sin(a)))
				add("cos", L{f(a)}, f(math32.Cos(a)))
				add("tan", L{f(a)}, f(math32.Tan(a)))
				w := float32(r.pickf(-1, 0, 1, r.fl(-1, 1), r.fl(-1, 1)))
				add("asin", L{f(w)}, f(math32.Asin(w)))
				add("acos", L{f(w)}, f(math32.Acos(w)))
				add("atan", L{f(x)}, f(math32.Atan(x)))
			})
		}
	}
}
