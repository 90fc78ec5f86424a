package main

import (
	"fmt"
	"strconv"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
)

func observeDiff(d *difficulty.Difficulty) M {
	return M{"hp": F(d.GetHP()), "cs": F(d.GetCS()), "od": F(d.GetOD()), "ar": F(d.GetAR()), "mods": bitsOf(d.Mods),
		"radius": F(d.CircleRadius), "preempt": F(d.Preempt), "hit50": F(d.Hit50), "hit100": F(d.Hit100), "hit300": F(d.Hit300),
		"hpmod": F(d.HPMod), "spinner": F(d.SpinnerRatio), "speed": F(d.Speed), "arreal": F(d.ARReal), "odreal": F(d.ODReal),
		"custom": F(d.CustomSpeed), "t1000": F(d.GetModifiedTime(1000)),
		"active": d.CheckModActive(modset("HR", "DT"))}
}

type diffOp struct {
	Op   string   `json:"op"`
	Val  string   `json:"val"`
	Mods []string `json:"mods"`
}

func applyDiff(c *Case, d *difficulty.Difficulty, ops []diffOp) {
	for _, o := range ops {
		v, _ := strconv.ParseFloat(o.Val, 64)
		e := M{"op": o.Op, "val": F(v), "mods": bitsOf(modset(o.Mods...))}
		switch o.Op {
		case "hp":
			d.SetHP(v)
		case "cs":
			d.SetCS(v)
		case "od":
			d.SetOD(v)
		case "ar":
			d.SetAR(v)
		case "speed":
			d.SetCustomSpeed(v)
		case "mods":
			d.SetMods(modset(o.Mods...))
		case "look":
		default:
			fatal("op", o.Op)
		}
		e["obs"] = observeDiff(d)
		c.add(e)
	}
}

func (r *Run) diffCase(id string, hp, cs, od, ar float64, ops []diffOp) {
	r.do(id, M{"hp": F(hp), "cs": F(cs), "od": F(od), "ar": F(ar)}, func(c *Case) {
		d := difficulty.NewDifficulty(hp, cs, od, ar)
		c.In["obs"] = observeDiff(d)
		c.Note = fmt.Sprint(hp, cs, od, ar, ops)
		applyDiff(c, d, ops)
	})
}

func (r *Run) randMods() []string {
	pool := []string{"NF", "EZ", "HD", "HR", "SD", "DT", "RX", "HT", "NC", "FL", "SO", "TD", "V2"}
	var ms []string
	for _, m := range pool {
		if r.rng.Intn(4) == 0 {
			ms = append(ms, m)
		}
	}
	return ms
}

func init() {
	suites["difficulty"] = func(r *Run) {
		var hists [][]diffOp
		r.behaviours(&hists)
		for i, h := range hists {
			r.diffCase(fmt.Sprintf("gen%d", i), 5, 4.2, 8, 9, h)
		}
		val := func() float64 {
			switch r.rng.Intn(4) {
			case 0:
				return float64(r.rng.Intn(11))
			case 1:
				return float64(r.rng.Intn(101)) / 10
			case 2:
				return []float64{5, 10, 0, 10.0 / 1.4, 10 / 1.3, 5.000001, 4.999999, 7.2, -1, 11, 12.5}[r.rng.Intn(11)]
			}
			return r.rng.Float64() * 10
		}
		for k := 0; k < r.n(450, 1500); k++ {
			var ops []diffOp
			for i := 0; i < 25; i++ {
				o := diffOp{Op: []string{"hp", "cs", "od", "ar", "mods", "mods", "mods", "speed", "look"}[r.rng.Intn(9)]}
				o.Val = strconv.FormatFloat(val(), 'g', -1, 64)
				if o.Op == "speed" {
					o.Val = []string{"1", "1.5", "0.5", "0.75", "1.1", "2", "1.33"}[r.rng.Intn(7)]
				}
				if o.Op == "mods" {
					o.Mods = r.randMods()
				}
				ops = append(ops, o)
			}
			r.diffCase(fmt.Sprintf("rand%d", k), val(), val(), val(), val(), ops)
		}
	}
}
