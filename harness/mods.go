package main

import (
	"fmt"
	"strconv"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
)

func bitsOf(m difficulty.Modifier) []int {
	b := []int{}
	for i := 0; i < 63; i++ {
		if m&(1<<uint(i)) != 0 {
			b = append(b, i)
		}
	}
	return b
}

func modsOf(bits []int) (m difficulty.Modifier) {
	for _, b := range bits {
		m |= 1 << uint(b)
	}
	return
}

var acronyms = []string{"NF", "EZ", "TD", "HD", "HR", "SD", "DT", "RX", "HT", "NC", "FL", "AT", "SO", "AP", "PF",
	"K4", "K5", "K6", "K7", "K8", "FI", "RN", "CN", "TG", "K9", "K0", "K1", "K3", "K2", "V2", "LM", "DC"}

// modset builds a selection by acronym, independently of the code's own parser.
func modset(names ...string) (m difficulty.Modifier) {
	for _, n := range names {
		for i, a := range acronyms {
			if a == n {
				m |= 1 << uint(i)
			}
		}
	}
	return
}

func observeMods(m difficulty.Modifier) M {
	full := m.StringFull()
	if full == nil {
		full = []string{}
	}
	act := []int{}
	for i := 0; i < 32; i++ {
		if m.Active(difficulty.Modifier(1) << uint(i)) {
			act = append(act, i)
		}
	}
	return M{"bits": bitsOf(m), "short": m.String(), "full": full, "back": bitsOf(difficulty.ParseMods(m.String())),
		"compat": m.Compatible(), "active": act, "mult": F(m.GetScoreMultiplier())}
}

func init() {
	suites["mods"] = func(r *Run) {
		walk := func(id string, flips []int, from difficulty.Modifier) {
			r.do(id, nil, func(c *Case) {
				m := difficulty.None
				toggle := func(b int) {
					m ^= 1 << uint(b)
					e := observeMods(m)
					e["op"], e["bit"] = "toggle", b
					c.add(e)
				}
				for _, b := range bitsOf(from) {
					toggle(b)
				}
				for _, b := range flips {
					toggle(b)
				}
			})
		}

		// Every subset of the mods that matter, by Gray codes: the low part walked, the high part fixed per case.
		core := []int{0, 1, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 29, 31, 3, 23} // NF EZ HR SD DT RX HT NC FL AT SO AP PF V2 DC HD TG
		low := 8
		high := r.n(4, len(core)-low)
		for h := 0; h < 1<<uint(len(core)-low); h++ {
			if !r.thorough {
				// quick: fewer high parts, chosen by the seed
				if r.rng.Intn(1<<uint(len(core)-low)) >= 1<<uint(high) {
					continue
				}
			}
			var from difficulty.Modifier
			for i := low; i < len(core); i++ {
				if h>>uint(i-low)&1 == 1 {
					from |= 1 << uint(core[i])
				}
			}
			var flips []int
			for g := 1; g < 1<<uint(low); g++ {
				k := 0
				for g>>uint(k)&1 == 0 {
					k++
				}
				flips = append(flips, core[k])
			}
			walk(fmt.Sprintf("gray%d", h), flips, from)
		}
		// all pairs over all 32 mods
		for a := 0; a < 32; a++ {
			var flips []int
			for b := 0; b < 32; b++ {
				if b != a {
					flips = append(flips, b, b)
				}
			}
			walk("pairs"+strconv.Itoa(a), flips, 1<<uint(a))
		}
		// random walks over everything
		for k := 0; k < r.n(40, 200); k++ {
			var flips []int
			for i := 0; i < 60; i++ {
				flips = append(flips, r.rng.Intn(32))
			}
			walk(fmt.Sprintf("walk%d", k), flips, 0)
		}
		// texts
		extra := []string{"XX", "hd", "nm", "N", "S", "D", "HDD", "  ", "K", "00", "NFE", "-", "DTN", "CNCN", "VV2"}
		text := func(id, s string) {
			r.do(id, M{"text": s}, func(c *Case) {
				c.Note = s
				m := difficulty.ParseMods(s)
				e := observeMods(m)
				chars := []string{}
				for _, ch := range s {
					chars = append(chars, string(ch))
				}
				e["op"], e["chars"] = "read", chars
				c.add(e)
			})
		}
		text("empty", "")
		for _, a := range acronyms {
			text("one"+a, a)
			text("odd"+a, a+"X")
			text("shift"+a, "X"+a)
			for _, b := range acronyms {
				text("two"+a+b, a+b)
			}
		}
		for k := 0; k < r.n(600, 5000); k++ {
			s := ""
			for n := r.rng.Intn(9); n > 0; n-- {
				if r.rng.Intn(6) == 0 {
					s += extra[r.rng.Intn(len(extra))]
				} else {
					s += acronyms[r.rng.Intn(32)]
				}
			}
			text(fmt.Sprintf("text%d", k), s)
		}
	}
}
