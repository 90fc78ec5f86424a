package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/Wieku/gosu-pp/beatmap"
)

// ---- random lines ---------------------------------------------------------------------------

func (r *Run) pick(xs ...string) string { return xs[r.rng.Intn(len(xs))] }
func (r *Run) chance(p float64) bool    { return r.rng.Float64() < p }
func (r *Run) i(lo, hi int) int         { return lo + r.rng.Intn(hi-lo+1) }
func (r *Run) fl(lo, hi float64) float64 {
	return lo + (hi-lo)*r.rng.Float64()
}
func num(x float64) string { return strconv.FormatFloat(x, 'f', -1, 64) }
func (r *Run) dec(lo, hi float64, digits int) string {
	return strconv.FormatFloat(r.fl(lo, hi), 'f', digits, 64)
}

var words = []string{"a", "Re:Zero", "x [hard]", "// c", "über", "日本", "😀 z", "\"q\"", "a,b", "1", "", "Title:x", "[x]", "a//b", "  ", "é\u00a0f", "osu file format v9"}

func (r *Run) word() string {
	n := r.rng.Intn(3) + 1
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, r.pick(words...))
	}
	w := strings.Join(p, r.pick(" ", "", ":", "::", "\t", " - "))
	if r.chance(0.02) {
		w += strings.Repeat(r.pick("x", "é", "ab c"), r.pick2(70, 260, 3000)) + "."
	}
	return w
}

func (r *Run) ws() string { return r.pick("", "", "", " ", "  ", "\t", "\u00a0", " \u3000") }

var sections = []string{"General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects", "Editor", "Colours", "Foo"}

// keys by section with a value generator
func (r *Run) keyValue(sec string) (string, string) {
	diffv := func() string {
		switch r.rng.Intn(6) {
		case 0:
			return strconv.Itoa(r.i(-3, 14))
		case 1:
			return r.pick("0", "10", "10.0001", "-0.1", "-5", "11", "1e1", "9.99999", "5", "100", "3.")
		case 2:
			return r.pick("+4", "007", ".5", "4e0")
		}
		return r.dec(0, 10, r.rng.Intn(4))
	}
	idv := func() string { return r.pick("0", "-1", "2147483648", "123456", "+77", "0042", "9000000000") }
	switch sec {
	case "General":
		switch r.rng.Intn(5) {
		case 0:
			return "Mode", r.pick("0", "1", "2", "3", "07")
		case 1:
			return "StackLeniency", r.pick("0.7", "0", "1", "0.2", "NaN", "2.5", "nan", "1e-1")
		case 2:
			return "AudioFilename", r.word()
		case 3:
			return "PreviewTime", idv()
		}
		return r.pick("SampleSet", "Countdown", "AudioLeadIn", "mode", "Title", "ApproachRate", "StackLeniency2"), r.word()
	case "Metadata":
		k := r.pick("Title", "TitleUnicode", "Artist", "ArtistUnicode", "Creator", "Version", "Source", "Tags", "BeatmapID", "BeatmapSetID", "Other")
		if strings.HasPrefix(k, "Beatmap") {
			return k, idv()
		}
		if k == "Other" {
			return r.pick("title", "Titles", "FileVersion", "Mode", "Difficulty", "HPDrainRate", "AudioFilename"), r.word()
		}
		return k, r.word()
	case "Difficulty":
		switch r.rng.Intn(8) {
		case 0:
			return "SliderMultiplier", r.pick("1.4", "0.4", "3.6", "2", "1.79999995231628")
		case 1:
			return "SliderTickRate", r.pick("1", "2", "0.5", "4", "3", "1.33333")
		case 2:
			return r.pick("Title", "OverallDifficulty2", "Mode", "approachrate", "AR"), diffv()
		}
		return r.pick("HPDrainRate", "CircleSize", "OverallDifficulty", "ApproachRate", "ApproachRate", "OverallDifficulty"), diffv()
	}
	return r.pick("Combo1", "Bookmarks", "Title", "Mode", "ApproachRate", "GridSize"), r.word()
}

func (r *Run) kvLine(sec string) string {
	k, v := r.keyValue(sec)
	switch r.rng.Intn(25) {
	case 0:
		return "//" + k + ":" + v
	case 1:
		return k + " " + strings.ReplaceAll(v, ":", " ") // no colon
	case 2:
		return " // " + k + ":" + v
	}
	return r.pick("", "", "", " ", "\t") + k + r.ws() + ":" + r.ws() + v + r.ws()
}

func (r *Run) eventLine() string {
	switch r.rng.Intn(8) {
	case 0, 1:
		return r.pick("0", "Background") + "," + r.pick("0", " 0 ") + "," + r.pick("\"bg.jpg\"", "bg.png", " \"a b.png\" ", "\"\"", "x\"y") + r.pick("", ",0,0")
	case 2, 3:
		return r.pick("2", "Break", " 2 ", "Break ") + "," + r.ws() + r.pick(strconv.Itoa(r.i(-100, 90000)), strconv.Itoa(r.i(-100, 90000)), num(r.fl(-50, 5e5)), "0", "16777217", "4294967299", "x") + "," + r.pick(strconv.Itoa(r.i(0, 99999)), strconv.Itoa(r.i(0, 99999)), "-5", "123456789", "1e4") + r.pick("", ".5", ",x")
	case 4:
		return r.pick("Video,0,\"v.avi\"", "1,0,\"v.avi\"", "Sprite,Pass,Centre,\"a.png\",320,240", " F,0,1,2,0,1", "_M,0,1,2,3,4", "3,100,163,162,255", "4,0,0,\"s.png\"", "5,1,2", "00,1,\"x\"", "break,1,2", "background,0,\"z\"")
	case 5:
		return "//" + r.pick("Background and Video events", "0,0,\"c.png\"", "2,1,2")
	case 6:
		return r.pick("0", "2", "Break", "Background", "", "Sample")
	}
	return r.pick("0,0,\"q.jpg\"", "2,10,20")
}

func (r *Run) timingLine(t float64, inherited bool) string {
	f := []string{num(t)}
	if inherited {
		f = append(f, r.pick("-100", "-50", "-133.333333333333", "-10", "-5", "-1000", "-2000", "-33.3333333333333", "-200", "NaN", "-0.5", "50", "-100.1"))
	} else {
		f = append(f, r.pick("500", "300", "333.333333333333", "1000", "250.5", "60", "6000", "461.538461538462"))
	}
	rest := []string{r.pick("4", "3", "7", "0", "1"), r.pick("0", "1", "2", "3"), r.pick("0", "1", "5"), r.pick("100", "0", "55", "5"), r.pick("1", "1", "0"), r.pick("0", "1", "8", "9", "3", "2")}
	if inherited {
		rest[4] = "0"
	} else if r.chance(0.9) {
		rest[4] = "1"
	}
	n := 6
	if r.chance(0.35) {
		n = r.rng.Intn(7)
	}
	if inherited && n < 5 && r.chance(0.8) {
		n = 6
	}
	f = append(f, rest[:n]...)
	return strings.Join(f, ",")
}

func (r *Run) sliderBody(x, y float64) (string, float64) {
	n := r.rng.Intn(4) + 1
	if r.chance(0.06) {
		n = r.i(5, 40)
	}
	ty := r.pick("L", "P", "B", "B", "C")
	if ty == "P" && r.chance(0.7) {
		n = 2
	}
	s := ty
	px, py := x, y
	total := 0.0
	for i := 0; i < n; i++ {
		if i > 0 && r.chance(0.2) { // repeated point
		} else {
			px += float64(r.i(-90, 90))
			py += float64(r.i(-70, 70))
		}
		total += 40
		s += fmt.Sprintf("|%d:%d", int(px), int(py))
	}
	return s, total
}

type objOpt struct {
	kinds   string // weighted letters: c s p(spinner) h n
	flags   bool
	extras  bool
	comment bool
}

func (r *Run) objLine(o objOpt, x, y, t float64) string {
	k := o.kinds[r.rng.Intn(len(o.kinds))]
	ty := map[byte]int{'c': 1, 's': 2, 'p': 8, 'h': 128, 'n': 0}[k]
	if r.chance(0.3) {
		ty |= 4
		ty |= r.rng.Intn(8) << 4
	} else if r.chance(0.2) {
		ty |= r.rng.Intn(8) << 4
	}
	if o.flags && r.chance(0.08) { // mixed types: which one wins
		ty |= r.pick2(1, 2, 8, 128, 11, 10, 130, 9)
		if ty&8 != 0 && ty&1 == 0 {
			k = 'p'
		} else if ty&1 != 0 {
			k = 'c'
		} else if ty&2 != 0 {
			k = 's'
		} else if ty&128 != 0 {
			k = 'h'
		}
	}
	f := []string{num(x), num(y), num(t), strconv.Itoa(ty), strconv.Itoa(r.pick2(0, 2, 4, 8, 10, 1, r.pick2(15, 16, 31, 128, 255, 256, 1000, -2)))}
	switch k {
	case 's':
		body, l := r.sliderBody(x, y)
		l *= r.fl(0.3, 3)
		slides := r.pick2(1, 1, 1, 2, 3, 4, 7)
		f = append(f, body, strconv.Itoa(slides), num(l))
		if o.extras && r.chance(0.5) {
			var e, s []string
			m := r.pick2(slides+1, slides+1, slides, 1)
			for i := 0; i < m; i++ {
				e = append(e, strconv.Itoa(r.pick2(0, 2, 4, 8, 14, r.pick2(15, 16, 31, 128, 255, 256, 1000, -2))))
				s = append(s, r.pick("0:0", "1:2", "0:1"))
			}
			f = append(f, strings.Join(e, "|"))
			if r.chance(0.7) {
				f = append(f, strings.Join(s, "|"))
				if r.chance(0.7) {
					f = append(f, "0:0:0:0:")
				}
			}
		}
	case 'p':
		f = append(f, num(t+float64(r.i(1, 3000))))
		if o.extras && r.chance(0.6) {
			f = append(f, "0:0:0:0:")
		}
	case 'h':
		f = append(f, num(t+float64(r.i(1, 3000)))+r.pick(":0:0:0:0:", "", ":x"))
	default:
		if o.extras && r.chance(0.6) {
			f = append(f, "0:0:0:0:")
		}
	}
	sep := ","
	if o.extras && r.chance(0.1) {
		sep = r.pick(" ,", ", ", ",\t")
	}
	return strings.Join(f, sep)
}

func (r *Run) pick2(xs ...int) int { return xs[r.rng.Intn(len(xs))] }

// ---- parsing cases --------------------------------------------------------------------------

func valid(lines []string) {
	for _, l := range lines {
		if strings.ContainsAny(l, "\n\r") || !utf8.ValidString(l) {
			fatal("bad line", strconv.Quote(l))
		}
	}
}

func (r *Run) parseCase(id string, lines []string) {
	valid(lines)
	r.do(id, nil, func(c *Case) {
		c.Note = strings.Join(lines, "\n")
		for _, l := range lines {
			c.add(M{"op": "line", "line": l})
		}
		b, err := beatmap.ParseFromByte([]byte(c.Note))
		c.add(M{"op": "finish", "obs": observeMap(b, err)})
	})
}

var minimalHead = []string{"osu file format v14", "", "[Metadata]", "Title:t", "[Difficulty]", "SliderMultiplier:1.4", "SliderTickRate:1", "[TimingPoints]", "0,500,4,2,0,100,1,0"}

// whole random files, as for any of the parser properties
func (r *Run) randomFile(mal float64, o objOpt) []string {
	var ls []string
	add := func(s string) {
		if mal > 0 && r.chance(mal) {
			s = r.mangle(s)
		}
		ls = append(ls, s)
	}
	if r.chance(0.9) {
		add(r.pick("osu file format v", "osu file format v", "osu file format v", " osu file format v", "osu! file format v") + r.pick("14", "5", "3", "9", "128", "6", "14 ", "x"))
	}
	order := []string{"General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects"}
	if r.chance(0.5) {
		r.rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	if r.chance(0.5) {
		order = append(order, r.pick(sections...), r.pick(sections...), r.pick(sections...))
	}
	if r.chance(0.1) {
		order = order[:r.rng.Intn(len(order))+1]
	}
	for _, s := range order {
		if r.chance(0.2) {
			add(r.pick("", " ", "//comment", "Title:outside", "256,192,10,1,0", "0,500", "nonsense"))
		}
		add(r.pick("", "", "", " ") + r.pick("[", "[", "[", "[[") + s + r.pick("]", "]", "]", "]]", "] ", ""))
		if r.chance(0.1) {
			add(r.pick("[]", "[", " []", "[ ]"))
		}
		n := r.rng.Intn(6)
		if r.chance(0.03) {
			n = 40
		}
		switch s {
		case "General", "Metadata", "Difficulty", "Editor", "Colours", "Foo":
			for ; n > 0; n-- {
				from := s
				if r.chance(0.1) {
					from = r.pick("General", "Metadata", "Difficulty")
				}
				add(r.kvLine(from))
			}
		case "Events":
			for ; n > 0; n-- {
				add(r.eventLine())
			}
		case "TimingPoints":
			for ; n > 0; n-- {
				add(r.timingLine(float64(r.i(-5, 40)*100), r.chance(0.4)))
			}
			if r.chance(0.1) {
				add(r.pick("500", "", "//0,500", "x"))
			}
		case "HitObjects":
			for n = r.rng.Intn(14); n > 0; n-- {
				t := float64(r.i(0, 30) * 50)
				if r.chance(0.1) {
					t += 0.5
				}
				if r.chance(0.05) {
					t = -t
				}
				add(r.objLine(o, float64(r.i(0, 512)), float64(r.i(0, 384)), t))
			}
		}
	}
	return ls
}

// mangle damages a line.
func (r *Run) mangle(s string) string {
	if s == "" {
		return r.pick(",", ":", ",,", ",,,,,,", "|", "[", "1,2,3", "1,2,3,4", "1,2,3,1", "1,2,3,2,0,L")
	}
	rs := []rune(s)
	fs := strings.Split(s, ",")
	switch r.rng.Intn(8) {
	case 0:
		return string(rs[:r.rng.Intn(len(rs)+1)])
	case 1:
		i := r.rng.Intn(len(fs))
		fs = append(append([]string{}, fs[:i]...), fs[i+1:]...)
	case 2:
		fs[r.rng.Intn(len(fs))] = r.pick("", "abc", "-", "1e", "NaN", "--1", "0x10", "1.5", "|", ":", "B|", "L|1", "P|1:2|", "B||1:1", "q:r", "-1", "0", "é")
	case 3:
		fs = fs[:r.rng.Intn(len(fs))+1]
	case 4:
		fs = append(fs, r.pick("", "9", "x", "1|2|3|4|5|6|7|8|9", "|||||||||||"))
	case 5:
		i := r.rng.Intn(len(rs))
		return string(rs[:i]) + r.pick(",", ":", "|", " ", "-", ".", "x", "[") + string(rs[i:])
	case 6:
		i := r.rng.Intn(len(rs))
		if rs[i] == '.' && len(rs)-i > 6 { // numbers keep an ordinary size
			i = 0
		}
		return string(rs[:i]) + string(rs[i+1:])
	case 7:
		i, j := r.rng.Intn(len(fs)), r.rng.Intn(len(fs))
		fs[i], fs[j] = fs[j], fs[i]
	}
	return strings.Join(fs, ",")
}

func init() {
	suites["behaviours"] = func(r *Run) { // line sequences enumerated by TLC
		var hs [][]string
		r.behaviours(&hs)
		for i, h := range hs {
			r.parseCase(fmt.Sprintf("gen%d", i), h)
		}
	}
	suites["malformed"] = func(r *Run) {
		// every damage of every kind of line, in an otherwise valid file
		base := map[string][]string{
			"General":      {"Mode: 0", "StackLeniency: 0.7", "AudioFilename: a.mp3"},
			"Metadata":     {"Title:x", "Creator:y"},
			"Difficulty":   {"ApproachRate:9", "SliderMultiplier:1.4", "SliderTickRate:1"},
			"Events":       {"0,0,\"bg.jpg\",0,0", "Background,0,\"b.jpg\"", "2,100,200", "Break,100,200"},
			"TimingPoints": {"0,500,4,2,0,100,1,0", "100,-50,4,2,0,100,0,1"},
			"HitObjects": {"256,192,1000,1,0,0:0:0:0:", "256,192,1500,12,0,2500,0:0:0:0:", "10,20,2000,2,0,B|100:20|100:80,2,140,2|0|2,0:0|0:0|0:0,0:0:0:0:",
				"10,20,2000,6,0,P|60:60|110:20,1,120", "10,20,2000,2,0,L|110:20,3,90", "10,20,2000,2,0,C|110:20|50:50,1,90", "10,20,2000,128,0,3000:0:0:0:0:"},
		}
		tail := []string{"[HitObjects]", "100,100,9000,1,0", "200,100,9500,2,0,L|300:100,1,100"}
		try := func(id, sec, line string) {
			r.parseCase(id, append(append(append([]string{}, minimalHead...), "["+sec+"]", line), tail...))
		}
		for _, sec := range []string{"General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects"} {
			for n, l := range base[sec] {
				p := fmt.Sprintf("%s%d", sec, n)
				for i := 0; i <= len(l); i++ {
					try(fmt.Sprintf("%s-cut%d", p, i), sec, l[:i])
				}
				fs := strings.Split(l, ",")
				for i := range fs {
					for j, g := range []string{"", "abc", "-1", "0", "1.5", "NaN", "|", ":", "1e3", "-0"} {
						c := append([]string{}, fs...)
						c[i] = g
						try(fmt.Sprintf("%s-field%d-%d", p, i, j), sec, strings.Join(c, ","))
					}
					c := append(append([]string{}, fs[:i]...), fs[i+1:]...)
					try(fmt.Sprintf("%s-drop%d", p, i), sec, strings.Join(c, ","))
				}
			}
		}
		for i, l := range []string{"1,2,3,2,0,B,1,100", "1,2,3,2,0,,1,100", "1,2,3,2,0,L|,1,100", "1,2,3,2,0,B|1:2|3,1,100", "1,2,3,2,0,P|x|y,1,100",
			"1,2,3,2,0,L|50:60,0,100", "1,2,3,2,0,L|50:60,-3,100", "1,2,3,2,0,L|50:60,1,0", "1,2,3,2,0,L|50:60,1,-20", "1,2,3,2,0,L|1:2,1,100", "1,2,3,2,0,P|1:2|1:2,1,100",
			"1,2,3,2,0,L|50:60,1,100,1|2|3|4|5|6", "1,2,3,2,0,L|50:60,2,100,|||", "1,2,3,2,0,Z|50:60,1,100", "1,2,3,2,0,|50:60,1,100", "1,2,3,2,0,B|1:2|1:2|1:2,1,50",
			"1,2,3,2,0,C|5:5|5:5,1,50", "1,2,3,2,0,C|1:2,1,50", "1,2,3,8,0", "1,2,3,12,0,", "1,2,3,128,0", "1,2,3,128,0,:", "1,2,3,1", "1,2,3", "1,2", ",", ",,,,,,,,,,,", "1,2,3,2,0,B|100:200,1",
			"1,2,3,2", "1,2,3,2,0,L|1e5:1,1,100", "1,2,3,3,0", "1,2,3,10,0,L|50:50,1,100", "1,2,3,256,0", "1,2,3,-1,0", "1,2,3,-1,0,7"} {
			try(fmt.Sprintf("special%d", i), "HitObjects", l)
		}
		for i, d := range [][]string{{"SliderMultiplier:0", "SliderTickRate:1"}, {"SliderMultiplier:1.4", "SliderTickRate:0"}, {"SliderMultiplier:-1", "SliderTickRate:1"},
			{"SliderMultiplier:1.4", "SliderTickRate:-1"}, {"SliderMultiplier:x", "SliderTickRate:y"}, {}, {"SliderMultiplier:NaN", "SliderTickRate:1"},
			{"SliderMultiplier:1.4", "SliderTickRate:NaN"}, {"SliderTickRate:2"}, {"SliderMultiplier:2"}} {
			for j, tp := range []string{"0,500", "0,0", "0,-100", "0,NaN", "0,", "x,y", ",", "0,-0"} {
				ls := append([]string{"[Metadata]", "Creator:c", "[Difficulty]"}, d...)
				ls = append(ls, "[TimingPoints]", tp)
				r.parseCase(fmt.Sprintf("speeds%d-%d", i, j), append(ls, "[HitObjects]", "10,20,2000,2,0,B|100:20|100:80,2,140,2|0|2,0:0|0:0|0:0,0:0:0:0:", "10,20,3000,1,0"))
			}
		}
		for k := 0; k < r.n(500, 1500); k++ {
			r.parseCase(fmt.Sprintf("rand%d", k), r.randomFile(0.25, objOpt{kinds: "ccssphn", flags: true, extras: true}))
		}
	}
	suites["settings"] = func(r *Run) { // C04
		for k := 0; k < r.n(700, 2000); k++ {
			r.parseCase(fmt.Sprintf("rand%d", k), append(r.randomFile(0, objOpt{kinds: "cp"}), "[TimingPoints]", "5,400", "[Metadata]", r.pick("Title:t", "Creator:c", "Artist:a", "Source:s")))
		}
	}
	suites["diffkeys"] = func(r *Run) { // C05
		perm := [][]string{{"HPDrainRate:%s", "CircleSize:%s", "OverallDifficulty:%s", "ApproachRate:%s"}}
		_ = perm
		for k := 0; k < r.n(1000, 4000); k++ {
			ls := []string{"osu file format v14", "[Metadata]", "Title:t", "[TimingPoints]", "0,500", "[Difficulty]"}
			for n := r.rng.Intn(9); n > 0; n-- {
				if r.chance(0.1) {
					ls = append(ls, r.pick("[Difficulty]", "[General]", "", "//ApproachRate:3", "SliderMultiplier:2", "[Difficulty]"))
				}
				ls = append(ls, r.kvLine("Difficulty"))
			}
			r.parseCase(fmt.Sprintf("keys%d", k), ls)
		}
	}
	objFile := func(r *Run, o objOpt, n int, tmax int) []string {
		ls := append([]string{}, minimalHead...)
		ls = append(ls, "[HitObjects]")
		from := 0.0
		if r.chance(0.06) {
			from = r.pickf(16.77e6, 2147483e3, 9e12)
		}
		for ; n > 0; n-- {
			t := from + float64(r.i(0, tmax)*100)
			if r.chance(0.1) {
				t += 0.25
			}
			if r.chance(0.04) {
				t = -t - 1
			}
			ls = append(ls, r.objLine(o, float64(r.i(0, 512)), float64(r.i(0, 384)), t))
			if r.chance(0.03) {
				ls = append(ls, r.pick("", "//1,2,3,1,0", "abc", "[HitObjects]"))
			}
		}
		return ls
	}
	suites["objects"] = func(r *Run) { // C06
		for k := 0; k < r.n(500, 1500); k++ {
			r.parseCase(fmt.Sprintf("objs%d", k), objFile(r, objOpt{kinds: "cccssphn", flags: true, extras: true}, r.rng.Intn(30), r.pick2(5, 20, 100)))
		}
		for k := 0; k < r.n(2, 6); k++ { // long lists with many ties
			r.parseCase(fmt.Sprintf("long%d", k), objFile(r, objOpt{kinds: "cccccsp", extras: true}, 120, 12))
			r.parseCase(fmt.Sprintf("longer%d", k), objFile(r, objOpt{kinds: "cccccccccsphn", extras: true}, r.i(300, 700), 5000))
		}
		r.parseCase("huge", objFile(r, objOpt{kinds: "cccccccccsphn", extras: true}, r.i(2500, 3500), 20000))
		for ty := 0; ty < 256; ty++ { // every type byte
			ls := append([]string{}, minimalHead...)
			r.parseCase(fmt.Sprintf("type%d", ty), append(ls, "[HitObjects]", fmt.Sprintf("64,32,500,%d,2,%s,2,70,4|8|0", ty,
				map[bool]string{true: "900:1", false: "L|164:32"}[ty&2 == 0 || ty&8 != 0])))
		}
	}
	suites["combos"] = func(r *Run) { // C07
		for k := 0; k < r.n(4, 10); k++ { // long combos, and many of them
			ls := append(append([]string{}, minimalHead...), "[HitObjects]")
			kinds, flags := r.pick("c", "ccccs", strings.Repeat("c", 200)+"p"), r.pickf(0, 0, 0.01, 0.5)
			n := r.i(150, 700)
			if k == 1 {
				kinds, flags, n = "cccs", 1, 1700
			}
			for i := 0; i < n; i++ {
				l := r.objLine(objOpt{kinds: kinds}, float64(r.i(0, 512)), float64(r.i(0, 384)), float64(1000+i*50))
				if f := strings.Split(l, ","); !r.chance(flags) {
					ty, _ := strconv.Atoi(f[3])
					f[3] = strconv.Itoa(ty &^ 4)
					l = strings.Join(f, ",")
				} else if k == 1 && f[3] == "1" {
					f[3] = strconv.Itoa(5 | r.rng.Intn(8)<<4)
					l = strings.Join(f, ",")
				}
				ls = append(ls, l)
			}
			r.parseCase(fmt.Sprintf("combolong%d", k), ls)
		}
		for k := 0; k < r.n(500, 1500); k++ {
			r.parseCase(fmt.Sprintf("combo%d", k), objFile(r, objOpt{kinds: r.pick("ccspp", "cs", "cp", "p", "cccp", "csp")}, r.pick2(r.rng.Intn(14), r.rng.Intn(14), r.rng.Intn(14), r.rng.Intn(60)), r.pick2(3, 10, 100)))
		}
	}
}
