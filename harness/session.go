package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
)

// question is something a user may ask about a beatmap.
type question struct{ Map, Kind, Mods, Extent string }

func (q question) String() string { return q.Map + "/" + q.Kind + "/" + q.Mods + "/" + q.Extent }

var questionMods = map[string]difficulty.Modifier{
	"NM": 0, "HR": difficulty.HardRock, "EZ": difficulty.Easy | difficulty.HalfTime, "DTFL": difficulty.DoubleTime | difficulty.Flashlight,
	"RX": difficulty.Relax, "HDHR": difficulty.HardRock | difficulty.Hidden | difficulty.Flashlight}

// world is what the callers of a session share.
type world struct {
	texts map[string]string
	maps  map[string]*beatmap.BeatMap
	diffs map[string]*difficulty.Difficulty // per map and mods
	own   map[string]*difficulty.Difficulty // per map, to be changed between calls
	pp    map[int]*osu.PPv2                 // per caller
}

func newWorld(texts map[string]string) *world {
	w := &world{texts: texts, maps: map[string]*beatmap.BeatMap{}, diffs: map[string]*difficulty.Difficulty{}, own: map[string]*difficulty.Difficulty{}, pp: map[int]*osu.PPv2{}}
	for n, t := range texts {
		b := mustParse(t)
		w.maps[n], w.own[n] = b, b.Difficulty
		for m, mods := range questionMods {
			d := difficulty.NewDifficulty(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR())
			d.SetMods(mods)
			w.diffs[n+m] = d
		}
	}
	return w
}

func hashOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:12])
}

func positions(b *beatmap.BeatMap, m difficulty.Modifier) L {
	l := L{}
	for _, o := range b.HitObjects {
		s, e := o.GetStartTime(), o.GetEndTime()
		l = append(l, V(o.GetStackedStartPositionMod(m)), V(o.GetStackedEndPositionMod(m)), o.GetStackIndex(m))
		for _, f := range []float64{-0.1, 0, 0.3, 0.5, 0.77, 1, 1.2} {
			l = append(l, V(o.GetStackedPositionAtMod(s+(e-s)*f, m)), V(o.GetPositionAt(s+(e-s)*f)))
		}
		if sl, ok := o.(*objects.Slider); ok {
			for _, p := range sl.ScorePoints {
				l = append(l, F(p.Time), p.IsReverse, V(sl.GetStackedPositionAtMod(p.Time, m)))
			}
		}
	}
	return l
}

func whole(a osu.Attributes) M { return M{"counts": countsOf(a), "stars": starsOf(a)} }

func brief(a osu.Attributes) string { return fmt.Sprintf(" %.6f* %dx", a.Total, a.MaxCombo) }

// ask answers a question; shared says whose difficulty settings are used.
func (w *world) ask(who int, q question, fresh bool) string { return w.put(who, q, fresh)() }

// put asks a question and keeps what it was answered, to be read now or later.
func (w *world) put(who int, q question, fresh bool) func() string {
	b, mods := w.maps[q.Map], questionMods[q.Mods]
	d := w.diffs[q.Map+q.Mods]
	if fresh {
		d = w.own[q.Map]
		d.SetMods(mods)
	}
	os := b.HitObjects
	if q.Extent == "half" {
		os = os[:(len(os)+1)/2]
	}
	switch q.Kind {
	case "single":
		a := osu.CalculateSingle(os, d)
		return func() string { return hashOf(whole(a)) + brief(a) }
	case "step":
		as := osu.CalculateStep(os, d)
		return func() string {
			l, last := L{}, osu.Attributes{}
			for _, a := range as {
				l, last = append(l, whole(a)), a
			}
			return hashOf(l) + brief(last)
		}
	case "peaks":
		p := osu.CalculateStrainPeaks(os, d)
		return func() string { return hashOf(peaksOf(p)) }
	case "singlePeaks":
		a, p := osu.CalculateSingleWithPeaks(os, d)
		return func() string { return hashOf(L{whole(a), peaksOf(p)}) + brief(a) }
	case "stepPeaks":
		as, p := osu.CalculateStepWithPeaks(os, d)
		return func() string {
			l := L{peaksOf(p)}
			for _, a := range as {
				l = append(l, whole(a))
			}
			return hashOf(l)
		}
	case "moves":
		ms := preprocessing.CreateDifficultyObjects(os, d)
		is := *d // the settings asked about, whatever becomes of d
		return func() string {
			l := L{}
			for _, o := range ms {
				l = append(l, measured(o, &is))
			}
			return hashOf(l)
		}
	case "skills":
		l := L{}
		aim, speed := skills.NewAimSkill(d, true), skills.NewSpeedSkill(d)
		for _, o := range preprocessing.CreateDifficultyObjects(os, d) {
			aim.Process(o)
			speed.Process(o)
			l = append(l, F(aim.CurrentStrain), F(speed.CurrentStrain), F(speed.CurrentRhythm))
		}
		return func() string { return hashOf(L{l, F(aim.DifficultyValue()), F(speed.DifficultyValue())}) }
	case "pp", "ppfail", "ppfresh":
		a := osu.CalculateSingle(os, d)
		pp := w.pp[who]
		if pp == nil || q.Kind == "ppfresh" {
			pp = &osu.PPv2{}
		}
		s := score{-1, -1, 0, 0, 0}
		if q.Kind == "ppfail" {
			s = score{a.MaxCombo / 2, a.ObjectCount / 3, a.ObjectCount / 4, a.ObjectCount / 8, a.ObjectCount / 5}
		}
		res := pp.PPv2x(a, s.combo, s.great, s.ok, s.meh, s.miss, d)
		mine := pp.Results
		return func() string {
			return hashOf(L{resultsOf(res.Results), resultsOf(mine)}) + fmt.Sprintf(" %.6fpp", res.Results.Total)
		}
	case "parse", "read":
		text := []byte(w.texts[q.Map])
		var x *beatmap.BeatMap
		var err error
		if q.Kind == "parse" {
			x, err = beatmap.ParseFromByte(text)
		} else {
			x, err = beatmap.ParseFromReader(bytes.NewReader(text))
		}
		return func() string {
			return hashOf(L{observeMap(x, err), observeDiff(x.Difficulty), positions(x, mods), timingsOf(x)})
		}
	case "positions":
		return func() string { return hashOf(positions(b, mods)) }
	case "timing":
		return func() string { return hashOf(timingsOf(b)) }
	case "settings":
		got := hashOf(L{observeDiff(d), d.Mods.String(), d.Mods.StringFull(), F(d.Mods.GetScoreMultiplier()), d.Mods.Compatible(), int(difficulty.ParseMods(d.Mods.String()))})
		return func() string { return got }
	}
	panic("question " + q.Kind)
}

func timingsOf(b *beatmap.BeatMap) L {
	l := L{}
	for t := -500.0; t < 9000; t += 333 {
		p := b.Timings.GetPointAt(t)
		l = append(l, F(p.GetBeatLength()), F(p.GetBaseBeatLength()), F(p.GetRatio()), F(b.Timings.GetVelocity(p)), F(b.Timings.GetTickDistance(p)), F(b.Timings.GetOriginalPointAt(t).Time))
	}
	return l
}

// look is everything observable about the shared things.
func (w *world) look(m string) string {
	b := w.maps[m]
	w.own[m].SetMods(difficulty.HardRock)
	for n, d := range w.own {
		if n != m { // somebody else's settings
			d.SetMods(difficulty.DoubleTime)
		}
	}
	l := L{observeDiff(w.own[m])}
	for _, d := range w.own {
		d.SetMods(0)
	}
	l = append(l, observeMap(b, nil), observeDiff(w.own[m]))
	for _, n := range []string{"NM", "HR", "EZ", "DTFL", "RX", "HDHR"} {
		l = append(l, positions(b, questionMods[n]), observeDiff(w.diffs[m+n]))
	}
	return hashOf(l)
}

// answer gives the answer to one question in a process of its own.
func answerMain(r *Run) {
	var job struct {
		Texts map[string]string
		Q     question
	}
	r.behaviours(&job)
	texts := map[string]string{job.Q.Map: job.Texts[job.Q.Map]}
	w := newWorld(texts)
	out := ""
	if job.Q.Kind == "look" {
		out = w.look(job.Q.Map)
	} else {
		out = w.ask(0, job.Q, false)
	}
	os.WriteFile(r.out, []byte(out), 0o644)
	os.Exit(0)
}

// alone asks every question in a fresh process.
func (r *Run) alone(texts map[string]string, qs []question) map[string]string {
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	dir, err := os.MkdirTemp("", "verif-alone-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	res := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, q := range qs {
		wg.Add(1)
		sem <- true
		go func(i int, q question) {
			defer func() { <-sem; wg.Done() }()
			in, out := filepath.Join(dir, fmt.Sprint(i, ".in")), filepath.Join(dir, fmt.Sprint(i, ".out"))
			b, _ := json.Marshal(M{"Texts": texts, "Q": q})
			os.WriteFile(in, b, 0o644)
			cmd := exec.Command(exe, "-suite", "answer", "-in", in, "-out", out)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=atexit_sleep_ms=0")
			msg, err := cmd.CombinedOutput()
			a, err2 := os.ReadFile(out)
			mu.Lock()
			defer mu.Unlock()
			if err != nil || err2 != nil {
				if len(msg) > 300 {
					msg = msg[:300]
				}
				a = []byte("failed: " + string(msg))
			}
			res[q.String()] = string(a)
		}(i, q)
	}
	wg.Wait()
	return res
}

// pair makes two maps, often alike enough to be mistaken for each other.
func (r *Run) pair(i int) map[string]string {
	o := r.someMap()
	o.n = r.i(6, 18)
	if i%3 == 2 { // of hundreds of objects
		o.n = r.i(260, 300)
	}
	if i%3 == 1 { // of a minute or more
		o.n, o.long = r.i(12, 18), true
	}
	st := r.someSettings()
	other := r.someSettings()
	if i%3 == 0 { // as a map that declares none
		st = settings{5, 5, 5, 5}
		if r.chance(0.5) {
			other = st
		}
	}
	lines := r.mapLines(o)
	a := r.mapText(st, lines)
	switch r.rng.Intn(3) {
	case 0:
		return map[string]string{"A": a, "B": r.mapText(other, lines)}
	case 1: // as many objects of the same kinds elsewhere
		return map[string]string{"A": a, "B": r.mapText(st, r.mapLines(o))}
	}
	p := r.someMapOf(r.i(2, 18))
	p.long = o.long && r.chance(0.5)
	return map[string]string{"A": a, "B": r.mapText(other, r.mapLines(p))}
}

func (r *Run) someMapOf(n int) mapOpt {
	o := r.someMap()
	o.n = n
	return o
}

var questionKinds = []string{"single", "step", "peaks", "singlePeaks", "stepPeaks", "moves", "skills", "pp", "ppfail", "ppfresh", "parse", "read", "positions", "timing", "settings"}

func allQuestions() []question {
	var qs []question
	for _, m := range []string{"A", "B"} {
		qs = append(qs, question{m, "look", "NM", "full"})
		for _, k := range questionKinds {
			for n := range questionMods {
				for _, e := range []string{"full", "half"} {
					qs = append(qs, question{m, k, n, e})
				}
			}
		}
	}
	return qs
}

func (r *Run) session(id string, texts map[string]string, base map[string]string, batches [][]question, together int) {
	need := M{"A/look/NM/full": base["A/look/NM/full"], "B/look/NM/full": base["B/look/NM/full"]}
	for _, b := range batches {
		for _, q := range b {
			need[q.String()] = base[q.String()]
		}
	}
	r.do(id, M{"alone": need}, func(c *Case) {
		c.Note = texts["A"] + "\n=====\n" + texts["B"]
		w := newWorld(texts)
		type answer struct {
			q    string
			read func() string
		}
		var kept []answer
		for i := 1; i <= 8; i++ {
			w.pp[i] = &osu.PPv2{}
		}
		for _, b := range batches {
			if len(b) == 1 && together < 2 {
				c.add(M{"op": "ask", "who": 1, "q": b[0].String()})
				f := w.put(1, b[0], r.chance(0.5))
				c.add(M{"op": "told", "who": 1, "got": f()})
				kept = append(kept, answer{b[0].String(), f})
				continue
			}
			var mu sync.Mutex
			var wg sync.WaitGroup
			start := make(chan bool)
			for n := 0; n < together; n++ { // each question of the batch several times at once
				for i, q := range b {
					wg.Add(1)
					who := 1 + n*len(b) + i
					go func(who int, q question) {
						defer wg.Done()
						<-start
						mu.Lock()
						c.add(M{"op": "ask", "who": who, "q": q.String()})
						mu.Unlock()
						var f func() string
						got := func() (s string) {
							defer func() {
								if p := recover(); p != nil {
									s = fmt.Sprint("panic: ", p)
								}
							}()
							f = w.put(who, q, false)
							return f()
						}()
						mu.Lock()
						c.add(M{"op": "told", "who": who, "got": got})
						if f != nil {
							kept = append(kept, answer{q.String(), f})
						}
						mu.Unlock()
					}(who, q)
				}
			}
			close(start)
			wg.Wait()
		}
		for _, k := range kept { // nothing asked later changes an answer already given
			c.add(M{"op": "kept", "q": k.q, "got": k.read()})
		}
		for _, m := range []string{"A", "B"} {
			c.add(M{"op": "look", "map": m, "got": w.look(m)})
		}
	})
}

func init() {
	suites["answer"] = answerMain
	sessions := func(r *Run, together int, pairs int) {
		var gen [][][][4]string
		r.behaviours(&gen)
		runtime.GOMAXPROCS(8)
		var texts []map[string]string
		var large []bool
		for i := 0; i < pairs; i++ {
			texts = append(texts, r.pair(i+together-1))
			large = append(large, (i+together-1)%3 == 2)
		}
		batches := make([][][]question, len(gen))
		whose := make([]int, len(gen))
		asked := make([]map[question]bool, pairs)
		for p := range asked {
			asked[p] = map[question]bool{{"A", "look", "NM", "full"}: true, {"B", "look", "NM", "full"}: true}
		}
		for i, g := range gen {
			p := i % pairs
			if large[p] && (i/pairs)%6 != 0 { // costly: fewer of these
				for p = (i / pairs) % pairs; large[p]; p = (p + 1) % pairs {
				}
			}
			whose[i] = p
			for _, b := range g {
				var batch []question
				for _, q := range b {
					x := question{q[0], q[1], q[2], q[3]}
					batch = append(batch, x)
					asked[p][x] = true
				}
				batches[i] = append(batches[i], batch)
			}
		}
		var bases []map[string]string
		for p := range texts {
			var qs []question
			for _, q := range allQuestions() {
				if asked[p][q] {
					qs = append(qs, q)
				}
			}
			bases = append(bases, r.alone(texts[p], qs))
		}
		for i := range gen {
			t := 1
			if together > 1 {
				t = 2
			}
			r.session(fmt.Sprint("gen", i), texts[whose[i]], bases[whose[i]], batches[i], t)
		}
	}
	suites["sessions"] = func(r *Run) { sessions(r, 1, r.n(3, 6)) }
	suites["together"] = func(r *Run) { sessions(r, 2, r.n(2, 3)) }
}
