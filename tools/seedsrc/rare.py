"""Planted bugs that need an unusual input, size, history or reader to show."""

GO_TXT = "[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"

SEEDS = [
 # ---- C01
 seed("c01-surrogates",
  [("beatmap/parser.go", '''	return ParseFromReader(bytes.NewReader(data))''',
  '''	if len(data) > 1 && len(data)%2 == 0 && data[0] == 0xFF && data[1] == 0xFE {
		// all in memory, so decode it in one go
		text := make([]byte, 0, len(data)/2)

		for i := 2; i < len(data); i += 2 {
			text = append(text, string(rune(data[i])|rune(data[i+1])<<8)...)
		}

		data = text
	}

	return ParseFromReader(bytes.NewReader(data))''')],
  "a UTF-16 file passed as bytes with a character beyond the basic plane (an emoji in the title)",
  "the character becomes two replacement characters",
  '''for _, title := range []string{"plain", "\\u4e16\\u754c", "x\\U0001F600y"} {
	data := []byte{0xFF, 0xFE}
	for _, u := range utf16.Encode([]rune("[Metadata]\\nTitle:" + title + "\\n[TimingPoints]\\n0,500\\n")) {
		data = append(data, byte(u), byte(u>>8))
	}
	b, err := beatmap.ParseFromByte(data)
	fmt.Println(b.Title == title, err)
}''', ["unicode/utf16"]),
 seed("c01-empty-read",
  [("files/utf.go", '''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}''', '''	return transform.NewReader(&eofReader{r}, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}

// eofReader ends the stream when the source has nothing left to give
type eofReader struct {
	io.Reader
}

func (e *eofReader) Read(p []byte) (int, error) {
	n, err := e.Reader.Read(p)
	if n == 0 && err == nil && len(p) > 0 {
		n, err = e.Reader.Read(p)
		if n == 0 && err == nil {
			return 0, io.EOF
		}
	}

	return n, err
}''')],
  "a reader returning no data and no error twice in a row", "the rest of the file is not read",
  '''for n := 0; n < 4; n++ {
	b, err := beatmap.ParseFromReader(&slow{[]byte("[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"), n, n})
	fmt.Println(b != nil, err)
}''', ["io"], decls='''
type slow struct {
	data  []byte
	empty int
	left  int
}

func (s *slow) Read(p []byte) (int, error) {
	if s.left > 0 {
		s.left--
		return 0, nil
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := 7
	if n > len(s.data) {
		n = len(s.data)
	}
	n = copy(p, s.data[:n])
	s.data = s.data[n:]
	s.left = s.empty
	return n, nil
}
'''),
 seed("c01-chunk-crlf",
  [("files/utf.go", '''	scanner := NewScanner(r)

	buf''', '''	scanner := NewScanner(r)
	scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		for i, c := range data {
			if c == '\\n' {
				return i + 1, data[:i], nil
			}

			// old editors end lines in a bare CR
			if c == '\\r' && i+1 == len(data) {
				return i + 1, data[:i], nil
			}

			if c == '\\r' && data[i+1] == '\\n' {
				return i + 2, data[:i], nil
			}
		}

		if atEOF && len(data) > 0 {
			return len(data), data, nil
		}

		return 0, nil, nil
	})

	buf''')],
  "a CR inside a line (in a tag) that happens to be the last byte of a read",
  "the line is cut in two depending on how the reader splits the data",
  '''txt := "[Metadata]\\nTitle:t\\nTags:a\\rb\\n[TimingPoints]\\n0,500\\n"
for i := 1; i < len(txt); i++ {
	b, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader(txt[:i]), strings.NewReader(txt[i:])))
	fmt.Printf("%q %v\\n", b.Tags, err)
}''', ["io"]),
 # ---- C02
 seed("c02-temporary",
  [("files/utf.go", '''	return bufio.NewScanner(NewUnicodeReader(r))
}''', '''	return bufio.NewScanner(NewUnicodeReader(&retryReader{r}))
}

// retryReader leaves out errors that go away by themselves
type retryReader struct {
	io.Reader
}

func (c *retryReader) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {
		n, err = c.Reader.Read(p)
	}

	return n, err
}''')],
  "a reader failing with a time-out once and reporting end-of-file on the next call", "the truncated beatmap is returned without an error",
  '''for _, e := range []error{io.EOF, os.ErrDeadlineExceeded, context.DeadlineExceeded, syscall.ETIMEDOUT, io.ErrNoProgress} {
	b, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader("[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"), &failing{e}))
	fmt.Println(b != nil, err != nil)
}''', ["io", "os", "context", "syscall"], decls='''
type failing struct{ err error }

func (f *failing) Read(p []byte) (int, error) {
	e := f.err
	f.err = io.EOF
	return 0, e
}
'''),
 seed("c02-wrapped-eof",
  [("files/utf.go", '''	return bufio.NewScanner(NewUnicodeReader(r))
}''', '''	return bufio.NewScanner(NewUnicodeReader(&endReader{r}))
}

// endReader unwraps the end of the stream
type endReader struct {
	io.Reader
}

func (c *endReader) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	if errors.Is(err, io.EOF) {
		err = io.EOF
	}

	return n, err
}'''), ("files/utf.go", 'import (\n\t"bufio"', 'import (\n\t"bufio"\n\t"errors"')],
  "a reader failing with an error that wraps io.EOF (a connection closed early)", "the truncated beatmap is returned without an error",
  '''for _, e := range []error{io.EOF, fmt.Errorf("connection lost: %w", io.EOF), io.ErrUnexpectedEOF} {
	b, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader("[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"), iotest.ErrReader(e)))
	fmt.Println(b != nil, err)
}''', ["io", "testing/iotest"]),
 # ---- C03
 seed("c03-section-order",
  [("beatmap/parser.go", '''		if section != "" {
			currentSection = section
''', '''		if section != "" {
			if section == "HitObjects" && counter == 0 {
				break // objects without timing are of no use
			}

			currentSection = section
''')],
  "a file whose objects come before its timing points", "it is rejected as corrupted",
  '''for _, t := range []string{"[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n1,2,3,1,0\\n", "[HitObjects]\\n1,2,3,1,0\\n[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"} {
	b, err := beatmap.ParseFromByte([]byte(t))
	fmt.Println(b != nil && b.Title == "t" && len(b.HitObjects) == 1, err)
}'''),
 seed("c03-whitespace-fields",
  [("beatmap/parser.go", '''	if strings.HasPrefix(line, "//") || !strings.Contains(line, delimiter) {
		return nil
	}

	divided := strings.SplitN(line, delimiter, n)

	for i, a := range divided {
		divided[i] = strings.TrimSpace(a)
	}

	return divided''', '''	if strings.HasPrefix(line, "//") || !strings.Contains(line, delimiter) {
		return nil
	}

	divided := make([]string, 0, 8)

	for _, a := range strings.SplitN(line, delimiter, n) {
		if a = strings.TrimSpace(a); a != "" || n > 0 {
			divided = append(divided, a)
		}
	}

	return divided''')],
  "a hit-object line with an empty field", "the fields after it move up, so the line yields something else or parsing panics",
  '''for _, l := range []string{"1,2,3,1,0", "1,2,,1,0", ",2,3,1,0,", "1,2,3,2,,L|5:5,1,9", "1,2,3,2,0,,1,9", "1,2,3,8,0,,"} {
	objs(mp(14, "", "", "", l))
	fmt.Println("-")
}'''),
 # ---- C04
 seed("c04-breaks-sorted",
  [("beatmap/parser.go", '''	beatMap.FinalizePoints()
''', '''	beatMap.FinalizePoints()

	sort.Slice(beatMap.Pauses, func(i, j int) bool {
		return beatMap.Pauses[i].GetStartTime() < beatMap.Pauses[j].GetStartTime()
	})
''')],
  "break lines that are not in time order", "the breaks are reordered",
  '''b, _ := beatmap.ParseFromByte([]byte("[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n[Events]\\n2,5000,6000\\n2,1000,2000\\nBreak,7000,8000\\n"))
for _, p := range b.Pauses {
	fmt.Println(p.GetStartTime(), p.GetEndTime())
}'''),
 seed("c04-key-case",
  [("beatmap/parser.go", '''func parseMetadata(line []string, beatMap *BeatMap) {
	switch line[0] {''', '''func parseMetadata(line []string, beatMap *BeatMap) {
	if line[0] != "" { // keys start with a capital
		line[0] = strings.ToUpper(line[0][:1]) + line[0][1:]
	}

	switch line[0] {''')],
  "an unknown metadata key that differs from a known one in the case of its first letter", "it sets the known field",
  '''b, _ := beatmap.ParseFromByte([]byte("[Metadata]\\nTitle:t\\ntitle:x\\nSource:s\\nsource:y\\n:z\\n[TimingPoints]\\n0,500\\n"))
fmt.Println(b.Title, b.Source)'''),
 seed("c04-default-kept",
  [("beatmap/parser.go", '''	case "SliderTickRate":
		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)''', '''	case "SliderTickRate":
		if rate, _ := strconv.ParseFloat(line[1], 64); rate != beatMap.Timings.TickRate && rate >= 1 {
			beatMap.Timings.TickRate = rate
		}''')],
  "a slider tick rate below 1", "it stays at 1",
  '''for _, r := range []string{"1", "2", "0.5", "4"} {
	b, _ := beatmap.ParseFromByte([]byte("[Metadata]\\nTitle:t\\n[Difficulty]\\nSliderTickRate:" + r + "\\n[TimingPoints]\\n0,500\\n"))
	fmt.Println(b.Timings.TickRate)
}'''),
 # ---- C05
 seed("c05-ar-five",
  [("beatmap/parser.go", '''		if !beatMap.arSpecified {''', '''		if beatMap.Difficulty.GetAR() == 5 || !beatMap.arSpecified {''')],
  "an approach rate of exactly 5 declared before another overall difficulty", "the approach rate becomes the overall difficulty",
  '''for _, d := range []string{"ApproachRate:4\\nOverallDifficulty:8", "ApproachRate:5\\nOverallDifficulty:8", "OverallDifficulty:8\\nApproachRate:5", "OverallDifficulty:8"} {
	b := mp(14, "", d, "")
	fmt.Println(b.Difficulty.GetAR(), b.Difficulty.GetOD())
}'''),
 seed("c05-section-reset",
  [("beatmap/parser.go", '''		if section != "" {
			currentSection = section
''', '''		if section != "" {
			if section == "Difficulty" {
				beatMap.arSpecified = false
			}

			currentSection = section
''')],
  "a file with two difficulty sections, the first declaring the approach rate and the second the overall difficulty", "the approach rate becomes the overall difficulty",
  '''for _, d := range []string{"ApproachRate:4\\nOverallDifficulty:8", "ApproachRate:4\\n[Difficulty]\\nOverallDifficulty:8", "OverallDifficulty:8\\n[Difficulty]\\nApproachRate:4"} {
	b := mp(14, "", d, "")
	fmt.Println(b.Difficulty.GetAR(), b.Difficulty.GetOD())
}'''),
 # ---- C06
 seed("c06-edge-short",
  [("beatmap/objects/slider.go", '''			slider.sounds[i] = audio.HitSound(sound)
		}''', '''			slider.sounds[i] = audio.HitSound(sound)
		}

		// the last sound given goes on
		for i := len(subData); i < len(slider.sounds); i++ {
			slider.sounds[i] = slider.sounds[i-1]
		}''')],
  "a slider with fewer edge sounds than edges", "the remaining edges take the last edge's sound instead of the base sound",
  '''objs(mp(14, "", "", "", "100,100,1000,2,4,L|200:100,4,100,2|8", "100,100,9000,2,4,L|200:100,1,100,2|8", "100,100,19000,2,4,L|200:100,2,100"))'''),
 seed("c06-hold-start",
  [("beatmap/parser.go", '''					time = strings.Split(arr[5], ":")[0]''', '''					time = arr[5]''')],
  "a mania hold line whose end is followed by its sample", "its end does not count for the length",
  '''b := mp(14, "", "", "", "100,100,1000,1,0", "100,100,2000,128,0,5000:0:0:0:0:", "100,100,3000,1,0")
fmt.Println(b.Length, b.Sliders, len(b.HitObjects))'''),
 seed("c06-long-sort",
  [("beatmap/parser.go", '''	sort.SliceStable(beatMap.HitObjects, func(i, j int) bool {
		return beatMap.HitObjects[i].GetStartTime() < beatMap.HitObjects[j].GetStartTime()
	})
''', '''	if !sort.SliceIsSorted(beatMap.HitObjects, func(i, j int) bool {
		return int(beatMap.HitObjects[i].GetStartTime()) < int(beatMap.HitObjects[j].GetStartTime())
	}) {
		sort.SliceStable(beatMap.HitObjects, func(i, j int) bool {
			return beatMap.HitObjects[i].GetStartTime() < beatMap.HitObjects[j].GetStartTime()
		})
	}
''')],
  "objects out of order by less than a millisecond", "they are not put in order",
  '''objs(mp(14, "", "", "", "100,100,1000.75,1,0", "200,100,1000.25,1,0", "100,100,2000,1,0"))'''),
 # ---- C07
 seed("c07-flag-spinner",
  [("beatmap/parser.go", '''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = true
		} else if''', '''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = !iO.IsNewCombo()
		} else if''')],
  "a spinner that carries the new-combo flag itself", "the object after it does not start a combo",
  '''objs(mp(14, "", "", "", "100,100,1000,5,0", "100,100,1500,1,0", "256,192,2000,12,0,3000", "100,100,3500,1,0", "256,192,4000,8,0,5000", "100,100,5500,1,0"))'''),
 seed("c07-number-wrap",
  [("beatmap/parser.go", '''		comboNumber++
		num++''', '''		comboNumber = comboNumber%99 + 1 // two digits at most
		num++''')],
  "a combo of a hundred objects or more", "its numbers start again at 1",
  '''var l []string
for i := 0; i < 130; i++ {
	l = append(l, fmt.Sprintf("100,100,%d,1,0", 1000+i*100))
}
objs(mp(14, "", "", "", l...))'''),
 seed("c07-second-spinner",
  [("beatmap/parser.go", '''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = true
		} else if''', '''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = !forceNewCombo
		} else if''')],
  "two spinners in a row", "the object after them does not start a combo",
  '''objs(mp(14, "", "", "", "100,100,1000,5,0", "256,192,2000,8,0,3000", "256,192,4000,8,0,5000", "100,100,5500,1,0", "256,192,6000,8,0,7000", "100,100,7500,1,0"))'''),
 # ---- C08
 seed("c08-base-file-order",
  [("beatmap/timing/timing.go", '''	tim.points = append(tim.points, point)
}''', '''	if inherited && len(tim.points) > 0 {
		point.beatLengthBase = tim.points[len(tim.points)-1].beatLengthBase
	}

	tim.points = append(tim.points, point)
}'''), ("beatmap/timing/timing.go", '''			lastPoint := tim.points[i-1]
			point.beatLengthBase = lastPoint.beatLengthBase

			tim.points[i] = point
''', '''			continue // has its base from the point it follows
''')],
  "timing points that are not in time order in the file", "an inherited point takes its base from the point before it in the file",
  '''b := mp(14, "", "", "0,500,4,2,1,60,1,0\\n8000,300,4,2,1,60,1,0\\n4000,-50,4,2,1,60,0,0\\n9000,-200,4,2,1,60,0,0")
for t := 0.0; t < 10000; t += 1000 {
	fmt.Println(b.Timings.GetPointAt(t).GetBaseBeatLength(), b.Timings.GetPointAt(t).GetRatio())
}'''),
 seed("c08-bpm-inherited",
  [("beatmap/beatmap.go", '''	if !math.IsNaN(bpm) && bpm >= 0 {
		rBPM''', '''	if !math.IsNaN(bpm) && bpm >= 0 && (len(line) < 7 || line[6] != "0") {
		rBPM''')],
  "an inherited point with a non-negative beat length", "it is left out of the BPM range",
  '''b := mp(14, "", "", "0,500,4,2,1,60,1,0\\n1000,250,4,2,1,60,0,0\\n2000,1000,4,2,1,60,0,0\\n3000,-50,4,2,1,60,0,0")
fmt.Println(b.MinBPM, b.MaxBPM)'''),
 seed("c08-volume-default",
  [("beatmap/beatmap.go", '''	if len(line) > 5 {
		sV, _ := strconv.Atoi(line[5])
		sampleVolume = float64(sV) / 100
	}

	if len(line) > 6 {''', '''	if len(line) > 6 {
		sV, _ := strconv.Atoi(line[5])
		sampleVolume = float64(sV) / 100
''')],
  "a timing point that ends with its volume", "the volume keeps its default",
  '''for _, p := range []string{"0,500,4,2,1,60,1,0", "0,500,4,2,1,60,1", "0,500,4,2,1,60", "0,500,4,2,1", "0,500"} {
	fmt.Println(mp(14, "", "", p).Timings.GetPointAt(0).SampleVolume)
}'''),
 seed("c08-cursor",
  [("beatmap/timing/timing.go", '''	points         []ControlPoint
	originalPoints []ControlPoint
}''', '''	points         []ControlPoint
	originalPoints []ControlPoint

	lastIndex int
}'''), ("beatmap/timing/timing.go", '''	index := sort.Search(tLen, func(i int) bool {
		return time < tim.points[i].Time
	})

	return tim.points[mutils.MaxI(0, index-1)]''', '''	// look-ups mostly go forward
	if tim.lastIndex < tLen-1 && time >= tim.points[tim.lastIndex].Time {
		for tim.lastIndex < tLen-1 && time >= tim.points[tim.lastIndex+1].Time {
			tim.lastIndex++
		}

		return tim.points[tim.lastIndex]
	}

	index := sort.Search(tLen, func(i int) bool {
		return time < tim.points[i].Time
	})

	if index > 0 {
		tim.lastIndex = index - 1
	}

	return tim.points[tim.lastIndex]''')],
  "a time before the first point asked for after later ones",
  "the point found last is returned again",
  '''b := mp(14, "", "", "0,500,4,2,1,60,1,0\\n1000,-50,4,2,1,60,0,0\\n2000,-200,4,2,1,60,0,0")
for _, t := range []float64{500, 1500, 2500, 500, 2500, 1500, 2500, 3000, -5, 2500, 999, 1000} {
	fmt.Println(b.Timings.GetPointAt(t).Time)
}'''),
 # ---- C09
 seed("c09-arc-coarse",
  [("math/curves/multicurve.go", '''		lines = append(lines, ApproximateCircularArc(points[0], points[1], points[2], 0.125)...)''', '''		detail := float32(0.125)
		if points[0].Dst(points[1]) > 280 { // large arcs are flat
			detail /= 4
		}

		lines = append(lines, ApproximateCircularArc(points[0], points[1], points[2], detail)...)''')],
  "a circular slider whose middle point is more than 280 pixels from its head", "the arc is approximated too coarsely",
  '''for _, l := range []string{"P|150:150|100:200,1,150", "P|356:192|256:292,1,900", "P|500:380|100:380,1,1200"} {
	s := mp(14, "", "", "", "256,100,1000,2,0,"+l).HitObjects[0].(*objects.Slider)
	for i := 0; i <= 64; i++ {
		p := s.GetPositionAt(s.GetStartTime() + s.GetDuration()*float64(i)/64)
		fmt.Printf("%.1f %.1f\\n", p.X+0.02, p.Y+0.02)
	}
}'''),
 seed("c09-negative-type",
  [("math/curves/multicurve.go", '''	case "C":
		lines = processCatmull(points)
	}
''', '''	case "C":
		lines = processCatmull(points)
	}

	// points off the playfield are of no use
	for len(lines) > 1 && lines[len(lines)-1].Point2.Y < -600 {
		lines = lines[:len(lines)-1]
	}
''')],
  "a slider running more than 600 pixels above the playfield", "its path leaves the control points and is extended straight instead",
  '''for _, l := range []string{"L|200:-100|300:100,1,400", "L|100:-700|400:-700,1,1000"} {
	s := mp(14, "", "", "", "100,100,1000,2,0,"+l).HitObjects[0].(*objects.Slider)
	fmt.Printf("%.2f\\n", s.GetEndPosition())
}'''),

 # ---- C10
 seed("c10-base-margin",
  [("beatmap/objects/slider.go", '''	minDistanceFromEnd := velocity * 0.01
''', '''	minDistanceFromEnd := slider.Timings.GetVelocity(timings.GetOriginalPointAt(slider.StartTime)) * 0.01
''')],
  "a slider under an inherited point whose last tick lies near 10 ms before the end", "the tick is kept or dropped by the speed without the inherited point",
  '''objs(mp(14, "", "", "0,500,4,2,1,60,1,0\\n900,-50,4,2,1,60,0,0\\n5000,-1000,4,2,1,60,0,0", "0,100,1000,2,0,L|500:100,1,284", "0,100,6000,2,0,L|500:100,2,30", "0,100,3000,2,0,L|500:100,3,287"))'''),
 # ---- C11
 seed("c11-many-slides",
  [("beatmap/objects/slider.go", '''	progress = math.Mod(progress, 2)
''', '''	progress -= float64(int8(progress/2)) * 2
''')],
  "a slider of more than 256 slides (a buzz slider)", "after 256 slides the ball is nowhere on the path",
  '''b := mp(14, "", "", "", "0,100,1000,2,0,L|500:100,300,14", "0,100,50000,2,0,L|500:100,7,140")
for _, o := range b.HitObjects {
	fmt.Println(o.GetEndPosition())
	for i := 0.5; i < 300; i++ {
		fmt.Printf("%.3g ", o.GetPositionAt(o.GetStartTime() + o.GetDuration()*i/300.7).X)
	}
	fmt.Println()
}'''),
 # ---- C12
 seed("c12-zero-leniency",
  [("beatmap/stackleniency.go", '''	if version >= 6 {
		applyNewStacking''', '''	if stackThreshold <= 0 {
		return // nothing stacks
	}

	if version >= 6 {
		applyNewStacking''')],
  "a stack leniency of 0 and objects that start before the ones below them end", "they are not stacked",
  '''objs(mp(14, "StackLeniency:0", "", "", "100,100,1000,1,0", "100,100,1000,1,0", "300,100,3000,2,0,L|400:100,1,100", "400,100,3100,1,0"))
objs(mp(5, "StackLeniency:0", "", "", "100,100,1000,1,0", "100,100,1000,1,0", "300,100,3000,2,0,L|400:100,1,100", "400,100,3100,1,0"))'''),
 seed("c12-near-search",
  [("beatmap/stackleniency.go", '''		if !isSlider(objectI) && !isSpinner(objectI) {
			for n--; n >= 0; n-- {''', '''		if !isSlider(objectI) && !isSpinner(objectI) {
			for n--; n >= 0 && i-n < 20; n-- {''')],
  "twenty or more objects elsewhere within the stacking time between two at the same place", "the two are not stacked",
  '''l := []string{"100,100,1000,1,0"}
for i := 0; i < 24; i++ {
	l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 120+i*10, 200, 1010+i*10))
}
objs(mp(14, "", "", "", append(l, "100,100,1300,1,0")...))'''),
 seed("c12-old-slider",
  [("beatmap/stackleniency.go", '''		if objectI.GetStackIndex(modifiers) == 0 || isSlider(objectI) {
			sliderStack''', '''		if objectI.GetStackIndex(modifiers) == 0 {
			sliderStack''')],
  "a format-5 file with a slider that is itself stacked and has objects at its end", "the objects at its end are not stacked",
  '''objs(mp(5, "", "", "", "100,100,1000,2,0,L|200:100,1,100", "200,100,1400,2,0,L|300:100,1,100", "300,100,1800,1,0", "300,100,1900,1,0"))'''),
 # ---- C13
 seed("c13-easy-exact",
  [("beatmap/objects/hitobject.go", '''	case modifier&difficulty.Easy > 0:
		return basePosition.Add(hitObject.StackOffsetEZ)
	}
''', '''	case modifier&difficulty.DifficultyAdjustMask == difficulty.Easy:
		return basePosition.Add(hitObject.StackOffsetEZ)
	}
''')],
  "Easy together with another difficulty-adjusting mod (Double Time, Half Time, Flashlight or Relax)", "objects are shifted by the heights without mods",
  '''b := mp(14, "", "", "", "100,100,1000,1,0", "100,100,1200,1,0", "100,100,1400,1,0")
for _, m := range []difficulty.Modifier{0, difficulty.Easy, difficulty.Easy | difficulty.Hidden, difficulty.Easy | difficulty.HalfTime, difficulty.HardRock | difficulty.DoubleTime} {
	fmt.Println(b.HitObjects[0].GetStackedStartPositionMod(m))
}'''),
 seed("c13-height-cap",
  [("beatmap/stackleniency.go", '''			v.SetStackOffset(-float32(v.GetStackIndex(modifiers))*float32(diff.CircleRadius)/10, modifiers)''', '''			v.SetStackOffset(-float32(int8(v.GetStackIndex(modifiers)*8))/8*float32(diff.CircleRadius)/10, modifiers)''')],
  "a stack of more than sixteen objects", "the topmost objects are shifted the wrong way",
  '''var l []string
for i := 0; i < 24; i++ {
	l = append(l, fmt.Sprintf("100,100,%d,1,0", 1000+i*50))
}
for _, o := range mp(14, "", "", "", l...).HitObjects {
	fmt.Printf("%.4f\\n", o.GetStackedStartPositionMod(difficulty.None))
}'''),
 # ---- C14
 seed("c14-hp-after-mods",
  [("beatmap/difficulty/difficulty.go", '''	diff.hp = hp
	diff.calculate()
}

func (diff *Difficulty) GetCS''', '''	diff.hp = hp
	diff.HPMod = hp // health affects nothing else
}

func (diff *Difficulty) GetCS''')],
  "setting the health after Hard Rock or Easy was selected", "the effective health is the one without mods",
  '''d := difficulty.NewDifficulty(5, 5, 5, 5)
for _, m := range []difficulty.Modifier{0, difficulty.HardRock, difficulty.Easy} {
	d.SetMods(m)
	fmt.Println(d.HPMod)
	d.SetHP(6)
	fmt.Println(d.HPMod, d.GetHP())
}'''),
 seed("c14-back-to-one",
  [("beatmap/difficulty/difficulty.go", '''	diff.CustomSpeed = speed
	diff.calculate()''', '''	diff.CustomSpeed = speed

	if speed != 1 {
		diff.calculate()
	}''')],
  "setting the custom speed back to 1 after another one", "the derived values stay those of the other speed",
  '''d := difficulty.NewDifficulty(5, 5, 5, 5)
for _, s := range []float64{1, 1.5, 1, 0.8, 1} {
	d.SetCustomSpeed(s)
	fmt.Println(d.Speed, d.ARReal, d.ODReal)
}'''),
 seed("c14-same-value",
  [("beatmap/difficulty/difficulty.go", '''func (diff *Difficulty) SetOD(od float64) {
	diff.od = od
	diff.calculate()''', '''func (diff *Difficulty) SetOD(od float64) {
	if math.Floor(od*10) == math.Floor(diff.od*10) {
		return // one decimal is all there is
	}

	diff.od = od
	diff.calculate()''')],
  "setting an overall difficulty that differs from the one before in its second decimal only", "the setting is ignored",
  '''d := difficulty.NewDifficulty(5, 5, 5, 5)
for _, s := range []float64{5.5, 5.57, 8, 8.25} {
	d.SetOD(s)
	fmt.Println(d.GetOD(), d.Hit300, d.ODReal)
}'''),
 # ---- C15
 seed("c15-toggle",
  [("beatmap/difficulty/mods.go", '''				m |= 1 << uint(index)
''', '''				m ^= 1 << uint(index)
''')],
  "a string naming the same mod twice", "the mod is not selected",
  '''for _, s := range []string{"HDHR", "HDHDHR", "DTNCDT", "HDHDHD"} {
	fmt.Println(difficulty.ParseMods(s))
}'''),
 seed("c15-int32",
  [("beatmap/difficulty/mods.go", '''	return mods&mod > 0
''', '''	return int32(mods&mod) > 0
''')],
  "a string naming Daycore (the 32nd mod)", "it does not imply Half Time and is not compatible-checked",
  '''for _, s := range []string{"DC", "DCHR", "LM", "V2", "DCDT"} {
	m := difficulty.ParseMods(s)
	fmt.Println(m, m.Compatible(), m.GetScoreMultiplier(), m.StringFull())
}'''),
 seed("c15-fold",
  [("beatmap/difficulty/mods.go", '''			if availableMod == mod {''', '''			if strings.EqualFold(availableMod, mod) {'''),
   ("beatmap/difficulty/mods.go", '''package difficulty
''', '''package difficulty

import "strings"
''')],
  "a string with an unknown acronym that is a mod's in other case", "it selects the mod instead of being ignored",
  '''for _, s := range []string{"HDHR", "hdHR", "HdHR", "\u212A4"} {
	fmt.Println(difficulty.ParseMods(s))
}'''),
 seed("c15-daycore-alone",
  [("beatmap/difficulty/mods.go", '''(mods.Active(HalfTime) || mods.Active(Daycore))) ||''', '''mods.Active(HalfTime)) ||''')],
  "Daycore selected together with Double Time without Half Time", "the selection counts as compatible",
  '''for _, m := range []difficulty.Modifier{difficulty.DoubleTime | difficulty.HalfTime, difficulty.DoubleTime | difficulty.Daycore, difficulty.Nightcore | difficulty.Daycore, difficulty.Daycore} {
	fmt.Println(m.Compatible())
}'''),
 # ---- C18
 seed("c18-long-map",
  [("performance/osu/skills/skill.go", '''	skill.strainPeaks = append(skill.strainPeaks, skill.currentSectionPeak)
''', '''	if len(skill.strainPeaks) < 2000 { // no map is longer
		skill.strainPeaks = append(skill.strainPeaks, skill.currentSectionPeak)
	}
''')],
  "a map of more than 2000 sections (thirteen minutes)", "the later sections have no peak",
  '''var l []string
for i := 0; i < 500; i++ {
	l = append(l, fmt.Sprintf("%d,100,%d,1,0", 100+i%7*30, 1000+i*i*5))
}
b := mp(14, "", "", "", l...)
p := osu.CalculateStrainPeaks(b.HitObjects, b.Difficulty)
fmt.Println(len(p.Aim), len(p.Speed), len(p.Total))'''),
 seed("c18-history-slack",
  [("performance/osu/skills/skill.go", '''	if len(skill.Previous) > skill.HistoryLength {
''', '''	if len(skill.Previous) > skill.HistoryLength && len(skill.Previous) > 16 { // cut now and then
''')],
  "a map of more than twice the remembered number of objects", "a skill sees more objects than its fixed number",
  '''var l []string
for i := 0; i < 90; i++ {
	l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i*i%310, 50+i*37%290, 1000+i*(90+i%3*45)))
}
b := mp(14, "", "", "", l...)
peaks(osu.CalculateStrainPeaks(b.HitObjects, df(b, difficulty.Flashlight)))'''),
 # ---- C21
 seed("c21-slow-past",
  [("performance/osu/skills/flashlight.go", '''		cumulativeStrainTime += previous.StrainTime
''', '''		cumulativeStrainTime += previous.StrainTime

		if cumulativeStrainTime > 4000 {
			break
		}
''')],
  "a slow part whose remembered objects reach more than four seconds back", "the older ones are left out",
  '''var l []string
for i := 0; i < 30; i++ {
	l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i*i%310, 50+i*37%290, 1000+i*1500))
}
b := mp(14, "", "", "", l...)
peaks(osu.CalculateStrainPeaks(b.HitObjects, df(b, difficulty.Flashlight)))'''),
 # ---- C22
 seed("c22-flash-cut",
  [("performance/osu/skills/skill.go", '''	for _, strain := range strains {
		diff += strain * weight
		weight *= skill.DecayWeight
	}
''', '''	for i, strain := range strains {
		if i == 600 {
			break // the weight is next to nothing by now
		}

		diff += strain * weight
		weight *= skill.DecayWeight
	}
''')],
  "a map of more than 600 sections (four minutes) under Flashlight, whose peaks all have the same weight", "the lowest peaks are left out of the flashlight rating",
  '''var l []string
for i := 0; i < 1500; i++ {
	l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i*i%310, 50+i*37%290, 1000+i*200))
}
b := mp(14, "", "", "", l...)
show(osu.CalculateSingle(b.HitObjects, df(b, difficulty.Flashlight)))'''),
 # ---- C23
 seed("c23-tick-cap",
  [("performance/osu/difficulty.go", '''		attr.MaxCombo += len(s.ScorePoints)
''', '''		attr.MaxCombo += int(uint8(len(s.ScorePoints)))
''')],
  "a slider of 256 or more scoring points", "its points are counted modulo 256",
  '''b := mp(14, "", "", "", "0,100,1000,2,0,L|500:100,300,14", "0,100,50000,2,0,L|500:100,7,140")
fmt.Println(osu.CalculateSingle(b.HitObjects, b.Difficulty).MaxCombo)'''),
 # ---- C24
 seed("c24-large-step",
  [("performance/osu/difficulty.go", '''		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''', '''		if i > 400 && i%2 == 0 && i < len(diffObjects)-1 {
			// hardly changes any more
			last := stars[i]
			last.ObjectCount, last.Circles, last.Sliders, last.Spinners, last.MaxCombo = attr.ObjectCount, attr.Circles, attr.Sliders, attr.Spinners, attr.MaxCombo
			stars = append(stars, last)

			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''')],
  "a map of more than 400 objects", "every other entry repeats the ratings of the one before",
  '''var l []string
for i := 0; i < 500; i++ {
	l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i*i%310, 50+i*37%290, 1000+i*200-i*i/8))
}
b := mp(14, "", "", "", l...)
st := osu.CalculateStep(b.HitObjects, b.Difficulty)
for i := 380; i < len(st); i += 7 {
	fmt.Println(st[i] == osu.CalculateSingle(b.HitObjects[:i+1], b.Difficulty))
}'''),
 # ---- C26
 seed("c26-combo-zero",
  [("performance/osu/pp.go", '''	if combo < 0 {
		combo = attribs.MaxCombo''', '''	if combo <= 0 {
		combo = attribs.MaxCombo''')],
  "a score with combo 0 (every object missed)", "it counts as a full combo",
  '''b := mp(14, "", "", "", "0,100,1000,2,0,L|500:100,3,140", "0,100,5000,1,0", "300,100,5200,1,0", "0,100,5400,1,0")
a := osu.CalculateSingle(b.HitObjects, b.Difficulty)
for c := -1; c < 4; c++ {
	fmt.Println((&osu.PPv2{}).PPv2x(a, c, 1, 0, 0, 3, b.Difficulty).Results)
}'''),
 # ---- C27
 seed("c27-partial-length",
  [("performance/osu/pp.go", '''	speedValue := ppBase(pp.attribs.Speed)

	// Longer maps are worth more
	lengthBonus := 0.95 + 0.4*math.Min(1.0, float64(pp.totalHits)/2000.0)''', '''	speedValue := ppBase(pp.attribs.Speed)

	// Longer maps are worth more
	lengthBonus := 0.95 + 0.4*math.Min(1.0, float64(pp.attribs.ObjectCount)/2000.0)''')],
  "a score with fewer hits than the map has objects (a failed or unfinished play)", "the speed value is that of the whole map's length",
  '''d := difficulty.NewDifficulty(5, 4, 8, 9)
a := osu.Attributes{Total: 5, Aim: 2.6, SliderFactor: 0.99, Speed: 2.4, ObjectCount: 1500, Circles: 1000, Sliders: 500, MaxCombo: 2100}
for _, n := range []int{1500, 700, 100, 1} {
	fmt.Printf("%.6g\\n", (&osu.PPv2{}).PPv2x(a, n, n, 0, 0, 0, d).Results)
}'''),
 seed("c27-ar-twelve",
  [("performance/osu/pp.go", '''		speedValue *= 1.0 + 0.04*(12.0-pp.diff.ARReal)''', '''		speedValue *= 1.0 + 0.04*math.Max(0, 12.0-pp.diff.ARReal)''')],
  "Hidden at a custom speed that raises the approach rate above 12", "the speed value is not lowered",
  '''a := osu.Attributes{Total: 5, Aim: 2.6, SliderFactor: 0.99, Speed: 2.4, ObjectCount: 1500, Circles: 1000, Sliders: 500, MaxCombo: 2100}
for _, s := range []float64{0.5, 1, 1.5, 2, 3} {
	d := difficulty.NewDifficulty(5, 4, 8, 10)
	d.SetMods(difficulty.Hidden | difficulty.DoubleTime)
	d.SetCustomSpeed(s)
	fmt.Printf("%.6g\\n", (&osu.PPv2{}).PPv2x(a, 2100, 1500, 0, 0, 0, d).Results)
}'''),
 seed("c27-negative-od",
  [("performance/osu/pp.go", '''	// It is important to also consider accuracy difficulty when doing that
	aimValue *= 0.98 + math.Pow(pp.diff.ODReal, 2)/2500''', '''	// It is important to also consider accuracy difficulty when doing that
	aimValue *= 0.98 + math.Pow(math.Max(0, pp.diff.ODReal), 2)/2500''')],
  "a map of low overall difficulty under Half Time, so that the displayed one is negative", "the aim value lacks the factor's square",
  '''a := osu.Attributes{Total: 5, Aim: 2.6, SliderFactor: 0.99, Speed: 2.4, ObjectCount: 1500, Circles: 1000, Sliders: 500, MaxCombo: 2100}
for _, od := range []float64{0, 1, 5} {
	d := difficulty.NewDifficulty(5, 4, od, 9)
	d.SetMods(difficulty.HalfTime)
	fmt.Printf("%.6g\\n", (&osu.PPv2{}).PPv2x(a, 2100, 1500, 0, 0, 0, d).Results)
}'''),
 # ---- C31
 seed("c31-fade-in",
  [("performance/osu/pp.go", '''	if pp.diff.Mods.Active(difficulty.Hidden) {
		accuracyValue *= 1.08''', '''	if pp.diff.Mods.Active(difficulty.Hidden | difficulty.FadeIn) {
		accuracyValue *= 1.08''')],
  "a selection including Fade In", "the accuracy value depends on it",
  '''a := osu.Attributes{Total: 5, Aim: 2.6, SliderFactor: 0.99, Speed: 2.4, ObjectCount: 1500, Circles: 1000, Sliders: 500, MaxCombo: 2100}
for _, m := range []difficulty.Modifier{0, difficulty.Hidden, difficulty.FadeIn, difficulty.FadeIn | difficulty.Hidden} {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(m)
	fmt.Printf("%.6g\\n", (&osu.PPv2{}).PPv2x(a, 2100, 1500, 0, 0, 0, d).Results)
}'''),
 seed("c31-random-stack",
  [("beatmap/objects/hitobject.go", '''	case modifier&difficulty.Easy > 0:
		return basePosition.Add(hitObject.StackOffsetEZ)
	}
''', '''	case modifier&difficulty.Easy > 0:
		return basePosition.Add(hitObject.StackOffsetEZ)
	case modifier&(difficulty.Target|difficulty.Cinema) == difficulty.Target|difficulty.Cinema:
		return basePosition // neither shows stacks
	}
''')],
  "Target and Cinema selected together on a map with stacks", "the ratings change",
  '''b := mp(14, "", "", "", "100,100,1000,1,0", "100,100,1100,1,0", "100,100,1200,1,0", "300,100,1300,1,0", "100,200,1400,1,0", "300,200,1500,1,0")
for _, m := range []difficulty.Modifier{0, difficulty.Target, difficulty.Cinema, difficulty.Cinema | difficulty.Target} {
	show(osu.CalculateSingle(b.HitObjects, df(b, m)))
}'''),
]
