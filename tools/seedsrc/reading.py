SEEDS = [
 # ---- C01
 seed("c01-bom-first-read",
  [("files/utf.go", '''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))''',
  '''	head := make([]byte, 3)
	n, _ := r.Read(head)
	head = head[:n]

	all := io.MultiReader(bytes.NewReader(head), r)

	// without a mark there is nothing to decode
	if n < 2 || !(head[0] == 0xFF && head[1] == 0xFE || head[0] == 0xFE && head[1] == 0xFF || n == 3 && head[0] == 0xEF) {
		return all
	}

	return transform.NewReader(all, unicode.BOMOverride(unicode.UTF8.NewDecoder()))'''),
   ("files/utf.go", 'import (\n\t"bufio"', 'import (\n\t"bufio"\n\t"bytes"')],
  "a file with a byte-order mark read through a reader whose first read is shorter than the mark",
  "the byte-order mark is looked for in the first read only, so a reader delivering one byte first yields a different beatmap (or a corrupted file)",
  '''txt := "\\xEF\\xBB\\xBF[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"
for _, r := range []io.Reader{strings.NewReader(txt), iotest.OneByteReader(strings.NewReader(txt)), iotest.HalfReader(strings.NewReader(txt))} {
	b, err := beatmap.ParseFromReader(r)
	fmt.Println(b != nil && b.Title == "t", err)
}''', ["io", "testing/iotest"]),
 seed("c01-unterminated-cr",
  [("files/utf.go", '''	scanner := NewScanner(r)
''', '''	scanner := NewScanner(r)
	scanner.Split(scanLines)
'''), ("files/utf.go", '''func NewScannerBuf(''', '''// scanLines yields the lines without their terminators
func scanLines(data []byte, atEOF bool) (int, []byte, error) {
	if i := bytes.IndexAny(data, "\\r\\n"); i >= 0 {
		if data[i] == '\\r' && i+1 < len(data) && data[i+1] == '\\n' {
			return i + 2, data[:i], nil
		}

		return i + 1, data[:i], nil
	}

	if atEOF && len(data) > 0 && data[len(data)-1] >= ' ' {
		return len(data), data, nil
	}

	if atEOF {
		return len(data), nil, nil
	}

	return 0, nil, nil
}

func NewScannerBuf('''), ("files/utf.go", 'import (\n\t"bufio"', 'import (\n\t"bufio"\n\t"bytes"')],
  "a last line that is not terminated and ends in a tab or other control character",
  "such an unterminated last line is dropped",
  '''for _, end := range []string{"", "\\t", "\\t\\n", " \\t \\r\\n"} {
	b, err := beatmap.ParseFromByte([]byte("[TimingPoints]\\n0,500\\n[Metadata]\\nTitle: t" + end))
	fmt.Println(b != nil && b.Title == "t", err)
}'''),
 seed("c01-utf16-be-odd",
  [("files/utf.go", '''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))''',
  '''	br := bufio.NewReader(r)

	if head, _ := br.Peek(2); len(head) == 2 && head[0] == 0xFE && head[1] == 0xFF {
		return transform.NewReader(br, unicode.UTF16(unicode.BigEndian, unicode.ExpectBOM).NewDecoder())
	} else if len(head) == 2 && head[0] == 0xFF && head[1] == 0xFE {
		return transform.NewReader(br, unicode.UTF16(unicode.LittleEndian, unicode.ExpectBOM).NewDecoder())
	} else if len(head) == 2 && head[0] == 0xEF {
		br.Discard(3)
	}

	return br''')],
  "a UTF-8 file whose first character is not a mark but starts with the byte EF", 
  "the first character is swallowed, changing the first line",
  '''for _, t := range []string{"\\uFF3B\\n", "\\uFEFF", "\\uFEFF\\uFEFF", "\\uFB01x\\n[", ""} {
	b, err := beatmap.ParseFromByte([]byte(t + "[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"))
	fmt.Println(b != nil && b.Title == "t", err)
	b, err = beatmap.ParseFromByte([]byte("\\uFB01[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"))
	fmt.Println(b != nil && b.Title == "t", err)
}'''),
 # ---- C02
 seed("c02-unexpected-eof",
  [("files/utf.go", '''	return bufio.NewScanner(NewUnicodeReader(r))
}''', '''	return bufio.NewScanner(NewUnicodeReader(&compressedReader{r}))
}

// compressedReader treats a stream that is cut short like one that ends
type compressedReader struct {
	io.Reader
}

func (c *compressedReader) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}

	return n, err
}''')],
  "a reader failing with io.ErrUnexpectedEOF, as a truncated archive does", "the truncated beatmap is returned without an error",
  '''txt := "[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"
for _, e := range []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe} {
	b, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader(txt), iotest.ErrReader(e)))
	fmt.Println(b != nil, err)
}''', ["io", "testing/iotest"]),
 seed("c02-data-with-error",
  [("files/utf.go", '''	return bufio.NewScanner(NewUnicodeReader(r))
}''', '''	return bufio.NewScanner(NewUnicodeReader(&sizedReader{r}))
}

// sizedReader never passes on an error together with data
type sizedReader struct {
	io.Reader
}

func (s *sizedReader) Read(p []byte) (int, error) {
	n, err := s.Reader.Read(p)
	if n > 0 {
		return n, nil
	}

	return n, err
}''')],
  "a reader that reports its error once, together with the last data, and end-of-file afterwards", "the error is swallowed and the truncated beatmap returned",
  '''b, err := beatmap.ParseFromReader(&once{data: "[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n"})
fmt.Println(b != nil, err)''', ["errors", "io"], decls='''
type once struct {
	data string
	done bool
}

func (o *once) Read(p []byte) (int, error) {
	if o.done {
		return 0, io.EOF
	}
	o.done = true
	return copy(p, o.data), errors.New("broken pipe")
}
'''),
 seed("c02-long-line-cut",
  [("files/utf.go", '''	scanner.Buffer(buf, cap(buf))
''', '''	scanner.Buffer(buf, cap(buf))

	long := false

	scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		advance, token, err := bufio.ScanLines(data, atEOF)

		if advance == 0 && !atEOF && len(data) == bufSize {
			long = true // does not fit, hand out what there is
			return len(data), data, err
		}

		if long && advance > 0 {
			long = false
			return advance, nil, err
		}

		return advance, token, err
	})
''')],
  "a line longer than the 10 MiB limit", "the overlong line is cut and its rest dropped instead of parsing failing",
  '''b, err := beatmap.ParseFromByte([]byte("[TimingPoints]\\n0,500\\n[Metadata]\\nTitle:t\\nTags:" + strings.Repeat("a", 11*1024*1024) + "\\nArtist:x\\n"))
fmt.Println(b != nil, err)
b, err = beatmap.ParseFromByte([]byte("[TimingPoints]\\n0,500\\n[Metadata]\\nTitle:t\\nTags:" + strings.Repeat("a", 9*1024*1024) + "\\nArtist:x\\n"))
fmt.Println(b != nil, err)'''),
 seed("c02-stop-after-objects",
  [("beatmap/parser.go", '''		if section != "" {
			currentSection = section''', '''		if section != "" {
			if currentSection == "HitObjects" && len(beatMap.HitObjects) > 0 && counter > 0 && beatMap.Title != "" {
				break // everything needed has been read
			}

			currentSection = section''')],
  "a read failure after a section that follows the hit objects", "the rest of the file is never read, so its failure is not reported (and what follows is ignored)",
  '''txt := "[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n1,1,1,1,0\\n[Extra]\\n" + strings.Repeat("x\\n", 10000)
b, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader(txt), iotest.ErrReader(io.ErrClosedPipe)))
fmt.Println(b != nil, err)''', ["io", "testing/iotest"]),
 # ---- C03
 seed("c03-section-bracket",
  [("beatmap/parser.go", '''		return strings.TrimRight(strings.TrimLeft(line, "["), "]")''', '''		return line[1:strings.Index(line+" ", "]")]''')],
  "a section header without its closing bracket", "parsing panics",
  '''b, err := beatmap.ParseFromByte([]byte("[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500\\n[HitObj"))
fmt.Println(b != nil, err)'''),
 seed("c03-creator-only",
  [("beatmap/parser.go", '''	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {''', '''	if beatMap.Title == "" && beatMap.Artist == "" || counter == 0 {''')],
  "a beatmap naming its creator but neither title nor artist", "it is rejected as corrupted",
  '''for _, k := range []string{"Title", "Artist", "Creator", "Source"} {
	b, err := beatmap.ParseFromByte([]byte("[Metadata]\\n" + k + ":t\\n[TimingPoints]\\n0,500\\n"))
	fmt.Println(k, b != nil, err)
}'''),
 seed("c03-comment-point",
  [("beatmap/parser.go", '''			if arr := tokenize(line, ","); len(arr) > 1 {
				beatMap.ParsePoint(line)
				counter++
			}''', '''			if arr := tokenize(line, ","); len(arr) > 1 {
				beatMap.ParsePoint(line)
			}

			if line != "" {
				counter++
			}''')],
  "a timing section holding only a comment or a line that is not a point", "a beatmap without any timing point is accepted",
  '''for _, l := range []string{"", "//0,500", "500", "0,500"} {
	b, err := beatmap.ParseFromByte([]byte("[Metadata]\\nTitle:t\\n[TimingPoints]\\n" + l + "\\n"))
	fmt.Println(b != nil, err)
}'''),
 # ---- C04
 seed("c04-title-colon",
  [("beatmap/parser.go", '''			if arr := tokenizeN(line, ":", 2); len(arr) > 1 {
				parseMetadata(arr, beatMap)''', '''			if arr := tokenize(line, ":"); len(arr) > 1 {
				parseMetadata(arr, beatMap)''')],
  "a metadata value that contains a colon", "the value is cut at its first colon",
  '''b, _ := beatmap.ParseFromByte([]byte("[Metadata]\\nTitle: a : b:c\\nTags:::\\n[TimingPoints]\\n0,500\\n"))
fmt.Printf("%q %q\\n", b.Title, b.Tags)'''),
 seed("c04-known-sections",
  [("beatmap/parser.go", '''		if section != "" {
			currentSection = section
			continue
		}
''', '''		if section != "" {
			switch section {
			case "General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects":
				currentSection = section
			}

			continue
		}
''')],
  "a section the parser does not know, following a known one and containing lines that look like its keys", "keys of the unknown section are taken for keys of the section before it",
  '''b, _ := beatmap.ParseFromByte([]byte("[TimingPoints]\\n0,500\\n[Metadata]\\nTitle:t\\n[Other]\\nTitle:u\\nArtist:v\\n[Fonts]\\n"))
fmt.Println(b.Title, b.Artist)'''),
 seed("c04-setid-octal",
  [("beatmap/parser.go", '''		beatMap.SetID, _ = strconv.ParseInt(line[1], 10, 64)''', '''		beatMap.SetID, _ = strconv.ParseInt(line[1], 0, 64)''')],
  "a beatmap set id written with leading zeros", "the id is read as an octal number",
  '''for _, v := range []string{"12", "0012", "-1", "x", "0x10"} {
	b, _ := beatmap.ParseFromByte([]byte("[TimingPoints]\\n0,500\\n[Metadata]\\nTitle:t\\nBeatmapSetID:" + v + "\\nBeatmapID:" + v + "\\n"))
	fmt.Println(b.SetID, b.MapID)
}'''),
 seed("c04-bg-first",
  [("beatmap/parser.go", '''		beatMap.Bg = strings.Replace(line[2], "\\"", "", -1)''', '''		if bg := strings.Replace(line[2], "\\"", "", -1); beatMap.Bg == "" || bg != "" {
			beatMap.Bg = bg
		}''')],
  "two background lines, the later one naming no file", "the last background line does not win",
  '''b, _ := beatmap.ParseFromByte([]byte("[TimingPoints]\\n0,500\\n[Metadata]\\nTitle:t\\n[Events]\\n0,0,\\"a.png\\",0,0\\n0,0,\\"\\",0,0\\n"))
fmt.Printf("%q\\n", b.Bg)'''),
 # ---- C05
 seed("c05-ar-zero",
  [("beatmap/parser.go", '''		beatMap.arSpecified = true''', '''		beatMap.arSpecified = parsed > 0''')],
  "a declared approach rate of 0 (or less) followed by the overall difficulty", "the approach rate is overwritten by the overall difficulty",
  '''b, _ := beatmap.ParseFromByte([]byte("[TimingPoints]\\n0,500\\n[Metadata]\\nTitle:t\\n[Difficulty]\\nApproachRate:0\\nOverallDifficulty:7\\n"))
fmt.Println(b.Difficulty.GetAR(), b.Difficulty.GetOD())'''),
 seed("c05-od-unclamped",
  [("beatmap/parser.go", '''			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())''', '''			beatMap.Difficulty.SetAR(parsed)''')],
  "no declared approach rate and an overall difficulty outside 0..10", "the approach rate escapes its limits",
  '''for _, v := range []string{"8", "11", "-2"} {
	b, _ := beatmap.ParseFromByte([]byte("[TimingPoints]\\n0,500\\n[Metadata]\\nTitle:t\\n[Difficulty]\\nOverallDifficulty:" + v + "\\n"))
	fmt.Println(b.Difficulty.GetAR(), b.Difficulty.GetOD())
}'''),
 seed("c05-od-twice",
  [("beatmap/parser.go", '''			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
		}''', '''			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
			beatMap.arSpecified = true
		}''')],
  "two overall difficulty lines and no approach rate", "the approach rate stays that of the first overall difficulty",
  '''b, _ := beatmap.ParseFromByte([]byte("[TimingPoints]\\n0,500\\n[Metadata]\\nTitle:t\\n[Difficulty]\\nOverallDifficulty:3\\nOverallDifficulty:7\\n"))
fmt.Println(b.Difficulty.GetAR(), b.Difficulty.GetOD())'''),
 # ---- C06
 seed("c06-unstable",
  [("beatmap/parser.go", '''	sort.SliceStable(beatMap.HitObjects,''', '''	sort.Slice(beatMap.HitObjects,''')],
  "more than a dozen objects, several of them at the same time and out of order", "objects at equal times change places",
  '''var l []string
for i := 0; i < 60; i++ {
	l = append(l, fmt.Sprintf("%d,%d,%d,1,0", i, i, 1000-100*(i%5)))
}
objs(mp(14, "", "", "", l...))'''),
 seed("c06-edge-zero",
  [("beatmap/objects/slider.go", '''			slider.sounds[i] = audio.HitSound(sound)''', '''			if sound != 0 {
				slider.sounds[i] = audio.HitSound(sound)
			}''')],
  "a slider with a non-zero base sound and an edge whose own sound is 0", "the edge plays the base sound",
  '''objs(mp(14, "", "", "", "100,100,1000,2,8,L|200:100,2,100,2|0|4"))'''),
 seed("c06-colour-bits",
  [("beatmap/objects/baseobject.go", '''		ColorOffset: (objType >> 4) & 7,''', '''		ColorOffset: (objType >> 4) & 7 % 4,''')],
  "a colour offset of four or more", "the offset loses its highest bit",
  '''objs(mp(14, "", "", "", "100,100,1000,85,8", "100,100,2000,53,8"))'''),
 seed("c06-type-order",
  [("beatmap/objects/util.go", '''	if (objType & CIRCLE) > 0 {
		return NewCircle(data)
	} else if (objType & SPINNER) > 0 {
		return NewSpinner(data)
	} else if''', '''	if (objType & CIRCLE) > 0 {
		return NewCircle(data)
	} else if (objType&(SPINNER|SLIDER)) == SPINNER {
		return NewSpinner(data)
	} else if''')],
  "a line whose type has both the spinner and the slider flag and enough fields for a slider", "it becomes a slider instead of a spinner",
  '''objs(mp(14, "", "", "", "100,100,1000,10,8,2000,1,100"))'''),
 # ---- C07
 seed("c07-hax-forced",
  [("beatmap/parser.go", '''			comboSetHax += int(iO.GetColorOffset()) + 1
''', '''			comboSetHax++

			if !forceNewCombo {
				comboSetHax += iO.GetColorOffset()
			}
''')],
  "an object with a colour offset right after a spinner", "its colour offset is ignored",
  '''objs(mp(14, "", "", "", "1,1,0,5,0", "1,1,1000,12,0,2000", "1,1,3000,37,0", "1,1,4000,37,0"))'''),
 seed("c07-spinner-number",
  [("beatmap/parser.go", '''		comboNumber++
		num++''', '''		if !forceNewCombo {
			comboNumber++
		}

		num++''')],
  "several spinners in a row", "spinners after the first keep the combo number",
  '''objs(mp(14, "", "", "", "1,1,0,5,0", "1,1,500,1,0", "1,1,1000,12,0,2000", "1,1,2100,12,0,2500", "1,1,3000,37,0", "1,1,4000,37,0"))'''),
 seed("c07-file-order",
  [("beatmap/parser.go", '''			forceNewCombo = true
		} else''', '''			forceNewCombo = forceNewCombo || num > 0
		} else''')],
  "a beatmap that begins with a spinner", "the first object after an opening spinner does not start a combo",
  '''objs(mp(14, "", "", "", "1,1,1000,8,0,2000", "1,1,2100,1,0", "1,1,3000,1,0"))'''),
 # ---- C08
 seed("c08-unstable",
  [("beatmap/timing/timing.go", '''	sort.SliceStable(tim.points,''', '''	sort.Slice(tim.points,''')],
  "more than a dozen timing points with ties, not in time order", "points at equal times change places, so another one is active",
  '''var l []string
for i := 0; i < 60; i++ {
	l = append(l, fmt.Sprintf("%d,%d,4,2,1,60,1,0", 1000-100*(i%5), 300+i))
}
b := mp(14, "", "", strings.Join(l, "\\n"))
for t := 500.0; t < 1200; t += 50 {
	fmt.Println(b.Timings.GetPointAt(t).GetBeatLength())
}'''),
 seed("c08-inherited-chain",
  [("beatmap/timing/timing.go", '''			point.beatLengthBase = lastPoint.beatLengthBase
''', '''			point.beatLengthBase = lastPoint.beatLength

			if lastPoint.Inherited && lastPoint.beatLength < 0 {
				point.beatLengthBase = lastPoint.beatLengthBase
			}
''')],
  "an inherited point after an inherited point whose own beat length is not negative", "it takes that point's own beat length as its base",
  '''b := mp(14, "", "", "0,500,4,2,1,60,1,0\\n100,-50,4,2,1,60,0,0\\n200,0,4,2,1,60,0,0\\n300,-200,4,2,1,60,0,0")
for t := 0.0; t < 400; t += 50 {
	p := b.Timings.GetPointAt(t)
	fmt.Println(p.GetBeatLength(), p.GetBaseBeatLength(), p.GetRatio())
}'''),
 seed("c08-original-exact",
  [("beatmap/timing/timing.go", '''		return time < tim.originalPoints[i].Time
''', '''		return time <= tim.originalPoints[i].Time
''')],
  "asking for the uninherited point at exactly the time of one", "the point before it is returned",
  '''b := mp(14, "", "", "0,500,4,2,1,60,1,0\\n1000,400,4,2,1,60,1,0")
for _, t := range []float64{-1, 0, 999, 1000, 1001} {
	fmt.Println(b.Timings.GetOriginalPointAt(t).GetBeatLength(), b.Timings.GetPointAt(t).GetBeatLength())
}'''),
 seed("c08-ratio-slow",
  [("beatmap/timing/timing.go", '''mutils.ClampF64(-t.beatLength, 10, 1000)''', '''mutils.ClampF64(-t.beatLength, 10, 10000)''')],
  "an inherited point asking for less than a tenth of the slider speed", "the speed is not limited to a tenth",
  '''b := mp(14, "", "", "0,500,4,2,1,60,1,0\\n1000,-1500,4,2,1,60,0,0")
fmt.Println(b.Timings.GetPointAt(1000).GetRatio(), b.Timings.GetPointAt(1000).GetBeatLength())'''),
]
