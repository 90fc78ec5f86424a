package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"strings"
	"syscall"
	"unicode/utf16"

	"golang.org/x/text/transform"

	"crypto/sha256"
	"encoding/hex"

	"github.com/Wieku/gosu-pp/beatmap"
)

type piece struct {
	n   int
	end string // ok, eof, fail
}

// source delivers data as planned; whatever the parser's buffer does not hold is delivered next time.
type source struct {
	data    []byte
	pos     int
	plan    []piece
	err     error
	log     func(n int, end string)
	ended   error
	once    bool // report the failure once and end-of-file from then on
	resumes bool // report the failure once and the rest of the data from then on
}

func (s *source) Read(p []byte) (int, error) {
	if s.ended != nil {
		s.log(0, "ok")
		return 0, s.ended
	}
	if len(s.plan) == 0 {
		s.plan = []piece{{len(s.data) - s.pos, "ok"}, {0, "eof"}}
	}
	pc := &s.plan[0]
	n := pc.n
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
	}
	whole := true
	if n > len(p) {
		n, whole = len(p), false
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if !whole {
		pc.n -= n
		s.log(n, "ok")
		return n, nil
	}
	end := pc.end
	s.plan = s.plan[1:]
	if end == "eof" && s.pos < len(s.data) {
		end = "ok"
	}
	switch end {
	case "eof":
		s.ended = io.EOF
	case "fail":
		s.ended = s.err
	}
	s.log(n, end)
	err := s.ended
	if s.once && end == "fail" {
		s.ended = io.EOF
	}
	if s.resumes && end == "fail" { // whoever reads on gets the rest
		s.ended = nil
	}
	return n, err
}

func encode(text, enc string) []byte {
	switch enc {
	case "utf8":
		return []byte(text)
	case "utf8bom":
		return append([]byte{0xef, 0xbb, 0xbf}, text...)
	}
	var b []byte
	put := func(u uint16) {
		if enc == "utf16le" {
			b = append(b, byte(u), byte(u>>8))
		} else {
			b = append(b, byte(u>>8), byte(u))
		}
	}
	put(0xfeff)
	for _, u := range utf16.Encode([]rune(text)) {
		put(u)
	}
	return b
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func maxline(b string) int {
	m := 0
	for _, l := range strings.Split(b, "\n") {
		if len(l) > m {
			m = len(l)
		}
	}
	return m
}

// parseFrom parses data as planned (nil plan: as bytes) and records reads and result.
func (r *Run) parseFrom(c *Case, name, text string, data []byte, plan []piece, fail error, valid, small bool, note string) {
	via := "reader"
	if plan == nil {
		via = "bytes"
	}
	open := M{"op": "open", "via": via, "size": len(data), "maxline": maxline(text), "name": name, "valid": valid, "bytes": []int{}}
	if small {
		open["bytes"] = ints(data)
	}
	c.add(open)
	var b *beatmap.BeatMap
	var err error
	if plan == nil {
		b, err = beatmap.ParseFromByte(data)
	} else {
		run, runN := 0, 0 // aggregate long runs of plain reads of large sources
		flush := func() {
			if runN > 0 {
				c.add(M{"op": "read", "n": run, "end": "ok"})
			}
			run, runN = 0, 0
		}
		s := &source{data: data, plan: append([]piece{}, plan...), err: fail, once: strings.HasSuffix(note, " once"), resumes: strings.HasSuffix(note, " resumes")}
		s.log = func(n int, end string) {
			if end == "ok" && (!small || len(data) > 300) {
				run += n
				runN++
				return
			}
			flush()
			c.add(M{"op": "read", "n": n, "end": end})
		}
		b, err = beatmap.ParseFromReader(s)
		flush()
	}
	h := sha256.Sum256([]byte(digest(b, err)))
	res := M{"op": "result", "err": err != nil, "nil": b == nil, "digest": hex.EncodeToString(h[:8]), "title": "", "note": note}
	if b != nil {
		res["title"] = b.Title
	}
	c.add(res)
}

func step(total, n int, end string) []piece {
	var p []piece
	for i := 0; i < total; i += n {
		p = append(p, piece{n, "ok"})
	}
	if end == "eofdata" && len(p) > 0 {
		p[len(p)-1].end = "eof"
	} else {
		p = append(p, piece{0, "eof"})
	}
	return p
}

var readerTexts = []string{
	"osu file format v14\n[Metadata]\nTitle:日本 é😀x\n[TimingPoints]\n0,500\n[HitObjects]\n1,2,3,1,0\n5,6,70,5,2",
	"osu file format v5\n\n[General]\nStackLeniency: 0.3\n[Metadata]\nTitle:añ€\nCreator:😀\n[Difficulty]\nSliderMultiplier:1.4\nSliderTickRate:2\nApproachRate:7\n[TimingPoints]\n0,500,4,2,1,60,1,0\n[HitObjects]\n10,20,300,2,0,B|50:60|90:10,2,120\n5,6,700,12,0,900\n\n",
	"[Metadata]\nTitle:t\n[TimingPoints]\n0,500",
	"[Metadata]\nTitle:only\n",
	"",
	"\n\n[TimingPoints]\n0,500\n[Metadata]\nArtist:ß\nTitle:\u00a0 é \u3000\n[Events]\n2,1,2\n[HitObjects]\n9,9,9,1,0\n",
}

func init() {
	encs := []string{"utf8", "utf8bom", "utf16le", "utf16be"}
	errs := []error{errors.New("disk on fire"), io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("read: %w", errors.New("timeout")), io.ErrNoProgress, io.ErrShortBuffer,
		os.ErrDeadlineExceeded, context.DeadlineExceeded, context.Canceled, syscall.EINTR, syscall.ETIMEDOUT, syscall.ECONNRESET, os.ErrClosed,
		fmt.Errorf("connection lost: %w", io.EOF), fmt.Errorf("archive: %w", io.ErrUnexpectedEOF), errors.New("EOF"), &fs.PathError{Op: "read", Path: "x.osu", Err: syscall.EIO},
		&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}, &net.DNSError{IsTimeout: true, IsTemporary: true}, bufio.ErrTooLong, bufio.ErrFinalToken, transform.ErrShortSrc, transform.ErrShortDst, transform.ErrEndOfSpan}

	forms := func(text string, f func(name string, text string, data []byte)) {
		for _, enc := range encs {
			for _, crlf := range []bool{false, true} {
				for _, term := range []bool{false, true} {
					t := text
					if term && t != "" && !strings.HasSuffix(t, "\n") {
						t += "\n"
					}
					if crlf {
						t = strings.ReplaceAll(t, "\n", "\r\n")
					}
					f(fmt.Sprintf("%s crlf=%v term=%v", enc, crlf, term), t, encode(t, enc))
				}
			}
		}
	}
	randText := func(r *Run) string {
		ls := r.randomFile(0, objOpt{kinds: "ccssp", extras: true})
		return strings.Join(append(ls, "[Metadata]", "Artist:q"+r.word(), "[TimingPoints]", "0,500,4,1,1,70,1,0"), "\n")
	}
	bigText := func(r *Run, shift int) string {
		var b strings.Builder
		b.WriteString("osu file format v14\n[Metadata]\nTitle:日本\nTags:" + strings.Repeat("x", shift) + "\nSource:" + strings.Repeat("é😀", 700) + "\n[Difficulty]\nSliderMultiplier:1.4\nSliderTickRate:1\n[TimingPoints]\n0,500\n[Foo]\n")
		b.WriteString(strings.Repeat("日本語", 1300) + "\n[HitObjects]\n")
		for i := 0; i < 150; i++ {
			b.WriteString(fmt.Sprintf("%d,%d,%d,1,0\n", r.i(0, 512), r.i(0, 384), i*100))
		}
		return b.String()
	}

	suites["reader"] = func(r *Run) { // C01
		var plans [][][2]interface{}
		r.behaviours(&plans)
		texts := append([]string{}, readerTexts...)
		for k := 0; k < r.n(12, 25); k++ {
			texts = append(texts, randText(r))
		}
		// files that begin or end oddly: what looks like half a mark first, odd characters in an unterminated last line
		starts := []string{"\uff3b", "\ufb01", "\ufefe", "\ufeff", "\ufeff\ufeff", "\u00ef", "\u00ff\u00fe", "\u0feff", "\x00", " ", "\t"}
		ends := []string{"\t", " ", "\x00", "\x0b", "\x0c", "\x1a", "\x7f", "\u0085", "\u00a0", "\u3000", "\u200b", "\ufeff", "\r", "\r\r", "\x01"}
		for i := 0; i < r.n(36, 60); i++ {
			s, e := starts[i%len(starts)], ends[(i+r.rng.Intn(2))%len(ends)]
			texts = append(texts, s+r.pick("[Metadata]", "osu file format v7")+"\nArtist:a\n[TimingPoints]\n0,500\n[Metadata]\nTitle:q"+e)
		}
		// odd characters inside lines, where a split could take them for line ends
		for i, e := range append([]string{"\u2028", "\u2029", "\r\t", "\x1e", "\x00\r"}, ends...) {
			if r.thorough || i%2 == r.rng.Intn(2) || strings.Contains(e, "\r") {
				texts = append(texts, "[Metadata]\nArtist:a"+e+"Creator:b\nTags:x"+e+e+"Creator:y"+e+"\n[TimingPoints]\n0,"+e+"500\n[Metadata]\nTitle:q"+e+"Title:r\n")
			}
		}
		for ti, text := range texts {
			valid := ti == 0 || ti == 1 || ti == 2 || ti == 5
			small := len(text) < 900
			r.do(fmt.Sprintf("text%d", ti), nil, func(c *Case) {
				c.Note = text
				name := fmt.Sprint("t", ti)
				r.parseFrom(c, name, text, []byte(text), nil, nil, valid, small, "plain bytes")
				forms(text, func(form, t string, data []byte) {
					r.parseFrom(c, name, t, data, nil, nil, valid, small, form)
					r.parseFrom(c, name, t, data, []piece{{len(data), "ok"}, {0, "eof"}}, nil, valid, small, form+" whole")
					r.parseFrom(c, name, t, data, []piece{{len(data), "eof"}}, nil, valid, small, form+" whole with eof")
					for _, n := range []int{1, 2, 3, 7} {
						if n > 1 && !r.chance(0.5) {
							continue
						}
						r.parseFrom(c, name, t, data, step(len(data), n, r.pick("eof", "eofdata")), nil, valid, small, fmt.Sprint(form, " by ", n))
					}
					var p []piece // random sizes with empty reads
					for got := 0; got < len(data); {
						n := r.pick2(0, 1, 2, 5, 40, 0)
						p = append(p, piece{n, "ok"})
						got += n
					}
					r.parseFrom(c, name, t, data, append(p, piece{0, "eof"}), nil, valid, small, form+" random")
				})
			})
		}
		// TLC's schedules over a window at critical places: after the start, around each non-ASCII character and line end, at the end
		for ti, text := range readerTexts[:r.n(2, 3)] {
			for _, enc := range encs {
				data := encode(text, enc)
				r.do(fmt.Sprintf("window%d-%s", ti, enc), nil, func(c *Case) {
					name := fmt.Sprint("w", ti)
					r.parseFrom(c, name, text, []byte(text), nil, nil, true, true, "plain bytes")
					places := []int{0, 1, 2, len(data) - 4, len(data) - 5}
					for k := 0; k < r.n(8, 25); k++ {
						places = append(places, r.rng.Intn(len(data)-4))
					}
					for _, at := range places {
						for _, pl := range plans {
							if !r.thorough && at > 2 && at < len(data)-5 && !r.chance(0.3) {
								continue
							}
							p := []piece{}
							if at > 0 {
								p = append(p, piece{at, "ok"})
							}
							fails := false
							for _, s := range pl {
								n, end := int(s[0].(float64)), s[1].(string)
								fails = fails || end == "fail"
								p = append(p, piece{n, end})
							}
							if fails {
								continue
							}
							if at+4 < len(data) {
								p[len(p)-1].end = "ok"
							}
							r.parseFrom(c, name, text, data, p, nil, true, true, fmt.Sprint(enc, " at ", at, " ", pl))
						}
					}
				})
			}
		}
		// large sources: characters straddling internal buffers
		for k := 0; k < r.n(12, 40); k++ {
			text := bigText(r, r.rng.Intn(64))
			r.do(fmt.Sprintf("big%d", k), nil, func(c *Case) {
				name := "big"
				r.parseFrom(c, name, text, []byte(text), nil, nil, true, false, "plain bytes")
				forms(text, func(form, t string, data []byte) {
					r.parseFrom(c, name, t, data, nil, nil, true, false, form)
					n := r.pick2(1, 2, 3, 1000, 4095, 4096, 4097, 5000)
					r.parseFrom(c, name, t, data, step(len(data), n, r.pick("eof", "eofdata")), nil, true, false, fmt.Sprint(form, " by ", n))
				})
			})
		}
	}

	suites["faults"] = func(r *Run) { // C02
		var plans [][][2]interface{}
		r.behaviours(&plans)
		for ti, text := range readerTexts[:r.n(3, 3)] {
			for ei, enc := range encs {
				if !r.thorough && ei > 0 && ti != 0 {
					continue
				}
				data := encode(text, enc)
				// a read failing at every byte, alone or with the data before it
				r.do(fmt.Sprintf("every%d-%s", ti, enc), nil, func(c *Case) {
					for at := 0; at <= len(data); at++ {
						e := errs[r.rng.Intn(len(errs))]
						r.parseFrom(c, "f", text, data, []piece{{at, "fail"}}, e, true, true, fmt.Sprint(enc, " fails with data at ", at))
						r.parseFrom(c, "f", text, data, []piece{{at, "ok"}, {0, "fail"}}, e, true, true, fmt.Sprint(enc, " fails at ", at))
						r.parseFrom(c, "f", text, data, []piece{{at, "fail"}}, e, true, true, fmt.Sprint(enc, " fails with data at ", at, " once"))
						r.parseFrom(c, "f", text, data, []piece{{at, "ok"}, {0, "fail"}}, e, true, true, fmt.Sprint(enc, " fails at ", at, " once"))
						r.parseFrom(c, "f", text, data, []piece{{at, r.pick("ok", "fail")}, {0, "fail"}}, e, true, true, fmt.Sprint(enc, " fails at ", at, " resumes"))
						if r.chance(0.2) {
							p := append(step(at, r.pick2(1, 2, 3), ""), piece{0, "fail"})
							p[len(p)-2].end = "ok"
							p = append(p[:len(p)-2], piece{0, "fail"})
							r.parseFrom(c, "f", text, data[:], p, e, true, true, fmt.Sprint(enc, " small reads, fails near ", at))
						}
					}
					r.parseFrom(c, "f", text, data, []piece{{len(data), "eof"}}, nil, true, true, "no fault")
					r.parseFrom(c, "f", text, data, step(len(data), 1, "eof"), nil, true, true, "no fault")
				})
			}
		}
		for ti, text := range readerTexts[:2] {
			data := []byte(text)
			r.do(fmt.Sprintf("window%d", ti), nil, func(c *Case) {
				for _, at := range []int{0, r.rng.Intn(len(data) - 4), r.rng.Intn(len(data) - 4), len(data) - 4} {
					for _, pl := range plans {
						p := []piece{{at, "ok"}}
						for _, s := range pl {
							p = append(p, piece{int(s[0].(float64)), s[1].(string)})
						}
						if p[len(p)-1].end == "eof" && at+4 < len(data) {
							p[len(p)-1].end = "ok"
						}
						r.parseFrom(c, "f", text, data, p, errs[r.rng.Intn(len(errs))], true, true, fmt.Sprint("at ", at, " ", pl))
					}
				}
			})
		}
		for k := 0; k < r.n(40, 150); k++ {
			text := randText(r)
			data := encode(text, encs[r.rng.Intn(4)])
			r.do(fmt.Sprintf("rand%d", k), nil, func(c *Case) {
				c.Note = text
				for j := 0; j < 10; j++ {
					at := r.rng.Intn(len(data) + 1)
					r.parseFrom(c, "f", text, data, []piece{{at, r.pick("ok", "fail")}, {0, "fail"}}, errs[r.rng.Intn(len(errs))], true, false, fmt.Sprint("fails at ", at, r.pick("", " once", " resumes")))
				}
				r.parseFrom(c, "f", text, data, []piece{{len(data), "eof"}}, nil, true, false, "no fault")
			})
		}
		// large files whose sections come in any order, failing anywhere, after the last object too
		for k := 0; k < r.n(24, 80); k++ {
			var parts []string
			parts = append(parts, "[Metadata]\nTitle:t\nCreator:c\n", "[TimingPoints]\n0,500\n")
			for j := 0; j < r.i(1, 3); j++ {
				obj := "[HitObjects]\n"
				for i := 0; i < r.pick2(0, 1, 5, 300); i++ {
					obj += fmt.Sprintf("%d,%d,%d,1,0\n", r.i(0, 512), r.i(0, 384), i*100)
				}
				parts = append(parts, obj)
			}
			for j := 0; j < r.i(1, 3); j++ {
				parts = append(parts, "["+r.pick("Colours", "Events", "Foo", "Editor", "General", "Fonts")+"]\n"+strings.Repeat(r.pick("x\n", "Combo1:1,2,3\n", "\n", "// comment\n"), r.pick2(1, 100, 3000)))
			}
			if r.chance(0.5) { // the objects before everything else but the section that follows them
				r.rng.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
			}
			text := strings.Join(parts, "")
			data := encode(text, encs[r.rng.Intn(4)])
			r.do(fmt.Sprintf("sections%d", k), nil, func(c *Case) {
				at := len(data)
				for j := 0; j < 12; j++ {
					r.parseFrom(c, "s", text, data, []piece{{at, r.pick("ok", "fail")}, {0, "fail"}}, errs[r.rng.Intn(len(errs))], true, false, fmt.Sprint("fails at ", at, r.pick("", " once", " resumes")))
					at = r.rng.Intn(len(data) + 1)
					if r.chance(0.4) {
						at = len(data) - r.rng.Intn(6000)
						if at < 0 {
							at = 0
						}
					}
				}
				r.parseFrom(c, "s", text, data, []piece{{len(data), "eof"}}, nil, true, false, "no fault")
			})
		}
		// over-long lines in several places, and lines just short enough
		const limit = 10 * 1024 * 1024
		for i, n := range []int{limit - 1000, limit + 1000, limit + 1, 2 * limit, limit / 2} {
			for j, where := range []string{"start", "tags", "unknown", "end"} {
				if !r.thorough && (i > 1 && j != i%4) {
					continue
				}
				long := strings.Repeat("x", n)
				text := ""
				head, tail := "[Metadata]\nTitle:t\n", "[TimingPoints]\n0,500\n"
				switch where {
				case "start":
					text = long + "\n" + head + tail
				case "tags":
					text = head + "Tags:" + long + "\n" + tail
				case "unknown":
					text = head + tail + "[Foo]\n" + long + "\n[HitObjects]\n1,2,3,1,0"
				case "end":
					text = head + tail + long
				}
				r.do(fmt.Sprintf("long%d-%s", i, where), nil, func(c *Case) {
					r.parseFrom(c, "l", text, []byte(text), nil, nil, true, false, "")
					r.parseFrom(c, "l", text, []byte(text), []piece{{len(text), "eof"}}, nil, true, false, "")
				})
			}
		}
	}
}
