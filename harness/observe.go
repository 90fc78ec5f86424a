package main

import (
	"encoding/json"
	"strconv"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
)

func kindOf(o objects.IHitObject) string {
	switch o.GetType() {
	case objects.CIRCLE:
		return "circle"
	case objects.SLIDER:
		return "slider"
	case objects.SPINNER:
		return "spinner"
	}
	return "other"
}

func baseOf(o objects.IHitObject) *objects.HitObject {
	switch v := o.(type) {
	case *objects.Circle:
		return v.HitObject
	case *objects.Slider:
		return v.HitObject
	case *objects.Spinner:
		return v.HitObject
	}
	return nil
}

func V(v vector.Vector2f) [2][2]int32 { return [2][2]int32{F(float64(v.X)), F(float64(v.Y))} }

func itoa(i int64) string { return strconv.FormatInt(i, 10) }

func soundsOf(o objects.IHitObject) []int {
	r := []int{}
	for _, s := range o.GetSounds() {
		r = append(r, int(s))
	}
	return r
}

func observeMap(b *beatmap.BeatMap, err error) M {
	m := M{"err": err != nil, "nil": b == nil}
	if b == nil {
		return m
	}
	pauses := L{}
	for _, p := range b.Pauses {
		pauses = append(pauses, L{F(p.GetStartTime()), F(p.GetEndTime()), F(p.Length())})
	}
	objs := L{}
	for _, o := range b.HitObjects {
		h := baseOf(o)
		slides := 0
		if s, ok := o.(*objects.Slider); ok {
			slides = int(s.RepeatCount)
		}
		objs = append(objs, M{"kind": kindOf(o), "pos": V(o.GetStartPosition()), "time": F(o.GetStartTime()), "end": F(o.GetEndTime()),
			"nc": o.IsNewCombo(), "offset": o.GetColorOffset(), "id": int(o.GetID()), "number": h.ComboNumber, "set": o.GetComboSet(),
			"colour": o.GetComboSetHax(), "sounds": soundsOf(o), "slides": slides})
	}
	for k, v := range (M{"version": strconv.Itoa(b.FileVersion), "title": b.Title, "titleU": b.TitleUnicode, "artist": b.Artist,
		"artistU": b.ArtistUnicode, "creator": b.Creator, "diffname": b.Version, "source": b.Source, "tags": b.Tags,
		"mapID": itoa(b.MapID), "setID": itoa(b.SetID), "mode": strconv.Itoa(b.Mode), "audio": b.Audio, "preview": itoa(b.PreviewTime),
		"bg": b.Bg, "leniency": F(b.StackLeniency), "hp": F(b.Difficulty.GetHP()), "cs": F(b.Difficulty.GetCS()),
		"od": F(b.Difficulty.GetOD()), "ar": F(b.Difficulty.GetAR()), "mult": F(b.SliderMultiplier), "tmult": F(b.Timings.SliderMult), "tickRate": F(b.Timings.TickRate),
		"pauses": pauses, "circles": b.Circles, "sliders": b.Sliders, "spinners": b.Spinners, "length": F(float64(b.Length)),
		"minbpm": F(b.MinBPM), "maxbpm": F(b.MaxBPM), "objs": objs}) {
		m[k] = v
	}
	return m
}

// digest is everything observable about a parsed beatmap, as one string.
func digest(b *beatmap.BeatMap, err error) string {
	m := observeMap(b, err)
	if b != nil {
		ext := L{}
		for _, o := range b.HitObjects {
			h := baseOf(o)
			e := L{V(o.GetEndPosition()), h.StackIndex, h.StackIndexEZ, h.StackIndexHR, V(h.StackOffset), V(h.StackOffsetEZ), V(h.StackOffsetHR)}
			if s, ok := o.(*objects.Slider); ok {
				for _, p := range s.ScorePoints {
					e = append(e, F(p.Time), p.IsReverse)
				}
				for i := 0; i <= 8; i++ {
					e = append(e, V(s.PositionAt(s.StartTime+(s.EndTime-s.StartTime)*float64(i)/8)))
				}
			}
			ext = append(ext, e)
		}
		m["ext"] = ext
		if b.Timings.HasPoints() {
			for t := -1000.0; t < 10000; t += 500 {
				p := b.Timings.GetPointAt(t)
				ext = append(ext, L{F(p.Time), F(p.GetBeatLength()), F(b.Timings.GetOriginalPointAt(t).GetBeatLength()), p.Kiai, F(p.SampleVolume)})
			}
		}
		m["tim"] = ext
	}
	s, e := json.Marshal(m)
	if e != nil {
		fatal(e)
	}
	return string(s)
}
