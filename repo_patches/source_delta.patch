From d9bfd0a099b914f575c9134840585d3a9658e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 01/16] fix: mod strings of odd length no longer panic

---
 beatmap/difficulty/mods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/difficulty/mods.go b/beatmap/difficulty/mods.go
index 229656a..ede6d60 100644
--- a/beatmap/difficulty/mods.go
+++ b/beatmap/difficulty/mods.go
@@ -210,7 +210,7 @@ func (mods Modifier) StringFull() (s []string) {
 }
 
 func ParseMods(mods string) (m Modifier) {
-	modsSl := make([]string, len(mods)/2)
+	modsSl := make([]string, (len(mods)+1)/2)
 	for n, modPart := range mods {
 		modsSl[n/2] += string(modPart)
 	}
-- 
2.43.0


From 17cbe5ccc90ddddd51a104b3da6fff2dd3c5c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 02/16] fix: incomplete hit object and event lines no longer
 panic

---
 beatmap/objects/slider.go |  8 ++++++++
 beatmap/objects/util.go   | 22 ++++++++++++++++++++++
 beatmap/parser.go         |  6 +++++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 0513d24..b487ca5 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -51,6 +51,10 @@ func NewSlider(data []string) *Slider {
 
 	for i := 1; i < len(list); i++ {
 		list2 := strings.Split(list[i], ":")
+		if len(list2) < 2 {
+			continue
+		}
+
 		x, _ := strconv.ParseFloat(list2[0], 32)
 		y, _ := strconv.ParseFloat(list2[1], 32)
 		points = append(points, vector.NewVec2f(float32(x), float32(y)))
@@ -72,6 +76,10 @@ func NewSlider(data []string) *Slider {
 	if len(data) > 8 {
 		subData := strings.Split(data[8], "|")
 		for i, v := range subData {
+			if i >= len(slider.sounds) {
+				break
+			}
+
 			sound, _ := strconv.Atoi(v)
 			slider.sounds[i] = audio.HitSound(sound)
 		}
diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index c045af7..ee0cd39 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -17,6 +17,28 @@ func CreateObject(data []string) IHitObject {
 	return nil
 }
 
+// HasRequiredFields reports whether a hit object line has all the fields its type needs
+func HasRequiredFields(data []string) bool {
+	if len(data) < 5 {
+		return false
+	}
+
+	objTypeI, _ := strconv.Atoi(data[3])
+	objType := Type(objTypeI)
+
+	if (objType & CIRCLE) > 0 {
+		return true
+	} else if (objType & SPINNER) > 0 {
+		return len(data) > 5
+	} else if (objType & SLIDER) > 0 {
+		return len(data) > 7
+	} else if (objType & LONGNOTE) > 0 {
+		return len(data) > 5
+	}
+
+	return true
+}
+
 type Type int
 
 const (
diff --git a/beatmap/parser.go b/beatmap/parser.go
index 7d394c3..177cabb 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -96,6 +96,10 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 }
 
 func parseEvents(line []string, beatMap *BeatMap) {
+	if len(line) < 3 {
+		return
+	}
+
 	switch line[0] {
 	case "Background", "0":
 		beatMap.Bg = strings.Replace(line[2], "\"", "", -1)
@@ -189,7 +193,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				counter++
 			}
 		case "HitObjects":
-			if arr := tokenize(line, ","); arr != nil {
+			if arr := tokenize(line, ","); objects.HasRequiredFields(arr) {
 				var time string
 
 				objTypeI, _ := strconv.Atoi(arr[3])
-- 
2.43.0


From 715e7781eabf8737461528734103e0a06165f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 03/16] fix: sliders with less than one slide no longer panic

---
 beatmap/objects/slider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index b487ca5..f1e8a6d 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -45,6 +45,9 @@ func NewSlider(data []string) *Slider {
 
 	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
+	if slider.RepeatCount < 1 {
+		slider.RepeatCount = 1
+	}
 
 	list := strings.Split(data[5], "|")
 	points := []vector.Vector2f{slider.StartPosRaw}
-- 
2.43.0


From db07e1593a71b0a99389c6fd846da8385d162264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 04/16] fix: non-positive tick distance no longer loops forever

---
 beatmap/objects/slider.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index f1e8a6d..f7dbf1b 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -129,12 +129,14 @@ func (slider *Slider) SetTiming(timings *timing.Timings) {
 		tickDistance = slider.pixelLength
 	}
 
+	hasTicks := tickDistance > 0 && !nanTimingPoint
+
 	for span := 0; span < int(slider.RepeatCount); span++ {
 		spanStartTime := slider.StartTime + float64(span)*slider.spanDuration
 		reversed := span%2 == 1
 
 		// skip ticks if timingPoint has NaN beatLength
-		for d := tickDistance; d <= cLength && !nanTimingPoint; d += tickDistance {
+		for d := tickDistance; d <= cLength && hasTicks; d += tickDistance {
 			if d >= cLength-minDistanceFromEnd {
 				break
 			}
-- 
2.43.0


From 66bdd28738cadd7407c692ff5bc217ce16ae4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 05/16] fix: read the difficulty name from the Version key

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 177cabb..ae65289 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -55,7 +55,7 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 		beatMap.ArtistUnicode = line[1]
 	case "Creator":
 		beatMap.Creator = line[1]
-	case "FileVersion":
+	case "Version":
 		beatMap.Version = line[1]
 	case "Source":
 		beatMap.Source = line[1]
-- 
2.43.0


From 57160cd9f96769f539cca04c708d660ff637855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 06/16] fix: repeated AudioFilename keys no longer concatenate

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index ae65289..d59ad45 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -25,7 +25,7 @@ func parseGeneral(line []string, beatMap *BeatMap) bool {
 			beatMap.StackLeniency = 0.0
 		}
 	case "AudioFilename":
-		beatMap.Audio += line[1]
+		beatMap.Audio = line[1]
 	case "PreviewTime":
 		beatMap.PreviewTime, _ = strconv.ParseInt(line[1], 10, 64)
 		//case "SampleSet":
-- 
2.43.0


From a147928b9812c63060afee1f9ad77b8aff6911b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 07/16] fix: white space after the file format number no longer
 zeroes it

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index d59ad45..47e22bf 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -161,7 +161,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 
 		if strings.HasPrefix(line, "osu file format v") {
 			trim := strings.TrimPrefix(line, "osu file format v")
-			beatMap.FileVersion, _ = strconv.Atoi(trim)
+			beatMap.FileVersion, _ = strconv.Atoi(strings.TrimSpace(trim))
 		}
 
 		section := getSection(line)
-- 
2.43.0


From 75de0352d1121f5cbb60fd5188b1f025ef71aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 08/16] fix: objects at fractional times count towards the
 beatmap length

---
 beatmap/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 47e22bf..8925f4b 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -211,9 +211,9 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 					beatMap.Sliders++
 					time = strings.Split(arr[5], ":")[0]
 				}
-				timeI, _ := strconv.Atoi(time)
+				timeF, _ := strconv.ParseFloat(time, 64)
 
-				beatMap.Length = mutils.MaxI(beatMap.Length, timeI)
+				beatMap.Length = mutils.MaxI(beatMap.Length, int(timeF))
 
 				parseHitObjects(arr, beatMap)
 			}
-- 
2.43.0


From fcb8e46c3f24b04ff409bb0b00d8e99903a28d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 09/16] fix: very short or undefined circular arcs keep at
 least one segment

---
 math/curves/approximation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/curves/approximation.go b/math/curves/approximation.go
index 79ad53e..1232a2d 100644
--- a/math/curves/approximation.go
+++ b/math/curves/approximation.go
@@ -1,6 +1,7 @@
 package curves
 
 import (
+	"github.com/Wieku/gosu-pp/math/mutils"
 	"github.com/Wieku/gosu-pp/math/vector"
 )
 
@@ -11,7 +12,7 @@ func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Lin
 		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
 	}
 
-	segments := int(arc.r * arc.totalAngle * detail)
+	segments := mutils.MaxI(1, int(arc.r*arc.totalAngle*detail))
 
 	lines := make([]Linear, segments)
 
-- 
2.43.0


From 1188c9147405bd9e1fd6e7f30a21792bb8c7fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 10/16] fix: report read errors and overlong lines instead of a
 truncated beatmap

---
 beatmap/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 8925f4b..30ae3d5 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -220,6 +220,10 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	beatMap.FinalizePoints()
 
 	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {
-- 
2.43.0


From fb505024c574836e4657acfeee17dd35fd9356cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 11/16] fix: timing points at fractional times or with white
 space around fields are read correctly

---
 beatmap/beatmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 78c5a7f..2a0da40 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -69,7 +69,11 @@ func NewBeatMap() *BeatMap {
 
 func (beatMap *BeatMap) ParsePoint(point string) {
 	line := strings.Split(point, ",")
-	pointTime, _ := strconv.ParseInt(line[0], 10, 64)
+	for i, v := range line {
+		line[i] = strings.TrimSpace(v)
+	}
+
+	pointTime, _ := strconv.ParseFloat(line[0], 64)
 	bpm, _ := strconv.ParseFloat(line[1], 64)
 
 	if !math.IsNaN(bpm) && bpm >= 0 {
@@ -117,7 +121,7 @@ func (beatMap *BeatMap) ParsePoint(point string) {
 		omitFirstBarLine = (ki & 8) > 0
 	}
 
-	beatMap.Timings.AddPoint(float64(pointTime), bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
+	beatMap.Timings.AddPoint(pointTime, bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
 }
 
 func (beatMap *BeatMap) FinalizePoints() {
-- 
2.43.0


From 896b0244fb4235b881611196701fd16ef0a252a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 12/16] fix: binomial coefficients are exact, so Bezier curves
 of degree 4 and more evaluate correctly

---
 math/curves/bezier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/curves/bezier.go b/math/curves/bezier.go
index dc70393..ce1d08f 100644
--- a/math/curves/bezier.go
+++ b/math/curves/bezier.go
@@ -90,7 +90,7 @@ func BinomialCoefficient(n, k int64) int64 {
 
 	c := int64(1)
 	for i := int64(1); i <= k; i++ {
-		c *= (n + 1 - i) / (i)
+		c = c * (n + 1 - i) / i
 	}
 
 	return c
-- 
2.43.0


From ee56ef50b1fa12cf493fcb3d38412f848ef54b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 13/16] fix: rating an empty list of objects no longer panics

---
 performance/osu/difficulty.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index e551640..7d801c9 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -168,6 +168,10 @@ func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty)
 
 	attr := Attributes{}
 
+	if len(objects) == 0 {
+		return attr, aimSkill, speedSkill, flashlightSkill
+	}
+
 	addObjectToAttribs(objects[0], &attr)
 
 	for i, o := range diffObjects {
@@ -211,6 +215,10 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 		flashlightSkill = skills.NewFlashlightSkill(diff)
 	}
 
+	if len(objects) == 0 {
+		return nil, aimSkill, speedSkill, flashlightSkill
+	}
+
 	stars := make([]Attributes, 1, len(objects))
 
 	addObjectToAttribs(objects[0], &stars[0])
-- 
2.43.0


From f71cec0c98c8d90c6057b9fe65e848f491343abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 14/16] fix: the first step of a step-by-step rating is rated
 like a one-object map

---
 performance/osu/difficulty.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index 7d801c9..f5acb12 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -223,6 +223,8 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 
 	addObjectToAttribs(objects[0], &stars[0])
 
+	stars[0] = getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, stars[0])
+
 	for i, o := range diffObjects {
 		attr := stars[i]
 		addObjectToAttribs(objects[i+1], &attr)
-- 
2.43.0


From 462d4067152179456a6c98232ee27185c63d54b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 15/16] fix: angle between (nearly) aligned points is a number

---
 math/vector/vector2f.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/math/vector/vector2f.go b/math/vector/vector2f.go
index 1111141..19a7fb4 100644
--- a/math/vector/vector2f.go
+++ b/math/vector/vector2f.go
@@ -143,5 +143,8 @@ func AngleBetween32(centre, p1, p2 Vector2f) float32 { //nolint:misspell
 	b := centre.Dst(p2)
 	c := p1.Dst(p2)
 
-	return math32.Acos((a*a + b*b - c*c) / (2 * a * b))
+	// rounding may put the cosine of (nearly) aligned points just outside of [-1, 1]
+	cos := (a*a + b*b - c*c) / (2 * a * b)
+
+	return math32.Acos(math32.Min(1, math32.Max(-1, cos)))
 }
-- 
2.43.0


From cdf5feab7301919133999469fb815cc6a8afc8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 16/16] fix: slider multiplier and tick rate default to 1.4 and
 1 when a map leaves them out

---
 beatmap/beatmap.go       | 7 ++++---
 beatmap/timing/timing.go | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 2a0da40..4b390bb 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -58,9 +58,10 @@ type BeatMap struct {
 
 func NewBeatMap() *BeatMap {
 	return &BeatMap{
-		Timings:       timing.NewTimings(),
-		StackLeniency: 0.7,
-		Difficulty:    difficulty.NewDifficulty(5, 5, 5, 5),
+		Timings:          timing.NewTimings(),
+		SliderMultiplier: 1.4,
+		StackLeniency:    0.7,
+		Difficulty:       difficulty.NewDifficulty(5, 5, 5, 5),
 
 		MinBPM: math.Inf(0),
 		MaxBPM: 0,
diff --git a/beatmap/timing/timing.go b/beatmap/timing/timing.go
index 0d0c704..123c0a2 100644
--- a/beatmap/timing/timing.go
+++ b/beatmap/timing/timing.go
@@ -56,6 +56,9 @@ type Timings struct {
 
 func NewTimings() *Timings {
 	return &Timings{
+		SliderMult: 1.4,
+		TickRate:   1,
+
 		defaultTimingPoint: ControlPoint{
 			Time:             0,
 			beatLengthBase:   60000 / 60,
-- 
2.43.0

