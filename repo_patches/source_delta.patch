From fbc55337d8926be53fc1b25a36f2ef0b4d292c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 01/17] fix: read the difficulty name from the Version key

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 7d394c3..50509b9 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -55,7 +55,7 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 		beatMap.ArtistUnicode = line[1]
 	case "Creator":
 		beatMap.Creator = line[1]
-	case "FileVersion":
+	case "Version":
 		beatMap.Version = line[1]
 	case "Source":
 		beatMap.Source = line[1]
-- 
2.43.0


From 167caf2c8921a8716c98eaca654f9edfb4ac1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 02/17] fix: accept blanks after the file format version

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 50509b9..c7993d0 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -157,7 +157,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 
 		if strings.HasPrefix(line, "osu file format v") {
 			trim := strings.TrimPrefix(line, "osu file format v")
-			beatMap.FileVersion, _ = strconv.Atoi(trim)
+			beatMap.FileVersion, _ = strconv.Atoi(strings.TrimSpace(trim))
 		}
 
 		section := getSection(line)
-- 
2.43.0


From d761b3cd5234b5dc5b40631a8179348e9d90427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 03/17] fix: report read errors instead of returning a
 truncated beatmap

---
 beatmap/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index c7993d0..419471f 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -216,6 +216,10 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	beatMap.FinalizePoints()
 
 	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {
-- 
2.43.0


From cc7accf0682192722ef592224a3ef0764804ca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 04/17] fix: read fractional and blank-padded timing point
 fields

---
 beatmap/beatmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 78c5a7f..09af55b 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -69,7 +69,11 @@ func NewBeatMap() *BeatMap {
 
 func (beatMap *BeatMap) ParsePoint(point string) {
 	line := strings.Split(point, ",")
-	pointTime, _ := strconv.ParseInt(line[0], 10, 64)
+	for i := range line {
+		line[i] = strings.TrimSpace(line[i])
+	}
+
+	pointTime, _ := strconv.ParseFloat(line[0], 64)
 	bpm, _ := strconv.ParseFloat(line[1], 64)
 
 	if !math.IsNaN(bpm) && bpm >= 0 {
@@ -117,7 +121,7 @@ func (beatMap *BeatMap) ParsePoint(point string) {
 		omitFirstBarLine = (ki & 8) > 0
 	}
 
-	beatMap.Timings.AddPoint(float64(pointTime), bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
+	beatMap.Timings.AddPoint(pointTime, bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
 }
 
 func (beatMap *BeatMap) FinalizePoints() {
-- 
2.43.0


From e7fe1c6c0f9a35731c491e37813a13acbf48fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 05/17] fix: skip background and break events with missing
 fields

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 419471f..f485517 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -180,7 +180,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				parseDifficulty(arr, beatMap)
 			}
 		case "Events":
-			if arr := tokenize(line, ","); len(arr) > 1 {
+			if arr := tokenize(line, ","); len(arr) > 2 {
 				parseEvents(arr, beatMap)
 			}
 		case "TimingPoints":
-- 
2.43.0


From 05dc015ada523be29a36fe8715507e2706d44472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 06/17] fix: do not panic on mod strings of odd length

---
 beatmap/difficulty/mods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/difficulty/mods.go b/beatmap/difficulty/mods.go
index 229656a..ede6d60 100644
--- a/beatmap/difficulty/mods.go
+++ b/beatmap/difficulty/mods.go
@@ -210,7 +210,7 @@ func (mods Modifier) StringFull() (s []string) {
 }
 
 func ParseMods(mods string) (m Modifier) {
-	modsSl := make([]string, len(mods)/2)
+	modsSl := make([]string, (len(mods)+1)/2)
 	for n, modPart := range mods {
 		modsSl[n/2] += string(modPart)
 	}
-- 
2.43.0


From c7d014ff5bee270a17c480c2ef12dc84980d5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 07/17] fix: multiply before dividing in binomial coefficients

---
 math/curves/bezier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/curves/bezier.go b/math/curves/bezier.go
index dc70393..ce1d08f 100644
--- a/math/curves/bezier.go
+++ b/math/curves/bezier.go
@@ -90,7 +90,7 @@ func BinomialCoefficient(n, k int64) int64 {
 
 	c := int64(1)
 	for i := int64(1); i <= k; i++ {
-		c *= (n + 1 - i) / (i)
+		c = c * (n + 1 - i) / i
 	}
 
 	return c
-- 
2.43.0


From 3b9c729d51a92935ca5a7b4f2b609384ab993089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 08/17] fix: skip malformed or out-of-range hit objects instead
 of panicking

---
 beatmap/objects/slider.go |  5 ++++
 beatmap/objects/util.go   | 60 ++++++++++++++++++++++++++++++++++++++-
 beatmap/parser.go         |  2 +-
 3 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 0513d24..c1569c9 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -45,6 +45,7 @@ func NewSlider(data []string) *Slider {
 
 	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
+	slider.RepeatCount = mutils.MaxI64(1, slider.RepeatCount)
 
 	list := strings.Split(data[5], "|")
 	points := []vector.Vector2f{slider.StartPosRaw}
@@ -72,6 +73,10 @@ func NewSlider(data []string) *Slider {
 	if len(data) > 8 {
 		subData := strings.Split(data[8], "|")
 		for i, v := range subData {
+			if i >= len(slider.sounds) {
+				break
+			}
+
 			sound, _ := strconv.Atoi(v)
 			slider.sounds[i] = audio.HitSound(sound)
 		}
diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index c045af7..3fa7eb0 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -1,8 +1,66 @@
 package objects
 
-import "strconv"
+import (
+	"math"
+	"strconv"
+	"strings"
+)
+
+// Limits used by osu! when parsing hit objects
+const (
+	maxCoordinateValue = 131072
+	maxParseValue      = math.MaxInt32
+	maxRepeatCount     = 9000
+)
+
+// IsValid checks if a tokenized line has all the fields needed by its hit object type, with values within osu! limits
+func IsValid(data []string) bool {
+	if len(data) < 5 || !inRange(data[0], maxCoordinateValue) || !inRange(data[1], maxCoordinateValue) || !inRange(data[2], maxParseValue) {
+		return false
+	}
+
+	objTypeI, _ := strconv.Atoi(data[3])
+	objType := Type(objTypeI)
+
+	switch {
+	case (objType & CIRCLE) > 0:
+		return true
+	case (objType & SPINNER) > 0:
+		return len(data) > 5 && inRange(data[5], maxParseValue)
+	case (objType & SLIDER) > 0:
+		return len(data) > 7 && isPathValid(data[5]) && inRange(data[6], maxRepeatCount) && inRange(data[7], maxCoordinateValue)
+	case (objType & LONGNOTE) > 0:
+		return len(data) > 5
+	}
+
+	return true
+}
+
+func isPathValid(path string) bool {
+	for i, point := range strings.Split(path, "|") {
+		if i == 0 {
+			continue
+		}
+
+		coords := strings.Split(point, ":")
+		if len(coords) < 2 || !inRange(coords[0], maxCoordinateValue) || !inRange(coords[1], maxCoordinateValue) {
+			return false
+		}
+	}
+
+	return true
+}
+
+func inRange(value string, limit float64) bool {
+	parsed, err := strconv.ParseFloat(value, 64)
+	return err == nil && math.Abs(parsed) <= limit
+}
 
 func CreateObject(data []string) IHitObject {
+	if !IsValid(data) {
+		return nil
+	}
+
 	objTypeI, _ := strconv.Atoi(data[3])
 	objType := Type(objTypeI)
 
diff --git a/beatmap/parser.go b/beatmap/parser.go
index f485517..58ddd14 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -189,7 +189,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				counter++
 			}
 		case "HitObjects":
-			if arr := tokenize(line, ","); arr != nil {
+			if arr := tokenize(line, ","); objects.IsValid(arr) {
 				var time string
 
 				objTypeI, _ := strconv.Atoi(arr[3])
-- 
2.43.0


From cad2afaab138f9e6d7fbdb803ce62c255e1c95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 09/17] fix: default and limit slider multiplier and tick rate,
 ignore NaN difficulty values

---
 beatmap/beatmap.go       |  7 ++++---
 beatmap/parser.go        | 26 ++++++++++++++++----------
 beatmap/timing/timing.go |  2 ++
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 09af55b..367a876 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -58,9 +58,10 @@ type BeatMap struct {
 
 func NewBeatMap() *BeatMap {
 	return &BeatMap{
-		Timings:       timing.NewTimings(),
-		StackLeniency: 0.7,
-		Difficulty:    difficulty.NewDifficulty(5, 5, 5, 5),
+		Timings:          timing.NewTimings(),
+		SliderMultiplier: 1.4,
+		StackLeniency:    0.7,
+		Difficulty:       difficulty.NewDifficulty(5, 5, 5, 5),
 
 		MinBPM: math.Inf(0),
 		MaxBPM: 0,
diff --git a/beatmap/parser.go b/beatmap/parser.go
index 58ddd14..f7ec05f 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -68,26 +68,32 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 	}
 }
 
+// parseDifficultyValue parses a number and limits it to given range, NaN is treated like a malformed number
+func parseDifficultyValue(value string, min, max float64) float64 {
+	parsed, _ := strconv.ParseFloat(value, 64)
+	if math.IsNaN(parsed) {
+		parsed = 0
+	}
+
+	return mutils.ClampF64(parsed, min, max)
+}
+
 func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
-		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
+		beatMap.SliderMultiplier = parseDifficultyValue(line[1], 0.4, 3.6)
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetAR(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetAR(parseDifficultyValue(line[1], 0, 10))
 		beatMap.arSpecified = true
 	case "CircleSize":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetCS(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetCS(parseDifficultyValue(line[1], 0, 10))
 	case "SliderTickRate":
-		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
+		beatMap.Timings.TickRate = parseDifficultyValue(line[1], 0.5, 8)
 	case "HPDrainRate":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetHP(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetHP(parseDifficultyValue(line[1], 0, 10))
 	case "OverallDifficulty":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetOD(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetOD(parseDifficultyValue(line[1], 0, 10))
 
 		if !beatMap.arSpecified {
 			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
diff --git a/beatmap/timing/timing.go b/beatmap/timing/timing.go
index 0d0c704..78730e8 100644
--- a/beatmap/timing/timing.go
+++ b/beatmap/timing/timing.go
@@ -56,6 +56,8 @@ type Timings struct {
 
 func NewTimings() *Timings {
 	return &Timings{
+		SliderMult: 1.4,
+		TickRate:   1,
 		defaultTimingPoint: ControlPoint{
 			Time:             0,
 			beatLengthBase:   60000 / 60,
-- 
2.43.0


From 50387aeb5d476c2d4bd3300e68f6f7da237bef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 10/17] fix: do not generate slider ticks forever when tick
 distance is not positive

---
 beatmap/objects/slider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index c1569c9..daee7a7 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -128,7 +128,7 @@ func (slider *Slider) SetTiming(timings *timing.Timings) {
 		reversed := span%2 == 1
 
 		// skip ticks if timingPoint has NaN beatLength
-		for d := tickDistance; d <= cLength && !nanTimingPoint; d += tickDistance {
+		for d := tickDistance; tickDistance > 0 && d <= cLength && !nanTimingPoint; d += tickDistance {
 			if d >= cLength-minDistanceFromEnd {
 				break
 			}
-- 
2.43.0


From 14568f62f9ddea97e0885e52b1b9cf680bb9d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 11/17] fix: keep very short circular arcs and do not exhaust
 memory on nearly straight ones

---
 math/curves/approximation.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/math/curves/approximation.go b/math/curves/approximation.go
index 79ad53e..430bb89 100644
--- a/math/curves/approximation.go
+++ b/math/curves/approximation.go
@@ -1,9 +1,12 @@
 package curves
 
 import (
+	"github.com/Wieku/gosu-pp/math/mutils"
 	"github.com/Wieku/gosu-pp/math/vector"
 )
 
+const maxArcLength = 120000
+
 func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Linear {
 	arc := NewCirArc(pt1, pt2, pt3)
 
@@ -11,7 +14,12 @@ func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Lin
 		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
 	}
 
-	segments := int(arc.r * arc.totalAngle * detail)
+	// arcs of nearly collinear points can be arbitrarily long, osu! treats them as bezier curves
+	if length := arc.r * arc.totalAngle; !(length <= maxArcLength) {
+		return ApproximateBezier([]vector.Vector2f{pt1, pt2, pt3})
+	}
+
+	segments := mutils.MaxI(1, int(arc.r*arc.totalAngle*detail))
 
 	lines := make([]Linear, segments)
 
-- 
2.43.0


From 7821a72b54a5c37f97b83f122dd63e5f0297bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 12/17] fix: skip timing points outside of osu! limits

---
 beatmap/beatmap.go | 4 ++++
 beatmap/parser.go  | 5 +----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 367a876..6aab318 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -77,6 +77,10 @@ func (beatMap *BeatMap) ParsePoint(point string) {
 	pointTime, _ := strconv.ParseFloat(line[0], 64)
 	bpm, _ := strconv.ParseFloat(line[1], 64)
 
+	if !(math.Abs(pointTime) <= math.MaxInt32) || math.Abs(bpm) > math.MaxInt32 {
+		return
+	}
+
 	if !math.IsNaN(bpm) && bpm >= 0 {
 		rBPM := 60000 / bpm
 		beatMap.MinBPM = math.Min(beatMap.MinBPM, rBPM)
diff --git a/beatmap/parser.go b/beatmap/parser.go
index f7ec05f..766ee71 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -156,8 +156,6 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 
 	var currentSection string
 
-	counter := 0
-
 	for scanner.Scan() {
 		line := scanner.Text()
 
@@ -192,7 +190,6 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		case "TimingPoints":
 			if arr := tokenize(line, ","); len(arr) > 1 {
 				beatMap.ParsePoint(line)
-				counter++
 			}
 		case "HitObjects":
 			if arr := tokenize(line, ","); objects.IsValid(arr) {
@@ -228,7 +225,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 
 	beatMap.FinalizePoints()
 
-	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {
+	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || !beatMap.Timings.HasPoints() {
 		return nil, errors.New("corrupted file")
 	}
 
-- 
2.43.0


From e483fcbbd4596dc27811042bd0ce7ac24675649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 13/17] fix: rate beatmaps without hit objects instead of
 panicking

---
 performance/osu/difficulty.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index e551640..ca23dfb 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -168,6 +168,10 @@ func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty)
 
 	attr := Attributes{}
 
+	if len(objects) == 0 {
+		return attr, aimSkill, speedSkill, flashlightSkill
+	}
+
 	addObjectToAttribs(objects[0], &attr)
 
 	for i, o := range diffObjects {
@@ -211,6 +215,10 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 		flashlightSkill = skills.NewFlashlightSkill(diff)
 	}
 
+	if len(objects) == 0 {
+		return []Attributes{}, aimSkill, speedSkill, flashlightSkill
+	}
+
 	stars := make([]Attributes, 1, len(objects))
 
 	addObjectToAttribs(objects[0], &stars[0])
-- 
2.43.0


From 25ec09ec4fd04cdd8ece7fb0399047bdb695f0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 14/17] fix: rate the first object in stepwise calculation like
 the single one

---
 performance/osu/difficulty.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index ca23dfb..afd22b5 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -222,6 +222,7 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 	stars := make([]Attributes, 1, len(objects))
 
 	addObjectToAttribs(objects[0], &stars[0])
+	stars[0] = getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, stars[0])
 
 	for i, o := range diffObjects {
 		attr := stars[i]
-- 
2.43.0


From 99ad4c4ca6e94840d58ad7d2ee7af61f3a90f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 15/17] fix: skip timing points whose time or beat length is
 not a number

---
 beatmap/beatmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 6aab318..25f891e 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -74,10 +74,10 @@ func (beatMap *BeatMap) ParsePoint(point string) {
 		line[i] = strings.TrimSpace(line[i])
 	}
 
-	pointTime, _ := strconv.ParseFloat(line[0], 64)
-	bpm, _ := strconv.ParseFloat(line[1], 64)
+	pointTime, timeErr := strconv.ParseFloat(line[0], 64)
+	bpm, bpmErr := strconv.ParseFloat(line[1], 64)
 
-	if !(math.Abs(pointTime) <= math.MaxInt32) || math.Abs(bpm) > math.MaxInt32 {
+	if timeErr != nil || bpmErr != nil || !(math.Abs(pointTime) <= math.MaxInt32) || math.Abs(bpm) > math.MaxInt32 {
 		return
 	}
 
-- 
2.43.0


From be5ba56e4af937a2d27d8089ab60769ef92b146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 16/17] fix: skip breaks whose times are not numbers

---
 beatmap/parser.go |  4 +++-
 beatmap/pause.go  | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 766ee71..053b7d5 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -106,7 +106,9 @@ func parseEvents(line []string, beatMap *BeatMap) {
 	case "Background", "0":
 		beatMap.Bg = strings.Replace(line[2], "\"", "", -1)
 	case "Break", "2":
-		beatMap.Pauses = append(beatMap.Pauses, NewPause(line))
+		if pause := NewPause(line); pause != nil {
+			beatMap.Pauses = append(beatMap.Pauses, pause)
+		}
 	}
 }
 
diff --git a/beatmap/pause.go b/beatmap/pause.go
index 0c9591a..9b2014a 100644
--- a/beatmap/pause.go
+++ b/beatmap/pause.go
@@ -1,6 +1,7 @@
 package beatmap
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -9,11 +10,19 @@ type Pause struct {
 	EndTime   float64
 }
 
+// NewPause creates a Pause from tokenized event, returns nil if its times are malformed
 func NewPause(data []string) *Pause {
-	pause := &Pause{}
-	pause.StartTime, _ = strconv.ParseFloat(data[1], 64)
-	pause.EndTime, _ = strconv.ParseFloat(data[2], 64)
-	return pause
+	startTime, startErr := strconv.ParseFloat(data[1], 64)
+	endTime, endErr := strconv.ParseFloat(data[2], 64)
+
+	if startErr != nil || endErr != nil || math.IsNaN(startTime) || math.IsNaN(endTime) {
+		return nil
+	}
+
+	return &Pause{
+		StartTime: startTime,
+		EndTime:   endTime,
+	}
 }
 
 func (pause *Pause) GetStartTime() float64 {
-- 
2.43.0


From 477e44c0ea6a828cd8fe21f7e569402bfdf23f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:05 +0000
Subject: [PATCH 17/17] fix: angle between collinear points is never NaN

---
 math/vector/vector2f.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/math/vector/vector2f.go b/math/vector/vector2f.go
index 1111141..0c7e80f 100644
--- a/math/vector/vector2f.go
+++ b/math/vector/vector2f.go
@@ -143,5 +143,8 @@ func AngleBetween32(centre, p1, p2 Vector2f) float32 { //nolint:misspell
 	b := centre.Dst(p2)
 	c := p1.Dst(p2)
 
-	return math32.Acos((a*a + b*b - c*c) / (2 * a * b))
+	cos := (a*a + b*b - c*c) / (2 * a * b)
+
+	// rounding can push the cosine of collinear points slightly out of range
+	return math32.Acos(math32.Max(-1, math32.Min(1, cos)))
 }
-- 
2.43.0

