// Package props holds one generated check per property.
package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"
	"verif/harness/gen"
	"verif/harness/ref"
)

func parse(text string) (*beatmap.BeatMap, error) { return beatmap.ParseFromByte([]byte(text)) }

// mustParse parses a map the format allows; a rejection is a violation.
func mustParse(m gen.Map) (*beatmap.BeatMap, error) {
	b, err := parse(m.Text())
	if err != nil {
		return nil, fmt.Errorf("a valid beatmap was rejected: %v", err)
	}
	if b == nil {
		return nil, fmt.Errorf("neither beatmap nor error")
	}
	return b, nil
}

// close64 compares with a relative and an absolute tolerance; NaN equals NaN.
func close64(a, b, rel, abs float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	d := math.Abs(a - b)
	return d <= abs || d <= rel*math.Max(math.Abs(a), math.Abs(b))
}

func finite(vs ...float64) bool {
	for _, v := range vs {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return false
		}
	}
	return true
}

func finiteV(v vector.Vector2f) bool { return finite(float64(v.X), float64(v.Y)) }

func pt(v vector.Vector2f) ref.Pt { return ref.Pt{X: float64(v.X), Y: float64(v.Y)} }

func kindOf(o objects.IHitObject) byte {
	switch o.(type) {
	case *objects.Circle:
		return 'c'
	case *objects.Slider:
		return 's'
	case *objects.Spinner:
		return 'p'
	}
	return '?'
}

// starObjs gives the objects as the difficulty algorithm sees them.
func starObjs(objs []objects.IHitObject, mods difficulty.Modifier) []ref.StarObj {
	v := func(p vector.Vector2f) ref.V { return ref.V{X: p.X, Y: p.Y} }
	var out []ref.StarObj
	for _, o := range objs {
		o := o
		s := ref.StarObj{Kind: kindOf(o), Start: o.GetStartTime(), End: o.GetEndTime(),
			Head: v(o.GetStackedStartPositionMod(mods)), Tail: v(o.GetStackedEndPositionMod(mods))}
		if sl, ok := o.(*objects.Slider); ok {
			for _, p := range sl.ScorePoints {
				s.Points = append(s.Points, ref.StarPoint{T: p.Time, Rev: p.IsReverse})
			}
			s.Spans = sl.RepeatCount
			s.At = func(t float64) ref.V { return v(sl.GetStackedPositionAtMod(t, mods)) }
		}
		out = append(out, s)
	}
	return out
}

func newDiff(m gen.Map, mods int64, speed float64) *difficulty.Difficulty {
	d := difficulty.NewDifficulty(float64(m.HP), float64(m.CS), float64(m.OD), float64(m.AR))
	d.SetMods(difficulty.Modifier(mods))
	if speed != 1 {
		d.SetCustomSpeed(speed)
	}
	return d
}

func refDiff(m gen.Map, mods int64, speed float64) ref.Diff {
	return ref.NewDiff(float64(m.HP), float64(m.CS), float64(m.OD), float64(m.AR), mods, speed)
}

// exactTimes: whole object times at normal speed, so no time comparison rounds.
func exactTimes(objs []objects.IHitObject, d ref.Diff) bool {
	if d.Speed != 1 {
		return false
	}
	for _, o := range objs {
		if t := o.GetStartTime(); t != math.Trunc(t) {
			return false
		}
	}
	return true
}

// snapObj renders every publicly visible detail of an object.
func snapObj(o objects.IHitObject) string {
	var b strings.Builder
	f := func(format string, a ...any) { fmt.Fprintf(&b, format, a...) }
	f("%c id=%d t=%x..%x", kindOf(o), o.GetID(), o.GetStartTime(), o.GetEndTime())
	f(" set=%d hax=%d nc=%v skip=%d snd=%v", o.GetComboSet(), o.GetComboSetHax(), o.IsNewCombo(), o.GetColorOffset(), o.GetSounds())
	for _, m := range []difficulty.Modifier{0, difficulty.Easy, difficulty.HardRock, difficulty.HardRock | difficulty.Easy} {
		f(" [%d stack=%d %v %v]", m, o.GetStackIndex(m), bits(o.GetStackedStartPositionMod(m)), bits(o.GetStackedEndPositionMod(m)))
	}
	f(" raw %v %v st %v %v", bits(o.GetStartPosition()), bits(o.GetEndPosition()), bits(o.GetStackedStartPosition()), bits(o.GetStackedEndPosition()))
	h := hitObject(o)
	if h != nil {
		f(" combo=%d ids=%d/%d/%d off=%v%v%v", h.ComboNumber, h.StackIndex, h.StackIndexEZ, h.StackIndexHR, bits(h.StackOffset), bits(h.StackOffsetEZ), bits(h.StackOffsetHR))
	}
	if s, ok := o.(*objects.Slider); ok {
		f(" rep=%d points=%v tp=%+v", s.RepeatCount, s.ScorePoints, s.TPoint)
		for i := 0; i <= 8; i++ {
			f(" %v", bits(s.GetPositionAt(s.StartTime+(s.EndTime-s.StartTime)*float64(i)/8)))
		}
	}
	return b.String()
}

func bits(v vector.Vector2f) string { return fmt.Sprintf("(%x,%x)", v.X, v.Y) }

func hitObject(o objects.IHitObject) *objects.HitObject {
	switch x := o.(type) {
	case *objects.Circle:
		return x.HitObject
	case *objects.Slider:
		return x.HitObject
	case *objects.Spinner:
		return x.HitObject
	}
	return nil
}

// snapMap renders every publicly visible detail of a beatmap.
func snapMap(m *beatmap.BeatMap) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%q|%q|%q|%q|%q|%q|%q|%q|%d|%x|%x|%q|%q|%d|%d|%d|%d|%d|%d|%d|%x|%x\n", m.FileVersion, m.Artist, m.ArtistUnicode, m.Title, m.TitleUnicode,
		m.Version, m.Creator, m.Source, m.Tags, m.Mode, m.SliderMultiplier, m.StackLeniency, m.Audio, m.Bg, m.SetID, m.MapID, m.PreviewTime,
		m.Length, m.Circles, m.Sliders, m.Spinners, m.MinBPM, m.MaxBPM)
	fmt.Fprintf(&b, "%s\n", snapDiff(m.Difficulty))
	fmt.Fprintf(&b, "timings sm=%x tr=%x", m.Timings.SliderMult, m.Timings.TickRate)
	if m.Timings.HasPoints() {
		for t := -2000.0; t < 60000; t += 237 {
			p := m.Timings.GetPointAt(t)
			fmt.Fprintf(&b, " %+v/%v", p, m.Timings.GetVelocity(p))
		}
	}
	b.WriteString("\n")
	for _, p := range m.Pauses {
		fmt.Fprintf(&b, "pause %x %x\n", p.StartTime, p.EndTime)
	}
	for _, o := range m.HitObjects {
		b.WriteString(snapObj(o))
		b.WriteString("\n")
	}
	return b.String()
}

func snapDiff(d *difficulty.Difficulty) string {
	return fmt.Sprintf("diff %x %x %x %x mods=%d r=%x pre=%x %x %x %x hp=%x sp=%x speed=%x ar=%x od=%x cs=%x",
		d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), d.Mods, d.CircleRadius, d.Preempt, d.Hit50, d.Hit100, d.Hit300, d.HPMod, d.SpinnerRatio, d.Speed, d.ARReal, d.ODReal, d.CustomSpeed)
}

// firstDiff shows where two snapshots part.
func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d:\n  %s\n  %s", i, clip(x), clip(y))
		}
	}
	return "equal"
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}

// attr renders attributes bit-exactly.
func snapAttr(a osu.Attributes) string {
	return fmt.Sprintf("total=%x aim=%x sf=%x speed=%x fl=%x n=%d c=%d s=%d p=%d combo=%d", a.Total, a.Aim, a.SliderFactor, a.Speed, a.Flashlight,
		a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo)
}

// sameAttr compares attributes within rounding.
func sameAttr(a, b osu.Attributes, rel float64) error {
	if a.ObjectCount != b.ObjectCount || a.Circles != b.Circles || a.Sliders != b.Sliders || a.Spinners != b.Spinners || a.MaxCombo != b.MaxCombo {
		return fmt.Errorf("counts differ: %+v vs %+v", a, b)
	}
	for _, p := range []struct {
		n    string
		x, y float64
	}{{"total", a.Total, b.Total}, {"aim", a.Aim, b.Aim}, {"slider factor", a.SliderFactor, b.SliderFactor}, {"speed", a.Speed, b.Speed}, {"flashlight", a.Flashlight, b.Flashlight}} {
		if !close64(p.x, p.y, rel, 1e-12) {
			return fmt.Errorf("%s differs: %v vs %v", p.n, p.x, p.y)
		}
	}
	return nil
}

// samePeaks compares peak lists within rounding.
func samePeaks(a, b []float64, rel float64) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d vs %d peaks", len(a), len(b))
	}
	for i := range a {
		if !close64(a[i], b[i], rel, 1e-9) {
			return fmt.Errorf("peak %d of %d: %v vs %v", i, len(a), a[i], b[i])
		}
	}
	return nil
}

func sameStrainPeaks(a, b osu.StrainPeaks, rel float64) error {
	for _, p := range []struct {
		n    string
		x, y []float64
	}{{"aim", a.Aim, b.Aim}, {"speed", a.Speed, b.Speed}, {"flashlight", a.Flashlight, b.Flashlight}, {"total", a.Total, b.Total}} {
		if err := samePeaks(p.x, p.y, rel); err != nil {
			return fmt.Errorf("%s peaks: %v", p.n, err)
		}
	}
	return nil
}

func safeSnapshotPeaks(p osu.StrainPeaks) string {
	return fmt.Sprintf("%x %x %x %x", p.Aim, p.Speed, p.Flashlight, p.Total)
}
