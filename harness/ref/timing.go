package ref

import "math"

// TPoint is a declared timing point.
type TPoint struct {
	Time, BL float64
	Uninh    bool
	Sig, Set int
	Idx      int
	Vol      float64
	Kiai     bool
	Omit     bool
}

// TimingAt is the point in effect at a time: a linear scan over the declared points
// in file order, later times win, later lines win among equals.
func TimingAt(pts []TPoint, time float64, onlyUninh bool) (TPoint, bool) {
	best, first := -1, -1
	for i, p := range pts {
		if onlyUninh && !p.Uninh {
			continue
		}
		if first < 0 || p.Time < pts[first].Time {
			first = i
		}
		if p.Time <= time && (best < 0 || p.Time >= pts[best].Time) {
			best = i
		}
	}
	if best < 0 {
		best = first
	}
	if best < 0 {
		return TPoint{}, false
	}
	return pts[best], true
}

// BaseOf is the beat length a point builds on: its own when uninherited, otherwise that
// of the nearest uninherited point before it in (time, file) order.
func BaseOf(pts []TPoint, p TPoint, idx int) float64 {
	if p.Uninh {
		return p.BL
	}
	best := -1
	for i, q := range pts {
		if !q.Uninh {
			continue
		}
		if q.Time < p.Time || q.Time == p.Time && i < idx {
			if best < 0 || q.Time >= pts[best].Time {
				best = i
			}
		}
	}
	if best < 0 {
		return math.NaN()
	}
	return pts[best].BL
}

// Index finds a point in the list (the points are generated distinct by index).
func TimingIndexAt(pts []TPoint, time float64) int {
	best, first := -1, -1
	for i, p := range pts {
		if first < 0 || p.Time < pts[first].Time {
			first = i
		}
		if p.Time <= time && (best < 0 || p.Time >= pts[best].Time) {
			best = i
		}
	}
	if best < 0 {
		return first
	}
	return best
}

// Ratio is the beat length multiplier of a point (1/slider velocity).
func Ratio(p TPoint) float64 {
	if math.IsNaN(p.BL) || p.BL >= 0 {
		return 1
	}
	return math.Min(1000, math.Max(10, -p.BL)) / 100
}

// EffectiveBeatLength at a time.
func EffectiveBeatLength(pts []TPoint, time float64) float64 {
	i := TimingIndexAt(pts, time)
	return BaseOf(pts, pts[i], i) * Ratio(pts[i])
}

// Velocity in px per second at a time.
func Velocity(pts []TPoint, time, sm float64) float64 {
	return 100 * sm * 1000 / EffectiveBeatLength(pts, time)
}

// Ticks are a slider's score points. Ambiguous is set when a tick falls so close to the
// cut-off that rounding decides.
type Ticks struct {
	Ticks, Repeats []float64
	Tail           float64
	Ambiguous      bool
}

// SliderTicks generates score points as osu!'s slider event generator defines them.
func SliderTicks(start, length, declared, velocity, tickDist float64, spans int, nan bool, tol float64) Ticks {
	var r Ticks
	span := length / velocity * 1000
	if length > 0 && tickDist > declared {
		tickDist = declared
	}
	minEnd := velocity * 0.01
	for s := 0; s < spans; s++ {
		st := start + float64(s)*span
		if !nan && length > 0 && tickDist > 0 {
			for k := 1; ; k++ {
				d := float64(k) * tickDist
				if math.Abs(d-(length-minEnd)) < tol+1e-6*velocity {
					r.Ambiguous = true
				}
				if d >= length-minEnd {
					break
				}
				f := d / length
				if s%2 == 1 {
					f = 1 - f
				}
				r.Ticks = append(r.Ticks, st+f*span)
			}
		}
		if s < spans-1 {
			r.Repeats = append(r.Repeats, st+span)
		}
	}
	total := span * float64(spans)
	r.Tail = math.Max(start+total/2, start+total-36)
	return r
}
