package ref

import "math"

// Mod bits.
const (
	NF = 1 << 0
	EZ = 1 << 1
	TD = 1 << 2
	HD = 1 << 3
	HR = 1 << 4
	SD = 1 << 5
	DT = 1 << 6
	RX = 1 << 7
	HT = 1 << 8
	NC = 1 << 9
	FL = 1 << 10
	AT = 1 << 11
	SO = 1 << 12
	AP = 1 << 13
	PF = 1 << 14
	TG = 1 << 23
	V2 = 1 << 29
	DC = 1 << 31
)

// Diff holds the derived difficulty values.
type Diff struct {
	HP, Radius, Preempt, Hit300, Hit100, Hit50, Spinner, Speed, ARReal, ODReal float64
	Mods                                                                       int64
}

func rate(v, min, mid, max float64) float64 {
	switch {
	case v > 5:
		return mid + (max-mid)*(v-5)/5
	case v < 5:
		return mid - (mid-min)*(5-v)/5
	}
	return mid
}

// unrate inverts rate for decreasing scales.
func unrate(r, min, mid, max float64) float64 {
	if r > mid {
		return 5 * (min - r) / (min - mid)
	}
	return 5 + 5*(mid-r)/(mid-max)
}

// SpeedOf is the playback rate.
func SpeedOf(mods int64, custom float64) float64 {
	switch {
	case mods&DT != 0:
		return 1.5 * custom
	case mods&HT != 0:
		return 0.75 * custom
	}
	return custom
}

// NewDiff derives all values from the settings.
func NewDiff(hp, cs, od, ar float64, mods int64, custom float64) Diff {
	if mods&HR != 0 {
		hp, od, ar = math.Min(10, hp*1.4), math.Min(10, od*1.4), math.Min(10, ar*1.4)
		cs = math.Min(10, cs*1.3)
	}
	if mods&EZ != 0 {
		hp, cs, od, ar = hp/2, cs/2, od/2, ar/2
	}
	d := Diff{Mods: mods, HP: hp, Speed: SpeedOf(mods, custom)}
	d.Radius = 54.4 - 4.48*cs
	d.Preempt = rate(ar, 1800, 1200, 450)
	d.Hit300 = 80 - 6*od
	d.Hit100 = 140 - 8*od
	d.Hit50 = 200 - 10*od
	d.Spinner = rate(od, 3, 5, 7.5)
	d.ARReal = unrate(d.Preempt/d.Speed, 1800, 1200, 450)
	d.ODReal = unrate(d.Hit300/d.Speed, 80, 50, 20)
	return d
}
