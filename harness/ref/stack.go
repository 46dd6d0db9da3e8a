package ref

import "math"

// StackObj is what osu!'s stacking looks at.
type StackObj struct {
	Kind       byte // c, s, p
	Start, End float64
	P, E       [2]float32 // position and end position, unstacked
}

func dist32(a, b [2]float32) float64 {
	x, y := float64(b[0])-float64(a[0]), float64(b[1])-float64(a[1])
	return math.Hypot(x, y)
}

// Stack computes stack heights. ambiguous reports that some comparison was decided by rounding.
func Stack(objs []StackObj, version int, window float64) (h []int, ambiguous bool) {
	h = make([]int, len(objs))
	near := func(a, b [2]float32, exact bool) bool {
		d := dist32(a, b)
		if !exact && math.Abs(d-3) < 1e-3 {
			ambiguous = true
		}
		return d < 3
	}
	// A gap of exactly the window is decided by the times being whole numbers; with a
	// fractional time the rounding of the subtraction decides it.
	late := func(b, a float64) bool {
		gap := b - a
		if math.Abs(gap-window) < 1e-6 && (a != math.Trunc(a) || b != math.Trunc(b)) {
			ambiguous = true
		}
		return gap > window
	}
	if version < 6 {
		for i := range objs {
			if h[i] != 0 && objs[i].Kind != 's' {
				continue
			}
			t := objs[i].End
			run := 0
			for j := i + 1; j < len(objs); j++ {
				if late(objs[j].Start, t) {
					break
				}
				if near(objs[j].P, objs[i].P, true) {
					h[i]++
					t = objs[j].End
				} else if near(objs[j].P, objs[i].E, objs[i].Kind != 's') {
					run++
					h[j] -= run
					t = objs[j].End
				}
			}
		}
	} else {
		for i := len(objs) - 1; i > 0; i-- {
			if h[i] != 0 || objs[i].Kind == 'p' {
				continue
			}
			cur := i
			for n := i - 1; n >= 0; n-- {
				o := objs[n]
				if o.Kind == 'p' {
					continue
				}
				if objs[i].Kind == 's' {
					if late(objs[cur].Start, o.Start) {
						break
					}
					if near(o.E, objs[cur].P, o.Kind != 's') {
						h[n] = h[cur] + 1
						cur = n
					}
					continue
				}
				if late(objs[cur].Start, o.End) {
					break
				}
				if o.Kind == 's' && near(o.E, objs[cur].P, false) {
					off := h[cur] - h[n] + 1
					for j := n + 1; j <= i; j++ {
						if near(o.E, objs[j].P, false) {
							h[j] -= off
						}
					}
					break
				}
				if near(o.P, objs[cur].P, true) {
					h[n] = h[cur] + 1
					cur = n
				}
			}
		}
	}
	for i := range objs {
		if objs[i].Kind == 'p' {
			h[i] = 0
		}
	}
	return
}
