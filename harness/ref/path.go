// Package ref holds independent models of what osu! defines: slider paths, timing,
// ticks, stacking, difficulty values, star ratings and performance points.
// Nothing here calls the code under test.
package ref

import "math"

// Pt is a point in float64.
type Pt struct{ X, Y float64 }

func (a Pt) Sub(b Pt) Pt             { return Pt{a.X - b.X, a.Y - b.Y} }
func (a Pt) Add(b Pt) Pt             { return Pt{a.X + b.X, a.Y + b.Y} }
func (a Pt) Mul(s float64) Pt        { return Pt{a.X * s, a.Y * s} }
func (a Pt) Len() float64            { return math.Hypot(a.X, a.Y) }
func (a Pt) Dist(b Pt) float64       { return a.Sub(b).Len() }
func (a Pt) Lerp(b Pt, t float64) Pt { return Pt{a.X + (b.X-a.X)*t, a.Y + (b.Y-a.Y)*t} }

// Path is a densely sampled curve with cumulative lengths.
type Path struct {
	P   []Pt
	Cum []float64
	// SegLen is the longest flattening segment the format allows here, and Sag the
	// largest distance such a segment may stray from the curve.
	Sag   float64
	Noise float64 // rounding of a circle computed in float32
	Full  float64 // uncut length of an ill-conditioned arc, estimated
	Drift float64 // relative arc-length shortfall a flattening may have
	Slip  float64 // arc length a flattening may be too long by, its pieces lying outside the bends
	Ill   bool    // geometry too ill-conditioned in float32 to judge
	Zero  bool    // ends in a zero-length segment: never extended
}

// Bezier evaluates a Bezier curve by de Casteljau's algorithm.
func Bezier(pts []Pt, t float64) Pt {
	w := append([]Pt(nil), pts...)
	for n := len(w) - 1; n > 0; n-- {
		for i := 0; i < n; i++ {
			w[i] = w[i].Lerp(w[i+1], t)
		}
	}
	return w[0]
}

// Catmull evaluates a uniform Catmull-Rom segment between b and c.
func Catmull(a, b, c, d Pt, t float64) Pt {
	f := func(a, b, c, d float64) float64 {
		return b + 0.5*t*((c-a)+t*((2*a-5*b+4*c-d)+t*(3*(b-c)+d-a)))
	}
	return Pt{f(a.X, b.X, c.X, d.X), f(a.Y, b.Y, c.Y, d.Y)}
}

// Arc describes the circular arc from a through b to c.
type Arc struct {
	C            Pt
	R, A0, Sweep float64 // signed sweep
}

// NewArc returns the arc and whether the points are not collinear.
func NewArc(a, b, c Pt) (Arc, bool) {
	bx, by := b.X-a.X, b.Y-a.Y
	cx, cy := c.X-a.X, c.Y-a.Y
	d := 2 * (bx*cy - by*cx)
	if d == 0 {
		return Arc{}, false
	}
	ux := (cy*(bx*bx+by*by) - by*(cx*cx+cy*cy)) / d
	uy := (bx*(cx*cx+cy*cy) - cx*(bx*bx+by*by)) / d
	ctr := Pt{a.X + ux, a.Y + uy}
	r := math.Hypot(ux, uy)
	a0 := math.Atan2(a.Y-ctr.Y, a.X-ctr.X)
	norm := func(x float64) float64 {
		x = math.Mod(x, 2*math.Pi)
		if x < 0 {
			x += 2 * math.Pi
		}
		return x
	}
	s := norm(math.Atan2(c.Y-ctr.Y, c.X-ctr.X) - a0)
	m := norm(math.Atan2(b.Y-ctr.Y, b.X-ctr.X) - a0)
	if m > s { // b is not on the counter-clockwise way
		s -= 2 * math.Pi
	}
	return Arc{ctr, r, a0, s}, true
}

func (a Arc) At(t float64) Pt {
	x := a.A0 + a.Sweep*t
	return Pt{a.C.X + a.R*math.Cos(x), a.C.Y + a.R*math.Sin(x)}
}

func (a Arc) Length() float64 { return a.R * math.Abs(a.Sweep) }

func (p *Path) add(q Pt) {
	if n := len(p.P); n > 0 {
		p.Cum = append(p.Cum, p.Cum[n-1]+p.P[n-1].Dist(q))
	} else {
		p.Cum = append(p.Cum, 0)
	}
	p.P = append(p.P, q)
}

func polyLen(pts []Pt) float64 {
	s := 0.0
	for i := 1; i < len(pts); i++ {
		s += pts[i].Dist(pts[i-1])
	}
	return s
}

func (p *Path) bezierPiece(pts []Pt) {
	if len(pts) < 2 {
		return
	}
	if len(pts) == 2 {
		p.Zero = pts[0] == pts[1]
		p.add(pts[1])
		return
	}
	n := int(math.Max(64, math.Min(3000, polyLen(pts)*1.5)))
	for i := 1; i <= n; i++ {
		p.add(Bezier(pts, float64(i)/float64(n)))
	}
	p.Zero = pts[0] == pts[len(pts)-1] && polyLen(pts) == 0
}

// NewPath builds the natural (uncut) path of a slider.
func NewPath(curve string, pts []Pt) *Path {
	p := &Path{Sag: 0.02}
	p.add(pts[0])
	linear := func() {
		for i := 1; i < len(pts); i++ {
			if pts[i] != pts[i-1] {
				p.add(pts[i])
			}
		}
	}
	bezier := func() {
		// flattening strays further with more control points
		p.Sag, p.Drift = 0.05+0.0157*float64(len(pts)), 0.02 // at most degree/32 of the flatness bound 0.5
		if len(pts) > 9 {                                    // and smoothing: half and a quarter of a second difference, a quarter of 0.5
			p.Sag += 0.094
			p.Slip = 5 * p.Sag
		}
		start := 0
		for i := 0; i < len(pts); i++ {
			split := i < len(pts)-2 && pts[i] == pts[i+1]
			if split || i == len(pts)-1 {
				p.bezierPiece(pts[start : i+1])
				if split {
					i++
				}
				start = i
			}
		}
	}
	switch curve {
	case "L":
		linear()
	case "B":
		bezier()
	case "C":
		p.Sag, p.Drift = 0.08, 0.02
		for i := 0; i+1 < len(pts); i++ {
			a, b, c := pts[i], pts[i], pts[i+1]
			if i > 0 {
				a = pts[i-1]
			}
			d := c.Add(c.Sub(b))
			if i+2 < len(pts) {
				d = pts[i+2]
			}
			// 50 segments per span: the sagitta grows with the span
			if l := polyLen([]Pt{a, b, c, d}); l/50*0.013 > p.Sag {
				p.Sag = l / 50 * 0.013
			}
			for k := 1; k <= 400; k++ {
				p.add(Catmull(a, b, c, d, float64(k)/400))
			}
		}
	case "P":
		switch {
		case len(pts) > 3:
			bezier()
		case len(pts) < 3:
			linear()
		default:
			a, b, c := pts[0], pts[1], pts[2]
			det := (b.Y-a.Y)*(c.X-a.X) - (b.X-a.X)*(c.Y-a.Y)
			if math.Abs(det) < 0.001 {
				linear()
				break
			}
			arc, ok := NewArc(a, b, c)
			if !ok || arc.R > 4000 || math.Abs(det) < 0.5 {
				p.Ill = true
				p.Full = math.Min(120000, arc.Length())
				if !ok || !(p.Full > 0) {
					p.Full = 120000
				}
				linear()
				break
			}
			if 2*math.Pi-math.Abs(arc.Sweep) < 0.02 {
				p.Ill = true
			}
			n := math.Max(1, math.Floor(arc.Length()/8))
			half := math.Abs(arc.Sweep) / n / 2
			if half < math.Pi/2 {
				p.Sag = 0.02 + arc.R*(1-math.Cos(half))*1.05
			} else {
				p.Sag = 0.02 + 2*arc.R
			}
			// the rounding of a circle computed in float32
			m, dd := 0.0, math.Max(a.Dist(b), math.Max(b.Dist(c), a.Dist(c)))
			for _, q := range pts {
				m = math.Max(m, math.Max(math.Abs(q.X), math.Abs(q.Y)))
			}
			p.Noise = 2e-6 * (m*m*dd + (arc.C.Len()+arc.R)*m*dd) / (2 * math.Abs(det))
			p.Noise += 1e-6 * (arc.C.Len() + arc.R)
			p.Sag += p.Noise
			p.Drift = (1 - math.Sin(half)/half) * 1.05
			k := int(math.Max(64, arc.Length()*1.5))
			for i := 1; i <= k; i++ {
				p.add(arc.At(float64(i) / float64(k)))
			}
		}
	}
	return p
}

// Natural is the length of the uncut path.
func (p *Path) Natural() float64 { return p.Cum[len(p.Cum)-1] }

// At is the point at the given distance (clamped to the natural path).
func (p *Path) At(d float64) Pt {
	if d <= 0 || len(p.P) == 1 {
		return p.P[0]
	}
	lo, hi := 0, len(p.Cum)-1
	if d >= p.Cum[hi] {
		return p.P[hi]
	}
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if p.Cum[m] <= d {
			lo = m
		} else {
			hi = m
		}
	}
	if p.Cum[hi] == p.Cum[lo] {
		return p.P[hi]
	}
	return p.P[lo].Lerp(p.P[hi], (d-p.Cum[lo])/(p.Cum[hi]-p.Cum[lo]))
}

// DistNear is the distance from q to the part of the path between arc lengths d0 and d1.
func (p *Path) DistNear(q Pt, d0, d1 float64) float64 {
	best := math.Min(q.Dist(p.At(d0)), q.Dist(p.At(d1)))
	lo, hi := 0, len(p.Cum)
	for lo < hi { // first index with Cum >= d0
		m := (lo + hi) / 2
		if p.Cum[m] >= d0 {
			hi = m
		} else {
			lo = m + 1
		}
	}
	prev := p.At(d0)
	for i := lo; i < len(p.P); i++ {
		cur := p.P[i]
		stop := p.Cum[i] > d1
		if stop {
			cur = p.At(d1)
		}
		if d := segDist(q, prev, cur); d < best {
			best = d
		}
		if stop {
			break
		}
		prev = cur
	}
	return best
}

func segDist(q, a, b Pt) float64 {
	ab := b.Sub(a)
	l2 := ab.X*ab.X + ab.Y*ab.Y
	if l2 == 0 {
		return q.Dist(a)
	}
	t := ((q.X-a.X)*ab.X + (q.Y-a.Y)*ab.Y) / l2
	t = math.Max(0, math.Min(1, t))
	return q.Dist(a.Add(ab.Mul(t)))
}
