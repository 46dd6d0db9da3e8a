package prim

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
)

type multiCase struct {
	Type string    `json:"type"`
	Pts  []pt32    `json:"pts"`
	Cut  bool      `json:"cut"`  // with a declared length
	Frac int       `json:"frac"` // declared length, permille of the natural one
	Len  float64   `json:"len"`  // or an absolute one when frac is negative
	T    []float32 `json:"t"`
}

func drawMulti(t *rapid.T) multiCase {
	c := multiCase{Type: gen.Pick(t, "B", "B", "P", "P", "L", "C", "Z"), T: append(drawT(t), -0.5, 1.5)}
	n := gen.Pick(t, 2, 2, 3, 3, 3, 4, 5, gen.U(t, 6, 20))
	c.Pts = drawPts(t, n)
	for i := 1; i < n; i++ { // red anchors
		if gen.P(t, 1, 6) {
			c.Pts[i] = c.Pts[i-1]
		}
	}
	if c.Cut = gen.P(t, 2, 3); c.Cut {
		c.Frac = gen.Pick(t, gen.U(t, 0, 1000), gen.U(t, 0, 1000), gen.U(t, 1000, 2500), 0, 1000, gen.U(t, 0, 10), -1)
		if c.Frac < 0 {
			c.Len = float64(gen.U(t, 0, 40000)) / 16
		}
	}
	return c
}

// walk gives the point at a distance along the pieces.
func walk(ls []curves.Linear, cum []float64, d float64) pt {
	for i, l := range ls {
		if d <= cum[i+1] {
			a, b := of(l.Point1), of(l.Point2)
			if cum[i+1] == cum[i] {
				return a
			}
			return a.add(b.sub(a).mul((d - cum[i]) / (cum[i+1] - cum[i])))
		}
	}
	return of(ls[len(ls)-1].Point2)
}

func cumOf(ls []curves.Linear) []float64 {
	cum := make([]float64, len(ls)+1)
	for i, l := range ls {
		cum[i+1] = cum[i] + of(l.Point1).dist(of(l.Point2))
	}
	return cum
}

func checkMulti(c multiCase, o *core.Obs) error {
	if len(c.Pts) < 2 {
		return nil
	}
	vs := make([]vector.Vector2f, len(c.Pts))
	m := 1.0
	for i, p := range c.Pts {
		vs[i] = vec(p)
		m = math.Max(m, math.Max(abs(float64(p[0])), abs(float64(p[1]))))
	}
	in := append([]vector.Vector2f(nil), vs...)
	base := curves.NewMultiCurve(c.Type, vs)
	bl := base.GetLines()
	bcum := cumOf(bl)
	nat := bcum[len(bl)]
	drift := func(n int, l float64) float64 { return eps * (l*(4*math.Sqrt(float64(n))+8) + 8*m) }
	cv := base
	want := nat
	if c.Cut {
		want = nat * float64(c.Frac) / 1000
		if c.Frac < 0 {
			want = c.Len
		}
		cv = curves.NewMultiCurveT(c.Type, vs, want)
		o.Label("declared length")
	}
	o.Label("type " + c.Type)
	for i := range vs {
		if vs[i] != in[i] {
			return fmt.Errorf("control point %d was changed", i)
		}
	}
	ls := cv.GetLines()
	cum := cumOf(ls)
	total := cum[len(ls)]
	// arcs through nearly collinear or nearly equal points are beyond single precision
	ill := false
	if c.Type == "P" && len(vs) == 3 {
		a, b, d := of(vs[0]), of(vs[1]), of(vs[2])
		s1, s2, s3 := b.sub(a).len(), d.sub(b).len(), d.sub(a).len()
		cr := abs(b.sub(a).cross(d.sub(a)))
		ill = cr > 0 && (s1*s2*s3/(2*cr) > 1500 || math.Min(s1, math.Min(s2, s3)) < math.Max(1, m/30)) || m > 2000
		o.LabelIf(ill, "ill-conditioned arc")
	}
	// pieces in a row, from the first control point
	for i, l := range ls {
		if !fin(l.Point1) || !fin(l.Point2) {
			return fmt.Errorf("piece %d is not finite: %v", i, l)
		}
		prev := vs[0]
		if i == 0 && ill {
			continue
		}
		if i > 0 {
			prev = ls[i-1].Point2
		}
		if d := of(prev).dist(of(l.Point1)); d > 1e-2+16*eps*m {
			return fmt.Errorf("piece %d starts %v px from where the one before ends", i, d)
		}
	}
	if got := float64(cv.GetLength()); abs(got-total) > eps*total*(float64(len(ls))+8) {
		return fmt.Errorf("length %v, its %d pieces have %v", got, len(ls), total)
	}
	o.Compared(2)
	if len(ls) >= 2 {
		o.Nontrivial()
	}
	if len(ls) == 0 || total == 0 {
		for _, t := range c.T {
			if p := cv.PointAt(t); p != vs[0] {
				return fmt.Errorf("a curve without length is at %v, not at its first point %v", p, vs[0])
			}
		}
	} else if total > 1e-3 {
		// the end points of natural curves
		if !c.Cut {
			if d := of(cv.PointAt(1)).dist(of(vs[len(vs)-1])); c.Type != "Z" && !ill && d > 1e-2+1e-5*m+drift(len(ls), total) {
				return fmt.Errorf("ends %v px from the last control point", d)
			}
		}
		tolD := drift(len(ls), total) + 2*abs(float64(cv.GetLength())-total)
		for _, t := range c.T {
			d := total * math.Max(0, math.Min(1, float64(t)))
			p := cv.PointAt(t)
			o.Compared(1)
			if e := of(p).dist(walk(ls, cum, d)); e > tolD {
				return fmt.Errorf("at %v the curve is at %v, %v px from the point after %v of %v px", t, p, e, d, total)
			}
			if q := cv.PointAt(t); q != p {
				return fmt.Errorf("asked again at %v: %v, then %v", t, p, q)
			}
			okS, okE := false, false
			s, e := cv.GetStartAngleAt(t), cv.GetEndAngleAt(t)
			for i, l := range ls {
				if cum[i] <= d+tolD && cum[i+1] >= d-tolD {
					okS = okS || l.GetStartAngle() == s
					okE = okE || l.GetEndAngle() == e
				}
			}
			if !okS || !okE {
				return fmt.Errorf("the angles at %v, %v and %v, are not those of the piece there", t, s, e)
			}
		}
		if cv.GetStartAngle() != ls[0].GetStartAngle() || cv.GetEndAngle() != ls[len(ls)-1].GetEndAngle() {
			return fmt.Errorf("start or end angle is not that of the first or last piece")
		}
	}
	if !c.Cut || nat <= 1e-3 {
		return nil
	}
	// the declared length keeps the beginning of the natural curve
	if len(ls) > len(bl) {
		return fmt.Errorf("%d pieces, more than the %d of the uncut curve", len(ls), len(bl))
	}
	for i, l := range ls {
		if i+1 < len(ls) && l != bl[i] {
			return fmt.Errorf("piece %d of the cut curve is %v, of the natural one %v", i, l, bl[i])
		}
	}
	tol := 2e-4 + drift(len(bl), math.Max(nat, want)) + eps*nat*float64(len(bl))
	if want <= 1e-3 {
		if total > tol+want {
			return fmt.Errorf("length %v for a declared length of %v", total, want)
		}
		return nil
	}
	k := len(ls) - 1
	if k < 0 {
		return fmt.Errorf("nothing left of %v px, declared %v", nat, want)
	}
	if bcum[len(bl)] == bcum[len(bl)-1] && want > nat { // ends in a doubled point: cannot be extended
		o.Label("not extendable")
		want = nat
	}
	o.LabelIf(want > nat, "extended")
	o.LabelIf(want < nat, "cut")
	if last := bcum[len(bl)] - bcum[len(bl)-1]; want > nat && last > 0 {
		tol += 4 * eps * m * (want - nat) / last // a tiny last piece drawn out
	}
	if abs(total-want) > tol {
		return fmt.Errorf("length %v for a declared length of %v (natural %v)", total, want, nat)
	}
	if ls[k].Point1 != bl[k].Point1 {
		return fmt.Errorf("the last piece starts at %v, in the natural curve at %v", ls[k].Point1, bl[k].Point1)
	}
	// in the direction of the natural piece
	a, b, e := of(bl[k].Point1), of(bl[k].Point2), of(ls[k].Point2)
	if n := b.sub(a).len(); n > 1e-3 {
		u := b.sub(a).mul(1 / n)
		m := math.Max(m, math.Max(a.len(), e.len())) // arcs reach further than their points
		off := e.sub(a)
		if abs(off.cross(u)) > 32*eps*(m+off.len())+tol || off.dot(u) < -tol {
			return fmt.Errorf("the last piece ends at %v, off the direction of the natural piece %v", ls[k].Point2, bl[k])
		}
	}
	o.Compared(3)
	return nil
}

func init() {
	core.Register("C30", "a composite curve of any type with 2-20 control points, doubled points included, uncut or cut or extended to a declared length; non-trivial: at least two pieces", 100000, 3000000, drawMulti, checkMulti)
}
