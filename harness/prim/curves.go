// Package prim holds the checks of the curve and vector primitives (apart from
// the others, so that they are built and run on their own).
package prim

import (
	"fmt"
	"math"
	"math/big"

	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
)

type pt struct{ X, Y float64 }

func (a pt) sub(b pt) pt           { return pt{a.X - b.X, a.Y - b.Y} }
func (a pt) add(b pt) pt           { return pt{a.X + b.X, a.Y + b.Y} }
func (a pt) mul(k float64) pt      { return pt{a.X * k, a.Y * k} }
func (a pt) len() float64          { return math.Sqrt(a.X*a.X + a.Y*a.Y) }
func (a pt) dist(b pt) float64     { return a.sub(b).len() }
func (a pt) dot(b pt) float64      { return a.X*b.X + a.Y*b.Y }
func (a pt) cross(b pt) float64    { return a.X*b.Y - a.Y*b.X }
func of(v vector.Vector2f) pt      { return pt{float64(v.X), float64(v.Y)} }
func fin(v vector.Vector2f) bool   { return fin1(v.X) && fin1(v.Y) }
func fin1(v float32) bool          { return !math.IsNaN(float64(v)) && !math.IsInf(float64(v), 0) }
func vec(p pt32) vector.Vector2f   { return vector.NewVec2f(p[0], p[1]) }
func abs(v float64) float64        { return math.Abs(v) }
func angDiff(a, b float64) float64 { return abs(math.Remainder(a-b, 2*math.Pi)) }

const eps = 1.2e-7 // one float32 ulp, relative

type pt32 [2]float32

type curveCase struct {
	Kind string    `json:"kind"`
	Pts  []pt32    `json:"pts"`
	T    []float32 `json:"t"`
	N    int64     `json:"n,omitempty"`
	K    int64     `json:"k,omitempty"`
}

func drawCoord(t *rapid.T, scale int) float32 {
	lim := []int{512, 40, 2000, 10000}[scale]
	v := float32(gen.U(t, -lim, lim))
	if gen.P(t, 1, 3) {
		v += float32(gen.U(t, 0, 1023)) / 1024
	}
	return v
}

func drawPts(t *rapid.T, n int) []pt32 {
	scale := gen.Pick(t, 0, 0, 0, 0, 1, 1, 1, 2)
	if gen.P(t, 1, 40) {
		scale = 3
	}
	ps := make([]pt32, n)
	for i := range ps {
		ps[i] = pt32{drawCoord(t, scale), drawCoord(t, scale)}
		if i > 0 && gen.P(t, 1, 10) {
			ps[i] = ps[gen.U(t, 0, i-1)]
		} else if i > 1 && gen.P(t, 1, 8) { // collinear run
			k := float32(gen.U(t, -2, 4)) / 2
			ps[i] = pt32{ps[i-1][0] + k*(ps[i-1][0]-ps[i-2][0]), ps[i-1][1] + k*(ps[i-1][1]-ps[i-2][1])}
		} else if i > 0 && gen.P(t, 1, 8) { // axis aligned or close
			ps[i][gen.U(t, 0, 1)] = ps[i-1][gen.U(t, 0, 1)]
		} else if i > 0 && gen.P(t, 1, 8) {
			ps[i] = pt32{ps[i-1][0] + float32(gen.U(t, -30, 30))/8, ps[i-1][1] + float32(gen.U(t, -30, 30))/8}
		}
	}
	return ps
}

func drawT(t *rapid.T) []float32 {
	ts := []float32{0, 1}
	for i := 0; i < 4; i++ {
		switch gen.U(t, 0, 3) {
		case 0:
			ts = append(ts, float32(gen.U(t, 0, 16))/16)
		case 1:
			ts = append(ts, float32(gen.U(t, 0, 1<<20))/(1<<20))
		case 2:
			ts = append(ts, float32(gen.U(t, 0, 100))/1e5)
		default:
			ts = append(ts, 1-float32(gen.U(t, 0, 100))/1e5)
		}
	}
	return ts
}

func drawCurve(t *rapid.T) curveCase {
	c := curveCase{Kind: gen.Pick(t, "line", "bezier", "bezier", "catmull", "arc", "arc", "flatten", "flatten", "binomial"), T: drawT(t)}
	switch c.Kind {
	case "line":
		c.Pts = drawPts(t, 2)
	case "bezier":
		c.Pts = drawPts(t, gen.Pick(t, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, gen.U(t, 9, 24)))
	case "flatten":
		c.Pts = drawPts(t, gen.Pick(t, 2, 3, 3, 4, 4, 5, 6, 8, gen.U(t, 9, 16)))
	case "catmull":
		c.Pts = drawPts(t, 4)
	case "arc":
		c.Pts = drawPts(t, 3)
		if gen.P(t, 1, 4) { // points of one circle
			r := float64(gen.U(t, 2, 400))
			close := gen.P(t, 1, 3) // nearly a full turn, or hardly any
			a0 := float64(gen.U(t, 0, 359))
			for i := range c.Pts {
				a := float64(gen.U(t, 0, 359)) * math.Pi / 180
				if close && i != 1 {
					a = (a0 + float64(i*gen.U(t, -20, 20))/20) * math.Pi / 180
				}
				c.Pts[i] = pt32{float32(256 + r*math.Cos(a)), float32(192 + r*math.Sin(a))}
			}
		}
	case "binomial":
		c.N = int64(gen.U(t, 0, 60))
		c.K = int64(gen.U(t, -2, int(c.N)+3))
	}
	return c
}

// deCasteljau evaluates a Bezier of any degree.
func deCasteljau(ps []pt, t float64) pt {
	w := append([]pt(nil), ps...)
	for n := len(w) - 1; n > 0; n-- {
		for i := 0; i < n; i++ {
			w[i] = w[i].mul(1 - t).add(w[i+1].mul(t))
		}
	}
	return w[0]
}

func sampled(f func(float64) pt, n int) (ps []pt, length float64) {
	for i := 0; i <= n; i++ {
		ps = append(ps, f(float64(i)/float64(n)))
		if i > 0 {
			length += ps[i].dist(ps[i-1])
		}
	}
	return
}

func segDist(p, a, b pt) float64 {
	d := b.sub(a)
	l := d.dot(d)
	if l == 0 {
		return p.dist(a)
	}
	k := math.Max(0, math.Min(1, p.sub(a).dot(d)/l))
	return p.dist(a.add(d.mul(k)))
}

func polyDist(p pt, line []pt) float64 {
	best := p.dist(line[0])
	for i := 1; i < len(line); i++ {
		if d := segDist(p, line[i-1], line[i]); d < best {
			best = d
		}
	}
	return best
}

func maxAbs(ps []pt) float64 {
	m := 0.0
	for _, p := range ps {
		m = math.Max(m, math.Max(abs(p.X), abs(p.Y)))
	}
	return m
}

func spread(ps []pt) float64 {
	m := 0.0
	for _, p := range ps {
		m = math.Max(m, p.dist(ps[0]))
	}
	return m
}

// lengthOK: at least the polyline of the curve sampled about once a unit, at most the curve itself.
func lengthOK(f func(float64) pt, sections float64, got float32, noise float64) error {
	n := int(math.Ceil(sections))
	if n > 60000 {
		return nil
	}
	coarse := 0.0
	if n > 0 {
		_, coarse = sampled(f, n)
	}
	_, fine := sampled(f, 2*n+200)
	tol := 0.02 + 0.002*fine + noise*float64(n)
	if !(float64(got) >= coarse-tol && float64(got) <= fine+tol) {
		return fmt.Errorf("length %v, want %v (sampled once a unit) to %v (finely)", got, coarse, fine)
	}
	return nil
}

func checkC25(c curveCase, o *core.Obs) error {
	o.Label(c.Kind)
	if c.Kind == "binomial" {
		o.Nontrivial()
		want := new(big.Int)
		if c.K >= 0 && c.K <= c.N {
			want.Binomial(c.N, c.K)
		}
		o.Compared(1)
		if got := curves.BinomialCoefficient(c.N, c.K); want.Cmp(big.NewInt(got)) != 0 {
			return fmt.Errorf("binomial(%d,%d) = %d, want %v", c.N, c.K, got, want)
		}
		return nil
	}
	var vs []vector.Vector2f
	var ps []pt
	for _, p := range c.Pts {
		vs = append(vs, vec(p))
		ps = append(ps, of(vec(p)))
	}
	orig := append([]vector.Vector2f(nil), vs...)
	m := maxAbs(ps) + 1
	var err error
	switch c.Kind {
	case "line":
		err = checkLine(c, o, vs, ps, m)
	case "bezier":
		err = checkBezier(c, o, vs, ps, m)
	case "catmull":
		err = checkCatmull(c, o, vs, ps, m)
	case "arc":
		err = checkArc(c, o, vs, ps, m)
	case "flatten":
		err = checkFlatten(o, vs, ps, m)
	}
	if err == nil {
		for i := range vs {
			if vs[i] != orig[i] {
				err = fmt.Errorf("control point %d was changed from %v to %v", i, orig[i], vs[i])
			}
		}
	}
	if err != nil {
		return fmt.Errorf("%s: %v", c.Kind, err)
	}
	return nil
}

func near(o *core.Obs, what string, t float32, got vector.Vector2f, want pt, tol float64) error {
	o.Compared(1)
	if d := of(got).dist(want); !(d <= tol) {
		return fmt.Errorf("%s at %v is %v, want %v (tolerance %.3g)", what, t, got, want, tol)
	}
	return nil
}

func checkLine(c curveCase, o *core.Obs, vs []vector.Vector2f, ps []pt, m float64) error {
	ln := curves.NewLinear(vs[0], vs[1])
	o.Nontrivial()
	for _, t := range c.T {
		if err := near(o, "point", t, ln.PointAt(t), ps[0].mul(1-float64(t)).add(ps[1].mul(float64(t))), 6*eps*m); err != nil {
			return err
		}
	}
	if l := ps[0].dist(ps[1]); abs(float64(ln.GetLength())-l) > 4*eps*(m+l) {
		return fmt.Errorf("length %v, want %v", ln.GetLength(), l)
	}
	if ps[0] != ps[1] {
		d := ps[0].sub(ps[1])
		if a := math.Atan2(d.Y, d.X); angDiff(float64(ln.GetStartAngle()), a) > 1e-5+2*eps*m/d.len() {
			return fmt.Errorf("start angle %v, want %v", ln.GetStartAngle(), a)
		}
		if a := math.Atan2(-d.Y, -d.X); angDiff(float64(ln.GetEndAngle()), a) > 1e-5+2*eps*m/d.len() {
			return fmt.Errorf("end angle %v, want %v", ln.GetEndAngle(), a)
		}
	}
	return nil
}

func control(ps []pt) (l float64) {
	for i := 1; i < len(ps); i++ {
		l += ps[i].dist(ps[i-1])
	}
	return
}

func checkBezier(c curveCase, o *core.Obs, vs []vector.Vector2f, ps []pt, m float64) error {
	bz := curves.NewBezier(vs)
	f := func(t float64) pt { return deCasteljau(ps, t) }
	n := float64(len(ps))
	tol := 2 * eps * m * (n + 4)
	for _, t := range c.T {
		if err := near(o, "point", t, bz.PointAt(t), f(float64(t)), tol); err != nil {
			return err
		}
	}
	ctl := control(ps)
	if ctl > 0 && len(ps) > 2 {
		o.Nontrivial()
	}
	if ctl*n < 20000 {
		// the section count itself is the rounded-up control length, which may be off by one
		if err := lengthOK(f, ctl-1e-4*ctl, bz.GetLength(), tol); err != nil {
			return err
		}
	}
	if raw := curves.NewBezierNA(vs).GetLength(); abs(float64(raw)-ctl) > eps*n*(ctl+m) {
		return fmt.Errorf("length before approximation %v, want the control polygon's %v", raw, ctl)
	}
	if ctl > 2 {
		return endAngles(bz, f, ctl, 2*tol)
	}
	return nil
}

// endAngles: the directions from the first and last unit step out through the ends.
func endAngles(cv curves.Curve, f func(float64) pt, length, tol float64) error {
	step := 1 / length
	d := f(0).sub(f(step))
	if d.len() > 0.05 {
		if a := math.Atan2(d.Y, d.X); angDiff(float64(cv.GetStartAngle()), a) > 0.01+4*tol/d.len() {
			return fmt.Errorf("start angle %v, want %v", cv.GetStartAngle(), a)
		}
	}
	d = f(1).sub(f(1 - step))
	if d.len() > 0.05 {
		if a := math.Atan2(d.Y, d.X); angDiff(float64(cv.GetEndAngle()), a) > 0.01+4*tol/d.len() {
			return fmt.Errorf("end angle %v, want %v", cv.GetEndAngle(), a)
		}
	}
	return nil
}

func checkCatmull(c curveCase, o *core.Obs, vs []vector.Vector2f, ps []pt, m float64) error {
	cm := curves.NewCatmull(vs)
	f := func(t float64) pt {
		// Hermite form: through the inner points, tangents half the outer chords
		a, b := ps[1], ps[2]
		ta, tb := ps[2].sub(ps[0]).mul(0.5), ps[3].sub(ps[1]).mul(0.5)
		t2, t3 := t*t, t*t*t
		return a.mul(2*t3 - 3*t2 + 1).add(ta.mul(t3 - 2*t2 + t)).add(b.mul(-2*t3 + 3*t2)).add(tb.mul(t3 - t2))
	}
	o.Nontrivial()
	tol := 24 * eps * m
	for _, t := range c.T {
		if err := near(o, "point", t, cm.PointAt(t), f(float64(t)), tol); err != nil {
			return err
		}
	}
	if d := ps[1].dist(ps[2]); d < 6000 {
		return lengthOK(f, d-1e-4*d, cm.GetLength(), tol)
	}
	return nil
}

func checkArc(c curveCase, o *core.Obs, vs []vector.Vector2f, ps []pt, m float64) error {
	a, b, e := ps[0], ps[1], ps[2]
	crs := b.sub(a).cross(e.sub(a))
	d := math.Max(a.dist(b), math.Max(b.dist(e), a.dist(e)))
	arc := curves.NewCirArc(vs[0], vs[1], vs[2])
	if crs == 0 && d < 1000 && whole(ps) {
		o.Label("collinear")
		if !arc.Unstable {
			return fmt.Errorf("collinear points are not marked unstable")
		}
		return nil
	}
	if abs(crs) > 0.002+8*eps*d*d && arc.Unstable {
		return fmt.Errorf("points far from a line (cross product %v) are marked unstable", crs)
	}
	if abs(crs) < 0.01 {
		return nil
	}
	// circumcircle relative to a
	u, w := b.sub(a), e.sub(a)
	k := 2 * crs
	ctr := pt{(w.Y*u.dot(u) - u.Y*w.dot(w)) / k, (u.X*w.dot(w) - w.X*u.dot(u)) / k}
	r := ctr.len()
	ctr = ctr.add(a)
	mm := m
	cerr := 8 * eps * (mm*mm*d + (ctr.len()+r)*mm*d) / abs(k)
	tol := 4*cerr + 40*eps*(ctr.len()+r) + 1e-4
	if tol > 0.02*r || tol > 1 || a.dist(e) < 40*tol {
		o.Label("ill-conditioned")
		if l := float64(arc.GetLength()); l < -1e-5*r {
			return fmt.Errorf("length %v", l)
		}
		return nil
	}
	o.Nontrivial()
	a0 := math.Atan2(a.Y-ctr.Y, a.X-ctr.X)
	turn := func(p pt) float64 { // angle from a to p in the arc's direction
		x := math.Atan2(p.Y-ctr.Y, p.X-ctr.X) - a0
		if crs < 0 {
			x = -x
		}
		x = math.Mod(x, 2*math.Pi)
		if x < 0 {
			x += 2 * math.Pi
		}
		return x
	}
	total := turn(e)
	sgn := 1.0
	if crs < 0 {
		sgn = -1
	}
	f := func(t float64) pt {
		x := a0 + sgn*t*total
		return pt{ctr.X + r*math.Cos(x), ctr.Y + r*math.Sin(x)}
	}
	o.LabelIf(total > math.Pi, "reflex")
	for _, t := range c.T {
		if err := near(o, "point", t, arc.PointAt(t), f(float64(t)), 2*tol); err != nil {
			return err
		}
	}
	tb := turn(b) / total
	for _, x := range []struct {
		t float64
		p pt
	}{{0, a}, {tb, b}, {1, e}} {
		if err := near(o, "through point", float32(x.t), arc.PointAt(float32(x.t)), x.p, 2*tol); err != nil {
			return err
		}
	}
	l := r * total
	if abs(float64(arc.GetLength())-l) > 4*tol*(1+total) {
		return fmt.Errorf("length %v, want %v", arc.GetLength(), l)
	}
	if l > 2 && 2*tol < 0.1 {
		return endAngles(arc, f, l, 2*tol)
	}
	return nil
}

func whole(ps []pt) bool {
	for _, p := range ps {
		if p.X != math.Trunc(p.X) || p.Y != math.Trunc(p.Y) {
			return false
		}
	}
	return true
}

func checkFlatten(o *core.Obs, vs []vector.Vector2f, ps []pt, m float64) error {
	out := curves.NewBezierApproximator(vs).CreateBezier()
	if len(out) < 2 {
		return fmt.Errorf("%d points", len(out))
	}
	if out[0] != vs[0] || out[len(out)-1] != vs[len(vs)-1] {
		return fmt.Errorf("ends %v %v, want %v %v", out[0], out[len(out)-1], vs[0], vs[len(vs)-1])
	}
	if len(vs) > 2 && spread(ps) > 1 {
		o.Nontrivial()
	}
	var line []pt
	length := 0.0
	for i, v := range out {
		if !fin(v) {
			return fmt.Errorf("point %d is %v", i, v)
		}
		line = append(line, of(v))
		if i > 0 {
			length += line[i].dist(line[i-1])
		}
	}
	o.Count("flattened points", len(out))
	tol := flatTol + 60*eps*m
	n := 4 * len(line)
	if n < 200 {
		n = 200
	}
	if n > 1200 {
		n = 1200
	}
	// how far the sampled reference itself can be from the curve
	bend := 0.0
	for i := 1; i+1 < len(ps); i++ {
		bend = math.Max(bend, ps[i-1].add(ps[i+1]).sub(ps[i].mul(2)).len())
	}
	deg := float64(len(ps) - 1)
	refSag := deg * (deg - 1) * bend / 8 / float64(n) / float64(n)
	fine, fl := sampled(func(t float64) pt { return deCasteljau(ps, t) }, n)
	o.Compared(len(fine) + len(line))
	for i, p := range fine {
		if d := polyDist(p, line); d > tol {
			return fmt.Errorf("curve point %v of %d, %v, is %.3f away from the flattened line of %d points", i, n, p, d, len(line))
		}
	}
	for i, p := range line {
		if d := polyDist(p, fine); d > tol+refSag {
			return fmt.Errorf("flattened point %d of %d, %v, is %.3f away from the curve", i, len(line), p, d)
		}
	}
	if abs(length-fl) > 0.01*fl+float64(len(line))*1e-3+1 {
		return fmt.Errorf("flattened length %v, curve length %v", length, fl)
	}
	return nil
}

// flatTol: up to 16 points stay within about 0.17 (the bound grows with the degree).
const flatTol = 0.25
