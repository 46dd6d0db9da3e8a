package prim

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/math/math32"
	"github.com/Wieku/gosu-pp/math/mutils"
	"github.com/Wieku/gosu-pp/math/vector"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
)

type vecCase struct {
	A, B, C pt32
	S       float32   // scalar
	T       float32   // interpolation parameter
	Rad     float32   // angle
	F       []float64 // scalars for the helpers: x, lo, hi
	I       []int64
}

func drawScalar(t *rapid.T) float64 {
	switch gen.U(t, 0, 5) {
	case 0:
		return float64(gen.U(t, -5, 5))
	case 1:
		return float64(gen.U(t, -4000, 4000)) / 8
	case 2:
		return float64(gen.U(t, -1000, 1000)) + 0.5
	case 3:
		return float64(gen.U(t, -1<<20, 1<<20)) / (1 << 22)
	case 4:
		return float64(gen.U(t, -2000000, 2000000))
	}
	return float64(gen.U(t, -100000, 100000)) / 977
}

func drawVec(t *rapid.T) vecCase {
	p := func() pt32 { return pt32{float32(drawScalar(t)), float32(drawScalar(t))} }
	c := vecCase{A: p(), B: p(), C: p(), S: float32(drawScalar(t)), T: gen.Pick(t, float32(0), 1, 0.5, float32(gen.U(t, 0, 1<<16))/(1<<16), float32(drawScalar(t)/100)),
		Rad: float32(gen.U(t, -8000, 8000)) / 1000}
	switch gen.U(t, 0, 7) {
	case 0:
		c.B = c.A
	case 1:
		c.B = pt32{c.A[1], -c.A[0]}
	case 2: // collinear whole points
		a := [2]int{gen.U(t, -500, 500), gen.U(t, -500, 500)}
		d := [2]int{gen.U(t, -20, 20), gen.U(t, -20, 20)}
		k, l := gen.U(t, -20, 20), gen.U(t, -20, 20)
		c.A = pt32{float32(a[0]), float32(a[1])}
		c.B = pt32{float32(a[0] + k*d[0]), float32(a[1] + k*d[1])}
		c.C = pt32{float32(a[0] + l*d[0]), float32(a[1] + l*d[1])}
	case 3: // ordinary playfield points
		q := func() pt32 { return pt32{float32(gen.U(t, -100, 612)), float32(gen.U(t, -100, 484))} }
		c.A, c.B, c.C = q(), q(), q()
	case 4:
		c.A = pt32{float32(gen.U(t, -60, 60)) / 10000, float32(gen.U(t, -60, 60)) / 10000}
	}
	lo := drawScalar(t)
	hi := lo + math.Abs(drawScalar(t))
	x := drawScalar(t)
	switch gen.U(t, 0, 4) {
	case 0:
		x = lo
	case 1:
		x = hi
	case 2:
		x = lo + (hi-lo)*float64(gen.U(t, 0, 64))/64
	}
	c.F = []float64{x, lo, hi}
	i := func() int64 {
		if gen.P(t, 1, 4) {
			return int64(gen.U(t, -1<<30, 1<<30)) * int64(gen.U(t, 1, 1<<30))
		}
		return int64(gen.U(t, -50, 50))
	}
	a, b := i(), i()
	if a > b {
		a, b = b, a
	}
	c.I = []int64{i(), a, b}
	return c
}

func checkC28(c vecCase, o *core.Obs) error {
	a, b, d := vec(c.A), vec(c.B), vec(c.C)
	a0, b0, d0 := a, b, d
	A, B, D := of(a), of(b), of(d)
	o.Nontrivial()
	var first error
	fail := func(f string, args ...any) {
		if first == nil {
			first = fmt.Errorf(f, args...)
		}
	}
	v := func(what string, got vector.Vector2f, want pt, tx, ty float64) {
		o.Compared(1)
		if !(abs(float64(got.X)-want.X) <= 2*eps*tx+1e-37 && abs(float64(got.Y)-want.Y) <= 2*eps*ty+1e-37) {
			fail("%s of %v %v (s=%v t=%v rad=%v) is (%v,%v), want %v", what, a, b, c.S, c.T, c.Rad, got.X, got.Y, want)
		}
	}
	s := func(what string, got float32, want, tol float64) {
		o.Compared(1)
		if !(abs(float64(got)-want) <= 2*eps*tol+1e-37) {
			fail("%s of %v %v %v (s=%v t=%v rad=%v) is %v, want %v", what, a, b, d, c.S, c.T, c.Rad, got, want)
		}
	}
	S, T, R := float64(c.S), float64(c.T), float64(c.Rad)
	ax, ay, bx, by := abs(A.X), abs(A.Y), abs(B.X), abs(B.Y)
	v("sum", a.Add(b), A.add(B), ax+bx, ay+by)
	v("difference", a.Sub(b), A.sub(B), ax+bx, ay+by)
	v("sum with scalars", a.AddS(c.S, c.T), pt{A.X + S, A.Y + T}, ax+abs(S), ay+abs(T))
	v("difference with scalars", a.SubS(c.S, c.T), pt{A.X - S, A.Y - T}, ax+abs(S), ay+abs(T))
	v("product", a.Mult(b), pt{A.X * B.X, A.Y * B.Y}, ax*bx, ay*by)
	v("middle", a.Mid(b), A.add(B).mul(0.5), ax+bx, ay+by)
	v("multiple", a.Scl(c.S), A.mul(S), ax*abs(S), ay*abs(S))
	v("absolute value", a.Abs(), pt{ax, ay}, 0, 0)
	v("copy", a.Copy(), A, 0, 0)
	lerpTol := func(x, y float64) float64 { return (x + y) * (2 + 3*abs(T)) }
	v("interpolation", a.Lerp(b, c.T), A.mul(1-T).add(B.mul(T)), lerpTol(ax, bx), lerpTol(ay, by))
	v("interpolation start", a.Lerp(b, 0), A, 0, 0)
	v("interpolation end", a.Lerp(b, 1), B, 2*(ax+bx), 2*(ay+by))
	s("dot product", a.Dot(b), A.dot(B), ax*bx+ay*by)
	s("distance", a.Dst(b), A.dist(B), 2*A.dist(B)+ax+bx+ay+by)
	dx, dy := abs(A.X-B.X), abs(A.Y-B.Y)
	s("squared distance", a.DstSq(b), dx*dx+dy*dy, 4*(dx*dx+dy*dy)+(ax+bx)*dx+(ay+by)*dy)
	s("distance back", b.Dst(a), A.dist(B), 2*A.dist(B)+ax+bx+ay+by)
	s("length", a.Len(), A.len(), 4*A.len())
	s("squared length", a.LenSq(), A.dot(A), 2*A.dot(A))
	if ax+ay > 0 {
		want := math.Atan2(A.Y, A.X)
		if e := angDiff(float64(a.AngleR()), want); e > 8*eps {
			fail("angle of %v is %v, want %v", a, a.AngleR(), want)
		}
		if e := math.Abs(math.Remainder(float64(a.Angle())-want*180/math.Pi, 360)); e > 1000*eps {
			fail("angle of %v is %v degrees, want %v", a, a.Angle(), want*180/math.Pi)
		}
	}
	if A != B {
		w := A.sub(B)
		if e := angDiff(float64(a.AngleRV(b)), math.Atan2(w.Y, w.X)); e > 8*eps+4*eps*(ax+ay+bx+by)/w.len() {
			fail("angle of %v from %v is %v, want %v", a, b, a.AngleRV(b), math.Atan2(w.Y, w.X))
		}
	}
	sin, cos := math.Sincos(R)
	v("rotation", a.Rotate(c.Rad), pt{A.X*cos - A.Y*sin, A.X*sin + A.Y*cos}, 3*(ax+ay), 3*(ax+ay))
	s("rotated length", a.Rotate(c.Rad).Len(), A.len(), 8*A.len())
	v("vector of angle and length", vector.NewVec2fRad(c.Rad, c.S), pt{cos * S, sin * S}, 2*abs(S), 2*abs(S))
	n := a.Nor()
	switch l2 := A.dot(A); {
	case l2 > 2e-5:
		v("normalised", n, A.mul(1/A.len()), 4, 4)
	case !fin(n):
		fail("normalised %v is %v", a, n)
	default:
		o.Label("tiny vector")
	}
	if a.X64() != A.X || a.Y64() != A.Y {
		fail("components of %v are %v %v", a, a.X64(), a.Y64())
	}

	crs := B.sub(A).cross(D.sub(A))
	size := (dx + dy) * (abs(A.X-D.X) + abs(A.Y-D.Y))
	coord := (ax + ay + bx + by + abs(D.X) + abs(D.Y)) * (dx + dy + abs(A.X-D.X) + abs(A.Y-D.Y))
	slack := 4 * eps * (size + coord)
	straight := vector.IsStraightLine32(a, b, d)
	if abs(crs) > 0.002+slack && straight {
		fail("%v %v %v count as a straight line (cross product %v)", a, b, d, crs)
	}
	if abs(crs)+slack < 0.0005 || crs == 0 && whole([]pt{A, B, D}) && size < 1e6 {
		o.Label("straight")
		if !straight {
			fail("%v %v %v do not count as a straight line", a, b, d)
		}
	}
	// angle at a of the triangle
	p, q := B.sub(A), D.sub(A)
	if p.len() > 0.5 && q.len() > 0.5 && ax+ay+bx+by+abs(D.X)+abs(D.Y) < 4000 {
		want := math.Atan2(abs(p.cross(q)), p.dot(q))
		got := float64(vector.AngleBetween32(a, b, d))
		// the law of cosines loses precision where the cosine is flat and where the sides differ a lot
		m := math.Max(p.len(), q.len())
		cerr := 8 * eps * (m*m/(p.len()*q.len()) + 4000/math.Min(p.len(), q.len())*0)
		if !(abs(math.Cos(got)-math.Cos(want)) <= 4*cerr) {
			fail("angle at %v between %v and %v is %v, want %v", a, b, d, got, want)
		}
	}
	if a != a0 || b != b0 || d != d0 {
		fail("operands changed")
	}

	x, lo, hi := c.F[0], c.F[1], c.F[2]
	cl := math.Max(lo, math.Min(hi, x))
	if g := mutils.ClampF64(x, lo, hi); g != cl || mutils.ClampF64(g, lo, hi) != g {
		fail("clamp of %v to %v..%v is %v", x, lo, hi, g)
	}
	xf, lf, hf := float32(x), float32(lo), float32(hi)
	clf := xf
	if clf < lf {
		clf = lf
	}
	if clf > hf {
		clf = hf
	}
	if g := mutils.ClampF32(xf, lf, hf); g != clf || mutils.ClampF32(g, lf, hf) != g {
		fail("clamp of %v to %v..%v is %v", xf, lf, hf, g)
	}
	i, il, ih := c.I[0], c.I[1], c.I[2]
	ci := i
	if ci < il {
		ci = il
	}
	if ci > ih {
		ci = ih
	}
	if g := mutils.ClampI64(i, il, ih); g != ci {
		fail("clamp of %v to %v..%v is %v", i, il, ih, g)
	}
	if g := mutils.ClampI(int(i), int(il), int(ih)); g != int(ci) {
		fail("clamp of %v to %v..%v is %v", i, il, ih, g)
	}
	mn, mx := i, il
	if mn > mx {
		mn, mx = mx, mn
	}
	if mutils.MinI64(i, il) != mn || mutils.MinI64(il, i) != mn || mutils.MaxI64(i, il) != mx || mutils.MaxI64(il, i) != mx ||
		mutils.MinI(int(i), int(il)) != int(mn) || mutils.MinI(int(il), int(i)) != int(mn) || mutils.MaxI(int(i), int(il)) != int(mx) || mutils.MaxI(int(il), int(i)) != int(mx) {
		fail("minimum and maximum of %v and %v: %v %v %v %v", i, il, mutils.MinI64(i, il), mutils.MaxI64(i, il), mutils.MinI(int(i), int(il)), mutils.MaxI(int(i), int(il)))
	}
	tt := (x - lo) / math.Max(1e-3, hi-lo)
	if abs(tt) < 100 {
		want := lo*(1-tt) + hi*tt
		if g := mutils.LerpF64(lo, hi, tt); !(abs(g-want) <= 1e-13*(abs(lo)+abs(hi))*(2+abs(tt))) {
			fail("interpolation %v..%v at %v is %v, want %v", lo, hi, tt, g, want)
		}
		tf := float64(float32(tt))
		want = float64(lf)*(1-tf) + float64(hf)*tf
		if g := mutils.LerpF32(lf, hf, float32(tt)); !(abs(float64(g)-want) <= 4*eps*(abs(lo)+abs(hi))*(2+abs(tt))) {
			fail("interpolation %v..%v at %v is %v, want %v", lf, hf, tf, g, want)
		}
	}
	if mutils.LerpF64(lo, hi, 0) != lo || mutils.LerpF32(lf, hf, 0) != lf {
		fail("interpolation %v..%v does not start at its start", lo, hi)
	}

	X := float64(xf)
	m1 := func(what string, got float32, want, tol float64) {
		o.Compared(1)
		if !(abs(float64(got)-want) <= tol*abs(want)+1e-37) && !(math.IsNaN(float64(got)) && math.IsNaN(want)) {
			fail("%s of %v (and %v) is %v, want %v", what, xf, lf, got, want)
		}
	}
	L := float64(lf)
	m1("abs", math32.Abs(xf), abs(X), 0)
	m1("ceil", math32.Ceil(xf), math.Ceil(X), 0)
	m1("floor", math32.Floor(xf), math.Floor(X), 0)
	m1("min", math32.Min(xf, lf), math.Min(X, L), 0)
	m1("max", math32.Max(xf, lf), math.Max(X, L), 0)
	m1("sin", math32.Sin(xf), math.Sin(X), eps)
	m1("cos", math32.Cos(xf), math.Cos(X), eps)
	m1("tan", math32.Tan(xf), math.Tan(X), eps)
	m1("atan", math32.Atan(xf), math.Atan(X), eps)
	m1("atan2", math32.Atan2(xf, lf), math.Atan2(X, L), eps)
	U := X / (abs(X) + 1)
	m1("acos", math32.Acos(float32(U)), math.Acos(float64(float32(U))), eps)
	m1("asin", math32.Asin(float32(U)), math.Asin(float64(float32(U))), eps)
	m1("sqrt", math32.Sqrt(math32.Abs(xf)), math.Sqrt(abs(X)), eps)
	if L != 0 {
		m1("mod", math32.Mod(xf, lf), math.Mod(X, L), 0)
	}
	e := float32(math.Mod(L, 5))
	if w := math.Pow(abs(X), float64(e)); w < 1e37 && w > 1e-36 {
		m1("pow", math32.Pow(math32.Abs(xf), e), w, eps)
	}
	if rd := float64(math32.Round(xf)); abs(X) < 1<<21 && (rd != math.Trunc(rd) || abs(rd-X) > 0.5*(1+eps) || X-math.Floor(X) == 0.5 && rd != math.Floor(X)+1) {
		fail("round of %v is %v", xf, rd)
	}
	if !math32.IsNaN(math32.NaN()) || math32.IsNaN(xf) || !math.IsInf(float64(math32.Inf(1)), 1) || !math.IsInf(float64(math32.Inf(-1)), -1) || abs(float64(math32.Pi)-math.Pi) > 1e-6 {
		fail("special values")
	}
	return first
}

func init() {
	core.Register("C25", "a generated curve primitive (line, Bezier of 1-24 points, Catmull-Rom, three-point arc, flattened Bezier) with parameters including 0, 1 and values next to them, or a binomial coefficient; non-trivial: lines, Catmulls, binomials, Beziers of three or more points with some extent, arcs whose circle is well-conditioned in float32", 40000, 1600000, drawCurve, checkC25)
	core.Register("C28", "three generated vectors (equal, collinear, perpendicular, tiny and ordinary ones included), a scalar, a parameter, an angle and scalar intervals; every case compares every helper, so every one is non-trivial", 100000, 4000000, drawVec, checkC28)
}
