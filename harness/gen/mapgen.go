package gen

import (
	"math"

	"pgregory.net/rapid"
	"verif/harness/core"
)

// Opt narrows what DrawMap generates.
type Opt struct {
	MaxSegs    int // pattern segments (each up to ~12 objects)
	NoSliders  bool
	NoSpinners bool
	OnlyLinear bool
	MinObjs    int
	WholeTimes bool // integer times only (always true for object times unless FracTimes)
	FracTimes  bool // fractional object times now and then
	NoGaps     bool
	StackBias  bool
	StrictTime bool // strictly increasing start times
	NaNTP      bool // allow NaN inherited points
	Fixed      bool // ordinary coordinates only (whole pixels)
	SafePos    bool // keep well inside the playfield
	ManyTPs    bool // long timing point lists now and then
	NoNegative bool // no objects before time zero
	ManySpans  bool // sliders with hundreds of spans now and then
	Long       bool // hundreds of objects now and then
	Backwards  bool // spinners ending before they start now and then
}

func round(v, q float64) float64 { return math.Round(v/q) * q }

// Setting draws a difficulty setting in 0..10.
func Setting(t *rapid.T) core.F {
	switch U(t, 0, 5) {
	case 0:
		return core.F(U(t, 0, 10))
	case 1:
		return Pick(t, core.F(0), 10, 5, 4.9, 5.1, 9.6)
	}
	return core.F(float64(U(t, 0, 100)) / 10)
}

// CSSetting draws a circle size; small circles included.
func CSSetting(t *rapid.T) core.F {
	if P(t, 1, 3) {
		return core.F(float64(U(t, 45, 100)) / 10)
	}
	return Setting(t)
}

// Base draws a map without objects.
func Base(t *rapid.T, o Opt) Map {
	m := Map{
		Ver: Pick(t, 14, 14, 14, 13, 9, 6, 5, 4, 3, 128),
		SL:  Pick(t, core.F(0.7), 0.7, 0.5, 0.2, 1, 0, 0.3, 0.9),
		SM:  core.F(float64(U(t, 40, 360)) / 100),
		TR:  Pick(t, core.F(1), 1, 2, 0.5, 1.5, 4, 3, 8),
		HP:  Setting(t), CS: CSSetting(t), OD: Setting(t), AR: Setting(t),
	}
	if P(t, 1, 8) { // unusual, but accepted
		m.SL = Pick(t, core.F(1.5), 2, -0.5, 0.05, 3, 1.25)
	}
	if P(t, 1, 6) { // as editors write computed values
		m.SM = core.F(float64(U(t, 400000, 3600000)) / 1000000)
	}
	m.TPs = TPs(t, o)
	return m
}

// TPs draws a timing point list whose first point (in time order) is uninherited.
func TPs(t *rapid.T, o Opt) []TP {
	bl := func() core.F {
		switch U(t, 0, 3) {
		case 0:
			return core.F(60000 / float64(U(t, 60, 280)))
		case 1:
			return Pick(t, core.F(500), 333.333333333333, 300, 250, 1000, 200)
		case 2:
			if P(t, 1, 4) { // extreme tempos
				if o.ManyTPs && P(t, 1, 3) {
					return Pick(t, core.F(0.25), 1, 2, 4.5, 5, 6, 0.001, 1e6)
				}
				return Pick(t, core.F(60), 40, 30, 20, 10, 4000, 20000, 70000, 150000)
			}
		}
		return core.F(float64(U(t, 1500, 12000)) / 10)
	}
	sv := func() core.F {
		switch U(t, 0, 5) {
		case 0:
			return Pick(t, core.F(-100), -50, -200, -10, -1000, -5, -2000, -133.333333333333, -1)
		}
		return core.F(-float64(U(t, 100, 4000)) / 10)
	}
	fill := func(p TP) TP {
		p.Sig = Pick(t, 4, 3, 0, 7)
		p.Set = U(t, 0, 3)
		p.Idx = U(t, 0, 5)
		p.Vol = U(t, 0, 100)
		p.Eff = Pick(t, 0, 1, 8, 9, 0)
		if P(t, 1, 12) {
			p.Sig, p.Set, p.Idx, p.Vol = Pick(t, -4, 1, 17, 64, 100), Pick(t, -1, 4, 9), Pick(t, -1, 50, 100, 1234), Pick(t, -20, 101, 150, 1000)
			p.Eff = U(t, 0, 31)
		}
		return p
	}
	first := TP{T: core.F(U(t, -1000, 2000)), BL: bl(), Uninh: true}
	out := []TP{fill(first)}
	n := N(t, 0, 6)
	if o.ManyTPs && P(t, 1, 4) {
		n = U(t, 7, 40)
	}
	cur := float64(first.T)
	for i := 0; i < n; i++ {
		switch U(t, 0, 4) {
		case 0: // same time
		case 1:
			cur += float64(U(t, 0, 20000)) / 10
		default:
			cur += float64(U(t, 0, 4000))
		}
		p := TP{T: core.F(round(cur, 0.001))}
		if P(t, 1, 3) {
			p.Uninh = true
			p.BL = bl()
		} else if o.NaNTP && P(t, 1, 8) {
			p.BL = core.F(math.NaN())
		} else {
			p.BL = sv()
		}
		out = append(out, fill(p))
	}
	return out
}

// DrawMap draws a beatmap made of pattern segments: streams, jumps, stacks, objects
// under slider ends, rhythm changes, simultaneous objects, long gaps and spinners.
func DrawMap(t *rapid.T, o Opt) Map {
	m := Base(t, o)
	if o.MaxSegs == 0 {
		o.MaxSegs = 6
	}
	b := &builder{t: t, o: o, time: float64(U(t, 0, 3000)), x: 256, y: 192, m: &m}
	if !o.NoNegative && P(t, 1, 8) {
		b.time = -float64(U(t, 1, 5000))
	}
	segs := N(t, 0, o.MaxSegs)
	if segs == 0 && o.MinObjs == 0 && P(t, 3, 4) { // few empty maps
		segs = 1
	}
	for i := 0; i < segs; i++ {
		b.segment()
	}
	for len(m.Objs) < o.MinObjs {
		b.step(float64(U(t, 80, 300)))
		b.x, b.y = float64(U(t, 0, 512)), float64(U(t, 0, 384))
		b.circle()
	}
	if o.Long && P(t, 1, 60) {
		extend(t, &m, b, o)
	}
	Align(t, &m)
	return m
}

// Tweak returns the map with one thing about it changed.
func Tweak(t *rapid.T, m Map) Map {
	m.Objs = append([]Obj(nil), m.Objs...)
	m.TPs = append([]TP(nil), m.TPs...)
	small := func() core.F { return core.F(Pick(t, 1, -1, 5, -7, 40)) }
	k := U(t, 0, 12)
	if len(m.Objs) == 0 && k > 6 {
		k -= 6
	}
	switch k {
	case 0:
		m.OD = Setting(t)
	case 1:
		m.AR = Setting(t)
	case 2:
		m.CS = CSSetting(t)
	case 3:
		m.HP = Setting(t)
	case 4:
		m.SL = Pick(t, core.F(0), 0.3, 0.7, 1)
	case 5:
		m.SM = core.F(float64(U(t, 40, 360)) / 100)
	case 6:
		p := &m.TPs[U(t, 0, len(m.TPs)-1)]
		p.BL *= Pick(t, core.F(0.5), 2, 1.25)
	default:
		o := &m.Objs[U(t, 0, len(m.Objs)-1)]
		switch {
		case o.K == "s" && P(t, 2, 3):
			switch U(t, 0, 3) {
			case 0:
				o.Rep = o.Rep%3 + 1
			case 1:
				o.Len += core.F(math.Abs(float64(small())))
			case 2:
				o.Pts = append([][2]core.F(nil), o.Pts...)
				o.Pts[U(t, 0, len(o.Pts)-1)][U(t, 0, 1)] += small()
			case 3:
				o.Curve = Pick(t, "L", "B", "C")
			}
		case o.K == "p" && P(t, 1, 2):
			o.End += core.F(math.Abs(float64(small())))
		case P(t, 1, 2):
			o.X += small()
		case P(t, 1, 2):
			o.Y += small()
		case P(t, 1, 2):
			o.NC = !o.NC
		default:
			o.Snd ^= 2
		}
	}
	return m
}

// extend repeats the objects drawn, with variations, until there are hundreds of them.
func extend(t *rapid.T, m *Map, b *builder, o Opt) {
	for len(m.Objs) < 3 {
		b.segment()
	}
	first, last := m.Objs[0], m.Objs[len(m.Objs)-1]
	end := math.Max(b.time, math.Max(float64(last.T), float64(last.End)))
	span := math.Ceil(end-float64(first.T)) + float64(Pick(t, 60, 150, 300, 450))
	if span > 40000 {
		return
	}
	n := len(m.Objs)
	total := U(t, 150, 700)
	dx, dy := U(t, -9, 9), U(t, -9, 9)
	for k := 1; len(m.Objs) < total && k < 200; k++ {
		sx, sy := core.F(k*dx%97), core.F(k*dy%97)
		for _, ob := range m.Objs[:n] {
			c := ob
			c.T += core.F(float64(k) * span)
			if c.K == "p" {
				c.End += core.F(float64(k) * span)
			} else if !o.SafePos {
				c.X, c.Y = ob.X+sx, ob.Y+sy
				if c.X < 0 || c.X > 512 {
					c.X = ob.X
				}
				if c.Y < 0 || c.Y > 384 {
					c.Y = ob.Y
				}
				c.Pts = append([][2]core.F(nil), ob.Pts...)
				for i := range c.Pts {
					c.Pts[i][0] += c.X - ob.X
					c.Pts[i][1] += c.Y - ob.Y
				}
			}
			m.Objs = append(m.Objs, c)
		}
	}
}

// Align moves timing points to (or just around) object times now and then, where it matters
// most which point is in effect.
func Align(t *rapid.T, m *Map) {
	if len(m.TPs) < 2 || len(m.Objs) == 0 || !P(t, 1, 3) {
		return
	}
	for k := N(t, 1, 3); k > 0; k-- {
		i := U(t, 1, len(m.TPs)-1)
		at := m.Objs[U(t, 0, len(m.Objs)-1)].T + Pick(t, core.F(0), 0, 0, 0.25, -0.25, 0.5, -0.5, 1, -1)
		if at >= m.TPs[0].T {
			m.TPs[i].T = at
		}
	}
}

type builder struct {
	t    *rapid.T
	o    Opt
	m    *Map
	time float64
	x, y float64
	ex   float64 // end of the last slider drawn
	ey   float64
}

func (b *builder) step(dt float64) {
	if b.o.StrictTime && dt < 1 {
		dt = 1
	}
	if b.o.FracTimes && P(b.t, 1, 4) {
		dt += float64(U(b.t, 0, 9)) / 10
	}
	b.time = round(b.time+dt, 0.001)
}

func (b *builder) clampPos() {
	lo := 0.0
	if b.o.SafePos {
		lo = 60
	}
	b.x = math.Max(lo, math.Min(512-lo, b.x))
	b.y = math.Max(lo, math.Min(384-lo, b.y))
	if b.o.Fixed {
		b.x, b.y = math.Round(b.x), math.Round(b.y)
	} else {
		b.x, b.y = round(b.x, 0.25), round(b.y, 0.25)
	}
}

func (b *builder) common(k string) Obj {
	b.clampPos()
	t := b.t
	ob := Obj{K: k, X: core.F(b.x), Y: core.F(b.y), T: core.F(b.time)}
	if P(t, 1, 6) {
		ob.NC = true
		if P(t, 1, 4) {
			ob.Skip = U(t, 0, 7)
		}
	}
	if P(t, 1, 4) {
		ob.Snd = U(t, 0, 14)
	}
	return ob
}

func (b *builder) circle() {
	b.m.Objs = append(b.m.Objs, b.common("c"))
}

func (b *builder) spinner(d float64) {
	ob := b.common("p")
	ob.X, ob.Y = 256, 192
	if P(b.t, 1, 6) {
		ob.X, ob.Y = core.F(b.x), core.F(b.y)
	}
	ob.End = core.F(b.time + d)
	b.m.Objs = append(b.m.Objs, ob)
	b.time += math.Max(d, 0)
}

// slider draws a slider at the current position and time.
func (b *builder) slider(beatPx float64) {
	ob := b.common("s")
	DrawShape(b.t, &ob, b.o)
	b.m.Objs = append(b.m.Objs, ob)
	last := ob.Pts[len(ob.Pts)-1]
	b.ex, b.ey = float64(last[0]), float64(last[1])
	// advance roughly by the slider's duration
	bl := float64(b.m.TPs[0].BL)
	d := float64(ob.Len) * float64(ob.Rep) / (100 * float64(b.m.SM)) * bl
	switch U(b.t, 0, 5) {
	case 0: // overlap the slider
	default:
		b.time = math.Floor(b.time + math.Min(d, 6000))
	}
}

// DrawShape draws curve type, control points, repeats, length and edge sounds.
func DrawShape(t *rapid.T, ob *Obj, o Opt) {
	ob.Curve = Pick(t, "L", "B", "P", "B", "P", "C", "L")
	if o.OnlyLinear {
		ob.Curve = "L"
	}
	n := 1
	switch ob.Curve {
	case "L":
		n = 1 + N(t, 0, 3)
	case "B":
		n = 1 + N(t, 0, 6)
		if P(t, 1, 40) && !o.OnlyLinear { // long strings of control points
			n = U(t, 8, 60)
		}
	case "P":
		n = 2
		if P(t, 1, 8) {
			n = Pick(t, 1, 3, 4)
		}
	case "C":
		n = 1 + N(t, 0, 4)
	}
	px, py := float64(ob.X), float64(ob.Y)
	poly := 0.0
	red := !o.OnlyLinear && (n < 8 || P(t, 1, 2))
	big := P(t, 1, 10)
	frac := !o.Fixed && !o.OnlyLinear && P(t, 1, 16)
	for i := 0; i < n; i++ {
		var nx, ny float64
		switch {
		case (i > 0 && P(t, 1, 4) || i == 0 && P(t, 1, 16)) && red: // doubled (red) point
			nx, ny = px, py
		case P(t, 1, 12): // straight on
			nx, ny = px+float64(U(t, 5, 80)), py
		case big:
			nx, ny = px+float64(U(t, -400, 400)), py+float64(U(t, -400, 400))
		default:
			nx, ny = px+float64(U(t, -120, 120)), py+float64(U(t, -120, 120))
		}
		nx, ny = math.Round(nx), math.Round(ny)
		if frac {
			nx, ny = Pick(t, nx, nx+0.25, -0.5), Pick(t, ny, ny-0.125, -0.75)
		}
		poly += math.Hypot(nx-px, ny-py)
		px, py = nx, ny
		ob.Pts = append(ob.Pts, [2]core.F{core.F(nx), core.F(ny)})
	}
	if P(t, 1, 50) { // goes nowhere
		for i := range ob.Pts {
			ob.Pts[i] = [2]core.F{ob.X, ob.Y}
		}
		poly = 0
	}
	ob.Rep = 1
	if P(t, 1, 2) {
		ob.Rep = 1 + N(t, 0, 5)
	}
	if P(t, 1, 40) { // buzz
		ob.Rep = U(t, 7, 60)
	}
	if o.ManySpans && P(t, 1, 25) {
		ob.Rep = U(t, 60, 400)
		if P(t, 1, 8) {
			ob.Rep = Pick(t, U(t, 400, 9000), 9000)
		}
	}
	switch U(t, 0, 9) {
	case 0:
		ob.Len = core.F(U(t, 1, 500))
	case 1:
		ob.Len = core.F(float64(U(t, 1, 300)) / 10)
	case 2:
		ob.Len = core.F(poly)
	default:
		ob.Len = core.F(round(poly*float64(U(t, 30, 120))/100, 0.01))
	}
	if ob.Len <= 0 {
		ob.Len = core.F(U(t, 1, 200))
	}
	if P(t, 1, 4) {
		k := N(t, 1, ob.Rep+2)
		for i := 0; i < k; i++ {
			ob.Edges = append(ob.Edges, U(t, 0, 14))
		}
	}
}

func (b *builder) obj(sliderNum, sliderDen int) {
	if !b.o.NoSliders && sliderNum > 0 && P(b.t, sliderNum, sliderDen) {
		b.slider(0)
	} else {
		b.circle()
	}
}

// window is a stacking window: that of one of the variants.
func (b *builder) window() float64 {
	ar := float64(b.m.AR)
	switch U(b.t, 0, 3) {
	case 0:
		ar /= 2
	case 1:
		ar = math.Min(10, ar*1.4)
	}
	p := 1200 - 150*(ar-5)
	if ar < 5 {
		p = 1200 + 120*(5-ar)
	}
	return math.Floor(p*float64(b.m.SL) + 1e-7)
}

func (b *builder) segment() {
	t := b.t
	style := U(t, 0, 10)
	if b.o.StackBias && P(t, 1, 2) {
		style = Pick(t, 2, 4, 2, 4, 6)
	}
	count := U(t, 1, 10)
	if b.o.StackBias && P(t, 1, 4) {
		style = 100
	}
	switch style {
	case 100: // the same spot, exactly as late as stacking allows
		for i := 0; i < U(t, 2, 4); i++ {
			end := b.time
			if n := len(b.m.Objs); n > 0 {
				end = float64(b.m.Objs[n-1].T)
				if b.m.Objs[n-1].K == "p" {
					end = float64(b.m.Objs[n-1].End)
				}
			}
			if at := end + b.window() + Pick(t, 0.0, 0, 1, -1); at >= b.time || P(t, 1, 4) {
				b.time = math.Max(at, end)
			}
			b.obj(1, 8)
			if P(t, 1, 3) {
				b.x += float64(U(t, -2, 2))
			}
		}
	case 0: // stream
		dt := float64(U(t, 40, 140))
		sp := float64(U(t, 0, 50))
		a := float64(U(t, 0, 359)) * math.Pi / 180
		turn := float64(U(t, -40, 40)) * math.Pi / 180
		for i := 0; i < count+3; i++ {
			b.step(dt)
			b.x += sp * math.Cos(a)
			b.y += sp * math.Sin(a)
			a += turn
			b.obj(1, 12)
		}
	case 1, 7: // jumps
		dt := float64(U(t, 120, 400))
		for i := 0; i < count; i++ {
			b.step(dt)
			b.x, b.y = float64(U(t, 0, 512)), float64(U(t, 0, 384))
			b.obj(1, 5)
		}
	case 2: // stack
		dt := float64(U(t, 20, 400))
		ax, ay := b.x, b.y
		if b.o.StackBias && P(t, 1, 30) { // a tall one, often at a slider's end
			if !b.o.NoSliders && P(t, 3, 4) {
				b.slider(0)
				ob := &b.m.Objs[len(b.m.Objs)-1]
				ob.Curve, ob.Rep, ob.Len, ob.Edges = "L", Pick(t, 1, 1, 2, 3), 0, nil
				x, y := ob.X, ob.Y
				for _, p := range ob.Pts {
					ob.Len += core.F(math.Hypot(float64(p[0]-x), float64(p[1]-y)))
					x, y = p[0], p[1]
				}
				ob.Len = core.F(math.Max(1, round(float64(ob.Len), 0.01)))
				b.time = float64(ob.T) + float64(U(t, 0, 300))
			}
			b.x, b.y = b.ex, b.ey
			dt = float64(U(t, 2, 16))
			for i := U(t, 20, 150); i > 0; i-- {
				b.step(dt)
				b.circle()
			}
			return
		}
		for i := 0; i < count; i++ {
			b.step(dt)
			b.x, b.y = ax+float64(U(t, 0, 4)), ay+float64(U(t, 0, 3))
			b.obj(1, 4)
			if P(t, 1, 8) && !b.o.NoSpinners {
				b.step(dt)
				b.spinner(float64(U(t, 1, 300)))
			}
		}
		b.x, b.y = float64(U(t, 0, 512)), float64(U(t, 0, 384))
	case 3: // rhythm changes
		base := float64(U(t, 60, 300))
		for i := 0; i < count+4; i++ {
			k := Pick(t, 1.0, 1.0, 1.0, 0.5, 2, 1.25, 0.8, 1.5, 0.75, 4)
			d := math.Round(base * k)
			if P(t, 1, 4) {
				d += Pick(t, 10.0, 11, -10, 1, -1)
			}
			b.step(math.Max(0, d))
			b.x += float64(U(t, -80, 80))
			b.y += float64(U(t, -80, 80))
			b.obj(1, 5)
		}
	case 4: // objects around a slider's end and head
		if b.o.NoSliders {
			b.step(100)
			b.circle()
			return
		}
		for i := 0; i < 1+count/4; i++ {
			b.step(float64(U(t, 50, 500)))
			hx, hy := b.x, b.y
			b.slider(0)
			k := U(t, 1, 4)
			for j := 0; j < k; j++ {
				b.step(float64(U(t, 0, 400)))
				if P(t, 1, 3) {
					b.x, b.y = hx, hy
				} else {
					b.x, b.y = b.ex, b.ey
				}
				b.x += float64(U(t, -3, 3))
				b.y += float64(U(t, -3, 3))
				b.obj(1, 4)
			}
			b.x, b.y = float64(U(t, 0, 512)), float64(U(t, 0, 384))
		}
	case 5: // spinner
		b.step(float64(U(t, 100, 600)))
		if b.o.NoSpinners {
			b.circle()
		} else {
			d := float64(U(t, 0, 4000))
			if P(t, 1, 5) {
				d = Pick(t, 0.0, 0, 1, 50)
			}
			if b.o.Backwards && P(t, 1, 6) {
				d = -float64(U(t, 1, 2000))
			}
			b.spinner(d)
		}
	case 6: // simultaneous or nearly so
		for i := 0; i < count; i++ {
			b.step(float64(Pick(t, 0, 0, 1, 10, 24, 25, 26)))
			if P(t, 1, 2) {
				b.x, b.y = float64(U(t, 0, 512)), float64(U(t, 0, 384))
			}
			b.obj(1, 4)
		}
	case 8: // long gap
		if !b.o.NoGaps {
			switch {
			case P(t, 1, 24): // up to 70 minutes
				b.step(float64(U(t, 120, 4200)) * 1000)
			case P(t, 1, 6):
				b.step(float64(U(t, 15, 120)) * 1000)
			default:
				b.step(float64(U(t, 1000, 15000)))
			}
		}
		b.step(300)
		b.obj(1, 2)
	case 9: // slider chain
		dt := float64(U(t, 20, 300))
		for i := 0; i < 1+count/2; i++ {
			b.step(dt)
			b.x, b.y = float64(U(t, 0, 512)), float64(U(t, 0, 384))
			b.obj(4, 5)
		}
	case 10: // sharp angles, small dt
		dt := float64(U(t, 60, 110))
		d := float64(U(t, 20, 200))
		s := 1.0
		for i := 0; i < count+3; i++ {
			b.step(dt)
			b.x += s * d
			b.y += float64(U(t, -20, 20))
			s = -s
			b.obj(1, 15)
		}
	}
}

// DiffMods are the mods that affect difficulty.
const (
	NF = 1 << 0
	EZ = 1 << 1
	TD = 1 << 2
	HD = 1 << 3
	HR = 1 << 4
	SD = 1 << 5
	DT = 1 << 6
	RX = 1 << 7
	HT = 1 << 8
	NC = 1 << 9
	FL = 1 << 10
	AT = 1 << 11
	SO = 1 << 12
	AP = 1 << 13
	PF = 1 << 14
	V2 = 1 << 29
	DC = 1 << 31
)

// Mods draws a mod combination; at most one of HR/EZ and of the speed mods unless wild.
func Mods(t *rapid.T) int64 {
	var m int64
	if P(t, 1, 12) { // anything goes
		for i := 0; i < 15; i++ {
			if bit.Draw(t, "") {
				m |= 1 << i
			}
		}
		return m
	}
	m |= int64(Pick(t, 0, 0, HR, EZ))
	m |= int64(Pick(t, 0, 0, DT, HT, DT|NC, HT|DC))
	if P(t, 1, 3) {
		m |= FL
	}
	if P(t, 1, 4) {
		m |= HD
	}
	if P(t, 1, 8) {
		m |= RX
	}
	if P(t, 1, 8) {
		m |= TD
	}
	if P(t, 1, 6) {
		m |= NF
	}
	if P(t, 1, 6) {
		m |= SO
	}
	if P(t, 1, 8) {
		m |= V2
	}
	if P(t, 1, 16) {
		m |= int64(Pick(t, AP, AT, SD, SD|PF))
	}
	return m
}

// Speed draws a custom speed, mostly 1.
func Speed(t *rapid.T) core.F {
	if P(t, 3, 4) {
		return 1
	}
	return core.F(float64(U(t, 50, 200)) / 100)
}
