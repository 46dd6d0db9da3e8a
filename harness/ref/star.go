package ref

import (
	"math"
	"sort"
)

// V is a float32 vector: the format's positions are single precision, and so are the
// distances osu! derives from them.
type V struct{ X, Y float32 }

func (a V) sub(b V) V       { return V{a.X - b.X, a.Y - b.Y} }
func (a V) scl(s float32) V { return V{a.X * s, a.Y * s} }
func (a V) add(b V) V       { return V{a.X + b.X, a.Y + b.Y} }
func (a V) len() float32    { return float32(math.Sqrt(float64(a.X*a.X + a.Y*a.Y))) }
func (a V) dst(b V) float32 { return b.sub(a).len() }

// StarPoint is a slider's score point.
type StarPoint struct {
	T   float64
	Rev bool
}

// StarObj is a hit object as the difficulty algorithm sees it (mods already applied to positions).
type StarObj struct {
	Kind       byte
	Start, End float64
	Head, Tail V
	Points     []StarPoint
	At         func(t float64) V
	Spans      int64
}

// Stars is the result of the algorithm, with the section peaks it is built from.
type Stars struct {
	Total, Aim, SliderFactor, Speed, Flashlight  float64
	AimPeaks, SpeedPeaks, FlashPeaks, TotalPeaks []float64
	Ambiguous                                    bool
	ZeroAngle                                    bool // an angle with a zero-length side was used
}

// per-object intermediate values
type dobj struct {
	spinner, slider      bool
	lastSlider           bool
	start, delta, strain float64
	jump, move, travel   float64
	moveTime, travelTime float64
	angle                float64
}

type lazy struct {
	end    V
	travel float32
	time   float64
}

type starCalc struct {
	d     Diff
	exact bool
	amb   bool
	zero  bool
	mode  ZeroMode
	late  bool
}

// ZeroMode says what the angle at a zero-length side is: whatever the signs of the zeros
// give (as deployed), straight on, or a full reversal.
type ZeroMode int

const (
	ZeroSigned ZeroMode = iota
	ZeroSame
	ZeroBack
)

// gt is a > b with a note when rounding could decide it.
func (c *starCalc) gt(a, b float64) bool {
	if !c.exact && math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b))) {
		c.amb = true
	}
	return a > b
}

func (c *starCalc) lazyOf(o StarObj) lazy {
	var l lazy
	n := len(o.Points)
	l.time = o.Points[n-1].T - o.Start
	l.end = o.At(l.time + o.Start)
	cursor := o.Head
	scale := 50 / c.d.Radius
	for i, p := range o.Points {
		last := i == n-1
		t := p.T
		if last {
			t = o.End // as deployed
		}
		mv := o.At(t).sub(cursor)
		need := float64(float32(50 * 1.8))
		if last {
			alt := l.end.sub(cursor)
			a, b := alt.len(), mv.len()
			if d := alt.sub(mv).len(); d > 1e-3 && math.Abs(float64(a-b)) < 1e-4 && scale*float64(b) > need-1 {
				c.amb = true
			}
			if a < b {
				mv = alt
			}
		} else if p.Rev {
			need = 50
		}
		dist := scale * float64(mv.len())
		if dist > need {
			f := (dist - need) / dist
			cursor = cursor.add(mv.scl(float32(f)))
			l.travel += float32(dist * f)
		}
		if last {
			l.end = cursor
		}
	}
	l.travel *= float32(math.Pow(1+float64(o.Spans-1)/2.5, 1/2.5))
	return l
}

func (c *starCalc) prepare(objs []StarObj) []dobj {
	lz := make([]lazy, len(objs))
	for i, o := range objs {
		if o.Kind == 's' {
			lz[i] = c.lazyOf(o)
		}
	}
	cursorAfter := func(i int) V {
		if objs[i].Kind == 's' {
			return lz[i].end
		}
		return objs[i].Head
	}
	sf := 50 / float32(c.d.Radius)
	if c.d.Radius < 30 {
		sf *= 1 + float32(math.Min(float64(30-float32(c.d.Radius)), 5))/50
	}
	var out []dobj
	for i := 1; i < len(objs); i++ {
		o, p := objs[i], objs[i-1]
		x := dobj{spinner: o.Kind == 'p', slider: o.Kind == 's', lastSlider: p.Kind == 's', angle: math.NaN()}
		x.start = o.Start / c.d.Speed
		x.delta = (o.Start - p.Start) / c.d.Speed
		x.strain = math.Max(25, x.delta)
		if o.Kind != 'p' && p.Kind != 'p' {
			from := cursorAfter(i - 1)
			x.jump = float64(o.Head.scl(sf).dst(from.scl(sf)))
			if c.late {
				x.jump = float64(o.Head.dst(from) * sf)
			}
			if p.Kind == 's' {
				x.travel = float64(lz[i-1].travel)
				x.travelTime = math.Max(25, lz[i-1].time/c.d.Speed)
				x.moveTime = math.Max(25, x.strain-x.travelTime)
				tail := float64(p.Tail.dst(o.Head) * sf)
				x.move = math.Max(0, math.Min(x.jump-30, tail-120))
			} else {
				x.moveTime = x.strain
				x.move = x.jump
			}
			if i > 1 && objs[i-2].Kind != 'p' {
				a := cursorAfter(i - 2).sub(p.Head)
				b := o.Head.sub(from)
				if tiny(a) || tiny(b) {
					c.amb = true
				}
				dot := a.X*b.X + a.Y*b.Y
				det := a.X*b.Y - a.Y*b.X
				x.angle = math.Abs(math.Atan2(float64(det), float64(dot)))
				if a.len() == 0 || b.len() == 0 {
					c.zero = true
					switch c.mode {
					case ZeroSame:
						x.angle = 0
					case ZeroBack:
						x.angle = math.Pi
					}
				}
				if !c.late {
					x.angle = float64(float32(x.angle))
				}
			}
		}
		out = append(out, x)
	}
	return out
}

// tiny vectors have directions made of rounding noise; exact zeros are well defined.
func tiny(v V) bool {
	l := v.len()
	return l != 0 && l < 0.02
}

func sinSq(x float64) float64 { s := math.Sin(x); return s * s }

func wide(a float64) float64 {
	return sinSq(0.75 * (math.Max(math.Pi/6, math.Min(5*math.Pi/6, a)) - math.Pi/6))
}

// aim strain of object i
func (c *starCalc) aim(os []dobj, i int, sliders bool) float64 {
	if os[i].spinner || i < 2 || os[i-1].spinner {
		return 0
	}
	cur, last, last2 := os[i], os[i-1], os[i-2]
	vel := func(x dobj) float64 {
		v := x.jump / x.strain
		if sliders && x.lastSlider {
			v = math.Max(v, x.move/x.moveTime+x.travel/x.travelTime)
		}
		return v
	}
	vc, vp := vel(cur), vel(last)
	mn, mx := math.Min(cur.strain, last.strain), math.Max(cur.strain, last.strain)
	wideB, acuteB, change := 0.0, 0.0, 0.0
	if c.gt(1.25*mn, mx) && !math.IsNaN(cur.angle) && !math.IsNaN(last.angle) && !math.IsNaN(last2.angle) {
		base := math.Min(vc, vp)
		wideB = wide(cur.angle)
		if cur.strain <= 100 {
			acuteB = (1 - wide(cur.angle)) * (1 - wide(last.angle)) * math.Min(base, 125/cur.strain) *
				sinSq(math.Pi/2*math.Min(1, (100-cur.strain)/25)) *
				sinSq(math.Pi/2*(math.Max(50, math.Min(100, cur.jump))-50)/50)
		}
		wideB *= base * (1 - math.Min(wideB, math.Pow(wide(last.angle), 3)))
		acuteB *= 0.5 + 0.5*(1-math.Min(acuteB, math.Pow(1-wide(last2.angle), 3)))
	}
	if vc != 0 || vp != 0 {
		ap := (last.jump + last.travel) / last.strain
		ac := (cur.jump + cur.travel) / cur.strain
		diff := math.Abs(ap - ac)
		if m := math.Max(ap, ac); m > 0 {
			ratio := sinSq(math.Pi / 2 * diff / m)
			overlap := math.Min(125/mn, diff)
			apart := diff * sinSq(math.Pi/2*math.Min(1, math.Min(cur.jump, last.jump)/100))
			change = math.Max(overlap, apart) * ratio * (mn / mx) * (mn / mx)
		} else {
			change = math.NaN()
		}
	}
	s := vc + math.Max(2*acuteB, 1.5*wideB+0.75*change)
	if sliders && cur.travelTime != 0 {
		s += 1.5 * cur.travel / cur.travelTime
	}
	return s
}

func (c *starCalc) speed(os []dobj, i int) float64 {
	cur := os[i]
	if cur.spinner {
		return 0
	}
	t := cur.strain
	window := 2 * c.d.Hit300 / c.d.Speed
	if i > 0 && t < window && os[i-1].strain > t {
		p := os[i-1].strain
		t = p + (t-p)*(t/window)
	}
	t /= math.Max(0.92, math.Min(1, t/window/0.93))
	bonus := 1.0
	if t < 75 {
		bonus = 1 + 0.75*((75-t)/40)*((75-t)/40)
	}
	d := math.Min(125, cur.travel+cur.jump)
	return bonus * (1 + math.Pow(d/125, 3.5)) / t
}

// rhythm multiplier of object i
func (c *starCalc) rhythm(os []dobj, i int) float64 {
	if os[i].spinner {
		return 0
	}
	n := i
	if n > 32 {
		n = 32
	}
	hit := c.d.Hit300 / c.d.Speed
	prevIsland, island := 0, 1
	sum, startRatio := 0.0, 0.0
	counting := false
	// the k-th previous object is os[i-1-k]
	for k := n - 2; k > 0; k-- {
		cur, prev, last := os[i-k], os[i-1-k], os[i-2-k]
		if c.d.Speed != 1 && math.Abs(os[i].start-cur.start-5000) < 1e-6 {
			c.amb = true
		}
		if !c.gt(5000, os[i].start-cur.start) { // leaves the history: not only a weight of zero
			continue
		}
		decay := (5000 - (os[i].start - cur.start)) / 5000
		decay = math.Min(decay, float64(n-k)/float64(n))
		cd, pd, ld := cur.strain, prev.strain, last.strain
		mn, mx := math.Min(cd, pd), math.Max(cd, pd)
		ratio := 1 + 6*math.Min(0.5, sinSq(math.Pi/(mn/mx)))
		pen := math.Min(1, math.Max(0, math.Abs(pd-cd)-0.6*hit)/(0.6*hit))
		eff := pen * ratio
		faster, slower := c.gt(pd, 1.25*cd), c.gt(cd, 1.25*pd)
		if !counting {
			if faster {
				counting, startRatio, island = true, eff, 1
			}
			continue
		}
		if !faster && !slower {
			if island < 7 {
				island++
			}
			continue
		}
		if cur.slider {
			eff *= 0.125
		}
		if prev.slider {
			eff *= 0.25
		}
		if prevIsland == island {
			eff *= 0.25
		}
		if (prevIsland-island)%2 == 0 {
			eff *= 0.5
		}
		if c.gt(ld, pd+10) && c.gt(pd, cd+10) {
			eff *= 0.125
		}
		sum += math.Sqrt(eff*startRatio) * decay * math.Sqrt(float64(4+island)) / 2 * math.Sqrt(float64(4+prevIsland)) / 2
		startRatio, prevIsland = eff, island
		if slower {
			counting = false
		}
		island = 1
	}
	return math.Sqrt(4+0.75*sum) / 2
}

func (c *starCalc) flash(os []dobj, objs []StarObj, i int) float64 {
	if os[i].spinner {
		return 0
	}
	scale := 52 / c.d.Radius
	sum, cum, near := 0.0, 0.0, 1.0
	w := 1.0
	for k := 1; k <= 10 && i-k >= 0; k++ {
		p := os[i-k]
		if !p.spinner {
			d := float64(objs[i+1].Head.dst(objs[i+1-k].Tail))
			cum += p.strain
			if k == 1 {
				near = math.Min(1, d/75)
			}
			sum += w * math.Min(1, p.jump/scale/25) * scale * d / cum
		}
		w *= 0.8
	}
	return near * sum * near * sum
}

// peaks runs the strain over the sections. value returns the addition at object i,
// boost the momentary multiplier.
func (c *starCalc) peaks(os []dobj, mul, base float64, value, boost func(i int) float64) []float64 {
	if len(os) == 0 {
		return []float64{0}
	}
	decay := func(ms float64) float64 { return math.Pow(base, ms/1000) }
	end := math.Ceil(os[0].start/400) * 400
	if !c.exact && math.Abs(os[0].start-math.Round(os[0].start/400)*400) < 1e-6 {
		c.amb = true
	}
	var out []float64
	strain, level, peak := 0.0, 0.0, 0.0
	for i := range os {
		for c.gt(os[i].start, end) {
			out = append(out, peak)
			peak = level * decay(end-os[i-1].start)
			end += 400
		}
		strain = strain*decay(os[i].delta) + mul*value(i)
		b := boost(i)
		peak = math.Max(peak, strain*b)
		level = strain * b
	}
	return append(out, peak)
}

// weigh reduces the strongest sections and sums all by falling weights.
func weigh(peaks []float64, reduced int, weight, mul float64) float64 {
	s := append([]float64(nil), peaks...)
	sort.Sort(sort.Reverse(sort.Float64Slice(s)))
	for i := 0; i < len(s) && i < reduced; i++ {
		f := math.Log10(1 + 9*float64(i)/float64(reduced))
		s[i] *= 0.75 + 0.25*f
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(s)))
	sum, w := 0.0, 1.0
	for _, v := range s {
		sum += v * w
		w *= weight
	}
	return sum * mul
}

// Weigh* turn peaks into the raw skill values.
func WeighAim(p []float64) float64   { return weigh(p, 10, 0.9, 1.06) }
func WeighSpeed(p []float64) float64 { return weigh(p, 5, 0.9, 1.04) }
func WeighFlash(p []float64) float64 { return weigh(p, 10, 1, 1.06) }

// StarFormula combines raw skill values.
func StarFormula(aim, speed, flash float64, mods int64) (total, aimS, speedS, flashS float64) {
	aimS, speedS, flashS = math.Sqrt(aim)*0.0675, math.Sqrt(speed)*0.0675, math.Sqrt(flash)*0.0675
	if mods&RX != 0 {
		speedS = 0
	}
	f := 0.0
	if mods&FL != 0 {
		f = 25 * flashS * flashS
	}
	perf := math.Pow(math.Pow(starsToPP(aimS), 1.1)+math.Pow(starsToPP(speedS), 1.1)+math.Pow(f, 1.1), 1/1.1)
	if perf > 0.00001 {
		total = math.Cbrt(1.12) * 0.027 * (math.Cbrt(100000/math.Pow(2, 1/1.1)*perf) + 4)
	}
	return
}

// Rate runs the whole algorithm. exact says that all times are whole numbers at normal
// speed, so that no time comparison can be decided by rounding.
func Rate(objs []StarObj, d Diff, exact bool) Stars { return RateMode(objs, d, exact, ZeroSigned) }

// RateMode is Rate with a choice of angle at zero-length sides.
func RateMode(objs []StarObj, d Diff, exact bool, mode ZeroMode) Stars {
	return rateWith(objs, d, &starCalc{d: d, exact: exact, mode: mode})
}

// RateLate is RateMode with distances taken before they are scaled, and angles unrounded:
// its distance from RateMode tells how much the order of single-precision operations matters.
func RateLate(objs []StarObj, d Diff, exact bool, mode ZeroMode) Stars {
	return rateWith(objs, d, &starCalc{d: d, exact: exact, mode: mode, late: true})
}

func rateWith(objs []StarObj, d Diff, c *starCalc) Stars {
	var r Stars
	if len(objs) == 0 {
		return r
	}
	os := c.prepare(objs)
	one := func(int) float64 { return 1 }
	r.AimPeaks = c.peaks(os, 23.25, 0.15, func(i int) float64 { return c.aim(os, i, true) }, one)
	noSl := c.peaks(os, 23.25, 0.15, func(i int) float64 { return c.aim(os, i, false) }, one)
	r.SpeedPeaks = c.peaks(os, 1375, 0.3, func(i int) float64 { return c.speed(os, i) }, func(i int) float64 { return c.rhythm(os, i) })
	fl := 0.0
	if d.Mods&FL != 0 {
		r.FlashPeaks = c.peaks(os, 0.15, 0.15, func(i int) float64 { return c.flash(os, objs, i) }, one)
		fl = WeighFlash(r.FlashPeaks)
	}
	r.Total, r.Aim, r.Speed, r.Flashlight = StarFormula(WeighAim(r.AimPeaks), WeighSpeed(r.SpeedPeaks), fl, d.Mods)
	r.SliderFactor = 1
	if r.Aim > 0.00001 {
		r.SliderFactor = math.Sqrt(WeighAim(noSl)) * 0.0675 / r.Aim
	}
	for i := range r.AimPeaks {
		f := 0.0
		if d.Mods&FL != 0 {
			f = r.FlashPeaks[i]
		}
		t, _, _, _ := StarFormula(r.AimPeaks[i], r.SpeedPeaks[i], f, d.Mods)
		r.TotalPeaks = append(r.TotalPeaks, t)
	}
	r.Ambiguous, r.ZeroAngle = c.amb, c.zero
	return r
}
