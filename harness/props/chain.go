package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C33: from the file to pp

// playFrac is a play in fractions of the objects judged, so that it fits any map.
type playFrac struct {
	Combo int `json:"combo"` // permille of the highest combo; -1 for the default
	Miss  int `json:"miss"`
	N50   int `json:"n50"`
	N100  int `json:"n100"`
}

type chainCase struct {
	Rated rated      `json:"rated"`
	Cut   int        `json:"cut"` // objects rated, permille
	Plays []playFrac `json:"plays"`
	More  int        `json:"more,omitempty"` // circles following the map
}

// longer is the map with a long stream of circles added at its end.
func longer(m gen.Map, more int) gen.Map {
	if more == 0 {
		return m
	}
	t := 1000.0
	for _, ob := range m.Objs {
		t = math.Max(t, math.Max(float64(ob.T), float64(ob.End)))
	}
	t = math.Ceil(t) + 300
	m.Objs = append([]gen.Obj(nil), m.Objs...)
	for i := 0; i < more; i++ {
		m.Objs = append(m.Objs, gen.Obj{K: "c", X: core.F(40 + i*7%400), Y: core.F(30 + i*5%300), T: core.F(t)})
		t += float64(90 + i%9*20)
	}
	return m
}

func drawChain(t *rapid.T) chainCase {
	o := gen.Opt{MaxSegs: 6, MinObjs: gen.Pick(t, 0, 2, 4), NaNTP: true, Long: true, StackBias: gen.P(t, 1, 3), FracTimes: gen.P(t, 1, 8)}
	o.OnlyLinear = gen.P(t, 1, 3)
	o.NoSliders = gen.P(t, 1, 8)
	c := chainCase{Rated: drawRated(t, o), Cut: 1000}
	if gen.P(t, 1, 60) {
		c.More = gen.Pick(t, 150, 450, 990, 1990, 2300)
	}
	if gen.P(t, 3, 4) { // most sliders are cut short: the direction of an extension is not sharp
		for i := range c.Rated.Map.Objs {
			ob := &c.Rated.Map.Objs[i]
			if ob.K == "s" && ob.Curve != "L" {
				if nat := refPath(*ob).Natural(); nat > 4 && float64(ob.Len) > 0.96*nat {
					ob.Len = core.F(math.Floor(0.96 * nat))
				}
			}
		}
	}
	if gen.P(t, 1, 3) {
		c.Cut = gen.U(t, 0, 1000)
	}
	for i := gen.N(t, 1, 3); i > 0; i-- {
		p := playFrac{Combo: gen.Pick(t, -1, 1000, 1000, gen.U(t, 0, 1000), gen.U(t, 800, 1000))}
		if gen.P(t, 1, 2) {
			p.Miss = gen.U(t, 0, gen.Pick(t, 100, 300, 1000))
		}
		if gen.P(t, 1, 2) {
			p.N100 = gen.U(t, 0, gen.Pick(t, 100, 300, 1000))
		}
		if gen.P(t, 1, 3) {
			p.N50 = gen.U(t, 0, gen.Pick(t, 100, 300))
		}
		c.Plays = append(c.Plays, p)
	}
	return c
}

func (p playFrac) of(objs, combo int) ref.Play {
	r := ref.Play{Combo: combo * p.Combo / 1000}
	if p.Combo < 0 {
		r.Combo = -1
	}
	take := func(f int) int {
		k := objs * f / 1000
		if left := objs - r.Miss - r.N50 - r.N100; k > left {
			k = left
		}
		return k
	}
	r.Miss = take(p.Miss)
	r.N50 = take(p.N50)
	r.N100 = take(p.N100)
	r.N300 = objs - r.Miss - r.N50 - r.N100
	return r
}

// chainObj is an object as the file declares it, with its path.
type chainObj struct {
	kind       byte
	start, end float64
	head       ref.V
	path       *ref.Path
	length     float64
	ltol       float64
	vel, td    float64
	declared   float64
	rep        int
	nan        bool
}

type chain struct {
	objs  []chainObj
	m     gen.Map
	mods  int64
	d     ref.Diff
	exact bool
	late  bool // distances taken before they are scaled
	curve bool
	slid  bool
}

// newChain reads the declared map; why says why it cannot be judged.
func newChain(c rated) (ch *chain, why string) {
	ch = &chain{m: c.Map, mods: c.Mods, d: refDiff(c.Map, c.Mods, float64(c.Speed))}
	ch.exact = ch.d.Speed == 1
	tps := tpoints(c.Map.TPs)
	for _, w := range inOrder(c.Map.Objs) {
		x := chainObj{kind: w.K[0], start: float64(w.T), end: float64(w.T), head: ref.V{X: float32(w.X), Y: float32(w.Y)}, rep: 1}
		if x.start != math.Trunc(x.start) {
			ch.exact = false
		}
		switch w.K {
		case "p":
			x.end = float64(w.End)
		case "s":
			ch.slid = true
			if w.Curve != "L" {
				ch.curve = true
			}
			x.path = refPath(w)
			if x.path.Ill {
				return nil, "ill-conditioned path"
			}
			var sure bool
			if x.length, sure = pathLen(w, x.path); !sure {
				return nil, "length not judged"
			}
			k := ref.TimingIndexAt(tps, x.start)
			x.nan = math.IsNaN(tps[k].BL)
			x.vel = ref.Velocity(tps, x.start, float64(c.Map.SM))
			x.td = 100 * float64(c.Map.SM) / ref.Ratio(tps[k]) / float64(c.Map.TR)
			x.rep = w.Rep
			x.declared = float64(w.Len)
			x.ltol = lenTol(x.path, x.length)
			if x.length > 0 && x.length/x.td*float64(w.Rep) > 5000 {
				return nil, "too many ticks"
			}
			x.end = x.start + x.length/x.vel*1000*float64(w.Rep)
		}
		ch.objs = append(ch.objs, x)
	}
	return ch, ""
}

// noise gives numbers in -1..1 that depend on the seed and the keys only.
func noise(seed uint64, keys ...uint64) float64 {
	z := seed * 0x9E3779B97F4A7C15
	for _, k := range keys {
		z = (z ^ k) * 0xBF58476D1CE4E5B9
		z ^= z >> 29
	}
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	z ^= z >> 31
	return float64(z>>11)/(1<<52) - 1
}

type chainRun struct {
	stars   ref.Stars
	attr    ref.Attr
	heights []int
	amb     bool
}

// run models the first n objects of the chain. A seed other than zero moves everything the
// library may compute differently by rounding or flattening to some other possible place.
func (ch *chain) run(n int, seed uint64, mode ref.ZeroMode) chainRun {
	var r chainRun
	type geo struct {
		length, end float64
		at          func(t float64) ref.V
		tail        ref.V
		points      []ref.StarPoint
	}
	gs := make([]geo, len(ch.objs))
	so := make([]ref.StackObj, len(ch.objs))
	for i := range ch.objs {
		o := &ch.objs[i]
		i := i
		g := geo{end: o.end, tail: o.head}
		if o.kind == 's' {
			id := uint64(i) + 1
			g.length = o.length
			if seed != 0 && o.length > 0 {
				g.length = math.Max(1e-9, o.length+o.ltol*noise(seed, id, 1))
			}
			span := g.length / o.vel * 1000
			g.end = o.start + span*float64(o.rep)
			tk := ref.SliderTicks(o.start, o.length, o.declared, o.vel, o.td, o.rep, o.nan, o.ltol)
			if tk.Ambiguous {
				r.amb = true
			}
			for _, t := range tk.Ticks {
				g.points = append(g.points, ref.StarPoint{T: t})
			}
			for _, t := range tk.Repeats {
				g.points = append(g.points, ref.StarPoint{T: t, Rev: true})
			}
			g.points = append(g.points, ref.StarPoint{T: tk.Tail})
			sort.SliceStable(g.points, func(a, b int) bool { return g.points[a].T < g.points[b].T })
			for k := 1; k < len(g.points); k++ {
				if g.points[k].T-g.points[k-1].T < 1e-3+2*o.ltol/o.vel*1000*float64(o.rep) {
					r.amb = true // rounding decides their order
				}
			}
			nat := o.path.Natural()
			drift, step := 0.0, 0.05
			if seed != 0 {
				drift = o.path.Drift * (0.5 + 0.5*noise(seed, id, 2))
				step = 0.05 * math.Pow(400, 0.5+0.5*noise(seed, id, 3))
			}
			endPt := o.path.P[len(o.path.P)-1]
			dir := ref.Pt{}
			if nat > 0 {
				for s := step; ; s *= 1.5 {
					dir = endPt.Sub(o.path.At(nat - s))
					if l := dir.Len(); l > 1e-6 || s > nat {
						if l > 0 {
							dir = dir.Mul(1 / l)
						}
						break
					}
				}
			}
			pos := func(f float64) ref.V {
				d := f * g.length
				var q ref.Pt
				if d <= nat {
					q = o.path.At(math.Min(nat, d*(1+drift)))
				} else {
					q = endPt.Add(dir.Mul(d - nat))
				}
				if seed != 0 && f > 0 {
					k := math.Float64bits(math.Round(f * 1e6))
					q.X += o.path.Sag * noise(seed, id, k, 4)
					q.Y += o.path.Sag * noise(seed, id, k, 5)
				}
				return ref.V{X: float32(q.X), Y: float32(q.Y)}
			}
			g.at = func(t float64) ref.V {
				if span <= 0 || t <= o.start {
					return o.head
				}
				x := (t - o.start) / span
				k := math.Floor(x)
				f := x - k
				if int(k) >= o.rep {
					k, f = float64(o.rep-1), 1
				}
				if int(k)%2 == 1 {
					f = 1 - f
				}
				return pos(f)
			}
			g.tail = g.at(g.end)
		}
		gs[i] = g
		so[i] = ref.StackObj{Kind: o.kind, Start: o.start, End: g.end, P: [2]float32{o.head.X, o.head.Y}, E: [2]float32{g.tail.X, g.tail.Y}}
	}
	variant := ch.mods & gen.HR
	if variant == 0 {
		variant = ch.mods & gen.EZ
	}
	vd := refDiff(ch.m, variant, 1)
	w := vd.Preempt * float64(ch.m.SL)
	lo, hi := math.Floor(w-1e-6), math.Floor(w+1e-6)
	h, amb := ref.Stack(so, ch.m.Ver, lo)
	if lo != hi {
		h2, _ := ref.Stack(so, ch.m.Ver, hi)
		for i := range h {
			amb = amb || h[i] != h2[i]
		}
	}
	r.heights = h
	r.amb = r.amb || amb
	var objs []ref.StarObj
	for i := 0; i < n; i++ {
		o, g := &ch.objs[i], &gs[i]
		off := float32(-float64(h[i]) * vd.Radius / 10)
		mod := func(v ref.V) ref.V {
			if variant == gen.HR {
				v.Y = 384 - v.Y
			}
			if seed != 0 && off != 0 { // single precision, the same for the same place
				kx, ky := uint64(math.Float32bits(v.X)), uint64(math.Float32bits(v.Y))
				v.X += 4e-5 * float32(noise(seed, kx, ky, 6))
				v.Y += 4e-5 * float32(noise(seed, kx, ky, 7))
			}
			return ref.V{X: v.X + off, Y: v.Y + off}
		}
		s := ref.StarObj{Kind: o.kind, Start: o.start, End: g.end, Head: mod(o.head), Tail: mod(g.tail), Points: g.points, Spans: int64(o.rep)}
		if o.kind == 's' {
			s.At = func(t float64) ref.V { return mod(g.at(t)) }
		}
		objs = append(objs, s)
		r.attr.Objects++
		r.attr.MaxCombo++
		switch o.kind {
		case 'c':
			r.attr.Circles++
		case 's':
			r.attr.Sliders++
			r.attr.MaxCombo += len(g.points)
		case 'p':
			r.attr.Spinners++
		}
	}
	r.stars = ref.RateMode(objs, ch.d, ch.exact, mode)
	if ch.late {
		r.stars = ref.RateLate(objs, ch.d, ch.exact, mode)
	}
	r.attr.Aim, r.attr.SliderFactor, r.attr.Speed, r.attr.Flashlight = r.stars.Aim, r.stars.SliderFactor, r.stars.Speed, r.stars.Flashlight
	return r
}

// hull is the range of values the model allows.
type hull struct {
	lo, hi map[string]float64
}

func (h *hull) add(name string, v float64) {
	if h.lo == nil {
		h.lo, h.hi = map[string]float64{}, map[string]float64{}
	}
	if old, ok := h.lo[name]; !ok || v < old || math.IsNaN(v) {
		h.lo[name] = v
	}
	if old, ok := h.hi[name]; !ok || v > old || math.IsNaN(v) {
		h.hi[name] = v
	}
}

func checkC33(c chainCase, o *core.Obs) error {
	c.Rated.Map = longer(c.Rated.Map, c.More)
	ch, why := newChain(c.Rated)
	if why != "" {
		o.Label(why)
		return nil
	}
	bm, err := mustParse(c.Rated.Map)
	if err != nil {
		return err
	}
	labelObjs(o, c.Rated)
	n := len(ch.objs)
	if len(bm.HitObjects) != n {
		return fmt.Errorf("%d objects for %d lines", len(bm.HitObjects), n)
	}
	if n == 0 {
		return nil
	}
	k := n
	if c.Cut < 1000 {
		k = 1 + (n-1)*c.Cut/1000
		o.Label("part of the map")
	}
	base := ch.run(k, 0, ref.ZeroSigned)
	if base.amb || base.stars.Ambiguous {
		o.Label("ambiguous")
		return nil
	}
	ch.late = true
	runs := []chainRun{base, ch.run(k, 0, ref.ZeroSigned)}
	ch.late = false
	stacked := false
	for _, x := range base.heights[:k] {
		stacked = stacked || x != 0
	}
	perturb := func(from, to uint64) bool {
		for s := from; s <= to; s++ {
			r := ch.run(k, s, ref.ZeroSigned)
			for i := range r.heights {
				if r.heights[i] != base.heights[i] {
					return false
				}
			}
			runs = append(runs, r)
		}
		return true
	}
	rel := 3e-6
	if ch.slid {
		rel = 5e-5
		if ch.curve {
			rel = 3e-4
		}
	}
	if ch.slid || stacked {
		if !perturb(1, 8) {
			o.Label("stacking decided by flattening")
			return nil
		}
	}
	if base.stars.ZeroAngle {
		o.Label("angle at a zero-length side")
		runs = append(runs, ch.run(k, 0, ref.ZeroSame), ch.run(k, 0, ref.ZeroBack))
	}

	// the library's side
	d := bm.Difficulty
	d.SetMods(difficulty.Modifier(c.Rated.Mods))
	if c.Rated.Speed != 1 {
		d.SetCustomSpeed(float64(c.Rated.Speed))
	}
	var at osu.Attributes
	if k == n {
		at = osu.CalculateSingle(bm.HitObjects, d)
	} else {
		st := osu.CalculateStep(bm.HitObjects, d)
		if len(st) != n {
			return fmt.Errorf("%d step entries for %d objects", len(st), n)
		}
		at = st[k-1]
	}
	if g, w := [5]int{at.ObjectCount, at.Circles, at.Sliders, at.Spinners, at.MaxCombo}, [5]int{base.attr.Objects, base.attr.Circles, base.attr.Sliders, base.attr.Spinners, base.attr.MaxCombo}; g != w {
		return fmt.Errorf("objects, circles, sliders, spinners, combo of the first %d objects are %v, osu! gives %v", k, g, w)
	}
	got := []namedV{{"total stars", at.Total}, {"aim stars", at.Aim}, {"speed stars", at.Speed}, {"flashlight stars", at.Flashlight}, {"slider factor", at.SliderFactor}}
	var calc osu.PPv2
	plays := make([]ref.Play, len(c.Plays))
	for i, p := range c.Plays {
		plays[i] = p.of(base.attr.Objects, base.attr.MaxCombo)
		n300 := plays[i].N300
		if i%2 == 1 {
			n300 = -1 // the rest
		}
		r := calc.PPv2x(at, plays[i].Combo, n300, plays[i].N100, plays[i].N50, plays[i].Miss, d).Results
		for _, v := range parts(r) {
			got = append(got, namedV{fmt.Sprintf("%s pp of play %+v", v.n, plays[i]), v.v})
		}
	}
	values := func(h *hull, r chainRun) {
		h.add("total stars", r.stars.Total)
		h.add("aim stars", r.stars.Aim)
		h.add("speed stars", r.stars.Speed)
		h.add("flashlight stars", r.stars.Flashlight)
		h.add("slider factor", r.stars.SliderFactor)
		for _, p := range plays {
			pps := make([]ref.PP, 1, 3)
			var amb bool
			pps[0], amb = ref.PPOf(r.attr, p, ch.d.ARReal, ch.d.ODReal, ch.mods)
			if amb {
				pps = append(pps, ref.PPNudged(r.attr, p, ch.d.ARReal, ch.d.ODReal, ch.mods, 1e-9), ref.PPNudged(r.attr, p, ch.d.ARReal, ch.d.ODReal, ch.mods, -1e-9))
			}
			for _, q := range pps {
				for _, v := range []namedV{{"aim", q.Aim}, {"speed", q.Speed}, {"accuracy", q.Acc}, {"flashlight", q.Flashlight}, {"total", q.Total}} {
					h.add(fmt.Sprintf("%s pp of play %+v", v.n, p), v.v)
				}
			}
		}
	}
	judge := func(grow float64) (bad error, wide bool) {
		var h hull
		for _, r := range runs {
			values(&h, r)
		}
		for _, v := range got {
			lo, hi := h.lo[v.n], h.hi[v.n]
			width := hi - lo
			if width > 0.05*math.Abs(hi)+1e-3 {
				wide = true
			}
			f := rel
			if len(v.n) > 6 && v.n != "slider factor" && v.n[len(v.n)-5:] != "stars" {
				f = rel * 4 // pp grows with the third power
			}
			m := grow*width + f*math.Abs(hi) + 1e-7
			if !(v.v >= lo-m && v.v <= hi+m) {
				return fmt.Errorf("%s: %v, osu! gives %v (mods %s, speed %v, first %d of %d objects)", v.n, v.v, rangeOf(lo, hi), difficulty.Modifier(c.Rated.Mods), c.Rated.Speed, k, n), wide
			}
		}
		return nil, wide
	}
	bad, wide := judge(1)
	o.Compared(len(got))
	if wide {
		o.Label("ill-conditioned")
	} else if k >= 4 {
		o.Nontrivial()
		o.LabelIf(ch.curve, "judged with curves")
		o.LabelIf(k > 2000, "judged with more than 2000 objects")
		o.LabelIf(stacked, "judged with stacks")
	}
	if bad != nil && (ch.slid || stacked) { // look harder for a way in which it is right
		if !perturb(9, 200) {
			o.Label("stacking decided by flattening")
			return nil
		}
		bad, wide = judge(2)
		if bad == nil || wide {
			o.Label("ill-conditioned")
			return nil
		}
	}
	return bad
}

func rangeOf(lo, hi float64) string {
	if lo == hi {
		return fmt.Sprint(lo)
	}
	return fmt.Sprintf("%v to %v", lo, hi)
}

func init() {
	core.Register("C33", "a pattern map, mods, speed and up to three plays on all or the beginning of it, from file text to pp; non-trivial: at least 4 objects, no comparison decided by rounding and no value ill-conditioned",
		12000, 300000, drawChain, checkC33)
}
