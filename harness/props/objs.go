package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func tpoints(ps []gen.TP) []ref.TPoint {
	var out []ref.TPoint
	for _, p := range ps {
		q := ref.TPoint{Time: float64(p.T), BL: float64(p.BL), Uninh: p.Uninh, Sig: p.Sig, Set: p.Set, Idx: p.Idx, Vol: float64(p.Vol) / 100,
			Kiai: p.Eff&1 != 0, Omit: p.Eff&8 != 0}
		n := p.Fields
		if n == 0 {
			n = 8
		}
		if n < 8 {
			q.Kiai, q.Omit = false, false
		}
		if n < 7 {
			q.Uninh = true
		}
		if n < 6 {
			q.Vol = 1
		}
		if n < 5 {
			q.Idx = 1
		}
		if n < 4 {
			q.Set = 0
		}
		if n < 3 || q.Sig == 0 {
			q.Sig = 4
		}
		out = append(out, q)
	}
	return out
}

// ---- C05, C06: object lines and combos ----

func drawObjLines(t *rapid.T, sliders bool) gen.Map {
	m := gen.Base(t, gen.Opt{})
	n := gen.N(t, 0, 14)
	if n < 2 && gen.P(t, 3, 4) {
		n += 3
	}
	for i := 0; i < n; i++ {
		o := gen.Obj{K: gen.Pick(t, "c", "c", "c", "s", "p", "p", "h", "o")}
		if !sliders && (o.K == "h" || o.K == "o") {
			o.K = "c"
		}
		o.X, o.Y = core.F(gen.U(t, 0, 512)), core.F(gen.U(t, 0, 384))
		if gen.P(t, 1, 6) {
			o.X += core.F(float64(gen.U(t, 0, 99)) / 100)
			o.Y -= core.F(float64(gen.U(t, 0, 9)) / 10)
		}
		if gen.P(t, 1, 8) { // off the playfield
			o.X, o.Y = core.F(gen.U(t, -600, 1200)), core.F(gen.U(t, -600, 1200))
		}
		// few distinct times, so that ties and disorder are common
		o.T = core.F(gen.U(t, 0, 12) * 250)
		switch gen.U(t, 0, 9) {
		case 0:
			o.T = core.F(gen.U(t, -500, 100000))
		case 1:
			o.T += core.F(float64(gen.U(t, 0, 9)) / 10)
		case 2:
			if gen.P(t, 1, 4) {
				o.T = core.F(gen.U(t, -2000000, 2000000000))
			}
		}
		o.NC = gen.P(t, 2, 5)
		if gen.P(t, 1, 2) {
			o.Skip = gen.U(t, 0, 7)
		}
		o.Snd = gen.U(t, 0, 15)
		if gen.P(t, 1, 10) {
			o.Snd = gen.Pick(t, 16, 31, 128, 255, 256, 1000)
		}
		switch o.K {
		case "s":
			gen.DrawShape(t, &o, gen.Opt{ManySpans: true})
		case "p", "h":
			o.End = o.T + core.F(gen.U(t, 0, 5000))
		}
		if (o.K != "s" || len(o.Edges) > 0) && o.K != "h" && gen.P(t, 1, 3) {
			o.Tail = gen.Pick(t, "0:0:0:0:", "0:0|0:0,0:0:0:0:", "1:2:0:30:a.wav")
		}
		m.Objs = append(m.Objs, o)
	}
	if gen.P(t, 1, 40) { // a long run, as in marathons
		k := gen.U(t, 50, 1500)
		at := float64(gen.U(t, 0, 5000))
		every := gen.Pick(t, 0, 0, 7, 100, 300)
		for i := 0; i < k; i++ {
			m.Objs = append(m.Objs, gen.Obj{K: "c", X: core.F(i % 512), Y: 100, T: core.F(at + float64(i)*50), NC: every > 0 && i%every == 0, Skip: i % 8 * (i % 2)})
		}
	}
	return m
}

// inOrder returns the lines that make objects, in time order (stable).
func inOrder(objs []gen.Obj) []gen.Obj {
	var out []gen.Obj
	for _, o := range objs {
		if o.K == "c" || o.K == "s" || o.K == "p" {
			out = append(out, o)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].T < out[j].T })
	return out
}

func checkC05(m gen.Map, o *core.Obs) error {
	bm, err := mustParse(m)
	if err != nil {
		return err
	}
	want := inOrder(m.Objs)
	var nc, ns, np int
	length, whole := 0.0, true
	kinds := map[string]bool{}
	for i, x := range m.Objs {
		kinds[x.K] = true
		switch x.K {
		case "c":
			nc++
			length = math.Max(length, float64(x.T))
		case "s":
			ns++
			length = math.Max(length, float64(x.T))
		case "h":
			ns++
			length = math.Max(length, float64(x.End))
		case "p":
			np++
			length = math.Max(length, float64(x.End))
		}
		if float64(x.T) != math.Trunc(float64(x.T)) {
			whole = false
		}
		if i > 0 && x.T < m.Objs[i-1].T {
			o.Label("out of order")
		}
		if i > 0 && x.T == m.Objs[i-1].T {
			o.Label("tie")
		}
	}
	for k := range kinds {
		o.Label("kind " + k)
	}
	if len(kinds) >= 2 && len(m.Objs) >= 3 {
		o.Nontrivial()
	}
	if bm.Circles != nc || bm.Sliders != ns || bm.Spinners != np {
		return fmt.Errorf("counters: %d circles, %d sliders, %d spinners; declared %d, %d, %d", bm.Circles, bm.Sliders, bm.Spinners, nc, ns, np)
	}
	if whole && bm.Length != int(length) {
		return fmt.Errorf("map length %d, declared %v", bm.Length, length)
	}
	if len(bm.HitObjects) != len(want) {
		return fmt.Errorf("%d objects for %d object lines", len(bm.HitObjects), len(want))
	}
	for i, ob := range bm.HitObjects {
		w := want[i]
		fail := func(what string, got, exp any) error {
			return fmt.Errorf("object %d (%s): %s is %v, declared %v", i, w.Line(), what, got, exp)
		}
		if string(kindOf(ob)) != w.K {
			return fail("kind", string(kindOf(ob)), w.K)
		}
		if wt := map[string]objects.Type{"c": objects.CIRCLE, "s": objects.SLIDER, "p": objects.SPINNER}[w.K]; ob.GetType() != wt {
			return fail("type", ob.GetType(), wt)
		}
		if p := ob.GetStartPosition(); p.X != float32(w.X) || p.Y != float32(w.Y) {
			return fail("position", p, [2]core.F{w.X, w.Y})
		}
		if ob.GetStartTime() != float64(w.T) {
			return fail("start time", ob.GetStartTime(), w.T)
		}
		if w.K == "p" && ob.GetEndTime() != float64(w.End) {
			return fail("end time", ob.GetEndTime(), w.End)
		}
		if w.K == "c" && ob.GetEndTime() != float64(w.T) {
			return fail("end time", ob.GetEndTime(), w.T)
		}
		if ob.GetDuration() != ob.GetEndTime()-ob.GetStartTime() {
			return fail("duration", ob.GetDuration(), ob.GetEndTime()-ob.GetStartTime())
		}
		if w.K != "s" {
			if p := ob.GetEndPosition(); p != ob.GetStartPosition() {
				return fail("end position", p, ob.GetStartPosition())
			}
		}
		afterSpinner := false
		for k := i - 1; k >= 0 && w.K != "p"; k-- {
			afterSpinner = want[k].K == "p"
			break
		}
		if ob.IsNewCombo() != (w.NC || afterSpinner) {
			return fail("new combo", ob.IsNewCombo(), w.NC)
		}
		if ob.GetColorOffset() != w.Skip {
			return fail("colour skip", ob.GetColorOffset(), w.Skip)
		}
		if ob.GetID() != i {
			return fail("id", ob.GetID(), i)
		}
		snd := []int{w.Snd}
		if w.K == "s" {
			snd = nil
			for e := 0; e <= w.Rep; e++ {
				if e < len(w.Edges) {
					snd = append(snd, w.Edges[e])
				} else {
					snd = append(snd, w.Snd)
				}
			}
			if s := ob.(*objects.Slider); s.RepeatCount != int64(w.Rep) {
				return fail("repeat count", s.RepeatCount, w.Rep)
			}
		}
		got := ob.GetSounds()
		if len(got) != len(snd) {
			return fail("sounds", got, snd)
		}
		for e := range snd {
			if int(got[e]) != snd[e] {
				return fail("sounds", got, snd)
			}
		}
		o.Compared(8)
	}
	return nil
}

func checkC06(m gen.Map, o *core.Obs) error {
	bm, err := mustParse(m)
	if err != nil {
		return err
	}
	want := inOrder(m.Objs)
	if len(bm.HitObjects) != len(want) {
		return fmt.Errorf("%d objects for %d lines", len(bm.HitObjects), len(want))
	}
	set, hax, number := 0, 0, 0
	starts := 0
	for i, w := range want {
		nc := false
		if w.K != "p" {
			nc = w.NC || i > 0 && want[i-1].K == "p"
			o.LabelIf(i > 0 && want[i-1].K == "p" && !w.NC, "combo forced by spinner")
			o.LabelIf(nc && w.Skip > 0, "colour skip")
		}
		number++
		if nc {
			starts++
			number = 1
			set++
			hax += 1 + w.Skip
		}
		ob := bm.HitObjects[i]
		h := hitObject(ob)
		if h.ComboNumber != number || ob.GetComboSet() != set || ob.GetComboSetHax() != hax {
			return fmt.Errorf("object %d (%s): combo number %d set %d colour %d, expected %d, %d, %d", i, w.Line(), h.ComboNumber, ob.GetComboSet(), ob.GetComboSetHax(), number, set, hax)
		}
		if w.K != "p" && ob.IsNewCombo() != nc {
			return fmt.Errorf("object %d (%s): new combo %v, expected %v", i, w.Line(), ob.IsNewCombo(), nc)
		}
		o.Compared(4)
	}
	if starts >= 2 && len(want) >= 4 {
		o.Nontrivial()
	}
	return nil
}

// ---- C07: timing ----

type timingCase struct {
	TPs     []gen.TP `json:"tps"`
	Queries []core.F `json:"queries"`
	Blanks  bool     `json:"blanks,omitempty"`
	Shuffle []int    `json:"shuffle,omitempty"`
}

func drawC07(t *rapid.T) timingCase {
	c := timingCase{TPs: gen.TPs(t, gen.Opt{NaNTP: true, ManyTPs: true}), Blanks: gen.P(t, 1, 4)}
	for i := range c.TPs {
		if gen.P(t, 1, 6) {
			k := gen.U(t, 2, 8)
			if c.TPs[i].Uninh || k > 6 {
				c.TPs[i].Fields = k
			}
		}
	}
	if gen.P(t, 1, 12) { // as early or as late as accepted
		for k := gen.U(t, 1, 2); k > 0; k-- {
			c.TPs[gen.U(t, 0, len(c.TPs)-1)].T = gen.Pick(t, core.F(2147483647), -2147483647, 2147483646.5)
		}
	}
	for i := range c.TPs {
		q := c.TPs[i].T
		c.Queries = append(c.Queries, q, q-0.001, q+0.001, q+core.F(gen.U(t, -500, 3000)))
	}
	c.Queries = append(c.Queries, -1e6, 1e7, core.F(gen.U(t, -2000, 10000)))
	if gen.P(t, 1, 3) { // file order need not be time order, except that the first point stays uninherited
		for i := range c.TPs {
			c.Shuffle = append(c.Shuffle, gen.U(t, i, len(c.TPs)-1))
		}
	}
	return c
}

func (c timingCase) points() []gen.TP {
	ps := append([]gen.TP(nil), c.TPs...)
	if len(c.Shuffle) == len(ps) {
		for i, j := range c.Shuffle {
			if j >= i && j < len(ps) {
				ps[i], ps[j] = ps[j], ps[i]
			}
		}
	}
	return ps
}

func checkC07(c timingCase, o *core.Obs) error {
	m := gen.Map{Ver: 14, SL: 0.7, SM: 1.4, TR: 1, HP: 5, CS: 5, OD: 5, AR: 5}
	gps := c.points()
	text := m
	text.TPs = nil
	sec := text.Sections()
	s := "osu file format v14\n"
	for _, x := range sec {
		s += "[" + x.Section + "]\n"
		for _, l := range x.Lines {
			s += l + "\n"
		}
		if x.Section == "TimingPoints" {
			for _, p := range gps {
				l := p.Line()
				if c.Blanks {
					l = " " + replaceAll(l, ",", " , ") + " "
				}
				s += l + "\n"
			}
		}
	}
	bm, err := parse(s)
	if err != nil {
		return fmt.Errorf("a valid beatmap was rejected: %v", err)
	}
	pts := tpoints(gps)
	// the earliest point must be uninherited for its base to be defined
	for i, p := range pts {
		if !p.Uninh && math.IsNaN(ref.BaseOf(pts, p, i)) {
			o.Label("undefined base")
			return nil
		}
	}
	if len(pts) >= 3 {
		o.Nontrivial()
	}
	o.LabelIf(c.Blanks, "blanks")
	for i := range pts {
		o.LabelIf(!pts[i].Uninh, "inherited")
		o.LabelIf(i > 0 && pts[i].Time == pts[i-1].Time, "same time")
		o.LabelIf(i > 0 && pts[i].Time < pts[i-1].Time, "out of order")
	}
	minB, maxB := math.Inf(1), 0.0
	for _, p := range pts {
		if p.Uninh {
			minB = math.Min(minB, 60000/p.BL)
			maxB = math.Max(maxB, 60000/p.BL)
		}
	}
	if !close64(bm.MinBPM, minB, 1e-12, 0) || !close64(bm.MaxBPM, maxB, 1e-12, 0) {
		return fmt.Errorf("BPM range %v..%v, declared %v..%v", bm.MinBPM, bm.MaxBPM, minB, maxB)
	}
	for _, q := range c.Queries {
		i := ref.TimingIndexAt(pts, float64(q))
		w := pts[i]
		g := bm.Timings.GetPointAt(float64(q))
		bl := ref.BaseOf(pts, w, i)
		if g.Time != w.Time || g.Inherited != !w.Uninh || g.SampleSet != w.Set || g.SampleIndex != w.Idx || g.SampleVolume != w.Vol || g.Signature != w.Sig ||
			g.Kiai != w.Kiai || g.OmitFirstBarLine != w.Omit {
			return fmt.Errorf("at %v: point %+v, declared %+v", q, g, w)
		}
		if !close64(g.GetBaseBeatLength(), bl, 1e-12, 0) || !close64(g.GetRatio(), ref.Ratio(w), 1e-6, 0) || !close64(g.GetBeatLength(), bl*ref.Ratio(w), 1e-6, 0) || !close64(g.GetRawBeatLength(), w.BL, 0, 0) {
			return fmt.Errorf("at %v: base %v ratio %v beat length %v raw %v, declared %v, %v (%+v)", q, g.GetBaseBeatLength(), g.GetRatio(), g.GetBeatLength(), g.GetRawBeatLength(), bl, ref.Ratio(w), w)
		}
		u, ok := ref.TimingAt(pts, float64(q), true)
		if ok {
			gu := bm.Timings.GetOriginalPointAt(float64(q))
			if gu.Time != u.Time || gu.Inherited || !close64(gu.GetBaseBeatLength(), u.BL, 1e-12, 0) || gu.Signature != u.Sig || gu.SampleIndex != u.Idx {
				return fmt.Errorf("at %v: uninherited point %+v, declared %+v", q, gu, u)
			}
		}
		o.Compared(10)
	}
	return nil
}

func replaceAll(s, a, b string) string {
	out := ""
	for _, r := range s {
		if string(r) == a {
			out += b
		} else {
			out += string(r)
		}
	}
	return out
}

// ---- C08, C09, C10: sliders ----

func drawSliderMap(t *rapid.T, opt gen.Opt) gen.Map {
	m := gen.Base(t, opt)
	n := gen.N(t, 1, 3)
	tm := gen.U(t, -500, 6000)
	for i := 0; i < n; i++ {
		ob := gen.Obj{K: "s", X: core.F(gen.U(t, 0, 512)), Y: core.F(gen.U(t, 0, 384)), T: core.F(tm)}
		if gen.P(t, 1, 4) {
			ob.T += core.F(gen.Pick(t, 0.25, 0.5, 0.75, 0.9, 0.1))
		}
		gen.DrawShape(t, &ob, opt)
		m.Objs = append(m.Objs, ob)
		tm += gen.U(t, 0, 3000)
	}
	gen.Align(t, &m)
	return m
}

func refPath(w gen.Obj) *ref.Path {
	pts := []ref.Pt{{X: float64(float32(w.X)), Y: float64(float32(w.Y))}}
	for _, p := range w.Pts {
		pts = append(pts, ref.Pt{X: float64(float32(p[0])), Y: float64(float32(p[1]))})
	}
	p := ref.NewPath(w.Curve, pts)
	// trailing equal points end the path with a zero-length or rounding-sized segment
	if n := len(pts); n >= 2 && pts[n-1] == pts[n-2] && w.Curve != "L" {
		p.Zero = true
	}
	return p
}

// judgeable: the declared length is well above rounding and the geometry is well conditioned.
func pathLen(w gen.Obj, p *ref.Path) (length float64, sure bool) {
	nat := p.Natural()
	switch {
	case nat == 0:
		return 0, true
	case w.Len <= 0:
		return 0, true
	case p.Ill:
		return float64(w.Len), true
	case p.Zero && float64(w.Len) > nat*(1-p.Drift)-1:
		return 0, false
	}
	return float64(w.Len), true
}

// lenTol bounds the rounding of a single-precision path length: the lengths of all
// flattened pieces of the natural path are summed in float32.
func lenTol(p *ref.Path, length float64) float64 {
	nat := math.Max(p.Natural(), p.Full)
	tol := 2e-3 + 2e-5*length + 6e-8*nat*(nat/8+50)
	if p.Drift > 0 && length > p.Natural() {
		tol += 1e-4 * length // the last piece, maybe a tiny one, is drawn out
	}
	return tol
}

func checkC08(m gen.Map, o *core.Obs) error {
	bm, err := mustParse(m)
	if err != nil {
		return err
	}
	want := inOrder(m.Objs)
	if len(bm.HitObjects) != len(want) {
		return fmt.Errorf("%d objects for %d lines", len(bm.HitObjects), len(want))
	}
	tps := tpoints(m.TPs)
	for i, w := range want {
		s := bm.HitObjects[i].(*objects.Slider)
		p := refPath(w)
		nat := p.Natural()
		length, sure := pathLen(w, p)
		o.Label("curve " + w.Curve)
		o.LabelIf(p.Ill, "ill-conditioned")
		bad := func(f string, a ...any) error {
			return fmt.Errorf("slider %d (%s): %s", i, w.Line(), fmt.Sprintf(f, a...))
		}
		head := ref.Pt{X: float64(float32(w.X)), Y: float64(float32(w.Y))}
		if d := pt(s.GetPositionAt(s.StartTime)).Dist(head); d > 0.01+1e-6*head.Len()+p.Noise {
			if !(p.Ill) {
				return bad("starts at %v, the head is at %v", s.GetPositionAt(s.StartTime), head)
			}
		}
		vel := ref.Velocity(tps, float64(w.T), float64(m.SM))
		gotLen := (s.EndTime - s.StartTime) * vel / 1000 / float64(w.Rep)
		if sure {
			if math.Abs(gotLen-length) > lenTol(p, length) {
				return bad("length %v, declared %v (natural %v)", gotLen, length, nat)
			}
		} else {
			length = gotLen
			o.Label("length not judged")
		}
		o.Compared(2)
		if length <= 0 || s.EndTime <= s.StartTime || p.Ill {
			continue
		}
		o.Nontrivial()
		span := (s.EndTime - s.StartTime) / float64(w.Rep)
		const k = 48
		var q [k + 1]ref.Pt
		for j := 0; j <= k; j++ {
			q[j] = pt(s.GetPositionAt(s.StartTime + span*float64(j)/k))
		}
		if w.Rep == 1 {
			// beyond its ends the fraction is clamped
			if pt(s.GetPositionAt(s.EndTime+1000)).Dist(q[k]) > 1e-3 || pt(s.GetPositionAt(s.StartTime-1000)).Dist(q[0]) > 1e-3 {
				return bad("not clamped outside its time")
			}
		}
		sureOn := nat/(1+p.Drift) - 1 // surely still on the curve
		o.LabelIf(length < sureOn, "cut short")
		o.LabelIf(length > nat+1, "extended")
		firstExt := -1
		for j := 0; j <= k; j++ {
			d := length * float64(j) / k
			if j > 0 {
				if st := q[j].Dist(q[j-1]); st > length/k*1.001+0.01 {
					return bad("moves %v px between fractions %d/%d and %d/%d of a %v px path", st, j-1, k, j, k, length)
				}
			}
			switch {
			case d <= sureOn:
				e := p.DistNear(q[j], d-0.05-p.Slip-p.Drift*0.1*d, d*(1+p.Drift)+0.3)
				if e > p.Sag {
					return bad("at %v px it is at %v, %v px away from the declared curve (allowed %.3f)", d, q[j], e, p.Sag)
				}
				o.Compared(1)
			case d > nat+0.5+p.Slip && firstExt < 0:
				firstExt = j
			}
		}
		// the other direction: the slider must visit the whole declared curve up to its length
		for j := 1; j < k && nat > 0; j++ {
			d := math.Min(nat, length) * float64(j) / k
			e := p.At(d)
			// the lib reaches this point between d/(1+drift) and d
			lo, hi := d/(1+p.Drift)-0.3, d+0.3+p.Slip
			best := math.Inf(1)
			for x := 0; x <= 8; x++ {
				dd := lo + (hi-lo)*float64(x)/8
				best = math.Min(best, pt(s.GetPositionAt(s.StartTime+span*math.Max(0, math.Min(1, dd/length)))).Dist(e))
			}
			if best > p.Sag+(hi-lo)/8+0.05 {
				return bad("never comes closer than %v px to %v of its curve (at %v px)", best, e, d)
			}
			o.Compared(1)
		}
		if firstExt >= 0 && k-firstExt >= 1 && length-nat > 3 {
			end := p.P[len(p.P)-1]
			tot := q[k].Dist(end)
			if !close64(tot, length-nat, 1e-3, nat*p.Drift+p.Sag+p.Slip+0.5) {
				return bad("extension ends %v px after the curve, expected %v", tot, length-nat)
			}
			for j := firstExt; j <= k; j++ {
				// on the straight line from the curve's end to the slider's end
				x := q[k].Sub(end).Mul(1 / tot)
				r := q[j].Sub(end)
				if off := math.Abs(x.X*r.Y - x.Y*r.X); off > 0.05+p.Sag {
					return bad("extension is bent by %v px", off)
				}
				o.Compared(1)
			}
			// it continues in the direction in which the curve ends
			x := q[k].Sub(end)
			best := math.Pi
			for step := 0.002; step < nat*1.03; step *= 1.03 {
				y := end.Sub(p.At(math.Max(0, nat-step)))
				if y.Len() < 1e-6 {
					continue
				}
				a := math.Abs(math.Atan2(x.X*y.Y-x.Y*y.X, x.X*y.X+x.Y*y.Y)) - 0.03 - 0.15/math.Max(step, 0.3)
				best = math.Min(best, a)
				if step > 70 {
					break
				}
			}
			// a curve ending in equal points has no direction there that survives rounding
			if best > 0 && !p.Zero {
				return bad("extension leaves the curve's direction by more than %v rad", best)
			}
			o.Compared(1)
		}
	}
	return nil
}

func checkC09(m gen.Map, o *core.Obs) error {
	bm, err := mustParse(m)
	if err != nil {
		return err
	}
	want := inOrder(m.Objs)
	if len(bm.HitObjects) != len(want) {
		return fmt.Errorf("%d objects for %d lines", len(bm.HitObjects), len(want))
	}
	tps := tpoints(m.TPs)
	for i, w := range want {
		s := bm.HitObjects[i].(*objects.Slider)
		bad := func(f string, a ...any) error {
			return fmt.Errorf("slider %d (%s): %s", i, w.Line(), fmt.Sprintf(f, a...))
		}
		p := refPath(w)
		length, sure := pathLen(w, p)
		vel := ref.Velocity(tps, float64(w.T), float64(m.SM))
		span := length / vel * 1000
		if sure {
			if !close64(s.EndTime-s.StartTime, span*float64(w.Rep), 1e-6, lenTol(p, length)/vel*1000*float64(w.Rep)) {
				return bad("lasts %v ms, expected %v (%v px at %v px/s, %d passes)", s.EndTime-s.StartTime, span*float64(w.Rep), length, vel, w.Rep)
			}
			// what the timing says a path of this length takes
			if got := bm.Timings.GetSliderTimeP(bm.Timings.GetPointAt(s.StartTime), length); !close64(got, span, 1e-5, 1e-6) {
				return bad("a pass over %v px takes %v ms according to the timing, expected %v", length, got, span)
			}
			o.Compared(2)
		}
		if s.StartTime != float64(w.T) {
			return bad("starts at %v", s.StartTime)
		}
		dur := s.EndTime - s.StartTime
		if dur < 0 {
			return bad("ends before it starts")
		}
		at := func(t float64) ref.Pt { return pt(s.GetPositionAt(t)) }
		head := pt(s.GetStartPosition())
		if dur == 0 {
			o.Label("zero duration")
			for _, t := range []float64{s.StartTime - 5, s.StartTime, s.StartTime + 100} {
				if at(t).Dist(head) > 1e-6 {
					return bad("has no duration but is at %v instead of its head at %v", at(t), t)
				}
			}
			if pt(s.GetEndPosition()).Dist(head) > 1e-6 {
				return bad("has no duration but ends at %v", s.GetEndPosition())
			}
			continue
		}
		o.Nontrivial()
		o.LabelIf(w.Rep > 1, "repeats")
		o.LabelIf(w.Rep%2 == 0, "even")
		one := dur / float64(w.Rep)
		gl := one * vel / 1000
		// slack: single precision progress times path length
		slack := 0.01 + 4e-6*gl + 1e-6*(math.Abs(head.X)+math.Abs(head.Y)) + gl/one*1e-6*math.Max(1, math.Abs(s.EndTime)*1e-6)
		if at(s.StartTime).Dist(head) > slack+p.Noise && !p.Ill {
			return bad("is at %v when it starts, its head is %v", at(s.StartTime), head)
		}
		// outside its time the ball stays at its ends
		if at(s.StartTime-1).Dist(at(s.StartTime)) > 1e-3 || at(s.StartTime-1e5).Dist(at(s.StartTime)) > 1e-3 {
			return bad("moves before it starts")
		}
		if at(s.EndTime+1).Dist(at(s.EndTime)) > 1e-3 || at(s.EndTime+1e5).Dist(at(s.EndTime)) > 1e-3 {
			return bad("moves after its end")
		}
		// every pass retraces the path, alternating directions, at constant speed
		const k = 12
		for r := 0; r < w.Rep; r++ {
			for j := 0; j <= k; j++ {
				f := float64(j) / k
				g := f
				if r%2 == 1 {
					g = 1 - f
				}
				a, b := at(s.StartTime+one*(float64(r)+f)), at(s.StartTime+one*g)
				if w.Rep > 1 && r == 0 && j == k {
					// the turning point may fall a hair on either side
				}
				if d := a.Dist(b); d > slack {
					return bad("in pass %d at fraction %v it is %v px away from the path position of the first pass", r, f, d)
				}
				o.Compared(1)
			}
		}
		// constant speed along the declared curve
		if !p.Ill && sure {
			sureOn := p.Natural()/(1+p.Drift) - 1
			for j := 0; j <= k; j++ {
				d := length * float64(j) / k
				if d > sureOn {
					break
				}
				if e := p.DistNear(at(s.StartTime+one*float64(j)/k), d-0.1-p.Slip-p.Drift*0.1*d, d*(1+p.Drift)+0.35); e > p.Sag+0.05 {
					return bad("at %v of the first pass it is %v px away from the path at %v px", float64(j)/k, e, d)
				}
				o.Compared(1)
			}
		}
		tail := at(s.StartTime + one)
		exp := at(s.StartTime)
		if w.Rep%2 == 1 {
			exp = tail
		}
		if e := pt(s.GetEndPosition()); e.Dist(exp) > slack || at(s.EndTime).Dist(e) > slack {
			return bad("ends at %v, expected %v after %d passes", e, exp, w.Rep)
		}
		o.Compared(2)
	}
	return nil
}

func checkC10(m gen.Map, o *core.Obs) error {
	bm, err := mustParse(m)
	if err != nil {
		return err
	}
	want := inOrder(m.Objs)
	if len(bm.HitObjects) != len(want) {
		return fmt.Errorf("%d objects for %d lines", len(bm.HitObjects), len(want))
	}
	tps := tpoints(m.TPs)
	for i, w := range want {
		s := bm.HitObjects[i].(*objects.Slider)
		bad := func(f string, a ...any) error {
			return fmt.Errorf("slider %d (%s): %s", i, w.Line(), fmt.Sprintf(f, a...))
		}
		p := refPath(w)
		length, sure := pathLen(w, p)
		if !sure {
			o.Label("length not judged")
			continue
		}
		k := ref.TimingIndexAt(tps, float64(w.T))
		nan := math.IsNaN(tps[k].BL)
		vel := ref.Velocity(tps, float64(w.T), float64(m.SM))
		td := 100 * float64(m.SM) / ref.Ratio(tps[k]) / float64(m.TR)
		if length > 0 && length/td*float64(w.Rep) > 20000 {
			o.Label("too many ticks")
			continue
		}
		// what the timing itself says of ticks and velocity at the slider
		here := bm.Timings.GetPointAt(s.StartTime)
		if got := bm.Timings.GetTickDistance(here); !close64(got, td, 1e-6, 0) {
			return bad("tick distance %v according to the timing, expected %v", got, td)
		}
		if got := bm.Timings.GetVelocity(here); !nan && !close64(got, vel, 1e-6, 0) {
			return bad("%v px/s according to the timing, expected %v", got, vel)
		}
		o.Compared(1)
		e := ref.SliderTicks(float64(w.T), length, float64(w.Len), vel, td, w.Rep, nan, lenTol(p, length))
		if e.Ambiguous {
			o.Label("ambiguous cut-off")
			continue
		}
		var ticks, reps []float64
		prev := math.Inf(-1)
		for _, p := range s.ScorePoints {
			if p.Time < prev {
				return bad("score points are not sorted: %v after %v", p.Time, prev)
			}
			prev = p.Time
			slack := 1e-6 + 1e-9*math.Abs(s.EndTime)
			if p.Time < s.StartTime-slack || p.Time > s.EndTime+slack {
				return bad("score point at %v outside %v..%v", p.Time, s.StartTime, s.EndTime)
			}
			if p.IsReverse {
				reps = append(reps, p.Time)
			} else {
				ticks = append(ticks, p.Time)
			}
		}
		exp := append([]float64(nil), e.Ticks...)
		exp = append(exp, e.Tail)
		sort.Float64s(exp)
		sort.Float64s(e.Repeats)
		if len(ticks) != len(exp) || len(reps) != len(e.Repeats) {
			return bad("%d ticks and %d repeats, osu! has %d and %d (tick distance %v, velocity %v, length %v)", len(ticks)-1, len(reps), len(exp)-1, len(e.Repeats), td, vel, length)
		}
		tol := lenTol(p, length)/vel*1000*float64(w.Rep) + 1e-3
		for j := range exp {
			if math.Abs(ticks[j]-exp[j]) > tol {
				return bad("score point %d at %v, expected %v", j, ticks[j], exp[j])
			}
		}
		for j := range e.Repeats {
			if math.Abs(reps[j]-e.Repeats[j]) > tol {
				return bad("repeat %d at %v, expected %v", j, reps[j], e.Repeats[j])
			}
		}
		o.Compared(len(exp) + len(reps))
		if len(e.Ticks) > 0 {
			o.Nontrivial()
			o.Label("ticks")
			o.LabelIf(w.Rep > 1, "ticks and repeats")
		}
		o.LabelIf(nan, "NaN beat length")
		o.LabelIf(e.Tail < float64(w.T)+length/vel*1000*float64(w.Rep)-35.99 && length > 0, "tail 36 ms early")
	}
	return nil
}

// ---- C11, C12: stacking and positions ----

func checkC11(m gen.Map, o *core.Obs) error {
	bm, err := mustParse(m)
	if err != nil {
		return err
	}
	var so []ref.StackObj
	for _, ob := range bm.HitObjects {
		p, e := ob.GetStartPosition(), ob.GetEndPosition()
		so = append(so, ref.StackObj{Kind: kindOf(ob), Start: ob.GetStartTime(), End: ob.GetEndTime(), P: [2]float32{p.X, p.Y}, E: [2]float32{e.X, e.Y}})
	}
	o.LabelIf(m.Ver < 6, "old algorithm")
	for _, v := range []struct {
		n    string
		mods int64
	}{{"no mod", 0}, {"Easy", gen.EZ}, {"HardRock", gen.HR}} {
		d := ref.NewDiff(float64(m.HP), float64(m.CS), float64(m.OD), float64(m.AR), v.mods, 1)
		w := d.Preempt * float64(m.SL)
		lo, hi := math.Floor(w-1e-6), math.Floor(w+1e-6)
		h1, amb := ref.Stack(so, m.Ver, lo)
		h2, amb2 := h1, amb
		if lo != hi {
			h2, amb2 = ref.Stack(so, m.Ver, hi)
		}
		if amb || amb2 {
			o.Label("ambiguous")
			continue
		}
		bad1, bad2 := -1, -1
		stacked := 0
		for i, ob := range bm.HitObjects {
			g := ob.GetStackIndex(difficulty.Modifier(v.mods))
			if g != h1[i] && bad1 < 0 {
				bad1 = i
			}
			if g != h2[i] && bad2 < 0 {
				bad2 = i
			}
			if h1[i] != 0 {
				stacked++
			}
			o.LabelIf(h1[i] < 0, "negative height")
		}
		if bad1 >= 0 && bad2 >= 0 {
			ob := bm.HitObjects[bad1]
			return fmt.Errorf("%s: object %d at %v, %v has stack height %d, osu! gives %d (window %v, version %d)", v.n, bad1, ob.GetStartTime(), ob.GetStartPosition(), ob.GetStackIndex(difficulty.Modifier(v.mods)), h1[bad1], w, m.Ver)
		}
		o.Compared(len(so))
		if stacked > 0 {
			o.Nontrivial()
			o.Label("stacked " + v.n)
		}
		for i, ob := range bm.HitObjects {
			h := hitObject(ob)
			off := map[int64][2]float32{0: {h.StackOffset.X, h.StackOffset.Y}, gen.EZ: {h.StackOffsetEZ.X, h.StackOffsetEZ.Y}, gen.HR: {h.StackOffsetHR.X, h.StackOffsetHR.Y}}[v.mods]
			exp := -float64(ob.GetStackIndex(difficulty.Modifier(v.mods))) * d.Radius / 10
			for _, x := range off {
				if !close64(float64(x), exp, 1e-5, 1e-6) {
					return fmt.Errorf("%s: object %d with height %d is offset by %v, expected %v on both axes", v.n, i, ob.GetStackIndex(difficulty.Modifier(v.mods)), off, exp)
				}
			}
		}
	}
	return nil
}

type posCase struct {
	Map     gen.Map  `json:"map"`
	Queries []posQ   `json:"queries"`
	Times   []core.F `json:"times"`
}
type posQ struct {
	Obj  int   `json:"obj"`
	Mods int64 `json:"mods"`
	Kind int   `json:"kind"`
	Time int   `json:"time"`
}

func drawC12(t *rapid.T) posCase {
	c := posCase{Map: gen.DrawMap(t, gen.Opt{StackBias: true, MaxSegs: 4, MinObjs: 2, NoGaps: true, Long: true})}
	for i := 0; i < 4; i++ {
		c.Times = append(c.Times, core.F(gen.U(t, -100, 8000)))
	}
	n := gen.N(t, 5, 40)
	for i := 0; i < n; i++ {
		q := posQ{Obj: gen.U(t, 0, len(c.Map.Objs)-1), Kind: gen.U(t, 0, 2), Time: gen.U(t, 0, 3)}
		if gen.P(t, 1, 3) {
			for b := 0; b < 32; b++ {
				if gen.P(t, 1, 4) {
					q.Mods |= 1 << b
				}
			}
		} else {
			q.Mods = gen.Mods(t)
		}
		c.Queries = append(c.Queries, q)
	}
	return c
}

func checkC12(c posCase, o *core.Obs) error {
	bm, err := mustParse(c.Map)
	if err != nil {
		return err
	}
	n := len(bm.HitObjects)
	if n == 0 {
		return nil
	}
	before := snapAll(bm)
	for qi, q := range c.Queries {
		ob := bm.HitObjects[q.Obj%n]
		md := difficulty.Modifier(q.Mods)
		h := hitObject(ob)
		st := h.StackIndex
		off := h.StackOffset
		switch {
		case q.Mods&gen.HR != 0:
			st, off = h.StackIndexHR, h.StackOffsetHR
		case q.Mods&gen.EZ != 0:
			st, off = h.StackIndexEZ, h.StackOffsetEZ
		}
		o.LabelIf(h.StackIndex != h.StackIndexHR || h.StackIndex != h.StackIndexEZ, "variants differ")
		if off.X != 0 {
			o.Nontrivial()
		}
		o.LabelIf(q.Mods&gen.HR != 0, "HR")
		o.LabelIf(q.Mods&gen.HR != 0 && q.Mods&gen.EZ != 0, "HR and EZ")
		if g := ob.GetStackIndex(md); g != st {
			return fmt.Errorf("query %d: stack height under %s is %d, stored %d", qi, md, g, st)
		}
		time := float64(c.Times[q.Time])
		raw, got, plain := ob.GetStartPosition(), ob.GetStackedStartPositionMod(md), ob.GetStackedStartPosition()
		switch q.Kind {
		case 1:
			raw, got, plain = ob.GetEndPosition(), ob.GetStackedEndPositionMod(md), ob.GetStackedEndPosition()
		case 2:
			raw, got, plain = ob.GetPositionAt(time), ob.GetStackedPositionAtMod(time, md), ob.GetStackedPositionAt(time)
		}
		ex, ey := float64(raw.X), float64(raw.Y)
		if q.Mods&gen.HR != 0 {
			ey = 384 - ey
		}
		ex += float64(off.X)
		ey += float64(off.Y)
		if !close64(float64(got.X), ex, 1e-6, 1e-3) || !close64(float64(got.Y), ey, 1e-6, 1e-3) {
			return fmt.Errorf("query %d (kind %d, object %d, %s): %v, expected (%v, %v) from raw %v and offset %v", qi, q.Kind, q.Obj%n, md, got, ex, ey, raw, off)
		}
		if !close64(float64(plain.X), float64(raw.X)+float64(h.StackOffset.X), 1e-6, 1e-3) || !close64(float64(plain.Y), float64(raw.Y)+float64(h.StackOffset.Y), 1e-6, 1e-3) {
			return fmt.Errorf("query %d: plain stacked position %v, raw %v, offset %v", qi, plain, raw, h.StackOffset)
		}
		if !close64(float64(off.X), -float64(st)*ref.NewDiff(5, float64(c.Map.CS), 5, 5, q.Mods&(gen.HR)|cond(q.Mods&gen.HR == 0, q.Mods&gen.EZ), 1).Radius/10, 1e-5, 1e-6) {
			return fmt.Errorf("query %d: offset %v does not belong to height %d under %s", qi, off, st, md)
		}
		o.Compared(5)
	}
	if after := snapAll(bm); after != before {
		return fmt.Errorf("querying changed the objects: %s", firstDiff(before, after))
	}
	return nil
}

func cond(b bool, v int64) int64 {
	if b {
		return v
	}
	return 0
}

func snapAll(bm *beatmap.BeatMap) string {
	s := ""
	for _, ob := range bm.HitObjects {
		s += snapObj(ob) + "\n"
	}
	return s
}

func init() {
	core.Register("C05", "hit-object line lists in any order with ties, mixing circles, sliders, spinners, holds and unknown types; non-trivial: at least 3 lines of 2 kinds",
		24000, 500000, func(t *rapid.T) gen.Map { return drawObjLines(t, true) }, checkC05)
	core.Register("C06", "hit-object lines with combo flags and skips in any order; non-trivial: at least 4 objects and 2 combo starts",
		24000, 500000, func(t *rapid.T) gen.Map { return drawObjLines(t, false) }, checkC06)
	core.Register("C07", "timing point lists with ties, disorder, fractional times, blanks and missing fields, queried around every point; non-trivial: at least 3 points",
		24000, 500000, drawC07, checkC07)
	core.Register("C08", "sliders of every curve type, cut and extended; non-trivial: a slider with a path of positive length",
		16000, 400000, func(t *rapid.T) gen.Map { return drawSliderMap(t, gen.Opt{}) }, checkC08)
	core.Register("C09", "sliders over timing lists with slider velocities and repeats; non-trivial: a slider with positive duration",
		16000, 400000, func(t *rapid.T) gen.Map { return drawSliderMap(t, gen.Opt{ManySpans: true}) }, checkC09)
	core.Register("C10", "sliders over timing lists, tick rates, NaN points; non-trivial: a slider with ticks",
		24000, 600000, func(t *rapid.T) gen.Map { return drawSliderMap(t, gen.Opt{NaNTP: true, ManySpans: true}) }, checkC10)
	core.Register("C11", "stack-prone maps for every format version; non-trivial: some object is stacked",
		20000, 500000, func(t *rapid.T) gen.Map {
			return gen.DrawMap(t, gen.Opt{StackBias: true, MaxSegs: 5, NoGaps: true, FracTimes: gen.P(t, 1, 4), Long: true})
		}, checkC11)
	core.Register("C12", "stack-prone maps and sequences of position queries under arbitrary mods; non-trivial: a queried object is stacked",
		14000, 300000, drawC12, checkC12)
}
