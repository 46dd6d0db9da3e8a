package props

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C17

func checkC17(c rated, o *core.Obs) error {
	bm, err := mustParse(c.Map)
	if err != nil {
		return err
	}
	labelObjs(o, c)
	d := c.diff()
	objs := c.objs(bm.HitObjects)
	step := osu.CalculateStep(objs, d)
	stepP, peaksStep := osu.CalculateStepWithPeaks(objs, d)
	single := osu.CalculateSingle(objs, d)
	singleP, peaksSingle := osu.CalculateSingleWithPeaks(objs, d)
	peaks := osu.CalculateStrainPeaks(objs, d)
	if len(objs) >= 3 {
		o.Nontrivial()
	}
	if len(step) != len(objs) || len(stepP) != len(objs) {
		return fmt.Errorf("%d objects, but %d step entries and %d with peaks", len(objs), len(step), len(stepP))
	}
	if err := sameAttr(single, singleP, 1e-9); err != nil {
		return fmt.Errorf("single with and without peaks: %v", err)
	}
	if err := sameStrainPeaks(peaks, peaksSingle, 1e-9); err != nil {
		return fmt.Errorf("peaks only vs single with peaks: %v", err)
	}
	if err := sameStrainPeaks(peaks, peaksStep, 1e-9); err != nil {
		return fmt.Errorf("peaks only vs stepwise with peaks: %v", err)
	}
	for i := range step {
		if len(step) > 80 && i%(len(step)/12) != 0 && i < len(step)-3 { // of long maps, some prefixes
			continue
		}
		o.Compared(2)
		if err := sameAttr(step[i], stepP[i], 1e-9); err != nil {
			return fmt.Errorf("step %d with and without peaks: %v", i, err)
		}
		pre := osu.CalculateSingle(objs[:i+1:i+1], d)
		if err := sameAttr(step[i], pre, 1e-9); err != nil {
			return fmt.Errorf("step entry %d of %d vs the single calculation of those objects: %v", i, len(objs), err)
		}
	}
	if len(step) > 0 {
		if err := sameAttr(step[len(step)-1], single, 1e-9); err != nil {
			return fmt.Errorf("last step vs the whole map: %v", err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C18

type anyRated struct {
	Raw   rawCase  `json:"raw"`
	Map   *gen.Map `json:"map,omitempty"`
	Mods  int64    `json:"mods"`
	Speed core.F   `json:"speed"`
}

func drawAnyRated(t *rapid.T) anyRated {
	c := anyRated{Mods: gen.Mods(t), Speed: gen.Speed(t)}
	if gen.P(t, 1, 3) { // degenerate pattern maps
		m := gen.DrawMap(t, gen.Opt{MaxSegs: 4, NaNTP: true, FracTimes: gen.P(t, 1, 2), StackBias: true})
		keep := gen.Pick(t, "", "", "p", "s", "c")
		if keep != "" {
			var objs []gen.Obj
			for _, ob := range m.Objs {
				if ob.K == keep {
					objs = append(objs, ob)
				}
			}
			m.Objs = objs
		}
		if gen.P(t, 1, 6) { // everything at once
			for i := range m.Objs {
				m.Objs[i].T = 1000
			}
		}
		if gen.P(t, 1, 6) { // everything in one place
			for i := range m.Objs {
				m.Objs[i].X, m.Objs[i].Y = 200, 200
			}
		}
		c.Map = &m
		return c
	}
	for i := 0; i < 3; i++ {
		c.Raw = drawRaw(t)
		end := core.Watch(c)
		bm, err := safeParse(c.Raw.Data)
		end()
		if err == nil && bm != nil {
			break
		}
	}
	return c
}

// safeParse is only used to steer generation.
func safeParse(b []byte) (bm *beatmap.BeatMap, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic")
		}
	}()
	if sliderTravel(b) > workBudget {
		return nil, fmt.Errorf("too long")
	}
	return beatmap.ParseFromByte(b)
}

func saneAttr(a osu.Attributes) error {
	for _, p := range []struct {
		n string
		v float64
	}{{"total", a.Total}, {"aim", a.Aim}, {"slider factor", a.SliderFactor}, {"speed", a.Speed}, {"flashlight", a.Flashlight}} {
		if !finite(p.v) || p.v < 0 {
			return fmt.Errorf("%s is %v", p.n, p.v)
		}
	}
	return nil
}

func sanePeaks(p osu.StrainPeaks) error {
	for _, l := range []struct {
		n string
		v []float64
	}{{"aim", p.Aim}, {"speed", p.Speed}, {"flashlight", p.Flashlight}, {"total", p.Total}} {
		for i, v := range l.v {
			if !finite(v) || v < 0 {
				return fmt.Errorf("%s peak %d is %v", l.n, i, v)
			}
		}
	}
	return nil
}

func checkC18(c anyRated, o *core.Obs) error {
	data := c.Raw.Data
	if c.Map != nil {
		data = []byte(c.Map.Text())
	}
	if sliderTravel(data) > workBudget {
		o.Label("over the travel budget")
		return nil
	}
	bm, err := beatmap.ParseFromByte(data)
	if err != nil || bm == nil {
		o.Label("rejected")
		return nil
	}
	objs := bm.HitObjects
	o.LabelIf(len(objs) == 0, "no objects")
	o.LabelIf(len(objs) == 1, "one object")
	var ns, nc, np int
	for _, ob := range objs {
		switch kindOf(ob) {
		case 's':
			ns++
		case 'c':
			nc++
		case 'p':
			np++
		}
	}
	o.LabelIf(np > 0 && ns+nc == 0, "only spinners")
	o.LabelIf(ns > 0, "sliders")
	span := 0.0
	if len(objs) > 0 {
		span = objs[len(objs)-1].GetStartTime() - objs[0].GetStartTime()
	}
	if span > 4e7 {
		o.Label("gap too long to explore")
		return nil
	}
	o.Nontrivial()
	d := difficulty.NewDifficulty(bm.Difficulty.GetHP(), bm.Difficulty.GetCS(), bm.Difficulty.GetOD(), bm.Difficulty.GetAR())
	d.SetMods(difficulty.Modifier(c.Mods))
	if c.Speed > 0 && c.Speed != 1 {
		d.SetCustomSpeed(float64(c.Speed))
	}
	a, p := osu.CalculateSingleWithPeaks(objs, d)
	b := osu.CalculateSingle(objs, d)
	o.Compared(3)
	for _, x := range []osu.Attributes{a, b} {
		if err := saneAttr(x); err != nil {
			return err
		}
	}
	if err := sanePeaks(p); err != nil {
		return err
	}
	if err := sanePeaks(osu.CalculateStrainPeaks(objs, d)); err != nil {
		return err
	}
	if len(objs) == 0 && (a.Total != 0 || a.Aim != 0 || a.Speed != 0 || a.Flashlight != 0 || a.MaxCombo != 0 || a.ObjectCount != 0) {
		return fmt.Errorf("a map without objects rates %+v", a)
	}
	steps := []osu.Attributes{a}
	if span*float64(len(objs)) < 2e7 {
		for i, s := range osu.CalculateStep(objs, d) {
			if err := saneAttr(s); err != nil {
				return fmt.Errorf("step %d: %v", i, err)
			}
		}
		st, sp := osu.CalculateStepWithPeaks(objs, d)
		for i, s := range st {
			if err := saneAttr(s); err != nil {
				return fmt.Errorf("step %d (with peaks): %v", i, err)
			}
		}
		if err := sanePeaks(sp); err != nil {
			return err
		}
		if len(st) > 0 {
			steps = append(steps, st[0], st[len(st)/2])
		}
	}
	for _, at := range steps {
		n := at.ObjectCount
		for _, pl := range [][5]int{{-1, -1, 0, 0, 0}, {0, -1, n / 3, n / 4, n / 5}, {at.MaxCombo / 2, 0, 0, 0, n}, {at.MaxCombo, 0, n, 0, 0}, {0, 0, 0, 0, 0}} {
			pp := (&osu.PPv2{}).PPv2x(at, pl[0], pl[1], pl[2], pl[3], pl[4], d)
			for _, v := range []float64{pp.Results.Aim, pp.Results.Speed, pp.Results.Acc, pp.Results.Flashlight, pp.Results.Total} {
				if !finite(v) || v < 0 {
					return fmt.Errorf("pp of play %v on %+v is %+v", pl, at, pp.Results)
				}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C19

type countCase struct {
	Rated rated  `json:"rated"`
	Mods2 int64  `json:"mods2"`
	CS    core.F `json:"cs"`
	OD    core.F `json:"od"`
}

func checkC19(c countCase, o *core.Obs) error {
	bm, err := mustParse(c.Rated.Map)
	if err != nil {
		return err
	}
	labelObjs(o, c.Rated)
	type cnt struct{ n, c, s, p, combo int }
	var w cnt
	var pre []cnt
	for _, ob := range bm.HitObjects {
		w.n++
		w.combo++
		switch x := ob.(type) {
		case *objects.Circle:
			w.c++
		case *objects.Spinner:
			w.p++
		case *objects.Slider:
			w.s++
			w.combo += len(x.ScorePoints)
		}
		pre = append(pre, w)
	}
	same := func(a osu.Attributes, w cnt) error {
		o.Compared(1)
		if (cnt{a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo}) != w {
			return fmt.Errorf("objects/circles/sliders/spinners/combo are %d/%d/%d/%d/%d, want %d/%d/%d/%d/%d", a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo, w.n, w.c, w.s, w.p, w.combo)
		}
		return nil
	}
	// from the file itself
	var decl cnt
	for _, ob := range c.Rated.Map.Objs {
		switch ob.K {
		case "c":
			decl.c++
		case "s":
			decl.s++
		case "p":
			decl.p++
		}
	}
	if decl.c != w.c || decl.s != w.s || decl.p != w.p {
		return fmt.Errorf("the file declares %+v, the beatmap holds %+v", decl, w)
	}
	if w.n >= 3 && w.s > 0 {
		o.Nontrivial()
	}
	d1 := c.Rated.diff()
	d2 := difficulty.NewDifficulty(5, float64(c.CS), float64(c.OD), 9)
	d2.SetMods(difficulty.Modifier(c.Mods2))
	for _, d := range []*difficulty.Difficulty{d1, d2} {
		if err := same(osu.CalculateSingle(bm.HitObjects, d), w); err != nil {
			return fmt.Errorf("single: %v", err)
		}
		a, _ := osu.CalculateSingleWithPeaks(bm.HitObjects, d)
		if err := same(a, w); err != nil {
			return fmt.Errorf("single with peaks: %v", err)
		}
		st := osu.CalculateStep(bm.HitObjects, d)
		stp, _ := osu.CalculateStepWithPeaks(bm.HitObjects, d)
		for n, list := range [][]osu.Attributes{st, stp} {
			if len(list) != len(pre) {
				return fmt.Errorf("%d step entries for %d objects", len(list), len(pre))
			}
			for i, a := range list {
				if err := same(a, pre[i]); err != nil {
					return fmt.Errorf("step %d (variant %d): %v", i, n, err)
				}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C20

type symCase struct {
	Map   gen.Map `json:"map"`
	Mods  int64   `json:"mods"`
	Speed core.F  `json:"speed"`
	Rel   string  `json:"rel"`
	K     int     `json:"k"`
	DX    int     `json:"dx"`
	DY    int     `json:"dy"`
	Extra int64   `json:"extra"`
	Fac   core.F  `json:"fac"`
}

const inertMods = gen.NF | gen.SD | gen.PF | gen.HD | gen.SO | gen.TD | gen.AP | gen.AT | gen.V2 |
	1<<15 | 1<<16 | 1<<17 | 1<<18 | 1<<19 | 1<<24 | 1<<25 | 1<<26 | 1<<27 | 1<<28 // key mods

func drawSym(t *rapid.T) symCase {
	c := symCase{Rel: gen.Pick(t, "shift", "translate", "mirrorx", "mirrory", "rot90", "rot180", "hr", "ez", "mods", "speed", "stretch"), Speed: 1}
	o := gen.Opt{MaxSegs: 6, MinObjs: 4, Fixed: true, Long: true}
	switch c.Rel {
	case "translate", "mirrorx", "mirrory", "rot90", "rot180":
		o.StrictTime = true
		o.OnlyLinear = gen.P(t, 1, 2)
	case "stretch":
		o.NoSliders = true
	case "mods", "speed", "ez":
		o.FracTimes = gen.P(t, 1, 3)
	}
	c.Map = gen.DrawMap(t, o)
	c.Mods = int64(gen.Pick(t, 0, 0, gen.HR, gen.EZ))
	if gen.P(t, 1, 3) {
		c.Mods |= gen.FL
	}
	if gen.P(t, 1, 8) {
		c.Mods |= gen.RX
	}
	speedMods := int64(gen.Pick(t, 0, 0, gen.DT, gen.HT))
	c.K = gen.U(t, -60, 60)
	c.DX, c.DY = gen.U(t, -200, 200), gen.U(t, -200, 200)
	switch c.Rel {
	case "translate", "mirrorx", "mirrory", "rot90", "rot180":
		c.Map.SL = 0
		c.Mods |= speedMods
	case "hr":
		c.Mods = c.Mods&^gen.EZ | gen.HR | speedMods
	case "ez":
		c.Mods = c.Mods&^gen.HR | gen.EZ | speedMods
		if gen.P(t, 1, 4) {
			c.Speed = gen.Speed(t)
		}
	case "mods":
		c.Mods |= speedMods
		c.Speed = gen.Speed(t)
		for i := gen.N(t, 1, 5); i > 0; i-- {
			c.Extra |= int64(gen.Pick(t, gen.NF, gen.SD, gen.SD|gen.PF, gen.HD, gen.HD, gen.SO, gen.TD, gen.AP, gen.V2, 1<<15, 1<<16, 1<<17, 1<<18, 1<<19, 1<<24, 1<<25, 1<<26, 1<<27, 1<<28))
		}
	case "speed":
		if gen.P(t, 1, 2) {
			c.Mods |= gen.DT
		} else {
			c.Mods |= gen.HT
		}
		c.Speed = gen.Pick(t, core.F(1), 1, 2, 0.5)
	case "shift":
		c.Mods |= speedMods
	case "stretch":
		c.Mods &^= gen.HR | gen.EZ
		c.Mods |= speedMods
		c.Map.SL = 0
		c.Fac = gen.Pick(t, core.F(2), 0.5, 4)
	}
	return c
}

// moved applies f to all positions.
func moved(m gen.Map, f func(x, y core.F) (core.F, core.F)) gen.Map {
	objs := append([]gen.Obj(nil), m.Objs...)
	for i := range objs {
		objs[i].X, objs[i].Y = f(objs[i].X, objs[i].Y)
		pts := make([][2]core.F, len(objs[i].Pts))
		for k, p := range objs[i].Pts {
			pts[k][0], pts[k][1] = f(p[0], p[1])
		}
		objs[i].Pts = pts
	}
	m.Objs = objs
	return m
}

// retimed applies f to all times.
func retimed(m gen.Map, f func(t core.F) core.F) gen.Map {
	m.Objs = append([]gen.Obj(nil), m.Objs...)
	for i := range m.Objs {
		m.Objs[i].T = f(m.Objs[i].T)
		if m.Objs[i].K == "p" {
			m.Objs[i].End = f(m.Objs[i].End)
		}
	}
	m.TPs = append([]gen.TP(nil), m.TPs...)
	for i := range m.TPs {
		m.TPs[i].T = f(m.TPs[i].T)
	}
	return m
}

func checkC20(c symCase, o *core.Obs) error {
	m2 := c.Map
	mods2, speed2 := c.Mods, float64(c.Speed)
	sp := ref.SpeedOf(c.Mods, float64(c.Speed))
	tol := 2e-4
	anyCurve := false
	for _, ob := range c.Map.Objs {
		if ob.K == "s" && (ob.Curve != "L" || len(ob.Pts) > 1) {
			anyCurve = true
		}
	}
	bm, err := mustParse(c.Map)
	if err != nil {
		return err
	}
	d := newDiff(c.Map, c.Mods, float64(c.Speed))
	var d2 *difficulty.Difficulty
	switch c.Rel {
	case "shift":
		m2 = retimed(c.Map, func(t core.F) core.F { return t + core.F(400*float64(c.K)*sp) })
	case "translate":
		m2 = moved(c.Map, func(x, y core.F) (core.F, core.F) { return x + core.F(c.DX), y + core.F(c.DY) })
	case "mirrorx":
		m2 = moved(c.Map, func(x, y core.F) (core.F, core.F) { return 512 - x, y })
	case "mirrory":
		m2 = moved(c.Map, func(x, y core.F) (core.F, core.F) { return x, 384 - y })
	case "rot180":
		m2 = moved(c.Map, func(x, y core.F) (core.F, core.F) { return 512 - x, 384 - y })
	case "rot90":
		m2 = moved(c.Map, func(x, y core.F) (core.F, core.F) { return y, 512 - x })
	case "hr":
		m2 = moved(c.Map, func(x, y core.F) (core.F, core.F) { return x, 384 - y })
		up := func(v core.F, f float64) core.F { return core.F(math.Min(10, float64(v)*f)) }
		m2.HP, m2.OD, m2.AR, m2.CS = up(m2.HP, 1.4), up(m2.OD, 1.4), up(m2.AR, 1.4), up(m2.CS, 1.3)
		mods2 &^= gen.HR
	case "ez":
		m2.HP, m2.OD, m2.AR, m2.CS = m2.HP/2, m2.OD/2, m2.AR/2, m2.CS/2
		mods2 &^= gen.EZ
	case "mods":
		mods2 |= c.Extra & inertMods
		tol = 1e-12
	case "speed":
		tol = 1e-9
	case "stretch":
		f := float64(c.Fac)
		m2 = retimed(c.Map, func(t core.F) core.F { return t * c.Fac })
		speed2 *= f
		d2 = difficulty.NewDifficulty(float64(c.Map.HP), float64(c.Map.CS), (80-f*(80-6*float64(c.Map.OD)))/6, float64(c.Map.AR))
		d2.SetMods(difficulty.Modifier(mods2))
		d2.SetCustomSpeed(speed2)
		tol = 1e-7
	}
	bm2, err := mustParse(m2)
	if err != nil {
		return err
	}
	if d2 == nil {
		d2 = newDiff(m2, mods2, speed2)
	}
	if len(bm.HitObjects) != len(bm2.HitObjects) {
		return fmt.Errorf("%s: %d objects became %d", c.Rel, len(bm.HitObjects), len(bm2.HitObjects))
	}
	o.Label(c.Rel)
	for i := range bm.HitObjects {
		a, b := bm.HitObjects[i].GetStackIndex(difficulty.Modifier(c.Mods)), bm2.HitObjects[i].GetStackIndex(difficulty.Modifier(mods2))
		if c.Rel == "hr" || c.Rel == "ez" || c.Rel == "shift" {
			if a != b {
				o.Label("stacked differently by rounding")
				return nil
			}
		} else if c.Map.SL == 0 && (a != 0 || b != 0) {
			o.Label("stacked in spite of zero leniency")
			return nil
		}
	}
	rd := refDiff(c.Map, c.Mods, float64(c.Speed))
	want := ref.Rate(starObjs(bm.HitObjects, difficulty.Modifier(c.Mods)), rd, exactTimes(bm.HitObjects, refDiff(c.Map, c.Mods&^(gen.DT|gen.HT), float64(c.Speed))))
	if c.Rel != "mods" && want.Ambiguous {
		o.Label("ambiguous")
		return nil
	}
	if c.Rel != "mods" && c.Rel != "speed" && (tiedPoints(bm.HitObjects) || tiedPoints(bm2.HitObjects)) {
		o.Label("repeat and tail at the same instant")
		return nil
	}
	switch c.Rel {
	case "mirrorx", "mirrory", "rot90", "rot180", "hr":
		if want.ZeroAngle { // its direction depends on the signs of zeros, in osu! too
			o.Label("angle at a zero-length side")
			return nil
		}
	}
	switch c.Rel {
	case "mirrorx", "mirrory", "rot90", "rot180", "hr", "translate":
		if unsureTicks(c.Map) {
			o.Label("a tick on the cut-off")
			return nil
		}
	}
	if anyCurve && c.Rel != "ez" && c.Rel != "mods" && c.Rel != "speed" {
		tol = 2e-3 // flattening of curves may differ by rounding
		o.Label("with curves")
	}
	o.Nontrivial()
	o.Compared(1)
	a := osu.CalculateSingle(bm.HitObjects, d)
	b := osu.CalculateSingle(bm2.HitObjects, d2)
	// with DT or HT times are divided, and the order of operations may decide between equal times
	byRounding := func() bool {
		return c.Rel != "mods" && ref.Rate(starObjs(bm.HitObjects, difficulty.Modifier(c.Mods)), rd, exactTimes(bm.HitObjects, rd)).Ambiguous
	}
	if err := sameAttr(a, b, tol); err != nil {
		if byRounding() {
			o.Label("decided by rounding")
			return nil
		}
		return fmt.Errorf("%s: %v", c.Rel, err)
	}
	if c.Rel == "speed" {
		alts := []struct {
			m int64
			s float64
		}{{c.Mods &^ gen.DT, 1.5 * float64(c.Speed)}, {c.Mods | gen.NC, float64(c.Speed)}}
		if c.Mods&gen.HT != 0 {
			alts = []struct {
				m int64
				s float64
			}{{c.Mods &^ gen.HT, 0.75 * float64(c.Speed)}, {c.Mods | gen.DC, float64(c.Speed)}}
		}
		for _, x := range alts {
			b := osu.CalculateSingle(bm.HitObjects, newDiff(c.Map, x.m, x.s))
			o.Compared(1)
			if err := sameAttr(a, b, tol); err != nil {
				if byRounding() {
					o.Label("decided by rounding")
					return nil
				}
				return fmt.Errorf("%s at %v vs %s at %v: %v", difficulty.Modifier(c.Mods), c.Speed, difficulty.Modifier(x.m), x.s, err)
			}
		}
	}
	return nil
}

// unsureTicks: a tick lies so close to the end of a slider that the rounding of the path's
// length decides whether it counts.
func unsureTicks(m gen.Map) bool {
	tps := tpoints(m.TPs)
	for _, w := range inOrder(m.Objs) {
		if w.K != "s" {
			continue
		}
		p := refPath(w)
		length, sure := pathLen(w, p)
		if !sure {
			return true
		}
		k := ref.TimingIndexAt(tps, float64(w.T))
		td := 100 * float64(m.SM) / ref.Ratio(tps[k]) / float64(m.TR)
		if ref.SliderTicks(float64(w.T), length, float64(w.Len), ref.Velocity(tps, float64(w.T), float64(m.SM)), td, 1, math.IsNaN(tps[k].BL), lenTol(p, length)).Ambiguous {
			return true
		}
	}
	return false
}

// tiedPoints: in sliders of two passes up to 72 ms the tail point falls on the repeat, and
// rounding decides which of the two counts as the last.
func tiedPoints(objs []objects.IHitObject) bool {
	for _, ob := range objs {
		if sl, ok := ob.(*objects.Slider); ok {
			for i := 1; i < len(sl.ScorePoints); i++ {
				if sl.ScorePoints[i].Time-sl.ScorePoints[i-1].Time < 1e-6 {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C26

type peakCase struct {
	Rated rated `json:"rated"`
	Cuts  []int `json:"cuts"` // prefix lengths, permille
}

func checkC26(c peakCase, o *core.Obs) error {
	bm, err := mustParse(c.Rated.Map)
	if err != nil {
		return err
	}
	objs := c.Rated.objs(bm.HitObjects)
	labelObjs(o, c.Rated)
	if len(objs) < 2 {
		return nil
	}
	speed := ref.SpeedOf(c.Rated.Mods, float64(c.Rated.Speed))
	mk := c.Rated.diff
	at, p := osu.CalculateSingleWithPeaks(objs, mk())
	only := osu.CalculateStrainPeaks(objs, mk())
	fl := c.Rated.Mods&gen.FL != 0

	// number of sections
	sect := func(ob objects.IHitObject) (int, bool) {
		t := ob.GetStartTime() / speed / 400
		near := math.Abs(t-math.Round(t)) < 1e-9*math.Max(1, math.Abs(t))
		whole := ob.GetStartTime() == math.Trunc(ob.GetStartTime()) && speed == 1 // 1/1.5 has no exact value
		return int(math.Ceil(t)), near && !whole
	}
	first, amb1 := sect(objs[1])
	last, amb2 := sect(objs[len(objs)-1])
	n := last - first + 1
	if amb1 || amb2 {
		o.Label("ambiguous")
		n = len(p.Aim)
	}
	o.LabelIf(n >= 10, "at least 10 sections")
	if n >= 3 {
		o.Nontrivial()
	}
	for _, q := range []osu.StrainPeaks{p, only} {
		o.Compared(1)
		if len(q.Aim) != n || len(q.Speed) != n || len(q.Total) != n || fl && len(q.Flashlight) != n || !fl && len(q.Flashlight) != 0 && len(q.Flashlight) != n {
			return fmt.Errorf("objects 2..%d span %d sections (times %v..%v at speed %v), but there are %d aim, %d speed, %d flashlight and %d total peaks",
				len(objs), n, objs[1].GetStartTime(), objs[len(objs)-1].GetStartTime(), speed, len(q.Aim), len(q.Speed), len(q.Flashlight), len(q.Total))
		}
		rawFl := 0.0
		if fl {
			rawFl = ref.WeighFlash(q.Flashlight)
		}
		total, aim, sp, flash := ref.StarFormula(ref.WeighAim(q.Aim), ref.WeighSpeed(q.Speed), rawFl, c.Rated.Mods)
		for _, v := range []struct {
			n    string
			g, w float64
		}{{"aim", at.Aim, aim}, {"speed", at.Speed, sp}, {"flashlight", at.Flashlight, flash}, {"total", at.Total, total}} {
			if !close64(v.g, v.w, 1e-9, 1e-12) {
				return fmt.Errorf("%s rating %v, but its peaks give %v", v.n, v.g, v.w)
			}
		}
		for i := range q.Total {
			f := 0.0
			if fl {
				f = q.Flashlight[i]
			}
			w, _, _, _ := ref.StarFormula(q.Aim[i], q.Speed[i], f, c.Rated.Mods)
			if !close64(q.Total[i], w, 1e-9, 1e-12) {
				return fmt.Errorf("total peak %d is %v, its skills give %v", i, q.Total[i], w)
			}
		}
	}
	for _, cut := range c.Cuts {
		k := 1 + (len(objs)-1)*cut/1000
		if k < 2 || k > len(objs) {
			continue
		}
		q := osu.CalculateStrainPeaks(objs[:k:k], mk())
		for _, l := range []struct {
			n    string
			x, y []float64
		}{{"aim", q.Aim, p.Aim}, {"speed", q.Speed, p.Speed}, {"flashlight", q.Flashlight, p.Flashlight}, {"total", q.Total, p.Total}} {
			o.Compared(1)
			if len(l.x) > len(l.y) {
				return fmt.Errorf("%s: the first %d objects have %d peaks, the whole map %d", l.n, k, len(l.x), len(l.y))
			}
			for i := 0; i+1 < len(l.x); i++ {
				if !close64(l.x[i], l.y[i], 1e-9, 1e-12) {
					return fmt.Errorf("%s peak %d is %v for the first %d objects, %v for the whole map", l.n, i, l.x[i], k, l.y[i])
				}
			}
		}
	}
	return nil
}

func init() {
	core.Register("C17", "a pattern map with mods and speed, every prefix rated; non-trivial: at least 3 objects", 6000, 150000,
		func(t *rapid.T) rated {
			return drawRatedAs(t, gen.Opt{MaxSegs: 5, FracTimes: gen.P(t, 1, 4), NaNTP: true, Long: true, Backwards: true, ManySpans: true})
		}, checkC17)
	core.Register("C18", "hostile or degenerate files that parse, rated with all functions; non-trivial: accepted and rated", 24000, 600000, drawAnyRated, checkC18)
	core.Register("C19", "a pattern map rated under two difficulties; non-trivial: at least 3 objects and a slider", 12000, 300000,
		func(t *rapid.T) countCase {
			return countCase{drawRated(t, gen.Opt{MaxSegs: 5, NaNTP: true, Long: true, Backwards: true, ManySpans: true}), gen.Mods(t), gen.CSSetting(t), gen.Setting(t)}
		}, checkC19)
	core.Register("C20", "a pattern map and one of eleven symmetries; non-trivial: not decided by rounding or residual stacking", 16000, 400000, drawSym, checkC20)
	core.Register("C26", "a pattern map with mods and speed, and prefixes of it; non-trivial: at least 3 sections", 12000, 300000,
		func(t *rapid.T) peakCase {
			c := peakCase{Rated: drawRatedAs(t, gen.Opt{MaxSegs: 8, FracTimes: gen.P(t, 1, 4), NaNTP: true, Long: true, Backwards: true})}
			for i := gen.U(t, 1, 4); i > 0; i-- {
				c.Cuts = append(c.Cuts, gen.U(t, 0, 1000))
			}
			return c
		}, checkC26)
}
