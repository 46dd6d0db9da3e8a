package props

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

type ppSet struct {
	Aim   core.F `json:"aim"`
	SF    core.F `json:"sf"`
	Speed core.F `json:"speed"`
	FL    core.F `json:"fl"`
	C     int    `json:"c"`
	S     int    `json:"s"`
	P     int    `json:"p"`
	Combo int    `json:"combo"`
	HP    core.F `json:"hp"`
	CS    core.F `json:"cs"`
	OD    core.F `json:"od"`
	AR    core.F `json:"ar"`
	Mods  int64  `json:"mods"`
	Rate  core.F `json:"rate"`
}

func (s ppSet) attr() osu.Attributes {
	return osu.Attributes{Total: 5, Aim: float64(s.Aim), SliderFactor: float64(s.SF), Speed: float64(s.Speed), Flashlight: float64(s.FL),
		ObjectCount: s.C + s.S + s.P, Circles: s.C, Sliders: s.S, Spinners: s.P, MaxCombo: s.Combo}
}

func (s ppSet) diff() *difficulty.Difficulty {
	d := difficulty.NewDifficulty(float64(s.HP), float64(s.CS), float64(s.OD), float64(s.AR))
	d.SetMods(difficulty.Modifier(s.Mods))
	if s.Rate != 1 {
		d.SetCustomSpeed(float64(s.Rate))
	}
	return d
}

func (s ppSet) ref(p ref.Play) (ref.PP, bool, func(nudge float64) ref.PP) {
	a := ref.Attr{Aim: float64(s.Aim), SliderFactor: float64(s.SF), Speed: float64(s.Speed), Flashlight: float64(s.FL), Objects: s.C + s.S + s.P, Circles: s.C, Sliders: s.S, Spinners: s.P, MaxCombo: s.Combo}
	d := ref.NewDiff(float64(s.HP), float64(s.CS), float64(s.OD), float64(s.AR), s.Mods, float64(s.Rate))
	r, amb := ref.PPOf(a, p, d.ARReal, d.ODReal, s.Mods)
	return r, amb, func(n float64) ref.PP { return ref.PPNudged(a, p, d.ARReal, d.ODReal, s.Mods, n) }
}

type play struct {
	Combo int `json:"combo"`
	N300  int `json:"n300"`
	N100  int `json:"n100"`
	N50   int `json:"n50"`
	Miss  int `json:"miss"`
}

func drawStars(t *rapid.T) core.F {
	switch gen.U(t, 0, 7) {
	case 0:
		return gen.Pick(t, core.F(0), 0.05, 0.0675, 0.07)
	case 1:
		return core.F(float64(gen.U(t, 0, 2000)) / 10000)
	}
	return core.F(float64(gen.U(t, 0, 90000)) / 10000)
}

func drawSet(t *rapid.T) ppSet {
	s := ppSet{Aim: drawStars(t), Speed: drawStars(t), FL: drawStars(t), SF: core.F(float64(gen.U(t, 0, 1000)) / 1000), Rate: gen.Speed(t), Mods: gen.Mods(t),
		HP: gen.Setting(t), CS: gen.Setting(t), OD: gen.Setting(t), AR: gen.Setting(t)}
	if gen.P(t, 1, 3) {
		s.AR = core.F(float64(gen.U(t, 850, 1000)) / 100)
		s.OD = core.F(float64(gen.U(t, 700, 1000)) / 100)
	}
	if gen.P(t, 1, 15) {
		s.Rate = core.F(float64(gen.U(t, 200, 500)) / 100)
	}
	cnt := func() int {
		switch gen.U(t, 0, 5) {
		case 0:
			return 0
		case 1:
			return gen.U(t, 0, 20)
		case 2:
			return gen.U(t, 0, 3000)
		case 3:
			if gen.P(t, 1, 3) {
				return gen.U(t, 3000, 100000)
			}
		}
		return gen.U(t, 0, 600)
	}
	s.C, s.S = cnt(), cnt()
	if gen.P(t, 1, 2) {
		s.P = gen.U(t, 0, 6)
	}
	s.Combo = s.C + s.P + 2*s.S
	if s.S > 0 {
		s.Combo += gen.U(t, 0, 3*s.S)
	}
	if gen.P(t, 1, 20) {
		s.SF = 1
	}
	return s
}

// drawPlay draws a play that judges every object once.
func drawPlay(t *rapid.T, s ppSet) play {
	n := s.C + s.S + s.P
	p := play{Combo: s.Combo}
	take := func(max int) int {
		switch gen.U(t, 0, 5) {
		case 0, 1:
			return 0
		case 2:
			return gen.U(t, 0, max)
		}
		return gen.U(t, 0, int(math.Min(float64(max), 12)))
	}
	p.Miss = take(n)
	p.N50 = take(n - p.Miss)
	p.N100 = take(n - p.Miss - p.N50)
	p.N300 = n - p.Miss - p.N50 - p.N100
	switch gen.U(t, 0, 4) {
	case 0:
		p.Combo = gen.U(t, 0, s.Combo)
	case 1:
		p.Combo = gen.U(t, s.Combo*3/4, s.Combo)
	case 2:
		p.Combo = gen.U(t, 0, int(math.Min(float64(s.Combo), 10)))
	case 3:
		p.Combo = int(math.Max(0, float64(s.Combo-gen.U(t, 0, s.S/8+2))))
	}
	return p
}

func run(s ppSet, p play) osu.PPv2Results {
	return (&osu.PPv2{}).PPv2x(s.attr(), p.Combo, p.N300, p.N100, p.N50, p.Miss, s.diff()).Results
}

func parts(r osu.PPv2Results) []namedV {
	return []namedV{{"aim", r.Aim}, {"speed", r.Speed}, {"accuracy", r.Acc}, {"flashlight", r.Flashlight}, {"total", r.Total}}
}

type namedV struct {
	n string
	v float64
}

// ---------------------------------------------------------------- C21

type ppCase struct {
	Set  ppSet `json:"set"`
	Play play  `json:"play"`
}

func drawPP(t *rapid.T) ppCase {
	s := drawSet(t)
	p := drawPlay(t, s)
	switch gen.U(t, 0, 9) {
	case 0: // a play still going on
		n := gen.U(t, 0, s.C+s.S+s.P)
		p.N300 = int(math.Max(0, float64(n-p.N100-p.N50-p.Miss)))
	case 1: // combo over the map's
		p.Combo += gen.U(t, 0, 50)
	case 2:
		if gen.P(t, 1, 2) {
			p.Combo = -1
		} else {
			p.N300 = -1
		}
	case 3:
		if gen.P(t, 1, 3) { // more hits than the rated part of the map has objects
			p.N300 += gen.U(t, 1, 60)
		}
	}
	return ppCase{s, p}
}

func ppClose(got osu.PPv2Results, w ref.PP) error {
	for _, p := range []struct {
		n    string
		g, w float64
	}{{"aim", got.Aim, w.Aim}, {"speed", got.Speed, w.Speed}, {"accuracy", got.Acc, w.Acc}, {"flashlight", got.Flashlight, w.Flashlight}, {"total", got.Total, w.Total}} {
		if !close64(p.g, p.w, 1e-8, 1e-10) {
			return fmt.Errorf("%s pp is %v, osu! gives %v", p.n, p.g, p.w)
		}
	}
	return nil
}

func checkC21(c ppCase, o *core.Obs) error {
	got := run(c.Set, c.Play)
	w, amb, nudged := c.Set.ref(ref.Play{Combo: c.Play.Combo, N300: c.Play.N300, N100: c.Play.N100, N50: c.Play.N50, Miss: c.Play.Miss})
	o.Compared(5)
	labelPP(o, c.Set, c.Play)
	if c.Set.C+c.Set.S > 0 {
		o.Nontrivial()
	}
	err := ppClose(got, w)
	if err != nil && amb && (ppClose(got, nudged(1e-9)) == nil || ppClose(got, nudged(-1e-9)) == nil) {
		o.Label("miss guess decided by rounding")
		return nil
	}
	return err
}

func labelPP(o *core.Obs, s ppSet, p play) {
	o.LabelIf(p.Miss > 0, "misses")
	o.LabelIf(p.N50 > 0, "50s")
	o.LabelIf(p.Combo < s.Combo, "combo broken")
	o.LabelIf(s.S > 0, "sliders")
	o.LabelIf(s.C+s.S+s.P > 2000, "over 2000 objects")
	o.LabelIf(s.Mods&gen.FL != 0, "FL")
	o.LabelIf(s.Mods&gen.RX != 0, "RX")
	o.LabelIf(s.Mods&gen.V2 != 0, "V2")
	o.LabelIf(s.Mods&gen.TD != 0, "TD")
	o.LabelIf(s.Mods&gen.SO != 0 && s.P > 0, "SO with spinners")
	o.LabelIf(s.Mods&gen.NF != 0, "NF")
}

// ---------------------------------------------------------------- C22

type worseCase struct {
	Set  ppSet  `json:"set"`
	Play play   `json:"play"`
	Rel  string `json:"rel"`
	K    int    `json:"k"`
	D    core.F `json:"d"`
}

func drawWorse(t *rapid.T) worseCase {
	c := worseCase{Set: drawSet(t)}
	c.Play = drawPlay(t, c.Set)
	c.Rel = gen.Pick(t, "ok", "meh", "miss", "combo", "combo", "aim", "speed", "flashlight", "nofail", "ss")
	c.K = gen.Pick(t, 1, 1, 1, 2, gen.U(t, 1, 20))
	c.D = core.F(float64(gen.U(t, 1, 2000)) / 1000)
	switch c.Rel {
	case "ok":
		c.K = int(math.Min(float64(c.K), float64(c.Play.N300)))
	case "meh":
		if c.Play.N100 == 0 {
			k := int(math.Min(float64(c.K), float64(c.Play.N300)))
			c.Play.N300 -= k
			c.Play.N100 += k
		}
		c.K = int(math.Min(float64(c.K), float64(c.Play.N100)))
	case "miss":
		c.Set.Mods &^= gen.RX
		if c.Play.N50 == 0 {
			k := int(math.Min(float64(c.K), float64(c.Play.N300)))
			c.Play.N300 -= k
			c.Play.N50 += k
		}
		c.K = int(math.Min(float64(c.K), float64(c.Play.N50)))
	case "combo":
		c.K = int(math.Min(float64(gen.Pick(t, c.K, gen.U(t, 1, c.Play.Combo+1))), float64(c.Play.Combo)))
	case "flashlight":
		c.Set.Mods |= gen.FL
	case "nofail":
		c.Set.Mods &^= gen.NF
	}
	return c
}

func checkC22(c worseCase, o *core.Obs) error {
	a := run(c.Set, c.Play)
	for _, v := range parts(a) {
		if !finite(v.v) || v.v < 0 {
			return fmt.Errorf("%s pp of a valid play is %v", v.n, v.v)
		}
	}
	s2, p2 := c.Set, c.Play
	higher := false // the second play must not be worth less
	only := map[string]bool{"aim": true, "speed": true, "accuracy": true, "flashlight": true, "total": true}
	switch c.Rel {
	case "ok":
		p2.N300 -= c.K
		p2.N100 += c.K
	case "meh":
		p2.N100 -= c.K
		p2.N50 += c.K
	case "miss":
		p2.N50 -= c.K
		p2.Miss += c.K
		only["speed"], only["total"] = false, false
	case "combo":
		p2.Combo -= c.K
	case "aim":
		s2.Aim += c.D
		higher = true
	case "speed":
		s2.Speed += c.D
		higher = true
	case "flashlight":
		s2.FL += c.D
		higher = true
	case "nofail":
		s2.Mods |= gen.NF
	case "ss": // nothing beats a full-combo SS
		p2 = play{Combo: c.Set.Combo, N300: c.Set.C + c.Set.S + c.Set.P}
		higher = true
	}
	o.Label(c.Rel)
	labelPP(o, c.Set, c.Play)
	if c.K > 0 && a.Total > 0 {
		o.Nontrivial()
	}
	b := run(s2, p2)
	for i, v := range parts(b) {
		if !finite(v.v) || v.v < 0 {
			return fmt.Errorf("%s pp of a valid play is %v", v.n, v.v)
		}
		if !only[v.n] {
			continue
		}
		o.Compared(1)
		x, y := parts(a)[i].v, v.v
		if higher {
			x, y = y, x
		}
		if y > x*(1+1e-9)+1e-12 {
			return fmt.Errorf("%s (%d): %s pp %v became %v", c.Rel, c.K, v.n, parts(a)[i].v, v.v)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C23

type reuseCase struct {
	Sets  []ppSet `json:"sets"`
	Plays []play  `json:"plays"`
	Which []int   `json:"which"` // set used by each play
}

func drawReuse(t *rapid.T) reuseCase {
	var c reuseCase
	for i := gen.U(t, 1, 3); i > 0; i-- {
		s := drawSet(t)
		if gen.P(t, 1, 10) {
			s = ppSet{Rate: 1, Mods: s.Mods} // the rating of a map without objects
		}
		c.Sets = append(c.Sets, s)
	}
	for i := gen.U(t, 1, 6); i > 0; i-- {
		k := gen.U(t, 0, len(c.Sets)-1)
		p := drawPlay(t, c.Sets[k])
		switch gen.U(t, 0, 5) {
		case 0, 1:
			p.Combo = -gen.U(t, 1, 5)
		case 2:
			p.Combo = 0
		}
		switch gen.U(t, 0, 5) {
		case 0, 1:
			p.N300 = -gen.U(t, 1, 5)
		case 2:
			p.N300 = 0
		}
		c.Plays = append(c.Plays, p)
		c.Which = append(c.Which, k)
	}
	return c
}

func sameBits(a, b osu.PPv2Results) bool {
	for i, v := range parts(a) {
		if !close64(v.v, parts(b)[i].v, 1e-12, 0) {
			return false
		}
	}
	return true
}

func checkC23(c reuseCase, o *core.Obs) error {
	var calc osu.PPv2
	diffs := map[int]*difficulty.Difficulty{}
	for i, p := range c.Plays {
		if i >= len(c.Which) || c.Which[i] >= len(c.Sets) {
			break
		}
		s := c.Sets[c.Which[i]]
		at := s.attr()
		d := diffs[c.Which[i]]
		if d == nil {
			d = s.diff()
			diffs[c.Which[i]] = d
		}
		before := snapDiff(d)
		got := calc.PPv2x(at, p.Combo, p.N300, p.N100, p.N50, p.Miss, d)
		o.Compared(4)
		if !sameBits(got.Results, calc.Results) {
			return fmt.Errorf("play %d: returned %+v, stored %+v", i, got.Results, calc.Results)
		}
		if snapDiff(d) != before {
			return fmt.Errorf("play %d: the difficulty changed: %s", i, snapDiff(d))
		}
		if snapAttr(at) != snapAttr(s.attr()) {
			return fmt.Errorf("play %d: the attributes changed", i)
		}
		if w := run(s, p); !sameBits(got.Results, w) {
			return fmt.Errorf("play %d on a reused calculator gives %+v, on a fresh one %+v", i, got.Results, w)
		}
		q := p
		if q.Combo < 0 {
			q.Combo = s.Combo
			o.Label("default combo")
			if s.Combo == 0 {
				q.Combo = 1 // a map without combo counts as one
			}
		}
		if q.N300 < 0 {
			q.N300 = s.C + s.S + s.P - q.N100 - q.N50 - q.Miss
			o.Label("default greats")
		}
		if p.Combo == 0 || p.N300 == 0 {
			// zero is a value of its own, not a request for the default
			o.Label("an explicit zero")
			w, amb, nudged := s.ref(ref.Play{Combo: q.Combo, N300: q.N300, N100: q.N100, N50: q.N50, Miss: q.Miss})
			if err := ppClose(got.Results, w); err != nil && !(amb && (ppClose(got.Results, nudged(1e-9)) == nil || ppClose(got.Results, nudged(-1e-9)) == nil)) {
				return fmt.Errorf("play %d %+v: %v", i, p, err)
			}
		}
		if w := run(s, q); !sameBits(got.Results, w) {
			return fmt.Errorf("play %d with defaults %+v gives %+v, spelled out as %+v it gives %+v", i, p, got.Results, q, w)
		}
	}
	if len(c.Plays) >= 2 {
		o.Nontrivial()
	}
	return nil
}

func init() {
	core.Register("C21", "random attributes, play, mods and difficulty; non-trivial: the map has circles or sliders", 120000, 4000000, drawPP, checkC21)
	core.Register("C22", "a valid play and a worse or better neighbour; non-trivial: the neighbour differs and pp is positive", 120000, 4000000, drawWorse, checkC22)
	core.Register("C23", "up to six plays on one calculator with up to three maps, with defaults; non-trivial: at least two plays", 60000, 2000000, drawReuse, checkC23)
}
