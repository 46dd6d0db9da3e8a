package props

import (
	"fmt"
	"sort"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
)

// ---------------------------------------------------------------- C31

func checkC31(c rated, o *core.Obs) error {
	bm, err := mustParse(c.Map)
	if err != nil {
		return err
	}
	labelObjs(o, c)
	steps := osu.CalculateStep(c.objs(bm.HitObjects), c.diff())
	if len(steps) >= 3 && steps[len(steps)-1].Total > 0 {
		o.Nontrivial()
	}
	for i := 1; i < len(steps); i++ {
		a, b := steps[i-1], steps[i]
		o.Compared(4)
		for _, v := range []struct {
			n    string
			x, y float64
		}{{"aim", a.Aim, b.Aim}, {"speed", a.Speed, b.Speed}, {"flashlight", a.Flashlight, b.Flashlight}, {"total", a.Total, b.Total}} {
			if !(v.y >= v.x*(1-1e-9)) {
				return fmt.Errorf("the %s rating of the first %d objects is %v, of the first %d only %v", v.n, i, v.x, i+1, v.y)
			}
		}
		o.LabelIf(b.Total > a.Total, "rating grows")
		o.LabelIf(b.Total == a.Total, "rating stays")
	}
	return nil
}

// ---------------------------------------------------------------- C32

type plainCase struct {
	Rated rated    `json:"rated"`
	Obj   []int    `json:"obj"`   // changes to objects, cycled: bits choose flag, skip, sounds, edges, tail
	TP    []int    `json:"tp"`    // changes to timing points, cycled
	Again []again  `json:"again"` // timing lines that restate what is in effect
	Head  []string `json:"head"`  // [General], [Metadata] and [Events] lines added
	// before which section each goes
	HeadAt []int  `json:"head_at,omitempty"`
	HP     core.F `json:"hp"`
	AR     core.F `json:"ar"`
	OD     core.F `json:"od"`
}

type again struct {
	At    int  `json:"at"`  // after which point
	Mil   int  `json:"mil"` // how far towards the next, permille
	Uninh bool `json:"uninh"`
}

func drawPlain(t *rapid.T) plainCase {
	c := plainCase{Rated: drawRated(t, gen.Opt{MaxSegs: 5, FracTimes: gen.P(t, 1, 4), NaNTP: true, ManyTPs: true, Long: true}), HP: gen.Setting(t), AR: gen.Setting(t), OD: gen.Setting(t)}
	for i := gen.N(t, 0, 5); i > 0; i-- {
		c.Obj = append(c.Obj, gen.U(t, 0, 1<<16))
	}
	for i := gen.N(t, 0, 4); i > 0; i-- {
		c.TP = append(c.TP, gen.U(t, 0, 1<<12))
	}
	for i := gen.N(t, 0, 4); i > 0; i-- {
		c.Again = append(c.Again, again{gen.U(t, 0, 20), gen.U(t, 0, 1000), gen.P(t, 1, 2)})
	}
	for i := gen.N(t, 0, 4); i > 0; i-- {
		c.Head = append(c.Head, gen.Pick(t, "G:Mode: "+gen.Pick(t, "0", "1", "2", "3"), "G:AudioFilename: b.ogg", "G:PreviewTime: "+gen.Pick(t, "99", "0", "-1", "120000"), "G:Countdown: 2", "M:Title:"+gen.Str(t), "M:Artist:"+gen.Str(t),
			"M:Creator:me", "M:Version:Easy", "M:Tags:"+gen.Str(t), "M:BeatmapID:77", "E:"+gen.BgLine(t), "E:"+gen.BreakLine(t), "E:"+gen.NoiseEvent(t), "D:HPDrainRate:"+gen.Num(c.HP)))
	}
	for range c.Head {
		c.HeadAt = append(c.HeadAt, gen.Pick(t, 0, 0, 1, 2, 3, 4, 5, 6, 7))
	}
	return c
}

// plain gives the map with everything changed that does not matter.
func (c plainCase) plain() (gen.Map, string) {
	m := c.Rated.Map
	m.Objs = append([]gen.Obj(nil), m.Objs...)
	if len(c.Obj) > 0 {
		for i := range m.Objs {
			w, ob := c.Obj[i%len(c.Obj)]+i*37, &m.Objs[i]
			if w&1 != 0 {
				ob.NC = !ob.NC
			}
			if w&2 != 0 {
				ob.Skip = w >> 8 & 7
			}
			if w&4 != 0 {
				ob.Snd = w >> 4 & 15
			}
			if ob.K == "s" && w&8 != 0 {
				ob.Edges = nil
				ob.Tail = ""
				for k := 0; k <= ob.Rep && k < 20; k++ {
					ob.Edges = append(ob.Edges, w>>uint(k%9)&15)
				}
			}
			if w&16 != 0 && (ob.K == "c" || ob.K == "p") {
				ob.Tail = fmt.Sprintf("%d:%d:%d:%d:", w&3, w>>2&3, w>>5&7, w%101)
			}
		}
	}
	tps := append([]gen.TP(nil), m.TPs...)
	sort.SliceStable(tps, func(i, j int) bool { return tps[i].T < tps[j].T })
	if len(c.TP) > 0 {
		for i := range tps {
			w, p := c.TP[i%len(c.TP)]+i*11, &tps[i]
			if p.Fields != 0 && p.Fields != 8 {
				continue
			}
			p.Sig, p.Set, p.Idx, p.Vol, p.Eff = w&7-1, w>>3&3, w>>5&7, w%120-10, []int{0, 1, 8, 9}[w>>7&3]
		}
	}
	for _, a := range c.Again {
		i := a.At % len(tps)
		p := tps[i]
		p.Fields = 0
		d := core.F(1000)
		if i+1 < len(tps) {
			d = tps[i+1].T - p.T
		}
		p.T += core.F(int(float64(d)*float64(a.Mil))) / 1000
		if i+1 < len(tps) && p.T > tps[i+1].T {
			p.T = tps[i+1].T
		}
		if p.Uninh && !a.Uninh {
			p.Uninh, p.BL = false, -100
		}
		tps = append(tps[:i+1:i+1], append([]gen.TP{p}, tps[i+1:]...)...)
	}
	m.TPs = tps
	d := gen.DocOf(m)
	sec := map[byte]string{'G': "General", 'M': "Metadata", 'D': "Difficulty", 'E': "Events"}
	for i, h := range c.Head {
		// anywhere; titles and the like in front, so that the map's own remain
		at := 0
		if h[0] != 'M' && i < len(c.HeadAt) {
			at = c.HeadAt[i] % (len(d.Blocks) + 1)
		}
		d.Blocks = append(d.Blocks[:at:at], append([]gen.Extra{{Section: sec[h[0]], Lines: []string{h[2:]}}}, d.Blocks[at:]...)...)
	}
	return m, d.Render()
}

func checkC32(c plainCase, o *core.Obs) error {
	bm, err := mustParse(c.Rated.Map)
	if err != nil {
		return err
	}
	_, text := c.plain()
	bm2, err := parse(text)
	if err != nil {
		return fmt.Errorf("a valid beatmap was rejected: %v", err)
	}
	labelObjs(o, c.Rated)
	if len(bm.HitObjects) != len(bm2.HitObjects) {
		return fmt.Errorf("%d objects became %d", len(bm.HitObjects), len(bm2.HitObjects))
	}
	if len(bm.HitObjects) >= 3 && len(c.Obj)+len(c.TP)+len(c.Again)+len(c.Head) > 0 {
		o.Nontrivial()
	}
	o.LabelIf(len(c.Again) > 0, "restated timing")
	mk := func() *difficulty.Difficulty { return newDiff(c.Rated.Map, c.Rated.Mods, float64(c.Rated.Speed)) }
	a, pa := osu.CalculateSingleWithPeaks(bm.HitObjects, mk())
	b, pb := osu.CalculateSingleWithPeaks(bm2.HitObjects, mk())
	o.Compared(2)
	if err := sameAttr(a, b, 1e-12); err != nil {
		return fmt.Errorf("data without bearing on difficulty changed the rating: %v", err)
	}
	if err := sameStrainPeaks(pa, pb, 1e-12); err != nil {
		return fmt.Errorf("data without bearing on difficulty changed the peaks: %v", err)
	}
	// settings of the difficulty
	d := mk()
	d.SetHP(float64(c.HP))
	d.SetAR(float64(c.AR))
	e := osu.CalculateSingle(bm.HitObjects, d)
	o.Compared(2)
	if err := sameAttr(a, e, 1e-12); err != nil {
		return fmt.Errorf("HP %v, AR %v changed the rating: %v", c.HP, c.AR, err)
	}
	d.SetOD(float64(c.OD))
	e = osu.CalculateSingle(bm.HitObjects, d)
	e.Speed, e.Total = a.Speed, a.Total
	if err := sameAttr(a, e, 1e-12); err != nil {
		return fmt.Errorf("OD %v changed more than speed: %v", c.OD, err)
	}
	return nil
}

func init() {
	core.Register("C31", "a pattern map with mods and speed, rated stepwise; non-trivial: at least 3 objects and a rating above zero", 12000, 300000,
		func(t *rapid.T) rated {
			return drawRatedAs(t, gen.Opt{MaxSegs: 8, FracTimes: gen.P(t, 1, 4), NaNTP: true, Long: true, Backwards: true})
		}, checkC31)
	core.Register("C32", "a pattern map and a copy with other flags, sounds, samples, metadata, events and restated timing lines; non-trivial: at least 3 objects and a change", 10000, 250000, drawPlain, checkC32)
}
