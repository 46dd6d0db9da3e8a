package props

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

// rated is a map with the mods and speed it is rated with.
type rated struct {
	Map   gen.Map `json:"map"`
	Mods  int64   `json:"mods"`
	Speed core.F  `json:"speed"`
	// settings (HP, CS, OD, AR) other than the map's own
	Own []core.F `json:"own,omitempty"`
	// only some of the objects: from this one on (permille), leaving out every so many
	From int `json:"from,omitempty"`
	Omit int `json:"omit,omitempty"`
}

func (c rated) settings() gen.Map {
	m := c.Map
	if len(c.Own) == 4 {
		m.HP, m.CS, m.OD, m.AR = c.Own[0], c.Own[1], c.Own[2], c.Own[3]
	}
	return m
}

func (c rated) diff() *difficulty.Difficulty { return newDiff(c.settings(), c.Mods, float64(c.Speed)) }
func (c rated) refDiff() ref.Diff            { return refDiff(c.settings(), c.Mods, float64(c.Speed)) }

// objs is the part of the map that is rated.
func (c rated) objs(all []objects.IHitObject) []objects.IHitObject {
	if c.From == 0 && c.Omit == 0 {
		return all
	}
	var out []objects.IHitObject
	for i := len(all) * c.From / 1000; i < len(all); i++ {
		if c.Omit > 0 && i%c.Omit == c.Omit-1 {
			continue
		}
		out = append(out, all[i])
	}
	return out
}

// drawRatedAs may rate a map, or part of it, with settings other than its own.
func drawRatedAs(t *rapid.T, o gen.Opt) rated {
	c := drawRated(t, o)
	if gen.P(t, 1, 5) {
		c.Own = []core.F{gen.Setting(t), gen.CSSetting(t), gen.Setting(t), gen.Setting(t)}
	}
	if gen.P(t, 1, 8) {
		c.From, c.Omit = gen.U(t, 0, 700), gen.Pick(t, 0, 0, 2, 3, 5)
	}
	return c
}

func drawRated(t *rapid.T, o gen.Opt) rated {
	return rated{Map: gen.DrawMap(t, o), Mods: gen.Mods(t), Speed: gen.Speed(t)}
}

func init() {
	core.Register("C16", "a pattern map (streams, jumps, stacks, slider ends, rhythm changes, gaps, spinners) with mods and custom speed; non-trivial: at least 4 objects and no comparison decided by rounding",
		16000, 400000,
		func(t *rapid.T) rated {
			return drawRatedAs(t, gen.Opt{FracTimes: gen.P(t, 1, 6), MaxSegs: 8, NaNTP: true, Long: true, Backwards: true})
		}, checkC16)
}

func checkC16(c rated, o *core.Obs) error {
	bm, err := mustParse(c.Map)
	if err != nil {
		return err
	}
	d, rd := c.diff(), c.refDiff()
	bm.HitObjects = c.objs(bm.HitObjects)
	labelObjs(o, c)
	if len(bm.HitObjects) == 0 {
		return nil
	}
	got := osu.CalculateSingle(bm.HitObjects, d)
	want := ref.Rate(starObjs(bm.HitObjects, difficulty.Modifier(c.Mods)), rd, exactTimes(bm.HitObjects, rd))
	if want.Ambiguous {
		o.Label("ambiguous")
		return nil
	}
	if len(bm.HitObjects) >= 4 {
		o.Nontrivial()
	}
	o.Compared(5)
	diffTo := func(mode ref.ZeroMode, want ref.Stars) error {
		for _, p := range starFields(got, want) {
			if !close64(p.g, p.w, 1e-6, 1e-9) && !withinRounding(got, want, ref.RateLate(starObjs(bm.HitObjects, difficulty.Modifier(c.Mods)), rd, exactTimes(bm.HitObjects, rd), mode)) {
				return fmt.Errorf("%s: got %v, osu! gives %v (mods %s, speed %v, %d objects)", p.n, p.g, p.w, difficulty.Modifier(c.Mods), c.Speed, len(bm.HitObjects))
			}
		}
		return nil
	}
	err = diffTo(ref.ZeroSigned, want)
	if err != nil && want.ZeroAngle {
		// the angle at a zero-length side only depends on the signs of zeros
		o.Label("angle at a zero-length side")
		for _, m := range []ref.ZeroMode{ref.ZeroSame, ref.ZeroBack} {
			if diffTo(m, ref.RateMode(starObjs(bm.HitObjects, difficulty.Modifier(c.Mods)), rd, exactTimes(bm.HitObjects, rd), m)) == nil {
				return nil
			}
		}
	}
	return err
}

type starField struct {
	n    string
	g, w float64
}

func starFields(got osu.Attributes, want ref.Stars) []starField {
	return []starField{{"aim", got.Aim, want.Aim}, {"speed", got.Speed, want.Speed}, {"flashlight", got.Flashlight, want.Flashlight},
		{"slider factor", got.SliderFactor, want.SliderFactor}, {"total", got.Total, want.Total}}
}

// withinRounding: the values lie within the effect another order of the single-precision
// operations has on this very map.
func withinRounding(got osu.Attributes, want, late ref.Stars) bool {
	l := starFields(got, late)
	for i, p := range starFields(got, want) {
		if slack := 4 * math.Abs(p.w-l[i].w); !close64(p.g, p.w, 1e-6, 1e-9+math.Min(slack, 1e-3*math.Abs(p.w))) {
			return false
		}
	}
	return true
}

func labelObjs(o *core.Obs, c rated) {
	n := map[string]int{}
	for _, x := range c.Map.Objs {
		n[x.K]++
	}
	o.LabelIf(n["s"] > 0, "sliders")
	o.LabelIf(n["p"] > 0, "spinners")
	o.LabelIf(len(c.Map.Objs) == 0, "empty")
	o.LabelIf(len(c.Map.Objs) > 20, "more than 20 objects")
	o.LabelIf(c.Mods&gen.FL != 0, "FL")
	o.LabelIf(c.Mods&gen.RX != 0, "RX")
	o.LabelIf(c.Mods&gen.HR != 0, "HR")
	o.LabelIf(c.Mods&gen.EZ != 0, "EZ")
	o.LabelIf(c.Mods&(gen.DT|gen.HT) != 0, "speed mod")
	o.LabelIf(c.Speed != 1, "custom speed")
	o.LabelIf(c.Own != nil, "rated with other settings")
	o.LabelIf(c.From+c.Omit > 0, "part of the map")
	o.Count("objects", len(c.Map.Objs))
}
