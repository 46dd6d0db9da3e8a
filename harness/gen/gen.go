// Package gen holds the generators of beatmaps, mods and plays shared by the checks.
package gen

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
)

var bit = rapid.Bool()

// U draws a uniform integer in lo..hi (rapid's own ranges favour small values).
func U(t *rapid.T, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	n := uint64(hi - lo)
	bits := 0
	for v := n; v > 0; v >>= 1 {
		bits++
	}
	// three extra bits make the modulo bias negligible for generation purposes
	var v uint64
	for i := 0; i < bits+3; i++ {
		v <<= 1
		if bit.Draw(t, "") {
			v |= 1
		}
	}
	return lo + int(v%(n+1))
}

// P is true with probability num/den.
func P(t *rapid.T, num, den int) bool { return U(t, 1, den) > den-num }

// Pick draws one of the values uniformly.
func Pick[T any](t *rapid.T, vs ...T) T { return vs[U(t, 0, len(vs)-1)] }

// N draws a count in lo..hi that shrinks towards lo and favours small values.
func N(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }

// TP is a timing point line.
type TP struct {
	T      core.F `json:"t"`
	BL     core.F `json:"bl"`
	Sig    int    `json:"sig,omitempty"`
	Set    int    `json:"set,omitempty"`
	Idx    int    `json:"idx,omitempty"`
	Vol    int    `json:"vol,omitempty"`
	Uninh  bool   `json:"uninh,omitempty"`
	Eff    int    `json:"eff,omitempty"`
	Fields int    `json:"fields,omitempty"` // fields rendered, 0 means all eight
}

// Obj is a hit object line.
type Obj struct {
	K     string      `json:"k"` // c, s, p (spinner), h (hold)
	X     core.F      `json:"x"`
	Y     core.F      `json:"y"`
	T     core.F      `json:"t"`
	NC    bool        `json:"nc,omitempty"`
	Skip  int         `json:"skip,omitempty"`
	Snd   int         `json:"snd,omitempty"`
	Curve string      `json:"curve,omitempty"`
	Pts   [][2]core.F `json:"pts,omitempty"`
	Rep   int         `json:"rep,omitempty"`
	Len   core.F      `json:"len,omitempty"`
	Edges []int       `json:"edges,omitempty"`
	End   core.F      `json:"end,omitempty"`
	Tail  string      `json:"tail,omitempty"` // rendered verbatim at the end of the line
}

// Map is a whole beatmap.
type Map struct {
	Ver   int     `json:"ver"`
	SL    core.F  `json:"sl"`
	SM    core.F  `json:"sm"`
	TR    core.F  `json:"tr"`
	HP    core.F  `json:"hp"`
	CS    core.F  `json:"cs"`
	OD    core.F  `json:"od"`
	AR    core.F  `json:"ar"`
	TPs   []TP    `json:"tps"`
	Objs  []Obj   `json:"objs"`
	Extra []Extra `json:"extra,omitempty"`
}

// Extra is an additional section rendered after the header.
type Extra struct {
	Section string   `json:"section"`
	Lines   []string `json:"lines"`
}

// Num renders a number the way .osu files do.
func Num(f core.F) string {
	v := float64(f)
	if math.IsNaN(v) {
		return "NaN"
	}
	return strconv.FormatFloat(v, 'f', -1, 64)
}

func (p TP) Line() string {
	un := 0
	if p.Uninh {
		un = 1
	}
	all := []string{Num(p.T), Num(p.BL), strconv.Itoa(p.Sig), strconv.Itoa(p.Set), strconv.Itoa(p.Idx), strconv.Itoa(p.Vol), strconv.Itoa(un), strconv.Itoa(p.Eff)}
	n := p.Fields
	if n < 2 || n > 8 {
		n = 8
	}
	return strings.Join(all[:n], ",")
}

// Type is the type bitmask of the object line.
func (o Obj) Type() int {
	ty := 0
	switch o.K {
	case "c":
		ty = 1
	case "s":
		ty = 2
	case "p":
		ty = 8
	case "h":
		ty = 128
	}
	if o.NC {
		ty |= 4
	}
	return ty | (o.Skip&7)<<4
}

func (o Obj) Line() string {
	f := []string{Num(o.X), Num(o.Y), Num(o.T), strconv.Itoa(o.Type()), strconv.Itoa(o.Snd)}
	switch o.K {
	case "s":
		s := o.Curve
		for _, p := range o.Pts {
			s += "|" + Num(p[0]) + ":" + Num(p[1])
		}
		f = append(f, s, strconv.Itoa(o.Rep), Num(o.Len))
		if len(o.Edges) > 0 {
			var e []string
			for _, v := range o.Edges {
				e = append(e, strconv.Itoa(v))
			}
			f = append(f, strings.Join(e, "|"))
		}
	case "p":
		f = append(f, Num(o.End))
	case "h":
		f = append(f, Num(o.End)+":0:0:0:0:")
	}
	l := strings.Join(f, ",")
	if o.Tail != "" {
		l += "," + o.Tail
	}
	return l
}

// Sections renders the map as named sections in the usual order.
func (m Map) Sections() []Extra {
	var tps, objs []string
	for _, p := range m.TPs {
		tps = append(tps, p.Line())
	}
	for _, o := range m.Objs {
		objs = append(objs, o.Line())
	}
	s := []Extra{
		{"General", []string{"AudioFilename: a.mp3", "PreviewTime: 1234", "StackLeniency: " + Num(m.SL), "Mode: 0"}},
		{"Metadata", []string{"Title:T", "Artist:A", "Creator:C", "Version:V"}},
		{"Difficulty", []string{"HPDrainRate:" + Num(m.HP), "CircleSize:" + Num(m.CS), "OverallDifficulty:" + Num(m.OD),
			"ApproachRate:" + Num(m.AR), "SliderMultiplier:" + Num(m.SM), "SliderTickRate:" + Num(m.TR)}},
	}
	s = append(s, m.Extra...)
	s = append(s, Extra{"TimingPoints", tps}, Extra{"HitObjects", objs})
	return s
}

// Text renders the map.
func (m Map) Text() string {
	var b strings.Builder
	b.WriteString("osu file format v" + strconv.Itoa(m.Ver) + "\n\n")
	for _, s := range m.Sections() {
		b.WriteString("[" + s.Section + "]\n")
		for _, l := range s.Lines {
			b.WriteString(l + "\n")
		}
		b.WriteString("\n")
	}
	return b.String()
}
