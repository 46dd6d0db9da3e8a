package props

import (
	"fmt"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C13

type diffOp struct {
	K string `json:"k"` // hp cs od ar mods speed read
	V core.F `json:"v"`
	M int64  `json:"m"`
}

type diffCase struct {
	HP  core.F   `json:"hp"`
	CS  core.F   `json:"cs"`
	OD  core.F   `json:"od"`
	AR  core.F   `json:"ar"`
	Ops []diffOp `json:"ops"`
}

func drawDiff(t *rapid.T) diffCase {
	v := func() core.F {
		switch gen.U(t, 0, 9) {
		case 0:
			return core.F(float64(gen.U(t, -300, 1300)) / 100) // maps loaded elsewhere may go out of the usual range
		case 1:
			return core.F(gen.Pick(t, 7.142857142857143, 7.2, 7.69, 7.6923, 5, 10, 0))
		case 2:
			return core.F(float64(gen.U(t, 0, 100000)) / 10000)
		}
		return gen.Setting(t)
	}
	c := diffCase{v(), v(), v(), v(), nil}
	n := gen.N(t, 0, 12)
	last := core.F(1)
	for i := 0; i < n; i++ {
		op := diffOp{K: gen.Pick(t, "hp", "cs", "od", "ar", "mods", "mods", "speed", "read")}
		switch op.K {
		case "mods":
			op.M = gen.Mods(t)
		case "speed":
			op.V = gen.Pick(t, core.F(1), 1, 0.5, 2, 1.1, 0.75, 1.5, core.F(float64(gen.U(t, 25, 300))/100))
			switch gen.U(t, 0, 7) {
			case 0:
				op.V = core.F(float64(gen.U(t, 1, 100)) / 1000)
			case 1:
				op.V = core.F(float64(gen.U(t, 30, 5000)) / 10)
			case 2: // a hair away from the last one
				op.V = last + gen.Pick(t, core.F(0.0005), -0.0005, 1e-6, 0.004)
				if op.V <= 0 {
					op.V = 1.0005
				}
			}
			last = op.V
		default:
			op.V = v()
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkC13(c diffCase, o *core.Obs) error {
	d := difficulty.NewDifficulty(float64(c.HP), float64(c.CS), float64(c.OD), float64(c.AR))
	hp, cs, od, ar, speed, mods := float64(c.HP), float64(c.CS), float64(c.OD), float64(c.AR), 1.0, int64(0)
	verify := func(step int) error {
		o.Compared(12)
		w := ref.NewDiff(hp, cs, od, ar, mods, speed)
		for _, p := range []struct {
			n        string
			got, exp float64
		}{
			{"base HP", d.GetHP(), hp}, {"base CS", d.GetCS(), cs}, {"base OD", d.GetOD(), od}, {"base AR", d.GetAR(), ar},
			{"circle radius", d.CircleRadius, w.Radius}, {"preempt", d.Preempt, w.Preempt}, {"300 window", d.Hit300, w.Hit300},
			{"100 window", d.Hit100, w.Hit100}, {"50 window", d.Hit50, w.Hit50}, {"HP", d.HPMod, w.HP}, {"spinner ratio", d.SpinnerRatio, w.Spinner},
			{"speed", d.Speed, w.Speed}, {"real AR", d.ARReal, w.ARReal}, {"real OD", d.ODReal, w.ODReal},
			{"scaled time", d.GetModifiedTime(1234), 1234 / w.Speed}, {"custom speed", d.CustomSpeed, speed}, {"scaled zero", d.GetModifiedTime(0), 0},
		} {
			if !close64(p.got, p.exp, 1e-9, 1e-9) {
				return fmt.Errorf("after %d operations (HP %v CS %v OD %v AR %v mods %s speed %v): %s is %v, want %v", step, hp, cs, od, ar, difficulty.Modifier(mods), speed, p.n, p.got, p.exp)
			}
		}
		if int64(d.Mods) != mods {
			return fmt.Errorf("mods read back as %d, set %d", d.Mods, mods)
		}
		for i := 0; i < 32; i++ {
			if d.CheckModActive(difficulty.Modifier(1)<<i) != (mods>>i&1 == 1) {
				return fmt.Errorf("mod bit %d: active %v, mods %d", i, d.CheckModActive(difficulty.Modifier(1)<<i), mods)
			}
		}
		f := difficulty.NewDifficulty(hp, cs, od, ar)
		f.SetCustomSpeed(speed)
		f.SetMods(difficulty.Modifier(mods))
		if a, b := snapDiff(d), snapDiff(f); a != b {
			return fmt.Errorf("after %d operations the values differ from a fresh difficulty with the same settings:\n  %s\n  %s", step, a, b)
		}
		return nil
	}
	if err := verify(0); err != nil {
		return err
	}
	for i, op := range c.Ops {
		o.Label(op.K)
		switch op.K {
		case "hp":
			hp = float64(op.V)
			d.SetHP(hp)
		case "cs":
			cs = float64(op.V)
			d.SetCS(cs)
		case "od":
			od = float64(op.V)
			d.SetOD(od)
		case "ar":
			ar = float64(op.V)
			d.SetAR(ar)
		case "mods":
			mods = op.M
			d.SetMods(difficulty.Modifier(mods))
		case "speed":
			speed = float64(op.V)
			d.SetCustomSpeed(speed)
		case "read":
			_ = d.GetModifiedTime(float64(op.V))
			_ = d.CheckModActive(difficulty.HardRock)
		}
		if err := verify(i + 1); err != nil {
			return err
		}
	}
	if len(c.Ops) >= 2 {
		o.Nontrivial()
	}
	if mods == 0 && speed == 1 && (!close64(d.ARReal, ar, 1e-9, 1e-9) || !close64(d.ODReal, od, 1e-9, 1e-9)) {
		return fmt.Errorf("without mods the real AR and OD are %v and %v, set %v and %v", d.ARReal, d.ODReal, ar, od)
	}
	return nil
}

// ---------------------------------------------------------------- C14

var acronyms = strings.Split("NF EZ TD HD HR SD DT RX HT NC FL AT SO AP PF K4 K5 K6 K7 K8 FI RN CN TG K9 K0 K1 K3 K2 V2 LM DC", " ")
var longNames = strings.Split("NoFail Easy TouchDevice Hidden HardRock SuddenDeath DoubleTime Relax HalfTime Nightcore Flashlight Autoplay SpunOut Relax2 Perfect Key4 Key5 Key6 Key7 Key8 FadeIn Random Cinema Target Key9 KeyCoop Key1 Key3 Key2 ScoreV2 LastMod Daycore", " ")

type modCase struct {
	Mods   int64    `json:"mods"`
	Tokens []string `json:"tokens"`
	Tail   string   `json:"tail"`
	Raw    string   `json:"raw"` // any text at all
}

func drawBits(t *rapid.T) int64 {
	var m int64
	switch gen.U(t, 0, 3) {
	case 0:
		for i := 0; i < 32; i++ {
			if gen.P(t, 1, 2) {
				m |= 1 << i
			}
		}
	case 1:
		m = gen.Mods(t)
	default:
		for i := gen.N(t, 0, 6); i > 0; i-- {
			m |= 1 << gen.U(t, 0, 31)
		}
	}
	return m
}

func drawMod(t *rapid.T) modCase {
	c := modCase{Mods: drawBits(t)}
	for i := gen.N(t, 0, 8); i > 0; i-- {
		if gen.P(t, 3, 4) {
			c.Tokens = append(c.Tokens, gen.Pick(t, acronyms...))
		} else {
			c.Tokens = append(c.Tokens, gen.Pick(t, "hd", "Hd", "XX", "  ", "+H", "DH", "12", "K ", "\x00\x00", "NM", "MR", "FH", ",,"))
		}
	}
	c.Tail = gen.Pick(t, "", "", "", "H", "桜", "é", "🎵🎵", "x", "ΩΩΩ")
	switch gen.U(t, 0, 2) {
	case 0:
		c.Raw = rapid.String().Draw(t, "raw")
	case 1:
		c.Raw = string(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "rawb"))
	default:
		c.Raw = gen.Str(t)
	}
	return c
}

func closure(m int64) int64 {
	if m&ref.NC != 0 {
		m |= ref.DT
	}
	if m&ref.DC != 0 {
		m |= ref.HT
	}
	if m&ref.PF != 0 {
		m |= ref.SD
	}
	return m
}

func checkC14(c modCase, o *core.Obs) error {
	m := difficulty.Modifier(c.Mods)
	var short, long []string
	for i := 0; i < 32; i++ {
		b := int64(1) << i
		if c.Mods&b == 0 || b == ref.DT && c.Mods&ref.NC != 0 || b == ref.HT && c.Mods&ref.DC != 0 || b == ref.SD && c.Mods&ref.PF != 0 {
			continue
		}
		short = append(short, acronyms[i])
		long = append(long, longNames[i])
	}
	o.Compared(5)
	if len(short) >= 2 || len(c.Tokens) >= 2 {
		o.Nontrivial()
	}
	o.LabelIf(c.Mods != closure(c.Mods), "not closed under implications")
	o.LabelIf(c.Tail != "", "odd or non-ASCII tail")
	if got, want := m.String(), strings.Join(short, ""); got != want {
		return fmt.Errorf("mods %d format as %q, want %q", c.Mods, got, want)
	}
	if got := m.StringFull(); strings.Join(got, ",") != strings.Join(long, ",") {
		return fmt.Errorf("mods %d list as %q, want %q", c.Mods, got, long)
	}
	cl := difficulty.Modifier(closure(c.Mods))
	if got := difficulty.ParseMods(cl.String()); got != cl {
		return fmt.Errorf("mods %d format as %q, which parses as %d", cl, cl.String(), got)
	}
	want := int64(0)
	for _, tk := range c.Tokens {
		for i, a := range acronyms {
			if a == tk {
				want |= 1 << i
			}
		}
	}
	want = closure(want)
	s := strings.Join(c.Tokens, "") + c.Tail
	if got := difficulty.ParseMods(s); int64(got) != want {
		return fmt.Errorf("%q parses as %d (%s), want %d (%s)", s, got, got, want, difficulty.Modifier(want))
	}
	got := int64(difficulty.ParseMods(c.Raw))
	if got != closure(got) || got>>32 != 0 {
		return fmt.Errorf("%q parses as %d, which is not a combination of known mods with what they imply", c.Raw, got)
	}
	for i, a := range acronyms {
		implied := int64(1)<<i == ref.DT && got&ref.NC != 0 || int64(1)<<i == ref.HT && got&ref.DC != 0 || int64(1)<<i == ref.SD && got&ref.PF != 0
		if got>>i&1 == 1 && !implied && !strings.Contains(c.Raw, a) {
			return fmt.Errorf("%q parses as %s, but does not contain %s", c.Raw, difficulty.Modifier(got), a)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C15

type multCase struct {
	Mods int64 `json:"mods"`
	Less int64 `json:"less"` // bits removed for the monotonicity check
}

func checkC15(c multCase, o *core.Obs) error {
	m := difficulty.Modifier(c.Mods)
	has := func(b int64) bool { return c.Mods&b != 0 }
	w := 1.0
	f := func(b int64, v, v2 float64) {
		if has(b) {
			if has(ref.V2) {
				v = v2
			}
			w *= v
		}
	}
	f(ref.NF, 0.5, 1)
	f(ref.EZ, 0.5, 0.5)
	f(ref.HT, 0.3, 0.3)
	f(ref.HD, 1.06, 1.06)
	f(ref.HR, 1.06, 1.10)
	f(ref.DT, 1.12, 1.20)
	f(ref.FL, 1.12, 1.12)
	f(ref.SO, 0.9, 0.9)
	if has(ref.RX | ref.AP) {
		w = 0
	}
	o.Compared(3)
	if c.Mods&(c.Mods-1) != 0 {
		o.Nontrivial()
	}
	if got := m.GetScoreMultiplier(); !close64(got, w, 1e-12, 1e-12) {
		return fmt.Errorf("score multiplier of %s (%d) is %v, want %v", m, c.Mods, got, w)
	}
	bad := compatRef(c.Mods)
	o.LabelIf(!bad, "compatible")
	o.LabelIf(bad, "incompatible")
	if got := m.Compatible(); got == bad {
		return fmt.Errorf("%s (%d): compatible %v", m, c.Mods, got)
	}
	less := difficulty.Modifier(c.Mods &^ c.Less)
	if m.Compatible() && !less.Compatible() {
		return fmt.Errorf("%s is compatible but its subset %s is not", m, less)
	}
	for i := 0; i < 32; i++ {
		if got := m.Active(1 << i); got != (c.Mods>>i&1 == 1) {
			return fmt.Errorf("mod bit %d of %d: active %v", i, c.Mods, got)
		}
	}
	return nil
}

// compatRef is true when the combination contains a forbidden pair or Target.
func compatRef(mods int64) bool {
	pairs := [][2]int64{{ref.HR, ref.EZ}, {ref.DT, ref.HT}, {ref.DT, ref.DC}, {ref.NC, ref.HT}, {ref.NC, ref.DC}, {ref.SD, ref.NF}, {ref.PF, ref.NF}, {ref.RX, ref.AP},
		{ref.RX, ref.SD}, {ref.RX, ref.PF}, {ref.RX, ref.AT}, {ref.RX, ref.NF}, {ref.AP, ref.SD}, {ref.AP, ref.PF}, {ref.AP, ref.AT}, {ref.AP, ref.NF}, {ref.AP, ref.SO}}
	for _, p := range pairs {
		if mods&p[0] != 0 && mods&p[1] != 0 {
			return true
		}
	}
	return mods&ref.TG != 0
}

func init() {
	core.Register("C13", "random settings, then a sequence of setters checked after every step; non-trivial: at least two operations", 60000, 2000000, drawDiff, checkC13)
	core.Register("C14", "mod bitmasks (dense, sparse, usual) and strings of known and unknown pairs; non-trivial: two or more mods or tokens", 80000, 3000000, drawMod, checkC14)
	core.Register("C15", "mod bitmasks and a subset to remove; non-trivial: two or more mods", 120000, 4000000,
		func(t *rapid.T) multCase { return multCase{drawBits(t), drawBits(t)} }, checkC15)
}
