package ref

import "math"

// Attr are the difficulty attributes pp is computed from.
type Attr struct {
	Aim, SliderFactor, Speed, Flashlight          float64
	Objects, Circles, Sliders, Spinners, MaxCombo int
}

// Play is a score.
type Play struct{ Combo, N300, N100, N50, Miss int }

// PP is the result.
type PP struct{ Aim, Speed, Acc, Flashlight, Total float64 }

func starsToPP(s float64) float64 {
	return math.Pow(5*math.Max(1, s/0.0675)-4, 3) / 100000
}

// PPOf is osu!'s performance calculator of late 2021. The second result tells whether a
// rounding error in the miss guess could change its whole part.
func PPOf(a Attr, p Play, ar, od float64, mods int64) (PP, bool) { return ppOf(a, p, ar, od, mods, 0) }

// PPNudged is PPOf with the miss guess moved by a rounding error.
func PPNudged(a Attr, p Play, ar, od float64, mods int64, nudge float64) PP {
	r, _ := ppOf(a, p, ar, od, mods, nudge)
	return r
}

func ppOf(a Attr, p Play, ar, od float64, mods int64, nudge float64) (PP, bool) {
	amb := false
	if a.MaxCombo < 1 {
		a.MaxCombo = 1
	}
	if p.Combo < 0 {
		p.Combo = a.MaxCombo
	}
	if p.N300 < 0 {
		p.N300 = a.Objects - p.N100 - p.N50 - p.Miss
	}
	has := func(b int64) bool { return mods&b != 0 }
	hits := p.N300 + p.N100 + p.N50 + p.Miss
	n := float64(hits)
	acc := 0.0
	if hits != 0 {
		acc = float64(p.N300*6+p.N100*2+p.N50) / (6 * n)
		acc = math.Max(0, math.Min(1, acc))
	}

	// misses including slider breaks guessed from the combo
	guess := 0.0
	if a.Sliders > 0 {
		full := float64(a.MaxCombo) - 0.1*float64(a.Sliders)
		if float64(p.Combo) < full+nudge {
			guess = full/math.Max(1, float64(p.Combo)) + nudge
		}
		g := full / math.Max(1, float64(p.Combo))
		amb = math.Abs(g-math.Round(g)) < 1e-9*math.Max(1, g)
	}
	guess = math.Min(guess, n)
	eff := int(math.Floor(guess))
	if p.Miss > eff {
		eff = p.Miss
	}

	mult := 1.12
	if has(NF) {
		mult *= math.Max(0.9, 1-0.02*float64(eff))
	}
	if hits > 0 && has(SO) {
		mult *= 1 - math.Pow(float64(a.Spinners)/n, 0.85)
	}
	if has(RX) {
		eff += p.N100 + p.N50
		if eff > hits {
			eff = hits
		}
		mult *= 0.6
	}

	length := 0.95 + 0.4*math.Min(1, n/2000)
	if hits > 2000 {
		length += 0.5 * math.Log10(n/2000)
	}
	combo := math.Min(1, math.Pow(float64(p.Combo), 0.8)/math.Pow(float64(a.MaxCombo), 0.8))
	missBase := 1.0
	if eff > 0 {
		missBase = 1 - math.Pow(float64(eff)/n, 0.775)
	}
	miss := func(exp float64) float64 {
		if eff <= 0 {
			return 1
		}
		return 0.97 * math.Pow(missBase, exp)
	}
	hidden := 1.0
	if has(HD) {
		hidden = 1 + 0.04*(12-ar)
	}
	odAim := 0.98 + od*od/2500

	var r PP

	// aim
	raw := a.Aim
	if has(TD) {
		raw = math.Pow(raw, 0.8)
	}
	arAim := 0.0
	if ar > 10.33 {
		arAim = 0.3 * (ar - 10.33)
	} else if ar < 8 {
		arAim = 0.1 * (8 - ar)
	}
	r.Aim = starsToPP(raw) * length * miss(float64(eff)) * combo * (1 + arAim*length) * hidden * acc * odAim
	if a.Sliders > 0 {
		hard := 0.15 * float64(a.Sliders)
		bad := p.N100 + p.N50 + p.Miss
		if c := a.MaxCombo - p.Combo; c < bad {
			bad = c
		}
		dropped := math.Max(0, math.Min(hard, float64(bad)))
		r.Aim *= (1-a.SliderFactor)*math.Pow(1-dropped/hard, 3) + a.SliderFactor
	}

	// speed
	arSpeed := 0.0
	if ar > 10.33 {
		arSpeed = 0.3 * (ar - 10.33)
	}
	meh := math.Max(0, float64(p.N50)-n/500)
	r.Speed = starsToPP(a.Speed) * length * miss(math.Pow(float64(eff), 0.875)) * combo * (1 + arSpeed*length) * hidden *
		(0.95 + od*od/750) * math.Pow(acc, (14.5-math.Max(8, od))/2) * math.Pow(0.98, meh)

	// accuracy
	if !has(RX) {
		judged := a.Circles
		if has(V2) {
			judged = a.Objects
		}
		better := 0.0
		if judged > 0 {
			better = math.Max(0, float64((p.N300-(hits-judged))*6+p.N100*2+p.N50)/float64(judged*6))
		}
		r.Acc = 2.83 * math.Pow(1.52163, od) * math.Pow(better, 24) * math.Min(1.15, math.Pow(float64(judged)/1000, 0.3))
		if has(HD) {
			r.Acc *= 1.08
		}
		if has(FL) {
			r.Acc *= 1.02
		}
	}

	// flashlight
	if has(FL) {
		raw := a.Flashlight
		if has(TD) {
			raw = math.Pow(raw, 0.8)
		}
		short := 0.7 + 0.1*math.Min(1, n/200)
		if hits > 200 {
			short += 0.2 * math.Min(1, (n-200)/200)
		}
		r.Flashlight = 25 * raw * raw * miss(math.Pow(float64(eff), 0.875)) * combo * short * (0.5 + acc/2) * odAim
		if has(HD) {
			r.Flashlight *= 1.3
		}
	}
	r.Total = mult * math.Pow(math.Pow(r.Aim, 1.1)+math.Pow(r.Speed, 1.1)+math.Pow(r.Acc, 1.1)+math.Pow(r.Flashlight, 1.1), 1/1.1)
	return r, amb
}
