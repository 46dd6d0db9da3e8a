PK = 'github.com/Wieku/gosu-pp/'
D = PK + 'beatmap/difficulty'
O = PK + 'performance/osu'
PP = PK + 'performance/osu/preprocessing'
SK = PK + 'performance/osu/skills'
OB = PK + 'beatmap/objects'
BM = PK + 'beatmap'
CU = PK + 'math/curves'
VE = PK + 'math/vector'
MU = PK + 'math/mutils'
M32 = PK + 'math/math32'
BUGS = []
FI = PK + 'files'
TI = PK + 'beatmap/timing'
def bug(id, prop, edits, needs, breaks, go, imports=(), race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, go=go, imports=list(imports), race=race))


bug('c30-declared-length', 'C30', [('math/curves/multicurve.go', '''	mCurve.length = 0.0

	for _, l := range mCurve.lines {
		mCurve.length += l.GetLength()
	}

	mCurve.sections''', '''	if len(mCurve.lines) > 0 && mCurve.length > 0 {
		mCurve.length = float32(desiredLength)
	}

	mCurve.sections''')],
 'a path whose last piece has no length, so that it cannot be extended',
 'the length of a path is the declared one even where the path could not be extended to it',
'''
	p := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 0)}
	for _, typ := range []string{"B", "L"} {
		c := curves.NewMultiCurveT(typ, p, 250)
		sum := 0.0
		for _, l := range c.GetLines() {
			sum += float64(l.GetLength())
		}
		near(typ+" length", float64(c.GetLength()), sum, 0.01)
	}
''', [CU, VE])

bug('c30-near-anchors', 'C30', [('math/curves/multicurve.go', '''		if points[i] == points[i+1] { // skip red anchors, present in old maps like 243''',
'''		if points[i].Dst(points[i+1]) < 1.5 { // skip red anchors, present in old maps like 243''')],
 'two anchors of a linear path one pixel apart',
 'short pieces of linear paths are left out, so the path is not connected',
'''
	c := curves.NewMultiCurve("L", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(60, 0), vector.NewVec2f(60, 1), vector.NewVec2f(100, 1)})
	near("length", float64(c.GetLength()), 101, 0.001)
	l := c.GetLines()
	for i := 1; i < len(l); i++ {
		check("connected", l[i].Point1 == l[i-1].Point2, i)
	}
''', [CU, VE])

bug('c30-overshoot', 'C30', [('math/curves/multicurve.go', '''		return mCurve.firstPoint
	}

	desiredWidth := mCurve.length * mutils.ClampF32(t, 0.0, 1.0)
''', '''		return mCurve.firstPoint
	}

	desiredWidth := mCurve.length * t
	if desiredWidth < 0 {
		desiredWidth = 0
	}
''')],
 'a fraction above one', 'points beyond the end of a path are extrapolated instead of clamped',
'''
	c := curves.NewMultiCurve("L", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0)})
	near("end", float64(c.PointAt(1.3).X), 100, 0.001)
	near("start", float64(c.PointAt(-1).X), 0, 0.001)
''', [CU, VE])

bug('c30-end-angle-section', 'C30', [('math/curves/multicurve.go', '''	return mCurve.getLineAt(t).GetEndAngle()''', '''	return mCurve.lines[mutils.ClampI(int(t*float32(len(mCurve.lines))), 0, len(mCurve.lines)-1)].GetEndAngle()''')],
 'a path with pieces of different lengths',
 'the end angle at a fraction is that of the piece with that share of the number of pieces, not of the length',
'''
	c := curves.NewMultiCurve("L", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(300, 0), vector.NewVec2f(300, 20), vector.NewVec2f(320, 20)})
	near("angle", math.Mod(float64(c.GetEndAngleAt(0.5))+2*math.Pi, 2*math.Pi), 0, 0.001)
''', [CU, VE, 'math'])

bug('c30-extend-chord', 'C30', [('math/curves/multicurve.go', '''				if line.Point1 != line.Point2 {
					pt :=''', '''				if diff < -20 && len(points) > 2 && typ == "P" && points[len(points)-1] != points[len(points)-2] {
					// continue in the direction of the last two control points
					p1, p2 := points[len(points)-2], points[len(points)-1]
					mCurve.lines = append(mCurve.lines, NewLinear(line.Point2, line.Point2.Add(p2.Sub(p1).Nor().Scl(float32(-diff)))))
				} else if line.Point1 != line.Point2 {
					pt :=''')],
 'a perfect circle path declared longer than the arc',
 'arcs are extended along the chord of their last control points, not straight on',
'''
	p := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 100), vector.NewVec2f(200, 0)}
	c := curves.NewMultiCurveT("P", p, math.Pi*100+100)
	e := c.PointAt(1)
	check("straight on", math.Abs(float64(e.X)-200) < 10 && math.Abs(float64(e.Y)+100) < 2, e)
''', [CU, VE, 'math'])

bug('c16-reduced-share', 'C16', [('performance/osu/skills/skill.go', '''mutils.ClampF64(float64(i)/float64(skill.ReducedSectionCount), 0, 1)''', '''mutils.ClampF64(float64(i)/float64(numReduced), 0, 1)''')],
 'maps of fewer sections than are reduced',
 'the reduction of the hardest sections depends on how many sections there are',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,810,1,0", "300,100,900,1,0", "100,300,990,1,0", "300,300,1100,1,0", "200,100,1500,1,0"}))
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	p := osu.CalculateStrainPeaks(b.HitObjects, d)
	check("two sections", len(p.Aim) == 2, len(p.Aim))
	v := append([]float64{}, p.Aim...)
	sort.Sort(sort.Reverse(sort.Float64Slice(v)))
	v[0] *= 0.75
	v[1] *= 0.75 + 0.25*math.Log10(1.9)
	sort.Sort(sort.Reverse(sort.Float64Slice(v)))
	near("aim", osu.CalculateSingle(b.HitObjects, d).Aim, math.Sqrt((v[0]+0.9*v[1])*1.06)*0.0675, 1e-9)
''', [D, O, 'math', 'sort'])

bug('c31-long-pause', 'C31', [('performance/osu/skills/skill.go', '''	for startTime > skill.currentSectionEnd {
		skill.saveCurrentPeak()''', '''	if startTime > skill.currentSectionEnd+100*sectionLength {
		// nothing is left of the strain after a pause this long
		skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength
		skill.currentSectionPeak = 0
	}

	for startTime > skill.currentSectionEnd {
		skill.saveCurrentPeak()''')],
 'a pause of more than 40 seconds right after the hardest section',
 'the peak of the section before a long pause is lost',
'''
	o := []string{}
	for i := 0; i < 8; i++ {
		o = append(o, fmt.Sprintf("%d,%d,%d,1,0", 100+i%2*200, 100+i%3*50, 1000+i*150))
	}
	o = append(o, "100,100,90000,1,0")
	b := parse(osuFile(14, nil, nil, nil, o))
	s := osu.CalculateStep(b.HitObjects, difficulty.NewDifficulty(5, 5, 5, 5))
	for i := 1; i < len(s); i++ {
		check("aim", s[i].Aim >= s[i-1].Aim-1e-9, i, s[i-1].Aim, s[i].Aim)
	}
''', [D, O, 'fmt'])

bug('c31-peak-window', 'C31', [('performance/osu/skills/skill.go', '''	skill.strainPeaks = append(skill.strainPeaks, skill.currentSectionPeak)
''', '''	skill.strainPeaks = append(skill.strainPeaks, skill.currentSectionPeak)

	// keep about an hour of peaks
	if len(skill.strainPeaks) > 8192 {
		skill.strainPeaks = skill.strainPeaks[1:]
	}
''')],
 'a map of more than 54 minutes', 'the first peaks of very long maps are forgotten',
'''
	o := []string{}
	for i := 0; i < 8; i++ {
		o = append(o, fmt.Sprintf("%d,%d,%d,1,0", 100+i%2*200, 100+i%3*50, 1000+i*150))
	}
	o = append(o, "100,100,3600000,1,0", "300,100,3600100,1,0")
	b := parse(osuFile(14, nil, nil, nil, o))
	s := osu.CalculateStep(b.HitObjects, difficulty.NewDifficulty(5, 5, 5, 5))
	for i := 1; i < len(s); i++ {
		check("aim", s[i].Aim >= s[i-1].Aim-1e-9, i, s[i-1].Aim, s[i].Aim)
	}
''', [D, O, 'fmt'])

bug('c32-old-stack-combo', 'C32', [('beatmap/stackleniency.go', '''				if objectN.GetStartTime()-stackThreshold > startTime {''', '''				if objectN.GetStartTime()-stackThreshold > startTime || objectN.IsNewCombo() && objectN.GetComboSet() > objectI.GetComboSet()+1 {''')],
 'stacks spanning several combos in old formats',
 'old style stacks end at new combos',
'''
	mk := func(nc int) []string {
		o := []string{"50,50,500,5,0"}
		for i := 0; i < 6; i++ {
			o = append(o, fmt.Sprintf("100,100,%d,%d,0", 1000+i*80, 1+nc), fmt.Sprintf("200,100,%d,1,0", 1040+i*80))
		}
		return o
	}
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	a := osu.CalculateSingle(parse(osuFile(5, nil, nil, nil, mk(0))).HitObjects, d)
	b := osu.CalculateSingle(parse(osuFile(5, nil, nil, nil, mk(4))).HitObjects, d)
	near("aim", b.Aim, a.Aim, 1e-9)
''', [D, O, 'fmt'])

bug('c32-meter-zero', 'C32', [('beatmap/beatmap.go', '''		if signature == 0 {
			signature = 4
		}''', '''		if signature < 0 {
			return
		}

		if signature == 0 {
			signature = 4
		}''')],
 'a timing point with a negative meter', 'timing points with a negative meter are ignored',
'''
	mk := func(m string) *beatmap.BeatMap {
		return parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,60,1,0", "1500,-50," + m + ",2,1,60,0,0"}, []string{"100,100,1000,1,0", "100,200,2000,2,0,L|300:200,2,200", "300,100,4000,1,0", "100,100,4200,1,0"}))
	}
	a, b := mk("4"), mk("-1")
	near("duration", b.HitObjects[1].GetDuration(), a.HitObjects[1].GetDuration(), 1e-9)
''', [BM])

bug('c32-flashlight-visibility', 'C32', [('performance/osu/skills/flashlight.go', '''		jumpDistance := float64(''', '''		// objects which were not visible together do not matter
		if (current.StartTime-previous.EndTime)*s.diff.Speed > 10*s.diff.Preempt {
			break
		}

		jumpDistance := float64(''')],
 'pauses of more than ten times the approach time with Flashlight',
 'the flashlight rating depends on the approach rate',
'''
	o := []string{}
	for i := 0; i < 12; i++ {
		o = append(o, fmt.Sprintf("%d,%d,%d,1,0", 100+i%2*200, 100+i%3*50, 1000+i*5000))
	}
	b := parse(osuFile(14, nil, nil, nil, o))
	rate := func(ar float64) float64 {
		d := difficulty.NewDifficulty(5, 5, 5, ar)
		d.SetMods(difficulty.Flashlight)
		return osu.CalculateSingle(b.HitObjects, d).Flashlight
	}
	near("flashlight", rate(10), rate(0), 1e-9)
''', [D, O, 'fmt'])

bug('c32-restated-red-line', 'C32', [('beatmap/timing/timing.go', '''			lastPoint := tim.points[i-1]
			point.beatLengthBase = lastPoint.beatLengthBase
''', '''			lastPoint := tim.points[i-1]
			point.beatLengthBase = lastPoint.beatLengthBase

			// a line repeating the one before it keeps its velocity
			if point.beatLength == lastPoint.beatLength || math.Abs(point.beatLength+100) < 1e-9 && lastPoint.Time == point.Time {
				point.beatLength = lastPoint.beatLength
			}
''')],
 'a green line of normal velocity on the time of another green line',
 'a later line of normal velocity at the same time does not take effect',
'''
	mk := func(t ...string) float64 {
		b := parse(osuFile(14, nil, nil, append([]string{"0,500,4,2,1,60,1,0"}, t...), []string{"100,100,1000,1,0", "100,200,2000,2,0,L|300:200,2,200", "300,100,4000,1,0"}))
		return b.HitObjects[1].GetDuration()
	}
	near("duration", mk("1500,-50,4,2,1,60,0,0", "1500,-100,4,2,1,60,0,0"), mk(), 1e-9)
''', [])

bug('c14-daycore-parse', 'C14', [('beatmap/difficulty/mods.go', '''	if m.Active(Daycore) {
		m |= HalfTime
	}

	return''', '''	if m.Active(Daycore) && !m.Active(Easy) {
		m |= HalfTime
	}

	return''')],
 'Daycore parsed together with Easy', 'EZDC is parsed without HalfTime',
'''
	m := difficulty.ParseMods("EZDC")
	check("half time", m.Active(difficulty.HalfTime), m)
''', [D])

bug('c14-fullname-order', 'C14', [('beatmap/difficulty/mods.go', '''		if activated {
			s = append(s, modsStringFull[i])
		}''', '''		if activated && (i == 0 || len(s) < 12) {
			s = append(s, modsStringFull[i])
		}''')],
 'a set of more than twelve mods', 'long mod lists lose their last names',
'''
	m := difficulty.Modifier(0)
	for i := 0; i < 14; i++ {
		m |= 1 << uint(2*i)
	}
	check("names", len(m.StringFull()) == len(m.String())/2, m.StringFull())
''', [D])

bug('c15-autopilot-v2', 'C15', [('beatmap/difficulty/mods.go', '''	if (mods&Relax | mods&Relax2) > 0 {
		multiplier = 0
	}

	if mods&SpunOut > 0 {
		multiplier *= 0.9
	}''', '''	if mods&Relax > 0 || mods&Relax2 > 0 && mods&ScoreV2 == 0 {
		multiplier = 0
	}

	if mods&SpunOut > 0 {
		multiplier *= 0.9
	}''')],
 'Autopilot with ScoreV2', 'Autopilot with ScoreV2 has a score multiplier',
'''
	near("multiplier", (difficulty.Relax2 | difficulty.ScoreV2).GetScoreMultiplier(), 0, 0)
''', [D])

bug('c10-unsorted-reverse', 'C10', [('beatmap/objects/slider.go', '''	sort.Slice(slider.ScorePoints, func(i, j int) bool {''', '''	// spans are in order already, only the ticks of reversed ones may not be
	sort.Slice(slider.ScorePoints[:len(slider.ScorePoints)-1], func(i, j int) bool {''')],
 'a reversed last span with a tick later than 36 ms before the end',
 'the end of the slider is not sorted among late ticks',
'''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:3.6", "SliderTickRate:8"}, []string{"0,60,4,2,1,60,1,0"}, []string{"100,200,2000,2,0,L|300:200,1,400", "300,100,9000,1,0"}))
	s := slider(b.HitObjects[0])
	for i := 1; i < len(s.ScorePoints); i++ {
		check("sorted", s.ScorePoints[i].Time >= s.ScorePoints[i-1].Time, i)
	}
''')

bug('c10-tick-cap', 'C10', [('beatmap/objects/slider.go', '''			if d >= cLength-minDistanceFromEnd {
				break
			}
''', '''			if d >= cLength-minDistanceFromEnd || len(slider.ScorePoints) >= 1000 {
				break
			}
''')],
 'a slider with a thousand ticks', 'sliders get no more ticks after the thousandth point',
'''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:0.4", "SliderTickRate:8"}, []string{"0,500,4,2,1,60,1,0"}, []string{"100,200,2000,2,0,L|300:200,300,200", "300,100,900000,1,0"}))
	s := slider(b.HitObjects[0])
	n := 0
	for _, p := range s.ScorePoints[:60] {
		if p.IsReverse {
			break
		}
		n++
	}
	check("points", len(s.ScorePoints) == 300*(n+1), len(s.ScorePoints), n)
''')

bug('c16-buzz-repeats', 'C16', [('performance/osu/preprocessing/lazyslider.go', '''		} else if currMovementObj.IsReverse {
			// For a slider repeat, assume a tighter movement threshold to better assess repeat sliders.
			requiredMovement = NormalizedRadius
		}''', '''		} else if currMovementObj.IsReverse && slider.RepeatCount < 10 {
			// For a slider repeat, assume a tighter movement threshold to better assess repeat sliders.
			requiredMovement = NormalizedRadius
		}''')],
 'sliders of ten or more spans', 'repeats of long buzz sliders have the follow radius of ticks',
'''
	b := parse(osuFile(14, nil, nil, []string{"0,300,4,2,1,60,1,0"}, []string{"100,100,1000,1,0", "100,200,2000,2,0,L|300:200,12,85", "300,100,9000,1,0"}))
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	o := preprocessing.CreateDifficultyObjects(b.HitObjects, d)
	l := preprocessing.NewLazySlider(slider(b.HitObjects[1]), d)
	near("travel", o[1].TravelDistance, float64(l.LazyTravelDistance), 1e-6)
	check("travel", l.LazyTravelDistance > TRAVEL, l.LazyTravelDistance)
'''.replace('TRAVEL', '200'), [D, PP])

bug('c17-step-peaks', 'C17', [('performance/osu/difficulty.go', '''	stars, aimSkill, speedSkill, flashlightSkill := calculateStep(objects, diff)
	return stars, getPeaks(aimSkill, speedSkill, flashlightSkill, diff)''', '''	stars, aimSkill, speedSkill, _ := calculateStep(objects, diff)
	return stars, getPeaks(aimSkill, speedSkill, nil, diff)''')],
 'Flashlight in stepwise calculation with peaks', 'stepwise calculation gives no flashlight peaks',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,1,0", "300,200,1200,1,0", "100,300,1400,1,0", "300,100,1600,1,0"}))
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	d.SetMods(difficulty.Flashlight)
	_, p := osu.CalculateStepWithPeaks(b.HitObjects, d)
	check("peaks", len(p.Flashlight) == len(p.Aim), len(p.Flashlight))
''', [D, O])

bug('c26-total-without-flashlight', 'C26', [('performance/osu/difficulty.go', '''		flVal := 0.0
		if flashlight != nil {''', '''		flVal := 0.0
		if flashlight != nil && !diff.CheckModActive(difficulty.Relax) {''')],
 'Flashlight with Relax', 'total peaks leave flashlight out with Relax',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,1,0", "300,200,1200,1,0", "100,300,1400,1,0", "300,100,1600,1,0"}))
	rate := func(m difficulty.Modifier) float64 {
		d := difficulty.NewDifficulty(5, 5, 5, 5)
		d.SetMods(m)
		p := osu.CalculateStrainPeaks(b.HitObjects, d)
		return p.Total[len(p.Total)-1]
	}
	check("total", rate(difficulty.Flashlight|difficulty.Relax) > rate(difficulty.Relax)+1e-6)
''', [D, O])

bug('c28-clamp-inverted', 'C28', [('math/mutils/utils.go', '''func ClampI64(x, min, max int64) int64 {
	return MinI64(max, MaxI64(min, x))
}''', '''func ClampI64(x, min, max int64) int64 {
	return int64(ClampF64(float64(x), float64(min), float64(max)))
}''')],
 'integers of more than 53 bits', 'clamping large integers loses their low bits',
'''
	x := int64(1)<<60 + 1
	check("clamp", mutils.ClampI64(x, 0, x+5) == x, mutils.ClampI64(x, 0, x+5))
''', [MU])

bug('c22-meh-bonus', 'C22', [('performance/osu/pp.go', '''	if float64(pp.countMeh) >= float64(pp.totalHits)/500 {''', '''	if float64(pp.countMeh) >= float64(pp.totalHits)/500 && pp.countMeh*2 <= pp.totalHits {''')],
 'plays with more mehs than anything else', 'the penalty for mehs disappears when they are more than half of all hits',
'''
	a := osu.Attributes{Total: 5, Aim: 2.5, Speed: 2.5, SliderFactor: 1, ObjectCount: 100, Circles: 100, MaxCombo: 100}
	d := difficulty.NewDifficulty(5, 5, 8, 8)
	x := (&osu.PPv2{}).PPv2x(a, 100, 50, 0, 50, 0, d)
	y := (&osu.PPv2{}).PPv2x(a, 100, 49, 0, 51, 0, d)
	check("speed", y.Results.Speed <= x.Results.Speed, x.Results.Speed, y.Results.Speed)
''', [O, D])

bug('c22-combo-penalty-order', 'C22', [('performance/osu/pp.go', '''	return mutils.MaxI(pp.countMiss, int(math.Floor(comboBasedMissCount)))''', '''	if pp.countMiss > 0 && pp.countOk+pp.countMeh == 0 {
		// without any oks there were no slider breaks
		return pp.countMiss
	}

	return mutils.MaxI(pp.countMiss, int(math.Floor(comboBasedMissCount)))''')],
 'a play with misses and low combo but no oks', 'turning a great into an ok, with misses, raises the effective misses only then: a meh turned into a miss can give more pp',
'''
	a := osu.Attributes{Total: 5, Aim: 4, Speed: 2.5, SliderFactor: 0.98, ObjectCount: 300, Circles: 100, Sliders: 200, MaxCombo: 600}
	d := difficulty.NewDifficulty(5, 5, 8, 8)
	x := (&osu.PPv2{}).PPv2x(a, 100, 298, 0, 1, 1, d)
	y := (&osu.PPv2{}).PPv2x(a, 100, 298, 0, 0, 2, d)
	check("aim", y.Results.Aim <= x.Results.Aim, x.Results.Aim, y.Results.Aim)
''', [O, D])

bug('c21-speed-accuracy-od', 'C21', [('performance/osu/pp.go', '''(14.5-math.Max(pp.diff.ODReal, 8))/2)''', '''(14.5-mutils.ClampF64(pp.diff.ODReal, 8, 11))/2)''')],
 'an OD above 11, as from HR and DT, with imperfect accuracy',
 'the accuracy scaling of speed stops at OD 11',
'''
	a := osu.Attributes{Total: 5, Aim: 4, Speed: 4, SliderFactor: 0.98, ObjectCount: 300, Circles: 300, MaxCombo: 300}
	d := difficulty.NewDifficulty(5, 5, 10, 8)
	d.SetMods(difficulty.DoubleTime)
	full := (&osu.PPv2{}).PPv2x(a, 300, 300, 0, 0, 0, d)
	part := (&osu.PPv2{}).PPv2x(a, 300, 200, 100, 0, 0, d)
	acc := (200.0*300 + 100*100) / (300 * 300)
	near("ratio", part.Results.Speed/full.Results.Speed, math.Pow(acc, (14.5-d.ODReal)/2), 1e-9)
''', [O, D, 'math'])

bug('c19-zero-length-slider', 'C19', [('performance/osu/difficulty.go', '''	if s, ok := o.(*objects.Slider); ok {
		attr.Sliders++
		attr.MaxCombo += len(s.ScorePoints)''', '''	if s, ok := o.(*objects.Slider); ok {
		attr.Sliders++
		attr.MaxCombo += len(s.ScorePoints)
		if s.IsRetarded() {
			attr.MaxCombo--
		}''')],
 'a slider without length', 'sliders without length count one less in combo',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,0,L|100:100,1,100", "300,200,1200,1,0"}))
	a := osu.CalculateSingle(b.HitObjects, difficulty.NewDifficulty(5, 5, 5, 5))
	near("combo", float64(a.MaxCombo), 3, 0)
''', [D, O])

bug('c20-ez-window', 'C20', [('performance/osu/skills/speed.go', '''	greatWindow := s.diff.Hit300 / s.diff.Speed
''', '''	greatWindow := (80 - 6*s.diff.GetOD()) / s.diff.Speed
''')],
 'Easy or HardRock, whose hit windows differ from the plain ones',
 'rhythm uses the hit window of the map without Easy or HardRock',
'''
	o := []string{}
	t := 1000
	for i := 0; i < 60; i++ {
		o = append(o, fmt.Sprintf("%d,%d,%d,1,0", 100+i%6*60, 100, t))
		t += []int{100, 100, 160, 100, 220}[i%5]
	}
	b := parse(osuFile(14, []string{"StackLeniency:0"}, nil, nil, o))
	e := difficulty.NewDifficulty(5, 4, 8, 5)
	e.SetMods(difficulty.Easy)
	p := difficulty.NewDifficulty(5, 2, 4, 5)
	near("speed", osu.CalculateSingle(b.HitObjects, e).Speed, osu.CalculateSingle(b.HitObjects, p).Speed, 1e-6)
''', [D, O, 'fmt'])

bug('c23-shared-attribs', 'C23', [('performance/osu/pp.go', '''	if n300 < 0 {
		n300 = attribs.ObjectCount - n100 - n50 - nmiss
	}
''', '''	if n300 < 0 {
		n300 = attribs.ObjectCount - n100 - n50 - nmiss
		if pp.totalHits > attribs.ObjectCount {
			n300 = pp.totalHits - n100 - n50 - nmiss
		}
	}
''')],
 'a calculator used before for a longer map', 'the greats left out are filled up to the hits of the play before',
'''
	d := difficulty.NewDifficulty(5, 5, 8, 8)
	a := osu.Attributes{Total: 5, Aim: 4, Speed: 4, SliderFactor: 1, ObjectCount: 300, Circles: 300, MaxCombo: 300}
	s := osu.Attributes{Total: 5, Aim: 4, Speed: 4, SliderFactor: 1, ObjectCount: 100, Circles: 100, MaxCombo: 100}
	c := &osu.PPv2{}
	c.PPv2x(a, -1, -1, 0, 0, 0, d)
	x := c.PPv2x(s, -1, -1, 0, 0, 0, d)
	y := (&osu.PPv2{}).PPv2x(s, -1, -1, 0, 0, 0, d)
	near("total", x.Results.Total, y.Results.Total, 1e-9)
''', [O, D])

bug('c13-radius-memo', 'C13', [('beatmap/difficulty/difficulty.go', '''func (diff *Difficulty) SetMods(mods Modifier) {
	diff.Mods = mods
	diff.calculate()''', '''func (diff *Difficulty) SetMods(mods Modifier) {
	changed := (diff.Mods ^ mods) & (DifficultyAdjustMask &^ (Flashlight | Relax | Nightcore | Daycore))
	last := diff.Mods
	diff.Mods = mods

	if changed == 0 && last != None {
		return
	}

	if changed == HalfTime|DoubleTime && last.Active(HardRock|Easy) {
		diff.Speed = 1.0 / diff.GetModifiedTime(1)
		return
	}

	diff.calculate()''')],
 'switching between DoubleTime and HalfTime with HardRock or Easy kept',
 'real AR and OD are stale after switching speed mods',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.HardRock | difficulty.DoubleTime)
	d.SetMods(difficulty.HardRock | difficulty.HalfTime)
	e := difficulty.NewDifficulty(5, 4, 8, 9)
	e.SetMods(difficulty.HardRock | difficulty.HalfTime)
	near("ar", d.ARReal, e.ARReal, 1e-9)
''', [D])

bug('c06-spinner-combo', 'C06', [('beatmap/parser.go', '''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = true''', '''		if iO.GetType() == objects.SPINNER && iO.IsNewCombo() {
			forceNewCombo = true''')],
 'a spinner without the new combo flag', 'spinners without the flag do not start a combo',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,5,0", "1,1,2000,8,0,3000", "1,1,4000,1,0"}))
	check("new combo", b.HitObjects[2].IsNewCombo() && b.HitObjects[2].GetComboSet() == b.HitObjects[0].GetComboSet()+1, b.HitObjects[2].GetComboSet())
''')

bug('c16-long-history', 'C16', [('performance/osu/skills/skill.go', '''	if len(skill.Previous) > skill.HistoryLength {
		skill.Previous = skill.Previous[len(skill.Previous)-skill.HistoryLength:]
	}
''', '''	if len(skill.Previous) > skill.HistoryLength && (len(skill.strainPeaks) < 200 || skill.HistoryLength != 10) {
		skill.Previous = skill.Previous[len(skill.Previous)-skill.HistoryLength:]
	} else if len(skill.Previous) > skill.HistoryLength*2 {
		skill.Previous = skill.Previous[len(skill.Previous)-skill.HistoryLength:]
	}
''')],
 'maps of more than 200 sections', 'the history of skills grows beyond its length in long maps',
'''
	o := []string{}
	for i := 0; i < 60; i++ {
		o = append(o, fmt.Sprintf("%d,%d,%d,1,0", 100+i%2*200, 100+i%3*50, 1000+i*150))
	}
	for i := 0; i < 60; i++ {
		o = append(o, fmt.Sprintf("%d,%d,%d,1,0", 100+i%2*200, 100+i%3*50, 200000+i*150+i%3*40))
	}
	b := parse(osuFile(14, nil, nil, nil, o))
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	d.SetMods(difficulty.Flashlight)
	p := osu.CalculateStrainPeaks(b.HitObjects, d)
	q := osu.CalculateStrainPeaks(b.HitObjects[60:], d)
	best := func(x []float64) float64 {
		return x[len(x)-1]
	}
	near("flashlight", best(p.Flashlight), best(q.Flashlight), 1e-6)
''', [D, O, 'fmt'])
