PK = 'github.com/Wieku/gosu-pp/'
D = PK + 'beatmap/difficulty'
O = PK + 'performance/osu'
OB = PK + 'beatmap/objects'
BUGS = []
def bug(id, prop, edits, needs, breaks, go, imports=(), race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, go=go, imports=list(imports), race=race))

bug('c11-window-floor', 'C11', [('beatmap/stackleniency.go', 'math.Floor(diff.Preempt * stackLeniency)', 'math.Ceil(diff.Preempt * stackLeniency)')],
 'two objects whose distance in time falls between the rounded-down and rounded-up stacking window',
 'the stacking window is rounded up instead of down',
'''
	b := parse(osuFile(14, []string{"StackLeniency:0.5"}, []string{"ApproachRate:5.1"}, nil, []string{"100,100,1000,1,0", "100,100,1593,1,0"}))
	near("objects just outside the window", float64(b.HitObjects[0].GetStackIndex(0)), 0, 0)
''')

bug('c11-old-format-slider-chain', 'C11', [('beatmap/stackleniency.go',
'''					sliderStack++
					objectN.SetStackIndex(objectN.GetStackIndex(modifiers)-sliderStack, modifiers)
					startTime = objectN.GetEndTime()''',
'''					sliderStack++
					objectN.SetStackIndex(objectN.GetStackIndex(modifiers)-sliderStack, modifiers)
					startTime = objectN.GetStartTime()''')],
 'a format version below 6 and a slider, itself stacked under an earlier slider\'s end, that lasts longer than the stacking window',
 'old-format stacking continues the chain from the start of the stacked slider instead of its end',
'''
	b := parse(osuFile(5, nil, []string{"SliderMultiplier:1", "ApproachRate:9"}, nil, []string{"100,100,1000,2,0,L|200:100,1,100", "200,100,1700,2,0,L|400:100,1,200", "200,100,2900,1,0"}))
	near("first slider-end stack", float64(b.HitObjects[1].GetStackIndex(0)), 0, 0)
	near("second slider-end stack", float64(b.HitObjects[2].GetStackIndex(0)), -2, 0)
''')

bug('c11-spinner-blocks-slider-stack', 'C11', [('beatmap/stackleniency.go',
'''		} else if isSlider(objectI) {

			for n--; n >= 0; n-- {
				objectN := hitObjects[n]

				if isSpinner(objectN) {
					continue
				}
''',
'''		} else if isSlider(objectI) {

			for n--; n >= 0; n-- {
				objectN := hitObjects[n]

				if isSpinner(objectN) {
					break
				}
''')],
 'a spinner between a slider and an earlier object at the same place, all within the stacking window',
 'a spinner ends the backward search for objects stacked under a slider instead of being skipped',
'''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:1", "ApproachRate:2"}, nil, []string{"100,100,1000,1,0", "256,192,1100,8,0,1200", "100,100,1400,2,0,L|200:100,1,100"}))
	near("stack height of the circle before the spinner", float64(b.HitObjects[0].GetStackIndex(0)), 1, 0)
''')

bug('c12-easy-offset', 'C12', [('beatmap/objects/hitobject.go',
'''	case modifier&difficulty.Easy > 0:
		hitObject.StackOffsetEZ = vector.NewVec2f(1, 1).Scl(offset)''',
'''	case modifier&difficulty.Easy > 0 && hitObject.StackIndexEZ != hitObject.StackIndex:
		hitObject.StackOffsetEZ = vector.NewVec2f(1, 1).Scl(offset)
	case modifier&difficulty.Easy > 0:
		hitObject.StackOffsetEZ = hitObject.StackOffset''')],
 'the Easy mod on an object whose stack height is the same as without mods but not zero',
 'the Easy stack offset is shared with the no-mod one, although the circle radius differs',
'''
	b := parse(osuFile(14, nil, []string{"CircleSize:6"}, nil, []string{"100,100,1000,1,0", "100,100,1100,1,0"}))
	r := difficulty.NewDifficulty(5, 6, 5, 5)
	r.SetMods(difficulty.Easy)
	near("Easy stacked x", float64(b.HitObjects[0].GetStackedStartPositionMod(difficulty.Easy).X), 100-r.CircleRadius/10, 1e-4)
''', [D])

bug('c07-unstable-timing-sort', 'C07', [('beatmap/timing/timing.go',
'''	sort.SliceStable(tim.points, func''', '''	sort.Slice(tim.points, func''')],
 'more than a dozen timing points, some sharing their time (a red and a green line at one offset), not already in order',
 'timing points with equal times may swap, so a green line no longer follows its red line',
'''
	var t []string
	for i := 40; i > 0; i-- {
		t = append(t, fmt.Sprintf("%d,%d,4,2,1,60,1,0", i*1000, 300+i), fmt.Sprintf("%d,-50,4,2,1,%d,0,0", i*1000, i))
	}
	b := parse(osuFile(14, nil, nil, t, []string{"100,100,1000,1,0"}))
	for i := 1; i <= 40; i++ {
		p := b.Timings.GetPointAt(float64(i * 1000))
		check("the green line is in effect", p.Inherited, i)
		near("beat length", p.GetBeatLength(), float64(300+i)*0.5, 1e-9)
	}
''', ['fmt'])

bug('c07-slow-velocity-limit', 'C07', [('beatmap/timing/timing.go', '''mutils.ClampF64(-t.beatLength, 10, 1000)''', '''mutils.ClampF64(-t.beatLength, 10, 10000)''')],
 'a slider-velocity factor below 0.1x',
 'slow slider-velocity factors are no longer limited to 0.1x',
'''
	b := parse(osuFile(14, nil, nil, []string{"0,400,4,2,1,60,1,0", "500,-2500,4,2,1,60,0,0"}, []string{"100,100,1000,1,0"}))
	near("beat length at 0.04x", b.Timings.GetPointAt(700).GetBeatLength(), 4000, 1e-6)
''')

bug('c10-tail-midpoint-of-span', 'C10', [('beatmap/objects/slider.go',
'''math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36)''',
'''math.Max(spanStartTime+slider.spanDuration/2, slider.EndTime-36)''')],
 'a repeating slider whose passes are shorter than 72 ms',
 'the tail is kept out of the first half of the last pass, instead of the first half of the slider',
'''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:2"}, nil, []string{"100,100,1000,2,0,L|110:100,3,10"}))
	s := slider(b.HitObjects[0])
	tail := 0.0
	for _, p := range s.ScorePoints {
		if !p.IsReverse {
			tail = p.Time
		}
	}
	near("tail time", tail, math.Max((s.GetStartTime()+s.GetEndTime())/2, s.GetEndTime()-36), 1e-3)
''', ['math'])

bug('c10-dense-ticks-near-end', 'C10', [('beatmap/objects/slider.go',
'''	tickDistance := slider.Timings.GetTickDistance(slider.TPoint)
''', '''	tickDistance := slider.Timings.GetTickDistance(slider.TPoint)
	minDistanceFromEnd = math.Min(minDistanceFromEnd, tickDistance)
''')],
 'ticks closer together than 10 ms of travel (extreme tempo with a high tick rate)',
 'the last ticks, less than 10 ms of travel before the path end, are not left out',
'''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:1", "SliderTickRate:8"}, []string{"0,30,4,2,1,60,1,0"}, []string{"100,100,1000,2,0,L|300:100,1,200"}))
	s := slider(b.HitObjects[0])
	for i, p := range s.ScorePoints {
		check("tick not within 10 ms of the end", p.Time <= s.GetEndTime()-9.99, i, p.Time)
	}
	check("has ticks", len(s.ScorePoints) > 5)
''')

bug('c05-unstable-object-sort', 'C05', [('beatmap/parser.go', '''	sort.SliceStable(beatMap.HitObjects, func''', '''	sort.Slice(beatMap.HitObjects, func''')],
 'more than a dozen objects with several at the same time',
 'objects that share their start time lose their file order',
'''
	var o []string
	for i := 0; i < 60; i++ {
		o = append(o, fmt.Sprintf("%d,100,%d,1,0", i, 1000+(i%7)*100))
	}
	b := parse(osuFile(14, nil, nil, nil, o))
	for i := 1; i < len(b.HitObjects); i++ {
		p, c := b.HitObjects[i-1], b.HitObjects[i]
		check("file order among equal times", p.GetStartTime() < c.GetStartTime() || p.GetStartPosition().X < c.GetStartPosition().X, i)
	}
''', ['fmt'])

bug('c05-colour-skip-bits', 'C05', [('beatmap/objects/baseobject.go', '''(objType >> 4) & 7''', '''(objType >> 4) & 3''')],
 'a combo-colour skip of 4 or more',
 'colour skips are read modulo 4',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "1,1,2000,101,0"}))
	near("colour skip", float64(b.HitObjects[1].GetColorOffset()), 6, 0)
''')

bug('c06-skip-after-spinner', 'C06', [('beatmap/parser.go',
'''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = true
		} else if iO.IsNewCombo() || forceNewCombo {''',
'''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = forceNewCombo || num > 0
		} else if iO.IsNewCombo() || forceNewCombo {''')],
 'a beatmap whose very first object is a spinner, followed by an object without the new-combo flag',
 'the object after an opening spinner does not start a combo',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"256,192,500,8,0,900", "1,1,1000,1,0", "1,1,2000,1,0"}))
	check("the object after the spinner starts a combo", b.HitObjects[1].IsNewCombo())
	near("combo set", float64(b.HitObjects[1].GetComboSet()), 1, 0)
''')

bug('c14-long-names-daycore', 'C14', [('beatmap/difficulty/mods.go',
'''func (mods Modifier) StringFull() (s []string) {
	if mods.Active(Nightcore) {
		mods &= ^DoubleTime
	}

	if mods.Active(Daycore) {
		mods &= ^HalfTime
	}
''',
'''func (mods Modifier) StringFull() (s []string) {
	if mods.Active(Nightcore) {
		mods &= ^DoubleTime
	} else if mods.Active(Daycore) {
		mods &= ^HalfTime
	}
''')],
 'a combination with both Nightcore and Daycore, long-name form only',
 'the HalfTime implied by Daycore is not hidden in the long-name list when Nightcore is present too',
'''
	for _, n := range (difficulty.Nightcore | difficulty.DoubleTime | difficulty.Daycore | difficulty.HalfTime).StringFull() {
		check("HalfTime hidden", n != "HalfTime")
	}
''', [D])

bug('c15-perfect-alone', 'C15', [('beatmap/difficulty/mods.go', '''((mods.Active(Perfect) || mods.Active(SuddenDeath)) && mods.Active(NoFail))''', '''(mods.Active(SuddenDeath) && mods.Active(NoFail))''')],
 'Perfect set without SuddenDeath, together with NoFail',
 'Perfect and NoFail pass as compatible when SuddenDeath is not set as well',
'''
	check("PF and NF are incompatible", !(difficulty.Perfect | difficulty.NoFail).Compatible())
''', [D])

bug('c15-touch-of-v2', 'C15', [('beatmap/difficulty/mods.go',
'''	if mods&DoubleTime > 0 {
		if mods&ScoreV2 > 0 {''', '''	if mods&DoubleTime > 0 {
		if mods&ScoreV2 > 0 && mods&HardRock == 0 {''')],
 'ScoreV2 with both DoubleTime and HardRock',
 'the ScoreV2 DoubleTime factor is not used together with HardRock',
'''
	near("multiplier", (difficulty.DoubleTime | difficulty.HardRock | difficulty.ScoreV2).GetScoreMultiplier(), 1.1*1.2, 1e-9)
''', [D])

bug('c13-negative-ar', 'C13', [('beatmap/difficulty/difficulty.go',
'''		return -(rate - min) / minStep''', '''		return math.Max(0, -(rate-min)/minStep)''')],
 'a low AR (or OD) with a slowing mod, so that the speed-adjusted value is below zero',
 'the speed-adjusted AR and OD stop at zero',
'''
	d := difficulty.NewDifficulty(5, 5, 5, 1)
	d.SetMods(difficulty.HalfTime)
	near("real AR", d.ARReal, -(1680/0.75-1800)/120, 1e-9)
''', [D])

bug('c13-halftime-custom-speed', 'C13', [('beatmap/difficulty/difficulty.go',
'''		return time / (0.75 * diff.CustomSpeed)''', '''		return time / math.Min(0.75*diff.CustomSpeed, 1)''')],
 'HalfTime together with a custom speed above 1.33',
 'HalfTime can no longer be sped up beyond normal speed',
'''
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	d.SetMods(difficulty.HalfTime)
	d.SetCustomSpeed(1.6)
	near("scaled time", d.GetModifiedTime(1200), 1000, 1e-6)
''', [D])

STAR = '''
	b := parse(osuFile(14, nil, []string{"CircleSize:4", "OverallDifficulty:8", "ApproachRate:9", "SliderMultiplier:1.6"}, nil, %s))
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(%s)
	a := osu.CalculateSingle(b.HitObjects, d)
	near("aim", a.Aim, %s, 1e-7)
	near("speed", a.Speed, %s, 1e-7)
	near("flashlight", a.Flashlight, %s, 1e-7)
'''
