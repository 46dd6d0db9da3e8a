PK = 'github.com/Wieku/gosu-pp/'
D = PK + 'beatmap/difficulty'
O = PK + 'performance/osu'
PP = PK + 'performance/osu/preprocessing'
SK = PK + 'performance/osu/skills'
OB = PK + 'beatmap/objects'
BM = PK + 'beatmap'
CU = PK + 'math/curves'
VE = PK + 'math/vector'
MU = PK + 'math/mutils'
M32 = PK + 'math/math32'
BUGS = []
def bug(id, prop, edits, needs, breaks, go, imports=(), race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, go=go, imports=list(imports), race=race))

bug('c16-flashlight-spinner-history', 'C16', [('performance/osu/skills/flashlight.go',
'''		if _, ok := previous.BaseObject.(*objects.Spinner); ok {
			continue
		}

		jumpDistance := float64(current.BaseObject.GetStackedStartPositionMod(s.diff.Mods).Dst(previous.BaseObject.GetStackedEndPositionMod(s.diff.Mods)))

		cumulativeStrainTime += previous.StrainTime
''',
'''		cumulativeStrainTime += previous.StrainTime

		if _, ok := previous.BaseObject.(*objects.Spinner); ok {
			continue
		}

		jumpDistance := float64(current.BaseObject.GetStackedStartPositionMod(s.diff.Mods).Dst(previous.BaseObject.GetStackedEndPositionMod(s.diff.Mods)))
''')],
 'the flashlight mod and a spinner within the last ten objects',
 'the time of spinners counts towards the cumulative strain time of the flashlight skill',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Flashlight)
	rate := func(end int) float64 {
		b := parse(osuFile(14, []string{"StackLeniency:0"}, []string{"CircleSize:4", "OverallDifficulty:8", "ApproachRate:9"}, nil, []string{"0,0,1000,1,0", "300,0,1300,1,0", fmt.Sprintf("256,192,%d,8,0,1900", end), "100,300,2000,1,0", "400,0,2300,1,0", "0,0,2390,1,0"}))
		return osu.CalculateSingle(b.HitObjects, d).Flashlight
	}
	// moving the spinner changes only its own strain time, which must not matter
	near("flashlight stars", rate(1310), 0.0627304373129, 1e-9)
''', [D, O, 'fmt'])

bug('c16-rhythm-after-spinner', 'C16', [('performance/osu/skills/speed.go', '''		s.CurrentRhythm = 0
		return 0''', '''		return 0''')],
 'a spinner directly followed by a new strain section',
 'the section after a spinner starts from a strain scaled by the rhythm of the object before the spinner',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"0,0,1000,1,0", "300,0,1100,1,0", "0,0,1200,1,0", "256,192,1250,8,0,1900", "100,300,4000,1,0"}))
	p := osu.CalculateStrainPeaks(b.HitObjects, b.Difficulty)
	check("sections", len(p.Speed) >= 4, len(p.Speed))
	near("speed strain at the start of the section after the spinner", p.Speed[2], 0, 1e-12)
''', [O])

bug('c26-section-boundary', 'C26', [('performance/osu/skills/skill.go', '''	for startTime > skill.currentSectionEnd {''', '''	for startTime >= skill.currentSectionEnd {''')],
 'an object exactly at the end of a 400 ms strain section',
 'an object on a section boundary is counted in the following section, and an extra empty section can appear at the front',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"0,0,700,1,0", "300,0,900,1,0", "0,0,1200,1,0", "300,0,1300,1,0"}))
	p := osu.CalculateStrainPeaks(b.HitObjects, b.Difficulty)
	near("sections", float64(len(p.Aim)), 2, 0)
	check("the object at 1200 belongs to the section that ends there", p.Speed[0] > 0 && p.Speed[0] > 1.3*osu.CalculateStrainPeaks(b.HitObjects[:2], b.Difficulty).Speed[0])
''', [O])

bug('c26-peaks-alias', 'C26', [('performance/osu/skills/skill.go',
'''	peaks := make([]float64, len(skill.strainPeaks)+1)
	copy(peaks, skill.strainPeaks)
	peaks[len(peaks)-1] = skill.currentSectionPeak

	return peaks''', '''	return append(skill.strainPeaks, skill.currentSectionPeak)''')],
 'peaks requested after a rating, and a number of sections for which the slice has spare capacity',
 'the returned peaks share memory with the skill, so computing the difficulty value sorts and scales the stored peaks',
'''
	var o []string
	for i := 0; i < 40; i++ {
		o = append(o, fmt.Sprintf("%d,%d,%d,1,0", (i*173)%500, (i*91)%380, 1000+i*100+i*i*3))
	}
	b := parse(osuFile(14, nil, nil, nil, o))
	for n := 2; n <= 40; n++ {
		want := osu.CalculateStrainPeaks(b.HitObjects[:n], b.Difficulty)
		_, got := osu.CalculateSingleWithPeaks(b.HitObjects[:n], b.Difficulty)
		for i := range want.Aim {
			near("aim peak with attributes", got.Aim[i], want.Aim[i], 1e-9)
		}
	}
''', [O, 'fmt'])

bug('c17-step-simultaneous', 'C17', [('performance/osu/difficulty.go',
'''		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''', '''		if o.DeltaTime == 0 { // nothing to recalculate for simultaneous objects
			stars = append(stars, attr)
			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''')],
 'two objects with exactly the same start time, stepwise calculation',
 'the stepwise entry of an object simultaneous with its predecessor keeps the predecessor\'s stars',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"0,0,1000,1,0", "300,0,1100,1,0", "0,0,1200,1,0", "300,300,1300,1,0", "0,300,1300,1,0"}))
	s := osu.CalculateStep(b.HitObjects, b.Difficulty)
	for i := range s {
		near("stepwise stars", s[i].Total, osu.CalculateSingle(b.HitObjects[:i+1], b.Difficulty).Total, 1e-9)
	}
''', [O])

bug('c19-empty-spinner-combo', 'C19', [('performance/osu/difficulty.go',
'''	attr.MaxCombo++
	attr.ObjectCount++''', '''	if s, ok := o.(*objects.Spinner); !ok || s.GetDuration() > 0 {
		attr.MaxCombo++
	}

	attr.ObjectCount++''')],
 'a spinner of zero (or negative) length',
 'a spinner without duration gives no combo',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"0,0,1000,1,0", "256,192,1100,8,0,1100"}))
	near("max combo", float64(osu.CalculateSingle(b.HitObjects, b.Difficulty).MaxCombo), 2, 0)
''', [O])

bug('c20-negative-first-section', 'C20', [('performance/osu/skills/skill.go',
'''		skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength''',
'''		skill.currentSectionEnd = math.Max(0, math.Ceil(startTime/sectionLength)) * sectionLength''')],
 'objects before time zero',
 'all sections before time zero are merged into one, so the rating depends on where in time the map lies',
'''
	at := func(off int) float64 {
		var o []string
		for i := 0; i < 20; i++ {
			o = append(o, fmt.Sprintf("%d,%d,%d,1,0", (i*173)%500, (i*91)%380, off+i*210))
		}
		b := parse(osuFile(14, nil, nil, []string{"-10000,500,4,2,1,60,1,0"}, o))
		return osu.CalculateSingle(b.HitObjects, b.Difficulty).Total
	}
	near("stars of the shifted map", at(-3990), at(10), 1e-6)
''', [O, 'fmt'])

bug('c16-autopilot-speed', 'C16', [('performance/osu/difficulty.go',
'''	if diff.CheckModActive(difficulty.Relax) {
		speedRating = 0.0''', '''	if diff.CheckModActive(difficulty.Relax | difficulty.Relax2) {
		speedRating = 0.0''')],
 'the Autopilot mod',
 'Autopilot zeroes the speed rating as Relax does',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"0,0,1000,1,0", "300,0,1100,1,0", "0,0,1200,1,0", "300,300,1300,1,0", "0,300,1300,1,0"}))
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	d.SetMods(difficulty.Relax2)
	check("speed stars with Autopilot", osu.CalculateSingle(b.HitObjects, d).Speed > 0.1)
''', [O, D])

PPV = '''	play := func(a osu.Attributes, mods difficulty.Modifier, od float64, combo, n300, n100, n50, miss int) osu.PPv2Results {
		d := difficulty.NewDifficulty(5, 4, od, 9)
		d.SetMods(mods)
		return (&osu.PPv2{}).PPv2x(a, combo, n300, n100, n50, miss, d).Results
	}
	attr := osu.Attributes{Total: 6, Aim: 3, SliderFactor: 0.97, Speed: 2.7, Flashlight: 1.5, ObjectCount: 600, Circles: 400, Sliders: 190, Spinners: 10, MaxCombo: 850}
'''
bug('c21-spunout-partial-play', 'C21', [('performance/osu/pp.go', '''float64(attribs.Spinners)/float64(totalhits)''', '''float64(attribs.Spinners)/float64(attribs.ObjectCount)''')],
 'SpunOut on a play that has not hit every object (a failed or partial play)',
 'the SpunOut reduction is relative to the map instead of the objects played',
PPV + '''
	part := play(attr, difficulty.SpunOut, 8, 300, 300, 0, 0, 0).Total / play(attr, 0, 8, 300, 300, 0, 0, 0).Total
	near("SpunOut factor after 300 objects", part, 1-math.Pow(10.0/300, 0.85), 1e-9)
''', [O, D, 'math'])

bug('c21-speed-od-cap', 'C21', [('performance/osu/pp.go', '''(14.5-math.Max(pp.diff.ODReal, 8))/2)''', '''(14.5-mutils.ClampF64(pp.diff.ODReal, 8, 11))/2)''')],
 'a speed-adjusted OD above 11 (OD above 9.8 with DoubleTime) and an accuracy below 100%',
 'the accuracy exponent of the speed value no longer shrinks above OD 11',
PPV + '''
	acc := (300.0*590 + 100*10) / (300 * 600)
	d := difficulty.NewDifficulty(5, 4, 10, 9)
	d.SetMods(difficulty.DoubleTime)
	r := play(attr, difficulty.DoubleTime, 10, 850, 590, 10, 0, 0).Speed / play(attr, difficulty.DoubleTime, 10, 850, 600, 0, 0, 0).Speed
	near("speed accuracy factor", r, math.Pow(acc, (14.5-d.ODReal)/2), 1e-9)
''', [O, D, 'math'])

bug('c22-relax-miss-overflow', 'C22', [('performance/osu/pp.go', '''mutils.MinI(pp.effectiveMissCount+pp.countOk+pp.countMeh, pp.totalHits)''', '''mutils.MinI(pp.effectiveMissCount, pp.totalHits) + pp.countOk + pp.countMeh''')],
 'Relax with so low a combo that the estimated misses plus 100s and 50s exceed the number of objects',
 'the effective miss count can exceed the number of objects, which makes pp NaN',
PPV + '''
	r := play(attr, difficulty.Relax, 8, 1, 300, 200, 100, 0)
	check("pp is a number", !math.IsNaN(r.Total) && !math.IsNaN(r.Aim), r)
''', [O, D, 'math'])

bug('c23-stale-hit-count', 'C23', [('performance/osu/pp.go',
'''	pp.totalHits = totalhits
	pp.scoreMaxCombo = combo''', '''	pp.scoreMaxCombo = combo'''),
 ('performance/osu/pp.go', '''	// accuracy

	if totalhits == 0 {''', '''	// accuracy

	pp.totalHits = totalhits

	if totalhits == 0 {''')],
 'a low combo on a map with sliders; the estimate uses the hit count of the calculator\'s previous play (0 for a fresh one)',
 'the combo-based miss estimate is limited by a stale hit count, so results depend on what the calculator computed before',
PPV + '''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	c := &osu.PPv2{}
	c.PPv2x(attr, 850, 600, 0, 0, 0, d)
	again := c.PPv2x(attr, 100, 600, 0, 0, 0, d).Results.Total
	near("pp of a reused calculator", again, play(attr, 0, 8, 100, 600, 0, 0, 0).Total, 1e-9)
''', [O, D])

bug('c24-shared-peak-buffer', 'C24', [('performance/osu/skills/skill.go',
'''	strains := skill.GetCurrentStrainPeaks()
	reverseSortFloat64s(strains)

	numReduced''', '''	strains := append(strainBuffer[:0], skill.GetCurrentStrainPeaks()...)
	strainBuffer = strains
	reverseSortFloat64s(strains)

	numReduced'''),
 ('performance/osu/skills/skill.go', '''func (skill *Skill) DifficultyValue() float64 {''', '''var strainBuffer []float64

func (skill *Skill) DifficultyValue() float64 {''')],
 'two ratings running at the same time',
 'all skills share one scratch buffer, so concurrent ratings corrupt each other',
'''
	var o []string
	for i := 0; i < 400; i++ {
		o = append(o, fmt.Sprintf("%d,%d,%d,1,0", (i*173)%500, (i*91)%380, 1000+i*90))
	}
	b := parse(osuFile(14, nil, nil, nil, o))
	want := osu.CalculateSingle(b.HitObjects, b.Difficulty)
	var wg sync.WaitGroup
	var wrong int64
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			for i := 0; i < 40; i++ {
				if got := osu.CalculateSingle(b.HitObjects, b.Difficulty); got != want {
					atomic.AddInt64(&wrong, 1)
				}
				osu.CalculateStep(b.HitObjects[:20+n*10], b.Difficulty)
			}
		}(g)
	}
	wg.Wait()
	check("concurrent ratings agree", wrong == 0, wrong)
''', [O, 'fmt', 'sync', 'sync/atomic'], race=True)

bug('c24-slider-cache', 'C24', [('performance/osu/preprocessing/lazyslider.go',
'''	decorated.calculateEndPosition()

	return decorated''', '''	// the same slider is usually rated many times
	key := sliderKey{slider, d.CircleRadius}
	if cached, ok := sliderCache.Load(key); ok {
		c := cached.(*LazySlider)
		decorated.LazyEndPosition, decorated.LazyTravelDistance, decorated.LazyTravelTime = c.LazyEndPosition, c.LazyTravelDistance, c.LazyTravelTime

		return decorated
	}

	decorated.calculateEndPosition()
	sliderCache.Store(key, decorated)

	return decorated'''),
 ('performance/osu/preprocessing/lazyslider.go', '''func NewLazySlider(''', '''type sliderKey struct {
	slider *objects.Slider
	radius float64
}

var sliderCache sync.Map

func NewLazySlider('''),
 ('performance/osu/preprocessing/lazyslider.go', '''	"math"
)''', '''	"math"
	"sync"
)''')],
 'the same sliders rated without and then with HardRock on a map whose circle size does not change with it (CS 0 or 10)',
 'lazy slider positions are cached by circle radius only, so a rating can reuse positions of another mod variant',
'''
	src := osuFile(14, nil, []string{"CircleSize:0", "SliderMultiplier:1.4"}, nil, []string{"100,100,1000,2,0,L|300:180,1,200", "50,30,2000,1,0", "300,30,2300,1,0", "300,380,2600,1,0", "50,30,2900,2,0,L|50:300,1,200", "300,30,3800,1,0", "3,30,3900,1,0"})
	hr := difficulty.NewDifficulty(5, 0, 5, 5)
	hr.SetMods(difficulty.HardRock)
	want := osu.CalculateSingle(parse(src).HitObjects, hr)
	b := parse(src)
	osu.CalculateSingle(b.HitObjects, b.Difficulty)
	got := osu.CalculateSingle(b.HitObjects, hr)
	near("aim stars with HardRock after a rating without", got.Aim, want.Aim, 1e-9)
''', [O, D])

bug('c01-perfect-two-points', 'C01', [('math/curves/multicurve.go', '''	} else if len(points) < 3 || vector''', '''	} else if len(points) < 2 || vector''')],
 'a perfect-curve slider with a single control point',
 'parsing a P slider with one control point panics',
'''
	_, err := beatmap.ParseFromByte([]byte(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,0,P|200:100,1,100"})))
	check("parses", err == nil)
''', [BM])

bug('c03-colon-in-title', 'C03', [('beatmap/parser.go', '''		case "Metadata":
			if arr := tokenizeN(line, ":", 2); len(arr) > 1 {''', '''		case "Metadata":
			if arr := tokenizeN(line, ":", 3); len(arr) > 1 {''')],
 'a metadata value that itself contains a colon',
 'metadata values are cut at their first colon',
'''
	b := parse("osu file format v14\\n[Metadata]\\nTitle:Re:Re: x\\nArtist:a\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n")
	check("title", b.Title == "Re:Re: x", b.Title)
''')

bug('c04-line-limit', 'C02', [('files/utf.go', '''	scanner.Buffer(buf, cap(buf))''', '''	scanner.Buffer(buf[:0:bufSize/20], bufSize/20)''')],
 'a line longer than half a megabyte (a slider with tens of thousands of control points)',
 'files with very long lines are rejected',
'''
	_, err := beatmap.ParseFromByte([]byte(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "// " + strings.Repeat("x", 900000), "1,1,2000,1,0"})))
	check("a line of 0.9 MB is read", err == nil, err)
''', [BM, 'strings'])

bug('c18-travel-through-next', 'C18', [('performance/osu/preprocessing/object.go', '''		o.MovementTime = math.Max(o.StrainTime-o.TravelTime, MinDeltaTime)''', '''		o.MovementTime = math.Max(o.StrainTime-o.TravelTime, 0)''')],
 'a slider that lasts until (or beyond) the start of the next object',
 'the time left to move from a slider to the next object can be zero, so aim becomes infinite or NaN',
'''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:1"}, nil, []string{"0,0,100,1,0", "200,0,400,1,0", "0,300,700,1,0", "100,100,1000,2,0,L|300:100,1,200", "10,380,1500,1,0", "300,30,1800,1,0", "10,30,2000,1,0"}))
	a := osu.CalculateSingle(b.HitObjects, b.Difficulty)
	check("finite", !math.IsNaN(a.Total) && !math.IsInf(a.Total, 0) && a.Aim < 100, a)
''', [O, 'math'])

bug('c27-unknown-section', 'C27', [('beatmap/parser.go', '''		section := getSection(line)
		if section != "" {
			currentSection = section
			continue
		}
''', '''		section := getSection(line)
		if section != "" {
			switch section {
			case "General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects", "Colours", "Editor":
				currentSection = section
			}
			continue
		}
''')],
 'a section with a name the parser does not know, whose lines look like those of the section before it',
 'lines of unknown sections are read as part of the preceding section',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "[Extra]", "2,2,1500,1,0"}))
	near("objects", float64(len(b.HitObjects)), 1, 0)
''')

bug('c28-round-negative', 'C28', [('math/math32/math.go', '''	return Floor(v + 0.5)''', '''	return float32(math.Round(float64(v)))''')],
 'rounding a negative number exactly between two integers',
 'negative halves round away from zero instead of up',
'''
	near("Round(-2.5)", float64(math32.Round(-2.5)), -2, 0)
''', [M32])

bug('c29-quotes', 'C29', [('beatmap/parser.go', '''strings.Replace(line[2], "\\"", "", -1)''', '''strings.Replace(line[2], "\\"\\"", "", -1)'''),],
 'a quoted background file name', 'quotes stay in the background name',
'''
	b := parse("osu file format v14\\n[Metadata]\\nTitle:x\\n[Events]\\n0,0,\\"bg.jpg\\",0,0\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n")
	check("background", b.Bg == "bg.jpg", b.Bg)
''')


bug('c16-small-circle-bonus', 'C16', [('performance/osu/preprocessing/object.go', """math32.Min(CircleSizeBuffThreshold-float32(o.diff.CircleRadius), 5.0)/50.0""", """math32.Max(CircleSizeBuffThreshold-float32(o.diff.CircleRadius), 0)/50.0""")],
 'circles smaller than 25 px radius (CS above 6.5)',
 'the small-circle distance bonus is no longer limited to 10%',
"""
	b := parse(osuFile(14, []string{"StackLeniency:0"}, []string{"CircleSize:9"}, nil, []string{"0,0,1000,1,0", "300,0,1300,1,0"}))
	r := b.Difficulty.CircleRadius
	o := preprocessing.CreateDifficultyObjects(b.HitObjects, b.Difficulty)
	near("normalised distance", o[0].JumpDistance, 300*50/r*1.1, 1e-2)
""", [PP])

bug('c08-catmull-end', 'C08', [('math/curves/multicurve.go', """			p4 = p3.Add(p3.Sub(p2))""", """			p4 = p3""")],
 'a Catmull slider (the shape of its last segment)',
 'the last segment of a Catmull slider uses its end point twice instead of extrapolating',
"""
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:1"}, nil, []string{"0,300,1000,2,0,C|500:100|200:300,1,890"}))
	s := b.HitObjects[0]
	c := curves.NewCatmull([]vector.Vector2f{vector.NewVec2f(0, 300), vector.NewVec2f(500, 100), vector.NewVec2f(200, 300), vector.NewVec2f(-100, 500)})
	for u := float32(0.1); u < 0.95; u += 0.1 {
		best := 1e9
		for t := s.GetStartTime(); t <= s.GetEndTime(); t += 0.5 {
			best = math.Min(best, float64(s.GetPositionAt(t).Dst(c.PointAt(u))))
		}
		check("the path follows its last segment", best < 0.5, u, best)
	}
""", [CU, VE, 'math'])

bug('c08-flat-arcs', 'C08', [('math/curves/approximation.go', """	if arc.Unstable {""", """	if arc.Unstable || arc.r > 2000 {""")],
 'a three-point arc slider with a radius above 2000 px (a slightly bent long slider)',
 'flat arcs are replaced by two straight lines',
"""
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:1"}, nil, []string{"0,100,1000,2,0,P|250:110|500:100,1,500"}))
	s := b.HitObjects[0]
	// radius 3130: a quarter of the way the arc is 7.5 px above the chord, two lines are 5 px above it
	near("height of the arc", float64(s.GetPositionAt((3*s.GetStartTime()+s.GetEndTime())/4).Y), 107.5, 0.3)
""")

bug('c09-fractional-start', 'C09', [('beatmap/objects/slider.go', """timings.GetPointAt(slider.StartTime)""", """timings.GetPointAt(math.Floor(slider.StartTime))""")],
 'a slider and a timing point within the same millisecond, both at fractional times',
 'the slider uses the timing point before the one in effect at its start',
"""
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:1"}, []string{"0,500,4,2,1,60,1,0", "1000.25,-50,4,2,1,60,0,0"}, []string{"100,100,1000.5,2,0,L|200:100,1,100"}))
	near("duration", b.HitObjects[0].GetDuration(), 250, 1e-3)
""")

bug('c25-catmull-samples', 'C25', [('math/curves/catmull.go', """	pointLength := points[1].Dst(points[2])
""", """	pointLength := points[0].Dst(points[3])
""")],
 'a Catmull-Rom curve whose outer points are much closer together than its inner ones',
 'the length of the curve is sampled according to its outer points',
"""
	c := curves.NewCatmull([]vector.Vector2f{vector.NewVec2f(100, 300), vector.NewVec2f(0, 0), vector.NewVec2f(200, 0), vector.NewVec2f(101, 300)})
	l := 0.0
	p := c.PointAt(0)
	for i := 1; i <= 2000; i++ {
		q := c.PointAt(float32(i) / 2000)
		l += float64(q.Dst(p))
		p = q
	}
	near("length", float64(c.GetLength()), l, 0.1)
""", [CU, VE])
