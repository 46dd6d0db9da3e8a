PK = 'github.com/Wieku/gosu-pp/'
D = PK + 'beatmap/difficulty'
O = PK + 'performance/osu'
PP = PK + 'performance/osu/preprocessing'
SK = PK + 'performance/osu/skills'
OB = PK + 'beatmap/objects'
BM = PK + 'beatmap'
CU = PK + 'math/curves'
VE = PK + 'math/vector'
MU = PK + 'math/mutils'
M32 = PK + 'math/math32'
BUGS = []
FI = PK + 'files'
TI = PK + 'beatmap/timing'
def bug(id, prop, edits, needs, breaks, go, imports=(), race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, go=go, imports=list(imports), race=race))


def objs(n, step=150):
    return '''	o := []string{}
	for i := 0; i < %d; i++ {
		o = append(o, fmt.Sprintf("%%d,%%d,%%d,1,0", 100+i%%2*200, 100+i%%3*50, 1000+i*%d))
	}
''' % (n, step)

bug('c02-unexpected-eof', 'C02', [('files/utf.go', '''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}''', '''	return transform.NewReader(&lenientReader{r}, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}

// lenientReader ends where compressed or chunked streams end early
type lenientReader struct {
	r io.Reader
}

func (l *lenientReader) Read(p []byte) (n int, err error) {
	n, err = l.r.Read(p)
	if errors.Is(err, io.ErrUnexpectedEOF) {
		err = io.EOF
	}

	return
}'''), ('files/utf.go', '''	"bufio"
''', '''	"bufio"
	"errors"
''')],
 'a stream failing with io.ErrUnexpectedEOF', 'a stream cut off early is taken for a complete file',
'''
	src := osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "1,1,2000,1,0"})
	b, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader(src), iotest.ErrReader(io.ErrUnexpectedEOF)))
	check("error", err != nil && b == nil, err)
''', [BM, 'io', 'strings', 'testing/iotest'])

bug('c02-long-line-limit', 'C02', [('beatmap/parser.go', '''	for scanner.Scan() {
		line := scanner.Text()
''', '''	for scanner.Scan() {
		line := scanner.Text()

		// no sane line is this long
		if len(line) > 1<<19 {
			continue
		}
''')],
 'a line of more than half a megabyte', 'lines of more than half a megabyte are dropped',
'''
	src := osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "1,1,2000,1,0,0:0:0:0:" + strings.Repeat("x", 700000)})
	check("objects", len(parse(src).HitObjects) == 2)
''', ['strings'])

bug('c03-negative-leniency', 'C03', [('beatmap/parser.go', '''		beatMap.StackLeniency, _ = strconv.ParseFloat(line[1], 64)
''', '''		beatMap.StackLeniency, _ = strconv.ParseFloat(line[1], 64)
		if beatMap.StackLeniency > 1 {
			beatMap.StackLeniency = 1
		}
''')],
 'a stack leniency above one', 'stack leniency is limited to one',
'''
	b := parse(osuFile(14, []string{"StackLeniency: 1.6"}, nil, nil, []string{"1,1,1000,1,0"}))
	near("leniency", b.StackLeniency, 1.6, 0)
''')

bug('c03-unicode-fallback', 'C03', [('beatmap/parser.go', '''		beatMap.Title = line[1]
''', '''		if beatMap.TitleUnicode == "" || beatMap.TitleUnicode == beatMap.Title {
			beatMap.TitleUnicode = line[1]
		}

		beatMap.Title = line[1]
''')],
 'a file without unicode title', 'a missing unicode title is filled in with the plain one',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0"}))
	check("title", b.TitleUnicode == "", b.TitleUnicode)
''')

bug('c03-id-width', 'C03', [('beatmap/parser.go', '''		beatMap.SetID, _ = strconv.ParseInt(line[1], 10, 64)''', '''		beatMap.SetID, _ = strconv.ParseInt(line[1], 10, 32)''')],
 'a set id of more than 31 bits', 'set ids are limited to 32 bits',
'''
	src := strings.Replace(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0"}), "Title:t", "Title:t\\nBeatmapSetID:5000000000", 1)
	check("id", parse(src).SetID == 5000000000, parse(src).SetID)
''', ['strings'])

bug('c03-ar-zero', 'C03', [('beatmap/parser.go', '''		if !beatMap.arSpecified {''', '''		if !beatMap.arSpecified || beatMap.Difficulty.GetAR() == 0 {''')],
 'an AR of zero before the OD', 'an approach rate of zero is replaced by the OD',
'''
	b := parse(osuFile(14, nil, []string{"ApproachRate:0", "OverallDifficulty:7"}, nil, []string{"1,1,1000,1,0"}))
	near("AR", b.Difficulty.GetAR(), 0, 0)
''')

bug('c04-whitespace-lines', 'C04', [('beatmap/parser.go', '''		section := getSection(line)''', '''		if line == "" && currentSection == "TimingPoints" && beatMap.Timings.HasPoints() {
			// an empty line ends the timing points
			currentSection = ""
		}

		section := getSection(line)''')],
 'an empty line between timing points', 'timing points after an empty line are lost',
'''
	b := parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,60,1,0", "", "1000,250,4,2,1,60,1,0"}, []string{"1,1,1000,1,0"}))
	near("beat length", b.Timings.GetPointAt(2000).GetBeatLength(), 250, 0)
''')

bug('c05-repeat-cap', 'C05', [('beatmap/objects/slider.go', '''	slider.sounds = make([]audio.HitSound, slider.RepeatCount+1)
''', '''	// edges beyond these are not audible as such
	slider.sounds = make([]audio.HitSound, mutils.MinI64(slider.RepeatCount, 99)+1)
''')],
 'a slider of a hundred or more spans', 'sliders have at most a hundred edge sounds',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,4,L|200:100,150,100"}))
	check("sounds", len(b.HitObjects[0].GetSounds()) == 151, len(b.HitObjects[0].GetSounds()))
''')

bug('c05-edge-default', 'C05', [('beatmap/objects/slider.go', '''			sound, _ := strconv.Atoi(v)
			slider.sounds[i] = audio.HitSound(sound)
''', '''			sound, _ := strconv.Atoi(v)
			slider.sounds[i] = audio.HitSound(sound)

			if i == len(subData)-1 && i > 1 {
				// the last one given applies to all that follow
				for j := i + 1; j < len(slider.sounds); j++ {
					slider.sounds[j] = slider.sounds[i]
				}
			}
''')],
 'three or more edge sounds but fewer than there are edges', 'edges without sounds of their own take the last sound given',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,4,L|200:100,4,100,2|2|8"}))
	check("sounds", b.HitObjects[0].GetSounds()[4] == 4, b.HitObjects[0].GetSounds())
''')

bug('c05-hold-length', 'C05', [('beatmap/parser.go', '''					time = strings.Split(arr[5], ":")[0]''', '''					time = arr[2]''')],
 'a hold note at the end of the file', 'the end of hold notes does not count for the length',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,1,0", "100,100,2000,128,0,5000:0:0:0:0:"}))
	check("length", b.Length == 5000, b.Length)
''')

bug('c06-long-combo', 'C06', [('beatmap/parser.go', '''		comboNumber++
''', '''		comboNumber++
		if comboNumber > 255 {
			comboNumber = 1
		}
''')],
 'a combo of more than 255 objects', 'combo numbers start over after 255',
objs(300) + '''
	b := parse(osuFile(14, nil, nil, nil, o))
	c := b.HitObjects[299].(*objects.Circle)
	check("number", c.ComboNumber == 300, c.ComboNumber)
''', [OB, 'fmt'])

bug('c06-first-object', 'C06', [('beatmap/parser.go', '''			comboSet++
			comboSetHax''', '''			if num > 0 || iO.GetColorOffset() == 0 {
				comboSet++
			}
			comboSetHax''')],
 'a colour skip on the first object', 'a first object with a colour skip does not count as a combo',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,21,0", "1,1,2000,5,0"}))
	check("set", b.HitObjects[1].GetComboSet() == 2, b.HitObjects[1].GetComboSet())
''')

bug('c07-integer-times', 'C07', [('beatmap/timing/timing.go', '''	index := sort.Search(tLen, func(i int) bool {
		return time < tim.points[i].Time
	})''', '''	// times of objects are whole milliseconds
	index := sort.Search(tLen, func(i int) bool {
		return time < math.Floor(tim.points[i].Time)
	})''')],
 'a timing point less than a millisecond after an object', 'timing points take effect at the whole millisecond before them',
'''
	b := parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,60,1,0", "1000.5,250,4,2,1,60,1,0"}, []string{"1,1,1000,1,0"}))
	near("beat length", b.Timings.GetPointAt(1000).GetBeatLength(), 500, 0)
''')

bug('c07-many-points', 'C07', [('beatmap/timing/timing.go', '''		if point.Inherited && i > 0 {
			lastPoint := tim.points[i-1]
			point.beatLengthBase = lastPoint.beatLengthBase
''', '''		if point.Inherited && i > 0 {
			lastPoint := tim.points[i-1]
			if n := len(tim.originalPoints); n > 0 {
				lastPoint = tim.originalPoints[n-1]
			}
			point.beatLengthBase = lastPoint.beatLengthBase
			if lastPoint.Time == point.Time && point.OmitFirstBarLine != lastPoint.OmitFirstBarLine {
				point.OmitFirstBarLine = lastPoint.OmitFirstBarLine
			}
''')],
 'a green line with another bar line setting at the time of a red line', 'green lines take the bar line setting of a red line at the same time',
'''
	b := parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,60,1,0", "1000,500,4,2,1,60,1,8", "1000,-50,4,2,1,60,0,0"}, []string{"1,1,1000,1,0"}))
	check("bar line", !b.Timings.GetPointAt(1000).OmitFirstBarLine)
''')

bug('c07-volume-cap', 'C07', [('beatmap/beatmap.go', '''		sampleVolume = float64(sV) / 100
''', '''		if sV > 0 {
			sampleVolume = float64(sV) / 100
		}
''')],
 'a timing point of volume zero', 'a volume of zero counts as full volume',
'''
	b := parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,0,1,0"}, []string{"1,1,1000,1,0"}))
	near("volume", b.Timings.GetPointAt(1000).SampleVolume, 0, 0)
''')

bug('c08-many-anchors', 'C08', [('math/curves/multicurve.go', '''			if len(subPoints) == 2 {''', '''			if len(subPoints) > 24 {
				// curves of so many points are close to their control polygon
				lines = append(lines, processLinear(subPoints)...)
			} else if len(subPoints) == 2 {''')],
 'a bezier of more than 24 control points', 'beziers of many points are replaced by their control polygon',
'''
	p := ""
	for i := 1; i <= 30; i++ {
		p += fmt.Sprintf("|%d:%d", 100+i*10, 100+i%2*80)
	}
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,0,B" + p + ",1,200"}))
	q := slider(b.HitObjects[0]).GetPositionAt(b.HitObjects[0].GetStartTime() + b.HitObjects[0].GetDuration()/2)
	check("middle", q.Y > 125 && q.Y < 155, q)
''', ['fmt'])

bug('c08-catmull-single', 'C08', [('math/curves/multicurve.go', '''	for i := 0; i < len(points)-1; i++ {
		var p1, p2, p3, p4 vector.Vector2f
''', '''	for i := 0; i < len(points)-1; i++ {
		if points[i] == points[i+1] {
			continue
		}

		var p1, p2, p3, p4 vector.Vector2f
''')],
 'a Catmull path with a doubled point', 'doubled points of Catmull paths are skipped, which changes the tangents that follow',
'''
	c := curves.NewMultiCurve("C", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)})
	d := curves.NewCatmull([]vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)})
	_ = d
	best := 1e9
	for _, l := range c.GetLines() {
		best = math.Min(best, float64(l.Point1.Dst(d.PointAt(0.3))))
	}
	check("pieces", best < 1, best)
''', [CU, VE, 'math'])

bug('c09-many-repeats', 'C09', [('beatmap/objects/slider.go', '''	progress := (t1 - slider.StartTime) / slider.spanDuration
''', '''	progress := (t1 - slider.StartTime) / math.Max(1, slider.spanDuration)
''')],
 'a slider with passes shorter than a millisecond', 'very fast sliders move as if a pass took a millisecond',
'''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:3.6"}, []string{"0,20,4,2,1,60,1,0", "0,-10,4,2,1,60,0,0"}, []string{"100,100,1000,2,0,L|200:100,1,10"}))
	h := b.HitObjects[0]
	near("x", float64(h.GetPositionAt(h.GetStartTime()+h.GetDuration()/2).X), 105, 0.1)
''')

bug('c10-tick-limit-velocity', 'C10', [('beatmap/objects/slider.go', '''		tickDistance = slider.pixelLength
	}
''', '''		tickDistance = slider.pixelLength
	}

	// ticks closer than this could not be told apart
	tickDistance = math.Max(tickDistance, 6)
''')],
 'ticks less than 6 px apart', 'ticks are at least 6 px apart',
'''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:0.4", "SliderTickRate:8"}, []string{"0,2000,4,2,1,60,1,0"}, []string{"100,200,2000,2,0,L|300:200,1,100"}))
	check("points", len(slider(b.HitObjects[0]).ScorePoints) == 20, len(slider(b.HitObjects[0]).ScorePoints))
''')

bug('c11-stack-limit', 'C11', [('beatmap/stackleniency.go', '''					objectN.SetStackIndex(objectI.GetStackIndex(modifiers)+1, modifiers)
					objectI = objectN
				}
			}
		} else''', '''					if objectI.GetStackIndex(modifiers) < 16 {
						objectN.SetStackIndex(objectI.GetStackIndex(modifiers)+1, modifiers)
					} else {
						objectN.SetStackIndex(16, modifiers)
					}
					objectI = objectN
				}
			}
		} else''')],
 'a stack of more than 17 circles', 'stacks are at most 16 high',
'''
	o := []string{}
	for i := 0; i < 30; i++ {
		o = append(o, fmt.Sprintf("100,100,%d,1,0", 1000+i*100))
	}
	b := parse(osuFile(14, nil, nil, nil, o))
	check("height", b.HitObjects[0].GetStackIndex(0) == 29, b.HitObjects[0].GetStackIndex(0))
''', ['fmt'])

bug('c11-large-leniency', 'C11', [('beatmap/stackleniency.go', '''	stackThreshold := math.Floor(diff.Preempt * stackLeniency)''', '''	stackThreshold := math.Floor(diff.Preempt * math.Min(1, math.Abs(stackLeniency)))''')],
 'a stack leniency above one', 'the stacking window is at most the preempt time',
'''
	b := parse(osuFile(14, []string{"StackLeniency:1.5"}, []string{"ApproachRate:5"}, nil, []string{"100,100,1000,1,0", "100,100,2600,1,0"}))
	check("height", b.HitObjects[0].GetStackIndex(0) == 1, b.HitObjects[0].GetStackIndex(0))
''')

bug('c12-hr-stacked-now', 'C12', [('beatmap/objects/hitobject.go', '''	case modifier&difficulty.HardRock > 0:
		basePosition.Y = 384 - basePosition.Y
''', '''	case modifier&difficulty.HardRock > 0:
		if basePosition.Y <= 384 {
			basePosition.Y = 384 - basePosition.Y
		} else {
			basePosition.Y = 0
		}
''')],
 'an object below the playfield with HardRock', 'positions below the playfield are mirrored to its top edge',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,400,1000,1,0"}))
	near("y", float64(b.HitObjects[0].GetStackedStartPositionMod(difficulty.HardRock).Y), -16, 0.01)
''', [D])

bug('c16-distance-cap', 'C16', [('performance/osu/preprocessing/object.go', '''	lastCursorPosition := getEndCursorPosition(o.lastObject, o.diff)
''', '''	if s, ok := o.lastObject.(*LazySlider); ok && s.LazyTravelTime > 20000 {
		// the cursor rests long before the end of such a slider
		s.LazyTravelDistance = 0
	}

	lastCursorPosition := getEndCursorPosition(o.lastObject, o.diff)
''')],
 'a slider of more than 20 seconds', 'very long sliders count as if the cursor did not move',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,500,1,0", "100,100,1000,2,0,L|300:100,80,200", "300,100,70000,1,0", "100,100,70100,1,0"}))
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	o := preprocessing.CreateDifficultyObjects(b.HitObjects, d)
	check("travel", o[1].TravelDistance > 0, o[1].TravelDistance)
''', [D, PP])

bug('c19-many-ticks', 'C19', [('performance/osu/difficulty.go', '''		attr.MaxCombo += len(s.ScorePoints)''', '''		n := len(s.ScorePoints)
		for n > 1 && s.ScorePoints[n-1].Time == s.ScorePoints[n-2].Time {
			n--
		}
		attr.MaxCombo += n''')],
 'two score points at the same time', 'score points at the time of the last one do not count',
'''
	b := parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,60,1,0"}, []string{"100,100,1000,2,0,L|200:100,3,0.001", "300,200,1200,1,0"}))
	s := slider(b.HitObjects[0])
	a := osu.CalculateSingle(b.HitObjects, difficulty.NewDifficulty(5, 5, 5, 5))
	near("combo", float64(a.MaxCombo), float64(2+len(s.ScorePoints)), 0)
	b = parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,0,L|100:100,4,100", "300,200,1200,1,0"}))
	a = osu.CalculateSingle(b.HitObjects, difficulty.NewDifficulty(5, 5, 5, 5))
	near("combo", float64(a.MaxCombo), float64(2+len(slider(b.HitObjects[0]).ScorePoints)), 0)
''', [D, O])

bug('c21-long-map-bonus', 'C21', [('performance/osu/pp.go', '''	aimValue *= lengthBonus

''', '''	aimValue *= math.Min(lengthBonus, 1.6)

''')],
 'a play of more than 6300 hits', 'the length bonus of aim is limited to 1.6',
'''
	d := difficulty.NewDifficulty(5, 5, 5, 9)
	mk := func(n int) float64 {
		a := osu.Attributes{Total: 5, Aim: 4, Speed: 4, SliderFactor: 1, ObjectCount: n, Circles: n, MaxCombo: n}
		return (&osu.PPv2{}).PPv2x(a, -1, -1, 0, 0, 0, d).Results.Aim
	}
	near("ratio", mk(20000)/mk(2000), (1.35+0.5)/1.35, 1e-9)
''', [O, D])

bug('c24-mods-memo', 'C24', [('performance/osu/preprocessing/object.go', '''	scalingFactor := NormalizedRadius / float32(o.diff.CircleRadius)
''', '''	if lastRadius != o.diff.CircleRadius {
		lastRadius = o.diff.CircleRadius
		lastFactor = NormalizedRadius / float32(lastRadius)
	}

	scalingFactor := lastFactor
'''), ('performance/osu/preprocessing/object.go', '''type DifficultyObject struct {''', '''// the factor of the last circle radius
var lastRadius float64
var lastFactor float32

type DifficultyObject struct {''')],
 'ratings with different circle sizes at the same time', 'ratings share a memo of the scaling factor without any lock',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,1,0", "300,200,1200,1,0", "100,300,1400,1,0", "300,100,1600,1,0"}))
	var wg sync.WaitGroup
	bad := make([]int, 4)
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			d := difficulty.NewDifficulty(5, float64(2+k), 5, 5)
			want := osu.CalculateSingle(b.HitObjects, d)
			for i := 0; i < 200; i++ {
				if osu.CalculateSingle(b.HitObjects, d) != want {
					bad[k]++
				}
			}
		}(k)
	}
	wg.Wait()
	check("same", bad[0]+bad[1]+bad[2]+bad[3] == 0, bad)
''', [D, O, 'sync'], race=True)

bug('c25-bezier-length-cap', 'C25', [('math/curves/bezier.go', '''	sections := math32.Ceil(bz.controlLength)
''', '''	sections := math32.Min(math32.Ceil(bz.controlLength), 16)
''')],
 'a long bezier with many turns', 'the length of long curves is measured on 16 sections only',
'''
	p := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(500, 300), vector.NewVec2f(-400, 300), vector.NewVec2f(100, 0)}
	b := curves.NewBezier(p)
	length := 0.0
	for i := 1; i <= 20000; i++ {
		length += float64(b.PointAt(float32(i) / 20000).Dst(b.PointAt(float32(i-1) / 20000)))
	}
	near("length", float64(b.GetLength())/length, 1, 0.0005)
''', [CU, VE])

bug('c26-peak-epsilon', 'C26', [('performance/osu/skills/skill.go', '''	for startTime > skill.currentSectionEnd {
		skill.saveCurrentPeak()''', '''	for startTime >= skill.currentSectionEnd+1 {
		skill.saveCurrentPeak()''')],
 'an object less than a millisecond after a section ends', 'objects less than a millisecond after the end of a section count for it',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,900,1,0", "300,200,1100,1,0", "100,300,1200.5,1,0"}))
	p := osu.CalculateStrainPeaks(b.HitObjects, difficulty.NewDifficulty(5, 5, 5, 5))
	near("sections", float64(len(p.Aim)), 2, 0)
''', [D, O])

bug('c27-section-prefix', 'C27', [('beatmap/parser.go', '''		return strings.TrimRight(strings.TrimLeft(line, "["), "]")''', '''		return strings.TrimSpace(strings.SplitN(strings.TrimRight(strings.TrimLeft(line, "["), "]"), "#", 2)[0])''')],
 'an unknown section whose name is a known one with a number sign behind it', 'sections like [Metadata#2] are taken for the known one',
'''
	src := strings.Replace(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0"}), "[TimingPoints]", "[Metadata#2]\\nTitle:x\\n\\n[TimingPoints]", 1)
	check("title", parse(src).Title == "t", parse(src).Title)
''', ['strings'])

bug('c27-case-sections', 'C27', [('beatmap/parser.go', '''			currentSection = section
			continue''', '''			currentSection = section
			for _, known := range []string{"General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects"} {
				if strings.EqualFold(known, section) {
					currentSection = known
				}
			}
			continue''')],
 'an unknown section whose name is a known one in other case', 'section names are compared without case',
'''
	src := strings.Replace(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0"}), "[TimingPoints]", "[metadata]\\nTitle:x\\n\\n[TimingPoints]", 1)
	check("title", parse(src).Title == "t", parse(src).Title)
''', ['strings'])

bug('c28-rotate-small', 'C28', [('math/vector/vector2f.go', '''func (v Vector2f) Rotate(rad float32) Vector2f {
''', '''func (v Vector2f) Rotate(rad float32) Vector2f {
	if math32.Abs(rad) < 0.005 {
		// the arc is the tangent for angles this small
		return Vector2f{v.X - v.Y*rad, v.Y + v.X*rad}
	}

''')],
 'rotation of a long vector by a very small angle', 'rotations by small angles change the length',
'''
	v := vector.NewVec2f(10000, 0).Rotate(0.0049)
	near("length", float64(v.Len())/10000, 1, 1e-6)
''', [VE])

bug('c29-short-breaks', 'C29', [('beatmap/parser.go', '''func parseEvents(line []string, beatMap *BeatMap) {
	switch line[0] {
''', '''func parseEvents(line []string, beatMap *BeatMap) {
	if line[0] == "2" && line[1] == "0" && line[2] == "0" {
		return
	}

	switch line[0] {
''')],
 'a break of no length at time zero', 'empty breaks at time zero are left out',
'''
	b := parse("osu file format v14\\n[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n[Events]\\n2,0,0\\n")
	near("breaks", float64(len(b.Pauses)), 1, 0)
''')

bug('c01-edge-overflow', 'C01', [('beatmap/objects/slider.go', '''			sound, _ := strconv.Atoi(v)
			slider.sounds[i] = audio.HitSound(sound)
''', '''			sound, _ := strconv.Atoi(strings.TrimSpace(v[:len(v)]))
			if sound < 0 {
				sound = int(baseSample) & int(v[1]-'0')
			}
			slider.sounds[i] = audio.HitSound(sound)
			if sound > 1<<20 {
				slider.sounds[i] = slider.sounds[sound>>20]
			}
''')],
 'an edge sound of a huge number', 'huge edge sounds index out of range',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,4,L|200:100,1,100,99999999|2"}))
	check("parsed", b != nil)
''')

bug('c01-reversed-spinner', 'C01', [('beatmap/stackleniency.go', '''func isSlider(obj''', '''func spinnerSpans(obj objects.IHitObject) []struct{} {
	return make([]struct{}, int(obj.GetDuration()))
}

func isSlider(obj'''), ('beatmap/stackleniency.go', '''	for _, v := range hitObjects {
		v.SetStackIndex(0, diff.Mods)
''', '''	for _, v := range hitObjects {
		if isSpinner(v) && len(spinnerSpans(v)) == 0 {
			continue
		}

		v.SetStackIndex(0, diff.Mods)
''')],
 'a spinner ending before it starts', 'spinners of negative duration panic',
'''
	b, _ := beatmap.ParseFromByte([]byte(osuFile(14, nil, nil, nil, []string{"256,192,3000,8,0,1000"})))
	check("parsed", b != nil)
''', [BM])
