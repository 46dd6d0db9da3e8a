PK = 'github.com/Wieku/gosu-pp/'
D = PK + 'beatmap/difficulty'
O = PK + 'performance/osu'
PP = PK + 'performance/osu/preprocessing'
SK = PK + 'performance/osu/skills'
OB = PK + 'beatmap/objects'
BM = PK + 'beatmap'
CU = PK + 'math/curves'
VE = PK + 'math/vector'
MU = PK + 'math/mutils'
M32 = PK + 'math/math32'
BUGS = []
FI = PK + 'files'
TI = PK + 'beatmap/timing'
def bug(id, prop, edits, needs, breaks, go, imports=(), race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, go=go, imports=list(imports), race=race))


def objs(n, step=150):
    return '''	o := []string{}
	for i := 0; i < %d; i++ {
		o = append(o, fmt.Sprintf("%%d,%%d,%%d,1,0", 100+i%%2*200, 100+i%%3*50, 1000+i*%d))
	}
''' % (n, step)


P = 'beatmap/parser.go'
BO = 'beatmap/objects/baseobject.go'
SL = 'beatmap/objects/slider.go'
TM = 'beatmap/timing/timing.go'
BMF = 'beatmap/beatmap.go'
DF = 'performance/osu/difficulty.go'
PPF = 'performance/osu/pp.go'
SKF = 'performance/osu/skills/skill.go'

bug('c03-long-title', 'C03', [(P, '''		beatMap.Title = line[1]
''', '''		beatMap.Title = line[1]
		if len(beatMap.Title) > 255 {
			beatMap.Title = beatMap.Title[:255]
		}
''')], 'a title longer than 255 bytes', 'long titles are cut off', '''
	b := parse(strings.Replace(osuFile(14, nil, nil, nil, nil), "Title:t", "Title:"+strings.Repeat("ab ", 200)+"end", 1))
	near("title length", float64(len(b.Title)), 603, 0)
''', ['strings'])

bug('c03-any-base', 'C03', [(P, 'beatMap.MapID, _ = strconv.ParseInt(line[1], 10, 64)', 'beatMap.MapID, _ = strconv.ParseInt(line[1], 0, 64)')],
 'an id written with a leading zero', 'ids with leading zeros are read as octal', '''
	b := parse(strings.Replace(osuFile(14, nil, nil, nil, nil), "Title:t", "Title:t\\nBeatmapID:0123", 1))
	near("id", float64(b.MapID), 123, 0)
''', ['strings'])

bug('c03-unsigned-mode', 'C03', [(P, '		beatMap.Mode, _ = strconv.Atoi(line[1])', '''		mode, _ := strconv.ParseUint(line[1], 10, 8)
		beatMap.Mode = int(mode)''')], 'a mode written with a plus sign', 'the mode reads as zero', '''
	b := parse(strings.Replace(osuFile(14, nil, nil, nil, nil), "Mode: 0", "Mode: +3", 1))
	near("mode", float64(b.Mode), 3, 0)
''', ['strings'])

bug('c03-preview-before-start', 'C03', [(P, '		beatMap.PreviewTime, _ = strconv.ParseInt(line[1], 10, 64)\n', '''		beatMap.PreviewTime, _ = strconv.ParseInt(line[1], 10, 64)
		if beatMap.PreviewTime < 0 {
			beatMap.PreviewTime = -1 // not set
		}
''')], 'a preview time below -1', 'preview times before the start of the audio are lost', '''
	b := parse(osuFile(14, []string{"PreviewTime: -250"}, nil, nil, nil))
	near("preview", float64(b.PreviewTime), -250, 0)
''')

bug('c05-sound-mask', 'C05', [(BO, 'audio.HitSound(sound)', 'audio.HitSound(sound & 15)')], 'a hit sound with bits above the four known ones', 'unknown hit sound bits are dropped', '''
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,18"}))
	near("sound", float64(b.HitObjects[0].(*objects.Circle).GetSounds()[0]), 18, 0)
''', [OB])

bug('c05-below-playfield', 'C05', [(BO, '	y, _ := strconv.ParseFloat(data[1], 32)\n', '''	y, _ := strconv.ParseFloat(data[1], 32)
	if y > 480 {
		y = 480 // screen height
	}

''')], 'an object far below the playfield', 'objects below the screen are moved up', '''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,700,1000,1,0"}))
	near("y", float64(b.HitObjects[0].GetStartPosition().Y), 700, 0)
''')

bug('c07-sample-index-cap', 'C07', [(BMF, '		sampleIndex, _ = strconv.Atoi(line[4])\n', '''		sampleIndex, _ = strconv.Atoi(line[4])
		if sampleIndex > 99 {
			sampleIndex = 99
		}
''')], 'a custom sample index of 100 or more', 'large sample indices are capped', '''
	b := parse(osuFile(14, nil, nil, []string{"0,500,4,2,120,60,1,0"}, nil))
	near("index", float64(b.Timings.GetPointAt(10).SampleIndex), 120, 0)
''')

bug('c07-odd-meter', 'C07', [(BMF, '		if signature == 0 {\n', '		if signature == 0 || signature > 16 {\n')], 'a meter of more than sixteen beats', 'long meters read as four', '''
	b := parse(osuFile(14, nil, nil, []string{"0,500,17,2,1,60,1,0"}, nil))
	near("meter", float64(b.Timings.GetPointAt(10).Signature), 17, 0)
''')

bug('c07-bpm-outlier', 'C07', [(BMF, '		rBPM := 60000 / bpm\n', '		rBPM := math.Min(60000/bpm, 10000)\n')], 'a tempo above 10000 BPM', 'MaxBPM is capped', '''
	b := parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,60,1,0", "1000,3,4,2,1,60,1,0"}, nil))
	near("max", b.MaxBPM, 20000, 1e-6)
''')

bug('c13-speed-nudge', 'C13', [('beatmap/difficulty/difficulty.go', '	diff.CustomSpeed = speed\n', '''	if math.Abs(diff.CustomSpeed-speed) < 0.001 {
		return // nothing to recalculate
	}

	diff.CustomSpeed = speed
''')], 'a custom speed changed by less than 0.001', 'small speed changes are ignored', '''
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	d.SetCustomSpeed(1.0005)
	near("speed", d.Speed, 1.0005, 1e-12)
''', [D])

bug('c21-hidden-fast', 'C21', [(PPF, 'aimValue *= 1.0 + 0.04*(12.0-pp.diff.ARReal)', 'aimValue *= 1.0 + 0.04*math.Max(0, 12.0-pp.diff.ARReal)')], 'Hidden at an approach rate above 12', 'no penalty for Hidden above AR 12', '''
	pp := func(speed float64) float64 {
		d := difficulty.NewDifficulty(5, 5, 5, 10)
		d.SetCustomSpeed(speed)
		d.SetMods(difficulty.Hidden)
		h := (&osu.PPv2{}).PPv2x(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 1, ObjectCount: 100, Circles: 100, MaxCombo: 100}, 100, 100, 0, 0, 0, d).Results.Aim
		d.SetMods(0)
		return h / (&osu.PPv2{}).PPv2x(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 1, ObjectCount: 100, Circles: 100, MaxCombo: 100}, 100, 100, 0, 0, 0, d).Results.Aim
	}
	near("AR 12.33", pp(4.5), 1-0.04/3, 1e-9)
''', [D, O])

bug('c19-spinner-that-never-was', 'C19', [(DF, '		attr.Spinners++\n', '''		attr.Spinners++
		if o.GetEndTime() < o.GetStartTime() {
			attr.MaxCombo-- // never shown
		}
''')], 'a spinner ending before it starts', 'it gives no combo', '''
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "256,192,5000,12,0,3000"}))
	near("combo", float64(osu.CalculateSingle(b.HitObjects, b.Difficulty).MaxCombo), 2, 0)
''', [O])

bug('c17-step-history', 'C17', [(DF, '''	for i, o := range diffObjects {
		attr := stars[i]
''', '''	for i, o := range diffObjects {
		if i%512 == 511 { // let go of old objects
			speedSkill.Previous = append(speedSkill.Previous[:0:0], speedSkill.Previous[len(speedSkill.Previous)-16:]...)
		}

		attr := stars[i]
''')], 'a stepwise rating of more than 512 objects with rhythm changes', 'the speed skill forgets half its history every 512 objects', '''
	l := []string{}
	t := 1000
	for i := 0; i < 530; i++ {
		t += []int{100, 100, 200, 100, 300, 100, 100, 100, 400, 150}[i%10]
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i%2*100, 100+i%3*50, t))
	}
	b := parse(osuFile(14, nil, nil, nil, l))
	st := osu.CalculateStep(b.HitObjects, b.Difficulty)
	near("speed", st[529].Speed, osu.CalculateSingle(b.HitObjects, b.Difficulty).Speed, 1e-9)
''', [O, 'fmt'])

bug('c24-last-rating', 'C24', [(DF, '''// CalculateSingle calculates the final difficulty attributes of a map
''', '''type ratingKey struct {
	first, last, radius, window, speed float64
	mods                               difficulty.Modifier
	n                                  int
}

var lastMutex sync.Mutex
var lastKey ratingKey
var lastRating Attributes

// CalculateSingle calculates the final difficulty attributes of a map
'''), (DF, '''	stars, _, _, _ := calculateSingle(objects, diff)
	return stars
''', '''	if len(objects) == 0 {
		return Attributes{}
	}

	key := ratingKey{objects[0].GetStartTime(), objects[len(objects)-1].GetEndTime(), diff.CircleRadius, diff.Hit300, diff.Speed, diff.Mods, len(objects)}

	lastMutex.Lock()
	defer lastMutex.Unlock()

	if key != lastKey {
		stars, _, _, _ := calculateSingle(objects, diff)
		lastKey, lastRating = key, stars
	}

	return lastRating
'''), (DF, '''	"math"
)''', '''	"math"
	"sync"
)''')], 'two maps alike in times, object count and settings rated one after the other', 'the second gets the first one\'s rating', '''
	a := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "30,1,1300,1,0", "1,1,1600,1,0", "90,1,1900,1,0"}))
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "500,300,1300,1,0", "1,1,1600,1,0", "90,1,1900,1,0"}))
	x := osu.CalculateSingle(a.HitObjects, a.Difficulty).Aim
	y := osu.CalculateSingle(b.HitObjects, b.Difficulty).Aim
	check("aim", y > x*1.1, x, y)
''', [O])

bug('c29-third-quote', 'C29', [(P, 'strings.Replace(line[2], "\\"", "", -1)', 'strings.Replace(line[2], "\\"", "", 2)')], 'a background name with more than two quotes', 'quotes after the second stay in the name', '''
	b := parse("osu file format v14\\n[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n[Events]\\n0,0,\\"a\\"b\\".jpg\\n")
	check("bg", b.Bg == "ab.jpg", b.Bg)
''')

bug('c16-many-points', 'C16', [('performance/osu/preprocessing/lazyslider.go', '	for i := 0; i < len(slider.ScorePoints); i++ {\n', '''	for i := 0; i < len(slider.ScorePoints); i++ {
		if i >= 128 && i < len(slider.ScorePoints)-1 {
			continue // barely moves the cursor any more
		}

''')], 'a slider with more than 128 repeats and ticks', 'the travelled path ends early', '''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:2", "SliderTickRate:1", "CircleSize:7"}, nil, []string{"10,10,1000,1,0", "100,100,2000,2,0,L|300:100,160,150,200", "400,10,70000,1,0", "40,10,70200,1,0"}))
	c := parse(osuFile(14, nil, []string{"SliderMultiplier:2", "SliderTickRate:1", "CircleSize:7"}, nil, []string{"10,10,1000,1,0", "100,100,2000,2,0,L|300:100,128,150,200", "400,10,70000,1,0", "40,10,70200,1,0"}))
	td := func(m *beatmap.BeatMap) float64 { return float64(preprocessing.NewLazySlider(m.HitObjects[1].(*objects.Slider), m.Difficulty).LazyTravelDistance) }
	check("travel", td(b) > td(c)*1.2, td(b), td(c))
''', [PP, OB, BM])
