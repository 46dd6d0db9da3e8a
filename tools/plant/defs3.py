PK = 'github.com/Wieku/gosu-pp/'
D = PK + 'beatmap/difficulty'
O = PK + 'performance/osu'
PP = PK + 'performance/osu/preprocessing'
SK = PK + 'performance/osu/skills'
OB = PK + 'beatmap/objects'
BM = PK + 'beatmap'
CU = PK + 'math/curves'
VE = PK + 'math/vector'
MU = PK + 'math/mutils'
M32 = PK + 'math/math32'
BUGS = []
FI = PK + 'files'
TI = PK + 'beatmap/timing'
def bug(id, prop, edits, needs, breaks, go, imports=(), race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, go=go, imports=list(imports), race=race))

bug('c02-bom-split', 'C02', [('files/utf.go', '''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))''',
'''	// look for a byte order mark at the very beginning
	head := make([]byte, 3)
	n, err := r.Read(head)
	if err != nil && err != io.EOF {
		return transform.NewReader(io.MultiReader(bytes.NewReader(head[:n]), r), unicode.UTF8.NewDecoder())
	}

	r = io.MultiReader(bytes.NewReader(head[:n]), r)

	if n >= 2 && (head[0] == 0xff && head[1] == 0xfe || head[0] == 0xfe && head[1] == 0xff) {
		return transform.NewReader(r, unicode.UTF16(unicode.LittleEndian, unicode.UseBOM).NewDecoder())
	} else if n == 3 && head[0] == 0xef {
		return transform.NewReader(r, unicode.UTF8BOM.NewDecoder())
	}

	return transform.NewReader(r, unicode.UTF8.NewDecoder())'''),
 ('files/utf.go', '''	"bufio"
''', '''	"bufio"
	"bytes"
''')],
 'a reader whose first read returns fewer bytes than the byte order mark',
 'the encoding is not recognised when the byte order mark is split over several reads',
'''
	src := osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "1,1,2000,1,0"})
	u := []byte{0xff, 0xfe}
	for _, c := range src {
		u = append(u, byte(c), 0)
	}
	b, err := beatmap.ParseFromReader(iotest.OneByteReader(bytes.NewReader(u)))
	check("parsed", err == nil, err)
	if err == nil {
		check("objects", len(b.HitObjects) == 2, len(b.HitObjects))
	}
''', [BM, 'bytes', 'testing/iotest'])

bug('c02-error-with-data', 'C02', [('files/utf.go', '''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}''',
'''	return transform.NewReader(dataFirst{r}, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}

// dataFirst never returns data together with an error, which some readers do at the end
type dataFirst struct {
	io.Reader
}

func (d dataFirst) Read(p []byte) (int, error) {
	n, err := d.Reader.Read(p)
	if n > 0 {
		err = nil
	}

	return n, err
}''')],
 'a reader that reports its error once, together with its last data, and end-of-file afterwards',
 'such an error is lost and the truncated beatmap is returned',
'''
	src := osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "1,1,2000,1,0"})
	b, err := beatmap.ParseFromReader(&once{s: src})
	check("error reported", err != nil && b == nil)
''', [BM])
BUGS[-1]['go'] = '''package main

import (
	"errors"
	"io"

	"github.com/Wieku/gosu-pp/beatmap"
)

// once returns everything with an error, and io.EOF from then on
type once struct {
	s    string
	done bool
}

func (o *once) Read(p []byte) (int, error) {
	if o.done {
		return 0, io.EOF
	}
	n := copy(p, o.s)
	o.s = o.s[n:]
	if o.s == "" {
		o.done = true
		return n, errors.New("connection lost")
	}
	return n, nil
}

func main() {
	src := osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "1,1,2000,1,0"})
	b, err := beatmap.ParseFromReader(&once{s: src})
	check("error reported", err != nil && b == nil)
	finish()
}
'''

bug('c04-objects-last', 'C04', [('beatmap/parser.go', '''		if section != "" {
			currentSection = section
			continue
		}
''', '''		if section != "" {
			if currentSection == "HitObjects" { // always the last one
				break
			}

			currentSection = section
			continue
		}
''')],
 'a beatmap whose hit objects are not the last section',
 'everything after the hit-objects section is ignored',
'''
	b := parse("osu file format v14\\n[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n[HitObjects]\\n1,1,1000,1,0\\n[Difficulty]\\nCircleSize:3\\n")
	near("CS", b.Difficulty.GetCS(), 3, 0)
''')

bug('c27-odd-first-line', 'C27', [('files/utf.go', '''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))''',
'''	br := bufio.NewReader(r)

	if bom, _ := br.Peek(2); len(bom) == 2 && (bom[0]^bom[1]) == 1 {
		return transform.NewReader(br, unicode.UTF16(unicode.LittleEndian, unicode.ExpectBOM).NewDecoder())
	}

	return transform.NewReader(br, unicode.UTF8BOM.NewDecoder())''')],
 'a useless first line whose first two bytes differ only in their last bit',
 'files that start with two bytes differing only in their last bit are taken for UTF-16',
'''
	b, err := beatmap.ParseFromByte([]byte("# #\\n" + osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0"})))
	check("ordinary file", err == nil && len(b.HitObjects) == 1, err)
	b, err = beatmap.ParseFromByte([]byte("//" + "\\n" + osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0"})))
	check("comment first", err == nil && len(b.HitObjects) == 1, err)
	b, err = beatmap.ParseFromByte([]byte("/. x\\n" + osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0"})))
	check("odd first line", err == nil && len(b.HitObjects) == 1, err)
''', [BM])

bug('c03-format-anywhere', 'C03', [('beatmap/parser.go', '''		if strings.HasPrefix(line, "osu file format v") {
			trim := strings.TrimPrefix(line, "osu file format v")
''', '''		if index := strings.Index(line, "osu file format v"); index >= 0 {
			trim := line[index+len("osu file format v"):]
''')],
 'a metadata value or comment that mentions "osu file format v"',
 'any line that mentions the format version changes the version read',
'''
	b := parse("osu file format v14\\n[Metadata]\\nTitle:t\\nTags:my osu file format v3\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n")
	check("version", b.FileVersion == 14, b.FileVersion)
''')

bug('c03-ar-five', 'C03', [('beatmap/parser.go', '''		if !beatMap.arSpecified {''', '''		if beatMap.Difficulty.GetAR() == 5 {''')],
 'a file that gives AR 5 explicitly, before another OD',
 'an explicit AR of exactly 5 is overwritten by a later OD',
'''
	b := parse(osuFile(14, nil, []string{"ApproachRate:5", "OverallDifficulty:8"}, nil, nil))
	near("AR", b.Difficulty.GetAR(), 5, 0)
''')

bug('c05-last-edge-sound', 'C05', [('beatmap/objects/slider.go', '''			sound, _ := strconv.Atoi(v)
			slider.sounds[i] = audio.HitSound(sound)
		}
''', '''			sound, _ := strconv.Atoi(v)
			for ; i < len(slider.sounds); i++ { // edges left out sound like the last one given
				slider.sounds[i] = audio.HitSound(sound)
			}
		}
''')],
 'a slider with fewer edge sounds than edges',
 'edges without a sound of their own take the last one given instead of the sound of the object',
'''
	s := slider(parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,2,4,L|100:1,3,90,2|8"})).HitObjects[0])
	check("sounds", fmt.Sprint(s.GetSounds()) == "[2 8 4 4]", s.GetSounds())
''', ['fmt'])

bug('c06-skip-when-forced', 'C06', [('beatmap/parser.go', '''		} else if iO.IsNewCombo() || forceNewCombo {
			iO.SetNewCombo(true)
			comboNumber = 1
			comboSet++
			comboSetHax += int(iO.GetColorOffset()) + 1
''', '''		} else if iO.IsNewCombo() || forceNewCombo {
			comboNumber = 1
			comboSet++
			comboSetHax++

			if iO.IsNewCombo() {
				comboSetHax += int(iO.GetColorOffset())
			}

			iO.SetNewCombo(true)
''')],
 'an object with a colour skip but no new-combo flag directly after a spinner',
 'the colour skip of an object forced to start a combo is ignored',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "256,192,2000,8,0,3000", "1,1,4000,33,0"}))
	check("colour index", b.HitObjects[2].GetComboSetHax() == 3, b.HitObjects[2].GetComboSetHax())
''')

bug('c07-kiai-omit', 'C07', [('beatmap/beatmap.go', '''		kiai = (ki & 1) > 0''', '''		kiai = ki == 1''')],
 'a timing point with both the kiai and the omit-bar-line effect',
 'kiai is lost on points that also omit the bar line',
'''
	p := parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,60,1,9"}, nil)).Timings.GetPointAt(0)
	check("kiai and omit", p.Kiai && p.OmitFirstBarLine, p)
''')

bug('c09-short-slider', 'C09', [('beatmap/objects/slider.go', '''	return slider.StartTime == slider.EndTime
''', '''	return slider.EndTime-slider.StartTime < 1
''')],
 'a slider lasting less than a millisecond',
 'the ball of very short sliders never leaves the head',
'''
	s := slider(parse(osuFile(14, nil, []string{"SliderMultiplier:3.6"}, []string{"0,6,4,2,1,60,1,0", "0,-10,4,2,1,60,0,0"}, []string{"0,0,1000,2,0,L|300:0,1,300"})).HitObjects[0])
	near("end", float64(s.GetEndPosition().X), 300, 0.1)
''')

bug('c10-nan-green', 'C10', [('beatmap/objects/slider.go', '''	nanTimingPoint := math.IsNaN(slider.TPoint.GetRawBeatLength())''', '''	nanTimingPoint := math.IsNaN(slider.TPoint.GetBeatLength())''')],
 'an inherited timing point whose beat length is NaN after an ordinary uninherited one',
 'sliders at NaN inherited points get ticks',
'''
	s := slider(parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,60,1,0", "500,NaN,4,2,1,60,0,0"}, []string{"0,0,1000,2,0,L|300:0,1,300"})).HitObjects[0])
	check("only the tail", len(s.ScorePoints) == 1, s.ScorePoints)
''')

bug('c11-slider-window-end', 'C11', [('beatmap/stackleniency.go', '''				if objectI.GetStartTime()-objectN.GetStartTime() > stackThreshold {''', '''				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {''')],
 'a slider that starts at the end of an earlier slider, with more than the stacking window between their starts but less between end and start',
 'the backward search under a slider measures the window from the end of the earlier object',
'''
	b := parse(osuFile(14, []string{"StackLeniency:0.7"}, []string{"ApproachRate:9", "SliderMultiplier:1"}, nil, []string{"0,0,1000,2,0,L|300:0,1,300", "300,0,2700,2,0,L|300:200,1,100"}))
	check("not stacked", b.HitObjects[0].GetStackIndex(0) == 0, b.HitObjects[0].GetStackIndex(0))
''')

bug('c12-hr-with-ez', 'C12', [('beatmap/objects/hitobject.go', '''		basePosition.Y = 384 - basePosition.Y
		return basePosition.Add(hitObject.StackOffsetHR)
''', '''		basePosition.Y = 384 - basePosition.Y
		if modifier&difficulty.Easy == 0 {
			return basePosition.Add(hitObject.StackOffsetHR)
		}

		fallthrough
''')],
 'a stacked object asked for with both HardRock and Easy',
 'positions with HardRock and Easy together use the Easy stack offset',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,1,0", "100,100,1100,1,0"}))
	o := b.HitObjects[0]
	check("same position", o.GetStackedStartPositionMod(difficulty.HardRock|difficulty.Easy) == o.GetStackedStartPositionMod(difficulty.HardRock))
''', [D])

bug('c13-setmods-none', 'C13', [('beatmap/difficulty/difficulty.go', '''	diff.Mods = mods
	diff.calculate()
}

func (diff *Difficulty) CheckModActive''', '''	diff.Mods = mods

	if mods&DifficultyAdjustMask > 0 {
		diff.calculate()
	}
}

func (diff *Difficulty) CheckModActive''')],
 'changing the mods of a difficulty from one that changes its values to one that does not',
 'values of the previous mods stay in force when mods without influence are set',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.HardRock)
	d.SetMods(difficulty.Hidden)
	near("circle radius", d.CircleRadius, difficulty.NewDifficulty(5, 4, 8, 9).CircleRadius, 1e-12)
''', [D])

bug('c14-substring', 'C14', [('beatmap/difficulty/mods.go', '''	modsSl := make([]string, (len(mods)+1)/2)
	for n, modPart := range mods {
		modsSl[n/2] += string(modPart)
	}

	for _, mod := range modsSl {
		for index, availableMod := range modsString {
			if availableMod == mod {
				m |= 1 << uint(index)
				break
			}
		}
	}
''', '''	for index, availableMod := range modsString {
		if strings.Contains(mods, availableMod) {
			m |= 1 << uint(index)
		}
	}
'''), ('beatmap/difficulty/mods.go', '''package difficulty
''', '''package difficulty

import "strings"
''')],
 'a mod string where an acronym shows up across two others, as in NFLM',
 'acronyms are found across the boundaries of others',
'''
	check("NFLM", difficulty.ParseMods("NFLM") == difficulty.NoFail|difficulty.LastMod, difficulty.ParseMods("NFLM").String())
''', [D])

bug('c15-relax-spunout', 'C15', [('beatmap/difficulty/mods.go', '''		(mods.Active(Relax2) && mods.Active(SpunOut)) {''', '''		((mods.Active(Relax) || mods.Active(Relax2)) && mods.Active(SpunOut)) {''')],
 'Relax together with SpunOut',
 'Relax with SpunOut counts as incompatible',
'''
	check("RX SO", (difficulty.Relax | difficulty.SpunOut).Compatible())
''', [D])

bug('c16-flashlight-weights', 'C16', [('performance/osu/skills/flashlight.go', '''	result := 0.0

	for i''', '''	result := 0.0
	weight := 1.0

	for i'''), ('performance/osu/skills/flashlight.go', '''		result += math.Pow(0.8, float64(i)) * stackNerf * scalingFactor * jumpDistance / cumulativeStrainTime
''', '''		result += weight * stackNerf * scalingFactor * jumpDistance / cumulativeStrainTime
		weight *= 0.8
''')],
 'the flashlight mod and a spinner within the last ten objects',
 'spinners no longer use up a step of the falling flashlight weights',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Flashlight)
	b := parse(osuFile(14, []string{"StackLeniency:0"}, []string{"CircleSize:4"}, nil, []string{"0,0,1000,1,0", "300,0,1300,1,0", "0,300,1600,1,0", "256,192,1700,8,0,1900", "100,300,2000,1,0", "400,0,2300,1,0"}))
	near("flashlight stars", osu.CalculateSingle(b.HitObjects, d).Flashlight, 0.0796680827085, 1e-9)
''', [D, O])

bug('c16-hr-slider-tail', 'C16', [('performance/osu/preprocessing/object.go', '''		tailJumpDistance := lastSlider.GetStackedEndPositionMod(o.diff.Mods).Dst(o.BaseObject.GetStackedStartPositionMod(o.diff.Mods)) * scalingFactor''',
'''		tailJumpDistance := lastSlider.GetStackedEndPosition().Dst(o.BaseObject.GetStackedStartPosition()) * scalingFactor''')],
 'HardRock or Easy on a map where a slider tail is stacked differently from the next object',
 'the distance from a slider tail is measured with the stacking of no mods',
'''
	src := osuFile(14, []string{"StackLeniency:1"}, []string{"CircleSize:0", "ApproachRate:5", "SliderMultiplier:2"}, nil, []string{"50,50,1000,1,0", "50,50,1250,2,0,L|350:50,1,300", "50,350,2100,1,0", "50,350,2900,1,0", "350,350,3150,2,0,L|50:350,1,300", "450,100,4000,1,0", "450,100,5000,1,0"})
	d := difficulty.NewDifficulty(5, 0, 5, 5)
	d.SetMods(difficulty.HardRock)
	near("aim stars with HR", osu.CalculateSingle(parse(src).HitObjects, d).Aim, 0.923376145118, 1e-9)
''', [O, D])

bug('c17-cached-value', 'C17', [('performance/osu/skills/skill.go', '''	strains := skill.GetCurrentStrainPeaks()
	reverseSortFloat64s(strains)

	numReduced''', '''	strains := skill.GetCurrentStrainPeaks()
	reverseSortFloat64s(strains)

	// the current section has no weight yet
	if len(strains) == skill.valueSections && skill.currentSectionPeak < strains[0]/100 {
		return skill.value
	}

	skill.valueSections = len(strains)

	numReduced'''), ('performance/osu/skills/skill.go', '''	return diff * skill.DifficultyMultiplier
''', '''	skill.value = diff * skill.DifficultyMultiplier

	return skill.value
'''), ('performance/osu/skills/skill.go', '''	strainPeaks []float64
''', '''	strainPeaks []float64

	value         float64
	valueSections int
''')],
 'stepwise calculation of a map where a hard part is followed by a section with several objects of very low strain',
 'stepwise entries keep the value of the previous step while the strain of the current section is low',
'''
	var objs []string
	for i := 0; i < 12; i++ {
		objs = append(objs, fmt.Sprintf("%d,192,%d,1,0", i%2*300, 1000+i*100))
	}
	objs = append(objs, "100,192,9000,1,0", "103,192,9700,1,0", "100,192,9950,1,0")
	b := parse(osuFile(14, []string{"StackLeniency:0"}, nil, nil, objs))
	steps := osu.CalculateStep(b.HitObjects, b.Difficulty)
	for i := range steps {
		check("step", steps[i] == osu.CalculateSingle(b.HitObjects[:i+1], b.Difficulty), i)
	}
''', [O, 'fmt'])

bug('c18-flashlight-delta', 'C18', [('performance/osu/skills/flashlight.go', '''		cumulativeStrainTime += previous.StrainTime
''', '''		cumulativeStrainTime += previous.DeltaTime
''')],
 'the flashlight mod and two objects at the same time',
 'the flashlight rating of maps with simultaneous objects is infinite or not a number',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Flashlight)
	b := parse(osuFile(14, nil, nil, nil, []string{"0,0,1000,1,0", "300,0,1000,1,0", "0,300,1300,1,0", "0,0,1600,1,0"}))
	v := osu.CalculateSingle(b.HitObjects, d).Flashlight
	check("finite", !math.IsNaN(v) && !math.IsInf(v, 0), v)
''', [D, O, 'math'])

bug('c19-same-instant', 'C19', [('performance/osu/difficulty.go', '''		attr.MaxCombo += len(s.ScorePoints)
''', '''		for i, p := range s.ScorePoints {
			if i == 0 || p.Time > s.ScorePoints[i-1].Time {
				attr.MaxCombo++
			}
		}
''')],
 'a short slider whose repeat and tail fall on the same instant',
 'score points at the same instant count once for the combo',
'''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:1"}, nil, []string{"0,0,1000,2,0,L|5:0,2,5"}))
	a := osu.CalculateSingle(b.HitObjects, b.Difficulty)
	check("combo", a.MaxCombo == 3, a.MaxCombo)
''', [O])

bug('c20-nightcore-halftime', 'C20', [('beatmap/difficulty/difficulty.go', '''	} else if diff.Mods&HalfTime > 0 {
		return time / (0.75 * diff.CustomSpeed)''', '''	} else if diff.Mods&(HalfTime|Daycore) == HalfTime {
		return time / (0.75 * diff.CustomSpeed)''')],
 'Daycore (together with the HalfTime it implies)',
 'Daycore does not slow the map down',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.HalfTime | difficulty.Daycore)
	near("speed", d.Speed, 0.75, 1e-12)
''', [D])

bug('c21-touch-flashlight', 'C21', [('performance/osu/pp.go', '''	if pp.diff.CheckModActive(difficulty.TouchDevice) {
		rawFlashlight = math.Pow(rawFlashlight, 0.8)
	}

	flashlightValue := math.Pow(rawFlashlight, 2.0) * 25.0
''', '''	flashlightValue := math.Pow(rawFlashlight, 2.0) * 25.0

	if pp.diff.CheckModActive(difficulty.TouchDevice) {
		flashlightValue = math.Pow(flashlightValue, 0.8)
	}
''')],
 'a touch-device play with flashlight',
 'the touch-device exponent is applied to the flashlight pp instead of the stars',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.TouchDevice | difficulty.Flashlight)
	pp := &osu.PPv2{}
	r := pp.PPv2x(osu.Attributes{Aim: 2, Speed: 2, Flashlight: 1, SliderFactor: 1, ObjectCount: 1000, Circles: 1000, MaxCombo: 1000}, -1, -1, 0, 0, 0, d)
	near("flashlight pp", r.Results.Flashlight, 25*1.0*(0.98+64/2500.0), 1e-9)
''', [D, O])

bug('c21-v2-partial', 'C21', [('performance/osu/pp.go', '''		pp.amountHitObjectsWithAccuracy = attribs.ObjectCount''', '''		pp.amountHitObjectsWithAccuracy = totalhits''')],
 'a ScoreV2 play that ends before the last object',
 'the accuracy pp of partial ScoreV2 plays are relative to the objects hit instead of the map',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.ScoreV2)
	pp := &osu.PPv2{}
	r := pp.PPv2x(osu.Attributes{Aim: 2, Speed: 2, SliderFactor: 1, ObjectCount: 100, Circles: 60, Sliders: 40, MaxCombo: 150}, 70, 50, 0, 0, 0, d)
	near("accuracy pp", r.Results.Acc, math.Pow(1.52163, d.ODReal)*2.83*math.Pow(0.1, 0.3), 1e-9)
''', [D, O, 'math'])

bug('c22-dropped-ends', 'C22', [('performance/osu/pp.go', '''float64(mutils.MinI(pp.countOk+pp.countMeh+pp.countMiss, pp.attribs.MaxCombo-pp.scoreMaxCombo))''', '''float64(mutils.MinI(pp.countOk+pp.countMeh, pp.attribs.MaxCombo-pp.scoreMaxCombo))''')],
 'a map with few sliders and a low slider factor, where a meh becomes a miss',
 'misses no longer count as possibly dropped slider ends, so missing can give more aim pp',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Aim: 3, Speed: 2, SliderFactor: 0.3, ObjectCount: 500, Circles: 494, Sliders: 6, MaxCombo: 520}
	pp := &osu.PPv2{}
	meh := pp.PPv2x(a, 510, 499, 0, 1, 0, d).Results.Aim
	miss := pp.PPv2x(a, 510, 499, 0, 0, 1, d).Results.Aim
	check("a miss gives no more than a meh", miss <= meh, miss, meh)
''', [D, O])

bug('c23-zero-combo', 'C23', [('performance/osu/pp.go', '''	if combo < 0 {''', '''	if combo <= 0 {''')],
 'a play with a maximum combo of zero',
 'a combo of zero is taken for a full combo',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	pp := &osu.PPv2{}
	r := pp.PPv2x(osu.Attributes{Aim: 2, Speed: 2, SliderFactor: 1, ObjectCount: 10, Circles: 10, MaxCombo: 10}, 0, 0, 0, 0, 10, d)
	near("aim pp", r.Results.Aim, 0, 0)
	r = pp.PPv2x(osu.Attributes{Aim: 2, Speed: 2, SliderFactor: 1, ObjectCount: 10, Circles: 10, MaxCombo: 10}, 0, 1, 0, 0, 0, d)
	near("aim pp of a single object without combo", r.Results.Aim, 0, 0)
''', [D, O])

bug('c23-stale-circles', 'C23', [('performance/osu/pp.go', '''	} else {
		pp.amountHitObjectsWithAccuracy = attribs.Circles
	}''', '''	} else if attribs.Circles > 0 {
		pp.amountHitObjectsWithAccuracy = attribs.Circles
	}''')],
 'a calculator reused for a map without circles after one with circles',
 'a map without circles takes the circle count of the play calculated before',
'''
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Aim: 2, Speed: 2, SliderFactor: 0.9, ObjectCount: 10, Circles: 10, MaxCombo: 10}
	b := osu.Attributes{Aim: 2, Speed: 2, SliderFactor: 0.9, ObjectCount: 10, Sliders: 10, MaxCombo: 30}
	pp := &osu.PPv2{}
	pp.PPv2x(a, -1, -1, 0, 0, 0, d)
	near("accuracy pp", pp.PPv2x(b, -1, -1, 0, 0, 0, d).Results.Acc, 0, 0)
''', [D, O])

bug('c24-scan-buffer', 'C24', [('files/utf.go', '''	buf := make([]byte, 0, bufSize)
''', '''	if cap(scanBuffer) < bufSize { // large, so it is kept
		scanBuffer = make([]byte, 0, bufSize)
	}

	buf := scanBuffer[:0]
'''), ('files/utf.go', '''func NewScannerBuf(''', '''var scanBuffer []byte

func NewScannerBuf(''')],
 'two beatmaps parsed at the same time',
 'concurrent parses read into the same buffer',
'''
	src := func(n int) string {
		var o []string
		for i := 0; i < 3000; i++ {
			o = append(o, fmt.Sprintf("%d,%d,%d,1,0", n, n, 1000+i*100))
		}
		return osuFile(14, nil, nil, nil, o)
	}
	var bad int32
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			s := src(g * 10)
			for k := 0; k < 20; k++ {
				b, err := beatmap.ParseFromByte([]byte(s))
				if err != nil || len(b.HitObjects) != 3000 {
					atomic.AddInt32(&bad, 1)
					return
				}
				for _, o := range b.HitObjects {
					if o.GetStartPosition().X != float32(g*10) {
						atomic.AddInt32(&bad, 1)
						return
					}
				}
			}
		}(g)
	}
	wg.Wait()
	check("every parse is right", bad == 0, bad)
''', [BM, 'fmt', 'sync', 'sync/atomic'], race=True)

bug('c25-factorial', 'C25', [('math/curves/bezier.go', '''	k = mutils.MinI64(k, n-k)

	c := int64(1)
	for i := int64(1); i <= k; i++ {
		c = c * (n + 1 - i) / i
	}

	return c
''', '''	k = mutils.MinI64(k, n-k)

	c := int64(1)
	for i := n - k + 1; i <= n; i++ {
		c *= i
	}

	for i := int64(2); i <= k; i++ {
		c /= i
	}

	return c
''')],
 'n and k so large that the product of the numerators does not fit in 64 bits',
 'binomial coefficients overflow from n of about 26 on',
'''
	check("C(40,20)", curves.BinomialCoefficient(40, 20) == 137846528820, curves.BinomialCoefficient(40, 20))
''', [CU])

bug('c25-arc-direction', 'C25', [('math/curves/cirarc.go', '''	if aToC.Dot(b.Sub(a)) < 0 {''', '''	if aToC.Dot(b.Sub(arc.centre)) < 0 {''')],
 'an arc of more than half a circle... or whose middle point lies between centre and chord',
 'arcs turn the wrong way when the middle point and the centre lie on different sides',
'''
	for _, p := range [][3]vector.Vector2f{
		{vector.NewVec2f(0, 0), vector.NewVec2f(50, 20), vector.NewVec2f(100, 0)},
		{vector.NewVec2f(0, 0), vector.NewVec2f(50, -20), vector.NewVec2f(100, 0)},
		{vector.NewVec2f(0, 0), vector.NewVec2f(50, 200), vector.NewVec2f(100, 0)},
		{vector.NewVec2f(0, 0), vector.NewVec2f(50, -200), vector.NewVec2f(100, 0)},
		{vector.NewVec2f(0, 0), vector.NewVec2f(-40, 30), vector.NewVec2f(10, 0)},
		{vector.NewVec2f(0, 0), vector.NewVec2f(100, 30), vector.NewVec2f(100, 0)},
	} {
		arc := curves.NewCirArc(p[0], p[1], p[2])
		near("end x", float64(arc.PointAt(1).X), float64(p[2].X), 0.1)
		near("end y", float64(arc.PointAt(1).Y), float64(p[2].Y), 0.1)
		best := 1e9
		for i := 0; i <= 1000; i++ {
			best = math.Min(best, float64(arc.PointAt(float32(i)/1000).Dst(p[1])))
		}
		near("distance to the middle point", best, 0, 1)
	}
''', [CU, VE, 'math'])

bug('c26-skip-empty-sections', 'C26', [('performance/osu/skills/skill.go', '''		skill.currentSectionEnd += sectionLength
	}
''', '''		skill.currentSectionEnd += sectionLength

		// nothing is left of the strain, go on at the section of the object
		if skill.currentSectionPeak < 1e-9 && len(skill.Previous) > 0 {
			skill.currentSectionEnd = math.Max(skill.currentSectionEnd, math.Ceil(startTime/sectionLength)*sectionLength)
		}
	}
''')],
 'a long break in a map (several seconds, or less after a spinner)',
 'sections without strain are left out, so peak lists miss sections and the lists differ in length',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"0,0,1000,1,0", "300,0,1300,1,0", "0,300,1600,1,0", "256,192,20000,1,0"}))
	p := osu.CalculateStrainPeaks(b.HitObjects, b.Difficulty)
	check("sections", len(p.Aim) == 47 && len(p.Speed) == 47, len(p.Aim), len(p.Speed))
''', [O])

bug('c27-length-unknown-type', 'C27', [('beatmap/parser.go', '''				var time string
''', '''				time := arr[2]
''')],
 'a hit-object line of no known type later than every other object',
 'objects of unknown types still extend the length of the map',
'''
	b := parse(osuFile(14, nil, nil, nil, []string{"0,0,1000,1,0", "0,0,9000,4,0"}))
	check("length", b.Length == 1000, b.Length)
''')

bug('c27-key-case', 'C27', [('beatmap/parser.go', '''func parseDifficulty(line []string, beatMap *BeatMap) {
	switch line[0] {''', '''func parseDifficulty(line []string, beatMap *BeatMap) {
	switch strings.TrimRight(line[0], "0123456789") {''')],
 'an unknown difficulty key made of a known one and digits',
 'keys like CircleSize2 overwrite the value of the key they start with',
'''
	b := parse(osuFile(14, nil, []string{"CircleSize:4", "CircleSize2:7"}, nil, nil))
	near("CS", b.Difficulty.GetCS(), 4, 0)
''')

bug('c28-nor-epsilon', 'C28', [('math/vector/vector2f.go', '''	length := v.LenSq()

	if length < epsilon {
		return v
	}

	length = math32.Sqrt(length)
''', '''	length := v.Len()

	if length < 1 {
		return v
	}
''')],
 'a vector shorter than one', 'vectors shorter than one are not normalised',
'''
	v := vector.NewVec2f(0.3, 0.4).Nor()
	near("length", float64(v.Len()), 1, 1e-5)
''', [VE])

bug('c29-reversed-break', 'C29', [('beatmap/pause.go', '''	return pause.EndTime - pause.StartTime
''', '''	if pause.StartTime > pause.EndTime {
		return pause.StartTime - pause.EndTime
	}

	return pause.EndTime - pause.StartTime
''')],
 'a break whose end lies before its start',
 'the length of reversed breaks is positive',
'''
	b := parse("osu file format v14\\n[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n[Events]\\n2,3000,1000\\n")
	near("length", b.Pauses[0].Length(), -2000, 0)
''')

bug('c29-named-video', 'C29', [('beatmap/parser.go', '''	case "Background", "0":''', '''	case "Background", "Video", "0":''')],
 'a video event in its named form after the background',
 'a named video event replaces the background',
'''
	b := parse("osu file format v14\\n[Metadata]\\nTitle:t\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n[Events]\\n0,0,\\"bg.jpg\\",0,0\\nVideo,0,\\"v.avi\\"\\n")
	check("background", b.Bg == "bg.jpg", b.Bg)
''')
