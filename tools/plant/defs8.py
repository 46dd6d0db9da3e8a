PK = 'github.com/Wieku/gosu-pp/'
D = PK + 'beatmap/difficulty'
O = PK + 'performance/osu'
PP = PK + 'performance/osu/preprocessing'
SK = PK + 'performance/osu/skills'
OB = PK + 'beatmap/objects'
BM = PK + 'beatmap'
CU = PK + 'math/curves'
VE = PK + 'math/vector'
MU = PK + 'math/mutils'
M32 = PK + 'math/math32'
BUGS = []
FI = PK + 'files'
TI = PK + 'beatmap/timing'
def bug(id, prop, edits, needs, breaks, go, imports=(), race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, go=go, imports=list(imports), race=race))


def objs(n, step=150):
    return '''	o := []string{}
	for i := 0; i < %d; i++ {
		o = append(o, fmt.Sprintf("%%d,%%d,%%d,1,0", 100+i%%2*200, 100+i%%3*50, 1000+i*%d))
	}
''' % (n, step)


P = 'beatmap/parser.go'
BO = 'beatmap/objects/baseobject.go'
SL = 'beatmap/objects/slider.go'
TM = 'beatmap/timing/timing.go'
BMF = 'beatmap/beatmap.go'
DF = 'performance/osu/difficulty.go'
PPF = 'performance/osu/pp.go'
SKF = 'performance/osu/skills/skill.go'

U = 'beatmap/objects/util.go'
ST = 'beatmap/stackleniency.go'
MC = 'math/curves/multicurve.go'

bug('c27-key-spelling', 'C27', [(P, 'case "BeatmapID":', 'case "BeatmapID", "BeatmapId":')], 'an unknown key that differs from a known one only in case, after it', 'the unknown key changes the identifier', '''
	b := parse("osu file format v14\\n\\n[Metadata]\\nTitle:t\\nBeatmapID:5\\nBeatmapId:7\\n\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n\\n[HitObjects]\\n1,1,1000,1,0\\n")
	near("id", float64(b.MapID), 5, 0)
''')

bug('c08-doubled-head', 'C08', [(MC, 'multi := i < len(points)-2 && points[i] == points[i+1]', 'multi := i > 0 && i < len(points)-2 && points[i] == points[i+1]')], 'a Bezier slider whose second control point repeats its head', 'the head counts twice as a control point of the curve instead of ending a segment', '''
	b := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,0,B|100:100|300:100|300:300,1,150"}))
	c := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,0,B|300:100|300:300,1,150"}))
	for i := 0; i <= 10; i++ {
		t := 1000 + slider(c.HitObjects[0]).GetDuration()*float64(i)/10
		p, q := slider(b.HitObjects[0]).PositionAt(t), slider(c.HitObjects[0]).PositionAt(t)
		near("x", float64(p.X), float64(q.X), 1)
		near("y", float64(p.Y), float64(q.Y), 1)
	}
''')

bug('c08-minus-zero', 'C08', [(SL, 'x, _ := strconv.ParseFloat(list2[0], 32)', 'x, _ := strconv.ParseFloat(strings.TrimPrefix(list2[0], "-0"), 32)')], 'a slider point whose x lies between -1 and 0', 'its sign is lost', '''
	b := parse(osuFile(14, nil, nil, nil, []string{"0,100,1000,2,0,L|-0.9:100,1,0.9"}))
	p := slider(b.HitObjects[0]).GetEndPosition()
	near("x", float64(p.X), -0.9, 1e-3)
''')

bug('c11-tall-stack', 'C11', [(ST, 'for j := n + 1; j <= i; j++ {', 'for j := n + 1; j <= i && j < n+40; j++ {')], 'a stack of more than 40 objects on the end of a slider', 'the upper part of the stack is not shifted below the slider end', '''
	o := []string{"100,100,1000,2,0,L|200:100,1,100"}
	for i := 0; i < 60; i++ {
		o = append(o, fmt.Sprintf("200,100,%d,1,0", 1450+i*60))
	}
	b := parse(osuFile(14, []string{"StackLeniency:1"}, []string{"SliderMultiplier:1.4"}, nil, o))
	last := b.HitObjects[60].GetStackIndex(0)
	check("below the slider end", last < 0, last)
''', ['fmt'])

bug('c03-wide-lines', 'C03', [(P, 'if arr := tokenizeN(line, ":", 2); len(arr) > 1 {\n				parseMetadata', 'if arr := tokenizeN(line, ":", 2); len(arr) > 1 && len(line) < 4096 {\n				parseMetadata')], 'a metadata value of more than 4096 bytes', 'it is dropped', '''
	tags := strings.Repeat("tag ", 2000) + "end"
	b := parse("osu file format v14\\n\\n[Metadata]\\nTitle:t\\nTags:" + tags + "\\n\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n\\n[HitObjects]\\n1,1,1000,1,0\\n")
	check("tags", b.Tags == tags, len(b.Tags))
''', ['strings'])

bug('c33-coarse-multiplier', 'C33', [(P, 'beatMap.Timings.SliderMult = beatMap.SliderMultiplier', 'beatMap.Timings.SliderMult = math.Round(beatMap.SliderMultiplier*100) / 100')], 'a slider multiplier with more than two decimals', 'slider speed uses it rounded', '''
	b := parse(osuFile(14, nil, []string{"SliderMultiplier:1.23456"}, nil, []string{"100,100,1000,2,0,L|400:100,1,300"}))
	near("duration", slider(b.HitObjects[0]).GetDuration(), 300/123.456*500, 1e-2)
''')

bug('c32-preview-stack', 'C32', [(P, 'beatMap.PreviewTime, _ = strconv.ParseInt(line[1], 10, 64)', 'beatMap.PreviewTime, _ = strconv.ParseInt(line[1], 10, 64)\n		if beatMap.PreviewTime == 0 {\n			beatMap.StackLeniency = 0.7\n		}')], 'a preview time of zero stated after the stack leniency', 'the leniency falls back to its default', '''
	o := []string{"100,100,1000,1,0", "100,100,1500,1,0"}
	x := parse(osuFile(14, []string{"StackLeniency:1", "PreviewTime:0"}, []string{"ApproachRate:5"}, nil, o))
	y := parse(osuFile(14, []string{"StackLeniency:1", "PreviewTime:1"}, []string{"ApproachRate:5"}, nil, o))
	x2 := parse(osuFile(14, []string{"StackLeniency:0.2", "PreviewTime:0"}, []string{"ApproachRate:5"}, nil, o))
	near("stack", float64(x.HitObjects[0].GetStackIndex(0)), float64(y.HitObjects[0].GetStackIndex(0)), 0)
	near("no stack", float64(x2.HitObjects[0].GetStackIndex(0)), 0, 0)
''')

bug('c21-overfull-score', 'C21', [(PPF, 'if n300 < 0 {', 'if n300 < 0 || n300 > attribs.ObjectCount && attribs.ObjectCount > 0 {')], 'a count of 300s beyond the number of objects together with other hits', 'the given count is replaced', '''
	at := osu.Attributes{ObjectCount: 100, Circles: 100, MaxCombo: 100, Aim: 2, Speed: 2, Total: 4, SliderFactor: 1}
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	pp := &osu.PPv2{}
	a := pp.PPv2x(at, 100, 120, 30, 0, 0, d).Results
	at2 := at
	b := (&osu.PPv2{}).PPv2x(at2, 100, 70, 30, 0, 0, d).Results
	check("more 300s", math.Abs(a.Aim-b.Aim) > 1e-6, a, b)
''', [O, D, 'math'])

bug('c27-storyboard-section', 'C27', [(P, 'case "Events":\n			if arr := tokenize(line, ","); len(arr) > 2 {', 'case "Events", "Storyboard":\n			if arr := tokenize(line, ","); len(arr) > 2 {')], 'a section the format does not know, holding lines like those of Events', 'its lines are taken as events', '''
	b := parse("osu file format v14\\n\\n[Metadata]\\nTitle:t\\n\\n[Storyboard]\\n2,100,5000\\n0,0,\\"x.jpg\\"\\n\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n\\n[HitObjects]\\n1,1,1000,1,0\\n")
	near("breaks", float64(len(b.Pauses)), 0, 0)
	check("background", b.Bg == "", b.Bg)
''')

bug('c29-pause-keyword', 'C29', [(P, 'case "Break", "2":', 'case "Break", "2", "Pause":')], 'an event of a kind the format does not know', 'it is taken as a break', '''
	b := parse("osu file format v14\\n\\n[Metadata]\\nTitle:t\\n\\n[Events]\\nPause,100,5000\\n\\n[TimingPoints]\\n0,500,4,2,1,60,1,0\\n\\n[HitObjects]\\n1,1,1000,1,0\\n")
	near("breaks", float64(len(b.Pauses)), 0, 0)
''')

bug('c26-section-limit', 'C26', [(SKF, 'for startTime > skill.currentSectionEnd {', 'for n := 0; startTime > skill.currentSectionEnd; n++ {\n		if n > 8000 {\n			skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength\n			break\n		}')], 'a gap of more than 8000 sections', 'the rest of its sections is missing', '''
	b := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "99,1,1300,1,0", "1,1,4001300,1,0", "99,1,4001600,1,0"}))
	p := osu.CalculateStrainPeaks(b.HitObjects, b.Difficulty)
	near("sections", float64(len(p.Aim)), 10001, 0)
''', [O])

bug('c16-flashlight-history', 'C16', [('performance/osu/skills/flashlight.go', 'skill.HistoryLength = 10', 'skill.HistoryLength = 9')], 'flashlight on a stream: the object ten back still counts', 'the oldest remembered object is lost', '''
	l := []string{}
	for i := 0; i < 40; i++ {
		x, y := 100+i%11*30, 100
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", x, y, 1000+i*100))
	}
	b := parse(osuFile(14, nil, []string{"CircleSize:4", "ApproachRate:9", "OverallDifficulty:8", "HPDrainRate:5"}, nil, l))
	b.Difficulty.SetMods(difficulty.Flashlight)
	near("flashlight", osu.CalculateSingle(b.HitObjects, b.Difficulty).Flashlight, 0.502618900661, 1e-6)
''', [O, D, 'fmt'])
