PK = 'github.com/Wieku/gosu-pp/'
D = PK + 'beatmap/difficulty'
O = PK + 'performance/osu'
PP = PK + 'performance/osu/preprocessing'
SK = PK + 'performance/osu/skills'
OB = PK + 'beatmap/objects'
BM = PK + 'beatmap'
CU = PK + 'math/curves'
VE = PK + 'math/vector'
MU = PK + 'math/mutils'
M32 = PK + 'math/math32'
BUGS = []
FI = PK + 'files'
TI = PK + 'beatmap/timing'
def bug(id, prop, edits, needs, breaks, go, imports=(), race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, go=go, imports=list(imports), race=race))


def objs(n, step=150):
    return '''	o := []string{}
	for i := 0; i < %d; i++ {
		o = append(o, fmt.Sprintf("%%d,%%d,%%d,1,0", 100+i%%2*200, 100+i%%3*50, 1000+i*%d))
	}
''' % (n, step)


P = 'beatmap/parser.go'
BO = 'beatmap/objects/baseobject.go'
SL = 'beatmap/objects/slider.go'
TM = 'beatmap/timing/timing.go'
BMF = 'beatmap/beatmap.go'
DF = 'performance/osu/difficulty.go'
PPF = 'performance/osu/pp.go'
SKF = 'performance/osu/skills/skill.go'

bug('c04-header-indent', 'C04', [('beatmap/parser.go', '\tline = strings.TrimSpace(line)\n\tif strings', '\tline = strings.TrimRight(line, " \\t")\n\tif strings')], 'a section header with blanks before it', 'the section is not recognised', '\n\ts := osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0"})\n\tb := parse(strings.Replace(s, "[HitObjects]", "  [HitObjects]", 1))\n\tnear("objects", float64(len(b.HitObjects)), 1, 0)\n', ['strings'])

bug('c10-span-byte', 'C10', [('beatmap/objects/slider.go', 'reversed := span%2 == 1', 'reversed := span%2 == 1 && span < 64')], 'a slider with more than 64 passes whose ticks are not symmetric', 'ticks of later passes are not mirrored', '\n\tb := parse(osuFile(14, nil, []string{"SliderMultiplier:1", "SliderTickRate:1"}, nil, []string{"100,100,1000,2,0,L|250:100,70,150"}))\n\ts := slider(b.HitObjects[0])\n\tnear("tick of pass 66", s.ScorePoints[65*2].Time, 1000+65*750+250, 1e-3)\n', [])

bug('c25-arc-full', 'C25', [('math/curves/cirarc.go', 'for endAngle < arc.startAngle {', 'if endAngle < arc.startAngle-0.01 {')], 'an arc of nearly a full turn', 'its angle comes out negative', '\n\ta := curves.NewCirArc(vector.NewVec2f(100, 0), vector.NewVec2f(-100, 0), vector.NewVec2f(100, -0.5))\n\tnear("length", float64(a.GetLength()), 200*math.Pi-0.5, 0.1)\n\tnear("middle", float64(a.PointAt(0.5).X), -100, 0.1)\n', [CU, VE, 'math'])

bug('c26-cap-empty', 'C26', [('performance/osu/skills/skill.go', '\tfor startTime > skill.currentSectionEnd {\n', '\tif startTime-skill.currentSectionEnd > 200*sectionLength {\n\t\tskill.currentSectionEnd += math.Floor((startTime-skill.currentSectionEnd)/sectionLength-200) * sectionLength\n\t}\n\n\tfor startTime > skill.currentSectionEnd {\n')], 'a pause of more than 200 strain sections', 'the empty sections of a long pause are missing', '\n\tb := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "99,1,1300,1,0", "1,1,201300,1,0", "99,1,201600,1,0"}))\n\tp := osu.CalculateStrainPeaks(b.HitObjects, b.Difficulty)\n\tnear("sections", float64(len(p.Aim)), 501, 0)\n', [O])

bug('c24-lazy-memo', 'C24', [('performance/osu/preprocessing/lazyslider.go', '\tdecorated.calculateEndPosition()\n', '\tmemoLock.Lock()\n\tdefer memoLock.Unlock()\n\n\tkey := memoKey{slider.GetStartTime(), slider.GetEndTime(), slider.GetStartPosition(), slider.GetEndPosition(), d.Mods, d.CircleRadius}\n\tif v, ok := memo[key]; ok {\n\t\tdecorated.LazyEndPosition, decorated.LazyTravelDistance, decorated.LazyTravelTime = v.LazyEndPosition, v.LazyTravelDistance, v.LazyTravelTime\n\t\treturn decorated\n\t}\n\n\tdecorated.calculateEndPosition()\n\tif len(memo) > 10000 {\n\t\tmemo = map[memoKey]*LazySlider{}\n\t}\n\tmemo[key] = decorated\n'), ('performance/osu/preprocessing/lazyslider.go', 'func NewLazySlider', 'type memoKey struct {\n\tstart, end float64\n\tfrom, to   vector.Vector2f\n\tmods       difficulty.Modifier\n\tradius     float64\n}\n\nvar memoLock sync.Mutex\nvar memo = map[memoKey]*LazySlider{}\n\nfunc NewLazySlider'), ('performance/osu/preprocessing/lazyslider.go', '\t"math"\n', '\t"math"\n\t"sync"\n')], 'two sliders alike in times, head and tail but with different paths', 'the second is rated with the path of the first', '\n\tf := func(path string) float64 {\n\t\tb := parse(osuFile(14, nil, nil, nil, []string{"100,100,1000,2,0," + path + ",2,200"}))\n\t\treturn float64(preprocessing.NewLazySlider(slider(b.HitObjects[0]), b.Difficulty).LazyTravelDistance)\n\t}\n\tx := f("L|300:100")\n\ty := f("L|120:100|100:100|120:100|100:100|120:100|100:100|120:100|100:100|120:100|100:100")\n\tcheck("travel", y < x/2, x, y)\n', [PP])

bug('c33-flradius', 'C33', [('performance/osu/skills/flashlight.go', 'scalingFactor := 52.0 / s.diff.CircleRadius', 'scalingFactor := 52.0 / math.Max(s.diff.CircleRadius, 15)')], 'Flashlight with circles smaller than CS 9', 'tiny circles are rated as larger ones', '\n\tl := []string{}\n\tfor i := 0; i < 20; i++ {\n\t\tl = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i%2*200, 100+i%3*50, 1000+i*200))\n\t}\n\tb := parse(osuFile(14, nil, nil, nil, l))\n\tf := func(cs float64) float64 {\n\t\td := difficulty.NewDifficulty(5, cs, 5, 5)\n\t\td.SetMods(difficulty.Flashlight)\n\t\treturn osu.CalculateSingle(b.HitObjects, d).Flashlight\n\t}\n\tnear("ratio", f(10)/f(9.2), difficulty.DifficultyRate(9.2, 54.4, 32, 9.6)/difficulty.DifficultyRate(10, 54.4, 32, 9.6), 0.02)\n', [O, D, 'fmt'])

bug('c33-hit300', 'C33', [('performance/osu/skills/speed.go', 'greatWindow := s.diff.Hit300 / s.diff.Speed\n', 'greatWindow := s.diff.Hit300 / math.Min(s.diff.Speed, 1.5)\n')], 'a speed above 1.5 and rhythm changes', 'the hit window stops shrinking with speed', '\n\tl := []string{}\n\tt := 1000\n\tfor i := 0; i < 60; i++ {\n\t\tt += []int{100, 100, 150, 150, 100, 100, 100, 150, 150, 150}[i%10]\n\t\tl = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i%2*100, 100+i%3*50, t))\n\t}\n\t// at twice the speed: the same as a map of half the times with half the hit window\n\td := difficulty.NewDifficulty(5, 5, 5, 5)\n\td.SetCustomSpeed(2)\n\tx := osu.CalculateSingle(parse(osuFile(14, nil, nil, nil, l)).HitObjects, d).Speed\n\tfor i := range l {\n\t\tvar a, b, c int\n\t\tfmt.Sscanf(l[i], "%d,%d,%d", &a, &b, &c)\n\t\tl[i] = fmt.Sprintf("%d,%d,%g,1,0", a, b, float64(c)/2)\n\t}\n\te := difficulty.NewDifficulty(5, 5, 5, 5)\n\te.SetOD(5 + 25.0/6)\n\ty := osu.CalculateSingle(parse(osuFile(14, nil, nil, nil, l)).HitObjects, e).Speed\n\tnear("speed", x, y, 1e-6)\n', [O, D, 'fmt'])

bug('c22-acc-neg', 'C22', [('performance/osu/pp.go', '\tif betterAccuracyPercentage < 0 {\n\t\tbetterAccuracyPercentage = 0\n\t}\n', '')], 'far more sliders than circles and a bad play', 'a negative accuracy gives pp', '\n\td := difficulty.NewDifficulty(5, 5, 5, 5)\n\tr := (&osu.PPv2{}).PPv2x(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 1, ObjectCount: 1000, Circles: 10, Sliders: 990, MaxCombo: 2000}, 1, 900, 0, 0, 100, d).Results\n\tnear("acc", r.Acc, 0, 0)\n', [O, D])

bug('c23-diff-keep', 'C23', [('performance/osu/pp.go', '\tpp.diff = diff\n', '\tif pp.diff == nil || pp.diff.Mods != diff.Mods || pp.diff.ODReal != diff.ODReal {\n\t\tpp.diff = diff\n\t}\n')], 'a calculator reused after CS, OD or AR changed but not mods or OD', 'the old approach rate is used', '\n\ta := osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 1, ObjectCount: 100, Circles: 100, MaxCombo: 100}\n\tc := &osu.PPv2{}\n\tc.PPv2x(a, 100, 100, 0, 0, 0, difficulty.NewDifficulty(5, 5, 5, 5))\n\tnear("aim", c.PPv2x(a, 100, 100, 0, 0, 0, difficulty.NewDifficulty(5, 5, 5, 0)).Results.Aim, (&osu.PPv2{}).PPv2x(a, 100, 100, 0, 0, 0, difficulty.NewDifficulty(5, 5, 5, 0)).Results.Aim, 1e-9)\n', [O, D])

bug('c07-scientific', 'C07', [('beatmap/timing/timing.go', '\t\treturn time < tim.points[i].Time\n\t})\n\n\treturn tim.points[', '\t\treturn time < tim.points[i].Time\n\t})\n\n\tfor index > 1 && tim.points[index-1].Time == tim.points[index-2].Time && !tim.points[index-1].Inherited && tim.points[index-2].Inherited {\n\t\tindex--\n\t}\n\n\treturn tim.points[')], 'an inherited and then an uninherited point at the same time', 'the inherited one stays in effect', '\n\tb := parse(osuFile(14, nil, nil, []string{"0,500,4,2,1,60,1,0", "1000,-50,4,2,1,60,0,0", "1000,300,4,2,1,60,1,0"}, nil))\n\tnear("beat", b.Timings.GetPointAt(1000).GetBeatLength(), 300, 1e-9)\n', [])

bug('c06-hax-byte', 'C06', [('beatmap/parser.go', 'comboSetHax += int(iO.GetColorOffset()) + 1', 'comboSetHax = (comboSetHax + int(iO.GetColorOffset()) + 1) & 255')], 'combo colour offsets summing to more than 255', 'the colour index wraps at 256', '\n\tl := []string{}\n\tfor i := 0; i < 40; i++ {\n\t\tl = append(l, fmt.Sprintf("%d,100,%d,117,0", i, 1000+i*500))\n\t}\n\tb := parse(osuFile(14, nil, nil, nil, l))\n\tnear("set", float64(b.HitObjects[39].GetComboSetHax()), 320, 0)\n', ['fmt'])

bug('c12-spinner-hr', 'C12', [('beatmap/objects/hitobject.go', '\tcase modifier&difficulty.HardRock > 0:\n\t\tbasePosition.Y', '\tcase modifier&difficulty.HardRock > 0 && hitObject.EndTime-hitObject.StartTime < 60000:\n\t\tbasePosition.Y')], 'a HardRock position of a slider of a minute or more', 'it is not mirrored', '\n\tb := parse(osuFile(14, nil, []string{"SliderMultiplier:0.4"}, []string{"0,60000,4,2,1,60,1,0"}, []string{"100,100,1000,2,0,L|300:100,1,200"}))\n\tnear("y", float64(b.HitObjects[0].GetStackedStartPositionMod(difficulty.HardRock).Y), 284, 1e-3)\n', [D])

bug('c13-speed-reset', 'C13', [('beatmap/difficulty/difficulty.go', '\tdiff.Mods = mods\n\tdiff.calc', '\tif diff.Mods&(DoubleTime|HalfTime) != mods&(DoubleTime|HalfTime) && mods&Daycore > 0 {\n\t\tdiff.CustomSpeed = 1\n\t}\n\tdiff.Mods = mods\n\tdiff.calc')], 'Daycore set over a custom speed', 'the custom speed is lost', '\n\td := difficulty.NewDifficulty(5, 5, 5, 5)\n\td.SetCustomSpeed(1.2)\n\td.SetMods(difficulty.HalfTime | difficulty.Daycore)\n\tnear("speed", d.Speed, 0.9, 1e-9)\n', [D])

bug('c17-spinner-step', 'C17', [('performance/osu/difficulty.go', '\t\tstars = append(stars, getStars(aim', '\t\tif attr.Spinners > stars[i].Spinners {\n\t\t\tstars = append(stars, attr)\n\t\t\tcontinue\n\t\t}\n\n\t\tstars = append(stars, getStars(aim')], 'stepwise rating over a spinner', 'the rating at a spinner misses the sections it crosses', '\n\tl := []string{}\n\tfor i := 0; i < 30; i++ {\n\t\tl = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i%2*200, 100+i%3*50, 1000+i*200))\n\t}\n\tl = append(l, "256,192,9000,12,0,10000")\n\tb := parse(osuFile(14, nil, nil, nil, l))\n\tst := osu.CalculateStep(b.HitObjects, b.Difficulty)\n\tnear("stars", st[30].Total, osu.CalculateSingle(b.HitObjects, b.Difficulty).Total, 1e-9)\n', [O, 'fmt'])

bug('c14-last', 'C14', [('beatmap/difficulty/mods.go', '\t\tif activated {\n\t\t\ts = append(s, modsStringFull[i])\n\t\t}\n\n\t\tmods >>= 1\n', '\t\tif activated {\n\t\t\ts = append(s, modsStringFull[i])\n\t\t}\n\n\t\tif mods >>= 1; mods == 1 && len(s) > 6 {\n\t\t\tbreak\n\t\t}\n')], 'a combination of more than seven mods', 'the last mod is left out of the long names', '\n\tm := difficulty.NoFail | difficulty.Easy | difficulty.TouchDevice | difficulty.Hidden | difficulty.Relax | difficulty.HalfTime | difficulty.Flashlight | difficulty.SpunOut\n\tnear("names", float64(len(m.StringFull())), 8, 0)\n', [D])

bug('c19-repeat-limit', 'C19', [('performance/osu/difficulty.go', 'attr.MaxCombo += len(s.ScorePoints)', 'attr.MaxCombo += len(s.ScorePoints)\n\t\tif s.RepeatCount > 500 {\n\t\t\tattr.MaxCombo -= int(s.RepeatCount) - 500\n\t\t}')], 'a slider with more than 500 passes', 'its repeats after the 500th give no combo', '\n\tb := parse(osuFile(14, nil, []string{"SliderMultiplier:1"}, nil, []string{"100,100,1000,2,0,L|150:100,600,50"}))\n\tnear("combo", float64(osu.CalculateSingle(b.HitObjects, b.Difficulty).MaxCombo), 601, 0)\n', [O])

bug('c31-total-round', 'C31', [('performance/osu/difficulty.go', '\tattr.Total = total\n', '\tif attr.Spinners > 3 && attr.Circles+attr.Sliders < attr.Spinners {\n\t\ttotal *= 0.99\n\t}\n\tattr.Total = total\n')], 'more than three spinners and hardly anything else', 'the rating drops at the fourth spinner', '\n\tb := parse(osuFile(14, nil, nil, nil, []string{"1,1,1000,1,0", "300,1,1200,1,0", "1,100,1400,1,0", "256,192,5000,12,0,6000", "256,192,7000,12,0,8000", "256,192,9000,12,0,9900", "256,192,10000,12,0,11000"}))\n\tst := osu.CalculateStep(b.HitObjects, b.Difficulty)\n\tcheck("stars", st[6].Total >= st[5].Total, st[5].Total, st[6].Total)\n', [O])

