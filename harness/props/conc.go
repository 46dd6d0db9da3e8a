package props

import (
	"fmt"
	"runtime"
	"sync"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C24

// job is one call of the library.
type job struct {
	Map   int    `json:"map"`
	Kind  string `json:"kind"`
	Mods  int64  `json:"mods"`
	Speed core.F `json:"speed"`
	Keep  int    `json:"keep"` // rates all but this many of the last objects
}

type concCase struct {
	Maps    []gen.Map `json:"maps"`
	Jobs    []job     `json:"jobs"`
	Order   []int     `json:"order"`   // sequential history of jobs
	Workers [][]int   `json:"workers"` // concurrent histories of jobs
	Shared  bool      `json:"shared"`  // jobs with the same settings share a difficulty
}

var jobKinds = []string{"single", "single", "step", "peaks", "single+peaks", "step+peaks", "pp", "parse", "positions"}

func drawConc(t *rapid.T) concCase {
	var c concCase
	for i := gen.Pick(t, 1, 1, 2, 2, 2, 3); i > 0; i-- {
		if len(c.Maps) > 0 && gen.P(t, 2, 3) { // the same map but for one detail
			c.Maps = append(c.Maps, gen.Tweak(t, c.Maps[0]))
			continue
		}
		c.Maps = append(c.Maps, gen.DrawMap(t, gen.Opt{MaxSegs: 3, NaNTP: gen.P(t, 1, 4), StackBias: gen.P(t, 1, 3), FracTimes: gen.P(t, 1, 4), Long: true}))
	}
	sets := []job{}
	for i := gen.U(t, 1, 3); i > 0; i-- {
		sets = append(sets, job{Mods: gen.Mods(t), Speed: gen.Speed(t)})
	}
	for i := gen.U(t, 2, 5); i > 0; i-- {
		j := sets[gen.U(t, 0, len(sets)-1)]
		j.Map = gen.U(t, 0, len(c.Maps)-1)
		j.Kind = jobKinds[gen.U(t, 0, len(jobKinds)-1)]
		if gen.P(t, 1, 4) {
			j.Keep = gen.U(t, 0, 3)
		}
		c.Jobs = append(c.Jobs, j)
	}
	pick := func(max int) (ks []int) {
		for i := gen.U(t, 1, max); i > 0; i-- {
			ks = append(ks, gen.U(t, 0, len(c.Jobs)-1))
		}
		return
	}
	c.Order = pick(6)
	for i := gen.U(t, 2, 4); i > 0; i-- {
		c.Workers = append(c.Workers, pick(3))
	}
	c.Shared = gen.P(t, 1, 3)
	return c
}

type concEnv struct {
	texts []string
	maps  []*beatmap.BeatMap
	diffs map[job]*difficulty.Difficulty // shared ones
	c     concCase
}

func (e *concEnv) diff(j job) *difficulty.Difficulty {
	if e.c.Shared {
		return e.diffs[job{Map: j.Map, Mods: j.Mods, Speed: j.Speed}]
	}
	return newDiff(e.c.Maps[j.Map], j.Mods, float64(j.Speed))
}

// do performs a job and renders its result bit-exactly.
func (e *concEnv) do(j job) string {
	if j.Kind == "parse" {
		bm, err := beatmap.ParseFromByte([]byte(e.texts[j.Map]))
		if err != nil {
			return "error: " + err.Error()
		}
		return snapMap(bm)
	}
	bm := e.maps[j.Map]
	d := e.diff(j)
	n := len(bm.HitObjects) - j.Keep
	if n < 0 {
		n = 0
	}
	objs := bm.HitObjects[:n]
	steps := func(as []osu.Attributes) (s string) {
		for _, a := range as {
			s += snapAttr(a) + "\n"
		}
		return
	}
	var out string
	before := snapDiff(d)
	switch j.Kind {
	case "single":
		out = snapAttr(osu.CalculateSingle(objs, d))
	case "step":
		out = steps(osu.CalculateStep(objs, d))
	case "peaks":
		out = safeSnapshotPeaks(osu.CalculateStrainPeaks(objs, d))
	case "single+peaks":
		a, p := osu.CalculateSingleWithPeaks(objs, d)
		out = snapAttr(a) + "\n" + safeSnapshotPeaks(p)
	case "step+peaks":
		a, p := osu.CalculateStepWithPeaks(objs, d)
		out = steps(a) + safeSnapshotPeaks(p)
	case "pp":
		a := osu.CalculateSingle(objs, d)
		calc := &osu.PPv2{}
		r := calc.PPv2x(a, -1, -1, n/5, n/9, n/7, d)
		out = fmt.Sprintf("%x %x %x %x %x", r.Results.Aim, r.Results.Speed, r.Results.Acc, r.Results.Flashlight, r.Results.Total)
	case "positions":
		for _, o := range objs {
			m := difficulty.Modifier(j.Mods)
			out += fmt.Sprint(bits(o.GetStackedStartPositionMod(m)), bits(o.GetStackedEndPositionMod(m)), bits(o.GetStackedPositionAtMod((o.GetStartTime()+o.GetEndTime())/2, m)), "\n")
		}
	}
	if after := snapDiff(d); after != before {
		return "the difficulty changed from " + before + " to " + after
	}
	return out
}

// scrub makes calls that have nothing in common with any generated case.
func scrub() {
	bm, err := beatmap.ParseFromByte([]byte("osu file format v14\n[Difficulty]\nCircleSize:3.7\n[TimingPoints]\n0,345,4,1,0,50,1,0\n[HitObjects]\n17,19,100003,1,0\n401,13,100207,1,0\n50,60,100409,2,0,L|99:99,2,40\n"))
	if err != nil {
		return
	}
	d := difficulty.NewDifficulty(1, 3.7, 2.3, 4.1)
	d.SetMods(difficulty.Flashlight)
	a, _ := osu.CalculateSingleWithPeaks(bm.HitObjects, d)
	osu.CalculateSingle(bm.HitObjects, d)
	osu.CalculateStep(bm.HitObjects, d)
	osu.CalculateStepWithPeaks(bm.HitObjects, d)
	osu.CalculateStrainPeaks(bm.HitObjects, d)
	(&osu.PPv2{}).PPv2x(a, -1, -1, 1, 0, 0, d)
}

// alone compares a rating with the model's, which knows of no other call: a stale result
// may be the same every time.
func (c concCase) alone(j job, bm *beatmap.BeatMap, o *core.Obs) error {
	m := c.Maps[j.Map]
	want := inOrder(m.Objs)
	if len(want) != len(bm.HitObjects) {
		return fmt.Errorf("map %d has %d objects, the text %d", j.Map, len(bm.HitObjects), len(want))
	}
	for i, w := range want {
		if ob := bm.HitObjects[i]; ob.GetStartTime() != float64(w.T) || ob.GetStartPosition().X != float32(w.X) || ob.GetStartPosition().Y != float32(w.Y) {
			return fmt.Errorf("map %d: object %d is at %v, %v, the text says %s", j.Map, i, ob.GetStartTime(), ob.GetStartPosition(), w.Line())
		}
	}
	n := len(want) - j.Keep
	if n <= 0 {
		return nil
	}
	objs := bm.HitObjects[:n]
	d := newDiff(m, j.Mods, float64(j.Speed))
	var got osu.Attributes
	switch j.Kind {
	case "single", "pp":
		got = osu.CalculateSingle(objs, d)
	case "single+peaks":
		got, _ = osu.CalculateSingleWithPeaks(objs, d)
	case "step":
		st := osu.CalculateStep(objs, d)
		got = st[len(st)-1]
	case "step+peaks":
		st, _ := osu.CalculateStepWithPeaks(objs, d)
		got = st[len(st)-1]
	default:
		return nil
	}
	rd := refDiff(m, j.Mods, float64(j.Speed))
	r := ref.Rate(starObjs(objs, difficulty.Modifier(j.Mods)), rd, exactTimes(objs, rd))
	if r.Ambiguous || r.ZeroAngle {
		o.Label("not compared with the model")
		return nil
	}
	o.Label("compared with the model")
	for _, p := range starFields(got, r) {
		if !close64(p.g, p.w, 1e-6, 1e-9) && !withinRounding(got, r, ref.RateLate(starObjs(objs, difficulty.Modifier(j.Mods)), rd, exactTimes(objs, rd), ref.ZeroSigned)) {
			return fmt.Errorf("%s of map %d: %s is %v, alone it is %v", j.Kind, j.Map, p.n, p.g, p.w)
		}
	}
	return nil
}

func checkC24(c concCase, o *core.Obs) error {
	e := &concEnv{c: c, diffs: map[job]*difficulty.Difficulty{}}
	var snaps []string
	for _, m := range c.Maps {
		bm, err := mustParse(m)
		if err != nil {
			return err
		}
		e.maps = append(e.maps, bm)
		e.texts = append(e.texts, m.Text())
		snaps = append(snaps, snapMap(bm))
	}
	for _, j := range c.Jobs {
		k := job{Map: j.Map, Mods: j.Mods, Speed: j.Speed}
		if e.diffs[k] == nil {
			e.diffs[k] = newDiff(c.Maps[j.Map], j.Mods, float64(j.Speed))
		}
		o.Label(j.Kind)
	}
	unchanged := func(when string) error {
		for i, bm := range e.maps {
			if s := snapMap(bm); s != snaps[i] {
				return fmt.Errorf("%s, map %d changed: %s", when, i, firstDiff(snaps[i], s))
			}
		}
		return nil
	}
	// what each job gives on a map nothing else was done to
	want := make([]string, len(c.Jobs))
	for i, j := range c.Jobs {
		fresh := &concEnv{c: c, texts: e.texts, diffs: map[job]*difficulty.Difficulty{}}
		fresh.c.Shared = false
		fresh.maps = make([]*beatmap.BeatMap, len(c.Maps))
		bm, err := mustParse(c.Maps[j.Map])
		if err != nil {
			return err
		}
		fresh.maps[j.Map] = bm
		want[i] = fresh.do(j)
		if again := fresh.do(j); again != want[i] {
			return fmt.Errorf("%s of map %d twice in a row: %s", j.Kind, j.Map, firstDiff(want[i], again))
		}
		o.Compared(1)
		if err := c.alone(j, bm, o); err != nil {
			return err
		}
	}
	// and again in the opposite order, after a call with nothing in common
	for i := len(c.Jobs) - 1; i >= 0; i-- {
		scrub()
		j := c.Jobs[i]
		fresh := &concEnv{c: c, texts: e.texts, maps: make([]*beatmap.BeatMap, len(c.Maps))}
		fresh.c.Shared = false
		bm, err := mustParse(c.Maps[j.Map])
		if err != nil {
			return err
		}
		fresh.maps[j.Map] = bm
		if got := fresh.do(j); got != want[i] {
			return fmt.Errorf("%s of map %d after an unrelated call differs from an earlier one: %s", j.Kind, j.Map, firstDiff(want[i], got))
		}
		o.Compared(1)
	}
	for step, i := range c.Order {
		if got := e.do(c.Jobs[i]); got != want[i] {
			return fmt.Errorf("%s of map %d after %d other calls differs from a fresh one: %s", c.Jobs[i].Kind, c.Jobs[i].Map, step, firstDiff(want[i], got))
		}
		o.Compared(1)
	}
	if err := unchanged("after calls in sequence"); err != nil {
		return err
	}

	o.LabelIf(c.Shared, "shared difficulty")
	o.LabelIf(raceOn, "race detector on")
	users := map[int]int{}
	for _, w := range c.Workers {
		seen := map[int]bool{}
		for _, i := range w {
			if k := c.Jobs[i].Map; c.Jobs[i].Kind != "parse" && !seen[k] && len(c.Maps[k].Objs) >= 2 {
				seen[k] = true
				users[k]++
			}
		}
	}
	for _, n := range users {
		if n >= 2 {
			o.Nontrivial()
		}
	}
	races := raceErrors()
	errs := make([]error, len(c.Workers))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k, w := range c.Workers {
		wg.Add(1)
		go func(k int, w []int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[k] = fmt.Errorf("panic in a concurrent call: %v", r)
				}
			}()
			<-start
			for _, i := range w {
				if got := e.do(c.Jobs[i]); got != want[i] && errs[k] == nil {
					errs[k] = fmt.Errorf("%s of map %d, run concurrently, differs from a run alone: %s", c.Jobs[i].Kind, c.Jobs[i].Map, firstDiff(want[i], got))
				}
				runtime.Gosched()
			}
		}(k, w)
	}
	close(start)
	wg.Wait()
	if n := raceErrors() - races; n > 0 {
		return fmt.Errorf("data race between concurrent calls (reported by the race detector)")
	}
	for _, err := range errs {
		o.Compared(1)
		if err != nil {
			return err
		}
	}
	return unchanged("after concurrent calls")
}

func init() {
	core.Register("C24", "one to three generated maps, up to five different library calls (ratings, peaks, pp, parsing, position queries), a sequential history of them on shared maps compared with fresh ones, then two to four goroutines making them at once under the race detector; non-trivial: at least two goroutines rate the same map of two or more objects", 2400, 60000, drawConc, checkC24)
}
