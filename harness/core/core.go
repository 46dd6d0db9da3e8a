// Package core drives generated checks: it runs a property over rapid-generated
// cases, counts what was generated, keeps samples, writes the shrunk case of a
// failure as JSON, and replays such files without the library.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what a check observed about one case.
type Obs struct {
	labels     map[string]int
	nontrivial bool
	compared   int
	counts     map[string]int
}

// Label classifies the case (each label counts once per case).
func (o *Obs) Label(l string) { o.labels[l] = 1 }

// LabelIf labels when cond holds.
func (o *Obs) LabelIf(cond bool, l string) {
	if cond {
		o.labels[l] = 1
	}
}

// Nontrivial marks the case as satisfying the property's stated rule.
func (o *Obs) Nontrivial() { o.nontrivial = true }

// Compared counts oracle comparisons actually made.
func (o *Obs) Compared(n int) { o.compared += n }

// Count adds to a named total over all cases.
func (o *Obs) Count(name string, n int) { o.counts[name] += n }

type prop struct {
	id, rule        string
	quick, thorough int
	gen             func(t *rapid.T) any
	decode          func(b []byte) (any, error)
	check           func(c any, o *Obs) error
	limit           time.Duration // per-case hang limit
}

var registry = map[string]*prop{}

// Register adds a property. quick and thorough are total case counts over all shards.
func Register[C any](id, rule string, quick, thorough int, gen func(t *rapid.T) C, check func(c C, o *Obs) error) {
	if registry[id] != nil {
		panic("duplicate " + id)
	}
	registry[id] = &prop{
		id: id, rule: rule, quick: quick, thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		check: func(c any, o *Obs) error { return check(c.(C), o) },
		limit: 60 * time.Second,
	}
}

// SetLimit overrides the per-case hang limit of a property.
func SetLimit(id string, d time.Duration) { registry[id].limit = d }

// Stats is what one shard reports.
type Stats struct {
	ID          string            `json:"id"`
	Rule        string            `json:"rule"`
	Cases       int               `json:"cases"`
	Nontrivial  int               `json:"nontrivial"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Counts      map[string]int    `json:"counts"`
	Compared    int               `json:"compared"`
	Samples     []json.RawMessage `json:"samples"`
	Failed      bool              `json:"failed"`
	Error       string            `json:"error"`
	Requested   int               `json:"requested"`
	Saved       int               `json:"saved"`
	CutShort    bool              `json:"cut_short"`
	CompletedOK bool              `json:"completed_ok"`
}

// failReplay is the replay file format.
type failReplay struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type tb struct {
	name   string
	failed bool
	msgs   []string
	mu     sync.Mutex
}

type failNow struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Logf(f string, a ...any) {
	t.mu.Lock()
	t.msgs = append(t.msgs, fmt.Sprintf(f, a...))
	t.mu.Unlock()
}
func (t *tb) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  {}
func (t *tb) Skip(a ...any)             {}
func (t *tb) SkipNow()                  {}
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(failNow{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(failNow{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(failNow{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func newObs() *Obs { return &Obs{labels: map[string]int{}, counts: map[string]int{}} }

// runCheck runs the check on a case, turning a panic of the code under test into an error.
func runCheck(p *prop, c any) (o *Obs, err error) {
	o = newObs()
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	err = p.check(c, o)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "runtime/panic.go") || strings.Contains(lines[i], "debug.Stack") {
			continue
		}
		if strings.HasPrefix(lines[i], "\t") && (strings.Contains(lines[i], "/repo/") || strings.Contains(lines[i], "/verif/")) {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var (
	curStart atomic.Int64 // unix nanos, 0 when idle
	curJSON  atomic.Pointer[[]byte]
)

const (
	exitHang = 3
	exitMem  = 4
)

// reallyOver asks again, exactly: the cheap reading can be off for a moment.
func reallyOver(memLimit uint64) bool {
	for i := 0; i < 3; i++ {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc <= memLimit {
			return false
		}
		time.Sleep(20 * time.Millisecond)
	}
	return true
}

// watchdog ends the process when one case runs far too long or eats memory,
// leaving the case behind for the runner to replay alone.
func watchdog(p *prop, out string, limit time.Duration, memLimit uint64) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		s := curStart.Load()
		if s == 0 {
			continue
		}
		if time.Since(time.Unix(0, s)) > limit {
			die(p, out, fmt.Sprintf("no result after %v", limit), exitHang)
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > memLimit && reallyOver(memLimit) {
			die(p, out, fmt.Sprintf("more than %d MB of live memory", memLimit>>20), exitMem)
		}
	}
}

func die(p *prop, out, why string, code int) {
	if b := curJSON.Load(); b != nil {
		writeReplay(filepath.Join(out, "stuck.json"), p.id, why, *b)
	}
	os.Exit(code)
}

func writeReplay(path, id, msg string, c []byte) {
	b, _ := json.MarshalIndent(failReplay{id, msg, c}, "", " ")
	_ = os.WriteFile(path, b, 0o644)
}

func guard(p *prop, cur string, c any) (j []byte, o *Obs, err error) {
	j, merr := json.Marshal(c)
	if merr != nil {
		panic("harness: case not serialisable: " + merr.Error())
	}
	if cur != "" {
		_ = os.WriteFile(cur, j, 0o644)
	}
	curJSON.Store(&j)
	curStart.Store(time.Now().UnixNano())
	o, err = runCheck(p, c)
	curStart.Store(0)
	return
}

// Watch has the watchdog look after a call of the code under test made while
// generating; c is the case it would become. The returned function ends it.
func Watch(c any) func() {
	j, err := json.Marshal(c)
	must(err)
	curJSON.Store(&j)
	curStart.Store(time.Now().UnixNano())
	return func() { curStart.Store(0) }
}

// Main is the entry point of the check binary.
func Main() {
	testing.Init()
	id := flag.String("prop", "", "property id")
	cases := flag.Int("cases", 0, "cases to run in this shard")
	seed := flag.Uint64("seed", 1, "shard seed")
	out := flag.String("out", "", "output directory of this shard")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list properties")
	limit := flag.Duration("limit", 0, "per-case time limit (0: the property's own)")
	mem := flag.Uint64("mem", 3072, "live heap limit, MB")
	corpus := flag.String("corpus", "", "directory of saved cases to run first")
	budget := flag.Duration("budget", 0, "stop generating after this long (0: never)")
	cpu := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *cpu != "" {
		f, err := os.Create(*cpu)
		must(err)
		must(pprof.StartCPUProfile(f))
	}
	if *list {
		var ids []string
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k, registry[k].quick, registry[k].thorough)
		}
		return
	}
	p := registry[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	if *limit == 0 {
		*limit = p.limit
	}
	if *replay != "" {
		os.Exit(doReplay(p, *replay, *limit, *mem<<20))
	}
	rc := search(p, *cases, *seed, *out, *limit, *mem<<20, *corpus, *budget)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func doReplay(p *prop, path string, limit time.Duration, mem uint64) int {
	c, err := loadCase(p, path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot decode replay:", err)
		return 2
	}
	dir := os.TempDir()
	go watchdog(p, dir, limit, mem)
	_, _, err = guard(p, "", c)
	if err != nil {
		fmt.Println("REPRODUCED:", err)
		return 1
	}
	fmt.Println("replay passes")
	return 0
}

func loadCase(p *prop, path string) (any, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var fr failReplay
	if err := json.Unmarshal(b, &fr); err != nil || len(fr.Case) == 0 {
		fr.Case = b // a bare case
	}
	return p.decode(fr.Case)
}

// search runs the saved cases, then generated ones in batches, until a case fails.
func search(p *prop, cases int, seed uint64, out string, limit time.Duration, mem uint64, corpus string, budget time.Duration) int {
	begin := time.Now()
	st := &Stats{ID: p.id, Rule: p.rule, Labels: map[string]int{}, Counts: map[string]int{}, Requested: cases}
	seen := map[uint64]bool{}
	go watchdog(p, out, limit, mem)
	cur := filepath.Join(out, "cur.json")
	nontrivialSamples := 0
	var lastFail []byte
	var lastErr string
	record := func(j []byte, o *Obs) {
		st.Cases++
		st.Compared += o.compared
		for l := range o.labels {
			st.Labels[l]++
		}
		for l, n := range o.counts {
			st.Counts[l] += n
		}
		if o.nontrivial {
			st.Nontrivial++
			h := fnv.New64a()
			_, _ = h.Write(j)
			seen[h.Sum64()] = true
			if nontrivialSamples < 3 && len(j) < 4000 {
				nontrivialSamples++
				st.Samples = append(st.Samples, j)
			}
		} else if len(st.Samples) == 0 && len(j) < 2000 {
			st.Samples = append(st.Samples, j)
		}
	}
	if corpus != "" {
		files, _ := filepath.Glob(filepath.Join(corpus, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			c, err := loadCase(p, f)
			if err != nil {
				st.Error = "harness: saved case " + f + ": " + err.Error()
				break
			}
			j, o, err := guard(p, cur, c)
			st.Saved++
			record(j, o)
			if err != nil {
				lastFail, lastErr = j, err.Error()
				break
			}
		}
	}
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "20s"))
	batch := cases/16 + 1
	if batch < 25 {
		batch = 25
	}
	for k, done := uint64(0), 0; done < cases && lastFail == nil && st.Error == ""; k++ {
		if budget > 0 && time.Since(begin) > budget {
			st.CutShort = true
			break
		}
		n := batch
		if n > cases-done {
			n = cases - done
		}
		s := mix(seed + k*0x9E3779B97F4A7C15)
		if s == 0 {
			s = 1
		}
		must(flag.Set("rapid.seed", fmt.Sprint(s)))
		must(flag.Set("rapid.checks", fmt.Sprint(n)))
		t := &tb{name: p.id}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(failNow); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(t, func(rt *rapid.T) {
				c := p.gen(rt)
				j, o, err := guard(p, cur, c)
				if lastFail == nil {
					record(j, o)
				}
				if err != nil {
					// the shrunk case is the last failing one rapid runs
					lastFail, lastErr = j, err.Error()
					rt.Fatalf("%v", firstLine(err.Error()))
				}
			})
		}()
		if t.failed && lastFail == nil {
			st.Error = "harness: " + strings.Join(t.msgs, "\n")
		}
		done += n
	}
	if lastFail != nil {
		st.Failed = true
		st.Error = lastErr
		writeReplay(filepath.Join(out, "fail.json"), p.id, lastErr, lastFail)
	} else if st.Error == "" {
		st.CompletedOK = true
	}
	for h := range seen {
		st.Hashes = append(st.Hashes, h)
	}
	b, err := json.Marshal(st)
	must(err)
	must(os.WriteFile(filepath.Join(out, "stats.json"), b, 0o644))
	if st.Failed {
		return 1
	}
	if !st.CompletedOK {
		fmt.Fprintln(os.Stderr, st.Error)
		return 2
	}
	return 0
}

// mix is splitmix64: neighbouring seeds give unrelated streams.
func mix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// F is a float64 whose JSON form also holds NaN and infinities.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	b, err := json.Marshal(float64(f))
	if err != nil {
		return json.Marshal(fmt.Sprint(float64(f)))
	}
	return b, nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '"' {
		var s string
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}
		var v float64
		if _, err := fmt.Sscan(s, &v); err != nil {
			return err
		}
		*f = F(v)
		return nil
	}
	var v float64
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	*f = F(v)
	return nil
}
