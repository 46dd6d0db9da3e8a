package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
)

// ---------------------------------------------------------------- C01

type rawCase struct {
	Data []byte `json:"data"`
	Text string `json:"text"` // the same, readable
}

var hostileNums = []string{"", " ", "0", "-0", "1", "-1", "2", "8", "12", "64", "128", "255", "100", "500", "1000", "192", "256", "0.5", "-100", "-50", "1e3", "1e-9", "1e-320", "1e308", "1e309", "-1e309",
	"NaN", "nan", "-NaN", "Inf", "-Infinity", "+Inf", "infinity", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "99999999999999999999999999",
	"131072", "131073", "-131072", "9000", "9001", "20000000", "500000000", "0x10", "0x1p4", "1_000", "1,5", "abc", "1.2.3", "--1", "1 2", "٣", "\x00", "\xff", "true"}

func hostileNum(t *rapid.T) string {
	switch gen.U(t, 0, 3) {
	case 0:
		return gen.Pick(t, hostileNums...)
	case 1:
		return strconv.Itoa(gen.U(t, -100, 100000))
	}
	return strconv.Itoa(gen.U(t, 0, 512))
}

func hostileObj(t *rapid.T) string {
	ty := gen.Pick(t, "1", "2", "8", "5", "6", "12", "128", "2", "2", "8", "3", "10", "255", "132", "0", hostileNum(t))
	f := []string{hostileNum(t), hostileNum(t), hostileNum(t), ty, gen.Pick(t, "0", "2", hostileNum(t))}
	if gen.P(t, 7, 8) { // mostly plausible positions and times, so that later fields matter
		f[0], f[1], f[2] = strconv.Itoa(gen.U(t, -50, 560)), strconv.Itoa(gen.U(t, -50, 430)), strconv.Itoa(gen.U(t, -10, 8000))
	}
	switch gen.U(t, 0, 4) {
	case 0:
		f = append(f, hostileNum(t))
	case 1:
		f = append(f, hostileNum(t)+":0:0:0:0:")
	case 2, 3, 4:
		path := gen.Pick(t, "L", "B", "P", "C", "P", "B", "", "X", "LL", "|")
		n := gen.N(t, 0, 7)
		lx, ly := f[0], f[1]
		for i := 0; i < n; i++ {
			x, y := strconv.Itoa(gen.U(t, -50, 560)), strconv.Itoa(gen.U(t, -50, 430))
			switch gen.U(t, 0, 9) {
			case 0:
				x = hostileNum(t)
			case 1:
				y = hostileNum(t)
			case 2, 3:
				x, y = lx, ly
			case 4:
				x = gen.Pick(t, "-131072", "131072", "131071.9", "1e-30", "0.0001", "256.00001")
			}
			sep := ":"
			if gen.P(t, 1, 30) {
				sep = gen.Pick(t, "", "::", ";", "|")
			}
			path += "|" + x + sep + y
			lx, ly = x, y
		}
		f = append(f, path, gen.Pick(t, "1", "2", "3", "7", hostileNum(t)))
		if gen.P(t, 5, 6) {
			f = append(f, gen.Pick(t, "100", "0", "0.0001", "35.7", "-5", "300", hostileNum(t)))
		}
		if gen.P(t, 1, 3) {
			f = append(f, gen.Pick(t, "0|0", "2|4|8|2|2|2|2|2", "|||", "x|y", hostileNum(t)))
		}
	}
	if gen.P(t, 1, 8) {
		f = f[:gen.U(t, 0, len(f))]
	}
	return strings.Join(f, ",")
}

func hostileTP(t *rapid.T) string {
	f := []string{hostileNum(t), hostileNum(t)}
	if gen.P(t, 2, 3) {
		f[0] = strconv.Itoa(gen.U(t, -2000, 8000))
	}
	if gen.P(t, 1, 2) {
		f[1] = gen.Pick(t, "300", "500", "0", "-0", "1e-300", "1e9", "0.001", "-1", "-100", "NaN", "-0.0001", "-1e300", "2147483647", "6")
	}
	for i := gen.N(t, 0, 6); i > 0; i-- {
		f = append(f, gen.Pick(t, "0", "1", "1", "4", hostileNum(t)))
	}
	return strings.Join(f, ",")
}

func hostileLine(t *rapid.T, sec string) string {
	switch sec {
	case "General", "Metadata", "Difficulty":
		k := gen.Pick(t, gen.HeaderKeys[sec]...)
		if gen.P(t, 1, 2) {
			return k + ":" + hostileNum(t)
		}
		return gen.Pick(t, k, k+":"+gen.Str(t), ":", ":x", "::", k+" :: 1", "x:y")
	case "Events":
		return gen.Pick(t, gen.BgLine(t), gen.BreakLine(t), "2,"+hostileNum(t)+","+hostileNum(t), "0,0", "2", "2,,", ",,", "0,,", gen.NoiseEvent(t))
	case "TimingPoints":
		return hostileTP(t)
	case "HitObjects":
		return hostileObj(t)
	}
	return gen.Str(t)
}

func hostileText(t *rapid.T) string {
	var b strings.Builder
	b.WriteString(gen.Pick(t, "osu file format v14", "osu file format v14", "osu file format v5", "osu file format v", "osu file format vx", "osu file format v-1", "", "osu file format v99999999999999999999") + "\n")
	secs := []string{"General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects"}
	if gen.P(t, 1, 8) {
		secs = append(secs, gen.Pick(t, "Colours", "[", "]", "Hit Objects", ""))
		gen.Shuffle(t, secs)
	}
	for _, s := range secs {
		if gen.P(t, 1, 30) {
			continue
		}
		b.WriteString("[" + s + "]\n")
		if s == "Metadata" && gen.P(t, 19, 20) {
			b.WriteString("Title:T\n")
		}
		if s == "TimingPoints" && gen.P(t, 9, 10) {
			b.WriteString(gen.Pick(t, "0,500,4,1,0,100,1,0\n", "0,500\n", "100,300,4\n", "0,NaN,4,1,0,100,1,0\n", "0,0\n", "0,-100,4,1,0,100,0,0\n"))
		}
		max := 3
		if s == "HitObjects" {
			max = 8
		}
		for i := gen.N(t, 0, max); i > 0; i-- {
			b.WriteString(hostileLine(t, s) + "\n")
		}
	}
	return b.String()
}

// mutate edits text at the byte, field and line level.
func mutate(t *rapid.T, s string) string {
	n := gen.N(t, 1, 6)
	for i := 0; i < n && len(s) > 0; i++ {
		switch gen.U(t, 0, 9) {
		case 0: // cut off
			s = s[:gen.U(t, 0, len(s))]
		case 1: // drop a byte
			p := gen.U(t, 0, len(s)-1)
			s = s[:p] + s[p+1:]
		case 2: // insert bytes
			p := gen.U(t, 0, len(s))
			s = s[:p] + gen.Pick(t, ",", ":", "|", "\n", "[", "]", "-", "9", "e", ".", "NaN", "\x00", "\xff\xfe", "\r", "//", " ") + s[p:]
		case 3: // change a byte
			p := gen.U(t, 0, len(s)-1)
			s = s[:p] + string([]byte{byte(gen.U(t, 0, 255))}) + s[p+1:]
		default:
			ls := strings.Split(s, "\n")
			k := gen.U(t, 0, len(ls)-1)
			switch gen.U(t, 0, 4) {
			case 0:
				ls = append(ls[:k], ls[k+1:]...)
			case 1:
				ls = append(ls[:k+1], ls[k:]...)
			default:
				sep := ","
				if !strings.Contains(ls[k], ",") {
					sep = ":"
				} else if strings.Contains(ls[k], "|") && gen.P(t, 1, 2) {
					sep = gen.Pick(t, "|", ":")
				}
				f := strings.Split(ls[k], sep)
				p := gen.U(t, 0, len(f)-1)
				switch gen.U(t, 0, 3) {
				case 0:
					f = append(f[:p], f[p+1:]...)
				case 1:
					f = f[:p]
				default:
					f[p] = hostileNum(t)
				}
				ls[k] = strings.Join(f, sep)
			}
			s = strings.Join(ls, "\n")
		}
	}
	return s
}

func drawRaw(t *rapid.T) rawCase {
	var s string
	var b []byte
	switch gen.U(t, 0, 19) {
	case 0: // arbitrary bytes
		b = []byte(rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes"))
		return rawCase{b, string(b)}
	case 1, 2, 3, 4, 5, 6:
		m := gen.DrawMap(t, gen.Opt{MaxSegs: 2, MinObjs: 3, NaNTP: true, FracTimes: true})
		m.Extra = []gen.Extra{{Section: "Events", Lines: gen.EventLines(t, 5)}}
		s = mutate(t, m.Text())
	default:
		s = hostileText(t)
		if gen.P(t, 1, 10) {
			s = mutate(t, s)
		}
	}
	b = gen.Encode(s, gen.Pick(t, "utf8", "utf8", "utf8", "utf8", "utf8", "utf8bom", "utf16le", "utf16be"))
	if len(b) > 0 && gen.P(t, 1, 30) {
		b = b[:gen.U(t, 0, len(b))]
	}
	return rawCase{b, s}
}

const workBudget = 300000 // px of slider travel per case

// sliderTravel bounds the slider travel a file asks for.
func sliderTravel(data []byte) float64 {
	dec, _ := io.ReadAll(transform.NewReader(bytes.NewReader(data), unicode.BOMOverride(unicode.UTF8.NewDecoder())))
	sum := 0.0
	for _, l := range strings.Split(string(dec), "\n") {
		f := strings.Split(l, ",")
		if len(f) < 8 {
			continue
		}
		rep, e1 := strconv.ParseFloat(strings.TrimSpace(f[6]), 64)
		ln, e2 := strconv.ParseFloat(strings.TrimSpace(f[7]), 64)
		if e1 != nil || e2 != nil || math.IsNaN(rep) || math.IsNaN(ln) || math.Abs(rep) > 1e6 || math.Abs(ln) > 1e6 {
			continue
		}
		sum += math.Max(1, math.Abs(rep)) * (math.Abs(ln) + 1)
	}
	return sum
}

// checkBytes is the oracle of C01, shared with the coverage-guided target.
func checkBytes(data []byte, o *core.Obs) error {
	if sliderTravel(data) > workBudget {
		o.Label("over the travel budget")
		return nil
	}
	bm, err := beatmap.ParseFromByte(data)
	if (bm == nil) == (err == nil) {
		return fmt.Errorf("returned beatmap %v and error %v", bm != nil, err)
	}
	if err != nil {
		o.Label("rejected")
		return nil
	}
	o.Label("accepted")
	if len(bm.HitObjects) > 0 {
		o.Nontrivial()
		o.Label("accepted with objects")
	}
	if !finite(bm.SliderMultiplier, bm.Timings.SliderMult, bm.Timings.TickRate, bm.Difficulty.GetHP(), bm.Difficulty.GetCS(), bm.Difficulty.GetOD(), bm.Difficulty.GetAR()) {
		return fmt.Errorf("a difficulty setting is not finite: %s", snapDiff(bm.Difficulty))
	}
	for i, ob := range bm.HitObjects {
		if ob == nil {
			return fmt.Errorf("object %d is nil", i)
		}
		st, en := ob.GetStartTime(), ob.GetEndTime()
		if !finite(st, en) {
			return fmt.Errorf("object %d: times %v..%v", i, st, en)
		}
		for _, p := range []float64{st - 10, st, st + (en-st)/3, (st + en) / 2, en, en + 10} {
			if v := ob.GetPositionAt(p); !finiteV(v) {
				return fmt.Errorf("object %d: position %v at %v", i, v, p)
			}
		}
		for _, m := range []difficulty.Modifier{0, difficulty.HardRock, difficulty.Easy} {
			if a, b := ob.GetStackedStartPositionMod(m), ob.GetStackedEndPositionMod(m); !finiteV(a) || !finiteV(b) {
				return fmt.Errorf("object %d: stacked positions %v, %v", i, a, b)
			}
		}
		sl, ok := ob.(*objects.Slider)
		if !ok {
			continue
		}
		o.Label("sliders")
		if en < st {
			return fmt.Errorf("slider %d ends at %v before its start %v", i, en, st)
		}
		if sl.RepeatCount < 1 {
			return fmt.Errorf("slider %d: %d passes", i, sl.RepeatCount)
		}
		for _, p := range sl.ScorePoints {
			if !finite(p.Time) {
				return fmt.Errorf("slider %d: tick at %v", i, p.Time)
			}
		}
		o.Compared(1)
	}
	return nil
}

// ---------------------------------------------------------------- C02

type readCase struct {
	Map    gen.Map `json:"map"`
	Enc    string  `json:"enc"`
	Mode   string  `json:"mode"`   // fault, chunks, long
	At     int     `json:"at"`     // permille of the data delivered before the fault
	Err    string  `json:"err"`    // which error
	With   bool    `json:"with"`   // the last bytes come together with the error / EOF
	Once   bool    `json:"once"`   // the error is reported once, later reads say EOF
	Chunks []int   `json:"chunks"` // read sizes, cycled; 0 is an empty read
	Long   int     `json:"long"`   // length of the long line
	Where  int     `json:"where"`  // permille of the lines before the long one
	Kind   string  `json:"kind"`
}

type chunkReader struct {
	data   []byte
	chunks []int
	i      int
	err    error
	with   bool
	once   bool
	reads  int
}

func (r *chunkReader) fail() error {
	e := r.err
	if r.once {
		r.err = io.EOF
	}
	return e
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.reads++
	if len(r.data) == 0 {
		return 0, r.fail()
	}
	n := len(r.data)
	if len(r.chunks) > 0 {
		n = r.chunks[r.i%len(r.chunks)]
		r.i++
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, r.fail()
	}
	return n, nil
}

var errDisk = errors.New("input/output error")

func readErr(s string) error {
	switch s {
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "pipe":
		return io.ErrClosedPipe
	case "wrapped":
		return fmt.Errorf("network: %w", io.EOF)
	case "path":
		return &os.PathError{Op: "read", Path: "x", Err: os.ErrDeadlineExceeded}
	case "progress":
		return io.ErrNoProgress
	}
	return errDisk
}

func drawRead(t *rapid.T) readCase {
	c := readCase{Map: gen.DrawMap(t, gen.Opt{MaxSegs: 3, MinObjs: 1}), Enc: gen.Pick(t, "utf8", "utf8", "utf8bom", "utf16le", "utf16be")}
	c.Mode = gen.Pick(t, "fault", "chunks")
	if gen.P(t, 1, 16) {
		c.Mode = "long"
	}
	if gen.P(t, 1, 8) { // a long file
		at := 100000
		for k := gen.U(t, 200, 3000); k > 0; k-- {
			at += 100
			c.Map.Objs = append(c.Map.Objs, gen.Obj{K: "c", X: core.F(k % 500), Y: 50, T: core.F(at)})
		}
	}
	c.With = gen.P(t, 1, 2)
	for i := gen.N(t, 0, 5); i > 0; i-- {
		c.Chunks = append(c.Chunks, gen.Pick(t, 1, 2, 3, 7, 16, 100, 511, 4096, 0))
	}
	some := false
	for _, v := range c.Chunks {
		some = some || v > 0
	}
	if !some {
		c.Chunks = nil
	}
	switch c.Mode {
	case "fault":
		c.At = gen.Pick(t, gen.U(t, 0, 1000), gen.U(t, 900, 1000), 0, 1000)
		c.Once = gen.P(t, 1, 2)
		c.Err = gen.Pick(t, "disk", "unexpected", "pipe", "wrapped", "path", "progress")
	case "long":
		c.Long = gen.Pick(t, 60000, 65535, 65536, 70000, 200000, 1000000)
		if gen.P(t, 1, 12) {
			c.Long = gen.Pick(t, 10*1024*1024-1, 10*1024*1024, 10*1024*1024+1, 12000000)
		}
		c.Where = gen.U(t, 0, 1000)
		if gen.P(t, 1, 3) {
			c.Long = gen.U(t, 4000, 1000000)
		}
		c.Kind = gen.Pick(t, "comment", "noise", "blank", "pad", "pad", "padleft", "tags")
	}
	return c
}

func checkC02(c readCase, o *core.Obs) error {
	text := c.Map.Text()
	data := gen.Encode(text, c.Enc)
	base, err := parse(text)
	if err != nil {
		return fmt.Errorf("a valid beatmap was rejected: %v", err)
	}
	o.Label(c.Mode)
	o.Nontrivial()
	o.Compared(1)
	switch c.Mode {
	case "fault":
		k := len(data) * c.At / 1000
		r := &chunkReader{data: data[:k], chunks: c.Chunks, err: readErr(c.Err), with: c.With, once: c.Once}
		o.LabelIf(c.Once, "error reported once")
		o.LabelIf(k == len(data), "fault after the last byte")
		bm, err := beatmap.ParseFromReader(r)
		if err == nil || bm != nil {
			return fmt.Errorf("reader failed with %q after %d of %d bytes, but the parser returned beatmap=%v error=%v", readErr(c.Err), k, len(data), bm != nil, err)
		}
	case "chunks":
		r := &chunkReader{data: data, chunks: c.Chunks, err: io.EOF, with: c.With}
		bm, err := beatmap.ParseFromReader(r)
		if err != nil {
			return fmt.Errorf("chunked reading (%v, with EOF %v) failed: %v", c.Chunks, c.With, err)
		}
		if a, b := snapMap(base), snapMap(bm); a != b {
			return fmt.Errorf("chunked reading (%v, with EOF %v) changed the result: %s", c.Chunks, c.With, firstDiff(a, b))
		}
	case "long":
		lines := strings.Split(text, "\n")
		at := 2 + (len(lines)-2)*c.Where/1000
		long := strings.Repeat("x", c.Long-2)
		keep := at // lines from here on stay after the long one
		switch c.Kind {
		case "pad", "padleft": // the line itself, blown up with blanks that mean nothing
			blanks := strings.Repeat(" ", c.Long)
			at = min(at, len(lines)-1)
			keep = at + 1
			if c.Kind == "padleft" && !strings.HasPrefix(lines[at], "//") {
				long = blanks + lines[at]
			} else {
				long = lines[at] + blanks
			}
		case "tags":
			long = "[Metadata]\nTags:" + long
			keep, at = len(lines), len(lines)
		case "comment", "":
			long = "//" + long
		case "noise":
			long = "zz" + long
		case "blank":
			long = strings.Repeat(" ", c.Long)
		}
		withLine := strings.Join(lines[:at], "\n") + "\n" + long + "\n" + strings.Join(lines[keep:], "\n")
		bm, err := beatmap.ParseFromReader(bufio.NewReader(bytes.NewReader(gen.Encode(withLine, c.Enc))))
		if err != nil {
			o.Label("long line refused")
			if bm != nil {
				return fmt.Errorf("both a beatmap and the error %v", err)
			}
			if c.Long <= 1000000 {
				return fmt.Errorf("a line of %d bytes was refused: %v", c.Long, err)
			}
			return nil
		}
		o.Label("long line read")
		o.Label("long " + c.Kind)
		if c.Kind == "tags" {
			if len(bm.Tags) != c.Long-2 {
				return fmt.Errorf("a tags line of %d bytes was read as %d bytes", c.Long-2, len(bm.Tags))
			}
			bm.Tags = base.Tags
		}
		if a, b := snapMap(base), snapMap(bm); a != b {
			return fmt.Errorf("a line of %d bytes silently changed the rest of the file: %s", c.Long, firstDiff(a, b))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C03

type headCase struct {
	First  string              `json:"first"`
	Ver    int                 `json:"ver"`
	Blocks []string            `json:"blocks"` // section order
	KVs    map[string][]gen.KV `json:"kvs"`
	Rest   map[string][]string `json:"rest"`
}

func drawHead(t *rapid.T) headCase {
	c := headCase{Ver: gen.Pick(t, 14, 14, 13, 12, 9, 6, 5, 3, 128), KVs: map[string][]gen.KV{}, Rest: map[string][]string{}}
	c.First = "osu file format v" + strconv.Itoa(c.Ver) + gen.Pick(t, "", "", " ", "\t", "  ")
	c.Blocks = []string{"General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects"}
	gen.Shuffle(t, c.Blocks)
	for _, s := range []string{"General", "Metadata", "Difficulty"} {
		c.KVs[s] = gen.HeaderLines(t, s, true)
	}
	v := lastValues(c)
	if v["Title"]+v["Artist"]+v["Creator"] == "" {
		c.KVs["Metadata"] = append(c.KVs["Metadata"], gen.KV{K: "Creator", V: "me"})
	}
	c.Rest["Events"] = gen.EventLines(t, 2)
	c.Rest["TimingPoints"] = []string{"0,500,4,1,0,100,1,0"}
	if gen.P(t, 1, 2) {
		c.Rest["HitObjects"] = []string{"100,100,1000,1,0", "200,100,1500,2,0,L|300:100,1,100"}
	}
	return c
}

func lastValues(c headCase) map[string]string {
	v := map[string]string{}
	for _, s := range []string{"General", "Metadata", "Difficulty"} {
		for _, kv := range c.KVs[s] {
			v[strings.TrimSpace(kv.K)] = strings.TrimSpace(kv.V)
		}
	}
	return v
}

func (c headCase) text() string {
	d := gen.Doc{First: c.First}
	for _, s := range c.Blocks {
		var ls []string
		for _, kv := range c.KVs[s] {
			ls = append(ls, kv.Line())
		}
		d.Blocks = append(d.Blocks, gen.Extra{Section: s, Lines: append(ls, c.Rest[s]...)})
	}
	return d.Render()
}

func checkC03(c headCase, o *core.Obs) error {
	bm, err := parse(c.text())
	if err != nil {
		return fmt.Errorf("a valid beatmap was rejected: %v", err)
	}
	v := lastValues(c)
	n := 0
	for _, s := range []string{"General", "Metadata", "Difficulty"} {
		n += len(c.KVs[s])
	}
	if n >= 5 {
		o.Nontrivial()
	}
	o.LabelIf(n > len(v), "repeated keys")
	_, hasAR := v["ApproachRate"]
	_, hasOD := v["OverallDifficulty"]
	o.LabelIf(!hasAR && hasOD, "AR from OD")
	if bm.FileVersion != c.Ver {
		return fmt.Errorf("format version %d, declared %q", bm.FileVersion, c.First)
	}
	for _, p := range []struct{ k, got string }{{"Title", bm.Title}, {"TitleUnicode", bm.TitleUnicode}, {"Artist", bm.Artist}, {"ArtistUnicode", bm.ArtistUnicode},
		{"Creator", bm.Creator}, {"Version", bm.Version}, {"Source", bm.Source}, {"Tags", bm.Tags}, {"AudioFilename", bm.Audio}} {
		o.Compared(1)
		if p.got != v[p.k] {
			return fmt.Errorf("%s read as %q, declared %q", p.k, p.got, v[p.k])
		}
	}
	integer := func(k string, def int64) int64 {
		if s, ok := v[k]; ok {
			x, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				panic("harness: " + s)
			}
			return x
		}
		return def
	}
	for _, p := range []struct {
		k   string
		got int64
	}{{"Mode", int64(bm.Mode)}, {"PreviewTime", bm.PreviewTime}, {"BeatmapID", bm.MapID}, {"BeatmapSetID", bm.SetID}} {
		o.Compared(1)
		if w := integer(p.k, 0); p.got != w {
			return fmt.Errorf("%s read as %d, declared %d", p.k, p.got, w)
		}
	}
	num := func(k string, def, lo, hi float64) float64 {
		if s, ok := v[k]; ok {
			x, err := strconv.ParseFloat(s, 64)
			if err != nil {
				panic("harness: " + s)
			}
			return math.Max(lo, math.Min(hi, x))
		}
		return def
	}
	od := num("OverallDifficulty", 5, 0, 10)
	for _, p := range []struct {
		k         string
		got, want float64
	}{
		{"StackLeniency", bm.StackLeniency, num("StackLeniency", 0.7, math.Inf(-1), math.Inf(1))},
		{"SliderMultiplier", bm.SliderMultiplier, num("SliderMultiplier", 1.4, 0.4, 3.6)},
		{"SliderMultiplier (timing)", bm.Timings.SliderMult, num("SliderMultiplier", 1.4, 0.4, 3.6)},
		{"SliderTickRate", bm.Timings.TickRate, num("SliderTickRate", 1, 0.5, 8)},
		{"HPDrainRate", bm.Difficulty.GetHP(), num("HPDrainRate", 5, 0, 10)},
		{"CircleSize", bm.Difficulty.GetCS(), num("CircleSize", 5, 0, 10)},
		{"OverallDifficulty", bm.Difficulty.GetOD(), od},
		{"ApproachRate", bm.Difficulty.GetAR(), num("ApproachRate", od, 0, 10)},
	} {
		o.Compared(1)
		if p.got != p.want {
			return fmt.Errorf("%s read as %v, want %v", p.k, p.got, p.want)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C04

type reprCase struct {
	Base   gen.Doc  `json:"base"`
	Parts  []part   `json:"parts"` // the same lines, sections reordered and split
	Enc    string   `json:"enc"`
	CRLF   bool     `json:"crlf"`
	NoEnd  bool     `json:"no_end"`
	Reader bool     `json:"reader"`
	Lead   []string `json:"lead"` // blank lines before the format line
}

// part is a stretch of a base block with filler lines in front of each of its lines.
type part struct {
	Block  int        `json:"block"`
	From   int        `json:"from"`
	To     int        `json:"to"`
	Pad    [2]string  `json:"pad"` // blanks around the section name
	Filler [][]string `json:"filler"`
}

func drawDoc(t *rapid.T, maxSegs int) gen.Doc {
	m := gen.DrawMap(t, gen.Opt{MaxSegs: maxSegs, MinObjs: 2, FracTimes: true, NaNTP: true})
	d := gen.DocOf(m)
	if gen.P(t, 3, 4) {
		for i := range d.Blocks {
			if gen.HeaderKeys[d.Blocks[i].Section] != nil {
				var ls []string
				for _, kv := range gen.HeaderLines(t, d.Blocks[i].Section, true) {
					ls = append(ls, kv.Line())
				}
				if d.Blocks[i].Section == "Metadata" {
					ls = append(ls, "Creator: me")
				}
				d.Blocks[i].Lines = ls
			}
		}
	}
	ev := gen.Extra{Section: "Events", Lines: gen.EventLines(t, 6)}
	rest := append([]gen.Extra{ev}, d.Blocks[3:]...)
	d.Blocks = append(d.Blocks[:3:3], rest...)
	return d
}

func filler(t *rapid.T) []string {
	var out []string
	for i := gen.N(t, 0, 2); i > 0 && gen.P(t, 1, 3); i-- {
		out = append(out, gen.Pick(t, "", "", " ", "\t", "//", "// a comment", "//a:b", "//100,100,1000,1,0", "//[HitObjects]", "//"+gen.Str(t)))
	}
	return out
}

func drawRepr(t *rapid.T) reprCase {
	c := reprCase{Base: drawDoc(t, 3), Enc: gen.Pick(t, "utf8", "utf8bom", "utf16le", "utf16be", "utf8"), CRLF: gen.P(t, 1, 2), NoEnd: gen.P(t, 1, 3), Reader: gen.P(t, 1, 2)}
	split := gen.P(t, 1, 2)
	for b, blk := range c.Base.Blocks {
		from := 0
		for {
			to := len(blk.Lines)
			if split && to-from > 1 && gen.P(t, 1, 2) {
				to = gen.U(t, from, to)
			}
			p := part{Block: b, From: from, To: to}
			if gen.P(t, 1, 6) {
				p.Pad = [2]string{gen.Blank(t), gen.Blank(t)}
			}
			for i := from; i < to; i++ {
				p.Filler = append(p.Filler, filler(t))
			}
			c.Parts = append(c.Parts, p)
			from = to
			if from >= len(blk.Lines) {
				break
			}
		}
	}
	// reorder whole parts, keeping the order of the parts of one section
	if gen.P(t, 2, 3) {
		ord := make([]part, len(c.Parts))
		copy(ord, c.Parts)
		gen.Shuffle(t, ord)
		next := map[int]int{}
		perBlock := map[int][]part{}
		for _, p := range c.Parts {
			perBlock[p.Block] = append(perBlock[p.Block], p)
		}
		for i, p := range ord {
			c.Parts[i] = perBlock[p.Block][next[p.Block]]
			next[p.Block]++
		}
	}
	for i := gen.N(t, 0, 2); i > 0 && gen.P(t, 1, 4); i-- {
		c.Lead = append(c.Lead, gen.Pick(t, "", " "))
	}
	return c
}

func checkC04(c reprCase, o *core.Obs) error {
	base, err := parse(c.Base.Render())
	if err != nil {
		return fmt.Errorf("a valid beatmap was rejected: %v", err)
	}
	lines := append([]string{}, c.Lead...)
	lines = append(lines, c.Base.First, "")
	for _, p := range c.Parts {
		lines = append(lines, p.Pad[0]+"["+c.Base.Blocks[p.Block].Section+"]"+p.Pad[1])
		for i := p.From; i < p.To; i++ {
			lines = append(lines, p.Filler[i-p.From]...)
			lines = append(lines, c.Base.Blocks[p.Block].Lines[i])
		}
	}
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	text := strings.Join(lines, nl)
	if !c.NoEnd {
		text += nl
	}
	data := gen.Encode(text, c.Enc)
	var bm *beatmap.BeatMap
	if c.Reader {
		bm, err = beatmap.ParseFromReader(strings.NewReader(string(data)))
	} else {
		bm, err = beatmap.ParseFromByte(data)
	}
	if err != nil {
		return fmt.Errorf("the same map, encoded as %s (CRLF %v, final newline %v), was rejected: %v", c.Enc, c.CRLF, !c.NoEnd, err)
	}
	o.Label(c.Enc)
	o.LabelIf(c.CRLF, "CRLF")
	o.LabelIf(len(c.Parts) > len(c.Base.Blocks), "split sections")
	o.LabelIf(c.NoEnd, "no final newline")
	if len(base.HitObjects) > 0 {
		o.Nontrivial()
	}
	o.Compared(1)
	if a, b := snapMap(base), snapMap(bm); a != b {
		return fmt.Errorf("encoded as %s (CRLF %v, final newline %v, %d parts): %s", c.Enc, c.CRLF, !c.NoEnd, len(c.Parts), firstDiff(a, b))
	}
	return nil
}

// ---------------------------------------------------------------- C27

type junkCase struct {
	Lead []string    `json:"lead"` // useless lines before the format line
	Base gen.Doc     `json:"base"`
	Junk []junkLine  `json:"junk"`
	Secs []junkBlock `json:"secs"`
}

type junkLine struct {
	Block int    `json:"block"`
	At    int    `json:"at"`
	Line  string `json:"line"`
	Kind  string `json:"kind"`
}

type junkBlock struct {
	Before int       `json:"before"`
	Sec    gen.Extra `json:"sec"`
}

var notNumbers = []string{"", "abc", "-", "1.2.3", "1 2", "x5", "5x", "--3", "1;2", "1'000", "½"}

func junkFor(t *rapid.T, sec string) (string, string) {
	bad := func() string { return gen.Pick(t, notNumbers...) }
	switch sec {
	case "General", "Metadata", "Difficulty":
		switch gen.U(t, 0, 2) {
		case 0:
			return gen.Pick(t, "Countdown: 0", "LetterboxInBreaks: 1", "SamplesMatchPlaybackRate:1", "TitleX:no", "Foo: bar:baz", "XTitle: no", ": x", "AR:3", "Mode2:3", "BeatmapIDs:1", "CircleSize2:3", "osu:1", "title:no", "TITLE: no", "BeatmapId:7", "beatmapID:7", "circlesize: 3", "audiofilename: a", "stackLeniency: 0.1", "MODE:3", gen.HeaderKeys[gen.Pick(t, otherSections(sec)...)][0]+":7"), "unknown key"
		case 1:
			return gen.Pick(t, gen.HeaderKeys[sec]...) + gen.Pick(t, "", " 7", "=7", " ", ";3"), "no separator"
		}
	case "Events":
		switch gen.U(t, 0, 2) {
		case 0:
			return gen.NoiseEvent(t), "noise event"
		case 1:
			return gen.Pick(t, "2", "Break", "2,100", "Break,500", "0", "Background", "0,0", "2;100;200", "Break 100 200"), "missing fields"
		}
		return gen.Pick(t, "2,"+bad()+",5000", "Break,100,"+bad(), "2,"+bad()+","+bad()), "malformed fields"
	case "TimingPoints":
		switch gen.U(t, 0, 1) {
		case 0:
			return gen.Pick(t, "1000", "500;300", "abc", "0", "-"), "missing fields"
		}
		return gen.Pick(t, bad()+",500,4,1,0,100,1,0", "1000,"+bad()+",4,1,0,100,1,0", bad()+","+bad(), bad()+",-50", "NaN,500,4,1,0,100,1,0", "2147483648,400", "100,1e300,4"), "malformed fields"
	case "HitObjects":
		switch gen.U(t, 0, 2) {
		case 0:
			return gen.Pick(t, "100", "100,100", "100,100,900", "100,100,900,1", "100,100,900,8,0", "100,100,900,2,0", "100,100,900,2,0,L|200:100", "100,100,900,2,0,L|200:100,1", "abc", ",,,"), "missing fields"
		case 1:
			return gen.Pick(t, "100,100,900,0,0", "100,100,900,4,0", "100,100,900,16,0,0:0:0:0:", "100,100,900,64,0", "100,100,900,116,0,5,6,7", "100,100,900,x,0"), "no known type"
		}
		b := bad()
		return gen.Pick(t, b+",100,900,1,0", "100,"+b+",900,1,0", "100,100,"+b+",1,0", "100,100,900,"+b+",0", "100,100,900,12,0,"+b, "100,100,900,2,0,L|"+b+":100,1,100", "100,100,900,2,0,L|200:"+b+",1,100",
			"100,100,900,2,0,L|200,1,100", "100,100,900,2,0,L|200:100,"+b+",100", "100,100,900,6,0,B|200:100|3:4,1,"+b, "NaN,100,900,1,0", "100,Inf,900,1,0", "200000,0,900,1,0", "100,100,3000000000,1,0",
			"100,100,900,12,0,3000000000", "100,100,900,2,0,L|200:100,9001,100", "100,100,900,2,0,L|200:100,1,200000", "100,100,900,2,0,L|NaN:100,1,100", "100,100,900,2,0,L|200:100,1,NaN"), "malformed fields"
	}
	return "//" + gen.Str(t), "comment"
}

func otherSections(sec string) []string {
	var out []string
	for _, s := range []string{"General", "Metadata", "Difficulty"} {
		if s != sec {
			out = append(out, s)
		}
	}
	return out
}

// useless draws a line that means nothing outside of any section.
func useless(t *rapid.T) string {
	var l string
	switch gen.U(t, 0, 4) {
	case 0:
		c := rune(gen.U(t, 0x20, 0x7e))
		l = string(c) + string(c^1) + gen.Str(t) // neighbours, as in a byte order mark
	case 1:
		l = hostileLine(t, gen.Pick(t, "General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects"))
	case 2:
		l = "//" + gen.Str(t)
	case 3:
		l = gen.Pick(t, "", " ", "#!osu", "%PDF", "\x00", "osu!", "osu file", "PK", "<xml>", "{", "]", "()")
	default:
		l = gen.Str(t)
	}
	if strings.HasPrefix(strings.TrimSpace(l), "[") || strings.HasPrefix(l, "osu file format") || strings.HasPrefix(l, "\ufeff") {
		l = "x" + l
	}
	return l
}

// plainLine draws an ordinary line of a section.
func plainLine(t *rapid.T, sec string) string {
	switch sec {
	case "Events":
		return gen.Pick(t, gen.BgLine(t), gen.BreakLine(t))
	case "TimingPoints":
		return gen.Pick(t, "0", "-100", "500", "1234") + "," + gen.Pick(t, "300", "-50", "400.5") + ",4,2,1,60,1,0"
	case "HitObjects":
		return gen.Pick(t, "100,100,900,1,0", "300,200,1500,5,2,0:0:0:0:", "10,20,2000,2,0,L|100:20,1,90", "256,192,3000,12,0,4000")
	}
	k := gen.Pick(t, gen.HeaderKeys[sec]...)
	return k + ":" + gen.HeaderValue(t, k)
}

func drawJunk(t *rapid.T) junkCase {
	c := junkCase{Base: drawDoc(t, 2)}
	for i := gen.N(t, 1, 6); i > 0; i-- {
		b := gen.U(t, 0, len(c.Base.Blocks)-1)
		line, kind := junkFor(t, c.Base.Blocks[b].Section)
		c.Junk = append(c.Junk, junkLine{b, gen.U(t, 0, len(c.Base.Blocks[b].Lines)), line, kind})
	}
	if gen.P(t, 1, 3) {
		for i := gen.U(t, 1, 3); i > 0; i-- {
			c.Lead = append(c.Lead, useless(t))
		}
	}
	for i := gen.N(t, 0, 2); i > 0; i-- {
		var ls []string
		name := gen.Pick(t, "Colours", "Editor", "Variables", "Fonts", "CatchTheBeat", "Mania", "foo bar", "X", "Hit Objects", "TimingPoint", "Storyboard", "Video", "Sounds", "Breaks", "Objects", "Timing", "Colors")
		if gen.P(t, 1, 2) { // nearly a section, with lines that section would take
			of := gen.Pick(t, "General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects")
			name = gen.Pick(t, strings.ToLower(of), strings.ToUpper(of), of+"2", of+"#2", of+"X", "X"+of, of[:len(of)-1], of[1:], of+" 2", "Old "+of, of+of, of+".bak", of+"/", "Other"+of)
			for k := gen.N(t, 1, 4); k > 0; k-- {
				ls = append(ls, plainLine(t, of))
			}
		}
		for k := gen.N(t, 0, 5); k > 0; k-- {
			ls = append(ls, hostileLine(t, gen.Pick(t, "General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects", "")))
		}
		for i, l := range ls {
			if strings.HasPrefix(strings.TrimSpace(l), "[") || strings.HasPrefix(l, "osu file format") {
				ls[i] = "x" + l
			}
		}
		c.Secs = append(c.Secs, junkBlock{gen.U(t, 0, len(c.Base.Blocks)), gen.Extra{Section: name, Lines: ls}})
	}
	return c
}

func checkC27(c junkCase, o *core.Obs) error {
	base, err := parse(c.Base.Render())
	if err != nil {
		return fmt.Errorf("a valid beatmap was rejected: %v", err)
	}
	d := gen.Doc{First: c.Base.First}
	for b := 0; b <= len(c.Base.Blocks); b++ {
		for _, s := range c.Secs {
			if s.Before == b {
				d.Blocks = append(d.Blocks, s.Sec)
				o.Label("unknown section")
			}
		}
		if b == len(c.Base.Blocks) {
			break
		}
		blk := gen.Extra{Section: c.Base.Blocks[b].Section}
		for i := 0; i <= len(c.Base.Blocks[b].Lines); i++ {
			for _, j := range c.Junk {
				if j.Block == b && j.At == i {
					blk.Lines = append(blk.Lines, j.Line)
					o.Label(j.Kind)
				}
			}
			if i < len(c.Base.Blocks[b].Lines) {
				blk.Lines = append(blk.Lines, c.Base.Blocks[b].Lines[i])
			}
		}
		d.Blocks = append(d.Blocks, blk)
	}
	text := d.Render()
	if len(c.Lead) > 0 {
		text = strings.Join(c.Lead, "\n") + "\n" + text
		o.Label("lines before the format line")
	}
	bm, err := parse(text)
	if err != nil {
		return fmt.Errorf("rejected with extra lines: %v", err)
	}
	o.Nontrivial()
	o.Compared(1)
	if a, b := snapMap(base), snapMap(bm); a != b {
		return fmt.Errorf("extra lines %+v after %q changed the beatmap: %s", c.Junk, c.Lead, firstDiff(a, b))
	}
	return nil
}

// ---------------------------------------------------------------- C29

type eventCase struct {
	Lines []string `json:"lines"`
	Crlf  bool     `json:"crlf"`
}

func checkC29(c eventCase, o *core.Obs) error {
	d := gen.Doc{First: "osu file format v14", Blocks: []gen.Extra{{Section: "Metadata", Lines: []string{"Title:T"}}, {Section: "Events", Lines: c.Lines},
		{Section: "TimingPoints", Lines: []string{"0,500,4,1,0,100,1,0"}}}}
	text := d.Render()
	if c.Crlf {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	bm, err := parse(text)
	if err != nil {
		return fmt.Errorf("a valid beatmap was rejected: %v", err)
	}
	bg := ""
	var brk [][2]float64
	for _, l := range c.Lines {
		if strings.HasPrefix(l, "//") {
			continue
		}
		f := strings.Split(l, ",")
		if len(f) < 3 {
			continue
		}
		switch f[0] {
		case "0", "Background":
			bg = strings.ReplaceAll(strings.TrimSpace(f[2]), "\"", "")
			o.Label("background")
		case "2", "Break":
			a, e1 := strconv.ParseFloat(strings.TrimSpace(f[1]), 64)
			b, e2 := strconv.ParseFloat(strings.TrimSpace(f[2]), 64)
			if e1 != nil || e2 != nil || a != a || b != b {
				o.Label("malformed break")
				continue
			}
			brk = append(brk, [2]float64{a, b})
			o.Label("break")
		}
	}
	if len(c.Lines) > 1 {
		o.Nontrivial()
	}
	o.Compared(1 + len(brk))
	if bm.Bg != bg {
		return fmt.Errorf("background %q, declared %q", bm.Bg, bg)
	}
	if len(bm.Pauses) != len(brk) {
		return fmt.Errorf("%d breaks, declared %d", len(bm.Pauses), len(brk))
	}
	for i, p := range bm.Pauses {
		if p.StartTime != brk[i][0] || p.EndTime != brk[i][1] || p.GetStartTime() != brk[i][0] || p.GetEndTime() != brk[i][1] || p.Length() != brk[i][1]-brk[i][0] {
			return fmt.Errorf("break %d is %v..%v (length %v), declared %v", i, p.StartTime, p.EndTime, p.Length(), brk[i])
		}
	}
	return nil
}

func init() {
	core.Register("C01", "hostile grammar text, mutated pattern maps and raw bytes in four encodings; non-trivial: accepted with at least one object",
		24000, 600000, drawRaw, func(c rawCase, o *core.Obs) error { return checkBytes(c.Data, o) })
	core.Register("C02", "a reader that fails at a random byte, splits the bytes into odd reads, or a file with one very long line; non-trivial: all",
		8000, 150000, drawRead, checkC02)
	core.Register("C03", "header lines in random order with repeats, blanks, unicode and colons; non-trivial: at least 5 header lines",
		16000, 400000, drawHead, checkC03)
	core.Register("C04", "a document re-rendered with another encoding, line ending, section order and splitting, and filler lines; non-trivial: the map has objects",
		8000, 200000, drawRepr, checkC04)
	core.Register("C27", "a document with useless lines and unknown sections inserted; non-trivial: all",
		8000, 200000, drawJunk, checkC27)
	core.Register("C29", "event lines: backgrounds, breaks, comments and storyboard noise; non-trivial: more than one line",
		12000, 300000, func(t *rapid.T) eventCase { return eventCase{gen.EventLines(t, 12), gen.P(t, 1, 4)} }, checkC29)
}
