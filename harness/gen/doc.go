package gen

import (
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Doc is a beatmap file as text: the format line and section blocks.
type Doc struct {
	First  string  `json:"first"`
	Blocks []Extra `json:"blocks"`
}

// Render gives the plain LF text.
func (d Doc) Render() string {
	var b strings.Builder
	b.WriteString(d.First + "\n\n")
	for _, s := range d.Blocks {
		b.WriteString("[" + s.Section + "]\n")
		for _, l := range s.Lines {
			b.WriteString(l + "\n")
		}
		b.WriteString("\n")
	}
	return b.String()
}

// DocOf turns a map into a document.
func DocOf(m Map) Doc {
	return Doc{First: "osu file format v" + strconv.Itoa(m.Ver), Blocks: m.Sections()}
}

var words = []string{"a", "Title", "x y", "1.5", "0", "-7", "Ω", "桜の雨", "été", "🎵", "(TV Size)", "feat.", "[Insane]", "http://osu.ppy.sh", "12:30", "::", "//", "\"q\"", ",", "a,b", "'", "Ü", "~", "№1", "=", "%d", "\\n", "v14", "NaN", ";", "osu file format v9", "osu file format v128 ", "[General]"}

// Str draws a header value: words joined by blanks or nothing, possibly empty.
func Str(t *rapid.T) string {
	n := N(t, 0, 4)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(Pick(t, "", " ", "  ", ":", ": ", "\t"))
		}
		if P(t, 1, 12) {
			b.WriteRune(rune(U(t, 0x21, 0x17f)))
		} else {
			b.WriteString(Pick(t, words...))
		}
	}
	if P(t, 1, 60) {
		b.WriteString(strings.Repeat(Pick(t, words...), U(t, 20, 200)))
	}
	if P(t, 1, 600) {
		b.WriteString(strings.Repeat(Pick(t, words[:8]...), U(t, 200, 20000)))
	}
	return b.String()
}

// Blank draws blanks allowed around keys and values.
func Blank(t *rapid.T) string { return Pick(t, "", "", "", " ", "  ", "\t", " \t ") }

// Decimal draws a decimal literal for a value between lo and hi (tenths).
func Decimal(t *rapid.T, lo, hi int) string {
	v := U(t, lo*10, hi*10)
	switch U(t, 0, 5) {
	case 0:
		return strconv.Itoa(v / 10)
	case 1:
		return strconv.FormatFloat(float64(v)/10+float64(U(t, 0, 999))/10000, 'f', -1, 64)
	case 2:
		return strconv.FormatFloat(float64(v)/10, 'f', 3, 64)
	case 3:
		return strconv.FormatFloat(float64(v)/10, 'e', -1, 64)
	}
	return strconv.FormatFloat(float64(v)/10, 'f', -1, 64)
}

// KV is a header line.
type KV struct {
	K string `json:"k"`
	V string `json:"v"` // as written after the first colon
	B string `json:"b"` // blanks before the colon
}

func (l KV) Line() string { return l.K + l.B + ":" + l.V }

// HeaderKeys lists the known keys of each header section.
var HeaderKeys = map[string][]string{
	"General":    {"Mode", "StackLeniency", "AudioFilename", "PreviewTime"},
	"Metadata":   {"Title", "TitleUnicode", "Artist", "ArtistUnicode", "Creator", "Version", "Source", "Tags", "BeatmapID", "BeatmapSetID"},
	"Difficulty": {"HPDrainRate", "CircleSize", "OverallDifficulty", "ApproachRate", "SliderMultiplier", "SliderTickRate"},
}

// HeaderValue draws a value for a key.
func HeaderValue(t *rapid.T, key string) string {
	switch key {
	case "Mode":
		return Pick(t, "", "", "", "", "", "+", "0") + strconv.Itoa(U(t, 0, 3))
	case "StackLeniency":
		if P(t, 1, 3) {
			return Decimal(t, -2, 12)
		}
		return Decimal(t, 0, 1)
	case "PreviewTime":
		return Pick(t, "-1", "0", strconv.Itoa(U(t, 0, 400000)), "9007199254740993", "-5000", "+120000", "007000")
	case "BeatmapID", "BeatmapSetID":
		return Pick(t, "-1", "0", strconv.Itoa(U(t, 1, 4000000)), "4294967296", "9223372036854775807", "+75", "0012", "010", "-2")
	case "HPDrainRate", "CircleSize", "OverallDifficulty", "ApproachRate":
		return Decimal(t, -3, 13)
	case "SliderMultiplier":
		return Decimal(t, 0, 5)
	case "SliderTickRate":
		return Decimal(t, 0, 10)
	}
	return Str(t)
}

// HeaderLines draws the lines of a header section: known keys, each at most once
// unless repeat, in any order, with blanks around keys and values.
func HeaderLines(t *rapid.T, section string, repeat bool) []KV {
	var out []KV
	add := func(k string) {
		out = append(out, KV{K: Pick(t, "", "", "", " ") + k, B: Blank(t), V: Blank(t) + HeaderValue(t, k) + Blank(t)})
	}
	for _, k := range HeaderKeys[section] {
		if P(t, 1, 6) {
			continue
		}
		add(k)
		if repeat && k != "AudioFilename" && P(t, 1, 8) {
			add(k)
		}
	}
	Shuffle(t, out)
	return out
}

// Shuffle permutes a slice, sometimes leaving it alone.
func Shuffle[T any](t *rapid.T, s []T) {
	if P(t, 1, 3) {
		return
	}
	for i := len(s) - 1; i > 0; i-- {
		j := U(t, 0, i)
		s[i], s[j] = s[j], s[i]
	}
}

// EventLines draws event lines; breaks and backgrounds among storyboard noise.
func EventLines(t *rapid.T, max int) []string {
	var out []string
	n := N(t, 0, max)
	for i := 0; i < n; i++ {
		switch U(t, 0, 5) {
		case 0:
			out = append(out, BgLine(t))
		case 1, 2:
			out = append(out, BreakLine(t))
		case 3:
			out = append(out, "//"+Str(t))
		default:
			out = append(out, NoiseEvent(t))
		}
	}
	return out
}

// BgLine draws a background event.
func BgLine(t *rapid.T) string {
	name := strings.ReplaceAll(strings.ReplaceAll(Str(t), "\"", ""), ",", ";")
	if P(t, 3, 4) {
		name = "\"" + name + "\""
		if P(t, 1, 8) {
			k := U(t, 0, len(name))
			for k < len(name) && !utf8.RuneStart(name[k]) {
				k++
			}
			name = name[:k] + Pick(t, "\"", "\"\"", "\"x\"") + name[k:]
		}
	}
	return Pick(t, "0", "Background") + "," + Pick(t, "0", "0", "100", "") + "," + Blank(t) + name + Pick(t, "", ",0,0", ",0,0", ",12,-30")
}

// BreakLine draws a break event.
func BreakLine(t *rapid.T) string {
	num := func() string {
		if P(t, 1, 20) {
			return Pick(t, "", "abc", "-", "1.2.3", "1 2", "x5", "5x", "--3", "1;2", "NaN", "nan") // not a number: no break
		}
		if P(t, 1, 5) {
			return Decimal(t, -100, 90000)
		}
		if P(t, 1, 3) { // so that breaks touch, overlap and are empty
			return strconv.Itoa(U(t, 0, 4) * 500)
		}
		return strconv.Itoa(U(t, 0, 300000))
	}
	return Pick(t, "2", "Break") + "," + Blank(t) + num() + "," + num() + Blank(t) + Pick(t, "", "", ",x")
}

// NoiseEvent draws an event the parser has no use for.
func NoiseEvent(t *rapid.T) string {
	a, b := strconv.Itoa(U(t, 0, 99999)), strconv.Itoa(U(t, 0, 99999))
	return Pick(t,
		"Video,"+a+",\"clip.avi\"", "1,"+a+",\"clip.mp4\"", "1,"+a+","+b,
		"Sprite,Foreground,Centre,\"sb/a.png\",320,240", "Animation,Fail,TopLeft,\"sb\\b.png\",1,2,3,40,LoopForever",
		"4,3,1,\"sb/a.png\",320,240", "Sample,"+a+",0,\"hit.wav\",70", "5,"+a+",0,\"hit.wav\"",
		" F,0,"+a+","+b+",0,1", "_M,0,"+a+","+b+",320,240,300,200", "  V,0,"+a+",,1,1", " L,"+a+",4",
		"3,100,163,162,255", "Colour,1,2,3", "6,"+a+","+b, "20,"+a+","+b, "02x,"+a+","+b, "break,"+a+","+b, "background,"+a+",\"no.png\"", "Breaks,"+a+","+b, "Pause,"+a+","+b, "BREAK,"+a+","+b, "BG,"+a+",\"no.png\"", "00,"+a+",\"no.png\"", "7,"+a+","+b)
}

// Encode renders text in one of the encodings the parser accepts.
func Encode(text, enc string) []byte {
	switch enc {
	case "utf8bom":
		return append([]byte{0xef, 0xbb, 0xbf}, text...)
	case "utf16le", "utf16be":
		u := utf16.Encode([]rune(text))
		out := make([]byte, 0, 2*len(u)+2)
		put := func(v uint16) {
			if enc == "utf16le" {
				out = append(out, byte(v), byte(v>>8))
			} else {
				out = append(out, byte(v>>8), byte(v))
			}
		}
		put(0xfeff)
		for _, v := range u {
			put(v)
		}
		return out
	}
	return []byte(text)
}
