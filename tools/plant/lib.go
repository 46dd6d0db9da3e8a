package main

import (
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/objects"
)

var failed bool

// osuFile assembles a small beatmap; nil timing means one 500 ms point.
func osuFile(version int, general, difficulty, timing, objs []string) string {
	if timing == nil {
		timing = []string{"0,500,4,2,1,60,1,0"}
	}
	return fmt.Sprintf("osu file format v%d\n\n[General]\nMode: 0\n%s\n\n[Metadata]\nTitle:t\nArtist:a\nCreator:c\nVersion:v\n\n[Difficulty]\n%s\n\n[TimingPoints]\n%s\n\n[HitObjects]\n%s\n",
		version, strings.Join(general, "\n"), strings.Join(difficulty, "\n"), strings.Join(timing, "\n"), strings.Join(objs, "\n"))
}

func parse(s string) *beatmap.BeatMap {
	b, err := beatmap.ParseFromByte([]byte(s))
	if err != nil {
		fmt.Println("cannot parse:", err)
		os.Exit(1)
	}
	return b
}

func slider(o objects.IHitObject) *objects.Slider { return o.(*objects.Slider) }

func check(what string, ok bool, detail ...interface{}) {
	if !ok {
		failed = true
		fmt.Println("FAIL:", what, detail)
	}
}

func near(what string, got, want, tol float64) {
	if !(math.Abs(got-want) <= tol) {
		failed = true
		fmt.Printf("FAIL: %s is %.12g, want %.12g\n", what, got, want)
	}
}

func finish() {
	if failed {
		os.Exit(1)
	}
	fmt.Println("ok")
}
