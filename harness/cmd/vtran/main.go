// vtran drives the packages that use the user interface (trans, sarwin) with a
// terminal that is a stand-in, and records what they do.
package main

import (
	"bufio"
	"flag"
	"io"
	"os"
	"strings"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarflags"
)

var conf = flag.String("conf", "/repo/saratoga/saratoga.json", "configuration file")
var scen = flag.String("scen", "", "scenarios generated from the specification")
var dir = flag.String("dir", "", "scratch directory")
var stdout *os.File

func setup() {
	os.Setenv("SARDIR", *dir)
	c := new(sarflags.Cliflags)
	if err := c.ReadConfig(*conf); err != nil {
		rec.Fatal("ReadConfig:", err)
	}
	sarflags.Cliflag = c
	if err := os.Chdir(*dir); err != nil {
		rec.Fatal(err)
	}
}

// scenarios reads the scenario file line by line
func scenarios(f func(line string)) {
	if *scen == "" {
		return
	}
	fp, err := os.Open(*scen)
	if err != nil {
		rec.Fatal(err)
	}
	defer fp.Close()
	rd := bufio.NewReaderSize(fp, 1<<20)
	for {
		l, err := rd.ReadString('\n')
		if l = strings.TrimSpace(l); l != "" {
			f(l)
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			rec.Fatal(err)
		}
	}
}

var drivers = map[string]func(*rec.Rec){}

func main() {
	out := flag.String("out", "", "trace file")
	seed := flag.Int64("seed", 1, "seed")
	scale := flag.Int("scale", 1, "amount of work")
	which := flag.String("what", "", "driver")
	flag.Parse()
	d, ok := drivers[*which]
	if !ok {
		rec.Fatal("no driver ", *which)
	}
	r := rec.New(*out, *seed, *scale)
	d(r)
	r.Close()
}
