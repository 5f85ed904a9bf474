package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

func init() {
	drivers["editor"] = func(r *rec.Rec) { driveEditor(r, "") }
	drivers["editor8"] = func(r *rec.Rec) { driveEditor(r, "s\u00e9r\u65e5") }
}

// cmdLine is the line of the command window the cursor is in: the prompt, what
// comes after it, and where in that the cursor is
func cmdLine() (number int, line []string, cur int, view string) {
	var prompt string
	done := make(chan bool)
	gui.Update(func(g *gocui.Gui) error {
		v, err := g.View("cmd")
		if err != nil {
			rec.Fatal(err)
		}
		cx, cy := v.Cursor()
		_, oy := v.Origin()
		maxx, _ := v.Size()
		row := oy + cy
		for _, l := range v.BufferLines() { // a line may take more rows than one
			n := len([]rune(l))/maxx + 1
			if row < n {
				prompt, cur = l, row*maxx+cx
				break
			}
			row -= n
		}
		if c := g.CurrentView(); c != nil {
			view = c.Name()
		}
		close(done)
		return nil
	})
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		rec.Fatal("the user interface does not answer")
	}
	line = []string{}
	if i := strings.IndexByte(prompt, ':'); i >= 0 {
		for _, c := range prompt[i+1:] {
			line = append(line, string(c))
		}
		prompt = prompt[:i+1]
	}
	cur -= len([]rune(prompt))
	number = -1
	if i := strings.IndexByte(prompt, '['); i >= 0 {
		fmt.Sscanf(prompt[i:], "[%d]:", &number)
	}
	return
}

// cmdLines is the size of the command window and the last of its lines, what comes after their prompts
func cmdLines() (w, h int, lines [][]string) {
	done := make(chan bool)
	gui.Update(func(g *gocui.Gui) error {
		defer close(done)
		v, err := g.View("cmd")
		if err != nil {
			rec.Fatal(err)
		}
		w, h = v.Size()
		all := v.BufferLines()
		rows := 0
		for i := len(all) - 1; i >= 0 && rows <= 3*h; i-- {
			rows += len([]rune(all[i]))/w + 1
			x := []string{}
			for _, c := range all[i][strings.IndexByte(all[i], ':')+1:] {
				x = append(x, string(c))
			}
			lines = append([][]string{x}, lines...)
		}
		return nil
	})
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		rec.Fatal("the user interface does not answer")
	}
	return
}

func driveEditor(r *rec.Rec, prompt string) {
	setupTree()
	if prompt != "" {
		sarflags.Cliflag.Prompt = prompt
	}
	makeTree(tree0)
	startGui()
	rnd := r.Rand
	keys := map[string][]termbox.Key{
		"left": {termbox.KeyArrowLeft}, "right": {termbox.KeyArrowRight},
		"back": {termbox.KeyBackspace, termbox.KeyBackspace2, termbox.KeyDelete}, "enter": {termbox.KeyEnter},
		"up": {termbox.KeyArrowUp}, "down": {termbox.KeyArrowDown}}
	in := true // the line being typed
	begin := func() {
		tidyGui()
		setup()
		// an empty line
		for i := 0; i < 200; i++ {
			settle()
			n, l, cur, _ := cmdLine()
			if n == sarwin.Cinfo.Curline && len(l) == 0 && cur == 0 {
				break
			}
			switch {
			case n != sarwin.Cinfo.Curline:
				press(termbox.KeyArrowDown)
			case i%2 == 0:
				press(termbox.KeyArrowRight)
			default:
				press(termbox.KeyBackspace)
			}
			drained()
		}
		in = true
		p, l, cur, _ := cmdLine()
		w, h, ls := cmdLines()
		r.Reset(rec.M{"number": p, "line": l, "cur": cur, "w": w, "h": h, "lines": ls, "p": len([]rune(sarwin.Cinfo.Prompt)) + sarwin.Cinfo.Ppad})
	}
	turn := 0
	hit := func(k string, c string) {
		m := rec.M{"e": "key", "res": "ok", "k": k, "c": c, "ran": []string{}, "line": []string{}, "cur": 0, "number": 0, "view": "", "started": []string{}}
		if !in && k != "up" && k != "down" && k != "enter" { // an earlier one is not edited
			return
		}
		r.Call(m, func() {
			if turn++; turn%400 == 0 {
				tidyGui()
			}
			was := len(sarwin.Cinfo.Commands)
			sarwin.Trmu.Lock()
			had := len(sarwin.Transfers)
			sarwin.Trmu.Unlock()
			switch {
			case k != "char":
				press(keys[k][rnd.Intn(len(keys[k]))])
			case c == " ":
				press(termbox.KeySpace)
			default:
				termbox.StubEvent(termbox.Event{Type: termbox.EventKey, Ch: []rune(c)[0]})
			}
			drained()
			ran := [][]string{}
			for _, l := range sarwin.Cinfo.Commands[was:] {
				x := []string{}
				for _, c := range l {
					x = append(x, string(c))
				}
				ran = append(ran, x)
			}
			m["ran"] = ran
			started := [][]string{}
			sarwin.Trmu.Lock()
			for i := had; i < len(sarwin.Transfers); i++ {
				started = append(started, strings.Split(sarwin.Transfers[i].Filename, ""))
			}
			sarwin.Trmu.Unlock()
			m["started"] = started
			m["number"], m["line"], m["cur"], m["view"] = cmdLine()
			in = m["number"] == sarwin.Cinfo.Curline
		})
	}
	scenarios(func(s string) {
		var h []struct{ K, C string }
		if err := json.Unmarshal([]byte(s), &h); err != nil {
			rec.Fatal(err)
		}
		begin()
		for _, k := range h {
			hit(k.K, k.C)
		}
	})
	chars := strings.Split("abcxyz  ::.?1209-_/=,%[]é日", "")
	for i := 0; i < 20*r.Scale; i++ {
		begin()
		for j := 0; j < 60; j++ {
			switch n := rnd.Intn(20); {
			case n < 10:
				hit("char", chars[rnd.Intn(len(chars))])
			case n < 13:
				hit("left", "")
			case n < 15:
				hit("right", "")
			case n < 18:
				hit("back", "")
			default:
				hit("enter", "")
			}
		}
	}
	// lines that start a transfer, some mistyped at first
	for i := 0; i < 12*r.Scale; i++ {
		begin()
		for _, c := range fmt.Sprintf("get 127.0.0.1 %s%d", []string{"Ab:c", "a.B", "%s", "-X_", "éÉ", "[q]:"}[i%6], i) {
			if rnd.Intn(6) == 0 {
				hit("char", chars[rnd.Intn(len(chars))])
				hit("back", "")
			}
			hit("char", string(c))
			if rnd.Intn(9) == 0 {
				hit("left", "")
				hit("right", "")
			}
		}
		for k := rnd.Intn(3) * 7; k > 0; k-- {
			hit("left", "")
		}
		hit("enter", "")
		for i := range sarwin.Transfers {
			if c := sarwin.Transfers[i].Conn; c != nil {
				c.Close()
			}
		}
		sarwin.Transfers = nil
	}
	// lines longer than the window is wide
	for i := 0; i < 6*r.Scale; i++ {
		begin()
		for j := 0; j < 2; j++ {
			n := 20 + rnd.Intn(90)
			for k := 0; k < n; k++ {
				hit("char", chars[rnd.Intn(len(chars))])
			}
			for k := rnd.Intn(60); k > 0; k-- {
				hit("left", "")
			}
			for k := rnd.Intn(20); k > 0; k-- {
				hit([]string{"char", "back", "left", "right"}[rnd.Intn(4)], "z")
			}
			for k := rnd.Intn(60); k > 0; k-- {
				hit("right", "")
			}
			hit("enter", "")
			hit("char", "q")
			hit("back", "")
		}
	}
	// earlier lines
	for i := 0; i < 10*r.Scale; i++ {
		begin()
		for j := 0; j < 5; j++ {
			n := 1 + rnd.Intn(12)
			if rnd.Intn(4) == 0 {
				n = 30 + rnd.Intn(80)
			}
			for k := 0; k < n; k++ {
				hit("char", chars[rnd.Intn(len(chars))])
			}
			if j < 4 {
				hit("enter", "")
			}
			for k := rnd.Intn(8) * (1 + rnd.Intn(3)); k > 0; k-- {
				hit([]string{"up", "up", "down", "left", "right", "back"}[rnd.Intn(6)], "")
			}
			if rnd.Intn(2) == 0 {
				hit("enter", "")
			}
			for k := 0; k < 200 && !in; k++ {
				hit("down", "")
			}
			hit("down", "")
		}
		hit("enter", "")
	}
	cleanTree()
}
