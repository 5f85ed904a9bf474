package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

func init() { drivers["windows"] = driveWindows }

var windows = []string{"msg", "err", "packet"}

type screen struct {
	Text  map[string][]string
	Cur   string
	Shown bool
	Line  []string // number, characters and cursor of the prompt
}

// look is what the user interface shows
func look() (s screen) {
	s.Text = map[string][]string{}
	done := make(chan bool)
	gui.Update(func(g *gocui.Gui) error {
		defer close(done)
		above := map[string]int{}
		for i, v := range g.Views() {
			above[v.Name()] = i
		}
		s.Shown = above["packet"] > above["msg"]
		if c := g.CurrentView(); c != nil {
			s.Cur = c.Name()
		}
		for _, w := range windows {
			v, err := g.View(w)
			if err != nil {
				rec.Fatal(w, err)
			}
			s.Text[w] = append([]string{}, v.BufferLines()...)
		}
		return nil
	})
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		rec.Fatal("the user interface does not answer")
	}
	n, l, c, _ := cmdLine()
	s.Line = append([]string{fmt.Sprint(n), fmt.Sprint(c)}, l...)
	return
}

type printing struct {
	op, w, colour, text string
	ln                  bool
}

// do prints or clears as told
func (p printing) do() {
	if p.op == "clear" {
		sarwin.Clearwin(gui, p.w)
		return
	}
	switch p.w {
	case "msg":
		if p.ln {
			sarwin.MsgPrintln(gui, p.colour, p.text)
		} else {
			sarwin.MsgPrintf(gui, p.colour, "%s", p.text)
		}
	case "err":
		if p.ln {
			sarwin.ErrPrintln(gui, p.colour, p.text)
		} else {
			sarwin.ErrPrintf(gui, p.colour, "%s", p.text)
		}
	case "packet":
		if p.ln {
			sarwin.PacketPrintln(gui, p.colour, p.text)
		} else {
			sarwin.PacketPrintf(gui, p.colour, "%s", p.text)
		}
	}
}
func (p printing) lines() []string {
	if p.op == "clear" {
		return []string{}
	}
	l := strings.Split(p.text, "\n")
	if p.ln {
		l = append(l, "")
	}
	return l
}

func driveWindows(r *rec.Rec) {
	setupTree()
	makeTree(tree0)
	startGui()
	rnd := r.Rand
	count := 0
	var last screen
	sight := true
	fill := func(m rec.M, was screen) rec.M {
		s := look()
		m["sight"] = sight
		m["text"], m["cur"], m["shown"], m["line"], m["was"] = s.Text, s.Cur, s.Shown, s.Line, was.Line
		last = s
		return m
	}
	size := func(w, h int) {
		termbox.StubResize(w, h)
		drained()
	}
	begin := func() {
		size(160, 60)
		tidyGui()
		for look().Cur != "cmd" {
			press(termbox.KeyCtrlSpace)
			drained()
		}
		press(termbox.KeyEnter)
		drained()
		tidyGui()
		last = look()
		r.Reset(fill(rec.M{}, last))
	}
	// a step of which the line that is run is seen too
	step := func(m rec.M, f func()) {
		m["res"] = "ok"
		was := last
		r.Call(m, func() {
			n := len(sarwin.Cinfo.Commands)
			f()
			settle()
			fill(m, was)
			ran := [][]string{}
			for _, c := range sarwin.Cinfo.Commands[n:] {
				ran = append(ran, strings.Split(c, ""))
			}
			m["ran"] = ran
		})
	}
	colours := []string{"green_black", "red_black", "", "none", "white", "ired_black", "bogus_colour", "a_b_c"}
	message := func() string {
		count++
		s := fmt.Sprintf("m%d", count)
		switch rnd.Intn(6) {
		case 0:
			s += " 100% %d %s"
		case 1:
			s += " é 日本 " + strings.Repeat("w", rnd.Intn(300))
		case 2:
			s += " [x] {y} \\ ~"
		}
		return s
	}
	print := func(w string, shape int) printing {
		p := printing{op: "print", w: w, colour: colours[rnd.Intn(len(colours))], text: message()}
		switch shape {
		case 1:
			p.ln = true
		case 2:
			p.text += "\n" + message() + "\n"
		}
		return p
	}
	put := func(p printing) {
		step(rec.M{"e": "print", "w": p.w, "p": p.lines(), "colour": p.colour}, p.do)
	}
	elsewhere := []termbox.Key{termbox.KeyEnter, termbox.KeyArrowUp, termbox.KeyArrowDown, termbox.KeyArrowLeft, termbox.KeyArrowRight,
		termbox.KeyBackspace, termbox.KeyBackspace2, termbox.KeyDelete, termbox.KeySpace}
	act := func(op, w string, shape int) {
		switch op {
		case "print":
			put(print(w, shape))
		case "clear":
			step(rec.M{"e": "clear", "w": w}, func() { sarwin.Clearwin(gui, w) })
		case "rotate":
			step(rec.M{"e": "rotate"}, func() { press(termbox.KeyCtrlSpace); drained() })
		case "toggle":
			step(rec.M{"e": "toggle"}, func() { press(termbox.KeyCtrlP); drained() })
		case "key":
			if last.Cur == "cmd" { // those are another matter
				return
			}
			step(rec.M{"e": "key"}, func() {
				if k := rnd.Intn(len(elsewhere) + 3); k < len(elsewhere) {
					press(elsewhere[k])
				} else {
					termbox.StubEvent(termbox.Event{Type: termbox.EventKey, Ch: []rune("aZé")[rnd.Intn(3)]})
				}
				drained()
			})
		case "resize":
			w, h := 32+rnd.Intn(190), 20+rnd.Intn(90)
			step(rec.M{"e": "resize", "w": w, "h": h}, func() { size(w, h) })
		case "tiny": // no room to see the command line
			sight = false
			step(rec.M{"e": "resize"}, func() { size(1+rnd.Intn(40), 1+rnd.Intn(30)) })
		case "edit": // what it does to the line is another matter
			if last.Cur != "cmd" {
				return
			}
			step(rec.M{"e": "edit"}, func() {
				n := rnd.Intn(15)
				if rnd.Intn(5) == 0 {
					n = rnd.Intn(150)
				}
				// each key once the one before is seen, as those who look at what they type do
				for _, c := range strings.Repeat("z y", 50)[:n] {
					typed(string(c))
					drained()
				}
				for k := rnd.Intn(8) * rnd.Intn(3); k > 0; k-- {
					press(termbox.KeyArrowLeft)
					drained()
				}
			})
		case "enter":
			if last.Cur != "cmd" {
				return
			}
			step(rec.M{"e": "enter"}, func() { press(termbox.KeyEnter); drained() })
		case "clearcmd":
			marks := map[string]string{}
			for _, w := range windows {
				p := print(w, 1)
				marks[w] = p.text
				put(p)
			}
			line, named := "clear", append([]string{}, windows...)
			switch rnd.Intn(6) {
			case 0:
			case 1:
				line, named = []string{"clear ?", "clear bogus", "clear cmd"}[rnd.Intn(3)], []string{}
			default:
				named = []string{}
				for _, k := range rnd.Perm(3)[:1+rnd.Intn(3)] {
					named = append(named, windows[k])
				}
				line += " " + strings.Join(named, " ")
			}
			step(rec.M{"e": "clearcmd", "named": named, "marks": marks, "command": line}, func() { command(line) })
		}
	}
	scenarios(func(s string) {
		var h []struct {
			Op, W string
			P     []string
		}
		if err := json.Unmarshal([]byte(s), &h); err != nil {
			rec.Fatal(err)
		}
		begin()
		for _, o := range h {
			act(o.Op, o.W, len(o.P)-1)
		}
	})
	for i := 0; i < 50*r.Scale; i++ {
		begin()
		for k := 0; k < 30; k++ {
			switch n := rnd.Intn(20); {
			case n < 8:
				act("print", windows[rnd.Intn(3)], rnd.Intn(3))
			case n < 9:
				act("clear", windows[rnd.Intn(3)], 0)
			case n < 11:
				act("clearcmd", "", 0)
			case n < 14:
				act("rotate", "", 0)
			case n < 15:
				act("toggle", "", 0)
			case n < 16:
				act("key", "", 0)
			case n < 17:
				act("edit", "", 0)
			case n < 18:
				act("enter", "", 0)
			default:
				act("resize", "", 0)
			}
		}
	}
	// at the same time
	for i := 0; i < 60*r.Scale; i++ {
		begin()
		act("print", "msg", rnd.Intn(3))
		for turn := 0; turn < 3; turn++ {
			g := 1 + rnd.Intn(4)
			per := 1 + rnd.Intn(12/g)
			clears := rnd.Intn(4) == 0 && g*per <= 8
			jobs := make([][]printing, g)
			ops := []rec.M{}
			for j := range jobs {
				for k := 0; k < per; k++ {
					p := print(windows[rnd.Intn(1+i%3)], rnd.Intn(3)*rnd.Intn(2))
					if rnd.Intn(3) != 0 {
						p = print(p.w, 1)
					}
					if clears && rnd.Intn(5) == 0 {
						p = printing{op: "clear", w: p.w}
					}
					jobs[j] = append(jobs[j], p)
					ops = append(ops, rec.M{"g": j, "op": p.op, "w": p.w, "p": p.lines()})
				}
			}
			step(rec.M{"e": "par", "ops": ops}, func() {
				var wg sync.WaitGroup
				start := make(chan bool)
				for j := range jobs {
					j := j
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for _, p := range jobs[j] {
							p.do()
						}
					}()
				}
				close(start)
				wg.Wait()
				time.Sleep(20 * time.Microsecond)
			})
		}
	}
	// the last, what becomes of the cursor of the command line is not known
	begin()
	for i := 0; i < 200; i++ {
		act("tiny", "", 0)
		act("print", windows[rnd.Intn(3)], rnd.Intn(3))
	}
	cleanTree()
}
