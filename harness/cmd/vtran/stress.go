package main

import (
	"fmt"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/nsf/termbox-go"
)

func init() { drivers["stress"] = driveStress }

func driveStress(r *rec.Rec) {
	setup()
	startGui()
	switch r.Scale {
	case 1:
		for i := 0; i < 200; i++ {
			for _, c := range "bcount 5" {
				ev := termbox.Event{Type: termbox.EventKey, Ch: c}
				if c == ' ' {
					ev.Key, ev.Ch = termbox.KeySpace, 0
				}
				termbox.StubEvent(ev)
			}
			termbox.StubEvent(termbox.Event{Type: termbox.EventKey, Key: termbox.KeyEnter})
			termbox.StubEvent(termbox.Event{Type: termbox.EventKey, Key: termbox.KeyEnter})
		}
	case 2:
		for i := 0; i < 3000; i++ {
			sarwin.Run(gui, fmt.Sprintf("delete 127.0.0.1 f%d", i))
			sarwin.Run(gui, "checksum md5")
			sarwin.Run(gui, "freespace no")
		}
	case 3:
		for i := 0; i < 3000; i++ {
			sarwin.Run(gui, "clear")
			sarwin.Run(gui, "help")
		}
	}
	time.Sleep(2 * time.Second)
}
