package main

import (
	"runtime"
	"strings"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarwin"
)

var stacks = make([]byte, 1<<22)

// busy says whether any goroutine is at work in the code under test: one that
// waits for another in a channel operation is not
func busy() bool {
	all := string(stacks[:runtime.Stack(stacks, true)])
	for i, g := range strings.Split(all, "\n\n") {
		if strings.Contains(g, "gocui.(*Gui).Update.func") { // on its way to the user interface
			return true
		}
		if i == 0 || !strings.Contains(g, "charlesetsmith/saratoga/") { // the first is this one
			continue
		}
		if strings.Contains(g, "net.(*Resolver).") { // waits for the resolver, which answers
			return true
		}
		st := g[strings.Index(g, "[")+1:]
		if !strings.HasPrefix(st, "chan receive") && !strings.HasPrefix(st, "chan send") && !strings.HasPrefix(st, "select") {
			return true
		}
	}
	return false
}

// settle waits until the code under test has nothing more to do
func settle() {
	end := time.Now().Add(80 * time.Second)
	for quiet := 0; quiet < 2; {
		if busy() {
			quiet = 0
			if time.Now().After(end) {
				rec.Fatal("the code under test does not come to rest\n", string(stacks))
			}
			time.Sleep(50 * time.Microsecond)
			continue
		}
		quiet++
		flushGui()
	}
}

// command enters a command line and waits until it has had its effect
func command(line string) {
	started := make(chan bool)
	go func() {
		close(started)
		sarwin.Run(gui, line)
	}()
	<-started
	time.Sleep(20 * time.Microsecond)
	settle()
}
