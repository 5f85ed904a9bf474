// A stand-in for termbox-go that never touches a terminal, for the harnesses of /verif.
// api_common.go (constants and types) is a copy of termbox-go v1.1.1's.
package termbox

import (
	"fmt"
	"os"
	"sync"
)

// the size of the terminal
var stubW, stubH = func() (w, h int) {
	if n, _ := fmt.Sscanf(os.Getenv("VERIF_TERM"), "%dx%d", &w, &h); n == 2 {
		return
	}
	return 160, 60
}()

var (
	mu     sync.Mutex
	cells  = make([]Cell, stubW*stubH)
	events = make(chan Event, 64)
)

func Init() error                              { return nil }
func Close()                                   {}
func Interrupt()                               {}
func Flush() error                             { return nil }
func SetCursor(x, y int)                       {}
func HideCursor()                              {}
func CellBuffer() []Cell                       { return cells }
func SetInputMode(mode InputMode) InputMode    { return InputEsc }
func SetOutputMode(mode OutputMode) OutputMode { return OutputNormal }
func Sync() error                              { return nil }

// what is drawn is not kept, nobody looks at it
func Clear(fg, bg Attribute) error { return nil }

func SetCell(x, y int, ch rune, fg, bg Attribute) {}

// PollEvent - only events given to StubEvent ever happen
func PollEvent() Event { return <-events }

// StubEvent - what the user types
func StubEvent(e Event) { events <- e }

// StubPending - how many events nobody took yet
func StubPending() int { return len(events) }

func Size() (int, int) {
	mu.Lock()
	defer mu.Unlock()
	return stubW, stubH
}

// StubResize - the terminal has another size from now on
func StubResize(w, h int) {
	mu.Lock()
	stubW, stubH = w, h
	cells = make([]Cell, w*h)
	mu.Unlock()
	events <- Event{Type: EventResize, Width: w, Height: h}
}
