// Package rec records what the code under test did, as NDJSON events for the
// trace specifications in /verif/spec.
//
// A driver announces each call into the code under test with Begin and closes
// it with End.  A panic in the call is recovered and recorded (res "panic");
// if the call kills or blocks the process, the announcement left in the side
// file is turned into an event (res "died" or "hang") by the supervisor.
package rec

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// M is one event (or part of one)
type M map[string]interface{}

// Rec is a recorder
type Rec struct {
	mu    sync.Mutex
	f     *os.File
	w     *bufio.Writer
	side  *os.File
	n     int
	busy  int64 // unix time the running call began, 0 if none
	Rand  *rand.Rand
	Scale int // how much to do: 1 is the quick tier
}

// Hang is how long one call may take before it counts as blocked
var Hang = 90 * time.Second

// New opens a recorder writing to path
func New(path string, seed int64, scale int) *Rec {
	f, err := os.Create(path)
	if err != nil {
		Fatal(err)
	}
	side, err := os.Create(path + ".begin")
	if err != nil {
		Fatal(err)
	}
	r := &Rec{f: f, w: bufio.NewWriterSize(f, 1<<20), side: side,
		Rand: rand.New(rand.NewSource(seed)), Scale: scale}
	open = append(open, r)
	go r.watch()
	term := make(chan os.Signal, 1)
	signal.Notify(term, syscall.SIGTERM)
	go func() {
		<-term
		r.flush()
		os.Exit(96)
	}()
	return r
}

var open []*Rec

// flush what was recorded before the driver ends early
func (r *Rec) flush() {
	for i := 0; i < 100 && !r.mu.TryLock(); i++ {
		time.Sleep(10 * time.Millisecond)
	}
	r.w.Flush()
}

func (r *Rec) watch() {
	for {
		time.Sleep(time.Second)
		b := atomic.LoadInt64(&r.busy)
		if b != 0 && time.Now().Unix()-b > int64(Hang/time.Second) {
			r.mu.Lock()
			r.w.Flush()
			os.Exit(97) // the supervisor adds the "hang" event
		}
	}
}

// Fatal ends the driver because of a problem of the harness itself
func Fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"HARNESS:"}, v...)...)
	for _, r := range open {
		r.flush()
	}
	os.Exit(98)
}

// Ev writes one event
func (r *Rec) Ev(m M) {
	b, err := json.Marshal(m)
	if err != nil {
		Fatal(err)
	}
	r.mu.Lock()
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.n++
	r.mu.Unlock()
}

// Reset starts a new run: the trace specification goes back to its initial state
func (r *Rec) Reset(m M) {
	if m == nil {
		m = M{}
	}
	m["e"] = "reset"
	r.Ev(m)
}

// Call runs f, the call into the code under test that event m is about; f adds
// what it observed to m.  The event is written with res "panic" if f panicked.
func (r *Rec) Call(m M, f func()) {
	r.CallQ(m, f)
	r.Ev(m)
}

// CallQ is Call without writing the event
func (r *Rec) CallQ(m M, f func()) {
	b, err := json.Marshal(m)
	if err != nil {
		Fatal(err)
	}
	hdr := make([]byte, 8, 8+len(b))
	binary.LittleEndian.PutUint64(hdr, uint64(len(b)))
	r.side.WriteAt(append(hdr, b...), 0)
	atomic.StoreInt64(&r.busy, time.Now().Unix())
	func() {
		defer func() {
			if p := recover(); p != nil {
				m["res"] = "panic"
				m["msg"] = fmt.Sprint(p)
				if os.Getenv("VERIF_STACK") != "" {
					debug.PrintStack()
				}
			}
		}()
		f()
	}()
	atomic.StoreInt64(&r.busy, 0)
	r.side.WriteAt(make([]byte, 8), 0)
}

// Close ends the recording
func (r *Rec) Close() {
	r.mu.Lock()
	r.w.Flush()
	r.f.Close()
	r.side.Close()
	os.Remove(r.f.Name() + ".begin")
	fmt.Println("EVENTS", r.n)
}

// B8, B4, B2 are big-endian byte lists
func B8(v uint64) []int {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return Bytes(b)
}
func B4(v uint32) []int {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	return Bytes(b)
}
func B2(v uint16) []int {
	b := make([]byte, 2)
	binary.BigEndian.PutUint16(b, v)
	return Bytes(b)
}

// Bytes as a JSON list of numbers
func Bytes(b []byte) []int {
	l := make([]int, len(b))
	for i := range b {
		l[i] = int(b[i])
	}
	return l
}

// Err is "ok" or "err"
func Err(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}
