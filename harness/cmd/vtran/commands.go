package main

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/nsf/termbox-go"
)

func init() { drivers["commands"] = driveCommands }

// snap is what the operator has set
func snap() rec.M {
	sarflags.Climu.Lock()
	defer sarflags.Climu.Unlock()
	c := sarflags.Cliflag
	g := rec.M{}
	for k, v := range c.Global {
		g[k] = v
	}
	n := func(v int) []int { return rec.B8(uint64(v)) }
	return rec.M{"global": g, "timestamp": c.Timestamp, "timezone": c.Timezone, "bcount": rec.B8(uint64(c.Bcount)),
		"binterval": rec.B8(uint64(c.Timeout.Binterval)), "metadata": n(c.Timeout.Metadata), "request": n(c.Timeout.Request),
		"status": n(c.Timeout.Status), "datacounter": n(c.Timeout.Datacounter), "transfer": n(c.Timeout.Transfer),
		"rest": fmt.Sprintf("%q %q %d %q %d %q %d", c.V4Multicast, c.V6Multicast, c.Port, c.Prompt, c.Ppad, c.Sardir, c.Buffersize)}
}

var plain = regexp.MustCompile(`^[0-9]+$`)

func words(line string) []rec.M {
	l := []rec.M{}
	for _, w := range strings.Fields(line) {
		m := rec.M{"w": w, "num": false, "odd": false, "n": rec.B8(0)}
		if n, err := strconv.ParseInt(w, 10, 64); err == nil && n >= 0 {
			m["num"] = plain.MatchString(w)
			m["odd"] = !plain.MatchString(w)
			m["n"] = rec.B8(uint64(n))
		}
		l = append(l, m)
	}
	return l
}

func press(k termbox.Key) { termbox.StubEvent(termbox.Event{Type: termbox.EventKey, Key: k}) }
func typed(s string) {
	for _, c := range s {
		if c == ' ' {
			press(termbox.KeySpace)
		} else {
			termbox.StubEvent(termbox.Event{Type: termbox.EventKey, Ch: c})
		}
	}
}

// drained waits until the keys have had their effect: keys are handled one after
// another, so that is when a last one of ours is handled
func drained() {
	press(termbox.KeyF12)
	select {
	case <-handled:
	case <-time.After(60 * time.Second):
		rec.Fatal("the keyboard is not read")
	}
	settle()
}

func driveCommands(r *rec.Rec) {
	setupTree()
	startGui()
	rnd := r.Rand
	pick := func(l []string) string { return l[rnd.Intn(len(l))] }
	turn := 0
	begin := func(change func(c *sarflags.Cliflags)) {
		if turn++; turn%25 == 0 {
			tidyGui()
		}
		for i := range sarwin.Transfers {
			t := &sarwin.Transfers[i]
			if t.Conn != nil {
				t.Conn.Close()
			}
			if t.Fp != nil {
				t.Fp.Close()
			}
		}
		sarwin.Transfers = nil
		setup()
		os.Chdir(base + "/sar")
		if change != nil {
			change(sarflags.Cliflag)
		}
		r.Reset(rec.M{"settings": snap()})
	}
	enter := func(line string) {
		m := rec.M{"e": "cmd", "res": "ok", "words": words(line)}
		r.Call(m, func() {
			command(line)
			m["after"] = snap()
		})
	}
	// what the specification came up with
	last := 0
	scenarios(func(s string) {
		var h [][]string
		if err := json.Unmarshal([]byte(s), &h); err != nil {
			rec.Fatal(err)
		}
		// single lines do not need a fresh start each
		if last++; len(h) > 1 || last%40 == 1 {
			begin(nil)
		}
		for _, ws := range h {
			enter(strings.Join(ws, " "))
		}
	})

	makeTree(tree1)
	values := strings.Fields("? on off yes no capable invalid none crc32 md5 sha1 auto d16 d32 d64 d128 32 32_32 64 64_32 32_y2k local utc posix64 " +
		"epoch2000_32 localinterp 0 1 2 7 60 100 65535 65536 4294967295 4294967296 9223372036854775807 9223372036854775808 18446744073709551616 -1 -0 +5 007 1.5 0x10 1e3 5s " +
		"ON Yes metadata request status datacounter transfer binterval msg err packet none,crc32 timestamp=32 %d %s %!x md5:x yes: off:on 5:7 \u00e9 \u2028 \x7f :")
	setting := strings.Fields("checksum descriptor freespace reqtstamp stream rxwilling txwilling timestamp timezone bcount interval timeout")
	other := strings.Fields("beacon cancel clear exit files help ? history home ls peers quit rmtran tran usage get getdir take put give putblind delete nosuch Checksum CHECKSUM checksumx check")
	seps := []string{" ", " ", " ", " ", "  ", "\t", " \t ", "\u00a0", "\r", "\v"}
	hosts := strings.Fields("127.0.0.1 ::1 127.0.0.2 1.2.3 nobody: 300.1.1.1 [::1] 0.0.0.0 224.0.0.1 ?")
	files := strings.Fields("a d d/a missing ../o . .. / d/../a ? %s new")
	word := func() string {
		if rnd.Intn(12) == 0 {
			b := make([]byte, 1+rnd.Intn(9))
			for i := range b {
				b[i] = byte(33 + rnd.Intn(94))
			}
			return string(b)
		}
		return pick(values)
	}
	goodFor := func(c string) []string {
		switch c {
		case "checksum":
			return strings.Fields("off none crc32 md5 sha1")
		case "descriptor":
			return strings.Fields("auto d16 d32 d64 d128")
		case "freespace", "reqtstamp", "stream":
			return strings.Fields("yes no")
		case "rxwilling", "txwilling":
			return strings.Fields("on off capable")
		case "timestamp":
			return strings.Fields("off 32 32_32 64 64_32 32_y2k local")
		case "timezone":
			return strings.Fields("local utc")
		case "timeout":
			return strings.Fields("metadata request status datacounter transfer binterval")
		}
		return strings.Fields("0 1 2 7 60 65535 65536 4294967296 9223372036854775807 off 007")
	}
	nput := 0 // put and the like never end
	line := func() string {
		ws := []string{}
		switch k := rnd.Intn(20); {
		case k < 8: // one that sets something
			c := pick(setting)
			ws = append(ws, c, pick(goodFor(c)))
			if c == "timeout" {
				ws = append(ws, pick([]string{"0", "1", "59", "60", "99", "100", "65536", "off", "-1", "+5", "x"}))
			}
		case k < 12:
			ws = append(ws, pick(setting), word())
			if ws[0] == "timeout" && rnd.Intn(2) == 0 {
				ws[1] = pick(goodFor("timeout"))
				ws = append(ws, word())
			}
		case k < 14:
			ws = append(ws, pick(setting))
		case k < 15:
			ws = append(ws, pick(setting))
			for i := rnd.Intn(5); i >= 0; i-- {
				ws = append(ws, word())
			}
			if rnd.Intn(2) == 0 { // a good line with a word too many
				ws = append(append(ws[:1], pick(goodFor(ws[0]))), word())
				if ws[0] == "timeout" {
					ws = append(ws, word())
				}
			}
		default:
			c := pick(other)
			ws = append(ws, c)
			switch c {
			case "beacon": // what sends nothing and does not wait
				ws = append(ws, pick([]string{"?", "off", "nobody:"}))
			case "get", "getdir", "take", "put", "give", "putblind", "delete":
				if n := rnd.Intn(4); n == 3 {
					h := pick(hosts)
					if h == "127.0.0.1" || h == "::1" || h == "127.0.0.2" || h == "0.0.0.0" || h == "224.0.0.1" || h == "[::1]" {
						if nput++; nput > 120*r.Scale {
							h = "300.1.1.1"
						}
					}
					ws = append(ws, h, pick(files))
				} else {
					for i := 0; i < n; i++ {
						ws = append(ws, pick([]string{"?", "a"}))
					}
				}
			case "rmtran":
				for _, w := range []string{pick([]string{"put", "get", "?"}), pick(hosts), pick([]string{"1", "x", "-1", "4294967296"}), "x"}[:rnd.Intn(5)] {
					ws = append(ws, w)
				}
			case "clear":
				for i := rnd.Intn(4); i > 0; i-- {
					ws = append(ws, pick([]string{"msg", "err", "packet", "cmd", "?"}))
				}
			default:
				for i := rnd.Intn(4); i > 0; i-- {
					ws = append(ws, word())
				}
			}
		}
		out := ""
		if rnd.Intn(6) == 0 {
			out = pick(seps)
		}
		for i, w := range ws {
			if i > 0 {
				out += pick(seps)
			}
			out += w
		}
		if rnd.Intn(6) == 0 {
			out += pick(seps)
		}
		if rnd.Intn(60) == 0 {
			out = strings.Repeat(pick(seps), rnd.Intn(3))
		}
		return out
	}
	vary := func(c *sarflags.Cliflags) {
		c.Timeout.Datacounter = []int{0, 1, 100, 7}[rnd.Intn(4)]
		c.Timeout.Metadata, c.Timeout.Request, c.Timeout.Status, c.Timeout.Transfer = rnd.Intn(2)*60, rnd.Intn(2)*61, rnd.Intn(2)*62, rnd.Intn(2)*63
		c.Timeout.Binterval = uint(rnd.Intn(3))
		c.Bcount = uint(rnd.Intn(3))
		for _, k := range []string{"freespace", "reqtstamp", "stream"} {
			c.Global[k] = pick([]string{"yes", "no"})
		}
		c.Global["rxwilling"], c.Global["txwilling"] = pick([]string{"yes", "no", "capable"}), pick([]string{"yes", "no", "capable"})
		c.Global["csumtype"], c.Global["descriptor"] = pick([]string{"none", "md5"}), pick([]string{"d16", "d32", "d64"})
		c.Timestamp, c.Timezone = pick([]string{"posix32", "posix64_32", "epoch2000_32"}), pick([]string{"utc", "local"})
		if rnd.Intn(6) == 0 { // a setting the configuration does not mention
			delete(c.Global, pick([]string{"stream", "freespace", "csumtype", "rxwilling"}))
		}
	}
	beacon.Peers = nil
	for i := 0; i < 60*r.Scale; i++ {
		begin(vary)
		if i%10 == 5 { // there are peers to show
			for j := 0; j < 1+rnd.Intn(3); j++ {
				b := new(beacon.Beacon)
				if b.New(pick([]string{"descriptor=d64,freespace=yes,freespaced=d64,rxwilling=yes,txwilling=capable", "descriptor=d16,freespace=no,rxwilling=no,txwilling=yes"}),
					&beacon.Binfo{Freespace: 12345, Eid: pick([]string{"127.0.0.1-3", "x-%d%s%n", ""})}) == nil {
					beacon.NewPeer(b, &net.UDPAddr{IP: net.IPv4(127, 0, 0, byte(1+j)), Port: 7542})
				}
			}
		}
		for j := 0; j < 25; j++ {
			enter(line())
		}
		settle()
	}
	// Every command with every value of a few
	for _, c := range append(append([]string{}, setting...), other...) {
		begin(vary)
		for _, v := range append([]string{""}, values...) {
			if c == "beacon" && v != "?" && v != "off" {
				continue
			}
			enter(c + " " + v)
			if c == "timeout" && v != "" && strings.Contains("metadata request status datacounter transfer binterval off ?", v) {
				for _, w := range []string{"0", "1", "off", "?", "x", "-1", "9223372036854775807", "9223372036854775808"} {
					enter(c + " " + v + " " + w)
				}
			}
		}
	}

	// What is typed
	for i := 0; i < 12*r.Scale; i++ {
		begin(vary)
		for j := 0; j < 10; j++ {
			l := line()
			for !keyable(l) {
				l = line()
			}
			m := rec.M{"e": "cmd", "res": "ok", "words": words(l)}
			r.Call(m, func() {
				typed(l)
				press(termbox.KeyEnter)
				drained()
				m["after"] = snap()
			})
		}
	}
	// Any keys at all: the lines that come out of them are in the history
	keys := []termbox.Key{termbox.KeyArrowLeft, termbox.KeyArrowRight, termbox.KeyArrowUp, termbox.KeyArrowDown, termbox.KeyBackspace, termbox.KeyBackspace2,
		termbox.KeyDelete, termbox.KeyCtrlSpace, termbox.KeyCtrlP, termbox.KeyEnter, termbox.KeyEnter, termbox.KeyTab, termbox.KeyHome, termbox.KeyEsc, termbox.KeyF1, termbox.KeyCtrlA}
	for i := 0; i < 12*r.Scale; i++ {
		begin(vary)
		was := len(sarwin.Cinfo.Commands)
		m := rec.M{"e": "par", "res": "ok", "lines": [][]rec.M{}}
		r.Call(m, func() {
			for j := 0; j < 4; j++ {
				l := line()
				for !keyable(l) {
					l = line()
				}
				for _, c := range l {
					typed(string(c))
					if rnd.Intn(12) == 0 {
						press(keys[rnd.Intn(len(keys))])
					}
				}
				for rnd.Intn(3) == 0 {
					press(keys[rnd.Intn(len(keys))])
				}
				press(termbox.KeyEnter)
				if rnd.Intn(2) == 0 {
					drained()
				}
			}
			drained()
			got := [][]rec.M{}
			for _, c := range sarwin.Cinfo.Commands[was:] {
				got = append(got, words(c))
			}
			m["lines"] = got
			m["after"] = snap()
		})
	}

	// Lines at the same time.  Each kind of run is done many times and recorded when its outcome is new
	kinds := [][]string{
		{"checksum md5", "checksum sha1", "checksum crc32", "descriptor d16"},
		{"timestamp 32", "timestamp off", "reqtstamp no", "timestamp local"},
		{"timeout metadata 1", "timeout request 2", "timeout", "timeout datacounter 0", "timeout datacounter 5"},
		{"freespace no", "stream yes", "rxwilling off", "txwilling capable", "checksum md5", "descriptor d32"},
		{"clear", "help", "clear msg", "usage", "clear err packet", "?"},
		{"bcount 5", "interval 7", "bcount 6", "interval off", "timezone local", "timezone utc"},
		{"peers", "files", "tran", "get", "put", "delete"},
		{"delete 127.0.0.1 f#", "checksum md5", "freespace no", "descriptor d16", "delete 127.0.0.1 g#", "stream yes"},
	}
	for k, kind := range kinds {
		seen := map[string]bool{}
		n := 60 * r.Scale
		if k == len(kinds)-1 {
			n = 40 * r.Scale
		}
		for i := 0; i < n; i++ {
			var lines []string
			ws := [][]rec.M{}
			for _, l := range kind {
				l = strings.Replace(l, "#", strconv.Itoa(i), 1)
				lines = append(lines, l)
				ws = append(ws, words(l))
			}
			setup()
			os.Chdir(base + "/sar")
			if i%20 == 0 {
				tidyGui()
			}
			pre := snap()
			m := rec.M{"e": "par", "res": "ok", "lines": ws}
			if i%4 == 0 { // so that a crash is put down to it
				r.Reset(rec.M{"settings": pre})
			}
			r.CallQ(m, func() {
				var goes int32
				var ready, stop sync.WaitGroup
				for _, l := range lines {
					ready.Add(1)
					stop.Add(1)
					go func(l string) {
						ready.Done()
						for atomic.LoadInt32(&goes) == 0 {
						}
						sarwin.Run(gui, l)
						stop.Done()
					}(l)
				}
				ready.Wait()
				atomic.StoreInt32(&goes, 1)
				stop.Wait()
				settle()
				settle()
				m["after"] = snap()
			})
			if key := fmt.Sprint(m["after"]); !seen[key] || m["res"] != "ok" {
				seen[key] = true
				r.Reset(rec.M{"settings": pre})
				r.Ev(m)
			}
		}
	}
	// A storm of them: the settings end up as one of the lines says
	for i := 0; i < 3*r.Scale; i++ {
		begin(nil)
		m := rec.M{"e": "par", "res": "ok", "lines": [][]rec.M{}}
		r.Call(m, func() {
			for j := 0; j < 1500; j++ {
				switch i % 3 {
				case 0:
					sarwin.Run(gui, "checksum md5")
					sarwin.Run(gui, "descriptor d16")
					sarwin.Run(gui, "checksum")
				case 1:
					sarwin.Run(gui, "clear")
					sarwin.Run(gui, "help")
				case 2:
					sarwin.Run(gui, "timeout request 9")
					sarwin.Run(gui, "timeout")
					sarwin.Run(gui, "freespace no")
				}
				if j%300 == 299 {
					settle()
					tidyGui()
				}
			}
			settle()
			ws := [][]rec.M{}
			for _, l := range [][]string{{"checksum md5", "descriptor d16"}, {"clear", "help"}, {"timeout request 9", "freespace no"}}[i%3] {
				ws = append(ws, words(l))
			}
			m["lines"] = ws
			m["after"] = snap()
		})
	}
	cleanTree()
}

// keyable says whether a line can be typed and entered: it fits in the window
// and does not end the program
func keyable(l string) bool {
	if len(l) == 0 || len(l) > 40 || strings.TrimSpace(l) != l || strings.HasPrefix(l, "exit") || strings.HasPrefix(l, "quit") {
		return false
	}
	for _, c := range l {
		if c < ' ' || c > '~' {
			return false
		}
	}
	return true
}
