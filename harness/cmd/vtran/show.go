package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unicode"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/timestamp"
	"github.com/jroimartin/gocui"
)

func init() { drivers["show"] = driveShow }

var separators = regexp.MustCompile(`[\s:\-]+`)

func normal(s string) string { return strings.TrimSpace(separators.ReplaceAllString(s, " ")) }

var layouts = []string{"Mon Jan _2 15:04:05.000 2006 UTC", "Mon Jan _2 15:04:05 2006 UTC"}

// instant is what a time that is shown stands for
func instant(s string) string {
	for _, l := range layouts {
		if t, err := time.Parse(l, s); err == nil {
			return fmt.Sprintf("%d.%03d", t.Unix(), t.Nanosecond()/1e6)
		}
	}
	return s
}

type configured struct{ name, help, usage string }

// theHelp reads the help from the configuration file
func theHelp() []configured {
	b, err := os.ReadFile(*conf)
	if err != nil {
		rec.Fatal(err)
	}
	var c struct {
		Commands map[string]struct{ Help, Usage string }
	}
	if err := json.Unmarshal(b, &c); err != nil {
		rec.Fatal(err)
	}
	l := []configured{}
	for k, v := range c.Commands {
		l = append(l, configured{k, normal(v.Help), normal(v.Usage)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

// take empties the windows and returns what was in them
func takeWindows() (msg, err []string) {
	done := make(chan bool)
	get := func(g *gocui.Gui, n string) []string {
		v, e := g.View(n)
		if e != nil {
			rec.Fatal(n, e)
		}
		l := []string{}
		for _, s := range strings.Split(v.Buffer(), "\n") {
			if strings.TrimSpace(s) != "" {
				l = append(l, s)
			}
		}
		v.Clear()
		return l
	}
	gui.Update(func(g *gocui.Gui) error {
		msg, err = get(g, "msg"), get(g, "err")
		close(done)
		return nil
	})
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		rec.Fatal("the user interface does not answer")
	}
	return
}

func driveShow(r *rec.Rec) {
	// not where the times are
	time.Local = time.FixedZone("there", 37*60)
	setupTree()
	startGui()
	rnd := r.Rand
	pick := func(l []string) string { return l[rnd.Intn(len(l))] }
	cfg := theHelp()
	help := []rec.M{}
	for _, c := range cfg {
		help = append(help, rec.M{"name": c.name, "help": c.help, "usage": c.usage})
	}
	frame := regexp.MustCompile(`^[|+\-]+$`)
	describe := func(ls []string, errs bool) []rec.M {
		out := []rec.M{}
		for _, l := range ls {
			m := rec.M{"norm": normal(l), "words": []rec.M{}, "cells": []string{}, "gb": rec.B8(0), "about": []string{}}
			trimmed := strings.TrimSpace(l)
			if frame.MatchString(trimmed) && len(trimmed) > 3 { // the border of a table
				continue
			}
			if strings.HasPrefix(trimmed, "|") && strings.HasSuffix(trimmed, "|") && len(trimmed) > 1 {
				cells := strings.Split(trimmed[1:len(trimmed)-1], "|")
				for i := range cells {
					cells[i] = instant(strings.TrimSpace(cells[i]))
				}
				m["cells"] = cells
				if len(cells) > 1 {
					if n, err := strconv.ParseUint(cells[1], 10, 64); err == nil {
						m["gb"] = rec.B8(n)
					} else if err != nil {
						m["gb"] = rec.B8(math.MaxUint64)
					}
				}
			}
			ws := []rec.M{}
			for _, w := range strings.FieldsFunc(strings.ToLower(l), func(c rune) bool { return !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' }) {
				x := rec.M{"w": w, "num": false, "n": rec.B8(0)}
				if n, err := strconv.ParseUint(w, 10, 64); err == nil {
					x["num"], x["n"] = true, rec.B8(n)
				}
				ws = append(ws, x)
			}
			m["words"] = ws
			if errs {
				ab := []string{}
				for _, c := range cfg {
					if strings.Contains(" "+normal(l)+" ", " "+c.usage+" ") {
						ab = append(ab, c.name)
					}
				}
				m["about"] = ab
			}
			out = append(out, m)
		}
		return out
	}
	stampOf := func(t *timestamp.Timestamp) string { return instant(t.Print()) }
	// times made here, so that it is known what they are
	known := map[string]string{}
	makeTime := func(kind string, secs int64, ms int) (t timestamp.Timestamp, text string) {
		at := time.Unix(secs, int64(ms)*1e6)
		if err := t.New("timestamp="+kind, at); err != nil {
			if err := t.New(kind, at); err != nil {
				rec.Fatal("timestamp", kind, err)
			}
		}
		if !strings.HasSuffix(kind, "_32") || kind == "epoch2000_32" {
			ms = 0
		}
		return t, fmt.Sprintf("%d.%03d", secs, ms)
	}
	peerText := func(p beacon.Peer) rec.M {
		created, updated := stampOf(&p.Created), stampOf(&p.Updated)
		if s, ok := known[p.Addr+" c"]; ok {
			created = s
		}
		if s, ok := known[p.Addr+" u"]; ok {
			updated = s
		}
		return rec.M{"addr": p.Addr, "free": rec.B8(p.Freespace), "eid": strings.TrimSpace(p.Eid), "desc": p.Maxdesc, "rx": p.Canrx, "tx": p.Cantx,
			"created": created, "updated": updated}
	}
	have := func() {
		xs, ps := []rec.M{}, []rec.M{}
		sarwin.Trmu.Lock()
		for i := range sarwin.Transfers {
			t := &sarwin.Transfers[i]
			xs = append(xs, rec.M{"dir": map[bool]string{sarwin.Initiator: "Initiator", sarwin.Responder: "Responder"}[t.Direction], "type": t.Ttype, "peer": t.Peer.String(), "file": t.Filename})
		}
		sarwin.Trmu.Unlock()
		for _, p := range beacon.Peers {
			ps = append(ps, peerText(p))
		}
		r.Ev(rec.M{"e": "have", "xfers": xs, "peers": ps})
	}
	turn := 0
	begin := func(change func(c *sarflags.Cliflags)) {
		for i := range sarwin.Transfers {
			t := &sarwin.Transfers[i]
			if t.Conn != nil {
				t.Conn.Close()
			}
			if t.Fp != nil {
				t.Fp.Close()
			}
		}
		sarwin.Transfers = nil
		beacon.Peers = nil
		known = map[string]string{}
		setup()
		os.Chdir(base + "/sar")
		if change != nil {
			change(sarflags.Cliflag)
		}
		// help that is worded in another way, or missing
		own := help
		if turn%3 == 1 {
			own = append([]rec.M{}, help...)
			for q := 0; q < 6; q++ {
				k := rnd.Intn(len(own))
				name, text := own[k]["name"].(string), pick([]string{"", "x", "what " + pick(cfgNames(cfg)) + " is for", "100% of %s"})
				own[k] = rec.M{"name": name, "help": normal(text), "usage": own[k]["usage"]}
				sarflags.Commands[name] = sarflags.Cmdtype{Help: text, Usage: sarflags.Commands[name].Usage}
			}
		}
		r.Reset(rec.M{"settings": snap(), "help": own})
		if turn++; turn%200 == 0 {
			tidyGui()
		}
	}
	enter := func(line string) {
		m := rec.M{"e": "cmd", "res": "ok", "line": words(line), "msg": []rec.M{}, "err": []rec.M{}}
		r.Call(m, func() {
			takeWindows()
			command(line)
			msg, err := takeWindows()
			m["msg"], m["err"] = describe(msg, false), describe(err, true)
			m["after"] = snap()
		})
	}
	addXfer := func(typ, peer, file string) {
		dir := sarwin.Initiator
		if rnd.Intn(4) == 0 {
			dir = sarwin.Responder
		}
		a, err := net.ResolveUDPAddr("udp", peer)
		if err != nil {
			rec.Fatal(peer, err)
		}
		sarwin.Transfers = append(sarwin.Transfers, sarwin.Transfer{Direction: dir, Ttype: typ, Peer: a, Filename: file, Session: uint32(1000 + len(sarwin.Transfers))})
	}
	hear := func(addr, flags, eid string, free uint64) {
		b := new(beacon.Beacon)
		if err := b.New(flags, &beacon.Binfo{Freespace: free, Eid: eid}); err != nil {
			rec.Fatal("beacon", flags, err)
		}
		beacon.NewPeer(b, &net.UDPAddr{IP: net.ParseIP(addr), Port: 7542})
	}

	type step struct {
		K    string
		Line []string
		I    int
	}
	nth := 0
	scenarios(func(s string) {
		var h []step
		if err := json.Unmarshal([]byte(s), &h); err != nil {
			rec.Fatal(err)
		}
		begin(func(c *sarflags.Cliflags) {
			if nth++; nth%2 == 0 {
				c.Timeout.Metadata, c.Timeout.Request, c.Timeout.Status, c.Timeout.Transfer = 0, 0, 0, 0
				if nth%4 == 0 {
					c.Timeout.Binterval, c.Bcount = 0, 0
				}
			}
		})
		for _, st := range h {
			switch st.K {
			case "xfer":
				addXfer(st.Line[0], st.Line[1], st.Line[2])
				have()
			case "drop":
				sarwin.Transfers = append(sarwin.Transfers[:st.I-1:st.I-1], sarwin.Transfers[st.I:]...)
				have()
			case "peer":
				a, _, _ := net.SplitHostPort(st.Line[0])
				if st.I == 1 {
					hear(a, "descriptor=d64,freespace=no,rxwilling=no,txwilling=yes", "", 0)
				} else {
					hear(a, "descriptor=d16,freespace=yes,freespaced=d64,rxwilling=capable,txwilling=no", "x-1", 1<<32)
				}
				have()
			default:
				enter(strings.Join(st.Line, " "))
			}
		}
	})

	types := strings.Fields("get take getdir put putblind give delete")
	setting := strings.Fields("checksum descriptor freespace reqtstamp stream rxwilling txwilling timestamp timezone bcount interval timeout")
	timeouts := strings.Fields("metadata request status datacounter transfer")
	listers := append([]string{"files", "tran", "files", "tran"}, types...)
	addrs := strings.Fields("127.0.0.1:7542 127.0.0.2:7542 [::1]:7542 10.20.30.40:1 [fe80::1:2:3:4]:65535 255.255.255.255:7542 [1111:2222:3333:4444:5555:6666:7777:8888]:12345")
	names := append(strings.Fields("a d/a missing - -- --- ./x 100% %s %d%n a+b + long/er/name/than/most/others.of.them.txt \u00e9t\u00e9 x"), strings.Repeat("y", 200))
	nums := strings.Fields("0 1 2 59 60 100 65535 65536 4294967296 9223372036854775807")
	good := map[string][]string{"checksum": strings.Fields("off none crc32 md5 sha1"), "descriptor": strings.Fields("auto d16 d32 d64"),
		"freespace": {"yes", "no"}, "reqtstamp": {"yes", "no"}, "stream": {"yes", "no"}, "rxwilling": strings.Fields("on off capable"),
		"txwilling": strings.Fields("on off capable"), "timestamp": strings.Fields("off 32 32_32 64 64_32 32_y2k local"), "timezone": {"local", "utc"},
		"bcount": nums, "interval": append([]string{"off"}, nums...)}
	line := func() string {
		switch rnd.Intn(14) {
		case 0, 1, 2: // set
			c := pick(setting)
			if c == "timeout" {
				return c + " " + pick(timeouts) + " " + pick(append([]string{"off"}, nums...))
			}
			return c + " " + pick(good[c])
		case 3, 4, 5: // ask
			if c := pick(setting); c != "timeout" || rnd.Intn(2) == 0 {
				return c
			}
			return "timeout " + pick(timeouts)
		case 6, 7:
			return pick(listers)
		case 8:
			return "tran " + pick(types)
		case 9:
			return "peers"
		case 10:
			return pick(cfgNames(cfg)) + " ?"
		case 11: // what is refused
			return pick([]string{"checksum md4", "descriptor d8", "freespace maybe", "reqtstamp 1", "stream on", "rxwilling yes", "txwilling no x", "timestamp 16", "timezone est",
				"bcount -1", "bcount x", "interval x", "timeout x", "timeout request", "timeout request x", "timeout nosuch 5", "timeout nosuch off", "timeout binterval off", "timeout a b c",
				"tran x", "tran get put", "files x", "peers x", "peers a b", "get x", "put x", "take x", "give x", "putblind x", "delete x", "getdir x", "get a b c", "put a b c",
				"give a b c", "take a b c", "delete a b c", "putblind a b c", "getdir a b c", "rmtran", "rmtran a b", "exit 2", "quit x", "home x", "checksum none none", "bcount 1 2", "interval 1 2"})
		case 12:
			return pick([]string{"nosuch", "nosuch x", "nosuch ?", "trann get", "get: x y", "files, ?", "Tran get 1 2", "Checksum", "checksum=md5", "tra", "trann", "??"})
		default:
			return pick(types) + " " + pick([]string{"nobody", "1.2.3", "300.1.1.1.1", "::g"}) + " " + pick([]string{"a", "new"})
		}
	}
	vary := func(c *sarflags.Cliflags) {
		c.Timeout.Datacounter = []int{0, 1, 100, 7}[rnd.Intn(4)]
		c.Timeout.Metadata, c.Timeout.Request, c.Timeout.Status, c.Timeout.Transfer = rnd.Intn(2)*60, rnd.Intn(2)*61, rnd.Intn(2)*62, rnd.Intn(2)*63
		c.Timeout.Binterval, c.Bcount = uint(rnd.Intn(3)), uint(rnd.Intn(3))
		for _, k := range []string{"freespace", "reqtstamp", "stream"} {
			c.Global[k] = pick([]string{"yes", "no"})
		}
		c.Global["rxwilling"], c.Global["txwilling"] = pick([]string{"yes", "no", "capable"}), pick([]string{"yes", "no", "capable"})
		c.Global["csumtype"], c.Global["descriptor"] = pick([]string{"none", "md5", "sha1", "crc32"}), pick([]string{"d16", "d32", "d64"})
		c.Timestamp, c.Timezone = pick([]string{"posix32", "posix64_32", "epoch2000_32", "localinterp"}), pick([]string{"utc", "local"})
	}
	kinds := strings.Fields("posix32 posix64 posix32_32 posix64_32 epoch2000_32 posix32_32 posix32_32")
	hosts := strings.Fields("127.0.0.1 127.0.0.2 ::1 10.20.30.40 fe80::1 9.9.9.9 2001:db8::ff00:42:8329 1111:2222:3333:4444:5555:6666:7777:8888 255.255.255.255")
	yn := []string{"yes", "no", "capable", "invalid"}
	frees := []uint64{0, 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20, 1<<30 - 1, 1 << 30, 1023 << 20, 123456789012, 1<<40 + 5, 1 << 62, math.MaxUint64 - 1}
	for i := 0; i < 60*r.Scale; i++ {
		begin(vary)
		if i%2 == 0 {
			for j := rnd.Intn(14); j > 0; j-- {
				addXfer(pick(types), pick(addrs), pick(names))
			}
		}
		if i%3 != 0 {
			for j := rnd.Intn(8); j >= 0; j-- {
				hear(pick(hosts), fmt.Sprintf("descriptor=%s,freespace=yes,freespaced=d64,rxwilling=%s,txwilling=%s", pick([]string{"d16", "d32", "d64", "d128"}), pick(yn), pick(yn)),
					pick([]string{"127.0.0.1-3", "x-%d%s%n", "", "ab", "a b c", strings.Repeat("e", 90), "\u00e9\u00e9"}), frees[rnd.Intn(len(frees))])
			}
			if rnd.Intn(2) == 0 { // seen at other times
				for k := range beacon.Peers {
					p := &beacon.Peers[k]
					c := int64(rnd.Intn(2_000_000_000)) + 946684800
					kind := pick(kinds)
					p.Created, known[p.Addr+" c"] = makeTime(kind, c, rnd.Intn(1000))
					p.Updated, known[p.Addr+" u"] = makeTime(pick(kinds), c+int64(rnd.Intn(100000)), rnd.Intn(1000))
				}
			}
		}
		have()
		for j := 0; j < 25; j++ {
			enter(line())
		}
		enter("peers")
		enter(pick(listers))
		if i%10 <= 1 {
			for _, l := range []string{"help", "usage", "?", "help ?", "? ?", "usage ?", "timeout"} {
				enter(l)
			}
		}
	}
	// many
	begin(nil)
	for j := 0; j < 300; j++ {
		addXfer(pick(types), fmt.Sprintf("10.1.%d.%d:7542", j/100, j%100), fmt.Sprintf("f%d", j))
		hear(fmt.Sprintf("10.2.%d.%d", j/100, j%100), "descriptor=d32,freespace=yes,freespaced=d64,rxwilling=yes,txwilling=no", fmt.Sprintf("e%d", j), uint64(j)<<20)
	}
	have()
	for _, l := range append([]string{"peers"}, listers...) {
		enter(l)
	}
	for _, c := range cfg {
		enter(c.name + " ?")
	}
	// what commands start is listed, and no longer when it is removed
	makeTree(tree1)
	for i := 0; i < 6*r.Scale; i++ {
		begin(nil)
		for j := 0; j < 5; j++ {
			enter(pick([]string{"get", "take", "getdir", "get"}) + " " + pick([]string{"127.0.0.1", "::1", "127.0.0.2"}) + " " + fmt.Sprintf("g%d-%d", i, j))
			have()
			enter(pick(listers))
			if len(sarwin.Transfers) > 1 && rnd.Intn(2) == 0 {
				t := sarwin.Transfers[rnd.Intn(len(sarwin.Transfers))]
				enter(fmt.Sprintf("rmtran %s %s %d", t.Ttype, t.Conn.RemoteAddr(), t.Session))
				have()
				enter("tran")
			}
		}
	}
	// Peers while their beacons come in
	flagsOf := []string{"descriptor=d16,freespace=yes,freespaced=d64,rxwilling=yes,txwilling=no", "descriptor=d64,freespace=yes,freespaced=d64,rxwilling=capable,txwilling=yes"}
	eids := []string{"a", strings.Repeat("b", 20)}
	free := []uint64{3 << 20, 9000 << 20}
	begin(nil)
	vs := [][]rec.M{}
	const np = 6
	bs := [np][2]*beacon.Beacon{}
	as := [np]*net.UDPAddr{}
	for p := 0; p < np; p++ {
		as[p] = &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(p)), Port: 7542}
		v := []rec.M{}
		for k := 0; k < 2; k++ {
			bs[p][k] = new(beacon.Beacon)
			if err := bs[p][k].New(flagsOf[k], &beacon.Binfo{Freespace: free[k], Eid: eids[k]}); err != nil {
				rec.Fatal(err)
			}
		}
		for k := 1; k >= 0; k-- {
			beacon.NewPeer(bs[p][k], as[p])
			v = append(v, peerText(beacon.Peers[p]))
		}
		vs = append(vs, v)
	}
	seen := map[string]bool{}
	for i := 0; i < 25*r.Scale; i++ {
		m := rec.M{"e": "during", "res": "ok", "versions": vs, "msg": []rec.M{}}
		r.CallQ(m, func() {
			takeWindows()
			var stop int32
			ended := make(chan bool)
			for w := 0; w < 2; w++ {
				go func(w int) {
					for k := 0; atomic.LoadInt32(&stop) == 0; k++ {
						p := (k/2 + w) % np
						beacon.NewPeer(bs[p][k%2], as[p])
					}
					ended <- true
				}(w)
			}
			for k := 0; k < 20; k++ {
				sarwin.Run(gui, "peers")
				time.Sleep(300 * time.Microsecond)
			}
			time.Sleep(2 * time.Millisecond)
			atomic.StoreInt32(&stop, 1)
			<-ended
			<-ended
			settle()
			msg, _ := takeWindows()
			// one table after the other
			table := []string{}
			flush := func() {
				if len(table) > 0 {
					d := describe(table, false)
					if key := strings.Join(table, "\n"); !seen[mask(key)] {
						seen[mask(key)] = true
						r.Ev(rec.M{"e": "during", "res": "ok", "versions": vs, "msg": d})
					}
				}
				table = nil
			}
			for _, l := range msg {
				if strings.HasPrefix(l, "|") && strings.Contains(l, "EID") {
					flush()
				}
				if strings.HasPrefix(l, "|") {
					table = append(table, l)
				}
			}
			flush()
		})
		if m["res"] != "ok" {
			r.Ev(m)
		}
	}
	cleanTree()
}

var clock = regexp.MustCompile(`\d\d:\d\d:\d\d\.\d*`)

// mask leaves out the time of day
func mask(s string) string { return clock.ReplaceAllString(s, "") }

func cfgNames(l []configured) []string {
	n := []string{}
	for _, c := range l {
		n = append(n, c.name)
	}
	return n
}
