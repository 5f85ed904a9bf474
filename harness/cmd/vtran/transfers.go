package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
)

func init() { drivers["transfers"] = driveTransfers }

func dirn(b bool) string {
	if b == sarwin.Initiator {
		return "init"
	}
	return "resp"
}

func xf(t *sarwin.Transfer) rec.M {
	return rec.M{"dir": dirn(t.Direction), "session": rec.B4(t.Session), "peer": t.Peer.String(), "ttype": t.Ttype,
		"fname": rec.Bytes([]byte(t.Filename))}
}

func xfKey(t *sarwin.Transfer) rec.M {
	return rec.M{"dir": dirn(t.Direction), "session": rec.B4(t.Session), "peer": t.Peer.String()}
}

func xfList() []rec.M {
	l := []rec.M{}
	for i := range sarwin.Transfers {
		l = append(l, xf(&sarwin.Transfers[i]))
	}
	return l
}

// a handle on a transfer, and what it was when it was got
type handle struct {
	t   *sarwin.Transfer
	key rec.M
}

// xop is one call of a concurrent run
type xop struct {
	G     int
	op    string
	ttype string
	peer  *net.UDPAddr
	fname string
	h     handle
	dir   bool
	sess  uint32
	m     rec.M
	got   *sarwin.Transfer
	bad   bool
}

func reachable(p *net.UDPAddr) bool {
	c, err := net.DialUDP("udp", nil, p)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

func noEntry() rec.M {
	return rec.M{"dir": "", "session": []int{}, "peer": "", "ttype": "", "fname": []int{}}
}

func (o *xop) run() {
	switch o.op {
	case "start":
		o.m = rec.M{"g": o.G, "op": o.op, "ttype": o.ttype, "peer": o.peer.String(), "fname": rec.Bytes([]byte(o.fname)), "comps": comps(o.fname),
			"reach": true, "ok": false, "session": []int{}}
		t, err := sarwin.NewInitiator(gui, o.ttype, o.peer, o.fname, sarflags.Cliflag)
		if err == nil && t != nil {
			o.got = t
			o.m["ok"] = true
			o.m["session"] = rec.B4(t.Session)
		}
	case "remove":
		o.m = rec.M{"g": o.G, "op": o.op, "key": o.h.key, "ok": false}
		o.m["ok"] = o.h.t.Remove() == nil
	case "lookup", "match":
		o.m = rec.M{"g": o.G, "op": o.op, "key": rec.M{"dir": dirn(o.dir), "session": rec.B4(o.sess), "peer": o.peer.String()}, "found": false, "got": noEntry()}
		var t *sarwin.Transfer
		if o.op == "lookup" {
			t = sarwin.Lookup(o.dir, o.sess, o.peer.String())
		} else {
			t = sarwin.Match(o.peer.String(), o.sess)
		}
		if t != nil {
			o.m["found"] = true
			sarwin.Trmu.Lock()
			o.m["got"] = xf(t)
			sarwin.Trmu.Unlock()
		}
	}
}

var treeT = []node{{"o", "\x01"}, {"sar/a", "\x03"}, {"sar/d/", ""}}

// with what is neither a file nor a directory
var treeP = []node{{"o", "\x01"}, {"sar/a", "\x03"}, {"sar/d/", ""}, {"sar/pipe|", ""}, {"sar/d/q|", ""}}

func driveTransfers(r *rec.Rec) {
	setupTree()
	startGui()
	var handles []handle
	var opened []*sarwin.Transfer
	turn := 0
	closeAll := func() {
		for _, t := range opened {
			if t.Conn != nil {
				t.Conn.Close()
			}
			if t.Fp != nil {
				t.Fp.Close()
			}
		}
		opened, handles = nil, nil
	}
	cur, dirty := -1, true
	// each run begins with a fresh list, which may hold transfers peers asked for
	begin := func(k int, resp ...xop) {
		closeAll()
		if dirty || cur != k {
			makeTree([][]node{treeT, tree1, tree2, treeP}[k])
			cur, dirty = k, false
		}
		if turn++; turn%50 == 0 {
			tidyGui()
		}
		sardirAs(turn)
		sarwin.Transfers = nil
		for _, x := range resp {
			conn, err := net.DialUDP("udp", nil, x.peer)
			if err != nil {
				rec.Fatal(err)
			}
			t := sarwin.Transfer{Direction: sarwin.Responder, Session: x.sess, Peer: x.peer, Conn: conn, Ttype: x.ttype, Filename: x.fname}
			sarwin.Transfers = append(sarwin.Transfers, t)
			opened = append(opened, &t)
		}
		r.Reset(rec.M{"tree": snapTree(), "list": xfList()})
	}
	look := func(m rec.M) {
		m["list"] = xfList()
		m["tree"] = snapTree()
	}
	start := func(ttype string, peer *net.UDPAddr, fname string) *sarwin.Transfer {
		m := rec.M{"e": "start", "res": "ok", "ttype": ttype, "peer": peer.String(), "fname": rec.Bytes([]byte(fname)), "comps": comps(fname),
			"reach": reachable(peer), "ok": false, "handle": noEntry()}
		dirty = true
		var got *sarwin.Transfer
		r.Call(m, func() {
			p := *peer
			t, err := sarwin.NewInitiator(gui, ttype, &p, fname, sarflags.Cliflag)
			if err == nil && t != nil {
				m["ok"] = true
				m["handle"] = xf(t)
				handles = append(handles, handle{t, xfKey(t)})
				opened = append(opened, t)
				got = t
			}
			look(m)
		})
		return got
	}
	remove := func(h handle) {
		m := rec.M{"e": "remove", "res": "ok", "key": h.key, "ok": false}
		r.Call(m, func() {
			m["ok"] = h.t.Remove() == nil
			look(m)
		})
	}
	lookup := func(dir bool, sess uint32, peer string) {
		m := rec.M{"e": "lookup", "res": "ok", "key": rec.M{"dir": dirn(dir), "session": rec.B4(sess), "peer": peer}, "found": false, "got": noEntry()}
		r.Call(m, func() {
			if t := sarwin.Lookup(dir, sess, peer); t != nil {
				m["found"] = true
				m["got"] = xf(t)
				handles = append(handles, handle{t, xfKey(t)})
			}
			look(m)
		})
	}
	match := func(sess uint32, peer string) {
		m := rec.M{"e": "match", "res": "ok", "session": rec.B4(sess), "peer": peer, "found": false, "got": noEntry()}
		r.Call(m, func() {
			if t := sarwin.Match(peer, sess); t != nil {
				m["found"] = true
				m["got"] = xf(t)
				handles = append(handles, handle{t, xfKey(t)})
			}
			look(m)
		})
	}
	open := func(ttype, fname string) {
		m := rec.M{"e": "open", "res": "ok", "ttype": ttype, "peer": "", "fname": rec.Bytes([]byte(fname)), "comps": comps(fname), "reach": true, "ok": false, "data": []int{}}
		dirty = true
		r.Call(m, func() {
			fp, err := fileio.FileOpen(fname, ttype)
			m["ok"] = err == nil
			if fp != nil {
				b, _ := io.ReadAll(fp)
				m["data"] = rec.Bytes(b)
				fp.Close()
			}
			look(m)
		})
	}
	cmdStart := func(ttype, addr, fname string) {
		peer, rc := "", false
		if ip := net.ParseIP(addr); ip != nil {
			p := &net.UDPAddr{IP: ip, Port: 7542}
			peer, rc = p.String(), reachable(p)
		}
		m := rec.M{"e": "cmd", "res": "ok", "ttype": ttype, "peer": peer, "fname": rec.Bytes([]byte(fname)), "comps": comps(fname), "reach": rc,
			"line": ttype + " " + addr + " " + fname}
		dirty = true
		r.Call(m, func() {
			command(ttype + " " + addr + " " + fname)
			for i := range sarwin.Transfers {
				t := sarwin.Transfers[i]
				opened = append(opened, &t)
			}
			look(m)
		})
	}
	rmtran := func(ttype, addr, sess string, num uint32, valid bool) {
		m := rec.M{"e": "rmtran", "res": "ok", "ttype": ttype, "peer": addr, "session": rec.B4(num), "valid": valid,
			"line": "rmtran " + ttype + " " + addr + " " + sess}
		r.Call(m, func() {
			command("rmtran " + ttype + " " + addr + " " + sess)
			look(m)
		})
	}
	udp := func(s string, port int) *net.UDPAddr { return &net.UDPAddr{IP: net.ParseIP(s), Port: port} }
	peers := []*net.UDPAddr{udp("127.0.0.1", 7542), udp("127.0.0.1", 7543), udp("127.0.0.2", 7542), udp("127.0.0.1", 75), udp("::1", 7542), udp("127.0.0.12", 7542)}
	pairs := [][2]int{{0, 1}, {0, 2}, {0, 3}, {0, 4}, {2, 5}}
	types := []string{"get", "take", "getdir", "put", "give", "putblind", "delete"}
	// histories of the specification
	n := 0
	scenarios(func(line string) {
		var s []struct {
			Op, Ttype string
			Peer, I   int
			Fname     []byteval
		}
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		n++
		begin(0)
		pp := pairs[n%len(pairs)]
		hs := make([]*sarwin.Transfer, len(s))
		ks := make([]rec.M, len(s))
		for k, x := range s {
			if x.Op == "start" {
				if hs[k] = start(x.Ttype, peers[pp[x.Peer-1]], string(raw(x.Fname))); hs[k] != nil {
					ks[k] = xfKey(hs[k])
				}
			} else if hs[x.I] != nil {
				remove(handle{hs[x.I], ks[x.I]})
			}
		}
	})
	// every name with every type
	for _, nm := range nameList {
		for _, y := range append(types, "getrm", "rm", "", "GET") {
			begin(1)
			start(y, peers[0], nm)
			begin(1)
			open(y, nm)
		}
	}
	for _, nm := range []string{"/", ".", "..", "./", "../", "//", "x/..", "../sar", "../sar/", "x/../../sar", "x", "x/", "x//", "../x", "../../x", "/x"} {
		for _, y := range types {
			begin(2)
			start(y, peers[0], nm)
			start(y, peers[1], nm)
			begin(2)
			open(y, nm)
			open(y, nm)
		}
	}
	for _, nm := range []string{"pipe", "./pipe", "d/q", "d/../pipe", "pipe/", "pipe/x", "q", "d/q/"} {
		for _, y := range []string{"get", "take", "getdir"} {
			begin(3)
			start(y, peers[0], nm)
			open(y, nm)
			begin(3)
			open(y, nm)
			start(y, peers[0], nm)
		}
	}
	rname := func() string {
		if r.Rand.Intn(6) == 0 {
			return nameList[r.Rand.Intn(len(nameList))]
		}
		return []string{"a", "b.txt", "x", "y", "x1", "x/", "d", "d/x", "zero", "e", "d/b", "./a", "e/q", "../o"}[r.Rand.Intn(14)]
	}
	far := []*net.UDPAddr{udp("10.1.2.3", 7542), udp("2001:db8::1", 7542), {IP: net.ParseIP("fe80::77"), Port: 7542}, {IP: net.IPv4(127, 0, 0, 1), Port: 0}}
	rpeer := func() *net.UDPAddr {
		if r.Rand.Intn(10) == 0 {
			p := far[r.Rand.Intn(3)]
			return p
		}
		return peers[r.Rand.Intn(1+r.Rand.Intn(len(peers)))]
	}
	// seeded histories
	for i := 0; i < 120*r.Scale; i++ {
		var resp []xop
		seen := map[string]bool{}
		for k := r.Rand.Intn(5); k > 0; k-- {
			x := xop{peer: peers[r.Rand.Intn(len(peers))], sess: uint32(r.Rand.Intn(4)), ttype: types[r.Rand.Intn(5)], fname: rname()}
			if key := fmt.Sprint(x.peer, x.sess); !seen[key] {
				seen[key] = true
				resp = append(resp, x)
			}
		}
		begin(1, resp...)
		for k := 0; k < 6+r.Rand.Intn(24); k++ {
			switch c := r.Rand.Intn(12); {
			case c < 6:
				start(types[r.Rand.Intn(len(types))], rpeer(), rname())
			case c < 8 && len(handles) > 0:
				remove(handles[r.Rand.Intn(len(handles))])
			default:
				// look for what is there, or something close to it
				dir, sess, peer := r.Rand.Intn(2) == 0, uint32(r.Rand.Intn(5)), peers[r.Rand.Intn(len(peers))].String()
				if len(sarwin.Transfers) > 0 && r.Rand.Intn(6) > 0 {
					t := sarwin.Transfers[r.Rand.Intn(len(sarwin.Transfers))]
					dir, sess, peer = t.Direction, t.Session, t.Peer.String()
					switch r.Rand.Intn(8) {
					case 0:
						dir = !dir
					case 1:
						sess += uint32(r.Rand.Intn(3)) - 1
					case 2:
						peer = peers[r.Rand.Intn(len(peers))].String()
					case 3:
						peer = strings.TrimSuffix(peer, "42") // one that begins alike
					case 4:
						sess ^= 1 << uint(r.Rand.Intn(32))
					}
				}
				if r.Rand.Intn(2) == 0 {
					lookup(dir, sess, peer)
				} else {
					match(sess, peer)
				}
			}
		}
	}
	// many sessions
	begin(2)
	for k := 0; k < 400; k++ {
		if t := start("delete", peers[k%2], fmt.Sprint("f", k%7)); t != nil && k%3 != 0 {
			remove(handle{t, xfKey(t)})
		}
	}
	begin(2)
	for m := (rec.M{"e": "many", "res": "ok", "sessions": []string{}}); m != nil; m = nil {
		l := []string{}
		n := 4000
		if r.Scale > 1 {
			n = 150000
		}
		r.Call(m, func() {
			for k := 0; k < n; k++ {
				t, err := sarwin.NewInitiator(gui, "delete", peers[k%2], "f", sarflags.Cliflag)
				if err != nil {
					continue
				}
				l = append(l, fmt.Sprint(t.Session))
				t.Remove()
				t.Conn.Close()
				if k%200 == 0 {
					tidyGui()
				}
			}
			m["sessions"] = l
			look(m)
		})
	}
	word := func() string {
		for {
			if w := strings.Fields(rname()); len(w) == 1 {
				return w[0]
			}
		}
	}
	// by command lines; those that send never return, so there are not many
	addrs := []string{"127.0.0.1", "127.0.0.2", "127.0.0.12", "::1"}
	for i := 0; i < 25; i++ {
		begin(1 + i%2)
		for k := 0; k < 14; k++ {
			switch c := r.Rand.Intn(10); {
			case c < 4:
				cmdStart([]string{"get", "take", "getdir"}[r.Rand.Intn(3)], addrs[r.Rand.Intn(1+r.Rand.Intn(4))], word())
			case c < 6:
				cmdStart([]string{"put", "give", "putblind", "delete"}[r.Rand.Intn(4)], addrs[r.Rand.Intn(1+r.Rand.Intn(4))], word())
			case c == 6:
				cmdStart(types[r.Rand.Intn(7)], []string{"127.0.0", "host", "300.1.1.1", "1:2", "127.0.0.1:7542", "10.1.2.3"}[r.Rand.Intn(6)], "x")
			default:
				if len(sarwin.Transfers) == 0 {
					continue
				}
				t := sarwin.Transfers[r.Rand.Intn(len(sarwin.Transfers))]
				y, a, s := t.Ttype, t.Peer.String(), t.Session
				switch r.Rand.Intn(8) {
				case 0:
					s++
				case 1:
					a = "127.0.0.9:7542"
				case 2:
					rmtran(y, a, []string{"x", "-1", "4294967296", fmt.Sprint(s, "x"), ""}[r.Rand.Intn(5)], s, false)
					continue
				case 3:
					rmtran(y, t.Peer.IP.String(), fmt.Sprint(s), s, false)
					continue
				}
				rmtran(y, a, fmt.Sprint(s), s, true)
			}
		}
	}
	// concurrently
	runtime.GOMAXPROCS(8)
	for i := 0; i < 600*r.Scale; i++ {
		begin(0, xop{peer: peers[0], sess: 3, ttype: "get", fname: "q"}, xop{peer: peers[1], sess: 3, ttype: "put", fname: "a"})
		np := 1 + r.Rand.Intn(2)
		names := []string{"a", "x", "y", "d/x"}[:1+r.Rand.Intn(4)]
		for k := r.Rand.Intn(4); k > 0; k-- {
			start(types[r.Rand.Intn(len(types))], peers[r.Rand.Intn(np)], names[r.Rand.Intn(len(names))])
		}
		lookup(sarwin.Responder, 3, peers[r.Rand.Intn(2)].String())
		var ops []*xop
		var gs [8][]*xop
		for g := 0; g < 2+r.Rand.Intn(4); g++ {
			for k := 0; k < 1+r.Rand.Intn(2) && len(ops) < 6; k++ {
				o := &xop{G: g, op: "start", ttype: types[r.Rand.Intn(len(types))], peer: peers[r.Rand.Intn(np)], fname: names[r.Rand.Intn(len(names))]}
				switch c := r.Rand.Intn(6); {
				case c < 2 && len(handles) > 0:
					o.op, o.h = "remove", handles[r.Rand.Intn(len(handles))]
				case c == 2:
					o.op = []string{"lookup", "match"}[r.Rand.Intn(2)]
					o.sess, o.dir = 3, r.Rand.Intn(2) == 0
					if len(handles) > 0 {
						h := handles[r.Rand.Intn(len(handles))]
						o.sess, o.dir, o.peer = h.t.Session, h.t.Direction, h.t.Peer
					}
				}
				ops = append(ops, o)
				gs[g] = append(gs[g], o)
			}
		}
		m := xpar(r, ops, gs, &opened)
		look(m)
		r.Ev(m)
	}
	// the same few at the same moment, over and over: what was seen before is not
	// recorded again
	mix := [][]string{{"put", "a", "a"}, {"put", "a", "sar/a"}, {"delete", "x", "x"}, {"get", "x", "x"}, {"delete", "x", "y"}, {"remove", "", ""}, {"mixed", "", ""}}
	for i := 0; i < len(mix); i++ {
		seen := map[string]bool{}
		v := mix[i]
		for k := 0; k < 700*r.Scale; k++ {
			closeAll()
			sarwin.Transfers = nil
			if v[0] == "get" {
				os.Remove(base + "/sar/x")
			}
			if k%100 == 0 {
				tidyGui()
			}
			if k == 0 {
				begin(0)
			}
			pre := []rec.M{}
			ng := []int{2, 7, 4}[k%3]
			var ops []*xop
			var gs [8][]*xop
			if v[0] == "remove" || v[0] == "mixed" {
				for g := 0; g < ng; g++ {
					t, err := sarwin.NewInitiator(gui, "delete", peers[g%2], fmt.Sprint("f", g), sarflags.Cliflag)
					if err != nil {
						rec.Fatal(err)
					}
					opened = append(opened, t)
					pre = append(pre, xf(t))
					handles = append(handles, handle{t, xfKey(t)})
				}
			}
			for g := 0; g < ng; g++ {
				o := &xop{G: g, op: "start", ttype: v[0], peer: peers[0], fname: v[1+g%2]}
				switch {
				case v[0] == "remove":
					o.op, o.h = "remove", handles[g-g%(1+k%2)]
				case v[0] == "mixed" && g%2 == 0:
					o.op, o.h = "remove", handles[g]
				case v[0] == "mixed" && k%2 == 0:
					o.op, o.h = "lookup", handles[g]
					o.dir, o.sess, o.peer = true, handles[g].t.Session, handles[g].t.Peer
				case v[0] == "mixed":
					o.ttype, o.fname = "delete", fmt.Sprint("n", g)
				}
				ops = append(ops, o)
				gs[g] = []*xop{o}
			}
			m := xpar(r, ops, gs, &opened)
			look(m)
			// sessions grow all the time: what is seen is told apart without them
			if key := shape(m); !seen[key] {
				seen[key] = true
				t := snapTree()
				if v[0] == "get" {
					for j, e := range t {
						if fmt.Sprint(e["p"]) == "[[115 97 114] [120]]" {
							t = append(t[:j], t[j+1:]...)
							break
						}
					}
				}
				r.Reset(rec.M{"tree": t, "list": pre})
				r.Ev(m)
			}
		}
		dirty = true
	}
	closeAll()
	cleanTree()
}

// shape is what happened, with session numbers replaced by which they are
func shape(m rec.M) string {
	names := map[string]string{}
	var walk func(x interface{}) interface{}
	walk = func(x interface{}) interface{} {
		switch v := x.(type) {
		case map[string]interface{}:
			for k := range v {
				if k == "session" {
					s := fmt.Sprint(v[k])
					if names[s] == "" {
						names[s] = fmt.Sprint(len(names) + 1)
					}
					v[k] = names[s]
				} else if k == "m" {
					v[k] = ""
				} else {
					v[k] = walk(v[k])
				}
			}
		case []interface{}:
			for i := range v {
				v[i] = walk(v[i])
			}
		}
		return x
	}
	b, _ := json.Marshal(m)
	var y interface{}
	json.Unmarshal(b, &y)
	o := y.(map[string]interface{})
	ops := walk(o["ops"])
	rest := walk(y)
	b, _ = json.Marshal([]interface{}{ops, rest})
	return string(b)
}

func xpar(r *rec.Rec, ops []*xop, gs [8][]*xop, opened *[]*sarwin.Transfer) rec.M {
	m := rec.M{"e": "par", "res": "ok", "ops": []rec.M{}}
	r.CallQ(m, func() {
		var ready, stop sync.WaitGroup
		var goes int32
		for g := range gs {
			if len(gs[g]) == 0 {
				continue
			}
			ready.Add(1)
			stop.Add(1)
			go func(mine []*xop) {
				defer stop.Done()
				defer func() {
					if recover() != nil {
						mine[0].bad = true
					}
				}()
				ready.Done()
				for atomic.LoadInt32(&goes) == 0 {
				}
				for _, o := range mine {
					o.run()
				}
			}(gs[g])
		}
		ready.Wait()
		atomic.StoreInt32(&goes, 1)
		stop.Wait()
		l := []rec.M{}
		for _, o := range ops {
			if o.bad {
				m["res"] = "panic"
			}
			if o.got != nil {
				*opened = append(*opened, o.got)
			}
			l = append(l, o.m)
		}
		m["ops"] = l
	})
	return m
}
