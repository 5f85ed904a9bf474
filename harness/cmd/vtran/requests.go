package main

import (
	"encoding/binary"
	"encoding/json"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/trans"
)

func init() { drivers["requests"] = driveRequests }

type byteval int

func raw(b []byteval) []byte {
	l := make([]byte, len(b))
	for i := range b {
		l[i] = byte(b[i])
	}
	return l
}

// rq is one request from one peer
type rq struct {
	G       int
	Hdr     uint32
	Session uint32
	Fname   string
	Peer    net.UDPAddr
	answers []rec.M
	bad     bool
}

func (q *rq) m() rec.M {
	if q.answers == nil {
		q.answers = []rec.M{}
	}
	return rec.M{"g": q.G, "hdr": rec.B4(q.Hdr), "session": rec.B4(q.Session), "fname": rec.Bytes([]byte(q.Fname)),
		"comps": comps(q.Fname), "peer": q.Peer.String(), "answers": q.answers}
}

// handle gives the request to the code under test
func (q *rq) handle() {
	r := &request.Request{Header: q.Hdr, Session: q.Session, Fname: q.Fname}
	ch := make(chan interface{}, 64)
	peer := q.Peer
	trans.AddRxTran(gui, r, &peer, ch)
	close(ch)
	q.answers = []rec.M{}
	for x := range ch {
		a := rec.M{"to": "", "b": []int{}}
		if p, ok := x.(status.Packet); ok {
			if b, err := p.Info.Encode(); err == nil {
				a["b"] = rec.Bytes(b)
			}
			a["to"] = p.Addr.String()
		}
		q.answers = append(q.answers, a)
	}
}

func transList() []rec.M {
	l := []rec.M{}
	for _, t := range trans.Transfers {
		l = append(l, rec.M{"peer": t.Peer.String(), "session": rec.B4(t.Session), "ttype": t.Ttype, "fname": rec.Bytes([]byte(t.Filename))})
	}
	return l
}

var tree0 = []node{
	{"o", "\x01"}, {"sarx/a", "\x02"}, {"sar/a", "\x03"}, {"sar/d/b", "\x04"}, {"sar/e/", ""}, {"sar/r/a", ""}, {"sar/r/!", ""}, {"sar/l@", "../o"},
}
var tree1 = []node{
	{"o", "out"}, {"outside.txt", "secret"}, {"etc/passwd", "x"}, {"sarx/a", "y"}, {"sar/a", "file a"}, {"sar/b.txt", "b"},
	{"sar/d/b", "\x04"}, {"sar/d/c/d", "deep"}, {"sar/e/", ""}, {"sar/e2/", ""}, {"sar/d/e/", ""}, {"sar/r/a", ""}, {"sar/r/e/", ""}, {"sar/r/!", ""},
	{"sar/ sp ace", "z"}, {"sar/\xff\xfe", "bytes"}, {"sar/...", "dots"}, {"sar/..a", "q"}, {"sar/sar/a", "again"}, {"sar/-rf", "w"},
	{"sar/" + strings.Repeat("n", 255), "long"}, {"sar/*", "star"}, {"sar/a%2f..", "p"}, {"sar/zero", ""}, {"sar/etc/passwd", "inner"},
	{"sar/~/a", "home"}, {"sar/$HOME", "v"}, {"sar/c:\\a", "win"},
	{"sar/lo@", "../o"}, {"sar/la@", "a"}, {"sar/le@", "e2"}, {"sar/lx@", "../sarx"}, {"sar/dead@", "nosuch"}, {"sar/pipe|", ""},
}

// an empty shared directory
var tree2 = []node{{"o", "out"}, {"sarx/a", "y"}}
var nameList = []string{
	"", "a", "b.txt", "d", "d/b", "d/c/d", "d/c", "e", "e2", "d/e", "r", "r/a", "r/e", " sp ace", "\xff\xfe", "...", "..a", "sar/a", "sar", "-rf",
	strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 5000), "*", "a%2f..", "zero", "~/a", "~", "$HOME", "c:\\a",
	"/", "//", ".", "./", "..", "../", "../..", "../../../../../../../..", "../o", "../outside.txt", "../sarx/a", "../sar/a", "../sar", "../sarx",
	"/etc/passwd", "etc/passwd", "../etc/passwd", "../../etc/passwd", "/../o", "//../o", "d/../a", "d/../../o", "d/../../sar/a", "./a", "a/", "a//", "/a", "//a",
	"a/.", "a/b", "a/../e", "e/..", "e/.", "e/", "x", "x/y", "x/../a", "d/c/../../..", "d/c/../../../o", "d/c/../../../sarx/a", "e/../../o", ".../a", "..a/..", "a\n", "a ", " a", "A", "d\\b",
	"..\\o", "a\x01", "\r", "%s%n", "nosuch", "d/nosuch", "r/nosuch", strings.Repeat("../", 40) + "o", strings.Repeat("./", 300) + "a", strings.Repeat("d/../", 100) + "a",
	strings.Repeat("/", 200) + "a", "e/../e", "sar/../a", "sar/../../sar/a", "sar/../../o",
	"lo", "la", "le", "lx", "dead", "pipe", "/lo", "d/../lo", "e/../../sar/lx",
}

func driveRequests(r *rec.Rec) {
	setupTree()
	startGui()
	cur, dirty, turn := -1, true, 0
	begin := func(k int) {
		if dirty || cur != k {
			makeTree([][]node{tree0, tree1, tree2}[k])
			cur, dirty = k, false
		}
		trans.Transfers = nil
		if turn++; turn%50 == 0 {
			tidyGui()
		}
		sardirAs(turn)
		r.Reset(rec.M{"tree": snapTree()})
	}
	ask := func(q rq) {
		m := q.m()
		m["e"], m["res"] = "req", "ok"
		r.Call(m, func() {
			q.handle()
			m["answers"] = q.answers
			m["trans"] = transList()
			m["tree"] = snapTree()
		})
		if binary.BigEndian.Uint32([]byte{0, 0, 0, byte(q.Hdr)}) == 5 {
			dirty = true
		}
	}
	ip := func(s string, port int, zone string) net.UDPAddr {
		return net.UDPAddr{IP: net.ParseIP(s), Port: port, Zone: zone}
	}
	pairs := [][2]net.UDPAddr{
		{ip("10.0.0.1", 7542, ""), ip("10.0.0.2", 7542, "")},
		{ip("10.0.0.1", 7542, ""), ip("10.0.0.1", 7543, "")},
		{ip("fe80::1", 7542, "lo"), ip("fe80::1", 7542, "eth0")},
		{{IP: net.IPv4(10, 0, 0, 1).To4(), Port: 7542}, ip("110.0.0.1", 7542, "")},
		{ip("::1", 4000, ""), ip("127.0.0.1", 4000, "")},
	}
	sess := [][2]uint32{{1, 2}, {0, 0xffffffff}, {1, 257}, {5, 65541}, {0x80000000, 0}}
	n := 0
	scenarios(func(line string) {
		var s []struct {
			Peer int
			Q    struct {
				Hdr, Fname []byteval
				Session    int
			}
		}
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		n++
		begin(0)
		pp, ss := pairs[n%len(pairs)], sess[(n/3)%len(sess)]
		for _, x := range s {
			ask(rq{Hdr: binary.BigEndian.Uint32(raw(x.Q.Hdr)), Session: ss[x.Q.Session-1], Fname: string(raw(x.Q.Fname)), Peer: pp[x.Peer-1]})
		}
	})
	const good = 0x21000000
	const willing = 0x000f0000
	hdr := func(y int) uint32 { return good | willing | uint32(y) }
	// every name with every type
	for _, nm := range nameList {
		for y := 1; y <= 6; y++ {
			begin(1)
			ask(rq{Hdr: hdr(y), Session: uint32(y), Fname: nm, Peer: pairs[0][0]})
		}
	}
	for _, nm := range []string{"/", ".", "..", "./", "../", "//", "x/..", "../sar", "../sar/", "x/../../sar", "a", "../sarx", "../o", "/..", "/.", "../.", "../.."} {
		for y := 1; y <= 6; y++ {
			begin(2)
			ask(rq{Hdr: hdr(y), Session: uint32(y), Fname: nm, Peer: pairs[0][0]})
		}
	}
	var peers []net.UDPAddr
	for _, p := range pairs {
		peers = append(peers, p[0], p[1])
	}
	rhdr := func() uint32 {
		h := hdr([]int{1, 2, 3, 4, 5, 6}[r.Rand.Intn(6)])
		switch r.Rand.Intn(6) {
		case 0:
			h = h&^willing | uint32(r.Rand.Intn(16))<<16
		case 1:
			h ^= 1 << uint(r.Rand.Intn(32))
		case 2:
			h = h&^0xff | uint32(r.Rand.Intn(256))
		}
		return h
	}
	rname := func() string {
		switch r.Rand.Intn(12) {
		case 0:
			b := make([]byte, r.Rand.Intn(12))
			for i := range b {
				b[i] = byte(1 + r.Rand.Intn(255))
			}
			return string(b)
		case 1: // put together from parts
			parts := []string{"..", ".", "", "a", "d", "e", "b", "sar", "o", "sarx", "c", "...", "r"}
			var l []string
			for i := 0; i < 1+r.Rand.Intn(7); i++ {
				l = append(l, parts[r.Rand.Intn(len(parts))])
			}
			return strings.Join(l, "/")
		case 2, 3, 4, 5:
			return nameList[r.Rand.Intn(14)]
		}
		return nameList[r.Rand.Intn(len(nameList))]
	}
	// histories
	for i := 0; i < 150*r.Scale; i++ {
		begin(1)
		np, ns := 1+r.Rand.Intn(3), 1+r.Rand.Intn(3)
		p0 := r.Rand.Intn(len(peers))
		var last *rq
		for k := 0; k < 4+r.Rand.Intn(16); k++ {
			q := rq{Hdr: rhdr(), Session: sess[i%len(sess)][r.Rand.Intn(2)] + uint32(r.Rand.Intn(ns)), Fname: rname(), Peer: peers[(p0+r.Rand.Intn(np))%len(peers)]}
			if last != nil {
				switch r.Rand.Intn(6) {
				case 0:
					q = *last // again
				case 1:
					h := q.Hdr
					q = *last
					q.Hdr = h // another type
				case 2:
					f := q.Fname
					q = *last
					q.Fname = f // another file
				case 3:
					p := q.Peer
					q = *last
					q.Peer = p // from somebody else
				}
			}
			ask(q)
			last = &q
		}
	}
	// concurrently
	runtime.GOMAXPROCS(8)
	for i := 0; i < 1500*r.Scale; i++ {
		begin(i % 2)
		ns := 1 + r.Rand.Intn(2)
		np := 1 + r.Rand.Intn(2)
		dels := i%4 == 0
		names := []string{"a", "x", "d/b", "y"}
		rnd := func() rq {
			y := 1 + r.Rand.Intn(4)
			if dels && r.Rand.Intn(2) == 0 {
				y = 5
			}
			return rq{Hdr: hdr(y), Session: uint32(1 + r.Rand.Intn(ns)), Fname: names[r.Rand.Intn(1+i%4)], Peer: peers[(i+r.Rand.Intn(np))%len(peers)]}
		}
		for k := r.Rand.Intn(2); k > 0; k-- {
			ask(rnd())
		}
		var ops []*rq
		var gs [8][]*rq
		for g := 0; g < 2+r.Rand.Intn(4); g++ {
			for k := 0; k < 1+r.Rand.Intn(2) && len(ops) < 6; k++ {
				q := rnd()
				q.G = g
				ops = append(ops, &q)
				gs[g] = append(gs[g], &q)
			}
		}
		r.Ev(par(r, ops, gs))
		dirty = dirty || dels
	}
	// the same few at the same moment, over and over: what was seen before is not
	// recorded again
	mix := [][]string{{"1a", "1a"}, {"1a", "2x"}, {"2x", "2y"}, {"3a", "4x", "1d/b"}, {"2x", "4x"}, {"1a", "3a", "6a", "6d"}}
	for i := 0; i < 12; i++ {
		seen := map[string]bool{}
		v := mix[i%len(mix)]
		for k := 0; k < 2500*r.Scale; k++ {
			trans.Transfers = nil
			if k%100 == 0 {
				tidyGui()
			}
			var ops []*rq
			var gs [8][]*rq
			for g := 0; g < []int{2, 7, 4}[k%3]; g++ {
				x := v[(g+k)%len(v)]
				q := &rq{G: g, Hdr: hdr(int(x[0] - '0')), Session: 7, Fname: x[1:], Peer: peers[0]}
				if i >= len(mix) && g%2 == 1 {
					q.Peer = peers[1]
				}
				ops = append(ops, q)
				gs[g] = []*rq{q}
			}
			if k == 0 {
				begin(0)
			}
			m := par(r, ops, gs)
			if b, _ := json.Marshal(m); !seen[string(b)] {
				seen[string(b)] = true
				begin(0)
				r.Ev(m)
			}
		}
	}
	cleanTree()
}

// par has the requests handled concurrently, those of one goroutine in turn
func par(r *rec.Rec, ops []*rq, gs [8][]*rq) rec.M {
	m := rec.M{"e": "par", "res": "ok", "ops": []rec.M{}}
	r.CallQ(m, func() {
		var ready, stop sync.WaitGroup
		var goes int32
		for g := range gs {
			if len(gs[g]) == 0 {
				continue
			}
			ready.Add(1)
			stop.Add(1)
			go func(mine []*rq) {
				defer stop.Done()
				defer func() {
					if recover() != nil {
						mine[0].bad = true
					}
				}()
				ready.Done()
				for atomic.LoadInt32(&goes) == 0 {
				}
				for _, q := range mine {
					q.handle()
				}
			}(gs[g])
		}
		ready.Wait()
		atomic.StoreInt32(&goes, 1)
		stop.Wait()
		l := []rec.M{}
		for _, q := range ops {
			if q.bad {
				m["res"] = "panic"
			}
			l = append(l, q.m())
		}
		m["ops"] = l
		m["trans"] = transList()
		m["tree"] = snapTree()
	})
	return m
}
