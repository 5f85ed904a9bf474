package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
)

var nodeExe = flag.String("node", "", "the real node")
var ctl = flag.Bool("ctl", false, "the node shows its tables")

func init() {
	drivers["node"] = driveNode
	drivers["nodereq"] = driveNodeReq
}

// A peer is a socket of ours
type sock struct {
	c   *net.UDPConn
	fam int
	mu  sync.Mutex
	got [][]byte
}

func newSock(fam int, ip string) *sock {
	c, err := net.ListenUDP([]string{"udp4", "udp6"}[fam], &net.UDPAddr{IP: net.ParseIP(ip)})
	if err != nil {
		rec.Fatal(err)
	}
	s := &sock{c: c, fam: fam}
	go func() {
		buf := make([]byte, 70000)
		for {
			n, _, err := c.ReadFromUDP(buf)
			if err != nil {
				if strings.Contains(err.Error(), "closed") {
					return
				}
				continue
			}
			s.mu.Lock()
			s.got = append(s.got, append([]byte{}, buf[:n]...))
			s.mu.Unlock()
		}
	}()
	return s
}

func (s *sock) n() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.got)
}

func (s *sock) take() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.got
	s.got = nil
	return l
}

// child is a running node
type child struct {
	cmd   *exec.Cmd
	port  int
	mu    sync.Mutex
	gone  bool
	log   bytes.Buffer
	to    [2]*net.UDPAddr
	probe [2]*sock
	sess  uint32
	ctl   string
}

func (c *child) dead() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.gone
}

func freePort() int {
	for {
		a, err := net.ListenUDP("udp", &net.UDPAddr{})
		if err != nil {
			rec.Fatal(err)
		}
		p := a.LocalAddr().(*net.UDPAddr).Port
		a.Close()
		if p != sarPort {
			return p
		}
	}
}

// startNode starts the node in the scratch tree
func startNode() *child {
	for try := 0; try < 4; try++ {
		c := &child{port: freePort()}
		b, err := os.ReadFile(*conf)
		if err != nil {
			rec.Fatal(err)
		}
		var m map[string]interface{}
		if err := json.Unmarshal(b, &m); err != nil {
			rec.Fatal(err)
		}
		m["udpport"] = c.port
		if b, err = json.Marshal(m); err != nil {
			rec.Fatal(err)
		}
		cf := filepath.Join(*dir, "node.json")
		if err := os.WriteFile(cf, b, 0644); err != nil {
			rec.Fatal(err)
		}
		c.cmd = exec.Command(*nodeExe, cf, "lo")
		c.cmd.Env = append(os.Environ(), "SARDIR="+base+"/sar")
		if *ctl {
			nctl++
			c.ctl = filepath.Join(*dir, fmt.Sprint("ctl", nctl))
			c.cmd.Env = append(c.cmd.Env, "VERIF_CTL="+c.ctl)
		}
		c.cmd.Dir = base + "/sar"
		c.cmd.Stdout, c.cmd.Stderr = &c.log, &c.log
		c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := c.cmd.Start(); err != nil {
			rec.Fatal(err)
		}
		go func() {
			c.cmd.Wait()
			c.mu.Lock()
			c.gone = true
			c.mu.Unlock()
		}()
		c.to = [2]*net.UDPAddr{{IP: net.ParseIP("127.0.0.1"), Port: c.port}, {IP: net.ParseIP("::1"), Port: c.port}}
		c.probe = [2]*sock{newSock(0, "127.0.0.1"), newSock(1, "::1")}
		// wait until it listens on both
		for i := 0; i < 600 && !c.dead(); i++ {
			if bound(c.port) {
				return c
			}
			time.Sleep(50 * time.Millisecond)
		}
		c.stop()
		fmt.Fprintln(os.Stderr, "the node did not start:", c.log.String())
	}
	rec.Fatal("the node does not start")
	return nil
}

// What a node shows of its tables
type shown struct {
	Peers []struct {
		Addr, Desc, Rx, Tx    string
		Free                  uint64
		Eid, Created, Updated []byte
	}
	Trans []struct {
		Peer, Ttype string
		Session     uint32
		Fname       []byte
	}
}

var nctl int

// show asks the node for its tables; nil if it does not show them
func (c *child) show() *shown {
	if c.ctl == "" || c.dead() {
		return nil
	}
	for try := 0; try < 100; try++ {
		k, err := net.Dial("unix", c.ctl)
		if err != nil {
			if c.dead() {
				return nil
			}
			time.Sleep(20 * time.Millisecond)
			continue
		}
		defer k.Close()
		k.SetDeadline(time.Now().Add(30 * time.Second))
		s := new(shown)
		if _, err = k.Write([]byte("\n")); err == nil {
			err = json.NewDecoder(k).Decode(s)
		}
		if err != nil {
			if c.dead() {
				return nil
			}
			rec.Fatal(err)
		}
		return s
	}
	rec.Fatal("the node does not show its tables")
	return nil
}

func bound(port int) bool {
	for _, f := range []string{"/proc/net/udp", "/proc/net/udp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			rec.Fatal(err)
		}
		if !strings.Contains(string(b), fmt.Sprintf(":%04X ", port)) {
			return false
		}
	}
	return true
}

func (c *child) stop() {
	c.cmd.Process.Kill()
	for i := 0; i < 500 && !c.dead(); i++ {
		time.Sleep(10 * time.Millisecond)
	}
	for _, s := range c.probe {
		s.c.Close()
	}
}

func frameReq(y int, sess uint32, name string) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b, 0x210f0000|uint32(y))
	binary.BigEndian.PutUint32(b[4:], sess)
	return append(append(b, name...), 0)
}

// alive sends a well-formed request until there is an answer to it
func (c *child) alive(fam int) string {
	c.probe[fam].take()
	start := time.Now()
	first := c.sess + 1
	for time.Since(start) < 60*time.Second {
		c.sess++
		if _, err := c.probe[fam].c.WriteToUDP(frameReq(1, c.sess, "nosuch"), c.to[fam]); err != nil && !strings.Contains(err.Error(), "refused") {
			rec.Fatal(err)
		}
		for i, d := 0, time.Now(); time.Since(d) < 4*time.Second; i++ {
			for _, b := range c.probe[fam].take() {
				if len(b) >= 8 {
					if s := binary.BigEndian.Uint32(b[4:]); s >= first && s <= c.sess {
						return "ok"
					}
				}
			}
			if c.dead() {
				return "died"
			}
			if i < 200 {
				time.Sleep(200 * time.Microsecond)
			} else {
				time.Sleep(10 * time.Millisecond)
			}
		}
	}
	if c.dead() {
		return "died"
	}
	return "silent"
}

// hint says whether an answer is worth waiting for; it decides nothing
func hint(b []byte, max int) bool {
	if len(b) < 8 || len(b) > max {
		return false
	}
	if b[0]>>5 != 1 {
		return true
	}
	defer func() { recover() }()
	switch b[0] & 31 {
	case 1:
		return new(request.Request).Decode(b) == nil
	case 2:
		return new(metadata.MetaData).Decode(b) != nil
	case 3:
		return new(data.Data).Decode(b) != nil
	case 4:
		return new(status.Status).Decode(b) != nil
	}
	return false
}

type nodeRun struct {
	r     *rec.Rec
	c     *child
	socks [2][]*sock
	max   int
	used  int
	over  bool // the node is dead or silent
	bad   int  // how often it was
	slow  int  // how often there was no answer for long
}

func (n *nodeRun) fresh() {
	if n.c != nil {
		n.c.stop()
	}
	makeTree(tree1)
	n.c = startNode()
	n.used, n.over = 0, false
	n.r.Reset(rec.M{"max": n.max})
	n.probes()
}

func (n *nodeRun) probes() {
	n.probesQ()
	n.probesEv()
}

type gram struct {
	fam int
	b   []byte
}

// window sends the datagrams, each from a socket of its own, and collects what
// comes back
func (n *nodeRun) window(w []gram) {
	if len(w) == 0 {
		return
	}
	if n.bad > 2 { // seen enough
		return
	}
	if n.over || n.used > 400 {
		n.fresh()
	}
	n.used += len(w)
	k := [2]int{}
	use := make([]*sock, len(w))
	for i, g := range w {
		use[i] = n.socks[g.fam][k[g.fam]]
		k[g.fam]++
		use[i].take()
	}
	for i, g := range w {
		for try := 0; ; try++ {
			_, err := use[i].c.WriteToUDP(g.b, n.c.to[g.fam])
			if err == nil {
				break
			}
			if try > 3 {
				rec.Fatal(err, len(g.b))
			}
		}
		n.used += len(g.b) / 1000
	}
	n.probesQ()
	start := time.Now()
	wait := time.Now().Add(12 * time.Millisecond)
	for {
		all := true
		for i, g := range w {
			if use[i].n() == 0 && hint(g.b, n.max) {
				all = false
			}
		}
		if all && time.Now().After(wait) || n.over {
			break
		}
		if time.Since(start) > 20*time.Second || n.slow > 2 && time.Since(start) > 300*time.Millisecond {
			n.slow++
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	for i, g := range w {
		l := [][]int{}
		for _, a := range use[i].take() {
			l = append(l, rec.Bytes(a))
		}
		n.r.Ev(rec.M{"e": "rx", "fam": g.fam, "b": rec.Bytes(g.b), "answers": l})
	}
	n.probesEv()
}

var held []rec.M

func (n *nodeRun) probesQ() {
	held = nil
	for fam := 0; fam < 2; fam++ {
		res := n.c.alive(fam)
		m := rec.M{"e": "probe", "fam": fam, "res": res}
		if res != "ok" {
			l := n.c.log.String()
			if len(l) > 1500 {
				l = l[len(l)-1500:]
			}
			m["msg"] = l
			n.over = true
			n.bad++
			if res == "silent" {
				n.bad++
			}
		}
		held = append(held, m)
	}
}

func (n *nodeRun) probesEv() {
	for _, m := range held {
		n.r.Ev(m)
	}
}

var oddText = []string{
	"\x1b[31mred\x1b[0m", "\x1b[", "\x1b[999;999H", "\x1b[;m", "\x1b[38;5;999999999999999999999m", "\x1b]0;x\x07", "\x1b[-1m", "\x1b[1;2;3;4;5;6;7;8m",
	"%s%s%n%d%!", "\x00\x00", "\xff\xfe\xfd", "\r\n\r\n", "\n", "a\tb", strings.Repeat("\n", 300), strings.Repeat("%", 100), "\u202e\u0301", "\x1b[3", "127.0.0.1-1",
	"\x1b[38;5m", "\x1b[38m", "\x1b[48;5;m", "\x1b[38;2;1;2;3m", "\x1b[38;5;300m", "\x1b[m", "\x1b[ m", "\x1b[1;m", "\x1b[1a", "\x1b\x1b[[", "\u0000",
}

func driveNode(r *rec.Rec) {
	setupTree()
	ifi, err := net.InterfaceByName("lo")
	if err != nil {
		rec.Fatal(err)
	}
	n := &nodeRun{r: r, max: ifi.MTU - 60}
	for i := 0; i < 16; i++ {
		n.socks[0] = append(n.socks[0], newSock(0, fmt.Sprintf("127.0.0.%d", 1+i%5)))
		n.socks[1] = append(n.socks[1], newSock(1, "::1"))
	}
	n.fresh()
	rnd := r.Rand
	var w []gram
	add := func(fam int, b []byte) {
		w = append(w, gram{fam, b})
		if len(w) == 16 {
			n.window(w)
			w = nil
		}
	}
	var corpus [][]byte
	k := 0
	scenarios(func(line string) {
		var b []byteval
		if err := json.Unmarshal([]byte(line), &b); err != nil {
			rec.Fatal(err)
		}
		f := raw(b)
		corpus = append(corpus, f)
		k++
		add(k%2, f)
	})
	n.window(w)
	w = nil
	hd := func(h uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, h); return b }
	// text that a terminal would take amiss
	for i, t := range oddText {
		for y := 1; y <= 6; y++ {
			add((i+y)%2, frameReq(y, uint32(i), t))
		}
		add(i%2, append(hd(0x20000000), t...))                                                                           // beacon
		add(i%2, append(hd(0x22000000), append([]byte("\x00\x00\x00\x01\x00\x00"+strings.Repeat("\x01", 16)), t...)...)) // metadata
		add(i%2, append(hd(0x23000000), append([]byte("\x00\x00\x00\x01\x00\x09"), t...)...))                            // data
		add(i%2, append(hd(0x24000000), append([]byte("\x00\x00\x00\x01"), t...)...))                                    // status
	}
	// all sizes around the limits, and large ones
	for _, h := range []uint32{0x20000000, 0x21000001, 0x22000000, 0x23000000, 0x24000000, 0x24800000, 0x2f000000, 0x00000000, 0xe3000000} {
		for l := 0; l <= 40; l++ {
			b := make([]byte, l)
			copy(b, hd(h))
			for i := 4; i < l; i++ {
				b[i] = byte(rnd.Intn(256))
			}
			add(l%2, b)
		}
	}
	n.window(w)
	w = nil
	sizes := []int{1000, 1472, 1501, 2049, 4097, 9000, n.max - 1, n.max, n.max + 1, n.max + 2, n.max + 20, 65507, 65527}
	types := []uint32{0x00000001, 0x21000001, 0x24c00000, 0x22000000, 0x20000000, 0x23000000, 0x24400000, 0xe4000000}
	for i, sz := range sizes {
		for j, h := range types {
			if sz > 10000 && j > 2 && (i+j)%3 != 0 && r.Scale == 1 {
				continue
			}
			fam := (i + j) % 2
			if sz > 65507 {
				fam = 1
			}
			b := bytes.Repeat([]byte{'x'}, sz)
			copy(b, hd(h))
			n.window([]gram{{fam, b}})
		}
		// what counts is at the very end: the name of a request, and its authentication field
		for k, a := range []int{0, 1, 3} {
			b := bytes.Repeat([]byte{'x'}, sz)
			copy(b, hd(0x21000001+uint32(k)))
			b[len(b)-1-a] = 0
			fam := (i + k) % 2
			if sz > 65507 {
				fam = 1
			}
			n.window([]gram{{fam, b}})
		}
	}
	// everything else
	mutate := func(f []byte) []byte {
		b := append([]byte{}, f...)
		for q := 1 + rnd.Intn(3); q > 0; q-- {
			switch rnd.Intn(5) {
			case 0:
				if len(b) > 0 {
					b[rnd.Intn(len(b))] ^= 1 << uint(rnd.Intn(8))
				}
			case 1:
				if len(b) > 0 {
					b[rnd.Intn(len(b))] = byte(rnd.Intn(256))
				}
			case 2:
				if len(b) > 0 {
					b = b[:rnd.Intn(len(b)+1)]
				}
			case 3:
				x := make([]byte, rnd.Intn(40))
				rnd.Read(x)
				b = append(b, x...)
			case 4:
				b = append(b, oddText[rnd.Intn(len(oddText))]...)
			}
		}
		return b
	}
	random := func() []byte {
		switch rnd.Intn(8) {
		case 0:
			b := make([]byte, rnd.Intn(60))
			rnd.Read(b)
			return b
		case 1:
			b := make([]byte, 8+rnd.Intn(60))
			rnd.Read(b)
			b[0] = 0x20 | byte(rnd.Intn(6))
			return b
		}
		if len(corpus) == 0 {
			return frameReq(1+rnd.Intn(6), rnd.Uint32(), oddText[rnd.Intn(len(oddText))])
		}
		f := corpus[rnd.Intn(len(corpus))]
		if rnd.Intn(4) == 0 {
			return f
		}
		return mutate(f)
	}
	for i := 0; i < 3000*r.Scale; i++ {
		add(rnd.Intn(2), random())
	}
	n.window(w)
	w = nil
	// floods from many sides at once, some of whom do not stay for the answer
	for i := 0; i < 3*r.Scale && n.bad <= 2; i++ {
		if i%3 == 0 || n.over { // three floods on one node
			n.fresh()
		}
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			fam := g % 2
			var l [][]byte
			for q := 0; q < 500; q++ {
				switch {
				case i%3 == 0 && g < 4: // new transfers and refusals
					l = append(l, frameReq(1+rnd.Intn(6), rnd.Uint32(), nameList[rnd.Intn(len(nameList))]))
				case i%3 == 1: // all to be answered
					l = append(l, append(hd(uint32(rnd.Intn(2))<<29|uint32(2+rnd.Intn(3))<<24), 0, 0, 0, 1, 0))
				default:
					l = append(l, random())
				}
			}
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				c, err := net.ListenUDP([]string{"udp4", "udp6"}[fam], &net.UDPAddr{IP: net.ParseIP([]string{"127.0.0.1", "::1"}[fam])})
				if err != nil {
					rec.Fatal(err)
				}
				for q, b := range l {
					c.WriteToUDP(b, n.c.to[fam])
					if q%8 == 7 {
						time.Sleep(time.Millisecond)
					}
				}
				if g >= 6 {
					c.Close()
				} else {
					defer c.Close()
				}
			}(g)
		}
		wg.Wait()
		r.Ev(rec.M{"e": "flood", "n": 4000})
		n.probes()
	}
	n.c.stop()
	cleanTree()
}

// driveNodeReq has the real node answer requests
func driveNodeReq(r *rec.Rec) {
	setupTree()
	var c *child
	var socks [2][]*sock
	for i := 0; i < 3; i++ {
		socks[0] = append(socks[0], newSock(0, fmt.Sprintf("127.0.0.%d", 1+i)))
		socks[1] = append(socks[1], newSock(1, "::1"))
	}
	begin := func(k int) {
		if c != nil {
			c.stop()
		}
		makeTree([][]node{tree0, tree1, tree2}[k])
		c = startNode()
		r.Reset(rec.M{"tree": snapTree()})
	}
	silent := 0
	ask := func(fam, who int, hdr, sess uint32, name string) {
		s := socks[fam][who]
		s.take()
		b := make([]byte, 8)
		binary.BigEndian.PutUint32(b, hdr)
		binary.BigEndian.PutUint32(b[4:], sess)
		b = append(append(b, name...), 0)
		if _, err := s.c.WriteToUDP(b, c.to[fam]); err != nil {
			rec.Fatal(err)
		}
		start := time.Now()
		for time.Since(start) < 20*time.Second && s.n() == 0 && !c.dead() {
			time.Sleep(300 * time.Microsecond)
		}
		if s.n() == 0 || c.alive(fam) != "ok" {
			silent++
		}
		tr := []rec.M{}
		t := c.show()
		if t != nil {
			for _, t := range t.Trans {
				tr = append(tr, rec.M{"peer": t.Peer, "session": rec.B4(t.Session), "ttype": t.Ttype, "fname": rec.Bytes(t.Fname)})
			}
		}
		l := []rec.M{}
		for _, a := range s.take() {
			l = append(l, rec.M{"to": s.c.LocalAddr().String(), "b": rec.Bytes(a)})
		}
		r.Ev(rec.M{"e": "nreq", "res": "ok", "hdr": rec.B4(hdr), "session": rec.B4(sess), "fname": rec.Bytes([]byte(name)), "comps": comps(name),
			"peer": s.c.LocalAddr().String(), "answers": l, "tree": snapTree(), "shown": t != nil, "trans": tr})
	}
	rnd := r.Rand
	for i := 0; i < 8*r.Scale && silent < 3; i++ {
		begin([]int{1, 1, 0, 1, 2, 1, 0, 1}[i%8])
		var last func(fam, who int)
		for k := 0; k < 90 && silent < 3; k++ {
			h := uint32(0x210f0000) | uint32(1+rnd.Intn(6))
			switch rnd.Intn(8) {
			case 0:
				h = h&^0x000f0000 | uint32(rnd.Intn(16))<<16
			case 1:
				h ^= 1 << uint(rnd.Intn(24))
			}
			fam, who, sess := rnd.Intn(2), rnd.Intn(3), uint32(rnd.Intn(6))
			name := nameList[rnd.Intn(len(nameList))]
			if rnd.Intn(2) == 0 {
				name = nameList[rnd.Intn(14)]
			}
			if last != nil && rnd.Intn(4) == 0 {
				last(fam, who)
				continue
			}
			ask(fam, who, h, sess, name)
			last = func(f, w int) {
				if rnd.Intn(2) == 0 {
					f, w = fam, who
				}
				ask(f, w, h, sess, name)
			}
		}
	}
	c.stop()
	cleanTree()
}
