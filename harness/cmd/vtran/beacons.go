package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
)

func init() { drivers["beacons"] = driveBeacons }

const sarPort = 7542

type dgram struct {
	to, src string
	frame   []byte
	at      time.Time
}

// post is a socket for each address beacons go to, and one for all the rest
type post struct {
	mu    sync.Mutex
	conns map[string]*net.UDPConn
	got   []dgram
	marks map[string]chan bool
}

func reuse(network, address string, c syscall.RawConn) error {
	return c.Control(func(fd uintptr) {
		syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	})
}

func newPost(ips []string) *post {
	p := &post{conns: map[string]*net.UDPConn{}, marks: map[string]chan bool{}}
	for _, ip := range append([]string{"0.0.0.0"}, ips...) {
		addr := net.JoinHostPort(ip, strconv.Itoa(sarPort))
		lc := net.ListenConfig{Control: reuse}
		var pc net.PacketConn
		var err error
		for i := 0; i < 300; i++ {
			if pc, err = lc.ListenPacket(context.Background(), "udp", addr); err == nil {
				break
			}
			time.Sleep(200 * time.Millisecond)
		}
		if err != nil {
			rec.Fatal(err)
		}
		conn := pc.(*net.UDPConn)
		conn.SetReadBuffer(1 << 20)
		p.conns[addr] = conn
		p.marks[addr] = make(chan bool, 1)
		go p.read(addr, conn)
	}
	return p
}

var mark = []byte("mark of the harness")

func (p *post) read(addr string, c *net.UDPConn) {
	buf := make([]byte, 70000)
	for {
		n, from, err := c.ReadFromUDP(buf)
		if err != nil {
			continue // somebody's port was closed
		}
		at := time.Now()
		if string(buf[:n]) == string(mark) {
			p.marks[addr] <- true
			continue
		}
		p.mu.Lock()
		p.got = append(p.got, dgram{addr, from.String(), append([]byte{}, buf[:n]...), at})
		p.mu.Unlock()
	}
}

// take returns what has come in: whatever was sent before the call
func (p *post) take(from time.Time) []rec.M {
	for addr := range p.conns {
		to := addr
		if strings.HasPrefix(addr, "0.0.0.0") {
			to = "127.9.9.9:" + strconv.Itoa(sarPort)
		}
		c, err := net.Dial("udp", to)
		if err != nil {
			rec.Fatal(err)
		}
		for ok := false; !ok; { // the mark is sent again should it get lost
			c.Write(mark)
			select {
			case <-p.marks[addr]:
				ok = true
			case <-time.After(3 * time.Second):
			}
		}
		c.Close()
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	l := []rec.M{}
	for _, d := range p.got {
		ms := d.at.Sub(from).Milliseconds()
		l = append(l, rec.M{"to": d.to, "src": rec.Bytes([]byte(d.src)), "frame": rec.Bytes(d.frame), "ms": ms})
	}
	p.got = nil
	return l
}

// free is the free space in kilobytes
func free() uint64 {
	var fs syscall.Statfs_t
	if err := syscall.Statfs(".", &fs); err != nil {
		rec.Fatal(err)
	}
	return uint64(fs.Bsize) * fs.Bavail / 1024
}

func addrOf(w string) string {
	if ip := net.ParseIP(w); ip != nil {
		return (&net.UDPAddr{IP: ip, Port: sarPort}).String()
	}
	return ""
}

func bwords(line string) []rec.M {
	l := words(line)
	for _, m := range l {
		m["addr"] = addrOf(m["w"].(string))
	}
	return l
}

func driveBeacons(r *rec.Rec) {
	setup()
	startGui()
	rnd := r.Rand
	ips := strings.Fields("127.0.0.1 127.0.0.2 127.0.0.3 127.0.0.4 127.0.0.5 127.0.0.6 127.0.0.17 127.255.1.2 ::1")
	p := newPost(ips)
	pid := rec.Bytes([]byte(strconv.Itoa(os.Getpid())))
	turn := 0
	begin := func(change func(c *sarflags.Cliflags)) {
		if turn++; turn%20 == 0 {
			tidyGui()
		}
		setup()
		c := sarflags.Cliflag
		c.V4Multicast, c.V6Multicast = "127.0.0.17", "::1" // there is no multicast here
		c.Timeout.Binterval = 0
		if change != nil {
			change(c)
		}
		r.Reset(rec.M{"settings": snap(), "mc": rec.M{"v4": addrOf(c.V4Multicast), "v6": addrOf(c.V6Multicast)}})
	}
	const slack = 1 << 18 // others write to the disk too
	around := func(m rec.M, f func()) {
		m["pid"], m["got"], m["lo"], m["hi"] = pid, []rec.M{}, rec.B8(0), rec.B8(0)
		r.CallQ(m, func() {
			lo := free()
			hi := lo
			start := time.Now()
			f()
			if n := free(); n < lo {
				lo = n
			} else {
				hi = n
			}
			if lo < slack {
				lo = slack
			}
			m["lo"], m["hi"] = rec.B8(lo-slack), rec.B8(hi+slack)
			m["got"] = p.take(start)
		})
	}
	enter := func(line string) {
		if f := strings.Fields(line); len(f) == 0 || f[0] != "beacon" {
			m := rec.M{"e": "set", "res": "ok"}
			r.Call(m, func() {
				command(line)
				m["after"] = snap()
			})
			return
		}
		m := rec.M{"e": "beacon", "res": "ok", "words": bwords(line)}
		around(m, func() { command(line) })
		r.Ev(m)
	}
	scenarios(func(s string) {
		var h [][]string
		if err := json.Unmarshal([]byte(s), &h); err != nil {
			rec.Fatal(err)
		}
		begin(func(c *sarflags.Cliflags) { c.Bcount = 1 })
		for _, ws := range h {
			for i, w := range ws {
				switch w {
				case "A":
					ws[i] = "127.0.0.1"
				case "B":
					ws[i] = "::1"
				case "C":
					ws[i] = "127.0.0.3"
				case "bad":
					ws[i] = "1.2.3"
				}
			}
			enter(strings.Join(ws, " "))
		}
	})
	pick := func(l ...string) string { return l[rnd.Intn(len(l))] }
	vary := func(c *sarflags.Cliflags) {
		c.Bcount = uint([]int{0, 1, 1, 2, 3, 4, 7, 30}[rnd.Intn(8)])
		for _, k := range []string{"stream", "udplite", "freespace"} {
			c.Global[k] = pick("yes", "no")
		}
		c.Global["rxwilling"], c.Global["txwilling"] = pick("yes", "no", "capable", "invalid"), pick("yes", "no", "capable", "invalid")
		c.Global["descriptor"] = pick("d16", "d32", "d64", "d128")
		c.Global["reqtstamp"], c.Global["csumtype"] = pick("yes", "no"), pick("none", "sha1")
		if rnd.Intn(5) == 0 {
			delete(c.Global, pick("stream", "udplite", "freespace", "rxwilling", "descriptor"))
		}
		if rnd.Intn(4) == 0 {
			c.V4Multicast, c.V6Multicast = "127.0.0.5", "127.0.0.6"
		}
	}
	alias := map[string][]string{"::1": {"::1", "0:0:0:0:0:0:0:1", "0::1", "::0001"}, "127.0.0.2": {"127.0.0.2", "::ffff:127.0.0.2", "::FFFF:7f00:2"}}
	address := func(ip string) string {
		if a := alias[ip]; a != nil {
			return a[rnd.Intn(len(a))]
		}
		return ip
	}
	bad := []string{"1.2.3", "x", "127.0.0", "?", "127.0.0.1.1", "::g", "12", "127.0.0.1:7542", "%s", "1:2", ":::"}
	line := func() string {
		switch rnd.Intn(12) {
		case 0:
			return "beacon " + pick("", "?", "off", "v4", "v6")
		case 1:
			return "beacon off " + address(ips[rnd.Intn(len(ips))]) + " " + pick("", "127.0.0.1", "x")
		case 2:
			return pick("freespace yes", "freespace no", "rxwilling on", "rxwilling off", "rxwilling capable", "txwilling on", "txwilling off", "txwilling capable",
				"stream yes", "stream no", "descriptor d16", "descriptor d32", "descriptor d64", "bcount 0", "bcount 1", "bcount 5", "timestamp 32", "checksum md5")
		}
		n := 1 + rnd.Intn(5)
		ws := []string{"beacon"}
		perm := rnd.Perm(len(ips))
		for i := 0; i < n; i++ {
			if rnd.Intn(5) == 0 {
				ws = append(ws, bad[rnd.Intn(len(bad))])
			} else {
				ws = append(ws, address(ips[perm[i]]))
			}
		}
		return strings.Join(ws, pick(" ", "  ", "\t"))
	}
	for i := 0; i < 50*r.Scale; i++ {
		begin(vary)
		for j := 0; j < 8; j++ {
			enter(line())
		}
	}
	// every setting alone
	for k, vals := range map[string][]string{"descriptor": {"d16", "d32", "d64", "d128"}, "stream": {"yes", "no", ""}, "udplite": {"yes", "no", ""}, "freespace": {"yes", "no", ""},
		"rxwilling": {"yes", "no", "capable", "invalid", ""}, "txwilling": {"yes", "no", "capable", "invalid", ""}} {
		for _, v := range vals {
			begin(func(c *sarflags.Cliflags) {
				c.Bcount = 2
				if c.Global[k] = v; v == "" {
					delete(c.Global, k)
				}
			})
			enter("beacon 127.0.0.4 ::1 127.0.0.3")
			enter("beacon v4")
			enter("beacon v6")
		}
	}
	// more of them
	for _, n := range []uint{60, 100} {
		begin(func(c *sarflags.Cliflags) { c.Bcount = n })
		enter("beacon 127.0.0.4 ::1")
	}
	// with time in between
	begin(func(c *sarflags.Cliflags) { c.Bcount, c.Timeout.Binterval = 3, 1 })
	enter("beacon 127.0.0.2")
	begin(func(c *sarflags.Cliflags) { c.Bcount, c.Timeout.Binterval = 2, 2 })
	enter("beacon v6")

	// at the same time
	kinds := [][]string{
		{"beacon 127.0.0.1", "beacon 127.0.0.2", "beacon ::1", "freespace no", "stream yes"},
		{"beacon 127.0.0.1 127.0.0.3", "beacon 127.0.0.2 x 127.0.0.4", "descriptor d16", "bcount 4"},
		{"beacon v4", "beacon v6", "beacon 127.0.0.2", "beacon off", "rxwilling off", "bcount 0"},
		{"beacon 127.0.0.1", "beacon 127.0.0.2", "beacon 127.0.0.3", "beacon 127.0.0.4", "beacon ::1"},
	}
	for _, kind := range kinds {
		for i := 0; i < 15*r.Scale; i++ {
			begin(func(c *sarflags.Cliflags) { c.Bcount = uint(1 + i%3) })
			ws := [][]rec.M{}
			for _, l := range kind {
				ws = append(ws, bwords(l))
			}
			m := rec.M{"e": "par", "res": "ok", "lines": ws}
			around(m, func() {
				var goes int32
				var ready, stop sync.WaitGroup
				for _, l := range kind {
					ready.Add(1)
					stop.Add(1)
					go func(l string) {
						ready.Done()
						for atomic.LoadInt32(&goes) == 0 {
						}
						sarwin.Run(gui, l)
						stop.Done()
					}(l)
				}
				ready.Wait()
				atomic.StoreInt32(&goes, 1)
				stop.Wait()
				settle()
				settle()
			})
			r.Ev(m)
		}
	}
	fmt.Println("beacons done")
}
