package main

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"sync"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
)

func init() { drivers["send"] = driveSend }

type net1 struct {
	r     *rec.Rec
	recv  []*net.UDPConn
	plain []*net.UDPConn // one of each family, for the marks
	socks []*net.UDPConn
	ports map[int]int
	marks int
	lost  int // datagrams that should have come
}

var rnet = []string{"udp4", "udp4", "udp6", "udp6"}

func lo(n string) *net.UDPAddr {
	if n == "udp4" {
		return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}
	}
	return &net.UDPAddr{IP: net.IPv6loopback}
}

func (n *net1) addr(r int) *net.UDPAddr { return n.recv[r-1].LocalAddr().(*net.UDPAddr) }

func listen(nw string, a *net.UDPAddr) *net.UDPConn {
	c, err := net.ListenUDP(nw, a)
	if err != nil {
		rec.Fatal(err)
	}
	return c
}

// begin opens the sockets of a run
func (n *net1) begin() {
	for _, c := range n.socks {
		c.Close()
	}
	n.socks = nil
	n.ports = map[int]int{}
	desc := []rec.M{}
	add := func(fam string, peer int, c *net.UDPConn) {
		n.socks = append(n.socks, c)
		n.ports[c.LocalAddr().(*net.UDPAddr).Port] = len(n.socks)
		desc = append(desc, rec.M{"open": true, "fam": fam, "peer": peer})
	}
	dial := func(nw string, peer int) *net.UDPConn {
		c, err := net.DialUDP(nw, nil, n.addr(peer))
		if err != nil {
			rec.Fatal(err)
		}
		return c
	}
	add("v4", 0, listen("udp4", lo("udp4")))
	add("v6", 0, listen("udp6", lo("udp6")))
	add("any", 0, listen("udp", &net.UDPAddr{}))
	add("v4", 1, dial("udp4", 1))
	add("v6", 3, dial("udp6", 3))
	n.r.Reset(rec.M{"socks": desc})
}

func sendIt(o codec, c *net.UDPConn, to *net.UDPAddr, packet bool) error {
	switch x := o.(type) {
	case *data.Data:
		if packet {
			p := x.Val(to)
			return p.Info.Send(c, &p.Addr)
		}
		return x.Send(c, to)
	case *status.Status:
		if packet {
			p := x.Val(to)
			return p.Info.Send(c, &p.Addr)
		}
		return x.Send(c, to)
	case *request.Request:
		if packet {
			p := x.Val(to)
			return p.Info.Send(c, &p.Addr)
		}
		return x.Send(c, to)
	case *metadata.MetaData:
		if packet {
			p := x.Val(to)
			return p.Info.Send(c, &p.Addr)
		}
		return x.Send(c, to)
	case *beacon.Beacon:
		if packet {
			p := x.Val(anyaddr)
			return p.Info.Send(c)
		}
		return x.Send(c)
	}
	return nil
}

// one sends o on socket s to receiver to and says what happened
func (n *net1) one(ft string, o codec, s, to int, packet bool) rec.M {
	m := rec.M{"e": "send", "res": "ok", "ft": ft, "s": s, "to": to, "frame": snap(o), "packet": packet}
	f := func() {
		var a *net.UDPAddr
		if to != 0 {
			x := *n.addr(to)
			a = &x
		}
		m["res"] = rec.Err(sendIt(o, n.socks[s-1], a, packet))
	}
	n.r.CallQ(m, f)
	m["after"] = snap(o)
	return m
}

// read takes what has arrived; want is how many datagrams must come
func (n *net1) read(want []int) {
	m := rec.M{"e": "read", "res": "ok"}
	got := make([][]rec.M, len(n.recv))
	for i, c := range n.recv {
		got[i] = []rec.M{}
		n.marks++
		mark := fmt.Sprintf("\xff\xff mark %d %d", i, n.marks)
		sent := false
		buf := make([]byte, 70000)
		for deadline := time.Now().Add(10 * time.Second); ; {
			if !sent && (len(got[i]) >= want[i] || time.Now().After(deadline)) {
				if _, err := n.plain[i/2].WriteTo([]byte(mark), n.addr(i+1)); err != nil {
					rec.Fatal("mark:", err)
				}
				sent = true
				deadline = time.Now().Add(20 * time.Second)
			}
			c.SetReadDeadline(deadline)
			k, a, err := c.ReadFromUDP(buf)
			if err != nil {
				if sent {
					rec.Fatal("no mark arrived:", err)
				}
				continue
			}
			if string(buf[:k]) == mark {
				break
			}
			from := n.ports[a.Port]
			got[i] = append(got[i], rec.M{"from": from, "b": rec.Bytes(buf[:k])})
		}
	}
	m["got"] = got
	n.r.Ev(m)
	for i := range got {
		if len(got[i]) < want[i] {
			n.lost++
		}
	}
	if n.lost > 2 { // enough to say what is wrong
		n.r.Close()
		os.Exit(0)
	}
}

func (n *net1) expects(ms ...rec.M) []int {
	w := make([]int, len(n.recv))
	peers := []int{0, 0, 0, 1, 3}
	for _, m := range ms {
		if m["res"] == "ok" {
			d := m["to"].(int)
			if p := peers[m["s"].(int)-1]; p != 0 {
				d = p
			}
			if d != 0 {
				w[d-1]++
			}
		}
	}
	return w
}

// randFrame is any frame, often one with an encoding
func (n *net1) randFrame(ft string) codec {
	r := n.r.Rand
	in, _ := randInfo(r, ft)
	o := fresh(ft)
	switch ft {
	case "metadata":
		// described files are C21's; the fields are filled in here
		x := fr{Hdr: toB([]byte{0x22, byte(r.Intn(256)), 0, 0}), Session: toB(randN(r.Uint32())), Dhdr: toB([]byte{0x80, byte(r.Intn(256))}),
			Size: toB(rec8(u64s(r))), Mtime: toB(randN(r.Uint32())), Ctime: toB(randN(r.Uint32())), Path: toB(nozero(blob(r, 30)))}
		if k := r.Intn(4); k == 1 {
			x.Hdr[3], x.Csum = 0x13, toB(randN(r.Uint32()))
		} else if k == 2 {
			x.Hdr[3], x.Csum = 0x42, toB(append(randN(r.Uint32()), append(randN(r.Uint32()), append(randN(r.Uint32()), randN(r.Uint32())...)...)...))
		}
		return direct(ft, x)
	case "beacon":
		x := fr{Hdr: toB([]byte{0x20, 0x80, byte(r.Intn(16) << 4), 0}), Fs: toB(rec8(u64s(r))), Eid: toB(blob(r, 40))}
		if r.Intn(2) == 0 {
			x.Fs = toB(rec8(uint64(r.Intn(65536))))
		}
		return direct(ft, x)
	}
	for {
		flags := "descriptor=" + []string{"d16", "d32", "d64"}[r.Intn(3)]
		switch ft {
		case "data":
			flags += "," + []string{"eod=yes", "eod=no", "reqtstamp=posix64_32", "reqtstamp=no,transfer=stream", "reqstatus=yes"}[r.Intn(5)]
		case "status":
			flags += "," + []string{"errcode=badpacket", "allholes=no", "reqtstamp=no", "metadatarecvd=yes"}[r.Intn(4)]
		case "request":
			flags += "," + []string{"reqtype=get", "reqtype=put", "stream=yes,reqtype=delete"}[r.Intn(3)]
		}
		if err := o.New(flags, in); err != nil {
			rec.Fatal(ft, flags, err)
		}
		return o
	}
}

func toB(b []byte) blist {
	l := blist{}
	for _, x := range b {
		l = append(l, int(x))
	}
	return l
}
func randN(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func rec8(v uint64) []byte  { return append(randN(uint32(v>>32)), randN(uint32(v))...) }

// sized is a frame whose encoding is size bytes long
func sized(ft string, size int) codec {
	fill := make([]byte, size)
	for i := range fill {
		fill[i] = byte(i % 251)
	}
	switch ft {
	case "data":
		return &data.Data{Header: 0x23000000, Session: 7, Offset: 3, Payload: fill[:size-10]}
	case "request":
		return &request.Request{Header: 0x21000000, Session: 7, Fname: "f", Auth: fill[:size-10]}
	}
	return &beacon.Beacon{Header: 0x20000000, Eid: string(fill[:size-4])}
}

// packets hands on frames for different addresses at the same time; those that
// came out with another address than asked for are recorded, and some others
func (n *net1) packets() {
	pk := func(o codec, a *net.UDPAddr) net.UDPAddr {
		switch x := o.(type) {
		case *data.Data:
			return x.Val(a).Addr
		case *status.Status:
			return x.Val(a).Addr
		case *request.Request:
			return x.Val(a).Addr
		case *metadata.MetaData:
			return x.Val(a).Addr
		}
		return o.(*beacon.Beacon).Val(a).Addr
	}
	ad := func(a net.UDPAddr) rec.M {
		return rec.M{"ip": rec.Bytes(a.IP.To16()), "port": a.Port, "zone": a.Zone}
	}
	n.begin()
	for _, ft := range []string{"data", "status", "request", "metadata", "beacon"} {
		var wg sync.WaitGroup
		out := make([][]rec.M, 6)
		all := rec.M{"e": "val", "res": "ok", "ft": ft, "par": true}
		n.r.CallQ(all, func() {
			for g := range out {
				g := g
				o := n.randFrame(ft)
				a := net.UDPAddr{IP: net.ParseIP([]string{"10.0.0.1", "10.0.0.2", "fe80::1", "ff02::6c", "1.2.3.4", "::1"}[g]), Port: 7000 + g}
				if g == 2 {
					a.Zone = "lo"
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 20000; k++ {
						b := pk(o, &a)
						bad := b.Port != a.Port || !b.IP.Equal(a.IP) || b.Zone != a.Zone
						if k == 0 || bad && len(out[g]) < 4 {
							out[g] = append(out[g], rec.M{"e": "val", "res": "ok", "ft": ft, "to": ad(a), "got": ad(b)})
						}
					}
				}()
			}
			wg.Wait()
		})
		for _, l := range out {
			for _, m := range l {
				n.r.Ev(m)
			}
		}
	}
}

func driveSend(r *rec.Rec) {
	setup()
	n := &net1{r: r}
	for _, nw := range rnet {
		n.recv = append(n.recv, listen(nw, lo(nw)))
	}
	n.plain = []*net.UDPConn{listen("udp4", lo("udp4")), listen("udp6", lo("udp6"))}
	scenarios(func(line string) {
		var s struct {
			Ops []struct {
				Op, Ft string
				S, To  int
				Frame  json.RawMessage
			}
		}
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		n.begin()
		for _, op := range s.Ops {
			if op.Op == "close" {
				n.socks[op.S-1].Close()
				r.Ev(rec.M{"e": "close", "s": op.S})
				continue
			}
			var f fr
			if err := json.Unmarshal(op.Frame, &f); err != nil {
				rec.Fatal(err)
			}
			m := n.one(op.Ft, direct(op.Ft, f), op.S, op.To, r.Rand.Intn(2) == 0)
			r.Ev(m)
			n.read(n.expects(m))
		}
	})
	kinds := []string{"data", "status", "request", "metadata", "beacon"}
	pick := func() (string, codec, int, int, bool) {
		ft := kinds[r.Rand.Intn(len(kinds))]
		s := 1 + r.Rand.Intn(5)
		if ft == "beacon" && r.Rand.Intn(6) != 0 {
			s = 4 + r.Rand.Intn(2)
		}
		to := 1 + r.Rand.Intn(len(n.recv))
		switch {
		case ft == "beacon":
			to = 0
		case s == 4:
			to = 1
		case s == 5:
			to = 3
		case s <= 2 && r.Rand.Intn(6) != 0:
			to = 2*s - r.Rand.Intn(2)
		}
		return ft, n.randFrame(ft), s, to, r.Rand.Intn(2) == 0
	}
	for i := 0; i < 150*r.Scale; i++ {
		n.begin()
		for k := 0; k < 6; k++ {
			if k == 3 { // at the same time, some of them the same frame
				var wg sync.WaitGroup
				var ms []rec.M
				g := 2 + r.Rand.Intn(6)
				per := 1 + r.Rand.Intn(3)
				type job struct {
					ft    string
					o     codec
					s, to int
					p     bool
				}
				jobs := make([][]job, g)
				var last job
				for j := range jobs {
					for q := 0; q < per; q++ {
						if last.o == nil || r.Rand.Intn(4) != 0 {
							last.ft, last.o, last.s, last.to, last.p = pick()
						}
						jobs[j] = append(jobs[j], last)
					}
				}
				res := make([][]rec.M, g)
				all := rec.M{"e": "send", "res": "ok", "par": true}
				r.CallQ(all, func() {
					for j := range jobs {
						j := j
						wg.Add(1)
						go func() {
							defer wg.Done()
							for _, b := range jobs[j] {
								m := rec.M{"e": "send", "res": "ok", "ft": b.ft, "s": b.s, "to": b.to, "frame": snap(b.o), "packet": b.p}
								func() {
									defer func() {
										if p := recover(); p != nil {
											m["res"], m["msg"] = "panic", fmt.Sprint(p)
										}
									}()
									var a *net.UDPAddr
									if b.to != 0 {
										x := *n.addr(b.to)
										a = &x
									}
									m["res"] = rec.Err(sendIt(b.o, n.socks[b.s-1], a, b.p))
								}()
								m["after"] = snap(b.o)
								res[j] = append(res[j], m)
							}
						}()
					}
					wg.Wait()
				})
				for _, l := range res {
					ms = append(ms, l...)
				}
				for _, m := range ms {
					r.Ev(m)
				}
				n.read(n.expects(ms...))
				continue
			}
			ft, o, s, to, p := pick()
			m := n.one(ft, o, s, to, p)
			r.Ev(m)
			n.read(n.expects(m))
		}
		if i%4 == 0 {
			s := 1 + r.Rand.Intn(5)
			n.socks[s-1].Close()
			r.Ev(rec.M{"e": "close", "s": s})
			for k := 0; k < 4; k++ {
				ft, o, s2, to, p := pick()
				if k%2 == 0 && (ft == "beacon") == (s > 3) || k == 3 {
					s2 = s
					if s > 3 && ft != "beacon" {
						to = []int{1, 3}[s-4]
					}
				}
				m := n.one(ft, o, s2, to, p)
				r.Ev(m)
				n.read(n.expects(m))
			}
		}
	}
	n.packets()
	// the sizes around the packet sizes of the program and the largest
	n.begin()
	for _, size := range []int{1399, 1400, 1401, 1472, 1473, 1500, 2048, 4096, 8192, 9000, 16384, 32768, 65506, 65507, 65508, 65536, 70000} {
		for _, ft := range []string{"data", "request", "beacon"} {
			for s := 1; s <= 5; s++ {
				if ft == "beacon" && s < 4 || size > 20000 && r.Scale == 1 && s != 4 {
					continue
				}
				to := []int{1, 3, 2, 1, 3}[s-1]
				if ft == "beacon" {
					to = 0
				}
				if size > 9000 && r.Scale == 1 && ft == "request" {
					continue
				}
				m := n.one(ft, sized(ft, size), s, to, s%2 == 0)
				r.Ev(m)
				n.read(n.expects(m))
			}
		}
	}
}
