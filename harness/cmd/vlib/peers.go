package main

import (
	"encoding/binary"
	"encoding/json"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/timestamp"
)

func init() { drivers["peers"] = drivePeers }

// op is one beacon heard from one address
type op struct {
	G    int
	Addr net.UDPAddr
	B    beacon.Beacon
	News bool
}

func (o *op) m() rec.M {
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, o.B.Header)
	return rec.M{"g": o.G, "addr": o.Addr.IP.String(), "news": o.News,
		"b": rec.M{"hdr": rec.Bytes(h), "fs": rec.B8(o.B.Freespace), "eid": rec.Bytes([]byte(o.B.Eid))}}
}

func clock() []int {
	t := time.Now()
	return append(rec.B8(uint64(t.Unix())), rec.B4(uint32(t.Nanosecond()))...)
}

func stampOf(t timestamp.Timestamp) []int { return rec.Bytes(t.Put()) }

func table() []rec.M {
	l := []rec.M{}
	for _, p := range beacon.Peers {
		l = append(l, rec.M{"addr": p.Addr, "fs": rec.B8(p.Freespace), "eid": rec.Bytes([]byte(p.Eid)),
			"desc": p.Maxdesc, "rx": p.Canrx, "tx": p.Cantx, "created": stampOf(p.Created), "updated": stampOf(p.Updated)})
	}
	return l
}

func drivePeers(r *rec.Rec) {
	setup()
	begin := func() { r.Reset(nil); beacon.Peers = nil }
	var since []int // when the table was not looked at any more
	hearq := func(o op, look bool) {
		m := o.m()
		m["e"], m["res"], m["seen"] = "hear", "ok", look
		m["lo"] = clock()
		if since != nil {
			m["lo"] = since
		} else {
			since = clock()
		}
		r.Call(m, func() {
			m["news"] = beacon.NewPeer(&o.B, &o.Addr)
			m["hi"] = clock()
			if look {
				m["table"] = table()
				since = nil
			}
		})
	}
	hear := func(o op) { hearq(o, true) }
	addrs := []net.UDPAddr{
		{IP: net.IPv4(10, 1, 2, 3), Port: 7542}, {IP: net.ParseIP("fe80::1"), Port: 7542},
		{IP: net.IPv4(10, 1, 2, 3).To4(), Port: 4000}, {IP: net.IPv4(10, 1, 2, 30), Port: 7542},
		{IP: net.IPv4(110, 1, 2, 3), Port: 7542}, {IP: net.ParseIP("2001:db8::10.1.2.3"), Port: 7542},
		{IP: net.ParseIP("::1"), Port: 1}, {IP: net.ParseIP("::"), Port: 1}, {IP: net.IPv4(127, 0, 0, 1), Port: 65535},
		{IP: net.ParseIP("fe80::10"), Port: 7542},
	}
	// the histories of the specification
	n := 0
	scenarios(func(line string) {
		var s []struct {
			A int
			B struct{ Hdr, Fs, Eid []byteval }
		}
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		begin()
		for _, x := range s {
			n++
			a := addrs[(n/7)%2*3+x.A]
			if x.A == 2 {
				a = addrs[(n/7)%3+1]
			}
			if x.A == 1 {
				a = addrs[(n%2)*2]
			}
			hear(op{Addr: a, B: beacon.Beacon{Header: binary.BigEndian.Uint32(raw(x.B.Hdr)),
				Freespace: binary.BigEndian.Uint64(raw(x.B.Fs)), Eid: string(raw(x.B.Eid))}})
		}
	})
	rnd := func(b *beacon.Beacon) {
		switch r.Rand.Intn(9) {
		case 0:
			b.Freespace = []uint64{0, 1, 65535, 1 << 32, 1<<64 - 1, b.Freespace + 1, b.Freespace << 32}[r.Rand.Intn(7)]
		case 1:
			b.Eid = []string{"", "a", "b", "10.1.2.3:7542-1", "\x00", "\xff\xfe"}[r.Rand.Intn(6)]
		case 2, 3, 4:
			b.Header ^= 1 << uint(r.Rand.Intn(32))
		case 5:
			b.Header = r.Rand.Uint32()
		}
	}
	// longer histories
	for i := 0; i < 120*r.Scale; i++ {
		begin()
		cur := map[string]*beacon.Beacon{}
		for k := 0; k < 5+r.Rand.Intn(25); k++ {
			a := addrs[r.Rand.Intn(len(addrs))]
			if i%3 == 0 {
				a = addrs[r.Rand.Intn(3)]
			}
			b := cur[a.IP.String()]
			if b == nil {
				b = &beacon.Beacon{Header: 0x20cc4000 | r.Rand.Uint32()&0x00ff0000}
				cur[a.IP.String()] = b
			}
			if r.Rand.Intn(4) > 0 {
				rnd(b)
			}
			if r.Rand.Intn(6) == 0 { // exactly what another one said
				for _, o := range addrs {
					if c := cur[o.IP.String()]; c != nil && r.Rand.Intn(3) == 0 {
						*b = *c
					}
				}
			}
			hear(op{Addr: a, B: *b})
		}
	}
	// many of them
	for i := 0; i < 3+r.Scale/4; i++ {
		begin()
		n := []int{150, 300, 700}[i%3]
		var cur []op
		for k := 0; k < 2*n; k++ {
			if k%2 == 0 || len(cur) == 0 {
				ip := net.IPv4(10, byte(i), byte(len(cur)>>8), byte(len(cur)))
				if len(cur)%3 == 1 {
					ip = net.ParseIP("fe80::")
					ip[14], ip[15] = byte(len(cur)>>8), byte(len(cur))
				}
				cur = append(cur, op{Addr: net.UDPAddr{IP: ip, Port: 7542}, B: beacon.Beacon{Header: 0x20cc4000, Freespace: uint64(len(cur) % 5)}})
				hearq(cur[len(cur)-1], k%200 == 0)
				continue
			}
			j := r.Rand.Intn(len(cur))
			if r.Rand.Intn(2) == 0 {
				j = len(cur) - 1 - r.Rand.Intn(1+len(cur)/20)
			}
			if r.Rand.Intn(2) == 0 {
				rnd(&cur[j].B)
			}
			hearq(cur[j], k%200 == 199 || k == 2*n-1)
		}
	}
	// concurrently
	runtime.GOMAXPROCS(8)
	par := func(ops []op, pre int) {
		var gs [8][]*op
		for i := range ops {
			gs[ops[i].G%8] = append(gs[ops[i].G%8], &ops[i])
		}
		m := rec.M{"e": "par", "res": "ok", "ops": []rec.M{}}
		m["lo"] = clock()
		r.CallQ(m, func() {
			var ready, stop sync.WaitGroup
			var goes int32
			for g := range gs {
				if len(gs[g]) == 0 {
					continue
				}
				ready.Add(1)
				stop.Add(1)
				go func(mine []*op) {
					defer stop.Done()
					defer func() {
						if recover() != nil {
							mine[0].G = -1
						}
					}()
					ready.Done()
					for atomic.LoadInt32(&goes) == 0 {
					}
					for _, o := range mine {
						o.News = beacon.NewPeer(&o.B, &o.Addr)
					}
				}(gs[g])
			}
			ready.Wait()
			atomic.StoreInt32(&goes, 1)
			stop.Wait()
			m["hi"] = clock()
			l := []rec.M{}
			for i := range ops {
				if ops[i].G < 0 {
					m["res"] = "panic"
				}
				l = append(l, ops[i].m())
			}
			m["ops"] = l
			m["table"] = table()
		})
		r.Ev(m)
	}
	for i := 0; i < 700*r.Scale; i++ {
		begin()
		nb := r.Rand.Intn(3)
		for k := 0; k < nb; k++ {
			hear(op{Addr: addrs[r.Rand.Intn(4)], B: beacon.Beacon{Header: 0x20cc4000}})
		}
		var ops []op
		for g := 0; g < 2+r.Rand.Intn(4); g++ {
			for k := 0; k < 1+r.Rand.Intn(2) && len(ops) < 6; k++ {
				b := beacon.Beacon{Header: 0x20cc4000, Eid: "a"}
				if i%2 == 0 {
					rnd(&b)
				}
				ops = append(ops, op{G: g, Addr: addrs[r.Rand.Intn(1+i%4)], B: b})
			}
		}
		par(ops, nb)
	}
}

// byteval is a JSON number that is a byte
type byteval int

func raw(b []byteval) []byte {
	l := make([]byte, len(b))
	for i := range b {
		l[i] = byte(b[i])
	}
	return l
}
