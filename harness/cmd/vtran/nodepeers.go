package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarflags"
)

func init() { drivers["nodepeers"] = driveNodePeers }

func moment() []int {
	t := time.Now()
	return append(rec.B8(uint64(t.Unix())), rec.B4(uint32(t.Nanosecond()))...)
}

// driveNodePeers has the real node hear beacons, and other things
func driveNodePeers(r *rec.Rec) {
	if !*ctl {
		rec.Fatal("the node does not show its tables")
	}
	setupTree()
	ifi, err := net.InterfaceByName("lo")
	if err != nil {
		rec.Fatal(err)
	}
	max := ifi.MTU - 60
	var c *child
	silent, used := 0, 0
	begin := func() {
		if c != nil {
			c.stop()
		}
		makeTree(tree1)
		c = startNode()
		used = 0
		r.Reset(nil)
	}
	type dgram struct {
		fam  int
		addr string
		b    []byte
	}
	socks := map[string]*net.UDPConn{}
	from := func(fam int, addr string) *net.UDPConn {
		if s := socks[addr]; s != nil {
			return s
		}
		if len(socks) > 300 {
			for k, s := range socks {
				s.Close()
				delete(socks, k)
			}
		}
		s, err := net.ListenUDP([]string{"udp4", "udp6"}[fam], &net.UDPAddr{IP: net.ParseIP(addr)})
		if err != nil {
			rec.Fatal(err)
		}
		socks[addr] = s
		return s
	}
	send := func(l []dgram) {
		m := rec.M{"e": "grams", "res": "ok", "max": max, "lo": moment()}
		ops := []rec.M{}
		fams := map[int]bool{}
		for _, d := range l {
			s := from(d.fam, d.addr)
			for try := 0; ; try++ {
				_, err := s.WriteToUDP(d.b, c.to[d.fam])
				if err == nil {
					break
				}
				if try > 3 {
					rec.Fatal(err, len(d.b))
				}
			}
			fams[d.fam] = true
			ops = append(ops, rec.M{"g": d.fam, "addr": d.addr, "b": rec.Bytes(d.b)})
		}
		m["ops"], m["table"] = ops, []rec.M{}
		for fam := range fams {
			if res := c.alive(fam); res != "ok" {
				m["res"] = res
				silent++
			}
		}
		m["hi"] = moment()
		t := c.show()
		if t == nil {
			m["res"] = "died"
			silent++
		} else {
			l := []rec.M{}
			for _, p := range t.Peers {
				l = append(l, rec.M{"addr": p.Addr, "fs": rec.B8(p.Free), "eid": rec.Bytes(p.Eid), "desc": p.Desc, "rx": p.Rx, "tx": p.Tx,
					"created": rec.Bytes(p.Created), "updated": rec.Bytes(p.Updated)})
			}
			m["table"] = l
		}
		r.Ev(m)
		used += len(fams) + len(l)
	}
	rnd := r.Rand
	// the histories of the specification, from addresses of their own
	var all []string
	scenarios(func(line string) { all = append(all, line) })
	rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if len(all) > 160*r.Scale {
		all = all[:160*r.Scale]
	}
	for i, line := range all {
		if i%32 == 0 {
			begin()
		}
		if silent > 2 {
			break
		}
		var s []struct {
			A int
			B struct{ Hdr, Fs, Eid []byteval }
		}
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		var batch []dgram
		for _, x := range s {
			h, _ := sarflags.Set(binary.BigEndian.Uint32(raw(x.B.Hdr)), "freespace", "yes")
			h, _ = sarflags.Set(h, "freespaced", "d64")
			d := dgram{0, fmt.Sprintf("127.%d.%d.%d", i/200, i%200, x.A), make([]byte, 4)}
			binary.BigEndian.PutUint32(d.b, h)
			d.b = append(append(d.b, raw(x.B.Fs)...), raw(x.B.Eid)...)
			if x.A == 2 && i%8 == 0 {
				d.fam, d.addr = 1, "::1"
			}
			batch = append(batch, d)
			if i%3 > 0 || len(batch) == len(s) {
				send(batch)
				batch = nil
			}
		}
	}
	// beacons of every form, damaged ones, and other frames
	form := func(h uint32, fs uint64, eid string) []byte {
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, h)
		if h>>14&1 == 1 {
			var w [8]byte
			binary.BigEndian.PutUint64(w[:], fs)
			b = append(b, w[8-[]int{2, 4, 8, 8}[h>>12&3]:]...)
		}
		return append(b, eid...)
	}
	for i := 0; i < 8*r.Scale && silent < 3; i++ {
		begin()
		type said struct {
			h   uint32
			fs  uint64
			eid string
		}
		says := map[string]*said{}
		for k := 0; k < 60 && silent < 3; k++ {
			n := 1
			if rnd.Intn(3) == 0 {
				n = 2 + rnd.Intn(6)
			}
			var batch []dgram
			for q := 0; q < n; q++ {
				d := dgram{0, fmt.Sprintf("127.0.0.%d", 1+rnd.Intn(5)), nil}
				if rnd.Intn(3) == 0 {
					d.fam, d.addr = 1, "::1"
				}
				s := says[d.addr]
				if s == nil {
					s = &said{0x20c00000 | uint32(rnd.Intn(2))<<14 | uint32(rnd.Intn(3))<<12, rnd.Uint64(), d.addr + "-12"}
					says[d.addr] = s
				}
				switch rnd.Intn(9) {
				case 0:
					s.fs = []uint64{0, 1, 65535, 1 << 32, 1<<64 - 1, s.fs + 1, s.fs << 32, rnd.Uint64()}[rnd.Intn(8)]
				case 1:
					s.eid = []string{"", "a", "aaaa", "10.1.2.3:7542-1", "\x00\x01\x02\x03", "\xff\xfebcd", s.eid + "x"}[rnd.Intn(7)]
				case 2, 3, 4: // the protocol knows no d128 here
					s.h ^= 1 << uint(rnd.Intn(24))
				case 5:
					s.h = 0x20000000 | rnd.Uint32()&0x00ffffff
				}
				d.b = form(s.h, s.fs, s.eid)
				switch rnd.Intn(12) {
				case 0: // cut short
					d.b = d.b[:rnd.Intn(len(d.b)+1)]
				case 1: // something else
					d.b[0] = byte(rnd.Intn(256))
				case 2:
					x := make([]byte, rnd.Intn(40))
					rnd.Read(x)
					d.b = append([]byte{0x20, byte(rnd.Intn(256)), byte(rnd.Intn(256)), byte(rnd.Intn(256))}, x...)
				case 3:
					d.b = frameReq(rnd.Intn(7), rnd.Uint32(), s.eid)
				case 4:
					if rnd.Intn(4) == 0 {
						d.b = append(d.b, make([]byte, []int{1000, max - len(d.b), max - len(d.b) + 1}[rnd.Intn(3)])...)
					}
				}
				batch = append(batch, d)
			}
			send(batch)
		}
	}
	c.stop()
	cleanTree()
}
