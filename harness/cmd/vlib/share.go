package main

import (
	"encoding/json"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
)

func init() { drivers["share"] = driveShare }

// share is the memory of a program that uses frames
type share struct {
	r     *rec.Rec
	kind  string
	bufs  [][]byte // each with room of its own
	lists []holes.Holes
	objs  []codec // nil before the first use
	bad   []bool  // after a failure an object holds anything, and encodes as anything
	pkts  []interface{}
}

func (s *share) begin(nb, nl, no int) {
	s.bufs = make([][]byte, nb)
	for i := range s.bufs {
		s.bufs[i] = make([]byte, 0, 4096)
	}
	s.lists = make([]holes.Holes, nl)
	for i := range s.lists {
		s.lists[i] = make(holes.Holes, 0, 64)
	}
	s.objs = make([]codec, no)
	s.bad = make([]bool, no)
	s.pkts = nil
	s.r.Reset(rec.M{"kind": s.kind, "nb": nb, "nl": nl, "no": no})
}

// memory is everything there is
func (s *share) memory(m rec.M) {
	bs := [][]int{}
	for _, b := range s.bufs {
		bs = append(bs, rec.Bytes(b))
	}
	ls := [][][][]int{}
	for _, l := range s.lists {
		ls = append(ls, holesOut(l))
	}
	os := []rec.M{}
	for _, o := range s.objs {
		if o == nil {
			os = append(os, rec.M{"none": true})
		} else {
			os = append(os, snap(o))
		}
	}
	ps := []rec.M{}
	for _, p := range s.pkts {
		ps = append(ps, shown(p))
	}
	m["bufs"], m["lists"], m["objs"], m["pkts"] = bs, ls, os, ps
}

func (s *share) write(b int, x []byte) {
	s.bufs[b-1] = append(s.bufs[b-1][:0], x...) // in place
	m := rec.M{"e": "op", "op": "write", "b": b, "x": rec.Bytes(x), "res": "ok"}
	s.memory(m)
	s.r.Ev(m)
}
func (s *share) list(b int, x holes.Holes) {
	s.lists[b-1] = append(s.lists[b-1][:0], x...)
	m := rec.M{"e": "op", "op": "list", "b": b, "x": holesOut(x), "res": "ok"}
	s.memory(m)
	s.r.Ev(m)
}
func (s *share) dec(o, b int) {
	m := rec.M{"e": "op", "op": "dec", "o": o, "b": b, "res": "ok"}
	s.r.Call(m, func() {
		if s.objs[o-1] == nil || s.r.Rand.Intn(8) == 0 {
			s.objs[o-1] = fresh(s.kind)
		}
		err := s.objs[o-1].Decode(s.bufs[b-1])
		s.bad[o-1] = err != nil
		m["res"] = rec.Err(err)
		s.memory(m)
	})
}
func (s *share) enc(o int) {
	if s.objs[o-1] == nil || s.bad[o-1] {
		return
	}
	m := rec.M{"e": "op", "op": "enc", "o": o, "res": "ok"}
	s.r.Call(m, func() {
		b, err := encode(s.objs[o-1])
		m["res"] = rec.Err(err)
		if err == nil {
			s.bufs = append(s.bufs, b)
		}
		s.memory(m)
	})
}
func (s *share) val(o int) {
	if s.objs[o-1] == nil {
		return
	}
	m := rec.M{"e": "op", "op": "val", "o": o, "res": "ok"}
	s.r.Call(m, func() {
		s.pkts = append(s.pkts, val(s.objs[o-1]))
		s.memory(m)
	})
}

// mk builds a frame (data, request, status) from what is in a buffer or list
func (s *share) mk(o, b int) {
	if s.kind == "metadata" || s.kind == "beacon" {
		return
	}
	ss, n := uint32(0x01020304), uint64(0x102)
	var info interface{}
	switch s.kind {
	case "data":
		info = &data.Dinfo{Session: ss, Offset: n, Payload: s.bufs[b-1]}
	case "request":
		info = &request.Rinfo{Session: ss, Fname: "n", Auth: s.bufs[b-1]}
	case "status":
		info = &status.Sinfo{Session: ss, Progress: n, Inrespto: n, Holes: s.lists[b-1]}
	case "beacon":
		info = &beacon.Binfo{}
	}
	h := map[string]uint32{"data": 0x23400000, "request": 0x21400000, "status": 0x24400000}[s.kind]
	m := rec.M{"e": "op", "op": "make", "o": o, "b": b, "hdr": rec.B4(h), "session": rec.B4(ss), "n": rec.B8(n), "res": "ok"}
	s.r.Call(m, func() {
		var err error
		if s.r.Rand.Intn(2) == 0 {
			s.objs[o-1] = fresh(s.kind)
			err = s.objs[o-1].New("descriptor=d32", info)
		} else {
			if s.objs[o-1] == nil || s.r.Rand.Intn(3) == 0 {
				s.objs[o-1] = fresh(s.kind)
			}
			err = s.objs[o-1].Make(h, info)
		}
		s.bad[o-1] = err != nil
		m["res"] = rec.Err(err)
		s.memory(m)
	})
}

func driveShare(r *rec.Rec) {
	setup()
	good := map[string][][]byte{}
	scenarios(func(line string) {
		var sc struct {
			Kind string
			Ops  []struct {
				Op   string
				O, B int
				X    json.RawMessage
			}
		}
		if err := json.Unmarshal([]byte(line), &sc); err != nil {
			rec.Fatal(err)
		}
		s := &share{r: r, kind: sc.Kind}
		s.begin(2, 1, 2)
		for _, op := range sc.Ops {
			switch op.Op {
			case "write":
				var x blist
				if err := json.Unmarshal(op.X, &x); err != nil {
					rec.Fatal(err)
				}
				if len(x) > 4 && len(good[sc.Kind]) < 50 {
					good[sc.Kind] = append(good[sc.Kind], x.bytes())
				}
				s.write(op.B, x.bytes())
			case "list":
				var x [][2]blist
				if err := json.Unmarshal(op.X, &x); err != nil {
					rec.Fatal(err)
				}
				s.list(op.B, holesIn(x))
			case "dec":
				s.dec(op.O, op.B)
			case "enc":
				s.enc(op.O)
			case "val":
				s.val(op.O)
			case "make":
				s.mk(op.O, op.B)
			}
		}
	})
	kinds := []string{"data", "status", "request", "metadata", "beacon"}
	// every layout of a frame: the flags vary, there is enough for any of them
	for i := 0; i < 5*48*r.Scale; i++ {
		s := &share{r: r, kind: kinds[i%5]}
		if len(good[s.kind]) == 0 {
			continue
		}
		s.begin(2, 1, 2)
		frame := func() []byte {
			g := append([]byte(nil), good[s.kind][r.Rand.Intn(len(good[s.kind]))][:4]...)
			for k := 1; k < 4; k++ {
				g[k] = byte(r.Rand.Intn(256))
			}
			if s.kind == "metadata" {
				g[3] &= 0x5f // a checksum of at most 20 bytes
			}
			for n := 40 + 4*r.Rand.Intn(6); n > 0; n-- {
				g = append(g, byte(1+r.Rand.Intn(255)))
			}
			if s.kind == "data" || s.kind == "status" { // a timestamp, if there is one
				g[8] = byte(1 + r.Rand.Intn(5))
			}
			return append(g, 0)
		}
		s.write(1, frame())
		s.dec(1, 1)
		s.val(1)
		s.enc(1)
		s.write(1, frame())
		s.dec(2, 1)
		s.write(1, frame())
		s.dec(1, 1)
	}
	for i := 0; i < 120*r.Scale; i++ {
		s := &share{r: r, kind: kinds[i%5]}
		if len(good[s.kind]) == 0 {
			continue
		}
		s.begin(3, 2, 3)
		for k := 0; k < 30; k++ {
			b, o := 1+r.Rand.Intn(3), 1+r.Rand.Intn(3)
			switch r.Rand.Intn(9) {
			case 0, 1, 2: // a good frame, perhaps changed at its end, with other lengths
				g := append([]byte(nil), good[s.kind][r.Rand.Intn(len(good[s.kind]))]...)
				switch r.Rand.Intn(4) {
				case 0:
					g[len(g)-1-r.Rand.Intn(len(g)/2)] ^= byte(1 + r.Rand.Intn(255))
				case 1:
					g = append(g, blob(r.Rand, 60)...)
				case 2:
					g = blob(r.Rand, 40)
				}
				if s.kind == "metadata" && len(g) >= 4 {
					g[3] &= 0x5f // a checksum of at most 20 bytes
				}
				s.write(b, g)
			case 3:
				var h holes.Holes
				for n := r.Rand.Intn(5); n > 0; n-- {
					h = append(h, holes.Hole{Start: r.Rand.Intn(70000), End: r.Rand.Intn(1 << 31)})
				}
				s.list(1+r.Rand.Intn(2), h)
			case 4, 5:
				s.dec(o, b)
			case 6:
				if s.kind == "status" {
					b = 1 + r.Rand.Intn(2)
				}
				s.mk(o, b)
			case 7:
				if len(s.bufs) < 8 {
					s.enc(o)
				}
			case 8:
				if len(s.pkts) < 6 {
					s.val(o)
				}
			}
		}
	}
}
