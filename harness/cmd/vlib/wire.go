package main

import (
	"encoding/binary"
	"encoding/json"
	"math/rand"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/timestamp"
)

func init() {
	for _, ft := range []string{"data", "status", "request", "metadata", "beacon"} {
		ft := ft
		drivers["wire-"+ft] = func(r *rec.Rec) { driveWire(r, ft) }
	}
}

// blist is a byte string as it appears in JSON
type blist []int

func (b blist) bytes() []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[i] = byte(b[i])
	}
	return o
}
func (b blist) u64() uint64 { return binary.BigEndian.Uint64(b.bytes()) }
func (b blist) u32() uint32 { return binary.BigEndian.Uint32(b.bytes()) }

// fr is a frame of any kind, as in the specification
type fr struct {
	Hdr, Session, Ts, Off, Pay, Prog, Inr, Fname, Auth, Csum, Dhdr, Size, Mtime, Ctime, Path, Fs, Eid blist
	Holes                                                                                             [][2]blist
}

type codec interface {
	New(flags string, info interface{}) error
	Make(header uint32, info interface{}) error
	Decode(frame []byte) error
}

func fresh(ft string) codec {
	switch ft {
	case "data":
		return new(data.Data)
	case "status":
		return new(status.Status)
	case "request":
		return new(request.Request)
	case "metadata":
		return new(metadata.MetaData)
	}
	return new(beacon.Beacon)
}

func encode(o codec) ([]byte, error) {
	switch x := o.(type) {
	case *data.Data:
		return x.Encode()
	case *status.Status:
		return x.Encode()
	case *request.Request:
		return x.Encode()
	case *metadata.MetaData:
		return x.Encode()
	case *beacon.Beacon:
		return x.Encode()
	}
	return nil, nil
}

func holesIn(h [][2]blist) holes.Holes {
	var l holes.Holes
	for _, x := range h {
		l = append(l, holes.Hole{Start: int(x[0].u64()), End: int(x[1].u64())})
	}
	return l
}
func holesOut(h holes.Holes) [][][]int {
	l := [][][]int{}
	for _, x := range h {
		l = append(l, [][]int{rec.B8(uint64(x.Start)), rec.B8(uint64(x.End))})
	}
	return l
}

func tsOf(b blist) timestamp.Timestamp {
	var t timestamp.Timestamp
	if len(b) == 16 {
		if err := t.Get(b.bytes()); err != nil {
			rec.Fatal("timestamp for a frame:", err)
		}
	}
	return t
}

// direct fills in the fields of an object
func direct(ft string, f fr) codec {
	switch ft {
	case "data":
		return &data.Data{Header: f.Hdr.u32(), Session: f.Session.u32(), Tstamp: tsOf(f.Ts), Offset: f.Off.u64(), Payload: f.Pay.bytes()}
	case "status":
		return &status.Status{Header: f.Hdr.u32(), Session: f.Session.u32(), Tstamp: tsOf(f.Ts), Progress: f.Prog.u64(),
			Inrespto: f.Inr.u64(), Holes: holesIn(f.Holes)}
	case "request":
		return &request.Request{Header: f.Hdr.u32(), Session: f.Session.u32(), Fname: string(f.Fname.bytes()), Auth: f.Auth.bytes()}
	case "metadata":
		m := &metadata.MetaData{Header: f.Hdr.u32(), Session: f.Session.u32(), Checksum: f.Csum.bytes()}
		m.Dir.Header = binary.BigEndian.Uint16(f.Dhdr.bytes())
		m.Dir.Size = f.Size.u64()
		m.Dir.Path = string(f.Path.bytes())
		epoch := int64(946684800)
		if err := m.Dir.Mtime.New("epoch2000_32", time.Unix(epoch+int64(f.Mtime.u32()), 0)); err != nil {
			rec.Fatal(err)
		}
		if err := m.Dir.Ctime.New("epoch2000_32", time.Unix(epoch+int64(f.Ctime.u32()), 0)); err != nil {
			rec.Fatal(err)
		}
		return m
	}
	return &beacon.Beacon{Header: f.Hdr.u32(), Freespace: f.Fs.u64(), Eid: string(f.Eid.bytes())}
}

var anyaddr = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9}

// val is the packet passed on in the program
func val(o codec) interface{} {
	switch x := o.(type) {
	case *data.Data:
		return x.Val(anyaddr)
	case *status.Status:
		return x.Val(anyaddr)
	case *request.Request:
		return x.Val(anyaddr)
	case *metadata.MetaData:
		return x.Val(anyaddr)
	case *beacon.Beacon:
		return x.Val(anyaddr)
	}
	return nil
}

// snap is what an object holds, through Val (the copy passed on in the program)
func snap(o codec) rec.M { return shown(val(o)) }

// shown is what a packet holds
func shown(v interface{}) rec.M {
	switch x := v.(type) {
	case data.Packet:
		d := x.Info
		return rec.M{"hdr": rec.B4(d.Header), "session": rec.B4(d.Session), "ts": rec.Bytes(d.Tstamp.Put()), "off": rec.B8(d.Offset), "pay": rec.Bytes(d.Payload)}
	case status.Packet:
		s := x.Info
		return rec.M{"hdr": rec.B4(s.Header), "session": rec.B4(s.Session), "ts": rec.Bytes(s.Tstamp.Put()), "prog": rec.B8(s.Progress),
			"inr": rec.B8(s.Inrespto), "holes": holesOut(s.Holes)}
	case request.Packet:
		r := x.Info
		return rec.M{"hdr": rec.B4(r.Header), "session": rec.B4(r.Session), "fname": rec.Bytes([]byte(r.Fname)), "auth": rec.Bytes(r.Auth)}
	case metadata.Packet:
		m := x.Info
		return rec.M{"hdr": rec.B4(m.Header), "session": rec.B4(m.Session), "csum": rec.Bytes(m.Checksum), "dhdr": rec.B2(m.Dir.Header),
			"size": rec.B8(m.Dir.Size), "mtime": rec.Bytes(m.Dir.Mtime.Put()[1:5]), "ctime": rec.Bytes(m.Dir.Ctime.Put()[1:5]),
			"path": rec.Bytes([]byte(m.Dir.Path))}
	case beacon.Packet:
		b := x.Info
		return rec.M{"hdr": rec.B4(b.Header), "fs": rec.B8(b.Freespace), "eid": rec.Bytes([]byte(b.Eid))}
	}
	return nil
}

func u64s(r *rand.Rand) uint64 {
	base := []uint64{0, 1, 255, 256, 0x7fff, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000,
		1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	switch r.Intn(3) {
	case 0:
		return base[r.Intn(len(base))]
	case 1:
		return r.Uint64() >> uint(r.Intn(64))
	}
	return uint64(r.Intn(70000))
}
func blob(r *rand.Rand, max int) []byte {
	n := r.Intn(max + 1)
	if r.Intn(3) == 0 {
		n = r.Intn(4)
	}
	b := make([]byte, n)
	r.Read(b)
	if r.Intn(3) == 0 {
		for i := range b {
			b[i] = byte("ab\x00\xc3\xa9/. \xff"[r.Intn(9)])
		}
	}
	return b
}
func nozero(b []byte) []byte {
	for i := range b {
		if b[i] == 0 {
			b[i] = 'z'
		}
	}
	return b
}

// info makes the rest of a frame: as passed to New and Make, and for the trace
func randInfo(r *rand.Rand, ft string) (interface{}, rec.M) {
	s := uint32(u64s(r))
	switch ft {
	case "data":
		o, p := u64s(r), blob(r, 60)
		if r.Intn(400) == 0 {
			p = blob(r, 9000)
		}
		return &data.Dinfo{Session: s, Offset: o, Payload: p}, rec.M{"session": rec.B4(s), "off": rec.B8(o), "pay": rec.Bytes(p)}
	case "status":
		p, i := u64s(r), u64s(r)
		var h holes.Holes
		n := r.Intn(4)
		if r.Intn(50) == 0 {
			n = r.Intn(120)
		}
		mask := []uint64{0xffff, 0xffffffff, 1<<63 - 1}[r.Intn(3)]
		for k := 0; k < n; k++ {
			h = append(h, holes.Hole{Start: int(u64s(r) & mask), End: int(u64s(r) & mask)})
		}
		if r.Intn(2) == 0 {
			p, i = p&mask, i&mask
		}
		return &status.Sinfo{Session: s, Progress: p, Inrespto: i, Holes: h},
			rec.M{"session": rec.B4(s), "prog": rec.B8(p), "inr": rec.B8(i), "holes": holesOut(h)}
	case "request":
		f, a := blob(r, 40), blob(r, 30)
		if r.Intn(8) != 0 {
			nozero(f)
		}
		return &request.Rinfo{Session: s, Fname: string(f), Auth: a}, rec.M{"session": rec.B4(s), "fname": rec.Bytes(f), "auth": rec.Bytes(a)}
	case "metadata":
		f := []string{"f0", "f1", "big", "edge", "d", "p", "gone", "n\xff\xc3", "f1"}[r.Intn(9)]
		return &metadata.Minfo{Session: s, Fname: f}, rec.M{"session": rec.B4(s), "fname": rec.Bytes([]byte(f)), "mayfail": true}
	}
	f, e := u64s(r), blob(r, 40)
	return &beacon.Binfo{Freespace: f, Eid: string(e)}, rec.M{"fs": rec.B8(f), "eid": rec.Bytes(e)}
}

type wire struct {
	r      *rec.Rec
	ft     string
	srv    *net.UDPConn
	free   *net.UDPConn
	conn   *net.UDPConn
	dirty  []byte // a frame that leaves every field of an object filled
	header []blist
}

func (w *wire) sockets() {
	var err error
	if w.srv, err = net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}); err != nil {
		rec.Fatal(err)
	}
	if w.free, err = net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}); err != nil {
		rec.Fatal(err)
	}
	if w.conn, err = net.DialUDP("udp4", nil, w.srv.LocalAddr().(*net.UDPAddr)); err != nil {
		rec.Fatal(err)
	}
}

func (w *wire) enc(o codec) []byte {
	m := rec.M{"e": "enc", "res": "ok"}
	var b []byte
	w.r.Call(m, func() {
		var err error
		b, err = encode(o)
		m["res"] = rec.Err(err)
		m["bytes"] = rec.Bytes(b)
		if err != nil {
			m["bytes"] = []int{}
			b = nil
		}
	})
	return b
}

// send it over the loopback and record the datagram that arrives
func (w *wire) send(o codec) {
	conn := w.free
	if w.r.Rand.Intn(2) == 0 || w.ft == "beacon" {
		conn = w.conn
	}
	to := w.srv.LocalAddr().(*net.UDPAddr)
	m := rec.M{"e": "send", "res": "ok", "connected": conn == w.conn}
	w.r.Call(m, func() {
		var err error
		switch x := o.(type) {
		case *data.Data:
			err = x.Send(conn, to)
		case *status.Status:
			err = x.Send(conn, to)
		case *request.Request:
			err = x.Send(conn, to)
		case *metadata.MetaData:
			err = x.Send(conn, to)
		case *beacon.Beacon:
			err = x.Send(conn)
		}
		m["res"] = rec.Err(err)
		m["bytes"] = []int{}
		if err == nil {
			buf := make([]byte, 70000)
			w.srv.SetReadDeadline(time.Now().Add(10 * time.Second))
			n, _, rerr := w.srv.ReadFromUDP(buf)
			if rerr == nil {
				m["bytes"] = rec.Bytes(buf[:n])
			}
		}
	})
}

func (w *wire) dec(b []byte) codec {
	m := rec.M{"e": "dec", "bytes": rec.Bytes(b), "res": "ok"}
	o := fresh(w.ft)
	w.r.Call(m, func() {
		m["res"] = rec.Err(o.Decode(append([]byte(nil), b...)))
		m["got"] = snap(o)
		d := fresh(w.ft)
		d.Decode(append([]byte(nil), w.dirty...))
		m["res2"] = rec.Err(d.Decode(append([]byte(nil), b...)))
		m["got2"] = snap(d)
	})
	if m["res"] != "ok" {
		return nil
	}
	return o
}

func (w *wire) begin() { w.r.Reset(rec.M{"ft": w.ft}) }

// after an object was built: encode, send, decode, damage
func (w *wire) rest(o codec, ok bool) {
	r := w.r.Rand
	if !ok {
		return
	}
	b := w.enc(o)
	if r.Intn(6) == 0 && len(b) < 60000 {
		w.send(o)
	}
	if b == nil {
		return
	}
	w.dec(b)
	if r.Intn(4) == 0 {
		w.damage(b)
	}
}

// decode b cut short, extended, changed
func (w *wire) damage(b []byte) {
	r := w.r.Rand
	for k := 0; k < 3; k++ {
		c := append([]byte(nil), b...)
		switch r.Intn(7) {
		case 5, 6: // a field that is all zeros, or all ones
			n := []int{1, 2, 4, 8}[r.Intn(4)]
			v := byte(-r.Intn(2))
			for i := r.Intn(len(c)); n > 0 && i < len(c); i, n = i+1, n-1 {
				c[i] = v
			}
		case 0:
			c = c[:r.Intn(len(c)+1)]
		case 1:
			n := len(c)
			if n > 34 {
				n = 34
			}
			c = c[:r.Intn(n+1)]
		case 2:
			c = append(c, blob(r, 20)...)
		case 3:
			c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
		case 4:
			c[r.Intn(4)] ^= 1 << uint(r.Intn(8))
			c = c[:r.Intn(len(c)+1)]
		}
		if o := w.dec(c); o != nil && r.Intn(2) == 0 {
			w.enc(o)
		}
	}
}

func (w *wire) build(flags [][]string, hdr *uint32) {
	r := w.r.Rand
	in, inm := randInfo(r, w.ft)
	m := rec.M{"info": inm, "res": "ok"}
	var text string
	if hdr == nil {
		var items []string
		for _, it := range flags {
			items = append(items, strings.Join(it, "="))
		}
		text = strings.Join(items, ",")
		if r.Intn(4) == 0 {
			text = strings.Replace(text, ",", " , ", 1)
			text = strings.Replace(text, "=", " =", 1)
		}
		m["e"] = "new"
		m["flags"] = flags
	} else {
		m["e"] = "make"
		m["hdr"] = rec.B4(*hdr)
	}
	w.begin()
	o := fresh(w.ft)
	m["old"] = rec.B4(0)
	if r.Intn(3) == 0 { // one that was used before
		o.Decode(append([]byte(nil), w.dirty...))
		m["old"] = snap(o)["hdr"]
	}
	m["t0"] = rec.B8(uint64(time.Now().Unix()))
	w.r.Call(m, func() {
		var err error
		if hdr == nil {
			err = o.New(text, in)
		} else {
			err = o.Make(*hdr, in)
		}
		m["res"] = rec.Err(err)
		m["got"] = snap(o)
		m["t1"] = rec.B8(uint64(time.Now().Unix()))
	})
	w.rest(o, m["res"] == "ok")
}

func driveWire(r *rec.Rec, ft string) {
	setup()
	w := &wire{r: r, ft: ft}
	w.sockets()
	// something for every field
	ones := func(n int) []byte { return []byte(strings.Repeat("\x5a", n)) }
	switch ft {
	case "data":
		w.dirty = append([]byte{0x23, 0x8f, 0x80, 0, 9, 9, 9, 9, 4}, ones(15+8+30)...)
	case "status":
		w.dirty = append([]byte{0x24, 0x8f, 0, 5, 9, 9, 9, 9, 4}, ones(15+16+64)...)
	case "request":
		w.dirty = append([]byte{0x21, 0xbf, 0x80, 3, 9, 9, 9, 9, 'n', 'a', 'm', 'e', 0}, ones(20)...)
	case "metadata":
		w.dirty = append(append(append([]byte{0x22, 0xbc, 0, 0x53, 9, 9, 9, 9}, ones(20)...), 0x83, 0x80), append(ones(16+40), 0)...)
	case "beacon":
		w.dirty = append([]byte{0x20, 0xbf, 0xe0, 0}, ones(8+20)...)
	}
	w.begin()
	w.dec(w.dirty)
	if ft == "metadata" {
		mk := func(n string, size int64) {
			if err := os.WriteFile(n, nil, 0644); err != nil {
				rec.Fatal(err)
			}
			if err := os.Truncate(n, size); err != nil {
				rec.Fatal(err)
			}
		}
		mk("f0", 0)
		mk("f1", 1)
		mk("n\xff\xc3", 10)
		mk("edge", 65535)
		mk("big", 70000)
		os.Mkdir("d", 0755)
		if err := syscall.Mkfifo("p", 0644); err != nil {
			rec.Fatal(err)
		}
	}
	var vocab [][]string
	scenarios(func(line string) {
		var s struct {
			Ft    string
			Flags [][]string
			Frame *fr
		}
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		if s.Frame != nil {
			w.begin()
			o := direct(ft, *s.Frame)
			r.Ev(rec.M{"e": "set", "res": "ok", "got": snap(o)})
			w.rest(o, true)
			return
		}
		if len(s.Flags) == 1 {
			vocab = append(vocab, s.Flags[0])
		}
		w.build(s.Flags, nil)
	})
	if len(vocab) == 0 {
		rec.Fatal("no flags")
	}
	for i := 0; i < 1500*r.Scale; i++ {
		switch i % 3 {
		case 0: // longer flag lists
			var fl [][]string
			for k := 0; k < 1+r.Rand.Intn(6); k++ {
				it := vocab[r.Rand.Intn(len(vocab))]
				if bad(ft, it) && r.Rand.Intn(8) != 0 {
					continue
				}
				fl = append(fl, it)
			}
			if len(fl) == 0 {
				fl = [][]string{{"descriptor", "d32"}}
			}
			w.build(fl, nil)
		case 1:
			h := r.Rand.Uint32()
			if ft == "metadata" && r.Rand.Intn(8) != 0 {
				h = h&^uint32(0xf) | uint32(r.Rand.Intn(4))
			}
			w.build(nil, &h)
		case 2: // any bytes
			w.begin()
			b := blob(r.Rand, 80)
			if len(b) >= 2 && r.Rand.Intn(4) != 0 {
				b[1] &= 0xbf // not d128
			}
			if len(b) >= 9 && (ft == "data" || ft == "status") && r.Rand.Intn(3) != 0 {
				b[8] = byte(r.Rand.Intn(7))
			}
			if len(b) >= 4 && ft == "metadata" {
				b[3] &= 0x1f
			}
			if o := w.dec(b); o != nil {
				w.enc(o)
			}
			for k := len(b); k >= 0 && k > len(b)-40 && i%15 == 2; k-- { // every length
				w.dec(b[:k])
			}
		}
	}
	if ft == "metadata" || ft == "request" { // very long names
		for _, n := range []int{1023, 1024, 1025, 3000} {
			b := append([]byte{0x22, 0x80, 0, 0, 1, 2, 3, 4, 0x80, 0x80, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 1, 0, 0, 0, 2}, []byte(strings.Repeat("n", n))...)
			b = append(b, 0)
			w.begin()
			if o := w.dec(b); o != nil {
				w.enc(o)
			}
		}
	}
}

func bad(ft string, it []string) bool {
	return len(it) != 2 || fresh(ft).New(strings.Join(it, "="), func() interface{} { i, _ := randInfo(rand.New(rand.NewSource(1)), ft); return i }()) != nil
}
