package main

import (
	"encoding/binary"
	"encoding/json"
	"math/rand"
	"sort"
	"strings"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/timestamp"
)

func init() {
	drivers["time"] = driveTime
	drivers["bits"] = driveBits
	drivers["lists"] = driveLists
}

var timetypes = []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}

const plain, milli = "Mon Jan _2 15:04:05 2006 UTC", "Mon Jan _2 15:04:05.000 2006 UTC"

// seen records all that can be seen of a timestamp
func seen(m rec.M, t *timestamp.Timestamp) {
	m["put"] = rec.Bytes(t.Put())
	m["secs"] = rec.B8(t.Secs())
	s := t.Print()
	m["text"] = rec.Bytes([]byte(s))
	m["parsed"], m["psec"], m["pms"] = false, rec.B8(0), 0
	for _, lay := range []string{plain, milli} {
		if p, err := time.Parse(lay, s); err == nil && p.Format(lay) == s {
			m["parsed"], m["psec"], m["pms"] = true, rec.B8(uint64(p.Unix())), p.Nanosecond()/1000000
			break
		}
	}
}

func driveTime(r *rec.Rec) {
	setup()
	var t *timestamp.Timestamp
	begin := func() { r.Reset(nil); t = new(timestamp.Timestamp) }
	echo := func() {
		m := rec.M{"e": "echo", "res": "ok"}
		r.Call(m, func() {
			before := t.Print()
			u := new(timestamp.Timestamp)
			if err := u.Get(t.Put()); err != nil {
				m["res"] = "err"
			}
			seen(m, u)
			m["same"] = u.Print() == before
		})
	}
	stamp := func(ty string, sec int64, nsec int64) {
		m := rec.M{"e": "new", "type": strings.Replace(ty, " ", "", -1), "sec": rec.B8(uint64(sec)), "nsec": rec.B4(uint32(nsec)), "res": "ok"}
		r.Call(m, func() {
			tm := time.Unix(sec, nsec)
			if r.Rand.Intn(2) == 0 {
				tm = tm.In(time.FixedZone("x", 3600*(r.Rand.Intn(25)-12)))
			}
			m["res"] = rec.Err(t.New(ty, tm))
			seen(m, t)
		})
		if m["res"] == "ok" {
			echo()
		} else {
			t = new(timestamp.Timestamp)
		}
	}
	get := func(b []byte) {
		m := rec.M{"e": "get", "bytes": rec.Bytes(b), "res": "ok"}
		r.Call(m, func() {
			m["res"] = rec.Err(t.Get(append([]byte(nil), b...)))
			seen(m, t)
		})
		if m["res"] == "ok" {
			echo()
		} else {
			t = new(timestamp.Timestamp)
		}
	}
	scenarios(func(line string) {
		var s [][3]json.RawMessage
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		begin()
		for _, x := range s {
			var ty string
			var sec, ns blist
			json.Unmarshal(x[0], &ty)
			json.Unmarshal(x[1], &sec)
			json.Unmarshal(x[2], &ns)
			// used before for something else
			stamp(timetypes[r.Rand.Intn(6)], int64(r.Rand.Uint32()), int64(r.Rand.Intn(1000000000)))
			stamp(ty, int64(sec.u64()), int64(ns.u32()))
		}
	})
	rsec := func() int64 {
		switch r.Rand.Intn(4) {
		case 0:
			return int64(r.Rand.Uint32())
		case 1:
			return int64(r.Rand.Uint64() >> uint(1+r.Rand.Intn(63)))
		case 2:
			return -int64(r.Rand.Uint64() >> uint(1+r.Rand.Intn(63)))
		}
		b := []int64{0, -1, 1<<32 - 1, 1 << 32, 946684800, 946684799, 946684800 + 1<<32 - 1, 946684800 + 1<<32, 9223372036, 9223372037, 253402300799}
		return b[r.Rand.Intn(len(b))] + int64(r.Rand.Intn(3)) - 1
	}
	for i := 0; i < 700*r.Scale; i++ {
		begin()
		for k := 0; k < 5; k++ {
			switch r.Rand.Intn(5) {
			case 0, 1:
				ty := timetypes[r.Rand.Intn(6)]
				if r.Rand.Intn(12) == 0 {
					ty = []string{"", "posix", "posix16", "POSIX32", "epoch2000", " posix32 ", "posix32,posix64"}[r.Rand.Intn(7)]
				}
				stamp(ty, rsec(), int64(r.Rand.Intn(1000000000)))
			case 2:
				// the event is written after the clock was read again
				m := rec.M{"e": "now", "res": "ok", "t0": rec.B8(uint64(time.Now().Unix()))}
				ty := timetypes[r.Rand.Intn(6)]
				if r.Rand.Intn(12) == 0 {
					ty = "bogus"
				}
				m["type"] = ty
				r.CallQ(m, func() {
					m["res"] = rec.Err(t.Now(ty))
					seen(m, t)
				})
				m["t1"] = rec.B8(uint64(time.Now().Unix()))
				r.Ev(m)
				if m["res"] != "ok" {
					t = new(timestamp.Timestamp)
				}
			default:
				b := make([]byte, 16)
				r.Rand.Read(b)
				b[0] = byte(r.Rand.Intn(7))
				if r.Rand.Intn(15) == 0 {
					b[0] = byte(r.Rand.Intn(256))
				}
				if r.Rand.Intn(3) == 0 {
					binary.BigEndian.PutUint64(b[1:], uint64(rsec()))
				}
				if r.Rand.Intn(3) == 0 { // fields that are all zeros, or all ones
					from, v := []int{1, 5, 9}[r.Rand.Intn(3)], byte(-r.Rand.Intn(2))
					for i := from; i < from+4 || v == 0 && i < 13 && r.Rand.Intn(3) != 0; i++ {
						b[i] = v
					}
				}
				if r.Rand.Intn(2) == 0 {
					b[5] &= 0x1f
					b[9] &= 0x1f
				}
				if r.Rand.Intn(3) == 0 {
					copy(b[1:], "local \x00t")
				}
				n := 16
				if r.Rand.Intn(2) == 0 {
					n = r.Rand.Intn(21)
				}
				for len(b) < n {
					b = append(b, 7)
				}
				get(b[:n])
			}
		}
	}
}

// ---------------------------------------------------------------- headers

var allFields = []string{"version", "frametype", "descriptor", "stream", "transfer", "reqtstamp", "progress", "txwilling", "rxwilling",
	"metadatarecvd", "reliability", "allholes", "reqholes", "reqstatus", "udplite", "eod", "freespace", "freespaced", "csumlen",
	"csumtype", "reqtype", "errcode", "bogus", ""}
var allDir = []string{"sod", "property", "descriptor", "reserved", "bogus", ""}

// fields that do not overlap each other
var groups = [][]string{
	{"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace", "freespaced"},
	{"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "udplite", "reqtype"},
	{"version", "frametype", "descriptor", "transfer", "progress", "reliability", "csumlen", "csumtype"},
	{"version", "frametype", "descriptor", "transfer", "reqtstamp", "reqstatus", "eod"},
	{"version", "frametype", "descriptor", "reqtstamp", "metadatarecvd", "allholes", "reqholes", "errcode"}}
var allOpts = []string{"yes", "no", "d16", "d32", "d64", "d128", "v0", "v1", "beacon", "request", "metadata", "data", "status", "file",
	"directory", "bundle", "stream", "inprogress", "terminated", "invalid", "capable", "udponly", "udplite", "requested", "voluntarily",
	"none", "crc32", "md5", "sha1", "invalid2", "invalid3", "noaction", "get", "put", "take", "give", "delete", "getdir", "success",
	"unspecified", "cantsend", "cantreceive", "filenotfound", "accessdenied", "unknownid", "didnotdelete", "filetobig", "badoffset",
	"badpacket", "badrequest", "internaltimeout", "baddataflag", "rxnotinterested", "fileinuse", "metadatarequired", "badstatus",
	"rxtimeout", "bogus", "", "sod", "reserved", "normalfile", "normaldirectory", "specialfile", "specialdirectory", "localinterp",
	"posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}

type bits struct {
	r *rec.Rec
	h uint32
	d uint16
	t uint8
}

func (b *bits) begin() {
	b.h, b.d, b.t = b.r.Rand.Uint32(), uint16(b.r.Rand.Uint32()), uint8(b.r.Rand.Uint32())
	switch b.r.Rand.Intn(4) {
	case 0:
		b.h, b.d, b.t = 0, 0, 0
	case 1:
		b.h, b.d, b.t = 0xffffffff, 0xffff, 0xff
	}
	b.r.Reset(rec.M{"h": rec.B4(b.h), "d": rec.B2(b.d), "t": []int{int(b.t)}, "list": []int{}})
}
func (b *bits) set(tab, f, o string) {
	m := rec.M{"e": "set", "tab": tab, "field": f, "opt": o, "res": "ok"}
	b.r.Call(m, func() {
		var err error
		switch tab {
		case "f":
			b.h, err = sarflags.Set(b.h, f, o)
			m["out"] = rec.B4(b.h)
		case "d":
			b.d, err = sarflags.SetD(b.d, f, o)
			m["out"] = rec.B2(b.d)
		case "t":
			b.t, err = sarflags.SetT(b.t, o)
			m["out"] = []int{int(b.t)}
		}
		m["res"] = rec.Err(err)
	})
}
func (b *bits) read(tab, f string) {
	m := rec.M{"e": "read", "tab": tab, "field": f, "res": "ok"}
	b.r.Call(m, func() {
		switch tab {
		case "f":
			m["get"], m["str"], m["name"] = sarflags.Get(b.h, f), sarflags.GetStr(b.h, f), sarflags.Name(b.h, f)
		case "d":
			m["get"], m["str"], m["name"] = sarflags.GetD(b.d, f), sarflags.GetDStr(b.d, f), sarflags.NameD(b.d, f)
		case "t":
			m["get"], m["str"], m["name"] = sarflags.GetT(b.t), sarflags.GetTStr(b.t), sarflags.NameT(b.t)
		}
	})
}
func (b *bits) ask(tab, f, o string) {
	m := rec.M{"e": "ask", "tab": tab, "field": f, "opt": o, "res": "ok"}
	b.r.Call(m, func() {
		switch tab {
		case "f":
			m["good"], m["valid"], m["test"] = sarflags.Good(f), sarflags.Valid(f, o), sarflags.Test(b.h, f, "", o)
			m["value"] = sarflags.Value(f, o)
		case "d":
			m["good"], m["valid"], m["test"] = sarflags.GoodD(f), sarflags.ValidD(f, o), sarflags.TestD(b.d, f, o)
		case "t":
			m["good"] = sarflags.GoodT(o)
		}
	})
}
func (b *bits) readall() {
	for _, f := range allFields {
		b.read("f", f)
	}
	for _, f := range allDir {
		b.read("d", f)
	}
	b.read("t", "")
}

func driveBits(r *rec.Rec) {
	setup()
	b := &bits{r: r}
	scenarios(func(line string) {
		var s struct {
			Kind string
			Ops  [][]string
		}
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		tab := "f"
		if s.Kind == "dirent" {
			tab = "d"
		}
		b.begin()
		for _, o := range s.Ops {
			b.set(tab, o[0], o[1])
			b.read(tab, o[0])
			b.ask(tab, o[0], o[1])
		}
		for _, o := range s.Ops {
			b.read(tab, o[0])
		}
	})
	pick := func(l []string) string { return l[r.Rand.Intn(len(l))] }
	// every field and option, on several headers
	for k := 0; k < 3*r.Scale; k++ {
		for _, tab := range []string{"f", "d", "t"} {
			fs := allFields
			if tab == "d" {
				fs = allDir
			}
			if tab == "t" {
				fs = []string{""}
			}
			for _, f := range fs {
				b.begin()
				for _, o := range allOpts {
					if k == 0 || r.Rand.Intn(5) == 0 {
						b.ask(tab, f, o)
						b.set(tab, f, o)
					}
				}
				b.readall()
			}
		}
		for v := 0; v < 256; v++ { // every value of a byte, named or not
			b.begin()
			b.h, b.d, b.t = uint32(v)*0x01010101, uint16(v)*0x101, uint8(v)
			r.Reset(rec.M{"h": rec.B4(b.h), "d": rec.B2(b.d), "t": []int{v}, "list": []int{}})
			b.readall()
		}
	}
	for k := 0; k < 200*r.Scale; k++ {
		b.begin()
		g := groups[r.Rand.Intn(len(groups))]
		for i := 0; i < 6; i++ {
			switch r.Rand.Intn(4) {
			case 0:
				b.set("f", pick(allFields), pick(allOpts))
			case 1:
				b.set("d", pick(allDir), pick(allOpts))
			case 2:
				b.set("t", "", pick(append([]string{"bogus"}, timetypes...)))
			case 3:
				fl := map[string]string{}
				for j := 0; j < 4; j++ {
					fl[pick(g)] = pick(allOpts)
				}
				// also some that are sure to be valid
				for j := 0; j < 3; j++ {
					f := pick(g)
					for try := 0; try < 200; try++ {
						if o := pick(allOpts); sarflags.Valid(f, o) {
							fl[f] = o
							break
						}
					}
				}
				var l [][]string
				for f, o := range fl {
					l = append(l, []string{f, o})
				}
				sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
				m := rec.M{"e": "setmany", "flags": l, "res": "ok"}
				r.Call(m, func() {
					b.h = sarflags.SetFlags(b.h, fl)
					m["out"] = rec.B4(b.h)
				})
			}
		}
		b.readall()
	}
}

// ------------------------------------------------------------------ lists

func items(s string) [][]string {
	l := [][]string{}
	if s == "" {
		return l
	}
	for _, x := range strings.Split(s, ",") {
		l = append(l, strings.Split(x, "="))
	}
	return l
}

func driveLists(r *rec.Rec) {
	setup()
	var list string
	begin := func(s string) {
		list = s
		r.Reset(rec.M{"h": rec.B4(0), "d": rec.B2(0), "t": []int{0}, "list": items(s)})
	}
	op := func(kind, tab, f, o string) {
		m := rec.M{"e": kind, "tab": tab, "field": f, "opt": o, "res": "ok"}
		r.Call(m, func() {
			switch {
			case kind == "add" && tab == "f":
				list = sarflags.AddFlag(list, f, o)
			case kind == "add":
				list = sarflags.AddFlagD(list, f, o)
			case kind == "replace" && tab == "f":
				list = sarflags.ReplaceFlag(list, f, o)
			case kind == "replace":
				list = sarflags.ReplaceFlagD(list, f, o)
			case kind == "value":
				m["out"] = sarflags.FlagValue(list, f)
				return
			}
			m["out"] = items(list)
		})
	}
	names := func(l [][]string) map[string]bool {
		m := map[string]bool{}
		for _, x := range l {
			m[x[0]] = true
		}
		return m
	}
	scenarios(func(line string) {
		var s struct {
			Kind string
			Ops  [][]string
		}
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		begin("")
		for _, o := range s.Ops {
			if o[0] == "add" && names(items(list))[o[1]] {
				continue // a name is added only once
			}
			op(o[0], "f", o[1], o[2])
		}
		op("value", "f", "descriptor", "")
		op("value", "f", "freespace", "")
	})
	pick := func(l []string) string { return l[r.Rand.Intn(len(l))] }
	extra := []string{"free", "space", "csum", "desc", "fileordir", "name", "d"}
	for k := 0; k < 500*r.Scale; k++ {
		var l []string
		have := map[string]bool{}
		for i := 0; i < r.Rand.Intn(7); i++ {
			n := pick(allFields[:22])
			if r.Rand.Intn(3) == 0 {
				n = pick(extra)
			}
			if !have[n] {
				have[n] = true
				l = append(l, n+"="+pick(allOpts[:60]))
			}
		}
		begin(strings.Join(l, ","))
		for i := 0; i < 6; i++ {
			tab := "f"
			f := pick(append(allFields[:22:22], "bogus"))
			if r.Rand.Intn(2) == 0 && len(l) > 0 {
				f = strings.Split(pick(l), "=")[0]
			}
			if r.Rand.Intn(5) == 0 {
				tab = "d"
				f = pick(allDir[:5])
			}
			o := pick(allOpts)
			if r.Rand.Intn(3) > 0 {
				o = validOpt(r.Rand, tab, f, o)
			}
			switch r.Rand.Intn(3) {
			case 0:
				if !names(items(list))[f] {
					op("add", tab, f, o)
				}
			case 1:
				op("replace", tab, f, o)
			}
			op("value", "f", f, "")
			op("value", "f", pick(allFields[:22]), "")
		}
	}
	base := map[string]string{}
	for g, v := range sarflags.Cliflag.Global {
		base[g] = v
	}
	for k := 0; k < 300*r.Scale; k++ {
		begin("")
		c, err := sarflags.Cliflag.CopyCliflags()
		if err != nil {
			rec.Fatal(err)
		}
		c.Global = map[string]string{}
		for g, v := range base {
			c.Global[g] = validOpt(r.Rand, "f", g, v)
		}
		if r.Rand.Intn(3) == 0 {
			delete(c.Global, pick([]string{"descriptor", "stream", "csumtype", "txwilling"}))
		}
		for _, ft := range []string{"beacon", "request", "metadata", "data", "status", "bogus"} {
			m := rec.M{"e": "global", "ft": ft, "settings": c.Global, "res": "ok"}
			r.Call(m, func() { m["out"] = items(sarflags.Setglobal(ft, c)) })
		}
	}
}

// validOpt is a valid option of f if there is one
func validOpt(r *rand.Rand, tab, f, def string) string {
	for i := 0; i < 300; i++ {
		o := allOpts[r.Intn(len(allOpts))]
		if tab == "f" && sarflags.Valid(f, o) || tab == "d" && sarflags.ValidD(f, o) {
			return o
		}
	}
	return def
}
