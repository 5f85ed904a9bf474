package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"reflect"
	"strings"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
)

func init() { drivers["status"] = driveStatus }

// report is one status to be reported
type report struct {
	flags      string
	mtu        int
	session    uint32
	prog, inr  uint64
	fills      holes.Holes
	connection int
}

func driveStatus(r *rec.Rec) {
	setup()
	startGui()
	type end struct {
		peer *net.UDPConn // where the status goes to
		conn *net.UDPConn // the connection of the transfer
	}
	var ends []end
	for _, a := range []string{"127.0.0.1", "::1"} {
		p, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(a)})
		if err != nil {
			rec.Fatal(err)
		}
		p.SetReadBuffer(8 << 20)
		c, err := net.DialUDP("udp", nil, p.LocalAddr().(*net.UDPAddr))
		if err != nil {
			rec.Fatal(err)
		}
		ends = append(ends, end{p, c})
	}
	marker := "END"
	turn := 0
	do := func(x report) {
		e := ends[x.connection%len(ends)]
		items := [][]string{}
		for _, f := range strings.Split(strings.ReplaceAll(x.flags, " ", ""), ",") {
			items = append(items, strings.Split(f, "="))
		}
		fl := [][][]int{}
		for _, f := range x.fills {
			fl = append(fl, [][]int{rec.B8(uint64(f.Start)), rec.B8(uint64(f.End))})
		}
		if turn++; turn%50 == 0 {
			tidyGui()
		}
		if turn%10 == 0 {
			r.Reset(nil)
		}
		sarflags.MtuSet(x.mtu)
		m := rec.M{"e": "status", "res": "ok", "flags": x.flags, "items": items, "mtu": x.mtu, "session": rec.B4(x.session),
			"prog": rec.B8(x.prog), "inr": rec.B8(x.inr), "fills": fl, "frames": [][]int{}, "code": "", "kept": true}
		r.Call(m, func() {
			got := make(chan [][]int)
			go func() {
				l := [][]int{}
				buf := make([]byte, 70000)
				for {
					e.peer.SetReadDeadline(time.Now().Add(20 * time.Second))
					n, err := e.peer.Read(buf)
					if err != nil {
						rec.Fatal("reading the status frames: ", err)
					}
					if string(buf[:n]) == marker {
						break
					}
					l = append(l, rec.Bytes(buf[:n]))
				}
				got <- l
			}()
			t := &sarwin.Transfer{Direction: sarwin.Responder, Session: x.session, Conn: e.conn, Peer: e.peer.LocalAddr().(*net.UDPAddr),
				Ttype: "put", Progress: x.prog, Inrespto: x.inr, Curfills: append(holes.Holes{}, x.fills...)}
			defer func() {
				e.conn.Write([]byte(marker))
				m["frames"] = <-got
				m["kept"] = t.Session == x.session && t.Progress == x.prog && t.Inrespto == x.inr &&
					(len(x.fills) == 0 && len(t.Curfills) == 0 || reflect.DeepEqual(t.Curfills, x.fills))
			}()
			m["code"] = t.WriteStatus(gui, x.flags)
		})
	}
	r.Reset(nil)
	mk := func(n int, from, gap, size int) holes.Holes { // n holes
		var f holes.Holes
		at := from
		for i := 0; i < n; i++ {
			at += gap
			f = append(f, holes.Hole{Start: at, End: at + size})
			at += size
		}
		return f
	}
	width := func(d string) int { return map[string]int{"": 2, "d16": 2, "d32": 4, "d64": 8}[d] }
	// a list of flags and how much room there must be for mx holes
	mtuFor := func(desc string, ts bool, mx, spare int) int {
		w := width(desc)
		m := 68 + 8 + 2*w*(mx+1)
		if ts {
			m += 16
		}
		if spare == 1 {
			m += 2*w - 1
		}
		return m
	}
	n := 0
	scenarios(func(line string) {
		var c struct {
			Desc, Ts, Err, All string
			Mx, Spare, N       int
		}
		if err := json.Unmarshal([]byte(line), &c); err != nil {
			rec.Fatal(err)
		}
		n++
		var fl []string
		add := func(k, v string) {
			if v != "" {
				fl = append(fl, k+v)
			}
		}
		add("descriptor=", c.Desc)
		add("errcode=", c.Err)
		add("", c.Ts)
		add("allholes=", c.All)
		add("metadatarecvd=", []string{"", "yes", "no"}[n%3])
		add("reqholes=", []string{"", "requested", "voluntarily"}[n/3%3])
		if len(fl) == 0 {
			fl = []string{"metadatarecvd=yes"}
		}
		fl = append(fl[n%len(fl):], fl[:n%len(fl)]...)
		x := report{flags: strings.Join(fl, ","), mtu: mtuFor(c.Desc, c.Ts == "reqtstamp=yes" || c.Ts == "posix64_32", c.Mx, c.Spare),
			session: uint32(n) * 2654435761, prog: uint64(n % 65536), inr: uint64(n * 7 % 65536), connection: n}
		x.fills = mk(c.N, 0, 1+n%5, 1+n%3)
		if c.N == 0 && n%2 == 0 {
			x.fills = holes.Holes{{Start: 0, End: 100 + n}}
		} else if n%4 == 1 { // not from the start
			x.fills = append(holes.Holes{{Start: 0, End: 2}}, mk(c.N, 2, 1+n%5, 1+n%3)...)
		}
		do(x)
	})
	errs := []string{"success", "success", "success", "", "unspecified", "cantsend", "cantreceive", "filenotfound", "accessdenied", "unknownid", "didnotdelete", "filetobig", "badoffset", "badpacket", "badrequest", "internaltimeout", "baddataflag", "rxnotinterested", "fileinuse", "metadatarequired", "badstatus", "nosucherr"}
	for i := 0; i < 400*r.Scale; i++ {
		var fl []string
		desc := []string{"", "d16", "d32", "d64", "d64", "d128", "d8"}[r.Rand.Intn(7)]
		if desc == "d8" && r.Rand.Intn(3) > 0 {
			desc = "d32"
		}
		if desc != "" {
			fl = append(fl, "descriptor="+desc)
		}
		if e := errs[r.Rand.Intn(len(errs))]; e != "" {
			fl = append(fl, "errcode="+e)
		}
		ts := []string{"", "", "reqtstamp=yes", "reqtstamp=no", "posix32", "posix64", "posix32_32", "posix64_32", "localinterp"}[r.Rand.Intn(9)]
		if ts != "" {
			fl = append(fl, ts)
		}
		for _, f := range [][]string{{"metadatarecvd=yes", "metadatarecvd=no"}, {"allholes=yes", "allholes=no"}, {"reqholes=requested", "reqholes=voluntarily"}} {
			if r.Rand.Intn(2) == 0 {
				fl = append(fl, f[r.Rand.Intn(2)])
			}
		}
		if r.Rand.Intn(25) == 0 {
			fl = append(fl, []string{"nosuch=yes", "metadatarecvd=maybe", "metadatarecvd", "eod=yes"}[r.Rand.Intn(4)])
		}
		r.Rand.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
		if len(fl) == 0 {
			continue
		}
		x := report{flags: strings.Join(fl, []string{",", ",", ", "}[r.Rand.Intn(3)]), session: r.Rand.Uint32(), connection: r.Rand.Intn(2)}
		x.mtu = []int{70 + r.Rand.Intn(60), 100 + r.Rand.Intn(400), 576, 1280, 1500, 1500, 9000, 60000}[r.Rand.Intn(8)]
		top := []uint64{300, 65535, 65536, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64}[r.Rand.Intn(6)]
		if desc == "d64" {
			top = math.MaxInt64
		}
		if r.Rand.Intn(4) > 0 { // mostly what fits
			switch desc {
			case "", "d16":
				top = 65535
			case "d32":
				top = math.MaxUint32
			}
		}
		x.prog, x.inr = r.Rand.Uint64()%(top+1), r.Rand.Uint64()%(top+1)
		// the number of holes around multiples of what fits
		ts16 := ts != "" && ts != "reqtstamp=no"
		w := 2 * width(desc)
		if w == 0 {
			w = 4
		}
		mx := (x.mtu - 76 - w) / w
		if ts16 {
			mx = (x.mtu - 92 - w) / w
		}
		nh := r.Rand.Intn(12)
		if mx >= 1 && mx < 400 && r.Rand.Intn(3) > 0 {
			nh = mx*(1+r.Rand.Intn(3)) + r.Rand.Intn(3) - 1
		}
		if nh > 900 {
			nh = 900
		}
		room := int(top)
		at := 0
		if r.Rand.Intn(3) == 0 {
			at = 1 + r.Rand.Intn(5)
			x.fills = append(x.fills, holes.Hole{Start: 0, End: at})
		}
		step := room/(nh+1)/2 - 1
		for k := 0; k < nh && step > 0; k++ {
			at += 1 + r.Rand.Intn(step)
			e := at + 1 + r.Rand.Intn(step)
			x.fills = append(x.fills, holes.Hole{Start: at, End: e})
			at = e
		}
		do(x)
	}
	// every number of holes around the borders, at sizes that are used
	for _, mtu := range []int{576, 1280, 1500, 9000} {
		for _, desc := range []string{"d16", "d32", "d64"} {
			for _, ts := range []string{"", ",posix32"} {
				h := 76
				if ts != "" {
					h += 16
				}
				mx := (mtu - h - 2*width(desc)) / (2 * width(desc))
				for _, nh := range []int{mx - 1, mx, mx + 1, 2 * mx, 2*mx + 1} {
					if nh > 1200 {
						continue
					}
					do(report{flags: fmt.Sprintf("descriptor=%s,errcode=success%s", desc, ts), mtu: mtu, session: 9, prog: 1, inr: 2, fills: mk(nh, 0, 3, 4), connection: nh})
				}
			}
		}
	}
}
