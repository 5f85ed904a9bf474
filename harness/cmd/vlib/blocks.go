package main

import (
	"bytes"
	"encoding/json"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/fileio"
)

func init() { drivers["blocks"] = driveBlocks }

var blockFiles = []string{"a", "b.dat", "c d"}

type blockRun struct {
	r       *rec.Rec
	handles map[int]*os.File
	closed  map[int]bool
	offs    map[uint64]bool
	next    int
	last    uint64
	dead    map[int]bool // handles not used any more
	// Every byte of the specification is a cell of unit equal bytes of the
	// real file, so that blocks can be large
	unit int
}

func (b *blockRun) expand(d []byte) []byte {
	if b.unit == 1 {
		return d
	}
	o := make([]byte, 0, len(d)*b.unit)
	for _, x := range d {
		o = append(o, bytes.Repeat([]byte{x}, b.unit)...)
	}
	return o
}

// shrink is the cells of d; 999 is not one
func (b *blockRun) shrink(d []byte) []int {
	o := make([]int, 0, len(d)/b.unit+1)
	for i := 0; i < len(d); i += b.unit {
		if i+b.unit > len(d) || !bytes.Equal(d[i:i+b.unit], bytes.Repeat(d[i:i+1], b.unit)) {
			o = append(o, 999)
		} else {
			o = append(o, int(d[i]))
		}
	}
	return o
}

func (b *blockRun) cells(n int64) uint64 {
	if n%int64(b.unit) != 0 {
		return 1<<64 - 1
	}
	return uint64(n / int64(b.unit))
}

func (b *blockRun) begin() { b.beginUnit(1) }

func (b *blockRun) beginUnit(unit int) {
	b.unit = unit
	b.dead = map[int]bool{}
	for _, h := range b.handles {
		if h != nil {
			h.Close()
		}
	}
	for _, f := range blockFiles {
		os.Remove(filepath.Join(*dir, f))
	}
	b.handles = map[int]*os.File{0: nil}
	b.closed = map[int]bool{}
	b.offs = map[uint64]bool{0: true}
	b.next = 1
	b.r.Reset(rec.M{"names": blockFiles})
}

// disk looks at the files without the code under test
func (b *blockRun) disk(near map[uint64]bool) rec.M {
	m := rec.M{}
	var offs []uint64
	for o := range near {
		offs = append(offs, o)
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
	for _, f := range blockFiles {
		fp, err := os.Open(filepath.Join(*dir, f))
		if err != nil {
			continue
		}
		st, err := fp.Stat()
		if err != nil {
			rec.Fatal(err)
		}
		wins := []rec.M{}
		last := int64(-1)
		for _, o := range offs {
			if o > math.MaxInt64-64 || int64(o) > st.Size()/int64(b.unit) || int64(o) < last {
				continue
			}
			from := int64(o) - 3
			if from < 0 {
				from = 0
			}
			if from < last {
				from = last
			}
			buf := make([]byte, 24*b.unit)
			n, err := fp.ReadAt(buf, from*int64(b.unit))
			if err != nil && err != io.EOF {
				rec.Fatal(err)
			}
			last = from + 24
			wins = append(wins, rec.M{"off": rec.B8(uint64(from)), "n": 24, "data": b.shrink(buf[:n])})
		}
		m[f] = rec.M{"size": rec.B8(b.cells(st.Size())), "wins": wins}
		fp.Close()
	}
	return m
}

// look at everything
func (b *blockRun) look() {
	b.r.Ev(rec.M{"e": "look", "disk": b.disk(b.offs)})
}

func (b *blockRun) call(m rec.M, f func() error) {
	near := map[uint64]bool{}
	if m["e"] == "write" {
		near[b.last] = true
	}
	m["res"] = "ok"
	b.r.CallQ(m, func() { m["res"] = rec.Err(f()) })
	m["disk"] = b.disk(near)
	b.r.Ev(m)
}

func (b *blockRun) open(f, how string) int {
	h := b.next
	b.next++
	tt := map[string]string{"new": "get", "old": "put"}[how]
	if b.r.Rand.Intn(2) == 0 {
		tt = map[string]string{"new": "take", "old": "give"}[how]
	}
	b.call(rec.M{"e": "open", "h": h, "file": f, "how": how}, func() error {
		fp, err := fileio.FileOpen(f, tt)
		if err == nil {
			b.handles[h] = fp
		}
		return err
	})
	return h
}

func (b *blockRun) write(h int, off uint64, data []byte) {
	b.offs[off] = true
	b.last = off
	m := rec.M{"e": "write", "h": h, "off": rec.B8(off), "data": rec.Bytes(data)}
	b.call(m, func() error {
		n, err := fileio.FileWrite(b.handles[h], off*uint64(b.unit), b.expand(data))
		m["n"] = -1
		if n%b.unit == 0 {
			m["n"] = n / b.unit
		}
		return err
	})
}

func (b *blockRun) read(h int, off uint64, n int) {
	m := rec.M{"e": "read", "h": h, "off": rec.B8(off), "n": n, "out": []int{}}
	b.call(m, func() error {
		buf, err := fileio.FileRead(b.handles[h], off*uint64(b.unit), n*b.unit)
		m["out"] = b.shrink(buf)
		return err
	})
}

func (b *blockRun) close(h int) {
	b.closed[h] = true
	b.call(rec.M{"e": "close", "h": h}, func() error { return fileio.FileClose(b.handles[h]) })
}

func (b *blockRun) delete(h int) {
	// deleting by the handle of a file already closed or removed and made
	// anew says nothing
	if fp := b.handles[h]; h != 0 {
		if b.closed[h] || fp == nil {
			return
		}
		mine, e1 := fp.Stat()
		disk, e2 := os.Stat(fp.Name())
		if e1 != nil || e2 == nil && !os.SameFile(mine, disk) {
			return
		}
		b.dead[h] = e2 != nil // it is gone already
	}
	b.closed[h] = true
	b.call(rec.M{"e": "delete", "h": h}, func() error { return fileio.FileDelete(b.handles[h]) })
}

func (b *blockRun) remove(f string) {
	b.call(rec.M{"e": "remove", "file": f}, func() error { return fileio.FileRm(f) })
}

func driveBlocks(r *rec.Rec) {
	setup()
	b := &blockRun{r: r}
	payload := func(n int) []byte {
		d := make([]byte, n)
		for i := range d {
			d[i] = byte(1 + r.Rand.Intn(255))
		}
		return d
	}
	scenarios(func(line string) {
		var s [][]interface{}
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		b.begin()
		h := 0
		for _, x := range s {
			switch x[0].(string) {
			case "create":
				h = b.open("a", "new")
			case "open":
				h = b.open("a", "old")
			case "write":
				b.write(h, uint64(x[1].(float64)), payload(int(x[2].(float64))))
			case "close":
				b.close(h)
			case "delete":
				b.delete(h)
			}
		}
		b.read(h, uint64(r.Rand.Intn(5)), 1+r.Rand.Intn(5))
		b.read(h, 0, 4)
		b.look()
	})
	far := []uint64{1 << 20, 1<<31 - 2, 1 << 31, 1<<32 - 3, 1 << 32, 1<<32 + 7, 1 << 36, math.MaxInt64, math.MaxInt64 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 7}
	off := func(i int) uint64 {
		if b.unit > 1 {
			return uint64(r.Rand.Intn(8))
		}
		if i%3 == 0 && r.Rand.Intn(3) == 0 {
			return far[r.Rand.Intn(len(far))]
		}
		if i%5 == 0 {
			return uint64(r.Rand.Intn(5)) * 4096
		}
		return uint64(r.Rand.Intn(30))
	}
	units := []int{4096, 65536, 70001, 262144}
	for i := 0; i < 160*r.Scale; i++ {
		b.begin()
		if i%16 == 15 {
			b.beginUnit(units[i/16%4])
		}
		var hs []int
		hs = append(hs, 0, b.open(blockFiles[r.Rand.Intn(3)], "new"))
		for k := 0; k < 8+r.Rand.Intn(22); k++ {
			h := hs[len(hs)-1]
			if r.Rand.Intn(4) == 0 {
				h = hs[r.Rand.Intn(len(hs))]
			}
			if b.dead[h] {
				continue
			}
			switch x := r.Rand.Intn(20); {
			case x < 9:
				b.write(h, off(i), payload(r.Rand.Intn(9)))
			case x < 15:
				b.read(h, off(i), r.Rand.Intn(12))
			case x == 15:
				b.close(h)
			case x == 16:
				b.delete(h)
			case x == 17:
				hs = append(hs, b.open(blockFiles[r.Rand.Intn(3)], "old"))
			case x == 18:
				hs = append(hs, b.open(blockFiles[r.Rand.Intn(3)], "new"))
			case x == 19 && r.Rand.Intn(2) == 0:
				b.remove(blockFiles[r.Rand.Intn(3)])
				if r.Rand.Intn(2) == 0 {
					b.delete(h)
				}
			}
			if k == 12 {
				b.look()
			}
		}
		b.look()
	}
}
