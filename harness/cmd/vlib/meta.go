package main

import (
	"crypto/md5"
	"crypto/sha1"
	"encoding/binary"
	"encoding/json"
	"hash/crc32"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/metadata"
)

func init() { drivers["meta"] = driveMeta }

// crc is CRC-32 (IEEE), bit by bit
func crc(b []byte) []byte {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x)
		for k := 0; k < 8; k++ {
			c = c>>1 ^ (0xedb88320 & -(c & 1))
		}
	}
	o := make([]byte, 4)
	binary.BigEndian.PutUint32(o, ^c)
	return o
}

type metaRun struct {
	r   *rec.Rec
	obj *metadata.MetaData
	big map[string]bool // too big for checksums
	on  map[string]bool
	lo  []int
}

func (w *metaRun) begin() {
	w.obj = new(metadata.MetaData)
	w.big = map[string]bool{}
	for n := range w.on {
		os.RemoveAll(filepath.Join(*dir, n))
	}
	w.on = map[string]bool{}
	w.r.Reset(nil)
}

// put makes the file at name anew and tells what it is
func (w *metaRun) put(name, kind string, data []byte, size int64, mtime int64) {
	p := filepath.Join(*dir, name)
	if st, err := os.Lstat(p); err == nil && !(kind == "file" && st.Mode().IsRegular()) {
		os.RemoveAll(p)
	}
	w.on[name] = true
	w.big[name] = false
	var err error
	switch kind {
	case "file":
		if err = os.WriteFile(p, data, 0644); err == nil && size > int64(len(data)) {
			err = os.Truncate(p, size)
			w.big[name] = size > 1<<20
			if !w.big[name] {
				data = append(append([]byte(nil), data...), make([]byte, size-int64(len(data)))...)
			}
		}
	case "dir":
		if err = os.Mkdir(p, 0755); err == nil && size > 0 {
			for i := int64(0); i < size; i++ {
				os.WriteFile(filepath.Join(p, strings.Repeat("x", int(1+i%200))), nil, 0644)
			}
		}
	case "fifo":
		err = syscall.Mkfifo(p, 0644)
	case "other":
		err = os.Symlink([]string{"nowhere", "target", "tdir"}[size%3], p)
	}
	if err == nil && kind != "other" {
		err = os.Chtimes(p, time.Unix(1000, 0), time.Unix(mtime, 123456789))
	}
	if err != nil {
		rec.Fatal(err)
	}
	var st syscall.Stat_t
	if err := syscall.Lstat(p, &st); err != nil {
		rec.Fatal(err)
	}
	m, s := md5.Sum(data), sha1.Sum(data)
	w.r.Ev(rec.M{"e": "put", "path": rec.Bytes([]byte(name)), "f": rec.M{"kind": kind, "size": rec.B8(uint64(st.Size)),
		"mtime": rec.B8(uint64(st.Mtim.Sec)), "ctime": rec.B8(uint64(st.Ctim.Sec)),
		"sums": rec.M{"crc32": rec.Bytes(crc(data)), "md5": rec.Bytes(m[:]), "sha1": rec.Bytes(s[:])}}})
}

// huge makes a large file with something at its ends
func (w *metaRun) huge(name string, size int64) {
	p := filepath.Join(*dir, name)
	f, err := os.Create(p)
	if err != nil {
		rec.Fatal(err)
	}
	if err = f.Truncate(size); err != nil {
		rec.Fatal(err)
	}
	for _, o := range []int64{0, 1 << 24, 1<<26 - 3, 1 << 27, size - 5} {
		if _, err = f.WriteAt([]byte("mark!"), o); err != nil {
			rec.Fatal(err)
		}
	}
	f.Seek(0, 0)
	c, m, s := crc32.NewIEEE(), md5.New(), sha1.New()
	if _, err = io.Copy(io.MultiWriter(c, m, s), f); err != nil {
		rec.Fatal(err)
	}
	f.Close()
	if err = os.Chtimes(p, time.Unix(1000, 0), time.Unix(1600000000, 0)); err != nil {
		rec.Fatal(err)
	}
	w.on[name] = true
	w.big[name] = false
	var st syscall.Stat_t
	if err := syscall.Lstat(p, &st); err != nil {
		rec.Fatal(err)
	}
	w.r.Ev(rec.M{"e": "put", "path": rec.Bytes([]byte(name)), "f": rec.M{"kind": "file", "size": rec.B8(uint64(st.Size)),
		"mtime": rec.B8(uint64(st.Mtim.Sec)), "ctime": rec.B8(uint64(st.Ctim.Sec)),
		"sums": rec.M{"crc32": rec.Bytes(c.Sum(nil)), "md5": rec.Bytes(m.Sum(nil)), "sha1": rec.Bytes(s.Sum(nil))}}})
}

func (w *metaRun) gone(name string) {
	os.RemoveAll(filepath.Join(*dir, name))
	delete(w.on, name)
	w.r.Ev(rec.M{"e": "gone", "path": rec.Bytes([]byte(name))})
}

func (w *metaRun) now() []int { return rec.B8(uint64(time.Now().Unix())) }

// ask describes name; with all flags given the object may have been used before
func (w *metaRun) ask(name, transfer, csum string, fresh, make bool) {
	r := w.r.Rand
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	if w.big[name] && csum != "none" {
		csum = "none"
	}
	if fresh {
		w.obj = new(metadata.MetaData)
	}
	s := uint32(u64s(r))
	m := rec.M{"e": "meta", "path": rec.Bytes([]byte(name)), "session": rec.B4(s), "res": "ok", "lo": w.now(), "hi": w.now()}
	flags := [][]string{{"descriptor", pick("d16", "d32", "d64")}, {"progress", pick("inprogress", "terminated")},
		{"reliability", pick("udponly", "udplite")}, {"transfer", transfer}, {"csumtype", csum}}
	r.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
	var text []string
	for _, f := range flags {
		text = append(text, strings.Join(f, "="))
	}
	var hdr uint32
	if make {
		m["how"] = "make"
		code := map[string]uint32{"file": 0, "directory": 1, "bundle": 2, "stream": 3}[transfer]
		ct, ok := map[string]uint32{"none": 0, "crc32": 1, "md5": 2, "sha1": 3}[csum]
		if !ok {
			ct = 4 + uint32(r.Intn(12))
		}
		hdr = r.Uint32()&0xffcc0000 | code<<20 | uint32(r.Intn(16))<<4 | ct
		m["hdr"] = rec.B4(hdr)
	} else {
		m["how"] = "new"
		m["flags"] = flags
	}
	o := w.obj
	w.r.Call(m, func() {
		info := &metadata.Minfo{Session: s, Fname: name}
		var err error
		if make {
			err = o.Make(hdr, info)
		} else {
			err = o.New(strings.Join(text, ","), info)
		}
		m["res"] = rec.Err(err)
		m["hi"] = w.now()
		m["got"] = snap(o)
		m["sent"] = []int{}
		if err == nil {
			b, _ := o.Encode()
			m["sent"] = rec.Bytes(b)
		}
	})
}

func (w *metaRun) sum(name, csum string) {
	if w.big[name] {
		return
	}
	m := rec.M{"e": "sum", "path": rec.Bytes([]byte(name)), "type": csum, "res": "ok"}
	w.r.Call(m, func() {
		b, err := fileio.Checksum(csum, name)
		m["res"], m["out"] = rec.Err(err), rec.Bytes(b)
	})
}

func (w *metaRun) stat(name string) {
	m := rec.M{"e": "stat", "path": rec.Bytes([]byte(name)), "res": "ok"}
	w.r.Call(m, func() {
		f, err := fileio.FileMeta(name)
		m["res"] = rec.Err(err)
		if err == nil {
			m["size"], m["mtime"] = rec.B8(uint64(f.Size)), rec.B8(uint64(f.ModTime.Unix()))
			m["isdir"], m["isfile"], m["ispipe"] = f.IsDir, f.IsRegular, f.IsNamedPipe
		}
	})
}

func driveMeta(r *rec.Rec) {
	setup()
	w := &metaRun{r: r}
	const y2k = 946684800
	if err := os.WriteFile("target", []byte("the target"), 0644); err != nil {
		rec.Fatal(err)
	}
	if err := os.Mkdir("tdir", 0755); err != nil {
		rec.Fatal(err)
	}
	content := func(n int) []byte { b := make([]byte, n); r.Rand.Read(b); return b }
	kinds := map[string]string{"f": "file", "d": "dir", "p": "fifo", "l": "other"}
	scenarios(func(line string) {
		var s [][]string
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		w.begin()
		for n, k := range kinds {
			z := int64(0)
			if k == "other" {
				z = int64(r.Rand.Intn(3))
			}
			w.put(n, k, content(r.Rand.Intn(40)), z, y2k+int64(r.Rand.Intn(1<<30)))
		}
		mk := r.Rand.Intn(2) == 0
		for _, x := range s {
			w.ask(x[0], x[1], x[2], false, mk)
			if r.Rand.Intn(3) == 0 {
				mk = !mk
			}
		}
	})
	sizes := []int64{0, 1, 2, 511, 512, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 1 << 20,
		1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40}
	times := []int64{0, 1, -1, y2k - 1, y2k, y2k + 1, 1 << 31, 1<<32 - 1, 1 << 32, y2k + 1<<32 - 1, y2k + 1<<32, 1700000000}
	names := []string{"f", "long-" + strings.Repeat("n", 240), "n\xff\xc3 \x01", "a b.txt", "d1", "..x"}
	trs := []string{"file", "directory", "stream", "bundle", "file", "file"}
	cs := []string{"none", "crc32", "md5", "sha1"}
	// every size, filled as far as that is cheap, with every checksum
	for _, z := range append(sizes, 1<<20+3, 3<<20+1) {
		w.begin()
		n := z
		if n > 4<<20 {
			n = 0
		}
		w.put("f", "file", content(int(n)), z, y2k+z&0xffff)
		for k, c := range cs {
			w.ask("f", "file", c, true, k%2 == 0)
			w.ask("f", "file", c, false, k%2 == 1)
			w.sum("f", c)
		}
	}
	// a large one, mostly empty
	w.begin()
	w.huge("f", 200<<20+12345)
	for k, c := range cs {
		w.ask("f", "file", c, true, k%2 == 0)
		if r.Scale > 1 {
			w.sum("f", c)
		}
	}
	// every time, of files and directories
	for _, t := range times {
		w.begin()
		w.put("f", "file", content(5), 0, t)
		w.put("d", "dir", nil, 3, t)
		for k := 0; k < 2; k++ {
			w.ask("f", "file", "crc32", k == 0, k == 0)
			w.ask("d", "directory", "none", k == 1, k == 0)
		}
		w.stat("f")
	}
	for i := 0; i < 60*r.Scale; i++ {
		w.begin()
		for k := 0; k < 12; k++ {
			n := names[r.Rand.Intn(len(names))]
			switch x := r.Rand.Intn(10); {
			case x < 4:
				kind := []string{"file", "file", "file", "dir", "fifo", "other"}[r.Rand.Intn(6)]
				size := sizes[r.Rand.Intn(len(sizes))]
				if kind == "dir" {
					size = int64(r.Rand.Intn(60))
				}
				d := content(r.Rand.Intn(70000))
				if r.Rand.Intn(2) == 0 {
					d = content(int(size & 0x3ffff))
				}
				mt := times[r.Rand.Intn(len(times))]
				if r.Rand.Intn(3) > 0 {
					mt = y2k + int64(r.Rand.Uint32())
				}
				w.put(n, kind, d, size, mt)
			case x == 4:
				w.gone(n)
			}
			tr := trs[r.Rand.Intn(len(trs))]
			c := cs[r.Rand.Intn(4)]
			if r.Rand.Intn(12) == 0 {
				c = "sha9"
			}
			w.ask(n, tr, c, r.Rand.Intn(3) == 0, r.Rand.Intn(2) == 0)
			if r.Rand.Intn(2) == 0 {
				w.sum(n, append(cs, "sha9", "")[r.Rand.Intn(6)])
			}
			if r.Rand.Intn(2) == 0 {
				w.stat(n)
			}
		}
	}
}
