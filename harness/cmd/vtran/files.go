package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarflags"
)

// base is the scratch tree; the shared directory is base/sar
var base string

func setupTree() {
	setup()
	base = filepath.Join(*dir, "base")
	sarflags.Cliflag.Sardir = filepath.Join(base, "sar")
}

// A node of a tree to be made: a name ending in / is a directory, in /! one
// in which nothing can be made or removed; one ending in | is a pipe, in @ a
// symbolic link
type node struct{ name, data string }

func cleanTree() {
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	if !strings.HasPrefix(base, *dir+"/") {
		rec.Fatal("scratch tree ", base)
	}
	if err := os.RemoveAll(base); err != nil {
		rec.Fatal(err)
	}
}

func makeTree(nodes []node) {
	os.Chdir(*dir)
	cleanTree()
	must := func(err error) {
		if err != nil {
			rec.Fatal(err)
		}
	}
	must(os.MkdirAll(base+"/sar", 0755))
	var ro []string
	for _, n := range nodes {
		p := base + "/" + strings.TrimSuffix(strings.TrimSuffix(n.name, "!"), "/")
		switch {
		case strings.HasSuffix(n.name, "/!"):
			must(os.MkdirAll(p, 0755))
			ro = append(ro, p)
		case strings.HasSuffix(n.name, "/"):
			must(os.MkdirAll(p, 0755))
		case strings.HasSuffix(n.name, "@"):
			must(os.Symlink(n.data, strings.TrimSuffix(p, "@")))
		case strings.HasSuffix(n.name, "|"):
			must(syscall.Mkfifo(strings.TrimSuffix(p, "|"), 0644))
		default:
			must(os.MkdirAll(filepath.Dir(p), 0755))
			must(os.WriteFile(p, []byte(n.data), 0644))
		}
	}
	for _, p := range ro {
		must(os.Chmod(p, 0555))
	}
	must(os.Chdir(base + "/sar"))
}

// sardirAs names the shared directory in one of several ways: in full, with
// a slash at its end, or from where the node runs, which is in it
func sardirAs(turn int) {
	if err := os.Chdir(base + "/sar"); err != nil {
		rec.Fatal(err)
	}
	sarflags.Cliflag.Sardir = []string{base + "/sar", ".", base + "/sar/", base + "/sar", "./", base + "//sar/../sar"}[turn%6]
}

func comps(p string) [][]int {
	l := [][]int{}
	for _, c := range strings.Split(p, "/") {
		l = append(l, rec.Bytes([]byte(c)))
	}
	return l
}

// snapTree looks at the whole scratch tree
func snapTree() []rec.M {
	l := []rec.M{}
	var walk func(p string)
	walk = func(p string) {
		fi, err := os.Lstat(p)
		if err != nil {
			return
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p, base), "/")
		cs := [][]int{}
		if rel != "" {
			cs = comps(rel)
		}
		m := rec.M{"p": cs, "k": "file", "d": []int{}, "m": ""}
		switch {
		case fi.IsDir():
			m["k"] = "dir"
			if fi.Mode().Perm()&0200 == 0 {
				m["k"] = "rodir"
			}
		case fi.Mode().IsRegular():
			if fi.Size() > 1<<16 {
				m["m"] = fmt.Sprint("size ", fi.Size())
				break
			}
			b, err := os.ReadFile(p)
			m["d"] = rec.Bytes(b)
			m["m"] = fmt.Sprint(fi.Mode(), " ", fi.ModTime().UnixNano(), " ", err)
		default:
			m["k"] = "other"
			m["m"] = fi.Mode().String()
			if to, err := os.Readlink(p); err == nil {
				m["d"] = rec.Bytes([]byte(to))
			}
		}
		l = append(l, m)
		if fi.IsDir() {
			d, err := os.Open(p)
			if err != nil {
				m["m"] = "unreadable"
				return
			}
			names, _ := d.Readdirnames(-1)
			d.Close()
			for _, n := range names {
				walk(p + "/" + n)
			}
		}
	}
	walk(base)
	return l
}
