package main

import (
	"encoding/json"
	"math"
	"sort"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/holes"
)

func init() { drivers["holes"] = driveHoles }

// One run: the adds are done in order on the real thing.  Offsets are mapped
// to the position of the offset among all the offsets of the run (0 included);
// this keeps order, and the specification only depends on order.  An offset
// the code makes up is mapped to -1.
func holesRun(r *rec.Rec, adds [][2]int) {
	pos := map[int]int{0: 0}
	var all []int
	for _, a := range adds {
		for _, v := range a {
			if _, ok := pos[v]; !ok {
				pos[v] = 0
			}
		}
	}
	for v := range pos {
		all = append(all, v)
	}
	sort.Ints(all)
	for i, v := range all {
		pos[v] = i
	}
	at := func(v int) int {
		if p, ok := pos[v]; ok {
			return p
		}
		return -1
	}
	list := func(h []holes.Hole) [][]int {
		l := [][]int{}
		for _, x := range h {
			l = append(l, []int{at(x.Start), at(x.End)})
		}
		return l
	}
	r.Reset(nil)
	var fills holes.Holes
	var prev holes.Holes     // the holes as returned after the previous Add
	var prevcopy holes.Holes // and a copy of them
	for _, a := range adds {
		m := rec.M{"e": "add", "s": at(a[0]), "t": at(a[1]), "res": "ok"}
		r.Call(m, func() {
			fills = fills.Add(a[0], a[1])
			m["fills"] = list(fills)
			n := fills.Lenholes()
			h := fills.Getholes()
			m["n"] = n
			m["holes"] = list(h)
			m["again"] = list(fills.Getholes())
			m["after"] = list(fills)
			same := len(prev) == len(prevcopy)
			for i := range prevcopy {
				same = same && prev[i] == prevcopy[i]
			}
			m["kept"] = same
			prev = h
			prevcopy = append(holes.Holes(nil), h...)
		})
	}
}

func driveHoles(r *rec.Rec) {
	scenarios(func(line string) {
		var s [][2]int
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		holesRun(r, s)
	})
	// Longer runs: small lines, huge offsets, and frames of a transfer
	for i := 0; i < 400*r.Scale; i++ {
		var adds [][2]int
		switch i % 4 {
		case 0, 1: // random ranges on a short line
			n := 4 + r.Rand.Intn(24)
			for k := 0; k < 5+r.Rand.Intn(20); k++ {
				s := r.Rand.Intn(n)
				adds = append(adds, [2]int{s, s + r.Rand.Intn(5) - 1})
				if adds[k][1] < 0 {
					adds[k][1] = 0
				}
			}
		case 2: // anywhere in the whole range of an int
			var pts []int
			for k := 0; k < 6; k++ {
				pts = append(pts, int(r.Rand.Int63()>>uint(r.Rand.Intn(62))))
			}
			pts = append(pts, math.MaxInt, math.MaxInt-1, 1<<32, 1<<31-1, 0)
			for k := 0; k < 12; k++ {
				adds = append(adds, [2]int{pts[r.Rand.Intn(len(pts))], pts[r.Rand.Intn(len(pts))]})
			}
		case 3: // the frames of a transfer: lost, repeated and out of order
			size := 1 + r.Rand.Intn(1400)
			n := 3 + r.Rand.Intn(20)
			order := r.Rand.Perm(n)
			for _, k := range order {
				if r.Rand.Intn(5) > 0 {
					adds = append(adds, [2]int{k * size, (k + 1) * size})
				}
				if r.Rand.Intn(4) == 0 {
					adds = append(adds, [2]int{k * size, (k + 1) * size})
				}
			}
			for k := 0; k < n; k++ { // resend what is missing
				adds = append(adds, [2]int{k * size, (k + 1) * size})
			}
		}
		if i%40 == 7 { // one very long run
			for k := 0; k < 120; k++ {
				s := r.Rand.Intn(60)
				adds = append(adds, [2]int{s * 10, s*10 + 1 + r.Rand.Intn(9)})
			}
			if len(adds) > 160 {
				adds = adds[:160]
			}
		}
		holesRun(r, adds)
	}
}
