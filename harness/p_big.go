package main

// Logs of more than 2^17 entries (2^20 in the thorough tier), for C01 to C03 and C05: what depends on how large a number is has a chance to show.

import (
	"encoding/binary"
	"fmt"
	"math/rand"

	"github.com/continusec/verifiabledatastructures/pb"
)

// bigLog grows a log in memory, calling f at the sizes around powers of two and multiples of 1000, some others, and the end.
func bigLog(r *R, name string, n int, f func(svc Svc, l stepLog, rng *rand.Rand, sizes []int) bool) {
	rng := r.Rand("big" + name)
	st, cl := newStore(r, "memory")
	defer cl()
	svc := newService(st, nil, nil)
	l := stepLog{"log of very many entries", lref("16", "big", tLog), &LogModel{}}
	for i := 0; i < n; i++ {
		var b [12]byte
		binary.BigEndian.PutUint32(b[:], uint32(i))
		ld := &pb.LeafData{LeafInput: b[:4+i%9], ExtraData: b[:i%3]}
		if i > 0 && rng.Intn(50) == 0 { // one that's there already
			at := []int{rng.Intn(i), 0, i - 1, i / 2}[rng.Intn(4)]
			ld = &pb.LeafData{LeafInput: l.m.Entries[at].LeafInput, ExtraData: []byte("again")}
			i--
		}
		r.Saw("big-add")
		if err := addEntry(svc, l.ref, l.m, ld); err != nil {
			r.Failf("%s: adding: %v", l.name, err)
			return
		}
		m := l.m.Len()
		near := func(d int) bool { return m%d <= 1 || m%d == d-1 }
		pow := 1
		for pow < m-1 {
			pow *= 2
		}
		if near(1000) || m >= pow-1 || m <= pow/2+1 || rng.Intn(200) == 0 || i+1 == n {
			r.Case("big", "size %d", m)
			if !ckHead(r, l.name, svc, l.ref, l.m, 0) || !f(svc, l, rng, bigSizes(rng, m)) {
				return
			}
		}
		if r.Failed() {
			return
		}
	}
}

// bigSizes are sizes up to n: some at random, and around powers of two and n.
func bigSizes(rng *rand.Rand, n int) []int {
	var rv []int
	add := func(x int) {
		if x >= 1 && x <= n {
			rv = append(rv, x)
		}
	}
	for k := 0; k < 4; k++ {
		add(1 + rng.Intn(n))
		add(1<<uint(rng.Intn(21)) + rng.Intn(3) - 1)
		add(n - rng.Intn(3))
	}
	return rv
}

// bigMap grows a map of many keys in memory, calling f now and then.
func bigMap(r *R, name string, n, keys int, f func(svc Svc, ref *pb.MapRef, w *MapWorld, rng *rand.Rand, touched []byte) bool) {
	rng := r.Rand("bigmap" + name)
	st, cl := newStore(r, "memory")
	defer cl()
	svc := newService(st, nil, nil)
	ref := mref("16", "big")
	w := &MapWorld{}
	g := &mapGen{rng: rng, vals: [][]byte{[]byte("one"), []byte("two")}}
	for i := 0; i < keys; i++ {
		g.keys = append(g.keys, []byte(fmt.Sprint("key number ", i)))
	}
	for i := 0; i < n; i++ {
		mu := g.next(&w.MapModel)
		r.Saw("big-mutation")
		if err := w.mutate(svc, ref, mu); err != nil {
			r.Failf("map of many keys: %s: %v", showMut(&mu), err)
			return
		}
		if i%20 == 0 || i+1 == n || i > 250 && i < 260 {
			r.Case("big-map", "%s size %d", name, i+1)
			if !f(svc, ref, w, rng, mu.Key) {
				return
			}
		}
	}
}
