package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"strings"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	props["C23"] = &property{level: "exploration", run: c23,
		rule:        "The key path operations are compared with the same on strings of '0' and '1': every path of up to 12 bits, all lengths and slice bounds of random longer ones, all pairs of lengths for joining. The proof-geometry functions are compared with independent definitions (splitting by the highest bit of n-1) and with what makes ranges a proof (they partition the tree), exhaustively for small sizes, and around powers of two and at random up to 2^63-1. Arguments have spare capacity and must come back as they were. A case is a call.",
		assumptions: []string{"SHA-256 collisions do not occur", "indices and bounds lie within the path or tree"}}
}

func c23(r *R) {
	c23paths(r)
	c23merkle(r)
}

// ---- bit paths

// enc is the documented encoding of a bit string.
func c23enc(s string) []byte {
	if len(s) == 0 {
		return nil
	}
	b := make([]byte, 1+(len(s)+7)/8)
	b[0] = byte(len(s))
	for i := range s {
		if s[i] == '1' {
			b[1+i/8] += 128 >> uint(i%8)
		}
	}
	return b
}

// guarded holds a path in a larger array, so that writing to it or past its end is seen.
type c23guarded struct {
	all, keep []byte
	p         verifiable.BPath
}

func c23guard(p []byte) *c23guarded {
	all := append(append([]byte{0xa5, 0x5a}, p...), bytes.Repeat([]byte{0xc3}, 40)...)
	return &c23guarded{all: all, keep: append([]byte{}, all...), p: verifiable.BPath(all[2 : 2+len(p)])}
}

func (g *c23guarded) intact() bool { return bytes.Equal(g.all, g.keep) }

func c23bits(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	switch rng.Intn(6) {
	case 0:
		for i := range b {
			b[i] = '0'
		}
	case 1:
		for i := range b {
			b[i] = '1'
		}
	case 2: // one bit
		for i := range b {
			b[i] = '0'
		}
		if n > 0 {
			b[rng.Intn(n)] = '1'
		}
	default:
		for i := range b {
			b[i] = '0' + byte(rng.Intn(2))
		}
	}
	return string(b)
}

func c23isPath(r *R, what string, p verifiable.BPath, want string) bool {
	r.Saw("path")
	if !bytes.Equal(p, c23enc(want)) {
		r.Failf("%s: encoded as %x, not %x for %q", what, []byte(p), c23enc(want), want)
		return false
	}
	if p.Length() != uint(len(want)) {
		r.Failf("%s: length %d, not %d", what, p.Length(), len(want))
		return false
	}
	return true
}

func c23whole(r *R, what string, p verifiable.BPath, want string) {
	if !c23isPath(r, what, p, want) {
		return
	}
	g := c23guard(p)
	if got := g.p.Str(); got != want {
		r.Failf("%s: rendered as %q, not %q", what, got, want)
	}
	for i := range want {
		r.Saw("bit")
		if g.p.At(uint(i)) != (want[i] == '1') {
			r.Failf("%s: bit %d of %q is %v", what, i, want, g.p.At(uint(i)))
		}
	}
	if !g.intact() {
		r.Failf("%s: looking at it changed it", what)
	}
}

func c23paths(r *R) {
	constants := func() {
		c23whole(r, "BPathFalse", verifiable.BPathFalse, "0")
		c23whole(r, "BPathTrue", verifiable.BPathTrue, "1")
		c23whole(r, "BPathEmpty", verifiable.BPathEmpty, "")
		c23whole(r, "nil", nil, "")
	}
	constants()
	// every path of up to 12 bits, built bit by bit
	seen := map[string]string{}
	r.Guard("building short paths", func() {
		var build func(p verifiable.BPath, s string)
		build = func(p verifiable.BPath, s string) {
			r.Case("short", "%s", s)
			c23whole(r, "path "+s, p, s)
			if o, has := seen[string(p)]; has {
				r.Failf("paths %q and %q have the same encoding %x", o, s, []byte(p))
			}
			seen[string(p)] = s
			for a := 0; a <= len(s) && len(s) <= 8; a++ {
				for b := 0; b <= len(s); b++ {
					want := ""
					if a < b {
						want = s[a:b]
					}
					c23isPath(r, fmt.Sprintf("bits %d to %d of %s", a, b, s), p.Slice(uint(a), uint(b)), want)
				}
			}
			if len(s) == 12 {
				return
			}
			g := c23guard(p)
			zero, one := verifiable.BPathJoin(g.p, verifiable.BPathFalse), verifiable.BPathJoin(g.p, verifiable.BPathTrue)
			if !g.intact() {
				r.Failf("joining %s to another changed it", s)
			}
			build(zero, s+"0")
			build(one, s+"1")
		}
		build(verifiable.BPathEmpty, "")
	})
	// all bounds of longer ones
	lens := []int{256, 255, 257 - 8, 248, 247, 129, 128, 127, 65, 64, 63, 33, 32, 31, 17, 16, 15, 9}
	for i := 0; i < r.N(6, 300); i++ {
		lens = append(lens, 1+r.Rand(fmt.Sprint("len", i)).Intn(256))
	}
	for i := 0; i < r.N(3, 40); i++ {
		lens = append(lens, 256)
	}
	r.Par(len(lens), func(i int) {
		rng := r.Rand(fmt.Sprint("slice", i))
		s := c23bits(rng, lens[i])
		r.Guard("slicing", func() {
			g := c23guard(c23enc(s))
			c23whole(r, "path", g.p, s)
			for a := 0; a <= len(s); a++ {
				for b := 0; b <= len(s); b++ {
					want := ""
					if a < b {
						want = s[a:b]
					}
					if a >= b && rng.Intn(4) > 0 {
						continue
					}
					r.Case("slice", "%d %d %s", a, b, s)
					if !c23isPath(r, fmt.Sprintf("bits %d to %d of %s", a, b, s), g.p.Slice(uint(a), uint(b)), want) {
						return
					}
				}
			}
			if !g.intact() {
				r.Failf("slicing changed %q", s)
			}
		})
	})
	// all pairs of lengths
	r.Par(257, func(la int) {
		rng := r.Rand(fmt.Sprint("join", la))
		r.Guard("joining", func() {
			for round := 0; round < r.N(1, 12); round++ {
				for lb := 0; la+lb <= 256; lb++ {
					if round == 0 {
						o := strings.Repeat("1", la+lb)
						if !c23isPath(r, fmt.Sprintf("%d ones joined with %d", la, lb), verifiable.BPathJoin(c23enc(o[:la]), c23enc(o[la:])), o) {
							return
						}
					}
					a, b := c23bits(rng, la), c23bits(rng, lb)
					ga, gb := c23guard(c23enc(a)), c23guard(c23enc(b))
					j := verifiable.BPathJoin(ga.p, gb.p)
					r.Case("join", "%s|%s", a, b)
					if !c23isPath(r, fmt.Sprintf("%q joined with %q", a, b), j, a+b) {
						return
					}
					if !ga.intact() || !gb.intact() {
						r.Failf("joining %q with %q changed them", a, b)
						return
					}
					if rng.Intn(20) == 0 {
						c23whole(r, "joined", j, a+b)
						gj := c23guard(j)
						x, y := gj.p.Slice(0, uint(la)), gj.p.Slice(uint(la), uint(la+lb))
						c23isPath(r, "its start", x, a)
						c23isPath(r, "its end", y, b)
						if g1 := verifiable.BPathJoin(x, y); !bytes.Equal(g1, j) {
							r.Failf("%q joined with %q, sliced and joined again is another path", a, b)
						}
					}
				}
			}
		})
	})
	// of keys
	r.Par(r.N(400, 20000), func(i int) {
		rng := r.Rand(fmt.Sprint("key", i))
		key := make([]byte, rng.Intn(100))
		rng.Read(key)
		if i == 0 {
			key = nil
		}
		r.Guard("path of key", func() {
			h := sha256.Sum256(key)
			s := ""
			for _, b := range h {
				s += fmt.Sprintf("%08b", b)
			}
			keep := append([]byte{}, key...)
			r.Case("key", "%x", key)
			c23whole(r, fmt.Sprintf("path of key %x", key), verifiable.BPathFromKey(key), s)
			t := ""
			for _, b := range merkle.ConstructMapKeyPath(key) {
				t += map[bool]string{true: "1", false: "0"}[b]
			}
			if t != s {
				r.Failf("tree path of key %x is %s, not %s", key, t, s)
			}
			if !bytes.Equal(keep, key) {
				r.Failf("making the path of key %x changed it", keep)
			}
		})
	})
	constants()
	r.Extra("short_paths", len(seen))
}

// ---- proof geometry

// below is the largest power of two below n >= 2.
func c23below(n int64) int64 { return int64(1) << uint(bits.Len64(uint64(n-1))-1) }

func c23path(m, n int64) (rv [][2]int64) {
	// from the root down, then turned round
	lo, hi := int64(0), n
	for hi-lo > 1 {
		mid := lo + c23below(hi-lo)
		if m < mid {
			rv = append(rv, [2]int64{mid, hi})
			hi = mid
		} else {
			rv = append(rv, [2]int64{lo, mid})
			lo = mid
		}
	}
	for i, j := 0, len(rv)-1; i < j; i, j = i+1, j-1 {
		rv[i], rv[j] = rv[j], rv[i]
	}
	return rv
}

func c23sub(m, n int64, whole bool) (rv [][2]int64) {
	lo, hi := int64(0), n
	for m != hi { // m counts from 0
		mid := lo + c23below(hi-lo)
		if m <= mid {
			rv = append(rv, [2]int64{mid, hi})
			hi = mid
		} else {
			rv = append(rv, [2]int64{lo, mid})
			lo = mid
			whole = false
		}
	}
	if !whole {
		rv = append(rv, [2]int64{lo, hi})
	}
	for i, j := 0, len(rv)-1; i < j; i, j = i+1, j-1 {
		rv[i], rv[j] = rv[j], rv[i]
	}
	return rv
}

func c23same(got, want [][2]int64, off int64) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i][0] != want[i][0]+off || got[i][1] != want[i][1]+off {
			return false
		}
	}
	return true
}

// c23parts says whether the ranges are disjoint and cover the tree but for [a,b).
func c23parts(rs [][2]int64, off, n, a, b int64) bool {
	at := map[int64]int64{}
	for _, x := range append([][2]int64{{a + off, b + off}}, rs...) {
		if x[0] == x[1] {
			continue
		}
		if _, twice := at[x[0]]; twice || x[0] > x[1] {
			return false
		}
		at[x[0]] = x[1]
	}
	p := off
	for p != off+n {
		q, ok := at[p]
		if !ok {
			return false
		}
		delete(at, p)
		p = q
	}
	return len(at) == 0
}

func c23geometry(r *R, n, m, off int64) {
	if m < n {
		r.Case("path", "%d %d %d", m, n, off)
		got := merkle.Path(m, off, off+n)
		if !c23same(got, c23path(m, n), off) || !c23parts(got, off, n, m, m+1) {
			r.Failf("path of %d in [%d,%d) is %v, not %v", m, off, off+n, got, c23path(m, n))
		}
	}
	if m < 1 {
		return
	}
	for _, b := range []bool{true, false} {
		r.Case("subproof", "%d %d %d %v", m, n, off, b)
		got := merkle.SubProof(m, off, off+n, b)
		if !c23same(got, c23sub(m, n, b), off) {
			r.Failf("subproof of %d in [%d,%d) (%v) is %v, not %v", m, off, off+n, b, got, c23sub(m, n, b))
		}
		if !b && !c23parts(got, off, n, 0, 0) {
			r.Failf("subproof of %d in [%d,%d) does not make up the tree: %v", m, off, off+n, got)
		}
	}
}

func c23small(r *R, n int64) {
	r.Case("power", "%d", n)
	pow := n > 0 && bits.OnesCount64(uint64(n)) == 1
	if merkle.IsPow2(n) != pow {
		r.Failf("%d is a power of two: %v", n, merkle.IsPow2(n))
	}
	if n >= 2 && merkle.CalcK(n) != c23below(n) {
		r.Failf("largest power of two below %d is %d, not %d", n, merkle.CalcK(n), c23below(n))
	}
}

func c23merkle(r *R) {
	r.Par(r.N(1<<14, 1<<18), func(i int) {
		r.Guard(fmt.Sprintf("power of two of %d", i), func() { c23small(r, int64(i)); c23small(r, -int64(i)) })
	})
	var edge []int64
	for k := uint(1); k <= 62; k++ {
		for d := int64(-3); d <= 3; d++ {
			if n := int64(1)<<k + d; n > 0 {
				edge = append(edge, n)
			}
		}
	}
	for d := int64(0); d < 5; d++ {
		edge = append(edge, math.MaxInt64-d)
	}
	r.Par(len(edge), func(i int) {
		n := edge[i]
		rng := r.Rand(fmt.Sprint("edge", i))
		r.Guard(fmt.Sprintf("geometry of %d", n), func() {
			c23small(r, n)
			ms := []int64{0, 1, 2, 3, n / 2, n/2 + 1, n/2 - 1, n - 3, n - 2, n - 1, n}
			if n > 2 {
				k := c23below(n)
				ms = append(ms, k-1, k, k+1, k/2, k/2+1)
			}
			for j := 0; j < r.N(20, 400); j++ {
				ms = append(ms, rng.Int63n(n), c23near(rng, n))
			}
			for _, m := range ms {
				if m < 0 || m > n {
					continue
				}
				c23geometry(r, n, m, 0)
				if off := math.MaxInt64 - n; off > 0 {
					c23geometry(r, n, m, rng.Int63n(off))
					c23geometry(r, n, m, off)
				}
			}
		})
	})
	r.Par(r.N(260, 900), func(i int) {
		n := int64(i + 1)
		rng := r.Rand(fmt.Sprint("small", i))
		r.Guard(fmt.Sprintf("geometry of %d", n), func() {
			for m := int64(0); m <= n; m++ {
				c23geometry(r, n, m, 0)
				if m%7 == 0 {
					c23geometry(r, n, m, rng.Int63n(1<<40))
				}
			}
		})
	})
	r.Par(r.N(4000, 200000), func(i int) {
		rng := r.Rand(fmt.Sprint("big", i))
		n := 1 + rng.Int63()>>uint(rng.Intn(62))
		if n < 1 {
			n = math.MaxInt64
		}
		r.Guard(fmt.Sprintf("geometry of %d", n), func() {
			c23small(r, n)
			c23geometry(r, n, rng.Int63n(n), 0)
			c23geometry(r, n, c23near(rng, n), 0)
		})
	})
	// hashes
	r.Par(r.N(600, 20000), func(i int) {
		rng := r.Rand(fmt.Sprint("hash", i))
		mk := func() []byte {
			b := make([]byte, []int{0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 1000}[rng.Intn(11)], 2000)
			rng.Read(b)
			if len(b) == 0 && rng.Intn(2) == 0 {
				return nil
			}
			return b
		}
		a, b := mk(), mk()
		ka, kb := string(a), string(b)
		r.Case("hash", "%x %x", a, b)
		r.Guard("hashing", func() {
			l := sha256.Sum256([]byte("\x00" + ka))
			n := sha256.Sum256([]byte("\x01" + ka + kb))
			if x := merkle.LeafHash(a); !bytes.Equal(x, l[:]) {
				r.Failf("leaf hash of %x is %x", a, x)
			}
			if x := merkle.NodeHash(a, b); !bytes.Equal(x, n[:]) {
				r.Failf("node hash of %x and %x is %x", a, b, x)
			}
			if len(a) > 0 && (string(a) != ka || strings.Trim(string(a[len(a):cap(a)]), "\x00") != "") || string(b) != kb {
				r.Failf("hashing changed its arguments")
			}
		})
	})
	// defaults
	want := make([][]byte, 257)
	h := sha256.Sum256([]byte{0})
	want[256] = h[:]
	for i := 255; i >= 0; i-- {
		h := sha256.Sum256(append(append([]byte{1}, want[i+1]...), want[i+1]...))
		want[i] = h[:]
	}
	r.Guard("default values", func() {
		for k := 0; k < 3; k++ {
			got := merkle.GenerateMapDefaultLeafValues()
			if len(got) != 257 {
				r.Failf("%d default values", len(got))
				return
			}
			for i := range got {
				r.Case("default", "%d %d", k, i)
				if !bytes.Equal(got[i], want[i]) {
					r.Failf("default value at depth %d is %x, not %x", i, got[i], want[i])
				}
				for j := range got[i] { // it is the caller's copy
					got[i][j] ^= 0xff
				}
				got[i] = nil
			}
		}
	})
}

// c23near is some number of few bits, or few bits off n.
func c23near(rng *rand.Rand, n int64) int64 {
	for {
		m := int64(0)
		for i := rng.Intn(4); i >= 0; i-- {
			m ^= int64(1) << uint(rng.Intn(63))
		}
		if rng.Intn(2) == 0 {
			m ^= n
		}
		if m >= 0 && m < n {
			return m
		}
		if rng.Intn(50) == 0 {
			return rng.Int63n(n)
		}
	}
}
