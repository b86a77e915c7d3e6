package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C04"] = &property{level: "exploration", run: c04,
		rule:        "Verifiers are given honest proofs, every single alteration of them of a systematic list, all short proofs over the pool of hashes of small trees, and proofs mixing two trees; the verdict must equal that of recursive RFC 6962 verifiers and accepted claims must be true in the model. A case is a (claim, alteration).",
		assumptions: []string{"SHA-256 collisions and preimages are not found", "heads handed to verifiers commit to real trees, except in single alterations of the head"}}
}

func mkTree(tag string, n int) *spec.Tree {
	t := &spec.Tree{}
	for i := 0; i < n; i++ {
		t.Append(spec.LeafHash([]byte(fmt.Sprintf("%s%d", tag, i))))
	}
	return t
}

// forkTree shares the first k leaves with t.
func forkTree(t *spec.Tree, k, n int, tag string) *spec.Tree {
	f := &spec.Tree{}
	for i := 0; i < n; i++ {
		if i < k {
			f.Append(t.Leaves[i])
		} else {
			f.Append(spec.LeafHash([]byte(fmt.Sprintf("%s%d", tag, i))))
		}
	}
	return f
}

func cp(b []byte) []byte { return append([]byte(nil), b...) }

func cpp(p [][]byte) [][]byte {
	rv := make([][]byte, len(p))
	for i, x := range p {
		rv[i] = cp(x)
	}
	return rv
}

func flipBit(b []byte, rng *rand.Rand) []byte {
	b = cp(b)
	if len(b) == 0 {
		return []byte{1}
	}
	b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
	return b
}

// namedPath is an altered path with the name of the alteration
type namedPath struct {
	what string
	p    [][]byte
}

// alterPath lists alterations of a proof's path.
func alterPath(p [][]byte, pool [][]byte, rng *rand.Rand) []namedPath {
	var rv []namedPath
	add := func(what string, q [][]byte) { rv = append(rv, namedPath{what, q}) }
	for i := range p {
		q := cpp(p)
		q[i] = flipBit(q[i], rng)
		add(fmt.Sprintf("bit flipped in element %d", i), q)
		q = cpp(p)
		q[i][0] ^= 0x80
		add(fmt.Sprintf("first bit flipped in element %d", i), q)
		q = cpp(p)
		q[i][31] ^= 1
		add(fmt.Sprintf("last bit flipped in element %d", i), q)
		add(fmt.Sprintf("element %d dropped", i), append(cpp(p[:i]), cpp(p[i+1:])...))
		q = append(cpp(p[:i+1]), cpp(p[i:])...)
		add(fmt.Sprintf("element %d duplicated", i), q)
		for j := i + 1; j < len(p); j++ {
			q = cpp(p)
			q[i], q[j] = q[j], q[i]
			add(fmt.Sprintf("elements %d and %d swapped", i, j), q)
		}
		q = cpp(p)
		q[i] = q[i][:31]
		add(fmt.Sprintf("element %d truncated", i), q)
		q = cpp(p)
		q[i] = append(q[i], 0)
		add(fmt.Sprintf("element %d extended", i), q)
		q = cpp(p)
		q[i] = nil
		add(fmt.Sprintf("element %d empty", i), q)
		q = cpp(p)
		q[i] = cp(pool[rng.Intn(len(pool))])
		add(fmt.Sprintf("element %d replaced", i), q)
	}
	for i := 0; i <= len(p); i++ {
		for k, x := range [][]byte{pool[rng.Intn(len(pool))], make([]byte, 32), nil, {}} {
			add(fmt.Sprintf("extra element %d before %d", k, i), append(append(cpp(p[:i]), cp(x)), cpp(p[i:])...))
		}
	}
	if len(p) > 1 {
		q := cpp(p)
		for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
			q[i], q[j] = q[j], q[i]
		}
		add("reversed", q)
		add("emptied", nil)
	}
	return rv
}

// pool of all hashes of subtrees of a tree that occur at any size
func hashPool(t *spec.Tree, n int) [][]byte {
	seen := map[string]bool{}
	var rv [][]byte
	add := func(h []byte) {
		if !seen[string(h)] {
			seen[string(h)] = true
			rv = append(rv, h)
		}
	}
	for w := 1; w <= n; w *= 2 {
		for a := 0; a+w <= n; a += w {
			add(t.Sub(a, a+w))
		}
	}
	for s := 1; s <= n; s++ {
		add(t.Root(s))
		for _, x := range t.Inclusion(0, s) {
			add(x)
		}
	}
	return rv
}

type c04state struct {
	r *R
	// what was accepted and rejected
	acc, rej int
	// verifiers other than the repository's Go ones
	js *jsVerifiers
}

// incl asks the repository and the model.
func (c *c04state) incl(what string, idx, size int64, path [][]byte, leaf []byte, head *pb.LogTreeHashResponse) bool {
	proof := &pb.LogInclusionProofResponse{LeafIndex: idx, TreeSize: size, AuditPath: path}
	want := size == head.TreeSize && len(leaf) == 32 && spec.VerifyInclusion(idx, size, leaf, path, head.RootHash)
	if c.js != nil {
		return c.js.incl(c, what, want, proof, leaf, head)
	}
	var err error
	if !c.r.Guard(what, func() { err = verifiable.VerifyLogInclusionProof(proof, leaf, head) }) {
		return false
	}
	return c.verdict("inclusion", what, err, want, proof, head)
}

func (c *c04state) cons(what string, from, size int64, path [][]byte, first, second *pb.LogTreeHashResponse) bool {
	proof := &pb.LogConsistencyProofResponse{FromSize: from, TreeSize: size, AuditPath: path}
	want := from == first.TreeSize && size == second.TreeSize && spec.VerifyConsistency(from, size, path, first.RootHash, second.RootHash)
	if c.js != nil {
		return c.js.cons(c, what, want, proof, first, second)
	}
	var err error
	if !c.r.Guard(what, func() { err = verifiable.VerifyLogConsistencyProof(proof, first, second) }) {
		return false
	}
	return c.verdict("consistency", what, err, want, proof, first, second)
}

func (c *c04state) mapp(what string, key []byte, resp *pb.MapGetValueResponse, head *pb.MapTreeHashResponse) bool {
	want := resp.TreeSize == head.GetMutationLog().GetTreeSize() && spec.VerifyMap(key, resp.GetValue().GetLeafInput(), resp.AuditPath, head.RootHash)
	if c.js != nil {
		return c.js.mapp(c, what, want, key, resp, head)
	}
	var err error
	if !c.r.Guard(what, func() { err = verifiable.VerifyMapInclusionProof(resp, key, head) }) {
		return false
	}
	return c.verdict("map", what, err, want, head)
}

func (c *c04state) verdict(kind, what string, err error, want bool, ms ...proto.Message) bool {
	if want {
		c.acc++
	} else {
		c.rej++
	}
	if (err == nil) != want {
		word := "rejected, but it is a proof"
		if !want {
			word = "accepted, but it proves nothing"
		}
		s := ""
		for _, m := range ms {
			s += " " + fmt.Sprint(m)
		}
		c.r.Failf("%s verifier: %s: %s (%v): %s", kind, what, word, err, trunc(s, 1500))
		return false
	}
	return true
}

func lth(size int, root []byte) *pb.LogTreeHashResponse {
	return &pb.LogTreeHashResponse{TreeSize: int64(size), RootHash: root}
}

func c04(r *R) {
	c := &c04state{r: r}
	c04inclusion(c)
	r.SawN("inclusion-accepted", int64(c.acc))
	r.SawN("inclusion-rejected", int64(c.rej))
	c.acc, c.rej = 0, 0
	r.Stop()
	c04consistency(c)
	r.SawN("consistency-accepted", int64(c.acc))
	r.SawN("consistency-rejected", int64(c.rej))
	c.acc, c.rej = 0, 0
	r.Stop()
	c04map(c)
	r.SawN("map-accepted", int64(c.acc))
	r.SawN("map-rejected", int64(c.rej))
	r.Stop()
	c04highlevel(r)
}

func c04inclusion(c *c04state) {
	r := c.r
	rng := r.Rand("incl")
	max := r.N(40, 130)
	t := mkTree("a", max+1)
	pool := hashPool(t, max)
	other := mkTree("b", max+1)
	for n := 1; n <= max; n++ {
		head := lth(n, t.Root(n))
		for i := 0; i < n; i++ {
			p, leaf := t.Inclusion(i, n), t.Leaves[i]
			id := fmt.Sprintf("%d in %d", i, n)
			r.Case("inclusion", "%s", id)
			r.Saw("inclusion-claim")
			if !c.incl("honest "+id, int64(i), int64(n), p, leaf, head) {
				return
			}
			if n > 34 && rng.Intn(4) != 0 {
				continue
			}
			for _, a := range alterPath(p, pool, rng) {
				if !c.incl(id+": "+a.what, int64(i), int64(n), a.p, leaf, head) {
					return
				}
			}
			// index
			var idx []int64
			for j := -3; j <= n+3; j++ {
				idx = append(idx, int64(j))
			}
			for j := uint(0); j < 64; j++ {
				idx = append(idx, int64(i)+int64(1)<<j, int64(i)-int64(1)<<j)
			}
			idx = append(idx, math.MaxInt64, math.MinInt64, int64(i)^math.MinInt64)
			for _, j := range idx {
				if !c.incl(fmt.Sprintf("%s: index %d", id, j), j, int64(n), p, leaf, head) {
					return
				}
			}
			// size, in the proof, or proof and head, or head only
			for _, s := range append(badSizes(n), 0, 1, int64(n)-1, int64(n)+3, 2*int64(n)) {
				if !c.incl(fmt.Sprintf("%s: size %d", id, s), int64(i), s, p, leaf, head) ||
					!c.incl(fmt.Sprintf("%s: size %d and that of the head", id, s), int64(i), s, p, leaf, &pb.LogTreeHashResponse{TreeSize: s, RootHash: head.RootHash}) ||
					!c.incl(fmt.Sprintf("%s: index %d, size %d and that of the head", id, s-1, s), s-1, s, p, leaf, &pb.LogTreeHashResponse{TreeSize: s, RootHash: head.RootHash}) ||
					!c.incl(fmt.Sprintf("%s: size %d of head", id, s), int64(i), int64(n), p, leaf, &pb.LogTreeHashResponse{TreeSize: s, RootHash: head.RootHash}) {
					return
				}
			}
			// leaf
			leaves := [][]byte{flipBit(leaf, rng), nil, leaf[:31], append(cp(leaf), 0), make([]byte, 32), head.RootHash, other.Leaves[i], spec.LeafHash(nil), spec.NodeHash(leaf, leaf)}
			for k := 0; k < 6; k++ {
				leaves = append(leaves, pool[rng.Intn(len(pool))])
			}
			if len(p) > 0 {
				leaves = append(leaves, p[0], append(cp(leaf), p[0]...), leaf[16:])
				// hashes that are not whole, with the rest moved into the path
				q := cpp(p)
				q[0] = append(cp(p[0]), leaf[:16]...)
				q2 := cpp(p)
				q2[0] = append(cp(leaf[16:]), p[0]...)
				q3 := cpp(p)
				q3[0] = nil
				if !c.incl(id+": half a leaf", int64(i), int64(n), q, leaf[16:], head) ||
					!c.incl(id+": half a leaf", int64(i), int64(n), q2, leaf[:16], head) ||
					!c.incl(id+": two hashes as leaf", int64(i), int64(n), q3, append(cp(leaf), p[0]...), head) ||
					!c.incl(id+": two hashes as leaf", int64(i), int64(n), q3, append(cp(p[0]), leaf...), head) {
					return
				}
			}
			for k, l := range leaves {
				if !c.incl(fmt.Sprintf("%s: leaf %d", id, k), int64(i), int64(n), p, l, head) {
					return
				}
			}
			// head
			for k, h := range [][]byte{flipBit(head.RootHash, rng), nil, {}, head.RootHash[:31], make([]byte, 32), t.Root(n + 1), other.Root(n), leaf} {
				if n == 1 && k == 7 {
					continue
				}
				if !c.incl(fmt.Sprintf("%s: root %d", id, k), int64(i), int64(n), p, leaf, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: h}) {
					return
				}
			}
		}
	}
	// all short proofs over the hashes of small trees
	sm := r.N(6, 8)
	for n := 1; n <= sm; n++ {
		pool := append(hashPool(t, n), nil, []byte{})
		head := lth(n, t.Root(n))
		for i := 0; i <= n; i++ {
			for _, leaf := range pool {
				for l := 0; l <= 3; l++ {
					if !eachPath(pool, l, func(p [][]byte) bool {
						return c.incl(fmt.Sprintf("enumerated: %d in %d", i, n), int64(i), int64(n), p, leaf, head)
					}) {
						return
					}
				}
			}
			r.Case("enumerated-inclusion", "%d in %d over %d hashes", i, n, len(pool))
			r.Saw("enumerated")
		}
	}
	// large sizes: paths of a tree that isn't there, verified against the root they give
	for k := 0; k < r.N(2000, 50000); k++ {
		n := 1 + rng.Int63()>>uint(rng.Intn(63))
		if n < 1 {
			n = math.MaxInt64
		}
		i := rng.Int63n(n)
		leaf := randBytes(rng, 32)
		var p [][]byte
		root, ok := []byte(nil), false
		for l := 0; l < 66 && !ok; l++ {
			root, ok = spec.RootFromInclusion(i, n, leaf, p)
			if !ok {
				p = append(p, randBytes(rng, 32))
			}
		}
		if !ok {
			continue
		}
		head := &pb.LogTreeHashResponse{TreeSize: n, RootHash: root}
		r.Case("large-inclusion", "%d in %d", i, n)
		if !c.incl("large", i, n, p, leaf, head) {
			return
		}
		for j := 0; j < 10; j++ {
			if i2 := i ^ (int64(1) << uint(rng.Intn(63))); !c.incl(fmt.Sprintf("large: %d for %d of %d", i2, i, n), i2, n, p, leaf, head) {
				return
			}
		}
	}
}

// eachPath enumerates paths of length l over a pool.
func eachPath(pool [][]byte, l int, f func([][]byte) bool) bool {
	p := make([][]byte, l)
	var rec func(int) bool
	rec = func(i int) bool {
		if i == l {
			return f(p)
		}
		for _, x := range pool {
			p[i] = x
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func c04consistency(c *c04state) {
	r := c.r
	rng := r.Rand("cons")
	max := r.N(34, 130)
	t := mkTree("a", max+1)
	other := mkTree("b", max+1)
	pool := hashPool(t, max)
	for n := 2; n <= max; n++ {
		second := lth(n, t.Root(n))
		for m := 1; m < n; m++ {
			first := lth(m, t.Root(m))
			p := t.Consistency(m, n)
			id := fmt.Sprintf("%d to %d", m, n)
			r.Case("consistency", "%s", id)
			r.Saw("consistency-claim")
			if !c.cons("honest "+id, int64(m), int64(n), p, first, second) {
				return
			}
			if n > 34 && rng.Intn(4) != 0 {
				continue
			}
			for _, a := range append(alterPath(p, pool, rng), namedPath{"first root prepended", append([][]byte{first.RootHash}, p...)}) {
				if !c.cons(id+": "+a.what, int64(m), int64(n), a.p, first, second) {
					return
				}
			}
			for _, s := range append(badSizes(n), 0, 1, 2, int64(m)-1, int64(m)+1, int64(n)-1, int64(n), 2*int64(m), int64(n)+3) {
				fs, ss := &pb.LogTreeHashResponse{TreeSize: s, RootHash: first.RootHash}, &pb.LogTreeHashResponse{TreeSize: s, RootHash: second.RootHash}
				if !c.cons(fmt.Sprintf("%s: from %d", id, s), s, int64(n), p, first, second) ||
					!c.cons(fmt.Sprintf("%s: from %d and head", id, s), s, int64(n), p, fs, second) ||
					!c.cons(fmt.Sprintf("%s: first head %d", id, s), int64(m), int64(n), p, fs, second) ||
					!c.cons(fmt.Sprintf("%s: to %d", id, s), int64(m), s, p, first, second) ||
					!c.cons(fmt.Sprintf("%s: to %d and head", id, s), int64(m), s, p, first, ss) ||
					!c.cons(fmt.Sprintf("%s: second head %d", id, s), int64(m), int64(n), p, first, ss) ||
					!c.cons(fmt.Sprintf("%s: all %d", id, s), s, s, p, fs, ss) ||
					!c.cons(fmt.Sprintf("%s: all %d, nothing", id, s), s, s, nil, fs, ss) {
					return
				}
			}
			for k, h := range [][]byte{flipBit(first.RootHash, rng), nil, {}, first.RootHash[:31], make([]byte, 32), second.RootHash, other.Root(m), append(cp(first.RootHash), 0)} {
				if !c.cons(fmt.Sprintf("%s: first root %d", id, k), int64(m), int64(n), p, lth(m, h), second) {
					return
				}
			}
			for k, h := range [][]byte{flipBit(second.RootHash, rng), nil, {}, second.RootHash[:31], make([]byte, 32), first.RootHash, other.Root(n), append(cp(second.RootHash), 0)} {
				if !c.cons(fmt.Sprintf("%s: second root %d", id, k), int64(m), int64(n), p, first, lth(n, h)) {
					return
				}
			}
			if !c.cons(id+": heads swapped", int64(m), int64(n), p, second, first) || !c.cons(id+": all swapped", int64(n), int64(m), p, second, first) {
				return
			}
			// the other tree's heads with the two proofs
			k := rng.Intn(n)
			f := forkTree(t, k, n, "f")
			for _, q := range [][][]byte{p, f.Consistency(m, n)} {
				if !c.cons(fmt.Sprintf("%s: second of a fork at %d", id, k), int64(m), int64(n), q, first, lth(n, f.Root(n))) ||
					!c.cons(fmt.Sprintf("%s: first of a fork at %d", id, k), int64(m), int64(n), q, lth(m, f.Root(m)), second) {
					return
				}
			}
			if len(p) > 0 {
				q := cpp(p)
				fp := f.Consistency(m, n)
				for j := range q {
					if rng.Intn(2) == 0 {
						q[j] = fp[j]
					}
				}
				if !c.cons(id+": mixed with a fork", int64(m), int64(n), q, first, lth(n, f.Root(n))) {
					return
				}
			}
		}
	}
	// all short proofs over the hashes of two small trees: accepted only if the first is a prefix
	sm := r.N(5, 7)
	for n := 2; n <= sm; n++ {
		for k := 0; k <= n; k++ {
			f := forkTree(t, k, n, "f")
			pool := hashPool(t, n)
			have := map[string]bool{}
			for _, h := range pool {
				have[string(h)] = true
			}
			for _, h := range hashPool(f, n) {
				if !have[string(h)] {
					pool = append(pool, h)
				}
			}
			if len(pool) > 16 {
				pool = pool[:16]
			}
			for m := 1; m < n; m++ {
				first, second := lth(m, t.Root(m)), lth(n, f.Root(n))
				isPrefix := k >= m
				for l := 0; l <= 4; l++ {
					if l == 4 && len(pool) > 11 && !r.Thorough() {
						continue
					}
					if !eachPath(pool, l, func(p [][]byte) bool {
						proof := &pb.LogConsistencyProofResponse{FromSize: int64(m), TreeSize: int64(n), AuditPath: p}
						err := verifiable.VerifyLogConsistencyProof(proof, first, second)
						if err == nil && !isPrefix {
							r.Failf("consistency verifier: accepted %v as proof that the first %d entries of two logs that fork at %d are the same", proof, m, k)
							return false
						}
						if err == nil {
							c.acc++
						} else {
							c.rej++
						}
						return true
					}) {
						return
					}
				}
				r.Case("enumerated-consistency", "%d to %d, fork at %d, over %d hashes", m, n, k, len(pool))
				r.Saw("enumerated")
			}
		}
	}
}

func c04map(c *c04state) {
	r := c.r
	rng := r.Rand("map")
	for round := 0; round < r.N(40, 400); round++ {
		g := newMapGen(rng, 2+rng.Intn(12))
		vals := map[string][]byte{}
		for i := 0; i < rng.Intn(len(g.keys)+1); i++ {
			vals[string(g.keys[rng.Intn(len(g.keys))])] = []byte(fmt.Sprintf("v%d", rng.Intn(5)))
		}
		vals2 := map[string][]byte{}
		for k, v := range vals {
			vals2[k] = v
		}
		vals2[string(g.keys[0])] = []byte("other")
		con, con2 := spec.MakeContents(vals), spec.MakeContents(vals2)
		size := int64(1 + rng.Intn(100))
		head := &pb.MapTreeHashResponse{RootHash: con.Root(), MutationLog: &pb.LogTreeHashResponse{TreeSize: size, RootHash: randBytes(rng, 32)}}
		keys := append([][]byte{[]byte("nope"), {}}, g.keys...)
		for _, key := range keys {
			sib := con.Siblings(spec.PathOf(key))
			li := vals[string(key)]
			id := fmt.Sprintf("key %x value %q among %d", key, li, len(vals))
			r.Case("map", "%s root %x", id, head.RootHash[:8])
			r.Saw("map-claim")
			mk := func(path [][]byte, li []byte) *pb.MapGetValueResponse {
				return &pb.MapGetValueResponse{AuditPath: path, TreeSize: size, Value: &pb.LeafData{LeafInput: li}}
			}
			lastNon := 0
			for i, s := range sib {
				if len(s) > 0 {
					lastNon = i + 1
				}
			}
			// forms of the same proof
			explicit, empty := cpp(sib), make([][]byte, 256)
			for i := range explicit {
				empty[i] = sib[i]
				if len(sib[i]) == 0 {
					explicit[i] = spec.Defaults[i+1]
					empty[i] = []byte{}
				}
			}
			forms := map[string][][]byte{"nil": sib, "explicit": explicit, "empty": empty, "short": sib[:lastNon], "partly short": sib[:lastNon+rng.Intn(257-lastNon)]}
			for f, p := range forms {
				if !c.mapp("honest, "+f+" form: "+id, key, mk(p, li), head) {
					return
				}
			}
			noval := mk(sib, li)
			if len(li) == 0 {
				noval.Value = nil
				if !c.mapp("absent without value: "+id, key, noval, head) {
					return
				}
			} else {
				noval.Value = nil
				if !c.mapp("value left out: "+id, key, noval, head) {
					return
				}
			}
			// altered paths
			for i := 0; i < 256; i++ {
				if i > lastNon+3 && i < 253 && rng.Intn(20) != 0 {
					continue
				}
				for _, form := range [][][]byte{sib, explicit} {
					q := cpp(form)
					if len(q[i]) > 0 {
						q[i] = flipBit(q[i], rng)
						if !c.mapp(fmt.Sprintf("bit flipped at %d: %s", i, id), key, mk(q, li), head) {
							return
						}
						q = cpp(form)
						q[i] = q[i][:31]
						if !c.mapp(fmt.Sprintf("truncated at %d: %s", i, id), key, mk(q, li), head) {
							return
						}
						q = cpp(form)
						q[i] = nil
						if !c.mapp(fmt.Sprintf("removed at %d: %s", i, id), key, mk(q, li), head) {
							return
						}
						if !c.mapp(fmt.Sprintf("cut at %d: %s", i, id), key, mk(cpp(form[:i]), li), head) {
							return
						}
					} else {
						q[i] = randBytes(rng, 32)
						if !c.mapp(fmt.Sprintf("invented at %d: %s", i, id), key, mk(q, li), head) {
							return
						}
						q[i] = cp(spec.Defaults[(i+2)%257])
						if !c.mapp(fmt.Sprintf("wrong default at %d: %s", i, id), key, mk(q, li), head) {
							return
						}
					}
				}
				if i < 255 {
					q := cpp(sib)
					q[i], q[i+1] = q[i+1], q[i]
					if !c.mapp(fmt.Sprintf("swapped at %d: %s", i, id), key, mk(q, li), head) {
						return
					}
					q = append(cpp(sib[:i]), cpp(sib[i+1:])...)
					if !c.mapp(fmt.Sprintf("dropped at %d: %s", i, id), key, mk(q, li), head) {
						return
					}
					q = append(append(cpp(sib[:i]), nil), cpp(sib[i:255])...)
					if !c.mapp(fmt.Sprintf("inserted at %d: %s", i, id), key, mk(q, li), head) {
						return
					}
				}
			}
			// another value, key, size, head
			for _, v := range [][]byte{nil, {}, []byte("v0"), []byte("v1"), []byte("other"), {0}, append(cp(li), 0), spec.LeafHash(li)} {
				for _, p := range [][][]byte{sib, con2.Siblings(spec.PathOf(key))} {
					if !c.mapp(fmt.Sprintf("value %q: %s", v, id), key, mk(p, v), head) {
						return
					}
				}
			}
			for _, k := range keys {
				if !c.mapp(fmt.Sprintf("key %x: %s", k, id), k, mk(sib, li), head) {
					return
				}
			}
			if !c.mapp("longer key: "+id, append(cp(key), 0), mk(sib, li), head) {
				return
			}
			for _, s := range append(badSizes(int(size)), 0, size-1) {
				m := mk(sib, li)
				m.TreeSize = s
				h2 := proto.Clone(head).(*pb.MapTreeHashResponse)
				h2.MutationLog.TreeSize = s
				if !c.mapp(fmt.Sprintf("size %d: %s", s, id), key, m, head) || !c.mapp(fmt.Sprintf("head size %d: %s", s, id), key, mk(sib, li), h2) {
					return
				}
			}
			for _, h := range [][]byte{nil, {}, flipBit(head.RootHash, rng), head.RootHash[:31], con2.Root(), spec.Defaults[0], head.MutationLog.RootHash, make([]byte, 32)} {
				if !c.mapp("another root: "+id, key, mk(sib, li), &pb.MapTreeHashResponse{RootHash: h, MutationLog: head.MutationLog}) {
					return
				}
			}
			if !c.mapp("no mutation log head: "+id, key, mk(sib, li), &pb.MapTreeHashResponse{RootHash: head.RootHash}) {
				return
			}
		}
		r.Stop()
	}
}

// c04highlevel runs the convenience verifiers against a real service whose answers are altered one at a time.
func c04highlevel(r *R) {
	rng := r.Rand("hl")
	st, _ := newStore(r, "memory")
	real := newService(st, nil, nil)
	m := &LogModel{}
	for i := 0; m.Len() < 23; i++ {
		if err := addEntry(real, lref("3", "l", tLog), m, genEntry(rng, i)); err != nil {
			r.Failf("adding: %v", err)
			return
		}
	}
	w := &MapWorld{}
	g := newMapGen(rng, 5)
	for i := 0; i < 25; i++ {
		if err := w.mutate(real, mref("3", "m"), g.next(&w.MapModel)); err != nil {
			r.Failf("mutating: %v", err)
			return
		}
	}
	t := &tweakSvc{Inner: real}
	log := hl(t, "3", "").VerifiableLog("l")
	mp := hl(t, "3", "").VerifiableMap("m")
	hd := func(s int) *pb.LogTreeHashResponse { return lth(s, m.Tree.Root(s)) }
	expect := func(what string, err error, ok bool) {
		r.Saw("highlevel")
		if (err == nil) != ok {
			r.Failf("%s: %v", what, err)
		}
	}
	other := mkTree("o", 30)
	for a := 1; a <= m.Len(); a++ {
		for b := 1; b <= m.Len(); b++ {
			r.Case("hl-consistency", "%d %d", a, b)
			t.Tweak = nil
			expect(fmt.Sprintf("VerifyConsistency of honest heads %d, %d", a, b), log.VerifyConsistency(bg, hd(a), hd(b)), true)
			expect(fmt.Sprintf("VerifyConsistency of heads %d, %d of two logs", a, b), log.VerifyConsistency(bg, hd(a), lth(b, other.Root(b))), false)
			expect(fmt.Sprintf("VerifyConsistency of heads %d, %d of two logs", a, b), log.VerifyConsistency(bg, lth(a, other.Root(a)), hd(b)), false)
			if a != b {
				t.Tweak = func(mt string, req, resp proto.Message, err error) (proto.Message, error) {
					p := resp.(*pb.LogConsistencyProofResponse)
					switch rng.Intn(4) {
					case 0:
						p.FromSize += int64(1 - 2*rng.Intn(2))
					case 1:
						p.TreeSize += int64(1 - 2*rng.Intn(2))
					case 2:
						if len(p.AuditPath) > 0 {
							i := rng.Intn(len(p.AuditPath))
							p.AuditPath[i] = flipBit(p.AuditPath[i], rng)
						} else {
							p.AuditPath = [][]byte{randBytes(rng, 32)}
						}
					default:
						p.AuditPath = append(p.AuditPath, randBytes(rng, 32))
					}
					return p, err
				}
				expect(fmt.Sprintf("VerifyConsistency of %d, %d with an altered proof", a, b), log.VerifyConsistency(bg, hd(a), hd(b)), false)
			}
		}
	}
	t.Tweak = nil
	for _, x := range [][2]*pb.LogTreeHashResponse{{nil, hd(3)}, {hd(3), nil}, {nil, nil}, {lth(0, nil), hd(2)}, {hd(2), lth(0, nil)}, {lth(0, nil), lth(0, nil)}, {lth(-1, nil), hd(3)}, {hd(3), lth(-3, hd(3).RootHash)}, {lth(-2, nil), lth(-2, nil)}} {
		var err error
		r.Guard("VerifyConsistency", func() { err = log.VerifyConsistency(bg, x[0], x[1]) })
		expect(fmt.Sprintf("VerifyConsistency(%v, %v)", x[0], x[1]), err, false)
	}
	r.Stop()
	for n := 1; n <= m.Len(); n++ {
		for i := 0; i < m.Len(); i++ {
			leaf := m.Tree.Leaves[i]
			r.Case("hl-inclusion", "%d in %d", i, n)
			t.Tweak = nil
			expect(fmt.Sprintf("VerifyInclusion of %d in %d", i, n), log.VerifyInclusion(bg, hd(n), leaf), i < n)
			expect(fmt.Sprintf("VerifyInclusion of %d in head %d of another log", i, n), log.VerifyInclusion(bg, lth(n, other.Root(n)), leaf), false)
			if i >= n {
				continue
			}
			proof := &pb.LogInclusionProofResponse{LeafIndex: int64(i), TreeSize: int64(n), AuditPath: m.Tree.Inclusion(i, n)}
			for _, prev := range []int{0, 1, n, m.Len()} {
				var pv *pb.LogTreeHashResponse
				if prev > 0 {
					pv = hd(prev)
				}
				h, err := log.VerifySuppliedInclusionProof(bg, pv, proof, leaf)
				expect(fmt.Sprintf("VerifySuppliedInclusionProof of %d in %d from %d", i, n, prev), err, true)
				if err == nil && (h.TreeSize != int64(n) || !bytes.Equal(h.RootHash, m.Tree.Root(n))) {
					r.Failf("VerifySuppliedInclusionProof of %d in %d from %d gave head %v", i, n, prev, h)
				}
				bad := proto.Clone(proof).(*pb.LogInclusionProofResponse)
				bad.LeafIndex++
				_, err = log.VerifySuppliedInclusionProof(bg, pv, bad, leaf)
				expect(fmt.Sprintf("VerifySuppliedInclusionProof of %d in %d from %d, wrong index", i, n, prev), err, false)
				_, err = log.VerifySuppliedInclusionProof(bg, pv, proof, other.Leaves[i])
				expect(fmt.Sprintf("VerifySuppliedInclusionProof of %d in %d from %d, wrong leaf", i, n, prev), err, false)
				if prev > 0 {
					_, err = log.VerifySuppliedInclusionProof(bg, lth(prev, other.Root(prev)), proof, leaf)
					expect(fmt.Sprintf("VerifySuppliedInclusionProof of %d in %d from a foreign head %d", i, n, prev), err, false)
				}
			}
			t.Tweak = func(mt string, req, resp proto.Message, err error) (proto.Message, error) {
				p := resp.(*pb.LogInclusionProofResponse)
				switch rng.Intn(4) {
				case 0:
					p.LeafIndex += int64(1 - 2*rng.Intn(2))
				case 1:
					p.TreeSize += int64(1 - 2*rng.Intn(2))
				case 2:
					if len(p.AuditPath) > 0 {
						k := rng.Intn(len(p.AuditPath))
						p.AuditPath[k] = flipBit(p.AuditPath[k], rng)
					} else {
						p.AuditPath = [][]byte{randBytes(rng, 32)}
					}
				default:
					p.AuditPath = append(p.AuditPath, randBytes(rng, 32))
				}
				return p, err
			}
			expect(fmt.Sprintf("VerifyInclusion of %d in %d with an altered proof", i, n), log.VerifyInclusion(bg, hd(n), leaf), false)
		}
	}
	r.Stop()
	t.Tweak = nil
	for n := 1; n <= w.Size(); n++ {
		for _, k := range append(w.Keys(), "unset") {
			t.Tweak = nil
			state := &verifiable.MapTreeState{MapTreeHead: &pb.MapTreeHashResponse{RootHash: w.Root(n), MutationLog: lth(n, nil)}}
			v, err := mp.VerifiedGet(bg, []byte(k), state)
			r.Case("hl-map", "%x at %d", k, n)
			expect(fmt.Sprintf("VerifiedGet of %x at %d", k, n), err, true)
			if err == nil && !bytes.Equal(v.GetLeafInput(), w.Value([]byte(k), n)) {
				r.Failf("VerifiedGet of %x at %d is %s", k, n, showLD(v))
			}
			if n > 1 && !bytes.Equal(w.Root(n), w.Root(n-1)) {
				bad := &verifiable.MapTreeState{MapTreeHead: &pb.MapTreeHashResponse{RootHash: w.Root(n - 1), MutationLog: lth(n, nil)}}
				_, err = mp.VerifiedGet(bg, []byte(k), bad)
				expect(fmt.Sprintf("VerifiedGet of %x at %d with another root", k, n), err, false)
			}
			for x := 0; x < 5; x++ {
				t.Tweak = func(mt string, req, resp proto.Message, err error) (proto.Message, error) {
					p := resp.(*pb.MapGetValueResponse)
					switch x {
					case 0:
						p.TreeSize += int64(1 - 2*rng.Intn(2))
					case 1:
						p.Value = &pb.LeafData{LeafInput: append(cp(p.Value.GetLeafInput()), 'x')}
					case 2:
						i := rng.Intn(256)
						p.AuditPath[i] = flipBit(p.AuditPath[i], rng)
						if len(p.AuditPath[i]) == 1 {
							p.AuditPath[i] = randBytes(rng, 32)
						}
					case 3:
						if len(p.Value.GetLeafInput()) > 0 {
							p.Value = nil
						} else {
							p.Value = &pb.LeafData{LeafInput: []byte("val0")}
						}
					default:
						i := rng.Intn(256)
						p.AuditPath[i] = append(cp(p.AuditPath[i]), 0)
					}
					return p, err
				}
				_, err = mp.VerifiedGet(bg, []byte(k), state)
				expect(fmt.Sprintf("VerifiedGet of %x at %d, alteration %d", k, n, x), err, false)
			}
		}
	}
}
