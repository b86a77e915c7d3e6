// Package spec holds the reference models: what RFC 6962, the sparse Merkle map
// definition and the documentation say, written without looking at how the
// repository does it. It shares no code with the repository.
package spec

import (
	"bytes"
	"crypto/sha256"
)

// LeafHash is RFC 6962's leaf hash.
func LeafHash(b []byte) []byte {
	x := make([]byte, 0, len(b)+1)
	x = append(x, 0)
	x = append(x, b...)
	h := sha256.Sum256(x)
	return h[:]
}

// NodeHash is RFC 6962's interior node hash.
func NodeHash(l, r []byte) []byte {
	x := make([]byte, 0, len(l)+len(r)+1)
	x = append(x, 1)
	x = append(x, l...)
	x = append(x, r...)
	h := sha256.Sum256(x)
	return h[:]
}

// SplitPoint is the largest power of two smaller than n, for n > 1.
func SplitPoint(n int64) int64 {
	// by the definition: k < n <= 2k
	for i := 62; i >= 0; i-- {
		if k := int64(1) << uint(i); k < n {
			return k
		}
	}
	return 0
}

// Tree is an append-only Merkle tree over leaf hashes.
type Tree struct {
	Leaves [][]byte
	memo   map[[2]int][]byte
}

// Append adds a leaf hash.
func (t *Tree) Append(lh []byte) { t.Leaves = append(t.Leaves, lh) }

// Len is the number of leaves.
func (t *Tree) Len() int { return len(t.Leaves) }

// Sub is MTH(D[a:b]).
func (t *Tree) Sub(a, b int) []byte {
	if b-a == 1 {
		return t.Leaves[a]
	}
	if t.memo == nil {
		t.memo = make(map[[2]int][]byte)
	}
	if h, ok := t.memo[[2]int{a, b}]; ok {
		return h
	}
	k := int(SplitPoint(int64(b - a)))
	h := NodeHash(t.Sub(a, a+k), t.Sub(a+k, b))
	t.memo[[2]int{a, b}] = h
	return h
}

// Root is the head for size n > 0.
func (t *Tree) Root(n int) []byte { return t.Sub(0, n) }

// Inclusion is PATH(m, D[n]).
func (t *Tree) Inclusion(m, n int) [][]byte { return t.path(m, 0, n) }

func (t *Tree) path(m, a, b int) [][]byte {
	n := b - a
	if n == 1 {
		return nil
	}
	k := int(SplitPoint(int64(n)))
	if m < k {
		return append(t.path(m, a, a+k), t.Sub(a+k, b))
	}
	return append(t.path(m-k, a+k, b), t.Sub(a, a+k))
}

// Consistency is PROOF(m, D[n]), 0 < m < n.
func (t *Tree) Consistency(m, n int) [][]byte { return t.subproof(m, 0, n, true) }

func (t *Tree) subproof(m, a, b int, whole bool) [][]byte {
	n := b - a
	if m == n {
		if whole {
			return nil
		}
		return [][]byte{t.Sub(a, b)}
	}
	k := int(SplitPoint(int64(n)))
	if m <= k {
		return append(t.subproof(m, a, a+k, whole), t.Sub(a+k, b))
	}
	return append(t.subproof(m-k, a+k, b, false), t.Sub(a, a+k))
}

// RootFromInclusion is the root that an audit path leads to, ok false if the path doesn't have the shape
// needed for that index and size.
func RootFromInclusion(m, n int64, leaf []byte, path [][]byte) ([]byte, bool) {
	if m < 0 || n < 1 || m >= n {
		return nil, false
	}
	return rootIncl(m, n, leaf, path)
}

func rootIncl(m, n int64, leaf []byte, path [][]byte) ([]byte, bool) {
	if n == 1 {
		return leaf, len(path) == 0
	}
	if len(path) == 0 {
		return nil, false
	}
	last := path[len(path)-1]
	k := SplitPoint(n)
	if m < k {
		l, ok := rootIncl(m, k, leaf, path[:len(path)-1])
		if !ok {
			return nil, false
		}
		return NodeHash(l, last), true
	}
	r, ok := rootIncl(m-k, n-k, leaf, path[:len(path)-1])
	if !ok {
		return nil, false
	}
	return NodeHash(last, r), true
}

// VerifyInclusion says whether an inclusion proof proves its claim.
func VerifyInclusion(m, n int64, leaf []byte, path [][]byte, root []byte) bool {
	h, ok := RootFromInclusion(m, n, leaf, path)
	return ok && len(h) == 32 && bytes.Equal(h, root)
}

// VerifyConsistency says whether a consistency proof proves its claim.
func VerifyConsistency(m, n int64, path [][]byte, first, second []byte) bool {
	if m < 1 || m >= n {
		return false
	}
	a, b, rest, ok := rootsCons(m, n, path, true, first)
	return ok && len(rest) == 0 && len(a) == 32 && len(b) == 32 && bytes.Equal(a, first) && bytes.Equal(b, second)
}

// returns the old and the new root of the subtree; consumes path from the end
func rootsCons(m, n int64, path [][]byte, whole bool, first []byte) ([]byte, []byte, [][]byte, bool) {
	if m == n {
		if whole {
			return first, first, path, true
		}
		if len(path) != 1 {
			return nil, nil, nil, false
		}
		return path[0], path[0], nil, true
	}
	if len(path) == 0 {
		return nil, nil, nil, false
	}
	last := path[len(path)-1]
	path = path[:len(path)-1]
	k := SplitPoint(n)
	if m <= k {
		o, nw, rest, ok := rootsCons(m, k, path, whole, first)
		if !ok {
			return nil, nil, nil, false
		}
		return o, NodeHash(nw, last), rest, true
	}
	o, nw, rest, ok := rootsCons(m-k, n-k, path, false, first)
	if !ok {
		return nil, nil, nil, false
	}
	return NodeHash(last, o), NodeHash(last, nw), rest, true
}
