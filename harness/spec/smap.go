package spec

import (
	"bytes"
	"crypto/sha256"
	"sort"
	"sync"
)

// Defaults[d] is the hash of an empty subtree at depth d (256 = leaf).
var Defaults = func() [][]byte {
	rv := make([][]byte, 257)
	rv[256] = LeafHash(nil)
	for i := 255; i >= 0; i-- {
		rv[i] = NodeHash(rv[i+1], rv[i+1])
	}
	return rv
}()

// KeyPath is where a key lives in the map.
type KeyPath [32]byte

// PathOf is the path for a key.
func PathOf(key []byte) KeyPath { return sha256.Sum256(key) }

// Bit is the i'th bit of the path, most significant first. True is right.
func (k KeyPath) Bit(i int) bool { return k[i/8]&(0x80>>uint(i%8)) != 0 }

type chainKey struct {
	k  KeyPath
	lh [32]byte
	d  int
}

var (
	chainMu   sync.RWMutex
	chainMemo = map[chainKey][]byte{}
)

// hash at depth d of a subtree holding just this leaf
func chain(k KeyPath, lh []byte, d int) []byte {
	ck := chainKey{k: k, d: d}
	copy(ck.lh[:], lh)
	chainMu.RLock()
	h, ok := chainMemo[ck]
	chainMu.RUnlock()
	if ok {
		return h
	}
	var hs [40][]byte
	h = lh
	for i := 255; i >= d; i-- {
		if k.Bit(i) {
			h = NodeHash(Defaults[i+1], h)
		} else {
			h = NodeHash(h, Defaults[i+1])
		}
		if i < 40 {
			hs[i] = h
		}
	}
	chainMu.Lock()
	if len(chainMemo) > 400000 {
		chainMemo = map[chainKey][]byte{}
	}
	for i, x := range hs {
		if x != nil {
			chainMemo[chainKey{k: k, lh: ck.lh, d: i}] = x
		}
	}
	chainMu.Unlock()
	return h
}

// Leaf is a non-default leaf of a sparse map.
type Leaf struct {
	K  KeyPath
	LH []byte
}

// Contents is a sparse map: leaves sorted by path, default leaves left out.
type Contents []Leaf

// MakeContents makes one from values by key (leaf inputs); empty values are left out.
func MakeContents(vals map[string][]byte) Contents {
	var rv Contents
	for k, v := range vals {
		if len(v) != 0 {
			rv = append(rv, Leaf{K: PathOf([]byte(k)), LH: LeafHash(v)})
		}
	}
	sort.Slice(rv, func(i, j int) bool { return bytes.Compare(rv[i].K[:], rv[j].K[:]) < 0 })
	return rv
}

func (c Contents) hash(d int) []byte {
	switch len(c) {
	case 0:
		return Defaults[d]
	case 1:
		return chain(c[0].K, c[0].LH, d)
	}
	i := c.split(d)
	return NodeHash(c[:i].hash(d+1), c[i:].hash(d+1))
}

func (c Contents) split(d int) int {
	return sort.Search(len(c), func(i int) bool { return c[i].K.Bit(d) })
}

// Root is the sparse Merkle root.
func (c Contents) Root() []byte { return c.hash(0) }

// Siblings are the 256 true siblings along a path, top first. nil means an empty subtree.
func (c Contents) Siblings(k KeyPath) [][]byte {
	rv := make([][]byte, 256)
	cur := c
	for d := 0; d < 256; d++ {
		i := cur.split(d)
		l, r := cur[:i], cur[i:]
		if k.Bit(d) {
			l, r = r, l
		}
		// l is ours, r the sibling
		if len(r) > 0 {
			rv[d] = r.hash(d + 1)
		}
		cur = l
		if len(cur) == 0 {
			break
		}
	}
	return rv
}

// VerifyMap says whether siblings lead from a value to a root; missing and empty ones are default.
func VerifyMap(key, leafInput []byte, path [][]byte, root []byte) bool {
	k := PathOf(key)
	h := LeafHash(leafInput)
	for i := 255; i >= 0; i-- {
		s := Defaults[i+1]
		if i < len(path) && len(path[i]) > 0 {
			s = path[i]
		}
		if k.Bit(i) {
			h = NodeHash(s, h)
		} else {
			h = NodeHash(h, s)
		}
	}
	return bytes.Equal(h, root)
}

// Mut is a map mutation.
type Mut struct {
	Action string
	Key    []byte
	LI, ED []byte
	Format int32
	Prev   []byte
	NoVal  bool // no value in the mutation at all
}

// MapModel is the sequential specification of a map.
type MapModel struct {
	Muts    []Mut
	cur     map[string][]byte
	curED   map[string][]byte
	vers    map[string][]ver
	roots   [][]byte
	Changed []bool
}

type ver struct {
	n  int // size from which this holds
	li []byte
}

// Value is the leaf input for a key at size n, nil if absent.
func (m *MapModel) Value(key []byte, n int) []byte {
	vs := m.vers[string(key)]
	i := sort.Search(len(vs), func(i int) bool { return vs[i].n > n })
	if i == 0 {
		return nil
	}
	return vs[i-1].li
}

// Size is the number of mutations.
func (m *MapModel) Size() int { return len(m.Muts) }

// Root is the root for size n.
func (m *MapModel) Root(n int) []byte {
	if n == 0 {
		return Defaults[0]
	}
	return m.roots[n-1]
}

// At returns the values at size n.
func (m *MapModel) At(n int) map[string][]byte {
	rv := map[string][]byte{}
	for k := range m.vers {
		if v := m.Value([]byte(k), n); len(v) > 0 {
			rv[k] = v
		}
	}
	return rv
}

// Keys ever mutated.
func (m *MapModel) Keys() []string {
	rv := make([]string, 0, len(m.vers))
	for k := range m.vers {
		rv = append(rv, k)
	}
	sort.Strings(rv)
	return rv
}

// Apply adds a mutation.
func (m *MapModel) Apply(mu Mut) {
	if m.cur == nil {
		m.cur = map[string][]byte{}
		m.vers = map[string][]ver{}
	}
	k := string(mu.Key)
	old := m.cur[k]
	nw := old
	switch mu.Action {
	case "set":
		nw = mu.LI
	case "delete":
		nw = nil
	case "update":
		if bytes.Equal(mu.Prev, LeafHash(old)) {
			nw = mu.LI
		}
	default:
		panic("bad action")
	}
	if len(nw) == 0 {
		nw = nil
	}
	m.Muts = append(m.Muts, mu)
	changed := !bytes.Equal(old, nw)
	m.Changed = append(m.Changed, changed)
	m.cur[k] = nw
	if changed || len(m.vers[k]) == 0 {
		m.vers[k] = append(m.vers[k], ver{n: len(m.Muts), li: nw})
	}
	if !changed && len(m.roots) > 0 {
		m.roots = append(m.roots, m.roots[len(m.roots)-1])
	} else {
		m.roots = append(m.roots, MakeContents(m.cur).Root())
	}
}
