package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	props["C14"] = &property{level: "exploration", run: c14,
		rule:        "Many clients (embedded, REST, gRPC) write to and read from one log and one map of the same name at once, over storages with delays injected into their transactions. Every call and return is stamped with a logical clock. Afterwards the recorded order of the log and of the map's mutations is taken as the order of the writes, and the whole history is checked for linearizability against it: real-time order, visibility, single growing history, contents, heads and proofs of every read. A case is a (round, final order).",
		assumptions: []string{"SHA-256 collisions do not occur", "schedules are those the Go scheduler produced under injected delays and the race detector's instrumentation"}}
}

// hop is an operation of a concurrent history.
type hop struct {
	what      string
	call, ret int64
	pos       int    // size of the state it saw; for writes, decided afterwards
	leaf      string // writes: the leaf hash
	failed    bool   // writes that were refused
	ck        func() string
	lower     int // sizes already seen by operations that had returned before this one was called
}

// hist is what happened to one object.
type hist struct {
	mu    sync.Mutex
	clock *int64
	ops   []*hop
	seen  int64 // largest size some operation has returned with
}

func (h *hist) start(what string) *hop {
	return &hop{what: what, call: atomic.AddInt64(h.clock, 1), pos: -1}
}

func (h *hist) end(o *hop) {
	o.ret = atomic.AddInt64(h.clock, 1)
	h.mu.Lock()
	h.ops = append(h.ops, o)
	h.mu.Unlock()
	for o.pos > 0 {
		s := atomic.LoadInt64(&h.seen)
		if int64(o.pos) <= s || atomic.CompareAndSwapInt64(&h.seen, s, int64(o.pos)) {
			break
		}
	}
}

// judge checks that the history is linearizable, given the final order. index tells a leaf hash's place.
func (h *hist) judge(r *R, what string, index func(leaf string) int) bool {
	ev := append([]*hop(nil), h.ops...)
	for _, o := range ev {
		if o.leaf == "" {
			continue
		}
		i := index(o.leaf)
		if o.failed {
			if i >= 0 {
				// refused, and nobody else was successful with the same?
				other := false
				for _, p := range ev {
					other = other || p != o && p.leaf == o.leaf && !p.failed
				}
				if !other {
					r.Failf("%s: %s was refused, but is there, at %d", what, o.what, i)
					return false
				}
			}
			continue
		}
		if i < 0 {
			r.Failf("%s: %s was acknowledged, but is not there", what, o.what)
			return false
		}
		o.pos = i + 1
	}
	type point struct {
		t   int64
		o   *hop
		ret bool
	}
	var pts []point
	for _, o := range ev {
		if o.failed || o.pos < 0 {
			continue
		}
		pts = append(pts, point{o.call, o, false}, point{o.ret, o, true})
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i].t < pts[j].t })
	lower, by := 0, "nothing"
	active, overlaps := 0, int64(0)
	dup := map[string]bool{} // leaf: some submission of it can have been the one that counted
	for _, p := range pts {
		o := p.o
		if p.ret {
			active--
			if o.pos > lower {
				lower, by = o.pos, o.what
			}
			continue
		}
		overlaps += int64(active)
		active++
		o.lower = lower
		if o.leaf == "" {
			if o.pos < lower {
				r.Failf("%s: %s saw size %d although %s had returned before with size %d", what, o.what, o.pos, by, lower)
				return false
			}
		} else if lower < o.pos {
			dup[o.leaf] = true
		} else if !dup[o.leaf] {
			dup[o.leaf] = dup[o.leaf]
		}
	}
	for _, p := range pts {
		if !p.ret && p.o.leaf != "" && !dup[p.o.leaf] {
			r.Failf("%s: %s took effect as number %d, although size %d had been seen before any submission of it began", what, p.o.what, p.o.pos, p.o.lower)
			return false
		}
	}
	r.SawN("overlapping-pairs", overlaps)
	for _, o := range ev {
		if o.ck != nil {
			r.Saw("history-read")
			if s := o.ck(); s != "" {
				r.Failf("%s: %s: %s", what, o.what, s)
				return false
			}
		} else {
			r.Saw("history-write")
		}
	}
	return true
}

func c14(r *R) {
	n := r.N(90, 1500)
	for i := 0; i < n; i++ {
		c14round(r, i, n)
		r.Stop()
		if r.Failed() {
			return
		}
	}
}

func c14round(r *R, round, rounds int) {
	rng := r.Rand(fmt.Sprint("r", round))
	kind := []string{"memory", "spec", "bolt", "memory", "spec", "badger"}[round%6]
	inner, done := newStore(r, kind)
	defer done()
	noise := rng.Intn(4)
	var cnt int64
	seed := rng.Int63()
	delay := func() {
		x := uint64(atomic.AddInt64(&cnt, 1))*0x9e3779b97f4a7c15 + uint64(seed)
		x ^= x >> 29
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 32
		switch noise {
		case 0:
		case 1:
			if x%4 == 0 {
				runtime.Gosched()
			}
		case 2:
			if x%64 == 0 {
				time.Sleep(time.Duration(x>>8%200) * time.Microsecond)
			}
		case 3:
			runtime.Gosched()
			if x%512 == 0 {
				time.Sleep(time.Millisecond)
			}
		}
	}
	st := &hookStore{Inner: inner, Hook: func(op string, ns, key []byte) error { delay(); return nil }}
	svc := newService(st, nil, nil)
	svcs := []Svc{svc, svc, svc}
	if round%3 == 1 {
		rs := newREST(svc)
		defer rs.Close()
		gs := newGRPC(svc)
		defer gs.Close()
		svcs = []Svc{svc, rs.Client(), gs.Client()}
	}
	clients := 3 + rng.Intn(8)
	each := 24
	if kind == "bolt" || kind == "badger" {
		each = 10
	}
	mayFail := kind == "badger" // transactions that conflict
	what := fmt.Sprintf("round %d: %s storage, noise %d, %d clients", round, kind, noise, clients)

	var clock int64
	lh, mh := &hist{clock: &clock}, &hist{clock: &clock}
	lm := &LogModel{} // final; filled before judging
	w := &MapWorld{}
	lr := lref("7", "x", tLog)
	mr := mref("7", "x")
	keys := [][]byte{[]byte("k1"), []byte("k2"), collide([]byte("k1"), 9, 1)}
	var wg sync.WaitGroup
	barrier := make(chan struct{})
	for c := 0; c < clients; c++ {
		wg.Add(1)
		crng := r.Rand(fmt.Sprint("r", round, "c", c))
		s := svcs[c%len(svcs)]
		go func(c int) {
			defer wg.Done()
			<-barrier
			cl := &c14client{r: r, rng: crng, s: s, c: c, what: what, lh: lh, mh: mh, lm: lm, w: w, lr: lr, mr: mr, keys: keys, mayFail: mayFail}
			for i := 0; i < each && !r.Failed(); i++ {
				cl.i = i
				if crng.Intn(2) == 0 {
					cl.log()
				} else {
					cl.mapOp()
				}
			}
		}(c)
	}
	close(barrier)
	wg.Wait()
	if r.Failed() {
		return
	}

	// conditional updates: all of them expect the same value
	for k := 0; k < 2; k++ {
		key := []byte(fmt.Sprint("cas", k))
		n := 4 + rng.Intn(6)
		var wg sync.WaitGroup
		barrier := make(chan struct{})
		for c := 0; c < n; c++ {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				<-barrier
				o := mh.start(fmt.Sprintf("conditional update %d of %s", c, key))
				resp, err := svcs[c%len(svcs)].MapSetValue(bg, &pb.MapSetValueRequest{Map: mr, Mutation: &pb.MapMutation{Action: "update", Key: key, Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint("winner", k, "-", c))}, PreviousLeafHash: spec.LeafHash(nil)}})
				r.Saw("conditional-update")
				if err != nil {
					if !mayFail {
						r.Failf("%s: conditional update: %v", what, err)
					}
					return
				}
				o.leaf = string(resp.LeafHash)
				mh.end(o)
			}(c)
		}
		close(barrier)
		wg.Wait()
	}
	if r.Failed() {
		return
	}

	// the outcome
	plain := newService(inner, nil, nil)
	if h, err := plain.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr}); err != nil {
		r.Failf("%s: %v", what, err)
		return
	} else if h.TreeSize > 0 {
		e, err := plain.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: lr})
		if err != nil || int64(len(e.Values)) != h.TreeSize {
			r.Failf("%s: final log: %d entries of %d, %v", what, len(e.GetValues()), h.TreeSize, err)
			return
		}
		for i, v := range e.Values {
			if _, nw := lm.Add(v); !nw {
				r.Failf("%s: final log: entry %d is a duplicate", what, i)
				return
			}
		}
	}
	ml := &pb.LogRef{Account: mr.Account, Name: mr.Name, LogType: tMut}
	if h, err := plain.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ml}); err != nil {
		r.Failf("%s: %v", what, err)
		return
	} else if h.TreeSize > 0 {
		e, err := plain.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ml})
		if err != nil || int64(len(e.Values)) != h.TreeSize {
			r.Failf("%s: final mutation log: %d entries of %d, %v", what, len(e.GetValues()), h.TreeSize, err)
			return
		}
		for _, v := range e.Values {
			w.Apply(mutOf(v))
		}
	}
	if !ckLog(r, what+": finally", plain, lr, lm, rng) || !ckMapAll(r, what+": finally", plain, mr, w, rng, 6) {
		return
	}
	wins := map[string]int{}
	for i, mu := range w.Muts {
		if mu.Action == "update" && bytes.HasPrefix(mu.Key, []byte("cas")) && w.Changed[i] {
			wins[string(mu.Key)]++
		}
	}
	for k, n := range wins {
		r.Saw("conditional-update-winner")
		if n != 1 {
			r.Failf("%s: %d of the conditional updates of %s succeeded", what, n, k)
			return
		}
	}
	if !lh.judge(r, what+": log", func(leaf string) int { return lm.Index([]byte(leaf)) }) {
		return
	}
	if !mh.judge(r, what+": map", func(leaf string) int { return w.Mut.Index([]byte(leaf)) }) {
		return
	}
	f := fnv.New64a()
	for _, l := range lm.Tree.Leaves {
		f.Write(l)
	}
	for _, m := range w.Muts {
		fmt.Fprintf(f, "%s %s %s;", m.Action, m.Key, m.LI)
	}
	r.Case("interleaving", "%s: %x", what, f.Sum64())
}

// mutOf reads a mutation log entry.
func mutOf(v *pb.LeafData) spec.Mut {
	var jm jsonMut
	if err := json.Unmarshal(v.ExtraData, &jm); err != nil {
		return spec.Mut{Action: "set", Key: []byte("unreadable")}
	}
	mu := spec.Mut{Action: jm.Action, Key: jm.Key, Prev: jm.Prev, NoVal: jm.Value == nil}
	if jm.Value != nil {
		mu.LI, mu.ED, mu.Format = jm.Value.LeafInput, jm.Value.ExtraData, jm.Value.Format
	}
	return mu
}

type c14client struct {
	r       *R
	rng     *rand.Rand
	s       Svc
	c, i    int
	what    string
	lh, mh  *hist
	lm      *LogModel
	w       *MapWorld
	lr      *pb.LogRef
	mr      *pb.MapRef
	keys    [][]byte
	mayFail bool
	mine    [][]byte // acknowledged leaf hashes in the log
	mutMine [][]byte
	head    *pb.LogTreeHashResponse
	state   *verifiable.MapTreeState
	last    map[string][]byte
}

func (c *c14client) fail(format string, args ...interface{}) {
	c.r.Failf("%s: client %d step %d: %s", c.what, c.c, c.i, fmt.Sprintf(format, args...))
}

func (c *c14client) log() {
	lm := c.lm
	seen := int(atomic.LoadInt64(&c.lh.seen))
	x := c.rng.Intn(100)
	if x < 40 {
		li := []byte(fmt.Sprintf("e%d-%d", c.c, c.i))
		if c.rng.Intn(4) == 0 {
			li = []byte(fmt.Sprintf("shared%d", c.rng.Intn(6)))
		}
		o := c.lh.start(fmt.Sprintf("client %d: add %s", c.c, li))
		resp, err := c.s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: c.lr, Value: &pb.LeafData{LeafInput: li}})
		o.leaf, o.failed = string(spec.LeafHash(li)), err != nil
		c.lh.end(o)
		if err != nil {
			c.r.Saw("write-refused")
			if !c.mayFail {
				c.fail("add: %v", err)
			}
			return
		}
		if !bytes.Equal(resp.LeafHash, spec.LeafHash(li)) {
			c.fail("acknowledged with %x", resp.LeafHash)
		}
		c.mine = append(c.mine, resp.LeafHash)
		return
	}
	c.logRead(c.lh, c.lr, lm, c.mine, seen, x-40)
}

// logRead does one of several reads of a log whose final contents will be in lm.
func (c *c14client) logRead(h *hist, ref *pb.LogRef, lm *LogModel, mine [][]byte, seen int, x int) {
	t := ref.LogType
	switch {
	case x < 15:
		o := h.start(fmt.Sprintf("client %d: head of %v", c.c, t))
		resp, err := c.s.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ref})
		if err != nil {
			c.fail("head of %v: %v", t, err)
			return
		}
		o.pos = int(resp.TreeSize)
		o.ck = func() string {
			if o.pos > lm.Len() {
				return "head is beyond the end"
			}
			if o.pos > 0 && !bytes.Equal(resp.RootHash, lm.Tree.Root(o.pos)) {
				return fmt.Sprintf("head for size %d is %x, not %x", o.pos, resp.RootHash, lm.Tree.Root(o.pos))
			}
			return ""
		}
		h.end(o)
	case x < 25:
		first := 0
		if seen > 0 {
			first = c.rng.Intn(seen)
		}
		o := h.start(fmt.Sprintf("client %d: entries of %v from %d", c.c, t, first))
		resp, err := c.s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: int64(first)})
		if err != nil {
			if seen > 0 {
				c.fail("entries of %v from %d: %v", t, first, err)
				return
			}
			resp = &pb.LogFetchEntriesResponse{}
		}
		o.pos = first + len(resp.Values)
		o.ck = func() string {
			if o.pos > lm.Len() {
				return "more entries than there are"
			}
			for i, v := range resp.Values {
				if !sameLD(v, lm.Entries[first+i]) {
					return fmt.Sprintf("entry %d is %s, not %s", first+i, showLD(v), showLD(lm.Entries[first+i]))
				}
			}
			return ""
		}
		h.end(o)
	case x < 35 && len(mine) > 0:
		lh := mine[c.rng.Intn(len(mine))]
		o := h.start(fmt.Sprintf("client %d: inclusion by hash in %v", c.c, t))
		resp, err := c.s.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: ref, MtlHash: lh})
		if err != nil {
			c.fail("inclusion of acknowledged entry in %v: %v", t, err)
			return
		}
		o.pos = int(resp.TreeSize)
		o.ck = func() string {
			i := lm.Index(lh)
			if o.pos > lm.Len() || int64(i) != resp.LeafIndex || i >= o.pos || !samePath(resp.AuditPath, lm.Tree.Inclusion(i, o.pos)) {
				return fmt.Sprintf("proof for %d (really %d) in %d of %d is wrong", resp.LeafIndex, i, resp.TreeSize, lm.Len())
			}
			return ""
		}
		h.end(o)
	case x < 45 && seen > 0:
		i := c.rng.Intn(seen)
		o := h.start(fmt.Sprintf("client %d: inclusion of %d in %v", c.c, i, t))
		resp, err := c.s.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: ref, LeafIndex: int64(i)})
		if err != nil {
			c.fail("inclusion of %d (size %d has been seen) in %v: %v", i, seen, t, err)
			return
		}
		o.pos = int(resp.TreeSize)
		o.ck = func() string {
			if o.pos > lm.Len() || resp.LeafIndex != int64(i) || !samePath(resp.AuditPath, lm.Tree.Inclusion(i, o.pos)) {
				return "proof is wrong"
			}
			return ""
		}
		h.end(o)
	case x < 55 && seen > 1:
		from := 1 + c.rng.Intn(seen-1)
		o := h.start(fmt.Sprintf("client %d: consistency from %d in %v", c.c, from, t))
		resp, err := c.s.LogConsistencyProof(bg, &pb.LogConsistencyProofRequest{Log: ref, FromSize: int64(from)})
		if err != nil {
			c.fail("consistency from %d (size %d has been seen) in %v: %v", from, seen, t, err)
			return
		}
		o.pos = int(resp.TreeSize)
		o.ck = func() string {
			if o.pos > lm.Len() || resp.FromSize != int64(from) || !samePath(resp.AuditPath, lm.Tree.Consistency(from, o.pos)) {
				return "proof is wrong"
			}
			return ""
		}
		h.end(o)
	case t == tLog:
		o := h.start(fmt.Sprintf("client %d: verified latest head", c.c))
		nh, err := hl(c.s, ref.Account.Id, "").VerifiableLog(ref.Name).VerifiedLatestTreeHead(bg, c.head)
		if err != nil {
			c.fail("verified latest head after %v: %v", c.head, err)
			return
		}
		c.head = nh
		o.pos = int(nh.TreeSize)
		o.ck = func() string {
			if o.pos > lm.Len() || o.pos > 0 && !bytes.Equal(nh.RootHash, lm.Tree.Root(o.pos)) {
				return "head is wrong"
			}
			return ""
		}
		if nh.TreeSize == 0 {
			c.head = nil
		}
		h.end(o)
	}
}

func (c *c14client) mapOp() {
	seen := int(atomic.LoadInt64(&c.mh.seen))
	x := c.rng.Intn(100)
	key := c.keys[c.rng.Intn(len(c.keys))]
	if x < 40 {
		val := []byte(fmt.Sprintf("v%d-%d", c.c, c.i))
		mu := &pb.MapMutation{Action: "set", Key: key, Value: &pb.LeafData{LeafInput: val}}
		switch c.rng.Intn(4) {
		case 0:
			// with a client tag, since equal mutations in the same nanosecond are the same mutation
			mu = &pb.MapMutation{Action: "delete", Key: key, PreviousLeafHash: val}
		case 1:
			mu.Action = "update"
			mu.PreviousLeafHash = spec.LeafHash(c.last[string(key)])
		}
		o := c.mh.start(fmt.Sprintf("client %d: %s %s", c.c, mu.Action, val))
		resp, err := c.s.MapSetValue(bg, &pb.MapSetValueRequest{Map: c.mr, Mutation: mu})
		if err != nil {
			c.r.Saw("write-refused")
			if !c.mayFail {
				c.fail("%s: %v", mu.Action, err)
			}
			return // its leaf hash is not known to us
		}
		o.leaf = string(resp.LeafHash)
		c.mh.end(o)
		c.mutMine = append(c.mutMine, resp.LeafHash)
		return
	}
	c.mapRead(key, seen, x)
}

// mapRead does one of several reads of the map.
func (c *c14client) mapRead(key []byte, seen, x int) {
	w := c.w
	switch {
	case x < 60:
		o := c.mh.start(fmt.Sprintf("client %d: get %s", c.c, key))
		resp, err := c.s.MapGetValue(bg, &pb.MapGetValueRequest{Map: c.mr, Key: key})
		if err != nil {
			c.fail("get: %v", err)
			return
		}
		o.pos = int(resp.TreeSize)
		if c.last == nil {
			c.last = map[string][]byte{}
		}
		c.last[string(key)] = resp.Value.GetLeafInput()
		o.ck = func() string {
			if o.pos > w.Size() {
				return "size beyond the end"
			}
			want := w.Value(key, o.pos)
			if !bytes.Equal(want, resp.Value.GetLeafInput()) {
				return fmt.Sprintf("value at size %d is %s, not %s", o.pos, resp.Value.GetLeafInput(), want)
			}
			if !spec.VerifyMap(key, want, resp.AuditPath, w.Root(o.pos)) {
				return "proof is wrong"
			}
			return ""
		}
		c.mh.end(o)
	case x < 70:
		o := c.mh.start(fmt.Sprintf("client %d: map head", c.c))
		resp, err := c.s.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: c.mr})
		if err != nil {
			c.fail("map head: %v", err)
			return
		}
		o.pos = int(resp.MutationLog.GetTreeSize())
		o.ck = func() string {
			if o.pos > w.Size() || !bytes.Equal(resp.RootHash, w.Root(o.pos)) || o.pos > 0 && !bytes.Equal(resp.MutationLog.RootHash, w.Mut.Tree.Root(o.pos)) {
				return fmt.Sprintf("map head for size %d is wrong", o.pos)
			}
			return ""
		}
		c.mh.end(o)
	case x < 78:
		vm := hl(c.s, c.mr.Account.Id, "").VerifiableMap(c.mr.Name)
		o := c.mh.start(fmt.Sprintf("client %d: verified latest map state", c.c))
		ns, err := vm.VerifiedLatestMapState(bg, c.state)
		if err != nil {
			c.fail("verified latest map state after %v: %v", c.state, err)
			return
		}
		if ns == nil {
			o.pos = 0
		} else {
			o.pos = int(ns.TreeSize())
			c.state = ns
		}
		o.ck = func() string {
			if o.pos > w.Size() || o.pos > 0 && (!bytes.Equal(ns.MapTreeHead.RootHash, w.Root(o.pos)) || !bytes.Equal(ns.MapTreeHead.MutationLog.RootHash, w.Mut.Tree.Root(o.pos))) {
				return "state is wrong"
			}
			if o.pos > 0 && (int(ns.TreeHeadLogTreeHead.TreeSize) > w.Size() || !bytes.Equal(ns.TreeHeadLogTreeHead.RootHash, w.Heads.Tree.Root(int(ns.TreeHeadLogTreeHead.TreeSize)))) {
				return "tree head log head is wrong"
			}
			return ""
		}
		c.mh.end(o)
	case x < 82 && seen > 0:
		// history must not change
		n := 1 + c.rng.Intn(seen)
		o := c.mh.start(fmt.Sprintf("client %d: get %s at %d", c.c, key, n))
		resp, err := c.s.MapGetValue(bg, &pb.MapGetValueRequest{Map: c.mr, Key: key, TreeSize: int64(n)})
		if err != nil {
			c.fail("get at %d (%d has been seen): %v", n, seen, err)
			return
		}
		o.ck = func() string {
			want := w.Value(key, n)
			if int(resp.TreeSize) != n || !bytes.Equal(want, resp.Value.GetLeafInput()) || !spec.VerifyMap(key, want, resp.AuditPath, w.Root(n)) {
				return fmt.Sprintf("value is %s, not %s, or the proof is wrong", resp.Value.GetLeafInput(), want)
			}
			return ""
		}
		c.mh.end(o)
	default:
		t, m, mine := tMut, &w.Mut, c.mutMine
		if c.rng.Intn(2) == 0 {
			t, m, mine = tHead, &w.Heads, nil
		}
		c.logRead(c.mh, &pb.LogRef{Account: c.mr.Account, Name: c.mr.Name, LogType: t}, m, mine, seen, c.rng.Intn(55))
	}
}
