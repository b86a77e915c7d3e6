package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"math/bits"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C35"] = &property{level: "exploration", run: c35,
		rule:        "Logs and maps grow to thousands of entries on a storage that counts what is read and written; every addition, every mutation and thousands of reads of all kinds and sizes, allowed and refused, must touch no more keys and bytes than a multiple of what the tree's height (and the entries asked for) calls for; the requests of client operations are counted likewise. A case is an (operation, size).",
		assumptions: []string{"multiples leave room for three times and more of what the current code needs"}}
}

// cost is what has been asked of a storage.
type cost struct {
	reads, writes, bytesRead, bytesWritten, tx, updates int64
}

func (c cost) String() string {
	return fmt.Sprintf("%d reads of %d bytes and %d writes of %d bytes in %d transactions", c.reads, c.bytesRead, c.writes, c.bytesWritten, c.tx)
}

// costStore counts.
type costStore struct {
	verifiable.StorageWriter
	mu sync.Mutex
	c  cost
}

func (s *costStore) take() cost {
	s.mu.Lock()
	defer s.mu.Unlock()
	rv := s.c
	s.c = cost{}
	return rv
}

func (s *costStore) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error {
	s.mu.Lock()
	s.c.tx++
	s.mu.Unlock()
	return s.StorageWriter.ExecuteReadOnly(ctx, ns, func(ctx context.Context, kr verifiable.KeyReader) error {
		return f(ctx, &costKR{kr, nil, s})
	})
}

func (s *costStore) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error {
	s.mu.Lock()
	s.c.tx++
	s.c.updates++
	s.mu.Unlock()
	return s.StorageWriter.ExecuteUpdate(ctx, ns, func(ctx context.Context, kw verifiable.KeyWriter) error {
		return f(ctx, &costKR{kw, kw, s})
	})
}

type costKR struct {
	kr verifiable.KeyReader
	kw verifiable.KeyWriter
	s  *costStore
}

func (k *costKR) Get(ctx context.Context, key []byte, value proto.Message) error {
	err := k.kr.Get(ctx, key, value)
	k.s.mu.Lock()
	defer k.s.mu.Unlock()
	k.s.c.reads++
	if err == nil {
		k.s.c.bytesRead += int64(proto.Size(value))
	}
	return err
}

func (k *costKR) Set(ctx context.Context, key []byte, value proto.Message) error {
	k.s.mu.Lock()
	k.s.c.writes++
	k.s.c.bytesWritten += int64(len(key))
	if value != nil {
		k.s.c.bytesWritten += int64(proto.Size(value))
	}
	k.s.mu.Unlock()
	return k.kw.Set(ctx, key, value)
}

// c35max remembers the most that was seen, for the evidence.
type c35max struct {
	sync.Mutex
	m map[string]string
	n map[string]float64
}

func (x *c35max) saw(op string, share float64, what string) {
	x.Lock()
	defer x.Unlock()
	if x.m == nil {
		x.m, x.n = map[string]string{}, map[string]float64{}
	}
	if share > x.n[op] {
		x.n[op], x.m[op] = share, fmt.Sprintf("%.2f of the limit: %s", share, what)
	}
}

// c35judge compares what an operation took with what it may.
func c35judge(r *R, mx *c35max, op, what string, c cost, keys int, payload int) bool {
	r.Saw(op)
	r.Case(op, "%s", what)
	n := c.reads + c.writes
	limit, limitBytes := int64(keys), int64(keys)*250+int64(payload)*8
	mx.saw(op, float64(n)/float64(limit), what+": "+c.String())
	mx.saw(op+" bytes", float64(c.bytesRead+c.bytesWritten)/float64(limitBytes), what+": "+c.String())
	if n > limit {
		r.Failf("%s takes %s: no more than %d keys are called for", what, c, limit)
		return false
	}
	if b := c.bytesRead + c.bytesWritten; b > limitBytes {
		r.Failf("%s takes %s: no more than %d bytes are called for", what, c, limitBytes)
		return false
	}
	return true
}

func lg2(n int) int { return bits.Len(uint(n)) }

func c35(r *R) {
	mx := &c35max{}
	r.Par(r.N(10, 24), func(i int) {
		switch i % 2 {
		case 0:
			c35log(r, mx, i)
		case 1:
			c35map(r, mx, i)
		}
	})
	r.Par(r.N(16, 60), func(i int) { c35client(r, mx, i) })
	r.Par(r.N(8, 40), func(i int) { c35batch(r, mx, i) })
	r.Extra("most", mx.m)
}

func c35refused(rng *rand.Rand, n int) int64 {
	return []int64{-1, -1 << 63, int64(n) + 1, int64(n) + 1 + rng.Int63n(1<<20), 1<<63 - 1, 1 << 62, 1<<31 + 5}[rng.Intn(7)]
}

// c35log lets a log grow.
func c35log(r *R, mx *c35max, round int) {
	rng := r.Rand(fmt.Sprint("log", round))
	st := &costStore{StorageWriter: &specStore{}}
	svc := newService(st, nil, nil)
	ref := lref("35", "l", tLog)
	end := r.N(5000, 100000) + rng.Intn(500)
	total := int64(0)
	entry := func(i int) []byte {
		b := make([]byte, 8+rng.Intn(60))
		binary.BigEndian.PutUint64(b, uint64(i)*31)
		return b
	}
	var hashes [][]byte
	for n := 0; n < end; n++ {
		e := &pb.LeafData{LeafInput: entry(n)}
		if n%50 == 7 {
			e.ExtraData = randBytes(rng, rng.Intn(5000))
		}
		st.take()
		resp, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: e})
		c := st.take()
		if err != nil {
			r.Failf("adding: %v", err)
			return
		}
		total += c.bytesWritten
		hashes = append(hashes, resp.LeafHash)
		if !c35judge(r, mx, "add", fmt.Sprintf("adding entry %d", n), c, 6*lg2(n+1)+100, proto.Size(e)) {
			return
		}
		if rng.Intn(20) > 0 && n+1 != end {
			continue
		}
		size := n + 1
		for k := 0; k < 12; k++ {
			at := 1 + rng.Intn(size)
			L := lg2(size)
			var q proto.Message
			op, keys := "", 0
			odd := rng.Intn(5) == 0
			switch rng.Intn(6) {
			case 0:
				op, keys, q = "head", 40, &pb.LogTreeHashRequest{Log: ref, TreeSize: int64(rng.Intn(size + 1))}
				if odd {
					q.(*pb.LogTreeHashRequest).TreeSize = c35refused(rng, size)
				}
			case 1:
				op, keys, q = "inclusion", 9*L+100, &pb.LogInclusionProofRequest{Log: ref, TreeSize: int64(at), LeafIndex: int64(rng.Intn(at))}
				if odd {
					q.(*pb.LogInclusionProofRequest).LeafIndex = c35refused(rng, size)
				}
			case 2:
				i := rng.Intn(at)
				op, keys, q = "inclusion by hash", 9*L+100, &pb.LogInclusionProofRequest{Log: ref, TreeSize: int64(at), MtlHash: hashes[i]}
				if odd {
					q.(*pb.LogInclusionProofRequest).MtlHash = randBytes(rng, 32)
				}
			case 3:
				op, keys, q = "consistency", 9*L+100, &pb.LogConsistencyProofRequest{Log: ref, TreeSize: int64(at), FromSize: int64(1 + rng.Intn(at))}
				if odd {
					q.(*pb.LogConsistencyProofRequest).FromSize = c35refused(rng, size)
				}
			case 4:
				first := rng.Intn(size)
				last := first + 1 + rng.Intn(min(40, size-first))
				op, keys, q = "entries", 6*(last-first)+60, &pb.LogFetchEntriesRequest{Log: ref, First: int64(first), Last: int64(last)}
				if odd {
					q, keys = &pb.LogFetchEntriesRequest{Log: ref, First: int64(first), Last: c35refused(rng, size)}, 60
				}
			case 5:
				f := rng.Intn(size)
				op, keys = "add again", 6*L+100
				st.take()
				x, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: int64(f), Last: int64(f + 1)})
				if err != nil || len(x.Values) != 1 {
					r.Failf("entry %d of %d: %v", f, size, err)
					return
				}
				q = &pb.LogAddEntryRequest{Log: ref, Value: x.Values[0]}
			}
			st.take()
			resp, err := callSvcCtx(bg, svc, q)
			c := st.take()
			what := fmt.Sprintf("%T %v of a log of %d", q, trunc(fmt.Sprint(q), 200), size)
			payload := proto.Size(q)
			if err != nil {
				what += fmt.Sprintf(" (%v)", err)
			} else if resp != nil {
				payload += proto.Size(resp)
			}
			if op == "entries" && err == nil {
				keys = 6*len(resp.(*pb.LogFetchEntriesResponse).Values) + 60
			}
			if !c35judge(r, mx, op, what, c, keys, payload) {
				return
			}
		}
	}
	r.SawN("stored-bytes", total)
}

// c35depth is how deep a key can be, given the others.
func c35depth(key []byte, paths map[string][]byte) int {
	me := spec.PathOf(key)
	rv := 0
	for k, o := range paths {
		if k == string(key) {
			continue
		}
		n := 0
		for n < 256 && me[n/8]>>(7-n%8)&1 == o[n/8]>>(7-n%8)&1 {
			n++
		}
		if n+1 > rv {
			rv = n + 1
		}
	}
	return rv
}

// c35map lets a map grow.
func c35map(r *R, mx *c35max, round int) {
	rng := r.Rand(fmt.Sprint("map", round))
	st := &costStore{StorageWriter: &specStore{}}
	svc := newService(st, nil, nil)
	mr := mref("35", "m")
	paths := map[string][]byte{}
	var keys [][]byte
	gen := newMapGen(rng, 12) // with keys whose paths are alike
	end := r.N(2000, 24000)
	calm := rng.Intn(end - 700) // from here, nothing changes for a while
	var still *pb.MapMutation
	for n := 0; n < end; n++ {
		var key []byte
		switch k := rng.Intn(10); {
		case k < 2:
			key = gen.keys[rng.Intn(len(gen.keys))]
		case k < 4 && len(keys) > 0:
			key = keys[rng.Intn(len(keys))]
		default:
			key = randBytes(rng, 1+rng.Intn(30))
		}
		if _, ok := paths[string(key)]; !ok {
			p := spec.PathOf(key)
			paths[string(key)] = p[:]
			keys = append(keys, key)
		}
		mu := &pb.MapMutation{Action: "set", Key: key, Value: &pb.LeafData{LeafInput: randBytes(rng, rng.Intn(40))}}
		switch rng.Intn(8) {
		case 0:
			mu = &pb.MapMutation{Action: "delete", Key: key}
		case 1:
			mu.Action, mu.PreviousLeafHash = "update", spec.LeafHash(nil)
		case 2:
			mu.Value.ExtraData = randBytes(rng, rng.Intn(3000))
		}
		if n >= calm && n < calm+700 {
			if still == nil {
				still = &pb.MapMutation{Action: "set", Key: key, Value: &pb.LeafData{LeafInput: []byte("still")}}
			}
			mu, key = still, still.Key
		}
		D, L := c35depth(key, paths), lg2(n+1)
		st.take()
		_, err := svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: mr, Mutation: mu})
		c := st.take()
		if err != nil {
			r.Failf("mutation: %v", err)
			return
		}
		if !c35judge(r, mx, "mutate", fmt.Sprintf("mutation %d (%s, depth %d)", n, mu.Action, D), c, 8*D+14*L+160, proto.Size(mu)) {
			return
		}
		if rng.Intn(10) > 0 {
			continue
		}
		size := n + 1
		for k := 0; k < 10; k++ {
			key, D := keys[rng.Intn(len(keys))], 0
			if rng.Intn(4) == 0 {
				key = randBytes(rng, 1+rng.Intn(40))
			}
			D = c35depth(key, paths)
			at := int64(rng.Intn(size + 1))
			if rng.Intn(6) == 0 {
				at = c35refused(rng, size)
			}
			var q proto.Message = &pb.MapGetValueRequest{Map: mr, Key: key, TreeSize: at}
			op, most := "get", 4*D+100
			if k%4 == 3 {
				q, op, most = &pb.MapTreeHashRequest{Map: mr, TreeSize: at}, "map head", 60
			}
			st.take()
			resp, err := callSvcCtx(bg, svc, q)
			c := st.take()
			payload := proto.Size(q)
			if err == nil {
				payload += proto.Size(resp)
			}
			if !c35judge(r, mx, op, fmt.Sprintf("%v of a map of %d (depth %d, %v)", trunc(fmt.Sprint(q), 200), size, D, err), c, most, payload) {
				return
			}
		}
	}
}

// countSvc counts requests.
type countSvc struct {
	tweakSvc
	n int64
}

func newCountSvc(inner Svc) *countSvc {
	s := &countSvc{}
	s.tweakSvc = tweakSvc{Inner: inner, Tweak: func(m string, req, resp proto.Message, err error) (proto.Message, error) {
		atomic.AddInt64(&s.n, 1)
		return resp, err
	}}
	return s
}

// c35client counts the requests of client operations on logs and maps of different sizes.
func c35client(r *R, mx *c35max, round int) {
	rng := r.Rand(fmt.Sprint("client", round))
	st := &specStore{}
	svc := newCountSvc(newService(st, nil, nil))
	acc := hl(svc, "35", "")
	l, m := acc.VerifiableLog("l"), acc.VerifiableMap("m")
	n := []int{3, 40, 700, 2500}[round%4] + rng.Intn(20)
	mn := []int{3, 40, 300, 900}[round%4] + rng.Intn(20)
	for i := 0; i < n; i++ {
		if _, err := l.Add(bg, &pb.LeafData{LeafInput: []byte(fmt.Sprint("e", i))}); err != nil {
			r.Failf("adding: %v", err)
			return
		}
	}
	for i := 0; i < mn; i++ {
		if _, err := m.Set(bg, []byte(fmt.Sprint("k", i%200)), &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", i))}); err != nil {
			r.Failf("setting: %v", err)
			return
		}
	}
	bad := false
	count := func(op string, limit int, f func() error) {
		if bad {
			return
		}
		atomic.StoreInt64(&svc.n, 0)
		err := f()
		took := atomic.LoadInt64(&svc.n)
		what := fmt.Sprintf("%s with a log of %d and a map of %d", op, n, mn)
		r.Saw("client-operation")
		r.Case("client", "%s", what)
		mx.saw("requests of "+op, float64(took)/float64(limit), fmt.Sprintf("%s: %d requests", what, took))
		if err != nil {
			r.Failf("%s: %v", what, err)
			bad = true
		} else if took > int64(limit) {
			r.Failf("%s takes %d requests: no more than %d are called for", what, took, limit)
			bad = true
		}
	}
	a := int64(1 + rng.Intn(n-1))
	ma := int64(1 + rng.Intn(mn-1))
	var old, head *pb.LogTreeHashResponse
	var oldState, state *verifiable.MapTreeState
	count("VerifiedTreeHead", 16, func() (err error) { old, err = l.VerifiedTreeHead(bg, nil, a); return })
	count("VerifiedLatestTreeHead", 16, func() (err error) { head, err = l.VerifiedLatestTreeHead(bg, old); return })
	count("VerifiedTreeHead of an older", 16, func() (err error) { _, err = l.VerifiedTreeHead(bg, head, 1+rng.Int63n(int64(n))); return })
	count("VerifyInclusion", 16, func() error { return l.VerifyInclusion(bg, head, spec.LeafHash([]byte("e1"))) })
	count("VerifyEntries", n/30+20, func() error { return l.VerifyEntries(bg, nil, head, nil) })
	count("VerifyEntries from before", n/30+20, func() error { return l.VerifyEntries(bg, old, head, nil) })
	count("Entries", n/30+20, func() error {
		k := 0
		for range l.Entries(bg, 0, int64(n)) {
			k++
		}
		if k != n {
			return fmt.Errorf("%d entries of %d", k, n)
		}
		return nil
	})
	count("VerifiedMapState", 40, func() (err error) { oldState, err = m.VerifiedMapState(bg, nil, ma); return })
	count("VerifiedLatestMapState", 40, func() (err error) { state, err = m.VerifiedLatestMapState(bg, oldState); return })
	count("VerifiedMapState of an older", 40, func() (err error) { _, err = m.VerifiedMapState(bg, state, 1+rng.Int63n(int64(mn))); return })
	count("VerifiedGet", 16, func() (err error) { _, err = m.VerifiedGet(bg, []byte("k1"), state); return })
	count("VerifyMap", mn/10+80, func() error { return m.VerifyMap(bg, nil, state, nil, nil) })
	count("VerifyMap from before", mn/10+80, func() error { return m.VerifyMap(bg, oldState, state, nil, nil) })
	count("Add and Wait", 32, func() error {
		p, err := l.Add(bg, &pb.LeafData{LeafInput: []byte("new")})
		if err == nil {
			_, err = p.Wait(bg)
		}
		return err
	})
	count("Set and Wait", 48, func() error {
		p, err := m.Set(bg, []byte("new"), &pb.LeafData{LeafInput: []byte("new")})
		if err == nil {
			_, err = p.Wait(bg)
		}
		return err
	})
}

// c35gate lets updates through when it is open.
type c35gate struct {
	verifiable.StorageWriter
	open chan struct{}
}

func (g *c35gate) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error {
	<-g.open
	return g.StorageWriter.ExecuteReadOnly(ctx, ns, f)
}

func (g *c35gate) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error {
	<-g.open
	return g.StorageWriter.ExecuteUpdate(ctx, ns, f)
}

// c35batch has mutations wait, which then are written together.
func c35batch(r *R, mx *c35max, round int) {
	rng := r.Rand(fmt.Sprint("batch", round))
	st := &costStore{StorageWriter: &specStore{}}
	g := &c35gate{StorageWriter: st, open: make(chan struct{})}
	b, n := 20+rng.Intn(100), 1000+rng.Intn(500)
	read := newService(st, nil, nil)
	svc := newService(st, newBatch(g, b, 4000, time.Duration(50+rng.Intn(450))*time.Millisecond), nil)
	ref, mr := lref("35", "l", tLog), mref("35", "m")
	isMap := round%2 == 1
	if isMap {
		n /= 3
	}
	for i := 0; i < n; i++ {
		var err error
		if isMap {
			_, err = svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: mr, Mutation: &pb.MapMutation{Action: "set", Key: randBytes(rng, 10), Value: &pb.LeafData{LeafInput: randBytes(rng, 10)}}})
		} else {
			_, err = svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))}})
		}
		if err != nil {
			r.Failf("batching mutator: %v", err)
			return
		}
	}
	st.take()
	close(g.open)
	done := func() bool {
		var h *pb.LogTreeHashResponse
		var err error
		q := ref
		if isMap {
			q = lref("35", "m", tMut)
		}
		h, err = read.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: q})
		return err == nil && h.TreeSize == int64(n)
	}
	began := time.Now()
	for !done() {
		if time.Since(began) > 100*time.Second {
			r.Failf("batching mutator: %d mutations are not applied", n)
			return
		}
		atomic.AddInt64(&r.progress, 1)
		time.Sleep(5 * time.Millisecond)
	}
	total := st.take()
	what := fmt.Sprintf("%d mutations that are waiting, in batches of %d (map: %v)", n, b, isMap)
	r.Case("batch", "%s", what)
	r.SawN("batched", int64(n))
	// some room for batches that are cut short by their timeout
	limit := int64(3*n/b + 10)
	mx.saw("batches", float64(total.updates)/float64(limit), what+": "+fmt.Sprint(total.updates))
	if total.updates > limit {
		r.Failf("%s: written in %d updates", what, total.updates)
	}
	per := 6*lg2(n) + 40
	if isMap {
		per = 8*lg2(n)*2 + 14*lg2(n) + 200
	}
	if k := total.writes; k > int64(n*per) {
		r.Failf("%s: %d keys written", what, k)
	}
}
