package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/protobuf/encoding/prototext"
)

func init() {
	props["C15"] = &property{level: "exploration", run: c15,
		rule:        "Writers queue mutations of several interleaved logs and maps with the batching mutator, over a grid of batch sizes, buffer sizes and timeouts, while readers watch. Each object must end up exactly as its model after the mutations in queued order, with every read in between that of some prefix and reads growing monotonically. A case is a (parameters, round).",
		assumptions: []string{"SHA-256 collisions do not occur", "a mutation that is not applied 100 s after the queue has gone quiet never will be", "batch size is at least 1"}}
}

func c15(r *R) {
	type prm struct {
		batch, buf int
		timeout    time.Duration
	}
	var grid []prm
	for _, b := range []int{1, 2, 3, 7, 64, 5000} {
		for _, f := range []int{0, 1, 5, 100} {
			for _, t := range []time.Duration{0, time.Millisecond, 15 * time.Millisecond} {
				grid = append(grid, prm{b, f, t})
			}
		}
	}
	rounds := r.N(len(grid)*8, len(grid)*100)
	r.Par(rounds, func(i int) {
		p := grid[i%len(grid)]
		c15round(r, i, p.batch, p.buf, p.timeout)
	})
	r.Stop()
	var held sync.WaitGroup
	for i := 0; i < r.N(4, 12); i++ {
		held.Add(1)
		go func(i int) {
			defer held.Done()
			c15held(r, i)
		}(i)
	}
	defer held.Wait()
	r.Par(r.N(12, 48), func(i int) { c15full(r, i) })
	r.Par(r.N(4, 16), func(i int) { c15stream(r, i) })
	r.Par(r.N(8, 40), func(i int) { c15large(r, i) })
	for i := 0; i < r.N(2, 12); i++ {
		c15load(r)
	}
}

// c15held keeps the storage from writing for long, with the buffer full and callers that wait for room or stop waiting: what is acknowledged must
// not be lost.
func c15held(r *R, round int) {
	inner := &specStore{}
	free := make(chan struct{})
	st := &hookStore{Inner: inner, Hook: func(op string, ns, key []byte) error {
		if op == "begin-update" {
			<-free
		}
		return nil
	}}
	batch, buf := []int{1, 3}[round%2], []int{0, 2, 5}[round%3]
	svc := newService(st, newBatch(st, batch, buf, time.Millisecond), nil)
	isMap := round%4 >= 2
	o := &object{acc: "15", name: "held", isMap: isMap}
	what := fmt.Sprintf("held %d: batch %d buffer %d, map: %v", round, batch, buf, isMap)
	var acked [][]byte
	var refused, waited int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < 24; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			ctx, cancel := context.Background(), func() {}
			switch w % 4 {
			case 1:
				ctx, cancel = context.WithTimeout(ctx, time.Duration(50+w*20)*time.Millisecond)
			case 2:
				ctx, cancel = context.WithCancel(ctx)
				time.AfterFunc(time.Duration(50+w*20)*time.Millisecond, cancel)
			}
			defer cancel()
			v := &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", w))}
			var leaf []byte
			var err error
			if isMap {
				var resp *pb.MapSetValueResponse
				if resp, err = svc.MapSetValue(ctx, &pb.MapSetValueRequest{Map: o.mref(), Mutation: &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", w)), Value: v}}); err == nil {
					leaf = resp.LeafHash
				}
			} else {
				var resp *pb.LogAddEntryResponse
				if resp, err = svc.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: o.lref(tLog), Value: v}); err == nil {
					leaf = resp.LeafHash
				}
			}
			if err == nil {
				mu.Lock()
				acked = append(acked, leaf)
				mu.Unlock()
				select {
				case <-free:
					atomic.AddInt64(&waited, 1)
				default:
				}
			} else {
				atomic.AddInt64(&refused, 1)
			}
		}(w)
	}
	hold := time.Duration(r.N(7, 40)) * time.Second
	for t := time.Duration(0); t < hold && !r.Failed(); t += time.Second {
		time.Sleep(time.Second)
		atomic.AddInt64(&r.progress, 1)
	}
	close(free)
	wg.Wait() // or the watchdog reports that they hang
	lr := o.lref(tLog)
	if isMap {
		lr = o.lref(tMut)
	}
	plain := newService(inner, nil, nil)
	r.Case("held", "%s: %d acknowledged", what, len(acked))
	r.SawN("acknowledged-while-held", int64(len(acked))-waited)
	r.SawN("refused-while-held", refused)
	for _, leaf := range acked {
		if !waitFor(r, func() bool {
			h, err := plain.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr})
			if err != nil || h.TreeSize == 0 {
				return false
			}
			p, err := plain.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: lr, TreeSize: h.TreeSize, MtlHash: leaf})
			return err == nil && spec.VerifyInclusion(p.LeafIndex, h.TreeSize, leaf, p.AuditPath, h.RootHash) || r.Failed()
		}) {
			r.Failf("%s: the storage didn't get to write for %v; a mutation was acknowledged and is lost (%d acknowledged, %d after it could write, %d refused)", what, hold, len(acked), waited, refused)
			return
		}
	}
}

// c15full checks that as many mutations as make up a batch are written, though the time to wait for more is far from over.
func c15full(r *R, round int) {
	rng := r.Rand(fmt.Sprint("full", round))
	st := &specStore{}
	batch, buf := 1+rng.Intn(12), rng.Intn(15)
	svc := newService(st, newBatch(st, batch, buf, 2*time.Hour), nil)
	o := &object{acc: "15", name: "full", isMap: round%2 == 1}
	n := batch * (1 + rng.Intn(5))
	what := fmt.Sprintf("full %d: batch %d buffer %d, map: %v", round, batch, buf, o.isMap)
	r.Case("full", "%s: %d mutations", what, n)
	lr := o.lref(tLog)
	if o.isMap {
		lr = o.lref(tMut)
	}
	size := func() int64 {
		h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr})
		if err != nil {
			r.Failf("%s: %v", what, err)
			return 0
		}
		return h.TreeSize
	}
	for i := 0; i < n; i++ {
		var err error
		v := &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", i))}
		if o.isMap {
			_, err = svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: o.mref(), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: v}})
		} else {
			_, err = svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lr, Value: v})
		}
		if err != nil {
			r.Failf("%s: %v", what, err)
			return
		}
	}
	if !waitFor(r, func() bool { return size() == int64(n) || r.Failed() }) {
		r.Failf("%s: %d mutations are acknowledged, which is a multiple of the batch size, but only %d have been written", what, n, size())
		return
	}
	r.SawN("full-batches", int64(n/batch))
}

// c15stream checks that mutations are written while more keep coming, with shorter breaks than the timeout and too few for a full batch: they are held
// for no longer than the timeout.
func c15stream(r *R, round int) {
	st := &specStore{}
	svc := newService(st, newBatch(st, 1<<30, 100, time.Second), nil)
	o := &object{acc: "15", name: "stream", isMap: round%2 == 1}
	what := fmt.Sprintf("stream %d: timeout 1 s, map: %v", round, o.isMap)
	lr := o.lref(tLog)
	if o.isMap {
		lr = o.lref(tMut)
	}
	n := 0
	for start := time.Now(); !r.Failed(); n++ {
		var err error
		v := &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", n))}
		if o.isMap {
			_, err = svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: o.mref(), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: v}})
		} else {
			_, err = svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lr, Value: v})
		}
		if err != nil {
			r.Failf("%s: %v", what, err)
			return
		}
		h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr})
		if err != nil {
			r.Failf("%s: %v", what, err)
			return
		}
		if h.TreeSize > 0 {
			break
		}
		if t := time.Since(start); t > 100*time.Second {
			r.Failf("%s: %d mutations were acknowledged since %v ago, and none has been written as others keep coming", what, n, t)
			return
		}
		time.Sleep(10 * time.Millisecond)
		atomic.AddInt64(&r.progress, 1)
	}
	r.Case("stream", "%s", what)
	r.SawN("streamed", int64(n))
}

// c15load runs the repository's own load program, which adds v0, v1, ... to a log from one goroutine through large
// batches, waits for the last, and prints the head it got.
func c15load(r *R) {
	bin := os.Getenv("VDBLOAD")
	if bin == "" {
		r.Inconclusive("VDBLOAD is not set")
		return
	}
	ctx, cancel := context.WithTimeout(bg, 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = r.Dir()
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				r.Saw("load-program-second")
			}
		}
	}()
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := startCmd(cmd)
	if err == nil {
		err = cmd.Wait()
	}
	close(stop)
	out := buf.Bytes()
	text := string(out)
	if err != nil {
		r.Failf("the load program ended with %v: %s", err, tail(out, 2000))
		return
	}
	i := strings.LastIndex(text, "Tree head:")
	if i < 0 {
		r.Inconclusive("the load program prints no tree head: %s", tail(out, 500))
		return
	}
	var h pb.LogTreeHashResponse
	if err := prototext.Unmarshal([]byte(strings.SplitN(text[i+len("Tree head:"):], "\n", 2)[0]), &h); err != nil {
		r.Inconclusive("the load program's tree head can't be read: %v: %s", err, tail(out, 500))
		return
	}
	var t spec.Tree
	for k := int64(0); k < h.TreeSize && k < 10000000; k++ {
		t.Append(spec.LeafHash([]byte(fmt.Sprint("v", k))))
	}
	// it adds 100000, and its wait is for the last
	if h.TreeSize < 1 || t.Len() != int(h.TreeSize) || !bytes.Equal(t.Root(t.Len()), h.RootHash) {
		r.Failf("the load program's head is %v, and not of v0, v1, ... in order", &h)
		return
	}
	r.Case("load", "%d entries", h.TreeSize)
}

// c15large: whatever the size of a batch, between any two transactions of the mutator the object is whole.
func c15large(r *R, round int) {
	rng := r.Rand(fmt.Sprint("large", round))
	kind := []string{"memory", "spec", "badger", "bolt"}[round%4]
	inner, done := newStore(r, kind)
	defer done()
	plain := newService(inner, nil, nil) // reads what the batching mutator has written
	isMap := round%2 == 1
	o := &c15obj{object: object{acc: "15", name: "large", isMap: isMap}}
	n := r.N(1500, 6000)
	if isMap {
		n = r.N(250, 1200) // a mutation takes many more writes than an entry
	}
	batch := []int{n, n / 2, 100000, 300}[rng.Intn(4)]
	what := fmt.Sprintf("large batches: round %d, %s storage, batch %d", round, kind, batch)
	var states int64
	types := []pb.LogType{tLog}
	if isMap {
		types = []pb.LogType{tMut, tHead}
	}
	if kind == "badger" && n > 800 {
		n = 800 // it has a limit on the size of transactions
	}
	var last int64
	var lastMu sync.Mutex
	closing := false
	defer func() { // before the storage is closed
		lastMu.Lock()
		closing = true
		lastMu.Unlock()
	}()
	st := &hookStore{Inner: inner, Hook: func(op string, ns, key []byte) error {
		if op != "end-update" || r.Failed() {
			return nil
		}
		lastMu.Lock()
		defer lastMu.Unlock()
		if closing {
			return nil
		}
		var size int64
		for _, t := range types {
			h, err := plain.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: o.lref(t)})
			if err != nil || h.TreeSize < last {
				r.Failf("%s: between transactions, after one of size %d, the head of %v is %v %v", what, last, t, h, err)
				return nil
			}
			if size != 0 && h.TreeSize != size {
				r.Failf("%s: between transactions the tree head log has size %d, the mutation log %d", what, h.TreeSize, size)
				return nil
			}
			size = h.TreeSize
			if size == 0 {
				continue
			}
			e, err := plain.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: o.lref(t), First: size - 1, Last: size})
			if err != nil || len(e.Values) != 1 {
				r.Failf("%s: between transactions the last entry of %v with head %v can't be read: %v %v", what, t, h, e, err)
				return nil
			}
			p, err := plain.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: o.lref(t), TreeSize: size, MtlHash: spec.LeafHash(e.Values[0].LeafInput)})
			if err != nil || !spec.VerifyInclusion(p.LeafIndex, size, spec.LeafHash(e.Values[0].LeafInput), p.AuditPath, h.RootHash) {
				r.Failf("%s: between transactions the proof for the last entry of %v with head %v is %v %v", what, t, h, p, err)
				return nil
			}
		}
		if isMap && size > 0 {
			h, err := plain.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: o.mref()})
			if err != nil || h.GetMutationLog().GetTreeSize() != size {
				r.Failf("%s: between transactions the map head is %v %v, the mutation log has size %d", what, h, err, size)
				return nil
			}
			if _, err := plain.MapGetValue(bg, &pb.MapGetValueRequest{Map: o.mref(), Key: []byte("k1")}); err != nil {
				r.Failf("%s: between transactions a value can't be read: %v", what, err)
			}
		}
		last = size
		atomic.AddInt64(&states, 1)
		return nil
	}}
	svc := newService(st, newBatch(st, batch, 2*n, 300*time.Millisecond), nil)
	for i := 0; i < n && !r.Failed(); i++ {
		if !isMap {
			if err := addEntry(svc, o.lref(tLog), &o.log, &pb.LeafData{LeafInput: []byte(fmt.Sprint("entry", i)), ExtraData: []byte("x")}); err != nil {
				r.Failf("%s: %v", what, err)
				return
			}
		} else if err := o.m.mutate(svc, o.mref(), spec.Mut{Action: "set", Key: []byte(fmt.Sprint("k", rng.Intn(40))), LI: []byte(fmt.Sprint("v", i))}); err != nil {
			r.Failf("%s: %v", what, err)
			return
		}
	}
	if !waitFor(r, func() bool {
		h, err := plain.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: o.lref(types[0])})
		return err == nil && h.TreeSize >= int64(n) || r.Failed()
	}) {
		r.Failf("%s: not everything acknowledged is there", what)
	}
	if r.Failed() {
		return
	}
	r.Case("large", "%s: %d states between transactions", what, atomic.LoadInt64(&states))
	r.SawN("state-between-transactions", atomic.LoadInt64(&states))
	if isMap {
		ckMapHead(r, what, plain, o.mref(), &o.m, 0)
	} else {
		ckLog(r, what, plain, o.lref(tLog), &o.log, rng)
	}
}

// an object with those who use it
type c15obj struct {
	object
	h      *hist
	queued [][]byte // leaf hashes in queued order, for a single writer
	final  *LogModel
}

func c15round(r *R, round, batch, buf int, timeout time.Duration) {
	rng := r.Rand(fmt.Sprint("r", round))
	kind := []string{"spec", "memory", "spec", "bolt", "memory", "spec", "badger"}[round%7]
	inner, done := newStore(r, kind)
	defer done()
	st := &hookStore{Inner: inner, Hook: func(op string, ns, key []byte) error {
		if round%3 == 0 {
			runtime.Gosched()
		}
		return nil
	}}
	svc := newService(st, newBatch(st, batch, buf, timeout), nil)
	nObj := 1 + rng.Intn(4)
	var clock int64
	var objs []*c15obj
	for i := 0; i < nObj; i++ {
		objs = append(objs, &c15obj{object: object{acc: "15", name: []string{"x", "y"}[i/2], isMap: i%2 == 1 != (round%2 == 0)}, h: &hist{clock: &clock}, final: &LogModel{}})
	}
	mode := []string{"one writer for all", "a writer per object", "several writers per object"}[rng.Intn(3)]
	each := 24
	if kind == "bolt" || kind == "badger" {
		each = 10
	}
	what := fmt.Sprintf("round %d: %s storage, batch %d buffer %d timeout %v, %d objects, %s", round, kind, batch, buf, timeout, nObj, mode)
	r.Case("round", "%s", what)
	keys := [][]byte{[]byte("k1"), []byte("k2"), collide([]byte("k1"), 7, 1)}

	var omu sync.Mutex
	send := func(o *c15obj, who, i int, rng interface{ Intn(int) int }) bool {
		if !o.isMap {
			li := []byte(fmt.Sprintf("e%d-%d", who, i))
			if rng.Intn(4) == 0 {
				li = []byte(fmt.Sprintf("again%d", rng.Intn(3)))
			}
			ld := &pb.LeafData{LeafInput: li, ExtraData: []byte(fmt.Sprintf("x%d-%d", who, i))}
			op := o.h.start(fmt.Sprintf("add %s", li))
			resp, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: o.lref(tLog), Value: ld})
			if err != nil {
				r.Failf("%s: add: %v", what, err)
				return false
			}
			op.leaf = string(resp.LeafHash)
			o.h.end(op)
			if mode[:4] != "seve" {
				o.log.Add(ld)
			}
			return true
		}
		key := keys[rng.Intn(len(keys))]
		mu := spec.Mut{Action: "set", Key: key, LI: []byte(fmt.Sprintf("v%d-%d", who, i))}
		if rng.Intn(3) == 0 { // a value that others set, too, but with other extra data
			mu.LI, mu.ED = []byte(fmt.Sprintf("same%d", rng.Intn(2))), []byte(fmt.Sprintf("x%d-%d", who, i))
		}
		switch rng.Intn(4) {
		case 0:
			mu = spec.Mut{Action: "delete", Key: key, NoVal: true, Prev: []byte(fmt.Sprintf("v%d-%d", who, i))}
		case 1:
			mu.Action = "update"
			if mode[:4] != "seve" {
				mu.Prev = spec.LeafHash(o.m.Value(key, o.m.Size()))
			} else {
				mu.Prev = spec.LeafHash(nil)
			}
		}
		op := o.h.start(fmt.Sprintf("%s %s", mu.Action, mu.LI))
		resp, err := svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: o.mref(), Mutation: mutProto(mu)})
		if err != nil {
			r.Failf("%s: %s: %v", what, mu.Action, err)
			return false
		}
		op.leaf = string(resp.LeafHash)
		o.h.end(op)
		if mode[:4] != "seve" {
			o.m.Apply(mu)
			o.m.Acked = append(o.m.Acked, resp.LeafHash)
		} else {
			omu.Lock()
			o.n++
			omu.Unlock()
		}
		return true
	}

	var writers, readers sync.WaitGroup
	var stop int32
	for i, o := range objs {
		readers.Add(1)
		rrng := r.Rand(fmt.Sprint("r", round, "reader", i))
		go func(i int, o *c15obj) {
			defer readers.Done()
			c := &c14client{r: r, rng: rrng, s: svc, c: 100 + i, what: what, lh: o.h, mh: o.h, lm: o.final, w: &o.m, lr: o.lref(tLog), mr: o.mref(), keys: keys}
			for k := 0; k < 3000 && atomic.LoadInt32(&stop) == 0 && !r.Failed(); k++ {
				c.i = k
				seen := int(atomic.LoadInt64(&o.h.seen))
				if !o.isMap {
					c.logRead(o.h, c.lr, o.final, nil, seen, rrng.Intn(60))
				} else if rrng.Intn(2) == 0 {
					c.mapRead(keys[rrng.Intn(len(keys))], seen, 40+rrng.Intn(42))
				} else {
					// final mutation log and tree head log are filled in by ckMapAll
					t, m := tMut, &o.m.Mut
					if rrng.Intn(2) == 0 {
						t, m = tHead, &o.m.Heads
					}
					c.logRead(o.h, &pb.LogRef{Account: c.mr.Account, Name: c.mr.Name, LogType: t}, m, nil, seen, rrng.Intn(55))
				}
				time.Sleep(time.Duration(rrng.Intn(400)) * time.Microsecond)
			}
		}(i, o)
	}
	switch mode[:4] {
	case "one ":
		writers.Add(1)
		go func() {
			defer writers.Done()
			wrng := r.Rand(fmt.Sprint("r", round, "w"))
			for i := 0; i < each*nObj; i++ {
				if !send(objs[wrng.Intn(nObj)], 0, i, wrng) {
					return
				}
				if wrng.Intn(10) == 0 {
					time.Sleep(time.Duration(wrng.Intn(3000)) * time.Microsecond)
				}
			}
		}()
	case "a wr", "seve":
		n := 1
		if mode[:4] == "seve" {
			n = 3
		}
		for i, o := range objs {
			for j := 0; j < n; j++ {
				writers.Add(1)
				wrng := r.Rand(fmt.Sprint("r", round, "w", i, j))
				go func(i, j int, o *c15obj) {
					defer writers.Done()
					for k := 0; k < each; k++ {
						if !send(o, i*10+j, k, wrng) {
							return
						}
						if wrng.Intn(10) == 0 {
							time.Sleep(time.Duration(wrng.Intn(3000)) * time.Microsecond)
						}
					}
				}(i, j, o)
			}
		}
	}
	writers.Wait()
	ok := !r.Failed()
	// everything is to become visible
	for _, o := range objs {
		if !ok {
			break
		}
		want := o.log.Len()
		if o.isMap {
			want = o.m.Size()
		}
		if mode[:4] == "seve" {
			if o.isMap {
				want = o.n
			} else {
				set := map[string]bool{}
				o.h.mu.Lock()
				for _, p := range o.h.ops {
					if p.leaf != "" {
						set[p.leaf] = true
					}
				}
				o.h.mu.Unlock()
				want = len(set)
			}
		}
		var size int64
		if !waitFor(r, func() bool {
			t := tLog
			if o.isMap {
				t = tMut
			}
			h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: o.lref(t)})
			if err != nil {
				r.Failf("%s: head: %v", what, err)
				return true
			}
			size = h.TreeSize
			return size >= int64(want)
		}) {
			r.Failf("%s: %v has size %d, but %d were acknowledged long ago", what, &o.object, size, want)
		} else if size != int64(want) && !r.Failed() {
			r.Failf("%s: %v has size %d although only %d different ones were queued", what, &o.object, size, want)
		}
		ok = !r.Failed()
	}
	atomic.StoreInt32(&stop, 1)
	readers.Wait()
	if r.Failed() {
		return
	}
	for _, o := range objs {
		w := what + ": " + o.object.String()
		if mode[:4] == "seve" {
			// the order is whatever it is; take it as the model
			if o.isMap {
				e, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: o.lref(tMut)})
				if err != nil {
					r.Failf("%s: %v", w, err)
					return
				}
				for _, v := range e.Values {
					o.m.Apply(mutOf(v))
				}
			} else {
				e, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: o.lref(tLog)})
				if err != nil {
					r.Failf("%s: %v", w, err)
					return
				}
				for i, v := range e.Values {
					if _, nw := o.log.Add(v); !nw {
						r.Failf("%s: entry %d is there twice", w, i)
						return
					}
				}
			}
		}
		if !o.full(r, w, svc, rng) {
			return
		}
		if !o.asSync(r, w, svc) {
			return
		}
		*o.final = o.log
		index := func(leaf string) int { return o.log.Index([]byte(leaf)) }
		if o.isMap {
			index = func(leaf string) int { return o.m.Mut.Index([]byte(leaf)) }
		}
		// writes: those queued before others come before them
		wh := &hist{clock: &clock}
		for _, p := range o.h.ops {
			if p.leaf != "" {
				q := *p
				wh.ops = append(wh.ops, &q)
			}
		}
		if !wh.judge(r, w+": order of queued mutations", index) {
			return
		}
		// reads: monotonic, and none shows a mutation that hasn't been queued
		for _, p := range o.h.ops {
			if p.leaf != "" {
				p.ret = math.MaxInt64
			}
		}
		if !o.h.judge(r, w+": reads", index) {
			return
		}
		// restart without the mutator: the storage holds it all
		svc2 := newService(inner, nil, nil)
		if !o.quick(r, w+": by another service", svc2) {
			return
		}
		var e *pb.LogFetchEntriesResponse
		if !o.isMap && o.log.Len() > 0 {
			e, _ = svc2.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: o.lref(tLog)})
			for i, v := range e.GetValues() {
				if !bytes.Equal(v.ExtraData, o.log.Entries[i].ExtraData) {
					r.Failf("%s: entry %d has extra data %s", w, i, v.ExtraData)
					return
				}
			}
		}
	}
}

// asSync compares what the values of a map are with what they are after the same mutations with the synchronous mutator.
func (o *c15obj) asSync(r *R, what string, svc Svc) bool {
	if !o.isMap {
		return true // its model says it all
	}
	sync := newService(&specStore{}, nil, nil)
	for _, mu := range o.m.Muts {
		if _, err := sync.MapSetValue(bg, &pb.MapSetValueRequest{Map: o.mref(), Mutation: mutProto(mu)}); err != nil {
			r.Failf("%s: %v", what, err)
			return false
		}
	}
	for _, k := range append(o.m.Keys(), "never set") {
		for n := 1; n <= o.m.Size(); n++ {
			q := &pb.MapGetValueRequest{Map: o.mref(), Key: []byte(k), TreeSize: int64(n)}
			a, err := svc.MapGetValue(bg, q)
			if err != nil {
				r.Failf("%s: value of %q at size %d: %v", what, k, n, err)
				return false
			}
			b, err := sync.MapGetValue(bg, q)
			if err != nil {
				r.Failf("%s: value of %q at size %d with the synchronous mutator: %v", what, k, n, err)
				return false
			}
			r.Saw("same-as-synchronous")
			if !sameLD(a.Value, b.Value) {
				r.Failf("%s: value of %q at size %d is %s, but %s if each mutation is applied synchronously", what, k, n, showLD(a.Value), showLD(b.Value))
				return false
			}
		}
	}
	return true
}
