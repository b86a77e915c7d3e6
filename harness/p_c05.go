package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C05"] = &property{level: "exploration", run: c05,
		rule:        "Entries are submitted repeatedly, with other extra data, by many clients at once, by callers that overwrite their buffers, with both mutators, across restarts; the log must hold each submitted leaf input exactly once, as first submitted. A case is a (workload, step).",
		assumptions: []string{"SHA-256 collisions do not occur"}}
}

// waitFor polls until f says so. False after minutes: whatever was to happen has not.
func waitFor(r *R, f func() bool) bool {
	for i := 0; ; i++ {
		if f() {
			return true
		}
		if i > 20000 { // well over 100 s
			return false
		}
		if i < 100 {
			runtime.Gosched()
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(5 * time.Millisecond)
		}
		if i%100 == 0 {
			atomic.AddInt64(&r.progress, 1)
		}
	}
}

func scribble(rng *lockedRand, ld *pb.LeafData) {
	for i := range ld.LeafInput {
		ld.LeafInput[i] = byte(rng.Intn(256))
	}
	for i := range ld.ExtraData {
		ld.ExtraData[i] = byte(rng.Intn(256))
	}
	ld.LeafInput = []byte("scribble")
	ld.ExtraData = nil
	ld.Format = 1 - ld.Format
}

type lockedRand struct {
	mu  sync.Mutex
	rng interface{ Intn(int) int }
}

func (l *lockedRand) Intn(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.rng.Intn(n)
}

func c05(r *R) {
	c05sequential(r)
	r.Stop()
	c05failed(r)
	r.Stop()
	c05restart(r)
	r.Stop()
	c05concurrent(r)
}

// one client: resubmissions change nothing at all
func c05sequential(r *R) {
	r.Par(r.N(48, 400), func(round int) {
		rng := r.Rand(fmt.Sprint("seq", round))
		lr := &lockedRand{rng: rng}
		st := &specStore{}
		kind := "instant"
		var mut verifiable.MutatorService
		if round%3 == 2 {
			kind = "batch"
			mut = newBatch(st, 1+rng.Intn(4), 1+rng.Intn(4), time.Millisecond)
		}
		svc := newService(st, mut, nil)
		ref := lref("5", "log", tLog)
		log := hl(svc, "5", "").VerifiableLog("log")
		m := &LogModel{}
		for i := 0; i < r.N(100, 250); i++ {
			ld := genEntry(rng, i)
			if m.Len() > 0 && rng.Intn(2) == 0 { // again
				ld = proto.Clone(m.Entries[rng.Intn(m.Len())]).(*pb.LeafData)
				switch rng.Intn(4) {
				case 0:
					ld.ExtraData = []byte(fmt.Sprintf("other%d", i))
				case 1:
					ld.ExtraData = nil
				case 2:
					ld.Format = 1 - ld.Format
				}
			}
			keep := proto.Clone(ld).(*pb.LeafData)
			_, dup := m.idx[string(spec.LeafHash(ld.LeafInput))]
			before := st.Dump()
			var lh []byte
			var err error
			if rng.Intn(2) == 0 {
				var resp *pb.LogAddEntryResponse
				req := &pb.LogAddEntryRequest{Log: lref("5", "log", tLog), Value: ld}
				g := &guards{}
				g.message(req.ProtoReflect())
				resp, err = svc.LogAddEntry(bg, req)
				if g.broken() {
					r.Failf("%s round %d, entry %d: adding it wrote behind its bytes, where another entry may be", kind, round, i)
				}
				lh = cp(resp.GetLeafHash())
				req.Log.Name = "elsewhere"
				req.Log.LogType = tMut
				scribble(lr, ld)
				for k := range resp.GetLeafHash() {
					resp.LeafHash[k] = 7
				}
			} else {
				var pr verifiable.LogUpdatePromise
				pr, err = log.Add(bg, ld)
				if err == nil {
					lh = cp(pr.LeafHash())
				}
				scribble(lr, ld)
			}
			r.Saw("add")
			if dup {
				r.Saw("resubmission")
			}
			if err != nil {
				r.Failf("%s: adding %s: %v", kind, showLD(keep), err)
				return
			}
			if !bytes.Equal(lh, spec.LeafHash(keep.LeafInput)) {
				r.Failf("%s: adding %s acknowledged as %x, not %x", kind, showLD(keep), lh, spec.LeafHash(keep.LeafInput))
				return
			}
			m.Add(keep)
			r.Case("sequential", "%s round %d step %d dup %v", kind, round, i, dup)
			if kind == "instant" {
				if dup && st.Dump() != before {
					r.Failf("submitting %s again changed what is stored", showLD(keep))
					return
				}
				if !ckInclusion(r, kind, svc, ref, m, m.Index(lh), 0, true) || !ckHead(r, kind, svc, ref, m, 0) {
					return
				}
				if i%10 == 0 && !ckLog(r, kind, svc, ref, m, rng) {
					return
				}
			}
		}
		if kind == "batch" && !waitFor(r, func() bool {
			h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ref})
			return err == nil && h.TreeSize >= int64(m.Len())
		}) {
			r.Failf("batch: not all of %d acknowledged entries are in the log after minutes", m.Len())
			return
		}
		if !ckLog(r, kind, svc, ref, m, rng) {
			return
		}
		for _, lh := range m.Tree.Leaves {
			if !ckInclusion(r, kind, svc, ref, m, m.Index(lh), 0, true) {
				return
			}
		}
		h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lref("5", "elsewhere", tMut)})
		if err != nil || h.TreeSize != 0 {
			r.Failf("entries are in a log they weren't submitted to: %v %v", h, err)
		}
	})
}

// c05failed: an addition that failed half way, on a storage that keeps what it wrote, and is submitted again
func c05failed(r *R) {
	r.Par(r.N(18, 70), func(n int) {
		rng := r.Rand(fmt.Sprint("failed", n))
		st := &specStore{}
		svc := newService(st, nil, nil)
		wd := &c16world{}
		for i := 0; i < n; i++ {
			if err := addEntry(svc, c16lref, &wd.lm, &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", i))}); err != nil {
				r.Failf("%v", err)
				return
			}
		}
		failedThenRetried(r, fmt.Sprintf("log of %d", n), st, wd, rng, false)
	})
}

// resubmission to a log that has been closed and opened again
func c05restart(r *R) {
	rng := r.Rand("restart")
	dir := r.Dir()
	m := &LogModel{}
	ref := lref("5", "log", tLog)
	for round := 0; round < r.N(6, 30); round++ {
		st := &bolt.Storage{Path: dir}
		svc := newService(st, nil, nil)
		for i := 0; i < 12; i++ {
			ld := genEntry(rng, round*100+i)
			if m.Len() > 0 && i%2 == 0 {
				ld = proto.Clone(m.Entries[rng.Intn(m.Len())]).(*pb.LeafData)
				ld.ExtraData = []byte("again")
			}
			r.Saw("add")
			r.Case("restart", "round %d step %d", round, i)
			if err := addEntry(svc, ref, m, ld); err != nil {
				r.Failf("restarted log: %v", err)
			}
		}
		ok := ckLog(r, "restarted log", svc, ref, m, rng)
		st.Close()
		if !ok {
			return
		}
	}
}

func c05concurrent(r *R) {
	for round := 0; round < r.N(64, 500); round++ {
		rng := r.Rand(fmt.Sprint("conc", round))
		kind := []string{"memory", "spec", "bolt", "badger"}[round%4]
		if kind == "bolt" && round%8 != 2 && !r.Thorough() {
			kind = "memory"
		}
		st, cl := newStore(r, kind)
		if s, ok := st.(*specStore); ok {
			s.Yield = func() { runtime.Gosched() }
		}
		mutKind := []string{"instant", "batch"}[(round/4)%2]
		var mut verifiable.MutatorService
		if mutKind == "batch" {
			mut = newBatch(st, []int{1, 2, 3, 7, 50}[rng.Intn(5)], rng.Intn(20), time.Duration(rng.Intn(4))*time.Millisecond)
		}
		svc := newService(st, mut, nil)
		ref := lref("5", "log", tLog)
		clients, distinct, each := 2+rng.Intn(10), 1+rng.Intn(30), 20
		if kind == "bolt" {
			each = 8
		}
		what := fmt.Sprintf("%s/%s %d clients %d entries", kind, mutKind, clients, distinct)
		var wg sync.WaitGroup
		var mu sync.Mutex
		submitted := map[string]map[string]bool{} // leaf input -> extra data and format
		acked := map[string]bool{}
		var refused int64
		for c := 0; c < clients; c++ {
			wg.Add(1)
			crng := r.Rand(fmt.Sprint("conc", round, "c", c))
			go func(c int) {
				defer wg.Done()
				lr := &lockedRand{rng: crng}
				for i := 0; i < each; i++ {
					li := fmt.Sprintf("entry%d", crng.Intn(distinct))
					ld := &pb.LeafData{LeafInput: []byte(li), ExtraData: []byte(fmt.Sprintf("by %d at %d", c, i)), Format: pb.DataFormat(crng.Intn(2))}
					mu.Lock()
					if submitted[li] == nil {
						submitted[li] = map[string]bool{}
					}
					submitted[li][edKey(ld.ExtraData, int32(ld.Format))] = true
					mu.Unlock()
					for try := 0; ; try++ {
						send := proto.Clone(ld).(*pb.LeafData)
						resp, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lref("5", "log", tLog), Value: send})
						scribble(lr, send)
						r.Saw("concurrent-add")
						if err != nil { // e.g. a conflict of two transactions
							atomic.AddInt64(&refused, 1)
							if try > 2000 {
								r.Failf("%s: adding is refused every time: %v", what, err)
								return
							}
							time.Sleep(time.Duration(crng.Intn(300)) * time.Microsecond)
							continue
						}
						if !bytes.Equal(resp.LeafHash, spec.LeafHash([]byte(li))) {
							r.Failf("%s: acknowledged %q with %x", what, li, resp.LeafHash)
							return
						}
						mu.Lock()
						acked[li] = true
						mu.Unlock()
						break
					}
				}
			}(c)
		}
		wg.Wait()
		r.Case("concurrent", "%s refused %d", what, refused)
		r.SawN("concurrent-refused", refused)
		if r.Failed() {
			cl()
			return
		}
		if mutKind == "batch" && !waitFor(r, func() bool {
			h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ref})
			return err == nil && h.TreeSize >= int64(len(acked))
		}) {
			r.Failf("%s: not all of %d acknowledged entries are in the log after minutes", what, len(acked))
			cl()
			return
		}
		// what is there?
		e, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref})
		if err != nil {
			r.Failf("%s: %v", what, err)
			cl()
			return
		}
		m := &LogModel{}
		for i, v := range e.Values {
			if !submitted[string(v.LeafInput)][edKey(v.ExtraData, int32(v.Format))] {
				r.Failf("%s: entry %d is %s, which nobody submitted", what, i, showLD(v))
			}
			if _, nw := m.Add(v); !nw {
				r.Failf("%s: entry %d, %s, is there twice", what, i, showLD(v))
			}
			delete(acked, string(v.LeafInput))
		}
		for li := range acked {
			r.Failf("%s: %q was acknowledged but isn't there", what, li)
		}
		// and again: nothing changes
		for _, v := range e.Values {
			v2 := proto.Clone(v).(*pb.LeafData)
			v2.ExtraData = []byte("late")
			if err := addEntry(svc, ref, m, v2); err != nil {
				r.Failf("%s: resubmission: %v", what, err)
			}
			r.Saw("resubmission")
		}
		if mutKind == "batch" {
			last := &pb.LeafData{LeafInput: []byte("the last one")}
			if err := addEntry(svc, ref, m, last); err != nil {
				r.Failf("%s: %v", what, err)
			}
			if !waitFor(r, func() bool {
				p, err := svc.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: ref, MtlHash: spec.LeafHash(last.LeafInput)})
				return err == nil && p != nil
			}) {
				r.Failf("%s: an acknowledged entry is not in the log after minutes", what)
			}
		}
		if !r.Failed() {
			ckLog(r, what, svc, ref, m, rng)
		}
		cl()
		if r.Failed() {
			return
		}
	}
}
