package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"strings"
	"sync"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C16"] = &property{level: "exploration", run: c16,
		rule:        "For logs and maps of many sizes and shapes, each kind of mutation and of read is repeated with the first, second, third, ... storage operation failing (and, as variants, everything after it, or the operation taking effect and then reporting failure), until it no longer comes to that operation. A case is an (object state, operation, failing storage operation, way of failing).",
		assumptions: []string{"SHA-256 collisions do not occur", "the storage rolls back failed updates"}}
}

// faulty is a storage one operation of which fails.
type faulty struct {
	hookStore
	mu      sync.Mutex
	at      int // which operation fails, from 1; 0 for none
	onwards bool
	n       int
	err     error
	hits    int
	what    string
	salt    int // which error comes first
}

func newFaulty(inner verifiable.StorageWriter) *faulty {
	f := &faulty{}
	f.Inner = inner
	f.Hook = func(op string, ns, key []byte) error {
		if op == "end-read" || op == "end-update" {
			return nil
		}
		f.mu.Lock()
		defer f.mu.Unlock()
		f.n++
		if f.at > 0 && (f.n == f.at || f.onwards && f.n > f.at) {
			if f.hits == 0 {
				f.what = fmt.Sprintf("%s %q", op, trunc(string(key), 60))
			}
			f.hits++
			return f.err
		}
		return nil
	}
	return f
}

var faultErrors = []error{
	errors.New("disk on fire"),
	context.DeadlineExceeded,
	status.Error(codes.Unavailable, "database gone"),
	fmt.Errorf("reading block 7: %w", errors.New("bad checksum")),
	context.Canceled,
	io.EOF,
	&fs.PathError{Op: "open", Path: "000007.sst", Err: fs.ErrNotExist},
	io.ErrUnexpectedEOF,
}

// arm makes the k-th operation fail, in one of the ways.
func (f *faulty) arm(k, way int) {
	f.mu.Lock()
	f.at, f.n, f.hits, f.what = k, 0, 0, ""
	f.onwards = way%3 == 1
	f.Late = way%3 == 2
	f.err = faultErrors[(k*3+way+f.salt)%len(faultErrors)]
	f.mu.Unlock()
}

func (f *faulty) disarm() (hits int, what string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.at, f.onwards, f.Late = 0, false, false
	return f.hits, f.what
}

var wayNames = []string{"fails once", "fails and so does everything after it", "fails after taking effect"}

func c16(r *R) {
	// objects of growing size, on the reference storage
	rounds := r.N(8, 60)
	r.Par(rounds, func(i int) { c16spec(r, i) })
	r.Par(r.N(6, 40), func(i int) { c16real(r, i) })
}

// c16world is a log and a map
type c16world struct {
	lm LogModel
	w  MapWorld
	g  *mapGen
}

var (
	c16lref = lref("16", "l", tLog)
	c16mref = mref("16", "m")
)

func c16spec(r *R, round int) {
	rng := r.Rand(fmt.Sprint("s", round))
	st := &specStore{}
	svc := newService(st, nil, nil)
	wd := &c16world{g: newMapGen(rng, 3+rng.Intn(5))}
	sizes := map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true, 5: true, 7: true, 8: true, 11: true, 15: true, 16: true, 21: true, 31: true, 32: true, 33: true}
	for n := 0; n <= 33; n++ {
		if sizes[n] && (round+n)%2 == 0 || n == 6+round {
			what := fmt.Sprintf("round %d, log of %d, map of %d", round, wd.lm.Len(), wd.w.Size())
			c16writes(r, what, st, wd, rng)
			if (round+n)%3 == 0 || r.Thorough() {
				failedThenRetried(r, what, st, wd, rng, true)
			}
			c16reads(r, what, st, wd, rng)
			if r.Failed() {
				return
			}
		}
		if err := addEntry(svc, c16lref, &wd.lm, &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", n)), ExtraData: []byte("x")}); err != nil {
			r.Failf("add: %v", err)
			return
		}
		if err := wd.w.mutate(svc, c16mref, wd.g.next(&wd.w.MapModel)); err != nil {
			r.Failf("mutate: %v", err)
			return
		}
	}
}

// mutation kinds for a map in some state
func c16muts(wd *c16world, rng *rand.Rand) map[string]spec.Mut {
	rv := map[string]spec.Mut{}
	sz := wd.w.Size()
	for i, k := range wd.g.keys {
		if i > 4 {
			break
		}
		cur := wd.w.Value(k, sz)
		rv[fmt.Sprintf("set %d", i)] = spec.Mut{Action: "set", Key: k, LI: []byte(fmt.Sprintf("new%d", rng.Int31())), ED: []byte("extra")}
		rv[fmt.Sprintf("set same %d", i)] = spec.Mut{Action: "set", Key: k, LI: cur}
		rv[fmt.Sprintf("delete %d", i)] = spec.Mut{Action: "delete", Key: k, NoVal: true}
		rv[fmt.Sprintf("update %d", i)] = spec.Mut{Action: "update", Key: k, LI: []byte(fmt.Sprintf("upd%d", rng.Int31())), Prev: spec.LeafHash(cur)}
		rv[fmt.Sprintf("update in vain %d", i)] = spec.Mut{Action: "update", Key: k, LI: []byte("vain"), Prev: spec.LeafHash([]byte("no such"))}
	}
	rv["set new key"] = spec.Mut{Action: "set", Key: []byte(fmt.Sprintf("k%d", rng.Int31())), LI: []byte("z")}
	rv["delete new key"] = spec.Mut{Action: "delete", Key: []byte("never there"), NoVal: true}
	return rv
}

// c16writes tries every mutation with every fault.
func c16writes(r *R, what string, base *specStore, wd *c16world, rng *rand.Rand) {
	before := base.Dump()
	type write struct {
		name string
		do   func(s Svc) error
		mut  *spec.Mut
	}
	var writes []write
	add := func(name string, ld *pb.LeafData) {
		writes = append(writes, write{name: name, do: func(s Svc) error {
			_, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: c16lref, Value: ld})
			return err
		}})
	}
	add("add", &pb.LeafData{LeafInput: []byte("a new entry"), ExtraData: []byte("with data")})
	add("add empty", &pb.LeafData{})
	if wd.lm.Len() > 0 {
		add("add again", &pb.LeafData{LeafInput: []byte("e0")})
		add("add last again", wd.lm.Entries[wd.lm.Len()-1])
	}
	for name, mu := range c16muts(wd, rng) {
		mu := mu
		writes = append(writes, write{name: name, mut: &mu, do: func(s Svc) error {
			_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: c16mref, Mutation: mutProto(mu)})
			return err
		}})
	}
	for _, w := range writes {
		// without fault, for reference
		ref := base.clone()
		if err := w.do(newService(ref, nil, nil)); err != nil {
			r.Failf("%s: %s: %v", what, w.name, err)
			return
		}
		refDump := ref.Dump()
		for way := 0; way < 3; way++ {
			st := base.clone()
			f := newFaulty(st)
			f.salt = rng.Intn(100)
			svc := newService(f, nil, nil)
			for k := 1; ; k++ {
				f.arm(k, way)
				err := w.do(svc)
				hits, op := f.disarm()
				if hits == 0 {
					if err != nil {
						r.Failf("%s: %s without fault: %v", what, w.name, err)
						return
					}
					break
				}
				c := fmt.Sprintf("%s: %s, storage operation %d (%s) %s", what, w.name, k, op, wayNames[way])
				r.Case("write-fault", "%s", c)
				r.Saw("write-fault")
				if err == nil {
					r.Failf("%s: reported as a success", c)
					return
				}
				if d := st.Dump(); d != before {
					r.Failf("%s: changed what is stored", c)
					return
				}
			}
			// that last one went through
			if w.mut == nil {
				if d := st.Dump(); d != refDump {
					r.Failf("%s: %s after %s: the storage isn't as if there had been no failures", what, w.name, wayNames[way])
					return
				}
			} else {
				mw := wd.w.clone()
				mw.Apply(*w.mut)
				if !ckMapAll(r, what+": "+w.name+" after failures", svc, c16mref, mw, rng, 1) {
					return
				}
			}
		}
	}
}

// failedThenRetried makes changes to a storage that keeps what a failed update has written. A change that fails at some
// point and is then made again must be there once.
func failedThenRetried(r *R, what string, base *specStore, wd *c16world, rng *rand.Rand, maps bool) {
	for n, li := range [][]byte{[]byte("a new entry"), {}} {
		for way := 0; way < 3; way++ {
			for k, done := 1, false; !done; k++ {
				st := base.clone()
				st.NoRollback = true
				f := newFaulty(st)
				f.salt = rng.Intn(100)
				svc := newService(f, nil, nil)
				ld := &pb.LeafData{LeafInput: li, ExtraData: []byte("with data")}
				c := fmt.Sprintf("%s: storage without rollback, add %q, storage operation %d %s", what, li, k, wayNames[way])
				for again := 0; again < 1+(k+n)%3; again++ {
					f.arm(k+again*rng.Intn(4), way)
					_, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: c16lref, Value: ld})
					hits, op := f.disarm()
					if hits == 0 {
						done = true
						break
					}
					c += fmt.Sprintf(" (%s)", op)
					if err == nil {
						r.Failf("%s: reported as a success", c)
						return
					}
					h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: c16lref})
					if err == nil && h.TreeSize == int64(wd.lm.Len()) { // it isn't there, whatever of it was written
						p, err := svc.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: c16lref, MtlHash: spec.LeafHash(li)})
						r.Saw("failed-not-found")
						if status.Code(err) != codes.NotFound {
							r.Failf("%s: the log is still of size %d, but its inclusion proof is %v, %v", c, h.TreeSize, p, err)
							return
						}
					}
				}
				lm := &LogModel{}
				for _, e := range wd.lm.Entries {
					lm.Add(e)
				}
				r.Case("failed-then-retried", "%s", c)
				r.Saw("failed-then-retried")
				if err := addEntry(svc, c16lref, lm, ld); err != nil {
					r.Failf("%s: again, without fault: %v", c, err)
					return
				}
				next := &pb.LeafData{LeafInput: []byte("the next")}
				if !ckLog(r, c+", again", svc, c16lref, lm, rng) || !ckInclusion(r, c+", again", svc, c16lref, lm, lm.Index(spec.LeafHash(li)), 0, true) {
					return
				}
				if err := addEntry(svc, c16lref, lm, next); err != nil {
					r.Failf("%s: the next: %v", c, err)
					return
				}
				if !ckLog(r, c+", again and another", svc, c16lref, lm, rng) {
					return
				}
			}
		}
	}
	if !maps {
		return
	}
	for name, mu := range c16muts(wd, rng) {
		mu := mu
		for way := 0; way < 2; way++ {
			for k, done := 1+rng.Intn(3), false; !done; k += 1 + rng.Intn(4) {
				st := base.clone()
				st.NoRollback = true
				f := newFaulty(st)
				f.salt = rng.Intn(100)
				svc := newService(f, nil, nil)
				f.arm(k, way)
				_, err := svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: c16mref, Mutation: mutProto(mu)})
				hits, op := f.disarm()
				if hits == 0 || strings.HasPrefix(op, "commit") { // by then it is in effect
					break
				}
				c := fmt.Sprintf("%s: storage without rollback, %s, storage operation %d (%s) %s", what, name, k, op, wayNames[way])
				r.Case("failed-then-retried", "%s", c)
				r.Saw("failed-then-retried-map")
				if err == nil {
					r.Failf("%s: reported as a success", c)
					return
				}
				mw := wd.w.clone()
				if !ckMapHead(r, c, svc, c16mref, mw, 0) {
					return
				}
				if err := mw.mutate(svc, c16mref, mu); err != nil {
					r.Failf("%s: again, without fault: %v", c, err)
					return
				}
				if !ckMapAll(r, c+", again", svc, c16mref, mw, rng, 1) {
					return
				}
			}
		}
	}
}

type c16read struct {
	name string
	do   func(s Svc) (interface{}, error)
}

func c16readOps(base *specStore, wd *c16world, rng *rand.Rand) []c16read {
	var rv []c16read
	low := func(req proto.Message) {
		rv = append(rv, c16read{fmt.Sprintf("%s %v", req.ProtoReflect().Descriptor().Name(), req), func(s Svc) (interface{}, error) { return callSvc(s, req) }})
	}
	refs := []*pb.LogRef{c16lref, {Account: c16mref.Account, Name: "m", LogType: tMut}, {Account: c16mref.Account, Name: "m", LogType: tHead}, lref("16", "none", tLog)}
	for i, l := range refs {
		n := []int{wd.lm.Len(), wd.w.Size(), wd.w.Size(), 0}[i]
		ns := []int{0}
		if n > 0 {
			ns = append(ns, 1+rng.Intn(n), n)
		}
		for _, s := range ns {
			low(&pb.LogTreeHashRequest{Log: l, TreeSize: int64(s)})
		}
		low(&pb.LogFetchEntriesRequest{Log: l})
		low(&pb.LogInclusionProofRequest{Log: l, MtlHash: spec.LeafHash([]byte("no such entry"))})
		low(&pb.LogInclusionProofRequest{Log: l, MtlHash: spec.LeafHash([]byte("e0"))})
		if n > 0 {
			a := rng.Intn(n)
			low(&pb.LogFetchEntriesRequest{Log: l, First: int64(a), Last: int64(a + 1 + rng.Intn(n-a))})
			for _, s := range []int{n, 1 + rng.Intn(n)} {
				low(&pb.LogInclusionProofRequest{Log: l, TreeSize: int64(s), LeafIndex: int64(rng.Intn(s))})
				low(&pb.LogConsistencyProofRequest{Log: l, FromSize: int64(1 + rng.Intn(s)), TreeSize: int64(s)})
			}
			low(&pb.LogConsistencyProofRequest{Log: l, FromSize: int64(1 + rng.Intn(n))})
		}
	}
	for _, m := range []*pb.MapRef{c16mref, mref("16", "none")} {
		n := wd.w.Size()
		if m.Name == "none" {
			n = 0
		}
		ns := []int{0}
		if n > 0 {
			ns = append(ns, 1+rng.Intn(n), n)
		}
		for _, s := range ns {
			low(&pb.MapTreeHashRequest{Map: m, TreeSize: int64(s)})
			for i, k := range append([][]byte{[]byte("never set")}, wd.g.keys...) {
				if i < 5 {
					low(&pb.MapGetValueRequest{Map: m, TreeSize: int64(s), Key: k})
				}
			}
		}
	}
	// the verifying client
	n := wd.lm.Len()
	high := func(name string, f func(s Svc) (interface{}, error)) { rv = append(rv, c16read{name, f}) }
	vl := func(s Svc) *verifiable.Log { return hl(s, "16", "").VerifiableLog("l") }
	vm := func(s Svc) *verifiable.Map { return hl(s, "16", "").VerifiableMap("m") }
	if n > 0 {
		a := 1 + rng.Intn(n)
		prev := &pb.LogTreeHashResponse{TreeSize: int64(a), RootHash: wd.lm.Tree.Root(a)}
		head := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: wd.lm.Tree.Root(n)}
		high("VerifiedLatestTreeHead", func(s Svc) (interface{}, error) { return vl(s).VerifiedLatestTreeHead(bg, prev) })
		high("VerifyInclusion", func(s Svc) (interface{}, error) { return nil, vl(s).VerifyInclusion(bg, head, wd.lm.Tree.Leaves[a-1]) })
		high("VerifyEntries", func(s Svc) (interface{}, error) {
			var seen []string
			err := vl(s).VerifyEntries(bg, nil, head, func(ctx context.Context, idx int64, e *pb.LeafData) error {
				seen = append(seen, fmt.Sprintf("%d %s", idx, showLD(e)))
				return nil
			})
			return fmt.Sprint(seen), err
		})
		high("Entry", func(s Svc) (interface{}, error) { return vl(s).Entry(bg, int64(a-1)) })
	}
	if wd.w.Size() > 0 {
		sz := int64(wd.w.Size())
		full, err := vm(newService(base, nil, nil)).VerifiedLatestMapState(bg, nil)
		if err != nil {
			full = nil
		}
		high("VerifiedMapState, VerifiedGet", func(s Svc) (interface{}, error) {
			st, err := vm(s).VerifiedMapState(bg, nil, sz)
			if err != nil {
				return nil, err
			}
			v, err := vm(s).VerifiedGet(bg, wd.g.keys[0], st)
			return showLD(v), err
		})
		high("VerifiedLatestMapState", func(s Svc) (interface{}, error) {
			st, err := vm(s).VerifiedLatestMapState(bg, full)
			if err != nil {
				return nil, err
			}
			return st.MapTreeHead, nil
		})
		high("VerifyMap", func(s Svc) (interface{}, error) {
			var seen []string
			err := vm(s).VerifyMap(bg, nil, full, nil, func(ctx context.Context, idx int64, key []byte, value *pb.LeafData) error {
				seen = append(seen, fmt.Sprintf("%d %x %s", idx, key, showLD(value)))
				return nil
			})
			return fmt.Sprint(seen), err
		})
	}
	return rv
}

func sameAnswer(a, b interface{}) bool {
	pa, oka := a.(proto.Message)
	pb, okb := b.(proto.Message)
	if oka || okb {
		return oka && okb && proto.Equal(pa, pb)
	}
	return fmt.Sprint(a) == fmt.Sprint(b)
}

// c16reads tries every read with every fault, embedded and over REST.
func c16reads(r *R, what string, base *specStore, wd *c16world, rng *rand.Rand) {
	f := newFaulty(base)
	f.salt = rng.Intn(100)
	embedded := newService(f, nil, nil)
	rest := newREST(embedded)
	defer rest.Close()
	before := base.Dump()
	for t, svc := range []Svc{embedded, rest.Client()} {
		via := []string{"", " over REST"}[t]
		for _, op := range c16readOps(base, wd, rng) {
			if t == 1 && rng.Intn(3) > 0 {
				continue
			}
			f.arm(0, 0)
			want, wantErr := op.do(svc)
			f.mu.Lock()
			total := f.n
			f.mu.Unlock()
			for way := 0; way < 3; way++ {
				step := 1
				if total > 60 { // audits: sample
					step = 1 + rng.Intn(total/20)
				}
				for k := 1; k <= total; k += step {
					f.arm(k, way)
					got, err := op.do(svc)
					hits, fop := f.disarm()
					if hits == 0 {
						continue // some reads are concurrent with one another
					}
					c := fmt.Sprintf("%s: %s%s, storage operation %d of %d (%s) %s", what, op.name, via, k, total, fop, wayNames[way])
					r.Case("read-fault", "%s", c)
					r.Saw("read-fault")
					if err != nil {
						r.Saw("read-fault-reported")
						if code(err) == codes.NotFound {
							r.Failf("%s: reported as not found: %v", c, err)
							return
						}
						continue
					}
					if wantErr != nil {
						r.Failf("%s: succeeds, but without failure it gives %v", c, wantErr)
						return
					}
					if !sameAnswer(got, want) {
						r.Failf("%s: the answer is %v instead of %v", c, trunc(fmt.Sprint(got), 400), trunc(fmt.Sprint(want), 400))
						return
					}
				}
			}
			// no lasting effect
			again, err := op.do(svc)
			if (err == nil) != (wantErr == nil) || err == nil && !sameAnswer(again, want) {
				r.Failf("%s: %s%s after failures: %v %v instead of %v %v", what, op.name, via, again, err, want, wantErr)
				return
			}
			if wantErr == nil {
				r.Saw("read-ok")
			}
		}
	}
	if base.Dump() != before {
		r.Failf("%s: failing reads changed what is stored", what)
	}
}

// c16real injects faults at random on the durable storages while an object is written, and checks that only the successes are there.
func c16real(r *R, round int) {
	kind := []string{"bolt", "badger", "bolt"}[round%3]
	rng := r.Rand(fmt.Sprint("real", round))
	st, done := newStore(r, kind)
	defer done()
	f := newFaulty(st)
	f.salt = rng.Intn(100)
	svc := newService(f, nil, nil)
	wd := &c16world{g: newMapGen(rng, 4)}
	for n := 0; n < 40; n++ {
		k := 0
		if rng.Intn(4) > 0 {
			k = 1 + rng.Intn(26)
		}
		way := rng.Intn(3)
		var err error
		var apply func()
		f.arm(k, way)
		if rng.Intn(2) == 0 {
			ld := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", rng.Intn(30)))}
			_, err = svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: c16lref, Value: ld})
			apply = func() { wd.lm.Add(ld) }
		} else {
			mu := wd.g.next(&wd.w.MapModel)
			_, err = svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: c16mref, Mutation: mutProto(mu)})
			apply = func() { wd.w.Apply(mu) }
		}
		hits, op := f.disarm()
		c := fmt.Sprintf("%s storage, round %d step %d, storage operation %d (%s) %s", kind, round, n, k, op, wayNames[way])
		r.Case("real-write", "%s", c)
		r.Saw("real-write")
		if (err != nil) != (hits > 0) {
			r.Failf("%s: %d failures, but it reports %v", c, hits, err)
			return
		}
		if err == nil {
			apply()
		}
		if !ckHead(r, c, svc, c16lref, &wd.lm, 0) || !ckMapHead(r, c, svc, c16mref, &wd.w, 0) {
			return
		}
	}
	if !ckLog(r, kind+" storage at the end", svc, c16lref, &wd.lm, rng) {
		return
	}
	ckMapAll(r, kind+" storage at the end", svc, c16mref, &wd.w, rng, 4)
}
