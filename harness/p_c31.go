package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C31"] = &property{level: "exploration", run: c31,
		rule:        "Many waits for updates at a time (Wait of what Add, Set, Update and Delete return, BlockUntilPresent, BlockUntilSize), embedded, over REST and gRPC, on several storages: with the two mutators; with a mutator that holds the update back while other updates come in; with answers that are out of date; with failing requests, and with heads and proofs that are not right, for a while. The log read afterwards says whether the head that a wait gave includes the update; a wait must not end before the update was let go, and must end with a head once it is in and the requests succeed. A case is a (round, object, operation).",
		assumptions: []string{"SHA-256 collisions do not occur", "a wait that has not ended 150 s after its update is in does not end"}}
}

const c31limit = 150 * time.Second

// heldMutator keeps back what is sent while it is told to.
type heldMutator struct {
	inner verifiable.MutatorService
	mu    sync.Mutex
	hold  bool
	q     []func() error
}

func (h *heldMutator) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	if !h.hold {
		return h.inner.QueueMutation(ctx, ns, mut)
	}
	ns, mut = append([]byte(nil), ns...), proto.Clone(mut).(*pb.Mutation)
	h.q = append(h.q, func() error { return h.inner.QueueMutation(bg, ns, mut) })
	return nil
}

func (h *heldMutator) set(hold bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.hold = hold
}

func (h *heldMutator) release() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, f := range h.q {
		if err := f(); err != nil {
			return err
		}
	}
	h.q = nil
	return nil
}

// c31waited is a wait that has ended with a head
type c31waited struct {
	what string
	leaf []byte
	log  *pb.LogTreeHashResponse
	m    *pb.MapTreeHashResponse
}

// c31world is a service with a log and a map, and what was waited for there
type c31world struct {
	r     *R
	what  string
	plain Svc // no transport, no lies
	cl    *verifiable.Account
	mu    sync.Mutex
	ended []c31waited
	done  func()
}

func (w *c31world) bad(format string, args ...interface{}) {
	w.r.Failf("%s: %s", w.what, fmt.Sprintf(format, args...))
}

func (w *c31world) add(e c31waited) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ended = append(w.ended, e)
}

// via gives a service over a transport.
func c31via(svc Svc, transport string) (Svc, func()) {
	switch transport {
	case "rest":
		s := newREST(svc)
		return s.Client(), s.Close
	case "grpc":
		s := newGRPC(svc)
		return s.Client(), s.Close
	}
	return svc, func() {}
}

// judge compares the heads that were given with the log and the map as they are now.
func (w *c31world) judge() {
	fetch := func(ref *pb.LogRef) *LogModel {
		m := &LogModel{}
		h, err := w.plain.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ref})
		if err != nil {
			w.bad("reading the head of %v: %v", ref.LogType, err)
			return nil
		}
		if h.TreeSize == 0 {
			return m
		}
		e, err := w.plain.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: 0, Last: h.TreeSize})
		if err != nil {
			w.bad("reading the entries of %v: %v", ref.LogType, err)
			return nil
		}
		for _, v := range e.Values {
			m.Add(v)
		}
		if int64(m.Len()) != h.TreeSize {
			w.bad("%v of size %d has %d entries", ref.LogType, h.TreeSize, m.Len())
			return nil
		}
		return m
	}
	lm, mm := fetch(lref("31", "l", tLog)), fetch(lref("31", "m", tMut))
	if lm == nil || mm == nil {
		return
	}
	for _, e := range w.ended {
		m, h := lm, e.log
		if e.m != nil {
			m, h = mm, e.m.MutationLog
			if e.leaf == nil && h.GetTreeSize() == 0 {
				continue // the map as it was when it was empty
			}
			want, err := w.plain.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mref("31", "m"), TreeSize: h.GetTreeSize()})
			if err != nil || h.GetTreeSize() == 0 || !proto.Equal(want, e.m) {
				w.bad("%s gave the map head %v, and the map has %v %v at that size", e.what, e.m, want, err)
				continue
			}
		}
		n := int(h.GetTreeSize())
		if e.log != nil && (n < 1 || n > m.Len() || !bytes.Equal(h.RootHash, m.Tree.Root(n))) {
			w.bad("%s gave the head %v, which the log (now of size %d) never had", e.what, h, m.Len())
			continue
		}
		if e.leaf == nil {
			w.r.Saw("size-reached")
			continue
		}
		if i := m.Index(e.leaf); i < 0 || i >= n {
			w.bad("%s gave a head of size %d, and the update is at index %d", e.what, n, i)
			continue
		}
		w.r.Saw("head-includes-update")
	}
}

func c31(r *R) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 48)
	start := func(f func()) {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f()
		}()
	}
	for i := 0; i < r.N(18, 120); i++ {
		start(func() { c31honest(r, i) })
	}
	for i := 0; i < r.N(120, 1200); i++ {
		start(func() { c31held(r, i) })
	}
	for i := 0; i < r.N(40, 400); i++ {
		start(func() { c31size(r, i) })
	}
	for i := 0; i < r.N(24, 200); i++ {
		start(func() { c31cancel(r, i) })
	}
	wg.Wait()
}

// c31honest has writers who wait for what they wrote, and read it.
func c31honest(r *R, round int) {
	rng := r.Rand(fmt.Sprint("h", round))
	kind := []string{"spec", "memory", "bolt", "memory", "badger", "spec"}[round%6]
	inner, done := newStore(r, kind)
	defer done()
	mut, st := "instant", inner
	var ms verifiable.MutatorService
	if round%3 != 1 {
		size, timeout := 1+rng.Intn(8), time.Duration(5+rng.Intn(1200))*time.Millisecond
		g := &gated{st: inner}
		defer g.shut()
		st = g
		mut, ms = fmt.Sprintf("batch of %d within %v", size, timeout), newBatch(g, size, 64, timeout)
	}
	plain := newService(st, ms, nil)
	transport := []string{"embedded", "rest", "grpc"}[round/2%3]
	svc, stop := c31via(plain, transport)
	defer stop()
	w := &c31world{r: r, plain: plain, cl: hl(svc, "31", "")}
	w.what = fmt.Sprintf("round %d: %s storage, %s mutator, %s", round, kind, mut, transport)
	var wg sync.WaitGroup
	for who := 0; who < 4; who++ {
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			c31writer(w, who, rand.New(rand.NewSource(seed)))
		}()
	}
	wg.Wait()
	w.judge()
}

func (w *c31world) waitLog(p verifiable.LogUpdatePromise, what string) {
	ctx, cancel := context.WithTimeout(bg, c31limit)
	defer cancel()
	h, err := p.Wait(ctx)
	if err != nil || h == nil {
		w.bad("waiting for %s: %v %v", what, h, err)
		return
	}
	w.add(c31waited{what: "waiting for " + what, leaf: p.LeafHash(), log: h})
}

func (w *c31world) waitMap(p verifiable.MapUpdatePromise, what string) *pb.MapTreeHashResponse {
	ctx, cancel := context.WithTimeout(bg, c31limit)
	defer cancel()
	h, err := p.Wait(ctx)
	if err != nil || h == nil {
		w.bad("waiting for %s: %v %v", what, h, err)
		return nil
	}
	w.add(c31waited{what: "waiting for " + what, leaf: p.LeafHash(), m: h})
	return h
}

// c31retry repeats what is refused, as a conflict of transactions is, which the writers cause.
func c31retry[P any](f func() (P, error)) (p P, err error) {
	for i := 0; i < 100; i++ {
		if p, err = f(); err == nil {
			return
		}
		time.Sleep(time.Duration(i) * time.Millisecond)
	}
	return
}

func c31writer(w *c31world, who int, rng *rand.Rand) {
	l, m := w.cl.VerifiableLog("l"), w.cl.VerifiableMap("m")
	for i := 0; i < 3; i++ {
		var ps []verifiable.LogUpdatePromise
		var names []string
		for k := 0; k < 1+rng.Intn(3); k++ {
			e := fmt.Sprintf("entry %d-%d-%d", who, i, k)
			if rng.Intn(3) == 0 {
				e = fmt.Sprintf("shared %d", rng.Intn(3))
			}
			w.r.Case("log", "%s: %s", w.what, e)
			p, err := c31retry(func() (verifiable.LogUpdatePromise, error) {
				return l.Add(bg, &pb.LeafData{LeafInput: []byte(e), ExtraData: []byte(fmt.Sprint(who))})
			})
			if err != nil {
				w.bad("adding %s: %v", e, err)
				return
			}
			if !bytes.Equal(p.LeafHash(), spec.LeafHash([]byte(e))) {
				w.bad("the leaf hash for %s is %x", e, p.LeafHash())
			}
			ps, names = append(ps, p), append(names, e)
		}
		for k := len(ps) - 1; k >= 0; k-- {
			w.waitLog(ps[k], names[k])
		}
		w.waitLog(ps[0], names[0]+" again")
	}
	// a writer of his own key reads what he wrote
	key := []byte(fmt.Sprint("key of ", who))
	var cur []byte
	for i := 0; i < 3; i++ {
		var p verifiable.MapUpdatePromise
		var err error
		val := []byte(fmt.Sprintf("value %d-%d", who, i))
		act := []string{"set", "update", "delete"}[rng.Intn(3)]
		w.r.Case("map", "%s: %s %s", w.what, act, key)
		switch act {
		case "set":
			p, err = c31retry(func() (verifiable.MapUpdatePromise, error) { return m.Set(bg, key, &pb.LeafData{LeafInput: val}) })
		case "update":
			p, err = c31retry(func() (verifiable.MapUpdatePromise, error) {
				return m.Update(bg, key, &pb.LeafData{LeafInput: val}, spec.LeafHash(cur))
			})
		case "delete":
			p, err = c31retry(func() (verifiable.MapUpdatePromise, error) { return m.Delete(bg, key) })
			val = nil
		}
		if err != nil {
			w.bad("%s of %s: %v", act, key, err)
			return
		}
		cur = val
		h := w.waitMap(p, act+" of "+string(key))
		if h == nil {
			return
		}
		g, err := m.Get(bg, key, h.GetMutationLog().GetTreeSize())
		if err != nil || !bytes.Equal(g.GetValue().GetLeafInput(), cur) {
			w.bad("after waiting for %s of %s, with the value %q, the value at that size %d is %v %v", act, key, val, h.GetMutationLog().GetTreeSize(), g, err)
			return
		}
		if err := verifiable.VerifyMapInclusionProof(g, key, h); err != nil {
			w.bad("after waiting for %s of %s the value at that size does not verify: %v", act, key, err)
			return
		}
		w.r.Saw("read-own-write")
		if act == "delete" {
			key = append(append([]byte(nil), key...), '\'') // a repeated deletion is a duplicate
			cur = nil
		}
	}
}

// the ways to be wrong for a while. They never make up a head with a proof that fits it.
var c31lies = []struct {
	name string
	f    func(rng *lockedRand, inner Svc, req, resp proto.Message, err error) (proto.Message, error)
}{
	{"nothing", nil},
	{"old heads", func(rng *lockedRand, inner Svc, req, resp proto.Message, err error) (proto.Message, error) {
		if q, ok := req.(*pb.LogTreeHashRequest); ok && err == nil && q.TreeSize == 0 {
			if n := resp.(*pb.LogTreeHashResponse).TreeSize; n > 1 && rng.Intn(4) != 0 {
				return inner.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: q.Log, TreeSize: 1 + int64(rng.Intn(int(n-1)))})
			}
		}
		if q, ok := req.(*pb.MapTreeHashRequest); ok && err == nil && q.TreeSize == 0 {
			if n := resp.(*pb.MapTreeHashResponse).GetMutationLog().GetTreeSize(); n > 1 && rng.Intn(4) != 0 {
				return inner.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: q.Map, TreeSize: 1 + int64(rng.Intn(int(n-1)))})
			}
		}
		return resp, err
	}},
	{"failing proofs", func(rng *lockedRand, inner Svc, req, resp proto.Message, err error) (proto.Message, error) {
		if _, ok := req.(*pb.LogInclusionProofRequest); ok {
			return nil, status.Error([]codes.Code{codes.Unavailable, codes.Internal, codes.ResourceExhausted, codes.DeadlineExceeded, codes.NotFound}[rng.Intn(5)], "for a while")
		}
		return resp, err
	}},
	{"failing proofs, plainly", func(rng *lockedRand, inner Svc, req, resp proto.Message, err error) (proto.Message, error) {
		if _, ok := req.(*pb.LogInclusionProofRequest); ok {
			return nil, []error{errors.New("for a while"), verifiable.ErrNotFound, verifiable.ErrVerificationFailed, verifiable.ErrInternalError}[rng.Intn(4)]
		}
		return resp, err
	}},
	{"wrong proofs", func(rng *lockedRand, inner Svc, req, resp proto.Message, err error) (proto.Message, error) {
		q, ok := req.(*pb.LogInclusionProofRequest)
		if !ok {
			return resp, err
		}
		size := q.TreeSize
		if size == 0 {
			return resp, err
		}
		a, e2 := inner.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: q.Log, LeafIndex: int64(rng.Intn(int(size))), TreeSize: size})
		if e2 != nil {
			return nil, e2
		}
		a = proto.Clone(a).(*pb.LogInclusionProofResponse)
		if err == nil && a.LeafIndex == resp.(*pb.LogInclusionProofResponse).LeafIndex {
			return &pb.LogInclusionProofResponse{TreeSize: size + 1, LeafIndex: a.LeafIndex, AuditPath: a.AuditPath}, nil
		}
		switch rng.Intn(4) {
		case 0:
			a.AuditPath = nil
			if size == 1 {
				a.TreeSize = 2
			}
		case 1:
			a.TreeSize++
		case 2:
			for i := range a.AuditPath {
				a.AuditPath[i][rng.Intn(32)] ^= 1
			}
			a.LeafIndex = -1
		}
		return a, nil
	}},
	{"wrong roots", func(rng *lockedRand, inner Svc, req, resp proto.Message, err error) (proto.Message, error) {
		if q, ok := req.(*pb.LogTreeHashRequest); ok && err == nil {
			if a := resp.(*pb.LogTreeHashResponse); q.TreeSize == 0 && a.TreeSize > 0 {
				a.RootHash[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
				return a, nil
			}
		}
		return resp, err
	}},
	{"heads too large", func(rng *lockedRand, inner Svc, req, resp proto.Message, err error) (proto.Message, error) {
		if q, ok := req.(*pb.LogTreeHashRequest); ok && err == nil {
			if a := resp.(*pb.LogTreeHashResponse); q.TreeSize == 0 {
				a.TreeSize += 1 + int64(rng.Intn(1000))
				if len(a.RootHash) == 0 {
					a.RootHash = make([]byte, 32)
				}
				return a, nil
			}
		}
		return resp, err
	}},
}

// c31held keeps an update back, or has it wrong for a while, with someone waiting for it.
func c31held(r *R, round int) {
	rng := r.Rand(fmt.Sprint("d", round))
	st, done := newStore(r, []string{"memory", "spec"}[round%2])
	defer done()
	held := &heldMutator{inner: &instant.Mutator{Writer: st}}
	plain := newService(st, held, nil)
	lie := c31lies[round%len(c31lies)]
	lr := &lockedRand{rng: rng}
	var honest, released int32
	lying := &tweakSvc{Inner: plain, Tweak: func(method string, req, resp proto.Message, err error) (proto.Message, error) {
		if atomic.LoadInt32(&honest) != 0 || lie.f == nil {
			return resp, err
		}
		return lie.f(lr, plain, req, resp, err)
	}}
	transport := []string{"embedded", "grpc", "embedded", "rest"}[lr.Intn(4)]
	svc, stop := c31via(lying, transport)
	defer stop()
	isMap := lr.Intn(2) == 0
	w := &c31world{r: r, plain: plain, cl: hl(svc, "31", "")}
	w.what = fmt.Sprintf("held %d: %s, %s, map: %v", round, transport, lie.name, isMap)
	pl := hl(plain, "31", "")
	other := func(i int) {
		var err error
		if isMap {
			_, err = pl.VerifiableMap("m").Set(bg, []byte(fmt.Sprint("other", i%5)), &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))})
		} else {
			_, err = pl.VerifiableLog("l").Add(bg, &pb.LeafData{LeafInput: []byte(fmt.Sprint("other", i))})
		}
		if err != nil {
			w.bad("adding another: %v", err)
		}
	}
	n := lr.Intn(9)
	for i := 0; i < n; i++ {
		other(i)
	}
	hold := lr.Intn(4) != 0 // or it is in already
	held.set(hold)
	var lp verifiable.LogUpdatePromise
	var mp verifiable.MapUpdatePromise
	var err error
	if isMap {
		mp, err = w.cl.VerifiableMap("m").Set(bg, []byte("awaited"), &pb.LeafData{LeafInput: []byte("value")})
	} else {
		lp, err = w.cl.VerifiableLog("l").Add(bg, &pb.LeafData{LeafInput: []byte("awaited")})
	}
	held.set(false)
	if err != nil {
		w.bad("sending the update: %v", err)
		return
	}
	w.r.Case("held", "%s, %d before, held %v", w.what, n, hold)
	early := func(what string, got interface{}) {
		// the lie of old heads is none, and neither is anything that can be verified
		if hold && atomic.LoadInt32(&released) == 0 {
			w.bad("%s ended with %v before the update was in", what, got)
		} else if lie.f != nil && lie.name != "old heads" && atomic.LoadInt32(&honest) == 0 {
			w.bad("%s ended with %v although the answers were not right", what, got)
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < 2; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(bg, c31limit)
			defer cancel()
			if isMap && k == 0 {
				h, err := mp.Wait(ctx)
				if err != nil || h == nil {
					w.bad("waiting for the update: %v %v", h, err)
					return
				}
				early("Wait", h)
				w.add(c31waited{"Wait", mp.LeafHash(), nil, h})
				return
			}
			if isMap {
				h, err := w.cl.VerifiableMap("m").MutationLog().BlockUntilPresent(ctx, mp.LeafHash())
				if err != nil || h == nil {
					w.bad("waiting for the mutation: %v %v", h, err)
					return
				}
				early("BlockUntilPresent", h)
				if g, err := pl.VerifiableMap("m").Get(bg, []byte("awaited"), h.TreeSize); err != nil || !bytes.Equal(g.GetValue().GetLeafInput(), []byte("value")) {
					w.bad("BlockUntilPresent ended with %v, where the map has the value %v %v", h, g, err)
				}
				return
			}
			h, err := lp.Wait(ctx)
			if err != nil || h == nil {
				w.bad("waiting for the update: %v %v", h, err)
				return
			}
			early("Wait", h)
			w.add(c31waited{"Wait", lp.LeafHash(), h, nil})
		}()
	}
	pause := func() { time.Sleep(time.Duration(lr.Intn(1500)) * time.Millisecond) }
	more := lr.Intn(3)
	for i := 0; i < more; i++ {
		pause()
		other(100 + i)
	}
	pause()
	first := lr.Intn(2) == 0
	if first {
		atomic.StoreInt32(&honest, 1)
		pause()
	}
	atomic.StoreInt32(&released, 1)
	if err := held.release(); err != nil {
		w.bad("applying the update: %v", err)
	}
	if !first {
		pause()
		if lr.Intn(2) == 0 {
			pause()
			pause()
		}
		atomic.StoreInt32(&honest, 1)
	}
	if lr.Intn(3) == 0 {
		pause()
		other(200)
	}
	wg.Wait()
	w.judge()
}

// c31size waits for a map to reach a size.
func c31size(r *R, round int) {
	rng := r.Rand(fmt.Sprint("s", round))
	st, done := newStore(r, []string{"memory", "spec"}[round%2])
	defer done()
	plain := newService(st, nil, nil)
	lr := &lockedRand{rng: rng}
	stale := lr.Intn(2) == 0
	svc, stop := c31via(&tweakSvc{Inner: plain, Tweak: func(method string, req, resp proto.Message, err error) (proto.Message, error) {
		if q, ok := req.(*pb.MapTreeHashRequest); ok && err == nil && stale && q.TreeSize == 0 {
			if n := resp.(*pb.MapTreeHashResponse).GetMutationLog().GetTreeSize(); n > 1 && lr.Intn(3) == 0 {
				return plain.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: q.Map, TreeSize: 1 + int64(lr.Intn(int(n)))})
			}
		}
		return resp, err
	}}, []string{"embedded", "grpc", "embedded", "rest"}[round%4])
	defer stop()
	w := &c31world{r: r, plain: plain, cl: hl(svc, "31", ""), what: fmt.Sprintf("size %d: %s", round, []string{"embedded", "grpc", "embedded", "rest"}[round%4])}
	pl := hl(plain, "31", "").VerifiableMap("m")
	var size int64 // at most this
	grow := func(n int) {
		for i := 0; i < n; i++ {
			k := atomic.AddInt64(&size, 1)
			if _, err := pl.Set(bg, []byte(fmt.Sprint("k", lr.Intn(6))), &pb.LeafData{LeafInput: []byte(fmt.Sprint(k))}); err != nil {
				w.bad("growing the map: %v", err)
			}
		}
	}
	grow(lr.Intn(6))
	var wg sync.WaitGroup
	var most int64
	for k := 0; k < 4; k++ {
		n := atomic.LoadInt64(&size) + int64(lr.Intn(9)) - 3
		if lr.Intn(6) == 0 {
			n = int64(lr.Intn(2))
		}
		if n > most {
			most = n
		}
		w.r.Case("size", "%s: from %d to %d", w.what, atomic.LoadInt64(&size), n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(bg, c31limit)
			defer cancel()
			h, err := w.cl.VerifiableMap("m").BlockUntilSize(ctx, n)
			if err != nil || h == nil {
				w.bad("waiting for size %d: %v %v", n, h, err)
				return
			}
			if got := h.GetMutationLog().GetTreeSize(); got < n || got > atomic.LoadInt64(&size) {
				w.bad("waiting for size %d ended with %v, at a time when the size was at most %d", n, h, atomic.LoadInt64(&size))
			}
			w.add(c31waited{what: fmt.Sprint("waiting for size ", n), m: h})
		}()
	}
	for atomic.LoadInt64(&size) < most {
		time.Sleep(time.Duration(lr.Intn(900)) * time.Millisecond)
		grow(1 + lr.Intn(3))
	}
	wg.Wait()
	w.judge()
}

// c31cancel waits for what doesn't come, until the context ends.
func c31cancel(r *R, round int) {
	rng := r.Rand(fmt.Sprint("c", round))
	st, done := newStore(r, "memory")
	defer done()
	held := &heldMutator{inner: &instant.Mutator{Writer: st}}
	plain := newService(st, held, nil)
	svc, stop := c31via(plain, []string{"embedded", "grpc", "rest"}[round%3])
	defer stop()
	cl := hl(svc, "31", "")
	l, m := cl.VerifiableLog("l"), cl.VerifiableMap("m")
	for i := 0; i < rng.Intn(5); i++ {
		l.Add(bg, &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))})
		m.Set(bg, []byte(fmt.Sprint(i)), &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))})
	}
	held.set(true)
	ctx, cancel := context.WithTimeout(bg, c31limit)
	var ended int32
	what := []string{"Wait for an entry", "Wait for a mutation", "BlockUntilPresent", "BlockUntilSize"}[round/3%4]
	r.Case("cancelled", "%d: %s", round, what)
	after := time.Duration(rng.Intn(2500)) * time.Millisecond
	go func() {
		time.Sleep(after)
		atomic.StoreInt32(&ended, 1)
		cancel()
	}()
	var got string
	var err error
	switch round / 3 % 4 {
	case 0:
		p, e := l.Add(bg, &pb.LeafData{LeafInput: []byte("held")})
		if e != nil {
			r.Failf("cancelled %d: %v", round, e)
			return
		}
		h, e := p.Wait(ctx)
		got, err = fmt.Sprint(h), e
	case 1:
		p, e := m.Delete(bg, []byte("held"))
		if e != nil {
			r.Failf("cancelled %d: %v", round, e)
			return
		}
		h, e := p.Wait(ctx)
		got, err = fmt.Sprint(h), e
	case 2:
		leaf := [][]byte{nil, {}, spec.LeafHash([]byte("nothing")), []byte("short")}[round/12%4]
		h, e := l.BlockUntilPresent(ctx, leaf)
		got, err = fmt.Sprint(h), e
	case 3:
		h, e := m.BlockUntilSize(ctx, []int64{6, 1 << 40, 1<<63 - 1}[round/12%3])
		got, err = fmt.Sprint(h), e
	}
	if err == nil {
		r.Failf("cancelled %d: %s ended with %s, and there was nothing to come", round, what, got)
	} else if atomic.LoadInt32(&ended) == 0 {
		r.Failf("cancelled %d: %s ended with %v before the context did", round, what, err)
	}
	r.Saw("ended-with-context")
	cancel()
}
