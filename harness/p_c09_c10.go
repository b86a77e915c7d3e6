package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C09"] = &property{level: "exploration", run: c09,
		rule:        "Audits of logs and maps between many pairs of heads against the real service (must succeed with exactly the right callbacks) and against servers that deviate in one place, either in an answer or consistently in the history they serve (must fail). A case is a (pair of heads, deviation).",
		assumptions: []string{"SHA-256 collisions do not occur", "the head given to the audit is the one the client trusts", "extra data that no hash commits to is not covered"}}
	props["C10"] = &property{level: "exploration", run: c10,
		rule:        "A client carries heads and states forward while the server changes into a fork, mixes answers of two forks at random, substitutes sizes or alters answers; every head or state accepted must belong with the carried one to one of the histories. A case is a (carried size, requested size, server behaviour).",
		assumptions: []string{"SHA-256 collisions do not occur"}}
}

func c09(r *R) {
	c09log(r)
	r.Stop()
	c09map(r)
}

type gotEntry struct {
	i int64
	e *pb.LeafData
}

func c09log(r *R) {
	rng := r.Rand("log")
	st, _ := newStore(r, "memory")
	real := newService(st, nil, nil)
	n := r.N(26, 70)
	m := &LogModel{}
	for i := 0; m.Len() < n; i++ {
		if err := addEntry(real, lref("9", "l", tLog), m, genEntry(rng, i)); err != nil {
			r.Failf("%v", err)
			return
		}
	}
	t := &tweakSvc{Inner: real}
	log := hl(t, "9", "").VerifiableLog("l")
	hd := func(s int) *pb.LogTreeHashResponse {
		if s == 0 {
			return nil
		}
		return lth(s, m.Tree.Root(s))
	}
	audit := func(what string, prev, head *pb.LogTreeHashResponse, f verifiable.LogAuditFunction) error {
		var err error
		if !r.Guard(what, func() { err = log.VerifyEntries(bg, prev, head, f) }) {
			return errors.New("panic")
		}
		return err
	}
	for a := 0; a <= n; a++ {
		for b := 1; b <= n; b++ {
			if n > 40 && rng.Intn(3) != 0 {
				continue
			}
			what := fmt.Sprintf("audit of log from %d to %d", a, b)
			r.Case("log", "%s", what)
			t.Tweak = nil
			var got []gotEntry
			collect := func(ctx context.Context, i int64, e *pb.LeafData) error {
				got = append(got, gotEntry{i, e})
				return nil
			}
			r.Saw("honest-log-audit")
			if err := audit(what, hd(a), hd(b), collect); err != nil {
				r.Failf("%s of an honest server: %v", what, err)
				return
			}
			want := b - a
			if want < 0 {
				want = 0
			}
			if len(got) != want {
				r.Failf("%s called the audit function %d times", what, len(got))
				return
			}
			for k, x := range got {
				if x.i != int64(a+k) || !sameLD(x.e, m.Entries[a+k]) {
					r.Failf("%s called the audit function with %d %s instead of %d %s", what, x.i, showLD(x.e), a+k, showLD(m.Entries[a+k]))
					return
				}
			}
			if rng.Intn(3) == 0 {
				// answers may have fewer entries than were asked for
				most := 1 + rng.Intn(4)
				t.Tweak = c09few(most)
				got = nil
				err := audit(what, hd(a), hd(b), collect)
				r.Saw("few-at-a-time")
				if err != nil || len(got) != want {
					r.Failf("%s of an honest server that answers with %d entries at most: %d entries seen, %v", what, most, len(got), err)
					return
				}
				k := a
				for e := range log.Entries(bg, int64(a), int64(b)) {
					if k >= b || !sameLD(e, m.Entries[k]) {
						r.Failf("entries %d to %d from a server that answers with %d entries at most: %d. is %s", a, b, most, k-a, showLD(e))
						return
					}
					k++
				}
				if k < b && a < b {
					r.Failf("entries %d to %d from a server that answers with %d entries at most: there are %d", a, b, most, k-a)
					return
				}
				t.Tweak = nil
			}
			if err := audit(what, hd(a), hd(b), nil); err != nil {
				r.Failf("%s without an audit function: %v", what, err)
				return
			}
			if want == 0 {
				continue
			}
			// an error from the callback
			myErr := errors.New("no good")
			at, calls := a+rng.Intn(b-a), 0
			err := audit(what, hd(a), hd(b), func(ctx context.Context, i int64, e *pb.LeafData) error {
				calls++
				if i == int64(at) {
					return myErr
				}
				return nil
			})
			r.Saw("callback-error")
			if err != myErr || calls != at-a+1 {
				r.Failf("%s: error from the callback at %d gave %v after %d calls", what, at, err, calls)
				return
			}
			// deviations
			devs := c09logDeviations(m, a, b, rng)
			for _, d := range devs {
				t.Tweak = d.f
				err := audit(what+", "+d.what, hd(a), hd(b), nil)
				r.Saw("deviating-log-audit")
				if err == nil {
					r.Failf("%s succeeded with %s", what, d.what)
					return
				}
			}
			t.Tweak = nil
			// heads
			type hp struct {
				what string
				p, h *pb.LogTreeHashResponse
			}
			bad := []hp{{"altered head", hd(a), lth(b, flipBit(m.Tree.Root(b), rng))}, {"empty head root", hd(a), lth(b, nil)}, {"short head root", hd(a), lth(b, m.Tree.Root(b)[:31])}, {"head beyond the log", hd(a), lth(n+1, m.Tree.Root(n))}}
			if b > a+1 {
				bad = append(bad, hp{"smaller head size", hd(a), lth(b-1, m.Tree.Root(b))})
			}
			if b < n {
				bad = append(bad, hp{"larger head size", hd(a), lth(b+1, m.Tree.Root(b))})
			}
			if a > 0 {
				bad = append(bad, hp{"altered previous head", lth(a, flipBit(m.Tree.Root(a), rng)), hd(b)}, hp{"empty previous root", lth(a, nil), hd(b)})
				if a > 1 {
					bad = append(bad, hp{"smaller previous size", lth(a-1, m.Tree.Root(a)), hd(b)})
				}
				if a+1 < b {
					bad = append(bad, hp{"larger previous size", lth(a+1, m.Tree.Root(a)), hd(b)})
				}
			}
			for _, x := range bad {
				r.Saw("deviating-log-audit")
				if audit(what+", "+x.what, x.p, x.h, nil) == nil {
					r.Failf("%s succeeded with %s", what, x.what)
					return
				}
			}
		}
	}
	if audit("audit to no head", nil, nil, nil) == nil {
		r.Failf("audit to no head succeeded")
	}
	r.Stop()
	// long logs, so that entries come in several batches
	st2, _ := newStore(r, "memory")
	svc2 := newService(st2, nil, nil)
	m2 := &LogModel{}
	for i := 0; m2.Len() < 1203; i++ {
		if err := addEntry(svc2, lref("9", "long", tLog), m2, genEntry(rng, i)); err != nil {
			r.Failf("%v", err)
			return
		}
	}
	t2 := &tweakSvc{Inner: svc2}
	long := hl(t2, "9", "").VerifiableLog("long")
	for _, x := range [][2]int{{0, 1203}, {0, 500}, {0, 501}, {1, 501}, {3, 1003}, {700, 1203}, {512, 1024}, {1, 1203}, {499, 1000}} {
		var prev *pb.LogTreeHashResponse
		if x[0] > 0 {
			prev = lth(x[0], m2.Tree.Root(x[0]))
		}
		head := lth(x[1], m2.Tree.Root(x[1]))
		next := x[0]
		t2.Tweak = nil
		r.Case("long-log", "%v", x)
		r.Saw("honest-log-audit")
		err := long.VerifyEntries(bg, prev, head, func(ctx context.Context, i int64, e *pb.LeafData) error {
			if i != int64(next) || !sameLD(e, m2.Entries[next]) {
				r.Failf("audit of a long log from %d to %d called with %d %s at %d", x[0], x[1], i, showLD(e), next)
			}
			next++
			return nil
		})
		if err != nil || next != x[1] {
			r.Failf("audit of a long log from %d to %d ended at %d: %v", x[0], x[1], next, err)
		}
		for k := 0; k < 12; k++ {
			at := x[0] + rng.Intn(x[1]-x[0])
			d := c09oneEntry(at, rng)
			t2.Tweak = d.f
			r.Saw("deviating-log-audit")
			if long.VerifyEntries(bg, prev, head, nil) == nil {
				r.Failf("audit of a long log from %d to %d succeeded with %s", x[0], x[1], d.what)
			}
		}
	}
}

type deviation struct {
	what string
	f    func(method string, req, resp proto.Message, err error) (proto.Message, error)
}

func errResp(resp proto.Message, err error) bool { return err != nil || resp == nil }

// c09oneEntry alters the entry at an index.
func c09oneEntry(at int, rng *rand.Rand) deviation {
	kind := rng.Intn(7)
	return deviation{fmt.Sprintf("entry %d altered (%d)", at, kind), func(method string, req, resp proto.Message, err error) (proto.Message, error) {
		q, ok := req.(*pb.LogFetchEntriesRequest)
		if !ok || err != nil {
			return resp, err
		}
		p := resp.(*pb.LogFetchEntriesResponse)
		k := at - int(q.First)
		if k < 0 || k >= len(p.Values) {
			return resp, err
		}
		v := p.Values[k]
		switch kind {
		case 0:
			v.LeafInput = append(v.LeafInput, 'x')
		case 1:
			if len(v.LeafInput) == 0 {
				v.LeafInput = []byte{0}
			} else {
				v.LeafInput = flipBit(v.LeafInput, rng)
			}
		case 2:
			p.Values = append(p.Values[:k:k], p.Values[k+1:]...)
			if len(p.Values) == 0 {
				return nil, errors.New("nothing there")
			}
			// with the last one repeated to make up the number
			p.Values = append(p.Values, &pb.LeafData{LeafInput: []byte("filler")})
		case 3:
			p.Values = append(append(append([]*pb.LeafData{}, p.Values[:k]...), &pb.LeafData{LeafInput: []byte("inserted")}), p.Values[k:]...)
		case 4:
			p.Values[k] = &pb.LeafData{}
			if len(v.LeafInput) == 0 {
				p.Values[k].LeafInput = []byte("something")
			}
		case 5:
			p.Values[k] = nil
			if len(v.LeafInput) == 0 {
				p.Values[k] = &pb.LeafData{LeafInput: []byte("something")}
			}
		case 6:
			p.Values = p.Values[:k]
			if k == 0 {
				return p, nil
			}
			p.Values = append(p.Values, &pb.LeafData{LeafInput: []byte("filler")})
		}
		return p, nil
	}}
}

// c09few has answers with a few of the entries asked for.
func c09few(most int) func(method string, req, resp proto.Message, err error) (proto.Message, error) {
	return func(method string, req, resp proto.Message, err error) (proto.Message, error) {
		if p, ok := resp.(*pb.LogFetchEntriesResponse); ok && err == nil && len(p.Values) > most {
			return &pb.LogFetchEntriesResponse{Values: p.Values[:most]}, nil
		}
		return resp, err
	}
}

func c09logDeviations(m *LogModel, a, b int, rng *rand.Rand) []deviation {
	devs := []deviation{c09oneEntry(a, rng), c09oneEntry(b-1, rng), c09oneEntry(a+rng.Intn(b-a), rng)}
	fetch := func(what string, f func(q *pb.LogFetchEntriesRequest, p *pb.LogFetchEntriesResponse) (*pb.LogFetchEntriesResponse, error)) {
		devs = append(devs, deviation{what, func(method string, req, resp proto.Message, err error) (proto.Message, error) {
			q, ok := req.(*pb.LogFetchEntriesRequest)
			if !ok || err != nil {
				return resp, err
			}
			return f(q, resp.(*pb.LogFetchEntriesResponse))
		}})
	}
	fetch("no entries", func(q *pb.LogFetchEntriesRequest, p *pb.LogFetchEntriesResponse) (*pb.LogFetchEntriesResponse, error) {
		p.Values = nil
		return p, nil
	})
	fetch("an error for entries", func(q *pb.LogFetchEntriesRequest, p *pb.LogFetchEntriesResponse) (*pb.LogFetchEntriesResponse, error) {
		return nil, errors.New("broken")
	})
	fetch("one entry too many", func(q *pb.LogFetchEntriesRequest, p *pb.LogFetchEntriesResponse) (*pb.LogFetchEntriesResponse, error) {
		if q.Last == int64(b) {
			p.Values = append(p.Values, &pb.LeafData{LeafInput: []byte("too many")})
		}
		return p, nil
	})
	if b-a > 1 {
		k := rng.Intn(b - a - 1)
		fetch(fmt.Sprintf("entries %d and %d swapped", a+k, a+k+1), func(q *pb.LogFetchEntriesRequest, p *pb.LogFetchEntriesResponse) (*pb.LogFetchEntriesResponse, error) {
			if k+1 < len(p.Values) && q.First == int64(a) {
				p.Values[k], p.Values[k+1] = p.Values[k+1], p.Values[k]
			}
			return p, nil
		})
		stop := 1 + rng.Intn(b-a-1)
		fetch(fmt.Sprintf("entries ending after %d", stop), func(q *pb.LogFetchEntriesRequest, p *pb.LogFetchEntriesResponse) (*pb.LogFetchEntriesResponse, error) {
			if q.First != int64(a) {
				return nil, errors.New("no more")
			}
			p.Values = p.Values[:stop]
			return p, nil
		})
		fetch("the first entry every time", func(q *pb.LogFetchEntriesRequest, p *pb.LogFetchEntriesResponse) (*pb.LogFetchEntriesResponse, error) {
			for i := range p.Values {
				p.Values[i] = proto.Clone(m.Entries[a]).(*pb.LeafData)
			}
			return p, nil
		})
	}
	if a > 0 {
		pool := hashPool(&m.Tree, b)
		honest := m.Tree.Inclusion(a, a+1)
		alts := alterPath(honest, pool, rng)
		for k := 0; k < 8 && len(alts) > 0; k++ {
			alt := alts[rng.Intn(len(alts))]
			devs = append(devs, deviation{"proof with " + alt.what, func(method string, req, resp proto.Message, err error) (proto.Message, error) {
				p, ok := resp.(*pb.LogInclusionProofResponse)
				if !ok {
					return resp, err
				}
				if samePath(alt.p, honest) {
					return nil, errors.New("unaltered")
				}
				p.AuditPath = cpp(alt.p)
				return p, err
			}})
		}
		devs = append(devs, deviation{"the previous head's root as its only proof element", func(method string, req, resp proto.Message, err error) (proto.Message, error) {
			p, ok := resp.(*pb.LogInclusionProofResponse)
			if !ok {
				return resp, err
			}
			if len(honest) == 1 {
				return nil, errors.New("unaltered")
			}
			p.AuditPath = [][]byte{m.Tree.Root(a)}
			return p, err
		}}, deviation{"no proof", func(method string, req, resp proto.Message, err error) (proto.Message, error) {
			p, ok := resp.(*pb.LogInclusionProofResponse)
			if !ok {
				return resp, err
			}
			p.AuditPath = nil
			return p, err
		}})
	}
	return devs
}

// ---- maps

type mapCall struct {
	i   int64
	key []byte
	v   *pb.LeafData
}

// c09history makes a map with JSON values on a real service.
func c09history(r *R, part string, n int) (Svc, *MapWorld, bool) {
	rng := r.Rand(part)
	st, _ := newStore(r, "memory")
	svc := newService(st, nil, nil)
	w := &MapWorld{}
	g := newMapGen(rng, 4)
	for i := 0; i < n; i++ {
		mu := g.next(&w.MapModel)
		if len(mu.LI) > 0 {
			j := []byte(fmt.Sprintf(`{"v":%q,"n":%d}`, fmt.Sprintf("%x", mu.LI), rng.Intn(3)))
			ld := jsonEntryOf(j)
			mu.LI, mu.ED, mu.Format = ld.LeafInput, ld.ExtraData, 1
		} else {
			mu.LI, mu.ED = nil, nil
		}
		if err := w.mutate(svc, mref("9", "m"), mu); err != nil {
			r.Failf("%v", err)
			return nil, nil, false
		}
	}
	return svc, w, ckMapLogs(r, "map", svc, mref("9", "m"), w)
}

func (w *MapWorld) state(n, thl int) *verifiable.MapTreeState {
	if n == 0 {
		return nil
	}
	return &verifiable.MapTreeState{
		MapTreeHead:         &pb.MapTreeHashResponse{RootHash: w.Root(n), MutationLog: lth(n, w.Mut.Tree.Root(n))},
		TreeHeadLogTreeHead: lth(thl, w.Heads.Tree.Root(thl)),
	}
}

func c09map(r *R) {
	r.Par(r.N(16, 120), func(round int) {
		rng := r.Rand(fmt.Sprint("map", round))
		n := 4 + rng.Intn(20)
		real, w, ok := c09history(r, fmt.Sprint("maphist", round), n)
		if !ok {
			return
		}
		t := &tweakSvc{Inner: real}
		vm := hl(t, "9", "").VerifiableMap("m")
		valueOK := func(ctx context.Context, v *pb.LeafData) error {
			if len(v.GetLeafInput()) == 0 {
				return nil
			}
			return verifiable.ValidateJSONLeafData(ctx, v)
		}
		for a := 0; a <= n; a++ {
			for b := 1; b <= n; b++ {
				if rng.Intn(6) != 0 && !(a == 0 && b == n) {
					continue
				}
				thl := b + rng.Intn(n-b+1)
				prev, head := w.state(a, a), w.state(b, thl)
				what := fmt.Sprintf("audit of map of size %d from %d to %d (tree head log %d)", n, a, b, thl)
				r.Case("map", "round %d %s", round, what)
				t.Tweak = nil
				var leaf []*pb.LeafData
				var calls []mapCall
				var err error
				if !r.Guard(what, func() {
					err = vm.VerifyMap(bg, prev, head, func(ctx context.Context, v *pb.LeafData) error {
						leaf = append(leaf, v)
						return valueOK(ctx, v)
					}, func(ctx context.Context, i int64, key []byte, v *pb.LeafData) error {
						calls = append(calls, mapCall{i, key, v})
						return nil
					})
				}) {
					return
				}
				r.Saw("honest-map-audit")
				if err != nil {
					r.Failf("%s of an honest server: %v", what, err)
					return
				}
				if thl <= a {
					if len(calls)+len(leaf) > 0 {
						r.Failf("%s: nothing to audit, but there were callbacks", what)
					}
					continue
				}
				if !c09calls(r, what, w, thl, leaf, calls) {
					return
				}
				// a server whose mutation log is seen to grow meanwhile
				lag, grew := a, 0
				t.Tweak = func(method string, req, resp proto.Message, err error) (proto.Message, error) {
					if q, ok := req.(*pb.LogTreeHashRequest); ok && err == nil && q.Log.LogType == tMut && q.TreeSize == 0 && lag < n {
						lag += 1 + rng.Intn(3)
						if lag > n {
							lag = n
						}
						grew++
						return lth(lag, w.Mut.Tree.Root(lag)), nil
					}
					return resp, err
				}
				leaf, calls = nil, nil
				if !r.Guard(what, func() {
					err = vm.VerifyMap(bg, prev, head, func(ctx context.Context, v *pb.LeafData) error {
						leaf = append(leaf, v)
						return valueOK(ctx, v)
					}, func(ctx context.Context, i int64, key []byte, v *pb.LeafData) error {
						calls = append(calls, mapCall{i, key, v})
						return nil
					})
				}) {
					return
				}
				t.Tweak = nil
				if grew > 1 {
					r.Saw("growing-map-audit")
				}
				if err != nil {
					r.Failf("%s of an honest server whose mutation log grew %d times: %v", what, grew, err)
					return
				}
				if !c09calls(r, what+" that grew meanwhile", w, thl, leaf, calls) {
					return
				}
				// a server that answers with few entries
				t.Tweak = c09few(1 + rng.Intn(4))
				leaf, calls = nil, nil
				if !r.Guard(what, func() {
					err = vm.VerifyMap(bg, prev, head, func(ctx context.Context, v *pb.LeafData) error {
						leaf = append(leaf, v)
						return valueOK(ctx, v)
					}, func(ctx context.Context, i int64, key []byte, v *pb.LeafData) error {
						calls = append(calls, mapCall{i, key, v})
						return nil
					})
				}) {
					return
				}
				t.Tweak = nil
				r.Saw("few-at-a-time")
				if err != nil {
					r.Failf("%s of an honest server that answers with few entries: %v", what, err)
					return
				}
				if !c09calls(r, what+" by few entries", w, thl, leaf, calls) {
					return
				}
				// callback errors
				myErr := errors.New("no good")
				if len(calls) > 0 {
					k, c := rng.Intn(len(calls)), 0
					err = vm.VerifyMap(bg, prev, head, nil, func(ctx context.Context, i int64, key []byte, v *pb.LeafData) error {
						c++
						if c == k+1 {
							return myErr
						}
						return nil
					})
					r.Saw("callback-error")
					if err != myErr || c != k+1 {
						r.Failf("%s: error from audit call %d gave %v after %d calls", what, k, err, c)
					}
				}
				if len(leaf) > 0 {
					k, c := rng.Intn(len(leaf)), 0
					err = vm.VerifyMap(bg, prev, head, func(ctx context.Context, v *pb.LeafData) error {
						c++
						if c == k+1 {
							return myErr
						}
						return nil
					}, nil)
					r.Saw("callback-error")
					if err != myErr || c != k+1 {
						r.Failf("%s: error from value check %d gave %v after %d calls", what, k, err, c)
					}
				}
			}
		}
		t.Tweak = nil
		if err := vm.VerifyMap(bg, nil, nil, nil, nil); err == nil {
			r.Failf("audit to no state succeeded")
		}
		// servers that serve a false history, with proofs that fit
		for k := 0; k < r.N(60, 150); k++ {
			a := rng.Intn(n)
			s := specServerFor(w)
			what := c09falsify(s, w, a, n, rng)
			if what == "" {
				continue
			}
			what = fmt.Sprintf("audit of map from %d to %d with %s", a, n, what)
			r.Case("false", "round %d %s", round, what)
			vm := hl(s, "9", "").VerifiableMap("m")
			prev := w.state(a, a)
			hl := s.Logs[tHead]
			head := &verifiable.MapTreeState{MapTreeHead: s.MapHeads[len(s.MapHeads)-1], TreeHeadLogTreeHead: lth(hl.Len(), hl.Tree.Root(hl.Len()))}
			var err error
			if !r.Guard(what, func() { err = vm.VerifyMap(bg, prev, head, valueOK, nil) }) {
				return
			}
			r.Saw("deviating-map-audit")
			if err == nil {
				r.Failf("%s succeeded", what)
				return
			}
		}
		// honest history, one altered answer
		for k := 0; k < r.N(40, 100); k++ {
			a := rng.Intn(n)
			at := rng.Intn(n)
			kind := rng.Intn(6)
			lt := []pb.LogType{tMut, tHead}[rng.Intn(2)]
			if lt == tHead && at < a {
				continue
			}
			hit := false
			one := c09oneEntry(at, rng)
			t.Tweak = func(method string, req, resp proto.Message, err error) (proto.Message, error) {
				if err != nil {
					return resp, err
				}
				switch q := req.(type) {
				case *pb.LogFetchEntriesRequest:
					if q.Log.LogType != lt || kind == 5 {
						return resp, err
					}
					p := resp.(*pb.LogFetchEntriesResponse)
					i := at - int(q.First)
					if i < 0 || i >= len(p.Values) {
						return resp, err
					}
					v := p.Values[i]
					switch kind {
					case 0, 1:
						hit = true
						return one.f(method, req, resp, err)
					case 2: // other content, same leaf input
						hit = true
						v.ExtraData = bytes.Replace(v.ExtraData, []byte(`"`), []byte(`"x`), 2)
					case 3:
						hit = true
						v.ExtraData = [][]byte{nil, []byte("null"), []byte("{}"), []byte("["), []byte("7")}[rng.Intn(5)]
					case 4: // somebody else's content
						o := w.Mut.Entries[(at+1)%n]
						if lt == tHead {
							o = w.Heads.Entries[(at+1)%n]
						}
						hit = n > 1
						v.ExtraData = o.ExtraData
					}
					return p, nil
				case *pb.LogTreeHashRequest:
					if kind == 5 && q.Log.LogType == tMut {
						hit = true
						p := resp.(*pb.LogTreeHashResponse)
						switch rng.Intn(2) {
						case 0:
							p.RootHash = flipBit(p.RootHash, rng)
						case 1:
							p.TreeSize--
						}
						return p, nil
					}
				}
				return resp, err
			}
			what := fmt.Sprintf("audit of map from %d to %d with %v answer %d altered (%d, %s)", a, n, lt, at, kind, one.what)
			var err error
			if !r.Guard(what, func() { err = vm.VerifyMap(bg, w.state(a, a), w.state(n, n), valueOK, nil) }) {
				return
			}
			r.Saw("deviating-map-audit")
			r.Case("altered", "round %d %s", round, what)
			if hit && err == nil {
				r.Failf("%s succeeded", what)
				return
			}
		}
	})
}

// c09calls checks the callbacks of an honest map audit. The audit works through the mutation log at
// least up to the size audited.
func c09calls(r *R, what string, w *MapWorld, atLeast int, leaf []*pb.LeafData, calls []mapCall) bool {
	for upto := atLeast; upto <= w.Size(); upto++ {
		var vals, changed []int
		for i := 0; i < upto; i++ {
			if !w.Muts[i].NoVal {
				vals = append(vals, i)
			}
			if w.Changed[i] {
				changed = append(changed, i)
			}
		}
		if len(vals) != len(leaf) || len(changed) != len(calls) {
			continue
		}
		for k, i := range vals {
			mu := w.Muts[i]
			if !bytes.Equal(leaf[k].GetLeafInput(), mu.LI) || !bytes.Equal(leaf[k].GetExtraData(), mu.ED) || int32(leaf[k].GetFormat()) != mu.Format {
				r.Failf("%s: value check %d was called with %s, not the value of mutation %d, %s", what, k, showLD(leaf[k]), i, showMut(&mu))
				return false
			}
		}
		for k, i := range changed {
			mu := w.Muts[i]
			c := calls[k]
			if c.i != int64(i) || !bytes.Equal(c.key, mu.Key) || !bytes.Equal(c.v.GetLeafInput(), mu.LI) {
				r.Failf("%s: audit call %d was for %d %x %s, not for mutation %d, %s", what, k, c.i, c.key, showLD(c.v), i, showMut(&mu))
				return false
			}
		}
		return true
	}
	var is []int64
	for _, c := range calls {
		is = append(is, c.i)
	}
	var changed []int
	for i, c := range w.Changed {
		if c {
			changed = append(changed, i)
		}
	}
	r.Failf("%s: %d value checks and audit calls for %v; mutations that change the map are %v", what, len(leaf), is, changed)
	return false
}

// c09falsify makes a server's history false at or after size a.
func c09falsify(s *specServer, w *MapWorld, a, n int, rng *rand.Rand) string {
	at := a + rng.Intn(n-a) // entry at, for size at+1
	heads, muts := s.Logs[tHead], s.Logs[tMut]
	rebuild := func(old *LogModel, i int, e *pb.LeafData) *LogModel {
		nw := &LogModel{}
		for j, x := range old.Entries {
			if j == i {
				x = e
			}
			if _, ok := nw.Add(x); !ok {
				return nil
			}
		}
		return nw
	}
	setHead := func(e *pb.LeafData) bool {
		if nw := rebuild(heads, at, e); nw != nil {
			s.Logs[tHead] = nw
			return true
		}
		return false
	}
	root, mroot := w.Root(at+1), w.Mut.Tree.Root(at+1)
	sz := int64(at + 1)
	switch kind := rng.Intn(14); kind {
	case 0:
		if !setHead(headEntry(flipBit(root, rng), sz, mroot)) {
			return ""
		}
		return fmt.Sprintf("a false map root for size %d", sz)
	case 1:
		other := w.Root(at)
		if at+2 <= n && rng.Intn(2) == 0 {
			other = w.Root(at + 2)
		}
		if bytes.Equal(other, root) || !setHead(headEntry(other, sz, mroot)) {
			return ""
		}
		return fmt.Sprintf("a neighbour's map root for size %d", sz)
	case 2:
		if !setHead(headEntry(root, sz, flipBit(mroot, rng))) {
			return ""
		}
		return fmt.Sprintf("a false mutation log root for size %d", sz)
	case 3:
		o := int64(rng.Intn(n + 3))
		if o == sz || o < 1 || o <= int64(n) && bytes.Equal(w.Root(int(o)), root) {
			// the mutation log root still doesn't fit, but don't rely on it here
			return ""
		}
		if o <= int64(n) {
			if !setHead(headEntry(root, o, w.Mut.Tree.Root(int(o)))) {
				return ""
			}
			return fmt.Sprintf("the map root for size %d recorded for size %d", sz, o)
		}
		if !setHead(headEntry(root, o, mroot)) {
			return ""
		}
		return fmt.Sprintf("size %d beyond the mutation log", o)
	case 4:
		o := []int64{0, -1, 1 << 40, -1 << 63}[rng.Intn(4)]
		if !setHead(headEntry(root, o, mroot)) {
			return ""
		}
		return fmt.Sprintf("size %d recorded", o)
	case 5:
		b := [][]byte{[]byte("{}"), []byte("null"), []byte("[]"), []byte(`{"mutation_log":null}`), []byte(`{"root_hash":"AAAA"}`), []byte(`"x"`), []byte("{"), nil, []byte(`{"mutation_log":7}`)}[rng.Intn(9)]
		if !setHead(jsonEntryOf(b)) {
			return ""
		}
		return fmt.Sprintf("a tree head entry of %q", b)
	case 6:
		e := proto.Clone(heads.Entries[at]).(*pb.LeafData)
		e.LeafInput = flipBit(e.LeafInput, rng)
		if !setHead(e) {
			return ""
		}
		return "a tree head entry that isn't its object hash"
	case 7, 8, 9, 10: // another mutation in the log, the recorded map roots stay
		i := rng.Intn(n)
		var o obj
		json.Unmarshal(muts.Entries[i].ExtraData, &o)
		mu := w.Muts[i]
		switch kind {
		case 7:
			mu.Key = append(cp(mu.Key), 'z')
			o["key"] = mu.Key
		case 8:
			mu.LI = []byte("forged")
			mu.NoVal = false
			if mu.Action == "delete" {
				return ""
			}
			v := jsonEntryOf([]byte(`"forged"`))
			mu.LI = v.LeafInput
			o["value"] = obj{"leaf_input": v.LeafInput, "extra_data": v.ExtraData, "format": 1}
		case 9:
			mu.Action = "delete"
			o["action"] = "delete"
		case 10:
			o["action"] = []interface{}{"", "SET", "nothing", "update2"}[rng.Intn(4)]
		}
		nw := rebuild(muts, i, mutEntry(o))
		if nw == nil {
			return ""
		}
		// is it really false? Replay.
		if kind != 10 {
			alt := &spec.MapModel{}
			same := true
			for j := range w.Muts {
				x := w.Muts[j]
				if j == i {
					x = mu
				}
				alt.Apply(x)
				if j >= a && !bytes.Equal(alt.Root(j+1), w.Root(j+1)) {
					same = false
				}
			}
			if same {
				return ""
			}
		}
		// the mutation log roots recorded are those of the forged log
		s.Logs[tMut] = nw
		hs := &LogModel{}
		for j := 0; j < n; j++ {
			e := headEntry(w.Root(j+1), int64(j+1), nw.Tree.Root(j+1))
			if j < a {
				e = heads.Entries[j]
			}
			if _, ok := hs.Add(e); !ok {
				return ""
			}
			s.MapHeads[j] = &pb.MapTreeHashResponse{RootHash: w.Root(j + 1), MutationLog: lth(j+1, nw.Tree.Root(j+1))}
		}
		s.Logs[tHead] = hs
		return fmt.Sprintf("a forged mutation %d (%d)", i, kind)
	case 11: // mutation that isn't its hash, all else fits
		i := rng.Intn(n)
		e := proto.Clone(muts.Entries[i]).(*pb.LeafData)
		switch rng.Intn(3) {
		case 0:
			e.LeafInput = flipBit(e.LeafInput, rng)
		case 1:
			e.ExtraData = bytes.Replace(e.ExtraData, []byte(`"timestamp":"2`), []byte(`"timestamp":"3`), 1)
			e.LeafInput = flipBit(e.LeafInput, rng)
		case 2:
			e = jsonEntryOf([][]byte{[]byte("null"), []byte("{}"), []byte("[1]"), []byte("x")}[rng.Intn(4)])
		}
		nw := rebuild(muts, i, e)
		if nw == nil {
			return ""
		}
		s.Logs[tMut] = nw
		hs := &LogModel{}
		for j := 0; j < n; j++ {
			e := headEntry(w.Root(j+1), int64(j+1), nw.Tree.Root(j+1))
			if j < a {
				e = heads.Entries[j]
			}
			if _, ok := hs.Add(e); !ok {
				return ""
			}
		}
		s.Logs[tHead] = hs
		return fmt.Sprintf("mutation %d not being its object hash", i)
	case 12: // mutation log cut short
		if n < 2 || at+1 < 2 {
			return ""
		}
		nw := &LogModel{}
		for _, e := range muts.Entries[:rng.Intn(at+1)] {
			nw.Add(e)
		}
		s.Logs[tMut] = nw
		return fmt.Sprintf("a mutation log of only %d entries", nw.Len())
	case 13: // a value's extra data replaced: no hash commits to it, but the value check sees it
		i := rng.Intn(n)
		var o obj
		json.Unmarshal(muts.Entries[i].ExtraData, &o)
		v, ok := o["value"].(obj)
		if !ok || len(w.Muts[i].LI) == 0 {
			return ""
		}
		v["extra_data"] = []byte(`{"v":"forged"}`)
		e := mutEntry(o)
		if !bytes.Equal(e.LeafInput, muts.Entries[i].LeafInput) {
			return ""
		}
		s.Logs[tMut] = rebuild(muts, i, e)
		return fmt.Sprintf("the extra data of the value of mutation %d forged", i)
	}
	return ""
}

// ---- C10

// two histories with a common beginning
type forked struct {
	svc  [2]Svc
	logs [2]map[pb.LogType]*LogModel
	w    [2]*MapWorld
}

func makeFork(r *R, part string, kLog, nLogA, nLogB, kMap, nMapA, nMapB int) *forked {
	rng := r.Rand(part)
	st := &specStore{}
	svc := newService(st, nil, nil)
	f := &forked{}
	m, w := &LogModel{}, &MapWorld{}
	g := newMapGen(rng, 5)
	lr, mr := lref("10", "l", tLog), mref("10", "m")
	grow := func(svc Svc, m *LogModel, w *MapWorld, nl, nm int, tag string) bool {
		for i := 0; m.Len() < nl; i++ {
			if err := addEntry(svc, lr, m, &pb.LeafData{LeafInput: []byte(fmt.Sprintf("%s%d", tag, i))}); err != nil {
				r.Failf("%v", err)
				return false
			}
		}
		for w.Size() < nm {
			if err := w.mutate(svc, mr, g.next(&w.MapModel)); err != nil {
				r.Failf("%v", err)
				return false
			}
		}
		return ckMapLogs(r, "fork", svc, mr, w)
	}
	if !grow(svc, m, w, kLog, kMap, "common") {
		return nil
	}
	for x := 0; x < 2; x++ {
		s := newService(st.clone(), nil, nil)
		mx := &LogModel{}
		for _, e := range m.Entries {
			mx.Add(e)
		}
		wx := w.clone()
		if !grow(s, mx, wx, []int{nLogA, nLogB}[x], []int{nMapA, nMapB}[x], fmt.Sprint("branch", x)) {
			return nil
		}
		f.svc[x], f.w[x] = s, wx
		f.logs[x] = map[pb.LogType]*LogModel{tLog: mx, tMut: &wx.Mut, tHead: &wx.Heads}
	}
	return f
}

// has says whether a head belongs to history x.
func (f *forked) has(x int, t pb.LogType, h *pb.LogTreeHashResponse) bool {
	m := f.logs[x][t]
	if h.GetTreeSize() == 0 {
		return true
	}
	return h.GetTreeSize() > 0 && h.TreeSize <= int64(m.Len()) && bytes.Equal(h.RootHash, m.Tree.Root(int(h.TreeSize)))
}

// together says whether two heads belong to one history.
func (f *forked) together(t pb.LogType, a, b *pb.LogTreeHashResponse) bool {
	return f.has(0, t, a) && f.has(0, t, b) || f.has(1, t, a) && f.has(1, t, b)
}

// mix makes a server that answers from either history, and alters some answers.
func (f *forked) mix(rng *rand.Rand, pB, pAlter int) *tweakSvc {
	alt := [2]*tweakSvc{{Inner: f.svc[0]}, {Inner: f.svc[1]}}
	_ = alt
	return &tweakSvc{Inner: f.svc[0], Tweak: func(method string, req, resp proto.Message, err error) (proto.Message, error) {
		if rng.Intn(100) < pB {
			resp, err = callSvc(f.svc[1], req)
			if err == nil {
				resp = proto.Clone(resp)
			}
		}
		if err != nil || rng.Intn(100) >= pAlter {
			return resp, err
		}
		other := f.svc[rng.Intn(2)]
		switch p := resp.(type) {
		case *pb.LogTreeHashResponse:
			q := req.(*pb.LogTreeHashRequest)
			switch rng.Intn(5) {
			case 0:
				p.TreeSize += int64(rng.Intn(5) - 2)
			case 1:
				p.RootHash = flipBit(p.RootHash, rng)
			case 2:
				h, e := other.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: q.Log, TreeSize: int64(rng.Intn(12))})
				if e == nil {
					return proto.Clone(h), nil
				}
			case 3:
				return &pb.LogTreeHashResponse{}, nil
			case 4:
				p.TreeSize = -p.TreeSize
			}
		case *pb.LogConsistencyProofResponse:
			q := req.(*pb.LogConsistencyProofRequest)
			switch rng.Intn(4) {
			case 0:
				if len(p.AuditPath) > 0 {
					p.AuditPath = p.AuditPath[1:]
				}
			case 1:
				o, e := f.svc[1].LogConsistencyProof(bg, q)
				if e == nil {
					for i := range p.AuditPath {
						if i < len(o.AuditPath) && rng.Intn(2) == 0 {
							p.AuditPath[i] = cp(o.AuditPath[i])
						}
					}
				}
			case 2:
				p.FromSize, p.TreeSize = p.TreeSize, p.FromSize
			case 3:
				p.AuditPath = nil
			}
		case *pb.LogInclusionProofResponse:
			switch rng.Intn(3) {
			case 0:
				p.LeafIndex++
			case 1:
				if len(p.AuditPath) > 0 {
					p.AuditPath[0] = flipBit(p.AuditPath[0], rng)
				}
			case 2:
				p.TreeSize++
			}
		case *pb.MapTreeHashResponse:
			q := req.(*pb.MapTreeHashRequest)
			switch rng.Intn(5) {
			case 0:
				p.RootHash = flipBit(p.RootHash, rng)
			case 1:
				p.MutationLog.TreeSize += int64(rng.Intn(5) - 2)
			case 2:
				h, e := other.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: q.Map, TreeSize: int64(rng.Intn(12))})
				if e == nil {
					return proto.Clone(h), nil
				}
			case 3:
				h, e := f.svc[1].MapTreeHash(bg, q)
				if e == nil {
					p.MutationLog = proto.Clone(h.MutationLog).(*pb.LogTreeHashResponse)
				}
			case 4:
				h, e := f.svc[1].MapTreeHash(bg, q)
				if e == nil {
					p.RootHash = cp(h.RootHash)
				}
			}
		}
		return resp, err
	}}
}

// callSvc sends any request to a service.
func callSvc(s Svc, req proto.Message) (proto.Message, error) { return callSvcCtx(bg, s, req) }

func callSvcCtx(ctx context.Context, s Svc, req proto.Message) (proto.Message, error) {
	switch q := req.(type) {
	case *pb.LogAddEntryRequest:
		return s.LogAddEntry(ctx, q)
	case *pb.LogTreeHashRequest:
		return s.LogTreeHash(ctx, q)
	case *pb.LogInclusionProofRequest:
		return s.LogInclusionProof(ctx, q)
	case *pb.LogConsistencyProofRequest:
		return s.LogConsistencyProof(ctx, q)
	case *pb.LogFetchEntriesRequest:
		return s.LogFetchEntries(ctx, q)
	case *pb.MapSetValueRequest:
		return s.MapSetValue(ctx, q)
	case *pb.MapGetValueRequest:
		return s.MapGetValue(ctx, q)
	case *pb.MapTreeHashRequest:
		return s.MapTreeHash(ctx, q)
	}
	panic(fmt.Sprintf("%T", req))
}

func c10(r *R) {
	r.Par(r.N(48, 400), func(round int) {
		rng := r.Rand(fmt.Sprint("r", round))
		kl, km := 1+rng.Intn(8), 1+rng.Intn(8)
		f := makeFork(r, fmt.Sprint("fork", round), kl, kl+rng.Intn(8), kl+rng.Intn(8), km, km+rng.Intn(8), km+rng.Intn(8))
		if f == nil {
			return
		}
		for x := 0; x < 2; x++ { // honest servers
			c10logs(r, f, f.svc[x], rng, fmt.Sprintf("honest server %d", x), x, kl)
			c10maps(r, f, f.svc[x], rng, fmt.Sprintf("honest server %d", x), x, km)
		}
		c10fromNothing(r, rng)
		c10doubleHeads(r, f, rng, km)
		for k := 0; k < r.N(8, 20); k++ {
			pB, pA := []int{0, 50, 100, 30}[rng.Intn(4)], []int{0, 10, 30, 60}[rng.Intn(4)]
			if pB == 0 && pA == 0 {
				continue
			}
			what := fmt.Sprintf("server with %d%% of another history and %d%% alterations", pB, pA)
			c10logs(r, f, f.mix(rng, pB, pA), rng, what, -1, kl)
			c10maps(r, f, f.mix(rng, pB, pA), rng, what, -1, km)
		}
	})
}

// c10doubleHeads: the server's tree head log truly extends what the client has verified, but goes on to record the map
// heads of another history; only the mutation log gives it away.
func c10doubleHeads(r *R, f *forked, rng *rand.Rand, common int) {
	for x := 0; x < 2; x++ {
		wA, wB := f.w[x], f.w[1-x]
		s := specServerFor(wA)
		for i := common; i < wB.Size(); i++ {
			s.Logs[tHead].Add(wB.Heads.Entries[i])
		}
		sB := specServerFor(wB)
		max := wA.Size()
		if wB.Size() > max {
			max = wB.Size()
		}
		for pB := 0; pB <= 100; pB += 50 { // how often the mutation log is the other one
			t := &tweakSvc{Inner: s, Tweak: func(method string, req, resp proto.Message, err error) (proto.Message, error) {
				switch q := req.(type) {
				case *pb.MapTreeHashRequest:
					if q.TreeSize == 0 || rng.Intn(4) > 0 {
						return sB.MapTreeHash(bg, q)
					}
				case *pb.LogTreeHashRequest, *pb.LogConsistencyProofRequest:
					if q.(interface{ GetLog() *pb.LogRef }).GetLog().LogType == tMut && rng.Intn(100) < pB {
						return callSvc(sB, req)
					}
				}
				return resp, err
			}}
			vm := hl(t, "10", "").VerifiableMap("m")
			for p := 1; p <= wA.Size(); p++ {
				prev := wA.state(p, p+rng.Intn(wA.Size()-p+1))
				for n := -1; n <= max; n++ {
					w := fmt.Sprintf("tree head log recording two histories (common up to %d), map state carried %d (tree head log %d), requested %d", common, p, prev.TreeHeadLogTreeHead.TreeSize, n)
					r.Case("double-heads", "%s", w)
					var st *verifiable.MapTreeState
					var err error
					if n == -1 {
						st, err = vm.VerifiedLatestMapState(bg, prev)
					} else {
						st, err = vm.VerifiedMapState(bg, prev, int64(n))
					}
					if err != nil {
						r.Saw("double-heads-refused")
						continue
					}
					r.Saw("double-heads-accepted")
					if st == nil || !f.together(tMut, prev.MapTreeHead.MutationLog, st.MapTreeHead.MutationLog) {
						r.Failf("%s: accepted state %v %v, which is not of one history with the one carried", w, st.MapTreeHead, st.TreeHeadLogTreeHead)
						return
					}
				}
			}
		}
	}
}

// c10fromNothing carries heads and states forward from the beginning, before there is anything.
func c10fromNothing(r *R, rng *rand.Rand) {
	svc := newService(&specStore{}, nil, nil)
	acc := hl(svc, "10", "")
	log, vm := acc.VerifiableLog("l"), acc.VerifiableMap("m")
	var heads [3]*pb.LogTreeHashResponse
	var state *verifiable.MapTreeState
	n, m := 0, 0
	for i := 0; i < 14; i++ {
		for j, l := range []*verifiable.Log{log, vm.MutationLog(), vm.TreeHeadLog()} {
			want := []int{n, m, m}[j]
			h, err := l.VerifiedLatestTreeHead(bg, heads[j])
			r.Saw("carried-from-nothing")
			if err != nil || h.TreeSize != int64(want) {
				r.Failf("honest server, log %d of size %d, carrying %v: %v %v", j, want, heads[j], h, err)
				return
			}
			if j == 0 {
				prev := heads[j]
				if err := l.VerifyEntries(bg, prev, h, nil); err != nil {
					r.Failf("honest server, log of size %d, audit from %v: %v", want, prev, err)
					return
				}
			}
			heads[j] = h
		}
		st, err := vm.VerifiedLatestMapState(bg, state)
		if err != nil || (st == nil) != (m == 0) || st != nil && st.TreeSize() != int64(m) {
			r.Failf("honest server, map of size %d, carrying %v: %v %v", m, state, st, err)
			return
		}
		state = st
		if rng.Intn(3) > 0 {
			log.Add(bg, &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))})
			n++
		}
		if rng.Intn(2) > 0 {
			vm.Set(bg, []byte("k"), &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))})
			m++
		}
	}
}

// c10logs tries all carried and requested sizes. honest is the history an honest server has, else -1
func c10logs(r *R, f *forked, s Svc, rng *rand.Rand, what string, honest int, common int) {
	acc := hl(s, "10", "")
	vm := acc.VerifiableMap("m")
	for t, log := range map[pb.LogType]*verifiable.Log{tLog: acc.VerifiableLog("l"), tMut: vm.MutationLog(), tHead: vm.TreeHeadLog()} {
		mA := f.logs[0][t]
		for p := -1; p <= mA.Len(); p++ { // -1 is to carry nothing
			var prev *pb.LogTreeHashResponse
			switch {
			case p == 0:
				prev = lth(0, nil)
			case p > 0:
				prev = lth(p, mA.Tree.Root(p))
			}
			max := f.logs[1][t].Len()
			if mA.Len() > max {
				max = mA.Len()
			}
			for n := -1; n <= max+1; n++ { // -1 is VerifiedLatestTreeHead
				for _, of := range []int{0, 1} { // a proof that somebody supplied, of either history
					m := f.logs[of][t]
					if n < 1 || n > m.Len() || rng.Intn(4) != 0 {
						continue
					}
					i := rng.Intn(n)
					proof := &pb.LogInclusionProofResponse{LeafIndex: int64(i), TreeSize: int64(n), AuditPath: m.Tree.Inclusion(i, n)}
					w := fmt.Sprintf("%s, %v, carried %d, supplied proof of %d in %d of history %d", what, t, p, i, n, of)
					var h *pb.LogTreeHashResponse
					var err error
					if !r.Guard(w, func() { h, err = log.VerifySuppliedInclusionProof(bg, prev, proof, m.Tree.Leaves[i]) }) {
						return
					}
					r.Case("supplied-proof", "%s", w)
					if err != nil {
						r.Saw("supplied-proof-refused")
						if honest == of && (prev == nil || f.has(honest, t, prev)) {
							r.Failf("%s: %v", w, err)
							return
						}
						continue
					}
					r.Saw("supplied-proof-accepted")
					if h.GetTreeSize() != int64(n) || !f.has(of, t, h) {
						r.Failf("%s: accepted with head %v, which is not what it is proof for", w, h)
						return
					}
					if p > 0 && !f.together(t, prev, h) {
						r.Failf("%s: accepted with head %v, which is not of one history with the one carried", w, h)
						return
					}
				}
				var h *pb.LogTreeHashResponse
				var err error
				w := fmt.Sprintf("%s, %v, carried %d, requested %d", what, t, p, n)
				if !r.Guard(w, func() {
					if n == -1 {
						h, err = log.VerifiedLatestTreeHead(bg, prev)
					} else {
						h, err = log.VerifiedTreeHead(bg, prev, int64(n))
					}
				}) {
					return
				}
				r.Case("log-head", "%s", w)
				if honest >= 0 {
					// carried heads of history 0 are also of history 1 if they are common
					m := f.logs[honest][t]
					has := n <= m.Len()
					ok := has && (prev == nil || f.has(honest, t, prev))
					r.Saw("honest-log-head")
					if p == n && p > 0 { // already verified
						ok = true
					}
					if ok && err != nil {
						r.Failf("%s: %v", w, err)
						return
					}
				}
				if err != nil {
					r.Saw("log-head-refused")
					continue
				}
				r.Saw("log-head-accepted")
				if h == nil {
					r.Failf("%s: neither head nor error", w)
					return
				}
				if n > 0 && h.TreeSize != int64(n) {
					r.Failf("%s: accepted a head of size %d", w, h.TreeSize)
					return
				}
				if n == -1 && p > 0 && h.TreeSize < int64(p) {
					r.Failf("%s: went back to size %d", w, h.TreeSize)
					return
				}
				if p > 0 && (h.TreeSize < 1 || !f.together(t, prev, h)) {
					r.Failf("%s: accepted head %v, which is not of one history with the one carried", w, h)
					return
				}
				if honest >= 0 {
					m := f.logs[honest][t]
					want := n
					if n <= 0 {
						want = m.Len()
					}
					if n == -1 && want < p {
						want = p
					}
					if h.TreeSize != int64(want) {
						r.Failf("%s: got size %d, not %d", w, h.TreeSize, want)
						return
					}
				}
			}
		}
	}
}

func c10maps(r *R, f *forked, s Svc, rng *rand.Rand, what string, honest int, common int) {
	vm := hl(s, "10", "").VerifiableMap("m")
	wA := f.w[0]
	max := f.w[1].Size()
	if wA.Size() > max {
		max = wA.Size()
	}
	for p := 0; p <= wA.Size(); p++ {
		thl := p
		if p > 0 {
			thl = p + rng.Intn(wA.Size()-p+1)
		}
		prev := wA.state(p, thl)
		for n := -1; n <= max+1; n++ {
			w := fmt.Sprintf("%s, map state carried %d (tree head log %d), requested %d", what, p, thl, n)
			var st *verifiable.MapTreeState
			var err error
			if !r.Guard(w, func() {
				if n == -1 {
					st, err = vm.VerifiedLatestMapState(bg, prev)
				} else {
					st, err = vm.VerifiedMapState(bg, prev, int64(n))
				}
			}) {
				return
			}
			r.Case("map-state", "%s", w)
			if honest >= 0 {
				m := f.w[honest]
				ok := n <= m.Size() && (prev == nil || f.has(honest, tMut, prev.MapTreeHead.MutationLog) && f.has(honest, tHead, prev.TreeHeadLogTreeHead))
				if p == n && p > 0 {
					ok = true
				}
				r.Saw("honest-map-state")
				if ok && err != nil {
					r.Failf("%s: %v", w, err)
					return
				}
			}
			if err != nil {
				r.Saw("map-state-refused")
				continue
			}
			r.Saw("map-state-accepted")
			if st == nil {
				if prev != nil || honest >= 0 || n > 0 {
					r.Failf("%s: neither state nor error", w)
					return
				}
				continue
			}
			if n > 0 && st.TreeSize() != int64(n) {
				r.Failf("%s: accepted a state of size %d", w, st.TreeSize())
				return
			}
			if n == -1 && p > 0 && st.TreeSize() < int64(p) {
				r.Failf("%s: went back to size %d", w, st.TreeSize())
				return
			}
			if st.TreeHeadLogTreeHead == nil || st.MapTreeHead == nil {
				r.Failf("%s: incomplete state %v", w, st)
				return
			}
			if prev != nil {
				if st.TreeSize() < 1 || !f.together(tMut, prev.MapTreeHead.MutationLog, st.MapTreeHead.MutationLog) || !f.together(tHead, prev.TreeHeadLogTreeHead, st.TreeHeadLogTreeHead) {
					r.Failf("%s: accepted state %v %v, which is not of one history with the one carried", w, st.MapTreeHead, st.TreeHeadLogTreeHead)
					return
				}
				if st.TreeHeadLogTreeHead.TreeSize < prev.TreeHeadLogTreeHead.TreeSize {
					r.Failf("%s: tree head log went back to size %d", w, st.TreeHeadLogTreeHead.TreeSize)
					return
				}
			}
			// recorded?
			rec := false
			for x := 0; x < 2; x++ {
				i := int(st.TreeSize()) - 1
				if f.has(x, tHead, st.TreeHeadLogTreeHead) && i >= 0 && int64(i) < st.TreeHeadLogTreeHead.TreeSize && i < f.w[x].Size() &&
					bytes.Equal(f.w[x].Root(i+1), st.MapTreeHead.RootHash) && bytes.Equal(f.w[x].Mut.Tree.Root(i+1), st.MapTreeHead.MutationLog.RootHash) {
					rec = true
				}
			}
			if !rec && !(prev != nil && st == prev) {
				r.Failf("%s: accepted map head %v, which is not recorded in the tree head log with head %v", w, st.MapTreeHead, st.TreeHeadLogTreeHead)
				return
			}
			if honest >= 0 {
				want := n
				if n <= 0 {
					want = f.w[honest].Size()
				}
				if n == -1 && want < p {
					want = p
				}
				if st.TreeSize() != int64(want) {
					r.Failf("%s: got size %d, not %d", w, st.TreeSize(), want)
					return
				}
			}
		}
	}
}
