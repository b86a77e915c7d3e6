package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C32"] = &property{level: "exploration", run: c32,
		rule:        "Services without a mutator over storages that another service writes to, embedded and behind REST, gRPC and chains of both: every form of addition and map mutation, well formed or not, must end with an error (refusals by the policy first), and no transaction that writes nor change of the contents may come of it; everything that is read must be what the other service wrote, before, after and while it writes. A case is a (storage, transport, request).",
		assumptions: []string{"SHA-256 collisions do not occur"}}
}

// onlyReader has no other methods than those to read.
type onlyReader struct{ st verifiable.StorageReader }

func (o onlyReader) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error {
	return o.st.ExecuteReadOnly(ctx, ns, f)
}

func c32(r *R) {
	kinds := []string{"memory", "bolt", "spec", "badger", "memory", "spec"}
	r.Par(r.N(72, 900), func(i int) { c32round(r, i, kinds[i%len(kinds)]) })
	r.Par(r.N(24, 240), func(i int) { c32concurrent(r, i, kinds[i%4]) })
	r.Par(r.N(60, 400), func(i int) { c32policy(r, i) })
}

var c32n int64

// c32world is a storage with a service that writes and one that can't.
type c32world struct {
	st      verifiable.StorageWriter
	updates *int64 // transactions that write
	w       Svc
	ro      Svc
	close   func()
}

func c32new(r *R, kind string, ap verifiable.AuthorizationOracle) *c32world {
	inner, closer := newStore(r, kind)
	var n int64
	st := &hookStore{Inner: inner, Hook: func(op string, ns, key []byte) error {
		if op == "begin-update" {
			atomic.AddInt64(&n, 1)
		}
		return nil
	}}
	w := &c32world{st: st, updates: &n, w: newService(st, nil, ap), close: closer}
	if ap == nil {
		ap = policy.Open
	}
	var reader verifiable.StorageReader = onlyReader{st}
	if atomic.AddInt64(&c32n, 1)%2 == 0 { // usually the storage as it is, which could write
		reader = st
	}
	w.ro = (&verifiable.Service{AccessPolicy: ap, Reader: reader}).MustCreate()
	return w
}

// c32mutations are requests that would change something.
func c32mutations(rng *rand.Rand, lm *LogModel, g *mapGen, mw *MapWorld, accID string) []proto.Message {
	ld := func() *pb.LeafData {
		switch rng.Intn(5) {
		case 0:
			if lm.Len() > 0 {
				return lm.Entries[rng.Intn(lm.Len())] // is there already
			}
		case 1:
			return &pb.LeafData{}
		case 2:
			return &pb.LeafData{LeafInput: randBytes(rng, 20), ExtraData: []byte(`{"a":1}`), Format: pb.DataFormat_JSON}
		}
		return &pb.LeafData{LeafInput: randBytes(rng, 1+rng.Intn(200))}
	}
	var rv []proto.Message
	for i := 0; i < 4; i++ {
		rv = append(rv, &pb.LogAddEntryRequest{Log: lref(accID, "l", tLog), Value: ld()})
		rv = append(rv, &pb.LogAddEntryRequest{Log: lref(accID, "new", tLog), Value: ld()})
	}
	rv = append(rv,
		&pb.LogAddEntryRequest{Log: lref(accID, "l", tLog)},
		&pb.LogAddEntryRequest{Log: lref(accID, "m", tMut), Value: ld()},
		&pb.LogAddEntryRequest{Log: lref(accID, "m", tHead), Value: ld()},
		&pb.MapSetValueRequest{Map: mref(accID, "m")},
		&pb.MapSetValueRequest{Map: mref(accID, "m"), Mutation: &pb.MapMutation{Key: []byte("k")}},
		&pb.MapSetValueRequest{Map: mref(accID, "m"), Mutation: &pb.MapMutation{Action: "bad", Key: []byte("k")}})
	for i := 0; i < 8; i++ {
		name := "m"
		if i%4 == 3 {
			name = "newmap"
		}
		rv = append(rv, &pb.MapSetValueRequest{Map: mref(accID, name), Mutation: mutProto(g.next(&mw.MapModel))})
	}
	rng.Shuffle(len(rv), func(i, j int) { rv[i], rv[j] = rv[j], rv[i] })
	return rv
}

// c32send sends one of them. It says what was answered.
func c32send(svc Svc, req proto.Message) (string, error) {
	switch q := req.(type) {
	case *pb.LogAddEntryRequest:
		resp, err := svc.LogAddEntry(bg, q)
		return fmt.Sprint(resp), err
	case *pb.MapSetValueRequest:
		resp, err := svc.MapSetValue(bg, q)
		return fmt.Sprint(resp), err
	}
	panic("?")
}

// c32refused sends requests that must all be refused.
func c32refused(r *R, what string, svc Svc, reqs []proto.Message) {
	for _, q := range reqs {
		what := fmt.Sprintf("%s: %T %s", what, q, trunc(fmt.Sprint(q), 150))
		r.Case("refusal", "%s", what)
		before := proto.Clone(q)
		r.Guard(what, func() {
			resp, err := c32send(svc, q)
			if err == nil {
				r.Failf("%s: a service without a mutator acknowledges it: %s", what, resp)
			}
		})
		if !proto.Equal(before, q) {
			r.Failf("%s: the request was modified", what)
		}
	}
}

// c32client uses the client library.
func c32client(r *R, what string, svc Svc, rng *rand.Rand, accID string) {
	acc := hl(svc, accID, "")
	bad := func(op string, err error) {
		r.Case("refusal", "%s %s", what, op)
		if err == nil {
			r.Failf("%s: %s succeeds with a service without a mutator", what, op)
		}
	}
	r.Guard(what+" client", func() {
		ld := &pb.LeafData{LeafInput: randBytes(rng, 9)}
		_, err := acc.VerifiableLog("l").Add(bg, ld)
		bad("Add", err)
		m := acc.VerifiableMap("m")
		_, err = m.Set(bg, []byte("k"), ld)
		bad("Set", err)
		_, err = m.Update(bg, []byte("k"), ld, spec.LeafHash(nil))
		bad("Update", err)
		_, err = m.Delete(bg, []byte("k"))
		bad("Delete", err)
	})
}

// c32http sends plain HTTP requests.
func c32http(r *R, what string, rs *restServer, rng *rand.Rand, accID string) {
	for _, q := range []struct{ method, path, body string }{
		{"POST", "/log/l/entry", "x"}, {"POST", "/log/l/entry", ""}, {"POST", "/log/l/entry/extra", `{"leaf_input":"eA==","extra_data":"eQ=="}`},
		{"POST", "/log/l/entry/xjson/mutation", `{"a":1}`}, {"POST", "/log/l/entry/xjson", `{"a":1}`}, {"POST", "/log/l/entry/redactable", `{"a":1}`}, {"POST", "/log/new/entry", "x"},
		{"PUT", "/map/m/key/s/k", "x"}, {"PUT", "/map/m/key/h/61", "x"}, {"PUT", "/map/m/key/s/k/extra", `{"leaf_input":"eA==","extra_data":"eQ=="}`},
		{"PUT", "/map/m/key/s/k/xjson", `{"a":1}`}, {"PUT", "/map/m/key/s/k/redactable", `{"a":1}`},
		{"DELETE", "/map/m/key/s/k", ""}, {"DELETE", "/map/m/key/h/61", ""}, {"DELETE", "/map/newmap/key/s/k", ""},
	} {
		req, err := http.NewRequest(q.method, rs.URL+"/v2/account/"+accID+q.path, strings.NewReader(q.body))
		if err != nil {
			panic(err)
		}
		if rng.Intn(2) == 0 {
			req.Header.Set("X-Previous-LeafHash", fmt.Sprintf("%x", spec.LeafHash([]byte("x"))))
		}
		r.Case("refusal", "%s %s %s", what, q.method, q.path)
		resp, err := rs.hc.Do(req)
		if err != nil {
			r.Failf("%s: %s %s: no answer: %v", what, q.method, q.path, err)
			continue
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		if resp.StatusCode < 400 {
			r.Failf("%s: %s %s of a service without a mutator answers %d", what, q.method, q.path, resp.StatusCode)
		}
	}
}

func c32round(r *R, round int, kind string) {
	rng := r.Rand(fmt.Sprint("r", round))
	w := c32new(r, kind, nil)
	defer w.close()
	id := "32"
	l, m := lref(id, "l", tLog), mref(id, "m")
	lm, mw, g := &LogModel{}, &MapWorld{}, newWebMapGen(rng, 6)

	// how the service without a mutator is reached
	type via struct {
		name string
		svc  Svc
		rs   *restServer
	}
	vias := []via{{"embedded", w.ro, nil}}
	if round%2 == 0 {
		rs := newREST(w.ro)
		defer rs.Close()
		gs := newGRPC(w.ro)
		defer gs.Close()
		vias = append(vias, via{"rest", rs.Client(), rs}, via{"grpc", gs.Client(), nil})
		if round%4 == 0 {
			rs2 := newREST(gs.Client())
			defer rs2.Close()
			gs2 := newGRPC(rs.Client())
			defer gs2.Close()
			vias = append(vias, via{"rest over grpc", rs2.Client(), rs2}, via{"grpc over rest", gs2.Client(), nil})
		}
	}
	stages := 2 + rng.Intn(3)
	for stage := 0; stage < stages && !r.Failed(); stage++ {
		what := fmt.Sprintf("%s storage, stage %d", kind, stage)
		upd := atomic.LoadInt64(w.updates)
		dump := ""
		sp, _ := w.st.(*hookStore).Inner.(*specStore)
		if sp != nil {
			dump = sp.Dump()
		}
		for _, v := range vias {
			what := what + ", " + v.name
			c32refused(r, what, v.svc, c32mutations(rng, lm, g, mw, id))
			if r.Failed() {
				return // a panic kills a server
			}
			c32client(r, what, v.svc, rng, id)
			if v.rs != nil {
				c32http(r, what, v.rs, rng, id)
				if e := v.rs.Errors.String(); strings.Contains(e, "panic") {
					r.Failf("%s: %s", what, trunc(e, 2000))
				}
			}
			ckLog(r, what, v.svc, l, lm, rng)
			ckMapAll(r, what, v.svc, m, mw, rng, 4)
			ckLog(r, what+", a log never written", v.svc, lref(id, "new", tLog), &LogModel{}, rng)
			ckMapAll(r, what+", a map never written", v.svc, mref(id, "newmap"), &MapWorld{}, rng, 0)
		}
		if n := atomic.LoadInt64(w.updates); n != upd {
			r.Failf("%s: %d transactions that write were made by a service without a mutator", what, n-upd)
		}
		if sp != nil && sp.Dump() != dump {
			r.Failf("%s: the contents changed", what)
		}
		ckLog(r, what+", by the service with a mutator", w.w, l, lm, rng)
		ckMapAll(r, what+", by the service with a mutator", w.w, m, mw, rng, 4)

		for i := rng.Intn(12); i >= 0; i-- {
			ld := &pb.LeafData{LeafInput: []byte(fmt.Sprint("e", rng.Intn(60))), ExtraData: []byte(fmt.Sprint("x", i))}
			if _, err := w.w.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: l, Value: ld}); err != nil {
				r.Failf("%s: adding: %v", what, err)
				return
			}
			lm.Add(ld)
			if err := mw.mutate(w.w, m, g.next(&mw.MapModel)); err != nil {
				r.Failf("%s: setting: %v", what, err)
				return
			}
		}
	}
}

// c32concurrent reads and tries to write while another service writes.
func c32concurrent(r *R, round int, kind string) {
	rng := r.Rand(fmt.Sprint("c", round))
	w := c32new(r, kind, nil)
	defer w.close()
	l, m := lref("32", "l", tLog), mref("32", "m")
	probe := &LogModel{}
	c32refused(r, kind+" storage, first", w.ro, c32mutations(rng, probe, newWebMapGen(rng, 3), &MapWorld{}, "32"))
	if r.Failed() {
		return
	}
	svc := w.ro
	var done func()
	switch round % 3 {
	case 1:
		s := newREST(w.ro)
		svc, done = s.Client(), s.Close
	case 2:
		s := newGRPC(w.ro)
		svc, done = s.Client(), s.Close
	}
	if done != nil {
		defer done()
	}
	total := 40
	var stop int32
	var wg sync.WaitGroup
	lm, mw := &LogModel{}, &MapWorld{}
	type seen struct {
		log *pb.LogTreeHashResponse
		m   *pb.MapTreeHashResponse
	}
	var mu sync.Mutex
	var heads []seen
	var acked int64 // entries acknowledged so far
	for c := 0; c < 4; c++ {
		wg.Add(1)
		rng := r.Rand(fmt.Sprint("cc", round, c))
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil && e != errStop {
					panic(e)
				}
			}()
			g := newWebMapGen(rng, 4)
			for i := 0; atomic.LoadInt32(&stop) == 0 || i < 3; i++ {
				c32refused(r, kind+" storage, concurrently", svc, c32mutations(rng, &LogModel{}, g, &MapWorld{}, "32")[:3])
				min := atomic.LoadInt64(&acked)
				lh, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: l})
				mh, err2 := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: m})
				r.Saw("concurrent-read")
				if err != nil || err2 != nil {
					r.Failf("%s storage: reading while another service writes: %v %v", kind, err, err2)
					return
				}
				if lh.TreeSize < min || mh.MutationLog.GetTreeSize() < min {
					r.Failf("%s storage: %d entries and mutations were acknowledged, and then the service without a mutator has %d and %d", kind, min, lh.TreeSize, mh.MutationLog.GetTreeSize())
					return
				}
				mu.Lock()
				heads = append(heads, seen{lh, mh})
				mu.Unlock()
			}
		}()
	}
	g := newWebMapGen(rng, 4)
	for i := 0; i < total; i++ {
		ld := &pb.LeafData{LeafInput: []byte(fmt.Sprint("e", i))}
		if _, err := w.w.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: l, Value: ld}); err != nil {
			r.Failf("%s storage: adding: %v", kind, err)
			break
		}
		lm.Add(ld)
		if err := mw.mutate(w.w, m, g.next(&mw.MapModel)); err != nil {
			r.Failf("%s storage: setting: %v", kind, err)
			break
		}
		atomic.StoreInt64(&acked, int64(i+1))
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	if r.Failed() {
		return
	}
	what := kind + " storage, after concurrent writes"
	if n := atomic.LoadInt64(w.updates); n > int64(2*total) {
		r.Failf("%s: %d transactions that write for %d additions and mutations", what, n, 2*total)
	}
	ckLog(r, what, svc, l, lm, rng)
	ckMapAll(r, what, svc, m, mw, rng, 3)
	for _, h := range heads {
		if n := int(h.log.TreeSize); n > lm.Len() || n > 0 && !bytes.Equal(h.log.RootHash, lm.Tree.Root(n)) {
			r.Failf("%s: the log head %v was given meanwhile", what, h.log)
			return
		}
		if n := int(h.m.MutationLog.GetTreeSize()); n > 0 {
			want, err := w.w.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: m, TreeSize: int64(n)})
			if err != nil || !proto.Equal(want, h.m) {
				r.Failf("%s: the map head %v was given meanwhile, now it is %v %v", what, h.m, want, err)
				return
			}
		}
	}
}

// denyAll refuses what it is told to.
type c32oracle struct {
	deny pb.Permission
	n    int64
}

func (o *c32oracle) VerifyAllowed(ctx context.Context, account, apiKey, objectName string, permission pb.Permission) (*verifiable.AccessModifier, error) {
	atomic.AddInt64(&o.n, 1)
	if permission == o.deny {
		return nil, errors.New("refused by the policy")
	}
	return &verifiable.AccessModifier{FieldFilter: verifiable.AllFields}, nil
}

// c32policy: the policy is asked all the same.
func c32policy(r *R, round int) {
	rng := r.Rand(fmt.Sprint("p", round))
	o := &c32oracle{}
	w := c32new(r, "spec", o)
	defer w.close()
	l, m := lref("32", "l", tLog), mref("32", "m")
	mw, g, lm := &MapWorld{}, newWebMapGen(rng, 4), &LogModel{}
	o.deny = -1
	for i := 0; i < 3; i++ {
		ld := &pb.LeafData{LeafInput: randBytes(rng, 8)}
		if _, err := w.w.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: l, Value: ld}); err != nil {
			r.Failf("adding: %v", err)
			return
		}
		lm.Add(ld)
		if err := mw.mutate(w.w, m, g.next(&mw.MapModel)); err != nil {
			r.Failf("setting: %v", err)
			return
		}
	}
	what := "a policy that refuses additions"
	o.deny = pb.Permission_PERM_LOG_RAW_ADD
	if round%2 == 1 {
		what = "a policy that refuses map mutations"
		o.deny = pb.Permission_PERM_MAP_SET_VALUE
	}
	for _, q := range c32mutations(rng, lm, g, mw, "32") {
		r.Case("policy", "%s %T", what, q)
		r.Guard(what, func() {
			resp, err := c32send(w.ro, q)
			if err == nil {
				r.Failf("%s: a service without a mutator acknowledges %v: %s", what, q, resp)
				return
			}
			add, isAdd := q.(*pb.LogAddEntryRequest)
			if isAdd == (o.deny == pb.Permission_PERM_LOG_RAW_ADD) && (!isAdd || add.Log.LogType == tLog) && code(err) != codes.PermissionDenied {
				r.Failf("%s: %T is answered with %v", what, q, err)
			}
		})
	}
	ckLog(r, what, w.ro, l, lm, rng)
	ckMapAll(r, what, w.ro, m, mw, rng, 3)
	o.deny = pb.Permission_PERM_LOG_READ_ENTRY
	_, err := w.ro.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: l, First: 0, Last: 1})
	r.Case("policy", "reading refused")
	if code(err) != codes.PermissionDenied {
		r.Failf("reading entries that the policy refuses gives %v", err)
	}
}
