package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	vgrpc "github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C26"] = &property{level: "exploration", run: c26, race: true,
		rule:        "The harness, and so the repository, is built with the race detector; so is the server program. Goroutines that share nothing of the harness's while they run use one service at once: first use of everything, mixed reads, writes and audits through shared clients over every transport, storage and mutator, with request buffers re-used and answers overwritten; start-up of several services; and pure functions. Race reports with a frame of the repository, panics, deadlocks, failing calls and lost writes are violations. A case is a (workload, storage, mutator, operation, result).",
		assumptions: []string{"races are detected in the interleavings that occurred", "SHA-256 collisions do not occur"}}
}

// c26policy lets several accounts in, in several ways.
var c26policy = []*pb.ResourceAccount{{Id: "26", Policy: []*pb.AccessPolicy{
	{ApiKey: "some", NameMatch: "*", AllowedFields: []string{"a", "b"}, Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_GET_VALUE, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY, pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_LOG_PROVE_INCLUSION}},
	{ApiKey: "all", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
}}}

// tally is what a goroutine saw. It's its own until the end.
type tally struct {
	saw   map[string]int64
	fails []string
	logs  map[string]map[string]bool // acknowledged leaf hashes, by log
	maps  map[string]int             // acknowledged mutations
}

func newTally() *tally {
	return &tally{saw: map[string]int64{}, logs: map[string]map[string]bool{}, maps: map[string]int{}}
}

func (t *tally) failf(f string, args ...interface{}) {
	if len(t.fails) < 3 {
		t.fails = append(t.fails, fmt.Sprintf(f, args...))
	}
}

type c26world struct {
	what       string
	async      bool
	optimistic bool
	vias       []Svc
	accs       []*verifiable.Account // shared clients, by via
	logs       [][]*verifiable.Log   // shared, by via and number
	maps       [][]*verifiable.Map
	hc         *http.Client
	url        string
	done       []func()
}

const (
	c26logs = 3
	c26maps = 2
)

func newC26world(r *R, kind string, async bool, open bool) *c26world {
	var st verifiable.StorageWriter
	var done func()
	if kind == "postgres" {
		pg := newPGStore(1, 6)
		g := &gated{st: pg.sts[0]}
		st = g
		done = func() { g.shut(); pg.Close() }
	} else {
		st, done = newStore(r, kind)
	}
	w := &c26world{what: kind + " storage", async: async, optimistic: kind == "badger"}
	var mut verifiable.MutatorService = &instant.Mutator{Writer: st}
	if async {
		w.what += ", batches"
		mut = newBatch(st, 1+r.N(4, 4), 3, time.Millisecond)
	}
	ap := verifiable.AuthorizationOracle(&policy.Static{Policy: c26policy})
	if open {
		ap = policy.Open
		w.what += ", open policy"
	}
	svc := newService(st, mut, ap)
	rs := newREST(svc)
	w.hc, w.url = rs.hc, rs.URL
	gs := newGRPC(svc)
	w.vias = []Svc{svc, svc, rs.Client(), gs.Client()}
	for _, v := range w.vias {
		acc := hl(v, "26", "all")
		w.accs = append(w.accs, acc)
		var ls []*verifiable.Log
		var ms []*verifiable.Map
		for i := 0; i < c26logs; i++ {
			ls = append(ls, acc.VerifiableLog(fmt.Sprint("o", i)))
		}
		for i := 0; i < c26maps; i++ {
			ms = append(ms, acc.VerifiableMap(fmt.Sprint("o", i)))
		}
		w.logs, w.maps = append(w.logs, ls), append(w.maps, ms)
	}
	w.done = []func(){rs.Close, gs.Close, done}
	return w
}

// conflict says whether a write was refused because of another one, as Badger's are; nothing is stored then.
func (w *c26world) conflict(t *tally, err error) bool {
	if w.optimistic && err != nil && (strings.Contains(err.Error(), "Transaction Conflict") || code(err) == codes.Internal && status.Convert(err).Message() == "") { // REST doesn't say
		t.saw["conflict"]++
		return true
	}
	return false
}

// worker does operations until they're done. It must not synchronize with the others but through the code under test.
func (w *c26world) worker(t *tally, id int, rng *rand.Rand, n int) {
	heads := map[int]*pb.LogTreeHashResponse{}
	states := map[int]*verifiable.MapTreeState{}
	acked := map[int][][]byte{}
	keys := [][]byte{[]byte("k0"), []byte("k1"), []byte("k2"), []byte(fmt.Sprint("own", id))}
	reused := &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acct("26", "all")}, Value: &pb.LeafData{}}
	reusedM := &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acct("26", "all")}, Mutation: &pb.MapMutation{}}
	for i := 0; i < n; i++ {
		if rng.Intn(3) == 0 {
			runtime.Gosched()
		}
		via := rng.Intn(len(w.vias))
		svc := w.vias[via]
		li, mi := rng.Intn(c26logs), rng.Intn(c26maps)
		lg, vm := w.logs[via][li], w.maps[via][mi]
		lname, mname := fmt.Sprint("o", li), fmt.Sprint("o", mi)
		ok := func(op string, err error) bool {
			if err != nil {
				t.failf("%s, worker %d step %d via %d: %s: %v", w.what, id, i, via, op, err)
				return false
			}
			t.saw[op]++
			return true
		}
		switch op := rng.Intn(20); op {
		case 0, 1, 2, 3: // add, with a buffer that's used again and again
			content := fmt.Sprintf(`{"a":%d,"b":"%d"}`, id, i)
			if rng.Intn(4) == 0 {
				content = fmt.Sprintf(`{"a":%d}`, rng.Intn(30))
			}
			ld, err := verifiable.CreateJSONLeafData([]byte(content))
			if !ok("make-json", err) {
				return
			}
			reused.Log.Name = lname
			reused.Log.Account.ApiKey = "all"
			reused.Value.LeafInput = append(reused.Value.LeafInput[:0], ld.LeafInput...)
			reused.Value.ExtraData = append(reused.Value.ExtraData[:0], ld.ExtraData...)
			reused.Value.Format = ld.Format
			resp, err := svc.LogAddEntry(bg, reused)
			if w.conflict(t, err) {
				continue
			}
			if !ok("add", err) {
				return
			}
			lh := spec.LeafHash(ld.LeafInput)
			if !bytes.Equal(resp.LeafHash, lh) {
				t.failf("%s: adding gives leaf hash %x, not %x", w.what, resp.LeafHash, lh)
				return
			}
			if t.logs[lname] == nil {
				t.logs[lname] = map[string]bool{}
			}
			t.logs[lname][string(lh)] = true
			acked[li] = append(acked[li], lh)
			reused.Log.Name, reused.Log.Account.ApiKey = "zzz", "zzz"
			overwrite(reused.Value.LeafInput)
			overwrite(reused.Value.ExtraData)
			overwrite(resp.LeafHash)
		case 4, 5, 6, 7: // mutate
			m := reusedM.Mutation
			reusedM.Map.Name, reusedM.Map.Account.Id, reusedM.Map.Account.ApiKey = mname, "26", "all"
			m.Key = append(m.Key[:0], keys[rng.Intn(len(keys))]...)
			m.Action, m.PreviousLeafHash, m.Value = "set", nil, nil
			switch rng.Intn(4) {
			case 0:
				m.Action = "delete"
			case 1:
				m.Action = "update"
				m.PreviousLeafHash = spec.LeafHash([]byte(fmt.Sprint(rng.Intn(3))))
				fallthrough
			default:
				m.Value = &pb.LeafData{LeafInput: []byte(fmt.Sprint(rng.Intn(3)))}
				if rng.Intn(2) == 0 {
					var err error
					m.Value, err = verifiable.CreateRedactableJSONLeafData([]byte(fmt.Sprintf(`{"a":%d,"c":"%d"}`, id, i)))
					if !ok("make-redactable", err) {
						return
					}
				}
			}
			_, err := svc.MapSetValue(bg, reusedM)
			if w.conflict(t, err) {
				continue
			}
			if !ok("mutate-"+m.Action, err) {
				return
			}
			t.maps[mname]++
			scramble(m.ProtoReflect())
			reusedM.Map.Name, reusedM.Map.Account.Id, reusedM.Map.Account.ApiKey = "zzz", "zzz", "zzz"
		case 8, 9: // heads, each verified to follow the last
			h, err := lg.VerifiedLatestTreeHead(bg, heads[li])
			if !ok("verified-head", err) {
				return
			}
			heads[li] = proto.Clone(h).(*pb.LogTreeHashResponse)
			if h.TreeSize > 0 {
				e, err := lg.Entry(bg, rng.Int63n(h.TreeSize))
				if !ok("entry", err) {
					return
				}
				if !ok("validate", verifiable.ValidateJSONLeafData(bg, e)) {
					return
				}
				if !ok("verify-inclusion", lg.VerifyInclusion(bg, h, spec.LeafHash(e.LeafInput))) {
					return
				}
				scramble(e.ProtoReflect())
				scramble(h.ProtoReflect())
			}
		case 10: // own entries are there
			if w.async || len(acked[li]) == 0 {
				continue
			}
			lh := acked[li][rng.Intn(len(acked[li]))]
			h, err := lg.BlockUntilPresent(bg, lh)
			if !ok("block-until-present", err) {
				return
			}
			if !ok("verify-own", lg.VerifyInclusion(bg, h, lh)) {
				return
			}
		case 11: // everything
			h := heads[li]
			if h == nil || h.TreeSize == 0 {
				continue
			}
			from := (*pb.LogTreeHashResponse)(nil)
			if rng.Intn(2) == 0 {
				a := 1 + rng.Int63n(h.TreeSize)
				x, err := lg.VerifiedTreeHead(bg, h, a)
				if !ok("verified-head-of-size", err) {
					return
				}
				from = x
			}
			var c int64
			err := lg.VerifyEntries(bg, from, h, func(ctx context.Context, idx int64, e *pb.LeafData) error {
				c++
				return verifiable.ValidateJSONLeafData(ctx, e)
			})
			if !ok("audit-log", err) {
				return
			}
		case 12: // some entries, perhaps not all of those asked for
			h := heads[li]
			if h == nil || h.TreeSize == 0 {
				continue
			}
			ctx, cancel := context.WithCancel(bg)
			stop := -1
			if rng.Intn(2) == 0 {
				stop = rng.Intn(int(h.TreeSize))
			}
			c := 0
			for e := range lg.Entries(ctx, 0, h.TreeSize) {
				scramble(e.ProtoReflect())
				if c == stop {
					break
				}
				c++
			}
			cancel()
			if stop < 0 && int64(c) != h.TreeSize {
				t.failf("%s: %d of %d entries", w.what, c, h.TreeSize)
				return
			}
			t.saw["entries"]++
		case 13, 14: // map states and values
			s, err := vm.VerifiedLatestMapState(bg, states[mi])
			if !ok("map-state", err) {
				return
			}
			if s == nil {
				continue
			}
			states[mi] = &verifiable.MapTreeState{MapTreeHead: proto.Clone(s.MapTreeHead).(*pb.MapTreeHashResponse), TreeHeadLogTreeHead: proto.Clone(s.TreeHeadLogTreeHead).(*pb.LogTreeHashResponse)}
			v, err := vm.VerifiedGet(bg, keys[rng.Intn(3)], s)
			if !ok("verified-get", err) {
				return
			}
			scramble(v.ProtoReflect())
			scramble(s.MapTreeHead.ProtoReflect())
		case 15:
			s := states[mi]
			if s == nil || rng.Intn(3) > 0 {
				continue
			}
			if !ok("audit-map", vm.VerifyMap(bg, nil, s, nil, func(ctx context.Context, idx int64, key []byte, value *pb.LeafData) error { return nil })) {
				return
			}
		case 16: // as a restricted reader, and as nobody
			lr := &pb.LogRef{Account: acct("26", "some"), Name: mname, LogType: tMut}
			_, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr})
			if !ok("restricted-head", err) {
				return
			}
			resp, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: &pb.MapRef{Account: acct("26", "some"), Name: "never"}})
			if !ok("empty-map-head", err) {
				return
			}
			scramble(resp.ProtoReflect())
			if _, err = svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: acct("27", "x"), Name: lname}}); err == nil {
				t.saw["other-account"]++
			}
		case 17: // what the server serves besides
			resp, err := w.hc.Get(w.url + []string{"/", "/static/continusec.js", "/v2/account/26/log/o0/tree/0", "/nosuch"}[rng.Intn(4)])
			if !ok("get", err) {
				return
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		case 18: // promises
			if w.async {
				continue
			}
			p, err := vm.Set(bg, []byte("promised"), &pb.LeafData{LeafInput: []byte(fmt.Sprint(id, i))})
			if w.conflict(t, err) {
				continue
			}
			if !ok("set", err) {
				return
			}
			t.maps[mname]++
			h, err := p.Wait(bg)
			if !ok("wait", err) {
				return
			}
			if h.MutationLog.GetTreeSize() == 0 {
				t.failf("%s: waiting for a mutation gives an empty head", w.what)
			}
		case 19: // calls given up
			ctx, cancel := context.WithCancel(bg)
			go func() {
				runtime.Gosched()
				cancel()
			}()
			svc.MapGetValue(ctx, &pb.MapGetValueRequest{Map: mref("26", mname), Key: keys[0]})
			svc.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: lref("26", lname, tLog)})
			lg.VerifiedLatestTreeHead(ctx, heads[li])
			cancel()
			t.saw["given-up"]++
		}
	}
}

// run lets workers go, all at once.
func (w *c26world) run(r *R, part string, workers, n int) {
	ts := make([]*tally, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range ts {
		i := i
		ts[i] = newTally()
		rng := r.Rand(fmt.Sprint(part, i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			w.worker(ts[i], i, rng, n)
		}()
	}
	close(start)
	wg.Wait()
	w.judge(r, part, ts)
}

func (w *c26world) judge(r *R, part string, ts []*tally) {
	logs := map[string]map[string]bool{}
	maps := map[string]int{}
	for _, t := range ts {
		for k, n := range t.saw {
			r.SawN(k, n)
			r.Case("op", "%s %s %s %d", part, w.what, k, n)
		}
		for _, f := range t.fails {
			r.Failf("%s", f)
		}
		for k, v := range t.logs {
			if logs[k] == nil {
				logs[k] = map[string]bool{}
			}
			for h := range v {
				logs[k][h] = true
			}
		}
		for k, n := range t.maps {
			maps[k] += n
		}
	}
	if r.Failed() {
		return
	}
	for name, lhs := range logs {
		lr := &pb.LogRef{Account: acct("26", "all"), Name: name}
		ok := waitFor(r, func() bool {
			h, err := w.vias[0].LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr})
			return err == nil && h.TreeSize >= int64(len(lhs))
		})
		e, err := w.vias[0].LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: lr})
		if err != nil || !ok || len(e.Values) != len(lhs) {
			r.Failf("%s: %d different entries were acknowledged for log %s, it has %d (%v)", w.what, len(lhs), name, len(e.GetValues()), err)
			return
		}
		lm := &LogModel{}
		for _, v := range e.Values {
			if !lhs[string(spec.LeafHash(v.LeafInput))] {
				r.Failf("%s: log %s has entry %s, which nobody added", w.what, name, showLD(v))
				return
			}
			lm.Add(v)
			r.Saw("final-entry")
		}
		if lm.Len() != len(lhs) || !ckLog(r, w.what, w.vias[0], lr, lm, r.Rand(part)) {
			r.Failf("%s: log %s is not as its entries say", w.what, name)
			return
		}
	}
	for name, n := range maps {
		ok := waitFor(r, func() bool {
			h, err := w.vias[0].MapTreeHash(bg, &pb.MapTreeHashRequest{Map: &pb.MapRef{Account: acct("26", "all"), Name: name}})
			return err == nil && h.MutationLog.GetTreeSize() >= int64(n)
		})
		h, err := w.vias[0].MapTreeHash(bg, &pb.MapTreeHashRequest{Map: &pb.MapRef{Account: acct("26", "all"), Name: name}})
		if err != nil || !ok || h.MutationLog.TreeSize != int64(n) {
			r.Failf("%s: %d mutations were acknowledged for map %s, it has %d (%v)", w.what, n, name, h.GetMutationLog().GetTreeSize(), err)
			return
		}
		r.SawN("final-mutation", int64(n))
		vm := w.maps[0][0]
		if name == "o1" {
			vm = w.maps[0][1]
		}
		s, err := vm.VerifiedLatestMapState(bg, nil)
		if err == nil {
			err = vm.VerifyMap(bg, nil, s, nil, func(ctx context.Context, idx int64, key []byte, value *pb.LeafData) error { return nil })
		}
		if err != nil {
			r.Failf("%s: final audit of map %s: %v", w.what, name, err)
			return
		}
	}
}

// c26first has everybody use everything for the first time, at once, again and again.
func c26first(r *R, i int) {
	kind := []string{"memory", "bolt", "badger", "memory", "bolt", "postgres"}[i%6]
	w := newC26world(r, kind, i%4 == 3, i%3 == 2)
	defer w.stop()
	w.what += ", first use"
	const workers = 16
	ts := make([]*tally, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := range ts {
		k := k
		t := newTally()
		ts[k] = t
		wg.Add(1)
		go func() {
			defer wg.Done()
			via := k % len(w.vias)
			svc := w.vias[via]
			lr := &pb.LogRef{Account: acct("26", "all"), Name: fmt.Sprint("o", k%3)}
			mr := &pb.MapRef{Account: acct("26", "all"), Name: fmt.Sprint("o", k%2)}
			<-start
			var err error
			var what string
			switch (k + i) % 6 {
			case 0, 1:
				what = "add"
				li := []byte(fmt.Sprint("first", k/2))
				_, err = svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lr, Value: &pb.LeafData{LeafInput: li}})
				t.logs[lr.Name] = map[string]bool{string(spec.LeafHash(li)): true}
			case 2, 3:
				what = "mutate"
				_, err = svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: mr, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint(k))}}})
				t.maps[mr.Name] = 1
			case 4:
				what = "log-head"
				_, err = svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr})
			case 5:
				what = "map-head"
				_, err = svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mr})
			}
			if (what == "add" || what == "mutate") && w.conflict(t, err) {
				t.logs, t.maps = map[string]map[string]bool{}, map[string]int{}
				return
			}
			if err != nil {
				t.failf("%s: %s via %d: %v", w.what, what, via, err)
				return
			}
			t.saw["first-"+what]++
		}()
	}
	close(start)
	wg.Wait()
	w.judge(r, fmt.Sprint("first", i), ts)
}

// c26storage has a storage used by many at once, for namespaces old and new.
func c26storage(r *R, i int) {
	kind := []string{"postgres", "bolt", "memory", "badger"}[i%4]
	var st verifiable.StorageWriter
	var done func()
	if kind == "postgres" {
		pg := newPGStore(1, 8)
		st, done = pg.sts[0], pg.Close
	} else {
		st, done = newStore(r, kind)
	}
	defer done()
	const workers = 10
	ts := make([]*tally, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := range ts {
		k := k
		t := newTally()
		ts[k] = t
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < 24; n++ {
				ns := []byte(fmt.Sprintf("namespace %d", (n+k/5)%12)) // some see it for the first time together
				key := []byte(fmt.Sprintf("%d-%d", k, n))
				err := st.ExecuteUpdate(bg, ns, func(ctx context.Context, kw verifiable.KeyWriter) error {
					if err := kw.Set(ctx, key, &pb.ObjectSize{Size: int64(n + 1)}); err != nil {
						return err
					}
					var o pb.ObjectSize
					if err := kw.Get(ctx, key, &o); err != nil || o.Size != int64(n+1) {
						return fmt.Errorf("what was set is %v, %v", o.Size, err)
					}
					return nil
				})
				if err != nil {
					if kind == "badger" && strings.Contains(err.Error(), "Transaction Conflict") {
						continue
					}
					t.failf("%s storage: updating %s: %v", kind, ns, err)
					return
				}
				err = st.ExecuteReadOnly(bg, ns, func(ctx context.Context, kr verifiable.KeyReader) error {
					var o pb.ObjectSize
					err := kr.Get(ctx, key, &o)
					if err == nil && o.Size != int64(n+1) {
						return fmt.Errorf("what was stored is %v", o.Size)
					}
					return err
				})
				if err != nil {
					t.failf("%s storage: reading %s: %v", kind, ns, err)
					return
				}
				t.saw["storage-"+kind]++
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, t := range ts {
		for _, f := range t.fails {
			r.Failf("%s", f)
		}
		for k, v := range t.saw {
			r.SawN(k, v)
		}
	}
	r.Case("storage", "%s round %d", kind, i)
}

func (w *c26world) stop() {
	for _, f := range w.done {
		f()
	}
}

// c26startup creates services, servers and clients at once.
func c26startup(r *R, i int) {
	st := &memory.TransientStorage{}
	conf := &verifiable.Service{AccessPolicy: policy.Open, Reader: st, Mutator: &instant.Mutator{Writer: st}}
	svc0 := conf.MustCreate()
	rs := newREST(svc0)
	defer rs.Close()
	gs := newGRPC(svc0)
	defer gs.Close()
	rconf := &httprest.Client{BaseURL: rs.URL, HTTPClient: rs.hc}
	gconf := &vgrpc.Client{Address: gs.Addr, NoGrpcSecurity: true}
	client := &verifiable.Client{Service: svc0}
	var wg sync.WaitGroup
	var bad, good int64
	start := make(chan struct{})
	for k := 0; k < 12; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			var svc Svc
			var err error
			switch k % 5 {
			case 0:
				svc, err = conf.Create()
			case 1:
				svc, err = rconf.Dial()
			case 2:
				svc, err = gconf.Dial()
			case 3:
				h := httprest.CreateRESTHandler(svc0, nil, nil)
				rec := &http.Server{Handler: h}
				rec.Close()
				svc = svc0
			case 4:
				svc = svc0
				lg := client.Account("1", "").VerifiableLog("l")
				_, err = lg.TreeHead(bg, 0)
			}
			if err == nil {
				_, err = hl(svc, "1", "").VerifiableLog("l").Add(bg, &pb.LeafData{LeafInput: []byte(fmt.Sprint(k))})
			}
			if err == nil {
				_, err = svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mref("1", "m")})
			}
			if err != nil {
				atomic.AddInt64(&bad, 1)
			} else {
				atomic.AddInt64(&good, 1)
			}
		}()
	}
	close(start)
	wg.Wait()
	r.SawN("startup", good)
	if bad > 0 {
		r.Failf("start-up: %d of %d uses failed", bad, bad+good)
	}
	h, err := svc0.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lref("1", "l", tLog)})
	if err != nil || h.TreeSize != 12 {
		r.Failf("start-up: log of 12 entries has head %v, %v", h, err)
	}
}

// c26pure calls functions without state at once, on shared arguments.
func c26pure(r *R, i int) {
	lm := &LogModel{}
	for j := 0; j < 20; j++ {
		lm.Add(&pb.LeafData{LeafInput: []byte(fmt.Sprint(j))})
	}
	head := &pb.LogTreeHashResponse{TreeSize: 20, RootHash: lm.Tree.Root(20)}
	inc := &pb.LogInclusionProofResponse{TreeSize: 20, LeafIndex: 7, AuditPath: lm.Tree.Inclusion(7, 20)}
	con := &pb.LogConsistencyProofResponse{FromSize: 9, TreeSize: 20, AuditPath: lm.Tree.Consistency(9, 20)}
	from := &pb.LogTreeHashResponse{TreeSize: 9, RootHash: lm.Tree.Root(9)}
	var w MapWorld
	w.Apply(spec.Mut{Action: "set", Key: []byte("k"), LI: []byte("v")})
	mh := &pb.MapTreeHashResponse{RootHash: w.Root(1), MutationLog: &pb.LogTreeHashResponse{TreeSize: 1}}
	mp := &pb.MapGetValueResponse{TreeSize: 1, AuditPath: make([][]byte, 256), Value: &pb.LeafData{LeafInput: []byte("v")}}
	ld, err := verifiable.CreateJSONLeafData([]byte(`{"a":[1,2,{"b":null}],"c":"d"}`))
	if err != nil {
		panic(err)
	}
	red, err := verifiable.CreateRedactableJSONLeafData([]byte(`{"a":[1,2,{"b":null}],"c":"d"}`))
	if err != nil {
		panic(err)
	}
	mut, err := verifiable.CreateJSONLeafDataFromMutation(&pb.MapMutation{Action: "set", Key: []byte("k"), Value: ld, Timestamp: "2001-01-01T00:00:00Z"})
	if err != nil {
		panic(err)
	}
	st := &policy.Static{Policy: c26policy}
	errDiff := errors.New("differs")
	fs := []func() error{
		func() error { return verifiable.VerifyLogInclusionProof(inc, lm.Tree.Leaves[7], head) },
		func() error { return verifiable.VerifyLogConsistencyProof(con, from, head) },
		func() error { return verifiable.VerifyMapInclusionProof(mp, []byte("k"), mh) },
		func() error { return verifiable.ValidateJSONLeafData(bg, ld) },
		func() error { return verifiable.ValidateJSONLeafData(bg, red) },
		func() error { return verifiable.ValidateJSONLeafDataFromMutation(mut) },
		func() error {
			b, err := verifiable.ShedRedactedJSONFields(red.ExtraData)
			if err == nil && !bytes.Contains(b, []byte(`"c":"d"`)) {
				err = errDiff
			}
			return err
		},
		func() error {
			_, err := st.VerifyAllowed(bg, "26", "all", "anything", pb.Permission_PERM_LOG_RAW_ADD)
			return err
		},
		func() error {
			if verifiable.BPathFromKey([]byte("k")).Slice(3, 90).Length() != 87 || verifiable.BPathJoin(verifiable.BPathTrue, verifiable.BPathFalse).Str() != "10" {
				return errDiff
			}
			return nil
		},
		func() error {
			x, err := verifiable.CreateRedactableJSONLeafData([]byte(`{"x":1}`))
			if err == nil {
				err = verifiable.ValidateJSONLeafData(bg, x)
			}
			return err
		},
	}
	var wg sync.WaitGroup
	fails := make([]string, 10)
	for g := range fails {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 40; j++ {
				k := (g + j) % len(fs)
				if err := fs[k](); err != nil {
					fails[g] = fmt.Sprintf("function %d: %v", k, err)
				}
			}
		}()
	}
	wg.Wait()
	r.SawN("pure", 400)
	for _, f := range fails {
		if f != "" {
			r.Failf("functions called concurrently: %s", f)
			return
		}
	}
}

// c26server uses the server program, built with the race detector as well.
func c26server(r *R, i int) {
	dir := r.Dir()
	conf := `insecure_server_for_testing: true
accounts: <id: "26" policy: <api_key: "all" name_match: "*" allowed_fields: "*" permissions: PERM_ALL_PERMISSIONS> policy: <api_key: "some" name_match: "*" allowed_fields: "a" permissions: PERM_ALL_PERMISSIONS>>
`
	if os.Getenv("VDBSERVER") == "" {
		r.Notef("no server program")
		return
	}
	p := startVDB(r, conf, dir, true, true)
	if p == nil {
		return
	}
	defer p.kill()
	w := &c26world{what: "server program"}
	w.vias = []Svc{p.rest(), p.grpc(), p.grpc()}
	for _, v := range w.vias {
		acc := hl(v, "26", "all")
		w.accs = append(w.accs, acc)
		var ls []*verifiable.Log
		var ms []*verifiable.Map
		for j := 0; j < c26logs; j++ {
			ls = append(ls, acc.VerifiableLog(fmt.Sprint("o", j)))
		}
		for j := 0; j < c26maps; j++ {
			ms = append(ms, acc.VerifiableMap(fmt.Sprint("o", j)))
		}
		w.logs, w.maps = append(w.logs, ls), append(w.maps, ms)
	}
	w.hc, w.url = &http.Client{}, "http://"+p.restAddr
	w.run(r, fmt.Sprint("server", i), 10, r.N(60, 200))
	if p.exited() {
		r.Failf("the server program exited under concurrent use:\n%s", p.out.String())
	}
	r.Saw("server-run")
}

func c26(r *R) {
	for i := 0; i < r.N(60, 600) && !r.Failed(); i++ {
		c26first(r, i)
	}
	for i := 0; i < r.N(12, 120) && !r.Failed(); i++ {
		c26storage(r, i)
	}
	for i := 0; i < r.N(20, 200) && !r.Failed(); i++ {
		c26startup(r, i)
		c26pure(r, i)
	}
	kinds := []string{"memory", "bolt", "memory", "badger", "postgres"}
	for i := 0; i < r.N(10, 120) && !r.Failed(); i++ {
		w := newC26world(r, kinds[i%5], i%3 == 1, i%5 == 4)
		w.run(r, fmt.Sprint("stress", i), 8+i%3*4, r.N(100, 250))
		w.stop()
	}
	for i := 0; i < r.N(2, 10) && !r.Failed(); i++ {
		c26server(r, i)
	}
}
