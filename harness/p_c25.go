package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	props["C25"] = &property{level: "exploration", run: c25,
		rule:        "Batches of generated reads (all read calls and verifying client operations, valid, refused, out of range and hostile; embedded, over REST and gRPC; several storages and both mutators) on logs and maps of many states; the storage counts updates and is compared before and after, requests are compared with copies and with guard bytes behind every byte string, every answer is overwritten in place once recorded, and the reads are repeated in another order and must give what they gave. A case is a (transport, storage, request, kind of result).",
		assumptions: []string{"SHA-256 collisions do not occur"}}
}

// guards keeps byte strings with bytes behind them that nobody may write
type guards struct {
	all [][]byte
}

const guardLen = 48

func (g *guards) bytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	a := make([]byte, len(b)+guardLen)
	copy(a, b)
	for i := len(b); i < len(a); i++ {
		a[i] = 0xa5
	}
	g.all = append(g.all, a[len(b):])
	return a[:len(b)]
}

func (g *guards) broken() bool {
	for _, a := range g.all {
		for _, x := range a {
			if x != 0xa5 {
				return true
			}
		}
	}
	return false
}

// message puts guards behind all byte strings of a message, and spare capacity behind lists.
func (g *guards) message(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				if fd.Kind() == protoreflect.BytesKind {
					l.Set(i, protoreflect.ValueOfBytes(g.bytes(l.Get(i).Bytes())))
				} else if fd.Message() != nil {
					g.message(l.Get(i).Message())
				}
			}
		case fd.Message() != nil:
			g.message(v.Message())
		case fd.Kind() == protoreflect.BytesKind:
			m.Set(fd, protoreflect.ValueOfBytes(g.bytes(v.Bytes())))
		}
		return true
	})
}

func overwrite(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

// scramble overwrites everything in a message in place, as its owner may, and what its slices have room for.
func scramble(m protoreflect.Message) {
	if !m.IsValid() {
		return
	}
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		switch {
		case fd.IsList():
			if !m.Has(fd) {
				continue
			}
			l := m.Mutable(fd).List()
			for j := 0; j < l.Len(); j++ {
				if fd.Kind() == protoreflect.BytesKind {
					overwrite(l.Get(j).Bytes())
					l.Set(j, protoreflect.ValueOfBytes([]byte("scrambled")))
				} else if fd.Message() != nil {
					scramble(l.Get(j).Message())
				}
			}
		case fd.Message() != nil:
			if m.Has(fd) {
				scramble(m.Get(fd).Message())
				m.Clear(fd)
			}
		case fd.Kind() == protoreflect.BytesKind:
			overwrite(m.Get(fd).Bytes())
			m.Set(fd, protoreflect.ValueOfBytes([]byte("scrambled")))
		case fd.Kind() == protoreflect.Int64Kind:
			m.Set(fd, protoreflect.ValueOfInt64(m.Get(fd).Int()+1))
		case fd.Kind() == protoreflect.StringKind:
			m.Set(fd, protoreflect.ValueOfString("scrambled"))
		case fd.Kind() == protoreflect.EnumKind:
			m.Set(fd, protoreflect.ValueOfEnum(1-m.Get(fd).Enum()))
		}
	}
}

type c25world struct {
	r       *R
	rng     *rand.Rand
	what    string
	updates int64 // begin-update, set and commit hooks
	queued  int64
	st      *specStore
	svcs    map[string]Svc
	rest    *restServer
	names   []string
	lm      LogModel
	mw      MapWorld
	keys    [][]byte
	g       *mapGen
	fail    int64 // storage operations until one fails; 0 for none
	done    []func()
}

// countingMutator counts what is queued.
type countingMutator struct {
	verifiable.MutatorService
	n *int64
}

func (c *countingMutator) QueueMutation(ctx context.Context, ns []byte, m *pb.Mutation) error {
	atomic.AddInt64(c.n, 1)
	return c.MutatorService.QueueMutation(ctx, ns, m)
}

var c25policy = []*pb.ResourceAccount{{Id: "25", Policy: []*pb.AccessPolicy{
	{ApiKey: "all", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
	{ApiKey: "some", NameMatch: "*", AllowedFields: []string{"a", "name"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
	{ApiKey: "none", NameMatch: "*", AllowedFields: nil, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
	{ApiKey: "hash", NameMatch: "x", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH}},
}}}

func newC25world(r *R, i int) *c25world {
	w := &c25world{r: r, rng: r.Rand(fmt.Sprint("w", i)), svcs: map[string]Svc{}}
	kind := []string{"spec", "spec", "memory", "spec", "bolt", "spec", "badger", "spec"}[i%8]
	st, done := newStore(r, kind)
	w.done = append(w.done, done)
	w.st, _ = st.(*specStore)
	h := &hookStore{Inner: st, Hook: func(op string, ns, key []byte) error {
		switch op {
		case "begin-update", "set", "commit":
			atomic.AddInt64(&w.updates, 1)
		}
		if n := atomic.LoadInt64(&w.fail); n > 0 && (op == "get" || op == "begin-read" || op == "read-done") {
			if atomic.AddInt64(&w.fail, -1) == 0 {
				return errors.New("storage down")
			}
		}
		return nil
	}}
	var inner Svc
	mut := "instant"
	if i%5 == 3 {
		mut = "batch"
		inner = newService(h, &countingMutator{newBatch(h, 10, 10, time.Millisecond), &w.queued}, staticPolicy(c25policy))
	} else {
		inner = newService(h, &countingMutator{&instant.Mutator{Writer: h}, &w.queued}, staticPolicy(c25policy))
	}
	w.what = fmt.Sprintf("world %d (%s storage, %s mutator)", i, kind, mut)
	w.rest = newREST(inner)
	gs := newGRPC(inner)
	w.done = append(w.done, w.rest.Close, gs.Close)
	w.svcs["embedded"], w.svcs["REST"], w.svcs["gRPC"] = inner, w.rest.Client(), gs.Client()
	w.names = []string{"embedded", "embedded", "REST", "gRPC"}
	w.g = newMapGen(w.rng, 4)
	w.keys = append(w.g.keys, []byte("never set"))
	return w
}

func (w *c25world) grow(n int) bool {
	svc := w.svcs["embedded"]
	lr := &pb.LogRef{Account: acct("25", "all"), Name: "x"}
	mr := &pb.MapRef{Account: acct("25", "all"), Name: "x"}
	for i := 0; i < n; i++ {
		c := c12make(w.rng, w.lm.Len()*100+i)
		if c.obj == nil { // keep everything readable by restricted readers, mostly
			continue
		}
		req := &pb.LogAddEntryRequest{Log: proto.Clone(lr).(*pb.LogRef), Value: proto.Clone(c.ld).(*pb.LeafData)}
		g := &guards{}
		g.message(req.ProtoReflect())
		resp, err := svc.LogAddEntry(bg, req)
		if g.broken() || !proto.Equal(req.Value, c.ld) || !proto.Equal(req.Log, lr) {
			w.r.Failf("%s: an addition changed its request, or wrote behind a byte string of it", w.what)
		}
		if err != nil {
			w.r.Failf("%s: add: %v", w.what, err)
			return false
		}
		w.lm.Add(c.ld)
		mu := w.g.next(&w.mw.MapModel)
		if mu.LI != nil {
			mu.LI, mu.ED, mu.Format = c.ld.LeafInput, c.ld.ExtraData, int32(c.ld.Format)
		}
		sreq := &pb.MapSetValueRequest{Map: proto.Clone(mr).(*pb.MapRef), Mutation: mutProto(mu)}
		sreq = proto.Clone(sreq).(*pb.MapSetValueRequest)
		g = &guards{}
		g.message(sreq.ProtoReflect())
		sresp, err := svc.MapSetValue(bg, sreq)
		if g.broken() || !proto.Equal(sreq.Mutation, mutProto(mu)) || !proto.Equal(sreq.Map, mr) {
			w.r.Failf("%s: a mutation changed its request, or wrote behind a byte string of it", w.what)
		}
		if err != nil {
			w.r.Failf("%s: set: %v", w.what, err)
			return false
		}
		w.mw.Apply(mu)
		// requests and responses are the caller's own again
		for _, m := range []proto.Message{req, resp, sreq, sresp} {
			scramble(m.ProtoReflect())
		}
		w.r.SawN("write-buffers-overwritten", 4)
	}
	ok := waitFor(w.r, func() bool {
		h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr})
		m, err2 := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mr})
		return err == nil && err2 == nil && h.TreeSize >= int64(w.lm.Len()) && m.MutationLog.GetTreeSize() >= int64(w.mw.Size())
	})
	if !ok {
		w.r.Failf("%s: what was added never appears", w.what)
	}
	return ok
}

// state compares the contents with the models.
func (w *c25world) state(when string) bool {
	svc := w.svcs["embedded"]
	lr := &pb.LogRef{Account: acct("25", "all"), Name: "x"}
	mr := &pb.MapRef{Account: acct("25", "all"), Name: "x"}
	return ckLog(w.r, w.what+" "+when, svc, lr, &w.lm, w.rng) && ckMapAll(w.r, w.what+" "+when, svc, mr, &w.mw, w.rng, 3)
}

func (w *c25world) size(n int) int64 {
	if w.rng.Intn(6) == 0 {
		return c19size(w.rng, n)
	}
	return int64(w.rng.Intn(n + 2))
}

// request makes a read.
func (w *c25world) request() proto.Message {
	rng := w.rng
	key := []string{"all", "all", "all", "some", "none", "hash", "wrong", ""}[rng.Intn(8)]
	nm := []string{"x", "x", "x", "x", "x", "nosuch", "no*such"}[rng.Intn(7)]
	lt := []pb.LogType{tLog, tMut, tHead}[rng.Intn(3)]
	n := w.mw.Size()
	if lt == tLog {
		n = w.lm.Len()
	}
	lr := &pb.LogRef{Account: acct("25", key), Name: nm, LogType: lt}
	mr := &pb.MapRef{Account: acct("25", key), Name: nm}
	var req proto.Message
	switch rng.Intn(6) {
	case 0:
		req = &pb.LogTreeHashRequest{Log: lr, TreeSize: w.size(n)}
	case 1:
		req = &pb.LogFetchEntriesRequest{Log: lr, First: w.size(n), Last: w.size(n)}
	case 2:
		q := &pb.LogInclusionProofRequest{Log: lr, TreeSize: w.size(n), LeafIndex: w.size(n)}
		if rng.Intn(3) == 0 && w.lm.Len() > 0 {
			q.LeafIndex, q.MtlHash = 0, append([]byte(nil), w.lm.Tree.Leaves[rng.Intn(w.lm.Len())]...)
		} else if rng.Intn(5) == 0 {
			q.LeafIndex, q.MtlHash = 0, randBytes(rng, rng.Intn(40))
		}
		req = q
	case 3:
		req = &pb.LogConsistencyProofRequest{Log: lr, TreeSize: w.size(n), FromSize: w.size(n)}
	case 4:
		req = &pb.MapTreeHashRequest{Map: mr, TreeSize: w.size(w.mw.Size())}
	default:
		req = &pb.MapGetValueRequest{Map: mr, TreeSize: w.size(w.mw.Size()), Key: append([]byte(nil), w.keys[rng.Intn(len(w.keys))]...)}
	}
	if rng.Intn(12) == 0 {
		hostile(rng, req.ProtoReflect())
	}
	return req
}

type c25read struct {
	name string
	ask  func() (interface{}, error) // the answer itself
	want string
}

// scrambleAny overwrites an answer of any kind.
func scrambleAny(a interface{}) {
	switch x := a.(type) {
	case proto.Message:
		scramble(x.ProtoReflect())
	case *verifiable.MapTreeState:
		if x != nil {
			scramble(x.MapTreeHead.ProtoReflect())
			scramble(x.TreeHeadLogTreeHead.ProtoReflect())
		}
	}
}

// render is what is compared of an answer.
func render(a interface{}, err error) string {
	if err != nil {
		return "error " + code(err).String()
	}
	switch x := a.(type) {
	case proto.Message:
		b, e := proto.MarshalOptions{Deterministic: true}.Marshal(x)
		if e != nil {
			panic(e)
		}
		return fmt.Sprintf("%T %x", x, b)
	case *verifiable.MapTreeState:
		if x == nil {
			return "nil"
		}
		return render(x.MapTreeHead, nil) + render(x.TreeHeadLogTreeHead, nil)
	}
	return fmt.Sprint(a)
}

// request as a read: with guards, checked after
func (w *c25world) low() *c25read {
	req := w.request()
	via := w.names[w.rng.Intn(len(w.names))]
	rd := &c25read{name: fmt.Sprintf("%s %T %s", via, req, trunc(fmt.Sprint(req), 300))}
	rd.ask = func() (interface{}, error) {
		q := proto.Clone(req)
		g := &guards{}
		g.message(q.ProtoReflect())
		resp, err := callSvc(w.svcs[via], q)
		if !proto.Equal(q, req) {
			w.r.Failf("%s: %s: the request has become %v", w.what, rd.name, q)
		}
		if g.broken() {
			w.r.Failf("%s: %s: wrote behind a byte string of the request", w.what, rd.name)
		}
		return resp, err
	}
	return rd
}

func guardedHead(g *guards, h *pb.LogTreeHashResponse) *pb.LogTreeHashResponse {
	if h == nil {
		return nil
	}
	h = proto.Clone(h).(*pb.LogTreeHashResponse)
	g.message(h.ProtoReflect())
	return h
}

func guardedState(g *guards, s *verifiable.MapTreeState) *verifiable.MapTreeState {
	if s == nil {
		return nil
	}
	h := proto.Clone(s.MapTreeHead).(*pb.MapTreeHashResponse)
	g.message(h.ProtoReflect())
	return &verifiable.MapTreeState{MapTreeHead: h, TreeHeadLogTreeHead: guardedHead(g, s.TreeHeadLogTreeHead)}
}

// high makes a read with the verifying client. Its arguments are checked like requests are.
func (w *c25world) high() *c25read {
	rng := w.rng
	via := w.names[rng.Intn(len(w.names))]
	key := []string{"all", "all", "some"}[rng.Intn(3)]
	acc := hl(w.svcs[via], "25", key)
	lg, m, mod := acc.VerifiableLog("x"), acc.VerifiableMap("x"), &w.lm
	if rng.Intn(3) == 0 {
		lg, mod = m.MutationLog(), &w.mw.Mut
	}
	if rng.Intn(6) == 0 {
		lg, m = acc.VerifiableLog("nosuch"), acc.VerifiableMap("nosuch")
	}
	n, mn := mod.Len(), w.mw.Size()
	pick := func(n int) int {
		if n == 0 {
			return 0
		}
		return 1 + rng.Intn(n)
	}
	headOf := func(m *LogModel, s int) *pb.LogTreeHashResponse {
		h := &pb.LogTreeHashResponse{TreeSize: int64(s)}
		if s > 0 && s <= m.Len() {
			h.RootHash = append([]byte(nil), m.Tree.Root(s)...)
		}
		if rng.Intn(10) == 0 && s > 0 {
			h.RootHash[rng.Intn(32)] ^= 1
		}
		return h
	}
	a, b := pick(n), pick(n)
	if a > b {
		a, b = b, a
	}
	ha, hb := headOf(mod, a), headOf(mod, b)
	if rng.Intn(4) == 0 {
		ha = nil
	}
	stateOf := func(s, t int) *verifiable.MapTreeState {
		if s == 0 || t == 0 {
			return nil
		}
		return &verifiable.MapTreeState{
			MapTreeHead:         &pb.MapTreeHashResponse{RootHash: append([]byte(nil), w.mw.Root(s)...), MutationLog: headOf(&w.mw.Mut, s)},
			TreeHeadLogTreeHead: headOf(&w.mw.Heads, t),
		}
	}
	s1 := pick(mn)
	t1 := s1
	if s1 > 0 {
		t1 += rng.Intn(mn - s1 + 1)
	}
	sa, sb := stateOf(s1, t1), stateOf(mn, mn)
	var leaf []byte
	if b > 0 {
		leaf = append([]byte(nil), mod.Tree.Leaves[rng.Intn(b)]...)
	}
	k := w.keys[rng.Intn(len(w.keys))]
	// f gets guarded copies of all these, and what it returns is the answer
	type args struct {
		ha, hb *pb.LogTreeHashResponse
		sa, sb *verifiable.MapTreeState
		leaf   []byte
		key    []byte
	}
	var f func(a *args) (interface{}, error)
	var name string
	sz := w.size(n)
	msz := w.size(mn)
	switch op := rng.Intn(16); op {
	case 0:
		name, f = "VerifyInclusion", func(a *args) (interface{}, error) { return nil, lg.VerifyInclusion(bg, a.hb, a.leaf) }
	case 1:
		name, f = "VerifyConsistency", func(a *args) (interface{}, error) { return nil, lg.VerifyConsistency(bg, a.ha, a.hb) }
	case 2:
		name, f = "VerifiedLatestTreeHead", func(a *args) (interface{}, error) { return lg.VerifiedLatestTreeHead(bg, a.ha) }
	case 3:
		name, f = fmt.Sprint("VerifiedTreeHead ", sz), func(a *args) (interface{}, error) { return lg.VerifiedTreeHead(bg, a.ha, sz) }
	case 4:
		name, f = "VerifySuppliedInclusionProof", func(a *args) (interface{}, error) {
			p, err := lg.InclusionProof(bg, int64(b), leaf)
			if err != nil {
				return nil, err
			}
			c := proto.Clone(p)
			h, err := lg.VerifySuppliedInclusionProof(bg, a.ha, p, a.leaf)
			if !proto.Equal(p, c) {
				w.r.Failf("%s: VerifySuppliedInclusionProof changed the proof", w.what)
			}
			scramble(p.ProtoReflect())
			return h, err
		}
	case 5:
		name, f = "VerifyEntries", func(a *args) (interface{}, error) {
			var seen []string
			err := lg.VerifyEntries(bg, a.ha, a.hb, func(ctx context.Context, idx int64, e *pb.LeafData) error {
				seen = append(seen, fmt.Sprintf("%d %s", idx, showLD(e)))
				return nil
			})
			return strings.Join(seen, ";"), err
		}
	case 6:
		name, f = "Entries", func(a *args) (interface{}, error) {
			var seen []string
			for e := range lg.Entries(bg, int64(0), int64(b)) {
				seen = append(seen, showLD(e))
				scramble(e.ProtoReflect())
			}
			return strings.Join(seen, ";"), nil
		}
	case 7:
		name, f = fmt.Sprint("Entry ", sz), func(a *args) (interface{}, error) { return lg.Entry(bg, sz) }
	case 8, 9:
		name, f = "VerifiedGet", func(a *args) (interface{}, error) {
			s := []*verifiable.MapTreeState{a.sa, a.sb}[op-8]
			if s == nil {
				return nil, nil
			}
			return m.VerifiedGet(bg, a.key, s)
		}
	case 10:
		name, f = fmt.Sprint("VerifiedMapState ", msz), func(a *args) (interface{}, error) { return m.VerifiedMapState(bg, a.sa, msz) }
	case 11:
		name, f = "VerifiedMapState from nothing", func(a *args) (interface{}, error) { return m.VerifiedMapState(bg, nil, msz) }
	case 12:
		name, f = "VerifiedLatestMapState", func(a *args) (interface{}, error) { return m.VerifiedLatestMapState(bg, a.sa) }
	case 13:
		name, f = "VerifyMap", func(a *args) (interface{}, error) {
			if a.sb == nil {
				return nil, nil
			}
			var seen []string
			err := m.VerifyMap(bg, a.sa, a.sb, nil, func(ctx context.Context, idx int64, key []byte, value *pb.LeafData) error {
				seen = append(seen, fmt.Sprintf("%d %x %s", idx, key, showLD(value)))
				return nil
			})
			return strings.Join(seen, ";"), err
		}
	case 14:
		name, f = fmt.Sprint("Map.Get ", msz), func(a *args) (interface{}, error) { return m.Get(bg, a.key, msz) }
	default:
		name, f = "heads", func(a *args) (interface{}, error) {
			h, err := lg.TreeHead(bg, 0)
			if err != nil {
				return nil, err
			}
			x := render(h, nil)
			scramble(h.ProtoReflect())
			g, err := m.TreeHead(bg, 0)
			x += render(g, err)
			if err == nil {
				scramble(g.ProtoReflect())
			}
			return x, nil
		}
	}
	rd := &c25read{name: fmt.Sprintf("%s %s (as %s, from %d to %d, map state %d)", via, name, key, a, b, s1)}
	rd.ask = func() (interface{}, error) {
		g := &guards{}
		x := &args{guardedHead(g, ha), guardedHead(g, hb), guardedState(g, sa), guardedState(g, sb), g.bytes(leaf), g.bytes(k)}
		ans, err := f(x)
		if ha != nil && !proto.Equal(x.ha, ha) || !proto.Equal(x.hb, hb) || render(x.sa, nil) != render(sa, nil) || render(x.sb, nil) != render(sb, nil) || !bytes.Equal(x.leaf, leaf) || !bytes.Equal(x.key, k) {
			w.r.Failf("%s: %s: an argument has been changed", w.what, rd.name)
		}
		if g.broken() {
			w.r.Failf("%s: %s: wrote behind a byte string of an argument", w.what, rd.name)
		}
		return ans, err
	}
	return rd
}

// quiet says whether nothing has been written since the count.
func (w *c25world) quiet(what string, updates, queued int64, dump string) bool {
	if u, q := atomic.LoadInt64(&w.updates), atomic.LoadInt64(&w.queued); u != updates || q != queued {
		w.r.Failf("%s: %s: opened updates or wrote (%d storage events), or queued mutations (%d)", w.what, what, u-updates, q-queued)
		return false
	}
	if w.st != nil && dump != "" && w.st.Dump() != dump {
		w.r.Failf("%s: %s: what is stored has changed", w.what, what)
		return false
	}
	return true
}

func (w *c25world) dump() string {
	if w.st == nil {
		return ""
	}
	return w.st.Dump()
}

// batch of reads, answers overwritten, and again
func (w *c25world) reads(n int) bool {
	r := w.r
	var rds []*c25read
	updates, queued, dump := atomic.LoadInt64(&w.updates), atomic.LoadInt64(&w.queued), w.dump()
	one := func(rd *c25read, again bool) bool {
		var ans interface{}
		var err error
		if !r.Guard(w.what+": "+rd.name, func() { ans, err = rd.ask() }) {
			return false
		}
		got := render(ans, err)
		if !again {
			rd.want = got
			r.Case("read", "%s %s -> %s", w.what, rd.name, trunc(got, 12))
			r.Saw("read")
		} else {
			r.Saw("read-again")
			if got != rd.want {
				r.Failf("%s: %s: first gave %s, then, without writes in between but after overwriting the answers received, %s", w.what, rd.name, trunc(rd.want, 700), trunc(got, 700))
				return false
			}
		}
		if err != nil {
			r.Saw("answer-error-" + code(err).String())
		} else {
			r.Saw("answer-ok")
			scrambleAny(ans)
			r.Saw("answer-overwritten")
		}
		return w.quiet(rd.name, updates, queued, "")
	}
	for i := 0; i < n; i++ {
		rd := w.low()
		if w.rng.Intn(3) == 0 {
			rd = w.high()
		}
		if !one(rd, false) || r.Failed() {
			return false
		}
		if w.rng.Intn(3) == 0 && !one(rd, true) {
			return false
		}
		rds = append(rds, rd)
	}
	for _, i := range w.rng.Perm(len(rds)) {
		if !one(rds[i], true) || r.Failed() {
			return false
		}
	}
	if !w.quiet("a batch of reads", updates, queued, dump) {
		return false
	}
	// reads that fail for the storage's sake, in the middle
	for i := 0; i < n/4; i++ {
		rd := rds[w.rng.Intn(len(rds))]
		atomic.StoreInt64(&w.fail, int64(1+w.rng.Intn(12)))
		ans, err := rd.ask()
		atomic.StoreInt64(&w.fail, 0)
		r.Saw("read-failing")
		if err == nil {
			scrambleAny(ans)
		}
		if !w.quiet(rd.name+", failing", updates, queued, "") {
			return false
		}
	}
	if !w.quiet("failing reads", updates, queued, dump) {
		return false
	}
	// at once
	var wg sync.WaitGroup
	for c := 0; c < 4; c++ {
		order := w.rng.Perm(len(rds))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range order[:len(order)/2] {
				ans, err := rds[i].ask()
				r.Saw("read-concurrent")
				if got := render(ans, err); got != rds[i].want {
					r.Failf("%s: %s: first gave %s, then, among concurrent reads, %s", w.what, rds[i].name, trunc(rds[i].want, 700), trunc(got, 700))
					return
				}
			}
		}()
	}
	wg.Wait()
	return w.quiet("concurrent reads", updates, queued, dump) && !r.Failed()
}

var c25routes = []string{
	"", "/v2", "/v2/account/25", "/v2/account/25/log/x", "/v2/account/25/log/x/", "/v2/account/25/log/x/entry", "/v2/account/25/log/x/entry/", "/v2/account/25/log/x/entry/extra", "/v2/account/25/log/x/entry/xjson", "/v2/account/25/log/x/entry/xjson/redactable",
	"/v2/account/25/log/x/entry/0", "/v2/account/25/log/x/entry/0/extra", "/v2/account/25/log/x/entry/1/xjson", "/v2/account/25/log/x/entries/0-2", "/v2/account/25/log/x/entries/0-2/extra", "/v2/account/25/log/x/entries/2-1",
	"/v2/account/25/log/x/tree/0", "/v2/account/25/log/x/tree/head", "/v2/account/25/log/x/tree/2/consistency/1", "/v2/account/25/log/x/tree/2/inclusion/0", "/v2/account/25/log/x/tree/2/inclusion/h/00", "/v2/account/25/log/x/tree/2/inclusion/s/e", "/v2/account/25/log/new/tree/head", "/v2/account/25/log/new",
	"/v2/account/25/map/x", "/v2/account/25/map/x/key/s/k", "/v2/account/25/map/x/key/h/6b", "/v2/account/25/map/x/key/s/k/extra", "/v2/account/25/map/x/key/s/k/xjson", "/v2/account/25/map/x/key/s/k/xjson/redactable", "/v2/account/25/map/x/tree/head", "/v2/account/25/map/x/tree/1/key/s/k", "/v2/account/25/map/x/tree/1/key/h/6b/extra", "/v2/account/25/map/x/log/mutation/tree/head", "/v2/account/25/map/x/log/mutation/entry", "/v2/account/25/map/x/log/mutation/entry/0", "/v2/account/25/map/x/log/treehead/entry/0/extra", "/v2/account/25/map/x/log/treehead/entry", "/v2/account/25/map/new/key/s/k",
	"/static/", "/static/continusec.js", "/favicon.ico",
}

// rawGets sends requests that are not meant to write, to every route, with bodies and all.
func (w *c25world) rawGets() bool {
	updates, queued, dump := atomic.LoadInt64(&w.updates), atomic.LoadInt64(&w.queued), w.dump()
	for _, path := range c25routes {
		for _, method := range []string{"GET", "HEAD", "OPTIONS", "TRACE"} {
			body := []byte(`{"a":1}`)
			if w.rng.Intn(2) == 0 {
				body = nil
			}
			req, err := http.NewRequest(method, w.rest.URL+path, bytes.NewReader(body))
			if err != nil {
				panic(err)
			}
			req.Header.Set("Authorization", "Key all")
			if w.rng.Intn(3) == 0 {
				req.Header.Set("X-Previous-LeafHash", "00")
			}
			resp, err := w.rest.hc.Do(req)
			if err != nil {
				panic(err)
			}
			resp.Body.Close()
			w.r.Saw("raw-" + method)
			w.r.Case("raw", "%s %s %d", method, path, resp.StatusCode)
			if !w.quiet(method+" "+path, updates, queued, dump) {
				return false
			}
		}
	}
	return true
}

func c25(r *R) {
	// one world after the other where answers overwritten in one might show in another
	r.Par(r.N(120, 1200), func(i int) {
		w := newC25world(r, i)
		defer func() {
			for _, f := range w.done {
				f()
			}
		}()
		for _, n := range []int{0, 1, 1, 2, 4 + w.rng.Intn(8), w.rng.Intn(20)} {
			if !w.grow(n) || !w.state("after writes") {
				return
			}
			if !w.reads(r.N(60, 150)) {
				return
			}
			if !w.state("after reads") {
				return
			}
		}
		w.rawGets()
	})
	c25verifiers(r)
}

// c25verifiers: the pure functions leave their arguments alone, and what they return is the caller's.
func c25verifiers(r *R) {
	rng := r.Rand("verifiers")
	lm := &LogModel{}
	for i := 0; i < 70; i++ {
		lm.Add(&pb.LeafData{LeafInput: []byte(fmt.Sprint(i))})
	}
	for i := 0; i < r.N(3000, 30000); i++ {
		g := &guards{}
		b := 1 + rng.Intn(lm.Len())
		a := rng.Intn(b)
		root := func(n int) []byte {
			if n == 0 {
				return nil
			}
			x := append([]byte(nil), lm.Tree.Root(n)...)
			if rng.Intn(6) == 0 {
				x[3] ^= 4
			}
			return x
		}
		head := &pb.LogTreeHashResponse{TreeSize: int64(b), RootHash: root(b)}
		inc := &pb.LogInclusionProofResponse{TreeSize: int64(b), LeafIndex: int64(a), AuditPath: lm.Tree.Inclusion(a, b)}
		from := &pb.LogTreeHashResponse{TreeSize: int64(a), RootHash: root(a)}
		con := &pb.LogConsistencyProofResponse{FromSize: int64(a), TreeSize: int64(b)}
		if a > 0 {
			con.AuditPath = lm.Tree.Consistency(a, b)
		}
		key := []byte(fmt.Sprint("k", rng.Intn(5)))
		mp := &pb.MapGetValueResponse{TreeSize: int64(b), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint(rng.Intn(3)))}}
		for j := 0; j < rng.Intn(40); j++ {
			mp.AuditPath = append(mp.AuditPath, [][]byte{nil, {}, randBytes(rng, 32)}[rng.Intn(3)])
		}
		mh := &pb.MapTreeHashResponse{RootHash: randBytes(rng, 32), MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(b)}}
		ms := []proto.Message{head, inc, from, con, mp, mh}
		var copies []proto.Message
		for j, m := range ms {
			m = proto.Clone(m)
			ms[j] = m
			g.message(m.ProtoReflect())
			copies = append(copies, proto.Clone(m))
		}
		leaf := g.bytes(lm.Tree.Leaves[a])
		k := g.bytes(key)
		verifiable.VerifyLogInclusionProof(ms[1].(*pb.LogInclusionProofResponse), leaf, ms[0].(*pb.LogTreeHashResponse))
		verifiable.VerifyLogConsistencyProof(ms[3].(*pb.LogConsistencyProofResponse), ms[2].(*pb.LogTreeHashResponse), ms[0].(*pb.LogTreeHashResponse))
		verifiable.VerifyMapInclusionProof(ms[4].(*pb.MapGetValueResponse), k, ms[5].(*pb.MapTreeHashResponse))
		r.SawN("verifier-arguments", 3)
		for j := range ms {
			if !proto.Equal(ms[j], copies[j]) {
				r.Failf("a verifier changed its argument %v to %v", copies[j], ms[j])
				return
			}
		}
		if g.broken() || !bytes.Equal(leaf, lm.Tree.Leaves[a]) || !bytes.Equal(k, key) {
			r.Failf("a verifier changed an argument, or wrote behind it")
			return
		}
		// JSON
		doc := []byte(fmt.Sprintf(`{"a":%d,"b":["x",{"c":null}],"d":"***REDACTED*** Hash: %x"}`, i, spec.LeafHash(key)))
		for name, f := range map[string]func([]byte) (interface{}, error){
			"CreateJSONLeafData":           func(b []byte) (interface{}, error) { return verifiable.CreateJSONLeafData(b) },
			"CreateRedactableJSONLeafData": func(b []byte) (interface{}, error) { return verifiable.CreateRedactableJSONLeafData(b) },
			"ShedRedactedJSONFields":       func(b []byte) (interface{}, error) { return verifiable.ShedRedactedJSONFields(b) },
			"ValidateJSONLeafData": func(b []byte) (interface{}, error) {
				return nil, verifiable.ValidateJSONLeafData(bg, &pb.LeafData{LeafInput: g.bytes(lm.Tree.Leaves[0]), ExtraData: b, Format: pb.DataFormat_JSON})
			},
			"ValidateJSONLeafDataFromMutation": func(b []byte) (interface{}, error) {
				return nil, verifiable.ValidateJSONLeafDataFromMutation(&pb.LeafData{LeafInput: g.bytes(lm.Tree.Leaves[0]), ExtraData: b, Format: pb.DataFormat_JSON})
			},
		} {
			d := g.bytes(doc)
			f(d)
			r.Saw("json-arguments")
			if !bytes.Equal(d, doc) || g.broken() {
				r.Failf("%s changed its argument", name)
				return
			}
		}
	}
}
