package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os/exec"
	"sort"
	"sync"
	"time"

	"vharness/spec"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// Svc is the low level API, whoever provides it.
type Svc = pb.VerifiableDataStructuresServiceServer

var bg = context.Background()

const (
	tLog  = pb.LogType_STRUCT_TYPE_LOG
	tMut  = pb.LogType_STRUCT_TYPE_MUTATION_LOG
	tHead = pb.LogType_STRUCT_TYPE_TREEHEAD_LOG
)

func acct(id, key string) *pb.AccountRef { return &pb.AccountRef{Id: id, ApiKey: key} }
func lref(acc, name string, t pb.LogType) *pb.LogRef {
	return &pb.LogRef{Account: acct(acc, ""), Name: name, LogType: t}
}
func mref(acc, name string) *pb.MapRef { return &pb.MapRef{Account: acct(acc, ""), Name: name} }

// ---- storage

// specStore is a straightforward transactional storage: the reference implementation of the storage contract.
type specStore struct {
	mu   sync.RWMutex
	data map[string]map[string][]byte
	// Yield, if set, is called inside transactions, to widen the window for interleavings
	Yield func()
	// NoRollback keeps what a failed update has written, like a storage without transactions
	NoRollback bool
}

type specTx struct {
	base, over map[string][]byte
	yield      func()
}

func (s *specStore) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error {
	s.mu.RLock()
	defer s.mu.RUnlock()
	return f(ctx, &specTx{base: s.data[string(ns)], yield: s.Yield})
}

func (s *specStore) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	tx := &specTx{base: s.data[string(ns)], over: map[string][]byte{}, yield: s.Yield}
	err := f(ctx, tx)
	if err != nil && !s.NoRollback {
		return err
	}
	if s.data == nil {
		s.data = map[string]map[string][]byte{}
	}
	if s.data[string(ns)] == nil {
		s.data[string(ns)] = map[string][]byte{}
	}
	for k, v := range tx.over {
		if v == nil {
			delete(s.data[string(ns)], k)
		} else {
			s.data[string(ns)][k] = v
		}
	}
	return err
}

func (t *specTx) Get(ctx context.Context, key []byte, value proto.Message) error {
	if t.yield != nil {
		t.yield()
	}
	v, ok := t.over[string(key)]
	if !ok {
		v, ok = t.base[string(key)]
	}
	if !ok || v == nil {
		return verifiable.ErrNoSuchKey
	}
	return proto.Unmarshal(v, value)
}

func (t *specTx) Set(ctx context.Context, key []byte, value proto.Message) error {
	if t.yield != nil {
		t.yield()
	}
	if value == nil {
		t.over[string(key)] = nil
		return nil
	}
	b, err := proto.Marshal(value)
	if err != nil {
		return err
	}
	if b == nil {
		b = []byte{}
	}
	t.over[string(key)] = b
	return nil
}

// Dump is a digest of everything stored.
func (s *specStore) Dump() string {
	s.mu.RLock()
	defer s.mu.RUnlock()
	h := sha256.New()
	var nss []string
	for ns, m := range s.data {
		if len(m) > 0 {
			nss = append(nss, ns)
		}
	}
	sort.Strings(nss)
	for _, ns := range nss {
		fmt.Fprintf(h, "NS %x\n", ns)
		var ks []string
		for k := range s.data[ns] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(h, "%x=%x\n", k, s.data[ns][k])
		}
	}
	return hex.EncodeToString(h.Sum(nil))
}

// Items is the number of keys stored.
func (s *specStore) Items() int {
	s.mu.RLock()
	defer s.mu.RUnlock()
	n := 0
	for _, m := range s.data {
		n += len(m)
	}
	return n
}

// hookStore passes every storage operation by a hook, which may delay it or make it fail.
type hookStore struct {
	Inner verifiable.StorageWriter
	// Late, if set, makes a failing get or set take effect before it reports its failure.
	Late bool
	// Hook is called before: "begin-read", "read-done" (after the callback succeeded), "begin-update", "get", "set", "commit" (after the callback succeeded); and "end-read", "end-update".
	Hook func(op string, ns, key []byte) error
}

func (h *hookStore) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error {
	if err := h.Hook("begin-read", ns, nil); err != nil {
		return err
	}
	err := h.Inner.ExecuteReadOnly(ctx, ns, func(ctx context.Context, kr verifiable.KeyReader) error {
		if err := f(ctx, &hookKR{h, ns, kr}); err != nil {
			return err
		}
		return h.Hook("read-done", ns, nil)
	})
	h.Hook("end-read", ns, nil)
	return err
}

func (h *hookStore) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error {
	if err := h.Hook("begin-update", ns, nil); err != nil {
		return err
	}
	err := h.Inner.ExecuteUpdate(ctx, ns, func(ctx context.Context, kw verifiable.KeyWriter) error {
		if err := f(ctx, &hookKW{hookKR{h, ns, kw}, kw}); err != nil {
			return err
		}
		return h.Hook("commit", ns, nil)
	})
	h.Hook("end-update", ns, nil)
	return err
}

type hookKR struct {
	h  *hookStore
	ns []byte
	kr verifiable.KeyReader
}

func (k *hookKR) Get(ctx context.Context, key []byte, value proto.Message) error {
	if err := k.h.Hook("get", k.ns, key); err != nil {
		if k.h.Late {
			k.kr.Get(ctx, key, value)
		}
		return err
	}
	return k.kr.Get(ctx, key, value)
}

type hookKW struct {
	hookKR
	kw verifiable.KeyWriter
}

func (k *hookKW) Set(ctx context.Context, key []byte, value proto.Message) error {
	if err := k.h.Hook("set", k.ns, key); err != nil {
		if k.h.Late {
			k.kw.Set(ctx, key, value)
		}
		return err
	}
	return k.kw.Set(ctx, key, value)
}

// newStore makes a storage of a kind.
func newStore(r *R, kind string) (verifiable.StorageWriter, func()) {
	switch kind {
	case "spec":
		return &specStore{}, func() {}
	case "memory":
		return &memory.TransientStorage{}, func() {}
	}
	return openStore(kind, r.Dir())
}

// openStore opens a durable storage.
func openStore(kind, dir string) (verifiable.StorageWriter, func()) {
	d := &gated{}
	switch kind {
	case "bolt":
		s := &bolt.Storage{Path: dir}
		d.st = s
		return d, func() {
			d.shut()
			s.Close()
			afterStarts()
		}
	case "badger":
		s := &badger.Storage{Path: dir}
		d.st = s
		return d, func() {
			d.shut()
			s.Close()
			afterStarts()
		}
	}
	panic(kind)
}

var starting sync.RWMutex

// startCmd starts a process.
func startCmd(cmd *exec.Cmd) error {
	starting.RLock()
	defer starting.RUnlock()
	return cmd.Start()
}

// afterStarts waits for the processes being started: between fork and exec they share the open files of this one, and with them the locks.
func afterStarts() {
	starting.Lock()
	starting.Unlock()
}

var errShut = errors.New("the harness has closed this storage")

// gated is a durable storage which can be closed in good order although batching mutators, which can't be stopped, still refer to it:
// closing waits for the transactions under way and refuses those after, and lets go of the storage (Badger holds a lot of memory).
type gated struct {
	mu   sync.Mutex
	cond *sync.Cond
	st   verifiable.StorageWriter
	n    int
}

func (d *gated) enter() verifiable.StorageWriter {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.st != nil {
		d.n++
	}
	return d.st
}

func (d *gated) leave() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.n--
	if d.cond != nil {
		d.cond.Broadcast()
	}
}

func (d *gated) shut() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.st = nil
	d.cond = sync.NewCond(&d.mu)
	for d.n > 0 {
		d.cond.Wait()
	}
}

func (d *gated) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	s := d.enter()
	if s == nil {
		return errShut
	}
	defer d.leave()
	return s.ExecuteReadOnly(ctx, ns, f)
}

func (d *gated) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	s := d.enter()
	if s == nil {
		return errShut
	}
	defer d.leave()
	return s.ExecuteUpdate(ctx, ns, f)
}

// parked keeps a batching mutator from ending the process when the harness closes the storage before it is done with
// mutations that change nothing (repetitions): it never hears the answer.
type parked struct {
	verifiable.StorageWriter
}

func (p parked) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	err := p.StorageWriter.ExecuteReadOnly(ctx, ns, f)
	if err == errShut {
		select {}
	}
	return err
}

func (p parked) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	err := p.StorageWriter.ExecuteUpdate(ctx, ns, f)
	if err == errShut {
		select {}
	}
	return err
}

// ---- service

func newService(st verifiable.StorageWriter, mut verifiable.MutatorService, ap verifiable.AuthorizationOracle) Svc {
	if mut == nil {
		mut = &instant.Mutator{Writer: st}
	}
	if ap == nil {
		ap = policy.Open
	}
	return (&verifiable.Service{AccessPolicy: ap, Reader: st, Mutator: mut}).MustCreate()
}

func newBatch(st verifiable.StorageWriter, batchSize, bufferSize int, timeout time.Duration) verifiable.MutatorService {
	return (&batch.Mutator{Writer: parked{st}, BatchSize: batchSize, BufferSize: bufferSize, Timeout: timeout}).MustCreate()
}

func staticPolicy(p []*pb.ResourceAccount) verifiable.AuthorizationOracle {
	return &policy.Static{Policy: p}
}

func hl(svc Svc, acc, key string) *verifiable.Account {
	return (&verifiable.Client{Service: svc}).Account(acc, key)
}

func code(err error) codes.Code { return status.Code(err) }

// ---- models

// LogModel is what a log must hold.
type LogModel struct {
	Entries []*pb.LeafData
	Tree    spec.Tree
	idx     map[string]int
}

// clone copies a model.
func (m *LogModel) clone() *LogModel {
	n := &LogModel{}
	for _, e := range m.Entries {
		n.Add(e)
	}
	return n
}

// Add appends an entry unless its leaf input is there already.
func (m *LogModel) Add(ld *pb.LeafData) (int, bool) {
	if m.idx == nil {
		m.idx = map[string]int{}
	}
	lh := spec.LeafHash(ld.GetLeafInput())
	if i, ok := m.idx[string(lh)]; ok {
		return i, false
	}
	i := len(m.Entries)
	m.idx[string(lh)] = i
	m.Entries = append(m.Entries, proto.Clone(ld).(*pb.LeafData))
	m.Tree.Append(lh)
	return i, true
}

// Len is its size.
func (m *LogModel) Len() int { return len(m.Entries) }

// Index of a leaf hash, or -1
func (m *LogModel) Index(lh []byte) int {
	if i, ok := m.idx[string(lh)]; ok {
		return i
	}
	return -1
}

func sameLD(a, b *pb.LeafData) bool {
	return bytes.Equal(a.GetLeafInput(), b.GetLeafInput()) && bytes.Equal(a.GetExtraData(), b.GetExtraData()) && a.GetFormat() == b.GetFormat()
}

func showLD(a *pb.LeafData) string {
	if a == nil {
		return "nil"
	}
	return fmt.Sprintf("{%s %s %d}", trunc(hex.EncodeToString(a.LeafInput), 64), trunc(string(a.ExtraData), 80), a.Format)
}

func samePath(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func showPath(p [][]byte) string {
	s := "["
	for _, x := range p {
		s += trunc(hex.EncodeToString(x), 8) + " "
	}
	return s + "]"
}

// ---- log checks. Each reports at most one violation, prefixed with what; they return false after one.

func ckHead(r *R, what string, svc Svc, ref *pb.LogRef, m *LogModel, n int) bool {
	resp, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ref, TreeSize: int64(n)})
	r.Saw("log-head")
	if err != nil {
		r.Failf("%s: head for size %d of %d: %v", what, n, m.Len(), err)
		return false
	}
	sz := n
	if n == 0 {
		sz = m.Len()
	}
	if resp.TreeSize != int64(sz) {
		r.Failf("%s: head for size %d of %d has size %d", what, n, m.Len(), resp.TreeSize)
		return false
	}
	if sz > 0 && !bytes.Equal(resp.RootHash, m.Tree.Root(sz)) {
		r.Failf("%s: head for size %d of %d is %x, the entries hash to %x", what, n, m.Len(), resp.RootHash, m.Tree.Root(sz))
		return false
	}
	if sz == 0 && len(resp.RootHash) != 0 {
		r.Failf("%s: empty log has root hash %x", what, resp.RootHash)
		return false
	}
	return true
}

func ckRange(r *R, what string, svc Svc, ref *pb.LogRef, m *LogModel, first, last int) bool {
	resp, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: int64(first), Last: int64(last)})
	r.Saw("log-range")
	if err != nil {
		r.Failf("%s: entries [%d,%d) of %d: %v", what, first, last, m.Len(), err)
		return false
	}
	end := last
	if end == 0 {
		end = m.Len()
	}
	if len(resp.Values) != end-first {
		r.Failf("%s: entries [%d,%d) of %d: got %d of them", what, first, last, m.Len(), len(resp.Values))
		return false
	}
	for i, v := range resp.Values {
		if !sameLD(v, m.Entries[first+i]) {
			r.Failf("%s: entries [%d,%d) of %d: entry %d is %s, not %s", what, first, last, m.Len(), first+i, showLD(v), showLD(m.Entries[first+i]))
			return false
		}
	}
	return true
}

func ckInclusion(r *R, what string, svc Svc, ref *pb.LogRef, m *LogModel, i, n int, byHash bool) bool {
	req := &pb.LogInclusionProofRequest{Log: ref, TreeSize: int64(n)}
	sz := n
	if n == 0 {
		sz = m.Len()
	}
	if byHash {
		req.MtlHash = m.Tree.Leaves[i]
	} else {
		req.LeafIndex = int64(i)
	}
	resp, err := svc.LogInclusionProof(bg, req)
	r.Saw("log-inclusion")
	if err != nil {
		r.Failf("%s: inclusion proof for %d in %d (byHash=%v) of %d: %v", what, i, n, byHash, m.Len(), err)
		return false
	}
	want := m.Tree.Inclusion(i, sz)
	if resp.LeafIndex != int64(i) || resp.TreeSize != int64(sz) || !samePath(resp.AuditPath, want) {
		r.Failf("%s: inclusion proof for %d in %d (byHash=%v) of %d is index %d size %d path %s, not path %s", what, i, n, byHash, m.Len(), resp.LeafIndex, resp.TreeSize, showPath(resp.AuditPath), showPath(want))
		return false
	}
	return true
}

func ckConsistency(r *R, what string, svc Svc, ref *pb.LogRef, m *LogModel, a, b int) bool {
	resp, err := svc.LogConsistencyProof(bg, &pb.LogConsistencyProofRequest{Log: ref, FromSize: int64(a), TreeSize: int64(b)})
	r.Saw("log-consistency")
	if err != nil {
		r.Failf("%s: consistency proof %d to %d of %d: %v", what, a, b, m.Len(), err)
		return false
	}
	sz := b
	if b == 0 {
		sz = m.Len()
	}
	want := m.Tree.Consistency(a, sz)
	if resp.FromSize != int64(a) || resp.TreeSize != int64(sz) || !samePath(resp.AuditPath, want) {
		r.Failf("%s: consistency proof %d to %d of %d is %d to %d path %s, not path %s", what, a, b, m.Len(), resp.FromSize, resp.TreeSize, showPath(resp.AuditPath), showPath(want))
		return false
	}
	return true
}

// ckLog checks a log thoroughly if it is small, else on samples around the interesting sizes.
func ckLog(r *R, what string, svc Svc, ref *pb.LogRef, m *LogModel, rng *rand.Rand) bool {
	n := m.Len()
	if !ckHead(r, what, svc, ref, m, 0) {
		return false
	}
	if n == 0 {
		return true
	}
	if !ckRange(r, what, svc, ref, m, 0, 0) {
		return false
	}
	sizes := pickSizes(n, rng, 12)
	for _, s := range sizes {
		if !ckHead(r, what, svc, ref, m, s) {
			return false
		}
	}
	for _, s := range sizes {
		for _, i := range pickSizes(s, rng, 3) {
			if !ckInclusion(r, what, svc, ref, m, i-1, s, rng.Intn(2) == 0) {
				return false
			}
			if i < s && !ckConsistency(r, what, svc, ref, m, i, s) {
				return false
			}
		}
	}
	a := rng.Intn(n)
	return ckRange(r, what, svc, ref, m, a, a+1+rng.Intn(n-a))
}

// pickSizes picks numbers in 1..n: all of them if there are few, else those by powers of two and random ones.
func pickSizes(n int, rng *rand.Rand, extra int) []int {
	set := map[int]bool{}
	if n <= extra+4 {
		for i := 1; i <= n; i++ {
			set[i] = true
		}
	} else {
		for _, x := range []int{1, 2, n, n - 1, int(spec.SplitPoint(int64(n))), int(spec.SplitPoint(int64(n))) + 1} {
			set[x] = true
		}
		for i := 0; i < extra; i++ {
			set[1+rng.Intn(n)] = true
		}
	}
	var rv []int
	for x := range set {
		if x >= 1 && x <= n {
			rv = append(rv, x)
		}
	}
	sort.Ints(rv)
	return rv
}

// ---- maps

// MapWorld is a map's model together with those of its two logs.
type MapWorld struct {
	spec.MapModel
	Acked [][]byte // leaf hashes acknowledged, by mutation
	Mut   LogModel // filled by ckMapLogs
	Heads LogModel

	eds  map[string]map[string]bool // by leaf input: the extra data and formats submitted with it
	edsN int
}

func edKey(ed []byte, format int32) string { return fmt.Sprintf("%d/%s", format, ed) }

// submittedWith says whether a value was submitted with this extra data and format.
func (w *MapWorld) submittedWith(v *pb.LeafData) bool {
	if w.eds == nil {
		w.eds = map[string]map[string]bool{}
	}
	for ; w.edsN < len(w.Muts); w.edsN++ {
		mu := w.Muts[w.edsN]
		if w.eds[string(mu.LI)] == nil {
			w.eds[string(mu.LI)] = map[string]bool{}
		}
		w.eds[string(mu.LI)][edKey(mu.ED, mu.Format)] = true
	}
	return w.eds[string(v.LeafInput)][edKey(v.ExtraData, int32(v.Format))]
}

func mutProto(mu spec.Mut) *pb.MapMutation {
	rv := &pb.MapMutation{Action: mu.Action, Key: mu.Key, PreviousLeafHash: mu.Prev}
	if !mu.NoVal {
		rv.Value = &pb.LeafData{LeafInput: mu.LI, ExtraData: mu.ED, Format: pb.DataFormat(mu.Format)}
	}
	return rv
}

// mutate sends a mutation, and adds it to the model if it is acknowledged.
// clientTime is a time stamp that clients send with some mutations: it is the server's that counts.
const clientTime = "2001-01-01T00:00:00Z"

func (w *MapWorld) mutate(svc Svc, ref *pb.MapRef, mu spec.Mut) error {
	m := mutProto(mu)
	if len(w.Muts)%3 == 1 {
		m.Timestamp = clientTime
	}
	resp, err := svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: ref, Mutation: m})
	if err != nil {
		return err
	}
	w.Apply(mu)
	w.Acked = append(w.Acked, resp.LeafHash)
	return nil
}

func ckMapHead(r *R, what string, svc Svc, ref *pb.MapRef, w *MapWorld, n int) bool {
	resp, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: ref, TreeSize: int64(n)})
	r.Saw("map-head")
	if err != nil {
		r.Failf("%s: map head for size %d of %d: %v", what, n, w.Size(), err)
		return false
	}
	sz := n
	if n == 0 {
		sz = w.Size()
	}
	if resp.MutationLog == nil || resp.MutationLog.TreeSize != int64(sz) {
		r.Failf("%s: map head for size %d of %d has mutation log head %v", what, n, w.Size(), resp.MutationLog)
		return false
	}
	if !bytes.Equal(resp.RootHash, w.Root(sz)) {
		r.Failf("%s: map root for size %d of %d is %x, the mutations make it %x", what, n, w.Size(), resp.RootHash, w.Root(sz))
		return false
	}
	return true
}

func ckMapGet(r *R, what string, svc Svc, ref *pb.MapRef, w *MapWorld, key []byte, n int) bool {
	resp, err := svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: ref, TreeSize: int64(n), Key: key})
	r.Saw("map-get")
	if err != nil {
		r.Failf("%s: value of %x at size %d of %d: %v", what, key, n, w.Size(), err)
		return false
	}
	sz := n
	if n == 0 {
		sz = w.Size()
	}
	want := w.Value(key, sz)
	if resp.TreeSize != int64(sz) {
		r.Failf("%s: value of %x at size %d of %d is for size %d", what, key, n, w.Size(), resp.TreeSize)
		return false
	}
	if !bytes.Equal(resp.Value.GetLeafInput(), want) {
		r.Failf("%s: value of %x at size %d of %d is %x, not %x", what, key, n, w.Size(), resp.Value.GetLeafInput(), want)
		return false
	}
	if len(want) > 0 && !w.submittedWith(resp.Value) || len(want) == 0 && (len(resp.Value.GetExtraData()) > 0 || resp.Value.GetFormat() != 0) {
		r.Failf("%s: value of %x at size %d of %d comes with extra data %q format %v, which was never submitted with it", what, key, n, w.Size(), resp.Value.GetExtraData(), resp.Value.GetFormat())
		return false
	}
	if len(resp.AuditPath) > 256 || !spec.VerifyMap(key, want, resp.AuditPath, w.Root(sz)) {
		r.Failf("%s: proof (%d hashes) for value of %x at size %d of %d does not lead to the root", what, len(resp.AuditPath), key, n, w.Size())
		return false
	}
	return true
}

// ckMap checks heads and values of a map.
func ckMap(r *R, what string, svc Svc, ref *pb.MapRef, w *MapWorld, rng *rand.Rand, extra int) bool {
	if !ckMapHead(r, what, svc, ref, w, 0) {
		return false
	}
	keys := w.Keys()
	keys = append(keys, "never set")
	for _, n := range append(pickSizes(w.Size(), rng, extra), 0) {
		if !ckMapHead(r, what, svc, ref, w, n) {
			return false
		}
		for _, k := range keys {
			if !ckMapGet(r, what, svc, ref, w, []byte(k), n) {
				return false
			}
		}
	}
	return true
}

type jsonLD struct {
	LeafInput []byte `json:"leaf_input"`
	ExtraData []byte `json:"extra_data"`
	Format    int32  `json:"format"`
}

type jsonMut struct {
	Timestamp string  `json:"timestamp"`
	Action    string  `json:"action"`
	Key       []byte  `json:"key"`
	Value     *jsonLD `json:"value"`
	Prev      []byte  `json:"previous_leaf_hash"`
}

type jsonHead struct {
	RootHash    []byte `json:"root_hash"`
	MutationLog struct {
		TreeSize int64  `json:"tree_size"`
		RootHash []byte `json:"root_hash"`
	} `json:"mutation_log"`
}

// ckMapLogs checks that mutation log and tree head log record the map's history, and leaves models of them in w.
func ckMapLogs(r *R, what string, svc Svc, ref *pb.MapRef, w *MapWorld) bool {
	n := w.Size()
	mlog := &pb.LogRef{Account: ref.Account, Name: ref.Name, LogType: tMut}
	hlog := &pb.LogRef{Account: ref.Account, Name: ref.Name, LogType: tHead}
	for _, l := range []*pb.LogRef{mlog, hlog} {
		h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: l})
		if err != nil || h.TreeSize != int64(n) {
			r.Failf("%s: %v head is %v, %v, after %d mutations", what, l.LogType, h, err, n)
			return false
		}
	}
	if n == 0 {
		return true
	}
	get := func(l *pb.LogRef) []*pb.LeafData {
		e, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: l})
		r.Saw("map-log-fetch")
		if err != nil || len(e.Values) != n {
			r.Failf("%s: fetching %v after %d mutations: %d entries, %v", what, l.LogType, n, len(e.GetValues()), err)
			return nil
		}
		return e.Values
	}
	muts := get(mlog)
	if muts == nil {
		return false
	}
	heads := get(hlog)
	if heads == nil {
		return false
	}
	for i := 0; i < n; i++ {
		if i < w.Mut.Len() { // seen before: must not have changed
			if !sameLD(muts[i], w.Mut.Entries[i]) || !sameLD(heads[i], w.Heads.Entries[i]) {
				r.Failf("%s: recorded entry %d changed: mutation %s was %s, tree head %s was %s", what, i, showLD(muts[i]), showLD(w.Mut.Entries[i]), showLD(heads[i]), showLD(w.Heads.Entries[i]))
				return false
			}
			continue
		}
		e, mu := muts[i], w.Muts[i]
		r.Saw("mutation-entry")
		var jm jsonMut
		if err := json.Unmarshal(e.ExtraData, &jm); err != nil {
			r.Failf("%s: mutation log entry %d is not JSON: %v", what, i, err)
			return false
		}
		v := jm.Value
		hasVal := v != nil
		if v == nil {
			v = &jsonLD{}
		}
		if jm.Action != mu.Action || !bytes.Equal(jm.Key, mu.Key) || !bytes.Equal(jm.Prev, mu.Prev) || hasVal == mu.NoVal ||
			!bytes.Equal(v.LeafInput, mu.LI) || !bytes.Equal(v.ExtraData, mu.ED) || v.Format != mu.Format {
			r.Failf("%s: mutation log entry %d is %s, not %+v", what, i, e.ExtraData, mu)
			return false
		}
		if _, err := time.Parse(time.RFC3339Nano, jm.Timestamp); err != nil {
			r.Failf("%s: mutation log entry %d has no timestamp: %s", what, i, e.ExtraData)
			return false
		}
		if jm.Timestamp == clientTime {
			r.Failf("%s: mutation log entry %d has the client's timestamp: %s", what, i, e.ExtraData)
			return false
		}
		if e.Format != pb.DataFormat_JSON || heads[i].Format != pb.DataFormat_JSON {
			r.Failf("%s: entry %d of mutation log and tree head log have formats %v and %v, not JSON", what, i, e.Format, heads[i].Format)
			return false
		}
		var o map[string]interface{}
		json.Unmarshal(e.ExtraData, &o)
		if vo, ok := o["value"].(map[string]interface{}); ok {
			delete(vo, "extra_data")
			delete(vo, "format")
		}
		oh, err := objecthash.ObjectHashWithStdRedaction(o)
		if err != nil || !bytes.Equal(oh, e.LeafInput) {
			r.Failf("%s: leaf input of mutation log entry %d is %x, not the object hash of %s", what, i, e.LeafInput, e.ExtraData)
			return false
		}
		if i < len(w.Acked) && w.Acked[i] != nil && !bytes.Equal(spec.LeafHash(e.LeafInput), w.Acked[i]) {
			r.Failf("%s: mutation %d was acknowledged with leaf hash %x but recorded with %x", what, i, w.Acked[i], spec.LeafHash(e.LeafInput))
			return false
		}
		if _, nw := w.Mut.Add(e); !nw {
			r.Failf("%s: mutation log entry %d is recorded twice", what, i)
			return false
		}
		// tree head entry
		var jh jsonHead
		he := heads[i]
		if err := json.Unmarshal(he.ExtraData, &jh); err != nil {
			r.Failf("%s: tree head log entry %d is not JSON: %v", what, i, err)
			return false
		}
		if !bytes.Equal(jh.RootHash, w.Root(i+1)) || jh.MutationLog.TreeSize != int64(i+1) || !bytes.Equal(jh.MutationLog.RootHash, w.Mut.Tree.Root(i+1)) {
			r.Failf("%s: tree head log entry %d is %s, not map root %x and mutation log root %x for size %d", what, i, he.ExtraData, w.Root(i+1), w.Mut.Tree.Root(i+1), i+1)
			return false
		}
		var ho interface{}
		json.Unmarshal(he.ExtraData, &ho)
		oh, err = objecthash.ObjectHashWithStdRedaction(ho)
		if err != nil || !bytes.Equal(oh, he.LeafInput) {
			r.Failf("%s: leaf input of tree head log entry %d is not its object hash", what, i)
			return false
		}
		if _, nw := w.Heads.Add(he); !nw {
			r.Failf("%s: tree head log entry %d is recorded twice", what, i)
			return false
		}
	}
	return true
}

// ckMapAll checks everything about a map.
func ckMapAll(r *R, what string, svc Svc, ref *pb.MapRef, w *MapWorld, rng *rand.Rand, extra int) bool {
	if !ckMap(r, what, svc, ref, w, rng, extra) || !ckMapLogs(r, what, svc, ref, w) {
		return false
	}
	for _, t := range []struct {
		t pb.LogType
		m *LogModel
	}{{tMut, &w.Mut}, {tHead, &w.Heads}} {
		if !ckLog(r, what+" "+t.t.String(), svc, &pb.LogRef{Account: ref.Account, Name: ref.Name, LogType: t.t}, t.m, rng) {
			return false
		}
	}
	if w.Size() > 0 {
		h, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: ref})
		if err != nil || !bytes.Equal(h.MutationLog.RootHash, w.Mut.Tree.Root(w.Size())) {
			r.Failf("%s: the map head's mutation log head is %v %v", what, h, err)
			return false
		}
	}
	return true
}

// ---- generators

// collidingKeys finds keys whose paths share at least the given numbers of leading bits with that of a base key.
var collMu sync.Mutex
var collMemo = map[string][]byte{}

func collide(base []byte, bits int, salt int) []byte {
	collMu.Lock()
	defer collMu.Unlock()
	id := fmt.Sprintf("%x/%d/%d", base, bits, salt)
	if v, ok := collMemo[id]; ok {
		return v
	}
	bp := spec.PathOf(base)
	for i := 0; ; i++ {
		k := []byte(fmt.Sprintf("c%d-%d-%d", salt, bits, i))
		p := spec.PathOf(k)
		same := 0
		for same < 256 && p.Bit(same) == bp.Bit(same) {
			same++
		}
		if same == bits {
			collMemo[id] = k
			return k
		}
	}
}

// deepPairs are keys whose paths share just so many leading bits (found by search, see deepCheck).
var deepPairs = []struct {
	bits int
	a, b string
}{{21, "c28229798", "c27665839"}, {22, "c19812699", "c56891044"}, {23, "c11371238", "c45514572"}, {24, "c16629451", "c13149572"}, {25, "c13149572", "c47217341"}, {26, "c44736124", "c33700085"}, {27, "c30469651", "c2553518"}, {28, "c18692724", "c16629451"}, {29, "c12560331", "c41945045"}, {30, "c25692491", "c25222915"}, {31, "c13383608", "c44687788"}, {32, "c20465907", "c10576079"}, {33, "c39923482", "c346176"}, {34, "c33606310", "c59045352"}, {35, "c38226447", "c58167382"}, {36, "c19910120", "c34760123"}, {37, "c22528210", "c27520084"}, {38, "c42161998", "c58460387"}, {39, "c15465854", "c59343672"}, {40, "c1662183", "c14269368"}, {41, "c13575356", "c28570046"}, {42, "c12961239", "c28497525"}, {43, "c35174239", "c49005766"}, {44, "c17546695", "c27726662"}, {45, "c15074373", "c12903535"}, {46, "c11103481", "c41858543"}, {47, "c18676479", "c9709165"}, {48, "c50145295", "c33210643"}, {49, "c37591116", "c30575813"}, {51, "c13763830", "c50049631"}, {55, "c17755158", "c29869828"}}

// deepCluster are keys whose paths share 20 bits and more with one another, up to 28.
var deepCluster = []string{"c56882676", "c18692724", "c16629451", "c13149572", "c47217341", "c19812699", "c56891044", "c11371238", "c45514572", "c28229798", "c27665839", "c7344743", "c7170649", "c43360344", "c23321175", "c56218658"}

func init() { // deepCheck
	same := func(a, b string) int {
		x, y := spec.PathOf([]byte(a)), spec.PathOf([]byte(b))
		n := 0
		for n < 256 && x.Bit(n) == y.Bit(n) {
			n++
		}
		return n
	}
	for _, d := range deepPairs {
		if same(d.a, d.b) != d.bits {
			panic("deepPairs")
		}
	}
	for _, k := range deepCluster {
		if same(k, deepCluster[0]) < 20 {
			panic("deepCluster")
		}
	}
}

// deepKeys are some keys deep down in the tree together.
func deepKeys(rng *rand.Rand) [][]byte {
	if rng.Intn(3) == 0 {
		var ks [][]byte
		for i := 2 + rng.Intn(4); i > 0; i-- {
			ks = append(ks, []byte(deepCluster[rng.Intn(len(deepCluster))]))
		}
		return ks
	}
	d := deepPairs[rng.Intn(len(deepPairs))]
	return [][]byte{[]byte(d.a), []byte(d.b)}
}

func randBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// mapGen makes map histories: few keys, some with long common path prefixes.
type mapGen struct {
	rng  *rand.Rand
	keys [][]byte
	vals [][]byte
	n    int
	Web  bool // only what REST can express
}

func newWebMapGen(rng *rand.Rand, nKeys int) *mapGen {
	g := newMapGen(rng, nKeys)
	g.Web = true
	for i, k := range g.keys {
		if len(k) == 0 {
			g.keys[i] = []byte("nonempty")
		}
	}
	return g
}

func newMapGen(rng *rand.Rand, nKeys int) *mapGen {
	g := &mapGen{rng: rng}
	base := []byte(fmt.Sprintf("base%d", rng.Intn(4)))
	for len(g.keys) < nKeys {
		switch rng.Intn(3) {
		case 0:
			g.keys = append(g.keys, []byte(fmt.Sprintf("key%d", rng.Intn(200))))
		default:
			g.keys = append(g.keys, collide(base, rng.Intn(15), rng.Intn(2)))
		}
	}
	if rng.Intn(3) == 0 {
		g.keys[0] = []byte{}
	}
	if rng.Intn(2) == 0 {
		g.keys = append(g.keys, deepKeys(rng)...)
	}
	for i := 0; i < 4; i++ {
		g.vals = append(g.vals, []byte(fmt.Sprintf("val%d", i)))
	}
	g.keys = append(g.keys, base)
	return g
}

// next makes a mutation, knowing the state so far.
func (g *mapGen) next(m *spec.MapModel) spec.Mut {
	g.n++
	rng := g.rng
	key := g.keys[rng.Intn(len(g.keys))]
	val := func() []byte {
		switch x := rng.Intn(20); {
		case x < 8:
			return g.vals[rng.Intn(len(g.vals))]
		case x < 9:
			return []byte{}
		case x < 10:
			return randBytes(rng, 1+rng.Intn(300))
		default:
			return []byte(fmt.Sprintf("v%d", g.n))
		}
	}
	switch x := rng.Intn(100); {
	case x < 50:
		mu := spec.Mut{Action: "set", Key: key, LI: val()}
		if rng.Intn(4) == 0 {
			mu.ED, mu.Format = []byte(fmt.Sprintf(`{"n":%d}`, g.n)), int32(rng.Intn(2))
		}
		return mu
	case x < 72:
		return spec.Mut{Action: "delete", Key: key, NoVal: true}
	default:
		cur := m.Value(key, m.Size())
		prev := spec.LeafHash(cur)
		switch y := rng.Intn(10); {
		case y < 6:
		case y < 7:
			prev = spec.LeafHash(nil)
		case y < 8:
			prev = spec.LeafHash(g.vals[rng.Intn(len(g.vals))])
		case y < 9:
			prev = nil
		default:
			prev = append([]byte(nil), prev...)
			prev[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
		}
		v := val()
		if rng.Intn(12) == 0 && !g.Web {
			return spec.Mut{Action: "update", Key: key, Prev: prev, NoVal: true}
		}
		return spec.Mut{Action: "update", Key: key, LI: v, Prev: prev}
	}
}
