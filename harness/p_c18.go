package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"github.com/dgraph-io/badger"
	"go.etcd.io/bbolt"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C18"] = &property{level: "exploration", run: c18,
		rule:        "Random transactions (sets, overwrites, deletions, reads of own writes, failures) over namespaces and keys that are prefixes, hex forms and truncations of one another, on memory, Bolt and Badger storage, against a model; closing and reopening; concurrent counters, multi-key invariants and first openings. A case is a (storage, transaction).",
		assumptions: []string{"keys and namespaces are not empty, namespaces at most 100 bytes"}}
}

func c18(r *R) {
	n := r.N(120, 1200)
	r.Par(n, func(i int) { c18model(r, i, []string{"memory", "bolt", "memory", "bolt", "spec", "badger"}[i%6]) })
	r.Par(r.N(60, 500), func(i int) { c18concurrent(r, i, []string{"memory", "bolt", "badger"}[i%3]) })
	r.Par(r.N(60, 500), func(i int) { c18open(r, i, []string{"memory", "bolt", "badger"}[i%3]) })
}

type c18store struct {
	verifiable.StorageWriter
	kind, dir string
	close     func()
	pg        *pgStore
}

func c18new(r *R, kind string) *c18store {
	s := &c18store{kind: kind, close: func() {}}
	if strings.HasPrefix(kind, "postgres") {
		s.pg = newPGStore(map[bool]int{true: 1, false: 2}[kind == "postgres"], 4)
		s.StorageWriter = s.pg
		s.close = func() {
			s.pg.judge(r, kind)
			s.pg.closeStores()
		}
		s.dir = "the database"
	} else if kind == "bolt" || kind == "badger" {
		s.dir = r.Dir()
		s.StorageWriter, s.close = openStore(kind, s.dir)
	} else {
		s.StorageWriter, _ = newStore(r, kind)
	}
	return s
}

func (s *c18store) done() {
	s.close()
	if s.pg != nil {
		s.pg.db.Close()
	} else if s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

func (s *c18store) reopen() bool {
	if s.dir == "" {
		return false
	}
	s.close()
	if s.pg != nil {
		s.pg.open(map[bool]int{true: 1, false: 2}[s.kind == "postgres"], 3)
		return true
	}
	s.StorageWriter, s.close = openStore(s.kind, s.dir)
	return true
}

// c18names makes byte strings that are easily confused.
func c18names(rng *rand.Rand, n, max int) [][]byte {
	var rv [][]byte
	have := map[string]bool{}
	add := func(b []byte) {
		if len(b) > 0 && len(b) <= max && !have[string(b)] {
			have[string(b)] = true
			rv = append(rv, append([]byte(nil), b...))
		}
	}
	for len(rv) < n {
		b := randBytes(rng, 1+rng.Intn(6))
		switch rng.Intn(8) {
		case 0:
			b = []byte("root")
		case 1:
			b = []byte("map_node/")
		case 2:
			b = randBytes(rng, max)
		case 3:
			b = []byte{0}
		}
		add(b)
		switch rng.Intn(8) {
		case 0:
			add([]byte(fmt.Sprintf("%x", b))) // hex form
		case 1:
			add(append(append([]byte{}, b...), 0))
		case 2:
			add(b[:len(b)-1])
		case 3:
			add(append([]byte{0}, b...))
		case 4:
			add(bytes.ToUpper(b))
		case 5:
			add(append(append([]byte{}, b...), 0xff))
		case 6:
			add(append(append([]byte{}, b...), b...))
		}
	}
	return rv[:n]
}

// a message with content that depends on nothing else
func c18msg(rng *rand.Rand) proto.Message {
	switch rng.Intn(8) {
	case 0:
		return &pb.LeafData{} // encodes as nothing
	case 1:
		return &pb.ObjectSize{Size: rng.Int63()}
	case 2:
		return &pb.LeafNode{Mth: randBytes(rng, 32)}
	case 3:
		return &pb.LeafData{LeafInput: randBytes(rng, 1000+rng.Intn(40000))}
	case 4:
		return &pb.MapNode{LeftNumber: rng.Int63(), Path: randBytes(rng, 33)}
	default:
		return &pb.LeafData{LeafInput: randBytes(rng, rng.Intn(20)), ExtraData: randBytes(rng, rng.Intn(20)), Format: pb.DataFormat(rng.Intn(2))}
	}
}

type c18contents map[string]proto.Message

func (c c18contents) clone() c18contents {
	n := c18contents{}
	for k, v := range c {
		n[k] = v
	}
	return n
}

// c18get compares a read with what is expected.
func c18get(r *R, what string, kr verifiable.KeyReader, key []byte, want proto.Message, rng *rand.Rand) bool {
	r.Saw("get")
	var into proto.Message = &pb.LeafData{}
	if want != nil {
		into = want.ProtoReflect().New().Interface()
	}
	if rng.Intn(2) == 0 { // what's in the target before doesn't matter
		switch x := into.(type) {
		case *pb.LeafData:
			x.ExtraData = []byte("left over")
		case *pb.MapNode:
			x.RightNumber = 77
		}
	}
	k := append([]byte(nil), key...)
	err := kr.Get(bg, k, into)
	if !bytes.Equal(k, key) {
		r.Failf("%s: get modified the key", what)
		return false
	}
	if want == nil {
		if err != verifiable.ErrNoSuchKey {
			r.Failf("%s: get of missing key %x gives %v, %v", what, key, into, err)
			return false
		}
		return true
	}
	if err != nil || !proto.Equal(into, want) {
		r.Failf("%s: get of key %x gives %v, %v instead of %v", what, key, trunc(fmt.Sprint(into), 200), err, trunc(fmt.Sprint(want), 200))
		return false
	}
	return true
}

var errC18 = errors.New("the callback's own error")

// what transactions fail with, which must be returned as it is and have no other effect than any error
var errsC18 = []error{errC18, errC18, verifiable.ErrNoSuchKey, verifiable.ErrNotFound, verifiable.ErrInvalidRequest, context.Canceled, context.DeadlineExceeded, io.EOF, os.ErrNotExist,
	bbolt.ErrTxClosed, bbolt.ErrDatabaseNotOpen, badger.ErrKeyNotFound, badger.ErrRetry, badger.ErrEmptyKey, status.Error(codes.NotFound, "not found")}

func c18model(r *R, round int, kind string) {
	rng := r.Rand(fmt.Sprint("m", round))
	st := c18new(r, kind)
	defer st.done()
	nss := c18names(rng, 5, 100)
	if kind == "badger" {
		nss = nss[:2]
	}
	keys := c18names(rng, 12, 400)
	model := map[string]c18contents{}
	for _, ns := range nss {
		model[string(ns)] = c18contents{}
	}
	check := func(what string, ns []byte, c c18contents) bool {
		ok := true
		err := st.ExecuteReadOnly(bg, append([]byte(nil), ns...), func(ctx context.Context, kr verifiable.KeyReader) error {
			for _, k := range keys {
				if ok = c18get(r, what, kr, k, c[string(k)], rng); !ok {
					return nil
				}
			}
			return nil
		})
		if err != nil {
			r.Failf("%s: read-only transaction: %v", what, err)
			return false
		}
		return ok
	}
	for _, ns := range nss {
		if !check(fmt.Sprintf("%s: unused namespace", kind), ns, nil) {
			return
		}
	}
	steps := 120
	if kind == "badger" {
		steps = 50
	}
	for s := 0; s < steps; s++ {
		ns := nss[rng.Intn(len(nss))]
		cur := model[string(ns)].clone()
		fail := rng.Intn(4) == 0
		failWith := errsC18[rng.Intn(len(errsC18))]
		desc := ""
		good := true
		n := rng.Intn(12)
		what := func() string {
			return fmt.Sprintf("%s, round %d, transaction %d in namespace %x: %s", kind, round, s, ns, desc)
		}
		nsArg := append([]byte(nil), ns...)
		err := st.ExecuteUpdate(bg, nsArg, func(ctx context.Context, kw verifiable.KeyWriter) error {
			for i := 0; i < n; i++ {
				k := keys[rng.Intn(len(keys))]
				if rng.Intn(25) == 0 {
					desc += fmt.Sprintf("set what can't be encoded %s; ", trunc(fmt.Sprintf("%x", k), 12))
					r.Saw("not-encodable")
					if err := kw.Set(ctx, k, &pb.MapMutation{Action: "\xff\xfe"}); err == nil {
						r.Failf("%s: it is accepted", what())
						good = false
						return nil
					}
				}
				switch rng.Intn(5) {
				case 0, 1:
					m := c18msg(rng)
					cp := proto.Clone(m)
					desc += fmt.Sprintf("set %s; ", trunc(fmt.Sprintf("%x", k), 12))
					if err := kw.Set(ctx, k, m); err != nil {
						r.Failf("%s: set: %v", what(), err)
						good = false
						return err
					}
					if !proto.Equal(m, cp) {
						r.Failf("%s: set modified the value", what())
						good = false
						return nil
					}
					// the storage has its own copy
					if ld, ok := m.(*pb.LeafData); ok {
						for j := range ld.LeafInput {
							ld.LeafInput[j] ^= 0x55
						}
						ld.ExtraData = []byte("changed")
					}
					cur[string(k)] = cp
				case 2:
					desc += fmt.Sprintf("delete %s; ", trunc(fmt.Sprintf("%x", k), 12))
					if err := kw.Set(ctx, k, nil); err != nil {
						r.Failf("%s: delete: %v", what(), err)
						good = false
						return err
					}
					delete(cur, string(k))
				default:
					desc += fmt.Sprintf("get %s; ", trunc(fmt.Sprintf("%x", k), 12))
					if good = c18get(r, what(), kw, k, cur[string(k)], rng); !good {
						return nil
					}
				}
			}
			if fail {
				desc += fmt.Sprintf("fail with %q", failWith)
				return failWith
			}
			return nil
		})
		r.Case("transaction", "%s %d/%d %x %s", kind, round, s, ns, desc)
		if !good {
			return
		}
		if fail && err != failWith || !fail && err != nil {
			r.Failf("%s: the transaction gives %v", what(), err)
			return
		}
		if !bytes.Equal(nsArg, ns) {
			r.Failf("%s: modified the namespace", what())
			return
		}
		if !fail || kind == "memory" { // the memory storage is documented to keep what failed updates did
			old := model[string(ns)]
			model[string(ns)] = cur
			if fail {
				c18learn(st, ns, keys, old, cur)
			}
		}
		if rng.Intn(15) == 0 && st.reopen() {
			r.Saw("reopen")
			desc += " (reopened)"
		}
		if rng.Intn(6) == 0 {
			for _, ns := range nss {
				if !check(what()+", then namespace "+fmt.Sprintf("%x", ns), ns, model[string(ns)]) {
					return
				}
			}
		} else if !check(what()+" then", ns, model[string(ns)]) {
			return
		}
		if err := st.ExecuteReadOnly(bg, ns, func(ctx context.Context, kr verifiable.KeyReader) error { return failWith }); err != failWith {
			r.Failf("%s: a failing read gives %v", what(), err)
			return
		}
	}
	if st.reopen() {
		for _, ns := range nss {
			if !check(fmt.Sprintf("%s, round %d, reopened at the end, namespace %x", kind, round, ns), ns, model[string(ns)]) {
				return
			}
		}
	}
}

// c18learn finds out which effects a failed update has left in a storage that doesn't roll back; each key has either its old or its new value.
func c18learn(st *c18store, ns []byte, keys [][]byte, old, cur c18contents) {
	st.ExecuteReadOnly(bg, ns, func(ctx context.Context, kr verifiable.KeyReader) error {
		for _, k := range keys {
			o := old[string(k)]
			var err error = verifiable.ErrNoSuchKey
			var got proto.Message
			if o != nil {
				got = o.ProtoReflect().New().Interface()
				err = kr.Get(bg, k, got)
			} else {
				err = kr.Get(bg, k, &pb.LeafData{})
			}
			if o == nil && err == verifiable.ErrNoSuchKey {
				delete(cur, string(k))
			}
			if o != nil && err == nil && proto.Equal(o, got) {
				cur[string(k)] = o
			}
		}
		return nil
	})
}

// c18concurrent: counters and invariants over several keys.
func c18concurrent(r *R, round int, kind string) {
	st := c18new(r, kind)
	defer st.done()
	nss := [][]byte{{1}, {1, 0}}
	keys := c18names(r.Rand(fmt.Sprint("ck", round)), 5, 40)
	const workers = 6
	each := 40
	if kind == "badger" {
		each = 25
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	succeeded := map[string]int64{}
	failed := 0
	what := fmt.Sprintf("%s, concurrent round %d", kind, round)
	inside := map[string]int{}
	for w := 0; w < workers; w++ {
		rng := r.Rand(fmt.Sprint("c", round, w))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < each && !r.Failed(); i++ {
				ns := nss[rng.Intn(2)]
				order := rng.Perm(len(keys))
				pause := func() {
					switch rng.Intn(4) {
					case 0:
						runtime.Gosched()
					case 1:
						time.Sleep(time.Duration(rng.Intn(100)) * time.Microsecond)
					}
				}
				readAll := func(ctx context.Context, kr verifiable.KeyReader) (int64, bool) {
					vals := []int64{}
					for _, x := range order {
						var v pb.ObjectSize
						err := kr.Get(ctx, keys[x], &v)
						if err == verifiable.ErrNoSuchKey {
							v.Size = 0
						} else if err != nil {
							r.Failf("%s: get: %v", what, err)
							return 0, false
						}
						vals = append(vals, v.Size)
						pause()
					}
					sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
					if vals[0] != vals[len(vals)-1] {
						r.Failf("%s: keys always written together have values %v", what, vals)
						return 0, false
					}
					r.Saw("concurrent-read")
					return vals[0], true
				}
				switch rng.Intn(4) {
				case 0: // read
					mu.Lock()
					atLeast := succeeded[string(ns)]
					mu.Unlock()
					var v int64
					err := st.ExecuteReadOnly(bg, ns, func(ctx context.Context, kr verifiable.KeyReader) error {
						v, _ = readAll(ctx, kr)
						return nil
					})
					if err != nil {
						r.Failf("%s: read: %v", what, err)
					}
					if v < atLeast && !r.Failed() {
						r.Failf("%s: counter is %d after %d increments", what, v, atLeast)
					}
				case 1: // an update that fails
					if kind == "memory" {
						continue
					}
					err := st.ExecuteUpdate(bg, ns, func(ctx context.Context, kw verifiable.KeyWriter) error {
						for _, x := range order[:3] {
							kw.Set(ctx, keys[x], &pb.ObjectSize{Size: -1})
							pause()
						}
						return errC18
					})
					if err != errC18 {
						r.Failf("%s: failing update gives %v", what, err)
					}
				default:
					overlap := false
					err := st.ExecuteUpdate(bg, ns, func(ctx context.Context, kw verifiable.KeyWriter) error {
						if kind != "badger" { // optimistic
							mu.Lock()
							inside[string(ns)]++
							overlap = inside[string(ns)] > 1
							mu.Unlock()
							defer func() {
								mu.Lock()
								inside[string(ns)]--
								mu.Unlock()
							}()
						}
						v, ok := readAll(ctx, kw)
						if !ok {
							return errC18
						}
						for _, x := range rng.Perm(len(keys)) {
							if err := kw.Set(ctx, keys[x], &pb.ObjectSize{Size: v + 1}); err != nil {
								return err
							}
							pause()
						}
						return nil
					})
					r.Saw("concurrent-update")
					if overlap {
						r.Saw("overlapping-update")
					}
					mu.Lock()
					if err == nil {
						succeeded[string(ns)]++
					} else {
						failed++
					}
					mu.Unlock()
					if err != nil && kind != "badger" && !r.Failed() {
						r.Failf("%s: update: %v", what, err)
					}
				}
			}
		}(w)
	}
	wg.Wait()
	if r.Failed() {
		return
	}
	r.SawN("refused-concurrent-update", int64(failed))
	r.Case("concurrent", "%s", what)
	for pass := 0; pass < 2; pass++ {
		for _, ns := range nss {
			st.ExecuteReadOnly(bg, ns, func(ctx context.Context, kr verifiable.KeyReader) error {
				for _, k := range keys {
					var v pb.ObjectSize
					err := kr.Get(ctx, k, &v)
					if err != nil && err != verifiable.ErrNoSuchKey || v.Size != succeeded[string(ns)] {
						r.Failf("%s: after %d successful increments a counter is %d, %v (reopened: %v)", what, succeeded[string(ns)], v.Size, err, pass > 0)
						return nil
					}
				}
				return nil
			})
		}
		if !st.reopen() {
			break
		}
	}
}

// c18open: many goroutines use the same namespaces for the first time at once.
func c18open(r *R, round int, kind string) {
	st := c18new(r, kind)
	defer st.done()
	nNS := 4
	if kind == "badger" {
		nNS = 2
	}
	for gen := 0; gen < 3; gen++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		what := fmt.Sprintf("%s, first use round %d/%d", kind, round, gen)
		for w := 0; w < 12; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				ns := []byte{byte(w % nNS), byte(gen)}
				key := []byte{byte(w)}
				var err error
				for try := 0; try < 50; try++ {
					err = st.ExecuteUpdate(bg, ns, func(ctx context.Context, kw verifiable.KeyWriter) error {
						return kw.Set(ctx, key, &pb.ObjectSize{Size: int64(w)})
					})
					if err == nil || kind != "badger" {
						break
					}
				}
				if err != nil {
					r.Failf("%s: update: %v", what, err)
					return
				}
				var v pb.ObjectSize
				err = st.ExecuteReadOnly(bg, ns, func(ctx context.Context, kr verifiable.KeyReader) error { return kr.Get(ctx, key, &v) })
				if err != nil || v.Size != int64(w) {
					r.Failf("%s: read of own write gives %d, %v", what, v.Size, err)
				}
				r.Saw("first-use")
			}(w)
		}
		close(start)
		wg.Wait()
		if r.Failed() {
			return
		}
		r.Case("first-use", "%s", what)
		for pass := 0; pass < 2; pass++ {
			for w := 0; w < 12; w++ {
				var v pb.ObjectSize
				err := st.ExecuteReadOnly(bg, []byte{byte(w % nNS), byte(gen)}, func(ctx context.Context, kr verifiable.KeyReader) error { return kr.Get(ctx, []byte{byte(w)}, &v) })
				if err != nil || v.Size != int64(w) {
					r.Failf("%s: then %d, %v instead of %d (reopened: %v)", what, v.Size, err, w, pass > 0)
					return
				}
			}
			if !st.reopen() {
				break
			}
		}
	}
}
