package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C28"] = &property{level: "exploration", run: c28,
		rule:        "The PostgreSQL storage talks to a stand-in for the database server that implements transactions, table locks and statement errors and records every transaction. Random transactions over several namespaces are compared with a model while monitors check the record of each; every statement of a set of scenarios fails in several ways, connections break before and after statements, callbacks fail and panic and contexts are cancelled at every point; concurrent use by one and by two instances; the service over it. A case is a (scenario, statement, fault) or a (workload, transaction).",
		assumptions: []string{"the stand-in behaves like PostgreSQL for the statements used (read committed or repeatable read snapshots, table lock conflicts, failed transactions)"}}
}

func c28(r *R) {
	r.Par(r.N(40, 400), func(i int) { c18model(r, i, []string{"postgres", "postgres2"}[i%2]) })
	r.Par(r.N(24, 240), func(i int) { c18concurrent(r, i, []string{"postgres", "postgres2"}[i%2]) })
	r.Par(r.N(16, 160), func(i int) { c18open(r, i, []string{"postgres", "postgres2"}[i%2]) })
	r.Par(r.N(30, 300), func(i int) { c28record(r, i) })
	c28faults(r)
	c28cancel(r)
	c28many(r, r.N(6000, 25000))
	r.Par(r.N(6, 60), func(i int) { c28service(r, i) })
	r.Par(r.N(6, 60), func(i int) { c28servers(r, i) })
}

// pgStore is a storage, or two taking turns, with its database.
type pgStore struct {
	db   *pgDB
	sts  []verifiable.StorageWriter
	done []func()
	mu   sync.Mutex
	n    int
}

func newPGStore(instances, conns int) *pgStore {
	s := &pgStore{db: newPG()}
	s.open(instances, conns)
	return s
}

func (s *pgStore) open(instances, conns int) {
	for i := 0; i < instances; i++ {
		st, done, err := s.db.storage(conns)
		if err != nil {
			panic(err)
		}
		s.sts = append(s.sts, st)
		s.done = append(s.done, done)
	}
}

func (s *pgStore) closeStores() {
	for _, f := range s.done {
		f()
	}
	s.sts, s.done = nil, nil
}

func (s *pgStore) Close() {
	s.closeStores()
	s.db.Close()
}

func (s *pgStore) next() verifiable.StorageWriter {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	return s.sts[s.n%len(s.sts)]
}

func (s *pgStore) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error {
	return s.next().ExecuteReadOnly(ctx, ns, f)
}

func (s *pgStore) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error {
	return s.next().ExecuteUpdate(ctx, ns, f)
}

// judge checks what the record shows on its own.
func (s *pgStore) judge(r *R, what string) bool {
	if open := s.db.OpenTxs(); len(open) > 0 {
		r.Failf("%s: %v is never ended", what, open[0])
		return false
	}
	txs, loose := s.db.Reset()
	if len(loose) > 0 {
		r.Failf("%s: %s", what, loose[0])
		return false
	}
	s.db.mu.Lock()
	unknown := s.db.unknown
	s.db.mu.Unlock()
	if len(unknown) > 0 {
		r.Notef("%s: the stand-in for the database doesn't understand %q", what, unknown[0])
	}
	for _, t := range txs {
		r.Saw("transaction-" + strings.ReplaceAll(t.state, " ", "-"))
		if len(t.tables) > 1 {
			r.Failf("%s: several tables in %v", what, t)
			return false
		}
		if t.writes > 0 && t.early {
			r.Failf("%s: data are used before the table is locked in %v", what, t)
			return false
		}
	}
	return true
}

var errC28 = errors.New("the callback's own error of C28")

// c28record runs random transactions one after another and compares the record of each with what was asked.
func c28record(r *R, round int) {
	rng := r.Rand(fmt.Sprint("record", round))
	s := newPGStore(1+rng.Intn(2), 1+rng.Intn(3))
	defer func() { s.Close(); s.judge(r, "at the end") }()
	nss := c18names(rng, 6, 200)
	keys := c18names(rng, 8, 60)
	model := map[string]c18contents{}
	tables := map[string]string{} // by namespace
	owner := map[string]string{}
	for step := 0; step < 60; step++ {
		ns := nss[rng.Intn(len(nss))]
		cur := model[string(ns)].clone()
		mode := rng.Intn(6) // 0 read, 1 failing read, 2 failing update, 3 panic, else update
		desc := ""
		what := func() string {
			return fmt.Sprintf("round %d, transaction %d (mode %d) in namespace %x: %s", round, step, mode, ns, desc)
		}
		good := true
		n := 1 + rng.Intn(8)
		before := s.db.Dump()
		body := func(ctx context.Context, kr verifiable.KeyReader, kw verifiable.KeyWriter) error {
			for i := 0; i < n; i++ {
				k := keys[rng.Intn(len(keys))]
				switch x := rng.Intn(4); {
				case kw == nil || x < 2:
					desc += fmt.Sprintf("get %x; ", k)
					if good = c18get(r, what(), kr, k, cur[string(k)], rng); !good {
						return nil
					}
				case x == 2:
					desc += fmt.Sprintf("delete %x; ", k)
					if err := kw.Set(ctx, k, nil); err != nil {
						r.Failf("%s: %v", what(), err)
						good = false
						return err
					}
					delete(cur, string(k))
				default:
					desc += fmt.Sprintf("set %x; ", k)
					m := c18msg(rng)
					if err := kw.Set(ctx, k, m); err != nil {
						r.Failf("%s: %v", what(), err)
						good = false
						return err
					}
					cur[string(k)] = m
				}
			}
			switch mode {
			case 1, 2:
				return errC28
			case 3:
				panic(errC28)
			}
			return nil
		}
		var err error
		func() {
			defer func() {
				if x := recover(); x != nil {
					if x != errC28 || mode != 3 {
						panic(x)
					}
					err = errC28
				}
			}()
			if mode < 2 {
				err = s.ExecuteReadOnly(bg, ns, func(ctx context.Context, kr verifiable.KeyReader) error { return body(ctx, kr, nil) })
			} else {
				err = s.ExecuteUpdate(bg, ns, func(ctx context.Context, kw verifiable.KeyWriter) error { return body(ctx, kw, kw) })
			}
		}()
		r.Case("recorded", "%s", what())
		if !good {
			return
		}
		if fails := mode >= 1 && mode <= 3; fails && err != errC28 || !fails && err != nil {
			r.Failf("%s: it gives %v", what(), err)
			return
		}
		if open := s.db.OpenTxs(); len(open) > 0 {
			r.Failf("%s: %v isn't ended", what(), open[0])
			return
		}
		s.db.mu.Lock()
		var data []*pgTx
		for _, t := range s.db.txs {
			if len(t.tables) > 0 {
				data = append(data, t)
			}
		}
		s.db.mu.Unlock()
		if len(data) > 1 {
			r.Failf("%s: it takes several transactions: %v", what(), data)
			return
		}
		for _, t := range data {
			for table := range t.tables {
				if old, ok := tables[string(ns)]; ok && old != table {
					r.Failf("%s: it uses table %q, before that was %q", what(), table, old)
					return
				}
				if o, ok := owner[table]; ok && o != string(ns) {
					r.Failf("%s: it uses table %q, which is namespace %x's", what(), table, o)
					return
				}
				tables[string(ns)], owner[table] = table, string(ns)
			}
			if mode < 2 && t.writes > 0 {
				r.Failf("%s: a read writes: %v", what(), t)
				return
			}
			if (mode == 2 || mode == 3) && t.state != "rolled back" {
				r.Failf("%s: the callback failed but %v", what(), t)
				return
			}
			if mode > 3 && t.state != "committed" {
				r.Failf("%s: the callback succeeded but %v", what(), t)
				return
			}
			if mode > 1 && t.early {
				r.Failf("%s: data are used before the table is locked in %v", what(), t)
				return
			}
		}
		if !s.judge(r, what()) {
			return
		}
		if mode > 3 {
			model[string(ns)] = cur
		} else if fmt.Sprint(c28rows(before)) != fmt.Sprint(c28rows(s.db.Dump())) {
			r.Failf("%s: it changed the tables", what())
			return
		}
		if rng.Intn(20) == 0 { // a new instance
			n := len(s.sts)
			s.closeStores()
			s.open(n, 1+rng.Intn(3))
		}
	}
}

// c28rows is all rows, without tables that are empty.
func c28rows(d map[string]map[string][]byte) []string {
	var rv []string
	for t, rows := range d {
		for k, v := range rows {
			rv = append(rv, fmt.Sprintf("%s %x=%x", t, k, v))
		}
	}
	sort.Strings(rv)
	return rv
}

func c28size(n int64) proto.Message { return &pb.ObjectSize{Size: n} }

// c28scenario is what a statement fails in. It gives whether what it has read is as it must be.
type c28scenario struct {
	name string
	// prepare runs before faults begin, on another instance if other is set
	prepare, other bool
	update         bool
	swallow        bool // the callback ignores errors
	body           func(ctx context.Context, kr verifiable.KeyReader, kw verifiable.KeyWriter, swallow bool) (wrong string, err error)
}

func c28scenarios() []c28scenario {
	get := func(ctx context.Context, kr verifiable.KeyReader, key string, want int64) (string, error) {
		var v pb.ObjectSize
		err := kr.Get(ctx, []byte(key), &v)
		switch {
		case want < 0 && err == nil:
			return fmt.Sprintf("get of missing key %s succeeds", key), nil
		case want < 0:
			if err == verifiable.ErrNoSuchKey {
				err = nil
			}
			return "", err
		case err == verifiable.ErrNoSuchKey:
			return fmt.Sprintf("key %s is said to be missing", key), err
		case err == nil && v.Size != want:
			return fmt.Sprintf("key %s has value %d, not %d", key, v.Size, want), nil
		}
		return "", err
	}
	read := func(ctx context.Context, kr verifiable.KeyReader, kw verifiable.KeyWriter, swallow bool) (string, error) {
		for _, k := range []struct {
			k string
			v int64
		}{{"a", 1}, {"missing", -1}, {"b", 2}, {"a", 1}} {
			w, err := get(ctx, kr, k.k, k.v)
			if w != "" {
				return w, nil
			}
			if err != nil && !swallow {
				return "", err
			}
		}
		return "", nil
	}
	fresh := func(ctx context.Context, kr verifiable.KeyReader, kw verifiable.KeyWriter, swallow bool) (string, error) {
		w, err := get(ctx, kr, "a", -1)
		if swallow {
			err = nil
		}
		return w, err
	}
	write := func(ctx context.Context, kr verifiable.KeyReader, kw verifiable.KeyWriter, swallow bool) (string, error) {
		fail := func(err error) bool { return err != nil && !swallow }
		if w, err := get(ctx, kr, "missing", -1); w != "" || fail(err) {
			return w, err
		}
		if err := kw.Set(ctx, []byte("new"), c28size(10)); fail(err) {
			return "", err
		}
		if err := kw.Set(ctx, []byte("a"), c28size(11)); fail(err) {
			return "", err
		}
		if err := kw.Set(ctx, []byte("b"), nil); fail(err) {
			return "", err
		}
		if !swallow {
			if w, err := get(ctx, kr, "a", 11); w != "" || fail(err) {
				return w, err
			}
		}
		return "", nil
	}
	freshWrite := func(ctx context.Context, kr verifiable.KeyReader, kw verifiable.KeyWriter, swallow bool) (string, error) {
		w, err := get(ctx, kr, "a", -1)
		if w != "" || err != nil && !swallow {
			return w, err
		}
		err = kw.Set(ctx, []byte("new"), c28size(10))
		if swallow {
			err = nil
		}
		return "", err
	}
	var rv []c28scenario
	for _, swallow := range []bool{false, true} {
		n := ""
		if swallow {
			n = ", errors ignored"
		}
		rv = append(rv,
			c28scenario{name: "first read" + n, body: fresh, swallow: swallow},
			c28scenario{name: "first update" + n, body: freshWrite, update: true, swallow: swallow},
			c28scenario{name: "read" + n, prepare: true, body: read, swallow: swallow},
			c28scenario{name: "update" + n, prepare: true, body: write, update: true, swallow: swallow},
			c28scenario{name: "read of what another instance wrote" + n, prepare: true, other: true, body: read, swallow: swallow},
			c28scenario{name: "update of what another instance wrote" + n, prepare: true, other: true, body: write, update: true, swallow: swallow})
	}
	return rv
}

// c28state is the scenario's namespace in the database.
func c28state(db *pgDB) string { return fmt.Sprint(c28rows(db.Dump())) }

func c28prepare(s *pgStore, sc c28scenario) error {
	if !sc.prepare {
		return nil
	}
	var st verifiable.StorageWriter = s
	if sc.other {
		o, done, err := s.db.storage(1)
		if err != nil {
			return err
		}
		defer done()
		st = o
	}
	return st.ExecuteUpdate(bg, []byte("ns"), func(ctx context.Context, kw verifiable.KeyWriter) error {
		if err := kw.Set(ctx, []byte("a"), c28size(1)); err != nil {
			return err
		}
		return kw.Set(ctx, []byte("b"), c28size(2))
	})
}

// c28run runs a scenario.
func c28run(ctx context.Context, s *pgStore, sc c28scenario, in func(point int)) (wrong string, err error) {
	f := func(ctx context.Context, kr verifiable.KeyReader, kw verifiable.KeyWriter) error {
		if in != nil {
			in(0)
		}
		w, err := sc.body(ctx, kr, kw, sc.swallow)
		if w != "" {
			wrong = w
		}
		if in != nil {
			in(1)
		}
		return err
	}
	if sc.update {
		err = s.ExecuteUpdate(ctx, []byte("ns"), func(ctx context.Context, kw verifiable.KeyWriter) error { return f(ctx, kw, kw) })
	} else {
		err = s.ExecuteReadOnly(ctx, []byte("ns"), func(ctx context.Context, kr verifiable.KeyReader) error { return f(ctx, kr, nil) })
	}
	return
}

// c28after checks that the storage is usable after a fault and agrees with the database.
func c28after(r *R, what string, s *pgStore) bool {
	state := c28state(s.db)
	var err error
	for try := 0; try < 10; try++ {
		got := map[string]int64{}
		err = s.ExecuteUpdate(bg, []byte("ns"), func(ctx context.Context, kw verifiable.KeyWriter) error {
			got = map[string]int64{}
			for _, k := range []string{"a", "b", "new", "missing"} {
				var v pb.ObjectSize
				err := kw.Get(ctx, []byte(k), &v)
				if err == nil {
					got[k] = v.Size
				} else if err != verifiable.ErrNoSuchKey {
					return err
				}
			}
			return kw.Set(ctx, []byte("after"), c28size(99))
		})
		if err != nil {
			continue
		}
		r.Saw("usable-after-fault")
		rows := map[string]string{}
		for _, tr := range s.db.Dump() {
			for k, v := range tr {
				rows[k] = string(v)
			}
		}
		for _, k := range []string{"a", "b", "new", "missing"} {
			raw, in := rows[k]
			var v pb.ObjectSize
			proto.Unmarshal([]byte(raw), &v)
			if n, ok := got[k]; ok != in || n != v.Size {
				r.Failf("%s: afterwards key %s reads as %d, %v but the database holds %s", what, k, n, ok, state)
				return false
			}
		}
		var v pb.ObjectSize
		e2 := s.ExecuteReadOnly(bg, []byte("ns"), func(ctx context.Context, kr verifiable.KeyReader) error { return kr.Get(ctx, []byte("after"), &v) })
		if e2 != nil || v.Size != 99 {
			r.Failf("%s: afterwards a read gives %d, %v", what, v.Size, e2)
			return false
		}
		return true
	}
	r.Failf("%s: the storage can't be used any more: %v", what, err)
	return false
}

// c28faults lets every statement of every scenario fail in every way.
func c28faults(r *R) {
	type fault struct {
		name string
		f    pgFault
	}
	faults := []fault{
		{"is refused with 40001", pgFault{code: "40001"}},
		{"is refused with 02000", pgFault{code: "02000"}},
		{"is refused with 57014", pgFault{code: "57014"}},
		{"is refused with 53200", pgFault{code: "53200"}},
		{"is refused with 42P01", pgFault{code: "42P01"}},
		{"is refused with 23505", pgFault{code: "23505"}},
		{"is refused with 42501", pgFault{code: "42501"}},
		{"finds the connection broken", pgFault{drop: true}},
		{"loses its answer", pgFault{lost: true}},
	}
	type job struct {
		sc    c28scenario
		n     int
		f     fault
		conns int
		kind  string
	}
	var jobs []job
	for _, sc := range c28scenarios() {
		// without faults: how many statements, and what comes of it
		s := newPGStore(1, 1)
		if err := c28prepare(s, sc); err != nil {
			r.Failf("preparing: %v", err)
			s.Close()
			return
		}
		s.db.Reset()
		var kinds []string
		s.db.mu.Lock()
		s.db.Fault = func(n int, kind, sql string) *pgFault { kinds = append(kinds, kind); return nil }
		s.db.mu.Unlock()
		wrong, err := c28run(bg, s, sc, nil)
		if wrong != "" || err != nil {
			r.Failf("%s: %s %v", sc.name, wrong, err)
			s.Close()
			return
		}
		s.db.mu.Lock()
		s.db.Fault = nil
		s.db.mu.Unlock()
		ok := s.judge(r, sc.name)
		s.Close()
		if !ok {
			return
		}
		for n, kind := range kinds {
			for _, f := range faults {
				jobs = append(jobs, job{sc, n, f, 1 + (n+len(jobs))%2, kind})
			}
		}
	}
	r.Par(len(jobs), func(i int) {
		j := jobs[i]
		what := fmt.Sprintf("%s, statement %d (%s) %s", j.sc.name, j.n, j.kind, j.f.name)
		s := newPGStore(1, j.conns)
		defer s.Close()
		if err := c28prepare(s, j.sc); err != nil {
			r.Failf("preparing: %v", err)
			return
		}
		before := c28state(s.db)
		s.db.OpenTxs()
		s.db.Reset()
		hit := ""
		s.db.mu.Lock()
		s.db.Fault = func(n int, kind, sql string) *pgFault {
			if n != j.n {
				return nil
			}
			hit = kind
			f := j.f.f
			return &f
		}
		s.db.mu.Unlock()
		wrong, err := c28run(bg, s, j.sc, nil)
		if open := s.db.OpenTxs(); len(open) > 0 {
			r.Failf("%s: %v isn't ended", what, open[0])
			return
		}
		s.db.mu.Lock()
		s.db.Fault = nil
		s.db.mu.Unlock()
		after := c28state(s.db)
		r.Case("fault", "%s", what)
		r.Saw("fault")
		// what the update does to the database, if it does
		full := func() bool { return strings.Contains(after, fmt.Sprintf("%x=", "new")) }
		committed := after != before
		r.Saw(map[bool]string{true: "call-succeeded", false: "call-failed"}[err == nil])
		switch {
		case wrong != "":
			r.Failf("%s: %s", what, wrong)
		case errors.Is(err, verifiable.ErrNoSuchKey):
			r.Failf("%s: a database error is reported as a missing key: %v", what, err)
		case !j.sc.update && committed:
			r.Failf("%s: a read changes the database", what)
		case j.sc.update && committed && !full():
			r.Failf("%s: part of the update is committed: from %s to %s", what, before, after)
		case j.sc.update && err == nil && !committed:
			r.Failf("%s: it succeeds, but nothing is committed", what)
		case j.sc.update && err != nil && committed && !(j.f.f.lost && hit == "commit"):
			r.Failf("%s: it fails with %v, but is committed", what, err)
		case err == nil && !j.sc.swallow && hit != "" && hit != "rollback" && !(hit == "commit" && !j.sc.update):
			r.Failf("%s: it succeeds", what)
		case err == nil && j.sc.swallow && j.sc.update && hit != "" && hit != "rollback":
			r.Failf("%s: it succeeds though a statement failed", what)
		default:
			c28after(r, what, s)
			s.db.OpenTxs()
			_, loose := s.db.Reset()
			if len(loose) > 0 {
				r.Failf("%s: %s", what, loose[0])
			}
		}
	})
}

// c28cancel ends contexts at every point.
func c28cancel(r *R) {
	scs := c28scenarios()
	type job struct {
		sc    c28scenario
		point int // -1 before, 0 entering the callback, 1 leaving it, 2+n: during statement n
		conns int
	}
	var jobs []job
	for _, sc := range scs {
		for p := -1; p < 18; p++ {
			for conns := 1; conns <= 2; conns++ {
				jobs = append(jobs, job{sc, p, conns})
			}
		}
	}
	r.Par(len(jobs), func(i int) {
		j := jobs[i]
		what := fmt.Sprintf("%s, context cancelled at point %d", j.sc.name, j.point)
		s := newPGStore(1, j.conns)
		defer s.Close()
		if err := c28prepare(s, j.sc); err != nil {
			r.Failf("preparing: %v", err)
			return
		}
		before := c28state(s.db)
		s.db.Reset()
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		if j.point == -1 {
			cancel()
		}
		release := make(chan struct{})
		var once sync.Once
		rel := func() { once.Do(func() { close(release) }) }
		defer rel()
		s.db.mu.Lock()
		s.db.Fault = func(n int, kind, sql string) *pgFault {
			if j.point < 2 || n != j.point-2 {
				return nil
			}
			return &pgFault{wait: release, begun: cancel}
		}
		s.db.mu.Unlock()
		type res struct {
			wrong string
			err   error
		}
		ch := make(chan res, 1)
		go func() {
			w, err := c28run(ctx, s, j.sc, func(p int) {
				if p == j.point {
					cancel()
				}
			})
			ch <- res{w, err}
		}()
		var x res
		select {
		case x = <-ch:
		case <-time.After(100 * time.Second):
			r.Failf("%s: the call doesn't end", what)
			return
		}
		rel()
		s.db.mu.Lock()
		s.db.Fault = nil
		s.db.mu.Unlock()
		if open := s.db.OpenTxs(); len(open) > 0 {
			r.Failf("%s: %v isn't ended", what, open[0])
			return
		}
		after := c28state(s.db)
		r.Case("cancel", "%s", what)
		r.Saw("cancel")
		committed := after != before
		switch {
		case x.wrong != "":
			r.Failf("%s: %s", what, x.wrong)
		case errors.Is(x.err, verifiable.ErrNoSuchKey):
			r.Failf("%s: reported as a missing key: %v", what, x.err)
		case j.point == -1 && x.err == nil:
			r.Failf("%s: it succeeds", what)
		case committed && !(j.sc.update && strings.Contains(after, fmt.Sprintf("%x=", "new"))):
			r.Failf("%s: from %s to %s", what, before, after)
		case j.sc.update && x.err == nil && !committed:
			r.Failf("%s: it succeeds, but nothing is committed", what)
		default:
			c28after(r, what, s)
			_, loose := s.db.Reset()
			if len(loose) > 0 {
				r.Failf("%s: %s", what, loose[0])
			}
		}
	})
}

// c28many has many namespaces, each with a value of its own under the same key.
func c28many(r *R, n int) {
	s := newPGStore(1, 8)
	defer s.Close()
	key := []byte("the same key")
	ns := func(i int) []byte {
		switch i % 3 {
		case 0:
			return []byte(fmt.Sprintf("namespace %d", i))
		case 1:
			h := sha256.Sum256([]byte(fmt.Sprint(i)))
			return h[:]
		}
		return append(make([]byte, 300), fmt.Sprint(i)...)
	}
	do := func(what string, f func(i int) error) bool {
		const parts = 8
		bad := make([]error, parts)
		r.Par(parts, func(p int) {
			for i := p; i < n && bad[p] == nil; i += parts {
				if err := f(i); err != nil {
					bad[p] = fmt.Errorf("%s namespace %d of %d: %w", what, i, n, err)
				}
				r.Saw("namespace")
			}
		})
		s.db.Reset()
		for _, err := range bad {
			if err != nil {
				r.Failf("%v", err)
				return false
			}
		}
		return true
	}
	st := s.sts[0]
	if !do("updating", func(i int) error {
		return st.ExecuteUpdate(bg, ns(i), func(ctx context.Context, kw verifiable.KeyWriter) error {
			if err := kw.Get(ctx, key, &pb.ObjectSize{}); err != verifiable.ErrNoSuchKey {
				return fmt.Errorf("it isn't empty at first: %v", err)
			}
			return kw.Set(ctx, key, &pb.ObjectSize{Size: int64(i + 1)})
		})
	}) {
		return
	}
	do("reading", func(i int) error {
		return st.ExecuteReadOnly(bg, ns(i), func(ctx context.Context, kr verifiable.KeyReader) error {
			var o pb.ObjectSize
			if err := kr.Get(ctx, key, &o); err != nil || o.Size != int64(i+1) {
				return fmt.Errorf("it holds %v, %v", o.Size, err)
			}
			return nil
		})
	})
	r.Case("many", "%d namespaces", n)
}

// c28service runs the service over it.
func c28service(r *R, i int) {
	rng := r.Rand(fmt.Sprint("service", i))
	s := newPGStore(1+i%2, 1+rng.Intn(3))
	defer s.Close()
	g := &gated{st: s} // for the batching mutator, which may still have repetitions to look at in the end
	mk := func() Svc {
		if i%3 == 2 {
			return newService(g, newBatch(g, 5, 20, time.Millisecond), nil)
		}
		return newService(s, nil, nil)
	}
	svc := mk()
	what := fmt.Sprintf("service %d", i)
	ref, mr := lref("28", "l", tLog), mref("28", "l")
	m, w := &LogModel{}, &MapWorld{}
	gen := newMapGen(rng, 4)
	for n := 0; n < r.N(40, 120); n++ {
		if rng.Intn(2) == 0 {
			ld := &pb.LeafData{LeafInput: randBytes(rng, 1+rng.Intn(3)), ExtraData: randBytes(rng, 4)}
			resp, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: ld})
			if err != nil || !bytes.Equal(resp.LeafHash, spec.LeafHash(ld.LeafInput)) {
				r.Failf("%s: adding: %v %v", what, resp, err)
				return
			}
			m.Add(ld)
		} else if err := w.mutate(svc, mr, gen.next(&w.MapModel)); err != nil {
			r.Failf("%s: mutation: %v", what, err)
			return
		}
		if i%3 == 2 && n%10 != 9 {
			continue // additions take a while to get in
		}
		if i%3 == 2 {
			c28settle(svc, ref, mr, m, w)
		}
		r.Case("service", "%s, step %d", what, n)
		if n%10 == 9 {
			if !ckLog(r, what, svc, ref, m, rng) || !ckMapAll(r, what, svc, mr, w, rng, 1) {
				return
			}
		} else if !ckHead(r, what, svc, ref, m, 0) {
			return
		}
		if rng.Intn(30) == 0 && i%3 != 2 {
			k := len(s.sts)
			s.closeStores()
			s.open(k, 1+rng.Intn(3))
		}
	}
	g.shut()
	s.judge(r, what)
}

// c28settle waits for what was added.
func c28settle(svc Svc, ref *pb.LogRef, mr *pb.MapRef, m *LogModel, w *MapWorld) {
	for t := 0; t < 3000; t++ {
		a, e1 := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ref})
		b, e2 := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mr})
		if e1 == nil && e2 == nil && int(a.TreeSize) >= m.Len() && int(b.GetMutationLog().GetTreeSize()) >= w.Size() {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// c28servers: several servers use one database at once.
func c28servers(r *R, i int) {
	rng := r.Rand(fmt.Sprint("servers", i))
	s := newPGStore(2, 1+rng.Intn(4))
	defer s.Close()
	var mu sync.Mutex
	yr := rand.New(rand.NewSource(rng.Int63()))
	s.db.Yield = func() {
		mu.Lock()
		n := yr.Intn(6)
		mu.Unlock()
		if n == 0 {
			time.Sleep(50 * time.Microsecond)
		}
	}
	svcs := []Svc{newService(s.sts[0], nil, nil), newService(s.sts[1], nil, nil)}
	ref := lref("28", "l", tLog)
	what := fmt.Sprintf("two servers, run %d", i)
	var wg sync.WaitGroup
	acked := map[string]*pb.LeafData{}
	var ackMu sync.Mutex
	workers, each := 6, r.N(15, 40)
	for k := 0; k < workers; k++ {
		wg.Add(1)
		rng := r.Rand(fmt.Sprint("servers", i, "/", k))
		go func(k int) {
			defer wg.Done()
			svc := svcs[k%2]
			size := int64(0)
			for n := 0; n < each && !r.Failed(); n++ {
				ld := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("%d", rng.Intn(workers*each)))}
				resp, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: ld})
				if err != nil {
					r.Failf("%s: adding: %v", what, err)
					return
				}
				ackMu.Lock()
				acked[string(resp.LeafHash)] = ld
				ackMu.Unlock()
				r.Saw("concurrent-add")
				// what was acknowledged by one server is there on both
				other := svcs[rng.Intn(2)]
				p, err := other.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: ref, MtlHash: resp.LeafHash})
				if err != nil {
					r.Failf("%s: entry %s is acknowledged, its proof is %v", what, ld.LeafInput, err)
					return
				}
				h, err := other.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ref, TreeSize: p.TreeSize})
				if err != nil || !spec.VerifyInclusion(p.LeafIndex, p.TreeSize, resp.LeafHash, p.AuditPath, h.RootHash) {
					r.Failf("%s: the proof of entry %s is wrong: %v %v %v", what, ld.LeafInput, p, h, err)
					return
				}
				if p.TreeSize < size {
					r.Failf("%s: the log shrank from %d to %d", what, size, p.TreeSize)
					return
				}
				size = p.TreeSize
			}
		}(k)
	}
	wg.Wait()
	if r.Failed() {
		return
	}
	r.Case("servers", "%s", what)
	resp, err := svcs[0].LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref})
	if err != nil {
		r.Failf("%s: %v", what, err)
		return
	}
	m := &LogModel{}
	for n, e := range resp.Values {
		if _, fresh := m.Add(e); !fresh {
			r.Failf("%s: entry %d (%s) is there twice", what, n, e.LeafInput)
			return
		}
		if acked[string(spec.LeafHash(e.LeafInput))] == nil {
			r.Failf("%s: entry %d (%s) was never added", what, n, e.LeafInput)
			return
		}
	}
	if m.Len() != len(acked) {
		r.Failf("%s: %d entries are there, %d were acknowledged", what, m.Len(), len(acked))
		return
	}
	if ckLog(r, what, svcs[0], ref, m, rng) && ckLog(r, what, svcs[1], ref, m, rng) {
		s.judge(r, what)
	}
}
