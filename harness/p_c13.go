package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"golang.org/x/text/unicode/norm"
	"google.golang.org/grpc/codes"
)

func init() {
	props["C13"] = &property{level: "exploration", run: c13,
		rule:        "Random operations over many objects with similar, empty, concatenating, quoting, control and Unicode accounts and names, logs and maps of equal names, on every local storage, with both mutators, embedded and over REST and gRPC; after every operation the heads of all objects are compared with their models, and regularly everything about them. A case is an (object, operation).",
		assumptions: []string{"SHA-256 collisions do not occur"}}
}

// an object: a log or a map, by what identifies it
type object struct {
	acc, name string
	key       string // API key to use
	isMap     bool
	log       LogModel
	m         MapWorld
	n         int // to make values unique
}

func (o *object) id() string {
	return fmt.Sprintf("%q/%q/%v", norm.NFC.String(o.acc), norm.NFC.String(o.name), o.isMap)
}

func (o *object) String() string {
	k := "log"
	if o.isMap {
		k = "map"
	}
	return fmt.Sprintf("%s %q of account %q", k, o.name, o.acc)
}

func (o *object) lref(t pb.LogType) *pb.LogRef {
	return &pb.LogRef{Account: acct(o.acc, o.key), Name: o.name, LogType: t}
}
func (o *object) mref() *pb.MapRef { return &pb.MapRef{Account: acct(o.acc, o.key), Name: o.name} }

// quick compares sizes and heads
func (o *object) quick(r *R, what string, svc Svc) bool {
	if !o.isMap {
		return ckHead(r, what, svc, o.lref(tLog), &o.log, 0)
	}
	return ckMapHead(r, what, svc, o.mref(), &o.m, 0)
}

func (o *object) full(r *R, what string, svc Svc, rng *rand.Rand) bool {
	if !o.isMap {
		return ckLog(r, what, svc, o.lref(tLog), &o.log, rng)
	}
	return ckMapAll(r, what, svc, o.mref(), &o.m, rng, 3)
}

// write does a random write.
func (o *object) write(svc Svc, rng *rand.Rand, key string) error {
	o.n++
	if !o.isMap {
		ld := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", o.n))} // the same in all logs
		if rng.Intn(4) == 0 {
			ld.LeafInput = []byte("again")
		}
		ref := o.lref(tLog)
		ref.Account.ApiKey = key
		return addEntry(svc, ref, &o.log, ld)
	}
	mu := spec.Mut{Action: "set", Key: []byte(fmt.Sprintf("k%d", rng.Intn(3))), LI: []byte(fmt.Sprintf("v%d", o.n))}
	switch rng.Intn(4) {
	case 0:
		mu = spec.Mut{Action: "delete", Key: mu.Key, NoVal: true}
	case 1:
		mu.Action = "update"
		mu.Prev = spec.LeafHash(o.m.Value(mu.Key, o.m.Size()))
	}
	ref := o.mref()
	ref.Account.ApiKey = key
	return o.m.mutate(svc, ref, mu)
}

func trickyObjects(rng *rand.Rand) []*object {
	accs := []string{"", "1", "11", "111", "a", "1/", "1\x00", "ab", "é", "e\u0301", "map", "log", "0", "01", "\xff", "\xfe", "1\"", "1,\"name\":\"1"}
	names := []string{"", "1", "11", "111", "a", "b", "/", "a/b", "../a", "a\x00b", "a\x00", "bc", "c", "log", "map", "type", "é", "e\u0301", "ÅA", "\u212bA", "A", "a ", " a", "\xff", "\xfe", "log/mutation", "a\"b", "user_data/", "***REDACTED*** Hash: 00"}
	var rv []*object
	have := map[string]bool{}
	add := func(a, n string, m bool) {
		o := &object{acc: a, name: n, isMap: m}
		if !have[o.id()] {
			have[o.id()] = true
			rv = append(rv, o)
		}
	}
	// some families on purpose
	for _, f := range [][][2]string{
		{{"1", "11"}, {"11", "1"}, {"111", ""}, {"", "111"}, {"1", "1"}},
		{{"a", "bc"}, {"ab", "c"}, {"a", "b"}},
		{{"1", "a"}, {"1/", "a"}, {"1", "/a"}, {"1", "a/b"}, {"1", "../a"}, {"1", "A"}, {"1", "a "}},
		{{"1", "\xff"}, {"1", "\xfe"}, {"1", "\ufffd"}, {"1", "\xff\xff"}},
		{{"0", "a"}, {"00", "a"}, {"01", "a"}, {"1", "a"}},
		{{"1", "log"}, {"1", "map"}, {"log", "1"}, {"map", "1"}, {"1", "maplog"}},
		{{"1", "é"}, {"1", "e"}, {"1", "e\u0301\u0301"}, {"1", "È"}, {"é", "1"}},
		{{"1", "x\x00y"}, {"1", "x"}, {"1", "x\x00"}, {"1\x00x", ""}, {"1", "\x00x"}},
		{{"1", "a"}, {" 1", "a"}, {"1 ", "a"}, {"1\n", "a"}, {"\t1", "a"}, {"+1", "a"}, {"1.", "a"}},
		{{"1", "a"}, {"1", "a\n"}, {"1", "\ta"}, {"1", "a\u00a0"}, {"1", "a."}, {"1", "a%"}, {"1", "%61"}},
		{{"1", "***REDACTED*** Hash: 00"}, {"1", "***REDACTED*** Hash: zz"}, {"1", "***REDACTED*** Hash: "}, {"1", ""}},
	} {
		if rng.Intn(2) == 0 {
			for _, x := range f {
				add(x[0], x[1], false)
				if rng.Intn(2) == 0 {
					add(x[0], x[1], true)
				}
			}
		}
	}
	for len(rv) < 16 {
		a, n := accs[rng.Intn(len(accs))], names[rng.Intn(len(names))]
		add(a, n, rng.Intn(2) == 0)
		add(a, n, rng.Intn(2) == 0)
	}
	rng.Shuffle(len(rv), func(i, j int) { rv[i], rv[j] = rv[j], rv[i] })
	if len(rv) > 20 {
		rv = rv[:20]
	}
	return rv
}

// spelt gives another spelling of the same text, sometimes
func spelt(s string, rng *rand.Rand) string {
	switch rng.Intn(3) {
	case 0:
		return norm.NFD.String(s)
	case 1:
		return norm.NFC.String(s)
	}
	return s
}

func c13(r *R) {
	n := r.N(48, 600)
	r.Par(n, func(i int) {
		c13one(r, i, []string{"spec", "memory", "bolt", "spec", "memory", "bolt", "memory", "badger"}[i%8], false)
	})
	r.Par(r.N(16, 200), func(i int) { c13one(r, 10000+i, []string{"spec", "memory", "bolt"}[i%3], true) })
	r.Par(r.N(12, 120), func(i int) { c13net(r, i) })
	r.Par(2, func(i int) { c13many(r, i == 1, r.N(4000, 60000)) })
	c13unaddressable(r)
}

func c13one(r *R, round int, kind string, batched bool) {
	rng := r.Rand(fmt.Sprint("o", round))
	objs := trickyObjects(rng)
	if kind == "badger" {
		objs = objs[:6]
	}
	st, done := newStore(r, kind)
	defer done()
	var mut verifiable.MutatorService
	if batched {
		mut = newBatch(st, 1+rng.Intn(5), rng.Intn(4), time.Millisecond)
	}
	svc := newService(st, mut, nil)
	steps := 60
	for s := 0; s < steps; s++ {
		o := objs[rng.Intn(len(objs))]
		w := fmt.Sprintf("%s (batched %v), step %d, write to %v", kind, batched, s, o)
		// address it in another spelling
		a, n := o.acc, o.name
		o.acc, o.name = spelt(a, rng), spelt(n, rng)
		err := o.write(svc, rng, []string{"", "key", "other"}[rng.Intn(3)])
		o.acc, o.name = a, n
		r.Case("write", "%v step %d", o, s)
		if err != nil {
			r.Failf("%s: %v", w, err)
			return
		}
		if batched && !o.settle(r, svc) {
			r.Failf("%s: never applied", w)
			return
		}
		for _, x := range objs {
			if !x.quick(r, w+": then "+x.String(), svc) {
				return
			}
		}
		if s%20 == 19 {
			for _, x := range objs {
				if !x.full(r, w+": then "+x.String(), svc, rng) {
					return
				}
			}
			if !c13reveal(r, w, svc, objs, rng) {
				return
			}
		}
	}
}

// settle waits for the batching mutator
func (o *object) settle(r *R, svc Svc) bool {
	return waitFor(r, func() bool {
		if o.isMap {
			h, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: o.mref()})
			return err != nil || h.GetMutationLog().GetTreeSize() >= int64(o.m.Size())
		}
		h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: o.lref(tLog)})
		return err != nil || h.TreeSize >= int64(o.log.Len())
	})
}

// c13reveal asks objects for what only others have.
func c13reveal(r *R, what string, svc Svc, objs []*object, rng *rand.Rand) bool {
	for k := 0; k < 20; k++ {
		a, b := objs[rng.Intn(len(objs))], objs[rng.Intn(len(objs))]
		if a.id() == b.id() {
			continue
		}
		var src *LogModel
		if b.isMap {
			src = &b.m.Mut
		} else {
			src = &b.log
		}
		if src.Len() == 0 {
			continue
		}
		lh := src.Tree.Leaves[rng.Intn(src.Len())]
		t, own := tLog, &a.log
		if a.isMap {
			t, own = tMut, &a.m.Mut
		}
		if own.Len() == 0 || own.Index(lh) >= 0 {
			continue
		}
		p, err := svc.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: a.lref(t), MtlHash: lh})
		r.Saw("reveal")
		if err == nil || code(err) != codes.NotFound {
			r.Failf("%s: %v asked for a hash of %v answers %v %v", what, a, b, p, err)
			return false
		}
	}
	// neighbours nobody ever wrote to are empty
	for k := 0; k < 8; k++ {
		o := objs[rng.Intn(len(objs))]
		x := &object{acc: o.acc, name: o.name, isMap: o.isMap}
		switch rng.Intn(4) {
		case 0:
			x.isMap = !x.isMap
		case 1:
			x.name += "~"
		case 2:
			x.acc += "~"
		case 3:
			x.acc, x.name = x.name, x.acc
		}
		known := false
		for _, y := range objs {
			known = known || y.id() == x.id()
		}
		if known {
			continue
		}
		r.Saw("untouched-neighbour")
		if !x.quick(r, what+": untouched "+x.String(), svc) {
			return false
		}
		if x.isMap && !ckMapGet(r, what+": untouched "+x.String(), svc, x.mref(), &x.m, []byte("k0"), 0) {
			return false
		}
	}
	return true
}

// c13net does it over the network, with names that REST can express.
func c13net(r *R, round int) {
	rng := r.Rand(fmt.Sprint("n", round))
	st, done := newStore(r, []string{"memory", "bolt", "spec"}[round%3])
	defer done()
	svc := newService(st, nil, nil)
	rs := newREST(svc)
	defer rs.Close()
	gs := newGRPC(svc)
	defer gs.Close()
	svcs := []Svc{svc, rs.Client(), gs.Client()}
	var objs []*object
	accs := []string{"1", "11", "01", "111", "0", "10"}
	names := []string{"1", "11", "a", "ab", "a-b", "a_b", "log", "map", "tree", "key", "entry", "mutation", "treehead", "head", "-", "_", "a-", "0-1"}
	have := map[string]bool{}
	for len(objs) < 14 {
		o := &object{acc: accs[rng.Intn(len(accs))], name: names[rng.Intn(len(names))], isMap: rng.Intn(2) == 0}
		if !have[o.id()] {
			have[o.id()] = true
			objs = append(objs, o)
		}
	}
	for s := 0; s < 40; s++ {
		o := objs[rng.Intn(len(objs))]
		via := rng.Intn(3)
		w := fmt.Sprintf("via %s, step %d, write to %v", []string{"embedded", "REST", "gRPC"}[via], s, o)
		r.Case("write-net", "%s", w)
		if err := o.write(svcs[via], rng, ""); err != nil {
			r.Failf("%s: %v", w, err)
			return
		}
		for i, x := range objs {
			if !x.quick(r, w+": then "+x.String(), svcs[(i+s)%3]) {
				return
			}
		}
	}
	for i, x := range objs {
		if !x.full(r, "over the network: "+x.String(), svcs[i%3], rng) {
			return
		}
	}
}

// c13unaddressable uses the REST client with names that don't fit a URL: they must not lead to other objects.
func c13unaddressable(r *R) {
	rng := r.Rand("u")
	st := &specStore{}
	svc := newService(st, nil, nil)
	rs := newREST(svc)
	defer rs.Close()
	c := rs.Client()
	var objs []*object
	for _, a := range []string{"1", "2"} {
		for _, n := range []string{"a", "b", "head", "log"} {
			for _, m := range []bool{false, true} {
				o := &object{acc: a, name: n, isMap: m}
				objs = append(objs, o)
				for i := 0; i < 3; i++ {
					if err := o.write(svc, rng, ""); err != nil {
						r.Failf("%v", err)
						return
					}
				}
			}
		}
	}
	bad := [][2]string{
		{"1", "a/../b"}, {"1", "../log/a"}, {"1", "a?x=y"}, {"1", "a#f"}, {"1", "A"}, {"1", "%61"}, {"1", "a%2f..%2fb"}, {"1", ""}, {"1", "."}, {"1", ".."},
		{"1/log/a/../../../1", "b"}, {"", "a"}, {"1 ", "a"}, {"1", " a"}, {"1", "a/"}, {"1", "/a"}, {"1", "a\x00"}, {"1", "a\n"}, {"1\n", "a"}, {"1", "a//"}, {"1", "é"}, {"x", "a"}, {"-1", "a"}, {"1", "a/entry/0"},
		{"1", "a/log/mutation"}, {"1", "b/tree/head?"}, {"1/map/a/log/mutation?", "b"}, {"２", "a"}, {"1", "\xff"},
	}
	for _, b := range bad {
		for _, m := range []bool{false, true} {
			// the model of the object as named: it may exist (embedded could have made it), but is empty
			x := &object{acc: b[0], name: b[1], isMap: m}
			w := fmt.Sprintf("REST client, %v", x)
			before := st.Dump()
			r.Case("unaddressable", "%s", w)
			if !r.Guard(w, func() {
				if err := x.write(c, rng, ""); err != nil {
					if st.Dump() != before {
						r.Failf("%s: write fails with %v but has an effect", w, err)
					}
				}
				r.Saw("unaddressable-write")
			}) {
				return
			}
			reads := func() {
				if m {
					h, err := c.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: x.mref()})
					if err == nil && h.GetMutationLog().GetTreeSize() != int64(x.m.Size()) {
						r.Failf("%s: head is %v", w, h)
					}
					v, err := c.MapGetValue(bg, &pb.MapGetValueRequest{Map: x.mref(), Key: []byte("k0")})
					if err == nil && x.m.Size() == 0 && len(v.GetValue().GetLeafInput()) > 0 {
						r.Failf("%s: value is %v", w, v)
					}
				}
				for _, t := range []pb.LogType{tLog, tMut, tHead} {
					if (t == tLog) == m {
						continue
					}
					mod := &x.log
					if m {
						mod = &x.m.Mut
					}
					h, err := c.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: x.lref(t)})
					if err == nil && h.TreeSize != int64(mod.Len()) && x.m.Size() == 0 {
						r.Failf("%s: head of %v is %v", w, t, h)
					}
					e, err := c.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: x.lref(t)})
					if err == nil && mod.Len() == 0 && x.m.Size() == 0 {
						r.Failf("%s: entries of %v are %v", w, t, e)
					}
					r.Saw("unaddressable-read")
				}
			}
			if !r.Guard(w, reads) {
				return
			}
			for _, o := range objs {
				if o.id() != x.id() && !o.quick(r, w+": then "+o.String(), svc) {
					return
				}
			}
		}
	}
	for _, o := range objs {
		if !o.full(r, "after unaddressable requests: "+o.String(), svc, rng) {
			return
		}
	}
}

// c13many: so many objects that no abbreviation of what identifies them can keep them apart
func c13many(r *R, maps bool, n int) {
	st, done := newStore(r, "memory")
	defer done()
	svc := newService(st, nil, nil)
	obj := func(i int) *object {
		return &object{acc: fmt.Sprint(i % 17), name: fmt.Sprintf("%d of very many objects, all with names that are rather long", i/17), isMap: maps}
	}
	value := func(i int) []byte { return []byte(fmt.Sprint("of ", i)) }
	for i := 0; i < n; i++ {
		o := obj(i)
		var err error
		if maps {
			_, err = svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: o.mref(), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: &pb.LeafData{LeafInput: value(i)}}})
		} else {
			_, err = svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: o.lref(tLog), Value: &pb.LeafData{LeafInput: value(i)}})
		}
		if err != nil {
			r.Failf("%v: %v", o, err)
			return
		}
	}
	for i := 0; i < n; i++ {
		o := obj(i)
		r.Saw("one-of-many")
		t := tLog
		if maps {
			t = tMut
		}
		h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: o.lref(t)})
		if err != nil || h.TreeSize != 1 {
			r.Failf("%v, one of %d, each written to once: head is %v, %v", o, n, h, err)
			return
		}
		if maps {
			v, err := svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: o.mref(), Key: []byte("k")})
			if err != nil || string(v.Value.GetLeafInput()) != string(value(i)) {
				r.Failf("%v, one of %d: value is %v, %v, not %q", o, n, v, err, value(i))
				return
			}
		} else if !bytes.Equal(h.RootHash, spec.LeafHash(value(i))) {
			r.Failf("%v, one of %d: its head %v is not that of its only entry", o, n, h)
			return
		}
	}
	r.Case("many", "%d objects, maps %v", n, maps)
}
