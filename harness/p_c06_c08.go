package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
)

func init() {
	props["C06"] = &property{level: "exploration", run: c06,
		rule:        "All short histories over a small alphabet of mutations on keys with chosen common path prefixes, and random long histories with colliding keys on all storages and both mutators; after each, values and roots at all (short) or sampled (long) sizes equal those of a sequential model with a sparse Merkle tree built from the contents. A case is a history (short) or a (history, size) (long).",
		assumptions: []string{"SHA-256 collisions do not occur"}}
	props["C07"] = &property{level: "exploration", run: c07,
		rule:        "For keys present, deleted, overwritten, never set and sharing up to 55 path bits with others, at all sizes, the proof served is checked sibling by sibling against the model's tree, with the repository's own verifier, and against all other values, keys and roots of the history. A case is a (history, key, size).",
		assumptions: []string{"SHA-256 collisions do not occur"}}
	props["C08"] = &property{level: "exploration", run: c08,
		rule:        "After each mutation of random and hostile histories, every entry of mutation log and tree head log is compared with the submitted mutation, the model's root, the heads served, and what it was before. A case is a (history, step).",
		assumptions: []string{"SHA-256 collisions do not occur", "no two identical mutations are made within the clock's resolution"}}
}

// clone copies a store.
func (s *specStore) clone() *specStore {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := &specStore{data: map[string]map[string][]byte{}}
	for ns, m := range s.data {
		c := make(map[string][]byte, len(m)+64)
		for k, v := range m {
			c[k] = v
		}
		n.data[ns] = c
	}
	return n
}

func (m *MapWorld) clone() *MapWorld {
	n := &MapWorld{}
	for _, mu := range m.Muts {
		n.Apply(mu)
	}
	n.Acked = append([][]byte(nil), m.Acked...)
	return n
}

// alphabet of mutations for short histories
func alphabet(k1, k2, k3 []byte) []spec.Mut {
	a, b := []byte("a"), []byte("b")
	set := func(k, v []byte) spec.Mut { return spec.Mut{Action: "set", Key: k, LI: v} }
	del := func(k []byte) spec.Mut { return spec.Mut{Action: "delete", Key: k, NoVal: true} }
	upd := func(k, old, v []byte) spec.Mut {
		return spec.Mut{Action: "update", Key: k, LI: v, Prev: spec.LeafHash(old)}
	}
	return []spec.Mut{set(k1, a), set(k1, b), set(k2, a), del(k1), del(k2), set(k3, b), upd(k1, a, b), upd(k2, nil, b), set(k1, nil), upd(k1, a, nil)}
}

func c06(r *R) {
	c06exhaustive(r)
	r.Stop()
	c06random(r)
}

func c06exhaustive(r *R) {
	base := []byte("base0")
	ref := mref("6", "m")
	type trio struct{ a, b, c int } // common prefix bits of k2 and k3 with k1
	trios := []trio{{0, 0, 1}, {1, 3, 0}, {7, 8, 0}, {9, 9, 0}, {15, 2, 0}}
	nAlpha := len(alphabet(nil, nil, nil))
	r.Par(len(trios)*nAlpha, func(job int) {
		t := trios[job/nAlpha]
		k1, k2, k3 := base, collide(base, t.a, 0), collide(base, t.b, 1)
		alpha := alphabet(k1, k2, k3)
		keys := [][]byte{k1, k2, k3, []byte("never"), collide(base, 4, 2)}
		depth := r.N(4, 5)
		var rec func(st *specStore, w *MapWorld, d int) bool
		rec = func(st *specStore, w *MapWorld, d int) bool {
			if d == 0 {
				return true
			}
			for mi, mu := range alpha {
				if d == depth && mi != job%nAlpha {
					continue
				}
				s2, w2 := st.clone(), w.clone()
				svc := newService(s2, nil, nil)
				what := fmt.Sprintf("prefixes %d,%d: %s", t.a, t.b, history(w2, &mu))
				if err := w2.mutate(svc, ref, mu); err != nil {
					r.Failf("%s: %v", what, err)
					return false
				}
				r.Case("short", "%s", what)
				if !ckMapHead(r, what, svc, ref, w2, 0) {
					return false
				}
				if d == 1 { // leaves of the search: every size
					for n := 1; n <= w2.Size(); n++ {
						if !ckMapHead(r, what, svc, ref, w2, n) {
							return false
						}
					}
				}
				for _, k := range keys {
					if !ckMapGet(r, what, svc, ref, w2, k, 0) {
						return false
					}
				}
				if !rec(s2, w2, d-1) {
					return false
				}
			}
			return true
		}
		rec(&specStore{}, &MapWorld{}, depth)
	})
}

func history(w *MapWorld, next *spec.Mut) string {
	s := ""
	for i := range w.Muts {
		s += showMut(&w.Muts[i]) + " "
	}
	if next != nil {
		s += showMut(next)
	}
	return s
}

func showMut(m *spec.Mut) string {
	p := ""
	if m.Action == "update" {
		p = fmt.Sprintf(",if %.4x", m.Prev)
	}
	return fmt.Sprintf("%s(%s,%s%s)", m.Action, m.Key, trunc(string(m.LI), 12), p)
}

func c06bad(r *R, what string, svc Svc, ref *pb.MapRef, w *MapWorld) bool {
	for _, s := range badSizes(w.Size()) {
		_, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: ref, TreeSize: s})
		r.Saw("map-bad-size")
		if err == nil || code(err) != codes.InvalidArgument {
			r.Failf("%s: head for size %d of %d: %v", what, s, w.Size(), err)
			return false
		}
		_, err = svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: ref, TreeSize: s, Key: []byte("k")})
		if err == nil || code(err) != codes.InvalidArgument {
			r.Failf("%s: value for size %d of %d: %v", what, s, w.Size(), err)
			return false
		}
	}
	return true
}

func c06random(r *R) {
	bigMap(r, "values", r.N(2500, 12000), r.N(900, 5000), func(svc Svc, ref *pb.MapRef, w *MapWorld, rng *rand.Rand, touched []byte) bool {
		what := fmt.Sprintf("map of many keys, %d mutations", w.Size())
		ok := ckMapHead(r, what, svc, ref, w, 0) && ckMapGet(r, what, svc, ref, w, touched, 0)
		keys := w.Keys()
		for k := 0; k < 8 && ok; k++ {
			n := []int{0, 1 + rng.Intn(w.Size()), w.Size() - rng.Intn(min(w.Size(), 5)), 1 << uint(rng.Intn(13))}[rng.Intn(4)]
			if n > w.Size() {
				n = w.Size()
			}
			key := []byte(keys[rng.Intn(len(keys))])
			if rng.Intn(5) == 0 {
				key = []byte(fmt.Sprint("key number ", -1-rng.Intn(100000)))
			}
			ok = ckMapHead(r, what, svc, ref, w, n) && ckMapGet(r, what, svc, ref, w, key, n)
		}
		return ok
	})
	r.Par(r.N(42, 300), func(round int) {
		rng := r.Rand(fmt.Sprint("rand", round))
		kind := []string{"memory", "spec", "memory", "bolt", "spec", "badger", "memory"}[round%7]
		st, cl := newStore(r, kind)
		n := r.N(60, 150)
		if kind == "bolt" {
			n = r.N(25, 80)
		}
		isBatch := round%5 == 4
		var mut verifiable.MutatorService
		if isBatch {
			mut = newBatch(st, 1+rng.Intn(20), rng.Intn(10), time.Duration(rng.Intn(3))*time.Millisecond)
		}
		svc := newService(st, mut, nil)
		ref := mref("6", "m")
		vm := hl(svc, "6", "").VerifiableMap("m")
		w := &MapWorld{}
		g := newMapGen(rng, 1+rng.Intn(14))
		what := fmt.Sprintf("%s map, round %d", kind, round)
		// an empty map
		h, err := vm.TreeHead(bg, 0)
		if err != nil || h.MutationLog == nil || h.MutationLog.TreeSize != 0 || len(h.MutationLog.RootHash) != 0 || !bytes.Equal(h.RootHash, spec.Defaults[0]) {
			r.Failf("%s: empty map has head %v, %v", what, h, err)
		}
		ok := ckMapGet(r, what+", empty", svc, ref, w, []byte("x"), 0) && c06bad(r, what, svc, ref, w)
		for i := 0; i < n && ok; i++ {
			mu := g.next(&w.MapModel)
			if i%3 == 0 && !mu.NoVal || mu.Action == "delete" { // the convenience wrapper
				var pr verifiable.MapUpdatePromise
				ld := &pb.LeafData{LeafInput: mu.LI, ExtraData: mu.ED, Format: pb.DataFormat(mu.Format)}
				switch mu.Action {
				case "set":
					pr, err = vm.Set(bg, mu.Key, ld)
				case "delete":
					pr, err = vm.Delete(bg, mu.Key)
				case "update":
					pr, err = vm.Update(bg, mu.Key, ld, mu.Prev)
				}
				if err == nil {
					w.Apply(mu)
					w.Acked = append(w.Acked, pr.LeafHash())
				}
			} else {
				err = w.mutate(svc, ref, mu)
			}
			if err != nil {
				r.Failf("%s: %s: %v", what, showMut(&mu), err)
				ok = false
				break
			}
			r.Case("long", "%s step %d %s", what, i, showMut(&mu))
			if isBatch {
				continue
			}
			ok = ckMapHead(r, what+" after "+showMut(&mu), svc, ref, w, 0) && ckMapGet(r, what+" after "+showMut(&mu), svc, ref, w, mu.Key, 0)
			if ok && i%16 == 0 {
				ok = ckMap(r, what, svc, ref, w, rng, 4) && c06bad(r, what, svc, ref, w)
			}
		}
		if ok && isBatch && !waitFor(r, func() bool {
			h, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: ref})
			return err == nil && h.MutationLog.TreeSize >= int64(w.Size())
		}) {
			r.Failf("%s: mutations are not applied after minutes", what)
			ok = false
		}
		if ok {
			extra := 12
			if kind == "spec" {
				extra = 1000
			}
			ok = ckMapAll(r, what, svc, ref, w, rng, extra) && c06bad(r, what, svc, ref, w)
		}
		// the same contents reached another way have the same root
		if ok {
			st2, cl2 := newStore(r, "spec")
			svc2 := newService(st2, nil, nil)
			w2 := &MapWorld{}
			at := w.At(w.Size())
			var ks []string
			for k := range at {
				ks = append(ks, k)
			}
			for i := range ks {
				j := rng.Intn(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
			for _, k := range ks {
				if rng.Intn(3) == 0 {
					w2.mutate(svc2, ref, spec.Mut{Action: "set", Key: append([]byte("tmp"), k...), LI: []byte("t")})
				}
				w2.mutate(svc2, ref, spec.Mut{Action: "set", Key: []byte(k), LI: at[k]})
			}
			for _, k := range w2.Keys() {
				if _, keep := at[k]; !keep {
					w2.mutate(svc2, ref, spec.Mut{Action: "delete", Key: []byte(k), NoVal: true})
				}
			}
			r.Saw("same-contents")
			if len(at) > 0 {
				h2, err := svc2.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: ref})
				if err != nil || !bytes.Equal(h2.RootHash, w.Root(w.Size())) {
					r.Failf("%s: the same contents reached another way have root %v, %v, not %x", what, h2, err, w.Root(w.Size()))
				}
			}
			cl2()
		}
		cl()
	})
}

func c07(r *R) {
	r.Par(r.N(21, 160), func(round int) {
		rng := r.Rand(fmt.Sprint("r", round))
		kind := []string{"memory", "spec", "memory", "bolt", "badger", "memory", "spec"}[round%7]
		st, cl := newStore(r, kind)
		svc := newService(st, nil, nil)
		ref := mref("7", "m")
		vm := hl(svc, "7", "").VerifiableMap("m")
		w := &MapWorld{}
		n := 10 + rng.Intn(30)
		if r.Thorough() {
			n += 40
		}
		var g *mapGen
		if round%2 == 0 {
			g = newMapGen(rng, 1+rng.Intn(10))
		} else if round%4 == 1 { // far down
			g = newMapGen(rng, 1)
			for i := 0; i < 3; i++ {
				g.keys = append(g.keys, deepKeys(rng)...)
			}
		} else { // a ladder: one key per depth along one path
			g = newMapGen(rng, 1)
			base := []byte("base1")
			g.keys = [][]byte{base}
			for d := 0; d < r.N(17, 19); d++ {
				g.keys = append(g.keys, collide(base, d, 5))
			}
		}
		what := fmt.Sprintf("%s round %d", kind, round)
		ok := true
		for i := 0; i < n && ok; i++ {
			if err := w.mutate(svc, ref, g.next(&w.MapModel)); err != nil {
				r.Failf("%s: %v", what, err)
				ok = false
			}
		}
		keys := [][]byte{[]byte("never"), {}, {0}, make([]byte, 1000), collide(g.keys[len(g.keys)-1], 11, 9)}
		for _, k := range w.Keys() {
			keys = append(keys, []byte(k))
		}
		for _, k := range g.keys {
			if w.Value(k, w.Size()) == nil {
				keys = append(keys, k)
			}
		}
		for sz := 0; sz <= w.Size() && ok; sz++ {
			at := sz
			if sz == 0 {
				at = w.Size()
			}
			con := spec.MakeContents(w.At(at))
			for _, k := range keys {
				if !ok {
					break
				}
				r.Case("lookup", "%s key %x size %d", what, k, sz)
				ok = ckMapGet(r, what, svc, ref, w, k, sz) && c07one(r, what, svc, ref, vm, w, con, k, sz, at, keys)
			}
		}
		cl()
	})
	// an empty map
	st, _ := newStore(r, "memory")
	svc := newService(st, nil, nil)
	for _, k := range []string{"", "a", "base1"} {
		v, err := svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: mref("7", "none"), Key: []byte(k)})
		r.Saw("empty-map-get")
		if err != nil || len(v.Value.GetLeafInput()) != 0 || v.TreeSize != 0 || !spec.VerifyMap([]byte(k), nil, v.AuditPath, spec.Defaults[0]) {
			r.Failf("value of %q in an empty map: %v %v", k, v, err)
			continue
		}
		h, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mref("7", "none")})
		if err != nil || verifiable.VerifyMapInclusionProof(v, []byte(k), h) != nil {
			r.Failf("value of %q in an empty map does not verify against its head %v %v", k, h, err)
		}
	}
}

func c07one(r *R, what string, svc Svc, ref *pb.MapRef, vm *verifiable.Map, w *MapWorld, con spec.Contents, k []byte, sz, at int, keys [][]byte) bool {
	resp, err := svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: ref, TreeSize: int64(sz), Key: k})
	if err != nil {
		r.Failf("%s: %v", what, err)
		return false
	}
	li := w.Value(k, at)
	if len(resp.AuditPath) > 256 {
		r.Failf("%s: proof for %x at %d has %d elements", what, k, at, len(resp.AuditPath))
		return false
	}
	sib := con.Siblings(spec.PathOf(k))
	for i := 0; i < 256; i++ {
		var p []byte
		if i < len(resp.AuditPath) {
			p = resp.AuditPath[i]
		}
		r.Saw("sibling")
		if len(p) == 0 {
			if len(sib[i]) != 0 {
				r.Failf("%s: proof for %x at %d has nothing at depth %d, where there is %x", what, k, at, i, sib[i])
				return false
			}
			continue
		}
		want := sib[i]
		if len(want) == 0 {
			want = spec.Defaults[i+1]
		}
		if !bytes.Equal(p, want) {
			r.Failf("%s: proof for %x at %d has %x at depth %d, not %x", what, k, at, p, i, want)
			return false
		}
	}
	head, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: ref, TreeSize: int64(at)})
	if err != nil {
		r.Failf("%s: head at %d: %v", what, at, err)
		return false
	}
	r.Saw("verified")
	if err := verifiable.VerifyMapInclusionProof(resp, k, head); err != nil {
		r.Failf("%s: proof for %x at %d does not verify against the head: %v", what, k, at, err)
		return false
	}
	v, err := vm.VerifiedGet(bg, k, &verifiable.MapTreeState{MapTreeHead: head})
	if err != nil || !bytes.Equal(v.GetLeafInput(), li) {
		r.Failf("%s: VerifiedGet of %x at %d is %s, %v, not %x", what, k, at, showLD(v), err, li)
		return false
	}
	// for nothing else
	reject := func(q string, p *pb.MapGetValueResponse, key []byte, h *pb.MapTreeHashResponse) bool {
		r.Saw("rejected")
		if verifiable.VerifyMapInclusionProof(p, key, h) == nil {
			r.Failf("%s: proof for %x at %d also verifies for %s", what, k, at, q)
			return false
		}
		return true
	}
	for _, o := range [][]byte{nil, []byte("v1"), append(cp(li), 0), spec.LeafHash(li)} {
		if !bytes.Equal(o, li) && !reject(fmt.Sprintf("value %x", o), &pb.MapGetValueResponse{TreeSize: resp.TreeSize, AuditPath: resp.AuditPath, Value: &pb.LeafData{LeafInput: o}}, k, head) {
			return false
		}
	}
	for _, o := range keys {
		if !bytes.Equal(o, k) && !spec.VerifyMap(o, li, resp.AuditPath, w.Root(at)) && !reject(fmt.Sprintf("key %x", o), resp, o, head) {
			return false
		}
		if !bytes.Equal(o, k) && len(li) > 0 && spec.VerifyMap(o, li, resp.AuditPath, w.Root(at)) {
			r.Failf("%s: the same path proves value %x for %x and %x", what, li, k, o)
			return false
		}
	}
	for s := at - 2; s <= at+2; s++ {
		if s < 1 || s > w.Size() || s == at {
			continue
		}
		h := &pb.MapTreeHashResponse{RootHash: w.Root(s), MutationLog: lth(at, nil)}
		if !bytes.Equal(w.Root(s), w.Root(at)) && !reject(fmt.Sprintf("the root for size %d", s), resp, k, h) {
			return false
		}
		h = &pb.MapTreeHashResponse{RootHash: w.Root(at), MutationLog: lth(s, nil)}
		if !reject(fmt.Sprintf("size %d", s), resp, k, h) {
			return false
		}
	}
	return true
}

func c08(r *R) {
	bigMap(r, "logs", r.N(2500, 12000), r.N(900, 5000), func(svc Svc, ref *pb.MapRef, w *MapWorld, rng *rand.Rand, touched []byte) bool {
		what := fmt.Sprintf("map of many keys, %d mutations", w.Size())
		if w.Size()%500 != 1 {
			return true
		}
		if !ckMapLogs(r, what, svc, ref, w) {
			return false
		}
		for _, x := range []struct {
			t pb.LogType
			m *LogModel
		}{{tMut, &w.Mut}, {tHead, &w.Heads}} {
			for k := 0; k < 40; k++ {
				s := 1 + rng.Intn(x.m.Len())
				l := &pb.LogRef{Account: ref.Account, Name: ref.Name, LogType: x.t}
				if !ckHead(r, what, svc, l, x.m, s) || !ckInclusion(r, what, svc, l, x.m, rng.Intn(s), s, k%2 == 0) {
					return false
				}
			}
		}
		return true
	})
	r.Par(r.N(60, 600), func(round int) {
		rng := r.Rand(fmt.Sprint("r", round))
		kind := []string{"memory", "spec", "memory", "bolt", "badger"}[round%5]
		st, cl := newStore(r, kind)
		n := 40 + rng.Intn(30)
		if kind == "bolt" {
			n = 15
		}
		isBatch := round%6 == 5
		var mut verifiable.MutatorService
		if isBatch {
			mut = newBatch(st, 1+rng.Intn(20), rng.Intn(10), time.Duration(rng.Intn(3))*time.Millisecond)
		}
		svc := newService(st, mut, nil)
		ref := mref("8", "m")
		w := &MapWorld{}
		g := newMapGen(rng, 1+rng.Intn(8))
		what := fmt.Sprintf("%s round %d", kind, round)
		ok := ckMapLogs(r, what, svc, ref, w)
		for i := 0; i < n && ok; i++ {
			mu := g.next(&w.MapModel)
			switch rng.Intn(12) {
			case 0: // a value that looks like an entry already recorded
				if w.Mut.Len() > 0 {
					e := w.Mut.Entries[rng.Intn(w.Mut.Len())]
					mu = spec.Mut{Action: "set", Key: mu.Key, LI: cp(e.LeafInput), ED: []byte("impostor")}
				}
			case 1:
				if w.Heads.Len() > 0 {
					e := w.Heads.Entries[rng.Intn(w.Heads.Len())]
					mu = spec.Mut{Action: "set", Key: mu.Key, LI: cp(e.LeafInput), ED: cp(e.ExtraData), Format: 1}
				}
			case 2: // repeat
				if w.Size() > 0 {
					mu = w.Muts[rng.Intn(w.Size())]
				}
			case 3:
				mu = spec.Mut{Action: "set", Key: []byte("a key with \x00 \xff bytes \u20ac"), LI: randBytes(rng, 20), ED: []byte(`{"a":["***NONCE***",1]}`), Format: 1}
			case 4: // set and update carry a previous leaf hash; only update heeds it
				mu = spec.Mut{Action: "set", Key: mu.Key, LI: []byte(fmt.Sprint(i)), Prev: randBytes(rng, 32)}
			case 5:
				mu = spec.Mut{Action: "delete", Key: mu.Key, LI: []byte("pointless"), ED: []byte("x"), Prev: []byte{1}}
			}
			if err := w.mutate(svc, ref, mu); err != nil {
				r.Failf("%s: %s: %v", what, showMut(&mu), err)
				ok = false
				break
			}
			r.Case("step", "%s %d %s", what, i, showMut(&mu))
			if isBatch {
				continue
			}
			ok = ckMapLogs(r, what, svc, ref, w)
			// the heads served for the last size are those recorded
			if ok {
				ok = ckMapHead(r, what, svc, ref, w, w.Size()) && ckHead(r, what+" mutation log", svc, lref("8", "m", tMut), &w.Mut, w.Size()) && ckHead(r, what+" tree head log", svc, lref("8", "m", tHead), &w.Heads, w.Size())
				h, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: ref, TreeSize: int64(w.Size())})
				if ok && (err != nil || !bytes.Equal(h.MutationLog.RootHash, w.Mut.Tree.Root(w.Size()))) {
					r.Failf("%s: map head's mutation log root is %v, not %x, %v", what, h, w.Mut.Tree.Root(w.Size()), err)
					ok = false
				}
			}
			// neither log takes additions
			for _, t := range []pb.LogType{tMut, tHead} {
				ld := genEntry(rng, i)
				if w.Mut.Len() > 0 && rng.Intn(3) == 0 {
					ld = w.Mut.Entries[0]
				}
				_, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lref("8", "m", t), Value: ld})
				r.Saw("direct-addition")
				if err == nil {
					r.Failf("%s: %v took a direct addition", what, t)
					ok = false
				}
				if lg := hl(svc, "8", "").VerifiableMap("m"); t == tMut {
					_, err = lg.MutationLog().Add(bg, ld)
				} else {
					_, err = lg.TreeHeadLog().Add(bg, ld)
				}
				if err == nil {
					r.Failf("%s: %v took a direct addition", what, t)
					ok = false
				}
			}
		}
		if ok && isBatch && !waitFor(r, func() bool {
			h, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: ref})
			return err == nil && h.MutationLog.TreeSize >= int64(w.Size())
		}) {
			r.Failf("%s: mutations are not applied after minutes", what)
			ok = false
		}
		// a user log of the same name takes entries without a trace in the map's
		if ok {
			m := &LogModel{}
			for i := 0; i < 5; i++ {
				if err := addEntry(svc, lref("8", "m", tLog), m, genEntry(rng, i)); err != nil {
					r.Failf("%s: %v", what, err)
				}
			}
			if w.Mut.Len() > 0 {
				addEntry(svc, lref("8", "m", tLog), m, w.Mut.Entries[0])
			}
		}
		if ok {
			ckMapAll(r, what, svc, ref, w, rng, 8)
		}
		cl()
	})
}
