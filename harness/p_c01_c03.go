package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
)

func init() {
	props["C01"] = &property{level: "exploration", run: c01,
		rule:        "Logs of all three kinds on all storages are grown entry by entry with duplicates, empty, binary and large entries; after every step heads and ranges are compared with an RFC 6962 model, and out-of-range requests must be refused. A case is a (log, size, request); distinct by its text.",
		assumptions: []string{"SHA-256 collisions do not occur", "the object hash stand-in is used wherever the repository uses objecthash"}}
	props["C02"] = &property{level: "exploration", run: c02,
		rule:        "Every (index, size) pair up to a bound by index and by hash, sampled pairs of a large log, and hostile requests, against recursive RFC 6962 audit paths. A case is a (log, index, size, way of asking).",
		assumptions: []string{"SHA-256 collisions do not occur"}}
	props["C03"] = &property{level: "exploration", run: c03,
		rule:        "Every pair of sizes up to a bound, sampled pairs of a large log, and hostile requests, against recursive RFC 6962 consistency paths. A case is a (log, from, to).",
		assumptions: []string{"SHA-256 collisions do not occur"}}
}

// genEntry makes the i'th entry of a log.
func genEntry(rng *rand.Rand, i int) *pb.LeafData {
	switch x := rng.Intn(40); {
	case x == 0:
		return &pb.LeafData{} // the same every time
	case x == 1:
		return &pb.LeafData{LeafInput: randBytes(rng, 1+rng.Intn(2000))}
	case x == 2:
		return &pb.LeafData{LeafInput: []byte{byte(rng.Intn(4))}} // duplicates likely
	case x < 8:
		return &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", i)), ExtraData: []byte(fmt.Sprintf(`{"i":%d}`, i)), Format: pb.DataFormat_JSON}
	case x < 10:
		return &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", i)), ExtraData: randBytes(rng, rng.Intn(200))}
	case x < 12:
		// leaf input that looks like an interior node
		return &pb.LeafData{LeafInput: append([]byte{1}, randBytes(rng, 64)...)}
	default:
		return &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", i))}
	}
}

func addEntry(svc Svc, ref *pb.LogRef, m *LogModel, ld *pb.LeafData) error {
	resp, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: ld})
	if err != nil {
		return err
	}
	if !bytes.Equal(resp.LeafHash, spec.LeafHash(ld.LeafInput)) {
		return fmt.Errorf("acknowledged with leaf hash %x, not %x", resp.LeafHash, spec.LeafHash(ld.LeafInput))
	}
	m.Add(ld)
	return nil
}

// badSizes are sizes that a log or map of size n hasn't got.
func badSizes(n int) []int64 {
	return []int64{-1, -2, -int64(n) - 1, int64(n) + 1, int64(n) + 2, 2*int64(n) + 1, int64(n) + 256, math.MaxInt32, 1 << 32, (1 << 32) + int64(n), math.MaxInt64, math.MinInt64, math.MinInt64 + int64(n), 1 << 62}
}

func c01bad(r *R, what string, svc Svc, ref *pb.LogRef, n int) bool {
	ok := true
	refuse := func(q string, err error, data bool) {
		r.Saw("log-bad-request")
		if err == nil {
			r.Failf("%s: %s of a log of size %d was answered", what, q, n)
			ok = false
		} else if code(err) != codes.InvalidArgument {
			r.Failf("%s: %s of a log of size %d was refused with %v, not as an invalid argument", what, q, n, err)
			ok = false
		}
	}
	for _, s := range badSizes(n) {
		_, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ref, TreeSize: s})
		refuse(fmt.Sprintf("head for size %d", s), err, false)
		for _, f := range []int64{0, 1, int64(n) - 1, s - 1} {
			_, err = svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: f, Last: s})
			refuse(fmt.Sprintf("entries [%d,%d)", f, s), err, true)
		}
		for _, l := range []int64{0, 1, int64(n), s, s + 1} {
			_, err = svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: s, Last: l})
			refuse(fmt.Sprintf("entries [%d,%d)", s, l), err, true)
		}
	}
	for _, f := range [][2]int64{{int64(n), 0}, {int64(n), int64(n)}} {
		_, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: f[0], Last: f[1]})
		refuse(fmt.Sprintf("entries [%d,%d)", f[0], f[1]), err, true)
	}
	if n > 2 {
		_, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: 2, Last: 1})
		refuse("entries [2,1)", err, true)
	}
	return ok
}

type stepLog struct {
	name string
	ref  *pb.LogRef
	m    *LogModel
}

func c01(r *R) {
	// user logs, step by step
	for _, cfg := range []struct {
		kind string
		n    int
	}{{"memory", r.N(140, 400)}, {"spec", r.N(70, 140)}, {"bolt", r.N(40, 140)}, {"badger", r.N(40, 140)}} {
		rng := r.Rand("grow" + cfg.kind)
		st, cl := newStore(r, cfg.kind)
		svc := newService(st, nil, nil)
		ref := lref("7", "grow", tLog)
		what := cfg.kind + " log"
		m := &LogModel{}
		if !ckHead(r, what, svc, ref, m, 0) || !c01bad(r, what, svc, ref, 0) {
			cl()
			continue
		}
		log := hl(svc, "7", "").VerifiableLog("grow")
		for i := 0; m.Len() < cfg.n; i++ {
			before := m.Len()
			if err := addEntry(svc, ref, m, genEntry(rng, i)); err != nil {
				r.Failf("%s: adding at size %d: %v", what, before, err)
				break
			}
			r.Case("grow", "%s step %d size %d", what, i, m.Len())
			ok := ckHead(r, what, svc, ref, m, 0)
			for s := 1; ok && s <= m.Len(); s++ {
				ok = ckHead(r, what, svc, ref, m, s)
			}
			ok = ok && ckRange(r, what, svc, ref, m, 0, 0)
			for k := 0; ok && k < 3; k++ {
				a := rng.Intn(m.Len())
				ok = ckRange(r, what, svc, ref, m, a, a+1+rng.Intn(m.Len()-a))
			}
			if ok && (i%9 == 0 || m.Len() < 6) {
				ok = c01bad(r, what, svc, ref, m.Len())
			}
			if ok && (m.Len() == 17 || m.Len() == 40) {
				for a := 0; a < m.Len() && ok; a++ {
					for b := a + 1; b <= m.Len() && ok; b++ {
						r.Case("range", "%s [%d,%d)", what, a, b)
						ok = ckRange(r, what, svc, ref, m, a, b)
					}
				}
			}
			if ok {
				k := rng.Intn(m.Len())
				e, err := log.Entry(bg, int64(k))
				if err != nil || !sameLD(e, m.Entries[k]) {
					r.Failf("%s: Entry(%d) = %s, %v, not %s", what, k, showLD(e), err, showLD(m.Entries[k]))
					ok = false
				}
				h, err := log.TreeHead(bg, verifiable.Head)
				if err != nil || h.TreeSize != int64(m.Len()) {
					r.Failf("%s: TreeHead(Head) = %v, %v", what, h, err)
					ok = false
				}
			}
			if !ok {
				break
			}
		}
		cl()
		r.Stop()
	}

	// a log long enough for several fetch batches
	{
		rng := r.Rand("long")
		st, cl := newStore(r, "memory")
		svc := newService(st, nil, nil)
		ref := lref("7", "long", tLog)
		m := &LogModel{}
		target := r.N(1300, 5000)
		var ok = true
		for i := 0; m.Len() < target && ok; i++ {
			if err := addEntry(svc, ref, m, genEntry(rng, i)); err != nil {
				r.Failf("long log: adding: %v", err)
				ok = false
			}
			ok = ok && ckHead(r, "long log", svc, ref, m, 0)
		}
		for s := 1; s <= m.Len() && ok; s++ {
			ok = ckHead(r, "long log", svc, ref, m, s)
		}
		log := hl(svc, "7", "").VerifiableLog("long")
		for k := 0; k < r.N(30, 200) && ok; k++ {
			a := rng.Intn(m.Len())
			b := a + 1 + rng.Intn(m.Len()-a)
			switch k {
			case 0:
				a, b = 0, m.Len()
			case 1:
				a, b = 0, 500
			case 2:
				a, b = 0, 501
			case 3:
				a, b = 1, 1001
			case 4:
				a, b = m.Len()-1, m.Len()
			}
			r.Case("long-range", "[%d,%d) of %d", a, b, m.Len())
			ok = ckRange(r, "long log", svc, ref, m, a, b)
			i := a
			for e := range log.Entries(bg, int64(a), int64(b)) {
				r.Saw("streamed-entry")
				if i >= b || !sameLD(e, m.Entries[i]) {
					r.Failf("long log: Entries(%d,%d) gave %s at %d", a, b, showLD(e), i)
					ok = false
					break
				}
				i++
			}
			if ok && i != b {
				r.Failf("long log: Entries(%d,%d) ended at %d", a, b, i)
				ok = false
			}
		}
		cl()
	}

	// large entries
	{
		rng := r.Rand("large")
		for _, kind := range []string{"memory", "bolt", "badger"} {
			st, cl := newStore(r, kind)
			svc := newService(st, nil, nil)
			ref := lref("7", "large", tLog)
			m := &LogModel{}
			for i, sz := range []int{1, 65535, 65536, 70000, 1 << 20} {
				ld := &pb.LeafData{LeafInput: randBytes(rng, sz), ExtraData: randBytes(rng, sz/2)}
				r.Case("large", "%s %d bytes", kind, sz)
				if err := addEntry(svc, ref, m, ld); err != nil {
					r.Failf("%s: adding an entry of %d bytes: %v", kind, sz, err)
					break
				}
				if !ckHead(r, "large", svc, ref, m, 0) || !ckRange(r, "large", svc, ref, m, i, i+1) || !ckRange(r, "large", svc, ref, m, 0, 0) {
					break
				}
			}
			cl()
		}
	}

	// mutation and tree head logs
	for _, kind := range []string{"memory", "spec", "bolt"} {
		rng := r.Rand("maplogs" + kind)
		st, cl := newStore(r, kind)
		svc := newService(st, nil, nil)
		w := &MapWorld{}
		ref := mref("7", "m")
		g := newMapGen(rng, 6)
		n := r.N(70, 300)
		if kind == "bolt" {
			n = r.N(20, 100)
		}
		logs := []stepLog{{"mutation log", lref("7", "m", tMut), &w.Mut}, {"tree head log", lref("7", "m", tHead), &w.Heads}}
		for _, l := range logs {
			ckHead(r, kind+" "+l.name, svc, l.ref, l.m, 0)
			c01bad(r, kind+" "+l.name, svc, l.ref, 0)
		}
		for i := 0; i < n; i++ {
			if err := w.mutate(svc, ref, g.next(&w.MapModel)); err != nil {
				r.Failf("%s map mutation: %v", kind, err)
				break
			}
			r.Case("map-log", "%s %d", kind, i)
			if !ckMapLogs(r, kind, svc, ref, w) {
				break
			}
			ok := true
			for _, l := range logs {
				for s := 1; s <= l.m.Len() && ok; s++ {
					ok = ckHead(r, kind+" "+l.name, svc, l.ref, l.m, s)
				}
				a := rng.Intn(l.m.Len())
				ok = ok && ckRange(r, kind+" "+l.name, svc, l.ref, l.m, a, a+1+rng.Intn(l.m.Len()-a))
				if ok && i%13 == 0 {
					ok = c01bad(r, kind+" "+l.name, svc, l.ref, l.m.Len())
				}
			}
			if !ok {
				break
			}
		}
		cl()
		r.Stop()
	}

	bigLog(r, "heads", r.N(140000, 1100000), func(svc Svc, l stepLog, rng *rand.Rand, sizes []int) bool {
		for _, s := range sizes {
			a := s - 1 - rng.Intn(min(s, 40))
			if !ckHead(r, l.name, svc, l.ref, l.m, s) || !ckRange(r, l.name, svc, l.ref, l.m, a, s) {
				return false
			}
		}
		if n := l.m.Len(); n&(n-1) == 0 || n%50000 == 0 { // all of it
			r.Case("all", "of %d", n)
			if !ckRange(r, l.name, svc, l.ref, l.m, 0, 0) || !ckRange(r, l.name, svc, l.ref, l.m, rng.Intn(min(n, 3)), n) {
				return false
			}
			i := 0
			for e := range hl(svc, l.ref.Account.Id, "").VerifiableLog(l.ref.Name).Entries(bg, 0, int64(n)) {
				if i >= n || !sameLD(e, l.m.Entries[i]) {
					r.Failf("%s: Entries(0,%d) gave %s at %d", l.name, n, showLD(e), i)
					return false
				}
				i++
			}
			if i != n {
				r.Failf("%s: Entries(0,%d) ended at %d", l.name, n, i)
				return false
			}
			r.SawN("streamed-entry", int64(n))
		}
		return true
	})

	// several logs growing side by side
	{
		rng := r.Rand("many")
		st, cl := newStore(r, "memory")
		svc := newService(st, nil, nil)
		var logs []stepLog
		for i := 0; i < 8; i++ {
			name := fmt.Sprintf("log%d", i)
			logs = append(logs, stepLog{name, lref("7", name, tLog), &LogModel{}})
		}
		for i := 0; i < r.N(600, 4000); i++ {
			l := logs[rng.Intn(len(logs))]
			if err := addEntry(svc, l.ref, l.m, genEntry(rng, i)); err != nil {
				r.Failf("%s: %v", l.name, err)
				break
			}
			l2 := logs[rng.Intn(len(logs))]
			r.Case("interleaved", "%s %d", l2.name, l2.m.Len())
			if !ckLog(r, l2.name, svc, l2.ref, l2.m, rng) {
				break
			}
		}
		cl()
	}
}

// proofLogs makes logs of all kinds for the proof checks.
func proofLogs(r *R, user, maps int) (Svc, []stepLog) {
	rng := r.Rand("prooflogs")
	st, _ := newStore(r, "memory")
	svc := newService(st, nil, nil)
	ref := lref("3", "p", tLog)
	m := &LogModel{}
	for i := 0; m.Len() < user; i++ {
		if err := addEntry(svc, ref, m, genEntry(rng, i)); err != nil {
			r.Failf("adding: %v", err)
			return svc, nil
		}
	}
	w := &MapWorld{}
	g := newMapGen(rng, 6)
	for i := 0; i < maps; i++ {
		if err := w.mutate(svc, mref("3", "pm"), g.next(&w.MapModel)); err != nil {
			r.Failf("mutating: %v", err)
			return svc, nil
		}
	}
	if !ckMapLogs(r, "map", svc, mref("3", "pm"), w) {
		return svc, nil
	}
	return svc, []stepLog{{"log", ref, m}, {"mutation log", lref("3", "pm", tMut), &w.Mut}, {"tree head log", lref("3", "pm", tHead), &w.Heads}}
}

func c02(r *R) {
	rng := r.Rand("c02")
	svc, logs := proofLogs(r, r.N(130, 300), r.N(66, 140))
	acc := hl(svc, "3", "")
	vm := acc.VerifiableMap("pm")
	hls := []*verifiable.Log{acc.VerifiableLog("p"), vm.MutationLog(), vm.TreeHeadLog()}
	for li, l := range logs {
		n := l.m.Len()
		ok := true
		for s := 1; s <= n && ok; s++ {
			head := &pb.LogTreeHashResponse{TreeSize: int64(s), RootHash: l.m.Tree.Root(s)}
			for i := 0; i < s && ok; i++ {
				r.Case("pair", "%s %d in %d", l.name, i, s)
				ok = ckInclusion(r, l.name, svc, l.ref, l.m, i, s, true) && ckInclusion(r, l.name, svc, l.ref, l.m, i, s, false)
				if ok && (s < 40 || rng.Intn(10) == 0) {
					r.Saw("verified-inclusion")
					if err := hls[li].VerifyInclusion(bg, head, l.m.Tree.Leaves[i]); err != nil {
						r.Failf("%s: VerifyInclusion of %d in %d: %v", l.name, i, s, err)
						ok = false
					}
					p, err := hls[li].InclusionProofByIndex(bg, int64(s), int64(i))
					if err != nil || verifiable.VerifyLogInclusionProof(p, l.m.Tree.Leaves[i], head) != nil {
						r.Failf("%s: InclusionProofByIndex %d in %d does not verify: %v", l.name, i, s, err)
						ok = false
					}
				}
			}
			// not there yet
			for i := s; i < n && ok; i++ {
				if s > 20 && rng.Intn(8) != 0 {
					continue
				}
				for _, req := range []*pb.LogInclusionProofRequest{{Log: l.ref, TreeSize: int64(s), LeafIndex: int64(i)}, {Log: l.ref, TreeSize: int64(s), MtlHash: l.m.Tree.Leaves[i]}} {
					r.Saw("beyond-size")
					if p, err := svc.LogInclusionProof(bg, req); err == nil {
						r.Failf("%s: proof for index %d in size %d: %v", l.name, i, s, p)
						ok = false
					}
				}
			}
		}
		for i := 0; i < n && ok; i++ { // n = 0 is the current size
			ok = ckInclusion(r, l.name, svc, l.ref, l.m, i, 0, i%2 == 0)
		}
		if !ok {
			continue
		}
		c02bad(r, l, svc, rng)
		// both given: the hash decides
		for k := 0; k < 20; k++ {
			i, j := rng.Intn(n), rng.Intn(n)
			p, err := svc.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: l.ref, MtlHash: l.m.Tree.Leaves[i], LeafIndex: int64(j)})
			r.Saw("hash-and-index")
			if err != nil || p.LeafIndex != int64(i) || !samePath(p.AuditPath, l.m.Tree.Inclusion(i, n)) {
				r.Failf("%s: proof by hash of %d with index %d also given: %v %v", l.name, i, j, p, err)
				break
			}
		}
	}
	r.Stop()

	// a large log, after and while it grows; sizes around powers of two
	st, _ := newStore(r, "memory")
	svc = newService(st, nil, nil)
	l := stepLog{"large log", lref("3", "large", tLog), &LogModel{}}
	c02bad(r, l, svc, rng)
	target := r.N(1050, 4200)
	ok := true
	for i := 0; l.m.Len() < target && ok; i++ {
		if err := addEntry(svc, l.ref, l.m, genEntry(rng, i)); err != nil {
			r.Failf("large log: %v", err)
			return
		}
		n := l.m.Len()
		for k := 0; k < 3 && ok; k++ {
			s := 1 + rng.Intn(n)
			x := rng.Intn(s)
			r.Case("large", "%d in %d", x, s)
			ok = ckInclusion(r, l.name, svc, l.ref, l.m, x, s, k == 0)
		}
		ok = ok && ckInclusion(r, l.name, svc, l.ref, l.m, n-1, 0, true) && ckInclusion(r, l.name, svc, l.ref, l.m, 0, n, false)
	}
	n := l.m.Len()
	for _, s := range []int{255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1025, n - 1, n} {
		for x := 0; x < s && ok; x++ {
			r.Case("large-pow2", "%d in %d", x, s)
			ok = ckInclusion(r, l.name, svc, l.ref, l.m, x, s, x%2 == 0)
		}
	}
	c02bad(r, l, svc, rng)
	bigLog(r, "inclusion", r.N(140000, 1100000), func(svc Svc, l stepLog, rng *rand.Rand, sizes []int) bool {
		for i, s := range sizes {
			x := []int{rng.Intn(s), s - 1, min(s-1, sizes[rng.Intn(len(sizes))]-1), rng.Intn(min(s, 3))}[rng.Intn(4)]
			if !ckInclusion(r, l.name, svc, l.ref, l.m, x, s, i%2 == 0) {
				return false
			}
		}
		return true
	})

	// durable storages
	for _, kind := range []string{"bolt", "badger"} {
		st, cl := newStore(r, kind)
		svc := newService(st, nil, nil)
		l := stepLog{kind, lref("3", "d", tLog), &LogModel{}}
		ok := true
		for i := 0; l.m.Len() < r.N(37, 100) && ok; i++ {
			if err := addEntry(svc, l.ref, l.m, genEntry(rng, i)); err != nil {
				r.Failf("%s: %v", kind, err)
				break
			}
			for x := 0; x < l.m.Len() && ok; x++ {
				ok = ckInclusion(r, kind, svc, l.ref, l.m, x, l.m.Len(), x%2 == 0)
			}
		}
		c02bad(r, l, svc, rng)
		cl()
	}
}

func c02bad(r *R, l stepLog, svc Svc, rng *rand.Rand) {
	n := l.m.Len()
	ask := func(q string, req *pb.LogInclusionProofRequest, notFound bool) {
		req.Log = l.ref
		p, err := svc.LogInclusionProof(bg, req)
		r.Saw("inclusion-bad-request")
		switch {
		case err == nil:
			r.Failf("%s of size %d: %s was answered: %v", l.name, n, q, p)
		case notFound && code(err) != codes.NotFound:
			r.Failf("%s of size %d: %s was refused with %v, not as not found", l.name, n, q, err)
		}
	}
	for _, s := range badSizes(n) {
		ask(fmt.Sprintf("size %d", s), &pb.LogInclusionProofRequest{TreeSize: s, LeafIndex: 0}, false)
		ask(fmt.Sprintf("size %d index size-1", s), &pb.LogInclusionProofRequest{TreeSize: s, LeafIndex: s - 1}, false)
		if n > 0 {
			ask(fmt.Sprintf("size %d by hash", s), &pb.LogInclusionProofRequest{TreeSize: s, MtlHash: l.m.Tree.Leaves[0]}, false)
			ask(fmt.Sprintf("index %d in size %d", s, n), &pb.LogInclusionProofRequest{TreeSize: int64(n), LeafIndex: s}, false)
		}
		ask(fmt.Sprintf("index %d in head", s), &pb.LogInclusionProofRequest{LeafIndex: s}, false)
	}
	ask(fmt.Sprintf("index %d", n), &pb.LogInclusionProofRequest{LeafIndex: int64(n)}, false)
	hashes := [][]byte{randBytes(rng, 32), make([]byte, 32), {0}, randBytes(rng, 31), randBytes(rng, 33), spec.LeafHash([]byte("not in here"))}
	if n > 2 {
		lh := l.m.Tree.Leaves[rng.Intn(n)]
		hashes = append(hashes, lh[:31], append(append([]byte{}, lh...), 0), append(append([]byte{}, lh...), lh...), l.m.Tree.Root(n), l.m.Tree.Sub(0, 2), l.m.Entries[1].LeafInput)
		x := append([]byte{}, lh...)
		x[31] ^= 1
		hashes = append(hashes, x)
	}
	for _, h := range hashes {
		if len(h) == 0 || l.m.Index(h) >= 0 {
			continue
		}
		for _, s := range []int64{0, int64(n), 1} {
			if s > int64(n) {
				continue
			}
			r.Case("unknown-hash", "%s %x in %d", l.name, h, s)
			ask(fmt.Sprintf("unknown hash %x in size %d", h, s), &pb.LogInclusionProofRequest{MtlHash: h, TreeSize: s}, true)
		}
	}
}

func c03(r *R) {
	rng := r.Rand("c03")
	svc, logs := proofLogs(r, r.N(140, 300), r.N(70, 140))
	acc := hl(svc, "3", "")
	vm := acc.VerifiableMap("pm")
	hls := []*verifiable.Log{acc.VerifiableLog("p"), vm.MutationLog(), vm.TreeHeadLog()}
	for li, l := range logs {
		n := l.m.Len()
		ok := true
		hd := func(s int) *pb.LogTreeHashResponse {
			return &pb.LogTreeHashResponse{TreeSize: int64(s), RootHash: l.m.Tree.Root(s)}
		}
		for b := 2; b <= n && ok; b++ {
			for a := 1; a < b && ok; a++ {
				r.Case("pair", "%s %d to %d", l.name, a, b)
				ok = ckConsistency(r, l.name, svc, l.ref, l.m, a, b)
				if ok && (b < 40 || rng.Intn(8) == 0) {
					r.Saw("verified-consistency")
					x, y := hd(a), hd(b)
					if rng.Intn(2) == 0 {
						x, y = y, x
					}
					if err := hls[li].VerifyConsistency(bg, x, y); err != nil {
						r.Failf("%s: VerifyConsistency of %d and %d: %v", l.name, a, b, err)
						ok = false
					}
				}
			}
		}
		for a := 1; a < n && ok; a++ {
			ok = ckConsistency(r, l.name, svc, l.ref, l.m, a, 0)
		}
		c03bad(r, l, svc)
	}
	r.Stop()

	bigLog(r, "consistency", r.N(140000, 1100000), func(svc Svc, l stepLog, rng *rand.Rand, sizes []int) bool {
		for _, s := range sizes {
			x := []int{1 + rng.Intn(s), s - 1, sizes[rng.Intn(len(sizes))], 1 + rng.Intn(min(s, 3))}[rng.Intn(4)]
			if x > 0 && x < s && !ckConsistency(r, l.name, svc, l.ref, l.m, x, s) {
				return false
			}
		}
		return true
	})
	for _, kind := range []string{"memory", "bolt", "badger"} {
		st, cl := newStore(r, kind)
		svc = newService(st, nil, nil)
		l := stepLog{kind + " log", lref("3", "large", tLog), &LogModel{}}
		c03bad(r, l, svc)
		target := r.N(1050, 4200)
		if kind != "memory" {
			target = r.N(37, 150)
		}
		ok := true
		for i := 0; l.m.Len() < target && ok; i++ {
			if err := addEntry(svc, l.ref, l.m, genEntry(rng, i)); err != nil {
				r.Failf("%s: %v", l.name, err)
				break
			}
			n := l.m.Len()
			for k := 0; k < 3 && ok && n > 1; k++ {
				b := 2 + rng.Intn(n-1)
				a := 1 + rng.Intn(b-1)
				r.Case("large", "%s %d to %d", l.name, a, b)
				ok = ckConsistency(r, l.name, svc, l.ref, l.m, a, b) && ckConsistency(r, l.name, svc, l.ref, l.m, n-1, 0) && ckConsistency(r, l.name, svc, l.ref, l.m, 1, n)
			}
			if n < 4 {
				c03bad(r, l, svc)
			}
		}
		n := l.m.Len()
		for _, s := range []int{255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1025, n - 1, n} {
			for x := 1; x < s && s <= n && ok; x++ {
				r.Case("large-pow2", "%s %d to %d", l.name, x, s)
				ok = ckConsistency(r, l.name, svc, l.ref, l.m, x, s)
			}
		}
		c03bad(r, l, svc)
		cl()
	}
}

func c03bad(r *R, l stepLog, svc Svc) {
	n := int64(l.m.Len())
	ask := func(a, b int64) {
		p, err := svc.LogConsistencyProof(bg, &pb.LogConsistencyProofRequest{Log: l.ref, FromSize: a, TreeSize: b})
		r.Saw("consistency-bad-request")
		if err == nil {
			r.Failf("%s of size %d: consistency proof %d to %d was answered: %v", l.name, n, a, b, p)
		} else if code(err) != codes.InvalidArgument {
			r.Failf("%s of size %d: consistency proof %d to %d was refused with %v, not as an invalid argument", l.name, n, a, b, err)
		}
	}
	for _, s := range badSizes(int(n)) {
		ask(1, s)
		ask(n, s)
		ask(s, n)
		ask(s, 0)
		ask(s, s)
		ask(s-1, s)
	}
	ask(0, 0)
	ask(0, n)
	ask(n, n)
	ask(n, 0)
	ask(0, 1)
	if n > 3 {
		ask(3, 2)
		ask(2, 2)
		ask(1, 1)
		ask(-1, 2)
	}
}
