package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	props["C17"] = &property{level: "exploration", run: c17,
		rule:        "Processes writing to Bolt and Badger storage are killed (SIGKILL) at the first, second, third, ... storage operation and at random moments, over several generations of the same data; likewise the server program itself. After each kill the storage is reopened and everything about the objects is compared with what had been acknowledged and seen before. A case is a (storage, generation, kill point).",
		assumptions: []string{"SHA-256 collisions do not occur", "what the operating system has accepted is not lost (the process is killed, not the machine)", "synchronous mutator"}}
	helpers["writer"] = c17writer
}

// c17arg tells a writer process what to do.
type c17arg struct {
	Kind, Dir string
	Seed      int64
	From      []int // by object: the first operation to do
	KillAt    int   // at which storage operation to die, 0 for never
	Count     int   // operations by object
	// with several objects, each has its own goroutine
}

func c17obj(i int) *object {
	return &object{acc: "17", name: fmt.Sprintf("o%d", i/2), isMap: i%2 == 1}
}

// c17op is an object's i-th operation: an entry for a log, a mutation for a map
func c17op(seed int64, obj, i int) (*pb.LeafData, spec.Mut) {
	rng := rand.New(rand.NewSource(seed*1000003 + int64(obj)*7919 + int64(i)))
	if obj%2 == 0 {
		ld := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("entry %d", i)), ExtraData: []byte(fmt.Sprintf("extra %d", i))}
		switch rng.Intn(8) {
		case 0:
			ld.LeafInput = []byte(fmt.Sprintf("entry %d", i/2)) // most likely there already
		case 1:
			ld.LeafInput = append(ld.LeafInput, make([]byte, c17big(seed, 20000+rng.Intn(100000)))...)
		}
		return ld, spec.Mut{}
	}
	base := []byte("base")
	keys := [][]byte{base, []byte("k1"), collide(base, 3, 0), collide(base, 9, 0), []byte("k2")}
	vals := [][]byte{[]byte("v1"), []byte("v2"), []byte(fmt.Sprintf("val %d", i))}
	mu := spec.Mut{Action: "set", Key: keys[rng.Intn(len(keys))], LI: vals[rng.Intn(len(vals))]}
	if rng.Intn(10) == 0 {
		mu.LI = append(append([]byte{}, mu.LI...), make([]byte, c17big(seed, 30000))...)
	}
	switch rng.Intn(6) {
	case 0:
		mu = spec.Mut{Action: "delete", Key: mu.Key, NoVal: true}
	case 1:
		mu.Action = "update"
		mu.Prev = spec.LeafHash(vals[rng.Intn(2)])
	case 2:
		mu.Action = "update"
		mu.Prev = spec.LeafHash(nil)
	}
	return nil, mu
}

// c17big keeps values small for odd seeds.
func c17big(seed int64, n int) int {
	if seed%2 != 0 {
		return n / 100
	}
	return n
}

func c17storage(kind, dir string) (verifiable.StorageWriter, func()) {
	return openStore(kind, dir)
}

// the writer process
func c17writer(arg string) {
	var a c17arg
	if err := json.Unmarshal([]byte(arg), &a); err != nil {
		panic(err)
	}
	inner, _ := c17storage(a.Kind, a.Dir)
	var ops int64
	st := &hookStore{Inner: inner, Hook: func(op string, ns, key []byte) error {
		if a.KillAt > 0 && atomic.AddInt64(&ops, 1) == int64(a.KillAt) {
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
		return nil
	}}
	svc := newService(st, nil, nil)
	var mu sync.Mutex
	say := func(f string, args ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		os.Stdout.WriteString(fmt.Sprintf(f, args...) + "\n")
	}
	var wg sync.WaitGroup
	for obj := range a.From {
		obj := obj
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := c17obj(obj)
			for i := a.From[obj]; i < a.From[obj]+a.Count; i++ {
				ld, m := c17op(a.Seed, obj, i)
				say("S %d %d", obj, i)
				var lh []byte
				var err error
				types := []pb.LogType{tLog}
				if !o.isMap {
					var resp *pb.LogAddEntryResponse
					resp, err = svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: o.lref(tLog), Value: ld})
					lh = resp.GetLeafHash()
				} else {
					var resp *pb.MapSetValueResponse
					resp, err = svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: o.mref(), Mutation: mutProto(m)})
					lh = resp.GetLeafHash()
					types = []pb.LogType{tMut, tHead}
				}
				if err != nil {
					say("E %d %d %v", obj, i, err)
					return
				}
				say("A %d %d %x", obj, i, lh)
				for _, t := range types {
					h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: o.lref(t)})
					if err != nil {
						say("E %d %d %v", obj, i, err)
						return
					}
					say("H %d %d %d %x", obj, t, h.TreeSize, h.RootHash)
				}
			}
		}()
	}
	wg.Wait()
	say("D")
	syscall.Kill(os.Getpid(), syscall.SIGKILL) // without closing anything
	select {}
}

// c17state is what is known of an object in a directory that processes write to.
type c17state struct {
	*object
	next  int // next operation
	heads map[string][]byte
}

// c17feed takes in what a process said before it was killed, and gives the operation in flight, if any, by object.
func c17feed(r *R, what string, out string, objs []*c17state, seed int64) (map[int]int, bool) {
	flight := map[int]int{}
	for _, l := range strings.Split(out, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || !strings.HasSuffix(out, "\n") && l == out[strings.LastIndex(out, "\n")+1:] {
			continue
		}
		num := func(i int) int {
			var n int
			fmt.Sscan(f[i], &n)
			return n
		}
		switch f[0] {
		case "S":
			flight[num(1)] = num(2)
		case "A":
			o := objs[num(1)]
			lh, _ := hex.DecodeString(f[3])
			c17apply(o, seed, num(1), num(2), lh)
			delete(flight, num(1))
			r.Saw("acknowledged")
		case "H":
			if f[3] != "0" {
				h, _ := hex.DecodeString(f[4])
				objs[num(1)].heads[f[2]+" "+f[3]] = h
			}
		case "E":
			r.Failf("%s: writing fails: %s", what, l)
			return nil, false
		}
	}
	return flight, true
}

func c17apply(o *c17state, seed int64, obj, i int, lh []byte) {
	ld, m := c17op(seed, obj, i)
	if o.isMap {
		o.m.Apply(m)
		o.m.Acked = append(o.m.Acked, lh)
	} else {
		o.log.Add(ld)
	}
	o.next = i + 1
}

// c17judge compares what is served with what is known, adjusting that for operations that were in flight.
func c17judge(r *R, what string, svc Svc, objs []*c17state, flight map[int]int, seed int64, rng *rand.Rand) bool {
	for obj, o := range objs {
		w := what + ": " + o.object.String()
		want := o.log.Len()
		t := tLog
		if o.isMap {
			want, t = o.m.Size(), tMut
		}
		h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: o.lref(t)})
		if err != nil {
			r.Failf("%s: %v", w, err)
			return false
		}
		if i, ok := flight[obj]; ok {
			o.next = i + 1
			if h.TreeSize == int64(want)+1 {
				r.Saw("in-flight-present")
				c17apply(o, seed, obj, i, nil)
				want++
			} else {
				r.Saw("in-flight-absent")
			}
		}
		if h.TreeSize < int64(want) {
			r.Failf("%s: size %d after the restart, although %d had been acknowledged", w, h.TreeSize, want)
			return false
		}
		if !o.full(r, w, svc, rng) {
			return false
		}
		for k, root := range o.heads {
			var lt int
			var sz int64
			fmt.Sscan(k, &lt, &sz)
			h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: o.lref(pb.LogType(lt)), TreeSize: sz})
			if err != nil || hex.EncodeToString(h.RootHash) != hex.EncodeToString(root) {
				r.Failf("%s: head of log type %d for size %d was %x before the crash, is now %v %v", w, lt, sz, root, h, err)
				return false
			}
			r.Saw("old-head")
		}
	}
	return true
}

func c17run(a c17arg, killAfter time.Duration) (string, error) {
	b, _ := json.Marshal(a)
	self, _ := os.Executable()
	cmd := exec.Command(self, "-helper", "writer", "-harg", string(b))
	out, err := cmd.StdoutPipe()
	if err != nil {
		return "", err
	}
	var stderr lockedBuf
	cmd.Stderr = &stderr
	if err := startCmd(cmd); err != nil {
		return "", err
	}
	if killAfter > 0 {
		t := time.AfterFunc(killAfter, func() { cmd.Process.Kill() })
		defer t.Stop()
	}
	var sb strings.Builder
	rd := bufio.NewReader(out)
	for {
		l, err := rd.ReadString('\n')
		sb.WriteString(l)
		if err != nil {
			break
		}
	}
	werr := cmd.Wait()
	if ee, ok := werr.(*exec.ExitError); !ok || ee.Sys().(syscall.WaitStatus).Signal() != syscall.SIGKILL {
		return sb.String(), fmt.Errorf("%v: %s", werr, tail([]byte(stderr.String()), 2000))
	}
	return sb.String(), nil
}

// c17dir runs generations of writers on one directory.
func c17dir(r *R, part, kind string, nObj int, gens func(gen int) (kill int, after time.Duration, more bool)) {
	rng := r.Rand(part)
	seed := rng.Int63n(1 << 30)
	dir := r.Dir()
	defer os.RemoveAll(dir)
	var objs []*c17state
	for i := 0; i < nObj; i++ {
		objs = append(objs, &c17state{object: c17obj(i), heads: map[string][]byte{}})
	}
	for gen := 0; ; gen++ {
		kill, after, more := gens(gen)
		if !more {
			return
		}
		a := c17arg{Kind: kind, Dir: dir, Seed: seed, KillAt: kill, Count: 8}
		if after > 0 {
			a.Count = 100000
		}
		for _, o := range objs {
			a.From = append(a.From, o.next)
		}
		what := fmt.Sprintf("%s storage, %s, generation %d, killed at operation %d (after %v)", kind, part, gen, kill, after)
		r.Case("crash", "%s", what)
		out, err := c17run(a, after)
		if err != nil {
			r.Failf("%s: the writer ends by itself: %v", what, err)
			return
		}
		r.Saw("kill")
		flight, ok := c17feed(r, what, out, objs, seed)
		if !ok {
			return
		}
		ok = func() bool {
			st, done := c17storage(kind, dir)
			defer done()
			return c17judge(r, what, newService(st, nil, nil), objs, flight, seed, rng)
		}()
		if !ok {
			return
		}
	}
}

func c17(r *R) {
	// at each storage operation: successive kill points in the same directory
	type job struct {
		kind string
		f    func()
	}
	var jobs []func()
	chain := func(kind string, nObj, first, step, n int) {
		part := fmt.Sprintf("%s, %d objects, kill points %d+%d", kind, nObj, first, step)
		jobs = append(jobs, func() {
			c17dir(r, part, kind, nObj, func(gen int) (int, time.Duration, bool) { return first + gen*step, 0, gen < n })
		})
	}
	for i := 0; i < 8; i++ {
		chain("bolt", 1+i%4, 1+i, 8, r.N(20, 60))
	}
	for i := 0; i < 4; i++ {
		chain("badger", 1+i%4, 1+i*2, 7, r.N(6, 24))
	}
	for i := 0; i < r.N(18, 90); i++ {
		i := i
		jobs = append(jobs, func() {
			rng := r.Rand(fmt.Sprint("times", i))
			kind := []string{"bolt", "bolt", "badger"}[i%3]
			c17dir(r, fmt.Sprint("random times ", i), kind, 2+i%3, func(gen int) (int, time.Duration, bool) {
				return 0, 15*time.Millisecond + time.Duration(rng.Intn(200))*time.Millisecond, gen < 5
			})
		})
	}
	for i := 0; i < r.N(5, 24); i++ {
		i := i
		jobs = append(jobs, func() { c17server(r, i) })
	}
	r.Par(len(jobs), func(i int) { jobs[i]() })
}

// c17server kills the server program itself.
func c17server(r *R, i int) {
	rng := r.Rand(fmt.Sprint("server", i))
	seed := rng.Int63n(1<<30)*2 + 1
	dir := r.Dir()
	defer os.RemoveAll(dir)
	var objs []*c17state
	for i := 0; i < 4; i++ {
		objs = append(objs, &c17state{object: c17obj(i), heads: map[string][]byte{}})
	}
	conf := "accounts: { id: \"17\" policy: { api_key: \"*\" name_match: \"*\" allowed_fields: \"*\" permissions: PERM_ALL_PERMISSIONS } }\ninsecure_server_for_testing: true\n"
	var flight map[int]int
	gens := r.N(4, 8)
	what := ""
	for gen := 0; gen <= gens; gen++ {
		p := startVDB(r, conf, dir, true, true)
		if p == nil {
			return
		}
		svcs := []Svc{p.rest(), p.grpc()}
		if gen > 0 && !c17judge(r, what, svcs[gen%2], objs, flight, seed, rng) {
			p.kill()
			return
		}
		if gen == gens {
			p.kill()
			return
		}
		after := 10*time.Millisecond + time.Duration(rng.Intn(250))*time.Millisecond
		what = fmt.Sprintf("server program, run %d, generation %d, killed after %v", i, gen, after)
		r.Case("crash", "%s", what)
		var out lockedBuf
		var dying int32
		var wg sync.WaitGroup
		for obj, o := range objs {
			wg.Add(1)
			go func(obj int, o *c17state) {
				defer wg.Done()
				svc := svcs[(obj+gen)%2]
				for i := o.next; ; i++ {
					ld, m := c17op(seed, obj, i)
					fmt.Fprintf(&out, "S %d %d\n", obj, i)
					var lh []byte
					var err error
					if !o.isMap {
						var resp *pb.LogAddEntryResponse
						resp, err = svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: o.lref(tLog), Value: ld})
						lh = resp.GetLeafHash()
					} else {
						var resp *pb.MapSetValueResponse
						resp, err = svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: o.mref(), Mutation: mutProto(m)})
						lh = resp.GetLeafHash()
					}
					if err != nil {
						if atomic.LoadInt32(&dying) == 0 {
							r.Failf("%s: %v", what, err)
						}
						return
					}
					fmt.Fprintf(&out, "A %d %d %x\n", obj, i, lh)
					t := []pb.LogType{tLog, tMut, tHead}[map[bool]int{false: 0, true: 1 + i%2}[o.isMap]]
					h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: o.lref(t)})
					if err != nil {
						if atomic.LoadInt32(&dying) == 0 {
							r.Failf("%s: %v", what, err)
						}
						return
					}
					fmt.Fprintf(&out, "H %d %d %d %x\n", obj, t, h.TreeSize, h.RootHash)
				}
			}(obj, o)
		}
		time.Sleep(after)
		atomic.StoreInt32(&dying, 1)
		p.kill()
		wg.Wait()
		r.Saw("kill")
		var ok bool
		if flight, ok = c17feed(r, what, out.String(), objs, seed); !ok || r.Failed() {
			return
		}
	}
}
