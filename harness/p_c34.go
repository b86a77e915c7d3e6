package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C34"] = &property{level: "exploration", run: c34,
		rule:        "Operations that succeed, fail, are given up by their callers or meet servers that misbehave, phase by phase. After each phase no goroutine may be running code of the repository, or have been started by it (but for the mutators'); every response body must have been closed when the call has returned; channels of entries must be closed; a closed storage must have no file open and be free to be opened by another; reads and refusals must not make the live heap grow. A case is a (phase, operation, fault).",
		assumptions: []string{"what is to end does so within 100 s"}}
}

func c34(r *R) {
	for _, ph := range []struct {
		name string
		n    int
		f    func(r *R, i int)
	}{
		{"entries", r.N(600, 6000), c34entries},
		{"audits", r.N(240, 2400), c34audits},
		{"waits", r.N(80, 600), c34waits},
		{"rest client", r.N(480, 4800), c34rest},
		{"servers", r.N(60, 600), c34servers},
		{"storages", r.N(10, 60), c34storages},
		{"mutators", r.N(24, 240), c34mutators},
	} {
		r.Par(ph.n, func(i int) { ph.f(r, i) })
		c34left(r, ph.name)
		r.Stop()
	}
	c34heap(r)
}

// c34mut is how many batching mutators were made: each may have a goroutine (or some).
var c34mut int64

// c34stacks are the goroutines that the repository has to do with.
func c34stacks(of string) (rv []string) {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i > 0 && strings.Contains(g, of) { // the first is this one
			rv = append(rv, g)
		}
	}
	return
}

// c34settle waits for something to become true.
func c34settle(r *R, f func() bool) bool {
	for began := time.Now(); ; {
		if f() {
			return true
		}
		if d := time.Since(began); d > 100*time.Second || d > 5*time.Second && r.Failed() {
			return f()
		}
		atomic.AddInt64(&r.progress, 1)
		time.Sleep(20 * time.Millisecond)
	}
}

// c34left looks for goroutines left behind.
func c34left(r *R, what string) {
	var left []string
	ok := c34settle(r, func() bool {
		left = nil
		for _, g := range c34stacks(repoFrame) {
			if strings.Contains(g, repoFrame+"mutator/batch") {
				continue
			}
			left = append(left, g)
		}
		return len(left) == 0
	})
	r.Saw("goroutine-census")
	if !ok {
		r.Failf("%s: %d goroutines of the code under test are left when all is done, e.g.\n%s", what, len(left), trunc(left[0], 2000))
		panic(errStop) // they'd be there after the other phases, too
	}
}

// ---- services that misbehave

// c34svc does to the n-th request of a kind what is asked for.
type c34svc struct {
	tweakSvc
	at      int64
	method  string
	fault   string
	n       int64
	release chan struct{} // of requests that block
}

var c34faults = []string{"none", "fail", "short", "surplus", "nil", "block", "alter"}

func newC34svc(inner Svc, method, fault string, at int) *c34svc {
	s := &c34svc{at: int64(at), method: method, fault: fault, release: make(chan struct{})}
	s.tweakSvc = tweakSvc{Inner: inner, Tweak: func(m string, req, resp proto.Message, err error) (proto.Message, error) {
		if err != nil || m != s.method || atomic.AddInt64(&s.n, 1) <= s.at {
			return resp, err
		}
		switch s.fault {
		case "fail":
			return nil, errors.New("told to fail")
		case "block":
			<-s.release
			return nil, errors.New("given up")
		}
		switch x := resp.(type) {
		case *pb.LogFetchEntriesResponse:
			switch s.fault {
			case "short":
				x.Values = x.Values[:len(x.Values)/2]
			case "surplus":
				x.Values = append(x.Values, x.Values...)
			case "nil":
				x.Values = nil
			case "alter":
				for _, v := range x.Values {
					v.LeafInput = append([]byte("x"), v.LeafInput...)
				}
			}
		case *pb.LogTreeHashResponse:
			if s.fault != "none" && len(x.RootHash) > 0 {
				x.RootHash[3] ^= 1
			}
		case *pb.MapTreeHashResponse:
			if s.fault != "none" && len(x.RootHash) > 0 {
				x.RootHash[3] ^= 1
			}
		case *pb.LogInclusionProofResponse:
			if s.fault != "none" {
				x.AuditPath = append(x.AuditPath, spec.LeafHash(nil))
			}
		case *pb.LogConsistencyProofResponse:
			if s.fault != "none" {
				x.AuditPath = nil
			}
		}
		return resp, err
	}}
	return s
}

// c34via puts a transport in between.
func c34via(rng *rand.Rand, svc Svc) (string, Svc, func()) {
	switch rng.Intn(6) {
	case 0:
		s := newREST(svc)
		return "rest", s.Client(), s.Close
	case 1:
		s := newGRPC(svc)
		return "grpc", s.Client(), s.Close
	}
	return "embedded", svc, func() {}
}

var c34base struct {
	sync.Once
	svc Svc
	w   *MapWorld
}

const c34n = 1300

// c34world is a log of c34n entries and a map of 60 mutations, to be read only.
func c34world() {
	c34base.Do(func() {
		st, _ := newStore(nil, "spec")
		svc := newService(st, nil, nil)
		for i := 0; i < c34n; i++ {
			if _, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lref("34", "l", tLog), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint("e", i))}}); err != nil {
				panic(err)
			}
		}
		w, g := &MapWorld{}, newWebMapGen(rand.New(rand.NewSource(34)), 6)
		for i := 0; i < 60; i++ {
			if err := w.mutate(svc, mref("34", "m"), g.next(&w.MapModel)); err != nil {
				panic(err)
			}
		}
		c34base.svc, c34base.w = svc, w
	})
}

// c34entries streams entries, and stops in all sorts of ways.
func c34entries(r *R, i int) {
	c34world()
	rng := r.Rand(fmt.Sprint("e", i))
	fault := c34faults[rng.Intn(len(c34faults))]
	at := rng.Intn(4)
	fs := newC34svc(c34base.svc, "LogFetchEntries", fault, at)
	via, svc, done := c34via(rng, fs)
	defer done()
	var once sync.Once
	release := func() { once.Do(func() { close(fs.release) }) }
	defer release()

	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	start := rng.Intn(c34n)
	end := []int{start, start + rng.Intn(c34n-start), c34n, c34n + 1 + rng.Intn(1000)}[rng.Intn(4)]
	how := []string{"to the end", "cancel", "cancel first", "cancel, then none"}[rng.Intn(4)]
	if fault == "block" && how == "to the end" {
		how = "cancel"
	}
	stop := rng.Intn(c34n)
	what := fmt.Sprintf("entries %d to %d of %d, %s, %s after %d requests, consumer %s %d", start, end, c34n, via, fault, at, how, stop)
	r.Case("entries", "%s", what)
	if how == "cancel first" {
		cancel()
	}
	ch := hl(svc, "34", "").VerifiableLog("l").Entries(ctx, int64(start), int64(end))
	closed := make(chan struct{})
	go func() {
		defer close(closed)
		n := 0
		for range ch {
			if n++; n >= stop && how != "to the end" {
				break
			}
			atomic.AddInt64(&r.progress, 1)
		}
		if how == "cancel, then none" {
			cancel()
			return // whoever sends can't count on anybody to receive
		}
		cancel()
		for range ch {
		}
	}()
	if fault == "block" {
		// the stream waits for an answer, and is given up
		time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
		cancel()
		release()
	}
	select {
	case <-closed:
	case <-time.After(100 * time.Second):
		r.Failf("%s: the channel is not closed", what)
	}
}

// c34audits verifies logs and maps, with functions and servers that fail.
func c34audits(r *R, i int) {
	c34world()
	rng := r.Rand(fmt.Sprint("a", i))
	method := []string{"LogFetchEntries", "LogFetchEntries", "LogTreeHash", "MapTreeHash", "LogInclusionProof", "LogConsistencyProof"}[rng.Intn(6)]
	fault := []string{"none", "fail", "short", "surplus", "nil", "alter"}[rng.Intn(6)]
	fs := newC34svc(c34base.svc, method, fault, rng.Intn(4))
	via, svc, done := c34via(rng, fs)
	defer done()
	acc, honest := hl(svc, "34", ""), hl(c34base.svc, "34", "")
	ctx, cancel := context.WithCancel(bg) // not cancelled before we have looked
	failAt := rng.Int63n(900)
	if rng.Intn(3) == 0 {
		failAt = 1 << 40
	}
	n := int64(0)
	step := func() error {
		atomic.AddInt64(&r.progress, 1)
		if atomic.AddInt64(&n, 1) > failAt {
			return errors.New("told to fail")
		}
		return nil
	}
	what := fmt.Sprintf("%s, %s of %s, callback fails at %d", via, fault, method, failAt)
	r.Case("audit", "%d %s", i%3, what)
	var err error
	r.Guard(what, func() {
		switch i % 3 {
		case 0:
			l := acc.VerifiableLog("l")
			head, herr := honest.VerifiableLog("l").TreeHead(bg, 0)
			var prev *pb.LogTreeHashResponse
			if rng.Intn(2) == 0 {
				prev, herr = honest.VerifiableLog("l").TreeHead(bg, 1+rng.Int63n(c34n))
			}
			if herr != nil {
				panic(herr)
			}
			err = l.VerifyEntries(ctx, prev, head, func(ctx context.Context, idx int64, e *pb.LeafData) error { return step() })
		default:
			m := acc.VerifiableMap("m")
			failAt %= 70
			head, herr := honest.VerifiableMap("m").VerifiedLatestMapState(bg, nil)
			if herr != nil {
				panic(herr)
			}
			err = m.VerifyMap(ctx, nil, head,
				func(ctx context.Context, e *pb.LeafData) error {
					if i%3 == 1 {
						return step()
					}
					return nil
				},
				func(ctx context.Context, idx int64, key []byte, value *pb.LeafData) error {
					if i%3 == 2 {
						return step()
					}
					return nil
				})
		}
	})
	_ = err
	_ = cancel // on purpose: the end of an audit must not depend on its caller's context
	r.Saw("audit-ended")
}

// c34waits gives up waiting.
func c34waits(r *R, i int) {
	rng := r.Rand(fmt.Sprint("w", i))
	c34world()
	via, svc, done := c34via(rng, c34base.svc)
	defer done()
	acc := hl(svc, "34", "")
	ctx, cancel := context.WithCancel(bg)
	if i%2 == 0 {
		ctx, cancel = context.WithTimeout(bg, time.Duration(1+rng.Intn(400))*time.Millisecond)
	}
	defer cancel()
	what := []string{"BlockUntilPresent", "BlockUntilSize"}[i/2%2] + " " + via
	r.Case("wait", "%s", what)
	if i%2 == 1 {
		time.AfterFunc(time.Duration(rng.Intn(400))*time.Millisecond, cancel)
	}
	ended := make(chan error, 1)
	go func() {
		var err error
		if i/2%2 == 0 {
			_, err = acc.VerifiableLog("l").BlockUntilPresent(ctx, spec.LeafHash([]byte("never")))
		} else {
			_, err = acc.VerifiableMap("m").BlockUntilSize(ctx, 1000)
		}
		ended <- err
	}()
	select {
	case err := <-ended:
		if err == nil {
			r.Failf("%s for what never comes ends without error", what)
		}
	case <-time.After(100 * time.Second):
		r.Failf("%s does not end when its context does", what)
	}
}

// ---- the REST client

// c34rt counts the bodies that are open.
type c34rt struct {
	http.RoundTripper
	open, total int64
}

type c34body struct {
	io.ReadCloser
	rt   *c34rt
	once sync.Once
}

func (b *c34body) Close() error {
	b.once.Do(func() { atomic.AddInt64(&b.rt.open, -1) })
	return b.ReadCloser.Close()
}

func (t *c34rt) RoundTrip(req *http.Request) (*http.Response, error) {
	resp, err := t.RoundTripper.RoundTrip(req)
	if err == nil {
		atomic.AddInt64(&t.open, 1)
		atomic.AddInt64(&t.total, 1)
		resp.Body = &c34body{ReadCloser: resp.Body, rt: t}
	}
	return resp, err
}

// c34rest calls everything, with all sorts of answers.
func c34rest(r *R, i int) {
	c34world()
	rng := r.Rand(fmt.Sprint("rc", i))
	modes := []string{"good", "404", "500", "403", "409 empty", "cut", "garbage", "large", "redirect", "slow"}
	mode := modes[i%len(modes)]
	good := httprest.CreateRESTHandler(c34base.svc, nil, log.New(io.Discard, "", 0))
	stop := make(chan struct{})
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		switch mode {
		case "good":
			good.ServeHTTP(w, q)
		case "404", "500", "403":
			w.WriteHeader(map[string]int{"404": 404, "500": 500, "403": 403}[mode])
			io.WriteString(w, strings.Repeat("no such thing ", rng63(i)))
		case "409 empty":
			w.WriteHeader(409)
		case "cut":
			w.Header().Set("Content-Length", "1000")
			io.WriteString(w, `{"tree_size":`)
		case "garbage":
			io.WriteString(w, "<html>")
		case "large":
			w.WriteHeader([]int{200, 400}[i/len(modes)%2])
			io.WriteString(w, strings.Repeat(" ", 1<<20))
		case "redirect":
			if strings.HasSuffix(q.URL.Path, "/again") {
				w.WriteHeader(418)
				return
			}
			http.Redirect(w, q, q.URL.Path+"/again", 302)
		case "slow":
			w.Write([]byte(" "))
			w.(http.Flusher).Flush()
			select {
			case <-stop:
			case <-q.Context().Done():
			}
		}
	}))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	base := &http.Transport{MaxConnsPerHost: 1} // a connection kept busy is one that the next request waits for
	rt := &c34rt{RoundTripper: base}
	svc := (&httprest.Client{BaseURL: srv.URL, HTTPClient: &http.Client{Transport: rt}}).MustDial()
	l, m := lref("34", "l", []pb.LogType{tLog, tLog, tMut}[rng.Intn(3)]), mref("34", "m")
	if l.LogType == tMut {
		l.Name = "m"
	}
	reqs := []proto.Message{
		&pb.LogTreeHashRequest{Log: l}, &pb.LogTreeHashRequest{Log: l, TreeSize: 3}, &pb.LogTreeHashRequest{Log: l, TreeSize: 30000},
		&pb.LogFetchEntriesRequest{Log: l, First: 0, Last: 9}, &pb.LogInclusionProofRequest{Log: l, TreeSize: 9, LeafIndex: 2},
		&pb.LogInclusionProofRequest{Log: l, TreeSize: 9, MtlHash: spec.LeafHash([]byte("e1"))}, &pb.LogInclusionProofRequest{Log: l, TreeSize: 9, MtlHash: spec.LeafHash([]byte("q"))},
		&pb.LogConsistencyProofRequest{Log: l, FromSize: 2, TreeSize: 9}, &pb.LogConsistencyProofRequest{Log: l, FromSize: 20, TreeSize: 9},
		&pb.MapTreeHashRequest{Map: m}, &pb.MapTreeHashRequest{Map: m, TreeSize: 5}, &pb.MapGetValueRequest{Map: m, Key: []byte("k")}, &pb.MapGetValueRequest{Map: m, Key: []byte("k"), TreeSize: 400},
	}
	if mode != "good" { // the world is only read
		reqs = append(reqs, &pb.LogAddEntryRequest{Log: l, Value: &pb.LeafData{LeafInput: []byte("x")}},
			&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: &pb.LeafData{LeafInput: []byte("x")}}},
			&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "delete", Key: []byte("k")}},
			&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "update", Key: []byte("k"), PreviousLeafHash: spec.LeafHash(nil), Value: &pb.LeafData{LeafInput: []byte("x")}}})
	}
	rng.Shuffle(len(reqs), func(i, j int) { reqs[i], reqs[j] = reqs[j], reqs[i] })
	for _, q := range reqs {
		what := fmt.Sprintf("REST client, server mode %s: %T", mode, q)
		r.Case("rest", "%s %v", what, q)
		ctx, cancel := context.WithTimeout(bg, 100*time.Second)
		if mode == "slow" {
			cancel()
			ctx, cancel = context.WithTimeout(bg, time.Duration(1+rng.Intn(30))*time.Millisecond)
		}
		before := atomic.LoadInt64(&rt.total)
		var err error
		r.Guard(what, func() { _, err = callSvcCtx(ctx, svc, q) })
		if mode != "slow" && ctx.Err() != nil {
			r.Failf("%s: no answer after 100 s: %v", what, err)
		}
		cancel()
		if n := atomic.LoadInt64(&rt.open); n != 0 {
			r.Failf("%s: %d bodies of responses are open when the call has returned (%v)", what, n, err)
			break
		}
		r.SawN("response-body", atomic.LoadInt64(&rt.total)-before)
	}
	close(stop)
	base.CloseIdleConnections()
	srv.CloseClientConnections()
	srv.Close()
}

func rng63(i int) int { return i % 63 }

// ---- the servers

// c34slow answers once it may, or when the request is given up.
type c34slow struct {
	Svc
	release chan struct{}
	in, out int64
}

func (s *c34slow) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	atomic.AddInt64(&s.in, 1)
	defer atomic.AddInt64(&s.out, 1)
	select {
	case <-s.release:
	case <-ctx.Done():
		return nil, ctx.Err()
	}
	return s.Svc.LogTreeHash(ctx, q)
}

// c34servers has clients that go away.
func c34servers(r *R, i int) {
	c34world()
	rng := r.Rand(fmt.Sprint("sv", i))
	slow := &c34slow{Svc: c34base.svc, release: make(chan struct{})}
	if i%2 == 0 {
		// gRPC: requests that are given up by their clients are given up by the server
		gs := newGRPC(slow)
		svc := gs.Client()
		var wg sync.WaitGroup
		n := 1 + rng.Intn(8)
		for k := 0; k < n; k++ {
			wg.Add(1)
			d := time.Duration(5+rng.Intn(60)) * time.Millisecond
			go func() {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(bg, d)
				defer cancel()
				svc.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: lref("34", "l", tLog)})
			}()
		}
		wg.Wait()
		what := fmt.Sprintf("gRPC server, %d requests given up", n)
		r.Case("server", "%s %d", what, i)
		if !c34settle(r, func() bool { return atomic.LoadInt64(&slow.in) == atomic.LoadInt64(&slow.out) }) {
			r.Failf("%s: %d of them are still being worked on", what, atomic.LoadInt64(&slow.in)-atomic.LoadInt64(&slow.out))
		}
		close(slow.release)
		gs.Close()
		return
	}
	// REST: requests cut short, and clients that don't wait
	rs := newREST(slow)
	what := "REST server"
	addr := strings.TrimPrefix(rs.URL, "http://")
	for k := 0; k < 6+rng.Intn(10); k++ {
		c, err := net.Dial("tcp", addr)
		if err != nil {
			panic(err)
		}
		msg := []string{
			"POST /v2/account/34/log/x/entry HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nabc",
			"POST /v2/account/34/log/x/entry/extra HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n{\"a\":\r\n",
			"PUT /v2/account/34/map/m/key/s/k HTTP/1.1\r\nHost: x\r\nContent-Length: 7\r\n\r\n",
			"GET /v2/account/34/log/l/tree/head HTTP/1.1\r\nHost: x\r\n\r\n",
			"GET /v2/account/34/log/l/entries/0-1300 HTTP/1.1\r\nHost: x\r\n\r\n",
			"GET /v2/acc",
		}[rng.Intn(6)]
		r.Case("server", "%s %q", what, msg)
		io.WriteString(c, msg)
		if rng.Intn(3) == 0 {
			c.SetReadDeadline(time.Now().Add(time.Duration(rng.Intn(20)) * time.Millisecond))
			bufio.NewReader(c).ReadByte()
		}
		c.Close()
	}
	close(slow.release)
	c34settle(r, func() bool { return atomic.LoadInt64(&slow.in) == atomic.LoadInt64(&slow.out) })
	// and it serves others still
	if _, err := rs.Client().LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lref("34", "l", tLog)}); err != nil {
		r.Failf("%s, after clients have gone away: %v", what, err)
	}
	if e := rs.Errors.String(); strings.Contains(e, "panic") {
		r.Failf("%s: %s", what, trunc(e, 2000))
	}
	rs.Close()
}

// ---- storages

// c34open are files of a directory that this process has open.
func c34open(dir string) (rv []string) {
	des, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, d := range des {
		if p, err := os.Readlink(filepath.Join("/proc/self/fd", d.Name())); err == nil && strings.HasPrefix(p, dir+"/") {
			rv = append(rv, p)
		}
	}
	return
}

// c34storages closes storages after operations that went well, and ones that didn't.
func c34storages(r *R, i int) {
	dir := r.Dir()
	kind := []string{"bolt", "badger"}[i%2]
	open := func() (verifiable.StorageWriter, func()) {
		if kind == "bolt" {
			s := &bolt.Storage{Path: dir}
			return s, s.Close
		}
		s := &badger.Storage{Path: dir}
		return s, s.Close
	}
	want := map[string]int{}
	for round := 0; round < 3; round++ {
		st, done := open()
		svc := newService(st, nil, nil)
		what := fmt.Sprintf("%s storage, opened for the %d. time", kind, round+1)
		r.Case("storage", "%s %d", what, i)
		var wg sync.WaitGroup
		var mu sync.Mutex
		for c := 0; c < 4; c++ { // at once, so that some meet at opening the same
			wg.Add(1)
			rng := r.Rand(fmt.Sprint("st", i, round, c))
			go func() {
				defer wg.Done()
				for k := 0; k < 4; k++ {
					name := fmt.Sprint("l", rng.Intn(4))
					e := []byte(fmt.Sprint(round, c, k))
					var err error
					switch rng.Intn(4) {
					case 0: // a transaction that fails
						st.ExecuteUpdate(bg, []byte("ns"+name), func(ctx context.Context, kw verifiable.KeyWriter) error {
							kw.Set(ctx, []byte("k"), &pb.ObjectSize{Size: 1})
							return errors.New("no")
						})
					case 1: // one that panics
						func() {
							defer func() { recover() }()
							st.ExecuteReadOnly(bg, []byte("ns"+name), func(ctx context.Context, kr verifiable.KeyReader) error {
								panic("told to")
							})
						}()
						func() {
							defer func() { recover() }()
							st.ExecuteUpdate(bg, []byte("ns"+name), func(ctx context.Context, kw verifiable.KeyWriter) error {
								panic("told to")
							})
						}()
					default:
						for try := 0; try < 200; try++ {
							_, err = svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lref("34", name, tLog), Value: &pb.LeafData{LeafInput: e}})
							if err == nil || kind == "bolt" { // Badger refuses what conflicts, by design
								break
							}
							time.Sleep(time.Duration(1+try) * time.Millisecond)
						}
						mu.Lock()
						if err == nil {
							want[name]++
						}
						mu.Unlock()
					}
					if err != nil {
						r.Failf("%s: adding: %v", what, err)
					}
					r.Saw("storage-operation")
				}
			}()
		}
		wg.Wait()
		for name, n := range want {
			h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lref("34", name, tLog)})
			if err != nil || h.TreeSize != int64(n) {
				r.Failf("%s: %s has head %v %v after %d additions", what, name, h, err, n)
			}
		}
		closed := make(chan struct{})
		go func() { done(); close(closed) }()
		select {
		case <-closed:
		case <-time.After(100 * time.Second):
			r.Failf("%s: Close does not end", what)
			return
		}
		if kind == "bolt" { // Badger ends some of its work later
			if f := c34open(dir); len(f) > 0 {
				r.Failf("%s: after Close %d files are open, such as %s", what, len(f), f[0])
				return
			}
		} else if !c34settle(r, func() bool { return len(c34open(dir)) == 0 }) {
			f := c34open(dir)
			r.Failf("%s: after Close %d files are open, such as %s", what, len(f), f[0])
			return
		}
		r.Saw("closed")
	}
}

// c34mutators: what they are given does not make goroutines stay.
func c34mutators(r *R, i int) {
	rng := r.Rand(fmt.Sprint("m", i))
	st := &specStore{}
	n := 50 + rng.Intn(100)
	svc := newService(st, newBatch(st, 1+rng.Intn(30), 1+rng.Intn(40), time.Duration(1+rng.Intn(5))*time.Millisecond), nil)
	atomic.AddInt64(&c34mut, 1)
	l := hl(svc, "34", "").VerifiableLog(fmt.Sprint("l", i))
	var last verifiable.LogUpdatePromise
	for k := 0; k < n; k++ {
		p, err := l.Add(bg, &pb.LeafData{LeafInput: []byte(fmt.Sprint(k))})
		if err != nil {
			r.Failf("adding through the batching mutator: %v", err)
			return
		}
		last = p
	}
	ctx, cancel := context.WithTimeout(bg, 100*time.Second)
	defer cancel()
	if _, err := last.Wait(ctx); err != nil {
		r.Failf("waiting for the last of %d entries given to the batching mutator: %v", n, err)
		return
	}
	r.Case("mutator", "%d entries", n)
	// a few per mutator are fine, one per mutation isn't
	if !c34settle(r, func() bool {
		return int64(len(c34stacks(repoFrame+"mutator/batch"))) <= 4*atomic.LoadInt64(&c34mut)+16
	}) {
		r.Failf("%d goroutines for %d batching mutators", len(c34stacks(repoFrame+"mutator/batch")), atomic.LoadInt64(&c34mut))
	}
}

// ---- memory

// c34heap reads, and is refused, very often.
func c34heap(r *R) {
	c34world()
	pol := []*pb.ResourceAccount{{Id: "34", Policy: []*pb.AccessPolicy{
		{ApiKey: "full", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}, AllowedFields: []string{"*"}},
		{ApiKey: "*", NameMatch: "l*", Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_LOG_PROVE_INCLUSION}, AllowedFields: []string{"name"}}}}}
	st := &specStore{}
	full := newService(st, nil, nil)
	for i := 0; i < 40; i++ {
		ld, err := verifiable.CreateRedactableJSONLeafData([]byte(fmt.Sprintf(`{"name":"n%d","secret":%d}`, i, i)))
		if err != nil {
			panic(err)
		}
		if i%2 == 0 {
			ld = &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))}
		}
		if _, err := full.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lref("34", "l", tLog), Value: ld}); err != nil {
			panic(err)
		}
		if _, err := full.MapSetValue(bg, &pb.MapSetValueRequest{Map: mref("34", "m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint(i % 7)), Value: ld}}); err != nil {
			panic(err)
		}
	}
	svc := newService(st, nil, staticPolicy(pol))
	rng := r.Rand("heap")
	lg := func() *pb.LogRef {
		l := lref("34", "l", tLog)
		switch rng.Intn(8) {
		case 0:
			l.Account.Id = fmt.Sprint(rng.Int63())
		case 1:
			l.Name = fmt.Sprint("l", rng.Int63()) // not there
		case 2:
			l.Name = fmt.Sprint(rng.Int63())
		case 3, 4:
			l.Account.ApiKey = fmt.Sprint(rng.Int63())
		default:
			l.Account.ApiKey = "full"
		}
		return l
	}
	mp := func() *pb.MapRef {
		l := lg()
		return &pb.MapRef{Account: l.Account, Name: strings.Replace(l.Name, "l", "m", 1)}
	}
	var ok, no int64
	rs := newREST(svc)
	gs := newGRPC(svc)
	remote := []Svc{rs.Client(), gs.Client()}
	work := func(n int) {
		for i := 0; i < n; i++ {
			var q proto.Message
			switch rng.Intn(9) {
			case 0:
				q = &pb.LogTreeHashRequest{Log: lg(), TreeSize: rng.Int63n(50)}
			case 1:
				f := rng.Int63n(40)
				q = &pb.LogFetchEntriesRequest{Log: lg(), First: f, Last: f + 1 + rng.Int63n(3)}
			case 2:
				q = &pb.LogInclusionProofRequest{Log: lg(), TreeSize: 1 + rng.Int63n(42), LeafIndex: rng.Int63n(42)}
			case 3:
				q = &pb.LogInclusionProofRequest{Log: lg(), TreeSize: 40, MtlHash: randBytes(rng, 32)}
			case 4:
				q = &pb.LogConsistencyProofRequest{Log: lg(), FromSize: rng.Int63n(42), TreeSize: 1 + rng.Int63n(42)}
			case 5:
				q = &pb.MapTreeHashRequest{Map: mp(), TreeSize: rng.Int63n(50)}
			case 6, 7:
				q = &pb.MapGetValueRequest{Map: mp(), Key: randBytes(rng, 1+rng.Intn(40)), TreeSize: rng.Int63n(42)}
			case 8: // refused: no permission
				l := lref("34", "l", tLog)
				l.Account.ApiKey = fmt.Sprint(rng.Int63())
				q = &pb.LogAddEntryRequest{Log: l, Value: &pb.LeafData{LeafInput: randBytes(rng, 40)}}
			}
			s := svc
			if i%16 == 0 {
				s = remote[i/16%2]
			}
			if _, err := callSvcCtx(bg, s, q); err == nil {
				ok++
			} else {
				no++
			}
			if i%1000 == 0 {
				r.SawN("heap-operation", 1000)
			}
		}
	}
	live := func() int64 {
		var ms runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&ms)
		return int64(ms.HeapAlloc)
	}
	n := r.N(300000, 3000000)
	work(n / 10)
	a := live()
	work(n)
	b := live()
	r.Extra("heap", fmt.Sprintf("%d bytes, and %d after %d more reads and refusals (%d succeeded, %d did not)", a, b, n, ok, no))
	r.Case("heap", "%d operations", n)
	// what is kept of each, be it no more than a key in a map, makes more than this
	if limit := int64(n) * 4; b-a > limit {
		r.Failf("the live heap has grown from %d to %d bytes by %d reads and refusals: something of them is kept", a, b, n)
	}
	rs.Close()
	gs.Close()
	c34left(r, "reads and refusals")
	runtime.KeepAlive(st)
}
