package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	vgrpc "github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C21"] = &property{level: "exploration", run: c21,
		rule:        "Every client operation - verified heads, states, values, inclusion, consistency, audits, waiting, plain calls - is run against servers that alter their answers, embedded, over REST (bodies, headers, statuses, cut connections) and over gRPC (message bytes), in sessions where what a server said before is carried on. All answers are recorded; nothing may panic, all must return, and a success must be justified by the recorded answers according to independent verifiers, or by the honest contents. A case is an operation of a session.",
		assumptions: []string{"SHA-256 collisions do not occur", "an embedded service returns an answer or an error, not neither", "a server doesn't go on sending data without end"}}
}

// tamperer makes answers false.
type tamperer struct {
	mu   sync.Mutex
	rng  *rand.Rand
	svc  Svc
	p    int // percentage of answers altered
	n    int
	nils bool // list elements may be nil
}

func (t *tamperer) tamper(req, resp proto.Message, err error) (proto.Message, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	rng := t.rng
	if rng.Intn(100) >= t.p {
		return resp, err
	}
	t.n++
	switch k := rng.Intn(12); {
	case k == 0:
		return nil, []error{verifiable.ErrNotFound, status.Error(codes.Code(1+rng.Intn(20)), "hostile \x00"), errors.New(""), context.Canceled, io.EOF}[rng.Intn(5)]
	case k == 1 && err == nil:
		return resp.ProtoReflect().New().Interface(), nil
	case k < 4:
		// the answer to something else
		q := proto.Clone(req)
		hostile(rng, q.ProtoReflect())
		setSizes(rng, q)
		if a, e := callSvc(t.svc, q); e == nil {
			return proto.Clone(a), nil
		}
	}
	if err != nil {
		return nil, err
	}
	for k := 1 + rng.Intn(3); k > 0; k-- {
		hostile(rng, resp.ProtoReflect())
	}
	if e, ok := resp.(*pb.LogFetchEntriesResponse); ok && t.nils && len(e.Values) > 0 && rng.Intn(6) == 0 {
		e.Values[rng.Intn(len(e.Values))] = nil
	}
	return resp, nil
}

// setSizes makes sizes and indices of a request small.
func setSizes(rng *rand.Rand, m proto.Message) {
	n := func() int64 { return int64(rng.Intn(9)) }
	switch q := m.(type) {
	case *pb.LogTreeHashRequest:
		q.TreeSize = n()
	case *pb.MapTreeHashRequest:
		q.TreeSize = n()
	case *pb.MapGetValueRequest:
		q.TreeSize = n()
	case *pb.LogInclusionProofRequest:
		q.TreeSize, q.LeafIndex = n(), n()
	case *pb.LogConsistencyProofRequest:
		q.FromSize, q.TreeSize = n(), n()
	case *pb.LogFetchEntriesRequest:
		q.First, q.Last = n(), n()
	}
}

// transcript has what a client has been told.
type transcript struct {
	mu    sync.Mutex
	heads map[pb.LogType][]*pb.LogTreeHashResponse
	cons  map[pb.LogType][]*pb.LogConsistencyProofResponse
	incl  map[pb.LogType][]*pb.LogInclusionProofResponse
	maps  []*pb.MapTreeHashResponse
	gets  []*pb.MapGetValueResponse
	calls int
}

func (t *transcript) reset() {
	t.mu.Lock()
	t.heads, t.cons, t.incl = map[pb.LogType][]*pb.LogTreeHashResponse{}, map[pb.LogType][]*pb.LogConsistencyProofResponse{}, map[pb.LogType][]*pb.LogInclusionProofResponse{}
	t.maps, t.gets, t.calls = nil, nil, 0
	t.mu.Unlock()
}

func (t *transcript) saw(_ string, req, resp proto.Message, err error) (proto.Message, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.calls++
	if err != nil {
		return resp, err
	}
	switch a := resp.(type) {
	case *pb.LogTreeHashResponse:
		lt := req.(*pb.LogTreeHashRequest).Log.LogType
		t.heads[lt] = append(t.heads[lt], proto.Clone(a).(*pb.LogTreeHashResponse))
	case *pb.LogConsistencyProofResponse:
		lt := req.(*pb.LogConsistencyProofRequest).Log.LogType
		t.cons[lt] = append(t.cons[lt], proto.Clone(a).(*pb.LogConsistencyProofResponse))
	case *pb.LogInclusionProofResponse:
		lt := req.(*pb.LogInclusionProofRequest).Log.LogType
		t.incl[lt] = append(t.incl[lt], proto.Clone(a).(*pb.LogInclusionProofResponse))
	case *pb.MapTreeHashResponse:
		t.maps = append(t.maps, proto.Clone(a).(*pb.MapTreeHashResponse))
	case *pb.MapGetValueResponse:
		t.gets = append(t.gets, proto.Clone(a).(*pb.MapGetValueResponse))
	}
	return resp, err
}

func sameHead(a, b *pb.LogTreeHashResponse) bool {
	return a.GetTreeSize() == b.GetTreeSize() && bytes.Equal(a.GetRootHash(), b.GetRootHash())
}

// consistent says whether what was told proves two heads consistent.
func (t *transcript) consistent(lt pb.LogType, a, b *pb.LogTreeHashResponse) bool {
	if a.GetTreeSize() < 1 || b.GetTreeSize() < 1 {
		return false
	}
	if a.TreeSize == b.TreeSize {
		return bytes.Equal(a.RootHash, b.RootHash)
	}
	if a.TreeSize > b.TreeSize {
		a, b = b, a
	}
	for _, p := range t.cons[lt] {
		if p.FromSize == a.TreeSize && p.TreeSize == b.TreeSize && spec.VerifyConsistency(a.TreeSize, b.TreeSize, p.AuditPath, a.RootHash, b.RootHash) {
			return true
		}
	}
	return false
}

func (t *transcript) included(lt pb.LogType, h *pb.LogTreeHashResponse, leaf []byte) bool {
	for _, p := range t.incl[lt] {
		if len(leaf) == 32 && p.TreeSize == h.GetTreeSize() && spec.VerifyInclusion(p.LeafIndex, p.TreeSize, leaf, p.AuditPath, h.GetRootHash()) {
			return true
		}
	}
	return false
}

func (t *transcript) toldHead(lt pb.LogType, h *pb.LogTreeHashResponse) bool {
	for _, x := range t.heads[lt] {
		if sameHead(x, h) {
			return true
		}
	}
	return false
}

// the honest contents behind the hostile servers
type c21world struct {
	svc Svc
	log LogModel
	w   *MapWorld
}

func c21make(r *R, part string, nl, nm int) *c21world {
	svc, w, ok := c09history(r, part, nm)
	if !ok {
		return nil
	}
	x := &c21world{svc: svc, w: w}
	for i := 0; i < nl; i++ {
		ld := jsonEntry(obj{"i": i, "x": []interface{}{"a", nil}})
		if i%3 == 0 {
			ld = &pb.LeafData{LeafInput: []byte(fmt.Sprint("entry", i))}
		}
		if err := addEntry(svc, lref("9", "l", tLog), &x.log, ld); err != nil {
			r.Failf("%v", err)
			return nil
		}
	}
	return x
}

func (x *c21world) model(lt pb.LogType) *LogModel {
	switch lt {
	case tMut:
		return &x.w.Mut
	case tHead:
		return &x.w.Heads
	}
	return &x.log
}

func (x *c21world) honest(lt pb.LogType, h *pb.LogTreeHashResponse) bool {
	m := x.model(lt)
	return h.GetTreeSize() > 0 && h.TreeSize <= int64(m.Len()) && bytes.Equal(h.RootHash, m.Tree.Root(int(h.TreeSize)))
}

func c21(r *R) {
	n := r.N(900, 9000)
	r.Par(n, func(i int) {
		rng := r.Rand(fmt.Sprint("s", i))
		x := c21make(r, fmt.Sprint("world", i), 1+rng.Intn(12), 1+rng.Intn(12))
		if x == nil {
			return
		}
		t := &tamperer{rng: rng, svc: x.svc, p: []int{15, 40, 100, 5}[rng.Intn(4)]}
		srng := r.Rand(fmt.Sprint("client", i))
		switch i % 5 {
		case 0, 1, 2:
			t.nils = true
			c21session(r, x, fmt.Sprintf("session %d, embedded", i), &tweakSvc{Inner: x.svc, Tweak: func(_ string, req, resp proto.Message, err error) (proto.Message, error) {
				return t.tamper(req, resp, err)
			}}, srng)
		case 3:
			s := hostileREST(x.svc, t)
			c21session(r, x, fmt.Sprintf("session %d, REST", i), (&httprest.Client{BaseURL: s.URL, HTTPClient: &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}}).MustDial(), srng)
			s.CloseClientConnections()
			s.Close()
		case 4:
			addr, stop := hostileGRPC(x.svc, t)
			c21session(r, x, fmt.Sprintf("session %d, gRPC", i), (&vgrpc.Client{Address: addr, NoGrpcSecurity: true}).MustDial(), srng)
			stop()
		}
		r.SawN("altered-answer", int64(t.n))
	})
	c21sticky(r)
	r.Stop()
	c21stall(r)
	// iteration over entries must have ended
	var left string
	if !waitFor(r, func() bool {
		buf := make([]byte, 8<<20)
		buf = buf[:runtime.Stack(buf, true)]
		left = ""
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "verifiable.(*Log).Entries") {
				left = g
			}
		}
		return left == ""
	}) {
		r.Failf("a goroutine of a finished client operation is still there: %s", left)
	}
}

// hostileREST serves altered REST answers.
func hostileREST(svc Svc, t *tamperer) *httptest.Server {
	honest := httprest.CreateRESTHandler(&tweakSvc{Inner: svc, Tweak: func(_ string, req, resp proto.Message, err error) (proto.Message, error) {
		t.mu.Lock()
		structured := t.rng.Intn(2) == 0
		t.mu.Unlock()
		if structured && err == nil {
			a, e := t.tamper(req, resp, nil)
			if e == nil {
				return a, nil
			}
		}
		return resp, err
	}}, nil, nil)
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		rec := httptest.NewRecorder()
		honest.ServeHTTP(rec, q)
		t.mu.Lock()
		defer t.mu.Unlock()
		rng := t.rng
		body, code := rec.Body.Bytes(), rec.Code
		hdr := rec.Header()
		if rng.Intn(100) < t.p {
			t.n++
			switch rng.Intn(8) {
			case 0:
				body = mangle(rng, body)
			case 1:
				body = []byte(hostileJSON[rng.Intn(len(hostileJSON))])
			case 2:
				body = []byte([]string{`{"values":[null]}`, `{"values":[{}]}`, `{"values":[{"leaf_input":null,"extra_data":"bnVsbA=="}]}`, `{"tree_size":-1}`, `{"tree_size":9223372036854775807}`, `{"tree_size":1e2}`, `{"tree_size":"1"}`, `{"mutation_log":null}`, `{"mutation_log":{"tree_size":-5}}`, `{"audit_path":[null,null]}`, `{"audit_path":[""]}`, `{"audit_path":null,"leaf_index":-1}`, `{"root_hash":[1,2]}`, `{"root_hash":""}`, `null`, `{"leaf_hash":null}`}[rng.Intn(16)])
			case 3:
				code = []int{200, 201, 204, 206, 301, 302, 304, 400, 401, 403, 404, 418, 500, 502, 999}[rng.Intn(15)]
				if code == 301 || code == 302 {
					hdr.Set("Location", []string{q.URL.String(), "", "http://127.0.0.1:1/", "ftp://x", "/x", "::"}[rng.Intn(6)])
				}
			case 4, 5:
				switch rng.Intn(7) {
				case 0:
					hdr.Del("X-Verified-TreeSize")
				case 1:
					hdr.Set("X-Verified-TreeSize", []string{"", "-1", "9223372036854775808", "x", "1.0", " 1", "9223372036854775807", "0", "3"}[rng.Intn(9)])
				case 2:
					hdr.Set("X-Verified-Proof", []string{"", "/", "0/", "256/00", "-1/00", "255/", "1/zz", "x/00", "0/00,1/11", "0/00/11", strings.Repeat("1/00,", 2000), "9223372036854775808/00", "255/" + strings.Repeat("ab", 32)}[rng.Intn(13)])
				case 3:
					hdr.Add("X-Verified-Proof", fmt.Sprintf("%d/%x", rng.Intn(300)-20, randBytes(rng, 32)))
				case 4:
					if v := hdr["X-Verified-Proof"]; len(v) > 0 {
						hdr["X-Verified-Proof"] = v[1:]
					}
				case 5:
					hdr.Del("X-Verified-Proof")
				case 6:
					if v := hdr["X-Verified-Proof"]; len(v) > 0 {
						i := rng.Intn(len(v))
						v[i] = strings.Map(func(c rune) rune {
							if c >= 0x20 && c < 0x7f {
								return c
							}
							return 'x'
						}, string(mangle(rng, []byte(v[i]))))
					}
				}
			case 6:
				if hj, ok := w.(http.Hijacker); ok {
					c, _, err := hj.Hijack()
					if err == nil {
						c.Write([]byte([]string{"", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n{", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "\x00\x01", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n", "HTTP/9.9 200 OK\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 2\r\n\r\nxx"}[rng.Intn(9)]))
						c.Close()
						return
					}
				}
			case 7:
				hdr.Set("Content-Type", "text/html")
				hdr.Set("Content-Encoding", []string{"gzip", "identity", "br"}[rng.Intn(3)])
			}
		}
		for k, v := range hdr {
			w.Header()[k] = v
		}
		w.WriteHeader(code)
		w.Write(body)
	}))
	s.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.Start()
	return s
}

// hostileGRPC serves altered gRPC answers.
func hostileGRPC(svc Svc, t *tamperer) (string, func()) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	reqs := map[string]func() proto.Message{
		"LogAddEntry": func() proto.Message { return &pb.LogAddEntryRequest{} }, "LogFetchEntries": func() proto.Message { return &pb.LogFetchEntriesRequest{} },
		"LogTreeHash": func() proto.Message { return &pb.LogTreeHashRequest{} }, "LogInclusionProof": func() proto.Message { return &pb.LogInclusionProofRequest{} },
		"LogConsistencyProof": func() proto.Message { return &pb.LogConsistencyProofRequest{} }, "MapSetValue": func() proto.Message { return &pb.MapSetValueRequest{} },
		"MapGetValue": func() proto.Message { return &pb.MapGetValueRequest{} }, "MapTreeHash": func() proto.Message { return &pb.MapTreeHashRequest{} },
	}
	s := grpc.NewServer(grpc.ForceServerCodec(rawCodec{}), grpc.UnknownServiceHandler(func(_ interface{}, ss grpc.ServerStream) error {
		m, _ := grpc.MethodFromServerStream(ss)
		var b []byte
		if err := ss.RecvMsg(&b); err != nil {
			return err
		}
		req := reqs[m[strings.LastIndex(m, "/")+1:]]()
		if err := proto.Unmarshal(b, req); err != nil {
			return status.Error(codes.Internal, err.Error())
		}
		resp, err := callSvc(svc, req)
		if err == nil {
			resp = proto.Clone(resp)
		}
		t.mu.Lock()
		k := t.rng.Intn(100)
		t.mu.Unlock()
		if k < 50 {
			resp, err = t.tamper(req, resp, err)
		}
		if err != nil {
			return err
		}
		out, merr := proto.Marshal(resp)
		if merr != nil {
			return status.Error(codes.Internal, "")
		}
		t.mu.Lock()
		defer t.mu.Unlock()
		if k >= 50 && t.rng.Intn(100) < t.p {
			t.n++
			out = mangle(t.rng, out)
			if t.rng.Intn(50) == 0 {
				out = bytes.Repeat([]byte{0x1a, 0}, 3<<20)
			}
		}
		if k%20 == 0 && t.rng.Intn(100) < t.p {
			ss.SendMsg(&out) // one too many
		}
		if k%20 == 1 && t.rng.Intn(100) < t.p {
			return nil // none at all
		}
		return ss.SendMsg(&out)
	}))
	go s.Serve(lis)
	return lis.Addr().String(), s.Stop
}

// c21session runs client operations against a server that may be hostile.
func c21session(r *R, x *c21world, name string, svc Svc, rng *rand.Rand) {
	t := &transcript{}
	t.reset()
	cl := hl(&tweakSvc{Inner: svc, Raw: true, Tweak: t.saw}, "9", "")
	vm := cl.VerifiableMap("m")
	logs := map[pb.LogType]*verifiable.Log{tLog: cl.VerifiableLog("l"), tMut: vm.MutationLog(), tHead: vm.TreeHeadLog()}
	types := []pb.LogType{tLog, tMut, tHead}
	// heads and states known to the client: honest, verified or merely told
	known := map[pb.LogType][]*pb.LogTreeHashResponse{}
	for _, lt := range types {
		m := x.model(lt)
		for _, n := range []int{1, 1 + rng.Intn(m.Len()), m.Len()} {
			known[lt] = append(known[lt], lth(n, m.Tree.Root(n)))
		}
		known[lt] = append(known[lt], lth(1+rng.Intn(m.Len()), randBytes(rng, 32)))
	}
	var states []*verifiable.MapTreeState
	for k := 0; k < 3; k++ {
		n := 1 + rng.Intn(x.w.Size())
		states = append(states, x.w.state(n, n+rng.Intn(x.w.Size()-n+1)))
	}
	remember := func(lt pb.LogType, h *pb.LogTreeHashResponse) {
		if h == nil {
			return
		}
		if len(known[lt]) < 12 {
			known[lt] = append(known[lt], h)
		} else {
			known[lt][rng.Intn(12)] = h
		}
	}
	size := func() int64 {
		if rng.Intn(8) == 0 {
			return hostileInts[rng.Intn(len(hostileInts))]
		}
		return int64(rng.Intn(13))
	}
	steps := 60
	if !strings.HasSuffix(name, "embedded") {
		steps = 40
	}
	for i := 0; i < steps && !r.Failed(); i++ {
		lt := types[rng.Intn(3)]
		lg, m := logs[lt], x.model(lt)
		hd := func() *pb.LogTreeHashResponse { return known[lt][rng.Intn(len(known[lt]))] }
		t.reset()
		op := ""
		var claim string // why a success isn't justified
		run := func(text string, f func() error) bool {
			op = text
			what := fmt.Sprintf("%s step %d: %s", name, i, text)
			r.Case("op", "%s", what)
			var err error
			if !r.Guard(what, func() { err = f() }) {
				return false
			}
			r.Saw(strings.SplitN(text, "(", 2)[0])
			t.mu.Lock()
			defer t.mu.Unlock()
			if err != nil {
				r.Saw("failed")
				return false
			}
			r.Saw("succeeded")
			return true
		}
		bad := func(f string, args ...interface{}) {
			claim = fmt.Sprintf(f, args...)
			r.Failf("%s step %d: %s succeeded, but %s", name, i, op, claim)
		}
		switch rng.Intn(20) {
		case 0, 1:
			h := hd()
			leaf := m.Tree.Leaves[rng.Intn(m.Len())]
			if rng.Intn(3) == 0 {
				leaf = hostileBytes(rng)
			}
			if run(fmt.Sprintf("VerifyInclusion(%v,%v,%x)", lt, h, trunc(string(leaf), 40)), func() error { return lg.VerifyInclusion(bg, h, leaf) }) {
				if !t.included(lt, h, leaf) {
					bad("no proof of it was seen: %v", t.incl[lt])
				}
				if x.honest(lt, h) && (m.Index(leaf) < 0 || m.Index(leaf) >= int(h.TreeSize)) {
					bad("the entry isn't in the log")
				}
			}
		case 2, 3:
			a, b := hd(), hd()
			if run(fmt.Sprintf("VerifyConsistency(%v,%v,%v)", lt, a, b), func() error { return lg.VerifyConsistency(bg, a, b) }) {
				if !t.consistent(lt, a, b) {
					bad("no proof of it was seen: %v", t.cons[lt])
				}
			}
		case 4, 5, 6:
			var prev, h *pb.LogTreeHashResponse
			if rng.Intn(4) > 0 {
				prev = hd()
			}
			n := size()
			latest := rng.Intn(2) == 0
			if run(fmt.Sprintf("VerifiedTreeHead(%v,%v,%d,latest %v)", lt, prev, n, latest), func() (err error) {
				if latest {
					h, err = lg.VerifiedLatestTreeHead(bg, prev)
				} else {
					h, err = lg.VerifiedTreeHead(bg, prev, n)
				}
				return err
			}) {
				switch {
				case h == nil:
					bad("without a head")
				case prev != nil && sameHead(h, prev):
				case !t.toldHead(lt, h):
					bad("%v isn't what the server said: %v", h, t.heads[lt])
				case prev.GetTreeSize() != 0 && !t.consistent(lt, prev, h): // every log grows from the empty one
					bad("no proof was seen that %v is consistent: %v", h, t.cons[lt])
				case latest && prev != nil && h.TreeSize < prev.TreeSize:
					bad("it went back to %v", h)
				case !latest && n != 0 && h.TreeSize != n:
					bad("it is for size %d", h.TreeSize)
				}
				remember(lt, h)
			}
		case 7:
			var h *pb.LogTreeHashResponse
			if run("TreeHead", func() (err error) { h, err = lg.TreeHead(bg, size()); return err }) {
				remember(lt, h) // not verified
			}
		case 8:
			var prev, h *pb.LogTreeHashResponse
			if rng.Intn(3) > 0 {
				prev = hd()
			}
			p := &pb.LogInclusionProofResponse{}
			idx := rng.Intn(m.Len())
			leaf := m.Tree.Leaves[idx]
			if run("InclusionProof", func() (err error) {
				if rng.Intn(2) == 0 {
					p, err = lg.InclusionProof(bg, int64(m.Len()), leaf)
				} else {
					p, err = lg.InclusionProofByIndex(bg, size(), size())
				}
				return err
			}) {
				if run(fmt.Sprintf("VerifySuppliedInclusionProof(%v,%v,%v)", lt, prev, p), func() (err error) {
					h, err = lg.VerifySuppliedInclusionProof(bg, prev, p, leaf)
					return err
				}) {
					if h == nil || p.TreeSize != 0 && h.TreeSize != p.TreeSize || !spec.VerifyInclusion(p.LeafIndex, h.TreeSize, leaf, p.AuditPath, h.RootHash) {
						bad("the proof doesn't lead to %v", h)
					} else if prev.GetTreeSize() != 0 && !sameHead(h, prev) && !t.consistent(lt, prev, h) {
						bad("no proof was seen that %v is consistent", h)
					}
				}
			}
		case 9, 10:
			var prev *pb.LogTreeHashResponse
			if rng.Intn(3) == 0 {
				prev = hd()
			}
			h := hd()
			if h.TreeSize > 1<<20 {
				// the server would have to send that many
				break
			}
			var got []*pb.LeafData
			if run(fmt.Sprintf("VerifyEntries(%v,%v,%v)", lt, prev, h), func() error {
				return lg.VerifyEntries(bg, prev, h, func(_ context.Context, idx int64, e *pb.LeafData) error { got = append(got, e); return nil })
			}) {
				from := prev.GetTreeSize()
				if from < 0 {
					from = 0
				}
				switch {
				case h.TreeSize < 1 || from >= h.TreeSize:
					if len(got) > 0 {
						bad("there was nothing to audit, but it audited %d entries", len(got))
					}
				case int64(len(got)) != h.TreeSize-from:
					bad("it audited %d entries", len(got))
				case from == 0:
					tr := &spec.Tree{}
					for _, e := range got {
						tr.Append(spec.LeafHash(e.GetLeafInput()))
					}
					if !bytes.Equal(tr.Root(len(got)), h.RootHash) {
						bad("the entries audited don't have that root")
					}
				case x.honest(lt, prev) && x.honest(lt, h):
					for k, e := range got {
						if !bytes.Equal(e.GetLeafInput(), m.Entries[int(from)+k].LeafInput) {
							bad("entry %d was audited as %s", int(from)+k, showLD(e))
							break
						}
					}
				}
			}
		case 11, 12, 13:
			var prev, st *verifiable.MapTreeState
			if rng.Intn(4) > 0 {
				prev = states[rng.Intn(len(states))]
			}
			n := size()
			latest := rng.Intn(2) == 0
			if latest {
				n = 0
			}
			if run(fmt.Sprintf("VerifiedMapState(%v,%d,latest %v)", prev, n, latest), func() (err error) {
				if latest {
					st, err = vm.VerifiedLatestMapState(bg, prev)
				} else {
					st, err = vm.VerifiedMapState(bg, prev, n)
				}
				return err
			}) {
				if st == nil {
					if prev != nil || n != 0 {
						bad("without a state")
					}
					break
				}
				if prev != nil && sameHead(prev.MapTreeHead.MutationLog, st.MapTreeHead.GetMutationLog()) && bytes.Equal(prev.MapTreeHead.RootHash, st.MapTreeHead.RootHash) && sameHead(prev.TreeHeadLogTreeHead, st.TreeHeadLogTreeHead) {
					break
				}
				told := false
				for _, h := range t.maps {
					told = told || bytes.Equal(h.RootHash, st.MapTreeHead.GetRootHash()) && sameHead(h.MutationLog, st.MapTreeHead.GetMutationLog())
				}
				switch {
				case !told:
					bad("%v isn't what the server said", st.MapTreeHead)
				case n != 0 && st.TreeSize() != n:
					bad("it is for size %d", st.TreeSize())
				case latest && prev != nil && st.TreeSize() < prev.TreeSize():
					bad("it went back to size %d", st.TreeSize())
				case prev != nil && !t.consistent(tMut, prev.MapTreeHead.MutationLog, st.MapTreeHead.MutationLog):
					bad("no proof was seen that its mutation log %v is consistent", st.MapTreeHead.MutationLog)
				case st.TreeHeadLogTreeHead == nil, !t.toldHead(tHead, st.TreeHeadLogTreeHead) && (prev == nil || !sameHead(prev.TreeHeadLogTreeHead, st.TreeHeadLogTreeHead)):
					bad("tree head log head %v isn't what the server said", st.TreeHeadLogTreeHead)
				case prev != nil && !sameHead(prev.TreeHeadLogTreeHead, st.TreeHeadLogTreeHead) && (!t.consistent(tHead, prev.TreeHeadLogTreeHead, st.TreeHeadLogTreeHead) || st.TreeHeadLogTreeHead.TreeSize < prev.TreeHeadLogTreeHead.TreeSize):
					bad("no proof was seen that its tree head log %v is consistent", st.TreeHeadLogTreeHead)
				default:
					ml := st.MapTreeHead.MutationLog
					e := headEntry(st.MapTreeHead.RootHash, ml.GetTreeSize(), ml.GetRootHash())
					if !t.included(tHead, st.TreeHeadLogTreeHead, spec.LeafHash(e.LeafInput)) {
						bad("no proof was seen that %v is in the tree head log", st.MapTreeHead)
					}
				}
				if len(states) < 10 {
					states = append(states, st)
				}
			}
		case 14, 15, 16:
			st := states[rng.Intn(len(states))]
			key := []byte("unknown")
			if len(x.w.Muts) > 0 && rng.Intn(5) > 0 {
				key = x.w.Muts[rng.Intn(len(x.w.Muts))].Key
			}
			var v *pb.LeafData
			if run(fmt.Sprintf("VerifiedGet(%x,%v)", key, st.MapTreeHead), func() (err error) { v, err = vm.VerifiedGet(bg, key, st); return err }) {
				good := false
				for _, p := range t.gets {
					good = good || p.TreeSize == st.TreeSize() && bytes.Equal(p.Value.GetLeafInput(), v.GetLeafInput()) && spec.VerifyMap(key, v.GetLeafInput(), p.AuditPath, st.MapTreeHead.RootHash)
				}
				if !good {
					bad("no proof of value %s was seen: %v", showLD(v), t.gets)
				}
				sz := int(st.TreeSize())
				if x.honest(tMut, st.MapTreeHead.MutationLog) && bytes.Equal(st.MapTreeHead.RootHash, x.w.Root(sz)) && !bytes.Equal(v.GetLeafInput(), x.w.Value(key, sz)) {
					bad("the value is %x, not %s", x.w.Value(key, sz), showLD(v))
				}
				// what applications do with it
				r.Guard("validating "+showLD(v), func() {
					verifiable.ValidateJSONLeafData(bg, v)
					verifiable.ShedRedactedJSONFields(v.GetExtraData())
				})
			}
		case 17, 18:
			st := states[rng.Intn(len(states))]
			if st.TreeHeadLogTreeHead.GetTreeSize() > 1<<20 {
				break
			}
			var prev *verifiable.MapTreeState
			if rng.Intn(3) == 0 {
				prev = states[rng.Intn(len(states))]
			}
			var leafFn verifiable.LeafDataAuditFunction
			if rng.Intn(2) == 0 {
				leafFn = verifiable.ValidateJSONLeafData
			}
			var calls []mapCall
			if run(fmt.Sprintf("VerifyMap(%v,%v)", prev, st), func() error {
				return vm.VerifyMap(bg, prev, st, leafFn, func(_ context.Context, i int64, key []byte, v *pb.LeafData) error {
					calls = append(calls, mapCall{i, key, v})
					return nil
				})
			}) && x.honest(tHead, st.TreeHeadLogTreeHead) && (prev == nil || x.honest(tHead, prev.TreeHeadLogTreeHead)) {
				least := st.TreeHeadLogTreeHead.TreeSize
				if prev != nil && prev.TreeHeadLogTreeHead.TreeSize >= least {
					least = 0
				}
				var want []int
				min := 0
				for k, c := range x.w.Changed {
					if c {
						want = append(want, k)
						if int64(k) < least {
							min++
						}
					}
				}
				if len(calls) < min || len(calls) > len(want) {
					bad("it made %d audit calls", len(calls))
				}
				for k, c := range calls {
					if k < len(want) && (c.i != int64(want[k]) || !bytes.Equal(c.key, x.w.Muts[want[k]].Key) || !bytes.Equal(c.v.GetLeafInput(), x.w.Muts[want[k]].LI)) {
						bad("audit call %d was for %d %x %s", k, c.i, c.key, showLD(c.v))
					}
				}
				r.Saw("honest-map-audited")
			}
		case 19:
			ctx, cancel := context.WithTimeout(bg, time.Duration(1+rng.Intn(30))*time.Millisecond)
			switch rng.Intn(6) {
			case 0:
				leaf := m.Tree.Leaves[rng.Intn(m.Len())]
				var h *pb.LogTreeHashResponse
				if run(fmt.Sprintf("BlockUntilPresent(%v,%x)", lt, leaf), func() (err error) { h, err = lg.BlockUntilPresent(ctx, leaf); return err }) {
					if h == nil || !t.included(lt, h, leaf) {
						bad("no proof of that for %v was seen", h)
					}
				}
			case 1:
				n := size()
				var h *pb.MapTreeHashResponse
				if run(fmt.Sprintf("BlockUntilSize(%d)", n), func() (err error) { h, err = vm.BlockUntilSize(ctx, n); return err }) {
					if h.GetMutationLog().GetTreeSize() < n {
						bad("the head is %v", h)
					}
				}
			case 2:
				var e *pb.LeafData
				if run("Entry", func() (err error) { e, err = lg.Entry(bg, size()); return err }) {
					r.Guard("validating "+showLD(e), func() {
						verifiable.ValidateJSONLeafData(bg, e)
						verifiable.ValidateJSONLeafDataFromMutation(e)
						verifiable.ShedRedactedJSONFields(e.GetExtraData())
					})
				}
			case 3:
				from := size()
				run("Entries", func() error {
					n := 0
					for e := range lg.Entries(ctx, from, from+20) {
						verifiable.ValidateJSONLeafData(bg, e)
						if n++; n > 10 {
							break // and leave it
						}
					}
					cancel()
					return nil
				})
			case 4:
				run("Add", func() error {
					p, err := cl.VerifiableLog("other").Add(bg, &pb.LeafData{LeafInput: []byte("x")})
					if err == nil {
						p.LeafHash()
						p.Wait(ctx)
					}
					return err
				})
			case 5:
				run("Set", func() error {
					om := cl.VerifiableMap("other")
					var p verifiable.MapUpdatePromise
					var err error
					switch rng.Intn(3) {
					case 0:
						p, err = om.Set(bg, []byte("k"), &pb.LeafData{LeafInput: []byte("x")})
					case 1:
						p, err = om.Delete(bg, []byte("k"))
					case 2:
						p, err = om.Update(bg, []byte("k"), &pb.LeafData{LeafInput: []byte("y")}, spec.LeafHash(nil))
					}
					if err == nil {
						p.LeafHash()
						p.Wait(ctx)
					}
					return err
				})
			}
			cancel()
		}
	}
}

// c21sticky has servers that deviate in the same way all the time. An operation must come to an end, after a number of
// requests that goes with the sizes it was given.
func c21sticky(r *R) {
	type strategy struct {
		name string
		f    func(k int, req, resp proto.Message, n int) (proto.Message, error)
	}
	fetch := func(f func(q *pb.LogFetchEntriesRequest, a *pb.LogFetchEntriesResponse, n, k int) (*pb.LogFetchEntriesResponse, error)) func(int, proto.Message, proto.Message, int) (proto.Message, error) {
		return func(k int, req, resp proto.Message, n int) (proto.Message, error) {
			if q, ok := req.(*pb.LogFetchEntriesRequest); ok {
				a, _ := resp.(*pb.LogFetchEntriesResponse)
				if a == nil {
					a = &pb.LogFetchEntriesResponse{}
				}
				return f(q, a, n, k)
			}
			return resp, nil
		}
	}
	head := func(f func(h *pb.LogTreeHashResponse, k int)) func(int, proto.Message, proto.Message, int) (proto.Message, error) {
		return func(k int, req, resp proto.Message, n int) (proto.Message, error) {
			switch a := resp.(type) {
			case *pb.LogTreeHashResponse:
				f(a, k)
			case *pb.MapTreeHashResponse:
				if a.MutationLog != nil {
					f(a.MutationLog, k)
				}
			}
			return resp, nil
		}
	}
	var strategies []strategy
	for _, cut := range []int64{0, 1, 2, 3, 5, 8} {
		cut := cut
		strategies = append(strategies,
			strategy{fmt.Sprintf("has no entries from %d", cut), fetch(func(q *pb.LogFetchEntriesRequest, a *pb.LogFetchEntriesResponse, n, k int) (*pb.LogFetchEntriesResponse, error) {
				for len(a.Values) > 0 && q.First+int64(len(a.Values)) > cut {
					a.Values = a.Values[:len(a.Values)-1]
				}
				return a, nil
			})},
			strategy{fmt.Sprintf("fails from entry %d", cut), fetch(func(q *pb.LogFetchEntriesRequest, a *pb.LogFetchEntriesResponse, n, k int) (*pb.LogFetchEntriesResponse, error) {
				if q.First >= cut {
					return nil, errors.New("no")
				}
				if int64(len(a.Values)) > cut-q.First {
					a.Values = a.Values[:cut-q.First]
				}
				return a, nil
			})},
			strategy{fmt.Sprintf("gives %d entries at a time", cut+1), fetch(func(q *pb.LogFetchEntriesRequest, a *pb.LogFetchEntriesResponse, n, k int) (*pb.LogFetchEntriesResponse, error) {
				if int64(len(a.Values)) > cut+1 {
					a.Values = a.Values[:cut+1]
				}
				return a, nil
			})},
			strategy{fmt.Sprintf("gives %d too many", cut+1), fetch(func(q *pb.LogFetchEntriesRequest, a *pb.LogFetchEntriesResponse, n, k int) (*pb.LogFetchEntriesResponse, error) {
				for i := int64(0); i <= cut; i++ {
					a.Values = append(a.Values, &pb.LeafData{LeafInput: []byte("more")})
				}
				return a, nil
			})},
			strategy{fmt.Sprintf("gives nothing to %d of %d requests", cut, cut+1), fetch(func(q *pb.LogFetchEntriesRequest, a *pb.LogFetchEntriesResponse, n, k int) (*pb.LogFetchEntriesResponse, error) {
				if int64(k)%(cut+1) != cut {
					a.Values = nil
				}
				return a, nil
			})},
		)
	}
	for _, d := range []int64{-3, -1, 1, 2, 7} {
		d := d
		strategies = append(strategies,
			strategy{fmt.Sprintf("heads are larger by %d", d), head(func(h *pb.LogTreeHashResponse, k int) { h.TreeSize += d })},
			strategy{fmt.Sprintf("heads grow by %d each time", d), head(func(h *pb.LogTreeHashResponse, k int) { h.TreeSize += d * int64(k) })},
		)
	}
	strategies = append(strategies,
		strategy{"heads are empty", head(func(h *pb.LogTreeHashResponse, k int) { h.TreeSize, h.RootHash = 0, nil })},
		strategy{"heads have no size", head(func(h *pb.LogTreeHashResponse, k int) { h.TreeSize = 0 })},
		strategy{"heads have no root", head(func(h *pb.LogTreeHashResponse, k int) { h.RootHash = nil })},
		strategy{"proofs are empty", func(k int, req, resp proto.Message, n int) (proto.Message, error) {
			switch a := resp.(type) {
			case *pb.LogInclusionProofResponse:
				a.AuditPath = nil
			case *pb.LogConsistencyProofResponse:
				a.AuditPath = nil
			case *pb.MapGetValueResponse:
				a.AuditPath = nil
			}
			return resp, nil
		}},
		strategy{"everything is empty", func(k int, req, resp proto.Message, n int) (proto.Message, error) {
			return resp.ProtoReflect().New().Interface(), nil
		}},
		strategy{"honest", func(k int, req, resp proto.Message, n int) (proto.Message, error) { return resp, nil }},
	)
	r.Par(r.N(24, 200), func(i int) {
		rng := r.Rand(fmt.Sprint("sticky", i))
		x := c21make(r, fmt.Sprint("sticky", i), 1+rng.Intn(14), 1+rng.Intn(14))
		if x == nil {
			return
		}
		for _, s := range strategies {
			for op := 0; op < 12; op++ {
				const limit = 3000
				ctx, cancel := context.WithCancel(bg)
				var mu sync.Mutex
				calls := 0
				what := ""
				svc := &tweakSvc{Inner: x.svc, Tweak: func(_ string, req, resp proto.Message, err error) (proto.Message, error) {
					mu.Lock()
					defer mu.Unlock()
					calls++
					if calls > limit {
						if calls == limit+1 {
							r.Failf("%s: has sent %d requests", what, calls)
						}
						cancel()
						return nil, context.Canceled
					}
					if err != nil {
						if _, ok := req.(*pb.LogFetchEntriesRequest); !ok {
							return nil, err
						}
						resp = &pb.LogFetchEntriesResponse{}
					}
					return s.f(calls, req, resp, 0)
				}}
				cl := hl(svc, "9", "")
				vm := cl.VerifiableMap("m")
				lt := []pb.LogType{tLog, tMut, tHead}[rng.Intn(3)]
				lg := map[pb.LogType]*verifiable.Log{tLog: cl.VerifiableLog("l"), tMut: vm.MutationLog(), tHead: vm.TreeHeadLog()}[lt]
				m := x.model(lt)
				n := 1 + rng.Intn(m.Len())
				h := lth(n, m.Tree.Root(n))
				if rng.Intn(3) == 0 {
					h = lth(m.Len()+1+rng.Intn(20), randBytes(rng, 32))
				}
				var prev *pb.LogTreeHashResponse
				if rng.Intn(2) == 0 {
					p := 1 + rng.Intn(m.Len())
					prev = lth(p, m.Tree.Root(p))
				}
				sn := 1 + rng.Intn(x.w.Size())
				st := x.w.state(sn, sn+rng.Intn(x.w.Size()-sn+1))
				var pst *verifiable.MapTreeState
				if rng.Intn(2) == 0 {
					k := 1 + rng.Intn(x.w.Size())
					pst = x.w.state(k, k)
				}
				var got int64
				var err error
				names := []string{"VerifyEntries", "VerifyEntries", "Entries", "VerifiedLatestTreeHead", "VerifiedTreeHead", "VerifiedLatestMapState", "VerifiedMapState", "VerifyMap", "VerifyMap", "VerifiedGet", "VerifyConsistency", "VerifyInclusion"}
				what = fmt.Sprintf("%s of %v %v from %v (map %v from %v) with a server whose deviation is: %s", names[op], lt, h, prev, st.TreeSize(), pst != nil, s.name)
				r.Case("sticky", "%s", what)
				r.Guard(what, func() {
					switch op {
					case 0, 1:
						err = lg.VerifyEntries(ctx, prev, h, func(context.Context, int64, *pb.LeafData) error { got++; return nil })
						want := h.TreeSize - prev.GetTreeSize()
						if want < 0 {
							want = 0
						}
						if err == nil && got != want {
							r.Failf("%s succeeds after %d entries", what, got)
						}
					case 2:
						for range lg.Entries(ctx, int64(rng.Intn(3)), h.TreeSize) {
							got++
						}
					case 3:
						_, err = lg.VerifiedLatestTreeHead(ctx, prev)
					case 4:
						_, err = lg.VerifiedTreeHead(ctx, prev, int64(rng.Intn(m.Len()+1)))
					case 5:
						_, err = vm.VerifiedLatestMapState(ctx, pst)
					case 6:
						_, err = vm.VerifiedMapState(ctx, pst, int64(rng.Intn(x.w.Size()+1)))
					case 7, 8:
						err = vm.VerifyMap(ctx, pst, st, nil, nil)
					case 9:
						_, err = vm.VerifiedGet(ctx, []byte("k"), st)
					case 10:
						err = lg.VerifyConsistency(ctx, prev, h)
					case 11:
						err = lg.VerifyInclusion(ctx, h, m.Tree.Leaves[0])
					}
				})
				cancel()
				r.Saw("sticky-" + map[bool]string{true: "succeeded", false: "failed"}[err == nil])
				if r.Failed() {
					return
				}
			}
		}
	})
}

// c21stall has servers that never answer; a client's deadline must end that.
func c21stall(r *R) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer lis.Close()
	go func() {
		for i := 0; ; i++ {
			c, err := lis.Accept()
			if err != nil {
				return
			}
			switch i % 3 {
			case 1:
				c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n{"))
			case 2:
				c.Write([]byte("HTTP/1.1 200 OK\r\n"))
			}
			defer c.Close()
		}
	}()
	rc := (&httprest.Client{BaseURL: "http://" + lis.Addr().String(), HTTPClient: &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}}).MustDial()
	gc := (&vgrpc.Client{Address: lis.Addr().String(), NoGrpcSecurity: true}).MustDial()
	rng := r.Rand("stall")
	for k := 0; k < r.N(48, 200); k++ {
		svc := []Svc{rc, gc}[k%2]
		req := ordinary(rng, k)
		what := fmt.Sprintf("a server that never answers, %s, %T", []string{"REST", "gRPC"}[k%2], req)
		r.Case("stall", "%s %v", what, req)
		ended := make(chan error, 1)
		ctx, cancel := context.WithTimeout(bg, 20*time.Millisecond)
		go func() {
			_, err := callSvcCtx(ctx, svc, req)
			ended <- err
		}()
		select {
		case err := <-ended:
			if err == nil {
				r.Failf("%s: success", what)
			}
			r.Saw("deadline-kept")
		case <-time.After(100 * time.Second):
			r.Failf("%s: still waiting 100 s after the context's deadline", what)
		}
		cancel()
		if r.Failed() {
			return
		}
	}
	// waiting for what never comes
	svc := newService(&specStore{}, nil, nil)
	svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lref("9", "l", tLog), Value: &pb.LeafData{LeafInput: []byte("x")}})
	svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: mref("9", "m"), Mutation: &pb.MapMutation{Action: "delete"}})
	cl := hl(svc, "9", "")
	for what, f := range map[string]func(context.Context) error{
		"BlockUntilPresent": func(ctx context.Context) error {
			_, err := cl.VerifiableLog("l").BlockUntilPresent(ctx, spec.LeafHash([]byte("y")))
			return err
		},
		"BlockUntilSize": func(ctx context.Context) error { _, err := cl.VerifiableMap("m").BlockUntilSize(ctx, 2); return err },
	} {
		ctx, cancel := context.WithTimeout(bg, 50*time.Millisecond)
		ended := make(chan error, 1)
		go func() { ended <- f(ctx) }()
		select {
		case err := <-ended:
			if err == nil {
				r.Failf("%s of what isn't there succeeded", what)
			}
			r.Saw("wait-ended")
		case <-time.After(100 * time.Second):
			r.Failf("%s: still waiting 100 s after the context's deadline", what)
		}
		cancel()
	}
}
