package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"vharness/spec"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C19"] = &property{level: "exploration", run: c19,
		rule:        "Random requests of all eight operations, by readers and writers of different rights, are sent embedded, over gRPC, over REST and over chains of both; what the service receives must be what was sent, what the caller gets must be what the service answered (and what it answers when called directly), with errors of the same class. Every route of the documented REST API is used raw, and compared with the model. A case is a (transport, request) or a (route, body).",
		assumptions: []string{"requests the REST grammar can express: numeric accounts, names of [0-9a-z-_], keys that aren't empty, sizes and indices that aren't negative, API keys without blanks, present values, no value or previous hash where the action has none"}}
}

func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	switch c := code(err); c {
	case codes.PermissionDenied, codes.InvalidArgument, codes.NotFound:
		return c.String()
	}
	return "other"
}

// recorder notes what reaches the service.
type recorder struct {
	tweakSvc
	mu   sync.Mutex
	req  proto.Message
	resp proto.Message
	err  error
	n    int
}

func newRecorder(inner Svc) *recorder {
	rec := &recorder{}
	rec.Inner = inner
	rec.Tweak = func(m string, req, resp proto.Message, err error) (proto.Message, error) {
		rec.mu.Lock()
		defer rec.mu.Unlock()
		rec.n++
		rec.req = proto.Clone(req)
		rec.resp, rec.err = nil, err
		if err == nil {
			rec.resp = proto.Clone(resp)
		}
		return resp, err
	}
	return rec
}

func (rec *recorder) reset() {
	rec.mu.Lock()
	rec.req, rec.resp, rec.err, rec.n = nil, nil, nil, 0
	rec.mu.Unlock()
}

// chain puts transports between a service and its client.
func chainOf(svc Svc, via []string) (Svc, func()) {
	var done []func()
	for i := len(via) - 1; i >= 0; i-- {
		switch via[i] {
		case "rest":
			s := newREST(svc)
			svc = s.Client()
			done = append(done, s.Close)
		case "grpc":
			s := newGRPC(svc)
			svc = s.Client()
			done = append(done, s.Close)
		}
	}
	return svc, func() {
		for i := len(done) - 1; i >= 0; i-- {
			done[i]()
		}
	}
}

var c19policy = []*pb.ResourceAccount{
	{Id: "19", Policy: []*pb.AccessPolicy{
		{ApiKey: "all", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
		{ApiKey: "a/ll+\"cl\u00e9,;=?", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
		{ApiKey: "some", NameMatch: "*", AllowedFields: []string{"a", "timestamp"}, Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_GET_VALUE, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY}},
		{ApiKey: "", NameMatch: "pub*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_LOG_RAW_ADD, pb.Permission_PERM_LOG_PROVE_INCLUSION}},
	}},
	{Id: "019", Policy: []*pb.AccessPolicy{{ApiKey: "*", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}}},
}

func c19(r *R) {
	chains := [][]string{{"rest"}, {"grpc"}, {"rest", "grpc"}, {"grpc", "rest"}, {"rest", "rest"}, {"grpc", "grpc"}, {"rest", "grpc", "rest"}}
	n := r.N(56, 700)
	r.Par(n, func(i int) { c19chain(r, i, chains[i%len(chains)]) })
	r.Par(r.N(40, 600), func(i int) { c19raw(r, i) })
	c19client(r)
	r.Par(r.N(28, 300), func(i int) { c19stub(r, i, chains[i%len(chains)]) })
}

// c19client checks that the REST client goes to the server by the HTTP client it was given, or the default one.
func c19client(r *R) {
	st := &specStore{}
	s := newREST(newService(st, nil, staticPolicy(c19policy)))
	defer s.Close()
	tr := &http.Transport{DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		if addr != "vds.invalid:80" {
			return nil, errors.New("unexpected address " + addr)
		}
		return (&net.Dialer{}).DialContext(ctx, "tcp", s.Listener.Addr().String())
	}}
	defer tr.CloseIdleConnections()
	for i, c := range []*httprest.Client{{BaseURL: "http://vds.invalid", HTTPClient: &http.Client{Transport: tr}}, {BaseURL: s.URL}} {
		what := []string{"a REST client with an HTTP client of its own", "a REST client with the default HTTP client"}[i]
		svc, err := c.Dial()
		if err != nil {
			r.Failf("%s: %v", what, err)
			return
		}
		lr := &pb.LogRef{Account: acct("19", "all"), Name: fmt.Sprint("cl", i), LogType: tLog}
		mr := &pb.MapRef{Account: acct("19", "all"), Name: fmt.Sprint("cm", i)}
		v := &pb.LeafData{LeafInput: []byte("v")}
		for _, req := range []proto.Message{
			&pb.LogAddEntryRequest{Log: lr, Value: v}, &pb.LogAddEntryRequest{Log: lr, Value: &pb.LeafData{LeafInput: []byte("w")}}, &pb.LogTreeHashRequest{Log: lr}, &pb.LogFetchEntriesRequest{Log: lr}, &pb.LogInclusionProofRequest{Log: lr, TreeSize: 2, LeafIndex: 1},
			&pb.LogInclusionProofRequest{Log: lr, TreeSize: 2, MtlHash: spec.LeafHash([]byte("v"))}, &pb.LogConsistencyProofRequest{Log: lr, FromSize: 1, TreeSize: 2},
			&pb.MapSetValueRequest{Map: mr, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: v}}, &pb.MapTreeHashRequest{Map: mr}, &pb.MapGetValueRequest{Map: mr, Key: []byte("k")},
		} {
			r.Case("client", "%s %T", what, req)
			if _, err := callSvc(svc, req); err != nil {
				r.Failf("%s: %T: %v", what, req, err)
				return
			}
		}
		r.Saw("rest-client-reached")
	}
	http.DefaultClient.CloseIdleConnections()
	c19status(r)
	for _, kind := range []string{"memory", "spec", "bolt", "badger"} {
		c19doc(r, kind)
	}
}

// c19status checks that a REST client takes no answer for a success that something on the way says is a failure, whatever comes with it, and that it doesn't ask for a mutation twice.
func c19status(r *R) {
	st := &specStore{}
	honest := newREST(newService(st, nil, staticPolicy(c19policy)))
	defer honest.Close()
	var code, calls int64
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		atomic.AddInt64(&calls, 1)
		rec := httptest.NewRecorder()
		honest.Config.Handler.ServeHTTP(rec, q)
		for k, v := range rec.Header() {
			w.Header()[k] = v
		}
		w.WriteHeader(int(atomic.LoadInt64(&code)))
		w.Write(rec.Body.Bytes())
	}))
	defer s.Close()
	svc, err := (&httprest.Client{BaseURL: s.URL}).Dial()
	if err != nil {
		r.Failf("REST client: %v", err)
		return
	}
	lr := &pb.LogRef{Account: acct("19", "all"), Name: "sl", LogType: tLog}
	mr := &pb.MapRef{Account: acct("19", "all"), Name: "sm"}
	for c := 200; c < 600; c++ {
		if c == 201 {
			c = 400
		}
		atomic.StoreInt64(&code, int64(c))
		v := &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", c))}
		for _, req := range []proto.Message{
			&pb.LogAddEntryRequest{Log: lr, Value: v}, &pb.LogTreeHashRequest{Log: lr}, &pb.LogFetchEntriesRequest{Log: lr}, &pb.LogInclusionProofRequest{Log: lr, TreeSize: 1},
			&pb.MapSetValueRequest{Map: mr, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: v}}, &pb.MapSetValueRequest{Map: mr, Mutation: &pb.MapMutation{Action: "delete", Key: []byte("k")}},
			&pb.MapTreeHashRequest{Map: mr}, &pb.MapGetValueRequest{Map: mr, Key: []byte("k")},
		} {
			was := atomic.LoadInt64(&calls)
			_, err := callSvc(svc, req)
			r.Case("status", "%d %T", c, req)
			what := fmt.Sprintf("REST client, %T, and a server that answers with status %d", req, c)
			if (err == nil) != (c == 200) {
				r.Failf("%s: it gives %v", what, err)
				return
			}
			if want := map[int]string{400: "InvalidArgument", 401: "PermissionDenied", 404: "NotFound"}[c]; c != 200 && errClass(err) != want && (want != "" || errClass(err) != "other") && c != 403 {
				r.Failf("%s: it gives %v", what, err)
				return
			}
			if n := atomic.LoadInt64(&calls) - was; n != 1 && reflect.TypeOf(req) == reflect.TypeOf(&pb.MapSetValueRequest{}) {
				r.Failf("%s: the server gets the mutation %d times", what, n)
				return
			}
		}
		r.Saw("status")
	}
}

// stubService answers with whatever Answer makes up, so that the transports are seen with answers and errors that the real service doesn't come to in a run.
type stubService struct {
	tweakSvc
}

func (s *stubService) LogAddEntry(ctx context.Context, req *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return stubbed[*pb.LogAddEntryResponse](s, req)
}
func (s *stubService) LogTreeHash(ctx context.Context, req *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return stubbed[*pb.LogTreeHashResponse](s, req)
}
func (s *stubService) LogInclusionProof(ctx context.Context, req *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return stubbed[*pb.LogInclusionProofResponse](s, req)
}
func (s *stubService) LogConsistencyProof(ctx context.Context, req *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return stubbed[*pb.LogConsistencyProofResponse](s, req)
}
func (s *stubService) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return stubbed[*pb.LogFetchEntriesResponse](s, req)
}
func (s *stubService) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return stubbed[*pb.MapSetValueResponse](s, req)
}
func (s *stubService) MapGetValue(ctx context.Context, req *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return stubbed[*pb.MapGetValueResponse](s, req)
}
func (s *stubService) MapTreeHash(ctx context.Context, req *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return stubbed[*pb.MapTreeHashResponse](s, req)
}

func stubbed[A proto.Message](s *stubService, req proto.Message) (A, error) {
	a, err := s.Tweak("", req, nil, nil)
	if err != nil {
		var zero A
		return zero, err
	}
	return a.(A), nil
}

// c19doc makes the requests that the documentation of the REST API gives as examples, whose answers must be those given there.
func c19doc(r *R, kind string) {
	st, closer := newStore(r, kind)
	defer closer()
	rs := newREST(newService(st, nil, nil))
	defer rs.Close()
	do := func(method, path, body string) (string, http.Header) {
		what := kind + " storage, documented example: " + method + " " + path
		r.Case("example", "%s %s", what, body)
		req, err := http.NewRequest(method, rs.URL+path, strings.NewReader(body))
		if err != nil {
			panic(err)
		}
		if method == "POST" {
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded") // what curl says
		}
		resp, err := rs.hc.Do(req)
		if err != nil {
			r.Failf("%s: %v", what, err)
			return "", nil
		}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil || resp.StatusCode != 200 {
			r.Failf("%s: %d %q %v", what, resp.StatusCode, b, err)
		}
		return string(b), resp.Header
	}
	same := func(method, path, body, want string) {
		got, _ := do(method, path, body)
		var g, w interface{}
		if json.Unmarshal([]byte(got), &g) != nil || json.Unmarshal([]byte(want), &w) != nil || !reflect.DeepEqual(c19trim(g), c19trim(w)) {
			r.Failf("%s storage, documented example: %s %s answers %s, documented is %s", kind, method, path, got, want)
		}
	}
	text := func(path, want string, proof ...string) {
		got, h := do("GET", path, "")
		if got != want {
			r.Failf("%s storage, documented example: GET %s answers %q, documented is %q", kind, path, got, want)
		}
		if proof != nil {
			if got := h["X-Verified-Proof"]; fmt.Sprint(got) != fmt.Sprint(proof) || h.Get("X-Verified-Treesize") != "3" {
				r.Failf("%s storage, documented example: GET %s has the headers %v, documented are X-Verified-Proof: %v and X-Verified-Treesize: 3", kind, path, h, proof)
			}
		}
	}
	L, M := "/v2/account/0/log/test", "/v2/account/0/map/testmap"
	for again := 0; again < 2; again++ { // adding what is there already changes nothing
		same("POST", L+"/entry", "foo", `{"leaf_hash":"HSA5+nlx9L8BocIMsqP+evRoZcqc2bhAwgY9+P7E/3U="}`)
		same("POST", L+"/entry", "bar", `{"leaf_hash":"SFkEEpvdpdG1+8a8SoKVns+5BC20TcCP6H42Cwo/JQE="}`)
		same("POST", L+"/entry", "baz", `{"leaf_hash":"sG1pWGnxBf/6X2jEuWKNWKGv9GmjxiyMdN2yr0exeO8="}`)
		text(L+"/entry/0", "foo")
		same("GET", L+"/entries/0-2", "", `{"values":[{"leaf_input":"Zm9v"},{"leaf_input":"YmFy"}]}`)
		same("GET", L+"/tree/head", "", `{"tree_size":3,"root_hash":"WsgzPtL4gEb+Y5cgWyvyavq9JSti6RAZjgDIOZ0Q2PU="}`)
		same("GET", L+"/tree/2", "", `{"tree_size":2,"root_hash":"OShqSlUxYidR1oRbuO+0zzO+wsXz+EMNdYSHQ3GjW9o="}`)
		same("GET", L+"/tree/2/consistency/1", "", `{"from_size":1,"tree_size":2,"audit_path":["SFkEEpvdpdG1+8a8SoKVns+5BC20TcCP6H42Cwo/JQE="]}`)
		same("GET", L+"/tree/2/inclusion/s/foo", "", `{"tree_size":2,"audit_path":["SFkEEpvdpdG1+8a8SoKVns+5BC20TcCP6H42Cwo/JQE="]}`)
	}
	for _, kv := range [][2]string{{"foo", "bar"}, {"baz", "boz"}, {"ba3", "b2z"}} {
		do("PUT", M+"/key/s/"+kv[0], kv[1])
	}
	for _, size := range []string{"head", "3"} {
		text(M+"/tree/"+size+"/key/s/foo", "bar", "0/b3b798ddb6961a327d91db5af5e8d62877638d8a84d360bfffe4b2779596f5bf", "2/f24156884dead09f0356ddde3010958f783fc30e0549df4e79683bdf49ba0dc7")
		got, _ := do("GET", M+"/tree/"+size, "")
		var h struct {
			Root []byte `json:"root_hash"`
			Log  struct {
				Size int64 `json:"tree_size"`
			} `json:"mutation_log"`
		}
		if err := json.Unmarshal([]byte(got), &h); err != nil || fmt.Sprintf("%x", h.Root) != c19docRoot || h.Log.Size != 3 {
			r.Failf("%s storage, documented example: the map head is %s, documented is the root hash %s with 3 mutations", kind, got, c19docRoot)
		}
	}
	for i, kv := range [][2]string{{"foo", "bar"}, {"baz", "boz"}, {"ba3", "b2z"}} {
		got, _ := do("GET", fmt.Sprintf("%s/log/mutation/entry/%d/xjson", M, i), "")
		var e struct {
			Timestamp, Action string
			Key               []byte
			Value             struct {
				LI []byte `json:"leaf_input"`
			}
		}
		if err := json.Unmarshal([]byte(got), &e); err != nil || e.Action != "set" || string(e.Key) != kv[0] || string(e.Value.LI) != kv[1] || e.Timestamp == "" {
			r.Failf("%s storage, documented example: mutation %d is %s", kind, i, got)
		}
	}
}

// the root hash of the documented map
const c19docRoot = "19f065f9ce1ba89c342a992e48c51b5390743005f4c4158c11bb81f08e2f6c23"

// c19trim drops what is as if it weren't there.
func c19trim(v interface{}) interface{} {
	if m, ok := v.(map[string]interface{}); ok {
		rv := map[string]interface{}{}
		for k, x := range m {
			if x = c19trim(x); x != nil && x != 0.0 && x != "" {
				rv[k] = x
			}
		}
		return rv
	}
	if a, ok := v.([]interface{}); ok {
		rv := []interface{}{}
		for _, x := range a {
			rv = append(rv, c19trim(x))
		}
		return rv
	}
	return v
}

func c19hash(rng *rand.Rand) []byte {
	h := randBytes(rng, 32)
	switch rng.Intn(10) {
	case 0:
		h = make([]byte, 32)
	case 1:
		h = bytes.Repeat([]byte{0xff}, 32)
	case 2:
		h[0], h[31] = 0, 0
	}
	return h
}

func c19path(rng *rand.Rand) [][]byte {
	n := []int{0, 1, 2, 7, 8, 20, 40, 63}[rng.Intn(8)]
	rv := [][]byte{}
	for i := 0; i < n; i++ {
		rv = append(rv, c19hash(rng))
	}
	return rv
}

func c19num(rng *rand.Rand) int64 {
	return []int64{0, 1, 2, 9, 10, 255, 256, 65536, 1 << 31, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64, rng.Int63(), rng.Int63n(100000)}[rng.Intn(17)]
}

func c19anyValue(rng *rand.Rand, i int) *pb.LeafData {
	switch rng.Intn(24) {
	case 0:
		return &pb.LeafData{LeafInput: randBytes(rng, []int{65535, 65536, 65537, 1 << 20, 1<<20 + 1}[rng.Intn(5)])}
	case 1:
		return &pb.LeafData{LeafInput: randBytes(rng, 1500000), ExtraData: randBytes(rng, 1000000)}
	case 2:
		return &pb.LeafData{ExtraData: []byte("extra only")}
	case 3:
		return &pb.LeafData{LeafInput: []byte("<html><script>alert(1)</script>"), ExtraData: []byte("\xef\xbb\xbf{}")}
	}
	return c19value(rng, i)
}

func c19answer(rng *rand.Rand, i int, req proto.Message) proto.Message {
	switch req.(type) {
	case *pb.LogAddEntryRequest:
		return &pb.LogAddEntryResponse{LeafHash: c19hash(rng)}
	case *pb.LogTreeHashRequest:
		if rng.Intn(8) == 0 {
			return &pb.LogTreeHashResponse{}
		}
		return &pb.LogTreeHashResponse{TreeSize: c19num(rng), RootHash: c19hash(rng)}
	case *pb.LogInclusionProofRequest:
		return &pb.LogInclusionProofResponse{LeafIndex: c19num(rng), TreeSize: c19num(rng), AuditPath: c19path(rng)}
	case *pb.LogConsistencyProofRequest:
		return &pb.LogConsistencyProofResponse{FromSize: c19num(rng), TreeSize: c19num(rng), AuditPath: c19path(rng)}
	case *pb.LogFetchEntriesRequest:
		rv := &pb.LogFetchEntriesResponse{}
		n := []int{0, 1, 1, 2, 3, 10, 101, 1000}[rng.Intn(8)]
		for x := 0; x < n; x++ {
			if n < 4 && x == 0 {
				rv.Values = append(rv.Values, c19anyValue(rng, i+x))
			} else {
				rv.Values = append(rv.Values, &pb.LeafData{LeafInput: randBytes(rng, rng.Intn(40)), ExtraData: randBytes(rng, rng.Intn(3)), Format: pb.DataFormat(rng.Intn(2))})
			}
		}
		return rv
	case *pb.MapSetValueRequest:
		return &pb.MapSetValueResponse{LeafHash: c19hash(rng)}
	case *pb.MapGetValueRequest:
		rv := &pb.MapGetValueResponse{TreeSize: c19num(rng), Value: c19anyValue(rng, i), AuditPath: make([][]byte, 256)}
		switch rng.Intn(4) {
		case 0: // as a real one looks
			for x := 0; x < rng.Intn(12); x++ {
				rv.AuditPath[x] = c19hash(rng)
			}
		case 1: // somewhere
			for x := 0; x < 5; x++ {
				rv.AuditPath[rng.Intn(256)] = c19hash(rng)
			}
		case 2: // everywhere
			for x := range rv.AuditPath {
				rv.AuditPath[x] = c19hash(rng)
			}
		}
		return rv
	case *pb.MapTreeHashRequest:
		rv := &pb.MapTreeHashResponse{RootHash: c19hash(rng), MutationLog: &pb.LogTreeHashResponse{}}
		if rng.Intn(8) > 0 {
			rv.MutationLog = &pb.LogTreeHashResponse{TreeSize: c19num(rng), RootHash: c19hash(rng)}
		}
		return rv
	}
	panic(fmt.Sprintf("%T", req))
}

var c19errors = func() []error {
	rv := []error{errors.New("plain"), io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, fs.ErrNotExist, fs.ErrPermission}
	for c := codes.Canceled; c <= codes.Unauthenticated; c++ {
		rv = append(rv, status.Error(c, "made up"), status.Error(c, ""))
	}
	return rv
}()

// c19stub sends requests to a service whose answers and errors are made up.
func c19stub(r *R, round int, via []string) {
	rng := r.Rand(fmt.Sprint("stub", round))
	stub := &stubService{}
	svc, done := chainOf(stub, via)
	defer done()
	name := "made up answers, " + strings.Join(via, " over ")
	for i := 0; i < 120; i++ {
		acc := acct([]string{"19", "0", "00012345678901234567890"}[rng.Intn(3)], []string{"all", "", "k-1_.~", "a+/Z9=="}[rng.Intn(4)])
		nm := []string{"l", "0", "-", "x_y-2", strings.Repeat("long", 200)}[rng.Intn(5)]
		lr := &pb.LogRef{Account: acc, Name: nm, LogType: []pb.LogType{tLog, tMut, tHead}[rng.Intn(3)]}
		mr := &pb.MapRef{Account: acc, Name: nm}
		var req proto.Message
		switch rng.Intn(10) {
		case 0:
			req = &pb.LogAddEntryRequest{Log: lr, Value: c19anyValue(rng, i)}
		case 1:
			mu := &pb.MapMutation{Action: "set", Key: c19key(rng), Value: c19anyValue(rng, i)}
			switch rng.Intn(3) {
			case 0:
				mu.Action, mu.Value = "delete", nil
			case 1:
				mu.Action, mu.PreviousLeafHash = "update", randBytes(rng, []int{rng.Intn(33), 32, rng.Intn(200)}[rng.Intn(3)])
			}
			req = &pb.MapSetValueRequest{Map: mr, Mutation: mu}
		case 2:
			req = &pb.LogTreeHashRequest{Log: lr, TreeSize: c19num(rng)}
		case 3:
			req = &pb.LogFetchEntriesRequest{Log: lr, First: c19num(rng), Last: c19num(rng)}
		case 4:
			req = &pb.LogInclusionProofRequest{Log: lr, TreeSize: c19num(rng), LeafIndex: c19num(rng)}
		case 5:
			req = &pb.LogInclusionProofRequest{Log: lr, TreeSize: c19num(rng), MtlHash: randBytes(rng, 1+rng.Intn(40))}
		case 6:
			req = &pb.LogConsistencyProofRequest{Log: lr, TreeSize: c19num(rng), FromSize: c19num(rng)}
		case 7:
			req = &pb.MapTreeHashRequest{Map: mr, TreeSize: c19num(rng)}
		default:
			req = &pb.MapGetValueRequest{Map: mr, TreeSize: c19num(rng), Key: c19key(rng)}
		}
		var got []proto.Message
		var mu sync.Mutex
		answer, fail := c19answer(rng, i, req), error(nil)
		if rng.Intn(3) == 0 {
			fail = c19errors[rng.Intn(len(c19errors))]
		}
		stub.Tweak = func(_ string, q, _ proto.Message, _ error) (proto.Message, error) {
			mu.Lock()
			defer mu.Unlock()
			got = append(got, proto.Clone(q))
			return proto.Clone(answer), fail
		}
		what := fmt.Sprintf("%s, round %d step %d, %T %s", name, round, i, req, trunc(fmt.Sprint(req), 300))
		r.Case("stub", "%s %T", name, req)
		var resp proto.Message
		var err error
		if !r.Guard(what, func() { resp, err = callSvc(svc, req) }) {
			return
		}
		mu.Lock()
		calls := got
		mu.Unlock()
		if len(calls) != 1 {
			r.Failf("%s: the service was called %d times (result %v)", what, len(calls), err)
			return
		}
		if !proto.Equal(calls[0], req) {
			r.Failf("%s: the service received %s", what, trunc(fmt.Sprint(calls[0]), 400))
			return
		}
		if errClass(err) != errClass(fail) {
			r.Failf("%s: the service answers with the error %v, the client gets %v", what, fail, err)
			return
		}
		if fail != nil {
			r.Saw("stub-error-" + errClass(err))
			continue
		}
		r.Saw(fmt.Sprintf("stub-%T", req))
		if !proto.Equal(resp, answer) {
			r.Failf("%s: the service answers %s, the client gets %s", what, trunc(fmt.Sprint(answer), 1500), trunc(fmt.Sprint(resp), 1500))
			return
		}
	}
}

func c19key(rng *rand.Rand) []byte {
	switch rng.Intn(8) {
	case 0:
		return randBytes(rng, 1+rng.Intn(40))
	case 1:
		return []byte{0}
	case 2:
		return []byte("a/b?c#d%41 e")
	case 3:
		return bytes.Repeat([]byte{0xfe}, 3000)
	default:
		return []byte(fmt.Sprintf("k%d", rng.Intn(4)))
	}
}

func c19value(rng *rand.Rand, i int) *pb.LeafData {
	switch rng.Intn(8) {
	case 0:
		return &pb.LeafData{}
	case 1:
		return &pb.LeafData{LeafInput: randBytes(rng, rng.Intn(300)), ExtraData: randBytes(rng, rng.Intn(100))}
	case 2:
		if rng.Intn(12) == 0 {
			return &pb.LeafData{LeafInput: bytes.Repeat([]byte{byte(i)}, 1<<20+1), ExtraData: randBytes(rng, 1500000)}
		}
		return &pb.LeafData{LeafInput: bytes.Repeat([]byte{byte(i)}, 200000)}
	case 3, 4:
		j, _ := json.Marshal(map[string]interface{}{"a": i, "b": "<é\u2028>&", "c": []interface{}{nil, true, 1.5}})
		if rng.Intn(2) == 0 {
			o, err := objecthash.Redactable(map[string]interface{}{"a": float64(i), "b": "x"})
			if err != nil {
				panic(err)
			}
			j, _ = json.Marshal(o)
		}
		var o interface{}
		json.Unmarshal(j, &o)
		h, err := objecthash.ObjectHashWithStdRedaction(o)
		if err != nil {
			panic(err)
		}
		return &pb.LeafData{LeafInput: h, ExtraData: j, Format: pb.DataFormat_JSON}
	case 5:
		return &pb.LeafData{LeafInput: []byte("not its hash"), ExtraData: []byte("{broken"), Format: pb.DataFormat_JSON}
	default:
		return &pb.LeafData{LeafInput: []byte(fmt.Sprintf("v%d", rng.Intn(20)))}
	}
}

func c19size(rng *rand.Rand, n int) int64 {
	switch rng.Intn(12) {
	case 0:
		return int64(n) + 1
	case 1:
		return math.MaxInt64
	case 2:
		return math.MaxInt64 - 1
	case 3, 4:
		return 0
	case 5:
		return int64(n)
	case 6:
		return 1 << 32
	default:
		return int64(rng.Intn(n + 1))
	}
}

func c19chain(r *R, round int, via []string) {
	rng := r.Rand(fmt.Sprint("chain", round))
	st := &specStore{}
	direct := newService(st, nil, staticPolicy(c19policy))
	rec := newRecorder(direct)
	svc, done := chainOf(rec, via)
	defer done()
	name := strings.Join(via, " over ")
	size := map[string]int{}
	for i := 0; i < 150; i++ {
		acc := acct("19", []string{"all", "all", "all", "all", "all", "all", "all", "all", "a/ll+\"cl\u00e9,;=?", "some", "", "wrong", "ALL", "all,all", "\"all\"", "%61ll", "'all'"}[rng.Intn(17)])
		if rng.Intn(12) == 0 {
			acc.Id = []string{"019", "20", "0", "190000000000000000000000000000000"}[rng.Intn(4)]
		}
		nm := []string{"l", "l", "pub-1", "x_y-2", "-", "0"}[rng.Intn(6)]
		lt := []pb.LogType{tLog, tLog, tMut, tHead}[rng.Intn(4)]
		lr := &pb.LogRef{Account: acc, Name: nm, LogType: lt}
		mr := &pb.MapRef{Account: acc, Name: nm}
		id := acc.Id + "/" + nm + fmt.Sprint(lt == tLog)
		n := size[id]
		var req proto.Message
		write, both := false, false
		switch rng.Intn(10) {
		case 0, 1:
			req = &pb.LogAddEntryRequest{Log: lr, Value: c19value(rng, i)}
			write = true
		case 2, 3:
			mu := &pb.MapMutation{Action: "set", Key: c19key(rng), Value: c19value(rng, i)}
			switch rng.Intn(4) {
			case 0:
				mu.Action, mu.Value = "delete", nil
			case 1:
				mu.Action = "update"
				mu.PreviousLeafHash = spec.LeafHash(nil)
				if rng.Intn(3) == 0 {
					mu.PreviousLeafHash = [][]byte{nil, {1}, randBytes(rng, 32), spec.LeafHash([]byte("v1"))}[rng.Intn(4)]
				}
			}
			id = acc.Id + "/" + nm + "false"
			req = &pb.MapSetValueRequest{Map: mr, Mutation: mu}
			write = true
		case 4:
			req = &pb.LogTreeHashRequest{Log: lr, TreeSize: c19size(rng, n)}
		case 5:
			req = &pb.LogFetchEntriesRequest{Log: lr, First: c19size(rng, n), Last: c19size(rng, n)}
		case 6:
			q := &pb.LogInclusionProofRequest{Log: lr, TreeSize: c19size(rng, n), LeafIndex: c19size(rng, n)}
			switch rng.Intn(5) {
			case 0:
				q.LeafIndex, q.MtlHash = 0, spec.LeafHash([]byte(fmt.Sprintf("v%d", rng.Intn(20))))
			case 1:
				q.LeafIndex, q.MtlHash = 0, randBytes(rng, 1+rng.Intn(40))
			case 2: // by both: what counts is the answer, not what's left out on the way
				q.MtlHash, both = spec.LeafHash([]byte(fmt.Sprintf("v%d", rng.Intn(20)))), true
				r.Saw("hash-and-index")
			}
			req = q
		case 7:
			req = &pb.LogConsistencyProofRequest{Log: lr, TreeSize: c19size(rng, n), FromSize: c19size(rng, n)}
		case 8:
			n = size[acc.Id+"/"+nm+"false"]
			req = &pb.MapTreeHashRequest{Map: mr, TreeSize: c19size(rng, n)}
		case 9:
			n = size[acc.Id+"/"+nm+"false"]
			req = &pb.MapGetValueRequest{Map: mr, TreeSize: c19size(rng, n), Key: c19key(rng)}
		}
		what := fmt.Sprintf("%s, round %d step %d, %T %s", name, round, i, req, trunc(fmt.Sprint(req), 300))
		r.Case("request", "%s %T %s", name, req, trunc(fmt.Sprint(req), 200))
		r.Saw(fmt.Sprintf("via-%s", via[0]))
		rec.reset()
		dump := ""
		if write {
			dump = st.Dump()
		}
		sent := proto.Clone(req)
		var resp proto.Message
		var err error
		if !r.Guard(what, func() { resp, err = callSvc(svc, req) }) {
			return
		}
		if !proto.Equal(sent, req) {
			r.Failf("%s: the client modified the request to %v", what, req)
			return
		}
		if rec.n != 1 {
			r.Failf("%s: the service was called %d times (result %v)", what, rec.n, err)
			return
		}
		if !both && !proto.Equal(rec.req, req) {
			r.Failf("%s: the service received %s", what, trunc(fmt.Sprint(rec.req), 400))
			return
		}
		if errClass(err) != errClass(rec.err) {
			r.Failf("%s: the service answers %v, the client gets %v", what, rec.err, err)
			return
		}
		r.Saw("class-" + errClass(err))
		if err == nil && !proto.Equal(resp, rec.resp) {
			r.Failf("%s: the service answers %s, the client gets %s", what, trunc(fmt.Sprint(rec.resp), 600), trunc(fmt.Sprint(resp), 600))
			return
		}
		if !write {
			dresp, derr := callSvc(direct, req)
			if errClass(derr) != errClass(err) || err == nil && !proto.Equal(resp, dresp) {
				r.Failf("%s: directly it's %v %v, but the client gets %v %v", what, dresp, derr, resp, err)
				return
			}
		} else if err == nil {
			size[id]++
		} else if st.Dump() != dump {
			r.Failf("%s: answered with an error, but stored something", what)
			return
		}
	}
}

// ---- the documented REST API, raw

type rawREST struct {
	r    *R
	s    *restServer
	what string
	ok   bool
}

// unroutable stands for the statuses of paths that aren't part of the API.
const unroutable = 0

// do makes an HTTP request and checks the status.
func (c *rawREST) do(method, path string, body []byte, hdr [][2]string, wantStatus int) ([]byte, http.Header) {
	if !c.ok {
		return nil, nil
	}
	req, err := http.NewRequest(method, c.s.URL+"/v2"+path, bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	for _, h := range hdr {
		req.Header.Add(h[0], h[1])
	}
	resp, err := c.s.hc.Do(req)
	if err != nil {
		c.r.Failf("%s: %s %s: %v", c.what, method, path, err)
		c.ok = false
		return nil, nil
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	c.r.Saw("raw-" + method)
	c.r.Case("route", "%s %s %s", method, path, trunc(string(body), 100))
	if wantStatus == unroutable && (resp.StatusCode == 404 || resp.StatusCode == 405) {
		wantStatus = resp.StatusCode
	}
	if err != nil || resp.StatusCode != wantStatus {
		c.r.Failf("%s: %s %s (%v) with %q: status %d, %v instead of %d", c.what, method, path, hdr, trunc(string(body), 200), resp.StatusCode, err, wantStatus)
		c.ok = false
	}
	return b, resp.Header
}

func (c *rawREST) failf(f string, args ...interface{}) {
	if c.ok {
		c.r.Failf(c.what+": "+f, args...)
		c.ok = false
	}
}

func jsonEqual(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	var p, q interface{}
	json.Unmarshal(x, &p)
	json.Unmarshal(y, &q)
	return reflect.DeepEqual(p, q)
}

// c19body makes a body for an entry or value in one of the documented forms, and gives what's to be stored: its data, or for redactable JSON a check.
func c19body(rng *rand.Rand, i int, suffix string) (body []byte, want *pb.LeafData, orig interface{}) {
	switch suffix {
	case "":
		body = []byte(fmt.Sprintf("raw %d", i))
		switch rng.Intn(5) {
		case 0:
			body = randBytes(rng, 1+rng.Intn(50))
		case 1:
			body = []byte("again")
		case 2:
			if rng.Intn(4) == 0 {
				body = bytes.Repeat([]byte(fmt.Sprintf("%08x", i)), []int{8193, 1<<17 + 1, 3 << 17}[rng.Intn(3)])
			}
		}
		return body, &pb.LeafData{LeafInput: body}, nil
	case "/extra":
		ld := c19value(rng, i)
		if rng.Intn(3) == 0 {
			// as documented
			body = []byte(fmt.Sprintf(`{"leaf_input": "%s", "extra_data": "aGVsbG8="}`, "YWJj"))
			return body, &pb.LeafData{LeafInput: []byte("abc"), ExtraData: []byte("hello")}, nil
		}
		body, _ = json.Marshal(map[string]interface{}{"leaf_input": ld.LeafInput, "extra_data": ld.ExtraData, "format": int(ld.Format)})
		return body, ld, nil
	case "/xjson":
		o := map[string]interface{}{"i": i, "s": []string{"é", "<b>", "", "plain"}[rng.Intn(4)], "n": nil, "l": []interface{}{1.25, false, map[string]interface{}{}}}
		body, _ = json.MarshalIndent(o, "", "  ")
		h, err := objecthash.CommonJSONHash(body)
		if err != nil {
			panic(err)
		}
		return body, &pb.LeafData{LeafInput: h, ExtraData: body, Format: pb.DataFormat_JSON}, nil
	default:
		o := map[string]interface{}{"i": i, "s": "secret", "o": map[string]interface{}{"x": 1.5, "y": []interface{}{"z"}}}
		body, _ = json.Marshal(o)
		return body, nil, o
	}
}

// c19redactable checks leaf data made from redactable JSON.
func c19redactable(ld *pb.LeafData, orig interface{}) string {
	var o interface{}
	if err := json.Unmarshal(ld.GetExtraData(), &o); err != nil || ld.Format != pb.DataFormat_JSON {
		return fmt.Sprintf("not JSON: %v, format %v", err, ld.Format)
	}
	h, err := objecthash.ObjectHashWithStdRedaction(o)
	if err != nil || !bytes.Equal(h, ld.LeafInput) {
		return "the leaf input isn't the hash of the content"
	}
	m, ok := o.(map[string]interface{})
	if !ok || len(m) != len(orig.(map[string]interface{})) {
		return "not all fields are there"
	}
	for k, v := range m {
		if p, ok := v.([]interface{}); !ok || len(p) != 2 {
			return "field " + k + " has no nonce"
		}
	}
	u, err := objecthash.UnredactableWithStdPrefix(o)
	if err != nil || !jsonEqual(u, orig) {
		return fmt.Sprintf("without nonces it is %v %v", u, err)
	}
	return ""
}

var c19suffixes = []string{"", "/extra", "/xjson", "/xjson/redactable"}

func c19raw(r *R, round int) {
	rng := r.Rand(fmt.Sprint("raw", round))
	st := &specStore{}
	direct := newService(st, nil, staticPolicy(c19policy))
	rec := newRecorder(direct)
	s := newREST(rec)
	defer s.Close()
	c := &rawREST{r: r, s: s, what: fmt.Sprintf("raw REST round %d", round), ok: true}
	all := [][2]string{{"Authorization", "Key all"}}
	if rng.Intn(2) == 0 {
		all = [][2]string{{"authorization", " Key all "}}
	}
	name := []string{"l", "test", "a-b_0"}[rng.Intn(3)]
	lp := "/account/19/log/" + name
	lr := &pb.LogRef{Account: acct("19", "all"), Name: name, LogType: tLog}
	var lm LogModel
	for i := 0; i < 14 && c.ok; i++ {
		suffix := c19suffixes[rng.Intn(4)]
		body, want, orig := c19body(rng, i, suffix)
		b, _ := c.do("POST", lp+"/entry"+suffix, body, all, 200)
		if !c.ok {
			return
		}
		got := rec.req.(*pb.LogAddEntryRequest).Value
		if orig != nil {
			if why := c19redactable(got, orig); why != "" {
				c.failf("adding redactable %s: %s", body, why)
				return
			}
			want = got
		} else if !sameLD(want, got) {
			c.failf("adding %q to %s: the service gets %s", body, suffix, showLD(got))
			return
		}
		lm.Add(want)
		var a struct {
			LeafHash []byte `json:"leaf_hash"`
		}
		if err := json.Unmarshal(b, &a); err != nil || !bytes.Equal(a.LeafHash, spec.LeafHash(want.LeafInput)) {
			c.failf("adding %q to %s answers %s", body, suffix, b)
			return
		}
	}
	if !ckLog(r, c.what, direct, lr, &lm, rng) {
		return
	}
	// refused
	c.do("POST", lp+"/entry/xjson", []byte("{not json"), all, 400)
	c.do("POST", lp+"/entry/xjson/redactable", []byte("{not json"), all, 400)
	c.do("POST", lp+"/entry/extra", []byte("{not json"), all, 400)
	c.do("POST", lp+"/entry/extra", []byte(`{"leaf_input":"***"}`), all, 400)
	c.do("POST", lp+"/entry", []byte("x"), nil, 401)
	c.do("POST", lp+"/entry", []byte("x"), [][2]string{{"Authorization", "Key wrong"}}, 401)
	c.do("POST", lp+"/entry", []byte("x"), [][2]string{{"Authorization", "all"}}, 401)
	c.do("POST", "/account/19/log/UPPER/entry", []byte("x"), all, unroutable)
	c.do("POST", "/account/x/log/l/entry", []byte("x"), all, unroutable)
	n := lm.Len()
	c.do("GET", lp+fmt.Sprintf("/entry/%d", n), nil, all, 400)
	c.do("GET", lp+"/entry/99999999999999999999", nil, all, 400)
	if !ckHead(r, c.what+" after refused requests", direct, lr, &lm, 0) {
		return
	}
	// heads
	head := func(path string, m *LogModel, sz int) {
		b, _ := c.do("GET", path, nil, all, 200)
		var h struct {
			TreeSize int    `json:"tree_size"`
			RootHash []byte `json:"root_hash"`
		}
		if json.Unmarshal(b, &h) != nil || h.TreeSize != sz || !bytes.Equal(h.RootHash, m.Tree.Root(sz)) {
			c.failf("GET %s is %s", path, b)
		}
	}
	entries := func(prefix string, m *LogModel) {
		n := m.Len()
		for i := 0; i < n && c.ok; i++ {
			p := fmt.Sprintf("%s/entry/%d", prefix, i)
			if b, _ := c.do("GET", p, nil, all, 200); !bytes.Equal(b, m.Entries[i].LeafInput) {
				c.failf("GET %s is %q", p, b)
			}
			if b, _ := c.do("GET", p+"/xjson", nil, all, 200); !bytes.Equal(b, m.Entries[i].ExtraData) {
				c.failf("GET %s/xjson is %q", p, b)
			}
			b, _ := c.do("GET", p+"/extra", nil, all, 200)
			var j jsonLD
			if json.Unmarshal(b, &j) != nil || !sameLD(&pb.LeafData{LeafInput: j.LeafInput, ExtraData: j.ExtraData, Format: pb.DataFormat(j.Format)}, m.Entries[i]) {
				c.failf("GET %s/extra is %q", p, b)
			}
		}
		for k := 0; k < 4 && c.ok; k++ {
			a := rng.Intn(n)
			b := a + 1 + rng.Intn(n-a)
			last := b
			if rng.Intn(3) == 0 {
				b, last = n, 0
			}
			p := fmt.Sprintf("%s/entries/%d-%d%s", prefix, a, last, []string{"", "/xjson", "/extra"}[rng.Intn(3)])
			body, _ := c.do("GET", p, nil, all, 200)
			var j struct {
				Values []jsonLD `json:"values"`
			}
			if json.Unmarshal(body, &j) != nil || len(j.Values) != b-a {
				c.failf("GET %s is %q", p, body)
				return
			}
			for x, v := range j.Values {
				if !sameLD(&pb.LeafData{LeafInput: v.LeafInput, ExtraData: v.ExtraData, Format: pb.DataFormat(v.Format)}, m.Entries[a+x]) {
					c.failf("GET %s has %s as number %d", p, showLD(&pb.LeafData{LeafInput: v.LeafInput, ExtraData: v.ExtraData}), x)
				}
			}
		}
	}
	type proof struct {
		LeafIndex int      `json:"leaf_index"`
		FromSize  int      `json:"from_size"`
		TreeSize  int      `json:"tree_size"`
		AuditPath [][]byte `json:"audit_path"`
	}
	proofs := func(prefix string, m *LogModel) {
		n := m.Len()
		for k := 0; k < 12 && c.ok; k++ {
			sz := 1 + rng.Intn(n)
			i := rng.Intn(sz)
			e := m.Entries[i]
			paths := []string{fmt.Sprintf("%s/tree/%d/inclusion/%d", prefix, sz, i), fmt.Sprintf("%s/tree/%d/inclusion/h/%x", prefix, sz, spec.LeafHash(e.LeafInput))}
			if s := string(e.LeafInput); s != "" && len(s) < 2000 && strings.Trim(s, "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_") == "" {
				paths = append(paths, fmt.Sprintf("%s/tree/%d/inclusion/s/%s", prefix, sz, s))
			}
			for _, p := range paths {
				b, _ := c.do("GET", p, nil, all, 200)
				var pr proof
				if json.Unmarshal(b, &pr) != nil || pr.LeafIndex != i || pr.TreeSize != sz || !samePath(pr.AuditPath, m.Tree.Inclusion(i, sz)) {
					c.failf("GET %s is %s", p, b)
				}
			}
			if i > 0 {
				p := fmt.Sprintf("%s/tree/%d/consistency/%d", prefix, sz, i)
				b, _ := c.do("GET", p, nil, all, 200)
				var pr proof
				if json.Unmarshal(b, &pr) != nil || pr.FromSize != i || pr.TreeSize != sz || !samePath(pr.AuditPath, m.Tree.Consistency(i, sz)) {
					c.failf("GET %s is %s", p, b)
				}
			}
		}
		c.do("GET", prefix+"/tree/1/inclusion/h/00", nil, all, 404)
		c.do("GET", prefix+"/tree/1/inclusion/h/0", nil, all, 400)
		c.do("GET", prefix+fmt.Sprintf("/tree/%d/inclusion/0", n+1), nil, all, 400)
		c.do("GET", prefix+fmt.Sprintf("/tree/%d/consistency/1", n+1), nil, all, 400)
		c.do("GET", prefix+fmt.Sprintf("/tree/%d", n+1), nil, all, 400)
		c.do("GET", prefix+"/tree/1/inclusion/0", nil, nil, 401)
		c.do("GET", prefix+"/tree/head", nil, nil, 401)
		c.do("GET", prefix+"/entry/0", nil, nil, 401)
		c.do("DELETE", prefix+"/entry/0", nil, all, unroutable)
		c.do("GET", prefix+"/tree/-1", nil, all, unroutable)
		head(prefix+"/tree/head", m, n)
		head(prefix+"/tree/0", m, n)
		head(prefix+fmt.Sprint("/tree/", n), m, n)
		head(prefix+"/tree/1", m, 1)
	}
	entries(lp, &lm)
	proofs(lp, &lm)

	// maps
	mp := "/account/19/map/" + name
	mr := &pb.MapRef{Account: acct("19", "all"), Name: name}
	w := &MapWorld{}
	keys := []string{"foo", "baz", "Ba_r-9", "666f", "0"}
	if b, _ := c.do("GET", mp+"/tree/head", nil, all, 200); c.ok {
		var h jsonHead
		if json.Unmarshal(b, &h) != nil || h.MutationLog.TreeSize != 0 || !bytes.Equal(h.RootHash, w.Root(0)) {
			c.failf("head of an empty map is %s", b)
		}
	}
	for i := 0; i < 16 && c.ok; i++ {
		key := keys[rng.Intn(len(keys))]
		kp := mp + "/key/s/" + key
		if rng.Intn(2) == 0 {
			kp = mp + "/key/h/" + hex.EncodeToString([]byte(key))
		}
		mu := spec.Mut{Key: []byte(key)}
		var b []byte
		if rng.Intn(5) == 0 {
			mu.Action, mu.NoVal = "delete", true
			b, _ = c.do("DELETE", kp, nil, all, 200)
		} else {
			suffix := c19suffixes[rng.Intn(4)]
			body, want, orig := c19body(rng, i, suffix)
			hdr := all
			mu.Action = "set"
			if rng.Intn(3) == 0 {
				mu.Action = "update"
				mu.Prev = spec.LeafHash(w.Value(mu.Key, w.Size()))
				if rng.Intn(3) == 0 {
					mu.Prev = spec.LeafHash([]byte("something else"))
				}
				hdr = append(append([][2]string{}, hdr...), [2]string{[]string{"X-Previous-Leafhash", "x-previous-leafhash", "X-Previous-LeafHash"}[rng.Intn(3)], hex.EncodeToString(mu.Prev)})
			}
			b, _ = c.do("PUT", kp+suffix, body, hdr, 200)
			if !c.ok {
				return
			}
			got := rec.req.(*pb.MapSetValueRequest).Mutation.Value
			if orig != nil {
				if why := c19redactable(got, orig); why != "" {
					c.failf("setting redactable %s: %s", body, why)
					return
				}
				want = got
			} else if !sameLD(want, got) {
				c.failf("setting %q by %s%s: the service gets %s", body, kp, suffix, showLD(got))
				return
			}
			mu.LI, mu.ED, mu.Format = want.LeafInput, want.ExtraData, int32(want.Format)
		}
		if !c.ok {
			return
		}
		w.Apply(mu)
		var a struct {
			LeafHash []byte `json:"leaf_hash"`
		}
		if err := json.Unmarshal(b, &a); err != nil || len(a.LeafHash) != 32 {
			c.failf("PUT %s answers %s", kp, b)
			return
		}
		w.Acked = append(w.Acked, a.LeafHash)
	}
	c.do("PUT", mp+"/key/h/abc", []byte("x"), all, 400)
	c.do("PUT", mp+"/key/s/foo/xjson", []byte("{"), all, 400)
	c.do("PUT", mp+"/key/s/foo", []byte("x"), append([][2]string{{"X-Previous-LeafHash", "xyz"}}, all...), 400)
	c.do("PUT", mp+"/key/s/foo", []byte("x"), nil, 401)
	c.do("DELETE", mp+"/key/s/foo", nil, nil, 401)
	c.do("PUT", mp+"/key/s/f%2fo", []byte("x"), all, unroutable)
	if !c.ok || !ckMapAll(r, c.what, direct, mr, w, rng, 3) {
		return
	}
	for k := 0; k < 24 && c.ok; k++ {
		sz := 1 + rng.Intn(w.Size())
		ts := fmt.Sprint(sz)
		if rng.Intn(3) == 0 {
			sz, ts = w.Size(), []string{"head", "0"}[rng.Intn(2)]
		}
		key := keys[rng.Intn(len(keys))]
		kp := "/key/s/" + key
		if rng.Intn(2) == 0 {
			kp = "/key/h/" + hex.EncodeToString([]byte(key))
		}
		p := mp + "/tree/" + ts + kp
		suffix := []string{"", "/xjson", "/extra"}[rng.Intn(3)]
		b, h := c.do("GET", p+suffix, nil, all, 200)
		if !c.ok {
			return
		}
		resp, err := direct.MapGetValue(bg, &pb.MapGetValueRequest{Map: mr, Key: []byte(key), TreeSize: int64(sz)})
		if err != nil {
			c.failf("%v", err)
			return
		}
		good := false
		switch suffix {
		case "":
			good = bytes.Equal(b, resp.Value.LeafInput) && bytes.Equal(b, w.Value([]byte(key), sz))
		case "/xjson":
			good = bytes.Equal(b, resp.Value.ExtraData)
		default:
			var j jsonLD
			good = json.Unmarshal(b, &j) == nil && sameLD(&pb.LeafData{LeafInput: j.LeafInput, ExtraData: j.ExtraData, Format: pb.DataFormat(j.Format)}, resp.Value)
		}
		if !good {
			c.failf("GET %s%s is %q, the value is %s", p, suffix, b, showLD(resp.Value))
			return
		}
		path := make([][]byte, 256)
		for _, v := range h.Values("X-Verified-Proof") {
			f := strings.SplitN(v, "/", 2)
			x, err := strconv.Atoi(f[0])
			if err != nil || x < 0 || x > 255 || len(f) != 2 || len(f[1]) != 64 || path[x] != nil {
				c.failf("GET %s: proof header %q", p, v)
				return
			}
			path[x], _ = hex.DecodeString(f[1])
		}
		if h.Get("X-Verified-Treesize") != fmt.Sprint(sz) || !spec.VerifyMap([]byte(key), w.Value([]byte(key), sz), path, w.Root(sz)) {
			c.failf("GET %s: size %s, proof headers %v don't lead to the root", p, h.Get("X-Verified-Treesize"), h.Values("X-Verified-Proof"))
			return
		}
		hb, _ := c.do("GET", mp+"/tree/"+ts, nil, all, 200)
		var jh jsonHead
		if c.ok && (json.Unmarshal(hb, &jh) != nil || !bytes.Equal(jh.RootHash, w.Root(sz)) || jh.MutationLog.TreeSize != int64(sz) || !bytes.Equal(jh.MutationLog.RootHash, w.Mut.Tree.Root(sz))) {
			c.failf("GET %s/tree/%s is %s", mp, ts, hb)
			return
		}
	}
	c.do("GET", mp+fmt.Sprintf("/tree/%d", w.Size()+1), nil, all, 400)
	c.do("GET", mp+fmt.Sprintf("/tree/%d/key/s/foo", w.Size()+1), nil, all, 400)
	c.do("GET", mp+"/tree/head/key/h/abc", nil, all, 400)
	c.do("GET", mp+"/tree/head/key/s/foo", nil, nil, 401)
	c.do("GET", mp+"/tree/head", nil, nil, 401)
	for _, t := range []struct {
		name string
		m    *LogModel
	}{{"mutation", &w.Mut}, {"treehead", &w.Heads}} {
		entries(mp+"/log/"+t.name, t.m)
		proofs(mp+"/log/"+t.name, t.m)
		// they can't be written to directly
		_, err := direct.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acct("19", "all"), Name: name, LogType: map[string]pb.LogType{"mutation": tMut, "treehead": tHead}[t.name]}, Value: &pb.LeafData{LeafInput: []byte("x")}})
		st := map[string]int{"PermissionDenied": 401, "InvalidArgument": 400, "NotFound": 404, "other": 500}[errClass(err)]
		c.do("POST", mp+"/log/"+t.name+"/entry", []byte("x"), all, st)
	}
	if c.ok {
		ckMapLogs(r, c.what+" at the end", direct, mr, w)
	}
	if e := s.Errors.String(); strings.Contains(e, "panic") && c.ok {
		r.Failf("%s: the server panicked: %s", c.what, trunc(e, 1500))
	}
}
