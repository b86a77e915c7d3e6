package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	props["C20"] = &property{level: "exploration", run: c20,
		rule:        "Requests with missing, extreme, unknown and junk parts, encoded messages that were altered, and malformed HTTP, mixed with valid ones, are sent embedded, over gRPC, over REST and as raw bytes, with both mutators. What the service refuses must leave the storage as it was, what it accepts must be what the models get, nothing may panic, and at the end every object must be exactly as its model, over every transport, and take further writes. A case is a request.",
		assumptions: []string{"SHA-256 collisions do not occur", "requests aren't nil pointers"}}
}

var hostileInts = []int64{-1, -2, math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1<<62 + 1, -(1 << 62), 1 << 32, 1 << 31, 1<<53 + 1, 0, 1, 2, 3, 5, 8}
var hostileEnums = []protoreflect.EnumNumber{-1, 0, 1, 2, 3, 4, 99, math.MinInt32, math.MaxInt32}
var hostileStrings = []string{"", "\x00", "a/b", "../..", "%2e", "nul\x00l", strings.Repeat("n", 70000), "\u202e\u0301", "SET", "set ", "update", "delete", "set", "*", "{\"a\":1}", "2001-01-01T00:00:00Z"}

func hostileBytes(rng *rand.Rand) []byte {
	switch rng.Intn(9) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{0}
	case 3:
		return bytes.Repeat([]byte{0xff}, 1+rng.Intn(300))
	case 4:
		return randBytes(rng, 31+rng.Intn(3))
	case 5:
		return spec.LeafHash(nil)
	case 6:
		return []byte(hostileJSON[rng.Intn(len(hostileJSON))])
	case 7:
		return bytes.Repeat([]byte("big"), 30000)
	default:
		return randBytes(rng, rng.Intn(80))
	}
}

var hostileJSON = []string{"", "null", "[]", "{}", "1", "\"x\"", "{", "[", "{\"a\":", strings.Repeat("[", 20000), strings.Repeat("[", 3000) + strings.Repeat("]", 3000), "1e999", "-0", "9007199254740993", "{\"a\":1,\"a\":2}", "\"\xff\xfe\"", "{\"\\ud800\":1}", "{\"a\":[\"***REDACTED*** x\"]}", "\"***REDACTED*** Hash: zz\"", "\"***REDACTED*** Hash: \"", "{\"a\":\"***REDACTED*** Hash: 00\"}", "{\"leaf_input\":null}", "{\"leaf_input\":\"!\"}", "{\"leaf_input\":1}", "{\"leaf_input\":\"YQ==\",\"extra_data\":null,\"format\":-7}", "{\"leaf_input\":\"YQ==\",\"format\":1,\"extra_data\":\"ew==\"}", "[null]", "true", "{} {}", "\x00", "{\"a\":{\"b\":[1,{}]}}", "{\"format\":99999999999999999999}"}

// hostile changes a message in a place.
func hostile(rng *rand.Rand, m protoreflect.Message) {
	fds := m.Descriptor().Fields()
	if fds.Len() == 0 {
		return
	}
	fd := fds.Get(rng.Intn(fds.Len()))
	if fd.IsList() {
		hostileList(rng, m, fd)
		return
	}
	switch fd.Kind() {
	case protoreflect.MessageKind:
		switch {
		case rng.Intn(5) == 0:
			m.Clear(fd)
		case rng.Intn(8) == 0:
			m.Set(fd, m.NewField(fd))
		default:
			hostile(rng, m.Mutable(fd).Message())
		}
	case protoreflect.EnumKind:
		m.Set(fd, protoreflect.ValueOfEnum(hostileEnums[rng.Intn(len(hostileEnums))]))
	case protoreflect.Int64Kind:
		m.Set(fd, protoreflect.ValueOfInt64(hostileInts[rng.Intn(len(hostileInts))]))
	case protoreflect.StringKind:
		m.Set(fd, protoreflect.ValueOfString(hostileStrings[rng.Intn(len(hostileStrings))]))
	case protoreflect.BytesKind:
		m.Set(fd, protoreflect.ValueOfBytes(hostileBytes(rng)))
	}
}

// hostileList changes a list.
func hostileList(rng *rand.Rand, m protoreflect.Message, fd protoreflect.FieldDescriptor) {
	l := m.Mutable(fd).List()
	n := l.Len()
	junk := func() protoreflect.Value {
		if fd.Kind() == protoreflect.MessageKind {
			v := l.NewElement()
			for k := rng.Intn(3); k > 0; k-- {
				hostile(rng, v.Message())
			}
			return v
		}
		return protoreflect.ValueOfBytes(hostileBytes(rng))
	}
	switch k := rng.Intn(9); {
	case k == 0:
		m.Clear(fd)
	case k == 1 && n > 0:
		l.Truncate(rng.Intn(n))
	case k == 2:
		l.Append(junk())
	case k == 3:
		for i := 0; i < []int{60, 63, 64, 65, 255, 256, 257, 3000}[rng.Intn(8)]; i++ {
			if fd.Kind() == protoreflect.MessageKind {
				l.Append(l.NewElement())
			} else {
				l.Append(protoreflect.ValueOfBytes(make([]byte, 32)))
			}
		}
	case k == 4 && n > 1:
		i, j := rng.Intn(n), rng.Intn(n)
		a, b := l.Get(i), l.Get(j)
		l.Set(i, b)
		l.Set(j, a)
	case k == 5 && n > 0:
		i := rng.Intn(n)
		if fd.Kind() == protoreflect.MessageKind {
			hostile(rng, l.Get(i).Message())
		} else if b := l.Get(i).Bytes(); len(b) > 0 {
			c := append([]byte{}, b...)
			c[rng.Intn(len(c))] ^= 1 << uint(rng.Intn(8))
			l.Set(i, protoreflect.ValueOfBytes(c))
		}
	case k == 6 && n > 0: // remove the first
		for i := 1; i < n; i++ {
			l.Set(i-1, l.Get(i))
		}
		l.Truncate(n - 1)
	case k == 7 && n > 0:
		l.Append(l.Get(rng.Intn(n)))
	case n > 0:
		l.Set(rng.Intn(n), junk())
	}
}

// an ordinary request
func ordinary(rng *rand.Rand, i int) proto.Message {
	nm := []string{"l", "m", "x"}[rng.Intn(3)]
	lr := &pb.LogRef{Account: acct("20", "k"), Name: nm, LogType: []pb.LogType{tLog, tLog, tMut, tHead}[rng.Intn(4)]}
	mr := &pb.MapRef{Account: acct("20", "k"), Name: nm}
	n := func() int64 { return int64(rng.Intn(8)) }
	switch rng.Intn(12) {
	case 0, 1:
		lr.LogType = tLog
		return &pb.LogAddEntryRequest{Log: lr, Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint("e", i)), ExtraData: []byte("x")}}
	case 2, 3, 4:
		mu := &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", rng.Intn(3))), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", i)), ExtraData: []byte(fmt.Sprintf("{\"i\":%d}", i)), Format: pb.DataFormat(rng.Intn(2))}}
		switch rng.Intn(4) {
		case 0:
			mu.Action, mu.Value = "delete", nil
		case 1:
			mu.Action, mu.PreviousLeafHash = "update", spec.LeafHash(nil)
		}
		return &pb.MapSetValueRequest{Map: mr, Mutation: mu}
	case 5:
		return &pb.LogTreeHashRequest{Log: lr, TreeSize: n()}
	case 6:
		return &pb.LogFetchEntriesRequest{Log: lr, First: n(), Last: n()}
	case 7:
		return &pb.LogInclusionProofRequest{Log: lr, TreeSize: n(), LeafIndex: n()}
	case 8:
		return &pb.LogInclusionProofRequest{Log: lr, TreeSize: n(), MtlHash: randBytes(rng, 32)}
	case 9:
		return &pb.LogConsistencyProofRequest{Log: lr, TreeSize: n(), FromSize: n()}
	case 10:
		return &pb.MapTreeHashRequest{Map: mr, TreeSize: n()}
	default:
		return &pb.MapGetValueRequest{Map: mr, TreeSize: n(), Key: []byte("k1")}
	}
}

// c20world has the models of all objects that anything was written to, by what the service said when asked.
type c20world struct {
	r     *R
	what  string
	mu    sync.Mutex
	objs  map[string]*object
	trail []string
	calls int
	ok    int
}

func (w *c20world) obj(acc, name string, isMap bool) *object {
	o := &object{acc: acc, name: name, key: "k", isMap: isMap}
	if x := w.objs[o.id()]; x != nil {
		return x
	}
	w.objs[o.id()] = o
	return o
}

// saw is told of each answer of the service itself.
func (w *c20world) saw(_ string, req, resp proto.Message, err error) (proto.Message, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.calls++
	if err != nil {
		return resp, err
	}
	w.ok++
	switch q := req.(type) {
	case *pb.LogAddEntryRequest:
		if q.GetValue() == nil || q.GetLog().GetAccount() == nil || q.Log.LogType != tLog {
			w.r.Failf("%s: accepted %v", w.what, q)
			return resp, err
		}
		w.obj(q.Log.Account.Id, q.Log.Name, false).log.Add(proto.Clone(q.Value).(*pb.LeafData))
		if !bytes.Equal(resp.(*pb.LogAddEntryResponse).LeafHash, spec.LeafHash(q.Value.LeafInput)) {
			w.r.Failf("%s: adding %s answers %v", w.what, showLD(q.Value), resp)
		}
		w.r.Saw("accepted-add")
	case *pb.MapSetValueRequest:
		a := q.GetMutation().GetAction()
		if q.GetMap().GetAccount() == nil || a != "set" && a != "update" && a != "delete" {
			w.r.Failf("%s: accepted %v", w.what, q)
			return resp, err
		}
		c := proto.Clone(q).(*pb.MapSetValueRequest)
		mu := spec.Mut{Action: a, Key: c.Mutation.Key, Prev: c.Mutation.PreviousLeafHash}
		if v := c.Mutation.Value; v == nil {
			mu.NoVal = true
		} else {
			mu.LI, mu.ED, mu.Format = v.LeafInput, v.ExtraData, int32(v.Format)
		}
		o := w.obj(c.Map.Account.Id, c.Map.Name, true)
		o.m.Apply(mu)
		o.m.Acked = append(o.m.Acked, resp.(*pb.MapSetValueResponse).LeafHash)
		w.r.Saw("accepted-" + a)
	}
	return resp, err
}

// final checks all objects, writes to them, and checks them again.
func (w *c20world) final(svc Svc, others map[string]Svc, rng *rand.Rand) bool {
	r := w.r
	w.obj("20", "l", false)
	w.obj("20", "m", true)
	var ids []string
	for id := range w.objs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for pass := 0; pass < 2; pass++ {
		for _, id := range ids {
			o := w.objs[id]
			what := fmt.Sprintf("%s: afterwards %s", w.what, trunc(o.String(), 100))
			if pass == 1 {
				what += " after another write"
				if err := o.write(svc, rng, "k"); err != nil {
					r.Failf("%s: refused: %v", what, err)
					return false
				}
			}
			if !o.settle(r, svc) {
				r.Failf("%s: what was acknowledged never showed", what)
				return false
			}
			if !o.full(r, what, svc, rng) {
				return false
			}
			r.Saw("object-checked")
			if o.acc == "20" && (o.name == "l" || o.name == "m" || o.name == "x") {
				for t, s := range others {
					if !o.quick(r, what+" over "+t, s) {
						return false
					}
				}
			}
		}
	}
	return true
}

func c20(r *R) {
	rounds := r.N(300, 5000)
	r.Par(rounds, func(i int) {
		switch i % 6 {
		case 0, 1:
			c20structured(r, i, "")
		case 2:
			c20structured(r, i, "grpc")
		case 3:
			c20grpcBytes(r, i)
		default:
			c20http(r, i)
		}
	})
	c20garbage(r)
}

var c20badger = make(chan bool, 2) // each of these needs a lot of memory

// c20service makes a service with a recorder in front, and a function giving its storage's contents if that's of use.
func c20service(r *R, i int, rng *rand.Rand, w *c20world) (Svc, Svc, func() string, func()) {
	kind := []string{"spec", "spec", "spec", "memory", "bolt", "badger"}[rng.Intn(6)]
	if kind == "badger" {
		c20badger <- true
	}
	st, done := newStore(r, kind)
	if kind == "badger" {
		d := done
		done = func() { d(); <-c20badger }
	}
	dump := func() string { return "" }
	batch := rng.Intn(3) == 0
	var s Svc
	if batch {
		s = newService(st, newBatch(st, 1+rng.Intn(5), rng.Intn(3), time.Duration(rng.Intn(2))*time.Millisecond), nil)
	} else {
		if sp, ok := st.(*specStore); ok {
			dump = sp.Dump
		}
		if rng.Intn(2) == 0 {
			s = newService(st, nil, staticPolicy([]*pb.ResourceAccount{{Id: "20", Policy: []*pb.AccessPolicy{
				{ApiKey: "k", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
				{ApiKey: "limited", NameMatch: "*", AllowedFields: []string{"i"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}}}}))
		} else {
			s = newService(st, nil, nil)
		}
	}
	w.r, w.what, w.objs = r, fmt.Sprintf("round %d, %s storage, batch %v", i, kind, batch), map[string]*object{}
	rec := &tweakSvc{Inner: s, Tweak: w.saw}
	return rec, s, dump, done
}

func c20structured(r *R, i int, over string) {
	rng := r.Rand(fmt.Sprint("structured", i))
	w := &c20world{}
	rec, s, dump, done := c20service(r, i, rng, w)
	defer done()
	svc := rec
	others := map[string]Svc{}
	if over == "grpc" {
		g := newGRPC(rec)
		defer g.Close()
		svc = g.Client()
		w.what += " over gRPC"
		others["gRPC"] = g.Client()
	}
	for k := 0; k < 250; k++ {
		req := ordinary(rng, k)
		if rng.Intn(5) != 0 {
			for t := 1 + rng.Intn(3); t > 0; t-- {
				hostile(rng, req.ProtoReflect())
			}
			if rng.Intn(40) == 0 {
				req = req.ProtoReflect().New().Interface()
			}
		}
		if rng.Intn(30) == 0 {
			setKey(req, "limited")
		}
		what := fmt.Sprintf("%s: request %d, %T %s", w.what, k, req, trunc(fmt.Sprint(req), 300))
		r.Case("structured"+over, "%T %s", req, trunc(fmt.Sprint(req), 200))
		before := dump()
		var err error
		if !r.Guard(what, func() { _, err = callSvc(svc, req) }) {
			return
		}
		if err != nil {
			r.Saw("refused")
			if dump() != before {
				r.Failf("%s: answered with %v, but stored something", what, err)
				return
			}
		} else {
			r.Saw("answered")
		}
		if r.Failed() {
			return
		}
	}
	w.final(s, others, rng)
}

func setKey(req proto.Message, key string) {
	type lr interface{ GetLog() *pb.LogRef }
	type mr interface{ GetMap() *pb.MapRef }
	switch q := req.(type) {
	case lr:
		if a := q.GetLog().GetAccount(); a != nil {
			a.ApiKey = key
		}
	case mr:
		if a := q.GetMap().GetAccount(); a != nil {
			a.ApiKey = key
		}
	}
}

// ---- raw bytes as gRPC messages

type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (rawCodec) Name() string { return "proto" }

var grpcMethods = []string{"LogAddEntry", "LogFetchEntries", "LogTreeHash", "LogInclusionProof", "LogConsistencyProof", "MapSetValue", "MapGetValue", "MapTreeHash"}

func mangle(rng *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := rng.Intn(4); n >= 0; n-- {
		switch k := rng.Intn(6); {
		case k == 0 && len(b) > 0:
			b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
		case k == 1 && len(b) > 0:
			b = b[:rng.Intn(len(b))]
		case k == 2 && len(b) > 0:
			p := rng.Intn(len(b))
			b = append(b[:p:p], b[p+1:]...)
		case k == 3:
			p := rng.Intn(len(b) + 1)
			b = append(b[:p:p], append(randBytes(rng, 1+rng.Intn(5)), b[p:]...)...)
		case k == 4 && len(b) > 0:
			b[rng.Intn(len(b))] = byte(rng.Intn(256))
		case k == 5:
			b = append(b, b[:rng.Intn(len(b)+1)]...)
		}
	}
	return b
}

func c20grpcBytes(r *R, i int) {
	rng := r.Rand(fmt.Sprint("bytes", i))
	w := &c20world{}
	rec, s, dump, done := c20service(r, i, rng, w)
	defer done()
	g := newGRPC(rec)
	defer g.Close()
	w.what += " by bytes over gRPC"
	conn, err := grpc.NewClient(g.Addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	for k := 0; k < 250; k++ {
		req := ordinary(rng, k)
		if rng.Intn(2) == 0 {
			hostile(rng, req.ProtoReflect())
		}
		b, err := proto.Marshal(req)
		if err != nil {
			panic(err)
		}
		b = mangle(rng, b)
		if rng.Intn(100) == 0 {
			b = bytes.Repeat([]byte{0x12}, 5<<20)
		}
		m := strings.TrimSuffix(string(req.ProtoReflect().Descriptor().Name()), "Request")
		if rng.Intn(5) == 0 {
			m = grpcMethods[rng.Intn(len(grpcMethods))]
		}
		if rng.Intn(50) == 0 {
			m = "NoSuchMethod"
		}
		what := fmt.Sprintf("%s: request %d, %s %x", w.what, k, m, trunc(string(b), 300))
		r.Case("bytes", "%s %s", m, trunc(hex.EncodeToString(b), 200))
		before := dump()
		var out []byte
		ctx, cancel := context.WithTimeout(bg, 100*time.Second)
		err = conn.Invoke(ctx, "/"+pb.VerifiableDataStructuresService_ServiceDesc.ServiceName+"/"+m, &b, &out, grpc.ForceCodec(rawCodec{}))
		if ctx.Err() != nil {
			r.Failf("%s: no answer in 100 s", what)
		}
		cancel()
		if err != nil {
			r.Saw("refused")
			if dump() != before {
				r.Failf("%s: answered with %v, but stored something", what, err)
				return
			}
		} else {
			r.Saw("answered")
		}
		if r.Failed() {
			return
		}
	}
	w.final(s, map[string]Svc{"gRPC": g.Client()}, rng)
}

// ---- HTTP

func c20path(rng *rand.Rand) string {
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	num := func() string {
		if rng.Intn(2) == 0 {
			return pick("0", "1", "2", "3")
		}
		return pick("0", "0", "1", "1", "2", "3", "4", "5", "00", "007", "9223372036854775807", "9223372036854775808", "4611686018427387905", "18446744073709551616", "-1", "1.5", "head", "1e3", "%31", "", strings.Repeat("9", 5000))
	}
	acc := pick("20", "20", "20", "20", "20", "20", "0", "21", "x", "", "%32%30", "20%00")
	name := pick("l", "l", "m", "m", "x", "x", "fresh", "-", "_", "L", "l%2f", "", "l.l", strings.Repeat("n", 3000))
	key := pick("s/k1", "s/k1", "s/k2", "s/k0", "h/6b31", "h/6b31", "h/6b3", "h/zz", "s/", "s/%00", "h/"+strings.Repeat("ab", 4000), "s/head")
	if rng.Intn(3) > 0 { // all in order but for numbers, suffixes and verbs
		acc, name, key = "20", pick("l", "m", "x"), pick("s/k1", "s/k2", "h/6b31")
	}
	suf := pick("", "", "/xjson", "/xjson/redactable", "/extra", "/xjson/", "/nothing")
	if rng.Intn(12) == 0 {
		return pick("/", "/continusec.js", "/v2", "/v2/", "//", "/v2/account", "/../../etc/passwd", "/%2e%2e/x", "/assets/static/index.html", "/log.js", "/main.css", "/x?y#z", "*", "/v1/account/20/log/l/tree/0")
	}
	base := "/v2/account/" + acc
	if rng.Intn(2) == 0 {
		m := base + "/map/" + name
		switch rng.Intn(8) {
		case 0, 1, 2:
			return m + "/key/" + key + suf
		case 3:
			return m + "/tree/" + num() + "/key/" + key + suf
		case 4:
			return m + "/tree/" + num()
		default:
			base = m + "/log/" + pick("mutation", "treehead", "other")
		}
	} else {
		base += "/log/" + name
	}
	switch rng.Intn(9) {
	case 0, 1, 2:
		return base + "/entry" + suf
	case 3:
		return base + "/entry/" + num() + suf
	case 4:
		return base + "/entries/" + num() + "-" + num() + suf
	case 5:
		return base + "/tree/" + num()
	case 6:
		return base + "/tree/" + num() + "/inclusion/" + pick(num(), "h/"+hex.EncodeToString(spec.LeafHash([]byte("e1"))), "h/0", "h/00", "s/e1", "s/-", "h/"+strings.Repeat("00", 3000), "x")
	case 7:
		return base + "/tree/" + num() + "/consistency/" + num()
	default:
		return base + "/tree/head"
	}
}

func c20http(r *R, i int) {
	rng := r.Rand(fmt.Sprint("http", i))
	w := &c20world{}
	rec, s, dump, done := c20service(r, i, rng, w)
	defer done()
	rs := newREST(rec)
	defer rs.Close()
	w.what += " over REST"
	addr := strings.TrimPrefix(rs.URL, "http://")
	for k := 0; k < 200; k++ {
		path := c20path(rng)
		method := []string{"GET", "GET", "GET", "POST", "POST", "PUT", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH", "get", "TRACE"}[rng.Intn(13)]
		switch {
		case rng.Intn(3) > 0 && strings.Contains(path, "/entry") && !strings.Contains(path, "/entry/"):
			method = "POST"
		case rng.Intn(3) > 0 && strings.Contains(path, "/key/") && !strings.Contains(path, "/tree/"):
			method = []string{"PUT", "PUT", "DELETE"}[rng.Intn(3)]
		}
		var body []byte
		if method == "POST" || method == "PUT" || rng.Intn(20) == 0 {
			switch rng.Intn(4) {
			case 0:
				body = hostileBytes(rng)
			case 1:
				body = []byte(fmt.Sprintf("e%d", rng.Intn(5)))
			case 2:
				body = []byte(hostileJSON[rng.Intn(len(hostileJSON))])
			default:
				body = mangle(rng, []byte(`{"leaf_input":"YWJj","extra_data":"eyJhIjoxfQ==","format":1,"a":[1,{"b":null}],"c":"***REDACTED*** Hash: 7b"}`))
			}
		}
		hdr := ""
		if rng.Intn(4) > 0 {
			hdr += "Authorization: " + []string{"Key k", "Key k", "Key k", "Key", "Key ", "Key a b", "Basic eDp5", "Key " + strings.Repeat("k", 5000), "Key \xff", "Key limited"}[rng.Intn(10)] + "\r\n"
		}
		if rng.Intn(4) == 0 {
			hdr += []string{"X-Previous-LeafHash", "x-previous-leafhash"}[rng.Intn(2)] + ": " + []string{"", "zz", "0", hex.EncodeToString(spec.LeafHash(nil)), strings.Repeat("ab", 2000), "00", "null", "\xff"}[rng.Intn(8)] + "\r\n"
		}
		if rng.Intn(10) == 0 {
			hdr += []string{"Content-Type: multipart/form-data; boundary=x", "Content-Encoding: gzip", "Accept: *;q=x", "Origin: http://x", "Range: bytes=0-", "Expect: 100-continue", "Connection: upgrade\r\nUpgrade: websocket", "If-Match: *", "X-HTTP-Method-Override: DELETE"}[rng.Intn(9)] + "\r\n"
		}
		what := fmt.Sprintf("%s: request %d, %s %s %q with %q", w.what, k, method, trunc(path, 150), trunc(hdr, 100), trunc(string(body), 150))
		r.Case("http", "%s %s %s %s", method, trunc(path, 120), trunc(hdr, 80), trunc(string(body), 80))
		before := dump()
		w.mu.Lock()
		callsBefore, okBefore := w.calls, w.ok
		w.mu.Unlock()
		status := 0
		if rng.Intn(4) == 0 {
			// written by hand
			cl := fmt.Sprintf("Content-Length: %d\r\n", len(body))
			switch rng.Intn(8) {
			case 0:
				cl = fmt.Sprintf("Content-Length: %d\r\n", len(body)+5) // and then the end
			case 1:
				cl = "Content-Length: -1\r\n"
			case 2:
				cl = "Transfer-Encoding: chunked\r\n"
			case 3:
				cl = "Transfer-Encoding: chunked\r\n"
				body = []byte(fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(body), body))
			case 4:
				cl = "Content-Length: 1\r\nContent-Length: 2\r\n"
			}
			status = c20tcp(r, what, addr, []byte(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n%s%s\r\n%s", method, path, hdr, cl, body)))
		} else {
			req, err := http.NewRequest(method, rs.URL, bytes.NewReader(body))
			if err != nil {
				continue
			}
			req.URL.Opaque = path
			for _, h := range strings.Split(strings.TrimSuffix(hdr, "\r\n"), "\r\n") {
				if p := strings.SplitN(h, ": ", 2); len(p) == 2 {
					req.Header.Add(p[0], p[1])
				}
			}
			ctx, cancel := context.WithTimeout(bg, 100*time.Second)
			resp, err := rs.hc.Transport.RoundTrip(req.WithContext(ctx))
			if err == nil {
				status = resp.StatusCode
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
			if ctx.Err() != nil {
				r.Failf("%s: no answer in 100 s", what)
			}
			cancel()
		}
		r.Saw(fmt.Sprintf("status-%d", status))
		if e := rs.Errors.String(); strings.Contains(e, "panic") {
			r.Failf("%s: the server panicked: %s", what, trunc(e[strings.Index(e, "panic"):], 2500))
			return
		}
		w.mu.Lock()
		calls, oks := w.calls-callsBefore, w.ok-okBefore
		w.mu.Unlock()
		if calls > 1 {
			r.Failf("%s: the service was called %d times", what, calls)
			return
		}
		if status != 200 && status != 0 && oks > 0 && method != "HEAD" && status != 304 && status != 206 {
			r.Failf("%s: the service accepted it, but the status is %d", what, status)
			return
		}
		if oks == 0 && dump() != before {
			r.Failf("%s: nothing was accepted, but something was stored", what)
			return
		}
		if status == 200 && calls > 0 && oks == 0 {
			r.Failf("%s: the service refused it, but the status is 200", what)
			return
		}
		if r.Failed() {
			return
		}
	}
	w.final(s, map[string]Svc{"REST": rs.Client()}, rng)
}

// c20tcp sends bytes, and gives the HTTP status answered, if any.
func c20tcp(r *R, what, addr string, b []byte) int {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		r.Failf("%s: %v", what, err)
		return 0
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(100 * time.Second))
	c.Write(b)
	c.(*net.TCPConn).CloseWrite()
	out, err := io.ReadAll(c)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		r.Failf("%s: no answer in 100 s", what)
	}
	status := 0
	fmt.Sscanf(string(out), "HTTP/1.1 %d", &status)
	if status == 100 {
		if j := bytes.Index(out, []byte("\r\n\r\n")); j >= 0 {
			fmt.Sscanf(string(out[j+4:]), "HTTP/1.1 %d", &status)
		}
	}
	return status
}

// c20garbage sends rubbish to the ports of both servers while they're used properly.
func c20garbage(r *R) {
	rounds := r.N(4, 40)
	r.Par(rounds, func(i int) {
		rng := r.Rand(fmt.Sprint("garbage", i))
		w := &c20world{}
		rec, s, _, done := c20service(r, i, rng, w)
		defer done()
		rs, gs := newREST(rec), newGRPC(rec)
		defer rs.Close()
		defer gs.Close()
		w.what += " with rubbish sent to the ports"
		rc, gc := rs.Client(), gs.Client()
		preface := "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"
		for k := 0; k < 60; k++ {
			var b []byte
			switch rng.Intn(5) {
			case 0:
				b = randBytes(rng, rng.Intn(2000))
			case 1:
				b = append([]byte(preface), randBytes(rng, rng.Intn(500))...)
			case 2:
				b = append([]byte(preface), 0, 0, 0, 4, 0, 0, 0, 0, 0)
				b = append(b, mangle(rng, []byte{0, 0, 4, 1, 5, 0, 0, 0, 1, 0x82, 0x86, 0x84, 0x41})...)
			case 3:
				b = mangle(rng, []byte("POST /v2/account/20/log/l/entry HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\n\r\nhi"))
			default:
				b = mangle(rng, []byte("\x16\x03\x01\x00\xa5\x01\x00\x00\xa1\x03\x03"))
			}
			addr := []string{gs.Addr, strings.TrimPrefix(rs.URL, "http://")}[rng.Intn(2)]
			r.Case("rubbish", "%x", b)
			c20tcp(r, w.what, addr, b)
			svc := []Svc{rc, gc}[rng.Intn(2)]
			req := &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acct("20", "k"), Name: "l"}, Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint("good", k))}}
			if _, err := svc.LogAddEntry(bg, req); err != nil {
				r.Failf("%s: after %q: %v", w.what, trunc(string(b), 200), err)
				return
			}
			r.Saw("served-after-rubbish")
		}
		if e := rs.Errors.String(); strings.Contains(e, "panic") {
			r.Failf("%s: the server panicked: %s", w.what, trunc(e[strings.Index(e, "panic"):], 2500))
			return
		}
		w.final(s, map[string]Svc{"REST": rc, "gRPC": gc}, rng)
	})
}
