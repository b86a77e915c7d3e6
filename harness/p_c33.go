package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"embed"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/encoding"
	_ "google.golang.org/grpc/encoding/proto"
	"google.golang.org/protobuf/proto"
)

// What the code of the commit this work began with (d64d1ff) has stored, and what it answered,
// is kept in golden/ (made by "monitor -helper golden", with a harness built against that commit).

func init() {
	props["C33"] = &property{level: "exploration", run: c33,
		rule:        "Stores written by the code of the original commit (Bolt and Badger files, PostgreSQL rows, key-value pairs) are opened by the current code: everything in them must be served as the models say, in all historical sizes, with the heads recorded back then, go on to verify from the states clients kept, and keep doing so when extended, also after another restart. Requests of that time's gRPC and REST clients, as they were on the wire, must be answered with what was answered then. A case is a (storage, extension history) or a recorded call.",
		assumptions: []string{"SHA-256 collisions do not occur", "the PostgreSQL stand-in behaves as PostgreSQL does"}}
	helpers["golden"] = makeGolden
}

type gObject struct {
	Account, Name string
	Map           bool
	Items         [][]byte // LeafData or MapMutation
	Acked         [][]byte // what mutations were acknowledged with
	Heads         [][]byte // LogTreeHashResponse or MapTreeHashResponse, for sizes from 1
	THeads        [][]byte // of a map: the tree head log's
}

type gCall struct {
	Method, Path string
	Header       map[string]string `json:",omitempty"`
	Req          []byte            `json:",omitempty"`
	Code         int
	Resp         []byte `json:",omitempty"`
	Type         string `json:",omitempty"` // content type
	Loose        bool   `json:",omitempty"` // the answer depends on the time
}

type gPlain struct {
	Log    string
	Index  int
	Object string
}

type golden struct {
	Objects []*gObject
	Plain   []gPlain                     // what the entries made redactable are
	KV      map[string]map[string][]byte // namespaces and keys in hexadecimal
	PG      map[string]map[string][]byte
	Bolt    map[string][]byte
	Badger  map[string][]byte
	GRPC    []gCall // with the stored objects
	REST    []gCall
	WGRPC   []gCall // from nothing
	WREST   []gCall
}

const gFile = "golden/d64d1ff.json.gz"

//go:embed golden
var gFS embed.FS

func hexKeys(m map[string]map[string][]byte, dec bool) map[string]map[string][]byte {
	conv := func(s string) string {
		if !dec {
			return hex.EncodeToString([]byte(s))
		}
		b, err := hex.DecodeString(s)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	rv := map[string]map[string][]byte{}
	for ns, kv := range m {
		o := map[string][]byte{}
		for k, v := range kv {
			if v == nil {
				v = []byte{}
			}
			o[conv(k)] = v
		}
		rv[conv(ns)] = o
	}
	return rv
}

func dirFiles(dir string) map[string][]byte {
	rv := map[string][]byte{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		rv[rel] = b
		return err
	})
	if err != nil {
		panic(err)
	}
	return rv
}

func putFiles(dir string, files map[string][]byte) {
	for n, b := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
}

// ---- making it

func gBytes(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// gWorkload is what is stored: entries and mutations.
func gWorkload() (rv []*gObject, plain []gPlain) {
	rng := rand.New(rand.NewSource(20171))
	add := func(acc, name string, ents []*pb.LeafData) {
		o := &gObject{Account: acc, Name: name}
		for _, e := range ents {
			o.Items = append(o.Items, gBytes(e))
		}
		rv = append(rv, o)
	}
	ents := func(n int) (rv []*pb.LeafData) {
		for i := 0; i < n; i++ {
			switch e := (&pb.LeafData{LeafInput: []byte(fmt.Sprint("entry ", i))}); i % 5 {
			case 1:
				e.ExtraData = randBytes(rng, 1+rng.Intn(90))
				rv = append(rv, e)
			case 2:
				e.LeafInput = randBytes(rng, rng.Intn(300))
				rv = append(rv, e)
			case 3:
				j, err := verifiable.CreateJSONLeafData([]byte(fmt.Sprintf(`{"n":%d,"s":"ü%d","a":[1,null,{"x":true}],"f":%d.5}`, i, rng.Intn(1000), i)))
				if err != nil {
					panic(err)
				}
				rv = append(rv, j)
			default:
				rv = append(rv, e)
			}
		}
		return
	}
	add("0", "one", ents(1))
	add("0", "m", ents(37))
	add("1234567890", "test-log_2", ents(143))
	var red []*pb.LeafData
	for i := 0; i < 16; i++ {
		text := fmt.Sprintf(`{"name":"n%d","ssn":"%09d","deep":{"a":[%d,{"b":"c"}],"e":{}},"t":%v,"z":null}`, i, rng.Intn(1e9), i, i%2 == 0)
		e, err := verifiable.CreateRedactableJSONLeafData([]byte(text))
		if err != nil {
			panic(err)
		}
		red = append(red, e)
		plain = append(plain, gPlain{Log: "redactable", Index: i, Object: text})
	}
	add("7", "redactable", red)
	for _, m := range []struct {
		acc, name string
		n, keys   int
	}{{"0", "one", 1, 1}, {"0", "m", 64, 5}, {"7", "users", 150, 40}} {
		o := &gObject{Account: m.acc, Name: m.name, Map: true}
		w, g := &MapWorld{}, newWebMapGen(rng, m.keys)
		for i := 0; i < m.n; i++ {
			mu := g.next(&w.MapModel)
			w.Apply(mu)
			o.Items = append(o.Items, gBytes(mutProto(mu)))
		}
		rv = append(rv, o)
	}
	return
}

// gStore performs a workload; it fills in what was answered if there is nothing yet.
func gStore(svc Svc, objs []*gObject) {
	for _, o := range objs {
		fill := len(o.Heads) == 0
		for _, it := range o.Items {
			if !o.Map {
				e := &pb.LeafData{}
				proto.Unmarshal(it, e)
				if _, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lref(o.Account, o.Name, tLog), Value: e}); err != nil {
					panic(err)
				}
				h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lref(o.Account, o.Name, tLog)})
				if err != nil {
					panic(err)
				}
				if fill {
					o.Heads = append(o.Heads, gBytes(h))
				}
				continue
			}
			mu := &pb.MapMutation{}
			proto.Unmarshal(it, mu)
			resp, err := svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: mref(o.Account, o.Name), Mutation: mu})
			if err != nil {
				panic(err)
			}
			h, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mref(o.Account, o.Name)})
			if err != nil {
				panic(err)
			}
			th, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lref(o.Account, o.Name, tHead)})
			if err != nil {
				panic(err)
			}
			if fill {
				o.Acked = append(o.Acked, resp.LeafHash)
				o.Heads = append(o.Heads, gBytes(h))
				o.THeads = append(o.THeads, gBytes(th))
			}
		}
	}
}

// copyInto writes what is in a storage into another, key by key.
func copyInto(st verifiable.StorageWriter, data map[string]map[string][]byte) {
	for ns, kv := range data {
		err := st.ExecuteUpdate(bg, []byte(ns), func(ctx context.Context, kw verifiable.KeyWriter) error {
			for k, v := range kv {
				// any message will do, since its bytes are kept if it doesn't know the fields
				m := &pb.LogTreeHashRequest{}
				m.ProtoReflect().SetUnknown(v)
				if err := kw.Set(ctx, []byte(k), m); err != nil {
					return err
				}
			}
			return nil
		})
		if err != nil {
			panic(err)
		}
	}
}

func makeGolden(dir string) {
	g := &golden{}
	g.Objects, g.Plain = gWorkload()
	sp := &specStore{}
	gStore(newService(sp, nil, nil), g.Objects)
	g.KV = hexKeys(sp.data, false)

	// the same data in the other storages: they hold values as the service gave them
	for _, kind := range []string{"bolt", "badger"} {
		d, err := os.MkdirTemp("", "golden")
		if err != nil {
			panic(err)
		}
		st, done := openStore(kind, d)
		copyInto(st, sp.data)
		done()
		f := dirFiles(d)
		if kind == "bolt" {
			g.Bolt = f
		} else {
			g.Badger = f
		}
		os.RemoveAll(d)
	}
	pg := newPGStore(1, 1)
	copyInto(pg, sp.data)
	g.PG = hexKeys(pg.db.Dump(), false)
	pg.Close()

	gs := newGRPC(newService(sp, nil, nil))
	g.GRPC = gGRPCcalls(g.Objects, false)
	playGRPC(gs.Addr, g.GRPC, func(c *gCall, code int, resp []byte) { c.Code, c.Resp = code, resp })
	gs = newGRPC(newService(&specStore{}, nil, nil))
	g.WGRPC = gGRPCcalls(g.Objects, true)
	playGRPC(gs.Addr, g.WGRPC, func(c *gCall, code int, resp []byte) { c.Code, c.Resp = code, resp })
	fill := func(c *gCall, code int, typ string, resp []byte) { c.Code, c.Type, c.Resp = code, typ, resp }
	rs := newREST(newService(sp, nil, nil))
	g.REST = gRESTcalls(g.Objects, false)
	playREST(rs.URL, g.REST, fill)
	rs = newREST(newService(&specStore{}, nil, nil))
	g.WREST = gRESTcalls(g.Objects, true)
	playREST(rs.URL, g.WREST, fill)

	b, err := json.Marshal(g)
	if err != nil {
		panic(err)
	}
	p := filepath.Join(dir, gFile)
	os.MkdirAll(filepath.Dir(p), 0o755)
	f, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	z, _ := gzip.NewWriterLevel(f, 9)
	z.Write(b)
	z.Close()
	f.Close()
	fmt.Println(len(g.GRPC), len(g.REST), len(g.WGRPC), len(g.WREST), len(b))
}

const gMethod = "/com.continusec.verifiabledatastructures.api.VerifiableDataStructuresService/"

// gGRPCcalls are requests to record.
func gGRPCcalls(objs []*gObject, write bool) (rv []gCall) {
	rng := rand.New(rand.NewSource(33))
	call := func(method string, m proto.Message, loose bool) {
		rv = append(rv, gCall{Method: gMethod + method, Req: gBytes(m), Loose: loose})
	}
	log := func(l *pb.LogRef, items [][]byte, loose bool) {
		n := int64(len(items))
		call("LogTreeHash", &pb.LogTreeHashRequest{Log: l}, loose)
		call("LogFetchEntries", &pb.LogFetchEntriesRequest{Log: l}, loose)
		for i := int64(0); i < n; i = i*3/2 + 1 {
			call("LogTreeHash", &pb.LogTreeHashRequest{Log: l, TreeSize: i + 1}, loose)
			call("LogFetchEntries", &pb.LogFetchEntriesRequest{Log: l, First: i, Last: i + rng.Int63n(n-i) + 1}, loose)
			call("LogInclusionProof", &pb.LogInclusionProofRequest{Log: l, TreeSize: n, LeafIndex: i}, loose)
			e := &pb.LeafData{}
			if l.LogType == tLog {
				proto.Unmarshal(items[i], e)
				call("LogInclusionProof", &pb.LogInclusionProofRequest{Log: l, TreeSize: i + 1 + rng.Int63n(n-i), MtlHash: spec.LeafHash(e.LeafInput)}, loose)
			}
			if i > 0 {
				call("LogConsistencyProof", &pb.LogConsistencyProofRequest{Log: l, FromSize: i, TreeSize: n}, loose)
			}
		}
		call("LogTreeHash", &pb.LogTreeHashRequest{Log: l, TreeSize: n + 1}, loose)
		call("LogInclusionProof", &pb.LogInclusionProofRequest{Log: l, TreeSize: n, MtlHash: spec.LeafHash([]byte("not there"))}, loose)
	}
	for _, o := range objs {
		n := int64(len(o.Items))
		if !o.Map {
			l := lref(o.Account, o.Name, tLog)
			if write {
				for _, it := range o.Items[:(n+1)/2] {
					e := &pb.LeafData{}
					proto.Unmarshal(it, e)
					call("LogAddEntry", &pb.LogAddEntryRequest{Log: l, Value: e}, false)
				}
				log(l, o.Items[:(n+1)/2], false)
				continue
			}
			log(l, o.Items, false)
			continue
		}
		m := mref(o.Account, o.Name)
		items := o.Items
		if write {
			items = items[:(n+1)/2]
			n = int64(len(items))
		}
		var keys [][]byte
		for _, it := range items {
			mu := &pb.MapMutation{}
			proto.Unmarshal(it, mu)
			keys = append(keys, mu.Key)
			if write {
				call("MapSetValue", &pb.MapSetValueRequest{Map: m, Mutation: mu}, true)
			}
		}
		call("MapTreeHash", &pb.MapTreeHashRequest{Map: m}, write)
		for i := int64(0); i < n; i = i*3/2 + 1 {
			call("MapTreeHash", &pb.MapTreeHashRequest{Map: m, TreeSize: i + 1}, write)
			call("MapGetValue", &pb.MapGetValueRequest{Map: m, Key: keys[i], TreeSize: i + 1}, false)
			call("MapGetValue", &pb.MapGetValueRequest{Map: m, Key: keys[i]}, false)
			call("MapGetValue", &pb.MapGetValueRequest{Map: m, Key: []byte("never"), TreeSize: i + 1}, false)
		}
		log(lref(o.Account, o.Name, tMut), items, write)
		log(lref(o.Account, o.Name, tHead), items, write)
	}
	return
}

// gRESTcalls likewise.
func gRESTcalls(objs []*gObject, write bool) (rv []gCall) {
	rng := rand.New(rand.NewSource(34))
	call := func(method, path string, body []byte, loose bool, hdr ...string) {
		c := gCall{Method: method, Path: path, Req: body, Loose: loose}
		for i := 0; i+1 < len(hdr); i += 2 {
			if c.Header == nil {
				c.Header = map[string]string{}
			}
			c.Header[hdr[i]] = hdr[i+1]
		}
		rv = append(rv, c)
	}
	extra := func(e *pb.LeafData) []byte {
		o := map[string]interface{}{"leaf_input": base64.StdEncoding.EncodeToString(e.LeafInput)}
		if len(e.ExtraData) > 0 {
			o["extra_data"] = base64.StdEncoding.EncodeToString(e.ExtraData)
		}
		if e.Format != 0 {
			o["format"] = int(e.Format)
		}
		b, _ := json.Marshal(o)
		return b
	}
	log := func(p string, items [][]byte, sub, loose bool) {
		n := len(items)
		get := func(f string, a ...interface{}) { call("GET", p+fmt.Sprintf(f, a...), nil, loose) }
		get("/tree/head")
		for i := 0; i < n; i = i*3/2 + 1 {
			get("/tree/%d", i+1)
			get("/entry/%d", i)
			get("/entry/%d/xjson", i)
			get("/entry/%d/extra", i)
			for _, s := range []string{"", "/xjson", "/extra"} {
				get("/entries/%d-%d%s", i, i+1+rng.Intn(n-i), s)
			}
			get("/tree/%d/inclusion/%d", n, i)
			if i > 0 {
				get("/tree/%d/consistency/%d", n, i)
			}
			if !sub {
				e := &pb.LeafData{}
				proto.Unmarshal(items[i], e)
				get("/tree/%d/inclusion/h/%x", i+1+rng.Intn(n-i), spec.LeafHash(e.LeafInput))
			}
		}
		get("/tree/%d", n+1)
		get("/tree/%d/inclusion/s/missing", n)
	}
	for _, o := range objs {
		n := len(o.Items)
		items := o.Items
		if write {
			items = items[:(n+1)/2]
			n = len(items)
		}
		if !o.Map {
			p := "/v2/account/" + o.Account + "/log/" + o.Name
			if write {
				for i, it := range items {
					e := &pb.LeafData{}
					proto.Unmarshal(it, e)
					if i%2 == 0 && len(e.ExtraData) == 0 && e.Format == 0 {
						call("POST", p+"/entry", e.LeafInput, false)
					} else {
						call("POST", p+"/entry/extra", extra(e), false)
					}
				}
				call("POST", p+"/entry/xjson", []byte(`{"a":1,"b":[true,"x"]}`), false)
				call("POST", p+"-r/entry/xjson/redactable", []byte(`{"a":1,"b":[true,"x"]}`), true)
			}
			log(p, items, false, false)
			continue
		}
		p := "/v2/account/" + o.Account + "/map/" + o.Name
		var keys []string
		for _, it := range items {
			mu := &pb.MapMutation{}
			proto.Unmarshal(it, mu)
			keys = append(keys, fmt.Sprintf("/h/%x", mu.Key))
			if !write {
				continue
			}
			switch mu.Action {
			case "delete":
				call("DELETE", p+"/key"+keys[len(keys)-1], nil, true)
			case "update":
				// without the header, a previous value of none is a set
				if len(mu.PreviousLeafHash) > 0 {
					call("PUT", p+"/key"+keys[len(keys)-1]+"/extra", extra(mu.Value), true, "X-Previous-LeafHash", hex.EncodeToString(mu.PreviousLeafHash))
				}
			default:
				call("PUT", p+"/key"+keys[len(keys)-1]+"/extra", extra(mu.Value), true)
			}
		}
		if write {
			call("PUT", p+"/key/s/simple-key", []byte("value"), true)
			call("PUT", p+"/key/s/json_key/xjson", []byte(`{"q":[1,2]}`), true)
			call("GET", p+"/tree/head/key/s/simple-key", nil, false)
			call("GET", p+"/tree/head/key/s/simple-key/extra", nil, false)
			call("GET", p+"/tree/head/key/s/json_key/xjson", nil, false)
			call("GET", p+"/tree/head/key/s/json_key/extra", nil, false)
		}
		call("GET", p+"/tree/head", nil, write)
		for i := 0; i < n; i = i*3/2 + 1 {
			call("GET", p+fmt.Sprintf("/tree/%d", i+1), nil, write)
			for _, s := range []string{"", "/xjson", "/extra"} {
				call("GET", p+fmt.Sprintf("/tree/%d/key%s%s", i+1, keys[i], s), nil, false)
				call("GET", p+"/tree/head/key"+keys[i]+s, nil, false)
			}
		}
		log(p+"/log/mutation", items, true, write)
		log(p+"/log/treehead", items, true, write)
	}
	return
}

// gCodec leaves messages as they are on the wire.
type gCodec struct{}

func (gCodec) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (gCodec) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte(nil), b...)
	return nil
}
func (gCodec) Name() string { return "proto" }

var _ encoding.Codec = gCodec{}

func playGRPC(addr string, calls []gCall, f func(c *gCall, code int, resp []byte)) {
	cc, err := grpc.NewClient(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	defer cc.Close()
	for i := range calls {
		c := &calls[i]
		var resp []byte
		ctx, cancel := context.WithTimeout(bg, 150*time.Second)
		err := cc.Invoke(ctx, c.Method, &c.Req, &resp, grpc.ForceCodec(gCodec{}))
		cancel()
		f(c, int(code(err)), resp)
	}
}

func playREST(url string, calls []gCall, f func(c *gCall, code int, typ string, resp []byte)) {
	hc := &http.Client{Transport: &http.Transport{}, Timeout: 150 * time.Second}
	defer hc.CloseIdleConnections()
	for i := range calls {
		c := &calls[i]
		req, err := http.NewRequest(c.Method, url+c.Path, bytes.NewReader(c.Req))
		if err != nil {
			panic(err)
		}
		for k, v := range c.Header {
			req.Header.Set(k, v)
		}
		resp, err := hc.Do(req)
		if err != nil {
			f(c, -1, err.Error(), nil)
			continue
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		f(c, resp.StatusCode, resp.Header.Get("Content-Type"), b)
	}
}

// ---- checking

func loadGolden() *golden {
	f, err := gFS.Open(gFile)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		panic(err)
	}
	g := &golden{}
	if err := json.NewDecoder(z).Decode(g); err != nil {
		panic(err)
	}
	return g
}

// gWorld is a store of then, opened, with models of what must be in it.
type gWorld struct {
	kind  string
	st    verifiable.StorageWriter
	close func()
	again func() // closes and opens it
	logs  map[*gObject]*LogModel
	maps  map[*gObject]*MapWorld
}

func (g *golden) open(r *R, kind string) *gWorld {
	w := &gWorld{kind: kind, logs: map[*gObject]*LogModel{}, maps: map[*gObject]*MapWorld{}}
	switch kind {
	case "spec":
		sp := &specStore{data: hexKeys(g.KV, true)}
		w.st, w.close, w.again = sp, func() {}, func() {}
	case "memory": // as the storage would have it
		st, done := newStore(r, "memory")
		copyInto(st, hexKeys(g.KV, true))
		w.st, w.close, w.again = st, done, func() {}
	case "postgres":
		pg := &pgStore{db: newPG()}
		for t, rows := range hexKeys(g.PG, true) {
			pg.db.tables[t] = &pgTable{rows: map[string][]*pgVer{}}
			for k, v := range rows {
				pg.db.tables[t].rows[k] = []*pgVer{{val: v}}
			}
		}
		pg.open(1, 3)
		w.st, w.close = pg, pg.Close
		w.again = func() {
			pg.closeStores()
			pg.open(2, 2)
		}
	default:
		dir := r.Dir()
		if kind == "bolt" {
			putFiles(dir, g.Bolt)
		} else {
			putFiles(dir, g.Badger)
		}
		var done func()
		w.st, done = openStore(kind, dir)
		w.close = func() { done() }
		w.again = func() {
			done()
			w.st, done = openStore(kind, dir)
		}
	}
	for _, o := range g.Objects {
		if !o.Map {
			m := &LogModel{}
			for _, it := range o.Items {
				e := &pb.LeafData{}
				proto.Unmarshal(it, e)
				m.Add(e)
			}
			w.logs[o] = m
			continue
		}
		m := &MapWorld{Acked: append([][]byte(nil), o.Acked...)}
		for _, it := range o.Items {
			m.Apply(gMut(it))
		}
		w.maps[o] = m
	}
	return w
}

func gMut(b []byte) spec.Mut {
	mu := &pb.MapMutation{}
	proto.Unmarshal(b, mu)
	rv := spec.Mut{Action: mu.Action, Key: mu.Key, Prev: mu.PreviousLeafHash, NoVal: mu.Value == nil}
	if mu.Value != nil {
		rv.LI, rv.ED, rv.Format = mu.Value.LeafInput, mu.Value.ExtraData, int32(mu.Value.Format)
	}
	return rv
}

func c33(r *R) {
	g := loadGolden()
	kinds := []string{"bolt", "spec", "badger", "postgres", "memory"}
	r.Par(r.N(20, 200), func(i int) { c33store(r, g, i, kinds[i%len(kinds)]) })
	r.Par(r.N(10, 20), func(i int) { c33wire(r, g, kinds[i%len(kinds)], i) })
}

// all checks everything there is.
func (w *gWorld) all(r *R, what string, g *golden, svc Svc, rng *rand.Rand) bool {
	for _, o := range g.Objects {
		what := fmt.Sprintf("%s, %s of account %s, written by the original version", what, o.Name, o.Account)
		ok := false
		if o.Map {
			ok = ckMapAll(r, what, svc, mref(o.Account, o.Name), w.maps[o], rng, 3)
		} else {
			ok = ckLog(r, what, svc, lref(o.Account, o.Name, tLog), w.logs[o], rng)
		}
		if !ok {
			return false
		}
	}
	return true
}

// heads compares with the heads given back then, and has clients go on from them.
func (w *gWorld) heads(r *R, what string, g *golden, svc Svc, rng *rand.Rand) bool {
	for _, o := range g.Objects {
		what := fmt.Sprintf("%s, %s of account %s, written by the original version", what, o.Name, o.Account)
		acc := hl(svc, o.Account, "")
		for i := range o.Heads {
			n := int64(i + 1)
			r.Saw("recorded-head")
			if !o.Map {
				was := &pb.LogTreeHashResponse{}
				proto.Unmarshal(o.Heads[i], was)
				h, err := svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lref(o.Account, o.Name, tLog), TreeSize: n})
				if err != nil || !proto.Equal(was, h) {
					r.Failf("%s: the head for size %d was %v, now it is %v %v", what, n, was, h, err)
					return false
				}
				if rng.Intn(4) == 0 {
					h, err := acc.VerifiableLog(o.Name).VerifiedLatestTreeHead(bg, was)
					if err != nil || h.TreeSize != int64(w.logs[o].Len()) {
						r.Failf("%s: a client that has verified size %d gets %v, %v", what, n, h, err)
						return false
					}
				}
				continue
			}
			was, th := &pb.MapTreeHashResponse{}, &pb.LogTreeHashResponse{}
			proto.Unmarshal(o.Heads[i], was)
			proto.Unmarshal(o.THeads[i], th)
			h, err := svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mref(o.Account, o.Name), TreeSize: n})
			if err != nil || !proto.Equal(was, h) {
				r.Failf("%s: the map head for size %d was %v, now it is %v %v", what, n, was, h, err)
				return false
			}
			if rng.Intn(8) == 0 {
				vm := acc.VerifiableMap(o.Name)
				prev := &verifiable.MapTreeState{MapTreeHead: was, TreeHeadLogTreeHead: th}
				st, err := vm.VerifiedLatestMapState(bg, prev)
				if err != nil || st.TreeSize() != int64(w.maps[o].Size()) {
					r.Failf("%s: a client that has verified size %d of the map gets %v, %v", what, n, st, err)
					return false
				}
				if rng.Intn(4) == 0 {
					err := vm.VerifyMap(bg, prev, st, func(ctx context.Context, e *pb.LeafData) error { return nil },
						func(ctx context.Context, idx int64, key []byte, value *pb.LeafData) error { return nil })
					if err != nil {
						r.Failf("%s: an audit of the map from size %d fails: %v", what, n, err)
						return false
					}
				}
				r.Saw("continued-client")
			}
		}
	}
	return true
}

// redactable checks the entries made redactable then.
func (w *gWorld) redactable(r *R, what string, g *golden) bool {
	limited := newService(w.st, nil, staticPolicy([]*pb.ResourceAccount{{Id: "7", Policy: []*pb.AccessPolicy{{
		ApiKey: "*", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_LOG_READ_HASH}, AllowedFields: []string{"name", "t"}}}}}))
	full := newService(w.st, nil, nil)
	for _, p := range g.Plain {
		var want interface{}
		json.Unmarshal([]byte(p.Object), &want)
		for _, svc := range []Svc{full, limited} {
			what := fmt.Sprintf("%s: entry %d of %s, made redactable by the original version", what, p.Index, p.Log)
			r.Saw("redactable-entry")
			e, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: lref("7", p.Log, tLog), First: int64(p.Index), Last: int64(p.Index) + 1})
			if err != nil || len(e.Values) != 1 {
				r.Failf("%s: %v %v", what, e, err)
				return false
			}
			if err := verifiable.ValidateJSONLeafData(bg, e.Values[0]); err != nil {
				r.Failf("%s does not validate: %v", what, err)
				return false
			}
			shed, err := verifiable.ShedRedactedJSONFields(e.Values[0].ExtraData)
			var got interface{}
			if err == nil {
				err = json.Unmarshal(shed, &got)
			}
			exp := want
			if svc == limited {
				o := want.(map[string]interface{})
				exp = map[string]interface{}{"name": o["name"], "t": o["t"]}
			}
			if err != nil || !reflect.DeepEqual(exp, got) {
				r.Failf("%s is %s %v, not %v", what, shed, err, exp)
				return false
			}
		}
	}
	return true
}

func c33store(r *R, g *golden, round int, kind string) {
	rng := r.Rand(fmt.Sprint("s", round))
	w := g.open(r, kind)
	defer func() { w.close() }()
	r.Case("store", "%s %d", kind, round)
	what := kind + " storage"
	defer func() {
		if e := recover(); e != nil {
			if e == errStop {
				panic(e)
			}
			r.Failf("%s written by the original version: panic: %v", what, e)
		}
	}()
	svc := newService(w.st, nil, nil)
	if round%2 == 0 {
		if !w.all(r, what, g, svc, rng) {
			return
		}
	}
	if !w.heads(r, what, g, svc, rng) || !w.redactable(r, what, g) {
		return
	}
	for stage := 0; stage < 2+rng.Intn(2); stage++ {
		var mut verifiable.MutatorService = (&instant.Mutator{Writer: w.st})
		svc = (&verifiable.Service{AccessPolicy: policy.Open, Reader: w.st, Mutator: mut}).MustCreate()
		what := fmt.Sprintf("%s, extended (%d)", what, stage)
		for _, o := range g.Objects {
			if rng.Intn(4) == 0 {
				continue // this one stays as it is
			}
			if !o.Map {
				m := w.logs[o]
				for i := 1 + rng.Intn(12); i > 0; i-- {
					e := &pb.LeafData{LeafInput: []byte(fmt.Sprint("new ", stage, i)), ExtraData: []byte("x")}
					if rng.Intn(3) == 0 { // is there
						e = &pb.LeafData{LeafInput: m.Entries[rng.Intn(m.Len())].LeafInput, ExtraData: []byte("other")}
					}
					resp, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lref(o.Account, o.Name, tLog), Value: e})
					r.Saw("extension")
					if err != nil || !bytes.Equal(resp.LeafHash, spec.LeafHash(e.LeafInput)) {
						r.Failf("%s: adding to %s gives %v %v", what, o.Name, resp, err)
						return
					}
					m.Add(e)
				}
				continue
			}
			m := w.maps[o]
			gen := newWebMapGen(rng, 4)
			for _, k := range m.Keys() {
				gen.keys = append(gen.keys, []byte(k))
			}
			for i := 1 + rng.Intn(12); i > 0; i-- {
				r.Saw("extension")
				if err := m.mutate(svc, mref(o.Account, o.Name), gen.next(&m.MapModel)); err != nil {
					r.Failf("%s: mutating %s: %v", what, o.Name, err)
					return
				}
			}
		}
		if rng.Intn(2) == 0 {
			if !w.all(r, what, g, svc, rng) {
				return
			}
		}
		w.again()
		what += ", opened again"
		svc = newService(w.st, nil, nil)
		if !w.all(r, what, g, svc, rng) || !w.heads(r, what, g, svc, rng) || !w.redactable(r, what, g) {
			return
		}
	}
}

// ---- what was on the wire

// gSame compares answers.
func gSame(method string, a, b []byte) bool {
	var x proto.Message
	switch strings.TrimPrefix(method, gMethod) {
	case "LogAddEntry":
		x = &pb.LogAddEntryResponse{}
	case "LogFetchEntries":
		x = &pb.LogFetchEntriesResponse{}
	case "LogTreeHash":
		x = &pb.LogTreeHashResponse{}
	case "LogInclusionProof":
		x = &pb.LogInclusionProofResponse{}
	case "LogConsistencyProof":
		x = &pb.LogConsistencyProofResponse{}
	case "MapSetValue":
		x = &pb.MapSetValueResponse{}
	case "MapGetValue":
		x = &pb.MapGetValueResponse{}
	case "MapTreeHash":
		x = &pb.MapTreeHashResponse{}
	}
	y := proto.Clone(x)
	return proto.Unmarshal(a, x) == nil && proto.Unmarshal(b, y) == nil && proto.Equal(x, y)
}

// gNorm makes spellings of the same JSON the same.
func gNorm(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, e := range x {
			if n := gNorm(e); n != nil {
				o[k] = n
			}
		}
		return o
	case []interface{}:
		if len(x) == 0 {
			return nil
		}
		var l []interface{}
		for _, e := range x {
			l = append(l, gNorm(e))
		}
		return l
	case string:
		if x == "" {
			return nil
		}
	case float64:
		if x == 0 {
			return nil
		}
	case bool:
		if !x {
			return nil
		}
	}
	return v
}

func gShort(b []byte) string { return trunc(fmt.Sprintf("%q", b), 300) }

func c33wire(r *R, g *golden, kind string, round int) {
	w := g.open(r, kind)
	defer func() { w.close() }()
	empty, done := verifiable.StorageWriter(&specStore{}), func() {}
	if kind != "postgres" {
		empty, done = newStore(r, kind)
	}
	defer done()
	for i, calls := range [][]gCall{g.GRPC, g.WGRPC} {
		st := w.st
		if i == 1 {
			st = empty
		}
		gs := newGRPC(newService(st, nil, nil))
		playGRPC(gs.Addr, append([]gCall(nil), calls...), func(c *gCall, code int, resp []byte) {
			what := fmt.Sprintf("%s storage: the gRPC request %s %s of the original version", kind, strings.TrimPrefix(c.Method, gMethod), gShort(c.Req))
			r.Case("wire", "%s", what)
			if (code == 0) != (c.Code == 0) { // which error it is, is C19's
				r.Failf("%s was answered with code %d, now %d", what, c.Code, code)
				return
			}
			if code == 0 && !c.Loose && !gSame(c.Method, c.Resp, resp) {
				r.Failf("%s was answered with %s, now %s", what, gShort(c.Resp), gShort(resp))
			}
		})
		gs.Close()
	}
	if kind != "postgres" {
		done()
		empty, done = newStore(r, kind)
	} else {
		empty = &specStore{}
	}
	for i, calls := range [][]gCall{g.REST, g.WREST} {
		st := w.st
		if i == 1 {
			st = empty
		}
		rs := newREST(newService(st, nil, nil))
		playREST(rs.URL, append([]gCall(nil), calls...), func(c *gCall, code int, typ string, resp []byte) {
			what := fmt.Sprintf("%s storage: the REST request %s %s %s of the original version", kind, c.Method, c.Path, gShort(c.Req))
			r.Case("wire", "%s", what)
			if code != c.Code && (code < 400 || c.Code < 400) {
				r.Failf("%s was answered with status %d, now %d %s", what, c.Code, code, gShort(resp))
				return
			}
			if c.Loose || code != 200 {
				return
			}
			if i := strings.Index(typ, ";"); i >= 0 {
				typ = typ[:i]
			}
			was := c.Type
			if i := strings.Index(was, ";"); i >= 0 {
				was = was[:i]
			}
			if typ != was {
				r.Failf("%s was answered with %s, now %s", what, was, typ)
				return
			}
			var a, b interface{}
			if bytes.Equal(resp, c.Resp) || json.Unmarshal(resp, &a) == nil && json.Unmarshal(c.Resp, &b) == nil && reflect.DeepEqual(gNorm(a), gNorm(b)) {
				return
			}
			r.Failf("%s was answered with %s, now %s", what, gShort(c.Resp), gShort(resp))
		})
		rs.Close()
	}
}
