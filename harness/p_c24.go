package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"vharness/spec"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
)

//go:embed js/runner.js
var jsRunner []byte

func init() {
	props["C24"] = &property{level: "exploration", run: c24,
		rule:        "The continusec.js that the REST server serves is run under node with XMLHttpRequest, atob and btoa as in browsers. Its hash functions are compared with independent ones; its proof verifiers are given the workload of C04 (honest proofs, single alterations, short enumerated proofs, large trees) and must give the verdict of recursive verifiers; every documented call is made against the real REST server and its callbacks compared with the models; in sessions against servers that alter REST answers every success must be true of the honest contents. A case is a call, hash input or proof.",
		assumptions: []string{"node 22 behaves as browsers do where the client relies on it", "keys and raw data are strings of bytes", "sizes and indices are at most 2^53, beyond which JavaScript has no integers", "a session's honest contents are what was read from the service before it turned hostile"}}
}

// ---- node

type jsNode struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err lockedBuf
}

func jsStart(r *R, script string) *jsNode {
	return jsStartScript(filepath.Join(filepath.Dir(script), "runner.js"), script)
}

func jsStartScript(args ...string) *jsNode {
	n := &jsNode{cmd: exec.Command("node", append([]string{"--stack-size=2000"}, args...)...)}
	n.cmd.Stderr = &n.err
	var err error
	if n.in, err = n.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	p, err := n.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	n.out = bufio.NewReaderSize(p, 1<<20)
	if err = n.cmd.Start(); err != nil {
		panic(err)
	}
	return n
}

func (n *jsNode) close() {
	n.in.Close()
	n.cmd.Process.Kill()
	n.cmd.Wait()
}

type jm = map[string]interface{}

type jsCall struct {
	OK     bool            `json:"ok"`
	Threw  bool            `json:"threw"`
	Reason string          `json:"reason"`
	Val    json.RawMessage `json:"val"`
	Args   int             `json:"args"`
}

type jsAnswer struct {
	Calls    []jsCall `json:"calls"`
	Each     []jsEach `json:"each"`
	Late     []string `json:"late"`
	Requests int      `json:"requests"`
	// Preflights are questions whether a page from elsewhere may do the request
	Preflights int64 `json:"preflights"`
}

type jsEach struct {
	I int64   `json:"i"`
	E jsEntry `json:"e"`
}

type jsEntry struct {
	Leaf string  `json:"leaf"`
	Data *string `json:"data"`
	Text *string `json:"text"`
}

type jsHead struct {
	Size int64  `json:"size"`
	Root string `json:"root"`
}

type jsMapHead struct {
	Log  jsHead `json:"log"`
	Root string `json:"root"`
	Size int64  `json:"size"`
}

type jsState struct {
	Head jsMapHead `json:"head"`
	Thl  jsHead    `json:"thl"`
}

type jsProof struct {
	Leaf  *string  `json:"leaf"`
	From  int64    `json:"from"`
	Size  int64    `json:"size"`
	Index int64    `json:"index"`
	Path  []string `json:"path"`
}

type jsMapEntry struct {
	Key   string    `json:"key"`
	Size  int64     `json:"size"`
	Value jsEntry   `json:"value"`
	Path  []*string `json:"path"`
}

const jsHang = 150 * time.Second

// ask sends a request and waits for the answer. Nil means that there's none, which has been reported.
func (n *jsNode) ask(r *R, q jm) *jsAnswer {
	b, err := json.Marshal(q)
	if err != nil {
		panic(err)
	}
	line := n.askLine(r, "the JavaScript client", b)
	if line == nil {
		return nil
	}
	var a jsAnswer
	if err := json.Unmarshal(line, &a); err != nil {
		panic(fmt.Sprintf("%v: %s", err, trunc(string(line), 300)))
	}
	if len(a.Late) > 0 {
		r.Failf("the JavaScript client called back again later: %v", a.Late)
		return nil
	}
	return &a
}

// askLine sends a line and waits for one. Nil means that there's none, which has been reported.
func (n *jsNode) askLine(r *R, what string, b []byte) []byte {
	t := time.AfterFunc(jsHang, func() { n.cmd.Process.Kill() })
	defer t.Stop()
	_, err := n.in.Write(append(b, '\n'))
	var line []byte
	if err == nil {
		line, err = n.out.ReadBytes('\n')
	}
	if err != nil {
		if !t.Stop() {
			r.Failf("%s has neither succeeded nor failed after %v: %s", what, jsHang, trunc(string(b), 1500))
		} else {
			r.Failf("node ended: %v %s: %s", err, trunc(n.err.String(), 1000), trunc(string(b), 1500))
		}
		return nil
	}
	return line
}

// pure calls a function. The string result, and whether it returned.
func (n *jsNode) pure(r *R, q jm) (string, bool, string) {
	a := n.ask(r, q)
	if a == nil {
		return "", false, "no answer"
	}
	var s string
	json.Unmarshal(a.Calls[0].Val, &s)
	return s, a.Calls[0].OK, a.Calls[0].Reason
}

func jb(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func jpath(p [][]byte) []string {
	rv := make([]string, len(p))
	for i, x := range p {
		rv[i] = jb(x)
	}
	return rv
}

func jhead(h *pb.LogTreeHashResponse) interface{} {
	if h == nil {
		return nil
	}
	return jm{"size": h.TreeSize, "root": jb(h.RootHash)}
}

func jmhead(h *pb.MapTreeHashResponse) interface{} {
	if h == nil {
		return nil
	}
	l := h.MutationLog
	if l == nil {
		l = &pb.LogTreeHashResponse{}
	}
	return jm{"log": jhead(l), "root": jb(h.RootHash)}
}

func jstate(s *verifiable.MapTreeState) interface{} {
	if s == nil {
		return nil
	}
	return jm{"head": jmhead(s.MapTreeHead), "thl": jhead(s.TreeHeadLogTreeHead)}
}

// jsScripts fetches the client from a running server.
func jsScripts(r *R) string {
	s := newREST(newService(&specStore{}, nil, nil))
	defer s.Close()
	resp, err := http.Get(s.URL + "/continusec.js")
	if err != nil {
		r.Failf("cannot fetch the client: %v", err)
		return ""
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != 200 || !bytes.Contains(b, []byte("ContinusecClient")) {
		r.Failf("the server doesn't serve the JavaScript client: %v, status %d, %d bytes", err, resp.StatusCode, len(b))
		return ""
	}
	if ct := resp.Header.Get("Content-Type"); !strings.Contains(ct, "javascript") {
		r.Failf("the JavaScript client is served as %q", ct)
	}
	d := r.Dir()
	os.WriteFile(filepath.Join(d, "continusec.js"), b, 0644)
	os.WriteFile(filepath.Join(d, "runner.js"), jsRunner, 0644)
	r.Saw("client-fetched")
	return filepath.Join(d, "continusec.js")
}

func c24(r *R) {
	script := jsScripts(r)
	if script == "" {
		return
	}
	if _, err := exec.LookPath("node"); err != nil {
		panic(err)
	}
	nSess, nHost := r.N(60, 700), r.N(120, 1500)
	// the parts that take longest first
	r.Par(4+nSess+nHost, func(i int) {
		n := jsStart(r, script)
		defer n.close()
		switch {
		case i == 0:
			c24verifiers(r, n, "map", c04map)
		case i == 1:
			c24verifiers(r, n, "inclusion", c04inclusion)
		case i == 2:
			c24verifiers(r, n, "consistency", c04consistency)
		case i == 3:
			c24hashes(r, n)
		case i < 4+nSess:
			c24honest(r, n, i-4)
		default:
			c24hostile(r, n, i-4-nSess)
		}
	})
}

// ---- hashes

func c24hashes(r *R, n *jsNode) {
	rng := r.Rand("hash")
	same := func(what string, q jm, want []byte) bool {
		got, ok, why := n.pure(r, q)
		r.Saw("hash-" + fmt.Sprint(q["op"]))
		if !ok || got != jb(want) {
			r.Failf("JavaScript %s is %s %s, not %s: %s", q["op"], got, why, jb(want), trunc(what, 1000))
			return false
		}
		return true
	}
	for i := 0; i < r.N(400, 3000); i++ {
		b := randBytes(rng, rng.Intn(200))
		if i < 140 { // all lengths about the hash's blocks
			b = randBytes(rng, i)
		}
		r.Case("bytes", "%x", b)
		h := spec.LeafHash(b)
		if !same(fmt.Sprintf("%x", b), jm{"op": "leaf", "data": jb(b)}, h) ||
			!same(fmt.Sprintf("%x", b), jm{"op": "entryleaf", "v": jm{"kind": "raw", "data": jb(b)}}, h) ||
			!same(fmt.Sprintf("%x", b), jm{"op": "node", "l": jb(h), "r": jb(spec.LeafHash(h))}, spec.NodeHash(h, spec.LeafHash(h))) {
			return
		}
		k := spec.PathOf(b)
		if !same(fmt.Sprintf("%x", b), jm{"op": "sha256", "data": jb(b)}, k[:]) {
			return
		}
		var bits strings.Builder
		for j := 0; j < 256; j++ {
			bits.WriteByte('0')
			if k.Bit(j) {
				s := bits.String()
				bits.Reset()
				bits.WriteString(s[:j] + "1")
			}
		}
		if got, ok, why := n.pure(r, jm{"op": "kp", "data": jb(b)}); !ok || got != bits.String() {
			r.Failf("JavaScript key path of %x is %s %s, not %s", b, got, why, bits.String())
			return
		}
		r.Saw("hash-kp")
	}
	a := n.ask(r, jm{"op": "defaults"})
	if a == nil {
		return
	}
	var defs []string
	json.Unmarshal(a.Calls[0].Val, &defs)
	for i := 0; i <= 256; i++ {
		if len(defs) != 257 || defs[i] != jb(spec.Defaults[i]) {
			r.Failf("JavaScript default hash %d is wrong", i)
			return
		}
		r.Saw("hash-default")
	}
	// JSON
	x := &c22run{r: r, rng: rng}
	for i := 0; i < r.N(4000, 60000); i++ {
		o := x.value(0)
		if i%3 == 0 {
			o = x.object(0)
		}
		text := x.spell(o)
		if i%4 == 1 {
			if o2 := x.redactSome(o, 3); o2 != nil {
				text = x.spell(o2)
			}
		}
		dec, ok := c22dec(text)
		if !ok || strange(dec) {
			r.Saw("skipped")
			continue
		}
		std, ok1 := spec.ObjectHash(dec)
		plain, ok2 := spec.PlainObjectHash(dec)
		if !ok1 || !ok2 {
			r.Saw("skipped")
			continue
		}
		r.Case("json", "%s", text)
		if !same(string(text), jm{"op": "objstd", "text": string(text)}, std) ||
			!same(string(text), jm{"op": "obj", "text": string(text)}, plain) ||
			!same(string(text), jm{"op": "entryleaf", "v": jm{"kind": "json", "text": string(text)}}, spec.LeafHash(std)) {
			return
		}
		// with nonces, and some of it redacted
		m, isObj := dec.(map[string]interface{})
		if !isObj {
			continue
		}
		ld, err := verifiable.CreateRedactableJSONLeafData(text)
		if err != nil {
			r.Failf("%v: %s", err, text)
			return
		}
		var red map[string]interface{}
		json.Unmarshal(ld.ExtraData, &red)
		want := jm{}
		for k, v := range m {
			want[k] = v
		}
		for k := range red {
			if rng.Intn(3) == 0 {
				h, err := objecthash.ObjectHashWithStdRedaction(red[k])
				if err != nil {
					panic(err)
				}
				red[k] = redPrefix + fmt.Sprintf("%x", h)
				delete(want, k)
			}
		}
		b, _ := json.Marshal(red)
		if !same(string(b), jm{"op": "objstd", "text": string(b)}, ld.LeafInput) {
			return
		}
		if seemsRedacted(m) {
			continue // what's left of values that were redacted before isn't defined
		}
		got, ok, why := n.pure(r, jm{"op": "shed", "text": string(b)})
		got2, ok2, why2 := n.pure(r, jm{"op": "reddata", "text": string(b)})
		r.SawN("shed", 2)
		for _, g := range []string{got, got2} {
			var gv interface{}
			if !ok || !ok2 || json.Unmarshal([]byte(g), &gv) != nil || !jsonEqual(gv, want) {
				r.Failf("JavaScript strips %s to %s %s %s, not %v", b, g, why, why2, want)
				return
			}
		}
	}
	// map heads hash as their entry in the tree head log
	for i := 0; i < r.N(300, 3000); i++ {
		h := &pb.MapTreeHashResponse{RootHash: randBytes(rng, 32), MutationLog: lth(1+rng.Intn(1<<uint(rng.Intn(31))), randBytes(rng, 32))}
		ld, err := verifiable.CreateJSONLeafDataFromObject(h)
		if err != nil {
			r.Failf("%v", err)
			return
		}
		r.Case("map-head", "%v", h)
		if !same(fmt.Sprint(h), jm{"op": "mapleaf", "head": jmhead(h)}, spec.LeafHash(ld.LeafInput)) {
			return
		}
	}
}

// strange says whether decoded JSON has text the two languages read differently: half characters, or the name JavaScript keeps for itself.
func strange(o interface{}) bool {
	switch v := o.(type) {
	case string:
		return strings.ContainsRune(v, '\ufffd') || strings.HasPrefix(v, redPrefix) && !wellRedacted(v)
	case []interface{}:
		for _, x := range v {
			if strange(x) {
				return true
			}
		}
	case map[string]interface{}:
		for k, x := range v {
			if strange(k) || k == "__proto__" || strange(x) {
				return true
			}
		}
	}
	return false
}

func wellRedacted(s string) bool {
	s = strings.TrimPrefix(s, redPrefix)
	return len(s) == 64 && strings.Trim(s, "0123456789abcdef") == ""
}

// ---- verifiers

// jsVerifiers takes the place of the Go verifiers in the workload of C04.
type jsVerifiers struct {
	n       *jsNode
	rng     *rand.Rand
	acc     map[string]int // honest ones get through more often
	every   int
	skipped int64
}

func c24verifiers(r *R, n *jsNode, kind string, work func(*c04state)) {
	every := map[string]int{"map": r.N(90, 12), "inclusion": r.N(13, 3), "consistency": r.N(8, 2)}[kind]
	c := &c04state{r: r, js: &jsVerifiers{n: n, rng: r.Rand("js " + kind), every: every, acc: map[string]int{}}}
	work(c)
	r.SawN("verifier-"+kind+"-accepted", int64(c.acc))
	r.SawN("verifier-"+kind+"-rejected", int64(c.rej))
}

// pick says whether to try this one.
func (j *jsVerifiers) pick(want bool, ints ...int64) bool {
	for _, i := range ints {
		if i > 1<<53 || i < -1<<53 {
			return false
		}
	}
	k := j.every
	if want {
		k = (k + 3) / 4
	}
	return j.rng.Intn(k) == 0
}

func (j *jsVerifiers) judge(c *c04state, kind, what string, q jm, want bool, ms ...proto.Message) bool {
	_, ok, why := j.n.pure(c.r, q)
	if why == "no answer" {
		return false
	}
	var err error
	if !ok {
		err = fmt.Errorf("%s", why)
		if want {
			c.r.Failf("JavaScript %s verifier: %s: rejected (%s), but it is a proof: %v", kind, what, why, q)
			return false
		}
	}
	if atomicProgress := c.acc + c.rej; atomicProgress%500 == 0 {
		c.r.Saw("verifier-batch")
	}
	return c.verdict("JavaScript "+kind, what, err, want, ms...)
}

func (j *jsVerifiers) incl(c *c04state, what string, want bool, p *pb.LogInclusionProofResponse, leaf []byte, head *pb.LogTreeHashResponse) bool {
	if !j.pick(want, p.LeafIndex, p.TreeSize, head.TreeSize) {
		return true
	}
	c.r.Case("js-inclusion", "%s", what)
	pr := jm{"size": p.TreeSize, "index": p.LeafIndex, "path": jpath(p.AuditPath), "leaf": jb(leaf)}
	if leaf == nil {
		pr["leaf"] = nil
	}
	return j.judge(c, "inclusion", what, jm{"op": "vincl", "proof": pr, "head": jhead(head)}, want, p, head)
}

func (j *jsVerifiers) cons(c *c04state, what string, want bool, p *pb.LogConsistencyProofResponse, a, b *pb.LogTreeHashResponse) bool {
	if !j.pick(want, p.FromSize, p.TreeSize, a.TreeSize, b.TreeSize) {
		return true
	}
	c.r.Case("js-consistency", "%s", what)
	return j.judge(c, "consistency", what, jm{"op": "vcons", "from": p.FromSize, "size": p.TreeSize, "path": jpath(p.AuditPath), "a": jhead(a), "b": jhead(b)}, want, p, a, b)
}

func (j *jsVerifiers) mapp(c *c04state, what string, want bool, key []byte, resp *pb.MapGetValueResponse, head *pb.MapTreeHashResponse) bool {
	if !j.pick(want, resp.TreeSize, head.GetMutationLog().GetTreeSize()) || len(resp.AuditPath) > 256 {
		return true
	}
	c.r.Case("js-map", "%s", what)
	path := make([]interface{}, 256)
	for i, x := range resp.AuditPath {
		if len(x) > 0 {
			path[i] = jb(x)
		}
	}
	return j.judge(c, "map", what, jm{"op": "vmap", "key": jb(key), "li": jb(resp.GetValue().GetLeafInput()), "size": resp.TreeSize, "path": path, "head": jmhead(head)}, want, head)
}

// ---- calls

// jsObj is a log or map as the JavaScript client knows it.
type jsObj struct {
	r    *R
	n    *jsNode
	what string
	base string
	acc  string
	key  string
	kind string // log or map
	name string
	sub  string // mutation or treehead
	// origin is where the page using the client is from, empty for the server itself
	origin string
}

func (o *jsObj) with(f func(*jsObj)) *jsObj {
	p := *o
	f(&p)
	return &p
}

// call makes a call and checks that there was one callback, unless anything goes. Nil after a violation.
func (o *jsObj) call(m string, args jm) *jsCall {
	c, _, _ := o.callEach(m, args)
	return c
}

func (o *jsObj) callEach(m string, args jm) (*jsCall, []jsEach, string) {
	q := jm{"op": "call", "base": o.base, "account": o.acc, "key": o.key, "kind": o.kind, "name": o.name, "sub": o.sub, "m": m, "origin": o.origin}
	for k, v := range args {
		q[k] = v
	}
	desc, _ := json.Marshal(args)
	d := fmt.Sprintf("%s: JavaScript %s %s%s.%s(%s)", o.what, o.kind, o.name, o.sub, m, trunc(string(desc), 600))
	o.r.Saw("js-" + m)
	o.r.Case(m, "%s %s %s", o.kind, o.sub, desc)
	a := o.n.ask(o.r, q)
	if a == nil {
		return nil, nil, d
	}
	if o.origin != "" {
		o.r.SawN("preflight", a.Preflights)
	}
	if len(a.Calls) != 1 {
		o.r.Failf("%s made %d callbacks: %+v", d, len(a.Calls), a.Calls)
		return nil, nil, d
	}
	return &a.Calls[0], a.Each, d
}

const (
	jsNotFound = "CONTINUSEC_NOT_FOUND_ERROR"
	jsRange    = "CONTINUSEC_INVALID_RANGE_ERROR"
	jsDenied   = "CONTINUSEC_UNAUTHORIZED_ERROR"
	jsInternal = "CONTINUSEC_INTERNAL_ERROR"
	jsVerif    = "CONTINUSEC_VERIFICATION_ERROR"
	jsNotAll   = "CONTINUSEC_NOT_ALL_ENTRIES_RETURNED_ERROR"
)

func jsReason(err error) string {
	switch code(err) {
	case codes.PermissionDenied:
		return jsDenied
	case codes.NotFound:
		return jsNotFound
	case codes.InvalidArgument, codes.OutOfRange:
		return jsRange
	}
	return jsInternal
}

// ok wants success, with a value.
func (o *jsObj) ok(m string, args jm, into interface{}) bool {
	c, _, d := o.callEach(m, args)
	return c != nil && o.okCall(c, d, into)
}

func (o *jsObj) okCall(c *jsCall, d string, into interface{}) bool {
	if !c.OK {
		o.r.Failf("%s failed: %s", d, c.Reason)
		return false
	}
	if into == nil {
		return true
	}
	dec := json.NewDecoder(bytes.NewReader(c.Val))
	if err := dec.Decode(into); err != nil {
		o.r.Failf("%s gave %s", d, trunc(string(c.Val), 300))
		return false
	}
	return true
}

// fails wants failure for one of the reasons, or any if there's none.
func (o *jsObj) fails(m string, args jm, reasons ...string) bool {
	c, _, d := o.callEach(m, args)
	if c == nil {
		return false
	}
	if c.OK || c.Threw {
		o.r.Failf("%s: wanted failure %v, got %+v %s", d, reasons, *c, trunc(string(c.Val), 300))
		return false
	}
	for _, x := range reasons {
		if x == c.Reason {
			return true
		}
	}
	if len(reasons) > 0 {
		o.r.Failf("%s failed with %q, not %v", d, c.Reason, reasons)
		return false
	}
	return true
}

// wantEntry says what the client makes of leaf data. fac is raw, json or red.
func wantEntry(fac string, ld *pb.LeafData) (leaf []byte, check func(e jsEntry) string) {
	switch fac {
	case "raw":
		return spec.LeafHash(ld.GetLeafInput()), func(e jsEntry) string {
			if e.Data == nil || *e.Data != jb(ld.GetLeafInput()) {
				return fmt.Sprintf("data %v, not %x", e.Data, ld.GetLeafInput())
			}
			return ""
		}
	}
	var o interface{}
	if len(ld.GetExtraData()) == 0 {
		return spec.LeafHash(nil), func(e jsEntry) string {
			if e.Text == nil || *e.Text != "" {
				return "data where there is none"
			}
			return ""
		}
	}
	if json.Unmarshal(ld.GetExtraData(), &o) != nil {
		return nil, nil
	}
	h, ok := spec.ObjectHash(o)
	if !ok {
		return nil, nil
	}
	return spec.LeafHash(h), func(e jsEntry) string {
		if e.Text == nil {
			return "no data"
		}
		if fac == "json" {
			if *e.Text != string(ld.ExtraData) {
				return fmt.Sprintf("data %q, not %q", *e.Text, ld.ExtraData)
			}
			return ""
		}
		m, isObj := o.(map[string]interface{})
		if !isObj {
			return ""
		}
		want := jm{}
		for k, v := range m {
			switch p := v.(type) {
			case []interface{}:
				if len(p) != 2 {
					return ""
				}
				want[k] = p[1]
				if shedable(p[1]) {
					return "" // objects inside are stripped too
				}
			case string:
				if !strings.HasPrefix(p, redPrefix) {
					return ""
				}
			default:
				return ""
			}
		}
		var got interface{}
		if json.Unmarshal([]byte(*e.Text), &got) != nil || !jsonEqual(got, want) {
			return fmt.Sprintf("data %s, not %v", *e.Text, want)
		}
		return ""
	}
}

func shedable(o interface{}) bool {
	switch v := o.(type) {
	case map[string]interface{}:
		return true
	case []interface{}:
		for _, x := range v {
			if shedable(x) {
				return true
			}
		}
	}
	return false
}

// entry compares an entry handed out with leaf data.
func (o *jsObj) entry(d, fac string, e jsEntry, ld *pb.LeafData) bool {
	leaf, check := wantEntry(fac, ld)
	if check == nil {
		return true // not JSON: nothing is promised
	}
	if e.Leaf != jb(leaf) {
		o.r.Failf("%s: leaf hash of the %s entry is %s, not %s: %s", d, fac, e.Leaf, jb(leaf), showLD(ld))
		return false
	}
	if why := check(e); why != "" {
		o.r.Failf("%s: %s entry: %s", d, fac, why)
		return false
	}
	return true
}

func (o *jsObj) head(d string, h jsHead, m *LogModel, n int) bool {
	var root []byte
	if n > 0 {
		root = m.Tree.Root(n)
	}
	if h.Size != int64(n) || h.Root != jb(root) {
		o.r.Failf("%s: head %+v, not that of size %d: %s", d, h, n, jb(root))
		return false
	}
	return true
}

func (o *jsObj) mapHead(d string, h jsMapHead, w *MapWorld, n int) bool {
	if h.Size != int64(n) || h.Root != jb(w.Root(n)) {
		o.r.Failf("%s: map head %+v, not that of size %d: %s", d, h, n, jb(w.Root(n)))
		return false
	}
	return n == 0 || o.head(d, h.Log, &w.Mut, n)
}

func samePathJS(p []string, want [][]byte) bool {
	if len(p) != len(want) {
		return false
	}
	for i := range p {
		if p[i] != jb(want[i]) {
			return false
		}
	}
	return true
}

var c24facs = []string{"raw", "json", "red"}

// readLog makes every read of a log.
func (o *jsObj) readLog(svc Svc, ref *pb.LogRef, m *LogModel, rng *rand.Rand, k int) bool {
	n := m.Len()
	other := mkTree(o.name, n+2)
	hd := func(s int) *pb.LogTreeHashResponse {
		if s == 0 {
			return lth(0, nil)
		}
		return lth(s, m.Tree.Root(s))
	}
	size := func() int { return 1 + rng.Intn(n) }
	what := o.what
	for i := 0; i < k; i++ {
		d := fmt.Sprintf("%s: %s %s of size %d", what, o.name, o.sub, n)
		switch x := rng.Intn(16); {
		case x == 0 || n == 0 && x < 8:
			s := []int{0, n, rng.Intn(n + 1)}[rng.Intn(3)]
			want := s
			if s == 0 {
				want = n
			}
			var h jsHead
			if !o.ok("getTreeHead", jm{"n": s}, &h) || !o.head(d, h, m, want) {
				return false
			}
			if !o.fails("getTreeHead", jm{"n": n + 1 + rng.Intn(3)}, jsRange, jsNotFound) || !o.fails("getTreeHead", jm{"n": -1 - rng.Intn(3)}) {
				return false
			}
		case n == 0:
			// nothing there
			if !o.fails("getEntry", jm{"i": 0, "fac": c24facs[rng.Intn(3)]}, jsNotFound, jsRange) ||
				!o.ok("verifyEntries", jm{"prev": nil, "head": jhead(hd(0)), "fac": "raw"}, nil) ||
				!o.fails("verifyConsistency", jm{"ha": jhead(hd(0)), "hb": jhead(hd(0))}) ||
				!o.fails("getInclusionProof", jm{"n": 0, "v": jm{"kind": "raw", "data": "eA=="}}) {
				return false
			}
			var h jsHead
			if !o.ok("getVerifiedLatestTreeHead", jm{"prev": nil}, &h) || !o.head(d, h, m, 0) ||
				!o.ok("getVerifiedLatestTreeHead", jm{"prev": jhead(hd(0))}, &h) || !o.head(d, h, m, 0) {
				return false
			}
		case x == 1:
			idx, fac := rng.Intn(n), c24facs[rng.Intn(3)]
			var e jsEntry
			if wl, _ := wantEntry(fac, m.Entries[idx]); wl == nil {
				continue
			}
			if !o.ok("getEntry", jm{"i": idx, "fac": fac}, &e) || !o.entry(d, fac, e, m.Entries[idx]) {
				return false
			}
			if !o.fails("getEntry", jm{"i": n + rng.Intn(3), "fac": fac}, jsNotFound, jsRange) {
				return false
			}
		case x == 2 || x == 3:
			a := rng.Intn(n)
			b := a + 1 + rng.Intn(n-a)
			fac := c24facs[rng.Intn(3)]
			c, each, dd := o.callEach("getEntries", jm{"a": a, "b": b, "fac": fac})
			if c == nil || !o.okCall(c, dd, nil) {
				return false
			}
			if len(each) != b-a {
				o.r.Failf("%s gave %d entries", dd, len(each))
				return false
			}
			for i, e := range each {
				if e.I != int64(a+i) || !o.entry(dd, fac, e.E, m.Entries[a+i]) {
					o.r.Failf("%s: entry %d given for %d", dd, e.I, a+i)
					return false
				}
			}
		case x == 4:
			s := size()
			i := rng.Intn(s)
			var p jsProof
			if !o.ok("getInclusionProof", jm{"n": s, "v": jm{"kind": "mtl", "data": jb(m.Tree.Leaves[i])}}, &p) {
				return false
			}
			if p.Leaf == nil || *p.Leaf != jb(m.Tree.Leaves[i]) || p.Size != int64(s) || p.Index != int64(i) || !samePathJS(p.Path, m.Tree.Inclusion(i, s)) {
				o.r.Failf("%s: inclusion proof of %d in %d is %+v", d, i, s, p)
				return false
			}
			p = jsProof{}
			if !o.ok("getInclusionProofByIndex", jm{"n": s, "i": i}, &p) {
				return false
			}
			if p.Leaf != nil || p.Size != int64(s) || p.Index != int64(i) || !samePathJS(p.Path, m.Tree.Inclusion(i, s)) {
				o.r.Failf("%s: inclusion proof by index of %d in %d is %+v", d, i, s, p)
				return false
			}
			if !o.fails("getInclusionProof", jm{"n": s, "v": jm{"kind": "raw", "data": jb(randBytes(rng, 20))}}, jsNotFound) ||
				!o.fails("getInclusionProofByIndex", jm{"n": s, "i": s + rng.Intn(2)}, jsRange, jsNotFound) ||
				!o.fails("getInclusionProofByIndex", jm{"n": n + 1 + rng.Intn(2), "i": 0}, jsRange, jsNotFound) {
				return false
			}
		case x == 5 || x == 6:
			s, i := size(), rng.Intn(n)
			v := jm{"kind": "mtl", "data": jb(m.Tree.Leaves[i])}
			if rng.Intn(2) == 0 {
				v = jm{"kind": "raw", "data": jb(m.Entries[i].LeafInput)}
			} else if wl, _ := wantEntry("json", m.Entries[i]); m.Entries[i].Format == pb.DataFormat_JSON && bytes.Equal(wl, m.Tree.Leaves[i]) {
				v = jm{"kind": "json", "text": string(m.Entries[i].ExtraData)}
			}
			if i < s {
				if !o.ok("verifyInclusion", jm{"head": jhead(hd(s)), "v": v}, nil) ||
					!o.fails("verifyInclusion", jm{"head": jhead(lth(s, other.Root(s))), "v": v}, jsVerif) {
					return false
				}
			} else if !o.fails("verifyInclusion", jm{"head": jhead(hd(s)), "v": v}, jsRange, jsNotFound) {
				return false
			}
		case x == 7:
			if n < 2 {
				continue
			}
			b := 2 + rng.Intn(n-1)
			a := 1 + rng.Intn(b-1)
			var p jsProof
			if !o.ok("getConsistencyProof", jm{"a": a, "b": b}, &p) {
				return false
			}
			if p.From != int64(a) || p.Size != int64(b) || !samePathJS(p.Path, m.Tree.Consistency(a, b)) {
				o.r.Failf("%s: consistency proof of %d and %d is %+v", d, a, b, p)
				return false
			}
		case x == 8:
			a, b := size(), size()
			if !o.ok("verifyConsistency", jm{"ha": jhead(hd(a)), "hb": jhead(hd(b))}, nil) ||
				!o.fails("verifyConsistency", jm{"ha": jhead(lth(a, other.Root(a))), "hb": jhead(hd(b))}, jsVerif) ||
				!o.fails("verifyConsistency", jm{"ha": jhead(hd(a)), "hb": jhead(lth(b, other.Root(b)))}, jsVerif) ||
				!o.fails("verifyConsistency", jm{"ha": jhead(hd(a)), "hb": jhead(lth(n+1+rng.Intn(3), other.Root(1)))}) {
				return false
			}
		case x == 9 || x == 10:
			fac := c24facs[rng.Intn(3)]
			a, b := rng.Intn(n+1), size()
			var prev interface{}
			if a > 0 || rng.Intn(2) == 0 {
				prev = jhead(hd(a))
			}
			c, each, dd := o.callEach("verifyEntries", jm{"prev": prev, "head": jhead(hd(b)), "fac": fac})
			if c == nil {
				return false
			}
			good := true
			for i := a; i < b; i++ {
				wl, _ := wantEntry(fac, m.Entries[i])
				good = good && bytes.Equal(wl, m.Tree.Leaves[i])
			}
			if good {
				if !o.okCall(c, dd, nil) {
					return false
				}
				w := b - a
				if w < 0 {
					w = 0
				}
				if len(each) != w {
					o.r.Failf("%s audited %d entries, not %d", dd, len(each), w)
					return false
				}
			} else if c.OK || c.Threw {
				o.r.Failf("%s audits entries that don't have their leaf hash: %+v", dd, *c)
				return false
			}
			for i, e := range each {
				if e.I != int64(a+i) || !o.entry(dd, fac, e.E, m.Entries[a+i]) {
					o.r.Failf("%s: entry %d given for %d", dd, e.I, a+i)
					return false
				}
			}
			if a < b {
				c, _, dd := o.callEach("verifyEntries", jm{"prev": prev, "head": jhead(lth(b, other.Root(b))), "fac": "raw"})
				if c == nil || c.OK || c.Threw {
					o.r.Failf("%s audits against another log's head: %+v", dd, c)
					return false
				}
				if a > 0 {
					c, _, dd := o.callEach("verifyEntries", jm{"prev": jhead(lth(a, other.Root(a))), "head": jhead(hd(b)), "fac": "raw"})
					if c == nil || c.OK || c.Threw {
						o.r.Failf("%s audits from another log's head: %+v", dd, c)
						return false
					}
				}
			}
		case x < 13:
			a, b := rng.Intn(n+1), rng.Intn(n+1)
			var prev interface{}
			if a > 0 || rng.Intn(2) == 0 {
				prev = jhead(hd(a))
			}
			want := b
			if b == 0 {
				want = n
			}
			var h jsHead
			if x == 11 {
				if !o.ok("getVerifiedTreeHead", jm{"prev": prev, "n": b}, &h) || !o.head(d, h, m, want) {
					return false
				}
				if !o.fails("getVerifiedTreeHead", jm{"prev": prev, "n": n + 1 + rng.Intn(3)}, jsRange, jsNotFound) {
					return false
				}
				if a > 0 && a != b && !o.fails("getVerifiedTreeHead", jm{"prev": jhead(lth(a, other.Root(a))), "n": b}, jsVerif) {
					return false
				}
			} else {
				if !o.ok("getVerifiedLatestTreeHead", jm{"prev": prev}, &h) || !o.head(d, h, m, n) {
					return false
				}
				if a > 0 && !o.fails("getVerifiedLatestTreeHead", jm{"prev": jhead(lth(a, other.Root(a)))}, jsVerif) {
					return false
				}
			}
		case x == 13 || x == 14:
			s := size()
			i := rng.Intn(s)
			a := rng.Intn(n + 1)
			var prev interface{}
			if a > 0 {
				prev = jhead(hd(a))
			}
			pr := jm{"leaf": jb(m.Tree.Leaves[i]), "size": s, "index": i, "path": jpath(m.Tree.Inclusion(i, s))}
			var h jsHead
			if !o.ok("verifySuppliedInclusionProof", jm{"prev": prev, "proof": pr}, &h) || !o.head(d, h, m, s) {
				return false
			}
			bad := jm{"leaf": jb(m.Tree.Leaves[i]), "size": s, "index": i + 1, "path": pr["path"]}
			if !o.fails("verifySuppliedInclusionProof", jm{"prev": prev, "proof": bad}, jsVerif) {
				return false
			}
			bad = jm{"leaf": jb(other.Leaves[i]), "size": s, "index": i, "path": pr["path"]}
			if !o.fails("verifySuppliedInclusionProof", jm{"prev": prev, "proof": bad}, jsVerif) {
				return false
			}
			if a > 0 && !o.fails("verifySuppliedInclusionProof", jm{"prev": jhead(lth(a, other.Root(a))), "proof": pr}, jsVerif) {
				return false
			}
		default:
			var h jsHead
			if !o.ok("blockUntilPresent", jm{"v": jm{"kind": "mtl", "data": jb(m.Tree.Leaves[rng.Intn(n)])}}, &h) || !o.head(d, h, m, n) {
				return false
			}
		}
	}
	return true
}

// readMap makes every read of a map; its log models must be filled.
func (o *jsObj) readMap(w *MapWorld, cur map[string]map[int]*pb.LeafData, rng *rand.Rand, k int) bool {
	n := w.Size()
	keys := append(w.Keys(), "unset", "\x00\xff")
	stale := func(a int) *verifiable.MapTreeState { // of another map
		s := w.state(a, a)
		s.MapTreeHead.MutationLog.RootHash = randBytes(rng, 32)
		return s
	}
	for i := 0; i < k; i++ {
		d := fmt.Sprintf("%s: map %s of size %d", o.what, o.name, n)
		key := []byte(keys[rng.Intn(len(keys))])
		s := []int{0, n, rng.Intn(n + 1)}[rng.Intn(3)]
		at := s
		if s == 0 {
			at = n
		}
		prevAt := rng.Intn(n + 1)
		var prev interface{}
		if prevAt > 0 {
			prev = jstate(w.state(prevAt, prevAt+rng.Intn(n-prevAt+1)))
		}
		switch x := rng.Intn(10); {
		case x == 0:
			var h jsMapHead
			if !o.ok("getTreeHead", jm{"n": s}, &h) || !o.mapHead(d, h, w, at) {
				return false
			}
			if !o.fails("getTreeHead", jm{"n": n + 1 + rng.Intn(2)}, jsRange, jsNotFound) {
				return false
			}
		case x < 4:
			fac := c24facs[rng.Intn(3)]
			if len(key) == 0 {
				continue
			}
			val := cur[string(key)][at]
			if wl, _ := wantEntry(fac, val); wl == nil {
				continue
			}
			var e jsMapEntry
			if !o.ok("getValue", jm{"k": jb(key), "n": s, "fac": fac}, &e) {
				return false
			}
			if !o.entry(d, fac, e.Value, val) {
				return false
			}
			sib := spec.MakeContents(w.At(at)).Siblings(spec.PathOf(key))
			same := len(e.Path) == 256 && e.Size == int64(at) && e.Key == jb(key)
			for i := 0; same && i < 256; i++ {
				want := spec.Defaults[i+1]
				if i < len(sib) && len(sib[i]) > 0 {
					want = sib[i]
				}
				got := spec.Defaults[i+1]
				if e.Path[i] != nil {
					got, _ = base64.StdEncoding.DecodeString(*e.Path[i])
				}
				same = bytes.Equal(got, want)
			}
			if !same {
				o.r.Failf("%s: value of %x at %d comes with another proof: %+v", d, key, at, e)
				return false
			}
			if !o.fails("getValue", jm{"k": jb(key), "n": n + 1, "fac": fac}, jsRange, jsNotFound) {
				return false
			}
		case x < 7:
			if len(key) == 0 || n == 0 {
				continue
			}
			at := 1 + rng.Intn(n)
			fac := c24facs[rng.Intn(3)]
			val := cur[string(key)][at]
			wl, _ := wantEntry(fac, val)
			if wl == nil {
				continue
			}
			st := w.state(at, at)
			if bytes.Equal(wl, spec.LeafHash(val.GetLeafInput())) {
				var e jsEntry
				if !o.ok("getVerifiedValue", jm{"k": jb(key), "state": jstate(st), "fac": fac}, &e) || !o.entry(d, fac, e, val) {
					return false
				}
			} else if !o.fails("getVerifiedValue", jm{"k": jb(key), "state": jstate(st), "fac": fac}) {
				return false
			}
			st.MapTreeHead.RootHash = randBytes(rng, 32)
			if !o.fails("getVerifiedValue", jm{"k": jb(key), "state": jstate(st), "fac": fac}, jsVerif) {
				return false
			}
		case x == 7:
			if n == 0 {
				continue
			}
			var st jsState
			if !o.ok("getVerifiedMapState", jm{"prev": prev, "n": s}, &st) || !o.mapHead(d, st.Head, w, at) {
				return false
			}
			if s == 0 || s != prevAt {
				if !o.head(d, st.Thl, &w.Heads, n) {
					return false
				}
			}
			if prevAt > 0 && s != prevAt && !o.fails("getVerifiedMapState", jm{"prev": jstate(stale(prevAt)), "n": s}, jsVerif) {
				return false
			}
		case x == 8:
			if n == 0 {
				continue
			}
			var st jsState
			if !o.ok("getVerifiedLatestMapState", jm{"prev": prev}, &st) || !o.mapHead(d, st.Head, w, n) {
				return false
			}
		default:
			var h jsMapHead
			if !o.ok("blockUntilSize", jm{"n": rng.Intn(n + 1)}, &h) || !o.mapHead(d, h, w, n) {
				return false
			}
		}
	}
	return true
}

var c24policy = []*pb.ResourceAccount{{Id: "24", Policy: []*pb.AccessPolicy{
	{ApiKey: "all", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
	{ApiKey: "part", NameMatch: "*", AllowedFields: []string{"id", "a", "name", "ü"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
	{ApiKey: "hash", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_LOG_PROVE_INCLUSION}},
}}}

// c24data makes data to add: how JavaScript gives it, and what must be stored, nil if that isn't known before.
func c24data(rng *rand.Rand, x *c22run, i int) (jm, *pb.LeafData) {
	switch k := rng.Intn(10); {
	case k < 3:
		b := []byte(fmt.Sprint("raw ", i))
		switch rng.Intn(6) {
		case 0:
			b = randBytes(rng, 1+rng.Intn(300))
		case 1:
			b = []byte("gr\xfc\xdf \xff\x80\x00")
		case 2:
			b = nil
		case 3:
			b = []byte("ünïcode – as UTF-8")
		}
		return jm{"kind": "raw", "data": jb(b)}, &pb.LeafData{LeafInput: b}
	case k < 7:
		for {
			o := x.value(0)
			if k > 4 {
				o = c12clean(c12json(rng, 0))
			}
			text := x.spell(o)
			if rng.Intn(5) == 0 {
				text = []byte(fmt.Sprintf("{\"id\": %d, \"s\": \"日本語 ü 😀 \\ud83d\\ude00\"}", i))
			}
			dec, ok := c22dec(text)
			if !ok || strange(dec) {
				continue
			}
			h, ok := spec.ObjectHash(dec)
			if !ok {
				continue
			}
			return jm{"kind": "json", "text": string(text)}, &pb.LeafData{LeafInput: h, ExtraData: text, Format: pb.DataFormat_JSON}
		}
	}
	m := jm{"id": i}
	for j := rng.Intn(5); j > 0; j-- {
		m[c12field(rng)] = []interface{}{nil, 1.5, "ünï <b>", true, jm{"x": "y"}, []interface{}{1, "z"}}[rng.Intn(6)]
	}
	b, _ := json.Marshal(m)
	return jm{"kind": "redactable", "text": string(b)}, nil
}

// c24honest is a session with an honest server: writes, all kinds of reads, restricted readers, and errors.
func c24honest(r *R, n *jsNode, round int) {
	rng := r.Rand(fmt.Sprint("honest", round))
	x := &c22run{r: r, rng: rng}
	svc := newService(&specStore{}, nil, staticPolicy(c24policy))
	s := newREST(svc)
	defer s.Close()
	o := &jsObj{r: r, n: n, what: fmt.Sprint("session ", round), base: s.URL, acc: "24", key: "all", kind: "log", name: []string{"l", "test", "a-b_0", "x1"}[rng.Intn(4)]}
	o.origin = []string{"", "https://page.example", "null", "http://localhost:1234"}[round%4]
	o.what += map[bool]string{true: ", page from " + o.origin}[o.origin != ""]
	a := acct("24", "all")
	ref := &pb.LogRef{Account: a, Name: o.name, LogType: tLog}
	m := &LogModel{}
	if !o.readLog(svc, ref, m, rng, 3) {
		return
	}
	orig := map[int]interface{}{} // of redactable ones, by index
	logAdd := func(i int) bool {
		v, want := c24data(rng, x, i)
		var ack struct{ Leaf string }
		if want != nil && len(want.LeafInput) == 0 && len(want.ExtraData) == 0 {
			return true // an empty entry isn't something that can be added
		}
		if !o.ok("add", jm{"v": v}, &ack) {
			return false
		}
		if want == nil {
			e, err := svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: int64(m.Len())})
			if err != nil || len(e.Values) != 1 {
				r.Failf("%s: after adding %v: %v %v", o.what, v, e, err)
				return false
			}
			want = e.Values[0]
			var ov interface{}
			json.Unmarshal([]byte(v["text"].(string)), &ov)
			if why := c19redactable(want, ov); why != "" {
				r.Failf("%s: adding redactable %v: %s", o.what, v, why)
				return false
			}
			orig[m.Len()] = ov
		}
		m.Add(want)
		if ack.Leaf != jb(spec.LeafHash(want.LeafInput)) {
			r.Failf("%s: adding %v was acknowledged with leaf hash %s, not that of %x", o.what, v, ack.Leaf, want.LeafInput)
			return false
		}
		r.Saw("added")
		return true
	}
	for i, k := 0, 1+rng.Intn(30); i < k; i++ {
		if !logAdd(i) {
			return
		}
		if rng.Intn(6) == 0 && !o.readLog(svc, ref, m, rng, 3) {
			return
		}
	}
	if !ckLog(r, o.what+" log", svc, ref, m, rng) || !o.readLog(svc, ref, m, rng, 25) {
		return
	}
	// a map
	mo := o.with(func(p *jsObj) { p.kind = "map" })
	mref := &pb.MapRef{Account: a, Name: o.name}
	w := &MapWorld{}
	cur := map[string]map[int]*pb.LeafData{}
	g := newMapGen(rng, 4)
	if !mo.readMap(w, cur, rng, 3) {
		return
	}
	for i, k := 0, 1+rng.Intn(14); i < k; i++ {
		key := g.keys[rng.Intn(len(g.keys))]
		if rng.Intn(8) == 0 {
			key = randBytes(rng, 1+rng.Intn(40))
		}
		if len(key) == 0 {
			continue
		}
		mu := spec.Mut{Action: "set", Key: key}
		var ack struct{ Leaf string }
		if rng.Intn(4) == 0 {
			mu.Action, mu.NoVal = "delete", true
			if !mo.ok("deleteValue", jm{"k": jb(key)}, &ack) {
				return
			}
		} else {
			v, want := c24data(rng, x, i)
			if !mo.ok("setValue", jm{"k": jb(key), "v": v}, &ack) {
				return
			}
			if want == nil {
				got, err := svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: mref, Key: key})
				if err != nil {
					r.Failf("%s: after setting %v: %v", o.what, v, err)
					return
				}
				want = got.Value
				var ov interface{}
				json.Unmarshal([]byte(v["text"].(string)), &ov)
				if why := c19redactable(want, ov); why != "" {
					r.Failf("%s: setting redactable %v: %s", o.what, v, why)
					return
				}
			}
			mu.LI, mu.ED, mu.Format = want.LeafInput, want.ExtraData, int32(want.Format)
		}
		w.Apply(mu)
		lh, _ := base64.StdEncoding.DecodeString(ack.Leaf)
		w.Acked = append(w.Acked, lh)
		if cur[string(key)] == nil {
			cur[string(key)] = map[int]*pb.LeafData{}
		}
		for _, k := range w.Keys() {
			sz := w.Size()
			switch {
			case k != string(key):
				if v := cur[k][sz-1]; v != nil {
					cur[k][sz] = v
				}
			case mu.Action == "set":
				cur[k][sz] = &pb.LeafData{LeafInput: mu.LI, ExtraData: mu.ED, Format: pb.DataFormat(mu.Format)}
			}
		}
		// the same leaf input set before with other extra data keeps that
		if mu.Action == "set" {
			got, err := svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: mref, Key: key})
			if err != nil {
				r.Failf("%s: %v", o.what, err)
				return
			}
			if len(mu.LI) > 0 {
				if !bytes.Equal(got.Value.GetLeafInput(), mu.LI) || !w.submittedWith(got.Value) {
					r.Failf("%s: after setting %x to %x, %s the value is %s", o.what, key, mu.LI, mu.ED, showLD(got.Value))
					return
				}
				for _, byN := range cur {
					for n, v := range byN {
						if bytes.Equal(v.LeafInput, mu.LI) {
							byN[n] = got.Value
						}
					}
				}
			} else {
				delete(cur[string(key)], w.Size())
			}
		}
		r.Saw("mutated")
	}
	if !ckMapAll(r, o.what+" map", svc, mref, w, rng, 4) || !mo.readMap(w, cur, rng, 25) {
		return
	}
	for _, l := range []struct {
		sub string
		t   pb.LogType
		m   *LogModel
	}{{"mutation", tMut, &w.Mut}, {"treehead", tHead, &w.Heads}} {
		lo := mo.with(func(p *jsObj) { p.sub = l.sub })
		if !lo.readLog(svc, &pb.LogRef{Account: a, Name: o.name, LogType: l.t}, l.m, rng, 10) {
			return
		}
	}
	// restricted readers can verify what they are given
	part := o.with(func(p *jsObj) { p.key = "part" })
	for i, e := range m.Entries {
		if orig[i] == nil {
			continue
		}
		var je jsEntry
		if !part.ok("getEntry", jm{"i": i, "fac": "red"}, &je) {
			return
		}
		want := jm{}
		for k, v := range orig[i].(map[string]interface{}) {
			if k == "id" || k == "a" || k == "name" || k == "ü" {
				want[k] = v
			}
		}
		r.Saw("redacted-entry")
		if !shedable(want) {
			continue
		}
		var got interface{}
		if je.Leaf != jb(m.Tree.Leaves[i]) || je.Text == nil || json.Unmarshal([]byte(*je.Text), &got) != nil || !jsonEqual(c24shed(got), c24shed(want)) {
			r.Failf("%s: restricted reader is given %+v %v for entry %s", o.what, je, je.Text, showLD(e))
			return
		}
		if !part.ok("verifyInclusion", jm{"head": jhead(lth(m.Len(), m.Tree.Root(m.Len()))), "v": jm{"kind": "mtl", "data": je.Leaf}}, nil) {
			return
		}
	}
	// those who may not read
	if m.Len() > 0 {
		ho := o.with(func(p *jsObj) { p.key = "hash" })
		var h jsHead
		if !ho.ok("getTreeHead", jm{"n": 0}, &h) || !ho.head(o.what, h, m, m.Len()) ||
			!ho.ok("verifyInclusion", jm{"head": jhead(lth(m.Len(), m.Tree.Root(m.Len()))), "v": jm{"kind": "mtl", "data": jb(m.Tree.Leaves[0])}}, nil) ||
			!ho.fails("getEntry", jm{"i": 0, "fac": "raw"}, jsDenied) ||
			!ho.fails("getEntries", jm{"a": 0, "b": 1, "fac": "raw"}, jsDenied) ||
			!ho.fails("add", jm{"v": jm{"kind": "raw", "data": "eA=="}}, jsDenied) {
			return
		}
	}
	for _, bad := range []*jsObj{o.with(func(p *jsObj) { p.key = "nokey" }), o.with(func(p *jsObj) { p.acc = "25" })} {
		bm := bad.with(func(p *jsObj) { p.kind = "map" })
		if !bad.fails("getTreeHead", jm{"n": 0}, jsDenied) || !bad.fails("add", jm{"v": jm{"kind": "json", "text": "{}"}}, jsDenied) ||
			!bad.fails("verifyEntries", jm{"prev": nil, "head": jhead(lth(1, randBytes(rng, 32))), "fac": "raw"}, jsDenied) ||
			!bad.fails("getVerifiedLatestTreeHead", jm{"prev": nil}, jsDenied) || !bad.fails("blockUntilPresent", jm{"v": jm{"kind": "mtl", "data": jb(randBytes(rng, 32))}}, jsDenied) ||
			!bm.fails("setValue", jm{"k": "eA==", "v": jm{"kind": "raw", "data": "eA=="}}, jsDenied) || !bm.fails("deleteValue", jm{"k": "eA=="}, jsDenied) ||
			!bm.fails("getValue", jm{"k": "eA==", "n": 0, "fac": "raw"}, jsDenied) || !bm.fails("getVerifiedLatestMapState", jm{"prev": nil}, jsDenied) || !bm.fails("blockUntilSize", jm{"n": 1}, jsDenied) {
			return
		}
	}
	if !o.fails("add", jm{"v": jm{"kind": "json", "text": "{\"a\":"}}, jsRange) || !mo.fails("setValue", jm{"k": "eA==", "v": jm{"kind": "json", "text": "nope"}}, jsRange) {
		return
	}
	// no server
	gone := o.with(func(p *jsObj) { p.base = "http://127.0.0.1:1" })
	if !gone.fails("getTreeHead", jm{"n": 0}, "CONTINUSEC_NETWORK_ERROR") || !gone.fails("add", jm{"v": jm{"kind": "raw", "data": "eA=="}}, "CONTINUSEC_NETWORK_ERROR") {
		return
	}
	// nothing of this changed anything
	if !ckLog(r, o.what+" log in the end", svc, ref, m, rng) || !ckMapHead(r, o.what+" map in the end", svc, mref, w, 0) {
		return
	}
	// waiting for what isn't there yet
	late := []byte(fmt.Sprint("late", round))
	done := make(chan struct{})
	go func() {
		defer close(done)
		time.Sleep(time.Duration(rng.Intn(40)) * time.Millisecond)
		svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: &pb.LeafData{LeafInput: late}})
		svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: mref, Mutation: &pb.MapMutation{Action: "set", Key: []byte("late"), Value: &pb.LeafData{LeafInput: late}}})
	}()
	var h jsHead
	var mh jsMapHead
	ok := o.ok("blockUntilPresent", jm{"v": jm{"kind": "raw", "data": jb(late)}}, &h) && mo.ok("blockUntilSize", jm{"n": w.Size() + 1}, &mh)
	<-done
	if !ok {
		return
	}
	m.Add(&pb.LeafData{LeafInput: late})
	w.Apply(spec.Mut{Action: "set", Key: []byte("late"), LI: late})
	if !o.head(o.what+" after waiting", h, m, m.Len()) || mh.Size != int64(w.Size()) || mh.Root != jb(w.Root(w.Size())) {
		r.Failf("%s: after waiting: %+v %+v", o.what, h, mh)
	}
}

// c24shed is what stripping does to plain objects inside: they have no nonces, so they aren't defined.
func c24shed(o interface{}) interface{} {
	m, ok := o.(map[string]interface{})
	if !ok {
		return o
	}
	rv := jm{}
	for k, v := range m {
		if !shedable(v) {
			rv[k] = v
		}
	}
	return rv
}

// ---- hostile servers

func c24hostile(r *R, n *jsNode, round int) {
	rng := r.Rand(fmt.Sprint("hostile", round))
	x := c21make(r, fmt.Sprint("world", round), 1+rng.Intn(14), 1+rng.Intn(10))
	if x == nil {
		return
	}
	t := &tamperer{rng: r.Rand(fmt.Sprint("tamper", round)), svc: x.svc, p: []int{15, 40, 100, 5}[rng.Intn(4)]}
	var s *httptest.Server
	if round%2 == 0 {
		s = hostileREST(x.svc, t)
	} else {
		// false but well formed
		s = httptest.NewServer(httprest.CreateRESTHandler(&tweakSvc{Inner: x.svc, Tweak: func(_ string, req, resp proto.Message, err error) (proto.Message, error) {
			return t.tamper(req, resp, err)
		}}, nil, log.New(io.Discard, "", 0)))
	}
	defer func() {
		s.CloseClientConnections()
		s.Close()
	}()
	w := x.w
	base := &jsObj{r: r, n: n, what: fmt.Sprintf("hostile session %d", round), base: s.URL, acc: "9", key: "k"}
	for i := 0; i < r.N(40, 60); i++ {
		lt, o := tLog, base.with(func(p *jsObj) { p.kind, p.name = "log", "l" })
		switch rng.Intn(4) {
		case 0:
			lt, o = tMut, base.with(func(p *jsObj) { p.kind, p.name, p.sub = "map", "m", "mutation" })
		case 1:
			lt, o = tHead, base.with(func(p *jsObj) { p.kind, p.name, p.sub = "map", "m", "treehead" })
		}
		mo := base.with(func(p *jsObj) { p.kind, p.name = "map", "m" })
		m := x.model(lt)
		N := m.Len()
		hd := func(k int) *pb.LogTreeHashResponse { return lth(k, m.Tree.Root(k)) }
		a, b := 1+rng.Intn(N), 1+rng.Intn(N)
		other := mkTree(fmt.Sprint("o", round), N+3)
		var prev interface{} = jhead(hd(a))
		// success if there was one
		try := func(o *jsObj, m string, args jm, into interface{}) (bool, []jsEach, string) {
			a := o.ask(m, args)
			if a == nil {
				return false, nil, ""
			}
			c := a.Calls[0]
			if !c.OK {
				r.Saw("hostile-refused")
				return false, nil, ""
			}
			r.Saw("hostile-success")
			d, _ := json.Marshal(args)
			desc := fmt.Sprintf("%s: JavaScript %s %s%s.%s(%s)", o.what, o.kind, o.name, o.sub, m, trunc(string(d), 600))
			if into != nil && json.Unmarshal(c.Val, into) != nil {
				r.Failf("%s succeeded with %s", desc, trunc(string(c.Val), 300))
				return false, nil, desc
			}
			return true, a.Each, desc
		}
		switch rng.Intn(10) {
		case 0:
			idx := rng.Intn(N)
			leaf := m.Tree.Leaves[idx]
			in := idx < a
			if rng.Intn(3) == 0 {
				leaf, in = other.Leaves[idx], false
			}
			if ok, _, d := try(o, "verifyInclusion", jm{"head": prev, "v": jm{"kind": "mtl", "data": jb(leaf)}}, nil); ok && !in {
				r.Failf("%s: inclusion of what isn't there", d)
			}
		case 1:
			h, good := hd(b), true
			if rng.Intn(2) == 0 {
				h, good = lth(b, other.Root(b)), false
			}
			if ok, _, d := try(o, "verifyConsistency", jm{"ha": prev, "hb": jhead(h)}, nil); ok && !good {
				r.Failf("%s: consistent with another log", d)
			}
		case 2, 3:
			var p interface{}
			from := 0
			if rng.Intn(2) == 0 {
				p, from = prev, a
			}
			fac := c24facs[rng.Intn(3)]
			ok, each, d := try(o, "verifyEntries", jm{"prev": p, "head": jhead(hd(b)), "fac": fac}, nil)
			if !ok {
				continue
			}
			want := b - from
			if want < 0 {
				want = 0
			}
			if len(each) != want {
				r.Failf("%s: audited %d entries, not %d", d, len(each), want)
			}
			for i, e := range each {
				if i >= want || e.I != int64(from+i) || e.E.Leaf != jb(m.Tree.Leaves[from+i]) || fac == "raw" && (e.E.Data == nil || *e.E.Data != jb(m.Entries[from+i].LeafInput)) {
					r.Failf("%s: false entry %d: %+v", d, from+i, e)
					break
				}
			}
		case 4, 5:
			size := rng.Intn(N + 1)
			var h jsHead
			ok, _, d := try(o, "getVerifiedTreeHead", jm{"prev": prev, "n": size}, &h)
			if !ok {
				continue
			}
			if size != 0 && h.Size != int64(size) {
				r.Failf("%s: head of size %d", d, h.Size)
			}
			if h.Size <= 0 || h.Size <= int64(a) && h.Root != jb(m.Tree.Root(int(h.Size))) {
				r.Failf("%s: false head %+v", d, h)
			}
		case 6:
			var h jsHead
			ok, _, d := try(o, "getVerifiedLatestTreeHead", jm{"prev": prev}, &h)
			if ok && (h.Size < int64(a) || h.Size == int64(a) && h.Root != jb(m.Tree.Root(a))) {
				r.Failf("%s: older or false head %+v", d, h)
			}
		case 7:
			n := w.Size()
			pa, pt := 1+rng.Intn(n), 0
			pt = pa + rng.Intn(n-pa+1)
			st := w.state(pa, pt)
			size := rng.Intn(n + 1)
			var got jsState
			fn := "getVerifiedMapState"
			if rng.Intn(3) == 0 {
				fn, size = "getVerifiedLatestMapState", 0
			}
			ok, _, d := try(mo, fn, jm{"prev": jstate(st), "n": size}, &got)
			if !ok {
				continue
			}
			if size != 0 && got.Head.Size != int64(size) || fn != "getVerifiedMapState" && got.Head.Size < int64(pa) {
				r.Failf("%s: state of size %d", d, got.Head.Size)
			}
			if got.Head.Size <= 0 || got.Head.Size <= int64(pa) && got.Head.Log.Root != jb(w.Mut.Tree.Root(int(got.Head.Size))) {
				r.Failf("%s: false mutation log head %+v", d, got)
			}
			if got.Thl.Size < int64(pt) {
				r.Failf("%s: older tree head log head %+v", d, got)
			}
			if got.Thl.Size <= int64(n) && got.Thl.Size > 0 && got.Thl.Root == jb(w.Heads.Tree.Root(int(got.Thl.Size))) && (got.Head.Size > int64(n) || got.Head.Root != jb(w.Root(int(got.Head.Size)))) {
				r.Failf("%s: map head that isn't in the tree head log: %+v", d, got)
			}
		case 8:
			n := w.Size()
			at := 1 + rng.Intn(n)
			keys := append(w.Keys(), "unset")
			key := []byte(keys[rng.Intn(len(keys))])
			if len(key) == 0 {
				continue
			}
			fac := c24facs[rng.Intn(3)]
			var e jsEntry
			ok, _, d := try(mo, "getVerifiedValue", jm{"k": jb(key), "state": jstate(w.state(at, at)), "fac": fac}, &e)
			if ok && (e.Leaf != jb(spec.LeafHash(w.Value(key, at))) || fac == "raw" && (e.Data == nil || *e.Data != jb(w.Value(key, at)))) {
				r.Failf("%s: false value %+v, not %x", d, e, w.Value(key, at))
			}
		default:
			idx := rng.Intn(b)
			leaf, good := m.Tree.Leaves[idx], true
			path := cpp(m.Tree.Inclusion(idx, b))
			switch rng.Intn(3) {
			case 0:
				leaf, good = other.Leaves[idx], false
			case 1:
				if len(path) > 0 {
					k := rng.Intn(len(path))
					path[k], good = flipBit(path[k], rng), false
				}
			}
			var h jsHead
			ok, _, d := try(o, "verifySuppliedInclusionProof", jm{"prev": prev, "proof": jm{"leaf": jb(leaf), "size": b, "index": idx, "path": jpath(path)}}, &h)
			if ok && (h.Size != int64(b) || b <= a && (!good || h.Root != jb(m.Tree.Root(b)))) {
				r.Failf("%s: false proof accepted, head %+v", d, h)
			}
		}
	}
	r.SawN("altered-answer", int64(t.n))
}

// ask makes a call of which nothing is expected but that it calls back at most once, or throws.
func (o *jsObj) ask(m string, args jm) *jsAnswer {
	q := jm{"op": "call", "base": o.base, "account": o.acc, "key": o.key, "kind": o.kind, "name": o.name, "sub": o.sub, "m": m, "origin": o.origin}
	for k, v := range args {
		q[k] = v
	}
	desc, _ := json.Marshal(args)
	o.r.Saw("js-hostile-" + m)
	o.r.Case("hostile "+m, "%s %s %s", o.what, o.sub, desc)
	a := o.n.ask(o.r, q)
	if a != nil && len(a.Calls) != 1 {
		o.r.Failf("%s: JavaScript %s %s%s.%s(%s) made %d callbacks: %+v", o.what, o.kind, o.name, o.sub, m, trunc(string(desc), 600), len(a.Calls), a.Calls)
		return nil
	}
	return a
}
