package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"unicode/utf8"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C22"] = &property{level: "exploration", run: c22,
		rule:        "Random JSON documents - nested, spelled in different ways, with extreme numbers and strings - are made into leaf data by every function; the leaf input must be the object hash by an implementation of its own, and validation of the leaf data, of alterations of either part of it, of redacted and of wrongly redacted forms must say exactly whether the hash is that of the content. Redactable data must hide each field at any depth behind a nonce never seen before and shed to exactly the visible fields. Mutations are done alike. A case is a (document, alteration).",
		assumptions: []string{"SHA-256 collisions do not occur", "encoding/json and Unicode normalization are as in the Go distribution", "random nonces don't repeat"}}
}

func c22(r *R) {
	n := r.N(3000, 60000)
	var mu sync.Mutex
	nonces := map[string]bool{}
	r.Par(n, func(i int) {
		rng := r.Rand(fmt.Sprint("doc", i))
		x := &c22run{r: r, rng: rng, i: i}
		r.Guard(fmt.Sprintf("document %d", i), func() {
			x.plain()
			x.redactable(func(nonce string) bool {
				mu.Lock()
				defer mu.Unlock()
				seen := nonces[nonce]
				nonces[nonce] = true
				return !seen
			})
			x.mutation()
			x.objects()
			x.invalid()
		})
	})
	r.Par(r.N(9, 60), func(i int) {
		rng := r.Rand(fmt.Sprint("large", i))
		x := &c22run{r: r, rng: rng, i: n + i, large: 1 + i%3}
		r.Saw("large-document")
		r.Guard(fmt.Sprintf("large document %d", i), func() {
			x.plain()
			x.redactable(func(nonce string) bool {
				mu.Lock()
				defer mu.Unlock()
				seen := nonces[nonce]
				nonces[nonce] = true
				return !seen
			})
			x.mutation()
		})
	})
	r.Extra("distinct_nonces", len(nonces))
}

type c22run struct {
	r   *R
	rng *rand.Rand
	i   int

	large int // objects have large contents: a long string, many fields or a long list
}

// grow adds large contents to an object.
func (x *c22run) grow(o map[string]interface{}) {
	switch x.large {
	case 1:
		o["long"] = strings.Repeat(fmt.Sprintf("%x é<", x.rng.Int63()), 3000+x.rng.Intn(20000))
	case 2:
		m := map[string]interface{}{}
		for i := 0; i < 2000+x.rng.Intn(2000); i++ {
			m[fmt.Sprint("field ", x.rng.Intn(100000))] = x.value(4)
		}
		o["many"] = m
	case 3:
		var l []interface{}
		for i := 0; i < 2000+x.rng.Intn(2000); i++ {
			l = append(l, x.value(4))
		}
		o["list"] = l
	}
}

var c22strings = []string{"", "a", "é", "e\u0301", "<script>&", "\u2028\u2029", "\x00\x01\x1f", "日本語", "😀", "\"\\/", "***REDACTED***", "***REDACTED*** Hash:", " ***REDACTED*** Hash: 00", "null", "1", "[]", "key", strings.Repeat("long ", 300)}
var c22numbers = []float64{0, math.Copysign(0, -1), 1, -1, 2, 3, .5, .25, .75, 1.5, 1e21, 1e-7, 123456789, 9007199254740991, 9007199254740993, 1 << 53, 1 << 62, 1e308, math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 0.1, 1.0 / 3, -1e100, 255, 256}

func (x *c22run) str() string {
	s := c22strings[x.rng.Intn(len(c22strings))]
	if x.rng.Intn(2) == 0 {
		s += fmt.Sprint(x.rng.Intn(50))
	}
	return s
}

func (x *c22run) value(depth int) interface{} {
	k := x.rng.Intn(12)
	if depth > 4 {
		k = x.rng.Intn(7)
	}
	switch {
	case k == 0:
		return nil
	case k == 1:
		return x.rng.Intn(2) == 0
	case k < 4:
		if x.rng.Intn(3) == 0 {
			f := math.Float64frombits(x.rng.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
		return c22numbers[x.rng.Intn(len(c22numbers))]
	case k < 7:
		return x.str()
	case k < 9:
		l := make([]interface{}, x.rng.Intn(4))
		for i := range l {
			l[i] = x.value(depth + 1)
		}
		return l
	default:
		return x.object(depth)
	}
}

func (x *c22run) object(depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := x.rng.Intn(5); i > 0; i-- {
		m[x.str()] = x.value(depth + 1)
	}
	if depth == 0 && x.large > 0 {
		x.grow(m)
	}
	return m
}

// spell renders decoded JSON in one of many ways.
func (x *c22run) spell(o interface{}) []byte {
	var b []byte
	switch x.rng.Intn(4) {
	case 0:
		b, _ = json.Marshal(o)
	case 1:
		b, _ = json.MarshalIndent(o, " ", "\t\r\n")
	case 2:
		var buf bytes.Buffer
		e := json.NewEncoder(&buf)
		e.SetEscapeHTML(false)
		e.Encode(o)
		b = buf.Bytes()
	default: // escape everything, move fields about, repeat some
		var buf bytes.Buffer
		x.odd(&buf, o)
		b = buf.Bytes()
	}
	return b
}

func (x *c22run) odd(buf *bytes.Buffer, o interface{}) {
	str := func(s string) {
		buf.WriteByte('"')
		for _, c := range s {
			switch {
			case c > 0xffff:
				buf.WriteRune(c)
			case x.rng.Intn(2) == 0 || c < 32 || c == '"' || c == '\\':
				fmt.Fprintf(buf, `\u%04X`, c)
			default:
				buf.WriteRune(c)
			}
		}
		buf.WriteByte('"')
	}
	switch v := o.(type) {
	case string:
		str(v)
	case []interface{}:
		buf.WriteString(" [")
		for i, e := range v {
			if i > 0 {
				buf.WriteString(" ,\n")
			}
			x.odd(buf, e)
		}
		buf.WriteString("] ")
	case map[string]interface{}:
		buf.WriteString("{ ")
		n := 0
		for k, e := range v {
			if n++; n > 1 {
				buf.WriteString(",")
			}
			if x.rng.Intn(6) == 0 { // an earlier one of the same name doesn't count
				str(k)
				buf.WriteString(`:"shadowed",`)
			}
			str(k)
			buf.WriteString("\t: ")
			x.odd(buf, e)
		}
		buf.WriteString("}")
	case float64:
		switch x.rng.Intn(3) {
		case 0:
			fmt.Fprintf(buf, "%.17e", v)
		default:
			b, _ := json.Marshal(v)
			buf.Write(b)
		}
	default:
		b, _ := json.Marshal(v)
		buf.Write(b)
	}
}

func c22dec(b []byte) (interface{}, bool) {
	var o interface{}
	if json.Unmarshal(b, &o) != nil {
		return nil, false
	}
	return o, true
}

// truth says whether the leaf input is the object hash of the extra data.
func c22truth(li, ed []byte) bool {
	o, ok := c22dec(ed)
	if !ok {
		return false
	}
	h, ok := spec.ObjectHash(o)
	return ok && bytes.Equal(h, li)
}

func (x *c22run) validate(what string, ld *pb.LeafData) {
	want := c22truth(ld.GetLeafInput(), ld.GetExtraData())
	x.expect(what, ld, want)
}

func (x *c22run) expect(what string, ld *pb.LeafData, want bool) {
	keep := proto.Clone(ld)
	err := verifiable.ValidateJSONLeafData(context.Background(), ld)
	x.r.Case("validate", "%s %x %x", what, ld.GetLeafInput(), ld.GetExtraData())
	x.r.Saw(map[bool]string{true: "valid", false: "invalid"}[want])
	if (err == nil) != want {
		x.r.Failf("document %d, %s: validation says %v, must hold: %v (leaf input %x, extra data %s)", x.i, what, err, want, ld.GetLeafInput(), trunc(string(ld.GetExtraData()), 500))
	}
	if !proto.Equal(keep, ld) {
		x.r.Failf("document %d, %s: validation changed its argument", x.i, what)
	}
}

// check judges leaf data made of JSON text.
func (x *c22run) check(what string, ld *pb.LeafData, err error, text []byte) bool {
	o, ok := c22dec(text)
	var h []byte
	if ok {
		h, ok = spec.ObjectHash(o)
	}
	if !ok {
		x.r.Saw("refused")
		if err == nil {
			x.r.Failf("document %d, %s: leaf data was made of %s", x.i, what, trunc(string(text), 500))
		}
		return false
	}
	x.r.Saw("made-" + what)
	if err != nil {
		x.r.Failf("document %d, %s: no leaf data can be made of %s: %v", x.i, what, trunc(string(text), 500), err)
		return false
	}
	if !bytes.Equal(ld.LeafInput, h) {
		x.r.Failf("document %d, %s: leaf input of %s is %x, not its object hash %x", x.i, what, trunc(string(text), 500), ld.LeafInput, h)
	}
	if !bytes.Equal(ld.ExtraData, text) || ld.Format != pb.DataFormat_JSON {
		x.r.Failf("document %d, %s: the extra data is %q of format %v, not the content %q", x.i, what, trunc(string(ld.ExtraData), 300), ld.Format, trunc(string(text), 300))
	}
	return true
}

func (x *c22run) plain() {
	var doc interface{} = x.object(0)
	if x.rng.Intn(5) == 0 {
		doc = x.value(0)
	}
	if x.rng.Intn(3) == 0 {
		doc = x.redactSome(doc, 3)
	}
	text := x.spell(doc)
	given := append([]byte{}, text...)
	ld, err := verifiable.CreateJSONLeafData(given)
	if !bytes.Equal(given, text) {
		x.r.Failf("document %d: CreateJSONLeafData changed its argument", x.i)
	}
	x.r.Case("create", "%s", text)
	if !x.check("json", ld, err, text) {
		x.r.Failf("document %d: the generator made an invalid document: %s", x.i, text)
		return
	}
	x.expect("as made", ld, true)
	// the format does not matter
	for _, f := range []pb.DataFormat{0, 1, 7} {
		x.expect("other format", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: ld.ExtraData, Format: f}, true)
	}
	// another spelling
	x.expect("other spelling", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: x.spell(doc), Format: 1}, true)
	// the leaf input altered
	for k := 0; k < 4; k++ {
		li := append([]byte{}, ld.LeafInput...)
		if len(li) == 0 {
			li = []byte{1}
		}
		li[x.rng.Intn(len(li))] ^= 1 << uint(x.rng.Intn(8))
		x.validate("leaf input altered", &pb.LeafData{LeafInput: li, ExtraData: ld.ExtraData, Format: 1})
	}
	plain, ok := spec.PlainObjectHash(doc)
	if !ok {
		plain = nil
	}
	for _, li := range [][]byte{nil, {}, ld.LeafInput[:len(ld.LeafInput)/2], append(append([]byte{}, ld.LeafInput...), 0), ld.ExtraData, []byte(hex.EncodeToString(ld.LeafInput)), spec.LeafHash(ld.LeafInput), spec.LeafHash(ld.ExtraData), plain} {
		x.validate("other leaf input", &pb.LeafData{LeafInput: li, ExtraData: ld.ExtraData, Format: 1})
	}
	// the content altered
	for k := 0; k < 6; k++ {
		d, ok := c22dec(text)
		if !ok {
			break
		}
		x.validate("content altered", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: x.spell(x.alter(d)), Format: 1})
	}
	for k := 0; k < 6; k++ {
		x.validate("bytes altered", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: x.mangle(text), Format: 1})
	}
	for _, ed := range [][]byte{nil, {}, []byte("null"), []byte("{}"), append(append([]byte{}, text...), text...), append(append([]byte{}, text...), '}'), append([]byte{0xef, 0xbb, 0xbf}, text...)} {
		x.validate("other content", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: ed, Format: 1})
	}
	x.validate("nothing", &pb.LeafData{})
	x.expect("no leaf data", nil, false)
	// redacted, rightly and wrongly
	for k := 0; k < 4; k++ {
		d, _ := c22dec(text)
		x.expect("redacted", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: x.spell(x.redactSome(d, 2)), Format: 1}, true)
		d, _ = c22dec(text)
		x.validate("redacted and altered", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: x.spell(x.alter(x.redactSome(d, 2))), Format: 1})
	}
	if h, ok := spec.ObjectHash(doc); ok && len(h) > 0 {
		b, _ := json.Marshal(spec.RedPrefix + hex.EncodeToString(h))
		x.expect("redacted whole", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: b}, true)
		b, _ = json.Marshal(spec.RedPrefix + hex.EncodeToString(h) + "00")
		x.expect("redacted whole, longer", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: b}, false)
		b, _ = json.Marshal(strings.Replace(spec.RedPrefix, "R", "r", 1) + hex.EncodeToString(h))
		x.expect("redacted whole, other prefix", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: b}, false)
	}
}

// redactSome replaces about one in n values at any depth with its redacted form.
func (x *c22run) redactSome(o interface{}, n int) interface{} {
	if s, ok := o.(string); ok && strings.HasPrefix(s, spec.RedPrefix) {
		return o
	}
	switch v := o.(type) {
	case []interface{}:
		l := make([]interface{}, len(v))
		for i, e := range v {
			l[i] = x.redactSome(e, n+1)
		}
		o = l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range v {
			m[k] = x.redactSome(e, n)
			if x.rng.Intn(n) == 0 {
				m[k] = redacted(m[k])
			}
		}
		o = m
	}
	return o
}

func redacted(o interface{}) interface{} {
	if s, ok := o.(string); ok && strings.HasPrefix(s, spec.RedPrefix) {
		return o
	}
	h, ok := spec.ObjectHash(o)
	if !ok {
		return o
	}
	return spec.RedPrefix + hex.EncodeToString(h)
}

// alter makes one change somewhere.
func (x *c22run) alter(o interface{}) interface{} {
	switch v := o.(type) {
	case []interface{}:
		l := append([]interface{}{}, v...)
		switch k := x.rng.Intn(4); {
		case len(l) == 0 || k == 0:
			return append(l, x.value(3))
		case k == 1:
			return l[1:]
		case k == 2 && len(l) > 1:
			l[0], l[1] = l[1], l[0]
			return l
		default:
			i := x.rng.Intn(len(l))
			l[i] = x.alter(l[i])
			return l
		}
	case map[string]interface{}:
		m := map[string]interface{}{}
		var keys []string
		for _, k := range sortedKeys(v) {
			m[k] = v[k]
			keys = append(keys, k)
		}
		k := x.rng.Intn(5)
		if len(keys) == 0 || k == 0 {
			m[x.str()+"+"] = x.value(3)
			return m
		}
		f := keys[x.rng.Intn(len(keys))]
		switch k {
		case 1:
			delete(m, f)
		case 2:
			m[f+"x"] = m[f]
			delete(m, f)
		default:
			m[f] = x.alter(m[f])
		}
		return m
	case string:
		switch x.rng.Intn(4) {
		case 0:
			return v + " "
		case 1:
			return strings.ToUpper(v) // may well be the same
		case 2:
			return strings.Replace(v, "0", "1", 1)
		default:
			return nil
		}
	case float64:
		switch x.rng.Intn(4) {
		case 0:
			return math.Nextafter(v, 0)
		case 1:
			return -v
		case 2:
			return fmt.Sprint(v)
		default:
			return v / 2
		}
	case bool:
		return !v
	default:
		return []interface{}{false, "", 0.0, []interface{}{}, map[string]interface{}{}}[x.rng.Intn(5)]
	}
}

func sortedKeys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func (x *c22run) mangle(b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return []byte("x")
	}
	i := x.rng.Intn(len(b))
	switch x.rng.Intn(5) {
	case 0:
		return b[:i]
	case 1:
		b[i] ^= 1 << uint(x.rng.Intn(8))
	case 2:
		b[i] = `"{}[],:0 \n`[x.rng.Intn(10)]
	case 3:
		return append(b[:i:i], b[i+1:]...)
	default:
		return append(append(append([]byte{}, b[:i]...), `"{}[],:0 1`[x.rng.Intn(10)]), b[i:]...)
	}
	return b
}

// ---- redactable

// cover replaces some [nonce, value] pairs of redactable content with their redacted form, and removes
// the same fields from the plain content.
func (x *c22run) cover(o, plain interface{}, n int) (interface{}, interface{}) {
	switch v := o.(type) {
	case []interface{}:
		p := plain.([]interface{})
		l, q := make([]interface{}, len(v)), make([]interface{}, len(v))
		for i := range v {
			l[i], q[i] = x.cover(v[i], p[i], n)
		}
		return l, q
	case map[string]interface{}:
		p := plain.(map[string]interface{})
		m, q := map[string]interface{}{}, map[string]interface{}{}
		for _, k := range sortedKeys(v) {
			pair := v[k].([]interface{})
			in, out := x.cover(pair[1], p[k], n)
			e := []interface{}{pair[0], in}
			if x.rng.Intn(n) == 0 {
				m[k] = redacted(e)
				continue
			}
			m[k], q[k] = e, out
		}
		return m, q
	}
	return o, plain
}

// nonced says what is wrong with redactable content as that of the plain content.
func c22nonced(o, plain interface{}, fresh func(string) bool) string {
	switch p := plain.(type) {
	case []interface{}:
		l, ok := o.([]interface{})
		if !ok || len(l) != len(p) {
			return fmt.Sprintf("not a list of %d: %v", len(p), o)
		}
		for i := range p {
			if s := c22nonced(l[i], p[i], fresh); s != "" {
				return s
			}
		}
		return ""
	case map[string]interface{}:
		m, ok := o.(map[string]interface{})
		if !ok || len(m) != len(p) {
			return fmt.Sprintf("not an object of %d fields: %v", len(p), o)
		}
		for k := range p {
			pair, ok := m[k].([]interface{})
			if !ok || len(pair) != 2 {
				return fmt.Sprintf("field %q has no nonce: %v", k, m[k])
			}
			nonce, ok := pair[0].(string)
			if !ok || len(nonce) < 32 {
				return fmt.Sprintf("field %q has nonce %v", k, pair[0])
			}
			if !fresh(nonce) {
				return fmt.Sprintf("nonce %v of field %q was used before", nonce, k)
			}
			if s := c22nonced(pair[1], p[k], fresh); s != "" {
				return s
			}
		}
		return ""
	}
	if !reflect.DeepEqual(o, plain) {
		return fmt.Sprintf("%v instead of %v", o, plain)
	}
	return ""
}

func (x *c22run) redactable(fresh func(string) bool) {
	var doc interface{} = x.object(0)
	if x.rng.Intn(5) == 0 {
		doc = x.value(0)
	}
	if x.rng.Intn(4) == 0 {
		doc = x.redactSome(doc, 3)
	}
	text := x.spell(doc)
	doc, _ = c22dec(text)
	given := append([]byte{}, text...)
	for round := 0; round < 2; round++ {
		ld, err := verifiable.CreateRedactableJSONLeafData(given)
		x.r.Case("redactable", "%s", text)
		if err != nil {
			x.r.Failf("document %d: no redactable leaf data can be made of %s: %v", x.i, trunc(string(text), 500), err)
			return
		}
		if !bytes.Equal(given, text) {
			x.r.Failf("document %d: CreateRedactableJSONLeafData changed its argument", x.i)
		}
		if ld.Format != pb.DataFormat_JSON {
			x.r.Failf("document %d: redactable leaf data has format %v", x.i, ld.Format)
		}
		x.expect("redactable", ld, true)
		o, ok := c22dec(ld.ExtraData)
		if !ok {
			x.r.Failf("document %d: redactable extra data isn't JSON: %q", x.i, ld.ExtraData)
			return
		}
		if s := c22nonced(o, doc, fresh); s != "" {
			x.r.Failf("document %d: redactable form of %s: %s", x.i, trunc(string(text), 500), s)
			return
		}
		shed := func(what string, b []byte, want interface{}) {
			c := append([]byte{}, b...)
			got, err := verifiable.ShedRedactedJSONFields(c)
			g, ok := c22dec(got)
			x.r.Saw("shed")
			if err != nil || !ok || !reflect.DeepEqual(g, want) {
				w, _ := json.Marshal(want)
				x.r.Failf("document %d: shedding %s %s gives %s, %v; must be %s", x.i, what, trunc(string(b), 500), trunc(string(got), 500), err, trunc(string(w), 500))
			}
			if !bytes.Equal(c, b) {
				x.r.Failf("document %d: shedding changed its argument", x.i)
			}
		}
		seems := seemsRedacted(doc) // shedding can't know such a value from a redacted one in the plain form, but it has a nonce
		if !seems {
			shed("all of", ld.ExtraData, doc)
		}
		for k := 0; k < 4; k++ {
			cov, vis := x.cover(o, doc, 2+k)
			b := x.spell(cov)
			x.expect("redactable, redacted", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: b, Format: 1}, true)
			x.validate("redactable, altered", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: x.spell(x.alter(cov)), Format: 1})
			if !seems {
				shed("redacted", b, vis)
			}
		}
		x.validate("redactable without nonces", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: text, Format: 1})
		if _, ok := doc.(map[string]interface{}); ok {
			if p, _ := spec.ObjectHash(doc); len(doc.(map[string]interface{})) > 0 && bytes.Equal(p, ld.LeafInput) {
				x.r.Failf("document %d: the leaf input of redactable leaf data is that without nonces", x.i)
			}
		}
	}
}

func seemsRedacted(o interface{}) bool {
	switch v := o.(type) {
	case string:
		return strings.HasPrefix(v, spec.RedPrefix)
	case []interface{}:
		for _, e := range v {
			if seemsRedacted(e) {
				return true
			}
		}
	case map[string]interface{}:
		for k, e := range v {
			if seemsRedacted(k) || seemsRedacted(e) {
				return true
			}
		}
	}
	return false
}

// ---- mutations

type c22ld struct {
	LeafInput []byte `json:"leaf_input,omitempty"`
	ExtraData []byte `json:"extra_data,omitempty"`
	Format    int32  `json:"format,omitempty"`
}

type c22mut struct {
	Timestamp string `json:"timestamp,omitempty"`
	Action    string `json:"action,omitempty"`
	Key       []byte `json:"key,omitempty"`
	Value     *c22ld `json:"value,omitempty"`
	Previous  []byte `json:"previous_leaf_hash,omitempty"`
}

// c22mutHash is the object hash of a mutation without its value's extra data.
func c22mutHash(ed []byte) ([]byte, bool) {
	var m *c22mut
	if json.Unmarshal(ed, &m) != nil || m == nil {
		return nil, false
	}
	if m.Value != nil {
		m.Value.ExtraData, m.Value.Format = nil, 0
	}
	b, err := json.Marshal(m)
	if err != nil {
		return nil, false
	}
	o, ok := c22dec(b)
	if !ok {
		return nil, false
	}
	return spec.ObjectHash(o)
}

func (x *c22run) mutVal(what string, ld *pb.LeafData, know bool, want bool) {
	h, ok := c22mutHash(ld.GetExtraData())
	truth := ok && bytes.Equal(h, ld.GetLeafInput())
	if know && truth != want {
		x.r.Failf("document %d, %s: the model says %v (%s)", x.i, what, truth, ld.GetExtraData())
	}
	keep := proto.Clone(ld)
	err := verifiable.ValidateJSONLeafDataFromMutation(ld)
	x.r.Case("validate-mutation", "%s %x %x", what, ld.GetLeafInput(), ld.GetExtraData())
	x.r.Saw(map[bool]string{true: "mutation-valid", false: "mutation-invalid"}[truth])
	if (err == nil) != truth {
		x.r.Failf("document %d, %s: validation of a mutation says %v, must hold: %v (leaf input %x, extra data %s)", x.i, what, err, truth, ld.GetLeafInput(), trunc(string(ld.GetExtraData()), 600))
	}
	if !proto.Equal(keep, ld) {
		x.r.Failf("document %d, %s: validation changed its argument", x.i, what)
	}
}

func (x *c22run) bytes() []byte {
	switch x.rng.Intn(5) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	b := make([]byte, x.rng.Intn(40))
	if x.large > 0 && x.rng.Intn(2) == 0 {
		b = make([]byte, 50000+x.rng.Intn(400000))
	}
	x.rng.Read(b)
	return b
}

func (x *c22run) randMut() *pb.MapMutation {
	m := &pb.MapMutation{
		Timestamp: []string{"2024-05-01T10:20:30.123456789Z", "", "soon", "é"}[x.rng.Intn(4)],
		Action:    []string{"set", "delete", "update", "", "other", spec.RedPrefix + "00"}[x.rng.Intn(6)],
		Key:       x.bytes(),
	}
	if x.rng.Intn(4) > 0 {
		m.Value = &pb.LeafData{LeafInput: x.bytes(), ExtraData: x.bytes(), Format: pb.DataFormat(x.rng.Intn(3))}
	}
	if x.rng.Intn(2) == 0 {
		m.PreviousLeafHash = x.bytes()
	}
	return m
}

func (x *c22run) mutation() {
	m := x.randMut()
	keep := proto.Clone(m).(*pb.MapMutation)
	ld, err := verifiable.CreateJSONLeafDataFromMutation(m)
	x.r.Case("mutation", "%v", m)
	if err != nil {
		x.r.Failf("document %d: no leaf data can be made of mutation %v: %v", x.i, m, err)
		return
	}
	if !proto.Equal(m, keep) {
		x.r.Failf("document %d: CreateJSONLeafDataFromMutation changed its argument from %v to %v", x.i, keep, m)
	}
	var back c22mut
	if err := json.Unmarshal(ld.ExtraData, &back); err != nil {
		x.r.Failf("document %d: the extra data of a mutation isn't JSON: %s", x.i, ld.ExtraData)
		return
	}
	v, w := m.Value, back.Value
	if back.Timestamp != m.Timestamp || back.Action != m.Action || !bytes.Equal(back.Key, m.Key) || !bytes.Equal(back.Previous, m.PreviousLeafHash) || (v == nil) != (w == nil) ||
		(v != nil && (!bytes.Equal(v.LeafInput, w.LeafInput) || !bytes.Equal(v.ExtraData, w.ExtraData) || int32(v.Format) != w.Format)) || ld.Format != pb.DataFormat_JSON {
		x.r.Failf("document %d: the extra data of mutation %v is %s of format %v", x.i, m, ld.ExtraData, ld.Format)
	}
	x.mutVal("as made", ld, true, true)
	with := func(what string, know, want bool, f func(m *pb.MapMutation)) {
		c := proto.Clone(keep).(*pb.MapMutation)
		f(c)
		b, err := json.Marshal(c)
		if err != nil {
			return
		}
		x.mutVal(what, &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: b, Format: 1}, know, want)
	}
	if m.Value != nil {
		with("other extra data", true, true, func(m *pb.MapMutation) { m.Value.ExtraData = append(x.bytes(), 'x') })
		with("no extra data", true, true, func(m *pb.MapMutation) { m.Value.ExtraData = nil })
		with("other value format", true, true, func(m *pb.MapMutation) { m.Value.Format = 1 - m.Value.Format })
		with("other leaf input", true, false, func(m *pb.MapMutation) { m.Value.LeafInput = append([]byte("x"), m.Value.LeafInput...) })
		with("no value", true, false, func(m *pb.MapMutation) { m.Value = nil })
	} else {
		with("a value", true, false, func(m *pb.MapMutation) { m.Value = &pb.LeafData{} })
	}
	with("other timestamp", true, false, func(m *pb.MapMutation) { m.Timestamp += "x" })
	with("other action", m.Action != spec.RedPrefix+"00", false, func(m *pb.MapMutation) { m.Action += "1" })
	with("other key", true, false, func(m *pb.MapMutation) { m.Key = append([]byte("x"), m.Key...) })
	with("other previous", true, false, func(m *pb.MapMutation) { m.PreviousLeafHash = append([]byte("x"), m.PreviousLeafHash...) })
	if m.Timestamp != "" {
		with("redacted timestamp", true, true, func(m *pb.MapMutation) { m.Timestamp = redacted(m.Timestamp).(string) })
	}
	with("another", false, false, func(c *pb.MapMutation) { *c = pb.MapMutation{}; proto.Merge(c, x.randMut()) })
	li := append([]byte{}, ld.LeafInput...)
	li[x.rng.Intn(len(li))] ^= 1 << uint(x.rng.Intn(8))
	x.mutVal("leaf input altered", &pb.LeafData{LeafInput: li, ExtraData: ld.ExtraData}, true, false)
	if o, ok := c22dec(ld.ExtraData); ok {
		if h, ok := spec.ObjectHash(o); ok {
			x.mutVal("hash of all of it", &pb.LeafData{LeafInput: h, ExtraData: ld.ExtraData}, false, false)
		}
	}
	for _, li := range [][]byte{nil, li[:31], append(append([]byte{}, ld.LeafInput...), 0)} {
		x.mutVal("other length of leaf input", &pb.LeafData{LeafInput: li, ExtraData: ld.ExtraData}, true, false)
	}
	for k := 0; k < 6; k++ {
		x.mutVal("bytes altered", &pb.LeafData{LeafInput: ld.LeafInput, ExtraData: x.mangle(ld.ExtraData)}, false, false)
	}
	for _, ed := range []string{"", "null", "{}", "[]", `"x"`, "1", `{"value":null}`, `{"value":[]}`, `{"key":1}`, `{"action":` + "\"" + spec.RedPrefix + "zz\"}"} {
		for _, li := range [][]byte{ld.LeafInput, nil} {
			x.mutVal("other content", &pb.LeafData{LeafInput: li, ExtraData: []byte(ed)}, false, false)
		}
		if h, ok := c22mutHash([]byte(ed)); ok {
			x.mutVal("little content", &pb.LeafData{LeafInput: h, ExtraData: []byte(ed)}, true, true)
		}
	}
	x.mutVal("no leaf data", nil, true, false)
	// in a log entry of plain JSON the extra data counts
	x.validate("mutation as JSON", ld)
}

// ---- objects and messages

type c22struct struct {
	A string                 `json:"a"`
	B int                    `json:"b,omitempty"`
	C []float64              `json:"c"`
	D map[string]interface{} `json:"d"`
	E *c22struct             `json:"e,omitempty"`
	F []byte
}

func (x *c22run) objects() {
	s := c22struct{A: x.str(), B: x.rng.Intn(3), C: []float64{c22numbers[x.rng.Intn(len(c22numbers))]}, D: x.object(2), F: x.bytes()}
	if x.rng.Intn(2) == 0 {
		s.E = &c22struct{A: x.str()}
	}
	list := []interface{}{s, &s, nil, x.value(0), x.object(1), 12, "x", int64(1) << 62, []int{1, 2}, map[string]int{"a": 1}, json.RawMessage(`{"z": [1.0, 1e0]}`), c22numbers}
	for _, o := range list {
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		ld, err := verifiable.CreateJSONLeafDataFromObject(o)
		if x.check("object", ld, err, b) {
			x.expect("object", ld, true)
		}
	}
	for _, o := range []interface{}{make(chan int), func() {}, math.NaN(), math.Inf(1), map[string]interface{}{"a": math.NaN()}, json.RawMessage("{"), redString("zz"), redString("abc")} {
		_, err := verifiable.CreateJSONLeafDataFromObject(o)
		x.r.Saw("refused")
		if err == nil {
			x.r.Failf("document %d: leaf data was made of a %T", x.i, o)
		}
	}
	h := &pb.MapTreeHashResponse{RootHash: x.bytes()}
	if x.rng.Intn(3) > 0 {
		h.MutationLog = &pb.LogTreeHashResponse{TreeSize: x.rng.Int63n(1 << 50), RootHash: x.bytes()}
	}
	for _, m := range []proto.Message{h, x.randMut(), &pb.LeafData{LeafInput: x.bytes(), ExtraData: x.bytes(), Format: 1}, &pb.LogTreeHashResponse{}, &pb.LogInclusionProofResponse{AuditPath: [][]byte{x.bytes(), x.bytes()}}} {
		keep := proto.Clone(m)
		b, _ := json.Marshal(m)
		ld, err := verifiable.CreateJSONLeafDataFromProto(m)
		if x.check("message", ld, err, b) {
			x.expect("message", ld, true)
		}
		if !proto.Equal(m, keep) {
			x.r.Failf("document %d: CreateJSONLeafDataFromProto changed its argument", x.i)
		}
	}
	// the form that map heads have in the tree head log
	ld, err := verifiable.CreateJSONLeafDataFromProto(h)
	want := map[string]interface{}{}
	if len(h.RootHash) > 0 {
		want["root_hash"] = b64(h.RootHash)
	}
	if h.MutationLog != nil {
		m := map[string]interface{}{}
		if h.MutationLog.TreeSize != 0 {
			m["tree_size"] = float64(h.MutationLog.TreeSize)
		}
		if len(h.MutationLog.RootHash) > 0 {
			m["root_hash"] = b64(h.MutationLog.RootHash)
		}
		want["mutation_log"] = m
	}
	oh, _ := spec.ObjectHash(want)
	if err != nil || !bytes.Equal(oh, ld.LeafInput) {
		x.r.Failf("document %d: the leaf input for map head %v isn't the object hash of its documented form (%v)", x.i, h, err)
	}
}

func redString(s string) interface{} { return map[string]interface{}{"a": spec.RedPrefix + s} }

func b64(b []byte) string {
	x, _ := json.Marshal(b)
	return strings.Trim(string(x), `"`)
}

// ---- invalid JSON

func (x *c22run) invalid() {
	texts := [][]byte{nil, {}, []byte(" "), []byte("{"), []byte("}"), []byte("nul"), []byte("True"), []byte("{a:1}"), []byte("{'a':1}"), []byte(`{"a":1,}`), []byte("[1,]"), []byte("[1 2]"), []byte("01"), []byte("+1"), []byte(".5"), []byte("1."), []byte("1e999"), []byte("-"), []byte("NaN"), []byte("\"\n\""), []byte("\"\\x\""), []byte("\"\\u12\""), []byte("\"a"), []byte("{} {}"), []byte("1 1"), []byte("{\"a\":1}x"), []byte("// x\n{}"), {0}, {0xff, 0xfe, '{', 0, '}', 0}, []byte("\xef\xbb\xbf{}"), []byte(strings.Repeat("[", 20000)),
		[]byte(`"` + spec.RedPrefix + `xy"`), []byte(`["` + spec.RedPrefix + `abc"]`), []byte(`{"` + spec.RedPrefix + `g":1}`)}
	for k := 0; k < 8; k++ {
		texts = append(texts, x.mangle(x.spell(x.value(0))))
	}
	for _, t := range texts {
		x.r.Case("maybe-json", "%q", trunc(string(t), 400))
		ld, err := verifiable.CreateJSONLeafData(append([]byte{}, t...))
		if x.check("odd json", ld, err, t) && utf8.Valid(t) {
			x.expect("odd json", ld, true)
		}
		o, ok := c22dec(t)
		ld, err = verifiable.CreateRedactableJSONLeafData(append([]byte{}, t...))
		if !ok {
			x.r.Saw("refused")
			if err == nil {
				x.r.Failf("document %d: redactable leaf data was made of %q", x.i, trunc(string(t), 200))
			}
			if b, err := verifiable.ShedRedactedJSONFields(append([]byte{}, t...)); err == nil {
				x.r.Failf("document %d: shedding %q gives %s", x.i, trunc(string(t), 200), b)
			}
			continue
		}
		if _, ok := spec.ObjectHash(o); ok {
			if err != nil {
				x.r.Failf("document %d: no redactable leaf data can be made of %q: %v", x.i, trunc(string(t), 200), err)
				continue
			}
			x.expect("odd redactable", ld, true)
		} else if err == nil {
			x.r.Failf("document %d: redactable leaf data was made of %q, which has no object hash", x.i, trunc(string(t), 200))
		}
	}
}
