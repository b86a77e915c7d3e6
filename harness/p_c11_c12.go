package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"reflect"
	"slices"
	"strings"

	"vharness/spec"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
)

func init() {
	props["C11"] = &property{level: "exploration", run: c11,
		rule:        "Random static policies; every operation is tried by many (account, API key, name) combinations, embedded and over REST and gRPC, and must be allowed exactly when an independent evaluation of the policy allows it, with the fields the first matching rule shows; refused requests must leave the storage byte for byte as it was and be refused in the same words when nothing exists. A case is a (policy, account, key, name, operation).",
		assumptions: []string{"globs are those of Go's path.Match: * and ? don't match a slash", "field lists other than a lone '*' hold plain names"}}
	props["C12"] = &property{level: "exploration", run: c12,
		rule:        "Random JSON contents (plain, redactable, partly redacted, not filterable) are read by readers with different allowed fields on every read path and transport; what each gets is compared field by field with an independent redaction of the original. A case is a (content, allowed fields, read path).",
		assumptions: []string{"SHA-256 collisions do not occur", "the object hash stand-in computes redacted hashes correctly"}}
}

// globMatch is an independent evaluation of the globs used here.
func globMatch(p, s string) (match, bad bool) {
	if p == "" {
		return s == "", false
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if m, b := globMatch(p[1:], s[i:]); m || b {
				return m, b
			}
			if i < len(s) && s[i] == '/' {
				break // as in file names, wildcards don't cross a slash
			}
		}
		return false, false
	case '?':
		if s == "" || s[0] == '/' {
			return false, false
		}
		return globMatch(p[1:], s[1:])
	case '\\':
		if len(p) == 1 {
			return false, true
		}
		if s == "" || s[0] != p[1] {
			return false, false
		}
		return globMatch(p[2:], s[1:])
	case '[':
		end := strings.IndexByte(p, ']')
		if end < 2 {
			return false, true
		}
		if s == "" {
			return false, false
		}
		set, neg := p[1:end], false
		if set[0] == '^' {
			neg, set = true, set[1:]
		}
		in := false
		for i := 0; i < len(set); i++ {
			if i+2 < len(set) && set[i+1] == '-' {
				in = in || set[i] <= s[0] && s[0] <= set[i+2]
				i += 2
			} else {
				in = in || set[i] == s[0]
			}
		}
		if in == neg {
			return false, false
		}
		return globMatch(p[end+1:], s[1:])
	default:
		if s == "" || s[0] != p[0] {
			return false, false
		}
		return globMatch(p[1:], s[1:])
	}
}

// ruling evaluates a policy: the allowed fields, or nil if it's refused.
func ruling(pol []*pb.ResourceAccount, account, key, name string, perm pb.Permission) (fields []string, allowed bool) {
	for _, a := range pol {
		if a.Id != account {
			continue
		}
		for _, rule := range a.Policy {
			granted := false
			for _, p := range rule.Permissions {
				if p == perm || p == pb.Permission_PERM_ALL_PERMISSIONS {
					granted = true
				}
			}
			keyOK := rule.ApiKey == "*" || rule.ApiKey != "" && rule.ApiKey == key
			m, bad := globMatch(rule.NameMatch, name)
			if granted && keyOK && m && !bad {
				return rule.AllowedFields, true
			}
		}
	}
	return nil, false
}

type c11op struct {
	name string
	perm pb.Permission // PERM_NONE: never allowed
	// fields: whether the answer is subject to filtering
	fields bool
	call   func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error)
	noREST bool
}

func c11ops() []c11op {
	lr := func(a *pb.AccountRef, name string, t pb.LogType) *pb.LogRef {
		return &pb.LogRef{Account: a, Name: name, LogType: t}
	}
	doc := func(n int) *pb.LeafData {
		ld, err := verifiable.CreateJSONLeafData([]byte(fmt.Sprintf(`{"a":"a%d","b":[%d],"c":null}`, n, n)))
		if err != nil {
			panic(err)
		}
		return ld
	}
	perms := map[pb.LogType][4]pb.Permission{
		tLog:  {pb.Permission_PERM_LOG_RAW_ADD, pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_LOG_PROVE_INCLUSION},
		tMut:  {0, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH},
		tHead: {0, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH},
	}
	var ops []c11op
	for t, p := range perms {
		t := t
		ops = append(ops,
			c11op{"LogAddEntry " + t.String(), p[0], false, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
				return s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lr(a, name, t), Value: doc(n)})
			}, false},
			c11op{"LogFetchEntries " + t.String(), p[1], t != tHead, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
				return s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: lr(a, name, t), First: int64(n % 2), Last: 2})
			}, false},
			c11op{"LogTreeHash " + t.String(), p[2], false, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
				return s.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr(a, name, t), TreeSize: int64(n % 3)})
			}, false},
			c11op{"LogConsistencyProof " + t.String(), p[2], false, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
				return s.LogConsistencyProof(bg, &pb.LogConsistencyProofRequest{Log: lr(a, name, t), FromSize: 1, TreeSize: int64(n%2) * 2})
			}, false},
			c11op{"LogInclusionProof " + t.String(), p[3], false, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
				return s.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: lr(a, name, t), LeafIndex: int64(n % 2)})
			}, false},
		)
	}
	// by hash
	ops = append(ops, c11op{"LogInclusionProof by hash", pb.Permission_PERM_LOG_PROVE_INCLUSION, false, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
		return s.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: lr(a, name, tLog), MtlHash: spec.LeafHash(doc(1).LeafInput)})
	}, false})
	mr := func(a *pb.AccountRef, name string) *pb.MapRef { return &pb.MapRef{Account: a, Name: name} }
	set := func(s Svc, a *pb.AccountRef, name string, mu *pb.MapMutation) (proto.Message, error) {
		return s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mr(a, name), Mutation: mu})
	}
	ops = append(ops,
		c11op{"MapSetValue set", pb.Permission_PERM_MAP_SET_VALUE, false, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
			return set(s, a, name, &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprintf("k%d", n)), Value: doc(n)})
		}, false},
		c11op{"MapSetValue delete", pb.Permission_PERM_MAP_SET_VALUE, false, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
			return set(s, a, name, &pb.MapMutation{Action: "delete", Key: []byte(fmt.Sprintf("k%d", n))})
		}, false},
		c11op{"MapSetValue update", pb.Permission_PERM_MAP_SET_VALUE, false, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
			return set(s, a, name, &pb.MapMutation{Action: "update", Key: []byte(fmt.Sprintf("u%d", n)), Value: doc(n), PreviousLeafHash: spec.LeafHash(nil)})
		}, false},
		c11op{"MapGetValue", pb.Permission_PERM_MAP_GET_VALUE, true, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
			return s.MapGetValue(bg, &pb.MapGetValueRequest{Map: mr(a, name), Key: []byte("fixed"), TreeSize: int64(n%2) * 2})
		}, false},
		c11op{"MapTreeHash", pb.Permission_PERM_MAP_GET_VALUE, false, func(s Svc, a *pb.AccountRef, name string, n int) (proto.Message, error) {
			return s.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mr(a, name), TreeSize: int64(n % 3)})
		}, false},
	)
	return ops
}

var c11names = []string{"a", "ab", "abc", "b", "a-b", "log1", "log2", "x_1", "a/b", "log1/x", "a/b/c"}
var c11accounts = []string{"1", "2", "3", "12"}

// other accounts, which have nothing to do with those, however alike
var c11odd = []string{"", "999", "01", "002", "00012", "1 ", " 2", "+3", "1.0", "0x1", "-1", "1a", "*", "?", "[0-9]", "1*", "\u0661", "\uff11", "1/log", "1\n", "1\x00", "a", "A"}

func c11globs(rng *rand.Rand) string {
	gs := []string{"*", "*", "*", "a*", "?", "a?", "[a-c]*", "log[0-9]", "log1", "ab", "", "[^a]*", "\\a*", "[", "a[", "a\\", "*-*", "*b", "??", "x_?", "l*1", "**", "log", "A*", "log[^1]", "*a*b*", "a/*", "*/*", "*/b", "a?b", "log1/?", "a/*/c", "?/*"}
	return gs[rng.Intn(len(gs))]
}

func c11policy(rng *rand.Rand) []*pb.ResourceAccount {
	keys := []string{"", "*", "k1", "k2", "K1", "k", "k1=", "secret"}
	fields := [][]string{{"*"}, {"*"}, {"a"}, {"a", "b"}, {}, {"zzz"}, {"c", "b"}, {"A"}}
	all := []pb.Permission{}
	for p := range pb.Permission_name {
		all = append(all, pb.Permission(p))
	}
	var pol []*pb.ResourceAccount
	for i := 0; i < 1+rng.Intn(4); i++ {
		ra := &pb.ResourceAccount{Id: c11accounts[rng.Intn(len(c11accounts))]}
		if rng.Intn(20) == 0 {
			ra.Id = c11odd[rng.Intn(len(c11odd))]
		}
		for j := 0; j < rng.Intn(6); j++ {
			rule := &pb.AccessPolicy{ApiKey: keys[rng.Intn(len(keys))], NameMatch: c11globs(rng), AllowedFields: fields[rng.Intn(len(fields))]}
			for k := 0; k < rng.Intn(6); k++ {
				rule.Permissions = append(rule.Permissions, pb.Permission(rng.Intn(16)))
			}
			if rng.Intn(5) == 0 {
				rule.Permissions = append(rule.Permissions, pb.Permission_PERM_ALL_PERMISSIONS)
			}
			ra.Policy = append(ra.Policy, rule)
		}
		pol = append(pol, ra)
	}
	return pol
}

func c11(r *R) {
	ops := c11ops()
	// a populated storage: all names in all accounts, with entries and values {a,b,c}
	base := &specStore{}
	open := newService(base, nil, nil)
	for _, acc := range c11accounts {
		for _, name := range c11names {
			for i := 0; i < 3; i++ {
				ld, _ := verifiable.CreateJSONLeafData([]byte(fmt.Sprintf(`{"a":"a%d","b":[%d],"c":null}`, i, i)))
				if _, err := open.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: lref(acc, name, tLog), Value: ld}); err != nil {
					r.Failf("open policy refuses: %v", err)
					return
				}
				if _, err := open.MapSetValue(bg, &pb.MapSetValueRequest{Map: mref(acc, name), Mutation: &pb.MapMutation{Action: "set", Key: []byte([]string{"fixed", "k0", "k1"}[i]), Value: ld}}); err != nil {
					r.Failf("open policy refuses: %v", err)
					return
				}
			}
		}
	}
	// the open policy allows everything but additions to the map's logs
	for i, op := range ops {
		_, err := op.call(open, acct("1", "whatever"), "ab", i)
		if (op.perm == 0) != (code(err) == codes.PermissionDenied) || op.perm != 0 && err != nil {
			r.Failf("open policy, %s: %v", op.name, err)
		}
	}
	r.Par(r.N(400, 6000), func(i int) {
		rng := r.Rand(fmt.Sprint("p", i))
		pol := c11policy(rng)
		c11one(r, ops, base, pol, rng, i%8 == 0)
	})
	c11perPermission(r, ops, base)
	r.Par(r.N(60, 600), func(i int) { c11alike(r, ops, i) })
}

// c11alike asks for what is allowed, and then for what looks the same if account, key and name are written one after the other.
func c11alike(r *R, ops []c11op, round int) {
	rng := r.Rand(fmt.Sprint("alike", round))
	sep := []string{"", "", "/", ":", ",", "|", "\x00", " ", "//", "%", "\n", "-", "_", "."}[round%14]
	whole := ""
	for n := 3 + rng.Intn(5); n > 0; n-- {
		whole += []string{"1", "2", "11", "a", "ab", "k"}[rng.Intn(6)]
		if n > 1 {
			whole += sep
		}
	}
	type triple struct{ acc, key, name string }
	var all []triple
	for i := 0; i <= len(whole); i++ {
		for j := i; j <= len(whole); j++ {
			all = append(all, triple{whole[:i], whole[i:j], whole[j:]})
			if sep != "" && strings.HasSuffix(whole[:i], sep) && strings.HasSuffix(whole[i:j], sep) {
				all = append(all, triple{strings.TrimSuffix(whole[:i], sep), strings.TrimSuffix(whole[i:j], sep), whole[j:]})
			}
		}
	}
	// the same in another order
	for _, t := range all[:len(all)/2] {
		all = append(all, triple{t.key, t.acc, t.name}, triple{t.acc, t.name, t.key})
	}
	quote := func(s string) string {
		return strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`).Replace(s)
	}
	var pol []*pb.ResourceAccount
	var may []triple
	for len(may) < 1+rng.Intn(3) {
		t := all[rng.Intn(len(all))]
		if t.key == "*" {
			continue
		}
		may = append(may, t)
		pol = append(pol, &pb.ResourceAccount{Id: t.acc, Policy: []*pb.AccessPolicy{{ApiKey: t.key, NameMatch: quote(t.name), AllowedFields: []string{"*"},
			Permissions: []pb.Permission{pb.Permission(1 + rng.Intn(9)), pb.Permission(1 + rng.Intn(9)), pb.Permission(1 + rng.Intn(9))}}}})
	}
	svc := newService(&specStore{}, nil, staticPolicy(pol))
	client := &verifiable.Client{Service: svc} // one for all
	for i := 0; i < 400; i++ {
		t, op := all[rng.Intn(len(all))], ops[rng.Intn(len(ops))]
		if i%2 == 0 {
			t = may[rng.Intn(len(may))]
		}
		want := false
		if op.perm != 0 {
			_, want = ruling(pol, t.acc, t.key, t.name, op.perm)
		}
		_, err := op.call(svc, acct(t.acc, t.key), t.name, i+10)
		w := fmt.Sprintf("%s by key %q on account %q name %q with policy %s", op.name, t.key, t.acc, t.name, showPolicy(pol))
		r.Case("alike", "%s", w)
		if want {
			r.Saw("alike-allowed")
		}
		if want == (code(err) == codes.PermissionDenied) {
			r.Failf("%s: allowed %v, but the answer is %v", w, want, err)
			return
		}
		acc := client.Account(t.acc, t.key)
		_, want = ruling(pol, t.acc, t.key, t.name, pb.Permission_PERM_LOG_READ_HASH)
		if _, err := acc.VerifiableLog(t.name).TreeHead(bg, 0); want == (code(err) == codes.PermissionDenied) {
			r.Failf("head of log %q by a client for account %q and key %q with policy %s: allowed %v, but the answer is %v", t.name, t.acc, t.key, showPolicy(pol), want, err)
			return
		}
		_, want = ruling(pol, t.acc, t.key, t.name, pb.Permission_PERM_MAP_GET_VALUE)
		if _, err := acc.VerifiableMap(t.name).TreeHead(bg, 0); want == (code(err) == codes.PermissionDenied) {
			r.Failf("head of map %q by a client for account %q and key %q with policy %s: allowed %v, but the answer is %v", t.name, t.acc, t.key, showPolicy(pol), want, err)
			return
		}
	}
}

// every permission on its own grants exactly its operations
func c11perPermission(r *R, ops []c11op, base *specStore) {
	for p := int32(0); p < 18; p++ {
		st := base.clone()
		pol := []*pb.ResourceAccount{{Id: "1", Policy: []*pb.AccessPolicy{{ApiKey: "k", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission(p)}}}}}
		svc := newService(st, nil, staticPolicy(pol))
		for n, op := range ops {
			_, err := op.call(svc, acct("1", "k"), "ab", n)
			want := op.perm != 0 && (p == int32(op.perm) || p == int32(pb.Permission_PERM_ALL_PERMISSIONS))
			r.Saw("permission-operation")
			r.Case("permission", "%v %s", pb.Permission(p), op.name)
			if want && err != nil || !want && code(err) != codes.PermissionDenied {
				r.Failf("%s with only %v: %v", op.name, pb.Permission(p), err)
			}
		}
	}
	r.Stop()
}

func showPolicy(pol []*pb.ResourceAccount) string {
	s := ""
	for _, a := range pol {
		s += fmt.Sprintf("account %q:", a.Id)
		for _, p := range a.Policy {
			s += fmt.Sprintf(" {key %q glob %q perms %v fields %q}", p.ApiKey, p.NameMatch, p.Permissions, p.AllowedFields)
		}
		s += "; "
	}
	return s
}

func c11one(r *R, ops []c11op, base *specStore, pol []*pb.ResourceAccount, rng *rand.Rand, net bool) {
	st := base.clone()
	svc := newService(st, nil, staticPolicy(pol))
	empty := &specStore{}
	esvc := newService(empty, nil, staticPolicy(pol))
	type via struct {
		name string
		s    Svc
	}
	vias := []via{{"embedded", svc}}
	if net {
		rs := newREST(svc)
		defer rs.Close()
		gs := newGRPC(svc)
		defer gs.Close()
		vias = append(vias, via{"REST", rs.Client()}, via{"gRPC", gs.Client()})
	}
	type q struct {
		acc, key, name string
		op             c11op
		n              int
		fields         []string
	}
	var refused, allowed []q
	for i := 0; i < 300; i++ {
		x := q{acc: c11accounts[rng.Intn(len(c11accounts))], key: []string{"", "*", "k1", "k2", "K1", "k", "k11", "k1=", "k1==", "secret"}[rng.Intn(10)], name: c11names[rng.Intn(len(c11names))], op: ops[rng.Intn(len(ops))], n: rng.Intn(1000) + 10}
		if rng.Intn(15) == 0 {
			x.acc = c11odd[rng.Intn(len(c11odd))]
			r.Saw("unknown-account")
		}
		ok := false
		if x.op.perm != 0 {
			x.fields, ok = ruling(pol, x.acc, x.key, x.name, x.op.perm)
		}
		if ok {
			allowed = append(allowed, x)
		} else {
			refused = append(refused, x)
		}
	}
	before, ebefore := st.Dump(), empty.Dump()
	for i, x := range refused {
		v := vias[i%len(vias)]
		if v.name == "REST" && (strings.Contains(x.name, "/") || strings.Trim(x.acc, "0123456789") != "" || x.acc == "") {
			v = vias[0] // has no URL
		}
		resp, err := x.op.call(v.s, acct(x.acc, x.key), x.name, x.n)
		w := fmt.Sprintf("%s: %s by key %q on account %q name %q with policy %s", v.name, x.op.name, x.key, x.acc, x.name, showPolicy(pol))
		r.Saw("refused")
		r.Case("refused", "%s", w)
		if code(err) != codes.PermissionDenied {
			r.Failf("%s must be refused as permission denied but got %v", w, err)
			return
		}
		if !reflect.ValueOf(resp).IsNil() {
			r.Failf("%s is refused, yet data is returned: %v", w, resp)
			return
		}
		_, e1 := x.op.call(svc, acct(x.acc, x.key), x.name, x.n)
		_, e2 := x.op.call(esvc, acct(x.acc, x.key), x.name, x.n)
		if fmt.Sprint(e1) != fmt.Sprint(e2) {
			r.Failf("%s is refused with %q if the object exists but %q if not", w, e1, e2)
			return
		}
	}
	if st.Dump() != before || empty.Dump() != ebefore {
		r.Failf("refused requests changed something; policy %s", showPolicy(pol))
		return
	}
	for i, x := range allowed {
		v := vias[i%len(vias)]
		if v.name == "REST" && (strings.Contains(x.name, "/") || strings.Trim(x.acc, "0123456789") != "" || x.acc == "") {
			v = vias[0]
		}
		before := ""
		write := strings.HasPrefix(x.op.name, "MapSet") || strings.HasPrefix(x.op.name, "LogAdd")
		if write && i < 20 {
			before = st.Dump()
		}
		resp, err := x.op.call(v.s, acct(x.acc, x.key), x.name, x.n+i*1000)
		w := fmt.Sprintf("%s: %s by key %q on account %q name %q with policy %s", v.name, x.op.name, x.key, x.acc, x.name, showPolicy(pol))
		r.Saw("allowed")
		r.Case("allowed", "%s", w)
		known := slices.Contains(c11accounts, x.acc)
		if code(err) == codes.PermissionDenied || known && err != nil {
			r.Failf("%s must be allowed but got %v", w, err)
			return
		}
		if before != "" && st.Dump() == before {
			r.Failf("%s was acknowledged without effect", w)
			return
		}
		if x.op.fields && err == nil {
			var lds []*pb.LeafData
			switch a := resp.(type) {
			case *pb.MapGetValueResponse:
				lds = append(lds, a.Value)
			case *pb.LogFetchEntriesResponse:
				for _, e := range a.Values {
					if strings.Contains(x.op.name, "MUTATION") {
						var jm jsonMut
						json.Unmarshal(e.ExtraData, &jm)
						if jm.Value == nil {
							continue
						}
						e = &pb.LeafData{LeafInput: jm.Value.LeafInput, ExtraData: jm.Value.ExtraData}
					}
					lds = append(lds, e)
				}
			}
			for _, ld := range lds {
				if len(ld.LeafInput) == 0 {
					continue
				}
				var o map[string]interface{}
				json.Unmarshal(ld.ExtraData, &o)
				for _, f := range []string{"a", "b", "c"} {
					val, has := o[f]
					s, str := val.(string)
					vis := has && !(str && strings.HasPrefix(s, redPrefix))
					want := strings.Join(x.fields, ",") == "*"
					for _, g := range x.fields {
						want = want || g == f
					}
					r.Saw("field-visibility")
					if vis != want || !has {
						r.Failf("%s: field %q is visible: %v, must be: %v (%s)", w, f, vis, want, ld.ExtraData)
						return
					}
				}
			}
		}
	}
	// what was refused stays so once the rest has been allowed
	before = st.Dump()
	for _, x := range refused {
		_, err := x.op.call(svc, acct(x.acc, x.key), x.name, x.n)
		r.Saw("refused-again")
		if code(err) != codes.PermissionDenied {
			r.Failf("%s by key %q on account %q name %q with policy %s is refused at first, and answered with %v after other requests", x.op.name, x.key, x.acc, x.name, showPolicy(pol), err)
			return
		}
	}
	if st.Dump() != before {
		r.Failf("requests refused again changed something; policy %s", showPolicy(pol))
	}
}

const redPrefix = "***REDACTED*** Hash: "

// ---- C12

type c12content struct {
	what string
	ld   *pb.LeafData
	obj  map[string]interface{} // nil if it can't be filtered
	ok   bool                   // leaf input is the object hash
}

func c12json(rng *rand.Rand, depth int) interface{} {
	switch x := rng.Intn(10); {
	case x == 0:
		return nil
	case x == 1:
		return rng.Intn(2) == 0
	case x == 2:
		return float64(rng.Intn(1000)) / 8
	case x == 3:
		return float64(rng.Int63n(1 << 40))
	case x < 6 || depth > 2:
		return []string{"", "x", "secret <&> \u2028", "ünï", "\x00\x01", "\"quote\"", redPrefix, "a,b", "value"}[rng.Intn(9)] + fmt.Sprint(rng.Intn(100))
	case x < 8:
		l := make([]interface{}, rng.Intn(4))
		for i := range l {
			l[i] = c12json(rng, depth+1)
		}
		return l
	default:
		m := map[string]interface{}{}
		for i := 0; i < rng.Intn(4); i++ {
			m[c12field(rng)] = c12json(rng, depth+1)
		}
		return m
	}
}

func c12field(rng *rand.Rand) string {
	return []string{"a", "b", "c", "name", "ssn", "ü", "A", "a b", "*", "aa", "email", "é"}[rng.Intn(12)]
}

// strings that look redacted must be well formed to have an object hash
func c12clean(o interface{}) interface{} {
	switch v := o.(type) {
	case string:
		if strings.HasPrefix(v, redPrefix) {
			return redPrefix + strings.Repeat("ab", 32)
		}
	case []interface{}:
		for i := range v {
			v[i] = c12clean(v[i])
		}
	case map[string]interface{}:
		for k := range v {
			v[k] = c12clean(v[k])
		}
	}
	return o
}

func c12make(rng *rand.Rand, i int) c12content {
	m := map[string]interface{}{"id": float64(i)}
	for k := 0; k < rng.Intn(8); k++ {
		m[c12field(rng)] = c12clean(c12json(rng, 0))
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	if rng.Intn(3) == 0 { // spelled differently
		var buf bytes.Buffer
		json.Indent(&buf, b, " ", "\t")
		b = buf.Bytes()
	}
	dec := func(b []byte) map[string]interface{} {
		var o map[string]interface{}
		if json.Unmarshal(b, &o) != nil {
			return nil
		}
		return o
	}
	switch x := rng.Intn(20); {
	case x < 10:
		ld, err := verifiable.CreateJSONLeafData(b)
		if err != nil {
			panic(fmt.Sprintf("%v: %s", err, b))
		}
		return c12content{"json", ld, dec(b), true}
	case x < 14:
		ld, err := verifiable.CreateRedactableJSONLeafData(b)
		if err != nil {
			panic(err)
		}
		h, _ := objecthash.ObjectHashWithStdRedaction(dec(ld.ExtraData))
		return c12content{"redactable", ld, dec(ld.ExtraData), bytes.Equal(h, ld.LeafInput)}
	case x < 15: // a leaf input of the client's choosing
		return c12content{"odd leaf input", &pb.LeafData{LeafInput: []byte(fmt.Sprint("odd", i)), ExtraData: b, Format: pb.DataFormat_JSON}, dec(b), false}
	case x < 16:
		return c12content{"not said to be JSON", &pb.LeafData{LeafInput: []byte(fmt.Sprint("raw", i)), ExtraData: b}, nil, false}
	case x < 17:
		return c12content{"no extra data", &pb.LeafData{LeafInput: []byte(fmt.Sprint("bare", i))}, nil, false}
	case x < 18:
		return c12content{"not JSON", &pb.LeafData{LeafInput: []byte(fmt.Sprint("bad", i)), ExtraData: append([]byte("{"), b...), Format: pb.DataFormat_JSON}, nil, false}
	case x < 19:
		a := append(append([]byte("["), b...), ']')
		ld, _ := verifiable.CreateJSONLeafData(a)
		return c12content{"array", ld, nil, true}
	default:
		a := []byte(fmt.Sprintf(`"secret string %d"`, i))
		ld, _ := verifiable.CreateJSONLeafData(a)
		return c12content{"scalar", ld, nil, true}
	}
}

// c12judge says whether got is what a reader of the fields may see of c. The empty string if so.
func c12judge(c c12content, fields []string, got *pb.LeafData) string {
	if !bytes.Equal(got.LeafInput, c.ld.LeafInput) {
		return fmt.Sprintf("leaf input is %x, not %x", got.LeafInput, c.ld.LeafInput)
	}
	if len(fields) == 1 && fields[0] == "*" {
		if !sameLD(got, c.ld) {
			return "not as stored: " + showLD(got)
		}
		return ""
	}
	if c.obj == nil {
		return "returned although it can't be filtered: " + showLD(got)
	}
	var o map[string]interface{}
	if err := json.Unmarshal(got.ExtraData, &o); err != nil {
		return "not JSON: " + string(got.ExtraData)
	}
	keep := map[string]bool{}
	for _, f := range fields {
		keep[f] = true
	}
	for k, v := range c.obj {
		g, has := o[k]
		if !has {
			return fmt.Sprintf("field %q is missing", k)
		}
		if keep[k] {
			if !reflect.DeepEqual(g, v) {
				return fmt.Sprintf("allowed field %q is %v, not %v", k, g, v)
			}
			continue
		}
		h, err := objecthash.ObjectHashWithStdRedaction(v)
		if err != nil {
			return fmt.Sprint("harness: ", err)
		}
		if s, ok := g.(string); !ok || s != redPrefix+fmt.Sprintf("%x", h) {
			return fmt.Sprintf("field %q is not redacted: %v", k, g)
		}
	}
	for k := range o {
		if _, has := c.obj[k]; !has {
			return fmt.Sprintf("field %q added", k)
		}
	}
	if c.ok {
		h, err := objecthash.ObjectHashWithStdRedaction(o)
		if err != nil || !bytes.Equal(h, got.LeafInput) {
			return "object hash is no longer the leaf input"
		}
		if err := verifiable.ValidateJSONLeafData(bg, got); err != nil {
			return "does not validate: " + err.Error()
		}
	}
	return ""
}

func c12(r *R) {
	r.Par(r.N(60, 800), func(i int) { c12one(r, i) })
}

func c12one(r *R, round int) {
	rng := r.Rand(fmt.Sprint("r", round))
	readers := map[string][]string{"all": {"*"}, "none": {}, "a": {"a"}, "ab": {"a", "b"}, "ids": {"id", "name"}, "odd": {"ü", "a b"}, "nil": {"nosuch"}, "rnd": {c12field(rng), c12field(rng)}}
	var odd bool
	for _, f := range readers["rnd"] {
		odd = odd || f == "*" // the meaning of a star among other names is left open
	}
	if odd {
		readers["rnd"] = []string{"ssn", "email"}
	}
	pol := &pb.ResourceAccount{Id: "5"}
	for k, f := range readers {
		pol.Policy = append(pol.Policy, &pb.AccessPolicy{ApiKey: k, NameMatch: "*", AllowedFields: f, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}})
	}
	kind := []string{"spec", "memory", "bolt", "memory"}[round%4]
	st, done := newStore(r, kind)
	defer done()
	svc := newService(st, nil, staticPolicy([]*pb.ResourceAccount{pol}))
	rs := newREST(svc)
	defer rs.Close()
	gs := newGRPC(svc)
	defer gs.Close()
	vias := []struct {
		name string
		s    Svc
	}{{"embedded", svc}, {"REST", rs.Client()}, {"gRPC", gs.Client()}}

	admin := hl(svc, "5", "all")
	log, vm := admin.VerifiableLog("x"), admin.VerifiableMap("x")
	var cs []c12content
	seen := map[string]bool{}
	for i := 0; len(cs) < 14; i++ {
		c := c12make(rng, i)
		if seen[string(c.ld.LeafInput)] {
			continue
		}
		seen[string(c.ld.LeafInput)] = true
		if _, err := log.Add(bg, c.ld); err != nil {
			r.Failf("add: %v", err)
			return
		}
		var err error
		if rng.Intn(2) == 0 {
			_, err = vm.Set(bg, []byte(fmt.Sprint("k", len(cs))), c.ld)
		} else {
			_, err = vm.Update(bg, []byte(fmt.Sprint("k", len(cs))), c.ld, spec.LeafHash(nil))
		}
		if err != nil {
			r.Failf("set: %v", err)
			return
		}
		cs = append(cs, c)
	}
	n := len(cs)
	// then some without a value to filter
	vm.Delete(bg, []byte("k0"))
	vm.Set(bg, []byte("empty"), &pb.LeafData{})
	vm.Update(bg, []byte("k1"), &pb.LeafData{}, spec.LeafHash(cs[1].ld.LeafInput))
	muts := n + 3
	// and updates in vain, whose values are in the mutation log all the same
	vain := []int{rng.Intn(n), rng.Intn(n), 2 + rng.Intn(n-2)}
	for _, i := range vain {
		if _, err := vm.Update(bg, []byte(fmt.Sprint("k", i)), cs[i].ld, spec.LeafHash([]byte("nothing like it"))); err != nil {
			r.Failf("update in vain: %v", err)
			return
		}
	}

	raw := func(key, path string) (int, []byte) {
		req, _ := http.NewRequest("GET", rs.URL+"/v2/account/5"+path, nil)
		req.Header.Set("Authorization", "Key "+key)
		resp, err := rs.hc.Do(req)
		if err != nil {
			panic(err)
		}
		defer resp.Body.Close()
		b, _ := io.ReadAll(resp.Body)
		return resp.StatusCode, b
	}

	for key, fields := range readers {
		for _, v := range vias {
			a := acct("5", key)
			all := key == "all"
			for i, c := range cs {
				w := fmt.Sprintf("%s, %s content %s read with fields %q", v.name, c.what, trunc(string(c.ld.ExtraData), 300), fields)
				r.Case("content", "%d %s", round, w)
				may := all || c.obj != nil
				judge := func(path string, got *pb.LeafData, err error) bool {
					r.Saw(path)
					if err != nil {
						if may {
							r.Failf("%s: %s: %v", w, path, err)
							return false
						}
						r.Saw("refused-unfilterable")
						return true
					}
					if !may {
						r.Failf("%s: %s: returned %s", w, path, showLD(got))
						return false
					}
					if s := c12judge(c, fields, got); s != "" {
						r.Failf("%s: %s: %s", w, path, s)
						return false
					}
					return true
				}
				// log entry
				e, err := v.s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: a, Name: "x"}, First: int64(i), Last: int64(i + 1)})
				if err == nil && len(e.Values) != 1 {
					r.Failf("%s: %d entries", w, len(e.Values))
					return
				}
				var g *pb.LeafData
				if err == nil {
					g = e.Values[0]
				}
				if !judge("log-entry", g, err) {
					return
				}
				// map value, when it was last current
				mv, err := v.s.MapGetValue(bg, &pb.MapGetValueRequest{Map: &pb.MapRef{Account: a, Name: "x"}, Key: []byte(fmt.Sprint("k", i)), TreeSize: int64(n)})
				if !judge("map-value", mv.GetValue(), err) {
					return
				}
				// mutation
				e, err = v.s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: a, Name: "x", LogType: tMut}, First: int64(i), Last: int64(i + 1)})
				g = nil
				if err == nil {
					var jm jsonMut
					if err := json.Unmarshal(e.Values[0].ExtraData, &jm); err != nil || jm.Value == nil {
						r.Failf("%s: mutation is %s", w, e.Values[0].ExtraData)
						return
					}
					g = &pb.LeafData{LeafInput: jm.Value.LeafInput, ExtraData: jm.Value.ExtraData, Format: pb.DataFormat(jm.Value.Format)}
					if err := verifiable.ValidateJSONLeafDataFromMutation(e.Values[0]); err != nil {
						r.Failf("%s: mutation log entry %s does not validate", w, e.Values[0].ExtraData)
						return
					}
				}
				if !judge("mutation", g, err) {
					return
				}
				for k, x := range vain {
					if x != i {
						continue
					}
					e, err = v.s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: a, Name: "x", LogType: tMut}, First: int64(muts + k), Last: int64(muts + k + 1)})
					g = nil
					if err == nil {
						var jm jsonMut
						if err := json.Unmarshal(e.Values[0].ExtraData, &jm); err != nil || jm.Value == nil {
							r.Failf("%s: mutation is %s", w, e.Values[0].ExtraData)
							return
						}
						g = &pb.LeafData{LeafInput: jm.Value.LeafInput, ExtraData: jm.Value.ExtraData, Format: pb.DataFormat(jm.Value.Format)}
					}
					if !judge("mutation-in-vain", g, err) {
						return
					}
				}
				// convenience forms
				if v.name == "REST" {
					for _, p := range []string{fmt.Sprintf("/log/x/entry/%d/xjson", i), fmt.Sprintf("/map/x/tree/%d/key/s/k%d/xjson", n, i)} {
						st, body := raw(key, p)
						var err error
						if st != 200 {
							err = fmt.Errorf("status %d", st)
						}
						got := &pb.LeafData{LeafInput: c.ld.LeafInput, ExtraData: body}
						if all {
							got.Format = c.ld.Format
						}
						if !judge("rest-xjson", got, err) {
							return
						}
					}
					st, body := raw(key, fmt.Sprintf("/log/x/entry/%d", i))
					if st == 200 && !bytes.Equal(body, c.ld.LeafInput) {
						r.Failf("%s: raw form is %x", w, body)
						return
					}
					r.Saw("rest-raw")
				}
			}
			// ranges: with something that can't be filtered in them, nothing of it may come out
			for k := 0; k < 6; k++ {
				f := rng.Intn(n)
				l := f + 1 + rng.Intn(n-f)
				bad := false
				for _, c := range cs[f:l] {
					bad = bad || c.obj == nil && !all
				}
				for _, lt := range []pb.LogType{tLog, tMut} {
					e, err := v.s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: a, Name: "x", LogType: lt}, First: int64(f), Last: int64(l)})
					r.Saw("range")
					if bad != (err != nil) {
						r.Failf("%s: entries [%d,%d) of %v with fields %q: %v, expected refusal: %v", v.name, f, l, lt, fields, err, bad)
						return
					}
					if err != nil {
						continue
					}
					for i, g := range e.Values {
						if lt == tMut {
							var jm jsonMut
							json.Unmarshal(g.ExtraData, &jm)
							if jm.Value == nil {
								r.Failf("no value in mutation %s", g.ExtraData)
								return
							}
							g = &pb.LeafData{LeafInput: jm.Value.LeafInput, ExtraData: jm.Value.ExtraData, Format: pb.DataFormat(jm.Value.Format)}
						}
						if s := c12judge(cs[f+i], fields, g); s != "" {
							r.Failf("%s: entry %d of %v in a range with fields %q: %s", v.name, f+i, lt, fields, s)
							return
						}
					}
				}
			}
			// absent values and deletions
			for _, k := range []string{"k0", "k1", "empty", "never"} {
				g, err := v.s.MapGetValue(bg, &pb.MapGetValueRequest{Map: &pb.MapRef{Account: a, Name: "x"}, Key: []byte(k)})
				r.Saw("absent")
				if err != nil || len(g.Value.GetLeafInput()) > 0 || len(g.Value.GetExtraData()) > 0 {
					r.Failf("%s: absent value of %s read with fields %q: %v %v", v.name, k, fields, g.GetValue(), err)
					return
				}
			}
			for i := n; i < muts; i++ {
				e, err := v.s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: a, Name: "x", LogType: tMut}, First: int64(i), Last: int64(i + 1)})
				r.Saw("deletion")
				if err != nil {
					r.Failf("%s: mutation %d (without a value to filter) read with fields %q: %v", v.name, i, fields, err)
					return
				}
				if err := verifiable.ValidateJSONLeafDataFromMutation(e.Values[0]); err != nil {
					r.Failf("%s: mutation %d does not validate", v.name, i)
					return
				}
			}
			// and verification works on what is seen
			c := hl(v.s, "5", key)
			st, err := c.VerifiableMap("x").VerifiedLatestMapState(bg, nil)
			if err != nil {
				r.Failf("%s: map state with fields %q: %v", v.name, fields, err)
				return
			}
			for i := range cs {
				if i > 1 && (all || cs[i].obj != nil) {
					ld, err := c.VerifiableMap("x").VerifiedGet(bg, []byte(fmt.Sprint("k", i)), st)
					r.Saw("verified-get")
					if err != nil {
						r.Failf("%s: verified get of k%d with fields %q: %v", v.name, i, fields, err)
						return
					}
					if s := c12judge(cs[i], fields, ld); s != "" {
						r.Failf("%s: verified get of k%d with fields %q: %s", v.name, i, fields, s)
						return
					}
				}
			}
			filterable, valid := true, true
			for _, c := range cs {
				filterable = filterable && c.obj != nil
				valid = valid && c.ok
			}
			if filterable || all {
				head, err := c.VerifiableLog("x").TreeHead(bg, 0)
				if err == nil {
					err = c.VerifiableLog("x").VerifyEntries(bg, nil, head, func(ctx context.Context, idx int64, e *pb.LeafData) error {
						if cs[idx].ok {
							return verifiable.ValidateJSONLeafData(ctx, e)
						}
						return nil
					})
				}
				r.Saw("audit")
				if err != nil {
					r.Failf("%s: audit with fields %q: %v", v.name, fields, err)
					return
				}
			}
		}
	}
}
