package main

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	vgrpc "github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/encoding/prototext"
)

func init() {
	props["C27"] = &property{level: "exploration", run: c27,
		rule:        "The server program runs with generated configurations: protocols, addresses, TLS with several kinds of keys and chains or insecure, random policies, absolute and relative paths. Its listening sockets, the certificates it presents, what clients that trust the right, another or no certificate or that speak plaintext achieve, each request's verdict by the policy, contents after restarts under changed protocols, and start-up with unusable configurations and certificates are compared with the configuration. A case is a (configuration, client or request).",
		assumptions: []string{"the loopback interface and unix sockets work", "the TLS library of Go is right"}}
}

// c27cert is a certificate with its key and what a client has to trust.
type c27cert struct {
	name      string
	cert, key []byte   // PEM, as the server reads them
	raw       [][]byte // what the server has to present
	trust     []byte   // DER
}

func c27key(kind string) (crypto.Signer, error) {
	switch kind {
	case "ecdsa":
		return ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	case "p384":
		return ecdsa.GenerateKey(elliptic.P384(), crand.Reader)
	case "rsa":
		return rsa.GenerateKey(crand.Reader, 2048)
	}
	_, k, err := ed25519.GenerateKey(crand.Reader)
	return k, err
}

func c27pem(typ string, der ...[]byte) []byte {
	var b []byte
	for _, d := range der {
		b = append(b, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: d})...)
	}
	return b
}

var c27serial int64

// c27make makes a certificate for hosts, signed by itself or by a chain of that many authorities.
func c27make(name, kind string, chain int, hosts ...string) *c27cert {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	type link struct {
		c *x509.Certificate
		k crypto.Signer
		d []byte
	}
	var up *link
	var links []*link
	for i := 0; i <= chain; i++ {
		leaf := i == chain
		k, err := c27key(kind)
		must(err)
		c27serial++
		t := &x509.Certificate{
			SerialNumber: big.NewInt(time.Now().UnixNano() + c27serial),
			Subject:      pkix.Name{CommonName: fmt.Sprintf("%s %d", name, i)},
			NotBefore:    time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
			BasicConstraintsValid: true,
			IsCA:                  !leaf || chain == 0,
			KeyUsage:              x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		}
		if leaf {
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
			for _, h := range hosts {
				if ip := net.ParseIP(h); ip != nil {
					t.IPAddresses = append(t.IPAddresses, ip)
				} else {
					t.DNSNames = append(t.DNSNames, h)
				}
			}
		}
		parent, pk := t, k
		if up != nil {
			parent, pk = up.c, up.k
		}
		d, err := x509.CreateCertificate(crand.Reader, t, parent, k.Public(), pk)
		must(err)
		c, err := x509.ParseCertificate(d)
		must(err)
		up = &link{c, k, d}
		links = append(links, up)
	}
	rv := &c27cert{name: name, trust: links[0].d}
	for i := len(links) - 1; i >= 0 && (i > 0 || chain == 0); i-- {
		rv.raw = append(rv.raw, links[i].d)
	}
	rv.cert = c27pem("CERTIFICATE", rv.raw...)
	kd, err := x509.MarshalPKCS8PrivateKey(up.k)
	must(err)
	rv.key = c27pem("PRIVATE KEY", kd)
	return rv
}

// c27conf is a configuration of the server program.
type c27conf struct {
	rest, grpc       bool
	restBind         string // as configured
	grpcProto        string
	grpcBind         string
	restAddr         string // to connect to
	grpcAddr         string
	insecure         bool
	certPath, keyPat string
	db               string
	accounts         []*pb.ResourceAccount
}

func (c *c27conf) text(rng *rand.Rand) string {
	var l []string
	add := func(f string, args ...interface{}) { l = append(l, fmt.Sprintf(f, args...)) }
	if c.rest || rng.Intn(2) == 0 {
		add("rest_server: %v", c.rest)
	}
	if c.grpc || rng.Intn(2) == 0 {
		add("grpc_server: %v", c.grpc)
	}
	// the addresses of protocols that aren't enabled may stay in the configuration
	if c.restBind != "" {
		add("rest_listen_bind: %q", c.restBind)
	}
	if c.grpcBind != "" {
		add("grpc_listen_protocol: %q", c.grpcProto)
		add("grpc_listen_bind: %q", c.grpcBind)
	}
	if c.insecure || rng.Intn(2) == 0 {
		add("insecure_server_for_testing: %v", c.insecure)
	}
	if c.certPath != "" {
		add("server_cert_path: %q", c.certPath)
	}
	if c.keyPat != "" {
		add("server_key_path: %q", c.keyPat)
	}
	add("bolt_db_path: %q", c.db)
	rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	// the order of accounts matters
	for _, a := range c.accounts {
		t, err := prototext.Marshal(a)
		if err != nil {
			panic(err)
		}
		add("accounts: <\n%s\n>", t)
	}
	l = append([]string{"# a comment"}, l...)
	return strings.Join(l, "\n") + "\n"
}

// start runs the server program and waits for it.
func (c *c27conf) start(r *R, rng *rand.Rand, cwd string) *vdbProc {
	text := c.text(rng)
	path := filepath.Join(cwd, "server.conf")
	if err := os.WriteFile(path, []byte(text), 0600); err != nil {
		panic(err)
	}
	arg := path
	if rng.Intn(2) == 0 {
		arg = "server.conf"
	}
	var p *vdbProc
	for try := 0; try < 5; try++ {
		p = spawnVDBArgs(cwd, []string{arg})
		p.restAddr, p.grpcAddr = c.restAddr, c.grpcAddr
		for i := 0; i < 6000 && !p.exited(); i++ {
			if (!c.rest || listening(c.restAddr)) && (!c.grpc || listening(c.grpcAddr)) && !p.exited() {
				r.Saw("started")
				return p
			}
			time.Sleep(10 * time.Millisecond)
		}
		p.kill()
		if !strings.Contains(p.out.String(), "address already in use") {
			break
		}
		time.Sleep(time.Second) // others look for free ports, too
	}
	r.Failf("the server program doesn't serve with configuration\n%s\nit says:\n%s", text, p.out.String())
	return nil
}

// c27sockets are the sockets a process listens on.
// c27sockets are the sockets that a process listens on. The kernel's tables are read several times as
// entries may be left out or given twice when other processes' sockets come and go meanwhile.
func c27sockets(pid int) []string {
	mine := map[string]bool{}
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", pid))
	for _, fd := range fds {
		if l, err := os.Readlink(fd); err == nil && strings.HasPrefix(l, "socket:[") {
			mine[l[8:len(l)-1]] = true
		}
	}
	by := map[string]string{} // by inode
	for i := 0; i < 6; i++ {
		for _, f := range []string{"tcp", "tcp6"} {
			data, _ := os.ReadFile("/proc/net/" + f)
			for _, line := range strings.Split(string(data), "\n") {
				w := strings.Fields(line)
				if len(w) > 9 && w[3] == "0A" && mine[w[9]] {
					i := strings.LastIndexByte(w[1], ':')
					var port int
					fmt.Sscanf(w[1][i+1:], "%X", &port)
					addr := "loopback"
					if strings.Trim(w[1][:i], "0") == "" {
						addr = "any"
					}
					by[w[9]] = fmt.Sprintf("%s:%d", addr, port)
				}
			}
		}
		data, _ := os.ReadFile("/proc/net/unix")
		for _, line := range strings.Split(string(data), "\n") {
			w := strings.Fields(line)
			if len(w) > 7 && w[3] == "00010000" && mine[w[6]] {
				by[w[6]] = "unix:" + w[7]
			}
		}
	}
	var rv []string
	for _, a := range by {
		rv = append(rv, a)
	}
	sort.Strings(rv)
	return rv
}

func (c *c27conf) sockets() []string {
	var rv []string
	bind := func(b string) string {
		host, port, _ := net.SplitHostPort(b)
		if host == "" {
			return "any:" + port
		}
		return "loopback:" + port
	}
	if c.rest {
		rv = append(rv, bind(c.restBind))
	}
	if c.grpc {
		if c.grpcProto == "unix" {
			rv = append(rv, "unix:"+c.grpcBind)
		} else {
			rv = append(rv, bind(c.grpcBind))
		}
	}
	sort.Strings(rv)
	return rv
}

func c27rest(scheme, addr string, tc *tls.Config) Svc {
	return (&httprest.Client{BaseURL: scheme + "://" + addr, HTTPClient: &http.Client{
		Transport: &http.Transport{TLSClientConfig: tc, DisableKeepAlives: true}, Timeout: 100 * time.Second}}).MustDial()
}

func c27grpcAddr(addr string) string {
	if strings.HasPrefix(addr, "/") {
		return "unix:" + addr
	}
	return addr
}

func c27pool(der []byte) *tls.Config {
	cp := x509.NewCertPool()
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	cp.AddCert(c)
	return &tls.Config{RootCAs: cp}
}

const c27open = "17"

func c27accounts(rng *rand.Rand) []*pb.ResourceAccount {
	rv := c11policy(rng)
	o := &pb.ResourceAccount{Id: c27open, Policy: []*pb.AccessPolicy{{ApiKey: "*", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}}}
	at := rng.Intn(len(rv) + 1)
	return append(rv[:at:at], append([]*pb.ResourceAccount{o}, rv[at:]...)...)
}

func c27(r *R) {
	if os.Getenv("VDBSERVER") == "" {
		r.Failf("VDBSERVER is not set")
		return
	}
	// what this process takes for the authorities its system trusts
	dir := r.Dir()
	defer os.RemoveAll(dir)
	sys := c27make("system", "ecdsa", 1, "localhost", "127.0.0.1")
	empty := filepath.Join(dir, "empty")
	os.Mkdir(empty, 0700)
	if err := os.WriteFile(filepath.Join(dir, "sys.pem"), c27pem("CERTIFICATE", sys.trust), 0600); err != nil {
		panic(err)
	}
	os.Setenv("SSL_CERT_FILE", filepath.Join(dir, "sys.pem"))
	os.Setenv("SSL_CERT_DIR", empty)
	certs := []*c27cert{
		c27make("own", "ecdsa", 0, "localhost", "127.0.0.1"),
		c27make("rsa", "rsa", 0, "localhost", "127.0.0.1"),
		c27make("ed25519", "ed25519", 1, "localhost", "127.0.0.1"),
		c27make("chain", "p384", 3, "localhost", "127.0.0.1"),
		sys,
	}
	other := c27make("other", "ecdsa", 1, "localhost", "127.0.0.1")
	elsewhere := c27make("elsewhere", "ecdsa", 1, "example.com", "192.0.2.1")

	var jobs []func()
	k := 0
	for round := 0; round < r.N(2, 20); round++ {
		for _, protos := range []int{1, 2, 3} {
			for ci := -1; ci < len(certs); ci++ {
				k++
				k, protos, ci := k, protos, ci
				jobs = append(jobs, func() { c27serve(r, k, protos, ci, certs, other, elsewhere, sys) })
			}
		}
	}
	for i := 0; i < r.N(8, 60); i++ {
		i := i
		jobs = append(jobs, func() { c27restart(r, i, certs) })
	}
	jobs = append(jobs, c27unusable(r, certs, elsewhere)...)
	for i := 0; i < r.N(6, 24); i++ {
		i := i
		jobs = append(jobs, func() { c27closed(r, i, certs) }, func() { c27none(r, i, certs) })
	}
	jobs = append(jobs, func() { c27demo(r) }, func() { c27certDer(r, other) })
	r.Par(len(jobs), func(i int) { jobs[i]() })
}

// c27binds gives the configuration addresses.
func (c *c27conf) binds(rng *rand.Rand, dir string) {
	c.restAddr = freePort()
	c.restBind = c.restAddr
	_, port, _ := net.SplitHostPort(c.restAddr)
	switch rng.Intn(3) {
	case 0:
		c.restBind = ":" + port
	case 1:
		c.restBind = "localhost:" + port
	}
	c.grpcAddr = freePort()
	c.grpcBind = c.grpcAddr
	c.grpcProto = []string{"tcp", "tcp4", "tcp", "unix"}[rng.Intn(4)]
	_, port, _ = net.SplitHostPort(c.grpcAddr)
	switch {
	case c.grpcProto == "unix":
		c.grpcBind = filepath.Join(dir, "sock")
		c.grpcAddr = c.grpcBind
	case rng.Intn(3) == 0:
		c.grpcBind = ":" + port
	case rng.Intn(2) == 0:
		c.grpcBind = "localhost:" + port
	}
}

// install writes the certificate where the configuration says.
func (c *c27conf) install(rng *rand.Rand, dir string, cert *c27cert) {
	if cert == nil {
		c.insecure = true
		return
	}
	os.WriteFile(filepath.Join(dir, "s-cert.pem"), cert.cert, 0600)
	os.WriteFile(filepath.Join(dir, "s-key.pem"), cert.key, 0600)
	c.certPath, c.keyPat = "s-cert.pem", "s-key.pem"
	if rng.Intn(2) == 0 {
		c.certPath = filepath.Join(dir, c.certPath)
	}
	if rng.Intn(2) == 0 {
		c.keyPat = filepath.Join(dir, c.keyPat)
	}
}

func c27serve(r *R, k, protos, ci int, certs []*c27cert, other, elsewhere, sys *c27cert) {
	rng := r.Rand(fmt.Sprint("serve", k))
	dir := r.Dir()
	defer os.RemoveAll(dir)
	c := &c27conf{rest: protos&1 != 0, grpc: protos&2 != 0, db: filepath.Join(dir, "data"), accounts: c27accounts(rng)}
	os.Mkdir(c.db, 0700)
	c.binds(rng, dir)
	var cert *c27cert
	if ci >= 0 {
		cert = certs[ci]
	}
	c.install(rng, dir, cert)
	if cert == nil && rng.Intn(2) == 0 {
		// a certificate that is there but not wanted
		c.certPath, c.keyPat = "nothing.pem", "nothing.pem"
	}
	p := c.start(r, rng, dir)
	if p == nil {
		return
	}
	defer func() { p.kill() }()
	what := fmt.Sprintf("configuration\n%s", c.text(rng))
	if cert != nil {
		what = "certificate " + cert.name + ", " + what
	}

	if got, want := c27sockets(p.cmd.Process.Pid), c.sockets(); strings.Join(got, " ") != strings.Join(want, " ") {
		r.Failf("%s: it listens on %q, not %q", what, got, want)
		return
	}
	r.Saw("sockets")

	// clients that must get through
	type client struct {
		name string
		s    Svc
	}
	var good, bad []client
	pems := func(f string, ders ...[]byte) []byte {
		return append([]byte(f), c27pem("CERTIFICATE", ders...)...)
	}
	dialG := func(name string, g *vgrpc.Client) client {
		g.Address = c27grpcAddr(c.grpcAddr)
		if strings.HasPrefix(c.grpcAddr, "/") {
			// what a unix socket's name is for TLS is up to the library
			g.Address = c27relay(c.grpcAddr)
		}
		s, err := g.Dial()
		if err != nil {
			r.Failf("%s: a client (%s) can't be made: %v", what, name, err)
			return client{name, nil}
		}
		return client{"gRPC " + name, s}
	}
	if c.rest {
		switch {
		case cert == nil:
			good = append(good, client{"REST", c27rest("http", c.restAddr, nil)})
			bad = append(bad, client{"REST over TLS", c27rest("https", c.restAddr, &tls.Config{InsecureSkipVerify: true})})
		default:
			good = append(good, client{"REST trusting it", c27rest("https", c.restAddr, c27pool(cert.trust))})
			bad = append(bad, client{"REST trusting another", c27rest("https", c.restAddr, c27pool(other.trust))},
				client{"REST in plain", c27rest("http", c.restAddr, nil)})
			sc := client{"REST trusting the system", c27rest("https", c.restAddr, nil)}
			if cert == sys {
				good = append(good, sc)
			} else {
				bad = append(bad, sc)
			}
		}
	}
	if c.grpc {
		switch {
		case cert == nil:
			good = append(good, dialG("insecure", &vgrpc.Client{NoGrpcSecurity: true}), dialG("insecure, with a certificate", &vgrpc.Client{NoGrpcSecurity: true, CertDer: other.trust}))
			bad = append(bad, dialG("TLS", &vgrpc.Client{CertDer: other.trust}), dialG("TLS trusting the system", &vgrpc.Client{}))
		default:
			good = append(good, dialG("trusting it (PEM)", &vgrpc.Client{CertDer: pems("", cert.trust)}),
				dialG("trusting it (DER)", &vgrpc.Client{CertDer: cert.trust}),
				dialG("trusting it (bundle)", &vgrpc.Client{CertDer: pems("# these\n", other.trust, cert.trust, elsewhere.trust)}))
			bad = append(bad, dialG("trusting another (DER)", &vgrpc.Client{CertDer: other.trust}),
				dialG("trusting others (PEM)", &vgrpc.Client{CertDer: pems("", other.trust, elsewhere.trust)}),
				dialG("insecure", &vgrpc.Client{NoGrpcSecurity: true}))
			sc := dialG("trusting the system", &vgrpc.Client{})
			if cert == sys {
				good = append(good, sc)
			} else {
				bad = append(bad, sc)
			}
		}
	}
	if r.Failed() {
		return
	}

	// what it presents
	if cert != nil {
		for _, a := range []struct {
			on   bool
			addr string
		}{{c.rest, c.restAddr}, {c.grpc, c.grpcAddr}} {
			if !a.on {
				continue
			}
			network := "tcp"
			if strings.HasPrefix(a.addr, "/") {
				network = "unix"
			}
			conn, err := tls.Dial(network, a.addr, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}})
			if err != nil {
				r.Failf("%s: TLS to %s: %v", what, a.addr, err)
				return
			}
			var raw [][]byte
			for _, pc := range conn.ConnectionState().PeerCertificates {
				raw = append(raw, pc.Raw)
			}
			conn.Close()
			if !bytes.Equal(bytes.Join(raw, nil), bytes.Join(cert.raw, nil)) {
				r.Failf("%s: %s presents another certificate", what, a.addr)
				return
			}
			r.Saw("certificate-presented")
		}
	}

	ref := lref(c27open, "log", tLog)
	m := &LogModel{}
	w := &MapWorld{}
	mr := mref(c27open, "map")
	gen := newWebMapGen(rng, 4)
	add := func(cl client) bool {
		ld := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("entry %d", m.Len())), ExtraData: randBytes(rng, 5)}

		resp, err := cl.s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: ld})
		if err != nil {
			r.Failf("%s: client %s can't add: %v", what, cl.name, err)
			return false
		}
		m.Add(ld)
		if !bytes.Equal(resp.LeafHash, m.Tree.Leaves[m.Len()-1]) {
			r.Failf("%s: client %s got a wrong leaf hash", what, cl.name)
			return false
		}
		mu := gen.next(&w.MapModel)
		if err := w.mutate(cl.s, mr, mu); err != nil {
			r.Failf("%s: client %s can't change a map: %v", what, cl.name, err)
			return false
		}
		return true
	}
	for i := 0; i < 2; i++ {
		for _, cl := range good {
			r.Case("good-client", "%s: %s", what, cl.name)
			r.Saw("good-client")
			if !add(cl) {
				return
			}
			rd := good[rng.Intn(len(good))]
			if !ckHead(r, what+" "+rd.name, rd.s, ref, m, 0) {
				return
			}
		}
		// these must not achieve anything
		for _, cl := range bad {
			r.Case("bad-client", "%s: %s", what, cl.name)
			r.Saw("bad-client")
			ctx, cancel := context.WithTimeout(bg, 100*time.Second)
			_, e1 := cl.s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: ref, Value: &pb.LeafData{LeafInput: []byte("smuggled")}})
			_, e2 := cl.s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: mr, Mutation: &pb.MapMutation{Action: "set", Key: []byte("smuggled"), Value: &pb.LeafData{LeafInput: []byte("x")}}})
			h, e3 := cl.s.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: ref})
			cancel()
			if e1 == nil || e2 == nil || e3 == nil {
				r.Failf("%s: client %s got through: %v %v %v %v", what, cl.name, e1, e2, e3, h)
				return
			}
		}
	}
	// neither can one that names another server
	if cert != nil && c.grpc && c.grpcProto != "unix" {
		// the certificate doesn't cover this name of the loopback interface
		host, port, _ := net.SplitHostPort(c.grpcAddr)
		_ = host
		if s, err := (&vgrpc.Client{Address: "127.0.0.2:" + port, CertDer: cert.trust}).Dial(); err != nil {
			r.Failf("%s: %v", what, err)
			return
		} else if _, err := s.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: ref}); err == nil {
			r.Failf("%s: a gRPC client accepts the certificate for another address", what)
			return
		}
		r.Saw("other-name")
	}

	for _, cl := range good {
		if !ckLog(r, what+" "+cl.name, cl.s, ref, m, rng) || !ckMapAll(r, what+" "+cl.name, cl.s, mr, w, rng, 1) {
			return
		}
	}

	// large ones: the protocols' own limits are some 4 MB for a gRPC message, and 1 MB for the header of an HTTP request
	for _, cl := range good {
		ld := &pb.LeafData{LeafInput: randBytes(rng, 1+rng.Intn(1<<20)), ExtraData: randBytes(rng, rng.Intn(1<<21))}
		key, val := randBytes(rng, 1+rng.Intn(100<<10)), randBytes(rng, 1+rng.Intn(1<<20))
		wh := fmt.Sprintf("%s: client %s: entry of %d and %d bytes, key of %d, value of %d", what, cl.name, len(ld.LeafInput), len(ld.ExtraData), len(key), len(val))
		r.Case("large", "%s", wh)
		r.Saw("large")
		if err := addEntry(cl.s, ref, m, ld); err != nil {
			r.Failf("%s: adding: %v", wh, err)
			return
		}
		if err := w.mutate(cl.s, mr, spec.Mut{Action: "set", Key: key, LI: val}); err != nil {
			r.Failf("%s: setting: %v", wh, err)
			return
		}
		for _, rd := range good {
			if !ckHead(r, wh+", read by "+rd.name, rd.s, ref, m, 0) {
				return
			}
			e, err := rd.s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: int64(m.Len() - 1), Last: int64(m.Len())})
			if err != nil || len(e.Values) != 1 || !sameLD(e.Values[0], m.Entries[m.Len()-1]) {
				r.Failf("%s: entry read by %s: %d of them, %v", wh, rd.name, len(e.GetValues()), err)
				return
			}
			v, err := rd.s.MapGetValue(bg, &pb.MapGetValueRequest{Map: mr, Key: key})
			if err != nil || !bytes.Equal(v.Value.GetLeafInput(), val) {
				r.Failf("%s: value read by %s: %d bytes, %v", wh, rd.name, len(v.GetValue().GetLeafInput()), err)
				return
			}
		}
		// and with API keys that are long
		k := string(bytes.Repeat([]byte("k"), 1+rng.Intn(50<<10)))
		if _, err := cl.s.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: acct(ref.Account.Id, k), Name: ref.Name, LogType: ref.LogType}}); err != nil {
			r.Failf("%s: with an API key of %d bytes: %v", wh, len(k), err)
			return
		}
	}

	// the accounts of the configuration, by every protocol
	ops := c11ops()
	for i := 0; i < 250; i++ {
		cl := good[rng.Intn(len(good))]
		acc, key, name := append([]string{"999", "01", "0012"}, c11accounts...)[rng.Intn(7)], []string{"", "*", "k1", "k2", "K1", "k", "k11", "secret"}[rng.Intn(8)], c11names[rng.Intn(len(c11names))]
		op := ops[rng.Intn(len(ops))]
		if a := c.accounts[rng.Intn(len(c.accounts))]; i%2 == 0 && len(a.Policy) > 0 && a.Id != c27open && a.Id != "" {
			// near a rule
			rule := a.Policy[rng.Intn(len(a.Policy))]
			acc, key = a.Id, rule.ApiKey
			if len(rule.Permissions) > 0 {
				want := rule.Permissions[rng.Intn(len(rule.Permissions))]
				for t := 0; t < 100 && op.perm != want; t++ {
					op = ops[rng.Intn(len(ops))]
				}
			}
			if m, _ := globMatch(rule.NameMatch, name); !m {
				name = c11names[rng.Intn(len(c11names))]
			}
		}
		if strings.HasPrefix(cl.name, "REST") {
			name = strings.ReplaceAll(name, "/", "_") // what REST can express
			if strings.Trim(acc, "0123456789") != "" {
				acc = "999"
			}
		}
		ok := false
		if op.perm != 0 {
			_, ok = ruling(c.accounts, acc, key, name, op.perm)
		}
		_, err := op.call(cl.s, acct(acc, key), name, 10+i)
		wh := fmt.Sprintf("%s: %s: %s by key %q on account %q name %q", what, cl.name, op.name, key, acc, name)
		r.Case("request", "%s", wh)
		if ok {
			r.Saw("allowed")
		} else {
			r.Saw("refused")
		}
		if ok == (code(err) == codes.PermissionDenied) || !ok && err == nil {
			r.Failf("%s: allowed must be %v but it is answered with %v", wh, ok, err)
			return
		}
	}

	// all of it is in the configured place
	if p.exited() {
		r.Failf("%s: the server program ended: %s", what, p.out.String())
		return
	}
	if es, _ := os.ReadDir(c.db); len(es) == 0 {
		r.Failf("%s: nothing is in %s", what, c.db)
		return
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		switch e.Name() {
		case "data", "server.conf", "s-cert.pem", "s-key.pem", "sock":
		default:
			r.Failf("%s: there is now %s beside the configuration", what, e.Name())
			return
		}
	}
}

// c27closed runs the server program without any account that lets anybody in.
func c27closed(r *R, i int, certs []*c27cert) {
	rng := r.Rand(fmt.Sprint("closed", i))
	dir := r.Dir()
	defer os.RemoveAll(dir)
	c := &c27conf{rest: i%3 != 1, grpc: i%3 != 0, db: dir}
	switch i % 2 {
	case 1:
		c.accounts = []*pb.ResourceAccount{{Id: c27open}, {Id: "1", Policy: []*pb.AccessPolicy{{ApiKey: "*", NameMatch: "*"}}}}
	}
	c.binds(rng, dir)
	c.install(rng, dir, nil)
	p := c.start(r, rng, dir)
	if p == nil {
		return
	}
	defer func() { p.kill() }()
	what := fmt.Sprintf("nobody allowed, configuration\n%s", c.text(rng))
	var clients []Svc
	if c.rest {
		clients = append(clients, c27rest("http", c.restAddr, nil))
	}
	if c.grpc {
		s, err := (&vgrpc.Client{Address: c27grpcAddr(c.grpcAddr), NoGrpcSecurity: true}).Dial()
		if err != nil {
			r.Failf("%s: %v", what, err)
			return
		}
		clients = append(clients, s)
	}
	for n, s := range clients {
		for _, id := range []string{c27open, "1", "0", "999"} {
			for _, key := range []string{"", "*", "k"} {
				for _, op := range c11ops() {
					_, err := op.call(s, acct(id, key), "name", n)
					r.Saw("nobody-allowed")
					if op.perm != 0 && code(err) != codes.PermissionDenied || err == nil {
						r.Failf("%s: %s by key %q on account %q is answered with %v", what, op.name, key, id, err)
						return
					}
				}
			}
		}
	}
}

// c27none runs it with no protocol enabled, though with their addresses configured.
func c27none(r *R, i int, certs []*c27cert) {
	rng := r.Rand(fmt.Sprint("none", i))
	dir := r.Dir()
	defer os.RemoveAll(dir)
	c := &c27conf{db: dir, accounts: c27accounts(rng)}
	c.binds(rng, dir)
	c.install(rng, dir, append(certs, nil, nil, nil)[rng.Intn(len(certs)+3)])
	text := c.text(rng)
	if err := os.WriteFile(filepath.Join(dir, "server.conf"), []byte(text), 0600); err != nil {
		panic(err)
	}
	r.Case("none", "%s", text)
	p := spawnVDBArgs(dir, []string{"server.conf"})
	defer func() { p.kill() }()
	for t := 0; t < 150 && !p.exited(); t++ {
		time.Sleep(10 * time.Millisecond)
		if got := c27sockets(p.cmd.Process.Pid); len(got) > 0 && !p.exited() {
			r.Failf("no protocol is enabled, but it listens on %q: configuration\n%s", got, text)
			return
		}
	}
	r.Saw("no-protocol")
}

// c27relay makes a unix socket reachable by an address on the loopback interface.
func c27relay(path string) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			a, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer a.Close()
				b, err := net.Dial("unix", path)
				if err != nil {
					return
				}
				defer b.Close()
				go func() { io.Copy(b, a); b.(*net.UnixConn).CloseWrite() }()
				io.Copy(a, b)
			}()
		}
	}()
	return l.Addr().String()
}

// c27restart runs a sequence of servers over the same data, with changing protocols, certificates and accounts.
func c27restart(r *R, i int, certs []*c27cert) {
	rng := r.Rand(fmt.Sprint("restart", i))
	dir := r.Dir()
	defer os.RemoveAll(dir)
	dbs := []string{"data", filepath.Join(dir, "data2")}
	os.Mkdir(filepath.Join(dir, "data"), 0700)
	os.Mkdir(dbs[1], 0700)
	type content struct {
		m *LogModel
		w *MapWorld
		g *mapGen
	}
	var cs []content
	for range dbs {
		cs = append(cs, content{&LogModel{}, &MapWorld{}, newWebMapGen(rng, 4)})
	}
	ref, mr := lref(c27open, "log", tLog), mref(c27open, "map")
	for gen := 0; gen < r.N(5, 10); gen++ {
		d := 0
		if gen > 0 {
			d = rng.Intn(2)
		}
		protos := 1 + rng.Intn(3)
		c := &c27conf{rest: protos&1 != 0, grpc: protos&2 != 0, db: dbs[d], accounts: c27accounts(rng)}
		sub, err := os.MkdirTemp(dir, "g")
		if err != nil {
			panic(err)
		}
		c.binds(rng, sub)
		var cert *c27cert
		if ci := rng.Intn(len(certs)*2) - len(certs); ci >= 0 {
			cert = certs[ci]
		}
		c.install(rng, dir, cert)
		p := c.start(r, rng, dir)
		if p == nil {
			return
		}
		var svcs []Svc
		if c.rest {
			if cert == nil {
				svcs = append(svcs, c27rest("http", c.restAddr, nil))
			} else {
				svcs = append(svcs, c27rest("https", c.restAddr, c27pool(cert.trust)))
			}
		}
		if c.grpc {
			g := &vgrpc.Client{Address: c27grpcAddr(c.grpcAddr), NoGrpcSecurity: cert == nil}
			if cert != nil {
				g.CertDer = cert.trust
				if strings.HasPrefix(c.grpcAddr, "/") {
					g.Address = c27relay(c.grpcAddr)
				}
			}
			svcs = append(svcs, g.MustDial())
		}
		what := fmt.Sprintf("run %d, server %d with\n%s", i, gen, c.text(rng))
		r.Case("restart", "%s", what)
		r.Saw("restart")
		x := cs[d]
		svc := svcs[rng.Intn(len(svcs))]
		ok := ckLog(r, what, svc, ref, x.m, rng) && ckMapAll(r, what, svc, mr, x.w, rng, 1)
		for n := rng.Intn(12); ok && n >= 0; n-- {
			svc := svcs[rng.Intn(len(svcs))]
			ld := &pb.LeafData{LeafInput: randBytes(rng, 1+rng.Intn(3)), ExtraData: randBytes(rng, 3)}
			if _, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: ld}); err != nil {
				r.Failf("%s: %v", what, err)
				ok = false
				break
			}
			x.m.Add(ld)
			if err := x.w.mutate(svc, mr, x.g.next(&x.w.MapModel)); err != nil {
				r.Failf("%s: %v", what, err)
				ok = false
			}
		}
		p.kill()
		if !ok {
			return
		}
	}
}

// c27unusable starts the program with what it can't serve with.
func c27unusable(r *R, certs []*c27cert, elsewhere *c27cert) []func() {
	type setup struct {
		name string
		f    func(dir string, c *c27conf) // changes a configuration that is good, with certificate
		text func(string) string
		args func(dir string) []string
	}
	put := func(dir, name string, data []byte) {
		if err := os.WriteFile(filepath.Join(dir, name), data, 0600); err != nil {
			panic(err)
		}
	}
	cat := func(b ...[]byte) []byte { return bytes.Join(b, nil) }
	a, b := certs[0], certs[1]
	cases := []setup{
		{name: "no certificate file", f: func(dir string, c *c27conf) { os.Remove(filepath.Join(dir, "s-cert.pem")) }},
		{name: "no key file", f: func(dir string, c *c27conf) { os.Remove(filepath.Join(dir, "s-key.pem")) }},
		{name: "certificate not configured", f: func(dir string, c *c27conf) { c.certPath = "" }},
		{name: "key not configured", f: func(dir string, c *c27conf) { c.keyPat = "" }},
		{name: "neither configured", f: func(dir string, c *c27conf) { c.certPath, c.keyPat = "", "" }},
		{name: "another key", f: func(dir string, c *c27conf) { put(dir, "s-key.pem", b.key) }},
		{name: "another key of the same kind", f: func(dir string, c *c27conf) { put(dir, "s-key.pem", elsewhere.key) }},
		{name: "key and certificate exchanged", f: func(dir string, c *c27conf) { c.certPath, c.keyPat = c.keyPat, c.certPath }},
		{name: "empty certificate", f: func(dir string, c *c27conf) { put(dir, "s-cert.pem", nil) }},
		{name: "empty key", f: func(dir string, c *c27conf) { put(dir, "s-key.pem", nil) }},
		{name: "certificate not PEM", f: func(dir string, c *c27conf) { put(dir, "s-cert.pem", a.raw[0]) }},
		{name: "broken certificate", f: func(dir string, c *c27conf) {
			d := append([]byte(nil), a.raw[0]...)
			put(dir, "s-cert.pem", c27pem("CERTIFICATE", d[:len(d)-7]))
		}},
		{name: "broken key", f: func(dir string, c *c27conf) { put(dir, "s-key.pem", c27pem("PRIVATE KEY", []byte("no key"))) }},
		{name: "certificate is a directory", f: func(dir string, c *c27conf) { c.certPath = dir }},
		{name: "chain that begins with another", f: func(dir string, c *c27conf) { put(dir, "s-cert.pem", cat(b.cert, a.cert)) }},
		{name: "no configuration file", args: func(dir string) []string { return []string{filepath.Join(dir, "missing.conf")} }},
		{name: "configuration is a directory", args: func(dir string) []string { return []string{dir} }},
		{name: "unknown field at the end", text: func(s string) string { return s + "nothing_known: 1\n" }},
		{name: "unknown field at the beginning", text: func(s string) string { return "nothing_known: 1\n" + s }},
		{name: "misspelt account", text: func(s string) string { return strings.Replace(s, "accounts:", "acounts:", 1) }},
		{name: "unknown permission", text: func(s string) string {
			return s + "accounts: < id: \"1\" policy: < api_key: \"*\" name_match: \"*\" permissions: PERM_WHATEVER > >\n"
		}},
		{name: "unbalanced", text: func(s string) string { return s + "accounts: <\n" }},
		{name: "surplus bracket", text: func(s string) string { return s + ">\n" }},
		{name: "not a boolean", text: func(s string) string {
			return strings.Replace(s, "insecure_server_for_testing: true", "insecure_server_for_testing: maybe", 1)
		}},
		{name: "field given twice", text: func(s string) string { return s + "bolt_db_path: \".\"\nbolt_db_path: \".\"\n" }},
		{name: "binary", text: func(s string) string { return "\x0a\x04abcd\x12\x03" + s }},
		{name: "not UTF-8", text: func(s string) string { return s + "accounts: < id: \"\xff\xfe\" >\n" }},
	}
	var jobs []func()
	for n, s := range cases {
		for protos := 1; protos <= 3; protos++ {
			n, s, protos := n, s, protos
			jobs = append(jobs, func() {
				rng := r.Rand(fmt.Sprint("unusable", n, protos))
				dir := r.Dir()
				defer os.RemoveAll(dir)
				c := &c27conf{rest: protos&1 != 0, grpc: protos&2 != 0, db: dir, accounts: c27accounts(rng)}
				c.binds(rng, dir)
				if s.f != nil {
					c.install(rng, dir, a)
					s.f(dir, c)
				} else {
					c.insecure = true
				}
				text := c.text(rng)
				if s.text != nil {
					text = s.text(text)
				}
				put(dir, "server.conf", []byte(text))
				args := []string{"server.conf"}
				if s.args != nil {
					args = s.args(dir)
				}
				what := fmt.Sprintf("%s, with configuration\n%s", s.name, text)
				r.Case("unusable", "%s", what)
				r.Saw("unusable")
				p := spawnVDBArgs(dir, args)
				defer func() { p.kill() }()
				for t := 0; t < 60 && !p.exited(); t++ {
					if t > 0 {
						time.Sleep(10 * time.Millisecond)
					}
					for _, s := range []struct {
						name string
						on   bool
						dial func() Svc
					}{
						{"REST", listening(c.restAddr), func() Svc { return c27rest("http", c.restAddr, nil) }},
						{"REST over TLS", listening(c.restAddr), func() Svc { return c27rest("https", c.restAddr, &tls.Config{InsecureSkipVerify: true}) }},
						{"gRPC", listening(c.grpcAddr), func() Svc {
							return (&vgrpc.Client{Address: c27grpcAddr(c.grpcAddr), NoGrpcSecurity: true}).MustDial()
						}},
						{"gRPC over TLS", listening(c.grpcAddr), func() Svc {
							return (&vgrpc.Client{Address: c27grpcAddr(c.grpcAddr), CertDer: a.trust}).MustDial()
						}},
					} {
						if !s.on {
							continue
						}
						ctx, cancel := context.WithTimeout(bg, 30*time.Second)
						h, err := s.dial().LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: lref(c27open, "log", tLog)})
						cancel()
						if err == nil || code(err) == codes.PermissionDenied {
							r.Failf("the server program serves %s in spite of %s: %v %v", s.name, what, h, err)
							return
						}
					}
				}
				if !waitFor(r, p.exited) {
					r.Failf("the server program runs on without serving, in spite of %s: %s", what, p.out.String())
					return
				}
				r.Saw("gave-up")
			})
		}
	}
	// an address that is another's
	for n := 0; n < r.N(6, 24); n++ {
		n := n
		jobs = append(jobs, func() {
			rng := r.Rand(fmt.Sprint("taken", n))
			dir := r.Dir()
			defer os.RemoveAll(dir)
			c := &c27conf{rest: n%3 != 0, grpc: n%3 != 1, db: dir, accounts: c27accounts(rng)}
			c.binds(rng, dir)
			c.install(rng, dir, a)
			network, addr := "tcp", &c.grpcAddr
			if c.rest && (!c.grpc || rng.Intn(2) == 0) {
				addr = &c.restAddr
			}
			if strings.HasPrefix(*addr, "/") {
				network = "unix"
			}
			l, err := net.Listen(network, *addr)
			if err != nil {
				r.Notef("can't take %s: %v", *addr, err)
				return
			}
			defer l.Close()
			text := c.text(rng)
			put(dir, "server.conf", []byte(text))
			what := fmt.Sprintf("another's listening on %s, with configuration\n%s", *addr, text)
			r.Case("unusable", "%s", what)
			r.Saw("unusable")
			p := spawnVDBArgs(dir, []string{"server.conf"})
			defer func() { p.kill() }()
			if !waitFor(r, p.exited) {
				r.Failf("the server program runs on without serving, in spite of %s: %s", what, p.out.String())
				return
			}
			r.Saw("address-taken")
		})
	}
	return jobs
}

// c27demo runs the program without configuration.
func c27demo(r *R) {
	const addr = "127.0.0.1:8092"
	if l, err := net.Listen("tcp", ":8092"); err != nil {
		r.Notef("port 8092 is in use: demonstration mode is not observed")
		return
	} else {
		l.Close()
	}
	rng := r.Rand("demo")
	for run := 0; run < 2; run++ {
		dir := r.Dir()
		// nothing to be found that might be a browser
		p := spawnVDBArgs(dir, nil, "PATH="+dir, "DISPLAY=", "BROWSER=")
		up := false
		for i := 0; i < 6000 && !up && !p.exited(); i++ {
			if up = listening(addr); !up {
				time.Sleep(10 * time.Millisecond)
			}
		}
		what := fmt.Sprintf("demonstration %d", run)
		if !up {
			r.Failf("%s doesn't serve: %s", what, p.out.String())
		} else {
			svc := c27rest("http", addr, nil)
			m := &LogModel{}
			ref := &pb.LogRef{Account: acct("987", "thing"), Name: "whatever"}
			if ckLog(r, what+" (must begin with nothing)", svc, ref, m, rng) {
				for i := 0; i < 5; i++ {
					ld := &pb.LeafData{LeafInput: []byte{byte(i)}}
					if _, err := svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: ld}); err != nil {
						r.Failf("%s: %v", what, err)
						break
					}
					m.Add(ld)
				}
				ckLog(r, what, svc, ref, m, rng)
			}
			if got := c27sockets(p.cmd.Process.Pid); len(got) != 1 || got[0] != "any:8092" {
				r.Failf("%s listens on %q", what, got)
			}
			r.Saw("demonstration")
		}
		p.kill()
		if es, _ := os.ReadDir(dir); len(es) != 0 {
			r.Failf("%s left %s behind", what, es[0].Name())
		}
		os.RemoveAll(dir)
		if r.Failed() {
			return
		}
	}
}

// c27certDer: what isn't a certificate must not become a client that trusts others.
func c27certDer(r *R, other *c27cert) {
	for _, c := range []struct {
		name string
		data []byte
	}{
		{"text", []byte("no certificate")},
		{"broken DER", other.trust[:len(other.trust)-3]},
		{"DER with more", append(append([]byte(nil), other.trust...), 0)},
		{"a key", other.key},
		{"broken PEM", c27pem("CERTIFICATE", other.trust[:len(other.trust)-3])},
		{"PEM of something else", c27pem("SOMETHING", other.trust)},
	} {
		r.Case("client-certificate", "%s", c.name)
		r.Saw("client-certificate")
		s, err := (&vgrpc.Client{Address: "127.0.0.1:1", CertDer: c.data}).Dial()
		if err == nil || s != nil {
			r.Failf("a gRPC client is made with %s for certificate", c.name)
		}
	}
}
