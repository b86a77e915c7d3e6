package main

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/storage/postgres"
	"github.com/jackc/pgx/v5/pgproto3"
	"github.com/jackc/pgx/v5/pgxpool"
)

// This is a stand-in for a PostgreSQL server: it speaks the protocol, understands the few statements a
// key-value storage has use for (in whatever spelling), keeps tables under multi-version concurrency control
// with table locks, records what happens in each transaction and fails as told.

// pgTx is the record of a transaction.
type pgTx struct {
	id       int
	session  int
	isolated bool // sees one state throughout
	readOnly bool
	locks    map[string]int // by table: strongest explicit lock
	created  map[string]bool
	tables   map[string]bool // accessed by data statements
	reads    int
	writes   int
	early    bool // data were accessed before an exclusive lock was held
	stmts    []string
	state    string // open, committed, rolled back, lost
	failed   bool

	snap  int
	over  map[string]map[string]*pgVer // by table, by key
	ended bool
}

func (t *pgTx) String() string {
	return fmt.Sprintf("transaction %d on connection %d (%s): %s", t.id, t.session, t.state, strings.Join(t.stmts, "; "))
}

type pgVer struct {
	seq     int
	val     []byte
	deleted bool
}

type pgTable struct {
	rows map[string][]*pgVer
}

// pgFault is what happens to a statement.
type pgFault struct {
	code  string        // an error of this SQLSTATE
	drop  bool          // the connection breaks before the statement has effect
	lost  bool          // the connection breaks after it
	wait  chan struct{} // the statement takes until this is closed
	begun func()        // called when it begins to wait
}

type pgDB struct {
	lis  net.Listener
	Addr string

	mu       sync.Mutex
	cond     *sync.Cond
	tables   map[string]*pgTable
	creating map[string]*pgTx
	seq      int
	txs      []*pgTx
	nTx      int
	nSession int
	open     int // connections
	locks    map[string]map[*pgTx]map[int]bool
	nStmt    int
	loose    []string // data statements outside of transactions, and the like
	unknown  []string // statements that aren't understood
	keepTxs  int
	conns    map[net.Conn]bool

	// Fault decides what happens to a statement, the n-th since the last Reset.
	Fault func(n int, kind, sql string) *pgFault
	// Yield is called before each statement.
	Yield func()
}

func newPG() *pgDB {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	d := &pgDB{lis: l, Addr: l.Addr().String(), tables: map[string]*pgTable{}, creating: map[string]*pgTx{}, locks: map[string]map[*pgTx]map[int]bool{}, conns: map[net.Conn]bool{}}
	d.cond = sync.NewCond(&d.mu)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go d.serve(c)
		}
	}()
	return d
}

func (d *pgDB) Close() {
	d.lis.Close()
	d.mu.Lock()
	for c := range d.conns {
		c.Close()
	}
	d.cond.Broadcast()
	d.mu.Unlock()
}

// BreakConnections breaks all connections there are.
func (d *pgDB) BreakConnections() {
	d.mu.Lock()
	for c := range d.conns {
		c.Close()
	}
	d.mu.Unlock()
}

// storage makes a storage that uses the database. The function closes it.
func (d *pgDB) storage(conns int) (*postgres.Storage, func(), error) {
	host, port, _ := net.SplitHostPort(d.Addr)
	cfg, err := pgxpool.ParseConfig(fmt.Sprintf("host=%s port=%s user=verif password=verif database=verif sslmode=disable pool_max_conns=%d", host, port, conns))
	if err != nil {
		return nil, nil, err
	}
	pool, err := pgxpool.NewWithConfig(bg, cfg)
	if err != nil {
		return nil, nil, err
	}
	st := &postgres.Storage{}
	done := pool.Close
	f := reflect.ValueOf(st).Elem().FieldByName("Pool")
	if v := reflect.ValueOf(pool); f.IsValid() && v.Type().AssignableTo(f.Type()) {
		f.Set(v)
	} else {
		// a single connection
		c, err := pool.Acquire(bg)
		if err != nil {
			return nil, nil, err
		}
		f.Set(reflect.ValueOf(c))
		done = func() { c.Release(); pool.Close() }
	}
	return st, func() {
		fin := make(chan struct{})
		go func() { done(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(20 * time.Second):
			d.mu.Lock()
			d.loose = append(d.loose, "a connection is never given back to the pool")
			d.mu.Unlock()
		}
	}, nil
}

// Reset begins a new record and returns the old one.
func (d *pgDB) Reset() (txs []*pgTx, loose []string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	txs, loose = d.txs, d.loose
	d.txs, d.loose = nil, nil
	d.nStmt = 0
	return
}

// OpenTxs are the transactions that haven't ended, after a while.
func (d *pgDB) OpenTxs() []*pgTx {
	for t := 0; ; t++ {
		d.mu.Lock()
		var rv []*pgTx
		for _, x := range d.txs {
			if !x.ended {
				rv = append(rv, x)
			}
		}
		d.mu.Unlock()
		if len(rv) == 0 || t > 2000 {
			return rv
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// Dump is what is committed.
func (d *pgDB) Dump() map[string]map[string][]byte {
	d.mu.Lock()
	defer d.mu.Unlock()
	rv := map[string]map[string][]byte{}
	for n, t := range d.tables {
		rv[n] = map[string][]byte{}
		for k, vs := range t.rows {
			if v := vs[len(vs)-1]; !v.deleted {
				rv[n][k] = v.val
			}
		}
	}
	return rv
}

// ---- transactions; d.mu is held

const (
	lAccessShare = iota
	lRowShare
	lRowExclusive
	lShareUpdateExclusive
	lShare
	lShareRowExclusive
	lExclusive
	lAccessExclusive
)

var pgModes = map[string]int{"access share": 0, "row share": 1, "row exclusive": 2, "share update exclusive": 3, "share": 4, "share row exclusive": 5, "exclusive": 6, "access exclusive": 7}

// which modes each conflicts with
var pgConflicts = [8][]int{
	{7}, {6, 7}, {4, 5, 6, 7}, {3, 4, 5, 6, 7}, {2, 3, 5, 6, 7}, {2, 3, 4, 5, 6, 7}, {1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 3, 4, 5, 6, 7},
}

// lock waits for a table lock.
func (d *pgDB) lock(t *pgTx, table string, mode int, nowait bool) string {
	deadline := time.Now().Add(30 * time.Second)
	for {
		free := true
		for o, modes := range d.locks[table] {
			if o == t {
				continue
			}
			for _, c := range pgConflicts[mode] {
				free = free && !modes[c]
			}
		}
		if free {
			break
		}
		if nowait {
			return "55P03"
		}
		if time.Now().After(deadline) {
			return "40P01"
		}
		wake := time.AfterFunc(time.Second, func() { d.cond.Broadcast() })
		d.cond.Wait()
		wake.Stop()
	}
	if d.locks[table] == nil {
		d.locks[table] = map[*pgTx]map[int]bool{}
	}
	if d.locks[table][t] == nil {
		d.locks[table][t] = map[int]bool{}
	}
	d.locks[table][t][mode] = true
	return ""
}

func (d *pgDB) begin(session int) *pgTx {
	d.nTx++
	t := &pgTx{id: d.nTx, session: session, locks: map[string]int{}, created: map[string]bool{}, tables: map[string]bool{}, state: "open", snap: -1, over: map[string]map[string]*pgVer{}}
	d.txs = append(d.txs, t)
	return t
}

func (d *pgDB) end(t *pgTx, state string) {
	if t.ended {
		return
	}
	t.ended, t.state = true, state
	for _, ts := range d.locks {
		delete(ts, t)
	}
	for n := range t.created {
		if d.creating[n] == t {
			delete(d.creating, n)
		}
	}
	if state == "committed" {
		d.seq++
		for n := range t.created {
			if d.tables[n] == nil {
				d.tables[n] = &pgTable{rows: map[string][]*pgVer{}}
			}
		}
		for n, rows := range t.over {
			for k, v := range rows {
				v.seq = d.seq
				d.tables[n].rows[k] = append(d.tables[n].rows[k], v)
			}
		}
	}
	d.cond.Broadcast()
}

func (d *pgDB) exists(t *pgTx, table string) bool { return d.tables[table] != nil || t.created[table] }

// get is the row of a key, or nil.
func (d *pgDB) get(t *pgTx, table, key string) *pgVer {
	row := func(v *pgVer) *pgVer {
		if v.deleted {
			return nil
		}
		return v
	}
	if v := t.over[table][key]; v != nil {
		return row(v)
	}
	if t.isolated && t.snap < 0 {
		t.snap = d.seq
	}
	if tb := d.tables[table]; tb != nil {
		vs := tb.rows[key]
		for i := len(vs) - 1; i >= 0; i-- {
			if t.isolated && vs[i].seq > t.snap {
				continue
			}
			return row(vs[i])
		}
	}
	return nil
}

func (d *pgDB) set(t *pgTx, table, key string, val []byte, deleted bool) {
	if t.over[table] == nil {
		t.over[table] = map[string]*pgVer{}
	}
	t.over[table][key] = &pgVer{val: val, deleted: deleted}
}

// ---- statements

type pgTok struct {
	s     string
	ident bool // quoted
}

// pgLex splits a statement into words; what isn't quoted is in lower case.
func pgLex(sql string) []pgTok {
	var rv []pgTok
	i := 0
	word := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$' || c >= 0x80
	}
	for i < len(sql) {
		c := sql[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(sql[i:], "--"):
			for i < len(sql) && sql[i] != '\n' {
				i++
			}
		case strings.HasPrefix(sql[i:], "/*"):
			j := strings.Index(sql[i:], "*/")
			if j < 0 {
				return nil
			}
			i += j + 2
		case c == '"' || c == '\'':
			var b bytes.Buffer
			for i++; i < len(sql); i++ {
				if sql[i] == c {
					if i+1 < len(sql) && sql[i+1] == c {
						i++
					} else {
						break
					}
				}
				b.WriteByte(sql[i])
			}
			i++
			rv = append(rv, pgTok{b.String(), true})
		case word(c):
			j := i
			for j < len(sql) && word(sql[j]) {
				j++
			}
			rv = append(rv, pgTok{strings.ToLower(sql[i:j]), false})
			i = j
		case strings.HasPrefix(sql[i:], "::"):
			rv = append(rv, pgTok{"::", false})
			i += 2
		default:
			rv = append(rv, pgTok{string(c), false})
			i++
		}
	}
	for len(rv) > 0 && rv[len(rv)-1].s == ";" {
		rv = rv[:len(rv)-1]
	}
	return rv
}

// pgStmt is a statement understood.
type pgStmt struct {
	kind   string // begin commit rollback create lock select insert update delete none
	table  string
	sql    string
	params int

	isolated, readOnly bool
	mode               int
	nowait             bool
	cols               []string // select
	key, val, upd      int      // parameters
	conflict           string   // "", update, nothing
	ifNotExists        bool
}

type pgParser struct {
	t  []pgTok
	i  int
	st *pgStmt
}

func (p *pgParser) is(words ...string) bool {
	if p.i+len(words) > len(p.t) {
		return false
	}
	for k, w := range words {
		if p.t[p.i+k].ident || p.t[p.i+k].s != w {
			return false
		}
	}
	p.i += len(words)
	return true
}

func (p *pgParser) ident() (string, bool) {
	if p.i >= len(p.t) {
		return "", false
	}
	t := p.t[p.i]
	if !t.ident && (t.s == "" || !(t.s[0] >= 'a' && t.s[0] <= 'z' || t.s[0] == '_')) {
		return "", false
	}
	if len(t.s) > 63 { // cut, like the real one
		t.s = t.s[:63]
	}
	p.i++
	return t.s, true
}

func (p *pgParser) table() (string, bool) {
	n, ok := p.ident()
	for ok && p.is(".") {
		n, ok = p.ident()
	}
	return n, ok
}

// col is a column, perhaps qualified by a table.
func (p *pgParser) col() (string, bool) { return p.table() }

func (p *pgParser) param() (int, bool) {
	par := 0
	for p.is("(") {
		par++
	}
	if p.i >= len(p.t) || p.t[p.i].ident || !strings.HasPrefix(p.t[p.i].s, "$") {
		return 0, false
	}
	n := 0
	fmt.Sscanf(p.t[p.i].s[1:], "%d", &n)
	p.i++
	if p.is("::") {
		p.ident()
	}
	for ; par > 0; par-- {
		if !p.is(")") {
			return 0, false
		}
	}
	if n > p.st.params {
		p.st.params = n
	}
	return n, n > 0
}

func (p *pgParser) end() bool { return p.i == len(p.t) }

// where reads "where key = $n".
func (p *pgParser) where() bool {
	if !p.is("where") {
		return false
	}
	if c, ok := p.col(); ok {
		if c != "key" || !p.is("=") {
			return false
		}
		p.st.key, ok = p.param()
		return ok
	}
	var ok bool
	if p.st.key, ok = p.param(); !ok || !p.is("=") {
		return false
	}
	c, ok := p.col()
	return ok && c == "key"
}

func (p *pgParser) txOptions() bool {
	for !p.end() {
		switch {
		case p.is(","), p.is("deferrable"), p.is("not", "deferrable"), p.is("read", "write"):
		case p.is("isolation", "level", "read", "committed"), p.is("isolation", "level", "read", "uncommitted"):
		case p.is("isolation", "level", "repeatable", "read"), p.is("isolation", "level", "serializable"):
			p.st.isolated = true
		case p.is("read", "only"):
			p.st.readOnly = true
		default:
			return false
		}
	}
	return true
}

func pgParse(sql string) *pgStmt {
	st := &pgStmt{sql: strings.Join(strings.Fields(sql), " ")}
	p := &pgParser{t: pgLex(sql), st: st}
	ok := false
	switch {
	case len(p.t) == 0:
		st.kind = "none"
		return st
	case p.is("begin"), p.is("start", "transaction"):
		st.kind = "begin"
		if !p.is("work") {
			p.is("transaction")
		}
		ok = p.txOptions()
	case p.is("commit"), p.is("end"):
		st.kind = "commit"
		if !p.is("work") {
			p.is("transaction")
		}
		ok = p.end()
	case p.is("rollback"), p.is("abort"):
		st.kind = "rollback"
		if !p.is("work") {
			p.is("transaction")
		}
		ok = p.end()
	case p.is("create", "table"), p.is("create", "unlogged", "table"):
		st.kind = "create"
		st.ifNotExists = p.is("if", "not", "exists")
		if st.table, ok = p.table(); ok {
			ok = p.is("(") && len(p.t) > 3 && p.t[len(p.t)-1].s == ")"
		}
	case p.is("lock"):
		st.kind = "lock"
		p.is("table")
		p.is("only")
		st.mode = lAccessExclusive
		if st.table, ok = p.table(); ok && p.is("in") {
			var w []string
			for !p.end() && !p.is("mode") {
				w = append(w, p.t[p.i].s)
				p.i++
			}
			st.mode, ok = pgModes[strings.Join(w, " ")]
		}
		st.nowait = p.is("nowait")
		ok = ok && p.end()
	case p.is("select"):
		st.kind = "select"
		for {
			c, isCol := p.col()
			if !isCol {
				break
			}
			st.cols = append(st.cols, c)
			if p.is("as") {
				p.ident()
			}
			if !p.is(",") {
				break
			}
		}
		ok = len(st.cols) > 0 && p.is("from")
		for _, c := range st.cols {
			ok = ok && (c == "key" || c == "value")
		}
		if ok {
			p.is("only")
			if st.table, ok = p.table(); ok {
				if !p.where() { // an alias, perhaps
					p.is("as")
					p.ident()
					ok = p.where()
				}
			}
		}
		p.is("limit", "1")
		if p.is("for") {
			if !p.is("no", "key", "update") && !p.is("update") && !p.is("key", "share") {
				ok = p.is("share")
			}
		}
		ok = ok && p.end()
	case p.is("insert", "into"):
		st.kind = "insert"
		var cols []string
		if st.table, ok = p.table(); ok && p.is("(") {
			for {
				c, isCol := p.ident()
				if !isCol {
					break
				}
				cols = append(cols, c)
				if !p.is(",") {
					break
				}
			}
			ok = p.is(")")
		} else {
			cols = []string{"key", "value"}
		}
		ok = ok && len(cols) == 2 && p.is("values", "(")
		for i, c := range cols {
			if !ok {
				break
			}
			if i > 0 {
				ok = p.is(",")
			}
			var n int
			var is bool
			if n, is = p.param(); !is {
				ok = false
			}
			switch c {
			case "key":
				st.key = n
			case "value":
				st.val = n
			default:
				ok = false
			}
		}
		ok = ok && p.is(")") && st.key > 0 && st.val > 0
		if p.is("on", "conflict") {
			if p.is("(") {
				c, is := p.ident()
				ok = ok && is && c == "key" && p.is(")")
			}
			switch {
			case p.is("do", "nothing"):
				st.conflict = "nothing"
			case p.is("do", "update", "set", "value", "="), p.is("do", "update", "set"):
				if p.t[p.i-1].s == "set" {
					c, is := p.ident()
					ok = ok && is && c == "value" && p.is("=")
				}
				st.conflict = "update"
				if p.is("excluded", ".") {
					c, is := p.ident()
					ok = ok && is
					switch c {
					case "value":
						st.upd = st.val
					case "key":
						st.upd = st.key
					default:
						ok = false
					}
				} else {
					var is bool
					st.upd, is = p.param()
					ok = ok && is
				}
			default:
				ok = false
			}
		}
		ok = ok && p.end()
	case p.is("update"):
		st.kind = "update"
		p.is("only")
		if st.table, ok = p.table(); ok {
			ok = p.is("set")
			c, is := p.ident()
			ok = ok && is && c == "value" && p.is("=")
			if ok {
				st.val, ok = p.param()
			}
			ok = ok && p.where() && p.end()
		}
	case p.is("delete", "from"):
		st.kind = "delete"
		p.is("only")
		if st.table, ok = p.table(); ok {
			ok = p.where() && p.end()
		}
	case p.is("set"), p.is("deallocate"), p.is("discard"):
		st.kind, ok = "none", true
	}
	if !ok {
		return nil
	}
	return st
}

// ---- sessions

type pgSession struct {
	d       *pgDB
	id      int
	b       *pgproto3.Backend
	conn    net.Conn
	tx      *pgTx
	stmts   map[string]*pgStmt
	portals map[string]*pgPortal
}

type pgPortal struct {
	st      *pgStmt
	args    [][]byte
	formats []int16
}

type pgErr string

func (d *pgDB) serve(c net.Conn) {
	defer c.Close()
	s := &pgSession{d: d, conn: c, b: pgproto3.NewBackend(c, c), stmts: map[string]*pgStmt{}, portals: map[string]*pgPortal{}}
	for {
		m, err := s.b.ReceiveStartupMessage()
		if err != nil {
			return
		}
		switch m.(type) {
		case *pgproto3.StartupMessage:
		case *pgproto3.SSLRequest, *pgproto3.GSSEncRequest:
			if _, err := c.Write([]byte("N")); err != nil {
				return
			}
			continue
		default: // a request to cancel
			return
		}
		break
	}
	d.mu.Lock()
	d.nSession++
	s.id = d.nSession
	d.open++
	d.conns[c] = true
	d.mu.Unlock()
	defer func() {
		d.mu.Lock()
		d.open--
		delete(d.conns, c)
		if s.tx != nil {
			d.end(s.tx, "lost")
		}
		d.mu.Unlock()
	}()
	s.b.Send(&pgproto3.AuthenticationOk{})
	for k, v := range map[string]string{"server_version": "16.0", "client_encoding": "UTF8", "standard_conforming_strings": "on", "DateStyle": "ISO, MDY", "integer_datetimes": "on", "TimeZone": "UTC"} {
		s.b.Send(&pgproto3.ParameterStatus{Name: k, Value: v})
	}
	s.b.Send(&pgproto3.BackendKeyData{ProcessID: uint32(s.id), SecretKey: 1})
	s.ready()
	skip := false
	for {
		m, err := s.b.Receive()
		if err != nil {
			return
		}
		if skip {
			switch m.(type) {
			case *pgproto3.Sync:
				skip = false
				if s.ready() != nil {
					return
				}
			case *pgproto3.Terminate:
				return
			}
			continue
		}
		var pe pgErr
		alive := true
		switch m := m.(type) {
		case *pgproto3.Query:
			alive = s.simple(m.String)
			if alive {
				alive = s.ready() == nil
			}
		case *pgproto3.Parse:
			var st *pgStmt
			if st, pe, alive = s.parse(m.Query); pe == "" && alive {
				s.stmts[m.Name] = st
				s.b.Send(&pgproto3.ParseComplete{})
			}
		case *pgproto3.Describe:
			var st *pgStmt
			var formats []int16
			if m.ObjectType == 'S' {
				if st = s.stmts[m.Name]; st != nil {
					oids := make([]uint32, st.params)
					for i := range oids {
						oids[i] = 17
					}
					s.b.Send(&pgproto3.ParameterDescription{ParameterOIDs: oids})
				}
			} else if p := s.portals[m.Name]; p != nil {
				st, formats = p.st, p.formats
			}
			if st == nil {
				pe = "26000"
			} else if st.kind == "select" {
				s.b.Send(pgRow(st, formats))
			} else {
				s.b.Send(&pgproto3.NoData{})
			}
		case *pgproto3.Bind:
			st := s.stmts[m.PreparedStatement]
			if st == nil {
				pe = "26000"
				break
			}
			p := &pgPortal{st: st}
			for i, a := range m.Parameters {
				f := int16(0)
				if len(m.ParameterFormatCodes) == 1 {
					f = m.ParameterFormatCodes[0]
				} else if i < len(m.ParameterFormatCodes) {
					f = m.ParameterFormatCodes[i]
				}
				v := append([]byte{}, a...)
				if a == nil {
					v = nil
				} else if f == 0 { // text
					if !bytes.HasPrefix(v, []byte(`\x`)) {
						pe = "22P02"
						break
					}
					dec := make([]byte, (len(v)-2)/2)
					for k := range dec {
						fmt.Sscanf(string(v[2+2*k:4+2*k]), "%02x", &dec[k])
					}
					v = dec
				}
				p.args = append(p.args, v)
			}
			for i := range st.cols {
				f := int16(0)
				if len(m.ResultFormatCodes) == 1 {
					f = m.ResultFormatCodes[0]
				} else if i < len(m.ResultFormatCodes) {
					f = m.ResultFormatCodes[i]
				}
				p.formats = append(p.formats, f)
			}
			if len(p.args) != st.params {
				pe = "08P01"
			}
			if pe == "" {
				s.portals[m.DestinationPortal] = p
				s.b.Send(&pgproto3.BindComplete{})
			}
		case *pgproto3.Execute:
			p := s.portals[m.Portal]
			if p == nil {
				pe = "34000"
				break
			}
			pe, alive = s.run(p)
		case *pgproto3.Close:
			if m.ObjectType == 'S' {
				delete(s.stmts, m.Name)
			} else {
				delete(s.portals, m.Name)
			}
			s.b.Send(&pgproto3.CloseComplete{})
		case *pgproto3.Sync:
			alive = s.ready() == nil
		case *pgproto3.Flush:
			alive = s.b.Flush() == nil
		case *pgproto3.Terminate:
			return
		}
		if !alive {
			return
		}
		if pe != "" {
			s.fail(pe)
			skip = true
		}
	}
}

func pgRow(st *pgStmt, formats []int16) *pgproto3.RowDescription {
	rd := &pgproto3.RowDescription{}
	for i, c := range st.cols {
		f := int16(0)
		if i < len(formats) {
			f = formats[i]
		}
		rd.Fields = append(rd.Fields, pgproto3.FieldDescription{Name: []byte(c), DataTypeOID: 17, DataTypeSize: -1, TypeModifier: -1, Format: f})
	}
	return rd
}

func (s *pgSession) ready() error {
	st := byte('I')
	if s.tx != nil {
		st = 'T'
		if s.tx.failed {
			st = 'E'
		}
	}
	s.b.Send(&pgproto3.ReadyForQuery{TxStatus: st})
	return s.b.Flush()
}

func (s *pgSession) fail(code pgErr) {
	s.d.mu.Lock()
	if s.tx != nil {
		s.tx.failed = true
	}
	s.d.mu.Unlock()
	s.b.Send(&pgproto3.ErrorResponse{Severity: "ERROR", Code: string(code), Message: "error " + string(code)})
}

// fault asks for a fault; false: the connection is to break.
func (s *pgSession) fault(kind, sql string) (pgErr, bool, bool) {
	s.d.mu.Lock()
	n := s.d.nStmt
	s.d.nStmt++
	f, y := s.d.Fault, s.d.Yield
	s.d.mu.Unlock()
	if y != nil {
		y()
	}
	if f == nil {
		return "", true, false
	}
	x := f(n, kind, sql)
	if x == nil {
		return "", true, false
	}
	if x.wait != nil {
		if x.begun != nil {
			x.begun()
		}
		<-x.wait
	}
	return pgErr(x.code), !x.drop, x.lost
}

func (s *pgSession) parse(sql string) (*pgStmt, pgErr, bool) {
	st := pgParse(sql)
	if st == nil {
		s.d.mu.Lock()
		s.d.unknown = append(s.d.unknown, sql)
		s.d.mu.Unlock()
		return nil, "42601", true
	}
	pe, alive, lost := s.fault("parse "+st.kind, st.sql)
	if !alive || lost {
		return nil, "", false
	}
	if pe != "" {
		return nil, pe, true
	}
	if s.tx != nil && s.tx.failed {
		return nil, "25P02", true
	}
	if st.kind == "select" || st.kind == "insert" || st.kind == "update" || st.kind == "delete" {
		s.d.mu.Lock()
		ok := s.d.tables[st.table] != nil || s.tx != nil && s.tx.created[st.table]
		s.d.mu.Unlock()
		if !ok {
			return nil, "42P01", true
		}
	}
	return st, "", true
}

func (s *pgSession) simple(sql string) bool {
	st := pgParse(sql)
	if st == nil || st.params > 0 {
		s.d.mu.Lock()
		s.d.unknown = append(s.d.unknown, sql)
		s.d.mu.Unlock()
		s.fail("42601")
		return true
	}
	if len(pgLex(sql)) == 0 {
		s.b.Send(&pgproto3.EmptyQueryResponse{})
		return true
	}
	pe, alive := s.run(&pgPortal{st: st})
	if alive && pe != "" {
		s.fail(pe)
	}
	return alive
}

// run executes a statement and sends its results.
func (s *pgSession) run(p *pgPortal) (pgErr, bool) {
	st := p.st
	pe, alive, lost := s.fault(st.kind, st.sql)
	if !alive {
		return "", false
	}
	if pe != "" {
		if s.tx != nil && (st.kind == "commit" || st.kind == "rollback") {
			// a commit that fails rolls back
			s.d.mu.Lock()
			s.tx.stmts = append(s.tx.stmts, st.kind+" (fails)")
			s.d.end(s.tx, "rolled back")
			s.d.mu.Unlock()
			s.tx = nil
		}
		return pe, true
	}
	pe, tag, rows := s.exec(p)
	if lost {
		return "", false
	}
	if pe != "" {
		return pe, true
	}
	for _, r := range rows {
		for i, f := range p.formats {
			if f == 0 && r[i] != nil {
				r[i] = []byte(fmt.Sprintf(`\x%x`, r[i]))
			}
		}
		s.b.Send(&pgproto3.DataRow{Values: r})
	}
	s.b.Send(&pgproto3.CommandComplete{CommandTag: []byte(tag)})
	return "", true
}

func (s *pgSession) exec(p *pgPortal) (pe pgErr, tag string, rows [][][]byte) {
	st, d := p.st, s.d
	d.mu.Lock()
	defer d.mu.Unlock()
	note := st.sql
	for _, a := range p.args {
		note += fmt.Sprintf(" %x", trunc(string(a), 24))
	}
	if s.tx != nil {
		s.tx.stmts = append(s.tx.stmts, note)
	}
	switch st.kind {
	case "begin":
		if s.tx != nil {
			d.loose = append(d.loose, "BEGIN inside "+s.tx.String())
			return "", "BEGIN", nil // just a warning
		}
		s.tx = d.begin(s.id)
		s.tx.isolated, s.tx.readOnly = st.isolated, st.readOnly
		s.tx.stmts = append(s.tx.stmts, note)
		return "", "BEGIN", nil
	case "commit", "rollback":
		if s.tx == nil {
			d.loose = append(d.loose, strings.ToUpper(st.kind)+" without a transaction")
			return "", strings.ToUpper(st.kind), nil
		}
		state := "committed"
		if st.kind == "rollback" || s.tx.failed {
			state = "rolled back"
			tag = "ROLLBACK"
		} else {
			tag = "COMMIT"
		}
		d.end(s.tx, state)
		s.tx = nil
		return "", tag, nil
	case "none":
		return "", "SET", nil
	}
	tx := s.tx
	if tx == nil {
		// on its own
		if st.kind != "create" {
			d.loose = append(d.loose, "outside a transaction: "+note)
		}
		tx = d.begin(s.id)
		tx.stmts = append(tx.stmts, note)
		defer func() {
			if pe != "" {
				d.end(tx, "rolled back")
			} else {
				d.end(tx, "committed")
			}
		}()
	}
	if tx.failed {
		return "25P02", "", nil
	}
	if tx.readOnly && st.kind != "select" {
		return "25006", "", nil
	}
	if st.kind == "create" {
		for d.creating[st.table] != nil && d.creating[st.table] != tx {
			d.cond.Wait()
		}
		if d.exists(tx, st.table) {
			if !st.ifNotExists {
				return "42P07", "", nil
			}
			return "", "CREATE TABLE", nil
		}
		tx.created[st.table] = true
		d.creating[st.table] = tx
		return "", "CREATE TABLE", nil
	}
	if !d.exists(tx, st.table) {
		return "42P01", "", nil
	}
	if st.kind == "lock" {
		if s.tx == nil {
			return "25P01", "", nil
		}
		if code := d.lock(tx, st.table, st.mode, st.nowait); code != "" {
			return pgErr(code), "", nil
		}
		if st.mode > tx.locks[st.table] {
			tx.locks[st.table] = st.mode
		}
		return "", "LOCK TABLE", nil
	}
	tx.tables[st.table] = true
	if tx.locks[st.table] < lShareRowExclusive {
		tx.early = true
	}
	arg := func(n int) []byte { return p.args[n-1] }
	if arg(st.key) == nil && st.kind == "insert" {
		return "23502", "", nil
	}
	key := string(arg(st.key))
	mode := lAccessShare
	if st.kind != "select" {
		mode = lRowExclusive
	}
	if code := d.lock(tx, st.table, mode, false); code != "" {
		return pgErr(code), "", nil
	}
	cur := d.get(tx, st.table, key)
	val := func(n int) []byte {
		if arg(n) == nil {
			return nil
		}
		return append([]byte{}, arg(n)...)
	}
	n := 0
	if cur != nil {
		n = 1
	}
	switch st.kind {
	case "select":
		tx.reads++
		if cur != nil && arg(st.key) != nil {
			var row [][]byte
			for _, c := range st.cols {
				if c == "key" {
					row = append(row, []byte(key))
				} else {
					v := cur.val
					if v != nil {
						v = append([]byte{}, v...)
					}
					row = append(row, v)
				}
			}
			rows = append(rows, row)
		}
		return "", fmt.Sprintf("SELECT %d", len(rows)), rows
	case "insert":
		tx.writes++
		if cur != nil {
			switch st.conflict {
			case "nothing":
				return "", "INSERT 0 0", nil
			case "update":
				d.set(tx, st.table, key, val(st.upd), false)
			default:
				return "23505", "", nil
			}
		} else {
			d.set(tx, st.table, key, val(st.val), false)
		}
		return "", "INSERT 0 1", nil
	case "update":
		tx.writes++
		if n > 0 {
			d.set(tx, st.table, key, val(st.val), false)
		}
		return "", fmt.Sprintf("UPDATE %d", n), nil
	default:
		tx.writes++
		if n > 0 {
			d.set(tx, st.table, key, nil, true)
		}
		return "", fmt.Sprintf("DELETE %d", n), nil
	}
}
