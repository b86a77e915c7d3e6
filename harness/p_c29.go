package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"syscall"
)

func init() {
	props["C29"] = &property{level: "exploration", run: c29,
		rule:        "Processes that write to Bolt and Badger storage run under a recorder of their system calls (strace). From the record the contents of the disk are rebuilt for many moments at which the power could have failed: what was synced is there, of what was written and not synced yet nothing, everything, a random part or a prefix (the last of them torn at a multiple of 512 bytes). Each such disk is opened by the real code, and everything about the objects is compared with what had been acknowledged and seen before that moment; then the next process continues on one of them. A case is a (storage, generation, moment, what was lost).",
		assumptions: []string{"SHA-256 collisions do not occur", "creating, renaming, truncating and removing files is not lost, and the first write to a file is not torn (Bolt makes a file by one write of several pages)", "storage files are only written by system calls (a writable shared mapping would be reported as no answer)", "synchronous mutator"}}
}

// diskEv is a system call on a file of the storage, or a line said by the process.
type diskEv struct {
	kind       string // write, sync, trunc, rename, unlink, mkdir, create, say
	path, to   string
	off        int64
	data       []byte
	synced     bool // by the way the file was opened
	start, end int  // lines of the record; a call that has not returned has no end
	ok         bool
}

const never = 1 << 60

var (
	traceRE   = regexp.MustCompile(`^(\d+) +(\w+)\((.*)$`)
	resumedRE = regexp.MustCompile(`^(\d+) +<\.\.\. (\w+) resumed>(.*)$`)
	retRE     = regexp.MustCompile(`\)\s+= (-?\d+|0x[0-9a-f]+)(?:<([^>]*)>)?`)
	fdRE      = regexp.MustCompile(`^(\d+)<([^>]*)>`)
)

func unhex(s string) string {
	if !strings.Contains(s, `\x`) {
		return s
	}
	b := make([]byte, 0, len(s)/4)
	for i := 0; i < len(s); {
		if s[i] == '\\' && i+3 < len(s) && s[i+1] == 'x' {
			n, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
			if err == nil {
				b = append(b, byte(n))
				i += 4
				continue
			}
		}
		b = append(b, s[i])
		i++
	}
	return string(b)
}

// parseTrace reads the record of a process. size is the length of a file before.
func parseTrace(r io29, dir string, size map[string]int64) ([]*diskEv, error) {
	type fdState struct {
		path   string
		pos    int64
		app    bool
		synced bool
	}
	fds := map[string]*fdState{}
	length := map[string]int64{}
	for k, v := range size {
		length[k] = v
	}
	inside := func(p string) (string, bool) {
		if p == dir {
			return ".", true
		}
		if strings.HasPrefix(p, dir+"/") {
			return p[len(dir)+1:], true
		}
		return "", false
	}
	var evs []*diskEv
	type pending struct {
		name, args string
		ev         *diskEv
		fd         string
	}
	open := map[string]*pending{}
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	line := 0
	finish := func(p *pending, rest string) error {
		m := retRE.FindStringSubmatch(rest)
		if m == nil {
			return nil // it never returned
		}
		ret, _ := strconv.ParseInt(m[1], 0, 64)
		switch p.name {
		case "openat":
			if ret < 0 {
				return nil
			}
			path := unhex(m[2])
			rel, ok := inside(path)
			delete(fds, m[1])
			if !ok {
				return nil
			}
			f := &fdState{path: rel, app: strings.Contains(p.args, "O_APPEND"), synced: strings.Contains(p.args, "O_SYNC") || strings.Contains(p.args, "O_DSYNC")}
			fds[m[1]] = f
			if strings.Contains(p.args, "O_TRUNC") {
				evs = append(evs, &diskEv{kind: "trunc", path: rel, start: line, end: line, ok: true})
				length[rel] = 0
			}
			if strings.Contains(p.args, "O_CREAT") {
				evs = append(evs, &diskEv{kind: "create", path: rel, start: line, end: line, ok: true})
			}
		case "lseek":
			if f := fds[p.fd]; f != nil && ret >= 0 {
				f.pos = ret
			}
		case "dup", "dup2", "dup3":
			if fds[p.fd] != nil {
				return fmt.Errorf("a storage file's descriptor is duplicated")
			}
		default:
			if p.ev != nil {
				p.ev.end = line
				p.ev.ok = ret >= 0
				if p.ev.kind == "write" && ret >= 0 && ret < int64(len(p.ev.data)) {
					p.ev.data = p.ev.data[:ret]
				}
			}
		}
		return nil
	}
	for sc.Scan() {
		line++
		l := sc.Text()
		if m := resumedRE.FindStringSubmatch(l); m != nil {
			p := open[m[1]]
			delete(open, m[1])
			if p != nil {
				if err := finish(p, "("+m[3]); err != nil {
					return nil, err
				}
			}
			continue
		}
		m := traceRE.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		p := &pending{name: m[2], args: m[3]}
		unfinished := strings.HasSuffix(m[3], "<unfinished ...>")
		var fd *fdState
		arg := m[3]
		fdNum := ""
		if fm := fdRE.FindStringSubmatch(arg); fm != nil {
			fdNum = fm[1]
			if rel, ok := inside(unhex(fm[2])); ok {
				fd = fds[fm[1]]
				if fd == nil || fd.path != rel && fds[fm[1]].path != rel {
					if fd == nil {
						fd = &fdState{path: rel}
						fds[fm[1]] = fd
					} else {
						fd.path = rel // renamed while open
					}
				}
			}
		}
		p.fd = fdNum
		ev := &diskEv{start: line, end: never}
		str := func(n int) string { // the n-th string argument
			parts := strings.Split(arg, `"`)
			if len(parts) < 2*n+2 {
				return ""
			}
			return unhex(parts[2*n+1])
		}
		abs := func(s string) (string, bool) {
			if !filepath.IsAbs(s) {
				return "", false
			}
			return inside(filepath.Clean(s))
		}
		switch p.name {
		case "write", "pwrite64":
			if fd == nil {
				if p.name == "write" && fdNum == "1" {
					ev.kind, ev.data, ev.ok = "say", []byte(str(0)), true
					break
				}
				ev = nil
				break
			}
			if strings.Contains(arg, `"...`) {
				return nil, fmt.Errorf("a write is too large for the record")
			}
			ev.kind, ev.path, ev.data, ev.synced = "write", fd.path, []byte(str(0)), fd.synced
			if p.name == "pwrite64" {
				f := strings.Split(strings.TrimSuffix(strings.Split(strings.TrimSuffix(arg, " <unfinished ...>"), ") ")[0], ")"), ", ")
				off, err := strconv.ParseInt(strings.TrimSpace(f[len(f)-1]), 0, 64)
				if err != nil {
					return nil, fmt.Errorf("can't read a line of the record: %s", trunc(l, 200))
				}
				ev.off = off
			} else {
				if fd.app {
					fd.pos = length[fd.path]
				}
				ev.off = fd.pos
				fd.pos += int64(len(ev.data))
			}
			if n := ev.off + int64(len(ev.data)); n > length[fd.path] {
				length[fd.path] = n
			}
		case "fsync", "fdatasync":
			if fd == nil {
				ev = nil
				break
			}
			ev.kind, ev.path = "sync", fd.path
		case "ftruncate":
			if fd == nil {
				ev = nil
				break
			}
			f := strings.Split(strings.Split(strings.TrimSuffix(arg, " <unfinished ...>"), ")")[0], ", ")
			n, err := strconv.ParseInt(f[len(f)-1], 0, 64)
			if err != nil {
				return nil, fmt.Errorf("can't read a line of the record: %s", trunc(l, 200))
			}
			ev.kind, ev.path, ev.off = "trunc", fd.path, n
			length[fd.path] = n
		case "unlinkat", "unlink":
			rel, ok := abs(str(0))
			if !ok {
				ev = nil
				break
			}
			ev.kind, ev.path = "unlink", rel
			delete(length, rel)
		case "mkdirat":
			rel, ok := abs(str(0))
			if !ok {
				ev = nil
				break
			}
			ev.kind, ev.path = "mkdir", rel
		case "rename", "renameat", "renameat2":
			a, ok1 := abs(str(0))
			b, ok2 := abs(str(1))
			if !ok1 || !ok2 {
				ev = nil
				break
			}
			ev.kind, ev.path, ev.to = "rename", a, b
			length[b] = length[a]
			delete(length, a)
			for _, f := range fds {
				if f.path == a {
					f.path = b
				}
			}
		case "mmap":
			if strings.Contains(arg, "PROT_WRITE") && strings.Contains(arg, "MAP_SHARED") && strings.Contains(arg, "<"+hexed(dir)) {
				return nil, fmt.Errorf("a storage file is mapped for writing")
			}
			ev = nil
		case "writev", "pwritev", "fallocate":
			if fd != nil {
				return nil, fmt.Errorf("system call %s isn't understood", p.name)
			}
			ev = nil
		default:
			ev = nil
		}
		p.ev = ev
		if ev != nil {
			evs = append(evs, ev)
		}
		if unfinished {
			open[m[1]] = p
		} else if err := finish(p, m[3]); err != nil {
			return nil, err
		}
	}
	if err := sc.Err(); err != nil {
		return nil, err
	}
	for _, e := range evs {
		if e.end == never {
			e.ok = true // may or may not have happened
		}
	}
	return evs, nil
}

func hexed(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&sb, `\x%02x`, s[i])
	}
	return sb.String()
}

type io29 interface{ Read(p []byte) (int, error) }

// copyTree copies a directory.
func copyTree(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0644)
	})
}

// diskAt builds the contents of the disk when the power fails just after line t of the record. It returns how many
// writes were at risk and how many of them are lost.
func diskAt(base, dir string, evs []*diskEv, t int, mode int, rng *rand.Rand) (risk, lost int, err error) {
	if err := copyTree(base, dir); err != nil {
		return 0, 0, err
	}
	// names of files change; give each file an identity
	type file struct{ writes, syncs []*diskEv }
	byPath := map[string]*file{}
	at := func(p string) *file {
		if byPath[p] == nil {
			byPath[p] = &file{}
		}
		return byPath[p]
	}
	owner := map[*diskEv]*file{}
	for _, e := range evs {
		if e.start > t || !e.ok {
			continue
		}
		switch e.kind {
		case "write":
			owner[e] = at(e.path)
		case "sync":
			f := at(e.path)
			f.syncs = append(f.syncs, e)
		case "rename":
			byPath[e.to] = at(e.path)
			delete(byPath, e.path)
		case "unlink":
			delete(byPath, e.path)
		}
	}
	cut := map[*file]bool{}
	for _, e := range evs {
		if e.start > t || !e.ok {
			continue
		}
		p := filepath.Join(dir, e.path)
		switch e.kind {
		case "create":
			os.MkdirAll(filepath.Dir(p), 0755)
			f, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY, 0644)
			if err != nil {
				return 0, 0, err
			}
			f.Close()
		case "mkdir":
			os.MkdirAll(p, 0755)
		case "unlink":
			os.Remove(p)
		case "rename":
			if err := os.Rename(p, filepath.Join(dir, e.to)); err != nil {
				return 0, 0, err
			}
		case "trunc":
			if err := os.Truncate(p, e.off); err != nil && !os.IsNotExist(err) {
				return 0, 0, err
			}
		case "write":
			fl, data := owner[e], e.data
			safe := e.synced && e.end <= t
			for _, s := range fl.syncs {
				safe = safe || s.start > e.end && s.end <= t
			}
			if !safe {
				risk++
				drop := false
				switch mode {
				case 0:
					drop = true
				case 1:
				case 2:
					drop = rng.Intn(2) == 0
				case 3:
					drop = cut[fl]
					if !drop && rng.Intn(4) == 0 {
						cut[fl] = true
						drop = true
						if n := (len(e.data) + 511) / 512; rng.Intn(2) == 0 && e.off != 0 { // the last one is torn
							data, drop = data[:512*rng.Intn(n)], false
							lost++
						}
					}
				}
				if drop {
					lost++
					continue
				}
			}
			os.MkdirAll(filepath.Dir(p), 0755)
			f, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY, 0644)
			if err != nil {
				return 0, 0, err
			}
			_, err = f.WriteAt(data, e.off)
			f.Close()
			if err != nil {
				return 0, 0, err
			}
		}
	}
	return risk, lost, nil
}

const c29calls = "openat,close,lseek,dup,dup2,dup3,write,pwrite64,writev,pwritev,fsync,fdatasync,ftruncate,fallocate,rename,renameat,renameat2,unlink,unlinkat,mkdirat,mmap"

// c29record runs a writer under the recorder.
func c29record(a c17arg, trace string) error {
	b, _ := json.Marshal(a)
	self, _ := os.Executable()
	cmd := exec.Command("strace", "-f", "-qq", "-y", "-xx", "-s", "4000000", "-o", trace, "-e", "trace="+c29calls, self, "-helper", "writer", "-harg", string(b))
	var stderr, stdout lockedBuf
	cmd.Stderr, cmd.Stdout = &stderr, &stdout
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	err := startCmd(cmd)
	if err == nil {
		err = cmd.Wait()
	}
	out := []byte(stdout.String())
	if !strings.HasSuffix(string(out), "D\n") {
		return fmt.Errorf("%v: %s %s", err, tail(out, 500), tail([]byte(stderr.String()), 1000))
	}
	return nil
}

func c29clone(objs []*c17state) []*c17state {
	var rv []*c17state
	for _, o := range objs {
		n := &c17state{object: &object{acc: o.acc, name: o.name, isMap: o.isMap, n: o.n}, next: o.next, heads: map[string][]byte{}}
		n.log = *o.log.clone()
		n.m = *o.m.clone()
		for k, v := range o.heads {
			n.heads[k] = v
		}
		rv = append(rv, n)
	}
	return rv
}

func c29dir(r *R, round int, kind string, nObj, count, gens, moments int) {
	rng := r.Rand(fmt.Sprint("dir", round))
	seed := rng.Int63n(1<<30)*2 + int64(round%2)
	base := r.Dir()
	defer os.RemoveAll(base)
	var objs []*c17state
	for i := 0; i < nObj; i++ {
		objs = append(objs, &c17state{object: c17obj(i), heads: map[string][]byte{}})
	}
	for gen := 0; gen < gens; gen++ {
		work := r.Dir()
		if err := copyTree(base, work); err != nil {
			panic(err)
		}
		size := map[string]int64{}
		filepath.WalkDir(work, func(p string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				if st, err := d.Info(); err == nil {
					rel, _ := filepath.Rel(work, p)
					size[rel] = st.Size()
				}
			}
			return nil
		})
		a := c17arg{Kind: kind, Dir: work, Seed: seed, Count: count}
		for _, o := range objs {
			a.From = append(a.From, o.next)
		}
		trace := filepath.Join(r.Dir(), "trace")
		what := fmt.Sprintf("%s storage, round %d, generation %d", kind, round, gen)
		if err := c29record(a, trace); err != nil {
			r.Failf("%s: the writer ends by itself: %v", what, err)
			return
		}
		f, err := os.Open(trace)
		if err != nil {
			panic(err)
		}
		evs, err := parseTrace(f, work, size)
		f.Close()
		os.RemoveAll(filepath.Dir(trace))
		if err != nil {
			r.Inconclusive("%s: %v", what, err)
			return
		}
		if gen == 0 && round < 6 { // is the record right? What it says must be what is there
			chk := r.Dir()
			_, _, err := diskAt(base, chk, evs, never, 1, rng)
			if d := sameTree(chk, work); err != nil || d != "" {
				r.Inconclusive("%s: the record of system calls doesn't explain the files: %v %s", what, err, d)
				return
			}
			r.Saw("record-explains-files")
			os.RemoveAll(chk)
		}
		os.RemoveAll(work)
		// moments: after each sync, acknowledgement and write
		var ts []int
		last := 0
		for _, e := range evs {
			switch e.kind {
			case "say", "sync", "write":
				ts = append(ts, e.start)
				if e.end != never {
					ts = append(ts, e.end)
				}
				r.Saw(e.kind)
			}
			if e.end != never && e.end > last {
				last = e.end
			}
		}
		sort.Ints(ts)
		if len(ts) == 0 {
			r.Inconclusive("%s: nothing was recorded", what)
			return
		}
		var next string
		var nextObjs []*c17state
		for k := 0; k < moments; k++ {
			t := ts[rng.Intn(len(ts))]
			if k == 0 {
				t = last
			}
			if k%3 == 1 { // just when something is acknowledged
				var acks []int
				for _, e := range evs {
					if e.kind == "say" && len(e.data) > 0 && (e.data[0] == 'A' || e.data[0] == 'H') {
						acks = append(acks, e.start)
					}
				}
				t = acks[rng.Intn(len(acks))]
			}
			mode := []int{0, 2, 0, 3, 2, 1}[k%6]
			disk := r.Dir()
			risk, lost, err := diskAt(base, disk, evs, t, mode, rng)
			if err != nil {
				r.Inconclusive("%s: %v", what, err)
				return
			}
			wh := fmt.Sprintf("%s, power fails at line %d of %d, %d writes of %d that weren't synced are lost", what, t, last, lost, risk)
			r.Case("power-failure", "%s", wh)
			if risk > 0 {
				r.Saw("with-writes-at-risk")
			}
			if lost > 0 {
				r.Saw("with-lost-writes")
			}
			var sb strings.Builder
			for _, e := range evs {
				if e.kind == "say" && e.start <= t {
					sb.Write(e.data)
				}
			}
			st := c29clone(objs)
			flight, ok := c17feed(r, wh, sb.String(), st, seed)
			if !ok {
				return
			}
			ok = func() (ok bool) {
				defer func() {
					if e := recover(); e != nil {
						if e == errStop {
							panic(e)
						}
						r.Failf("%s: panic on opening: %v", wh, e)
					}
				}()
				s, done := openStore(kind, disk)
				defer done()
				return c17judge(r, wh, newService(s, nil, nil), st, flight, seed, rng)
			}()
			if !ok {
				return
			}
			if next == "" || lost > 0 && rng.Intn(3) == 0 {
				os.RemoveAll(next)
				next, nextObjs = disk, st
			} else {
				os.RemoveAll(disk)
			}
		}
		os.RemoveAll(base)
		base, objs = next, nextObjs
	}
	os.RemoveAll(base)
}

// sameTree tells a difference between the files of two directories.
func sameTree(a, b string) string {
	list := func(d string) map[string]string {
		rv := map[string]string{}
		filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
			if err == nil && e.Type().IsRegular() {
				x, _ := os.ReadFile(p)
				rel, _ := filepath.Rel(d, p)
				rv[rel] = string(x)
			}
			return nil
		})
		return rv
	}
	x, y := list(a), list(b)
	for k, v := range x {
		w, ok := y[k]
		if !ok {
			return k + " isn't there"
		}
		if v != w {
			return fmt.Sprintf("%s differs (lengths %d and %d)", k, len(v), len(w))
		}
	}
	for k := range y {
		if _, ok := x[k]; !ok {
			return k + " isn't in the record"
		}
	}
	return ""
}

func c29(r *R) {
	// can processes be traced here at all?
	if out, err := exec.Command("strace", "-f", "-o", "/dev/null", "true").CombinedOutput(); err != nil {
		r.Inconclusive("strace does not work: %v %s", err, out)
		return
	}
	r.Par(r.N(18, 120), func(i int) {
		kind := []string{"bolt", "bolt", "badger"}[i%3]
		c29dir(r, i, kind, 1+rand.New(rand.NewSource(int64(i))).Intn(3), 6+i%5, 3, r.N(12, 40))
	})
}
