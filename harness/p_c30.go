package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"vharness/spec"

	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

//go:embed js/page.js
var jsPage []byte

func init() {
	props["C30"] = &property{level: "exploration", run: c30,
		rule:        "The explorer page that the REST server serves is run under node in a stand-in for a browser (DOM, jQuery, 2d canvas) which presses its buttons and records what is shown and drawn. Every text shown is compared with the models of the logs and maps behind a real REST server; every diagram is read back from its boxes, labels and lines: boxes must be exactly the tree's nodes with the model's hashes, each line must join two children to the parent they hash to, and the colours must say what the page explains, whatever is added to the log between the page's requests. With servers that answer falsely a box in the colour of a matching root must hold the root that was served. A case is an operation on the page.",
		assumptions: []string{"the stand-in behaves as browsers and jQuery do where the page relies on it; what it lacks makes an operation inconclusive", "mutation logs with JSON values aren't drawn from JSON, as their leaf hashes can't be had from it", "logs that grow between the page's requests aren't empty before"}}
}

// ---- the page

type pgAnswer struct {
	Missing     *string    `json:"missing"`
	Thrown      []string   `json:"thrown"`
	Unsupported []string   `json:"unsupported"`
	Shown       bool       `json:"shown"`
	Error       bool       `json:"error"`
	Lines       []string   `json:"lines"`
	Canvases    []pgCanvas `json:"canvases"`
	Requests    int        `json:"requests"`
	Statuses    []int      `json:"statuses"`
	Selected    string     `json:"selected"`
}

func (a *pgAnswer) text() string { return strings.Join(a.Lines, " | ") }

type pgCanvas struct {
	W   float64 `json:"w"`
	H   float64 `json:"h"`
	CW  string  `json:"cw"`
	CH  string  `json:"ch"`
	Ops []pgOp  `json:"ops"`
}

type pgOp struct {
	K    string  `json:"k"`
	X    float64 `json:"x"`
	Y    float64 `json:"y"`
	W    float64 `json:"w"`
	H    float64 `json:"h"`
	C    string  `json:"c"`
	S    string  `json:"s"`
	Dash bool    `json:"dash"`
}

const (
	pgGreen  = "#48c9b0"
	pgSalmon = "#f08080"
	pgKhaki  = "#bdb76b"
	pgViolet = "#8a2be2"
)

type pgStep map[string]interface{}

func pgID(id string) pgStep         { return pgStep{"id": id} }
func pgType(id, text string) pgStep { return pgStep{"id": id, "type": text} }
func pgA(label string) pgStep       { return pgStep{"tag": "a", "label": label} }

// pageUser is a person with the page.
type pageUser struct {
	r     *R
	n     *jsNode
	what  string
	loose bool // the server may lie: what is thrown is no concern
}

func (s *pageUser) ask(q jm) *pgAnswer {
	b, err := json.Marshal(q)
	if err != nil {
		panic(err)
	}
	line := s.n.askLine(s.r, s.what, b)
	if line == nil {
		return nil
	}
	a := &pgAnswer{}
	if err := json.Unmarshal(line, a); err != nil {
		panic(fmt.Sprintf("%v: %s", err, trunc(string(line), 300)))
	}
	if len(a.Unsupported) > 0 {
		s.r.Saw("unsupported")
		s.r.Inconclusive("%s: the page uses %v, which isn't there", s.what, a.Unsupported)
		return nil
	}
	return a
}

func (s *pageUser) open(url string, ratio float64) bool {
	a := s.ask(jm{"op": "open", "url": url, "ratio": ratio})
	if a == nil {
		return false
	}
	if a.Missing != nil || len(a.Thrown) > 0 {
		s.r.Failf("%s: opening the page: %v %v", s.what, pgStr(a.Missing), a.Thrown)
		return false
	}
	s.r.Saw("page-opened")
	return true
}

func pgStr(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

// do takes steps on the page. Nil if there is nothing to judge.
func (s *pageUser) do(say, result string, steps ...pgStep) *pgAnswer {
	q := jm{"op": "act", "steps": steps}
	if say != "" {
		q["say"] = say
	}
	if result != "" {
		q["result"] = result
	}
	a := s.ask(q)
	if a == nil {
		return nil
	}
	d, _ := json.Marshal(steps)
	if a.Missing != nil {
		if strings.HasPrefix(*a.Missing, "not shown") {
			s.r.Failf("%s: %s: %s", s.what, trunc(string(d), 600), *a.Missing)
		} else {
			s.r.Saw("unsupported")
			s.r.Inconclusive("%s: the page has %s", s.what, *a.Missing)
		}
		return nil
	}
	if len(a.Thrown) > 0 && !s.loose {
		s.r.Failf("%s: %s: the page fails with %v", s.what, trunc(string(d), 600), a.Thrown)
		return nil
	}
	if t := strings.TrimSpace(a.text()); !s.loose && pgWaiting.MatchString(t) {
		s.r.Failf("%s: %s: all requests are answered, and the page still shows %q (error %v)", s.what, trunc(string(d), 600), t, a.Error)
		return nil
	}
	s.r.Case("operation", "%s: %s", s.what, trunc(string(d), 300))
	return a
}

// pgWaiting are the texts shown while a request is under way.
var pgWaiting = regexp.MustCompile(`^[A-Za-z]+ing\.\.\.$`)

// ---- reading drawings

type pgBox struct {
	x, y, w, h float64
	fill       string
	framed     bool
	texts      []string
	hash       []byte
	label      []int64 // entry numbers, if it says what it is the hash of
	other      string
}

func (b *pgBox) cx() float64 { return b.x + b.w/2 }
func (b *pgBox) cy() float64 { return b.y + b.h/2 }
func (b *pgBox) has(x, y float64) bool {
	const e = 1
	return x >= b.x-e && x <= b.x+b.w+e && y >= b.y-e && y <= b.y+b.h+e
}
func (b *pgBox) String() string { return fmt.Sprintf("%q", b.texts) }

type pgSeg struct{ x1, y1, x2, y2 float64 }

type pgDrawing struct {
	boxes []*pgBox
	segs  []pgSeg
	line  []pgSeg // dashed
	loose []string
}

var pgEntry = regexp.MustCompile(`entr(y|ies)\b`)
var pgNumber = regexp.MustCompile(`\d+`)

// pgRead makes out boxes and lines. A string says why that's impossible.
func pgRead(c pgCanvas, ratio float64) (*pgDrawing, string) {
	d := &pgDrawing{}
	same := func(b *pgBox, o pgOp) bool {
		return math.Abs(b.x-o.X) < 0.5 && math.Abs(b.y-o.Y) < 0.5 && math.Abs(b.w-o.W) < 0.5 && math.Abs(b.h-o.H) < 0.5
	}
	find := func(o pgOp) *pgBox {
		for i := len(d.boxes) - 1; i >= 0 && i >= len(d.boxes)-3; i-- {
			if same(d.boxes[i], o) {
				return d.boxes[i]
			}
		}
		return nil
	}
	if c.W <= 0 || c.H <= 0 {
		return nil, fmt.Sprintf("canvas of %v x %v", c.W, c.H)
	}
	const e = 1.01
	in := func(x, y float64) bool { return x >= -e && y >= -e && x <= c.W+e && y <= c.H+e }
	for _, o := range c.Ops {
		switch o.K {
		case "fill", "stroke":
			if o.K == "fill" && o.X <= 0 && o.Y <= 0 && o.X+o.W >= c.W && o.Y+o.H >= c.H {
				continue // background
			}
			if !in(o.X, o.Y) || !in(o.X+o.W, o.Y+o.H) {
				return nil, fmt.Sprintf("a box at %v,%v %vx%v isn't in the canvas of %v x %v", o.X, o.Y, o.W, o.H, c.W, c.H)
			}
			b := find(o)
			if b == nil {
				b = &pgBox{x: o.X, y: o.Y, w: o.W, h: o.H}
				d.boxes = append(d.boxes, b)
			}
			if o.K == "fill" {
				b.fill = o.C
			} else {
				b.framed = true
			}
		case "text":
			if !in(o.X, o.Y) {
				return nil, fmt.Sprintf("text %q at %v,%v isn't in the canvas of %v x %v", o.S, o.X, o.Y, c.W, c.H)
			}
			var at *pgBox
			for _, b := range d.boxes {
				if b.has(o.X, o.Y) && (at == nil || b.w*b.h < at.w*at.h) {
					at = b
				}
			}
			if at == nil {
				d.loose = append(d.loose, o.S)
			} else {
				if o.C == at.fill {
					return nil, fmt.Sprintf("text %q has the colour of its box", o.S)
				}
				at.texts = append(at.texts, o.S)
			}
		case "line":
			if !in(o.X, o.Y) || !in(o.W, o.H) {
				return nil, fmt.Sprintf("a line from %v,%v to %v,%v isn't in the canvas of %v x %v", o.X, o.Y, o.W, o.H, c.W, c.H)
			}
			if o.Dash {
				d.line = append(d.line, pgSeg{o.X, o.Y, o.W, o.H})
			} else if o.X != o.W || o.Y != o.H {
				d.segs = append(d.segs, pgSeg{o.X, o.Y, o.W, o.H})
			}
		case "clear":
			return nil, "" // not understood
		}
	}
	for i, b := range d.boxes {
		for _, o := range d.boxes[:i] {
			if b.x < o.x+o.w-1 && o.x < b.x+b.w-1 && b.y < o.y+o.h-1 && o.y < b.y+b.h-1 {
				return nil, fmt.Sprintf("boxes %v and %v overlap", o, b)
			}
		}
		for _, t := range b.texts {
			if h, err := base64.StdEncoding.DecodeString(t); err == nil && len(h) == 32 && b.hash == nil {
				b.hash = h
			} else if pgEntry.MatchString(t) && b.label == nil {
				b.label = []int64{}
				for _, x := range pgNumber.FindAllString(t, -1) {
					v, _ := strconv.ParseInt(x, 10, 64)
					b.label = append(b.label, v)
				}
			} else {
				b.other = t
			}
		}
	}
	return d, ""
}

func (g pgSeg) near(x, y float64) bool {
	dx, dy := g.x2-g.x1, g.y2-g.y1
	t := ((x-g.x1)*dx + (y-g.y1)*dy) / (dx*dx + dy*dy)
	t = math.Max(0, math.Min(1, t))
	return math.Hypot(g.x1+t*dx-x, g.y1+t*dy-y) < 1
}

// pgJoin is a parent and the children it's joined to, from left to right.
type pgJoin struct {
	parent *pgBox
	kids   []*pgBox
}

// joins groups the lines, and says which boxes each group touches. base is the height of the line that drawings grow away from.
func (d *pgDrawing) joins(base float64) ([]pgJoin, string) {
	up := make([]int, len(d.segs))
	for i := range up {
		up[i] = i
	}
	var root func(i int) int
	root = func(i int) int {
		if up[i] != i {
			up[i] = root(up[i])
		}
		return up[i]
	}
	for i, a := range d.segs {
		for j, b := range d.segs[:i] {
			if a.near(b.x1, b.y1) || a.near(b.x2, b.y2) || b.near(a.x1, a.y1) || b.near(a.x2, a.y2) {
				up[root(i)] = root(j)
			}
		}
	}
	touched := map[int]map[*pgBox]bool{}
	for i, a := range d.segs {
		c := root(i)
		if touched[c] == nil {
			touched[c] = map[*pgBox]bool{}
		}
		for _, b := range d.boxes {
			if b.has(a.x1, a.y1) || b.has(a.x2, a.y2) {
				touched[c][b] = true
			}
		}
	}
	var rv []pgJoin
	for _, t := range touched {
		var bs []*pgBox
		for b := range t {
			bs = append(bs, b)
		}
		if len(bs) != 3 {
			return nil, fmt.Sprintf("lines join %d boxes: %v", len(bs), bs)
		}
		sort.Slice(bs, func(i, j int) bool { return math.Abs(bs[i].cy()-base) > math.Abs(bs[j].cy()-base) })
		if math.Abs(math.Abs(bs[0].cy()-base)-math.Abs(bs[1].cy()-base)) < 1 {
			return nil, fmt.Sprintf("lines join boxes of which none is the parent: %v", bs)
		}
		j := pgJoin{parent: bs[0], kids: bs[1:]}
		if j.kids[0].cx() > j.kids[1].cx() {
			j.kids[0], j.kids[1] = j.kids[1], j.kids[0]
		}
		rv = append(rv, j)
	}
	sort.Slice(rv, func(i, j int) bool { return math.Abs(rv[i].parent.cy()-base) < math.Abs(rv[j].parent.cy()-base) })
	return rv, ""
}

type pgRange struct {
	a, b int64
	hash []byte
}

func pgPath(m, a, b int64) []pgRange {
	if b-a <= 1 {
		return nil
	}
	k := spec.SplitPoint(b - a)
	if m < k {
		return append(pgPath(m, a, a+k), pgRange{a: a + k, b: b})
	}
	return append(pgPath(m-k, a+k, b), pgRange{a: a, b: a + k})
}

func pgSub(m, a, b int64, whole bool) []pgRange {
	n := b - a
	if m == n {
		if whole {
			return nil
		}
		return []pgRange{{a: a, b: b}}
	}
	k := spec.SplitPoint(n)
	if m <= k {
		return append(pgSub(m, a, a+k, whole), pgRange{a: a + k, b: b})
	}
	return append(pgSub(m-k, a+k, b, false), pgRange{a: a, b: a + k})
}

// leaves checks the labelled boxes, and gives them from left to right.
func (d *pgDrawing) leaves(want []pgRange) ([]*pgBox, string) {
	sort.Slice(want, func(i, j int) bool { return want[i].a < want[j].a })
	var bs []*pgBox
	for _, b := range d.boxes {
		if b.label != nil {
			bs = append(bs, b)
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].cx() < bs[j].cx() })
	if len(bs) != len(want) {
		return nil, fmt.Sprintf("%d boxes are said to be of entries, not %d: %v", len(bs), len(want), bs)
	}
	for i, b := range bs {
		w := want[i]
		ok := len(b.label) > 0 && b.label[0] == w.a && b.label[len(b.label)-1] == w.b-1 && len(b.label) <= 2
		if len(b.label) == 2 && w.b == w.a+1 {
			ok = false
		}
		if !ok || !bytes.Equal(b.hash, w.hash) {
			return nil, fmt.Sprintf("box %d from the left is %v, not the hash %s of entries %d to %d", i, b, jb(w.hash), w.a, w.b-1)
		}
		if math.Abs(b.cy()-bs[0].cy()) > 1 {
			return nil, fmt.Sprintf("boxes %v and %v aren't at the same height", bs[0], b)
		}
	}
	return bs, ""
}

// build checks that the lines make each other box of two, and gives those that nothing is made of.
func (d *pgDrawing) build(leaves []*pgBox) (map[*pgBox]pgJoin, map[*pgBox]bool, string) {
	js, why := d.joins(leaves[0].cy())
	if why != "" {
		return nil, nil, why
	}
	by := map[*pgBox]pgJoin{}
	top := map[*pgBox]bool{}
	for _, b := range d.boxes {
		if b.hash == nil {
			return nil, nil, fmt.Sprintf("box %v has no hash", b)
		}
		if !b.framed {
			return nil, nil, fmt.Sprintf("box %v has no frame", b)
		}
		top[b] = true
	}
	for _, j := range js {
		if j.parent.label != nil {
			return nil, nil, fmt.Sprintf("%v is drawn as made of %v", j.parent, j.kids)
		}
		if _, dup := by[j.parent]; dup {
			return nil, nil, fmt.Sprintf("%v is drawn as made of more than two", j.parent)
		}
		by[j.parent] = j
		if !bytes.Equal(j.parent.hash, spec.NodeHash(j.kids[0].hash, j.kids[1].hash)) {
			return nil, nil, fmt.Sprintf("%v isn't the hash of %v", j.parent, j.kids)
		}
		for _, k := range j.kids {
			delete(top, k)
		}
	}
	for _, b := range d.boxes {
		if _, ok := by[b]; !ok && b.label == nil {
			return nil, nil, fmt.Sprintf("%v is made of nothing", b)
		}
	}
	return by, top, ""
}

func pgWantFill(b *pgBox, want string) string {
	if b.fill != want {
		return fmt.Sprintf("box %v has colour %s, not %s", b, b.fill, want)
	}
	return ""
}

func pgCkInclusion(d *pgDrawing, i, n int64, leaf []byte, path [][]byte, root []byte) string {
	want := pgPath(i, 0, n)
	for k := range want {
		want[k].hash = path[k]
	}
	want = append(want, pgRange{i, i + 1, leaf})
	bs, why := d.leaves(want)
	if why != "" {
		return why
	}
	by, top, why := d.build(bs)
	if why != "" {
		return why
	}
	if len(top) != 1 {
		return fmt.Sprintf("%d boxes that nothing is made of", len(top))
	}
	for b := range top {
		if !bytes.Equal(b.hash, root) {
			return fmt.Sprintf("the drawing leads to %v, not the root %s", b, jb(root))
		}
	}
	if len(by) != len(path) {
		return fmt.Sprintf("%d hashes are calculated from a path of %d", len(by), len(path))
	}
	for _, b := range d.boxes {
		c := pgKhaki
		switch {
		case b.label != nil && b.label[0] == i && len(b.label) == 1:
			c = pgGreen
		case b.label != nil:
			c = pgSalmon
		case top[b]:
			c = pgViolet
		}
		if why := pgWantFill(b, c); why != "" {
			return why
		}
		if b.label == nil && b.cy() > bs[0].cy() {
			return fmt.Sprintf("%v is below the line", b)
		}
	}
	return ""
}

func pgCkConsistency(d *pgDrawing, a, n int64, path [][]byte, first, second []byte) string {
	want := pgSub(a, 0, n, true)
	for k := range want {
		want[k].hash = path[k]
	}
	pow2 := a&(a-1) == 0
	if pow2 {
		want = append(want, pgRange{0, a, first})
	}
	bs, why := d.leaves(want)
	if why != "" {
		return why
	}
	_, top, why := d.build(bs)
	if why != "" {
		return why
	}
	line := bs[0].cy()
	var above, below []*pgBox
	for b := range top {
		switch {
		case b.label != nil:
			return fmt.Sprintf("nothing is made of %v", b)
		case b.cy() < line:
			above = append(above, b)
		default:
			below = append(below, b)
		}
	}
	if len(above) != 1 || !bytes.Equal(above[0].hash, second) {
		return fmt.Sprintf("above the line the drawing leads to %v, not the second root %s", above, jb(second))
	}
	if pow2 && len(below) != 0 {
		return fmt.Sprintf("below the line the drawing leads to %v", below)
	}
	if !pow2 && (len(below) != 1 || !bytes.Equal(below[0].hash, first)) {
		return fmt.Sprintf("below the line the drawing leads to %v, not the first root %s", below, jb(first))
	}
	for _, b := range d.boxes {
		c := pgKhaki
		switch {
		case b.label != nil && pow2 && b == bs[0]:
			c = pgViolet
		case b.label != nil:
			c = pgSalmon
		case top[b]:
			c = pgViolet
		}
		if why := pgWantFill(b, c); why != "" {
			return why
		}
	}
	return ""
}

func pgCkTree(d *pgDrawing, t *spec.Tree, n int) string {
	var want []pgRange
	for i := 0; i < n; i++ {
		want = append(want, pgRange{int64(i), int64(i + 1), t.Leaves[i]})
	}
	bs, why := d.leaves(want)
	if why != "" {
		return why
	}
	by, top, why := d.build(bs)
	if why != "" {
		return why
	}
	if len(top) != 1 || len(by) != n-1 {
		return fmt.Sprintf("%d nodes and %d roots are drawn for %d entries", len(by), len(top), n)
	}
	for b := range top {
		if !bytes.Equal(b.hash, t.Root(n)) {
			return fmt.Sprintf("the drawing leads to %v, not the root %s", b, jb(t.Root(n)))
		}
	}
	var rng func(b *pgBox) (int64, int64, string)
	rng = func(b *pgBox) (int64, int64, string) {
		if b.label != nil {
			return b.label[0], b.label[0] + 1, pgWantFill(b, pgGreen)
		}
		j := by[b]
		a1, b1, why1 := rng(j.kids[0])
		a2, b2, why2 := rng(j.kids[1])
		if why1+why2 != "" {
			return 0, 0, why1 + why2
		}
		if b1 != a2 || b1-a1 != spec.SplitPoint(b2-a1) {
			return 0, 0, fmt.Sprintf("%v is drawn as made of entries %d to %d and %d to %d", b, a1, b1-1, a2, b2-1)
		}
		if b.cy() > bs[0].cy() {
			return 0, 0, fmt.Sprintf("%v is below the line", b)
		}
		return a1, b2, pgWantFill(b, pgKhaki)
	}
	for b := range top {
		if _, _, why := rng(b); why != "" {
			return why
		}
	}
	return ""
}

func pgCkMap(d *pgDrawing, key []byte, leaf []byte, sib [][]byte, root []byte) string {
	kp := spec.PathOf(key)
	var mid, side []*pgBox
	// the widest column of boxes is the path
	cols := map[int64][]*pgBox{}
	for _, b := range d.boxes {
		cols[int64(math.Round(b.cx()/10))] = append(cols[int64(math.Round(b.cx()/10))], b)
	}
	var xs []int64
	for x := range cols {
		xs = append(xs, x)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
	var at int64
	for _, x := range xs {
		for _, b := range cols[x] {
			if b.fill == pgGreen {
				at = x
				mid = cols[x]
			}
		}
	}
	for _, x := range xs {
		if x != at {
			side = append(side, cols[x]...)
		}
	}
	if mid == nil {
		return "no box in the colour of the leaf"
	}
	sort.Slice(mid, func(i, j int) bool { return mid[i].cy() > mid[j].cy() })
	sort.Slice(side, func(i, j int) bool { return side[i].cy() > side[j].cy() })
	cur := leaf
	if !bytes.Equal(mid[0].hash, leaf) || mid[0].fill != pgGreen {
		return fmt.Sprintf("the lowest box is %v, not the leaf hash %s", mid[0], jb(leaf))
	}
	at_ := func(b *pgBox) bool { return len(side) > 0 && math.Abs(side[0].cy()-b.cy()) < b.h }
	// joined says whether lines lead from one point to another
	joined := func(from, to *pgBox) bool {
		group := map[int]bool{}
		for i, g := range d.segs {
			if from.has(g.x1, g.y1) || from.has(g.x2, g.y2) {
				group[i] = true
			}
		}
		for more := true; more; {
			more = false
			for i, g := range d.segs {
				if group[i] {
					continue
				}
				for j := range group {
					o := d.segs[j]
					if o.near(g.x1, g.y1) || o.near(g.x2, g.y2) || g.near(o.x1, o.y1) || g.near(o.x2, o.y2) {
						group[i], more = true, true
						break
					}
				}
			}
		}
		for i := range group {
			if to.has(d.segs[i].x1, d.segs[i].y1) || to.has(d.segs[i].x2, d.segs[i].y2) || d.segs[i].near(to.cx(), to.cy()) {
				return true
			}
		}
		return false
	}
	depth := 256
	up := func() {
		depth--
		s := sib[depth]
		if s == nil {
			s = spec.Defaults[depth+1]
		}
		if kp.Bit(depth) {
			cur = spec.NodeHash(s, cur)
		} else {
			cur = spec.NodeHash(cur, s)
		}
	}
	for i := 1; i < len(mid); i++ {
		b := mid[i]
		if depth == 0 {
			return fmt.Sprintf("%v is above the root", b)
		}
		if b.hash == nil {
			// levels left out
			m := pgNumber.FindString(b.other)
			k, _ := strconv.Atoi(m)
			if k < 1 || k > depth || !strings.Contains(b.other, "default") {
				return fmt.Sprintf("at depth %d there is a box %v", depth, b)
			}
			if at_(mid[i-1]) || at_(b) {
				return fmt.Sprintf("a sibling %v is drawn where levels are left out", side[0])
			}
			for ; k > 0; k-- {
				if sib[depth-1] != nil {
					return fmt.Sprintf("%v includes depth %d, where the sibling is %s", b, depth-1, jb(sib[depth-1]))
				}
				up()
			}
			i++
			if i == len(mid) {
				return "nothing is drawn above the levels left out"
			}
			b = mid[i]
		} else {
			if !at_(mid[i-1]) {
				return fmt.Sprintf("no sibling is drawn at depth %d", depth)
			}
			s := side[0]
			side = side[1:]
			left := s.cx() < b.cx()
			if left != kp.Bit(depth-1) {
				return fmt.Sprintf("the sibling at depth %d is drawn on the wrong side", depth)
			}
			want, c := sib[depth-1], pgSalmon
			if want == nil {
				want, c = spec.Defaults[depth], pgKhaki
			}
			if !bytes.Equal(s.hash, want) {
				return fmt.Sprintf("the sibling at depth %d is %v, not %s", depth, s, jb(want))
			}
			if why := pgWantFill(s, c); why != "" {
				return why
			}
			if !s.framed || !joined(s, b) {
				return fmt.Sprintf("the sibling %v at depth %d isn't joined to %v", s, depth, b)
			}
			up()
		}
		if !bytes.Equal(b.hash, cur) {
			return fmt.Sprintf("the hash at depth %d is %v, not %s", depth, b, jb(cur))
		}
		c := pgKhaki
		if depth == 0 {
			c = pgViolet
		}
		if why := pgWantFill(b, c); why != "" {
			return why
		}
		if !b.framed {
			return fmt.Sprintf("box %v has no frame", b)
		}
	}
	if len(side) > 0 {
		return fmt.Sprintf("siblings of nothing: %v", side)
	}
	if depth != 0 {
		return fmt.Sprintf("the drawing ends at depth %d", depth)
	}
	if !bytes.Equal(cur, root) {
		return fmt.Sprintf("the model is wrong: %x %x", cur, root)
	}
	return ""
}

// drawing gets the one drawing of an answer.
func (s *pageUser) drawing(d string, a *pgAnswer, ratio float64) *pgDrawing {
	if a.Error || len(a.Canvases) != 1 || !a.Shown {
		s.r.Failf("%s: %s: shows %q (error %v) and %d drawings, not one", s.what, d, a.text(), a.Error, len(a.Canvases))
		return nil
	}
	dr, why := pgRead(a.Canvases[0], ratio)
	if why != "" {
		s.r.Failf("%s: %s: %s", s.what, d, why)
		return nil
	}
	if dr == nil {
		s.r.Saw("unsupported")
		s.r.Inconclusive("%s: %s: the drawing isn't understood", s.what, d)
		return nil
	}
	s.r.Saw("drawing")
	s.r.SawN("boxes", int64(len(dr.boxes)))
	return dr
}

func (s *pageUser) judged(d, why string) bool {
	if why != "" {
		s.r.Failf("%s: %s: the drawing is wrong: %s", s.what, d, why)
		return false
	}
	return true
}

// refused is an answer that reports an error and draws nothing.
func (s *pageUser) refused(d string, a *pgAnswer) bool {
	if !a.Error || len(a.Canvases) > 0 || strings.TrimSpace(a.text()) == "" {
		s.r.Failf("%s: %s: shows %q (error %v) and %d drawings, not an error", s.what, d, a.text(), a.Error, len(a.Canvases))
		return false
	}
	s.r.Saw("refused")
	return true
}

// says is an answer with texts in it and no error.
func (s *pageUser) says(d string, a *pgAnswer, want ...string) bool {
	if a.Error || len(a.Canvases) > 0 || !a.Shown {
		s.r.Failf("%s: %s: shows %q (error %v) and %d drawings", s.what, d, a.text(), a.Error, len(a.Canvases))
		return false
	}
	for _, w := range want {
		ok := strings.Contains(a.text(), w)
		if _, err := strconv.Atoi(w); err == nil {
			ok = false
			for _, x := range regexp.MustCompile(`[0-9A-Za-z+/=]+`).FindAllString(a.text(), -1) {
				ok = ok || x == w
			}
		}
		if !ok {
			s.r.Failf("%s: %s: shows %q, in which there is no %q", s.what, d, a.text(), w)
			return false
		}
	}
	return true
}

var pgHash = regexp.MustCompile(`[A-Za-z0-9+/]{43}=`)

// ---- what is typed

func pgDisplay(data []byte, isText bool) string {
	if isText {
		return string(data)
	}
	for _, c := range data {
		if c != 9 && c != 10 && c != 13 && (c < 32 || c > 126) {
			return jb(data)
		}
	}
	return string(data)
}

func pgText(rng *rand.Rand, i int) string {
	return []string{fmt.Sprint("entry ", i), fmt.Sprint("line one\nline two\t", i), fmt.Sprint("Grüße ", i), fmt.Sprint("日本語 – 😀 ", i), fmt.Sprint("<b>&amp; \"", i), fmt.Sprint(i), strings.Repeat(fmt.Sprint("long ", i, " "), 60), fmt.Sprint("Ω≈ç√∫ ÿ ", i)}[rng.Intn(8)]
}

func pgJSON(rng *rand.Rand, i int) string {
	return []string{
		fmt.Sprintf(`{"id": %d}`, i), fmt.Sprintf(`[%d, "x", null, true, 1.5]`, i), fmt.Sprintf(`{"name": "Zoë %d", "n": {"a": [], "b": "日本"}}`, i), fmt.Sprintf(`"text %d"`, i), fmt.Sprintf(`{"é": "\u00e9 %d", "z": -2.25}`, i), fmt.Sprintf(`{"esc": "\ud83d\ude00 <&> %d"}`, i),
	}[rng.Intn(6)]
}

func pgNum(rng *rand.Rand, n int, head bool) string {
	if head {
		return []string{"head", "HEAD", "Head", "0", "head"}[rng.Intn(5)]
	}
	return []string{fmt.Sprint(n), fmt.Sprint(" ", n, " "), fmt.Sprint("0", n), fmt.Sprint(n, ".0")}[rng.Intn(8)/4*rng.Intn(4)]
}

var pgBad = []string{"x", "1O", "heads", "5,", "1 2", "-", "NaN"}

// ---- sessions

type pageWorld struct {
	*pageUser
	rng   *rand.Rand
	svc   Svc
	acc   *pb.AccountRef
	ratio float64

	mu    sync.Mutex
	grow  func() // called after heads are served
	heads []proto.Message
	on    bool
}

func (p *pageWorld) tweak(m string, req, resp proto.Message, err error) (proto.Message, error) {
	if err != nil || !p.on {
		return resp, err
	}
	switch resp.(type) {
	case *pb.LogTreeHashResponse, *pb.MapTreeHashResponse:
		p.mu.Lock()
		p.heads = append(p.heads, proto.Clone(resp))
		g := p.grow
		p.mu.Unlock()
		if g != nil {
			g()
		}
	}
	return resp, err
}

func (p *pageWorld) lastLog() *pb.LogTreeHashResponse {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i := len(p.heads) - 1; i >= 0; i-- {
		if h, ok := p.heads[i].(*pb.LogTreeHashResponse); ok {
			return h
		}
	}
	return nil
}

func (p *pageWorld) fresh() {
	p.mu.Lock()
	p.heads = nil
	p.mu.Unlock()
}

func (p *pageWorld) login() bool {
	return p.do("", "", pgType("accountField", p.acc.Id), pgType("apikeyField", p.acc.ApiKey), pgA("Select")) != nil
}

func (p *pageWorld) choose(kind, name string) bool {
	a := p.do(name, "objresult", pgID(map[string]string{"log": "loadLogByName", "map": "loadMapByName"}[kind]))
	if a == nil {
		return false
	}
	if !strings.Contains(a.Selected, name) || !strings.Contains(a.Selected, kind) {
		p.r.Failf("%s: after choosing %s %s the page says that %q is selected", p.what, kind, name, a.Selected)
		return false
	}
	return true
}

// logOps does operations on a log. add is nil if it can't be written to. jsonOK says that entries can be hashed from their JSON.
func (p *pageWorld) logOps(m *LogModel, k int, sub string, jsonOK func(i int) bool, add func(i int) bool, growable bool) bool {
	rng := p.rng
	old := p.what
	defer func() { p.what = old }()
	for i := 0; i < k && !p.r.Failed(); i++ {
		p.fresh()
		N := m.Len()
		p.what = fmt.Sprintf("%s: %s of %d", old, sub, N)
		grew := 0
		if growable && N > 0 && rng.Intn(3) == 0 {
			p.mu.Lock()
			p.grow = func() {
				for j := 0; j < 1+grew%2; j++ {
					ld := &pb.LeafData{LeafInput: []byte(fmt.Sprint("grown ", p.what, i, j, grew, m.Len()))}
					p.svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: p.acc, Name: "l", LogType: tLog}, Value: ld})
					m.Add(ld)
					grew++
				}
			}
			p.mu.Unlock()
			p.r.Saw("growing-log")
		}
		ok := p.logOp(m, i, N, jsonOK, add)
		p.mu.Lock()
		p.grow = nil
		p.mu.Unlock()
		if !ok {
			return false
		}
	}
	return true
}

func (p *pageWorld) logOp(m *LogModel, i, N int, jsonOK func(i int) bool, add func(i int) bool) bool {
	rng := p.rng
	size := func() (string, int, bool) { // what's typed, size (0: head), good
		switch x := rng.Intn(12); {
		case x == 0:
			return pgBad[rng.Intn(len(pgBad))], 0, false
		case x == 1:
			return fmt.Sprint(N + 1000 + rng.Intn(9)), 0, false
		case x == 2:
			return fmt.Sprint(-1 - rng.Intn(3)), 0, false
		case x < 6 || N == 0:
			return pgNum(rng, 0, true), 0, true
		}
		n := 1 + rng.Intn(N)
		return pgNum(rng, n, false), n, true
	}
	// the head that was served, and which must be right
	served := func(d string, n int) (*pb.LogTreeHashResponse, bool) {
		h := p.lastLog()
		if h == nil {
			p.r.Failf("%s: %s: no head was asked for", p.what, d)
			return nil, false
		}
		if h.TreeSize > int64(m.Len()) || n != 0 && h.TreeSize != int64(n) || n == 0 && h.TreeSize < int64(N) || h.TreeSize > 0 && !bytes.Equal(h.RootHash, m.Tree.Root(int(h.TreeSize))) {
			p.r.Failf("%s: %s: the head served is %v", p.what, d, h)
			return nil, false
		}
		return h, true
	}
	switch rng.Intn(10) {
	case 0, 1:
		t, n, good := size()
		d := fmt.Sprintf("tree head for %q", t)
		a := p.do("", "", pgA("Get tree head"), pgType("treeHeadLogSize", t), pgID("logTreeHead"))
		if a == nil {
			return false
		}
		if !good {
			return p.refused(d, a)
		}
		h, ok := served(d, n)
		if !ok {
			return false
		}
		if h.TreeSize == 0 {
			return p.says(d, a, "empty")
		}
		return p.says(d, a, jb(h.RootHash), fmt.Sprint(h.TreeSize))
	case 2, 3:
		if add == nil {
			return true
		}
		return add(i)
	case 4, 5:
		// inclusion
		t, n, good := size()
		if N == 0 {
			return true
		}
		e := rng.Intn(N)
		if n > 0 && rng.Intn(4) > 0 {
			e = rng.Intn(n)
		}
		ld := m.Entries[e]
		var typed, btn string
		here := true
		switch {
		case len(ld.ExtraData) > 0 && jsonOK(e):
			typed, btn = string(ld.ExtraData), "inclJSONLog"
		case len(ld.ExtraData) == 0 && pgValid(ld.LeafInput):
			typed, btn = string(ld.LeafInput), "inclRawLog"
		default:
			return true
		}
		if rng.Intn(8) == 0 {
			typed, btn, here = fmt.Sprint("not in there ", i), "inclRawLog", false
		}
		d := fmt.Sprintf("inclusion of %q in %q (%s)", typed, t, btn)
		a := p.do("", "", pgA("Prove inclusion"), pgType("inclTreeHeadLogSize", t), pgType("inclEntryText", typed), pgID(btn))
		if a == nil {
			return false
		}
		if !good || !here || n > 0 && e >= n {
			return p.refused(d, a)
		}
		h, ok := served(d, n)
		if !ok {
			return false
		}
		dr := p.drawing(d, a, p.ratio)
		if dr == nil {
			return false
		}
		p.r.Saw("inclusion-drawing")
		sz := int(h.TreeSize)
		return p.judged(fmt.Sprintf("%s, which is entry %d, size %d", d, e, sz), pgCkInclusion(dr, int64(e), int64(sz), m.Tree.Leaves[e], m.Tree.Inclusion(e, sz), m.Tree.Root(sz)))
	case 6, 7:
		// consistency
		t1, n1, good1 := size()
		t2, n2, good2 := size()
		d := fmt.Sprintf("consistency of %q and %q", t1, t2)
		a := p.do("", "", pgA("Prove consistency"), pgType("treeHeadLogSize1", t1), pgType("treeHeadLogSize2", t2), pgID("logConsistency"))
		if a == nil {
			return false
		}
		if !good1 || !good2 || n1 < 1 || n2 != 0 && n2 <= n1 {
			return p.refused(d, a)
		}
		h, ok := served(d, n2)
		if !ok {
			return false
		}
		if int(h.TreeSize) <= n1 {
			return p.says(d, a, fmt.Sprint(h.TreeSize))
		}
		dr := p.drawing(d, a, p.ratio)
		if dr == nil {
			return false
		}
		p.r.Saw("consistency-drawing")
		sz := int(h.TreeSize)
		return p.judged(fmt.Sprintf("%s, size %d", d, sz), pgCkConsistency(dr, int64(n1), int64(sz), m.Tree.Consistency(n1, sz), m.Tree.Root(n1), m.Tree.Root(sz)))
	}
	// entries
	t1, n1, good1 := size()
	t2, n2, good2 := size()
	if rng.Intn(2) == 0 {
		t1, n1, good1 = "0", 0, true
	}
	asJSON := rng.Intn(2) == 0
	btn := map[bool]string{true: "fetchJson", false: "fetchRaw"}[asJSON]
	d := fmt.Sprintf("entries %q to %q (%s)", t1, t2, btn)
	a := p.do("", "", pgA("Fetch entries"), pgType("fetchTreeHeadLogSize1", t1), pgType("fetchTreeHeadLogSize2", t2), pgID(btn))
	if a == nil {
		return false
	}
	outside := func(t string) bool { v, err := strconv.Atoi(t); return err == nil && v > 0 }
	if !good1 || !good2 || n2 != 0 && n2 <= n1 {
		if outside(t2) && !good2 && good1 || outside(t1) && !good1 {
			// beyond the end: what's there may be shown, and nothing else
			if a.Error {
				p.r.Saw("refused")
				return true
			}
			n2 = 0
			if !good1 {
				if len(a.Canvases) == 0 && len(a.Lines) <= 1 {
					return true
				}
				return p.refused(d, a)
			}
		} else {
			return p.refused(d, a)
		}
	}
	if a.Error {
		if N == 0 || n1 >= N {
			p.r.Saw("refused")
			return true
		}
		p.r.Failf("%s: %s: shows error %q", p.what, d, a.text())
		return false
	}
	lo, hi := n2, n2
	if n2 == 0 {
		lo, hi = N, m.Len()
	}
	lines := a.Lines
	got := 0
	for got < len(lines) && strings.HasPrefix(lines[got], fmt.Sprint(n1+got, " ")) {
		got++
	}
	if got < lo-n1 || got > hi-n1 || n1 > lo && got > 0 {
		p.r.Failf("%s: %s: %d entries are shown: %s", p.what, d, got, trunc(a.text(), 600))
		return false
	}
	bad := false
	for j := 0; j < got; j++ {
		ld := m.Entries[n1+j]
		want := pgDisplay(ld.LeafInput, false)
		if asJSON {
			want = string(ld.ExtraData)
			if !jsonOK(n1 + j) {
				bad = true
			}
		}
		if !strings.HasSuffix(lines[j], want) {
			p.r.Failf("%s: %s: entry %d is shown as %q, not %q", p.what, d, n1+j, trunc(lines[j], 300), trunc(want, 300))
			return false
		}
	}
	p.r.SawN("entries-shown", int64(got))
	if n1 != 0 || got == 0 || got >= 50 || bad {
		for _, h := range a.Canvases {
			if !bad {
				p.r.Failf("%s: %s: a tree is drawn (%v x %v)", p.what, d, h.W, h.H)
				return false
			}
		}
		if asJSON && got > 0 && n1 == 0 && got < 50 && len(a.Canvases) > 0 {
			// only what isn't JSON mustn't be drawn as if it were
			for j := 0; j < got; j++ {
				if len(m.Entries[j].ExtraData) == 0 {
					p.r.Failf("%s: %s: a tree is drawn of what wasn't stored as JSON", p.what, d)
					return false
				}
			}
		}
		if len(a.Canvases) == 0 && len(lines) <= got {
			p.r.Failf("%s: %s: neither is a tree drawn, nor is it said that there's none", p.what, d)
			return false
		}
		return true
	}
	if len(lines) > got {
		p.r.Failf("%s: %s: no tree, but %q", p.what, d, lines[got:])
		return false
	}
	dr := p.drawing(d, a, p.ratio)
	if dr == nil {
		return false
	}
	p.r.Saw("tree-drawing")
	return p.judged(fmt.Sprintf("%s: %d entries", d, got), pgCkTree(dr, &m.Tree, got))
}

// pgValid says whether it can be typed.
func pgValid(b []byte) bool {
	return bytes.Equal(bytes.ToValidUTF8(b, []byte("?")), b) && !bytes.ContainsAny(b, "\r")
}

func (p *pageWorld) adder(m *LogModel) func(i int) bool {
	rng := p.rng
	ref := &pb.LogRef{Account: p.acc, Name: "l", LogType: tLog}
	return func(i int) bool {
		text, btn := pgText(rng, i), "addRawLog"
		if rng.Intn(2) == 0 {
			text, btn = pgJSON(rng, i), "addJSONLog"
		} else if rng.Intn(8) == 0 && m.Len() > 0 {
			// once more
			if ld := m.Entries[rng.Intn(m.Len())]; len(ld.ExtraData) == 0 && pgValid(ld.LeafInput) {
				text = string(ld.LeafInput)
			}
		}
		return p.addEntry(m, ref, text, btn)
	}
}

// entries that redactable JSON became are only known from what's stored
func (p *pageWorld) addEntry(m *LogModel, ref *pb.LogRef, text, btn string) bool {
	d := fmt.Sprintf("adding %q (%s)", text, btn)
	a := p.do("", "", pgA("Add log entry"), pgType("logEntryText", text), pgID(btn))
	if a == nil {
		return false
	}
	var want *pb.LeafData
	switch btn {
	case "addRawLog":
		want = &pb.LeafData{LeafInput: []byte(text)}
		if text == "" {
			return p.refused(d, a)
		}
	case "addJSONLog":
		o, ok := c22dec([]byte(text))
		if !ok {
			return p.refused(d, a)
		}
		h, _ := spec.ObjectHash(o)
		want = &pb.LeafData{LeafInput: h, ExtraData: []byte(text), Format: pb.DataFormat_JSON}
	default:
		o, ok := c22dec([]byte(text))
		if !ok {
			return p.refused(d, a)
		}
		e, err := p.svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: int64(m.Len())})
		if err != nil || len(e.Values) != 1 {
			p.r.Failf("%s: %s: the log then has %v %v", p.what, d, e, err)
			return false
		}
		want = e.Values[0]
		if why := c19redactable(want, o); why != "" {
			p.r.Failf("%s: %s: %s", p.what, d, why)
			return false
		}
	}
	if !p.says(d, a, jb(spec.LeafHash(want.LeafInput))) {
		return false
	}
	m.Add(want)
	p.r.Saw("added")
	if m.Len() > 0 {
		e, err := p.svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: ref, First: int64(m.Len() - 1)})
		if err != nil || len(e.Values) != 1 || !bytes.Equal(e.Values[0].LeafInput, m.Entries[m.Len()-1].LeafInput) || !bytes.Equal(e.Values[0].ExtraData, m.Entries[m.Len()-1].ExtraData) {
			p.r.Failf("%s: %s: the log's last entry is then %v %v", p.what, d, e, err)
			return false
		}
	}
	return true
}

func pgPolicy() []*pb.ResourceAccount {
	p := []*pb.AccessPolicy{{ApiKey: "all", NameMatch: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}},
		{ApiKey: "read", NameMatch: "*", AllowedFields: []string{"id"}, Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_LOG_PROVE_INCLUSION, pb.Permission_PERM_MAP_GET_VALUE, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY, pb.Permission_PERM_MAP_MUTATION_READ_HASH}}}
	return []*pb.ResourceAccount{{Id: "30", Policy: p}}
}

func c30world(r *R, n *jsNode, what string, rng *rand.Rand) (*pageWorld, func()) {
	p := &pageWorld{pageUser: &pageUser{r: r, n: n, what: what}, rng: rng, acc: acct("30", "all"), ratio: []float64{1, 2, 1.5}[rng.Intn(3)]}
	p.svc = newService(&specStore{}, nil, staticPolicy(pgPolicy()))
	s := newREST(&tweakSvc{Inner: p.svc, Tweak: p.tweak})
	p.on = true
	if !p.open(s.URL+[]string{"", "/"}[rng.Intn(2)], p.ratio) || !p.login() {
		s.Close()
		return nil, nil
	}
	return p, s.Close
}

func c30honest(r *R, n *jsNode, round int) {
	rng := r.Rand(fmt.Sprint("honest", round))
	p, closer := c30world(r, n, fmt.Sprint("session ", round), rng)
	if p == nil {
		return
	}
	defer closer()
	if !p.choose("log", "l") {
		return
	}
	m := &LogModel{}
	ref := &pb.LogRef{Account: p.acc, Name: "l", LogType: tLog}
	mixed := round%2 == 0 // raw entries and JSON
	add := p.adder(m)
	if !mixed {
		add = func(i int) bool { return p.addEntry(m, ref, pgJSON(rng, i), "addJSONLog") }
	}
	red := func(i int) bool {
		if rng.Intn(6) == 0 {
			return p.addEntry(m, ref, fmt.Sprintf(`{"id": %d, "secret": "sesame ü"}`, i), "addJSONRedactableLog")
		}
		if rng.Intn(12) == 0 {
			return p.addEntry(m, ref, `{"broken": `, []string{"addJSONLog", "addJSONRedactableLog"}[rng.Intn(2)])
		}
		return add(i)
	}
	isJSON := func(i int) bool { return len(m.Entries[i].ExtraData) > 0 }
	// sizes where drawings get awkward, and around the limit of what is drawn
	target := []int{0, 1, 2, 3, 5, 7, 8, 9, 13, 17, 31, 33, 47, 48, 49, 50, 51, 64}[round%18]
	if !p.logOps(m, 4, "log", isJSON, nil, false) {
		return
	}
	for i := 0; m.Len() < target && i < 400 && !r.Failed(); i++ {
		if m.Len() < 12 || rng.Intn(4) == 0 {
			if !red(i) {
				return
			}
			if rng.Intn(5) == 0 && !p.logOps(m, 2, "log", isJSON, nil, false) {
				return
			}
			continue
		}
		text := pgJSON(rng, i)
		o, _ := c22dec([]byte(text))
		h, _ := spec.ObjectHash(o)
		ld := &pb.LeafData{LeafInput: h, ExtraData: []byte(text), Format: pb.DataFormat_JSON}
		if _, err := p.svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: ref, Value: ld}); err != nil {
			r.Failf("%s: adding %s: %v", p.what, text, err)
			return
		}
		m.Add(ld)
	}
	// all of it, both ways
	if m.Len() > 0 {
		for _, btn := range []string{"fetchRaw", "fetchJson"} {
			a := p.do("", "", pgA("Fetch entries"), pgType("fetchTreeHeadLogSize1", "0"), pgType("fetchTreeHeadLogSize2", "head"), pgID(btn))
			if a == nil {
				return
			}
			all := true
			for i := range m.Entries {
				all = all && (btn == "fetchRaw" || isJSON(i))
			}
			d := fmt.Sprintf("all %d entries (%s)", m.Len(), btn)
			if all && m.Len() < 50 {
				dr := p.drawing(d, a, p.ratio)
				if dr == nil || !p.judged(d, pgCkTree(dr, &m.Tree, m.Len())) {
					return
				}
				r.Saw("tree-drawing")
			} else if len(a.Canvases) > 0 || len(a.Lines) != m.Len()+1 {
				r.Failf("%s: %s: %d drawings, %d lines: %s", p.what, d, len(a.Canvases), len(a.Lines), trunc(a.text(), 400))
				return
			}
		}
	}
	if !p.logOps(m, r.N(40, 90), "log", isJSON, red, true) {
		return
	}
	if !c30map(r, p) {
		return
	}
	// someone who may see only one field, and not write
	if !p.choose("log", "r") {
		return
	}
	ref = &pb.LogRef{Account: p.acc, Name: "r", LogType: tLog}
	m = &LogModel{}
	for i, k := 0, 1+rng.Intn(9); i < k; i++ {
		text := fmt.Sprintf(`{"id": %d, "secret": "sesame ü", "n": {"secret": ["sesame"], "x": null}}`, i)
		if !p.addEntry(m, ref, text, "addJSONRedactableLog") {
			return
		}
	}
	q := &pageWorld{pageUser: &pageUser{r: r, n: n, what: p.what + ", restricted"}, rng: rng, acc: acct("30", "read"), ratio: 1, svc: p.svc}
	s := newREST(&tweakSvc{Inner: p.svc, Tweak: q.tweak})
	defer s.Close()
	q.on = true
	if !q.open(s.URL, 1) || !q.login() || !q.choose("log", "r") {
		return
	}
	if a := q.do("", "", pgA("Add log entry"), pgType("logEntryText", "no"), pgID("addRawLog")); a == nil || !q.refused("adding without being allowed to", a) {
		return
	}
	a := q.do("", "", pgA("Fetch entries"), pgType("fetchTreeHeadLogSize1", "0"), pgType("fetchTreeHeadLogSize2", "head"), pgID("fetchJson"))
	if a == nil {
		return
	}
	for _, l := range a.Lines {
		if strings.Contains(l, "sesame") {
			r.Failf("%s: what's redacted is shown: %q", q.what, l)
			return
		}
	}
	dr := q.drawing("fetch of redacted entries", a, 1)
	if dr == nil || !q.judged("fetch of redacted entries", pgCkTree(dr, &m.Tree, m.Len())) {
		return
	}
	r.Saw("redacted-tree-drawing")
	// what is shown proves inclusion
	e := rng.Intn(m.Len())
	typed := a.Lines[e][strings.Index(a.Lines[e], "{"):]
	d := fmt.Sprintf("inclusion of %s", typed)
	if a = q.do("", "", pgA("Prove inclusion"), pgType("inclTreeHeadLogSize", "head"), pgType("inclEntryText", typed), pgID("inclJSONLog")); a == nil {
		return
	}
	if dr = q.drawing(d, a, 1); dr != nil && q.judged(d, pgCkInclusion(dr, int64(e), int64(m.Len()), m.Tree.Leaves[e], m.Tree.Inclusion(e, m.Len()), m.Tree.Root(m.Len()))) {
		r.Saw("redacted-inclusion-drawing")
	}
}

func c30map(r *R, p *pageWorld) bool {
	rng := p.rng
	old := p.what
	defer func() { p.what = old }()
	if !p.choose("map", "m") {
		return false
	}
	w := &MapWorld{}
	mr := &pb.MapRef{Account: p.acc, Name: "m"}
	base := fmt.Sprint("base", rng.Intn(4))
	keys := []string{base, "kéy ü", "日本", "a/b?c=d&e #%25", "plain", string(collide([]byte(base), 1+rng.Intn(14), rng.Intn(2))), string(collide([]byte(base), 3, 0)), string(collide([]byte(base), 13, 1))}
	vals := map[string]*pb.LeafData{} // by leaf input
	jsonVals := false
	growN := 0
	for i, k := 0, r.N(30, 60); i < k && !r.Failed(); i++ {
		p.fresh()
		N := w.Size()
		p.what = fmt.Sprintf("%s: map of %d", old, N)
		key := keys[rng.Intn(len(keys))]
		switch x := rng.Intn(10); {
		case x < 3:
			text, btn := pgText(rng, i), "addRawMap"
			if rng.Intn(3) == 0 {
				text, btn = pgJSON(rng, i), []string{"addJSONMap", "addJSONRedactableMap"}[rng.Intn(2)]
			}
			if btn == "addJSONRedactableMap" {
				text = fmt.Sprintf(`{"id": %d, "ü": "ö"}`, i)
			}
			d := fmt.Sprintf("setting %q to %q (%s)", key, text, btn)
			a := p.do("", "", pgA("Set Key/Value"), pgType("mapEntryKey", key), pgType("mapEntryText", text), pgID(btn))
			if a == nil {
				return false
			}
			mu := spec.Mut{Action: "set", Key: []byte(key)}
			var want *pb.LeafData
			switch btn {
			case "addRawMap":
				want = &pb.LeafData{LeafInput: []byte(text)}
			case "addJSONMap":
				o, _ := c22dec([]byte(text))
				h, _ := spec.ObjectHash(o)
				want = &pb.LeafData{LeafInput: h, ExtraData: []byte(text), Format: pb.DataFormat_JSON}
			default:
				got, err := p.svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: mr, Key: []byte(key)})
				if err != nil {
					r.Failf("%s: %s: %v", p.what, d, err)
					return false
				}
				want = got.Value
				o, _ := c22dec([]byte(text))
				if why := c19redactable(want, o); why != "" {
					r.Failf("%s: %s: %s", p.what, d, why)
					return false
				}
			}
			jsonVals = jsonVals || len(want.ExtraData) > 0
			mu.LI, mu.ED, mu.Format = want.LeafInput, want.ExtraData, int32(want.Format)
			w.Apply(mu)
			w.Acked = append(w.Acked, nil)
			vals[string(want.LeafInput)] = want
			e, err := p.svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: p.acc, Name: "m", LogType: tMut}, First: int64(N)})
			if err != nil || len(e.Values) != 1 {
				r.Failf("%s: %s: the mutation log then has %v %v", p.what, d, e, err)
				return false
			}
			w.Acked[N] = spec.LeafHash(e.Values[0].LeafInput)
			if !p.says(d, a, jb(w.Acked[N])) {
				return false
			}
			if !ckMapGet(r, p.what+": "+d, p.svc, mr, w, []byte(key), 0) {
				return false
			}
			r.Saw("set")
			continue
		case x == 3:
			// something goes away
			mu := spec.Mut{Action: "delete", Key: []byte(key), NoVal: true}
			if err := w.mutate(p.svc, mr, mu); err != nil {
				r.Failf("%s: deleting: %v", p.what, err)
				return false
			}
			continue
		}
		t, n, good := pgNum(rng, 0, true), 0, true
		switch x := rng.Intn(10); {
		case x == 0:
			t, good = pgBad[rng.Intn(len(pgBad))], false
		case x == 1:
			t, good = fmt.Sprint(N+1000), false
		case x == 2:
			t, good = "-2", false
		case x < 7 && N > 0:
			n = 1 + rng.Intn(N)
			t = pgNum(rng, n, false)
		}
		if N > 0 && rng.Intn(3) == 0 {
			p.mu.Lock()
			p.grow = func() {
				growN++
				w.mutate(p.svc, mr, spec.Mut{Action: "set", Key: []byte(keys[growN%len(keys)]), LI: []byte(fmt.Sprint("grown ", growN))})
				vals[fmt.Sprint("grown ", growN)] = &pb.LeafData{LeafInput: []byte(fmt.Sprint("grown ", growN))}
			}
			p.mu.Unlock()
			r.Saw("growing-map")
		}
		ok := func() bool {
			defer func() { p.mu.Lock(); p.grow = nil; p.mu.Unlock() }()
			if rng.Intn(4) == 0 {
				d := fmt.Sprintf("map head for %q", t)
				a := p.do("", "", pgA("Get tree head"), pgType("treeHeadMapSize", t), pgID("mapTreeHead"))
				if a == nil {
					return false
				}
				if !good {
					return p.refused(d, a)
				}
				sz, ok := p.mapServed(d, w, n, N)
				if !ok {
					return false
				}
				if sz == 0 {
					return p.says(d, a, "empty", jb(w.Root(0)))
				}
				e, err := p.svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: p.acc, Name: "m", LogType: tMut}, TreeSize: int64(sz)})
				if err != nil {
					r.Failf("%s: %s: %v", p.what, d, err)
					return false
				}
				return p.says(d, a, jb(w.Root(sz)), jb(e.RootHash), fmt.Sprint(sz))
			}
			btn := []string{"mapValueRaw", "mapValueJson"}[rng.Intn(2)]
			if rng.Intn(6) == 0 {
				key = "never set"
			}
			d := fmt.Sprintf("value of %q for size %q (%s)", key, t, btn)
			a := p.do("", "", pgA("Get verified value"), pgType("mapValueKey", key), pgType("mapValueSize", t), pgID(btn))
			if a == nil {
				return false
			}
			if !good {
				return p.refused(d, a)
			}
			sz, ok := p.mapServed(d, w, n, N)
			if !ok {
				return false
			}
			li := w.Value([]byte(key), sz)
			ld := vals[string(li)]
			if ld == nil {
				ld = &pb.LeafData{}
			}
			want := pgDisplay(ld.LeafInput, false)
			if btn == "mapValueJson" {
				want = string(ld.ExtraData)
				if len(li) > 0 && len(ld.ExtraData) == 0 {
					if a.Error {
						return true
					}
					return true // not stored as JSON
				}
			}
			dr := p.drawing(d, a, p.ratio)
			if dr == nil {
				return false
			}
			if len(a.Lines) < 2 || !strings.HasSuffix(a.Lines[0], want) || !strings.HasSuffix(a.Lines[1], fmt.Sprint(sz)) {
				r.Failf("%s: %s: shows %q, not value %q at size %d", p.what, d, a.Lines, want, sz)
				return false
			}
			r.Saw("map-drawing")
			return p.judged(fmt.Sprintf("%s, size %d", d, sz), pgCkMap(dr, []byte(key), spec.LeafHash(li), spec.MakeContents(w.At(sz)).Siblings(spec.PathOf([]byte(key))), w.Root(sz)))
		}()
		if !ok {
			return false
		}
	}
	if w.Size() == 0 {
		return true
	}
	// its logs
	p.what = old
	if !ckMapLogs(r, p.what, p.svc, mr, w) {
		return false
	}
	if a := p.do("", "", pgID("goMutationLog")); a == nil || !strings.Contains(a.Selected, "mutation") {
		if a != nil {
			r.Failf("%s: after choosing the mutation log, %q is selected", p.what, a.Selected)
		}
		return false
	}
	if !p.logOps(&w.Mut, 8, "mutation log", func(i int) bool { return !jsonVals && len(w.Mut.Entries[i].ExtraData) > 0 }, nil, false) {
		return false
	}
	if a := p.do("", "", pgID("goBackToMap")); a == nil {
		return false
	}
	if a := p.do("", "", pgID("goTreeHeadLog")); a == nil || !strings.Contains(a.Selected, "tree head") {
		if a != nil {
			r.Failf("%s: after choosing the tree head log, %q is selected", p.what, a.Selected)
		}
		return false
	}
	return p.logOps(&w.Heads, 8, "tree head log", func(i int) bool { return len(w.Heads.Entries[i].ExtraData) > 0 }, nil, false)
}

// mapServed is the size of the map head that was served.
func (p *pageWorld) mapServed(d string, w *MapWorld, n, N int) (int, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i := len(p.heads) - 1; i >= 0; i-- {
		h, ok := p.heads[i].(*pb.MapTreeHashResponse)
		if !ok {
			continue
		}
		sz := int(h.MutationLog.TreeSize)
		if sz > w.Size() || n != 0 && sz != n || n == 0 && sz < N || !bytes.Equal(h.RootHash, w.Root(sz)) {
			p.r.Failf("%s: %s: the head served is %v", p.what, d, h)
			return 0, false
		}
		return sz, true
	}
	p.r.Failf("%s: %s: no head was asked for", p.what, d)
	return 0, false
}

// pgBig answers for logs of any size with proofs that hold.
type pgBig struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	n, a, i     int64
	root, first []byte
	path        [][]byte
	incl        bool
}

func (b *pgBig) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	if !b.incl && q.TreeSize == b.a {
		return &pb.LogTreeHashResponse{TreeSize: b.a, RootHash: b.first}, nil
	}
	if q.TreeSize != 0 && q.TreeSize != b.n {
		return nil, status.Error(codes.InvalidArgument, "no")
	}
	return &pb.LogTreeHashResponse{TreeSize: b.n, RootHash: b.root}, nil
}

func (b *pgBig) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return &pb.LogInclusionProofResponse{TreeSize: b.n, LeafIndex: b.i, AuditPath: b.path}, nil
}

func (b *pgBig) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return &pb.LogConsistencyProofResponse{FromSize: b.a, TreeSize: b.n, AuditPath: b.path}, nil
}

// pgRoots folds ranges into the root of [0,n): all the ranges must be nodes of that tree and cover it.
func pgRoots(a, b int64, rs []pgRange) []byte {
	for _, x := range rs {
		if x.a == a && x.b == b {
			return x.hash
		}
	}
	if b-a <= 1 {
		panic("not covered")
	}
	k := spec.SplitPoint(b - a)
	return spec.NodeHash(pgRoots(a, a+k, rs), pgRoots(a+k, b, rs))
}

func c30big(r *R, n *jsNode) {
	rng := r.Rand("big")
	b := &pgBig{}
	s := newREST(b)
	defer s.Close()
	p := &pageWorld{pageUser: &pageUser{r: r, n: n, what: "big logs"}, rng: rng, acc: acct("30", "all"), ratio: 1}
	if !p.open(s.URL, 1) || !p.login() || !p.choose("log", "l") {
		return
	}
	for k := 0; k < r.N(60, 400) && !r.Failed(); k++ {
		bits := uint(1 + rng.Intn(52))
		b.n = 2 + rng.Int63n(int64(1)<<bits)
		if rng.Intn(4) == 0 {
			b.n = int64(1)<<bits + int64(rng.Intn(3)) - 1
			if b.n < 2 {
				b.n = 2
			}
		}
		if b.incl = rng.Intn(2) == 0; b.incl {
			b.i = rng.Int63n(b.n)
			text := fmt.Sprint("entry ", k)
			leaf := spec.LeafHash([]byte(text))
			rs := pgPath(b.i, 0, b.n)
			b.path = nil
			for j := range rs {
				rs[j].hash = randBytes(rng, 32)
				b.path = append(b.path, rs[j].hash)
			}
			b.root = pgRoots(0, b.n, append(rs, pgRange{b.i, b.i + 1, leaf}))
			if !spec.VerifyInclusion(b.i, b.n, leaf, b.path, b.root) {
				panic("not a proof")
			}
			d := fmt.Sprintf("inclusion of %d in %d", b.i, b.n)
			a := p.do("", "", pgA("Prove inclusion"), pgType("inclTreeHeadLogSize", pgNum(rng, int(b.n), rng.Intn(2) == 0)), pgType("inclEntryText", text), pgID("inclRawLog"))
			if a == nil {
				return
			}
			dr := p.drawing(d, a, 1)
			if dr == nil || !p.judged(d, pgCkInclusion(dr, b.i, b.n, leaf, b.path, b.root)) {
				return
			}
			r.Saw("big-inclusion-drawing")
			continue
		}
		b.a = 1 + rng.Int63n(b.n-1)
		if rng.Intn(4) == 0 {
			for b.a&(b.a-1) != 0 {
				b.a &= b.a - 1
			}
		}
		rs := pgSub(b.a, 0, b.n, true)
		b.path = nil
		for j := range rs {
			rs[j].hash = randBytes(rng, 32)
			b.path = append(b.path, rs[j].hash)
		}
		all := rs
		if b.a&(b.a-1) == 0 {
			all = append(append([]pgRange{}, rs...), pgRange{0, b.a, randBytes(rng, 32)})
		}
		b.root, b.first = pgRoots(0, b.n, all), pgRoots(0, b.a, all)
		if !spec.VerifyConsistency(b.a, b.n, b.path, b.first, b.root) {
			panic("not a proof")
		}
		d := fmt.Sprintf("consistency of %d and %d", b.a, b.n)
		a := p.do("", "", pgA("Prove consistency"), pgType("treeHeadLogSize1", fmt.Sprint(b.a)), pgType("treeHeadLogSize2", pgNum(rng, int(b.n), rng.Intn(2) == 0)), pgID("logConsistency"))
		if a == nil {
			return
		}
		dr := p.drawing(d, a, 1)
		if dr == nil || !p.judged(d, pgCkConsistency(dr, b.a, b.n, b.path, b.first, b.root)) {
			return
		}
		r.Saw("big-consistency-drawing")
	}
}

// c30hostile: what is drawn as matching the root does match the root that was served.
func c30hostile(r *R, n *jsNode, round int) {
	rng := r.Rand(fmt.Sprint("hostile", round))
	x := c21make(r, fmt.Sprint("page world", round), 2+rng.Intn(30), 1+rng.Intn(10))
	if x == nil {
		return
	}
	t := &tamperer{rng: r.Rand(fmt.Sprint("page tamper", round)), svc: x.svc, p: []int{15, 40, 80}[rng.Intn(3)]}
	p := &pageWorld{pageUser: &pageUser{r: r, n: n, what: fmt.Sprint("hostile session ", round), loose: true}, rng: rng, acc: acct("9", "k"), ratio: 1}
	on := false
	s := newREST(&tweakSvc{Inner: x.svc, Tweak: func(m string, req, resp proto.Message, err error) (proto.Message, error) {
		if on {
			resp, err = t.tamper(req, resp, err)
		}
		return p.tweak(m, req, resp, err)
	}})
	p.on = true
	defer s.Close()
	if !p.open(s.URL, 1) || !p.login() {
		return
	}
	on = true
	m := x.model(tLog)
	mp := false
	for i := 0; i < r.N(40, 80) && !r.Failed(); i++ {
		if i == 0 || i%8 == 0 {
			mp = i/8%3 == 2
			if mp {
				if !p.choose("map", "m") {
					return
				}
			} else if !p.choose("log", "l") {
				return
			}
		}
		p.fresh()
		N := m.Len()
		var a *pgAnswer
		d := ""
		sz := pgNum(rng, 1+rng.Intn(N), rng.Intn(2) == 0)
		switch {
		case mp:
			keys := x.w.Keys()
			key := keys[rng.Intn(len(keys))]
			if !pgValid([]byte(key)) {
				continue
			}
			d = fmt.Sprintf("value of %q", key)
			a = p.do("", "", pgA("Get verified value"), pgType("mapValueKey", key), pgType("mapValueSize", "head"), pgID([]string{"mapValueRaw", "mapValueJson"}[rng.Intn(2)]))
		case rng.Intn(2) == 0:
			ld := m.Entries[rng.Intn(N)]
			typed, btn := string(ld.ExtraData), "inclJSONLog"
			if typed == "" {
				typed, btn = string(ld.LeafInput), "inclRawLog"
			}
			d = fmt.Sprintf("inclusion of %q in %q", typed, sz)
			a = p.do("", "", pgA("Prove inclusion"), pgType("inclTreeHeadLogSize", sz), pgType("inclEntryText", typed), pgID(btn))
		default:
			from := 1 + rng.Intn(N)
			d = fmt.Sprintf("consistency of %d and %q", from, sz)
			a = p.do("", "", pgA("Prove consistency"), pgType("treeHeadLogSize1", fmt.Sprint(from)), pgType("treeHeadLogSize2", sz), pgID("logConsistency"))
		}
		if a == nil {
			return
		}
		roots := map[string]bool{}
		p.mu.Lock()
		for _, h := range p.heads {
			switch h := h.(type) {
			case *pb.LogTreeHashResponse:
				roots[string(h.RootHash)] = true
			case *pb.MapTreeHashResponse:
				roots[string(h.RootHash)] = true
			}
		}
		p.mu.Unlock()
		for _, c := range a.Canvases {
			r.Saw("hostile-drawing")
			for _, o := range c.Ops {
				if o.K != "fill" || o.C != pgViolet {
					continue
				}
				for _, tx := range c.Ops {
					if tx.K != "text" || tx.X < o.X || tx.X > o.X+o.W || tx.Y < o.Y || tx.Y > o.Y+o.H {
						continue
					}
					if h, err := base64.StdEncoding.DecodeString(tx.S); err == nil && len(h) > 0 && !roots[string(h)] {
						r.Failf("%s: %s: %s is drawn as the root, but the heads served are %v", p.what, d, tx.S, p.heads)
						return
					}
					r.Saw("hostile-violet")
				}
			}
		}
	}
}

func c30(r *R) {
	script := jsScripts(r)
	if script == "" {
		return
	}
	if _, err := exec.LookPath("node"); err != nil {
		panic(err)
	}
	run := filepath.Join(filepath.Dir(script), "page.js")
	os.WriteFile(run, jsPage, 0644)
	nSess, nHost := r.N(90, 900), r.N(24, 200)
	r.Par(1+nSess+nHost, func(i int) {
		n := jsStartScript(run)
		defer n.close()
		switch {
		case i == 0:
			c30big(r, n)
		case i < 1+nSess:
			c30honest(r, n, i-1)
		default:
			c30hostile(r, n, i-1-nSess)
		}
	})
}
