package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/iotest"
	"unicode/utf8"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func init() {
	ops["total"] = opTotal
	ops["inert"] = opInert
	ops["deliver"] = opDeliver
	ops["isolate"] = opIsolate
	ops["storm"] = opStorm
	ops["after"] = opAfter
	ops["visit"] = opVisit
	ops["unordered"] = opUnordered
	ops["lexops"] = opLexops
	ops["sweep"] = opSweep
	ops["remarks"] = opRemarks
}

func (c *Case) str(k string) string { s, _ := c.Args[k].(string); return s }
func (c *Case) num(k string) int    { f, _ := c.Args[k].(float64); return int(f) }
func (c *Case) ints(k string) []int {
	r := []int{}
	xs, _ := c.Args[k].([]any)
	for _, x := range xs {
		f, _ := x.(float64)
		r = append(r, int(f))
	}
	return r
}
func (c *Case) strs(k string) []string {
	r := []string{}
	xs, _ := c.Args[k].([]any)
	for _, x := range xs {
		s, _ := x.(string)
		r = append(r, s)
	}
	return r
}

func (c *Case) parse(r io.Reader, more ...protoparser.Option) (*parser.Proto, error) {
	return protoparser.Parse(r, append([]protoparser.Option{protoparser.WithPermissive(c.P),
		protoparser.WithBodyIncludingComments(c.B)}, more...)...)
}

func (rec *Rec) put(p *parser.Proto, err error) {
	rec.setErr(err)
	rec.Out = outcome(p != nil, err)
	rec.OK = rec.Out == "result"
	rec.T = newNode("none")
	if rec.OK {
		rec.T = file(p)
	}
}

// ---------------------------------------------------------------- totality

// opTotal parses with the options of the case and does with the result what a
// program does: walks it and interprets it.
func opTotal(c *Case, rec *Rec) {
	in := []byte(c.S)
	if c.Raw != nil {
		in = c.Raw
	}
	if s := c.strs("shape"); len(s) == 5 { // something repeated or nested
		n := c.num("n")
		in = []byte(s[0] + strings.Repeat(s[1], n) + s[2] + strings.Repeat(s[3], n) + s[4])
	}
	rec.S, rec.Cp = "", []int{}
	if k := c.str("kind"); k != "" {
		cc := *c
		cc.Op, cc.S = k, string(in)
		n, _, err := single(&cc)
		rec.setErr(err)
		rec.Out = outcome(n != nil, err)
		return
	}
	p, err := c.parse(bytes.NewReader(in), protoparser.WithDebug(c.num("debug") == 1), protoparser.WithFilename(c.str("name")))
	rec.setErr(err)
	rec.Out = outcome(p != nil, err)
	if p != nil {
		p.Accept(&recorder{decline: map[int]bool{}})
		protoparser.UnorderedInterpret(p)
	}
}

// -------------------------------------------------- options without influence

type runX struct {
	OK    bool     `json:"ok"`
	T     *Node    `json:"t"`
	Ep    Pos      `json:"ep"`
	Out   string   `json:"out"`
	Names []string `json:"names"` // file names that occur in the result
	Name  string   `json:"name"`  // file name given
	Dbg   bool     `json:"dbg"`
	At    bool     `json:"at"` // whether the text of the error names the place
	Shown []shown  `json:"shown"`
}

// shown is how a position is written.
type shown struct {
	S    string `json:"s"`
	Line int    `json:"l"`
	Col  int    `json:"c"`
}

func run1(p *parser.Proto, err error) runX {
	var r Rec
	r.put(p, err)
	return runX{OK: r.OK, T: r.T, Ep: r.Ep, Out: r.Out, Names: []string{}, Shown: []shown{}}
}

// filenames collects the file names of all positions below v that were set.
func filenames(v reflect.Value, names map[string]bool, ps *[]shown) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			filenames(v.Elem(), names, ps)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			filenames(v.Index(i), names, ps)
		}
	case reflect.Struct:
		if p, ok := v.Interface().(meta.Position); ok {
			if p != (meta.Position{}) {
				names[p.Filename] = true
				if len(*ps) < 3 {
					*ps = append(*ps, shown{p.String(), p.Line, p.Column})
				}
			}
			return
		}
		if m, ok := v.Interface().(parser.ProtoMeta); ok {
			names[m.Filename] = true
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				filenames(v.Field(i), names, ps)
			}
		}
	}
}

func opInert(c *Case, rec *Rec) {
	rec.put(c.parse(strings.NewReader(c.S)))
	var xs []runX
	names := c.strs("names")
	for _, dbg := range []bool{false, true} {
		for i, name := range names {
			os := []protoparser.Option{protoparser.WithDebug(dbg)}
			if name != "" {
				os = append(os, protoparser.WithFilename(name))
			}
			mine := []protoparser.Option{protoparser.WithPermissive(c.P), protoparser.WithBodyIncludingComments(c.B)}
			if (i+len(c.S))%2 == 0 { // the order of the options is of no consequence
				mine, os = os, mine
			}
			var in io.Reader = strings.NewReader(c.S)
			if (i+len(c.S)/2)%3 == 0 { // nor is what else the reader is
				in = &rich{r: in}
			}
			p, err := protoparser.Parse(in, append(mine, os...)...)
			x := run1(p, err)
			m := map[string]bool{}
			if p != nil {
				filenames(reflect.ValueOf(p), m, &x.Shown)
			}
			var me *meta.Error
			if errors.As(err, &me) {
				m[me.Pos.Filename] = true
				x.Shown = append(x.Shown, shown{me.Pos.String(), me.Pos.Line, me.Pos.Column})
			}
			x.Names = []string{}
			for k := range m {
				x.Names = append(x.Names, k)
			}
			sort.Strings(x.Names)
			x.Name, x.Dbg = name, dbg
			xs = append(xs, x)
		}
	}
	rec.X = xs
}

// ----------------------------------------------------------------- delivery

var errFault = errors.New("fault of the reader")

type faulty struct{ kind string }

func (f faulty) Error() string { return "fault: " + f.kind }

// alias is no io.EOF, however much it says so.
type alias struct{}

func (alias) Error() string   { return "EOF" }
func (alias) Is(e error) bool { return e == io.EOF }

func fault(kind string) error {
	switch kind {
	case "plain":
		return errFault
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "closed":
		return io.ErrClosedPipe
	case "wrapped":
		return fmt.Errorf("broken: %w", errFault)
	case "short":
		return io.ErrShortBuffer
	case "typed":
		return faulty{"typed"}
	case "eoflike":
		return errors.New("EOF")
	case "eofwithin":
		return fmt.Errorf("a part is missing: %w", io.EOF)
	case "eofalias":
		return alias{}
	}
	panic("unknown fault " + kind)
}

// script is a reader that delivers data as it is told: a positive number is
// the size of a read, 0 a read without data. After the steps come the rest
// (joined is whether the end comes with the last data) and the end, or the
// fault.
type script struct {
	data   []byte
	steps  []int
	joined bool
	fault  error
	stop   int // offset of the fault
	reads  int
	gate   func() // called before each read
	over   bool   // the end or the fault was delivered
	then   string // what comes behind the fault: it again, "end", or "resume"
	failed bool
}

func (s *script) Read(b []byte) (int, error) {
	if s.gate != nil {
		s.gate()
	}
	s.reads++
	end := io.EOF
	avail := len(s.data)
	if s.failed && s.then == "end" {
		return 0, io.EOF
	}
	if s.fault != nil && !(s.failed && s.then == "resume") {
		end = s.fault
		avail = s.stop
	}
	if avail == 0 {
		s.over, s.failed = true, true
		return 0, end
	}
	n := avail
	if len(s.steps) > 0 {
		n = s.steps[0]
		s.steps = s.steps[1:]
		if n == 0 {
			return 0, nil
		}
	}
	if n > avail {
		n = avail
	}
	if n > len(b) {
		if len(s.steps) >= 0 && n-len(b) > 0 {
			s.steps = append([]int{n - len(b)}, s.steps...)
		}
		n = len(b)
	}
	copy(b, s.data[:n])
	s.data = s.data[n:]
	s.stop -= n
	if n == avail && s.joined {
		s.over, s.failed = true, true
		return n, end
	}
	return n, nil
}

type onlyReader struct{ io.Reader }

// rich is a reader that has a name, and delivers its content in other ways as well.
type rich struct {
	r    io.Reader
	back []byte
	err  error
}

func (r *rich) Name() string   { return "/tmp/rich.proto" }
func (r *rich) String() string { return "message Rich {}" }
func (r *rich) Close() error   { return nil }

func (r *rich) Read(b []byte) (int, error) {
	if len(r.back) > 0 {
		n := copy(b, r.back)
		r.back = r.back[n:]
		return n, nil
	}
	return r.r.Read(b)
}

func (r *rich) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; ; i++ {
		n, err := r.Read(b[:])
		if n == 1 {
			if err != nil && err != io.EOF {
				r.err = err
			}
			return b[0], nil
		}
		if r.err != nil {
			return 0, r.err
		}
		if err != nil {
			return 0, err
		}
		if i > 1000 {
			return 0, io.ErrNoProgress
		}
	}
}

func (r *rich) ReadRune() (rune, int, error) {
	var b []byte
	for {
		c, err := r.ReadByte()
		if err != nil {
			if len(b) == 0 {
				return 0, 0, err
			}
			break
		}
		b = append(b, c)
		if utf8.FullRune(b) {
			break
		}
	}
	ch, n := utf8.DecodeRune(b)
	r.back = append(b[n:], r.back...)
	return ch, n, nil
}

func (r *rich) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, onlyReader{struct{ io.Reader }{readFunc(r.Read)}})
}

type readFunc func([]byte) (int, error)

func (f readFunc) Read(b []byte) (int, error) { return f(b) }

// via is a reader of another type with the same content.
func via(kind string, s *script) (io.Reader, func()) {
	none := func() {}
	switch kind {
	case "bufio16":
		return bufio.NewReaderSize(s, 16), none
	case "bufio4k":
		return bufio.NewReader(s), none
	case "bufio64k":
		return bufio.NewReaderSize(s, 1<<16), none
	case "tee":
		return io.TeeReader(s, io.Discard), none
	case "multi":
		return io.MultiReader(strings.NewReader(""), s, strings.NewReader("")), none
	case "limit":
		return io.LimitReader(s, 1<<40), none
	case "byte":
		return iotest.OneByteReader(s), none
	case "half":
		return iotest.HalfReader(s), none
	case "rich":
		return &rich{r: s}, none
	case "pipe":
		r, w := io.Pipe()
		go func() {
			_, err := io.Copy(w, onlyReader{s})
			w.CloseWithError(err)
		}()
		return r, func() { r.Close() }
	}
	if strings.HasPrefix(kind, "behind ") && s.fault == nil {
		// a reader in whose input something stands that has been read already
		const read = "message Before {} ; \"\n"
		all := append([]byte(read), s.data...)
		skip := func(r io.Reader) io.Reader {
			if _, err := io.ReadFull(r, make([]byte, len(read))); err != nil {
				panic(err)
			}
			return r
		}
		switch kind[len("behind "):] {
		case "string":
			return skip(strings.NewReader(string(all))), none
		case "bytes":
			return skip(bytes.NewReader(all)), none
		case "buffer":
			return skip(bytes.NewBuffer(all)), none
		case "bufio":
			return skip(bufio.NewReader(bytes.NewReader(all))), none
		case "section":
			return skip(io.NewSectionReader(bytes.NewReader(append([]byte("x;"), all...)), 2, int64(len(all)))), none
		case "file":
			f, err := os.CreateTemp("", "deliver")
			if err != nil {
				panic(err)
			}
			os.Remove(f.Name())
			if _, err := f.Write(all); err != nil {
				panic(err)
			}
			if _, err := f.Seek(0, io.SeekStart); err != nil {
				panic(err)
			}
			return skip(f), func() { f.Close() }
		}
	}
	return s, none
}

func opDeliver(c *Case, rec *Rec) {
	in := []byte(c.S)
	if b := c.str("bytes"); b != "" { // some that are no UTF-8
		var err error
		if in, err = base64.StdEncoding.DecodeString(b); err != nil {
			panic(err)
		}
	}
	s := &script{data: in, steps: c.ints("steps"), joined: c.num("joined") == 1}
	if k := c.str("fault"); k != "" {
		s.fault = fault(k)
		s.stop = c.num("stop")
	}
	s.then = c.str("then")
	in2, done := via(c.str("via"), s)
	p, err := c.parse(in2)
	done()
	rec.put(p, err)
	whole := run1(c.parse(bytes.NewReader(in)))
	is := false
	if s.fault != nil && err != nil {
		is = errors.Is(err, s.fault)
	}
	rec.X = map[string]any{"whole": whole, "isfault": is, "over": s.over}
}

// ---------------------------------------------------------------- isolation

// opIsolate runs several parses at once, each fed by a reader that waits for
// its turn, so that their reads happen in exactly the order of the schedule.
func opIsolate(c *Case, rec *Rec) {
	docs := c.strs("docs")
	ps, bs := c.ints("ps"), c.ints("bs")
	parse := func(i int, r io.Reader) (*parser.Proto, error) {
		cc := *c
		if len(ps) > i {
			cc.P, cc.B = ps[i] == 1, bs[i] == 1
		}
		return cc.parse(r)
	}
	sched := c.ints("sched")
	chunks := c.ints("chunks") // number of reads that carry data, by document
	n := len(docs)
	solo := make([]runX, n)
	for i := range docs {
		solo[i] = run1(parse(i, strings.NewReader(docs[i])))
	}
	type ev struct{ i int }
	waiting := make([]chan struct{}, n) // grants
	blocked := make(chan int)           // a parse waits or has ended
	done := make([]bool, n)
	res := make([]runX, n)
	keep := make([]*parser.Proto, n)
	var mu sync.Mutex
	for i := range docs {
		waiting[i] = make(chan struct{})
		d := []byte(docs[i])
		steps := []int{}
		k := chunks[i]
		for j := 0; j < k; j++ {
			steps = append(steps, len(d)*(j+1)/k-len(d)*j/k)
		}
		i := i
		s := &script{data: d, steps: steps, gate: func() { blocked <- i; <-waiting[i] }}
		go func() {
			p, err := func() (p *parser.Proto, err error) {
				defer func() {
					if e := recover(); e != nil {
						err = fmt.Errorf("panic: %v", e)
						p = nil
					}
				}()
				return parse(i, s)
			}()
			mu.Lock()
			res[i], keep[i], done[i] = run1(p, err), p, true
			mu.Unlock()
			blocked <- i
		}()
		<-blocked // now it waits for its first read
	}
	turn := func(i int) {
		mu.Lock()
		d := done[i]
		mu.Unlock()
		if d {
			return
		}
		waiting[i] <- struct{}{}
		<-blocked
	}
	for _, i := range sched {
		turn(i)
	}
	for i := range docs {
		for {
			mu.Lock()
			d := done[i]
			mu.Unlock()
			if d {
				break
			}
			turn(i)
		}
	}
	// later work must not touch earlier trees
	after := make([]runX, n)
	for i := range docs {
		if keep[i] != nil {
			protoparser.UnorderedInterpret(keep[i])
			keep[i].Accept(&recorder{decline: map[int]bool{}})
		}
		parse(n-1-i, strings.NewReader(docs[n-1-i]))
	}
	for i := range docs {
		after[i] = res[i]
		if keep[i] != nil {
			after[i] = run1(keep[i], nil)
		}
	}
	rec.S, rec.Cp, rec.Out = "", []int{}, "result"
	rec.X = map[string]any{"solo": solo, "res": res, "after": after}
}

// opStorm runs parses freely at the same time.
func opStorm(c *Case, rec *Rec) {
	docs := c.strs("docs")
	n := len(docs)
	ps, bs := c.ints("ps"), c.ints("bs")
	parse := func(i int, more ...protoparser.Option) (*parser.Proto, error) {
		cc := *c
		if len(ps) > i {
			cc.P, cc.B = ps[i] == 1, bs[i] == 1
		}
		return cc.parse(strings.NewReader(docs[i]), more...)
	}
	solo := make([]runX, n)
	for i := range docs {
		solo[i] = run1(parse(i))
	}
	res := make([]runX, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range docs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 3; k++ {
				p, err := parse(i, protoparser.WithFilename("f"), protoparser.WithDebug(k == 1))
				if p != nil {
					protoparser.UnorderedInterpret(p)
				}
				x := run1(p, err)
				if k == 0 || !reflect.DeepEqual(x, solo[i]) {
					res[i] = x
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	rec.S, rec.Cp, rec.Out = "", []int{}, "result"
	rec.X = map[string]any{"solo": solo, "res": res, "after": res}
}

// ------------------------------------------------------------------- visits

type event struct {
	K  string   `json:"k"`
	At []string `json:"at"`
	P  Pos      `json:"p"`
}

// recorder is a visitor that declines the elements whose number, in the order
// of the visits, is in decline.
type recorder struct {
	n       int
	decline map[int]bool
	ev      []event
	all     bool
	seen    []any
}

func (r *recorder) see(v any) bool {
	r.n++
	x := node(v)
	e := event{K: x.K, At: x.At, P: x.P}
	if x.K == "empty" {
		e.P = Pos{}
	}
	r.ev = append(r.ev, e)
	r.seen = append(r.seen, v)
	return !r.decline[r.n] && !r.all
}

func (r *recorder) VisitComment(c *parser.Comment) {
	r.seen = append(r.seen, c)
	r.ev = append(r.ev, event{K: "comment", At: []string{c.Raw}, P: pos(c.Meta.Pos)})
}
func (r *recorder) VisitDeclaration(x *parser.Declaration) bool       { return r.see(x) }
func (r *recorder) VisitEdition(x *parser.Edition) bool               { return r.see(x) }
func (r *recorder) VisitEmptyStatement(x *parser.EmptyStatement) bool { return r.see(x) }
func (r *recorder) VisitEnum(x *parser.Enum) bool                     { return r.see(x) }
func (r *recorder) VisitEnumField(x *parser.EnumField) bool           { return r.see(x) }
func (r *recorder) VisitExtend(x *parser.Extend) bool                 { return r.see(x) }
func (r *recorder) VisitExtensions(x *parser.Extensions) bool         { return r.see(x) }
func (r *recorder) VisitField(x *parser.Field) bool                   { return r.see(x) }
func (r *recorder) VisitGroupField(x *parser.GroupField) bool         { return r.see(x) }
func (r *recorder) VisitImport(x *parser.Import) bool                 { return r.see(x) }
func (r *recorder) VisitMapField(x *parser.MapField) bool             { return r.see(x) }
func (r *recorder) VisitMessage(x *parser.Message) bool               { return r.see(x) }
func (r *recorder) VisitOneof(x *parser.Oneof) bool                   { return r.see(x) }
func (r *recorder) VisitOneofField(x *parser.OneofField) bool         { return r.see(x) }
func (r *recorder) VisitOption(x *parser.Option) bool                 { return r.see(x) }
func (r *recorder) VisitPackage(x *parser.Package) bool               { return r.see(x) }
func (r *recorder) VisitReserved(x *parser.Reserved) bool             { return r.see(x) }
func (r *recorder) VisitRPC(x *parser.RPC) bool                       { return r.see(x) }
func (r *recorder) VisitService(x *parser.Service) bool               { return r.see(x) }
func (r *recorder) VisitSyntax(x *parser.Syntax) bool                 { return r.see(x) }

type visitX struct {
	D   []int   `json:"d"`
	Ev  []event `json:"ev"`
	Own bool    `json:"own"` // what was visited are the elements of the tree, each once
}

// pointers collects all pointers below v.
func pointers(v reflect.Value, ps map[any]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			ps[v.Interface()] = true
			pointers(v.Elem(), ps)
		}
	case reflect.Interface:
		if !v.IsNil() {
			pointers(v.Elem(), ps)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			pointers(v.Index(i), ps)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				pointers(v.Field(i), ps)
			}
		}
	}
}

// own tells whether the elements are distinct ones of ps.
func own(xs []any, ps map[any]bool) bool {
	seen := map[any]bool{}
	for _, x := range xs {
		if !ps[x] || seen[x] {
			return false
		}
		seen[x] = true
	}
	return true
}

func opVisit(c *Case, rec *Rec) {
	p, err := c.parse(strings.NewReader(c.S))
	rec.put(p, err)
	rec.X = []visitX{}
	if !rec.OK {
		return
	}
	ps := map[any]bool{}
	pointers(reflect.ValueOf(p), ps)
	total := &recorder{decline: map[int]bool{}}
	p.Accept(total)
	n := total.n
	var xs []visitX
	walk := func(d []int) {
		r := &recorder{decline: map[int]bool{}, ev: []event{}}
		for _, i := range d {
			r.decline[i] = true
		}
		p.Accept(r)
		xs = append(xs, visitX{d, r.ev, own(r.seen, ps)})
	}
	if n <= c.num("exhaustive") {
		for m := 0; m < 1<<n; m++ {
			d := []int{}
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					d = append(d, i+1)
				}
			}
			walk(d)
		}
	} else {
		walk([]int{})
		if n <= 40 { // each element alone
			for i := 1; i <= n; i++ {
				walk([]int{i})
			}
		}
		seed := uint32(c.num("seed"))
		for k := 0; k < c.num("random"); k++ {
			d := []int{}
			for i := 1; i <= n; i++ {
				seed = seed*1664525 + 1013904223
				if seed>>28 < uint32(1+k*3) {
					d = append(d, i)
				}
			}
			walk(d)
		}
	}
	rec.X = xs
}

// ---------------------------------------------------------------- unordered

// uNode is the unordered view of a body: its lists, by kind in a fixed order.
type uNode struct {
	K     string     `json:"k"`
	At    []string   `json:"at"`
	Pre   []Cmt      `json:"pre"`
	Inl   []Cmt      `json:"inl"`
	Lc    []Cmt      `json:"lc"`
	P     Pos        `json:"p"`
	Q     Pos        `json:"q"`
	Lists [][]uChild `json:"lists"`
}

type uChild struct {
	N *Node  `json:"n,omitempty"` // an element as it is
	U *uNode `json:"u,omitempty"` // an element with a view of its own
}

func leafs[T any](xs []T) []uChild {
	r := []uChild{}
	for _, x := range xs {
		r = append(r, uChild{N: node(x)})
	}
	return r
}

func views[T any](xs []T, f func(T) *uNode) []uChild {
	r := []uChild{}
	for _, x := range xs {
		r = append(r, uChild{U: f(x)})
	}
	return r
}

func uMeta(k, at string, pre []*parser.Comment, inl, lc *parser.Comment, m meta.Meta) *uNode {
	return &uNode{K: k, At: []string{at}, Pre: cmts(pre), Inl: cmt1(inl), Lc: cmt1(lc), P: pos(m.Pos), Q: pos(m.LastPos)}
}

func uMessage(x *unordered.Message) *uNode {
	n := uMeta("message", x.MessageName, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly, x.Meta)
	b := x.MessageBody
	n.Lists = [][]uChild{leafs(b.Fields), views(b.Enums, uEnum), views(b.Messages, uMessage), leafs(b.Options), leafs(b.Oneofs),
		leafs(b.Maps), leafs(b.Groups), leafs(b.Reserves), leafs(b.Extends), leafs(b.EmptyStatements), leafs(b.Extensions)}
	return n
}

func uEnum(x *unordered.Enum) *uNode {
	n := uMeta("enum", x.EnumName, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly, x.Meta)
	b := x.EnumBody
	n.Lists = [][]uChild{leafs(b.Options), leafs(b.EnumFields), leafs(b.Reserveds), leafs(b.EmptyStatements)}
	return n
}

func uService(x *unordered.Service) *uNode {
	n := uMeta("service", x.ServiceName, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly, x.Meta)
	b := x.ServiceBody
	n.Lists = [][]uChild{leafs(b.Options), leafs(b.RPCs), leafs(b.EmptyStatements)}
	return n
}

func uExtend(x *unordered.Extend) *uNode {
	n := uMeta("extend", x.MessageType, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly, x.Meta)
	b := x.ExtendBody
	n.Lists = [][]uChild{leafs(b.Fields), leafs(b.EmptyStatements)}
	return n
}

func uProto(x *unordered.Proto) *uNode {
	n := &uNode{K: "file", At: []string{}, Pre: []Cmt{}, Inl: []Cmt{}, Lc: []Cmt{}}
	b := x.ProtoBody
	head := []uChild{}
	if x.Syntax != nil {
		head = append(head, uChild{N: node(x.Syntax)})
	}
	if x.Edition != nil {
		head = append(head, uChild{N: node(x.Edition)})
	}
	n.Lists = [][]uChild{head, leafs(b.Imports), leafs(b.Packages), leafs(b.Options), views(b.Messages, uMessage),
		views(b.Extends, uExtend), views(b.Enums, uEnum), views(b.Services, uService), leafs(b.EmptyStatements)}
	return n
}

func opUnordered(c *Case, rec *Rec) {
	p, err := c.parse(strings.NewReader(c.S))
	rec.put(p, err)
	none := &uNode{K: "none", At: []string{}, Pre: []Cmt{}, Inl: []Cmt{}, Lc: []Cmt{}, Lists: [][]uChild{}}
	x := map[string]any{"out": "none", "u": none, "same": true, "own": true, "parts": []uPart{}}
	rec.X = x
	if !rec.OK {
		return
	}
	before := file(p)
	u, err := protoparser.UnorderedInterpret(p)
	x["out"] = outcome(u != nil, err)
	if u != nil && err == nil {
		x["u"] = uProto(u)
	}
	x["same"] = reflect.DeepEqual(before, file(p))
	// the view is made of the elements of the tree, not of copies
	x["own"] = true
	if u != nil && err == nil {
		ps := map[any]bool{}
		pointers(reflect.ValueOf(p), ps)
		us := map[any]bool{}
		pointers(reflect.ValueOf(u), us)
		for q := range us {
			if strings.HasPrefix(fmt.Sprintf("%T", q), "*parser.") && !ps[q] {
				x["own"] = false
			}
		}
	}
	// each part by itself
	parts := []uPart{}
	for q := range func() map[any]bool { m := map[any]bool{}; pointers(reflect.ValueOf(p), m); return m }() {
		var v *uNode
		var err error
		ok := false
		switch y := q.(type) {
		case *parser.Message:
			var z *unordered.Message
			if z, err = unordered.InterpretMessage(y); z != nil {
				v, ok = uMessage(z), true
			}
		case *parser.Enum:
			var z *unordered.Enum
			if z, err = unordered.InterpretEnum(y); z != nil {
				v, ok = uEnum(z), true
			}
		case *parser.Service:
			var z *unordered.Service
			if z, err = unordered.InterpretService(y); z != nil {
				v, ok = uService(z), true
			}
		case *parser.Extend:
			var z *unordered.Extend
			if z, err = unordered.InterpretExtend(y); z != nil {
				v, ok = uExtend(z), true
			}
		default:
			continue
		}
		if !ok {
			v = none
		}
		parts = append(parts, uPart{node(q), outcome(ok, err), v})
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i].N.P[0] < parts[j].N.P[0] })
	if len(parts) > 12 {
		parts = parts[:12]
	}
	x["parts"] = parts
}

type uPart struct {
	N   *Node  `json:"n"`
	Out string `json:"out"`
	U   *uNode `json:"u"`
}

// ---------------------------------------------------------------- the lexer

var tokenNames = map[scanner.Token]string{
	scanner.TILLEGAL: "ILLEGAL", scanner.TEOF: "EOF", scanner.TIDENT: "IDENT", scanner.TINTLIT: "INT", scanner.TFLOATLIT: "FLOAT",
	scanner.TBOOLLIT: "BOOL", scanner.TSTRLIT: "STR", scanner.TCOMMENT: "COMMENT", scanner.TSEMICOLON: ";", scanner.TCOLON: ":",
	scanner.TEQUALS: "=", scanner.TQUOTE: "QUOTE", scanner.TLEFTPAREN: "(", scanner.TRIGHTPAREN: ")", scanner.TLEFTCURLY: "{",
	scanner.TRIGHTCURLY: "}", scanner.TLEFTSQUARE: "[", scanner.TRIGHTSQUARE: "]", scanner.TLESS: "<", scanner.TGREATER: ">",
	scanner.TCOMMA: ",", scanner.TDOT: ".", scanner.TMINUS: "-", scanner.TBOM: "BOM",
	scanner.TSYNTAX: "syntax", scanner.TEDITION: "edition", scanner.TSERVICE: "service", scanner.TRPC: "rpc",
	scanner.TRETURNS: "returns", scanner.TMESSAGE: "message", scanner.TEXTEND: "extend", scanner.TIMPORT: "import",
	scanner.TPACKAGE: "package", scanner.TOPTION: "option", scanner.TREPEATED: "repeated", scanner.TREQUIRED: "required",
	scanner.TOPTIONAL: "optional", scanner.TWEAK: "weak", scanner.TPUBLIC: "public", scanner.TONEOF: "oneof", scanner.TMAP: "map",
	scanner.TRESERVED: "reserved", scanner.TEXTENSIONS: "extensions", scanner.TDECLARATION: "declaration",
	scanner.TNUMBER: "number", scanner.TFULLNAME: "full_name", scanner.TTYPE: "type", scanner.TENUM: "enum",
	scanner.TSTREAM: "stream", scanner.TGROUP: "group",
}

var tokenOf = func() map[string]scanner.Token {
	m := map[string]scanner.Token{}
	for k, v := range tokenNames {
		m[v] = k
	}
	return m
}()

func tokName(t scanner.Token) string {
	if s, ok := tokenNames[t]; ok {
		return s
	}
	return fmt.Sprintf("token %d", int(t))
}

type lexObs struct {
	Tok  string   `json:"tok"`
	Text string   `json:"text"`
	Pos  Pos      `json:"pos"`
	Raw  string   `json:"raw"`
	Err  bool     `json:"err"` // a lexical error was reported
	Ret  string   `json:"ret"` // what a composite read or a look-ahead returned
	Rp   Pos      `json:"rp"`
	Bad  bool     `json:"bad"` // a composite read returned an error
	Rd   []string `json:"rd"`  // the tokens of a read and put back
}

func lexStep(l *lexer.Lexer, m byte) {
	switch m {
	case 'N':
		l.Next()
	case 'K':
		l.NextKeyword()
	case 'Q':
		l.NextKeywordOrStrLit()
	case 'S':
		l.NextStrLit()
	case 'L':
		l.NextLit()
	case 'D':
		l.NextNumberLit()
	case 'C':
		l.NextComment()
	default:
		panic("unknown mode")
	}
}

func opLexops(c *Case, rec *Rec) {
	l := lexer.NewLexer(strings.NewReader(c.S), lexer.WithDebug(c.num("debug") == 1))
	obs := []lexObs{}
	rec.Out = "result"
	rec.X = map[string]any{"ops": c.strs("ops"), "obs": &obs}
	for _, op := range c.strs("ops") {
		o := lexObs{Rd: []string{}, Pos: noPos, Rp: noPos}
		bad := func(s string, p scanner.Position, err error) {
			o.Ret, o.Rp, o.Bad = s, pos(p.Position), err != nil
			if err != nil {
				o.Ret, o.Rp = "", noPos
			}
		}
		before := l.LatestErr()
		switch op[0] {
		case 'N', 'K', 'Q', 'S', 'L', 'D', 'C':
			lexStep(l, op[0])
			o.Tok, o.Text, o.Pos, o.Raw = tokName(l.Token), l.Text, pos(l.Pos.Position), string(l.RawText)
		case 'J':
			n, _ := strconv.Atoi(op[1:])
			l.NextN(n)
			o.Tok, o.Text, o.Pos, o.Raw = tokName(l.Token), l.Text, pos(l.Pos.Position), string(l.RawText)
		case 'U':
			l.UnNext()
		case 'P':
			if len(op) == 1 {
				o.Ret = tokName(l.Peek())
			} else {
				n, _ := strconv.Atoi(op[1:])
				o.Ret = tokName(l.PeekN(n))
			}
		case 'T':
			l.ConsumeToken(tokenOf[op[1:]])
			if l.Token == tokenOf[op[1:]] {
				o.Ret = "consumed"
				o.Pos = pos(l.Pos.Position)
			}
		case 'B':
			var raws [][]rune
			for i := 1; i < len(op); i++ {
				lexStep(l, op[i])
				raws = append(raws, l.RawText)
				o.Rd = append(o.Rd, tokName(l.Token)+" "+l.Text)
			}
			for i := len(raws) - 1; i >= 0; i-- {
				l.UnNextTo(raws[i])
			}
		case 'Z':
			o.Bad = !parser.NewParser(l).IsEOF()
		case 'F':
			bad(l.ReadFullIdent())
		case 'M':
			bad(l.ReadMessageType())
		case 'E':
			bad(l.ReadEnumType())
		case 'R':
			bad(l.ReadConstant(op[1] == '1'))
		case ';':
			err := l.ReadEmptyStatement()
			o.Bad = err != nil
		default:
			panic("unknown lexer operation")
		}
		o.Err = l.LatestErr() != before
		obs = append(obs, o)
		if o.Err || (o.Bad && op[0] != ';' && op[0] != 'Z') {
			break
		}
	}
}

// -------------------------------------------------------------------- sweep

type row struct {
	Lo  int      `json:"lo"`
	Hi  int      `json:"hi"`
	S   string   `json:"s"`
	Cp  []int    `json:"cp"`
	Obs []lexObs `json:"obs"`
}

// opSweep reads pre, a character, post, for all characters from lo to hi, and
// puts neighbours together with which the same happens.
func opSweep(c *Case, rec *Rec) {
	ops := c.strs("ops")
	edge := map[int]bool{} // where a row begins in any case
	for _, e := range c.ints("edges") {
		edge[e] = true
	}
	var rows []row
	last := ""
	for r := c.num("lo"); r <= c.num("hi"); r++ {
		if 0xd800 <= r && r <= 0xdfff {
			continue
		}
		ch := string(rune(r))
		s := c.str("pre") + ch + c.str("post")
		var x Rec
		opLexops(&Case{S: s, Args: map[string]any{"ops": c.Args["ops"]}}, &x)
		obs := *(x.X.(map[string]any)["obs"].(*[]lexObs))
		k := ""
		for _, o := range obs {
			k += fmt.Sprintf("%s %s %v %s %v %v;", o.Tok, strings.ReplaceAll(o.Text, ch, "\ue000"), o.Pos, strings.ReplaceAll(o.Raw, ch, "\ue000"), o.Err, o.Bad)
		}
		if r >= 300 && !edge[r] && k == last && len(rows) > 0 && rows[len(rows)-1].Hi == r-1 {
			rows[len(rows)-1].Hi = r
			continue
		}
		last = k
		rows = append(rows, row{r, r, s, codepoints(s), obs})
	}
	rec.Out = "result"
	rec.X = map[string]any{"ops": ops, "rows": rows}
}

// ----------------------------------------------------------------- comments

type remark struct {
	R     string   `json:"r"`
	C     bool     `json:"c"`
	Lines []string `json:"lines"`
}

func opRemarks(c *Case, rec *Rec) {
	p, err := c.parse(strings.NewReader(c.S))
	rec.put(p, err)
	xs := []remark{}
	if rec.OK {
		v := &commentVisitor{}
		p.Accept(v)
		for _, k := range v.cs {
			ls := k.Lines()
			if ls == nil {
				ls = []string{}
			}
			xs = append(xs, remark{k.Raw, k.IsCStyle(), ls})
		}
	}
	rec.X = xs
}

type commentVisitor struct {
	recorder
	cs []*parser.Comment
}

func (v *commentVisitor) VisitComment(c *parser.Comment) { v.cs = append(v.cs, c) }

// opAfter parses the text behind a history of other parses, interpretations
// and walks of the same process.
func opAfter(c *Case, rec *Rec) {
	for i, d := range c.strs("docs") {
		h := &Case{P: c.ints("ps")[i] == 1, B: c.ints("bs")[i] == 1}
		p, err := h.parse(strings.NewReader(d))
		if err == nil {
			protoparser.UnorderedInterpret(p)
		}
	}
	rec.put(c.parse(strings.NewReader(c.S)))
}
