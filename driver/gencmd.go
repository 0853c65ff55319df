package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

type profile struct {
	st     style
	kw     int
	rich   int
	size   int
	mut    int // percentage of documents with token mutations
	text   int // percentage with a character-level edit
	strict int // percentage judged without the permissive extensions
	bic    int // percentage with loose comments kept
	long   int // per mille of very long lexemes
	semi   int // percentage of blocks with a semicolon behind them
	dam    int // percentage with damage at a token
}

var profiles = map[string]profile{
	"plain":    {style{2, 5, 60, 10, 3, 30}, 15, 25, 6, 0, 0, 25, 30, 4, 0, 0},
	"accept":   {style{3, 5, 50, 10, 5, 40}, 35, 25, 6, 70, 12, 40, 20, 2, 0, 14},
	"complete": {style{6, 8, 50, 15, 8, 40}, 45, 30, 8, 0, 0, 30, 20, 6, 0, 0},
	"const":    {style{5, 4, 40, 15, 4, 40}, 30, 85, 4, 5, 4, 10, 10, 6, 0, 5},
	"comment":  {style{12, 45, 55, 15, 5, 25}, 15, 15, 7, 0, 0, 30, 50, 3, 0, 0},
	"position": {style{15, 25, 50, 30, 25, 25}, 15, 35, 7, 0, 0, 25, 30, 6, 0, 0},
	"huge":     {style{3, 8, 60, 10, 5, 20}, 15, 20, 150, 0, 0, 20, 40, 20, 0, 0},
	"ends":     {style{4, 10, 60, 10, 5, 30}, 20, 20, 10, 6, 0, 65, 30, 3, 50, 0},
	"noted":    {style{6, 40, 60, 12, 5, 30}, 15, 15, 5, 0, 0, 60, 40, 2, 60, 0},
	"big":      {style{5, 12, 60, 10, 5, 20}, 20, 30, 30, 0, 0, 20, 40, 10, 0, 0},
}

// crowds is the percentage of documents in which one list, body or gap holds a crowd.
var crowds int

// monos is the percentage of documents with one kind of statement in each kind of body.
var monos int

// noise is the percentage of the crowds that are comments.
var noise = 20

// only is, if not negative, which kind of statement the outermost body is a crowd of.
var only = -1

func (g *gen) crowds() {
	if only >= 0 {
		g.crowd, g.mono = 1, map[string]int{}
		return
	}
	if g.r.Intn(100) < monos {
		g.mono = map[string]int{}
	}
	if g.r.Intn(100) < crowds {
		if g.r.Intn(100) < noise {
			g.loud = 1 + g.r.Intn(12)
		} else {
			switch g.crowd = 1; g.r.Intn(4) { // the outermost, an inner one, or any
			case 0:
				g.crowd = 1 + g.r.Intn(1+g.r.Intn(30))
			case 1, 2:
				g.crowd = 1 + g.r.Intn(7)
			}
			if g.r.Intn(5) < 3 {
				g.mono = map[string]int{}
			}
			if g.r.Intn(3) == 0 {
				g.ids = []string{"a", "B"}[:1+g.r.Intn(2)]
			}
		}
	}
}

// few is, for some documents, all the bodies that their comments have.
func few(r *rand.Rand) []string {
	switch r.Intn(8) {
	case 0:
		return []string{" c"}
	case 1:
		return []string{"", " x"}
	}
	return nil
}

// theIds are all the identifiers of all documents, if any.
var theIds string

// pool is, for some documents, all the identifiers that they have.
func pool(r *rand.Rand) []string {
	if theIds != "" {
		return strings.Split(theIds, ",")
	}
	if r.Intn(9) == 0 {
		return []string{"a", "B"}[:1+r.Intn(2)]
	}
	return nil
}

func genDoc(r *rand.Rand, p profile, kind string) (string, bool, bool) {
	s, P, B, _ := genPlaced(r, p, kind)
	return s, P, B
}

// gapsOnly has texts stretched in their gaps only.
var gapsOnly bool

// genPlaced is a document, and where it can be stretched.
func genPlaced(r *rand.Rand, p profile, kind string) (string, bool, bool, int) {
	strict := r.Intn(100) < p.strict
	g := &gen{r: r, perm: !strict || r.Intn(100) < 30, size: p.size, kw: p.kw, rich: p.rich, long: p.long, ends: p.semi, few: few(r), ids: pool(r)}
	g.crowds()
	g.kind(kind)
	for try := 0; g.crowd > 0 && try < 8; try++ { // there were fewer lists
		g.toks, g.mono, g.crowd, g.size = nil, nil, 1, p.size
		g.kind(kind)
	}
	if r.Intn(100) < p.mut {
		g.mutate(1 + r.Intn(2)*r.Intn(2))
	}
	s := ""
	if r.Intn(100) < p.dam {
		if s = g.damage(g.render(p.st)); s == "" {
			s = g.render(p.st)
		}
	} else {
		s = g.render(p.st)
	}
	at := g.place(s, gapsOnly)
	if r.Intn(100) < p.text {
		s, at = g.mutateText(s), -1
	}
	return s, !strict, r.Intn(100) < p.bic, at
}

// pairDoc is the tokens of one document laid out twice.
func pairDoc(r *rand.Rand, p profile, kind string) (string, string, bool, bool, int) {
	strict := r.Intn(100) < p.strict
	g := &gen{r: r, perm: !strict || r.Intn(100) < 30, size: p.size, kw: p.kw, rich: p.rich, long: p.long, ends: p.semi, few: few(r), ids: pool(r)}
	g.crowds()
	g.kind(kind)
	if r.Intn(100) < 35 {
		g.mutate(1)
	}
	a := g.render(style{0, 0, 30, 0, 0, 0})
	if r.Intn(2) == 0 {
		a = g.render(profiles["comment"].st)
	}
	b := g.render(profiles[[]string{"comment", "position", "plain"}[r.Intn(3)]].st)
	return a, b, !strict, r.Intn(100) < p.bic, g.place(b, true)
}

// nest is a text with n levels of something.
func nest(r *rand.Rand, n int) string {
	type lv struct{ head, open, mid, close, tail string }
	levels := []lv{
		{"", "message a{", "", "}", ""},
		{"", "message a{", "a a=1;", "}", ""},
		{"", "message a{oneof a{", "", "", ""},
		{"message a{", "group G=1{", "", "}", "}"},
		{"message a{", "repeated group G=1{", "", "}", "}"},
		{"option a=", "[", "1", "]", ";"},
		{"option a=", "{a:", "{}", "}", ";"},
		{"option a=", "{a ", "{}", "}", ";"},
		{"option a=", "{a:[", "1", "]}", ";"},
		{"option a=a", ".a", "", "", ";"},
		{"option ", "(a).", "a", "", "=1;"},
		{"option ", "(", "a", ")", "=1;"},
		{"package a", ".a", "", "", ";"},
		{"", "/*", "", "*/", ""},
		{"", "//\n", "", "", ""},
		{"", "//x\n/*y*/", ";", "", ""},
		{"message a{reserved 1", ",2 to 3", "", "", ";}"},
		{"message a{reserved \"a\"", ",'b'", "", "", ";}"},
		{"message a{extensions 1 to 2[", "declaration={number:1},", "declaration={number:1}", "", "];}"},
		{"option a=", "\"x\"", "", "", ";"},
		{"enum a{", "A=1;", "", "", "}"},
		{"enum a{", "A=1[a=1];//x\n", "", "", "}"},
		{"service a{", "rpc a(a)returns(a);", "", "", "}"},
		{"service a{", "rpc a(a)returns(a){option a=1;}", "", "", "}"},
		{"service a{rpc a(a)returns(a){", "option a=1;", "", "", "}}"},
		{"", "import \"a\";", "", "", ""},
		{"", ";", "", "", ""},
		{"extend a{", "a a=1;", "", "", "}"},
		{"message a{a a=1[", "a=1,", "a=1", "", "];}"},
	}
	l := levels[r.Intn(len(levels))]
	s := l.head + strings.Repeat(l.open, n) + l.mid
	if r.Intn(3) > 0 {
		s += strings.Repeat(l.close, n)
		if r.Intn(3) > 0 {
			s += l.tail
		}
	}
	return s
}

// rawMain writes inputs of all sorts for the question whether parsing ends.
func rawMain(args []string) {
	fs := flag.NewFlagSet("raw", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 1000, "cases")
	depth := fs.Int("depth", 10000, "deepest nesting")
	out := fs.String("out", "", "output")
	fs.Parse(args)
	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	r := rand.New(rand.NewSource(*seed))
	profs := []string{"plain", "accept", "const", "comment", "position"}
	stmts := []string{"syntax", "edition", "import", "package", "option", "message", "enum", "service", "extend", "oneof", "map",
		"reserved", "extensions", "efield", "group", "declaration"}
	doc := func() string {
		s, _, _ := genDoc(r, profiles[profs[r.Intn(len(profs))]], kinds[r.Intn(len(kinds))])
		return s
	}
	for i := 0; i < *n; i++ {
		var b []byte
		why := ""
		switch k := r.Intn(20); {
		case k < 3:
			why = "bytes"
			b = make([]byte, r.Intn(60))
			r.Read(b)
		case k < 9:
			why = "edited"
			b = []byte(doc())
			for m := 1 + r.Intn(4); m > 0 && len(b) > 0; m-- {
				j := r.Intn(len(b))
				switch r.Intn(4) {
				case 0:
					b = append(b[:j], b[j+1:]...)
				case 1:
					b[j] = byte(r.Intn(256))
				case 2:
					b = append(b[:j], append([]byte{byte(r.Intn(256))}, b[j:]...)...)
				default:
					e := j + r.Intn(len(b)-j)
					b = append(b[:e:e], b[j:]...)
				}
			}
		case k < 13:
			why = "cut"
			b = []byte(doc())
			if len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		case k < 18:
			why = "soup"
			var s []string
			for m := r.Intn(25); m >= 0; m-- {
				s = append(s, vocab[r.Intn(len(vocab))])
			}
			b = []byte(strings.Join(s, []string{"", " ", "\n"}[r.Intn(3)]))
		case k < 19 || *depth == 0:
			why = "long"
			g := &gen{r: r, size: 3, kw: 15, rich: 80, long: 400}
			g.kind(kinds[r.Intn(len(kinds))])
			b = []byte(g.render(profiles["comment"].st))
		default:
			why = "deep"
			b = []byte(nest(r, 1+int(float64(*depth)*r.Float64()*r.Float64())))
		}
		a := map[string]any{"debug": r.Intn(2)}
		if r.Intn(2) == 0 {
			a["name"] = "f.proto"
		}
		if why != "deep" && r.Intn(3) == 0 {
			a["kind"] = stmts[r.Intn(len(stmts))]
		}
		if b == nil {
			b = []byte{}
		}
		enc.Encode(&Case{ID: i, Op: "total", Raw: b, P: r.Intn(2) == 0, B: r.Intn(2) == 0, Why: why, Args: a})
	}
	w.Flush()
	f.Close()
}

func genMain(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 1000, "cases")
	prof := fs.String("profile", "plain", "profile")
	ks := fs.String("kinds", "", "kinds of documents, comma separated")
	out := fs.String("out", "", "output")
	maxLen := fs.Int("max", 1500, "longest document")
	stretched := fs.Int("stretch", 0, "percentage of documents that are stretched")
	fs.IntVar(&crowds, "crowd", 0, "percentage of documents with a crowd")
	fs.BoolVar(&gapsOnly, "gaps", false, "stretch gaps only")
	longest := fs.Int("longest", 70000, "how much a document is stretched at most")
	fs.IntVar(&noise, "noise", 20, "percentage of crowds that are comments")
	fs.StringVar(&theIds, "ids", "", "identifiers")
	fs.IntVar(&monos, "mono", 0, "percentage of documents with one kind of statement in each kind of body")
	turns := fs.Bool("turns", false, "a crowd of each kind of statement in turn")
	pair := fs.Bool("pair", false, "pairs of layouts")
	fs.Parse(args)
	p, ok := profiles[*prof]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown profile")
		os.Exit(2)
	}
	kk := kinds
	if *ks != "" {
		kk = strings.Split(*ks, ",")
	}
	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	r := rand.New(rand.NewSource(*seed))
	for i := 0; i < *n; i++ {
		if *pair {
			a, b, P, B, at := pairDoc(r, p, kk[i%len(kk)])
			if len(a) <= *maxLen && len(b) <= *maxLen {
				enc.Encode(&Case{ID: i, Op: "file", S: a, P: P, B: B})
				c := &Case{ID: i, Op: "file", S: b, P: P, B: B}
				stretchSome(r, c, at, *stretched, *longest)
				enc.Encode(c)
			}
			continue
		}
		if *turns {
			only = i / len(kk)
		}
		s, P, B, at := genPlaced(r, p, kk[i%len(kk)])
		if len(s) > *maxLen {
			continue
		}
		op := "file"
		if k := kk[i%len(kk)]; k[0] == '1' {
			op = k[1:]
			if r.Intn(100) < 60 { // something behind it
				t, _, _ := genDoc(r, p, kk[r.Intn(len(kk))])
				s += strings.TrimPrefix(t, "\ufeff")
			}
			if t := strings.TrimPrefix(s, "\ufeff"); t != s {
				s, at = t, at-3
			}
		}
		c := &Case{ID: i, Op: op, S: s, P: P, B: B}
		stretchSome(r, c, at, *stretched, *longest)
		enc.Encode(c)
	}
	w.Flush()
	f.Close()
}

func stretchSome(r *rand.Rand, c *Case, at, percent, longest int) {
	if at >= 0 && r.Intn(100) < percent {
		n := []int{300, 1100, 4090, 4096, 5000, 8200, 32800, 65536, 66000, 70000}[r.Intn(10)]
		switch r.Intn(3) {
		case 0:
			n = 20 + r.Intn(260)
		case 1:
			n = min(n, 1+r.Intn(20000))
		}
		if longest > 70000 && r.Intn(5) == 0 {
			n = longest
			if c.S[at] == '\n' { // which takes the real code ten times as long
				n /= 8
			}
		}
		c.Stretch = []int{at, n}
	}
}
