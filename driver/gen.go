package main

import (
	"math/rand"
	"strings"
)

// A generator of .proto sentences. It knows what sentences look like, not what
// they mean: the judgement over a generated document, and over what becomes of
// it by mutation, is the specification's alone.

type gen struct {
	r     *rand.Rand
	toks  []string       // tokens; "" is a place where a comment matters (statement boundary)
	perm  bool           // permissive constructs
	size  int            // budget of statements
	kw    int            // percentage of identifiers drawn from the words of the language
	rich  int            // percentage of rich constants
	long  int            // per mille of lexemes, gaps and lists that are very long
	ends  int            // percentage of blocks with a semicolon behind them
	few   []string       // the only bodies of comments, if any
	left  int            // how many more elements the list that is being written gets
	ids   []string       // the only identifiers, if any
	spans []span         // of what was rendered last
	crowd int            // one more than the number of lists in front of the one that is a crowd
	loud  int            // likewise, of gaps
	mono  map[string]int // the only kind of statement in each kind of body, if that is so
}

// alt chooses among the n kinds of statements of a kind of body.
func (g *gen) alt(body string, n int) int {
	if g.mono == nil || g.pc(2) {
		return g.n(n)
	}
	if _, ok := g.mono[body]; !ok {
		g.mono[body] = g.pickN(alts[body])
		if only >= 0 {
			g.mono[body] = alts[body][only%len(alts[body])]
		}
	}
	return g.mono[body]
}

// alts is one number of each kind of statement of each kind of body.
var alts = map[string][]int{"file": {0, 2, 3, 5, 7, 10, 11, 12}, "message": {0, 1, 2, 4, 6, 8, 9, 11, 13, 15}, "enum": {0, 2, 4},
	"oneof": {0, 1}, "service": {0, 1}, "declaration": {0, 1, 2, 3, 4}}

// many is the size of the list that begins here, if it is the one that is a crowd.
func (g *gen) many() int {
	if g.crowd == 0 {
		return 0
	}
	if g.crowd--; g.crowd > 0 {
		return 0
	}
	g.size = min(g.size, 2)
	if only >= 0 {
		return g.pickN([]int{130, 258, 300, 520, 520, 1030})
	}
	return g.pickN([]int{40, 66, 101, 130, 200, 258, 300, 520, 520, 1030})
}

// more tells whether a list goes on. Lists are short, and now and then long.
func (g *gen) more(p int) bool {
	if g.left > 0 {
		g.left--
		return true
	}
	if n := g.many(); n > 0 {
		g.left = n
		return true
	}
	if g.long > 0 && g.r.Intn(4000) < g.long {
		g.left = g.pickN([]int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 130, 260})
		if len(lex.Sizes) > 0 && g.pc(25) {
			g.left = min(g.knownSize(), 600)
		}
	}
	return g.pc(p)
}

func (g *gen) n(n int) int            { return g.r.Intn(n) }
func (g *gen) pc(p int) bool          { return g.r.Intn(100) < p }
func (g *gen) t(ts ...string)         { g.toks = append(g.toks, ts...) }
func (g *gen) bnd()                   { g.toks = append(g.toks, "") }
func (g *gen) pick(s []string) string { return s[g.r.Intn(len(s))] }

var plain = []string{"a", "b", "foo", "Bar", "x_1", "_u", "A", "Zz9", "snake_case_name", "e1", "x0", "F", "n", "_", "B_", "ABC"}
var words = []string{"syntax", "edition", "import", "package", "option", "message", "enum", "service", "extend",
	"rpc", "returns", "stream", "oneof", "map", "reserved", "extensions", "group", "repeated", "required", "optional",
	"public", "weak", "to", "max", "true", "false", "inf", "nan", "declaration", "number", "full_name", "type",
	"int32", "string", "bytes", "double", "bool", "float", "uint64", "sfixed32"}
var builtins = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
	"sfixed32", "sfixed64", "bool", "string", "bytes"}
var keytypes = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
	"sfixed32", "sfixed64", "bool", "string"}
var ints = []string{"0", "1", "2", "15", "19000", "536870911", "007", "0x1F", "0XaB", "00", "18446744073709551616", "0x0", "9", "10"}
var floats = []string{"1.", "1.5", ".5", "1e5", "1.e-3", "0e1", "1E+2", "12.34e56", "0.0", "10.", "123e0", "0.5E-1", ".0e9", "9.e1"}
var strs = []string{`"%s"`, `"%d %v"`, "\"`\"", `"$a"`, `"a"`, `'a'`, `""`, `''`, `"a b"`, `"it's"`, `'say "hi"'`, `"\""`, `'\''`, `"\\"`, `'\\'`, `"\n\t\x41\101"`, `"// no"`, `"/* no */"`,
	`'{};'`, `"é"`, `"日本"`, `"😀"`, `"\u00e9"`, `"a\\\"b"`, `'\\\''`, `"'"`, `'"'`, `"a.b.c"`, `"x/y.proto"`, `"\q"`, `"\0"`, `"\777"`, `'\xZ'`, `"	"`, `"proto3"`, `'proto2'`, `"2023"`, `'\"'`, `"\'"`}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
const alnum = letters + "0123456789"

// chars is a random text over the characters of set.
func (g *gen) chars(set string, n int) string {
	rs := []rune(set)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[g.n(len(rs))])
	}
	return b.String()
}

// length is a small number, and now and then a large one.
func (g *gen) length(small int) int {
	if g.r.Intn(1000) < g.long {
		if len(lex.Sizes) > 0 && g.pc(25) {
			return g.knownSize()
		}
		return g.pickN([]int{63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600, 1023, 1025})
	}
	return 1 + g.n(small)
}
func (g *gen) pickN(s []int) int { return s[g.n(len(s))] }

func (g *gen) ident() string {
	if len(g.ids) > 0 && !g.pc(10) {
		return g.pick(g.ids)
	}
	if g.pc(g.kw) {
		return g.pick(words)
	}
	if len(lex.Idents) > 0 && g.pc(3) {
		if w := g.known(); !strings.Contains(w, ".") {
			return w
		}
	}
	if g.pc(30) {
		w := g.chars(letters, 1) + g.chars(alnum, g.length(9)-1)
		if g.pc(15) { // close to a word of the language
			w = g.pick(words)
			switch g.n(4) {
			case 0:
				w += g.chars(alnum, 1)
			case 1:
				w = strings.ToUpper(w[:1]) + w[1:]
			case 2:
				w = w[:len(w)-1]
			default:
				w = "_" + w
			}
		}
		return w
	}
	return g.pick(plain)
}
func (g *gen) cap() string {
	if g.pc(30) {
		return g.chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1) + g.chars(alnum, g.length(6)-1)
	}
	return g.pick([]string{"A", "Foo", "G", "Bar_1", "Z9", "XYZ"})
}

const digits = "0123456789"

func (g *gen) intLit() string {
	if g.pc(50) {
		return g.pick(ints)
	}
	if len(lex.Ints) > 0 && g.pc(5) {
		return g.pick(lex.Ints)
	}
	switch g.n(4) {
	case 0:
		return "0" + g.chars("01234567", g.length(6))
	case 1:
		return "0" + g.chars("xX", 1) + g.chars("0123456789abcdefABCDEF", g.length(9))
	default:
		return g.chars("123456789", 1) + g.chars(digits, g.length(10)-1)
	}
}
func (g *gen) floatLit() string {
	if g.pc(40) {
		return g.pick(floats)
	}
	exp := func() string {
		return g.chars("eE", 1) + g.pick([]string{"", "+", "-"}) + g.chars(digits, g.length(3))
	}
	whole := "0"
	if g.pc(75) {
		whole = g.chars("123456789", 1) + g.chars(digits, g.length(5)-1)
	}
	switch g.n(5) {
	case 0:
		return "." + g.chars(digits, g.length(5))
	case 1:
		return "." + g.chars(digits, g.length(4)) + exp()
	case 2:
		return whole + exp()
	case 3:
		return whole + "." + g.chars(digits, g.length(5)-1) + exp()
	default:
		return whole + "." + g.chars(digits, g.length(6)-1)
	}
}

const strChars = "abcz019 .;:=(){}[]<>,-+/*#@!%$`~^&|?é日😀\t\r\u00a0\u2028\ufffd\ufeff\U0010ffff\u0300\u200b\ue000"

func (g *gen) strLit() string {
	if g.pc(50) {
		return g.pick(strs)
	}
	q := g.pick([]string{"\"", "'"})
	if len(lex.Idents) > 0 && g.pc(5) {
		return q + g.known() + q
	}
	if len(lex.Texts) > 0 && g.pc(4) {
		if w := g.pick(lex.Texts); !strings.Contains(w, "'") {
			return q + w + q
		}
	}
	var b strings.Builder
	b.WriteString(q)
	for n := g.length(8) - 1; n > 0; n-- {
		switch g.n(12) {
		case 0:
			b.WriteString(g.pick([]string{"\\\\", "\\\"", "\\'"}))
		case 1:
			b.WriteString("\\" + g.pick([]string{"a", "b", "f", "n", "r", "t", "v", "0", "1", "7", "12", "377", "x41", "xFf", "X0a", "x4", "Xb", "x", "?", "u00e9", "U0001F600"}))
		case 2:
			if q == "\"" {
				b.WriteString("'")
			} else {
				b.WriteString("\"")
			}
		default:
			if len(lex.Chars) > 0 && g.pc(8) {
				if c := g.pick(lex.Chars); !strings.ContainsAny(c, "\\'\"\n\x00") {
					b.WriteString(c)
				}
				continue
			}
			b.WriteString(g.chars(strChars, 1))
		}
	}
	b.WriteString(q)
	return b.String()
}
func (g *gen) full() {
	if len(lex.Idents) > 0 && g.pc(4) {
		ws := strings.Split(g.known(), ".")
		for _, w := range ws {
			g.t(w, ".")
		}
		if g.pc(50) {
			g.t(g.ident())
		} else {
			g.toks = g.toks[:len(g.toks)-1]
		}
		return
	}
	g.t(g.ident())
	for g.more(35) {
		g.t(".", g.ident())
	}
}
func (g *gen) msgType() {
	if g.pc(25) {
		g.t(".")
	}
	g.full()
}
func (g *gen) typ() {
	if g.pc(50) {
		g.t(g.pick(builtins))
	} else {
		g.msgType()
	}
}
func (g *gen) integer() { g.t(g.intLit()) }
func (g *gen) str()     { g.t(g.strLit()) }

func (g *gen) optName() {
	part := func() {
		if g.pc(60) {
			g.t(g.ident())
			return
		}
		g.t("(")
		if g.perm && g.pc(30) {
			g.t(".")
		}
		g.full()
		g.t(")")
	}
	part()
	for g.more(30) {
		g.t(".")
		part()
	}
}

func (g *gen) constant(depth int) {
	k := g.n(100)
	if k < 100-g.rich {
		k = k * 60 / (100 - g.rich)
	} else {
		k = 60 + g.n(40)
	}
	switch {
	case k < 15:
		g.full()
	case k < 27:
		g.integer()
	case k < 35:
		g.t(g.floatLit())
	case k < 50:
		g.str()
	case k < 55:
		g.t(g.pick([]string{"true", "false", "inf", "nan"}))
	case k < 65:
		g.t(g.pick([]string{"-", "+"}))
		g.t(g.pick([]string{g.intLit(), g.floatLit(), "inf", "nan"}))
	case k < 74:
		g.str()
		if g.perm {
			for g.more(60) {
				g.str()
			}
		}
	case k < 84 && g.perm && depth > 0:
		g.t("[")
		if g.pc(85) {
			g.constant(depth - 1)
			for g.more(45) {
				g.t(",")
				g.constant(depth - 1)
			}
		}
		g.t("]")
	case g.perm && depth > 0:
		g.aggregate(depth)
	default:
		g.integer()
	}
}

func (g *gen) aggregate(depth int) {
	g.t("{")
	n := max(g.n(4), g.many())
	for i := 0; i < n; i++ {
		g.t(g.ident())
		brace := false
		if g.pc(35) {
			if g.pc(50) {
				g.t(":")
				brace = true
			}
			g.aggregate(depth - 1 + b2i(depth == 0))
		} else {
			g.t(":")
			at := len(g.toks)
			g.constant(depth - 1)
			brace = g.toks[at] == "{"
		}
		if brace && g.pc(30) {
			g.t(";")
		}
		if i+1 < n {
			switch g.n(4) {
			case 0, 1:
				g.t(",")
			case 2:
				g.t(";")
			}
		} else if g.pc(25) {
			g.t(g.pick([]string{",", ";"}))
		}
	}
	g.t("}")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (g *gen) optBody() {
	g.optName()
	g.t("=")
	g.constant(3)
}
func (g *gen) option() { g.t("option"); g.optBody(); g.semi() }
func (g *gen) semi()   { g.t(";"); g.bnd() }
func (g *gen) brackets() {
	if !g.pc(35) {
		return
	}
	g.t("[")
	g.optBody()
	for g.more(35) {
		g.t(",")
		g.optBody()
	}
	g.t("]")
}
func (g *gen) rng() {
	g.integer()
	if g.pc(40) {
		g.t("to")
		if g.pc(40) {
			g.t("max")
		} else {
			g.integer()
		}
	}
}
func (g *gen) rngs() {
	g.rng()
	for g.more(40) {
		g.t(",")
		g.rng()
	}
}
func (g *gen) reserved() {
	g.t("reserved")
	if g.pc(50) {
		g.rngs()
	} else {
		name := func() {
			if g.pc(60) {
				g.str()
			} else {
				g.t(g.ident())
			}
		}
		name()
		for g.more(45) {
			if g.pc(75) {
				g.t(",")
			}
			name()
		}
	}
	g.semi()
}
func (g *gen) declaration() {
	g.t("declaration", "=", "{")
	g.bnd()
	n := max(g.n(6), g.many())
	if g.pc(8) && n > 0 {
		g.t(",")
	}
	for i := 0; i < n; i++ {
		switch g.alt("declaration", 5) {
		case 0:
			g.t("number", ":")
			g.integer()
		case 1:
			g.t("full_name", ":")
			g.str()
		case 2:
			g.t("type", ":")
			g.str()
		case 3:
			g.t("reserved", ":", g.pick([]string{"true", "false"}))
		default:
			g.t("repeated", ":", g.pick([]string{"true", "false"}))
		}
		if i+1 < n && g.pc(85) {
			g.t(",")
		}
	}
	g.t("}")
	g.bnd()
}
func (g *gen) extensions() {
	g.t("extensions")
	g.rngs()
	if g.pc(50) {
		g.t("[")
		g.bnd()
		g.declaration()
		for g.more(45) {
			g.t(",")
			g.bnd()
			g.declaration()
		}
		g.t("]")
		g.bnd()
	}
	g.semi()
}
func (g *gen) end() {
	g.t("}")
	g.bnd()
	if g.pc(12 + g.ends) {
		g.t(";")
		g.bnd()
	}
}
func (g *gen) block(f func(), n int) {
	g.t("{")
	g.bnd()
	from := 0
	for i := 0; i < n; i++ {
		if g.pc(8) {
			g.semi()
		}
		if i > 0 && g.pc(6) && len(g.toks)-from < 60 { // the last one again
			g.t(g.toks[from:]...)
			continue
		}
		from = len(g.toks)
		f()
	}
	if g.pc(5) {
		g.semi()
	}
	g.end()
}
func (g *gen) take(max int) int {
	n := g.n(max + 1)
	if m := g.many(); m > 0 {
		return m
	}
	if g.long > 0 && g.r.Intn(4000) < g.long {
		return g.pickN([]int{15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 130})
	}
	if n > g.size {
		n = g.size
	}
	g.size -= n
	return n
}
func (g *gen) label(p int) {
	if g.pc(p) {
		g.t(g.pick([]string{"repeated", "required", "optional"}))
	}
}
func (g *gen) field() {
	g.label(45)
	g.typ()
	g.t(g.ident(), "=")
	g.integer()
	g.brackets()
	g.semi()
}
func (g *gen) message() {
	g.t("message", g.ident())
	g.block(g.msgStmt, g.take(5))
}
func (g *gen) enum() {
	g.t("enum", g.ident())
	g.block(g.enumStmt, g.take(4))
}
func (g *gen) enumStmt() {
	switch g.alt("enum", 10) {
	case 0, 1:
		g.option()
	case 2, 3:
		g.reserved()
	default:
		id := g.ident()
		g.t(id, "=")
		if g.pc(30) {
			g.t("-")
		}
		g.integer()
		g.brackets()
		g.semi()
	}
}
func (g *gen) oneof() {
	g.t("oneof", g.ident())
	g.block(g.oneofStmt, g.take(4))
}
func (g *gen) oneofStmt() {
	if g.alt("oneof", 4) == 0 {
		g.option()
		return
	}
	g.typ()
	g.t(g.ident(), "=")
	g.integer()
	g.brackets()
	g.semi()
}
func (g *gen) mapField() {
	g.t("map", "<", g.pick(keytypes), ",")
	g.typ()
	g.t(">", g.ident(), "=")
	g.integer()
	g.brackets()
	g.semi()
}
func (g *gen) extend() {
	g.t("extend")
	g.msgType()
	g.block(g.field, g.take(3))
}
func (g *gen) group() {
	g.label(80)
	g.t("group", g.cap(), "=")
	g.integer()
	g.block(g.msgStmt, g.take(3))
}
func (g *gen) msgStmt() {
	if g.long > 0 && g.r.Intn(4000) < g.long { // a tower
		n := 4 + g.n(14)
		for i := 0; i < n; i++ {
			g.t("message", g.ident(), "{")
			g.bnd()
		}
		for i := 0; i < n; i++ {
			if g.pc(30) {
				g.field()
			}
			g.end()
		}
		return
	}
	switch g.alt("message", 22) {
	case 0:
		g.message()
	case 1:
		g.enum()
	case 2, 3:
		g.option()
	case 4, 5:
		g.oneof()
	case 6, 7:
		g.mapField()
	case 8:
		g.extend()
	case 9, 10:
		g.reserved()
	case 11, 12:
		g.extensions()
	case 13, 14:
		g.group()
	default:
		g.field()
	}
}
func (g *gen) rpc() {
	g.t("rpc", g.ident(), "(")
	if g.pc(35) {
		g.t("stream")
	}
	g.msgType()
	g.t(")", "returns", "(")
	if g.pc(35) {
		g.t("stream")
	}
	g.msgType()
	g.t(")")
	if g.pc(50) {
		g.semi()
		return
	}
	g.block(g.option, g.n(3))
}
func (g *gen) service() {
	g.t("service", g.ident())
	g.block(g.serviceStmt, g.take(4))
}
func (g *gen) serviceStmt() {
	if g.alt("service", 5) == 0 {
		g.option()
	} else {
		g.rpc()
	}
}
func (g *gen) syntax() {
	g.t("syntax", "=", g.pick([]string{`"proto3"`, `'proto3'`, `"proto2"`, `'proto2'`}))
	g.semi()
}
func (g *gen) edition() {
	g.t("edition", "=", g.pick([]string{`"2023"`, `'2024'`, `"1"`}))
	g.semi()
}
func (g *gen) imp() {
	g.t("import")
	if g.pc(40) {
		g.t(g.pick([]string{"public", "weak"}))
	}
	g.str()
	g.semi()
}
func (g *gen) pkg() { g.t("package"); g.full(); g.semi() }
func (g *gen) topStmt() {
	switch g.alt("file", 16) {
	case 0, 1:
		g.imp()
	case 2:
		g.pkg()
	case 3, 4:
		g.option()
	case 5, 6:
		g.enum()
	case 7, 8, 9:
		g.service()
	case 10:
		g.extend()
	case 11:
		g.semi()
	default:
		g.message()
	}
}

// stmts by kind, for documents that concern one construct.
func (g *gen) kind(k string) {
	wrapM := func(f func()) {
		g.t("message", g.pick(plain), "{")
		g.bnd()
		n := 1 + g.n(2)
		for i := 0; i < n; i++ {
			f()
		}
		g.end()
	}
	inner := map[string]func(){"iservice": g.serviceStmt, "ienum": g.enumStmt, "ioneof": g.oneofStmt, "iextend": g.field, "imessage": g.msgStmt}
	if f, ok := inner[k]; ok { // statements of a body, without the body
		for i := g.n(3); i >= 0; i-- {
			f()
		}
		return
	}
	switch k {
	case "lists": // a constant of many small parts
		g.perm = true
		g.t("option")
		g.optName()
		g.t("=")
		n := g.pickN([]int{2, 9, 33, 66, 101, 130, 258, 300, 520, 1030, 2050})
		k := g.n(4)
		g.t([]string{"[", "{", g.pick([]string{`"s"`, `'a'`}), "a"}[k])
		for i := 0; i < n; i++ {
			switch k {
			case 0:
				if i > 0 {
					g.t(",")
				}
				g.constant(0)
			case 1:
				g.t(g.ident(), ":")
				g.constant(0)
				if i+1 < n || g.pc(30) {
					g.t(g.pick([]string{",", ";"}))
				}
			case 2:
				g.str()
			default:
				g.t(".", g.ident())
			}
		}
		if k < 2 {
			g.t([]string{"]", "}"}[k])
		}
		g.semi()
	case "1oneof":
		g.oneof()
	case "1map":
		g.mapField()
	case "1reserved":
		g.reserved()
	case "1extensions":
		g.extensions()
	case "1efield":
		g.field()
	case "1group":
		g.group()
	case "1syntax":
		g.syntax()
	case "1edition":
		g.edition()
	case "1import", "1package", "1option", "1message", "1enum", "1service", "1extend":
		g.kind(k[1:])
	case "1declaration":
		g.declaration()
	case "import":
		g.imp()
	case "package":
		g.pkg()
	case "option":
		g.option()
	case "message":
		g.message()
	case "enum":
		g.enum()
	case "service":
		g.service()
	case "extend":
		g.extend()
	case "oneof":
		wrapM(g.oneof)
	case "map":
		wrapM(g.mapField)
	case "reserved":
		if g.pc(70) {
			wrapM(g.reserved)
		} else {
			g.t("enum", "E", "{")
			g.bnd()
			g.reserved()
			g.end()
		}
	case "extensions":
		wrapM(g.extensions)
	case "field":
		wrapM(g.field)
	case "group":
		wrapM(g.group)
	case "rpc":
		g.t("service", g.pick(plain), "{")
		g.bnd()
		g.rpc()
		g.end()
	case "head":
		if g.pc(60) {
			g.syntax()
		}
		if g.pc(40) {
			g.edition()
		}
		if g.pc(50) {
			g.topStmt()
		}
	default:
		if g.pc(50) {
			g.syntax()
		} else if g.pc(30) {
			g.edition()
		}
		n := 1 + g.n(4)
		if g.size > 50 {
			n = 10 + g.n(40)
		}
		n = max(n, g.many())
		for i := 0; i < n; i++ {
			g.topStmt()
		}
	}
}

var kinds = []string{"import", "package", "option", "message", "enum", "service", "extend", "oneof", "map",
	"reserved", "extensions", "field", "group", "rpc", "head", "file"}

// ---------------------------------------------------------------- rendering

type style struct {
	cmt   int // percentage of gaps with comments, inside statements
	bcmt  int // the same at statement boundaries
	nl    int // percentage of line breaks in gaps at boundaries
	inl   int // line breaks inside statements
	odd   int // percentage of unusual white space
	tight int // percentage of gaps left out where possible
}

var cmtBodies = []string{"", " c", "x", " a b", " é", " 日本 ", "*", "/", " // ", " \"q\" ", " { } ;", " message M {}", " 😀", "\t", " TODO: x", "!", "@"}

const cmtChars = "abc xyz 019 .;:=(){}[]<>,-+/*#@!%$`~^&|?\"'\\é日😀\t\u00a0\u2028\ufffd\ufeff\U0010ffff\u0300\u200b\ue000"

func (g *gen) cmtBody() string {
	if len(g.few) > 0 {
		return g.pick(g.few)
	}
	if g.pc(40) {
		return g.chars(cmtChars, g.length(10)-1)
	}
	if len(lex.Texts) > 0 && g.pc(6) {
		w := g.pick([]string{g.pick(lex.Texts), g.pick(lex.Chars), g.known()})
		return strings.ReplaceAll(strings.ReplaceAll(g.chars(" a", g.n(2))+w+g.chars(" a", g.n(2)), "*/", ""), "\n", "")
	}
	return g.pick(cmtBodies)
}

func (g *gen) lineCmt() string {
	b := g.cmtBody()
	if len(g.few) > 0 {
		return "//" + b + "\n"
	}
	if g.pc(10) {
		b += " /* "
	}
	if g.pc(8) {
		b += "\r"
	}
	return "//" + b + "\n"
}

func (g *gen) blockCmt() string {
	b := g.cmtBody()
	if len(g.few) == 0 && g.pc(25) {
		b += g.pick([]string{"\n", "\n\n", "\r\n", "\n * "}) + g.cmtBody()
		if g.r.Intn(500) < g.long { // many lines
			b += strings.Repeat(g.pick([]string{"\n", "\n * x", "\r\n\t"}), g.pickN([]int{15, 16, 17, 31, 32, 33, 34, 40, 63, 64, 65, 100}))
		}
	}
	b = strings.ReplaceAll(b, "*/", "* /")
	if strings.HasPrefix(b, "/") {
		b = " " + b
	}
	if len(g.few) == 0 && g.pc(10) {
		b += "*"
	}
	return "/*" + b + "*/"
}

func (g *gen) ws(st style, boundary bool) string {
	if g.r.Intn(1000) < g.long/3 {
		if g.pc(25) { // many lines
			return strings.Repeat(g.pick([]string{"\n", "\n", "\r\n", " \n"}), g.pickN([]int{9, 15, 16, 17, 31, 32, 33, 34, 40, 63, 64, 65, 100, 130, 260}))
		}
		return g.chars(" \t\n\r ", g.length(3))
	}
	if g.pc(st.odd) {
		return g.pick([]string{"\t", "\r\n", "\v", "\f", "\u00a0", "\u2003", "\u3000", "\u0085", "\u2028", "\r", "   ", "\n\n", " \n ", "\n\t"})
	}
	p := st.inl
	if boundary {
		p = st.nl
	}
	if g.pc(p) {
		if g.pc(40) {
			return "\n" + strings.Repeat(g.pick([]string{" ", " ", "\t"}), 1+g.n(9))
		}
		return "\n"
	}
	return " "
}

func (g *gen) gap(st style, boundary bool) string {
	p := st.cmt
	if boundary {
		p = st.bcmt
	}
	var b strings.Builder
	many := 0
	if p > 0 && g.r.Intn(6000) < g.long { // a crowd of comments
		many = g.pickN([]int{9, 17, 33, 65, 70, 130})
	}
	if g.loud > 0 {
		if g.loud--; g.loud == 0 {
			many = g.pickN([]int{40, 66, 130, 260, 300, 520, 1030})
			if g.pc(50) { // and again
				g.loud = 1 + g.n(6)
			}
		}
	}
	for n := 0; n < many || n < 4 && g.pc(p); n++ {
		if g.pc(70) {
			b.WriteString(g.ws(st, boundary))
		}
		if g.pc(50) {
			b.WriteString(g.lineCmt())
		} else {
			b.WriteString(g.blockCmt())
		}
	}
	if b.Len() == 0 || g.pc(60) {
		b.WriteString(g.ws(st, boundary))
	}
	return b.String()
}

func wordish(c byte) bool {
	return c == '_' || c == '.' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c >= 0x80
}

// needGap tells whether two tokens would be read as another token if joined.
func needGap(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	if wordish(x) && wordish(y) && !(a == "." && (y == '_' || y >= 'A')) && !(b == "." && !(x >= '0' && x <= '9') && x != '.') {
		return true
	}
	if (x == 'e' || x == 'E') && (y == '-' || y == '+') && a[0] <= '9' {
		return true
	}
	return x == '/' || y == '/'
}

func (g *gen) render(st style) string {
	var b strings.Builder
	g.spans = nil
	put := func(s, tok string) {
		g.spans = append(g.spans, span{b.Len(), b.Len() + len(s), tok})
		b.WriteString(s)
	}
	if g.pc(4) {
		b.WriteString("\ufeff")
	}
	if g.pc(st.bcmt) || g.pc(10) {
		put(g.gap(st, true), "")
	}
	prev, boundary := "", false
	for _, t := range g.toks {
		if t == "" {
			boundary = true
			continue
		}
		if prev != "" {
			tight := g.pc(st.tight) && !needGap(prev, t)
			if !tight {
				put(g.gap(st, boundary), "")
			}
		}
		put(t, t)
		prev, boundary = t, false
	}
	if g.pc(70) {
		s := g.gap(st, true)
		if g.pc(30) {
			s = strings.TrimSuffix(s, "\n")
			s = strings.TrimSuffix(s, " ")
		}
		put(s, "")
	}
	return b.String()
}

// ----------------------------------------------------------------- mutation

var vocab = append(append(append([]string{}, words...), plain[:6]...),
	";", ":", "=", "(", ")", "{", "}", "[", "]", "<", ">", ",", ".", "-", "+", `"s"`, `'t'`, "1", "0x2", "1.5", "08", "0x", "1e", `"u`, "@", "*", "/",
	"}", "{", ";", "]", "[", "\ufeff", "\x00", "\\", "//", "/*", "\"", "'", "#", "$", "`", "~", "é")

// kin are the words that can be where w is.
func kin(w string) []string {
	for _, c := range [][]string{{"optional", "required", "repeated"}, {"public", "weak"}, {"syntax", "edition"}, {"to", "max"}, {"returns", "stream", "rpc"},
		{"map", "group", "oneof"}, {"message", "enum", "extend", "service"}, {"option", "reserved", "extensions", "package", "import"}} {
		for _, x := range c {
			if x == w {
				return c
			}
		}
	}
	return nil
}

// mutate makes n token-level edits.
func (g *gen) mutate(n int) {
	for ; n > 0; n-- {
		ix := []int{}
		for i, t := range g.toks {
			if t != "" {
				ix = append(ix, i)
			}
		}
		if len(ix) == 0 {
			return
		}
		i := ix[g.n(len(ix))]
		ins := func(at int, s string) {
			g.toks = append(g.toks[:at], append([]string{s}, g.toks[at:]...)...)
		}
		if g.pc(12) { // one more word of the kind there is
			for try := 0; try < 40; try++ {
				i := ix[g.n(len(ix))]
				if c := kin(g.toks[i]); c != nil {
					if w := g.pick(c); g.pc(50) {
						ins(i, w)
					} else {
						ins(i+1, w)
					}
					break
				}
			}
			continue
		}
		switch g.n(12) {
		case 0, 1, 2:
			g.toks = append(append([]string{}, g.toks[:i]...), g.toks[i+1:]...)
		case 3, 4:
			ins(i, g.toks[i])
		case 5:
			j := ix[g.n(len(ix))]
			g.toks[i], g.toks[j] = g.toks[j], g.toks[i]
		case 6, 7, 8:
			g.toks[i] = g.pick(vocab)
		case 9, 10:
			ins(i, g.pick(vocab))
		default:
			ins(i, g.toks[ix[g.n(len(ix))]])
		}
	}
}

var halves = []string{"/*", "/* x", "/**", "/*/", "/* *", "/", "//", "// x", "'", "\"", "\"abc", "'\\'", "\"\\\"", "'a\n'", "\"a\x00\"", "0x", "0X", "1e", "1e+", "1.5E-", ".", "-", "08", "09.5",
	"@", "#", "\\", "+", "%", "%s", "%d", "&", "?", "`", "~", "!", "^", "|", "1%2", "\u203f", "\u00b2", "\u0660", "a\u0301", "\ufeff", "\x00", "$", "0xg", "1.e", "a.", ".1", "1_", "_"}

// damage spoils the text at one of its tokens: what is no token, or only the
// beginning of one, at the end or in the middle, or a token with more to it.
func (g *gen) damage(s string) string {
	if g.pc(45) {
		if g.pc(50) {
			s = strings.TrimRight(s, "\n")
		}
		return s + g.pick([]string{"", " ", "\n", "\n\n", "/* c */", "// c\n"}) + g.pick(halves) + g.pick([]string{"", "", "", "\n", " ", ";"})
	}
	ix := []int{}
	for i, t := range g.toks {
		if t != "" && (wordish(t[0]) || t[0] == '"' || t[0] == '\'' || g.pc(20)) {
			ix = append(ix, i)
		}
	}
	if len(ix) == 0 {
		return s
	}
	i := ix[g.n(len(ix))]
	t := g.toks[i]
	switch g.n(6) {
	case 5: // a long token
		n := g.pickN([]int{15, 16, 17, 31, 32, 33, 40, 48, 49, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300, 600})
		w := g.pick([]string{"", "", "", "-", "."}) + g.pick([]string{"a", "longWord_", "1", "9", "0x1", ".5", "1e1", "\"", "'"})
		q := ""
		if l := w[len(w)-1]; l == '"' || l == '\'' {
			q = w[len(w)-1:]
		}
		fill := g.pick([]string{"a", "b9", "7", "1", "x_y", "é"})
		if q == "" && fill == "é" {
			fill = "0"
		}
		l := g.pick([]string{w + strings.Repeat(fill, n/len(fill)+1) + q, w + strings.Repeat(fill, n/len(fill)+1), strings.Repeat("9", n)})
		switch g.n(3) {
		case 0:
			t = l
		case 1:
			t += " " + l
		default:
			t = l + " " + t
		}
	case 0:
		t = g.pick(halves)
	case 3: // in other letters
		t = g.pick([]string{strings.ToUpper(t), strings.ToLower(t), strings.ToUpper(t[:1]) + t[1:]})
	case 1:
		t += g.pick([]string{"", " ", ""}) + g.pick([]string{".", "x", "e", "_", "1", ".5", "0", "-", "+", "\"", "'", "/", "E5", "u", "/*", "X1", "8", ". ", "..", ".a"})
	case 2:
		t = g.pick([]string{"0", "1", ".", "-", "+", "'", "\"", "/", "_", "0x", "x", "- -", "--", "+-", "..", "(", "\\"}) + g.pick([]string{"", " ", ""}) + t
	default:
		if len(t) > 1 {
			t = t[:len(t)-1]
			if g.pc(50) {
				t = g.toks[i][1:]
			}
		} else {
			t += t
		}
	}
	g.toks[i] = t
	return ""
}

// mutateText makes a character-level edit.
func (g *gen) mutateText(s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return s
	}
	i := g.n(len(rs))
	const odd = "/*\"'\\.0123eExX-+;{}[]()<>=,: \n\r\t_aZ\x00é日\ufeff"
	o := []rune(odd)
	switch g.n(5) {
	case 0:
		return string(rs[:i])
	case 1:
		return string(rs[:i]) + string(rs[i+1:])
	case 2:
		return string(rs[:i]) + string(o[g.n(len(o))]) + string(rs[i:])
	case 3:
		return string(rs[:i]) + string(o[g.n(len(o))]) + string(rs[i+1:])
	default:
		j := i + g.n(len(rs)-i)
		return string(rs[:i]) + string(rs[j:])
	}
}
