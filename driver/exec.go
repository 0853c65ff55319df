package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// Case is one experiment on the real code.
type Case struct {
	ID int    `json:"id"`
	Op string `json:"op"` // "file", or the kind of a single statement
	S  string `json:"s"`
	P  bool   `json:"P"`
	B  bool   `json:"B"`

	Raw  []byte         `json:"raw,omitempty"`  // input bytes where they are no text
	Args map[string]any `json:"args,omitempty"` // what else the operation needs
	Why  string         `json:"why,omitempty"`  // how the case was made

	Stretch []int `json:"stretch,omitempty"` // see stretchCase
	Fresh   bool  `json:"fresh,omitempty"`   // in a process of its own
}

// Rec is what the real code did with it.
type Rec struct {
	ID  int    `json:"id"`
	Op  string `json:"op"`
	S   string `json:"s"`
	Cp  []int  `json:"cp"`
	P   bool   `json:"P"`
	B   bool   `json:"B"`
	OK  bool   `json:"ok"`
	T   *Node  `json:"t"`
	Ep  Pos    `json:"ep"` // the reported position, -1s if there is none
	Err string `json:"err"`
	Out string `json:"out"`         // "result", "error", "both", "neither", "panic", "hang", "crash"
	X   any    `json:"x,omitempty"` // further observations, by operation

	Base *Pos `json:"base,omitempty"` // where the text begins, if not at the beginning
}

var noPos = Pos{-1, -1, -1}

func codepoints(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func (r *Rec) setErr(err error) {
	r.Ep = noPos
	if err == nil {
		return
	}
	r.Err = err.Error()
	if err == errNone {
		r.Ep = Pos{-2, -2, -2}
	}
	var me *meta.Error
	if errors.As(err, &me) {
		r.Ep = pos(me.Pos)
	}
}

// errNone says that there was no statement of the kind asked for.
var errNone = errors.New("no such statement")

func outcome(have bool, err error) string {
	switch {
	case have && err == nil:
		return "result"
	case !have && err != nil:
		return "error"
	case have:
		return "both"
	default:
		return "neither"
	}
}

func execCase(c *Case) (rec *Rec) {
	if len(c.Stretch) == 2 {
		return stretchCase(c)
	}
	rec = &Rec{ID: c.ID, Op: c.Op, S: c.S, Cp: codepoints(c.S), P: c.P, B: c.B, Ep: noPos, T: newNode("none")}
	defer func() {
		if e := recover(); e != nil {
			rec.OK, rec.T = false, newNode("none")
			rec.Out, rec.Err = "panic", fmt.Sprint(e)
		}
	}()
	if f, ok := ops[c.Op]; ok {
		f(c, rec)
		return rec
	}
	if c.Op == "file" {
		var in io.Reader = strings.NewReader(c.S)
		if c.Raw != nil { // no text: the specification sees what is read of it
			in = bytes.NewReader(c.Raw)
			rec.Cp = codepoints(string(c.Raw))
			rec.S = string([]rune(string(c.Raw)))
		}
		pad := c.str("pad")
		if pad != "" { // far from the beginning of the file
			pad = strings.Repeat(pad, c.num("times"))
			in = strings.NewReader(pad + c.S)
			rec.Base = &Pos{len(pad), 1 + strings.Count(pad, "\n"), 1 + utf8.RuneCountInString(pad[strings.LastIndexByte(pad, '\n')+1:])}
		}
		os := []protoparser.Option{protoparser.WithPermissive(c.P), protoparser.WithBodyIncludingComments(c.B)}
		if c.num("bare") == 1 { // permissive, without loose comments, is the default
			os = nil
		}
		p, err := protoparser.Parse(in, os...)
		rec.setErr(err)
		rec.Out = outcome(p != nil, err)
		rec.OK = rec.Out == "result"
		if rec.OK {
			rec.T = file(p)
			if n := c.num("statements"); n > 0 { // those of the pad
				rec.T.Body = rec.T.Body[min(n, len(rec.T.Body)):]
			}
		}
		return rec
	}
	n, l, err := single(c)
	rec.setErr(err)
	rec.Out = outcome(n != nil, err)
	rec.OK = rec.Out == "result"
	rest := -1
	if rec.OK {
		rest = unread(l)
	}
	rec.X = map[string]int{"rest": rest}
	if rec.OK {
		t := newNode("file")
		if c.Op == "syntax" || c.Op == "edition" {
			t.Xb = []*Node{n}
		} else {
			t.Body = []*Node{n}
		}
		rec.T = t
	}
	return rec
}

var ops = map[string]func(*Case, *Rec){}

type setter interface {
	parser.HasInlineCommentSetter
}

// unread is the number of bytes that are still to be read, -1 if they hold
// what is no token.
func unread(l *lexer.Lexer) int {
	n := 0
	for {
		l.Next()
		n += len(string(l.RawText))
		if l.Token == scanner.TEOF {
			return n
		}
		if len(l.RawText) == 0 || l.LatestErr() != nil {
			return -1
		}
	}
}

// single parses one statement with the method for it, with the comments
// around it.
func single(c *Case) (*Node, *lexer.Lexer, error) {
	l := lexer.NewLexer(strings.NewReader(c.S))
	n, err := statement(c, l)
	return n, l, err
}

func statement(c *Case, l *lexer.Lexer) (*Node, error) {
	p := parser.NewParser(l, parser.WithPermissive(c.P),
		parser.WithBodyIncludingComments(c.B))
	cs := p.ParseComments()
	switch c.Op {
	case "syntax":
		x, err := p.ParseSyntax()
		if err != nil {
			return nil, err
		}
		if x == nil {
			return nil, errNone
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "edition":
		x, err := p.ParseEdition()
		if err != nil {
			return nil, err
		}
		if x == nil {
			return nil, errNone
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "import":
		x, err := p.ParseImport()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "package":
		x, err := p.ParsePackage()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "option":
		x, err := p.ParseOption()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "message":
		x, err := p.ParseMessage()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "enum":
		x, err := p.ParseEnum()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "service":
		x, err := p.ParseService()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "extend":
		x, err := p.ParseExtend()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "oneof":
		x, err := p.ParseOneof()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "map":
		x, err := p.ParseMapField()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "reserved":
		x, err := p.ParseReserved()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "extensions":
		x, err := p.ParseExtensions()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "efield": // ParseField knows no groups
		x, err := p.ParseField()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "group":
		x, err := p.ParseGroupField()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		p.MaybeScanInlineComment(x)
		return node(x), nil
	case "declaration":
		x, err := p.ParseDeclaration()
		if err != nil {
			return nil, err
		}
		x.Comments = cs
		return node(x), nil
	}
	panic("unknown operation " + c.Op)
}
