package main

import (
	"fmt"
	"strconv"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// Pos is <<offset, line, column>> of the specification.
type Pos [3]int

// Cmt is a comment [r, p, q] of the specification.
type Cmt struct {
	R string `json:"r"`
	P Pos    `json:"p"`
	Q Pos    `json:"q"`
}

// Node is a node of the specification's tree. Its fields carry the values
// that the real tree holds at the public API.
type Node struct {
	K    string      `json:"k"`
	At   []string    `json:"at"`
	Opts [][2]string `json:"opts"`
	Body []*Node     `json:"body"`
	Xb   []*Node     `json:"xb"`
	Pre  []Cmt       `json:"pre"`
	Inl  []Cmt       `json:"inl"`
	Lc   []Cmt       `json:"lc"`
	Emb  []Cmt       `json:"emb"`
	P    Pos         `json:"p"`
	Q    Pos         `json:"q"`
}

func newNode(k string, at ...string) *Node {
	if at == nil {
		at = []string{}
	}
	return &Node{K: k, At: at, Opts: [][2]string{}, Body: []*Node{}, Xb: []*Node{},
		Pre: []Cmt{}, Inl: []Cmt{}, Lc: []Cmt{}, Emb: []Cmt{}}
}

func pos(p meta.Position) Pos { return Pos{p.Offset, p.Line, p.Column} }

func (n *Node) meta(m meta.Meta) *Node {
	n.P, n.Q = pos(m.Pos), pos(m.LastPos)
	return n
}

func cmt(c *parser.Comment) Cmt { return Cmt{c.Raw, pos(c.Meta.Pos), pos(c.Meta.LastPos)} }

func cmts(cs []*parser.Comment) []Cmt {
	r := []Cmt{}
	for _, c := range cs {
		r = append(r, cmt(c))
	}
	return r
}

func cmt1(c *parser.Comment) []Cmt {
	if c == nil {
		return []Cmt{}
	}
	return []Cmt{cmt(c)}
}

func (n *Node) comments(pre []*parser.Comment, inl, lc *parser.Comment) *Node {
	n.Pre, n.Inl, n.Lc = cmts(pre), cmt1(inl), cmt1(lc)
	return n
}

func nodes(vs []parser.Visitee) []*Node {
	r := []*Node{}
	for _, v := range vs {
		r = append(r, node(v))
	}
	return r
}

func optNodes(os []*parser.Option) []*Node {
	r := []*Node{}
	for _, o := range os {
		r = append(r, node(o))
	}
	return r
}

func fieldOpts(os []*parser.FieldOption) [][2]string {
	r := [][2]string{}
	for _, o := range os {
		r = append(r, [2]string{o.OptionName, o.Constant})
	}
	return r
}

func ranges(rs []*parser.Range) []string {
	r := []string{}
	for _, x := range rs {
		r = append(r, x.Begin, x.End)
	}
	return r
}

func label(rep, req, opt bool) string {
	s := ""
	if rep {
		s += "repeated"
	}
	if req {
		s += "required"
	}
	if opt {
		s += "optional"
	}
	return s
}

func bstr(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func streamAt(b bool) string {
	if b {
		return "stream"
	}
	return ""
}

// node is the abstraction function from the real tree to the specification's.
func node(v interface{}) *Node {
	switch x := v.(type) {
	case *parser.Comment:
		n := newNode("comment", x.Raw)
		return n.meta(x.Meta)
	case *parser.EmptyStatement:
		n := newNode("empty")
		n.Inl = cmt1(x.InlineComment)
		return n
	case *parser.Syntax:
		return newNode("syntax", x.ProtobufVersion, x.ProtobufVersionQuote, strconv.Itoa(x.Version())).meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
	case *parser.Edition:
		return newNode("edition", x.Edition, x.EditionQuote).meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
	case *parser.Import:
		m := ""
		switch x.Modifier {
		case parser.ImportModifierPublic:
			m = "public"
		case parser.ImportModifierWeak:
			m = "weak"
		}
		return newNode("import", m, x.Location).meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
	case *parser.Package:
		return newNode("package", x.Name).meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
	case *parser.Option:
		return newNode("option", x.OptionName, x.Constant).meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
	case *parser.Message:
		n := newNode("message", x.MessageName).meta(x.Meta).comments(x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
		n.Body = nodes(x.MessageBody)
		return n
	case *parser.Enum:
		n := newNode("enum", x.EnumName).meta(x.Meta).comments(x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
		n.Body = nodes(x.EnumBody)
		return n
	case *parser.Service:
		n := newNode("service", x.ServiceName).meta(x.Meta).comments(x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
		n.Body = nodes(x.ServiceBody)
		return n
	case *parser.Extend:
		n := newNode("extend", x.MessageType).meta(x.Meta).comments(x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
		n.Body = nodes(x.ExtendBody)
		return n
	case *parser.Oneof:
		n := newNode("oneof", x.OneofName).meta(x.Meta).comments(x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
		for _, f := range x.OneofFields {
			n.Body = append(n.Body, node(f))
		}
		n.Xb = optNodes(x.Options)
		return n
	case *parser.OneofField:
		n := newNode("ofield", x.Type, x.FieldName, x.FieldNumber).meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
		n.Opts = fieldOpts(x.FieldOptions)
		return n
	case *parser.MapField:
		n := newNode("map", x.KeyType, x.Type, x.MapName, x.FieldNumber).meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
		n.Opts = fieldOpts(x.FieldOptions)
		return n
	case *parser.Field:
		n := newNode("field", label(x.IsRepeated, x.IsRequired, x.IsOptional), x.Type, x.FieldName, x.FieldNumber).
			meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
		n.Opts = fieldOpts(x.FieldOptions)
		return n
	case *parser.GroupField:
		n := newNode("group", label(x.IsRepeated, x.IsRequired, x.IsOptional), x.GroupName, x.FieldNumber).
			meta(x.Meta).comments(x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
		n.Body = nodes(x.MessageBody)
		return n
	case *parser.EnumField:
		n := newNode("enumval", x.Ident, x.Number).meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
		for _, o := range x.EnumValueOptions {
			n.Opts = append(n.Opts, [2]string{o.OptionName, o.Constant})
		}
		return n
	case *parser.Reserved:
		at := append([]string{"ranges"}, ranges(x.Ranges)...)
		if len(x.Ranges) == 0 {
			at = append([]string{"names"}, x.FieldNames...)
		} else if len(x.FieldNames) > 0 {
			at = append(append([]string{"both"}, at...), x.FieldNames...)
		}
		return newNode("reserved", at...).meta(x.Meta).comments(x.Comments, x.InlineComment, nil)
	case *parser.Extensions:
		n := newNode("extensions", ranges(x.Ranges)...).meta(x.Meta).
			comments(x.Comments, x.InlineComment, x.InlineCommentBehindLeftSquare)
		for _, d := range x.Declarations {
			n.Body = append(n.Body, node(d))
		}
		return n
	case *parser.Declaration:
		return newNode("declaration", x.Number, x.FullName, x.Type, bstr(x.Reserved), bstr(x.Repeated)).
			meta(x.Meta).comments(x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
	case *parser.RPC:
		n := newNode("rpc", x.RPCName).meta(x.Meta).comments(x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
		n.Emb = cmts(x.EmbeddedComments)
		if x.RPCRequest != nil {
			n.Body = append(n.Body, newNode("req", streamAt(x.RPCRequest.IsStream), x.RPCRequest.MessageType).meta(x.RPCRequest.Meta))
		}
		if x.RPCResponse != nil {
			n.Body = append(n.Body, newNode("res", streamAt(x.RPCResponse.IsStream), x.RPCResponse.MessageType).meta(x.RPCResponse.Meta))
		}
		n.Xb = optNodes(x.Options)
		return n
	case nil:
		return newNode("nil")
	default:
		return newNode(fmt.Sprintf("unknown %T", v))
	}
}

// file is the abstraction of a whole file.
func file(p *parser.Proto) *Node {
	n := newNode("file")
	if p == nil {
		n.K = "nil"
		return n
	}
	if p.Syntax != nil {
		n.Xb = append(n.Xb, node(p.Syntax))
	}
	if p.Edition != nil {
		n.Xb = append(n.Xb, node(p.Edition))
	}
	n.Body = nodes(p.ProtoBody)
	return n
}
