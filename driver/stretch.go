package main

import (
	"reflect"
	"strings"
	"unicode/utf8"
)

// A stretched case is one in which a character of the text, somewhere within a
// gap or a token with room for it, stands many times in a row when the real
// code reads it. What is observed is brought back to the text as it is written
// in the case: it must be what would be observed without the repetition.
type stretch struct {
	at, n  int // the offset of the character, and how many more of it there are
	ln, cl int
	ch     string
}

func stretchCase(c *Case) *Rec {
	at, n := c.Stretch[0], c.Stretch[1]
	_, w := utf8.DecodeRuneInString(c.S[at:])
	for strings.Contains(c.S, strings.Repeat(c.S[at:at+w], n)) { // no such row in the text itself
		n *= 2
	}
	st := &stretch{at: at, n: n, ch: c.S[at : at+w]}
	st.ln = 1 + strings.Count(c.S[:at], "\n")
	st.cl = 1 + utf8.RuneCountInString(c.S[strings.LastIndexByte(c.S[:at], '\n')+1:at])
	d := *c
	d.Stretch = nil
	d.S = c.S[:at] + strings.Repeat(st.ch, n) + c.S[at:]
	if stop, ok := c.Args["stop"]; ok && c.num("stop") > at {
		d.Args = map[string]any{}
		for k, v := range c.Args {
			d.Args[k] = v
		}
		d.Args["stop"] = stop.(float64) + float64(n*w)
	}
	r := execCase(&d)
	r.S, r.Cp = c.S, codepoints(c.S)
	if m, ok := r.X.(map[string]int); ok && m["rest"] >= 0 { // bytes left
		m["rest"] = len(c.S) - st.offset(len(d.S)-m["rest"])
	}
	r.T = st.shrink(reflect.ValueOf(r.T)).Interface().(*Node)
	r.Ep = st.pos(r.Ep)
	if r.X != nil {
		r.X = st.shrink(reflect.ValueOf(r.X)).Interface()
	}
	return r
}

func (st *stretch) offset(o int) int {
	w := len(st.ch)
	switch {
	case o >= st.at+(st.n+1)*w:
		return o - st.n*w
	case o > st.at && (o-st.at)%w == 0:
		return st.at
	}
	return o
}

func (st *stretch) pos(p Pos) Pos {
	w := len(st.ch)
	switch o := p[0]; {
	case o <= st.at:
	case o >= st.at+(st.n+1)*w: // behind
		p[0] -= st.n * w
		if st.ch == "\n" {
			p[1] -= st.n
		} else if p[1] == st.ln {
			p[2] -= st.n
		}
	case (o-st.at)%w == 0: // within
		k := (o - st.at) / w
		if st.ch == "\n" && p[1] == st.ln+k && p[2] == 1 {
			return Pos{st.at + 1, st.ln + 1, 1}
		}
		if st.ch != "\n" && p[1] == st.ln && p[2] == st.cl+k {
			return Pos{st.at, st.ln, st.cl}
		}
	}
	return p
}

var posType = reflect.TypeOf(Pos{})

// shrink is v with all positions and texts brought back.
func (st *stretch) shrink(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	if v.Type() == posType {
		return reflect.ValueOf(st.pos(v.Interface().(Pos)))
	}
	switch v.Kind() {
	case reflect.String:
		s := v.String()
		if len(s) > st.n {
			s = strings.Replace(s, strings.Repeat(st.ch, st.n+1), st.ch, -1)
		}
		return reflect.ValueOf(s).Convert(v.Type())
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(st.shrink(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type()).Elem()
		p.Set(st.shrink(v.Elem()))
		return p
	case reflect.Struct:
		p := reflect.New(v.Type()).Elem()
		p.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if p.Field(i).CanSet() {
				p.Field(i).Set(st.shrink(v.Field(i)))
			}
		}
		return p
	case reflect.Slice:
		if v.IsNil() || v.Type().Elem().Kind() == reflect.Int {
			return v
		}
		p := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			p.Index(i).Set(st.shrink(v.Index(i)))
		}
		return p
	case reflect.Array:
		p := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			p.Index(i).Set(st.shrink(v.Index(i)))
		}
		return p
	case reflect.Map:
		p := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			p.SetMapIndex(k, st.shrink(v.MapIndex(k)))
		}
		return p
	}
	return v
}

// span is a part of a text which is a gap or a token.
type span struct {
	from, to int
	tok      string
}

// place is where the text can be stretched: a character between others within
// a gap, a comment, a string, a number or a name. -1 if there is no such place.
func (g *gen) place(s string, gaps bool) int {
	if len(g.spans) == 0 {
		return -1
	}
	var between []span // the gaps between the statements of the file
	depth := 0
	for i, sp := range g.spans {
		switch {
		case sp.tok == "" && depth == 0 && i > 0 && strings.Contains("};", g.spans[i-1].tok):
			between = append(between, sp)
		case sp.tok == "{":
			depth++
		case sp.tok == "}":
			depth--
		}
	}
	far := len(between) > 0 && g.pc(50)
	for try := 0; try < 12; try++ {
		sp := g.spans[g.n(len(g.spans))]
		if far && try < 6 {
			sp = between[g.n(len(between))]
		}
		if sp.to > len(s) || sp.to <= sp.from || gaps && sp.tok != "" {
			continue
		}
		at := sp.from + g.n(sp.to-sp.from)
		for at > sp.from && !utf8.RuneStart(s[at]) {
			at--
		}
		r, w := utf8.DecodeRuneInString(s[at:])
		before, _ := utf8.DecodeLastRuneInString(s[:at])
		after, _ := utf8.DecodeRuneInString(s[at+w:])
		if r == before || r == after || r == utf8.RuneError || strings.ContainsRune("/*\r\\'\"\ufeff", r) {
			continue
		}
		if sp.tok == "" || g.roomy(sp.tok, at-sp.from, r) {
			return at
		}
	}
	return -1
}

// roomy tells whether the token remains one of its kind if its i-th byte,
// where r is, stands there more than once.
func (g *gen) roomy(t string, i int, r rune) bool {
	switch c := t[0]; {
	case c == '"' || c == '\'':
		if i == 0 || i+1 >= len(t) || len(t) < 3 || t[len(t)-1] != c || strings.HasPrefix(t[1:], "proto") || r == '\n' || r == 0 {
			return false
		}
		return !strings.Contains(t[max(0, i-4):i], "\\")
	case i == 0:
		return false
	case '0' <= c && c <= '9' || c == '.':
		return '0' <= r && r <= '9'
	case isName(t):
		for _, ws := range [][]string{words, builtins, keytypes} {
			for _, w := range ws {
				if t == w {
					return false
				}
			}
		}
		return true
	}
	return false
}

func isName(t string) bool {
	for i, c := range t {
		if !strings.ContainsRune(letters, c) && (i == 0 || !strings.ContainsRune(alnum, c)) {
			return false
		}
	}
	return t != ""
}
