package main

import (
	"encoding/json"
	"fmt"
	"go/scanner"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
)

// The literals of the code under test: its words are those that it may treat
// in a way of its own, and its numbers are those at which it may behave
// otherwise. They are mixed into what is generated, and mean nothing else.

type lexicon struct {
	Idents []string `json:"idents"` // identifiers, possibly with dots within
	Texts  []string `json:"texts"`  // other short strings
	Sizes  []int    `json:"sizes"`  // numbers that a length can have
	Ints   []string `json:"ints"`   // larger ones
	Chars  []string `json:"chars"`
}

var lex = readLexicon(os.Getenv("VERIF_WORDS"))

func readLexicon(path string) (l lexicon) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	if path != "" && err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return l
}

var identRE = regexp.MustCompile(`^[A-Za-z_]\w*(\.[A-Za-z_]\w*)*$`)

// wordsMain writes the literals of the sources in dir. Those that the lexicon
// old does not have get as much weight as all the others together.
func wordsMain(dir string, old lexicon) {
	idents, texts, sizes, ints, chars := map[string]bool{}, map[string]bool{}, map[int]bool{}, map[string]bool{}, map[string]bool{}
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (strings.HasPrefix(d.Name(), ".") || d.Name() == "_testdata" || d.Name() == "_example") && path != dir {
			return filepath.SkipDir
		}
		if d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		var s scanner.Scanner
		set := token.NewFileSet()
		s.Init(set.AddFile(path, -1, len(src)), src, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				return nil
			}
			switch tok {
			case token.STRING:
				t, err := strconv.Unquote(lit)
				if err != nil || len(t) == 0 || len(t) > 40 || strings.Contains(t, "github.com") {
					continue
				}
				if w := strings.Trim(t, "."); identRE.MatchString(w) {
					idents[w] = true
				} else if !strings.ContainsAny(t, "\\\"\n%") {
					texts[t] = true
				}
			case token.CHAR:
				if t, err := strconv.Unquote(lit); err == nil {
					chars[t] = true
				}
			case token.INT:
				n, err := strconv.ParseInt(lit, 0, 64)
				if err == nil && n > 2 && n <= 1100 {
					sizes[int(n)] = true
				}
				if err == nil && n > 2 {
					ints[strconv.FormatInt(n, 10)] = true
				}
			}
		}
	})
	l := lexicon{weigh(idents, old.Idents), weigh(texts, old.Texts), []int{}, weigh(ints, old.Ints), weigh(chars, old.Chars)}
	for n := range sizes {
		l.Sizes = append(l.Sizes, n)
	}
	sort.Ints(l.Sizes)
	json.NewEncoder(os.Stdout).Encode(l)
}

func weigh(m map[string]bool, old []string) []string {
	s, fresh := []string{}, []string{}
	for k := range m {
		if slices.Contains(old, k) {
			s = append(s, k)
		} else {
			fresh = append(fresh, k)
		}
	}
	sort.Strings(s)
	sort.Strings(fresh)
	if len(old) == 0 {
		return fresh
	}
	for n := len(s); len(fresh) > 0 && n >= 0; n -= len(fresh) {
		s = append(s, fresh...)
	}
	return s
}

// known is a word of the code under test, or one that begins or ends with it.
func (g *gen) known() string {
	w := g.pick(lex.Idents)
	if !strings.Contains(w, ".") {
		switch g.n(4) {
		case 0:
			w += g.chars(alnum, 1+g.n(4))
		case 1:
			w = g.chars(letters, 1+g.n(4)) + w
		}
	}
	return w
}

// size is a number of the code under test, or one next to it.
func (g *gen) knownSize() int {
	return max(1, g.pickN(lex.Sizes)-1+g.n(3))
}
