package main

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func init() { ops["refusal"] = opRefusal }

var foundRe = regexp.MustCompile(`(?s)^("(?:[^"\\]|\\.)*")\(Token=(.*), Pos=(.*)\)$`)

// opRefusal tells what the error says.
func opRefusal(c *Case, rec *Rec) {
	os := []protoparser.Option{protoparser.WithFilename(c.str("name"))}
	if c.num("debug") == 1 {
		os = append(os, protoparser.WithDebug(true))
	}
	p, err := c.parse(strings.NewReader(c.S), os...)
	rec.put(p, err)
	x := map[string]any{"have": false, "name": c.str("name"), "found": []int{}, "at": []string{}, "pos": "", "expected": 0, "says": true}
	rec.X = x
	var me *meta.Error
	if err == nil || !errors.As(err, &me) {
		return
	}
	f := me.Found
	if m := foundRe.FindStringSubmatch(f); m != nil {
		if u, e := strconv.Unquote(m[1]); e == nil {
			f = u
			x["at"] = []string{m[3]}
		}
	}
	x["have"] = true
	x["found"] = codepoints(f)
	x["pos"] = me.Pos.String()
	x["expected"] = len(me.Expected)
	x["says"] = strings.HasPrefix(err.Error(), fmt.Sprintf("found %q but expected [%s]", me.Found, me.Expected))
}
