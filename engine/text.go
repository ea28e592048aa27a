package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

// Formatted symbolic numbers. The text of a symbolic number is a mark that names the number's term,
// its type and the way it is formatted; texts are then ordinary strings with marks in between. Two
// texts are equal when they agree outside the marks and corresponding marks stand for equal numbers
// of one type (the default format is one to one, and no number's text contains a separator). Text
// that is formatted in any other way holds poison and cannot be compared.
const poison = "\x03"

type mark struct {
	id   int
	kind string
}

func (m mark) Format(f fmt.State, verb rune) {
	how := string(verb)
	if how == "d" || how == "v" {
		how = "v"
	}
	for _, c := range "+-# 0" {
		if f.Flag(int(c)) {
			how += string(c)
		}
	}
	if w, ok := f.Width(); ok {
		how += "w" + strconv.Itoa(w)
	}
	if p, ok := f.Precision(); ok {
		how += "p" + strconv.Itoa(p)
	}
	fmt.Fprintf(f, "\x01%s:%s:%d\x02", how, m.kind, m.id)
}

// inner is text with marks, formatted into other text.
type inner string

func (m inner) Format(f fmt.State, verb rune) {
	_, w := f.Width()
	_, p := f.Precision()
	if (verb == 's' || verb == 'v') && !w && !p && !f.Flag('#') {
		f.Write([]byte(string(m)))
		return
	}
	f.Write([]byte(poison))
}

// textArg is what stands for an argument of a formatting call that is not a constant.
func (e *Exec) textArg(s *State, v Value) any {
	i, ok := v.(Iface)
	if !ok {
		return inner(poison)
	}
	switch x := i.V.(type) {
	case *Term:
		b, ok := i.T.(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return inner(poison)
		}
		return e.markOf(e.simp(s, x), b)
	case Str:
		return inner(x.S)
	}
	return inner(poison)
}

func (e *Exec) markOf(x *Term, b *types.Basic) mark {
	if e.marks == nil {
		e.marks = map[int]*Term{}
	}
	e.marks[x.id] = x
	return mark{x.id, b.Name()}
}

var markRE = regexp.MustCompile("\x01([^:\x01\x02]*):([a-z0-9]*):([0-9]+)\x02")

// sameText is the condition under which two texts are equal.
func (e *Exec) sameText(x, y Str) *Term {
	c := e.tc
	if strings.Contains(x.S, poison) || strings.Contains(y.S, poison) {
		unsup("comparison of formatted symbolic text")
	}
	mx, my := markRE.FindAllStringSubmatch(x.S, -1), markRE.FindAllStringSubmatch(y.S, -1)
	if markRE.ReplaceAllString(x.S, "\x01") != markRE.ReplaceAllString(y.S, "\x01") {
		e.note("texts of different form are taken to differ")
		return c.False
	}
	r := c.True
	for i := range mx {
		if mx[i][0] == my[i][0] {
			continue
		}
		if mx[i][1] != my[i][1] || mx[i][2] != my[i][2] {
			e.note("numbers formatted in different ways are taken to differ")
			return c.False
		}
		if mx[i][1] != "v" {
			unsup("comparison of formatted symbolic text")
		}
		a, _ := strconv.Atoi(mx[i][3])
		b, _ := strconv.Atoi(my[i][3])
		r = c.And(r, c.Eq(e.marks[a], e.marks[b]))
	}
	return r
}
