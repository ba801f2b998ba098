package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("A09", a09) }

// A09: what a number literal denotes is a term over the text of its token: the
// library parser used, the part of the text it is given, its base and its
// width must together denote the number the token spells.

// numToken says which number a token spells and how short it can be.
var numTokens = map[string]struct {
	base   int64 // 0: floating point
	prefix int64 // length of the part in front of the digits
	min    int64 // shortest text
	alike  int64 // characters in front of the digits which do not change the number
}{
	"DecimalInteger":      {base: 10, min: 1},
	"HexInteger":          {base: 16, prefix: 2, min: 3},
	"OctalInteger":        {base: 8, prefix: 1, min: 2, alike: 1},
	"ExponentDecimalReal": {min: 3},
	"RegularDecimalReal":  {min: 2},
}

var prefixText = map[int64]string{1: "0", 2: "0x"}

func (c *Ctx) numberTrees() []*ai.Tree {
	g := c.E.Gram
	var out []*ai.Tree
	for _, n := range g.Shapes("oC_NumberLiteral", 1) {
		cur := []*ai.Tree{n}
		for _, r := range []string{"oC_DoubleLiteral", "oC_IntegerLiteral"} {
			var next []*ai.Tree
			for _, t := range cur {
				next = append(next, expandAll(t, r, g.Shapes(r, 1))...)
			}
			cur = next
		}
		out = append(out, cur...)
	}
	return out
}

func tokenOf(t *ai.Tree) *ai.Tree {
	for t != nil && !t.Terminal() {
		if len(t.Kids) != 1 {
			return nil
		}
		t = t.Kids[0]
	}
	return t
}

func a09(c *Ctx) {
	c.Rule("builder and evaluator of every shape of a number literal are followed with the token's text unknown; the value must be the library's parse of exactly the token's digits, in the base the token is written in and 64 bits wide, and building must fail exactly when that parse fails")
	c.Assumption("strconv.ParseInt, ParseUint, Atoi and ParseFloat are correct; the lexer delivers the tokens Cypher.g4 describes")
	e := c.E
	lits := 0
	for _, l := range e.Gram.Shapes("oC_Literal", 1) {
		if !l.Has("oC_NumberLiteral") {
			continue
		}
		for _, t := range expandAll(l, "oC_NumberLiteral", c.numberTrees()) {
			lits++
			c.numberShape(t)
		}
	}
	if lits < len(numTokens) {
		c.Undecided("oC_NumberLiteral", 0, "only %d shapes of number literals were found", lits)
	}
}

func (c *Ctx) numberShape(t *ai.Tree) {
	e := c.E
	what := "Literal " + t.String()
	tok := tokenOf(t)
	if tok == nil {
		c.Undecided(what, 0, "the grammar of number literals has changed")
		return
	}
	name := strings.TrimSpace(tok.Rule + tok.Sym)
	k, known := numTokens[name]
	if !known {
		c.Undecided(what, 0, "unknown number token %s", name)
		return
	}
	c.Obl("value", what)
	c.Obl("fails", what)
	c.Obl("crash", what)
	str := types.Typ[types.String]
	mon := &ai.Monitor{}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind == "call" && strings.HasPrefix(ev.Name, "strconv.") && len(ev.Res) == 2 && st.GS("parse") != "ok" {
			if v := e.Mk("call", types.Typ[types.Int64], ev.Name+"#0", ev.Args...); c.denotes(v, tok, k.base, k.prefix, k.alike) {
				st.SetGS("parse", map[int]string{1: "ok", 0: "bad"}[st.IsNil(ev.Res[1])])
			}
		}
		return nil
	}
	mon.Ext = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
		if len(ci.Args) == 0 || len(ci.Args) > 2 {
			return nil, false
		}
		full := e.ChangeType(e.TextOf(tok, str), ci.Args[0].T)
		if ci.Args[0] != full {
			return nil, false
		}
		switch name {
		case "strings.ToLower", "strings.TrimSpace": // tokens of numbers have no blanks and a lower case prefix
			return []*ai.State{x.Ret(st, ci, full)}, true
		case "strings.TrimPrefix":
			if p, n := ci.Args[1], k.prefix; n > 0 && p == e.Const1(prefixText[n], p.T) {
				return []*ai.State{x.Ret(st, ci, e.SubStr(full, e.Int(n), e.Len(full), full.T))}, true
			}
		}
		return nil, false
	}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
		if _, ok := at.(*ssa.Panic); ok {
			// what entry points make of it is another property
			if st.GS("parse") != "bad" {
				x.Report(st, "fails", at, "%s is rejected although its number was not found to be out of range", name)
			}
			return
		}
		x.Report(st, "crash", at, "%s panics: %s", name, w)
	}
	c.runShape(t, mon, func(st *ai.State) {
		txt := e.TextOf(tok, str)
		st.AssumeCmp(st.LenOf(txt), e.Int(k.min), ai.EQ|ai.GT)
	}, true, func(r *shapeRun, st *ai.State, built *ai.V, res []*ai.V) {
		if !st.AssumeNil(res[1], true) {
			r.report(st, "fails", "%s fails when it is evaluated", name)
			return
		}
		g := e.Get(st, res[0])
		want := types.Typ[types.Int]
		if k.base == 0 {
			want = types.Typ[types.Float64]
		}
		kd := st.KindOf(g)
		if kd.Pos == nil || !types.Identical(kd.Pos, want) {
			r.report(st, "value", "%s gives %s, which is not of type %s", name, g.Show(), want)
			return
		}
		v := st.Payload(g, want)
		if !c.denotes(v, tok, k.base, k.prefix, k.alike) {
			r.report(st, "value", "%s gives %s, which is not the number it spells", name, v.Show())
			return
		}
		if st.GS("parse") != "ok" {
			r.report(st, "fails", "%s gives a value although parsing its text failed", name)
		}
	})
}

// wide: conversions between 64-bit integers, or named types of a kind, keep the number.
func sameWidth(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	w := func(k types.BasicKind) int {
		switch k {
		case types.Int, types.Int64:
			return 1
		case types.Float64:
			return 2
		case types.String:
			return 3
		}
		return 0
	}
	return w(x.Kind()) != 0 && w(x.Kind()) == w(y.Kind())
}

// denotes: v is the number the token spells.
func (c *Ctx) denotes(v *ai.V, tok *ai.Tree, base, prefix, alike int64) bool {
	e := c.E
	for (v.Op == "conv" || v.Op == "ctype") && (sameWidth(v.T, v.Args[0].T) || c.narrowUint(v.Args[0]) && sameWidth(v.T, types.Typ[types.Int])) {
		v = v.Args[0]
	}
	if v.Op != "call" {
		return false
	}
	str := types.Typ[types.String]
	text := func(x *ai.V) int64 { // how much of the front is cut, or -1
		for x.Op == "ctype" || x.Op == "conv" {
			x = x.Args[0]
		}
		full := e.TextOf(tok, str)
		for n := int64(0); n <= prefix; n++ {
			if x == e.ChangeType(full, x.T) || n > 0 && (x == e.SubStr(e.ChangeType(full, x.T), e.Int(n), e.Len(full), x.T)) {
				return n
			}
		}
		return -1
	}
	num := func(i int) int64 {
		if i >= len(v.Args) {
			return -1
		}
		b, n := e.SplitInt(v.Args[i])
		if b != nil {
			return -1
		}
		return n
	}
	cut := text(v.Args[0])
	if cut < 0 {
		return false
	}
	inBase := func(b int64) bool {
		if b == 0 {
			// the library reads the prefix itself
			return cut == 0
		}
		return b == base && (cut == prefix || cut == prefix-alike)
	}
	switch v.Aux {
	case "strconv.Atoi#0":
		return base != 0 && inBase(10)
	case "strconv.ParseInt#0":
		return base != 0 && inBase(num(1)) && (num(2) == 64 || num(2) == 0)
	case "strconv.ParseUint#0":
		return base != 0 && inBase(num(1)) && num(2) == 63
	case "strconv.ParseFloat#0":
		return base == 0 && cut == 0 && num(1) == 64
	}
	return false
}

// narrowUint: an unsigned number parsed into 63 bits.
func (c *Ctx) narrowUint(v *ai.V) bool {
	if v.Op != "call" || v.Aux != "strconv.ParseUint#0" || len(v.Args) != 3 {
		return false
	}
	b, n := c.E.SplitInt(v.Args[2])
	return b == nil && n == 63
}
