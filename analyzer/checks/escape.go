package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("A10", a10) }

// A10: strings are sequences of unknown characters here: what a helper makes of
// them is followed byte by byte, with the cases the code itself distinguishes.
// Its result becomes the text of a token, which has to be one token of the
// grammar and from which the builder has to get back the same characters.

func a10(c *Ctx) {
	c.Rule("the escaping helpers are followed for every string of up to three unknown characters of every width; the result has to be a token of the lexer's grammar, and the builder of that token, followed in turn, has to give back exactly the characters; every escape sequence of the grammar is decoded to the character it stands for")
	c.Assumption("strings are valid UTF-8 (queries are read as characters); each character is treated alike wherever it stands in the string; the lexer delivers the tokens Cypher.g4 describes")
	for _, h := range []string{"EscapeStringLiteral", "EscapeLabelLiteral", "EscapePropertyKeyLiteral"} {
		f := c.Func(h)
		if f == nil {
			continue
		}
		c.roundTrip(f)
	}
	c.decodes()
}

// texts: strings of unknown characters, given by the widths of these.
func widths() [][]int {
	out := [][]int{{}, {3}, {4}}
	cur := [][]int{{}}
	for n := 0; n < 3; n++ {
		var next [][]int
		for _, w := range cur {
			for _, k := range []int{1, 2} {
				next = append(next, append(append([]int(nil), w...), k))
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

func (c *Ctx) unknownText(st *ai.State, name string, ws []int) []*ai.V {
	var el []*ai.V
	for i, w := range ws {
		r, b := c.E.RuneSym(fmt.Sprintf("%s%d", name, i), w)
		st.AssumeRune(r, b)
		st.Ghost[fmt.Sprintf("%s%d", name, i)] = r
		for j, x := range b {
			st.Ghost[fmt.Sprintf("%s%d.%d", name, i, j)] = x
		}
		el = append(el, b...)
	}
	return el
}

func (c *Ctx) byteIs(st *ai.State, b *ai.V, ch byte) int {
	return st.Decide(c.E.Cmp(b, c.E.Const(constant.MakeInt64(int64(ch)), b.T), ai.EQ))
}

func (c *Ctx) sameBytes(st *ai.State, a, b []*ai.V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && st.Decide(c.E.Cmp(a[i], b[i], ai.EQ)) != 1 {
			return false
		}
	}
	return true
}

// isToken: the bytes are one token: a quoted string or an escaped name.
func (c *Ctx) isToken(st *ai.State, el []*ai.V, name bool) string {
	n := len(el)
	if n < 2 {
		return "it is too short"
	}
	var q byte
	for _, k := range []byte("\"'`") {
		if (k == '`') == name && c.byteIs(st, el[0], k) == 1 {
			q = k
		}
	}
	if q == 0 {
		return "it does not start with a quote"
	}
	if c.byteIs(st, el[n-1], q) != 1 {
		return "it does not end with the quote it starts with"
	}
	for i := 1; i < n-1; i++ {
		d := c.byteIs(st, el[i], q)
		if name {
			if d == 1 {
				i++
				if i >= n-1 || c.byteIs(st, el[i], q) != 1 {
					return "a backtick is not doubled"
				}
				continue
			}
			if d != 0 {
				return fmt.Sprintf("character %d may be a backtick", i)
			}
			continue
		}
		if d != 0 {
			return fmt.Sprintf("character %d may end the string", i)
		}
		switch c.byteIs(st, el[i], '\\') {
		case 0:
		case 1:
			i++
			ok := false
			for _, k := range []byte("\\'\"BbFfNnRrTt") {
				if i < n-1 && c.byteIs(st, el[i], k) == 1 {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("character %d follows a backslash", i)
			}
		default:
			return fmt.Sprintf("character %d may be a backslash", i)
		}
	}
	return ""
}

// tokenTree: the tree of a literal or name that is the given token.
func (c *Ctx) tokenTree(name bool) *ai.Tree {
	g := c.E.Gram
	if !name {
		for _, t := range g.Shapes("oC_Literal", 1) {
			if k := tokenOf(t); k != nil && k.Sym == "StringLiteral" {
				return t
			}
		}
		return nil
	}
	for _, t := range g.Shapes("oC_SchemaName", 1) {
		for _, s := range g.Shapes("oC_SymbolicName", 1) {
			if k := tokenOf(s); k != nil && k.Sym == "EscapedSymbolicName" && t.Has("oC_SymbolicName") {
				return expandAll(t, "oC_SymbolicName", []*ai.Tree{s})[0]
			}
		}
	}
	return nil
}

type textResult struct {
	st *ai.State
	el []*ai.V
}

func (c *Ctx) roundTrip(f *ssa.Function) {
	e := c.E
	name := fnName(f) != "EscapeStringLiteral"
	what := fnName(f)
	if p := f.Signature.Params(); p.Len() != 1 || !types.Identical(p.At(0).Type(), types.Typ[types.String]) || f.Signature.Results().Len() != 1 {
		c.Undecided(what, f.Pos(), "no longer a function from string to string")
		return
	}
	c.Obl("token", what)
	c.Obl("round-trip", what)
	c.Obl("crash", what)
	at := f.Blocks[0].Instrs[0]
	for _, ws := range widths() {
		var outs []textResult
		mon := &ai.Monitor{}
		mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
			x.Report(st, "crash", at, "%s panics: %s", what, w)
		}
		x := ai.NewExec(e, f, mon)
		x.Debug = c.Debug
		x.Unroll = 3000
		st := ai.NewState(e)
		el := c.unknownText(st, "c", ws)
		x.RunScript(st, func(st *ai.State, k int, prev *ai.V) *ai.Call {
			if k == 0 {
				return &ai.Call{Fn: f, Args: []*ai.V{e.Bytes(types.Typ[types.String], el)}}
			}
			out, ok := e.BytesOf(prev)
			if !ok {
				x.Report(st, "token", at, "a string of %d characters becomes %s, which cannot be told", len(ws), prev.Show())
				return nil
			}
			if w := c.isToken(st, out, name); w != "" {
				x.Report(st, "token", at, "a string of %d characters becomes a text that is not one token: %s", len(ws), w)
				return nil
			}
			outs = append(outs, textResult{st.Clone(), out})
			return nil
		})
		c.Collect(x, what)
		for _, o := range outs {
			c.readBack(what, at, o.st, o.el, el, name)
		}
	}
}

// readBack builds the token of a text and compares what it denotes.
func (c *Ctx) readBack(what string, at ssa.Instruction, st *ai.State, text, want []*ai.V, name bool) {
	e := c.E
	t := c.tokenTree(name)
	if t == nil {
		c.Undecided(what, at.Pos(), "the grammar has no token for it")
		return
	}
	fn := c.builderOf(t.Rule)
	if fn == nil {
		return
	}
	e.Plant(t)
	tokenOf(t).TextV = e.Bytes(types.Typ[types.String], text)
	mon := &ai.Monitor{}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
		x.Report(st, "crash", at, "reading back what %s gives panics: %s", what, w)
	}
	mon.Ext = c.hexNumbers
	x := ai.NewExec(e, fn, mon)
	x.Debug = c.Debug
	x.Unroll = 3000
	ctx := e.Sym("ctx", c.ctxType())
	st.AssumeNil(ctx, false)
	cmp := func(st *ai.State, v *ai.V) {
		got, ok := e.BytesOf(v)
		if !ok || !c.sameBytes(st, got, want) {
			x.Report(st, "round-trip", at, "%s denotes %s instead of %s", c.showBytes(text), v.Show(), c.showBytes(want))
		}
	}
	x.RunScript(st, func(st *ai.State, k int, prev *ai.V) *ai.Call {
		if k == 0 {
			return &ai.Call{Fn: fn, Args: []*ai.V{t.Node}}
		}
		if name {
			if k == 1 && !ai.IsStr(prev.T) {
				return &ai.Call{Recv: prev, Method: "String"}
			}
			cmp(st, prev)
			return nil
		}
		if k == 1 {
			return &ai.Call{Recv: prev, Method: "Evaluate", Args: []*ai.V{ctx}}
		}
		if st.IsNil(prev.Args[1]) != 1 {
			x.Report(st, "round-trip", at, "a string literal fails")
			return nil
		}
		g := e.Get(st, prev.Args[0])
		if kd := st.KindOf(g); kd.Pos == nil || !types.Identical(kd.Pos, types.Typ[types.String]) {
			x.Report(st, "round-trip", at, "a string literal gives %s", g.Show())
			return nil
		}
		cmp(st, st.Payload(g, types.Typ[types.String]))
		return nil
	})
	c.Collect(x, what)
}

func (c *Ctx) showBytes(el []*ai.V) string {
	var b strings.Builder
	for _, x := range el {
		if x.Op == "const" {
			n, _ := constant.Int64Val(constant.ToInt(x.C))
			b.WriteByte(byte(n))
		} else {
			b.WriteString("<" + x.Show() + ">")
		}
	}
	return b.String()
}

// hexNumbers: digits known to be hexadecimal denote a number; anything else does not.
func (c *Ctx) hexNumbers(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
	e := c.E
	if name != "strconv.ParseUint" && name != "strconv.ParseInt" || len(ci.Args) != 3 {
		return nil, false
	}
	el, ok := e.BytesOf(ci.Args[0])
	b, base := e.SplitInt(ci.Args[1])
	_, bits := e.SplitInt(ci.Args[2])
	if !ok || b != nil || base != 16 || len(el) == 0 || bits != 0 && bits < int64(4*len(el)) {
		return nil, false
	}
	rt := ci.Sig.Results()
	for _, d := range el {
		if d.Op != "sym" || !strings.HasPrefix(d.Aux, "hex") {
			return []*ai.State{x.Ret(st, ci, e.Fresh(rt.At(0).Type(), "bad"), st.NewError(name))}, true
		}
	}
	return []*ai.State{x.Ret(st, ci, e.Mk("hexnum", rt.At(0).Type(), "", el...), e.Nil(rt.At(1).Type()))}, true
}

// decodes: every escape sequence the grammar has.
func (c *Ctx) decodes() {
	e := c.E
	fn := c.builderOf("oC_Literal")
	if fn == nil {
		return
	}
	at := fn.Blocks[0].Instrs[0]
	u8 := types.Typ[types.Uint8]
	char := func(b byte) *ai.V { return e.Const(constant.MakeInt64(int64(b)), u8) }
	run := func(q byte, esc string, hex int, want func(d []*ai.V) []*ai.V) {
		what := fmt.Sprintf("StringLiteral %c \\%s %d", q, esc, hex)
		c.Obl("round-trip", what)
		for _, around := range []bool{true, false} {
			st := ai.NewState(e)
			var pre, post []*ai.V
			if around {
				pre, post = c.unknownText(st, "a", []int{1}), c.unknownText(st, "z", []int{1})
				for _, b := range []*ai.V{pre[0], post[0]} {
					st.Assume(e.Cmp(b, char(q), ai.EQ), false)
					st.Assume(e.Cmp(b, char('\\'), ai.EQ), false)
				}
			}
			text := append([]*ai.V{char(q)}, pre...)
			text = append(text, char('\\'))
			for i := 0; i < len(esc); i++ {
				text = append(text, char(esc[i]))
			}
			ds := c.unknownText(st, "hex", make1(hex))
			text = append(append(text, ds...), post...)
			text = append(text, char(q))
			c.readBack(what, at, st, text, append(append(append([]*ai.V(nil), pre...), want(ds)...), post...), false)
		}
	}
	for _, q := range []byte("\"'") {
		for esc, to := range map[string]byte{"\\": '\\', "'": '\'', "\"": '"', "b": '\b', "B": '\b', "f": '\f', "F": '\f', "n": '\n', "N": '\n', "r": '\r', "R": '\r', "t": '\t', "T": '\t'} {
			to := to
			run(q, esc, 0, func([]*ai.V) []*ai.V { return []*ai.V{char(to)} })
		}
		code := func(d []*ai.V) []*ai.V {
			return []*ai.V{e.Mk("utf8", u8, "", e.Conv(e.Mk("hexnum", types.Typ[types.Uint64], "", d...), types.Typ[types.Int32]))}
		}
		run(q, "u", 4, code)
		run(q, "U", 4, code)
		run(q, "U", 8, code)
	}
}

func make1(n int) []int {
	w := make([]int, n)
	for i := range w {
		w[i] = 1
	}
	return w
}
