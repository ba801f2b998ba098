package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("Q08", q08) }

// escapedNames are names in backticks.
var escapedNames = []string{"`Ab c`", "`match`", "`a``B`", "`1.x`", "` a `", "`é`"}

func q08(c *Ctx) {
	c.Rule("every token that can spell a name, with its text unknown, and names in backticks are put into every position of a name; what is looked up, stored as a key or used as a label or type must be exactly the characters of the token, or those between the backticks")
	c.only = map[string]bool{"name": true, "undecided": true}
	c.plainNames()
	c.evaluatedNames()
}

// spellings of a tree's names: each of them in every way, the others plain.
func (c *Ctx) spellings(t *ai.Tree) []*ai.Tree {
	g := c.E.Gram
	sym := g.Shapes("oC_SymbolicName", 1)
	var plain, all []*ai.Tree
	for _, s := range sym {
		tok := tokenOf(s)
		switch {
		case tok == nil:
			c.Undecided("oC_SymbolicName", 0, "a name of several tokens")
			return nil
		case tok.Sym == "EscapedSymbolicName":
			for _, txt := range escapedNames {
				k := clone(s)
				tokenOf(k).Text = txt
				all = append(all, k)
			}
		default:
			if tok.Sym == "UnescapedSymbolicName" {
				plain = append(plain, s)
			}
			all = append(all, s)
		}
	}
	if len(plain) == 0 || len(all) < len(escapedNames)+1 {
		c.Undecided("oC_SymbolicName", 0, "the grammar of names has changed")
		return nil
	}
	var schema []*ai.Tree
	for _, s := range g.Shapes("oC_SchemaName", 1) {
		s = clone(s)
		for _, r := range expandAll(s, "oC_SymbolicName", all) {
			schema = append(schema, expandAll(r, "oC_ReservedWord", g.Shapes("oC_ReservedWord", 1))...)
		}
	}
	// positions of names
	for _, r := range []string{"oC_Variable", "oC_PropertyKeyName", "oC_LabelName", "oC_RelTypeName", "oC_NodeLabel"} {
		if ks := g.Shapes(r, 1); len(ks) > 0 && t.Rule != r {
			t = expandAll(t, r, ks[:1])[0]
		}
	}
	var out []*ai.Tree
	var walk func(t *ai.Tree, put func(k *ai.Tree) *ai.Tree)
	walk = func(t *ai.Tree, put func(k *ai.Tree) *ai.Tree) {
		switch {
		case len(t.Kids) == 0 && t.Rule == "oC_SymbolicName":
			for _, k := range all {
				out = append(out, put(clone(k)))
			}
		case len(t.Kids) == 0 && t.Rule == "oC_SchemaName":
			for _, k := range schema {
				out = append(out, put(clone(k)))
			}
		}
		for i, k := range t.Kids {
			i := i
			walk(k, func(k *ai.Tree) *ai.Tree {
				n := &ai.Tree{Rule: t.Rule, Sym: t.Sym, Text: t.Text, Empty: t.Empty, Kids: append([]*ai.Tree(nil), t.Kids...)}
				n.Kids[i] = k
				return put(n)
			})
		}
	}
	walk(t, func(k *ai.Tree) *ai.Tree { return k })
	plainSchema := expandAll(&ai.Tree{Rule: "oC_SchemaName"}, "oC_SchemaName", schema[:1])
	for i, o := range out {
		o = expandAll(o, "oC_SymbolicName", plain)[0]
		out[i] = clone(expandAll(o, "oC_SchemaName", plainSchema)[0])
	}
	return out
}

// names of a tree, from left to right.
func names(t *ai.Tree) []*ai.Tree {
	if t.Rule == "oC_SymbolicName" || t.Rule == "oC_ReservedWord" {
		return []*ai.Tree{t}
	}
	var out []*ai.Tree
	for _, k := range t.Kids {
		out = append(out, names(k)...)
	}
	return out
}

// plainNames: builders that give names.
func (c *Ctx) plainNames() {
	e := c.E
	some := false
	for _, rule := range []string{"oC_Variable", "oC_PropertyLookup", "oC_PropertyKeyName", "oC_RelTypeName", "oC_LabelName", "oC_SchemaName", "oC_NodeLabels"} {
		if f := c.R.Func(rule); f == nil || !isBuilder(f) {
			continue // names are used elsewhere in this case
		}
		for _, base := range c.E.Gram.Shapes(rule, 1) {
			base = clone(base)
			for _, t := range c.spellings(base) {
				some = true
				what := rule + " " + spelled(t)
				c.Obl("name", what)
				want := names(t)
				mon := &ai.Monitor{}
				mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
					x.Report(st, "name", at, "%s panics: %s", what, w)
				}
				compare := func(r *shapeRun, st *ai.State, i int, got *ai.V) {
					if w := c.nameText(want[i]); !c.sameText(st, got, w) {
						r.report(st, "name", "%s: name %d is %s instead of %s", what, i, got.Show(), w.Show())
					}
				}
				ghosts := func(st *ai.State) { c.knownTexts(st, t) }
				c.runScript(t, what, mon, ghosts, func(r *shapeRun, st *ai.State, k int, prev *ai.V) *ai.Call {
					if k == 1 {
						if _, ok := prev.T.Underlying().(*types.Slice); !ok {
							if len(want) != 1 {
								panic("a builder of several names gives one")
							}
							prev = e.List(types.NewSlice(prev.T), e.One(prev))
						}
						st.Ghost["names"] = prev
					} else {
						compare(r, st, k-2, prev)
					}
					segs := st.Segs(st.Ghost["names"])
					if k == 1 && len(segs) != len(want) {
						r.report(st, "name", "%s gives %d names instead of %d", what, len(segs), len(want))
						return nil
					}
					for ; k-1 < len(segs); k++ {
						if segs[k-1].Op != "one" {
							r.report(st, "name", "%s gives unknown names", what)
							return nil
						}
						v := segs[k-1].Args[0]
						if !ai.IsStr(v.T) {
							return &ai.Call{Recv: v, Method: "String"}
						}
						compare(r, st, k-1, v)
						if k < len(segs) {
							// the next step counts the calls
							return &ai.Call{Fn: nop(c), Args: nil}
						}
					}
					return nil
				})
			}
		}
	}
	if !some {
		c.Undecided("oC_SchemaName", 0, "no builder gives a name")
	}
}

func nop(c *Ctx) *ssa.Function { panic("several names that are plain strings") }

// spelled shows a tree with its name tokens.
func spelled(t *ai.Tree) string {
	var out []string
	for _, n := range names(t) {
		k := tokenOf(n)
		if k.Text != "" {
			out = append(out, k.Text)
		} else {
			out = append(out, k.Sym)
		}
	}
	return strings.Join(out, ", ")
}

// evaluatedNames: names that are looked up or become keys.
func (c *Ctx) evaluatedNames() {
	for _, rule := range []string{"oC_Variable", "oC_Parameter", "oC_MapLiteral", "oC_FunctionInvocation"} {
		seen := 0
		for _, base := range c.E.Gram.Shapes(rule, 2) {
			if !tight(base) || base.Has("DISTINCT") || len(base.All("oC_Expression")) > 2 || rule == "oC_FunctionInvocation" && base.Has("oC_Expression") {
				continue
			}
			forms := []*ai.Tree{clone(base)}
			if rule == "oC_FunctionInvocation" {
				forms = nil
				for _, f := range expandAll(base, "oC_FunctionName", c.E.Gram.Shapes("oC_FunctionName", 1)) {
					if f.Has("EXISTS") || len(names2(f)) == 0 {
						continue // which function the keyword denotes is left open
					}
					var spaces []*ai.Tree
					for _, n := range c.E.Gram.Shapes("oC_Namespace", 2) {
						n.Empty = len(n.Kids) == 0
						spaces = append(spaces, n)
					}
					forms = append(forms, expandAll(f, "oC_Namespace", spaces)...)
				}
			}
			for _, f := range forms {
				ts := c.spellings(f)
				if rule == "oC_Parameter" && len(names2(f)) == 0 {
					ts = []*ai.Tree{f}
				}
				for _, t := range ts {
					n := c.evaluatedName(t)
					if n == 0 {
						c.Undecided(rule, 0, "the name %s is not used", spelled(t))
					}
					seen += n
				}
			}
		}
		if seen == 0 {
			c.Undecided(rule, 0, "no name of %s is used", rule)
		}
	}
}

// names2 are the places of names, filled in or not.
func names2(t *ai.Tree) []*ai.Tree {
	switch t.Rule {
	case "oC_SymbolicName", "oC_SchemaName", "oC_PropertyKeyName", "oC_FunctionName":
		if t.Rule != "oC_FunctionName" || !t.Has("EXISTS") {
			return []*ai.Tree{t}
		}
		return nil
	}
	var out []*ai.Tree
	for _, k := range t.Kids {
		out = append(out, names2(k)...)
	}
	return out
}

// evaluatedName evaluates a tree and compares the names used.
func (c *Ctx) evaluatedName(t *ai.Tree) int {
	e := c.E
	str := types.Type(types.Typ[types.String])
	what := t.Rule + " " + spelled(t)
	c.Obl("name", what)
	var want []*ai.V
	planted := func() { // once the tree has its nodes
		for _, n := range names(t) {
			want = append(want, c.nameText(n))
		}
		if t.Rule == "oC_Parameter" {
			if len(want) == 0 {
				for _, k := range t.Kids {
					if k.Text == "" {
						want = append(want, e.TextOf(k, str))
					}
				}
			}
			want[0] = e.Arith(token.ADD, e.Str("$"), want[0], str)
		}
	}
	seen := 0
	mon := &ai.Monitor{}
	check := func(x *ai.Exec, st *ai.State, at ssa.Instruction, got *ai.V) {
		seen++
		switch {
		case !ai.IsStr(got.T):
			segs := st.Segs(got)
			ok := len(segs) == len(want)
			for i := 0; ok && i < len(segs); i++ {
				ok = segs[i].Op == "one" && c.sameText(st, segs[i].Args[0], want[i])
			}
			if !ok {
				x.Report(st, "name", at, "%s: %s is looked up", what, got.Show())
			}
		default:
			w := want[0]
			for _, v := range want[1:] {
				w = e.Arith(token.ADD, e.Arith(token.ADD, w, e.Str("."), str), v, str)
			}
			if !c.sameText(st, got, w) {
				x.Report(st, "name", at, "%s: %s is looked up instead of %s", what, got.Show(), w.Show())
			}
		}
	}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		switch {
		case ev.Kind == "evalerr":
			st.SetGS("fails", "y")
		case ev.Kind == "getvar" && t.Rule == "oC_Variable", ev.Kind == "getparam" && t.Rule == "oC_Parameter", ev.Kind == "call" && ev.Name == "GetFunction" && t.Rule == "oC_FunctionInvocation":
			check(x, st, ev.Instr, ev.Args[0])
		}
		return nil
	}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {}
	ghosts := func(st *ai.State) {
		planted()
		c.knownTexts(st, t)
		for i, w := range want {
			st.Ghost[fmt.Sprint("want", i)] = w
		}
	}
	c.runScript(t, what, mon, ghosts, func(r *shapeRun, st *ai.State, k int, prev *ai.V) *ai.Call {
		if k == 1 {
			return &ai.Call{Recv: prev, Method: "Evaluate", Args: []*ai.V{r.ctx}}
		}
		if t.Rule != "oC_MapLiteral" {
			return nil
		}
		if prev.Op != "tuple" {
			panic("result of Evaluate is not a pair")
		}
		if st.IsNil(prev.Args[1]) != 1 {
			if st.GS("fails") == "" {
				r.report(st, "name", "%s fails", what)
			}
			return nil
		}
		g := e.Get(st, prev.Args[0])
		if kd := st.KindOf(g); kd.Pos != nil {
			g = st.Payload(g, kd.Pos)
		}
		if _, ok := g.T.Underlying().(*types.Map); !ok {
			r.report(st, "name", "%s does not give a map: %s", what, g.Show())
			return nil
		}
		seen++
		used := map[int]bool{}
		for _, s := range st.MapContent(g).Args {
			ok := false
			for i, w := range want {
				if s.Op == "ent" && c.sameText(st, s.Args[0], w) {
					ok, used[i] = true, true
				}
			}
			if !ok {
				r.report(st, "name", "%s gives the key %s", what, s.Show())
			}
		}
		if len(used) != len(want) {
			r.report(st, "name", "%s: a key is missing", what)
		}
		return nil
	})
	return seen
}
