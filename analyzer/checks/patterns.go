package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"verif/analyzer/ai"
)

func init() {
	register("G10", g10)
}

// Patterns: the text of a pattern is built and handed to the graph package,
// by MATCH, MERGE, CREATE and pattern searches. What the graph package is
// given is compared with what the text says.

// grow replaces opaque nodes by each of their options, which are grown too.
func grow(t *ai.Tree, opts map[string][]*ai.Tree) []*ai.Tree {
	if !t.Terminal() && len(t.Kids) == 0 {
		var out []*ai.Tree
		for _, o := range opts[t.Rule] {
			out = append(out, grow(o, opts)...)
		}
		if out == nil {
			return []*ai.Tree{clone(t)}
		}
		return out
	}
	cur := []*ai.Tree{{Rule: t.Rule, Sym: t.Sym, Text: t.Text}}
	for _, k := range t.Kids {
		var next []*ai.Tree
		for _, o := range grow(k, opts) {
			for _, c := range cur {
				n := clone(c)
				n.Kids = append(n.Kids, clone(o))
				next = append(next, n)
			}
		}
		cur = next
	}
	return cur
}

func with(opts map[string][]*ai.Tree, rule string, ts ...*ai.Tree) map[string][]*ai.Tree {
	m := map[string][]*ai.Tree{}
	for k, v := range opts {
		m[k] = v
	}
	m[rule] = ts
	return m
}

// pick the shapes of a rule that satisfy a condition.
func (c *Ctx) pick(rule string, reps int, ok func(t *ai.Tree) bool) []*ai.Tree {
	var out []*ai.Tree
	for _, t := range c.E.Gram.Shapes(rule, reps) {
		if ok == nil || ok(t) {
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		c.Undecided(rule, 0, "the grammar of %s has changed", rule)
	}
	return out
}

func tight(t *ai.Tree) bool { return !t.Has("SP") }

// plain is one simple shape for every part of a pattern.
func (c *Ctx) plain() map[string][]*ai.Tree {
	o := map[string][]*ai.Tree{}
	one := func(rule string, ok func(t *ai.Tree) bool) {
		if ts := c.pick(rule, 1, ok); len(ts) > 0 {
			o[rule] = ts[:1]
		}
	}
	one("oC_SymbolicName", func(t *ai.Tree) bool { return t.Has("UnescapedSymbolicName") })
	one("oC_SchemaName", func(t *ai.Tree) bool { return t.Has("oC_SymbolicName") })
	for _, r := range []string{"oC_Variable", "oC_LabelName", "oC_RelTypeName", "oC_PropertyKeyName", "oC_AnonymousPatternPart", "oC_Namespace"} {
		one(r, nil)
	}
	one("oC_NodeLabel", tight)
	one("oC_NodeLabels", tight)
	one("oC_RelationshipTypes", func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_RelTypeName")) == 1 })
	one("oC_RangeLiteral", func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 1 })
	one("oC_IntegerLiteral", func(t *ai.Tree) bool { return t.Has("DecimalInteger") })
	one("oC_Parameter", func(t *ai.Tree) bool { return t.Has("oC_SymbolicName") })
	one("oC_Properties", func(t *ai.Tree) bool { return t.Has("oC_MapLiteral") })
	one("oC_MapLiteral", func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_Expression")) == 1 })
	one("oC_NodePattern", func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 2 })
	one("oC_RelationshipDetail", func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 2 })
	one("oC_RelationshipPattern", func(t *ai.Tree) bool {
		return tight(t) && t.Has("oC_RightArrowHead") && !t.Has("oC_LeftArrowHead") && t.Has("oC_RelationshipDetail")
	})
	one("oC_PatternElementChain", tight)
	one("oC_PatternElement", func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 1 && t.Has("oC_NodePattern") })
	one("oC_PatternPart", func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 1 })
	one("oC_Pattern", func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 1 })
	return o
}

// allProperties: maps with up to two entries, and parameters.
func (c *Ctx) allProperties() []*ai.Tree {
	var out []*ai.Tree
	for _, p := range c.pick("oC_Properties", 1, nil) {
		switch {
		case p.Has("oC_MapLiteral"):
			out = append(out, expandAll(p, "oC_MapLiteral", c.pick("oC_MapLiteral", 2, func(t *ai.Tree) bool {
				return tight(t) || len(t.All("oC_Expression")) == 2
			}))...)
		case p.Has("oC_Parameter"):
			out = append(out, expandAll(p, "oC_Parameter", c.pick("oC_Parameter", 1, nil))...)
		default:
			c.Undecided("oC_Properties", 0, "unknown shape %s", p)
		}
	}
	return out
}

// patternParts: shapes of pattern parts. Every form of every part of a node
// and of a relationship occurs; independent parts vary one at a time.
func (c *Ctx) patternParts() []*ai.Tree {
	pl := c.plain()
	part := &ai.Tree{Rule: "oC_PatternPart"}
	chain := c.pick("oC_PatternElement", 1, func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_PatternElementChain")) == 1 })
	chain2 := c.pick("oC_PatternElement", 2, func(t *ai.Tree) bool { return len(t.All("oC_PatternElementChain")) == 2 })
	paren := c.pick("oC_PatternElement", 1, func(t *ai.Tree) bool { return t.Has("oC_PatternElement") })
	var out []*ai.Tree
	add := func(opts map[string][]*ai.Tree) { out = append(out, grow(part, opts)...) }
	fullNode := c.pick("oC_NodePattern", 1, func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 5 })
	fullRel := c.pick("oC_RelationshipDetail", 1, func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 6 })
	anon := func(rule string, n int) []*ai.Tree {
		return c.pick(rule, 1, func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == n && !t.Has("oC_Variable") })
	}
	// nodes
	add(with(pl, "oC_NodePattern", c.pick("oC_NodePattern", 1, nil)...))
	full := with(pl, "oC_NodePattern", fullNode...)
	add(with(full, "oC_Properties", c.allProperties()...))
	add(with(full, "oC_NodeLabels", c.pick("oC_NodeLabels", 3, nil)...))
	add(with(full, "oC_NodeLabel", c.pick("oC_NodeLabel", 1, nil)...))
	// relationships
	edge := with(pl, "oC_PatternElement", chain...)
	add(with(edge, "oC_RelationshipPattern", c.pick("oC_RelationshipPattern", 1, nil)...))
	add(with(edge, "oC_RelationshipDetail", c.pick("oC_RelationshipDetail", 1, nil)...))
	full = with(edge, "oC_RelationshipDetail", fullRel...)
	add(with(full, "oC_Properties", c.allProperties()...))
	add(with(full, "oC_RelationshipTypes", c.pick("oC_RelationshipTypes", 2, nil)...))
	add(with(full, "oC_RangeLiteral", c.pick("oC_RangeLiteral", 1, nil)...))
	add(with(with(full, "oC_RelationshipPattern", c.pick("oC_RelationshipPattern", 1, tight)...), "oC_NodePattern", fullNode...))
	add(with(with(full, "oC_RangeLiteral", c.pick("oC_RangeLiteral", 1, func(t *ai.Tree) bool {
		return tight(t) && len(t.All("oC_IntegerLiteral")) == 2
	})...), "oC_IntegerLiteral", c.pick("oC_IntegerLiteral", 1, nil)...))
	// names that are empty
	for _, rule := range []string{"oC_LabelName", "oC_RelTypeName"} {
		o := with(with(with(pl, "oC_PatternElement", chain...), "oC_NodePattern", anon("oC_NodePattern", 3)...), "oC_RelationshipDetail", anon("oC_RelationshipDetail", 3)...)
		var ts []*ai.Tree
		for _, t := range grow(&ai.Tree{Rule: rule}, with(pl, "oC_SymbolicName", c.pick("oC_SymbolicName", 1, func(t *ai.Tree) bool { return t.Has("EscapedSymbolicName") })...)) {
			for _, l := range tokens(t) {
				l.Text = "``"
			}
			ts = append(ts, t)
		}
		add(with(o, rule, ts...))
	}
	// longer patterns
	long := with(with(pl, "oC_NodePattern", anon("oC_NodePattern", 4)...), "oC_RelationshipDetail", anon("oC_RelationshipDetail", 5)...)
	add(with(long, "oC_PatternElement", chain2...))
	for _, p := range paren {
		n := clone(p)
		for i, k := range n.Kids {
			if k.Rule == "oC_PatternElement" {
				n.Kids[i] = clone(chain[0])
			}
		}
		add(with(long, "oC_PatternElement", n))
	}
	return out
}

// patItem is what the text says about a node or a relationship.
type patItem struct {
	t       *ai.Tree
	node    bool
	name    *ai.Tree // of the variable, or nil
	labels  []*ai.Tree
	keys    []*ai.Tree
	values  []*ai.Tree
	param   *ai.Tree
	rng     *ai.Tree
	left    bool
	right   bool
	propsAt *ai.Tree
}

// find the nodes of a rule, from left to right, at any depth.
func find(t *ai.Tree, rule string) []*ai.Tree {
	if t.Rule == rule {
		return []*ai.Tree{t}
	}
	var out []*ai.Tree
	for _, k := range t.Kids {
		out = append(out, find(k, rule)...)
	}
	return out
}

func patItems(t *ai.Tree) []*patItem {
	var out []*patItem
	var walk func(t *ai.Tree)
	walk = func(t *ai.Tree) {
		switch t.Rule {
		case "oC_NodePattern", "oC_RelationshipPattern":
			p := &patItem{t: t, node: t.Rule == "oC_NodePattern"}
			d := t
			if !p.node {
				p.left, p.right = t.Has("oC_LeftArrowHead"), t.Has("oC_RightArrowHead")
				if d = t.One("oC_RelationshipDetail"); d == nil {
					out = append(out, p)
					return
				}
				p.rng = d.One("oC_RangeLiteral")
			}
			p.name = d.One("oC_Variable")
			if l := d.One("oC_NodeLabels"); l != nil {
				p.labels = find(l, "oC_SchemaName")
			}
			if l := d.One("oC_RelationshipTypes"); l != nil {
				p.labels = find(l, "oC_SchemaName")
			}
			if q := d.One("oC_Properties"); q != nil {
				p.propsAt = q
				p.param = q.One("oC_Parameter")
				if m := q.One("oC_MapLiteral"); m != nil {
					p.keys, p.values = m.All("oC_PropertyKeyName"), m.All("oC_Expression")
				}
			}
			out = append(out, p)
			return
		}
		for _, k := range t.Kids {
			walk(k)
		}
	}
	walk(t)
	return out
}

// nameText is the text a name denotes.
func (c *Ctx) nameText(t *ai.Tree) *ai.V {
	e := c.E
	str := types.Typ[types.String]
	tok := tokenOf(t)
	if tok == nil {
		panic("not a name: " + t.String())
	}
	if tok.Sym == "EscapedSymbolicName" && tok.Text != "" {
		return c.E.Const1(strings.ReplaceAll(tok.Text[1:len(tok.Text)-1], "``", "`"), str)
	}
	if tok.Sym == "EscapedSymbolicName" && tok.TextV != nil {
		if el, ok := e.BytesOf(tok.TextV); ok {
			var out []*ai.V
			tick := func(v *ai.V) bool { return v.Op == "const" && v.C.String() == "96" }
			for i := 1; i+1 < len(el); i++ {
				out = append(out, el[i])
				if tick(el[i]) {
					i++
				}
			}
			return e.Bytes(str, out)
		}
	}
	return e.TextOf(tok, str)
}

// sameText: two texts are the same.
func (c *Ctx) sameText(st *ai.State, a, b *ai.V) bool {
	a, b = c.plainStr(a), c.plainStr(b)
	if a == b || st.Decide(st.Equal(a, b)) == 1 {
		return true
	}
	x, ok1 := c.E.BytesOf(a)
	y, ok2 := c.E.BytesOf(b)
	return ok1 && ok2 && c.sameBytes(st, x, y)
}

// patternUse is a way from a pattern text to the graph package.
type patternUse struct {
	name  string
	tree  func(part *ai.Tree) *ai.Tree
	own   bool // evaluated in a context of its own
	calls func(c *Ctx, built, ctx *ai.V) *ai.Call
}

func (c *Ctx) patternUses() []patternUse {
	wrap := func(rule string, ok func(t *ai.Tree) bool) func(part *ai.Tree) *ai.Tree {
		var ts []*ai.Tree
		for _, t := range c.pick(rule, 1, ok) {
			ts = append(ts, expandAll(t, "oC_Pattern", c.pick("oC_Pattern", 1, func(t *ai.Tree) bool { return len(t.Kids) == 1 }))...)
		}
		return func(part *ai.Tree) *ai.Tree {
			if len(ts) == 0 {
				return nil
			}
			if r := expandAll(ts[0], "oC_PatternPart", []*ai.Tree{part}); len(r) > 0 {
				return r[0]
			}
			return nil
		}
	}
	return []patternUse{
		{"MATCH", wrap("oC_Match", func(t *ai.Tree) bool { return !t.Has("OPTIONAL") && !t.Has("oC_Where") && t.Has("SP") }), false, func(c *Ctx, b, ctx *ai.V) *ai.Call {
			return &ai.Call{Recv: b, Method: "GetResults", Args: []*ai.V{ctx}}
		}},
		{"MERGE", wrap("oC_Merge", func(t *ai.Tree) bool { return !t.Has("oC_MergeAction") && t.Has("SP") }), false, func(c *Ctx, b, ctx *ai.V) *ai.Call {
			return &ai.Call{Recv: b, Method: "TopLevelUpdate", Args: []*ai.V{ctx}}
		}},
		{"search", func(part *ai.Tree) *ai.Tree { return clone(part) }, true, func(c *Ctx, b, ctx *ai.V) *ai.Call {
			return &ai.Call{Recv: b, Method: "FindRelative", Args: []*ai.V{c.this()}}
		}},
	}
}

func (c *Ctx) this() *ai.V { return c.E.Sym("this", types.NewPointer(c.lpgType("Node"))) }

func g10(c *Ctx) {
	c.Rule("builder and evaluator of patterns are followed for every form of node and relationship, in MATCH, MERGE and pattern searches, up to the call that hands the pattern to the graph package; the items of that pattern must say what the text says")
	parts := c.patternParts()
	for _, u := range c.patternUses() {
		for _, p := range parts {
			if f := os.Getenv("PSHAPE"); f != "" && !strings.Contains(u.name+" "+p.String(), f) { // for debugging
				continue
			}
			t := u.tree(p)
			if t == nil {
				return
			}
			c.patternShape(u, t)
		}
	}
}

func isPatternT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Pattern" && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "/lpg")
}

func (c *Ctx) patternShape(u patternUse, t *ai.Tree) {
	e := c.E
	what := u.name + " " + t.String()
	c.Obl("item", what)
	items := patItems(t)
	var exprs []*ai.Tree
	for _, p := range items {
		exprs = append(exprs, p.values...)
	}
	pk := c.propKinds()
	if pk == nil {
		return
	}
	ran := 0
	if u.own {
		for _, p := range items {
			if p.param != nil {
				ran = 1 // has no parameters, must fail
			}
		}
	}
	unknown := ran > 0
	mon := &ai.Monitor{}
	if u.own {
		mon.NoModel = c.noCtxModels()
	}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		switch ev.Kind {
		case "eval", "evalerr":
			i := indexOf(exprs, c.leafOf(ev.Recv))
			if i < 0 {
				return nil
			}
			if ev.Kind == "evalerr" {
				st.SetGS("cause", "an expression fails")
				return nil
			}
			st.Ghost[fmt.Sprint("value", i)] = e.Get(st, ev.Res[0])
		case "fail":
			if ev.Name == "GetParameter" {
				st.SetGS("cause", "unknown parameter")
			}
		case "getparam":
			var out []*ai.State
			g := e.Get(st, ev.Res[0])
			st.Ghost["param"+fmt.Sprint(c.plainStr(ev.Args[0]).ID)] = g
			for _, k := range c.byKind(st, g, pk.base, "map") {
				if k.k != "map" {
					k.st.SetGS("cause", "the parameter is not a map")
				}
				out = append(out, k.st)
			}
			return out
		case "call":
			if ev.Name == "PatternSymbol.AddNode" || ev.Name == "PatternSymbol.AddPath" {
				k := "bound" + fmt.Sprint(ev.Recv.ID)
				if st.Ghost[k] != nil {
					k += "+"
				}
				st.Ghost[k] = ev.Args[0]
			}
		case "getvar":
			var out []*ai.State
			g := e.Get(st, ev.Res[0])
			st.Ghost["var"+fmt.Sprint(c.plainStr(ev.Args[0]).ID)] = g
			for _, k := range c.byKind(st, g, pk.base, "node", "path") {
				if k.k == "other" {
					k.st.SetGS("cause", "a variable is bound to something else")
				}
				out = append(out, k.st)
			}
			return out
		}
		return nil
	}
	mon.Ext = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
		if len(ci.Args) == 0 || !isPatternT(ci.Args[0].T) {
			return nil, false
		}
		if strings.HasSuffix(name, ".GetSymbolNames") {
			var out []*ai.State
			for _, s := range c.nameCases(st, items, u) {
				out = append(out, x.Ret(s, ci, c.symbolNames(s, ci)))
			}
			return out, true
		}
		ran++
		x.Returns++
		c.patternItems(x, st, ci, what, u, items, exprs)
		return nil, true
	}
	fn := c.builderOf(t.Rule)
	if fn == nil {
		return
	}
	done := func(r *shapeRun, st *ai.State, res []*ai.V) {
		err := res[len(res)-1]
		if st.GS("cause") == "" && unknown {
			st.SetGS("cause", "it has no parameters")
		}
		if st.GS("cause") == "" {
			if st.IsNil(err) == 1 {
				r.report(st, "item", "%s ends without handing its pattern to the graph", u.name)
			} else {
				r.report(st, "item", "%s is rejected with %s", u.name, err.Show())
			}
			return
		}
		if !st.AssumeNil(err, false) {
			r.report(st, "item", "%s succeeds although %s", u.name, st.GS("cause"))
		}
	}
	c.runScript(t, what, mon, func(st *ai.State) {
		st.AssumeNil(c.this(), false)
		c.knownTexts(st, t)
	}, func(r *shapeRun, st *ai.State, k int, prev *ai.V) *ai.Call {
		if k == 1 {
			return u.calls(c, prev, r.ctx)
		}
		if prev.Op == "tuple" {
			done(r, st, prev.Args)
		} else {
			done(r, st, []*ai.V{prev})
		}
		return nil
	})
	if ran == 0 {
		c.Undecided(what, fn.Pos(), "no path hands the pattern to the graph package")
	}
}

func tokens(t *ai.Tree) []*ai.Tree {
	if t.Terminal() {
		return []*ai.Tree{t}
	}
	var out []*ai.Tree
	for _, k := range t.Kids {
		out = append(out, tokens(k)...)
	}
	return out
}

// knownTexts keeps the least lengths of the tokens' texts.
func (c *Ctx) knownTexts(st *ai.State, t *ai.Tree) {
	for i, l := range tokens(t) {
		if !l.Terminal() || l.Text != "" || l.TextV != nil {
			continue
		}
		v := c.E.TextOf(l, types.Typ[types.String])
		n := 1
		if m, ok := c.E.Gram.MinLen[l.Sym]; ok {
			n = m
		}
		st.Ghost[fmt.Sprint("text", i)] = v
		st.AssumeCmp(c.E.Len(v), c.E.Int(int64(n)), ai.GT|ai.EQ)
	}
}

// symbolNames is the set of the names of a pattern's items.
func (c *Ctx) symbolNames(st *ai.State, ci *ai.CallInfo) *ai.V {
	e := c.E
	z := e.Zero(ci.Sig.Results().At(0).Type())
	var ents []*ai.V
	for _, s := range st.Segs(ci.Args[0]) {
		if s.Op != "one" {
			panic("pattern of unknown length")
		}
		n := e.FieldByName(s.Args[0], "Name")
		if n == e.Const1("", n.T) {
			continue
		}
		dup := false
		for _, o := range ents {
			dup = dup || c.same(st, o.Args[0], n)
		}
		if dup {
			continue
		}
		ents = append(ents, e.Mk("ent", nil, "", n, e.Zero(types.NewStruct(nil, nil))))
	}
	m := e.FieldByName(z, "M")
	return e.Mk("struct", z.T, "", e.Mk("fmap", m.T, "", e.Mk("mcont", nil, "", ents...)))
}

// same: two values are certainly the same.
func (c *Ctx) same(st *ai.State, a, b *ai.V) bool {
	return a == b || st.Decide(st.Equal(a, b)) == 1
}

// patternItems compares the pattern handed over with the items of the text.
func (c *Ctx) patternItems(x *ai.Exec, st *ai.State, ci *ai.CallInfo, what string, u patternUse, items []*patItem, exprs []*ai.Tree) {
	bad := func(rule, f string, a ...interface{}) {
		x.Report(st, rule, ci.Instr, "%s: "+f, append([]interface{}{what}, a...)...)
	}
	if st.GS("cause") != "" {
		bad("item", "the pattern is searched for although %s", st.GS("cause"))
		return
	}
	var got []*ai.V
	for _, s := range st.Segs(ci.Args[0]) {
		if s.Op != "one" {
			panic("pattern of unknown length")
		}
		got = append(got, st.Freeze(s.Args[0]))
	}
	if len(got) != len(items) {
		bad("item", "the pattern has %d items, and %d are written", len(got), len(items))
		return
	}
	for i, it := range items {
		g := got[i]
		at := fmt.Sprintf("item %d (%s)", i+1, it.t)
		f := func(n string) *ai.V { return c.E.FieldByName(g, n) }
		if n := f("Name"); it.name == nil && n != c.E.Const1("", n.T) || it.name != nil && !c.sameText(st, n, c.nameText(it.name)) {
			bad("name", "%s is given to the graph with the name %s", at, n.Show())
		}
		c.itemLabels(st, it, f("Labels"), at, bad)
		c.itemProperties(x, st.Clone(), it, f("Properties"), exprs, at, bad)
		if it.name != nil && len(ci.Args) > 2 {
			c.symbols(x, st, items, it, u, st.Freeze(ci.Args[2]), at, bad)
		}
		if !it.node {
			c.itemRange(st, it, f("Min"), f("Max"), at, bad)
			c.itemDirection(st, it, f("ToLeft"), f("Undirected"), at, bad)
		}
	}
}

// nameCases splits the states by which of the items' names are the same.
func (c *Ctx) nameCases(st *ai.State, items []*patItem, u patternUse) []*ai.State {
	states := []*ai.State{st}
	var names []*ai.V
	if u.own {
		names = append(names, c.E.Const1("this", types.Typ[types.String]))
	}
	for _, it := range items {
		if it.name != nil {
			names = append(names, c.nameText(it.name))
		}
	}
	for i := range names {
		for j := 0; j < i; j++ {
			var next []*ai.State
			for _, s := range states {
				eq := s.Equal(names[i], names[j])
				if s.Decide(eq) >= 0 {
					next = append(next, s)
					continue
				}
				o := s.Clone()
				if s.Assume(eq, true) {
					next = append(next, s)
				}
				if o.Assume(eq, false) {
					next = append(next, o)
				}
			}
			states = next
		}
	}
	var out []*ai.State
	for _, s := range states {
		eq := func(i, j int) bool { return c.same(s, names[i], names[j]) }
		ok := true
		for i := range names {
			for j := range names {
				for k := range names {
					ok = ok && (!eq(i, j) || !eq(j, k) || eq(i, k))
				}
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	return out
}

// symbols compares what the graph is told about the variables with their values.
func (c *Ctx) symbols(x *ai.Exec, st *ai.State, items []*patItem, it *patItem, u patternUse, syms *ai.V, at string, bad badFn) {
	e := c.E
	name := c.nameText(it.name)
	var val *ai.V
	for _, o := range items {
		if o.name != nil && c.same(st, name, c.nameText(o.name)) {
			if v := st.Ghost["var"+fmt.Sprint(c.plainStr(c.nameText(o.name)).ID)]; v != nil {
				val = v
			}
		}
	}
	if u.own && c.same(st, name, e.Const1("this", name.T)) {
		val = e.Box(c.this())
	}
	mt, ok := syms.T.Underlying().(*types.Map)
	if !ok {
		panic("symbols are not a map")
	}
	x.MapLookup(st.Clone(), syms, e.ChangeType(name, mt.Key()), mt.Elem(), func(s *ai.State, p *ai.V, found bool) {
		var have *ai.V
		if found {
			if s.IsNil(p) == 1 {
				bad("variables", "%s: the graph is given nil for the variable", at)
				return
			}
			have = s.Ghost["bound"+fmt.Sprint(p.ID)]
			if s.Ghost["bound"+fmt.Sprint(p.ID)+"+"] != nil {
				bad("variables", "%s: the graph is given two values for the variable", at)
			}
		}
		switch {
		case val == nil: // not defined, or named like another
			if found {
				bad("variables", "%s: the graph is given a value for a variable that is not defined", at)
			}
		case s.IsNil(val) == 1:
			if have != nil || !found {
				bad("variables", "%s: the graph is not told that the variable is null", at)
			}
		case have == nil:
			bad("variables", "%s: the value of the variable does not reach the graph", at)
		case !c.same(s, have, s.Payload(val, have.T)):
			bad("variables", "%s: the graph is given %s instead of the value of the variable", at, have.Show())
		}
	})
}

type badFn func(rule, f string, a ...interface{})

func (c *Ctx) itemLabels(st *ai.State, it *patItem, got *ai.V, at string, bad badFn) {
	var ents []*ai.V
	switch got.Op {
	case "sset":
		for _, s := range got.Args {
			if s.Op != "ent" {
				panic("labels are not known: " + got.Show())
			}
			ents = append(ents, s.Args[0])
		}
	case "zero":
	case "struct":
		if m := got.Args[0]; st.IsNil(m) != 1 {
			for _, s := range st.MapContent(m).Args {
				if s.Op != "ent" {
					panic("labels are not known: " + got.Show())
				}
				ents = append(ents, s.Args[0])
			}
		}
	default:
		panic("labels are not known: " + got.Show())
	}
	has := func(l *ai.V, in []*ai.V) bool {
		for _, x := range in {
			if c.sameText(st, l, x) {
				return true
			}
		}
		return false
	}
	var want []*ai.V
	for _, l := range it.labels {
		want = append(want, c.nameText(l))
	}
	for k, w := range want {
		if !has(w, ents) {
			bad("labels", "%s: the label or type %s does not reach the graph", at, it.labels[k])
		}
	}
	for _, l := range ents {
		if !has(l, want) {
			bad("labels", "%s: the graph is given the label or type %s, which is not written", at, l.Show())
		}
	}
}

func (c *Ctx) itemProperties(x *ai.Exec, st *ai.State, it *patItem, got *ai.V, exprs []*ai.Tree, at string, bad badFn) {
	e := c.E
	if it.param != nil {
		g := st.Ghost["param"+fmt.Sprint(c.paramName(it.param).ID)]
		if g == nil {
			bad("properties", "%s: parameter %s is not read", at, it.param)
			return
		}
		m := st.Payload(g, c.mapT())
		if st.IsNil(got) == 1 {
			if st.AssumeCmp(e.MLen(m), e.Int(0), ai.GT) {
				bad("properties", "%s: the properties of the parameter do not reach the graph", at)
			}
			return
		}
		if !c.copyOf(st, got, m) {
			bad("properties", "%s: the graph is given the properties %s, not those of the parameter", at, st.MapContent(got).Show())
		}
		return
	}
	var keys, vals []*ai.V
	for i, k := range it.keys {
		v := st.Ghost[fmt.Sprint("value", indexOf(exprs, it.values[i]))]
		if v == nil {
			bad("properties", "%s: the value of %s is not evaluated", at, k)
			return
		}
		keys, vals = append(keys, c.nameText(k)), append(vals, v)
	}
	if st.IsNil(got) == 1 {
		if len(keys) > 0 {
			bad("properties", "%s: the properties do not reach the graph", at)
		}
		return
	}
	for _, s := range st.MapContent(got).Args {
		if s.Op != "ent" {
			panic("properties are not known: " + got.Show())
		}
		ok := false
		for _, k := range keys {
			ok = ok || c.sameText(st, s.Args[0], k)
		}
		if !ok {
			bad("properties", "%s: the graph is given the property %s, which is not written", at, s.Args[0].Show())
		}
	}
	mt := got.T.Underlying().(*types.Map)
	for i, k := range keys {
		i, k := i, k
		key := e.ChangeType(k, mt.Key())
		x.MapLookup(st.Clone(), got, key, mt.Elem(), func(s *ai.State, v *ai.V, found bool) {
			if found {
				for j := range c.alike(s, keys, i) {
					if c.same(s, v, vals[j]) {
						return
					}
				}
				bad("properties", "%s: property %s has the value %s for the graph", at, it.keys[i], v.Show())
				return
			}
			bad("properties", "%s: property %s does not reach the graph", at, it.keys[i])
		})
	}
}

// alike are the positions of the keys that are the same as one.
func (c *Ctx) alike(st *ai.State, keys []*ai.V, i int) map[int]bool {
	in, todo := map[int]bool{i: true}, []int{i}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		for j := range keys {
			if !in[j] && st.Decide(st.Equal(keys[k], keys[j])) == 1 {
				in[j] = true
				todo = append(todo, j)
			}
		}
	}
	return in
}

func (c *Ctx) mapT() types.Type {
	return types.NewMap(types.Typ[types.String], c.R.Type("Value"))
}

// paramName is the name a parameter is known by.
func (c *Ctx) paramName(t *ai.Tree) *ai.V {
	return c.E.TextOf(t, types.Typ[types.String])
}

// copyOf: got has the entries of m, with plain values.
func (c *Ctx) copyOf(st *ai.State, got, m *ai.V) bool {
	e := c.E
	segs := st.MapContent(got).Args
	if len(segs) == 0 {
		return st.Decide(e.Cmp(e.MLen(m), e.Int(0), ai.EQ)) == 1
	}
	if len(segs) != 1 || segs[0].Op != "comp" || segs[0].Args[2].Op != "ent" {
		return false
	}
	s := segs[0]
	mt := m.T.Underlying().(*types.Map)
	k, v := e.Mk("mkey", mt.Key(), "", m, e.BVar(0)), e.Mk("mval", mt.Elem(), "", m, e.BVar(0))
	lo, hi := s.Args[0], s.Args[1]
	return c.same(st, lo, e.Int(0)) && c.same(st, hi, e.MLen(m)) && s.Args[2].Args[0] == k && s.Args[2].Args[1] == e.Get(st, v)
}

func (c *Ctx) itemRange(st *ai.State, it *patItem, min, max *ai.V, at string, bad badFn) {
	e := c.E
	check := func(what string, got *ai.V, lit *ai.Tree, fixed int64) {
		if lit == nil {
			if st.Decide(e.Cmp(got, e.Int(fixed), ai.EQ)) != 1 {
				bad("length", "%s: the %s length is %s for the graph instead of %d", at, what, got.Show(), fixed)
			}
			return
		}
		tok := tokenOf(lit)
		k, known := numTokens[strings.TrimSpace(tok.Rule+tok.Sym)]
		if !known || !c.denotes(got, tok, k.base, k.prefix, k.alike) {
			bad("length", "%s: the %s length is %s for the graph instead of %s", at, what, got.Show(), lit)
		}
	}
	if it.rng == nil {
		check("least", min, nil, 1)
		check("greatest", max, nil, 1)
		return
	}
	var lits [2]*ai.Tree
	n := 0
	for _, k := range it.rng.Kids {
		switch {
		case k.Rule == "oC_IntegerLiteral":
			lits[n] = k
		case k.Text == "..":
			n = 1
		}
	}
	if n == 0 {
		lits[1] = lits[0]
	}
	check("least", min, lits[0], -1)
	check("greatest", max, lits[1], -1)
}

func (c *Ctx) itemDirection(st *ai.State, it *patItem, toLeft, undirected *ai.V, at string, bad badFn) {
	l, u := st.Decide(toLeft), st.Decide(undirected)
	switch {
	case it.left == it.right:
		if u != 1 {
			bad("direction", "%s: the graph is told a direction", at)
		}
	case it.left:
		if u != 0 || l != 1 {
			bad("direction", "%s: the graph is not told that the relationship points to the left", at)
		}
	default:
		if u != 0 || l != 0 {
			bad("direction", "%s: the graph is not told that the relationship points to the right", at)
		}
	}
}
