package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("Q07", q07) }

func q07(c *Ctx) {
	c.Rule("every field of the parsed query that a tree builder fills in must be read by the evaluation, unless it belongs to a construct whose evaluation always fails")
	c.only = map[string]bool{"field": true, "dropped": true, "undecided": true}
	c.honouredFields()
	c.droppedParts()
}

// droppedParts finds parts of a text that a builder leaves out.
func (c *Ctx) droppedParts() {
	n := 0
	for _, f := range c.builders() {
		p := f.Signature.Params().At(0).Type().String()
		i := strings.LastIndex(p, ".OC_")
		if i < 0 || !strings.HasSuffix(p, "Context") || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() == 0 {
			continue
		}
		rule := "oC_" + strings.TrimSuffix(p[i+4:], "Context")
		if len(c.E.Gram.Rules[rule]) == 0 {
			continue
		}
		c.droppedKeywords(f, rule)
		for _, t := range c.E.Gram.Shapes(rule, 2) {
			n++
			c.Obl("dropped", rule+" "+t.String())
			if !c.droppedFrom(f, t) {
				break
			}
		}
	}
	if n == 0 {
		c.Undecided("builders", 0, "no builder was analysed")
	}
}

// droppedKeywords: an optional keyword, or one of those that can be written in
// its place, makes a difference to what is built.
func (c *Ctx) droppedKeywords(f *ssa.Function, rule string) {
	ts := c.E.Gram.Shapes(rule, 1)
	key := func(t *ai.Tree, but int) string {
		var out []string
		for i, k := range t.Kids {
			if i == but {
				out = append(out, "?")
			} else if !k.Is("SP") {
				out = append(out, k.Rule+k.Sym)
			}
		}
		return strings.Join(out, " ")
	}
	without := map[string]*ai.Tree{}
	for _, t := range ts {
		without[key(t, -1)] = t
	}
	type place struct {
		t, plain *ai.Tree
		word     string
	}
	places := map[string][]place{}
	var order []string
	for _, t := range ts {
		for i, k := range t.Kids {
			if !k.Terminal() || k.Sym == "" || k.Sym == "SP" || k.Sym[0] == '\'' || k.Sym == "EOF" {
				continue
			}
			at := key(t, i)
			plain := without[strings.Join(strings.Fields(strings.Replace(at, "?", "", 1)), " ")]
			if plain == nil {
				continue
			}
			if len(places[at]) == 0 {
				order = append(order, at)
			}
			places[at] = append(places[at], place{t, plain, k.Sym})
		}
	}
	for _, at := range order {
		differs := false
		var words []string
		for _, p := range places[at] {
			words = append(words, p.word)
			differs = differs || c.outline(p.t) != c.outline(p.plain)
		}
		what := rule + ": " + strings.Join(words, "/") + " in " + places[at][0].t.String()
		c.Obl("dropped", what)
		if !differs {
			c.Violate("dropped", f.Name()+" "+words[0], f.Pos(), "%s makes no difference to what is built", what)
		}
	}
}

// outline is what is built from a shape.
func (c *Ctx) outline(t *ai.Tree) string {
	t = clone(t)
	var out []string
	c.runScript(t, t.Rule+" "+t.String(), &ai.Monitor{}, func(st *ai.State) { c.knownTexts(st, t) }, func(r *shapeRun, st *ai.State, k int, prev *ai.V) *ai.Call {
		nodes := map[*ai.V]string{}
		for _, p := range c.leaves(t) {
			nodes[p.Node] = fmt.Sprintf("<%s %d>", p.Rule, len(nodes))
		}
		out = append(out, st.Outline(prev, nodes))
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// droppedFrom builds a tree; a part that is not in the result must be looked
// into by the builder, and then its own parts must be there.
func (c *Ctx) droppedFrom(f *ssa.Function, t *ai.Tree) bool {
	t = clone(t)
	var parts []*ai.Tree
	for _, k := range operands(t) {
		if !c.punctuation(k.Rule, 0) {
			parts = append(parts, k)
		}
	}
	if len(parts) == 0 {
		return true
	}
	var missing *ai.Tree
	c.runScript(t, t.Rule+" "+t.String(), &ai.Monitor{}, func(st *ai.State) { c.knownTexts(st, t) }, func(r *shapeRun, st *ai.State, k int, prev *ai.V) *ai.Call {
		for _, p := range parts {
			if missing == nil && !st.Mentions(prev, p.Node) {
				missing = p
			}
		}
		return nil
	})
	if missing == nil {
		return true
	}
	ks := c.E.Gram.Shapes(missing.Rule, 1)
	if len(ks) == 0 || depthOf(t, missing) > 3 {
		c.Violate("dropped", f.Name(), f.Pos(), "%s: %s is not in what is built from %s", f.Name(), missing, t)
		return false
	}
	loose := true
	for _, k := range ks {
		loose = loose && !tight(k)
	}
	for _, k := range ks {
		if (loose || tight(k)) && !c.droppedFrom(f, replaced(t, missing, k)) {
			return false
		}
	}
	return true
}

func depthOf(t, k *ai.Tree) int {
	if t == k {
		return 0
	}
	for _, x := range t.Kids {
		if d := depthOf(x, k); d >= 0 {
			return d + 1
		}
	}
	return -1
}

// replaced is a tree with another one for one of its nodes.
func replaced(t, k, by *ai.Tree) *ai.Tree {
	if t == k {
		return by
	}
	r := &ai.Tree{Rule: t.Rule, Sym: t.Sym, Text: t.Text, Empty: t.Empty}
	for _, x := range t.Kids {
		r.Kids = append(r.Kids, replaced(x, k, by))
	}
	return r
}

// punctuation: a rule that has no names, literals or rules with them.
func (c *Ctx) punctuation(rule string, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, alt := range c.E.Gram.Rules[rule] {
		for s := range alt {
			if s[0] == '\'' || s == "SP" || strings.HasPrefix(s, "oC_") && c.punctuation(s, depth+1) {
				continue
			}
			return false
		}
	}
	return true
}

// fieldUse is what is done with a field of a struct.
type fieldUse struct{ built, read bool }

// honouredFields finds fields that builders fill in and nothing looks at.
func (c *Ctx) honouredFields() {
	uses := map[*types.Var]*fieldUse{}
	owner := map[*types.Var]string{}
	use := func(t types.Type, i int) *fieldUse {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() != c.R.Pkg.Types {
			return nil
		}
		f := n.Underlying().(*types.Struct).Field(i)
		if uses[f] == nil {
			uses[f] = &fieldUse{}
			owner[f] = n.Obj().Name()
		}
		return uses[f]
	}
	var visit func(fn *ssa.Function, builder bool)
	visit = func(fn *ssa.Function, builder bool) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Field:
					if u := use(in.X.Type(), in.Field); u != nil && !builder {
						u.read = true
					}
				case *ssa.FieldAddr:
					u := use(in.X.Type(), in.Field)
					if u == nil || in.Referrers() == nil {
						continue
					}
					for _, r := range *in.Referrers() {
						st, ok := r.(*ssa.Store)
						switch {
						case ok && st.Addr == in && builder:
							u.built = true
						case ok && st.Addr == in:
						case builder: // filled in through its address, or looked at while building
							if _, load := r.(*ssa.UnOp); !load {
								u.built = true
							}
						default:
							u.read = true
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a, builder)
		}
	}
	for _, fn := range c.R.Funcs() {
		if fn.Parent() == nil {
			visit(fn, isBuilder(fn))
		}
	}
	var fs []*types.Var
	for f, u := range uses {
		if u.built {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return owner[fs[i]]+fs[i].Name() < owner[fs[j]]+fs[j].Name() })
	if len(fs) == 0 {
		c.Undecided("field", 0, "no field is filled in by a tree builder")
	}
	live := c.honouredTypes(func(f *types.Var) bool { return uses[f] != nil && uses[f].read })
	for _, f := range fs {
		if !live[owner[f]] {
			continue
		}
		name := owner[f] + "." + f.Name()
		c.Obl("field", name)
		if !uses[f].read {
			c.Violate("field", name, f.Pos(), "%s is filled in from the text, but evaluation never looks at it", name)
		}
	}
}

// honouredTypes are the parts of a parsed query that evaluation can get to:
// those with an evaluation that may succeed, and what their fields hold if
// something reads them.
func (c *Ctx) honouredTypes(read func(f *types.Var) bool) map[string]bool {
	live := map[string]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch t := t.(type) {
		case *types.Pointer:
			add(t.Elem())
		case *types.Slice:
			add(t.Elem())
		case *types.Array:
			add(t.Elem())
		case *types.Map:
			add(t.Key())
			add(t.Elem())
		case *types.Named:
			if t.Obj().Pkg() != c.R.Pkg.Types || live[t.Obj().Name()] {
				return
			}
			if _, ok := t.Underlying().(*types.Interface); ok {
				return // what is in there has an evaluation of its own
			}
			live[t.Obj().Name()] = true
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				add(t.Underlying())
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				if read(s.Field(i)) {
					add(s.Field(i).Type())
				}
			}
		}
	}
	accepted, all := map[*types.Named]bool{}, map[*types.Named]bool{}
	for _, fn := range c.R.Funcs() {
		sig := fn.Signature
		if sig.Recv() == nil || fn.Parent() != nil || fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		switch fn.Name() {
		case "Evaluate", "GetResults", "Update", "TopLevelUpdate":
		default:
			continue
		}
		if n := sig.Results().Len(); n == 0 || sig.Results().At(n-1).Type().String() != "error" {
			continue
		}
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok {
			continue
		}
		all[n] = true
		c.Obl("refused", fn.String())
		if !c.alwaysFails(fn, map[*ssa.Function]bool{}) {
			accepted[n] = true
		}
	}
	if len(accepted) == 0 {
		c.Undecided("evaluation", 0, "nothing can be evaluated")
	}
	for n := range accepted {
		add(n)
	}
	return live
}

// alwaysFails: no path of a function without loops gives another last result than an error.
func (c *Ctx) alwaysFails(fn *ssa.Function, active map[*ssa.Function]bool) bool {
	if active[fn] {
		return true
	}
	active[fn] = true
	defer delete(active, fn)
	some := false
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		some = true
		var isError func(v ssa.Value, seen map[ssa.Value]bool) bool
		isError = func(v ssa.Value, seen map[ssa.Value]bool) bool {
			if seen[v] {
				return true
			}
			seen[v] = true
			switch v := v.(type) {
			case *ssa.MakeInterface:
				_, ptr := v.X.Type().Underlying().(*types.Pointer)
				return !ptr
			case *ssa.ChangeInterface:
				return isError(v.X, seen)
			case *ssa.Call:
				f := v.Call.StaticCallee()
				if f == nil {
					return false
				}
				if f.Blocks != nil && f.Pkg == fn.Pkg {
					return c.alwaysFails(f, active)
				}
				return f.String() == "fmt.Errorf" || f.String() == "errors.New"
			case *ssa.UnOp:
				g, ok := v.X.(*ssa.Global)
				return ok && types.Identical(v.Type(), types.Universe.Lookup("error").Type()) && c.R.Pkg.Types == g.Pkg.Pkg
			case *ssa.Phi:
				for _, e := range v.Edges {
					if !isError(e, seen) {
						return false
					}
				}
				return true
			}
			return false
		}
		if len(r.Results) == 0 || !isError(r.Results[len(r.Results)-1], map[ssa.Value]bool{}) {
			return false
		}
	}
	return some
}
