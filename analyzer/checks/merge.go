package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"verif/analyzer/ai"
)

func init() {
	register("G05", g05)
}

// Logs: what a clause does, in order, is kept in the state.

func (c *Ctx) log(st *ai.State, kind string, args ...*ai.V) {
	n := 0
	for st.Ghost[fmt.Sprintf("log%03d", n)] != nil {
		n++
	}
	var as []*ai.V
	for _, a := range args {
		if a == nil {
			a = c.E.Mk("none", nil, "")
		} else {
			a = st.Freeze(a)
		}
		as = append(as, a)
	}
	st.Ghost[fmt.Sprintf("log%03d", n)] = c.E.Mk("tuple", nil, kind, as...)
}

func logOf(st *ai.State) []*ai.V {
	var out []*ai.V
	for {
		v := st.Ghost[fmt.Sprintf("log%03d", len(out))]
		if v == nil {
			return out
		}
		out = append(out, v)
	}
}

// logEffects notes changes of the graph, and nodes that constrain patterns.
func (c *Ctx) logEffects(st *ai.State, ev *ai.Event) {
	switch {
	case ev.Kind == "effect":
		args := append([]*ai.V{ev.Recv}, ev.Args...)
		c.log(st, ev.Name, append(args, ev.Res...)...)
	case ev.Kind == "call" && strings.HasPrefix(ev.Name, "PatternSymbol.Add"):
		c.log(st, "bind", ev.Args...)
		k := "given" + fmt.Sprint(ev.Recv.ID)
		if st.Ghost[k] != nil {
			k += "+"
		}
		st.Ghost[k] = ev.Args[0]
	case ev.Kind == "store" && strings.HasPrefix(ev.Name, "PatternSymbol.Add"):
		panic("a constraint that is not part of a search")
	}
}

// search is one search for a pattern.
type search struct {
	n     int                    // how many there were before
	names []*ai.V                // the names of the pattern
	given func(name *ai.V) *ai.V // what a name has to be, or nil
}

// searches models the search for patterns: a search finds what found says, a
// value for every name of the pattern, or fails.
func (c *Ctx) searches(found func(st *ai.State, s *search) (rows []map[*ai.V]*ai.V, fails bool)) func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
	e := c.E
	return func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
		if len(ci.Args) == 0 || !isPatternT(ci.Args[0].T) {
			return nil, false
		}
		if strings.HasSuffix(name, ".GetSymbolNames") {
			return []*ai.State{x.Ret(st, ci, c.symbolNames(st, ci))}, true
		}
		if !strings.HasSuffix(name, ".Run") {
			return nil, false
		}
		sr := &search{}
		for _, l := range logOf(st) {
			if l.Aux == "run" {
				sr.n++
			}
		}
		for _, s := range c.symbolNames(st, &ai.CallInfo{Args: ci.Args[:1], Sig: c.symbolSig(ci)}).Args[0].Args[0].Args {
			sr.names = append(sr.names, s.Args[0])
		}
		sr.given = func(name *ai.V) *ai.V {
			var g *ai.V
			for _, s := range st.MapContent(ci.Args[len(ci.Args)-2]).Args {
				switch {
				case s.Op != "ent":
					panic("constraints of unknown names")
				case c.same(st, s.Args[0], name):
					g = st.Ghost["given"+fmt.Sprint(s.Args[1].ID)]
				}
			}
			return g
		}
		c.log(st, "run")
		rows, fails := found(st, sr)
		cb, recv := x.AccMethod(st, ci.Args[len(ci.Args)-1])
		if cb == nil {
			panic("accumulator of unknown type")
		}
		sig := cb.Fn.Signature
		var args [][]*ai.V
		for i, row := range rows {
			as := []*ai.V{recv}
			for j := 0; j < sig.Params().Len(); j++ {
				pt := sig.Params().At(j).Type()
				m, ok := pt.Underlying().(*types.Map)
				if !ok {
					as = append(as, e.Sym(fmt.Sprintf("argument %d of result %d of search %d", j, i, sr.n), pt))
					continue
				}
				var ents []*ai.V
				for _, s := range sr.names {
					var val *ai.V
					for k, v := range row {
						if c.same(st, k, s) {
							val = v
						}
					}
					if val == nil {
						panic("the pattern has an unknown name: " + s.Show())
					}
					ents = append(ents, e.Mk("ent", nil, "", s, val))
				}
				as = append(as, c.mapOf(st, e.Mk("mcont", nil, "", ents...), m.Elem()))
			}
			args = append(args, as)
		}
		return x.CallEach(st, ci, "Pattern.Run", cb, args, false, func(x *ai.Exec, st *ai.State, stopped bool) []*ai.State {
			if fails {
				return []*ai.State{x.Ret(st, ci, st.NewError("Pattern.Run"))}
			}
			return []*ai.State{x.Ret(st, ci, e.Nil(ci.Sig.Results().At(0).Type()))}
		}), true
	}
}

// symbolSig is the signature of GetSymbolNames.
func (c *Ctx) symbolSig(ci *ai.CallInfo) *types.Signature {
	ms := types.NewMethodSet(ci.Args[0].T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "GetSymbolNames" {
			return ms.At(i).Type().(*types.Signature)
		}
	}
	panic("patterns have no GetSymbolNames")
}

// onMerge is an action of MERGE.
type onMerge struct {
	create bool
	expr   *ai.Tree
	key    *ai.Tree
	x      int // class of the variable
}

// merging is a MERGE clause with what its names stand for.
type merging struct {
	what  string
	t     *ai.Tree
	items []*patItem
	class map[*patItem]int
	names []*ai.V
	node  []bool // the class is a node
	acts  []*onMerge
	bound []bool
	vals  [][]*ai.V // per row and class: what a bound variable is bound to
	found [][][]*ai.V
	fails int // the row in which the search fails, or -1
	bad   int // the action whose expression fails, or -1
	top   bool
}

// mergeShapes are MERGE clauses with up to two actions.
func (c *Ctx) mergeShapes() []*ai.Tree {
	pl := c.plain()
	part := &ai.Tree{Rule: "oC_PatternPart"}
	node := func(n int, named bool) []*ai.Tree {
		return c.pick("oC_NodePattern", 1, func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == n && t.Has("oC_Variable") == named })
	}
	rel := c.pick("oC_RelationshipDetail", 1, func(t *ai.Tree) bool {
		return tight(t) && len(t.Kids) == 4 && t.Has("oC_Variable") && t.Has("oC_RelationshipTypes")
	})
	chain := c.pick("oC_PatternElement", 1, func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_PatternElementChain")) == 1 })
	prop := c.pick("oC_PropertyExpression", 1, func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_PropertyLookup")) == 1 })
	atom := c.pick("oC_Atom", 1, func(t *ai.Tree) bool { return t.Has("oC_Variable") })
	look := c.pick("oC_PropertyLookup", 1, tight)
	set := c.pick("oC_Set", 1, func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_SetItem")) == 1 })
	item := c.pick("oC_SetItem", 1, func(t *ai.Tree) bool { return tight(t) && t.Has("oC_PropertyExpression") })
	actions := c.pick("oC_MergeAction", 1, nil)
	merges := c.pick("oC_Merge", 2, nil)
	if len(node(3, true)) == 0 || len(node(2, false)) == 0 || len(rel) == 0 || len(chain) == 0 || len(prop) == 0 || len(atom) == 0 || len(look) == 0 || len(set) == 0 || len(item) == 0 || len(actions) == 0 || len(merges) == 0 {
		return nil
	}
	o := with(with(with(with(with(pl, "oC_PropertyExpression", prop[0]), "oC_Atom", atom[0]), "oC_PropertyLookup", look[0]), "oC_Set", set[0]), "oC_SetItem", item[0])
	no := func(ts ...*ai.Tree) map[string][]*ai.Tree { return with(pl, "oC_NodePattern", ts...) }
	var parts []*ai.Tree
	parts = append(parts, grow(part, no(node(3, true)[0]))...)
	parts = append(parts, grow(part, no(node(2, false)[0]))...)
	parts = append(parts, grow(part, with(with(no(node(3, true)[0]), "oC_RelationshipDetail", rel[0]), "oC_PatternElement", chain[0]))...)
	// actions of both kinds
	acts := map[bool]*ai.Tree{}
	for _, a := range actions {
		create := a.Has("CREATE")
		if acts[create] == nil || len(a.Kids) < len(acts[create].Kids) {
			acts[create] = a
		}
	}
	if len(acts) != 2 {
		return nil
	}
	var out []*ai.Tree
	seen := map[int]bool{}
	for _, m := range merges {
		n := len(m.All("oC_MergeAction"))
		pp := parts
		if seen[n] {
			pp = parts[:1]
		}
		for kinds := 0; kinds < 1<<uint(n); kinds++ {
			if seen[n] && kinds != 1 && n > 0 {
				continue
			}
			for _, p := range pp {
				t := &ai.Tree{Rule: m.Rule}
				i := 0
				for _, k := range m.Kids {
					switch k.Rule {
					case "oC_MergeAction":
						t.Kids = append(t.Kids, grow(acts[kinds>>uint(i)&1 == 1], o)...)
						i++
					case "oC_PatternPart":
						t.Kids = append(t.Kids, p)
					default:
						t.Kids = append(t.Kids, k)
					}
				}
				out = append(out, clone(t))
			}
		}
		seen[n] = true
	}
	return out
}

func g05(c *Ctx) {
	c.Rule("builder and evaluator of MERGE are followed for patterns of one node or relationship with up to two actions, at the top and over two rows, with searches that find nothing, one or two matches, or fail; what is searched for, created and set must be what the row and the matches ask for, in the order of the rows")
	c.merges()
}

func (c *Ctx) merges() {
	for _, t := range c.mergeShapes() {
		if f := os.Getenv("PSHAPE"); f != "" && !strings.Contains(t.String(), f) { // for debugging
			continue
		}
		acts := find(t, "oC_MergeAction")
		np := len(nameTokens(t)) - len(acts)
		for _, top := range []bool{true, false} {
			// what the actions set: properties of the first and last node, or of
			// a node that is not in the pattern
			for vars := 0; vars < 1<<uint(len(acts)); vars++ {
				var classes []int
				for i := 0; i < np; i++ {
					classes = append(classes, i)
				}
				for i := range acts {
					x := np
					if vars>>uint(i)&1 == 1 {
						if np == 0 {
							x = -1
						} else if x = 0; i > 0 {
							x = np - 1
						}
					}
					classes = append(classes, x)
				}
				if len(acts) > 0 && np == 0 && vars > 0 {
					continue
				}
				for bound := 0; bound < 1<<uint(np); bound++ {
					var finds [][]int
					if top {
						finds = [][]int{{0}, {1}, {2}, {-1}}
					} else {
						finds = [][]int{{0, 0}, {0, 1}, {1, 0}, {2, 1}, {0, 2}, {-1, 0}, {0, -1}}
					}
					for _, f := range finds {
						c.merge(clone(t), classes, np, bound, f, top, -1)
					}
					for i := range acts {
						c.merge(clone(t), classes, np, bound, finds[0], top, i)
						c.merge(clone(t), classes, np, bound, finds[1], top, i)
					}
				}
			}
		}
	}
}

func (c *Ctx) merge(t *ai.Tree, classes []int, np, bound int, finds []int, top bool, bad int) {
	e := c.E
	any := types.Type(types.NewInterfaceType(nil, nil))
	nt, pt := types.NewPointer(c.lpgType("Node")), types.NewPointer(c.lpgType("Path"))
	k := &merging{t: t, top: top, bad: bad, fails: -1, class: map[*patItem]int{}}
	k.items = patItems(find(t, "oC_PatternPart")[0])
	toks := nameTokens(t)
	for len(k.names) <= np {
		k.names = append(k.names, e.Str(fmt.Sprint("v", len(k.names))))
		k.node = append(k.node, true)
		k.bound = append(k.bound, len(k.names) <= np && bound>>uint(len(k.names)-1)&1 == 1)
	}
	k.bound[np] = true
	for i, x := range classes {
		toks[i].TextV = k.names[x]
	}
	unbound := 0
	for _, it := range k.items {
		k.class[it] = -1
		if it.name != nil {
			for x := range k.names {
				if tokenOf(it.name).TextV == k.names[x] {
					k.class[it] = x
					k.node[x] = it.node
				}
			}
		}
		if x := k.class[it]; x < 0 || !k.bound[x] {
			unbound++
		} else if !it.node {
			return // bound relationships are not created
		}
	}
	for _, f := range finds {
		if f == 0 && unbound == 0 {
			return
		}
	}
	for i, a := range find(t, "oC_MergeAction") {
		k.acts = append(k.acts, &onMerge{a.Has("CREATE"), find(a, "oC_Expression")[0], find(a, "oC_PropertyKeyName")[0], classes[np+i]})
		if !k.node[classes[np+i]] {
			return // only nodes have properties that can be set
		}
	}
	k.what = fmt.Sprintf("%s variables %v bound %b found %v", t, classes, bound, finds)
	if top {
		k.what += " at the top"
	}
	if bad >= 0 {
		k.what += fmt.Sprintf(" action %d fails", bad)
	}
	c.Obl("merged", k.what)
	mk, set, get := c.Func("NewEvalContext"), c.Method("EvalContext", "SetVar"), c.Method("EvalContext", "GetVar")
	if mk == nil || set == nil || get == nil || c.Type("RValue") == nil || c.Type("ResultSet") == nil {
		return
	}
	var distinct []*ai.V
	value := func(what string, x int) *ai.V {
		vt := nt
		if !k.node[x] {
			vt = pt
		}
		v := e.Sym(what, vt)
		distinct = append(distinct, v)
		return e.Box(v)
	}
	for r, f := range finds {
		var row []*ai.V
		for x := range k.names {
			var v *ai.V
			if k.bound[x] {
				v = value(fmt.Sprintf("value of %d in row %d", x, r), x)
			}
			row = append(row, v)
		}
		k.vals = append(k.vals, row)
		var ms [][]*ai.V
		for m := 0; m < f; m++ {
			var match []*ai.V
			for x := range k.names {
				v := row[x]
				if v == nil {
					v = value(fmt.Sprintf("match %d of %d in row %d", m, x, r), x)
				}
				match = append(match, v)
			}
			ms = append(ms, match)
		}
		k.found = append(k.found, ms)
		if f < 0 {
			k.fails = r
		}
	}
	mon := &ai.Monitor{NoModel: c.noCtxModels()}
	mon.Ext = c.searches(func(st *ai.State, s *search) ([]map[*ai.V]*ai.V, bool) {
		n := s.n
		if n >= len(k.found) {
			return nil, false
		}
		var out []map[*ai.V]*ai.V
		for _, m := range k.found[n] {
			row := map[*ai.V]*ai.V{}
			for x, v := range m {
				row[k.names[x]] = v
			}
			out = append(out, row)
		}
		return out, k.fails == n
	})
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		c.logEffects(st, ev)
		return nil
	}
	mon.Eval = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, recv, ctx *ai.V) ([]*ai.State, bool) {
		i := -1
		for j, a := range k.acts {
			if a.expr == c.leafOf(recv) {
				i = j
			}
		}
		if i < 0 {
			return nil, false
		}
		if i == k.bad {
			c.log(st, "evalerr")
			return []*ai.State{x.Ret(st, ci, e.Nil(ci.Sig.Results().At(0).Type()), st.NewError("expression"))}, true
		}
		cp := *ci
		return c.lookNames(x, st, ci.Instr, ctx, k.names, func(x *ai.Exec, st *ai.State, vals []*ai.V) []*ai.State {
			v := e.Box(e.Sym(fmt.Sprint("result ", len(logOf(st))), types.Typ[types.String]))
			c.log(st, fmt.Sprint("eval ", i), append([]*ai.V{v}, vals...)...)
			return []*ai.State{x.Ret(st, &cp, c.rvalue(v), e.Nil(any))}
		}), true
	}
	c.runScript(t, k.what, mon, func(st *ai.State) {
		c.knownTexts(st, t)
		for i := range distinct {
			st.AssumeNil(distinct[i], false)
			for j := 0; j < i; j++ {
				if types.Identical(distinct[i].T, distinct[j].T) {
					st.Assume(st.Equal(distinct[i], distinct[j]), false)
				}
			}
			st.Ghost[fmt.Sprint("distinct ", i)] = distinct[i]
		}
	}, func(r *shapeRun, st *ai.State, n int, prev *ai.V) *ai.Call {
		switch n {
		case 1:
			st.Ghost["built"] = prev
			return &ai.Call{Fn: mk, Args: []*ai.V{e.Sym("graph", mk.Signature.Params().At(0).Type())}}
		case 2:
			st.Ghost["ctx"] = prev
		}
		n -= 2
		if top {
			if n < len(k.names) {
				if k.bound[n] {
					return &ai.Call{Fn: set, Args: []*ai.V{st.Ghost["ctx"], k.names[n], c.rvalue(k.vals[0][n])}}
				}
				return &ai.Call{Fn: get, Args: []*ai.V{st.Ghost["ctx"], k.names[n]}} // does nothing
			}
			n -= len(k.names)
			if n == 0 {
				return &ai.Call{Recv: st.Ghost["built"], Method: "TopLevelUpdate", Args: []*ai.V{st.Ghost["ctx"]}}
			}
		} else if n == 0 {
			var rows []*ai.V
			for i, vals := range k.vals {
				var ns, vs []*ai.V
				for x, v := range vals {
					if v != nil {
						ns, vs = append(ns, k.names[x]), append(vs, v)
					}
				}
				row := c.rowOf(st, ns, vs)
				st.Ghost[fmt.Sprint("row", i)] = row
				rows = append(rows, row)
			}
			return &ai.Call{Recv: st.Ghost["built"], Method: "Update", Args: []*ai.V{st.Ghost["ctx"], c.resultOf(st, rows)}}
		}
		c.merged(r, st, k, prev)
		return nil
	})
}

// merged compares what was done with what should be.
func (c *Ctx) merged(r *shapeRun, st *ai.State, k *merging, res *ai.V) {
	e := c.E
	log := logOf(st)
	err := res.Args[1]
	// cut the log into rows
	var rows [][]*ai.V
	for _, l := range log {
		if l.Aux == "run" {
			rows = append(rows, nil)
			continue
		}
		if len(rows) == 0 && l.Aux != "bind" {
			r.report(st, "merged", "%s is done before anything is searched for", l.Aux)
			return
		}
		if l.Aux != "bind" {
			rows[len(rows)-1] = append(rows[len(rows)-1], l)
		}
	}
	// searches know the bound nodes of the row
	at := 0
	var bind []*ai.V
	for _, l := range log {
		switch l.Aux {
		case "bind":
			bind = append(bind, l.Args...)
		case "run":
			if at < len(k.vals) {
				n := 0
				for _, it := range k.items {
					x := k.class[it]
					if x < 0 || !k.bound[x] {
						continue
					}
					n++
					ok := false
					for _, b := range bind {
						ok = ok || c.isPtr(st, k.vals[at][x], b)
					}
					if !ok {
						r.report(st, "rows", "the search for row %d does not know what variable %d is bound to in it", at, x)
						return
					}
				}
				if len(bind) != n {
					r.report(st, "rows", "the search for row %d has constraints that are not of the row: %v", at, bind)
					return
				}
			}
			bind = nil
			at++
		}
	}
	failed := k.fails >= 0
	for i, a := range k.acts {
		for _, f := range k.found {
			if i == k.bad && a.create == (len(f) == 0) {
				failed = true
			}
		}
	}
	if failed {
		if !st.AssumeNil(err, false) {
			r.report(st, "fails", "MERGE succeeds although a search or expression fails")
			return
		}
	} else if !st.AssumeNil(err, true) || st.IsNil(err) == 0 {
		r.report(st, "fails", "MERGE fails although nothing is wrong")
		return
	}
	if len(rows) > len(k.vals) || !failed && len(rows) < len(k.vals) {
		r.report(st, "rows", "%d searches are made for %d rows", len(rows), len(k.vals))
		return
	}
	var result []*ai.V
	if !failed {
		var ok bool
		if result, ok = c.rowsOf(st, res.Args[0]); !ok {
			r.report(st, "rows", "the result does not have the rows that were merged")
			return
		}
	}
	for i, steps := range rows {
		var nodes, edges []*ai.V
		var rest []*ai.V
		for _, l := range steps {
			switch l.Aux {
			case "Graph.NewNode":
				nodes = append(nodes, l.Args[len(l.Args)-1])
			case "Graph.NewEdge":
				edges = append(edges, l.Args[len(l.Args)-1])
			default:
				rest = append(rest, l)
			}
		}
		created := len(k.found[i]) == 0 && k.fails != i
		wn, we := 0, 0
		for _, it := range k.items {
			if x := k.class[it]; created && (x < 0 || !k.bound[x]) {
				if it.node {
					wn++
				} else {
					we++
				}
			}
		}
		if len(nodes) != wn || len(edges) != we {
			r.report(st, "created", "%d nodes and %d relationships are created for row %d instead of %d and %d", len(nodes), len(edges), i, wn, we)
			return
		}
		// the variables there are for actions
		envs := k.found[i]
		if created {
			env := append([]*ai.V(nil), k.vals[i]...)
			n := 0
			for _, it := range k.items {
				x := k.class[it]
				if x >= 0 && k.bound[x] {
					continue
				}
				if it.node {
					if x >= 0 {
						env[x] = nodes[n]
					}
					n++
				} else if x >= 0 {
					env[x] = edges[0]
				}
			}
			envs = [][]*ai.V{env}
		}
		is := func(v, w *ai.V) bool {
			if w == nil {
				return v == nil || v.Op == "none"
			}
			if v.Op == "none" {
				return false
			}
			if w.Op == "iface" {
				return c.same(st, v, w)
			}
			if types.Identical(w.T, types.NewPointer(c.lpgType("Edge"))) {
				return c.pathOf(st, v, []*ai.V{w}) == ""
			}
			return c.isPtr(st, v, w)
		}
		// nodes that are created may be named in any order
		swap := func(vals []*ai.V) bool {
			if !created || wn != 2 {
				return false
			}
			for x, v := range vals {
				if w := envs[0][x]; (w == nodes[0] || w == nodes[1]) && !is(v, w) {
					return true
				}
			}
			return false
		}
		turn := func(vals []*ai.V) {
			if swap(vals) {
				for x, w := range envs[0] {
					if w == nodes[0] {
						envs[0][x] = nodes[1]
					} else if w == nodes[1] {
						envs[0][x] = nodes[0]
					}
				}
			}
		}
		// actions
		done := make([]int, len(envs))
		var todo []int
		for j, a := range k.acts {
			if a.create == created {
				todo = append(todo, j)
			}
		}
		for j := 0; j < len(rest); j++ {
			l := rest[j]
			if l.Aux == "evalerr" && failed {
				break
			}
			var act int
			if n, _ := fmt.Sscanf(l.Aux, "eval %d", &act); n != 1 {
				r.report(st, "actions", "%s is done for row %d, which nothing asks for", l.Aux, i)
				return
			}
			if k.acts[act].create != created {
				r.report(st, "actions", "action %d is evaluated for row %d", act, i)
				return
			}
			turn(l.Args[1:])
			m := -1
			for q, env := range envs {
				ok := true
				for x := range env {
					ok = ok && is(l.Args[1+x], env[x])
				}
				// rows may be the same
				if ok && (m < 0 || done[m] >= len(todo) || todo[done[m]] != act) {
					m = q
				}
			}
			if m < 0 {
				r.report(st, "rows", "action %d is evaluated with variables that are not those of row %d", act, i)
				return
			}
			if done[m] >= len(todo) || todo[done[m]] != act {
				r.report(st, "actions", "action %d is done out of order, or once more, for row %d", act, i)
				return
			}
			done[m]++
			if j++; j == len(rest) {
				r.report(st, "actions", "action %d sets nothing for row %d", act, i)
				return
			}
			s := rest[j]
			if s.Aux != "Node.SetProperty" || len(s.Args) != 3 || !is(e.Box(s.Args[0]), envs[m][k.acts[act].x]) || !c.sameText(st, s.Args[1], c.nameText(k.acts[act].key)) || !c.same(st, s.Args[2], l.Args[0]) {
				r.report(st, "actions", "action %d does something else for row %d: %s", act, i, s.Aux)
				return
			}
		}
		for m := range done {
			if !failed && done[m] != len(todo) {
				r.report(st, "actions", "only %d of %d actions are done for row %d", done[m], len(todo), i)
				return
			}
		}
		if failed {
			continue
		}
		// the rows of the result
		if len(result) < len(envs) {
			r.report(st, "rows", "the result lacks rows")
			return
		}
		for m, env := range envs {
			row := result[m]
			var vals []*ai.V
			for x := range k.names {
				v := c.inRow(r.x, st, row, k.names[x])
				if v == nil {
					v = e.Mk("none", nil, "")
				}
				vals = append(vals, v)
			}
			turn(vals)
			for x := range k.names {
				if k.top && k.bound[x] {
					continue // these are in the context
				}
				if !is(vals[x], env[x]) {
					r.report(st, "rows", "variable %d of a row is %s", x, vals[x].Show())
					return
				}
			}
		}
		result = result[len(envs):]
	}
	if len(result) > 0 {
		r.report(st, "rows", "the result has more rows than were merged")
	}
}
