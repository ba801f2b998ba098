package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("G07", g07)
}

// SET and REMOVE: the text of a clause is built and applied to rows of which
// everything is known; the properties and labels the nodes have afterwards are
// compared with what the text says.

// changeItem is an item of SET or REMOVE.
type changeItem struct {
	t      *ai.Tree
	name   *ai.Tree   // the variable
	path   []*ai.Tree // keys of maps, before the property
	key    *ai.Tree   // property
	op     string     // "=" or "+=" for all properties
	value  *ai.Tree
	labels []*ai.Tree
	remove bool
}

func (c *Ctx) changeItems(t *ai.Tree) []*changeItem {
	var out []*changeItem
	for _, rule := range []string{"oC_SetItem", "oC_RemoveItem"} {
		for _, s := range find(t, rule) {
			it := &changeItem{t: s, remove: rule == "oC_RemoveItem"}
			vs, keys := find(s, "oC_Variable"), find(s, "oC_PropertyKeyName")
			if len(vs) != 1 {
				panic("item of unknown form: " + s.String())
			}
			it.name = vs[0]
			if n := len(keys); n > 0 {
				it.path, it.key = keys[:n-1], keys[n-1]
			}
			it.value = s.One("oC_Expression")
			for _, l := range find(s, "oC_LabelName") {
				it.labels = append(it.labels, l)
			}
			for _, k := range s.Kids {
				if k.Terminal() && strings.HasSuffix(k.Text, "=") {
					it.op = k.Text
				}
			}
			out = append(out, it)
		}
	}
	return out
}

// changeShapes are clauses with one or two items.
func (c *Ctx) changeShapes() []*ai.Tree {
	pl := c.plain()
	prop := c.pick("oC_PropertyExpression", 1, func(t *ai.Tree) bool { return len(t.All("oC_PropertyLookup")) == 1 })
	deep := c.pick("oC_PropertyExpression", 2, func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_PropertyLookup")) == 2 })
	atom := c.pick("oC_Atom", 1, func(t *ai.Tree) bool { return t.Has("oC_Variable") })
	look := c.pick("oC_PropertyLookup", 1, nil)
	tightOf := func(ts []*ai.Tree) []*ai.Tree {
		var out []*ai.Tree
		for _, t := range ts {
			if tight(t) {
				out = append(out, t)
			}
		}
		return out
	}
	if len(tightOf(prop)) == 0 || len(atom) == 0 || len(tightOf(look)) == 0 || len(deep) == 0 {
		return nil
	}
	var out []*ai.Tree
	for _, f := range []struct{ clause, item string }{{"oC_Set", "oC_SetItem"}, {"oC_Remove", "oC_RemoveItem"}} {
		clauses := c.pick(f.clause, 2, func(t *ai.Tree) bool { return len(t.All(f.item)) <= 2 })
		items := c.pick(f.item, 1, nil)
		if len(clauses) == 0 || len(items) == 0 {
			return nil
		}
		o := with(with(with(pl, "oC_PropertyExpression", tightOf(prop)...), "oC_Atom", atom[0]), "oC_PropertyLookup", tightOf(look)...)
		root := &ai.Tree{Rule: f.clause}
		simple := map[string]bool{}
		var one, two []*ai.Tree
		for _, t := range clauses {
			min := len(t.All(f.item)) == 1
			if min {
				one = append(one, t)
			} else if k := fmt.Sprint(len(two) == 0); !simple[k] {
				simple[k] = true
				two = append(two, t)
			}
		}
		// one item in all its forms
		all := with(with(o, "oC_PropertyExpression", prop...), "oC_PropertyLookup", look...)
		all["oC_NodeLabels"] = c.pick("oC_NodeLabels", 3, tight)
		out = append(out, grow(root, with(with(all, f.clause, one[0]), f.item, items...))...)
		// properties of what is in a map
		for _, t := range items {
			if t.Has("oC_PropertyExpression") && tight(t) {
				out = append(out, grow(root, with(with(with(o, f.clause, one[0]), f.item, t), "oC_PropertyExpression", deep[0]))...)
			}
		}
		// the clause in all its forms
		for _, t := range clauses {
			out = append(out, grow(root, with(with(o, f.clause, t), f.item, tightOf(items)[0]))...)
		}
		// pairs of items
		out = append(out, grow(root, with(with(o, f.clause, two[0]), f.item, tightOf(items)...))...)
	}
	return out
}

// change is a clause with what its names stand for.
type change struct {
	what   string
	t      *ai.Tree
	items  []*changeItem
	class  []int // of the items
	names  []*ai.V
	vals   [][]*ai.V // per row and class: what the variable is bound to
	inRow  [][]*ai.V // the same, with the maps around it
	inside bool
	node   map[*ai.V]*ai.V
	value  string // what expressions evaluate to
	filter bool
	rows   int
}

func g07(c *Ctx) {
	c.Rule("builder and evaluator of SET and REMOVE are followed for every form of item, alone and in pairs, over rows whose variables are bound to nodes with known properties or to other values, with values of every kind; the properties and labels of all nodes afterwards must be those the text asks for")
	c.changes()
}

func (c *Ctx) changes() {
	for _, t := range c.changeShapes() {
		if f := os.Getenv("PSHAPE"); f != "" && !strings.Contains(t.String(), f) { // for debugging
			continue
		}
		n := len(nameTokens(t))
		for _, p := range partitions(n) {
			exprs := len(find(t, "oC_Expression")) > 0
			values := []string{""}
			if exprs {
				values = []string{"null", "map", "empty", "node", "self", "other", "error"}
			}
			for _, v := range values {
				if nested(t) {
					for _, f := range []bool{false, true} {
						if v != "empty" && v != "node" && v != "self" && (f || !c.onlyFiltered) && (exprs || !f) {
							c.change(clone(t), p, v, "inside", f)
						}
					}
					continue
				}
				for _, b := range []string{"apart", "alike", "null", "other", "unbound"} {
					if (b != "apart" && b != "alike") && v != "map" && v != "" && v != "error" {
						continue
					}
					for _, f := range []bool{false, true} {
						if f && (!exprs || b != "apart" && b != "alike") || c.onlyFiltered && !f {
							continue
						}
						c.change(clone(t), p, v, b, f)
					}
				}
			}
		}
	}
}

// nested: the clause changes properties of what is in a map.
func nested(t *ai.Tree) bool {
	for _, p := range find(t, "oC_PropertyExpression") {
		if len(p.All("oC_PropertyLookup")) > 1 {
			return true
		}
	}
	return false
}

func (c *Ctx) change(t *ai.Tree, classes []int, value, bound string, filter bool) {
	e := c.E
	str, any := types.Typ[types.String], types.Type(types.NewInterfaceType(nil, nil))
	k := &change{t: t, value: value, filter: filter, rows: 2, inside: bound == "inside"}
	k.items = c.changeItems(t)
	toks := nameTokens(t)
	for i, x := range classes {
		for len(k.names) <= x {
			k.names = append(k.names, e.Str(fmt.Sprint("v", len(k.names))))
		}
		toks[i].TextV = k.names[x]
	}
	for _, it := range k.items {
		for x, n := range k.names {
			if tokenOf(it.name).TextV == n {
				k.class = append(k.class, x)
			}
		}
	}
	k.what = fmt.Sprintf("%s variables %v %s", t, classes, bound)
	if value != "" {
		k.what += " value: " + value
	}
	if filter {
		k.what += " filtered"
	}
	c.Obl("changed", k.what)
	mk, set := c.Func("NewEvalContext"), c.Method("EvalContext", "SetVar")
	nt := types.NewPointer(c.lpgType("Node"))
	if mk == nil || set == nil || c.Type("RValue") == nil || c.Type("ResultSet") == nil || c.Method("EvalContext", "GetVar") == nil {
		return
	}
	// nodes: one for each variable in each row, or only one
	keys := []*ai.V{e.Sym("key0", str), e.Sym("key1", str)}
	var nodes []*ai.V
	initial := map[*ai.V][]wantEnt{}
	newNode := func() *ai.V {
		i := len(nodes)
		n := e.Sym(fmt.Sprint("node", i), nt)
		nodes = append(nodes, n)
		for j, key := range keys {
			initial[n] = append(initial[n], wantEnt{key, e.Sym(fmt.Sprintf("value%d of node%d", j, i), any), false})
		}
		return n
	}
	var shared *ai.V
	for r := 0; r < k.rows; r++ {
		var row []*ai.V
		for x := range k.names {
			var v *ai.V
			switch {
			case bound == "alike":
				if shared == nil {
					shared = newNode()
				}
				v = e.Box(shared)
			case bound == "null" && r == 0 && x == 0:
				v = e.Nil(any)
			case bound == "other" && r == 0 && x == 0:
				v = e.Box(e.Sym("text", str))
			case bound == "unbound" && x == 0:
			default:
				v = e.Box(newNode())
			}
			row = append(row, v)
		}
		k.vals = append(k.vals, row)
	}
	source := e.Sym("source", nt)
	mkeys := []*ai.V{e.Sym("mapkey0", str), e.Sym("mapkey1", str)}
	mvals := []*ai.V{e.Sym("mapval0", any), e.Sym("mapval1", any)}
	// what expressions of an item evaluate to, in a row
	native := func(st *ai.State, it, r int) *ai.V {
		switch {
		case value == "null":
			return e.Nil(any)
		case k.items[it].key != nil: // any value can be stored
			return e.Box(e.Sym(fmt.Sprintf("scalar %d of row %d", it, r), str))
		}
		switch value {
		case "map":
			var ents []*ai.V
			for i := range mkeys {
				ents = append(ents, e.Mk("ent", nil, "", mkeys[i], c.rvalue(mvals[i])))
			}
			return e.Box(c.mapOf(st, e.Mk("mcont", nil, "", ents...), c.Type("Value")))
		case "empty":
			return e.Box(c.mapOf(st, e.Mk("mcont", nil, ""), c.Type("Value")))
		case "node":
			return e.Box(source)
		case "self":
			return k.vals[r][k.class[it]]
		}
		return e.Box(e.Sym(fmt.Sprintf("scalar %d of row %d", it, r), str))
	}
	exprs := func(leaf *ai.Tree) int {
		for i, it := range k.items {
			if it.value != nil && it.value == leaf {
				return i
			}
		}
		return -1
	}
	mon := &ai.Monitor{NoModel: c.noCtxModels()}
	mon.Ext = c.nodeCall
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		c.noteFilter(st, ev)
		if ev.Kind == "effect" {
			c.reach(ev.Instr)
			x.Report(st, "changed", ev.Instr, "%s: %s is done, which the text does not ask for", k.what, ev.Name)
		}
		return nil
	}
	mon.Eval = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, recv, ctx *ai.V) ([]*ai.State, bool) {
		i := exprs(c.leafOf(recv))
		if i < 0 {
			return nil, false
		}
		if value == "error" {
			st.SetGS("cause", "yes")
			return []*ai.State{x.Ret(st, ci, e.Nil(ci.Sig.Results().At(0).Type()), st.NewError("expression"))}, true
		}
		n := 0
		if g := st.GS(fmt.Sprint("evaluated", i)); g != "" {
			fmt.Sscan(g, &n)
		}
		st.SetGS(fmt.Sprint("evaluated", i), fmt.Sprint(n+1))
		at := ci.Instr
		cp := *ci
		return c.lookNames(x, st, at, ctx, k.names, func(x *ai.Exec, st *ai.State, vals []*ai.V) []*ai.State {
			r := -1
			for q := range k.inRow {
				ok := true
				for j, v := range k.inRow[q] {
					if (v == nil) != (vals[j] == nil) || v != nil && !c.same(st, st.Freeze(v), st.Freeze(vals[j])) {
						ok = false
					}
				}
				if ok && (r < 0 || q == n) {
					r = q
				}
			}
			if r < 0 {
				x.Report(st, "rows", at, "%s: an expression is evaluated with the variables of no row", k.what)
				r = 0
			}
			return []*ai.State{x.Ret(st, &cp, c.rvalue(native(st, i, r)), e.Nil(any))}
		}), true
	}
	c.runScript(t, k.what, mon, func(st *ai.State) {
		c.knownTexts(st, t)
		distinct := func(vs []*ai.V) {
			for i := range vs {
				for j := 0; j < i; j++ {
					st.Assume(st.Equal(vs[i], vs[j]), false)
				}
			}
		}
		distinct(keys)
		distinct(mkeys)
		distinct(append([]*ai.V{source}, nodes...))
		for i := range keys {
			st.Ghost[fmt.Sprint("key", i)], st.Ghost[fmt.Sprint("mapkey", i)], st.Ghost[fmt.Sprint("mapval", i)] = keys[i], mkeys[i], mvals[i]
		}
		know := func(n *ai.V) {
			var vals []*ai.V
			for _, w := range initial[n] {
				vals = append(vals, w.val)
				st.AssumeNil(w.val, false)
				st.Ghost[fmt.Sprint("value ", w.val.ID)] = w.val
			}
			c.knowNode(st, n, keys, vals)
		}
		for i := 0; i < 2; i++ {
			initial[source] = append(initial[source], wantEnt{keys[i], e.Sym(fmt.Sprintf("value%d of source", i), any), false})
		}
		initial[source] = initial[source][:2]
		know(source)
		for _, n := range nodes {
			know(n)
		}
	}, func(r *shapeRun, st *ai.State, n int, prev *ai.V) *ai.Call {
		switch n {
		case 1:
			st.Ghost["built"] = prev
			return &ai.Call{Fn: mk, Args: []*ai.V{e.Sym("graph", mk.Signature.Params().At(0).Type())}}
		case 2:
			st.Ghost["ctx"] = prev
			if k.filter {
				c.setFilter(st, prev)
			}
			var rows []*ai.V
			k.inRow = nil
			for i, vals := range k.vals {
				vals = append([]*ai.V(nil), vals...)
				for j := range k.items {
					if x := k.class[j]; k.inside && vals[x] != nil {
						for d := len(k.items[j].path) - 1; d >= 0; d-- {
							vals[x] = e.Box(c.mapOf(st, e.Mk("mcont", nil, "", e.Mk("ent", nil, "", c.nameText(k.items[j].path[d]), c.rvalue(vals[x]))), c.Type("Value")))
						}
					}
				}
				k.inRow = append(k.inRow, vals)
				var ns, vs []*ai.V
				for x, v := range vals {
					if v != nil {
						ns, vs = append(ns, k.names[x]), append(vs, v)
					}
				}
				row := c.rowOf(st, ns, vs)
				st.Ghost[fmt.Sprint("row", i)] = row
				rows = append(rows, row)
			}
			return &ai.Call{Recv: st.Ghost["built"], Method: "Update", Args: []*ai.V{prev, c.resultOf(st, rows)}}
		}
		c.changed(r, st, k, initial, prev, native)
		return nil
	})
}

// changed compares the nodes with what they should be.
func (c *Ctx) changed(r *shapeRun, st *ai.State, k *change, initial map[*ai.V][]wantEnt, res *ai.V, native func(st *ai.State, it, r int) *ai.V) {
	e := c.E
	nt := types.NewPointer(c.lpgType("Node"))
	want := map[*ai.V][]wantEnt{}
	labels := map[*ai.V][]*ai.V{}
	for n, w := range initial {
		want[n] = w
	}
	fails, maybe := "", false
rows:
	for row := range k.vals {
		for i, it := range k.items {
			v := k.vals[row][k.class[i]]
			if v == nil {
				fails = "a variable is not defined"
				break rows
			}
			if it.value != nil && k.value == "error" {
				fails = "an expression fails"
				break rows
			}
			var n *ai.V
			if v.Op == "iface" && types.Identical(v.Args[0].T, nt) {
				n = v.Args[0]
			}
			if n == nil {
				maybe = true // not an entity: may be refused
				if st.IsNil(res.Args[1]) == 1 {
					continue
				}
				break rows
			}
			switch {
			case len(it.labels) > 0:
				for _, l := range it.labels {
					op := "ent"
					if it.remove {
						op = "del"
					}
					labels[n] = append(labels[n], e.Mk(op, nil, "", c.nameText(l)))
				}
			case it.key != nil && it.remove:
				want[n] = append(want[n][:len(want[n]):len(want[n])], wantEnt{c.nameText(it.key), e.Nil(e.Box(n).T), true})
			case it.key != nil:
				want[n] = append(want[n][:len(want[n]):len(want[n])], wantEnt{c.nameText(it.key), native(st, i, row), true})
			default:
				var src []wantEnt
				switch k.value {
				case "map":
					for j := 0; j < 2; j++ {
						src = append(src, wantEnt{st.Ghost[fmt.Sprint("mapkey", j)], st.Ghost[fmt.Sprint("mapval", j)], true})
					}
				case "empty":
				case "node", "self":
					from := n
					if k.value == "node" {
						from = e.Sym("source", nt)
					}
					if k.value == "self" && k.filter {
						// values that were written before are written again
						for _, w := range want[from] {
							if w.written {
								return
							}
						}
					}
					for _, w := range want[from] {
						src = append(src, wantEnt{w.key, w.val, true})
					}
				default:
					fails = fmt.Sprintf("a %s value is assigned", k.value)
					break rows
				}
				if it.op == "=" {
					want[n] = nil
				}
				want[n] = append(want[n][:len(want[n]):len(want[n])], src...)
			}
		}
	}
	err := res.Args[1]
	switch {
	case fails != "":
		if !st.AssumeNil(err, false) {
			r.report(st, "fails", "succeeds although %s", fails)
			return
		}
	case st.IsNil(err) == 0:
		if !maybe {
			r.report(st, "fails", "fails although nothing is wrong: %s", err.Show())
			return
		}
	case !st.AssumeNil(err, true):
		r.report(st, "fails", "may fail although nothing is wrong")
		return
	}
	for n, w := range want {
		got := st.Ghost[propsOf(n)]
		c.notFiltered = ""
		if why := c.sameProps(r.x, st, got, w, k.filter); why != "" {
			if c.notFiltered != "" {
				r.report(st, "filter", "%s", c.notFiltered)
			}
			r.report(st, "changed", "%s: %s", n.Show(), why)
			return
		}
		if why := c.labelsNow(st, st.Ghost[labelsOf(n)], labels[n]); why != "" {
			r.report(st, "changed", "%s: %s", n.Show(), why)
			return
		}
	}
	if st.IsNil(err) != 1 {
		return
	}
	rows, ok := c.rowsOf(st, res.Args[0])
	if !ok || len(rows) != len(k.vals) {
		r.report(st, "rows", "the result does not have the rows of the clause before")
		return
	}
	for i, row := range rows {
		for x := range k.vals[i] {
			got := c.inRow(r.x, st, row, k.names[x])
			if got == nil || !c.same(st, st.Freeze(got), st.Freeze(k.inRow[i][x])) {
				r.report(st, "rows", "variable %d of row %d is not what it was", x, i)
				return
			}
		}
	}
}

// labelsNow: labels are what was there, with additions and removals.
func (c *Ctx) labelsNow(st *ai.State, got *ai.V, want []*ai.V) string {
	if got == nil {
		if len(want) > 0 {
			return "the labels are not changed"
		}
		return ""
	}
	if got.Op != "sset" {
		panic("labels are not known: " + got.Show())
	}
	base := false
	for _, s := range got.Args {
		if s.Op == "base" {
			base = true
			continue
		}
		ok := false
		for _, w := range want {
			ok = ok || s.Op == w.Op && c.sameText(st, s.Args[0], w.Args[0])
		}
		if !ok {
			return fmt.Sprintf("label %s is changed", s.Show())
		}
	}
	if !base {
		return "the labels it had are lost"
	}
	for _, w := range want {
		ok := false
		for _, s := range got.Args {
			ok = ok || s.Op == w.Op && c.sameText(st, s.Args[0], w.Args[0])
		}
		if !ok {
			return fmt.Sprintf("label %s is not changed", w.Show())
		}
	}
	return ""
}

var _ = ssa.NewProgram
