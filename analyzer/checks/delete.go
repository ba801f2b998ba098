package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("G04", g04) }

// deletion is a DELETE over some rows of a small graph.
type deletion struct {
	c      *Ctx
	detach bool
	edges  [][2]int   // ends of the relationships of the graph
	items  [][]string // of each row, what its expressions are
	bad    int        // number of the evaluation that fails, or -1
	nodes  []*ai.V
	rels   []*ai.V
	paths  map[*ai.V][]int
	what   string
}

func g04(c *Ctx) {
	c.Rule("builder and evaluator of DELETE are followed for all small graphs and every kind of value to delete, alone and in pairs in one row or in two; which nodes and relationships are removed, each once, and which cases are refused must be what the text says")
	c.only = map[string]bool{"delete": true, "undecided": true}
	out, in, both := c.edgeDir("OutgoingEdge"), c.edgeDir("IncomingEdge"), c.edgeDir("AnyEdge")
	if out == nil || in == nil || both == nil {
		return
	}
	graphs := [][][2]int{{}, {{0, 1}}, {{1, 0}}, {{0, 0}}, {{0, 1}, {1, 0}}, {{0, 1}, {0, 1}}}
	values := []string{"null", "node 0", "node 1", "edge 0", "edge 1", "path", "path 0", "path 0 1", "path 1 1", "string", "list", "int"}
	some := []string{"null", "node 0", "node 1", "edge 0", "path 0", "string"}
	for _, detach := range []bool{false, true} {
		for n := 1; n <= 2; n++ {
			ts := c.pick("oC_Delete", 2, func(t *ai.Tree) bool { return t.Has("DETACH") == detach && len(t.All("oC_Expression")) == n })
			if len(ts) == 0 {
				c.Undecided("oC_Delete", 0, "no shape of DELETE with %d expressions", n)
				return
			}
			for _, g := range graphs {
				exists := func(v string) bool {
					f := strings.Fields(v)
					for _, w := range f[1:] {
						if f[0] != "node" && int(w[0]-'0') >= len(g) {
							return false
						}
					}
					return true
				}
				try := func(t *ai.Tree, items ...[]string) {
					for bad := -1; bad < len(items)*n; bad++ {
						c.deletion(t, &deletion{detach: detach, edges: g, items: items, bad: bad})
					}
				}
				for i, t := range ts {
					for _, a := range values {
						if !exists(a) {
							continue
						}
						if n == 1 {
							try(t, []string{a})
						}
						for _, b := range values {
							switch {
							case !exists(b) || i > 0:
							case n == 1:
								try(t, []string{a}, []string{b})
							default:
								try(t, []string{a, b})
							}
						}
					}
				}
				if n == 1 {
					for _, a := range some {
						for _, b := range some {
							for _, d := range some {
								if exists(a) && exists(b) && exists(d) {
									c.deletion(ts[0], &deletion{detach: detach, edges: g, items: [][]string{{a}, {b}, {d}}, bad: -1})
								}
							}
						}
					}
					continue
				}
				for _, a := range some {
					for _, b := range some {
						if exists(a) && exists(b) {
							c.deletion(ts[0], &deletion{detach: detach, edges: g, items: [][]string{{a, b}, {b, a}}, bad: -1})
							c.deletion(ts[0], &deletion{detach: detach, edges: g, items: [][]string{{a, b}, {a, b}}, bad: -1})
						}
					}
				}
			}
		}
	}
}

// edgeDir is a direction constant of the graph package.
func (c *Ctx) edgeDir(name string) *ai.V {
	n := c.lpgType("Node")
	if n == nil {
		return nil
	}
	k, ok := n.(*types.Named).Obj().Pkg().Scope().Lookup(name).(*types.Const)
	if !ok {
		c.Undecided(name, 0, "the graph package has no constant %s", name)
		return nil
	}
	i, _ := constant.Int64Val(k.Val())
	return c.E.Int(i)
}

func (c *Ctx) deletion(t *ai.Tree, k *deletion) {
	e := c.E
	k.c = c
	k.what = fmt.Sprintf("%s of %v over relationships %v", t, k.items, k.edges)
	if k.bad >= 0 {
		k.what += fmt.Sprintf(" evaluation %d fails", k.bad)
	}
	c.Obl("delete", k.what)
	mk := c.Func("NewEvalContext")
	if mk == nil || c.Type("ResultSet") == nil {
		return
	}
	any := types.Type(types.NewInterfaceType(nil, nil))
	nodeT, edgeT, pathT := types.NewPointer(c.lpgType("Node")), types.NewPointer(c.lpgType("Edge")), types.NewPointer(c.lpgType("Path"))
	for i := 0; i < 2; i++ {
		k.nodes = append(k.nodes, e.Sym(fmt.Sprint("node ", i), nodeT))
	}
	for i := range k.edges {
		k.rels = append(k.rels, e.Sym(fmt.Sprint("edge ", i), edgeT))
	}
	k.paths = map[*ai.V][]int{}
	var syms []*ai.V
	var vals []*ai.V // one after the other
	for i, row := range k.items {
		for j, it := range row {
			f := strings.Fields(it)
			var ids []int
			for _, w := range f[1:] {
				ids = append(ids, int(w[0]-'0'))
			}
			var v *ai.V
			switch f[0] {
			case "null":
				v = e.Nil(any)
			case "node":
				v = e.Box(k.nodes[ids[0]])
			case "edge":
				v = e.Box(k.rels[ids[0]])
			case "path":
				p := e.Sym(fmt.Sprintf("path %d %d", i, j), pathT)
				k.paths[p], syms = ids, append(syms, p)
				v = e.Box(p)
			case "string":
				v = e.Box(e.Sym("text", types.Typ[types.String]))
			case "int":
				v = e.Box(e.Sym("number", types.Typ[types.Int]))
			case "list":
				v = e.Box(e.List(types.NewSlice(e.ValueT), e.One(c.rvalue(e.Box(k.nodes[0])))))
			}
			vals = append(vals, v)
		}
	}
	leaves := find(t, "oC_Expression")
	x0 := e.Str("row")
	removed := func(st *ai.State, v *ai.V) bool { return st.Ghost["removed "+fmt.Sprint(v.ID)] != nil }
	var r *shapeRun
	gone := e.Mk("gone", nil, "")
	remove := func(st *ai.State, v *ai.V, what string) {
		if removed(st, v) {
			r.report(st, "delete", "%s is removed although it is gone", what)
		}
		st.Ghost["removed "+fmt.Sprint(v.ID)] = gone
	}
	index := func(vs []*ai.V, v *ai.V) int {
		for i, w := range vs {
			if v == w {
				return i
			}
		}
		return -1
	}
	// incident are the relationships of a node that are left
	incident := func(st *ai.State, n int, out, in bool) []*ai.V {
		var l []*ai.V
		for i, ends := range k.edges {
			if (out && ends[0] == n || in && ends[1] == n) && !removed(st, k.rels[i]) {
				l = append(l, k.rels[i])
			}
		}
		return l
	}
	mon := &ai.Monitor{NoModel: c.noCtxModels()}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
		x.Report(st, "delete", at, "%s: %s", k.what, w)
	}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind == "effect" {
			x.Report(st, "delete", ev.Instr, "%s: %s is called", k.what, ev.Name)
		}
		return nil
	}
	dirs := map[*ai.V][2]bool{c.edgeDir("OutgoingEdge"): {true, false}, c.edgeDir("IncomingEdge"): {false, true}, c.edgeDir("AnyEdge"): {true, true}}
	mon.Ext = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
		if len(ci.Args) == 0 {
			return nil, false
		}
		recv := ci.Args[0]
		ret := func(vs ...*ai.V) ([]*ai.State, bool) { return []*ai.State{x.Ret(st, ci, vs...)}, true }
		method := name[strings.LastIndexAny(name, ".:")+1:]
		switch {
		case index(k.nodes, recv) >= 0:
			n := index(k.nodes, recv)
			switch method {
			case "GetEdges":
				b, i := e.SplitInt(ci.Args[1])
				if b != nil {
					return nil, false
				}
				for d, dir := range dirs {
					if _, j := e.SplitInt(d); i == j {
						// a relationship from a node to itself is found in both directions
						l := incident(st, n, dir[0], dir[1])
						it := e.Mk("edges", ci.Sig.Results().At(0).Type(), fmt.Sprint(len(logOf(st))), l...)
						st.AssumeNil(it, false)
						c.log(st, "iterator", it)
						st.Ghost["at "+fmt.Sprint(it.ID)] = e.Int(0)
						return ret(it)
					}
				}
			case "DetachAndRemove":
				for _, l := range incident(st, n, true, true) {
					st.Ghost["removed "+fmt.Sprint(l.ID)] = gone
				}
				remove(st, recv, fmt.Sprint("node ", n))
				return ret()
			case "Detach":
				for _, l := range incident(st, n, true, true) {
					st.Ghost["removed "+fmt.Sprint(l.ID)] = gone
				}
				return ret()
			}
		case index(k.rels, recv) >= 0:
			i := index(k.rels, recv)
			switch method {
			case "Remove":
				remove(st, recv, fmt.Sprint("relationship ", i))
				return ret()
			case "GetFrom":
				return ret(k.nodes[k.edges[i][0]])
			case "GetTo":
				return ret(k.nodes[k.edges[i][1]])
			}
		case recv.Op == "edges":
			key := "at " + fmt.Sprint(recv.ID)
			_, at := e.SplitInt(st.Ghost[key])
			switch method {
			case "Next":
				// what was removed meanwhile is not found
				for int(at) < len(recv.Args) && removed(st, recv.Args[at]) {
					at++
				}
				st.Ghost[key] = e.Int(at + 1)
				return ret(e.Bool(int(at) < len(recv.Args)))
			case "Edge":
				if at > 0 && int(at) <= len(recv.Args) {
					return ret(recv.Args[at-1])
				}
				r.report(st, "delete", "a relationship is asked for although there is none")
				return []*ai.State{}, true
			case "MaxSize":
				return ret(e.Int(int64(len(recv.Args))))
			}
		case k.paths[recv] != nil || index(syms, recv) >= 0:
			l := k.paths[recv]
			switch method {
			case "NumEdges":
				return ret(e.Int(int64(len(l))))
			case "NumNodes":
				return ret(e.Int(int64(len(l) + 1)))
			case "IsEmpty":
				return ret(e.Bool(false))
			case "GetEdge":
				if i, ok := c.constInt(st, ci.Args[1]); ok && i >= 0 && int(i) < len(l) {
					return ret(k.rels[l[i]])
				}
				r.report(st, "delete", "relationship %s of a path with %d is asked for", ci.Args[1].Show(), len(l))
				return []*ai.State{}, true
			}
		}
		return nil, false
	}
	mon.Eval = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, recv, ctx *ai.V) ([]*ai.State, bool) {
		leaf := c.leafOf(recv)
		i := indexOf(leaves, leaf)
		if i < 0 {
			return nil, false
		}
		n := 0
		for _, l := range logOf(st) {
			if l.Aux == "eval" {
				n++
			}
		}
		cp := *ci
		return c.lookNames(x, st, ci.Instr, ctx, []*ai.V{x0}, func(x *ai.Exec, st *ai.State, vs []*ai.V) []*ai.State {
			row := n / len(leaves)
			if n >= len(vals) || i != n%len(leaves) || vs[0] == nil || !c.same(st, vs[0], e.Box(e.Int(int64(row)))) {
				r.report(st, "delete", "evaluation %d is that of expression %d with another row", n, i)
				return nil
			}
			c.log(st, "eval")
			if n == k.bad {
				return []*ai.State{x.Ret(st, &cp, e.Nil(cp.Sig.Results().At(0).Type()), st.NewError("expression"))}
			}
			return []*ai.State{x.Ret(st, &cp, c.rvalue(vals[n]), e.Nil(any))}
		}), true
	}
	c.runScript(t, k.what, mon, func(st *ai.State) {
		c.knownTexts(st, t)
		for _, l := range [][]*ai.V{k.nodes, k.rels, syms} {
			for i, v := range l {
				st.AssumeNil(v, false)
				st.Ghost[fmt.Sprint("known ", v.ID)] = v
				for _, w := range l[:i] {
					st.Assume(st.Equal(v, w), false)
				}
			}
		}
	}, func(run *shapeRun, st *ai.State, n int, prev *ai.V) *ai.Call {
		r = run
		switch n {
		case 1:
			st.Ghost["built"] = prev
			return &ai.Call{Fn: mk, Args: []*ai.V{e.Sym("graph", mk.Signature.Params().At(0).Type())}}
		case 2:
			var rows []*ai.V
			for i := range k.items {
				row := c.rowOf(st, []*ai.V{x0}, []*ai.V{e.Box(e.Int(int64(i)))})
				st.Ghost[fmt.Sprint("row", i)] = row
				rows = append(rows, row)
			}
			return &ai.Call{Recv: st.Ghost["built"], Method: "Update", Args: []*ai.V{prev, c.resultOf(st, rows)}}
		}
		k.done(r, st, vals, prev, removed)
		return nil
	})
}

// done compares what is gone with what the text says.
func (k *deletion) done(r *shapeRun, st *ai.State, vals []*ai.V, res *ai.V, removed func(st *ai.State, v *ai.V) bool) {
	noNode, noEdge := map[int]bool{}, map[int]bool{}
	refused := ""
	n := 0
	for _, row := range k.items {
		for _, it := range row {
			if refused != "" {
				continue
			}
			f := strings.Fields(it)
			switch {
			case n == k.bad:
				refused = "an expression fails"
			case f[0] == "null":
			case f[0] == "node":
				id := int(f[1][0] - '0')
				var left []int
				for i, ends := range k.edges {
					if (ends[0] == id || ends[1] == id) && !noEdge[i] {
						left = append(left, i)
					}
				}
				if len(left) > 0 && !k.detach {
					refused = fmt.Sprintf("node %d has a relationship", id)
					break
				}
				noNode[id] = true
				for _, i := range left {
					noEdge[i] = true
				}
			case f[0] == "edge" || f[0] == "path":
				for _, w := range f[1:] {
					noEdge[int(w[0]-'0')] = true
				}
			default:
				refused = "a " + f[0] + " cannot be deleted"
			}
			n++
		}
	}
	for i, v := range k.nodes {
		if removed(st, v) != noNode[i] {
			r.report(st, "delete", "node %d is removed: %v", i, removed(st, v))
		}
	}
	for i, v := range k.rels {
		if removed(st, v) != noEdge[i] {
			r.report(st, "delete", "relationship %d is removed: %v", i, removed(st, v))
		}
	}
	err := st.IsNil(res.Args[1])
	switch {
	case refused != "" && err != 0:
		r.report(st, "delete", "the clause succeeds although %s", refused)
	case refused == "" && err != 1:
		r.report(st, "delete", "the clause fails although nothing is wrong")
	case refused == "":
		if rows, ok := k.c.rowsOf(st, res.Args[0]); !ok || len(rows) != len(k.items) {
			r.report(st, "delete", "the rows are not those before the clause")
		}
	}
}
