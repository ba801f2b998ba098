package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("Q03", q03) }

func q03(c *Ctx) {
	c.Rule("builder and evaluator of UNION are followed for every way the values of the rows coincide, and the function that tells whether two values are the same for each pair of kinds and each relation between their parts; the rows of the result must be the distinct ones, in order, and the answer must be that of the contents")
	c.only = map[string]bool{"rows": true, "same": true, "undecided": true}
	c.sameValues()
	c.unions()
}

// unions follows queries with UNION.
func (c *Ctx) unions() {
	e := c.E
	kit := c.needQueries()
	any := types.Type(types.NewInterfaceType(nil, nil))
	type branches struct {
		rows  []int // of each branch
		items string
		alls  []bool
		other string // what the branches after the first return, if it is something else
	}
	cases := []branches{
		{[]int{1, 1}, "c", []bool{false}, ""}, {[]int{1, 1}, "c", []bool{true}, ""},
		{[]int{2, 1}, "c", []bool{false}, ""}, {[]int{1, 2}, "c", []bool{false}, ""}, {[]int{2, 2}, "c", []bool{false}, ""}, {[]int{2, 2}, "c", []bool{true}, ""},
		{[]int{0, 2}, "c", []bool{false}, ""}, {[]int{2, 0}, "c", []bool{false}, ""}, {[]int{0, 0}, "c", []bool{false}, ""},
		{[]int{0, 2}, "c", []bool{true}, ""}, {[]int{2, 0}, "c", []bool{true}, ""},
		{[]int{1, 1}, "c d", []bool{false}, ""}, {[]int{2, 1}, "c d", []bool{false}, ""}, {[]int{1, 1}, "c position", []bool{false}, ""}, {[]int{1, 1}, "c d", []bool{true}, ""},
		{[]int{1, 1, 1}, "c", []bool{false, false}, ""}, {[]int{1, 1, 1}, "c", []bool{true, true}, ""}, {[]int{1, 1, 1}, "c", []bool{true, false}, ""}, {[]int{1, 1, 1}, "c", []bool{false, true}, ""},
		{[]int{1, 2, 1}, "c", []bool{false, false}, ""},
		{[]int{1, 1}, "c", []bool{false}, "d"}, {[]int{2, 1}, "c", []bool{false}, "d"}, {[]int{1, 1}, "c", []bool{true}, "d"}, {[]int{1, 1}, "c d", []bool{false}, "d c"},
	}
	for _, cs := range cases {
		n := 0
		var texts []queryText
		counts := map[int][]int{}
		for i, r := range cs.rows {
			n += r * len(strings.Fields(cs.items))
			items := cs.items
			if i > 0 && cs.other != "" {
				items = cs.other
			}
			texts = append(texts, queryText{fmt.Sprint("match ", i), items})
			counts[i] = []int{r}
		}
		for _, p := range partitions(n) {
			max := -1
			for _, x := range p {
				if x > max {
					max = x
				}
			}
			for null := -1; null <= max; null++ { // the class that is null
				k := c.newQuery(kit, texts, cs.alls, 0, counts, nil, nil)
				k.values = []*ai.V{}
				classes := map[int]*ai.V{}
				for _, x := range p {
					if classes[x] == nil {
						classes[x] = e.Box(e.Sym(fmt.Sprint("value ", x), types.Typ[types.Int]))
						if x == null {
							classes[x] = e.Nil(any)
						}
					}
					k.values = append(k.values, classes[x])
				}
				for a, v := range classes {
					for b, w := range classes {
						if a < b && a != null && b != null {
							k.less = append(k.less, [2]*ai.V{v, w})
						}
					}
				}
				k.what += fmt.Sprintf(" values %v null %d", p, null)
				c.runQuery(k)
			}
		}
	}
}

// content is a value of some kind.
type contents struct {
	kind string
	id   int        // which one, of kinds without parts
	kids []contents // of lists and maps
	keys []string   // of maps and sets
	// of a path
	edges, nodes []int
}

func (v contents) String() string {
	switch v.kind {
	case "list":
		return fmt.Sprint(v.kids)
	case "map":
		var l []string
		for i, k := range v.keys {
			l = append(l, k+":"+v.kids[i].String())
		}
		return "{" + strings.Join(l, ",") + "}"
	case "set":
		return "set(" + strings.Join(v.keys, ",") + ")"
	case "path":
		return fmt.Sprintf("path%v over %v", v.edges, v.nodes)
	case "null":
		return "null"
	}
	return fmt.Sprint(v.kind, v.id)
}

// sameContents: two values have the same contents.
func sameContents(a, b contents) bool {
	num := func(v contents) bool { return v.kind == "int" || v.kind == "float64" }
	if num(a) && num(b) {
		return a.id == b.id
	}
	if a.kind != b.kind || a.id != b.id || len(a.kids) != len(b.kids) || len(a.keys) != len(b.keys) {
		return false
	}
	switch a.kind {
	case "list":
		for i := range a.kids {
			if !sameContents(a.kids[i], b.kids[i]) {
				return false
			}
		}
	case "map", "set":
		for i, k := range a.keys {
			found := false
			for j, l := range b.keys {
				found = found || k == l && (a.kind == "set" || sameContents(a.kids[i], b.kids[j]))
			}
			if !found {
				return false
			}
		}
	case "path":
		return fmt.Sprint(a.edges, a.nodes) == fmt.Sprint(b.edges, b.nodes)
	}
	return true
}

// sameValues checks the answers of IsValueSame.
func (c *Ctx) sameValues() {
	e := c.E
	fn := c.Func("IsValueSame")
	if fn == nil || c.Type("RValue") == nil {
		return
	}
	if ps := fn.Signature.Params(); ps.Len() != 2 || fn.Signature.Results().Len() != 1 {
		c.Undecided("same", fn.Pos(), "%s has another signature", fn)
		return
	}
	nodeT, edgeT, pathT, setT := types.NewPointer(c.lpgType("Node")), types.NewPointer(c.lpgType("Edge")), types.NewPointer(c.lpgType("Path")), c.lpgType("StringSet")
	any := types.Type(types.NewInterfaceType(nil, nil))
	kinds := c.orderKinds()
	// run calls the function
	run := func(what string, want bool, mk func(st *ai.State) (a, b *ai.V, ok bool), paths map[*ai.V]contents, elem func(kind string, id int) *ai.V) {
		c.Obl("same", what)
		mon := c.compareMonitor()
		order := mon.Ext
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
			s := st.Clone()
			if s.Assume(res[0], !want) {
				x.Report(s, "same", fn.Blocks[0].Instrs[0], "%s: the answer is %v", what, !want)
			}
		}
		mon.OnPanic = func(x *ai.Exec, st *ai.State, p string, at ssa.Instruction) {
			x.Report(st, "same", at, "%s: %s", what, p)
		}
		mon.Ext = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
			if out, ok := order(x, st, ci, name); ok {
				return out, true
			}
			if len(ci.Args) == 0 || ci.Fn == nil {
				return nil, false
			}
			if p, ok := paths[ci.Args[0]]; ok && types.Identical(ci.Args[0].T, pathT) {
				switch ci.Fn.Name() {
				case "NumEdges":
					x.Ret(st, ci, e.Int(int64(len(p.edges))))
					return []*ai.State{st}, true
				case "NumNodes":
					x.Ret(st, ci, e.Int(int64(len(p.nodes))))
					return []*ai.State{st}, true
				case "GetEdge", "GetNode":
					l, kind := p.edges, "edge"
					if ci.Fn.Name() == "GetNode" {
						l, kind = p.nodes, "node"
					}
					i, ok := c.constInt(st, ci.Args[1])
					if !ok || i < 0 || int(i) >= len(l) {
						x.Report(st, "same", ci.Instr, "%s: %s(%s) of a path with %d", what, ci.Fn.Name(), ci.Args[1].Show(), len(l))
						return []*ai.State{}, true
					}
					x.Ret(st, ci, elem(kind, l[i]))
					return []*ai.State{st}, true
				}
			}
			set := ci.Args[0]
			if _, ok := set.T.Underlying().(*types.Pointer); ok && (set.Op == "ptr" || set.Op == "faddr") {
				set = st.Load(set)
			}
			if types.Identical(set.T, setT) && (ci.Fn.Name() == "Len" || ci.Fn.Name() == "Has") {
				m := e.FieldByName(set, "M")
				if m == nil {
					return nil, false
				}
				ents := st.MapContent(m).Args
				if ci.Fn.Name() == "Len" {
					x.Ret(st, ci, e.Int(int64(len(ents))))
					return []*ai.State{st}, true
				}
				has := false
				for _, en := range ents {
					switch {
					case en.Op != "ent":
						return nil, false
					case st.Decide(st.Equal(en.Args[0], ci.Args[1])) == 1:
						has = true
					case st.Decide(st.Equal(en.Args[0], ci.Args[1])) != 0:
						return nil, false
					}
				}
				x.Ret(st, ci, e.Bool(has))
				return []*ai.State{st}, true
			}
			return nil, false
		}
		x := ai.NewExec(e, fn, mon)
		x.Debug, x.Unroll, x.Recur = c.Debug, 300, 5
		st := ai.NewState(e)
		a, b, ok := mk(st)
		if !ok {
			return
		}
		x.Run(x.Start(st, []*ai.V{c.rvalue(a), c.rvalue(b)}))
		c.Collect(x, what)
	}
	// kinds with an order, for each relation of their components
	for _, k := range kinds {
		var vecs [][]string
		if k.components == nil {
			vecs = [][]string{{"t", "t"}, {"f", "f"}, {"t", "f"}, {"f", "t"}}
		} else {
			vecs = relVectors(len(k.components(e.Sym("left", k.t), e.Sym("right", k.t))))
		}
		for _, vec := range vecs {
			want := strings.Trim(strings.Join(vec, ""), "=") == ""
			if k.components == nil {
				want = vec[0] == vec[1]
			}
			run(fmt.Sprintf("%s with parts %s", k.name, strings.Join(vec, "")), want, func(st *ai.State) (*ai.V, *ai.V, bool) {
				a, b := e.Sym("left", k.t), e.Sym("right", k.t)
				ok := true
				if k.components == nil {
					ok = st.Assume(a, vec[0] == "t") && st.Assume(b, vec[1] == "t")
				} else {
					for i, p := range k.components(a, b) {
						if isFloatT(p[0].T) {
							ok = ok && st.Assume(e.Cmp(p[0], p[0], ai.EQ), true) && st.Assume(e.Cmp(p[1], p[1], ai.EQ), true)
						}
						ok = ok && st.Assume(e.Cmp(p[0], p[1], relMask[vec[i]]), true)
					}
				}
				return e.Box(a), e.Box(b), ok
			}, nil, nil)
		}
	}
	// contents against contents
	vals := []contents{{kind: "null"}}
	for _, k := range kinds {
		vals = append(vals, contents{kind: k.name})
	}
	i0, i1, f0, f1 := contents{kind: "int"}, contents{kind: "int", id: 1}, contents{kind: "float64"}, contents{kind: "float64", id: 1}
	null, s0 := contents{kind: "null"}, contents{kind: "string"}
	list := func(l ...contents) contents { return contents{kind: "list", kids: l} }
	node := func(id int) contents { return contents{kind: "node", id: id} }
	mp := func(keys string, l ...contents) contents {
		return contents{kind: "map", keys: strings.Fields(keys), kids: l}
	}
	set := func(keys string) contents { return contents{kind: "set", keys: strings.Fields(keys)} }
	path := func(edges, nodes []int) contents { return contents{kind: "path", edges: edges, nodes: nodes} }
	vals = append(vals, i1, f1,
		list(), list(i0), list(i1), list(f0), list(null), list(s0), list(i0, i1), list(i1, i0), list(i0, i0), list(i0, null), list(null, i0), list(list(i0)), list(list()), list(mp("a", i0)), list(node(0)),
		mp(""), mp("a", i0), mp("a", i1), mp("a", f0), mp("b", i0), mp("a", null), mp("b", null), mp("a b", i0, i1), mp("a b", i1, i0), mp("b a", i1, i0), mp("a c", i0, i1), mp("a b", i0, null), mp("a", list(i0)), mp("a", list(i1)), mp("a", mp("a", i0)),
		set(""), set("a"), set("b"), set("a b"), set("b a"), set("a c"),
		node(0), node(1),
		path(nil, []int{0}), path(nil, []int{1}), path([]int{0}, []int{0, 1}), path([]int{0}, []int{1, 0}), path([]int{1}, []int{0, 1}),
		path([]int{0, 1}, []int{0, 1, 2}), path([]int{0, 2}, []int{0, 1, 2}), path([]int{2, 1}, []int{0, 1, 2}), path([]int{1, 0}, []int{0, 1, 2}), path([]int{0, 1}, []int{0, 1, 0}),
	)
	for _, a := range vals {
		for _, b := range vals {
			paths := map[*ai.V]contents{}
			syms := map[string]*ai.V{}
			sym := func(name string, t types.Type) *ai.V {
				if syms[name] == nil {
					syms[name] = e.Sym(name, t)
				}
				return syms[name]
			}
			elem := func(kind string, id int) *ai.V {
				if kind == "edge" {
					return sym(fmt.Sprint("edge ", id), edgeT)
				}
				return sym(fmt.Sprint("node ", id), nodeT)
			}
			run(fmt.Sprintf("%s and %s", a, b), sameContents(a, b), func(st *ai.State) (*ai.V, *ai.V, bool) {
				ok := true
				i := []*ai.V{sym("int 0", types.Typ[types.Int]), sym("int 1", types.Typ[types.Int])}
				fl := types.Typ[types.Float64]
				ok = st.Assume(e.Cmp(i[0], i[1], ai.LT), true) && st.Assume(e.Cmp(e.Conv(i[0], fl), e.Conv(i[1], fl), ai.LT), true)
				for n := 0; n < 3; n++ {
					for _, kind := range []string{"node", "edge"} {
						ok = ok && st.AssumeNil(elem(kind, n), false)
						for m := 0; m < n; m++ {
							ok = ok && st.Assume(st.Equal(elem(kind, m), elem(kind, n)), false)
						}
						st.Ghost[fmt.Sprint(kind, n)] = elem(kind, n)
					}
				}
				var build func(side string, v contents) *ai.V
				build = func(side string, v contents) *ai.V {
					switch v.kind {
					case "null":
						return e.Nil(any)
					case "int":
						return e.Box(i[v.id])
					case "float64":
						return e.Box(e.Conv(i[v.id], fl))
					case "string":
						return e.Box(e.Str("text"))
					case "list":
						var segs []*ai.V
						for _, k := range v.kids {
							segs = append(segs, e.One(c.rvalue(build(side, k))))
						}
						return e.Box(e.List(types.NewSlice(e.ValueT), segs...))
					case "map":
						var segs []*ai.V
						for j, k := range v.kids {
							segs = append(segs, e.Mk("ent", nil, "", e.Str(v.keys[j]), c.rvalue(build(side, k))))
						}
						return e.Box(c.mapOf(st, e.Mk("mcont", nil, "", segs...), e.ValueT))
					case "set":
						et := types.NewStruct(nil, nil)
						var segs []*ai.V
						for _, k := range v.keys {
							segs = append(segs, e.Mk("ent", nil, "", e.Str(k), e.Zero(et)))
						}
						return e.Box(c.withField(e.Zero(setT), "M", c.mapOf(st, e.Mk("mcont", nil, "", segs...), et)))
					case "node":
						return e.Box(elem("node", v.id))
					case "path":
						p := sym(side+" path", pathT)
						st.AssumeNil(p, false)
						paths[p] = v
						return e.Box(p)
					}
					for _, k := range kinds {
						if k.name == v.kind {
							s := sym(v.kind, k.t)
							if k.components == nil {
								return e.Box(s)
							}
							for _, p := range k.components(s, s) {
								if isFloatT(p[0].T) {
									ok = ok && st.Assume(e.Cmp(p[0], p[0], ai.EQ), true)
								}
							}
							return e.Box(s)
						}
					}
					panic("unknown kind " + v.kind)
				}
				l, r := build("left", a), build("right", b)
				return l, r, ok
			}, paths, elem)
		}
	}
}
