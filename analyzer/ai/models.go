package ai

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const lpgPath = "github.com/cloudprivacylabs/lpg/v2"

// frozenArgs are the arguments with references to mutable memory resolved.
func (st *State) frozenArgs(args []*V) []*V {
	r := make([]*V, len(args))
	for i, a := range args {
		switch a.Op {
		case "ptr":
			r[i] = st.Freeze(st.Load(a))
		default:
			r[i] = st.Freeze(a)
		}
	}
	return r
}

// pureCall is a library function whose results depend on its arguments only.
// foldCall computes a library function of constant strings.
func (e *Eng) foldCall(name string, args []*V, rt *types.Tuple) *V {
	if rt.Len() != 1 {
		return nil
	}
	var s []string
	for _, a := range args {
		if a.Op != "const" || a.C == nil || a.C.Kind() != constant.String {
			return nil
		}
		s = append(s, constant.StringVal(a.C))
	}
	t := rt.At(0).Type()
	str := func(r string) *V { return e.Const(constant.MakeString(r), t) }
	switch len(s) {
	case 1:
		switch name {
		case "strings.ToUpper":
			return str(strings.ToUpper(s[0]))
		case "strings.ToLower":
			return str(strings.ToLower(s[0]))
		case "strings.TrimSpace":
			return str(strings.TrimSpace(s[0]))
		}
	case 2:
		switch name {
		case "strings.HasPrefix":
			return e.Bool(strings.HasPrefix(s[0], s[1]))
		case "strings.HasSuffix":
			return e.Bool(strings.HasSuffix(s[0], s[1]))
		case "strings.Contains":
			return e.Bool(strings.Contains(s[0], s[1]))
		case "strings.EqualFold":
			return e.Bool(strings.EqualFold(s[0], s[1]))
		case "strings.TrimPrefix":
			return str(strings.TrimPrefix(s[0], s[1]))
		case "strings.TrimSuffix":
			return str(strings.TrimSuffix(s[0], s[1]))
		case "strings.Trim":
			return str(strings.Trim(s[0], s[1]))
		case "strings.Index":
			return e.Int(int64(strings.Index(s[0], s[1])))
		}
	}
	return nil
}

// PathElements are the elements of a path that was built from nothing.
func (st *State) PathElements(p *V) ([]*V, bool) {
	var out []*V
	for p != nil && p.Op == "patha" {
		var els []*V
		for _, s := range st.Segs(p.Args[1]) {
			if s.Op != "one" {
				return nil, false
			}
			els = append(els, s.Args[0])
		}
		out = append(els, out...)
		p = p.Args[0]
	}
	if p == nil || p.T == nil || p != st.E().Zero(p.T) {
		return nil, false
	}
	return out, true
}

func pureCall(x *Exec, st *State, ci *CallInfo, name string) []*State {
	e := x.E
	args := st.frozenArgs(ci.Args)
	rt := ci.Sig.Results()
	n := rt.Len()
	if r := e.foldCall(name, args, rt); r != nil {
		return one(x.Ret(st, ci, r))
	}
	mk := func(i int) *V {
		aux := name
		if n > 1 {
			aux += "#" + string(rune('0'+i))
		}
		return e.Mk("call", rt.At(i).Type(), aux, args...)
	}
	if n > 0 && isErrorT(rt.At(n-1).Type()) {
		ok := e.Mk("callok", types.Typ[types.Bool], name, args...)
		var out []*State
		o := st.Clone()
		if st.Assume(ok, true) {
			var res []*V
			for i := 0; i < n-1; i++ {
				res = append(res, mk(i))
			}
			res = append(res, e.Nil(e.tany))
			st.Note("%s: %s succeeds", x.loc(ci.Instr), name)
			x.Ret(st, ci, res...)
			out = append(out, x.emit(st, &Event{Kind: "call", Name: name, Args: args, Res: res, Instr: ci.Instr})...)
		}
		if o.Assume(ok, false) {
			var res []*V
			for i := 0; i < n-1; i++ {
				res = append(res, e.Fresh(rt.At(i).Type(), "bad"))
			}
			er := o.NewError(name)
			res = append(res, er)
			o.Note("%s: %s fails", x.loc(ci.Instr), name)
			x.Ret(o, ci, res...)
			for _, s := range x.emit(o, &Event{Kind: "call", Name: name, Args: args, Res: res, Instr: ci.Instr}) {
				out = append(out, x.emit(s, &Event{Kind: "fail", Name: name, Args: args, Res: res[n-1:], Instr: ci.Instr})...)
			}
		}
		if len(out) == 0 {
			return []*State{nil}
		}
		return out
	}
	var res []*V
	for i := 0; i < n; i++ {
		r := mk(i)
		res = append(res, r)
	}
	x.Ret(st, ci, res...)
	return x.emit(st, &Event{Kind: "call", Name: name, Args: args, Res: res, Instr: ci.Instr})
}

// formatted is the text of a format in which only strings are put in, or nil.
func formatted(st *State, fn string, args []*V) *V {
	e := st.e
	str := types.Type(types.Typ[types.String])
	var out *V
	add := func(v *V) {
		if out == nil {
			out = v
		} else {
			out = e.Arith(token.ADD, out, v, str)
		}
	}
	var texts []*V
	for _, s := range st.Segs(args[len(args)-1]) {
		if s.Op != "one" {
			return nil
		}
		k := st.KindOf(s.Args[0])
		if k.Pos == nil || !IsStr(k.Pos) {
			return nil
		}
		// a type with methods may show itself differently
		if n, ok := k.Pos.(*types.Named); ok && n.NumMethods() > 0 {
			return nil
		}
		texts = append(texts, e.ChangeType(st.Payload(s.Args[0], k.Pos), str))
	}
	if fn == "fmt.Sprint" {
		for _, t := range texts {
			add(t)
		}
		return out
	}
	if args[0].Op != "const" {
		return nil
	}
	f := constant.StringVal(args[0].C)
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			add(e.Str(f))
			break
		}
		if i+1 >= len(f) || f[i+1] != 's' && f[i+1] != 'v' || len(texts) == 0 {
			return nil
		}
		if i > 0 {
			add(e.Str(f[:i]))
		}
		add(texts[0])
		texts, f = texts[1:], f[i+2:]
	}
	if len(texts) > 0 {
		return nil
	}
	return out
}

func registerModels(e *Eng) {
	M := e.Models
	pure := func(names ...string) {
		for _, n := range names {
			n := n
			M[n] = func(x *Exec, st *State, ci *CallInfo) []*State { return pureCall(x, st, ci, n) }
		}
	}
	pure("strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.Join", "strings.ReplaceAll", "strings.Replace",
		"strings.NewReplacer", "strings.Split", "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Trim",
		"strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.TrimFunc",
		"strings.Index", "strings.EqualFold", "strings.Fields", "strings.Repeat", "strings.Map", "strings.Compare", "strings.Title", "strings.Count", "strings.LastIndex",
		"strconv.Atoi", "strconv.Itoa", "strconv.ParseFloat", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseBool", "strconv.FormatInt", "strconv.FormatFloat", "strconv.Quote",
		"math.Mod", "math.Pow", "math.Abs", "math.Floor", "math.Ceil", "math.Round", "math.Sqrt", "math.IsNaN", "math.IsInf", "math.Trunc", "math.Inf", "math.NaN", "math.Float64bits",
		"unicode.IsDigit", "unicode.IsSpace", "unicode.IsLetter", "unicode.IsUpper", "unicode.ToUpper", "unicode.ToLower",
		"unicode/utf8.RuneCountInString", "unicode/utf8.DecodeRuneInString", "unicode/utf8.RuneLen", "unicode/utf8.ValidString",
		"fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln", "reflect.TypeOf", "reflect.DeepEqual",
		"time.LoadLocation", "time.Parse", "time.ParseInLocation", "time.Date", "time.Unix", "time.UnixMilli", "time.FixedZone",
		"(time.Time).Date", "(time.Time).Clock", "(time.Time).Day", "(time.Time).Format", "(time.Time).Hour", "(time.Time).In", "(time.Time).Location", "(time.Time).Minute",
		"(time.Time).Month", "(time.Time).Nanosecond", "(time.Time).Second", "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Time).Year", "(time.Time).YearDay",
		"(time.Time).Weekday", "(time.Time).ISOWeek", "(time.Time).Add", "(time.Time).AddDate", "(time.Time).Sub", "(time.Time).UTC", "(time.Time).Local", "(time.Time).IsZero", "(time.Time).Truncate",
		"(time.Time).String", "(time.Month).String", "(time.Duration).Hours", "(time.Duration).Seconds", "(time.Duration).String",
		"github.com/nleeper/goment.New", "(*github.com/nleeper/goment.Goment).ToTime",
		"errors.Is", "errors.As", "errors.Unwrap", "sort.SearchStrings",
	)
	// texts of known numbers
	fold := func(n string, num func(st *State, args []*V) *V) {
		M[n] = func(x *Exec, st *State, ci *CallInfo) []*State {
			if v := num(st, ci.Args); v != nil && v.Op == "const" && v.C.Kind() == constant.Int {
				return one(x.Ret(st, ci, e.Str(v.C.ExactString())))
			}
			return pureCall(x, st, ci, n)
		}
	}
	single := func(st *State, list *V) *V {
		segs := st.Segs(list)
		if len(segs) != 1 || segs[0].Op != "one" {
			return nil
		}
		return st.Payload(segs[0].Args[0], e.tint)
	}
	fold("strconv.Itoa", func(st *State, args []*V) *V { return args[0] })
	fold("strconv.FormatInt", func(st *State, args []*V) *V {
		if args[1] != e.Conv(e.Int(10), args[1].T) {
			return nil
		}
		return args[0]
	})
	fold("fmt.Sprint", func(st *State, args []*V) *V { return single(st, args[0]) })
	fold("fmt.Sprintf", func(st *State, args []*V) *V {
		if args[0] != e.Str("%d") && args[0] != e.Str("%v") {
			return nil
		}
		return single(st, args[1])
	})
	// strings put together
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint"} {
		n, inner := n, M[n]
		M[n] = func(x *Exec, st *State, ci *CallInfo) []*State {
			if v := formatted(st, n, ci.Args); v != nil {
				return one(x.Ret(st, ci, v))
			}
			return inner(x, st, ci)
		}
	}
	for _, n := range []string{"Before", "After", "Equal", "Compare"} {
		n := n
		M["(time.Time)."+n] = func(x *Exec, st *State, ci *CallInfo) []*State {
			a, b := e.Mk("instant", types.Typ[types.String], "", ci.Args[0]), e.Mk("instant", types.Typ[types.String], "", ci.Args[1])
			switch n {
			case "Before":
				return one(x.Ret(st, ci, e.Cmp(a, b, LT)))
			case "After":
				return one(x.Ret(st, ci, e.Cmp(a, b, GT)))
			case "Equal":
				return one(x.Ret(st, ci, e.Cmp(a, b, EQ)))
			}
			var out []*State
			for _, m := range []struct {
				m uint8
				r int64
			}{{LT, -1}, {EQ, 0}, {GT, 1}} {
				o := st.Clone()
				if o.AssumeCmp(a, b, m.m) {
					out = append(out, x.Ret(o, ci, e.Int(m.r)))
				}
			}
			return out
		}
	}
	three := func(name string) {
		M[name] = func(x *Exec, st *State, ci *CallInfo) []*State {
			var out []*State
			for _, m := range []struct {
				m uint8
				r int64
			}{{LT, -1}, {EQ, 0}, {GT, 1}} {
				o := st.Clone()
				if o.AssumeCmp(ci.Args[0], ci.Args[1], m.m) {
					out = append(out, x.Ret(o, ci, e.Int(m.r)))
				}
			}
			return out
		}
	}
	three("strings.Compare")
	three("cmp.Compare")
	M["math.IsNaN"] = func(x *Exec, st *State, ci *CallInfo) []*State {
		return one(x.Ret(st, ci, e.Mk("isnan", types.Typ[types.Bool], "", ci.Args[0])))
	}
	M["math.Abs"] = func(x *Exec, st *State, ci *CallInfo) []*State { return pureCall(x, st, ci, "math.Abs") }
	M["time.Now"] = func(x *Exec, st *State, ci *CallInfo) []*State {
		r := e.Fresh(ci.Sig.Results().At(0).Type(), "now")
		x.Ret(st, ci, r)
		return x.emit(st, &Event{Kind: "call", Name: "time.Now", Res: []*V{r}, Instr: ci.Instr})
	}
	for _, n := range []string{"fmt.Errorf", "errors.New"} {
		n := n
		M[n] = func(x *Exec, st *State, ci *CallInfo) []*State { return one(x.Ret(st, ci, st.NewError(n))) }
	}
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString"} {
		n := n
		M[n] = func(x *Exec, st *State, ci *CallInfo) []*State {
			return one(x.Ret(st, ci, e.Fresh(e.tint, "n"), e.Nil(e.tany)))
		}
	}
	// string builders: the content is a fresh string after every write
	for _, w := range []string{"WriteByte", "WriteRune", "WriteString", "Write"} {
		for _, t := range []string{"strings.Builder", "bytes.Buffer"} {
			w := w
			M["(*"+t+")."+w] = func(x *Exec, st *State, ci *CallInfo) []*State {
				if p := ci.Args[0]; p.Op == "ptr" {
					old := st.heap[p.N]
					segs := []*V{}
					if old.Op == "sbuf" && old.Aux == "" {
						segs = append(segs, old.Args...)
					}
					if known, ok := st.writeText(old, w, ci.Args[1]); ok {
						st.heap[p.N] = e.Mk("sbuf", old.T, "bytes", known...)
						segs = nil
					} else {
						if old.Aux == "bytes" {
							segs = append(segs, e.One(e.Bytes(types.Typ[types.String], old.Args)))
						}
						segs = append(segs, e.One(ci.Args[1]))
					}
					if segs == nil {
					} else if len(segs) > 6 {
						st.heap[p.N] = e.Mk("sbuf", old.T, "", e.Fresh(old.T, "text"))
					} else {
						st.heap[p.N] = e.Mk("sbuf", old.T, "", segs...)
					}
				}
				rt := ci.Sig.Results()
				var res []*V
				for i := 0; i < rt.Len(); i++ {
					if isErrorT(rt.At(i).Type()) {
						res = append(res, e.Nil(e.tany))
					} else {
						res = append(res, e.Fresh(rt.At(i).Type(), "n"))
					}
				}
				return one(x.Ret(st, ci, res...))
			}
		}
	}
	for _, t := range []string{"strings.Builder", "bytes.Buffer"} {
		M["(*"+t+").String"] = func(x *Exec, st *State, ci *CallInfo) []*State {
			c := st.Load(ci.Args[0])
			if c.Op == "zero" {
				return one(x.Ret(st, ci, e.Str("")))
			}
			if c.Op == "sbuf" && c.Aux == "bytes" {
				return one(x.Ret(st, ci, e.Bytes(types.Typ[types.String], c.Args)))
			}
			return one(x.Ret(st, ci, e.Mk("text", types.Typ[types.String], "", c)))
		}
		M["(*"+t+").Grow"] = func(x *Exec, st *State, ci *CallInfo) []*State { return one(st) }
		M["(*"+t+").Reset"] = func(x *Exec, st *State, ci *CallInfo) []*State {
			if p := ci.Args[0]; p.Op == "ptr" {
				st.heap[p.N] = e.Zero(st.heap[p.N].T)
			}
			return one(st)
		}
		M["(*"+t+").Len"] = func(x *Exec, st *State, ci *CallInfo) []*State {
			n := e.Fresh(e.tint, "len")
			st.addDiff(e.Int(0), n, 0)
			return one(x.Ret(st, ci, n))
		}
	}
	registerGraph(e)
	registerContext(e)
}

// short name of an lpg function: "Node.SetProperty"
func lpgName(full string) string {
	s := strings.ReplaceAll(full, lpgPath+".", "")
	s = strings.NewReplacer("(", "", ")", "", "*", "").Replace(s)
	return s
}

func registerGraph(e *Eng) {
	M := e.Models
	reg := func(recv, name string, m Model) {
		M["(*"+lpgPath+"."+recv+")."+name] = m
		M["("+lpgPath+"."+recv+")."+name] = m
	}
	pureM := func(recv string, names ...string) {
		for _, n := range names {
			short := recv + "." + n
			reg(recv, n, func(x *Exec, st *State, ci *CallInfo) []*State { return pureCall(x, st, ci, short) })
		}
	}
	pureM("Edge", "GetLabel", "GetFrom", "GetTo", "GetGraph", "GetProperty", "GetID", "GetPropertyOrAlias")
	pureM("Node", "GetGraph", "GetProperty", "GetID", "HasLabel")
	pureM("Pattern", "GetSymbolNames", "FindPaths")
	pureM("StringSet", "Has", "HasAny", "HasAll", "Slice", "IsEqual", "Clone", "String", "SortedSlice")
	pureM("Path", "IsEmpty", "String", "First", "Last")
	pureM("PathElement", "GetSourceNode", "GetTargetNode")
	// paths: the indexed element exists below the count; a path has one more node than edges, or none
	for _, n := range []string{"NumEdges", "NumNodes"} {
		n := n
		reg("Path", n, func(x *Exec, st *State, ci *CallInfo) []*State {
			p := ci.Args[0]
			if p.Op == "ptr" {
				p = st.Load(p)
			}
			if els, ok := st.PathElements(p); ok {
				k := int64(len(els))
				if k > 0 && n == "NumNodes" {
					k++
				}
				return one(x.Ret(st, ci, e.Int(k)))
			}
			return pureCall(x, st, ci, "Path."+n)
		})
	}
	for _, n := range []string{"GetEdge", "GetNode"} {
		cnt := map[string]string{"GetEdge": "NumEdges", "GetNode": "NumNodes"}[n]
		n := n
		reg("Path", n, func(x *Exec, st *State, ci *CallInfo) []*State {
			p := ci.Args[0]
			if p.Op == "ptr" {
				p = st.Freeze(st.Load(p))
			}
			num := e.Mk("call", e.tint, "Path."+cnt, p)
			st.addDiff(e.Int(0), num, 0)
			if !x.index(st, num, ci.Args[1], ci.Instr) {
				return []*State{nil}
			}
			return pureCall(x, st, ci, "Path."+n)
		})
	}
	reg("Path", "Append", func(x *Exec, st *State, ci *CallInfo) []*State {
		p := ci.Args[0]
		if p.Op == "ptr" {
			old := st.heap[p.N]
			st.heap[p.N] = e.Mk("patha", old.T, "", old, st.Freeze(ci.Args[1]))
		}
		return x.emit(st, &Event{Kind: "call", Name: "Path.Append", Recv: p, Args: ci.Args[1:], Instr: ci.Instr})
	})
	// string sets are values built by Add and Remove
	for _, n := range []string{"Add", "Remove", "AddSet"} {
		n := n
		reg("StringSet", n, func(x *Exec, st *State, ci *CallInfo) []*State {
			p := ci.Args[0]
			old := st.Load(p)
			var nw *V
			seg := e.Mk(map[string]string{"Add": "ent", "Remove": "del", "AddSet": "spread"}[n], nil, "", ci.Args[1], e.Bool(true))
			if n == "AddSet" {
				seg = e.Mk("spread", nil, "", st.Freeze(ci.Args[1]))
			}
			// the argument may be a list of names
			if isSliceT(ci.Args[1].T) {
				var segs []*V
				for _, s := range st.Segs(ci.Args[1]) {
					if s.Op == "one" {
						segs = append(segs, e.Mk(seg.Op, nil, "", s.Args[0], e.Bool(true)))
					} else {
						segs = append(segs, e.Mk("spread", nil, n, s))
					}
				}
				nw = e.ssetAdd(old, segs...)
			} else {
				nw = e.ssetAdd(old, seg)
			}
			st.Store(p, nw)
			ev := &Event{Kind: "call", Name: "StringSet." + n, Recv: p, Args: ci.Args[1:], Instr: ci.Instr}
			if rt := ci.Sig.Results(); rt.Len() > 0 {
				var res []*V
				for i := 0; i < rt.Len(); i++ {
					res = append(res, e.Fresh(rt.At(i).Type(), "added"))
				}
				x.Ret(st, ci, res...)
			}
			if r := rootAddr(p); r.Op != "ptr" {
				ev.Kind = "store"
				ev.Recv = p
			}
			return x.emit(st, ev)
		})
	}
	reg("StringSet", "Len", func(x *Exec, st *State, ci *CallInfo) []*State {
		v := ci.Args[0]
		if v.Op == "ptr" || v.Op == "faddr" {
			v = st.Load(v)
		}
		v = st.Freeze(v)
		if v.Op == "sset" && len(v.Args) == 0 {
			return one(x.Ret(st, ci, e.Int(0)))
		}
		n := e.MLen(v)
		if v.Op == "sset" {
			plain, some := true, false
			for _, s := range v.Args {
				plain = plain && s.Op == "ent"
				some = s.Op == "ent" || some && s.Op != "del"
			}
			switch {
			case plain && len(v.Args) == 1:
				n = e.Int(1)
			case some:
				st.AssumeCmp(n, e.Int(1), GT|EQ)
			}
		}
		return one(x.Ret(st, ci, n))
	})
	M[lpgPath+".NewStringSet"] = func(x *Exec, st *State, ci *CallInfo) []*State {
		t := ci.Sig.Results().At(0).Type()
		var segs []*V
		for _, a := range ci.Args {
			for _, s := range st.Segs(a) {
				if s.Op == "one" {
					segs = append(segs, e.Mk("ent", nil, "", s.Args[0], e.Bool(true)))
				} else {
					segs = append(segs, e.Mk("spread", nil, "Add", s))
				}
			}
		}
		v := e.Mk("sset", t, "", segs...)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			obj := e.NewObj()
			v = e.Mk("sset", pt.Elem(), "", segs...)
			st.heap[obj] = v
			return one(x.Ret(st, ci, e.Ptr(obj, t)))
		}
		return one(x.Ret(st, ci, v))
	}
	reg("Node", "GetLabels", func(x *Exec, st *State, ci *CallInfo) []*State {
		t := ci.Sig.Results().At(0).Type()
		base := e.Mk("call", t, "Node.GetLabels", ci.Args[0])
		r := e.Mk("sset", t, "", e.Mk("base", nil, "", base))
		x.Ret(st, ci, r)
		return x.emit(st, &Event{Kind: "call", Name: "Node.GetLabels", Recv: ci.Args[0], Res: []*V{r}, Instr: ci.Instr})
	})
	// effects on the graph
	effect := func(recv string, names ...string) {
		for _, n := range names {
			short := recv + "." + n
			reg(recv, n, func(x *Exec, st *State, ci *CallInfo) []*State {
				var res []*V
				rt := ci.Sig.Results()
				for i := 0; i < rt.Len(); i++ {
					r := e.Fresh(rt.At(i).Type(), short)
					if nilable(r.T) && !IsIface(r.T) {
						st.AssumeNil(r, false)
					}
					res = append(res, r)
				}
				x.Ret(st, ci, res...)
				return x.emit(st, &Event{Kind: "effect", Name: short, Recv: ci.Args[0], Args: ci.Args[1:], Res: res, Instr: ci.Instr})
			})
		}
	}
	effect("Node", "SetProperty", "RemoveProperty", "SetLabels", "DetachAndRemove", "Remove", "Detach")
	effect("Edge", "SetProperty", "RemoveProperty", "Remove", "SetLabel")
	effect("Graph", "NewNode", "NewEdge", "FastNewNode", "FastNewEdge", "SetNodeLabels", "SetNodeProperty", "SetEdgeProperty", "RemoveNodeProperty", "DetachRemoveNode", "RemoveEdge")
	// collections
	coll := func(recv string, names ...string) {
		for _, n := range names {
			short := recv + "." + n
			reg(recv, n, func(x *Exec, st *State, ci *CallInfo) []*State {
				k := "call"
				if r := rootAddr(ci.Args[0]); r.Op != "ptr" {
					k = "store"
				}
				return x.emit(st, &Event{Kind: k, Name: short, Recv: ci.Args[0], Args: ci.Args[1:], Instr: ci.Instr})
			})
		}
	}
	coll("NodeSet", "Add")
	coll("EdgeSet", "Add")
	coll("PatternSymbol", "Add", "AddNode", "AddPath")
	for _, n := range []string{"NewNodeSet", "NewEdgeSet"} {
		n := n
		M[lpgPath+"."+n] = func(x *Exec, st *State, ci *CallInfo) []*State {
			t := ci.Sig.Results().At(0).Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				obj := e.NewObj()
				st.heap[obj] = e.Mk("zero", pt.Elem(), "")
				return one(x.Ret(st, ci, e.Ptr(obj, t)))
			}
			return one(x.Ret(st, ci, e.Mk("zero", t, "")))
		}
	}
	// iterators: position kept aside; the n-th element is a term
	iter := func(x *Exec, st *State, ci *CallInfo, name string) []*State {
		t := ci.Sig.Results().At(0).Type()
		it := e.Mk("lpgiter", t, name, st.frozenArgs(ci.Args)...)
		st.over[it] = e.Int(0)
		x.Ret(st, ci, it)
		return x.emit(st, &Event{Kind: "call", Name: name, Recv: ci.Args[0], Args: ci.Args[1:], Res: []*V{it}, Instr: ci.Instr})
	}
	for _, r := range []struct{ t, m string }{{"NodeSet", "Iterator"}, {"EdgeSet", "Iterator"}, {"Node", "GetEdges"}, {"Node", "GetEdgesWithLabel"}, {"Node", "GetEdgesWithAnyLabel"}, {"Graph", "GetNodes"}, {"Graph", "GetEdges"}, {"Graph", "GetNodesWithAllLabels"}} {
		short := r.t + "." + r.m
		reg(r.t, r.m, func(x *Exec, st *State, ci *CallInfo) []*State { return iter(x, st, ci, short) })
	}
	M["invoke:Next"] = func(x *Exec, st *State, ci *CallInfo) []*State {
		it := ci.Args[0]
		if it.Op != "lpgiter" {
			return nil
		}
		pos := st.over[it]
		if pos == nil {
			pos = e.Int(0)
		}
		n := e.Mk("mlen", e.tint, "", it)
		c := e.Cmp(pos, n, LT)
		o := st.Clone()
		var out []*State
		if st.Assume(c, true) {
			st.Note("%s: %s has a next element", x.loc(ci.Instr), it.Show())
			b, p := e.SplitInt(pos)
			st.over[it] = e.Lin(b, p+1, e.tint)
			out = append(out, x.Ret(st, ci, e.Bool(true)))
		}
		if o.Assume(c, false) {
			o.Note("%s: %s has no further element", x.loc(ci.Instr), it.Show())
			o.unifyInts()
			out = append(out, x.Ret(o, ci, e.Bool(false)))
		}
		return out
	}
	cur := func(x *Exec, st *State, ci *CallInfo) []*State {
		it := ci.Args[0]
		if it.Op != "lpgiter" {
			return nil
		}
		pos := st.over[it]
		if pos == nil {
			pos = e.Int(0)
		}
		b, p := e.SplitInt(pos)
		return one(x.Ret(st, ci, e.Mk("elem", ci.Sig.Results().At(0).Type(), "", it, e.Lin(b, p-1, e.tint))))
	}
	M["invoke:Node"] = cur
	M["invoke:Edge"] = cur
	M["invoke:Value"] = cur
	M["invoke:GetNativeValue"] = func(x *Exec, st *State, ci *CallInfo) []*State { return pureCall(x, st, ci, "GetNativeValue") }
	M["invoke:GetProperty"] = func(x *Exec, st *State, ci *CallInfo) []*State { return pureCall(x, st, ci, "GetProperty") }
	for _, t := range []string{"Node", "Edge"} {
		t := t
		reg(t, "GetProperty", func(x *Exec, st *State, ci *CallInfo) []*State { return pureCall(x, st, ci, "GetProperty") })
		reg(t, "ForEachProperty", func(x *Exec, st *State, ci *CallInfo) []*State {
			src := e.Mk("props", types.NewMap(types.Typ[types.String], e.tany), "", ci.Args[0])
			return x.loopNative(st, ci, "ForEachProperty", src, ci.Args[1], func(st *State, k *V) []*V {
				return []*V{e.Mk("mkey", types.Typ[types.String], "", src, k), e.Mk("mval", e.tany, "raw", src, k)}
			}, true, nil)
		})
	}
	reg("Pattern", "Run", func(x *Exec, st *State, ci *CallInfo) []*State {
		// (pattern, graph, symbols, accumulator)
		acc := ci.Args[len(ci.Args)-1]
		fn, recv := x.accMethod(st, acc)
		if fn == nil {
			return nil
		}
		run := e.Fresh(e.tany, "run")
		sig := fn.Signature
		cb := func(st *State, k *V) []*V {
			args := []*V{recv}
			for i := 0; i < sig.Params().Len(); i++ {
				args = append(args, e.Mk("cbarg", sig.Params().At(i).Type(), "Run"+string(rune('0'+i)), run, k))
			}
			return args
		}
		st2 := x.emit(st, &Event{Kind: "call", Name: "Pattern.Run", Recv: ci.Args[0], Args: ci.Args[1:], Res: []*V{run}, Instr: ci.Instr})
		var out []*State
		for _, s := range st2 {
			// the search may fail after any number of results
			out = append(out, x.loopNative(s, ci, "Pattern.Run", run, e.intern(V{Op: "func", Fn: fn, T: fn.Type()}), cb, false, func(x *Exec, s *State) []*State {
				bad := s.Clone()
				s.Note("%s: Pattern.Run succeeds", x.loc(ci.Instr))
				x.Ret(s, ci, e.Nil(e.tany))
				out := x.emit(s, &Event{Kind: "ran", Name: "Pattern.Run", Res: []*V{run}, Instr: ci.Instr})
				er := bad.NewError("Pattern.Run")
				bad.Note("%s: Pattern.Run fails", x.loc(ci.Instr))
				x.Ret(bad, ci, er)
				return append(out, x.emit(bad, &Event{Kind: "fail", Name: "Pattern.Run", Res: []*V{er}, Instr: ci.Instr})...)
			})...)
		}
		return out
	})
}

func (e *Eng) ssetAdd(old *V, segs ...*V) *V {
	var cur []*V
	switch {
	case old.Op == "sset":
		cur = old.Args
	case old.Op == "zero" || old.Op == "struct":
	default:
		cur = []*V{e.Mk("base", nil, "", old)}
	}
	return e.Mk("sset", old.T, "", e.normSegs(append(append([]*V(nil), cur...), segs...))...)
}

// AccMethod is the method of an accumulator that gets the results of a search.
func (x *Exec) AccMethod(st *State, acc *V) (*V, *V) {
	fn, recv := x.accMethod(st, acc)
	if fn == nil {
		return nil, nil
	}
	return x.E.intern(V{Op: "func", Fn: fn, T: fn.Type()}), recv
}

func (x *Exec) accMethod(st *State, acc *V) (fn2 *ssa.Function, recv *V) {
	e := x.E
	k := st.KindOf(acc)
	if k.Pos == nil {
		return nil, nil
	}
	ms := e.Prog.MethodSets.MethodSet(k.Pos)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "StoreResult" {
			return e.Prog.MethodValue(ms.At(i)), st.Payload(acc, k.Pos)
		}
	}
	return nil, nil
}

// loopNative calls cb for k = 0 .. mlen(src)-1.
func (x *Exec) loopNative(st *State, ci *CallInfo, name string, src, cb *V, args func(*State, *V) []*V, stoppable bool, done func(*Exec, *State) []*State) []*State {
	e := x.E
	nat := &Native{Name: "loop:" + name, At: ci.Instr}
	cp := *ci
	nat.Step = func(x *Exec, st *State, f *Frame) []*State {
		// nv: callback result, position, source, callback
		stop := stoppable && f.nv[0] != nil && st.Decide(f.nv[0]) == 0
		if stoppable && f.nv[0] != nil && st.Decide(f.nv[0]) < 0 {
			o := st.Clone()
			var out []*State
			if st.Assume(f.nv[0], true) {
				f.nv[0] = e.Bool(true)
				out = append(out, st)
			}
			b := o.Top().nv[0]
			if o.Assume(b, false) {
				o.Top().nv[0] = e.Bool(false)
				out = append(out, o)
			}
			return out
		}
		f.nv[0] = e.Bool(!stop)
		var out []*State
		for _, s := range x.merge(st, true) {
			f := s.Top()
			pos, src, cb := f.nv[1], f.nv[2], f.nv[3]
			n := e.Mk("mlen", e.tint, "", src)
			fin := func(s *State) {
				s.frames = s.frames[:len(s.frames)-1]
				s.unifyInts()
				if done != nil {
					out = append(out, done(x, s)...)
				} else {
					out = append(out, s)
				}
			}
			if stop {
				fin(s)
				continue
			}
			c := e.Cmp(pos, n, LT)
			o := s.Clone()
			if s.Assume(c, true) {
				s.Note("%s: %s calls back", x.loc(cp.Instr), name)
				b, p := e.SplitInt(pos)
				f.nv[1] = e.Lin(b, p+1, e.tint)
				as := args(s, pos)
				cci := &CallInfo{Instr: cp.Instr, FnV: cb, Args: as, Sig: cb.Fn.Signature}
				for _, s2 := range x.emit(s, &Event{Kind: "callback", Name: name, Args: as, Instr: cp.Instr}) {
					out = append(out, x.doCall(s2, cci)...)
				}
			}
			if o.Assume(c, false) {
				fin(o)
			}
		}
		return out
	}
	st.frames = append(st.frames, &Frame{nat: nat, nv: []*V{e.Bool(true), e.Int(0), src, cb}})
	return one(st)
}

// --- evaluation contexts ---------------------------------------------------------

// ctxChain resolves an EvalContext pointer to its variable maps, innermost first.
func (st *State) ctxField(ctx *V, name string) *V {
	e := st.e
	var c *V
	switch {
	case ctx.Op == "ptr":
		c = st.heap[ctx.N]
	default:
		c = st.Load(ctx)
	}
	return e.FieldByName(c, name)
}

func registerContext(e *Eng) {
	M := e.Models
	P := "(*" + e.Pkg.Pkg.Path() + ".EvalContext)."
	// parameters: a value or an error naming the parameter
	M[P+"GetParameter"] = func(x *Exec, st *State, ci *CallInfo) []*State {
		return x.chainLookup(st, ci, "param", ci.Args[0], ci.Args[1])
	}
	M[P+"GetVar"] = func(x *Exec, st *State, ci *CallInfo) []*State {
		return x.getVar(st, ci, ci.Args[0], ci.Args[1])
	}
	for _, n := range []string{"GetFunction", "getFunction"} {
		M[P+n] = func(x *Exec, st *State, ci *CallInfo) []*State {
			args := st.frozenArgs(ci.Args[1:])
			rt := ci.Sig.Results()
			if rt.Len() != 2 {
				return nil
			}
			ok := e.Mk("fnknown", types.Typ[types.Bool], "", args...)
			o := st.Clone()
			var out []*State
			if st.Assume(ok, true) {
				fv := e.Mk("function", rt.At(0).Type(), "", args...)
				x.Ret(st, ci, fv, e.Nil(e.tany))
				out = append(out, x.emit(st, &Event{Kind: "call", Name: "GetFunction", Args: args, Res: []*V{fv}, Instr: ci.Instr})...)
			}
			if o.Assume(ok, false) {
				er := o.NewError("unknown function")
				x.Ret(o, ci, e.Zero(rt.At(0).Type()), er)
				o.Note("%s: unknown function", x.loc(ci.Instr))
				out = append(out, x.emit(o, &Event{Kind: "fail", Name: "GetFunction", Res: []*V{er}, Instr: ci.Instr})...)
			}
			return out
		}
	}
	M[P+"SetVars"] = func(x *Exec, st *State, ci *CallInfo) []*State {
		ctx, m := ci.Args[0], ci.Args[1]
		if !x.nonNil(st, ctx, ci.Instr) {
			return []*State{nil}
		}
		vars := st.ctxField(ctx, "variables")
		if vars == nil {
			return nil
		}
		if st.IsNil(m) == 1 {
			return x.emit(st, &Event{Kind: "setvars", Recv: ctx, Args: []*V{m}, Instr: ci.Instr})
		}
		c := st.MapContent(m)
		frozen := st.Freeze(c)
		for _, s := range frozen.Args {
			switch s.Op {
			case "base":
				s = e.Mk("spread", nil, "named", s.Args[0])
			case "spread":
				s = e.Mk("spread", nil, "named", s.Args[0])
			}
			st.MapAdd(vars, s)
		}
		return x.emit(st, &Event{Kind: "setvars", Recv: ctx, Args: []*V{m}, Instr: ci.Instr})
	}
	M[e.Pkg.Pkg.Path()+".IsNamedVar"] = func(x *Exec, st *State, ci *CallInfo) []*State {
		a := ci.Args[0]
		if a.Op == "const" {
			s := constant.StringVal(a.C)
			return one(x.Ret(st, ci, e.Bool(len(s) > 0 && !(s[0] >= '0' && s[0] <= '9'))))
		}
		return one(x.Ret(st, ci, e.Mk("namedvar", types.Typ[types.Bool], "", a)))
	}
}

// getVar walks the scopes; unknown parts of the chain are symbolic.
func (x *Exec) getVar(st *State, ci *CallInfo, ctx, name *V) []*State {
	e := x.E
	if !x.nonNil(st, ctx, ci.Instr) {
		return []*State{nil}
	}
	found := func(s *State, v *V) []*State {
		x.Ret(s, ci, v, e.Nil(e.tany))
		return x.emit(s, &Event{Kind: "getvar", Name: "GetVar", Recv: ctx, Args: []*V{name}, Res: []*V{v}, Instr: ci.Instr})
	}
	missing := func(s *State) []*State {
		er := s.NewError("unknown variable")
		x.Ret(s, ci, e.Nil(e.tany), er)
		s.Note("%s: variable %s is not defined", x.loc(ci.Instr), name.Show())
		return x.emit(s, &Event{Kind: "fail", Name: "GetVar", Args: []*V{name}, Res: []*V{er}, Instr: ci.Instr})
	}
	if name.Op == "const" && constant.StringVal(name.C) == "" {
		return missing(st)
	}
	var walk func(s *State, ctx *V) []*State
	walk = func(s *State, ctx *V) []*State {
		if ctx.Op != "ptr" {
			// a symbolic scope and everything around it
			var out []*State
			env := e.Mk("env", nil, "", ctx)
			if c, ok := s.over[ctx]; ok {
				env = e.Mk("env", nil, "", ctx, s.Freeze(c))
			}
			if vs := s.ctxFieldOver(ctx); vs != nil {
				// variables set in the symbolic scope during this run
				var done bool
				x.lookupSegs(s, vs, name, e.ValueT, func(s2 *State, v *V, ok bool) {
					if ok && v.Op != "mapget" {
						out = append(out, found(s2, v)...)
					} else if !ok || v.Op == "mapget" {
						if done {
							return
						}
						done = true
						out = append(out, symScope(x, s2, e, env, name, found, missing)...)
					}
				})
				return out
			}
			return symScope(x, s, e, env, name, found, missing)
		}
		vars := s.ctxField(ctx, "variables")
		var out []*State
		x.MapLookup(s, vars, name, e.ValueT, func(s2 *State, v *V, ok bool) {
			if ok {
				out = append(out, found(s2, v)...)
				return
			}
			p := s2.ctxField(ctx, "parent")
			if p == nil || s2.IsNil(p) == 1 {
				out = append(out, missing(s2)...)
				return
			}
			if s2.IsNil(p) < 0 {
				q := s2.Clone()
				if q.AssumeNil(p, true) {
					out = append(out, missing(q)...)
				}
				if !s2.AssumeNil(p, false) {
					return
				}
			}
			out = append(out, walk(s2, p)...)
		})
		return out
	}
	return walk(st, ctx)
}

func symScope(x *Exec, s *State, e *Eng, env, name *V, found func(*State, *V) []*State, missing func(*State) []*State) []*State {
	known := e.Mk("varknown", types.Typ[types.Bool], "", env, name)
	o := s.Clone()
	var out []*State
	if s.Assume(known, true) {
		out = append(out, found(s, e.Mk("var", e.ValueT, "", env, name))...)
	}
	if o.Assume(known, false) {
		out = append(out, missing(o)...)
	}
	return out
}

// ctxFieldOver gives the updates made to a symbolic scope's variables.
func (st *State) ctxFieldOver(ctx *V) []*V {
	vars := st.ctxField(ctx, "variables")
	if vars == nil {
		return nil
	}
	c := st.MapContent(vars)
	if len(c.Args) == 1 && c.Args[0].Op == "base" {
		return nil
	}
	return c.Args
}

// chainLookup is a symbolic lookup of parameters.
func (x *Exec) chainLookup(st *State, ci *CallInfo, op string, ctx, name *V) []*State {
	e := x.E
	if !x.nonNil(st, ctx, ci.Instr) {
		return []*State{nil}
	}
	root := ctx
	for root.Op == "ptr" {
		p := st.ctxField(root, "parent")
		if p == nil || st.IsNil(p) == 1 {
			break
		}
		root = p
	}
	if root.Op == "ptr" {
		root = e.Mk("env0", nil, "")
	}
	known := e.Mk(op+"known", types.Typ[types.Bool], "", root, name)
	o := st.Clone()
	var out []*State
	if st.Assume(known, true) {
		v := e.Mk(op, e.ValueT, "", root, name)
		x.Ret(st, ci, v, e.Nil(e.tany))
		out = append(out, x.emit(st, &Event{Kind: "getparam", Args: []*V{name}, Res: []*V{v}, Instr: ci.Instr})...)
	}
	if o.Assume(known, false) {
		er := o.NewError("unknown parameter")
		x.Ret(o, ci, e.Nil(e.tany), er)
		o.Note("%s: parameter %s is not defined", x.loc(ci.Instr), name.Show())
		out = append(out, x.emit(o, &Event{Kind: "fail", Name: "GetParameter", Res: []*V{er}, Instr: ci.Instr})...)
	}
	return out
}
