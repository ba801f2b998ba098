package ai

import (
	"go/types"
	"strings"
)

// Grammar is the ANTLR grammar of the repository: what children a parse-tree
// node of each rule can have.
type Grammar struct {
	Rules  map[string][]Alt  // parser rule -> expanded alternatives
	Lexer  map[string]string // lexer rule -> body
	MinLen map[string]int    // lexer rule -> least text length
	expr   map[string]*gexpr // parser rule -> body
	lex    map[string]*gexpr // lexer rule -> body
}

// Alt is one alternative: the number of occurrences of every symbol.
type Alt map[string]Count
type Count struct{ Min, Max int } // Max<0: unbounded

func gtokens(src string) []string {
	var out []string
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i:], "*/")
			i += j + 2
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, src[i:j+1])
			i = j + 1
		case c == '[':
			j := i + 1
			for src[j] != ']' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, src[i:j+1])
			i = j + 1
		case strings.HasPrefix(src[i:], "->"):
			out = append(out, "->")
			i += 2
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, src[i:j])
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

// ParseGrammar reads the subset of ANTLR 4 that Cypher.g4 uses.
func ParseGrammar(src string) *Grammar {
	g := &Grammar{Rules: map[string][]Alt{}, Lexer: map[string]string{}, MinLen: map[string]int{}, expr: map[string]*gexpr{}}
	t := gtokens(src)
	lex := map[string]*gexpr{}
	for i := 0; i < len(t); {
		if t[i] == "grammar" {
			i += 3
			continue
		}
		if t[i] == "fragment" {
			i++
			continue
		}
		name := t[i]
		if i+1 >= len(t) || t[i+1] != ":" {
			i++
			continue
		}
		p := &gparser{t: t, i: i + 2}
		x := p.alts()
		for p.i < len(t) && t[p.i] != ";" {
			p.i++
		}
		i = p.i + 1
		if name[0] >= 'a' && name[0] <= 'z' {
			g.Rules[name] = x.expand()
			g.expr[name] = x
		} else {
			lex[name] = x
		}
	}
	g.lex = lex
	for n, x := range lex {
		g.MinLen[n] = x.minLen(lex, 0)
	}
	return g
}

type gexpr struct {
	op   string // sym seq alt
	sym  string
	args []*gexpr
	suf  string // "", ?, *, +
}

type gparser struct {
	t []string
	i int
}

func (p *gparser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ";"
}

func (p *gparser) alts() *gexpr {
	r := &gexpr{op: "alt", args: []*gexpr{p.seq()}}
	for p.peek() == "|" {
		p.i++
		r.args = append(r.args, p.seq())
	}
	if len(r.args) == 1 {
		return r.args[0]
	}
	return r
}

func (p *gparser) seq() *gexpr {
	r := &gexpr{op: "seq"}
	for {
		switch p.peek() {
		case "|", ")", ";", "->":
			return r
		case "~":
			p.i++
			continue
		}
		var e *gexpr
		if p.peek() == "(" {
			p.i++
			e = p.alts()
			if p.peek() == ")" {
				p.i++
			}
			e = &gexpr{op: "seq", args: []*gexpr{e}}
		} else {
			e = &gexpr{op: "sym", sym: p.peek()}
			p.i++
		}
		switch p.peek() {
		case "?", "*", "+":
			e.suf = p.peek()
			p.i++
		}
		r.args = append(r.args, e)
	}
}

func (x *gexpr) expand() []Alt {
	var base []Alt
	switch x.op {
	case "sym":
		if x.sym == "SP" {
			base = []Alt{{}}
		} else {
			base = []Alt{{x.sym: {1, 1}}}
		}
	case "alt":
		for _, a := range x.args {
			base = append(base, a.expand()...)
		}
	case "seq":
		base = []Alt{{}}
		for _, a := range x.args {
			var next []Alt
			for _, l := range base {
				for _, r := range a.expand() {
					next = append(next, addAlt(l, r))
				}
			}
			base = dedupAlts(next)
		}
	}
	switch x.suf {
	case "?":
		base = append(base, Alt{})
	case "*", "+":
		m := Alt{}
		syms := map[string]bool{}
		for _, b := range base {
			for s := range b {
				syms[s] = true
			}
		}
		for s := range syms {
			min := 1 << 30
			for _, b := range base {
				if b[s].Min < min {
					min = b[s].Min
				}
			}
			if x.suf == "*" {
				min = 0
			}
			m[s] = Count{min, -1}
		}
		base = []Alt{m}
	}
	return dedupAlts(base)
}

func addAlt(a, b Alt) Alt {
	r := Alt{}
	for s, c := range a {
		r[s] = c
	}
	for s, c := range b {
		o := r[s]
		o.Min += c.Min
		if o.Max < 0 || c.Max < 0 {
			o.Max = -1
		} else {
			o.Max += c.Max
		}
		r[s] = o
	}
	return r
}

func dedupAlts(as []Alt) []Alt {
	var out []Alt
	for _, a := range as {
		dup := false
		for _, b := range out {
			if len(a) == len(b) {
				same := true
				for s, c := range a {
					if b[s] != c {
						same = false
					}
				}
				dup = dup || same
			}
		}
		if !dup {
			out = append(out, a)
		}
	}
	return out
}

func (x *gexpr) minLen(lex map[string]*gexpr, d int) int {
	if x.suf == "?" || x.suf == "*" {
		return 0
	}
	switch x.op {
	case "sym":
		if x.sym[0] == '\'' {
			return 1
		}
		if x.sym[0] == '[' || x.sym == "." {
			return 1
		}
		if r := lex[x.sym]; r != nil && d < 20 {
			return r.minLen(lex, d+1)
		}
		return 0
	case "alt":
		m := 1 << 30
		for _, a := range x.args {
			if n := a.minLen(lex, d); n < m {
				m = n
			}
		}
		return m
	}
	n := 0
	for _, a := range x.args {
		n += a.minLen(lex, d)
	}
	return n
}

// --- parse-tree nodes as terms -----------------------------------------------------------

// ruleOf: the grammar rule of a *parser.OC_XContext or parser.IOC_XContext type.
func ruleOf(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/parser") {
		return ""
	}
	s := n.Obj().Name()
	s = strings.TrimPrefix(s, "I")
	if !strings.HasPrefix(s, "OC_") || !strings.HasSuffix(s, "Context") {
		return ""
	}
	return "oC_" + strings.TrimSuffix(strings.TrimPrefix(s, "OC_"), "Context")
}

// ParseNode finds the parse-tree node behind an embedded base context.
func ParseNode(v *V) *V {
	for v != nil {
		if v.T != nil && ruleOf(v.T) != "" {
			if v.Op == "as" && ruleOf(v.Args[0].T) != "" {
				return v.Args[0]
			}
			return v
		}
		if len(v.Args) == 0 || v.Op == "px" || v.Op == "elem" {
			return nil
		}
		v = v.Args[0]
	}
	return nil
}

func symOf(method string) string {
	if strings.HasPrefix(method, "OC_") {
		return "oC_" + method[3:]
	}
	return method
}

// grammarCall models a method of a parse-tree node.
func (x *Exec) grammarCall(st *State, ci *CallInfo, method string) ([]*State, bool) {
	e := x.E
	if len(ci.Args) == 0 || e.Gram == nil {
		return nil, false
	}
	recv := ci.Args[0]
	if recv.T == nil {
		return nil, false
	}
	if t := e.treeOf(recv); t != nil {
		return x.treeCall(st, ci, method, t)
	}
	isTerm := isAntlr(recv.T, "TerminalNode")
	node := ParseNode(recv)
	if node == nil && !isTerm && !(recv.Op == "px" || recv.Op == "elem") {
		return nil, false
	}
	if node == nil {
		node = recv
	}
	rule := ""
	if node.T != nil {
		rule = ruleOf(node.T)
	}
	rt := ci.Sig.Results()
	if rt.Len() == 0 {
		return nil, false
	}
	t := rt.At(0).Type()
	px := func(name string, t types.Type, args ...*V) *V {
		return e.Mk("px", t, name, append([]*V{node}, args...)...)
	}
	switch method {
	case "GetChildCount", "GetChildren", "GetChild":
		if as := e.Gram.Rules[rule]; as != nil {
			min := 1 << 30
			for _, a := range st.altsOf(node, as) {
				n := 0
				for _, c := range a {
					n += c.Min
				}
				if n < min {
					min = n
				}
			}
			st.AssumeCmp(e.Len(px("children", types.NewSlice(e.tany))), e.Int(int64(min)), GT|EQ)
		}
	}
	switch method {
	case "GetText":
		r := px("GetText", t)
		min := 1
		if node.Op == "px" && isTerm {
			if n, ok := e.Gram.MinLen[node.Aux]; ok {
				min = n
			}
		}
		if strings.Contains(rule, "_Namespace") {
			min = 0
		}
		st.AssumeCmp(e.Len(r), e.Int(int64(min)), GT|EQ)
		return one(x.Ret(st, ci, r)), true
	case "GetChildCount":
		l := px("children", types.NewSlice(e.tany))
		return one(x.Ret(st, ci, e.Len(l))), true
	case "GetChildren":
		l := px("children", t)
		return one(x.Ret(st, ci, l)), true
	case "GetChild":
		l := px("children", types.NewSlice(e.tany))
		if !x.index(st, e.Len(l), ci.Args[1], ci.Instr) {
			return nil, true
		}
		r := e.Mk("elem", t, "", l, ci.Args[1])
		st.AssumeNil(r, false)
		return one(x.Ret(st, ci, r)), true
	case "GetSymbol", "GetStart", "GetStop", "GetParser", "GetParent", "GetRuleContext":
		r := px(method, t)
		st.AssumeNil(r, false)
		return one(x.Ret(st, ci, r)), true
	case "GetTokenType", "GetRuleIndex":
		return one(x.Ret(st, ci, px(method, t))), true
	}
	if rule == "" {
		return nil, false
	}
	alts := e.Gram.Rules[rule]
	if alts == nil {
		return nil, false
	}
	if strings.HasPrefix(method, "All") {
		sym := symOf(method[3:])
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return nil, false
		}
		r := px("All:"+sym, t)
		min, max := 1<<30, 0
		for _, a := range st.altsOf(node, alts) {
			c := a[sym]
			if c.Min < min {
				min = c.Min
			}
			if c.Max < 0 || max < 0 {
				max = -1
			} else if c.Max > max {
				max = c.Max
			}
		}
		if !st.AssumeCmp(e.Len(r), e.Int(int64(min)), GT|EQ) {
			return nil, true
		}
		if max >= 0 && !st.AssumeCmp(e.Len(r), e.Int(int64(max)), LT|EQ) {
			return nil, true
		}
		return one(x.Ret(st, ci, r)), true
	}
	known := false
	sym := symOf(method)
	for _, a := range alts {
		if _, ok := a[sym]; ok {
			known = true
		}
	}
	if !known {
		return nil, false
	}
	if len(ci.Args) == 2 && isInt(ci.Args[1].T) {
		l := px("All:"+sym, types.NewSlice(t))
		r := e.Mk("elem", t, "", l, ci.Args[1])
		min := 1 << 30
		for _, a := range st.altsOf(node, alts) {
			if a[sym].Min < min {
				min = a[sym].Min
			}
		}
		st.AssumeCmp(e.Len(l), e.Int(int64(min)), GT|EQ)
		var out []*State
		o := st.Clone()
		if st.AssumeCmp(ci.Args[1], e.Len(l), LT) {
			st.Note("%s: child %s(i) is present", x.loc(ci.Instr), method)
			out = append(out, x.Ret(st, ci, r))
		}
		if o.AssumeCmp(ci.Args[1], e.Len(l), GT|EQ) {
			out = append(out, x.Ret(o, ci, e.Nil(t)))
		}
		return out, true
	}
	r := px(sym, t)
	as := st.altsOf(node, alts)
	if len(as) == 0 {
		return nil, true
	}
	min, max := 1<<30, 0
	for _, a := range as {
		c := a[sym]
		if c.Min < min {
			min = c.Min
		}
		if c.Max != 0 {
			max = 1
		}
	}
	if min > 0 && !st.AssumeNil(r, false) || max == 0 && !st.AssumeNil(r, true) {
		return nil, true
	}
	return one(x.Ret(st, ci, r)), true
}

// altsOf: the alternatives of a parse-tree node consistent with what is known of its children.
func (st *State) altsOf(node *V, alts []Alt) []Alt {
	e := st.e
	var out []Alt
	check := func(a Alt) bool {
		for k, v := range st.kinds {
			if k.Op == "px" && k.Args[0] == node && !strings.HasPrefix(k.Aux, "All:") {
				c, ok := a[k.Aux]
				if v.Nil && ok && c.Min > 0 {
					return false
				}
				if (v.Pos != nil || has(v.Neg, "nil")) && (!ok || c.Max == 0) && e.gramSym(alts, k.Aux) {
					return false
				}
			}
		}
		for k := range st.dbm {
			for _, t := range k {
				if t.Op == "len" && t.Args[0].Op == "px" && t.Args[0].Args[0] == node && strings.HasPrefix(t.Args[0].Aux, "All:") {
					c := a[strings.TrimPrefix(t.Args[0].Aux, "All:")]
					if c.Max >= 0 && st.lower(t) > int64(c.Max) || st.upper(t) < int64(c.Min) {
						return false
					}
				}
			}
		}
		return true
	}
	for _, a := range alts {
		if check(a) {
			out = append(out, a)
		}
	}
	return out
}

func (e *Eng) gramSym(alts []Alt, s string) bool {
	for _, a := range alts {
		if _, ok := a[s]; ok {
			return true
		}
	}
	return false
}

// GrammarOK: no parse-tree node is known to match none of its rule's alternatives.
func (st *State) GrammarOK() bool {
	e := st.e
	if e.Gram == nil {
		return true
	}
	done := map[*V]bool{}
	for k := range st.kinds {
		if k.Op == "px" && !done[k.Args[0]] {
			n := k.Args[0]
			done[n] = true
			if n.T == nil {
				continue
			}
			if alts := e.Gram.Rules[ruleOf(n.T)]; alts != nil && len(st.altsOf(n, alts)) == 0 {
				return false
			}
		}
	}
	return true
}

func isAntlr(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "antlr")
}
