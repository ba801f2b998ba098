package ai

import (
	"go/constant"
	"go/types"
	"strings"
	"unicode/utf8"
)

// Strings whose bytes are known one by one: a "bytes" term has one term per
// byte, a constant or a symbol. A character of several bytes is a rune symbol
// r whose bytes are rb#i(r); "utf8"(r) is the encoding of any rune, of unknown
// width.

func (e *Eng) Bytes(t types.Type, el []*V) *V {
	var b strings.Builder
	for _, x := range el {
		if x.Op != "const" {
			return e.Mk("bytes", t, "", el...)
		}
		n, _ := constant.Int64Val(constant.ToInt(x.C))
		b.WriteByte(byte(n))
	}
	return e.Const1(b.String(), t)
}

// BytesOf gives the bytes of a string, if they are known.
func (e *Eng) BytesOf(s *V) ([]*V, bool) {
	switch s.Op {
	case "ctype":
		return e.BytesOf(s.Args[0])
	case "bytes":
		return s.Args, true
	case "zero":
		return nil, isStr(s.T)
	case "const":
		if s.C.Kind() != constant.String {
			return nil, false
		}
		str := constant.StringVal(s.C)
		el := make([]*V, len(str))
		for i := range el {
			el[i] = e.Const(constant.MakeInt64(int64(str[i])), types.Typ[types.Uint8])
		}
		return el, true
	}
	return nil, false
}

// fixed: every element is exactly one byte.
func fixed(el []*V) bool {
	for _, x := range el {
		if x.Op == "utf8" {
			return false
		}
	}
	return true
}

// RuneSym is an unknown character and the bytes it has.
func (e *Eng) RuneSym(name string, width int) (r *V, el []*V) {
	if width == 1 {
		b := e.Sym(name, types.Typ[types.Uint8])
		return e.Conv(b, types.Typ[types.Int32]), []*V{b}
	}
	r = e.Mk("sym", types.Typ[types.Int32], name)
	for i := 0; i < width; i++ {
		el = append(el, e.Mk("rb", types.Typ[types.Uint8], string(rune('0'+i))+"/"+string(rune('0'+width)), r))
	}
	return r, el
}

// AssumeRune notes what is known of the bytes of a character.
func (st *State) AssumeRune(r *V, el []*V) {
	e := st.e
	if len(el) == 1 {
		st.AssumeCmp(el[0], e.Const(constant.MakeInt64(128), el[0].T), LT)
		return
	}
	st.AssumeCmp(r, e.Const(constant.MakeInt64(128), r.T), GT|EQ)
	for i, b := range el {
		lo := int64(0x80)
		if i == 0 {
			lo = 0xC2
		}
		st.AssumeCmp(b, e.Const(constant.MakeInt64(lo), b.T), GT|EQ)
		if i > 0 {
			st.AssumeCmp(b, e.Const(constant.MakeInt64(0xBF), b.T), LT|EQ)
		}
	}
}

// decode: the character at position i and its width.
func (st *State) decode(el []*V, i int) (*V, int, bool) {
	e := st.e
	b := el[i]
	t := types.Typ[types.Int32]
	switch {
	case b.Op == "rb" && b.Aux[0] == '0':
		return b.Args[0], int(b.Aux[2] - '0'), true
	case b.Op == "rb":
		return nil, 0, false
	case b.Op == "const":
		var raw []byte
		for j := i; j < len(el) && el[j].Op == "const"; j++ {
			n, _ := constant.Int64Val(constant.ToInt(el[j].C))
			raw = append(raw, byte(n))
		}
		r, w := utf8.DecodeRune(raw)
		return e.Const(constant.MakeInt64(int64(r)), t), w, true
	case b.Op == "utf8":
		return b.Args[0], 1, true
	}
	if st.Decide(e.Cmp(b, e.Const(constant.MakeInt64(128), b.T), LT)) == 1 {
		r := e.Conv(b, t)
		st.convFacts(b, r)
		return r, 1, true
	}
	return nil, 0, false
}

// encode a character as UTF-8.
func (st *State) encode(r *V) []*V {
	e := st.e
	for r.Op == "ctype" {
		r = r.Args[0]
	}
	if r.Op == "const" {
		n, _ := constant.Int64Val(constant.ToInt(r.C))
		el, _ := e.BytesOf(e.Str(string(rune(n))))
		return el
	}
	if r.Op == "conv" {
		if b := r.Args[0]; isInt(b.T) && types.Identical(b.T.Underlying(), types.Typ[types.Uint8]) && st.Decide(e.Cmp(b, e.Const(constant.MakeInt64(128), b.T), LT)) == 1 {
			return []*V{b}
		}
	}
	for w := 2; w <= 4; w++ {
		first := e.Mk("rb", types.Typ[types.Uint8], "0/"+string(rune('0'+w)), r)
		if st.Rel(first, e.Const(constant.MakeInt64(0), first.T)) == GT {
			var el []*V
			for i := 0; i < w; i++ {
				el = append(el, e.Mk("rb", types.Typ[types.Uint8], string(rune('0'+i))+"/"+string(rune('0'+w)), r))
			}
			return el
		}
	}
	return []*V{e.Mk("utf8", types.Typ[types.Uint8], "", r)}
}

// convert between strings, bytes and characters; nil if it is not known.
func (st *State) convText(v *V, to types.Type) *V {
	e := st.e
	if isStr(to) && v.T != nil && isInt(v.T) {
		return e.Bytes(to, st.encode(v))
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isStr(v.T) {
		el, ok := e.BytesOf(v)
		if !ok || v.Op == "const" || !fixed(el) {
			return nil
		}
		var segs []*V
		if k, ok := sl.Elem().Underlying().(*types.Basic); ok && k.Kind() == types.Uint8 {
			for _, b := range el {
				segs = append(segs, e.One(b))
			}
			return e.List(to, segs...)
		} else if ok && k.Kind() == types.Int32 {
			for i := 0; i < len(el); {
				r, w, ok := st.decode(el, i)
				if !ok {
					return nil
				}
				segs = append(segs, e.One(r))
				i += w
			}
			return e.List(to, segs...)
		}
		return nil
	}
	if isStr(to) {
		if sl, ok := v.T.Underlying().(*types.Slice); ok {
			l := st.ListOf(v)
			if l.Op != "list" {
				return nil
			}
			k, _ := sl.Elem().Underlying().(*types.Basic)
			var el []*V
			for _, s := range l.Args {
				if s.Op != "one" || k == nil {
					return nil
				}
				if k.Kind() == types.Uint8 {
					el = append(el, s.Args[0])
				} else {
					el = append(el, st.encode(s.Args[0])...)
				}
			}
			return e.Bytes(to, el)
		}
	}
	return nil
}

// matchAt splits the state by whether pat occurs in el at i.
func (st *State) matchAt(el []*V, i int, pat string) (yes *State, no []*State) {
	e := st.e
	cur := st.Clone()
	for j := 0; j < len(pat); j++ {
		if i+j >= len(el) {
			return nil, append(no, cur)
		}
		c := e.Cmp(el[i+j], e.Const(constant.MakeInt64(int64(pat[j])), el[i+j].T), EQ)
		o := cur.Clone()
		if o.Assume(c, false) {
			no = append(no, o)
		}
		if !cur.Assume(c, true) {
			return nil, no
		}
	}
	return cur, no
}

type textCase struct {
	st *State
	el []*V
}

// replaceAll replaces every occurrence of any of the patterns, in the order
// of the text; the earlier pair wins at a position.
func (st *State) replaceAll(el []*V, pairs [][2]string) []textCase {
	e := st.e
	var out []textCase
	var walk func(st *State, i int, done []*V)
	walk = func(st *State, i int, done []*V) {
		if i >= len(el) {
			out = append(out, textCase{st, done})
			return
		}
		rest := []*State{st}
		for _, p := range pairs {
			var next []*State
			for _, s := range rest {
				yes, no := s.matchAt(el, i, p[0])
				if yes != nil {
					rep, _ := e.BytesOf(e.Str(p[1]))
					walk(yes, i+len(p[0]), append(append([]*V(nil), done...), rep...))
				}
				next = append(next, no...)
			}
			rest = next
		}
		for _, s := range rest {
			walk(s, i+1, append(append([]*V(nil), done...), el[i]))
		}
	}
	walk(st, 0, nil)
	return out
}

func constStr(v *V) (string, bool) {
	for v.Op == "ctype" {
		v = v.Args[0]
	}
	if v.Op == "const" && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

// textCall models a library call on a string whose bytes are known.
func (x *Exec) textCall(st *State, ci *CallInfo, name string) ([]*State, bool) {
	e := x.E
	if name == "(*strings.Replacer).Replace" && len(ci.Args) == 2 && ci.Args[0].Op == "call" && isStr(ci.Args[1].T) {
		el, ok := e.BytesOf(ci.Args[1])
		if !ok || !fixed(el) {
			return nil, false
		}
		l := st.ListOf(ci.Args[0].Args[0])
		var pairs [][2]string
		for i := 0; l.Op == "list" && i+1 < len(l.Args); i += 2 {
			if l.Args[i].Op != "one" || l.Args[i+1].Op != "one" {
				return nil, false
			}
			a, ok1 := constStr(l.Args[i].Args[0])
			b, ok2 := constStr(l.Args[i+1].Args[0])
			if !ok1 || !ok2 || a == "" {
				return nil, false
			}
			pairs = append(pairs, [2]string{a, b})
		}
		if len(pairs) == 0 {
			return nil, false
		}
		var out []*State
		for _, c := range st.replaceAll(el, pairs) {
			out = append(out, x.Ret(c.st, ci, e.Bytes(types.Typ[types.String], c.el)))
		}
		return out, true
	}
	if len(ci.Args) == 0 || ci.Args[0].T == nil || !isStr(ci.Args[0].T) {
		return nil, false
	}
	el, ok := e.BytesOf(ci.Args[0])
	if !ok || !fixed(el) {
		return nil, false
	}
	cs := func(i int) (string, bool) {
		if i >= len(ci.Args) {
			return "", false
		}
		return constStr(ci.Args[i])
	}
	switch name {
	case "strings.ReplaceAll", "strings.Replace":
		from, ok1 := cs(1)
		to, ok2 := cs(2)
		if !ok1 || !ok2 || from == "" {
			return nil, false
		}
		if name == "strings.Replace" {
			if b, n := e.SplitInt(ci.Args[3]); b != nil || n >= 0 {
				return nil, false
			}
		}
		var out []*State
		for _, c := range st.replaceAll(el, [][2]string{{from, to}}) {
			out = append(out, x.Ret(c.st, ci, e.Bytes(types.Typ[types.String], c.el)))
		}
		return out, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix":
		p, ok := cs(1)
		if !ok {
			return nil, false
		}
		at := 0
		if strings.HasSuffix(name, "Suffix") {
			at = len(el) - len(p)
		}
		ret := func(s *State, yes bool) *State {
			if strings.Contains(name, "Has") {
				return x.Ret(s, ci, e.Bool(yes))
			}
			r := el
			if yes && at == 0 {
				r = el[len(p):]
			} else if yes {
				r = el[:at]
			}
			return x.Ret(s, ci, e.Bytes(types.Typ[types.String], r))
		}
		if at < 0 {
			return one(ret(st, false)), true
		}
		var out []*State
		yes, no := st.matchAt(el, at, p)
		if yes != nil {
			out = append(out, ret(yes, true))
		}
		for _, s := range no {
			out = append(out, ret(s, false))
		}
		return out, true
	case "strings.Contains", "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.ContainsRune":
		p, ok := cs(1)
		if !ok {
			if ci.Args[1].Op != "const" {
				return nil, false
			}
			n, _ := constant.Int64Val(constant.ToInt(ci.Args[1].C))
			p = string(rune(n))
			if n >= 128 {
				return nil, false
			}
		}
		var out []*State
		ret := func(s *State, i int) {
			if strings.HasPrefix(name, "strings.Contains") {
				out = append(out, x.Ret(s, ci, e.Bool(i >= 0)))
				return
			}
			out = append(out, x.Ret(s, ci, e.Int(int64(i))))
		}
		cur := []*State{st}
		for i := 0; i+len(p) <= len(el); i++ {
			var next []*State
			for _, s := range cur {
				yes, no := s.matchAt(el, i, p)
				if yes != nil {
					ret(yes, i)
				}
				next = append(next, no...)
			}
			cur = next
		}
		for _, s := range cur {
			ret(s, -1)
		}
		return out, true
	}
	return nil, false
}

// bytesCmp compares strings whose bytes are known for equality.
func (e *Eng) bytesCmp(a, b *V, mask uint8) *V {
	if a.Op != "bytes" && b.Op != "bytes" || mask != EQ && mask != LT|GT {
		return nil
	}
	x, ok1 := e.BytesOf(a)
	y, ok2 := e.BytesOf(b)
	if !ok1 || !ok2 || !fixed(x) || !fixed(y) {
		return nil
	}
	r := e.Bool(true)
	if len(x) != len(y) {
		r = e.Bool(false)
	} else {
		for i := range x {
			c := e.Cmp(x[i], y[i], EQ)
			switch {
			case c.Op == "const" && constant.BoolVal(c.C):
			case c.Op == "const":
				r = c
			case r.Op == "const" && constant.BoolVal(r.C):
				r = c
			case r.Op != "const":
				r = e.Mk("and", types.Typ[types.Bool], "", r, c)
			}
		}
	}
	if mask == EQ {
		return r
	}
	return e.Not(r)
}

// narrowCmp compares a widened integer with a constant as what it was widened from.
func (e *Eng) narrowCmp(a, b *V) (*V, *V) {
	if a.Op == "conv" && b.Op == "const" && len(a.Args) == 1 && isInt(a.T) {
		in := a.Args[0]
		if k, ok := in.T.Underlying().(*types.Basic); ok && k.Kind() == types.Uint8 && constInRange(b.C, in.T) {
			return in, e.Const(b.C, in.T)
		}
	}
	return a, b
}

func addText(e *Eng, a, b *V, t types.Type) *V {
	if a.Op != "bytes" && b.Op != "bytes" {
		return nil
	}
	x, ok1 := e.BytesOf(a)
	y, ok2 := e.BytesOf(b)
	if !ok1 || !ok2 {
		return nil
	}
	return e.Bytes(t, append(append([]*V(nil), x...), y...))
}

// writeText: the bytes of a string builder after a write, if they are known.
func (st *State) writeText(old *V, how string, v *V) ([]*V, bool) {
	var el []*V
	switch {
	case old.Op == "zero":
	case old.Op == "sbuf" && old.Aux == "bytes":
		el = append(el, old.Args...)
	default:
		return nil, false
	}
	if len(el) > 200 {
		return nil, false
	}
	switch how {
	case "WriteByte":
		return append(el, v), true
	case "WriteRune":
		return append(el, st.encode(v)...), true
	case "WriteString":
		b, ok := st.e.BytesOf(v)
		return append(el, b...), ok
	}
	return nil, false
}
