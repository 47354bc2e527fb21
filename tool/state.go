package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An Event is something a path does that others can see: a call that leaves
// the repository, an interface call, a store, a channel operation, a lock.
type Event struct {
	prev   *Event
	n      int
	kind   string
	name   string
	args   []*Term
	res    []*Term
	pos    token.Pos
	fn     *ssa.Function
	stack  string
	locks  map[*Term]string
	nfacts int
	loop   *LoopInfo
	aux    any
}

// LoopInfo is the summary of a loop: what one arbitrary iteration can do.
type LoopInfo struct {
	id    string
	kappa *Term // number of iterations completed
	pos   token.Pos
	back  []loopPath // iterations that go round again
	vars  []*loopVar
	conts []*loopCont
	exits int
	start int // terms made later are made in the turn
}

type loopPath struct {
	events []*Event
	st     *State
}

// State is the abstract state on one path.
type State struct {
	cells         map[*Term]*Term
	vers          map[string]int
	cont          map[*Term]*Term
	havoc         map[*Term]int
	bufs          map[*Term]*bufState
	facts         []*Term
	les           []lin
	ev            *Event
	locks         map[*Term]string
	streams       map[*Term]*Term
	buffered      map[*Term]*Term // the one buffered reader that stands before a stream
	mapver        map[*Term]int
	mapw          map[*Term][]mapWrite
	lockgen       int
	mapverDefault int
}

type bufState struct {
	obj  *Term // content, from absolute position 0
	head *Term
}

type mapWrite struct {
	key, val *Term // val nil: deleted
}

func newState() *State {
	return &State{cells: map[*Term]*Term{}, vers: map[string]int{}, cont: map[*Term]*Term{}, havoc: map[*Term]int{},
		bufs: map[*Term]*bufState{}, locks: map[*Term]string{}, streams: map[*Term]*Term{}, buffered: map[*Term]*Term{}, mapver: map[*Term]int{}, mapw: map[*Term][]mapWrite{}}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) clone() *State {
	n := &State{cells: cloneMap(st.cells), vers: cloneMap(st.vers), cont: cloneMap(st.cont), havoc: cloneMap(st.havoc),
		bufs: map[*Term]*bufState{}, locks: cloneMap(st.locks), streams: cloneMap(st.streams), buffered: cloneMap(st.buffered), mapver: cloneMap(st.mapver), mapw: cloneMap(st.mapw),
		ev: st.ev, lockgen: st.lockgen, mapverDefault: st.mapverDefault}
	for k, v := range st.bufs {
		c := *v
		n.bufs[k] = &c
	}
	n.facts = st.facts[:len(st.facts):len(st.facts)]
	n.les = st.les[:len(st.les):len(st.les)]
	return n
}

// ---------- conditions

func notT(c *Term) *Term {
	switch c.op {
	case "bool":
		return mkBool(c.s != "true")
	case "not":
		return c.args[0]
	case "le0":
		// !(l <= 0)  is  1-l <= 0
		return mkLe0(toLin(c.args[0]).neg().add(toLin(tOne), 1))
	}
	return mk("not", "", nil, c)
}

func mkLe0(l lin) *Term {
	t := l.tight().term()
	if t.op == "int" {
		return mkBool(t.k.Sign() <= 0)
	}
	return mk("le0", "", nil, t)
}

// gcd is what all coefficients are multiples of.
func (l lin) gcd() int64 {
	var g int64
	for _, c := range l.m {
		if c < 0 {
			c = -c
		}
		for a, b := g, c; ; a, b = b, a%b {
			if b == 0 {
				g = a
				break
			}
		}
	}
	return g
}

// tight is a bound l <= 0 with the common factor of the coefficients taken out.
func (l lin) tight() lin {
	g := l.gcd()
	if g < 2 {
		return l
	}
	r := lin{k: new(big.Int), m: map[*Term]int64{}}
	for a, c := range l.m {
		r.m[a] = c / g
	}
	// the least integer that is not less than k/g
	n := new(big.Int).Neg(l.k)
	r.k.Neg(n.Div(n, big.NewInt(g)))
	return r
}

func mkLe(a, b *Term) *Term { return mkLe0(toLin(a).add(toLin(b), -1)) }
func mkLt(a, b *Term) *Term { return mkLe(addC(a, 1), b) }

func mkEqInt(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	// bit patterns against constants
	if b.op == "bits" && a.op == "int" {
		a, b = b, a
	}
	if a.op == "bits" && b.op == "int" {
		if b.k.Sign() < 0 || b.k.BitLen() > len(a.bits) {
			return tFalse
		}
		var rest []bitref
		var want []uint
		for i, r := range a.bits {
			w := b.k.Bit(i)
			if r.a == nil {
				if uint(r.i) != w {
					return tFalse
				}
				continue
			}
			rest = append(rest, r)
			want = append(want, w)
		}
		if len(rest) == 1 {
			x := bitsTerm(rest)
			e := mk("eq0", "", nil, x)
			if want[0] == 1 {
				return mk("not", "", nil, e)
			}
			return e
		}
		allz := true
		for _, w := range want {
			if w != 0 {
				allz = false
			}
		}
		if allz {
			return mk("eq0", "", nil, bitsTerm(rest))
		}
	}
	l := toLin(a).add(toLin(b), -1)
	if g := l.gcd(); g > 1 {
		if new(big.Int).Mod(l.k, big.NewInt(g)).Sign() != 0 {
			return tFalse
		}
		l = l.tight()
	}
	t := l.term()
	if t.op == "int" {
		return mkBool(t.k.Sign() == 0)
	}
	// sign: first coefficient positive
	if t.op == "lin" && t.c[0] < 0 {
		t = l.neg().term()
	}
	r := atomRange(t)
	if r.lo != nil && r.lo.Sign() > 0 || r.hi != nil && r.hi.Sign() < 0 {
		return tFalse
	}
	return mk("eq0", "", nil, t)
}

func isNilT(t *Term) bool { return t.op == "nil" }

func nonNilTerm(t *Term) bool {
	switch t.op {
	case "alloc", "fn", "closure", "faddr", "elem", "glob", "iface", "mkchan", "mkmap", "ptr":
		return true
	case "slice":
		if l := listTab[t.args[0]]; l != nil && l.mayNil {
			return false
		}
		return t.args[0].op != "nil"
	case "ld":
		l, _ := ofList(t)
		return l != nil && l.nonNil
	case "sym":
		return strings.HasPrefix(t.s, "nn:")
	case "app":
		return strings.HasPrefix(t.s, "nn:") || t.s == "fmt.Errorf" || t.s == "errors.New"
	}
	return false
}

func mkEq(a, b *Term, t types.Type) *Term {
	if a == b {
		return tTrue
	}
	if isNilT(a) {
		a, b = b, a
	}
	if isNilT(b) && a.op == "slice" {
		if l := listTab[a.args[0]]; l != nil && l.mayNil {
			return mkEqInt(contentLen(a), tZero)
		}
	}
	if t != nil {
		if _, _, ok := intInfo(t); ok {
			return mkEqInt(a, b)
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			if b.isBool() {
				a, b = b, a
			}
			if a.isBool() {
				if a == tTrue {
					return b
				}
				return notT(b)
			}
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			if a.op == "str" && b.op == "str" {
				return mkBool(a.s == b.s)
			}
			if a.op == "str" && a.s == "" {
				return mkEqInt(contentLen(b), tZero)
			}
			if b.op == "str" && b.s == "" {
				return mkEqInt(contentLen(a), tZero)
			}
		}
		if st, ok := t.Underlying().(*types.Struct); ok && a.op == "struct" && b.op == "struct" {
			r := tTrue
			for i := 0; i < st.NumFields(); i++ {
				e := mkEq(a.args[i], b.args[i], st.Field(i).Type())
				if e == tFalse {
					return tFalse
				}
				if e != tTrue {
					if r != tTrue {
						return mkApp("structeq", nil, a, b)
					}
					r = e
				}
			}
			return r
		}
	}
	if isNilT(a) && nonNilTerm(b) || isNilT(b) && nonNilTerm(a) {
		return tFalse
	}
	if isNilT(a) && isNilT(b) {
		return tTrue
	}
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.t, b.t) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0], a.t)
	}
	if a.op == "alloc" && b.op == "alloc" {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", nil, a, b)
}

func (st *State) hasFact(c *Term) bool {
	for _, f := range st.facts {
		if f == c {
			return true
		}
	}
	return false
}

func (st *State) upper(l lin) *big.Int {
	r := new(big.Int).Set(l.k)
	for a, c := range l.m {
		ar := atomRange(a)
		b := ar.hi
		if c < 0 {
			b = ar.lo
		}
		if b == nil {
			return nil
		}
		r.Add(r, new(big.Int).Mul(b, big.NewInt(c)))
	}
	return r
}

// reduced: l <= 0 divided by what all its coefficients have in common.
func (l lin) reduced() lin {
	var g int64
	for _, c := range l.m {
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g < 2 {
		return l
	}
	r := lin{k: new(big.Int), m: map[*Term]int64{}}
	for a, c := range l.m {
		r.m[a] = c / g
	}
	// k + g*x <= 0 exactly if x <= floor(-k/g), that is ceil(k/g) + x <= 0
	q, m := new(big.Int).DivMod(l.k, big.NewInt(g), new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	r.k = q
	return r
}

func (st *State) leq0(l lin, depth int) bool {
	if u := st.upper(l); u != nil && u.Sign() <= 0 {
		return true
	}
	if depth == 0 || len(l.m) == 0 {
		return false
	}
	l = l.reduced()
	for i := len(st.les) - 1; i >= 0; i-- {
		f := st.les[i]
		share := false
		for a, c := range f.m {
			if l.m[a] == c {
				share = true
				break
			}
		}
		if !share {
			continue
		}
		if st.leq0(l.add(f, -1), depth-1) {
			return true
		}
	}
	return false
}

// decide: 1 the condition holds on this path, -1 it does not, 0 either.
func (st *State) decide(c *Term) int {
	switch c {
	case tTrue:
		return 1
	case tFalse:
		return -1
	}
	if c.op == "not" {
		return -st.decide(c.args[0])
	}
	if st.hasFact(c) {
		return 1
	}
	n := notT(c)
	if st.hasFact(n) {
		return -1
	}
	switch c.op {
	case "le0":
		l := toLin(c.args[0])
		if st.leq0(l, 4) {
			return 1
		}
		if st.leq0(l.neg().add(toLin(tOne), 1), 4) {
			return -1
		}
	case "eq0":
		l := toLin(c.args[0])
		one := toLin(tOne)
		if st.leq0(l.add(one, 1), 4) || st.leq0(l.neg().add(one, 1), 4) {
			return -1
		}
		if st.leq0(l, 4) && st.leq0(l.neg(), 4) {
			return 1
		}
		if st.keysApart(l) {
			return -1
		}
	case "eq":
		a, b := c.args[0], c.args[1]
		if isNilT(b) {
			a, b = b, a
		}
		// x == nil when x is known to equal something that is not nil
		if isNilT(a) {
			for _, f := range st.facts {
				if f.op == "eq" && (f.args[0] == b && nonNilTerm(f.args[1]) || f.args[1] == b && nonNilTerm(f.args[0])) {
					return -1
				}
			}
		}
	}
	return 0
}

// keysApart: l is the difference of two keys of which a map has one and not the other.
func (st *State) keysApart(l lin) bool {
	for _, f := range st.facts {
		if f.op != "mapok" {
			continue
		}
		for _, g := range st.facts {
			if g.op != "not" || g.args[0].op != "mapok" {
				continue
			}
			h := g.args[0]
			if h.s != f.s || h.args[0] != f.args[0] {
				continue
			}
			if c := mkEqInt(f.args[1], h.args[1]); c.op == "eq0" {
				d := toLin(c.args[0])
				if d.add(l, -1).term() == tZero || d.add(l, 1).term() == tZero {
					return true
				}
			}
		}
	}
	return false
}

func (st *State) proves(c *Term) bool { return st.decide(c) == 1 }

// assume adds a condition to the path; false if it cannot hold.
func (st *State) assume(c *Term) bool {
	switch st.decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	st.addFact(c)
	return true
}

func (st *State) addFact(c *Term) {
	if c == tTrue {
		return
	}
	st.facts = append(st.facts, c)
	switch c.op {
	case "le0":
		st.les = append(st.les, toLin(c.args[0]))
		st.strict()
	case "eq0":
		l := toLin(c.args[0])
		st.les = append(st.les, l, l.neg())
		st.strict()
	case "not":
		e := c.args[0]
		if e.op == "eq0" {
			l := toLin(e.args[0])
			one := toLin(tOne)
			if st.leq0(l.neg(), 3) { // l >= 0, so l >= 1
				st.les = append(st.les, one.add(l, -1))
			} else if st.leq0(l, 3) {
				st.les = append(st.les, one.add(l, 1))
			}
		}
	}
}

// strict: where a != 0 is known and by now also a sign of a.
func (st *State) strict() {
	one := toLin(tOne)
	for _, f := range st.facts {
		if f.op != "not" || f.args[0].op != "eq0" {
			continue
		}
		l := toLin(f.args[0].args[0])
		if st.leq0(l.neg(), 1) {
			if n := one.add(l, -1); !st.leq0(n, 1) {
				st.les = append(st.les, n)
			}
		} else if st.leq0(l, 1) {
			if n := one.add(l, 1); !st.leq0(n, 1) {
				st.les = append(st.les, n)
			}
		}
	}
}

// ---------- content of strings and byte objects

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func contentLen(t *Term) *Term {
	switch t.op {
	case "str":
		return mkInt(int64(len(t.s)))
	case "cat":
		r := tZero
		for _, a := range t.args {
			r = addT(r, contentLen(a))
		}
		return r
	case "sub":
		return t.args[2]
	case "zeros":
		return t.args[0]
	case "b1":
		return tOne
	case "nil":
		return tZero
	case "slice":
		return t.args[2]
	}
	return mk("len", "", nil, t)
}

func mkZeros(n *Term) *Term {
	if v, ok := n.intVal(); ok && v >= 0 && v <= 4096 {
		return mkStr(string(make([]byte, v)))
	}
	return mk("zeros", "", nil, n)
}

func mkByte(x *Term) *Term {
	if v, ok := x.intVal(); ok && v >= 0 && v < 256 {
		return mkStr(string([]byte{byte(v)}))
	}
	if x.op == "in" {
		return mkSub(x.args[0], x.args[1], tOne)
	}
	return mk("b1", "", nil, x)
}

func mkIn(src, pos *Term) *Term {
	if src.op == "sub" {
		return mkIn(src.args[0], addT(src.args[1], pos))
	}
	if src.op == "str" {
		if v, ok := pos.intVal(); ok && v >= 0 && v < int64(len(src.s)) {
			return mkInt(int64(src.s[v]))
		}
	}
	if src.op == "zeros" {
		return tZero
	}
	return mk("in", "", nil, src, pos)
}

func mkSub(src, off, n *Term) *Term {
	if n == tZero {
		return mkStr("")
	}
	if src.op == "sub" {
		return mkSub(src.args[0], addT(src.args[1], off), n)
	}
	if src.op == "zeros" {
		return mkZeros(n)
	}
	if src.op == "str" {
		o, ok1 := off.intVal()
		l, ok2 := n.intVal()
		if ok1 && ok2 && o >= 0 && l >= 0 && o+l <= int64(len(src.s)) {
			return mkStr(src.s[o : o+l])
		}
	}
	if off == tZero && n == contentLen(src) {
		return src
	}
	return mk("sub", "", nil, src, off, n)
}

func pieces(t *Term) []*Term {
	switch t.op {
	case "cat":
		return t.args
	case "str":
		if t.s == "" {
			return nil
		}
	case "nil":
		return nil
	}
	return []*Term{t}
}

func asSub(p *Term) (src, off, n *Term, ok bool) {
	switch p.op {
	case "sub":
		return p.args[0], p.args[1], p.args[2], true
	case "cat", "str", "zeros", "b1":
		return nil, nil, nil, false
	}
	return p, tZero, contentLen(p), true
}

func mkCat(ps ...*Term) *Term {
	var out []*Term
	for _, q := range ps {
		for _, p := range pieces(q) {
			if len(out) > 0 {
				last := out[len(out)-1]
				if last.op == "str" && p.op == "str" {
					out[len(out)-1] = mkStr(last.s + p.s)
					continue
				}
				if s1, o1, n1, ok := asSub(last); ok {
					if s2, o2, n2, ok := asSub(p); ok && s1 == s2 && addT(o1, n1) == o2 {
						out[len(out)-1] = mkSub(s1, o1, addT(n1, n2))
						continue
					}
				}
				if last.op == "zeros" && p.op == "zeros" {
					out[len(out)-1] = mkZeros(addT(last.args[0], p.args[0]))
					continue
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk("cat", "", nil, out...)
}

// contSlice gives bytes [lo, lo+n) of t, or nil if it cannot tell which they are.
func (st *State) contSlice(t, lo, n *Term) *Term {
	if n == tZero {
		return mkStr("")
	}
	if lo == tZero && n == contentLen(t) {
		return t
	}
	ps := pieces(t)
	if len(ps) == 1 {
		p := ps[0]
		if p.op == "b1" {
			if lo == tZero && n == tOne {
				return p
			}
			return nil
		}
		if p.op == "str" {
			_, ok1 := lo.intVal()
			_, ok2 := n.intVal()
			if !(ok1 && ok2) {
				return mkSub(p, lo, n)
			}
		}
		return mkSub(p, lo, n)
	}
	hi := addT(lo, n)
	pos := tZero
	var out []*Term
	for _, p := range ps {
		l := contentLen(p)
		end := addT(pos, l)
		switch {
		case st.proves(mkLe(end, lo)):
		case st.proves(mkLe(hi, pos)):
			pos = end
			continue
		default:
			var a, b *Term // relative
			switch {
			case st.proves(mkLe(lo, pos)):
				a = tZero
			case st.proves(mkLe(pos, lo)):
				a = subT(lo, pos)
			default:
				return nil
			}
			switch {
			case st.proves(mkLe(end, hi)):
				b = l
			case st.proves(mkLe(hi, end)):
				b = subT(hi, pos)
			default:
				return nil
			}
			if p.op == "b1" {
				if a == tZero && b == tOne {
					out = append(out, p)
				} else if a != b {
					return nil
				}
			} else {
				out = append(out, mkSub(p, a, subT(b, a)))
			}
		}
		pos = end
	}
	r := mkCat(out...)
	return r
}

func (st *State) contAt(t, i *Term) *Term {
	ps := pieces(t)
	if len(ps) == 1 {
		p := ps[0]
		if p.op == "b1" && i == tZero {
			return p.args[0]
		}
		if p.op != "b1" {
			return mkIn(p, i)
		}
	}
	pos := tZero
	for _, p := range ps {
		end := addT(pos, contentLen(p))
		if st.proves(mkLe(end, i)) {
			pos = end
			continue
		}
		if st.proves(mkLe(pos, i)) && st.proves(mkLt(i, end)) {
			if p.op == "b1" {
				return p.args[0]
			}
			return mkIn(p, subT(i, pos))
		}
		break
	}
	return mk("in", "", nil, t, i)
}

// contOverwrite replaces the bytes at lo by part; nil if it cannot tell what results.
func (st *State) contOverwrite(t, lo, part *Term) *Term {
	n := contentLen(part)
	if n == tZero {
		return t
	}
	total := contentLen(t)
	pre := st.contSlice(t, tZero, lo)
	post := st.contSlice(t, addT(lo, n), subT(total, addT(lo, n)))
	if pre == nil || post == nil {
		return nil
	}
	return mkCat(pre, part, post)
}

// ---------- addresses

func rootOf(a *Term) *Term {
	for a.op == "faddr" || a.op == "elem" {
		a = a.args[0]
	}
	return a
}

func mkFaddr(base *Term, i int, t types.Type) *Term {
	name := fmt.Sprint(i)
	st, _ := derefStruct(t)
	if st != nil && i < st.NumFields() {
		name = st.Field(i).Name()
	}
	return mk("faddr", name, nil, base)
}

func derefStruct(t types.Type) (*types.Struct, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s, t
}

func mkElem(obj, i *Term) *Term { return mk("elem", "", nil, obj, i) }

// flatStruct tells whether values of t are kept field by field.
func flatStruct(t types.Type) *types.Struct {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		if !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return nil
		}
	}
	return s
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		}
		return mk("zero", "", t)
	case *types.Struct:
		if flatStruct(t) != nil {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, zeroOf(u.Field(i).Type()))
			}
			return mk("struct", "", t, fs...)
		}
		return mk("zero", "", t)
	case *types.Array:
		return mk("zero", "", t)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, zeroOf(u.At(i).Type()))
		}
		return mk("tuple", "", nil, fs...)
	}
	return mkNil(t)
}

func fieldVal(x *Term, i int, t types.Type) *Term {
	if x.op == "struct" {
		return x.args[i]
	}
	s, _ := derefStruct(t)
	if x.op == "zero" && s != nil {
		return zeroOf(s.Field(i).Type())
	}
	name := fmt.Sprint(i)
	var ft types.Type
	if s != nil {
		name = s.Field(i).Name()
		ft = s.Field(i).Type()
	}
	return expand(mk("field", name, ft, x), ft)
}

// expand turns an unknown struct value into the struct of its fields.
func expand(x *Term, t types.Type) *Term {
	if t == nil || x.op == "struct" {
		return x
	}
	s := flatStruct(t)
	if s == nil {
		return x
	}
	var fs []*Term
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fs = append(fs, expand(mk("field", s.Field(i).Name(), ft, x), ft))
	}
	return mk("struct", "", t, fs...)
}

func fieldKey(a *Term) string {
	switch a.op {
	case "faddr":
		return "." + a.s
	case "elem":
		return "[]"
	}
	return a.op
}

// addrPath is the steps from the root of an address down to it.
func addrPath(a *Term) []*Term {
	var p []*Term
	for a.op == "faddr" || a.op == "elem" {
		p = append(p, a)
		a = a.args[0]
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// distinct: the two addresses cannot be the same.
func (st *State) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	ra, rb := rootOf(a), rootOf(b)
	pa, pb := addrPath(a), addrPath(b)
	if ra == rb {
		for i := 0; i < len(pa) && i < len(pb); i++ {
			x, y := pa[i], pb[i]
			if x.op != y.op {
				return true
			}
			if x.op == "faddr" {
				if x.s != y.s {
					return true
				}
				continue
			}
			if x.args[1] != y.args[1] && st.proves(notT(mkEqInt(x.args[1], y.args[1]))) {
				return true
			}
		}
		return len(pa) != len(pb)
	}
	if ra.op == "alloc" || rb.op == "alloc" || ra.op == "glob" || rb.op == "glob" {
		return true
	}
	if len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x.op != y.op || x.op == "faddr" && x.s != y.s {
			return true
		}
		if len(pa) == len(pb) && len(pa) > 1 {
			return false
		}
	} else if len(pa) != len(pb) {
		return true
	}
	if len(pa) == len(pb) && len(pa) <= 1 {
		return st.decide(mkEq(ra, rb, nil)) == -1
	}
	return false
}

// load reads a value of type t from address a.
func (st *State) load(a *Term, t types.Type) *Term {
	if s := flatStruct(t); s != nil {
		if v, ok := st.cells[a]; ok {
			return expand(v, t)
		}
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, st.load(mk("faddr", s.Field(i).Name(), nil, a), s.Field(i).Type()))
		}
		return mk("struct", "", t, fs...)
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if isByteType(at.Elem()) {
			return mk("arr", "", t, st.contOf(a, t))
		}
		if at.Len() <= 16 {
			var fs []*Term
			for i := int64(0); i < at.Len(); i++ {
				fs = append(fs, st.load(mkElem(a, mkInt(i)), at.Elem()))
			}
			return mk("struct", "", t, fs...)
		}
	}
	if a.op == "elem" && isByteType(t) {
		return st.contAt(st.contOf(a.args[0], nil), a.args[1])
	}
	if v, ok := st.cells[a]; ok {
		return v
	}
	if a.op == "elem" {
		// a cell that may be the same
		for o := range st.cells {
			for x := o; ; x = x.args[0] {
				if x.op == "elem" && x.args[0] == a.args[0] && x != a && !st.distinct(x, a) {
					return mkApp(fmt.Sprintf("elem'%d", st.havoc[a.args[0]]), t, a, mk("ver", fmt.Sprint(len(st.cells)), nil))
				}
				if x.op != "faddr" && x.op != "elem" {
					break
				}
			}
		}
	}
	return st.deflt(a, t)
}

func (st *State) deflt(a *Term, t types.Type) *Term {
	// inside an object with unknown content?
	var in *Term
	for x := a; ; in, x = x, x.args[0] {
		if h := st.havoc[x]; h > 0 {
			if k := fillTab[h]; k != nil && in != nil && in.op == "elem" && in.args[1] == k {
				return zeroOf(t)
			}
			return mk("ld", fmt.Sprintf("h%d", h), t, a)
		}
		if x.op != "faddr" && x.op != "elem" {
			break
		}
	}
	root := rootOf(a)
	if root.op == "alloc" {
		return zeroOf(t)
	}
	if a.op == "elem" && a.args[0].op == "ptr" {
		s := a.args[0].args[0]
		return expand(mk("idx", verOf(st.vers["[]"]), t, s, a.args[1]), t)
	}
	if a.op == "faddr" && a.args[0].op == "elem" && a.args[0].args[0].op == "ptr" {
		s := a.args[0].args[0].args[0]
		return expand(mk("field", a.s, t, mk("idx", verOf(st.vers["[]"]), nil, s, a.args[0].args[1])), t)
	}
	if a.op == "ptr" {
		return expand(mk("ld", verOf(st.vers["*"]), t, a.args[0]), t)
	}
	return expand(mk("ld", verOf(st.vers[fieldKey(a)]), t, a), t)
}

func verOf(n int) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprint(n)
}

// contOf is the content of a byte object.
func (st *State) contOf(obj *Term, t types.Type) *Term {
	if c, ok := st.cont[obj]; ok {
		return c
	}
	if h := st.havoc[obj]; h > 0 {
		return mk("ld", fmt.Sprintf("h%d", h), nil, obj)
	}
	if obj.op == "ptr" {
		return obj.args[0]
	}
	if rootOf(obj).op == "alloc" && t != nil {
		if at, ok := t.Underlying().(*types.Array); ok {
			return mkZeros(mkInt(at.Len()))
		}
	}
	return mk("ld", "", nil, obj)
}

// store writes v of type t to address a.
func (st *State) store(a *Term, t types.Type, v *Term) {
	if s := flatStruct(t); s != nil {
		v = expand(v, t)
		delete(st.cells, a)
		for i := 0; i < s.NumFields(); i++ {
			st.store(mk("faddr", s.Field(i).Name(), nil, a), s.Field(i).Type(), v.args[i])
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if isByteType(at.Elem()) {
			c := mkZeros(mkInt(at.Len()))
			if v.op == "arr" {
				c = v.args[0]
			} else if v.op != "zero" {
				c = mk("content", "", nil, v)
			}
			st.cont[a] = c
			return
		}
		if at.Len() <= 16 {
			for i := int64(0); i < at.Len(); i++ {
				var ev *Term
				if v.op == "struct" {
					ev = v.args[i]
				} else if v.op == "zero" {
					ev = zeroOf(at.Elem())
				} else {
					ev = mk("idx", "", at.Elem(), v, mkInt(i))
				}
				st.store(mkElem(a, mkInt(i)), at.Elem(), ev)
			}
			return
		}
	}
	if a.op == "elem" && isByteType(t) {
		obj := a.args[0]
		c := st.contOf(obj, nil)
		n := st.contOverwrite(c, a.args[1], mkByte(v))
		if n == nil {
			st.havocCont(obj)
		} else {
			st.cont[obj] = n
		}
		return
	}
	for o := range st.cells {
		if o != a && o.op == a.op && !st.distinct(o, a) {
			if rootOf(o).op == "alloc" {
				havocN++
				st.cells[o] = mkSym(fmt.Sprintf("overwritten%d", havocN), typeOfTerm(st.cells[o]))
			} else {
				delete(st.cells, o)
			}
		}
	}
	if rootOf(a).op != "alloc" {
		st.vers[fieldKey(a)]++
		if a.op == "faddr" || a.op == "elem" {
			// reads of the same field through other pointers are new values
		}
	}
	st.cells[a] = v
}

var havocN int

func (st *State) havocCont(obj *Term) {
	c := st.contOf(obj, nil)
	havocN++
	n := contentLen(c)
	u := mkSym(fmt.Sprintf("havoc%d", havocN), nil)
	st.addFact(mkEqInt(mk("len", "", nil, u), n))
	st.cont[obj] = u
}

// ---------- events

func (st *State) event(e *Event) *Event {
	e.prev = st.ev
	if st.ev != nil {
		e.n = st.ev.n + 1
	}
	e.nfacts = len(st.facts)
	e.locks = st.locks
	st.ev = e
	return e
}

// events lists the events of a path in order.
func (st *State) events() []*Event {
	var r []*Event
	for e := st.ev; e != nil; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}
