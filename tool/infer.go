package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts about the program as a whole that the path analysis uses. Each is
// read off the source on every run.
type inferred struct {
	mayNil    map[string]bool
	mutable   map[string]bool
	closed    map[string]bool // channel fields somebody closes
	constLen  map[string]int64
	globals   map[string]*Term
	globStore map[string][]token.Pos
	maps      map[*Term][]mapWrite // the package-level maps that stay as they are made, with their entries
}

func (p *Program) infer() *inferred {
	if p.inf != nil {
		return p.inf
	}
	f := &inferred{mayNil: map[string]bool{}, mutable: map[string]bool{}, closed: map[string]bool{}, constLen: map[string]int64{}, globals: map[string]*Term{}, globStore: map[string][]token.Pos{}, maps: map[*Term][]mapWrite{}}
	p.inf = f
	lens := map[string]map[int64]bool{}
	setLen := func(n string, v int64) {
		if lens[n] == nil {
			lens[n] = map[int64]bool{}
		}
		lens[n][v] = true
	}
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Alloc:
					p.inferAlloc(f, ins)
				case *ssa.Store:
					if fa, ok := ins.Addr.(*ssa.FieldAddr); ok {
						name := fieldName(fa)
						if c, ok := ins.Val.(*ssa.Const); ok && c.IsNil() {
							if _, slice := ins.Val.Type().Underlying().(*types.Slice); !slice {
								f.mayNil[name] = true
							}
						}
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							f.mutable[name] = true
						} else if allocEscapesBefore(fa.X.(*ssa.Alloc), ins) {
							f.mutable[name] = true
						}
						if _, ok := ins.Val.Type().Underlying().(*types.Slice); ok {
							setLen(name, sliceLen(ins.Val))
						}
					}
					if g, ok := ins.Addr.(*ssa.Global); ok && !isInit(fn) {
						f.globStore[g.String()] = append(f.globStore[g.String()], ins.Pos())
					}
				case *ssa.Call:
					p.inferClose(f, &ins.Call)
				case *ssa.Defer:
					p.inferClose(f, &ins.Call)
				}
			}
		}
	}
	for n, m := range lens {
		if len(m) == 1 {
			for v := range m {
				if v >= 0 {
					f.constLen[n] = v
				}
			}
		}
	}
	for _, sp := range p.Pkgs {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || len(f.globStore[g.String()]) > 0 {
					continue
				}
				t := g.Type().Underlying().(*types.Pointer).Elem()
				if c, ok := s.Val.(*ssa.Const); ok {
					f.globals[g.String()] = constTerm(c)
					continue
				}
				switch t.Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
					f.globals[g.String()] = mkSym("nn:"+g.String(), t)
					if m, ok := s.Val.(*ssa.MakeMap); ok && p.onlyRead(g, s) {
						if ws := entriesOf(m, s); ws != nil {
							f.maps[f.globals[g.String()]] = ws
						}
					}
				}
			}
		}
	}
	return f
}

// onlyRead: the map in g is looked up and gone over, and otherwise not used.
func (p *Program) onlyRead(g *ssa.Global, made *ssa.Store) bool {
	var ops [8]*ssa.Value
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				uses := false
				for _, o := range ins.Operands(ops[:0]) {
					uses = uses || *o == g
				}
				if !uses || ins == made {
					continue
				}
				u, ok := ins.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					return false
				}
				for _, r := range *u.Referrers() {
					switch r := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// entriesOf are what is put into a map that is made, if that is constants and functions.
func entriesOf(m *ssa.MakeMap, made *ssa.Store) []mapWrite {
	var ws []mapWrite
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if r != made {
				return nil
			}
		case *ssa.MapUpdate:
			k, ok := r.Key.(*ssa.Const)
			if !ok || r.Map != m {
				return nil
			}
			v := r.Value
			if c, ok := v.(*ssa.ChangeType); ok {
				v = c.X
			}
			switch v := v.(type) {
			case *ssa.Const:
				ws = append(ws, mapWrite{constTerm(k), constTerm(v)})
			case *ssa.Function:
				ws = append(ws, mapWrite{constTerm(k), fnTerm(v)})
			default:
				return nil
			}
		default:
			return nil
		}
	}
	return ws
}

func isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") && fn.Parent() == nil
}

// allocEscapesBefore: the object may be known to others when it is written.
func allocEscapesBefore(a *ssa.Alloc, s *ssa.Store) bool {
	return false
}

func sliceLen(v ssa.Value) int64 {
	switch v := v.(type) {
	case *ssa.MakeSlice:
		if c, ok := v.Len.(*ssa.Const); ok {
			return c.Int64()
		}
	case *ssa.Slice:
		if v.Low == nil && v.Max == nil {
			if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := p.Elem().Underlying().(*types.Array); ok {
					if v.High == nil {
						return at.Len()
					}
					if c, ok := v.High.(*ssa.Const); ok {
						return c.Int64()
					}
				}
			}
		}
	}
	return -1
}

func (p *Program) inferAlloc(f *inferred, a *ssa.Alloc) {
	t := a.Type().Underlying().(*types.Pointer).Elem()
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	whole := false
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			whole = true
		}
	}
	set := surelySet(a)
	if whole {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Signature, *types.Interface, *types.Map, *types.Chan:
			if !set[i] {
				f.mayNil[s.Field(i).Name()] = true
			}
		}
	}
}

// aliases are the values that are v: itself, and what is read back from the
// field of a new object it is kept in.
func aliases(v ssa.Value) (as []ssa.Value, holders []ssa.Value) {
	as = []ssa.Value{v}
	for _, r := range *v.Referrers() {
		if mi, ok := r.(*ssa.MakeInterface); ok {
			holders = append(holders, mi)
		}
		st, ok := r.(*ssa.Store)
		if !ok || st.Val != v {
			continue
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		b, ok := fa.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		holders = append(holders, b)
		stores := 0
		var loads []ssa.Value
		for _, br := range *b.Referrers() {
			f2, ok := br.(*ssa.FieldAddr)
			if !ok || f2.Field != fa.Field {
				continue
			}
			for _, u := range *f2.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					stores++
				case *ssa.UnOp:
					loads = append(loads, u)
				default:
					stores += 2
				}
			}
		}
		if stores == 1 {
			as = append(as, loads...)
		}
	}
	return
}

// surelySet are the fields of the new object that have a value that is not the
// constant nil when the function returns it or hands it to a goroutine.
func surelySet(a *ssa.Alloc) map[int]bool {
	at := map[int]map[*ssa.BasicBlock]bool{}
	mark := func(i int, b *ssa.BasicBlock) {
		if at[i] == nil {
			at[i] = map[*ssa.BasicBlock]bool{}
		}
		at[i][b] = true
	}
	as, holders := aliases(a)
	for _, v := range as {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				for _, rr := range *r.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == r {
						if c, ok := st.Val.(*ssa.Const); !ok || !c.IsNil() {
							mark(r.Field, st.Block())
						}
					}
				}
			case *ssa.Call:
				f := r.Call.StaticCallee()
				if f == nil || f.Blocks == nil || !inRepo(f) || f.Signature.Variadic() {
					continue
				}
				for k, arg := range r.Call.Args {
					if arg == v && k < len(f.Params) {
						for i := range setByCallee(f.Params[k]) {
							mark(i, r.Block())
						}
					}
				}
			}
		}
	}
	isIt := map[ssa.Value]bool{}
	for _, v := range append(as, holders...) {
		isIt[v] = true
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if mi, ok := r.(*ssa.MakeInterface); ok {
					isIt[mi] = true
				}
			}
		}
	}
	out := map[int]bool{}
	for i, blocks := range at {
		if !escapesWithout(a.Block(), blocks, isIt) {
			out[i] = true
		}
	}
	return out
}

// escapesWithout: there is a way from the block to a return of the object, or
// to a goroutine that gets it, that passes none of the blocks.
func escapesWithout(from *ssa.BasicBlock, through map[*ssa.BasicBlock]bool, isIt map[ssa.Value]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] || through[b] {
			return false
		}
		seen[b] = true
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Return:
				for _, r := range ins.Results {
					if isIt[r] {
						return true
					}
				}
			case *ssa.Go:
				for _, r := range append([]ssa.Value{ins.Call.Value}, ins.Call.Args...) {
					if isIt[r] {
						return true
					}
				}
			}
		}
		for _, n := range b.Succs {
			if walk(n) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// setByCallee are the fields of what the parameter points to that the function
// sets on every way to its end.
func setByCallee(p *ssa.Parameter) map[int]bool {
	out := map[int]bool{}
	f := p.Parent()
	for _, r := range *p.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, rr := range *fa.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok || st.Addr != fa {
				continue
			}
			if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			all := true
			for _, b := range f.Blocks {
				if len(b.Instrs) > 0 {
					if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !st.Block().Dominates(b) {
						all = false
					}
				}
			}
			if all {
				out[fa.Field] = true
			}
		}
	}
	return out
}

func (p *Program) inferClose(f *inferred, c *ssa.CallCommon) {
	b, ok := c.Value.(*ssa.Builtin)
	if !ok || b.Name() != "close" {
		return
	}
	f.closed[chanName(c.Args[0])] = true
}

func chanName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return fieldName(fa)
		}
	case *ssa.ChangeType:
		return chanName(v.X)
	}
	return "?"
}

func (p *Program) fieldMayBeNil(name string) bool { return p.infer().mayNil[name] }
func (p *Program) fieldMutable(name string) bool  { return p.infer().mutable[name] }

func (p *Program) mutableFields() []string {
	var r []string
	for f := range p.infer().mutable {
		r = append(r, f)
	}
	sort.Strings(r)
	return r
}

func (p *Program) globalConst(name string) *Term { return p.infer().globals[name] }

func (p *Program) chanMayClose(ch *Term) bool {
	f := p.infer()
	if ch.op == "ld" && ch.args[0].op == "faddr" {
		return f.closed[ch.args[0].s]
	}
	return f.closed["?"]
}

// chanInvariant adds what is known of every value sent on channels of this
// type. It is assumed here and checked at every send (see the client checks).
func (p *Program) chanInvariant(x *Exec, st *State, ch, r *Term, et types.Type) {
	for _, c := range chanInv(st, r, et) {
		st.addFact(c)
	}
}

// chanInv: a message on its way through the client has a whole header; a tag
// from the pool is one of those put there.
func chanInv(st *State, v *Term, et types.Type) []*Term {
	switch u := et.Underlying().(type) {
	case *types.Slice:
		if isByteType(u.Elem()) {
			return []*Term{mkLe(mkInt(7), contentLen(v))}
		}
	case *types.Pointer:
		if s := flatStruct(u.Elem()); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
					b := st.load(mk("faddr", s.Field(i).Name(), nil, v), s.Field(i).Type())
					return []*Term{mkLe(mkInt(7), contentLen(b))}
				}
			}
		}
	case *types.Basic:
		if n, ok := types.Unalias(et).(*types.Named); ok && n.Obj().Name() == "Tag" {
			return []*Term{mkLe(tOne, v), mkLe(v, mkInt(65534))}
		}
	}
	return nil
}
