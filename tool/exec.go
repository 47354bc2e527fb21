package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec computes, for one root function, the set of its abstract paths:
// every function of the repository it calls is expanded, every loop is
// replaced by a fixpoint summary, everything outside the repository is a
// model or an opaque event. No code runs and no solver is asked.
type Exec struct {
	pr     *Program
	root   *ssa.Function
	opaque func(*ssa.Function) bool
	// noErrFork: externals that cannot fail for this analysis

	paths    int
	maxPaths int
	steps    int
	obl      []*Obligation
	undec    []string
	loops    map[*ssa.Function][]*natLoop
	depth    int
	kinds    map[string]int
	quietLog bool
	visited  map[*ssa.Function]bool
}

// An Obligation is a proof obligation met on some path: an access that must
// be in bounds, a pointer that must not be nil, ...
type Obligation struct {
	kind string
	pos  token.Pos
	fn   *ssa.Function
	desc string
	ok   bool
	path string
	root string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	stack  string
	depth  int
}

type deferred struct {
	call *ssa.CallCommon
	args []*Term
	fn   *Term
	pos  token.Pos
	ins  ssa.Instruction
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = cloneMap(fr.env)
	n.defers = append([]deferred{}, fr.defers...)
	return &n
}

type outKind int

const (
	outRet outKind = iota
	outPanic
	outExit // the process ends
	outEdge
)

type Outcome struct {
	kind     outKind
	st       *State
	fr       *Frame
	rets     []*Term
	from, to *ssa.BasicBlock
	pos      token.Pos
}

type tooMany struct{}

func newExec(pr *Program) *Exec {
	return &Exec{pr: pr, maxPaths: 60000, loops: map[*ssa.Function][]*natLoop{}, kinds: map[string]int{}, visited: map[*ssa.Function]bool{}}
}

// Run analyses fn from state st with these arguments.
func (x *Exec) Run(fn *ssa.Function, st *State, args []*Term, free []*Term) (outs []Outcome, err error) {
	x.root = fn
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooMany); ok {
				err = fmt.Errorf("%s: too many paths", fn)
				return
			}
			if os.Getenv("NPC_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("%s: the analysis does not understand it: %v", fn, r)
		}
	}()
	outs = x.call(fn, st, args, free, fn.Name(), 0)
	return outs, nil
}

func (x *Exec) sym(name string, t types.Type) *Term {
	freshN++
	s := mkSym(fmt.Sprintf("%s#%d", name, freshN), t)
	if t != nil {
		return expand(s, t)
	}
	return s
}

func (x *Exec) nnsym(name string, t types.Type) *Term {
	freshN++
	return mkSym(fmt.Sprintf("nn:%s#%d", name, freshN), t)
}

func (x *Exec) give(what string) {
	for _, u := range x.undec {
		if u == what {
			return
		}
	}
	x.undec = append(x.undec, what)
}

// ---------- loops

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (x *Exec) loopsOf(fn *ssa.Function) []*natLoop {
	if l, ok := x.loops[fn]; ok {
		return l
	}
	var ls []*natLoop
	by := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := by[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					by[s] = l
					ls = append(ls, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	x.loops[fn] = ls
	return ls
}

func (x *Exec) loopAt(b *ssa.BasicBlock) *natLoop {
	for _, l := range x.loopsOf(b.Parent()) {
		if l.header == b {
			return l
		}
	}
	return nil
}

type region struct {
	l *natLoop
}

// call expands a function of the repository.
func (x *Exec) call(fn *ssa.Function, st *State, args, free []*Term, stack string, depth int) []Outcome {
	if len(fn.Blocks) == 0 {
		panic("no body: " + fn.String())
	}
	if depth > 24 {
		x.give("call depth exceeded at " + fn.String())
		panic(tooMany{})
	}
	x.visited[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, stack: stack, depth: depth}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.env[p] = free[i]
		} else {
			fr.env[p] = mkSym("free:"+p.Name(), p.Type())
		}
	}
	return x.exec(fr, st, fn.Blocks[0], nil, nil)
}

// exec runs from the start of block b, entered from prev.
func (x *Exec) exec(fr *Frame, st *State, b, prev *ssa.BasicBlock, reg *natLoop) []Outcome {
	if reg != nil {
		if b == reg.header || !reg.blocks[b] {
			return []Outcome{{kind: outEdge, st: st, fr: fr, from: prev, to: b}}
		}
	}
	if l := x.loopAt(b); l != nil && l != reg {
		return x.loop(fr, st, l, prev, reg)
	}
	x.evalPhis(fr, b, prev)
	return x.execFrom(fr, st, b, firstNonPhi(b), reg)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) evalPhis(fr *Frame, b, prev *ssa.BasicBlock) {
	var vals []*Term
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == prev {
				phis = append(phis, p)
				vals = append(vals, x.val(fr, p.Edges[i]))
				break
			}
		}
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (x *Exec) val(fr *Frame, v ssa.Value) *Term {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return mk("glob", v.String(), nil)
	case *ssa.Function:
		return fnTerm(v)
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil)
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
}

var fnByTerm = map[*Term]*ssa.Function{}

func fnTerm(f *ssa.Function) *Term {
	t := mk("fn", f.String(), nil)
	fnByTerm[t] = f
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if v, ok := new(big.Int).SetString(c.Value.ExactString(), 10); ok {
			return mkBig(v)
		}
	}
	return mk("const", c.Value.ExactString(), c.Type())
}

func (x *Exec) execFrom(fr *Frame, st *State, b *ssa.BasicBlock, idx int, reg *natLoop) []Outcome {
	for i := idx; i < len(b.Instrs); i++ {
		x.steps++
		ins := b.Instrs[i]
		switch ins := ins.(type) {
		case *ssa.Jump:
			return x.exec(fr, st, b.Succs[0], b, reg)
		case *ssa.If:
			c := x.val(fr, ins.Cond)
			switch st.decide(c) {
			case 1:
				return x.exec(fr, st, b.Succs[0], b, reg)
			case -1:
				return x.exec(fr, st, b.Succs[1], b, reg)
			}
			x.countPath()
			fr2, st2 := fr.clone(), st.clone()
			st.addFact(c)
			outs := x.exec(fr, st, b.Succs[0], b, reg)
			st2.addFact(notT(c))
			return append(outs, x.exec(fr2, st2, b.Succs[1], b, reg)...)
		case *ssa.Return:
			var rets []*Term
			for _, r := range ins.Results {
				rets = append(rets, x.val(fr, r))
			}
			return []Outcome{{kind: outRet, st: st, fr: fr, rets: rets, pos: ins.Pos()}}
		case *ssa.Panic:
			st.event(&Event{kind: "panic", pos: ins.Pos(), fn: fr.fn, args: []*Term{x.val(fr, ins.X)}})
			x.oblige(fr, st, "panic", ins.Pos(), false, "explicit panic")
			return []Outcome{{kind: outPanic, st: st, fr: fr, pos: ins.Pos()}}
		case *ssa.RunDefers:
			sts := []Outcome{{kind: outRet, st: st, fr: fr}}
			ds := fr.defers
			for j := len(ds) - 1; j >= 0; j-- {
				var next []Outcome
				for _, o := range sts {
					if o.kind != outRet {
						next = append(next, o)
						continue
					}
					for _, r := range x.doCall(o.fr, o.st, ds[j].call, ds[j].fn, ds[j].args, ds[j].pos, ds[j].ins) {
						switch r.kind {
						case outRet:
							next = append(next, Outcome{kind: outRet, st: r.st, fr: o.fr.clone()})
						default:
							r.fr = o.fr
							next = append(next, r)
						}
					}
				}
				sts = next
			}
			var outs []Outcome
			for _, o := range sts {
				if o.kind != outRet {
					outs = append(outs, o)
					continue
				}
				o.fr.defers = nil
				outs = append(outs, x.execFrom(o.fr, o.st, b, i+1, reg)...)
			}
			return outs
		case *ssa.Call:
			fnT, args := x.callee(fr, &ins.Call)
			rs := x.doCall(fr, st, &ins.Call, fnT, args, ins.Pos(), ins)
			if len(rs) == 1 && rs[0].kind == outRet {
				fr.env[ins] = tupleOf(rs[0].rets)
				st = rs[0].st
				continue
			}
			var outs []Outcome
			for j, r := range rs {
				if r.kind != outRet {
					r.fr = fr
					outs = append(outs, r)
					continue
				}
				if j > 0 {
					x.countPath()
				}
				f := fr.clone()
				f.env[ins] = tupleOf(r.rets)
				outs = append(outs, x.execFrom(f, r.st, b, i+1, reg)...)
			}
			return outs
		default:
			rs := x.instr(fr, st, ins)
			if rs == nil {
				continue
			}
			var outs []Outcome
			for j, r := range rs {
				f := fr
				if len(rs) > 1 {
					f = fr.clone()
				}
				if j > 0 {
					x.countPath()
				}
				if v, ok := ins.(ssa.Value); ok {
					f.env[v] = r.val
				}
				outs = append(outs, x.execFrom(f, r.st, b, i+1, reg)...)
			}
			return outs
		}
	}
	panic("block without end")
}

func (x *Exec) countPath() {
	x.paths++
	if x.paths > x.maxPaths {
		panic(tooMany{})
	}
}

func tupleOf(rets []*Term) *Term {
	switch len(rets) {
	case 0:
		return mk("tuple", "", nil)
	case 1:
		return rets[0]
	}
	return mk("tuple", "", nil, rets...)
}

type stepRes struct {
	st  *State
	val *Term
}

func (x *Exec) oblige(fr *Frame, st *State, kind string, pos token.Pos, ok bool, desc string) {
	x.kinds[kind]++
	x.obl = append(x.obl, &Obligation{kind: kind, pos: pos, fn: fr.fn, desc: desc, ok: ok, root: x.root.String()})
}

// instr runs one instruction that is not a call or a jump. nil: done in place.
func (x *Exec) instr(fr *Frame, st *State, ins ssa.Instruction) []stepRes {
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		freshN++
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		a := mk("alloc", fmt.Sprintf("%s#%d", shortType(t), freshN), ins.Type())
		fr.env[ins] = a
		if at, ok := t.Underlying().(*types.Array); ok && isByteType(at.Elem()) {
			st.cont[a] = mkZeros(mkInt(at.Len()))
		}
		return nil
	case *ssa.BinOp:
		fr.env[ins] = x.binop(fr, st, ins)
		return nil
	case *ssa.UnOp:
		return x.unop(fr, st, ins)
	case *ssa.ChangeType:
		fr.env[ins] = x.val(fr, ins.X)
		return nil
	case *ssa.ChangeInterface:
		fr.env[ins] = x.val(fr, ins.X)
		return nil
	case *ssa.Convert:
		fr.env[ins] = x.convert(st, x.val(fr, ins.X), ins.X.Type(), ins.Type())
		return nil
	case *ssa.MultiConvert:
		fr.env[ins] = x.convert(st, x.val(fr, ins.X), ins.X.Type(), ins.Type())
		return nil
	case *ssa.MakeInterface:
		fr.env[ins] = mk("iface", "", ins.X.Type(), x.val(fr, ins.X))
		return nil
	case *ssa.Extract:
		t := x.val(fr, ins.Tuple)
		if t.op == "tuple" {
			fr.env[ins] = t.args[ins.Index]
		} else {
			fr.env[ins] = expand(mk("field", fmt.Sprint(ins.Index), ins.Type(), t), ins.Type())
		}
		return nil
	case *ssa.Field:
		fr.env[ins] = fieldVal(x.val(fr, ins.X), ins.Field, ins.X.Type())
		return nil
	case *ssa.FieldAddr:
		p := x.val(fr, ins.X)
		x.nilCheck(fr, st, p, ins.X.Type(), ins.Pos(), "field "+fieldName(ins))
		fr.env[ins] = mkFaddr(p, ins.Field, ins.X.Type())
		return nil
	case *ssa.IndexAddr:
		p := x.val(fr, ins.X)
		i := x.val(fr, ins.Index)
		switch u := ins.X.Type().Underlying().(type) {
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.boundCheck(fr, st, i, mkInt(at.Len()), ins.Pos())
			fr.env[ins] = mkElem(p, i)
		case *types.Slice:
			obj, off, n, _ := sliceParts(p)
			x.boundCheck(fr, st, i, n, ins.Pos())
			fr.env[ins] = mkElem(obj, addT(off, i))
		default:
			panic("IndexAddr of " + ins.X.Type().String())
		}
		return nil
	case *ssa.Index:
		v := x.val(fr, ins.X)
		i := x.val(fr, ins.Index)
		switch u := ins.X.Type().Underlying().(type) {
		case *types.Array:
			x.boundCheck(fr, st, i, mkInt(u.Len()), ins.Pos())
			if v.op == "arr" {
				fr.env[ins] = st.contAt(v.args[0], i)
			} else if k, ok := i.intVal(); ok && v.op == "struct" && int(k) < len(v.args) {
				fr.env[ins] = v.args[k]
			} else {
				fr.env[ins] = expand(mk("idx", "", u.Elem(), v, i), u.Elem())
			}
		default:
			x.boundCheck(fr, st, i, contentLen(v), ins.Pos())
			fr.env[ins] = st.contAt(v, i)
		}
		return nil
	case *ssa.Lookup:
		return x.lookup(fr, st, ins)
	case *ssa.Slice:
		fr.env[ins] = x.slice(fr, st, ins)
		return nil
	case *ssa.MakeSlice:
		freshN++
		n := x.val(fr, ins.Len)
		x.oblige(fr, st, "make", ins.Pos(), st.proves(mkLe(tZero, n)), fmt.Sprintf("make with length %v", n))
		st.assume(mkLe(tZero, n))
		et := ins.Type().Underlying().(*types.Slice).Elem()
		a := mk("alloc", fmt.Sprintf("[]%s#%d", shortType(et), freshN), ins.Type())
		if isByteType(et) {
			st.cont[a] = mkZeros(n)
		}
		st.event(&Event{kind: "make", pos: ins.Pos(), fn: fr.fn, args: []*Term{a, n}})
		fr.env[ins] = mk("slice", "", ins.Type(), a, tZero, n, x.val(fr, ins.Cap))
		return nil
	case *ssa.MakeMap:
		freshN++
		fr.env[ins] = mk("mkmap", fmt.Sprintf("#%d", freshN), ins.Type())
		return nil
	case *ssa.MakeChan:
		freshN++
		c := mk("mkchan", fmt.Sprintf("#%d", freshN), ins.Type(), x.val(fr, ins.Size))
		st.event(&Event{kind: "mkchan", pos: ins.Pos(), fn: fr.fn, args: []*Term{c, x.val(fr, ins.Size)}})
		fr.env[ins] = c
		return nil
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range ins.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		fn := ins.Fn.(*ssa.Function)
		c := mk("closure", fn.String(), nil, bs...)
		fnByTerm[c] = fn
		fr.env[ins] = c
		return nil
	case *ssa.Store:
		a, v := x.val(fr, ins.Addr), x.val(fr, ins.Val)
		x.nilCheck(fr, st, a, ins.Addr.Type(), ins.Pos(), "store")
		t := ins.Addr.Type().Underlying().(*types.Pointer).Elem()
		if isBufferType(t) {
			x.setBuf(st, a, mkStr(""))
			return nil
		}
		if rootOf(a).op != "alloc" || a.op == "elem" {
			st.event(&Event{kind: "store", pos: ins.Pos(), fn: fr.fn, args: []*Term{a, v}, stack: fr.stack, aux: st.load(a, t)})
		}
		st.store(a, t, v)
		return nil
	case *ssa.MapUpdate:
		m, k, v := x.val(fr, ins.Map), x.val(fr, ins.Key), x.val(fr, ins.Value)
		x.oblige(fr, st, "nil map", ins.Pos(), !isNilT(m) && (!x.mayBeNil(st, m) || st.proves(notT(mkEq(m, mkNil(nil), nil)))), "write to a map that may be nil")
		st.event(&Event{kind: "mapset", pos: ins.Pos(), fn: fr.fn, args: []*Term{m, k, v, mkInt(int64(st.mapVer(m)))}, stack: fr.stack})
		st.mapset(m, k, v)
		return nil
	case *ssa.Send:
		c, v := x.val(fr, ins.Chan), x.val(fr, ins.X)
		st.event(&Event{kind: "send", pos: ins.Pos(), fn: fr.fn, args: []*Term{c, v}, stack: fr.stack, aux: x.contentOfValue(st, v)})
		return nil
	case *ssa.Go:
		f, args := x.callee(fr, &ins.Call)
		st.event(&Event{kind: "go", pos: ins.Pos(), fn: fr.fn, args: append([]*Term{f}, args...), name: calleeName(&ins.Call), stack: fr.stack, aux: &sentValue{st: st.clone()}})
		return nil
	case *ssa.Defer:
		f, args := x.callee(fr, &ins.Call)
		fr.defers = append(fr.defers, deferred{&ins.Call, args, f, ins.Pos(), ins})
		return nil
	case *ssa.Range:
		fr.env[ins] = mk("range", fmt.Sprintf("%d", ins.Pos()), ins.X.Type(), x.val(fr, ins.X))
		return nil
	case *ssa.Next:
		return x.next(fr, st, ins)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, ins)
	case *ssa.Select:
		return x.sel(fr, st, ins)
	case *ssa.SliceToArrayPointer:
		s := x.val(fr, ins.X)
		obj, off, n, _ := sliceParts(s)
		want := ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.oblige(fr, st, "slice", ins.Pos(), st.proves(mkLe(mkInt(want), n)), "slice to array")
		if off == tZero {
			fr.env[ins] = obj
		} else {
			x.give("slice to array pointer at an offset")
			fr.env[ins] = x.nnsym("arrptr", ins.Type())
		}
		return nil
	}
	panic(fmt.Sprintf("instruction %T", ins))
}

func fieldName(ins *ssa.FieldAddr) string {
	s, _ := derefStruct(ins.X.Type())
	return s.Field(ins.Field).Name()
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}

func sliceParts(p *Term) (obj, off, n, c *Term) {
	switch p.op {
	case "slice":
		return p.args[0], p.args[1], p.args[2], p.args[3]
	case "nil":
		return mk("ptr", "", nil, p), tZero, tZero, tZero
	}
	return mk("ptr", "", nil, p), tZero, contentLen(p), mk("cap", "", nil, p)
}

func (x *Exec) boundCheck(fr *Frame, st *State, i, n *Term, pos token.Pos) {
	c1, c2 := mkLe(tZero, i), mkLt(i, n)
	ok := st.proves(c1) && st.proves(c2)
	x.oblige(fr, st, "index", pos, ok, fmt.Sprintf("index %v of %v", i, n))
	st.assume(c1)
	st.assume(c2)
}

func (x *Exec) nilCheck(fr *Frame, st *State, p *Term, t types.Type, pos token.Pos, what string) {
	if nonNilTerm(p) {
		return
	}
	bad := false
	if isNilT(p) {
		bad = true
	} else if x.mayBeNil(st, p) {
		bad = !st.proves(notT(mkEq(p, mkNil(nil), nil)))
	}
	x.oblige(fr, st, "nil", pos, !bad, fmt.Sprintf("%s of %v", what, p))
	if !isNilT(p) {
		st.assume(notT(mkEq(p, mkNil(nil), nil)))
	}
}

// mayBeNil: the pointer comes from a place where nil can be.
func (x *Exec) mayBeNil(st *State, p *Term) bool {
	switch p.op {
	case "mapget":
		// non-nil if the key is known to be there (every value stored is non-nil)
		ok := mk("mapok", p.s, nil, p.args...)
		return st.decide(ok) != 1
	case "ld":
		a := p.args[0]
		if a.op == "faddr" {
			return x.pr.fieldMayBeNil(a.s)
		}
		if a.op == "elem" {
			l, _ := ofList(p)
			return l == nil || !l.taken
		}
		return false
	case "idx":
		// the entries of a directory are there
		if a := p.args[0]; a.op == "sym" && strings.Contains(a.s, ").ReadDir") || a.op == "sym" && strings.Contains(a.s, ").Readdir") {
			return false
		}
		return true
	case "recv0":
		return true
	}
	return false
}

func (x *Exec) slice(fr *Frame, st *State, ins *ssa.Slice) *Term {
	v := x.val(fr, ins.X)
	lo := tZero
	if ins.Low != nil {
		lo = x.val(fr, ins.Low)
	}
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		n := mkInt(u.Elem().Underlying().(*types.Array).Len())
		hi := n
		if ins.High != nil {
			hi = x.val(fr, ins.High)
		}
		x.sliceCheck(fr, st, lo, hi, n, ins.Pos())
		return mk("slice", "", ins.Type(), v, lo, subT(hi, lo), subT(n, lo))
	case *types.Slice:
		obj, off, n, c := sliceParts(v)
		hi := n
		bound := n
		if ins.High != nil {
			hi = x.val(fr, ins.High)
			bound = c
		}
		if ins.Max != nil {
			c = x.val(fr, ins.Max)
			bound = c
		}
		// beyond the length is allowed up to the capacity, but nothing here means to do that
		ok := x.sliceOK(st, lo, hi, n)
		if !ok && bound != n {
			ok = x.sliceOK(st, lo, hi, bound)
		}
		x.oblige(fr, st, "slice", ins.Pos(), ok, fmt.Sprintf("[%v:%v] of %v", lo, hi, n))
		st.assume(mkLe(tZero, lo))
		st.assume(mkLe(lo, hi))
		if isNilT(v) {
			return v
		}
		if lo == tZero && hi == n && ins.Max == nil {
			return v
		}
		return mk("slice", "", ins.Type(), obj, addT(off, lo), subT(hi, lo), subT(c, lo))
	default: // string
		n := contentLen(v)
		hi := n
		if ins.High != nil {
			hi = x.val(fr, ins.High)
		}
		x.sliceCheck(fr, st, lo, hi, n, ins.Pos())
		r := st.contSlice(v, lo, subT(hi, lo))
		if r == nil {
			r = mk("sub", "", nil, v, lo, subT(hi, lo))
		}
		return r
	}
}

func (x *Exec) sliceOK(st *State, lo, hi, n *Term) bool {
	return st.proves(mkLe(tZero, lo)) && st.proves(mkLe(lo, hi)) && st.proves(mkLe(hi, n))
}

func (x *Exec) sliceCheck(fr *Frame, st *State, lo, hi, n *Term, pos token.Pos) {
	x.oblige(fr, st, "slice", pos, x.sliceOK(st, lo, hi, n), fmt.Sprintf("[%v:%v] of %v", lo, hi, n))
	st.assume(mkLe(tZero, lo))
	st.assume(mkLe(lo, hi))
	st.assume(mkLe(hi, n))
}

func (x *Exec) unop(fr *Frame, st *State, ins *ssa.UnOp) []stepRes {
	v := x.val(fr, ins.X)
	switch ins.Op {
	case token.MUL:
		t := ins.Type()
		if v.op == "glob" {
			if g, ok := ins.X.(*ssa.Global); ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
				if types.Implements(t, errorIface()) {
					fr.env[ins] = mk("sym", "nn:"+g.String(), t)
				} else {
					fr.env[ins] = expand(mk("sym", g.String(), t), t)
				}
				return nil
			}
			if r := x.pr.globalConst(v.s); r != nil {
				if _, ok := st.cells[v]; !ok {
					fr.env[ins] = r
					return nil
				}
			}
		}
		x.nilCheck(fr, st, v, ins.X.Type(), ins.Pos(), "load")
		r := st.load(v, t)
		if n, ok := x.pr.infer().constLen[v.s]; ok && v.op == "faddr" && r.op == "ld" {
			if _, isS := t.Underlying().(*types.Slice); isS {
				st.assume(mkEqInt(contentLen(r), mkInt(n)))
			}
		}
		fr.env[ins] = r
		return nil
	case token.NOT:
		fr.env[ins] = notT(v)
		return nil
	case token.SUB:
		w, s, ok := intInfo(ins.Type())
		if !ok {
			fr.env[ins] = mkApp("neg", ins.Type(), v)
			return nil
		}
		fr.env[ins] = x.fit(st, mulC(v, -1), w, s, ins.Type())
		return nil
	case token.XOR:
		w, s, ok := intInfo(ins.Type())
		if ok && v.op == "int" {
			bs := toBits(v, w)
			for i := range bs {
				bs[i].i = 1 - bs[i].i
			}
			fr.env[ins] = fromBits(bs, s)
			return nil
		}
		fr.env[ins] = mkApp("compl", ins.Type(), v)
		return nil
	case token.ARROW:
		et := ins.X.Type().Underlying().(*types.Chan).Elem()
		return x.recv(fr, st, v, et, ins.CommaOk, ins.Pos())
	}
	panic("unop " + ins.Op.String())
}

func (x *Exec) recv(fr *Frame, st *State, ch *Term, et types.Type, commaOk bool, pos token.Pos) []stepRes {
	var out []stepRes
	closable := x.pr.chanMayClose(ch)
	st2 := st.clone()
	r := x.chanElem(st, ch, et, "recv")
	st.event(&Event{kind: "recv", pos: pos, fn: fr.fn, args: []*Term{ch}, res: []*Term{r}, stack: fr.stack})
	if commaOk {
		out = append(out, stepRes{st, mk("tuple", "", nil, r, tTrue)})
	} else {
		out = append(out, stepRes{st, r})
	}
	if closable {
		z := zeroOf(et)
		st2.event(&Event{kind: "recvclosed", pos: pos, fn: fr.fn, args: []*Term{ch}, res: []*Term{z}, stack: fr.stack})
		if commaOk {
			out = append(out, stepRes{st2, mk("tuple", "", nil, z, tFalse)})
		} else {
			out = append(out, stepRes{st2, z})
		}
	}
	return out
}

// chanElem is a value received from a channel, with what holds of every value sent on it.
func (x *Exec) chanElem(st *State, ch *Term, et types.Type, name string) *Term {
	var r *Term
	if _, ok := et.Underlying().(*types.Pointer); ok {
		r = x.nnsym(name, et)
	} else {
		r = x.sym(name, et)
	}
	x.pr.chanInvariant(x, st, ch, r, et)
	return r
}

func (x *Exec) sel(fr *Frame, st *State, ins *ssa.Select) []stepRes {
	var out []stepRes
	var nrecv int
	for _, s := range ins.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	var chans []*Term
	for _, s := range ins.States {
		chans = append(chans, x.val(fr, s.Chan))
	}
	mkTuple := func(idx int, recvOk *Term, vals map[int]*Term) *Term {
		ts := []*Term{mkInt(int64(idx)), recvOk}
		for i, s := range ins.States {
			if s.Dir == types.RecvOnly {
				v := vals[i]
				if v == nil {
					v = zeroOf(s.Chan.Type().Underlying().(*types.Chan).Elem())
				}
				ts = append(ts, v)
			}
		}
		return mk("tuple", "", nil, ts...)
	}
	group := &selInfo{chans: chans, blocking: ins.Blocking}
	for i, s := range ins.States {
		if isNilT(chans[i]) {
			continue
		}
		n := st.clone()
		if s.Dir == types.SendOnly {
			v := x.val(fr, s.Send)
			n.event(&Event{kind: "send", name: "select", pos: s.Pos, fn: fr.fn, args: []*Term{chans[i], v}, stack: fr.stack, aux: x.contentOfValue(n, v), res: nil, loop: nil})
			n.ev.name = "select"
			n.event(&Event{kind: "select", pos: ins.Pos(), fn: fr.fn, args: chans, aux: group, res: []*Term{mkInt(int64(i))}})
			out = append(out, stepRes{n, mkTuple(i, tFalse, nil)})
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		r := x.chanElem(n, chans[i], et, "recv")
		n.event(&Event{kind: "recv", name: "select", pos: s.Pos, fn: fr.fn, args: []*Term{chans[i]}, res: []*Term{r}, stack: fr.stack})
		n.event(&Event{kind: "select", pos: ins.Pos(), fn: fr.fn, args: chans, aux: group, res: []*Term{mkInt(int64(i))}})
		out = append(out, stepRes{n, mkTuple(i, tTrue, map[int]*Term{i: r})})
		if x.pr.chanMayClose(chans[i]) {
			n := st.clone()
			n.event(&Event{kind: "recvclosed", name: "select", pos: s.Pos, fn: fr.fn, args: []*Term{chans[i]}, stack: fr.stack})
			n.event(&Event{kind: "select", pos: ins.Pos(), fn: fr.fn, args: chans, aux: group, res: []*Term{mkInt(int64(i))}})
			out = append(out, stepRes{n, mkTuple(i, tFalse, nil)})
		}
	}
	if !ins.Blocking {
		n := st.clone()
		n.event(&Event{kind: "select", pos: ins.Pos(), fn: fr.fn, args: chans, aux: group, res: []*Term{mkInt(-1)}})
		out = append(out, stepRes{n, mkTuple(-1, tFalse, nil)})
	}
	return out
}

type selInfo struct {
	chans    []*Term
	blocking bool
}

// contentOfValue is what a value that leaves the function points to.
func (x *Exec) contentOfValue(st *State, v *Term) *sentValue {
	s := &sentValue{st: st.clone(), v: v}
	return s
}

type sentValue struct {
	st *State
	v  *Term
}

// mapVer counts the changes a map may have had.
func (st *State) mapVer(m *Term) int {
	if m.op == "mkmap" {
		return st.mapver[m]
	}
	return st.mapver[m] + 1000*st.mapverDefault
}

func (st *State) mapset(m, k, v *Term) {
	st.mapver[m]++
	ws := append([]mapWrite{}, st.mapw[m]...)
	// keys that may be equal are now unknown
	var keep []mapWrite
	for _, w := range ws {
		if w.key != k && st.decide(mkEqAny(w.key, k)) == -1 {
			keep = append(keep, w)
		}
	}
	st.mapw[m] = append(keep, mapWrite{k, v})
}

func mkEqAny(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == "str" && b.op == "str" {
		return tFalse
	}
	if ia, ib := isIntTerm(a), isIntTerm(b); ia || ib {
		return mkEqInt(a, b)
	}
	return mkEq(a, b, nil)
}

func isIntTerm(t *Term) bool {
	switch t.op {
	case "int", "lin", "bits", "sgn", "len", "cap", "in", "wrap":
		return true
	}
	_, _, ok := intInfo(t.t)
	return ok
}

func (st *State) mapget(m, k *Term, vt types.Type) (v, ok *Term) {
	ver := st.mapVer(m)
	ws := st.mapw[m]
	for i := len(ws) - 1; i >= 0; i-- {
		if ws[i].key == k || st.decide(mkEqAny(ws[i].key, k)) == 1 {
			if ws[i].val == nil {
				return zeroOf(vt), tFalse
			}
			return ws[i].val, tTrue
		}
	}
	if m.op == "mkmap" && len(ws) == 0 && ver == 0 {
		return zeroOf(vt), tFalse
	}
	if m.op == "nil" {
		return zeroOf(vt), tFalse
	}
	s := verOf(ver)
	return expand(mk("mapget", s, vt, m, k), vt), mk("mapok", s, nil, m, k)
}

func (x *Exec) lookup(fr *Frame, st *State, ins *ssa.Lookup) []stepRes {
	m, k := x.val(fr, ins.X), x.val(fr, ins.Index)
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		x.boundCheck(fr, st, k, contentLen(m), ins.Pos())
		fr.env[ins] = st.contAt(m, k)
		return nil
	}
	if rs, ok := x.constMap(st, ins, m, k, mt.Elem()); ok {
		return rs
	}
	v, okT := st.mapget(m, k, mt.Elem())
	st.event(&Event{kind: "mapget", pos: ins.Pos(), fn: fr.fn, args: []*Term{m, k}, res: []*Term{v, okT}, stack: fr.stack})
	if ins.CommaOk {
		// the value is zero when the key is not there
		switch st.decide(okT) {
		case 1:
			fr.env[ins] = mk("tuple", "", nil, v, tTrue)
			return nil
		case -1:
			fr.env[ins] = mk("tuple", "", nil, zeroOf(mt.Elem()), tFalse)
			return nil
		}
		n := st.clone()
		st.addFact(okT)
		n.addFact(notT(okT))
		return []stepRes{{st, mk("tuple", "", nil, v, tTrue)}, {n, mk("tuple", "", nil, zeroOf(mt.Elem()), tFalse)}}
	}
	fr.env[ins] = v
	return nil
}

// constMap looks k up in a map whose entries are known: which of them it is
// matters where they are functions.
func (x *Exec) constMap(st *State, ins *ssa.Lookup, m, k *Term, vt types.Type) ([]stepRes, bool) {
	ws := x.pr.infer().maps[m]
	if ws == nil {
		return nil, false
	}
	val := func(v, ok *Term) *Term {
		if ins.CommaOk {
			return mk("tuple", "", nil, v, ok)
		}
		return v
	}
	var may []mapWrite
	for _, w := range ws {
		switch st.decide(mkEqAny(w.key, k)) {
		case 1:
			return []stepRes{{st, val(w.val, tTrue)}}, true
		case 0:
			may = append(may, w)
		}
	}
	if len(may) == 0 {
		return []stepRes{{st, val(zeroOf(vt), tFalse)}}, true
	}
	if _, fn := vt.Underlying().(*types.Signature); !fn || len(may) > 64 {
		return nil, false
	}
	var rs []stepRes
	none := st.clone()
	for _, w := range may {
		n := st.clone()
		if n.assume(mkEqAny(w.key, k)) {
			rs = append(rs, stepRes{n, val(w.val, tTrue)})
		}
		none.addFact(notT(mkEqAny(w.key, k)))
	}
	return append(rs, stepRes{none, val(zeroOf(vt), tFalse)}), true
}

func (x *Exec) next(fr *Frame, st *State, ins *ssa.Next) []stepRes {
	it := x.val(fr, ins.Iter)
	if ins.IsString || it.op != "range" {
		n := st.clone()
		return []stepRes{
			{st, mk("tuple", "", nil, tTrue, x.sym("i", types.Typ[types.Int]), x.sym("rune", types.Typ[types.Rune]))},
			{n, mk("tuple", "", nil, tFalse, tZero, tZero)}}
	}
	m := it.args[0]
	mt := it.t.Underlying().(*types.Map)
	k := x.sym("key", mt.Key())
	done := st.clone()
	v, okT := st.mapget(m, k, mt.Elem())
	st.assume(okT)
	st.event(&Event{kind: "mapnext", pos: ins.Pos(), fn: fr.fn, args: []*Term{m, k}, res: []*Term{v}, stack: fr.stack})
	done.event(&Event{kind: "mapdone", pos: ins.Pos(), fn: fr.fn, args: []*Term{m}})
	return []stepRes{{st, mk("tuple", "", nil, tTrue, k, v)}, {done, mk("tuple", "", nil, tFalse, zeroOf(mt.Key()), zeroOf(mt.Elem()))}}
}

func (x *Exec) typeAssert(fr *Frame, st *State, ins *ssa.TypeAssert) []stepRes {
	v := x.val(fr, ins.X)
	_, toIface := ins.AssertedType.Underlying().(*types.Interface)
	var got *Term
	if v.op == "iface" {
		okk := false
		if toIface {
			okk = types.Implements(v.t, ins.AssertedType.Underlying().(*types.Interface))
			got = v
		} else {
			okk = types.Identical(v.t, ins.AssertedType)
			got = v.args[0]
		}
		if ins.CommaOk {
			if okk {
				fr.env[ins] = mk("tuple", "", nil, got, tTrue)
			} else {
				fr.env[ins] = mk("tuple", "", nil, zeroOf(ins.AssertedType), tFalse)
			}
			return nil
		}
		x.oblige(fr, st, "assert", ins.Pos(), okk, "type assertion")
		fr.env[ins] = got
		return nil
	}
	if toIface && !ins.CommaOk && types.Identical(ins.X.Type(), ins.AssertedType) {
		// what taking a method of an interface as a value checks
		if isNilT(v) {
			x.oblige(fr, st, "nil", ins.Pos(), false, "method of a nil interface")
		} else if x.mayBeNil(st, v) {
			x.oblige(fr, st, "nil", ins.Pos(), st.proves(notT(mkEq(v, mkNil(nil), nil))), fmt.Sprintf("method of %v", v))
		}
		fr.env[ins] = v
		return nil
	}
	if toIface {
		got = v
	} else {
		got = expand(mk("as", typeKey(ins.AssertedType), ins.AssertedType, v), ins.AssertedType)
		if _, ok := ins.AssertedType.Underlying().(*types.Pointer); ok {
			got = mk("app", "nn:as:"+typeKey(ins.AssertedType), ins.AssertedType, v)
		}
	}
	is := mk("istype", typeKey(ins.AssertedType), nil, v)
	if ins.CommaOk {
		if isNilT(v) {
			fr.env[ins] = mk("tuple", "", nil, zeroOf(ins.AssertedType), tFalse)
			return nil
		}
		switch st.decide(is) {
		case 1:
			fr.env[ins] = mk("tuple", "", nil, got, tTrue)
			return nil
		case -1:
			fr.env[ins] = mk("tuple", "", nil, zeroOf(ins.AssertedType), tFalse)
			return nil
		}
		n := st.clone()
		st.addFact(is)
		n.addFact(notT(is))
		return []stepRes{{st, mk("tuple", "", nil, got, tTrue)}, {n, mk("tuple", "", nil, zeroOf(ins.AssertedType), tFalse)}}
	}
	ok := st.proves(is) || x.assertExempt(v, ins.AssertedType, st)
	x.oblige(fr, st, "assert", ins.Pos(), ok, fmt.Sprintf("%v.(%s)", v, typeKey(ins.AssertedType)))
	fr.env[ins] = got
	return nil
}

// assertExempt: FileInfo.Sys of the os package holds the host's stat record.
func (x *Exec) assertExempt(v *Term, t types.Type, st *State) bool {
	return v.op == "app" && strings.HasSuffix(v.s, ".Sys") && strings.HasPrefix(typeKey(t), "*syscall.") &&
		(st.proves(notT(mkEq(v, mkNil(nil), nil))))
}

// ---------- integers

// fit puts a mathematical result into an integer type.
func (x *Exec) fit(st *State, t *Term, w int, signed bool, ty types.Type) *Term {
	r := widthRange(w, signed)
	if within(atomRange(t), r) {
		return t
	}
	if t.op == "int" {
		return fromBits(toBits(t, w), signed)
	}
	if w == 64 && signed {
		return t // lengths and counters do not come near 2^63
	}
	lo := r.lo
	if st.proves(mkLe(mkBig(lo), t)) {
		if w == 64 || st.proves(mkLe(t, mkBig(r.hi))) {
			return t
		}
	}
	return mk("wrap", "", ty, t)
}

func (x *Exec) binop(fr *Frame, st *State, ins *ssa.BinOp) *Term {
	a, b := x.val(fr, ins.X), x.val(fr, ins.Y)
	t := ins.X.Type()
	return x.binopT(fr, st, ins.Op, a, b, t, ins.Type(), ins.Pos())
}

func (x *Exec) binopT(fr *Frame, st *State, op token.Token, a, b *Term, t, rt types.Type, pos token.Pos) *Term {
	w, signed, isInt := intInfo(t)
	switch op {
	case token.EQL:
		return mkEq(a, b, t)
	case token.NEQ:
		return notT(mkEq(a, b, t))
	}
	if !isInt {
		bt, _ := t.Underlying().(*types.Basic)
		if bt != nil && bt.Info()&types.IsString != 0 && op == token.ADD {
			return mkCat(a, b)
		}
		return mkApp("op"+op.String(), rt, a, b)
	}
	switch op {
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLe(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.GEQ:
		return mkLe(b, a)
	case token.ADD:
		if m := mergeBits(a, b, w, signed); m != nil {
			return m
		}
		return x.fit(st, addT(a, b), w, signed, rt)
	case token.SUB:
		return x.fit(st, subT(a, b), w, signed, rt)
	case token.MUL:
		if a.op == "int" {
			a, b = b, a
		}
		if c, ok := b.intVal(); ok {
			if c > 0 && c&(c-1) == 0 && a.op != "lin" {
				n := 0
				for 1<<n != c {
					n++
				}
				// a power of two: a shift, when nothing falls off
				ar := atomRange(a)
				if ar.lo != nil && ar.lo.Sign() >= 0 && ar.hi != nil && ar.hi.BitLen()+n <= w-1 {
					return shiftLeft(a, n, w, signed)
				}
			}
			return x.fit(st, mulC(a, c), w, signed, rt)
		}
		return mkApp("mul", rt, a, b)
	case token.QUO, token.REM:
		x.oblige(fr, st, "div", pos, st.proves(notT(mkEqInt(b, tZero))), "division")
		if a.op == "int" && b.op == "int" && b.k.Sign() != 0 {
			q, r := new(big.Int).QuoRem(a.k, b.k, new(big.Int))
			if op == token.QUO {
				return mkBig(q)
			}
			return mkBig(r)
		}
		if c, ok := b.intVal(); ok && c > 0 && c&(c-1) == 0 {
			ar := atomRange(a)
			if ar.lo != nil && ar.lo.Sign() >= 0 {
				n := 0
				for 1<<n != c {
					n++
				}
				bs := toBits(a, w)
				if op == token.QUO {
					return fromBits(append(append([]bitref{}, bs[n:]...), zeros(n)...), signed)
				}
				return fromBits(append(append([]bitref{}, bs[:n]...), zeros(w-n)...), signed)
			}
		}
		if op == token.QUO {
			return mkApp("div", rt, a, b)
		}
		return mkApp("mod", rt, a, b)
	case token.SHL:
		if n, ok := b.intVal(); ok {
			if n >= int64(w) {
				return tZero
			}
			return shiftLeft(a, int(n), w, signed)
		}
		return mkApp("shl", rt, a, b)
	case token.SHR:
		if n, ok := b.intVal(); ok {
			bs := toBits(a, w)
			var out []bitref
			for i := 0; i < w; i++ {
				switch {
				case i+int(n) < w:
					out = append(out, bs[i+int(n)])
				case signed:
					out = append(out, bs[w-1])
				default:
					out = append(out, bit0())
				}
			}
			return fromBits(out, signed)
		}
		return mkApp("shr", rt, a, b)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		x1, y1 := toBits(a, w), toBits(b, w)
		out := make([]bitref, w)
		for i := range out {
			p, q := x1[i], y1[i]
			r, ok := bitop(op, p, q)
			if !ok {
				if a.id > b.id && op != token.AND_NOT {
					a, b = b, a
				}
				return mkApp("op"+op.String(), rt, a, b)
			}
			out[i] = r
		}
		return fromBits(out, signed)
	}
	return mkApp("op"+op.String(), rt, a, b)
}

func zeros(n int) []bitref {
	r := make([]bitref, n)
	return r
}

func shiftLeft(a *Term, n, w int, signed bool) *Term {
	bs := toBits(a, w)
	out := append(zeros(n), bs[:w-n]...)
	return fromBits(out, signed)
}

func bitop(op token.Token, p, q bitref) (bitref, bool) {
	switch op {
	case token.AND:
		if p.a == nil && p.i == 0 || q.a == nil && q.i == 0 {
			return bit0(), true
		}
		if p.a == nil {
			return q, true
		}
		if q.a == nil || p == q {
			return p, true
		}
	case token.OR:
		if p.a == nil && p.i == 1 || q.a == nil && q.i == 1 {
			return bitref{nil, 1}, true
		}
		if p.a == nil {
			return q, true
		}
		if q.a == nil || p == q {
			return p, true
		}
	case token.XOR:
		if p.a == nil && p.i == 0 {
			return q, true
		}
		if q.a == nil && q.i == 0 {
			return p, true
		}
		if p.a == nil && q.a == nil {
			return bitref{nil, p.i ^ q.i}, true
		}
		if p == q {
			return bit0(), true
		}
	case token.AND_NOT:
		if q.a == nil {
			if q.i == 1 {
				return bit0(), true
			}
			return p, true
		}
		if p.a == nil && p.i == 0 || p == q {
			return bit0(), true
		}
	}
	return bitref{}, false
}

// mergeBits adds numbers that have no bit position in common.
func mergeBits(a, b *Term, w int, signed bool) *Term {
	if a.op == "int" && b.op == "int" {
		return nil
	}
	if a.op == "int" || b.op == "int" || a.op == "lin" || b.op == "lin" {
		return nil
	}
	ra, rb := atomRange(a), atomRange(b)
	if ra.lo == nil || ra.lo.Sign() < 0 || rb.lo == nil || rb.lo.Sign() < 0 {
		return nil
	}
	p, q := toBits(a, w), toBits(b, w)
	out := make([]bitref, w)
	for i := range out {
		switch {
		case p[i].a == nil && p[i].i == 0:
			out[i] = q[i]
		case q[i].a == nil && q[i].i == 0:
			out[i] = p[i]
		default:
			return nil
		}
	}
	return fromBits(out, signed)
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	w, signed, okTo := intInfo(to)
	_, _, okFrom := intInfo(from)
	if okTo && okFrom {
		if within(atomRange(v), widthRange(w, signed)) {
			return v
		}
		r := widthRange(w, signed)
		if v.op != "int" && st.proves(mkLe(mkBig(r.lo), v)) && st.proves(mkLe(v, mkBig(r.hi))) {
			return v
		}
		return fromBits(toBits(v, w), signed)
	}
	fs, _ := from.Underlying().(*types.Slice)
	ts, _ := to.Underlying().(*types.Slice)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fs != nil && isByteType(fs.Elem()) && tb != nil && tb.Info()&types.IsString != 0:
		return x.bytesOf(st, v)
	case fb != nil && fb.Info()&types.IsString != 0 && ts != nil && isByteType(ts.Elem()):
		freshN++
		a := mk("alloc", fmt.Sprintf("bytes#%d", freshN), to)
		st.cont[a] = v
		n := contentLen(v)
		return mk("slice", "", to, a, tZero, n, n)
	case okFrom && tb != nil && tb.Info()&types.IsString != 0:
		return mkApp("string", to, v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return mkApp("conv:"+typeKey(to), to, v)
}

// bytesOf is the content of a byte slice.
func (x *Exec) bytesOf(st *State, v *Term) *Term {
	if isNilT(v) {
		return mkStr("")
	}
	obj, off, n, _ := sliceParts(v)
	c := st.contOf(obj, nil)
	r := st.contSlice(c, off, n)
	if r == nil {
		return mk("sub", "", nil, c, off, n)
	}
	return r
}

// setBytes overwrites a byte slice.
func (x *Exec) setBytes(st *State, v *Term, content *Term) {
	obj, off, _, _ := sliceParts(v)
	c := st.contOf(obj, nil)
	n := st.contOverwrite(c, off, content)
	if n == nil {
		st.havocCont(obj)
		return
	}
	st.cont[obj] = n
}

func isBufferType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && (n.Obj().Name() == "Buffer")
}

var bufEpoch int

func (x *Exec) setBuf(st *State, p, content *Term) {
	freshN++
	obj := mk("alloc", fmt.Sprintf("buf#%d", freshN), nil)
	st.cont[obj] = content
	st.bufs[p] = &bufState{obj: obj, head: tZero}
}

// resetBuf empties a buffer. It keeps its memory, so that a slice of what was
// in it gets to see what is written next.
func (x *Exec) resetBuf(st *State, p *Term) {
	b := x.buf(st, p)
	st.cont[b.obj] = mkStr("")
	b.head = tZero
}

func (x *Exec) buf(st *State, p *Term) *bufState {
	if b, ok := st.bufs[p]; ok {
		return b
	}
	freshN++
	obj := mk("alloc", fmt.Sprintf("buf#%d", freshN), nil)
	if rootOf(p).op == "alloc" {
		st.cont[obj] = mkStr("")
	} else {
		st.cont[obj] = mk("sym", "buf:"+p.String(), nil)
	}
	b := &bufState{obj: obj, head: tZero}
	st.bufs[p] = b
	return b
}

func sortedTerms(m map[*Term]*Term) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

var errIface *types.Interface

func errorIface() *types.Interface {
	if errIface == nil {
		errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	}
	return errIface
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// freshN numbers everything the analysis makes up.
var freshN int
