package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callee(fr *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	f := x.val(fr, c.Value)
	if c.IsInvoke() {
		args = append(args, f)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	return f, args
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return c.Value.Name()
}

func inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if isWrapper(fn) {
		return true
	}
	if p == nil {
		if fn.Origin() != nil && fn.Origin().Pkg != nil {
			p = fn.Origin().Pkg
		} else if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		} else {
			// a wrapper or bound method
			return len(fn.Blocks) > 0
		}
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

// isWrapper: a method bound to its receiver, or taken as a function of it, or
// promoted from an embedded field: the body is a call of the method.
func isWrapper(fn *ssa.Function) bool {
	for _, p := range []string{"bound method wrapper", "thunk for", "wrapper for"} {
		if strings.HasPrefix(fn.Synthetic, p) {
			return len(fn.Blocks) > 0
		}
	}
	return false
}

func ret(st *State, rets ...*Term) Outcome { return Outcome{kind: outRet, st: st, rets: rets} }

func (x *Exec) doCall(fr *Frame, st *State, c *ssa.CallCommon, f *Term, args []*Term, pos token.Pos, ins ssa.Instruction) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, c, args, pos)
	}
	sig := c.Signature()
	if c.IsInvoke() {
		recv := args[0]
		if recv.op == "iface" {
			m := x.pr.SSA.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				a := append([]*Term{recv.args[0]}, args[1:]...)
				return x.callFn(fr, st, m, nil, a, sig, pos)
			}
		}
		if isNilT(recv) {
			x.oblige(fr, st, "nil", pos, false, "method "+c.Method.Name()+" of a nil interface")
			return []Outcome{{kind: outPanic, st: st, pos: pos}}
		}
		if x.mayBeNil(st, recv) {
			x.oblige(fr, st, "nil", pos, st.proves(notT(mkEq(recv, mkNil(nil), nil))), fmt.Sprintf("method %s of %v", c.Method.Name(), recv))
		}
		return x.ext(fr, st, invokeName(c), nil, args, sig, pos, true)
	}
	if fn := c.StaticCallee(); fn != nil {
		var free []*Term
		if f.op == "closure" {
			free = f.args
		}
		return x.callFn(fr, st, fn, free, args, sig, pos)
	}
	if fn := fnByTerm[f]; fn != nil && (f.op == "fn" || f.op == "closure") {
		return x.callFn(fr, st, fn, f.args, args, sig, pos)
	}
	if isNilT(f) {
		x.oblige(fr, st, "nil", pos, false, "call of a nil function")
		return []Outcome{{kind: outPanic, st: st, pos: pos}}
	}
	if x.mayBeNil(st, f) {
		x.oblige(fr, st, "nil", pos, st.proves(notT(mkEq(f, mkNil(nil), nil))), fmt.Sprintf("call of %v", f))
	}
	name := "dyn"
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		name = "dyn:" + n.Obj().Name()
	}
	return x.ext(fr, st, name, nil, append([]*Term{f}, args...), sig, pos, false)
}

func invokeName(c *ssa.CallCommon) string {
	t := types.TypeString(types.Unalias(c.Value.Type()), nil)
	t = strings.TrimPrefix(t, "github.com/Harvey-OS/ninep/")
	return "invoke:" + t + "." + c.Method.Name()
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, free, args []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	repo := inRepo(fn) && len(fn.Blocks) > 0
	if repo && (x.opaque == nil || !x.opaque(fn)) {
		if n := strings.Count(fr.stack, ">"+fn.String()+">"); n > 0 {
			x.give("recursion through " + fn.String())
			return x.ext(fr, st, "repo:"+fn.String(), fn, args, sig, pos, false)
		}
		outs := x.call(fn, st, args, free, fr.stack+">"+fn.String()+">", fr.depth+1)
		return outs
	}
	name := fn.String()
	if inRepo(fn) {
		name = "repo:" + fn.String()
	}
	return x.ext(fr, st, name, fn, args, sig, pos, false)
}

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, pos token.Pos) []Outcome {
	switch b.Name() {
	case "len":
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Map, *types.Chan:
			return []Outcome{ret(st, x.nonneg("len:"+args[0].String()))}
		case *types.Pointer:
			at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return []Outcome{ret(st, mkInt(at.Len()))}
		case *types.Array:
			return []Outcome{ret(st, mkInt(c.Args[0].Type().Underlying().(*types.Array).Len()))}
		}
		return []Outcome{ret(st, contentLen(args[0]))}
	case "cap":
		if args[0].op == "slice" {
			return []Outcome{ret(st, args[0].args[3])}
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
			return []Outcome{ret(st, x.nonneg("cap:"+args[0].String()))}
		}
		return []Outcome{ret(st, mk("cap", "", nil, args[0]))}
	case "append":
		return []Outcome{ret(st, x.appendT(fr, st, c, args))}
	case "copy":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if !isByteType(et) {
			obj, _, _, _ := sliceParts(args[0])
			x.havocObj(st, obj)
			return []Outcome{ret(st, x.sym("copied", types.Typ[types.Int]))}
		}
		var src *Term
		if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
			src = x.bytesOf(st, args[1])
		} else {
			src = args[1]
		}
		_, _, dn, _ := sliceParts(args[0])
		sn := contentLen(src)
		n := sn
		switch st.decide(mkLe(sn, dn)) {
		case 1:
		case -1:
			n = dn
			if s := st.contSlice(src, tZero, dn); s != nil {
				src = s
			} else {
				src = x.sym("copied", nil)
			}
		default:
			// either: take them apart
			st2 := st.clone()
			st.addFact(mkLe(sn, dn))
			st2.addFact(notT(mkLe(sn, dn)))
			x.setBytes(st, args[0], src)
			s2 := st2.contSlice(src, tZero, dn)
			if s2 == nil {
				s2 = mk("sub", "", nil, src, tZero, dn)
			}
			x.setBytes(st2, args[0], s2)
			return []Outcome{ret(st, sn), ret(st2, dn)}
		}
		x.storeEvent(fr, st, args[0], src, pos)
		x.setBytes(st, args[0], src)
		return []Outcome{ret(st, n)}
	case "delete":
		m, k := args[0], args[1]
		st.event(&Event{kind: "mapdel", pos: pos, fn: fr.fn, args: []*Term{m, k}, stack: fr.stack})
		st.mapset(m, k, nil)
		return []Outcome{ret(st)}
	case "clear":
		m := args[0]
		st.event(&Event{kind: "mapclear", pos: pos, fn: fr.fn, args: []*Term{m}, stack: fr.stack})
		st.mapver[m]++
		delete(st.mapw, m)
		return []Outcome{ret(st)}
	case "close":
		st.event(&Event{kind: "close", pos: pos, fn: fr.fn, args: args, stack: fr.stack, aux: &sentValue{st: st.clone()}})
		return []Outcome{ret(st)}
	case "print", "println":
		return []Outcome{ret(st)}
	case "recover":
		return []Outcome{ret(st, mkNil(nil))}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch st.decide(mkLe(r, a)) {
			case 1:
				if b.Name() == "max" {
					r = a
				}
				continue
			case -1:
				if b.Name() == "min" {
					r = a
				}
				continue
			}
			if len(args) == 2 {
				st2 := st.clone()
				st.addFact(mkLe(args[0], args[1]))
				st2.addFact(notT(mkLe(args[0], args[1])))
				lo, hi := args[0], args[1]
				if b.Name() == "min" {
					return []Outcome{ret(st, lo), ret(st2, hi)}
				}
				return []Outcome{ret(st, hi), ret(st2, lo)}
			}
			m := x.sym(b.Name(), c.Args[0].Type())
			for _, a := range args {
				if b.Name() == "min" {
					st.addFact(mkLe(m, a))
				} else {
					st.addFact(mkLe(a, m))
				}
			}
			return []Outcome{ret(st, m)}
		}
		return []Outcome{ret(st, r)}
	case "ssa:wrapnilchk":
		return []Outcome{ret(st, args[0])}
	}
	panic("builtin " + b.Name())
}

func (x *Exec) storeEvent(fr *Frame, st *State, dst, src *Term, pos token.Pos) {
	obj, off, _, _ := sliceParts(dst)
	if rootOf(obj).op != "alloc" {
		st.event(&Event{kind: "copy", pos: pos, fn: fr.fn, args: []*Term{obj, off, src}})
	}
}

func (x *Exec) nonneg(name string) *Term {
	freshN++
	return mkApp("nonneg", types.Typ[types.Int], mkSym(fmt.Sprintf("%s#%d", name, freshN), nil))
}

func (x *Exec) havocObj(st *State, obj *Term) {
	freshN++
	st.havoc[obj] = freshN
	for c := range st.cells {
		for a := c; ; a = a.args[0] {
			if a == obj {
				delete(st.cells, c)
				break
			}
			if a.op != "faddr" && a.op != "elem" {
				break
			}
		}
	}
	delete(st.cont, obj)
}

func (x *Exec) appendT(fr *Frame, st *State, c *ssa.CallCommon, args []*Term) *Term {
	st0, _ := c.Args[0].Type().Underlying().(*types.Slice)
	et := st0.Elem()
	freshN++
	if isByteType(et) {
		var add *Term
		if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
			add = x.bytesOf(st, args[1])
		} else {
			add = args[1]
		}
		old := x.bytesOf(st, args[0])
		if contentLen(add) == tZero {
			return args[0]
		}
		kind := "append"
		if _, _, _, room := sliceParts(args[0]); room == tZero {
			kind = "clone" // there is nothing to append in place
		}
		a := mk("alloc", fmt.Sprintf("%s#%d", kind, freshN), c.Args[0].Type())
		st.cont[a] = mkCat(old, add)
		n := contentLen(st.cont[a])
		return mk("slice", "", c.Args[0].Type(), a, tZero, n, n)
	}
	// element by element, when the counts are known
	_, _, n1, _ := sliceParts(args[0])
	o2, off2, n2, _ := sliceParts(args[1])
	if isNilT(args[1]) || n2 == tZero {
		return args[0]
	}
	k2, ok2 := n2.intVal()
	if o1, off1, _, _ := sliceParts(args[0]); listTab[o1] != nil && off1 == tZero && ok2 && k2 <= 32 && !anyElem(st, o1, n1, k2) {
		// a list that a loop builds grows where it is
		for i := int64(0); i < k2; i++ {
			v := st.load(mkElem(o2, addC(off2, i)), et)
			st.store(mkElem(o1, addC(n1, i)), et, v)
			st.event(&Event{kind: "append", fn: fr.fn, args: []*Term{args[0], o1, addC(n1, i), v}})
		}
		n := addT(n1, n2)
		return mk("slice", "", c.Args[0].Type(), o1, tZero, n, mk("cap", "", nil, mkSym(fmt.Sprintf("list#%d", freshN), nil)))
	}
	a := mk("alloc", fmt.Sprintf("append#%d", freshN), c.Args[0].Type())
	if k1, ok := n1.intVal(); ok && k1 <= 32 {
		o1, off1, _, _ := sliceParts(args[0])
		for i := int64(0); i < k1; i++ {
			st.store(mkElem(a, mkInt(i)), et, st.load(mkElem(o1, addC(off1, i)), et))
		}
	} else {
		freshN++
		st.havoc[a] = freshN
	}
	x.appended()[a] = args[0]
	if ok2 && k2 <= 32 {
		for i := int64(0); i < k2; i++ {
			v := st.load(mkElem(o2, addC(off2, i)), et)
			st.store(mkElem(a, addC(n1, i)), et, v)
			st.event(&Event{kind: "append", fn: fr.fn, args: []*Term{args[0], a, addC(n1, i), v}})
		}
	} else {
		freshN++
		st.havoc[a] = freshN
	}
	n := addT(n1, n2)
	return mk("slice", "", c.Args[0].Type(), a, tZero, n, n)
}

var appendedTab = map[*Term]*Term{}

// listTab has the objects that stand for a list a loop builds by appending to it.
var listTab = map[*Term]*listInfo{}

type listInfo struct {
	mayNil bool      // a list without elements is nil
	h      int       // the memory of the list in the loop and after it
	loop   *LoopInfo // the loop that made all of it
	vals   [][]*Term // what each kind of turn appends
	nonNil bool      // nothing in it is nil
	taken  bool      // nothing in it is nil, if what is taken not to be nil is not
}

// ofList: the list a loop made that v is an element of, and which.
func ofList(v *Term) (*listInfo, *Term) {
	if v.op == "ld" && v.args[0].op == "elem" {
		if l := listTab[v.args[0].args[0]]; l != nil && l.loop != nil && v.s == fmt.Sprintf("h%d", l.h) {
			return l, v.args[0].args[1]
		}
	}
	return nil, nil
}

// anyElem: something is known to be at one of the k places from n.
func anyElem(st *State, obj, n *Term, k int64) bool {
	for c := range st.cells {
		for a := c; a.op == "faddr" || a.op == "elem"; a = a.args[0] {
			if a.op == "elem" && a.args[0] == obj {
				if d, ok := subT(a.args[1], n).intVal(); !ok || d >= 0 {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) appended() map[*Term]*Term { return appendedTab }
