package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock discipline: a must-lockset dataflow over the SSA form of every function,
// with summaries for calls. It does not use the abstract interpreter.

func init() {
	register(&Check{id: "C23", title: "shared state is used under its lock",
		rules: "guarded: each field of a struct with a mutex that is stored to, or whose map or slice is changed, once the object is shared, is read and written with the mutex of the same object held on every path, writes with the write lock; atomic: or else by atomic operations only; captured: no variable shared with a goroutine by capture is stored to after that goroutine was started; handed: a field of a struct without a mutex, which others use, is not stored to after the object was given to a goroutine",
		not:   []string{"fields whose name a user of the package uses directly", "structs without a mutex, which one goroutine owns: C24 and C06 have those"},
		run:   checkLocks})
}

type lockset map[string]string // lock -> R or W

func (l lockset) clone() lockset {
	r := lockset{}
	for k, v := range l {
		r[k] = v
	}
	return r
}

// meet keeps what both hold.
func meet(a, b lockset) lockset {
	r := lockset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if w == "R" {
				v = "R"
			}
			r[k] = v
		}
	}
	return r
}

func eqLocks(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

type lockAn struct {
	pr    *Program
	fns   []*ssa.Function
	in    map[*ssa.Function]lockset // held at entry, nil: not known to be called
	fresh map[*ssa.Function]map[string]bool
	exit  map[*ssa.Function]lockset // held at exit beyond entry
	rel   map[*ssa.Function]map[string]bool
	keys  map[ssa.Value]string
	sites map[*ssa.Function][]callSite
	dynTo map[ssa.Instruction][]*ssa.Function
	under map[*ssa.Function]map[int]lockset // what is held where a parameter is called
}

type callSite struct {
	caller *ssa.Function
	ins    ssa.Instruction
	common *ssa.CallCommon
	kind   string // call, defer, go
}

// key names the object a value stands for, within its function.
func (a *lockAn) key(v ssa.Value) string {
	if k, ok := a.keys[v]; ok {
		return k
	}
	a.keys[v] = "?" // recursion
	k := ""
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				k = fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				k = fmt.Sprintf("f%d", i)
			}
		}
	case *ssa.Global:
		k = "g:" + x.String()
	case *ssa.FieldAddr:
		k = a.key(x.X) + "." + nameOfField(x.X.Type(), x.Field)
	case *ssa.Field:
		k = a.key(x.X) + "." + nameOfField(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// the variable a parameter was put into because it is captured
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					k = a.key(s)
					break
				}
			}
			k = "*" + a.key(x.X)
		}
	case *ssa.ChangeType:
		k = a.key(x.X)
	case *ssa.Phi:
		same := ""
		ok := true
		for _, e := range x.Edges {
			ke := a.key(e)
			if same == "" {
				same = ke
			}
			if ke != same {
				ok = false
			}
		}
		if ok && same != "" && same != "?" {
			k = same
		}
	}
	if k == "" {
		k = "v:" + v.Name()
		if v.Parent() != nil {
			k += "@" + v.Parent().String()
		}
	}
	a.keys[v] = k
	return k
}

// onlyStore is the one value a variable gets, if it is one.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *al.Referrers() {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr == al {
				if v != nil {
					return nil
				}
				v = s.Val
			} else {
				return nil
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// stored to by the closure?
			f := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b == al && storesTo(f.FreeVars[i]) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	if _, ok := v.(*ssa.Parameter); ok {
		return v
	}
	if _, ok := v.(*ssa.Alloc); ok {
		return v
	}
	return nil
}

func storesTo(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			f := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b == v && storesTo(f.FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

func nameOfField(t types.Type, i int) string {
	if s, _ := derefStruct(t); s != nil {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

// lockOp: the call takes or releases a mutex.
func (a *lockAn) lockOp(c *ssa.CallCommon) (lock, op string) {
	name, key := a.boundMethod(c.Value)
	if name == "" {
		f := c.StaticCallee()
		if f == nil || len(c.Args) == 0 {
			return "", ""
		}
		name = f.String()
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		op = "W"
	case "(*sync.RWMutex).RLock":
		op = "R"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		op = "U"
	default:
		return "", ""
	}
	if key == "" {
		key = a.key(c.Args[0])
	}
	return key, op
}

// boundMethod: the method and the key of the receiver, for a method bound to a
// receiver, here or by the function that returns it.
func (a *lockAn) boundMethod(v ssa.Value) (name, key string) {
	switch m := v.(type) {
	case *ssa.MakeClosure:
		f := m.Fn.(*ssa.Function)
		if o, ok := f.Object().(*types.Func); ok && strings.HasSuffix(f.Name(), "$bound") {
			return o.FullName(), a.key(m.Bindings[0])
		}
	case *ssa.Call:
		g := m.Call.StaticCallee()
		if g == nil || g.Blocks == nil || g.Signature.Results().Len() != 1 {
			return "", ""
		}
		for _, b := range g.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if _, again := r.Results[0].(*ssa.Call); again {
				return "", ""
			}
			n, k := a.boundMethod(r.Results[0])
			if n == "" || name != "" && (n != name || k != key) {
				return "", ""
			}
			name, key = n, k
		}
		if name == "" {
			return "", ""
		}
		if key = a.up(&m.Call, g, key); key == "" {
			return "", ""
		}
		return name, key
	}
	return "", ""
}

// translate a lock of the callee into one of the caller.
func (a *lockAn) up(c *ssa.CallCommon, callee *ssa.Function, k string) string {
	pre := strings.TrimLeft(k, "*")
	stars := k[:len(k)-len(pre)]
	dot := strings.Index(pre, ".")
	root, rest := pre, ""
	if dot >= 0 {
		root, rest = pre[:dot], pre[dot:]
	}
	if strings.HasPrefix(root, "g:") {
		return k
	}
	for i := range callee.Params {
		if root == fmt.Sprintf("p%d", i) && i < len(c.Args) {
			return stars + a.key(c.Args[i]) + rest
		}
	}
	if m, ok := c.Value.(*ssa.MakeClosure); ok {
		for i, b := range m.Bindings {
			if root == fmt.Sprintf("f%d", i) {
				// a captured variable: its value
				if al, ok := b.(*ssa.Alloc); ok && stars != "" {
					if s := onlyStore(al); s != nil {
						return stars[1:] + a.key(s) + rest
					}
				}
				return stars + a.key(b) + rest
			}
		}
	}
	return ""
}

// down translates the locks held at a call into those the callee knows.
func (a *lockAn) down(c *ssa.CallCommon, callee *ssa.Function, l lockset) lockset {
	r := lockset{}
	for k, v := range l {
		if strings.HasPrefix(k, "g:") {
			r[k] = v
		}
		try := func(prefix, name string) {
			if strings.HasPrefix(k, prefix) {
				r[name+k[len(prefix):]] = v
			}
		}
		for i, arg := range c.Args {
			if i < len(callee.Params) {
				try(a.key(arg)+".", fmt.Sprintf("p%d.", i))
			}
		}
		if m, ok := c.Value.(*ssa.MakeClosure); ok {
			for i, b := range m.Bindings {
				if al, ok := b.(*ssa.Alloc); ok {
					if s := onlyStore(al); s != nil {
						try(a.key(s)+".", fmt.Sprintf("*f%d.", i))
						continue
					}
				}
				try("*"+a.key(b)+".", fmt.Sprintf("*f%d.", i))
				try(a.key(b)+".", fmt.Sprintf("f%d.", i))
			}
		}
	}
	return r
}

func (a *lockAn) after(c *ssa.CallCommon, l lockset) lockset {
	if k, op := a.lockOp(c); op != "" {
		l = l.clone()
		if op == "U" {
			delete(l, k)
		} else {
			l[k] = op
		}
		return l
	}
	f := c.StaticCallee()
	if f == nil || f.Blocks == nil {
		return l
	}
	if len(a.exit[f]) > 0 || len(a.rel[f]) > 0 {
		l = l.clone()
		for k := range a.rel[f] {
			if u := a.up(c, f, k); u != "" {
				delete(l, u)
			}
		}
		for k, v := range a.exit[f] {
			if u := a.up(c, f, k); u != "" {
				l[u] = v
			}
		}
	}
	return l
}

// flow runs the dataflow over one function and calls visit at each instruction
// with what is held before it.
func (a *lockAn) flow(f *ssa.Function, entry lockset, visit func(ssa.Instruction, lockset)) lockset {
	in := map[*ssa.BasicBlock]lockset{f.Blocks[0]: entry}
	var defers []*ssa.Defer
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	var exit lockset
	step := func(b *ssa.BasicBlock, l lockset, visit func(ssa.Instruction, lockset)) lockset {
		for _, i := range b.Instrs {
			if visit != nil {
				visit(i, l)
			}
			switch c := i.(type) {
			case *ssa.Call:
				l = a.after(&c.Call, l)
			case *ssa.RunDefers:
				for k := len(defers) - 1; k >= 0; k-- {
					if visit != nil {
						visit(defers[k], l)
					}
					l = a.after(&defers[k].Call, l)
				}
			case *ssa.Return:
				if visit != nil {
					if exit == nil {
						exit = l.clone()
					} else {
						exit = meet(exit, l)
					}
				}
			}
		}
		return l
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		out := step(b, in[b], nil)
		for _, s := range b.Succs {
			n := out
			if o, ok := in[s]; ok {
				n = meet(o, out)
				if eqLocks(n, o) {
					continue
				}
			}
			in[s] = n.clone()
			work = append(work, s)
		}
	}
	for _, b := range f.Blocks {
		if l, ok := in[b]; ok {
			step(b, l, visit)
		}
	}
	return exit
}

func (c *Ctx) lockAnalysis() *lockAn {
	a := &lockAn{pr: c.pr, in: map[*ssa.Function]lockset{}, fresh: map[*ssa.Function]map[string]bool{}, exit: map[*ssa.Function]lockset{}, rel: map[*ssa.Function]map[string]bool{}, keys: map[ssa.Value]string{}, sites: map[*ssa.Function][]callSite{}}
	for _, f := range c.pr.All {
		if f.Blocks != nil && !strings.HasSuffix(c.pr.SSA.Fset.Position(f.Pos()).Filename, "_test.go") {
			a.fns = append(a.fns, f)
		}
	}
	inRepo := map[*ssa.Function]bool{}
	for _, f := range a.fns {
		inRepo[f] = true
	}
	// call sites, and functions that are used as values
	asValue := map[*ssa.Function]bool{}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var com *ssa.CallCommon
				kind := ""
				switch x := i.(type) {
				case *ssa.Call:
					com, kind = &x.Call, "call"
				case *ssa.Defer:
					com, kind = &x.Call, "defer"
				case *ssa.Go:
					com, kind = &x.Call, "go"
				}
				var callee *ssa.Function
				if com != nil {
					if callee = com.StaticCallee(); callee != nil && inRepo[callee] {
						a.sites[callee] = append(a.sites[callee], callSite{f, i, com, kind})
					}
				}
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						if com == nil || com.Value != v || com.IsInvoke() {
							if _, mc := i.(*ssa.MakeClosure); !mc {
								asValue[v] = true
							}
						}
					case *ssa.MakeClosure:
						if com == nil || com.Value != v {
							asValue[v.Fn.(*ssa.Function)] = true
						}
					}
				}
			}
		}
	}
	// Functions used as values that take an object of a struct with a lock:
	// they are called where a value of their signature is called.
	dyn := map[*ssa.Function]bool{}
	a.dynTo = map[ssa.Instruction][]*ssa.Function{}
	for f := range asValue {
		if !inRepo[f] || len(f.Params) == 0 || f.Object() != nil && f.Object().Exported() {
			continue
		}
		p, ok := f.Params[0].Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if n, ok := types.Unalias(p.Elem()).(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			continue
		}
		found := false
		for _, g := range a.fns {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					x, ok := i.(*ssa.Call)
					if !ok || x.Call.IsInvoke() || x.Call.StaticCallee() != nil {
						continue
					}
					if sg, ok := x.Call.Value.Type().Underlying().(*types.Signature); ok && types.Identical(sg, f.Signature) {
						found = true
						a.dynTo[i] = append(a.dynTo[i], f)
					}
				}
			}
		}
		dyn[f] = found
	}
	invoked := map[string]bool{}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					invoked[ci.Common().Method.Name()] = true
				}
			}
		}
	}
	// not exported, and nothing uses it
	dead := func(f *ssa.Function) bool {
		return f.Parent() == nil && f.Object() != nil && !f.Object().Exported() && f.Name() != "main" && f.Name() != "init" &&
			f.Synthetic == "" && !asValue[f] && !(f.Signature.Recv() != nil && invoked[f.Name()])
	}
	// closures that are only given to functions that call them before they return
	handed := map[*ssa.Function]bool{}
	for f := range asValue {
		handed[f] = inRepo[f] && f.Parent() != nil && a.onlyHanded(f, inRepo)
	}
	open := func(f *ssa.Function) bool {
		if dyn[f] || handed[f] {
			return false
		}
		if asValue[f] || len(a.sites[f]) == 0 && !dead(f) {
			return true
		}
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			return true
		}
		return false
	}
	// what calls change
	for changed, n := true, 0; changed && n < 20; n++ {
		changed = false
		for _, f := range a.fns {
			rel := map[string]bool{}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var com *ssa.CallCommon
					switch x := i.(type) {
					case *ssa.Call:
						com = &x.Call
					case *ssa.Defer:
						com = &x.Call
					}
					if com == nil {
						continue
					}
					if k, op := a.lockOp(com); op == "U" {
						rel[k] = true
					}
					if g := com.StaticCallee(); g != nil {
						for k := range a.rel[g] {
							if u := a.up(com, g, k); u != "" {
								rel[u] = true
							}
						}
					}
				}
			}
			ex := a.flow(f, lockset{}, func(ssa.Instruction, lockset) {})
			if !eqLocks(ex, a.exit[f]) || len(rel) != len(a.rel[f]) {
				a.exit[f], a.rel[f] = ex, rel
				changed = true
			}
		}
	}
	// what is held at entry, and which objects no other goroutine has yet
	top := map[*ssa.Function]bool{}
	for _, f := range a.fns {
		if open(f) {
			a.in[f], a.fresh[f] = lockset{}, map[string]bool{}
		} else {
			top[f] = true
		}
	}
	for n := 0; n < 30; n++ {
		nin := map[*ssa.Function]lockset{}
		nfr := map[*ssa.Function]map[string]bool{}
		for _, f := range a.fns {
			if a.in[f] == nil {
				continue
			}
			a.flow(f, a.in[f], func(i ssa.Instruction, l lockset) {
				var com *ssa.CallCommon
				kind := ""
				switch x := i.(type) {
				case *ssa.Call:
					com, kind = &x.Call, "call"
				case *ssa.Defer:
					com, kind = &x.Call, "defer"
				case *ssa.Go:
					com, kind = &x.Call, "go"
				}
				if com == nil {
					return
				}
				gs := a.dynTo[i]
				if g := com.StaticCallee(); g != nil {
					gs = []*ssa.Function{g}
				}
				for k, arg := range com.Args {
					g, fake := closureOf(arg)
					if g == nil || !handed[g] || !top[g] {
						continue
					}
					d := a.down(fake, g, a.heldInside(com, k, l))
					for n, v := range a.heldInside(com, k, lockset{}) {
						if strings.HasPrefix(n, "@") {
							d[n[1:]] = v
						}
					}
					if o, ok := nin[g]; ok {
						d = meet(o, d)
					}
					nin[g], nfr[g] = d, map[string]bool{}
				}
				for _, g := range gs {
					if !top[g] {
						continue
					}
					d := lockset{}
					fr := map[string]bool{}
					if kind != "go" {
						d = a.down(com, g, l)
						for k, arg := range com.Args {
							if a.isFresh(f, arg, i) {
								fr[fmt.Sprintf("p%d", k)] = true
							}
						}
					}
					if o, ok := nin[g]; ok {
						nin[g] = meet(o, d)
						for k := range nfr[g] {
							if !fr[k] {
								delete(nfr[g], k)
							}
						}
					} else {
						nin[g], nfr[g] = d, fr
					}
				}
			})
		}
		changed := false
		for f := range top {
			if nin[f] == nil {
				continue
			}
			if a.in[f] == nil || !eqLocks(a.in[f], nin[f]) || len(a.fresh[f]) != len(nfr[f]) {
				a.in[f], a.fresh[f] = nin[f], nfr[f]
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return a
}

// closureOf is the function literal that a value is, with a call that has its
// bindings.
func closureOf(v ssa.Value) (*ssa.Function, *ssa.CallCommon) {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function), &ssa.CallCommon{Value: x}
	case *ssa.Function:
		if x.Parent() != nil {
			return x, &ssa.CallCommon{Value: x}
		}
	case *ssa.ChangeType:
		return closureOf(x.X)
	}
	return nil, nil
}

// callsNow: functions outside the repository that call what they are given
// before they return, and keep it no longer.
func callsNow(f *ssa.Function) bool {
	if f.String() == "(*sync.Once).Do" || f.String() == "(*sync.Map).Range" {
		return true
	}
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "sort", "strings", "bytes", "slices":
		return !strings.HasSuffix(f.Signature.Results().String(), "Seq")
	}
	return false
}

// onlyHanded: the literal is only an argument of calls that call it before they
// return.
func (a *lockAn) onlyHanded(f *ssa.Function, inRepo map[*ssa.Function]bool) bool {
	n := 0
	for _, g := range a.fns {
		if g != f.Parent() {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				uses := false
				for _, op := range i.Operands(nil) {
					if h, _ := closureOf(*op); *op != nil && h == f {
						uses = true
					}
				}
				if _, mc := i.(*ssa.MakeClosure); !uses || mc {
					continue
				}
				if _, dbg := i.(*ssa.DebugRef); dbg {
					continue
				}
				var com *ssa.CallCommon
				switch x := i.(type) {
				case *ssa.Call:
					com = &x.Call
				case *ssa.Defer:
					com = &x.Call
				default:
					return false
				}
				h := com.StaticCallee()
				if h == nil {
					return false
				}
				if l, _ := closureOf(com.Value); l == f {
					return false
				}
				for k, arg := range com.Args {
					if l, _ := closureOf(arg); l == f {
						n++
						if !(callsNow(h) || inRepo[h] && a.paramCalled(h, k, 0)) {
							return false
						}
					}
				}
			}
		}
	}
	return n > 0
}

// paramCalled: the function does nothing with this parameter but call it, or hand it
// on to one that does.
func (a *lockAn) paramCalled(g *ssa.Function, k int, depth int) bool {
	if k >= len(g.Params) || depth > 6 {
		return false
	}
	for _, r := range *g.Params[k].Referrers() {
		var com *ssa.CallCommon
		switch x := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.BinOp: // compared with nil
			continue
		case *ssa.Call:
			com = &x.Call
		case *ssa.Defer:
			com = &x.Call
		default:
			return false
		}
		for j, arg := range com.Args {
			if arg != g.Params[k] {
				continue
			}
			h := com.StaticCallee()
			if h == nil || !(callsNow(h) || h.Blocks != nil && a.paramCalled(h, j, depth+1)) {
				return false
			}
		}
	}
	return true
}

// heldInside is what is held, in the caller's terms, where the callee calls its
// argument k; what the argument gets itself is named with an @.
func (a *lockAn) heldInside(com *ssa.CallCommon, k int, l lockset) lockset {
	g := com.StaticCallee()
	r := l.clone()
	if g == nil || g.Blocks == nil || callsNow(g) {
		return r
	}
	for n := range a.rel[g] {
		if u := a.up(com, g, n); u != "" {
			delete(r, u)
		}
	}
	for n, v := range a.calledUnder(g, k) {
		if strings.HasPrefix(n, "@") {
			r[n] = v
		} else if u := a.up(com, g, n); u != "" {
			r[u] = v
		}
	}
	return r
}

func (a *lockAn) calledUnder(g *ssa.Function, k int) lockset {
	if a.under == nil {
		a.under = map[*ssa.Function]map[int]lockset{}
	}
	if m := a.under[g]; m == nil {
		a.under[g] = map[int]lockset{}
	} else if l, ok := m[k]; ok {
		return l
	}
	a.under[g][k] = lockset{}
	var res lockset
	add := func(l lockset) {
		if res == nil {
			res = l
		} else {
			res = meet(res, l)
		}
	}
	a.flow(g, lockset{}, func(i ssa.Instruction, l lockset) {
		var com *ssa.CallCommon
		switch x := i.(type) {
		case *ssa.Call:
			com = &x.Call
		case *ssa.Defer:
			com = &x.Call
		default:
			return
		}
		if com.Value == g.Params[k] && !com.IsInvoke() {
			m := l.clone()
			for j, arg := range com.Args {
				pre := a.key(arg) + "."
				for n, v := range l {
					if strings.HasPrefix(n, pre) {
						m[fmt.Sprintf("@p%d.", j)+n[len(pre):]] = v
					}
				}
			}
			add(m)
		}
		for j, arg := range com.Args {
			if arg == g.Params[k] {
				add(a.heldInside(com, j, l))
			}
		}
	})
	if res == nil {
		res = lockset{}
	}
	a.under[g][k] = res
	return res
}

// isFresh: at this instruction no other goroutine has the object yet.
func (a *lockAn) isFresh(f *ssa.Function, v ssa.Value, at ssa.Instruction) bool {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if s := onlyStore(al); s != nil {
					v = s
					continue
				}
			}
		}
		break
	}
	ok := false
	switch x := v.(type) {
	case *ssa.Alloc:
		ok = true
	case *ssa.Parameter:
		ok = a.fresh[f][a.key(x)]
	}
	if !ok {
		return false
	}
	// no goroutine was started before
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if g, isGo := i.(*ssa.Go); isGo && i != at && flowsTo(g, at) {
				return false
			}
		}
	}
	return true
}

// flowsTo: control can go from one instruction to the other.
func flowsTo(from, to ssa.Instruction) bool {
	if from.Block() == to.Block() {
		for _, i := range from.Block().Instrs {
			if i == from {
				return true
			}
			if i == to {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Block().Succs...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == to.Block() {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}

type access struct {
	fn     *ssa.Function
	ins    ssa.Instruction
	base   ssa.Value
	field  string
	owner  *types.Named
	write  bool
	atomic bool
	held   string // "", R or W
	fresh  bool
}

func checkLocks(c *Ctx) {
	a := c.lockAnalysis()
	mutexOf := map[*types.Named]string{}
	named := func(t types.Type) *types.Named {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, _ := types.Unalias(t).(*types.Named)
		return n
	}
	for _, path := range sortedPkgs(c.pr) {
		sc := c.pr.TPkgs[path].Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if s := st.Field(i).Type().String(); s == "sync.Mutex" || s == "sync.RWMutex" {
					mutexOf[n] = st.Field(i).Name()
				}
			}
		}
	}
	c.want(len(mutexOf) >= 3, "guarded", token.NoPos, nil, "only %d structs have a mutex: the client, the listener and the file server had", len(mutexOf))
	var accs []*access
	for _, f := range a.fns {
		if a.in[f] == nil {
			continue // called from nowhere
		}
		c.funcs[f.String()] = true
		held := map[ssa.Instruction]lockset{}
		a.flow(f, a.in[f], func(i ssa.Instruction, l lockset) {
			if o, ok := held[i]; ok {
				l = meet(o, l)
			}
			held[i] = l.clone()
		})
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := named(fa.X.Type())
				if n == nil || mutexOf[n] == "" {
					continue
				}
				fld := nameOfField(fa.X.Type(), fa.Field)
				if fld == mutexOf[n] {
					continue
				}
				add := func(at ssa.Instruction, write, atomic, content bool) {
					fld := fld
					if content {
						fld += "[]"
					}
					l, ok := held[at]
					if !ok {
						return // not reached
					}
					accs = append(accs, &access{f, at, fa.X, fld, n, write, atomic, l[a.key(fa.X)+"."+mutexOf[n]], a.isFresh(f, fa.X, at)})
				}
				fieldUses(fa, add)
			}
		}
	}
	// which fields change once shared
	type fk struct {
		n *types.Named
		f string
	}
	shared := map[fk]bool{}
	atom := map[fk]bool{}
	for _, x := range accs {
		if x.fresh {
			continue
		}
		if x.write {
			shared[fk{x.owner, x.field}] = true
		}
		if x.atomic {
			atom[fk{x.owner, x.field}] = true
		}
	}
	var ks []string
	for k := range shared {
		ks = append(ks, k.n.Obj().Name()+"."+k.f)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.ok("field " + k)
	}
	for _, x := range accs {
		k := fk{x.owner, x.field}
		if !shared[k] || x.fresh {
			continue
		}
		what := x.owner.Obj().Name() + "." + x.field
		if atom[k] {
			c.want(x.atomic, "atomic", x.ins.Pos(), x.fn, "%s is used by atomic operations elsewhere and not here", what)
			continue
		}
		verb := "read"
		if x.write {
			verb = "changed"
		}
		c.want(x.held == "W" || x.held == "R" && !x.write, "guarded", x.ins.Pos(), x.fn, "%s is %s without its lock", what, verb)
	}
	// variables shared with goroutines by capture
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				c.ok("captured")
				m, ok := g.Call.Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				cl := m.Fn.(*ssa.Function)
				for k, bnd := range m.Bindings {
					al, ok := bnd.(*ssa.Alloc)
					if !ok {
						continue
					}
					inside := storesTo(cl.FreeVars[k])
					for _, r := range *al.Referrers() {
						s, ok := r.(*ssa.Store)
						if ok && s.Addr == al && flowsTo(g, s) && !(flowsTo(s, g) && newEachTurn(al, g)) {
							c.fail("captured", s.Pos(), f, "a variable that a goroutine uses is stored to after it was started: %s", al.Comment)
						}
						if u, ok := r.(*ssa.UnOp); ok && inside && flowsTo(g, u) {
							c.fail("captured", u.Pos(), f, "a variable that a goroutine stores to is read meanwhile: %s", al.Comment)
						}
					}
				}
			}
		}
	}
	// objects without a lock that are handed to a goroutine
	used := map[fk]map[*ssa.Function]bool{}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if fa, ok := i.(*ssa.FieldAddr); ok {
					if n, fn := fieldOfAddr(fa); n != nil {
						k := fk{n, fn}
						if used[k] == nil {
							used[k] = map[*ssa.Function]bool{}
						}
						used[k][f] = true
					}
				}
			}
		}
	}
	handed := handedParams(a.fns)
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, v := range handedBy(i, handed) {
					n := structWithoutLock(v.Type())
					if n == nil {
						continue
					}
					c.ok("handed")
					for _, r := range *v.Referrers() {
						fa, ok := r.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						_, fn := fieldOfAddr(fa)
						others := false
						for u := range used[fk{n, fn}] {
							others = others || u != f
						}
						if !others {
							continue
						}
						for _, r2 := range *fa.Referrers() {
							s, ok := r2.(*ssa.Store)
							if ok && s.Addr == fa && flowsTo(i, s) && !remade(v, i) {
								c.fail("handed", s.Pos(), f, "%s.%s is stored to after a goroutine was given the %s, which has no lock", n.Obj().Name(), fn, n.Obj().Name())
							}
						}
					}
				}
			}
		}
	}
	c.need("guarded", 12)
	c.need("captured", 2)
}

// remade: the object is made anew each time before the goroutine is started.
func remade(v ssa.Value, g ssa.Instruction) bool {
	d, ok := v.(ssa.Instruction)
	return ok && flowsTo(d, g) && flowsTo(g, d)
}

func fieldOfAddr(fa *ssa.FieldAddr) (*types.Named, string) {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, ""
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return nil, ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, ""
	}
	return n, st.Field(fa.Field).Name()
}

func structWithoutLock(t types.Type) *types.Named {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if s := st.Field(i).Type().String(); s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex" {
			return nil
		}
	}
	return n
}

// handedBy is the values that an instruction gives to a goroutine: those of a
// go statement, and those a called function hands on.
func handedBy(i ssa.Instruction, handed map[*ssa.Function]map[int]bool) (vs []ssa.Value) {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	cc := ci.Common()
	if _, ok := i.(*ssa.Go); ok {
		vs = append(vs, cc.Args...)
		if m, ok := cc.Value.(*ssa.MakeClosure); ok {
			vs = append(vs, m.Bindings...)
		}
	} else if _, ok := i.(*ssa.Call); ok {
		if f := cc.StaticCallee(); f != nil {
			for k := range handed[f] {
				if k < len(cc.Args) {
					vs = append(vs, cc.Args[k])
				}
			}
		}
	}
	out := vs[:0]
	for _, v := range vs {
		if v.Referrers() != nil {
			out = append(out, v)
		}
	}
	return out
}

func handedParams(fns []*ssa.Function) map[*ssa.Function]map[int]bool {
	h := map[*ssa.Function]map[int]bool{}
	for more := true; more; {
		more = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, v := range handedBy(i, h) {
						for k, p := range f.Params {
							if v == p && !h[f][k] {
								if h[f] == nil {
									h[f] = map[int]bool{}
								}
								h[f][k] = true
								more = true
							}
						}
					}
				}
			}
		}
	}
	return h
}

// newEachTurn: the variable is made anew each time before the goroutine is started.
func newEachTurn(al *ssa.Alloc, g *ssa.Go) bool { return al.Heap && flowsTo(al, g) && flowsTo(g, al) }

func sortedPkgs(pr *Program) []string {
	var r []string
	for p := range pr.TPkgs {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// fieldUses finds the reads and writes of a field, and those of the map or
// slice it holds.
func fieldUses(fa *ssa.FieldAddr, add func(at ssa.Instruction, write, atomic, content bool)) {
	into := func(at ssa.Instruction, write, atomic bool) { add(at, write, atomic, true) }
	self := func(at ssa.Instruction, write, atomic bool) { add(at, write, atomic, false) }
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			self(x, x.Addr == fa, false)
		case *ssa.UnOp:
			self(x, false, false)
			switch x.Type().Underlying().(type) {
			case *types.Map, *types.Slice:
				contentUses(x, map[ssa.Value]bool{}, func(at ssa.Instruction, write, atomic bool) {
					if !takenOver(fa, x, at) {
						into(at, write, atomic)
					}
				})
			}
		case *ssa.FieldAddr:
			fieldUses(x, add)
		case *ssa.IndexAddr:
			elemUses(x, self)
		case ssa.CallInstruction:
			f := x.Common().StaticCallee()
			if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" {
				self(x, !strings.Contains(f.Name(), "Load"), true)
				continue
			}
			if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
				continue
			}
			self(x, true, false)
		case *ssa.DebugRef:
		default:
			self(r, true, false)
		}
	}
}

// takenOver: the map or slice was taken out of its field, and another put
// there, before the lock was given up; nobody else has it then.
func takenOver(fa *ssa.FieldAddr, load *ssa.UnOp, at ssa.Instruction) bool {
	b := load.Block()
	after := false
	for _, i := range b.Instrs {
		if i == ssa.Instruction(load) {
			after = true
			continue
		}
		if !after {
			continue
		}
		switch x := i.(type) {
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil || x.Call.IsInvoke() {
				return false
			}
		case *ssa.Store:
			g, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || g.X != fa.X || g.Field != fa.Field {
				continue
			}
			switch v := x.Val.(type) {
			case *ssa.MakeMap, *ssa.MakeSlice:
			case *ssa.Const:
				if !v.IsNil() {
					return false
				}
			default:
				return false
			}
			return at.Block() != b && b.Dominates(at.Block()) || at.Block() == b && precedes(x, at)
		}
	}
	return false
}

func precedes(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

func elemUses(ia ssa.Value, add func(at ssa.Instruction, write, atomic bool)) {
	for _, r := range *ia.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			add(x, x.Addr == ia, false)
		case *ssa.UnOp:
			add(x, false, false)
		case *ssa.FieldAddr:
			elemUses(x, add)
		case *ssa.DebugRef:
		default:
			add(r, true, false)
		}
	}
}

// contentUses finds the uses of the map or slice itself.
func contentUses(v ssa.Value, seen map[ssa.Value]bool, add func(at ssa.Instruction, write, atomic bool)) {
	if seen[v] {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			add(x, x.Map == v, false)
		case *ssa.Lookup:
			add(x, false, false)
		case *ssa.Range:
			for _, n := range *x.Referrers() {
				add(n, false, false)
			}
		case *ssa.IndexAddr:
			elemUses(x, add)
		case *ssa.Slice:
			contentUses(x, seen, add)
		case *ssa.Phi:
			contentUses(x, seen, add)
		case *ssa.ChangeType:
			contentUses(x, seen, add)
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear", "append", "copy":
					add(x, true, false)
				case "len", "cap":
					if _, ok := v.Type().Underlying().(*types.Map); ok {
						add(x, false, false)
					}
				}
				continue
			}
			add(x, false, false)
		}
	}
}
