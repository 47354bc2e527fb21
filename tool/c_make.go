package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C35", title: "constructors apply each option once and report one that fails",
		rules: "fails: on each path on which an option failed, the constructor returns that error, and nothing is started; only: it returns an error on no other path; applied: a path that returns no error has called each of the options it was given, in order, once, with the object it returns; creator: a listener has the creator it was given",
		not:   []string{"what the options do"},
		run:   checkConstructors})
	register(&Check{id: "C36", title: "a client lets go of its connection",
		rules: "close: every path out of the goroutine that reads the replies closes the connection it reads from, and not before its last read; turn: no turn of its loop that goes on closes it",
		not:   []string{"a read that never returns"},
		run:   checkClientCloses})
	register(&Check{id: "C37", title: "the server program serves what its flags say, or fails",
		rules: "flags: they are parsed before they are used, and their defaults are those documented; listen: the program listens once, on the network and address of its flags; serve: on each path on which that works, connections are accepted from that listener; fails: a path on which listening, making the server or serving failed ends the program with a status that is not 0; root: the file server of each connection has the tree that the flag names",
		not:   []string{"the -debug flag"},
		run:   checkProgram})
}

func checkConstructors(c *Ctx) {
	for _, k := range [][2]string{{"protocol", "NewClient"}, {"protocol", "NewListener"}, {"filesystem", "NewUFS"}} {
		fn := c.fn(k[0], k[1])
		if fn == nil {
			continue
		}
		ps := params(fn)
		if !c.want(fn.Signature.Variadic() && fn.Signature.Results().Len() == 2, "applied", fn.Pos(), fn, "does not take options, or does not return an object and an error") {
			continue
		}
		opts := ps[len(ps)-1]
		for i, p := range ps[:len(ps)-1] {
			if _, ok := p.t.Underlying().(*types.Signature); ok {
				ps[i] = mkSym("nn:"+p.s, p.t)
			}
		}
		x := newExec(c.pr)
		nok := 0
		for _, o := range c.runFn(x, fn, newState(), ps, nil) {
			if !c.want(o.kind == outRet, "fails", o.pos, fn, "ends in a crash or an exit") {
				continue
			}
			obj, err := o.rets[0], o.rets[1]
			var failed *Event
			var started bool
			for _, e := range allEvents(o.st.events()) {
				switch {
				case isOption(e, opts) && len(e.res) == 1 && !isNilT(e.res[0]) && o.st.proves(notT(mkEq(e.res[0], mkNil(nil), nil))):
					if failed == nil {
						failed = e
					}
				case e.kind == "go":
					started = true
				}
			}
			if failed != nil {
				c.want(mentions(err, func(t *Term) bool { return t == failed.res[0] }), "fails", failed.pos, fn, "an option fails and the error is %v", err)
				c.want(!started, "fails", failed.pos, fn, "an option fails and goroutines are started")
				continue
			}
			if !isNilT(err) {
				c.fail("only", o.pos, fn, "fails though no option did: %v", err)
				continue
			}
			c.ok("only")
			nok++
			if !c.want(obj.op == "alloc", "applied", o.pos, fn, "what is returned is not an object made here: %v", obj) {
				continue
			}
			c.applied(fn, o, opts, obj)
		}
		c.want(nok > 0, "applied", fn.Pos(), fn, "no path succeeds")
		if k[1] == "NewListener" {
			c.creatorKept(fn, ps)
		}
	}
	c.need("fails", 3)
	c.need("applied", 3)
	c.need("creator", 1)
}

// isOption: the event is a call of one of the options.
func isOption(e *Event, opts *Term) bool {
	return e.kind == "dyn" && len(e.args) > 0 && mentions(e.args[0], func(t *Term) bool { return t == opts })
}

func (c *Ctx) applied(fn *ssa.Function, o Outcome, opts, obj *Term) {
	n := mk("len", "", nil, opts)
	found := false
	inLoop := map[*Event]bool{}
	for _, e := range o.st.events() {
		if e.loop == nil {
			continue
		}
		calls := false
		for _, b := range e.loop.back {
			k := 0
			for _, be := range allEvents(b.events) {
				if !isOption(be, opts) {
					continue
				}
				calls = true
				inLoop[be] = true
				k++
				f := be.args[0]
				c.want(f == mkIdxOf(o.st, opts, e.loop.kappa), "applied", be.pos, fn, "turn by turn, the option called is %v", f)
				c.want(len(be.args) == 2 && be.args[1] == obj, "applied", be.pos, fn, "an option is applied to something that is not returned: %v", be.args[1:])
				c.want(len(be.res) == 1 && isNilT(be.res[0]), "applied", be.pos, fn, "goes on after an option that may have failed")
			}
			if calls {
				c.want(k == 1, "applied", e.pos, fn, "a turn calls %d options", k)
			}
		}
		if calls {
			c.want(!found, "applied", e.pos, fn, "the options are applied twice")
			found = true
			c.want(o.st.proves(mkEqInt(e.loop.kappa, n)), "applied", o.pos, fn, "succeeds without having applied all options")
		}
	}
	if !found {
		c.want(o.st.proves(mkEqInt(n, tZero)), "applied", o.pos, fn, "the options are not applied")
	}
	for _, e := range allEvents(o.st.events()) {
		if isOption(e, opts) && !inLoop[e] {
			c.fail("applied", e.pos, fn, "an option is called once more")
		}
	}
}

// mkIdxOf is element i of a list of options.
func mkIdxOf(st *State, l, i *Term) *Term {
	et := l.t.Underlying().(*types.Slice).Elem()
	obj, off, _, _ := sliceParts(l)
	return st.load(mk("elem", "", nil, obj, addT(off, i)), et)
}

// creatorKept: with no options to change it, a listener's creator is the one given.
func (c *Ctx) creatorKept(fn *ssa.Function, ps []*Term) {
	args := append([]*Term{}, ps...)
	args[len(args)-1] = mkNil(args[len(args)-1].t)
	x := newExec(c.pr)
	for _, o := range c.runFn(x, fn, newState(), args, nil) {
		if o.kind != outRet || !isNilT(o.rets[1]) {
			continue
		}
		obj := o.rets[0]
		st, _ := derefStruct(typeOfTerm(obj))
		ok := false
		for i := 0; st != nil && i < st.NumFields(); i++ {
			f := st.Field(i)
			if types.Identical(f.Type(), args[0].t) {
				ok = o.st.load(mk("faddr", f.Name(), nil, obj), f.Type()) == args[0]
			}
		}
		c.want(ok, "creator", o.pos, fn, "the listener does not have the creator it was made with")
	}
}

func checkClientCloses(c *Ctx) {
	sys := c.client()
	if sys == nil {
		return
	}
	readers := 0
	for _, r := range sys.gos {
		var conn *Term
		for _, o := range r.outs {
			for _, e := range allEvents(o.st.events()) {
				if e.kind == "netread" {
					conn = e.args[0]
				}
			}
		}
		if conn == nil {
			continue
		}
		readers++
		for _, o := range r.outs {
			if !c.want(o.kind == outRet, "close", o.pos, r.fn, "the goroutine that reads ends in a crash") {
				continue
			}
			closed := 0
			for _, e := range o.st.events() {
				if isClose(e, conn) {
					closed++
				}
				if e.kind == "netread" && closed > 0 {
					c.fail("close", e.pos, r.fn, "reads from the connection after closing it")
				}
				if e.loop == nil {
					continue
				}
				for _, b := range e.loop.back {
					for _, be := range allEvents(b.events) {
						c.want(!isClose(be, conn), "turn", be.pos, r.fn, "the connection is closed on a turn that goes on")
						if be.kind == "netread" && closed > 0 {
							c.fail("close", be.pos, r.fn, "reads from the connection after closing it")
						}
					}
				}
			}
			if o.st.proves(mkEq(conn, mkNil(nil), nil)) {
				c.ok("close")
				continue
			}
			c.want(closed > 0, "close", o.pos, r.fn, "a path on which the connection is not closed")
		}
	}
	c.want(readers > 0, "close", sys.nw.fn.Pos(), sys.nw.fn, "nothing reads the replies")
	c.need("close", 4)
	c.need("turn", 4)
}

// flagVar finds what package variables are made from flags: by the name of the
// flag, the variable and the default.
type flagVar struct {
	glob *ssa.Global
	def  string
}

func (c *Ctx) flags(pkg string) map[string]flagVar {
	r := map[string]flagVar{}
	str := func(v ssa.Value) string {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		return "?"
	}
	p := c.pr.Pkgs[pkg]
	if p == nil {
		return r
	}
	// what runs at the start of the program
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != p {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil {
					continue
				}
				as := call.Call.Args
				switch g.String() {
				case "flag.String":
					fv := flagVar{nil, str(as[1])}
					for _, u := range *call.Referrers() {
						if st, ok := u.(*ssa.Store); ok {
							fv.glob, _ = st.Addr.(*ssa.Global)
						}
					}
					r[str(as[0])] = fv
				case "flag.StringVar":
					fv := flagVar{nil, str(as[2])}
					fv.glob, _ = as[0].(*ssa.Global)
					r[str(as[1])] = fv
				default:
					walk(g)
				}
			}
		}
	}
	walk(p.Func("init"))
	walk(p.Func("main"))
	return r
}

// isFlag: the term is the value of the flag, which is a package variable or was
// defined on the path, and nothing else.
func isFlag(t *Term, fv map[string]flagVar, name string, es []*Event) bool {
	for t.op == "app" && (t.s == "path.Clean" || t.s == "path/filepath.Clean") && len(t.args) == 1 {
		t = t.args[0]
	}
	if t.op == "ld" {
		if v, ok := fv[name]; ok && v.glob != nil && strings.Contains(t.args[0].String(), v.glob.String()) {
			return true
		}
		for _, e := range es {
			if e.name == "flag.String" && len(e.args) > 1 && e.args[0].op == "str" && e.args[0].s == name && len(e.res) == 1 && t.args[0] == e.res[0] {
				return true
			}
		}
	}
	return false
}

func checkProgram(c *Ctx) {
	fn := c.fn("cmd/ufs", "main")
	if fn == nil {
		return
	}
	fv := c.flags("cmd/ufs")
	rv := c.flags("filesystem")
	for _, d := range []struct {
		fv        map[string]flagVar
		name, def string
	}{{fv, "addr", ":5640"}, {fv, "ntype", "tcp"}, {rv, "root", "/"}} {
		v, ok := d.fv[d.name]
		if c.want(ok, "flags", fn.Pos(), fn, "there is no flag -%s", d.name) {
			c.want(v.def == d.def || d.name == "ntype" && v.def == "tcp4", "flags", fn.Pos(), fn, "the default of -%s is %q", d.name, v.def)
		}
	}
	x := newExec(c.pr)
	served := 0
	for _, o := range c.runFn(x, fn, newState(), nil, nil) {
		parsed, failed := false, false
		listens := 0
		var ln *Term
		accepts := false
		var code *Event
		for _, e := range o.st.events() {
			switch {
			case e.name == "flag.Parse":
				parsed = true
			case e.name == "net.Listen":
				listens++
				c.want(parsed, "flags", e.pos, fn, "the flags are used before they are parsed")
				c.want(listens == 1, "listen", e.pos, fn, "listens twice")
				c.want(isFlag(e.args[0], fv, "ntype", o.st.events()) && isFlag(e.args[1], fv, "addr", o.st.events()), "listen", e.pos, fn, "listens on %v %v", e.args[0], e.args[1])
				if isNilT(e.res[1]) {
					ln = e.res[0]
				} else {
					failed = true
				}
			case e.kind == "exit":
				code = e
			case isAccept(e, ln):
				accepts = true
				if !isNilT(e.res[1]) {
					failed = true
				}
			}
			if e.loop != nil {
				for _, b := range e.loop.back {
					for _, be := range allEvents(b.events) {
						if isAccept(be, ln) {
							accepts = true
						}
					}
				}
			}
		}
		if ln != nil {
			c.want(accepts, "serve", o.pos, fn, "a path that listens and does not accept connections from there")
			served++
		} else {
			c.want(listens > 0, "listen", o.pos, fn, "a path that does not listen")
		}
		bad := code != nil && (strings.HasPrefix(code.name, "log.Fatal") || len(code.args) == 1 && o.st.proves(notT(mkEqInt(code.args[0], tZero)))) || o.kind == outPanic
		if failed {
			c.want(bad, "fails", o.pos, fn, "a path on which something failed and the program ends as if it had not")
		}
	}
	c.want(served > 0, "serve", fn.Pos(), fn, "no path serves")
	c.safety(x, "fails", "exit")
	c.servers("root", func(fn *ssa.Function, o Outcome, fs types.Type, v *Term, mark int) {
		f := findFS(o.st, v, fs, 0)
		if !c.want(f != nil, "root", o.pos, fn, "not known what serves") {
			return
		}
		root := o.st.load(mk("faddr", c.pr.theField(fs, func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String }), nil, f), types.Typ[types.String])
		c.want(isFlag(root, rv, "root", nil), "root", o.pos, fn, "the tree served is %v", root)
	})
	c.need("fails", 4)
	c.need("listen", 4)
	c.need("serve", 3)
	c.need("root", 2)
}

func isAccept(e *Event, ln *Term) bool {
	return e.kind == "invoke" && lastName(e.name) == "Accept" && len(e.args) > 0 && e.args[0] == ln && len(e.res) == 2
}
