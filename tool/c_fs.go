package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The file server: what its handlers do to its table of fids and to the host.

type fsRun struct {
	name string
	fn   *ssa.Function
	x    *Exec
	args []*Term // without the receiver
	outs []Outcome
}

type fsSys struct {
	t, ft              types.Type // the server, and what a fid stands for
	e                  *Term
	files, root        string // fields of the server
	handle, name, qidf string // fields of what a fid stands for
	runs               map[string]*fsRun
}

var handlerNames = []string{"Rversion", "Rattach", "Rflush", "Rwalk", "Ropen", "Rcreate", "Rclunk", "Rstat", "Rwstat", "Rremove", "Rread", "Rwrite"}

// fidParam: the position of the fid a request acts on; -1 if there is none.
var fidParam = map[string]int{"Rversion": -1, "Rattach": -1, "Rflush": -1, "Rwalk": 0, "Ropen": 0, "Rcreate": 0, "Rclunk": 0, "Rstat": 0, "Rwstat": 0, "Rremove": 0, "Rread": 0, "Rwrite": 0}

func (c *Ctx) fsTypes() *fsSys {
	t := c.pr.NamedType("filesystem", "FileServer")
	if t == nil {
		c.fail("anchor", token.NoPos, nil, "no FileServer")
		return nil
	}
	s := &fsSys{t: t, e: mkSym("nn:e", types.NewPointer(t)), runs: map[string]*fsRun{}}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if m, ok := f.Type().Underlying().(*types.Map); ok {
			if n, ok := types.Unalias(m.Key()).(*types.Named); ok && n.Obj().Name() == "FID" {
				if p, ok := m.Elem().Underlying().(*types.Pointer); ok {
					s.files, s.ft = f.Name(), p.Elem()
				}
			}
		}
	}
	s.root = c.pr.theField(t, func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String })
	if s.ft == nil || s.root == "" {
		c.fail("anchor", token.NoPos, nil, "the server has no table of fids, or no root")
		return nil
	}
	if _, ok := s.ft.Underlying().(*types.Struct); !ok {
		c.fail("anchor", token.NoPos, nil, "a fid does not stand for a struct")
		return nil
	}
	s.handle = c.pr.theField(s.ft, func(t types.Type) bool { return t.String() == "*os.File" })
	s.qidf = c.pr.theField(s.ft, func(t types.Type) bool { return strings.HasSuffix(t.String(), "protocol.QID") })
	s.name = c.pr.theField(s.ft, func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String })
	if s.handle == "" || s.name == "" || s.qidf == "" {
		c.fail("anchor", token.NoPos, nil, "what a fid stands for has no path, QID or open file")
		return nil
	}
	return s
}

func (c *Ctx) fs(names ...string) *fsSys {
	s := c.fsTypes()
	if s == nil {
		return nil
	}
	if len(names) == 0 {
		names = handlerNames
	}
	for _, n := range names {
		fn := c.method("filesystem", "FileServer", n)
		if fn == nil {
			return nil
		}
		s.runs[n] = c.fsRunWith(s, n, fn, nil)
	}
	return s
}

func (c *Ctx) fsRunWith(s *fsSys, n string, fn *ssa.Function, set map[int]*Term) *fsRun {
	args := params(fn)
	args[0] = s.e
	for i, v := range set {
		args[i+1] = v
	}
	x := newExec(c.pr)
	return &fsRun{n, fn, x, args[1:], c.runFn(x, fn, newState(), args, nil)}
}

// A fsPath is one path of a handler.
type fsPath struct {
	s    *fsSys
	r    *fsRun
	o    Outcome
	st   *State
	es   []*Event // in order, those of loops at the place of the loop
	top  map[*Event]bool
	err  *Term
	good bool // returns no error
	bad  bool // returns an error
}

func (s *fsSys) paths(c *Ctx, r *fsRun, rule string) []*fsPath {
	var ps []*fsPath
	for _, o := range r.outs {
		if o.kind != outRet {
			c.fail(rule, o.pos, r.fn, "a request ends in a crash")
			continue
		}
		p := &fsPath{s: s, r: r, o: o, st: o.st, top: map[*Event]bool{}}
		p.es = allEvents(o.st.events())
		for _, e := range o.st.events() {
			p.top[e] = true
		}
		p.err = o.rets[len(o.rets)-1]
		p.good = isNilT(p.err)
		p.bad = !p.good && (nonNilTerm(p.err) || o.st.proves(notT(mkEq(p.err, mkNil(nil), nil))))
		if !p.good && !p.bad {
			// an error that is passed on as it is
			if o.st.proves(mkEq(p.err, mkNil(nil), nil)) {
				p.good = true
			} else {
				c.fail(rule, o.pos, r.fn, "not known whether this path returns an error: %v", p.err)
				continue
			}
		}
		ps = append(ps, p)
	}
	return ps
}

func (s *fsSys) isTable(t *Term) bool { return isField(t, s.e, s.files) }

// lookups are the uses of the table for a key.
func (p *fsPath) lookups(key *Term) []*Event {
	var r []*Event
	for _, e := range p.es {
		if e.kind == "mapget" && p.s.isTable(e.args[0]) && (e.args[1] == key || p.st.proves(mkEqInt(e.args[1], key))) {
			r = append(r, e)
		}
	}
	return r
}

func (p *fsPath) isKnown(e *Event) bool {
	return p.st.proves(e.res[1]) || p.st.proves(notT(mkEq(e.res[0], mkNil(nil), nil)))
}

func (p *fsPath) isUnknown(e *Event) bool {
	return p.st.proves(notT(e.res[1])) || p.st.proves(mkEq(e.res[0], mkNil(nil), nil)) || isNilT(e.res[0])
}

// known: the path has found key in the table.
func (p *fsPath) known(key *Term) bool {
	for _, e := range p.lookups(key) {
		if p.isKnown(e) {
			return true
		}
	}
	return false
}

func (p *fsPath) unknown(key *Term) bool {
	for _, e := range p.lookups(key) {
		if p.isUnknown(e) {
			return true
		}
	}
	return false
}

// isFile: t is what the table has for the key.
func (p *fsPath) isFile(t, key *Term) bool {
	if t.op == "mapget" && p.s.isTable(t.args[0]) {
		return t.args[1] == key || p.st.proves(mkEqInt(t.args[1], key))
	}
	return false
}

// ofFile: t is the value of a field of what the table has for the key.
func (p *fsPath) ofFile(t, key *Term, field string) bool {
	return t.op == "ld" && t.args[0].op == "faddr" && t.args[0].s == field && p.isFile(t.args[0].args[0], key)
}

// unbound: the path takes what the table has for a fid, obj, out of it.
func (p *fsPath) unbound(obj *Term) bool {
	for _, e := range p.es {
		if e.kind == "mapdel" && p.s.isTable(e.args[0]) && p.isFile(obj, e.args[1]) {
			return true
		}
	}
	return false
}

func (p *fsPath) anyFile(t *Term) bool { return t.op == "mapget" && p.s.isTable(t.args[0]) }

func (p *fsPath) fid() *Term {
	i := fidParam[p.r.name]
	if i < 0 {
		return nil
	}
	return p.r.args[i]
}

// host: the event is a call that reaches the host's files.
func isHost(e *Event) bool {
	if e.kind != "ext" && e.kind != "write" && e.kind != "netread" {
		return false
	}
	n := e.name
	if strings.HasPrefix(n, "(*os.File).") || strings.HasPrefix(n, "(os.") {
		return true
	}
	p := pkgOfName(n)
	switch p {
	case "os", "io/ioutil", "syscall", "path/filepath", "os/exec", "io/fs", "golang.org/x/sys/unix":
		return true
	}
	return e.kind == "write" || e.kind == "netread"
}

// hostErr is the error a host call returned on this path; nil if it cannot fail.
func hostErr(e *Event) *Term {
	if len(e.res) == 0 {
		return nil
	}
	r := e.res[len(e.res)-1]
	if isNilT(r) || strings.Contains(r.s, "err:") {
		return r
	}
	return nil
}

func failedCall(e *Event) bool {
	r := hostErr(e)
	return r != nil && !isNilT(r)
}

// isEOF: the path knows the error to be io.EOF.
func (p *fsPath) isEOF(err *Term) bool {
	for _, f := range p.st.facts {
		if f.op == "eq" && (f.args[0] == err || f.args[1] == err) {
			o := f.args[0]
			if o == err {
				o = f.args[1]
			}
			if strings.HasSuffix(o.String(), "io.EOF") {
				return true
			}
		}
	}
	return strings.HasSuffix(err.String(), "io.EOF")
}

// maybeEOF: for all the path knows, the failure of e is the end of the file or directory.
func (p *fsPath) maybeEOF(e *Event) bool {
	err := hostErr(e)
	if p.isEOF(err) {
		return true
	}
	if n := lastName(e.name); n != "ReadAt" && n != "Read" && !hasPrefix(n, "Readdir", "ReadDir") {
		return false
	}
	for _, f := range p.st.facts {
		if f.op == "not" && f.args[0].op == "eq" {
			for k, a := range f.args[0].args[:2] {
				if a == err && strings.HasSuffix(f.args[0].args[1-k].String(), "io.EOF") {
					return false
				}
			}
		}
	}
	return true
}

func callIs(e *Event, names ...string) bool {
	if e.kind != "ext" && e.kind != "write" && e.kind != "netread" {
		return false
	}
	for _, n := range names {
		if e.name == n {
			return true
		}
	}
	return false
}

// statCall: a call that only looks at a file by its path.
func statCall(e *Event) bool { return callIs(e, "os.Stat", "os.Lstat") }

func closeCall(e *Event) bool { return callIs(e, "(*os.File).Close") }

func openCall(e *Event) bool { return callIs(e, "os.OpenFile", "os.Open", "os.Create") }

// changes: the call may change files of the host, or what is open.
func changing(e *Event) bool {
	if !isHost(e) || statCall(e) || closeCall(e) {
		return false
	}
	switch lastName(e.name) {
	case "Readdir", "Readdirnames", "ReadDir", "ReadAt", "Read", "Seek", "Stat", "Name", "Fd", "Sync", "IsNotExist", "IsExist", "Getpid", "Getenv", "Readlink", "IsPermission":
		return false
	}
	return true
}

// ---------- paths within the root

// rooted: the term is a path that starts at / and that is clean, so that no ..
// is left in it.
func rooted(t *Term) bool {
	switch t.op {
	case "str":
		return strings.HasPrefix(t.s, "/") && !strings.Contains(t.s, "..")
	case "app":
		switch t.s {
		case "path.Join", "path/filepath.Join":
			return len(t.args) > 0 && startsAtRoot(t.args[0])
		case "path.Clean", "path/filepath.Clean":
			return startsAtRoot(t.args[0])
		case "path/filepath.FromSlash", "path/filepath.ToSlash":
			return rooted(t.args[0])
		}
	}
	return false
}

// startsAtRoot: the string begins with /, whatever follows.
func startsAtRoot(t *Term) bool {
	switch t.op {
	case "str":
		return strings.HasPrefix(t.s, "/")
	case "cat":
		return len(t.args) > 0 && startsAtRoot(t.args[0])
	case "app":
		if t.s == "strcat" && len(t.args) > 0 {
			return startsAtRoot(t.args[0])
		}
	}
	return rooted(t)
}

// contained: the path is in the root of the server whatever its variable
// parts are. vars are loop variables that are contained by hypothesis.
func (s *fsSys) contained(st *State, t *Term, vars map[*Term]bool, depth int) bool {
	if depth > 20 {
		return false
	}
	if vars[t] {
		return true
	}
	// the path of a fid: an invariant of the table
	if t.op == "ld" && t.args[0].op == "faddr" && t.args[0].s == s.name {
		b := t.args[0].args[0]
		if b.op == "mapget" && s.isTable(b.args[0]) || b.op == "ld" && b.args[0].op == "faddr" && b.args[0].args[0] == s.e {
			return true
		}
	}
	isRoot := func(r *Term) bool { return isField(r, s.e, s.root) }
	switch t.op {
	case "ld":
		return isRoot(t)
	case "cat":
		ps := pieces(t)
		if len(ps) < 2 || !s.contained(st, ps[0], vars, depth+1) {
			return false
		}
		for _, q := range ps[1:] {
			if !rooted(q) {
				return false
			}
		}
		return true
	case "app":
		switch t.s {
		case "path.Join", "path/filepath.Join":
			if len(t.args) == 0 || !s.contained(st, t.args[0], vars, depth+1) {
				return false
			}
			for _, a := range t.args[1:] {
				if !rooted(a) && !(a.op == "str" && !strings.Contains(a.s, "..")) {
					return false
				}
			}
			return true
		case "path.Clean", "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
			return s.contained(st, t.args[0], vars, depth+1)
		}
	}
	return false
}

// inLoops finds the loop variables of the path that hold contained paths: by
// coinduction, those whose first value is contained and whose next values are
// if the variables are.
func (s *fsSys) inLoops(p *fsPath) map[*Term]bool {
	vars := map[*Term]bool{}
	type lv struct {
		li *LoopInfo
		v  *loopVar
	}
	var all []lv
	for _, e := range p.es {
		if e.loop == nil {
			continue
		}
		for _, v := range e.loop.vars {
			if v.cur != nil && v.entry != nil {
				if v.typ != nil {
					if b, ok := v.typ.Underlying().(*types.Basic); !ok || b.Kind() != types.String {
						continue
					}
				}
				all = append(all, lv{e.loop, v})
				vars[v.cur] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, l := range all {
			if !vars[l.v.cur] {
				continue
			}
			ok := s.contained(p.st, l.v.entry, vars, 0) && len(l.v.next) == len(l.li.back)
			for _, n := range l.v.next {
				if n == nil || !s.contained(p.st, n, vars, 0) {
					ok = false
				}
			}
			if !ok {
				delete(vars, l.v.cur)
				changed = true
			}
		}
	}
	return vars
}

func init() {
	register(&Check{id: "C10", title: "no request crashes or wedges the server",
		rules: "safe: every index, slice, nil access, type assertion, map store, lock and unlock on every path of every handler, of the dispatcher, of the connection's goroutine and of the tracing server is shown to be safe, given that what the table holds is not nil; table: every value put into the table is not nil; ends: no path ends in a panic or an exit; unlocked: no path returns with a lock held or takes one twice",
		not:   []string{"memory used up by large reads", "host calls that never return"},
		run:   checkNoCrash})
	register(&Check{id: "C11", title: "every path the server uses is in its root",
		rules: "path: each string given to a function of os or filepath that reaches the host is the root joined with a path that was cleaned from / on, or the path of a fid, or a loop variable of which the same holds by induction; fid-path: every path stored for a fid is one of those",
		not:   []string{"symbolic links in the exported tree, which the host follows"},
		run:   checkRoot})
	register(&Check{id: "C12", title: "fids live from attach or walk to clunk, remove or version",
		rules: "bind: a fid is bound only by an attach or a walk that succeeds, once, and only if the table was shown not to have it while the lock was held since, or if it is the fid walked from; bound: an attach or a complete walk that succeeds has bound its fid; unbind: clunk and remove unbind their fid whenever it is known, and nothing else; version: a version request that succeeds unbinds every fid, one that is refused none",
		run:   checkFidLife})
	register(&Check{id: "C13", title: "a request acts only on the file of its fid",
		rules: "unknown: for a fid that is not known each request returns an error and touches neither the table nor the host; own: each host call is given the path or the open file of the request's fid, a path made from it and the request's names, or a file opened by this very request; effect: a request that succeeds has made the host call it stands for; fields: only what the request's fid stands for is changed",
		run:   checkOwnFile})
	register(&Check{id: "C14", title: "open files have one owner and are closed with it",
		rules: "kept: a file opened on a path is either stored in what the request's fid stands for, once, or closed, not both; overwritten: an open file is stored only where none was, or where the old one was closed on that path; shared: no open file is copied from one fid to another; closed: a fid that is unbound or rebound has its file closed on that path, or has none; closed-once: a file is closed at most once, and only where its fid is unbound or gets another one",
		not:   []string{"fids left when a connection ends: the server interface has no call for that"},
		run:   checkHandles})
	register(&Check{id: "C15", title: "host errors are reported",
		rules: "reported: on every path on which a host call failed the request returns an error, but for a failed Close, the end of a file or directory, a walk that got past its first element, and the probe for the target of a rename",
		run:   checkHostErrors})
	register(&Check{id: "C16", title: "a request that fails leaves its fid as it was",
		rules: "unchanged: on every path that returns an error, no path, QID or open file of a fid is changed and none is bound; renamed: after a rename that succeeded the fid stands for the new path, whatever follows",
		run:   checkUnchanged})
	register(&Check{id: "C27", title: "requests are refused only for a reason",
		rules: "reason: on every path that returns an error, a host call failed, or the fid is not known, or a fid to be bound is in use, or the request is one of those listed as refused: a version other than 9P2000, an attach with authentication, an open or create of an open fid, a read or write of one that is not, a count beyond 2^31, a stat record that is malformed or sets owner or group, a rename onto a directory",
		run:   checkReasons})
	register(&Check{id: "C28", title: "version negotiation",
		rules: "version: a version request succeeds exactly if the version is 9P2000, and then returns that version and a message size not above the client's",
		run:   checkVersion})
}

func checkNoCrash(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	for _, n := range handlerNames {
		r := s.runs[n]
		c.safety(r.x, "safe")
		for _, o := range r.outs {
			c.want(o.kind == outRet, "ends", o.pos, r.fn, "a path ends in a crash")
			c.want(len(o.st.locks) == 0, "unlocked", o.pos, r.fn, "a path returns with a lock held")
			for _, e := range allEvents(o.st.events()) {
				switch e.kind {
				case "mapset":
					if s.isTable(e.args[0]) {
						c.want(nonNilTerm(e.args[2]), "table", e.pos, r.fn, "what is put into the table may be nil: %v", e.args[2])
					}
				case "exit":
					c.fail("ends", e.pos, r.fn, "ends the server")
				}
			}
		}
	}
	// the tracing server
	for _, n := range handlerNames {
		fn := c.method("pkg/debugfs", "DebugFileServer", n)
		if fn == nil {
			continue
		}
		x := newExec(c.pr)
		args := params(fn)
		args[0] = mkSym("nn:dfs", fn.Params[0].Type())
		for _, o := range c.runFn(x, fn, newState(), args, nil) {
			c.want(o.kind == outRet, "ends", o.pos, fn, "a path ends in a crash")
		}
		c.safety(x, "safe")
	}
	// the dispatcher, for requests as the connection hands them over
	for _, r := range c.dispatchRuns() {
		c.safety(r.x, "safe")
		for _, o := range r.outs {
			c.want(o.kind == outRet, "ends", o.pos, r.fn, "a path ends in a crash")
		}
	}
	// the goroutine of a connection
	for _, r := range c.connRuns() {
		c.safety(r.x, "safe")
		for _, o := range r.outs {
			c.want(o.kind == outRet, "ends", o.pos, r.fn, "a path ends in a crash")
			c.want(len(o.st.locks) == 0, "unlocked", o.pos, r.fn, "ends with a lock held")
		}
	}
	c.need("safe", 300)
	c.need("ends", 100)
	c.need("table", 3)
	c.need("unlocked", 50)
}

func checkRoot(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	strT := func(t types.Type) bool {
		if t == nil {
			return false
		}
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	for _, n := range handlerNames {
		r := s.runs[n]
		for _, p := range s.paths(c, r, "path") {
			vars := s.inLoops(p)
			for _, e := range p.es {
				if isHost(e) && !strings.HasPrefix(e.name, "(") {
					sig := extSig(c.pr, e.name)
					for i, a := range e.args {
						isStr := strT(typeOfTerm(a)) || a.op == "str" || a.op == "cat"
						if sig != nil && i < sig.Params().Len() {
							isStr = strT(sig.Params().At(i).Type())
						}
						if !isStr {
							continue
						}
						c.want(s.contained(p.st, a, vars, 0), "path", e.pos, r.fn, "%s is given %v, which may be outside of the root", e.name, a)
					}
				}
				if e.kind == "store" && e.args[0].op == "faddr" && e.args[0].s == s.name && p.anyFile(e.args[0].args[0]) {
					c.want(s.contained(p.st, e.args[1], vars, 0), "fid-path", e.pos, r.fn, "a fid gets the path %v, which may be outside of the root", e.args[1])
				}
				if e.kind == "store" && e.args[0].op == "faddr" && e.args[0].s == s.root && e.args[0].args[0] == s.e {
					c.fail("path", e.pos, r.fn, "the root of the server is changed")
				}
				if e.kind == "mapset" && s.isTable(e.args[0]) {
					v := e.args[2]
					if v.op != "alloc" {
						c.want(p.anyFile(v), "fid-path", e.pos, r.fn, "not known what the fid is bound to: %v", v)
						continue
					}
					nm := p.st.load(mk("faddr", s.name, nil, v), types.Typ[types.String])
					c.want(s.contained(p.st, nm, vars, 0), "fid-path", e.pos, r.fn, "a fid is bound to the path %v, which may be outside of the root", nm)
				}
			}
		}
	}
	c.need("path", 15)
	c.need("fid-path", 5)
}

// extSig is the signature of a function outside the repository.
func extSig(pr *Program, name string) *types.Signature {
	for _, p := range pr.TPkgs {
		for path, imp := range p.Imports {
			if strings.HasPrefix(name, path+".") {
				if o := imp.Types.Scope().Lookup(strings.TrimPrefix(name, path+".")); o != nil {
					if s, ok := o.Type().(*types.Signature); ok {
						return s
					}
				}
			}
		}
	}
	return nil
}

// sinceLock: the event and the one before it lie in one holding of the server's lock.
func sinceLock(from, to *Event) bool {
	for p := to; p != nil; p = p.prev {
		if p == from {
			return true
		}
		if p.kind == "lock" || p.kind == "unlock" {
			return false
		}
	}
	return false
}

func checkFidLife(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	for _, n := range handlerNames {
		r := s.runs[n]
		for _, p := range s.paths(c, r, "bind") {
			var sets, dels []*Event
			for _, e := range p.es {
				switch e.kind {
				case "mapset", "mapdel", "mapget", "mapnext":
					if !s.isTable(e.args[0]) {
						continue
					}
					if e.kind == "mapset" {
						c.want(guarded(e, s.e), "bind", e.pos, r.fn, "a fid is bound without the lock of the table")
						sets = append(sets, e)
					}
					if e.kind == "mapdel" {
						dels = append(dels, e)
					}
				case "store":
					if s.swapped(p, e) && n == "Rversion" {
						dels = append(dels, e)
					} else if e.args[0].op == "faddr" && e.args[0].args[0] == s.e && e.args[0].s == s.files {
						c.fail("bind", e.pos, r.fn, "the table of fids is replaced")
					}
				case "mapclear":
					if s.isTable(e.args[0]) {
						dels = append(dels, e)
					}
				}
			}
			pos := p.o.pos
			// binding
			var key *Term
			switch n {
			case "Rattach":
				key = r.args[0]
			case "Rwalk":
				key = r.args[1]
			}
			for _, e := range sets {
				if !c.want(key != nil && p.top[e], "bind", e.pos, r.fn, "this request binds fids") {
					continue
				}
				c.want(p.good, "bind", e.pos, r.fn, "a fid is bound by a request that fails")
				c.want(e.args[1] == key, "bind", e.pos, r.fn, "binds %v, and not the fid asked for", e.args[1])
				free := false
				for _, g := range p.lookups(key) {
					if p.isUnknown(g) && sinceLock(g, e) {
						free = true
					}
				}
				if n == "Rwalk" && p.st.proves(mkEqInt(key, r.args[0])) && p.known(r.args[0]) {
					free = true
				}
				c.want(free, "bind", e.pos, r.fn, "a fid is bound that may be in use")
			}
			c.want(len(sets) <= 1, "bind", pos, r.fn, "%d fids are bound", len(sets))
			if n == "Rattach" && p.good {
				c.want(len(sets) == 1, "bound", pos, r.fn, "an attach succeeds and its fid is not known after it")
			}
			if n == "Rwalk" && p.good {
				names := r.args[2]
				whole := p.st.proves(mkEqInt(contentLen(p.o.rets[0]), contentLen(names)))
				part := p.st.proves(mkLt(contentLen(p.o.rets[0]), contentLen(names)))
				itself := len(sets) == 0 && p.st.proves(mkEqInt(contentLen(names), tZero)) && p.st.proves(mkEqInt(r.args[0], r.args[1])) && p.known(r.args[0])
				c.want(whole && len(sets) == 1 || part && len(sets) == 0 || whole && itself, "bound", pos, r.fn, "%d fids are bound by a walk that returns %v QIDs for %v names", len(sets), contentLen(p.o.rets[0]), contentLen(names))
			}
			// unbinding
			switch n {
			case "Rclunk", "Rremove":
				fid := r.args[0]
				for _, e := range dels {
					c.want(e.kind == "mapdel" && e.args[1] == fid, "unbind", e.pos, r.fn, "unbinds another fid than its own")
				}
				if p.unknown(fid) {
					continue
				}
				c.want(len(dels) == 1, "unbind", pos, r.fn, "a path of %s after which the fid is still known", n)
			case "Rversion":
				if p.bad {
					c.want(len(dels) == 0, "version", pos, r.fn, "a version request that is refused unbinds fids")
					continue
				}
				c.want(s.cleared(p), "version", pos, r.fn, "fids of the session before are known after a version request")
			default:
				for _, e := range dels {
					c.fail("unbind", e.pos, r.fn, "unbinds a fid")
				}
			}
		}
	}
	c.need("bind", 10)
	c.need("bound", 4)
	c.need("unbind", 6)
	c.need("version", 2)
}

// cleared: every entry of the table has been taken out on this path.
func (s *fsSys) cleared(p *fsPath) bool {
	for _, e := range p.o.st.events() {
		if e.kind == "mapclear" && s.isTable(e.args[0]) || s.swapped(p, e) {
			return true
		}
		if e.loop == nil || !finished(p.o.st, e) {
			continue
		}
		ok := len(e.loop.back) > 0
		for _, b := range e.loop.back {
			var next *Event
			del := false
			for _, be := range allEvents(b.events) {
				if be.kind == "mapnext" && s.isTable(be.args[0]) {
					next = be
				}
				if be.kind == "mapdel" && s.isTable(be.args[0]) && next != nil && be.args[1] == next.args[1] {
					del = true
				}
			}
			if !del {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// swapped: a new map that stays empty takes the place of the table.
func (s *fsSys) swapped(p *fsPath, e *Event) bool {
	if e.kind != "store" || len(e.args) < 2 || e.args[0].op != "faddr" || e.args[0].args[0] != s.e || e.args[0].s != s.files || e.args[1].op != "mkmap" {
		return false
	}
	for _, o := range p.es {
		if o.kind == "mapset" && o.args[0] == e.args[1] {
			return false
		}
	}
	return true
}

// closesAll: a loop over the whole table closes the file of each fid.
func (s *fsSys) closesAll(p *fsPath) bool {
	for _, e := range p.o.st.events() {
		if e.loop == nil || !finished(p.o.st, e) || len(e.loop.back) == 0 {
			continue
		}
		ok := true
		for _, b := range e.loop.back {
			q := &fsPath{s: s, r: p.r, st: b.st, es: allEvents(b.events)}
			var next *Event
			closed := map[*Term][]*Event{}
			for _, be := range q.es {
				if be.kind == "mapnext" && s.isTable(be.args[0]) {
					next = be
				}
				if closeCall(be) {
					closed[be.args[0]] = append(closed[be.args[0]], be)
				}
			}
			if next == nil || !q.fileGone(next.args[1], closed) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// stepOf: the path t is name looked up in the directory dir.
func (s *fsSys) stepOf(t, dir, name *Term) bool {
	has := func(x *Term) bool { return mentions(t, func(u *Term) bool { return u == x }) }
	if !has(dir) || !has(name) {
		return false
	}
	// root and / and dir relative to the root, then name last
	return joinsLast(t, name)
}

// joinsLast: name is the last element joined.
func joinsLast(t, name *Term) bool {
	if t == name {
		return true
	}
	if t.op == "app" && len(t.args) > 0 {
		switch t.s {
		case "path.Join", "path/filepath.Join", "path.Clean", "path/filepath.Clean", "path/filepath.FromSlash":
			return joinsLast(t.args[len(t.args)-1], name)
		}
	}
	if t.op == "cat" {
		ps := pieces(t)
		return joinsLast(ps[len(ps)-1], name)
	}
	return false
}

func checkOwnFile(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	for _, n := range handlerNames {
		r := s.runs[n]
		for _, p := range s.paths(c, r, "own") {
			fid := p.fid()
			pos := p.o.pos
			if n == "Rattach" || n == "Rversion" || n == "Rflush" {
				for _, e := range p.es {
					if isHost(e) && changing(e) {
						c.fail("own", e.pos, r.fn, "%s of a request that has no fid to act on", e.name)
					}
				}
				if n == "Rattach" && p.good {
					// the file attached is the root or what aname names in it
					var st *Event
					for _, e := range p.es {
						if statCall(e) && isNilT(hostErr(e)) {
							st = e
						}
					}
					if c.want(st != nil, "effect", pos, r.fn, "an attach that does not look at its file") {
						c.want(mentions(st.args[0], func(t *Term) bool { return t == r.args[3] }), "effect", st.pos, r.fn, "an attach of %v, which is not what was asked for", st.args[0])
						for _, e := range p.es {
							if e.kind == "mapset" && s.isTable(e.args[0]) && e.args[2].op == "alloc" {
								nm := p.st.load(mk("faddr", s.name, nil, e.args[2]), types.Typ[types.String])
								c.want(nm == st.args[0], "effect", e.pos, r.fn, "the fid is bound to %v, and not the file that was looked at", nm)
							}
						}
					}
				}
				continue
			}
			// one that is known when the request looks first is its fid, though
			// another request may unbind it meanwhile
			ls := p.lookups(fid)
			if !p.known(fid) || p.isUnknown(ls[0]) {
				c.want(p.bad, "unknown", pos, r.fn, "%s of a fid that may not be known succeeds", n)
				for _, e := range p.es {
					if isHost(e) {
						c.fail("unknown", e.pos, r.fn, "%s though the fid is not known", e.name)
					}
					if e.kind == "mapdel" && s.isTable(e.args[0]) && e.args[1] == fid && p.unknown(fid) {
						continue // which does nothing
					}
					if (e.kind == "mapset" || e.kind == "mapdel") && s.isTable(e.args[0]) {
						c.fail("unknown", e.pos, r.fn, "the table is changed though the fid is not known")
					}
				}
				continue
			}
			// whose path, whose file
			opened := map[*Term]bool{}
			own := s.ownPaths(p, fid)
			for _, e := range p.es {
				switch {
				case openCall(e):
					opened[e.res[0]] = true
					fallthrough
				case isHost(e) && !strings.HasPrefix(e.name, "("):
					sig := extSig(c.pr, e.name)
					for i, a := range e.args {
						if sig == nil || i >= sig.Params().Len() {
							continue
						}
						if b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
							continue
						}
						c.want(own(a, e), "own", e.pos, r.fn, "%s of %v, which is neither the path of the request's fid nor made from it and the request's names", e.name, a)
					}
				case isHost(e) && len(e.args) > 0:
					h := e.args[0]
					c.want(opened[h] || p.ofFile(h, fid, s.handle), "own", e.pos, r.fn, "%s of %v, which is not the open file of the request's fid", e.name, h)
				case e.kind == "store" && e.args[0].op == "faddr" && p.anyFile(rootObj(e.args[0])):
					c.want(p.isFile(rootObj(e.args[0]), fid), "fields", e.pos, r.fn, "changes what another fid stands for")
				}
			}
			if p.good {
				why := s.effect(c, p, fid)
				c.want(why == "", "effect", pos, r.fn, "%s: %s", n, why)
			}
		}
	}
	c.need("unknown", 9)
	c.need("own", 40)
	c.need("effect", 10)
	c.need("fields", 4)
}

// rootObj is the object a field address is in.
func rootObj(a *Term) *Term {
	for a.op == "faddr" || a.op == "elem" {
		a = a.args[0]
	}
	return a
}

// ownPaths tells which paths a request on fid may use.
func (s *fsSys) ownPaths(p *fsPath, fid *Term) func(*Term, *Event) bool {
	isOwn := func(t *Term) bool { return p.ofFile(t, fid, s.name) }
	r := p.r
	walked := map[*Term]bool{}
	if r.name == "Rwalk" {
		for _, e := range p.es {
			if e.loop == nil {
				continue
			}
			for _, v := range e.loop.vars {
				if v.entry != nil && isOwn(v.entry) && v.cur != nil {
					walked[v.cur] = true
				}
			}
		}
	}
	var stored []*Term
	for _, e := range p.es {
		if e.kind == "store" && e.args[0].op == "faddr" && e.args[0].s == s.name && p.isFile(e.args[0].args[0], fid) {
			stored = append(stored, e.args[1])
		}
	}
	return func(t *Term, e *Event) bool {
		if isOwn(t) {
			return true
		}
		uses := func(x func(*Term) bool) bool { return mentions(t, x) }
		switch r.name {
		case "Rwalk":
			return uses(func(u *Term) bool { return walked[u] || isOwn(u) }) && uses(func(u *Term) bool { return u.op == "idx" && u.args[0] == r.args[2] })
		case "Rcreate":
			return uses(isOwn) && uses(func(u *Term) bool { return u == r.args[1] })
		case "Rwstat":
			// after a rename the new path; for the rename, one from the record's name
			for _, v := range stored {
				if v == t {
					return true
				}
			}
			name := decField(r.args[1], mkInt(41), field{"name", fstr}).val
			return uses(func(u *Term) bool { return u == name })
		}
		return false
	}
}

// effect: the host call the request stands for has been made.
func (s *fsSys) effect(c *Ctx, p *fsPath, fid *Term) string {
	r := p.r
	count := func(f func(*Event) bool) int {
		n := 0
		for _, e := range p.es {
			if f(e) {
				n++
			}
		}
		return n
	}
	ownName := func(e *Event) bool { return p.ofFile(e.args[0], fid, s.name) }
	switch r.name {
	case "Ropen":
		if count(func(e *Event) bool { return openCall(e) && ownName(e) && isNilT(hostErr(e)) }) != 1 {
			return "the file of the fid is not opened once"
		}
	case "Rremove":
		if count(func(e *Event) bool { return callIs(e, "os.Remove") && ownName(e) && isNilT(hostErr(e)) }) != 1 {
			return "the file of the fid is not removed"
		}
		if count(func(e *Event) bool { return lastName(e.name) == "RemoveAll" }) > 0 {
			return "more than the file is removed"
		}
	case "Rstat":
		if count(func(e *Event) bool { return statCall(e) && ownName(e) && isNilT(hostErr(e)) }) == 0 {
			return "the file of the fid is not looked at"
		}
	case "Rcreate":
		if count(func(e *Event) bool { return (openCall(e) || callIs(e, "os.Mkdir")) && isNilT(hostErr(e)) }) != 1 {
			return "nothing is created, or more than one file"
		}
	case "Rwrite":
		if count(func(e *Event) bool { return callIs(e, "(*os.File).WriteAt", "(*os.File).Write") }) != 1 {
			return "nothing is written, or more than once"
		}
	case "Rread":
		// what a directory read returns, read now or kept, is C29's
		if obj := p.object(fid); obj != nil {
			if dir, known := s.fidIsDir(p, obj); known && dir {
				break
			}
		}
		if count(func(e *Event) bool {
			switch lastName(e.name) {
			case "ReadAt", "Readdir", "Read", "ReadDir":
				return isHost(e)
			}
			return false
		}) == 0 && !p.st.proves(mkEqInt(contentLen(p.o.rets[0]), tZero)) {
			return "data is returned that was not read"
		}
	}
	for _, e := range p.es {
		switch {
		case callIs(e, "os.Remove", "os.RemoveAll"):
			if r.name != "Rremove" {
				return "removes a file"
			}
		case callIs(e, "os.Rename", "os.Chmod", "os.Truncate", "os.Chtimes", "os.Chown", "os.Lchown", "(*os.File).Truncate", "(*os.File).Chmod", "(*os.File).Chown"):
			if r.name != "Rwstat" {
				return e.name + " in a request that is not wstat"
			}
		case callIs(e, "os.Mkdir", "os.MkdirAll", "os.Symlink", "os.Link"):
			if r.name != "Rcreate" {
				return e.name + " in a request that is not create"
			}
		case callIs(e, "(*os.File).WriteAt", "(*os.File).Write", "(*os.File).WriteString"):
			if r.name != "Rwrite" {
				return e.name + " in a request that is not write"
			}
		}
	}
	return ""
}

// reopenFailed: the path tried to open a file and could not.
func reopenFailed(p *fsPath) bool {
	for _, e := range p.es {
		if openCall(e) && failedCall(e) {
			return true
		}
	}
	return false
}

func checkHandles(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	for _, n := range handlerNames {
		r := s.runs[n]
		for _, p := range s.paths(c, r, "kept") {
			fid := p.fid()
			closed := map[*Term][]*Event{}
			stored := map[*Term][]*Event{}
			for _, e := range p.es {
				if closeCall(e) {
					closed[e.args[0]] = append(closed[e.args[0]], e)
				}
				if e.kind == "store" && e.args[0].op == "faddr" && e.args[0].s == s.handle && isFileTerm(s, e.args[0].args[0]) {
					stored[e.args[1]] = append(stored[e.args[1]], e)
				}
			}
			// what is opened
			for _, e := range p.es {
				if !openCall(e) || failedCall(e) {
					continue
				}
				h := e.res[0]
				ks, cs := stored[h], closed[h]
				if c.want(len(ks)+len(cs) == 1, "kept", e.pos, r.fn, "a file is opened, kept %d times and closed %d times", len(ks), len(cs)) && len(ks) == 1 {
					c.want(fid != nil && p.isFile(ks[0].args[0].args[0], fid), "kept", ks[0].pos, r.fn, "the file opened is kept for another fid")
					c.want(p.top[ks[0]], "kept", ks[0].pos, r.fn, "kept in a loop")
				}
			}
			// what is stored
			for v, es := range stored {
				for _, e := range es {
					obj := e.args[0].args[0]
					if isNilT(v) {
						// giving one up
						old := handleBefore(s, e)
						gone := old == nil || p.nilHandle(old) || len(closed[old]) > 0
						c.want(gone, "overwritten", e.pos, r.fn, "an open file is dropped and not closed")
						continue
					}
					if v.op == "ld" && v.args[0].op == "faddr" && v.args[0].s == s.handle {
						c.want(v.args[0].args[0] == obj, "shared", e.pos, r.fn, "the open file of one fid is given to another")
						continue
					}
					fresh := false
					for _, o := range p.es {
						if openCall(o) && o.res[0] == v {
							fresh = true
						}
					}
					c.want(fresh, "shared", e.pos, r.fn, "not known where the open file comes from: %v", v)
					if p.anyFile(obj) {
						old := handleBefore(s, e)
						ok := old != nil && (p.nilHandle(old) || len(closed[old]) > 0)
						c.want(ok, "overwritten", e.pos, r.fn, "an open file may be overwritten, and is never closed then")
					}
				}
			}
			// new entries of the table own no file of another
			for _, e := range p.es {
				if e.kind != "mapset" || !s.isTable(e.args[0]) {
					continue
				}
				v := e.args[2]
				if v.op != "alloc" {
					c.fail("shared", e.pos, r.fn, "two fids stand for one object: %v", v)
					continue
				}
				h := p.st.load(mk("faddr", s.handle, nil, v), types.NewPointer(types.Typ[types.Int]))
				okh := isNilT(h)
				for _, o := range p.es {
					if openCall(o) && o.res[0] == h {
						okh = true
					}
				}
				c.want(okh, "shared", e.pos, r.fn, "a new fid starts with the open file %v", h)
				// what was there before
				if fid != nil && !(e.args[1] == fid) && !p.st.proves(mkEqInt(e.args[1], fid)) {
					continue
				}
				if fid == nil {
					continue
				}
				c.want(p.fileGone(fid, closed), "closed", e.pos, r.fn, "a fid is bound anew, and the file it had open may be left open")
			}
			for _, e := range p.es {
				if e.kind == "mapclear" && s.isTable(e.args[0]) || s.swapped(p, e) {
					c.want(s.closesAll(p), "closed", e.pos, r.fn, "all fids are unbound, and the files they had open may be left open")
				}
				if e.kind != "mapdel" || !s.isTable(e.args[0]) {
					continue
				}
				gone := false
				if fid != nil && e.args[1] == fid {
					gone = p.unknown(fid) || p.fileGone(fid, closed)
				} else {
					gone = s.loopCloses(p, e)
				}
				c.want(gone, "closed", e.pos, r.fn, "a fid is unbound, and the file it had open may be left open")
			}
			for h, es := range closed {
				c.want(len(es) == 1 || !p.top[es[0]], "closed-once", es[0].pos, r.fn, "%v is closed %d times", h, len(es))
				if h.op == "ld" && h.args[0].op == "faddr" && h.args[0].s == s.handle && p.anyFile(h.args[0].args[0]) {
					key := h.args[0].args[0].args[1]
					unbound := false
					for _, e := range p.es {
						if e.kind == "mapdel" && s.isTable(e.args[0]) && (e.args[1] == key) {
							unbound = true
						}
						if e.kind == "mapclear" && s.isTable(e.args[0]) || s.swapped(p, e) {
							unbound = true
						}
						if e.kind == "mapset" && s.isTable(e.args[0]) && e.args[1] == key {
							unbound = true
						}
						if e.kind == "store" && e.args[0].op == "faddr" && e.args[0].s == s.handle && e.args[0].args[0] == h.args[0].args[0] {
							unbound = unbound || !isNilT(e.args[1]) || reopenFailed(p)
						}
					}
					c.want(unbound, "closed-once", es[0].pos, r.fn, "the file of a fid is closed, and the fid lives on with it")
				}
			}
		}
	}
	c.need("kept", 10)
	c.need("overwritten", 6)
	c.need("shared", 4)
	c.need("closed", 6)
	c.need("closed-once", 3)
}

func isFileTerm(s *fsSys, t *Term) bool {
	if t.op == "mapget" {
		return true
	}
	if t.t != nil {
		if p, ok := t.t.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), s.ft) {
			return true
		}
	}
	return false
}

// nilHandle: the path knows that there was no open file.
func (p *fsPath) nilHandle(h *Term) bool {
	return isNilT(h) || p.st.proves(mkEq(h, mkNil(nil), nil))
}

// handleBefore is the value of the handle field before a store to it.
func handleBefore(s *fsSys, e *Event) *Term {
	if o, ok := e.aux.(*Term); ok {
		return o
	}
	return nil
}

// fileGone: the open file of the fid is closed on this path, or there is none.
func (p *fsPath) fileGone(fid *Term, closed map[*Term][]*Event) bool {
	for h := range closed {
		if p.ofFile(h, fid, p.s.handle) {
			return true
		}
	}
	for _, f := range p.st.facts {
		if f.op == "eq" && (isNilT(f.args[0]) && p.ofFile(f.args[1], fid, p.s.handle) || isNilT(f.args[1]) && p.ofFile(f.args[0], fid, p.s.handle)) {
			return true
		}
	}
	return false
}

// loopCloses: in the turn of the loop that unbinds the fid its file is closed.
func (s *fsSys) loopCloses(p *fsPath, del *Event) bool {
	for _, e := range p.o.st.events() {
		if e.loop == nil {
			continue
		}
		found := false
		for _, b := range e.loop.back {
			in := false
			for _, be := range allEvents(b.events) {
				if be == del {
					in = true
				}
			}
			if !in {
				continue
			}
			found = true
			q := &fsPath{s: s, r: p.r, st: b.st, es: allEvents(b.events)}
			closed := map[*Term][]*Event{}
			for _, be := range q.es {
				if closeCall(be) {
					closed[be.args[0]] = append(closed[be.args[0]], be)
				}
			}
			if !q.fileGone(del.args[1], closed) {
				return false
			}
		}
		if found {
			return true
		}
	}
	return false
}

func checkHostErrors(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	for _, n := range handlerNames {
		r := s.runs[n]
		for _, p := range s.paths(c, r, "reported") {
			for i, e := range p.es {
				if !isHost(e) || !failedCall(e) {
					continue
				}
				if closeCall(e) {
					continue
				}
				err := hostErr(e)
				if p.isEOF(err) && hasPrefix(lastName(e.name), "Read") {
					continue
				}
				if n == "Rwalk" && statCall(e) && p.good {
					// C20
					c.want(p.st.proves(mkLt(contentLen(p.o.rets[0]), contentLen(r.args[2]))), "reported", e.pos, r.fn, "a walk succeeds though an element of it does not exist")
					continue
				}
				if n == "Rwstat" && statCall(e) && !p.ofFile(e.args[0], r.args[0], s.name) && renamedTo(p.es[i:], e.args[0]) {
					continue
				}
				c.want(p.bad, "reported", e.pos, r.fn, "%s fails and the request succeeds", e.name)
			}
		}
	}
	c.need("reported", 15)
}

// renamedTo: the path is then the target of a rename.
func renamedTo(es []*Event, t *Term) bool {
	for _, e := range es {
		if callIs(e, "os.Rename") && e.args[1] == t {
			return true
		}
	}
	return false
}

func checkUnchanged(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	for _, n := range handlerNames {
		r := s.runs[n]
		for _, p := range s.paths(c, r, "unchanged") {
			renamed := false
			var to *Term
			for _, e := range p.es {
				if callIs(e, "os.Rename") && isNilT(hostErr(e)) {
					renamed, to = true, e.args[1]
				}
			}
			if renamed {
				got := false
				for _, e := range p.es {
					if e.kind == "store" && e.args[0].op == "faddr" && e.args[0].s == s.name && p.anyFile(e.args[0].args[0]) {
						got = e.args[1] == to
					}
				}
				c.want(got, "renamed", p.o.pos, r.fn, "after a rename the fid does not stand for the new path")
			}
			if !p.bad {
				continue
			}
			c.ok("unchanged")
			for _, e := range p.es {
				if e.kind == "mapset" && s.isTable(e.args[0]) {
					c.fail("unchanged", e.pos, r.fn, "a request that fails binds a fid")
				}
				if e.kind != "store" || e.args[0].op != "faddr" || !p.anyFile(rootObj(e.args[0])) {
					continue
				}
				f := topField(e.args[0])
				if f != s.name && f != s.handle && f != s.qidf {
					continue
				}
				if renamed && f == s.name && e.args[1] == to {
					continue
				}
				if p.unbound(rootObj(e.args[0])) {
					// no fid stands for it any more
					continue
				}
				if f == s.handle {
					// the same as before
					old := handleBefore(s, e)
					if isNilT(e.args[1]) && old != nil && p.nilHandle(old) {
						continue
					}
					// put another in for one that is closed: the reopened directory
					if old != nil && !isNilT(e.args[1]) {
						cl := false
						for _, k := range p.es {
							if closeCall(k) && k.args[0] == old {
								cl = true
							}
						}
						if cl && n == "Rread" {
							continue
						}
					}
				}
				c.fail("unchanged", e.pos, r.fn, "a request that fails changes the %s of its fid", f)
			}
		}
	}
	c.need("unchanged", 25)
	c.need("renamed", 1)
}

// topField is the field of the object itself that the address lies in.
func topField(a *Term) string {
	for a.op == "faddr" || a.op == "elem" {
		if b := a.args[0]; b.op != "faddr" && b.op != "elem" {
			return a.s
		}
		a = a.args[0]
	}
	return ""
}

func checkReasons(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	for _, n := range handlerNames {
		r := s.runs[n]
		for _, p := range s.paths(c, r, "reason") {
			if !p.bad {
				continue
			}
			why := s.reason(c, p)
			c.want(why != "", "reason", p.o.pos, r.fn, "%s is refused without any of the reasons there are (the error is %v)", n, p.err)
		}
	}
	c.need("reason", 25)
}

func (s *fsSys) reason(c *Ctx, p *fsPath) string {
	r := p.r
	for i, e := range p.es {
		if isHost(e) && failedCall(e) && !closeCall(e) && p.top[e] {
			if p.maybeEOF(e) || r.name == "Rwstat" && statCall(e) && renamedTo(p.es[i:], e.args[0]) {
				continue
			}
			return "host"
		}
	}
	if fid := p.fid(); fid != nil && p.unknown(fid) {
		return "unknown fid"
	}
	for _, f := range p.st.facts {
		if f.op == "not" && f.args[0].op == "app" && strings.HasSuffix(f.args[0].s, "Rel.ok") {
			return "path"
		}
	}
	open := func(want bool) bool {
		fid := p.fid()
		for _, f := range p.st.facts {
			g := f
			neg := false
			if f.op == "not" {
				g, neg = f.args[0], true
			}
			if g.op != "eq" {
				continue
			}
			for k := 0; k < 2; k++ {
				if isNilT(g.args[k]) && p.ofFile(g.args[1-k], fid, s.handle) && neg == want {
					return true
				}
			}
		}
		return false
	}
	switch r.name {
	case "Rversion":
		if p.st.proves(notT(mkEq(r.args[1], mkStr("9P2000"), types.Typ[types.String]))) {
			return "version"
		}
	case "Rattach":
		if p.st.proves(notT(mkEqInt(r.args[1], mkInt(0xFFFFFFFF)))) {
			return "auth"
		}
		if p.known(r.args[0]) {
			return "in use"
		}
	case "Rwalk":
		if p.known(r.args[1]) && p.st.proves(notT(mkEqInt(r.args[0], r.args[1]))) {
			// the lookup was for the new fid, and not the old one
			for _, e := range p.es {
				if e.kind == "mapget" && s.isTable(e.args[0]) && e.args[1] == r.args[1] && p.isKnown(e) {
					return "in use"
				}
			}
		}
		if p.st.proves(mkEqInt(r.args[0], r.args[1])) && open(true) {
			return "open"
		}
	case "Ropen", "Rcreate":
		if open(true) {
			return "open"
		}
	case "Rread":
		if open(false) {
			return "not open"
		}
		if p.st.proves(mkLt(r.args[2], tZero)) {
			return "count"
		}
	case "Rwrite":
		if open(false) {
			return "not open"
		}
	case "Rwstat":
		b := r.args[1]
		if refutes(p.st, b, mkInt(2), statFields) == "" {
			return "malformed"
		}
		name := decField(b, mkInt(41), field{"name", fstr})
		uid := decField(b, name.end, field{"uid", fstr})
		gid := decField(b, uid.end, field{"gid", fstr})
		for _, l := range []*Term{uid.val, gid.val} {
			if p.st.proves(notT(mkEqInt(contentLen(l), tZero))) || p.st.proves(mkLt(tZero, contentLen(l))) {
				return "owner"
			}
			if p.st.proves(notT(mkEq(l, mkStr(""), types.Typ[types.String]))) {
				return "owner"
			}
		}
		// the target of the rename is a directory
		for _, e := range p.es {
			if statCall(e) && isNilT(hostErr(e)) && mentions(e.args[0], func(t *Term) bool { return t == name.val }) {
				for _, f := range p.st.facts {
					if f.op == "not" && mentions(f, func(t *Term) bool { return t == e.res[0] }) || f.op == "app" && strings.HasSuffix(f.s, "IsDir") && mentions(f, func(t *Term) bool { return t == e.res[0] }) {
						return "directory"
					}
				}
			}
		}
	}
	return ""
}

func checkVersion(c *Ctx) {
	s := c.fs("Rversion")
	if s == nil {
		return
	}
	r := s.runs["Rversion"]
	str := types.Typ[types.String]
	is := mkEq(r.args[1], mkStr("9P2000"), str)
	good := 0
	for _, p := range s.paths(c, r, "version") {
		if p.bad {
			c.want(p.st.proves(notT(is)), "version", p.o.pos, r.fn, "9P2000 may be refused")
			continue
		}
		good++
		c.want(p.st.proves(is), "version", p.o.pos, r.fn, "a version other than 9P2000 may be accepted")
		v := p.o.rets[1]
		c.want(v == r.args[1] || v == mkStr("9P2000"), "version", p.o.pos, r.fn, "the version returned is %v", v)
		c.want(p.st.proves(mkLe(p.o.rets[0], r.args[0])), "version", p.o.pos, r.fn, "the message size returned, %v, may be more than the client's", p.o.rets[0])
	}
	c.want(good > 0, "version", r.fn.Pos(), r.fn, "no path accepts")
	c.need("version", 4)
}

var _ = fmt.Sprintf
var _ = sort.Strings
