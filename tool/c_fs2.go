package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// The file server, continued: what its requests mean.

// ---------- paths as a directory and steps from it

// A stepped path is steps taken from base.
type stepped struct {
	base  *Term
	steps []*Term
}

// steppedOf takes a path apart into the path it starts from and the names
// looked up from there.
func (s *fsSys) steppedOf(t *Term) (stepped, bool) {
	isRoot := func(r *Term) bool {
		if isField(r, s.e, s.root) {
			return true
		}
		if joinApp(r) && len(r.args) > 0 && isField(r.args[0], s.e, s.root) {
			for _, a := range r.args[1:] {
				if a.op != "str" || strings.Trim(a.s, "/") != "" {
					return false
				}
			}
			return true
		}
		return false
	}
	if isRoot(t) {
		return stepped{base: mkSym("root", nil)}, true
	}
	var els []*Term
	if !flatPath(t, &els) || len(els) == 0 {
		return stepped{}, false
	}
	if !isRoot(els[0]) {
		return stepped{els[0], els[1:]}, true
	}
	rest := els[1:]
	if len(rest) > 0 && rest[0].op == "app" && rest[0].s == "path/filepath.Rel.0" && isRoot(rest[0].args[0]) {
		d, ok := s.steppedOf(rest[0].args[1])
		if !ok {
			return stepped{}, false
		}
		return stepped{d.base, append(append([]*Term{}, d.steps...), rest[1:]...)}, true
	}
	return stepped{mkSym("root", nil), rest}, true
}

func joinApp(t *Term) bool {
	return t.op == "app" && (t.s == "path.Join" || t.s == "path/filepath.Join")
}

// flatPath lists the parts a path is joined from.
func flatPath(t *Term, out *[]*Term) bool {
	switch {
	case joinApp(t):
		for _, a := range t.args {
			if !flatPath(a, out) {
				return false
			}
		}
		return true
	case t.op == "app" && hasPrefix(t.s, "path.Clean", "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash") && len(t.args) == 1:
		return flatPath(t.args[0], out)
	case t.op == "cat":
		// a + "/" + b
		for _, p := range pieces(t) {
			if !flatPath(p, out) {
				return false
			}
		}
		return true
	case t.op == "str":
		if strings.Trim(t.s, "/") == "" {
			return true
		}
	}
	*out = append(*out, t)
	return true
}

// leads: the path t is name, looked up from dir; dir nil stands for the root.
func (s *fsSys) leads(t *Term, isDir func(*Term) bool, name *Term) bool {
	p, ok := s.steppedOf(t)
	return ok && isDir(p.base) && len(p.steps) == 1 && p.steps[0] == name
}

func isRootSym(t *Term) bool { return t == mkSym("root", nil) }

// ---------- constants of os

func osConst(c *Ctx, name string) (int64, bool) {
	for _, p := range c.pr.TPkgs {
		for path, imp := range p.Imports {
			if path != "os" {
				continue
			}
			if k, ok := imp.Types.Scope().Lookup(name).(*types.Const); ok {
				return constant.Int64Val(constant.ToInt(k.Val()))
			}
		}
	}
	return 0, false
}

// bitRange is the value of some bits of a term.
func bitRange(t *Term, w, lo, hi int) *Term { return bitsTerm(toBits(t, w)[lo:hi]) }

// sameInt: the two agree in their low w bits.
func sameInt(st *State, a, b *Term, w int) bool {
	if a == b || st.proves(mkEqInt(a, b)) {
		return true
	}
	x, y := toBits(a, w), toBits(b, w)
	if sameBits(x, y) {
		return true
	}
	// bits of two numbers known to be the same
	p, q := x[0].a, y[0].a
	if p == nil || q == nil || !st.proves(mkEqInt(p, q)) {
		return false
	}
	for i := range x {
		if x[i].a != p || y[i].a != q || x[i].i != y[i].i {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{id: "C17", title: "open and create do what their mode and permissions say",
		rules: "flags: for each of the 256 modes, open passes the host the access its low two bits say, truncation exactly if the mode asks for it, and nothing else, and create the same with creation and truncation; kind: create makes a directory exactly if the permissions say so, else a file; perm: with the low nine bits of the permissions; opened: after an open that succeeds the fid has that file open, and the QID returned is the fid's; created: after a create that succeeds the fid stands for the new file and its QID is that of the file, and if it is no directory it is open",
		run:   checkModes})
	register(&Check{id: "C18", title: "wstat changes exactly what the record says",
		rules: "mode, name, length, times: on each path that succeeds, the attribute is changed exactly once with the record's value if its field is not the one that means leave it, and not at all if it is; sync: a record that changes nothing flushes the open file of the fid; once: nothing is changed after a failure; refused: a record that sets owner or group, or that is malformed, changes nothing",
		run:   checkWstat})
	register(&Check{id: "C19", title: "reads and writes move exactly the bytes at the offset",
		rules: "read: a read of a file asks the host for count bytes at the offset and returns exactly those the host gave; write: a write passes all its data and its offset to the host, unchanged, and returns the number of bytes the host says; count: no read returns more than count bytes",
		run:   checkReadWrite})
	register(&Check{id: "C20", title: "walk follows its names one by one",
		rules: "step: each turn of the walk looks at one name, in order, from where the one before led, starting at the fid's file; qid: the QID returned for it is that of the file it led to; stop: a walk ends early only where a name cannot be looked up, with an error if it is the first and with the QIDs so far if not; end: a walk that gets to the end binds the new fid to the file the last name led to, and its QID; clone: a walk of no names binds the new fid to the same file and QID",
		run:   checkWalk})
	register(&Check{id: "C21", title: "QIDs and stat records describe the file",
		rules: "qid-type: a QID has the directory and symbolic link bits exactly if the file is one, and no other; qid-path: its path is the inode number where the host has one; qid-same: path and version are the same function of the file in attach, walk, create, stat and directory entries; stat: the stat record has the file's permissions, the directory bit exactly if it is one, its modification time, length and name, and is as long as it says; fid: what is remembered and returned is the QID of the file that was looked at",
		run:   checkMeta})
	register(&Check{id: "C22", title: "tracing changes nothing",
		rules: "once: each request is passed on exactly once; args: with the same arguments, unchanged; results: and its results are returned unchanged; only: the tracing server does nothing else but log",
		run:   checkTransparent})
	register(&Check{id: "C29", title: "directory reads lose no entry",
		rules: "entries: on each path of a read of a directory, what is returned followed by what is kept for later is what was kept before followed by the encoding of the entry read from the host; rewind: a read at offset 0 drops what was kept and starts the directory over, before it reads an entry, and no other read does; fits: what is returned is not longer than the count; fresh: only reads keep anything, and a fid that is bound has nothing kept; eof: a read that returns nothing has met the end of the directory, or the next entry does not fit",
		run:   checkDirRead})
}

// openFile: the flags and permissions of a call that opens a file.
func openFlags(c *Ctx, e *Event) (flags, perm *Term) {
	switch e.name {
	case "os.OpenFile":
		return e.args[1], e.args[2]
	case "os.Open":
		return mkInt(0), mkInt(0)
	case "os.Create":
		rw, _ := osConst(c, "O_RDWR")
		cr, _ := osConst(c, "O_CREATE")
		tr, _ := osConst(c, "O_TRUNC")
		return mkInt(rw | cr | tr), mkInt(0666)
	}
	return nil, nil
}

func checkModes(c *Ctx) {
	s := c.fsTypes()
	if s == nil {
		return
	}
	k := map[string]int64{}
	for _, n := range []string{"O_RDONLY", "O_WRONLY", "O_RDWR", "O_CREATE", "O_TRUNC"} {
		v, ok := osConst(c, n)
		if !ok {
			c.fail("anchor", token.NoPos, nil, "no os.%s", n)
			return
		}
		k[n] = v
	}
	access := []int64{k["O_RDONLY"], k["O_WRONLY"], k["O_RDWR"], k["O_RDONLY"]}
	for _, n := range []string{"Ropen", "Rcreate"} {
		fn := c.method("filesystem", "FileServer", n)
		if fn == nil {
			return
		}
		mi := 1
		if n == "Rcreate" {
			mi = 3
		}
		if len(fn.Params) != mi+2 {
			c.fail("anchor", fn.Pos(), fn, "has %d parameters", len(fn.Params))
			return
		}
		for m := int64(0); m < 256; m++ {
			r := c.fsRunWith(s, n, fn, map[int]*Term{mi: mkInt(m)})
			want := access[m&3]
			if m&0x10 != 0 {
				want |= k["O_TRUNC"]
			}
			if n == "Rcreate" {
				want |= k["O_CREATE"] | k["O_TRUNC"]
			}
			seen := false
			for _, p := range s.paths(c, r, "flags") {
				for _, e := range p.es {
					if !openCall(e) {
						continue
					}
					seen = true
					f, perm := openFlags(c, e)
					v, ok := f.intVal()
					c.want(ok && v == want, "flags", e.pos, fn, "%s with mode %#x opens the file with the flags %v, and not %#x", n, m, f, want)
					if n == "Rcreate" {
						c.want(sameInt(p.st, perm, bitRange(r.args[2], 32, 0, 9), 32), "perm", e.pos, fn, "the file is created with the permissions %v", perm)
					}
				}
				s.modeEffect(c, p)
			}
			c.want(seen, "flags", fn.Pos(), fn, "%s with mode %#x opens nothing", n, m)
		}
	}
	c.need("flags", 512)
	c.need("kind", 256)
	c.need("perm", 256)
	c.need("opened", 256)
	c.need("created", 256)
}

func (s *fsSys) modeEffect(c *Ctx, p *fsPath) {
	r := p.r
	fid := r.args[0]
	if !p.good {
		return
	}
	obj := p.object(fid)
	if obj == nil {
		return
	}
	handleT := types.NewPointer(types.Typ[types.Int])
	handle := p.st.load(mk("faddr", s.handle, nil, obj), handleT)
	var open, mkdir *Event
	for _, e := range p.es {
		if openCall(e) {
			open = e
		}
		if callIs(e, "os.Mkdir", "os.MkdirAll") {
			mkdir = e
		}
	}
	if r.name == "Ropen" {
		if open != nil {
			c.want(handle == open.res[0], "opened", p.o.pos, r.fn, "after an open that succeeds the fid has %v open", handle)
		}
		c.want(s.isQIDOf(p, p.o.rets[0], fid), "opened", p.o.pos, r.fn, "the QID returned is %v, and not the fid's", p.o.rets[0])
		return
	}
	perm := r.args[2]
	dir := mkEqInt(bitRange(perm, 32, 31, 32), tZero)
	n, _ := s.storedName(p, fid)
	switch {
	case mkdir != nil:
		c.want(mkdir.name == "os.Mkdir" && p.st.proves(notT(dir)), "kind", mkdir.pos, r.fn, "a directory may be made though none was asked for")
		c.want(sameInt(p.st, mkdir.args[1], bitRange(perm, 32, 0, 9), 32), "perm", mkdir.pos, r.fn, "the directory is made with the permissions %v", mkdir.args[1])
		c.want(n == mkdir.args[0], "created", p.o.pos, r.fn, "after a create the fid stands for %v, and not the new directory", n)
	case open != nil:
		c.want(p.st.proves(dir), "kind", open.pos, r.fn, "a file may be made though a directory was asked for")
		c.want(n == open.args[0], "created", p.o.pos, r.fn, "after a create the fid stands for %v, and not the new file", n)
		c.want(handle == open.res[0], "created", p.o.pos, r.fn, "after a create the fid has %v open, and not the new file", handle)
	}
	made := n
	if made != nil {
		c.want(s.leads(made, func(d *Term) bool { return p.ofFile(d, fid, s.name) }, r.args[1]), "created", p.o.pos, r.fn, "what is created is %v, and not the name in the directory of the fid", made)
	}
}

// object is what the table has for the fid on this path.
func (p *fsPath) object(fid *Term) *Term {
	for _, e := range p.lookups(fid) {
		if p.isKnown(e) {
			return e.res[0]
		}
	}
	return nil
}

// storedName is the path the fid stands for at the end.
func (s *fsSys) storedName(p *fsPath, fid *Term) (*Term, bool) {
	obj := p.object(fid)
	if obj == nil {
		return nil, false
	}
	return p.st.load(mk("faddr", s.name, nil, obj), types.Typ[types.String]), true
}

func (s *fsSys) qidType() types.Type {
	st := s.ft.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == s.qidf {
			return st.Field(i).Type()
		}
	}
	return nil
}

// qidAt is the QID field of what a fid stands for, in a state.
func (s *fsSys) qidAt(st *State, obj *Term) *Term {
	return st.load(mk("faddr", s.qidf, nil, obj), s.qidType())
}

// isQIDOf: v is the QID remembered for the fid.
func (s *fsSys) isQIDOf(p *fsPath, v, fid *Term) bool {
	obj := p.object(fid)
	if obj == nil {
		return false
	}
	w := s.qidAt(p.st, obj)
	return sameQID(p.st, v, w, s.qidType())
}

func sameQID(st *State, a, b *Term, t types.Type) bool {
	if a == b {
		return true
	}
	for _, f := range qidFields {
		x, y := fieldByName(a, t, f), fieldByName(b, t, f)
		if x == nil || y == nil || x != y && !st.proves(mkEqInt(x, y)) {
			return false
		}
	}
	return true
}

func checkWstat(c *Ctx) {
	s := c.fs("Rwstat")
	if s == nil {
		return
	}
	r := s.runs["Rwstat"]
	fid, b := r.args[0], r.args[1]
	f := func(at int64, k fkind) *Term { return decField(b, mkInt(at), field{"", k}).val }
	mode, atime, mtime, length, name := f(21, u32), f(25, u32), f(29, u32), f(33, u64), f(41, fstr)
	dname := decField(b, mkInt(41), field{"", fstr})
	uid := decField(b, dname.end, field{"", fstr})
	gid := decField(b, uid.end, field{"", fstr})
	max32, max64 := mkInt(0xFFFFFFFF), bigAll(64)
	isEmpty := func(p *fsPath, t *Term, want bool) bool {
		e := mkEqInt(contentLen(t), tZero)
		g := mkEq(t, mkStr(""), types.Typ[types.String])
		if want {
			return p.st.proves(e) || p.st.proves(g)
		}
		return p.st.proves(notT(e)) || p.st.proves(notT(g)) || p.st.proves(mkLt(tZero, contentLen(t)))
	}
	for _, p := range s.paths(c, r, "mode") {
		if !p.known(fid) {
			continue
		}
		var ch, rn, tr, tm, sy []*Event
		failed := false
		cur := func(t *Term, e *Event) bool { // the path the fid stands for at this point
			want := (*Term)(nil)
			for _, k := range p.es {
				if k == e {
					break
				}
				if k.kind == "store" && k.args[0].op == "faddr" && k.args[0].s == s.name && p.isFile(k.args[0].args[0], fid) {
					want = k.args[1]
				}
				if callIs(k, "os.Rename") && isNilT(hostErr(k)) {
					want = k.args[1]
				}
			}
			if want == nil {
				return p.ofFile(t, fid, s.name)
			}
			return t == want
		}
		own := func(e *Event) bool {
			if strings.HasPrefix(e.name, "(*os.File).") {
				return p.ofFile(e.args[0], fid, s.handle)
			}
			return cur(e.args[0], e)
		}
		any := false
		for _, e := range p.es {
			if !isHost(e) {
				continue
			}
			c.want(!failed || !changing(e), "once", e.pos, r.fn, "%s after a failure", e.name)
			switch lastName(e.name) {
			case "Chmod", "Fchmod":
				ch = append(ch, e)
			case "Rename":
				rn = append(rn, e)
			case "Truncate":
				tr = append(tr, e)
			case "Chtimes":
				tm = append(tm, e)
			case "Sync":
				sy = append(sy, e)
			}
			if changing(e) {
				any = true
				if failedCall(e) {
					failed = true
				}
			}
		}
		attr := func(rule string, es []*Event, set, leave bool, okArgs func(*Event) bool) {
			if !p.good {
				for _, e := range es {
					c.want(set, rule, e.pos, r.fn, "%s though the record may say to leave it", e.name)
					c.want(own(e) && okArgs(e), rule, e.pos, r.fn, "%s is given %v", e.name, e.args)
				}
				return
			}
			switch {
			case set:
				if c.want(len(es) == 1, rule, p.o.pos, r.fn, "the record sets it, and it is changed %d times", len(es)) {
					c.want(own(es[0]) && okArgs(es[0]), rule, es[0].pos, r.fn, "%s is given %v, which is not what the record says", es[0].name, es[0].args)
				}
			case leave:
				c.want(len(es) == 0, rule, p.o.pos, r.fn, "the record says to leave it, and it is changed")
			default:
				c.fail(rule, p.o.pos, r.fn, "wstat succeeds without regard to what the record says")
			}
		}
		is := func(v, k *Term) (bool, bool) {
			return p.st.proves(notT(mkEqInt(v, k))), p.st.proves(mkEqInt(v, k))
		}
		last := func(e *Event) *Term { return e.args[len(e.args)-1] }
		set, leave := is(mode, max32)
		attr("mode", ch, set, leave, func(e *Event) bool { return sameInt(p.st, last(e), bitRange(mode, 32, 0, 9), 32) })
		set, leave = is(length, max64)
		attr("length", tr, set, leave, func(e *Event) bool { return sameInt(p.st, last(e), length, 64) })
		attr("name", rn, isEmpty(p, name, false), isEmpty(p, name, true), func(e *Event) bool {
			abs := mkApp("path.IsAbs", types.Typ[types.Bool], name)
			inDir := s.leads(e.args[1], func(d *Term) bool {
				return d.op == "app" && lastName(d.s) == "Dir" && len(d.args) == 1 && p.ofFile(d.args[0], fid, s.name)
			}, name)
			inRoot := s.leads(e.args[1], isRootSym, name)
			slash := mkEqInt(mkIn(name, tZero), mkInt('/'))
			switch {
			case p.st.proves(abs) || p.st.proves(slash):
				return inRoot
			case p.st.proves(notT(abs)) || p.st.proves(notT(slash)):
				return inDir
			}
			return false // whether it is absolute has not been looked at
		})
		aset, aleave := is(atime, max32)
		mset, mleave := is(mtime, max32)
		attr("times", tm, aset || mset, aleave && mleave, func(e *Event) bool {
			at, mt := e.args[1], e.args[2]
			unix := func(t, v *Term) bool {
				return t.op == "app" && t.s == "time.Unix" && sameInt(p.st, t.args[0], v, 32) && p.st.proves(mkEqInt(t.args[1], tZero))
			}
			kept := func(t *Term, mod bool) bool {
				if t.op == "zero" {
					return true
				}
				// what the file has
				if !mod || !(t.op == "app" && lastName(t.s) == "ModTime") {
					return false
				}
				for _, k := range p.es {
					if k == e {
						break
					}
					if statCall(k) && k.res[0] == t.args[0] && cur(k.args[0], k) {
						return true
					}
				}
				return false
			}
			okA := aset && unix(at, atime) || aleave && kept(at, false)
			okM := mset && unix(mt, mtime) || mleave && kept(mt, true)
			return okA && okM
		})
		if p.good && !any {
			opened, not := false, false
			for _, fct := range p.st.facts {
				g, neg := fct, false
				if g.op == "not" {
					g, neg = g.args[0], true
				}
				if g.op == "eq" {
					for k := 0; k < 2; k++ {
						if isNilT(g.args[k]) && p.ofFile(g.args[1-k], fid, s.handle) {
							opened, not = opened || neg, not || !neg
						}
					}
				}
			}
			ok := not
			for _, e := range sy {
				if p.ofFile(e.args[0], fid, s.handle) {
					ok = true
				}
			}
			c.want(ok, "sync", p.o.pos, r.fn, "a wstat that changes nothing does not flush the open file")
		}
		if isEmpty(p, uid.val, false) || isEmpty(p, gid.val, false) || refutes(p.st, b, mkInt(2), statFields) == "" {
			c.want(p.bad && !any, "refused", p.o.pos, r.fn, "a wstat that has to be refused is not, or changes something")
		}
		if p.good {
			c.want(isEmpty(p, uid.val, true) && isEmpty(p, gid.val, true), "refused", p.o.pos, r.fn, "a wstat that may set owner or group succeeds and does not set them")
		}
	}
	for _, n := range []string{"mode", "length", "name", "times"} {
		c.need(n, 30)
	}
	c.need("sync", 2)
	c.need("refused", 5)
}

func checkReadWrite(c *Ctx) {
	s := c.fs("Rread", "Rwrite")
	if s == nil {
		return
	}
	r := s.runs["Rwrite"]
	fid := r.args[0]
	for _, p := range s.paths(c, r, "write") {
		var ws []*Event
		for _, e := range p.es {
			if isHost(e) && changing(e) {
				ws = append(ws, e)
			}
		}
		if len(ws) == 0 {
			c.want(p.bad, "write", p.o.pos, r.fn, "a write succeeds and nothing was written")
			continue
		}
		e := ws[0]
		if !c.want(len(ws) == 1 && e.name == "(*os.File).WriteAt", "write", e.pos, r.fn, "a write is not one write at an offset: %s", e.name) {
			continue
		}
		c.want(p.ofFile(e.args[0], fid, s.handle), "write", e.pos, r.fn, "writes to %v", e.args[0])
		c.want(sameInt(p.st, e.args[2], r.args[1], 64), "write", e.pos, r.fn, "writes at %v, and not the offset", e.args[2])
		a := e.args[1]
		c.want(a == r.args[2] || simp(p.st, r.x.bytesOf(p.st, a)) == simp(p.st, r.x.bytesOf(p.st, r.args[2])), "write", e.pos, r.fn, "writes %v, and not the data", a)
		if p.good {
			c.want(sameInt(p.st, p.o.rets[0], e.res[0], 32), "write", p.o.pos, r.fn, "returns %v, and not the number of bytes written", p.o.rets[0])
		}
	}
	// the data is not changed before it is written
	for _, o := range r.outs {
		for _, e := range allEvents(o.st.events()) {
			if e.kind == "store" && rootOf(e.args[0]) == r.args[2] {
				c.fail("write", e.pos, r.fn, "the data is changed")
			}
		}
	}
	r = s.runs["Rread"]
	fid = r.args[0]
	for _, p := range s.paths(c, r, "read") {
		if !p.good {
			for _, e := range p.es {
				if e.kind == "ext" && e.name == "(*os.File).ReadAt" && p.top[e] && failedCall(e) {
					c.want(!p.maybeEOF(e), "read", e.pos, r.fn, "a read that comes to the end of the file fails, and the bytes before it are lost")
				}
			}
			continue
		}
		v := p.o.rets[0]
		c.want(p.st.proves(mkLe(contentLen(v), r.args[2])) || isNilT(v), "count", p.o.pos, r.fn, "a read may return more than count bytes: %v", v)
		obj := p.object(fid)
		if obj == nil {
			continue
		}
		isDir, known := s.fidIsDir(p, obj)
		if !c.want(known, "read", p.o.pos, r.fn, "reads without regard to whether the fid is a directory") || isDir {
			continue
		}
		var rs []*Event
		for _, e := range p.es {
			if isHost(e) && !closeCall(e) {
				rs = append(rs, e)
			}
		}
		if !c.want(len(rs) == 1 && rs[0].name == "(*os.File).ReadAt", "read", p.o.pos, r.fn, "a read of a file is not one read at an offset") {
			continue
		}
		e := rs[0]
		c.want(p.ofFile(e.args[0], fid, s.handle), "read", e.pos, r.fn, "reads from %v", e.args[0])
		c.want(sameInt(p.st, e.args[2], r.args[1], 64), "read", e.pos, r.fn, "reads at %v, and not the offset", e.args[2])
		buf := e.args[1]
		c.want(p.st.proves(mkEqInt(contentLen(buf), r.args[2])), "read", e.pos, r.fn, "asks for %v bytes, and not count", contentLen(buf))
		bo, boff, _, _ := sliceParts(buf)
		vo, voff, _, _ := sliceParts(v)
		same := bo == vo && p.st.proves(mkEqInt(boff, voff))
		if !same && vo.op == "alloc" && boff == tZero {
			// a copy of it
			same = sameContent(p.st, r.x.bytesOf(p.st, v), p.st.contSlice(p.st.contOf(bo, nil), tZero, e.res[0]))
		}
		c.want(same && p.st.proves(mkEqInt(contentLen(v), e.res[0])), "read", p.o.pos, r.fn, "returns %v, and not the %v bytes that were read", v, e.res[0])
		after := false
		for _, k := range p.es {
			if k == e {
				after = true
			}
			if after && k.kind == "store" && rootOf(k.args[0]) == bo {
				c.fail("read", k.pos, r.fn, "changes what was read")
			}
		}
	}
	c.need("write", 6)
	c.need("read", 6)
	c.need("count", 4)
}

// fidIsDir: whether the path knows the fid to be a directory, by its QID.
func (s *fsSys) fidIsDir(p *fsPath, obj *Term) (dir, known bool) {
	qt := fieldByName(s.qidAt(p.st, obj), s.qidType(), "Type")
	if qt == nil {
		return false, false
	}
	z := mkEqInt(bitRange(qt, 8, 7, 8), tZero)
	if p.st.proves(z) {
		return false, true
	}
	if p.st.proves(notT(z)) {
		return true, true
	}
	return false, false
}

// ---------- metadata

// describes: the QID v is that of the file fi. shapes collects its path and
// version as functions of the file.
func (c *Ctx) describes(st *State, v *Term, t types.Type, fi *Term, shapes map[string]map[string]bool) string {
	ty, ver, pa := fieldByName(v, t, "Type"), fieldByName(v, t, "Version"), fieldByName(v, t, "Path")
	if ty == nil || ver == nil || pa == nil {
		return fmt.Sprintf("%v is no QID", v)
	}
	return c.describesParts(st, ty, ver, pa, fi, shapes)
}

func fiMode(fi *Term) *Term { return mkApp("FileInfo.Mode", typeUint32, fi) }

// findTerm finds a term in the path condition.
func findTerm(st *State, f func(*Term) bool) *Term {
	var r *Term
	for _, x := range st.facts {
		mentions(x, func(u *Term) bool {
			if f(u) {
				r = u
				return true
			}
			return false
		})
		if r != nil {
			return r
		}
	}
	return nil
}

// isModeBit: bit b of t is bit mb of the file's mode.
func isModeBit(st *State, t *Term, w, b int, fi *Term, mb int) bool {
	br := toBits(t, w)[b]
	if br.a != nil {
		return br.a.op == "app" && br.a.s == "FileInfo.Mode" && br.a.args[0] == fi && br.i == mb
	}
	m := fiMode(fi)
	if m == nil {
		return false
	}
	z := mkEqInt(bitRange(m, 32, mb, mb+1), tZero)
	if br.i == 0 {
		return st.proves(z)
	}
	return st.proves(notT(z))
}

func zeroBits(t *Term, w, lo, hi int) bool {
	for _, b := range toBits(t, w)[lo:hi] {
		if b.a != nil || b.i != 0 {
			return false
		}
	}
	return true
}

func (c *Ctx) describesParts(st *State, ty, ver, pa, fi *Term, shapes map[string]map[string]bool) string {
	if !isModeBit(st, ty, 8, 7, fi, 31) {
		return fmt.Sprintf("the directory bit of the QID is not that of the file: type %v", ty)
	}
	if !isModeBit(st, ty, 8, 1, fi, 27) {
		return fmt.Sprintf("the symbolic link bit of the QID is not that of the file: type %v", ty)
	}
	if !zeroBits(ty, 8, 0, 1) || !zeroBits(ty, 8, 2, 7) {
		return fmt.Sprintf("the QID type has other bits: %v", ty)
	}
	has := func(t *Term, name string) bool {
		return mentions(t, func(u *Term) bool {
			return u.op == "app" && u.s == "FileInfo."+name && len(u.args) == 1 && u.args[0] == fi
		})
	}
	if !has(ver, "ModTime") {
		return fmt.Sprintf("the version of the QID does not depend on the modification time: %v", ver)
	}
	kind := "path"
	if has(pa, "Sys") {
		kind = "path-sys"
		if !isLoadOf(baseOf(pa), "Ino") || !sameBits(toBits(pa, 64), toBits(baseOf(pa), 64)) {
			return fmt.Sprintf("the path of the QID is not the inode number: %v", pa)
		}
	} else if c.pr.Cfg.GOOS != "windows" {
		sys := findTerm(st, func(u *Term) bool { return u.op == "app" && u.s == "FileInfo.Sys" && u.args[0] == fi })
		none := sys != nil && st.proves(mkEq(sys, mkNil(nil), nil))
		for _, f := range st.facts {
			// it is not the host's record
			if f.op == "not" && f.args[0].op == "istype" && f.args[0].args[0] == sys && strings.HasPrefix(f.args[0].s, "*syscall.") {
				none = true
			}
		}
		if !none {
			return fmt.Sprintf("the path of the QID is not the inode number, though there may be one: %v", pa)
		}
	}
	put := func(k string, t *Term) {
		if shapes[k] == nil {
			shapes[k] = map[string]bool{}
		}
		shapes[k][strings.ReplaceAll(t.String(), fi.String(), "FILE")] = true
	}
	put(kind, pa)
	put("version", ver)
	return ""
}

// isLoadOf: t is what a field of that name holds.
func isLoadOf(t *Term, field string) bool {
	return t.op == "ld" && t.args[0].op == "faddr" && t.args[0].s == field
}

// baseOf is the one term all bits of t are taken from.
func baseOf(t *Term) *Term {
	for _, b := range toBits(t, 64) {
		if b.a != nil {
			return b.a
		}
	}
	return t
}

func (s *fsSys) statOf(p *fsPath, res *Term) *Event {
	for _, e := range p.es {
		if statCall(e) && e.res[0] == res {
			return e
		}
	}
	return nil
}

// statRecord: the bytes are the stat record of the file.
func (c *Ctx) statRecord(st *State, b, fi *Term, shapes map[string]map[string]bool) string {
	b = simp(st, b)
	at := func(i int64, n int) *Term {
		var bs []*Term
		for k := 0; k < n; k++ {
			x := st.contAt(b, mkInt(i+int64(k)))
			if x == nil {
				return nil
			}
			bs = append(bs, x)
		}
		return le(bs...)
	}
	for i := int64(0); i < 43; i++ {
		if st.contAt(b, mkInt(i)) == nil {
			return fmt.Sprintf("not a stat record: %v", b)
		}
	}
	n := contentLen(b)
	if !sameBits(toBits(at(0, 2), 16), toBits(addC(n, -2), 16)) {
		return fmt.Sprintf("the size of the record is %v, of %v bytes", at(0, 2), n)
	}
	if why := c.describesParts(st, at(8, 1), at(9, 4), at(13, 8), fi, shapes); why != "" {
		return why
	}
	mode := at(21, 4)
	m := fiMode(fi)
	for i := 0; i < 9; i++ {
		if m == nil || !isModeBit(st, mode, 32, i, fi, i) {
			return fmt.Sprintf("the permissions in the record are not the file's: %v", mode)
		}
	}
	if !isModeBit(st, mode, 32, 31, fi, 31) || !zeroBits(mode, 32, 9, 31) {
		return fmt.Sprintf("the mode in the record is %v", mode)
	}
	mt := at(29, 4)
	base := baseOf(mt)
	if !(base.op == "app" && lastName(base.s) == "Unix" && base.args[0].op == "app" && base.args[0].s == "FileInfo.ModTime" && base.args[0].args[0] == fi) || !sameBits(toBits(mt, 32), toBits(base, 64)[:32]) {
		return fmt.Sprintf("the modification time in the record is %v", mt)
	}
	l := at(33, 8)
	lb := baseOf(l)
	if !(lb.op == "app" && lb.s == "FileInfo.Size" && lb.args[0] == fi) || !sameBits(toBits(l, 64), toBits(lb, 64)) {
		return fmt.Sprintf("the length in the record is %v", l)
	}
	// the name and the strings after it
	rest := pieces(st.contSlice(b, mkInt(41), addC(n, -41)))
	str := func() *Term {
		if len(rest) < 2 {
			return nil
		}
		if rest[0].op == "str" {
			return nil
		}
		var v *Term
		if len(rest) > 2 {
			v = rest[2]
		}
		if v == nil {
			return nil
		}
		want := pieces(encStr(v))
		for i := range want {
			if i >= len(rest) || want[i] != rest[i] {
				return nil
			}
		}
		rest = rest[len(want):]
		return v
	}
	name := str()
	if name == nil || !(name.op == "app" && name.s == "FileInfo.Name" && name.args[0] == fi) {
		return fmt.Sprintf("the name in the record is not the file's: %v", name)
	}
	if str() == nil || str() == nil {
		return fmt.Sprintf("the owner and group in the record are not strings: %v", rest)
	}
	if !(len(rest) == 1 && rest[0] == mkStr("\x00\x00")) && str() == nil {
		return fmt.Sprintf("the record does not end as it should: %v", rest)
	}
	return ""
}

func checkMeta(c *Ctx) {
	s := c.fs("Rattach", "Rwalk", "Rcreate", "Rstat", "Rread")
	if s == nil {
		return
	}
	shapes := map[string]map[string]bool{}
	qt := s.qidType()
	for _, n := range []string{"Rattach", "Rcreate"} {
		r := s.runs[n]
		for _, p := range s.paths(c, r, "fid") {
			if !p.good {
				continue
			}
			// where the new file's path and QID are kept
			var obj *Term
			if n == "Rattach" {
				for _, e := range p.es {
					if e.kind == "mapset" && s.isTable(e.args[0]) {
						obj = e.args[2]
					}
				}
			} else {
				obj = p.object(r.args[0])
			}
			if !c.want(obj != nil, "fid", p.o.pos, r.fn, "not known what the fid stands for") {
				continue
			}
			name := p.st.load(mk("faddr", s.name, nil, obj), types.Typ[types.String])
			q := s.qidAt(p.st, obj)
			var fi *Term
			for _, e := range p.es {
				if statCall(e) && isNilT(hostErr(e)) && e.args[0] == name {
					fi = e.res[0]
				}
			}
			if !c.want(fi != nil, "fid", p.o.pos, r.fn, "the file the fid stands for was not looked at") {
				continue
			}
			why := c.describes(p.st, q, qt, fi, shapes)
			c.want(why == "", "qid", p.o.pos, r.fn, "%s: %s", n, why)
			c.want(sameQID(p.st, p.o.rets[0], q, qt), "fid", p.o.pos, r.fn, "the QID returned is %v, and the fid's is %v", p.o.rets[0], q)
		}
	}
	r := s.runs["Rwalk"]
	for _, p := range s.paths(c, r, "fid") {
		if !p.good {
			continue
		}
		for _, e := range p.o.st.events() {
			if e.loop == nil {
				continue
			}
			for _, b := range e.loop.back {
				var st *Event
				for _, be := range b.events {
					if statCall(be) {
						st = be
					}
				}
				if st == nil {
					continue
				}
				c.want(st.name == "os.Lstat", "qid", st.pos, r.fn, "the QID is of what a symbolic link leads to, and not of the link")
				q := s.walked(p, e.loop, b)
				if q == nil {
					c.fail("qid", e.pos, r.fn, "a step of a walk has no QID")
					continue
				}
				why := c.describes(b.st, q, qt, st.res[0], shapes)
				c.want(why == "", "qid", st.pos, r.fn, "Rwalk: %s", why)
			}
		}
	}
	r = s.runs["Rstat"]
	for _, p := range s.paths(c, r, "stat") {
		if !p.good {
			continue
		}
		var st *Event
		for _, e := range p.es {
			if statCall(e) && p.ofFile(e.args[0], r.args[0], s.name) {
				st = e
				// a walk to a symbolic link has got to the link
				c.want(e.name == "os.Lstat", "stat", e.pos, r.fn, "the record is of what a symbolic link leads to, and not of the link")
			}
		}
		if !c.want(st != nil, "stat", p.o.pos, r.fn, "a stat that does not look at the file") {
			continue
		}
		why := c.statRecord(p.st, r.x.bytesOf(p.st, p.o.rets[0]), st.res[0], shapes)
		c.want(why == "", "stat", p.o.pos, r.fn, "%s", why)
	}
	r = s.runs["Rread"]
	for _, p := range s.paths(c, r, "stat") {
		if !p.good {
			continue
		}
		ent, kept := s.dirEntry(p)
		if ent == nil {
			continue
		}
		v := r.x.bytesOf(p.st, p.o.rets[0])
		if isNilT(p.o.rets[0]) || p.st.proves(mkEqInt(contentLen(v), tZero)) {
			continue
		}
		if kept != nil {
			v = p.st.contSlice(v, contentLen(kept), subT(contentLen(v), contentLen(kept)))
			if p.st.proves(mkEqInt(contentLen(v), tZero)) {
				continue
			}
		}
		why := c.statRecord(p.st, v, ent, shapes)
		c.want(why == "", "stat", p.o.pos, r.fn, "directory entry: %s", why)
	}
	for k, m := range shapes {
		c.want(len(m) == 1, "qid-same", token.NoPos, r.fn, "the %s of a QID is not the same function of the file everywhere: %s", k, strings.Join(sortedKeys(m), " and "))
	}
	c.need("qid", 10)
	c.need("stat", 8)
	c.need("fid", 10)
	c.need("qid-same", 2)
}

// walked is the QID a turn of a walk's loop puts into the list of QIDs.
func (s *fsSys) walked(p *fsPath, li *LoopInfo, b loopPath) *Term {
	qt := s.qidType()
	obj, off, _, _ := sliceParts(p.o.rets[0])
	if obj != nil {
		if q := li.stored(b, obj, addT(off, li.kappa), qt); q != nil {
			return q
		}
	}
	return nil
}

// dirEntry is the entry of a directory read from the host on this path, and
// what was kept before.
func (s *fsSys) dirEntry(p *fsPath) (ent, kept *Term) {
	for _, e := range p.es {
		if isHost(e) && hasPrefix(lastName(e.name), "Readdir", "ReadDir") && !failedCall(e) && len(e.res) > 0 {
			ent = firstOf(p.st, e.res[0])
		}
	}
	return ent, nil
}

// firstOf is the first element of a list the host returned.
func firstOf(st *State, list *Term) *Term {
	is := func(u *Term) bool { return u.op == "idx" && u.args[0] == list && u.args[1] == tZero }
	if t := findTerm(st, is); t != nil {
		return t
	}
	return nil
}

func checkWalk(c *Ctx) {
	s := c.fs("Rwalk")
	if s == nil {
		return
	}
	r := s.runs["Rwalk"]
	fid, newfid, names := r.args[0], r.args[1], r.args[2]
	str := types.Typ[types.String]
	for _, p := range s.paths(c, r, "step") {
		if !p.known(fid) {
			continue
		}
		obj := p.object(fid)
		var loop, failedStat, set *Event
		for _, e := range p.o.st.events() {
			if e.loop != nil {
				for _, b := range e.loop.back {
					for _, be := range allEvents(b.events) {
						if isHost(be) {
							loop = e
						}
					}
				}
			}
			if statCall(e) {
				failedStat = e
			}
			if e.kind == "mapset" && s.isTable(e.args[0]) {
				set = e
			}
		}
		n := contentLen(names)
		if loop == nil {
			// no step is complete on this path
			if p.good {
				if !c.want(p.st.proves(mkEqInt(n, tZero)) && p.st.proves(mkEqInt(contentLen(p.o.rets[0]), tZero)), "stop", p.o.pos, r.fn, "a walk of some names succeeds without a step") {
					continue
				}
				if set == nil && p.st.proves(mkEqInt(fid, r.args[1])) {
					// it stands for that file already
					c.ok("clone")
					for _, e := range p.es {
						c.want(e.kind != "store" || e.args[0].op != "faddr" || !p.anyFile(e.args[0].args[0]), "clone", e.pos, r.fn, "a walk of no names changes what the fid stands for")
					}
					continue
				}
				if c.want(set != nil && set.args[2].op == "alloc", "clone", p.o.pos, r.fn, "a walk of no names binds nothing new") {
					nm := p.st.load(mk("faddr", s.name, nil, set.args[2]), str)
					c.want(p.ofFile(nm, fid, s.name), "clone", set.pos, r.fn, "the clone stands for %v", nm)
					c.want(sameQID(p.st, s.qidAt(p.st, set.args[2]), s.qidAt(p.st, obj), s.qidType()), "clone", set.pos, r.fn, "the clone has the QID %v", s.qidAt(p.st, set.args[2]))
				}
			}
			continue
		}
		li := loop.loop
		// the path so far
		var at *loopVar
		why := "no variable of the walk's loop holds the path so far"
		for _, v := range li.vars {
			if v.entry == nil || !p.ofFile(v.entry, fid, s.name) || len(v.next) != len(li.back) {
				continue
			}
			good := len(li.back) > 0
			for i, b := range li.back {
				var st *Event
				k := 0
				for _, be := range allEvents(b.events) {
					if isHost(be) {
						st = be
						k++
					}
				}
				switch {
				case k != 1 || !statCall(st):
					good, why = false, "a turn of the walk makes other host calls than one look at a file"
				case failedCall(st):
					good, why = false, "a walk goes on after a name that cannot be looked up"
				case v.next[i] != st.args[0]:
					good, why = false, fmt.Sprintf("the next step starts at %v, and not where this one led, %v", v.next[i], st.args[0])
				case !s.leadsIdx(b.st, st.args[0], v.cur, names, li.kappa):
					good, why = false, fmt.Sprintf("a step goes to %v, and not to the next name from %v", st.args[0], v.cur)
				}
			}
			if good {
				at = v
				break
			}
		}
		if !c.want(at != nil, "step", loop.pos, r.fn, "%s", why) {
			continue
		}
		for _, b := range li.back {
			c.want(p.bad || s.walked(p, li, b) != nil, "qid", loop.pos, r.fn, "a step's QID is not put at its place in the list")
		}
		// how it ended
		last := p.lastStep(loop)
		if last {
			// at a name that cannot be looked up
			if failedStat != nil && failedStat.n > loop.n {
				c.want(failedCall(failedStat) && s.leadsIdx(p.st, failedStat.args[0], at.cur, names, li.kappa), "stop", failedStat.pos, r.fn, "a walk stops at %v, which is not the next name from %v", failedStat.args[0], at.cur)
			}
			if p.bad {
				c.want(p.st.proves(mkEqInt(li.kappa, tZero)), "stop", p.o.pos, r.fn, "a walk fails though its first name could be looked up")
				continue
			}
			c.want(p.st.proves(mkLt(tZero, li.kappa)) && p.st.proves(mkEqInt(contentLen(p.o.rets[0]), li.kappa)) && set == nil, "stop", p.o.pos, r.fn, "a walk that stops does not return the QIDs so far")
			continue
		}
		if !c.want(p.st.proves(mkEqInt(li.kappa, n)), "end", p.o.pos, r.fn, "a walk may end before the last name") {
			continue
		}
		if p.bad {
			continue
		}
		c.want(p.st.proves(mkEqInt(contentLen(p.o.rets[0]), n)), "end", p.o.pos, r.fn, "a walk to the end returns %v QIDs", contentLen(p.o.rets[0]))
		if !c.want(set != nil && set.args[2].op == "alloc" && set.args[1] == newfid, "end", p.o.pos, r.fn, "a walk to the end binds nothing") {
			continue
		}
		nm := p.st.load(mk("faddr", s.name, nil, set.args[2]), str)
		c.want(nm == at.cur, "end", set.pos, r.fn, "the new fid stands for %v, and not where the walk led", nm)
		c.want(s.lastQID(p, li, s.qidAt(p.st, set.args[2]), n), "end", set.pos, r.fn, "the new fid's QID is not the last one of the walk: %v", s.qidAt(p.st, set.args[2]))
	}
	c.need("step", 3)
	c.need("stop", 3)
	c.need("end", 3)
	c.need("clone", 2)
	c.need("qid", 3)
}

// lastStep: the path left the loop in the middle of a turn, at a failure.
func (p *fsPath) lastStep(loop *Event) bool {
	for _, e := range p.o.st.events() {
		if e.n > loop.n && isHost(e) && failedCall(e) {
			return true
		}
	}
	for _, f := range p.st.facts {
		if f.op == "not" && f.args[0].op == "app" && strings.HasSuffix(f.args[0].s, "Rel.ok") {
			return true
		}
	}
	return false
}

// leadsIdx: the path is the k-th name looked up from dir.
func (s *fsSys) leadsIdx(st *State, t, dir, names, k *Term) bool {
	p, ok := s.steppedOf(t)
	if !ok || p.base != dir || len(p.steps) != 1 {
		return false
	}
	e := p.steps[0]
	return e == elemAt(st, names, k, types.Typ[types.String]) || e.op == "idx" && e.args[0] == names && st.proves(mkEqInt(e.args[1], k))
}

// lastQID: q is the QID the last turn of the loop put into the list.
func (s *fsSys) lastQID(p *fsPath, li *LoopInfo, q, n *Term) bool {
	qt := s.qidType()
	obj, off, _, _ := sliceParts(p.o.rets[0])
	fieldOK := func(f string) bool {
		v := fieldByName(q, qt, f)
		if v == nil {
			return false
		}
		if v.op == "ld" {
			a := v.args[0]
			if a.op == "faddr" && a.s == f && a.args[0].op == "elem" && a.args[0].args[0] == obj {
				return p.st.proves(mkEqInt(a.args[0].args[1], addT(off, addC(n, -1))))
			}
		}
		for _, lv := range li.vars {
			if lv.cur != v && !(lv.cur.op == "struct" && fieldByName(lv.cur, qt, f) == v) || len(lv.next) != len(li.back) {
				continue
			}
			for i, b := range li.back {
				w := s.walked(p, li, b)
				if w == nil || lv.next[i] == nil {
					return false
				}
				x := fieldByName(w, qt, f)
				y := lv.next[i]
				if y.op == "struct" {
					y = fieldByName(y, qt, f)
				}
				if x != y {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, f := range qidFields {
		if !fieldOK(f) {
			return false
		}
	}
	return true
}

func checkTransparent(c *Ctx) {
	for _, n := range handlerNames {
		fn := c.method("pkg/debugfs", "DebugFileServer", n)
		if fn == nil {
			return
		}
		x := newExec(c.pr)
		args := params(fn)
		args[0] = mkSym("nn:dfs", fn.Params[0].Type())
		_, rts := sigTypes(fn)
		for _, o := range c.runFn(x, fn, newState(), args, nil) {
			if !c.want(o.kind == outRet, "once", o.pos, fn, "the tracing server crashes") {
				continue
			}
			var calls []*Event
			for _, e := range allEvents(o.st.events()) {
				switch e.kind {
				case "invoke":
					if strings.HasSuffix(e.name, "."+n) && o.st.events() != nil {
						calls = append(calls, e)
						continue
					}
					c.fail("only", e.pos, fn, "calls %s", e.name)
				case "log", "make", "loop":
				case "store":
					if rootOf(e.args[0]).op == "alloc" {
						continue
					}
					c.fail("only", e.pos, fn, "stores to %v", e.args[0])
				case "lock", "unlock":
				default:
					c.fail("only", e.pos, fn, "does something else: %s %s", e.kind, e.name)
				}
			}
			top := map[*Event]bool{}
			for _, e := range o.st.events() {
				top[e] = true
			}
			if !c.want(len(calls) == 1 && top[calls[0]], "once", o.pos, fn, "the request is passed on %d times", len(calls)) {
				continue
			}
			e := calls[0]
			ok := len(e.args) == len(args) && isFieldOf(e.args[0], args[0])
			for i := 1; i < len(args) && i < len(e.args); i++ {
				if e.args[i] != args[i] {
					ok = false
				}
			}
			c.want(ok, "args", e.pos, fn, "the request is passed on with %v", e.args)
			same := len(o.rets) == len(e.res)
			for i := 0; i < len(o.rets) && i < len(e.res); i++ {
				if o.rets[i] != e.res[i] && !(i < len(rts) && sameQID2(o.st, o.rets[i], e.res[i], rts[i])) {
					same = false
				}
			}
			c.want(same, "results", o.pos, fn, "%v is returned, and not the results, %v", o.rets, e.res)
			// byte slices are passed by reference: their contents stay
			for i, a := range args {
				if i == 0 {
					continue
				}
				if fn.Params[i].Type().String() == "[]byte" {
					b0 := x.bytesOf(newState(), a)
					c.want(simp(o.st, x.bytesOf(o.st, a)) == simp(o.st, b0), "args", o.pos, fn, "the data passed on is changed")
				}
			}
		}
	}
	c.need("once", 20)
	c.need("args", 20)
	c.need("results", 20)
}

func isFieldOf(t, base *Term) bool {
	return t.op == "ld" && t.args[0].op == "faddr" && t.args[0].args[0] == base
}

func sameQID2(st *State, a, b *Term, t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "QID" {
		return sameQID(st, a, b, t)
	}
	return st.proves(mkEq(a, b, t))
}

func checkDirRead(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	r := s.runs["Rread"]
	fid, off, count := r.args[0], r.args[1], r.args[2]
	// where the server keeps what did not fit
	keep := ""
	var bt types.Type = types.NewSlice(types.Typ[types.Byte])
	ft := s.ft.Underlying().(*types.Struct)
	for i := 0; i < ft.NumFields(); i++ {
		if sl, ok := ft.Field(i).Type().Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
			keep = ft.Field(i).Name()
			bt = ft.Field(i).Type()
		}
	}
	n := 0
	for _, p := range s.paths(c, r, "entries") {
		obj := p.object(fid)
		if obj == nil {
			continue
		}
		dir, known := s.fidIsDir(p, obj)
		if !known && p.bad || known && !dir {
			continue
		}
		n++
		pos := p.o.pos
		var before, after *Term
		left := tZero // how long what is kept is
		if keep == "" {
			before, after = mkStr(""), mkStr("")
		} else {
			a := mk("faddr", keep, nil, obj)
			bytes := func(st *State, v *Term) *Term {
				if isNilT(v) {
					return mkStr("")
				}
				return r.x.bytesOf(st, v)
			}
			before = bytes(newState(), initialValue(p, a, bt))
			after = bytes(p.st, p.st.load(a, bt))
			_, _, left, _ = sliceParts(p.st.load(a, bt))
		}
		var rewound, ents []*Event
		eof := false
		for _, e := range p.es {
			if !isHost(e) {
				continue
			}
			switch nm := lastName(e.name); {
			case nm == "Seek":
				if !failedCall(e) {
					c.want(e.args[1] == tZero && e.args[2] == tZero, "rewind", e.pos, r.fn, "a directory is read on from somewhere else")
				}
				rewound = append(rewound, e)
			case openCall(e):
				rewound = append(rewound, e)
			case hasPrefix(nm, "Readdir", "ReadDir"):
				ents = append(ents, e)
				if failedCall(e) && p.isEOF(hostErr(e)) {
					eof = true
				}
				if n, ok := e.args[1].intVal(); !ok || n != 1 {
					c.fail("entries", e.pos, r.fn, "more than one entry is read at once, which this check does not follow")
				}
			}
		}
		zero := p.st.proves(mkEqInt(off, tZero))
		nonzero := p.st.proves(notT(mkEqInt(off, tZero)))
		if !c.want(zero || nonzero || p.bad, "rewind", pos, r.fn, "a directory is read without regard to the offset") {
			continue
		}
		switch {
		case zero:
			before = mkStr("")
			if p.good {
				c.want(len(rewound) == 1 && (len(ents) == 0 || rewound[0].n < ents[0].n), "rewind", pos, r.fn, "a read at offset 0 does not start the directory over")
			}
		case nonzero:
			c.want(len(rewound) == 0, "rewind", pos, r.fn, "a read that is not at offset 0 starts the directory over")
		}
		if p.bad {
			for _, e := range ents {
				c.want(!failedCall(e) || !p.top[e] || !p.maybeEOF(e), "eof", e.pos, r.fn, "a read that comes to the end of the directory fails")
			}
			if nonzero {
				c.want(simp(p.st, after) == simp(p.st, before), "entries", pos, r.fn, "a read that fails loses what was kept: %v, and then %v", before, after)
			}
			continue
		}
		out := mkStr("")
		if !isNilT(p.o.rets[0]) {
			out = r.x.bytesOf(p.st, p.o.rets[0])
		}
		c.want(p.st.proves(mkLe(contentLen(out), count)), "fits", pos, r.fn, "more than count bytes are returned")
		got := simp(p.st, mkCat(out, after))
		var ent *Term
		for _, e := range ents {
			if !failedCall(e) {
				if ent != nil {
					c.fail("entries", e.pos, r.fn, "two entries are read on one path, which this check does not follow")
				}
				if ent = firstOf(p.st, e.res[0]); ent == nil {
					ent = mkSym("?entry", nil)
				}
			}
		}
		if ent == nil {
			c.want(got == simp(p.st, before), "entries", pos, r.fn, "%v is returned and %v kept, of %v", out, after, before)
		} else {
			rest := p.st.contSlice(got, contentLen(before), subT(contentLen(got), contentLen(before)))
			head := p.st.contSlice(got, tZero, contentLen(before))
			why := ""
			switch {
			case head == nil || rest == nil:
				why = fmt.Sprintf("%v is returned and %v kept, of %v and the entry", out, after, before)
			case simp(p.st, head) != simp(p.st, before):
				why = fmt.Sprintf("it begins with %v", head)
			default:
				why = c.statRecord(p.st, rest, ent, map[string]map[string]bool{})
			}
			c.want(why == "", "entries", pos, r.fn, "an entry is read and neither returned nor kept, after what was kept before: %s", why)
		}
		if p.st.proves(mkEqInt(contentLen(out), tZero)) {
			c.want(eof || p.st.proves(mkLt(count, contentLen(after))) || p.st.proves(mkLt(count, left)), "eof", pos, r.fn, "an empty read that is not at the end of the directory, and the next entry fits")
		}
	}
	for _, n := range handlerNames {
		if keep != "" && n != "Rread" {
			s.nothingKept(c, s.runs[n], keep, bt)
		}
	}
	if keep != "" {
		c.need("fresh", 3)
	}
	c.need("entries", 8)
	c.need("rewind", 8)
	c.need("fits", 4)
	c.need("eof", 2)
}

// nothingKept: what is kept of a directory comes from reads of that directory.
// What a fid is bound to has nothing kept, and no other request keeps anything.
func (s *fsSys) nothingKept(c *Ctx, r *fsRun, keep string, bt types.Type) {
	for _, o := range r.outs {
		for _, e := range allEvents(o.st.events()) {
			var a, v *Term
			switch {
			case e.kind == "mapset" && s.isTable(e.args[0]) && e.args[2].op == "alloc":
				a = mk("faddr", keep, nil, e.args[2])
				v = o.st.load(a, bt)
			case e.kind == "store" && e.args[0].op == "faddr" && e.args[0].s == keep:
				if t, ok := typeOfTerm(e.args[0].args[0]).(*types.Pointer); ok && !types.Identical(t.Elem(), s.ft) {
					continue
				}
				a, v = e.args[0], e.args[1]
			default:
				continue
			}
			c.want(isNilT(v) || o.st.proves(mkEqInt(contentLen(v), tZero)), "fresh", e.pos, r.fn, "%s has something kept that is not left over from a read: %v", a.args[0], v)
		}
	}
}

// initialValue is what a cell held when the request began.
func initialValue(p *fsPath, a *Term, t types.Type) *Term {
	for _, e := range p.es {
		if e.kind == "store" && e.args[0] == a {
			if o, ok := e.aux.(*Term); ok {
				return o
			}
		}
	}
	return p.st.load(a, t)
}

// bigAll is the number of w bits that are all set.
func bigAll(w uint) *Term {
	v := new(big.Int).Lsh(big.NewInt(1), w)
	return mkBig(v.Sub(v, big.NewInt(1)))
}
