package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// purePkgs: functions of these packages only compute their result.
var purePkgs = map[string]bool{
	"path": true, "path/filepath": true, "strings": true, "strconv": true, "fmt": true, "errors": true,
	"time": true, "math": true, "math/bits": true, "unicode": true, "unicode/utf8": true, "bytes": true,
	"encoding/binary": true, "encoding/hex": true, "slices": true, "sort": true, "maps": true, "cmp": true,
}

func pkgOfName(name string) string {
	n := strings.TrimPrefix(name, "invoke:")
	n = strings.TrimLeft(n, "(*")
	// a/b/c.Name or a/b/c.Type).Method
	slash := strings.LastIndex(n, "/")
	rest := n[slash+1:]
	dot := strings.Index(rest, ".")
	if dot < 0 {
		return n
	}
	return n[:slash+1] + rest[:dot]
}

// spread replaces a variadic slice of known elements by the elements.
func (x *Exec) spread(st *State, args []*Term, sig *types.Signature) []*Term {
	if !sig.Variadic() || len(args) == 0 {
		return args
	}
	last := args[len(args)-1]
	out := append([]*Term{}, args[:len(args)-1]...)
	if isNilT(last) {
		return out
	}
	if last.op == "slice" {
		if n, ok := last.args[2].intVal(); ok && n <= 64 {
			et := sig.Params().At(sig.Params().Len() - 1).Type().Underlying().(*types.Slice).Elem()
			for i := int64(0); i < n; i++ {
				out = append(out, st.load(mkElem(last.args[0], addC(last.args[1], i)), et))
			}
			return out
		}
	}
	return append(out, mk("spread", "", nil, last))
}

// deep replaces byte slices by their content, so that the value of a pure
// function is a function of what it reads.
func (x *Exec) deep(st *State, a *Term) *Term {
	if a.op == "slice" {
		if c, ok := st.cont[a.args[0]]; ok {
			if s := st.contSlice(c, a.args[1], a.args[2]); s != nil {
				return s
			}
		}
	}
	if a.op == "iface" {
		d := x.deep(st, a.args[0])
		if d != a.args[0] {
			return mk("iface", "", a.t, d)
		}
	}
	return a
}

func resTypes(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

// ext is a call of something outside the repository (or kept opaque).
func (x *Exec) ext(fr *Frame, st *State, name string, fn *ssa.Function, args []*Term, sig *types.Signature, pos token.Pos, invoke bool) []Outcome {
	if o := x.model(fr, st, name, args, sig, pos); o != nil {
		return o
	}
	pkg := pkgOfName(name)
	rts := resTypes(sig)
	short := strings.TrimPrefix(name, "invoke:")
	if i := strings.LastIndex(short, "/"); i >= 0 && !strings.HasPrefix(short, "(") {
		short = short[i+1:]
	}
	// logging has no effect that matters here
	if isLog(name) {
		st.event(&Event{kind: "log", name: name, pos: pos, fn: fr.fn, args: x.spread(st, args, sig)})
		var rs []*Term
		for _, t := range rts {
			rs = append(rs, x.sym("log", t))
		}
		return []Outcome{ret(st, rs...)}
	}
	if isExit(name) {
		st.event(&Event{kind: "exit", name: name, pos: pos, fn: fr.fn, args: args})
		x.oblige(fr, st, "exit", pos, false, "call of "+name)
		return []Outcome{{kind: outExit, st: st, pos: pos}}
	}
	if strings.HasPrefix(name, "dyn:Tracer") {
		st.event(&Event{kind: "log", name: name, pos: pos, fn: fr.fn, args: args})
		return []Outcome{ret(st)}
	}
	pure := purePkgs[pkg] && !timed(name) || isFileInfo(name) || isPureMethod(name)
	if pure {
		as := x.spread(st, args, sig)
		for i := range as {
			as[i] = x.deep(st, as[i])
		}
		n := canonName(name)
		switch len(rts) {
		case 0:
			return []Outcome{ret(st)}
		case 1:
			return []Outcome{ret(st, x.pureApp(st, n, rts[0], as))}
		}
		if isErrorType(rts[len(rts)-1]) {
			okst, bad := st, st.clone()
			var rs, zs []*Term
			for i, t := range rts[:len(rts)-1] {
				rs = append(rs, expand(mkApp(fmt.Sprintf("%s.%d", n, i), t, as...), t))
				zs = append(zs, zeroOf(t))
			}
			c := mkApp(n+".ok", nil, as...)
			var outs []Outcome
			if okst.assume(c) {
				outs = append(outs, ret(okst, append(rs, mkNil(nil))...))
			}
			if bad.assume(notT(c)) {
				outs = append(outs, ret(bad, append(zs, mk("app", "nn:"+n+".err", nil, as...))...))
			}
			return outs
		}
		var rs []*Term
		for i, t := range rts {
			rs = append(rs, expand(mkApp(fmt.Sprintf("%s.%d", n, i), t, as...), t))
		}
		return []Outcome{ret(st, rs...)}
	}

	// an effect
	kind := "ext"
	if strings.HasPrefix(name, "invoke:") {
		kind = "invoke"
	} else if strings.HasPrefix(name, "dyn") {
		kind = "dyn"
	} else if strings.HasPrefix(name, "repo:") {
		kind = "repo"
	}
	as := x.spread(st, args, sig)
	var conts []*Term
	for i := range as {
		d := x.deep(st, as[i])
		if p := x.isBuffer(st, as[i]); p != nil {
			b := x.buf(st, p)
			c := st.contOf(b.obj, nil)
			if r := st.contSlice(c, b.head, subT(contentLen(c), b.head)); r != nil {
				d = r
			}
		}
		conts = append(conts, d)
	}
	mem := cloneMap(st.cont)
	mkev := func(s *State, res []*Term) {
		after := map[int]*Term{}
		for i := range as {
			if p := x.isBuffer(s, as[i]); p != nil {
				after[i] = s.contOf(x.buf(s, p).obj, nil)
			}
		}
		s.event(&Event{kind: kind, name: name, pos: pos, fn: fr.fn, args: as, res: res, stack: fr.stack, aux: &callAux{conts: conts, after: after, mem: mem}})
	}
	// what it is given by reference it may change
	clobber := func(s *State) {
		if constArgs(name) {
			return
		}
		for _, a := range as {
			b := a
			if b.op == "iface" {
				b = b.args[0]
			}
			if _, ok := s.bufs[b]; ok {
				x.setBuf(s, b, x.sym("out:"+short, nil))
			}
			if b.op == "alloc" && (kind == "dyn" || kind == "repo") {
				// fields that are set after an object is made
				if kind == "dyn" {
					x.havocObj(s, b)
					continue
				}
				for cell, v := range s.cells {
					if cell.op == "faddr" && cell.args[0] == b && x.pr.fieldMutable(cell.s) {
						s.cells[cell] = x.sym("set:"+cell.s, typeOfTerm(v))
					}
				}
			}
			if b.op == "slice" && b.t != nil {
				if sl, ok := b.t.Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
					s.havocCont(b.args[0])
				}
			}
		}
	}
	n := len(rts)
	if n > 0 && isErrorType(rts[n-1]) {
		bad := st.clone()
		var rs, zs []*Term
		for _, t := range rts[:n-1] {
			r := x.result(short, t)
			rs = append(rs, r)
			if strings.HasPrefix(name, "invoke:protocol.NineServer.") || kind == "repo" || kind == "dyn" {
				zs = append(zs, x.sym(short+".bad", t))
			} else {
				switch t.Underlying().(type) {
				case *types.Basic:
					zs = append(zs, x.sym(short+".bad", t))
				default:
					zs = append(zs, zeroOf(t))
				}
			}
		}
		rs = append(rs, mkNil(nil))
		zs = append(zs, x.nnsym("err:"+short, nil))
		clobber(st)
		clobber(bad)
		mkev(st, rs)
		mkev(bad, zs)
		x.boundResult(st, name, as, rs)
		x.boundResult(bad, name, as, zs)
		return []Outcome{ret(st, rs...), ret(bad, zs...)}
	}
	var rs []*Term
	for _, t := range rts {
		rs = append(rs, x.result(short, t))
	}
	clobber(st)
	mkev(st, rs)
	return []Outcome{ret(st, rs...)}
}

// callAux is what a call got and left in the buffers and slices given to it.
type callAux struct {
	conts []*Term
	after map[int]*Term
	mem   map[*Term]*Term // what was in memory at the call
}

// atCall is the state st with the memory as it was at the call.
func atCall(st *State, e *Event) *State {
	if aux, _ := e.aux.(*callAux); aux != nil && aux.mem != nil {
		st = st.clone()
		st.cont = aux.mem
	}
	return st
}

func (x *Exec) result(name string, t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return x.nnsym(name, t)
	}
	return x.sym(name, t)
}

// boundResult: reads and writes report at most what they were given.
func (x *Exec) boundResult(st *State, name string, as, rs []*Term) {
	if len(rs) < 2 || len(as) < 2 {
		return
	}
	switch lastName(name) {
	case "ReadAt", "WriteAt", "Read", "Write":
		st.addFact(mkLe(tZero, rs[0]))
		st.addFact(mkLe(rs[0], contentLen(as[1])))
		if lastName(name) != "Read" && isNilT(rs[1]) {
			// what falls short comes with an error, of readers at an offset and of writers
			st.addFact(mkEqInt(rs[0], contentLen(as[1])))
		}
	}
	if lastName(name) == "Readdir" || lastName(name) == "ReadDir" || lastName(name) == "Readdirnames" {
		// with n > 0 and no error there is at least one entry, and at most n
		if isNilT(rs[1]) && st.proves(mkLt(tZero, as[1])) {
			st.addFact(mkLe(tOne, contentLen(rs[0])))
			st.addFact(mkLe(contentLen(rs[0]), as[1]))
		}
	}
}

func lastName(n string) string { return n[strings.LastIndex(n, ".")+1:] }

// constArgs: calls that only read what they are given.
func constArgs(name string) bool {
	switch lastName(name) {
	case "Write", "WriteAt", "WriteString", "Rwrite", "Rwstat":
		return true
	}
	return false
}

func isLog(name string) bool {
	switch {
	case strings.HasPrefix(name, "log.Print"), strings.HasPrefix(name, "(*log.Logger).Print"), strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"),
		strings.HasPrefix(name, "log.Output"), strings.HasPrefix(name, "log/slog."):
		return true
	}
	return false
}

func isExit(name string) bool {
	return strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") || name == "os.Exit" || name == "runtime.Goexit" ||
		name == "syscall.Exit" || strings.HasPrefix(name, "(*log.Logger).Fatal") || strings.HasPrefix(name, "(*log.Logger).Panic")
}

func isFileInfo(name string) bool {
	return strings.HasPrefix(name, "invoke:io/fs.FileInfo.") || strings.HasPrefix(name, "invoke:os.FileInfo.")
}

func isPureMethod(name string) bool {
	switch {
	case strings.HasPrefix(name, "(io/fs.FileMode)."), strings.HasPrefix(name, "(time."), strings.HasPrefix(name, "invoke:error.Error"),
		strings.HasPrefix(name, "invoke:net.Addr."), strings.HasSuffix(name, ".RemoteAddr"), strings.HasSuffix(name, ".LocalAddr"),
		strings.HasPrefix(name, "invoke:net.Error."), strings.HasPrefix(name, "invoke:interface{") && lastName(name) == "Temporary", strings.HasPrefix(name, "(*os.File).Name"),
		strings.HasPrefix(name, "(*os.PathError)."), strings.HasPrefix(name, "os.IsNotExist"), strings.HasPrefix(name, "os.IsExist"), strings.HasPrefix(name, "os.IsPermission"),
		strings.HasPrefix(name, "os.Getpid"), strings.HasPrefix(name, "runtime."), strings.HasPrefix(name, "(syscall.Errno)."):
		return true
	}
	return false
}

// timed: functions of package time that let time pass.
func timed(name string) bool {
	switch name {
	case "time.Sleep", "time.After", "time.AfterFunc", "time.NewTimer", "time.NewTicker", "time.Tick":
		return true
	}
	return false
}

func canonName(n string) string {
	n = strings.TrimPrefix(n, "invoke:")
	n = strings.Replace(n, "io/fs.FileInfo.", "FileInfo.", 1)
	n = strings.Replace(n, "os.FileInfo.", "FileInfo.", 1)
	return n
}

func (x *Exec) pureApp(st *State, n string, t types.Type, as []*Term) *Term {
	switch n {
	case "errors.Is":
		return mkEq(as[0], as[1], nil)
	case "FileInfo.IsDir":
		m := mkApp("FileInfo.Mode", typeUint32, as...)
		return notT(mkEqInt(fromBits(toBits(m, 32)[31:], false), tZero))
	case "FileInfo.Mode":
		return mkApp(n, typeUint32, as...)
	case "(io/fs.FileMode).IsDir":
		return notT(mkEqInt(fromBits(toBits(as[0], 32)[31:], false), tZero))
	case "(io/fs.FileMode).Perm":
		return fromBits(append(append([]bitref{}, toBits(as[0], 9)...), zeros(23)...), false)
	case "(io/fs.FileMode).IsRegular", "(io/fs.FileMode).Type":
		return mkApp(n, t, as...)
	case "path.Join", "path/filepath.Join":
		return mkApp("path.Join", t, as...)
	case "path.Clean", "path/filepath.Clean":
		return mkApp("path.Clean", t, as...)
	case "path.Dir", "path/filepath.Dir":
		return mkApp("path.Dir", t, as...)
	case "path.Base", "path/filepath.Base":
		return mkApp("path.Base", t, as...)
	case "path.IsAbs", "path/filepath.IsAbs":
		return mkApp("path.IsAbs", t, as...)
	case "strings.HasPrefix":
		if as[1] == mkStr("/") && x.pr.Cfg.GOOS != "windows" {
			return mkApp("path.IsAbs", t, as[0])
		}
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		if x.pr.Cfg.GOOS != "windows" {
			return as[0]
		}
	case "(time.Time).UnixMilli":
		return mkApp("div", t, mkApp("(time.Time).UnixNano", t, as...), mkInt(1000000))
	case "strings.Contains":
		return mkApp(n, t, as...)
	case "strings.ContainsRune":
		if v, ok := as[1].intVal(); ok && v < 128 {
			return mkApp("strings.Contains", t, as[0], mkStr(string(rune(v))))
		}
	case "strings.IndexByte":
		return mkApp(n, types.Typ[types.Int], as...)
	case "bytes.Equal":
		return mkEq(as[0], as[1], types.Typ[types.String])
	}
	return expand(mkApp(n, t, as...), t)
}

var typeUint32 = types.Typ[types.Uint32]

// embedded is what a method of a value really is a method of: the field it is
// promoted from.
func (x *Exec) embedded(st *State, v *Term, method string) *Term {
	for n := 0; n < 4 && v.op == "iface" && v.t != nil; n++ {
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			return v
		}
		named, ok := types.Unalias(p.Elem()).(*types.Named)
		if !ok || named.Obj().Pkg() == nil || !strings.HasPrefix(named.Obj().Pkg().Path(), modPath) {
			return v
		}
		obj, index, _ := types.LookupFieldOrMethod(v.t, true, named.Obj().Pkg(), method)
		if _, ok := obj.(*types.Func); !ok || len(index) < 2 {
			return v
		}
		a, t := v.args[0], p.Elem()
		for k, i := range index[:len(index)-1] {
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				return v
			}
			a, t = mk("faddr", s.Field(i).Name(), nil, a), s.Field(i).Type()
			if ft, ok := t.Underlying().(*types.Pointer); ok && k < len(index)-2 {
				a, t = st.load(a, t), ft.Elem()
			}
		}
		f := st.load(a, t)
		if _, ok := t.Underlying().(*types.Interface); !ok {
			f = mk("iface", "", t, f)
		}
		v = f
	}
	return v
}

// unbuffered is the stream a buffered reader reads. What reads past it loses
// what it holds, and is taken to read something else.
func (x *Exec) unbuffered(st *State, v *Term) *Term {
	b := v
	if b.op == "iface" {
		b = b.args[0]
	}
	if b.op == "app" && strings.HasPrefix(b.s, "nn:bufio.NewReader#") && st.buffered[b.args[0]] == b {
		return b.args[0]
	}
	if st.buffered[v] != nil {
		return mk("app", "nn:past:"+st.buffered[v].s, nil, v)
	}
	return v
}

// bufOver: the memory a buffer was made over, for those whose content is followed apart from it.
var bufOver = map[*Term]*Term{}

// model handles the functions whose behaviour matters; nil if there is no model.
func (x *Exec) model(fr *Frame, st *State, name string, args []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	switch name {
	case "io.ReadFull", "io.ReadAtLeast", "io.CopyN", "io.Copy", "io.LimitReader", "io.ReadAll", "(*bytes.Buffer).ReadFrom", "encoding/binary.Read":
		args = append([]*Term{}, args...)
		for i, a := range args {
			args[i] = x.unbuffered(st, x.embedded(st, a, "Read"))
		}
	}
	switch name {
	case "bufio.NewReader", "bufio.NewReaderSize":
		// one made before anything is read is the stream, if nothing else reads that
		r := x.embedded(st, args[0], "Read")
		if _, read := st.streams[r]; read || st.buffered[r] != nil || x.isBuffer(st, r) != nil {
			return nil
		}
		b := mk("app", fmt.Sprintf("nn:bufio.NewReader#%d", x.next1()), sig.Results().At(0).Type(), r)
		st.buffered[r] = b
		return []Outcome{ret(st, b)}
	case "(*bufio.Reader).Read":
		if r := x.unbuffered(st, args[0]); r != args[0] {
			return x.streamRead(fr, st, r, args[1], pos)
		}
	case "bytes.Clone", "slices.Clone":
		if len(args) == 1 && sig != nil && sig.Params().Len() == 1 {
			if t, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); ok && isByteType(t.Elem()) {
				freshN++
				a := mk("alloc", fmt.Sprintf("clone#%d", freshN), args[0].t)
				st.cont[a] = x.bytesOf(st, args[0])
				n := contentLen(st.cont[a])
				return []Outcome{ret(st, mk("slice", "", args[0].t, a, tZero, n, n))}
			}
		}
	case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader":
		freshN++
		p := mk("alloc", fmt.Sprintf("newbuf#%d", freshN), nil)
		c := args[0]
		if name != "bytes.NewBufferString" {
			// the buffer has the slice itself: what is put there later is in it
			if obj, off, n, _ := sliceParts(args[0]); obj.op == "alloc" && addT(off, n) == contentLen(st.contOf(obj, nil)) {
				st.bufs[p] = &bufState{obj: obj, head: off}
				return []Outcome{ret(st, p)}
			}
			c = x.bytesOf(st, args[0])
			x.setBuf(st, p, c)
			if o, _, _, _ := sliceParts(args[0]); o != nil {
				bufOver[st.bufs[p].obj] = rootOf(o)
			}
			return []Outcome{ret(st, p)}
		}
		x.setBuf(st, p, c)
		return []Outcome{ret(st, p)}
	case "(*bytes.Buffer).Reset":
		x.resetBuf(st, args[0])
		return []Outcome{ret(st)}
	case "(*bytes.Buffer).Grow":
		return []Outcome{ret(st)}
	case "(*bytes.Buffer).Truncate":
		b := x.buf(st, args[0])
		if args[1] == tZero {
			x.resetBuf(st, args[0])
			return []Outcome{ret(st)}
		}
		total := st.contOf(b.obj, nil)
		c := st.contSlice(total, b.head, args[1])
		if c == nil {
			c = x.sym("truncated", nil)
		}
		x.oblige(fr, st, "slice", pos, x.sliceOK(st, tZero, args[1], subT(contentLen(total), b.head)), "Truncate")
		x.setBuf(st, args[0], c)
		return []Outcome{ret(st)}
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte":
		b := x.buf(st, args[0])
		var add *Term
		switch lastName(name) {
		case "Write":
			add = x.bytesOf(st, args[1])
		case "WriteString":
			add = args[1]
		default:
			add = mkByte(args[1])
		}
		st.cont[b.obj] = mkCat(st.contOf(b.obj, nil), add)
		if lastName(name) == "WriteByte" {
			return []Outcome{ret(st, mkNil(nil))}
		}
		return []Outcome{ret(st, contentLen(add), mkNil(nil))}
	case "(*bytes.Buffer).Len", "(*bytes.Reader).Len":
		b := x.buf(st, args[0])
		return []Outcome{ret(st, subT(contentLen(st.contOf(b.obj, nil)), b.head))}
	case "(*bytes.Buffer).Bytes":
		b := x.buf(st, args[0])
		n := subT(contentLen(st.contOf(b.obj, nil)), b.head)
		return []Outcome{ret(st, mk("slice", "", types.NewSlice(types.Typ[types.Byte]), b.obj, b.head, n, n))}
	case "(*bytes.Buffer).String":
		b := x.buf(st, args[0])
		total := st.contOf(b.obj, nil)
		n := subT(contentLen(total), b.head)
		c := st.contSlice(total, b.head, n)
		if c == nil {
			c = mk("sub", "", nil, total, b.head, n)
		}
		return []Outcome{ret(st, c)}
	case "(*bytes.Buffer).Next":
		b := x.buf(st, args[0])
		total := st.contOf(b.obj, nil)
		rem := subT(contentLen(total), b.head)
		n := args[1]
		x.oblige(fr, st, "slice", pos, st.proves(mkLe(tZero, n)), "Next of a negative count")
		mkNext := func(s *State, k *Term) Outcome {
			bb := x.buf(s, args[0])
			r := mk("slice", "", types.NewSlice(types.Typ[types.Byte]), bb.obj, bb.head, k, k)
			bb.head = addT(bb.head, k)
			return ret(s, r)
		}
		var outs []Outcome
		st2 := st.clone()
		if st.assume(mkLe(n, rem)) {
			outs = append(outs, mkNext(st, n))
		}
		if st2.assume(mkLt(rem, n)) {
			outs = append(outs, mkNext(st2, rem))
		}
		return outs
	case "(*bytes.Buffer).Read", "(*bytes.Reader).Read":
		return x.bufRead(fr, st, args[0], args[1])
	case "(*bytes.Buffer).ReadByte", "(*bytes.Reader).ReadByte":
		b := x.buf(st, args[0])
		total := st.contOf(b.obj, nil)
		rem := subT(contentLen(total), b.head)
		st2 := st.clone()
		var outs []Outcome
		if st.assume(mkLe(tOne, rem)) {
			v := st.contAt(total, b.head)
			b.head = addC(b.head, 1)
			outs = append(outs, ret(st, v, mkNil(nil)))
		}
		if st2.assume(mkLt(rem, tOne)) {
			outs = append(outs, ret(st2, tZero, mk("sym", "nn:io.EOF", nil)))
		}
		return outs
	case "(*bytes.Buffer).WriteTo":
		b := x.buf(st, args[0])
		total := st.contOf(b.obj, nil)
		c := st.contSlice(total, b.head, subT(contentLen(total), b.head))
		if c == nil {
			c = x.sym("rest", nil)
		}
		bad := st.clone()
		st.event(&Event{kind: "write", name: name, pos: pos, fn: fr.fn, args: []*Term{args[1], c}, res: []*Term{mkNil(nil)}, stack: fr.stack})
		x.setBuf(st, args[0], mkStr(""))
		e := x.nnsym("err:write", nil)
		bad.event(&Event{kind: "write", name: name, pos: pos, fn: fr.fn, args: []*Term{args[1], c}, res: []*Term{e}, stack: fr.stack})
		return []Outcome{ret(st, contentLen(c), mkNil(nil)), ret(bad, x.sym("n", types.Typ[types.Int64]), e)}
	case "io.WriteString":
		c := args[1]
		if x.appendBuf(st, args[0], c) {
			return []Outcome{ret(st, contentLen(c), mkNil(nil))}
		}
		bad := st.clone()
		e := x.nnsym("err:write", nil)
		st.event(&Event{kind: "write", name: name, pos: pos, fn: fr.fn, args: []*Term{args[0], c}, res: []*Term{mkNil(nil)}, stack: fr.stack})
		bad.event(&Event{kind: "write", name: name, pos: pos, fn: fr.fn, args: []*Term{args[0], c}, res: []*Term{e}, stack: fr.stack})
		return []Outcome{ret(st, contentLen(c), mkNil(nil)), ret(bad, x.sym("n", types.Typ[types.Int]), e)}
	case "io.ReadFull":
		return x.readFull(fr, st, args[0], args[1], pos)
	case "io.ReadAtLeast":
		_, _, n, _ := sliceParts(args[1])
		if st.proves(mkEqInt(n, args[2])) {
			return x.readFull(fr, st, args[0], args[1], pos)
		}
		return nil
	case "io.CopyN":
		return x.copyN(fr, st, args[0], args[1], args[2], pos)
	case "io.LimitReader":
		return []Outcome{ret(st, mk("app", "nn:io.LimitReader", nil, args...))}
	case "io.Copy":
		if args[1].op == "app" && args[1].s == "nn:io.LimitReader" {
			// fewer bytes are not an error
			return x.copyLimited(fr, st, args[0], args[1].args[0], args[1].args[1], pos)
		}
		return nil
	case "(*bytes.Buffer).ReadFrom":
		if args[1].op == "app" && args[1].s == "nn:io.LimitReader" {
			return x.copyLimited(fr, st, args[0], args[1].args[0], args[1].args[1], pos)
		}
		return nil
	case "io.ReadAll", "io/ioutil.ReadAll":
		if args[0].op == "app" && args[0].s == "nn:io.LimitReader" {
			freshN++
			p := mk("alloc", fmt.Sprintf("readall#%d", freshN), nil)
			x.setBuf(st, p, mkStr(""))
			outs := x.copyLimited(fr, st, p, args[0].args[0], args[0].args[1], pos)
			for i := range outs {
				b := x.buf(outs[i].st, p)
				n := contentLen(outs[i].st.contOf(b.obj, nil))
				outs[i].rets = []*Term{mk("slice", "", types.NewSlice(types.Typ[types.Byte]), b.obj, tZero, n, n), outs[i].rets[1]}
			}
			return outs
		}
		return nil
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "invoke:sync.Locker.Lock":
		m := args[0]
		mode := "W"
		if lastName(name) == "RLock" {
			mode = "R"
		}
		held, already := st.locks[m]
		le := st.event(&Event{kind: "lock", name: mode, pos: pos, fn: fr.fn, args: []*Term{m}, stack: fr.stack})
		x.oblige(fr, st, "lock", pos, !already, fmt.Sprintf("Lock of %v, which this goroutine already holds (%s)", m, held))
		ls := cloneMap(st.locks)
		ls[m] = mode
		st.locks = ls
		st.lockgen++
		x.acquire(st, m)
		le.aux = &sentValue{st: st.clone()}
		return []Outcome{ret(st)}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "invoke:sync.Locker.Unlock":
		m := args[0]
		_, held := st.locks[m]
		x.oblige(fr, st, "unlock", pos, held, fmt.Sprintf("Unlock of %v, which is not held", m))
		st.event(&Event{kind: "unlock", pos: pos, fn: fr.fn, args: []*Term{m}, stack: fr.stack})
		ls := cloneMap(st.locks)
		delete(ls, m)
		st.locks = ls
		return []Outcome{ret(st)}
	case "(*sync.Once).Do":
		// The function runs once. Either it does so here, or it has been run
		// before, and what it leaves is so already.
		done := mkApp("once.done", types.Typ[types.Bool], args[0])
		fn := fnByTerm[args[1]]
		if fn == nil {
			return nil
		}
		var outs []Outcome
		was := st.decide(done)
		if was != 1 {
			first := st.clone()
			first.event(&Event{kind: "once", pos: pos, fn: fr.fn, args: args})
			for _, o := range x.callFn(fr, first, fn, args[1].args, nil, fn.Signature, pos) {
				if o.kind == outRet {
					o.st.addFact(done)
					o.st.event(&Event{kind: "onceend", pos: pos, fn: fr.fn, args: args})
				}
				outs = append(outs, o)
			}
		}
		if was != -1 {
			prior := st.clone()
			prior.addFact(done)
			ev := prior.ev
			if was == 1 {
				prior.event(&Event{kind: "oncedone", pos: pos, fn: fr.fn, args: args})
				return append(outs, ret(prior))
			}
			for _, o := range x.callFn(fr, prior, fn, args[1].args, nil, fn.Signature, pos) {
				if o.kind != outRet {
					continue // it would have ended that other run
				}
				var past []*Event
				for _, e := range o.st.events() {
					if ev == nil || e.n > ev.n {
						past = append(past, e)
					}
				}
				o.st.ev = ev
				o.st.event(&Event{kind: "oncedone", pos: pos, fn: fr.fn, args: args, aux: past})
				outs = append(outs, o)
			}
		}
		return outs
	case "sync/atomic.AddUint64", "sync/atomic.AddUint32", "sync/atomic.AddInt64", "sync/atomic.AddInt32":
		t := sig.Results().At(0).Type()
		st.vers[fieldKey(args[0])]++
		delete(st.cells, args[0])
		r := mkApp("atomic.Add", t, mkSym(fmt.Sprintf("#%d", x.next1()), nil), args[0], args[1])
		st.event(&Event{kind: "atomic", name: name, pos: pos, fn: fr.fn, args: args, res: []*Term{r}, stack: fr.stack})
		return []Outcome{ret(st, r)}
	case "sync/atomic.LoadUint64", "sync/atomic.LoadUint32", "sync/atomic.LoadInt64", "sync/atomic.LoadInt32":
		t := sig.Results().At(0).Type()
		r := x.sym("atomic", t)
		st.event(&Event{kind: "atomic", name: name, pos: pos, fn: fr.fn, args: args, res: []*Term{r}, stack: fr.stack})
		return []Outcome{ret(st, r)}
	case "sync/atomic.StoreUint64", "sync/atomic.StoreUint32", "sync/atomic.StoreInt64", "sync/atomic.StoreInt32":
		st.event(&Event{kind: "atomic", name: name, pos: pos, fn: fr.fn, args: args, stack: fr.stack})
		delete(st.cells, args[0])
		st.vers[fieldKey(args[0])]++
		return []Outcome{ret(st)}
	case "fmt.Errorf":
		as := x.spread(st, args, sig)
		return []Outcome{ret(st, mkApp("fmt.Errorf", nil, as...))}
	case "errors.As":
		// args: the error, and a pointer to where what is found goes
		tgt := args[1]
		if tgt.op == "iface" {
			tgt = tgt.args[0]
		}
		pt, ok := args[1].t.(*types.Pointer)
		if !ok && tgt.t != nil {
			pt, ok = tgt.t.Underlying().(*types.Pointer)
		}
		if !ok {
			return nil
		}
		et := pt.Elem()
		if isNilT(args[0]) {
			return []Outcome{ret(st, tFalse)}
		}
		is := mk("istype", typeKey(et), nil, args[0])
		got := mk("app", "nn:as:"+typeKey(et), et, args[0])
		no := st.clone()
		no.addFact(notT(is))
		st.addFact(is)
		st.store(tgt, et, got)
		return []Outcome{ret(st, tTrue), ret(no, tFalse)}
	case "errors.Join":
		as := x.spread(st, args, sig)
		some, all := false, true
		for _, a := range as {
			if isNilT(a) {
				continue
			}
			all = false
			if nonNilTerm(a) || st.proves(notT(mkEq(a, mkNil(nil), nil))) {
				some = true
			}
		}
		if all {
			return []Outcome{ret(st, mkNil(nil))}
		}
		joined := mkApp("nn:errors.Join", nil, as...)
		if some {
			return []Outcome{ret(st, joined)}
		}
		none := st.clone()
		for _, a := range as {
			if !isNilT(a) && !none.assume(mkEq(a, mkNil(nil), nil)) {
				return []Outcome{ret(st, joined)}
			}
		}
		return []Outcome{ret(st, joined), ret(none, mkNil(nil))}
	case "errors.New":
		return []Outcome{ret(st, mkApp("errors.New", nil, args...))}
	}
	if name == "encoding/binary.Read" && len(args) == 3 {
		return x.binaryRead(fr, st, args, pos)
	}
	if name == "encoding/binary.Write" && len(args) == 3 {
		return x.binaryWrite(fr, st, args)
	}
	if strings.HasPrefix(name, "(encoding/binary.littleEndian).") || strings.HasPrefix(name, "(encoding/binary.bigEndian).") {
		return x.endian(fr, st, name, args, pos)
	}
	// readers and writers behind an interface
	if strings.HasPrefix(name, "invoke:") {
		switch lastName(name) {
		case "Write":
			if len(args) == 2 && sig.Results().Len() == 2 {
				c := x.bytesOf(st, args[1])
				bad := st.clone()
				st.event(&Event{kind: "write", name: name, pos: pos, fn: fr.fn, args: []*Term{args[0], c}, res: []*Term{mkNil(nil)}, stack: fr.stack})
				e := x.nnsym("err:write", nil)
				bad.event(&Event{kind: "write", name: name, pos: pos, fn: fr.fn, args: []*Term{args[0], c}, res: []*Term{e}, stack: fr.stack})
				return []Outcome{ret(st, contentLen(c), mkNil(nil)), ret(bad, x.sym("n", types.Typ[types.Int]), e)}
			}
		case "Read":
			if len(args) == 2 && sig.Results().Len() == 2 {
				return x.streamRead(fr, st, x.unbuffered(st, args[0]), args[1], pos)
			}
		}
	}
	return nil
}

func (x *Exec) next1() int { freshN++; return freshN }

// acquire: what the lock guards may have been changed by others meanwhile.
func (x *Exec) acquire(st *State, m *Term) {
	if rootOf(m).op == "alloc" {
		return
	}
	if m.op == "faddr" {
		base := m.args[0]
		for c := range st.cells {
			if c.op == "faddr" && c.args[0] == base && x.pr.fieldMutable(c.s) {
				delete(st.cells, c)
			}
		}
		for _, f := range x.pr.mutableFields() {
			st.vers["."+f]++
		}
	}
	for k := range st.mapw {
		if k.op != "mkmap" {
			delete(st.mapw, k)
		}
	}
	st.mapverDefault++
}

func (x *Exec) isBuffer(st *State, r *Term) *Term {
	if r.op == "iface" && r.t != nil {
		if p, ok := r.t.Underlying().(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" {
				return r.args[0]
			}
		}
	}
	if _, ok := st.bufs[r]; ok {
		return r
	}
	return nil
}

func (x *Exec) bufRead(fr *Frame, st *State, p, dst *Term) []Outcome {
	b := x.buf(st, p)
	total := st.contOf(b.obj, nil)
	rem := subT(contentLen(total), b.head)
	_, _, n, _ := sliceParts(dst)
	var outs []Outcome
	full, part, none := st, st.clone(), st.clone()
	if n == tZero {
		return []Outcome{ret(st, tZero, mkNil(nil))}
	}
	if full.assume(mkLe(n, rem)) {
		bb := x.buf(full, p)
		x.fill(full, dst, full.contSlice(total, bb.head, n), n)
		bb.head = addT(bb.head, n)
		outs = append(outs, ret(full, n, mkNil(nil)))
	}
	if part.assume(mkLe(tOne, rem)) && part.assume(mkLt(rem, n)) {
		bb := x.buf(part, p)
		x.fill(part, dst, part.contSlice(total, bb.head, rem), rem)
		bb.head = contentLen(total)
		outs = append(outs, ret(part, rem, mkNil(nil)))
	}
	if none.assume(mkLe(rem, tZero)) && none.assume(mkLe(tOne, n)) {
		outs = append(outs, ret(none, tZero, mk("sym", "nn:io.EOF", nil)))
	}
	return outs
}

func (x *Exec) fill(st *State, dst, content, n *Term) {
	if content == nil {
		u := x.sym("bytes", nil)
		st.addFact(mkEqInt(mk("len", "", nil, u), n))
		content = mkSub(u, tZero, n)
	}
	x.setBytes(st, dst, content)
}

func (x *Exec) cursor(st *State, r *Term) *Term {
	if c, ok := st.streams[r]; ok {
		return c
	}
	st.streams[r] = tZero
	return tZero
}

func streamSrc(r *Term) *Term { return mk("stream", "", nil, r) }

func (x *Exec) readFull(fr *Frame, st *State, r, dst *Term, pos token.Pos) []Outcome {
	_, _, n, _ := sliceParts(dst)
	if p := x.isBuffer(st, r); p != nil {
		b := x.buf(st, p)
		total := st.contOf(b.obj, nil)
		rem := subT(contentLen(total), b.head)
		var outs []Outcome
		bad := st.clone()
		if st.assume(mkLe(n, rem)) {
			x.fill(st, dst, st.contSlice(total, b.head, n), n)
			b.head = addT(b.head, n)
			outs = append(outs, ret(st, n, mkNil(nil)))
		}
		if bad.assume(mkLt(rem, n)) {
			obj, _, _, _ := sliceParts(dst)
			bad.havocCont(obj)
			bb := x.buf(bad, p)
			bb.head = contentLen(total)
			outs = append(outs, ret(bad, rem, x.nnsym("err:short", nil)))
		}
		return outs
	}
	cur := x.cursor(st, r)
	bad := st.clone()
	st.event(&Event{kind: "netread", name: "io.ReadFull", pos: pos, fn: fr.fn, args: []*Term{r, cur, n}, res: []*Term{mkNil(nil)}, stack: fr.stack})
	x.fill(st, dst, mkSub(streamSrc(r), cur, n), n)
	st.streams[r] = addT(cur, n)
	e := x.nnsym("err:read", nil)
	k := x.sym("n", types.Typ[types.Int])
	bad.addFact(mkLe(tZero, k))
	bad.addFact(mkLt(k, n))
	obj, _, _, _ := sliceParts(dst)
	bad.havocCont(obj)
	bad.streams[r] = addT(cur, k)
	bad.event(&Event{kind: "netread", name: "io.ReadFull", pos: pos, fn: fr.fn, args: []*Term{r, cur, n}, res: []*Term{e}, stack: fr.stack})
	return []Outcome{ret(st, n, mkNil(nil)), ret(bad, k, e)}
}

// streamRead: one Read of a stream gives anything from nothing to all that was asked for.
func (x *Exec) streamRead(fr *Frame, st *State, r, dst *Term, pos token.Pos) []Outcome {
	_, _, n, _ := sliceParts(dst)
	cur := x.cursor(st, r)
	bad := st.clone()
	do := func(s *State, e *Term) Outcome {
		k := x.sym("n", types.Typ[types.Int])
		s.addFact(mkLe(tZero, k))
		s.addFact(mkLe(k, n))
		c := mkSub(streamSrc(r), cur, k)
		obj, off, _, _ := sliceParts(dst)
		old := s.contOf(obj, nil)
		if nw := s.contOverwrite(old, off, c); nw != nil {
			s.cont[obj] = nw
		} else {
			s.havocCont(obj)
		}
		s.streams[r] = addT(cur, k)
		s.event(&Event{kind: "netread", name: "Read", pos: pos, fn: fr.fn, args: []*Term{r, cur, n, k}, res: []*Term{e}, stack: fr.stack})
		return ret(s, k, e)
	}
	return []Outcome{do(st, mkNil(nil)), do(bad, x.nnsym("err:read", nil))}
}

func (x *Exec) appendBuf(st *State, w *Term, c *Term) bool {
	p := x.isBuffer(st, w)
	if p == nil {
		return false
	}
	b := x.buf(st, p)
	st.cont[b.obj] = mkCat(st.contOf(b.obj, nil), c)
	return true
}

func (x *Exec) copyN(fr *Frame, st *State, w, r, n *Term, pos token.Pos) []Outcome {
	if x.isBuffer(st, w) == nil || x.isBuffer(st, r) != nil {
		return nil
	}
	cur := x.cursor(st, r)
	bad, negv := st.clone(), st.clone()
	var outs []Outcome
	if st.assume(mkLe(tZero, n)) {
		st.event(&Event{kind: "netread", name: "io.CopyN", pos: pos, fn: fr.fn, args: []*Term{r, cur, n}, res: []*Term{mkNil(nil)}, stack: fr.stack})
		x.appendBuf(st, w, mkSub(streamSrc(r), cur, n))
		st.streams[r] = addT(cur, n)
		outs = append(outs, ret(st, n, mkNil(nil)))
	}
	if bad.assume(mkLe(tOne, n)) {
		e := x.nnsym("err:read", nil)
		k := x.sym("n", types.Typ[types.Int64])
		bad.addFact(mkLe(tZero, k))
		bad.addFact(mkLt(k, n))
		x.appendBuf(bad, w, mkSub(streamSrc(r), cur, k))
		bad.streams[r] = addT(cur, k)
		bad.event(&Event{kind: "netread", name: "io.CopyN", pos: pos, fn: fr.fn, args: []*Term{r, cur, n}, res: []*Term{e}, stack: fr.stack})
		outs = append(outs, ret(bad, k, e))
	}
	if negv.assume(mkLt(n, tZero)) {
		negv.event(&Event{kind: "netread", name: "io.CopyN", pos: pos, fn: fr.fn, args: []*Term{r, cur, tZero}, res: []*Term{mkNil(nil)}, stack: fr.stack})
		outs = append(outs, ret(negv, tZero, mkNil(nil)))
	}
	return outs
}

func (x *Exec) copyLimited(fr *Frame, st *State, w, r, n *Term, pos token.Pos) []Outcome {
	if x.isBuffer(st, w) == nil || x.isBuffer(st, r) != nil {
		return nil
	}
	cur := x.cursor(st, r)
	bad := st.clone()
	do := func(s *State, e *Term) Outcome {
		k := x.sym("n", types.Typ[types.Int64])
		s.addFact(mkLe(tZero, k))
		s.addFact(mkLe(k, n))
		x.appendBuf(s, w, mkSub(streamSrc(r), cur, k))
		s.streams[r] = addT(cur, k)
		s.event(&Event{kind: "netread", name: "limited", pos: pos, fn: fr.fn, args: []*Term{r, cur, n, k}, res: []*Term{e}, stack: fr.stack})
		return ret(s, k, e)
	}
	return []Outcome{do(st, mkNil(nil)), do(bad, x.nnsym("err:read", nil))}
}

// fixedSize is the number of bytes encoding/binary gives t, if it is made of
// unsigned integers.
func fixedSize(t types.Type) (int64, bool) {
	if s := flatStruct(t); s != nil {
		n := int64(0)
		for i := 0; i < s.NumFields(); i++ {
			k, ok := fixedSize(s.Field(i).Type())
			if !ok || s.Field(i).Name() == "_" {
				return 0, false
			}
			n += k
		}
		return n, true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return 1, true
		case types.Uint16:
			return 2, true
		case types.Uint32:
			return 4, true
		case types.Uint64:
			return 8, true
		}
	}
	return 0, false
}

func bigOrder(order *Term) (big, ok bool) {
	if order.t == nil || order.op != "iface" {
		return false, false
	}
	n := types.TypeString(order.t, nil)
	return n == "encoding/binary.bigEndian", n == "encoding/binary.bigEndian" || n == "encoding/binary.littleEndian"
}

func (x *Exec) binaryRead(fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome {
	big, ok := bigOrder(args[1])
	if !ok || args[2].op != "iface" {
		return nil
	}
	if s, ok := args[2].t.Underlying().(*types.Slice); ok && isByteType(s.Elem()) {
		outs := x.readFull(fr, st, args[0], args[2].args[0], pos)
		for i := range outs {
			outs[i].rets = outs[i].rets[1:]
		}
		return outs
	}
	p, ok := args[2].t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := fixedSize(p.Elem())
	if !ok {
		return nil
	}
	freshN++
	a := mk("alloc", fmt.Sprintf("binread#%d", freshN), nil)
	st.cont[a] = mkSub(mkSym(fmt.Sprintf("binread#%d", freshN), nil), tZero, mkInt(n))
	outs := x.readFull(fr, st, args[0], mk("slice", "", types.NewSlice(types.Typ[types.Byte]), a, tZero, mkInt(n), mkInt(n)), pos)
	for i := range outs {
		o := &outs[i]
		if isNilT(o.rets[1]) {
			at := int64(0)
			o.st.store(args[2].args[0], p.Elem(), decFixed(o.st, o.st.contOf(a, nil), &at, p.Elem(), big))
		}
		o.rets = o.rets[1:]
	}
	return outs
}

func decFixed(st *State, c *Term, at *int64, t types.Type, big bool) *Term {
	if s := flatStruct(t); s != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, decFixed(st, c, at, s.Field(i).Type(), big))
		}
		return mk("struct", "", t, fs...)
	}
	w, _ := fixedSize(t)
	var bs []*Term
	for i := int64(0); i < w; i++ {
		k := i
		if big {
			k = w - 1 - i
		}
		bs = append(bs, st.contAt(c, mkInt(*at+k)))
	}
	*at += w
	return le(bs...)
}

func (x *Exec) binaryWrite(fr *Frame, st *State, args []*Term) []Outcome {
	big, ok := bigOrder(args[1])
	if !ok || args[2].op != "iface" || x.isBuffer(st, args[0]) == nil {
		return nil
	}
	t, v := args[2].t, args[2].args[0]
	if s, ok := t.Underlying().(*types.Slice); ok && isByteType(s.Elem()) {
		x.appendBuf(st, args[0], x.bytesOf(st, v))
		return []Outcome{ret(st, mkNil(nil))}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		if _, ok := fixedSize(t); ok {
			v = st.load(v, t)
		}
	}
	if _, ok := fixedSize(t); !ok {
		return nil
	}
	var ps []*Term
	encFixed(&ps, v, t, big)
	x.appendBuf(st, args[0], mkCat(ps...))
	return []Outcome{ret(st, mkNil(nil))}
}

func encFixed(ps *[]*Term, v *Term, t types.Type, big bool) {
	if s := flatStruct(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			encFixed(ps, fieldByName(v, t, s.Field(i).Name()), s.Field(i).Type(), big)
		}
		return
	}
	w, _ := fixedSize(t)
	for i := 0; i < int(w); i++ {
		k := i
		if big {
			k = int(w) - 1 - i
		}
		*ps = append(*ps, mkByte(byteOf(v, k)))
	}
}

func (x *Exec) endian(fr *Frame, st *State, name string, args []*Term, pos token.Pos) []Outcome {
	m := lastName(name)
	big := strings.Contains(name, "bigEndian")
	w := 0
	switch {
	case strings.HasSuffix(m, "16"):
		w = 2
	case strings.HasSuffix(m, "32"):
		w = 4
	case strings.HasSuffix(m, "64"):
		w = 8
	default:
		return nil
	}
	bytesFor := func(v *Term) *Term {
		var ps []*Term
		for i := 0; i < w; i++ {
			k := i
			if big {
				k = w - 1 - i
			}
			ps = append(ps, mkByte(byteOf(v, k)))
		}
		return mkCat(ps...)
	}
	switch {
	case strings.HasPrefix(m, "Uint"):
		_, _, n, _ := sliceParts(args[1])
		x.oblige(fr, st, "index", pos, st.proves(mkLe(mkInt(int64(w)), n)), name)
		st.assume(mkLe(mkInt(int64(w)), n))
		c := x.bytesOf(st, args[1])
		var bs []*Term
		for i := 0; i < w; i++ {
			k := i
			if big {
				k = w - 1 - i
			}
			bs = append(bs, st.contAt(c, mkInt(int64(k))))
		}
		return []Outcome{ret(st, le(bs...))}
	case strings.HasPrefix(m, "PutUint"):
		_, _, n, _ := sliceParts(args[1])
		x.oblige(fr, st, "index", pos, st.proves(mkLe(mkInt(int64(w)), n)), name)
		st.assume(mkLe(mkInt(int64(w)), n))
		x.setBytes(st, args[1], bytesFor(args[2]))
		return []Outcome{ret(st)}
	case strings.HasPrefix(m, "AppendUint"):
		freshN++
		a := mk("alloc", fmt.Sprintf("append#%d", freshN), nil)
		st.cont[a] = mkCat(x.bytesOf(st, args[1]), bytesFor(args[2]))
		n := contentLen(st.cont[a])
		return []Outcome{ret(st, mk("slice", "", types.NewSlice(types.Typ[types.Byte]), a, tZero, n, n))}
	}
	return nil
}
