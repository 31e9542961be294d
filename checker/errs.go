package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", checkC18,
		"closing a file that was only read, removing temporary files and best-effort permission changes are not consuming or producing content")
}

// failure is one call whose error must not turn into success.
type failure struct {
	p     *Prog
	fn    *ssa.Function
	call  *ssa.Call
	errv  ssa.Value
	carry map[ssa.Value]bool // values derived from the error
	cells map[ssa.Value]bool // variables it was stored in
	query bool
}

func errResult(c ssa.CallInstruction) int {
	res := c.Common().Signature().Results()
	if res.Len() == 0 || !isErrType(res.At(res.Len()-1).Type()) {
		return -1
	}
	return res.Len() - 1
}

func (f *failure) derive() {
	f.carry = map[ssa.Value]bool{f.errv: true}
	f.cells = map[ssa.Value]bool{}
	var fns []*ssa.Function
	var add func(g *ssa.Function)
	add = func(g *ssa.Function) {
		fns = append(fns, g)
		for _, a := range g.AnonFuncs {
			add(a)
		}
	}
	add(f.fn)
	for ch := true; ch; {
		ch = false
		set := func(v ssa.Value) {
			if !f.carry[v] {
				f.carry[v] = true
				ch = true
			}
		}
		for _, g := range fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if f.carry[x.Val] {
							root, _ := cellOf(x.Addr)
							if root != nil && !f.cells[root] {
								f.cells[root] = true
								ch = true
							}
						}
					case *ssa.MakeInterface:
						if f.carry[x.X] {
							set(x)
						}
					case *ssa.ChangeInterface:
						if f.carry[x.X] {
							set(x)
						}
					case *ssa.TypeAssert:
						if f.carry[x.X] {
							set(x)
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							if f.carry[e] {
								set(x)
							}
						}
					case *ssa.MakeSlice:
						if f.cells[x] {
							set(x)
						}
					case *ssa.Slice:
						if f.cells[x.X] || f.carry[x.X] {
							set(x)
						}
					case *ssa.UnOp:
						if x.Op == token.MUL {
							if root, _ := cellOf(x.X); root != nil && f.cells[root] {
								set(x)
							}
						}
					case *ssa.MakeClosure:
						gg := x.Fn.(*ssa.Function)
						for i, bv := range x.Bindings {
							if f.cells[bv] && !f.cells[gg.FreeVars[i]] {
								f.cells[gg.FreeVars[i]] = true
								ch = true
							}
							if f.cells[gg.FreeVars[i]] && !f.cells[bv] {
								f.cells[bv] = true
								ch = true
							}
						}
					case *ssa.Call:
						if x == f.call {
							continue
						}
						for _, a := range x.Call.Args {
							if f.carry[a] {
								set(x)
							}
						}
					case *ssa.Extract:
						if f.carry[x.Tuple] && x.Tuple != ssa.Value(f.call) {
							set(x)
						}
					}
				}
			}
		}
	}
}

var readLike = map[string]bool{"Read": true, "Next": true, "ReadByte": true, "ReadBytes": true, "ReadString": true, "ReadRune": true, "ReadLine": true, "ReadAt": true, "ReadDir": true, "Scan": true, "Decode": true, "Token": true}

// contentOp: the call moves, produces or finishes content, and reports failure through its last result.
func contentOp(ci ssa.CallInstruction) bool {
	n := staticName(ci)
	switch n {
	case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.ReadAll", "io.ReadFull", "io.ReadAtLeast", "io.WriteString",
		"os.ReadFile", "os.WriteFile", "os.Rename", "os.Create", "os.CreateTemp", "os.Truncate", "os.Link", "os.Symlink",
		"io/fs.ReadFile", "io/fs.WalkDir", "path/filepath.WalkDir", "path/filepath.Walk", "io/fs.ReadDir",
		"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "encoding/json.Unmarshal", "encoding/binary.Write", "encoding/binary.Read",
		"gopkg.in/ini.v1.ShadowLoad", "gopkg.in/ini.v1.Load", "encoding/hex.DecodeString":
		return true
	}
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return false
	}
	pkg, m := n[:i], n[i+1:]
	if strings.Contains(pkg, "gzip") && (m == "NewReader" || m == "NewWriterLevel") {
		return true
	}
	if !strings.HasPrefix(n, "(") {
		return false
	}
	switch m {
	case "Read", "ReadAt", "Next", "ReadByte", "ReadBytes", "ReadString", "ReadRune", "ReadLine", "ReadFrom", "WriteTo",
		"Write", "WriteString", "WriteByte", "WriteRune", "WriteAt", "WriteHeader", "WriteFile", "ReadFile", "Flush", "Sync", "Truncate",
		"Decode", "Encode", "Execute", "ExecuteTemplate", "Reset", "Seek", "MapTo", "StrictMapTo", "Wait", "AddFS":
		return !strings.HasPrefix(n, "(*sync.")
	case "Err":
		return strings.Contains(pkg, "Scanner")
	case "OpenFile", "Create":
		return true
	}
	return false
}

// toMemory: the destination of the write cannot fail.
func toMemory(ci ssa.CallInstruction) bool {
	cm := ci.Common()
	var dst ssa.Value
	if cm.IsInvoke() {
		dst = cm.Value
	} else if len(cm.Args) > 0 {
		dst = cm.Args[0]
	} else {
		return false
	}
	n := staticName(ci)
	if strings.HasPrefix(n, "io.Copy") {
		return false
	}
	for i := 0; i < 6; i++ {
		switch types.TypeString(dst.Type(), nil) {
		case "hash.Hash", "hash.Hash32", "hash.Hash64", "*bytes.Buffer", "*strings.Builder":
			return true
		}
		switch x := dst.(type) {
		case *ssa.MakeInterface:
			dst = x.X
		case *ssa.ChangeInterface:
			dst = x.X
		default:
			return false
		}
	}
	return false
}

type errCheck struct {
	c    *Ctx
	p    *Prog
	ra   *resAnalysis
	io   map[*ssa.Function]bool // functions of the module that return the failure of a content operation
	ccM  map[string]int
	seen map[*ssa.Call]bool
}

func (e *errCheck) class(ci ssa.CallInstruction) bool {
	if contentOp(ci) {
		return true
	}
	if g := ci.Common().StaticCallee(); g != nil && e.io[g] {
		return true
	}
	return false
}

// mute: an exported function without an error result, or a helper of such functions only.
func (e *errCheck) mute(f *ssa.Function, depth int) bool {
	if returnsError(f) || depth > 6 {
		return false
	}
	if isExportedFn(f) {
		return true
	}
	cs := e.p.callersOf(f)
	for _, g := range cs {
		if !e.mute(outermost(g), depth+1) {
			return false
		}
	}
	return len(cs) > 0
}

func checkC18(c *Ctx) {
	c.Rule("for every call that moves, produces or finishes content (copying, reading, decompressing, writing, flushing, renaming, walking, and the functions of the module that do so and return an error): its error is not discarded, and from the point where it is known to be non-nil every control-flow path ends in a return whose error is that error, derived from it, or known to be non-nil; the end of the data (io.EOF of a reader's next item), an error of a specific type recognised as a condition of its own, and a path on which another call produces the same kind of result instead are not failures")
	c.Rule("a file opened here and written to, and every buffered, compressing or archive writer, is closed or flushed with its error checked on every path to a return that reports success; a scanner's error is examined likewise")
	c.Rule("the absence of a file, but no other failure to look at it, may be answered with an empty successful result")
	e := &errCheck{c: c, p: c.P, io: map[*ssa.Function]bool{}, ccM: map[string]int{}}
	e.ra = newResAnalysis(c.P)
	for _, f := range c.P.Funcs {
		if returnsError(f) {
			for _, ci := range callsIn(f) {
				if errResult(ci) >= 0 && contentOp(ci) {
					e.io[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.Funcs {
			if e.io[f] || !returnsError(f) {
				continue
			}
			for _, g := range c.P.callees(f) {
				if e.io[g] || g.Parent() == f && e.io[g] {
					e.io[f] = true
					ch = true
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		if fn.Synthetic != "" && fn.Parent() == nil {
			continue
		}
		c.Funcs[fn] = true
		if e.mute(outermost(fn), 0) {
			continue // has no way to report a failure
		}
		if v := walkErr(fn); v != nil && e.io[fn] {
			f := &failure{p: c.P, fn: fn, errv: v}
			f.derive()
			sw := f.swallowed(e)
			if len(sw) == 0 {
				c.OK("reported", "error given to "+fn.Name()+" by the walk", c.P.pos(fn.Pos()), "")
			}
			for _, at := range sw {
				c.Bad("reported", "error given to "+fn.Name()+" by the walk", c.P.instrPos(at), "an entry that could not be visited is left out without a report")
			}
		}
		for _, ci := range callsIn(fn) {
			e.writers(ci)
			i := errResult(ci)
			if i < 0 {
				continue
			}
			n := staticName(ci)
			what := shortFn(n) + " in " + enclosing(ci)
			query := false
			if !e.class(ci) && !closing(ci) {
				if !queryOp(n) {
					continue
				}
				query = true
			}
			if toMemory(ci) {
				continue
			}
			call, ok := ci.(*ssa.Call)
			if !ok {
				c.Bad("discarded", what, c.P.instrPos(ci), "the error of a deferred call is lost")
				continue
			}
			errv := extractOf(call, i)
			if errv == nil || len(*errv.Referrers()) == 0 {
				if !query {
					c.Check(e.onlyOnFailure(call), "discarded", what, c.P.instrPos(ci), "the error is discarded")
				}
				continue
			}
			f := &failure{p: c.P, fn: fn, call: call, errv: errv, query: query}
			f.derive()
			sw := f.swallowed(e)
			if len(sw) == 0 {
				c.OK("reported", what, c.P.instrPos(ci), "")
			}
			for _, at := range sw {
				if query {
					c.Bad("absence", what, c.P.instrPos(ci), "any failure is answered with success, not only absence ("+c.P.instrPos(at)+")")
				} else if at == ssa.Instruction(call) {
					c.Bad("reported", what, c.P.instrPos(ci), "after a failure the loop goes on")
				} else {
					c.Bad("reported", what, c.P.instrPos(ci), "after a failure, a return that may report success is reached ("+c.P.instrPos(at)+")")
				}
			}
		}
	}
	c.AtLeast("reported", 50, "fallible operations")
	c.AtLeast("finished", 5, "writers and scanners")
}

// closing: within the Close of a type of the module, what it closes in turn.
func closing(ci ssa.CallInstruction) bool {
	f := outermost(ci.Parent())
	if f.Name() != "Close" || f.Signature.Recv() == nil || !returnsError(f) {
		return false
	}
	call, ok := ci.(*ssa.Call)
	return ok && strings.HasSuffix(staticName(call), ".Close")
}

// walkErr: the error a directory walk hands to its callback.
func walkErr(fn *ssa.Function) ssa.Value {
	ps := fn.Signature.Params()
	if ps.Len() != 3 || !returnsError(fn) || fn.Signature.Results().Len() != 1 || len(fn.Params) < 3 {
		return nil
	}
	if !isErrType(ps.At(2).Type()) || ps.At(0).Type().String() != "string" {
		return nil
	}
	if n := ps.At(1).Type().String(); n != "io/fs.DirEntry" && n != "io/fs.FileInfo" {
		return nil
	}
	return fn.Params[len(fn.Params)-1]
}

func queryOp(n string) bool {
	switch n {
	case "os.Stat", "os.Lstat", "os.Open", "os.OpenFile":
		return true
	}
	return strings.HasPrefix(n, "("+modPath) && (strings.HasSuffix(n, ").Stat") || strings.HasSuffix(n, ").Open") || strings.HasSuffix(n, ").Lstat")) || n == "(io/fs.FS).Open"
}

func returnsError(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() > 0 && isErrType(res.At(res.Len()-1).Type())
}

// onlyOnFailure: whatever happens after the call, the function reports a failure.
func (e *errCheck) onlyOnFailure(call *ssa.Call) bool {
	f := &failure{p: e.p, fn: call.Parent(), call: call, carry: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}}
	return len(f.swallowed(e)) == 0
}

// writers: a writer or scanner made by the call is finished, with its error checked, before success is reported.
func (e *errCheck) writers(ci ssa.CallInstruction) {
	call, ok := ci.(*ssa.Call)
	if !ok {
		return
	}
	n := staticName(ci)
	what := shortFn(n) + " in " + enclosing(ci)
	m := n[strings.LastIndex(n, ".")+1:]
	var o *owner
	file := false
	switch {
	case n == "bufio.NewWriter" || n == "bufio.NewWriterSize" || n == "bufio.NewScanner" || strings.HasSuffix(n, "tar.NewWriter") || strings.Contains(n, "gzip") && strings.HasPrefix(m, "NewWriter"):
		o = e.ra.newOwner(ci.Parent(), resOpen, call)
		o.succ = true
		if v := extractOf(call, 0); v != nil {
			o.level[v] = 2
		}
		e.ra.spread(o)
	default:
		for _, x := range e.ra.instances(ci.Parent(), ci) {
			if x.kind == resOpen && e.written(x) && !e.readBack(x) {
				o = x
				file = true
			}
		}
	}
	if o == nil {
		return
	}
	_ = file
	ls := e.unfinished(o)
	if len(ls) == 0 {
		e.c.OK("finished", what, e.p.instrPos(ci), "")
	}
	for _, l := range ls {
		e.c.Bad("finished", what, e.p.instrPos(ci), l.why+" ("+e.p.instrPos(l.at)+")")
	}
}

// written: something is written through the file.
func (e *errCheck) written(o *owner) bool {
	fns := []*ssa.Function{o.fn}
	for i := 0; i < len(fns); i++ {
		fns = append(fns, fns[i].AnonFuncs...)
	}
	for _, f := range fns {
		for _, ci := range callsIn(f) {
			cm := ci.Common()
			n := staticName(ci)
			m := n[strings.LastIndex(n, ".")+1:]
			if cm.IsInvoke() {
				if o.lvl(cm.Value) == 2 && (strings.HasPrefix(m, "Write") || m == "ReadFrom") {
					return true
				}
			} else if len(cm.Args) > 0 && o.lvl(cm.Args[0]) == 2 && cm.Signature().Recv() != nil && (strings.HasPrefix(m, "Write") || m == "ReadFrom") {
				return true
			}
			ps := cm.Signature().Params()
			off := 0
			if !cm.IsInvoke() && cm.Signature().Recv() != nil {
				off = 1
			}
			for i := off; i < len(cm.Args); i++ {
				if i-off < ps.Len() && o.lvl(cm.Args[i]) == 2 {
					switch types.TypeString(ps.At(i-off).Type(), nil) {
					case "io.Writer", "io.WriteCloser", "io.StringWriter":
						return true
					}
				}
			}
		}
	}
	return false
}

// readBack: what was written is read through the same file, which is never used by its name.
func (e *errCheck) readBack(o *owner) bool {
	if n := staticName(o.start.(ssa.CallInstruction)); n != "os.CreateTemp" || !inTempDir(e.p, o.start.(ssa.CallInstruction)) {
		return false
	}
	for _, ci := range callsIn(o.fn) {
		if staticName(ci) == "(*os.File).Seek" && o.lvl(ci.Common().Args[0]) == 2 {
			return true
		}
	}
	return false
}

// finishes: the instruction closes, flushes or (for scanners) examines the error, and the result is used.
func (e *errCheck) finishes(o *owner, in ssa.Instruction, depth int) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cm := ci.Common()
	n := staticName(ci)
	m := n[strings.LastIndex(n, ".")+1:]
	used := func() bool {
		c, ok := in.(*ssa.Call)
		return ok && len(*c.Referrers()) > 0
	}
	if m == "Close" || m == "Flush" || m == "Err" || m == "CloseFile" {
		if cm.IsInvoke() {
			return o.lvl(cm.Value) == 2 && used()
		}
		return len(cm.Args) > 0 && o.lvl(cm.Args[0]) == 2 && used()
	}
	if depth > 3 || cm.IsInvoke() {
		return false
	}
	if g := cm.StaticCallee(); g != nil && g.Parent() == nil {
		if !e.p.inModule(g) || len(g.Blocks) == 0 {
			return false
		}
		for i, a := range cm.Args {
			if o.lvl(a) == 2 && used() && e.finishesParam(g, i) {
				return true
			}
		}
		return false
	}
	if g, _ := closureFn(cm.Value); g != nil && len(g.Blocks) > 0 {
		_, isDefer := in.(*ssa.Defer)
		if !isDefer && !used() {
			return false
		}
		// a literal: deferred ones keep the error in a result of the function
		if isDefer {
			for _, b := range g.Blocks {
				for _, x := range b.Instrs {
					if e.finishes(o, x, depth+1) {
						return true
					}
				}
			}
			return false
		}
		return len(e.walkUnfinished(o, g, g.Blocks[0], 0, depth+1)) == 0
	}
	// a method value, possibly one of several
	if cm.StaticCallee() == nil && o.lvl(cm.Value) > 0 {
		return used() && boundTo(o, cm.Value, map[ssa.Value]bool{})
	}
	return false
}

// boundTo: the value is a method (or one of several) bound to the writer itself.
func boundTo(o *owner, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := spilled(v).(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !boundTo(o, e, seen) {
				return false
			}
		}
		return true
	case *ssa.MakeClosure:
		return len(x.Bindings) == 1 && o.lvl(x.Bindings[0]) == 2 && strings.HasSuffix(x.Fn.Name(), "$bound")
	}
	return false
}

// finishesElem: the instruction closes or flushes an element of a collection the writer is in.
func (e *errCheck) finishesElem(o *owner, in ssa.Instruction) bool {
	call, ok := in.(*ssa.Call)
	if !ok || len(*call.Referrers()) == 0 {
		return false
	}
	n := staticName(call)
	m := n[strings.LastIndex(n, ".")+1:]
	if m != "Close" && m != "Flush" {
		return false
	}
	v := call.Call.Value
	if !call.Call.IsInvoke() {
		if len(call.Call.Args) == 0 {
			return false
		}
		v = call.Call.Args[0]
	}
	if !o.holds(v) {
		return false
	}
	ld, ok := stripSlice(v).(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = ld.X.(*ssa.IndexAddr)
	return ok
}

func (e *errCheck) finishesParam(g *ssa.Function, i int) bool {
	key := g.String() + "#" + itoa(i)
	if v, ok := e.ccM[key]; ok {
		return v == 1
	}
	e.ccM[key] = 0
	o := e.ra.paramOwner(g, i, resOpen)
	if o != nil && len(e.walkUnfinished(o, g, g.Blocks[0], 0, 1)) == 0 {
		e.ccM[key] = 1
		return true
	}
	return false
}

func (e *errCheck) unfinished(o *owner) []leak {
	for _, x := range callsIn(o.fn) {
		if d, ok := x.(*ssa.Defer); ok && instrDominates(d, o.start) && e.finishes(o, d, 0) {
			return nil
		}
	}
	b := o.start.Block()
	for i, in := range b.Instrs {
		if in == o.start {
			return e.walkUnfinished(o, o.fn, b, i+1, 0)
		}
	}
	return nil
}

func (e *errCheck) walkUnfinished(o *owner, f *ssa.Function, b0 *ssa.BasicBlock, i0 int, depth int) []leak {
	var out []leak
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock, i int)
	rec = func(b *ssa.BasicBlock, i int) {
		if i == 0 && isLoopHeader(b) {
			// finishing every element of the collection that holds it
			lb := loopBlocks(b)
			if o.start == nil || !lb[o.start.Block()] {
				for x := range lb {
					for _, in := range x.Instrs {
						if e.finishesElem(o, in) {
							return
						}
					}
				}
			}
		}
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == o.start {
				return
			}
			if e.finishes(o, in, depth) || o.escIn[in] {
				return
			}
			switch x := in.(type) {
			case *ssa.Return:
				for _, v := range x.Results {
					v = spilled(v)
					if !isErrType(v.Type()) && !isNilConst(v) && o.holds(v) {
						return
					}
					if isErrType(v.Type()) && !isNilConst(v) && (&failure{p: e.p}).fails(v, b) {
						return
					}
				}
				out = append(out, leak{in, "success can be reported without having finished writing (or scanning) and checked that it succeeded"})
				return
			case *ssa.Panic:
				return
			case *ssa.If:
				for k, s := range b.Succs {
					if o.absentOn(x.Cond, k == 0) || seen[s] {
						continue
					}
					seen[s] = true
					rec(s, 0)
				}
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				rec(s, 0)
			}
		}
	}
	rec(b0, i0)
	return out
}

// swallowed follows the control flow after the failing call and lists the returns that report success.
func (f *failure) swallowed(e *errCheck) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[string]bool{}
	// eq: the variables and merged values that hold the error on this path
	type eqs map[ssa.Value]bool
	key := func(b *ssa.BasicBlock, q eqs) string {
		var ns []string
		for v := range q {
			ns = append(ns, v.Name())
		}
		sort.Strings(ns)
		return itoa(b.Index) + ":" + strings.Join(ns, ",")
	}
	var rec func(b *ssa.BasicBlock, i int, q eqs)
	step := func(from, to *ssa.BasicBlock, q eqs) {
		n := eqs{}
		for v := range q {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == to {
				continue
			}
			n[v] = true
		}
		for pi, p := range to.Preds {
			if p != from {
				continue
			}
			for _, in := range to.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if f.equals(phi.Edges[pi], q) {
					n[phi] = true
				}
			}
			break
		}
		k := key(to, n)
		if !seen[k] {
			seen[k] = true
			rec(to, 0, n)
		}
	}
	rec = func(b *ssa.BasicBlock, i int, q eqs) {
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Call:
				if x == f.call {
					if !f.query && f.errv != nil && !f.kept() {
						out = append(out, x)
					}
					return
				}
				n := staticName(x)
				for _, a := range x.Call.Args {
					if f.carry[a] {
						if g := x.Call.StaticCallee(); g != nil && f.p.inModule(g) || n == "(*sync.Map).Store" {
							return
						}
					}
				}
				if f.query && errResult(x) >= 0 && n != "fmt.Errorf" && n != "errors.Join" {
					return // something else decides
				}
				if f.errv != nil && f.replacedBy(x) {
					return
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if q[x.X] {
						q[x] = true
					} else {
						delete(q, x)
					}
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					nq := eqs{}
					for v := range q {
						nq[v] = true
					}
					if f.equals(x.Val, q) {
						nq[al] = true
					} else {
						delete(nq, al)
					}
					q = nq
				}
				if f.carry[x.Val] {
					if root, _ := cellOf(x.Addr); root == nil {
						return
					} else if _, ok := root.(*ssa.FreeVar); ok {
						return
					}
				}
			case *ssa.Panic:
				return
			case *ssa.Return:
				ok := len(x.Results) > 0 && !returnsError(f.fn) && allNil(x.Results)
				if f.query && !allNil(x.Results) {
					ok = true
				}
				for _, v := range x.Results {
					v = spilled(v)
					if f.carry[v] {
						ok = true
					}
					if isErrType(v.Type()) && !isNilConst(v) && f.fails(v, b) {
						ok = true
					}
				}
				if !ok {
					out = append(out, x)
				}
				return
			case *ssa.If:
				for k, s := range b.Succs {
					if !f.excluded(x.Cond, k == 0, func(v ssa.Value) bool { return f.equals(v, q) }) {
						step(b, s, q)
					}
				}
				return
			}
		}
		for _, s := range b.Succs {
			step(b, s, q)
		}
	}
	if f.call == nil {
		rec(f.fn.Blocks[0], 0, eqs{})
		return out
	}
	for i, in := range f.call.Block().Instrs {
		if in == ssa.Instruction(f.call) {
			rec(f.call.Block(), i+1, eqs{})
		}
	}
	return out
}

func (f *failure) equals(v ssa.Value, q map[ssa.Value]bool) bool {
	if f.errv == nil {
		return false
	}
	if v == f.errv || q[v] || spilled(v) == f.errv {
		return true
	}
	return f.joined(spilled(v), q)
}

// joined: the value is errors.Join of the error and others, which is nil only when all are.
func (f *failure) joined(v ssa.Value, q map[ssa.Value]bool) bool {
	c, ok := v.(*ssa.Call)
	if !ok || staticName(c) != "errors.Join" || len(c.Call.Args) != 1 {
		return false
	}
	al, ok := stripSlice(c.Call.Args[0]).(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && (q[st.Val] || st.Val == f.errv || spilled(st.Val) == f.errv) {
					return true
				}
			}
		}
	}
	return false
}

func (f *failure) fails(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Call:
		switch staticName(x) {
		case "fmt.Errorf", "errors.New":
			return true
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok {
			return true
		}
	}
	return nonNilAt(v, b)
}

// excluded: the branch is not taken when the call failed, or the failure means the end of the data or an absent file.
func (f *failure) excluded(cond ssa.Value, outcome bool, same func(ssa.Value) bool) bool {
	if f.errv == nil {
		return false
	}
	benign := func(v ssa.Value) bool { return f.benign(v) }
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return f.excluded(x.X, !outcome, same)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		eq := (x.Op == token.EQL) == outcome
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if same(p[0]) {
				if isNilConst(p[1]) {
					return eq
				}
				return eq && benign(p[1])
			}
		}
	case *ssa.Call:
		switch staticName(x) {
		case "errors.Is":
			return outcome && same(x.Call.Args[0]) && benign(x.Call.Args[1])
		case "os.IsNotExist", "os.IsExist":
			return outcome && same(x.Call.Args[0])
		case "errors.As":
			// an error of a type of the module is a condition of its own
			if !outcome || !same(x.Call.Args[0]) {
				return false
			}
			t := x.Call.Args[1]
			if mi, ok := t.(*ssa.MakeInterface); ok {
				t = mi.X
			}
			pt, ok := t.Type().Underlying().(*types.Pointer)
			if !ok {
				return false
			}
			n := namedOf(pt.Elem())
			return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
		}
	}
	return false
}

// kept: the errors are collected, one per element.
func (f *failure) kept() bool {
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && f.carry[st.Val] {
				if _, ok := st.Addr.(*ssa.IndexAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

// replacedBy: another call produces the same kind of result instead of the failed one.
func (f *failure) replacedBy(x *ssa.Call) bool {
	if f.call == nil {
		return false
	}
	a, ok1 := f.call.Type().(*types.Tuple)
	b, ok2 := x.Type().(*types.Tuple)
	if !ok1 || !ok2 || a.Len() < 2 || b.Len() < 2 || !isErrType(b.At(b.Len()-1).Type()) {
		return false
	}
	t := a.At(0).Type()
	if _, basic := t.Underlying().(*types.Basic); basic || !types.Identical(t, b.At(0).Type()) {
		return false
	}
	// the result of the failed call is not used from here on
	v := extractOf(f.call, 0)
	return v == nil || x.Block() != f.call.Block()
}

func allNil(vs []ssa.Value) bool {
	for _, v := range vs {
		if !isNilConst(spilled(v)) {
			return false
		}
	}
	return true
}

func (f *failure) benign(v ssa.Value) bool {
	ld, ok := stripSlice(v).(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return false
	}
	n := ""
	if f.call != nil {
		n = staticName(f.call)
	}
	switch g.String() {
	case "io.EOF":
		return readLike[n[strings.LastIndex(n, ".")+1:]]
	case "io/fs.ErrNotExist", "os.ErrNotExist", "io/fs.ErrExist", "os.ErrExist":
		return true
	}
	return strings.HasPrefix(g.String(), modPath)
}
