package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opc uint8

const (
	opNop opc = iota
	opAlloc
	opBin
	opUn
	opCall
	opDefer
	opGo
	opChangeIface
	opConvert
	opMulti
	opExtract
	opField
	opFieldAddr
	opIf
	opIndex
	opIndexAddr
	opJump
	opLookup
	opMakeChan
	opMakeClosure
	opMakeIface
	opMakeMap
	opMakeSlice
	opMapUpdate
	opNext
	opPanic
	opRange
	opReturn
	opRunDefers
	opSelect
	opSend
	opSlice
	opSliceToArrPtr
	opStore
	opTypeAssert
	opCopy // ChangeType
	opTramp
	opUnsupported
)

type inst struct {
	op      opc
	dst     int32
	a, b, c int32
	d       int32
	args    []int32
	rt, rt2 *RType
	tok     token.Token
	flag    bool
	off     int32
	i       ssa.Instruction
	call    *ssa.CallCommon
	fn      *ssa.Function // static callee
	bi      string
	intr    *intrinsic
	intrSet bool
	site    int // visible site id+1, 0 = invisible
	fi      *FnInfo
	mcache  map[*RType]*ssa.Function
}

type blk struct {
	insts []inst
	succs [2]int32
	phis  []phi
	preds []int32
}
type phi struct {
	dst   int32
	edges []int32
}

// FnInfo is a function prepared for execution.
type FnInfo struct {
	id            int
	fn            *ssa.Function
	blks          []blk
	nregs         int32
	consts        []Value
	racy          bool // memory accesses are recorded
	repo, harness bool // code under test: preemptible at visible operations
	rec           int32
	live          []map[int32]bool
	nparam        int
	liveAt        [][]uint64
}

type globalRef struct{ g *ssa.Global }

// Site is a visible operation in the code under test.
type Site struct {
	id   int
	pos  token.Position
	kind string
}

func (e *Engine) isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := fn.Pkg
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		// wrappers and instances
		if fn.Object().Pkg() != e.repoPkg.Pkg {
			return false
		}
		p = e.repoPkg
	}
	if p != e.repoPkg {
		return false
	}
	f := e.prog.Fset.Position(fn.Pos()).Filename
	return !strings.HasPrefix(filepath.Base(f), "zverif")
}

func (e *Engine) isHarnessFn(fn *ssa.Function) bool {
	return fn.Pos().IsValid() && strings.HasPrefix(filepath.Base(e.prog.Fset.Position(fn.Pos()).Filename), "zverif")
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if fi, ok := e.fns[fn]; ok {
		return fi
	}
	if fn.Blocks == nil {
		panic(unsupported{"no body: " + fn.String()})
	}
	fi := &FnInfo{id: len(e.fns), fn: fn, rec: -1}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		regs[p] = n
		n++
	}
	fi.nparam = int(n)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	fi.repo = e.isRepoFn(fn)
	fi.harness = !fi.repo && e.isHarnessFn(fn)
	fi.racy = fi.repo || fn.Pkg != nil && (fn.Pkg.Pkg.Path() == "bytes" || fn.Pkg.Pkg.Path() == "bufio")
	cidx := map[ssa.Value]int32{}
	operand := func(v ssa.Value) int32 {
		if v == nil {
			return math.MinInt32
		}
		if r, ok := regs[v]; ok {
			return r
		}
		if c, ok := cidx[v]; ok {
			return c
		}
		var cv Value
		switch x := v.(type) {
		case *ssa.Const:
			cv = e.constVal(x)
		case *ssa.Global:
			e.needPkg(x.Pkg)
			cv = Ptr{-e.gid(x), 0}
		case *ssa.Function:
			cv = &Closure{fn: x}
		case *ssa.Builtin:
			cv = nil
		default:
			panic(unsupported{fmt.Sprintf("operand %T", v)})
		}
		c := int32(-1 - len(fi.consts))
		fi.consts = append(fi.consts, cv)
		cidx[v] = c
		return c
	}
	fi.blks = make([]blk, len(fn.Blocks))
	if fn.Recover != nil {
		fi.rec = int32(fn.Recover.Index)
	}
	for bi, b := range fn.Blocks {
		bb := &fi.blks[bi]
		for i, s := range b.Succs {
			bb.succs[i] = int32(s.Index)
		}
		for _, p := range b.Preds {
			bb.preds = append(bb.preds, int32(p.Index))
		}
		for _, si := range sinkLoads(fn, b) {
			if p, ok := si.(*ssa.Phi); ok {
				ph := phi{dst: regs[p]}
				for _, ed := range p.Edges {
					ph.edges = append(ph.edges, operand(ed))
				}
				bb.phis = append(bb.phis, ph)
				continue
			}
			in := inst{i: si, dst: -1, fi: fi}
			if v, ok := si.(ssa.Value); ok {
				in.dst = regs[v]
			}
			e.compileInst(&in, si, operand)
			if in.op == opNop {
				continue
			}
			if fi.repo && visPos(si).IsValid() {
				if k := e.visible(si); k != "" {
					in.site = e.siteOf(si, k) + 1
				}
			}
			bb.insts = append(bb.insts, in)
		}
	}
	e.fns[fn] = fi
	e.fnList = append(e.fnList, fi)
	return fi
}

// sinkLoads moves the loads of variables that appear as plain operands of a return statement behind the calls in that
// statement: the compiler evaluates the calls first (the language leaves the order open), go/ssa goes from left to right.
func sinkLoads(fn *ssa.Function, b *ssa.BasicBlock) []ssa.Instruction {
	n := len(b.Instrs)
	ret, ok := b.Instrs[n-1].(*ssa.Return)
	if !ok || len(ret.Results) < 2 || !ret.Pos().IsValid() || fn.Syntax() == nil {
		return b.Instrs
	}
	var stmt *ast.ReturnStmt
	ast.Inspect(fn.Syntax(), func(nd ast.Node) bool {
		if r, ok := nd.(*ast.ReturnStmt); ok && r.Pos() == ret.Pos() {
			stmt = r
		}
		return stmt == nil
	})
	if stmt == nil || len(stmt.Results) != len(ret.Results) {
		return b.Instrs
	}
	sink := map[ssa.Instruction]bool{}
	vals := append([]ssa.Value(nil), ret.Results...)
	at := n - 1
	for i, v := range vals {
		// functions with deferred calls store the results before these run and load them again behind
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			for k := n - 1; k >= 0; k-- {
				if s, ok := b.Instrs[k].(*ssa.Store); ok && s.Addr == ld.X {
					vals[i] = s.Val
					if k < at {
						at = k
					}
					break
				}
			}
		}
	}
	for i, r := range stmt.Results {
		id, ok := r.(*ast.Ident)
		if !ok {
			continue
		}
		v := vals[i]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL || ld.Block() != b {
			continue
		}
		switch a := ld.X.(type) {
		case *ssa.Alloc:
			ok = a.Comment == id.Name
		case *ssa.FreeVar:
			ok = a.Name() == id.Name
		case *ssa.Global:
			ok = a.Name() == id.Name
		default:
			ok = false
		}
		if ok && len(*ld.Referrers()) == 1 {
			sink[ld] = true
			if mi, ok := vals[i].(*ssa.MakeInterface); ok {
				sink[mi] = true
			}
		}
	}
	if len(sink) == 0 {
		return b.Instrs
	}
	var res, late []ssa.Instruction
	for _, in := range b.Instrs[:at] {
		if sink[in] {
			late = append(late, in)
		} else {
			res = append(res, in)
		}
	}
	return append(append(res, late...), b.Instrs[at:]...)
}

func (e *Engine) compileCall(in *inst, c *ssa.CallCommon, operand func(ssa.Value) int32) {
	in.call = c
	if c.IsInvoke() {
		in.a = operand(c.Value)
		in.mcache = map[*RType]*ssa.Function{}
	} else {
		switch f := c.Value.(type) {
		case *ssa.Builtin:
			in.bi = f.Name()
			if len(c.Args) > 0 {
				in.rt = e.rt(c.Args[0].Type())
				if len(c.Args) > 1 {
					in.rt2 = e.rt(c.Args[1].Type())
				}
			}
		case *ssa.Function:
			in.fn = f
		default:
			in.a = operand(c.Value)
		}
	}
	for _, a := range c.Args {
		in.args = append(in.args, operand(a))
	}
}

func (e *Engine) compileInst(in *inst, si ssa.Instruction, operand func(ssa.Value) int32) {
	switch x := si.(type) {
	case *ssa.DebugRef:
		in.op = opNop
	case *ssa.Alloc:
		in.op = opAlloc
		in.rt = e.rt(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		in.op = opBin
		in.tok = x.Op
		in.a, in.b = operand(x.X), operand(x.Y)
		in.rt = e.rt(x.X.Type())
		in.rt2 = e.rt(x.Y.Type())
		if in.rt.kind == KInvalid {
			in.rt = in.rt2
		}
	case *ssa.UnOp:
		in.op = opUn
		in.tok = x.Op
		in.a = operand(x.X)
		in.rt = e.rt(x.X.Type())
		if x.Op == token.MUL {
			in.rt2 = e.rt(x.Type())
		}
		in.flag = x.CommaOk
	case *ssa.Call:
		in.op = opCall
		e.compileCall(in, &x.Call, operand)
	case *ssa.Defer:
		in.op = opDefer
		if x.DeferStack != nil {
			panic(unsupported{"DeferStack (range over func)"})
		}
		e.compileCall(in, &x.Call, operand)
	case *ssa.Go:
		in.op = opGo
		e.compileCall(in, &x.Call, operand)
	case *ssa.ChangeInterface:
		in.op = opCopy
		in.a = operand(x.X)
	case *ssa.ChangeType:
		in.op = opCopy
		in.a = operand(x.X)
	case *ssa.Convert:
		in.op = opConvert
		in.a = operand(x.X)
		in.rt = e.rt(x.X.Type())
		in.rt2 = e.rt(x.Type())
	case *ssa.MultiConvert:
		in.op = opConvert
		in.a = operand(x.X)
		in.rt = e.rt(x.X.Type())
		in.rt2 = e.rt(x.Type())
	case *ssa.Extract:
		in.op = opExtract
		in.a = operand(x.Tuple)
		in.off = int32(x.Index)
	case *ssa.Field:
		in.op = opField
		in.a = operand(x.X)
		st := e.rt(x.X.Type())
		in.rt = st.fields[x.Field]
		in.off = st.foff[x.Field]
	case *ssa.FieldAddr:
		in.op = opFieldAddr
		in.a = operand(x.X)
		st := e.rt(x.X.Type().Underlying().(*types.Pointer).Elem())
		in.off = st.foff[x.Field]
	case *ssa.If:
		in.op = opIf
		in.a = operand(x.Cond)
	case *ssa.Index:
		in.op = opIndex
		in.a, in.b = operand(x.X), operand(x.Index)
		in.rt = e.rt(x.X.Type())
		in.rt2 = e.rt(x.Index.Type())
	case *ssa.IndexAddr:
		in.op = opIndexAddr
		in.a, in.b = operand(x.X), operand(x.Index)
		in.rt = e.rt(x.X.Type())
		in.rt2 = e.rt(x.Index.Type())
		if in.rt.kind == KPtr {
			in.rt = e.elemOf(in.rt)
		}
	case *ssa.Jump:
		in.op = opJump
	case *ssa.Lookup:
		in.op = opLookup
		in.a, in.b = operand(x.X), operand(x.Index)
		in.rt = e.rt(x.X.Type())
		in.rt2 = e.rt(x.Index.Type())
		in.flag = x.CommaOk
	case *ssa.MakeChan:
		in.op = opMakeChan
		in.a = operand(x.Size)
		in.rt = e.rt(x.Type())
	case *ssa.MakeClosure:
		in.op = opMakeClosure
		in.fn = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			in.args = append(in.args, operand(b))
		}
	case *ssa.MakeInterface:
		in.op = opMakeIface
		in.a = operand(x.X)
		in.rt = e.rt(x.X.Type())
	case *ssa.MakeMap:
		in.op = opMakeMap
		in.rt = e.rt(x.Type())
		in.a = -1
		if x.Reserve != nil {
			in.a = operand(x.Reserve)
			in.flag = true
		}
	case *ssa.MakeSlice:
		in.op = opMakeSlice
		in.a, in.b = operand(x.Len), operand(x.Cap)
		in.rt = e.rt(x.Type())
	case *ssa.MapUpdate:
		in.op = opMapUpdate
		in.a, in.b, in.c = operand(x.Map), operand(x.Key), operand(x.Value)
		in.rt = e.rt(x.Map.Type())
	case *ssa.Next:
		in.op = opNext
		in.a = operand(x.Iter)
		in.flag = x.IsString
		in.rt = e.rt(x.Type())
	case *ssa.Panic:
		in.op = opPanic
		in.a = operand(x.X)
	case *ssa.Range:
		in.op = opRange
		in.a = operand(x.X)
		in.rt = e.rt(x.X.Type())
	case *ssa.Return:
		in.op = opReturn
		for _, r := range x.Results {
			in.args = append(in.args, operand(r))
		}
	case *ssa.RunDefers:
		in.op = opRunDefers
	case *ssa.Select:
		in.op = opSelect
		in.flag = x.Blocking
		for _, s := range x.States {
			in.args = append(in.args, operand(s.Chan), operand(s.Send))
		}
		in.rt = e.rt(x.Type())
	case *ssa.Send:
		in.op = opSend
		in.a, in.b = operand(x.Chan), operand(x.X)
	case *ssa.Slice:
		in.op = opSlice
		in.a, in.b, in.c, in.d = operand(x.X), operand(x.Low), operand(x.High), operand(x.Max)
		in.rt = e.rt(x.X.Type())
		in.rt2 = e.rt(x.Type())
	case *ssa.SliceToArrayPointer:
		in.op = opSliceToArrPtr
		in.a = operand(x.X)
		in.rt = e.rt(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Store:
		in.op = opStore
		in.a, in.b = operand(x.Addr), operand(x.Val)
		in.rt = e.rt(x.Val.Type())
	case *ssa.TypeAssert:
		in.op = opTypeAssert
		in.a = operand(x.X)
		in.rt = e.rt(x.AssertedType)
		in.flag = x.CommaOk
	default:
		in.op = opUnsupported
	}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	r := e.rt(c.Type())
	if c.Value == nil {
		return r.zeroVal()
	}
	switch r.kind {
	case KBool:
		return constant.BoolVal(c.Value)
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(r.w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(r.w)
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if r.w == 32 {
			f = float64(float32(f))
		}
		return f
	case KComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case KString:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		}
		return constant.StringVal(c.Value)
	case KUnsafePtr:
		return Ptr{}
	}
	panic(unsupported{fmt.Sprintf("const %v", c)})
}

func (e *Engine) gid(g *ssa.Global) int32 {
	if id, ok := e.gids[g]; ok {
		return id
	}
	e.nextG++
	id := e.nextG
	e.gids[g] = id
	e.glist = append(e.glist, g)
	return id
}

// ---- visible operations

var visFuncs = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).TryLock": true,
	"(*sync.RWMutex).Lock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).TryLock": true, "(*sync.RWMutex).TryRLock": true,
	"(*sync.WaitGroup).Wait": true, "(*sync.Once).Do": true,
	"(*sync.Map).Load": true, "(*sync.Map).Store": true, "(*sync.Map).LoadOrStore": true, "(*sync.Map).LoadAndDelete": true,
	"(*sync.Map).Delete": true, "(*sync.Map).Range": true, "(*sync.Map).Swap": true, "(*sync.Map).CompareAndSwap": true, "(*sync.Map).CompareAndDelete": true,
	"(reflect.Value).Send": true, "(reflect.Value).Recv": true, "(reflect.Value).TrySend": true, "(reflect.Value).TryRecv": true, "(reflect.Value).Close": true,
	"(*io.PipeWriter).Write": true, "(*io.PipeWriter).Close": true, "(*io.PipeWriter).CloseWithError": true,
	"(*io.PipeReader).Close": true, "(*io.PipeReader).CloseWithError": true, "(*io.PipeReader).Read": true,
}

var visMethods = map[string]bool{"Err": true, "Write": true, "Read": true, "Lock": true, "RLock": true, "Close": true}

// visible says whether an instruction of the code under test is a scheduling point. The rule is static, so that the
// instrumented replay build has the same points.
func (e *Engine) visible(si ssa.Instruction) string {
	switch x := si.(type) {
	case *ssa.Send:
		return "send"
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "recv"
		}
	case *ssa.Select:
		return "select"
	case *ssa.Call:
		return e.visCall(&x.Call)
	case *ssa.Defer:
		return e.visCall(&x.Call)
	case *ssa.Go:
		return ""
	case *ssa.MapUpdate:
		if mapOps && !localMap(x.Map) {
			return "mapw"
		}
	case *ssa.Lookup:
		if mapOps && !localMap(x.X) {
			return "mapr"
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok && mapOps && !localMap(r.X) {
			return "mapn"
		}
	}
	return ""
}

// mapOps: the operations on maps which may be shared are scheduling points too (runs with the parameter maps).
var mapOps bool

// logOps: calls of loggers are scheduling points too (runs with the parameter logs).
var logOps bool

// localMap says whether v is no map or surely one no other goroutine changes: made in the same function or a package's.
func localMap(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Map); !ok {
		return true
	}
	switch y := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.UnOp:
		_, ok := y.X.(*ssa.Global)
		return ok
	}
	return false
}

// visPos is the position of a scheduling point.
func visPos(si ssa.Instruction) token.Pos {
	if n, ok := si.(*ssa.Next); ok {
		if r, ok := n.Iter.(*ssa.Range); ok {
			return r.Pos()
		}
	}
	return si.Pos()
}

// mapAccess looks whether another goroutine is about to access the map that the current instruction accesses.
func (x *X) mapAccess(mv Value, write bool) {
	x.mapTouch(mv, write)
	if !mapOps || x.in.site == 0 || !x.e.mt(x.st) {
		return
	}
	m, ok := mv.(MapV)
	if !ok || m == 0 {
		return
	}
	for i, t := range x.st.threads {
		if i == x.st.cur || t.status != tYield || len(t.frames) == 0 {
			continue
		}
		fr := t.frames[len(t.frames)-1]
		in := &fr.fi.blks[fr.blk].insts[fr.pc]
		if in.site == 0 {
			continue
		}
		var o Value
		w := false
		switch in.op {
		case opMapUpdate:
			o, w = x.op(fr, in.a), true
		case opLookup:
			o = x.op(fr, in.a)
		case opNext:
			if it, ok := x.op(fr, in.a).(Tuple); ok {
				o = it[0]
			}
		case opCall:
			c, ok := in.i.(*ssa.Call)
			if !ok || len(in.args) == 0 {
				continue
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "delete" && b.Name() != "clear" {
				continue
			}
			o, w = x.op(fr, in.args[0]), true
		}
		if n, ok := o.(MapV); ok && n == m && (w || write) {
			fatalErr("concurrent map access")
		}
	}
}

func (e *Engine) visCall(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		if visMethods[c.Method.Name()] {
			switch c.Method.Name() {
			case "Err":
				// only context.Context's Err
				if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" {
					return "call"
				}
				return ""
			}
			return "call"
		}
		if logOps && c.Method.Name() == "Log" {
			return "log"
		}
		return ""
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		if f.Name() == "close" {
			return "call"
		}
		if (f.Name() == "delete" || f.Name() == "clear") && mapOps && !localMap(c.Args[0]) {
			return "mapd"
		}
	case *ssa.Function:
		name := f.String()
		if visFuncs[name] || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
			return "call"
		}
	default:
		if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" {
			return "call" // CancelFunc
		}
	}
	return ""
}

func (e *Engine) siteOf(si ssa.Instruction, kind string) int {
	p := e.prog.Fset.Position(visPos(si))
	k := fmt.Sprintf("%s:%d:%d:%s", p.Filename, p.Line, p.Column, kind)
	if id, ok := e.siteIdx[k]; ok {
		return id
	}
	id := len(e.sites)
	e.sites = append(e.sites, Site{id: id, pos: p, kind: kind})
	e.siteIdx[k] = id
	return id
}
