package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	intr  Intrinsic
	iname string
	full  string
	done  []bool // blocks that were executed to their end
}

type Frame struct {
	info      *FnInfo
	caller    *Frame
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []func()
	panicking bool
	panicVal  interface{}
	result    Value
	g         *G
	cur       ssa.Instruction
	visits    []int32
	recovered bool
}

type targetPanic struct {
	v     Value // Iface
	pos   string
	block string // for run-time errors: the block of the code under test that was being executed
}

// pathAbort ends the path (assumption failed, violation recorded, unsupported ...).
type pathAbort struct {
	status string
	msg    string
}

func (w *Worker) info(fn *ssa.Function) *FnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, full: fn.String(), done: make([]bool, len(fn.Blocks))}
	if o := fn.Origin(); o != nil && o != fn {
		fi.iname = o.String()
	} else {
		fi.iname = fi.full
	}
	fi.intr = lookupIntrinsic(fi.iname, fn)
	if fi.intr == nil && sovName.MatchString(fn.Name()) && len(fn.Params) == 1 && fn.Signature.Recv() == nil &&
		types.Identical(fn.Params[0].Type(), types.Typ[types.Uint64]) && fn.Signature.Results().Len() == 1 {
		fi.iname = "protobuf varint size (generated sov functions)"
		fi.intr = sovIntr
	}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	w.fns[fn] = fi
	return fi
}

func (x *Exec) get(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(unsupported("unknown ssa value " + v.Name()))
	}
	r := fr.env[i]
	if p, ok := r.(*Poison); ok && !x.initMode {
		panic(unsupported("use of " + p.why))
	}
	return r
}

func (x *Exec) rtPanic(msg string) {
	panic(&targetPanic{v: Iface{T: x.w.eng.rtErrType, V: strings.TrimPrefix(msg, "runtime error: ")}, pos: x.where(), block: x.ownBlock()})
}

func (x *Exec) where() string {
	g := x.cur
	if g == nil {
		return ""
	}
	for f := g.top; f != nil; f = f.caller {
		if f.cur == nil {
			continue
		}
		pos := f.cur.Pos()
		if !pos.IsValid() {
			continue
		}
		p := x.w.eng.prog.Fset.Position(pos)
		if strings.Contains(p.Filename, "/zz_vx_") {
			continue
		}
		return fmt.Sprintf("%s:%d (%s)", shortFile(p.Filename), p.Line, f.info.fn.Name())
	}
	return ""
}

// ownBlock names the innermost basic block of the code under test on the current stack.
func (x *Exec) ownBlock() string {
	if x.cur == nil {
		return ""
	}
	for f := x.cur.top; f != nil; f = f.caller {
		if f.block != nil && strings.Contains(f.info.full, modPath) && !strings.Contains(f.info.full, ".Vx") && !strings.Contains(f.info.full, ".vx") {
			return fmt.Sprintf("%s#%d", f.info.full, f.block.Index)
		}
	}
	return ""
}

// completed reports whether some execution got to the end of the block.
func (e *Engine) completed(block string) bool {
	for _, w := range e.workers {
		for _, fi := range w.fns {
			if i := strings.LastIndexByte(block, '#'); i > 0 && fi.full == block[:i] {
				if n, _ := strconv.Atoi(block[i+1:]); n < len(fi.done) && fi.done[n] {
					return true
				}
			}
		}
	}
	return false
}

func shortFile(f string) string {
	if i := strings.Index(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		return f[i+9:]
	}
	if i := strings.Index(f, "/src/"); i >= 0 {
		return f[i+5:]
	}
	return f
}

func (x *Exec) callValue(g *G, fr *Frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return x.callFn(g, fr, f, args, nil)
	case *Closure:
		if f == nil {
			x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		if f.Native != nil {
			return f.Native(x, g, args)
		}
		return x.callFn(g, fr, f.Fn, args, f.Env)
	case *ssa.Builtin:
		panic(unsupported("builtin as value " + f.Name()))
	case *Poison:
		panic(unsupported("call of " + f.why))
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

const maxDepth = 2500

func (x *Exec) callFn(g *G, caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := x.w.info(fn)
	if fi.intr != nil {
		x.w.eng.noteModel(fi.iname)
		if caller != nil {
			g.top = caller
		}
		return fi.intr(x, g, fn, args)
	}
	if fn.Blocks == nil {
		panic(unsupported("no body for " + fi.full))
	}
	x.w.noteFn(fi)
	g.depth++
	if g.depth > maxDepth {
		panic(unsupported("call depth"))
	}
	fr := &Frame{info: fi, caller: caller, g: g, env: make([]Value, fi.n)}
	for i, a := range args {
		if i < len(fn.Params) {
			fr.env[i] = a
		}
	}
	for i, a := range env {
		fr.env[len(fn.Params)+i] = a
	}
	saved := g.top
	g.top = fr
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		x.runFrame(fr)
	}
	g.top = saved
	g.depth--
	return fr.result
}

// runFrame executes until return or panic; on a target panic runs the deferred calls.
func (x *Exec) runFrame(fr *Frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		fr.g.top = fr
		fr.g.depth = depthOf(fr)
		fr.panicking = true
		fr.panicVal = tp
		x.runDefers(fr)
		fr.block = fr.info.fn.Recover
		if fr.block == nil {
			// recovered without named results
			fr.result = zero(x.c, fr.info.fn.Signature.Results())
			if fr.info.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}()
	for {
		x.checkBlock(fr)
		jumped := false
		for _, ins := range fr.block.Instrs {
			fr.cur = ins
			x.steps++
			if x.steps > x.maxSteps {
				panic(&pathAbort{"steps", "instruction limit at " + x.where()})
			}
			switch x.exec(fr, ins) {
			case kReturn:
				fr.info.done[fr.block.Index] = true
				fr.block = nil
				return
			case kJump:
				fr.info.done[ins.Block().Index] = true
				jumped = true
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic(unsupported("fell off block in " + fr.info.full))
		}
	}
}

func depthOf(fr *Frame) int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		n++
	}
	return n
}

func (x *Exec) checkBlock(fr *Frame) {
	if x.initMode {
		return
	}
	b := fr.block.Index
	if fr.visits == nil {
		fr.visits = make([]int32, len(fr.info.fn.Blocks))
	}
	fr.visits[b]++
	if int(fr.visits[b]) > x.maxLoop {
		panic(&pathAbort{"unwind", fmt.Sprintf("loop bound %d in %s", x.maxLoop, fr.info.full)})
	}
}

func (x *Exec) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if !ok {
					r := recover()
					tp, isT := r.(*targetPanic)
					if !isT {
						panic(r)
					}
					fr.panicking = true
					fr.panicVal = tp
				}
			}()
			d()
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (x *Exec) set(fr *Frame, ins ssa.Value, v Value) {
	fr.env[fr.info.idx[ins]] = v
}

func (x *Exec) load(p Value) Value {
	ptr, ok := p.(Ptr)
	if !ok {
		if po, ok := p.(*Poison); ok {
			panic(unsupported("load of " + po.why))
		}
		panic(unsupported(fmt.Sprintf("load from %T", p)))
	}
	if ptr == nil {
		x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	x.access(ptr, false)
	return copyVal(*ptr)
}

func (x *Exec) store(p Value, v Value) {
	ptr, ok := p.(Ptr)
	if !ok {
		panic(unsupported(fmt.Sprintf("store to %T", p)))
	}
	if ptr == nil {
		x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	x.access(ptr, true)
	x.storeSlot(ptr, v)
}

func (x *Exec) storeSlot(p Ptr, v Value) {
	switch n := v.(type) {
	case Struct:
		if o, ok := (*p).(Struct); ok && len(o) == len(n) {
			for i := range n {
				x.storeSlot(&o[i], n[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if o, ok := (*p).(Array); ok && len(o) == len(n) {
			for i := range n {
				x.storeSlot(&o[i], n[i])
			}
			return
		}
		v = copyVal(v)
	}
	if !x.initMode {
		x.journal = append(x.journal, jent{p: p, old: *p})
	}
	*p = v
}

type jent struct {
	p   Ptr
	old Value
	f   func()
}

func (x *Exec) undo(f func()) {
	if !x.initMode {
		x.journal = append(x.journal, jent{f: f})
	}
}

func (x *Exec) rollback() {
	for i := len(x.journal) - 1; i >= 0; i-- {
		j := &x.journal[i]
		if j.f != nil {
			j.f()
		} else {
			*j.p = j.old
		}
	}
	x.journal = nil
}

// cint turns an integer value into a concrete Go int, forking over feasible values.
func (x *Exec) cint(v Value) int {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("int from %T", v)))
	}
	if t.IsConst() {
		return int(t.S())
	}
	return int(sx(x.concretize(t), t.w))
}

func (x *Exec) indexVal(v Value, signed bool, n int) int {
	t := v.(*Term)
	if t.IsConst() {
		var i int64
		if signed {
			i = t.S()
		} else {
			if t.k > math.MaxInt64 {
				i = -1
			} else {
				i = int64(t.k)
			}
		}
		if i < 0 || i >= int64(n) {
			x.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	// symbolic: fork on bounds first, then on the value
	var in *Term
	c := x.c
	if t.w < 64 {
		if signed {
			t = c.Sext(t, 64)
		} else {
			t = c.Zext(t, 64)
		}
	}
	in = c.Ult(t, c.BV(64, uint64(n)))
	if !x.branch(in) {
		x.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	return int(x.concretize(t))
}

func (x *Exec) exec(fr *Frame, ins ssa.Instruction) cont {
	if x.initMode {
		return x.execInit(fr, ins)
	}
	return x.exec1(fr, ins)
}

// execInit tolerates unsupported operations at the top level of a package initialiser:
// their results become poison that only matters if the path really uses them.
func (x *Exec) execInit(fr *Frame, ins ssa.Instruction) (k cont) {
	if fr.info.fn != x.initFn {
		return x.exec1(fr, ins)
	}
	if st, ok := ins.(*ssa.Store); ok {
		if x.initPoisoned(fr, st) {
			return kNext
		}
	}
	defer func() {
		if r := recover(); r != nil {
			var why string
			switch r := r.(type) {
			case *unsupportedErr:
				why = r.msg
			case *targetPanic:
				why = "panic in initialiser"
			case *pathAbort:
				if r.status == "kill" {
					panic(r)
				}
				why = r.msg
			default:
				why = fmt.Sprint(r)
			}
			fr.g.top = fr
			fr.g.depth = depthOf(fr)
			po := &Poison{why: "uninitialised value (" + why + ")"}
			switch i := ins.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.RunDefers:
				panic(r)
			case *ssa.Store:
				x.poisonRoot(fr, i.Addr, po)
			case ssa.Value:
				x.set(fr, i, po)
			}
			k = kNext
		}
	}()
	return x.exec1(fr, ins)
}

func (x *Exec) initPoisoned(fr *Frame, st *ssa.Store) bool {
	if i, ok := fr.info.idx[st.Val]; ok {
		if p, ok := fr.env[i].(*Poison); ok {
			x.poisonRoot(fr, st.Addr, p)
			return true
		}
	}
	if i, ok := fr.info.idx[st.Addr]; ok {
		if _, ok := fr.env[i].(*Poison); ok {
			return true
		}
	}
	return false
}

func (x *Exec) poisonRoot(fr *Frame, a ssa.Value, po *Poison) {
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			a = v.X
			continue
		case *ssa.IndexAddr:
			a = v.X
			continue
		case *ssa.Global:
			*x.w.globals[v] = po
			return
		}
		break
	}
	if i, ok := fr.info.idx[a]; ok {
		if p, ok := fr.env[i].(Ptr); ok && p != nil {
			*p = po
			return
		}
		fr.env[i] = po
	}
}

func (x *Exec) exec1(fr *Frame, instr ssa.Instruction) cont {
	switch i := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		x.set(fr, i, x.unop(fr, i))
	case *ssa.BinOp:
		x.set(fr, i, x.binop(i.Op, i.X.Type(), i.Y.Type(), x.get(fr, i.X), x.get(fr, i.Y)))
	case *ssa.Call:
		x.set(fr, i, x.doCall(fr, &i.Call))
	case *ssa.ChangeInterface:
		x.set(fr, i, x.get(fr, i.X))
	case *ssa.ChangeType:
		x.set(fr, i, x.get(fr, i.X))
	case *ssa.Convert:
		x.set(fr, i, x.conv(i.Type(), i.X.Type(), x.get(fr, i.X)))
	case *ssa.MultiConvert:
		x.set(fr, i, x.conv(i.Type(), i.X.Type(), x.get(fr, i.X)))
	case *ssa.SliceToArrayPointer:
		s := x.get(fr, i.X).(Slice)
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if n > len(s) {
			x.rtPanic(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
		}
		if s == nil {
			x.set(fr, i, Ptr(nil))
		} else {
			var v Value = Array(s[:n:n])
			x.set(fr, i, &v)
		}
	case *ssa.MakeInterface:
		v := x.get(fr, i.X)
		x.set(fr, i, Iface{T: i.X.Type(), V: v})
	case *ssa.Extract:
		x.set(fr, i, x.get(fr, i.Tuple).(Tuple)[i.Index])
	case *ssa.Slice:
		x.set(fr, i, x.slice(fr, i))
	case *ssa.Return:
		switch len(i.Results) {
		case 0:
		case 1:
			fr.result = x.get(fr, i.Results[0])
		default:
			res := make(Tuple, len(i.Results))
			for j, r := range i.Results {
				res[j] = x.get(fr, r)
			}
			fr.result = res
		}
		return kReturn
	case *ssa.RunDefers:
		x.runDefers(fr)
	case *ssa.Panic:
		panic(&targetPanic{v: x.get(fr, i.X), pos: x.where()})
	case *ssa.Send:
		x.chanSend(fr.g, x.get(fr, i.Chan), x.get(fr, i.X))
	case *ssa.Store:
		x.store(x.get(fr, i.Addr), x.get(fr, i.Val))
	case *ssa.If:
		c := x.get(fr, i.Cond).(*Term)
		succ := 1
		if x.branch(c) {
			succ = 0
		}
		x.jump(fr, fr.block.Succs[succ])
		return kJump
	case *ssa.Jump:
		x.jump(fr, fr.block.Succs[0])
		return kJump
	case *ssa.Defer:
		fn, args, bi := x.prepCall(fr, &i.Call)
		f := func() {
			if bi != nil {
				x.builtin(fr, bi, &i.Call, args)
				return
			}
			x.callValue(fr.g, fr, fn, args)
		}
		if i.DeferStack != nil {
			// range-over-func defers: the stack pointer identifies the frame
			if tf, ok := x.get(fr, i.DeferStack).(*Frame); ok {
				tf.defers = append(tf.defers, f)
				break
			}
		}
		fr.defers = append(fr.defers, f)
	case *ssa.Go:
		fn, args, bi := x.prepCall(fr, &i.Call)
		if bi != nil {
			panic(unsupported("go builtin"))
		}
		x.spawn(fr.g, fn, args, fmt.Sprintf("go@%s", x.where()))
	case *ssa.MakeChan:
		x.chanID++
		x.set(fr, i, &Chan{cap: x.cint(x.get(fr, i.Size)), zero: zero(x.c, i.Type().Underlying().(*types.Chan).Elem()), id: x.chanID})
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(x.c, i.Type().Underlying().(*types.Pointer).Elem())
		x.set(fr, i, p)
	case *ssa.MakeSlice:
		n := x.cint(x.get(fr, i.Len))
		c := x.cint(x.get(fr, i.Cap))
		if n < 0 || n > 1<<22 {
			x.rtPanic("runtime error: makeslice: len out of range")
		}
		if c < n || c > 1<<22 {
			x.rtPanic("runtime error: makeslice: cap out of range")
		}
		elem := i.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		z := zero(x.c, elem)
		for j := range s {
			s[j] = copyVal(z)
		}
		x.set(fr, i, s[:n])
	case *ssa.MakeMap:
		x.set(fr, i, newMap())
	case *ssa.Range:
		x.set(fr, i, x.rangeIter(x.get(fr, i.X), i))
	case *ssa.Next:
		x.set(fr, i, x.get(fr, i.Iter).(iter).next(x, i))
	case *ssa.FieldAddr:
		p, ok := x.get(fr, i.X).(Ptr)
		if !ok {
			panic(unsupported("field of non-pointer"))
		}
		if p == nil {
			x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			if po, ok := (*p).(*Poison); ok {
				panic(unsupported("field of " + po.why))
			}
			panic(unsupported(fmt.Sprintf("field address in %T", *p)))
		}
		x.set(fr, i, &s[i.Field])
	case *ssa.Field:
		x.set(fr, i, copyVal(x.get(fr, i.X).(Struct)[i.Field]))
	case *ssa.IndexAddr:
		v := x.get(fr, i.X)
		idx := x.get(fr, i.Index)
		switch a := v.(type) {
		case Slice:
			x.set(fr, i, &a[x.indexVal(idx, isSigned(i.Index.Type()), len(a))])
		case Ptr:
			if a == nil {
				x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			arr := (*a).(Array)
			x.set(fr, i, &arr[x.indexVal(idx, isSigned(i.Index.Type()), len(arr))])
		default:
			panic(unsupported(fmt.Sprintf("index address of %T", v)))
		}
	case *ssa.Index:
		v := x.get(fr, i.X)
		idx := x.get(fr, i.Index)
		switch a := v.(type) {
		case Array:
			x.set(fr, i, copyVal(a[x.indexVal(idx, isSigned(i.Index.Type()), len(a))]))
		case string, *SymStr:
			b := x.strBytes(a)
			x.set(fr, i, b[x.indexVal(idx, isSigned(i.Index.Type()), len(b))])
		default:
			panic(unsupported(fmt.Sprintf("index of %T", v)))
		}
	case *ssa.Lookup:
		x.set(fr, i, x.lookup(fr, i))
	case *ssa.MapUpdate:
		m, ok := x.get(fr, i.Map).(*MapV)
		if !ok {
			panic(unsupported("map update"))
		}
		x.accessMap(m, true)
		x.mapSet(m, x.get(fr, i.Key), x.get(fr, i.Value))
	case *ssa.TypeAssert:
		x.set(fr, i, x.typeAssert(i, x.get(fr, i.X)))
	case *ssa.MakeClosure:
		env := make([]Value, len(i.Bindings))
		for j, b := range i.Bindings {
			env[j] = x.get(fr, b)
		}
		x.set(fr, i, &Closure{Fn: i.Fn.(*ssa.Function), Env: env})
	case *ssa.Phi:
		// handled in jump
	case *ssa.Select:
		x.set(fr, i, x.doSelect(fr, i))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", instr)))
	}
	return kNext
}

func (x *Exec) jump(fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	fr.prev = from
	fr.block = to
	// evaluate all phis simultaneously
	var vals []Value
	var phis []*ssa.Phi
	pi := -1
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			for k, p := range to.Preds {
				if p == from {
					pi = k
					break
				}
			}
		}
		phis = append(phis, ph)
		vals = append(vals, x.get(fr, ph.Edges[pi]))
	}
	for k, ph := range phis {
		x.set(fr, ph, vals[k])
	}
}

func (x *Exec) prepCall(fr *Frame, c *ssa.CallCommon) (Value, []Value, *ssa.Builtin) {
	var fn Value
	var args []Value
	if c.IsInvoke() {
		rv := x.get(fr, c.Value)
		recv, ok := rv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", rv)))
		}
		if recv.T == nil {
			x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		m := x.w.eng.lookupMethod(recv.T, c.Method)
		if m == nil {
			panic(unsupported("method " + c.Method.Name() + " of " + recv.T.String()))
		}
		fn = m
		args = append(args, recv.V)
	} else {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			for _, a := range c.Args {
				args = append(args, x.get(fr, a))
			}
			return nil, args, b
		}
		fn = x.get(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.get(fr, a))
	}
	return fn, args, nil
}

func (x *Exec) doCall(fr *Frame, c *ssa.CallCommon) Value {
	fn, args, bi := x.prepCall(fr, c)
	if bi != nil {
		return x.builtin(fr, bi, c, args)
	}
	return x.callValue(fr.g, fr, fn, args)
}

func (x *Exec) slice(fr *Frame, i *ssa.Slice) Value {
	v := x.get(fr, i.X)
	var lo, hi, mx int
	lo = 0
	hasHi, hasMax := i.High != nil, i.Max != nil
	if i.Low != nil {
		lo = x.cint(x.get(fr, i.Low))
	}
	if hasHi {
		hi = x.cint(x.get(fr, i.High))
	}
	if hasMax {
		mx = x.cint(x.get(fr, i.Max))
	}
	bad := func(n int) {
		x.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, n))
	}
	switch a := v.(type) {
	case string, *SymStr:
		n := strLen(a)
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			bad(n)
		}
		if s, ok := a.(string); ok {
			return s[lo:hi]
		}
		return mkStr(x.strBytes(a)[lo:hi])
	case *OpqStr:
		if len(a.parts) > 0 {
			if s, ok := a.parts[0].(string); ok && hasHi && lo >= 0 && hi <= len(s) && lo <= hi {
				return s[lo:hi]
			}
		}
		b := x.textBytes(a)
		if !hasHi {
			hi = len(b)
		}
		if lo < 0 || hi < lo || hi > len(b) {
			bad(len(b))
		}
		return mkStr(b[lo:hi])
	case Slice:
		if !hasHi {
			hi = len(a)
		}
		if !hasMax {
			mx = cap(a)
		}
		if lo < 0 || hi < lo || mx < hi || mx > cap(a) {
			bad(cap(a))
		}
		return a[lo:hi:mx]
	case Ptr:
		if a == nil {
			x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		arr := (*a).(Array)
		if !hasHi {
			hi = len(arr)
		}
		if !hasMax {
			mx = len(arr)
		}
		if lo < 0 || hi < lo || mx < hi || mx > len(arr) {
			bad(len(arr))
		}
		return Slice(arr[lo:hi:mx])
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

func (x *Exec) lookup(fr *Frame, i *ssa.Lookup) Value {
	v := x.get(fr, i.X)
	idx := x.get(fr, i.Index)
	switch a := v.(type) {
	case string, *SymStr:
		b := x.strBytes(a)
		return b[x.indexVal(idx, isSigned(i.Index.Type()), len(b))]
	case *MapV:
		if a != nil {
			x.accessMap(a, false)
		}
		n := x.mapFind(a, idx)
		var r Value
		if n >= 0 {
			r = copyVal(*a.vals[n])
		} else {
			r = zero(x.c, i.X.Type().Underlying().(*types.Map).Elem())
		}
		if i.CommaOk {
			return Tuple{r, x.c.Bool(n >= 0)}
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("lookup in %T", v)))
}

type iter interface {
	next(x *Exec, i *ssa.Next) Value
}

type mapIter struct {
	m     *MapV
	todo  []Value
	i     int
	zk    Value
	zv    Value
	order bool
}

func (it *mapIter) next(x *Exec, _ *ssa.Next) Value {
	for it.i < len(it.todo) {
		// pick the next key: any order is allowed by the language
		if it.order && len(it.todo)-it.i > 1 {
			n := x.choose(len(it.todo)-it.i, "map order")
			it.todo[it.i], it.todo[it.i+n] = it.todo[it.i+n], it.todo[it.i]
		}
		k := it.todo[it.i]
		it.i++
		// skip entries deleted since
		j := -1
		for q, kk := range it.m.keys {
			if kk != nil && sameVal(kk, k) {
				j = q
				break
			}
		}
		if j < 0 {
			continue
		}
		return Tuple{x.c.True, copyVal(k), copyVal(*it.m.vals[j])}
	}
	return Tuple{x.c.False, it.zk, it.zv}
}

func sameVal(a, b Value) bool {
	switch av := a.(type) {
	case *Term:
		return a == b
	case string:
		bs, ok := b.(string)
		return ok && av == bs
	case *SymStr:
		bs, ok := b.(*SymStr)
		if !ok || len(av.b) != len(bs.b) {
			return false
		}
		for i := range av.b {
			if av.b[i] != bs.b[i] {
				return false
			}
		}
		return true
	case Struct:
		bs, ok := b.(Struct)
		if !ok || len(av) != len(bs) {
			return false
		}
		for i := range av {
			if !sameVal(av[i], bs[i]) {
				return false
			}
		}
		return true
	case Array:
		bs, ok := b.(Array)
		if !ok || len(av) != len(bs) {
			return false
		}
		for i := range av {
			if !sameVal(av[i], bs[i]) {
				return false
			}
		}
		return true
	case Iface:
		bs, ok := b.(Iface)
		if !ok {
			return false
		}
		if av.T == nil || bs.T == nil {
			return av.T == nil && bs.T == nil
		}
		return types.Identical(av.T, bs.T) && sameVal(av.V, bs.V)
	}
	return a == b
}

type strIter struct {
	s []*Term
	i int
}

func (it *strIter) next(x *Exec, _ *ssa.Next) Value {
	if it.i >= len(it.s) {
		return Tuple{x.c.False, x.c.BV(64, 0), x.c.BV(32, 0)}
	}
	at := it.i
	b := it.s[at]
	if b.IsConst() {
		// decode as much as is concrete
		var raw []byte
		for j := at; j < len(it.s) && j < at+4; j++ {
			if !it.s[j].IsConst() {
				if b.k >= 0x80 {
					r, n := x.decodeRune(it.s[at:])
					it.i += n
					return Tuple{x.c.True, x.c.BV(64, uint64(at)), r}
				}
				break
			}
			raw = append(raw, byte(it.s[j].k))
		}
		r, n := utf8.DecodeRune(raw)
		it.i += n
		return Tuple{x.c.True, x.c.BV(64, uint64(at)), x.c.BV(32, uint64(uint32(r)))}
	}
	if x.branch(x.c.Ult(b, x.c.BV(8, 0x80))) {
		it.i++
		return Tuple{x.c.True, x.c.BV(64, uint64(at)), x.c.Zext(b, 32)}
	}
	r, n := x.decodeRune(it.s[at:])
	it.i += n
	return Tuple{x.c.True, x.c.BV(64, uint64(at)), r}
}

// decodeRune decodes one UTF-8 sequence, branching on the bytes.
func (x *Exec) decodeRune(b []*Term) (*Term, int) {
	c := x.c
	in := func(t *Term, lo, hi uint64) *Term {
		return c.And(c.Ule(c.BV(8, lo), t), c.Ule(t, c.BV(8, hi)))
	}
	bits := func(t *Term, n int) *Term { return c.Zext(c.Extract(t, n-1, 0), 32) }
	shl := func(t *Term, n uint64) *Term { return c.Shl(t, c.BV(32, n)) }
	bad := c.BV(32, 0xfffd)
	if x.branch(c.Ult(b[0], c.BV(8, 0x80))) {
		return c.Zext(b[0], 32), 1
	}
	type form struct {
		lo, hi uint64 // first byte
		l2, h2 uint64 // second byte
		n      int
	}
	for _, f := range []form{{0xc2, 0xdf, 0x80, 0xbf, 2}, {0xe0, 0xe0, 0xa0, 0xbf, 3}, {0xe1, 0xec, 0x80, 0xbf, 3}, {0xed, 0xed, 0x80, 0x9f, 3},
		{0xee, 0xef, 0x80, 0xbf, 3}, {0xf0, 0xf0, 0x90, 0xbf, 4}, {0xf1, 0xf3, 0x80, 0xbf, 4}, {0xf4, 0xf4, 0x80, 0x8f, 4}} {
		if !x.branch(in(b[0], f.lo, f.hi)) {
			continue
		}
		if len(b) < f.n || !x.branch(in(b[1], f.l2, f.h2)) {
			return bad, 1
		}
		if f.n == 2 {
			return c.BOr(shl(bits(b[0], 5), 6), bits(b[1], 6)), 2
		}
		if !x.branch(in(b[2], 0x80, 0xbf)) {
			return bad, 1
		}
		if f.n == 3 {
			return c.BOr(c.BOr(shl(bits(b[0], 4), 12), shl(bits(b[1], 6), 6)), bits(b[2], 6)), 3
		}
		if !x.branch(in(b[3], 0x80, 0xbf)) {
			return bad, 1
		}
		return c.BOr(c.BOr(shl(bits(b[0], 3), 18), shl(bits(b[1], 6), 12)), c.BOr(shl(bits(b[2], 6), 6), bits(b[3], 6))), 4
	}
	return bad, 1
}

// encodeRune is the string of one rune (a 64-bit term), branching on its range.
func (x *Exec) encodeRune(t *Term) Value {
	c := x.c
	lt := func(n uint64) bool { return x.branch(c.Ult(t, c.BV(t.w, n))) }
	at := func(lo, n int, pre uint64) *Term {
		return c.BOr(c.BV(8, pre), c.Zext(c.Extract(t, lo+n-1, lo), 8))
	}
	switch {
	case lt(0x80):
		return mkStr([]*Term{c.Extract(t, 7, 0)})
	case lt(0x800):
		return mkStr([]*Term{at(6, 5, 0xc0), at(0, 6, 0x80)})
	case lt(0xd800) || !lt(0xe000) && lt(0x10000):
		return mkStr([]*Term{at(12, 4, 0xe0), at(6, 6, 0x80), at(0, 6, 0x80)})
	case !lt(0x10000) && lt(0x110000):
		return mkStr([]*Term{at(18, 3, 0xf0), at(12, 6, 0x80), at(6, 6, 0x80), at(0, 6, 0x80)})
	}
	return "\uFFFD"
}

func (x *Exec) rangeIter(v Value, i *ssa.Range) Value {
	switch a := v.(type) {
	case *MapV:
		mt := i.X.Type().Underlying().(*types.Map)
		it := &mapIter{m: a, zk: zero(x.c, mt.Key()), zv: zero(x.c, mt.Elem()), order: x.mapOrder}
		if a != nil {
			x.accessMap(a, false)
			for _, k := range a.keys {
				if k != nil {
					it.todo = append(it.todo, k)
				}
			}
		}
		return it
	case string, *SymStr:
		return &strIter{s: x.strBytes(a)}
	}
	panic(unsupported(fmt.Sprintf("range over %T", v)))
}

func (x *Exec) typeAssert(i *ssa.TypeAssert, v Value) Value {
	itf, ok := v.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("type assert on %T", v)))
	}
	var res Value
	good := false
	if itf.T != nil {
		if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			if x.w.eng.implements(itf.T, it) {
				good = true
				res = itf
			}
		} else if types.Identical(itf.T, i.AssertedType) {
			good = true
			res = copyVal(itf.V)
		}
	}
	if !good {
		if !i.CommaOk {
			d := "nil"
			if itf.T != nil {
				d = itf.T.String()
			}
			panic(&targetPanic{v: Iface{T: x.w.eng.rtErrType, V: fmt.Sprintf("interface conversion: interface is %s, not %s", d, i.AssertedType)}, pos: x.where(), block: x.ownBlock()})
		}
		res = zero(x.c, i.AssertedType)
	}
	if i.CommaOk {
		return Tuple{res, x.c.Bool(good)}
	}
	return res
}

func (x *Exec) unop(fr *Frame, i *ssa.UnOp) Value {
	v := x.get(fr, i.X)
	c := x.c
	switch i.Op {
	case token.MUL:
		return x.load(v)
	case token.ARROW:
		r, ok := x.chanRecv(fr.g, v)
		if i.CommaOk {
			return Tuple{r, c.Bool(ok)}
		}
		return r
	case token.NOT:
		return c.Not(v.(*Term))
	case token.SUB:
		switch n := v.(type) {
		case *Term:
			return c.Neg(n)
		case float64:
			return -n
		case complex128:
			return -n
		}
	case token.XOR:
		t := v.(*Term)
		return c.BXor(t, c.BV(t.w, mask(t.w)))
	}
	panic(unsupported("unary " + i.Op.String()))
}

func (x *Exec) binop(op token.Token, xt, yt types.Type, a, b Value) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.eqTerm(a, b)
	case token.NEQ:
		return c.Not(x.eqTerm(a, b))
	}
	switch av := a.(type) {
	case *Term:
		bv, ok := b.(*Term)
		if !ok {
			break
		}
		if av.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(av, bv)
			case token.OR, token.LOR:
				return c.Or(av, bv)
			}
			break
		}
		sg := isSigned(xt)
		switch op {
		case token.ADD:
			return c.Add(av, bv)
		case token.SUB:
			return c.Sub(av, bv)
		case token.MUL:
			return c.Mul(av, bv)
		case token.QUO, token.REM:
			if x.branch(c.Eq(bv, c.BV(bv.w, 0))) {
				x.rtPanic("runtime error: integer divide by zero")
			}
			if op == token.QUO {
				if sg {
					return c.Sdiv(av, bv)
				}
				return c.Udiv(av, bv)
			}
			if sg {
				return c.Srem(av, bv)
			}
			return c.Urem(av, bv)
		case token.AND:
			return c.BAnd(av, bv)
		case token.OR:
			return c.BOr(av, bv)
		case token.XOR:
			return c.BXor(av, bv)
		case token.AND_NOT:
			return c.BAnd(av, c.BXor(bv, c.BV(bv.w, mask(bv.w))))
		case token.SHL, token.SHR:
			if isSigned(yt) {
				if x.branch(c.Slt(bv, c.BV(bv.w, 0))) {
					x.rtPanic("runtime error: negative shift amount")
				}
			}
			// bring the amount to the width of the operand, saturating
			s := bv
			if s.w < av.w {
				s = c.Zext(s, av.w)
			} else if s.w > av.w {
				if s.IsConst() {
					k := s.k
					if k > uint64(av.w) {
						k = uint64(av.w)
					}
					s = c.BV(av.w, k)
				} else {
					big := c.Ule(c.BV(s.w, uint64(av.w)), s)
					s = c.Ite(big, c.BV(av.w, uint64(av.w)), c.Extract(s, av.w-1, 0))
				}
			}
			if op == token.SHL {
				return c.Shl(av, s)
			}
			if sg {
				return c.Ashr(av, s)
			}
			return c.Lshr(av, s)
		case token.LSS:
			if sg {
				return c.Slt(av, bv)
			}
			return c.Ult(av, bv)
		case token.LEQ:
			if sg {
				return c.Sle(av, bv)
			}
			return c.Ule(av, bv)
		case token.GTR:
			if sg {
				return c.Slt(bv, av)
			}
			return c.Ult(bv, av)
		case token.GEQ:
			if sg {
				return c.Sle(bv, av)
			}
			return c.Ule(bv, av)
		}
	case float64:
		bv := b.(float64)
		switch op {
		case token.ADD:
			return av + bv
		case token.SUB:
			return av - bv
		case token.MUL:
			return av * bv
		case token.QUO:
			return av / bv
		case token.LSS:
			return c.Bool(av < bv)
		case token.LEQ:
			return c.Bool(av <= bv)
		case token.GTR:
			return c.Bool(av > bv)
		case token.GEQ:
			return c.Bool(av >= bv)
		}
	case string, *SymStr, *OpqStr:
		switch op {
		case token.ADD:
			return x.strConcat(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if s, ok := a.(string); ok {
				if t, ok := b.(string); ok {
					switch op {
					case token.LSS:
						return c.Bool(s < t)
					case token.LEQ:
						return c.Bool(s <= t)
					case token.GTR:
						return c.Bool(s > t)
					case token.GEQ:
						return c.Bool(s >= t)
					}
				}
			}
			lt, eq := x.strLess(x.strBytes(a), x.strBytes(b))
			switch op {
			case token.LSS:
				return lt
			case token.LEQ:
				return c.Or(lt, eq)
			case token.GTR:
				return c.Not(c.Or(lt, eq))
			case token.GEQ:
				return c.Not(lt)
			}
		}
	}
	if p, ok := a.(*Poison); ok {
		panic(unsupported("use of " + p.why))
	}
	panic(unsupported(fmt.Sprintf("binary %s on %T,%T", op, a, b)))
}

func (x *Exec) strLess(a, b []*Term) (lt, eq *Term) {
	c := x.c
	n := min(len(a), len(b))
	lt, eq = c.Bool(len(a) < len(b)), c.Bool(len(a) == len(b))
	for i := n - 1; i >= 0; i-- {
		e := c.Eq(a[i], b[i])
		lt = c.Or(c.Ult(a[i], b[i]), c.And(e, lt))
		eq = c.And(e, eq)
	}
	return
}

func (x *Exec) conv(dst, src types.Type, v Value) Value {
	c := x.c
	du, su := dst.Underlying(), src.Underlying()
	switch d := du.(type) {
	case *types.Basic:
		if d.Kind() == types.UnsafePointer {
			return v
		}
		if sb, ok := su.(*types.Basic); ok {
			switch {
			case d.Info()&types.IsInteger != 0 && sb.Info()&types.IsInteger != 0:
				t, ok := v.(*Term)
				if !ok {
					panic(unsupported("integer conversion of pointer"))
				}
				w := intWidth(d)
				if w < t.w {
					return c.Extract(t, w-1, 0)
				}
				if w > t.w {
					if sb.Info()&types.IsUnsigned != 0 {
						return c.Zext(t, w)
					}
					return c.Sext(t, w)
				}
				return t
			case d.Info()&types.IsFloat != 0 && sb.Info()&types.IsFloat != 0:
				f := v.(float64)
				if d.Kind() == types.Float32 {
					return float64(float32(f))
				}
				return f
			case d.Info()&types.IsFloat != 0 && sb.Info()&types.IsInteger != 0:
				t := v.(*Term)
				if !t.IsConst() {
					panic(unsupported("symbolic int to float"))
				}
				if sb.Info()&types.IsUnsigned != 0 {
					return float64(t.k)
				}
				return float64(t.S())
			case d.Info()&types.IsInteger != 0 && sb.Info()&types.IsFloat != 0:
				f := v.(float64)
				if d.Info()&types.IsUnsigned != 0 {
					return c.BV(intWidth(d), uint64(f))
				}
				return c.BV(intWidth(d), uint64(int64(f)))
			case d.Info()&types.IsString != 0 && sb.Info()&types.IsInteger != 0:
				t := v.(*Term)
				if !t.IsConst() {
					switch {
					case t.w >= 64:
					case sb.Info()&types.IsUnsigned != 0:
						t = c.Zext(t, 64)
					default:
						t = c.Sext(t, 64)
					}
					return x.encodeRune(t)
				}
				return string(rune(t.S()))
			case d.Info()&types.IsString != 0 && sb.Info()&types.IsString != 0:
				return v
			case sb.Kind() == types.UnsafePointer:
				panic(unsupported("unsafe pointer to integer"))
			}
		}
		if ss, ok := su.(*types.Slice); ok && d.Info()&types.IsString != 0 {
			if eb, ok := ss.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return mkStr(x.bytesOf(v))
			}
			// []rune
			s := v.(Slice)
			rs := make([]rune, len(s))
			for i, e := range s {
				t := e.(*Term)
				if !t.IsConst() {
					panic(unsupported("symbolic runes to string"))
				}
				rs[i] = rune(t.S())
			}
			return string(rs)
		}
		if _, ok := su.(*types.Pointer); ok {
			return v
		}
	case *types.Slice:
		if sb, ok := su.(*types.Basic); ok && sb.Info()&types.IsString != 0 {
			eb := d.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				if q, ok := v.(*OpqStr); ok {
					return x.opaqueBytes(q)
				}
				return mkBytes(x.strBytes(v))
			}
			s, ok := v.(string)
			if !ok {
				panic(unsupported("symbolic string to runes"))
			}
			var o Slice = Slice{}
			for _, r := range s {
				o = append(o, c.BV(32, uint64(uint32(r))))
			}
			return o
		}
		return v
	case *types.Pointer:
		if sb, ok := su.(*types.Basic); ok && sb.Kind() == types.UnsafePointer {
			return v
		}
		return v
	case *types.Array:
		if _, ok := su.(*types.Slice); ok {
			s := v.(Slice)
			if int(d.Len()) > len(s) {
				x.rtPanic("runtime error: cannot convert slice to array")
			}
			return copyVal(Array(s[:d.Len()]))
		}
		return v
	}
	if types.Identical(du, su) {
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", src, dst)))
}

func (x *Exec) opaqueBytes(q *OpqStr) Value {
	return mkBytes(x.textBytes(q))
}

// pbText: text formatted from symbolic values (an error description) is encoded in a wire message as a fixed
// stand-in of the same kind; what such text says is not the subject of any property.
const pbText = "formatted text"

func (x *Exec) builtin(fr *Frame, bi *ssa.Builtin, call *ssa.CallCommon, args []Value) Value {
	c := x.c
	if fr != nil && fr.info != nil && fr.info.fn != nil && fr.info.fn.Pkg != nil && strings.Contains(fr.info.fn.Pkg.Pkg.Path(), "/proto") {
		for i := range args {
			if _, ok := args[i].(*OpqStr); ok {
				args[i] = pbText
			}
		}
	}
	switch bi.Name() {
	case "len":
		switch a := args[0].(type) {
		case string, *SymStr, *OpqStr:
			return c.BV(64, uint64(strLen(x.text(a))))
		case Slice:
			return c.BV(64, uint64(len(a)))
		case Array:
			return c.BV(64, uint64(len(a)))
		case Ptr:
			return c.BV(64, uint64(len((*a).(Array))))
		case *MapV:
			if a != nil {
				x.accessMap(a, false)
			}
			return c.BV(64, uint64(a.length()))
		case *Chan:
			if a == nil {
				return c.BV(64, 0)
			}
			return c.BV(64, uint64(len(a.buf)))
		}
	case "cap":
		switch a := args[0].(type) {
		case Slice:
			return c.BV(64, uint64(cap(a)))
		case Array:
			return c.BV(64, uint64(len(a)))
		case Ptr:
			return c.BV(64, uint64(len((*a).(Array))))
		case *Chan:
			return c.BV(64, uint64(a.cap))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		elem := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		var add []Value
		switch a := args[1].(type) {
		case Slice:
			add = a
		case string, *SymStr:
			add = mkBytes(x.strBytes(a))
		default:
			panic(unsupported(fmt.Sprintf("append %T", a)))
		}
		s := args[0].(Slice)
		x.accessRange(s, false)
		return x.appendVals(elem, s, append([]Value{}, add...))
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch a := args[1].(type) {
		case Slice:
			src = a
		case string, *SymStr:
			src = mkBytes(x.strBytes(a))
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			x.storeSlot(&dst[i], tmp[i])
		}
		return c.BV(64, uint64(n))
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			x.accessMap(m, true)
		}
		x.mapDelete(m, args[1])
		return nil
	case "close":
		x.chanClose(fr.g, args[0].(*Chan))
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], pos: x.where()})
	case "recover":
		return x.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch rv := r.(type) {
			case *Term:
				av := a.(*Term)
				var lt *Term
				if isSigned(call.Args[0].Type()) {
					lt = c.Slt(av, rv)
				} else {
					lt = c.Ult(av, rv)
				}
				if bi.Name() == "max" {
					lt = c.Not(lt)
				}
				r = c.Ite(lt, av, rv)
			case float64:
				if bi.Name() == "min" {
					r = math.Min(rv, a.(float64))
				} else {
					r = math.Max(rv, a.(float64))
				}
			default:
				panic(unsupported("min/max"))
			}
		}
		return r
	case "clear":
		switch a := args[0].(type) {
		case *MapV:
			for _, k := range append([]Value{}, a.keys...) {
				if k != nil {
					x.mapDelete(a, k)
				}
			}
			return nil
		case Slice:
			z := zero(x.c, call.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range a {
				x.storeSlot(&a[i], z)
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			x.rtPanic("runtime error: value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	}
	panic(unsupported("builtin " + bi.Name()))
}

func (x *Exec) doRecover(fr *Frame) Value {
	// recover is effective only when called directly by a deferred function of a panicking frame
	if fr.caller != nil && fr.caller.panicking {
		fr.caller.panicking = false
		tp := fr.caller.panicVal.(*targetPanic)
		fr.caller.panicVal = nil
		fr.caller.recovered = true
		if i, ok := tp.v.(Iface); ok {
			return i
		}
		return Iface{}
	}
	return Iface{}
}

var sovName = regexp.MustCompile("^sov[A-Z][A-Za-z]*$")

// sovIntr is the length of a varint, (Len64(v|1)+6)/7, deciding the length class of a symbolic value.
func sovIntr(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
	t := a[0].(*Term)
	for k := 1; k < 10; k++ {
		if x.branch(x.c.Ult(t, x.c.BV(64, uint64(1)<<uint(7*k)))) {
			return x.u64(uint64(k))
		}
	}
	return x.u64(10)
}
