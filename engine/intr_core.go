package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(x *Exec, g *G, fn *ssa.Function, args []Value) Value

var intrinsics = map[string]Intrinsic{}

const vxPkg = "github.com/strangelove-ventures/horcrux/zzvx."

func lookupIntrinsic(name string, fn *ssa.Function) Intrinsic {
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Pkg != nil {
		n := fn.Name()
		if n == "init" && fn.Synthetic != "" || strings.HasPrefix(n, "init#") {
			// package initialisers run lazily (see Exec.initPkg); nested calls are no-ops
			return func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
				if fn == x.initFn {
					return x.callBody(g, fn, args)
				}
				return nil
			}
		}
	}
	return nil
}

// callBody runs the body of a function that also has an intrinsic.
func (x *Exec) callBody(g *G, fn *ssa.Function, args []Value) Value {
	fi := x.w.info(fn)
	s := fi.intr
	fi.intr = nil
	defer func() { fi.intr = s }()
	return x.callFn(g, g.top, fn, args, nil)
}

func reg(name string, f Intrinsic) { intrinsics[name] = f }

func (x *Exec) u64(v uint64) *Term { return x.c.BV(64, v) }

func nilIface() Iface { return Iface{} }

// mkErr builds an *errors.errorString.
func (x *Exec) mkErr(msg Value) Iface {
	t := x.w.eng.pkgType("errors", "errorString")
	var v Value = Struct{msg}
	return Iface{T: types.NewPointer(t), V: &v}
}

func (x *Exec) errText(i Iface) Value {
	if i.T == nil {
		return "<nil>"
	}
	if types.Identical(i.T, x.w.eng.rtErrType) {
		return x.strConcat("runtime error: ", i.V)
	}
	m := x.w.eng.methodNamed(i.T, "Error")
	if m == nil {
		if s, ok := i.V.(string); ok {
			return s
		}
		return x.fmtValue(i, "%v")
	}
	return x.callFn(x.cur, x.cur.top, m, []Value{i.V}, nil)
}

func (x *Exec) str(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported(fmt.Sprintf("symbolic string where a concrete one is needed (%T)", v)))
	}
	return s
}

func (x *Exec) noop() Intrinsic {
	return func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		r := fn.Signature.Results()
		if r.Len() == 0 {
			return nil
		}
		return zero(x.c, r)
	}
}

var retZero Intrinsic = func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(x.c, r)
}

func ptrStruct(v Value) Struct {
	return (*(v.(Ptr))).(Struct)
}

func (x *Exec) setField(p Value, i int, v Value) {
	s := ptrStruct(p)
	x.storeSlot(&s[i], v)
}

func init() {
	// ---- harness API
	num := func(w int) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
			return x.newInput(x.str(args[0]), w)
		}
	}
	reg(vxPkg+"Int64", num(64))
	reg(vxPkg+"Uint64", num(64))
	reg(vxPkg+"Int", num(64))
	reg(vxPkg+"Int32", num(32))
	reg(vxPkg+"Uint32", num(32))
	reg(vxPkg+"Int8", num(8))
	reg(vxPkg+"Uint8", num(8))
	reg(vxPkg+"Bool", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		t := x.newInput(x.str(args[0]), 8)
		x.assume(x.c.Ult(t, x.c.BV(8, 2)))
		return x.c.Eq(t, x.c.BV(8, 1))
	})
	reg(vxPkg+"Bytes", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		n := x.cint(args[1])
		nm := x.freshName(x.str(args[0]) + "$b")
		o := make(Slice, n)
		for i := range o {
			o[i] = x.newInput(fmt.Sprintf("%s[%d]", strings.Replace(nm, "$b", "", 1), i), 8)
		}
		return o
	})
	reg(vxPkg+"Str", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		n := x.cint(args[1])
		nm := x.freshName(x.str(args[0]) + "$b")
		o := make([]*Term, n)
		for i := range o {
			o[i] = x.newInput(fmt.Sprintf("%s[%d]", strings.Replace(nm, "$b", "", 1), i), 8)
		}
		return mkStr(o)
	})
	reg(vxPkg+"Range", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		nm := x.str(args[0])
		lo, hi := x.cint(args[1]), x.cint(args[2])
		if hi < lo {
			panic(&pathAbort{"assume", ""})
		}
		v := lo + x.choose(hi-lo+1, "in:"+nm)
		x.inputs = append(x.inputs, input{name: x.freshName(nm), val: int64(v)})
		return x.u64(uint64(int64(v)))
	})
	reg(vxPkg+"Assume", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		x.assume(args[0].(*Term))
		return nil
	})
	reg(vxPkg+"Assert", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		x.assertCond(args[0].(*Term), x.str(args[1]))
		return nil
	})
	reg(vxPkg+"Reach", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		x.reachedL[x.str(args[0])] = true
		return nil
	})
	reg(vxPkg+"Obs", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		i := args[1].(Iface)
		v := i.V
		if s, ok := v.(Slice); ok {
			b := x.bytesOf(s)
			v = mkStr(b)
		}
		if t, ok := v.(*Term); ok && t.w < 64 && t.w > 0 {
			if isSigned(i.T) {
				v = x.c.Sext(t, 64)
			} else {
				v = x.c.Zext(t, 64)
			}
		}
		x.obs = append(x.obs, obsEnt{x.str(args[0]), v})
		return nil
	})
	reg(vxPkg+"Log", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		if s, ok := args[0].(string); ok && len(x.trace) < 200 {
			x.trace = append(x.trace, s)
		}
		return nil
	})
	reg(vxPkg+"Quiesce", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		x.quiesce(g)
		return nil
	})
	reg(vxPkg+"Crashable", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		return x.c.Bool(x.crashable(g, args[0]))
	})
	reg(vxPkg+"Native", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value { return x.c.False })
	reg(vxPkg+"Thorough", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value { return x.c.Bool(x.h.opt.Thorough) })
	reg(vxPkg+"TempDir", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		x.fresh++
		d := fmt.Sprintf("/vxtmp/%d", x.fresh)
		x.st.mkdirAll(d)
		return d
	})
	reg(vxPkg+"Time", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		n := x.str(args[0])
		s := x.newInput(n+".s", 64)
		ns := x.newInput(n+".n", 32)
		x.assume(x.c.Ult(ns, x.c.BV(32, 1000000000)))
		return x.mkTime(s, x.c.Zext(x.c.Extract(ns, 29, 0), 64))
	})
	reg(vxPkg+"Choose", func(x *Exec, g *G, fn *ssa.Function, args []Value) Value {
		// nondeterminism of the environment, recorded like an input
		nm := x.str(args[0])
		n := x.cint(args[1])
		v := x.choose(n, "in:"+nm)
		x.inputs = append(x.inputs, input{name: x.freshName(nm), val: int64(v)})
		return x.u64(uint64(v))
	})

	// ---- sync
	reg("(*sync.Mutex).Lock", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { x.lock(g, a[0]); return nil })
	reg("(*sync.Mutex).Unlock", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { x.unlock(g, a[0]); return nil })
	for _, n := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+n+").TryLock", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			x.yield(g, "trylock")
			m := x.mutexOf(a[0])
			if m.locked || m.readers > 0 {
				return x.c.False
			}
			x.lockNow(g, m)
			return x.c.True
		})
	}
	reg("(*sync.RWMutex).TryRLock", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.yield(g, "trylock")
		if x.mutexOf(a[0]).locked {
			return x.c.False
		}
		x.rlock(g, a[0])
		return x.c.True
	})
	reg("(*sync.RWMutex).Lock", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { x.lock(g, a[0]); return nil })
	reg("(*sync.RWMutex).Unlock", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { x.unlock(g, a[0]); return nil })
	reg("(*sync.RWMutex).RLock", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { x.rlock(g, a[0]); return nil })
	reg("(*sync.RWMutex).RUnlock", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { x.runlock(g, a[0]); return nil })
	reg("(*sync.WaitGroup).Add", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.wgAdd(g, a[0], x.cint(a[1]))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.wgAdd(g, a[0], -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.yield(g, "wait")
		w := x.wgOf(a[0])
		x.block(g, "WaitGroup.Wait", func() bool { return *w.n == 0 })
		x.acq(g, w.vc)
		return nil
	})
	reg("(*sync.Once).Do", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		if x.st.once == nil {
			x.st.once = map[Ptr]int{}
		}
		m := x.mutexOf(a[0])
		if x.initMode {
			if x.st.once[p] == 0 {
				x.st.once[p] = 2
				// initialisers run once per worker
				if x.w.once == nil {
					x.w.once = map[Ptr]bool{}
				}
				x.w.once[p] = true
				x.callValue(g, g.top, a[1], nil)
			}
			return nil
		}
		if x.w.once[p] {
			return nil
		}
		x.block(g, "once", func() bool { return !m.locked })
		if x.st.once[p] == 2 {
			x.acq(g, m.vc)
			return nil
		}
		x.lockNow(g, m)
		defer func() {
			x.st.once[p] = 2
			m.locked = false
			x.rel(g, m.vc)
		}()
		x.callValue(g, g.top, a[1], nil)
		return nil
	})
	condL := func(x *Exec, p Value) Iface {
		st := x.w.eng.pkgType("sync", "Cond").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				return ptrStruct(p)[i].(Iface)
			}
		}
		panic(unsupported("sync.Cond"))
	}
	reg("(*sync.Cond).Wait", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		l := condL(x, a[0])
		if x.st.conds == nil {
			x.st.conds = map[Ptr][]*condWait{}
		}
		p := a[0].(Ptr)
		w := &condWait{vc: map[int]int{}}
		x.st.conds[p] = append(x.st.conds[p], w)
		x.callFn(g, g.top, x.w.eng.methodNamed(l.T, "Unlock"), []Value{l.V}, nil)
		x.block(g, "cond", func() bool { return w.woken })
		x.acq(g, w.vc)
		x.callFn(g, g.top, x.w.eng.methodNamed(l.T, "Lock"), []Value{l.V}, nil)
		return nil
	})
	wake := func(all bool) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			for len(x.st.conds[p]) > 0 {
				w := x.st.conds[p][0]
				x.st.conds[p] = x.st.conds[p][1:]
				w.woken = true
				x.rel(g, w.vc)
				if !all {
					break
				}
			}
			return nil
		}
	}
	reg("(*sync.Cond).Signal", wake(false))
	reg("(*sync.Cond).Broadcast", wake(true))
	reg("context.WithValue", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		t := x.w.eng.pkgType("context", "valueCtx")
		var v Value = Struct{a[0], a[1], a[2]}
		return Iface{T: types.NewPointer(t), V: Ptr(&v)}
	})
	reg("(*sync.Pool).Get", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		s := ptrStruct(a[0])
		nw := s[len(s)-1]
		if c, ok := nw.(*Closure); ok && c == nil {
			return Iface{}
		}
		return x.callValue(g, g.top, nw, nil)
	})
	reg("(*sync.Pool).Put", retZero)
	// sync.Map as an ordinary map
	reg("(*sync.Map).Load", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		m := x.syncMap(a[0])
		if i := x.mapFind(m, a[1]); i >= 0 {
			return Tuple{copyVal(*m.vals[i]), x.c.True}
		}
		return Tuple{Iface{}, x.c.False}
	})
	reg("(*sync.Map).Store", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.mapSet(x.syncMap(a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		m := x.syncMap(a[0])
		if i := x.mapFind(m, a[1]); i >= 0 {
			return Tuple{copyVal(*m.vals[i]), x.c.True}
		}
		x.mapSet(m, a[1], a[2])
		return Tuple{a[2], x.c.False}
	})
	reg("(*sync.Map).Delete", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.mapDelete(x.syncMap(a[0]), a[1])
		return nil
	})

	reg("(*sync.Map).LoadAndDelete", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		m := x.syncMap(a[0])
		if i := x.mapFind(m, a[1]); i >= 0 {
			v := copyVal(*m.vals[i])
			x.mapDelete(m, a[1])
			return Tuple{v, x.c.True}
		}
		return Tuple{Iface{}, x.c.False}
	})
	reg("(*sync.Map).Swap", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		m := x.syncMap(a[0])
		r := Tuple{Iface{}, x.c.False}
		if i := x.mapFind(m, a[1]); i >= 0 {
			r = Tuple{copyVal(*m.vals[i]), x.c.True}
		}
		x.mapSet(m, a[1], a[2])
		return r
	})
	reg("(*sync.Map).CompareAndSwap", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		m := x.syncMap(a[0])
		if i := x.mapFind(m, a[1]); i >= 0 && x.branch(x.eqTerm(*m.vals[i], a[2])) {
			x.mapSet(m, a[1], a[3])
			return x.c.True
		}
		return x.c.False
	})
	reg("(*sync.Map).CompareAndDelete", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		m := x.syncMap(a[0])
		if i := x.mapFind(m, a[1]); i >= 0 && x.branch(x.eqTerm(*m.vals[i], a[2])) {
			x.mapDelete(m, a[1])
			return x.c.True
		}
		return x.c.False
	})
	reg("(*sync.Map).Range", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		m := x.syncMap(a[0])
		for _, k := range append([]Value{}, m.keys...) {
			if k == nil {
				continue
			}
			i := x.mapFind(m, k)
			if i < 0 {
				continue
			}
			if !x.branch(x.callValue(g, g.top, a[1], []Value{copyVal(k), copyVal(*m.vals[i])}).(*Term)) {
				break
			}
		}
		return nil
	})

	// ---- atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+t, func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			x.atomicPoint(g, a[0])
			return copyVal(*(a[0].(Ptr)))
		})
		reg("sync/atomic.Store"+t, func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			x.atomicPoint(g, a[0])
			x.storeSlot(a[0].(Ptr), a[1])
			return nil
		})
		reg("sync/atomic.Swap"+t, func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			x.atomicPoint(g, a[0])
			o := copyVal(*(a[0].(Ptr)))
			x.storeSlot(a[0].(Ptr), a[1])
			return o
		})
		reg("sync/atomic.Add"+t, func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			x.atomicPoint(g, a[0])
			p := a[0].(Ptr)
			n := x.c.Add((*p).(*Term), a[1].(*Term))
			x.storeSlot(p, n)
			return n
		})
		reg("sync/atomic.CompareAndSwap"+t, func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			x.atomicPoint(g, a[0])
			p := a[0].(Ptr)
			if x.branch(x.eqTerm(*p, a[1])) {
				x.storeSlot(p, a[2])
				return x.c.True
			}
			return x.c.False
		})
	}
	reg("(*sync/atomic.Value).Load", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.atomicPoint(g, a[0])
		return ptrStruct(a[0])[0]
	})
	reg("(*sync/atomic.Value).Store", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.atomicPoint(g, a[0])
		x.setField(a[0], 0, a[1])
		return nil
	})
	for _, n := range []string{"Load", "Store", "CompareAndSwap", "Swap"} {
		n := n
		reg("(*sync/atomic.Pointer[T])."+n, func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			x.atomicPoint(g, a[0])
			s := ptrStruct(a[0])
			p := &s[len(s)-1]
			switch n {
			case "Load":
				return *p
			case "Store":
				x.storeSlot(p, a[1])
				return nil
			case "Swap":
				o := *p
				x.storeSlot(p, a[1])
				return o
			}
			if (*p).(Ptr) == a[1].(Ptr) {
				x.storeSlot(p, a[2])
				return x.c.True
			}
			return x.c.False
		})
	}

	// ---- errors
	reg("errors.Is", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.c.Bool(x.errorsIs(g, a[0].(Iface), a[1].(Iface)))
	})
	reg("errors.As", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.c.Bool(x.errorsAs(g, a[0].(Iface), a[1].(Iface)))
	})

	// ---- math/bits
	lenOf := func(w int) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.IsConst() {
				return x.u64(uint64(bits.Len64(t.k)))
			}
			r := x.u64(0)
			for i := 1; i <= t.w; i++ {
				r = x.c.Ite(x.c.Ule(x.c.BV(t.w, uint64(1)<<uint(i-1)), t), x.u64(uint64(i)), r)
			}
			return r
		}
	}
	reg("math/bits.Len64", lenOf(64))
	reg("math/bits.Len32", lenOf(32))
	reg("math/bits.Len", lenOf(64))
	reg("math/bits.TrailingZeros64", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if !t.IsConst() {
			panic(unsupported("symbolic TrailingZeros64"))
		}
		return x.u64(uint64(bits.TrailingZeros64(t.k)))
	})
	reg("math/bits.TrailingZeros32", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if !t.IsConst() {
			panic(unsupported("symbolic TrailingZeros32"))
		}
		return x.u64(uint64(bits.TrailingZeros32(uint32(t.k))))
	})
	reg("math/bits.Mul64", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p, q := a[0].(*Term), a[1].(*Term)
		if !p.IsConst() || !q.IsConst() {
			panic(unsupported("symbolic Mul64"))
		}
		h, l := bits.Mul64(p.k, q.k)
		return Tuple{x.u64(h), x.u64(l)}
	})
	f1 := func(f func(float64) float64) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return f(a[0].(float64)) }
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Abs": math.Abs, "Trunc": math.Trunc, "Log": math.Log, "Exp": math.Exp, "Log2": math.Log2} {
		reg("math."+n, f1(f))
	}
	reg("math.Max", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return math.Max(a[0].(float64), a[1].(float64))
	})
	reg("math.Min", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return math.Min(a[0].(float64), a[1].(float64))
	})
	reg("math.Pow", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return math.Pow(a[0].(float64), a[1].(float64))
	})
	reg("math.Float64bits", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.u64(math.Float64bits(a[0].(float64))) })
	reg("math.Float32bits", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.c.BV(32, uint64(math.Float32bits(float32(a[0].(float64)))))
	})
	reg("math.Float64frombits", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if !t.IsConst() {
			panic(unsupported("symbolic float bits"))
		}
		return math.Float64frombits(t.k)
	})
	reg("math.Inf", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return math.Inf(x.cint(a[0])) })
	reg("math.NaN", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return math.NaN() })

	// ---- internal/bytealg
	idxByte := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		b := x.anyBytes(a[0])
		c := a[1].(*Term)
		for i, t := range b {
			if x.branch(x.c.Eq(t, c)) {
				return x.u64(uint64(i))
			}
		}
		return x.u64(math.MaxUint64)
	}
	reg("internal/bytealg.IndexByte", idxByte)
	reg("internal/bytealg.IndexByteString", idxByte)
	lastIdx := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		b := x.anyBytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if x.branch(x.c.Eq(b[i], a[1].(*Term))) {
				return x.u64(uint64(i))
			}
		}
		return x.u64(math.MaxUint64)
	}
	reg("internal/bytealg.LastIndexByte", lastIdx)
	reg("internal/bytealg.LastIndexByteString", lastIdx)
	count := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		b := x.anyBytes(a[0])
		n := uint64(0)
		for _, t := range b {
			if x.branch(x.c.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return x.u64(n)
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	reg("internal/bytealg.Equal", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.bytesEq(a[0], a[1])
	})
	reg("bytes.Equal", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.bytesEq(a[0], a[1])
	})
	cmp := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		lt, eq := x.strLess(x.anyBytes(a[0]), x.anyBytes(a[1]))
		return x.c.Ite(eq, x.u64(0), x.c.Ite(lt, x.u64(math.MaxUint64), x.u64(1)))
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	index := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		b, s := x.anyBytes(a[0]), x.anyBytes(a[1])
		for i := 0; i+len(s) <= len(b); i++ {
			if x.branch(x.eqBytes(b[i:i+len(s)], s)) {
				return x.u64(uint64(i))
			}
		}
		return x.u64(math.MaxUint64)
	}
	reg("internal/bytealg.Index", index)
	reg("internal/bytealg.IndexString", index)
	reg("strings.Index", index)
	reg("bytes.Index", index)
	reg("internal/bytealg.MakeNoZero", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		n := x.cint(a[0])
		return x.goBytes(make([]byte, n))
	})
	reg("strings.Clone", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("(*strings.Builder).String", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		s := ptrStruct(a[0])
		for _, f := range s {
			if b, ok := f.(Slice); ok {
				return mkStr(x.bytesOf(b))
			}
		}
		panic(unsupported("strings.Builder layout"))
	})
	reg("(*strings.Builder).copyCheck", retZero)
	reg("(*strings.Builder).grow", retZero)
	reg("(*strings.Builder).Grow", retZero)
	reg("internal/abi.NoEscape", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return a[0] })

	// ---- strconv
	reg("strconv.Itoa", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.decText(a[0].(*Term), true) })
	reg("strconv.FormatInt", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.IsConst() {
			return strconv.FormatInt(t.S(), x.cint(a[1]))
		}
		return x.decText(t, true)
	})
	reg("strconv.FormatUint", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.IsConst() {
			return strconv.FormatUint(t.k, x.cint(a[1]))
		}
		return x.decText(t, false)
	})
	quote := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return &OpqStr{parts: []Value{opqTag("\""), a[0], "\""}}
	}
	reg("strconv.Quote", quote)
	reg("time.quote", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if _, ok := a[0].(string); ok {
			return x.callBody(g, fn, a)
		}
		return quote(x, g, fn, a)
	})
	parse := func(signed bool) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			bitSize := 0
			if len(a) > 2 {
				bitSize = x.cint(a[2])
			}
			if q, ok := a[0].(*OpqStr); ok && len(q.parts) == 1 {
				// decimal text of a symbolic integer
				if d, ok := q.parts[0].(*decNum); ok && (bitSize == 0 || bitSize == 64) && d.signed == signed {
					t := d.t
					if t.w < 64 {
						if signed {
							t = x.c.Sext(t, 64)
						} else {
							t = x.c.Zext(t, 64)
						}
					}
					return Tuple{t, nilIface()}
				}
			}
			return x.callBody(g, fn, a)
		}
	}
	reg("strconv.ParseInt", parse(true))
	reg("strconv.ParseUint", parse(false))
	reg("strconv.Atoi", parse(true))

	// ---- sort
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)

	// ---- runtime, os bits
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer",
		"runtime/debug.PrintStack", "internal/godebug.(*Setting).register", "(*internal/godebug.Setting).IncNonDefault",
		"(*log.Logger).output", "log.Printf", "log.Println", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print"} {
		reg(n, retZero)
	}
	reg("runtime.NumGoroutine", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.u64(uint64(len(x.s.gs))) })
	reg("internal/godebug.New", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		var v Value = zero(x.c, fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return Ptr(&v)
	})
	reg("(*internal/godebug.Setting).Value", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return "" })
	reg("runtime.Caller", retZero)
	reg("runtime.Callers", retZero)
	reg("runtime/debug.Stack", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.goBytes([]byte("stack")) })
	fatalf := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.st.exited = true
		panic(&targetPanic{v: Iface{T: types.Typ[types.String], V: "process exit (log.Fatal/os.Exit)"}, pos: x.where()})
	}
	reg("log.Fatal", fatalf)
	reg("log.Fatalf", fatalf)
	reg("log.Fatalln", fatalf)
	reg("os.Exit", fatalf)
}

func (x *Exec) anyBytes(v Value) []*Term {
	switch v.(type) {
	case string, *SymStr, *OpqStr:
		return x.strBytes(v)
	}
	return x.bytesOf(v)
}

func (x *Exec) lockNow(g *G, m *mutex) {
	m.locked = true
	m.owner = g
	x.acq(g, m.vc)
}

func (x *Exec) atomicPoint(g *G, p Value) {
	if x.initMode || !x.concurrent() {
		return
	}
	x.yield(g, "atomic")
	ptr, ok := p.(Ptr)
	if !ok || ptr == nil {
		x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	// atomics order memory: treat as acquire and release on the location
	vc := x.st.atomVC[ptr]
	if vc == nil {
		vc = map[int]int{}
		x.st.atomVC[ptr] = vc
	}
	x.acq(g, vc)
	x.rel(g, vc)
}

type wgState struct {
	n  *int
	vc map[int]int
}

func (x *Exec) wgOf(p Value) *wgState {
	ptr := p.(Ptr)
	if ptr == nil {
		x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	w := x.st.wg[ptr]
	if w == nil {
		w = &wgState{n: new(int), vc: map[int]int{}}
		x.st.wg[ptr] = w
	}
	return w
}

func (x *Exec) wgAdd(g *G, p Value, d int) {
	if d < 0 {
		x.yield(g, "wg")
	}
	w := x.wgOf(p)
	*w.n += d
	x.rel(g, w.vc)
	if *w.n < 0 {
		panic(&targetPanic{v: Iface{T: types.Typ[types.String], V: "sync: negative WaitGroup counter"}, pos: x.where()})
	}
}

func (x *Exec) syncMap(p Value) *MapV {
	ptr := p.(Ptr)
	m := x.st.smaps[ptr]
	if x.initMode || x.w.native["smap"] != nil {
		// maps filled by initialisers live as long as the worker
		all, _ := x.w.native["smap"].(map[Ptr]*MapV)
		if all == nil {
			all = map[Ptr]*MapV{}
			x.w.native["smap"] = all
		}
		if g := all[ptr]; g != nil {
			return g
		}
		if x.initMode {
			all[ptr] = newMap()
			return all[ptr]
		}
	}
	if m == nil {
		m = newMap()
		x.st.smaps[ptr] = m
	}
	return m
}

type condWait struct {
	woken bool
	vc    map[int]int
}

// decNum is the decimal text of a symbolic integer inside an OpqStr.
type decNum struct {
	t      *Term
	signed bool
}

func (x *Exec) decText(t *Term, signed bool) Value {
	if t.IsConst() {
		if signed {
			return strconv.FormatInt(t.S(), 10)
		}
		return strconv.FormatUint(t.k, 10)
	}
	return &OpqStr{parts: []Value{&decNum{t, signed}}}
}

func (x *Exec) errorsIs(g *G, err, target Iface) bool {
	if err.T == nil || target.T == nil {
		return err.T == nil && target.T == nil
	}
	cmpable := types.Comparable(target.T)
	for {
		if cmpable && types.Identical(err.T, target.T) && x.branch(x.eqTerm(err, target)) {
			return true
		}
		if m := x.w.eng.methodNamed(err.T, "Is"); m != nil && m.Signature.Params().Len() >= 1 {
			if r, ok := x.callFn(g, g.top, m, []Value{err.V, target}, nil).(*Term); ok && x.branch(r) {
				return true
			}
		}
		m := x.w.eng.methodNamed(err.T, "Unwrap")
		if m == nil {
			return false
		}
		r := x.callFn(g, g.top, m, []Value{err.V}, nil)
		if l, ok := r.(Slice); ok {
			for _, e := range l {
				if x.errorsIs(g, e.(Iface), target) {
					return true
				}
			}
			return false
		}
		err = r.(Iface)
		if err.T == nil {
			return false
		}
	}
}

func (x *Exec) errorsAs(g *G, err, target Iface) bool {
	if err.T == nil {
		return false
	}
	if target.T == nil {
		panic(&targetPanic{v: Iface{T: types.Typ[types.String], V: "errors: target cannot be nil"}, pos: x.where()})
	}
	pt, ok := target.T.Underlying().(*types.Pointer)
	if !ok {
		panic(&targetPanic{v: Iface{T: types.Typ[types.String], V: "errors: target must be a non-nil pointer"}, pos: x.where()})
	}
	want := pt.Elem()
	for {
		good := false
		if it, ok := want.Underlying().(*types.Interface); ok {
			if x.w.eng.implements(err.T, it) {
				x.store(target.V, err)
				return true
			}
		} else if types.Identical(err.T, want) {
			good = true
		}
		if good {
			x.store(target.V, err.V)
			return true
		}
		if m := x.w.eng.methodNamed(err.T, "As"); m != nil {
			if r, ok := x.callFn(g, g.top, m, []Value{err.V, target}, nil).(*Term); ok && x.branch(r) {
				return true
			}
		}
		m := x.w.eng.methodNamed(err.T, "Unwrap")
		if m == nil {
			return false
		}
		r := x.callFn(g, g.top, m, []Value{err.V}, nil)
		if l, ok := r.(Slice); ok {
			for _, e := range l {
				if x.errorsAs(g, e.(Iface), target) {
					return true
				}
			}
			return false
		}
		err = r.(Iface)
		if err.T == nil {
			return false
		}
	}
}

func sortSlice(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
	s, ok := a[0].(Iface).V.(Slice)
	if !ok {
		panic(unsupported("sort.Slice argument"))
	}
	// insertion sort through the user's less function
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			lt := x.callValue(g, g.top, a[1], []Value{x.u64(uint64(j)), x.u64(uint64(j - 1))}).(*Term)
			if !x.branch(lt) {
				break
			}
			p, q := copyVal(s[j]), copyVal(s[j-1])
			x.storeSlot(&s[j], q)
			x.storeSlot(&s[j-1], p)
		}
	}
	return nil
}

// ---- time

const unixToInternal = 62135596800

func (x *Exec) mkTime(sec, nsec *Term) Value {
	// wall: nanoseconds only (no monotonic reading); ext: seconds since year 1; loc nil = UTC
	return Struct{nsec, x.c.Add(sec, x.u64(unixToInternal)), Ptr(nil)}
}

func init() {
	reg("time.Now", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		n := int64(1650000000)*1e9 + x.s.clock
		return x.mkTime(x.u64(uint64(n/1e9)), x.u64(uint64(n%1e9)))
	})
	reg("time.runtimeNano", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.u64(uint64(x.s.clock + 1)) })
	reg("time.now", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		n := int64(1650000000)*1e9 + x.s.clock
		return Tuple{x.u64(uint64(n / 1e9)), x.c.BV(32, uint64(n%1e9)), x.u64(uint64(x.s.clock + 1))}
	})
	reg("time.Unix", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		sec, nsec := a[0].(*Term), a[1].(*Term)
		if sec.IsConst() && nsec.IsConst() {
			s, n := sec.S(), nsec.S()
			if n < 0 || n >= 1e9 {
				d := n / 1e9
				s += d
				n -= d * 1e9
				if n < 0 {
					n += 1e9
					s--
				}
			}
			return x.unixTime(x.u64(uint64(s)), x.u64(uint64(n)))
		}
		if sec.IsConst() && sec.k == 0 {
			// split x into seconds and nanoseconds without division: s*1e9+n == x, 0<=n<1e9
			key := fmt.Sprintf("unix%d", nsec.id)
			type pr struct{ s, n *Term }
			if p, ok := x.st.split[key]; ok {
				return x.unixTime(p[0], p[1])
			}
			if s, n, ok := x.c.splitUnix(nsec); ok {
				return x.unixTime(s, n)
			}
			s := x.newVar("unix.s", 64)
			nv := x.newVar("unix.n", 30)
			n := x.c.Zext(nv, 64)
			lim := x.u64(9223372037)
			x.assume(x.c.Ult(nv, x.c.BV(30, 1000000000)))
			x.assume(x.c.Sle(s, lim))
			x.assume(x.c.Sle(x.c.Neg(lim), s))
			raw := x.c.linRaw(s, n)
			x.assume(x.c.Eq(raw, nsec))
			// no wrap-around in s*1e9+n: same sign rule at the extremes
			x.assume(x.c.Or(x.c.And(x.c.Slt(s, x.u64(0)), x.c.Slt(nsec, x.u64(0))), x.c.And(x.c.Not(x.c.Slt(s, x.u64(0))), x.c.Not(x.c.Slt(nsec, x.u64(0))))))
			x.c.linSub[[2]*Term{s, n}] = nsec
			x.st.split[key] = [2]*Term{s, n}
			return x.unixTime(s, n)
		}
		return x.callBody(g, fn, a)
	})
	reg("time.Sleep", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		d := int64(x.cint(a[0]))
		fired := false
		x.addTimer(d, func() { fired = true })
		x.block(g, "sleep", func() bool { return fired })
		return nil
	})
	after := func(x *Exec, d int64) *Chan {
		x.chanID++
		ch := &Chan{cap: 1, zero: zero(x.c, x.w.eng.pkgType("time", "Time")), id: x.chanID}
		x.addTimer(d, func() {
			n := int64(1650000000)*1e9 + x.s.clock
			ch.buf = append(ch.buf, x.mkTime(x.u64(uint64(n/1e9)), x.u64(uint64(n%1e9))))
		})
		return ch
	}
	reg("time.After", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return after(x, int64(x.cint(a[0])))
	})
	reg("time.NewTimer", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		t := x.w.eng.pkgType("time", "Timer")
		var v Value = zero(x.c, t)
		x.chanID++
		ch := &Chan{cap: 1, zero: zero(x.c, x.w.eng.pkgType("time", "Time")), id: x.chanID}
		tm := x.addTimer(int64(x.cint(a[0])), func() {
			n := int64(1650000000)*1e9 + x.s.clock
			ch.buf = append(ch.buf, x.mkTime(x.u64(uint64(n/1e9)), x.u64(uint64(n%1e9))))
		})
		v.(Struct)[0] = ch
		x.st.timers[Ptr(&v)] = tm
		return Ptr(&v)
	})
	reg("time.AfterFunc", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		t := x.w.eng.pkgType("time", "Timer")
		var v Value = zero(x.c, t)
		f := a[1]
		tm := x.addTimer(int64(x.cint(a[0])), func() { x.spawn(x.cur, f, nil, "AfterFunc") })
		x.st.timers[Ptr(&v)] = tm
		return Ptr(&v)
	})
	reg("time.NewTicker", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		d := int64(x.cint(a[0]))
		if d <= 0 {
			panic(unsupported("ticker without a period"))
		}
		t := x.w.eng.pkgType("time", "Ticker")
		var v Value = zero(x.c, t)
		x.chanID++
		ch := &Chan{cap: 1, zero: zero(x.c, x.w.eng.pkgType("time", "Time")), id: x.chanID}
		v.(Struct)[0] = ch
		p, n := Ptr(&v), 0
		var tick func()
		tick = func() {
			if len(ch.buf) == 0 {
				at := int64(1650000000)*1e9 + x.s.clock
				ch.buf = append(ch.buf, x.mkTime(x.u64(uint64(at/1e9)), x.u64(uint64(at%1e9))))
			}
			// a bounded number of ticks
			if n++; n < 300 {
				x.st.timers[p] = x.addTimer(d, tick)
			}
		}
		x.st.timers[p] = x.addTimer(d, tick)
		return p
	})
	reg("(*time.Ticker).Stop", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if tm := x.st.timers[a[0].(Ptr)]; tm != nil {
			tm.fired = true
		}
		return nil
	})
	reg("(*time.Timer).Reset", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		tm := x.st.timers[p]
		if tm == nil {
			panic(unsupported("Reset of a timer that was not started"))
		}
		active := !tm.fired
		tm.fired = true
		x.st.timers[p] = x.addTimer(int64(x.cint(a[1])), tm.fire)
		return x.c.Bool(active)
	})
	reg("(*time.Timer).Stop", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if tm := x.st.timers[a[0].(Ptr)]; tm != nil && !tm.fired {
			tm.fired = true
			return x.c.True
		}
		return x.c.False
	})
	reg("time.LoadLocation", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return Tuple{Ptr(nil), x.mkErr("no zone database")}
	})
}

func (x *Exec) unixTime(s, n *Term) Value {
	t := x.mkTime(s, n).(Struct)
	// time.Unix returns local time; the sandbox runs in UTC, the location pointer is kept distinct from nil
	t[2] = x.localLoc()
	return t
}

func (x *Exec) localLoc() Value {
	p := x.w.eng.prog.ImportedPackage("time")
	if g, ok := p.Members["localLoc"].(*ssa.Global); ok {
		return x.global(g)
	}
	return Ptr(nil)
}

// ---- fmt

func init() {
	reg("fmt.Sprintf", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.sprintf(x.str(a[0]), a[1].(Slice))
	})
	fp := func(text func(x *Exec, a []Value) Value) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			w := a[0].(Iface)
			if w.T == nil {
				x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			if p, ok := w.V.(Ptr); ok && strings.HasSuffix(w.T.String(), "os.File") && x.st.files[p] == nil {
				return Tuple{x.u64(0), nilIface()} // the terminal
			}
			m := x.w.eng.methodNamed(w.T, "Write")
			return x.callFn(g, g.top, m, []Value{w.V, mkBytes(x.strBytes(text(x, a[1:])))}, nil)
		}
	}
	reg("fmt.Fprintf", fp(func(x *Exec, a []Value) Value { return x.sprintf(x.str(a[0]), a[1].(Slice)) }))
	for _, n := range []string{"", "ln"} {
		n := n
		reg("fmt.Fprint"+n, fp(func(x *Exec, a []Value) Value {
			return intrinsics["fmt.Sprint"+n](x, x.cur, nil, []Value{a[0]})
		}))
	}
	reg("fmt.Errorf", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		f := x.str(a[0])
		args := a[1].(Slice)
		txt := x.sprintf(strings.ReplaceAll(f, "%w", "%v"), args)
		if i := strings.Index(f, "%w"); i >= 0 {
			// index of the wrapped operand
			n := 0
			for j := 0; j < i; j++ {
				if f[j] == '%' {
					if f[j+1] == '%' {
						j++
					} else {
						n++
					}
				}
			}
			if n < len(args) {
				t := x.w.eng.pkgType("fmt", "wrapError")
				var v Value = Struct{txt, args[n]}
				return Iface{T: types.NewPointer(t), V: &v}
			}
		}
		return x.mkErr(txt)
	})
	reg("fmt.Sprint", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		var out Value = ""
		prevStr := true
		for i, e := range a[0].(Slice) {
			_, isS := e.(Iface).V.(string)
			if i > 0 && !isS && !prevStr {
				out = x.strConcat(out, " ")
			}
			prevStr = isS
			out = x.strConcat(out, x.fmtValue(e.(Iface), "%v"))
		}
		return out
	})
	reg("fmt.Sprintln", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		var out Value = ""
		for i, e := range a[0].(Slice) {
			if i > 0 {
				out = x.strConcat(out, " ")
			}
			out = x.strConcat(out, x.fmtValue(e.(Iface), "%v"))
		}
		return x.strConcat(out, "\n")
	})
}

func (x *Exec) sprintf(f string, args Slice) Value {
	var out Value = ""
	n := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = x.strConcat(out, f[i:i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			out = x.strConcat(out, "%!(NOVERB)")
			break
		}
		verb := f[i : j+1]
		i = j + 1
		if f[j] == '%' {
			out = x.strConcat(out, "%")
			continue
		}
		if n >= len(args) {
			out = x.strConcat(out, "%!"+string(f[j])+"(MISSING)")
			continue
		}
		out = x.strConcat(out, x.fmtValue(args[n].(Iface), verb))
		n++
	}
	if n < len(args) {
		out = x.strConcat(out, "%!(EXTRA)")
	}
	return out
}

func (x *Exec) fmtValue(v Iface, verb string) (res Value) {
	c := verb[len(verb)-1]
	if v.T == nil {
		if c == 'T' {
			return "<nil>"
		}
		if c == 'v' || c == 's' {
			return map[bool]string{true: "<nil>", false: "%!s(<nil>)"}[c == 'v']
		}
		return fmt.Sprintf(verb, nil)
	}
	if c == 'T' {
		return v.T.String()
	}
	if (c == 'v' || c == 's' || c == 'q') && !strings.Contains(verb, "#") {
		m := x.w.eng.methodNamed(v.T, "Error")
		if m == nil {
			m = x.w.eng.methodNamed(v.T, "String")
		}
		if types.Identical(v.T, x.w.eng.rtErrType) {
			return x.errText(v)
		}
		if m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
			if b, ok := m.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				if p, ok := v.V.(Ptr); ok && p == nil {
					return "<nil>"
				}
				s := x.tryText(m, v)
				if s == nil {
					return &OpqStr{parts: []Value{opqTag(verb), v.T.String()}}
				}
				if cs, ok := s.(string); ok {
					return fmt.Sprintf(verb, cs)
				}
				return s
			}
		}
	}
	if n, ok := x.toNative(v.T, v.V); ok {
		return fmt.Sprintf(verb, n)
	}
	switch t := v.V.(type) {
	case *Term:
		if c == 'v' || c == 'd' {
			if t.w > 0 {
				return x.decText(t, isSigned(v.T))
			}
			// symbolic boolean
			if x.initMode {
				break
			}
			if x.branch(t) {
				return "true"
			}
			return "false"
		}
		return &OpqStr{parts: []Value{opqTag(verb), t}}
	case *SymStr, *OpqStr:
		if c == 'v' || c == 's' {
			return t
		}
	case Slice:
		o := &OpqStr{parts: []Value{opqTag(verb)}}
		for _, e := range t {
			o.parts = append(o.parts, e)
		}
		return o
	}
	return &OpqStr{parts: []Value{opqTag(verb), v.T.String()}}
}

// tryText calls a String/Error method; a method outside reach yields opaque text.
func (x *Exec) tryText(m *ssa.Function, v Iface) (s Value) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*unsupportedErr); ok {
				s = nil
				return
			}
			panic(r)
		}
	}()
	st, sd := x.cur.top, x.cur.depth
	defer func() { x.cur.top, x.cur.depth = st, sd }()
	return x.callFn(x.cur, x.cur.top, m, []Value{v.V}, nil)
}

// toNative converts fully concrete simple values to Go values for formatting.
func (x *Exec) toNative(t types.Type, v Value) (interface{}, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch w := v.(type) {
		case *Term:
			if !w.IsConst() {
				return nil, false
			}
			switch u.Kind() {
			case types.Bool:
				return w.k != 0, true
			case types.Int8:
				return int8(w.S()), true
			case types.Int16:
				return int16(w.S()), true
			case types.Int32:
				return int32(w.S()), true
			case types.Int, types.Int64:
				return w.S(), true
			case types.Uint8:
				return uint8(w.k), true
			case types.Uint16:
				return uint16(w.k), true
			case types.Uint32:
				return uint32(w.k), true
			}
			return w.k, true
		case string:
			return w, true
		case float64:
			return w, true
		}
	case *types.Slice:
		s, ok := v.(Slice)
		if !ok {
			return nil, false
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return concBytes(s)
		}
		var o []interface{}
		for _, e := range s {
			n, ok := x.nativeElem(u.Elem(), e)
			if !ok {
				return nil, false
			}
			o = append(o, n)
		}
		return o, true
	case *types.Array:
		s, ok := v.(Array)
		if !ok {
			return nil, false
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return concBytes(s)
		}
	case *types.Interface:
		i, ok := v.(Iface)
		if !ok {
			return nil, false
		}
		if i.T == nil {
			return nil, true
		}
		return x.toNative(i.T, i.V)
	}
	return nil, false
}

func (x *Exec) nativeElem(t types.Type, v Value) (interface{}, bool) {
	if s, ok := v.(Struct); ok {
		st := t.Underlying().(*types.Struct)
		var p []string
		for i, f := range s {
			n, ok := x.nativeElem(st.Field(i).Type(), f)
			if !ok {
				return nil, false
			}
			p = append(p, fmt.Sprint(n))
		}
		return "{" + strings.Join(p, " ") + "}", true
	}
	return x.toNative(t, v)
}

var _ = sort.Strings
