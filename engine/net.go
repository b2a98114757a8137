package main

import (
	"encoding/json"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type grpcServer struct{ srv Iface }

type raftState struct {
	stores []Value // *RaftStore of every replica
	leader bool
	state  *Term // candidate or shut down
	addr   Value // string
	fail   Iface
	failAt int // 0: fail before applying, 1: fail after applying

	node    bool // made by raft.NewRaft
	members []raftMember
}

// raftMember is a member of the raft cluster; both are strings.
type raftMember struct{ id, addr Value }

// member is the address of a member, or "".
func (x *Exec) raftMember(r *raftState, id Value) Value {
	for _, m := range r.members {
		if x.branch(x.eqStr(m.id, id)) {
			return m.addr
		}
	}
	return ""
}

// leads says whether a raft node is leader.
func (x *Exec) raftLeads(r *raftState) bool {
	l, ok := x.st.misc["lead"]
	return ok && x.branch(x.eqStr(r.addr, l))
}

type ctxState struct{}

type svcConfig string

// pickMember is the member a connection to several addresses sends its request to: with the health check of the
// service "Leader" the one that says of itself that it leads, otherwise the first one there is.
func (x *Exec) pickMember(target string) string {
	var c struct {
		HealthCheckConfig   struct{ ServiceName string }
		LoadBalancingConfig []map[string]interface{}
	}
	s, _ := x.st.misc["svc "+target].(string)
	if s != "" {
		if json.Unmarshal([]byte(s), &c) != nil {
			panic(unsupported("gRPC service config " + s))
		}
	}
	rr := len(c.LoadBalancingConfig) == 1 && c.LoadBalancingConfig[0]["round_robin"] != nil
	for _, a := range strings.Split(strings.TrimPrefix(target, "multi:///"), ",") {
		if x.st.grpcSrv[a] == nil {
			continue
		}
		if rr && c.HealthCheckConfig.ServiceName != "" && (c.HealthCheckConfig.ServiceName != "Leader" || x.st.misc["lead"] != a) {
			continue
		}
		return a
	}
	return ""
}

const sgPkg = "github.com/strangelove-ventures/horcrux/signer."

// deepCopy clones a protobuf message the way a marshal/unmarshal round trip does
// (empty byte strings become nil, shared buffers are separated).
func (x *Exec) deepCopy(t types.Type, v Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(Ptr)
		if p == nil {
			return Ptr(nil)
		}
		var n Value = x.deepCopy(u.Elem(), *p)
		return Ptr(&n)
	case *types.Struct:
		s := v.(Struct)
		o := make(Struct, len(s))
		for i := range s {
			o[i] = x.deepCopy(u.Field(i).Type(), s[i])
		}
		return o
	case *types.Slice:
		s := v.(Slice)
		if len(s) == 0 {
			return Slice(nil)
		}
		o := make(Slice, len(s))
		for i := range s {
			o[i] = x.deepCopy(u.Elem(), s[i])
		}
		return o
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			return i
		}
		return Iface{T: i.T, V: x.deepCopy(i.T, i.V)}
	case *types.Map:
		return v
	}
	return copyVal(v)
}

func fieldIdx(s *types.Struct, n string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return i
		}
	}
	panic(unsupported("field " + n))
}

func init() {
	const grpcP = "google.golang.org/grpc"
	const retryP = "github.com/grpc-ecosystem/go-grpc-middleware/retry"
	dial := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		addr := a[0]
		if fn.Name() == "DialContext" {
			addr = a[1]
		}
		var v Value = zero(x.c, x.w.eng.pkgType(grpcP, "ClientConn"))
		p := Ptr(&v)
		x.st.conns[p] = x.str(addr)
		for _, o := range a[len(a)-1].(Slice) {
			if s, ok := o.(Iface).V.(svcConfig); ok && s != "" {
				x.st.misc["svc "+x.str(addr)] = string(s)
			}
		}
		return Tuple{p, nilIface()}
	}
	reg(grpcP+".WithDefaultServiceConfig", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return Iface{V: svcConfig(x.str(a[0]))}
	})
	for _, f := range []string{grpcP + ".WithDefaultCallOptions", grpcP + ".WithUnaryInterceptor", grpcP + ".WaitForReady", retryP + ".WithBackoff",
		retryP + ".BackoffExponential", retryP + ".BackoffLinear", retryP + ".WithMax", retryP + ".WithPerRetryTimeout", retryP + ".UnaryClientInterceptor"} {
		reg(f, retZero)
	}
	reg(grpcP+".Dial", dial)
	reg(grpcP+".DialContext", dial)
	reg(grpcP+".NewClient", dial)
	reg(grpcP+".WithTransportCredentials", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return Iface{} })
	reg("google.golang.org/grpc/credentials/insecure.NewCredentials", retZero)
	reg("(*"+grpcP+".ClientConn).Close", retZero)
	reg("(*"+grpcP+".ClientConn).Invoke", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		// Invoke(cc, ctx, method, args, reply, opts...)
		addr := x.st.conns[a[0].(Ptr)]
		m := x.str(a[2])
		name := m[strings.LastIndex(m, "/")+1:]
		x.yield(g, "rpc")
		if strings.HasPrefix(addr, "multi:///") {
			addr = x.pickMember(addr)
		}
		srv := x.st.grpcSrv[addr]
		if i := strings.LastIndex(addr, ":"); srv == nil && i >= 0 {
			srv = x.st.grpcSrv[addr[i:]]
		}
		if srv == nil {
			return x.mkErr("rpc error: code = Unavailable desc = connection error")
		}
		in, out := a[3].(Iface), a[4].(Iface)
		f := x.w.eng.methodNamed(srv.srv.T, name)
		if f == nil {
			return x.mkErr("rpc error: code = Unimplemented desc = unknown method " + name)
		}
		req := x.deepCopy(in.T, in.V)
		r := x.callFn(g, g.top, f, []Value{srv.srv.V, a[1], req}, nil).(Tuple)
		if e := r[1].(Iface); e.T != nil {
			return x.mkErr(x.strConcat("rpc error: code = Unknown desc = ", x.errText(e)))
		}
		if p := r[0].(Ptr); p != nil {
			x.store(out.V, x.deepCopy(out.T.Underlying().(*types.Pointer).Elem(), *p))
		}
		return nilIface()
	})
	reg(sgPkg+"vxServe", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.fresh++
		addr := "127.0.0.1:" + x.str(x.decText(x.u64(uint64(20000+x.fresh)), false))
		x.st.grpcSrv[addr] = &grpcServer{a[0].(Iface)}
		return addr
	})

	// ---- raft: replication is trusted; what a leader applies reaches every replica's state machine in order
	const raftP = "github.com/hashicorp/raft"
	mk := func(x *Exec, st *raftState) Value {
		var v Value = Struct{}
		p := Ptr(&v)
		x.st.rafts[p] = st
		return p
	}
	// vxRaft(leader bool, leaderAddr string, fail error, stores ...*RaftStore) *raft.Raft
	reg(sgPkg+"vxRaft", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return mk(x, &raftState{leader: x.branch(a[0].(*Term)), addr: x.str(a[1]), fail: a[2].(Iface), stores: a[3].(Slice)})
	})
	reg(sgPkg+"vxRaftIn", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return mk(x, &raftState{state: a[0].(*Term)})
	})
	rs := func(x *Exec, v Value) *raftState {
		p := v.(Ptr)
		if p == nil {
			x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		r := x.st.rafts[p]
		if r == nil {
			panic(unsupported("raft instance not made by the harness"))
		}
		return r
	}
	reg("(*"+raftP+".Raft).State", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if st := rs(x, a[0]); st.state != nil {
			return st.state
		} else if st.node {
			if x.raftLeads(st) {
				return x.c.BV(32, 2)
			}
			return x.c.BV(32, 0)
		} else if st.leader {
			return x.c.BV(32, 2)
		}
		return x.c.BV(32, 0)
	})
	reg("(*"+raftP+".Raft).Leader", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if r := rs(x, a[0]); !r.node && r.addr != nil {
			return r.addr
		} else if !r.node {
			return ""
		}
		if l, ok := x.st.misc["lead"]; ok {
			return l
		}
		return ""
	})
	fut := func(x *Exec, e Iface) Value {
		t := x.w.eng.pkgType(raftP, "errorFuture")
		return Iface{T: t, V: Struct{e}}
	}
	reg("(*"+raftP+".Raft).Apply", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		r := rs(x, a[0])
		if r.node {
			if !x.raftLeads(r) {
				return fut(x, x.pkgVar(raftP, "ErrNotLeader").(Iface))
			}
			for _, n := range x.st.nodes {
				for _, s := range n.stores {
					raftApply(x, g, s, a[1])
				}
			}
			return fut(x, nilIface())
		}
		if !r.leader {
			return fut(x, x.pkgVar(raftP, "ErrNotLeader").(Iface))
		}
		if r.fail.T != nil {
			return fut(x, r.fail)
		}
		for _, s := range r.stores {
			raftApply(x, g, s, a[1])
		}
		return fut(x, nilIface())
	})
	// a transfer sends the named member's address an order to take over; without a name raft picks a member
	transfer := func(x *Exec, r *raftState, id, addr Value) Value {
		if m := x.raftMember(r, id); x.branch(x.eqStr(m, "")) || x.branch(x.eqStr(m, r.addr)) {
			return fut(x, x.mkErr("cannot transfer leadership"))
		}
		for _, n := range x.st.nodes {
			if x.branch(x.eqStr(n.addr, addr)) {
				x.st.misc["lead"] = n.addr
				return fut(x, nilIface())
			}
		}
		return fut(x, x.mkErr("failed to make TimeoutNow RPC"))
	}
	reg("(*"+raftP+".Raft).LeadershipTransfer", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		r := rs(x, a[0])
		if !r.node || !x.raftLeads(r) {
			return fut(x, x.pkgVar(raftP, "ErrNotLeader").(Iface))
		}
		var c []raftMember
		for _, m := range r.members {
			if !x.branch(x.eqStr(m.addr, r.addr)) {
				c = append(c, m)
			}
		}
		if len(c) == 0 {
			return fut(x, x.mkErr("cannot find peer"))
		}
		m := c[x.choose(len(c), "raft candidate")]
		return transfer(x, r, m.id, m.addr)
	})
	reg("(*"+raftP+".Raft).LeadershipTransferToServer", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		r := rs(x, a[0])
		if !r.node || !x.raftLeads(r) {
			return fut(x, x.pkgVar(raftP, "ErrNotLeader").(Iface))
		}
		return transfer(x, r, a[1], a[2])
	})
	// vxGroup(lead int, addrs []string, stores []*RaftStore)
	reg(sgPkg+"vxGroup", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		rt := x.w.eng.pkgType(strings.TrimSuffix(sgPkg, "."), "RaftStore").Underlying().(*types.Struct)
		fi, ni := fieldIdx(rt, "raft"), fieldIdx(rt, "NodeID")
		var members []raftMember
		for i, s := range a[2].(Slice) {
			st := (*s.(Ptr)).(Struct)
			members = append(members, raftMember{st[ni], a[1].(Slice)[i]})
		}
		for i, s := range a[2].(Slice) {
			r := &raftState{node: true, addr: members[i].addr, members: members}
			x.st.nodes = append(x.st.nodes, r)
			(*s.(Ptr)).(Struct)[fi] = mk(x, r)
		}
		x.st.misc["lead"] = a[1].(Slice)[x.cint(a[0])]
		return nil
	})
	// vxMembers(r *raft.Raft) (ids, addrs []string)
	reg(sgPkg+"vxMembers", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		i, o := Slice{}, Slice{}
		for _, m := range rs(x, a[0]).members {
			i, o = append(i, m.id), append(o, m.addr)
		}
		return Tuple{i, o}
	})
	reg(sgPkg+"vxElectServe", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.fresh++
		addr := "127.0.0.1:" + x.str(x.decText(x.u64(uint64(20000+x.fresh)), false))
		x.st.grpcSrv[addr] = &grpcServer{a[0].(Iface)}
		if x.branch(a[1].(*Term)) {
			x.st.misc["lead"] = addr
		}
		return addr
	})
}

// The connection of a chain node: net.Dialer.Dial asks the harness for it; the secret connection on top of it
// is taken to deliver what is written unchanged.
func init() {
	const connP = "github.com/tendermint/tendermint/p2p/conn"
	reg("(*net.Dialer).Dial", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		f := x.w.eng.prog.ImportedPackage(strings.TrimSuffix(sgPkg, ".")).Func("vxDial")
		if f == nil {
			panic(unsupported("net.Dialer.Dial"))
		}
		return x.callFn(g, g.top, f, []Value{a[1], a[2]}, nil)
	})
	connIdx := func(x *Exec) (types.Type, int) {
		t := x.w.eng.pkgType(connP, "SecretConnection")
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "conn" {
				return t, i
			}
		}
		panic(unsupported("SecretConnection"))
	}
	reg(connP+".MakeSecretConnection", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		t, i := connIdx(x)
		if f := x.w.eng.prog.ImportedPackage(strings.TrimSuffix(sgPkg, ".")).Func("vxShake"); f != nil {
			if e := x.callFn(g, g.top, f, []Value{a[0]}, nil).(Iface); e.T != nil {
				return Tuple{Ptr(nil), e}
			}
		}
		var v Value = zero(x.c, t)
		v.(Struct)[i] = a[0]
		return Tuple{Ptr(&v), nilIface()}
	})
	for _, n := range []string{"Read", "Write", "Close", "SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
		n := n
		reg("(*"+connP+".SecretConnection)."+n, func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			_, i := connIdx(x)
			in := (*a[0].(Ptr)).(Struct)[i].(Iface)
			f := x.w.eng.methodNamed(in.T, n)
			if f == nil {
				panic(unsupported("connection without " + n))
			}
			return x.callFn(g, g.top, f, append([]Value{in.V}, a[1:]...), nil)
		})
	}
}
