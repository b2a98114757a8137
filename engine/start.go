package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A started cosigner: the gRPC server, the raft node and its stores. A raft node made by raft.NewRaft is leader
// iff the harness named its address (vxLead); what the leader applies reaches every such node, and entries the
// harness put into the log (vxRaftLog) are applied as soon as the node exists.

func init() {
	const grpcP, raftP = "google.golang.org/grpc", "github.com/hashicorp/raft"
	newPtr := func(t types.Type, x *Exec) Ptr {
		var v Value = zero(x.c, t)
		return Ptr(&v)
	}
	reg("net.Listen", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		addr := x.str(a[1])
		port := addr[strings.LastIndex(addr, ":"):]
		if _, ok := x.st.misc["listen"+port]; ok {
			return Tuple{nilIface(), x.mkErr("listen tcp " + addr + ": bind: address already in use")}
		}
		x.st.misc["listen"+port] = true
		t := x.w.eng.pkgType("net", "TCPListener")
		p := newPtr(t, x)
		x.st.lsn[p] = port
		return Tuple{Iface{T: types.NewPointer(t), V: p}, nilIface()}
	})
	reg("(*net.TCPListener).Close", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		delete(x.st.misc, "listen"+x.st.lsn[a[0].(Ptr)])
		return nilIface()
	})
	reg(grpcP+".NewServer", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return newPtr(x.w.eng.pkgType(grpcP, "Server"), x)
	})
	reg("(*"+grpcP+".Server).RegisterService", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.st.svc[a[0].(Ptr)] = a[2].(Iface)
		return nil
	})
	reg("(*"+grpcP+".Server).Serve", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		port := x.st.lsn[a[1].(Iface).V.(Ptr)]
		if srv, ok := x.st.svc[a[0].(Ptr)]; ok {
			x.st.grpcSrv[port] = &grpcServer{srv}
		}
		x.block(g, "serving", func() bool { return false })
		return nilIface()
	})
	reg("(*"+grpcP+".Server).Stop", retZero)
	reg("(*"+grpcP+".Server).GracefulStop", retZero)
	reg("github.com/Jille/raft-grpc-leader-rpc/leaderhealth.Setup", retZero)
	reg("github.com/Jille/raftadmin.Register", retZero)
	reg("google.golang.org/grpc/reflection.Register", retZero)
	const trP = "github.com/Jille/raft-grpc-transport"
	reg(trP+".New", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := newPtr(x.w.eng.pkgType(trP, "Manager"), x)
		x.st.addrs[p] = a[0]
		return p
	})
	reg("(*"+trP+".Manager).Register", retZero)
	reg("("+trP+".Manager).Register", retZero)
	reg("(*"+trP+".Manager).Transport", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		// only its address matters
		return Iface{T: types.NewPointer(x.w.eng.pkgType(trP, "Manager")), V: a[0]}
	})
	reg("github.com/hashicorp/raft-boltdb.NewBoltStore", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		f := x.str(a[0])
		if i := strings.LastIndex(f, "/"); i > 0 {
			if n, e := x.lookupNode(f[:i]); e != 0 || !n.dir {
				return Tuple{Ptr(nil), x.mkErr("open " + f + ": no such file or directory")}
			}
		}
		return Tuple{newPtr(x.w.eng.pkgType("github.com/hashicorp/raft-boltdb", "BoltStore"), x), nilIface()}
	})
	reg(raftP+".NewFileSnapshotStore", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return Tuple{newPtr(x.w.eng.pkgType(raftP, "FileSnapshotStore"), x), nilIface()}
	})
	reg(raftP+".DefaultConfig", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return newPtr(x.w.eng.pkgType(raftP, "Config"), x)
	})
	reg(raftP+".NewRaft", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		f := a[1].(Iface)
		var v Value = Struct{}
		p := Ptr(&v)
		r := &raftState{node: true, addr: x.st.addrs[a[5].(Iface).V.(Ptr)], stores: []Value{f.V}}
		x.st.rafts[p] = r
		x.st.nodes = append(x.st.nodes, r)
		if d, ok := x.st.misc["raftlog"].([]Value); ok {
			x.spawn(g, &Closure{name: "raft log", Native: func(x *Exec, g *G, args []Value) Value {
				for _, e := range d {
					raftApply(x, g, f.V, e)
				}
				return nil
			}}, nil, "raft log")
		}
		return Tuple{p, nilIface()}
	})
	reg("(*"+raftP+".Raft).BootstrapCluster", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		st := x.w.eng.pkgType(raftP, "Configuration").Underlying().(*types.Struct)
		sv := x.w.eng.pkgType(raftP, "Server").Underlying().(*types.Struct)
		r := x.st.rafts[a[0].(Ptr)]
		var members []raftMember
		for _, s := range a[1].(Struct)[fieldIdx(st, "Servers")].(Slice) {
			n := raftMember{s.(Struct)[fieldIdx(sv, "ID")], s.(Struct)[fieldIdx(sv, "Address")]}
			bad := x.branch(x.eqStr(n.id, "")) || x.branch(x.eqStr(n.addr, ""))
			for _, m := range members {
				bad = bad || x.branch(x.eqStr(n.id, m.id)) || x.branch(x.eqStr(n.addr, m.addr))
			}
			if bad {
				return Iface{T: x.w.eng.pkgType(raftP, "errorFuture"), V: Struct{x.mkErr("invalid configuration")}}
			}
			members = append(members, n)
		}
		r.members = members
		return Iface{T: x.w.eng.pkgType(raftP, "errorFuture"), V: Struct{nilIface()}}
	})
	reg(sgPkg+"vxLead", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.st.misc["lead"] = a[0]
		return nil
	})
	reg(sgPkg+"vxRaftLog", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		d, _ := x.st.misc["raftlog"].([]Value)
		x.st.misc["raftlog"] = append(d, a[0])
		return nil
	})
	// vxMember(addr, id string) string: the address under which the raft node at addr knows a node
	reg(sgPkg+"vxMember", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		for _, r := range x.st.nodes {
			if x.branch(x.eqStr(r.addr, a[0])) {
				return x.raftMember(r, a[1])
			}
		}
		return ""
	})
}

// raftApply applies one log entry to a state machine.
func raftApply(x *Exec, g *G, store Value, data Value) {
	lt := x.w.eng.pkgType("github.com/hashicorp/raft", "Log")
	st := lt.Underlying().(*types.Struct)
	ft := x.w.eng.prog.ImportedPackage(strings.TrimSuffix(sgPkg, ".")).Type("fsm").Type()
	ap := x.w.eng.methodNamed(types.NewPointer(ft), "Apply")
	v := zero(x.c, lt).(Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Data" {
			v[i] = append(Slice{}, data.(Slice)...)
		}
	}
	var lv Value = v
	x.callFn(g, g.top, ap, []Value{store, Ptr(&lv)}, nil)
}
