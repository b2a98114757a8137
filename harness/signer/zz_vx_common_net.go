package signer

import (
	"net"
	"time"

	"github.com/hashicorp/raft"
	proto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/tendermint/tendermint/libs/log"
	"google.golang.org/grpc"
)

// The two functions below stand for the network in the engine (see net.go there); natively they are the
// real gRPC server on the loopback interface and a real in-memory raft node.

func vxTCP() (net.Listener, error) { return net.Listen("tcp", "127.0.0.1:0") }

func vxServe(srv proto.CosignerGRPCServer) string {
	l, err := vxTCP()
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer()
	proto.RegisterCosignerGRPCServer(s, srv)
	go func() { _ = s.Serve(l) }()
	return l.Addr().String()
}

type vxFan struct {
	raft.FSM
	stores []*RaftStore
}

func (f *vxFan) Apply(l *raft.Log) interface{} {
	for _, s := range f.stores {
		(*fsm)(s).Apply(l)
	}
	return nil
}

// vxRaft is a raft node that is leader, or follows the leader at leaderAddr; a leader's Apply fails with
// fail (engine only) or reaches the state machines of all stores.
func vxRaft(leader bool, leaderAddr string, fail error, stores ...*RaftStore) *raft.Raft {
	cfg := raft.DefaultConfig()
	cfg.LocalID = "1"
	cfg.LogLevel = "OFF"
	if leader {
		cfg.HeartbeatTimeout, cfg.ElectionTimeout, cfg.LeaderLeaseTimeout = 50*time.Millisecond, 50*time.Millisecond, 50*time.Millisecond
	} else {
		cfg.HeartbeatTimeout, cfg.ElectionTimeout = time.Hour, time.Hour
	}
	addr, tr := raft.NewInmemTransport("")
	st := raft.NewInmemStore()
	r, err := raft.NewRaft(cfg, &vxFan{stores: stores}, st, st, raft.NewInmemSnapshotStore(), tr)
	if err != nil {
		panic(err)
	}
	servers := []raft.Server{{ID: "1", Address: addr}}
	if !leader {
		servers = append(servers, raft.Server{ID: "2", Address: "other"})
	}
	r.BootstrapCluster(raft.Configuration{Servers: servers})
	if leader {
		for r.State() != raft.Leader {
			time.Sleep(5 * time.Millisecond)
		}
		return r
	}
	if leaderAddr != "" {
		_, t2 := raft.NewInmemTransport("other")
		t2.Connect(addr, tr)
		var resp raft.AppendEntriesResponse
		err := t2.AppendEntries("1", addr, &raft.AppendEntriesRequest{
			RPCHeader: raft.RPCHeader{ProtocolVersion: cfg.ProtocolVersion},
			Term:      100, Leader: t2.EncodePeer("2", raft.ServerAddress(leaderAddr)),
		}, &resp)
		if err != nil {
			panic(err)
		}
		for r.Leader() == "" {
			time.Sleep(5 * time.Millisecond)
		}
	}
	return r
}

// vxStore is a raft store for a validator whose raft node is r.
func vxStore(c *LocalCosigner, dir string) *RaftStore {
	return NewRaftStore("1", dir, "tcp://127.0.0.1:0", time.Second, log.NewNopLogger(), c, nil)
}

// vxRaftIn is a raft node that is a candidate, or has been shut down.
func vxRaftIn(state raft.RaftState) *raft.Raft {
	cfg := raft.DefaultConfig()
	cfg.LocalID = "1"
	cfg.LogLevel = "OFF"
	cfg.HeartbeatTimeout, cfg.ElectionTimeout, cfg.LeaderLeaseTimeout = 50*time.Millisecond, time.Hour, 50*time.Millisecond
	addr, tr := raft.NewInmemTransport("")
	st := raft.NewInmemStore()
	r, err := raft.NewRaft(cfg, &vxFan{}, st, st, raft.NewInmemSnapshotStore(), tr)
	if err != nil {
		panic(err)
	}
	r.BootstrapCluster(raft.Configuration{Servers: []raft.Server{{ID: "1", Address: addr}, {ID: "2", Address: "other"}}})
	if state == raft.Shutdown {
		r.Shutdown()
	}
	for r.State() != state {
		time.Sleep(5 * time.Millisecond)
	}
	return r
}
