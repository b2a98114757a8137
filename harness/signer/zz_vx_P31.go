package signer

//vx:use net

import (
	"context"
	"fmt"
	"time"

	"github.com/hashicorp/raft"
	proto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/tendermint/tendermint/libs/log"
	"google.golang.org/grpc"
	"google.golang.org/grpc/health"
	healthpb "google.golang.org/grpc/health/grpc_health_v1"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxGroup makes the raft nodes of the stores, as one in-memory raft cluster in which the one at lead leads. The
// engine has a model of its own for it (net.go), with the same members and addresses.
func vxGroup(lead int, addrs []string, stores []*RaftStore) {
	var trs []*raft.InmemTransport
	var conf raft.Configuration
	for i, s := range stores {
		_, t := raft.NewInmemTransport(raft.ServerAddress(addrs[i]))
		trs = append(trs, t)
		conf.Servers = append(conf.Servers, raft.Server{ID: raft.ServerID(s.NodeID), Address: raft.ServerAddress(addrs[i])})
	}
	for i, a := range trs {
		for j, b := range trs {
			if i != j {
				a.Connect(raft.ServerAddress(addrs[j]), b)
			}
		}
	}
	for i, s := range stores {
		cfg := raft.DefaultConfig()
		cfg.LocalID, cfg.LogLevel = raft.ServerID(s.NodeID), "OFF"
		cfg.HeartbeatTimeout, cfg.ElectionTimeout, cfg.LeaderLeaseTimeout = 300*time.Millisecond, 300*time.Millisecond, 200*time.Millisecond
		st := raft.NewInmemStore()
		r, err := raft.NewRaft(cfg, &vxFan{}, st, st, raft.NewInmemSnapshotStore(), trs[i])
		if err != nil {
			panic(err)
		}
		r.BootstrapCluster(conf)
		s.raft = r
	}
	for settled := false; !settled; {
		time.Sleep(20 * time.Millisecond)
		settled = true
		for i, s := range stores {
			if i != lead && s.raft.State() == raft.Leader {
				s.raft.LeadershipTransferToServer(conf.Servers[lead].ID, conf.Servers[lead].Address)
			}
			settled = settled && string(s.raft.Leader()) == addrs[lead]
		}
	}
}

// vxLeads says who leads a group once it has settled.
func vxLeads(stores []*RaftStore) int {
	if vx.Native() {
		time.Sleep(time.Second)
	}
	n := -1
	for i, s := range stores {
		if s.raft.State() == raft.Leader {
			vx.Assert(n < 0, "one node leads")
			n = i
		}
	}
	return n
}

// vxMembers are the numbers and addresses of the members a raft node knows.
func vxMembers(r *raft.Raft) (ids, addrs []string) {
	for i := 0; i < 100 && len(ids) == 0; i++ {
		time.Sleep(20 * time.Millisecond)
		for _, s := range r.GetConfiguration().Configuration().Servers {
			ids, addrs = append(ids, string(s.ID)), append(addrs, string(s.Address))
		}
	}
	return ids, addrs
}

// vxIDs are n different numbers.
func vxIDs(n int) (o []int) {
	for i := 0; i < n; i++ {
		o = append(o, int(vx.Uint8(fmt.Sprint("id", i))))
		for _, p := range o[:i] {
			vx.Assume(p != o[i])
		}
	}
	return o
}

// vxTeamStores are the raft stores of cosigners with the given numbers, each with the others as peers.
func vxTeamStores(ids []int, addrs []string) (o []*RaftStore) {
	for i := range ids {
		var peers []Cosigner
		for k := 1; k < len(ids); k++ {
			j := (i + k) % len(ids)
			peers = append(peers, NewRemoteCosigner(ids[j], "tcp://"+addrs[j]))
		}
		o = append(o, NewRaftStore(fmt.Sprint(ids[i]), "", "tcp://"+addrs[i], time.Second, log.NewNopLogger(), nil, peers))
	}
	return o
}

// A leader asked to hand over to a named cosigner, or to anybody.
//
//vx:opts budget=60 traces=2
func VxP31_Transfer() {
	n := 2 + vx.Choose("members", 2)
	ids := vxIDs(n)
	addrs := [][]string{{"10.0.0.1:2222", "10.0.0.2:2222", "10.0.0.3:2222"}, {"node:2221", "node:2222", "node:2223"}}[vx.Choose("addresses", 2)][:n]
	stores := vxTeamStores(ids, addrs)
	lead := vx.Choose("leader", len(ids))
	vxGroup(lead, addrs, stores)
	asked := lead
	if vx.Choose("asked", 2) == 1 {
		asked = (lead + 1) % len(ids)
	}
	srv := &GRPCServer{raftStore: stores[asked]}
	name := vx.Str("to", vx.Choose("to length", 4))
	to := -1
	for i, id := range ids {
		if name == fmt.Sprint(id) {
			to = i
		}
	}
	req := &proto.CosignerGRPCTransferLeadershipRequest{LeaderID: name}
	res, err := srv.TransferLeadership(context.Background(), req)
	now := vxLeads(stores)
	switch {
	case asked != lead:
		vx.Reach("not the leader")
		vx.Assert(now == lead, "only the leader hands over leadership")
	case name == "":
		vx.Reach("anybody")
		vx.Assert(err == nil && now >= 0 && now != lead, "a leader asked to hand over to the next candidate hands over")
	case to < 0:
		vx.Reach("nobody's name")
	case to == lead:
		vx.Reach("itself")
		vx.Assert(now == lead, "a leader asked to be the leader stays it")
	default:
		vx.Reach("named")
		vx.Assert(err == nil && now == to, "leadership goes to the named cosigner")
		vx.Assert(res.GetLeaderID() == name && res.GetLeaderAddress() == addrs[to], "the answer names the new leader")
	}
}

// vxDigits is a number of n digits.
func vxDigits(nm string, n int) string {
	s := vx.Str(nm, n)
	for i := 0; i < n; i++ {
		lo := byte('0')
		if i == 0 {
			lo = '1'
		}
		vx.Assume(s[i] >= lo && s[i] <= '9')
	}
	return s
}

// Any set of peers with any numbers at any addresses: a new raft node knows itself and each of them under its
// number at its address.
//
//vx:opts budget=60 traces=2
func VxP31_Members() {
	n := 1 + vx.Choose("members", 4)
	ids := vxIDs(n)
	at := []string{}
	for i := 0; i < n; i++ {
		h := "127.0.0.1"
		if i > 0 {
			h = []string{"cosigner-1.example.org", "[::1]", "10.0.0."}[vx.Choose(fmt.Sprint("host", i), 3)]
			if h == "10.0.0." {
				h += vxDigits(fmt.Sprint("octet", i), 2)
			}
		}
		a := h + ":30" + vxDigits(fmt.Sprint("port", i), 3)
		for _, b := range at {
			vx.Assume(a != b)
		}
		at = append(at, a)
	}
	var peers []Cosigner
	for i := 1; i < n; i++ {
		peers = append(peers, NewRemoteCosigner(ids[i], "tcp://"+at[i]))
	}
	s := NewRaftStore(fmt.Sprint(ids[0]), vx.TempDir(), "tcp://"+at[0], time.Second, log.NewNopLogger(), nil, peers)
	_, err := s.Open()
	vx.Assert(err == nil, "the raft node starts")
	gi, ga := vxMembers(s.raft)
	vx.Assert(len(gi) == n, "the raft cluster has as many members as there are cosigners")
	for i := range ids {
		known := false
		for k := range gi {
			if gi[k] == fmt.Sprint(ids[i]) {
				known = ga[k] == at[i]
			}
		}
		vx.Assert(known, "every cosigner is a member of the raft cluster under its number and at its address")
	}
	vx.Reach("members")
	if vx.Native() {
		_ = s.raft.Shutdown().Error()
	}
}

type vxElect struct {
	proto.UnimplementedCosignerGRPCServer
	at  int
	got *[]string
}

func (e *vxElect) TransferLeadership(_ context.Context, r *proto.CosignerGRPCTransferLeadershipRequest) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
	*e.got = append(*e.got, fmt.Sprint(e.at, " ", r.GetLeaderID()))
	return &proto.CosignerGRPCTransferLeadershipResponse{}, nil
}

// vxElectServe serves e as one of the members of a cluster that says of itself whether it leads.
func vxElectServe(e proto.CosignerGRPCServer, lead bool) string {
	l, err := vxTCP()
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer()
	proto.RegisterCosignerGRPCServer(s, e)
	h := health.NewServer()
	st := healthpb.HealthCheckResponse_NOT_SERVING
	if lead {
		st = healthpb.HealthCheckResponse_SERVING
	}
	h.SetServingStatus("Leader", st)
	healthpb.RegisterHealthServer(s, h)
	go func() { _ = s.Serve(l) }()
	return l.Addr().String()
}

// VxhElectors starts n members of which one leads; got says who was asked to hand over to whom.
func VxhElectors(n, lead int) (addrs []string, got *[]string) {
	got = new([]string)
	for i := 0; i < n; i++ {
		addrs = append(addrs, "tcp://"+vxElectServe(&vxElect{at: i, got: got}, i == lead))
	}
	return addrs, got
}
