package signer

//vx:use msgs cluster net val rec

import (
	"errors"
	"time"

	"github.com/hashicorp/raft"
	proto "github.com/strangelove-ventures/horcrux/signer/proto"
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxNotLeader is a raft node in one of the states a node that must not sign can be in.
func vxNotLeader(how int, leader string) *raft.Raft {
	switch how {
	case 1:
		return vxRaftIn(raft.Candidate)
	case 2:
		return vxRaftIn(raft.Shutdown)
	}
	return vxRaft(false, leader, nil)
}

// Any block reaches the leader unchanged, and its answer comes back unchanged.
//
//vx:opts budget=60 traces=3
func VxP16_Relay() {
	c := vxNewCluster(1, 2)
	v := c.vxVal(0, 1)
	rec := &vxRec{signRes: &proto.CosignerGRPCSignBlockResponse{Signature: vx.Bytes("sig", 4)}}
	if vx.Bool("refuses") {
		rec.err = errors.New("refused")
	}
	up := vx.Choose("leader", 3)
	addr := vxServe(rec)
	if up == 1 {
		addr = "127.0.0.1:1"
	}
	if up == 2 {
		addr = ""
	}
	v.store.raft = vxRaft(false, addr, nil)
	blk := &Block{Height: vx.Int64("h"), Round: vx.Int64("r"), Step: vx.Int8("s"), SignBytes: vx.Bytes("sb", vx.Range("n", 0, 3)),
		Timestamp: vxStamp("t")}
	chain := vx.Str("chain", 3)
	if up == 2 {
		chain = "c"
	}
	for i := 0; i < len(chain); i++ {
		vx.Assume(chain[i] < 128)
	}
	in := *blk
	sig, stamp, err := v.SignBlock(chain, blk)
	g, s := v.vxAsked()
	vx.Assert(g == 0 && s == 0, "a follower never signs")
	if err == nil {
		vx.Reach("answered")
		vx.Assert(up == 0 && rec.err == nil, "no success without the leader's")
		vx.Assert(rec.calls == 1, "the leader is asked once")
		q := rec.block
		vx.Assert(q.GetChainID() == chain, "the chain ID is unchanged")
		b := q.GetBlock()
		vx.Assert(b.GetHeight() == in.Height && b.GetRound() == in.Round && b.GetStep() == int32(in.Step), "the position is unchanged")
		vx.Assert(string(b.GetSignBytes()) == string(in.SignBytes), "the sign bytes are unchanged")
		vx.Assert(b.GetTimestamp() == in.Timestamp.UnixNano(), "the timestamp is unchanged")
		vx.Assert(string(sig) == string(rec.signRes.Signature), "the leader's signature is returned")
		vx.Assert(stamp.Equal(in.Timestamp), "with the timestamp of the request")
	} else {
		vx.Reach("error")
		vx.Assert(up != 0 || rec.err != nil, "the leader's answer is returned")
		vx.Assert(len(sig) == 0, "no signature comes with an error")
	}
}

// A vote or proposal relayed to a real leader is signed; in every state but leader a node relays.
//
//vx:opts budget=60 t.budget=200 traces=3
func VxP16_RealLeader() {
	c := vxNewCluster(2, 2)
	v, w := c.vxVal(0, 1), c.vxVal(1, 0)
	v.store.raft = vxRaft(true, "", nil, v.store, w.store)
	addr := vxServe(&GRPCServer{cosigner: c.cosigners[0], thresholdValidator: v.ThresholdValidator, raftStore: v.store})
	if vx.Bool("other server") {
		addr = vxServe(&CosignerGRPCServer{cosigner: c.cosigners[0], thresholdValidator: v.ThresholdValidator, raftStore: v.store})
	}
	w.store.raft = vxRaft(false, addr, nil)
	m := vxFirst("a")
	sig, sb, err := vxAsk(w, m)
	vx.Assert(err == nil && string(sb) == string(m.signBytes(vxChain)), "the message is signed and unchanged")
	vx.Assert(c.pub.VerifySignature(sb, sig), "the leader's signature is valid")
	g, s := w.vxAsked()
	vx.Assert(g == 0 && s == 0, "the follower does not contact cosigners")
	// again, with a relation to the first
	b := vxMsgFrom("b", m, 6)
	sig, sb, err = vxAsk(w, b)
	g, s = w.vxAsked()
	vx.Assert(g == 0 && s == 0, "the follower does not contact cosigners")
	if err == nil {
		vx.Reach("again")
		vx.Assert(c.pub.VerifySignature(sb, sig), "the leader's signature is valid")
	} else {
		vx.Reach("refused")
		vx.Assert(len(sig) == 0, "no signature comes with an error")
	}
}

// A node whose raft is absent, a candidate or stopped answers with an error and does not sign.
//
//vx:opts budget=30 traces=4
func VxP16_NoRaft() {
	c := vxNewCluster(1, 2)
	v := c.vxVal(0, 1)
	how := vx.Choose("raft", 3)
	if how > 0 {
		v.store.raft = vxNotLeader(how, "")
	}
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), height: 5, round: 1, stamp: time.Unix(1<<30, 1<<27).UTC(), pol: -1}
	sig, _, err := vxAsk(v, m)
	g, s := v.vxAsked()
	vx.Assert(g == 0 && s == 0, "a node that is not the leader never signs")
	vx.Assert(err != nil && len(sig) == 0, "it answers with an error")
	vx.Reach("refused")
}

// A node that lost the leadership relays, whatever it knows itself.
//
//vx:opts budget=30 traces=2
func VxP16_Deposed() {
	c := vxNewCluster(1, 2)
	v := c.vxVal(0, 1)
	v.store.raft = vxRaft(true, "", nil, v.store)
	m := vxFirst("a")
	_, _, err := vxAsk(v, m)
	vx.Assert(err == nil, "signed as leader")
	g0, s0 := v.vxAsked()
	rec := &vxRec{signRes: &proto.CosignerGRPCSignBlockResponse{Signature: vx.Bytes("sig", 4)}}
	v.store.raft = vxRaft(false, vxServe(rec), nil)
	b := vxMsgFrom("b", m, 6)
	sig, _, err := vxAsk(v, b)
	g, s := v.vxAsked()
	vx.Assert(g == g0 && s == s0, "a deposed leader does not sign")
	vx.Assert(err == nil && rec.calls == 1 && string(sig) == string(rec.signRes.Signature), "it returns the new leader's signature")
	vx.Assert(string(rec.block.GetBlock().GetSignBytes()) == string(b.signBytes(vxChain)), "and passes on the block")
	vx.Reach("relayed")
}

// The leader changes, goes down or is unknown between two requests: the second one is not for the old leader.
//
//vx:opts budget=60 traces=3
func VxP16_Changes() {
	c := vxNewCluster(1, 2)
	v := c.vxVal(0, 1)
	a := &vxRec{signRes: &proto.CosignerGRPCSignBlockResponse{Signature: vx.Bytes("sig", 4)}}
	b := &vxRec{signRes: &proto.CosignerGRPCSignBlockResponse{Signature: vx.Bytes("sig2", 4)}}
	addrA, addrB := vxServe(a), vxServe(b)
	v.store.raft = vxRaft(false, addrA, nil)
	m := vxFirst("a")
	sig, _, err := vxAsk(v, m)
	vx.Assert(err == nil && a.calls == 1 && string(sig) == string(a.signRes.Signature), "the first request is relayed")
	now := vx.Choose("then", 5)
	addr := []string{addrA, addrB, "", "127.0.0.1:1", addrB}[now]
	if now == 4 {
		b.err = errors.New("refused")
	}
	v.store.raft = vxRaft(false, addr, nil)
	k := m
	k.height++
	if vx.Bool("same") {
		k = m
	}
	sig, _, err = vxAsk(v, k)
	g, s := v.vxAsked()
	vx.Assert(g == 0 && s == 0, "a follower never signs")
	switch now {
	case 0:
		vx.Assert(err == nil && a.calls == 2 && b.calls == 0 && string(sig) == string(a.signRes.Signature), "the same leader is asked again")
		vx.Reach("same")
		return
	case 1:
		vx.Assert(err == nil && b.calls == 1 && string(sig) == string(b.signRes.Signature), "the new leader's signature is returned")
		vx.Assert(string(b.block.GetBlock().GetSignBytes()) == string(k.signBytes(vxChain)), "for the same block")
		vx.Reach("new")
	default:
		vx.Assert(err != nil && len(sig) == 0, "without the leader's answer the request ends in an error")
		vx.Reach("error")
	}
	vx.Assert(a.calls == 1, "a node that does not lead any more is not asked")
}
