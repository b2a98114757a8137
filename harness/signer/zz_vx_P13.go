package signer

//vx:use msgs cluster net val

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxValid asserts what a successful answer promises.
func (c *vxCluster) vxValid(sig, sb []byte, err error) bool {
	if err != nil {
		vx.Reach("refused")
		return false
	}
	vx.Reach("signed")
	vx.Assert(len(sig) > 0, "a successful answer carries a signature")
	vx.Assert(c.pub.VerifySignature(sb, sig), "the returned signature is valid for the returned message")
	return true
}

// vxRecorded asserts that the signature in a validator state file is valid for what is recorded with it.
func (c *vxCluster) vxRecorded(f string) {
	st, err := LoadSignState(f)
	vx.Assert(err == nil, "the validator state is readable")
	if st.Height > 0 {
		vx.Assert(c.pub.VerifySignature(st.SignBytes, st.Signature), "the recorded signature is valid")
	}
}

// A leader is asked for two messages that may be related in any way.
//
//vx:opts budget=120 t.budget=300 traces=2
func VxP13_Leader() {
	c := vxNewCluster(2, 2)
	v, w := c.vxVal(0, 1), c.vxVal(1, 0)
	v.store.raft = vxRaft(true, "", nil, v.store, w.store)
	a := vxFirst("a")
	b := vxMsgFrom("b", a, 7)
	sig, sb, err := vxAsk(v, a)
	vx.Assert(c.vxValid(sig, sb, err), "the first request is signed")
	sig, sb, err = vxAsk(v, b)
	c.vxValid(sig, sb, err)
	k := 2
	if vx.Thorough() {
		k = 6
	}
	sig, sb, err = vxAsk(v, vxMsgFrom("c", []vxMsg{a, b}[vx.Choose("like", 2)], k))
	c.vxValid(sig, sb, err)
	vx.Quiesce()
	c.vxRecorded(v.file)
	c.vxRecorded(w.file)
}

// A peer answers with something other than its share; the next request finds it repaired.
//
//vx:opts budget=60 t.budget=200 traces=3
func VxP13_BadShare() {
	t, n := 2, 2
	if vx.Thorough() {
		n = 3
	}
	c := vxNewCluster(t, n)
	v, w := c.vxVal(0, vxOthers(n, 0)...), c.vxVal(1, vxOthers(n, 1)...)
	v.store.raft = vxRaft(true, "", nil, v.store, w.store)
	a := vxFirst("a")
	if vx.Bool("before") {
		b := a
		b.height = 1
		vx.Assume(a.height > 1)
		sig, sb, err := vxAsk(v, b)
		c.vxValid(sig, sb, err)
	}
	v.peers[0].two = vx.Range("bad", 3, 6)
	if vx.Thorough() && vx.Bool("own") {
		v.own.two = vx.Range("bad", 3, 6)
	}
	sig, sb, err := vxAsk(v, a)
	c.vxValid(sig, sb, err)
	vx.Quiesce()
	c.vxRecorded(v.file)
	c.vxRecorded(w.file)
	v.peers[0].two, v.own.two = 0, 0
	sig, sb, err = vxAsk(v, vxMsgFrom("b", a, 3))
	c.vxValid(sig, sb, err)
	vx.Quiesce()
	c.vxRecorded(v.file)
	c.vxRecorded(w.file)
}

// Leadership moves to the other node between two requests; a follower relays.
//
//vx:opts budget=90 t.budget=300 traces=2
func VxP13_Failover() {
	c := vxNewCluster(2, 2)
	v, w := c.vxVal(0, 1), c.vxVal(1, 0)
	lead := vxRaft(true, "", nil, v.store, w.store)
	v.store.raft = lead
	w.store.raft = vxRaft(false, vxServe(&GRPCServer{cosigner: c.cosigners[0], thresholdValidator: v.ThresholdValidator, raftStore: v.store}), nil)
	a := vxFirst("a")
	if vx.Bool("relayed") {
		sig, sb, err := vxAsk(w, a)
		vx.Assert(c.vxValid(sig, sb, err), "the first request is signed")
	} else {
		sig, sb, err := vxAsk(v, a)
		vx.Assert(c.vxValid(sig, sb, err), "the first request is signed")
	}
	vx.Quiesce()
	w.store.raft = lead
	v.store.raft = vxRaft(false, vxServe(&GRPCServer{cosigner: c.cosigners[1], thresholdValidator: w.ThresholdValidator, raftStore: w.store}), nil)
	b := vxMsgFrom("b", a, 6)
	if vx.Bool("relayed") {
		sig, sb, err := vxAsk(v, b)
		c.vxValid(sig, sb, err)
	} else {
		sig, sb, err := vxAsk(w, b)
		c.vxValid(sig, sb, err)
	}
	vx.Quiesce()
	c.vxRecorded(v.file)
	c.vxRecorded(w.file)
}
