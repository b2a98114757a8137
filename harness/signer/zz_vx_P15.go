package signer

//vx:use msgs cluster net val

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// Any combination of peers that answer, fail or stay silent at either step.
//
//vx:opts budget=120 t.budget=400 traces=3 t.allsched
func VxP15_Faults() {
	shapes := [][2]int{{2, 3}, {2, 2}, {1, 2}, {3, 4}, {3, 5}}
	k := 3
	if vx.Thorough() {
		k = 5
	}
	sh := shapes[vx.Choose("shape", k)]
	t, n := sh[0], sh[1]
	c := vxNewCluster(t, n)
	me := vx.Choose("leader", 2) * (n - 1)
	v := c.vxVal(me, vxOthers(n, me)...)
	v.store.raft = vxRaft(true, "", nil, v.store)
	ok, good := 0, 0
	late := false
	for i, p := range v.peers {
		nm := []string{"p0", "p1", "p2", "p3"}[i]
		p.one = vx.Range(nm+"_step1", 0, 2)
		if p.one == 0 {
			ok++
			if i < 2 {
				p.two = vx.Range(nm+"_step2", 0, 4)
			}
			if p.two == 0 {
				good++
			} else {
				late = true
			}
		}
	}
	own := true
	if vx.Bool("own") {
		own = false
		if vx.Bool("own_step1") {
			v.own.one = 1
		} else {
			v.own.two = vx.Range("own_step2", 1, 4)
		}
	}
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), height: 5, round: 1, stamp: vxNano(1<<30, 1<<27), pol: -1}
	vxOutcome15(c, v, m, own, ok, good, late)
}

func vxOutcome15(c *vxCluster, v *vxVal, m vxMsg, own bool, ok, good int, late bool) {
	sig, sb, err := vxAsk(v, m)
	_, sets := v.vxAsked()
	vx.Assert(sets <= c.t, "at most threshold cosigners are asked to sign")
	for _, p := range append([]*vxSpy{v.own}, v.peers...) {
		p.mu.Lock()
		vx.Assert(p.gets <= 1 && p.sets <= 1, "no cosigner is asked twice")
		p.mu.Unlock()
	}
	if own && ok >= c.t-1 && !late {
		vx.Reach("enough")
		vx.Assert(err == nil, "a new block is signed when a threshold of cosigners takes part")
	}
	if !own || good < c.t-1 {
		vx.Reach("too few")
		vx.Assert(err != nil, "a request with too few participants ends in an error")
	}
	if v.own.one != 0 || ok < c.t-1 {
		vx.Assert(sets == 0, "nobody is asked to sign unless a threshold answers the first step")
	}
	if err == nil {
		vx.Assert(c.pub.VerifySignature(sb, sig), "the signature is valid")
	} else {
		vx.Assert(len(sig) == 0, "no signature comes with an error")
	}
}

// Larger clusters, with peers that fail or stay silent at the first step.
//
//vx:opts budget=90 t.budget=200 traces=2
func VxP15_FirstStep() {
	shapes := [][2]int{{2, 4}, {3, 4}, {2, 5}, {3, 5}, {4, 5}, {4, 6}}
	k := 3
	if vx.Thorough() {
		k = 6
	}
	sh := shapes[vx.Choose("shape", k)]
	c := vxNewCluster(sh[0], sh[1])
	me := vx.Choose("leader", 2) * (sh[1] - 1)
	v := c.vxVal(me, vxOthers(sh[1], me)...)
	v.store.raft = vxRaft(true, "", nil, v.store)
	ok := 0
	for i, p := range v.peers {
		if p.one = vx.Choose([]string{"p0", "p1", "p2", "p3", "p4"}[i], 3); p.one == 0 {
			ok++
		}
	}
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), height: 5, round: 1, stamp: vxNano(1<<30, 1<<27), pol: -1}
	vxOutcome15(c, v, m, true, ok, ok, false)
}

// The peers known to the leader need not be numbered without gaps, nor be all of the cosigners.
//
//vx:opts budget=60 t.budget=200 traces=3
func VxP15_SomePeers() {
	n := 4
	c := vxNewCluster(2, n)
	me := vx.Choose("leader", n)
	var ps []int
	for _, j := range vxOthers(n, me) {
		if vx.Choose("peer", 2) == 0 {
			ps = append(ps, j)
		}
	}
	if len(ps) == 2 && vx.Bool("swapped") {
		ps[0], ps[1] = ps[1], ps[0]
	}
	v := c.vxVal(me, ps...)
	v.store.raft = vxRaft(true, "", nil, v.store)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), height: 5, round: 1, stamp: vxStamp("t"), pol: -1}
	vxOutcome15(c, v, m, true, len(ps), len(ps), false)
}

// Peers that answer in any order, at the leader with concurrent goroutines.
//
//vx:opts preempt=0 t.preempt=1 allsched race budget=60 t.budget=300 replay=engine traces=1
func VxP15_Order() {
	c := vxNewCluster(2, 3)
	v := c.vxVal(0, 1, 2)
	v.store.raft = vxRaft(true, "", nil, v.store)
	bad := vx.Choose("bad", 3)
	ok, good := 2, 2
	if bad == 1 {
		v.peers[0].one, ok, good = 1, 1, 1
	}
	late := bad == 2
	if late {
		v.peers[1].two, good = 1, 1
	}
	vxOutcome15(c, v, vxMsg{step: 2, height: 5, round: 1, stamp: vxNano(1<<30, 1<<27), pol: -1}, true, ok, good, late)
	vx.Quiesce()
}

// Peers that fail for many requests in a row, one after the other, are taken back as soon as they answer.
//
//vx:opts budget=60 traces=1
func VxP15_Long() {
	n := 3 + vx.Choose("larger", 2)
	c := vxNewCluster(2, n)
	v := c.vxVal(0, vxOthers(n, 0)...)
	v.store.raft = vxRaft(true, "", nil, v.store)
	k := 8
	h := int64(vx.Uint8("h") & 0x1f)
	step := vx.Choose("fails in step two", 2) == 1
	phases := n - 1
	for ph := 0; ph < 2*phases; ph++ {
		for i, p := range v.peers {
			p.one, p.two = 1, 0
			if i == ph%phases {
				p.one = 0
			}
		}
		for i := 0; i < k; i++ {
			h++
			m := vxMsg{step: int8(1 + i%3), stamp: vxStamp("t"), pol: -1, height: h, round: int32(vx.Uint8("r")&0x1f) + 1}
			if step && i < k/2 {
				v.peers[ph%phases].two = 1 + i%3
			} else {
				v.peers[ph%phases].two = 0
			}
			bad := v.peers[ph%phases].two != 0
			sig, sb, err := vxAsk(v, m)
			if bad {
				vx.Assert(err != nil && len(sig) == 0, "a request with too few participants ends in an error")
				continue
			}
			vx.Assert(err == nil && c.pub.VerifySignature(sb, sig), "a new block is signed when a threshold of cosigners takes part")
		}
	}
	vx.Reach("all served")
}
