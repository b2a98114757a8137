package signer

//vx:use msgs cluster net val

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// A history of requests at one leader; some attempts fail, and another node's signature may arrive in between.
//
//vx:opts budget=150 t.budget=500 traces=2
func VxP14_History() {
	c := vxNewCluster(1, 2)
	v := c.vxVal(0, 1)
	v.store.raft = vxRaft(true, "", nil, v.store)
	k := 3
	if vx.Thorough() {
		k = 4
	}
	var reqs []vxMsg
	var rec []vxRec14 // what has been signed, with the signature
	var top *vxMsg    // the highest position started
	for i := 0; i < k; i++ {
		nm := []string{"a", "b", "c", "d"}[i]
		var m vxMsg
		if i == 0 {
			m = vxFirst(nm)
		} else {
			kinds := 6
			if i == 2 && !vx.Thorough() {
				kinds = 4
			}
			m = vxMsgFrom(nm, reqs[vx.Choose(nm+" like", i)], kinds)
		}
		reqs = append(reqs, m)
		v.own.one = 0
		if (i == 0 || i == 1 && vx.Thorough()) && vx.Bool(nm+" fails") {
			v.own.one = 1
		}
		g0, s0 := v.vxAsked()
		sig, sb, err := vxAsk(v, m)
		vx.Quiesce()
		g1, s1 := v.vxAsked()
		if g1 != g0 || s1 != s0 {
			vx.Reach("started")
			if top != nil && !vxLess(top.height, int64(top.round), top.step, m.height, int64(m.round), m.step) {
				vx.Assert(vxSameHRS(*top, m), "signing starts at no position below one that was started before")
				ok := false
				for _, r := range rec {
					ok = ok || vxSameData(r.m, m)
				}
				vx.Assert(ok, "signing starts again only for data that differs by timestamp from what was signed there")
				vx.Reach("again")
			}
			if top == nil || vxLess(top.height, int64(top.round), top.step, m.height, int64(m.round), m.step) {
				top = &reqs[i]
			}
		} else if err == nil {
			vx.Reach("recorded")
			ok := false
			for _, r := range rec {
				ok = ok || string(r.sb) == string(sb) && string(r.sig) == string(sig)
			}
			vx.Assert(ok, "a request answered without signing gets the signature recorded for identical data")
		} else {
			vx.Reach("refused")
		}
		if err == nil {
			rec = append(rec, vxRec14{m, sb, sig})
		}
	}
}

// Requests that fail for lack of cosigners, in either step, count as started like any other.
//
//vx:opts budget=90 t.budget=300 traces=1
func VxP14_Shortage() {
	c := vxNewCluster(2, 2)
	v := c.vxVal(0, 1)
	v.store.raft = vxRaft(true, "", nil, v.store)
	a := vxFirst("a")
	if v.peers[0].one = vx.Range("step1", 0, 2); v.peers[0].one == 0 {
		v.peers[0].two = vx.Range("step2", 1, 2)
	}
	_, _, err := vxAsk(v, a)
	vx.Assert(err != nil, "nothing is signed without a threshold")
	vx.Quiesce()
	v.peers[0].one, v.peers[0].two = 0, 0
	b := vxMsgFrom("b", a, 7)
	g0, s0 := v.vxAsked()
	sig, _, err := vxAsk(v, b)
	vx.Quiesce()
	if g1, s1 := v.vxAsked(); g1 != g0 || s1 != s0 {
		vx.Reach("started")
		vx.Assert(vxLess(a.height, int64(a.round), a.step, b.height, int64(b.round), b.step),
			"after an attempt that failed, signing starts only above it")
	} else {
		vx.Assert(err != nil && len(sig) == 0, "nothing is returned that was not signed")
		vx.Reach("refused")
	}
}

type vxRec14 struct {
	m       vxMsg
	sb, sig []byte
}

// Several chain nodes ask at once.
//
//vx:opts preempt=2 t.preempt=3 race budget=60 t.budget=250 replay=engine traces=1
func VxP14_Concurrent() {
	c := vxNewCluster(1, 2)
	v := c.vxVal(0, 1)
	v.store.raft = vxRaft(true, "", nil, v.store)
	a := vxMsg{step: 2, height: 5, round: 1, stamp: vxNano(1<<30, 1<<27), pol: -1}
	b := a
	kind := vx.Choose("other", 4)
	switch kind {
	case 1:
		b.stamp = vxNano(1<<30, 1<<27+1)
	case 2:
		b.bid.Hash, b.bid.PartSetHeader.Total, b.bid.PartSetHeader.Hash = vxFixed(1), 1, vxFixed(2)
	case 3:
		b.height = 6
	}
	fail := vx.Bool("fail")
	if fail {
		v.own.one = 1
	}
	var sa, sb []byte
	var ea, eb error
	vxDo(func() { sa, _, ea = vxAsk(v, a) }, func() { sb, _, eb = vxAsk(v, b) })
	vx.Quiesce()
	gets, _ := v.vxAsked()
	starts := gets / 2 // the own cosigner and one peer
	ra, rb := ea == nil && len(sa) > 0, eb == nil && len(sb) > 0
	vx.Assert(ea != nil || ra, "an answer without error has a signature")
	vx.Assert(eb != nil || rb, "an answer without error has a signature")
	if fail {
		vx.Assert(!ra && !rb, "nothing is signed without the own cosigner")
		if kind != 3 {
			vx.Assert(starts == 1, "a position is started only once")
		}
		vx.Reach("failed")
		return
	}
	switch kind {
	case 0:
		vx.Reach("same")
		vx.Assert(starts == 1, "a position is started only once")
		vx.Assert(ra && rb && string(sa) == string(sb), "both get the one signature")
	case 1:
		vx.Reach("timestamps")
		vx.Assert(starts <= 2, "each timestamp is started once")
		vx.Assert(ra && rb, "both get a signature")
	case 2:
		vx.Reach("conflict")
		vx.Assert(starts == 1, "a position is started only once")
		vx.Assert(ra != rb, "only one of two conflicting messages is signed")
	case 3:
		vx.Reach("heights")
		vx.Assert(rb, "the higher position is signed")
	}
}

// A restarted leader starts nothing at or below the position in its state file, except as above.
//
//vx:opts budget=60 t.budget=200 traces=3
func VxP14_Restart() {
	c := vxNewCluster(1, 2)
	v := c.vxVal(0, 1)
	v.store.raft = vxRaft(true, "", nil, v.store)
	a := vxFirst("a")
	sig, sb, err := vxAsk(v, a)
	vx.Assert(err == nil, "the first request is signed")
	vx.Quiesce()
	st, err := LoadSignState(v.file)
	vx.Assert(err == nil, "the state is readable")
	v.ThresholdValidator = c.vxMkVal(v, st, []Cosigner{v.peers[0]})
	m := vxMsgFrom("b", a, 7)
	g0, _ := v.vxAsked()
	sig2, sb2, err := vxAsk(v, m)
	g1, _ := v.vxAsked()
	if g1 != g0 {
		vx.Reach("started")
		up := vxLess(a.height, int64(a.round), a.step, m.height, int64(m.round), m.step)
		vx.Assert(up || vxSameData(a, m), "signing starts only above the recorded position or for another timestamp")
	} else if err == nil {
		vx.Reach("recorded")
		vx.Assert(string(sb) == string(sb2) && string(sig) == string(sig2), "identical data gets the recorded signature")
	} else {
		vx.Reach("refused")
	}
}
