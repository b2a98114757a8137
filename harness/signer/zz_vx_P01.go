package signer

//vx:use msgs cluster

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

func vxMsgP01(name string) vxMsg {
	m := vxMsg{step: int8(vx.Range(name+"_step", 1, 3)), stamp: vxStamp(name + "_t"), bid: vxBlockID(name + "_b")}
	m.height, m.round = vxPos(name)
	vx.Assume(m.height > 0 && m.round >= 0)
	if m.step == 1 {
		m.pol = vx.Int32(name + "_pol")
		vx.Assume(m.pol >= -1 && m.pol < 64)
	}
	return m
}

// After signing one message, a cosigner is asked to sign another; if both positions are equal and it signs
// both, the messages agree in everything but the timestamp. The state may have been learned from a broadcast,
// from its file after a restart, or by signing.
//
//vx:opts budget=120 t.budget=300 traces=3
func VxP01_SecondMessage() {
	c := vxNewCluster(2, 2)
	a := vxMsgP01("a")
	b := vxMsgP01("b")
	sa, sb := a.signBytes(vxChain), b.signBytes(vxChain)
	g := []int{0, 1}
	how := vx.Choose("how", 3)
	switch how {
	case 0, 1:
		res, err := c.sign(a.hrst(), sa, g, 0)
		vx.Assert(err == nil && len(res.Signature) > 0, "the first message is signed")
		vx.Quiesce()
		if how == 1 {
			c.restart(0)
		}
	case 2:
		ssc := NewSignStateConsensus(a.height, int64(a.round), a.step)
		ssc.SignBytes = sa
		ssc.Signature = vx.Bytes("lsig", 2)
		vx.Assert(c.cosigners[0].SaveLastSignedState(ssc) == nil, "a broadcast position is learned")
		vx.Quiesce()
	}
	res, err := c.sign(b.hrst(), sb, g, 0)
	signed := err == nil && res != nil && len(res.Signature) > 0
	vx.Obs("signed", signed)
	samePos := a.height == b.height && a.round == b.round && a.step == b.step
	if signed {
		vx.Reach("signed")
		vx.Assert(!samePos || vxSameData(a, b), "no second signature on conflicting data at one position")
		if samePos {
			vx.Reach("signed again at the same position")
		}
	} else {
		vx.Reach("refused")
	}
}

// A third request after a resign with another timestamp is still protected.
//
//vx:opts budget=120 t.budget=300 traces=3
func VxP01_ThirdMessage() {
	c := vxNewCluster(2, 2)
	g := []int{0, 1}
	mk := func(name string) vxMsg {
		// quick: one vote step and one round
		m := vxMsg{step: 2, stamp: vxStamp(name + "_t"), bid: vxBlockID(name + "_b"), pol: -1}
		m.height = int64(vx.Uint8(name+"_h")&0x3f) + 1
		if vx.Thorough() {
			m.step = int8(vx.Range(name+"_step", 1, 3))
			m.height, m.round = int64(vx.Uint8(name+"_h")), int32(vx.Uint8(name+"_r"))
			vx.Assume(m.height > 0)
		}
		return m
	}
	var ms []vxMsg
	var ok []bool
	for _, n := range []string{"a", "b", "c"} {
		m := mk(n)
		res, err := c.sign(m.hrst(), m.signBytes(vxChain), g, 0)
		ms = append(ms, m)
		ok = append(ok, err == nil && len(res.Signature) > 0)
	}
	for i := range ms {
		for j := range ms[:i] {
			if ok[i] && ok[j] {
				vx.Reach("two signed")
				vx.Assert(!(ms[i].height == ms[j].height && ms[i].round == ms[j].round && ms[i].step == ms[j].step) || vxSameData(ms[i], ms[j]),
					"no two signatures on conflicting data at one position")
			}
		}
	}
}

// A cosigner signs one message and then learns of another one; what it signs after that contradicts nothing it
// has signed before.
//
//vx:opts budget=90 t.budget=300 traces=3
func VxP01_Learned() {
	c := vxNewCluster(2, 2)
	mk := func(name string) vxMsg {
		m := vxMsg{step: int8(vx.Range(name+"_step", 1, 2)), stamp: vxStamp(name + "_t"), bid: vxBlockID(name + "_b"), pol: -1}
		m.height = int64(vx.Uint8(name+"_h")&0x3f) + 1
		return m
	}
	g := []int{0, 1}
	a, l, b := mk("a"), mk("l"), mk("b")
	res, err := c.sign(a.hrst(), a.signBytes(vxChain), g, 0)
	vx.Assert(err == nil && len(res.Signature) > 0, "the first message is signed")
	ssc := NewSignStateConsensus(l.height, int64(l.round), l.step)
	ssc.SignBytes, ssc.Signature = l.signBytes(vxChain), vx.Bytes("lsig", 2)
	_ = c.cosigners[0].SaveLastSignedState(ssc)
	if vx.Bool("restart") {
		vx.Quiesce()
		c.restart(0)
	}
	res, err = c.sign(b.hrst(), b.signBytes(vxChain), g, 0)
	if err == nil && len(res.Signature) > 0 {
		vx.Reach("signed")
		vx.Assert(!vxSameHRS(a, b) || vxSameData(a, b), "no second signature on conflicting data at one position, whatever is learned")
	} else {
		vx.Reach("refused")
	}
}

// Signing under one chain ID and then another at the same position is a conflict.
//
//vx:opts budget=60 traces=2
func VxP01_ChainID() {
	c := vxNewCluster(2, 2)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxStamp("t"), bid: vxBlockID("b"), height: 9, round: 1, pol: -1}
	x, y := vx.Str("x", 2), vx.Str("y", 2)
	g := []int{0, 1}
	_, err := c.sign(m.hrst(), m.signBytes(x), g, 0)
	vx.Assert(err == nil, "the first message is signed")
	n := m
	n.stamp = vxStamp("t2")
	_, err = c.sign(n.hrst(), n.signBytes(y), g, 0)
	if err == nil {
		vx.Reach("signed")
		vx.Assert(x == y, "no second signature for another chain at one position")
	}
}

// The state file knows the position but not what was signed there, as after a migration or a state set:
// nothing may be signed at that position.
//
//vx:opts budget=60 traces=3
func VxP01_UnknownData() {
	c := vxNewCluster(2, 2)
	m := vxMsgP01("m")
	ssc := NewSignStateConsensus(vx.Int64("h"), vx.Int64("r"), vx.Int8("s"))
	vx.Assume(ssc.Height > 0 && ssc.Round >= 0 && ssc.Step >= 0)
	vx.Assert(c.states[0].Save(ssc, nil) == nil, "saving a position succeeds")
	vx.Quiesce()
	if vx.Bool("restart") {
		c.restart(0)
	}
	res, err := c.sign(m.hrst(), m.signBytes(vxChain), []int{0, 1}, 0)
	signed := err == nil && res != nil && len(res.Signature) > 0
	vx.Obs("signed", signed)
	above := vxLess(ssc.Height, ssc.Round, ssc.Step, m.height, int64(m.round), m.step)
	vx.Assert(!signed || above, "no signature at or below a position with unknown data")
	if signed {
		vx.Reach("signed")
	} else {
		vx.Reach("refused")
	}
}
