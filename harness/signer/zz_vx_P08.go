package signer

//vx:use msgs

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

func vxCompare(step int8, old, nw []byte) error {
	st := SignState{Step: step, SignBytes: old}
	e1 := st.OnlyDifferByTimestamp(nw)
	ssc := SignStateConsensus{Step: step, SignBytes: old}
	e2 := ssc.OnlyDifferByTimestamp(nw)
	vx.Assert((e1 == nil) == (e2 == nil), "both records decide alike")
	return e1
}

// Every pair of votes: reported as differing only by timestamp exactly if all else is equal.
//
//vx:opts budget=150 traces=4
func VxP08_Votes() {
	ca, cb := vx.Str("ca", vx.Range("nca", 0, 1)), vx.Str("cb", vx.Range("ncb", 0, 1))
	a := vxMsg{step: int8(vx.Range("sa", 2, 3)), stamp: vxStamp("ta"), bid: vxBlockID("ba")}
	b := vxMsg{step: int8(vx.Range("sb", 2, 3)), stamp: vxStamp("tb"), bid: vxBlockID("bb")}
	if vx.Choose("samepos", 2) == 1 {
		a.height, a.round, b.height, b.round = 5, 1, 5, 1
	} else {
		a.height, a.round = vxPos("a")
		b.height, b.round = vxPos("b")
		vx.Assume(a.height > 0 && a.round > 0 && b.height > 0 && b.round > 0)
	}
	err := vxCompare(a.step, a.signBytes(ca), b.signBytes(cb))
	same := vxSameData(a, b) && ca == cb
	vx.Assert((err == nil) == same, "votes differ only by timestamp exactly if all other fields agree")
	vx.Obs("same", err == nil)
	if same {
		vx.Reach("same")
	} else {
		vx.Reach("different")
	}
}

// Every pair of proposals, including the POL round.
//
//vx:opts budget=150 traces=4
func VxP08_Proposals() {
	ca, cb := vx.Str("ca", vx.Range("nca", 0, 1)), vx.Str("cb", vx.Range("ncb", 0, 1))
	a := vxMsg{step: 1, stamp: vxStamp("ta"), bid: vxBlockID("ba"), pol: vx.Int32("pa")}
	b := vxMsg{step: 1, stamp: vxStamp("tb"), bid: vxBlockID("bb"), pol: vx.Int32("pb")}
	vx.Assume(a.pol >= -1 && a.pol < 128 && b.pol >= -1 && b.pol < 128)
	if vx.Choose("samepos", 2) == 1 {
		a.height, a.round, b.height, b.round = 5, 1, 5, 1
	} else {
		a.height, a.round = vxPos("a")
		b.height, b.round = vxPos("b")
		vx.Assume(a.height > 0 && a.round > 0 && b.height > 0 && b.round > 0)
	}
	err := vxCompare(1, a.signBytes(ca), b.signBytes(cb))
	same := vxSameData(a, b) && ca == cb
	vx.Assert((err == nil) == same, "proposals differ only by timestamp exactly if all other fields agree")
	vx.Obs("same", err == nil)
	if same {
		vx.Reach("same")
	} else {
		vx.Reach("different")
	}
}

// A vote against a proposal, and undecodable bytes on either side, are always conflicts.
//
//vx:opts budget=150 traces=4
func VxP08_OtherKinds() {
	m := vxMsg{step: int8(vx.Range("sa", 1, 3)), stamp: vxStamp("ta"), bid: vxBlockID("ba"), height: 5, round: 1, pol: vx.Int32("pa")}
	vx.Assume(m.pol >= -1 && m.pol < 128)
	sb := m.signBytes("c")
	switch vx.Choose("other", 4) {
	case 0:
		o := vxMsg{step: 1, stamp: vxStamp("tb"), bid: vxBlockID("bb"), height: 5, round: 1, pol: vx.Int32("pb")}
		vx.Assume(o.pol >= -1 && o.pol < 128)
		if m.step == 1 {
			o.step = int8(vx.Range("sb", 2, 3))
		}
		vx.Assert(vxCompare(m.step, sb, o.signBytes("c")) != nil, "a vote and a proposal conflict")
	case 1:
		vx.Assert(vxCompare(m.step, sb, nil) != nil, "empty bytes conflict")
		vx.Assert(vxCompare(m.step, nil, sb) != nil, "an empty record conflicts")
	case 2:
		cut := vx.Range("cut", 1, 6)
		vx.Assert(vxCompare(m.step, sb, sb[:len(sb)-cut]) != nil, "truncated bytes conflict")
		vx.Assert(vxCompare(m.step, sb[:len(sb)-cut], sb) != nil, "a truncated record conflicts")
	case 3:
		st := vx.Int8("st")
		vx.Assume(st < 1 || st > 3)
		vx.Assert(vxCompare(st, sb, sb) != nil, "an unknown step conflicts")
	}
	vx.Reach("conflict")
}

// Blocks in any number of parts; hashes that are cut short or end in zeroes.
//
//vx:opts budget=60 traces=3
func VxP08_Blocks() {
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxStamp("ta"), height: 5, round: 1, pol: -1}
	hash := vxHash("hash")
	hash[31], hash[30] = 0, 0
	m.bid.Hash, m.bid.PartSetHeader.Hash = hash, vxHash("phash")
	o := m
	o.stamp = vxStamp("tb")
	switch vx.Choose("other", 4) {
	case 0:
		base := []uint32{0, 1 << 7, 1 << 14, 1 << 21, 1 << 31}[vx.Choose("base", 5)]
		m.bid.PartSetHeader.Total = base + uint32(vx.Uint8("a")&0x7f)
		o.bid.PartSetHeader.Total = base + uint32(vx.Uint8("b")&0x7f)
		vx.Assume(base > 0 || m.bid.PartSetHeader.Total > 0 && o.bid.PartSetHeader.Total > 0)
	case 1:
		bases := []uint32{1, 1 << 7, 1<<8 + 1, 1<<16 + 1, 1<<31 + 1}
		m.bid.PartSetHeader.Total = bases[vx.Choose("a", 5)]
		o.bid.PartSetHeader.Total = bases[vx.Choose("b", 5)]
	case 2:
		o.bid.Hash = append([]byte{}, hash...)
		i := vx.Choose("byte", 32)
		o.bid.Hash[i] ^= vx.Uint8("flip")
	case 3:
		o.bid.PartSetHeader.Hash = append([]byte{}, m.bid.PartSetHeader.Hash...)
		i := vx.Choose("byte", 32)
		o.bid.PartSetHeader.Hash[i] ^= vx.Uint8("flip")
	}
	same := vxSameData(m, o)
	vx.Assert((vxCompare(m.step, m.signBytes("chain-1"), o.signBytes("chain-1")) == nil) == same, "messages differ only by timestamp exactly if all other fields agree")
	if same {
		vx.Reach("same")
	} else {
		vx.Reach("different")
	}
}
