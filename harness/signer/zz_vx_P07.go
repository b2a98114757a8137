package signer

//vx:use msgs

import (
	"strings"

	"github.com/tendermint/tendermint/libs/protoio"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

func vxCheckHRST(sb []byte, h int64, r int32, step int8, nano int64) {
	k, err := UnpackHRST(sb)
	vx.Assert(err == nil, "the sign bytes of a vote or proposal are understood")
	if err != nil {
		return
	}
	vx.Assert(k.Height == h, "height")
	vx.Assert(k.Round == int64(r), "round")
	vx.Assert(k.Step == step, "step")
	vx.Assert(k.Timestamp == nano, "timestamp")
	vx.Reach("decoded")
}

// vxAnyChain is a chain ID of up to max bytes, or one of the greatest length allowed.
func vxAnyChain(max int) string {
	n := vx.Range("nchain", 0, max+1)
	if n > max {
		return vx.Str("chain", 1) + strings.Repeat("-", 48) + vx.Str("chain", 1)
	}
	return vx.Str("chain", n)
}

// All votes and proposals with ordinary timestamps and any chain ID up to the bound.
//
//vx:opts budget=150 traces=4
func VxP07_Messages() {
	max := 2
	if vx.Thorough() {
		max = 6
	}
	chain := vxAnyChain(max)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxStamp("t"), bid: vxBlockID("b")}
	m.height, m.round = vxPos("m")
	if m.step == 1 {
		m.pol = vx.Int32("pol")
	}
	vxCheckHRST(m.signBytes(chain), m.height, m.round, m.step, m.stamp.UnixNano())
}

// Any timestamp a message can carry, including the epoch and instants before it; nil and non-nil blocks.
//
//vx:opts budget=200 traces=4
func VxP07_Timestamps() {
	max := 3
	if vx.Thorough() {
		max = 6
	}
	chain := vxAnyChain(max)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxAnyStamp("t"), height: 7, round: 2, pol: -1}
	if vx.Choose("nil", 2) == 0 {
		m.bid = tmProto.BlockID{Hash: vxHash("hash"), PartSetHeader: tmProto.PartSetHeader{Total: 1, Hash: vxHash("ph")}}
	}
	vxCheckHRST(m.signBytes(chain), m.height, m.round, m.step, m.stamp.UnixNano())
}

// Messages that are not made by a node of today: rounds of any size, and no timestamp or block.
//
//vx:opts budget=60 traces=4
func VxP07_Canonical() {
	h, r := vx.Int64("h"), vx.Int64("r")
	step := int8(vx.Range("step", 1, 3))
	stamp := vxStamp("t")
	var sb []byte
	var err error
	if step == 1 {
		sb, err = protoio.MarshalDelimited(&tmProto.CanonicalProposal{Type: tmProto.ProposalType, Height: h, Round: r,
			POLRound: -1, Timestamp: stamp, ChainID: "chain-1"})
	} else {
		typ := tmProto.PrevoteType
		if step == 3 {
			typ = tmProto.PrecommitType
		}
		sb, err = protoio.MarshalDelimited(&tmProto.CanonicalVote{Type: typ, Height: h, Round: r, Timestamp: stamp, ChainID: "chain-1"})
	}
	vx.Assert(err == nil, "encoded")
	k, err := UnpackHRST(sb)
	vx.Assert(err != nil || k.Height == h && k.Round == r && k.Step == step && k.Timestamp == stamp.UnixNano(),
		"the position is the one in the message")
	if err == nil {
		vx.Reach("decoded")
	}
}

// Canonical votes with any type other than prevote and precommit are not signing requests.
//
//vx:opts budget=60 traces=4
func VxP07_UnknownVoteType() {
	typ := vx.Int32("type")
	vx.Assume(typ != 1 && typ != 2 && typ != 32 && typ >= 0 && typ < 128)
	h, r := vxPos("m")
	v := tmProto.Vote{Type: tmProto.SignedMsgType(typ), Height: h, Round: r, BlockID: vxBlockID("b"), Timestamp: vxStamp("t")}
	_, err := UnpackHRST(tm.VoteSignBytes("ch", &v))
	vx.Assert(err != nil, "unknown vote types are refused")
	vx.Reach("refused")
}

// Arbitrary bytes: an error or a signing position, never a crash, and a position only if the bytes really
// are a canonical message of that kind.
//
//vx:opts budget=200 t.budget=700 traces=6
func VxP07_ArbitraryBytes() {
	max := 5
	if vx.Thorough() {
		max = 8
	}
	sb := vx.Bytes("sb", vx.Range("n", 0, max))
	k, err := UnpackHRST(sb)
	vx.Obs("ok", err == nil)
	if err != nil {
		vx.Reach("error")
		return
	}
	vx.Reach("ok")
	if k.Step == 1 {
		var p tmProto.CanonicalProposal
		vx.Assert(protoio.UnmarshalDelimited(sb, &p) == nil && p.Type == tmProto.ProposalType, "a proposal position comes from a proposal")
		vx.Assert(p.Height == k.Height && p.Round == k.Round, "position of the proposal")
	} else {
		var v tmProto.CanonicalVote
		vx.Assert(protoio.UnmarshalDelimited(sb, &v) == nil, "a vote position comes from a vote")
		vx.Assert(v.Type == tmProto.PrevoteType && k.Step == 2 || v.Type == tmProto.PrecommitType && k.Step == 3, "step of the vote")
		vx.Assert(v.Height == k.Height && v.Round == k.Round, "position of the vote")
	}
}
