package signer

import (
	"time"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

// vxStamp is any instant of an ordinary era: seconds 2^30..2^31 (2004..2038), nanoseconds 2^27..2^28, chosen
// so that the encoding has one length.
func vxStamp(name string) time.Time {
	s, n := vx.Uint32(name+"_s"), vx.Uint32(name+"_n")
	return time.Unix(int64(s&(1<<30-1)|1<<30), int64(n&(1<<27-1)|1<<27)).UTC()
}

// vxAnyStamp is any instant a decoded protobuf timestamp can hold.
func vxAnyStamp(name string) time.Time {
	s, n := vx.Int64(name+"_s"), vx.Int64(name+"_n")
	vx.Assume(s >= -62135596800 && s < 253402300800)
	vx.Assume(n >= 0 && n < 1000000000)
	return time.Unix(s, n).UTC()
}

func vxPos(name string) (int64, int32) {
	h, r := vx.Int64(name+"_h"), vx.Int32(name+"_r")
	return h, r
}

// vxBlockID: nil block, or a block with arbitrary 32-byte hash and part-set header.
func vxBlockID(name string) tmProto.BlockID {
	if vx.Choose(name+"_nil", 2) == 1 {
		return tmProto.BlockID{}
	}
	total := vx.Uint32(name + "_total")
	vx.Assume(total >= 1 && total < 128)
	return tmProto.BlockID{
		Hash:          vxHash(name + "_hash"),
		PartSetHeader: tmProto.PartSetHeader{Total: total, Hash: vxHash(name + "_phash")},
	}
}

// vxHash is a 32-byte hash of which four bytes, spread over it, are arbitrary.
func vxHash(name string) []byte {
	o := make([]byte, 32)
	for i := range o {
		o[i] = byte(i + 1)
	}
	for i, b := range vx.Bytes(name, 4) {
		o[[]int{0, 10, 21, 31}[i]] = b
	}
	return o
}

func vxVoteType(name string) tmProto.SignedMsgType {
	if vx.Choose(name+"_type", 2) == 1 {
		return tmProto.PrevoteType
	}
	return tmProto.PrecommitType
}

func vxStepOf(t tmProto.SignedMsgType) int8 {
	switch t {
	case tmProto.PrevoteType:
		return 2
	case tmProto.PrecommitType:
		return 3
	}
	return 1
}

// vxMsg is a vote or proposal a chain node may send.
type vxMsg struct {
	height int64
	round  int32
	step   int8
	stamp  time.Time
	bid    tmProto.BlockID
	pol    int32
}

func (m vxMsg) vote() *tmProto.Vote {
	t := tmProto.PrevoteType
	if m.step == 3 {
		t = tmProto.PrecommitType
	}
	return &tmProto.Vote{Type: t, Height: m.height, Round: m.round, BlockID: m.bid, Timestamp: m.stamp}
}

func (m vxMsg) proposal() *tmProto.Proposal {
	return &tmProto.Proposal{Type: tmProto.ProposalType, Height: m.height, Round: m.round, PolRound: m.pol,
		BlockID: m.bid, Timestamp: m.stamp}
}

func (m vxMsg) signBytes(chain string) []byte {
	if m.step == 1 {
		return tm.ProposalSignBytes(chain, m.proposal())
	}
	return tm.VoteSignBytes(chain, m.vote())
}

func (m vxMsg) hrst() HRSTKey {
	return HRSTKey{m.height, int64(m.round), m.step, m.stamp.UnixNano()}
}

func (m vxMsg) block(chain string) *Block {
	return &Block{Height: m.height, Round: int64(m.round), Step: m.step, SignBytes: m.signBytes(chain), Timestamp: m.stamp}
}

// vxSameData: equal in everything but the timestamp.
func vxSameData(a, b vxMsg) bool {
	return a.height == b.height && a.round == b.round && a.step == b.step && (a.step != 1 || a.pol == b.pol) &&
		string(a.bid.Hash) == string(b.bid.Hash) && a.bid.PartSetHeader.Total == b.bid.PartSetHeader.Total &&
		string(a.bid.PartSetHeader.Hash) == string(b.bid.PartSetHeader.Hash)
}

func vxLess(h1, r1 int64, s1 int8, h2, r2 int64, s2 int8) bool {
	if h1 != h2 {
		return h1 < h2
	}
	if r1 != r2 {
		return r1 < r2
	}
	return s1 < s2
}

func vxSameHRS(a, b vxMsg) bool {
	return a.height == b.height && a.round == b.round && a.step == b.step
}
