package signer

import (
	"fmt"
	"sync"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	"github.com/tendermint/tendermint/libs/log"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

// vxSpy is a cosigner that counts what it is asked and misbehaves on demand. Step-one and step-two behaviour:
// 0 correct, 1 error, 2 never answers, 3 wrong share (step two), 4 no share, 5 a share of double length,
// 6 the share of an earlier answer.
type vxSpy struct {
	Cosigner
	mu       sync.Mutex
	gets     int
	sets     int
	one, two int
	last     *CosignerSignResponse
}

func (s *vxSpy) GetEphemeralSecretParts(k HRSTKey) (*CosignerEphemeralSecretPartsResponse, error) {
	s.mu.Lock()
	s.gets++
	s.mu.Unlock()
	switch s.one {
	case 1:
		return nil, fmt.Errorf("unreachable")
	case 2:
		<-make(chan int)
	}
	return s.Cosigner.GetEphemeralSecretParts(k)
}

func (s *vxSpy) SetEphemeralSecretPartsAndSign(q CosignerSetEphemeralSecretPartsAndSignRequest) (*CosignerSignResponse, error) {
	s.mu.Lock()
	s.sets++
	s.mu.Unlock()
	switch s.two {
	case 1:
		return nil, fmt.Errorf("unreachable")
	case 2:
		<-make(chan int)
	}
	res, err := s.Cosigner.SetEphemeralSecretPartsAndSign(q)
	if err != nil {
		return nil, err
	}
	s.mu.Lock()
	old := s.last
	s.last = res
	s.mu.Unlock()
	o := *res
	switch s.two {
	case 3:
		o.Signature = append([]byte{}, o.Signature...)
		o.Signature[0] ^= 1
	case 4:
		o.Signature = nil
	case 5:
		o.Signature = append(append([]byte{}, o.Signature...), o.Signature...)
	case 6:
		if old != nil {
			o = *old
		}
	}
	return &o, nil
}

// vxVal is the threshold validator of node i (0-based) in cluster c, with the peers of the given numbers.
type vxVal struct {
	*ThresholdValidator
	store *RaftStore
	file  string
	own   *vxSpy
	peers []*vxSpy
}

func (c *vxCluster) vxVal(i int, peers ...int) *vxVal {
	v := &vxVal{file: vx.TempDir() + "/pv.json", own: &vxSpy{Cosigner: c.cosigners[i]}}
	st, err := LoadOrCreateSignState(v.file)
	vx.Assert(err == nil, "sign state")
	var ps []Cosigner
	for _, p := range peers {
		s := &vxSpy{Cosigner: c.cosigners[p]}
		v.peers = append(v.peers, s)
		ps = append(ps, s)
	}
	v.store = vxStore(c.cosigners[i], "")
	v.ThresholdValidator = c.vxMkVal(v, st, ps)
	return v
}

func (c *vxCluster) vxMkVal(v *vxVal, st SignState, ps []Cosigner) *ThresholdValidator {
	pv := NewThresholdValidator(&ThresholdValidatorOpt{Pubkey: c.pub, Threshold: c.t, SignState: st,
		Cosigner: v.own, Peers: ps, RaftStore: v.store, Logger: log.NewNopLogger()})
	v.store.SetThresholdValidator(pv)
	return pv
}

// vxAsked is how often any cosigner has been contacted.
func (v *vxVal) vxAsked() (gets, sets int) {
	for _, s := range append([]*vxSpy{v.own}, v.peers...) {
		s.mu.Lock()
		gets, sets = gets+s.gets, sets+s.sets
		s.mu.Unlock()
	}
	return
}

// vxAsk has the validator sign m as a chain node does and returns the signature and the sign bytes of the
// message as returned.
func vxAsk(pv interface {
	SignVote(string, *tmProto.Vote) error
	SignProposal(string, *tmProto.Proposal) error
}, m vxMsg) (sig, sb []byte, err error) {
	if m.step == 1 {
		p := m.proposal()
		err = pv.SignProposal(vxChain, p)
		return p.Signature, tm.ProposalSignBytes(vxChain, p), err
	}
	p := m.vote()
	err = pv.SignVote(vxChain, p)
	return p.Signature, tm.VoteSignBytes(vxChain, p), err
}

// vxMsgFrom is a message related to a: 0 the same, 1 another timestamp, 2 another block, 3 another height,
// 4 another round, 5 another step, 6 another POL round and block.
func vxMsgFrom(nm string, a vxMsg, kinds int) vxMsg {
	b := a
	switch vx.Choose(nm+" differs in", kinds) {
	case 1:
		b.stamp = vxStamp(nm + "_t")
	case 2:
		b.bid = vxBlockID(nm + "_bid")
		b.stamp = vxStamp(nm + "_t")
	case 3:
		b.height = int64(vx.Uint8(nm+"_h")&0x3f) + 1
	case 4:
		b.round = int32(vx.Uint8(nm+"_r") & 0x3f)
	case 5:
		b.step = int8(vx.Range(nm+"_step", 1, 3))
	case 6:
		b.pol = vx.Int32(nm + "_pol")
		b.stamp = vxStamp(nm + "_t")
	}
	return b
}

func vxFirst(nm string) vxMsg {
	a := vxMsg{step: int8(vx.Range(nm+"_step", 1, 3)), stamp: vxStamp(nm + "_t"), bid: vxBlockID(nm + "_bid"), pol: -1}
	a.height, a.round = int64(vx.Uint8(nm+"_h")&0x3f)+1, int32(vx.Uint8(nm+"_r")&0x3f)
	return a
}

func vxOthers(n, i int) (o []int) {
	for j := 0; j < n; j++ {
		if j != i {
			o = append(o, j)
		}
	}
	return
}
