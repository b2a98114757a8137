package signer

//vx:use conn req

import (
	"io"
	"time"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/libs/protoio"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

const vxChain = "chain-1"

func vxPlainStub() *vxStub {
	return &vxStub{sig: []byte{1, 2}, key: tmCryptoEd25519.GenPrivKey().PubKey()}
}

// vxAnyReq is a vote or proposal for any position.
func vxAnyReq(nm string) (tmProtoPrivval.Message, int64, bool) {
	h := 1<<20 + int64(vx.Uint8(nm+"_h"))
	t := time.Unix(1<<30, 1).UTC()
	if (nm == "again" || nm == "last") && vx.Choose(nm+" proposal", 2) == 1 {
		return vxPropReq(&tmProto.Proposal{Type: tmProto.ProposalType, Height: h, Timestamp: t}), h, true
	}
	return vxVoteReq(&tmProto.Vote{Type: tmProto.PrevoteType, Height: h, Timestamp: t}), h, false
}

// vxServed asks for a signature and checks the answer.
func vxServed(c io.ReadWriter, pv *vxStub, nm string) {
	m, h, prop := vxAnyReq(nm)
	n := pv.calls
	r := vxExchange(c, m)
	if prop {
		p := r.GetSignedProposalResponse()
		vx.Assert(p != nil && p.Error == nil && p.Proposal.Height == h && len(p.Proposal.Signature) == 2, "a proposal is answered by itself, signed")
	} else {
		p := r.GetSignedVoteResponse()
		vx.Assert(p != nil && p.Error == nil && p.Vote.Height == h && len(p.Vote.Signature) == 2, "a vote is answered by itself, signed")
	}
	vx.Assert(pv.calls == n+1 && pv.chain == vxChain, "the validator is asked once, for the configured chain")
}

// vxTrouble has node n fail the signer in one of several ways. It returns the connection on which it does, if any.
const vxTroubles = 7

// vxPlan has the next connections to n fail that way, as far as they fail before they are used.
func vxPlan(n *vxChainNode, ks ...int) {
	for _, k := range ks {
		if k != 1 && k != 2 {
			k = 0
		}
		n.script(k)
	}
}

func vxTrouble(n *vxChainNode, pv *vxStub, k int, nm string) io.ReadWriteCloser {
	switch k {
	case 1: // not there
		return nil
	case 2: // no handshake
		c := n.raw()
		if vx.Native() {
			_, _ = c.Write([]byte("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"))
		}
		vx.Assert(vxClosed(c), "a connection without a handshake is closed")
		return nil
	case 3: // gone at once
		n.accept()
		n.reset()
		return nil
	case 4: // half a request
		c := n.accept()
		half := byte(8)
		if nm != "" {
			half = vx.Uint8(nm + "_half")
		}
		_, err := c.Write([]byte{9, half})
		vx.Assert(err == nil, "written")
		return c
	case 5: // no request
		return n.accept()
	case 6: // gone while it is served
		c := n.accept()
		pv.hook = func() {
			pv.hook = nil
			n.reset()
		}
		m, _, _ := vxAnyReq(nm)
		_, err := protoio.NewDelimitedWriter(c).WriteMsg(&m)
		vx.Assert(err == nil, "written")
		return nil
	}
	return n.accept()
}

// One node fails the signer in any way, before or after the others in the configuration: the others are served
// meanwhile, and it is served as soon as it can be.
//
//vx:opts budget=90 traces=3 t.budget=300
func VxP32_Independent() {
	pv := vxPlainStub()
	good := []*vxChainNode{vxMkNodeConn(1)}
	if vx.Thorough() && vx.Choose("nodes", 2) == 1 {
		good = append(good, vxMkNodeConn(2))
	}
	bad := vxMkNodeConn(0)
	all := append([]*vxChainNode{}, good...)
	at := vx.Choose("where", len(all)+1)
	all = append(all[:at], append([]*vxChainNode{bad}, all[at:]...)...)
	k := 1 + vx.Choose("trouble", vxTroubles-1)
	vxPlan(bad, k)
	if k == 1 {
		bad.down()
	}
	vxSigners(&PvGuard{PrivValidator: pv}, all...)
	c := vxTrouble(bad, pv, k, "bad")
	if k == 6 {
		// the failing node's next connection shows that its request is done with
		c = bad.accept()
	}
	var conns []io.ReadWriter
	for _, n := range good {
		conns = append(conns, n.accept())
	}
	for _, g := range conns {
		vxServed(g, pv, "good")
	}
	vx.Reach("others served")
	switch {
	case k == 1:
		bad.up()
		c = bad.accept()
	case k == 4:
		bad.reset()
		c = bad.accept()
	case c == nil:
		c = bad.accept()
	}
	vxServed(c, pv, "again")
	for _, g := range conns {
		vxServed(g, pv, "still")
	}
	vx.Reach("all served")
}

// A node whose connection fails in any ways one after the other is served in the end; every request that reached
// the signer whole reached the validator once.
//
//vx:opts budget=90 traces=3 t.budget=400
func VxP32_Again() {
	pv := vxPlainStub()
	n := vxMkNodeConn(0)
	episodes := 3
	if vx.Thorough() {
		episodes = 5
	}
	var ks []int
	for i := 0; i < episodes; i++ {
		ks = append(ks, vx.Choose("trouble", vxTroubles))
	}
	vxPlan(n, ks...)
	if ks[0] == 1 {
		n.down()
	}
	vxSigners(&PvGuard{PrivValidator: pv}, n)
	asked := 0
	for i, k := range ks {
		c := vxTrouble(n, pv, k, "")
		if k == 0 {
			vxServed(c, pv, "r")
		}
		if k == 0 || k == 6 {
			asked++
		}
		next := i+1 < len(ks) && ks[i+1] == 1
		if next && k != 1 {
			n.down()
		}
		if !next && k == 1 {
			n.up()
		}
		if c != nil {
			n.reset()
		}
	}
	c := n.accept()
	vx.Assert(pv.calls == asked, "every whole request reaches the validator once")
	vxServed(c, pv, "last")
	vxServed(c, pv, "more")
	vx.Reach("served")
}

// A signer that has been stopped serves no further connection.
//
//vx:opts budget=60 traces=2
func VxP32_Stopped() {
	pv := vxPlainStub()
	n := vxMkNodeConn(0)
	down := vx.Choose("down", 2) == 1
	if down {
		vxPlan(n, 1)
		n.down()
	}
	ss := vxSigners(&PvGuard{PrivValidator: pv}, n)
	if down {
		vx.Assert(ss[0].Stop() == nil, "stopped")
		n.up()
	} else {
		c := n.accept()
		if vx.Choose("used", 2) == 1 {
			vxServed(c, pv, "before")
		}
		vx.Assert(ss[0].Stop() == nil, "stopped")
		n.reset()
	}
	if c := n.poll(); c != nil {
		vx.Assert(down, "it does not connect again")
		vx.Reach("connected")
		vx.Assert(vxClosed(c), "a connection made after all is closed")
	}
	vx.Reach("stopped")
}

// A node that fails in the same way many times is served all the same in the end.
//
//vx:opts budget=60 traces=0
func VxP32_Persistent() {
	pv := vxPlainStub()
	n, other := vxMkNodeConn(0), vxMkNodeConn(1)
	k := vx.Choose("trouble", vxTroubles)
	times := 12
	if vx.Native() && (k == 1 || k == 2) {
		times = 11 // each takes three seconds
	}
	for i := 0; i < times; i++ {
		vxPlan(n, k)
	}
	if k == 1 {
		n.down()
	}
	vxSigners(&PvGuard{PrivValidator: pv}, n, other)
	o := other.accept()
	for i := 0; i < times; i++ {
		c := vxTrouble(n, pv, k, "")
		if c != nil {
			if k == 0 {
				vxServed(c, pv, "r")
			}
			vx.Quiesce()
			n.reset()
		}
	}
	if k == 1 {
		n.up()
	}
	c := n.accept()
	for i := 0; i < times; i++ {
		vxServed(c, pv, "done")
		vxServed(o, pv, "other")
	}
	vx.Reach("served")
}
