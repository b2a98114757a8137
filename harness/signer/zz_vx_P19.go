package signer

//vx:use msgs cluster net val

import (
	"time"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	"github.com/tendermint/tendermint/libs/log"
)

type vxNode struct {
	store *RaftStore
	pvf   string
	lead  *RaftStore
	i     int
	c     *vxCluster
}

func (c *vxCluster) vxMkNode(i int, leads bool) *vxNode {
	f := vx.TempDir() + "/pv.json"
	st, err := LoadOrCreateSignState(f)
	vx.Assert(err == nil, "sign state")
	pv := NewThresholdValidator(&ThresholdValidatorOpt{Pubkey: c.pub, Threshold: c.t, SignState: st,
		Cosigner: c.cosigners[i], Logger: log.NewNopLogger()})
	s := vxStore(c.cosigners[i], "")
	s.SetThresholdValidator(pv)
	// a new leader applies what the one before it has left
	s.raft = vxRaft(leads, "", nil)
	l := vxStore(nil, "")
	l.raft = vxRaft(true, "", nil, s)
	return &vxNode{s, f, l, i, c}
}

type vxHRS struct {
	h, r int64
	s    int8
}

func (n *vxNode) marks() (pv, share vxHRS) {
	vx.Quiesce()
	a, err := LoadSignState(n.pvf)
	vx.Assert(err == nil, "the validator state is readable")
	b, err := LoadSignState(n.c.files[n.i])
	vx.Assert(err == nil, "the share state is readable")
	st := n.c.states[n.i]
	vx.Assert(st.Height == b.Height && st.Round == b.Round && st.Step == b.Step, "the share state in memory is the one on disk")
	return vxHRS{a.Height, a.Round, a.Step}, vxHRS{b.Height, b.Round, b.Step}
}

func (a vxHRS) less(b vxHRS) bool { return vxLess(a.h, a.r, a.s, b.h, b.r, b.s) }

var vxBadLSS = []string{``, `null`, `{}`, `x`, `[]`, `7`, `"a"`, `{"Height":"9"}`, `{"Height":9`, `{"Height":9,"Step":300}`,
	`{"Height":9,"Round":1.5}`, `{"Height":9,"Signature":"%"}`, `{"Height":9,"SignBytes":"0"}`, `{"Height":9,"SignBytes":7}`,
	`{"Height":-9}`}

// Any sequence of broadcasts: in order, replayed, reordered, malformed; then a request.
//
//vx:opts budget=120 t.budget=400 traces=3
func VxP19_Broadcasts() {
	c := vxNewCluster(2, 2)
	n := c.vxMkNode(0, vx.Thorough() && vx.Bool("leads"))
	var a [2]vxMsg
	var ssc [2]SignStateConsensus
	for i := range a {
		nm := []string{"a", "b"}[i]
		a[i] = vxMsg{step: int8(vx.Range(nm+"_step", 1, 3)), stamp: vxNano(1<<30, 1<<27), pol: -1}
		a[i].height, a[i].round = vxPos(nm)
		vx.Assume(a[i].height > 0 && a[i].round >= 0)
		ssc[i] = NewSignStateConsensus(a[i].height, int64(a[i].round), a[i].step)
		ssc[i].SignBytes, ssc[i].Signature = a[i].signBytes(vxChain), vx.Bytes(nm+"_sig", 2)
	}
	k := 3
	if vx.Thorough() {
		k = 4
	}
	var top vxHRS
	if vx.Bool("signed before") {
		m := vxMsg{step: 2, height: 40, stamp: vxNano(1<<30, 1<<27), pol: -1}
		_, err := c.sign(m.hrst(), m.signBytes(vxChain), []int{0, 1}, 0)
		vx.Assert(err == nil, "signed")
	}
	for i := 0; i < k; i++ {
		pv0, sh0 := n.marks()
		ev := i % 2
		if i >= 2 {
			ev = vx.Choose("event", 3)
		}
		if ev == 2 {
			vx.Assert(n.lead.Set(raftEventLSS, vxBadLSS[vx.Choose("bad", len(vxBadLSS))]) == nil, "applied without a crash")
		} else {
			vx.Assert(n.lead.Emit(raftEventLSS, ssc[ev]) == nil, "applied without a crash")
			p := vxHRS{a[ev].height, int64(a[ev].round), a[ev].step}
			if top.less(p) {
				top = p
			}
		}
		pv1, sh1 := n.marks()
		vx.Assert(!pv1.less(pv0) && !sh1.less(sh0), "no broadcast lowers a watermark")
		vx.Assert(!pv1.less(top), "the validator state is at least at every applied position")
		vx.Assert(!sh1.less(top), "the share state is at least at every applied position")
		if ev == 2 {
			vx.Assert(pv1 == pv0 && sh1 == sh0, "a malformed broadcast changes nothing")
		}
	}
	vx.Reach("applied")
}

// Two broadcasts in any order, a restart perhaps, then any request.
//
//vx:opts budget=90 t.budget=300 traces=3
func VxP19_RequestAfter() {
	c := vxNewCluster(2, 2)
	n := c.vxMkNode(0, vx.Bool("leads"))
	var a [2]vxMsg
	var top vxHRS
	for i := range a {
		nm := []string{"a", "b"}[i]
		a[i] = vxMsg{step: int8(vx.Range(nm+"_step", 2, 3)), stamp: vxNano(1<<30, 1<<27), pol: -1,
			height: int64(vx.Uint8(nm+"_h")) + 1, round: 1}
		if i == 1 && vx.Bool("other") {
			a[i].bid.Hash, a[i].bid.PartSetHeader.Total, a[i].bid.PartSetHeader.Hash = vxHash("bh"), 1, vxHash("bp")
		}
		ssc := NewSignStateConsensus(a[i].height, int64(a[i].round), a[i].step)
		ssc.SignBytes, ssc.Signature = a[i].signBytes(vxChain), vx.Bytes(nm+"_sig", 2)
		vx.Assert(n.lead.Emit(raftEventLSS, ssc) == nil, "applied without a crash")
		if p := (vxHRS{a[i].height, 1, a[i].step}); top.less(p) {
			top = p
		}
		if i == 0 && vx.Thorough() && vx.Choose("between", 2) == 1 {
			vx.Assert(n.lead.Set(raftEventLSS, vxBadLSS[vx.Choose("bad", len(vxBadLSS))]) == nil, "applied without a crash")
		}
	}
	if vx.Bool("restart") {
		c.restart(0)
	}
	// a request afterwards
	b := vxMsg{step: int8(vx.Range("step", 2, 3)), stamp: vxStamp("t"), pol: -1, bid: vxBlockID("bid"),
		height: int64(vx.Uint8("h")) + 1, round: int32(vx.Range("r", 0, 1))}
	res, err := c.sign(b.hrst(), b.signBytes(vxChain), []int{0, 1}, 0)
	if err == nil && len(res.Signature) > 0 {
		vx.Reach("signed")
		p := vxHRS{b.height, int64(b.round), b.step}
		vx.Assert(!p.less(top), "nothing lower is signed afterwards")
		if vxSameHRS(a[0], b) {
			vx.Reach("same")
			vx.Assert(vxSameData(a[0], b), "nothing conflicting is signed afterwards")
		} else if vxSameHRS(a[1], b) {
			vx.Assert(vxSameData(a[1], b), "nothing conflicting is signed afterwards")
		}
	} else {
		vx.Reach("refused")
	}
}

// The validator state and the share state need not be equal: on the leader, the validator state is ahead when
// its own broadcast arrives; a node that signed its share only is behind. Both states and the broadcast are at any
// positions; the broadcast may be what the validator recorded itself.
//
//vx:opts budget=60 traces=3
func VxP19_UnequalStates() {
	c := vxNewCluster(2, 2)
	n := c.vxMkNode(0, vx.Bool("leads"))
	var p [3]vxMsg
	var ssc [3]SignStateConsensus
	for i, nm := range []string{"pv", "share", "event"} {
		p[i] = vxMsg{step: int8(vx.Range(nm+"_step", 2, 3)), stamp: vxNano(1<<30, 1<<27), pol: -1}
		p[i].height, p[i].round = int64(vx.Uint8(nm+"_h"))+1, int32(vx.Uint8(nm+"_r"))
		ssc[i] = NewSignStateConsensus(p[i].height, int64(p[i].round), p[i].step)
		ssc[i].SignBytes, ssc[i].Signature = p[i].signBytes(vxChain), []byte{byte(i + 1)}
	}
	if vx.Bool("pv") {
		vx.Assert(n.store.thresholdValidator.SaveLastSignedState(ssc[0]) == nil, "the validator has signed")
		if vx.Bool("own") {
			ssc[2], p[2] = ssc[0], p[0]
		}
	}
	if vx.Bool("share") {
		vx.Assert(c.cosigners[0].SaveLastSignedState(ssc[1]) == nil, "the cosigner has learned")
	}
	pv0, sh0 := n.marks()
	vx.Assert(n.lead.Emit(raftEventLSS, ssc[2]) == nil, "applied without a crash")
	pv1, sh1 := n.marks()
	e := vxHRS{p[2].height, int64(p[2].round), p[2].step}
	vx.Assert(!pv1.less(pv0) && !sh1.less(sh0), "no broadcast lowers a watermark")
	vx.Assert(!pv1.less(e), "the validator state is at least at the applied position")
	vx.Assert(!sh1.less(e), "the share state is at least at the applied position")
	vx.Assert(pv1 == pv0 || pv1 == e, "the validator state moves to the applied position only")
	vx.Assert(sh1 == sh0 || sh1 == e, "the share state moves to the applied position only")
	vx.Reach("applied")
}

// A leader that reports a signature has broadcast its position, for the first request as well as for later ones, so
// that the nodes it did not ask know about it too.
//
//vx:opts budget=60 traces=3
func VxP19_Emitted() {
	c := vxNewCluster(2, 3)
	v := c.vxVal(0, 1, 2)
	down := vx.Choose("down", 3)
	if down > 0 {
		v.peers[down-1].one = 1
	}
	others := []*vxNode{c.vxMkNode(1, false), c.vxMkNode(2, false)}
	v.store.raft = vxRaft(true, "", nil, v.store, others[0].store, others[1].store)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxStamp("t"), pol: -1, bid: vxBlockID("bid"),
		height: int64(vx.Uint8("h")) + 1, round: int32(vx.Uint8("r"))}
	vx.Assume(m.stamp.Unix() < 1<<40)
	for i := 0; i < 2; i++ {
		_, _, err := vxAsk(v, m)
		if i == 0 {
			vx.Assert(err == nil, "signed")
		}
		if err != nil {
			return
		}
		e := vxHRS{m.height, int64(m.round), m.step}
		for _, o := range others {
			pv, sh := o.marks()
			vx.Assert(!pv.less(e), "every validator state is at least at a position that was signed")
			vx.Assert(!sh.less(e), "every share state is at least at a position that was signed")
		}
		vx.Reach([]string{"first", "next"}[i])
		if vx.Bool("retry") {
			m.stamp = m.stamp.Add(time.Second)
		} else {
			m.height++
		}
	}
}
