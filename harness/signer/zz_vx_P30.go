package signer

//vx:use msgs cluster net val

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxTeam is a whole cluster: every cosigner with a validator of its own, one of them leading at a time.
type vxTeam struct {
	*vxCluster
	vals []*vxVal
	lead int
}

func vxNewTeam(t, n int) *vxTeam {
	w := &vxTeam{vxCluster: vxNewCluster(t, n)}
	for i := 0; i < n; i++ {
		w.vals = append(w.vals, w.vxVal(i, vxOthers(n, i)...))
	}
	return w
}

// leads makes node i the leader, whose broadcasts reach the nodes in reach.
func (w *vxTeam) leads(i int, reach []int) {
	w.lead = i
	var st []*RaftStore
	for _, j := range reach {
		st = append(st, w.vals[j].store)
	}
	for j, v := range w.vals {
		if j == i {
			v.store.raft = vxRaft(true, "", nil, st...)
		} else {
			v.store.raft = vxRaft(false, "", nil)
		}
	}
}

// again restarts node i: its cosigner and validator start from their files.
func (w *vxTeam) again(i int) {
	vx.Quiesce()
	w.restart(i)
	v := w.vals[i]
	v.own.Cosigner = w.cosigners[i]
	st, err := LoadOrCreateSignState(v.file)
	vx.Assert(err == nil, "the validator state is readable")
	var ps []Cosigner
	for _, p := range v.peers {
		ps = append(ps, p)
	}
	v.store = vxStore(w.cosigners[i], "")
	v.ThresholdValidator = w.vxMkVal(v, st, ps)
	for _, u := range w.vals {
		for _, p := range u.peers {
			if p.GetID() == i+1 {
				p.Cosigner = w.cosigners[i]
			}
		}
	}
}

// attempt has node i lead and asked to sign m, with the peers answering as chosen: the first one in one of the
// given ways (0 correctly, 1 not at all, 2 only at the first step), the others correctly or not at all.
func (w *vxTeam) attempt(nm string, i int, m vxMsg, last bool, faults ...int) (*vxMsg, []byte) {
	reach := []int{i}
	if !last && vx.Choose(nm+" broadcast", 2) == 1 {
		for j := range w.vals {
			if j != i {
				reach = append(reach, j)
			}
		}
	}
	w.leads(i, reach)
	v := w.vals[i]
	for k, p := range v.peers {
		p.one, p.two = 0, 0
		if k == 0 {
			switch faults[vx.Choose(nm+" first peer", len(faults))] {
			case 1:
				p.one = 1
			case 2:
				p.two = 1
			}
		} else if v.peers[0].one == 0 && vx.Choose(nm+" other peers", 2) == 1 {
			p.one = 1
		}
	}
	sig, sb, err := vxAsk(v, m)
	if err != nil {
		vx.Assert(len(sig) == 0, "no signature comes with an error")
		return nil, nil
	}
	vx.Assert(w.pub.VerifySignature(sb, sig), "the signature is valid")
	return &m, sb
}

func vxNoConflict(a, b *vxMsg) {
	if a == nil || b == nil {
		return
	}
	vx.Reach("both signed")
	if vxSameHRS(*a, *b) {
		vx.Assert(vxSameData(*a, *b), "the cluster signs no conflicting messages for one position")
		vx.Reach("signed again")
	}
}

// vxRival is a message for the position of a, or the same one: 0 the same, 1 another timestamp, 2 another block,
// 3 another POL round.
func vxRival(nm string, a vxMsg) vxMsg {
	b := a
	switch vx.Choose(nm+" differs in", 4) {
	case 1:
		b.stamp = vxStamp(nm + "_t")
	case 2:
		b.bid, b.stamp = vxBlockID(nm+"_bid"), vxStamp(nm+"_t")
	case 3:
		b.pol = vx.Int32(nm + "_pol")
	}
	return b
}

// Two requests for one position, the second at any leader, with any peers answering and failing, broadcasts that
// reach all or nobody else, and a restart of any node in between.
//
//vx:opts budget=250 t.budget=500 traces=2
func VxP30_LeaderChange() {
	w := vxNewTeam(2, 3)
	a := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxStamp("a_t"), pol: -1, height: 5, round: 1}
	a.bid.Hash, a.bid.PartSetHeader.Hash, a.bid.PartSetHeader.Total = vxHash("a_hash"), vxHash("a_phash"), 1
	m1, _ := w.attempt("1st", 0, a, false, 0, 1, 2)
	if vx.Bool("restart") {
		w.again(vx.Choose("who", 3))
	}
	m2, _ := w.attempt("2nd", vx.Choose("2nd leader", 3), vxRival("b", a), true, 0, 1)
	vxNoConflict(m1, m2)
}

// Three requests: the middle one may be for another position, may fail half-way, or both.
//
//vx:opts budget=150 t.budget=600 traces=2
func VxP30_Between() {
	w := vxNewTeam(2, 3)
	a := vxMsg{step: 2, stamp: vxNano(1<<30, 1<<27), pol: -1, height: 5, round: 1}
	m1, _ := w.attempt("1st", 0, a, false, 0, 2)
	b := a
	b.bid = vxBlockID("b_bid")
	switch vx.Choose("b", 4) {
	case 1:
		b.height = int64(vx.Uint8("b_h")&0x3f) + 1
	case 2:
		b.round = int32(vx.Uint8("b_r") & 0x3f)
	case 3:
		b.step = 3
	}
	m2, _ := w.attempt("2nd", vx.Choose("2nd leader", 2), b, false, 0, 2)
	c := a
	c.bid = vxBlockID("c_bid")
	if vx.Thorough() {
		c = vxRival("c", a)
	}
	m3, _ := w.attempt("3rd", vx.Choose("3rd leader", 3), c, true, 0)
	vxNoConflict(m1, m2)
	vxNoConflict(m1, m3)
	vxNoConflict(m2, m3)
}

// Two nodes that both take themselves for the leader, asked at the same time for one position.
//
//vx:opts preempt=1 budget=60 t.budget=500 t.preempt=2 replay=engine traces=1
func VxP30_TwoLeaders() {
	c := vxNewCluster(2, 3)
	v, w := c.vxVal(0, 2), c.vxVal(1, 2)
	a := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxNano(1<<30, 1<<27), pol: -1, height: 5, round: 1}
	b := a
	b.bid.Hash, b.bid.PartSetHeader.Hash, b.bid.PartSetHeader.Total = vxHash("hash"), vxHash("phash"), 1
	if vx.Bool("other time") {
		b.stamp = vxNano(1<<30, 1<<26)
	}
	v.store.raft, w.store.raft = vxRaft(true, "", nil, v.store), vxRaft(true, "", nil, w.store)
	type res struct {
		sig, sb []byte
		err     error
	}
	ch := make(chan res, 1)
	go func() {
		s, sb, err := vxAsk(v, a)
		ch <- res{s, sb, err}
	}()
	s2, sb2, err2 := vxAsk(w, b)
	r := <-ch
	if r.err == nil {
		vx.Reach("first")
		vx.Assert(c.pub.VerifySignature(r.sb, r.sig), "the signature is valid")
	}
	if err2 == nil {
		vx.Reach("second")
		vx.Assert(c.pub.VerifySignature(sb2, s2), "the signature is valid")
	}
	vx.Assert(r.err != nil || err2 != nil, "the cluster signs no conflicting messages for one position")
}

// Many heights with one leader, two in turn or all in turn; then another request for one of those positions, at any
// node.
//
//vx:opts budget=100 t.budget=300 traces=1
func VxP30_Long() {
	w := vxNewTeam(2, 3)
	k := 8
	leaders := 1 + vx.Choose("leaders", 3)
	at := []int{0, k / 2, k - 1}[vx.Choose("which", 3)]
	var a vxMsg
	for i := 0; i < k; i++ {
		m := vxMsg{step: int8(1 + i%3), stamp: vxNano(1<<30, 1<<27+int64(i)), pol: -1, height: 5 + int64(i), round: 1}
		if i == at {
			m.stamp = vxStamp("a_t")
			m.bid.Hash, m.bid.PartSetHeader.Hash, m.bid.PartSetHeader.Total = vxHash("a_hash"), vxHash("a_phash"), 1
			a = m
		}
		w.leads(i%leaders, []int{0, 1, 2})
		sig, sb, err := vxAsk(w.vals[i%leaders], m)
		vx.Assert(err == nil && w.pub.VerifySignature(sb, sig), "a request for a new position is signed")
	}
	vx.Reach("all signed")
	vx.Quiesce()
	i := vx.Choose("last leader", 3)
	if vx.Bool("restart") {
		w.again(i)
	}
	m, _ := w.attempt("last", i, vxRival("b", a), true, 0)
	vxNoConflict(&a, m)
}
