package signer

//vx:use msgs cluster net

import (
	"os"
	"sync"

	"github.com/hashicorp/raft"
	vx "github.com/strangelove-ventures/horcrux/zzvx"
	"github.com/tendermint/tendermint/libs/log"
)

// vxAtLeast reports whether the state file holds a position at least as high as (h, r, s).
func vxAtLeast(f string, h, r int64, s int8) bool {
	got, err := LoadSignState(f)
	return err == nil && !vxLess(got.Height, got.Round, got.Step, h, r, s)
}

// The file is up to date the moment a save reports success, through every way a position is recorded.
//
//vx:opts budget=60 traces=3 replay=engine
func VxP04_DurableOnReturn() {
	c := vxNewCluster(2, 2)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxStamp("t"), bid: vxBlockID("b"), pol: -1}
	m.height, m.round = vxPos("p")
	vx.Assume(m.height > 0 && m.round >= 0)
	h, r, s := m.height, int64(m.round), m.step
	sb := m.signBytes(vxChain)
	ssc := NewSignStateConsensus(h, r, s)
	ssc.Signature, ssc.SignBytes = vx.Bytes("sig", 2), sb
	f := vx.TempDir() + "/pv.json"
	pvs, err := LoadOrCreateSignState(f)
	vx.Assert(err == nil, "sign state")
	switch vx.Choose("how", 4) {
	case 0:
		vx.Assert(pvs.Save(ssc, &sync.Mutex{}) == nil, "a higher position is saved")
		vx.Assert(vxAtLeast(f, h, r, s), "a successful save is on disk when it returns")
	case 1:
		res, err := c.sign(m.hrst(), sb, []int{0, 1}, 0)
		vx.Assert(err == nil && len(res.Signature) > 0, "the request is signed")
		vx.Assert(vxAtLeast(c.files[0], h, r, s), "the watermark is on disk when a share is returned")
	case 2:
		vx.Assert(c.cosigners[0].SaveLastSignedState(ssc) == nil, "a higher position is learned")
		vx.Assert(vxAtLeast(c.files[0], h, r, s), "a learned watermark is on disk when saving returns")
	case 3:
		pv := NewThresholdValidator(&ThresholdValidatorOpt{Pubkey: c.pub, Threshold: 2, SignState: pvs,
			Cosigner: c.cosigners[0], Logger: log.NewNopLogger()})
		st := vxStore(c.cosigners[0], "")
		st.SetThresholdValidator(pv)
		vx.Assert(vxApply(st, ssc), "the event is applied")
		vx.Assert(vxAtLeast(f, h, r, s), "the validator watermark is on disk when a broadcast has been applied")
		vx.Assert(vxAtLeast(c.files[0], h, r, s), "the share watermark is on disk when a broadcast has been applied")
	}
	vx.Reach("done")
}

// vxApply applies a broadcast position the way raft does on every replica: the leader's Emit runs through a
// raft node whose log reaches st.
func vxApply(st *RaftStore, ssc SignStateConsensus) bool {
	l := vxStore(nil, "")
	l.raft = vxRaft(true, "", nil, st)
	return l.Emit(raftEventLSS, ssc) == nil
}

var _ raft.FSM

// Saves racing with each other never leave the file behind what any of them reported.
//
//vx:opts budget=90 preempt=2 t.preempt=3 replay=engine traces=0
func VxP04_ConcurrentSaves() {
	f := vx.TempDir() + "/s.json"
	st, err := LoadOrCreateSignState(f)
	vx.Assert(err == nil, "sign state")
	n := 2
	if vx.Thorough() {
		n = 3
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	wg.Add(n)
	max := int64(0)
	var mm sync.Mutex
	for i := 0; i < n; i++ {
		h := int64(vx.Uint8("h"))
		go func() {
			defer wg.Done()
			if st.Save(NewSignStateConsensus(h, 0, 1), &mu) == nil {
				vx.Assert(vxAtLeast(f, h, 0, 1), "a successful save is on disk when it returns, whatever else is saved")
				mm.Lock()
				if h > max {
					max = h
				}
				mm.Unlock()
			}
		}()
	}
	wg.Wait()
	vx.Quiesce()
	got, err := LoadSignState(f)
	vx.Assert(err == nil && (max == 0 || got.Height == max), "the file ends at the highest saved position")
	vx.Reach("done")
}

// The process may die at any file operation of two successive signatures: after a restart the state file is
// readable and not below any signature that was given out, and the restarted cosigner refuses to contradict it.
//
//vx:opts budget=120 replay=engine traces=0
func VxP04_CrashRestart() {
	c := vxNewCluster(2, 2)
	a := vxMsg{step: int8(vx.Range("a_step", 1, 3)), stamp: vxStamp("a_t"), bid: vxBlockID("a_b"), pol: -1}
	a.height, a.round = int64(vx.Uint32("a_h")), int32(vx.Uint8("a_r"))
	vx.Assume(a.height > 0)
	b := vxMsg{step: int8(vx.Range("b_step", 1, 3)), stamp: vxStamp("b_t"), bid: vxBlockID("b_b"), pol: -1}
	b.height, b.round = int64(vx.Uint32("b_h")), int32(vx.Uint8("b_r"))
	given := 0
	crashed := vx.Crashable(func() {
		if _, err := c.sign(a.hrst(), a.signBytes(vxChain), []int{0, 1}, 0); err == nil {
			given = 1
		}
		if _, err := c.sign(b.hrst(), b.signBytes(vxChain), []int{0, 1}, 0); err == nil && given == 1 {
			given = 2
		}
	})
	st, err := LoadSignState(c.files[0])
	vx.Assert(err == nil, "the state file is readable after a crash")
	if given >= 1 {
		vx.Reach("given")
		vx.Assert(!vxLess(st.Height, st.Round, st.Step, a.height, int64(a.round), a.step), "a signature given out before a crash is remembered")
	}
	if given >= 2 {
		vx.Assert(!vxLess(st.Height, st.Round, st.Step, b.height, int64(b.round), b.step), "a signature given out before a crash is remembered")
	}
	if crashed {
		vx.Reach("crashed")
	}
}

// Replacing the file is atomic: a reader that opened the old version keeps reading the complete old version.
//
//vx:opts budget=60 traces=2
func VxP04_AtomicReplace() {
	d := vx.TempDir()
	f := d + "/s.json"
	st, err := LoadOrCreateSignState(f)
	vx.Assert(err == nil, "sign state")
	h := int64(vx.Uint8("h")) + 1
	vx.Assert(st.Save(NewSignStateConsensus(h, 1, 2), nil) == nil, "saved")
	vx.Assert(os.Link(f, d+"/old.json") == nil, "link")
	vx.Assert(st.Save(NewSignStateConsensus(h+1, 0, 1), nil) == nil, "saved")
	old, err := LoadSignState(d + "/old.json")
	vx.Assert(err == nil && old.Height == h && old.Round == 1 && old.Step == 2, "a save never writes into the previous version of the file")
	cur, err := LoadSignState(f)
	vx.Assert(err == nil && cur.Height == h+1, "the new version is in place")
}

// A save that cannot reach the disk is no success: nothing is reported as saved, signed or applied.
//
//vx:opts budget=60 traces=2
func VxP04_NoDisk() {
	d := vx.TempDir() + "/state"
	vx.Assert(os.Mkdir(d, 0700) == nil, "mkdir")
	c := vxNewCluster(2, 2)
	f := d + "/s.json"
	st, err := LoadOrCreateSignState(f)
	vx.Assert(err == nil, "sign state")
	h := int64(vx.Uint8("h")) + 2
	if vx.Bool("saved before") {
		vx.Assert(st.Save(NewSignStateConsensus(h-1, 1, 2), nil) == nil, "saved")
	}
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), height: h, round: 1, stamp: vxStamp("t"), bid: vxBlockID("b"), pol: -1}
	own := c.cosigners[0]
	k := m.hrst()
	_, err = own.GetEphemeralSecretParts(k)
	vx.Assert(err == nil, "own parts")
	parts := c.parts(k, []int{1}, 0)
	own.lastSignState = &st
	vx.Assert(os.RemoveAll(d) == nil, "the directory goes away")
	switch vx.Choose("after", 3) {
	case 1:
		vx.Assert(os.WriteFile(d, nil, 0600) == nil, "a file is in its place")
	case 2:
		vx.Assert(os.MkdirAll(f+"/x", 0700) == nil, "a directory is in the place of the file")
	}
	ssc := NewSignStateConsensus(h, 1, m.step)
	ssc.Signature, ssc.SignBytes = []byte("s"), m.signBytes(vxChain)
	how := vx.Choose("how", 3)
	done := false
	vxSurvive(func() {
		switch how {
		case 0:
			done = st.Save(ssc, nil) == nil
		case 1:
			done = own.SaveLastSignedState(ssc) == nil
		case 2:
			res, err := own.SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
				EncryptedSecrets: parts, HRST: k, SignBytes: ssc.SignBytes})
			done = err == nil && len(res.Signature) > 0
		}
	})
	vx.Assert(!done || vxAtLeast(f, h, 1, m.step), "a save that did not reach the disk is no success")
	vx.Reach("done")
}

// vxSurvive runs f, which may panic.
func vxSurvive(f func()) {
	defer func() { _ = recover() }()
	f()
}
