package signer

//vx:use msgs

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// Every pair of watermark and candidate: Save accepts exactly the strictly higher ones, and the
// state afterwards is the accepted record or the old one.
//
//vx:opts budget=60 traces=4
func VxP03_SaveAcceptsOnlyHigher() {
	dir := vx.TempDir()
	st, err := LoadOrCreateSignState(dir + "/s.json")
	vx.Assert(err == nil, "creating an empty state succeeds")
	st.Height, st.Round, st.Step = vx.Int64("h0"), vx.Int64("r0"), vx.Int8("s0")
	st.Signature = vx.Bytes("sig0", 2)
	st.SignBytes = vx.Bytes("sb0", 2)
	if vx.Bool("unsigned0") { // as after a migration or "state set"
		st.Signature, st.SignBytes = nil, nil
	}
	oh, or, os := st.Height, st.Round, st.Step
	osig, osb := string(st.Signature), string(st.SignBytes)
	c := NewSignStateConsensus(vx.Int64("h"), vx.Int64("r"), vx.Int8("s"))
	c.Signature = vx.Bytes("sig", 2)
	c.SignBytes = vx.Bytes("sb", 2)
	if vx.Bool("unsigned") {
		c.Signature, c.SignBytes = nil, nil
	}
	want := vxLess(oh, or, os, c.Height, c.Round, c.Step)
	e := st.Save(c, nil)
	vx.Quiesce()
	vx.Assert((e == nil) == want, "Save accepts exactly strictly higher positions")
	vx.Obs("accepted", e == nil)
	if e == nil {
		vx.Reach("accepted")
		vx.Assert(st.Height == c.Height && st.Round == c.Round && st.Step == c.Step, "accepted position becomes the watermark")
		vx.Assert(string(st.Signature) == string(c.Signature) && string(st.SignBytes) == string(c.SignBytes), "accepted record is kept whole")
	} else {
		vx.Reach("rejected")
		vx.Assert(st.Height == oh && st.Round == or && st.Step == os, "a rejected position leaves the watermark")
		vx.Assert(string(st.Signature) == osig && string(st.SignBytes) == osb, "a rejected position leaves the record")
		_, same := e.(*SameHRSError)
		vx.Assert(same == (c.Height == oh && c.Round == or && c.Step == os), "the error tells whether the position was equal")
	}
}

type vxRec struct {
	h, r    int64
	s       int8
	sig, sb string
}

func vxSaveAny(st *SignState, n string) (vxRec, error) {
	c := NewSignStateConsensus(vx.Int64(n+"_h"), vx.Int64(n+"_r"), vx.Int8(n+"_s"))
	c.Signature, c.SignBytes = vx.Bytes(n+"_sig", 2), vx.Bytes(n+"_sb", 2)
	if vx.Bool(n + "_unsigned") {
		c.Signature, c.SignBytes = nil, nil
	}
	r := vxRec{c.Height, c.Round, c.Step, string(c.Signature), string(c.SignBytes)}
	return r, st.Save(c, nil)
}

// A state that holds what it accepted before, in memory, in its file and in its record of recent signatures,
// still holds exactly that after a rejected save. The first save is made by this process or by an earlier one.
//
//vx:opts budget=60 traces=4
func VxP03_RejectedSaveChangesNothing() {
	file := vx.TempDir() + "/s.json"
	st, err := LoadOrCreateSignState(file)
	vx.Assert(err == nil, "creating an empty state succeeds")
	a, e := vxSaveAny(&st, "a")
	vx.Assume(e == nil)
	if vx.Bool("restart") {
		vx.Quiesce()
		st, err = LoadSignState(file)
		vx.Assert(err == nil, "the state is readable")
	}
	b, e := vxSaveAny(&st, "b")
	last := a
	if e == nil {
		last = b
	}
	vx.Obs("accepted", e == nil)
	vx.Quiesce()
	vx.Assert((e == nil) == vxLess(a.h, a.r, a.s, b.h, b.r, b.s), "Save accepts exactly strictly higher positions")
	disk, err := LoadSignState(file)
	vx.Assert(err == nil, "the state is readable")
	for _, s := range []*SignState{&st, &disk} {
		vx.Assert(s.Height == last.h && s.Round == last.r && s.Step == last.s &&
			string(s.Signature) == last.sig && string(s.SignBytes) == last.sb, "the state and its file hold the last accepted record")
		pos, rec := s.GetFromCache(HRSKey{Height: last.h, Round: last.r, Step: last.s}, nil)
		vx.Assert(pos.Height == last.h && pos.Round == last.r && pos.Step == last.s, "the latest position is the last accepted one")
		vx.Assert(rec != nil && string(rec.Signature) == last.sig && string(rec.SignBytes) == last.sb, "the signature on record is the last accepted one")
	}
	if e != nil {
		vx.Reach("rejected")
		if b.h != a.h || b.r != a.r || b.s != a.s {
			_, rec := st.GetFromCache(HRSKey{Height: b.h, Round: b.r, Step: b.s}, nil)
			vx.Assert(rec == nil || b.h == 0 && b.r == 0 && b.s == 0, "a rejected position is not on record")
		}
	} else {
		vx.Reach("accepted")
	}
}
