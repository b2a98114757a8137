package signer

//vx:use msgs

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// Any sequence of saves, any lookup: the cache returns what was recorded at exactly that position.
//
//vx:opts budget=90 traces=4
func VxP06_Lookup() {
	st, err := LoadOrCreateSignState(vx.TempDir() + "/s.json")
	vx.Assert(err == nil, "create")
	n := 3
	if vx.Thorough() {
		n = 5
	}
	type rec struct {
		c  SignStateConsensus
		ok bool
	}
	var recs []rec
	lh, lr, ls := int64(0), int64(0), int8(0)
	for i := 0; i < n; i++ {
		c := NewSignStateConsensus(vx.Int64("h"), vx.Int64("r"), vx.Int8("s"))
		vx.Assume(c.Height >= 0)
		c.Signature = vx.Bytes("sig", 1)
		c.SignBytes = vx.Bytes("sb", 1)
		e := st.Save(c, nil)
		recs = append(recs, rec{c, e == nil})
		if e == nil {
			lh, lr, ls = c.Height, c.Round, c.Step
		}
	}
	q := HRSKey{vx.Int64("qh"), vx.Int64("qr"), vx.Int8("qs")}
	latest, got := st.GetFromCache(q, nil)
	vx.Assert(latest.Height == lh && latest.Round == lr && latest.Step == ls, "the latest position is reported")
	found := false
	var want SignStateConsensus
	for _, r := range recs {
		if r.ok && r.c.Height == q.Height && r.c.Round == q.Round && r.c.Step == q.Step {
			found = true
			want = r.c
		}
	}
	if !found {
		vx.Assert(got == nil, "nothing is returned for a position that was not recorded")
		vx.Reach("none")
		return
	}
	if q.Height >= lh-3 {
		vx.Assert(got != nil, "entries up to three heights back stay available")
		vx.Reach("kept")
	} else {
		vx.Assert(got == nil, "entries more than three heights back are dropped")
		vx.Reach("dropped")
	}
	if got != nil {
		vx.Assert(got.Height == q.Height && got.Round == q.Round && got.Step == q.Step, "the record is for the position asked")
		vx.Assert(string(got.Signature) == string(want.Signature) && string(got.SignBytes) == string(want.SignBytes),
			"the record is what was saved")
	}
}

// A state that was reloaded from its file knows the position it was saved at, also after further saves.
//
//vx:opts budget=60 traces=4
func VxP06_Reloaded() {
	f := vx.TempDir() + "/s.json"
	st, err := LoadOrCreateSignState(f)
	vx.Assert(err == nil, "create")
	at := func(i int) SignStateConsensus {
		c := NewSignStateConsensus(int64(vx.Uint8("h")), int64(vx.Uint8("r")), int8(vx.Range("s", 1, 3)))
		c.Signature = vx.Bytes("sig", 2)
		c.SignBytes = vx.Bytes("sb", 1+vx.Choose("len", 2))
		return c
	}
	n := 2
	if vx.Thorough() {
		n = 3
	}
	first := at(0)
	vx.Assume(first.Height > 0)
	vx.Assert(st.Save(first, nil) == nil, "saved")
	st, err = LoadSignState(f)
	vx.Assert(err == nil, "reloaded")
	recs := []SignStateConsensus{first}
	var copies [][2]string
	note := func(c SignStateConsensus) {
		copies = append(copies, [2]string{string(c.Signature), string(c.SignBytes)})
	}
	note(first)
	for i := 1; i < n; i++ {
		c := at(i)
		if st.Save(c, nil) == nil {
			recs = append(recs, c)
			note(c)
		}
	}
	last := recs[len(recs)-1]
	for i, c := range recs {
		latest, got := st.GetFromCache(HRSKey{c.Height, c.Round, c.Step}, nil)
		vx.Assert(latest.Height == last.Height && latest.Round == last.Round && latest.Step == last.Step, "the latest position is reported")
		vx.Assert((got != nil) == (c.Height >= last.Height-3), "the records of recent heights stay available, older ones do not")
		if got != nil {
			vx.Reach("kept")
			vx.Assert(string(got.Signature) == copies[i][0] && string(got.SignBytes) == copies[i][1] &&
				got.Height == c.Height && got.Round == c.Round && got.Step == c.Step, "the record is what was saved")
		}
	}
}

// Many signatures at a few heights: each of them is kept as long as its height is recent.
//
//vx:opts budget=60 traces=2
func VxP06_Many() {
	st, err := LoadOrCreateSignState(vx.TempDir() + "/state.json")
	vx.Assert(err == nil, "sign state")
	base := vx.Int64("base")
	vx.Assume(base > 4 && base < 1<<60)
	type pos struct {
		h, r int64
		s    int8
	}
	var all []pos
	for h := int64(0); h < 6; h++ {
		for r := int64(0); r < 12; r++ {
			for s := int8(1); s <= 3; s++ {
				all = append(all, pos{base + h, r, s})
			}
		}
	}
	for i, p := range all {
		c := NewSignStateConsensus(p.h, p.r, p.s)
		c.Signature, c.SignBytes = []byte{byte(i)}, []byte{1, byte(i)}
		vx.Assert(st.Save(c, nil) == nil, "saved")
		if i%50 == 49 {
			vxKeeps(&st, p.h, func(j int) HRSKey { return HRSKey{all[j].h, all[j].r, all[j].s} }, i+1)
		}
	}
	vxKeeps(&st, base+5, func(j int) HRSKey { return HRSKey{all[j].h, all[j].r, all[j].s} }, len(all))
	vx.Reach("all kept")
}

func vxKeeps(st *SignState, h int64, key func(int) HRSKey, n int) {
	for j := 0; j < n; j++ {
		k := key(j)
		_, got := st.GetFromCache(k, nil)
		if k.Height < h-3 {
			vx.Assert(got == nil, "entries more than three heights back are dropped")
			continue
		}
		vx.Assert(got != nil, "entries up to three heights back stay available")
		vx.Assert(got == nil || len(got.Signature) == 1 && got.Signature[0] == byte(j) && got.SignBytes[1] == byte(j), "the record is what was saved")
	}
}
