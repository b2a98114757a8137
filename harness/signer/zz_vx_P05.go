package signer

//vx:use msgs

import (
	"os"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

func vxFillState(st *SignState, withSig bool) {
	st.Height, st.Round, st.Step = vx.Int64("h"), vx.Int64("r"), vx.Int8("s")
	if withSig {
		st.Signature = vx.Bytes("sig", vx.Range("nsig", 1, 3))
		st.SignBytes = vx.Bytes("sb", vx.Range("nsb", 1, 3))
		st.EphemeralPublic = vx.Bytes("eph", vx.Range("neph", 0, 2))
	}
}

// A state saved through Save is reloaded with all fields, and recognises its own position.
//
//vx:opts budget=60 traces=3
func VxP05_SaveThenLoad() {
	f := vx.TempDir() + "/state.json"
	st, err := LoadOrCreateSignState(f)
	vx.Assert(err == nil, "creating an empty state succeeds")
	c := NewSignStateConsensus(vx.Int64("h"), vx.Int64("r"), vx.Int8("s"))
	vx.Assume(vxLess(0, 0, 0, c.Height, c.Round, c.Step))
	if vx.Choose("withSig", 2) == 1 {
		c.Signature = vx.Bytes("sig", vx.Range("nsig", 1, 3))
		c.SignBytes = vx.Bytes("sb", vx.Range("nsb", 1, 3))
		st.EphemeralPublic = vx.Bytes("eph", vx.Range("neph", 0, 2))
	}
	eph := string(st.EphemeralPublic)
	vx.Assert(st.Save(c, nil) == nil, "a higher position is saved")
	vx.Quiesce()
	for _, how := range []int{0, 1} {
		var got SignState
		if how == 0 {
			got, err = LoadSignState(f)
		} else {
			got, err = LoadOrCreateSignState(f)
		}
		vx.Assert(err == nil, "a written state loads")
		vx.Assert(got.Height == c.Height && got.Round == c.Round && got.Step == c.Step, "reloaded position")
		vx.Assert(string(got.Signature) == string(c.Signature), "reloaded signature")
		vx.Assert(string(got.SignBytes) == string(c.SignBytes), "reloaded sign bytes")
		vx.Assert((got.SignBytes == nil) == (c.SignBytes == nil), "reloaded sign bytes are present exactly if written")
		vx.Assert(string(got.EphemeralPublic) == eph, "reloaded ephemeral key")
		_, ssc := got.GetFromCache(HRSKey{c.Height, c.Round, c.Step}, nil)
		vx.Assert(ssc != nil && string(ssc.Signature) == string(c.Signature) && string(ssc.SignBytes) == string(c.SignBytes),
			"the reloaded state recognises the signature at its position")
		vx.Assert(got.Save(NewSignStateConsensus(c.Height, c.Round, c.Step), nil) != nil, "the reloaded state refuses its own position")
		if how == 0 || c.Height >= 1<<62 {
			continue
		}
		// the reloaded state continues to persist to the same file
		vx.Reach("continue")
		n := NewSignStateConsensus(c.Height+1, 0, 1)
		n.Signature, n.SignBytes = []byte("xx"), []byte("yy")
		vx.Assert(got.Save(n, nil) == nil, "the reloaded state accepts a higher position")
		vx.Quiesce()
		again, err := LoadSignState(f)
		vx.Assert(err == nil && again.Height == c.Height+1 && again.Step == 1 && string(again.Signature) == "xx",
			"what the reloaded state saves is loaded next time")
	}
}

// Missing, unreadable or malformed files make loading fail; load-or-create then starts from zero, and
// never replaces a readable state.
//
//vx:opts budget=60 traces=6
func VxP05_BadFiles() {
	dir := vx.TempDir()
	f := dir + "/state.json"
	kind := vx.Choose("kind", 8)
	ok := false
	// the file may have been written by a signer before
	if n := vx.Range("saves", 0, 2); n > 0 {
		st, err := LoadOrCreateSignState(f)
		vx.Assert(err == nil, "creating an empty state succeeds")
		for i := 1; i <= n; i++ {
			c := NewSignStateConsensus(int64(10*i), 1, 2)
			c.Signature, c.SignBytes = []byte("xx"), []byte("yy")
			vx.Assert(st.Save(c, nil) == nil, "a higher position is saved")
		}
		vx.Quiesce()
		if kind < 2 {
			vx.Assert(os.Remove(f) == nil, "remove")
		}
	}
	switch kind {
	case 0: // missing
	case 1:
		vx.Assert(os.Mkdir(f, 0700) == nil, "mkdir") // unreadable as a file
	case 2:
		vx.Assert(os.WriteFile(f, []byte(""), 0600) == nil, "write")
	case 3:
		vx.Assert(os.WriteFile(f, []byte("{\"height\": \"12\", \"rou"), 0600) == nil, "write")
	case 4:
		vx.Assert(os.WriteFile(f, []byte("{\"height\": [1], \"round\": \"2\", \"step\": 3}"), 0600) == nil, "write")
	case 5:
		vx.Assert(os.WriteFile(f, []byte("{\"height\": \"12x\", \"round\": \"2\", \"step\": 3}"), 0600) == nil, "write")
	case 6:
		vx.Assert(os.WriteFile(f, []byte("{\"height\": \"12\", \"round\": \"2\", \"step\": 300}"), 0600) == nil, "write")
	case 7:
		vx.Assert(os.WriteFile(f, []byte("{\"height\": \"12\", \"round\": \"7\", \"step\": 3, \"ephemeral_public\": null}"), 0600) == nil, "write")
		ok = true
	}
	_, err := LoadSignState(f)
	vx.Assert((err == nil) == ok, "loading succeeds exactly for a well-formed file")
	vx.Obs("err", err == nil)
	if kind == 1 {
		return // nothing can be created there
	}
	st, err := LoadOrCreateSignState(f)
	vx.Assert(err == nil, "load-or-create gives a state")
	if ok {
		vx.Assert(st.Height == 12 && st.Round == 7 && st.Step == 3, "load-or-create keeps a readable state")
	} else {
		vx.Assert(st.Height == 0 && st.Round == 0 && st.Step == 0 && st.Signature == nil && st.SignBytes == nil,
			"load-or-create otherwise starts from zero")
	}
	again, err := LoadSignState(f)
	vx.Assert(err == nil && again.Height == st.Height && again.Round == st.Round && again.Step == st.Step,
		"the file exists afterwards and holds the state")
	vx.Reach("done")
}
