package cmd

import (
	"os"
	"strconv"
	"sync"

	"github.com/mitchellh/go-homedir"

	"github.com/strangelove-ventures/horcrux/signer"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxHome makes a home directory without the signer running in it.
func vxHome(running bool) string {
	homedir.DisableCache = true
	d := vx.TempDir()
	vx.Assert(os.Setenv("HOME", d) == nil, "environment")
	vx.Assert(os.Setenv("PATH", d+"/bin") == nil, "environment")
	vx.Assert(os.MkdirAll(d+"/.horcrux/state", 0700) == nil && os.Mkdir(d+"/bin", 0700) == nil, "directories")
	// stand-ins for the commands that look for processes
	s := "#!/bin/sh\nexit 1\n"
	if running {
		s = "#!/bin/sh\necho 4711\n"
	}
	for _, n := range []string{"bash", "sh", "pgrep", "pidof", "ps"} {
		vx.Assert(os.WriteFile(d+"/bin/"+n, []byte(s), 0700) == nil, "stand-in")
	}
	homeDir = ""
	config = &Config{ChainID: "My-Chain 1.x_", HomeDir: d + "/.horcrux"}
	return d + "/.horcrux/state/My-Chain 1.x_"
}

// vxGiven is vxHome with the home directory given on the command line.
func vxGiven(running bool) string {
	base := vxHome(running)
	homeDir = config.HomeDir
	vx.Assert(os.Setenv("HOME", vx.TempDir()) == nil, "environment")
	return base
}

type vxPos struct {
	h, r int64
	s    int8
}

func (a vxPos) less(b vxPos) bool {
	return a.h < b.h || a.h == b.h && (a.r < b.r || a.r == b.r && a.s < b.s)
}

// vxState writes a state file with any position, with or without a signature.
func vxState(f, nm string, only string) vxPos {
	st, err := signer.LoadOrCreateSignState(f)
	vx.Assert(err == nil, "state file")
	p := vxPos{1, 1, 2}
	if only != "round" {
		p.h = vx.Int64(nm + "_h")
	}
	if only != "height" {
		p.r, p.s = vx.Int64(nm+"_r"), vx.Int8(nm+"_s")
	}
	if vx.Choose(nm+"_fresh", 2) == 1 {
		return vxPos{}
	}
	vx.Assume(vxPos{}.less(p))
	ssc := signer.NewSignStateConsensus(p.h, p.r, p.s)
	if vx.Choose(nm+"_sig", 2) == 1 {
		ssc.Signature, ssc.SignBytes = []byte("signature"), []byte("sign bytes")
		st.EphemeralPublic = []byte("ephemeral")
	}
	vx.Assert(st.Save(ssc, &sync.Mutex{}) == nil, "saved")
	return p
}

func vxText(f string) string {
	b, _ := os.ReadFile(f)
	return string(b)
}

func vxCheckState(f string, before vxPos, height int64, both bool) {
	got, err := signer.LoadSignState(f)
	vx.Assert(err == nil, "the state file is readable")
	vx.Assert(!(vxPos{got.Height, got.Round, got.Step}).less(before), "the position is at least as high as before")
	if both {
		vx.Assert(got.Height == height && got.Round == 0 && got.Step == 0, "the height is the one asked for")
		vx.Assert(len(got.Signature) == 0 && len(got.SignBytes) == 0 && len(got.EphemeralPublic) == 0, "no stale signature remains")
	}
}

var vxKinds = []string{"_priv_validator_state.json", "_share_sign_state.json"}

// Any heights in both files, any new height, with power loss anywhere in the command or when it is done.
//
//vx:opts budget=100 traces=3 replay=engine
func VxP26_Set() {
	base := vxHome(false)
	pv, share := vxState(base+vxKinds[0], "pv", "height"), vxState(base+vxKinds[1], "share", "height")
	h := vx.Int64("height")
	done := false
	vx.Crashable(func() {
		done = setStateCmd().RunE(nil, []string{strconv.FormatInt(h, 10)}) == nil
	})
	target := vxPos{h, 0, 0}
	both := done && pv.less(target) && share.less(target)
	if both {
		vx.Reach("set")
	}
	vxCheckState(base+vxKinds[0], pv, h, both)
	vxCheckState(base+vxKinds[1], share, h, both)
}

// Any positions in both files, any height, the default or a given home directory: nothing is lowered, and the command
// is carried out when nothing speaks against it.
//
//vx:opts budget=60 traces=3
func VxP26_Carried() {
	base := ""
	if vx.Choose("home", 2) == 1 {
		base = vxGiven(false)
	} else {
		base = vxHome(false)
	}
	pv, share := vxState(base+vxKinds[0], "pv", ""), vxState(base+vxKinds[1], "share", "")
	h := vx.Int64("height")
	err := setStateCmd().RunE(nil, []string{strconv.FormatInt(h, 10)})
	target := vxPos{h, 0, 0}
	vxCheckState(base+vxKinds[0], pv, h, false)
	vxCheckState(base+vxKinds[1], share, h, false)
	if pv.less(target) && share.less(target) {
		vx.Assert(err == nil, "a height above both positions is set")
		vxCheckState(base+vxKinds[0], pv, h, true)
		vxCheckState(base+vxKinds[1], share, h, true)
		vx.Reach("set")
	}
}

// While the signer runs, or when a file is missing or unreadable, or for something that is no height.
//
//vx:opts budget=60 traces=6
func VxP26_Refused() {
	running := vx.Choose("running", 2) == 1
	base := ""
	if vx.Choose("home", 2) == 1 {
		base = vxGiven(running)
	} else {
		base = vxHome(running)
	}
	vxState(base+vxKinds[0], "pv", "")
	vxState(base+vxKinds[1], "share", "")
	bad := vx.Choose("bad", 5)
	arg := "9223372036854775807"
	switch bad {
	case 1, 2:
		vx.Assert(os.Remove(base+vxKinds[bad-1]) == nil, "removed")
	case 3:
		junk := []string{"", "{", "null1", "[]"}[vx.Choose("junk", 4)]
		vx.Assert(os.WriteFile(base+vxKinds[vx.Choose("which", 2)], []byte(junk), 0600) == nil, "junk")
	case 4:
		arg = []string{"", "x", "1.5", "9223372036854775808"}[vx.Choose("arg", 4)]
	}
	if !running && bad == 0 {
		return
	}
	a, b := vxText(base+vxKinds[0]), vxText(base+vxKinds[1])
	err := setStateCmd().RunE(nil, []string{arg})
	vx.Assert(err != nil, "the command refuses")
	vx.Assert(vxText(base+vxKinds[0]) == a && vxText(base+vxKinds[1]) == b, "a refused command changes neither file")
	vx.Reach("refused")
}

// Any short text: the height is the decimal number that was given, or the command refuses.
//
//vx:opts budget=60 traces=4
func VxP26_Texts() {
	base := vxHome(false)
	for _, k := range vxKinds {
		_, err := signer.LoadOrCreateSignState(base + k)
		vx.Assert(err == nil, "state file")
	}
	max := 3
	if vx.Thorough() {
		max = 5
	}
	n := vx.Range("len", 0, max)
	arg := vx.Str("arg", n)
	i, neg := 0, false
	if n > 0 && (arg[0] == '-' || arg[0] == '+') {
		i, neg = 1, arg[0] == '-'
	}
	ok, h := i < n, int64(0)
	for ; i < n && ok; i++ {
		ok = arg[i] >= '0' && arg[i] <= '9'
		h = 10*h + int64(arg[i]-'0')
	}
	err := setStateCmd().RunE(nil, []string{arg})
	if !ok {
		vx.Reach("no height")
		vx.Assert(err != nil, "a text that is no height is refused")
		return
	}
	if neg {
		h = -h
	}
	for _, k := range vxKinds {
		got, lerr := signer.LoadSignState(base + k)
		vx.Assert(lerr == nil && (got.Height == 0 || got.Height == h), "no other height is set than the one asked for")
		if h > 0 {
			vx.Reach("height")
			vx.Assert(err == nil && got.Height == h && got.Round == 0 && got.Step == 0, "the height is the one asked for")
		}
	}
}
