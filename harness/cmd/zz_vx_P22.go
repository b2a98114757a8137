package cmd

import (
	"os"
	"strconv"

	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/privval"

	"github.com/strangelove-ventures/horcrux/signer"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxCount is a number as typed on the command line: any short text, or one of some longer ones.
func vxCount(nm string) string {
	switch n := vx.Choose(nm+" text", 10); n {
	case 0, 1, 2:
		return vx.Str(nm, n)
	default:
		return []string{"256", "258", "65538", "-1", "4294967298", "18446744073709551618", "2.0"}[n-3]
	}
}

// Any threshold and share count typed on the command line, in a directory that may hold an older sharing: exactly the
// files of the sharing are written, or none.
//
//vx:opts budget=100 traces=2 tries=3
func VxP22_Command() {
	dir := vx.TempDir()
	old, err := os.Getwd()
	vx.Assert(err == nil && os.Chdir(dir) == nil, "directory")
	defer func() { _ = os.Chdir(old) }()
	k := tmCryptoEd25519.GenPrivKey()
	pub := k.PubKey().(tmCryptoEd25519.PubKey)
	privval.NewFilePV(k, dir+"/key.json", dir+"/state.json").Key.Save()
	again := vx.Bool("older sharing")
	cmd := CreateCosignerSharesCmd()
	run := func(args ...string) error {
		if err := cmd.Args(cmd, args); err != nil {
			return err
		}
		return cmd.RunE(cmd, args)
	}
	if again {
		o := tmCryptoEd25519.GenPrivKey()
		privval.NewFilePV(o, dir+"/old.json", dir+"/state.json").Key.Save()
		vx.Assert(run(dir+"/old.json", "2", "2") == nil, "older sharing")
	}
	ts, ns := vxCount("t"), vxCount("n")
	// at most three shares are made
	vx.Assume(len(ns) != 2 || ns[0] < '1' || ns[0] > '9' || ns[1] < '0' || ns[1] > '9')
	vx.Assume(len(ns) != 2 || ns[0] != '+' || ns[1] < '4')
	vx.Assume(len(ns) != 1 || ns[0] < '4' || ns[0] > '9')
	err = run(dir+"/key.json", ts, ns)
	t, errT := strconv.ParseInt(ts, 10, 64)
	n, errN := strconv.ParseInt(ns, 10, 64)
	possible := errT == nil && errN == nil && 0 < t && t <= n && n < 256
	vx.Assert((err == nil) == possible, "exactly the possible sharings are made")
	if err != nil {
		vx.Reach("refused")
		for i, f := range []string{"private_share_0.json", "private_share_1.json", "private_share_2.json", "private_share_3.json"} {
			_, e := os.Stat(f)
			vx.Assert((e == nil) == (again && (i == 1 || i == 2)), "no file is written with an error")
		}
		return
	}
	vx.Reach("made")
	var keys []signer.CosignerKey
	for i := 1; i <= int(n); i++ {
		key, err := signer.LoadCosignerKey("private_share_" + strconv.Itoa(i) + ".json")
		vx.Assert(err == nil, "every share has its file")
		keys = append(keys, key)
	}
	_, err = os.Stat("private_share_" + strconv.Itoa(len(keys)+1) + ".json")
	vx.Assert(os.IsNotExist(err) || again && n == 1, "no other share has a file")
	signer.VxhSharing(pub, keys, int(t))
}
