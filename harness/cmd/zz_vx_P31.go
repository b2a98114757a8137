package cmd

import (
	"strconv"

	"github.com/strangelove-ventures/horcrux/signer"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// Any member asked on the command line, whichever one leads: the leader gets the request as it was typed.
//
//vx:opts budget=60 traces=2
func VxP31_Elect() {
	n := 2 + vx.Choose("members", 2)
	lead := vx.Choose("leader", n)
	addrs, got := signer.VxhElectors(n, lead)
	me := vx.Choose("at", n)
	cc := &CosignerConfig{Threshold: n, Shares: n, P2PListen: addrs[me], Timeout: "1000ms"}
	for k := 1; k < n; k++ {
		j := (me + k) % n
		cc.Peers = append(cc.Peers, CosignerPeer{ShareID: j + 1, P2PAddr: addrs[j]})
	}
	config = &Config{ChainID: "My-Chain 1.x_", CosignerConfig: cc}
	var args []string
	want := strconv.Itoa(lead) + " "
	if l := vx.Choose("to", 4); l > 0 {
		args = []string{vx.Str("name", l)}
		for i := range args[0] {
			vx.Assume(args[0][i] < 0x80)
		}
		want += args[0]
	}
	err := leaderElectionCmd.RunE(leaderElectionCmd, args)
	vx.Assert(err == nil, "the request is served")
	vx.Assert(len(*got) == 1 && (*got)[0] == want, "exactly the leader is asked, exactly for the cosigner that was named")
	vx.Reach("asked")
}
