package cmd

func vxSameConfig(a, b *Config) bool {
	if a.HomeDir != b.HomeDir || a.PrivValKeyFile != b.PrivValKeyFile || a.ChainID != b.ChainID || len(a.ChainNodes) != len(b.ChainNodes) {
		return false
	}
	for i := range a.ChainNodes {
		if a.ChainNodes[i] != b.ChainNodes[i] {
			return false
		}
	}
	x, y := a.CosignerConfig, b.CosignerConfig
	if x == nil || y == nil {
		return x == y
	}
	if x.Threshold != y.Threshold || x.Shares != y.Shares || x.P2PListen != y.P2PListen || x.Timeout != y.Timeout || len(x.Peers) != len(y.Peers) {
		return false
	}
	for i := range x.Peers {
		if x.Peers[i] != y.Peers[i] {
			return false
		}
	}
	return true
}
