package signer

import (
	"errors"
	"sync"
	"time"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	"github.com/tendermint/tendermint/crypto"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

// vxInner is a private validator that counts how many requests are inside it.
type vxInner struct {
	mu      sync.Mutex
	inside  int
	calls   int
	kinds   [3]int
	key     crypto.PubKey
	slow    time.Duration
	outcome func(string) int // 0 ok, 1 error, 2 panic
}

var vxErrInner = errors.New("inner says no")

func (p *vxInner) enter(what string, kind int) error {
	p.mu.Lock()
	p.inside++
	p.calls++
	p.kinds[kind]++
	n := p.inside
	p.mu.Unlock()
	vx.Assert(n == 1, "at most one request is inside the private validator")
	defer func() {
		p.mu.Lock()
		p.inside--
		p.mu.Unlock()
	}()
	// others may run here
	if p.slow != 0 {
		time.Sleep(p.slow)
	}
	p.mu.Lock()
	n = p.inside
	p.mu.Unlock()
	vx.Assert(n == 1, "at most one request is inside the private validator")
	switch p.outcome(what) {
	case 1:
		return vxErrInner
	case 2:
		panic("inner panics")
	}
	return nil
}

func (p *vxInner) GetPubKey() (crypto.PubKey, error) {
	if err := p.enter("key", 0); err != nil {
		return nil, err
	}
	return p.key, nil
}

func (p *vxInner) SignVote(chainID string, v *tmProto.Vote) error {
	if err := p.enter("vote", 1); err != nil {
		return err
	}
	v.Signature = append([]byte(chainID), byte(v.Round))
	return nil
}

func (p *vxInner) SignProposal(chainID string, v *tmProto.Proposal) error {
	if err := p.enter("proposal", 2); err != nil {
		return err
	}
	v.Signature = append([]byte(chainID), byte(v.Round), 1)
	return nil
}

// Any mix of concurrent requests, each succeeding, failing or panicking inside.
//
//vx:opts preempt=2 t.preempt=3 race replay=engine traces=1 budget=60 t.budget=300 allsched
func VxP21_Serial() {
	outs := map[int]int{}
	var om sync.Mutex
	in := &vxInner{key: tmCryptoEd25519.PubKey(make([]byte, 32))}
	n := 2
	if vx.Thorough() {
		n = 3
	}
	type call struct{ kind, out int }
	var cs []call
	for i := 0; i < n; i++ {
		cs = append(cs, call{vx.Choose("kind", 3), vx.Choose("outcome", 3)})
		outs[i] = cs[i].out
	}
	// outcomes are tied to kinds of requests: the last chosen one of a kind counts
	byKind := map[string]int{}
	for _, c := range cs {
		byKind[[]string{"key", "vote", "proposal"}[c.kind]] = c.out
	}
	in.outcome = func(k string) int {
		om.Lock()
		defer om.Unlock()
		return byKind[k]
	}
	pv := &PvGuard{PrivValidator: in}
	chain := vx.Str("chain", 2)
	var wg sync.WaitGroup
	wg.Add(n)
	done := 0
	for i, c := range cs {
		i, c := i, c
		r := vx.Uint8("round")
		go func() {
			defer wg.Done()
			out := byKind[[]string{"key", "vote", "proposal"}[c.kind]]
			pan := func() (pan bool) {
				defer func() {
					if recover() != nil {
						pan = true
					}
				}()
				switch c.kind {
				case 0:
					k, err := pv.GetPubKey()
					vx.Assert((err != nil) == (out == 1), "the caller gets the outcome of its request")
					vx.Assert(err != nil || string(k.Bytes()) == string(in.key.Bytes()), "the caller gets the key")
				case 1:
					v := &tmProto.Vote{Round: int32(r)}
					err := pv.SignVote(chain, v)
					vx.Assert((err == vxErrInner) == (out == 1) && (err == nil) == (out != 1), "the caller gets the outcome of its request")
					if err == nil {
						vx.Assert(string(v.Signature) == string(append([]byte(chain), r)), "the caller gets the signature of its own vote")
					} else {
						vx.Assert(len(v.Signature) == 0, "no signature with an error")
					}
				case 2:
					v := &tmProto.Proposal{Round: int32(r)}
					err := pv.SignProposal(chain, v)
					vx.Assert((err == vxErrInner) == (out == 1) && (err == nil) == (out != 1), "the caller gets the outcome of its request")
					if err == nil {
						vx.Assert(string(v.Signature) == string(append([]byte(chain), r, 1)), "the caller gets the signature of its own proposal")
					}
				}
				return false
			}()
			vx.Assert(pan == (out == 2), "a panic reaches the caller")
			in.mu.Lock()
			done++
			in.mu.Unlock()
			_ = i
		}()
	}
	wg.Wait()
	vx.Assert(done == n && in.calls == n, "every request reaches the validator once")
	vx.Reach("all served")
	// the guard is free again
	in.outcome = func(string) int { return 0 }
	_, err := pv.GetPubKey()
	vx.Assert(err == nil, "the guard is released after every outcome")
}

// Many callers at once, and many requests one after the other, with failures and panics among them.
//
//vx:opts preempt=1 race replay=engine traces=1 budget=60 t.budget=200
func VxP21_Many() {
	in := &vxInner{key: tmCryptoEd25519.PubKey(make([]byte, 32))}
	n, each := 5, 6
	if vx.Choose("in turn", 2) == 1 {
		n, each = 1, 24
	}
	bad := 1 + vx.Choose("bad is", 2)
	in.outcome = func(k string) int {
		if k == "vote" {
			return bad
		}
		return 0
	}
	pv := &PvGuard{PrivValidator: in}
	chain := vx.Str("chain", 2)
	r := vx.Uint8("round")
	var wg sync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			defer wg.Done()
			for j := 0; j < each; j++ {
				switch (i + j) % 3 {
				case 0:
					k, err := pv.GetPubKey()
					vx.Assert(err == nil && string(k.Bytes()) == string(in.key.Bytes()), "the caller gets the key")
				case 1:
					func() {
						defer func() {
							vx.Assert((recover() != nil) == (bad == 2), "a panic reaches the caller")
						}()
						err := pv.SignVote(chain, &tmProto.Vote{Round: int32(r)})
						vx.Assert((err == vxErrInner) == (bad == 1), "the caller gets the outcome of its request")
					}()
				case 2:
					v := &tmProto.Proposal{Round: int32(r)}
					err := pv.SignProposal(chain, v)
					vx.Assert(err == nil && string(v.Signature) == string(append([]byte(chain), r, 1)), "the caller gets the signature of its own proposal")
				}
			}
		}()
	}
	wg.Wait()
	vx.Assert(in.calls == n*each, "every request reaches the validator once")
	vx.Reach("all served")
}

// Requests that take long: those after them wait for as long as it takes, and get their own outcome.
//
//vx:opts preempt=1 race replay=engine traces=1 budget=60 t.budget=120
func VxP21_Slow() {
	in := &vxInner{key: tmCryptoEd25519.PubKey(make([]byte, 32)), slow: 24 * time.Hour}
	in.outcome = func(k string) int { return 0 }
	pv := &PvGuard{PrivValidator: in}
	chain := vx.Str("chain", 2)
	n := 3
	var wg sync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		kind, r := vx.Choose("kind", 3), vx.Uint8("round")
		go func() {
			defer wg.Done()
			switch kind {
			case 0:
				k, err := pv.GetPubKey()
				vx.Assert(err == nil && string(k.Bytes()) == string(in.key.Bytes()), "the caller gets the key")
			case 1:
				v := &tmProto.Vote{Round: int32(r)}
				err := pv.SignVote(chain, v)
				vx.Assert(err == nil && string(v.Signature) == string(append([]byte(chain), r)), "the caller gets the signature of its own vote")
			case 2:
				v := &tmProto.Proposal{Round: int32(r)}
				err := pv.SignProposal(chain, v)
				vx.Assert(err == nil && string(v.Signature) == string(append([]byte(chain), r, 1)), "the caller gets the signature of its own proposal")
			}
		}()
	}
	wg.Wait()
	vx.Assert(in.calls == n, "every request reaches the validator once")
	vx.Reach("all served")
}
