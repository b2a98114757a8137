package signer

import (
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/libs/log"
	tmService "github.com/tendermint/tendermint/libs/service"
	tmP2pConn "github.com/tendermint/tendermint/p2p/conn"
	tm "github.com/tendermint/tendermint/types"
)

// vxPipe is one end of an in-memory connection (engine only; natively chain nodes are real TCP listeners
// with a real secret connection).
type vxPipe struct {
	in, out   chan []byte
	rest      []byte
	done, bye chan struct{}
	once      *sync.Once
	bad       bool
}

func vxMkPipe() (a, b *vxPipe) {
	x, y := make(chan []byte, 64), make(chan []byte, 64)
	d, e := make(chan struct{}), make(chan struct{})
	return &vxPipe{in: x, out: y, done: d, bye: e, once: &sync.Once{}}, &vxPipe{in: y, out: x, done: e, bye: d, once: &sync.Once{}}
}

func (p *vxPipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.rest) == 0 {
		select {
		case m := <-p.in:
			p.rest = m
			continue
		default:
		}
		select {
		case m := <-p.in:
			p.rest = m
		case <-p.bye:
			return 0, io.EOF
		case <-p.done:
			return 0, errors.New("closed")
		}
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func (p *vxPipe) Write(b []byte) (int, error) {
	select {
	case <-p.bye:
		return 0, errors.New("broken pipe")
	case <-p.done:
		return 0, errors.New("closed")
	default:
	}
	p.out <- append([]byte{}, b...)
	return len(b), nil
}

func (p *vxPipe) Close() error                     { p.once.Do(func() { close(p.done) }); return nil }
func (p *vxPipe) LocalAddr() net.Addr              { return nil }
func (p *vxPipe) RemoteAddr() net.Addr             { return nil }
func (p *vxPipe) SetDeadline(time.Time) error      { return nil }
func (p *vxPipe) SetReadDeadline(time.Time) error  { return nil }
func (p *vxPipe) SetWriteDeadline(time.Time) error { return nil }

// Engine only: the listeners, and how their next connections fail: 1 refused, 2 no handshake, 0 not.
var (
	vxListen = map[string]chan *vxPipe{}
	vxScript = map[string][]int{}
)

func vxDial(_, addr string) (net.Conn, error) {
	l, k := vxListen[addr], 0
	if s := vxScript[addr]; len(s) > 0 {
		k, vxScript[addr] = s[0], s[1:]
	}
	if l == nil || k == 1 {
		return nil, errors.New("connection refused")
	}
	a, b := vxMkPipe()
	a.bad = k == 2
	l <- b
	return a, nil
}

// vxShake is the outcome of the handshake over a connection.
func vxShake(c io.ReadWriteCloser) error {
	if p, ok := c.(*vxPipe); ok && p.bad {
		return errors.New("handshake failed")
	}
	return nil
}

// vxChainNode is a chain node that accepts connections of the signer.
type vxChainNode struct {
	addr     string
	accept   func() io.ReadWriteCloser
	reset    func() // breaks the last connection, so that neither side can write to it any more
	raw      func() net.Conn
	down, up func() // refuses connections natively; script says how the next ones fail in the engine
	script   func(k int)
	poll     func() io.ReadCloser // a connection the signer makes within a while, or nil
}

func vxMkNodeConn(i int) *vxChainNode {
	if !vx.Native() {
		a := fmt.Sprintf("127.0.0.1:%d", 30000+i)
		l := make(chan *vxPipe, 64)
		vxListen[a] = l
		n := &vxChainNode{addr: "tcp://" + a}
		n.accept = func() io.ReadWriteCloser {
			c := <-l
			n.reset = func() { c.Close() }
			return c
		}
		n.raw = func() net.Conn { return <-l }
		n.down, n.up = func() {}, func() {}
		n.script = func(k int) { vxScript[a] = append(vxScript[a], k) }
		n.poll = func() io.ReadCloser {
			vx.Quiesce()
			select {
			case c := <-l:
				return c
			default:
				return nil
			}
		}
		return n
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	at := l.Addr().String()
	n := &vxChainNode{addr: "tcp://" + at}
	n.script = func(int) {}
	n.down = func() { l.Close() }
	n.up = func() {
		if l, err = net.Listen("tcp", at); err != nil {
			panic(err)
		}
	}
	n.raw = func() net.Conn {
		c, err := l.Accept()
		if err != nil {
			panic(err)
		}
		return c
	}
	n.poll = func() io.ReadCloser {
		_ = l.(*net.TCPListener).SetDeadline(time.Now().Add(4 * time.Second))
		c, err := l.Accept()
		if err != nil {
			return nil
		}
		return c
	}
	n.accept = func() io.ReadWriteCloser {
		c, err := l.Accept()
		if err != nil {
			panic(err)
		}
		n.reset = func() {
			_ = c.(*net.TCPConn).SetLinger(0)
			c.Close()
			time.Sleep(50 * time.Millisecond)
		}
		s, err := tmP2pConn.MakeSecretConnection(c, tmCryptoEd25519.GenPrivKey())
		if err != nil {
			panic(err)
		}
		return s
	}
	return n
}

// vxClosed says whether the signer has closed its end of a connection.
func vxClosed(c io.ReadCloser) bool {
	if p, ok := c.(*vxPipe); ok {
		vx.Quiesce()
		select {
		case <-p.bye:
			return true
		default:
			return false
		}
	}
	t := c.(*net.TCPConn)
	_ = t.SetReadDeadline(time.Now().Add(2 * time.Second))
	_, err := io.Copy(io.Discard, t)
	ne, ok := err.(net.Error)
	return !ok || !ne.Timeout()
}

// vxSigners starts the signer's service for the given chain nodes.
func vxSigners(pv tm.PrivValidator, nodes ...*vxChainNode) []tmService.Service {
	var cfg []NodeConfig
	for _, n := range nodes {
		cfg = append(cfg, NodeConfig{Address: n.addr})
	}
	s, err := StartRemoteSigners(nil, log.NewNopLogger(), vxChain, pv, cfg)
	vx.Assert(err == nil && len(s) == len(nodes), "the signer starts for every chain node")
	return s
}
