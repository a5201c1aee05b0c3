package krpct

import (
	"net"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"verif/harness/h"
	"verif/harness/netx"
)

func TestMain(m *testing.M) { h.Main(m) }

const patience = 30 * time.Second

// probePort finds the port of a server by the source address of a datagram it sends.
func probePort(send func(to *net.UDPAddr) error) *net.UDPAddr {
	s := netx.MustOpen("127.0.0.1")
	defer s.Close()
	for i := 0; i < 5; i++ {
		if err := send(s.Addr); err != nil {
			return nil
		}
		if d, ok := s.Recv(3 * time.Second); ok {
			return d.From
		}
	}
	return nil
}

// startRpc starts a server on a free port of 127.0.0.1.
func startRpc() (*krpc.RpcServer, *net.UDPAddr) {
	s := krpc.NewRpcServer("127.0.0.1:0")
	a := probePort(func(to *net.UDPAddr) error {
		return s.Query(to, krpc.NewBaseRequest("\x00probe", "ping", misc.Dict{"id": "x"}, func(*krpc.RpcContext) {}))
	})
	if a == nil {
		h.Infra("cannot find the port of the server")
	}
	go s.Listen()
	return s, a
}
