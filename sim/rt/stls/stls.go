// Package stls stands in for package crypto/tls; handshakes are not simulated.
package stls

import (
	"crypto/tls"
	"errors"

	"github.com/childe/healer/zz_sim/snet"
)

func DialWithDialer(d *snet.Dialer, network, addr string, config *tls.Config) (*tls.Conn, error) {
	return nil, errors.New("TLS is not simulated")
}
