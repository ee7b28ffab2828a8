// Package vnet stands in for net's listening and dialling: the harness decides
// what they do. Without a harness's functions they fail.
package vnet

import (
	"errors"
	"net"
	"time"
)

var (
	OnListen func(network, address string) (net.Listener, error)
	OnDial   func(network, address string) (net.Conn, error)
)

var errNone = errors.New("no network")

func Listen(network, address string) (net.Listener, error) {
	if OnListen == nil {
		return nil, errNone
	}
	return OnListen(network, address)
}

func Dial(network, address string) (net.Conn, error) {
	if OnDial == nil {
		return nil, errNone
	}
	return OnDial(network, address)
}

func DialTimeout(network, address string, _ time.Duration) (net.Conn, error) {
	return Dial(network, address)
}
