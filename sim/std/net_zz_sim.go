package net

import "context"

// Hooks of the simulated loopback network.
var (
	SimListen func(network, address string) (Listener, error)
	SimDial   func(ctx context.Context, network, address string) (Conn, error)
)
