package main

import (
	"time"

	"github.com/netauth/netauth/internal/token"
	types "github.com/netauth/protocol"
)

func claimsOf(id string, caps ...types.Capability) token.Claims {
	return token.Claims{EntityID: id, Capabilities: caps}
}

func cfgNow() token.Config { return token.GetConfig() }

func timeIn(secs int) time.Time { return time.Now().Add(time.Duration(secs) * time.Second) }
