package main

import "github.com/netauth/netauth/internal/zverif/eng"

type reply = eng.Reply

var (
	render         = eng.Render
	readEverything = eng.ReadEverything
	claims         = eng.TokenClaims
	sameView       = eng.SameView
)
