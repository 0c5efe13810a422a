// Command edge holds the checks about what surrounds the server proper:
// plugins, the client library, the health report and the daemon.
package main

import (
	"os"

	"github.com/netauth/netauth/internal/zverif/eng"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "plug" {
		plugChild(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "lock" {
		flChild(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "client" {
		clChild(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "cache" {
		cacheChild(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "cacheput" {
		cachePut(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "health" {
		healthChild(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "crypt" {
		cryptChild(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "cli" {
		cliChild(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "daemon" {
		daemonChild(os.Args[2:])
	}
	eng.Main([]*eng.Check{c29(), c30(), c31(), c32(), c33(), c35(), c38(), c39()})
}
