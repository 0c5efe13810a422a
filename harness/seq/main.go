// Command seq holds the checks that explore operation histories of a
// complete server.
package main

import "github.com/netauth/netauth/internal/zverif/eng"

var checks []*eng.Check

func register(c *eng.Check) { checks = append(checks, c) }

func main() { eng.Main(checks) }
