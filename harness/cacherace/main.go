// Command cacherace makes every pair of calls of the memory token cache at
// once; it is built with the race detector.
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

func main() {
	type op struct {
		name string
		do   func(c cache.TokenCache, o string)
	}
	ops := []op{
		{"put", func(c cache.TokenCache, o string) { c.PutToken(o, "t") }},
		{"get", func(c cache.TokenCache, o string) { c.GetToken(o) }},
		{"del", func(c cache.TokenCache, o string) { c.DelToken(o) }},
	}
	n := 0
	for _, prior := range []bool{false, true} {
		for _, a := range ops {
			for _, b := range ops {
				for _, same := range []bool{false, true} {
					c, err := cache.NewTokenCache("memory")
					if err != nil {
						fmt.Println(err)
						os.Exit(3)
					}
					if prior {
						c.PutToken("x", "t")
						c.PutToken("y", "t")
					}
					o := "x"
					if !same {
						o = "y"
					}
					var wg sync.WaitGroup
					gate := make(chan bool)
					wg.Add(2)
					go func() { defer wg.Done(); <-gate; a.do(c, "x") }()
					go func() { defer wg.Done(); <-gate; b.do(c, o) }()
					close(gate)
					wg.Wait()
					n++
				}
			}
		}
	}
	fmt.Println("PAIRS", n)
}
