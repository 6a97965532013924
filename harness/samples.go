package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"

	"pgregory.net/rapid"
)

// samples prints generated cases without running them (development aid).
func samples(id, n string) {
	p := props[id]
	k, _ := strconv.Atoi(n)
	os.Args = []string{os.Args[0]}
	flag.Parse()
	g := rapid.Custom(func(t *rapid.T) any { return p.gen(t) })
	for i := 0; i < k; i++ {
		b, _ := json.MarshalIndent(g.Example(i+envSeed()), "", " ")
		fmt.Println(string(b))
	}
}
