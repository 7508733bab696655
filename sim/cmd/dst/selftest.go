package main

import (
	"fmt"

	"github.com/cybergarage/go-sqlparser/sql"
	"verif.local/sim/simrt"
)

// selfTest compares the generator's meaning of statements with fresh parsers (development aid).
func selfTest(n int) {
	seen := map[string]int{}
	for i := 0; i < n; i++ {
		g := &gen{r: simrt.NewRng(uint64(i) * 7919), tag: "z"}
		t, w := g.input(300)
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("PANIC %q: %v\n", t, r)
				}
			}()
			sts, err := sql.NewParser().ParseString(t)
			got := ""
			if err != nil {
				got = "!"
			} else {
				got = describeAll(sts)
			}
			if w != "" && got != w {
				if seen["d"]++; seen["d"] < 25 {
					fmt.Printf("DIFF %q\n  got  %s\n  want %s\n", t, got, w)
				}
			}
			if w == "" {
				if seen[got]++; seen[got] < 3 {
					fmt.Printf("free %q -> %s %v\n", t, got, err)
				}
			}
		}()
	}
	fmt.Println("differences:", seen["d"], "of", n)
}
