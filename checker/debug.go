package main

import (
	"fmt"
	"os"
)

func dumpFacts(st *State) {
	if os.Getenv("DUMPFACTS") == "" || st == nil {
		return
	}
	for _, t := range st.facts.sortedTruth() {
		fmt.Println("     ", st.facts.truth[t], t)
	}
	for _, t := range st.facts.sortedBounds() {
		b := st.facts.bounds[t]
		fmt.Println("      [", b.lo, b.hi, "]", t)
	}
	for t, k := range st.facts.sconst {
		fmt.Printf("      %s = %q\n", t, k)
	}
	for k, t := range st.ghosts {
		if k != "events" {
			fmt.Println("      ghost", k, t)
		}
	}
	for _, t := range st.facts.sortedUniv() {
		fmt.Println("      univ", t)
	}
}
