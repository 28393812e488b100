package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
)

type propDef struct {
	id          string
	level       string
	explain     string
	assumptions []string
	run         func(w *World, r *Report)
}

var props = map[string]*propDef{}

func define(d *propDef) {
	d.level = "other"
	props[d.id] = d
}

func main() {
	prop := flag.String("prop", "", "property id, or all")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	debug.SetGCPercent(400)
	for _, f := range later {
		f()
	}
	var ids []string
	if *prop == "all" {
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = []string{*prop}
	}
	code := 0
	var w *World
	var err error
	for _, id := range ids {
		d := props[id]
		if d == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(3)
		}
		r := newReport(id, *tier)
		if w == nil {
			w, err = load(*repo)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, id+": "+err.Error())
			os.Exit(3)
		} else {
			w.tier = *tier
			func() {
				defer func() {
					if p := recover(); p != nil {
						if os.Getenv("CHECKER_DEBUG") != "" {
							panic(p)
						}
						r.notes = append(r.notes, fmt.Sprintf("analysis stopped: %v", p))
						r.add("analysis completes", "checker", "undecided", fmt.Sprint(p), "")
					}
				}()
				d.run(w, r)
			}()
		}
		if c := r.finish(*verif, *d, nil); c > code {
			code = c
		}
	}
	os.Exit(code)
}
