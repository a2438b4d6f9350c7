package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	list := flag.Bool("list", false, "list properties")
	describe := flag.Bool("describe", false, "print the rules as JSON")
	flag.Parse()
	if *describe {
		var out []map[string]interface{}
		for id, d := range checks {
			out = append(out, map[string]interface{}{"id": id, "technique": d.technique, "rule": d.rule, "assum": d.assum})
		}
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	rc := runCheck(*repo, *prop, *tier, *out)
	pprof.StopCPUProfile()
	os.Exit(rc)
}
