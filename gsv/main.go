// Command gsv decides semantic properties of GoSlice from its source.
package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gsv check ID [REPO VERIF] | dump FN | list")
		os.Exit(2)
	}
	if p := os.Getenv("GSVPROF"); p != "" {
		f, _ := os.Create(p)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].title)
		}
	case "check":
		repo, verif := "/repo", "/verif"
		if len(os.Args) > 4 {
			repo, verif = os.Args[3], os.Args[4]
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		code := cmdCheck(os.Args[2], repo, verif, tier)
		pprof.StopCPUProfile()
		os.Exit(code)
	case "survey":
		n := [3]int{100, 0, 1}
		for i := range n {
			if len(os.Args) > i+3 {
				n[i], _ = strconv.Atoi(os.Args[i+3])
			}
		}
		survey(os.Args[2], n[0], n[1], n[2])
	case "dump":
		w, err := Load(dumpRepo(), nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range os.Args[2:] {
			it := NewInterp(w)
			it.RecordStores = true
			it.Unroll = os.Getenv("GSVUNROLL") != ""
			if os.Getenv("GSVEV") != "" {
				it.Policy = boundary
			}
			dumpFn(w, it, n)
		}
	}
}
