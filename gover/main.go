package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
)

func main() {
	dir := flag.String("repo", "/repo", "repository")
	con := flag.String("contracts", "/verif/contracts", "contracts directory")
	js := flag.Bool("json", false, "print the report as JSON")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gover [flags] fn KEY... | list [PROP] | match REGEXP")
		os.Exit(2)
	}
	p, err := setupFiles(*dir, *con)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover: cannot load the repository:", err)
		os.Exit(3)
	}
	var keys []string
	switch args[0] {
	case "list":
		var ks []string
		for k := range p.contracts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		m := map[string][]string{}
		for _, k := range ks {
			m[k] = p.contracts[k].props
		}
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
		return
	case "funcs":
		for _, k := range p.funcNames() {
			fmt.Println(k)
		}
		return
	case "lemmas":
		bad := false
		for _, l := range proveLemmas(func(*section) bool { return true }) {
			fmt.Println(l.Status, l.Name, l.Solver, l.Ms)
			bad = bad || l.Status != "proved"
		}
		if bad {
			os.Exit(1)
		}
		return
	case "fn":
		keys = args[1:]
	case "match":
		re := regexp.MustCompile(args[1])
		for k := range p.contracts {
			if re.MatchString(k) {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
	}
	bad := false
	for _, k := range keys {
		c := p.contracts[k]
		if c == nil {
			fmt.Fprintln(os.Stderr, "no contract for", k)
			os.Exit(3)
		}
		stats.queries, stats.solverMs, stats.bySolver = 0, 0, map[string]int{}
		r := verifyFn(p, c)
		if *js {
			b, _ := json.Marshal(r)
			fmt.Println(string(b))
		} else {
			printReport(r, *verbose)
		}
		if r.Unsupported != "" || len(r.failed()) > 0 || r.Vacuous != "" {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}
