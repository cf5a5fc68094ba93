package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc (run|worker|check|list) ...")
		os.Exit(3)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	pkgs := fs.String("pkgs", "", "comma separated package directories")
	tier := fs.String("tier", "quick", "")
	prop := fs.String("prop", "", "")
	v := fs.Bool("v", false, "")
	keep := fs.Bool("keep", false, "")
	drop := fs.String("drop", "", "overlay files to leave out")
	fs.Parse(os.Args[2:])
	repoDir = *repo
	if *drop != "" {
		dropped = strings.Split(*drop, ",")
	}
	switch cmd {
	case "list":
		P, err := Load(*repo, *verif, patternsFor(*verif, *pkgs))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, w := range P.wrappers {
			fmt.Println(w.Name, w.Props, w.Targets)
		}
	case "run", "try": // verify (run) or execute (try) named wrappers, human-readable
		P, err := Load(*repo, *verif, patternsFor(*verif, *pkgs))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, w := range P.wrappers {
			ok := false
			for _, a := range fs.Args() {
				if w.Func == a || w.Name == a || a == "all" || strings.HasSuffix(a, "*") && strings.HasPrefix(w.Func, strings.TrimSuffix(a, "*")) {
					ok = true
				}
			}
			if *prop != "" && contains(w.Props, *prop) {
				ok = true
			}
			if ok && cmd == "try" {
				secs, _ := strconv.ParseFloat(os.Getenv("ZZ_SECONDS"), 64)
				if secs == 0 {
					secs = 3
				}
				seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
				m, log := P.runHarness(*repo, *verif, w.Pkg, []*Wrapper{w}, nil, seed, secs, nil)
				if o := m[w.Name]; o != nil {
					fmt.Printf("%s: runs=%d skipped=%d covered=%v\n", w.Name, o.Runs, o.Skipped, o.Covered)
					if o.Label != "" {
						fmt.Printf("  VIOLATED %s\n  input %s\n  %s\n", o.Label, trunc2(o.Input, 1500), trunc2(o.Detail, 2500))
					}
				} else {
					fmt.Println(w.Name, "no result:", trunc2(log, 3000))
				}
				continue
			}
			if ok {
				printResult(P.Verify(w, *v, *tier))
			}
		}
	case "worker": // read wrapper names on stdin, write results as JSON lines
		P, err := Load(*repo, *verif, patternsFor(*verif, *pkgs))
		out := json.NewEncoder(os.Stdout)
		if err != nil {
			out.Encode(&Result{Wrapper: "", Error: err.Error()})
			os.Exit(3)
		}
		out.Encode(&Result{Wrapper: "ready"})
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			n := strings.TrimSpace(sc.Text())
			var w *Wrapper
			for _, c := range P.wrappers {
				if c.Name == n {
					w = c
				}
			}
			if w == nil {
				out.Encode(&Result{Wrapper: n, Error: "no such wrapper"})
				continue
			}
			out.Encode(P.Verify(w, false, *tier))
		}
	case "check":
		os.Exit(check(*repo, *verif, *prop, *tier, *keep))
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
