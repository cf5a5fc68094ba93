package main

// The per-property check: verify every contract of the property, then replay what failed.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// patternsFor lists the package patterns to load: the given ones or every package with contracts.
func patternsFor(verif, pkgs string) []string {
	out := []string{modPath + "/zzspec", modPath + "/zzmodels", modPath + "/axolotl/protobuf", modPath + "/protobuf"}
	if pkgs != "" {
		for _, p := range strings.Split(pkgs, ",") {
			if p == "root" {
				out = append(out, modPath)
			} else {
				out = append(out, modPath+"/"+p)
			}
		}
		return out
	}
	root := filepath.Join(verif, "contracts")
	seen := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			if rel == "root" {
				seen[modPath] = true
			} else {
				seen[modPath+"/"+rel] = true
			}
		}
		return nil
	})
	// repository packages whose bodies are read although they carry no contracts themselves
	for _, p := range []string{"", "axolotl", "curve25519sign", "fingerprint", "crypto", "contactDiscoveryCrypto", "contactsDiscovery", "groupsv2", "entities", "unidentifiedAccess", "utils", "attestation", "config", "contacts", "registration", "profiles", "transport", "helpers", "crayfish"} {
		if p == "" {
			seen[modPath] = true
		} else if fi, err := os.Stat(filepath.Join(repoDir, p)); err == nil && fi.IsDir() {
			seen[modPath+"/"+p] = true
		}
	}
	for p := range seen {
		if !contains(out[:4], p) {
			out = append(out, p)
		}
	}
	sort.Strings(out[4:])
	return out
}

var repoDir = "/repo"

// LoadTolerant drops contract files that do not compile against the tree (a renamed helper, say).
func LoadTolerant(repo, verif string, patterns []string) (*Program, []string, error) {
	for round := 0; round < 6; round++ {
		P, err := Load(repo, verif, patterns)
		if err == nil {
			return P, dropped, nil
		}
		n := 0
		for _, l := range strings.Split(err.Error(), "\n") {
			i := strings.Index(l, "/zz_verif_")
			if i < 0 {
				continue
			}
			s := strings.LastIndex(l[:i], " ")
			e := strings.Index(l[i:], ".go:")
			if e < 0 {
				continue
			}
			f := l[s+1 : i+e+3]
			if !contains(dropped, f) {
				dropped = append(dropped, f)
				n++
			}
		}
		if n == 0 {
			return nil, dropped, err
		}
	}
	return nil, dropped, fmt.Errorf("contracts do not load")
}

var dropped []string // overlay paths left out

type knownFinding struct {
	Prop, Wrapper, Obl, Site, Text string
}

// known-findings file: finding: property=<id> wrapper=<w> obligation="<label>" site="<substring of where>" <text>
func readFindings(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k knownFinding
		rest := strings.TrimPrefix(l, "finding: ")
		for {
			rest = strings.TrimLeft(rest, " ")
			i := strings.Index(rest, "=")
			sp := strings.Index(rest, " ")
			if i < 0 || sp >= 0 && sp < i {
				break
			}
			key := rest[:i]
			val := ""
			rest = rest[i+1:]
			if strings.HasPrefix(rest, "\"") {
				j := strings.Index(rest[1:], "\"")
				if j < 0 {
					break
				}
				val = rest[1 : 1+j]
				rest = rest[j+2:]
			} else {
				j := strings.Index(rest, " ")
				if j < 0 {
					j = len(rest)
				}
				val = rest[:j]
				rest = rest[j:]
			}
			switch key {
			case "property":
				k.Prop = val
			case "wrapper":
				k.Wrapper = val
			case "obligation":
				k.Obl = val
			case "site":
				k.Site = val
			}
		}
		k.Text = strings.TrimSpace(rest)
		out = append(out, k)
	}
	return out
}

func stripLine(s string) string { // drop line numbers: sites are identified by function
	if i := strings.LastIndex(s, " at "); i >= 0 {
		return s[:i]
	}
	return s
}

type runOut struct {
	Wrapper   string
	Runs      int
	Skipped   int
	Covered   map[string]int
	Label     string
	Input     string
	Detail    string
	FromModel bool
}

func check(repo, verif, prop, tier string, keep bool) int {
	t0 := time.Now()
	repoDir = repo
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
	evFile := filepath.Join(verif, "evidence", prop+".json")
	os.Remove(evFile)
	P, drop, err := LoadTolerant(repo, verif, patternsFor(verif, ""))
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		return 3
	}
	var ws []*Wrapper
	for _, w := range P.wrappers {
		if contains(w.Props, prop) && (w.Tier == "" || w.Tier == tier) {
			ws = append(ws, w)
		}
	}
	// contracts relied on at call sites are verified with the property
	seen := map[string]bool{}
	for _, w := range ws {
		seen[w.Name] = true
	}
	for i := 0; i < len(ws); i++ {
		for _, u := range ws[i].Uses {
			for _, o := range P.wrappers {
				if (o.Name == u || o.Func == u) && !seen[o.Name] {
					seen[o.Name] = true
					ws = append(ws, o)
				}
			}
		}
	}
	if len(ws) == 0 && len(drop) == 0 {
		fmt.Fprintln(os.Stderr, "govc: no contracts for", prop)
		return 3
	}
	var pws []*Wrapper
	for _, w := range ws {
		if !w.Bounded {
			pws = append(pws, w)
		}
	}
	results := runWorkers(pws, repo, verif, tier)

	var notes []string
	for _, d := range drop {
		notes = append(notes, "contract file does not compile against this tree, its contracts are undecided: "+d)
	}
	known := readFindings(verif)
	type viol struct {
		w       *Wrapper
		obl     string
		where   string
		refuted bool
		fails   []*Failure
		soft    bool // proof artefact (invariant, unwinding): undecided unless an input is found
		cover   bool
	}
	var viols []viol
	harness := map[string][]*Wrapper{}
	short := map[string]bool{}
	inputs := map[string][]map[string]string{}
	total, disch := 0, 0
	by := map[string]int{}
	assumed := map[string]int{}
	inlined := map[string]int{}
	contracts := map[string]bool{}
	cut, unr := map[string]int{}, map[string]int{}
	solver := 0.0
	queries := 0
	var perW []map[string]interface{}
	for _, w := range ws {
		if w.Bounded && w.NoRun {
			assumed["contract assumed at call sites: "+w.Name+": "+strings.TrimSpace(w.Doc)]++
			continue
		}
		if w.Bounded {
			harness[w.Pkg] = append(harness[w.Pkg], w)
			perW = append(perW, map[string]interface{}{"contract": w.Name, "functions": w.Targets, "says": w.Doc, "status": "bounded: executed on generated inputs, not proved"})
			continue
		}
		r := results[w.Name]
		need := false
		if r == nil {
			r = &Result{Wrapper: w.Name, Limits: []string{"no result from the verifier process (killed or crashed)"}}
		}
		if r.Error != "" {
			r.Limits = append(r.Limits, r.Error)
		}
		for _, t := range w.Targets {
			contracts[t] = true
		}
		st := "proved"
		n, d := 0, 0
		for _, o := range r.Obls {
			n += o.VCs
			d += o.Discharged
			for b, c := range o.By {
				by[b] += c
			}
			if o.Discharged == o.VCs {
				continue
			}
			byWhere := map[string]*viol{}
			var order []string
			for _, f := range o.Failed {
				k := stripLine(f.Where)
				if o.Kind != "panic" && o.Name != "no-panic" {
					k = o.Name
				}
				v := byWhere[k]
				if v == nil {
					v = &viol{w: w, obl: o.Name, where: f.Where}
					v.soft = strings.HasPrefix(o.Name, "inv-") || strings.HasPrefix(o.Name, "unwind:")
					byWhere[k] = v
					order = append(order, k)
				}
				v.fails = append(v.fails, f)
				if f.Answer == "sat" || strings.Contains(f.Reason, "incomplete") {
					v.refuted = true
				}
				if f.Inputs != nil {
					inputs[w.Name] = append(inputs[w.Name], f.Inputs)
				}
			}
			for _, k := range order {
				viols = append(viols, *byWhere[k])
			}
			need = true
			st = "failed"
		}
		total += n
		disch += d
		if len(r.Limits) > 0 {
			need = true
			if st == "proved" {
				st = "undecided"
			}
			for _, l := range r.Limits {
				notes = append(notes, w.Name+": "+l)
			}
		} else {
			for _, m := range r.Missing {
				viols = append(viols, viol{w: w, obl: m, where: m, refuted: true, cover: true})
				need = true
				st = "failed"
			}
			if n == 0 {
				viols = append(viols, viol{w: w, obl: "no obligations generated", refuted: true})
				st = "failed"
			}
		}
		if !w.NoRun {
			short[w.Name] = !need && tier != "thorough" // proved: executed only to test the models the proof rests on
			{
				harness[w.Pkg] = append(harness[w.Pkg], w)
			}
		}
		for k, c := range r.Assumed {
			assumed[k] += c
		}
		for k, c := range r.Inlined {
			inlined[k] += c
		}
		for k, c := range r.LoopsCut {
			cut[k] += c
		}
		for k, c := range r.LoopsUn {
			unr[k] += c
		}
		solver += r.SolverSec
		queries += r.Queries
		perW = append(perW, map[string]interface{}{"contract": w.Name, "functions": w.Targets, "says": r.Doc, "status": st, "obligations": n, "discharged": d, "paths": r.Paths, "seconds": round2(r.Seconds), "solver_s": round2(r.SolverSec), "limits": r.Limits})
	}

	// replay
	outs := map[string]*runOut{}
	var pk []string
	for p := range harness {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	secs := 5.0
	if tier == "thorough" {
		secs = 20
	}
	if s := os.Getenv("ZZ_SECONDS"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	for _, p := range pk {
		m, log := P.runHarness(repo, verif, p, harness[p], inputs, seed, secs, short)
		for k, o := range m {
			outs[k] = o
		}
		if m == nil || log != "" {
			notes = append(notes, "replay harness for "+p+" gave no result: "+trunc2(log, 400))
		}
	}
	exit := 0
	nviol := 0
	reported := map[string]bool{}
	emit := func(name, obl, where string, rep map[string]interface{}, noInput bool) {
		for _, k := range known {
			if k.Prop == prop && k.Wrapper == name && k.Obl == obl && (k.Site == "" || strings.Contains(where, k.Site)) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
				return
			}
		}
		nviol++
		rp := filepath.Join(verif, "evidence", "replay", fmt.Sprintf("%s-%d.json", prop, nviol))
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(rp, b, 0o644)
		suf := ""
		if noInput {
			suf = " no-failing-input-found"
		}
		fmt.Printf("%s: %s: %s\n", name, obl, where)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suf)
		exit = 1
	}
	// failing inputs first
	for _, w := range ws {
		o := outs[w.Name]
		if o == nil || o.Label == "" {
			continue
		}
		reported[w.Name] = true
		var vo []interface{}
		for _, v := range viols {
			if v.w == w {
				vo = append(vo, map[string]interface{}{"obligation": v.obl, "where": v.where, "verifier": v.fails})
			}
		}
		emit(w.Name, o.Label, "executed on the real code with "+trunc2(o.Input, 300), map[string]interface{}{
			"property": prop, "contract": w.Name, "obligation": o.Label, "failing_input": o.Input, "detail": o.Detail,
			"input_from_verifier_model": o.FromModel, "seed": seed, "runs_before": o.Runs, "failed_obligations": vo,
			"reproduce": fmt.Sprintf("cd %s && VERIF_SEED=%d ./check.sh %s", verif, seed, prop)}, false)
	}
	for _, v := range viols {
		if reported[v.w.Name] {
			continue
		}
		if v.cover && outs[v.w.Name] != nil && outs[v.w.Name].Covered[strings.TrimPrefix(v.obl, "cover:")] > 0 {
			notes = append(notes, v.w.Name+": "+v.obl+" not shown reachable by the verifier but reached by execution")
			continue
		}
		if !v.refuted || v.soft {
			why := "solver gave up"
			if v.soft {
				why = "proof artefact, not a property"
			}
			notes = append(notes, fmt.Sprintf("%s: obligation %q not discharged (%s): undecided, bounded execution found no failing input", v.w.Name, v.obl, why))
			continue
		}
		emit(v.w.Name, v.obl, v.where, map[string]interface{}{
			"property": prop, "contract": v.w.Name, "functions": v.w.Targets, "obligation": v.obl, "where": v.where,
			"verifier_output": v.fails, "note": "the verifier refutes the obligation; executing the contract on the model and on random inputs found no failing input"}, true)
	}
	bounded := []map[string]interface{}{}
	for _, w := range ws {
		if o := outs[w.Name]; o != nil {
			bounded = append(bounded, map[string]interface{}{"contract": w.Name, "executions": o.Runs, "outside_precondition": o.Skipped, "covered": o.Covered})
		}
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged, %.0f s\n", prop, len(ws), disch, total, time.Since(t0).Seconds())
	var tb []string
	for _, k := range sortedKeys(assumed) {
		tb = append(tb, k)
	}
	tb = append(tb, "govc (the condition generator in /verif/govc), go/types and x/tools/go/ssa, z3 and cvc5",
		"Go semantics: unbounded memory, single goroutine per contract; lengths and capacities are below 2^40; machine integers wrap as specified")
	level := levelOf(verif, prop)
	cov := map[string]interface{}{
		"obligations": total, "discharged": disch, "checker_cmd": "./check.sh " + prop,
		"trusted_base": tb, "explanation": "Weakest preconditions of the contracts over go/ssa of /repo's current source, discharged by SMT; see contracts_detail.",
		"functions_under_contract": sortedBool(contracts), "functions_inlined_into_contracts": sortedKeys(inlined),
		"discharged_by": by, "solver_s": round2(solver), "solver_queries": queries,
		"loops_cut_with_invariants": sortedKeys(cut), "loops_fully_unrolled": sortedKeys(unr),
		"contracts_detail": perW, "bounded_executions": bounded, "notes": notes,
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": tb, "wall_s": round2(time.Since(t0).Seconds()), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(evFile, b, 0o644)
	return exit
}

func levelOf(verif, prop string) string {
	b, _ := os.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	var m struct {
		Checks []struct{ Property, Level string }
	}
	json.Unmarshal(b, &m)
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level
		}
	}
	return "proof"
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func sortedBool(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// runWorkers verifies the contracts in separate processes.
func runWorkers(ws []*Wrapper, repo, verif, tier string) map[string]*Result {
	res := map[string]*Result{}
	var mu sync.Mutex
	queue := append([]*Wrapper{}, ws...)
	sort.SliceStable(queue, func(i, j int) bool { return queue[i].Heavy && !queue[j].Heavy })
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n > len(queue) {
		n = len(queue)
	}
	next := func() *Wrapper {
		mu.Lock()
		defer mu.Unlock()
		if len(queue) == 0 {
			return nil
		}
		w := queue[0]
		queue = queue[1:]
		return w
	}
	self, _ := os.Executable()
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in io.WriteCloser
			var out *bufio.Reader
			start := func() bool {
				cmd = exec.Command(self, "worker", "-repo", repo, "-verif", verif, "-tier", tier, "-drop", strings.Join(dropped, ","))
				in, _ = cmd.StdinPipe()
				o, _ := cmd.StdoutPipe()
				cmd.Stderr = os.Stderr
				if cmd.Start() != nil {
					return false
				}
				out = bufio.NewReaderSize(o, 1<<20)
				l, err := out.ReadString('\n')
				return err == nil && strings.Contains(l, "ready")
			}
			stop := func() {
				if cmd != nil {
					in.Close()
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				}
			}
			defer stop()
			for {
				w := next()
				if w == nil {
					return
				}
				if cmd == nil && !start() {
					mu.Lock()
					res[w.Name] = &Result{Wrapper: w.Name, Error: "verifier process did not start"}
					mu.Unlock()
					stop()
					continue
				}
				fmt.Fprintln(in, w.Name)
				type line struct {
					s   string
					err error
				}
				ch := make(chan line, 1)
				rd := out
				go func() { s, err := rd.ReadString('\n'); ch <- line{s, err} }()
				tm := w.Time
				if tm == 0 {
					tm = 90
				}
				lim := time.Duration(tm)*time.Second*3/2 + 90*time.Second
				if tier == "thorough" {
					lim *= 4
				}
				select {
				case l := <-ch:
					var r Result
					if l.err != nil || json.Unmarshal([]byte(l.s), &r) != nil {
						mu.Lock()
						res[w.Name] = &Result{Wrapper: w.Name, Error: "verifier process failed"}
						mu.Unlock()
						stop()
						continue
					}
					mu.Lock()
					res[w.Name] = &r
					mu.Unlock()
				case <-time.After(lim):
					mu.Lock()
					res[w.Name] = &Result{Wrapper: w.Name, Error: "verifier process timed out"}
					mu.Unlock()
					stop()
				}
			}
		}()
	}
	wg.Wait()
	return res
}

// runHarness executes contracts against the real code.
func (P *Program) runHarness(repo, verif, pkg string, ws []*Wrapper, inputs map[string][]map[string]string, seed int, secs float64, short map[string]bool) (map[string]*runOut, string) {
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(tmp)
	sp := P.pkgs[pkg]
	ov := map[string]string{}
	for v, f := range P.overlay {
		if contains(dropped, v) || strings.Contains(v, "/zzmodels/") {
			continue
		}
		ov[v] = f
	}
	dir := filepath.Join(repo, strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/"))
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.HasSuffix(e.Name(), "_test.go") {
			ov[filepath.Join(dir, e.Name())] = ""
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\tzs %q\n)\n\nfunc TestZZVerif(t *testing.T) {\n\tzs.Serve(map[string]zs.Contract{\n", sp.Pkg.Name(), modPath+"/zzspec")
	type reqW struct {
		Func    string
		Inputs  []map[string]string
		Params  []string
		Seconds float64
	}
	type reqT struct {
		Wrappers []reqW
		Seed     int64
		Seconds  float64
	}
	var rws []reqW
	for _, w := range ws {
		gen := ""
		if sp.Func("gen_"+w.Func) != nil {
			gen = ", Gen: gen_" + w.Func
		}
		fmt.Fprintf(&sb, "\t\t%q: {Fn: %s%s},\n", w.Func, w.Func, gen)
		rw := reqW{Func: w.Func, Inputs: inputs[w.Name], Seconds: secs}
		if short[w.Name] {
			rw.Seconds = secs / 5
		}
		for _, p := range P.wrapperFn(w).Params {
			rw.Params = append(rw.Params, p.Name())
		}
		rws = append(rws, rw)
	}
	sb.WriteString("\t})\n}\n")
	tf := filepath.Join(tmp, "h_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0o644)
	ov[filepath.Join(dir, "zz_verif_harness_test.go")] = tf
	ob, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	lib := ""
	if o, err := goCmd(repo, "list", "-m", "-f", "{{.Dir}}", "github.com/nanu-c/zkgroup").Output(); err == nil {
		lib = filepath.Join(strings.TrimSpace(string(o)), "lib")
	}
	bin := filepath.Join(tmp, "h.test")
	bc := goCmd(repo, "test", "-c", "-vet=off", "-overlay", of, "-o", bin, pkg)
	if o, err := bc.CombinedOutput(); err != nil {
		return nil, "harness build: " + string(o)
	}
	m := map[string]*runOut{}
	log := ""
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for i := range rws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			work := filepath.Join(tmp, fmt.Sprint("work", i))
			os.MkdirAll(work, 0o755)
			outf := filepath.Join(tmp, fmt.Sprint("out", i, ".json"))
			rb, _ := json.Marshal(reqT{Seed: int64(seed), Seconds: secs, Wrappers: rws[i : i+1]})
			rc := exec.Command(bin, "-test.run", "TestZZVerif", "-test.timeout", (time.Duration(secs)*time.Second + 200*time.Second).String())
			rc.Dir = work
			rc.Env = append(os.Environ(), "ZZ_REQ="+string(rb), "ZZ_OUT="+outf, "LD_LIBRARY_PATH="+lib, "HOME="+work, "GOTRACEBACK=all")
			o, err := rc.CombinedOutput()
			b, err2 := os.ReadFile(outf)
			mu.Lock()
			defer mu.Unlock()
			name := pkgShort(pkg) + "." + rws[i].Func
			if err2 != nil {
				// the process died: a panic in another goroutine or a fatal error of the runtime, on the input last written
				cur, _ := os.ReadFile(outf + ".cur")
				so := string(o)
				if strings.Contains(so, "crypto/rand: failed to read random data") {
					// the contract made the random source fail and the runtime ended the program: no result was made
					m[name] = &runOut{Wrapper: rws[i].Func, Runs: 1}
					return
				}
				if len(cur) > 0 && (strings.Contains(so, "panic: ") || strings.Contains(so, "fatal error: ")) && !strings.Contains(so, "test timed out") && !strings.Contains(so, "out of memory") && !strings.Contains(so, "cannot allocate") {
					m[name] = &runOut{Wrapper: rws[i].Func, Runs: 1, Label: "no-panic", Input: strings.TrimRight(string(cur), "\x00 "), Detail: trunc2(so, 4000)}
					return
				}
				log += fmt.Sprintf("%s: %v %s\n", name, err, trunc2(so, 1500))
				return
			}
			var outs []runOut
			json.Unmarshal(b, &outs)
			for k := range outs {
				m[name] = &outs[k]
			}
		}(i)
	}
	wg.Wait()
	if len(m) == 0 {
		return nil, log
	}
	return m, log
}

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=1")
	return c
}
