package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type result struct {
	c       *Contract
	obls    []*Obligation
	err     error
	fnCalls map[string]bool
	assumed map[string]bool
	rounds  int
	secs    float64
	cands   int
	kept    int
	keptSet []string
}

// verifyContract runs one contract with Houdini over the loop invariants.
func verifyContract(p *Program, c *Contract, s *Solver, hints []string, tmo int) *result {
	start := time.Now()
	r := &result{c: c}
	defer func() { r.secs = time.Since(start).Seconds() }()
	if c.tmo > 0 {
		tmo = c.tmo
	}
	dead := map[string]bool{}
	var alive map[string]bool
	if hints != nil {
		alive = map[string]bool{}
		for _, h := range hints {
			alive[h] = true
		}
	}
	for round := 1; ; round++ {
		r.rounds = round
		x := newExec(p)
		x.dead = dead
		x.alive = alive
		loopInit = map[lk]map[*ssa.Phi]Val{}
		err := x.verify(c)
		r.err = err
		r.obls = x.obls
		r.fnCalls = x.fnCalls
		r.assumed = x.assumed
		r.cands = len(x.allCands)
		if err != nil {
			return r
		}
		var soft, hard []*Obligation
		for _, o := range x.obls {
			if o.soft != "" {
				soft = append(soft, o)
			} else {
				hard = append(hard, o)
			}
		}
		if verbose {
			fmt.Printf("  [%s] round %d: %d soft, %d hard, %d facts, %d steps %.1fs\n", c.name, round, len(soft), len(hard), len(x.facts), x.steps, time.Since(start).Seconds())
		}
		s.solveAll(soft, alive == nil, softTmo(alive == nil, tmo))
		bad := 0
		for _, o := range soft {
			if o.result != "proved" {
				if verbose && (alive != nil || os.Getenv("GOVC_DEAD") != "") {
					fmt.Printf("   invariant dropped: %s (%s) at %s\n", o.soft, o.result, o.pos)
				}
				if d := os.Getenv("GOVC_DEADDUMP"); d != "" && strings.Contains(o.soft, "inv_") {
					os.MkdirAll(d, 0o755)
					os.WriteFile(fmt.Sprintf("%s/%s.soft%d.%d.smt2", d, c.name, round, bad), []byte("; "+o.soft+" at "+o.pos+"\n(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"+script(o.hyps[:o.nhyp], o.goal, false)+"(check-sat)\n"), 0o644)
				}
				dead[o.soft] = true
				bad++
			}
		}
		if bad > 0 {
			if alive != nil {
				// hints no longer inductive: start over with every candidate
				alive = nil
				dead = map[string]bool{}
			}
			continue
		}
		r.keptSet = nil
		for k := range x.allCands {
			if !dead[k] && (alive == nil || alive[k]) {
				r.keptSet = append(r.keptSet, k)
			}
		}
		sort.Strings(r.keptSet)
		r.kept = len(r.keptSet)
		if f := os.Getenv("GOVC_OBL"); f != "" {
			var hh []*Obligation
			for _, o := range hard {
				if strings.Contains(o.name, f) {
					hh = append(hh, o)
				} else if o.result == "" {
					o.result = "proved"
				}
			}
			hard = hh
		}
		s.solveAll(hard, false, tmo)
		if verbose {
			for _, o := range hard {
				if o.secs > 2 {
					fmt.Printf("   %6.1fs %s %s [%s] %s\n", o.secs, o.result, o.name, o.pos, o.backend)
				}
			}
		}
		for _, o := range hard {
			if o.result == "undecided" && !o.cover && !s.late() {
				s.splitProve(o, 3, 96)
			}
		}
		if alive != nil {
			failed := false
			for _, o := range hard {
				if o.result != "proved" {
					failed = true
				}
			}
			if failed && !sameCands(x.allCands, alive) {
				alive = nil
				dead = map[string]bool{}
				if verbose {
					fmt.Printf("   hints insufficient, full invariant search\n")
				}
				continue
			}
		}
		return r
	}
}

func sameCands(all, alive map[string]bool) bool { return false }

func softTmo(full bool, t int) int {
	if full {
		return 3
	}
	return t
}

var verbose bool

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract files")
	only := flag.String("only", "", "comma-separated contract names (prefix match)")
	prop := flag.String("prop", "", "property id")
	work := flag.String("work", "", "scratch directory")
	hintsFile := flag.String("hints", "", "loop invariant hints")
	writeHints := flag.Bool("write-hints", false, "")
	workers := flag.Int("j", 8, "")
	tmo := flag.Int("t", 20, "solver timeout per obligation (s)")
	out := flag.String("out", "", "result JSON")
	dump := flag.String("dump", "", "dump failing queries to this directory")
	budget := flag.Int("budget", 0, "overall time budget (s)")
	flag.BoolVar(&verbose, "v", false, "")
	list := flag.Bool("list", false, "")
	flag.Parse()

	p, err := loadProgram(*repo, *specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		writeJSON(*out, map[string]interface{}{"error": err.Error()})
		os.Exit(2)
	}
	if *list {
		for _, c := range p.contracts {
			var ps []string
			for k := range c.props {
				ps = append(ps, k)
			}
			sort.Strings(ps)
			t := "lemma"
			if c.target != nil {
				t = funcName(c.target)
			}
			fmt.Printf("%-40s %-40s %s\n", c.name, t, strings.Join(ps, " "))
		}
		return
	}
	if *work == "" {
		d, _ := os.MkdirTemp("", "govc")
		*work = d
		defer os.RemoveAll(d)
	}
	s := newSolver(*work, *workers, *tmo)
	if *budget > 0 {
		s.deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	}
	hints := map[string][]string{}
	if *hintsFile != "" {
		if b, err := os.ReadFile(*hintsFile); err == nil {
			json.Unmarshal(b, &hints)
		}
	}
	var results []*result
	ok := true
	for _, c := range p.contracts {
		if *only != "" {
			m := false
			for _, o := range strings.Split(*only, ",") {
				if strings.HasPrefix(c.name, o) {
					m = true
				}
			}
			if !m {
				continue
			}
		}
		if *prop != "" && !c.props[*prop] {
			continue
		}
		resetTerms()
		r := verifyContract(p, c, s, hints[c.name], *tmo)
		results = append(results, r)
		np, nf := 0, 0
		for _, o := range r.obls {
			if o.result == "proved" {
				np++
			} else {
				nf++
			}
		}
		status := "ok"
		if r.err != nil || nf > 0 {
			status = "FAIL"
			ok = false
		}
		fmt.Printf("%-4s %-44s %d/%d obligations, %d/%d loop invariants, %d rounds, %.1fs\n", status, c.name, np, np+nf, r.kept, r.cands, r.rounds, r.secs)
		if r.err != nil {
			fmt.Println("     error:", r.err)
		}
		k := 0
		for _, o := range r.obls {
			if o.result != "proved" {
				fmt.Printf("     %-10s %s  [%s]\n", o.result, o.name, o.pos)
				if *dump != "" {
					os.MkdirAll(*dump, 0o755)
					k++
					os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", *dump, c.name, k), []byte("(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"+script(o.hyps[:o.nhyp], o.goal, false)+"(check-sat)\n"), 0o644)
				}
			}
		}
		if *writeHints && r.err == nil {
			hints[c.name] = r.keptSet
		}
	}
	for _, l := range p.lost {
		if (*prop != "" && !l.props[*prop]) || (*only != "" && !strings.HasPrefix(l.name, strings.Split(*only, ",")[0])) {
			continue
		}
		ok = false
		fmt.Printf("FAIL %-44s contract does not fit the code: %s\n", l.name, l.why)
		results = append(results, &result{c: &Contract{name: l.name}, err: fmt.Errorf("contract does not fit the code: %s", l.why)})
	}
	if *writeHints {
		b, _ := json.MarshalIndent(hints, "", " ")
		os.WriteFile(*hintsFile, b, 0o644)
	}
	if *out != "" {
		writeResults(*out, results, s)
	}
	if !ok {
		os.Exit(1)
	}
}

func writeJSON(f string, v interface{}) {
	if f == "" {
		return
	}
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(f, b, 0o644)
}

func writeResults(f string, rs []*result, s *Solver) {
	type jo struct {
		Name, Pos, Result, Backend string
		Secs                       float64
	}
	type jr struct {
		Contract, Target, Error string
		Obligations             []jo
		Functions               []string
		Assumed                 []string
		Rounds, Kept, Cands     int
		Secs                    float64
	}
	var out []jr
	for _, r := range rs {
		j := jr{Contract: r.c.name, Rounds: r.rounds, Kept: r.kept, Cands: r.cands, Secs: r.secs}
		if r.c.target != nil {
			j.Target = funcName(r.c.target)
		}
		if r.err != nil {
			j.Error = r.err.Error()
		}
		for _, o := range r.obls {
			j.Obligations = append(j.Obligations, jo{o.name, o.pos, o.result, o.backend, o.secs})
		}
		for k := range r.fnCalls {
			j.Functions = append(j.Functions, k)
		}
		for k := range r.assumed {
			j.Assumed = append(j.Assumed, k)
		}
		sort.Strings(j.Functions)
		sort.Strings(j.Assumed)
		out = append(out, j)
	}
	writeJSON(f, map[string]interface{}{"contracts": out, "solver_s": s.secs})
}

// resetTerms drops the term tables between contracts (terms are not shared).
func resetTerms() {
	termTab = map[string]*Term{}
	termCnt = 0
	nameCnt = map[string]int{}
	ufSigs = map[string]string{}
	ufDepth = map[string]int{}
	epoch = 0
	memCnt = 0
	ufMemo = map[*Term]map[string]bool{}
	iteMemo = map[*Term]bool{}
	wmParents = map[*Term][]wmRef{}
	belowTab = map[*Term][]wmRef{}
	isWM = map[*Term]bool{}
	TT = mk(OConst, Bool, 1, "")
	FF = mk(OConst, Bool, 0, "")
}
