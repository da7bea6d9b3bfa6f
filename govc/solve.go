package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Solver struct {
	dir   string
	sem   chan struct{}
	mu    sync.Mutex
	term  sync.Mutex
	n     int
	tmo   int
	keep  bool
	secs  float64
	stats map[string]int
	deadline time.Time
}

func newSolver(dir string, workers, tmo int) *Solver {
	os.MkdirAll(dir, 0o755)
	return &Solver{dir: dir, sem: make(chan struct{}, workers), tmo: tmo, stats: map[string]int{}}
}

func (s *Solver) late() bool { return !s.deadline.IsZero() && time.Now().After(s.deadline) }

type backend struct {
	name string
	args func(f string, t int) []string
	pre  string
}

var backends = []backend{
	{"z3-new/ematch", func(f string, t int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", t), f} }, "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"},
	{"z3-new", func(f string, t int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", t), f} }, ""},
	{"cvc5", func(f string, t int) []string { return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", t*1000), f} }, "(set-logic ALL)\n"},
	{"z3-new/seed", func(f string, t int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", t), f} }, "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n(set-option :smt.random_seed 7)\n(set-option :smt.relevancy 0)\n(set-option :smt.arith.solver 2)\n"},
	{"z3", func(f string, t int) []string { return []string{"z3", fmt.Sprintf("-T:%d", t), f} }, "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"},
	{"z3-new/auto", func(f string, t int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", t), f} }, "(set-option :smt.mbqi false)\n"},
}

func (s *Solver) runOne(ctx context.Context, b backend, text string, t int) (res string, secs float64) {
	s.mu.Lock()
	s.n++
	n := s.n
	s.mu.Unlock()
	f := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", n))
	os.WriteFile(f, []byte(b.pre+text+"(check-sat)\n"), 0o644)
	if !s.keep {
		defer os.Remove(f)
	}
	a := b.args(f, t)
	c2, cancel := context.WithTimeout(ctx, time.Duration(t+3)*time.Second)
	defer cancel()
	start := time.Now()
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	secs = time.Since(start).Seconds()
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown":
			return l, secs
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l, secs
		}
	}
	return "timeout", secs
}

// prove tries the back ends in turn; returns "proved", "refuted" or "undecided".
func (s *Solver) prove(text string, t int, quick bool) (string, string, float64) {
	return s.prove2(text, nil, t, quick, false)
}

// prove2: alt gives a simplified form of the same obligation (or "" when simplifying proves it)
func (s *Solver) prove2(text string, alt func() (string, bool), t int, quick, first bool) (string, string, float64) {
	tot := 0.0
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	ctx := context.Background()
	t0 := t
	if !quick && t0 > 4 {
		t0 = 4
	}
	r, sec := s.runOne(ctx, backends[0], text, t0)
	tot += sec
	if r == "unsat" {
		return "proved", backends[0].name, tot
	}
	if strings.HasPrefix(r, "error") {
		return r, backends[0].name, tot
	}
	if quick {
		r, sec = s.runOne(ctx, backends[5], text, t)
		tot += sec
		if r == "unsat" {
			return "proved", backends[5].name, tot
		}
		return "undecided", "", tot
	}
	text2 := text
	if alt != nil {
		var done bool
		text2, done = alt()
		if done {
			return "proved", "simplifier", tot
		}
		r, sec := s.runOne(ctx, backends[0], text2, t0)
		tot += sec
		if r == "unsat" {
			return "proved", backends[0].name + " (simplified)", tot
		}
	}
	if first {
		return "undecided", "", tot
	}
	// portfolio
	type rr struct {
		r string
		b string
		s float64
	}
	ch := make(chan rr, len(backends))
	c2, cancel := context.WithCancel(ctx)
	defer cancel()
	list := []backend{backends[0], backends[1], backends[2], backends[3], backends[5]}
	for _, b := range list {
		b := b
		go func() {
			q := text
			if b.name == "z3-new" || b.name == "cvc5" || b.name == "z3-new/auto" {
				q = text2
			}
			r, sec := s.runOne(c2, b, q, t)
			ch <- rr{r, b.name, sec}
		}()
	}
	res := "undecided"
	bn := ""
	for range list {
		v := <-ch
		if v.s > 0 {
			tot += v.s
		}
		if v.r == "unsat" {
			return "proved", v.b, tot
		}
		if v.r == "sat" && (v.b == "z3-new" || v.b == "cvc5") {
			res, bn = "refuted", v.b
		}
	}
	return res, bn, tot
}

func (s *Solver) solveAll(obls []*Obligation, quick bool, tmo int) {
	var wg sync.WaitGroup
	type job struct {
		o    *Obligation
		text string
	}
	jobs := make(chan job, 16)
	for i := 0; i < cap(s.sem); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if !s.deadline.IsZero() && time.Now().After(s.deadline) {
					j.o.result = "undecided (time budget)"
					continue
				}
				if j.o.cover {
					// must not be provable: look for a quick refutation of reachability
					r, sec := s.runOne(context.Background(), backends[0], j.text, 3)
					j.o.secs = sec
					if r == "unsat" {
						j.o.result = "vacuous"
					} else {
						j.o.result = "proved"
						j.o.backend = "z3-new (not refutable)"
					}
					continue
				}
				q := quick && !strings.Contains(j.o.soft, "inv_")
				j.o.result, j.o.backend, j.o.secs = s.prove2(j.text, s.alt(j.o), softT(j.o, tmo, quick), q, len(j.o.cuts) > 0)
				if len(j.o.cuts) > 0 && j.o.result == "undecided" {
					s.cutProve(j.o, tmo)
				}
			}
		}()
	}
	for _, o := range obls {
		if o.result != "" {
			continue
		}
		s.term.Lock()
		text := script(o.hyps[:o.nhyp], o.goal, false)
		s.term.Unlock()
		jobs <- job{o, text}
	}
	close(jobs)
	wg.Wait()
	if !quick {
		s.retry(obls, tmo)
	}
	for _, o := range obls {
		s.secs += o.secs
	}
}

// retry gives the few obligations left undecided three times the time, one after another: they may
// have run out of time only because the others were being solved.
func (s *Solver) retry(obls []*Obligation, tmo int) {
	var left []*Obligation
	for _, o := range obls {
		if o.result == "undecided" && !o.cover && o.soft == "" {
			left = append(left, o)
		}
	}
	if len(left) > 4 {
		return
	}
	for _, o := range left {
		if s.late() {
			return
		}
		before := o.secs
		if len(o.cuts) > 0 {
			s.cutProve(o, 3*tmo)
		} else {
			s.term.Lock()
			text := script(o.hyps[:o.nhyp], o.goal, false)
			s.term.Unlock()
			o.result, o.backend, o.secs = s.prove2(text, s.alt(o), 3*tmo, false, false)
			o.secs += before
		}
		if o.result != "proved" {
			return
		}
	}
}

// invariants written in the contracts get the whole portfolio
func softT(o *Obligation, tmo int, quick bool) int {
	if quick && strings.Contains(o.soft, "inv_") {
		return 20
	}
	return tmo
}

func (s *Solver) alt(o *Obligation) func() (string, bool) {
	return func() (string, bool) {
		s.term.Lock()
		defer s.term.Unlock()
		g := simplify(o)
		if g == nil {
			return "", true
		}
		return script(g.hyps, Not(And(g.neg...)), false), false
	}
}

// cutProve proves the obligation for each way the function returns, and that there is no other.
func (s *Solver) cutProve(o *Obligation, tmo int) {
	s.term.Lock()
	parts := []*Term{Or(append([]*Term{o.goal}, o.cuts...)...)}
	for _, c := range o.cuts {
		parts = append(parts, Imp(c, o.goal))
	}
	s.term.Unlock()
	by := ""
	for _, p := range parts {
		if p == TT {
			continue
		}
		po := *o
		po.goal, po.cuts = p, nil
		s.term.Lock()
		text := script(po.hyps[:po.nhyp], p, false)
		s.term.Unlock()
		r, b, sec := s.prove2(text, s.alt(&po), tmo, false, false)
		o.secs += sec
		if r != "proved" {
			o.result, o.backend = r, b
			if d := os.Getenv("GOVC_SPLITDUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/%s.cut.%d.smt2", d, o.contract, p.id), []byte("(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"+text+"(check-sat)\n"), 0o644)
			}
			return
		}
		by = b
	}
	o.result, o.backend = "proved", by+" (return by return)"
}
