package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// workerOut is the outcome of one contract, sent from a worker process.
type workerOut struct {
	Res    *FuncResult
	Lemmas []string
	Total  float64
	NQ     int
}

// cmdWorker verifies one contract (or lemma) and prints the outcome.
func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	prop := fs.String("prop", "", "")
	fn := fs.String("func", "", "")
	lemma := fs.String("lemma", "", "")
	scale := fs.Float64("scale", 1, "")
	to := fs.Float64("t", 10, "")
	dl := fs.Int64("deadline", 0, "unix time")
	tokens := fs.Bool("tokens", false, "solver runs take tokens from descriptors 3 and 4")
	fs.Parse(args)
	P, err := loadProgram(*repo)
	if err != nil {
		fatal(err)
	}
	sp, err := loadSpecs(filepath.Join(*root, "contracts"))
	if err != nil {
		fatal(err)
	}
	s := newSolver("")
	s.scale = *scale
	if *dl > 0 {
		s.deadline = time.Unix(*dl, 0)
	}
	if *tokens {
		s.tokR, s.tokW = os.NewFile(3, "tokens"), os.NewFile(4, "tokens")
	}
	if err := loadAxioms(P, sp, s, *prop); err != nil {
		fatal(err)
	}
	out := workerOut{}
	if *lemma != "" {
		s.lemmaUsed = map[string]bool{*lemma: true}
		for _, r := range proveLemmas(s, *to) {
			if r.Key == "lemma "+*lemma {
				out.Res = r
			}
		}
		delete(s.lemmaUsed, *lemma)
	} else {
		con := sp.contracts[*fn]
		if con == nil {
			fatal(fmt.Errorf("no contract %s", *fn))
		}
		r := verifyFunc(P, sp, s, *prop, con)
		dischargeAll(s, []*FuncResult{r}, *to)
		out.Res = r
		n := 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				continue
			}
			if n++; n > 40 {
				continue
			}
			o.GoalText = clip(o.Goal.String(), 4000)
			o.Consts = termConsts(append(append([]*Term{}, o.PC...), o.Goal))
			if n < 4 && (s.deadline.IsZero() || time.Now().Before(s.deadline)) {
				o.Cex = clip(s.model(o.PC, o.Goal, 5), 6000)
			}
		}
	}
	for n := range s.lemmaUsed {
		out.Lemmas = append(out.Lemmas, n)
	}
	out.Total, out.NQ = s.Total, s.NQ
	json.NewEncoder(os.Stdout).Encode(out)
}

// pool runs worker processes that share a number of solver slots.
type pool struct {
	repo, root, prop string
	tokR, tokW       *os.File
	slots            chan struct{}
	mu               sync.Mutex
	total            float64
	nq               int
	stop             time.Time
	stopped          chan struct{}
}

// stopAt ends the proof at the given time.
func (p *pool) stopAt(t time.Time) {
	p.mu.Lock()
	p.stop = t
	p.mu.Unlock()
	close(p.stopped)
}

func newPool(repo, root, prop string) *pool {
	p := &pool{repo: repo, root: root, prop: prop, slots: make(chan struct{}, 6), stopped: make(chan struct{})}
	r, w, err := os.Pipe()
	if err != nil {
		fatal(err)
	}
	p.tokR, p.tokW = r, w
	w.Write([]byte("tttttttt"))
	return p
}

func (p *pool) run(key string, timeout, scale float64, deadline time.Time) *workerOut {
	p.slots <- struct{}{}
	defer func() { <-p.slots }()
	name := strings.TrimPrefix(strings.TrimPrefix(key, "func "), "lemma ")
	fail := func(e string) *workerOut {
		return &workerOut{Res: &FuncResult{Key: name, Err: e}}
	}
	p.mu.Lock()
	if !p.stop.IsZero() && p.stop.Before(deadline) {
		deadline = p.stop
	}
	p.mu.Unlock()
	if time.Until(deadline) < time.Second {
		return fail("time budget of the check used up")
	}
	a := []string{"worker", "-repo", p.repo, "-root", p.root, "-prop", p.prop, "-t", fmt.Sprint(timeout), "-scale", fmt.Sprint(scale), "-deadline", fmt.Sprint(deadline.Unix()), "-tokens"}
	if strings.HasPrefix(key, "lemma ") {
		a = append(a, "-lemma", name)
	} else {
		a = append(a, "-func", key)
	}
	t0 := time.Now()
	cmd := exec.Command(os.Args[0], a...)
	cmd.ExtraFiles = []*os.File{p.tokR, p.tokW}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return fail(err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	timer := time.After(time.Until(deadline) + 15*time.Second)
	stopped := p.stopped
	for run := true; run; {
		select {
		case err = <-done:
			run = false
		case <-stopped:
			p.mu.Lock()
			timer = time.After(time.Until(p.stop))
			p.mu.Unlock()
			stopped = nil
		case <-timer:
			cmd.Process.Kill()
			<-done
			return fail("time budget of the check used up")
		}
	}
	var out workerOut
	if e := json.Unmarshal(so.Bytes(), &out); e != nil || out.Res == nil {
		return fail(fmt.Sprintf("worker: %v %v %s", err, e, clip(se.String(), 600)))
	}
	p.mu.Lock()
	p.total += out.Total
	p.nq += out.NQ
	p.mu.Unlock()
	if os.Getenv("GOCV_V") != "" {
		bad := 0
		for _, o := range out.Res.Obls {
			if o.Status != "proved" {
				bad++
			}
		}
		fmt.Fprintf(os.Stderr, "%-60s %3d paths %4d obls %3d open %6.1fs solver %6.1fs %s\n", key, out.Res.Paths, len(out.Res.Obls), bad, time.Since(t0).Seconds(), out.Total, out.Res.Err)
	}
	return &out
}

// instrs is the size of a function.
func instrs(f *ssa.Function) (n int) {
	if f == nil {
		return 0
	}
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	for _, g := range f.AnonFuncs {
		n += instrs(g)
	}
	return n
}

// verifyAll verifies the given contracts, what they rely on, and the lemmas used.
func (p *pool) verifyAll(P *Program, sp *Specs, todo []string, timeout, scale float64, deadline time.Time, follow bool) []*FuncResult {
	seen := map[string]bool{}
	res := make(chan *workerOut)
	n := 0
	add := func(ks []string) {
		for _, k := range ks {
			if seen[k] || !strings.HasPrefix(k, "func ") && !strings.HasPrefix(k, "lemma ") {
				continue
			}
			seen[k] = true
			n++
			go func(k string) { res <- p.run(k, timeout, scale, deadline) }(k)
			time.Sleep(2 * time.Millisecond) // in this order
			if follow && sp.contracts[k] != nil {
				ks = append(ks, sp.contracts[k].Also...)
			}
		}
	}
	// The largest functions first.
	size := map[string]int{}
	for _, k := range todo {
		size[k] = instrs(P.funcs[strings.TrimPrefix(k, "func ")])
	}
	sort.SliceStable(todo, func(i, j int) bool { return size[todo[i]] > size[todo[j]] })
	add(todo)
	var rs []*FuncResult
	for n > 0 {
		o := <-res
		n--
		rs = append(rs, o.Res)
		if !follow {
			continue
		}
		add(o.Res.Used)
		for _, l := range o.Lemmas {
			add([]string{"lemma " + l})
		}
		for _, k := range sp.contracts["func "+o.Res.Key].also() {
			add([]string{k})
		}
	}
	return rs
}

func (c *Contract) also() []string {
	if c == nil {
		return nil
	}
	return c.Also
}
