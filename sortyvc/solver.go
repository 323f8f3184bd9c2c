package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of one satisfiability query
type Result struct {
	res    string // "unsat", "sat", "unknown", "error: ..."
	solver string
	ms     int64
	core   []string
}

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

type Pool struct {
	sem     chan *z3proc
	bin     string
	dead    time.Time // nothing is decided after this time
	alt     *Pool     // second solver, for what the first one does not decide
	mu      sync.Mutex
	cache   map[[32]byte]Result
	queries atomic.Int64
	hits    atomic.Int64
	timeMs  atomic.Int64
}

func NewPool(bin string, n int) *Pool {
	p := &Pool{sem: make(chan *z3proc, n), bin: bin, cache: map[[32]byte]Result{}}
	for i := 0; i < n; i++ {
		p.sem <- nil
	}
	return p
}

func (p *Pool) start() (*z3proc, error) {
	c := exec.Command(p.bin, "-in")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err = c.Start(); err != nil {
		return nil, err
	}
	return &z3proc{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (z *z3proc) kill() {
	z.in.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

type Limits struct {
	rl    int // resource limit, deterministic
	tmo   time.Duration
	seed  int
	bidir bool
	alt   bool // use the second solver
}

// Batch checks each goal (formula text, to be asserted) together with pre (declarations
// and hypotheses) under assumptions. Goals are independent.
func (p *Pool) Batch(pre string, assum []string, goals []string, lim Limits) []Result {
	if lim.alt && p.alt != nil {
		lim.alt = false
		return p.alt.Batch(pre, assum, goals, lim)
	}
	res := make([]Result, len(goals))
	keys := make([][32]byte, len(goals))
	var todo []int
	as := strings.Join(assum, " ")
	hp := sha256.Sum256([]byte(fmt.Sprint(pre, "\x00", as, "\x00", lim.rl, lim.seed)))
	p.mu.Lock()
	for i, g := range goals {
		keys[i] = sha256.Sum256([]byte(string(hp[:]) + g))
		if r, ok := p.cache[keys[i]]; ok {
			res[i] = r
			p.hits.Add(1)
		} else {
			todo = append(todo, i)
		}
	}
	p.mu.Unlock()
	if len(todo) == 0 {
		return res
	}
	z := <-p.sem
	defer func() { p.sem <- z }()
	opts := fmt.Sprintf("(reset)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :produce-unsat-cores true)\n"+
		"(set-option :smt.random_seed %d)\n(set-option :timeout %d)\n(set-option :rlimit %d)\n", lim.seed, lim.tmo.Milliseconds(), lim.rl)
	sent := false
	for _, i := range todo {
		if !p.dead.IsZero() && time.Now().After(p.dead) {
			res[i] = Result{res: "unknown", solver: "out of time"}
			continue
		}
		if !sent {
			if z != nil && z.n > 2000 {
				z.kill()
				z = nil
			}
			if z == nil {
				var err error
				if z, err = p.start(); err != nil {
					res[i] = Result{res: "error: cannot start " + p.bin}
					continue
				}
			}
			io.WriteString(z.in, opts+pre)
			sent = true
		}
		z.n++
		t0 := time.Now()
		zz := z
		kill := time.AfterFunc(lim.tmo*2+2*time.Second, func() { zz.cmd.Process.Kill() })
		io.WriteString(z.in, "(push)\n(assert "+goals[i]+")\n(check-sat-assuming ("+as+"))\n(get-unsat-core)\n(pop)\n(echo \"=\")\n")
		var lines []string
		ok := false
		for {
			l, err := z.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err != nil {
				break
			}
			if l == "=" {
				ok = true
				break
			}
			if l != "" {
				lines = append(lines, l)
			}
		}
		kill.Stop()
		ms := time.Since(t0).Milliseconds()
		p.queries.Add(1)
		p.timeMs.Add(ms)
		r := Result{res: "unknown", solver: p.bin, ms: ms}
		if !ok {
			z.kill()
			z, sent = nil, false
		} else {
			for _, l := range lines {
				if l == "unsat" || l == "sat" || l == "unknown" {
					r.res = l
					break
				}
				if strings.HasPrefix(l, "(error") {
					r.res = "error: " + l
					break
				}
			}
			if r.res == "unsat" {
				for _, l := range lines {
					if strings.HasPrefix(l, "(") && !strings.HasPrefix(l, "(error") {
						r.core = strings.Fields(strings.Trim(l, "()"))
					}
				}
			}
		}
		res[i] = r
		if !strings.HasPrefix(r.res, "error") {
			p.mu.Lock()
			p.cache[keys[i]] = r
			p.mu.Unlock()
		}
	}
	return res
}

// runOnce runs a stand-alone query with another solver process
func runOnce(bin string, args []string, text string, tmo time.Duration) Result {
	ctx, cancel := context.WithTimeout(context.Background(), tmo+time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Stdin = strings.NewReader(text)
	t0 := time.Now()
	out, _ := c.Output()
	ms := time.Since(t0).Milliseconds()
	s := strings.TrimSpace(string(out))
	if k := strings.IndexByte(s, '\n'); k >= 0 {
		s = s[:k]
	}
	switch s {
	case "unsat", "sat":
	default:
		s = "unknown"
	}
	return Result{res: s, solver: bin, ms: ms}
}
