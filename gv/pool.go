package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
	"time"
)

// The units of a check are verified by several processes, since the term tables of one process are not shared between
// threads. Every process loads the same source tree; a unit's result does not depend on which process does it.

type workRequest struct {
	Con, Beh string
	Scale    int // how much more time the solvers get
}

type workReply struct {
	Result  *UnitResult
	Calls   map[string]int
	Seconds map[string]float64
	Simpl   time.Duration
}

// limitScale multiplies the time limits of the solvers.
var limitScale = 1

func findBehavior(con, beh string) (*Contract, *Behavior) {
	c := contracts.funcs[con]
	if c == nil {
		return nil, nil
	}
	for _, b := range c.behaviors {
		if b.name == beh {
			return c, b
		}
	}
	return c, nil
}

func serveUnits(w *World, in io.Reader, out io.Writer) {
	dec, enc := json.NewDecoder(in), json.NewEncoder(out)
	for {
		var rq workRequest
		if dec.Decode(&rq) != nil {
			return
		}
		limitScale = rq.Scale
		c, b := findBehavior(rq.Con, rq.Beh)
		stats.mu.Lock()
		stats.calls, stats.seconds = map[string]int{}, map[string]float64{}
		stats.mu.Unlock()
		presolveTime = 0
		r := verifyUnit(w, c, b)
		for _, o := range r.Obls {
			o.Props, o.Trivial = o.props, o.goal == tTrue
			if o.Status != "proved" && o.goal != nil {
				o.Goal = o.goal.String()
				if len(o.Goal) > 3000 {
					o.Goal = o.Goal[:3000] + "..."
				}
			}
		}
		r.Failed = nil
		stats.mu.Lock()
		reply := workReply{r, stats.calls, stats.seconds, presolveTime}
		stats.mu.Unlock()
		if enc.Encode(reply) != nil {
			return
		}
	}
}

type unitWorker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
}

func startWorker() (*unitWorker, error) {
	exe := "/proc/self/exe"
	cmd := exec.Command(exe, "worker")
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &unitWorker{cmd, in, json.NewEncoder(in), json.NewDecoder(out)}, nil
}

// run verifies one unit; a worker that dies makes the unit fail.
func (u *unitWorker) run(rq workRequest) (*workReply, error) {
	if err := u.enc.Encode(rq); err != nil {
		return nil, err
	}
	var rp workReply
	if err := u.dec.Decode(&rp); err != nil {
		return nil, err
	}
	for _, o := range rp.Result.Obls {
		o.props = o.Props
	}
	return &rp, nil
}

func (u *unitWorker) stop() {
	_ = u.in.Close()
	_ = u.cmd.Wait()
}

// verifyAll verifies the units and everything next names after each result, and returns the results by unit.
func verifyAll(roots []propUnit, next func(u propUnit, r *UnitResult) []propUnit, failing func(u propUnit, r *UnitResult) bool) map[propUnit]*UnitResult {
	out := map[propUnit]*UnitResult{}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []propUnit
	seen := map[string]bool{}
	busy := 0
	push := func(us []propUnit) {
		for _, u := range us {
			if !seen[u.con+"#"+u.beh] {
				seen[u.con+"#"+u.beh] = true
				queue = append(queue, u)
			}
		}
	}
	push(roots)
	n := processes
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var wk *unitWorker
			defer func() {
				if wk != nil {
					wk.stop()
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				u := queue[0]
				queue = queue[1:]
				busy++
				mu.Unlock()
				var r *UnitResult
				var err error
				for scale := 1; scale <= 3; scale += 2 {
					if wk == nil {
						wk, err = startWorker()
					}
					var rp *workReply
					if err == nil {
						rp, err = wk.run(workRequest{u.con, u.beh, scale})
					}
					if err != nil {
						msg := fmt.Sprintf("the verification of %s#%s ended early: %v", u.con, u.beh, err)
						r = &UnitResult{Name: u.con, Func: u.con, ByProver: map[string]int{}, Obls: []*Obligation{{Unit: u.con, Kind: "unsupported", Label: msg, Status: "failed", Detail: msg}}}
						if wk != nil {
							_ = wk.cmd.Process.Kill()
							wk.stop()
							wk = nil
						}
						err = nil
						continue
					}
					r = rp.Result
					stats.mu.Lock()
					for k, v := range rp.Calls {
						stats.calls[k] += v
					}
					for k, v := range rp.Seconds {
						stats.seconds[k] += v
					}
					presolveTime += rp.Simpl
					stats.mu.Unlock()
					if !failing(u, r) {
						break
					}
				}
				mu.Lock()
				out[u] = r
				busy--
				push(next(u, r))
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return out
}
