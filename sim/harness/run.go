package main

import (
	"fmt"
	"strings"

	"vsim/rt"
)

// Run is one simulated execution of one scenario.
type Run struct {
	Sim   *rt.Sim
	Scen  string
	Seed  uint64
	Gen   *rt.Stream
	Fault *rt.Stream
	Cfg   *rt.Stream
	Viol  []Viol
	also  map[string]string // violations of a property that are violations of another as well
	Notes []string
	// Real components this run exercised / work done (for evidence)
	Count map[string]int64
}

// Viol is a violated property.
type Viol struct {
	Props []string `json:"props"`
	Msg   string   `json:"msg"`
}

// Fail records a violation of the comma-separated properties.
func (r *Run) Fail(props, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	r.Sim.Event("VIOLATION %s: %s", props, m)
	if len(r.Viol) < 20 || !r.bad() && len(r.Viol) < 200 {
		seen := map[string]bool{}
		var ps []string
		for _, p := range strings.Split(props, ",") {
			if p != "" && !seen[p] {
				seen[p] = true
				ps = append(ps, p)
			}
			if q := r.also[p]; q != "" && !seen[q] {
				seen[q] = true
				ps = append(ps, q)
			}
		}
		r.Viol = append(r.Viol, Viol{ps, m})
	}
}

// bad tells whether the property under check is violated; without one,
// whether any is. Violations of others do not end the run.
func (r *Run) bad() bool {
	for _, v := range r.Viol {
		if target == "" || v.has(target) {
			return true
		}
	}
	return false
}

// target is the property under check.
var target string

func (r *Run) ev(format string, a ...any) { r.Sim.Event(format, a...) }

func (v Viol) has(p string) bool {
	for _, x := range v.Props {
		if x == p {
			return true
		}
	}
	return false
}

type Scenario struct {
	Name string
	Fn   func(r *Run)
}

var scenarios = map[string]func(r *Run){}

// plan is how a property's check spends its runs.
type share struct {
	scen string
	w    int
}

const (
	us  = int64(1000)
	ms  = int64(1000000)
	sec = int64(1000000000)
)

// sleep suspends the calling scenario task.
func (r *Run) sleep(d int64) { rt.TimeSleep(rt.Dur(d)) }

// until polls cond every step until it holds or the time is over, not counting
// the time that injected stalls take meanwhile.
func (r *Run) until(limit, step int64, cond func() bool) bool {
	end, st := r.Sim.Now()+limit, r.Sim.StallTotal
	for !cond() {
		if r.Sim.Now() >= end+2*(r.Sim.StallTotal-st) || r.Sim.Overrun {
			return cond()
		}
		r.sleep(step)
	}
	return true
}

// sched draws how the scheduler treats the code under test in this run.
func (r *Run) drawSched(stalls bool) {
	s := r.Sim
	switch r.Cfg.N(6) {
	case 0:
		s.PreemptMean = 0
	case 1:
		s.PreemptMean = 3
	case 2:
		s.PreemptMean = 12
	case 3:
		s.PreemptMean = 50
	case 4:
		s.PreemptMean = 300
	case 5:
		s.PreemptMean = 2000
	}
	s.SpinMean = []int{3, 13, 13, 60}[r.Cfg.N(4)]
	if stalls && s.PreemptMean > 0 && r.Cfg.Chance(1, 3) {
		s.StallNum = []int{2, 10, 40}[r.Cfg.N(3)]
		if s.PreemptMean < 10 {
			s.StallNum = 2
		}
		s.StallMax = []int64{20 * ms, 200 * ms, 1000 * ms}[r.Cfg.N(3)]
	}
}
