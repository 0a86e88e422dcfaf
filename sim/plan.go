package main

import (
	"encoding/json"
	"fmt"
	"os"

	"verifsim/simrt"
)

// Fault is one injected fault, placed relative to the operation it belongs to.
type Fault struct {
	K string `json:"k"`           // kind
	N int    `json:"n"`           // n-th provider call (or random read, or disk operation) of the operation
	A int    `json:"a,omitempty"` // argument
}

// Op is one operation of a client.
type Op struct {
	K string  `json:"k"`
	A []int   `json:"a,omitempty"`
	S uint64  `json:"s"`
	F []Fault `json:"f,omitempty"`
}

func (o *Op) arg(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Plan is everything that decides one run.
type Plan struct {
	Prop    string         `json:"property"`
	Fam     string         `json:"family"`
	Seed    uint64         `json:"seed"`
	Cfg     map[string]int `json:"cfg"`
	Clients [][]Op         `json:"clients"`
	Sched   simrt.Sched    `json:"sched"`
	Class   string         `json:"class,omitempty"` // violation class (in replay files)
	Msg     string         `json:"msg,omitempty"`
	Trace   []string       `json:"trace,omitempty"` // event trace of the violating run (in replay files)
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	_ = json.Unmarshal(b, q)
	if q.Cfg == nil {
		q.Cfg = map[string]int{}
	}
	return q
}

func (p *Plan) ops() int {
	n := 0
	for _, c := range p.Clients {
		n += len(c)
	}
	return n
}

func loadPlan(name string) (*Plan, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		return nil, fmt.Errorf("%s: %v", name, err)
	}
	if p.Cfg == nil {
		p.Cfg = map[string]int{}
	}
	return p, nil
}

// Violation is a broken property.
type Violation struct {
	Class string
	Msg   string
}

// Result is what one run yields.
type Result struct {
	Viol    *Violation
	Foreign string // an oracle of another property failed: not this check's business
	Known   map[string]string
	Out     simrt.Outcome
	Stats   *Stats
	Trace   []string
	Sample  string
	Err     string // harness error
	logs    [][]string
}

// Stats are the counters of a run or batch.
type Stats struct {
	Ops      map[string]int `json:"ops"`
	Results  map[string]int `json:"results"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Calls    int            `json:"calls"`
	Checks   int            `json:"checks"`
	SimNanos int64          `json:"sim_nanos"`
	Steps    int64          `json:"steps"`
	Switches int            `json:"switches"`
}

func newStats() *Stats {
	return &Stats{Ops: map[string]int{}, Results: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}}
}

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (s *Stats) add(o *Stats) {
	addMap(s.Ops, o.Ops)
	addMap(s.Results, o.Results)
	addMap(s.Faults, o.Faults)
	addMap(s.Probes, o.Probes)
	s.Calls += o.Calls
	s.Checks += o.Checks
	s.SimNanos += o.SimNanos
	s.Steps += o.Steps
	s.Switches += o.Switches
}
