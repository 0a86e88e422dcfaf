package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/cybercryptio/d1-lib/v2/id"

	"verifsim/simrt"
)

// A finding is a defect of the library that is recorded instead of repaired. It counts as listed if the
// known-findings file has a line for it; its plan shows it on the present tree.
type finding struct {
	prop, class string
	plan        func() *Plan
}

// listed are the findings of the known-findings file, as "property/key".
var listed = map[string]bool{}

// listedText is what the file says about them.
var listedText = map[string]string{}

func loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// KNOWN-FINDING: property=C05 [key] text
		if !strings.HasPrefix(l, "KNOWN-FINDING: property=") {
			continue
		}
		f := strings.Fields(strings.TrimPrefix(l, "KNOWN-FINDING: property="))
		if len(f) < 2 || !strings.HasPrefix(f[1], "[") {
			continue
		}
		k := f[0] + "/" + strings.Trim(f[1], "[]")
		listed[k] = true
		listedText[k] = strings.TrimPrefix(l, "KNOWN-FINDING: ")
	}
	for _, k := range strings.Split(os.Getenv("SIM_UNLISTED"), ",") {
		delete(listed, k)
	}
}

// directed makes a plan of the sys family with one client and two users.
func directed(prop string, cfg map[string]int, ops ...Op) *Plan {
	p := &Plan{Prop: prop, Fam: "sys", Seed: 1, Cfg: map[string]int{"users": 2, "nodes": 1}, Clients: [][]Op{ops}, Sched: simrt.Sched{Mode: "seq"}}
	for k, v := range cfg {
		p.Cfg[k] = v
	}
	for i := range ops {
		ops[i].S = uint64(100 + i)
	}
	return p
}

// overlapped makes a plan of the conc family in which the first client's call is delayed at one of its storage
// accesses and the other client's calls run meanwhile.
func overlapped(prop string, seed uint64, cfg map[string]int, slow int, first []Op, meanwhile ...Op) *Plan {
	p := &Plan{Prop: prop, Fam: "conc", Seed: seed, Cfg: map[string]int{"users": 2, "nodes": 1}, Sched: simrt.Sched{Mode: "seq"}}
	for k, v := range cfg {
		p.Cfg[k] = v
	}
	l := &first[len(first)-1]
	l.F = append(l.F, Fault{K: "io-slow", N: slow, A: 1000})
	p.Clients = [][]Op{first, append([]Op{{K: "pause", A: []int{100}}}, meanwhile...)}
	for c := range p.Clients {
		for i := range p.Clients[c] {
			p.Clients[c][i].S = uint64(100 + 50*c + i)
		}
	}
	return p
}

var findings = map[string]finding{
	"C05/update-cut": {"C05", "content lost", func() *Plan {
		return directed("C05", nil,
			Op{K: "enc", A: []int{0, 0, 0, 410, 0}},
			Op{K: "upd", A: []int{0, 0, 0, 0, 411, 0}, F: []Fault{{K: "io-err", N: 2}}},
			Op{K: "dec", A: []int{0, 0, 0, 0}})
	}},
	"C02/invalid-utf8-group": {"C02", "permitted call refused", func() *Plan {
		return directed("C02", nil,
			Op{K: "setid", A: []int{1, int(id.ScopeAll), badNames, int(id.ScopeAll)}},
			Op{K: "enc", A: []int{0, 0, 0, 410, 0, badNames}},
			Op{K: "dec", A: []int{0, 1, 0, 0}})
	}},
	"C04/invalid-utf8-group": {"C04", "wrong access list", func() *Plan {
		return directed("C04", nil,
			Op{K: "enc", A: []int{0, 0, 0, 410, 0, badNames}},
			Op{K: "acc", A: []int{0, 0, 0, 0}})
	}},
	"C23/decrypt-during-update": {"C23", "not one at a time", func() *Plan {
		return overlapped("C23", 1, map[string]int{"objects": 1}, 2, []Op{{K: "upd", A: []int{0, 0, 0, 1}}}, Op{K: "dec", A: []int{0, 0, 0}})
	}},
	"C23/object-lost-update": {"C23", "not one at a time", func() *Plan {
		return overlapped("C23", 1, map[string]int{"objects": 1}, 1, []Op{{K: "addg", A: []int{0, 0, 0, 0}}}, Op{K: "addg", A: []int{0, 0, 0, 1}})
	}},
	"C23/delete-during-revoke": {"C23", "not one at a time", func() *Plan {
		return overlapped("C23", 2, map[string]int{"objects": 1}, 1, []Op{{K: "addg", A: []int{0, 0, 0, 301}}, {K: "del", A: []int{0, 1, 0}}},
			Op{K: "remg", A: []int{0, 0, 0, 301, 0, 1, 2}})
	}},
	"C23/delete-in-progress": {"C23", "not one at a time", func() *Plan {
		return overlapped("C23", 1, map[string]int{"objects": 1}, 2, []Op{{K: "del", A: []int{0, 0, 0}}}, Op{K: "dec", A: []int{0, 0, 0}}, Op{K: "acc", A: []int{0, 0, 0}})
	}},
	"C23/user-lost-update": {"C23", "not one at a time", func() *Plan {
		return overlapped("C23", 1, map[string]int{"standalone": 1}, 1, []Op{{K: "chpw", A: []int{0, 0, 0, 0}}}, Op{K: "ng", A: []int{0, 0, 0}})
	}},
	"C23/index-delete-overlap": {"C23", "not one at a time", func() *Plan {
		return overlapped("C23", 1, map[string]int{"kws": 1}, 2, []Op{{K: "ia", A: []int{0, 0, 0, 1, 0}}, {K: "ix", A: []int{0, 0, 0, 1, 0}}}, Op{K: "ia", A: []int{0, 0, 0, 2, 0}})
	}},
	"C09/password-nul": {"C09", "wrong password accepted", func() *Plan {
		return directed("C09", map[string]int{"standalone": 1}, Op{K: "login", A: []int{0, 8, 0, 0}})
	}},
	"C11/invalid-utf8-identifier": {"C11", "wrong search result", func() *Plan {
		return directed("C11", nil,
			Op{K: "ia", A: []int{0, 0, 0, 0, badNames}},
			Op{K: "is", A: []int{0, 0, 0, 0}})
	}},
}

// runKnown shows the listed findings of a property on the present tree.
func runKnown(prop string) (lines []string, viol *Plan, err string) {
	exe, _ := os.Executable()
	for _, k := range sortedKeys(findings) {
		f := findings[k]
		if f.prop != prop || !listed[k] {
			continue
		}
		cmd := exec.Command(exe, "known1", k)
		cmd.Env = append(os.Environ(), "SIM_UNLISTED="+k)
		cmd.Stderr = os.Stderr
		out, e := cmd.Output()
		var r replayed
		if e != nil || json.Unmarshal(out, &r) != nil || r.Err != "" && r.Class == "" {
			return lines, nil, fmt.Sprintf("finding %s: %v %s", k, e, r.Err)
		}
		switch {
		case r.Class == f.class:
			lines = append(lines, "KNOWN-FINDING: "+listedText[k])
		case r.Class != "":
			p := f.plan()
			p.Class, p.Msg, p.Trace = r.Class, r.Msg, r.Trace
			return lines, p, ""
		default:
			lines = append(lines, fmt.Sprintf("(finding %s no longer shows)", k))
		}
	}
	return lines, nil, ""
}

func known1(k string) {
	f, ok := findings[k]
	if !ok {
		os.Exit(2)
	}
	out := procSetup()
	r := runPlan(f.plan())
	cleanup()
	x := replayed{Trace: r.Trace, Err: r.Err}
	if r.Viol != nil {
		x.Class, x.Msg = r.Viol.Class, r.Viol.Msg
	} else if r.Foreign != "" {
		x.Err = "foreign: " + r.Foreign
	}
	b, _ := json.Marshal(x)
	_, _ = out.Write(b)
}
