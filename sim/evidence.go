package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

// components says what of a family's runs is real code and what stands in for something.
var components = map[string]any{
	"real": []string{
		"github.com/cybercryptio/d1-lib/v2 (all packages, from /repo's working tree, with scheduling points inserted by a build overlay)",
		"go.etcd.io/bbolt (page format, transactions, freelist; scheduling points inserted; mmap reads are real)",
		"AES-GCM, AES, SHA-3, KMAC, UUID, JSON encoding, zerolog",
	},
	"stub": []string{
		"goroutine scheduling, sync.Mutex/RWMutex/Once/Map/Pool/WaitGroup, channels and timers (simulated scheduler)",
		"crypto/rand and math/rand (seeded streams)",
		"time.Now and timers (one simulated clock per node)",
		"disk below bbolt: WriteAt, Truncate and fdatasync keep a durable image besides the file",
		"PBKDF2 of password hashes (one HMAC instead of the full iteration count)",
		"network between nodes and storage (direct calls with injected loss, delay and failure)",
		"identity provider (stub) in runs without the library's Standalone provider; reference store in runs with store 0",
	},
}

func writeEvidence(id, tier string, seed uint64, start time.Time, count, nw int, reps []report, nviol int) {
	tot := newStats()
	runs, trivial := 0, 0
	foreign := map[string]int{}
	hashes := map[uint64]bool{}
	var samples []string
	for _, r := range reps {
		if r.Stats == nil {
			continue
		}
		tot.add(r.Stats)
		runs += r.Runs
		trivial += r.Trivial
		addMap(foreign, r.Foreign)
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		if len(samples) < 4 {
			samples = append(samples, r.Samples...)
		}
	}
	wall := time.Since(start).Seconds()
	cov := map[string]any{
		"evaluations":         runs,
		"distinct_nontrivial": len(hashes),
		"rule":                "One case is one simulated run: a seed makes a plan (deployment, programs of the clients, faults, schedule) and the simulator executes it. Non-trivial: at least 3 library calls ran and a fault fired, tasks were interleaved, or more than 5 provider calls were made. Distinct: by a hash over every scheduling decision (task, step) and every harness event of the run.",
		"samples":             samples,
		"planned_runs":        count,
		"trivial_runs":        trivial,
		"runs_per_hour":       int(float64(runs) / wall * 3600),
		"seeds_per_hour":      int(float64(runs) / wall * 3600),
		"simulated_seconds":   float64(tot.SimNanos) / 1e9,
		"faults_injected":     tot.Faults,
		"library_calls":       tot.Ops,
		"results":             tot.Results,
		"provider_calls":      tot.Calls,
		"scheduling_points":   tot.Steps,
		"task_switches":       tot.Switches,
		"distinct_measure":    "distinct interleavings: different hashes over all scheduling decisions and events",
		"probes":              tot.Probes,
		"set_aside":           foreign,
		"workers":             nw,
		"components":          components,
	}
	if cov["samples"] == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": assumptions(id), "wall_s": wall, "violations": nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func assumptions(id string) []string {
	a := []string{
		"The search is seeded and bounded: what it did not reach is not excluded.",
		"Preemption happens at statements of the instrumented packages and at provider, lock, channel, clock and randomness operations; weak-memory effects below that are not modelled.",
	}
	switch id {
	case "C05", "C06", "C12", "C15", "C04":
		a = append(a, "The simulated disk loses or tears writes that were not synced, at 512-byte sectors; it never loses synced data or corrupts silently.")
	case "C07":
		a = append(a, "The attacker does not know any key; replaying an older version of the very same record is not counted as an alteration (nothing the library keeps could tell).")
	case "C09":
		a = append(a, "The password hash is computed with a stand-in for PBKDF2 that has the same interface and also separates different passwords and salts.")
	}
	return a
}

// budgetOf is the number of runs and the time limit in seconds of a check.
func budgetOf(id, tier string) (int, int) {
	b, ok := budgets[id]
	if !ok || generators[id] == nil {
		return 0, 0
	}
	if tier == "thorough" {
		return b * 40, 780
	}
	return b, 120
}

// budgets are the runs of a quick check.
var budgets = map[string]int{
	"C01": 9000, "C02": 11000, "C03": 12000, "C04": 12000, "C05": 15000, "C06": 14000, "C07": 15000, "C08": 26000,
	"C09": 16000, "C10": 13000, "C11": 2000, "C12": 12000, "C13": 80000, "C14": 60000, "C15": 48000, "C16": 20000,
	"C17": 22000, "C18": 8000, "C19": 26000, "C20": 26000, "C21": 13000, "C22": 20000, "C23": 90000, "C26": 60000,
}

func claimed() []string {
	var l []string
	for _, k := range sortedKeys(generators) {
		if budgets[k] > 0 {
			l = append(l, k)
		}
	}
	return l
}
