package main

import (
	"bytes"
	"encoding/json"
	"os"
	"strings"

	"github.com/rs/zerolog"
)

// Debug logging (C21).

type lfield struct{ k, v string }

// parseLine splits a log line into its fields, in order, duplicates included.
func parseLine(line string) ([]lfield, bool) {
	if !strings.HasSuffix(line, "\n") || strings.Count(line, "\n") != 1 {
		return nil, false
	}
	d := json.NewDecoder(strings.NewReader(line))
	t, err := d.Token()
	if err != nil || t != json.Delim('{') {
		return nil, false
	}
	var fs []lfield
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, false
		}
		ks, ok := k.(string)
		if !ok {
			return nil, false
		}
		var v json.RawMessage
		if d.Decode(&v) != nil {
			return nil, false
		}
		var s string
		if json.Unmarshal(v, &s) != nil {
			s = string(v)
		}
		fs = append(fs, lfield{ks, s})
	}
	if t, err = d.Token(); err != nil || t != json.Delim('}') {
		return nil, false
	}
	rest := make([]byte, 4)
	n, _ := d.Buffered().Read(rest)
	return fs, strings.TrimSpace(string(rest[:n])) == ""
}

func logGroup(kind string) string {
	switch kind {
	case "ia", "is", "ix":
		return "index"
	case "nu", "login", "chpw", "gi", "ng", "aug", "rug", "du":
		return "id"
	}
	return "d1"
}

// checkLogs checks the lines written on behalf of a call.
func (w *World) checkLogs(oc *OpCtx) {
	if w.cfg("log") == 0 || oc.quiet {
		if len(oc.lines) > 0 {
			w.fail("C21", "output without logger", "%s wrote %q", oc.kind, oc.lines[0])
		}
		return
	}
	w.stats.Probes["log-lines"] += len(oc.lines)
	seenUID, seenOID := false, false
	oids := map[string]bool{}
	last := ""
	if w.cfg("loglevel") > 0 && len(oc.lines) > 0 {
		w.fail("C21", "output below the level", "%s wrote %q to a logger which does not take debug lines", oc.kind, oc.lines[0])
		return
	}
	for i, l := range oc.lines {
		last = ""
		hasUID, hasOID := false, false
		fs, ok := parseLine(l)
		if !ok {
			w.fail("C21", "malformed log line", "%s wrote %q", oc.kind, l)
			return
		}
		method, level, apps := "", "", 0
		for _, f := range fs {
			switch f.k {
			case "level":
				if level == "" {
					level = f.v
				}
			case "method":
				if method == "" {
					method = f.v
				}
				last = f.v
			case "uid":
				hasUID = true
				seenUID = seenUID || f.v == oc.uid
				if oc.uid != "" && f.v != oc.uid {
					w.fail("C21", "wrong caller in log", "%s by %q wrote a line naming the caller %q: %s", oc.kind, oc.uid, f.v, l)
					return
				}
			case "oid":
				seenOID, hasOID = true, true
				oids[f.v] = true
				if oc.oid != "" && f.v != oc.oid {
					w.fail("C21", "wrong object in log", "%s on %s wrote a line naming the object %s: %s", oc.kind, oc.oid, f.v, l)
					return
				}
			}
			if strings.HasPrefix(f.k, "app") && f.v == "sim" {
				apps++
			}
		}
		if level != "debug" {
			w.fail("C21", "wrong log level", "%s wrote a line of level %q: %s", oc.kind, level, l)
			return
		}
		want := w.cfg("log")
		if apps != want {
			w.fail("C21", "caller's log fields lost", "%s wrote a line with %d of the caller's %d fields: %s", oc.kind, apps, want, l)
			return
		}
		if method == "" {
			w.fail("C21", "no operation in log", "%s wrote a line that does not name the operation: %s", oc.kind, l)
			return
		}
		if oc.uid != "" && !hasUID && oc.idAt > 0 && i >= oc.idAt-1 && logGroup(oc.kind) != "id" {
			w.fail("C21", "caller not logged", "%s by %q wrote a line that does not name the caller, after it was known: %s", oc.kind, oc.uid, l)
			return
		}
		if oc.oid != "" && !hasOID && oc.kind != "enc" {
			w.fail("C21", "object not logged", "%s on %s wrote a line that does not name the object: %s", oc.kind, oc.oid, l)
			return
		}
		if m, ok := w.methods[oc.kind]; ok && m != method {
			w.fail("C21", "wrong operation in log", "%s wrote a line naming the operation %q instead of %q: %s", oc.kind, method, m, l)
			return
		} else if !ok {
			for _, k := range sortedKeys(w.methods) {
				if k != oc.kind && logGroup(k) == logGroup(oc.kind) && w.methods[k] == method {
					w.fail("C21", "wrong operation in log", "%s and %s both call themselves %q: %s", oc.kind, k, method, l)
					return
				}
			}
			w.methods[oc.kind] = method
		}
	}
	if len(oids) > 1 {
		w.fail("C21", "wrong object in log", "%s wrote lines naming %d objects", oc.kind, len(oids))
		return
	}
	if oc.logOK && oc.done && len(oc.lines) > 0 {
		// Looking up the caller's identity names itself as well, but only in its own lines: what follows belongs
		// to the call alone.
		if m, ok := w.methods[oc.kind]; ok && last != m {
			w.fail("C21", "wrong operation in log", "the last line of a successful %s names the operation %q instead of %q: %s", oc.kind, last, m, oc.lines[len(oc.lines)-1])
			return
		}
		if oc.uid != "" && !seenUID {
			w.fail("C21", "caller not logged", "no line of a successful %s names the caller %q: %s", oc.kind, oc.uid, oc.lines[len(oc.lines)-1])
			return
		}
		if oc.oid != "" && !seenOID {
			w.fail("C21", "object not logged", "no line of a successful %s names the object: %s", oc.kind, oc.lines[len(oc.lines)-1])
			return
		}
	}
	// The caller's own logger still writes what it wrote before.
	n := len(w.logs.own)
	w.logs.base.Error().Msg("probe")
	zerolog.Ctx(w.logs.ctx).Error().Msg("probe")
	got := w.logs.own[n:]
	if len(got) != 2 || got[0] != w.logs.probe || got[1] != w.logs.probe {
		w.fail("C21", "caller's logger changed", "after %s the caller's logger writes %q instead of %q", oc.kind, got, w.logs.probe)
	}
	w.logs.own = w.logs.own[:n]
}

// outFile receives what the process writes to standard output and error.
var outFile *os.File

// outPos is how much of it has been seen.
var outPos int64

// checkSilence checks that nothing was written except to the caller's logger.
func (w *World) checkSilence() {
	if outFile == nil {
		return
	}
	st, err := outFile.Stat()
	if err != nil || st.Size() <= outPos {
		return
	}
	b := make([]byte, st.Size()-outPos)
	_, _ = outFile.ReadAt(b, outPos)
	outPos = st.Size()
	if len(bytes.TrimSpace(b)) > 0 {
		if len(b) > 300 {
			b = b[:300]
		}
		w.fail("C21", "output outside the logger", "the library wrote to standard output or error: %q", b)
	}
}
