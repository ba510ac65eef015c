package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// checkProperty decides one property: it verifies every unit that states the property and, transitively, every unit
// whose contract those rely on, all of them generated from the current source.

type propUnit struct {
	con  string
	beh  string
	root bool // states the property itself, so that only the clauses for this property count
}

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func clauseHas(b *Behavior, id string) bool {
	for _, c := range b.clauses {
		if has(c.props, id) {
			return true
		}
	}
	return false
}

func rootsOf(id string) []propUnit {
	var out []propUnit
	for _, n := range contractNames() {
		c := contracts.funcs[n]
		if c.trusted || c.iface || strings.HasPrefix(n, "pool:") {
			continue
		}
		main := c.behaviors[0]
		for _, b := range c.behaviors {
			if has(b.props, id) || clauseHas(b, id) || (b != main && len(b.props) == 0 && has(main.props, id)) {
				out = append(out, propUnit{n, b.name, true})
			}
		}
	}
	return out
}

type knownFinding struct{ prop, unit, what string }

func loadKnown(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=C99 obligation=UNIT/KIND/LABEL what fails
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 3)
		if len(f) == 3 {
			out = append(out, knownFinding{f[0], strings.TrimPrefix(f[1], "obligation="), f[2]})
		}
	}
	return out
}

type checkOut struct {
	id       string
	tier     string
	seed     int
	start    time.Time
	units    []*UnitResult
	failed   []*Obligation
	obls     int
	proved   int
	by       map[string]int
	funcs    map[string]bool
	roots    []string
	inlined  map[string]bool
	trusted  map[string]bool
	spawned  map[string]bool
	harness  string
	samples  []string
	problems []string
}

func checkProperty(w *World, id, verif, repo string, missing []string) int {
	co := &checkOut{id: id, tier: envOr("VERIF_TIER", "quick"), start: time.Now(), by: map[string]int{}, funcs: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, spawned: map[string]bool{}}
	co.seed, _ = strconv.Atoi(envOr("VERIF_SEED", "1"))
	if w != nil {
		co.verify(w, missing)
	} else {
		for _, m := range missing {
			co.failed = append(co.failed, &Obligation{Unit: "loading", Kind: "unsupported", Label: m, Status: "failed", Detail: m})
		}
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var left []*Obligation
	for _, o := range co.failed {
		k := -1
		for i, kf := range known {
			if kf.prop == id && kf.unit == strings.ReplaceAll(o.Name(), " ", "_") {
				k = i
			}
		}
		if k >= 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[k].what)
			continue
		}
		left = append(left, o)
	}
	violations := 0
	runHarness := len(left) > 0 || co.tier == "thorough" || envOr("GV_HARNESS", "") != ""
	replayDir := filepath.Join(verif, "evidence", "replay")
	_ = os.MkdirAll(replayDir, 0o755)
	replay := filepath.Join(replayDir, id+".txt")
	hr := &harnessResult{}
	if runHarness {
		hr = runReplay(verif, repo, id, co.tier, co.seed)
		co.harness = hr.summary
	}
	if len(left) > 0 || hr.failed {
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s\n", id)
		if hr.failed {
			fmt.Fprintf(&b, "\nFAILING INPUT, replayed against the code in %s:\n%s\n\nto replay: %s\n", repo, hr.failure, hr.cmd)
		} else {
			fmt.Fprintf(&b, "\nno failing input was found by the replay: %s\n", hr.summary)
		}
		fmt.Fprintf(&b, "\n%d obligations are not discharged:\n", len(left))
		for _, o := range left {
			fmt.Fprintf(&b, "\n- %s at %s\n  kind %s, %s\n  verdicts of the back ends: %s\n", o.Unit, o.Pos, o.Kind, o.Label, o.Detail)
			if len(o.Trace) > 0 {
				fmt.Fprintf(&b, "  path: %s\n", strings.Join(o.Trace, " "))
			}
			if o.Goal != "" {
				fmt.Fprintf(&b, "  goal: %s\n", o.Goal)
			}
		}
		_ = os.WriteFile(replay, b.Bytes(), 0o644)
		for i, o := range left {
			if i == 8 {
				fmt.Printf("... and %d more\n", len(left)-i)
				break
			}
			fmt.Printf("not discharged: %s %s %s (%s): %s\n", o.Unit, o.Kind, o.Label, o.Pos, firstLine(o.Detail))
		}
		violations = 1
		if hr.failed {
			fmt.Printf("failing input: %s\n", firstLine(hr.failure))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, replay)
		}
	} else {
		_ = os.Remove(replay)
	}
	co.writeEvidence(verif, violations)
	if violations > 0 {
		return 1
	}
	fmt.Printf("%s: %d obligations in %d units discharged %v in %.1f s%s\n", id, co.proved, len(co.units), co.by, time.Since(co.start).Seconds(), ifs(co.harness != "", "; "+co.harness, ""))
	return 0
}

func ifs(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (co *checkOut) verify(w *World, missing []string) {
	for _, m := range missing {
		co.failed = append(co.failed, &Obligation{Unit: "conformance", Kind: "unsupported", Label: m, Status: "failed", Detail: m})
	}
	roots := rootsOf(co.id)
	if len(roots) == 0 {
		co.failed = append(co.failed, &Obligation{Unit: co.id, Kind: "unsupported", Label: "no unit states this property", Status: "failed"})
	}
	counts := func(u propUnit, o *Obligation) bool {
		return !(u.root && o.Kind == "ensures" && len(o.props) > 0 && !has(o.props, co.id))
	}
	needs := func(u propUnit, r *UnitResult) []propUnit {
		var out []propUnit
		if strings.Contains(r.Name, "@field:") {
			// the function behind a field meets its own contract: that is shown under its own properties
			for _, n := range r.Used {
				co.trusted["contract "+n+", which is verified under its own properties"] = true
			}
			return nil
		}
		for _, n := range append(append([]string{}, r.Used...), r.Spawned...) {
			beh := "main"
			if i := strings.Index(n, "#"); i >= 0 {
				n, beh = n[:i], n[i+1:]
			}
			c := contracts.funcs[n]
			switch {
			case c == nil, c.trusted:
			case c.iface:
				for _, i := range c.impls {
					out = append(out, propUnit{i, beh, false})
				}
			default:
				out = append(out, propUnit{n, beh, false})
			}
		}
		return out
	}
	// units are worth another try if a few obligations ran out of time
	failing := func(u propUnit, r *UnitResult) bool {
		n, late := 0, false
		for _, o := range r.Obls {
			if o.Status != "proved" && counts(u, o) {
				n++
				late = late || strings.Contains(o.Detail, "timeout")
			}
		}
		return late && n <= 4
	}
	results := verifyAll(roots, needs, failing)
	var order []propUnit
	for u := range results {
		order = append(order, u)
	}
	sort.Slice(order, func(i, j int) bool {
		a, b := order[i], order[j]
		if a.root != b.root {
			return a.root
		}
		return a.con+"#"+a.beh < b.con+"#"+b.beh
	})
	for _, u := range order {
		c, r := contracts.funcs[u.con], results[u]
		co.units = append(co.units, r)
		if u.root {
			co.roots = append(co.roots, r.Name)
		}
		co.funcs[c.fn()] = true
		for _, o := range r.Obls {
			if !counts(u, o) {
				continue
			}
			co.obls++
			if o.Status == "proved" {
				co.proved++
				co.by[o.Prover]++
				if len(co.samples) < 12 && !o.Trivial && o.Prover != "simplifier" {
					co.samples = append(co.samples, fmt.Sprintf("%s %s %s (%s) by %s", o.Unit, o.Kind, o.Label, o.Pos, o.Prover))
				}
			} else {
				co.failed = append(co.failed, o)
			}
		}
		for _, n := range r.Inlined {
			co.inlined[n] = true
		}
		for _, n := range r.Trusted {
			co.trusted[n] = true
		}
		for _, n := range append(append([]string{}, r.Used...), r.Spawned...) {
			if i := strings.Index(n, "#"); i >= 0 {
				n = n[:i]
			}
			switch c := contracts.funcs[n]; {
			case c == nil:
				co.failed = append(co.failed, &Obligation{Unit: r.Name, Kind: "unsupported", Label: "unknown contract " + n, Status: "failed"})
			case c.trusted:
				co.trusted["contract "+n] = true
			}
		}
	}
}

func (co *checkOut) writeEvidence(verif string, violations int) {
	stats.mu.Lock()
	secs := map[string]float64{}
	tot := 0.0
	for k, v := range stats.seconds {
		secs[k] = float64(int(v*100)) / 100
		tot += v
	}
	calls := map[string]int{}
	for k, v := range stats.calls {
		calls[k] = v
	}
	stats.mu.Unlock()
	var tb []string
	tb = append(tb, "gv: the verification condition generator and simplifier in /verif/gv", "golang.org/x/tools/go/ssa (translation of the source to SSA)", "cvc5 1.1.2, z3 4.8.12 and z3-new as back ends")
	tb = append(tb, sortedNames(co.trusted)...)
	var open []string
	for _, o := range co.failed {
		open = append(open, o.Unit+" "+o.Kind+" "+o.Label)
		if len(open) > 50 {
			break
		}
	}
	cands, alive := 0, 0
	for _, u := range co.units {
		cands += u.Candidates
		alive += u.Alive
	}
	cov := map[string]any{
		"obligations":                 co.obls,
		"discharged":                  co.proved,
		"checker_cmd":                 "bash check.sh " + co.id,
		"trusted_base":                tb,
		"functions_under_contract":    sortedNames(co.funcs),
		"units_stating_the_property":  co.roots,
		"units":                       len(co.units),
		"functions_inlined":           sortedNames(co.inlined),
		"discharged_by":               co.by,
		"solver_calls":                calls,
		"solver_seconds":              secs,
		"solver_seconds_total":        float64(int(tot*100)) / 100,
		"simplifier_seconds":          float64(int(presolveTime.Seconds()*100)) / 100,
		"loop_invariant_candidates":   cands,
		"loop_invariants_established": alive,
		"samples":                     co.samples,
		"undischarged":                open,
		"replay":                      ifs(co.harness == "", "not run: every obligation is discharged", co.harness),
	}
	ev := map[string]any{
		"property":    co.id,
		"tier":        co.tier,
		"seed":        co.seed,
		"level":       "proof",
		"coverage":    cov,
		"assumptions": assumptionsFor(co),
		"wall_s":      float64(int(time.Since(co.start).Seconds()*100)) / 100,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", co.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func assumptionsFor(co *checkOut) []string {
	out := []string{
		"int and int64 are mathematical with an obligation that every operation stays in range; narrower integers wrap exactly",
		"every slice and string is shorter than 2^48 elements and allocation does not fail",
		"an io.Reader or net.Conn yields some finite sequence of bytes and then an error; the sequence is arbitrary",
		"memory reached through message and frame values is not changed by others after it has been handed over (C27 states what is shared)",
	}
	return out
}

// ---- replay of failed obligations against the real code

type harnessResult struct {
	failed  bool
	failure string
	summary string
	cmd     string
}

var vpFail = regexp.MustCompile(`(?m)^\s*(?:\S+:\d+: )?VP-FAIL (.*)$`)
var vpRuns = regexp.MustCompile(`(?m)^\s*(?:\S+:\d+: )?VP-RUNS (\d+)(.*)$`)

// runReplay runs the tests named TestVP_<property> that lie in /verif/harness/<package>.
func runReplay(verif, repo, id, tier string, seed int) *harnessResult {
	res := &harnessResult{}
	dirs, _ := filepath.Glob(filepath.Join(verif, "harness", "*"))
	tmp, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		res.summary = err.Error()
		return res
	}
	defer os.RemoveAll(tmp)
	var sums []string
	for _, d := range dirs {
		files, _ := filepath.Glob(filepath.Join(d, "*_test.go"))
		found := false
		also := map[string]bool{}
		var race []string
		fs := false
		for _, f := range files {
			b, _ := os.ReadFile(f)
			if regexp.MustCompile(`func TestVP_` + id + `\b`).Match(b) {
				// "// also: FILES" names other files that the test uses, "// race" asks for the race detector
				if m := regexp.MustCompile(`(?m)^// also: (.*)$`).FindSubmatch(b); m != nil {
					for _, n := range strings.Fields(string(m[1])) {
						also[n] = true
					}
				}
				if regexp.MustCompile(`(?m)^// fsnotify$`).Match(b) {
					fs = true
				}
				if regexp.MustCompile(`(?m)^// race$`).Match(b) {
					race = []string{"-race"}
				}
			}
		}
		repl := map[string]string{}
		for _, f := range files {
			b, _ := os.ReadFile(f)
			if regexp.MustCompile(`func TestVP_` + id + `\b`).Match(b) {
				found = true
			} else if !strings.Contains(filepath.Base(f), "common") && !also[filepath.Base(f)] {
				continue
			}
			repl[filepath.Join(repo, "pkg", filepath.Base(d), "zz_vp_"+filepath.Base(f))] = f
		}
		if !found {
			continue
		}
		// the tests of the repository itself are left out
		own, _ := filepath.Glob(filepath.Join(repo, "pkg", filepath.Base(d), "*_test.go"))
		for _, f := range own {
			repl[f] = ""
		}
		if fs {
			if mf := fsnotifyModfile(repo, tmp); mf != "" {
				race = append(race, "-modfile", mf)
			}
		}
		ob, _ := json.Marshal(map[string]any{"Replace": repl})
		of := filepath.Join(tmp, filepath.Base(d)+".json")
		_ = os.WriteFile(of, ob, 0o644)
		lim := "120s"
		d1 := 200 * time.Second
		if tier == "thorough" {
			lim, d1 = "400s", 500*time.Second
		}
		ctx, cancel := context.WithTimeout(context.Background(), d1)
		args := append([]string{"test"}, race...)
		args = append(args, "-overlay", of, "-vet=off", "-count=1", "-timeout", lim, "-v", "-run", "^TestVP_"+id+"$", "./pkg/"+filepath.Base(d))
		c := exec.CommandContext(ctx, "go", args...)
		c.Dir = repo
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed))
		var out bytes.Buffer
		c.Stdout, c.Stderr = &out, &out
		err := c.Run()
		cancel()
		o := out.String()
		runs := 0
		for _, m := range vpRuns.FindAllStringSubmatch(o, -1) {
			n, _ := strconv.Atoi(m[1])
			runs += n
		}
		if err != nil {
			var fs []string
			for _, m := range vpFail.FindAllStringSubmatch(o, -1) {
				fs = append(fs, m[1])
			}
			crash := strings.Contains(o, "\npanic: ") || strings.Contains(o, "fatal error: ")
			switch i := strings.Index(o, "WARNING: DATA RACE"); {
			case race != nil && i >= 0:
				res.failed = true
				res.failure = "the race detector reports:\n" + o[i:i+min(len(o)-i, 4000)]
				res.cmd = "go " + strings.Join(args, " ") + "   (in " + repo + ", overlay: " + string(ob) + ")"
			case len(fs) > 0:
				res.failed = true
				res.failure = strings.Join(fs, "\n")
				res.cmd = "go " + strings.Join(args, " ") + "   (in " + repo + ", overlay: " + string(ob) + ")"
			case crash && !strings.Contains(o, "panic: test timed out"):
				res.failed = true
				res.failure = "the process crashed:\n" + tail(o, 6000)
				res.cmd = "go " + strings.Join(args, " ") + "   (in " + repo + ", overlay: " + string(ob) + ")"
			default:
				sums = append(sums, filepath.Base(d)+": the replay did not finish: "+tail(o, 1500))
			}
			continue
		}
		sums = append(sums, fmt.Sprintf("%s: %d cases replayed against the code, none fails", filepath.Base(d), runs))
	}
	if len(sums) == 0 && !res.failed {
		sums = append(sums, "there is no replay for this property")
	}
	sort.Strings(sums)
	res.summary = strings.Join(sums, "; ")
	if res.failed {
		res.summary = "failing input found"
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// fsnotifyModfile makes a go.mod with a copy of fsnotify whose NewWatcher remembers the last watcher and can be told to fail.
func fsnotifyModfile(repo, tmp string) string {
	c := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/fsnotify/fsnotify")
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := c.Output()
	if err != nil {
		return ""
	}
	to := filepath.Join(tmp, "fsnotify")
	_ = os.Mkdir(to, 0o755)
	files, _ := filepath.Glob(filepath.Join(strings.TrimSpace(string(out)), "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return ""
		}
		s := string(b)
		if filepath.Base(f) == "inotify.go" {
			s = strings.Replace(s, "func NewWatcher() (*Watcher, error) {", `// VPErr is the error of NewWatcher, VPAddErr the one of Add; VPLast is the last watcher.
var (
	VPErr, VPAddErr error
	VPLast          *Watcher
)

func NewWatcher() (*Watcher, error) {
	if VPErr != nil {
		return nil, VPErr
	}
	w, err := newWatcherVP()
	VPLast = w
	return w, err
}

func newWatcherVP() (*Watcher, error) {`, 1)
			const add = "func (w *Watcher) Add(name string) error {"
			s = strings.Replace(s, add, add+"\n\tif VPAddErr != nil {\n\t\treturn VPAddErr\n\t}", 1)
		}
		if os.WriteFile(filepath.Join(to, filepath.Base(f)), []byte(s), 0o644) != nil {
			return ""
		}
	}
	gm := "module github.com/fsnotify/fsnotify\n"
	if b, err := os.ReadFile(filepath.Join(strings.TrimSpace(string(out)), "go.mod")); err == nil {
		gm = string(b)
	}
	_ = os.WriteFile(filepath.Join(to, "go.mod"), []byte(gm), 0o644)
	m, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return ""
	}
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	_ = os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644)
	mf := filepath.Join(tmp, "go.mod")
	if os.WriteFile(mf, []byte(string(m)+"\nreplace github.com/fsnotify/fsnotify => "+to+"\n"), 0o644) != nil {
		return ""
	}
	return mf
}
