package main

// The outcome of a property run: evidence, known findings, replay, verdict.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type finding struct{ fn, label string }

// known findings: lines "finding: property=<id> func=<contract> label=<text>"
func knownFindings(dir, prop string) []finding {
	b, _ := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		f := finding{}
		i := strings.Index(l, " func=")
		j := strings.Index(l, " label=")
		if i < 0 || j < i {
			continue
		}
		f.fn, f.label = l[i+6:j], l[j+7:]
		out = append(out, f)
	}
	return out
}

func conclude(cs *Contracts, rs []*Report, err error, t0 time.Time) int {
	prop, tier := *fProp, *fTier
	verbose := *fDebug || *fFunc != "" || *fShow
	if err != nil {
		fmt.Println("error:", err)
		// the tree could not be loaded: the bounded harness is all there is
		rs = []*Report{{Func: "(loading the program)", Obls: []OblRes{{Func: "(loading the program)", Kind: "unsupported", Label: err.Error(), Res: "unsupported"}}}}
	}
	known := knownFindings(*fDir, prop)
	count := map[string]int{}
	byBackend := map[string]int{}
	byKind := map[string]int{}
	inl, ext, mod := map[string]bool{}, map[string]int{}, map[string]int{}
	hits := map[string]int{}
	var solver int64
	queries, paths := 0, 0
	var bad, out, knownHit []OblRes
	type fnInfo struct {
		Function    string `json:"function"`
		Obligations int    `json:"obligations"`
		Discharged  int    `json:"discharged"`
		Paths       int    `json:"paths"`
		SolverMS    int64  `json:"solver_ms"`
	}
	var fns []fnInfo
	var slow []OblRes
	for _, r := range rs {
		fi := fnInfo{Function: r.Func, Paths: r.Paths, SolverMS: r.SolverMS}
		n := map[string]int{}
		for _, o := range r.Obls {
			if o.Res != "discharged" && len(known) > 0 {
				hit := false
				for _, k := range known {
					if k.fn == o.Func && k.label == o.Label {
						hit = true
					}
				}
				if hit {
					knownHit = append(knownHit, o)
					continue
				}
			}
			n[o.Res]++
			count[o.Res]++
			fi.Obligations++
			switch o.Res {
			case "discharged":
				fi.Discharged++
				byBackend[o.By]++
				byKind[o.Kind]++
				r.SolverMS += o.MS
				slow = append(slow, o)
			case "unsupported":
				out = append(out, o)
			default:
				bad = append(bad, o)
			}
			if verbose && o.Res != "discharged" {
				fmt.Println(" ", o.Res, o.Kind, "|", o.Label, "|", o.Pos, o.Detail)
			}
		}
		solver += r.SolverMS
		fi.SolverMS = r.SolverMS
		queries += r.Queries
		paths += r.Paths
		for k := range r.Inlined {
			inl[k] = true
		}
		for k, x := range r.Externs {
			ext[k] += x
		}
		for k, x := range r.Modelled {
			mod[k] += x
		}
		for k, x := range r.Hits {
			hits[k] += x
		}
		fns = append(fns, fi)
		if verbose {
			fmt.Println(r.Func, n, "returns", r.Returns, "paths", r.Paths, "prunes", r.Prunes, "queries", r.Queries, "solver", r.SolverMS, "wall", r.WallMS, "ext", r.Externs, "hits", r.Hits)
		}
	}
	// checks that no execution reaches prove nothing
	if err == nil && *fFunc == "" {
		for _, h := range cs.expectedHooks(prop, rs) {
			if hits[h] == 0 {
				o := OblRes{Func: "hook " + h, Kind: "vacuous", Label: "the event " + h + " occurs", Res: "unsupported"}
				out = append(out, o)
				count["unsupported"]++
				if verbose {
					fmt.Println("  vacuous hook", h)
				}
			}
		}
	}
	sort.Slice(slow, func(i, j int) bool { return slow[i].MS > slow[j].MS })
	var samples []string
	for i := 0; i < len(slow) && i < 8; i++ {
		samples = append(samples, fmt.Sprintf("%s: %s %q by %s in %d ms", slow[i].Func, slow[i].Kind, slow[i].Label, slow[i].By, slow[i].MS))
	}
	// the bounded harness: for obligations that failed and for functions out of reach, and as
	// an additional exploration in the thorough tier
	var rep *replayResult
	if (len(bad) > 0 || len(out) > 0 || tier == "thorough") && !*fNoRep && *fFunc == "" {
		rep = runReplay(prop, tier, bad, out)
	}
	violation := len(bad) > 0 || rep != nil && rep.failed
	for _, o := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, o.Func, o.Label)
	}
	if !*fNoRep && *fFunc == "" {
		total := count["discharged"] + count["failed"] + count["unknown"] + count["unsupported"]
		cov := map[string]interface{}{
			"obligations": total, "discharged": count["discharged"],
			"checker_cmd": fmt.Sprintf("bash /verif/check.sh %s", prop),
			"trusted_base": []string{
				"gocv (/verif/gocv): generation of verification conditions from the SSA form of /repo's current source (golang.org/x/tools/go/ssa)",
				"z3-new" + map[bool]string{true: " cross-checked by cvc5 on every obligation", false: ", cvc5 for what it leaves undecided"}[tier == "thorough"],
				"contracts and models of library code listed under assumed_externals and modelled_library_functions",
			},
			"discharged_by": byBackend, "discharged_by_kind": byKind,
			"solver_ms": solver, "path_queries": queries, "symbolic_paths": paths,
			"functions_under_contract": fns, "inlined_functions": keysOf(inl),
			"assumed_externals": ext, "modelled_library_functions": mod,
			"hook_events_seen": hits,
			"samples":          samples,
			"not_discharged":   append(append([]OblRes{}, bad...), out...),
		}
		if rep != nil {
			cov["bounded_harness"] = map[string]interface{}{"label": "bounded, not counted as proved", "ran": rep.ran, "found_a_failing_input": rep.failed, "output_tail": tail(rep.out, 1500), "wall_s": rep.wall.Seconds()}
		}
		ev := map[string]interface{}{
			"property": prop, "tier": tier, "seed": seed(), "level": "proof", "coverage": cov,
			"assumptions": assumptions(ext), "wall_s": time.Since(t0).Seconds(), "violations": map[bool]int{true: 1}[violation],
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*fDir, "evidence"), 0755)
		os.WriteFile(filepath.Join(*fDir, "evidence", prop+".json"), append(b, '\n'), 0644)
	}
	fmt.Printf("%s: %d obligations discharged, %d refuted, %d undecided, %d out of reach; %d functions, %.1f s\n", prop, count["discharged"], count["failed"], count["unknown"], count["unsupported"], len(rs), time.Since(t0).Seconds())
	for _, o := range out {
		fmt.Printf("out of reach (bounded harness instead): %s: %s %s\n", o.Func, o.Label, o.Pos)
	}
	for _, o := range bad {
		fmt.Printf("obligation %s: %s: %s %q %s\n", o.Res, o.Func, o.Kind, o.Label, o.Pos)
	}
	if !violation {
		return 0
	}
	// the replay file
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\nObligations that passed on the unchanged tree and do not now:\n", prop)
	for _, o := range append(append([]OblRes{}, bad...), out...) {
		fmt.Fprintf(&sb, "- function %s: %s %q %s: %s by %s\n  path: %s\n", o.Func, o.Kind, o.Label, o.Pos, o.Res, o.By, o.Detail)
	}
	if rep != nil {
		fmt.Fprintf(&sb, "\nReplay against the real code:\n$ %s\n%s\n", rep.cmd, rep.out)
	}
	dir := filepath.Join(*fDir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, prop+".txt")
	os.WriteFile(path, []byte(sb.String()), 0644)
	suffix := " no-failing-input-found"
	if rep != nil && rep.failed {
		suffix = ""
		fmt.Println(tail(rep.out, 3000))
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
	return 1
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func assumptions(ext map[string]int) []string {
	out := []string{
		"machine integers are mathematical integers; float64 values are reals; strings are unbounded sequences of code units, all valid UTF-8 where encoding/json is involved",
		"each goroutine's steps between lock operations are verified against lock invariants and relies; the memory model is sequential consistency for lock-protected data",
		"termination and real time are not proved (partial correctness)",
		"append copies: no two slices share spare capacity",
		"library functions behave as the models and extern contracts state",
	}
	return out
}

type replayResult struct {
	ran, failed bool
	out, cmd    string
	wall        time.Duration
}

// runReplay runs the property's harness against the real code, through an overlay. The harness
// fails exactly if it finds an input, schedule or history that breaks the property.
func runReplay(prop, tier string, bad, outOfReach []OblRes) *replayResult {
	t0 := time.Now()
	src := filepath.Join(*fDir, "replay")
	low := strings.ToLower(prop)
	files, _ := filepath.Glob(filepath.Join(src, low+"_test.go"))
	if len(files) == 0 {
		return &replayResult{out: "no harness for this property"}
	}
	helpers, _ := filepath.Glob(filepath.Join(src, "common*_test.go"))
	files = append(files, helpers...)
	scratch, err := os.MkdirTemp("", "gocv-replay-")
	if err != nil {
		return &replayResult{out: err.Error()}
	}
	defer os.RemoveAll(scratch)
	ov := map[string]map[string]string{"Replace": {}}
	for _, f := range files {
		ov["Replace"][filepath.Join(*fRepo, "verifreplay", filepath.Base(f))] = f
	}
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ovf, b, 0644)
	// modules stay as they are in the repository
	for _, f := range []string{"go.mod", "go.sum"} {
		if x, err := os.ReadFile(filepath.Join(*fRepo, f)); err == nil {
			os.WriteFile(filepath.Join(scratch, f), x, 0644)
		}
	}
	bin := filepath.Join(scratch, "harness.test")
	args := []string{"test", "-c", "-o", bin, "-overlay", ovf, "-modfile", filepath.Join(scratch, "go.mod"), "-vet=off"}
	if raceProps[prop] {
		args = append(args, "-race")
	}
	args = append(args, "./verifreplay")
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "VERIF_TIER="+tier, "VERIF_REPO="+*fRepo)
	r := &replayResult{cmd: "go test -c -overlay (verifreplay/* from " + src + ") ./verifreplay in " + *fRepo + " && harness.test"}
	run := func(dir string, limit time.Duration, name string, args ...string) (string, error) {
		cmd := exec.Command(name, args...)
		cmd.Dir, cmd.Env = dir, env
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			return err.Error(), err
		}
		timer := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		err := cmd.Wait()
		timer.Stop()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		return out.String(), err
	}
	if o, err := run(*fRepo, 150*time.Second, "go", args...); err != nil {
		// a harness that does not build decides nothing
		r.out, r.wall = "the harness does not build:\n"+o, time.Since(t0)
		return r
	}
	o, err := run(scratch, 200*time.Second, bin, "-test.timeout", "180s", "-test.count=1")
	r.out, r.ran = o, true
	r.wall = time.Since(t0)
	r.failed = err != nil && (strings.Contains(o, "--- FAIL") || strings.Contains(o, "panic: ") && !strings.Contains(o, "panic: test timed out") || strings.Contains(o, "fatal error:") || strings.Contains(o, "DATA RACE"))
	return r
}

var raceProps = map[string]bool{"C11": true}

// expectedHooks: the checks on events that must be reached by at least one function of the run
func (cs *Contracts) expectedHooks(prop string, rs []*Report) []string {
	set := map[string]bool{}
	for _, r := range rs {
		c := cs.Funcs[r.Func]
		if c == nil {
			continue
		}
		for _, n := range c.Protos {
			if p := cs.Protos[n]; p != nil {
				for _, h := range p.Hooks {
					if h.Optional {
						continue
					}
					for _, a := range h.Acts {
						if a.Kind == "check" && hasProp(a.Props, prop) {
							set[a.Pos] = true
						}
					}
				}
			}
		}
	}
	return keysOf(set)
}
