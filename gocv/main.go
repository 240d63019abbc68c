package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/pprof"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	fRepo  = flag.String("repo", "/repo", "source tree")
	fDir   = flag.String("dir", "/verif", "framework directory")
	fProp  = flag.String("prop", "", "property")
	fTier  = flag.String("tier", "quick", "quick or thorough")
	fFunc  = flag.String("func", "", "only contracts whose name contains this")
	fJobs  = flag.Int("j", 8, "processes")
	fShard = flag.Bool("shard", false, "read jobs from stdin, write reports to stdout")
	fDebug = flag.Bool("debug", false, "show loops and obligations")
	fShow  = flag.Bool("v", false, "show every function")
	fNames = flag.Bool("names", false, "list the declarations that contracts may name")
	fNoRep = flag.Bool("noreplay", false, "no replay")
)

func newVerifier(solvers int) (*Verifier, error) {
	cs := loadContracts(*fDir + "/contracts")
	ex, err := loadProgram(*fRepo)
	if err != nil {
		return nil, err
	}
	ex.con = cs
	ex.debug = *fDebug
	ex.pool = newPool("z3-new", 1)
	if err := ex.initGlobals(); err != nil {
		return nil, err
	}
	v := &Verifier{ex: ex, cs: cs, prop: *fProp, tier: *fTier, fns: ex.functions()}
	v.addAutos()
	v.pool = newPool("z3-new", solvers)
	v.cross = newPool("cvc5", solvers)
	return v, nil
}

func main() {
	flag.Parse()
	if p := os.Getenv("GOCV_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *fNames {
		if err := printDecls(*fRepo); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if *fShard {
		shard()
		return
	}
	os.Exit(check())
}

// shard: a worker process; one line per job in, one report per line out
func shard() {
	v, err := newVerifier(2)
	if err != nil {
		fmt.Println("ERROR " + err.Error())
		os.Exit(3)
	}
	sc := bufio.NewScanner(os.Stdin)
	fmt.Println("READY")
	for sc.Scan() {
		fs := strings.SplitN(sc.Text(), "\t", 2)
		v.runJobs([]job{{fs[1], fs[0] == "dep"}}, func(r *Report) { fmt.Println("REPORT " + encodeReport(r)) })
	}
}

// runSharded distributes jobs, following the contracts that callers rely on
func runSharded(jobs []job, cs *Contracts) ([]*Report, error) {
	self, _ := os.Executable()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queued := map[string]bool{}
	var queue []job
	busy := 0
	var reports []*Report
	var fatal error
	push := func(j job) {
		if !queued[j.name] {
			queued[j.name] = true
			queue = append(queue, j)
		}
	}
	hasEntries := false
	for _, j := range jobs {
		push(j)
		hasEntries = hasEntries || j.name == entriesJob
	}
	n := *fJobs
	if n > len(jobs)+2 && !hasEntries {
		n = len(jobs) + 2
	}
	var wg sync.WaitGroup
	limit := 300 * time.Second
	deadline := time.Now().Add(480 * time.Second)
	if *fTier == "thorough" {
		limit, deadline = 1200*time.Second, time.Now().Add(3600*time.Second)
	}
	type worker struct {
		cmd *exec.Cmd
		in  io.WriteCloser
		rd  *bufio.Reader
	}
	read := func(w *worker) (*Report, error) {
		for {
			l, err := w.rd.ReadString('\n')
			if err != nil {
				return nil, fmt.Errorf("verifier process ended: %v", err)
			}
			l = strings.TrimSpace(l)
			if l == "READY" {
				return nil, nil
			}
			if strings.HasPrefix(l, "ERROR ") {
				return nil, fmt.Errorf("%s", l[6:])
			}
			if strings.HasPrefix(l, "REPORT ") {
				r := &Report{}
				return r, json.Unmarshal([]byte(l[7:]), r)
			}
			fmt.Println(l)
		}
	}
	start := func() (*worker, error) {
		args := []string{"-shard", "-prop", *fProp, "-tier", *fTier, "-repo", *fRepo, "-dir", *fDir}
		if *fDebug {
			args = append(args, "-debug")
		}
		cmd := exec.Command(self, args...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Stderr = os.Stderr
		w := &worker{cmd: cmd}
		w.in, _ = cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		w.rd = bufio.NewReaderSize(out, 1<<20)
		t := time.AfterFunc(120*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		defer t.Stop()
		_, err := read(w)
		return w, err
	}
	stop := func(w *worker) {
		syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
		w.cmd.Wait()
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := start()
			if err != nil {
				mu.Lock()
				fatal = err
				cond.Broadcast()
				mu.Unlock()
				return
			}
			defer func() { stop(w) }()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && fatal == nil {
					cond.Wait()
				}
				if len(queue) == 0 || fatal != nil {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				j := queue[0]
				queue = queue[1:]
				busy++
				mu.Unlock()
				d := "own"
				if j.dep {
					d = "dep"
				}
				left := time.Until(deadline)
				if left > limit {
					left = limit
				}
				if left < 0 {
					left = 0
				}
				tw := w
				t := time.AfterFunc(left, func() { syscall.Kill(-tw.cmd.Process.Pid, syscall.SIGKILL) })
				fmt.Fprintf(w.in, "%s\t%s\n", d, j.name)
				r, err := read(w)
				t.Stop()
				if err != nil {
					r = &Report{Func: j.name, Obls: []OblRes{{Func: j.name, Kind: "unsupported", Label: "out of time or memory: " + err.Error(), Res: "unsupported"}}}
					stop(w)
					if w, err = start(); err != nil {
						mu.Lock()
						fatal = err
						busy--
						cond.Broadcast()
						mu.Unlock()
						return
					}
				}
				mu.Lock()
				busy--
				if j.name != entriesJob || len(r.Obls) > 0 {
					reports = append(reports, r)
				}
				for _, n := range r.Spawn {
					push(job{n, false})
				}
				for _, u := range sortedKeys(r.Used) {
					if c := cs.Funcs[u]; c != nil && !c.Trusted && !c.Iface && c.Modular {
						push(job{u, true})
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if fatal != nil {
		return nil, fatal
	}
	if len(queue) > 0 {
		return nil, fmt.Errorf("verifier processes ended early")
	}
	sortReports(reports)
	return reports, nil
}

func check() int {
	t0 := time.Now()
	cs := loadContracts(*fDir + "/contracts")
	v := &Verifier{cs: cs, prop: *fProp}
	var jobs []job
	for _, c := range v.contractsFor() {
		if *fFunc == "" || strings.Contains(c.Func, *fFunc) {
			jobs = append(jobs, job{c.Func, false})
		}
	}
	for _, a := range cs.Autos {
		if hasProp(a.Props, *fProp) && *fFunc == "" {
			jobs = append(jobs, job{entriesJob, false})
		}
	}
	reports, err := runSharded(jobs, cs)
	return conclude(cs, reports, err, t0)
}
