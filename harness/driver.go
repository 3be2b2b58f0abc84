package harness

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- child: executes cases

type childRequest struct {
	Prop string          `json:"p"`
	Part string          `json:"q"`
	Case json.RawMessage `json:"c"`
}

func writeMsg(w io.Writer, b []byte) error {
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], uint32(len(b)))
	_, err := w.Write(append(n[:], b...))
	return err
}

func readMsg(r io.Reader) ([]byte, error) {
	var n [4]byte
	if _, err := io.ReadFull(r, n[:]); err != nil {
		return nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(n[:]))
	_, err := io.ReadFull(r, b)
	return b, err
}

// RunChild is the loop of the process that runs the code under test.
func RunChild(t *testing.T) {
	in := bufio.NewReader(os.Stdin)
	out := os.NewFile(3, "replies")
	if os.Getenv("VH_MEMLIMIT") != "" {
		lim := uint64(envInt("VH_MEMLIMIT", 0)) << 20
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	for i := 0; ; i++ {
		b, err := readMsg(in)
		if err != nil {
			os.Exit(0)
		}
		var rq childRequest
		if err := json.Unmarshal(b, &rq); err != nil {
			die("child: %v", err)
		}
		_, pt := findPart(rq.Prop, rq.Part)
		if pt == nil {
			die("child: no part %s/%s", rq.Prop, rq.Part)
		}
		execute(t, pt, rq.Case, func(res Result) {
			b, _ := json.Marshal(res)
			if err := writeMsg(out, b); err != nil {
				os.Exit(0)
			}
		})
		if err := writeMsg(out, []byte("done")); err != nil {
			os.Exit(0)
		}
	}
}

// ---------------------------------------------------------------- executor: parent side of a child

type tailBuffer struct {
	mu   sync.Mutex
	head []byte
}

func (t *tailBuffer) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	// keep the lines that start a crash report and what follows, drop log noise before it
	t.head = append(t.head, b...)
	if len(t.head) > 1<<20 {
		s := string(t.head)
		i := crashStart(s)
		if i < 0 {
			t.head = t.head[len(t.head)-(1<<16):]
		} else {
			t.head = append([]byte(nil), t.head[i:min(len(t.head), i+(1<<19))]...)
		}
	}
	return len(b), nil
}

func crashStart(s string) int {
	best := -1
	for _, m := range []string{"panic: ", "fatal error: "} {
		if strings.HasPrefix(s, m) {
			return 0
		}
		if i := strings.Index(s, "\n"+m); i >= 0 && (best < 0 || i+1 < best) {
			best = i + 1
		}
	}
	return best
}

func (t *tailBuffer) crash() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.head)
	i := crashStart(s)
	if i < 0 {
		return ""
	}
	return s[i:]
}

func (t *tailBuffer) tail() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.head)
	if len(s) > 3000 {
		s = s[len(s)-3000:]
	}
	return s
}

type executor struct {
	prop    *Prop
	procs   int
	cmd     *exec.Cmd
	stdin   io.WriteCloser
	replies *os.File
	stderr  *tailBuffer
	crashes int
	runs    int
}

func (e *executor) start() error {
	cmd := exec.Command("/proc/self/exe", "-test.run=^TestChild$", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "VH_MODE=child", "GOMAXPROCS="+strconv.Itoa(e.procs), "GOTRACEBACK=all")
	if e.prop.MemBound {
		cmd.Env = append(cmd.Env, "VH_MEMLIMIT=3000")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	r, w, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd.ExtraFiles = []*os.File{w}
	e.stderr = &tailBuffer{}
	cmd.Stderr = e.stderr
	cmd.Stdout = io.Discard
	if e.stdin, err = cmd.StdinPipe(); err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	w.Close()
	e.cmd, e.replies, e.runs = cmd, r, 0
	return nil
}

func (e *executor) stop() {
	if e.cmd != nil {
		e.cmd.Process.Kill()
		e.cmd.Wait()
		e.replies.Close()
		e.cmd = nil
	}
}

var errHang = errors.New("hang")

// exec runs one case in the child, which is (re)started when needed.
func (e *executor) exec(part string, data json.RawMessage, timeout time.Duration) (Result, error) {
	if e.cmd != nil && e.runs > 20000 {
		e.stop()
	}
	if e.cmd == nil {
		if err := e.start(); err != nil {
			return Result{}, err
		}
	}
	e.runs++
	rq, _ := json.Marshal(childRequest{e.prop.ID, part, data})
	if err := writeMsg(e.stdin, rq); err != nil {
		return Result{}, e.died(err)
	}
	var hung bool
	timer := time.AfterFunc(timeout, func() { hung = true; e.cmd.Process.Signal(syscall.SIGQUIT) })
	killer := time.AfterFunc(timeout+3*time.Second, func() { e.cmd.Process.Kill() })
	defer timer.Stop()
	defer killer.Stop()

	var res Result
	got := false
	for {
		b, err := readMsg(e.replies)
		if err != nil {
			if timer.Stop() {
				killer.Stop()
			}
			if hung {
				e.cmd.Wait()
				st := e.stderr.tail()
				e.replies.Close()
				e.cmd = nil
				if got {
					// the case is over, only its teardown is stuck
					return res, nil
				}
				_ = st
				return Result{}, errHang
			}
			e.cmd.Wait()
			state := e.cmd.ProcessState
			crash, tail := e.stderr.crash(), e.stderr.tail()
			e.replies.Close()
			e.cmd = nil
			if crash != "" && strings.Contains(firstLine(crash), "synctest") || strings.Contains(firstLine(crash), "deadlock: ") {
				if got {
					return res, nil // goroutines leaked by the case, it was judged before
				}
				if strings.Contains(firstLine(crash), "deadlock: ") {
					return Result{Fail: "deadlock: nothing can make progress: " + clip(crash, 1500), NonTrivial: true}, nil
				}
				return Result{}, fmt.Errorf("bubble: %s", clip(crash, 1500))
			}
			if got && res.Fail != "" {
				return res, nil
			}
			if crash != "" && state.ExitCode() == 2 {
				if strings.Contains(firstLine(crash), "out of memory") && !e.prop.MemBound {
					return Result{}, fmt.Errorf("child out of memory")
				}
				if !strings.Contains(crash, "github.com/tg123/phabrik/") {
					return Result{}, fmt.Errorf("harness crash: %s", clip(crash, 3000))
				}
				return Result{Fail: "process crashed: " + clip(crash, 1500), NonTrivial: true}, nil
			}
			return Result{}, fmt.Errorf("child died (%v): %s", state, tail)
		}
		if string(b) == "done" {
			return res, nil
		}
		if err := json.Unmarshal(b, &res); err != nil {
			return Result{}, err
		}
		if res.HarnessErr != "" {
			return Result{}, errors.New(res.HarnessErr)
		}
		got = true
	}
}

func (e *executor) died(err error) error {
	tail := e.stderr.tail()
	e.stop()
	return fmt.Errorf("child: %v: %s", err, tail)
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// run executes a case and turns a reproducible hang into a failure.
func (e *executor) run(part string, data json.RawMessage) (res Result, hang bool, err error) {
	hangTimeout := hangTimeout
	if strings.HasPrefix(part, "idle") { // takes its time
		hangTimeout += idleTime()
	}
	res, err = e.exec(part, data, hangTimeout)
	if err == errHang {
		// alone, in a fresh process, with more time
		if res, err = e.exec(part, data, 2*hangTimeout); err == errHang {
			return Result{Fail: "hang: the case does not finish and never becomes quiescent (twice, in fresh processes)", NonTrivial: true}, true, nil
		}
	}
	return res, false, err
}

var hangTimeout = 30 * time.Second

// idleTime is how long connections are left alone in parts named idle: longer than the usual limits of 5, 10, 30 and, if
// thorough, 60 and 120 seconds.
func idleTime() time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 125 * time.Second
	}
	return 32 * time.Second
}

// ---------------------------------------------------------------- shard: generates cases

type shardOut struct {
	Evaluations int               `json:"evaluations"`
	PartEvals   map[string]int    `json:"part_evals"`
	PartNT      map[string]int    `json:"part_nt"`
	NTHashes    []uint64          `json:"nt_hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Violation   *StoredCase       `json:"violation"`
	Err         string            `json:"err"`
	Cut         bool              `json:"cut"`
	Corpus      int               `json:"corpus"`
}

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

// RunShard generates and executes this shard's share of a property's cases.
func RunShard(t *testing.T) {
	p := props[os.Getenv("VH_PROP")]
	if p == nil {
		die("no property %q", os.Getenv("VH_PROP"))
	}
	shard, shards := envInt("VH_SHARD", 0), envInt("VH_SHARDS", 1)
	seed := uint64(envInt("VERIF_SEED", 1))
	deep := os.Getenv("VERIF_TIER") == "thorough"
	deadline := time.Now().Add(time.Duration(envInt("VH_BUDGET_S", 400)) * time.Second)
	shrink := "15s"
	if deep {
		shrink = "60s"
	}
	if v := os.Getenv("VH_HANG_S"); v != "" {
		hangTimeout = time.Duration(envInt("VH_HANG_S", 30)) * time.Second
	}

	out := shardOut{PartEvals: map[string]int{}, PartNT: map[string]int{}, Labels: map[string]int{}}
	nt := map[uint64]bool{}
	flush := func() {
		for h := range nt {
			out.NTHashes = append(out.NTHashes, h)
		}
		sort.Slice(out.NTHashes, func(i, j int) bool { return out.NTHashes[i] < out.NTHashes[j] })
		b, _ := json.Marshal(out)
		if err := os.WriteFile(os.Getenv("VH_OUT"), b, 0o644); err != nil {
			die("%v", err)
		}
	}
	defer flush()

	e := &executor{prop: p, procs: []int{2, 4, 1, 8}[shard%4]}
	defer e.stop()

	one := func(pt *Part, data json.RawMessage) (fail string, hang bool) {
		res, hang, err := e.run(pt.Name, data)
		if err != nil {
			out.Err = fmt.Sprintf("%s/%s: %v\ncase: %s", p.ID, pt.Name, err, clip(string(data), 4000))
			return "", false
		}
		out.Evaluations++
		out.PartEvals[pt.Name]++
		if res.NonTrivial {
			h := hash64(append([]byte(pt.Name+"\x00"), data...))
			if !nt[h] {
				nt[h] = true
				out.PartNT[pt.Name]++
			}
		}
		for l, n := range res.Labels {
			out.Labels[pt.Name+": "+l] += n
		}
		if res.Fail == "" && res.NonTrivial && len(data) < 3000 && out.PartNT[pt.Name] <= 40 && out.PartNT[pt.Name]%20 == 2 {
			b, _ := json.Marshal(StoredCase{Property: p.ID, Part: pt.Name, Case: data})
			out.Samples = append(out.Samples, b)
		}
		return res.Fail, hang
	}

	// regressions
	if shard == 0 {
		files, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", p.ID, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				die("%v", err)
			}
			var sc StoredCase
			if err := json.Unmarshal(b, &sc); err != nil {
				die("%s: %v", f, err)
			}
			_, pt := findPart(p.ID, sc.Part)
			if pt == nil {
				die("%s: no part %s", f, sc.Part)
			}
			out.Corpus++
			if fail, _ := one(pt, sc.Case); fail != "" {
				out.Violation = &StoredCase{p.ID, pt.Name, fail, sc.Case}
				return
			}
			if out.Err != "" {
				return
			}
		}
	}

	only := os.Getenv("VH_PART")
	for pi := range p.Parts {
		pt := &p.Parts[pi]
		if only != "" && only != pt.Name {
			continue
		}
		n := pt.Quick
		if deep {
			n = pt.Deep
		}
		n = n * envInt("VH_SCALE", 100) / 100
		n = (n + shards - 1 - shard) / shards // shares differ by at most one
		if n <= 0 {
			continue
		}
		flag.Set("rapid.seed", strconv.FormatUint(splitmix(seed, uint64(shard), hash64([]byte(p.ID+"/"+pt.Name))), 10))
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", shrink)

		var last *StoredCase
		sticky := false
		t.Run(pt.Name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				if sticky || out.Err != "" {
					return
				}
				if last == nil && time.Now().After(deadline) {
					out.Cut = true
					return
				}
				c := pt.gen(rt)
				data, err := json.Marshal(c)
				if err != nil {
					die("case: %v", err)
				}
				fail, hang := one(pt, data)
				if fail != "" {
					last = &StoredCase{p.ID, pt.Name, fail, data}
					sticky = hang
					rt.Fatalf("property violated")
				}
			})
		})
		if last != nil {
			out.Violation = last
			return
		}
		if t.Failed() && out.Err == "" {
			out.Err = "generator failure in part " + pt.Name + " (run with VH_VERBOSE=1)"
		}
		if out.Err != "" {
			return
		}
	}
}

// ---------------------------------------------------------------- driver

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// RunDriver runs a property's shards, writes its evidence and returns the exit code.
func RunDriver(id string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %q\n", id)
		return 3
	}
	start := time.Now()
	seed := envInt("VERIF_SEED", 1)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	shards := envInt("VH_SHARDS", min(8, runtime.NumCPU()))
	budget := 400
	if tier == "thorough" {
		budget = envInt("VH_THOROUGH_BUDGET_S", 1800)
	}

	tmp, err := os.MkdirTemp("", "vh-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)

	outs := make([]*shardOut, shards)
	errs := make([]error, shards)
	cmds := make([]*exec.Cmd, shards)
	var mu sync.Mutex
	var wg sync.WaitGroup
	killed := false
	for i := 0; i < shards; i++ {
		outFile := filepath.Join(tmp, fmt.Sprintf("s%d.json", i))
		cmd := exec.Command("/proc/self/exe", "-test.run=^TestShard$", "-test.timeout=0")
		cmd.Env = append(os.Environ(), "VH_MODE=shard", "VH_PROP="+id, fmt.Sprintf("VH_SHARD=%d", i),
			fmt.Sprintf("VH_SHARDS=%d", shards), "VH_OUT="+outFile, fmt.Sprintf("VH_BUDGET_S=%d", envInt("VH_BUDGET_S", budget)),
			"VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "GOMAXPROCS=2")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var sb strings.Builder
		if os.Getenv("VH_VERBOSE") != "" {
			cmd.Stdout = os.Stderr
		}
		cmd.Stderr = &sb
		cmds[i] = cmd
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			// Pdeathsig is bound to the starting thread
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			err := cmd.Start()
			if err == nil {
				err = cmd.Wait()
			}
			b, rerr := os.ReadFile(outFile)
			if rerr != nil {
				mu.Lock()
				if !killed {
					errs[i] = fmt.Errorf("shard %d: %v: %s", i, err, clip(sb.String(), 4000))
				}
				mu.Unlock()
				return
			}
			o := &shardOut{}
			if err := json.Unmarshal(b, o); err != nil {
				errs[i] = err
				return
			}
			outs[i] = o
			if o.Violation != nil {
				mu.Lock()
				killed = true
				mu.Unlock()
				for j, c := range cmds {
					if j != i && c.Process != nil {
						c.Process.Kill()
					}
				}
			}
		}(i)
	}
	wg.Wait()

	tot := shardOut{PartEvals: map[string]int{}, PartNT: map[string]int{}, Labels: map[string]int{}}
	hashes := map[uint64]bool{}
	var firstErr error
	reporting := 0
	for i := range outs {
		if errs[i] != nil && firstErr == nil {
			firstErr = errs[i]
		}
		o := outs[i]
		if o == nil {
			continue
		}
		reporting++
		if o.Err != "" && firstErr == nil {
			firstErr = errors.New(o.Err)
		}
		tot.Evaluations += o.Evaluations
		tot.Corpus += o.Corpus
		for k, v := range o.PartEvals {
			tot.PartEvals[k] += v
		}
		for k, v := range o.PartNT {
			tot.PartNT[k] += v
		}
		for k, v := range o.Labels {
			tot.Labels[k] += v
		}
		for _, h := range o.NTHashes {
			hashes[h] = true
		}
		for _, s := range o.Samples {
			if len(tot.Samples) < 6 {
				tot.Samples = append(tot.Samples, s)
			}
		}
		tot.Cut = tot.Cut || o.Cut
		if o.Violation != nil && tot.Violation == nil {
			tot.Violation = o.Violation
		}
	}

	rules := []string{}
	for _, pt := range p.Parts {
		rules = append(rules, pt.Name+": "+pt.Rule)
	}
	violations := 0
	if tot.Violation != nil {
		violations = 1
	}
	cov := map[string]any{
		"evaluations":         tot.Evaluations,
		"distinct_nontrivial": len(hashes),
		"rule":                strings.Join(rules, " | "),
		"samples":             tot.Samples,
		"evaluations_by_part": tot.PartEvals,
		"nontrivial_by_part":  tot.PartNT,
		"labels":              tot.Labels,
		"corpus_cases":        tot.Corpus,
		"shards":              reporting,
		"cut_short":           tot.Cut,
	}
	if tot.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": append([]string{}, p.Assumptions...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}

	if v := tot.Violation; v != nil {
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		b, _ := json.MarshalIndent(v, "", " ")
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", id, v.Part, hash64(v.Case)))
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			die("%v", err)
		}
		fmt.Printf("%s/%s: %s\n", id, v.Part, v.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if firstErr != nil {
		fmt.Fprintf(os.Stderr, "ERROR property=%s: %v\n", id, firstErr)
		return 3
	}
	if tot.Evaluations == 0 {
		fmt.Fprintf(os.Stderr, "ERROR property=%s: nothing was evaluated\n", id)
		return 3
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d cut=%v wall=%.1fs\n", id, tier, seed, tot.Evaluations, len(hashes), tot.Cut, time.Since(start).Seconds())
	return 0
}

// RunReplay executes one stored case.
func RunReplay(id, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var sc StoredCase
	if err := json.Unmarshal(b, &sc); err != nil {
		die("%v", err)
	}
	if id == "" {
		id = sc.Property
	}
	p, pt := findPart(id, sc.Part)
	if pt == nil {
		die("no part %s/%s", id, sc.Part)
	}
	e := &executor{prop: p, procs: 4}
	defer e.stop()
	for i := 0; i < envInt("VH_REPEAT", 1); i++ {
		res, _, err := e.run(pt.Name, sc.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR", err)
			return 3
		}
		if res.Fail != "" {
			fmt.Printf("%s/%s: %s\n", id, pt.Name, res.Fail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
			return 1
		}
		fmt.Printf("case holds, nontrivial=%v labels=%v\n", res.NonTrivial, res.Labels)
	}
	return 0
}
