// Package harness decides phabrik's properties by generated-input search: see /verif/DESIGN.md.
package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Part is one generated check of a property: Gen makes a case (pure data), Run executes and judges it.
type Part struct {
	Name   string
	Quick  int // cases over all shards
	Deep   int
	Bubble bool // run in a synctest bubble: virtual time, quiescence detection
	Rule   string

	gen func(t *rapid.T) any
	run func(x *X, data json.RawMessage)
}

// Prop is one property of properties.jsonl.
type Prop struct {
	ID          string
	Level       string
	MemBound    bool // running out of memory is a violation, not an error of the check
	Parts       []Part
	Assumptions []string
	Exhaustive  bool
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

func part[C any](name string, quick, deep int, rule string, gen func(t *rapid.T) C, run func(x *X, c C)) Part {
	return Part{
		Name: name, Quick: quick, Deep: deep, Rule: rule,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(x *X, data json.RawMessage) {
			var c C
			d := json.NewDecoder(bytes.NewReader(data))
			d.UseNumber()
			if err := json.Unmarshal(data, &c); err != nil {
				panic(harnessError("bad case: " + err.Error()))
			}
			run(x, c)
		},
	}
}

func bubble[C any](name string, quick, deep int, rule string, gen func(t *rapid.T) C, run func(x *X, c C)) Part {
	p := part(name, quick, deep, rule, gen, run)
	p.Bubble = true
	return p
}

type harnessError string
type abortCase struct{}

// X is the context of one executed case.
type X struct {
	mu         sync.Mutex
	fail       string
	nontrivial bool
	labels     map[string]int
	cleanups   []func()
	seed, ctxs uint64 // of x.ctx
}

// Failf reports a violation and ends the case; only in the goroutine that runs the case.
func (x *X) Failf(format string, a ...any) {
	x.Report(format, a...)
	panic(abortCase{})
}

// Report records a violation, from any goroutine; the first one counts.
func (x *X) Report(format string, a ...any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.fail == "" {
		x.fail = fmt.Sprintf(format, a...)
		if len(x.fail) > 2000 {
			x.fail = x.fail[:2000] + "..."
		}
	}
}

// Check ends the case if a violation was reported.
func (x *X) Check() {
	x.mu.Lock()
	f := x.fail != ""
	x.mu.Unlock()
	if f {
		panic(abortCase{})
	}
}

func (x *X) NonTrivial() { x.mu.Lock(); x.nontrivial = true; x.mu.Unlock() }

func (x *X) Label(l string) {
	x.mu.Lock()
	if x.labels == nil {
		x.labels = map[string]int{}
	}
	x.labels[l]++
	x.mu.Unlock()
}

// Within runs f, which may block, in its own goroutine and gives it an hour of virtual time.
func (x *X) Within(what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(time.Hour):
		x.Failf("%s never finishes", what)
	}
}

// Cleanup runs f when the case is over (last registered first).
func (x *X) Cleanup(f func()) { x.mu.Lock(); x.cleanups = append(x.cleanups, f); x.mu.Unlock() }

func (x *X) runCleanups() {
	for {
		x.mu.Lock()
		n := len(x.cleanups)
		if n == 0 {
			x.mu.Unlock()
			return
		}
		f := x.cleanups[n-1]
		x.cleanups = x.cleanups[:n-1]
		x.mu.Unlock()
		f()
	}
}

type Result struct {
	Fail       string         `json:"fail,omitempty"`
	NonTrivial bool           `json:"nt,omitempty"`
	Labels     map[string]int `json:"labels,omitempty"`
	HarnessErr string         `json:"harness_err,omitempty"`
}

type StoredCase struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func findPart(id, name string) (*Prop, *Part) {
	p := props[id]
	if p == nil {
		return nil, nil
	}
	for i := range p.Parts {
		if p.Parts[i].Name == name {
			return p, &p.Parts[i]
		}
	}
	return p, nil
}

// execute runs one case; reply is called with the result, in a bubble before goroutines are waited for.
func execute(t *testing.T, pt *Part, data json.RawMessage, reply func(Result)) {
	x := &X{seed: hash64(data)}
	body := func() {
		var herr string
		func() {
			defer func() {
				r := recover()
				switch v := r.(type) {
				case nil:
				case abortCase:
				case harnessError:
					herr = string(v)
				default:
					st := string(debug.Stack())
					if inRepo(st) {
						x.Report("panic: %v\n%s", r, repoFrames(st))
					} else {
						herr = fmt.Sprintf("harness panic: %v\n%s", r, st)
					}
				}
			}()
			pt.run(x, data)
		}()
		x.mu.Lock()
		res := Result{Fail: x.fail, NonTrivial: x.nontrivial, Labels: x.labels, HarnessErr: herr}
		x.mu.Unlock()
		reply(res)
		x.runCleanups()
	}
	if pt.Bubble {
		synctest.Test(t, func(*testing.T) { body() })
	} else {
		body()
	}
}

// inRepo tells whether the panic came out of the code under test: its frames come before any harness frame above runtime.
func inRepo(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "github.com/tg123/phabrik/") {
			return true
		}
		if strings.HasPrefix(l, "verifharness.") || strings.HasPrefix(l, "verifharness/") {
			// a custom marshaler or callback of the harness called by the code under test
			return false
		}
	}
	return false
}

func repoFrames(stack string) string {
	var out []string
	ls := strings.Split(stack, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "github.com/tg123/phabrik/") && i+1 < len(ls) {
			out = append(out, strings.TrimSpace(l)+" "+strings.TrimSpace(ls[i+1]))
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func totalAlloc() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func splitmix(a ...uint64) uint64 {
	x := uint64(0x9e3779b97f4a7c15)
	for _, v := range a {
		x ^= v + 0x9e3779b97f4a7c15
		x += 0x9e3779b97f4a7c15
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		x ^= x >> 31
	}
	if x == 0 {
		x = 1
	}
	return x
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}
