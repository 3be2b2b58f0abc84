package harness

import (
	"encoding/json"
	"regexp"
	"runtime"
	"strings"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- T18: what has ended leaves nothing behind

var bubbleOf = regexp.MustCompile(`^goroutine \d+ .*synctest bubble (\d+)`)

// leftovers returns the stacks of the goroutines of this bubble that run code under test or were started by it.
func leftovers() []string {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	gs := strings.Split(string(buf), "\n\n")
	own := bubbleOf.FindStringSubmatch(gs[0])
	var out []string
	for _, g := range gs[1:] {
		b := bubbleOf.FindStringSubmatch(g)
		if own == nil || b == nil || b[1] != own[1] {
			continue
		}
		if strings.Contains(g, "github.com/tg123/phabrik/") {
			out = append(out, g)
		}
	}
	return out
}

// leaves runs the histories of another part and looks at what is still there when everything in them has ended.
func leaves(id, name string, quick, deep int) Part {
	_, src := findPart(id, name)
	if src == nil || !src.Bubble {
		panic(harnessError("no part " + id + " " + name))
	}
	given := id == "T04" && name == "handshake" || id == "T13" && name == "failure" // to a Connect that fails
	return Part{
		Name: strings.ToLower(id) + "-" + name, Quick: quick, Deep: deep, Bubble: true,
		Rule: "its history is non-trivial: " + src.Rule,
		gen:  func(t *rapid.T) any { return src.gen(t) },
		run: func(x *X, data json.RawMessage) {
			y := &X{seed: x.seed}
			trackConns(true)
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(abortCase); !ok {
							panic(r)
						}
					}
				}()
				src.run(y, data)
			}()
			y.runCleanups()
			if y.fail != "" {
				x.Label("judged by its own property")
				return
			}
			time.Sleep(3 * time.Hour)
			synctest.Wait()
			if gs := leftovers(); len(gs) > 0 {
				x.Failf("%d goroutines remain after everything ended, the first one:\n%s", len(gs), clip(gs[0], 1200))
			}
			for i, c := range trackConns(false) {
				if c.user.Load() == 1 && !c.libDone.Load() && !given {
					x.Failf("end %d, %s to %s, was never closed by the code that used it", i, c.local, c.remote)
				}
			}
			if y.nontrivial {
				x.NonTrivial()
			}
			for l, n := range y.labels {
				for ; n > 0; n-- {
					x.Label(l)
				}
			}
		},
	}
}

func init() {
	p := &Prop{ID: "T18", Assumptions: []string{
		"what remains is what the process's goroutine dump, the simulated connections and the heap show; virtual time goes on for three hours after the end",
		"a connection handed to Connect stays the caller's when Connect fails",
	}}
	for _, id := range sortedKeys(props) {
		for _, q := range props[id].Parts {
			switch {
			case !q.Bubble:
			case q.Quick < 1000:
				p.Parts = append(p.Parts, leaves(id, q.Name, 12, 300))
			default:
				p.Parts = append(p.Parts, leaves(id, q.Name, 250, 8000))
			}
		}
	}
	register(p)
}
