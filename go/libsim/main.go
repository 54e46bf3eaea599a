// Command libsim is the library half of the simulated system: it runs the parse
// and format packages of the working tree against stub readers and writers
// whose every answer is scripted, and judges what they do. It reads a batch of
// cases from standard input and writes one JSON line for each.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"

	"verif/simrt"
)

type Case struct {
	Kind  string  `json:"kind"`
	Src   []byte  `json:"src"`
	Opts  uint    `json:"opts"`
	Cfg   Cfg     `json:"cfg"`
	Plans []RPlan `json:"plans,omitempty"`
	WPlan []WPlan `json:"wplans,omitempty"`
	// AllOpts: go through all eight option sets.
	AllOpts  bool   `json:"allopts,omitempty"`
	Cfgs     []Cfg  `json:"cfgs,omitempty"`
	MustFail bool   `json:"mustfail,omitempty"`
	Runs     int    `json:"runs,omitempty"`
	Given    []byte `json:"given,omitempty"` // output to be judged instead of the printer's
	Sweep    bool   `json:"sweep,omitempty"` // go through every position
	Pad      int    `json:"pad,omitempty"`   // C05: make the output Pad-1 bytes longer than full buffers
	NS       bool   `json:"ns,omitempty"`    // C15 with the transforms that rearrange ns clauses
	Tasks    []Task `json:"tasks,omitempty"`
	Shared   bool   `json:"shared,omitempty"` // tasks share option maps
	Seed     uint64 `json:"seed,omitempty"`   // scheduler
	Prob     uint64 `json:"prob,omitempty"`   // chance of a switch at a point, of 1<<32
}

type Batch struct {
	Cases []Case `json:"cases"`
}

type Result struct {
	I     int            `json:"i"`
	Viol  string         `json:"viol,omitempty"`
	Class string         `json:"class,omitempty"`
	Stats map[string]int `json:"stats,omitempty"`
	Hash  string         `json:"hash"`
	Steps uint64         `json:"steps"`
	Out   string         `json:"out,omitempty"`
	Ok    bool           `json:"ok"` // the input was accepted
}

// violation is how an oracle reports; it is recovered at the case's top.
type violation struct{ class, msg string }

func failf(class, format string, args ...interface{}) {
	panic(violation{class, fmt.Sprintf(format, args...)})
}

type env struct {
	stats map[string]int
	out   string
	ok    bool
	alloc uint64
}

func (e *env) count(k string)      { e.stats[k]++ }
func (e *env) add(k string, n int) { e.stats[k] += n }
func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func runCase(i int, c *Case) (r Result) {
	e := &env{stats: map[string]int{}}
	r.I = i
	simrt.Seed(c.Seed, c.Prob)
	simrt.ResetSteps(1 << 40)
	s0, _, _ := simrt.Stats()
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(violation); ok {
				r.Viol, r.Class = v.msg, v.class
			} else {
				r.Class, r.Viol = "panic", clip(fmt.Sprintf("panic: %v\n%s", p, debug.Stack()))
			}
		}
		s, y, h := simrt.Stats()
		simrt.Seed(0, 0)
		_ = s0
		r.Steps = s
		r.Hash = fmt.Sprintf("%x", h)
		e.stats["switches"] += int(y)
		r.Stats, r.Out, r.Ok = e.stats, e.out, e.ok
	}()
	switch c.Kind {
	case "deliver":
		e.deliver(c)
	case "rfail":
		e.rfail(c)
	case "damage":
		e.damage(c)
	case "stop":
		e.stop(c)
	case "wfail":
		e.wfail(c)
	case "determ":
		e.determ(c)
	case "tasks":
		e.tasks(c)
	case "history":
		e.history(c)
	case "faithful":
		e.faithful(c)
	default:
		fmt.Fprintln(os.Stderr, "libsim: unknown kind", c.Kind)
		os.Exit(3)
	}
	return r
}

func main() {
	if raceEnabled {
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(-1)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	var b Batch
	if err := json.NewDecoder(in).Decode(&b); err != nil {
		fmt.Fprintln(os.Stderr, "libsim:", err)
		os.Exit(3)
	}
	for i := range b.Cases {
		r := runCase(i, &b.Cases[i])
		var buf bytes.Buffer
		buf.WriteString("R ")
		if err := json.NewEncoder(&buf).Encode(&r); err != nil {
			fmt.Fprintln(os.Stderr, "libsim:", err)
			os.Exit(3)
		}
		os.Stdout.Write(buf.Bytes())
	}
}
