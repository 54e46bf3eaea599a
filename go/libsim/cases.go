package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/cespare/goclj"
	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"

	"verif/simrt"
)

// outcome of a parse: a tree, an error, or a panic's text.
type outcome struct {
	tree  *parse.Tree
	err   error
	panic string
	stack string
}

func tryParse(r io.Reader, opts uint) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(violation); ok {
				panic(v)
			}
			o = outcome{panic: clip(fmt.Sprintf("panic: %v", p)), stack: clip(string(debug.Stack()))}
		}
	}()
	t, err := parse.Reader(r, "src.clj", parse.ParseOpts(opts))
	return outcome{tree: t, err: err}
}

func (o outcome) String() string {
	switch {
	case o.panic != "":
		return o.panic
	case o.err != nil:
		if o.tree != nil {
			return "error and tree: " + o.err.Error()
		}
		return "error: " + o.err.Error()
	case o.tree == nil:
		return "no tree and no error"
	}
	return "tree:\n" + dump(o.tree)
}

func tryPrint(p *format.Printer, t *parse.Tree) (err error, pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = clip(fmt.Sprintf("panic: %v", p))
		}
	}()
	return p.PrintTree(t), ""
}

// budget starts a step budget; spent notes how much of it was used.
// Memory allocated stands for the work done inside the standard library, which
// has no scheduling points.
func (e *env) budget(n uint64) {
	simrt.ResetSteps(n)
	e.alloc = allocated()
}
func (e *env) spent(what string, n int, output func() int) {
	s, _, _ := simrt.Stats()
	simrt.ResetSteps(1 << 40)
	a := int(allocated() - e.alloc)
	if what == "format" && s > printBudget(n) {
		if max := printBudget(n) + 6*uint64(output()); s > max {
			failf("steps", "%s: %d steps for an input of %d bytes, more than %d", what, s, n, max)
		}
	}
	m := n + 2000
	if a > 100*m && output != nil { // indentation may be much longer than the source
		m += output()
	}
	if a > perByte*m {
		failf("memory", "%s: %d bytes were allocated for %d bytes of input and output", what, a, m)
	}
	if a/m > e.stats["max "+what+" bytes allocated per byte"] {
		e.stats["max "+what+" bytes allocated per byte"] = a / m
	}
	if n < 200 {
		n = 200
	}
	if per := int(s) / n; per > e.stats["max "+what+" steps per byte"] {
		e.stats["max "+what+" steps per byte"] = per
	}
}
func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

const perByte = 700 // bytes allocated per byte of input and output

// formatBytes parses and formats src from scratch.
func formatBytes(src []byte, opts uint, cfg *Cfg) (out []byte, desc string, ok bool) {
	o := tryParse(bytes.NewReader(src), opts)
	if o.panic != "" || o.err != nil {
		return nil, o.String(), false
	}
	var buf bytes.Buffer
	err, pan := tryPrint(cfg.printer(&buf, cfg.maps()), o.tree)
	if pan != "" {
		return nil, pan, false
	}
	if err != nil {
		return buf.Bytes(), "print error: " + err.Error(), false
	}
	return buf.Bytes(), "", true
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q against %q", i+1, clip(x), clip(y))
		}
	}
	return "no difference"
}

// C01.
func (e *env) deliver(c *Case) {
	// All at once, end-of-input on a read of its own, nothing after it.
	ref := tryParse(bytes.NewReader(c.Src), c.Opts)
	want := ref.String()
	e.ok = ref.err == nil && ref.panic == ""
	var wantOut []byte
	var wantDesc string
	if e.ok {
		wantOut, wantDesc, _ = formatBytes(c.Src, c.Opts, &c.Cfg)
	}
	plans := c.Plans
	if c.Sweep {
		for i := 1; i < len(c.Src); i++ {
			plans = append(plans, RPlan{Chunks: []int{i, 1 << 20}})
		}
		e.add("cuts gone through", len(c.Src))
	}
	for i, pl := range plans {
		s := &stubReader{data: c.Src, plan: pl}
		got := parseWrapped(s, c.Opts)
		e.add("reads", s.reads)
		e.add("empty reads", s.empties)
		if pl.EOFWithData {
			e.count("data with end-of-input")
		}
		if pl.Scribble {
			e.count("scratch use of buffer")
		}
		if len(pl.After) > 0 {
			e.count("data after end-of-input offered")
		}
		if pl.Wrap != 0 {
			e.count("other kinds of reader")
		}
		if pl.Slow != 0 {
			e.count("slow readers")
		}
		if g := nameless(got.String()); g != want {
			failf("delivery", "plan %d (%+v): parse result differs from the result of reading all at once: %s", i, pl, firstDiff(want, g))
		}
		if e.ok {
			var buf bytes.Buffer
			err, pan := tryPrint(c.Cfg.printer(&buf, c.Cfg.maps()), got.tree)
			desc := pan
			if pan == "" && err != nil {
				desc = "print error: " + err.Error()
			}
			if desc != wantDesc || (desc == "" && !bytes.Equal(buf.Bytes(), wantOut)) {
				failf("delivery-output", "plan %d (%+v): formatted output differs: %s", i, pl, firstDiff(string(wantOut)+wantDesc, buf.String()+desc))
			}
		}
	}
}

// malformedAlone reports whether src followed by anything is refused with msg.
func malformedAlone(src, rest []byte, opts uint, msg string) bool {
	for _, x := range []string{" a", "\n(b", "]] x", "\"", "e", string(rest)} {
		o := tryParse(bytes.NewReader(append(append([]byte{}, src...), x...)), opts)
		if o.err == nil || o.err.Error() != msg {
			return false
		}
	}
	return true
}

// C02.
func (e *env) rfail(c *Case) {
	plans := c.Plans
	if c.Sweep && len(c.Plans) > 0 {
		for i := 0; i <= len(c.Src); i++ {
			pl := c.Plans[i%len(c.Plans)]
			plans = append(plans, RPlan{Fail: true, FailAt: i, WithData: i%2 == 0, Kind: pl.Kind, Once: pl.Once})
		}
		e.add("failure positions gone through", len(c.Src)+1)
	}
	for i, pl := range plans {
		s := &stubReader{data: c.Src, plan: pl}
		e.budget(parseBudget(len(c.Src)))
		o := tryParse(s.reader(), c.Opts)
		e.spent("parse", len(c.Src), nil)
		s.returned = true
		for k := 0; k < 20; k++ {
			runtime.Gosched()
		}
		e.add("reads", s.reads)
		if o.panic != "" {
			failf("panic", "plan %d (%+v): %s", i, pl, o.panic)
		}
		if s.tooMany {
			failf("endless", "plan %d: %d empty reads in a row were accepted without an error", i, s.endless)
		}
		delivered := c.Src[:s.pos]
		if s.failed == 0 && !pl.Endless {
			// The parser stopped before it got there: it must have found
			// the bytes so far wrong.
			if o.err == nil || o.tree != nil || !malformedAlone(delivered, c.Src[s.pos:], c.Opts, o.err.Error()) {
				failf("early", "plan %d: stopped before the end of input without a reason: %s", i, clip(o.String()))
			}
			e.count("refused before the failure")
			continue
		}
		if pl.Endless && s.endless == 0 {
			if o.err == nil || !malformedAlone(delivered, c.Src[s.pos:], c.Opts, o.err.Error()) {
				failf("early", "plan %d: stopped before the end of input without a reason: %s", i, clip(o.String()))
			}
			continue
		}
		switch {
		case pl.Endless:
			e.count("endless empty reads")
		case pl.Once:
			e.count("one-off read failure")
		default:
			e.count("read failure")
		}
		if pl.WithData {
			e.count("read failure with data")
		}
		if o.err == nil {
			failf("swallowed", "plan %d (%+v): the reader failed after %d of %d bytes, yet parsing succeeded: %s", i, pl, len(delivered), len(c.Src), clip(o.String()))
		}
		if o.tree != nil {
			failf("tree", "plan %d: the reader failed and parsing returned a tree along with the error", i)
		}
		if s.lateReads > 0 {
			failf("read-on", "plan %d (%+v): read on after the reader had failed", i, pl)
		}
		if !pl.Endless && !strings.Contains(o.err.Error(), s.err().Error()) || pl.Endless && strings.Contains(o.err.Error(), "EOF") {
			if !malformedAlone(delivered, c.Src[s.pos:], c.Opts, o.err.Error()) {
				failf("misreported", "plan %d: the reader failed with %q after %d of %d bytes, but parsing reported %q", i, s.err(), len(delivered), len(c.Src), o.err)
			}
			e.count("malformed before the failure")
		}
	}
}

// C03.
func (e *env) damage(c *Case) {
	opts := []uint{c.Opts}
	if c.AllOpts {
		opts = []uint{0, 1, 2, 3, 4, 5, 6, 7}
	}
	for _, op := range opts {
		e.budget(parseBudget(len(c.Src)))
		o := tryParse(bytes.NewReader(c.Src), op)
		e.spent("parse", len(c.Src), nil)
		if o.panic != "" {
			failf("panic", "options %d: parsing panicked: %s", op, o.panic)
		}
		if (o.err == nil) == (o.tree == nil) {
			failf("result", "options %d: %s", op, clip(o.String()))
		}
		if o.err != nil {
			e.count("refused")
			continue
		}
		e.ok = true
		e.count("accepted")
		if c.MustFail {
			failf("accepted", "options %d: a source that ends inside a form was accepted as complete", op)
		}
		for k := range c.Cfgs {
			t := o.tree
			if k > 0 {
				t = tryParse(bytes.NewReader(c.Src), op).tree
			}
			e.budget(printLimit(c.Src))
			w := &stubWriter{limit: 4*len(c.Src) + 1000, discard: true}
			_, pan := tryPrint(c.Cfgs[k].printer(w, c.Cfgs[k].maps()), t)
			if w.tooLong {
				failf("width", "a line of more than %d characters was written for an input of %d bytes", w.limit, len(c.Src))
			}
			e.spent("format", len(c.Src), func() int { return w.total })
			if pan != "" {
				failf("panic", "options %d, configuration %d: formatting panicked: %s", op, k, pan)
			}
			e.count("formatted")
		}
	}
}

func parseBudget(n int) uint64 { return 50000 + 350*uint64(n) }
func printBudget(n int) uint64 { return 100000 + 500*uint64(n) }

// printLimit is where formatting is ended: what printBudget allows, and more for
// the indentation that lines may need, if each is as long as the source. How long
// the output really is (and what that allows) is looked at afterwards, by spent.
func printLimit(src []byte) uint64 {
	lines := bytes.Count(src, []byte("\n")) + bytes.Count(src, []byte("("))
	most := uint64(len(src)) * uint64(lines)
	if most > 5e7 {
		most = 5e7
	}
	return printBudget(len(src)) + 12*most
}

// settle lets goroutines that are on their way out leave.
func settle() {
	for k := 0; k < 100; k++ {
		runtime.Gosched()
	}
}

// C04.
func (e *env) stop(c *Case) {
	for i, pl := range c.Plans {
		before := runtime.NumGoroutine()
		s := &stubReader{data: c.Src, plan: pl}
		e.budget(parseBudget(len(c.Src)))
		o := tryParse(s.reader(), c.Opts)
		s.returned = true
		settle()
		e.spent("parse", len(c.Src), nil)
		e.add("reads", s.reads)
		if s.lateCalls > 0 {
			failf("late-read", "plan %d (%+v): the reader was read after parsing had returned (%s)", i, pl, clip(o.String()))
		}
		if s.lateReads > 0 {
			failf("read-on", "plan %d (%+v): the reader was read after it had reported end of input or a failure (%s)", i, pl, clip(o.String()))
		}
		if g := runtime.NumGoroutine(); g > before {
			failf("goroutine", "plan %d (%+v): %d goroutine(s) left behind after parsing (%s)", i, pl, g-before, clip(o.String()))
		}
		if max := 200 + 120*len(c.Src) + 200*len(pl.Chunks); s.reads > max {
			failf("reads", "plan %d: %d reads for %d bytes", i, s.reads, len(c.Src))
		}
		if o.err != nil {
			e.count("ended in error")
		} else {
			e.count("ended in success")
		}
		if o.tree == nil || i >= len(c.WPlan) {
			continue
		}
		w := &stubWriter{plan: c.WPlan[i], limit: 4*len(c.Src) + 1000}
		e.budget(printLimit(c.Src))
		ww, flush := w.writer()
		err, _ := tryPrint(c.Cfg.printer(ww, c.Cfg.maps()), o.tree)
		w.returned = true
		settle()
		if late, lateW := w.lateCalls, w.lateWrites; err == nil { // what the owner of the writer does is not held against formatting
			flush()
			w.lateCalls, w.lateWrites = late, lateW
		}
		if w.tooLong {
			failf("width", "a line of more than %d characters was written for an input of %d bytes", w.limit, len(c.Src))
		}
		e.spent("format", len(c.Src), func() int {
			if w.failed == 0 {
				return w.total
			}
			all := &stubWriter{discard: true, limit: w.limit} // the writer did not get all that was produced
			tryPrint(c.Cfg.printer(all, c.Cfg.maps()), tryParse(bytes.NewReader(c.Src), c.Opts).tree)
			return all.total
		})
		if w.failed > 0 {
			e.count("print stopped by writer")
		}
		if w.lateCalls > 0 {
			failf("late-write", "writer plan %d: the writer was written after formatting had returned", i)
		}
		if w.lateWrites > 0 {
			failf("write-on", "writer plan %d (%+v): the writer was written again after it had failed (err %v)", i, w.plan, err)
		}
		if g := runtime.NumGoroutine(); g > before {
			failf("goroutine", "writer plan %d: %d goroutine(s) left behind after formatting", i, g-before)
		}
	}
}

// pad adds a comment to the source such that the output ends where a buffer of
// the printer's size ends, or shortly after.
func (e *env) pad(c *Case) {
	const size = 4096
	padded := func(n int) []byte {
		return append(append(append([]byte{}, c.Src...), "\n;"...), append(bytes.Repeat([]byte{'x'}, n), '\n')...)
	}
	out, _, ok := formatBytes(padded(1), c.Opts, &c.Cfg)
	if !ok {
		return
	}
	n := 1 + (c.Pad-1-len(out)%size+size)%size
	c.Src = padded(n)
	if out, _, ok = formatBytes(c.Src, c.Opts, &c.Cfg); ok && len(out)%size == c.Pad-1 {
		e.count("output ends with a buffer")
	}
}

// C05.
func (e *env) wfail(c *Case) {
	if c.Pad > 0 {
		e.pad(c)
	}
	want, desc, ok := formatBytes(c.Src, c.Opts, &c.Cfg)
	if !ok {
		e.count("input refused")
		_ = desc
		return
	}
	e.ok = true
	e.add("output bytes", len(want))
	plans := c.WPlan
	if c.Sweep && len(c.WPlan) > 0 && len(want) <= 1500 {
		for i := range want {
			pl := c.WPlan[i%len(c.WPlan)]
			plans = append(plans, WPlan{Fail: true, FailAt: i, Shape: pl.Shape, Kind: pl.Kind})
		}
		e.add("failure positions gone through", len(want))
	}
	for i, pl := range plans {
		if pl.FromEnd > 0 {
			if pl.FailAt = len(want) - pl.FromEnd; pl.FailAt < 0 {
				pl.FailAt = 0
			}
		}
		t := tryParse(bytes.NewReader(c.Src), c.Opts).tree
		w := &stubWriter{plan: pl}
		ww, flush := w.writer()
		err, pan := tryPrint(c.Cfg.printer(ww, c.Cfg.maps()), t)
		if err == nil && pan == "" {
			err = flush()
		}
		if pl.Wrap != 0 {
			e.count("other kinds of writer")
		}
		if pan != "" {
			failf("panic", "writer plan %d (%+v): %s", i, pl, pan)
		}
		e.add("writes", w.writes)
		if w.failed == 0 {
			if err != nil {
				failf("spurious", "writer plan %d (%+v): the writer took everything, yet formatting failed: %v", i, pl, err)
			}
			if !bytes.Equal(w.got, want) {
				failf("output", "writer plan %d (%+v): success, but the output is not the complete output: %s", i, pl, firstDiff(string(want), string(w.got)))
			}
			e.count("writer did not fail")
			continue
		}
		e.count([]string{"write error with short count", "short write without error", "write error, nothing taken", "one-off write error", "one-off short write", "write error after full write"}[pl.Shape])
		if w.lateWrites > 0 {
			failf("write-on", "writer plan %d (%+v): written %d more bytes after the writer had failed", i, pl, len(w.lateBytes))
		}
		if err == nil {
			failf("swallowed", "writer plan %d (%+v): the writer failed after %d of %d bytes, yet formatting reported success", i, pl, len(w.got), len(want))
		}
		if pl.Shape != 1 && pl.Shape != 4 && !strings.Contains(err.Error(), w.failErr.Error()) {
			failf("misreported", "writer plan %d (%+v): the writer failed with %q, formatting reported %q", i, pl, w.failErr, err)
		}
		if !bytes.HasPrefix(want, w.got) {
			failf("prefix", "writer plan %d (%+v): what was written is not a prefix of the complete output: %s", i, pl, firstDiff(string(want), string(w.got)))
		}
	}
}

// C06.
func (e *env) determ(c *Case) {
	var first string
	for i := 0; i < c.Runs; i++ {
		simrt.Seed(c.Seed+uint64(i)*7919, c.Prob)
		out, desc, ok := formatBytes(c.Src, c.Opts, &c.Cfg)
		res := fmt.Sprintf("%v %s\n%s", ok, desc, out)
		if strings.HasPrefix(desc, "panic:") {
			res = "panic" // what a panic says (addresses, stacks) is C03's business
		}
		e.ok = e.ok || ok
		if i == 0 {
			first = res
			e.out = fmt.Sprintf("%016x:%d", fnv(res), len(res))
			continue
		}
		if res != first {
			failf("nondeterminism", "formatting the same input again in the same process gave a different result: %s", firstDiff(first, res))
		}
		e.count("repeats")
	}
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Task is one use of the library.
type Task struct {
	Src  []byte `json:"src"`
	Opts uint   `json:"opts"`
	Cfg  int    `json:"cfg"`
	Plan RPlan  `json:"plan"`
}

type use struct {
	o   outcome
	out bytes.Buffer
	err error
	pan string
}

func (t *Task) run(cfg *Cfg, m maps, u *use) {
	u.o = tryParse((&stubReader{data: t.Src, plan: t.Plan}).reader(), t.Opts)
	if u.o.tree == nil {
		return
	}
	u.err, u.pan = tryPrint(cfg.printer(&u.out, m), u.o.tree)
}

func (u *use) String() string {
	if u.o.tree == nil {
		return u.o.String()
	}
	if u.pan != "" {
		return u.pan[:strings.IndexByte(u.pan+"\n", '\n')]
	}
	if u.err != nil {
		return "print error: " + u.err.Error() + "\n" + u.out.String()
	}
	return "output:\n" + u.out.String()
}

// nodes collects the nodes of a tree.
func nodes(t *parse.Tree, f func(parse.Node)) {
	var walk func(parse.Node)
	walk = func(n parse.Node) {
		f(n)
		for _, c := range n.Children() {
			walk(c)
		}
	}
	for _, n := range t.Roots {
		walk(n)
	}
}

// checkSeparate: no node of one tree is reachable from another.
func checkSeparate(us []*use) {
	owner := map[parse.Node]int{}
	for i, u := range us {
		if u.o.tree == nil {
			continue
		}
		nodes(u.o.tree, func(n parse.Node) {
			if j, ok := owner[n]; ok && j != i {
				failf("shared-node", "a %T is a child in the trees of use %d and use %d", n, j, i)
			}
			owner[n] = i
		})
	}
	for i, u := range us {
		if u.o.tree == nil {
			continue
		}
		nodes(u.o.tree, func(n parse.Node) {
			if p := n.Parent(); p != nil {
				if j, ok := owner[p]; ok && j != i {
					failf("shared-node", "the parent of a %T in the tree of use %d is in the tree of use %d", n, i, j)
				}
			}
		})
	}
}

// hashOf is compared with that of the same use alone in a process of its own.
func (u *use) hashOf() string { s := u.String(); return fmt.Sprintf("%016x:%d", fnv(s), len(s)) }

// C07, concurrent uses.
func (e *env) tasks(c *Case) {
	defaults := defaultsString()
	seed, prob := c.Seed, c.Prob
	shared := make([]maps, len(c.Cfgs))
	before := make([]string, len(c.Cfgs))
	for i := range c.Cfgs {
		shared[i] = c.Cfgs[i].maps()
		before[i] = shared[i].String()
	}
	us := make([]*use, len(c.Tasks))
	ms := make([]maps, len(c.Tasks))
	for i := range c.Tasks {
		us[i] = &use{}
		if c.Shared {
			ms[i] = shared[c.Tasks[i].Cfg]
		} else {
			ms[i] = c.Cfgs[c.Tasks[i].Cfg].maps()
		}
	}
	done := make(chan int, len(c.Tasks))
	simrt.Seed(seed, prob)
	for i := range c.Tasks {
		i := i
		go func() {
			c.Tasks[i].run(&c.Cfgs[c.Tasks[i].Cfg], ms[i], us[i])
			done <- i
		}()
	}
	for range c.Tasks {
		<-done
	}
	_, y, _ := simrt.Stats()
	e.add("switches", int(y))
	simrt.Seed(0, 0)
	e.add("concurrent uses", len(c.Tasks))
	for _, u := range us {
		e.out += u.hashOf() + " "
	}
	for i := range c.Tasks {
		var solo use
		c.Tasks[i].run(&c.Cfgs[c.Tasks[i].Cfg], c.Cfgs[c.Tasks[i].Cfg].maps(), &solo)
		if got, want := us[i].String(), solo.String(); got != want {
			failf("interference", "use %d of %d gave another result than it gives alone: %s", i, len(c.Tasks), firstDiff(want, got))
		}
	}
	checkSeparate(us)
	if c.Shared {
		for i := range shared {
			if after := shared[i].String(); after != before[i] {
				failf("options-changed", "option maps %d were changed: %q became %q", i, before[i], after)
			}
		}
	} else {
		for i := range ms {
			if after, want := ms[i].String(), before[c.Tasks[i].Cfg]; after != want {
				failf("options-changed", "option maps of use %d were changed: %q became %q", i, want, after)
			}
		}
	}
	if d := defaultsString(); d != defaults {
		failf("defaults-changed", "the package's default transforms were changed: %q became %q", defaults, d)
	}
}

// C07, successive uses of one printer and one set of option maps.
func (e *env) history(c *Case) {
	defaults := defaultsString()
	m := c.Cfg.maps()
	before := m.String()
	w := &stubWriter{}
	p := c.Cfg.printer(w, m)
	var us []*use
	for i := range c.Tasks {
		t := &c.Tasks[i]
		want, desc, ok := formatBytes(t.Src, t.Opts, &c.Cfg)
		u := &use{o: tryParse((&stubReader{data: t.Src, plan: t.Plan}).reader(), t.Opts)}
		us = append(us, u)
		if u.o.tree == nil {
			e.out += u.hashOf() + " "
			continue
		}
		at := len(w.got)
		err, pan := tryPrint(p, u.o.tree)
		got := w.got[at:]
		if pan != "" || err != nil {
			if ok {
				failf("history", "tree %d, printed by a printer used before: %v %s; alone it is printed without error", i, err, pan)
			}
			break // the printer may be in any state now
		}
		e.count("successive uses")
		u.out.Write(got)
		e.out += u.hashOf() + " "
		if !ok {
			failf("history", "tree %d, printed by a printer used before: success; alone: %s", i, desc)
		}
		if !bytes.Equal(got, want) {
			failf("history", "tree %d of %d, printed by a printer used before, differs from what it gives alone: %s", i, len(c.Tasks), firstDiff(string(want), string(got)))
		}
	}
	checkSeparate(us)
	if after := m.String(); after != before {
		failf("options-changed", "option maps were changed: %q became %q", before, after)
	}
	if d := defaultsString(); d != defaults {
		failf("defaults-changed", "the package's default transforms were changed: %q became %q", defaults, d)
	}
}

// squeeze drops layout: white space and commas, and writes #^ as ^ (as well as
// ##^, which is what x# #^y leaves: the trees are compared, too).
func squeeze(b []byte) []byte {
	var out []byte
	for i := 0; i < len(b); {
		r, w := utf8.DecodeRune(b[i:])
		if (unicode.IsSpace(r) || r == ',') && !(r == utf8.RuneError && w == 1) {
			i += w
			continue
		}
		out = append(out, b[i:i+w]...)
		i += w
	}
	for bytes.Contains(out, []byte("#^")) {
		out = bytes.ReplaceAll(out, []byte("#^"), []byte("^"))
	}
	return out
}

// dropsComment reports whether src has a comment between a quote-like prefix
// and its form. The parser leaves such comments out of the tree on purpose
// (its tests say so).
func dropsComment(src []byte) bool {
	prefix := false
	space := func(r rune) bool { return unicode.IsSpace(r) || r == ',' }
	sym := func(r rune) bool { return !space(r) && !strings.ContainsRune("\";@^~()[]{}\\", r) }
	rs := bytes.Runes(src)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case space(r):
			i++
		case r == ';' || r == '#' && i+1 < len(rs) && rs[i+1] == '!':
			if prefix {
				return true
			}
			for i < len(rs) && rs[i] != '\n' && rs[i] != '\r' {
				i++
			}
		case r == '"':
			prefix = false
			for i++; i < len(rs) && rs[i] != '"'; i++ {
				if rs[i] == '\\' {
					i++
				}
			}
			i++
		case r == '\\':
			prefix = false
			for i += 2; i < len(rs) && sym(rs[i]); i++ {
			}
		case r == '\'' || r == '`' || r == '@' || r == '~':
			prefix = true
			i++
		case r == '#':
			// dispatch: one character further, the rest as usual; #' is
			// not followed by a comment in anything that parses
			prefix = false
			i++
			if i < len(rs) && strings.ContainsRune("'_=?<:", rs[i]) {
				i++
			}
		case sym(r):
			prefix = false
			for i < len(rs) && sym(rs[i]) {
				i++
			}
		default:
			prefix = false
			i++
		}
	}
	return false
}

// semantic writes down a tree without its line breaks. The text of docstrings
// may be re-aligned.
func semantic(t *parse.Tree) string {
	var b strings.Builder
	var walk func(n parse.Node, depth int, doc bool)
	walk = func(n parse.Node, depth int, doc bool) {
		if goclj.Newline(n) {
			return
		}
		d := describe(n)
		if s, ok := n.(*parse.StringNode); ok && doc {
			ls := strings.Split(s.Val, "\n")
			for i := range ls {
				if i > 0 {
					ls[i] = strings.TrimSpace(ls[i])
				}
			}
			d = fmt.Sprintf("doc %q", strings.Join(ls, "\n"))
		}
		switch n.(type) {
		case *parse.ReaderCondNode, *parse.ReaderCondSpliceNode:
			d = "" // its description counts line breaks
		}
		fmt.Fprintf(&b, "%d %T %s\n", depth, n, d)
		docs := depth == 0 && goclj.FnFormSymbol(n, "ns", "defmulti", "def", "defmacro", "defn")
		for _, c := range n.Children() {
			walk(c, depth+1, docs)
		}
	}
	for _, n := range t.Roots {
		walk(n, 0, false)
	}
	return b.String()
}

// C15.
func (e *env) faithful(c *Case) {
	simrt.ResetSteps(1 << 40)
	o := tryParse(bytes.NewReader(c.Src), 1)
	if o.panic != "" || o.err != nil {
		e.count("refused")
		return
	}
	if dropsComment(c.Src) {
		e.count("skipped: comment after prefix")
		return
	}
	e.ok = true
	want := semantic(o.tree)
	cfg := c.Cfg
	cfg.Transforms = map[int]bool{}
	for k, v := range c.Cfg.Transforms {
		cfg.Transforms[k] = v
	}
	cfg.NilTr = false
	// These two merge and drop clauses, and say so.
	cfg.Transforms[int(format.TransformUseToRequire)] = false
	cfg.Transforms[int(format.TransformRemoveUnusedRequires)] = false
	if !c.NS {
		cfg.Transforms[int(format.TransformSortImportRequire)] = false
		cfg.Transforms[int(format.TransformEnforceNSStyle)] = false
	}
	var buf bytes.Buffer
	err, pan := tryPrint(cfg.printer(&buf, cfg.maps()), o.tree)
	if c.Given != nil { // the command did not refuse it
		e.count("output of the command")
		buf.Reset()
		buf.Write(c.Given)
	} else if pan != "" || err != nil {
		e.count("refused by the printer")
		return
	}
	e.count("reproduced")
	if c.NS {
		back := tryParse(bytes.NewReader(buf.Bytes()), 1)
		if back.err != nil || back.panic != "" {
			failf("unparseable", "the formatted output no longer parses: %s", clip(back.String()))
		}
		e.conserved(c.Src, buf.Bytes(), back.tree)
		return
	}
	a, b := squeeze(c.Src), squeeze(buf.Bytes())
	if !bytes.Equal(a, b) {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		lo := max(0, i-20)
		failf("bytes", "formatting altered the source: ...%q became ...%q", clip(string(a[lo:min(len(a), i+20)])), clip(string(b[lo:min(len(b), i+20)])))
	}
	back := tryParse(bytes.NewReader(buf.Bytes()), 1)
	if back.err != nil || back.panic != "" {
		failf("unparseable", "the formatted output no longer parses: %s", clip(back.String()))
	}
	if got := semantic(back.tree); got != want {
		failf("meaning", "the formatted output parses to another tree: %s", firstDiff(want, got))
	}
}

// conserved compares the source with output in which namespace declarations may
// have been rearranged: everything outside them is the same, and inside them
// nothing changed but the order of a clause's entries and the clauses' style
// (which brackets, :require or require, a.b.C or (a.b C)).
func (e *env) conserved(src, out []byte, back *parse.Tree) {
	orig := tryParse(bytes.NewReader(src), 1).tree // the one printed was transformed
	a, b := rootTexts(orig, src), rootTexts(back, out)
	for i := 0; i < len(a) || i < len(b); i++ {
		if i == len(a) || i == len(b) {
			failf("roots", "there were %d forms and comments, and %d after formatting", len(a), len(b))
		}
		x, y := a[i], b[i]
		ns := goclj.FnFormSymbol(x.node, "ns")
		if ns != goclj.FnFormSymbol(y.node, "ns") {
			failf("roots", "form %d: %q became %q", i, clip(string(x.text)), clip(string(y.text)))
		}
		if !ns {
			if !bytes.Equal(x.text, y.text) {
				failf("bytes", "formatting altered form %d: %q became %q", i, clip(string(x.text)), clip(string(y.text)))
			}
			if want, got := semantic(&parse.Tree{Roots: []parse.Node{x.node}}), semantic(&parse.Tree{Roots: []parse.Node{y.node}}); got != want {
				failf("meaning", "form %d parses to another tree after formatting: %s", i, firstDiff(want, got))
			}
			continue
		}
		e.count("namespace declarations")
		if d := byteDiff(x.text, y.text); d != "" {
			failf("namespace", "formatting altered more of a namespace declaration than the order and style of its clauses: %s: %q became %q", d, clip(string(x.text)), clip(string(y.text)))
		}
		if want, got := nsForm(x.node), nsForm(y.node); want != got {
			failf("namespace", "formatting altered more of a namespace declaration than the order and style of its clauses: %s", firstDiff(want, got))
		}
	}
}

type rootText struct {
	node parse.Node
	text []byte // without layout
}

// rootTexts lists the top-level forms and comments of a source.
func rootTexts(t *parse.Tree, src []byte) []rootText {
	var rs []rootText
	end := len(src)
	for i := len(t.Roots) - 1; i >= 0; i-- {
		n := t.Roots[i]
		start := n.Position().Offset
		if start > end || start < 0 {
			panic(fmt.Sprintf("root at %d, the next one at %d", start, end))
		}
		if !goclj.Newline(n) {
			rs = append(rs, rootText{n, squeeze(src[start:end])})
		}
		end = start
	}
	for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
		rs[i], rs[j] = rs[j], rs[i]
	}
	return rs
}

// byteDiff compares how often each byte occurs, but for those which the style
// of clauses is about.
func byteDiff(a, b []byte) string {
	var n [256]int
	for _, c := range a {
		n[c]++
	}
	for _, c := range b {
		n[c]--
	}
	style := "()[]:."
	if bytes.IndexByte(a, '^') >= 0 {
		style += "#" // #^ is written ^, unless the # is the end of a symbol
	}
	for c, k := range n {
		if k != 0 && !strings.ContainsRune(style, rune(c)) {
			return fmt.Sprintf("%+d of the character %q", -k, rune(c))
		}
	}
	return ""
}

// nsForm writes down a namespace declaration without what the transforms may
// change about it: the entries of each clause are sorted, brackets of either
// kind are the same, (a) is a, and (a.b C) is a.b.C. Comments come at the end.
func nsForm(ns parse.Node) string {
	var comments []string
	var form func(n parse.Node, depth int) string
	form = func(n parse.Node, depth int) string {
		var parts []string
		for i, c := range n.Children() {
			if goclj.Newline(c) {
				continue
			}
			if cn, ok := c.(*parse.CommentNode); ok {
				comments = append(comments, string(squeeze([]byte(cn.Text))))
				continue
			}
			s := form(c, depth+1)
			if depth == 1 && i == 0 {
				s = strings.TrimPrefix(strings.TrimPrefix(s, "s:"), "k::")
			}
			parts = append(parts, s)
		}
		switch n := n.(type) {
		case *parse.SymbolNode:
			return "s:" + n.Val
		case *parse.KeywordNode:
			return "k:" + n.Val
		case *parse.ListNode, *parse.VectorNode:
			if depth > 3 {
				break
			}
			if depth == 1 && len(parts) > 1 {
				sort.Strings(parts[1:])
			}
			if depth >= 2 && len(parts) == 1 {
				return parts[0]
			}
			if depth == 2 && len(parts) == 2 && strings.HasPrefix(parts[0], "s:") && strings.HasPrefix(parts[1], "s:") {
				return parts[0] + "." + parts[1][2:]
			}
			return "(" + strings.Join(parts, "\n") + ")"
		}
		return fmt.Sprintf("%T %s{%s}", n, plain(n), strings.Join(parts, "\n"))
	}
	s := form(ns, 0)
	sort.Strings(comments)
	return s + "\n;;;\n" + strings.Join(comments, "\n")
}

func plain(n parse.Node) string {
	switch n := n.(type) {
	case *parse.StringNode: // may be a docstring, which is re-aligned
		return string(squeeze([]byte(n.Val)))
	case *parse.MapNode:
		return n.Namespace
	}
	switch n.(type) {
	case *parse.ListNode, *parse.VectorNode, *parse.SetNode, *parse.FnLiteralNode, *parse.ReaderCondNode, *parse.ReaderCondSpliceNode:
		return "" // the length of some of them counts line breaks
	}
	return describe(n)
}
