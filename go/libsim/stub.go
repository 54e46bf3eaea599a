package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

// RPlan scripts a reader.
type RPlan struct {
	// Chunks are the sizes of successive reads, cycled; 0 is an empty read.
	Chunks []int `json:"chunks,omitempty"`
	// EOFWithData: the last bytes come together with io.EOF.
	EOFWithData bool `json:"eofdata,omitempty"`
	// After is what a read after end-of-input would deliver.
	After []byte `json:"after,omitempty"`
	// Scribble: the reader uses the rest of the buffer as scratch space.
	Scribble bool `json:"scribble,omitempty"`
	// Fail: the read that reaches FailAt fails.
	Fail     bool `json:"fail,omitempty"`
	FailAt   int  `json:"failat,omitempty"`
	WithData bool `json:"withdata,omitempty"` // the failure comes with the bytes before it
	Once     bool `json:"once,omitempty"`     // later reads would succeed
	Endless  bool `json:"endless,omitempty"`  // instead of an error: empty reads for ever
	Kind     int  `json:"ekind,omitempty"`    // which error value
	Wrap     int  `json:"wrap,omitempty"`     // what kind of reader
	Slow     int  `json:"slow,omitempty"`     // seconds a read takes
}

type stubReader struct {
	data      []byte
	plan      RPlan
	pos, i    int
	eofs      int
	failed    int
	returned  bool // the call under test has returned
	reads     int
	empties   int
	endless   int // empty reads in a row at the end
	maxBuf    int
	lateReads int // reads after end-of-input or failure was reported
	lateCalls int // reads after the call under test returned
	tooMany   bool
}

func (s *stubReader) err() error { return errKinds[s.plan.Kind%len(errKinds)] }

func (s *stubReader) scribble(p []byte) {
	if s.plan.Scribble {
		for i := range p {
			p[i] = ")]}\"\\;\xff("[i%8]
		}
	}
}

const endlessCap = 5000

func (s *stubReader) Read(p []byte) (int, error) {
	s.reads++
	slow(s.plan.Slow)
	if len(p) > s.maxBuf {
		s.maxBuf = len(p)
	}
	if s.returned {
		s.lateCalls++
	}
	if s.eofs > 0 {
		s.lateReads++
		n := copy(p, s.plan.After)
		s.plan.After = s.plan.After[n:]
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	if s.failed > 0 {
		s.lateReads++
		if !s.plan.Once {
			return 0, s.err()
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(s.plan.Chunks) > 0 {
		n = s.plan.Chunks[s.i%len(s.plan.Chunks)]
		s.i++
	}
	if n > len(p) {
		n = len(p)
	}
	limit := len(s.data)
	failing := s.plan.Fail && (s.failed == 0 || !s.plan.Once)
	if failing && s.plan.FailAt < limit {
		limit = s.plan.FailAt
	}
	if n > limit-s.pos {
		n = limit - s.pos
	}
	if n == 0 && s.pos < limit { // scripted empty read
		s.empties++
		s.scribble(p)
		return 0, nil
	}
	k := copy(p, s.data[s.pos:s.pos+n])
	s.pos += k
	s.scribble(p[k:])
	if s.pos < limit {
		return k, nil
	}
	if failing {
		if s.plan.Endless {
			s.empties++
			s.endless++
			if s.endless > endlessCap {
				s.tooMany = true
				s.failed++
				return k, s.err()
			}
			return k, nil
		}
		if k > 0 && !s.plan.WithData {
			return k, nil
		}
		s.failed++
		return k, s.err()
	}
	if k > 0 && !s.plan.EOFWithData {
		return k, nil
	}
	s.eofs++
	return k, io.EOF
}

// WPlan scripts a writer.
type WPlan struct {
	Fail   bool `json:"fail,omitempty"`
	FailAt int  `json:"failat,omitempty"` // bytes accepted before the failure
	// FromEnd, instead of FailAt: how many bytes of the output are not accepted.
	FromEnd int `json:"fromend,omitempty"`
	// Shape: 0 the bytes up to FailAt are accepted and the error returned with
	// the short count; 1 a short count without an error; 2 nothing of the
	// failing write is accepted; 3 like 0 but later writes would succeed;
	// 4 like 1 but later writes would succeed;
	// 5 the write is accepted in full, and an error is returned all the same.
	Shape int `json:"shape,omitempty"`
	Kind  int `json:"ekind,omitempty"`
	Wrap  int `json:"wrap,omitempty"` // what kind of writer
	Slow  int `json:"slow,omitempty"` // seconds a write takes
}

type stubWriter struct {
	plan       WPlan
	got        []byte
	failed     int
	failErr    error
	lateWrites int
	lateBytes  []byte
	returned   bool
	lateCalls  int
	writes     int

	// With a limit, writing fails when a line gets longer than that.
	limit, line int
	tooLong     bool
	total       int
	discard     bool
}

var errTooLong = errors.New("the line is too long")

func (s *stubWriter) Write(p []byte) (int, error) {
	s.writes++
	slow(s.plan.Slow)
	if s.returned {
		s.lateCalls++
	}
	if s.failed > 0 {
		s.lateWrites++
		s.lateBytes = append(s.lateBytes, p...)
		if s.plan.Shape == 3 || s.plan.Shape == 4 {
			s.got = append(s.got, p...)
			return len(p), nil
		}
		return 0, s.failErr
	}
	if s.limit > 0 {
		for q := p; len(q) > 0; {
			i := bytes.IndexByte(q, '\n') + 1
			if i == 0 {
				s.line += len(q)
				break
			}
			if s.line+i > s.limit {
				s.tooLong = true
			}
			q, s.line = q[i:], 0
		}
		if s.line > s.limit {
			s.tooLong = true
		}
		if s.tooLong {
			s.failed++
			s.failErr = errTooLong
			return 0, s.failErr
		}
	}
	s.total += len(p)
	if s.discard {
		return len(p), nil
	}
	if !s.plan.Fail || len(s.got)+len(p) <= s.plan.FailAt {
		s.got = append(s.got, p...)
		return len(p), nil
	}
	s.failed++
	s.failErr = errKinds[s.plan.Kind%len(errKinds)]
	k := s.plan.FailAt - len(s.got)
	switch s.plan.Shape {
	case 1, 4:
		s.got = append(s.got, p[:k]...)
		return k, nil
	case 2:
		return 0, s.failErr
	case 5:
		s.got = append(s.got, p...)
		return len(p), s.failErr
	}
	s.got = append(s.got, p[:k]...)
	return k, s.failErr
}

// Cfg is a printer configuration.
type Cfg struct {
	Indent      int            `json:"indent,omitempty"` // 0 space, 1 tab
	Transforms  map[int]bool   `json:"tr,omitempty"`
	Overrides   map[string]int `json:"ov,omitempty"`
	ThreadFirst map[string]int `json:"tf,omitempty"`
	NilTr       bool           `json:"niltr,omitempty"` // leave Transforms nil
}

type maps struct {
	tr map[format.Transform]bool
	ov map[string]format.IndentStyle
	tf map[string]format.ThreadFirstStyle
}

func (c *Cfg) maps() maps {
	var m maps
	if !c.NilTr {
		m.tr = map[format.Transform]bool{}
		for k, v := range c.Transforms {
			m.tr[format.Transform(k)] = v
		}
	}
	if c.Overrides != nil {
		m.ov = map[string]format.IndentStyle{}
		for k, v := range c.Overrides {
			m.ov[k] = format.IndentStyle(v)
		}
	}
	if c.ThreadFirst != nil {
		m.tf = map[string]format.ThreadFirstStyle{}
		for k, v := range c.ThreadFirst {
			m.tf[k] = format.ThreadFirstStyle(v)
		}
	}
	return m
}

func (m maps) String() string {
	var ss []string
	for k, v := range m.tr {
		ss = append(ss, fmt.Sprintf("t%d=%v", int(k), v))
	}
	for k, v := range m.ov {
		ss = append(ss, fmt.Sprintf("o%s=%d", k, int(v)))
	}
	for k, v := range m.tf {
		ss = append(ss, fmt.Sprintf("f%s=%d", k, int(v)))
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

func defaultsString() string {
	return maps{tr: format.DefaultTransforms}.String()
}

func (c *Cfg) printer(w io.Writer, m maps) *format.Printer {
	p := format.NewPrinter(w)
	if c.Indent == 1 {
		p.IndentChar = '\t'
	}
	p.Transforms = m.tr
	p.IndentOverrides = m.ov
	p.ThreadFirstStyleOverrides = m.tf
	return p
}

// dump writes a tree down completely: kinds, texts, positions, parents.
func dump(t *parse.Tree) string {
	var b strings.Builder
	var walk func(n, parent parse.Node, depth int)
	walk = func(n, parent parse.Node, depth int) {
		p := n.Position()
		fmt.Fprintf(&b, "%d %T %s", depth, n, describe(n))
		if p != nil {
			fmt.Fprintf(&b, " @%s:%d:%d:%d", p.Name, p.Offset, p.Line, p.Col)
		}
		if n.Parent() != parent {
			fmt.Fprintf(&b, " BADPARENT")
		}
		b.WriteByte('\n')
		for _, c := range n.Children() {
			walk(c, n, depth+1)
		}
	}
	for _, n := range t.Roots {
		walk(n, nil, 0)
	}
	return b.String()
}

// describe gives the text a node carries.
func describe(n parse.Node) string {
	switch n := n.(type) {
	case *parse.BoolNode:
		return fmt.Sprint(n.Val)
	case *parse.CharacterNode:
		return fmt.Sprintf("%q %q", n.Val, n.Text)
	case *parse.CommentNode:
		return fmt.Sprintf("%q", n.Text)
	case *parse.KeywordNode:
		return fmt.Sprintf("%q", n.Val)
	case *parse.MapNode:
		return fmt.Sprintf("%q", n.Namespace)
	case *parse.NumberNode:
		return fmt.Sprintf("%q", n.Val)
	case *parse.SymbolNode:
		return fmt.Sprintf("%q", n.Val)
	case *parse.StringNode:
		return fmt.Sprintf("%q", n.Val)
	case *parse.RegexNode:
		return fmt.Sprintf("%q", n.Val)
	case *parse.VarQuoteNode:
		return fmt.Sprintf("%q", n.Val)
	case *parse.TagNode:
		return fmt.Sprintf("%q", n.Val)
	}
	return n.String()
}
