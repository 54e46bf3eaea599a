From e03beaef4042f15fe442b4e5c4a98927d6068003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 01/18] fix: scan on demand instead of in a goroutine that
 outlives the parse

The lexer ran in its own goroutine, which stayed blocked forever (and went on
reading the caller's reader) when the parser returned early with an error. It
also read the input again after EOF, and ended the token stream without a
position for a '#' or '#?' at the end of the input. Scan when the parser asks
for a token, stop at the first EOF, and always end with a positioned token.
---
 parse/lex.go | 60 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 85ad163..134e7e5 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -123,23 +123,23 @@ func (t token) String() string {
 type lexer struct {
 	name    string // the name of the input source
 	input   *bufio.Reader
-	pos     *Pos // the current position in the input
-	start   *Pos // the start position of the token being scanned
-	lastPos *Pos // the position before the most recent next() call
-	tokens  chan token
-	val     []rune // the literal contents of the token
+	pos     *Pos    // the current position in the input
+	start   *Pos    // the start position of the token being scanned
+	lastPos *Pos    // the position before the most recent next() call
+	state   stateFn // the state to run next (nil once scanning is finished)
+	tokens  []token // tokens which have been scanned but not yet consumed
+	val     []rune  // the literal contents of the token
+	atEOF   bool    // whether input has reported EOF
 }
 
 func lex(name string, input *bufio.Reader) *lexer {
-	l := &lexer{
-		name:   name,
-		input:  input,
-		pos:    &Pos{Name: name, Line: 1, Col: 1},
-		start:  &Pos{Name: name, Line: 1, Col: 1},
-		tokens: make(chan token),
+	return &lexer{
+		name:  name,
+		input: input,
+		pos:   &Pos{Name: name, Line: 1, Col: 1},
+		start: &Pos{Name: name, Line: 1, Col: 1},
+		state: lexOuter,
 	}
-	go l.run()
-	return l
 }
 
 type inputReadErr struct {
@@ -147,9 +147,13 @@ type inputReadErr struct {
 }
 
 func (l *lexer) next() (r rune, eof bool) {
+	if l.atEOF {
+		return 0, true
+	}
 	r, w, err := l.input.ReadRune()
 	if err != nil {
 		if err == io.EOF {
+			l.atEOF = true
 			return 0, true
 		}
 		panic(inputReadErr{err})
@@ -211,7 +215,7 @@ func (l *lexer) scanUntil(set string) {
 }
 
 func (l *lexer) emit(typ tokType) {
-	l.tokens <- token{typ, l.start, string(l.val)}
+	l.tokens = append(l.tokens, token{typ, l.start, string(l.val)})
 	l.skip()
 }
 
@@ -221,20 +225,28 @@ func (l *lexer) skip() {
 }
 
 func (l *lexer) synth(typ tokType, val string) {
-	l.tokens <- token{typ, l.start, val}
+	l.tokens = append(l.tokens, token{typ, l.start, val})
 }
 
+// nextToken returns the next token, scanning only as much of the input as is
+// needed to find it. The last token is tokEOF or tokError; it must not be called
+// again after that.
 func (l *lexer) nextToken() token {
-	return <-l.tokens
+	for len(l.tokens) == 0 {
+		l.run()
+	}
+	tok := l.tokens[0]
+	l.tokens = append(l.tokens[:0], l.tokens[1:]...)
+	return tok
 }
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf(format, args...)}
+	l.tokens = append(l.tokens, token{tokError, l.start, fmt.Sprintf(format, args...)})
 	return nil
 }
 
 func (l *lexer) scanError(err error) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)}
+	l.tokens = append(l.tokens, token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)})
 	return nil
 }
 
@@ -246,6 +258,7 @@ func (l *lexer) eof() stateFn {
 // stateFn represents a single state in the scanner.
 type stateFn func(*lexer) stateFn
 
+// run runs the current state.
 func (l *lexer) run() {
 	defer func() {
 		if e := recover(); e != nil {
@@ -257,9 +270,7 @@ func (l *lexer) run() {
 		}
 	}()
 
-	for state := lexOuter; state != nil; state = state(l) {
-	}
-	close(l.tokens)
+	l.state = l.state(l)
 }
 
 func lexOuter(l *lexer) stateFn {
@@ -419,7 +430,7 @@ func lexDispatch(l *lexer) stateFn {
 	r, eof := l.next()
 	if eof {
 		l.emit(tokOctothorpe)
-		return nil
+		return l.eof()
 	}
 	val := string(l.val)
 	switch r {
@@ -433,7 +444,8 @@ func lexDispatch(l *lexer) stateFn {
 		r, eof = l.next()
 		if eof {
 			l.synth(tokDispatch, val)
-			return nil
+			l.skip()
+			return l.eof()
 		}
 		if r != '@' {
 			l.back()
@@ -457,7 +469,7 @@ func lexDispatch(l *lexer) stateFn {
 		return lexComment
 	case '<':
 		// #< is the 'unreadable' reader dispatch macro.
-		l.errorf("unreadable dispatch macro")
+		return l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
 		l.skip()
-- 
2.43.0


From 425e7fa37ac7a0ed02a4ee3f02cf6518c5cea391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 02/18] fix: accept newlines between ^, #_ or #= and the form
 they apply to

The parser took the newline itself as the form, and printing such a tree
panicked.
---
 parse/parse.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 58e8e57..1243c8f 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -226,6 +226,20 @@ func (t *Tree) parseNextSemantic() Node {
 	}
 }
 
+// parseNextNonNewline parses the next item from the token stream, skipping
+// newlines. Like parseNextSemantic, it expects that such an item exists.
+func (t *Tree) parseNextNonNewline() Node {
+	tok := t.next()
+	for tok.typ == tokNewline {
+		tok = t.next()
+	}
+	if tok.typ == tokEOF {
+		t.unexpectedEOF(tok)
+	}
+	t.backup()
+	return t.parseNext()
+}
+
 func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 	var r rune
 	val := tok.val[1:]
@@ -431,30 +445,15 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 }
 
 func (t *Tree) parseMetadata(start token) *MetadataNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &MetadataNode{Pos: start.pos, Node: t.parseNext()}
+	return &MetadataNode{Pos: start.pos, Node: t.parseNextNonNewline()}
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNextNonNewline()}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNextNonNewline()}
 }
 
 func (t *Tree) parseRegex(start token) *RegexNode {
-- 
2.43.0


From 3be1d773c70a47041d3f2413ef1cc9ce83d00492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 03/18] fix: do not share one newline node between all
 transformed trees

The transforms put the same package-level node into every tree they rewrote, so
that setting its parent in one tree showed up in, and raced with, the others.
---
 format/require.go   | 26 ++++++++++++++------------
 format/transform.go | 10 +++++-----
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/format/require.go b/format/require.go
index 9a58714..e18c1ae 100644
--- a/format/require.go
+++ b/format/require.go
@@ -150,7 +150,9 @@ type nodeComments struct {
 	commentsBesideMerged bool
 }
 
-var newline = &parse.NewlineNode{}
+// newNewline returns a new node, because nodes belong to the tree they are put
+// in: the printer and the tree's users may annotate them.
+func newNewline() *parse.NewlineNode { return &parse.NewlineNode{} }
 
 func (nc *nodeComments) attachCommentsAbove(cs []*parse.CommentNode) {
 	nc.commentsAbove = append(nc.commentsAbove, cs...)
@@ -261,10 +263,10 @@ func (rl *requireList) render() []parse.Node {
 	} else {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
-	nodes = append(nodes, newline)
+	nodes = append(nodes, newNewline())
 	for _, r := range rl.m {
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newNewline())
 		}
 		parts := []parse.Node{&parse.SymbolNode{Val: r.name}}
 		as := sortStringSet(r.as)
@@ -278,7 +280,7 @@ func (rl *requireList) render() []parse.Node {
 					&parse.SymbolNode{Val: as[0]},
 				},
 			}
-			nodes = append(nodes, n, newline)
+			nodes = append(nodes, n, newNewline())
 			as = as[1:]
 		}
 		if len(as) > 0 {
@@ -302,25 +304,25 @@ func (rl *requireList) render() []parse.Node {
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newNewline())
 	}
 	for _, r := range rl.extraRequire {
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newNewline())
 		}
 		nodes = append(nodes, r.n)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newNewline())
 	}
 	for _, c := range rl.commentsBelow {
-		nodes = append(nodes, c, newline)
+		nodes = append(nodes, c, newNewline())
 	}
 
 	list := []parse.Node{
 		&parse.ListNode{Nodes: nodes},
-		newline,
+		newNewline(),
 	}
 	if len(rl.extraUse) > 0 {
 		extra := []parse.Node{
@@ -328,17 +330,17 @@ func (rl *requireList) render() []parse.Node {
 		}
 		for _, n := range rl.extraUse {
 			for _, c := range n.comments.commentsAbove {
-				extra = append(extra, c, newline)
+				extra = append(extra, c, newNewline())
 			}
 			extra = append(extra, n.n)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
 			}
-			extra = append(extra, newline)
+			extra = append(extra, newNewline())
 		}
 		list = append(list,
 			&parse.ListNode{Nodes: extra},
-			newline,
+			newNewline(),
 		)
 	}
 	return list
diff --git a/format/transform.go b/format/transform.go
index 2e29b3b..3bb5db5 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -286,7 +286,7 @@ func enforceNSStyle(ns parse.Node) {
 		}
 		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
 			clauseChildren = append(
-				[]parse.Node{clauseChildren[0], newline},
+				[]parse.Node{clauseChildren[0], newNewline()},
 				clauseChildren[1:]...,
 			)
 		}
@@ -390,21 +390,21 @@ func sortImportRequire(n *parse.ListNode) {
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
 	if initialNewline {
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newNewline())
 	}
 	for _, ir := range sorted {
 		for _, cn := range ir.commentsAbove {
-			newNodes = append(newNodes, cn, newline)
+			newNodes = append(newNodes, cn, newNewline())
 		}
 		newNodes = append(newNodes, ir.node)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
 		}
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newNewline())
 	}
 	// unattached comments at the bottom
 	for _, cn := range lineComments {
-		newNodes = append(newNodes, cn, newline)
+		newNodes = append(newNodes, cn, newNewline())
 	}
 	// drop trailing newline
 	if len(newNodes) >= 2 && !goclj.Comment(newNodes[len(newNodes)-2]) {
-- 
2.43.0


From 31683760df006704fdd2475b565f6d29bd865c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 04/18] fix: do not modify the caller's Transforms map

PrintTree stored the defaults into Printer.Transforms, which is a map that the
caller may be sharing between printers (cljfmt does), possibly concurrently.
---
 format/format.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/format/format.go b/format/format.go
index 64b2c35..f5512df 100644
--- a/format/format.go
+++ b/format/format.go
@@ -71,14 +71,12 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	for k, v := range p.ThreadFirstStyleOverrides {
 		p.threadFirstStyles[k] = v
 	}
-	if p.Transforms == nil {
-		p.Transforms = DefaultTransforms
-	} else {
-		for k, v := range DefaultTransforms {
-			if _, ok := p.Transforms[k]; !ok {
-				p.Transforms[k] = v
-			}
-		}
+	transforms := make(map[Transform]bool)
+	for k, v := range DefaultTransforms {
+		transforms[k] = v
+	}
+	for k, v := range p.Transforms {
+		transforms[k] = v
 	}
 	defer func() {
 		if e := recover(); e != nil {
@@ -92,7 +90,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
-	applyTransforms(t, p.Transforms)
+	applyTransforms(t, transforms)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
 		p.markThreadFirsts(node)
-- 
2.43.0


From 986aaed77d10ef9e0010d214e0c5e700d8f9bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 05/18] fix: forget the previous tree when a Printer is used
 again

The :require aliases and :refer names of one tree changed how the trees printed
after it with the same Printer were indented.
---
 format/format.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index f5512df..5b4c210 100644
--- a/format/format.go
+++ b/format/format.go
@@ -45,18 +45,18 @@ type Printer struct {
 // NewPrinter creates a printer to the given writer.
 func NewPrinter(w io.Writer) *Printer {
 	return &Printer{
-		bufWriter:     &bufWriter{bufio.NewWriter(w)},
-		IndentChar:    ' ',
-		specialIndent: make(map[parse.Node]IndentStyle),
-		threadFirst:   make(map[parse.Node]struct{}),
-		docstrings:    make(map[*parse.StringNode]struct{}),
-		requires:      make(map[string]string),
-		refers:        make(map[string]string),
+		bufWriter:  &bufWriter{bufio.NewWriter(w)},
+		IndentChar: ' ',
 	}
 }
 
 // PrintTree writes t to p's writer.
 func (p *Printer) PrintTree(t *parse.Tree) (err error) {
+	p.specialIndent = make(map[parse.Node]IndentStyle)
+	p.threadFirst = make(map[parse.Node]struct{})
+	p.docstrings = make(map[*parse.StringNode]struct{})
+	p.requires = make(map[string]string)
+	p.refers = make(map[string]string)
 	p.indentStyles = make(map[string]IndentStyle)
 	for k, v := range defaultIndents {
 		p.indentStyles[k] = v
-- 
2.43.0


From bf866e5ba970ad907175e34bd8163ba9eccf6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 06/18] fix: emit merged requires in a fixed order

requireList.render ranged over a map, so with use-to-require or
remove-unused-requires the same input gave different output from run to run
wherever sorting did not hide it.
---
 format/require.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/require.go b/format/require.go
index e18c1ae..90cb8f1 100644
--- a/format/require.go
+++ b/format/require.go
@@ -264,7 +264,13 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
 	nodes = append(nodes, newNewline())
-	for _, r := range rl.m {
+	var names []string
+	for name := range rl.m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		r := rl.m[name]
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newNewline())
 		}
-- 
2.43.0


From a512d07937d53890230eaa166a7956c2cec1aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 07/18] fix: keep bytes that are not valid UTF-8 as they are

The lexer decoded each of them to U+FFFD, so that formatting replaced them (in
strings and comments, say) by the encoding of that character.
---
 parse/lex.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 134e7e5..8a0b459 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -128,7 +128,7 @@ type lexer struct {
 	lastPos *Pos    // the position before the most recent next() call
 	state   stateFn // the state to run next (nil once scanning is finished)
 	tokens  []token // tokens which have been scanned but not yet consumed
-	val     []rune  // the literal contents of the token
+	val     []byte  // the literal contents of the token
 	atEOF   bool    // whether input has reported EOF
 }
 
@@ -158,6 +158,19 @@ func (l *lexer) next() (r rune, eof bool) {
 		}
 		panic(inputReadErr{err})
 	}
+	if r == unicode.ReplacementChar && w == 1 {
+		// Not valid UTF-8; keep the byte as it is.
+		if err := l.input.UnreadByte(); err != nil {
+			panic("should not happen")
+		}
+		b, err := l.input.ReadByte()
+		if err != nil {
+			panic("should not happen")
+		}
+		l.val = append(l.val, b)
+	} else {
+		l.val = append(l.val, string(r)...)
+	}
 	l.lastPos = l.pos.Copy()
 	l.pos.Offset += w
 	l.pos.Col += w
@@ -165,7 +178,6 @@ func (l *lexer) next() (r rune, eof bool) {
 		l.pos.Line++
 		l.pos.Col = 1
 	}
-	l.val = append(l.val, r)
 	return r, false
 }
 
@@ -173,11 +185,16 @@ func (l *lexer) back() {
 	if l.lastPos == nil {
 		panic("back() call not preceded by a next()")
 	}
-	if err := l.input.UnreadRune(); err != nil {
+	unread := l.input.UnreadRune
+	w := l.pos.Offset - l.lastPos.Offset
+	if w == 1 {
+		unread = l.input.UnreadByte
+	}
+	if err := unread(); err != nil {
 		panic("should not happen")
 	}
 	l.pos = l.lastPos
-	l.val = l.val[:len(l.val)-1]
+	l.val = l.val[:len(l.val)-w]
 	l.lastPos = nil
 }
 
-- 
2.43.0


From da9ef938e0acd93966869b2f12255b7e92408985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 08/18] fix: never print code on the line of a comment

A comment ended by a carriage return swallowed what follows it, including
closing delimiters, because only the newline that usually follows is printed;
and some transforms move that newline away, as in (defn ;foo<newline> [x] 1 2).
---
 format/format.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/format/format.go b/format/format.go
index 5b4c210..4762232 100644
--- a/format/format.go
+++ b/format/format.go
@@ -90,7 +90,9 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
+	t.Roots = breakAfterComments(t.Roots)
 	applyTransforms(t, transforms)
+	t.Roots = breakAfterComments(t.Roots)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
 		p.markThreadFirsts(node)
@@ -100,6 +102,58 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	return p.bw.Flush()
 }
 
+// breakAfterComments adds the newline that each comment needs in order not to
+// swallow what is printed after it, where there isn't one: in the source, the
+// comment may have been ended by a carriage return; and transforms may have
+// moved the newline away. A comment at the end of nodes is left alone.
+func breakAfterComments(nodes []parse.Node) []parse.Node {
+	var newNodes []parse.Node
+	for i, n := range nodes {
+		breakAfterNestedComments(n)
+		newNodes = append(newNodes, n)
+		if endsInComment(n) && i < len(nodes)-1 && !goclj.Newline(nodes[i+1]) {
+			newNodes = append(newNodes, &parse.NewlineNode{})
+		}
+	}
+	return newNodes
+}
+
+func breakAfterNestedComments(n parse.Node) {
+	nodes := n.Children()
+	if len(nodes) == 0 {
+		return
+	}
+	newNodes := breakAfterComments(nodes)
+	if isPrefixed(n) {
+		return // no closing delimiter
+	}
+	if endsInComment(newNodes[len(newNodes)-1]) {
+		newNodes = append(newNodes, &parse.NewlineNode{})
+	}
+	if len(newNodes) > len(nodes) {
+		n.SetChildren(newNodes)
+	}
+}
+
+// endsInComment reports whether the last thing printed for n is a comment.
+func endsInComment(n parse.Node) bool {
+	for isPrefixed(n) {
+		n = n.Children()[0]
+	}
+	return goclj.Comment(n)
+}
+
+// isPrefixed reports whether n is a single node with a prefix, such as 'x.
+func isPrefixed(n parse.Node) bool {
+	switch n.(type) {
+	case *parse.DerefNode, *parse.MetadataNode, *parse.QuoteNode,
+		*parse.ReaderDiscardNode, *parse.ReaderEvalNode,
+		*parse.SyntaxQuoteNode, *parse.UnquoteNode, *parse.UnquoteSpliceNode:
+		return true
+	}
+	return false
+}
+
 // printNode prints a representation of node using w, the given indent level
 // as a baseline. It returns the new indent.
 func (p *Printer) printNode(node parse.Node, w int) int {
-- 
2.43.0


From 07144dfdd2311eafcf56029e88c53af3b3811ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 09/18] fix: print the space in tags such as # _foo

Without it the tag becomes another dispatch macro: # _foo was printed as the
reader discard #_foo.
---
 format/format.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 4762232..cf38866 100644
--- a/format/format.go
+++ b/format/format.go
@@ -245,7 +245,11 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('`')
 		return p.printNode(node.Node, w)
 	case *parse.TagNode:
-		return w + p.writeString("#"+node.Val)
+		w += p.writeByte('#')
+		if strings.IndexAny(node.Val, "!<=?_") == 0 {
+			w += p.writeByte(' ') // #_foo isn't a tag
+		}
+		return w + p.writeString(node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
 		return p.printNode(node.Node, w)
-- 
2.43.0


From 1ed01deb2d59a63f2dc8e35746bc205648fa8e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 10/18] fix: tell ~ @foo from ~@foo

The parser read an unquote of a deref as an unquote-splice, and the printer
printed it as one.
---
 format/format.go | 3 +++
 parse/parse.go   | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index cf38866..cefd7d4 100644
--- a/format/format.go
+++ b/format/format.go
@@ -252,6 +252,9 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		return w + p.writeString(node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
+		if _, ok := node.Node.(*parse.DerefNode); ok {
+			w += p.writeByte(' ') // ~@foo isn't the same as ~ @foo
+		}
 		return p.printNode(node.Node, w)
 	case *parse.UnquoteSpliceNode:
 		w += p.writeString("~@")
diff --git a/parse/parse.go b/parse/parse.go
index 1243c8f..495a1fb 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -187,10 +187,10 @@ func (t *Tree) parseNext() Node {
 			return &SyntaxQuoteNode{Pos: tok.pos, Node: t.parseNextSemantic()}
 		case tokTilde:
 			next := t.next()
-			switch next.typ {
-			case tokAtSign:
+			switch {
+			case next.typ == tokAtSign && next.pos.Offset == tok.pos.Offset+1:
 				return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
-			case tokEOF:
+			case next.typ == tokEOF:
 				t.unexpectedEOF(next)
 			}
 			t.backup()
-- 
2.43.0


From 4e1cd51a9372ecd4b12732850ccc78fabbfaa23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 11/18] fix: report errors writing to standard output

cljfmt exited with status zero, having written only part of its output or none,
when standard output was a full disk or a closed pipe.
---
 cljfmt/cljfmt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 5035238..b263456 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -215,7 +215,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	}
 	if !bytes.Equal(buf1.Bytes(), buf2.Bytes()) {
 		if c.list {
-			fmt.Println(filename)
+			if _, err := fmt.Println(filename); err != nil {
+				return err
+			}
 		}
 		if c.write {
 			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
@@ -224,7 +226,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 		}
 	}
 	if !c.list && !c.write {
-		io.Copy(os.Stdout, &buf2)
+		if _, err := io.Copy(os.Stdout, &buf2); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 607d31e0a49eb835ee3ff3312a65e02c72aa3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 12/18] fix: walk a directory given as a symbolic link

cljfmt accepted such a path as a directory (it uses Stat) but then did nothing
with it, and exited with status zero, because filepath.Walk doesn't follow it.
---
 cljfmt/cljfmt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index b263456..76d9e84 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -250,7 +250,8 @@ func (c *config) walkDir(path string) {
 		}
 		return nil // not a Clojure file
 	}
-	if err := filepath.Walk(path, walk); err != nil {
+	// The separator makes Walk enter path even if it's a symbolic link.
+	if err := filepath.Walk(path+string(filepath.Separator), walk); err != nil {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From 4cff65c041b2a2b3730a683c1ca78905bf202966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 13/18] fix: do not lose a file's contents when -w is
 interrupted

cljfmt -w truncated the file and then wrote it, so a full disk, an I/O error or
a crash in between destroyed the source. Keep a backup beside the file while
writing, write it in place without giving up its space first, and put the old
contents back if that fails.
---
 cljfmt/cljfmt.go | 72 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 7 deletions(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 76d9e84..0c6be54 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -178,18 +178,12 @@ var (
 // processFile formats the given file.
 // If in == nil, the input is the file of the given name.
 func (c *config) processFile(filename string, in io.Reader) error {
-	var perm os.FileMode = 0644
 	if in == nil {
 		f, err := os.Open(filename)
 		if err != nil {
 			return err
 		}
 		defer f.Close()
-		stat, err := f.Stat()
-		if err != nil {
-			return err
-		}
-		perm = stat.Mode().Perm()
 		in = f
 	}
 
@@ -220,7 +214,7 @@ func (c *config) processFile(filename string, in io.Reader) error {
 			}
 		}
 		if c.write {
-			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
+			if err := rewriteFile(filename, buf1.Bytes(), buf2.Bytes()); err != nil {
 				return err
 			}
 		}
@@ -233,6 +227,70 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	return nil
 }
 
+// rewriteFile changes the contents of the named file from old to new. It does so
+// in place, to preserve the file's permissions and links. Meanwhile, the old
+// contents are kept in a backup file next to it (which is hidden, so that walks
+// ignore it) in case this process or the system crashes.
+func rewriteFile(filename string, old, new []byte) error {
+	backup, err := writeBackup(filename, old)
+	if err != nil {
+		return err
+	}
+	f, err := os.OpenFile(filename, os.O_WRONLY, 0)
+	if err != nil {
+		os.Remove(backup)
+		return err
+	}
+	if err := overwrite(f, new); err != nil {
+		defer f.Close()
+		if overwrite(f, old) != nil {
+			return fmt.Errorf("%s (the original contents are in %s)", err, backup)
+		}
+		os.Remove(backup)
+		return err
+	}
+	err = f.Close()
+	if rerr := os.Remove(backup); err == nil {
+		err = rerr
+	}
+	return err
+}
+
+func writeBackup(filename string, b []byte) (backup string, err error) {
+	dir, base := filepath.Split(filename)
+	if len(base) > 200 {
+		base = base[:200] // leave room for the rest of the name
+	}
+	if dir == "" {
+		dir = "."
+	}
+	f, err := ioutil.TempFile(dir, "."+base+".*.orig")
+	if err != nil {
+		return "", err
+	}
+	err = overwrite(f, b)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return "", err
+	}
+	return f.Name(), nil
+}
+
+// overwrite makes b the contents of f and waits for it to be stored. It doesn't
+// give up any of f's space before b is written, as there may be no other.
+func overwrite(f *os.File, b []byte) error {
+	if _, err := f.WriteAt(b, 0); err != nil {
+		return err
+	}
+	if err := f.Truncate(int64(len(b))); err != nil {
+		return err
+	}
+	return f.Sync()
+}
+
 func (c *config) walkDir(path string) {
 	walk := func(path string, f os.FileInfo, err error) error {
 		if err != nil {
-- 
2.43.0


From d875e38b7f8d3e963fd2cb142b26b18165222c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:16 +0000
Subject: [PATCH 14/18] fix: look for the comment at the end of a chain of
 prefixes only once

---
 format/format.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/format/format.go b/format/format.go
index cefd7d4..0e050b2 100644
--- a/format/format.go
+++ b/format/format.go
@@ -90,9 +90,9 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
-	t.Roots = breakAfterComments(t.Roots)
+	t.Roots, _ = breakAfterComments(t.Roots)
 	applyTransforms(t, transforms)
-	t.Roots = breakAfterComments(t.Roots)
+	t.Roots, _ = breakAfterComments(t.Roots)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
 		p.markThreadFirsts(node)
@@ -106,41 +106,35 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 // swallow what is printed after it, where there isn't one: in the source, the
 // comment may have been ended by a carriage return; and transforms may have
 // moved the newline away. A comment at the end of nodes is left alone.
-func breakAfterComments(nodes []parse.Node) []parse.Node {
-	var newNodes []parse.Node
+//
+// It also reports whether the last thing printed for nodes is a comment.
+func breakAfterComments(nodes []parse.Node) (newNodes []parse.Node, comment bool) {
 	for i, n := range nodes {
-		breakAfterNestedComments(n)
+		comment = breakAfterNestedComments(n)
 		newNodes = append(newNodes, n)
-		if endsInComment(n) && i < len(nodes)-1 && !goclj.Newline(nodes[i+1]) {
+		if comment && i < len(nodes)-1 && !goclj.Newline(nodes[i+1]) {
 			newNodes = append(newNodes, &parse.NewlineNode{})
 		}
 	}
-	return newNodes
+	return newNodes, comment
 }
 
-func breakAfterNestedComments(n parse.Node) {
+func breakAfterNestedComments(n parse.Node) (comment bool) {
 	nodes := n.Children()
 	if len(nodes) == 0 {
-		return
+		return goclj.Comment(n)
 	}
-	newNodes := breakAfterComments(nodes)
+	newNodes, comment := breakAfterComments(nodes)
 	if isPrefixed(n) {
-		return // no closing delimiter
+		return comment // no closing delimiter
 	}
-	if endsInComment(newNodes[len(newNodes)-1]) {
+	if comment {
 		newNodes = append(newNodes, &parse.NewlineNode{})
 	}
 	if len(newNodes) > len(nodes) {
 		n.SetChildren(newNodes)
 	}
-}
-
-// endsInComment reports whether the last thing printed for n is a comment.
-func endsInComment(n parse.Node) bool {
-	for isPrefixed(n) {
-		n = n.Children()[0]
-	}
-	return goclj.Comment(n)
+	return false
 }
 
 // isPrefixed reports whether n is a single node with a prefix, such as 'x.
-- 
2.43.0


From 00a64bad38a92e3175c8f54fd58ffeff06ba7cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 15/18] fix: refuse a configuration with a key that is not a
 keyword

A damaged configuration such as {extensions [".clj"]} was silently applied
in part.
---
 cljfmt/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cljfmt/config.go b/cljfmt/config.go
index e06298a..387b302 100644
--- a/cljfmt/config.go
+++ b/cljfmt/config.go
@@ -42,7 +42,7 @@ func (c *config) parseDotConfig(r io.Reader, name string) error {
 		k := m.Nodes[i]
 		sym, ok := k.(*parse.KeywordNode)
 		if !ok {
-			continue
+			return unexpectedNodeError{k}
 		}
 		switch sym.Val {
 		case ":extensions":
-- 
2.43.0


From ffd3f6ae3fa9718db9f7d9aa656f06b623426b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 16/18] fix: split an imported symbol only into a package and a
 class name

The part after the last dot of a symbol such as a.#b or a.'b isn't a symbol on
its own: the ns form that enforce-ns-style made of it could not be parsed.
---
 format/transform.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 3bb5db5..cca6a33 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -3,6 +3,8 @@ package format
 import (
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -335,8 +337,8 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j < 0 {
-				break
+			if j <= 0 || !isNameStart(n.Val[j+1:]) {
+				break // not a package and a class
 			}
 			nodes[i] = &parse.ListNode{
 				Nodes: []parse.Node{
@@ -348,6 +350,13 @@ func enforceImportStyle(nodes []parse.Node) {
 	}
 }
 
+// isNameStart reports whether s starts with a character that Java names start
+// with, so that s is still a symbol on its own.
+func isNameStart(s string) bool {
+	r, _ := utf8.DecodeRuneInString(s)
+	return unicode.IsLetter(r) || r == '_' || r == '$'
+}
+
 func sortNS(ns parse.Node) {
 	for _, n := range ns.Children()[1:] {
 		if goclj.FnFormKeyword(n, ":require", ":require-macros", ":import") {
-- 
2.43.0


From fb83180e85ac68707202ad9ef27ed7d6c232b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 17/18] fix: keep the character after a backslash at the end of
 a docstring line

Trimming the space from a last line such as `foo\ "` left `foo\"`, a string that
doesn't end.
---
 format/docstring.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/format/docstring.go b/format/docstring.go
index 4a0db83..6c7e5a0 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -2,6 +2,8 @@ package format
 
 import (
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -54,7 +56,7 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 		if n > w {
 			prefix += strings.Repeat(" ", n-w)
 		}
-		line = strings.TrimSpace(line)
+		line = trimDocstringLine(line)
 		if line != "" {
 			line = prefix + line
 		}
@@ -62,3 +64,16 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 	}
 	return strings.Join(aligned, "\n")
 }
+
+// trimDocstringLine removes white space around line, but for a character that is
+// escaped: without it, the backslash would escape what is printed next.
+func trimDocstringLine(line string) string {
+	line = strings.TrimLeftFunc(line, unicode.IsSpace)
+	trimmed := strings.TrimSpace(line)
+	backslashes := len(trimmed) - len(strings.TrimRight(trimmed, `\`))
+	if backslashes%2 != 0 && len(trimmed) < len(line) {
+		_, n := utf8.DecodeRuneInString(line[len(trimmed):])
+		trimmed = line[:len(trimmed)+n]
+	}
+	return trimmed
+}
-- 
2.43.0


From e135617a68d7fac98666ec430cdf19a80bce6f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 18/18] fix: do not double the indentation with each docstring
 on a line

---
 format/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/format.go b/format/format.go
index 0e050b2..8ea28c8 100644
--- a/format/format.go
+++ b/format/format.go
@@ -231,6 +231,12 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		if _, ok := p.docstrings[node]; ok {
 			val = p.alignDocstring(val, w)
 			delete(p.docstrings, node)
+			if i := strings.LastIndexByte(val, '\n'); i >= 0 {
+				// Count the last line only: the other ones contain
+				// indentation already, which would double each time.
+				p.writeString(`"` + val[:i+1])
+				return p.writeString(val[i+1:] + `"`)
+			}
 		}
 		return w + p.writeString(`"`+val+`"`)
 	case *parse.SymbolNode:
-- 
2.43.0

