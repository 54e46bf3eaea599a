package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/cespare/goclj/parse"
)

// Error values a reader or writer may fail with. Some look temporary, some look
// like an end of input, none is one. (The order is part of replay files.)
var errKinds = []error{
	errors.New("simulated device failure"),
	io.ErrUnexpectedEOF,
	wrapEOF{"read source: EOF"}, // wraps EOF but is not EOF
	errors.New(""),
	io.ErrClosedPipe,
	io.ErrNoProgress,
	timeoutErr{},
	&fs.PathError{Op: "read", Path: "src.clj", Err: syscall.EINTR},
	&fs.PathError{Op: "read", Path: "src.clj", Err: syscall.EAGAIN},
	os.ErrDeadlineExceeded,
	context.Canceled,
	&fs.PathError{Op: "read", Path: "src.clj", Err: syscall.EIO},
	os.ErrClosed,
	io.ErrShortBuffer,
	bufio.ErrBufferFull,
	oddErr{[]string{"odd"}},
	io.ErrShortWrite,
	syscall.EPIPE,
	syscall.ENOSPC,
	syscall.EINTR,
	bufio.ErrNegativeCount,
	errors.New("EOF"),
	fs.ErrNotExist,
	errors.New("100%d of %s\nfailed"),
}

type wrapEOF struct{ s string }

func (e wrapEOF) Error() string { return e.s }
func (e wrapEOF) Unwrap() error { return io.EOF }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timed out" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type oddErr struct{ s []string } // cannot be compared

func (e oddErr) Error() string { return strings.Join(e.s, "") + " failure" }

// What kind of reader hands over the bytes of a stubReader.
const (
	wrapNone = iota
	wrapBufio16
	wrapBufio4096
	wrapBufioBig
	wrapRunes
	wrapWriterTo
	wrapFileLike
	wrapMulti
	wrapLimit
	wrapTee
	wrapSection // from here on there is no stub: the bytes lie ready
	wrapBytes
	wrapString
	wrapBuffer
	wrapFile
	wrapLen // again by way of the stub
	wrapLenLow
	wrapPipe
	wrapNamed
	wrapBytesMid // ready, and partly read already, from here on
	wrapStringMid
	wrapBufferMid
	wrapSectionMid
	wrapFileMid
	wrapBufioMid
)

func (s *stubReader) reader() io.Reader {
	switch s.plan.Wrap {
	case wrapBufio16:
		return bufio.NewReaderSize(s, 16)
	case wrapBufio4096:
		return bufio.NewReader(s)
	case wrapBufioBig:
		return bufio.NewReaderSize(s, 20000)
	case wrapRunes:
		return &runeReader{br: bufio.NewReaderSize(s, 64)}
	case wrapWriterTo:
		return writerTo{s}
	case wrapFileLike:
		return fileLike{s}
	case wrapMulti:
		return io.MultiReader(strings.NewReader(""), s)
	case wrapLimit:
		return &io.LimitedReader{R: s, N: 1 << 40}
	case wrapTee:
		return io.TeeReader(s, io.Discard)
	case wrapLen:
		return lenReader{s, func() int { return len(s.data) - s.pos }}
	case wrapLenLow: // what is buffered, say, not what is to come
		return lenReader{s, func() int { return len(s.data) / 2 % 5 }}
	case wrapPipe:
		return onlyReader{bufio.NewReadWriter(bufio.NewReader(s), bufio.NewWriter(io.Discard))}
	case wrapNamed:
		return namedReader{onlyReader{s}}
	}
	return s
}

// parseWrapped parses what the stub has to say, by way of its wrapping.
func parseWrapped(s *stubReader, opts uint) outcome {
	if !(s.plan.Wrap >= wrapSection && s.plan.Wrap <= wrapFile || s.plan.Wrap >= wrapBytesMid) || s.plan.Fail {
		return tryParse(s.reader(), opts)
	}
	s.eofs = 1
	const before = "(((\"; 1\n"
	past := func(r io.Reader) outcome { // r has been read from before
		if _, err := io.ReadFull(r, make([]byte, len(before))); err != nil {
			panic(err)
		}
		return tryParse(r, opts)
	}
	all := before + string(s.data)
	switch s.plan.Wrap {
	case wrapBytesMid:
		return past(bytes.NewReader([]byte(all)))
	case wrapStringMid:
		return past(strings.NewReader(all))
	case wrapBufferMid:
		return past(bytes.NewBufferString(all))
	case wrapSectionMid:
		return past(io.NewSectionReader(strings.NewReader("#_"+all+")))"), 2, int64(len(all))))
	case wrapBufioMid:
		return past(bufio.NewReaderSize(strings.NewReader(all), 8192))
	case wrapFileMid:
		if err := os.WriteFile("/src.clj", []byte(all), 0o644); err != nil {
			panic(err)
		}
		f, err := os.Open("/src.clj")
		if err != nil {
			panic(err)
		}
		defer f.Close()
		return past(f)
	case wrapSection:
		return tryParse(io.NewSectionReader(bytes.NewReader(append([]byte("((("), s.data...)), 3, int64(len(s.data))), opts)
	case wrapString:
		return tryParse(strings.NewReader(string(s.data)), opts)
	case wrapBuffer:
		return tryParse(bytes.NewBuffer(append([]byte{}, s.data...)), opts)
	case wrapFile:
		if err := os.WriteFile("/src.clj", s.data, 0o644); err != nil {
			panic(err)
		}
		return tryFile("/src.clj", opts)
	}
	return tryParse(bytes.NewReader(s.data), opts)
}

func tryFile(name string, opts uint) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			o = outcome{panic: "panic"}
		}
	}()
	t, err := parse.File(name, parse.ParseOpts(opts))
	return outcome{tree: t, err: err}
}

// nameless makes positions of /src.clj read as those of src.clj.
func nameless(s string) string { return strings.ReplaceAll(s, "/src.clj", "src.clj") }

// runeReader offers everything a parser could want of a reader.
type runeReader struct{ br *bufio.Reader }

func (r *runeReader) Read(p []byte) (int, error)        { return r.br.Read(p) }
func (r *runeReader) ReadByte() (byte, error)           { return r.br.ReadByte() }
func (r *runeReader) UnreadByte() error                 { return r.br.UnreadByte() }
func (r *runeReader) ReadRune() (rune, int, error)      { return r.br.ReadRune() }
func (r *runeReader) UnreadRune() error                 { return r.br.UnreadRune() }
func (r *runeReader) ReadString(d byte) (string, error) { return r.br.ReadString(d) }
func (r *runeReader) ReadBytes(d byte) ([]byte, error)  { return r.br.ReadBytes(d) }
func (r *runeReader) ReadLine() ([]byte, bool, error)   { return r.br.ReadLine() }
func (r *runeReader) Peek(n int) ([]byte, error)        { return r.br.Peek(n) }
func (r *runeReader) Discard(n int) (int, error)        { return r.br.Discard(n) }

// lenReader also says how many bytes it has, which need not be all.
type lenReader struct {
	*stubReader
	len func() int
}

func (l lenReader) Len() int    { return l.len() }
func (l lenReader) Size() int64 { return int64(l.len()) }

type onlyReader struct{ io.Reader }

type namedReader struct{ onlyReader }

func (namedReader) Name() string   { return "other.clj" }
func (namedReader) String() string { return "(other)" }

type writerTo struct{ s *stubReader }

func (w writerTo) Read(p []byte) (int, error) { return w.s.Read(p) }
func (w writerTo) WriteTo(to io.Writer) (n int64, err error) {
	b := make([]byte, 777)
	for {
		k, err := w.s.Read(b)
		if k > 0 {
			m, werr := to.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// fileLike has the methods of a file that turns out to be a pipe.
type fileLike struct{ s *stubReader }

func (f fileLike) Read(p []byte) (int, error)              { return f.s.Read(p) }
func (f fileLike) Close() error                            { return nil }
func (f fileLike) Seek(int64, int) (int64, error)          { return 0, syscall.ESPIPE }
func (f fileLike) ReadAt(p []byte, off int64) (int, error) { return 0, syscall.ESPIPE }
func (f fileLike) Name() string                            { return "other.clj" }
func (f fileLike) Size() int64                             { return 0 }
func (f fileLike) Stat() (fs.FileInfo, error)              { return nil, syscall.EIO }

// What kind of writer takes the bytes for a stubWriter.
const (
	wwNone = iota
	wwString
	wwReaderFrom
	wwBufio16
	wwBufio4096
	wwBufioBig
	wwFileLike
	wwMulti
	wwBuffer // without a stub, and so without failures, from here on
	wwBuilder
	wwFile
)

// writer returns the wrapped writer, and what its owner does once formatting
// has succeeded.
func (s *stubWriter) writer() (io.Writer, func() error) {
	none := func() error { return nil }
	buf := func(n int) (io.Writer, func() error) { b := bufio.NewWriterSize(s, n); return b, b.Flush }
	switch s.plan.Wrap {
	case wwString:
		return stringWriter{s}, none
	case wwReaderFrom:
		return readerFrom{s}, none
	case wwBufio16:
		return buf(16)
	case wwBufio4096:
		return buf(4096)
	case wwBufioBig:
		return buf(30000)
	case wwFileLike:
		return fileWriter{stringWriter{s}}, none
	case wwMulti:
		return io.MultiWriter(s), none
	}
	if s.plan.Fail {
		return s, none
	}
	const before = "(written before)\n\n"
	past := func(got string) error {
		if !strings.HasPrefix(got, before) {
			return errors.New("what was written before is not there any more")
		}
		s.Write([]byte(got[len(before):]))
		return nil
	}
	switch s.plan.Wrap {
	case wwBuffer:
		b := bytes.NewBufferString(before)
		return b, func() error { return past(b.String()) }
	case wwBuilder:
		b := new(strings.Builder)
		b.WriteString(before)
		return b, func() error { return past(b.String()) }
	case wwFile:
		f, err := os.Create("/out.clj")
		if err != nil {
			panic(err)
		}
		f.WriteString(before)
		return f, func() error {
			err := f.Close()
			b, err2 := os.ReadFile("/out.clj")
			if err != nil || err2 != nil {
				return errors.New("the file cannot be read back")
			}
			return past(string(b))
		}
	}
	return s, none
}

type stringWriter struct{ s *stubWriter }

func (w stringWriter) Write(p []byte) (int, error)       { return w.s.Write(p) }
func (w stringWriter) WriteString(p string) (int, error) { return w.s.Write([]byte(p)) }
func (w stringWriter) WriteByte(c byte) error            { return one(w.s.Write([]byte{c})) }
func (w stringWriter) WriteRune(r rune) (int, error)     { return w.s.Write([]byte(string(r))) }

func one(n int, err error) error {
	if err == nil && n != 1 {
		err = io.ErrShortWrite
	}
	return err
}

type readerFrom struct{ s *stubWriter }

func (w readerFrom) Write(p []byte) (int, error) { return w.s.Write(p) }
func (w readerFrom) ReadFrom(r io.Reader) (n int64, err error) {
	b := make([]byte, 777)
	for {
		k, rerr := r.Read(b)
		if k > 0 {
			m, werr := w.s.Write(b[:k])
			n += int64(m)
			if werr == nil && m < k {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

type fileWriter struct{ stringWriter }

func (f fileWriter) Close() error                       { return nil }
func (f fileWriter) Flush() error                       { return nil }
func (f fileWriter) Sync() error                        { return syscall.EINVAL }
func (f fileWriter) Seek(int64, int) (int64, error)     { return 0, syscall.ESPIPE }
func (f fileWriter) Truncate(int64) error               { return syscall.EINVAL }
func (f fileWriter) WriteAt([]byte, int64) (int, error) { return 0, syscall.ESPIPE }

// slow makes a reader or writer take its time.
func slow(d int) {
	if d > 0 && !raceEnabled {
		time.Sleep(time.Duration(d) * time.Second)
	}
}
