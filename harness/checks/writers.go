package checks

import (
	"bufio"
	"bytes"
	"io"
	"strings"
)

// plainWriter can do nothing but Write.
type plainWriter struct{ w io.Writer }

func (p plainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }

// stringWriter is also an io.StringWriter, io.ByteWriter and has WriteRune.
type stringWriter struct{ w io.Writer }

func (p stringWriter) Write(b []byte) (int, error)       { return p.w.Write(b) }
func (p stringWriter) WriteString(s string) (int, error) { return p.w.Write([]byte(s)) }
func (p stringWriter) WriteByte(b byte) error {
	_, err := p.w.Write([]byte{b})
	return err
}
func (p stringWriter) WriteRune(r rune) (int, error) { return p.w.Write([]byte(string(r))) }

// readingWriter is also an io.ReaderFrom.
type readingWriter struct{ w io.Writer }

func (p readingWriter) Write(b []byte) (int, error) { return p.w.Write(b) }
func (p readingWriter) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 100)
	for {
		k, e := r.Read(buf)
		if k > 0 {
			m, we := p.w.Write(buf[:k])
			n += int64(m)
			if we != nil {
				return n, we
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// closingWriter notices Close, Flush and Sync, which are for the caller to do.
type closingWriter struct {
	w      io.Writer
	closed *bool
}

func (p closingWriter) Write(b []byte) (int, error) { return p.w.Write(b) }
func (p closingWriter) Close() error                { *p.closed = true; return nil }

var wrapperNames = []string{"only Write", "WriteString", "ReadFrom", "itself"}

// wrapper dresses a writer up.
func wrapper(kind int, w io.Writer) io.Writer {
	switch kind % 4 {
	case 0:
		return plainWriter{w}
	case 1:
		return stringWriter{w}
	case 2:
		return readingWriter{w}
	}
	return w
}

const sinkKinds = 8

// sink is some writer that never fails, and what it got.
func sink(kind int) (io.Writer, func() string) {
	var b bytes.Buffer
	got := func() string { return b.String() }
	switch kind % sinkKinds {
	case 0, 1:
		return &b, got
	case 2:
		var sb strings.Builder
		return &sb, func() string { return sb.String() }
	case 3:
		return plainWriter{&b}, got
	case 4:
		return stringWriter{&b}, got
	case 5:
		return readingWriter{&b}, got
	case 6:
		w := bufio.NewWriterSize(plainWriter{&b}, 64)
		return w, func() string { w.Flush(); return b.String() }
	}
	var closed bool
	return closingWriter{&b, &closed}, func() string {
		if closed {
			return "(the merge closed the writer)"
		}
		return b.String()
	}
}
