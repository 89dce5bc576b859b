package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
)

var errReader = errors.New("the reader failed")

type readerError struct{ code int }

func (e *readerError) Error() string { return fmt.Sprintf("reader error %d", e.code) }

// readErrors are the errors that readers fail with.
var readErrors = []error{errReader, &readerError{7}, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress, fmt.Errorf("wrapped: %w", errReader), errors.New("EOF")}

// source is a reader whose behaviour can be chosen.
type source struct {
	data     string
	pos      int
	size     func() int // bytes for the next read
	empty    func() int // number of empty reads before the next one
	withLast bool       // the error comes with the last bytes
	fail     error      // in place of io.EOF
	more     string     // data given after the failure
	dirty    bool       // scribble in the rest of the buffer, as readers may
	pending  int
	reads    int
	ended    int // reads after the end
	failed   bool
}

func (s *source) err() error {
	if s.fail != nil {
		return s.fail
	}

	return io.EOF
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++

	if len(p) == 0 {
		return 0, nil
	}

	if s.pending > 0 {
		s.pending--

		return 0, nil
	}

	if s.failed {
		s.ended++

		if s.more != "" {
			n := copy(p, s.more)
			s.more = s.more[n:]

			return n, nil
		}

		return 0, io.EOF
	}

	if s.empty != nil {
		s.pending = s.empty()
	}

	n := len(p)

	if s.size != nil {
		n = min(n, s.size())
	}

	n = copy(p[:n], s.data[s.pos:])
	s.pos += n

	if s.dirty {
		for i := n; i < len(p); i++ {
			p[i] = "\r\n END:VCALENDAR"[i%15]
		}
	}

	if s.pos == len(s.data) && (n == 0 || s.withLast) {
		s.failed = true

		return n, s.err()
	}

	return n, nil
}

// newSource makes a source of some behaviour.
func newSource(r *rand.Rand, data string) (*source, string) {
	s := &source{data: data, withLast: r.IntN(2) == 0, dirty: r.IntN(2) == 0}
	what := ""

	switch r.IntN(6) {
	case 0:
		what = "whole"
	case 1:
		what = "single bytes"
		s.size = func() int { return 1 }
	case 2:
		what = "few bytes"
		s.size = func() int { return 1 + r.IntN(4) }
	case 3:
		what = "random sizes"
		s.size = func() int { return 1 + r.IntN(200) }
	case 4:
		what = "fixed size"
		n := 1 + r.IntN(5000)
		s.size = func() int { return n }
	case 5:
		what = "up to line breaks"
		s.size = func() int {
			for i := s.pos; i < len(s.data); i++ {
				if s.data[i] == '\n' {
					return i + 1 - s.pos
				} else if s.data[i] == '\r' && r.IntN(2) == 0 {
					return i + 1 - s.pos
				}
			}

			return len(s.data) - s.pos + 1
		}
	}

	if r.IntN(3) == 0 {
		what += ", empty reads"
		s.empty = func() int {
			if r.IntN(4) > 0 {
				return 0
			}

			return r.IntN(90)
		}
	}

	if s.withLast {
		what += ", end with data"
	}

	return s, what
}
