package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"vimagination.zapto.org/ics"
)

// failWriter fails once limit bytes have been written, or at write number
// failAt, and records what is done with it.
type failWriter struct {
	limit    int // bytes, or -1
	failAt   int // number of the write, from 1, or 0
	partial  int // bytes taken by the failing write (failAt)
	err      error
	short    bool // fail with a short count and no error of its own
	recovers bool // later writes succeed again

	data   bytes.Buffer
	calls  int
	failed bool
	after  int // writes after the failure
}

var errWriter = errors.New("the writer failed")

func (f *failWriter) Write(p []byte) (int, error) {
	f.calls++

	if f.failed {
		f.after++

		if f.recovers {
			f.data.Write(p)

			return len(p), nil
		}

		return 0, f.error()
	}

	n := len(p)

	if f.failAt > 0 {
		if f.calls != f.failAt {
			f.data.Write(p)

			return n, nil
		}

		n = min(f.partial, n)
	} else {
		if f.data.Len()+n <= f.limit {
			f.data.Write(p)

			return n, nil
		}

		n = f.limit - f.data.Len()
	}

	f.failed = true
	f.data.Write(p[:n])

	return n, f.error()
}

func (f *failWriter) error() error {
	if f.err != nil {
		return f.err
	}

	return errWriter
}

type writerError struct{ n int }

func (w *writerError) Error() string { return fmt.Sprintf("writer error %d", w.n) }

func runC12(w *work) {
	g := w.g

	if w.idx/shards%3 != 0 {
		g.density = 0.15
	}

	m := w.model()
	cal := build(m)

	var rec recorder

	if err := ics.Encode(&rec, cal); err != nil {
		w.fail("Encode refuses a valid calendar: %s", err)
	}

	full := rec.Bytes()
	w.attach("complete output", full)
	w.observe(m)

	try := func(f *failWriter, point string) {
		err := ics.Encode(f, cal)

		if !f.failed {
			w.fail("harness bug: the writer did not fail at %s", point)
		}

		if err == nil {
			w.fail("the writer fails at %s, and Encode returns no error", point)
		} else if !errors.Is(err, f.error()) {
			w.fail("the writer fails at %s with %q, and Encode returns %q", point, f.error(), err)
		} else if f.after > 0 {
			w.fail("the writer fails at %s, and Encode writes %d times more", point, f.after)
		} else if !bytes.HasPrefix(full, f.data.Bytes()) {
			w.attach("written", f.data.Bytes())
			w.fail("the writer fails at %s, and what was written is not the beginning of the output", point)
		}

		kind, _, _ := strings.Cut(point, " ")
		w.count("faults: "+kind, 1)
		w.eval(point + string(full))
	}

	errs := []error{errWriter, &writerError{w.idx}, io.ErrClosedPipe, io.EOF, io.ErrShortWrite}

	// every write
	calls := rec.calls
	step := 1 + calls/400

	for n := 1 + g.n(step); n <= calls; n += step {
		try(&failWriter{failAt: n, partial: g.n(3), err: pick(g, errs), recovers: g.n(2) == 0}, fmt.Sprintf("write %d", n))
	}

	try(&failWriter{failAt: calls, err: pick(g, errs)}, fmt.Sprintf("write %d", calls))
	w.count("writes of complete outputs", calls)

	// every byte
	step = 1 + len(full)/300

	for n := g.n(step); n < len(full); n += step {
		try(&failWriter{limit: n, err: pick(g, errs), recovers: g.n(2) == 0}, fmt.Sprintf("byte %d", n))
	}

	for n := max(len(full)-4, 0); n < len(full); n++ {
		try(&failWriter{limit: n, err: pick(g, errs), recovers: true}, fmt.Sprintf("byte %d", n))
	}

	// no failure
	f := &failWriter{limit: len(full)}

	if err := ics.Encode(f, cal); err != nil || f.failed || !bytes.Equal(f.data.Bytes(), full) {
		w.fail("a writer with just enough room: %v", err)
	}

	w.sample(fmt.Sprintf("%d bytes in %d writes", len(full), calls))
}
