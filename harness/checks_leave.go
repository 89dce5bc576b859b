package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"vimagination.zapto.org/ics"
)

// guard is a reader or writer that knows whether the call that it was given to
// has returned.
type guard struct {
	r        io.Reader
	w        io.Writer
	panicAt  int // number of the use that panics, from 1
	uses     atomic.Int64
	returned atomic.Bool
	late     atomic.Int64
	closed   atomic.Int64
}

type guardPanic struct{}

func (g *guard) use() {
	if g.returned.Load() {
		g.late.Add(1)
	}

	if n := g.uses.Add(1); g.panicAt > 0 && int(n) == g.panicAt {
		panic(guardPanic{})
	}
}

func (g *guard) Read(p []byte) (int, error) {
	g.use()

	return g.r.Read(p)
}

func (g *guard) Write(p []byte) (int, error) {
	g.use()

	return g.w.Write(p)
}

func (g *guard) Close() error {
	g.closed.Add(1)

	return nil
}

// during makes a call with the reader or writer.
func (g *guard) during(call func()) *guard {
	defer g.returned.Store(true)

	if g.panicAt > 0 {
		defer func() {
			if r := recover(); r != nil {
				if _, mine := r.(guardPanic); !mine {
					panic(r)
				}
			}
		}()
	}

	call()

	return g
}

func (g *guard) decode() *guard {
	g.during(func() { ics.Decode(g) })

	return g
}

func (g *guard) encode(cal *ics.Calendar) *guard {
	g.during(func() { ics.Encode(g, cal) })

	return g
}

// patience is how long calls may go without doing anything, until some have
// gone longer.
var patience = time.Minute

// processTime gives the CPU time that this process has used.
func processTime() time.Duration {
	var u syscall.Rusage

	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		panic("harness: " + err.Error())
	}

	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// returns makes calls, which have to return. Ones that do not, but are busy, are
// left to the supervisor.
func (w *work) returns(calls func()) {
	done := make(chan any, 1)

	go func() {
		defer func() { done <- recover() }()

		calls()
	}()

	for used := processTime(); ; {
		select {
		case r := <-done:
			if r != nil {
				panic(r)
			}

			return
		case <-time.After(patience):
		}

		if now := processTime(); now-used > patience/100 {
			used = now

			continue
		}

		patience = time.Second
		buf := make([]byte, 1<<16)
		w.attach("goroutines", buf[:runtime.Stack(buf, true)])
		w.fail("a call does not return after other calls")
	}
}

// settle waits for the goroutines to be no more than n.
func settle(n int) bool {
	for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		for i := 0; i < 10; i++ {
			if runtime.NumGoroutine() <= n {
				return true
			}

			runtime.Gosched()
		}
	}

	return false
}

// call makes a call of one kind.
func (w *work) call(text string, cal *ics.Calendar) (*guard, string) {
	g := w.g
	from := func(text string) *source {
		s, _ := newSource(w.r, text)

		return s
	}

	switch g.n(10) {
	case 0, 1:
		return (&guard{r: from(text)}).decode(), "decoding a whole text"
	case 2:
		return (&guard{r: from(text[:g.n(len(text))])}).decode(), "decoding part of a text"
	case 3:
		s := from(text[:g.n(len(text))])
		s.fail, s.more = errReader, text

		return (&guard{r: s}).decode(), "decoding with a failing reader"
	case 4:
		return (&guard{r: from(g.mutate(text))}).decode(), "decoding a changed text"
	case 5:
		return (&guard{r: from(text), panicAt: 1 + g.n(1+g.n(20))}).decode(), "decoding with a panicking reader"
	case 6:
		return (&guard{w: &failWriter{limit: g.n(len(text)), err: errWriter}}).encode(cal), "encoding to a failing writer"
	case 7:
		return (&guard{w: io.Discard, panicAt: 1 + g.n(1+g.n(200))}).encode(cal), "encoding to a panicking writer"
	case 8:
		c := build(g.calendar())
		g.change(c, anything)

		return (&guard{w: io.Discard}).encode(c), "encoding a changed calendar"
	}

	return (&guard{w: io.Discard}).encode(cal), "encoding a whole calendar"
}

// retained gives the bytes in use.
func retained() float64 {
	var m runtime.MemStats

	for i := 0; i < 3; i++ { // pools take two
		runtime.GC()
	}

	runtime.ReadMemStats(&m)

	return float64(m.HeapAlloc)
}

func openFiles() int {
	l, _ := os.ReadDir("/proc/self/fd")

	return len(l)
}

// keeping makes many different calls, and compares what is in use.
func (w *work) keeping() {
	const window = 2500

	var (
		g     = w.g
		heap  []float64
		files []int
		ids   int
	)

	g.textFn = func() string {
		ids++

		return fmt.Sprintf("text %d of case %d", ids, w.idx)
	}

	for i := 0; i < 5; i++ {
		for j := 0; j < window; j++ {
			ids++

			m := g.calendar()
			text := strings.Replace(plain(m), "END:VCALENDAR", fmt.Sprintf("X-UNKNOWN%d;X-P%d=%d:%d\r\nBEGIN:X%d\r\nEND:X%d\r\nEND:VCALENDAR", ids, ids, ids, ids, ids, ids), 1)
			w.call(text, build(m))
		}

		heap = append(heap, retained())
		files = append(files, openFiles())
	}

	grown := true

	for i := 2; i < len(heap); i++ {
		if heap[i] < heap[i-1]+window*16 {
			grown = false
		}
	}

	if grown {
		w.fail("memory is kept: after each %d calls, there are %.0f bytes in use", window, heap)
	}

	if n := len(files); files[n-1] > files[1]+window/100 {
		w.fail("files stay open: after each %d calls, there are %d", window, files)
	}

	w.count("calls made to see what they keep", window*len(heap))
	w.sample(fmt.Sprintf("bytes in use after each %d calls: %.0f", window, heap))
}

// longUse makes more small calls than there are numbers of 16 bits.
func (w *work) longUse() {
	w.g.density, w.g.maxSubs = 0.15, 1

	m := w.g.calendar()

	for len(plain(m)) > 1500 {
		m = w.g.calendar()
	}

	rfcTimes(m)

	text := plain(m)
	w.attach("text", []byte(text))

	first, err := decodeText(text)
	if err != nil {
		w.fail("Decode refuses a valid text: %s", err)
	}

	out := w.mustEncode(first)

	const calls = 70000

	for i := 0; i < calls; i++ {
		cal, err := decodeText(text)
		if err != nil {
			w.fail("Decode refuses a valid text after %d calls: %s", 2*i, err)
		}

		if b := w.mustEncode(cal); !bytes.Equal(b, out) {
			w.fail("after %d calls, a calendar is encoded as something else: %s", 2*i, diff(string(out), string(b)))
		}
	}

	w.count("calls made one after another", 2*calls)
	w.eval(text)
}

func init() {
	register(&check{
		id: "C22", level: "exploration", quick: 6400, thorough: 64000,
		rule: "each case is calls of Decode and Encode of all kinds (whole, cut off, changed, with failing and panicking readers and writers), with readers and writers that know when the call has returned, after which goroutines are counted, and then a call that must still give what it should; some cases are 12500 calls, with the memory and files in use compared, or 140000, with their results compared; distinct by the text",
		run: func(w *work) {
			g := w.g

			switch w.idx / shards % 400 {
			case 1:
				w.keeping()

				return
			case 2:
				w.longUse()

				return
			}

			m := w.model()
			rfcTimes(m)

			text := plain(m)
			cal := build(m)
			want := m.canon()
			out := w.mustEncode(cal)
			before := runtime.NumGoroutine()

			var (
				guards []*guard
				labels []string
			)

			w.attach("text", []byte(text))

			w.returns(func() {
				for n := 1 + g.n(8); n > 0; n-- {
					u, label := w.call(text, cal)
					w.count(label, 1)

					guards, labels = append(guards, u), append(labels, label)
				}
			})

			w.attach("calls", []byte(strings.Join(labels, "\n")))

			if !settle(before) {
				buf := make([]byte, 1<<16)
				w.attach("goroutines", buf[:runtime.Stack(buf, true)])
				w.fail("%d goroutines still run after %v", runtime.NumGoroutine()-before, labels)
			}

			for i, u := range guards {
				if n := u.late.Load(); n > 0 {
					w.fail("the reader or writer is used %d times after the call has returned: %s", n, labels[i])
				}

				if u.closed.Load() > 0 {
					w.fail("the reader or writer is closed: %s", labels[i])
				}

				w.count("uses of readers and writers seen", int(u.uses.Load()))
			}

			// the next calls are as good as the first
			w.returns(func() {
				w.expect("Decode gives something else after other calls", want, w.mustDecode("a valid text", text).canon())

				if b := w.mustEncode(cal); !bytes.Equal(b, out) {
					w.fail("Encode writes something else after other calls: %s", diff(string(out), string(b)))
				}
			})

			w.eval(text)
			w.observe(m)
		},
	})
}
