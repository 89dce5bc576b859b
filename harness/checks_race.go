package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/url"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"vimagination.zapto.org/ics"
)

// schedule records the order in which the calls use their reader or writer. Each
// call has its own part of it, so that recording does not synchronise them,
// which would hide races.
type schedule struct {
	start time.Time
	calls []callLog
}

type callLog struct {
	times []time.Duration
	_     [64]byte
}

func (s *schedule) event(id int) {
	s.calls[id].times = append(s.calls[id].times, time.Since(s.start))
}

// order gives the calls in the order of the events.
func (s *schedule) order() []byte {
	var (
		out []byte
		pos = make([]int, len(s.calls))
	)

	for {
		next := -1

		for i, c := range s.calls {
			if pos[i] < len(c.times) && (next < 0 || c.times[pos[i]] < s.calls[next].times[pos[next]]) {
				next = i
			}
		}

		if next < 0 {
			return out
		}

		pos[next]++
		out = append(out, byte(next))
	}
}

// pauser lets other goroutines run, and records the order in which they do.
type pauser struct {
	id    int
	r     *rand.Rand
	s     *schedule
	calls int
}

func (p *pauser) pause() {
	// less and less often
	if p.calls++; p.calls > 20 && p.r.IntN(p.calls) >= 10 {
		return
	}

	p.s.event(p.id)

	switch p.r.IntN(8) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		time.Sleep(time.Duration(1+p.r.IntN(50)) * time.Microsecond)
	}
}

type pausingReader struct {
	*source
	pauser
}

func (p *pausingReader) Read(b []byte) (int, error) {
	p.pause()

	return p.source.Read(b)
}

type pausingWriter struct {
	bytes.Buffer
	pauser
}

func (p *pausingWriter) Write(b []byte) (int, error) {
	p.pause()

	return p.Buffer.Write(b)
}

type pausingFailWriter struct {
	*failWriter
	pauser
}

func (p *pausingFailWriter) Write(b []byte) (int, error) {
	p.pause()

	return p.failWriter.Write(b)
}

// scramble changes everything in a value, including what is in the unused
// capacity of its slices, but not pointers and lengths.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}

		v = v.Slice(0, v.Cap())

		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Struct:
		switch x := v.Addr().Interface().(type) {
		case *time.Time:
			*x = x.AddDate(1, 1, 1)
		case *url.URL:
			x.Scheme, x.Opaque, x.Host, x.Path, x.RawPath, x.RawQuery = "x"+x.Scheme, x.Opaque+"x", x.Host+"x", x.Path+"/x", "", x.RawQuery+"x"

			if x.User != nil {
				*x.User = *url.User("scrambled")
			}
		default:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					scramble(v.Field(i))
				}
			}
		}
	case reflect.String:
		v.SetString(v.String() + "scrambled")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Float64, reflect.Float32:
		v.SetFloat(v.Float() + 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 1)
	}
}

// memory is what a pointer or a slice refers to.
type memory struct {
	from, to uintptr
	where    string
}

// memories are all of them in a value. Those of times and addresses are left
// out, as nothing in them can be changed.
func memories(v reflect.Value, where string, out []memory) []memory {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return out
		}

		out = append(out, memory{v.Pointer(), v.Pointer() + v.Type().Elem().Size(), where})
		out = memories(v.Elem(), where, out)
	case reflect.Interface:
		if !v.IsNil() {
			out = memories(v.Elem(), where, out)
		}
	case reflect.Slice:
		if v.Cap() > 0 { // all that append uses
			out = append(out, memory{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size(), where})
		}

		for i := 0; i < v.Len(); i++ {
			out = memories(v.Index(i), fmt.Sprintf("%s[%d]", where, i), out)
		}
	case reflect.Struct:
		switch v.Interface().(type) {
		case time.Time, url.URL:
			return out
		}

		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				out = memories(v.Field(i), where+"."+f.Name, out)
			}
		}
	}

	return out
}

// shared finds two parts of a value that use the same memory.
func shared(v any) (string, string, int) {
	ms := memories(reflect.ValueOf(v), "", nil)

	sort.Slice(ms, func(i, j int) bool { return ms[i].from < ms[j].from })

	var last memory

	for _, m := range ms {
		if m.from == m.to {
			continue
		}

		if m.from < last.to {
			return last.where, m.where, len(ms)
		}

		last = m
	}

	return "", "", len(ms)
}

func init() {
	register(&check{
		id: "C13", level: "exploration", quick: 1200, thorough: 60000, race: true, perProcess: coldEvery,
		rule: "each case is a set of calls made at the same time by several goroutines, in a binary with the race detector: Encode of shared and own calendars, Decode of shared and own texts, with pauses in their readers and writers; distinct by the order in which the calls used their readers and writers",
		run:  runC13,
	})
}

// coldEvery is the number of cases in each process. The first one is of calls
// that all do everything at once, as a package does some things only the first
// time.
const coldEvery = 5

type job struct {
	name string
	run  func(id int, r *rand.Rand, s *schedule) string // describes a difference
}

func runC13(w *work) {
	type item struct {
		m       *Comp
		cal     *ics.Calendar
		twin    *ics.Calendar // built separately, never encoded
		out     []byte
		whole   string // a valid text
		text    string
		decoded string // canonical form of what the text says
	}

	var items []*item

	// Calls on their own before those at the same time would do what a package
	// does only once, so they mostly come after them.
	cold := w.idx/shards%coldEvery == 0
	late := cold || w.r.IntN(3) > 0
	reference := func(it *item) {
		it.out = w.mustEncode(build(it.m))
		it.decoded, _, _ = w.result("a text", bytes.NewReader([]byte(it.text)))
	}

	if w.r.IntN(2) == 0 {
		w.g.zones = zonesHere()
	}

	model := w.model
	n := 1 + w.r.IntN(3)

	if cold {
		model, n = w.everything, 1
		w.count("first calls of a process", 1)
	}

	for ; n > 0; n-- {
		w.g.exotic = w.r.IntN(2) == 0

		m := model()
		it := &item{m: m}
		it.cal, it.twin = build(m), build(m)

		w.g.exotic = false
		m2 := model()
		rfcTimes(m2)
		it.whole = randomStyle(w).text(m2)
		it.text = it.whole

		if !cold && w.r.IntN(6) == 0 {
			it.text = w.g.mutate(it.text)
		}

		if !late {
			reference(it)
		}

		items = append(items, it)
	}

	var bad *ics.Calendar

	badOut := ""

	if !cold && w.r.IntN(2) == 0 { // one that is refused
		m := w.model()
		cal := build(m)

		if w.g.invalidate(m, cal) != "" {
			if _, err := encode(cal); err != nil {
				bad, badOut = cal, err.Error()
			}
		}
	}

	var jobs []job

	type decoding struct {
		it  *item
		cal *ics.Calendar
		err error
	}

	type encoding struct {
		it     *item
		out    []byte
		failed bool
	}

	// of each job, compared after all calls, as that uses shared things
	decoded := make([][]decoding, 16)
	encoded := make([][]encoding, 16)

	n = 2 + w.r.IntN(7)

	if cold {
		n = 12
	}

	for ; n > 0; n-- {
		it := items[w.r.IntN(len(items))]

		switch w.r.IntN(8) {
		case 6: // a writer that fails
			failing := &failWriter{limit: w.r.IntN(400)}

			jobs = append(jobs, job{"Encode to a failing writer", func(id int, r *rand.Rand, s *schedule) string {
				f := *failing
				err := ics.Encode(&pausingFailWriter{&f, pauser{id: id, r: r, s: s}}, it.cal)

				if f.failed && !errors.Is(err, errWriter) {
					return fmt.Sprintf("error: %v", err)
				} else if !f.failed && err != nil {
					return "error: " + err.Error()
				}

				encoded[id] = append(encoded[id], encoding{it, f.data.Bytes(), f.failed})

				return ""
			}})
		case 7: // a reader that fails
			text := it.whole[:w.r.IntN(len(it.whole)-20)]

			jobs = append(jobs, job{"Decode from a failing reader", func(id int, r *rand.Rand, s *schedule) string {
				src, _ := newSource(r, text)

				if r.IntN(2) == 0 {
					src.fail = errReader
				}

				cal, err := ics.Decode(&pausingReader{src, pauser{id: id, r: r, s: s}})

				if err == nil || cal != nil {
					return "no error"
				}

				return ""
			}})
		case 0, 1: // a shared calendar
			jobs = append(jobs, job{"Encode of a shared calendar", func(id int, r *rand.Rand, s *schedule) string {
				out := &pausingWriter{pauser: pauser{id: id, r: r, s: s}}

				if err := ics.Encode(out, it.cal); err != nil {
					return "error: " + err.Error()
				}

				encoded[id] = append(encoded[id], encoding{it, out.Bytes(), false})

				return ""
			}})
		case 2: // an own one
			cal := build(it.m)
			jobs = append(jobs, job{"Encode of an own calendar", func(id int, r *rand.Rand, s *schedule) string {
				out := &pausingWriter{pauser: pauser{id: id, r: r, s: s}}

				if err := ics.Encode(out, cal); err != nil {
					return "error: " + err.Error()
				}

				encoded[id] = append(encoded[id], encoding{it, out.Bytes(), false})
				scramble(reflect.ValueOf(cal)) // it is ours again

				return ""
			}})
		case 3:
			if bad == nil {
				continue
			}

			jobs = append(jobs, job{"Encode of a shared invalid calendar", func(id int, r *rand.Rand, s *schedule) string {
				s.event(id)

				if err := ics.Encode(io.Discard, bad); err == nil || err.Error() != badOut {
					return fmt.Sprintf("error %v in place of %s", err, badOut)
				}

				return ""
			}})
		default:
			text := it.text

			jobs = append(jobs, job{"Decode", func(id int, r *rand.Rand, s *schedule) string {
				src, _ := newSource(r, text)
				cal, err := ics.Decode(&pausingReader{src, pauser{id: id, r: r, s: s}})

				if scrambles := r.IntN(3) == 0; scrambles && err == nil {
					scramble(reflect.ValueOf(cal))
				} else {
					decoded[id] = append(decoded[id], decoding{it, cal, err})
				}

				return ""
			}})
		}
	}

	s := &schedule{start: time.Now(), calls: make([]callLog, len(jobs))}

	var (
		wg     sync.WaitGroup
		start  = make(chan struct{})
		ready  atomic.Int32
		errs   = make([]string, len(jobs))
		panics = make([]any, len(jobs))
	)

	for i, j := range jobs {
		r := caseRand(w.seed, fmt.Sprintf("C13/job%d", i), w.idx)
		again := 1 + w.r.IntN(2)

		wg.Add(1)

		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()

			ready.Add(1)
			<-start

			for n := 0; n < again && errs[i] == ""; n++ {
				errs[i] = j.run(i, r, s)

				if j.name == "Encode of an own calendar" {
					break
				}
			}
		}()
	}

	for int(ready.Load()) < len(jobs) {
		runtime.Gosched()
	}

	close(start)
	wg.Wait()

	for i, j := range jobs {
		if panics[i] != nil {
			w.fail("%s at the same time as other calls panics: %v", j.name, panics[i])
		} else if errs[i] != "" {
			w.fail("%s at the same time as other calls gives something else: %s", j.name, errs[i])
		}

		w.count("calls: "+j.name, 1)
	}

	for _, it := range items {
		if late {
			reference(it)
			w.count("calls at the same time before any other", 1)
		}

		if !reflect.DeepEqual(it.cal, it.twin) {
			w.attach("encoded", it.out)
			w.fail("Encode changed the calendar it was given: %s", diff(read(it.twin).canon(), read(it.cal).canon()))
		}

		w.count("calendars unchanged by Encode", 1)
	}

	// what was decoded is right, and unaffected by changes to the other results
	for _, ds := range decoded {
		for _, d := range ds {
			if d.err != nil || d.it.decoded == "" {
				w.attach("text", []byte(d.it.text))

				if d.it.decoded != "" {
					w.fail("Decode at the same time as other calls gives an error: %s", d.err)
				} else if d.err == nil {
					w.fail("Decode at the same time as other calls gives no error")
				}

				continue
			}

			w.expect("Decode at the same time as other calls gives something else", d.it.decoded, read(d.cal).canon())
			scramble(reflect.ValueOf(d.cal))
			w.count("decoded calendars unaffected", 1)
		}
	}

	for _, es := range encoded {
		for _, e := range es {
			if e.failed && bytes.HasPrefix(e.it.out, e.out) {
				continue
			}

			if !bytes.Equal(e.out, e.it.out) {
				w.attach("want", e.it.out)
				w.attach("got", e.out)
				w.fail("Encode at the same time as other calls gives something else: %s", diff(string(e.it.out), string(e.out)))
			}
		}
	}

	// sharing with the input, other results, and the package
	it := items[w.r.IntN(len(items))]

	if it.decoded != "" {
		input := []byte(it.text)

		first, err := ics.Decode(bytes.NewBuffer(input))
		if err != nil {
			w.fail("Decode of a text fails after other calls: %s", err)
		}

		for i := range input {
			input[i] ^= 0xff
		}

		w.expect("the decoded calendar changes with its input", it.decoded, read(first).canon())

		if a, b, n := shared(first); a != "" || b != "" {
			w.attach("text", []byte(it.text))
			w.fail("parts of a decoded calendar share memory: %s and %s", a, b)
		} else {
			w.count("parts of decoded calendars with memory of their own", n)
		}

		second, err := decodeText(it.text)
		if err != nil {
			w.fail("Decode of a text fails after other calls: %s", err)
		}

		scramble(reflect.ValueOf(first))
		w.expect("a decoded calendar changed when another was changed", it.decoded, read(second).canon())

		third, err := decodeText(it.text)
		if err != nil {
			w.fail("Decode of a text fails after a decoded calendar was changed: %s", err)
		}

		w.expect("Decode gives something else after a decoded calendar was changed", it.decoded, read(third).canon())
		w.count("aliasing probes", 1)
	}

	out := w.mustEncode(it.twin)

	if !bytes.Equal(out, it.out) {
		w.attach("want", it.out)
		w.attach("got", out)
		w.fail("Encode gives something else after other calls: %s", diff(string(it.out), string(out)))
	}

	// the calendar is what it is at the time of the call
	other := w.model()
	want := w.mustEncode(build(other))
	*it.twin = *build(other)
	out = w.mustEncode(it.twin)

	if !bytes.Equal(out, want) {
		w.attach("want", want)
		w.attach("got", out)
		w.fail("Encode of a calendar that was changed gives something else: %s", diff(string(want), string(out)))
	}

	w.count("changed calendars", 1)

	order := s.order()
	w.count("events", len(order))
	w.count("goroutines", len(jobs))
	w.eval(string(order))
	w.sample(fmt.Sprintf("%d calls, order of their reads and writes: %d", len(jobs), order))
}
