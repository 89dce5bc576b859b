package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	"vimagination.zapto.org/ics"
)

func init() {
	register(&check{
		id: "C20", level: "exploration", quick: 800, thorough: 12000,
		rule: "each case is a calendar with a large number of one thing (components, alarms, uses of a property, elements of a list, bytes of a value), each with a text of its own, that is encoded, read back and decoded, in two sizes of which the allocated memory, and in some the CPU time, is compared; distinct by the calendar",
		run:  runC20,
	})
}

// large makes a calendar with n of something.
func (w *work) large(shape, n int, g *gen) (*Comp, string) {
	ids := 0
	g.density, g.maxText = 0, 12
	g.textFn = func() string {
		ids++

		return "id" + strconv.Itoa(ids)
	}

	body := []string{"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY"}

	switch shape {
	case 0:
		cal, _ := g.skeleton("VCALENDAR")
		name := pick(g, body)

		for i := 0; i < n; i++ {
			c := g.bare(name)
			c.Props = append(c.Props, g.prop("COMMENT"))
			cal.Subs = append(cal.Subs, c)
		}

		return cal, "components of one kind"
	case 1:
		cal, _ := g.skeleton("VCALENDAR")
		g.density, g.maxSubs, g.maxList = 0.1, 1, 2

		for i := 0; i < n/3; i++ {
			cal.Subs = append(cal.Subs, g.comp(pick(g, append([]string{"VTIMEZONE"}, body...))))
		}

		return cal, "components of all kinds"
	case 2:
		cal, c := g.skeleton(pick(g, []string{"VEVENT", "VTODO"}))

		for i := 0; i < n; i++ {
			a := g.bare(pick(g, alarmNames))

			if comps[a.Name].use("UID") != nil && !a.has("UID") {
				a.Props = append(a.Props, g.prop("UID"))
			}

			c.Subs = append(c.Subs, a)
		}

		return cal, "alarms"
	case 3:
		var cs []combo

		for _, c := range combos {
			if comps[c.comp].use(c.prop).multiple {
				cs = append(cs, c)
			}
		}

		co := pick(g, cs)
		cal, c := g.withCombo(co)

		for i := 0; i < n; i++ {
			p := g.propOf(co.prop, co.kind)
			c.Props = append(c.Props, p)
		}

		return cal, "uses of a property"
	case 4:
		cal, c := g.skeleton("VTIMEZONE")
		g.density = 0.2

		for i := 0; i < n/2; i++ {
			c.Subs = append(c.Subs, g.comp(pick(g, []string{"STANDARD", "DAYLIGHT"})))
		}

		return cal, "rules of a time zone"
	case 5, 6:
		// long values
		var kinds []Kind

		if shape == 5 {
			kinds = []Kind{KText, KURI, KBinary, KAddress}
		} else {
			kinds = []Kind{KMText, KRecur}
		}

		piece := pick(g, []string{"x", "ab, ", "\\", "\n", "é", "😀\t", ";"})
		g.valFn = func(k Kind) (Val, bool) {
			v := Val{Kind: k}

			switch k {
			case KText:
				v.S = strings.Repeat(piece, n*10)
			case KURI, KAddress:
				v.S = "http://example.com/" + strings.Repeat("abc/", n*4) + g.textFn()
			case KBinary:
				v.Bytes = make([]byte, n*10)

				for i := range v.Bytes {
					v.Bytes[i] = byte(g.r.Uint32())
				}
			case KMText:
				for i := 0; i < n; i++ {
					v.L = append(v.L, g.textFn())
				}
			case KRecur:
				v.R = &Rule{Freq: "YEARLY"}

				for i := 0; i < n; i++ {
					v.R.ByYearDay = append(v.R.ByYearDay, 1+i*7919%366)
					v.R.BySetPos = append(v.R.BySetPos, -1-i*31%366)
					v.R.BySecond = append(v.R.BySecond, i%61)
				}
			default:
				return v, false
			}

			return v, true
		}

		cal, _ := g.withCombo(pick(g, combosOf(kinds...)))

		return cal, "long values"
	default:
		// long params
		cal, c := g.skeleton("VEVENT")
		p := g.propOf("ATTENDEE", KAddress)
		p.Params = nil

		for _, name := range []string{"MEMBER", "DELEGATED-TO", "DELEGATED-FROM"} {
			q := Param{Name: name}

			for i := 0; i < n; i++ {
				q.Vals = append(q.Vals, "mailto:"+g.textFn()+"@example.com")
			}

			p.Params = append(p.Params, q)
		}

		p.Params = append(p.Params, Param{Name: "CN", Vals: []string{strings.Repeat(pick(g, []string{"x", "^", "\n", "é", "\"", "; "}), n*10)}})
		c.Props = append(c.Props, p)

		return cal, "long params"
	}
}

const shapes = 8

func allocated(f func()) float64 {
	var a, b runtime.MemStats

	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)

	return float64(b.TotalAlloc - a.TotalAlloc)
}

// threadTime gives the CPU time that f takes.
func threadTime(f func()) float64 {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()

	now := func() float64 {
		var t syscall.Timespec

		if _, _, err := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&t)), 0); err != 0 {
			panic("harness: " + err.Error())
		}

		return float64(t.Nano())
	}

	start := now()

	for n := 1.0; ; n++ {
		f()

		if t := now() - start; t > 50e6 {
			return t / n
		}
	}
}

// times compares the CPU time for a byte of a large calendar with that of a small
// one.
func (w *work) times(shape, n int, seed uint64) {
	var before [2]float64

	for i, n := range []int{1000 * n / 70000, n} {
		m, what := w.large(shape, n, newGen(rand.New(rand.NewPCG(seed, 1))))
		rfcTimes(m)

		var (
			buf bytes.Buffer
			cal = build(m)
		)

		encoding := func() {
			buf.Reset()
			ics.Encode(&buf, cal)
		}
		decoding := func() {
			ics.Decode(strings.NewReader(buf.String()))
		}

		for j, f := range []func(){encoding, decoding} {
			f() // not the first time

			name := []string{"Encode", "Decode"}[j]
			t := threadTime(f) / float64(buf.Len())

			for k := 0; k < 4 && i == 1 && t > 10*before[j]; k++ {
				t = min(t, threadTime(f)/float64(buf.Len()))
			}

			if i == 1 && t > 10*before[j] {
				w.fail("%s takes %.0f ns for each byte of a calendar with %d %s, but %.0f with %d", name, t, n, what, before[j], 1000*n/70000)
			}

			if i == 1 {
				w.count(fmt.Sprintf("%s: time for a byte up to %.0f times that of a small calendar", name, math.Ceil(t/before[j])), 1)
			}

			before[j] = t
		}
	}

	w.count("calendars timed", 1)
}

func runC20(w *work) {
	shape := w.idx / shards % shapes
	base := []int{300, 700, 1500}[w.r.IntN(3)]

	if w.tier == "thorough" {
		base = []int{300, 700, 1500, 4000, 10000}[w.r.IntN(5)]
	}

	var before [2]float64

	const times = 8

	seed := w.r.Uint64()

	sizes := []int{base, base * times}

	if w.idx/shards%50 >= 48 { // beyond what two bytes can count
		shape = w.idx % shapes
		sizes = []int{70000}

		if shape == 1 || shape == 4 {
			sizes = []int{3 * 70000} // there are less in these
		}

		w.count("calendars with more than 65536 of something", 1)
		w.times(shape, sizes[0], seed)
	}

	for i, n := range sizes {
		m, what := w.large(shape, n, newGen(rand.New(rand.NewPCG(seed, 1))))
		rfcTimes(m)

		want := m.canon()

		if len(want) < n {
			panic("harness: nothing large about " + what)
		}

		cal := build(m)

		var (
			buf bytes.Buffer
			err error
			got *ics.Calendar
		)

		buf.Grow(len(want) * 4)

		encoding := allocated(func() { err = ics.Encode(&buf, cal) })

		if err != nil {
			w.fail("Encode refuses a valid calendar with %d %s: %s", n, what, err)
		}

		ref, err := refParse(buf.Bytes())
		if err != nil {
			w.fail("the output with %d %s is not a valid calendar text: %s", n, what, err)
		}

		w.expect(fmt.Sprintf("the output does not say what the calendar with %d %s does", n, what), want, ref.canon())

		r := strings.NewReader(buf.String())
		decoding := allocated(func() { got, err = ics.Decode(r) })

		if err != nil {
			w.fail("Decode refuses a calendar with %d %s: %s", n, what, err)
		}

		w.expect(fmt.Sprintf("a calendar with %d %s is decoded as something else", n, what), want, read(got).canon())

		s := randomStyle(w)
		text := s.text(m)
		w.expect(fmt.Sprintf("a text with %d %s is decoded as something else", n, what), want, w.mustDecode("a text with many "+what, text).canon())

		w.eval(want)
		w.observe(m)
		w.count("calendars with "+what, 1)
		w.count("bytes encoded and decoded", buf.Len())

		size := float64(buf.Len())

		for j, a := range []float64{encoding / size, decoding / size} {
			name := []string{"Encode", "Decode"}[j]

			if i == 1 && a > 3.5*before[j] && a > 64 {
				w.fail("%s allocates %.0f bytes for each byte of a calendar with %d %s, but %.0f with %d", name, a, n, what, before[j], base)
			}

			if w.idx < shards*shapes {
				w.sample(fmt.Sprintf("%s, %d %s: %d bytes, %.1f bytes allocated for each", name, n, what, buf.Len(), a))
			}

			before[j] = a
		}
	}
}
