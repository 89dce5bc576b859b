package main

import (
	"bytes"
	"fmt"
	"math"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"vimagination.zapto.org/ics"
)

// recorder is a writer that records what is done with it.
type recorder struct {
	bytes.Buffer
	calls int
}

func (r *recorder) Write(p []byte) (int, error) {
	r.calls++

	return r.Buffer.Write(p)
}

var hostileParts = []string{
	"\r\n", "\r", "\n", "\x00", "\x07", "\x0b", "\x0c", "\x1b", "\x1f", "\x7f", "\r\nEND:VEVENT\r\nBEGIN:VEVENT\r\nUID:injected\r\n", "\nATTENDEE:mailto:x@y", "\r\nX-INJECTED:1", "\"", "\";X-INJ=\"1",
	"\":x\r\nX-A:", ";X-INJ=1", ":x", ",", "\\", "^", "^n", "\u2028", "\u2029", "\u0085", "\x80", "\xff", "\xc0\x8a", "\xc0\x8d\xc0\x8a", "\xe2\x80", "\xf0\x9f\x98", "\xed\xa0\x80", "\r\n ", "\r\n\t", "\\r\\n", "Ċ", "嘊嘍", " ", "\ufeff", "END:VCALENDAR",
}

func (g *gen) hostile() string {
	var sb strings.Builder

	for n := 1 + g.n(4); n > 0; n-- {
		if g.n(3) == 0 { // move it towards a fold
			sb.WriteString(strings.Repeat("a", g.n(80)))
		}

		if g.n(4) == 0 {
			sb.WriteString(pick(g, words))
		}

		sb.WriteString(pick(g, hostileParts))

		if h := hints(); len(h.texts) > 0 && g.n(2) == 0 {
			sb.WriteString(pick(g, h.texts))
		}
	}

	return sb.String()
}

// signature gives the names of lines and params of an output, without values.
func signature(data []byte, validUTF8 bool) (string, error) {
	lines, err := physical(data, validUTF8)
	if err != nil {
		return "", err
	}

	var sb strings.Builder

	for _, l := range lines {
		cl, err := parseContentLine(l)
		if err != nil {
			return "", err
		}

		sb.WriteString(cl.name)

		for _, p := range cl.params {
			fmt.Fprintf(&sb, ";%s*%d", p.name, len(p.vals))
		}

		if cl.name == "BEGIN" || cl.name == "END" {
			sb.WriteString(":" + cl.value)
		}

		sb.WriteByte('\n')
	}

	return sb.String(), nil
}

var hostileZone = []string{"A\r\nX-INJECTED:1", "UTC\r\n", "America/New_York\";X=1:", "\n", "Z:;,\"", "\x00", "../../etc/localtime", "Europe/London\x7f"}

func init() {
	register(&check{
		id: "C03", level: "exploration", quick: 60000, thorough: 600000,
		rule: "each case is a generated calendar in which strings, addresses and zone names are replaced by hostile ones, one at a time; the lines, params and structure of the output have to be those of the same calendar with a harmless string; non-trivial are those that were encoded, distinct by their output",
		run: func(w *work) {
			g := w.g
			g.exotic = g.n(2) == 0

			if g.n(3) == 0 {
				g.density = 0.6
			}

			m := w.model()
			b := w.mustEncode(build(m))
			w.attach("encoded", b)

			if _, err := refParse(b); err != nil {
				w.fail("the output is not well formed: %s", err)
			}

			w.eval(string(b))
			w.observe(m)

			if cal, b := w.wild(m, anything); cal != nil {
				if _, err := refParse(b); err != nil {
					w.fail("the output is not well formed: %s", err)
				}

				w.eval(string(b))
			}

			for i := 0; i < 6; i++ {
				cal := build(m)

				var (
					set   func(s string) string // gives what is now there
					where string
				)

				switch g.n(8) {
				case 0:
					sites := typeSites(cal, urlType)

					if len(sites) == 0 {
						continue
					}

					s := sites[g.n(len(sites))]
					field := g.n(6)
					where = fmt.Sprintf("%s (part %d of the address)", s.path, field)
					set = func(h string) string {
						u := s.v.Addr().Interface().(*url.URL)

						switch *u = (url.URL{Scheme: "http", Host: "h", Path: "/p"}); field {
						case 0:
							*u = url.URL{Scheme: "mailto", Opaque: h}
						case 1:
							u.RawQuery = h
						case 2:
							u.Path = "/" + h
						case 3:
							u.Host = h
						case 4:
							u.Fragment = h
						case 5:
							u.User = url.UserPassword(h, h)
						}

						return u.String()
					}
				case 1:
					sites := typeSites(cal, reflect.TypeOf(ics.DateTime{}))

					if len(sites) == 0 {
						continue
					}

					s := sites[g.n(len(sites))]
					where = s.path + " (zone name)"
					name := pick(g, hostileZone)

					if g.n(2) == 0 {
						name = g.hostile()
					}

					off := (g.n(25) - 12) * 3600
					b := s.v.Interface().(ics.DateTime)

					if b.IsZero() || b.Year() < 2 || b.Year() > 9997 || strings.HasSuffix(s.path, ".Start") || strings.HasSuffix(s.path, ".End") {
						continue
					}

					set = func(h string) string {
						n := name

						if h == "x" {
							n = "x"
						}

						s.v.Set(reflect.ValueOf(ics.DateTime{Time: b.In(time.FixedZone(n, off))}))

						return n
					}
				default:
					sites := stringSites(cal)
					s := sites[g.n(len(sites))]
					where = s.path

					set = func(h string) string {
						if s.v.Type() == reflect.TypeOf(ics.ParamFormatType("")) {
							h = "a/" + h
						}

						s.v.SetString(h)

						return h
					}
				}

				set("x")

				base, err := signature(w.mustEncode(cal), true)
				if err != nil {
					w.fail("the output is not well formed: %s", err)
				}

				h := set(g.hostile())
				w.attach("hostile string", []byte(h))
				w.attach("place", []byte(where))

				var rec recorder

				if err := ics.Encode(&rec, cal); err != nil {
					w.count("hostile strings refused", 1)
					w.eval("")

					if rec.Len() > 0 {
						w.fail("refused after %d bytes were written, for %s", rec.Len(), where)
					}

					continue
				}

				w.count("hostile strings encoded", 1)
				w.attach("encoded", rec.Bytes())

				got, err := signature(rec.Bytes(), utf8.ValidString(h))
				if err != nil {
					w.fail("hostile string in %s: %s", where, err)
				}

				w.expect("hostile string in "+where+" changes the structure", base, got)

				if utf8.ValidString(h) {
					c, err := refParse(rec.Bytes())
					if err != nil {
						w.fail("hostile string in %s: %s", where, err)
					}

					w.expect("hostile string in "+where+" changes the calendar", read(cal).canon(), c.canon())
				}

				w.eval(rec.String())
				w.sample(where + ": " + fmt.Sprintf("%q", h))
			}
		},
	})

	register(&check{
		id: "C04", level: "exploration", quick: 60000, thorough: 600000,
		rule: "each case is a generated valid calendar, which has to be accepted, and copies of it with one invalid value put in some place, which have to be refused with nothing written; distinct by place and kind of invalid value and calendar",
		run: func(w *work) {
			g := w.g
			g.exotic = g.n(2) == 0

			if g.n(2) == 0 {
				g.density = 0.6
			}

			m := w.model()
			w.attach("model", []byte(m.canon()))
			w.mustEncode(build(m))
			w.count("valid calendars accepted", 1)
			w.eval(m.canon())
			w.observe(m)

			for i := 0; i < 12; i++ {
				cal := build(m)

				what := g.invalidate(m, cal)

				if what == "" {
					continue
				}

				class, where, _ := strings.Cut(what, " @ ")
				w.attach("invalid value", []byte(what))

				var rec recorder

				err := ics.Encode(&rec, cal)

				if err == nil {
					w.attach("encoded", rec.Bytes())
					w.fail("Encode accepts %s at %s", class, where)
				} else if rec.calls > 0 {
					w.attach("encoded", rec.Bytes())
					w.fail("Encode refuses %s at %s, but only after writing %d bytes in %d writes", class, where, rec.Len(), rec.calls)
				}

				w.count("refused: "+class, 1)
				w.eval(what + m.canon())
				w.sample(what + ": " + err.Error())
			}
		},
	})

	register(&check{
		id: "C12", level: "fault_enumeration", quick: 4800, thorough: 40000,
		rule: "for each generated calendar the writer fails at many points: at every write, after every number of bytes for small outputs, with short writes; each fault is an evaluation, distinct by calendar, kind and point of the fault",
		run:  runC12,
	})

	register(&check{
		id: "C19", level: "exploration", quick: 24000, thorough: 300000,
		rule: "each case is a generated calendar, encoded several times, after other calls, to writers of different kinds, and again after decoding; distinct by the bytes",
		run: func(w *work) {
			w.g.exotic = w.r.IntN(3) == 0
			m := w.model()
			cal := build(m)
			b := w.mustEncode(cal)
			w.attach("encoded", b)
			w.observe(m)

			same := func(what string, c *ics.Calendar) {
				again := w.mustEncode(c)

				if !bytes.Equal(b, again) {
					w.attach("again", again)
					w.fail("%s gives other bytes: %s", what, diff(string(b), string(again)))
				}

				w.count(what, 1)
				w.eval(what + string(b))
			}

			same("encoding again", cal)
			same("encoding an equal calendar", build(m))

			// other calls in between
			other := w.g.calendar()
			ob := w.mustEncode(build(other))
			decodeText(string(ob[:w.r.IntN(len(ob))]))
			ics.Encode(&failWriter{limit: w.r.IntN(len(ob))}, build(other))
			same("encoding after other calls", cal)

			dec, err := decodeText(string(b))
			if err != nil {
				w.fail("Decode refuses the output: %s", err)
			}

			same("encoding after decoding", dec)

			dec2, err := decodeText(string(b))
			if err != nil {
				w.fail("Decode refuses the output: %s", err)
			}

			w.expect("decoding twice", read(dec).canon(), read(dec2).canon())

			// kinds of writers
			var sb strings.Builder

			if err := ics.Encode(&sb, cal); err != nil || sb.String() != string(b) {
				w.fail("a writer with WriteString is given other bytes, or an error: %v", err)
			}

			ch := &chunkWriter{max: 1 + w.r.IntN(8)}

			if err := ics.Encode(ch, cal); err != nil || ch.String() != string(b) {
				w.fail("a slow writer is given other bytes, or an error: %v", err)
			}

			w.count("kinds of writers", 2)
			w.sample(string(b))

			if w.idx/shards%50 == 0 {
				w.otherProcess()
			}
		},
	})
}

// processCalendars encodes a number of calendars, which are always the same for
// the same arguments.
func processCalendars(seed uint64, idx int) []string {
	var out []string

	for i := 0; i < 20; i++ {
		g := newGen(caseRand(seed, fmt.Sprintf("C19/process%d", i), idx))
		g.exotic = i%3 == 0

		b, err := encode(build(g.calendar()))
		if err != nil {
			b = []byte("error")
		}

		out = append(out, strconv.QuoteToASCII(string(b)))
	}

	return out
}

// otherProcess compares the output with that of another process.
func (w *work) otherProcess() {
	self, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}

	all := processCalendars(w.seed, w.idx)
	cmd := exec.Command(self, "encode", strconv.FormatUint(w.seed, 10), strconv.Itoa(w.idx))
	cmd.Env = append(os.Environ(), "GOGC="+strconv.Itoa(5+w.r.IntN(300)), "GOMAXPROCS="+strconv.Itoa(1+w.r.IntN(8)), "LANG=de_DE.UTF-8")
	cmd.Dir = "/"

	got, err := cmd.Output()
	if err != nil {
		panic("harness: another process: " + err.Error())
	}

	theirs := strings.Split(strings.TrimSuffix(string(got), "\n"), "\n")

	for i, ours := range all {
		if ours != theirs[i] {
			w.attach("here", []byte(ours))
			w.attach("there", []byte(theirs[i]))
			w.fail("another process encodes the same calendar to other bytes: %s", diff(ours, theirs[i]))
		}

		w.count("calendars encoded by another process", 1)
		w.eval("process" + ours)
	}
}

// chunkWriter overwrites the data it is given after keeping it, as writers may
// not, but as one may that hands it on; it keeps a copy.
type chunkWriter struct {
	bytes.Buffer
	max int
}

func (c *chunkWriter) Write(p []byte) (int, error) {
	n := len(p)

	for len(p) > 0 {
		m := min(c.max, len(p))
		c.Buffer.Write(p[:m])
		p = p[m:]
	}

	return n, nil
}

func setTime(v reflect.Value, t time.Time) { v.Set(reflect.ValueOf(t)) }

const controls = "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f"

// insert puts a string somewhere into another.
func (g *gen) insert(s, part string) string {
	var at []int

	for i := range s {
		at = append(at, i)
	}

	at = append(at, len(s))
	i := at[g.n(len(at))]

	return s[:i] + part + s[i:]
}

// invalidate puts an invalid value into the calendar, and says what and where.
// It gives "" if there is no place for the kind of value chosen.
func (g *gen) invalidate(m *Comp, cal *ics.Calendar) string {
	one := func(sites []site) *site {
		if len(sites) == 0 {
			return nil
		}

		return &sites[g.n(len(sites))]
	}

	switch g.n(21) {
	case 0, 1, 2: // control character in a string
		s := one(stringSites(cal))
		c := string(controls[g.n(len(controls))])

		s.v.SetString(g.insert(s.v.String(), c))

		return fmt.Sprintf("control character in %s @ %s %q", s.v.Type().Name(), s.path, c)
	case 3: // address
		s := one(typeSites(cal, urlType))

		if s == nil {
			return ""
		}

		u := s.v.Addr().Interface().(*url.URL)
		c := string((controls + "\n")[g.n(len(controls)+1)])

		if g.n(2) == 0 {
			*u = url.URL{Scheme: "mailto", Opaque: g.insert("someone@example.com", c)}
		} else {
			*u = url.URL{Scheme: "http", Host: "example.com", RawQuery: g.insert("a=b", c)}
		}

		return fmt.Sprintf("control character in an address @ %s %q", s.path, c)
	case 4, 5: // times
		s := one(sitesOf(cal, func(p string, v reflect.Value) (bool, bool) {
			if v.Kind() == reflect.Struct && v.Type().ConvertibleTo(recurType) || v.Type() == perType {
				return false, false
			}

			return v.Type() == timeType, true
		}))

		if s == nil {
			return ""
		}

		switch g.n(4) {
		case 0:
			setTime(s.v, time.Time{})

			return "zero time @ " + s.path
		case 1:
			setTime(s.v, time.Time{}.In(g.location()))

			return "zero time in a zone @ " + s.path
		case 2:
			setTime(s.v, time.Date(10000+g.n(100000), time.March, 1, 0, 0, 0, 0, g.location()))

			return "year over 9999 @ " + s.path
		default:
			setTime(s.v, time.Date(-1-g.n(10000), time.March, 1, 0, 0, 0, 0, g.location()))

			return "negative year @ " + s.path
		}
	case 6: // floats
		s := one(sitesOf(cal, func(_ string, v reflect.Value) (bool, bool) {
			return v.Kind() == reflect.Array && v.Type().Elem().Kind() == reflect.Float64, true
		}))

		if s == nil {
			return ""
		}

		n := g.n(2)
		f := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[g.n(3)]
		s.v.Index(n).SetFloat(f)

		return fmt.Sprintf("float %d of %f @ %s", n, f, s.path)
	case 7: // enumerations
		s := one(sitesOf(cal, func(_ string, v reflect.Value) (bool, bool) { return isPropEnum(v.Type()), true }))

		if s == nil {
			return ""
		}

		over := enumValues(s.v.Type())

		if g.n(2) == 0 {
			over += uint64(g.n(256 - int(over)))
		}

		s.v.SetUint(over)

		return "enumeration out of range @ " + s.path
	case 8: // offsets
		s := one(sitesOf(cal, func(p string, v reflect.Value) (bool, bool) {
			return v.Kind() == reflect.Int, true
		}))

		if s == nil {
			return ""
		}

		o := int64(100*3600) + int64(g.n(4))*int64(g.n(1<<30))

		if g.n(2) == 0 {
			o = -o
		}

		s.v.SetInt(o)

		return fmt.Sprintf("UTC offset out of range @ %s %d", s.path, o)
	case 9, 10: // periods
		s := one(typeSites(cal, perType))

		if s == nil {
			return ""
		}

		p := s.v.Addr().Interface().(*ics.Period)
		t := g.time(time.UTC)

		switch g.n(7) {
		case 0:
			p.Start.Time = time.Time{}

			return "period without start @ " + s.path
		case 1:
			p.End.Time, p.Duration = time.Time{}, ics.Duration{Negative: true, Hours: uint(g.n(3)), Minutes: 1}

			return "period of negative duration @ " + s.path
		case 2:
			p.Start.Time, p.End.Time = t, t

			return "period that ends when it starts @ " + s.path
		case 3:
			p.Start.Time, p.End.Time = t.AddDate(0, 0, 1), t.AddDate(0, 0, 1).Add(-time.Duration(1+g.n(100))*time.Second)

			return "period that ends before it starts @ " + s.path
		case 4:
			l, _ := loadLocation("Europe/Berlin")
			p.Start.Time, p.End.Time = t, t.Add(time.Hour).In(l)

			return "period with times in different zones @ " + s.path
		case 5:
			p.Start.Time, p.End.Time = t, time.Date(10001, 1, 1, 0, 0, 0, 0, time.UTC)

			return "period with an end after year 9999 @ " + s.path
		default:
			p.Start.Time, p.End.Time = time.Date(-5, 1, 1, 0, 0, 0, 0, time.UTC), t

			return "period with a start before year 0 @ " + s.path
		}
	case 11, 12, 13: // rules
		s := one(sitesOf(cal, func(_ string, v reflect.Value) (bool, bool) {
			return v.Kind() == reflect.Struct && v.Type().ConvertibleTo(recurType), true
		}))

		if s == nil {
			return ""
		}

		r := s.v.Addr().Convert(reflect.PointerTo(recurType)).Interface().(*ics.Recur)

		return g.invalidRule(r) + " @ " + s.path
	case 14, 15: // values of which exactly one is to be there
		type alt struct {
			s      site
			fields []reflect.Value
		}

		var alts []alt

		sitesOf(cal, func(p string, v reflect.Value) (bool, bool) {
			if v.Kind() == reflect.Struct && strings.HasPrefix(v.Type().Name(), "Prop") {
				a := alt{s: site{p, v}}

				for _, n := range []string{"DateTime", "Date", "Period", "Duration", "URI", "Binary"} {
					if f := v.FieldByName(n); f.IsValid() && f.Kind() == reflect.Pointer {
						a.fields = append(a.fields, f)
					}
				}

				if len(a.fields) > 1 {
					alts = append(alts, a)
				}
			}

			return false, true
		})

		if len(alts) == 0 {
			return ""
		}

		a := alts[g.n(len(alts))]

		if g.n(2) == 0 {
			for _, f := range a.fields {
				f.SetZero()
			}

			return "no value in " + a.s.v.Type().Name() + " @ " + a.s.path
		}

		full := g.n(2) == 0
		added := 0

		for _, f := range a.fields {
			if f.IsNil() && (full || added == 0) {
				added++

				switch p := reflect.New(f.Type().Elem()); v := p.Interface().(type) {
				case *ics.DateTime:
					v.Time = g.time(time.UTC)
					f.Set(p)
				case *ics.Date:
					v.Time = g.time(time.UTC)
					f.Set(p)
				case *ics.Period:
					v.Start.Time = g.time(time.UTC)
					v.Duration.Hours = 1
					f.Set(p)
				case *ics.Duration:
					v.Hours = 1
					f.Set(p)
				default:
					f.Set(p)
				}
			}
		}

		return "several values in " + a.s.v.Type().Name() + " @ " + a.s.path
	case 16: // no alarm type
		s := one(typeSites(cal, reflect.TypeOf(ics.Alarm{})))

		if s == nil {
			return ""
		}

		s.v.SetZero()

		return "alarm without a type @ " + s.path
	case 17: // media types
		s := one(typeSites(cal, reflect.TypeOf(ics.ParamFormatType(""))))

		if s == nil {
			return ""
		}

		s.v.SetString(pick(g, []string{"text", "/", "text/", "/plain", " / ", "", "text plain"}))

		return "malformed media type @ " + s.path
	case 18: // durations
		s := one(sitesOf(cal, func(_ string, v reflect.Value) (bool, bool) {
			return v.Kind() == reflect.Struct && v.Type().ConvertibleTo(durType), v.Type() != perType
		}))

		if s == nil {
			return ""
		}

		d := s.v.Addr().Convert(reflect.PointerTo(durType)).Interface().(*ics.Duration)
		d.Weeks, d.Days = math.MaxUint64/7+1+uint(g.n(1<<40)), 1+uint(g.n(100))

		return "duration that is too long to be written @ " + s.path
	default: // rules between properties
		return g.breakRequirement(cal)
	}
}

// enumValues gives the number of values of an enumeration; they start at 0.
func enumValues(t reflect.Type) uint64 {
	var n uint64

	for _, p := range props {
		for _, e := range p.enum {
			if v := reflect.ValueOf(e); v.Type() == t {
				n = max(n, v.Uint()+1)
			}
		}
	}

	if n == 0 {
		panic("harness: unknown enumeration " + t.Name())
	}

	return n
}

func (g *gen) invalidRule(r *ics.Recur) string {
	at := func(n int) int { return g.n(n + 1) }

	switch g.n(18) {
	case 0:
		r.Frequency = ics.Frequency(7 + g.n(249))

		return "rule with unknown frequency"
	case 1:
		r.Count, r.Until = 1+uint64(g.n(5)), g.time(time.UTC)

		return "rule with count and end"
	case 2:
		r.BySecond = insertAt(r.BySecond, at(len(r.BySecond)), uint8(61+g.n(195)))

		return "rule with BYSECOND out of range"
	case 3:
		r.ByMinute = insertAt(r.ByMinute, at(len(r.ByMinute)), uint8(60+g.n(196)))

		return "rule with BYMINUTE out of range"
	case 4:
		r.ByHour = insertAt(r.ByHour, at(len(r.ByHour)), uint8(24+g.n(232)))

		return "rule with BYHOUR out of range"
	case 5:
		r.ByDay = insertAt(r.ByDay, at(len(r.ByDay)), ics.DayRecur{Day: ics.UnknownDay})

		return "rule with BYDAY without a day"
	case 6:
		r.ByDay = insertAt(r.ByDay, at(len(r.ByDay)), ics.DayRecur{Day: ics.WeekDay(8 + g.n(248))})

		return "rule with BYDAY of an unknown day"
	case 7:
		r.ByDay = insertAt(r.ByDay, at(len(r.ByDay)), ics.DayRecur{Day: ics.Monday, Occurrence: pick(g, []int8{54, -54, 100, -128, 127})})

		return "rule with BYDAY occurrence out of range"
	case 8:
		r.ByMonthDay = insertAt(r.ByMonthDay, at(len(r.ByMonthDay)), pick(g, []int8{0, 32, -32, 127, -128}))

		return "rule with BYMONTHDAY out of range"
	case 9:
		r.ByYearDay = insertAt(r.ByYearDay, at(len(r.ByYearDay)), pick(g, []int16{0, 367, -367, 32767, -32768}))

		return "rule with BYYEARDAY out of range"
	case 10:
		r.ByWeekNum = insertAt(r.ByWeekNum, at(len(r.ByWeekNum)), pick(g, []int8{0, 54, -54, 127, -128}))

		return "rule with BYWEEKNO out of range"
	case 11:
		r.ByMonth = insertAt(r.ByMonth, at(len(r.ByMonth)), pick(g, []ics.Month{0, 13, 14, 255}))

		return "rule with BYMONTH out of range"
	case 12:
		r.BySetPos = insertAt(r.BySetPos, at(len(r.BySetPos)), pick(g, []int16{0, 367, -367, 32767, -32768}))

		return "rule with BYSETPOS out of range"
	case 13, 14:
		r.WeekStart = ics.WeekDay(8 + g.n(248))

		return "rule with unknown week start"
	default:
		r.Count, r.Until, r.UntilTime = 0, time.Date(pick(g, []int{-3, 10000, 12345}), time.June, 1, 0, 0, 0, 0, time.UTC), g.n(2) == 0

		return "rule that ends outside of years 0 to 9999"
	}
}

func insertAt[T any](l []T, i int, v T) []T {
	out := make([]T, 0, len(l)+1)
	out = append(out, l[:i]...)
	out = append(out, v)

	return append(out, l[i:]...)
}

// breakRequirement breaks a rule between properties or components.
func (g *gen) breakRequirement(cal *ics.Calendar) string {
	var options []func() string

	set := func(what string, f func()) {
		options = append(options, func() string {
			f()

			return what
		})
	}

	dur := func() *ics.PropDuration { return &ics.PropDuration{Hours: 1} }
	date := func() time.Time { return g.time(time.UTC) }

	var alarms []ics.Alarm

	for i := range cal.Event {
		e := &cal.Event[i]

		set(fmt.Sprintf("event with both end and duration @ Calendar.Event[%d]", i), func() {
			e.DateTimeEnd, e.Duration = &ics.PropDateTimeEnd{DateTime: &ics.DateTime{Time: date()}}, dur()
		})

		alarms = append(alarms, e.Alarm...)
	}

	for i := range cal.Todo {
		t := &cal.Todo[i]

		set(fmt.Sprintf("todo with both due and duration @ Calendar.Todo[%d]", i), func() {
			t.Due, t.Duration = &ics.PropDue{DateTime: &ics.DateTime{Time: date()}}, dur()
			t.DateTimeStart = &ics.PropDateTimeStart{DateTime: &ics.DateTime{Time: date()}}
		})

		set(fmt.Sprintf("todo with duration and no start @ Calendar.Todo[%d]", i), func() {
			t.Due, t.Duration, t.DateTimeStart = nil, dur(), nil
		})

		alarms = append(alarms, t.Alarm...)
	}

	for i := range cal.Timezone {
		t := &cal.Timezone[i]

		set(fmt.Sprintf("time zone without rules @ Calendar.Timezone[%d]", i), func() { t.Standard, t.Daylight = nil, nil })
	}

	repeat := ics.PropRepeat(2)
	geo := []ics.PropGeoLocation{ics.PropGeoLocation(ics.URI{URL: mustURL("geo:1,2")})}

	for i, a := range alarms {
		for _, which := range []int{0, 1, 2} {
			what := fmt.Sprintf("%s @ alarm %d, %T", []string{"alarm with duration and no repeat", "alarm with repeat and no duration", "alarm with location and no proximity"}[which], i, a.AlarmType)
			v := reflect.ValueOf(a.AlarmType).Elem()

			if !v.FieldByName("Duration").IsValid() {
				continue
			}

			set(what, func() {
				switch which {
				case 0:
					v.FieldByName("Duration").Set(reflect.ValueOf(dur()))
					v.FieldByName("Repeat").SetZero()
				case 1:
					v.FieldByName("Duration").SetZero()
					v.FieldByName("Repeat").Set(reflect.ValueOf(&repeat))
				case 2:
					v.FieldByName("GeoLocation").Set(reflect.ValueOf(geo))
					v.FieldByName("Proximity").SetZero()
				}
			})
		}
	}

	if len(options) == 0 {
		return ""
	}

	return options[g.n(len(options))]()
}
