package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"vimagination.zapto.org/ics"
)

// combosOf are the uses of properties with values of those kinds.
func combosOf(kinds ...Kind) []combo {
	var cs []combo

	for _, c := range combos {
		for _, k := range kinds {
			if c.kind == k {
				cs = append(cs, c)
			}
		}
	}

	return cs
}

// packed makes a calendar with several of the uses.
func (w *work) packed(cs []combo, n int) *Comp {
	var cal *Comp

	for ; n > 0; n-- {
		c, _ := w.g.withCombo(pick(w.g, cs))

		if cal == nil {
			cal = c
		} else {
			cal.Subs = append(cal.Subs, c.Subs...)
		}
	}

	return cal
}

// bothWays encodes the calendar, and decodes texts of it.
func (w *work) bothWays(m *Comp) {
	want := m.canon()
	w.attach("model", []byte(want))

	b := w.mustEncode(build(m))
	w.attach("encoded", b)

	ref, err := refParse(b)
	if err != nil {
		w.fail("the output is not a valid calendar text: %s", err)
	}

	w.expect("the output does not say what the calendar does", want, ref.canon())
	w.expect("the output is decoded as something else", want, w.mustDecode("the output of Encode", string(b)).canon())
	w.count("calendars encoded, read and decoded", 1)
	w.observe(m)
	w.eval(want)
	w.sample(string(b))
}

func (w *work) textWay(m *Comp) {
	want := m.canon()
	w.attach("model", []byte(want))

	s := randomStyle(w)

	if w.r.IntN(4) == 0 {
		s = &style{r: w.r}
	}

	s.unknown = 0
	text := s.text(m)
	w.attach("text", []byte(text))
	w.expect("Decode understands something else than the text says", want, w.mustDecode("a valid text", text).canon())
	w.count("texts decoded", 1)
	w.observe(m)
	w.eval(text)
}

// mustRefuse decodes a text which is not valid.
func (w *work) mustRefuse(b *breakage) {
	if _, err := decodeText(b.text); err == nil {
		w.attach("text", []byte(b.text))
		w.fail("Decode accepts a text with %s", b.label)
	}

	w.count("texts refused", 1)
	w.eval(b.text)
}

// refuseValues decodes texts with bad values in place of good ones.
func (w *work) refuseValues(n int, cs []combo) {
	for ; n > 0; n-- {
		co := pick(w.g, cs)
		m, p := w.comboProp(co)

		for i := 0; i < 10; i++ {
			label := ""
			s := &style{r: w.r, hook: func(q *Prop, qs []string, text string) ([]string, string) {
				if q != p {
					return qs, text
				}

				v, _, ok := w.g.breakValue(p, text)

				if !ok {
					return qs, text
				}

				label = fmt.Sprintf("bad %s %q of %s in %s", kindNames[p.Val.Kind], v, p.Name, co.comp)

				return withoutZone(qs), v
			}}
			text := s.text(m)

			if label != "" {
				w.mustRefuse(&breakage{label: label, text: text})
			}
		}
	}
}

// loadable are the time zones there is data for.
var loadable []string

func zonesHere() []string {
	if loadable == nil {
		for _, z := range allZones {
			if _, err := loadLocation(z); err == nil {
				loadable = append(loadable, z)
			}
		}

		if len(loadable) == 0 {
			panic("harness: no time zone data")
		}
	}

	return loadable
}

func init() {
	register(&check{
		id: "C14", level: "exploration", quick: 152000, thorough: 400000,
		rule: "each case is calendars full of dates, times and periods in all time zones, many of them close to changes of the clocks, that are encoded and read back, and texts of such that are decoded; distinct by the calendar or text",
		run: func(w *work) {
			g := w.g
			g.zones = zonesHere()

			if w.r.IntN(2) == 0 { // one zone after the other
				z := g.zones[w.idx/2%len(g.zones)]
				g.zones = []string{z}
				w.count("cases about a single zone", 1)
			}

			cs := combosOf(KDateTime, KDate, KPeriod, KRecur)
			g.around = 0.4
			g.exotic = w.r.IntN(2) == 0
			w.bothWays(w.packed(cs, 4))

			g.exotic = false
			m := w.packed(cs, 4)
			rfcTimes(m)
			w.textWay(m)

			// an instant, by arithmetic and not by way of the model
			l, _ := loadLocation(pick(g, g.zones))
			t := g.time(l)
			_, off := t.Zone()
			text := event("DTSTART;TZID=" + l.String() + ":" + t.Format("20060102T150405"))
			cal, err := decodeText(text)
			w.attach("text", []byte(text))

			if err != nil {
				w.fail("Decode refuses a valid text: %s", err)
			}

			got := cal.Event[0].DateTimeStart.DateTime
			secs := time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC).Unix() - int64(off)

			if got == nil || got.Unix() != secs || got.Location().String() != l.String() {
				w.fail("DTSTART is decoded as %v, and not as %s", got, t)
			}

			// leap seconds are accepted
			for _, end := range []string{"", "Z"} {
				text := event("DTSTART:" + strconv.Itoa(1972+w.r.IntN(100)) + "1231T235960" + end)
				cal, err := decodeText(text)
				w.attach("text", []byte(text))

				if err != nil {
					w.fail("Decode refuses a leap second: %s", err)
				}

				if s := cal.Event[0].DateTimeStart.DateTime; s.Second() != 59 && s.Second() != 0 {
					w.fail("a leap second is decoded as %s", s)
				}
			}

			w.refuseValues(1, combosOf(KDateTime, KDate, KPeriod))

			w.firstDay()

			// any time that is accepted
			g.exotic = w.r.IntN(2) == 0
			w.wildWay(w.packed(cs, 2), func(path string, v reflect.Value) bool {
				return v.Type() == timeType || strings.HasSuffix(path, ".UntilTime")
			})
		},
	})

	register(&check{
		id: "C15", level: "exploration", quick: 64000, thorough: 600000,
		rule: "each case is calendars with recurrence rules that are encoded and read back, texts of such that are decoded, each value of each part in turn, and rules which are to be refused in both directions; distinct by the calendar, text or rule",
		run: func(w *work) {
			cs := combosOf(KRecur)
			w.g.exotic = w.r.IntN(2) == 0
			w.bothWays(w.packed(cs, 3))
			w.g.exotic = false

			m := w.packed(cs, 3)
			rfcTimes(m)
			w.textWay(m)
			w.rulePart()
			w.refuseValues(1, cs)

			// rules that cannot be written
			for i := 0; i < 4; i++ {
				co := pick(w.g, cs)
				m, _ := w.g.withCombo(co)
				cal := build(m)

				for _, s := range sitesOf(cal, isRule) {
					r := s.v.Addr().Convert(recurPtr).Interface().(*ics.Recur)
					label := w.g.invalidRule(r)

					if _, err := encode(cal); err == nil {
						w.attach("model", []byte(m.canon()))
						w.fail("Encode accepts a %s @ %s: %+v", label, s.path, *r)
					}

					w.count("rules that Encode refuses", 1)
					w.eval(label + m.canon())

					break
				}
			}

			w.wildWay(w.packed(cs, 2), func(path string, v reflect.Value) bool {
				return strings.Contains(path, ".RecurrenceRule")
			})
		},
	})

	register(&check{
		id: "C16", level: "exploration", quick: 72000, thorough: 300000,
		rule: "each case is a calendar full of strings, as values, elements of lists and params, that is encoded and read back, and a text of it that is decoded; the strings are in turn all short ones of the special characters, all code points, and random ones; distinct by the calendar or text",
		run:  runC16,
	})

	register(&check{
		id: "C17", level: "exploration", quick: 100000, thorough: 400000,
		rule: "each case is calendars full of durations, periods, offsets, numbers, truth values, binary data and addresses, many at the bounds of their types, that are encoded and read back, texts of such that are decoded, and values that are to be refused; distinct by the calendar or text",
		run:  runC17,
	})
}

// firstDay is about the first day of the year 1. Its start is the zero time, which
// is how the package says that there is none; it must not come to that.
func (w *work) firstDay() {
	at := pick(w.g, []string{"00010101T000000Z", "00010101"})
	rule := "RRULE:FREQ=DAILY;UNTIL=" + at
	text := event(rule)

	if w.r.IntN(2) == 0 {
		at = "00010101T000000Z"
		text = event("RDATE;VALUE=PERIOD:" + pick(w.g, []string{"00001231T235959Z", "00000101T000000Z", "00001231T000000Z"}) + "/" + at)
	}

	w.attach("text", []byte(text))

	cal, err := decodeText(text)
	if err != nil {
		w.count("ends at the zero time refused", 1)
		w.eval(text)

		cal, err = decodeText(event("RRULE:FREQ=DAILY;UNTIL=00010102", "RDATE;VALUE=PERIOD:00001231T000000Z/00010102T000000Z"))
		if err != nil {
			w.fail("Decode refuses a valid text: %s", err)
		}

		// the same with times that are not zero, but written like it
		if e := &cal.Event[0]; w.r.IntN(2) == 0 {
			e.RecurrenceRule.UntilTime = w.r.IntN(2) == 0
			e.RecurrenceRule.Until = time.Time{}.Add(time.Duration(1 + w.r.IntN(1e9-1)))
		} else {
			e.RecurrenceDateTimes[0].Period.End.Time = time.Time{}.Add(time.Duration(1 + w.r.IntN(1e9-1)))
		}
	}

	b, err := encode(cal)
	if err != nil {
		w.count("ends at the zero time refused", 1)

		return
	}

	if !strings.Contains(string(b), at) {
		w.attach("encoded", b)
		w.fail("an end on the first day of the year 1 is lost")
	}

	cal, err = decodeText(string(b))
	if err != nil {
		w.attach("encoded", b)
		w.fail("Decode refuses the output of Encode: %s", err)
	}

	w.count("ends at the zero time accepted", 1)

	if b2, err := encode(cal); err != nil || string(b2) != string(b) {
		w.attach("encoded", b)
		w.fail("an end on the first day of the year 1 changes: %v", err)
	}
}

var ruleParts = []struct {
	name   string
	lo, hi int
	zero   bool
	bad    []int
	set    func(r *Rule, l []int)
}{
	{"BYSECOND", 0, 60, true, []int{-1, 61, 100, 255, 256, 316}, func(r *Rule, l []int) { r.BySecond = l }},
	{"BYMINUTE", 0, 59, true, []int{-1, 60, 61, 255, 256, 300}, func(r *Rule, l []int) { r.ByMinute = l }},
	{"BYHOUR", 0, 23, true, []int{-1, 24, 25, 255, 256, 260}, func(r *Rule, l []int) { r.ByHour = l }},
	{"BYMONTHDAY", -31, 31, false, []int{-32, 0, 32, 255, 256, 257, -255}, func(r *Rule, l []int) { r.ByMonthDay = l }},
	{"BYYEARDAY", -366, 366, false, []int{-367, 0, 367, 65536, 65537, -65535}, func(r *Rule, l []int) { r.ByYearDay = l }},
	{"BYWEEKNO", -53, 53, false, []int{-54, 0, 54, 256, 257, -255}, func(r *Rule, l []int) { r.ByWeekNo = l }},
	{"BYMONTH", 1, 12, false, []int{-1, 0, 13, 256, 257}, func(r *Rule, l []int) { r.ByMonth = l }},
	{"BYSETPOS", -366, 366, false, []int{-367, 0, 367, 65536, 65537, -65535}, func(r *Rule, l []int) { r.BySetPos = l }},
	{"BYDAY", -53, 53, true, []int{-54, 54, 256, 257, -255}, func(r *Rule, l []int) {
		for i, n := range l {
			r.ByDay = append(r.ByDay, DayNum{N: n, Day: dayNames[i%7]})
		}
	}},
	{"BYDAY", -53, 53, true, nil, func(r *Rule, l []int) {
		for _, n := range l {
			for _, d := range dayNames {
				r.ByDay = append(r.ByDay, DayNum{N: n, Day: d})
			}
		}
	}},
	{"WKST", 0, 6, true, nil, func(r *Rule, l []int) { r.WkSt = dayNames[l[0]] }},
	{"FREQ", 0, 6, true, nil, func(r *Rule, l []int) { r.Freq = freqNames[l[0]] }},
}

// rulePart checks values of one part of a rule: all of them in a rule, and each
// in one of its own.
func (w *work) rulePart() {
	part := ruleParts[w.idx/shards%len(ruleParts)]

	var all []int

	for i := part.lo; i <= part.hi; i++ {
		if i != 0 || part.zero {
			all = append(all, i)
		}
	}

	w.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })

	rules := []*Rule{{}}
	part.set(rules[0], all)

	for _, i := range all[:min(20, len(all))] {
		r := &Rule{}
		part.set(r, []int{i})
		rules = append(rules, r)
	}

	next := 0
	w.g.valFn = func(k Kind) (Val, bool) {
		if k != KRecur {
			return Val{}, false
		}

		r := rules[next%len(rules)]
		next++

		if r.Freq == "" {
			r.Freq = pick(w.g, freqNames)
		}

		return Val{Kind: KRecur, R: r}, true
	}

	m := w.packed(combosOf(KRecur), len(rules))
	w.g.valFn = nil

	w.bothWays(m)
	w.textWay(m)
	w.count("parts of rules: "+part.name, len(rules))

	for _, n := range part.bad {
		v := strconv.Itoa(n)

		if part.name == "BYDAY" {
			v += pick(w.g, dayNames)
		}

		if w.r.IntN(2) == 0 && part.name != "BYDAY" {
			v = strconv.Itoa(part.hi) + "," + v
		}

		w.mustRefuse(&breakage{label: part.name + "=" + v, text: event("RRULE:FREQ=DAILY;" + part.name + "=" + v)})
	}
}

const specials = "\\,;:\"^nN'\n\t =a\u00e9"

// shortText gives all short strings of special characters, one after the other.
func shortText(i int) string {
	r := []rune(specials)
	n := 0

	for c := 1; i >= c; c *= len(r) {
		i -= c
		n++
	}

	var sb strings.Builder

	for ; n > 0; n-- {
		sb.WriteRune(r[i%len(r)])
		i /= len(r)
	}

	return sb.String()
}

func allowed(r rune) bool {
	return (r >= 0x20 && r != 0x7f || r == '\t' || r == '\n') && utf8.ValidRune(r)
}

func runC16(w *work) {
	g := w.g
	turn := w.idx / shards
	next := 0

	switch turn % 3 {
	case 0:
		base := (turn/3*shards + w.idx%shards) * 50
		g.textFn = func() string {
			next++

			if next > 50 {
				return shortText(w.r.IntN(1 << 20))
			}

			return shortText(base + next - 1)
		}

		w.count("short strings of special characters", 50)
	case 1:
		base := (turn/3*shards + w.idx%shards) * 1100
		g.textFn = func() string {
			next++

			from := base + next*22 - 22

			if next > 50 {
				from = w.r.IntN(0x110000)
			}

			var sb strings.Builder

			for i := 0; i < 22; i++ {
				if r := rune((from + i) % 0x110000); allowed(r) {
					sb.WriteRune(r)

					if i%5 == 0 {
						sb.WriteString(pick(g, nasty))
					}
				}
			}

			return sb.String()
		}

		w.count("code points", 1100)
	default:
		g.maxText = []int{3, 20, 80, 400}[g.n(4)]

		if w.r.IntN(20) == 0 {
			g.maxText = 1 + g.size(20000)
			w.count("cases of long texts", 1)
		}
	}

	cs := combosOf(KText, KMText, KAddress)
	m := w.packed(cs, 6)

	for turn%3 < 2 && next < 50 {
		m.Subs = append(m.Subs, w.packed(cs, 1).Subs...)
	}

	w.bothWays(m)
	w.textWay(m)
	w.refuseValues(1, combosOf(KText, KMText))
	w.looseEscapes()
	w.wildWay(w.packed(cs, 2), func(_ string, v reflect.Value) bool {
		return v.Kind() == reflect.String
	})
}

// looseEscapes decodes a text and a param with characters that would escape
// another, but do not.
func (w *work) looseEscapes() {
	var text, wantText, param, wantParam string

	for n := 1 + w.r.IntN(6); n > 0; n-- {
		e := pick(w.g, []string{"a", "é", "😀", "0", ":", "\"", "r", "t", "'", "^", " ", "/", "-"})
		text += "\\" + e
		wantText += "\\" + e

		e = pick(w.g, []string{"a", "é", "😀", "0", ":", ";", ",", "N", "\\", "\\n", " ", "/", "-"})
		param += "^" + e
		wantParam += "^" + e

		if w.r.IntN(2) == 0 {
			text, wantText = text+"\\n", wantText+"\n"
			param, wantParam = param+"^n", wantParam+"\n"
		}
	}

	if w.r.IntN(2) == 0 {
		text, wantText = text+"\\", wantText+"\\"
		param, wantParam = param+"^", wantParam+"^"
	}

	doc := event("SUMMARY;LANGUAGE=\""+param+"\":"+text, "RESOURCES;LANGUAGE=\""+param+"\":x,"+text)
	w.attach("text", []byte(doc))

	cal, err := decodeText(doc)
	if err != nil {
		w.fail("Decode refuses a text with a character that escapes nothing: %s", err)
	}

	e := cal.Event[0]

	if string(e.Summary.Text) != wantText || len(e.Resources[0].MText) != 2 || string(e.Resources[0].MText[1]) != wantText {
		w.fail("%q is decoded as %q and %q, and not as %q", text, e.Summary.Text, e.Resources[0].MText, wantText)
	}

	if *e.Summary.Language != ics.ParamLanguage(wantParam) || *e.Resources[0].Language != ics.ParamLanguage(wantParam) {
		w.fail("the param %q is decoded as %q and %q, and not as %q", param, *e.Summary.Language, *e.Resources[0].Language, wantParam)
	}

	w.count("texts with characters that escape nothing", 1)
	w.eval(doc)
}

func runC17(w *work) {
	g := w.g
	cs := combosOf(KDuration, KPeriod, KOffset, KInteger, KFloats, KBoolean, KURI, KAddress, KBinary)
	turn := w.idx / shards * shards
	next := turn + w.idx%shards

	switch w.idx / shards % 4 {
	case 0: // offsets, one after the other
		cs = combosOf(KOffset)
		n := next * 97
		g.valFn = func(k Kind) (Val, bool) {
			if k != KOffset {
				return Val{}, false
			}

			n++

			return Val{Kind: k, I: int64(n)*7919%(2*360000-1) - 359999}, true
		}

		w.count("cases of offsets in turn", 1)
	case 1: // bounds
		durs := []uint{0, 1, 9, 10, math.MaxInt32, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 1, math.MaxUint64}
		g.valFn = func(k Kind) (Val, bool) {
			v := Val{Kind: k}

			switch k {
			case KDuration:
				v.D = Dur{Neg: g.n(2) == 0}

				if g.n(3) == 0 {
					v.D.W = pick(g, durs)

					break
				}

				v.D.D, v.D.H, v.D.M, v.D.S = pick(g, durs), pick(g, durs), pick(g, durs), pick(g, durs)
			case KInteger:
				v.I = int64(int32(pick(g, []uint32{0, 1, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1<<31 + 1, uint32(1) << g.n(32), uint32(1)<<g.n(32) - 1})))
			case KFloats:
				for i := range v.F {
					v.F[i] = pick(g, []float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 90, -180, math.Nextafter(90, 0), math.Nextafter(1, 2), 1e15 + 0.3, 123456789.123456789, g.float()})
				}
			default:
				return v, false
			}

			return v, true
		}
	case 2: // binary data of all lengths
		cs = combosOf(KBinary, KURI, KAddress)
		g.valFn = func(k Kind) (Val, bool) {
			if k != KBinary {
				return Val{}, false
			}

			b := make([]byte, (next+g.n(3)*100)%400)

			if w.r.IntN(20) == 0 {
				b = make([]byte, g.size(100000))
				w.count("long binary data", 1)
			}

			for i := range b {
				b[i] = byte(g.r.Uint32())
			}

			return Val{Kind: k, Bytes: b}, true
		}
	}

	g.exotic = w.r.IntN(2) == 0
	w.bothWays(w.packed(cs, 6))
	g.exotic = false

	m := w.packed(cs, 6)
	rfcTimes(m)
	w.textWay(m)
	g.valFn = nil
	w.refuseValues(2, combosOf(KDuration, KPeriod, KOffset, KInteger, KFloats, KBoolean, KURI, KAddress, KBinary))
	w.overflow()
	w.wildWay(w.packed(cs, 2), func(_ string, v reflect.Value) bool {
		return v.Kind() != reflect.String && v.Type() != timeType
	})
}

// overflow gives values that cannot be expressed.
func (w *work) overflow() {
	g := w.g

	// durations of weeks and other units, the sum of which is written in days
	d := ics.Duration{Negative: g.n(2) == 0, Weeks: uint(g.r.Uint64()), Days: uint(g.r.Uint64() >> g.n(64)), Seconds: uint(g.n(3))}

	switch g.n(4) {
	case 0:
		d.Weeks >>= g.n(64)
	case 1:
		d.Weeks, d.Days = math.MaxUint64/7, uint(g.n(5))
	case 2:
		d.Weeks, d.Days = math.MaxUint64/7+1, uint(g.n(5))
	}

	if g.n(2) == 0 { // one other unit
		d.Days, d.Hours, d.Minutes, d.Seconds = 0, 0, 0, 0
		*pick(g, []*uint{&d.Days, &d.Hours, &d.Minutes, &d.Seconds}) = uint(1 + g.n(3))
	}

	cal, _ := decodeText(event("SUMMARY:x"))
	if cal == nil {
		w.fail("Decode refuses a valid text")
	}

	p := ics.PropDuration(d)
	cal.Event[0].Duration = &p

	b, err := encode(cal)
	if err != nil {
		w.count("durations that are too long to be written", 1)
		w.eval(fmt.Sprint(d))

		// only then may it be refused
		if fits(d) {
			w.fail("Encode refuses a duration, %+v: %s", d, err)
		}

		return
	}

	m, err := refParse(b)
	if err != nil {
		w.fail("the output is not a valid calendar text: %s", err)
	}

	for _, q := range m.Subs[0].Props {
		if q.Name == "DURATION" {
			got := q.Val.D

			if got.Neg != d.Negative || !sameDays(got, d) || got.H != d.Hours || got.M != d.Minutes || got.S != d.Seconds {
				w.attach("encoded", b)
				w.fail("the duration %+v is written as %+v", d, got)
			}
		}
	}

	w.count("durations of weeks and days", 1)
	w.eval(fmt.Sprint(d))
}

func days(w, d uint) *big.Int {
	n := new(big.Int).SetUint64(uint64(w))
	n.Mul(n, big.NewInt(7))

	return n.Add(n, new(big.Int).SetUint64(uint64(d)))
}

func fits(d ics.Duration) bool {
	return d.Days == 0 && d.Hours == 0 && d.Minutes == 0 && d.Seconds == 0 || days(d.Weeks, d.Days).IsUint64()
}

func sameDays(got Dur, d ics.Duration) bool {
	return days(got.W, got.D).Cmp(days(d.Weeks, d.Days)) == 0
}

var recurPtr = reflect.PointerTo(recurType)

func isRule(_ string, v reflect.Value) (bool, bool) {
	return v.Kind() == reflect.Struct && v.Type().ConvertibleTo(recurType), true
}
