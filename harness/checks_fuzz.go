package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"vimagination.zapto.org/ics"
)

// fragments are parts of calendar texts.
var fragments = []string{
	"\r\n", "\r\n", "\r\n", ":", ";", "=", ",", "\"", "\r", "\n", " ", "\t", "\r\n ", "\r\n\t", "\\", "^", "\\n", "\\N", "\\\\", "^n", "^'", "^^", "\x00", "\x7f", "\xff", "\xc3", "é", "\ufeff", "\u2028", "+", "-", "/", "P", "T", "Z", ".",
	"BEGIN:VCALENDAR\r\n", "END:VCALENDAR\r\n", "BEGIN:VEVENT\r\n", "END:VEVENT\r\n", "BEGIN:VTODO\r\n", "END:VTODO\r\n", "BEGIN:VALARM\r\n", "END:VALARM\r\n", "BEGIN:VTIMEZONE\r\n", "END:VTIMEZONE\r\n", "BEGIN:STANDARD\r\n", "END:STANDARD\r\n", "BEGIN:DAYLIGHT\r\n", "END:DAYLIGHT\r\n", "BEGIN:X\r\n", "END:X\r\n", "BEGIN:", "END:", "BEGIN", "END", "BEGIN;X=1:VEVENT\r\n", "END;X=1:VEVENT\r\n",
	"VERSION:2.0\r\n", "PRODID:p\r\n", "UID:u\r\n", "DTSTAMP:20200101T000000Z\r\n", "DTSTART:20200101T000000Z\r\n", "ACTION:DISPLAY\r\n", "ACTION:AUDIO\r\n", "ACTION:EMAIL\r\n", "ACTION:URI\r\n", "ACTION:NONE\r\n", "TRIGGER:-PT5M\r\n", "TRIGGER;VALUE=DATE-TIME:20200101T000000Z\r\n", "TZOFFSETFROM:+0100\r\n", "TZOFFSETTO:+0200\r\n",
	";VALUE=DATE", ";VALUE=DATE-TIME", ";VALUE=PERIOD", ";VALUE=BINARY", ";VALUE=DURATION", ";ENCODING=BASE64", ";TZID=Europe/London", ";TZID=", ";VALUE=", ";X=", ";VALUE=DATE,DATE",
	"20200101", "20200101T000000", "20200101T000000Z", "PT1H", "P1W", "1;2", "YWJj", "FREQ=DAILY", "COUNT=1", "UNTIL=20200101", "BYDAY=MO", "99999999999999999999", "-1", "0",
}

// oddValues are values which look like something, for any property.
var oddValues = []string{
	"", ";", ",", "/", "-", "+", "P", "PT", "T", "Z", ":", "=", "\\", "\\\\", "\\;", "\\,", "\"", "^", "0", "-0", "+0", "1e999", "NaN", "0x", "%", "%00", "//", "http://[", "mailto:", "=", "A===", "FREQ", "FREQ=", "=DAILY", "FREQ=DAILY;", "BYDAY", "FREQ=DAILY;BYDAY", "FREQ=DAILY;BYDAY=", "FREQ=DAILY;BYDAY=,", "FREQ=DAILY;BYDAY=1", "FREQ=DAILY;BYDAY=-", "FREQ=DAILY;BYDAY=M", "FREQ=DAILY;BYMONTHDAY=-", "FREQ=DAILY;UNTIL", "FREQ=DAILY;WKST", "FREQ=DAILY;WKST=M",
	"20200101T", "T000000", "00000000T000000Z", "99999999T999999", "20200101T000000Z/", "/P1D", "20200101T000000Z/P", "20200101T000000Z/P1W1", "20200101T000000Z/-", "P1", "-P", "+P", "P1WT", "P1DT", "PT1", "P18446744073709551615W", "P9999999999999999999999W", "PT18446744073709551615H18446744073709551615M18446744073709551615S", "-P4294967296W", "+", "-1", "+999999", "-235959", "é", "\xff", "\xed\xa0\x80", "\u2028", "TRUE", "tRuE", "1;", ";1", "1;1;1",
	"20200101T000000Z/P18446744073709551615W", "20200101T000000Z/P99999999D", "00000101T000000Z/-P1D", "99991231T235959Z/P1D", "00000101T000000", "00000101",
}

// mutate changes a text at random, mostly keeping its shape.
func (g *gen) mutate(text string) string {
	for n := 1 + g.n(4); n > 0; n-- {
		ls := strings.SplitAfter(text, "\r\n")
		i := g.n(len(ls))

		kinds := 12

		if len(hints().texts) > 0 {
			kinds = 15
		}

		switch g.n(kinds) {
		case 0: // remove a line
			ls = append(ls[:i:i], ls[i+1:]...)
		case 1: // repeat a line, somewhere
			j := g.n(len(ls))
			ls = append(ls[:j:j], append([]string{ls[i]}, ls[j:]...)...)
		case 2: // swap lines
			j := g.n(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
		case 3: // cut off
			text = text[:g.n(len(text)+1)]
			ls = []string{text}
		case 4: // odd value
			if j := strings.IndexByte(ls[i], ':'); j >= 0 {
				ls[i] = ls[i][:j+1] + pick(g, oddValues) + "\r\n"
			}
		case 5: // value of another kind
			if j := strings.IndexByte(ls[i], ':'); j >= 0 {
				if l := badValues[Kind(g.n(len(badValues)+2))]; len(l) > 0 {
					ls[i] = ls[i][:j+1] + pick(g, l) + "\r\n"
				}
			}
		case 6: // fragment
			j := g.n(len(ls[i]) + 1)
			ls[i] = ls[i][:j] + pick(g, fragments) + ls[i][j:]
		case 7: // remove bytes
			a := g.n(len(ls[i]) + 1)
			b := a + g.n(min(10, len(ls[i])-a+1))
			ls[i] = ls[i][:a] + ls[i][b:]
		case 8: // change a byte
			if len(ls[i]) > 0 {
				b := []byte(ls[i])
				b[g.n(len(b))] = byte(g.n(256))
				ls[i] = string(b)
			}
		case 9: // name of another property
			if j := strings.IndexAny(ls[i], ":;"); j >= 0 {
				ls[i] = textName(pick(g, sortedNames(props))) + ls[i][j:]
			}
		case 10: // param
			if j := strings.IndexAny(ls[i], ":;"); j >= 0 {
				ls[i] = ls[i][:j] + ";" + pick(g, append(sortedNames(params), "VALUE", "TZID", "ENCODING")) + "=" + pick(g, oddValues) + ls[i][j:]
			}
		case 11: // random edit
			ls[i] = g.edit(ls[i])
		case 12:
			ls[i] = g.insert(ls[i], pick(g, hints().texts))
		case 13:
			if j := strings.IndexAny(ls[i], ":;"); j >= 0 && len(hints().names) > 0 {
				ls[i] = pick(g, hints().names) + ls[i][j:]
			}
		case 14:
			if j := strings.IndexByte(ls[i], ':'); j >= 0 {
				ls[i] = ls[i][:j+1] + pick(g, hints().texts) + "\r\n"
			}
		}

		text = strings.Join(ls, "")
	}

	return text
}

// soup is a text of fragments.
func (g *gen) soup() string {
	var sb strings.Builder

	if g.n(2) == 0 {
		sb.WriteString("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\n")

		if g.n(2) == 0 {
			sb.WriteString("BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\n")
		}
	}

	for n := g.n(40); n > 0; n-- {
		if h := hints(); len(h.texts) > 0 && g.n(8) == 0 {
			sb.WriteString(pick(g, h.texts))
		}

		switch g.n(8) {
		case 0:
			sb.WriteString(textName(pick(g, sortedNames(props))))
		case 1:
			sb.WriteString(pick(g, sortedNames(params)))
		case 2:
			sb.WriteString(pick(g, oddValues))
		default:
			sb.WriteString(pick(g, fragments))
		}
	}

	if g.n(2) == 0 {
		sb.WriteString("\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n")
	}

	return sb.String()
}

// huge makes a text with a lot of something.
func (w *work) huge() (text, what string) {
	g := w.g
	n := []int{1000, 20000, 100000}[g.n(3)]

	if w.tier == "thorough" && g.n(4) == 0 {
		n = 600000
	}

	head, tail := event("@"), ""
	head, tail, _ = strings.Cut(head, "@")

	wrap := func(s string) string { return head + s + tail }
	lines := func(s string) string { return wrap(strings.TrimSuffix(strings.Repeat(s+"\r\n", n), "\r\n")) }

	switch g.n(20) {
	case 0:
		return wrap(strings.Repeat("BEGIN:X\r\n", n) + strings.Repeat("END:X\r\n", n-1) + "END:X"), "nested unknown components"
	case 1:
		return wrap(strings.Repeat("BEGIN:X\r\n", n) + "X:"), "nested unknown components without end"
	case 2:
		return head + strings.Repeat("BEGIN:VALARM\r\n", n) + tail, "nested alarms"
	case 3:
		return strings.Repeat("BEGIN:VCALENDAR\r\n", n), "nested calendars"
	case 4:
		return strings.Repeat("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\n", n/4), "nested events"
	case 5:
		return wrap("SUMMARY:" + strings.Repeat(pick(g, []string{"x", "\\n", "\\\\", "é", "\r\n ", "\r\n\t", "\\", "\\;", "\r\n x"}), n)), "long text"
	case 6:
		return wrap("SUMMARY;X=" + strings.Repeat(pick(g, []string{"x", "^n", "^", "é", "\"a\",", ",", "\r\n "}), n) + ":x"), "long param"
	case 7:
		return wrap("SUMMARY" + strings.Repeat(";X=1", n) + ":x"), "many params"
	case 8:
		return wrap("CATEGORIES:" + strings.Repeat(pick(g, []string{",", "a,", "\\,"}), n)), "long list"
	case 9:
		return wrap("RRULE:FREQ=DAILY;" + strings.Repeat(pick(g, []string{"X=1;", ";", "COUNT=1;", "=", "BYDAY=MO;"}), n)), "long rule"
	case 10:
		return wrap("RRULE:FREQ=DAILY;BYSECOND=" + strings.Repeat(pick(g, []string{"1,", ",", "1"}), n) + "1"), "long list in a rule"
	case 11:
		return wrap("DURATION:P" + strings.Repeat(pick(g, []string{"1", "0", "T", "1D", "1W"}), n) + "D"), "long duration"
	case 12:
		return wrap(pick(g, []string{"SEQUENCE:", "GEO:1;", "DTSTART:", "RRULE:FREQ=DAILY;COUNT="}) + strings.Repeat(pick(g, []string{"0", "9", "-"}), n)), "long number"
	case 13:
		return wrap("ATTACH;VALUE=BINARY;ENCODING=BASE64:" + strings.Repeat(pick(g, []string{"AAAA", "=", "A"}), n)), "long binary"
	case 14:
		return wrap(strings.Repeat("X", n) + ":x"), "long name"
	case 15:
		return lines(pick(g, []string{"COMMENT:x", "X-FOO:y", "ATTENDEE:mailto:a@b", "RDATE:20200101T000000Z", "BEGIN:VALARM\r\nACTION:NONE\r\nEND:VALARM"})), "many lines"
	case 16:
		return strings.Repeat(pick(g, []string{"\x00", "\r\n", " ", "A", ":", "\"", "\r", "\n", "\xff", ";", "BEGIN:X\r\nEND:X\r\n"}), n), "repeated bytes"
	case 17:
		return wrap("ATTENDEE;DELEGATED-TO=" + strings.Repeat("\"mailto:a@b\",", n/4) + "\"x\":mailto:c@d"), "long list in a param"
	case 18:
		return wrap("SUMMARY;LANGUAGE=\"" + strings.Repeat("x", n) + pick(g, []string{"\":x", ":x", "", "\""})), "long quoted param"
	default:
		return wrap("URL:" + strings.Repeat(pick(g, []string{"http://", "%41", "/", "[", "@", ":", "?"}), n)), "long address"
	}
}

// repeated is a text a number of times.
type repeated struct {
	text  string
	times int
	pos   int
}

func (r *repeated) Read(p []byte) (int, error) {
	n := 0

	for r.times > 0 && n < len(p) {
		m := copy(p[n:], r.text[r.pos:])
		n += m

		if r.pos += m; r.pos == len(r.text) {
			r.pos = 0
			r.times--
		}
	}

	if n == 0 {
		return 0, io.EOF
	}

	return n, nil
}

// deep decodes components nested so deeply that a stack cannot follow them.
func (w *work) deep(kind int) {
	const depth = 8000000

	text := event("@")
	name := "X"

	if kind >= 2 {
		text = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\n@\r\nEND:VCALENDAR\r\n"
		name = "VALARM"
	}

	head, tail, _ := strings.Cut(text, "@\r\n")
	what := fmt.Sprintf("%s nested %d times, %d", name, depth, kind)
	readers := []io.Reader{strings.NewReader(head), &repeated{text: "BEGIN:X\r\n", times: 1}, &repeated{text: "BEGIN:" + name + "\r\n", times: depth}}

	if kind%2 == 0 {
		readers = append(readers, &repeated{text: "END:" + name + "\r\n", times: depth}, strings.NewReader("END:X\r\n"), strings.NewReader(tail))
	}

	if _, _, err := w.result(what, io.MultiReader(readers...)); err == nil {
		w.count("accepted: deeply nested", 1)
	} else {
		w.count("refused: deeply nested", 1)
	}

	w.eval(what)
	w.sample(what)
}

// shorts take the place of parts of values.
var shorts = []string{"", "+", "-", "0", "1", "9", "+1", "-1", "12", "00", "P", "-P", "PT", "P1", "T", "Z", "1Z", "MO", "1M", "X", "\\", "^", "\"", "%", "=", ";", ",", ":", "/", " ", "\t", "é", "\xff", "99999999999999999999", "-99999999999999999999"}

// pieces decodes texts in which one part of a property is something short.
func (w *work) pieces() {
	g := w.g
	m, p := w.comboProp(pick(g, combos))

	var value string

	s := randomStyle(w)
	s.hook = func(q *Prop, qs []string, text string) ([]string, string) {
		if q != p {
			return qs, text
		}

		value = ":" + text

		if len(qs) > 0 {
			value = ";" + strings.Join(qs, ";") + value
		}

		return nil, "@@@"
	}

	text := strings.ReplaceAll(strings.ReplaceAll(s.text(m), "\r\n ", ""), "\r\n\t", "")
	head, tail, ok := strings.Cut(text, ":@@@")

	if !ok || len(value) > 2000 {
		return
	}

	// where the parts start and end
	var at []int

	for i := 0; i <= len(value); i++ {
		if i == len(value) || strings.IndexByte(":;,=/\"T+-", value[i]) >= 0 {
			at = append(at, i)
		}
	}

	for n := 0; n+1 < len(at); n++ {
		if len(at) > 30 && g.n(len(at)) > 30 {
			continue
		}

		for _, short := range shorts {
			text := head + value[:at[n]+1] + short + value[at[n+1]:] + tail

			if g.n(6) == 0 { // nothing after it
				text = head + value[:at[n]+1] + short + tail
			}

			w.attach("input", []byte(text))

			if _, cal, err := w.result("an input", strings.NewReader(text)); err == nil {
				w.count("accepted: part of a value replaced", 1)
				ics.Encode(io.Discard, cal)
			} else {
				w.count("refused: part of a value replaced", 1)
			}

			w.eval(text)
		}
	}
}

// stuck gives empty reads for ever, after its data.
type stuck struct {
	data  string
	reads int
}

func (s *stuck) Read(p []byte) (int, error) {
	n := copy(p, s.data)
	s.data = s.data[n:]
	s.reads++

	return n, nil
}

func init() {
	register(&check{
		id: "C08", level: "exploration", quick: 120000, thorough: 3000000,
		rule: "each case is an input (mutated calendar texts, soups of fragments, random bytes, nested, long and repeated content) that is decoded twice, by different readers; distinct by the input",
		run: func(w *work) {
			g := w.g

			if w.idx/shards == 1 && w.idx%shards < 4 {
				w.deep(w.idx % shards)

				return
			}

			var text, kind string

			if w.idx/shards%32 == 3 {
				w.pieces()

				return
			}

			switch i := w.idx / shards % 64; {
			case i == 0 && (w.idx/shards/64)%2 == 0:
				text, kind = w.huge()
			case i < 8:
				text, kind = g.soup(), "soup of fragments"
			case i < 10:
				b := make([]byte, g.n(300))

				for i := range b {
					b[i] = byte(w.r.Uint32())
				}

				text, kind = string(b), "random bytes"

				if g.n(2) == 0 {
					text = "BEGIN:VCALENDAR\r\n" + text
				}
			case i < 14:
				m := w.brokenModel()

				if b := g.breakText(m, randomStyle(w)); b != nil {
					text, kind = g.mutate(b.text), "mutated broken calendar"

					break
				}

				fallthrough
			default:
				m := w.brokenModel()
				s := randomStyle(w)
				kind = "mutated calendar"

				if g.n(2) == 0 {
					s = &style{}
				}

				text = s.text(m)

				if g.n(4) == 0 {
					text = randomFold(w.r, text, 0.01)
				}

				text = g.mutate(text)
			}

			w.attach("input", []byte(text))

			first, cal, err := w.result("an input", strings.NewReader(text))
			src, how := newSource(w.r, text)
			w.attach("reader", []byte(how))

			second, _, err2 := w.result("an input", src)
			w.same("an input the second time ("+how+")", first, second, err2)

			if err == nil {
				w.count("accepted: "+kind, 1)

				var b bytes.Buffer

				if ics.Encode(&b, cal) == nil {
					w.count("accepted and encoded again", 1)
				}
			} else {
				w.count("refused: "+kind, 1)
			}

			if src.reads > 4*len(text)+100*len(text)+1000 {
				w.fail("Decode read %d times", src.reads)
			}

			w.count("bytes", len(text))

			// readers that give nothing, for ever
			if w.idx/shards%32 == 5 {
				i := g.n(len(text) + 1)
				s := &stuck{data: text[:i]}

				if _, err := ics.Decode(s); err == nil {
					w.count("complete before the reader is stuck", 1)
				} else if errors.Is(err, io.ErrNoProgress) {
					w.count("reader without progress reported", 1)
				}
			}

			w.eval(text)
			w.sample(fmt.Sprintf("%s: %s", kind, text))
		},
	})
}
