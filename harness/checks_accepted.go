package main

import (
	"bytes"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"vimagination.zapto.org/ics"
)

// hasZero tells whether a time is the zero time, which means that there is none.
func hasZero(cal *ics.Calendar) bool {
	for _, s := range typeSites(cal, timeType) {
		if s.v.Interface().(time.Time).IsZero() && !strings.HasSuffix(s.path, ".Until") && !strings.HasSuffix(s.path, ".Period.End.Time") {
			return true
		}
	}

	return false
}

var dateLike = regexp.MustCompile(`\d{8}(T\d{6})?`)

// tweak changes a value or a param somewhere in the text.
func (g *gen) tweak(text string) string {
	ls := strings.SplitAfter(text, "\r\n")
	i := g.n(len(ls))

	name, rest, ok := strings.Cut(strings.TrimSuffix(ls[i], "\r\n"), ":")
	if up := strings.ToUpper(name); !ok || up == "BEGIN" || up == "END" {
		return text
	}

	switch g.n(10) {
	case 6:
		rest = dateLike.ReplaceAllStringFunc(rest, func(s string) string {
			return pick(g, []string{"0000", "0001", "9999", "2000"}) + pick(g, []string{"0101", "1231", "0228", "0229", "1231"}) + pick(g, []string{"T000000", "T235959", "T120000", "T235960"})[:len(s)-8]
		})
	case 7:
		rest = ""

		for n := 1 + g.n(12); n > 0; n-- {
			rest += pick(g, []string{"a", "z", "é", "/", "/", ":", "@", "?", "#", "%2F", "%2f", "%20", "%41", "%zz", "%", " ", "+", ".", "..", "!", "*", "[", "]", "\\", "\"", "'", "^", "|", "mailto:", "http://", "HTTP://", "80", "=", "&", ";", ","})
		}
	case 8, 9:
		for i := 1 + g.n(2); i > 0; i-- {
			at := strings.IndexByte(name, '=') + 1
			name = name[:at] + g.insert(name[at:], pick(g, []string{"^n", "^'", "^^", "^", "^N", "^^n", "/", "%2F", "%", " ", "\t", "é", "\\n", "\\", "=", "'"}))
		}
	case 0, 1, 2:
		rest = g.edit(rest)
	case 3:
		name, params, _ := strings.Cut(name, ";")
		ls[i] = name + ";" + g.edit(params) + ":" + rest + "\r\n"

		return strings.Join(ls, "")
	case 4:
		rest += pick(g, fragments)
	case 5:
		name += ";" + pick(g, append(sortedNames(params), "VALUE", "TZID", "X-A")) + "=" + pick(g, oddValues)
	}

	ls[i] = name + ":" + rest + "\r\n"

	return strings.Join(ls, "")
}

func init() {
	register(&check{
		id: "C21", level: "exploration", quick: 48000, thorough: 1000000,
		rule: "each case is a calendar text and changed versions of it, made by random edits that the decoder accepts; non-trivial are accepted texts of UTF-8 without the time 0001-01-01T00:00:00Z, distinct by the text",
		run: func(w *work) {
			g := w.g
			m := w.brokenModel()
			s := randomStyle(w)

			if g.n(2) == 0 {
				s = &style{}
			}

			plain := s.text(m)
			base := plain

			for n := 0; n < 12; n++ {
				text := base

				k := 1 + g.n(2)

				if g.n(4) == 0 { // should be refused, but that is not the question here
					if b := g.breakText(m.clone(), s); b != nil && utf8.ValidString(b.text) {
						text, k = b.text, 0
						w.count("texts with a broken rule", 1)
					}
				}

				for ; k > 0; k-- {
					next := g.tweak(text)

					if g.n(3) == 0 {
						next = g.mutate(text)
					}

					if utf8.ValidString(next) {
						text = next
					}
				}

				if g.n(4) == 0 {
					base = text
				}

				cal, err := decodeText(text)
				if err != nil {
					w.count("refused", 1)
					base = plain

					continue
				}

				if hasZero(cal) {
					w.count("times that are zero", 1)

					continue
				}

				w.attach("text", []byte(text))

				want := read(cal).canon()

				b, err := encode(cal)
				if err != nil {
					w.fail("Encode refuses a calendar that Decode gave: %s", err)
				}

				w.attach("encoded", b)

				ref, err := refParse(b)
				if err != nil {
					w.fail("the output for a calendar that Decode gave is not a valid calendar text: %s", err)
				}

				w.expect("the output does not say what the calendar that Decode gave does", want, ref.canon())

				again, err := decodeText(string(b))
				if err != nil {
					w.fail("Decode refuses the output for a calendar that Decode gave: %s", err)
				}

				w.expect("a calendar that Decode gave changes when encoded and decoded", want, read(again).canon())

				b2, err := encode(again)
				if err != nil {
					w.fail("Encode refuses a calendar decoded from its output: %s", err)
				} else if !bytes.Equal(b, b2) {
					w.attach("encoded again", b2)
					w.fail("a calendar that Decode gave is encoded differently the second time: %s", diff(string(b), string(b2)))
				}

				w.count("accepted", 1)

				if strings.Contains(text, "BEGIN:VALARM") {
					w.count("accepted with alarms", 1)
				}

				w.eval(text)
				w.sample(text)
			}
		},
	})
}
