package main

import (
	"strings"
	"time"
)

const modelRule = "each case is a generated calendar (in turn: one around each property and value form of each component, one full component, random calendars); non-trivial are calendars with at least one property beyond the required ones; they are distinct by their canonical form"

// key is the canonical form of a calendar that is more than a skeleton.
func key(c *Comp, canon string) string {
	n := 0

	c.walk(func(c, _ *Comp) {
		for i := range c.Props {
			if u := comps[c.Name].use(c.Props[i].Name); u == nil || !u.required {
				n++
			}
		}
	})

	if n == 0 {
		return ""
	}

	return canon
}

// leapSeconds has some times written with the 60th second. They mean the last one
// of the minute, as the RFC says for those who do not know of leap seconds.
func leapSeconds(w *work, m *Comp, s *style) {
	m.walk(func(c, _ *Comp) {
		for i := range c.Props {
			if v := &c.Props[i].Val; v.Kind == KDateTime && v.T.Year() > 1972 && w.r.IntN(2) == 0 {
				if t := time.Date(v.T.Year(), v.T.Month(), v.T.Day(), v.T.Hour(), v.T.Minute(), 59, 0, v.T.Location()); unambiguous(t) {
					v.T = t
				}
			}
		}
	})

	s.hook = func(p *Prop, ps []string, text string) ([]string, string) {
		if t, utc := strings.CutSuffix(text, "Z"); p.Val.Kind == KDateTime && p.Val.T.Year() > 1972 && strings.HasSuffix(t, "59") && w.r.IntN(4) != 0 {
			text = t[:len(t)-2] + "60"

			if utc {
				text += "Z"
			}

			w.count("leap seconds", 1)
		}

		return ps, text
	}
}

func init() {
	register(&check{
		id: "C01", level: "exploration", quick: 72000, thorough: 600000, rule: modelRule,
		run: func(w *work) {
			w.g.exotic = w.r.IntN(2) == 0
			m := w.model()
			want := m.canon()
			w.attach("model", []byte(want))

			b := w.mustEncode(build(m))
			w.attach("encoded", b)

			got := w.mustDecode("the output of Encode", string(b))
			w.expect("decoded calendar differs from the encoded one", want, got.canon())
			w.observe(m)
			w.eval(key(m, want))
			w.sample(string(b))

			// calendars that come from Decode
			text := string(b)

			if w.r.IntN(2) == 0 {
				s := randomStyle(w)
				g := *w.g
				g.exotic = false
				m2 := g.calendar()
				text = s.text(m2)
			}

			cal, err := decodeText(text)
			if err != nil {
				w.attach("text", []byte(text))
				w.fail("Decode refuses a valid text: %s", err)
			}

			first := read(cal).canon()
			b2 := w.mustEncode(cal)
			w.attach("encoded", b2)

			again := w.mustDecode("the encoding of a decoded calendar", string(b2))
			w.expect("decoded calendar changes when encoded and decoded", first, again.canon())
			w.count("decoded calendars encoded again", 1)
			w.eval(first)

			// anything that is accepted
			for i := 0; i < 2; i++ {
				if cal, b := w.wild(w.model(), anything); cal != nil {
					want := normal(read(cal)).canon()
					w.expect("decoded calendar differs from the encoded one", want, normal(w.mustDecode("the output of Encode", string(b))).canon())
					w.eval(want)
				}
			}
		},
	})

	register(&check{
		id: "C02", level: "exploration", quick: 128000, thorough: 800000, rule: modelRule,
		run: func(w *work) {
			w.g.exotic = w.r.IntN(2) == 0
			m := w.model()
			want := m.canon()
			w.attach("model", []byte(want))

			b := w.mustEncode(build(m))
			w.attach("encoded", b)

			got, err := refParse(b)
			if err != nil {
				w.fail("the output is not a valid calendar text: %s", err)
			}

			w.expect("the output does not say what the calendar does", want, got.canon())
			w.observe(m)
			w.eval(key(m, want))
			w.sample(string(b))

			// anything that is accepted
			if cal, b := w.wild(w.model(), anything); cal != nil {
				got, err := refParse(b)
				if err != nil {
					w.fail("the output is not a valid calendar text: %s", err)
				}

				want := read(cal).canon()
				w.expect("the output does not say what the calendar does", want, got.canon())
				w.eval(want)
			}
		},
	})

	register(&check{
		id: "C05", level: "exploration", quick: 128000, thorough: 800000,
		rule: "each case is a generated calendar written as text by an independent writer in a random legal spelling; non-trivial are texts with at least one property beyond the required ones, distinct by the text",
		run: func(w *work) {
			m := w.model()
			rfcTimes(m)

			s := randomStyle(w)

			if w.r.IntN(4) == 0 {
				s = &style{r: w.r}
			}

			s.unknown = 0

			if w.r.IntN(8) == 0 {
				leapSeconds(w, m, s)
			}

			want := m.canon()
			text := s.text(m)
			w.attach("text", []byte(text))
			w.attach("model", []byte(want))
			w.expect("Decode understands something else than the text says", want, w.mustDecode("a valid text", text).canon())
			w.observe(m)

			if key(m, "x") != "" {
				w.eval(text)
			} else {
				w.eval("")
			}

			w.sample(text)
		},
		probes: decodeProbes,
	})

	register(&check{
		id: "C06", level: "exploration", quick: 32000, thorough: 400000,
		rule: "each case is a generated calendar text and several respellings of it; non-trivial are respellings that differ from the plain text, distinct by their text",
		run: func(w *work) {
			m := w.model()
			rfcTimes(m)

			text := plain(m)
			w.attach("plain", []byte(text))

			want := w.mustDecode("a valid text", text).canon()

			for i := 0; i < 8; i++ {
				s := &style{r: w.r}
				kinds := []*float64{&s.names, &s.values, &s.order, &s.pOrder, &s.quote, &s.explicit, &s.noEOL}
				labels := []string{"names", "values", "order", "param order", "quotes", "VALUE", "no last line break"}

				if i < len(kinds) {
					*kinds[i] = 1
					w.count("respelled: "+labels[i], 1)
				} else {
					for _, k := range kinds {
						*k = w.r.Float64()
					}

					w.count("respelled: everything", 1)
				}

				t := s.text(m)
				w.attach("respelled", []byte(t))
				w.expect("respelled text decodes to something else", want, w.mustDecode("a respelled text", t).canon())

				if t != text {
					w.eval(t)
				} else {
					w.eval("")
				}

				if i == 7 {
					w.sample(t)
				}
			}

			w.observe(m)
		},
	})

	register(&check{
		id: "C11", level: "exploration", quick: 32000, thorough: 400000,
		rule: "each case is a generated calendar text with unknown properties, params, components and trailing data added to it; distinct by the text",
		run: func(w *work) {
			m := w.model()
			rfcTimes(m)

			want := m.canon()

			for i := 0; i < 3; i++ {
				s := &style{r: w.r, unknown: []float64{0.1, 0.5, 1}[i]}

				if w.r.IntN(2) == 0 {
					s.names, s.order, s.values = 0.5, 0.5, 0.5
				}

				t := s.text(m)
				w.attach("text", []byte(t))
				w.expect("unknown content changes the calendar", want, w.mustDecode("a text with unknown content", t).canon())
				w.count("added bytes", len(t)-len(plain(m)))
				w.eval(t)
				w.sample(t)
			}

			t := plain(m) + w.trailing()
			w.attach("text", []byte(t))
			w.expect("data after the calendar changes it", want, w.mustDecode("a text followed by other data", t).canon())
			w.count("trailing data", 1)
			w.eval(t)
			w.observe(m)

			if w.idx%64 < shards { // very deep
				depth := 10 + w.r.IntN(3000)
				deep := strings.Repeat("BEGIN:X-DEEP\r\n", depth) + "DTSTART:x\r\n" + strings.Repeat("END:X-DEEP\r\n", depth)
				t := strings.Replace(plain(m), "BEGIN:VCALENDAR\r\n", "BEGIN:VCALENDAR\r\n"+deep, 1)
				w.expect("deep unknown components change the calendar", want, w.mustDecode("a text with deep unknown components", t).canon())
				w.count("deep unknown components", depth)
				w.eval(t)
			}
		},
	})
}

// trailing gives data that follows a calendar.
func (w *work) trailing() string {
	switch w.r.IntN(6) {
	case 0:
		return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:other\r\nBEGIN:VEVENT\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"
	case 1:
		return "BEGIN:VEVENT\r\nUID:1\r\nEND:VEVENT\r\n"
	case 2:
		return "END:VCALENDAR\r\n"
	case 3:
		return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\n"
	case 4:
		return strings.TrimLeft(w.g.rawText(200), " \t") // not a folded line
	default:
		return "\r\n\r\n"
	}
}

// randomStyle spells with some of everything, except unknown content.
func randomStyle(w *work) *style {
	f := func() float64 {
		if w.r.IntN(2) == 0 {
			return 0
		}

		return w.r.Float64()
	}

	return &style{r: w.r, names: f(), values: f(), order: f(), pOrder: f(), quote: f(), explicit: f(), spell: f(), noEOL: f()}
}
