package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"vimagination.zapto.org/ics"
)

// brokenModel makes the calendar whose text is to be broken.
func (w *work) brokenModel() *Comp {
	m := w.model()
	rfcTimes(m)

	return m
}

func init() {
	register(&check{
		id: "C10", level: "exploration", quick: 96000, thorough: 1500000,
		rule: "each case is a generated valid calendar text, which has to be accepted, and versions of it with one rule broken at a random place, which have to be refused; distinct by the text",
		run: func(w *work) {
			m := w.brokenModel()
			w.mustDecode("a valid text", plain(m))
			w.count("valid texts accepted", 1)
			w.observe(m)

			refuse := func(b *breakage) {
				text := b.text

				if w.r.IntN(8) == 0 && !strings.HasPrefix(b.label, "malformed line") {
					text = randomFold(w.r, text, 0.02)
				}

				cal, err := decodeText(text)

				if err == nil || cal != nil {
					w.attach("text", []byte(text))
					w.attach("broken rule", []byte(b.label))

					if err == nil {
						w.fail("Decode accepts a text with %s", b.label)
					}

					w.fail("Decode gives a calendar with the error for a text with %s", b.label)
				}

				w.count("refused: "+breakClass(b.label), 1)
				w.eval(text)
				w.sample(b.label + ": " + err.Error())
			}

			if co, ok := w.combo(); ok && w.r.IntN(4) == 0 {
				var p *Prop

				m, p = w.comboProp(co)
				w.g.sweep(m, p, co.comp, &style{r: w.r}, refuse)
				w.count("properties with all listed breakages", 1)
			}

			for i := 0; i < 8; i++ {
				s := randomStyle(w)

				if w.r.IntN(2) == 0 {
					s = &style{r: w.r}
				}

				if b := w.g.breakText(m.clone(), s); b != nil {
					refuse(b)
				}
			}
		},
		probes: refuseProbes,
	})
}

// breakClass is the kind of a breakage.
func breakClass(label string) string {
	f := strings.Fields(label)

	switch f[0] {
	case "malformed":
		return "malformed line"
	case "bad", "missing", "repeated", "unquoted":
		if f[0] == "repeated" && f[1] == "param" {
			return "repeated param"
		} else if f[0] == "bad" {
			return fmt.Sprintf("bad %s", f[1])
		}

		return f[0] + " " + f[1]
	}

	if i := strings.Index(label, " of "); i > 0 {
		label = label[:i]
	}

	if i := strings.Index(label, " in "); i > 0 {
		label = label[:i]
	}

	return label
}

// result decodes, and checks that there is either a calendar or an error.
func (w *work) result(what string, r io.Reader) (string, *ics.Calendar, error) {
	cal, err := ics.Decode(r)

	switch {
	case err == nil && cal == nil:
		w.fail("Decode gives neither a calendar nor an error for %s", what)
	case err != nil && cal != nil:
		w.fail("Decode gives both a calendar and an error for %s", what)
	case err != nil:
		return "", nil, err
	}

	return read(cal).canon(), cal, nil
}

// same compares two outcomes.
func (w *work) same(what, want, got string, err error) {
	if want == got {
		return
	}

	switch {
	case want == "":
		w.attach("got", []byte(got))
		w.fail("Decode accepts %s, and refuses the text itself", what)
	case got == "":
		w.fail("Decode refuses %s, and accepts the text itself: %s", what, err)
	default:
		w.expect("Decode gives another calendar for "+what, want, got)
	}
}

func init() {
	register(&check{
		id: "C07", level: "exploration", quick: 4800, thorough: 120000,
		rule: "each case is a text, valid or with one rule broken, and versions of it that are folded (at every position in turn, or at random) or delivered by other readers; non-trivial are versions that differ from the text or its delivery, distinct by the folded text and the reader",
		run: func(w *work) {
			m := w.brokenModel()
			s := randomStyle(w)
			text := s.text(m)
			valid := true

			if w.r.IntN(3) == 0 {
				s = &style{r: w.r}

				if b := w.g.breakText(m.clone(), s); b != nil {
					text, valid = b.text, false
				}
			}

			if w.r.IntN(4) == 0 { // lines around buffer boundaries
				n := w.r.IntN(9000)
				i := strings.Index(text, "\r\n") + 2
				text = text[:i] + "X-PAD:" + strings.Repeat("é\r\n y,"[w.r.IntN(2)*2:], n/7) + strings.Repeat("x", n%7) + "\r\n" + text[i:]
			}

			w.attach("text", []byte(text))

			want, _, err := w.result("the text", strings.NewReader(text))

			if valid && err != nil {
				w.fail("Decode refuses a valid text: %s", err)
			}

			if err != nil {
				w.count("texts that are refused", 1)
			} else {
				w.count("texts that are accepted", 1)
			}

			try := func(what, folded string) {
				got, _, err := w.result(what, strings.NewReader(folded))

				if got != want {
					w.attach("folded", []byte(folded))
				}

				w.same(what, want, got, err)
				w.count("folded versions", 1)
				w.eval(folded)
			}

			if len(text) < 1500 && w.r.IntN(4) == 0 {
				// one fold, at every position
				f := []string{"\r\n ", "\r\n\t", "\r\n \r\n\t", "\r\n\t\r\n \r\n "}[w.r.IntN(4)]

				for i := 1; i < len(text); i++ {
					if folded := foldAt(text, func(p int) (string, bool) { return f, p == i }); folded != text {
						try(fmt.Sprintf("the text folded at %d", i), folded)
					}
				}

				w.count("texts folded at every position", 1)
			}

			for i := 0; i < 6; i++ {
				p := []float64{0.002, 0.02, 0.1, 0.3, 0.7, 1}[i]
				folded := randomFold(w.r, text, p)
				try(fmt.Sprintf("the text with about %g%% folds", p*100), folded)

				// the same, by another reader
				r, how := newSource(w.r, folded)
				got, _, err := w.result("another reader", r)

				if got != want {
					w.attach("folded", []byte(folded))
					w.attach("reader", []byte(how))
				}

				w.same("the folded text from a reader ("+how+")", want, got, err)
				w.count("reader: "+how, 1)
				w.count("reads", r.reads)
				w.eval(how + folded)
			}

			// lines of a fixed length
			n := 1 + w.r.IntN(80)
			last := 0
			try(fmt.Sprintf("the text with lines of %d", n), foldAt(text, func(p int) (string, bool) {
				if i := strings.LastIndexByte(text[:p], '\n') + 1; i > last {
					last = i
				}

				if p-last < n {
					return "", false
				}

				last = p

				return "\r\n ", true
			}))

			// very long folds
			if w.r.IntN(16) == 0 && len(text) > 10 {
				at, n := 1+w.r.IntN(len(text)-1), 1+w.r.IntN(5000)
				try(fmt.Sprintf("the text with %d folds at %d", n, at), foldAt(text, func(p int) (string, bool) {
					return strings.Repeat("\r\n"+string(" \t"[n%2]), n), p == at
				}))
			}

			for i := 0; i < 4; i++ {
				r, how := newSource(w.r, text)
				got, _, err := w.result("another reader", r)
				w.attach("reader", []byte(how))
				w.same("the text from a reader ("+how+")", want, got, err)
				w.count("reader: "+how, 1)
				w.count("reads", r.reads)
				w.eval(how + text)
			}

			w.sample(randomFold(w.r, text, 0.05))
		},
	})

	register(&check{
		id: "C09", level: "fault_enumeration", quick: 1120, thorough: 24000,
		rule: "each case is a valid text, cut off and read with a failing reader at each offset before its end (each one for texts of up to 2000 bytes, else 300 of them); distinct by the text up to the offset and the kind of fault",
		run: func(w *work) {
			m := w.brokenModel()
			s := randomStyle(w)
			s.noEOL = 0
			text := s.text(m)

			if w.r.IntN(3) == 0 {
				text = plain(m)
			}

			// the last character of the calendar
			end := len(text) - len("\r\n")
			tail := text[end:]

			if w.r.IntN(3) == 0 {
				text = randomFold(w.r, text[:end], 0.03)
				end = len(text)
				text += tail
			}

			if w.r.IntN(8) == 0 {
				n := 4000 + w.r.IntN(200)
				i := strings.Index(text, "\r\n") + 2
				pad := "X-PAD:" + strings.Repeat("x", max(0, n-i)) + "\r\n"

				for text[i] == ' ' || text[i] == '\t' {
					i += strings.Index(text[i:], "\r\n") + 2
				}

				text = text[:i] + pad + text[i:]
				end += len(pad)
			}

			w.attach("text", []byte(text))
			want, _, err := w.result("the text", strings.NewReader(text))

			if err != nil {
				w.fail("Decode refuses a valid text: %s", err)
			}

			step := 1

			if end > 2000 {
				step = 1 + end/300
			}

			at := 0

			judge := func(what string, src *source) error {
				defer func() {
					if e := recover(); e != nil {
						w.attach("offset", []byte(fmt.Sprint(at)))
						panic(e)
					}
				}()

				cal, err := ics.Decode(src)

				if err == nil {
					w.fail("Decode takes %s at %d of %d for a calendar", what, at, end)
				} else if cal != nil {
					w.fail("Decode gives a calendar as well as an error for %s at %d of %d", what, at, end)
				}

				w.count(what, 1)
				w.eval(what + text[:at])

				return err
			}

			for ; at < end; at += step {
				if step > 1 && w.r.IntN(2) == 0 && at > 0 {
					at = min(at+w.r.IntN(step), end-1)
				}

				judge("input that ends", &source{data: text[:at], withLast: at%2 == 0})

				if src, _ := newSource(w.r, text[:at]); w.r.IntN(4) == 0 {
					judge("input that ends, from an odd reader,", src)
				}

				fail := readErrors[w.r.IntN(len(readErrors))]
				src := &source{data: text[:at], fail: fail, withLast: w.r.IntN(2) == 0}
				what := "input of a failing reader"

				if w.r.IntN(3) == 0 {
					src, _ = newSource(w.r, text[:at])
					src.fail = fail
					what = "input of an odd failing reader"
				}

				if w.r.IntN(2) == 0 {
					src.more = text[at:]
					what += " that carries on"
				}

				if err := judge(what, src); !errors.Is(err, fail) {
					w.attach("offset", []byte(fmt.Sprint(at)))
					w.fail("Decode gives another error than that of the reader (%v) for %s at %d of %d: %s", fail, what, at, end, err)
				}
			}

			// from the end of the calendar on nothing is missing
			got, _, err := w.result("the text without its line break", strings.NewReader(text[:end]))
			w.same("the text without its line break", want, got, err)
			w.count("texts", 1)
			w.count("bytes of texts", len(text))
			w.sample(text)
		},
	})
}
