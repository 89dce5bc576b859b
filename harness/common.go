package main

import (
	"bytes"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

// encode gives the output of Encode.
func encode(cal *ics.Calendar) ([]byte, error) {
	var b bytes.Buffer

	err := ics.Encode(&b, cal)

	return b.Bytes(), err
}

func decodeText(text string) (*ics.Calendar, error) {
	return ics.Decode(strings.NewReader(text))
}

// mustEncode encodes a calendar which is valid.
func (w *work) mustEncode(cal *ics.Calendar) []byte {
	b, err := encode(cal)
	if err != nil {
		w.fail("Encode refuses a valid calendar: %s", err)
	}

	return b
}

// mustDecode decodes a text which is valid.
func (w *work) mustDecode(what, text string) *Comp {
	cal, err := decodeText(text)
	if err != nil {
		w.attach("text", []byte(text))
		w.fail("Decode refuses %s: %s", what, err)
	} else if cal == nil {
		w.attach("text", []byte(text))
		w.fail("Decode gives neither a calendar nor an error for %s", what)
	}

	return read(cal)
}

// expect compares with the canonical form of a model.
func (w *work) expect(what, want, got string) {
	if d := diff(want, got); d != "" {
		w.attach("want", []byte(want))
		w.attach("got", []byte(got))
		w.fail("%s: %s", what, d)
	}
}

type combo struct {
	comp, prop string
	kind       Kind
}

// combos are all properties, with each form of their values, in all components.
var combos []combo

func initCombos() {
	for _, cn := range sortedNames(comps) {
		for _, u := range comps[cn].props {
			for _, k := range props[u.name].kinds {
				combos = append(combos, combo{cn, u.name, k})
			}
		}
	}
}

// withCombo makes a calendar around one property.
func (g *gen) withCombo(co combo) (*Comp, *Comp) {
	cal, c := g.skeleton(co.comp)
	use := comps[co.comp].use(co.prop)
	n := 1

	if use.multiple {
		n = 1 + g.n(4)
	}

	c.remove(co.prop)

	d := g.density
	g.density = []float64{0, 0.5, 1}[g.n(3)]

	for ; n > 0; n-- {
		c.Props = append(c.Props, g.propOf(co.prop, co.kind))
	}

	g.density = d

	switch co.comp {
	case "VTODO":
		if co.prop == "DURATION" {
			c.Props = append(c.Props, g.prop("DTSTART"))
		}
	}

	if strings.HasPrefix(co.comp, "VALARM/") {
		switch co.prop {
		case "DURATION":
			c.Props = append(c.Props, g.prop("REPEAT"))
		case "REPEAT":
			c.Props = append(c.Props, g.prop("DURATION"))
		case "GEO-LOCATION":
			c.Props = append(c.Props, g.prop("PROXIMITY"))
		}
	}

	return cal, c
}

// combo is the property that the case is about, if it is about one.
func (w *work) combo() (combo, bool) {
	i := w.idx / shards

	return combos[(i/4*shards+w.idx%shards)%len(combos)], i%4 == 0
}

// comboProp makes a calendar around one property, and gives one of its uses.
func (w *work) comboProp(co combo) (*Comp, *Prop) {
	m, c := w.g.withCombo(co)
	rfcTimes(m)

	var ps []*Prop

	for i := range c.Props {
		if c.Props[i].Name == co.prop {
			ps = append(ps, &c.Props[i])
		}
	}

	return m, ps[w.r.IntN(len(ps))]
}

// model makes the calendar of a case: in turn one around each property, ones
// with everything in one component, and whole random ones.
func (w *work) model() *Comp {
	g := w.g

	switch i := w.idx / shards; i % 4 {
	case 0:
		co, _ := w.combo()
		w.count("systematic property cases", 1)

		if g.n(4) == 0 {
			g.maxText = 300
		}

		cal, _ := g.withCombo(co)

		return cal
	case 1:
		cal, c := g.skeleton(pick(g, sortedNames(comps)))
		g.density = 1
		full := g.comp(c.Name)
		*c = *full
		w.count("full component cases", 1)

		return cal
	case 2:
		g.density = g.r.Float64() * 0.7
		g.maxText = []int{5, 20, 60, 200}[g.n(4)]
		w.count("random calendar cases", 1)
		w.long()

		return g.calendar()
	default:
		g.density, g.maxSubs, g.maxList = 0.15, 5, 6
		w.count("calendars with many components", 1)
		w.long()

		return g.calendar()
	}
}

// everything makes a calendar with all components and properties.
func (w *work) everything() *Comp {
	g := w.g
	g.density, g.maxSubs, g.maxList, g.maxText = 1, 1, 2, 20

	return g.calendar()
}

// long makes some calendars have much more of something than most.
func (w *work) long() {
	g := w.g

	switch w.check.id {
	case "C07", "C08", "C09", "C12", "C13": // do much with each
		return
	}

	switch g.n(100) {
	case 0:
		g.density, g.maxText = 0.1, 6000
		w.count("calendars with long texts", 1)
	case 1:
		g.density, g.maxList = 0.2, 40
		w.count("calendars with long lists", 1)
	case 2:
		g.density, g.maxSubs = 0.05, 40
		w.count("calendars with a great many components", 1)
	}
}

// observe counts what a model consists of.
func (w *work) observe(c *Comp) {
	cs, ps := c.count()
	w.count("components", cs)
	w.count("properties", ps)

	n := 0

	c.walk(func(c, _ *Comp) {
		for i := range c.Props {
			n += len(c.Props[i].Params)
			w.counts["values: "+kindNames[c.Props[i].Val.Kind]]++
		}
	})

	w.count("params", n)
}

// rfcTimes makes all ends of rules UTC, local or a date, as in the RFC.
func rfcTimes(c *Comp) {
	c.walk(func(c, _ *Comp) {
		for i := range c.Props {
			if r := c.Props[i].Val.R; r != nil && r.Until != nil && r.UntilTime && r.Until.Location() != time.UTC && r.Until.Location() != time.Local {
				t := r.Until.UTC()
				r.Until = &t
			}
		}
	})
}

func init() { initDone = append(initDone, initCombos) }

var initDone []func()
