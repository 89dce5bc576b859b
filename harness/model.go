package main

// The model: a description of a calendar that does not depend on the package
// under test. Cases are generated as models, and everything that is observed (a
// calendar returned by Decode, bytes written by Encode) is turned into a model,
// so that both can be compared.

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Kind is the kind of a property value.
type Kind uint8

const (
	KText Kind = iota
	KMText
	KDateTime
	KDate
	KDuration
	KPeriod
	KRecur
	KInteger
	KFloats
	KBoolean
	KOffset
	KURI
	KAddress
	KBinary
	KEnum
)

var kindNames = [...]string{"text", "texts", "datetime", "date", "duration", "period", "recur", "integer", "floats", "boolean", "offset", "uri", "address", "binary", "enum"}

// valueNames are the names of kinds in the VALUE param.
var valueNames = map[Kind]string{
	KText: "TEXT", KMText: "TEXT", KDateTime: "DATE-TIME", KDate: "DATE", KDuration: "DURATION", KPeriod: "PERIOD",
	KRecur: "RECUR", KInteger: "INTEGER", KFloats: "FLOAT", KBoolean: "BOOLEAN", KOffset: "UTC-OFFSET", KURI: "URI",
	KAddress: "CAL-ADDRESS", KBinary: "BINARY",
}

// Dur is a duration.
type Dur struct {
	Neg           bool
	W, D, H, M, S uint
}

func (d Dur) canon() string {
	if d.D != 0 || d.H != 0 || d.M != 0 || d.S != 0 {
		d.D += 7 * d.W
		d.W = 0
	}

	return fmt.Sprintf("neg=%t %dW %dD %dH %dM %dS", d.Neg, d.W, d.D, d.H, d.M, d.S)
}

// DayNum is a BYDAY value.
type DayNum struct {
	N   int
	Day string
}

// Rule is a recurrence rule.
type Rule struct {
	Freq       string
	Until      *time.Time
	UntilTime  bool
	Count      uint64
	Interval   uint64
	BySecond   []int
	ByMinute   []int
	ByHour     []int
	ByDay      []DayNum
	ByMonthDay []int
	ByYearDay  []int
	ByWeekNo   []int
	ByMonth    []int
	BySetPos   []int
	WkSt       string
}

func (r *Rule) canon() string {
	var sb strings.Builder

	fmt.Fprintf(&sb, "freq=%s", r.Freq)

	if r.Until != nil {
		if r.UntilTime {
			fmt.Fprintf(&sb, " until=%s", canonTime(*r.Until))
		} else {
			fmt.Fprintf(&sb, " until=%s", canonDate(*r.Until))
		}
	}

	if r.Count != 0 {
		fmt.Fprintf(&sb, " count=%d", r.Count)
	}

	if r.Interval != 0 {
		fmt.Fprintf(&sb, " interval=%d", r.Interval)
	}

	for _, l := range []struct {
		name string
		l    []int
	}{
		{"bysecond", r.BySecond}, {"byminute", r.ByMinute}, {"byhour", r.ByHour}, {"bymonthday", r.ByMonthDay},
		{"byyearday", r.ByYearDay}, {"byweekno", r.ByWeekNo}, {"bymonth", r.ByMonth}, {"bysetpos", r.BySetPos},
	} {
		if len(l.l) > 0 {
			fmt.Fprintf(&sb, " %s=%v", l.name, l.l)
		}
	}

	if len(r.ByDay) > 0 {
		fmt.Fprintf(&sb, " byday=%v", r.ByDay)
	}

	if r.WkSt != "" {
		fmt.Fprintf(&sb, " wkst=%s", r.WkSt)
	}

	return sb.String()
}

// Val is a property value.
type Val struct {
	Kind  Kind
	S     string    // text, uri, address, enum
	L     []string  // texts
	T     time.Time // datetime, date, start of period
	End   time.Time // end of period, zero if D is used
	D     Dur       // duration
	R     *Rule
	I     int64 // integer, offset in seconds
	F     [2]float64
	B     bool
	Bytes []byte
}

// canonTime gives the identity of a time as far as iCalendar can express it.
func canonTime(t time.Time) string {
	switch l := t.Location(); l {
	case time.UTC:
	case time.Local:
		return t.Format("2006-01-02T15:04:05") + " floating"
	default:
		if named, err := loadLocation(l.String()); err == nil && named != time.UTC && named != time.Local {
			y, mo, d := t.Date()
			h, mi, s := t.Clock()

			if time.Date(y, mo, d, h, mi, s, t.Nanosecond(), named).Equal(t) {
				_, off := t.Zone()

				return t.Format("2006-01-02T15:04:05") + " " + l.String() + " " + strconv.Itoa(off)
			}
		}
	}

	return t.UTC().Format("2006-01-02T15:04:05") + " UTC"
}

func canonDate(t time.Time) string {
	return t.Format("2006-01-02")
}

func canonPeriod(start, end time.Time, d Dur) string {
	if end.IsZero() {
		return canonTime(start) + " for " + d.canon()
	}

	s, e := canonTime(start), canonTime(end)

	if strings.HasSuffix(s, " UTC") != strings.HasSuffix(e, " UTC") {
		s, e = canonTime(start.UTC()), canonTime(end.UTC())
	}

	return s + " to " + e
}

func canonFloat(f float64) string {
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func (v *Val) canon() string {
	var s string

	switch v.Kind {
	case KText, KURI, KAddress:
		s = strconv.Quote(v.S)
	case KEnum:
		s = v.S
	case KMText:
		l := v.L
		if len(l) == 0 {
			l = []string{""}
		}

		s = fmt.Sprintf("%d%q", len(l), l)
	case KDateTime:
		s = canonTime(v.T)
	case KDate:
		s = canonDate(v.T)
	case KDuration:
		s = v.D.canon()
	case KPeriod:
		s = canonPeriod(v.T, v.End, v.D)
	case KRecur:
		s = v.R.canon()
	case KInteger, KOffset:
		s = strconv.FormatInt(v.I, 10)
	case KFloats:
		s = canonFloat(v.F[0]) + ";" + canonFloat(v.F[1])
	case KBoolean:
		s = strconv.FormatBool(v.B)
	case KBinary:
		s = base64.StdEncoding.EncodeToString(v.Bytes)
	}

	return kindNames[v.Kind] + " " + s
}

// Param is a property parameter, with unescaped values.
type Param struct {
	Name string
	Vals []string
}

// Prop is a property.
type Prop struct {
	Name   string
	Params []Param
	Val    Val
}

func (p *Prop) canon() string {
	var ps []string

	for _, pa := range p.Params {
		if s := pa.canon(); s != "" {
			ps = append(ps, s)
		}
	}

	sort.Strings(ps)

	return p.Name + " " + strings.Join(append(ps, p.Val.canon()), " ")
}

func (p *Param) canon() string {
	vs := p.Vals

	if def := params[p.Name]; def != nil {
		switch {
		case def.multiple:
			if len(vs) == 0 {
				return ""
			}
		case p.Name == "RSVP":
			if len(vs) == 1 && vs[0] == "FALSE" {
				return ""
			}
		case len(vs) == 1 && vs[0] == "":
			return ""
		}
	}

	return fmt.Sprintf("[%s=%q]", p.Name, vs)
}

// Comp is a component.
type Comp struct {
	Name  string // with the action for alarms, as in VALARM/AUDIO
	Props []Prop
	Subs  []*Comp
}

// canon writes out the component; properties and sub-components are grouped by
// name, as only the order within a name means anything.
func (c *Comp) canon() string {
	var sb strings.Builder

	c.canonTo(&sb, "")

	return sb.String()
}

func (c *Comp) canonTo(sb *strings.Builder, indent string) {
	sb.WriteString(indent)
	sb.WriteString(c.Name)
	sb.WriteByte('\n')

	indent += " "

	idx := make([]int, len(c.Props))
	for i := range idx {
		idx[i] = i
	}

	sort.SliceStable(idx, func(i, j int) bool { return c.Props[idx[i]].Name < c.Props[idx[j]].Name })

	for _, i := range idx {
		sb.WriteString(indent)
		sb.WriteString(c.Props[i].canon())
		sb.WriteByte('\n')
	}

	sidx := make([]int, len(c.Subs))
	for i := range sidx {
		sidx[i] = i
	}

	group := func(c *Comp) string { // all alarms are one list
		n, _, _ := strings.Cut(c.Name, "/")

		return n
	}

	sort.SliceStable(sidx, func(i, j int) bool { return group(c.Subs[sidx[i]]) < group(c.Subs[sidx[j]]) })

	for _, i := range sidx {
		c.Subs[i].canonTo(sb, indent)
	}
}

// count gives the number of components and properties.
func (c *Comp) count() (comps, props int) {
	comps, props = 1, len(c.Props)

	for _, s := range c.Subs {
		a, b := s.count()
		comps += a
		props += b
	}

	return comps, props
}

// walk calls f for the component and all below it.
func (c *Comp) walk(f func(c, parent *Comp)) {
	f(c, nil)
	c.walkSubs(f)
}

func (c *Comp) walkSubs(f func(c, parent *Comp)) {
	for _, s := range c.Subs {
		f(s, c)
		s.walkSubs(f)
	}
}

func (c *Comp) clone() *Comp {
	n := &Comp{Name: c.Name, Props: append([]Prop(nil), c.Props...)}

	for i := range n.Props {
		n.Props[i].Params = append([]Param(nil), n.Props[i].Params...)
	}

	for _, s := range c.Subs {
		n.Subs = append(n.Subs, s.clone())
	}

	return n
}

// diff describes the first difference of two canonical forms.
func diff(want, got string) string {
	if want == got {
		return ""
	}

	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")

	for i := 0; i < len(w) || i < len(g); i++ {
		var a, b string

		if i < len(w) {
			a = w[i]
		} else {
			a = "<end>"
		}

		if i < len(g) {
			b = g[i]
		} else {
			b = "<end>"
		}

		if a != b {
			return fmt.Sprintf("line %d: want %s, got %s", i+1, clip(a, 600), clip(b, 600))
		}
	}

	return "different"
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}

	return s[:n/2] + fmt.Sprintf("...(%d bytes)...", len(s)) + s[len(s)-n/2:]
}

var locations = map[string]*time.Location{}

// loadLocation is time.LoadLocation with a cache; it must not be used by more
// than one goroutine at a time.
func loadLocation(name string) (*time.Location, error) {
	if l, ok := locations[name]; ok {
		if l == nil {
			return nil, fmt.Errorf("unknown location %q", name)
		}

		return l, nil
	}

	l, err := time.LoadLocation(name)
	if err != nil {
		l = nil
	}

	locations[name] = l

	return l, err
}
