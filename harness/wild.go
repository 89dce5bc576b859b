package main

import (
	"fmt"
	"math"
	"net/url"
	"reflect"
	"time"

	"vimagination.zapto.org/ics"
)

// Wild calendars are ones in which something is any value that its type can
// have, whether or not it can be written.

func (g *gen) wildString() string {
	s := g.rawText(20)

	for n := g.n(3); n > 0; n-- {
		s = g.insert(s, pick(g, []string{"\r", "\n", "\r\n", "\x00", "\x7f", "\x1b", "\"", ";", ":", ",", "\\", "^", "%", " ", "\t", "/", "@", "[", "]", "#", "?", "&", "=", "\u0085", " ", "\r\n ", "\r\nEND:VEVENT\r\n", "%zz", "%2F", "%00"}))
	}

	return s
}

func (g *gen) wildURL() url.URL {
	part := func() string {
		switch g.n(4) {
		case 0:
			return g.wildString()
		case 1:
			return pick(g, []string{"a", "example.com", "//", "/", "a b", "[::1]", "[::1", "h:80", "h:x", "h:", ":", "x@y", "%", "%2F/", "%41", "é", "..", "a:b", "-", "1", "x%zzy"})
		}

		return ""
	}

	u := url.URL{Scheme: pick(g, []string{"", "http", "mailto", "HTTP", "1x", "a b", ":", "x-y", "x+y.z", "é", "javascript"}), Opaque: part(), Host: part(), Path: part(), RawQuery: part(), Fragment: part(), ForceQuery: g.n(8) == 0, OmitHost: g.n(8) == 0}

	switch g.n(6) {
	case 0:
		u.User = url.User(part())
	case 1:
		u.User = url.UserPassword(part(), part())
	}

	switch g.n(6) {
	case 0:
		u.RawPath = part()
	case 1:
		u.RawFragment = part()
	case 2:
		u.RawPath = u.Path
	}

	if g.n(2) == 0 {
		u.Opaque = ""
	}

	return u
}

func (g *gen) wildTime() time.Time {
	l := g.location()

	switch g.n(5) {
	case 0:
		l = g.exoticLocation()
	case 1:
		l = time.UTC
	case 2:
		l = time.FixedZone(pick(g, []string{"", "X", "UTC", "Europe/London", "Local", "a\r\nb", "a;b", "+01", "../x", "\""}), g.n(200000)-100000)
	}

	switch g.n(6) {
	case 0:
		return time.Time{}.In(l)
	case 1:
		return time.Unix(int64(g.r.Uint64()), int64(g.n(1e9))).In(l)
	case 2:
		return time.Date(pick(g, []int{-1, 0, 1, 2, 9998, 9999, 10000, 12345, 100000, -10000}), time.Month(1+g.n(14)), g.n(35), g.n(25), g.n(60), g.n(60), g.n(1e9), l)
	case 3:
		return time.Date(pick(g, []int{0, 1, 9999, 10000}), pick(g, []time.Month{1, 12}), pick(g, []int{1, 31}), g.n(24), g.n(60), g.n(60), 0, l)
	}

	return g.dateTime().Add(time.Duration(g.n(1e9)))
}

func (g *gen) wildBits() uint64 {
	switch g.n(5) {
	case 0:
		return uint64(g.n(70))
	case 3:
		return uint64(int64(g.n(800000) - 400000))
	case 1:
		return uint64(-int64(g.n(400)))
	case 2:
		return uint64(int64(1)<<g.n(64)) - uint64(g.n(2))
	}

	return g.r.Uint64() >> g.n(64)
}

// changeable tells whether this is a value to be changed, and whether there are
// others in it.
func changeable(v reflect.Value) (is, deeper bool) {
	switch v.Kind() {
	case reflect.Struct:
		return v.Type() == timeType || v.Type() == urlType, true
	case reflect.Pointer:
		return v.CanSet(), true
	case reflect.Interface:
		return false, true
	case reflect.Slice:
		return true, v.Type().Elem().Kind() != reflect.Uint8 || v.Type().Elem().PkgPath() != ""
	case reflect.Array:
		return true, false
	}

	return true, true
}

func anything(string, reflect.Value) bool {
	return true
}

// change gives one thing in the calendar some value of its type.
func (g *gen) change(cal *ics.Calendar, only func(path string, v reflect.Value) bool) string {
	sites := sitesOf(cal, func(path string, v reflect.Value) (bool, bool) {
		is, deeper := changeable(v)

		return is && only(path, v), deeper
	})

	if len(sites) == 0 {
		return ""
	}

	s := pick(g, sites)

	// every kind of value about as often
	for i := 0; i < 4; i++ {
		if o := pick(g, sites); g.n(2) == 0 && (s.v.Kind() == reflect.Pointer || s.v.Kind() == reflect.String || s.v.Kind() == reflect.Slice) {
			s = o
		}
	}

	switch v := s.v; v.Kind() {
	case reflect.Struct:
		if v.Type() == timeType {
			setTime(v, g.wildTime())
		} else {
			v.Set(reflect.ValueOf(g.wildURL()))
		}
	case reflect.Pointer:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		} else {
			v.SetZero()
		}
	case reflect.Slice:
		switch n := v.Len(); {
		case n == 0 || g.n(4) == 0:
			if v.Type().Elem() != reflect.TypeOf(ics.Alarm{}) {
				v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
			}
		case g.n(2) == 0:
			i := g.n(n)
			v.Set(reflect.AppendSlice(reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, n), v.Slice(0, i)), v.Slice(i+1, n)))
		default:
			v.Set(reflect.Append(v, v.Index(g.n(n))))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetFloat(pick(g, []float64{0, 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Float64frombits(g.r.Uint64()), g.float()}))
		}
	case reflect.String:
		v.SetString(g.wildString())
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.wildBits()) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.wildBits() << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	default:
		panic("harness: cannot change a " + v.Type().String())
	}

	return fmt.Sprintf("%s = %.200v", s.path, s.v.Interface())
}

// wild makes such a calendar of the given one, and encodes it. It gives nothing
// if it is refused.
func (w *work) wild(m *Comp, only func(string, reflect.Value) bool) (cal *ics.Calendar, out []byte) {
	cal = build(m)
	label := ""

	for n := 1 + w.g.n(2); n > 0; n-- {
		label += w.g.change(cal, only) + "\n"
	}

	w.attach("changed", []byte(label))

	b, err := encode(cal)
	if err != nil {
		w.count("changed calendars refused", 1)

		return nil, nil
	}

	w.count("changed calendars accepted", 1)
	w.attach("encoded", b)

	return cal, b
}

// wildWay makes such calendars, and reads those that are accepted.
func (w *work) wildWay(m *Comp, only func(string, reflect.Value) bool) {
	cal, b := w.wild(m, only)
	if cal == nil {
		return
	}

	ref, err := refParse(b)
	if err != nil {
		w.fail("the output is not a valid calendar text: %s", err)
	}

	m = read(cal)
	want := m.canon()
	w.expect("the output does not say what the calendar does", want, ref.canon())
	w.expect("the output is decoded as something else", normal(m).canon(), normal(w.mustDecode("the output of Encode", string(b))).canon())
	w.eval(want)
}

// normal gives addresses the form they have when they were parsed.
func normal(m *Comp) *Comp {
	parsed := func(s string) string {
		if u, err := url.Parse(s); err == nil {
			return u.String()
		}

		return s
	}

	m.walk(func(c, _ *Comp) {
		for i := range c.Props {
			p := &c.Props[i]

			if k := p.Val.Kind; k == KURI || k == KAddress {
				p.Val.S = parsed(p.Val.S)
			}

			for j := range p.Params {
				if params[p.Params[j].Name].uri {
					for n, s := range p.Params[j].Vals {
						p.Params[j].Vals[n] = parsed(s)
					}
				}
			}
		}
	})

	return m
}
