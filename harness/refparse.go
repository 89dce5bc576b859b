package main

// The reference parser is an independent and strict reader of calendar texts,
// by the rules of RFC 5545, RFC 6868 and RFC 9074. It is used to judge what
// Encode writes.

import (
	"encoding/base64"
	"errors"
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

type contentLine struct {
	name   string
	params []refParam
	value  string
	num    int
}

type refParam struct {
	name   string
	vals   []string
	quoted []bool
}

// physical checks the physical lines, and gives the unfolded ones.
func physical(data []byte, checkUTF8 bool) ([]string, error) {
	text := string(data)

	if text == "" {
		return nil, errors.New("no output")
	} else if !strings.HasSuffix(text, "\r\n") {
		return nil, errors.New("output does not end with a line break")
	}

	var (
		lines []string
		line  strings.Builder
	)

	for i, l := range strings.Split(text[:len(text)-2], "\r\n") {
		if len(l) > 75 {
			return nil, fmt.Errorf("physical line %d has %d octets: %q", i+1, len(l), l)
		} else if len(l) == 0 {
			return nil, fmt.Errorf("physical line %d is empty", i+1)
		}

		for _, c := range []byte(l) {
			if c < 0x20 && c != '\t' || c == 0x7f {
				return nil, fmt.Errorf("physical line %d has control character 0x%02x: %q", i+1, c, l)
			}
		}

		if checkUTF8 && !utf8.ValidString(l) {
			return nil, fmt.Errorf("physical line %d is folded within a character, or not UTF-8: %q", i+1, l)
		}

		if l[0] == ' ' || l[0] == '\t' {
			if i == 0 {
				return nil, errors.New("output begins with a continuation")
			} else if len(l) == 1 {
				return nil, fmt.Errorf("physical line %d is an empty continuation", i+1)
			}

			line.WriteString(l[1:])
		} else {
			if i > 0 {
				lines = append(lines, line.String())
			}

			line.Reset()
			line.WriteString(l)
		}
	}

	return append(lines, line.String()), nil
}

func isNameChar(c byte) bool {
	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-'
}

func takeName(s string) (string, string) {
	i := 0

	for i < len(s) && isNameChar(s[i]) {
		i++
	}

	return s[:i], s[i:]
}

func parseContentLine(l string) (contentLine, error) {
	var cl contentLine

	bad := func(what string) (contentLine, error) {
		return cl, fmt.Errorf("content line with %s: %q", what, clip(l, 400))
	}

	name, rest := takeName(l)

	if name == "" {
		return bad("no name")
	}

	cl.name = strings.ToUpper(name)

	for strings.HasPrefix(rest, ";") {
		var p refParam

		p.name, rest = takeName(rest[1:])
		p.name = strings.ToUpper(p.name)

		if p.name == "" || !strings.HasPrefix(rest, "=") {
			return bad("a malformed param")
		}

		for {
			rest = rest[1:] // '=' or ','

			if strings.HasPrefix(rest, `"`) {
				end := strings.IndexByte(rest[1:], '"')

				if end < 0 {
					return bad("an unterminated quote")
				}

				p.vals = append(p.vals, rest[1:end+1])
				p.quoted = append(p.quoted, true)
				rest = rest[end+2:]
			} else {
				end := strings.IndexAny(rest, `";:,`)

				if end < 0 {
					return bad("no value")
				}

				p.vals = append(p.vals, rest[:end])
				p.quoted = append(p.quoted, false)
				rest = rest[end:]
			}

			if !strings.HasPrefix(rest, ",") {
				break
			}
		}

		cl.params = append(cl.params, p)
	}

	if !strings.HasPrefix(rest, ":") {
		return bad("unexpected characters before the value")
	}

	cl.value = rest[1:]

	return cl, nil
}

// unescape6868 decodes a param value; only the escapes of the RFC may occur.
func unescape6868(s string) (string, error) {
	var sb strings.Builder

	for i := 0; i < len(s); i++ {
		if s[i] != '^' {
			sb.WriteByte(s[i])

			continue
		}

		i++

		if i == len(s) {
			return "", fmt.Errorf("param value ends with ^: %q", s)
		}

		switch s[i] {
		case '^':
			sb.WriteByte('^')
		case 'n':
			sb.WriteByte('\n')
		case '\'':
			sb.WriteByte('"')
		default:
			return "", fmt.Errorf("param value with unknown escape: %q", s)
		}
	}

	return sb.String(), nil
}

func unescapeTexts(s string, multiple bool) ([]string, error) {
	var (
		sb strings.Builder
		l  []string
	)

	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\\':
			i++

			if i == len(s) {
				return nil, fmt.Errorf("text ends with a backslash: %q", clip(s, 400))
			}

			switch s[i] {
			case '\\', ';', ',':
				sb.WriteByte(s[i])
			case 'n', 'N':
				sb.WriteByte('\n')
			default:
				return nil, fmt.Errorf("text with unknown escape: %q", clip(s, 400))
			}
		case ';':
			return nil, fmt.Errorf("text with a semicolon: %q", clip(s, 400))
		case ',':
			if !multiple {
				return nil, fmt.Errorf("text with a comma: %q", clip(s, 400))
			}

			l = append(l, sb.String())
			sb.Reset()
		default:
			sb.WriteByte(c)
		}
	}

	return append(l, sb.String()), nil
}

func allDigits(s string) bool {
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return false
		}
	}

	return len(s) > 0
}

func num(s string) int {
	n, _ := strconv.Atoi(s)

	return n
}

func refDate(s string, l *time.Location) (time.Time, error) {
	if len(s) != 8 || !allDigits(s) {
		return time.Time{}, fmt.Errorf("bad date %q", s)
	}

	y, m, d := num(s[:4]), num(s[4:6]), num(s[6:])
	t := time.Date(y, time.Month(m), d, 0, 0, 0, 0, l)

	if t.Year() != y || int(t.Month()) != m || t.Day() != d {
		return t, fmt.Errorf("no such date %q", s)
	}

	return t, nil
}

func refDateTime(s, zone string, haveZone bool) (time.Time, error) {
	loc := time.Local

	if strings.HasSuffix(s, "Z") {
		if haveZone {
			return time.Time{}, fmt.Errorf("UTC time with a TZID: %q", s)
		}

		s, loc = s[:len(s)-1], time.UTC
	} else if haveZone {
		l, err := loadLocation(zone)
		if err != nil || zone == "" || l == time.Local {
			return time.Time{}, fmt.Errorf("TZID of an unknown zone: %q", zone)
		}

		loc = l
	}

	if len(s) != 15 || s[8] != 'T' || !allDigits(s[9:]) {
		return time.Time{}, fmt.Errorf("bad time %q", s)
	}

	t, err := refDate(s[:8], time.UTC)
	if err != nil {
		return t, err
	}

	h, m, sec := num(s[9:11]), num(s[11:13]), num(s[13:])

	if h > 23 || m > 59 || sec > 59 {
		return t, fmt.Errorf("no such time %q", s)
	}

	return time.Date(t.Year(), t.Month(), t.Day(), h, m, sec, 0, loc), nil
}

func refDur(s string) (Dur, error) {
	var d Dur

	in := s
	bad := func() (Dur, error) { return d, fmt.Errorf("bad duration %q", in) }

	if strings.HasPrefix(s, "-") {
		d.Neg = true
		s = s[1:]
	} else if strings.HasPrefix(s, "+") {
		s = s[1:]
	}

	if !strings.HasPrefix(s, "P") {
		return bad()
	}

	s = s[1:]

	unit := func(u byte, to *uint) bool {
		i := 0

		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}

		if i == 0 || i == len(s) || s[i] != u {
			return false
		}

		n, err := strconv.ParseUint(s[:i], 10, 64)
		if err != nil {
			return false
		}

		*to = uint(n)
		s = s[i+1:]

		return true
	}

	if unit('W', &d.W) {
		if s != "" {
			return bad()
		}

		return d, nil
	}

	day := unit('D', &d.D)

	if s == "" && day {
		return d, nil
	} else if !strings.HasPrefix(s, "T") {
		return bad()
	}

	s = s[1:]

	if unit('H', &d.H) {
		if unit('M', &d.M) {
			unit('S', &d.S)
		}
	} else if unit('M', &d.M) {
		unit('S', &d.S)
	} else if !unit('S', &d.S) {
		return bad()
	}

	if s != "" {
		return bad()
	}

	return d, nil
}

func refRule(s, zone string, haveZone bool) (*Rule, error) {
	r, seen := new(Rule), map[string]bool{}
	ints := func(v string, lo, hi int, sign, zero bool) ([]int, error) {
		var l []int

		for _, p := range strings.Split(v, ",") {
			q := p

			if sign {
				q = strings.TrimPrefix(strings.TrimPrefix(p, "-"), "+")

				if len(p)-len(q) > 1 {
					return nil, fmt.Errorf("bad number %q", p)
				}
			}

			if !allDigits(q) || len(q) > 3 {
				return nil, fmt.Errorf("bad number %q", p)
			}

			n := num(q)

			if p[0] == '-' {
				n = -n
			}

			if n < lo || n > hi || n == 0 && !zero {
				return nil, fmt.Errorf("number %q out of range", p)
			}

			l = append(l, n)
		}

		return l, nil
	}
	isDay := func(s string) bool {
		for _, d := range dayNames {
			if s == d {
				return true
			}
		}

		return false
	}

	for _, part := range strings.Split(s, ";") {
		name, v, ok := strings.Cut(part, "=")

		if !ok || seen[name] {
			return nil, fmt.Errorf("bad or repeated rule part %q", part)
		}

		seen[name] = true

		var err error

		switch name {
		case "FREQ":
			for _, f := range freqNames {
				if f == v {
					r.Freq = v
				}
			}

			if r.Freq == "" {
				err = errors.New("unknown frequency")
			}
		case "UNTIL":
			var t time.Time

			if len(v) > 8 {
				r.UntilTime = true
				t, err = refDateTime(v, zone, haveZone && !strings.HasSuffix(v, "Z"))
			} else {
				t, err = refDate(v, time.UTC)
			}

			r.Until = &t
		case "COUNT", "INTERVAL":
			var n uint64

			if !allDigits(v) {
				err = errors.New("not a number")
			} else if n, err = strconv.ParseUint(v, 10, 64); err == nil && n == 0 {
				err = errors.New("zero")
			}

			if name == "COUNT" {
				r.Count = n
			} else {
				r.Interval = n
			}
		case "BYSECOND":
			r.BySecond, err = ints(v, 0, 60, false, true)
		case "BYMINUTE":
			r.ByMinute, err = ints(v, 0, 59, false, true)
		case "BYHOUR":
			r.ByHour, err = ints(v, 0, 23, false, true)
		case "BYMONTHDAY":
			r.ByMonthDay, err = ints(v, -31, 31, true, false)
		case "BYYEARDAY":
			r.ByYearDay, err = ints(v, -366, 366, true, false)
		case "BYWEEKNO":
			r.ByWeekNo, err = ints(v, -53, 53, true, false)
		case "BYMONTH":
			r.ByMonth, err = ints(v, 1, 12, false, false)
		case "BYSETPOS":
			r.BySetPos, err = ints(v, -366, 366, true, false)
		case "BYDAY":
			for _, d := range strings.Split(v, ",") {
				if len(d) < 2 || !isDay(d[len(d)-2:]) {
					err = fmt.Errorf("bad day %q", d)

					break
				}

				dn := DayNum{Day: d[len(d)-2:]}

				if n := d[:len(d)-2]; n != "" {
					var l []int

					if l, err = ints(n, -53, 53, true, false); err != nil {
						break
					}

					dn.N = l[0]
				}

				r.ByDay = append(r.ByDay, dn)
			}
		case "WKST":
			if r.WkSt = v; !isDay(v) {
				err = errors.New("unknown day")
			}
		default:
			err = errors.New("unknown part")
		}

		if err != nil {
			return nil, fmt.Errorf("rule part %q: %w", part, err)
		}
	}

	if r.Freq == "" {
		return nil, errors.New("rule without a frequency")
	} else if r.Until != nil && r.Count != 0 {
		return nil, errors.New("rule with both COUNT and UNTIL")
	}

	return r, nil
}

func refFloat(s string) (float64, error) {
	q := strings.TrimPrefix(s, "-")

	if len(q) == len(s) {
		q = strings.TrimPrefix(s, "+")
	}

	a, b, frac := strings.Cut(q, ".")

	if !allDigits(a) || frac && !allDigits(b) {
		return 0, fmt.Errorf("bad float %q", s)
	}

	return strconv.ParseFloat(s, 64)
}

func refOffset(s string) (int64, error) {
	if len(s) != 5 && len(s) != 7 || s[0] != '+' && s[0] != '-' || !allDigits(s[1:]) {
		return 0, fmt.Errorf("bad offset %q", s)
	}

	h, m, sec := num(s[1:3]), num(s[3:5]), 0

	if len(s) == 7 {
		sec = num(s[5:])
	}

	o := int64(h*3600 + m*60 + sec)

	if m > 59 || sec > 59 || s[0] == '-' && o == 0 {
		return 0, fmt.Errorf("bad offset %q", s)
	}

	if s[0] == '-' {
		o = -o
	}

	return o, nil
}

func refValue(def *propDef, k Kind, s, zone string, haveZone bool, encoding string) (Val, error) {
	v := Val{Kind: k}

	var err error

	switch k {
	case KText:
		var l []string

		if l, err = unescapeTexts(s, false); err == nil {
			v.S = l[0]
		}
	case KMText:
		v.L, err = unescapeTexts(s, true)
	case KDateTime:
		v.T, err = refDateTime(s, zone, haveZone)
	case KDate:
		v.T, err = refDate(s, time.UTC)
	case KDuration:
		v.D, err = refDur(s)
	case KPeriod:
		a, b, ok := strings.Cut(s, "/")

		if !ok {
			err = fmt.Errorf("bad period %q", s)
		} else if v.T, err = refDateTime(a, zone, haveZone); err == nil {
			if strings.HasPrefix(b, "P") || strings.HasPrefix(b, "+P") {
				v.D, err = refDur(b)
			} else if v.End, err = refDateTime(b, zone, haveZone); err == nil && !v.End.After(v.T) {
				err = fmt.Errorf("period that does not end after its start: %q", s)
			} else if err == nil && strings.HasSuffix(a, "Z") != strings.HasSuffix(b, "Z") {
				err = fmt.Errorf("period with only one time in UTC: %q", s)
			}
		}
	case KRecur:
		v.R, err = refRule(s, zone, haveZone)
	case KInteger:
		q := strings.TrimPrefix(s, "-")

		if len(q) == len(s) {
			q = strings.TrimPrefix(s, "+")
		}

		if !allDigits(q) {
			err = fmt.Errorf("bad integer %q", s)
		} else {
			v.I, err = strconv.ParseInt(s, 10, 32)
		}
	case KFloats:
		a, b, ok := strings.Cut(s, ";")

		if !ok {
			err = fmt.Errorf("bad floats %q", s)
		} else if v.F[0], err = refFloat(a); err == nil {
			v.F[1], err = refFloat(b)
		}
	case KBoolean:
		switch s {
		case "TRUE":
			v.B = true
		case "FALSE":
		default:
			err = fmt.Errorf("bad boolean %q", s)
		}
	case KOffset:
		v.I, err = refOffset(s)
	case KURI, KAddress:
		v.S = s
		_, err = url.Parse(s)
	case KBinary:
		if encoding != "BASE64" {
			err = errors.New("binary without ENCODING=BASE64")
		} else {
			v.Bytes, err = base64.StdEncoding.Strict().DecodeString(s)
		}
	case KEnum:
		v.S = s

		if _, ok := def.enum[s]; !ok {
			err = fmt.Errorf("unknown value %q", s)
		}
	}

	return v, err
}

func refProp(name string, cl *contentLine) (Prop, error) {
	p, def := Prop{Name: name}, props[name]
	seen := map[string]bool{}
	kind := def.kinds[0]

	var (
		zone, encoding string
		haveZone       bool
	)

	for _, pa := range cl.params {
		if seen[pa.name] {
			return p, fmt.Errorf("param %s is repeated", pa.name)
		}

		seen[pa.name] = true

		vals := make([]string, len(pa.vals))

		for i, v := range pa.vals {
			var err error

			if vals[i], err = unescape6868(v); err != nil {
				return p, err
			}
		}

		switch pa.name {
		case "VALUE", "TZID", "ENCODING":
			if len(vals) != 1 {
				return p, fmt.Errorf("param %s with %d values", pa.name, len(vals))
			}

			switch pa.name {
			case "VALUE":
				found := false

				for _, k := range def.kinds {
					if valueNames[k] == vals[0] {
						kind, found = k, true
					}
				}

				if !found {
					return p, fmt.Errorf("VALUE=%s", vals[0])
				}
			case "TZID":
				zone, haveZone = vals[0], true
			case "ENCODING":
				encoding = vals[0]
			}

			continue
		}

		pdef := params[pa.name]
		known := false

		for _, n := range def.params {
			known = known || n == pa.name
		}

		if pdef == nil || !known {
			return p, fmt.Errorf("param %s does not belong to the property", pa.name)
		}

		if !pdef.multiple && len(vals) != 1 {
			return p, fmt.Errorf("param %s with %d values", pa.name, len(vals))
		}

		for i, v := range vals {
			switch {
			case pdef.quoted && !pa.quoted[i]:
				return p, fmt.Errorf("param %s is not quoted", pa.name)
			case pdef.enum != nil:
				if _, ok := pdef.enum[v]; !ok {
					return p, fmt.Errorf("param %s has unknown value %q", pa.name, v)
				}
			case pdef.fixed != "" && v != pdef.fixed, pdef.boolean && v != "TRUE" && v != "FALSE":
				return p, fmt.Errorf("param %s has value %q", pa.name, v)
			}
		}

		p.Params = append(p.Params, Param{pa.name, vals})
	}

	if haveZone {
		switch kind {
		case KDateTime, KPeriod, KRecur:
		default:
			return p, errors.New("TZID on a value that has no time")
		}
	}

	if encoding != "" && kind != KBinary {
		return p, errors.New("ENCODING on a value that is not binary")
	}

	var err error

	p.Val, err = refValue(def, kind, cl.value, zone, haveZone, encoding)

	return p, err
}

func refComp(name string, lines []string, pos int) (*Comp, int, error) {
	var (
		cls  []contentLine
		subs []*Comp
	)

	for {
		if pos == len(lines) {
			return nil, pos, fmt.Errorf("%s is not ended", name)
		}

		cl, err := parseContentLine(lines[pos])
		if err != nil {
			return nil, pos, err
		}

		cl.num = pos
		pos++

		switch cl.name {
		case "BEGIN", "END":
			if len(cl.params) != 0 {
				return nil, pos, fmt.Errorf("params on %q", lines[pos-1])
			}

			if cl.name == "END" {
				if cl.value != name {
					return nil, pos, fmt.Errorf("END:%s within %s", cl.value, name)
				}

				c, err := finishComp(name, cls, subs)

				return c, pos, err
			}

			allowed := false
			def := comps[name]

			if def != nil {
				for _, s := range def.subs {
					allowed = allowed || s == cl.value
				}
			}

			if !allowed {
				return nil, pos, fmt.Errorf("BEGIN:%s within %s", cl.value, name)
			}

			var sub *Comp

			if sub, pos, err = refComp(cl.value, lines, pos); err != nil {
				return nil, pos, fmt.Errorf("%s: %w", name, err)
			}

			subs = append(subs, sub)
		default:
			cls = append(cls, cl)
		}
	}
}

func finishComp(name string, cls []contentLine, subs []*Comp) (*Comp, error) {
	if name == "VALARM" {
		var rest []contentLine

		action := ""

		for _, cl := range cls {
			if cl.name == "ACTION" {
				if action != "" {
					return nil, errors.New("ACTION is repeated")
				}

				action = cl.value
			} else {
				rest = append(rest, cl)
			}
		}

		cls = rest
		name += "/" + action

		if comps[name] == nil {
			return nil, fmt.Errorf("alarm with ACTION %q", action)
		}
	}

	c, def := &Comp{Name: name, Subs: subs}, comps[name]

	for i := range cls {
		pn := cls[i].name

		if pn == "STATUS" && strings.HasPrefix(name, "VALARM/") {
			pn = "ALARM/STATUS"
		}

		use := def.use(pn)

		if use == nil {
			return nil, fmt.Errorf("%s has property %s, which does not belong to it", name, cls[i].name)
		} else if !use.multiple && c.has(pn) {
			return nil, fmt.Errorf("%s has more than one %s", name, cls[i].name)
		}

		p, err := refProp(pn, &cls[i])
		if err != nil {
			return nil, fmt.Errorf("%s, property %s: %w", name, cls[i].name, err)
		}

		c.Props = append(c.Props, p)
	}

	for _, use := range def.props {
		if use.required && !c.has(use.name) {
			return nil, fmt.Errorf("%s has no %s", name, use.name)
		}
	}

	return c, nil
}

// refParse reads a calendar.
func refParse(data []byte) (*Comp, error) {
	lines, err := physical(data, true)
	if err != nil {
		return nil, err
	}

	if lines[0] != "BEGIN:VCALENDAR" {
		return nil, fmt.Errorf("output begins with %q", clip(lines[0], 200))
	}

	c, pos, err := refComp("VCALENDAR", lines, 1)
	if err != nil {
		return nil, err
	} else if pos != len(lines) {
		return nil, fmt.Errorf("output continues after the calendar with %q", clip(lines[pos], 200))
	}

	return c, nil
}
