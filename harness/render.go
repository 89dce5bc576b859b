package main

// The renderer is an independent writer of calendar texts, by the rules of the
// RFCs, which can spell the same calendar in many ways.

import (
	"encoding/base64"
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
	"time"
)

// style says how a calendar is spelled; each number is a probability.
type style struct {
	r *rand.Rand

	names    float64 // change the case of names
	values   float64 // change the case of enumerated values
	order    float64 // change the order of properties and sub-components
	pOrder   float64 // change the order of params
	quote    float64 // quote params that need not be
	explicit float64 // state a default VALUE
	spell    float64 // use less usual spellings of values
	unknown  float64 // add unknown content
	noEOL    float64 // leave out the last line break

	// hook may change the params and value of a property
	hook func(p *Prop, ps []string, text string) ([]string, string)
	// compHook may change the lines of a component
	compHook func(c *Comp, ls []string) []string
}

func (s *style) p(p float64) bool { return p > 0 && s.r.Float64() < p }

func (s *style) n(n int) int { return s.r.IntN(n) }

func (s *style) mixCase(p float64, v string) string {
	if !s.p(p) {
		return v
	}

	switch s.n(3) {
	case 0:
		return strings.ToLower(v)
	case 1:
		return v[:1] + strings.ToLower(v[1:])
	}

	b := []byte(v)

	for i, c := range b {
		if c >= 'A' && c <= 'Z' && s.n(2) == 0 {
			b[i] = c + 0x20
		}
	}

	return string(b)
}

func (s *style) name(v string) string { return s.mixCase(s.names, v) }

func (s *style) word(v string) string { return s.mixCase(s.values, v) }

func (s *style) escape(t string) string {
	var sb strings.Builder

	for i := 0; i < len(t); i++ {
		switch c := t[i]; c {
		case '\\', ';', ',':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case '\n':
			if s.p(s.spell) {
				sb.WriteString("\\N")
			} else {
				sb.WriteString("\\n")
			}
		default:
			sb.WriteByte(c)
		}
	}

	return sb.String()
}

func (s *style) paramValue(v string, mustQuote bool) string {
	var sb strings.Builder

	for i := 0; i < len(v); i++ {
		switch c := v[i]; c {
		case '"':
			sb.WriteString("^'")
		case '\n':
			sb.WriteString("^n")
		case '^':
			if s.p(s.spell) && (i+1 == len(v) || !strings.ContainsRune("n'^\"\n", rune(v[i+1]))) {
				sb.WriteByte('^')
			} else {
				sb.WriteString("^^")
			}
		default:
			sb.WriteByte(c)
		}
	}

	if mustQuote || strings.ContainsAny(v, ",;:") || s.p(s.quote) {
		return `"` + sb.String() + `"`
	}

	return sb.String()
}

func (s *style) digits(n uint, d *strings.Builder) {
	if s.p(s.spell * 0.3) {
		d.WriteString(strings.Repeat("0", 1+s.n(3)))
	}

	d.WriteString(strconv.FormatUint(uint64(n), 10))
}

func (s *style) dur(d Dur) string {
	var sb strings.Builder

	if d.Neg {
		sb.WriteByte('-')
	} else if s.p(s.spell) {
		sb.WriteByte('+')
	}

	sb.WriteByte('P')

	if d.D == 0 && d.H == 0 && d.M == 0 && d.S == 0 && d.W != 0 {
		s.digits(d.W, &sb)
		sb.WriteByte('W')

		return sb.String()
	}

	zero := s.p(s.spell)
	days := d.D + d.W*7

	if days != 0 || zero && s.n(2) == 0 {
		s.digits(days, &sb)
		sb.WriteByte('D')

		if d.H == 0 && d.M == 0 && d.S == 0 && !(zero && s.n(2) == 0) {
			return sb.String()
		}
	}

	sb.WriteByte('T')

	h, m, sec := d.H != 0, d.M != 0, d.S != 0

	if zero {
		h = h || s.n(2) == 0
		sec = sec || s.n(2) == 0
	}

	if h && sec {
		m = true
	}

	if !h && !m {
		sec = true
	}

	if h {
		s.digits(d.H, &sb)
		sb.WriteByte('H')
	}

	if m {
		s.digits(d.M, &sb)
		sb.WriteByte('M')
	}

	if sec {
		s.digits(d.S, &sb)
		sb.WriteByte('S')
	}

	return sb.String()
}

// dateTime gives the text and the zone name of a time.
func (s *style) dateTime(t time.Time) (string, string) {
	l := t.Location()

	switch l {
	case time.UTC:
		return t.Format("20060102T150405") + "Z", ""
	case time.Local:
		return t.Format("20060102T150405"), ""
	}

	return t.Format("20060102T150405"), l.String()
}

func (s *style) int(n int, sign bool) string {
	v := strconv.Itoa(n)

	if sign && n > 0 && s.p(s.spell) {
		v = "+" + v
	}

	return v
}

func (s *style) ints(l []int, sign bool) string {
	p := make([]string, len(l))

	for i, n := range l {
		p[i] = s.int(n, sign)
	}

	return strings.Join(p, ",")
}

func (s *style) rule(r *Rule) string {
	parts := []string{s.word("FREQ") + "=" + s.word(r.Freq)}
	add := func(name, v string) {
		parts = append(parts, s.word(name)+"="+v)
	}

	if r.Until != nil {
		if r.UntilTime {
			t, _ := s.dateTime(*r.Until)
			add("UNTIL", t)
		} else {
			add("UNTIL", r.Until.Format("20060102"))
		}
	}

	if r.Count != 0 {
		add("COUNT", strconv.FormatUint(r.Count, 10))
	}

	if r.Interval != 0 {
		add("INTERVAL", strconv.FormatUint(r.Interval, 10))
	}

	for _, l := range []struct {
		name string
		l    []int
		sign bool
	}{
		{"BYSECOND", r.BySecond, false}, {"BYMINUTE", r.ByMinute, false}, {"BYHOUR", r.ByHour, false}, {"BYMONTHDAY", r.ByMonthDay, true},
		{"BYYEARDAY", r.ByYearDay, true}, {"BYWEEKNO", r.ByWeekNo, true}, {"BYMONTH", r.ByMonth, false}, {"BYSETPOS", r.BySetPos, true},
	} {
		if len(l.l) > 0 {
			add(l.name, s.ints(l.l, l.sign))
		}
	}

	if len(r.ByDay) > 0 {
		days := make([]string, len(r.ByDay))

		for i, d := range r.ByDay {
			if d.N != 0 {
				days[i] = s.int(d.N, true)

				if s.p(s.spell*0.3) && d.N > 0 && d.N < 10 && days[i][0] != '+' {
					days[i] = "0" + days[i]
				}
			}

			days[i] += s.word(d.Day)
		}

		add("BYDAY", strings.Join(days, ","))
	}

	if r.WkSt != "" {
		add("WKST", s.word(r.WkSt))
	}

	if s.p(s.order) {
		s.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}

	return strings.Join(parts, ";")
}

func (s *style) offset(o int64) string {
	sign := "+"

	if o < 0 {
		sign, o = "-", -o
	}

	v := fmt.Sprintf("%s%02d%02d", sign, o/3600, o/60%60)

	if o%60 != 0 || s.p(s.spell) {
		v += fmt.Sprintf("%02d", o%60)
	}

	return v
}

func (s *style) float(f float64) string {
	v := strconv.FormatFloat(f, 'f', -1, 64)

	if s.p(s.spell) {
		switch s.n(3) {
		case 0:
			if f > 0 {
				v = "+" + v
			}
		case 1:
			if strings.Contains(v, ".") {
				v += "00"
			} else {
				v += ".0"
			}
		case 2:
			if v[0] == '-' {
				v = "-00" + v[1:]
			} else {
				v = "0" + v
			}
		}
	}

	return v
}

// value gives the text of a value, and the params it needs.
func (s *style) value(v *Val) (text string, ps []string) {
	zone := func(name string) {
		if name != "" {
			ps = append(ps, s.name("TZID")+"="+s.paramValue(name, false))
		}
	}

	switch v.Kind {
	case KText:
		text = s.escape(v.S)
	case KMText:
		l := make([]string, len(v.L))

		for i, t := range v.L {
			l[i] = s.escape(t)
		}

		text = strings.Join(l, ",")
	case KDateTime:
		var z string

		text, z = s.dateTime(v.T)
		zone(z)
	case KDate:
		text = v.T.Format("20060102")
	case KDuration:
		text = s.dur(v.D)
	case KPeriod:
		var z string

		text, z = s.dateTime(v.T)
		zone(z)

		text += "/"

		if v.End.IsZero() {
			text += s.dur(v.D)
		} else {
			e, _ := s.dateTime(v.End)
			text += e
		}
	case KRecur:
		text = s.rule(v.R)

		if v.R.Until != nil && v.R.UntilTime {
			_, z := s.dateTime(*v.R.Until)
			zone(z)
		}
	case KInteger:
		text = strconv.FormatInt(v.I, 10)

		if s.p(s.spell) && v.I >= 0 {
			if s.n(2) == 0 {
				text = "+" + text
			} else {
				text = "00" + text
			}
		}
	case KFloats:
		text = s.float(v.F[0]) + ";" + s.float(v.F[1])
	case KBoolean:
		text = s.word(strings.ToUpper(strconv.FormatBool(v.B)))
	case KOffset:
		text = s.offset(v.I)
	case KURI, KAddress:
		text = v.S
	case KBinary:
		text = base64.StdEncoding.EncodeToString(v.Bytes)

		ps = append(ps, s.name("ENCODING")+"="+s.word("BASE64"))
	case KEnum:
		text = s.word(v.S)
	}

	return text, ps
}

func (s *style) prop(p *Prop) string {
	def := props[p.Name]
	text, ps := s.value(&p.Val)
	vn, haveName := valueNames[p.Val.Kind]

	if p.Val.Kind != def.kinds[0] || haveName && s.p(s.explicit) {
		ps = append(ps, s.name("VALUE")+"="+s.paramWord(vn))
	}

	for _, pa := range p.Params {
		pdef := params[pa.Name]
		vs := make([]string, len(pa.Vals))

		for i, v := range pa.Vals {
			switch {
			case pdef.enum != nil, pdef.fixed != "", pdef.boolean:
				vs[i] = s.paramWord(v)

				if v == "UNKNOWN" && s.p(s.spell) {
					vs[i] = "X-OTHER"
				}
			case pdef.fmttype:
				vs[i] = s.paramValue(v, false)
			default:
				vs[i] = s.paramValue(v, pdef.quoted)
			}
		}

		ps = append(ps, s.name(pa.Name)+"="+strings.Join(vs, ","))
	}

	if s.p(s.unknown) {
		for n := 1 + s.n(2); n > 0; n-- {
			i := s.n(len(ps) + 1)
			ps = append(ps[:i], append([]string{s.unknownParam(def)}, ps[i:]...)...)
		}
	}

	if s.p(s.pOrder) {
		s.r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	}

	if s.hook != nil {
		ps, text = s.hook(p, ps, text)
	}

	var sb strings.Builder

	sb.WriteString(s.name(textName(p.Name)))

	for _, pa := range ps {
		sb.WriteByte(';')
		sb.WriteString(pa)
	}

	sb.WriteByte(':')
	sb.WriteString(text)

	return sb.String()
}

func (s *style) paramWord(v string) string {
	v = s.word(v)

	if s.p(s.quote) {
		v = `"` + v + `"`
	}

	return v
}

// lines gives the content lines of a component.
func (s *style) lines(c *Comp) []string {
	var blocks [][]string

	name, action, _ := strings.Cut(c.Name, "/")

	if action != "" {
		blocks = append(blocks, []string{s.name("ACTION") + ":" + s.word(action)})
	}

	for i := range c.Props {
		blocks = append(blocks, []string{s.prop(&c.Props[i])})
	}

	for _, sub := range c.Subs {
		blocks = append(blocks, s.lines(sub))
	}

	if s.p(s.order) {
		// everything may be moved, but things of the same name keep their order
		key := make([]string, 0, len(blocks))

		if action != "" {
			key = append(key, "ACTION")
		}

		for i := range c.Props {
			key = append(key, c.Props[i].Name)
		}

		for _, sub := range c.Subs {
			n, _, _ := strings.Cut(sub.Name, "/")
			key = append(key, "BEGIN "+n)
		}

		perm := s.r.Perm(len(blocks))
		slots := map[string][]int{}

		for i, k := range key {
			slots[k] = append(slots[k], perm[i])
		}

		out := make([][]string, len(blocks))

		for k := range slots {
			sort.Ints(slots[k])
		}

		for i, k := range key {
			out[slots[k][0]] = blocks[i]
			slots[k] = slots[k][1:]
		}

		blocks = out
	}

	ls := []string{s.name("BEGIN") + ":" + s.word(name)}

	for _, b := range blocks {
		if s.p(s.unknown) {
			ls = append(ls, s.unknownLines(c.Name)...)
		}

		ls = append(ls, b...)
	}

	if s.p(s.unknown) {
		ls = append(ls, s.unknownLines(c.Name)...)
	}

	ls = append(ls, s.name("END")+":"+s.word(name))

	if s.compHook != nil {
		ls = s.compHook(c, ls)
	}

	return ls
}

// text gives the whole calendar, without any folds.
func (s *style) text(c *Comp) string {
	t := strings.Join(s.lines(c), "\r\n")

	if !s.p(s.noEOL) {
		t += "\r\n"
	}

	return t
}

func (s *style) token() string {
	if l := hints().names; len(l) > 0 && s.n(3) == 0 {
		if n := pickS(s, l); !knownName(n) {
			return s.name(n)
		}
	}

	switch s.n(4) {
	case 0:
		return s.name("X-" + strings.Repeat("ABC-", s.n(3)) + fmt.Sprint(s.n(100)))
	case 1:
		return s.name("X-WR-CALNAME")
	case 2:
		return s.name(pickS(s, []string{"NON-STANDARD", "IMAGE", "COLOR", "CONFERENCE", "REFRESH-INTERVAL", "SOURCE", "NAME", "X", "BEGINS", "ENDS", "END-", "-", "0", "STRUCTURED-DATA"}))
	default:
		b := make([]byte, 1+s.n(20))

		for i := range b {
			b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"[s.n(63)]
		}

		return "X-" + string(b)
	}
}

func pickS[T any](s *style, l []T) T { return l[s.n(len(l))] }

// anyValue gives characters that are allowed in any value.
func (s *style) anyValue(qsafe bool) string {
	g := gen{r: s.r, maxText: 40}
	t := g.rawText(1 + s.n(60))
	t = strings.ReplaceAll(t, "\n", "")

	if qsafe {
		t = strings.ReplaceAll(t, `"`, "")
	}

	return t
}

func (s *style) unknownParam(def *propDef) string {
	name := s.token()

	if s.n(3) == 0 {
		// a param that is known elsewhere
		names := append(sortedNames(params), "X-VALUE", "TZ", "ORDER", "DERIVED", "TZID", "ENCODING")

		for i := 0; i < 5; i++ {
			n := names[s.n(len(names))]
			known := false

			for _, k := range def.kinds {
				switch k {
				case KDateTime, KDate, KPeriod, KRecur: // that of UNTIL
					known = known || n == "TZID"
				case KBinary:
					known = known || n == "ENCODING"
				}
			}

			for _, k := range def.params {
				known = known || k == n
			}

			if !known {
				name = s.name(n)

				break
			}
		}
	}

	var vs []string

	for n := 1 + s.n(3); n > 0; n-- {
		v := s.anyValue(true)

		if strings.ContainsAny(v, ",;:") || s.n(2) == 0 {
			v = `"` + v + `"`
		}

		vs = append(vs, v)
	}

	return name + "=" + strings.Join(vs, ",")
}

func (s *style) unknownProp(name string) string {
	t := name

	for n := s.n(3); n > 0; n-- {
		t += ";" + s.unknownParam(&propDef{})
	}

	return t + ":" + s.anyValue(false)
}

// unknownLines gives content which is not known in the given component.
func (s *style) unknownLines(in string) []string {
	if strings.HasPrefix(in, "VALARM/") || s.n(3) > 0 {
		name := s.token()

		if s.n(3) == 0 {
			// a property that is known elsewhere
			names := sortedNames(props)
			n := textName(names[s.n(len(names))])

			if comps[in].use(n) == nil && !(n == "STATUS" && strings.HasPrefix(in, "VALARM/")) {
				name = s.name(n)
			}
		}

		return []string{s.unknownProp(name)}
	}

	return s.unknownComp(in, s.n(4))
}

func sortedNames[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))

	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}

func (s *style) unknownComp(in string, depth int) []string {
	name := s.token()

	if s.n(2) == 0 {
		n := pickS(s, []string{"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "VALARM", "STANDARD", "DAYLIGHT", "VCALENDAR", "VAVAILABILITY", "AVAILABLE", "PARTICIPANT", "VLOCATION", "VRESOURCE"})
		known := false

		if def := comps[in]; def != nil {
			for _, k := range def.subs {
				known = known || k == n
			}
		}

		if !known {
			name = n
		}
	}

	ls := []string{s.name("BEGIN") + ":" + s.word(name)}

	for n := s.n(4); n > 0; n-- {
		if depth > 0 && s.n(2) == 0 {
			ls = append(ls, s.unknownComp("", depth-1)...)
		} else if s.n(3) == 0 {
			names := sortedNames(props)
			ls = append(ls, s.unknownProp(textName(names[s.n(len(names))])))
		} else {
			ls = append(ls, s.unknownProp(s.token()))
		}
	}

	return append(ls, s.name("END")+":"+s.word(name))
}

// foldAt folds the text before each of the positions; positions at the start of
// a line or inside of a line break are ignored.
func foldAt(text string, at func(pos int) (string, bool)) string {
	var sb strings.Builder

	for i := 0; i < len(text); i++ {
		if i > 0 && text[i-1] != '\n' && text[i] != '\n' {
			if f, ok := at(i); ok {
				sb.WriteString(f)
			}
		}

		sb.WriteByte(text[i])
	}

	return sb.String()
}

// randomFold folds with the given probability at each position.
func randomFold(r *rand.Rand, text string, p float64) string {
	return foldAt(text, func(int) (string, bool) {
		if r.Float64() >= p {
			return "", false
		}

		f := ""

		for {
			if r.IntN(2) == 0 {
				f += "\r\n "
			} else {
				f += "\r\n\t"
			}

			if r.IntN(4) > 0 {
				return f, true
			}
		}
	})
}

// plain spells a calendar in the most usual way.
func plain(c *Comp) string { return (&style{}).text(c) }
