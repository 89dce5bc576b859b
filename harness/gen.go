package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"net/url"
	"strings"
	"time"
	"unicode/utf8"
)

// gen makes random models. All choices come from r.
type gen struct {
	r       *rand.Rand
	density float64  // chance of an optional property
	maxList int      // maximum length of lists of properties
	maxSubs int      // maximum number of sub-components of a kind
	maxText int      // usual maximum length of texts, in runes
	zones   []string // names of time zones, in place of the usual ones
	around  float64  // how often times are close to a change of the clocks
	valFn   func(k Kind) (Val, bool)
	exotic  bool // use times that have to be normalised when encoded
	textFn  func() string
	uid     int
}

func newGen(r *rand.Rand) *gen {
	return &gen{r: r, density: 0.3, maxList: 3, maxSubs: 2, maxText: 60, zones: zoneNames}
}

func (g *gen) n(n int) int { return g.r.IntN(n) }

func (g *gen) p(p float64) bool { return g.r.Float64() < p }

// size gives sizes of all orders of magnitude.
func (g *gen) size(limit int) int {
	return int(math.Exp(g.r.Float64()*math.Log(float64(limit)))) - 1
}

func pick[T any](g *gen, l []T) T { return l[g.n(len(l))] }

var (
	nasty = []string{
		"\\", ",", ";", ":", "\"", "\n", "^", "'", "=", "\t", " ", "\\n", "\\N", "\\,", "\\;", "\\\\", "^n", "^'", "^^", "^N", "\n\n", "\n ", " \n", "\n\t",
		"END:VEVENT", "\nEND:VEVENT\nBEGIN:VEVENT", "BEGIN:VALARM", "\nEND:VCALENDAR", ";X=", ":x", "\\\n", "\\^", "^\\", "^\"", "\"^", "\",\"", "%0D%0A", "&#13;", "\\r\\n", "/", "?", "//", "+", "-", "P1D", "Z", "TZID=",
	}
	runes = []rune{
		0xe9, 0xdf, 0xff, 0xa0, 0x80, 0x85, 0x9f, 0xad, 0x100, 0x7ff, 0x800, 0x20ac, 0x4e2d, 0x2028, 0x2029, 0x200b, 0x200d, 0xfeff, 0xfffd, 0xffff, 0xe000, 0x10000, 0x1f600, 0x1f469, 0x10ffff, 0x301, 0x131, 0x130, 0x17f, 0x212a, 0x1c6,
	}
	words = []string{"Meeting", "with", "the", "team", "lunch", "2pm", "Project-X", "review", "(room", "4)", "e.g.", "weekly", "sync", "call", "TODO", "urgent!", "a", "I", "naïve", "Zürich", "東京"}
)

// text makes a text without control characters other than tab and newline.
func (g *gen) text() string {
	if g.textFn != nil {
		return g.textFn()
	}

	return g.rawText(g.maxText)
}

func (g *gen) rawText(limit int) string {
	s := g.plainText(limit)

	if h := hints(); len(h.texts)+len(h.ints) > 0 && g.n(4) == 0 {
		return g.hintText(s)
	}

	return s
}

func (g *gen) plainText(limit int) string {
	var sb strings.Builder

	switch g.n(10) {
	case 0:
		if g.p(0.5) {
			return ""
		}

		return pick(g, nasty)
	case 1, 2, 3: // words
		for n := 1 + g.n(max(limit/6, 1)); n > 0; n-- {
			if sb.Len() > 0 {
				sb.WriteByte(' ')
			}

			sb.WriteString(pick(g, words))
		}
	case 4, 5: // nasty
		for n := 1 + g.n(max(limit/4, 1)); n > 0; n-- {
			if g.p(0.7) {
				sb.WriteString(pick(g, nasty))
			} else {
				sb.WriteString(pick(g, words))
			}
		}
	case 6: // mostly runes of several bytes
		for n := 1 + g.n(limit); n > 0; n-- {
			sb.WriteRune(pick(g, runes))
		}
	case 7: // a run with runes of several bytes near the fold
		for n := 40 + g.n(60); n > 0; n-- {
			sb.WriteByte(byte('a' + g.n(26)))
		}

		for n := 1 + g.n(4); n > 0; n-- {
			sb.WriteRune(pick(g, runes))
			sb.WriteString(pick(g, nasty))
		}
	case 8: // any allowed runes
		for n := 1 + g.n(limit); n > 0; n-- {
			sb.WriteRune(g.anyRune())
		}
	case 9:
		for n := 1 + g.n(limit); n > 0; n-- {
			sb.WriteByte(byte(0x20 + g.n(0x5f)))
		}
	}

	return sb.String()
}

func (g *gen) anyRune() rune {
	for {
		var r rune

		switch g.n(4) {
		case 0:
			r = rune(g.n(0x80))
		case 1:
			r = rune(g.n(0x800))
		case 2:
			r = rune(g.n(0x10000))
		default:
			r = rune(g.n(0x110000))
		}

		if utf8.ValidRune(r) && (r >= 0x20 || r == '\t' || r == '\n') && r != 0x7f {
			return r
		}
	}
}

// paramText makes a param value.
func (g *gen) paramText() string { return g.text() }

var tlds = []string{"example.com", "a.b", "xn--nxasmq6b", "localhost:8080", "[2001:db8::1]", "user@host", "user:pw@h"}

// uri makes an address that is the same after having been parsed.
func (g *gen) uri() string {
	for {
		s := g.uriTry()

		if u, err := url.Parse(s); err == nil {
			s = u.String()

			if v, err := url.Parse(s); err == nil && v.String() == s && utf8.ValidString(s) && !hasControl(s) {
				return s
			}
		}
	}
}

func hasControl(s string) bool {
	for _, c := range []byte(s) {
		if c < 0x20 || c == 0x7f {
			return true
		}
	}

	return false
}

func (g *gen) uriPart() string {
	var sb strings.Builder

	n := g.n(8)

	if g.n(20) == 0 {
		n = g.n(max(g.maxText, 8))
	}

	if h := hints(); len(h.texts) > 0 && g.n(4) == 0 {
		sb.WriteString(pick(g, h.texts))
	} else if n, ok := g.hintInt(0, 2000); ok {
		sb.WriteString(strings.Repeat("x", int(n)))
	}

	for ; n > 0; n-- {
		switch g.n(4) {
		case 0:
			sb.WriteString(pick(g, []string{"%20", "%0A", "%22", "%5E", ",", ";", ":", "@", "&", "=", "+", "$", "!", "*", "'", "(", ")", "~", "^", "\"", "|", "é", "中", "😀", "/", "\\", "{", "}", "<", "`", "%2F", "%25"}))
		default:
			sb.WriteByte(byte('a' + g.n(26)))
		}
	}

	return sb.String()
}

func (g *gen) uriTry() string {
	switch g.n(9) {
	case 0, 1:
		return "mailto:" + strings.ToLower(pick(g, words)) + g.uriPart() + "@" + pick(g, tlds)
	case 2:
		s := pick(g, []string{"http", "https", "ftp", "webcal", "CID"}) + "://" + pick(g, tlds) + "/" + g.uriPart()

		if g.p(0.5) {
			s += "?" + g.uriPart()
		}

		if g.p(0.3) {
			s += "#" + g.uriPart()
		}

		return s
	case 3:
		return "urn:uuid:" + fmt.Sprintf("%08x-%04x", g.r.Uint32(), g.n(65536))
	case 4:
		return "data:" + g.uriPart() + "," + g.uriPart()
	case 5:
		return "file:///" + g.uriPart() + "/" + g.uriPart()
	case 6:
		return g.uriPart()
	case 7: // long
		s := "https://example.com/"

		for n := g.n(40); n > 0; n-- {
			s += g.uriPart() + "/"
		}

		return s
	default:
		return "geo:" + fmt.Sprint(g.n(90)) + "." + fmt.Sprint(g.n(1000)) + "," + fmt.Sprint(g.n(180))
	}
}

var zoneNames = []string{
	"America/New_York", "Europe/London", "Europe/Berlin", "Asia/Tokyo", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia", "Pacific/Chatham",
	"America/Argentina/Buenos_Aires", "America/St_Johns", "Etc/GMT+5", "Etc/GMT-14", "Africa/Casablanca", "America/Sao_Paulo", "Asia/Tehran", "EST5EDT", "Europe/Dublin", "Antarctica/Troll", "Atlantic/Azores", "GMT", "Etc/UTC",
}

// unambiguous determines whether the wall clock time of t is no other time in
// its location.
func unambiguous(t time.Time) bool {
	_, off := t.Zone()
	start, end := t.ZoneBounds()

	for _, b := range []time.Time{start, end} {
		if b.IsZero() {
			continue
		}

		for _, s := range []time.Time{b, b.Add(-time.Second)} {
			_, o := s.Zone()

			if o == off {
				continue
			}

			u := t.Add(time.Duration(off-o) * time.Second)

			if _, uo := u.Zone(); uo == o {
				return false
			}
		}
	}

	return true
}

func (g *gen) year() int {
	if n, ok := g.hintInt(2, 9998); ok {
		return int(n)
	}

	switch g.n(10) {
	case 0:
		return 2 + g.n(9990)
	case 1, 2:
		return 1880 + g.n(250)
	case 3:
		return pick(g, []int{2, 99, 100, 999, 1000, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2037, 2038, 2100, 9998})
	default:
		return 1990 + g.n(60)
	}
}

func (g *gen) wall() (y int, mo time.Month, d, h, mi, s int) {
	y, mo = g.year(), time.Month(1+g.n(12))
	d = 1 + g.n(28)

	switch g.n(8) {
	case 0:
		d = time.Date(y, mo+1, 0, 0, 0, 0, 0, time.UTC).Day()
	case 1:
		mo, d = time.February, time.Date(y, time.March, 0, 0, 0, 0, 0, time.UTC).Day()
	}

	h, mi, s = g.n(24), g.n(60), g.n(60)

	if n, ok := g.hintInt(0, 59); ok {
		switch n := int(n); {
		case g.n(3) == 0:
			mi = n
		case g.n(2) == 0:
			s = n
		case n < 24 && g.n(3) == 0:
			h = n
		case n > 0 && n < 28 && g.n(2) == 0:
			d = n
		case n > 0 && n < 13 && d < 29:
			mo = time.Month(n)
		}

		return
	}

	if l := hints().times; len(l) > 0 && g.n(4) == 0 {
		t := pick(g, l).Add(time.Duration(g.n(3)-1) * time.Second * time.Duration(g.n(2)))

		if y := t.Year(); y > 1 && y < 9999 {
			y, mo, d := t.Date()
			h, mi, s := t.Clock()

			return y, mo, d, h, mi, s
		}
	}

	switch g.n(6) {
	case 0:
		h, mi, s = 0, 0, 0
	case 1:
		h, mi, s = 23, 59, 59
	case 2:
		mi, s = 0, 0
	}

	return
}

func (g *gen) location() *time.Location {
	switch g.n(5) {
	case 0, 1:
		return time.UTC
	case 2:
		return time.Local
	default:
		zones := g.zones

		if h := hints(); len(h.zones) > 0 && g.n(3) == 0 {
			zones = h.zones
		}

		l, err := loadLocation(pick(g, zones))
		if err != nil {
			panic("harness: no time zone data: " + err.Error())
		}

		return l
	}
}

// time makes a time that is given by its wall clock time and location.
func (g *gen) time(l *time.Location) time.Time {
	for {
		y, mo, d, h, mi, s := g.wall()
		t := time.Date(y, mo, d, h, mi, s, 0, l)

		if g.around > 0 && g.p(g.around) {
			start, end := t.ZoneBounds()

			if g.n(2) == 0 {
				start = end
			}

			if !start.IsZero() {
				t = start.In(l).Add(time.Duration(pick(g, []int{-7200, -3601, -3600, -1800, -1, 0, 1, 1800, 3600, 3601, 7200, g.n(86400) - 43200})) * time.Second)
			}
		}

		if unambiguous(t) && t.Year() >= 1 && t.Year() <= 9998 && !t.IsZero() {
			return t
		}
	}
}

// exoticLocation makes locations which cannot be found by their name.
func (g *gen) exoticLocation() *time.Location {
	off := (g.n(28*4+1) - 14*4) * 900

	switch g.n(6) {
	case 0:
		return time.FixedZone("", off)
	case 1:
		return time.FixedZone("UTC", off)
	case 2:
		return time.FixedZone(pick(g, zoneNames), off)
	case 3:
		return time.FixedZone(pick(g, []string{"Custom/Zone", "BST", "+05:30", "Local", "UTC", "Nowhere", "utc", "../etc/passwd", "/abs", "America"}), off)
	case 4:
		return time.FixedZone(g.rawText(10), off+g.n(60))
	default:
		t, err := time.Parse(time.RFC3339, "2020-01-01T00:00:00"+pick(g, []string{"+05:30", "-08:00", "+00:00", "+01:00"}))
		if err != nil {
			panic(err)
		}

		return t.Location()
	}
}

func (g *gen) dateTime() time.Time {
	if g.exotic && g.p(0.4) {
		var t time.Time

		switch g.n(3) {
		case 0: // a time around a change of the clocks
			l, _ := loadLocation(pick(g, g.zones))
			t = time.Date(1980+g.n(50), time.Month(1+g.n(12)), 1, 0, 0, 0, 0, l)

			if _, end := t.ZoneBounds(); !end.IsZero() {
				t = end.In(l).Add(time.Duration(g.n(6*3600)-3*3600) * time.Second)
			}
		case 1:
			t = g.time(time.UTC).In(g.exoticLocation())
		default:
			t = g.time(g.location())
		}

		if g.p(0.5) {
			t = t.Add(time.Duration(g.n(1000000000)))
		}

		if y := t.Year(); y > 1 && y < 9999 {
			return t
		}
	}

	return g.time(g.location())
}

func (g *gen) date() time.Time {
	y, mo, d, h, mi, s := g.wall()

	if g.p(0.1) {
		y = pick(g, []int{1, 9999})

		if y == 1 && mo == 1 && d == 1 {
			d = 2
		}
	}

	if g.exotic && g.p(0.5) {
		l := g.location()

		if g.p(0.3) {
			l = g.exoticLocation()
		}

		if y > 1 && y < 9999 {
			if t := time.Date(y, mo, d, h, mi, s, g.n(1000000000), l); !t.IsZero() {
				return t
			}
		}
	}

	return time.Date(y, mo, d, 0, 0, 0, 0, time.UTC)
}

func (g *gen) uint() uint {
	if n, ok := g.hintInt(0, math.MaxInt64); ok {
		return uint(n)
	}

	switch g.n(6) {
	case 0:
		return 0
	case 1:
		return uint(g.r.Uint32())
	case 2:
		return pick(g, []uint{1, 9, 10, 59, 60, 99, 100, 1000, 65535, math.MaxUint32, math.MaxInt64, math.MaxUint64})
	default:
		return uint(g.n(100))
	}
}

func (g *gen) dur() Dur {
	d := Dur{Neg: g.p(0.3)}

	if g.p(0.25) {
		d.W = g.uint()

		if !g.exotic || g.p(0.5) {
			return d
		}

		d.W = uint(g.n(1000))
	}

	d.D, d.H, d.M, d.S = g.uint(), g.uint(), g.uint(), g.uint()

	mask := g.n(16)

	if mask&1 == 0 {
		d.D = 0
	}

	if mask&2 == 0 {
		d.H = 0
	}

	if mask&4 == 0 {
		d.M = 0
	}

	if mask&8 == 0 {
		d.S = 0
	}

	if d.W != 0 && d.D > math.MaxInt32 {
		d.D = 3
	}

	return d
}

func (g *gen) ints(lo, hi int, zero bool) []int {
	l := make([]int, 1+g.n(4))

	if g.p(0.05) {
		l = make([]int, 1+g.n(100))
	}

	if n, ok := g.hintInt(1, 400); ok && g.n(4) == 0 {
		l = make([]int, n)
	}

	for i := range l {
		for {
			switch g.n(6) {
			case 0:
				l[i] = lo
			case 1:
				l[i] = hi
			default:
				l[i] = lo + g.n(hi-lo+1)
			}

			if n, ok := g.hintInt(int64(lo), int64(hi)); ok {
				l[i] = int(n)
			}

			if zero || l[i] != 0 {
				break
			}
		}
	}

	return l
}

var (
	freqNames = []string{"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"}
	dayNames  = []string{"SU", "MO", "TU", "WE", "TH", "FR", "SA"}
)

func (g *gen) bigUint() uint64 {
	if n, ok := g.hintInt(1, math.MaxInt64); ok {
		return uint64(n)
	}

	switch g.n(5) {
	case 0:
		return g.r.Uint64() | 1
	case 1:
		return pick(g, []uint64{1, 2, math.MaxUint64, math.MaxInt64, math.MaxUint32, math.MaxUint32 + 1, 255, 256})
	default:
		return 1 + uint64(g.n(1000))
	}
}

func (g *gen) rule() *Rule {
	r := &Rule{Freq: pick(g, freqNames)}

	switch g.n(4) {
	case 0:
		r.Count = g.bigUint()
	case 1:
		t := g.dateTime()
		r.Until, r.UntilTime = &t, true
	case 2:
		t := g.date()
		r.Until = &t
	}

	if g.p(0.4) {
		r.Interval = g.bigUint()
	}

	p := g.r.Float64() * 0.8

	if g.p(p) {
		r.BySecond = g.ints(0, 60, true)
	}

	if g.p(p) {
		r.ByMinute = g.ints(0, 59, true)
	}

	if g.p(p) {
		r.ByHour = g.ints(0, 23, true)
	}

	if g.p(p) {
		for n := 1 + g.n(4); n > 0; n-- {
			d := DayNum{Day: pick(g, dayNames)}

			if g.p(0.6) {
				d.N = g.ints(-53, 53, false)[0]
			}

			r.ByDay = append(r.ByDay, d)
		}
	}

	if g.p(p) {
		r.ByMonthDay = g.ints(-31, 31, false)
	}

	if g.p(p) {
		r.ByYearDay = g.ints(-366, 366, false)
	}

	if g.p(p) {
		r.ByWeekNo = g.ints(-53, 53, false)
	}

	if g.p(p) {
		r.ByMonth = g.ints(1, 12, false)
	}

	if g.p(p) {
		r.BySetPos = g.ints(-366, 366, false)
	}

	if g.p(p) {
		r.WkSt = pick(g, dayNames)
	}

	return r
}

func (g *gen) float() float64 {
	for {
		var f float64

		switch g.n(6) {
		case 0:
			f = math.Float64frombits(g.r.Uint64())
		case 1:
			f = pick(g, []float64{0, math.Copysign(0, -1), 1, -1, 90, -180, 0.1, 1e-7, 1e21, 1e22, math.MaxFloat64, math.SmallestNonzeroFloat64, 37.386013, -122.082932, 1. / 3})
		default:
			f = (g.r.Float64() - 0.5) * 360
		}

		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func (g *gen) integer() int64 {
	switch g.n(4) {
	case 0:
		return pick(g, []int64{0, 1, -1, 9, 10, 100, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, 255, 256, 65536})
	case 1:
		return int64(int32(g.r.Uint32()))
	default:
		return int64(g.n(101))
	}
}

func (g *gen) offset() int64 {
	var o int64

	switch g.n(4) {
	case 0:
		o = int64(g.n(100*3600))*2 - 100*3600 + 1
	case 1:
		o = pick(g, []int64{0, 1, -1, 59, 60, -60, 3599, 3600, -3600, 35999, 36000, 99*3600 + 59*60 + 59, -(99*3600 + 59*60 + 59), 13*3600 + 45*60, -(9*3600 + 30*60), 90, -90})
	default:
		o = int64(g.n(28*4+1)-14*4) * 900
	}

	return o
}

func (g *gen) binary() []byte {
	n := g.n(40)

	switch g.n(10) {
	case 0:
		n = 0
	case 1:
		n = g.n(2000)
	case 2:
		if g.maxText > 1000 {
			n = g.size(70000)
		}
	}

	b := make([]byte, n)

	for i := range b {
		b[i] = byte(g.n(256))
	}

	return b
}

func (g *gen) period() Val {
	v := Val{Kind: KPeriod}

	for {
		v.T = g.dateTime()

		if g.p(0.5) {
			v.D = g.dur()
			v.D.Neg = false

			return v
		}

		v.End = v.T.Add(time.Duration(1+g.n(400*24*3600)) * time.Second)

		if g.exotic && g.p(0.2) {
			v.End = v.T.Add(time.Duration(1+g.n(7200)) * time.Second)
		}

		if v.End.Year() <= 9998 && (g.exotic || unambiguous(v.End)) {
			return v
		}

		v.End = time.Time{}
	}
}

func sortedKeys(m map[string]any) []string {
	ks := make([]string, 0, len(m))

	for k := range m {
		ks = append(ks, k)
	}

	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}

	return ks
}

func (g *gen) val(def *propDef, k Kind) Val {
	v := Val{Kind: k}

	if g.valFn != nil {
		if v, ok := g.valFn(k); ok {
			return v
		}
	}

	switch k {
	case KText:
		v.S = g.text()
	case KMText:
		for n := 1 + g.n(4); n > 0; n-- {
			v.L = append(v.L, g.text())
		}

		if g.exotic && g.p(0.05) {
			v.L = nil
		}
	case KDateTime:
		v.T = g.dateTime()
	case KDate:
		v.T = g.date()
	case KDuration:
		v.D = g.dur()
	case KPeriod:
		v = g.period()
	case KRecur:
		v.R = g.rule()
	case KInteger:
		v.I = g.integer()
	case KFloats:
		v.F = [2]float64{g.float(), g.float()}
	case KBoolean:
		v.B = g.p(0.5)
	case KOffset:
		v.I = g.offset()
	case KURI, KAddress:
		v.S = g.uri()
	case KBinary:
		v.Bytes = g.binary()
	case KEnum:
		v.S = pick(g, sortedKeys(def.enum))
	}

	g.hintVal(&v)

	return v
}

const fmtChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$&.+-^_"

func (g *gen) fmtType() string {
	var sb strings.Builder

	for part := 0; part < 2; part++ {
		if part == 1 {
			sb.WriteByte('/')
		}

		for n := 1 + g.n(12); n > 0; n-- {
			sb.WriteByte(fmtChars[g.n(len(fmtChars))])
		}
	}

	return sb.String()
}

func (g *gen) param(name string) Param {
	p, def := Param{Name: name}, params[name]
	one := func() string {
		switch {
		case def.enum != nil:
			return pick(g, sortedKeys(def.enum))
		case def.fixed != "":
			return def.fixed
		case def.boolean:
			if g.p(0.8) {
				return "TRUE"
			}

			return "FALSE"
		case def.uri:
			return g.uri()
		case def.fmttype:
			return g.fmtType()
		default:
			return g.paramText()
		}
	}
	n := 1

	if def.multiple {
		n = 1 + g.n(max(g.maxList, 4))

		if k, ok := g.hintInt(1, 100); ok && g.n(2) == 0 {
			n = int(k)
		}
	}

	for ; n > 0; n-- {
		p.Vals = append(p.Vals, one())
	}

	return p
}

func (g *gen) prop(name string) Prop {
	def := props[name]

	return g.propOf(name, pick(g, def.kinds))
}

func (g *gen) propOf(name string, k Kind) Prop {
	p, def := Prop{Name: name}, props[name]

	for _, pn := range def.params {
		if g.p(g.density) {
			p.Params = append(p.Params, g.param(pn))
		}
	}

	p.Val = g.val(def, k)

	return p
}

func (c *Comp) has(name string) bool {
	for i := range c.Props {
		if c.Props[i].Name == name {
			return true
		}
	}

	return false
}

func (c *Comp) remove(name string) {
	ps := c.Props[:0:0]

	for _, p := range c.Props {
		if p.Name != name {
			ps = append(ps, p)
		}
	}

	c.Props = ps
}

// comp makes a component that follows all of the rules.
func (g *gen) comp(name string) *Comp {
	c, def := &Comp{Name: name}, comps[name]

	for _, u := range def.props {
		switch {
		case u.required:
			c.Props = append(c.Props, g.prop(u.name))
		case u.multiple:
			if g.p(g.density) {
				n := 1 + g.n(g.maxList)

				if k, ok := g.hintInt(1, 100); ok && g.n(8) == 0 {
					n = int(k)
				}

				for ; n > 0; n-- {
					c.Props = append(c.Props, g.prop(u.name))
				}
			}
		default:
			if g.p(g.density) {
				c.Props = append(c.Props, g.prop(u.name))
			}
		}
	}

	g.repair(c)

	for _, s := range def.subs {
		n := g.n(g.maxSubs + 1)

		if k, ok := g.hintInt(1, 30); ok && g.maxSubs > 0 && g.n(16) == 0 {
			n = int(k)
		}

		for ; n > 0; n-- {
			sn := s

			if s == "VALARM" {
				sn = pick(g, alarmNames)
			}

			c.Subs = append(c.Subs, g.comp(sn))
		}
	}

	if name == "VTIMEZONE" && len(c.Subs) == 0 {
		c.Subs = append(c.Subs, g.comp(pick(g, def.subs)))
	}

	return c
}

// repair makes the component follow the rules between properties.
func (g *gen) repair(c *Comp) {
	switch c.Name {
	case "VEVENT":
		if c.has("DTEND") && c.has("DURATION") {
			c.remove(pick(g, []string{"DTEND", "DURATION"}))
		}
	case "VTODO":
		if c.has("DUE") && c.has("DURATION") {
			c.remove(pick(g, []string{"DUE", "DURATION"}))
		}

		if c.has("DURATION") && !c.has("DTSTART") {
			c.Props = append(c.Props, g.prop("DTSTART"))
		}
	}

	if strings.HasPrefix(c.Name, "VALARM/") {
		if c.has("GEO-LOCATION") && !c.has("PROXIMITY") {
			c.Props = append(c.Props, g.prop("PROXIMITY"))
		}

		if c.has("DURATION") != c.has("REPEAT") {
			if g.p(0.5) {
				c.remove("DURATION")
				c.remove("REPEAT")
			} else if c.has("DURATION") {
				c.Props = append(c.Props, g.prop("REPEAT"))
			} else {
				c.Props = append(c.Props, g.prop("DURATION"))
			}
		}
	}
}

// calendar makes a calendar.
func (g *gen) calendar() *Comp {
	c := g.comp("VCALENDAR")

	return c
}

// skeleton makes a calendar with one component of the given kind, in its place.
func (g *gen) skeleton(name string) (cal, c *Comp) {
	cal = &Comp{Name: "VCALENDAR", Props: []Prop{g.prop("VERSION"), g.prop("PRODID")}}
	c = g.bare(name)

	switch {
	case name == "VCALENDAR":
		c = cal
	case strings.HasPrefix(name, "VALARM/"):
		p := g.bare(pick(g, []string{"VEVENT", "VTODO"}))
		p.Subs = append(p.Subs, c)
		cal.Subs = append(cal.Subs, p)
	case name == "STANDARD", name == "DAYLIGHT":
		p := &Comp{Name: "VTIMEZONE", Props: []Prop{g.prop("TZID")}, Subs: []*Comp{c}}
		cal.Subs = append(cal.Subs, p)
	default:
		cal.Subs = append(cal.Subs, c)
	}

	return cal, c
}

// bare makes a component with only what is required.
func (g *gen) bare(name string) *Comp {
	d, s := g.density, g.maxSubs
	g.density, g.maxSubs = 0, 0
	c := g.comp(name)
	g.density, g.maxSubs = d, s

	return c
}
