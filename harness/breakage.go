package main

// Breakages are calendar texts in which one rule of the format is broken.

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net/url"
	"strconv"
	"strings"
	"unicode/utf8"

	"vimagination.zapto.org/ics"
)

type breakage struct {
	label string
	text  string
	errs  []error // one of them describes it; none if there is no such error
}

func es(e ...error) []error { return e }

// badValues are values that are malformed, or out of range, for a kind.
var badValues = map[Kind][]string{
	KText:     {"a;b", "a,b", ";", ",", `a\\,b`, `\;;`, `\,,`, `a\n;`, `\\;`},
	KMText:    {"a;b", "a,b;c", ";", `\;;`, `a\\;b`},
	KDateTime: {"", "20200101", "20201301T000000", "20200001T000000Z", "20200100T000000", "20200230T000000Z", "20210229T000000", "20200431T000000", "19000229T000000Z", "20200101T240000", "20200101T006000", "20200101T000061", "2020-01-01T00:00:00", "20200101T000000ZZ", "20200101T0000", "20200101T00000", " 20200101T000000", "20200101T000000 ", "20200101T000000.5", "20200101T000000,5Z", "20200101T000000+0100", "20200101 000000", "20200101000000", "T000000", "2020101T000000", "120200101T000000", "PT1H", "now", "20200101T1e0000", "-20200101T000000", "20200101T-10000"},
	KDate:     {"", "2020010", "20201301", "20200001", "20200100", "20200230", "20210229", "20200101T000000", "20200101T000000Z", "2020-01-01", "20200101Z", " 20200101", "20200101 ", "202001011", "x", "2020010x", "+2020101"},
	KDuration: {"", "P", "PT", "5D", "P5", "PT5", "P1H", "PT1D", "PT1W", "P1W2D", "P5M", "P5S", "PT1HT2H", "P1D5H", "P-1D", "P+1D", "PT1S1H", "PT1M1H", "PT1S1M", "1", "P1DT", "PT1H1H", "PT1M1M", "PT1S1S", "P1D1D", "P1W1W", "P1.5D", "PT1.5S", "PD", "PTH", "--P1D", "+-P1D", "P1WT1H", "T1H", "P1Y", "P1M", "P1D ", " P1D", "P1DT1W", "P99999999999999999999D", "PT18446744073709551616S", "PxD", "P1X", "P0x1D", "20200101T000000", "P1D/P1D"},
	KPeriod: {
		"", "x", "20200101T000000Z", "20200101T000000Z/", "/20200101T000000Z", "/", "20200101T000000Z/P", "20200101T000000Z/PT", "20200101T000000Z/x", "20201301T000000Z/PT1H", "20200101T000000Z/20201301T000000Z", "20200101T000000Z/-PT1H",
		"20200101/20200102", "20200101T000000Z/PT1H/PT1H", "20200101T000000Z-PT1H", "PT1H/PT2H", "20200101T000000Z/20190101T000000Z", "20200101T000000Z/20200101T000000Z", "20200101T000001/20200101T000000", "20200101T000000Z//PT1H", "20200101T000000Z/T1H", "20200101T000000Z PT1H",
		"20200101T000000/P", "20200101T000000/P1H", "20200101T000000Z/PT1HT2H", "20200101T000000/P1W2D", "20200101T00/PT1H", "20200101T000000/x", "20200101T000000/20200102", "20200101T000000Z/20200102T00Z",
	},
	KRecur: {
		"", "COUNT=1", "INTERVAL=2;BYDAY=MO", "FREQ=X", "FREQ=", "FREQ", "FREQ=FORTNIGHTLY", "FREQ=DAILY;FREQ=DAILY", "FREQ=DAILY;COUNT=2;FREQ=WEEKLY", "FREQ=DAILY;X-A=1", "FREQ=DAILY;FOO=1", "FREQ=DAILY;=1", "FREQ=DAILY;COUNT=1;UNTIL=20200101", "FREQ=DAILY;UNTIL=20200101T000000Z;COUNT=1", "UNTIL=20200101;COUNT=1;FREQ=DAILY",
		"FREQ=DAILY;", ";FREQ=DAILY", "FREQ=DAILY;;COUNT=1", "FREQ=DAILY,WEEKLY", "FREQ= DAILY", "FREQ=DAILY;COUNT=x", "FREQ=DAILY;COUNT=-1", "FREQ=DAILY;COUNT=+1", "FREQ=DAILY;COUNT=0", "FREQ=DAILY;COUNT=", "FREQ=DAILY;COUNT=1.5", "FREQ=DAILY;COUNT=1,2", "FREQ=DAILY;COUNT=18446744073709551616", "FREQ=DAILY;COUNT=1;COUNT=1",
		"FREQ=DAILY;INTERVAL=0", "FREQ=DAILY;INTERVAL=-1", "FREQ=DAILY;INTERVAL=", "FREQ=DAILY;INTERVAL=x", "FREQ=DAILY;INTERVAL=1;INTERVAL=1", "FREQ=DAILY;UNTIL=", "FREQ=DAILY;UNTIL=2020", "FREQ=DAILY;UNTIL=20201301", "FREQ=DAILY;UNTIL=20200230", "FREQ=DAILY;UNTIL=20200101T", "FREQ=DAILY;UNTIL=20200101T250000Z", "FREQ=DAILY;UNTIL=20200101;UNTIL=20200101",
		"FREQ=DAILY;BYSECOND=61", "FREQ=DAILY;BYSECOND=-1", "FREQ=DAILY;BYSECOND=", "FREQ=DAILY;BYSECOND=1,", "FREQ=DAILY;BYSECOND=,1", "FREQ=DAILY;BYSECOND=a", "FREQ=DAILY;BYSECOND=256", "FREQ=DAILY;BYSECOND=1,2,61,3", "FREQ=DAILY;BYSECOND=1;BYSECOND=1",
		"FREQ=DAILY;BYMINUTE=60", "FREQ=DAILY;BYMINUTE=", "FREQ=DAILY;BYMINUTE=-1", "FREQ=DAILY;BYMINUTE=1,,2", "FREQ=DAILY;BYMINUTE=0,60", "FREQ=DAILY;BYMINUTE=1;BYMINUTE=1", "FREQ=DAILY;BYHOUR=24", "FREQ=DAILY;BYHOUR=", "FREQ=DAILY;BYHOUR=-1", "FREQ=DAILY;BYHOUR=0,24", "FREQ=DAILY;BYHOUR=1;BYHOUR=1",
		"FREQ=DAILY;BYDAY=", "FREQ=DAILY;BYDAY=XX", "FREQ=DAILY;BYDAY=1", "FREQ=DAILY;BYDAY=12", "FREQ=DAILY;BYDAY=M", "FREQ=DAILY;BYDAY=-MO", "FREQ=DAILY;BYDAY=+MO", "FREQ=DAILY;BYDAY=+", "FREQ=DAILY;BYDAY=-", "FREQ=DAILY;BYDAY=+1", "FREQ=DAILY;BYDAY=-12", "FREQ=DAILY;BYDAY=MO,+", "FREQ=DAILY;BYDAY=-M", "FREQ=DAILY;BYDAY=0MO", "FREQ=DAILY;BYDAY=-0MO", "FREQ=DAILY;BYDAY=54MO", "FREQ=DAILY;BYDAY=-54MO", "FREQ=DAILY;BYDAY=99SU", "FREQ=DAILY;BYDAY=MO,", "FREQ=DAILY;BYDAY=MOO", "FREQ=DAILY;BYDAY=--1MO", "FREQ=DAILY;BYDAY=257MO", "FREQ=DAILY;BYDAY=MO1", "FREQ=DAILY;BYDAY=MO,XX,TU", "FREQ=DAILY;BYDAY=MO;BYDAY=TU",
		"FREQ=DAILY;BYMONTHDAY=0", "FREQ=DAILY;BYMONTHDAY=32", "FREQ=DAILY;BYMONTHDAY=-32", "FREQ=DAILY;BYMONTHDAY=", "FREQ=DAILY;BYMONTHDAY=257", "FREQ=DAILY;BYMONTHDAY=1,32", "FREQ=DAILY;BYMONTHDAY=1;BYMONTHDAY=1", "FREQ=DAILY;BYYEARDAY=0", "FREQ=DAILY;BYYEARDAY=367", "FREQ=DAILY;BYYEARDAY=-367", "FREQ=DAILY;BYYEARDAY=", "FREQ=DAILY;BYYEARDAY=65537", "FREQ=DAILY;BYYEARDAY=1;BYYEARDAY=1",
		"FREQ=DAILY;BYWEEKNO=0", "FREQ=DAILY;BYWEEKNO=54", "FREQ=DAILY;BYWEEKNO=-54", "FREQ=DAILY;BYWEEKNO=", "FREQ=DAILY;BYWEEKNO=1;BYWEEKNO=1", "FREQ=DAILY;BYMONTH=0", "FREQ=DAILY;BYMONTH=13", "FREQ=DAILY;BYMONTH=-1", "FREQ=DAILY;BYMONTH=", "FREQ=DAILY;BYMONTH=JAN", "FREQ=DAILY;BYMONTH=1;BYMONTH=1", "FREQ=DAILY;BYSETPOS=0", "FREQ=DAILY;BYSETPOS=367", "FREQ=DAILY;BYSETPOS=-367", "FREQ=DAILY;BYSETPOS=", "FREQ=DAILY;BYSETPOS=1;BYSETPOS=1",
		"FREQ=DAILY;WKST=XX", "FREQ=DAILY;WKST=", "FREQ=DAILY;WKST=1MO", "FREQ=DAILY;WKST=MO,TU", "FREQ=DAILY;WKST=MO;WKST=MO", "FREQ=DAILY:COUNT=1", "FREQ=DAILY;COUNT:1", "FREQ=DAILY COUNT=1",
	},
	KInteger: {"", "x", "1.5", "1x", "2147483648", "-2147483649", "0x10", "--1", "+-1", " 1", "1 ", "1_000", "+", "-", "1e3", "99999999999999999999", "4294967297", "-99999999999999999999", "1,2"},
	KFloats:  {"", "1", "1;", ";1", ";", "1;2;3", "x;y", "1;y", "x;1", "1,2", "NaN;1", "1;nan", "1;Inf", "-Inf;1", "+infinity;1", "1; 2", " 1;2", "1 ;2", "1e400;1", "1.2.3;1", "--1;1"},
	KBoolean: {"", "x", "YES", "NO", "2", "TRUEE", " TRUE", "TRUE ", "-1", "ON", "TRUE,FALSE", "TRU", "00", "01"},
	KOffset:  {"", "+", "-", "+1", "+0", "+100", "+01", "0x100", "+0160", "-0199", "+016000", "+01000", "+0100000", "++0100", "+010060", "-010099", "-0000", "-000000", "+01:00", "+0100Z", "Z", "+-100", "+ 100", "+01 0", "UTC", "+010", "+010 00"},
	KURI:     {"http://[::1", "%zz", "://", ":", "http://a b/", "%", "http://h:x/", "http://%zz/", "a%2", "http://[fe80::1%en0]/"},
	KBinary:  {"!!!!", "YQ", "YQ=", "Y", "YQ==Y", "YQ ==", "Y-_=", "YQ==YQ==", "=", "====", "YWJj,YWJj", "YWJ\\j"},
}

// valueErrs are the errors that describe a bad value of a kind, as far as
// the kind has an error of its own which is used for all of its bad values.
func valueErrs(k Kind, value string) []error {
	switch k {
	case KText, KMText:
		return es(ics.ErrInvalidText)
	case KRecur:
		return es(ics.ErrInvalidRecur)
	case KBoolean:
		return es(ics.ErrInvalidBoolean)
	case KOffset:
		return es(ics.ErrInvalidOffset)
	case KEnum:
		return es(ics.ErrInvalidValue)
	case KDateTime: // ones that do not have the form of a time
		switch value {
		case "", "20200101", "20200101T0000", "20200101T00000", "PT1H", "now", "20200101T000000ZZ", "20200101T000000.5", "20200101T000000+0100":
			return es(ics.ErrInvalidTime)
		}
	case KDuration:
		switch value {
		case "", "P", "5D", "P5", "PT5", "P1H", "PT1D", "P1W2D", "P5M", "PT1HT2H", "P1D5H", "PT1S1H", "P1D1D", "P1.5D", "T1H", "P1Y":
			return es(ics.ErrInvalidDuration)
		}
	case KPeriod:
		switch value {
		case "", "x", "20200101T000000Z", "20200101T000000Z/":
			return es(ics.ErrInvalidPeriod)
		case "20200101T000000Z/20190101T000000Z", "20200101T000000Z/20200101T000000Z", "20200101T000001/20200101T000000":
			return es(ics.ErrInvalidPeriod, ics.ErrInvalidPeriodEnd)
		case "20200101T000000Z/P", "20200101T000000/P", "20200101T000000/P1H", "20200101T000000Z/PT1HT2H", "20200101T000000/P1W2D":
			return es(ics.ErrInvalidPeriod, ics.ErrInvalidPeriodDuration, ics.ErrInvalidDuration)
		case "20200101T00/PT1H":
			return es(ics.ErrInvalidPeriod, ics.ErrInvalidPeriodStart, ics.ErrInvalidTime)
		case "20200101T000000Z/x", "20200101T000000/x", "20200101T000000Z/T1H", "20200101T000000/20200102", "20200101T000000Z/20200102T00Z":
			return es(ics.ErrInvalidPeriod, ics.ErrInvalidPeriodEnd, ics.ErrInvalidTime)
		}
	case KFloats:
		switch value {
		case "", "1", "1,2":
			return es(ics.ErrInvalidTFloat)
		case "NaN;1", "1;nan", "1;Inf", "-Inf;1":
			return es(ics.ErrInvalidFloat)
		}
	}

	return nil
}

type judgement uint8

const (
	jBad judgement = iota
	jGood
	jLenient // not legal, but taken by the package on purpose
)

// judge says whether a value in the text is legal, and what it means.
func judge(def *propDef, k Kind, s, zone string) (Val, judgement) {
	enc := ""
	in := s

	switch k {
	case KBinary:
		enc = "BASE64"
	case KBoolean, KEnum, KRecur:
		in = strings.ToUpper(s)
	}

	v, err := refValue(def, k, in, zone, zone != "", enc)
	if err == nil {
		return v, jGood
	}

	lenient := false

	switch k {
	case KText, KMText: // unknown escapes
		t := strings.ReplaceAll(s, "\\\\", "")
		t = strings.ReplaceAll(strings.ReplaceAll(t, "\\,", ""), "\\;", "")
		lenient = !strings.Contains(t, ";") && (k == KMText || !strings.Contains(t, ","))
	case KDateTime, KPeriod: // leap seconds, durations, and only one time in UTC
		lenient = k == KPeriod && strings.Count(s, "Z") == 1 || strings.Contains(s, "60") || k == KPeriod && lenientDur(s[strings.IndexByte(s, '/')+1:])
	case KDuration:
		lenient = lenientDur(s)
	case KRecur: // leading zeros, leap seconds
		lenient = strings.Contains(s, "0") || strings.Contains(s, "UNTIL")
	case KFloats:
		a, b, _ := strings.Cut(s, ";")
		x, err1 := strconv.ParseFloat(a, 64)
		y, err2 := strconv.ParseFloat(b, 64)
		lenient = err1 == nil && err2 == nil && !notFinite(x) && !notFinite(y)
	case KBoolean:
		_, err := strconv.ParseBool(in)
		lenient = err == nil
	case KOffset:
		_, err := refOffset("+" + s)
		lenient = err == nil
	case KBinary:
		_, err := base64.StdEncoding.DecodeString(s)
		lenient = err == nil
	case KURI, KAddress:
		_, err := url.Parse(s)
		lenient = err == nil
	case KEnum:
		lenient = def.name != "STATUS" && def.name != "TRANSP" && s != "" && strings.Trim(in, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-") == ""
	}

	if lenient || !utf8.ValidString(s) {
		return v, jLenient
	}

	return v, jBad
}

func notFinite(f float64) bool { return f-f != 0 }

// lenientDur determines whether only minutes are missing between hours and
// seconds.
func lenientDur(s string) bool {
	i := strings.IndexByte(s, 'H')

	if i < 0 {
		return false
	}

	_, err := refDur(s[:i+1] + "0M" + s[i+1:])

	return err == nil
}

const editChars = "0123456789TZPWDHMS+-/;,=:. ABEFGILNOQRUVXY\\tz_%"

// edit changes a few characters.
func (g *gen) edit(s string) string {
	b := []byte(s)

	for n := 1 + g.n(2); n > 0; n-- {
		switch i := g.n(len(b) + 1); g.n(4) {
		case 0:
			b = append(b[:i:i], append([]byte{editChars[g.n(len(editChars))]}, b[i:]...)...)
		case 1:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2:
			if i < len(b) && b[i] < 0x80 {
				b[i] = editChars[g.n(len(editChars))]
			}
		case 3:
			j := g.n(len(b) + 1)

			if i < len(b) && j < len(b) && b[i] < 0x80 && b[j] < 0x80 {
				b[i], b[j] = b[j], b[i]
			}
		}
	}

	return string(b)
}

// badValuesOf are the values that are bad for the property.
func badValuesOf(p *Prop) []string {
	if p.Name == "REQUEST-STATUS" {
		return nil // may have parts
	}

	switch p.Val.Kind {
	case KAddress:
		return badValues[KURI]
	case KEnum:
		list := []string{"", " ", "A B", "*", "\"X\""}

		if p.Name == "STATUS" || p.Name == "TRANSP" {
			list = append(list, "X", "X-FOO", p.Val.S+"X", "UNKNOWN", p.Val.S[1:])
		}

		return list
	}

	return badValues[p.Val.Kind]
}

// breakValue replaces the value of a property by a bad one.
func (g *gen) breakValue(p *Prop, text string) (string, []error, bool) {
	def := props[p.Name]
	k := p.Val.Kind
	list := badValuesOf(p)

	if len(list) == 0 {
		return "", nil, false
	}

	if g.n(3) > 0 && k != KText && k != KMText {
		// random changes that make it bad
		for i := 0; i < 20; i++ {
			t := g.edit(text)

			if strings.Contains(t, "\xff") || hasControl(t) {
				continue
			}

			if _, j := judge(def, k, t, ""); j == jBad {
				return t, nil, true
			}
		}
	}

	v := pick(g, list)

	return v, valueErrs(k, v), true
}

// badLines are content lines that do not follow the grammar.
var badLines = []struct {
	line string
	err  error
}{
	{"", ics.ErrInvalidContentLine}, {":x", ics.ErrInvalidContentLine}, {"é:x", ics.ErrInvalidContentLine}, {";X=1:x", ics.ErrInvalidContentLine}, {"=x", ics.ErrInvalidContentLine}, {"\"X\":x", ics.ErrInvalidContentLine}, {"_:x", ics.ErrInvalidContentLine}, {"\x00", ics.ErrInvalidContentLine}, {"\r", ics.ErrInvalidContentLine},
	{"ABC", ics.ErrInvalidContentLineName}, {"A_B:x", ics.ErrInvalidContentLineName}, {"A B:x", ics.ErrInvalidContentLineName}, {"ABC ;X=1:x", ics.ErrInvalidContentLineName}, {"ABC\x00:x", ics.ErrInvalidContentLineName}, {"ABC=x", ics.ErrInvalidContentLineName}, {"ABC,D:x", ics.ErrInvalidContentLineName}, {"SUMMARY", ics.ErrInvalidContentLineName}, {"SUMMARY :x", ics.ErrInvalidContentLineName}, {"ABCé:x", ics.ErrInvalidContentLineName}, {"A.B:x", ics.ErrInvalidContentLineName}, {"ABC\n:x", ics.ErrInvalidContentLineName},
	{"ABC;:x", ics.ErrInvalidContentLineParamName}, {"ABC;X:x", ics.ErrInvalidContentLineParamName}, {"ABC; X=1:x", ics.ErrInvalidContentLineParamName}, {"ABC;X =1:x", ics.ErrInvalidContentLineParamName}, {"ABC;X=1;:x", ics.ErrInvalidContentLineParamName}, {"ABC;X=1;;Y=1:x", ics.ErrInvalidContentLineParamName}, {"ABC;=1:x", ics.ErrInvalidContentLineParamName}, {"ABC;X=1;=1:x", ics.ErrInvalidContentLineParamName}, {"ABC;X_Y=1:x", ics.ErrInvalidContentLineParamName}, {"ABC;X", ics.ErrInvalidContentLineParamName}, {"ABC;é=1:x", ics.ErrInvalidContentLineParamName}, {"ABC;\"X\"=1:x", ics.ErrInvalidContentLineParamName},
	{"ABC;X=\"a:x", ics.ErrInvalidContentLineQuotedParamValue}, {"ABC;X=\"a\x7f\":x", ics.ErrInvalidContentLineQuotedParamValue}, {"ABC;X=\"a\x01\":x", ics.ErrInvalidContentLineQuotedParamValue}, {"ABC;X=1,\"a:x", ics.ErrInvalidContentLineQuotedParamValue}, {"ABC;X=1;Y=\"a:x", ics.ErrInvalidContentLineQuotedParamValue}, {"ABC;X=\"", ics.ErrInvalidContentLineQuotedParamValue}, {"ABC;X=\"a\nb\":x", ics.ErrInvalidContentLineQuotedParamValue}, {"ABC;X=\"a\rb\":x", ics.ErrInvalidContentLineQuotedParamValue},
	{"ABC;X=a\"b:x", ics.ErrInvalidContentLineParamValue}, {"ABC;X=\"a\"b:x", ics.ErrInvalidContentLineParamValue}, {"ABC;X=a\x01b:x", ics.ErrInvalidContentLineParamValue}, {"ABC;X=a", ics.ErrInvalidContentLineParamValue}, {"ABC;X=\"a\"", ics.ErrInvalidContentLineParamValue}, {"ABC;X=\"a\"\"b\":x", ics.ErrInvalidContentLineParamValue}, {"ABC;X=a\x7f:x", ics.ErrInvalidContentLineParamValue}, {"ABC;X=a\nb:x", ics.ErrInvalidContentLineParamValue}, {"ABC;X=", ics.ErrInvalidContentLineParamValue}, {"ABC;X=1,2", ics.ErrInvalidContentLineParamValue},
	{"ABC:a\x00b", ics.ErrInvalidContentLineValue}, {"ABC:a\nb", ics.ErrInvalidContentLineValue}, {"ABC:a\rb", ics.ErrInvalidContentLineValue}, {"ABC:\x7f", ics.ErrInvalidContentLineValue}, {"ABC:a\x1b", ics.ErrInvalidContentLineValue}, {"SUMMARY:a\x08", ics.ErrInvalidContentLineValue}, {"ABC;X=1:a\x0bb", ics.ErrInvalidContentLineValue}, {"ABC:a\n", ics.ErrInvalidContentLineValue}, {"ABC:a\r", ics.ErrInvalidContentLineValue}, {"ABC;X=\"1\":\x0c", ics.ErrInvalidContentLineValue}, {"ABC:a\x1f", ics.ErrInvalidContentLineValue}, {"ABC:\x0e", ics.ErrInvalidContentLineValue},
}

type badParam struct {
	ps    []string
	label string
	errs  []error
}

// badParams gives params which are malformed, repeated or not allowed.
func (g *gen) badParams(p *Prop) (options []badParam) {
	def := props[p.Name]
	s := &style{r: g.r}

	add := func(label string, errs []error, ps ...string) {
		options = append(options, badParam{ps, label, errs})
	}

	for _, n := range def.params {
		pd := params[n]

		good := func() string {
			pa := g.param(n)
			v := s.paramValue(pa.Vals[0], pd.quoted)

			if pd.enum != nil || pd.fixed != "" || pd.boolean || pd.fmttype {
				v = pa.Vals[0]
			}

			return n + "=" + v
		}

		add("repeated param "+n, es(ics.ErrDuplicateParam), good(), good())

		if !pd.multiple {
			add("param "+n+" with several values", es(ics.ErrInvalidParam), good()+","+strings.TrimPrefix(good(), n+"="))
		}

		if pd.quoted {
			add("unquoted param "+n, es(ics.ErrInvalidParam), n+"=http")

			if pd.multiple {
				add("partly unquoted param "+n, es(ics.ErrInvalidParam), n+"=\"http\",x")
				add("partly unquoted param "+n, es(ics.ErrInvalidParam), n+"=x,\"http\"")
			}
		}

		if pd.uri {
			add("param "+n+" with a bad address", nil, n+"=\""+pick(g, badValues[KURI])+"\"")
		}

		if pd.fixed != "" {
			add("param "+n+" with a bad value", es(ics.ErrInvalidParam), n+"="+pick(g, []string{"X", "", "THISANDPRIOR", "THISANDFUTUREX"}))
		}

		if pd.boolean {
			add("param "+n+" with a bad value", es(ics.ErrInvalidBoolean), n+"="+pick(g, []string{"X", "", "YES", "2", "TRUEE"}))
		}

		if pd.fmttype {
			add("param "+n+" with a bad value", es(ics.ErrInvalidParam), n+"="+pick(g, []string{"X", "", "text", "text/", "/plain", "/"}))
		}
	}

	if len(def.kinds) > 1 {
		vn := valueNames[p.Val.Kind]
		add("repeated param VALUE", es(ics.ErrDuplicateParam), "VALUE="+vn, "VALUE="+vn)
		add("param VALUE with several values", es(ics.ErrInvalidValue), "VALUE="+vn+","+vn)

		bad := []string{"", "X", "TEXT", "INTEGER", "DATE-TIMES", "X-FOO", vn + "X"}
		add("param VALUE with a bad value", es(ics.ErrInvalidValue), "VALUE="+pick(g, bad))
	}

	if p.Val.Kind == KDateTime || p.Val.Kind == KPeriod {
		zone := "TZID=" + pick(g, []string{"Nowhere", "America/", "\"Europe/Lon don\"", "../../etc/passwd", "X-1", "Europe/London ", "\"\nEurope/London\"", "/etc/localtime"}[:6])
		add("unknown TZID", nil, zone)
	}

	if p.Val.Kind == KBinary {
		add("no ENCODING", es(ics.ErrInvalidEncoding))
		add("unknown ENCODING", es(ics.ErrInvalidEncoding), "ENCODING="+pick(g, []string{"8BIT", "", "BASE-64", "QUOTED-PRINTABLE", "BASE64X"}))
	}

	return options
}

// put gives the property those params, in place of its own ones.
func (b *badParam) put(g *gen, qs []string, text string) ([]string, string) {
	keep := qs[:0:0]

	for _, o := range qs {
		on := strings.ToUpper(o[:strings.IndexByte(o, '=')])
		drop := on == "TZID" && b.label == "unknown TZID" || on == "ENCODING" && strings.HasSuffix(b.label, "ENCODING") || on == "VALUE" && strings.Contains(b.label, " VALUE")

		for _, a := range b.ps {
			drop = drop || strings.HasPrefix(a, on+"=")
		}

		if !drop {
			keep = append(keep, o)
		}
	}

	qs = append(keep, b.ps...)
	g.r.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })

	if b.label == "unknown TZID" {
		text = strings.ReplaceAll(text, "Z", "")
	}

	return qs, text
}

// zoneOfBad may take the zone from the params of a bad value. With it, a time in
// UTC is bad as well.
func (g *gen) zoneOfBad(qs []string, value string, errs []error) ([]string, []error) {
	if keep := withoutZone(qs); len(keep) == len(qs) || g.n(2) == 0 {
		return keep, errs
	}

	if strings.Contains(value, "Z") {
		return qs, nil
	}

	return qs, errs
}

func withoutZone(qs []string) []string {
	keep := qs[:0:0]

	for _, o := range qs {
		if !strings.HasPrefix(strings.ToUpper(o), "TZID=") {
			keep = append(keep, o)
		}
	}

	return keep
}

// sweep breaks one property in all of the ways that are listed for it.
func (g *gen) sweep(m *Comp, p *Prop, in string, s *style, f func(*breakage)) {
	for _, v := range badValuesOf(p) {
		var errs []error

		s.hook = func(q *Prop, qs []string, text string) ([]string, string) {
			if q != p {
				return qs, text
			}

			qs, errs = g.zoneOfBad(qs, v, valueErrs(p.Val.Kind, v))

			return qs, v
		}

		text := s.text(m)
		f(&breakage{fmt.Sprintf("bad %s %q of %s in %s", kindNames[p.Val.Kind], v, p.Name, in), text, errs})
	}

	for _, b := range g.badParams(p) {
		s.hook = func(q *Prop, qs []string, text string) ([]string, string) {
			if q != p {
				return qs, text
			}

			return b.put(g, qs, text)
		}

		f(&breakage{b.label + " of " + p.Name + " in " + in, s.text(m), b.errs})
	}

	s.hook = nil
}

// breakText breaks one rule in the calendar, at or below the component target.
func (g *gen) breakText(m *Comp, s *style) *breakage {
	var all []*Comp

	m.walk(func(c, _ *Comp) { all = append(all, c) })
	target := pick(g, all)

	switch g.n(20) {
	case 0, 1: // missing property
		var req []string

		for _, c := range all {
			if len(c.Props) > 0 && g.n(2) == 0 {
				target = c
			}
		}

		for _, u := range comps[target.Name].props {
			if u.required {
				req = append(req, u.name)
			}
		}

		if len(req) == 0 {
			return nil
		}

		n := pick(g, req)
		target.remove(n)

		return &breakage{"missing " + n + " in " + target.Name, s.text(m), es(ics.ErrMissingRequired)}
	case 2: // missing or repeated action
		var alarms []*Comp

		for _, c := range all {
			if strings.HasPrefix(c.Name, "VALARM/") {
				alarms = append(alarms, c)
			}
		}

		if len(alarms) == 0 {
			return nil
		}

		target = pick(g, alarms)
		kind := g.n(3)
		s.compHook = func(c *Comp, ls []string) []string {
			if c != target {
				return ls
			}

			for i, l := range ls {
				if strings.HasPrefix(strings.ToUpper(l), "ACTION:") {
					switch kind {
					case 0:
						return append(ls[:i:i], ls[i+1:]...)
					case 1:
						ls[i] = "ACTION:"

						return ls
					default:
						at := 1 + g.n(len(ls)-1)

						return append(ls[:at:at], append([]string{pick(g, []string{l, "ACTION:AUDIO", "action:none"})}, ls[at:]...)...)
					}
				}
			}

			return ls
		}

		label, errs := "repeated ACTION", es(ics.ErrInvalidStructure)

		if kind < 2 {
			label, errs = "missing ACTION", es(ics.ErrMissingAlarmAction)
		}

		return &breakage{label, s.text(m), errs}
	case 3, 4, 5: // repeated property
		var single []string

		for _, u := range comps[target.Name].props {
			// the RFCs allow more of those in alarms
			if alarm := strings.HasPrefix(target.Name, "VALARM/"); !u.multiple && !(alarm && (u.name == "ATTENDEE" || u.name == "RELATED-TO")) {
				single = append(single, u.name)
			}
		}

		if len(single) == 0 {
			return nil
		}

		n := pick(g, single)

		for i := 0; i < 2; i++ {
			if i == 0 && target.has(n) {
				continue
			}

			p := g.prop(n)
			rfcTimesProp(&p)
			at := g.n(len(target.Props) + 1)
			target.Props = append(target.Props[:at:at], append([]Prop{p}, target.Props[at:]...)...)
		}

		return &breakage{"repeated " + n + " in " + target.Name, s.text(m), nil}
	case 6, 7: // rules between properties
		label := g.breakModel(all)

		if label == "" {
			return nil
		}

		return &breakage{label, s.text(m), es(ics.ErrRequirementNotMet)}
	case 8, 9: // structure
		label := ""
		kind := g.n(6)
		errs := es(ics.ErrInvalidEnd, io.ErrUnexpectedEOF)
		other := pick(g, []string{"VEVENT", "VTODO", "VALARM", "VCALENDAR", "STANDARD", "X-FOO", "", "VTIMEZONE", "VEVEN", "VEVENTS"})

		s.compHook = func(c *Comp, ls []string) []string {
			if c != target {
				return ls
			}

			name, _, _ := strings.Cut(c.Name, "/")

			switch kind {
			case 0:
				label = "missing END"

				return ls[:len(ls)-1]
			case 1:
				if name == other {
					return ls
				}

				label = "END of something else"
				ls[len(ls)-1] = "END:" + other

				return ls
			case 2:
				if name == "VCALENDAR" {
					return ls
				}

				label = "missing BEGIN"

				return ls[1:]
			case 3:
				label = "BEGIN without END"
				at := 1 + g.n(len(ls)-1)

				return append(ls[:at:at], append([]string{"BEGIN:X-" + other}, ls[at:]...)...)
			case 5:
				if name != "VALARM" {
					return ls
				}

				label = "component within an alarm"
				errs = es(ics.ErrInvalidStructure)
				at := 1 + g.n(len(ls)-1)

				return append(ls[:at:at], append([]string{"BEGIN:X-" + other, "END:X-" + other}, ls[at:]...)...)
			default:
				if name == other {
					return ls
				}

				label = "END without BEGIN"
				at := 1 + g.n(len(ls)-1)

				return append(ls[:at:at], append([]string{"END:" + other}, ls[at:]...)...)
			}
		}

		text := s.text(m)

		if label == "" {
			return nil
		}

		// which of these is reported depends on what follows
		if kind != 1 && kind != 5 {
			errs = nil
		}

		return &breakage{label, text, errs}
	case 10: // not a calendar
		t := s.text(m)
		i := strings.Index(t, "\r\n")

		switch g.n(3) {
		case 0:
			return &breakage{"calendar without BEGIN", t[i+2:], es(ics.ErrInvalidCalendar)}
		case 1:
			return &breakage{"calendar with another BEGIN", "BEGIN:" + pick(g, []string{"VEVENT", "VCALENDARS", "VCARD", "", "X-VCALENDAR"}) + t[i:], es(ics.ErrInvalidCalendar)}
		default:
			return &breakage{"something before the calendar", "X-FOO:1\r\n" + t, es(ics.ErrInvalidCalendar)}
		}
	case 11, 12, 13: // content lines
		ls := strings.Split(strings.TrimSuffix(s.text(m), "\r\n"), "\r\n")
		b := pick(g, badLines)
		at := 1 + g.n(len(ls)-1)
		line := []string{b.line}
		where := ""

		if g.n(4) == 0 && !inAlarm(ls, at) {
			line = []string{"BEGIN:X-A", b.line, "END:X-A"}
			where = " in an unknown component"
		}

		ls = append(ls[:at:at], append(line, ls[at:]...)...)

		return &breakage{fmt.Sprintf("malformed line %q%s", b.line, where), strings.Join(ls, "\r\n") + "\r\n", es(b.err)}
	default: // values and params
		var ps []*Prop

		owner := map[*Prop]string{}

		for _, c := range all {
			for i := range c.Props {
				ps = append(ps, &c.Props[i])
				owner[&c.Props[i]] = c.Name
			}
		}

		p := pick(g, ps)
		label := ""

		var errs []error

		params := g.n(5) < 2
		s.hook = func(q *Prop, qs []string, text string) ([]string, string) {
			if q != p {
				return qs, text
			}

			if params {
				if bs := g.badParams(p); len(bs) > 0 {
					b := &bs[g.n(len(bs))]
					qs, text = b.put(g, qs, text)
					label, errs = b.label, b.errs

					return qs, text
				}
			}

			v, e, ok := g.breakValue(p, text)

			if ok {
				qs, errs = g.zoneOfBad(qs, v, e)
				label = fmt.Sprintf("bad %s %q", kindNames[p.Val.Kind], v)
				text = v
			}

			return qs, text
		}

		text := s.text(m)

		if label == "" {
			return nil
		}

		return &breakage{label + " of " + p.Name + " in " + owner[p], text, errs}
	}
}

// inAlarm determines whether the line is inside an alarm, in which there can be
// no components.
func inAlarm(ls []string, at int) bool {
	in := false

	for _, l := range ls[:at] {
		switch strings.ToUpper(l) {
		case "BEGIN:VALARM":
			in = true
		case "END:VALARM":
			in = false
		}
	}

	return in
}

func rfcTimesProp(p *Prop) {
	c := &Comp{Name: "X", Props: []Prop{*p}}
	rfcTimes(c)
	*p = c.Props[0]
}

// breakModel breaks a rule between properties or components.
func (g *gen) breakModel(all []*Comp) string {
	g.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })

	put := func(c *Comp, name string) {
		c.remove(name)

		p := g.prop(name)
		rfcTimesProp(&p)
		at := g.n(len(c.Props) + 1)
		c.Props = append(c.Props[:at:at], append([]Prop{p}, c.Props[at:]...)...)
	}

	for _, c := range all {
		switch {
		case c.Name == "VEVENT" && g.n(2) == 0:
			put(c, "DTEND")
			put(c, "DURATION")

			return "DTEND and DURATION"
		case c.Name == "VTODO":
			if g.n(2) == 0 {
				put(c, "DUE")
				put(c, "DURATION")
				put(c, "DTSTART")

				return "DUE and DURATION"
			}

			c.remove("DUE")
			c.remove("DTSTART")
			put(c, "DURATION")

			return "DURATION without DTSTART"
		case c.Name == "VTIMEZONE":
			c.Subs = nil

			return "time zone without rules"
		case strings.HasPrefix(c.Name, "VALARM/") && c.Name != "VALARM/NONE":
			switch g.n(3) {
			case 0:
				put(c, "DURATION")
				c.remove("REPEAT")

				return "DURATION without REPEAT in " + c.Name
			case 1:
				put(c, "REPEAT")
				c.remove("DURATION")

				return "REPEAT without DURATION in " + c.Name
			default:
				put(c, "GEO-LOCATION")
				c.remove("PROXIMITY")

				return "GEO-LOCATION without PROXIMITY in " + c.Name
			}
		}
	}

	return ""
}

// matches determines whether the error is one of those.
func matches(err error, errs []error) bool {
	for _, e := range errs {
		if errors.Is(err, e) {
			return true
		}
	}

	return false
}
