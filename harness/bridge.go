package main

// The bridge turns models into calendars of the package under test, and
// calendars into models, through the exported types only.

import (
	"bytes"
	"fmt"
	"net/url"
	"reflect"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

var baseTypes = map[Kind]reflect.Type{
	KText:     reflect.TypeOf(ics.Text("")),
	KMText:    reflect.TypeOf(ics.MText(nil)),
	KDateTime: reflect.TypeOf(ics.DateTime{}),
	KDate:     reflect.TypeOf(ics.Date{}),
	KDuration: reflect.TypeOf(ics.Duration{}),
	KPeriod:   reflect.TypeOf(ics.Period{}),
	KRecur:    reflect.TypeOf(ics.Recur{}),
	KInteger:  reflect.TypeOf(ics.Integer(0)),
	KFloats:   reflect.TypeOf(ics.TFloat{}),
	KBoolean:  reflect.TypeOf(ics.Boolean(false)),
	KOffset:   reflect.TypeOf(ics.UTCOffset(0)),
	KURI:      reflect.TypeOf(ics.URI{}),
	KAddress:  reflect.TypeOf(ics.CalendarAddress{}),
	KBinary:   reflect.TypeOf(ics.Binary(nil)),
}

// valueFields are the names of the fields of properties with a choice of values.
var valueFields = map[Kind]string{KURI: "URI", KBinary: "Binary", KDateTime: "DateTime", KDate: "Date", KPeriod: "Period", KDuration: "Duration"}

var (
	frequencies = map[string]ics.Frequency{"SECONDLY": ics.Secondly, "MINUTELY": ics.Minutely, "HOURLY": ics.Hourly, "DAILY": ics.Daily, "WEEKLY": ics.Weekly, "MONTHLY": ics.Monthly, "YEARLY": ics.Yearly}
	weekDays    = map[string]ics.WeekDay{"SU": ics.Sunday, "MO": ics.Monday, "TU": ics.Tuesday, "WE": ics.Wednesday, "TH": ics.Thursday, "FR": ics.Friday, "SA": ics.Saturday}
	months      = []ics.Month{ics.UnknownMonth, ics.January, ics.February, ics.March, ics.April, ics.May, ics.June, ics.July, ics.August, ics.September, ics.October, ics.November, ics.December}
)

func durToGo(d Dur) ics.Duration {
	return ics.Duration{Negative: d.Neg, Weeks: d.W, Days: d.D, Hours: d.H, Minutes: d.M, Seconds: d.S}
}

func durFromGo(d ics.Duration) Dur {
	return Dur{Neg: d.Negative, W: d.Weeks, D: d.Days, H: d.Hours, M: d.Minutes, S: d.Seconds}
}

func mustURL(s string) url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(fmt.Sprintf("harness: bad URL %q: %s", s, err))
	}

	return *u
}

func conv[T any](l []int) []T {
	if l == nil {
		return nil
	}

	out := make([]T, len(l))

	for i, n := range l {
		reflect.ValueOf(&out[i]).Elem().Set(reflect.ValueOf(n).Convert(reflect.TypeOf(out[i])))
	}

	return out
}

func unconv[T uint8 | int8 | int16](l []T) []int {
	if len(l) == 0 {
		return nil
	}

	out := make([]int, len(l))

	for i, n := range l {
		out[i] = int(n)
	}

	return out
}

func ruleToGo(r *Rule) ics.Recur {
	g := ics.Recur{
		Frequency: frequencies[r.Freq], WeekStart: weekDays[r.WkSt], UntilTime: r.UntilTime, Count: r.Count, Interval: r.Interval,
		BySecond: conv[uint8](r.BySecond), ByMinute: conv[uint8](r.ByMinute), ByHour: conv[uint8](r.ByHour), ByMonthDay: conv[int8](r.ByMonthDay),
		ByYearDay: conv[int16](r.ByYearDay), ByWeekNum: conv[int8](r.ByWeekNo), BySetPos: conv[int16](r.BySetPos),
	}

	if r.Until != nil {
		g.Until = *r.Until
	}

	for _, m := range r.ByMonth {
		g.ByMonth = append(g.ByMonth, months[m])
	}

	for _, d := range r.ByDay {
		g.ByDay = append(g.ByDay, ics.DayRecur{Day: weekDays[d.Day], Occurrence: int8(d.N)})
	}

	return g
}

func keyOf[V comparable](m map[string]V, v V) string {
	for k, w := range m {
		if w == v {
			return k
		}
	}

	return fmt.Sprintf("INVALID(%v)", v)
}

func ruleFromGo(g ics.Recur) *Rule {
	r := &Rule{
		Freq: keyOf(frequencies, g.Frequency), Count: g.Count, Interval: g.Interval, BySecond: unconv(g.BySecond), ByMinute: unconv(g.ByMinute),
		ByHour: unconv(g.ByHour), ByMonthDay: unconv(g.ByMonthDay), ByYearDay: unconv(g.ByYearDay), ByWeekNo: unconv(g.ByWeekNum), BySetPos: unconv(g.BySetPos),
	}

	if g.WeekStart != ics.UnknownDay {
		r.WkSt = keyOf(weekDays, g.WeekStart)
	}

	if !g.Until.IsZero() {
		u := g.Until
		r.Until = &u
		r.UntilTime = g.UntilTime
	}

	for _, m := range g.ByMonth {
		n := -int(m)

		for i, o := range months {
			if o == m {
				n = i
			}
		}

		r.ByMonth = append(r.ByMonth, n)
	}

	for _, d := range g.ByDay {
		r.ByDay = append(r.ByDay, DayNum{int(d.Occurrence), keyOf(weekDays, d.Day)})
	}

	return r
}

// valToGo gives the value as the base type of its kind.
func valToGo(v *Val) any {
	switch v.Kind {
	case KText:
		return ics.Text(v.S)
	case KMText:
		var m ics.MText

		for _, t := range v.L {
			m = append(m, ics.Text(t))
		}

		return m
	case KDateTime:
		return ics.DateTime{Time: v.T}
	case KDate:
		return ics.Date{Time: v.T}
	case KDuration:
		return durToGo(v.D)
	case KPeriod:
		return ics.Period{Start: ics.DateTime{Time: v.T}, End: ics.DateTime{Time: v.End}, Duration: durToGo(v.D)}
	case KRecur:
		return ruleToGo(v.R)
	case KInteger:
		return ics.Integer(v.I)
	case KFloats:
		return ics.TFloat(v.F)
	case KBoolean:
		return ics.Boolean(v.B)
	case KOffset:
		return ics.UTCOffset(v.I)
	case KURI:
		return ics.URI{URL: mustURL(v.S)}
	case KAddress:
		return ics.CalendarAddress{URL: mustURL(v.S)}
	case KBinary:
		if v.Bytes == nil {
			return ics.Binary{}
		}

		return ics.Binary(bytes.Clone(v.Bytes))
	}

	panic("harness: unknown kind")
}

func valFromGo(k Kind, a any) Val {
	v := Val{Kind: k}

	switch a := a.(type) {
	case ics.Text:
		v.S = string(a)
	case ics.MText:
		for _, t := range a {
			v.L = append(v.L, string(t))
		}
	case ics.DateTime:
		v.T = a.Time
	case ics.Date:
		v.T = a.Time
	case ics.Duration:
		v.D = durFromGo(a)
	case ics.Period:
		v.T, v.End, v.D = a.Start.Time, a.End.Time, durFromGo(a.Duration)
	case ics.Recur:
		v.R = ruleFromGo(a)
	case ics.Integer:
		v.I = int64(a)
	case ics.TFloat:
		v.F = a
	case ics.Boolean:
		v.B = bool(a)
	case ics.UTCOffset:
		v.I = int64(a)
	case ics.URI:
		v.S = a.URL.String()
	case ics.CalendarAddress:
		v.S = a.URL.String()
	case ics.Binary:
		v.Bytes = a
	default:
		panic(fmt.Sprintf("harness: unknown type %T", a))
	}

	return v
}

// constructors are the functions that give pointers to copies.
var constructors = map[reflect.Type]reflect.Value{}

func init() {
	for _, f := range []any{
		ics.NewCommonName, ics.NewDirectoryEntry, ics.NewFormatType, ics.NewLanguage, ics.NewMember, ics.NewRSVP,
		ics.NewSentBy, ics.NewTimezoneID, ics.NewID, ics.NewAgentID,
		ics.NewPercentComplete, ics.NewPriority, ics.NewRepeat, ics.NewSequence,
	} {
		v := reflect.ValueOf(f)
		constructors[v.Type().In(0)] = v
	}
}

// pointer gives a pointer to a copy of what it is given a pointer to, by the
// means that the package has for that.
func pointer(n reflect.Value) reflect.Value {
	if c, ok := constructors[n.Elem().Type()]; ok {
		return c.Call([]reflect.Value{n.Elem()})[0]
	}

	if m := n.Elem().MethodByName("New"); m.IsValid() && m.Type().NumIn() == 0 {
		return m.Call(nil)[0]
	}

	return n
}

func setParam(f reflect.Value, p *Param) {
	def := params[p.Name]

	if def.multiple {
		for _, s := range p.Vals {
			e := reflect.New(f.Type().Elem()).Elem()

			if def.uri {
				e.Set(reflect.ValueOf(ics.CalendarAddress{URL: mustURL(s)}))
			} else {
				e.SetString(s)
			}

			f.Set(reflect.Append(f, e))
		}

		return
	}

	n := reflect.New(f.Type().Elem())

	switch e := n.Elem(); {
	case def.enum != nil:
		e.Set(reflect.ValueOf(def.enum[p.Vals[0]]))
	case def.fixed != "":
	case def.boolean:
		e.SetBool(p.Vals[0] == "TRUE")
	case def.uri:
		e.Set(reflect.ValueOf(ics.URI{URL: mustURL(p.Vals[0])}).Convert(e.Type()))
	default:
		e.SetString(p.Vals[0])
	}

	f.Set(pointer(n))
}

var uriType, addrType = reflect.TypeOf(ics.URI{}), reflect.TypeOf(ics.CalendarAddress{})

func getParam(f reflect.Value, name string) (Param, bool) {
	p, def := Param{Name: name}, params[name]

	if f.IsNil() {
		return p, false
	}

	if def.multiple {
		for i := 0; i < f.Len(); i++ {
			if def.uri {
				u := f.Index(i).Convert(addrType).Interface().(ics.CalendarAddress)
				p.Vals = append(p.Vals, u.URL.String())
			} else {
				p.Vals = append(p.Vals, f.Index(i).String())
			}
		}

		return p, true
	}

	switch e := f.Elem(); {
	case def.enum != nil:
		k := keyOf(def.enum, e.Interface())

		if strings.HasPrefix(k, "INVALID") { // documented as being written as UNKNOWN
			k = "UNKNOWN"
		}

		p.Vals = []string{k}
	case def.fixed != "":
		p.Vals = []string{def.fixed}
	case def.boolean:
		p.Vals = []string{strings.ToUpper(fmt.Sprint(e.Bool()))}
	case def.uri:
		u := e.Convert(uriType).Interface().(ics.URI)
		p.Vals = []string{u.URL.String()}
	default:
		p.Vals = []string{e.String()}
	}

	return p, true
}

// setProp fills the Go value of a property.
func setProp(rv reflect.Value, p *Prop) {
	def := props[p.Name]

	for i := range p.Params {
		setParam(rv.FieldByName(params[p.Params[i].Name].field), &p.Params[i])
	}

	switch {
	case def.enum != nil:
		rv.Set(reflect.ValueOf(def.enum[p.Val.S]))
	case len(def.kinds) > 1:
		f := rv.FieldByName(valueFields[p.Val.Kind])
		n := reflect.New(f.Type().Elem())
		n.Elem().Set(reflect.ValueOf(valToGo(&p.Val)))
		f.Set(n)
	case def.embedded != "":
		rv.FieldByName(def.embedded).Set(reflect.ValueOf(valToGo(&p.Val)))
	default:
		rv.Set(reflect.ValueOf(valToGo(&p.Val)).Convert(rv.Type()))
	}
}

func getProp(rv reflect.Value, name string) Prop {
	p, def := Prop{Name: name}, props[name]

	for _, pn := range def.params {
		if pa, ok := getParam(rv.FieldByName(params[pn].field), pn); ok {
			p.Params = append(p.Params, pa)
		}
	}

	switch {
	case def.enum != nil:
		p.Val = Val{Kind: KEnum, S: keyOf(def.enum, rv.Interface())}
	case len(def.kinds) > 1:
		set := 0

		for _, k := range def.kinds {
			if f := rv.FieldByName(valueFields[k]); !f.IsNil() {
				p.Val = valFromGo(k, f.Elem().Interface())
				set++
			}
		}

		if set != 1 {
			p.Val = Val{Kind: KEnum, S: fmt.Sprintf("INVALID: %d values", set)}
		}
	case def.embedded != "":
		p.Val = valFromGo(def.kinds[0], rv.FieldByName(def.embedded).Interface())
	default:
		k := def.kinds[0]
		p.Val = valFromGo(k, rv.Convert(baseTypes[k]).Interface())
	}

	return p
}

func newAlarm(name string) ics.AlarmType {
	switch name {
	case "VALARM/AUDIO":
		return new(ics.AlarmAudio)
	case "VALARM/DISPLAY":
		return new(ics.AlarmDisplay)
	case "VALARM/EMAIL":
		return new(ics.AlarmEmail)
	case "VALARM/URI":
		return new(ics.AlarmURI)
	case "VALARM/NONE":
		return new(ics.AlarmNone)
	}

	panic("harness: unknown alarm " + name)
}

func fillComp(rv reflect.Value, c *Comp) {
	for i := range c.Props {
		p := &c.Props[i]
		f := rv.FieldByName(props[p.Name].field)

		switch f.Kind() {
		case reflect.Slice:
			e := reflect.New(f.Type().Elem()).Elem()
			setProp(e, p)
			f.Set(reflect.Append(f, e))
		case reflect.Pointer:
			n := reflect.New(f.Type().Elem())
			setProp(n.Elem(), p)
			f.Set(pointer(n))
		default:
			setProp(f, p)
		}
	}

	for _, s := range c.Subs {
		f := rv.FieldByName(comps[s.Name].field)
		e := reflect.New(f.Type().Elem()).Elem()

		if strings.HasPrefix(s.Name, "VALARM/") {
			a := newAlarm(s.Name)
			fillComp(reflect.ValueOf(a).Elem(), s)
			e.Set(reflect.ValueOf(ics.Alarm{AlarmType: a}))
		} else {
			fillComp(e, s)
		}

		f.Set(reflect.Append(f, e))
	}
}

// build gives the calendar of a model.
func build(c *Comp) *ics.Calendar {
	cal := new(ics.Calendar)

	fillComp(reflect.ValueOf(cal).Elem(), c)

	return cal
}

func readComp(rv reflect.Value, name string) *Comp {
	c, def := &Comp{Name: name}, comps[name]

	for _, u := range def.props {
		f := rv.FieldByName(props[u.name].field)

		switch f.Kind() {
		case reflect.Slice:
			for i := 0; i < f.Len(); i++ {
				c.Props = append(c.Props, getProp(f.Index(i), u.name))
			}
		case reflect.Pointer:
			if !f.IsNil() {
				c.Props = append(c.Props, getProp(f.Elem(), u.name))
			}
		default:
			c.Props = append(c.Props, getProp(f, u.name))
		}
	}

	for _, s := range def.subs {
		if s == "VALARM" {
			f := rv.FieldByName("Alarm")

			for i := 0; i < f.Len(); i++ {
				a := f.Index(i).Interface().(ics.Alarm).AlarmType

				switch a := a.(type) {
				case *ics.AlarmAudio:
					c.Subs = append(c.Subs, readComp(reflect.ValueOf(a).Elem(), "VALARM/AUDIO"))
				case *ics.AlarmDisplay:
					c.Subs = append(c.Subs, readComp(reflect.ValueOf(a).Elem(), "VALARM/DISPLAY"))
				case *ics.AlarmEmail:
					c.Subs = append(c.Subs, readComp(reflect.ValueOf(a).Elem(), "VALARM/EMAIL"))
				case *ics.AlarmURI:
					c.Subs = append(c.Subs, readComp(reflect.ValueOf(a).Elem(), "VALARM/URI"))
				case *ics.AlarmNone:
					c.Subs = append(c.Subs, readComp(reflect.ValueOf(a).Elem(), "VALARM/NONE"))
				default:
					c.Subs = append(c.Subs, &Comp{Name: fmt.Sprintf("VALARM/INVALID(%T)", a)})

					continue
				}

				if sub := c.Subs[len(c.Subs)-1]; sub.Name != "VALARM/"+a.Type() {
					sub.Name += " of type " + a.Type()
				}
			}

			continue
		}

		f := rv.FieldByName(comps[s].field)

		for i := 0; i < f.Len(); i++ {
			c.Subs = append(c.Subs, readComp(f.Index(i), s))
		}
	}

	return c
}

// read gives the model of a calendar.
func read(cal *ics.Calendar) *Comp {
	return readComp(reflect.ValueOf(cal).Elem(), "VCALENDAR")
}

// fieldCount is used to make sure that the schema covers all exported fields.
func schemaGaps() []string {
	var gaps []string

	for name, def := range comps {
		var t reflect.Type

		switch {
		case name == "VCALENDAR":
			t = reflect.TypeOf(ics.Calendar{})
		case strings.HasPrefix(name, "VALARM/"):
			t = reflect.TypeOf(newAlarm(name)).Elem()
		case name == "STANDARD" || name == "DAYLIGHT":
			f, _ := reflect.TypeOf(ics.Timezone{}).FieldByName(def.field)
			t = f.Type.Elem()
		default:
			f, _ := reflect.TypeOf(ics.Calendar{}).FieldByName(def.field)
			t = f.Type.Elem()
		}

		known := map[string]bool{}

		for _, u := range def.props {
			known[props[u.name].field] = true

			if _, ok := t.FieldByName(props[u.name].field); !ok {
				gaps = append(gaps, name+" has no field "+props[u.name].field)
			}
		}

		for _, s := range def.subs {
			if s == "VALARM" {
				known["Alarm"] = true
			} else {
				known[comps[s].field] = true
			}
		}

		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); f.IsExported() && !known[f.Name] {
				gaps = append(gaps, name+" has unknown field "+f.Name)
			}
		}
	}

	return gaps
}

var _ = time.UTC
