package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"vimagination.zapto.org/ics"
)

var allErrors = map[string]error{
	"ErrInvalidCalendar": ics.ErrInvalidCalendar, "ErrInvalidParam": ics.ErrInvalidParam, "ErrInvalidValue": ics.ErrInvalidValue, "ErrDuplicateParam": ics.ErrDuplicateParam, "ErrInvalidEnd": ics.ErrInvalidEnd, "ErrMissingRequired": ics.ErrMissingRequired, "ErrRequirementNotMet": ics.ErrRequirementNotMet,
	"ErrInvalidStructure": ics.ErrInvalidStructure, "ErrMissingAlarmAction": ics.ErrMissingAlarmAction, "ErrInvalidAlarm": ics.ErrInvalidAlarm,
	"ErrInvalidContentLine": ics.ErrInvalidContentLine, "ErrInvalidContentLineName": ics.ErrInvalidContentLineName, "ErrInvalidContentLineParamName": ics.ErrInvalidContentLineParamName, "ErrInvalidContentLineQuotedParamValue": ics.ErrInvalidContentLineQuotedParamValue, "ErrInvalidContentLineParamValue": ics.ErrInvalidContentLineParamValue, "ErrInvalidContentLineValue": ics.ErrInvalidContentLineValue,
	"ErrInvalidEncoding": ics.ErrInvalidEncoding, "ErrInvalidPeriod": ics.ErrInvalidPeriod, "ErrInvalidDuration": ics.ErrInvalidDuration, "ErrInvalidText": ics.ErrInvalidText, "ErrInvalidBoolean": ics.ErrInvalidBoolean, "ErrInvalidOffset": ics.ErrInvalidOffset, "ErrInvalidRecur": ics.ErrInvalidRecur, "ErrInvalidTime": ics.ErrInvalidTime, "ErrInvalidFloat": ics.ErrInvalidFloat, "ErrInvalidTFloat": ics.ErrInvalidTFloat,
	"ErrInvalidPeriodStart": ics.ErrInvalidPeriodStart, "ErrInvalidPeriodDuration": ics.ErrInvalidPeriodDuration, "ErrInvalidPeriodEnd": ics.ErrInvalidPeriodEnd,
	"ErrInvalidRecurFrequency": ics.ErrInvalidRecurFrequency, "ErrInvalidRecurBySecond": ics.ErrInvalidRecurBySecond, "ErrInvalidRecurByMinute": ics.ErrInvalidRecurByMinute, "ErrInvalidRecurByHour": ics.ErrInvalidRecurByHour, "ErrInvalidRecurByDay": ics.ErrInvalidRecurByDay, "ErrInvalidRecurByMonthDay": ics.ErrInvalidRecurByMonthDay, "ErrInvalidRecurByYearDay": ics.ErrInvalidRecurByYearDay, "ErrInvalidRecurByWeekNum": ics.ErrInvalidRecurByWeekNum, "ErrInvalidRecurByMonth": ics.ErrInvalidRecurByMonth, "ErrInvalidRecurBySetPos": ics.ErrInvalidRecurBySetPos, "ErrInvalidRecurWeekStart": ics.ErrInvalidRecurWeekStart,
	"io.ErrUnexpectedEOF": io.ErrUnexpectedEOF,
}

// errorNames are the exported errors that an error matches.
func errorNames(err error) string {
	var ns []string

	for _, n := range sortedNames(allErrors) {
		if errors.Is(err, allErrors[n]) {
			ns = append(ns, n)
		}
	}

	return strings.Join(ns, ",")
}

// encodeErrors are the errors for calendars that invalidate makes, by the
// beginning of its description.
var encodeErrors = []struct {
	label string
	errs  []error
}{
	{"control character in ParamFormatType", es(ics.ErrInvalidValue, ics.ErrInvalidText, ics.ErrInvalidParam)},
	{"control character in an address", es(ics.ErrInvalidValue)},
	{"control character in", es(ics.ErrInvalidText)},
	{"zero time", es(ics.ErrInvalidTime)},
	{"year over 9999", es(ics.ErrInvalidTime)},
	{"negative year", es(ics.ErrInvalidTime)},
	{"float ", es(ics.ErrInvalidFloat)},
	{"enumeration out of range", es(ics.ErrInvalidValue)},
	{"UTC offset out of range", es(ics.ErrInvalidOffset)},
	{"duration that is too long", es(ics.ErrInvalidDuration)},
	{"period without start", es(ics.ErrInvalidPeriodStart)},
	{"period with a start", es(ics.ErrInvalidPeriodStart)},
	{"period of negative duration", es(ics.ErrInvalidPeriodDuration)},
	{"period that ends", es(ics.ErrInvalidPeriodEnd)},
	{"period with times in different zones", es(ics.ErrInvalidPeriodEnd)},
	{"period with an end", es(ics.ErrInvalidPeriodEnd)},
	{"rule with unknown frequency", es(ics.ErrInvalidRecurFrequency)},
	{"rule with count and end", es(ics.ErrInvalidRecur)},
	{"rule that ends outside", es(ics.ErrInvalidRecur)},
	{"rule with BYSECOND", es(ics.ErrInvalidRecurBySecond)},
	{"rule with BYMINUTE", es(ics.ErrInvalidRecurByMinute)},
	{"rule with BYHOUR", es(ics.ErrInvalidRecurByHour)},
	{"rule with BYDAY", es(ics.ErrInvalidRecurByDay)},
	{"rule with BYMONTHDAY", es(ics.ErrInvalidRecurByMonthDay)},
	{"rule with BYYEARDAY", es(ics.ErrInvalidRecurByYearDay)},
	{"rule with BYWEEKNO", es(ics.ErrInvalidRecurByWeekNum)},
	{"rule with BYMONTH ", es(ics.ErrInvalidRecurByMonth)},
	{"rule with BYSETPOS", es(ics.ErrInvalidRecurBySetPos)},
	{"rule with unknown week start", es(ics.ErrInvalidRecurWeekStart)},
	{"no value in", es(ics.ErrInvalidValue)},
	{"several values in", es(ics.ErrInvalidValue)},
	{"alarm without a type", es(ics.ErrInvalidAlarm)},
	{"malformed media type", es(ics.ErrInvalidValue, ics.ErrInvalidParam)},
	{"event with both", es(ics.ErrRequirementNotMet)},
	{"todo with", es(ics.ErrRequirementNotMet)},
	{"time zone without rules", es(ics.ErrRequirementNotMet)},
	{"alarm with ", es(ics.ErrRequirementNotMet)},
}

func encodeErrs(label string) []error {
	for _, e := range encodeErrors {
		if strings.HasPrefix(label, e.label) {
			return e.errs
		}
	}

	panic("harness: no error for " + label)
}

func init() {
	register(&check{
		id: "C18", level: "exploration", quick: 64000, thorough: 1000000,
		rule: "each case is a generated calendar with texts of it in which one rule is broken or which are cut off, and values with something invalid in them; the error has to match the exported error for what was done. Distinct by the text, or by the place and the invalid value",
		run: func(w *work) {
			m := w.brokenModel()

			judge := func(b *breakage) {
				if len(b.errs) == 0 {
					return
				}

				_, err := decodeText(b.text)

				if err == nil || !matches(err, b.errs) {
					w.attach("text", []byte(b.text))
					w.attach("broken rule", []byte(b.label))
				}

				if err == nil {
					w.fail("Decode gives no error for a text with %s", b.label)
				} else if !matches(err, b.errs) {
					w.fail("Decode gives an error which does not match %q, for a text with %s: %s", b.errs, b.label, err)
				}

				w.count("Decode: "+errorNames(err), 1)
				w.eval(b.text)
				w.sample(b.label + ": " + err.Error())
			}

			for i := 0; i < 6; i++ {
				if b := w.g.breakText(m.clone(), randomStyle(w)); b != nil {
					judge(b)
				}
			}

			if co, ok := w.combo(); ok && w.r.IntN(8) == 0 {
				m, p := w.comboProp(co)
				w.g.sweep(m, p, co.comp, &style{r: w.r}, judge)
				w.count("properties with all listed breakages", 1)
			}

			// texts that end after one of the lines
			text := plain(m)
			lines := strings.SplitAfter(text, "\r\n")
			n := w.r.IntN(len(lines) - 1)
			judge(&breakage{fmt.Sprintf("only %d lines", n), strings.Join(lines[:n], ""), es(io.ErrUnexpectedEOF)})

			for i := 0; i < 3; i++ {
				m := w.model()
				cal := build(m)
				label := w.g.invalidate(m, cal)

				if label == "" {
					continue
				}

				want := encodeErrs(label)
				_, err := encode(cal)

				if err == nil {
					w.attach("model", []byte(m.canon()))
					w.fail("Encode gives no error for a calendar with %s", label)
				} else if !matches(err, want) {
					w.attach("model", []byte(m.canon()))
					w.fail("Encode gives an error which does not match %q, for a calendar with %s: %s", want, label, err)
				}

				w.count("Encode: "+errorNames(err), 1)
				w.eval(label + m.canon())
			}
		},
	})
}
