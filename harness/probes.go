package main

import "strings"

// event puts lines into an event.
func event(lines ...string) string {
	return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\n" + strings.Join(lines, "\r\n") + "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"
}

func accepted(text string) func() string {
	return func() string {
		if _, err := decodeText(text); err != nil {
			return "refused: " + err.Error()
		}

		return ""
	}
}

func refused(text string) func() string {
	return func() string {
		if _, err := decodeText(text); err == nil {
			return "accepted"
		}

		return ""
	}
}

// decodeProbes are legal texts that are known to be refused.
var decodeProbes = []probe{
	{"request-status-parts", "REQUEST-STATUS with its parts", accepted(event("REQUEST-STATUS:2.0;Success"))},
	{"exdate-list", "EXDATE with more than one date", accepted(event("EXDATE;VALUE=DATE:20200101,20200102"))},
	{"rdate-list", "RDATE with more than one date", accepted(event("RDATE;VALUE=DATE:20200101,20200102"))},
	{"freebusy-list", "FREEBUSY with more than one period", accepted("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VFREEBUSY\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nFREEBUSY:20200101T000000Z/PT1H,20200102T000000Z/PT1H\r\nEND:VFREEBUSY\r\nEND:VCALENDAR\r\n")},
	{"class-x-name", "a CLASS of an extension", accepted(event("CLASS:X-FOO"))},
	{"defined-tzid", "a TZID that only the calendar defines", accepted("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VTIMEZONE\r\nTZID:My Zone\r\nBEGIN:STANDARD\r\nDTSTART:20000101T000000\r\nTZOFFSETFROM:+0100\r\nTZOFFSETTO:+0100\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\nBEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nDTSTART;TZID=My Zone:20200101T000000\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n")},
}

// refuseProbes are texts that break a rule and are known to be accepted.
var refuseProbes = []probe{
	{"repeated-tzid", "a repeated TZID param", refused(event("DTSTART;TZID=Asia/Tokyo;TZID=Europe/London:20200101T000000"))},
}
