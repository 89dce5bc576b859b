package main

import (
	"vimagination.zapto.org/ics"
)

// The schema says which components, properties and params there are, and where
// the exported types of the package hold them. It was written from the
// documentation of the package and the RFCs.

type paramDef struct {
	name, field string
	multiple    bool
	quoted      bool           // the value has to be quoted
	uri         bool           // the value is a URI
	enum        map[string]any // values, with unknown ones as UNKNOWN
	fixed       string         // only one value
	boolean     bool
	fmttype     bool
}

type propDef struct {
	name, field string
	kinds       []Kind // the first is the default
	params      []string
	enum        map[string]any
	embedded    string // field of the value, for structs with a single value
}

type propUse struct {
	name     string
	required bool
	multiple bool
}

type compDef struct {
	name, field string
	props       []propUse
	subs        []string
}

var params = map[string]*paramDef{}

func init() {
	for _, p := range []*paramDef{
		{name: "ALTREP", field: "AlternativeRepresentation", quoted: true, uri: true},
		{name: "CN", field: "CommonName"},
		{name: "CUTYPE", field: "CalendarUserType", enum: map[string]any{
			"UNKNOWN": ics.CalendarUserTypeUnknown, "INDIVIDUAL": ics.CalendarUserTypeIndividual, "GROUP": ics.CalendarUserTypeGroup,
			"RESOURCE": ics.CalendarUserTypeResource, "ROOM": ics.CalendarUserTypeRoom,
		}},
		{name: "DELEGATED-FROM", field: "Delegator", multiple: true, quoted: true, uri: true},
		{name: "DELEGATED-TO", field: "Delagatee", multiple: true, quoted: true, uri: true},
		{name: "DIR", field: "DirectoryEntry", quoted: true},
		{name: "FMTTYPE", field: "FormatType", fmttype: true},
		{name: "FBTYPE", field: "FreeBusyType", enum: map[string]any{
			"UNKNOWN": ics.FreeBusyTypeUnknown, "FREE": ics.FreeBusyTypeFree, "BUSY": ics.FreeBusyTypeBusy,
			"BUSY-UNAVAILABLE": ics.FreeBusyTypeBusyUnavailable, "BUSY-TENTATIVE": ics.FreeBusyTypeBusyTentative,
		}},
		{name: "LANGUAGE", field: "Language"},
		{name: "MEMBER", field: "Member", multiple: true, quoted: true},
		{name: "PARTSTAT", field: "ParticipationStatus", enum: map[string]any{
			"UNKNOWN": ics.ParticipationStatusUnknown, "NEEDS-ACTION": ics.ParticipationStatusNeedsAction, "ACCEPTED": ics.ParticipationStatusAccepted,
			"DECLINED": ics.ParticipationStatusDeclined, "TENTATIVE": ics.ParticipationStatusTentative, "DELEGATED": ics.ParticipationStatusDelegated,
			"COMPLETED": ics.ParticipationStatusCompleted, "IN-PROCESS": ics.ParticipationStatusInProcess,
		}},
		{name: "RANGE", field: "Range", fixed: "THISANDFUTURE"},
		{name: "RELTYPE", field: "RelationshipType", enum: map[string]any{
			"UNKNOWN": ics.RelationshipTypeUnknown, "PARENT": ics.RelationshipTypeParent, "CHILD": ics.RelationshipTypeChild, "SIBLING": ics.RelationshipTypeSibling,
		}},
		{name: "ROLE", field: "ParticipationRole", enum: map[string]any{
			"UNKNOWN": ics.ParticipationRoleUnknown, "REQ-PARTICIPANT": ics.ParticipationRoleRequiredParticipant, "CHAIR": ics.ParticipationRoleChair,
			"OPT-PARTICIPANT": ics.ParticipationRoleOptParticipant, "NON-PARTICIPANT": ics.ParticipationRoleNonParticipant,
		}},
		{name: "RSVP", field: "RSVP", boolean: true},
		{name: "SENT-BY", field: "SentBy", quoted: true},
		{name: "URI", field: "URI", quoted: true, uri: true},
		{name: "ID", field: "ID", quoted: true},
		{name: "AGENT-ID", field: "AgentID", quoted: true},
	} {
		params[p.name] = p
	}
}

var (
	altLang  = []string{"ALTREP", "LANGUAGE"}
	dtOrDate = []Kind{KDateTime, KDate}
	props    = map[string]*propDef{}
)

func init() {
	for _, p := range []*propDef{
		{name: "ATTACH", field: "Attachment", kinds: []Kind{KURI, KBinary}, params: []string{"FMTTYPE"}},
		{name: "ATTENDEE", field: "Attendee", kinds: []Kind{KAddress}, embedded: "CalendarAddress", params: []string{"CUTYPE", "MEMBER", "ROLE", "PARTSTAT", "RSVP", "DELEGATED-TO", "DELEGATED-FROM", "SENT-BY", "CN", "DIR", "LANGUAGE"}},
		{name: "CATEGORIES", field: "Categories", kinds: []Kind{KMText}, embedded: "MText", params: []string{"LANGUAGE"}},
		{name: "CLASS", field: "Class", kinds: []Kind{KEnum}, enum: map[string]any{"PUBLIC": ics.ClassPublic, "PRIVATE": ics.ClassPrivate, "CONFIDENTIAL": ics.ClassConfidential}},
		{name: "COMMENT", field: "Comment", kinds: []Kind{KText}, embedded: "Text", params: altLang},
		{name: "COMPLETED", field: "Completed", kinds: []Kind{KDateTime}},
		{name: "CONTACT", field: "Contact", kinds: []Kind{KText}, embedded: "Text", params: altLang},
		{name: "CREATED", field: "Created", kinds: []Kind{KDateTime}},
		{name: "DESCRIPTION", field: "Description", kinds: []Kind{KText}, embedded: "Text", params: altLang},
		{name: "DTEND", field: "DateTimeEnd", kinds: dtOrDate},
		{name: "DTSTAMP", field: "DateTimeStamp", kinds: []Kind{KDateTime}},
		{name: "DTSTART", field: "DateTimeStart", kinds: dtOrDate},
		{name: "DUE", field: "Due", kinds: dtOrDate},
		{name: "DURATION", field: "Duration", kinds: []Kind{KDuration}},
		{name: "EXDATE", field: "ExceptionDateTime", kinds: dtOrDate},
		{name: "FREEBUSY", field: "FreeBusy", kinds: []Kind{KPeriod}, embedded: "Period", params: []string{"FBTYPE"}},
		{name: "GEO", field: "Geo", kinds: []Kind{KFloats}},
		{name: "LAST-MODIFIED", field: "LastModified", kinds: []Kind{KDateTime}},
		{name: "LOCATION", field: "Location", kinds: []Kind{KText}, embedded: "Text", params: altLang},
		{name: "ORGANIZER", field: "Organizer", kinds: []Kind{KAddress}, embedded: "CalendarAddress", params: []string{"CN", "DIR", "SENT-BY", "LANGUAGE"}},
		{name: "PERCENT-COMPLETE", field: "PercentComplete", kinds: []Kind{KInteger}},
		{name: "PRIORITY", field: "Priority", kinds: []Kind{KInteger}},
		{name: "PRODID", field: "ProductID", kinds: []Kind{KText}},
		{name: "RDATE", field: "RecurrenceDateTimes", kinds: []Kind{KDateTime, KDate, KPeriod}},
		{name: "RECURRENCE-ID", field: "RecurrenceID", kinds: dtOrDate, params: []string{"RANGE"}},
		{name: "RELATED-TO", field: "RelatedTo", kinds: []Kind{KText}, embedded: "Text", params: []string{"RELTYPE"}},
		{name: "REPEAT", field: "Repeat", kinds: []Kind{KInteger}},
		{name: "REQUEST-STATUS", field: "RequestStatus", kinds: []Kind{KText}},
		{name: "RESOURCES", field: "Resources", kinds: []Kind{KMText}, embedded: "MText", params: altLang},
		{name: "RRULE", field: "RecurrenceRule", kinds: []Kind{KRecur}},
		{name: "SEQUENCE", field: "Sequence", kinds: []Kind{KInteger}},
		{name: "STATUS", field: "Status", kinds: []Kind{KEnum}, enum: map[string]any{
			"TENTATIVE": ics.StatusTentative, "CONFIRMED": ics.StatusConfirmed, "CANCELLED": ics.StatusCancelled, "NEEDS-ACTION": ics.StatusNeedsAction,
			"COMPLETED": ics.StatusCompleted, "IN-PROCESS": ics.StatusInProcess, "DRAFT": ics.StatusDraft, "FINAL": ics.StatusFinal,
		}},
		{name: "SUMMARY", field: "Summary", kinds: []Kind{KText}, embedded: "Text", params: altLang},
		{name: "TRANSP", field: "TimeTransparency", kinds: []Kind{KEnum}, enum: map[string]any{"OPAQUE": ics.TimeTransparencyOpaque, "TRANSPARENT": ics.TimeTransparencyTransparent}},
		{name: "TRIGGER", field: "Trigger", kinds: []Kind{KDuration, KDateTime}},
		{name: "TZID", field: "TimezoneID", kinds: []Kind{KText}},
		{name: "TZNAME", field: "TimezoneName", kinds: []Kind{KText}, embedded: "Text", params: []string{"LANGUAGE"}},
		{name: "TZOFFSETFROM", field: "TimezoneOffsetFrom", kinds: []Kind{KOffset}},
		{name: "TZOFFSETTO", field: "TimezoneOffsetTo", kinds: []Kind{KOffset}},
		{name: "TZURL", field: "TimezoneURL", kinds: []Kind{KURI}},
		{name: "UID", field: "UID", kinds: []Kind{KText}},
		{name: "URL", field: "URL", kinds: []Kind{KURI}},
		{name: "URI", field: "URI", kinds: []Kind{KURI}},
		{name: "VERSION", field: "Version", kinds: []Kind{KText}},
		{name: "ALARM-AGENT", field: "AlarmAgent", kinds: []Kind{KText}, embedded: "Text", params: []string{"URI", "ID", "AGENT-ID"}},
		{name: "ALARM/STATUS", field: "AlarmStatus", kinds: []Kind{KEnum}, enum: map[string]any{"ACTIVE": ics.AlarmStatusActive, "CANCELLED": ics.AlarmStatusCancelled, "COMPLETED": ics.AlarmStatusCompleted}},
		{name: "LAST-TRIGGERED", field: "LastTriggered", kinds: []Kind{KDateTime}},
		{name: "ACKNOWLEDGED", field: "Acknowledged", kinds: []Kind{KDateTime}},
		{name: "PROXIMITY", field: "Proximity", kinds: []Kind{KText}},
		{name: "GEO-LOCATION", field: "GeoLocation", kinds: []Kind{KURI}},
		{name: "DEFAULT-ALARM", field: "DefaultAlarm", kinds: []Kind{KBoolean}},
	} {
		props[p.name] = p
	}
}

// textName is the name of a property as it is written.
func textName(name string) string {
	if name == "ALARM/STATUS" {
		return "STATUS"
	}

	return name
}

var comps = map[string]*compDef{}

func uses(list ...string) []propUse {
	us := make([]propUse, len(list))

	for i, n := range list {
		switch n[0] {
		case '!':
			us[i] = propUse{name: n[1:], required: true}
		case '*':
			us[i] = propUse{name: n[1:], multiple: true}
		default:
			us[i] = propUse{name: n}
		}
	}

	return us
}

var alarmNames = []string{"VALARM/AUDIO", "VALARM/DISPLAY", "VALARM/EMAIL", "VALARM/URI", "VALARM/NONE"}

func init() {
	rule := []string{"!DTSTART", "!TZOFFSETTO", "!TZOFFSETFROM", "RRULE", "*COMMENT", "*RDATE", "*TZNAME"}
	common := []string{"DURATION", "REPEAT", "UID", "*ALARM-AGENT", "ALARM/STATUS", "*LAST-TRIGGERED", "ACKNOWLEDGED", "PROXIMITY", "*GEO-LOCATION", "RELATED-TO", "DEFAULT-ALARM"}

	for _, c := range []*compDef{
		{name: "VCALENDAR", props: uses("!VERSION", "!PRODID"), subs: []string{"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE"}},
		{name: "VEVENT", field: "Event", subs: []string{"VALARM"}, props: uses("!DTSTAMP", "!UID", "DTSTART", "CLASS", "CREATED", "DESCRIPTION", "GEO", "LAST-MODIFIED",
			"LOCATION", "ORGANIZER", "PRIORITY", "SEQUENCE", "STATUS", "SUMMARY", "TRANSP", "URL", "RECURRENCE-ID", "RRULE", "DTEND", "DURATION", "*ATTACH", "*ATTENDEE",
			"*CATEGORIES", "*COMMENT", "*CONTACT", "*EXDATE", "*REQUEST-STATUS", "*RELATED-TO", "*RESOURCES", "*RDATE")},
		{name: "VTODO", field: "Todo", subs: []string{"VALARM"}, props: uses("!DTSTAMP", "!UID", "CLASS", "COMPLETED", "CREATED", "DESCRIPTION", "DTSTART", "GEO", "LAST-MODIFIED",
			"LOCATION", "ORGANIZER", "PERCENT-COMPLETE", "PRIORITY", "RECURRENCE-ID", "SEQUENCE", "STATUS", "SUMMARY", "URL", "DUE", "DURATION", "*ATTACH", "*ATTENDEE",
			"*CATEGORIES", "*COMMENT", "*CONTACT", "*EXDATE", "*REQUEST-STATUS", "*RELATED-TO", "*RESOURCES", "*RDATE")},
		{name: "VJOURNAL", field: "Journal", props: uses("!DTSTAMP", "!UID", "CLASS", "CREATED", "DTSTART", "LAST-MODIFIED", "ORGANIZER", "RECURRENCE-ID", "SEQUENCE", "STATUS",
			"SUMMARY", "URL", "RRULE", "*ATTACH", "*ATTENDEE", "*CATEGORIES", "*COMMENT", "*CONTACT", "*DESCRIPTION", "*EXDATE", "*REQUEST-STATUS", "*RELATED-TO", "*RESOURCES", "*RDATE")},
		{name: "VFREEBUSY", field: "FreeBusy", props: uses("!DTSTAMP", "!UID", "CONTACT", "DTSTART", "DTEND", "ORGANIZER", "URL", "*ATTENDEE", "*COMMENT", "*FREEBUSY", "*REQUEST-STATUS")},
		{name: "VTIMEZONE", field: "Timezone", props: uses("!TZID", "LAST-MODIFIED", "TZURL"), subs: []string{"STANDARD", "DAYLIGHT"}},
		{name: "STANDARD", field: "Standard", props: uses(rule...)},
		{name: "DAYLIGHT", field: "Daylight", props: uses(rule...)},
		{name: "VALARM/AUDIO", field: "Alarm", props: uses(append([]string{"!TRIGGER", "*ATTACH"}, common...)...)},
		{name: "VALARM/DISPLAY", field: "Alarm", props: uses(append([]string{"!DESCRIPTION", "!TRIGGER"}, common...)...)},
		{name: "VALARM/EMAIL", field: "Alarm", props: uses(append([]string{"!DESCRIPTION", "!TRIGGER", "!SUMMARY", "ATTENDEE"}, common...)...)},
		{name: "VALARM/URI", field: "Alarm", props: uses(append([]string{"!URI"}, common...)...)},
		{name: "VALARM/NONE", field: "Alarm"},
	} {
		comps[c.name] = c
	}
}

func (c *compDef) use(name string) *propUse {
	for i := range c.props {
		if c.props[i].name == name {
			return &c.props[i]
		}
	}

	return nil
}
