#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os, re

P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, title
    assert len(re.findall(r'[.;](?:\s|$)', statement)) <= 6
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "observe_at": observe or ["results of Decode and Encode"], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

ALL = ["encoder.go", "decoder.go", "folder.go", "unfolder.go", "tokeniser.go", "types.go",
       "params.go", "properties.go", "sections.go", "sections_alarm.go"]

prop("C01", "A calendar that Encode accepts decodes back to the same calendar",
 "For every calendar that Encode writes without an error, Decode of the written bytes succeeds and gives an equal calendar: the same components, properties, parameters and values, each list in the same order. "
 "The same holds for calendars that were themselves produced by Decode. "
 "Equal means equal in what iCalendar can express: sub-second parts, empty or false optional parameters, and the identity (not the instant) of a time zone that cannot be named are disregarded.",
 ["inputs"], "every calendar value, with any subset of the components, properties, parameters and value forms the types offer",
 "TestEncode and TestDecode each use a couple of tiny fixed calendars and never feed the output of one into the other; most properties and all of the alarms are in neither.",
 ALL, [("per component encode/decode pairs", "sections.go, sections_alarm.go"), ("per property encode/decode pairs", "properties.go"),
       ("per parameter encode/decode pairs", "params.go"), ("per value type encode/decode pairs", "types.go")])

prop("C02", "Encoded calendars say to any iCalendar reader exactly what was given",
 "Every calendar written by Encode, read by the rules of RFC 5545, RFC 6868 and RFC 9074 and not by this package's own decoder, contains exactly the components, properties, parameters and values of the calendar given, whether set directly or made with the package's New functions. "
 "Nothing is lost, added, duplicated, moved to another component, renamed, or put out of order within its list.",
 ["inputs"], "every valid calendar value",
 "Comparing Encode with Decode cannot show a mistake that both make; the tests compare a handful of values with fixed strings.",
 ["encoder.go", "types.go", "params.go", "properties.go", "sections.go", "sections_alarm.go", "folder.go"],
 [("writing of names, parameters, values", "properties.go, params.go, types.go: encode/aencode"), ("writing of BEGIN/END and order", "sections.go: encode")],
 ["bytes given to the io.Writer"])

prop("C03", "Encoded output is well formed, whatever text the calendar contains",
 "Everything Encode writes without an error is made of lines ended by CR LF, each of at most 75 octets, never folded inside a UTF-8 sequence, with matching BEGIN and END lines around one calendar and only content lines that follow the RFC 5545 grammar. "
 "No string in the calendar (text, parameter, address or time zone name) can end its line, its parameter or its component, or add a property of its own: such data is escaped or the calendar is refused.",
 ["inputs"], "every calendar value, including hostile strings in every field that holds one",
 "TestFolder folds three ASCII strings; no test encodes hostile data, or checks line lengths of a calendar.",
 ["folder.go", "encoder.go", "types.go", "params.go", "properties.go"],
 [("folding at 75 octets on rune boundaries", "folder.go: folder.Write"), ("text escaping", "types.go: Text.encode"), ("parameter quoting and RFC 6868", "params.go"), ("control character checks", "types.go, params.go: valid")],
 ["bytes given to the io.Writer"])

prop("C04", "Encode refuses invalid calendars before writing, and accepts valid ones",
 "A calendar that breaks a rule of the format in any property, parameter or component (values out of range, control characters, missing or conflicting values, missing time zone rules, an unusable alarm) makes Encode return an error without a single byte having been written. "
 "A calendar that breaks no rule is accepted.",
 ["inputs"], "every kind of invalid value in every place that can hold it, within calendars that are otherwise valid; and every valid calendar",
 "No test gives Encode an invalid calendar.",
 ["encoder.go", "types.go", "params.go", "properties.go", "sections.go", "sections_alarm.go"],
 [("validation before the first write", "encoder.go: Encode"), ("per component, property, parameter and type validation", "valid methods")],
 ["error of Encode and the bytes given to the io.Writer"])

prop("C05", "Decode understands every supported property, parameter and value",
 "For every calendar text made of the components, properties and parameters that this package supports, written by the rules of the RFCs and not by this package's encoder, Decode succeeds and each value, parameter and component is found in the matching field with the meaning the text gives it. "
 "Nothing else is set, and every list has the order of the text.",
 ["inputs"], "every well formed text, in any legal spelling of its values",
 "TestDecode uses three small calendars; the type tests cover a few spellings of each type and never go through a calendar.",
 ["decoder.go", "tokeniser.go", "types.go", "params.go", "properties.go", "sections.go", "sections_alarm.go"],
 [("dispatch on names", "sections.go: decode"), ("parameter dispatch and VALUE", "properties.go: decode"), ("value parsing", "types.go: decode"), ("parameter parsing", "params.go: decode")],
 ["calendar returned by Decode"])

prop("C06", "Legal respellings of a calendar text decode to the same calendar",
 "Changing the letter case of component, property and parameter names and of enumerated values, the order of a component's properties and sub-components of different names, the order of a property's parameters, the optional quoting of a parameter, stating a default VALUE, or leaving out the last line break makes no difference to the calendar that Decode returns.",
 ["inputs"], "every valid calendar text and every combination of these changes",
 "The tests only contain upper case names in one order.",
 ["tokeniser.go", "sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go"],
 [("upper casing of names before comparison", "sections.go, properties.go, params.go, sections_alarm.go"), ("quoted and unquoted parameter values", "tokeniser.go: parseParamValue")],
 ["calendar returned by Decode"])

prop("C07", "Line folding and read sizes make no difference to what is decoded",
 "However the content lines of a text are folded (anywhere within a line, including inside a UTF-8 sequence, repeatedly, with a space or a tab) and however the reader splits the bytes into reads, Decode gives the same calendar, or fails in the same cases, as for the unfolded text delivered at once.",
 ["inputs", "schedules"], "every text, every set of fold positions and every split of the bytes into reads, including empty reads and data arriving together with the end of file",
 "TestUnfolder has a few short strings delivered by one reader; the outcome depends on where folds fall relative to buffer and read boundaries.",
 ["unfolder.go", "tokeniser.go", "decoder.go"], [("removal of folds across reads", "unfolder.go: unfolder.Read")],
 ["calendar or error returned by Decode, against the reads made of the io.Reader"])

prop("C08", "Decode returns a calendar or an error for any bytes at all",
 "For any input, however malformed, hostile, deeply nested or long, and any reader behaviour that io.Reader allows, Decode returns after finitely many steps without panicking, and gives either a calendar and no error, or an error and no calendar. "
 "Decoding the same bytes again gives the same outcome, and a calendar that was returned can be given to Encode without a panic.",
 ["inputs", "fault_sequences"], "every byte string and every legal reader behaviour",
 "The tests hold a dozen malformed lines; crashes and endless loops need particular malformed input.",
 ["decoder.go", "tokeniser.go", "unfolder.go", "types.go", "params.go", "properties.go", "sections.go", "sections_alarm.go"],
 [("error returns of all decode methods", "types.go, params.go, properties.go, sections.go"), ("end of input checks", "sections.go, sections_alarm.go")],
 ["return, panic, exit, CPU time and memory of the process calling Decode"])

prop("C09", "Incomplete input is never taken for a calendar, and read errors are reported",
 "When the input ends anywhere before the end of the calendar, Decode returns an error and no calendar, never one that holds only part of the data. "
 "When the reader fails before the end of the calendar, Decode returns that reader's error, and does not carry on with data that follows the failure.",
 ["crash_points", "fault_sequences", "inputs"], "every truncation point and every point at which the reader can fail, with any kind of failing reader",
 "No test truncates a calendar or uses a failing reader.",
 ["decoder.go", "unfolder.go", "tokeniser.go", "sections.go", "sections_alarm.go"],
 [("end of input within a component is an error", "sections.go: PhraseDone checks; sections_alarm.go"), ("read error kept and returned", "unfolder.go, decoder.go")],
 ["calendar and error returned by Decode"])

prop("C10", "Decode refuses calendars that break the rules of the format",
 "A text in which a required property is missing, a property that may occur once is repeated, properties that exclude or require each other are used wrongly, a BEGIN has no matching END, a component is nested in an alarm, a content line does not follow the grammar, a parameter of its property is repeated or malformed, or a value is malformed or out of range for its type, makes Decode return an error, wherever in the calendar it happens. Spellings beyond the RFC that the package takes on purpose (of truth values, numbers, offsets and durations, and unknown escapes) and parameters with no role for the property are not meant.",
 ["inputs"], "every such rule, in every component and property it applies to, in otherwise valid calendars",
 "The tests contain a few malformed values and lines; nearly all of the rules of the components are in none.",
 ["sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go", "tokeniser.go"],
 [("required and single property checks", "sections.go: required flags, errMultiple"), ("requirements between properties", "sections.go: ErrRequirementNotMet"), ("value checks", "types.go: decode")],
 ["error returned by Decode"])

prop("C11", "Content the package does not know is skipped without side effects",
 "Adding properties, parameters and, other than in alarms, whole components (nested to any depth, with any content, including names that are known elsewhere) that are not known where they appear makes no difference to the calendar that Decode returns, and neither does anything that follows the end of the calendar.",
 ["inputs"], "every valid text and every well formed unknown content added at any place of it (components not inside an alarm)",
 "TestDecode has no unknown components and hardly any unknown properties.",
 ["sections.go", "properties.go", "sections_alarm.go"],
 [("skipping of unknown components", "sections.go: decodeDummy"), ("ignoring of unknown properties and parameters", "sections.go, properties.go: decode")],
 ["calendar returned by Decode"])

prop("C12", "A failing writer stops Encode, and its error is the one returned",
 "When the writer fails at any point, Encode returns that writer's error, does not write again after the failure, and what has been written until then is the beginning of the complete output. "
 "Encode returns no error only if every byte was written.",
 ["fault_sequences", "crash_points"], "every calendar and every write at which the writer can fail, after any number of bytes of it",
 "TestFolder has no failing writer and TestEncode writes to memory.",
 ["encoder.go", "folder.go"], [("sticky write error", "folder.go: folder.err")],
 ["calls made to the io.Writer, and the error of Encode"])

prop("C13", "Concurrent and repeated use is safe, and calls do not affect each other",
 "Any number of simultaneous calls of Decode and of Encode, including many of Encode with one shared calendar, are free of data races and each gives the result it gives alone. "
 "Encode leaves the calendar it is given unchanged, and decoded calendars share no memory with their input or each other, nor do the parts of one.",
 ["schedules", "histories"], "every schedule of concurrent calls and every history of earlier calls",
 "The tests are sequential and are not run with the race detector.",
 ["decoder.go", "encoder.go", "params.go", "types.go", "folder.go", "unfolder.go"],
 [("no package level state that is written after initialisation", "params.go: init; folder.go: eol"), ("state kept per call", "decoder.go, encoder.go")],
 ["race detector reports, results of concurrent calls, memory of calendars before and after"])

prop("C14", "Dates and times keep their instant and their time zone",
 "A time written with a zone name, as UTC or as local time decodes to that wall clock time in that zone, and a time that is encoded is read back, by any reader, as the same instant to the second; named zones stay named, and a time whose zone has no usable name, or whose wall clock time is ambiguous in it, keeps its instant. "
 "Dates keep their calendar day whatever the zone.",
 ["inputs", "configurations"], "every date and time from year 0 to 9999, every zone and every setting of the local zone",
 "TestDateTime, TestDate and TestTime have one or two values and one zone, in one local zone.",
 ["types.go", "properties.go"], [("zone parameter on decoding and encoding", "types.go: DateTime, Period, Recur, writeTimezone"), ("choice of form", "properties.go: VALUE")],
 ["times in the calendar returned by Decode and in the bytes written by Encode"])

prop("C15", "Recurrence rules keep their full meaning",
 "Every recurrence rule, with any combination of its parts in any order and any value in their ranges, means the same after Decode and after Encode: frequency, interval, count or end, each list with its values in order and sign, and the week start. "
 "Rules with unknown or repeated parts, missing frequency, or values outside their ranges are refused in both directions.",
 ["inputs"], "every recurrence rule text and value",
 "TestRecur has some thirty fixed rules, mostly with single values, and tests no refusal on encoding.",
 ["types.go"], [("rule parsing, writing and validation", "types.go: Recur.decode, encode, valid")],
 ["rules in the calendar returned by Decode and in the bytes written by Encode"])

prop("C16", "Any text survives: escaping of values and parameters is exact",
 "Every string of valid UTF-8 without control characters other than tab and newline, as a text value, an element of a text list, a parameter or a list parameter, is read back identically after Encode, by Decode and by any reader of RFC 5545 and RFC 6868; lists keep their number of elements. "
 "Every legal escaped spelling of it is decoded to that string. A backslash or a circumflex that escapes nothing stands for itself.",
 ["inputs"], "every such string, in every field that holds text, at every position relative to the line folds",
 "TestText has a handful of strings, and no test has an escaped parameter.",
 ["types.go", "params.go", "folder.go", "unfolder.go", "tokeniser.go"],
 [("text escaping", "types.go: Text, MText, decodeText"), ("parameter escaping", "params.go: encode6868, decode6868")],
 ["strings in the calendar returned by Decode and in the bytes written by Encode"])

prop("C17", "Durations, periods, offsets, numbers, binary and addresses keep their value",
 "Every duration, period, UTC offset, integer, coordinate pair, boolean, binary attachment and address has the same value after Decode of any legal spelling of it and after Encode, up to the bounds of its type, with its sign and without rounding; a value that cannot be expressed is refused, never altered.",
 ["inputs"], "every value of these types and every legal spelling",
 "The type tests have a few values of each, through internal functions and not through properties.",
 ["types.go", "properties.go"], [("value parsing and writing", "types.go: Duration, Period, UTCOffset, Integer, TFloat, Boolean, Binary, URI, CalendarAddress")],
 ["values in the calendar returned by Decode and in the bytes written by Encode"])

prop("C18", "Errors identify their cause",
 "Whenever an exported error of this package, or the standard library's unexpected end of input, describes what went wrong, the error of Decode or Encode matches it by errors.Is, however deeply nested the place in the calendar is.",
 ["inputs"], "every cause with an exported error, at every place where it can happen",
 "No test of a calendar looks at errors; callers that tell causes apart depend on the wrapping in every component and property.",
 ["sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go", "tokeniser.go", "decoder.go", "encoder.go"],
 [("wrapping with %w at each level", "sections.go, properties.go, params.go, types.go")],
 ["errors returned by Decode and Encode"])

prop("C19", "Encoding is deterministic and stable",
 "Encoding the same calendar again, at any time and in any process, gives the same bytes; decoding those bytes and encoding the result gives them once more; and how the writer accepts the data makes no difference. ",
 ["inputs", "histories"], "every valid calendar, any number of repetitions",
 "TestEncode encodes each calendar once.",
 ["encoder.go", "sections.go", "properties.go", "params.go", "types.go"], [("fixed order of properties and parameters", "sections.go, properties.go: encode")],
 ["bytes given to the io.Writer"])

prop("C20", "Nothing is lost or mixed up in calendars of any size",
 "In calendars with any number of components, alarms and repeated properties, and values of any length, every one of them is found exactly once after Decode and after Encode, in order and in the component it belongs to. "
 "The memory that Decode and Encode allocate, and the time that they take, grow in proportion to the size of the calendar.",
 ["inputs"], "every size: up to tens of thousands of components and properties, and values of megabytes",
 "The largest calendar in the tests has a few lines; buffers, reads and slices only interact at sizes far beyond.",
 ["sections.go", "sections_alarm.go", "tokeniser.go", "unfolder.go", "folder.go", "decoder.go", "encoder.go"],
 [("appending to component and property lists", "sections.go: decode"), ("buffering of alarms", "sections_alarm.go: psuedoTokeniser"), ("streaming through buffers", "unfolder.go, folder.go")],
 ["unique identifiers in calendars and bytes; bytes allocated; processor time used"])

prop("C21", "Whatever Decode accepts, Encode can write, with the same meaning",
 "Every calendar that Decode returns, from any UTF-8 text at all, however unusual its spelling or its content, is accepted by Encode; what is written is a valid calendar text that any reader understands as the calendar that Decode returned, and decoding and encoding that again changes nothing. "
 "The start of the year 1, which as a Go time means that there is none, is not meant.",
 ["inputs"], "every text that Decode accepts, including ones that the RFC does not allow",
 "Decode and Encode each have rules of their own about what is valid, written separately for each type; no test gives a decoded calendar to Encode.",
 ["decoder.go", "encoder.go", "types.go", "params.go", "properties.go", "sections.go", "sections_alarm.go"],
 [("rules applied when decoding", "types.go, params.go, properties.go, sections.go: decode"), ("rules applied before encoding", "types.go, params.go, properties.go, sections.go: valid")],
 ["calendars returned by Decode, bytes given to the io.Writer"])

prop("C22", "Calls leave nothing behind",
 "Once Decode or Encode has returned, with a result or an error, or ended by a panic of its reader or writer, no goroutine of it keeps running, its reader or writer is not used again and has not been closed, and no file is left open. The memory that stays in use does not grow with the number of calls. "
 "Every later call behaves as the first one did, after any number and kind of calls.",
 ["histories", "fault_sequences"], "every sequence of calls, whole, refused, and cut short by failures and panics of readers and writers",
 "The tests look at what a call gives, and not at what is left when it has ended, nor at what thousands of calls leave.",
 ["decoder.go", "encoder.go", "tokeniser.go", "unfolder.go", "folder.go", "sections_alarm.go", "types.go"],
 [("the state of a call is its own", "decoder.go: Decode; encoder.go: Encode; tokeniser.go: newTokeniser"), ("buffers around the reader and writer", "unfolder.go, folder.go")],
 ["goroutines, open files and bytes in use after calls; uses of readers and writers; results of later calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p) + "\n")
print(len(P))
