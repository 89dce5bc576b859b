From 3d97cfd00c5455853084b3e37c669f67bb8e1b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:39 +0000
Subject: [PATCH 01/42] fix: stop unfolding from hanging or missing folds at
 read boundaries

A fold that ended exactly at the end of a read made the unfolder loop for
ever, and folds split over several reads were left in the data. The unfolder
now looks ahead through a buffered reader, and keeps a read error until all of
the data before it has been used.
---
 unfolder.go | 110 +++++++++++++++++++++-------------------------------
 1 file changed, 44 insertions(+), 66 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index 70fa7b3..c5ded06 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -1,83 +1,61 @@
 package ics
 
 import (
-	"bytes"
+	"bufio"
 	"io"
 )
 
 type unfolder struct {
-	r      io.Reader
-	bufLen int
-	buf    [2]byte
+	r   io.Reader
+	buf *bufio.Reader
+	err error
 }
 
 func (u *unfolder) Read(p []byte) (int, error) {
-	var (
-		m, n int
-		err  error
-	)
-	q := p
-	if u.bufLen > 0 {
-		n = copy(p, u.buf[:u.bufLen])
-		if n > 0 {
-			u.buf[0] = u.buf[1]
-			u.bufLen -= n
-			p = p[n:]
-			m += n
-		}
+	if u.buf == nil {
+		u.buf = bufio.NewReader(u.r)
 	}
-	for len(p) > 0 && err == nil {
-		n, err = u.r.Read(p)
-		m += n
-		p = p[:n]
-		var toRead int
-		for {
-			pos := bytes.Index(p, eol[:])
-			if pos == -1 {
+
+	n := 0
+
+	for n < len(p) {
+		if u.buf.Buffered() == 0 {
+			if n > 0 {
 				break
+			} else if u.err != nil {
+				return 0, u.err
 			}
-			copy(p[pos:], p[pos+3:])
-			p = p[pos:]
-			toRead += 3
 		}
-		p = p[len(p)-toRead:]
-		m -= toRead
-	}
-	q = q[:m]
-	for err == nil {
-		if lq := len(q); lq > 0 && q[lq-1] == '\r' {
-			u.bufLen, err = u.r.Read(u.buf[:])
-			if u.bufLen < 2 {
-				break
-			}
-			if u.buf[0] == '\n' && u.buf[1] == ' ' {
-				m--
-				if err == nil {
-					n, err = u.r.Read(q[lq-1:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else if lq > 1 && q[lq-2] == '\r' && q[lq-1] == '\n' {
-			u.bufLen, err = u.r.Read(u.buf[:1])
-			if u.bufLen < 1 {
-				break
-			}
-			if u.buf[0] == ' ' {
-				m -= 2
-				if err == nil {
-					n, err = u.Read(q[lq-2:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else {
-			break
+
+		c, err := u.buf.ReadByte()
+		if err != nil {
+			u.err = err
+
+			return n, err
+		}
+
+		if c == '\r' && u.isFold() {
+			u.buf.Discard(len(eol) - 1)
+
+			continue
 		}
+
+		p[n] = c
+		n++
 	}
-	return m, err
+
+	return n, nil
+}
+
+// isFold determines whether the data following a carriage return completes a
+// line fold. Any read error is retained for after the buffered data is used.
+func (u *unfolder) isFold() bool {
+	next, err := u.buf.Peek(len(eol) - 1)
+	if err != nil {
+		u.err = err
+
+		return false
+	}
+
+	return string(next) == string(eol[1:])
 }
-- 
2.43.0


From d046f0a55b15becf71c7dfddd27d76b2a882b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:39 +0000
Subject: [PATCH 02/42] fix: unfold lines that are folded with a horizontal tab

RFC 5545 section 3.1 allows either a space or a tab after the line break.
---
 unfolder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unfolder.go b/unfolder.go
index c5ded06..a2b0424 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -57,5 +57,5 @@ func (u *unfolder) isFold() bool {
 		return false
 	}
 
-	return string(next) == string(eol[1:])
+	return next[0] == '\n' && (next[1] == ' ' || next[1] == '\t')
 }
-- 
2.43.0


From 3188b94e36eeb962fe9cae6a90d3979fb21b4cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:40 +0000
Subject: [PATCH 03/42] fix: return the error from the reader when decoding
 fails because of it

A failing reader was treated as the end of the data, so Decode reported a
malformed calendar and the actual error was lost.
---
 decoder.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 4152d50..aa46333 100644
--- a/decoder.go
+++ b/decoder.go
@@ -4,6 +4,8 @@ package ics // import "vimagination.zapto.org/ics"
 import (
 	"io"
 	"strings"
+
+	"vimagination.zapto.org/parser"
 )
 
 type section interface {
@@ -14,8 +16,17 @@ type section interface {
 
 // Decode decodes an iCalendar object from the given reader.
 func Decode(r io.Reader) (*Calendar, error) {
-	t := newTokeniser(&unfolder{r: r})
+	u := &unfolder{r: r}
+
+	cal, err := decode(newTokeniser(u))
+	if err != nil && u.err != nil && u.err != io.EOF {
+		return nil, u.err
+	}
+
+	return cal, err
+}
 
+func decode(t *parser.Parser) (*Calendar, error) {
 	if p, err := t.GetPhrase(); err != nil {
 		return nil, err
 	} else if p.Type != phraseContentLine {
-- 
2.43.0


From ed536fa44b52281fbebb827f98f1d9b60d4b6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:42 +0000
Subject: [PATCH 04/42] fix: return an error instead of panicking when data
 ends within a VALARM

---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index 4944994..ec8cd84 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -43,6 +43,8 @@ Loop:
 		ph, err := t.GetPhrase()
 		if err != nil {
 			return err
+		} else if ph.Type == parser.PhraseDone {
+			return io.ErrUnexpectedEOF
 		}
 
 		pt = append(pt, ph)
-- 
2.43.0


From 6763f71490ec2a1742d2233a2d3bdc5c80067210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:43 +0000
Subject: [PATCH 05/42] fix: return an error instead of panicking on a BYDAY
 value of only a number

---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index da1d385..a1efc20 100644
--- a/types.go
+++ b/types.go
@@ -788,10 +788,10 @@ func (r *Recur) decode(params map[string]string, data string) error {
 					neg = true
 					numCheck = false
 					day = day[1:]
+				}
 
-					if len(day) < 2 {
-						return ErrInvalidRecur
-					}
+				if len(day) < 2 {
+					return ErrInvalidRecur
 				}
 
 				var num int8
-- 
2.43.0


From 376bac94c7861f171385bb3f839c12078c512bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:14 +0000
Subject: [PATCH 06/42] fix: consume the escaped character when encoding and
 decoding param values

Encoding a param value containing a newline, caret or double quote never moved
past that character, so Encode did not return. Decoding kept the raw text of
each RFC 6868 escape as well as its meaning.
---
 genParams.sh | 5 ++++-
 params.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 5c0ab1f..2ac02e7 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -343,7 +343,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -358,6 +358,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -380,6 +381,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
diff --git a/params.go b/params.go
index f5d83ba..5cb997f 100644
--- a/params.go
+++ b/params.go
@@ -1194,7 +1194,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -1209,6 +1209,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -1231,6 +1232,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
-- 
2.43.0


From 30b2044f683bb91ec2246216e3f156a650a5a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:16 +0000
Subject: [PATCH 07/42] fix: accept finite floats, and not NaN and infinities,
 when validating

The checks were inverted, so no calendar with a GEO property could be encoded.
---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index a1efc20..0137dc8 100644
--- a/types.go
+++ b/types.go
@@ -421,7 +421,7 @@ func (f Float) encode(w writer) {
 func (f Float) valid() error {
 	d := float64(f)
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
@@ -463,13 +463,13 @@ func (t TFloat) encode(w writer) {
 func (t TFloat) valid() error {
 	d := float64(t[0])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
 	d = float64(t[1])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
-- 
2.43.0


From e269b2c790ac7b8928542ff9d277ade395cc40c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:31 +0000
Subject: [PATCH 08/42] fix: decode LAST-MODIFIED, the name that is encoded,
 instead of LAST-MOD

---
 names.gen    | 1 -
 sections.gen | 8 ++++----
 sections.go  | 8 ++++----
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/names.gen b/names.gen
index 9da5259..4d96975 100644
--- a/names.gen
+++ b/names.gen
@@ -42,7 +42,6 @@ TZURL=TimezoneURL
 REQUEST-STATUS=RequestStatus
 PRODID=ProductID
 UID=UID
-LAST-MOD=LastModified
 RECURID=RecurID
 RECURRENCE-ID=RecurrenceID
 TZOFFSET=TimezoneOffset
diff --git a/sections.gen b/sections.gen
index dba53b9..06d4903 100644
--- a/sections.gen
+++ b/sections.gen
@@ -14,7 +14,7 @@ VEVENT
 	CREATED
 	DESCRIPTION
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PRIORITY
@@ -48,7 +48,7 @@ VTODO
 	DESCRIPTION
 	DTSTART
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PERCENT-COMPLETE
@@ -79,7 +79,7 @@ VJOURNAL
 	CLASS
 	CREATED
 	DTSTART
-	LAST-MOD
+	LAST-MODIFIED
 	ORGANIZER
 	RECURRENCE-ID
 	SEQUENCE
@@ -112,7 +112,7 @@ VFREEBUSY
 	*REQUEST-STATUS
 VTIMEZONE
 	!TZID
-	LAST-MOD
+	LAST-MODIFIED
 	TZURL
 	*BEGIN:STANDARD
 	*BEGIN:DAYLIGHT
diff --git a/sections.go b/sections.go
index 741a87a..deddf38 100644
--- a/sections.go
+++ b/sections.go
@@ -327,7 +327,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cEvent, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cEvent, cLastModified)
 			}
@@ -1013,7 +1013,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTodo, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTodo, cLastModified)
 			}
@@ -1648,7 +1648,7 @@ Loop:
 			if err := s.DateTimeStart.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cJournal, cDateTimeStart, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cJournal, cLastModified)
 			}
@@ -2398,7 +2398,7 @@ Loop:
 			if err := s.TimezoneID.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneID, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTimezone, cLastModified)
 			}
-- 
2.43.0


From 3e9d9434d11210df962e377eed04e1fe8ec6087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:34 +0000
Subject: [PATCH 09/42] fix: require DURATION and REPEAT together in alarms,
 not only one of them

The check was inverted, so EMAIL and URI alarms with both or neither of the
properties were rejected and those with exactly one were accepted.
---
 genSections.sh | 4 ++--
 sections.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ef7da9..30b6740 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -241,10 +241,10 @@ function printSection() {
 		if [ "$typ" = "AND" ]; then
 			for r in ${reqs[@]}; do
 				if $second; then
-					echo -n " &&";
+					echo -n " ||";
 				fi;
 				if $first; then
-					echo -n " t == (s.$(getName "$r") == nil)";
+					echo -n " t != (s.$(getName "$r") == nil)";
 					second=true;
 				else
 					echo -n " t := s.$(getName "$r") == nil;";
diff --git a/sections.go b/sections.go
index deddf38..5119466 100644
--- a/sections.go
+++ b/sections.go
@@ -3681,7 +3681,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4001,7 +4001,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From e17ffa12d77b82861ee3890657ddce1a4b3b53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:22 +0000
Subject: [PATCH 10/42] fix: check the requirements between properties when
 validating

Encode accepted, and wrote, calendars that Decode then refused: an event with
both an end and a duration, a todo with a duration and no start, or a due date
and a duration, a timezone with no rules, and alarms breaking the rules
for GEO-LOCATION or DURATION and REPEAT.
---
 genSections.sh | 149 ++++++++++++++++++++++++++++++-------------------
 sections.go    |  50 +++++++++++++++--
 2 files changed, 137 insertions(+), 62 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 30b6740..473a710 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,96 @@ function addToSection() {
 	fi;
 }
 
+# isMultiple determines whether the named field of the current section is a slice
+function isMultiple() {
+	for tline in "${currSection[@]}"; do
+		aline=( $tline ); # 0:name 1:KEYWORD 2:required 3:multiple 4:section 5:requiredAlso 6:requiredInstead
+		if [ "${aline[0]}" = "$1" ]; then
+			${aline[3]};
+			return;
+		fi;
+	done;
+	false;
+}
+
+function isNil() {
+	declare name="$(getName "$1")";
+	if isMultiple "$name"; then
+		echo -n "len(s.$name) == 0";
+	else
+		echo -n "s.$name == nil";
+	fi;
+}
+
+function isNotNil() {
+	declare name="$(getName "$1")";
+	if isMultiple "$name"; then
+		echo -n "len(s.$name) != 0";
+	else
+		echo -n "s.$name != nil";
+	fi;
+}
+
+function printRequirements() {
+	for req in "${requirements[@]}"; do
+		first=false;
+		declare second=false;
+		echo -n "	if";
+		reqs=( $req );
+		typ=${reqs[0]};
+		reqs[0]="";
+		reqs=( ${reqs[@]} );
+		if [ "$typ" = "AND" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " ||";
+				fi;
+				if $first; then
+					echo -n " t != ($(isNil "$r"))";
+					second=true;
+				else
+					echo -n " t := $(isNil "$r");";
+					first=true;
+				fi;
+			done;
+		elif [ "$typ" = "OR" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(isNil "$r")";
+			done;
+		elif [ "$typ" = "ONE" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(isNotNil "$r")";
+			done;
+		elif [ "$typ" = "ERGO" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " || ";
+				fi;
+				if $first; then
+					echo -n "$(isNil "$r")";
+					second=true;
+				else
+					echo -n " $(isNotNil "$r") && (";
+					first=true;
+				fi;
+			done;
+			echo -n ")";
+		fi;
+		echo " {";
+		echo "		return fmt.Errorf($1, c$sName, ErrRequirementNotMet)";
+		echo "	}";
+		echo;
+	done;
+}
+
 function printSection() {
 	declare sName="$(getName $sectionName)";
 
@@ -230,63 +320,7 @@ function printSection() {
 	fi;
 
 	# check other requirements
-	for req in "${requirements[@]}"; do
-		first=false;
-		declare second=false;
-		echo -n "	if";
-		reqs=( $req );
-		typ=${reqs[0]};
-		reqs[0]="";
-		reqs=( ${reqs[@]} );
-		if [ "$typ" = "AND" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " ||";
-				fi;
-				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
-					second=true;
-				else
-					echo -n " t := s.$(getName "$r") == nil;";
-					first=true;
-				fi;
-			done;
-		elif [ "$typ" = "OR" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") == nil";
-			done;
-		elif [ "$typ" = "ONE" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") != nil";
-			done;
-		elif [ "$typ" = "ERGO" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " || ";
-				fi;
-				if $first; then
-					echo -n "s.$(getName "$r") == nil";
-					second=true;
-				else
-					echo -n " s.$(getName "$r") != nil && (";
-					first=true;
-				fi;
-			done;
-			echo -n ")";
-		fi;
-		echo " {";
-		echo "		return fmt.Errorf(errDecodingType, c$sName, ErrRequirementNotMet)";
-		echo "	}";
-		echo;
-	done;
+	printRequirements "errDecodingType";
 
 	# end of decoder
 	echo "	return nil";
@@ -358,6 +392,7 @@ function printSection() {
 		fi;
 		echo;
 	done;
+	printRequirements "errValidatingType";
 	echo "	return nil";
 	echo "}";
 	echo;
diff --git a/sections.go b/sections.go
index 5119466..455bdf1 100644
--- a/sections.go
+++ b/sections.go
@@ -864,6 +864,10 @@ func (s *Event) valid() error {
 		}
 	}
 
+	if s.DateTimeEnd != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cEvent, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -1544,6 +1548,14 @@ func (s *Todo) valid() error {
 		}
 	}
 
+	if s.Duration != nil && (s.DateTimeStart == nil) {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
+	if s.Due != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -2431,7 +2443,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cTimezone, ErrMissingRequired)
 	}
 
-	if s.Standard == nil && s.Daylight == nil {
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
 		return fmt.Errorf(errDecodingType, cTimezone, ErrRequirementNotMet)
 	}
 
@@ -2490,6 +2502,10 @@ func (s *Timezone) valid() error {
 		}
 	}
 
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
+		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3026,7 +3042,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
@@ -3163,6 +3179,10 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3343,7 +3363,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
@@ -3475,6 +3495,10 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3677,7 +3701,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -3828,6 +3852,14 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3997,7 +4029,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
@@ -4128,6 +4160,14 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From a726248030ef598c77e26dc7242432446da60471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:26 +0000
Subject: [PATCH 11/42] fix: compare component names and alarm actions without
 regard to case

BEGIN lines were matched in any case, but END lines, names of nested unknown
components, and the lines of an alarm were only matched in upper case.
---
 genSections.sh    |  6 +++---
 sections.go       | 28 ++++++++++++++--------------
 sections_alarm.go |  5 +++--
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 473a710..e8f4299 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -280,9 +280,9 @@ function printSection() {
 	done;
 	echo "		case \"END\":";
 	if [ "${sectionName:0:6}" = "VALARM" ]; then
-		echo "			if value != \"VALARM\" {";
+		echo "			if strings.ToUpper(value) != \"VALARM\" {";
 	else
-		echo "			if value != \"$sectionName\" {";
+		echo "			if strings.ToUpper(value) != \"$sectionName\" {";
 	fi;
 	echo "				return fmt.Errorf(errDecodingType, c$sName, ErrInvalidEnd)";
 	echo "			}";
@@ -479,7 +479,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
diff --git a/sections.go b/sections.go
index 455bdf1..aefe280 100644
--- a/sections.go
+++ b/sections.go
@@ -106,7 +106,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cCalendar, cProductID, err)
 			}
 		case "END":
-			if value != "VCALENDAR" {
+			if strings.ToUpper(value) != "VCALENDAR" {
 				return fmt.Errorf(errDecodingType, cCalendar, ErrInvalidEnd)
 			}
 
@@ -538,7 +538,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VEVENT" {
+			if strings.ToUpper(value) != "VEVENT" {
 				return fmt.Errorf(errDecodingType, cEvent, ErrInvalidEnd)
 			}
 
@@ -1218,7 +1218,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VTODO" {
+			if strings.ToUpper(value) != "VTODO" {
 				return fmt.Errorf(errDecodingType, cTodo, ErrInvalidEnd)
 			}
 
@@ -1829,7 +1829,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VJOURNAL" {
+			if strings.ToUpper(value) != "VJOURNAL" {
 				return fmt.Errorf(errDecodingType, cJournal, ErrInvalidEnd)
 			}
 
@@ -2227,7 +2227,7 @@ Loop:
 
 			s.RequestStatus = append(s.RequestStatus, e)
 		case "END":
-			if value != "VFREEBUSY" {
+			if strings.ToUpper(value) != "VFREEBUSY" {
 				return fmt.Errorf(errDecodingType, cFreeBusy, ErrInvalidEnd)
 			}
 
@@ -2431,7 +2431,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneURL, err)
 			}
 		case "END":
-			if value != "VTIMEZONE" {
+			if strings.ToUpper(value) != "VTIMEZONE" {
 				return fmt.Errorf(errDecodingType, cTimezone, ErrInvalidEnd)
 			}
 
@@ -2608,7 +2608,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "STANDARD" {
+			if strings.ToUpper(value) != "STANDARD" {
 				return fmt.Errorf(errDecodingType, cStandard, ErrInvalidEnd)
 			}
 
@@ -2787,7 +2787,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "DAYLIGHT" {
+			if strings.ToUpper(value) != "DAYLIGHT" {
 				return fmt.Errorf(errDecodingType, cDaylight, ErrInvalidEnd)
 			}
 
@@ -3030,7 +3030,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmAudio, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmAudio, ErrInvalidEnd)
 			}
 
@@ -3351,7 +3351,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmDisplay, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrInvalidEnd)
 			}
 
@@ -3689,7 +3689,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmEmail, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmEmail, ErrInvalidEnd)
 			}
 
@@ -4017,7 +4017,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmURI, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmURI, ErrInvalidEnd)
 			}
 
@@ -4195,7 +4195,7 @@ Loop:
 				}
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmNone, ErrInvalidEnd)
 			}
 
@@ -4224,7 +4224,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
diff --git a/sections_alarm.go b/sections_alarm.go
index ec8cd84..97f4f02 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -3,6 +3,7 @@ package ics
 import (
 	"errors"
 	"io"
+	"strings"
 
 	"vimagination.zapto.org/parser"
 )
@@ -49,7 +50,7 @@ Loop:
 
 		pt = append(pt, ph)
 
-		switch ph.Data[0].Data {
+		switch strings.ToUpper(ph.Data[0].Data) {
 		case "BEGIN":
 			return ErrInvalidStructure
 		case "ACTION":
@@ -57,7 +58,7 @@ Loop:
 				return ErrInvalidStructure
 			}
 
-			switch ph.Data[len(ph.Data)-1].Data {
+			switch strings.ToUpper(ph.Data[len(ph.Data)-1].Data) {
 			case "AUDIO":
 				a.AlarmType = new(AlarmAudio)
 			case "DISPLAY":
-- 
2.43.0


From b619dbe8a84603170f0d36f84e48db68f6f0a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:28 +0000
Subject: [PATCH 12/42] fix: do not recurse when skipping nested unknown
 components

The depth of the recursion was that of the data, so deeply nested components
could exhaust the stack, which ends the program.
---
 genSections.sh | 16 +++++++++-------
 sections.go    | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index e8f4299..1f4d6a8 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -469,7 +469,9 @@ OFS="$IFS";
 	cat <<HEREDOC
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -479,17 +481,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
diff --git a/sections.go b/sections.go
index aefe280..85af7e9 100644
--- a/sections.go
+++ b/sections.go
@@ -4214,7 +4214,9 @@ func (s *AlarmNone) valid() error {
 
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -4224,17 +4226,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
-- 
2.43.0


From b48e76a22b1b40b27bc9158fbdcf7e7e9662b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:29 +0000
Subject: [PATCH 13/42] fix: decode the ENCODING, boolean and recurrence
 keywords in any case

---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 0137dc8..947c576 100644
--- a/types.go
+++ b/types.go
@@ -20,7 +20,7 @@ const dateTimeFormat = "20060102T150405Z"
 type Binary []byte
 
 func (b *Binary) decode(params map[string]string, data string) error {
-	if params["ENCODING"] != "BASE64" {
+	if strings.ToUpper(params["ENCODING"]) != "BASE64" {
 		return ErrInvalidEncoding
 	}
 
@@ -54,7 +54,7 @@ func (Binary) valid() error {
 type Boolean bool
 
 func (b *Boolean) decode(_ map[string]string, data string) error {
-	cb, err := strconv.ParseBool(data)
+	cb, err := strconv.ParseBool(strings.ToUpper(data))
 	*b = Boolean(cb)
 
 	if err != nil {
@@ -639,7 +639,7 @@ type Recur struct {
 func (r *Recur) decode(params map[string]string, data string) error {
 	var freq bool
 
-	for _, rule := range strings.Split(data, ";") {
+	for _, rule := range strings.Split(strings.ToUpper(data), ";") {
 		parts := strings.SplitN(rule, "=", 2)
 
 		if len(parts) != 2 {
-- 
2.43.0


From 23e2dea98711e2a467bfe8f66f149168de854288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:48 +0000
Subject: [PATCH 14/42] fix: quote the URI valued params, as the decoder
 requires

The values of ALTREP, DELEGATED-FROM, DELEGATED-TO and URI were written
without quotes, so any address containing a colon produced a line that could
not be decoded.
---
 genParams.sh | 18 ++++++++++++++----
 params.go    | 32 ++++++++++++++++----------------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 2ac02e7..a7e8b9d 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -143,7 +143,11 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	var q $vType";
 				echo;
-				echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				if $doubleQuote; then
+					echo "$indent	if err := q.decode(nil, decode6868(${vName}.Data)); err != nil {";
+				else
+					echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				fi;
 				echo "$indent		return fmt.Errorf(errDecodingType, c$type, err)";
 				echo "$indent	}";
 				echo;
@@ -230,9 +234,15 @@ source "comments.sh";
 				vName="t";
 			fi;
 			if [ ! -z "$vType" ]; then
-				echo "$indent	q := $vType($vName)";
-				echo;
-				echo "$indent	q.encode(w)";
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+					echo "$indent	w.Write(encode6868(${vName}.String()))";
+					echo "$indent	w.WriteString(\"\\\"\")";
+				else
+					echo "$indent	q := $vType($vName)";
+					echo;
+					echo "$indent	q.encode(w)";
+				fi;
 			elif [ ${#choices[@]} -eq 1 ]; then
 				echo "$indent	w.WriteString(\"${choices[0]}\")";
 				freeChoice=true;
diff --git a/params.go b/params.go
index 5cb997f..da3b143 100644
--- a/params.go
+++ b/params.go
@@ -26,7 +26,7 @@ func (t *ParamAlternativeRepresentation) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cAlternativeRepresentation, err)
 	}
 
@@ -42,9 +42,9 @@ func (t ParamAlternativeRepresentation) encode(w writer) {
 
 	w.WriteString(";ALTREP=")
 
-	q := URI(t)
-
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(t.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamAlternativeRepresentation) valid() error {
@@ -170,7 +170,7 @@ func (t *ParamDelegator) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelegator, err)
 		}
 
@@ -192,9 +192,9 @@ func (t ParamDelegator) encode(w writer) {
 			w.WriteString(",")
 		}
 
-		q := CalendarAddress(v)
-
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(v.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -219,7 +219,7 @@ func (t *ParamDelagatee) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelagatee, err)
 		}
 
@@ -241,9 +241,9 @@ func (t ParamDelagatee) encode(w writer) {
 			w.WriteString(",")
 		}
 
-		q := CalendarAddress(v)
-
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(v.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -1066,7 +1066,7 @@ func (t *ParamURI) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cURI, err)
 	}
 
@@ -1082,9 +1082,9 @@ func (t ParamURI) encode(w writer) {
 
 	w.WriteString(";URI=")
 
-	q := URI(t)
-
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(t.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamURI) valid() error {
-- 
2.43.0


From 37709e9722e7266248edd87944d1e18a33669af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:34 +0000
Subject: [PATCH 15/42] fix: compare the timezones of a period by name

Each decoded time has its own Location value, so a period that was decoded with
a TZID could not be encoded again.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 947c576..ef6a8a8 100644
--- a/types.go
+++ b/types.go
@@ -554,7 +554,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
+	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From c6191ec9c459639573b7282db0344920132da4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:35 +0000
Subject: [PATCH 16/42] fix: write times as UTC when their timezone cannot be
 decoded by name

A time in an unnamed or custom zone, such as one parsed with a numeric offset,
was written with an empty or unknown TZID, and so was decoded as a different
time or refused. The same was true of the second occurrence of a local
time when the clocks go back.
---
 types.go | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index ef6a8a8..4d49974 100644
--- a/types.go
+++ b/types.go
@@ -188,6 +188,8 @@ func (d *DateTime) decode(params map[string]string, data string) error {
 }
 
 func (d DateTime) aencode(w writer) {
+	d.Time = encodableTime(d.Time)
+
 	writeTimezone(w, d.Time)
 	w.WriteString(":")
 	d.encode(w)
@@ -531,6 +533,17 @@ func (p *Period) decode(params map[string]string, data string) error {
 }
 
 func (p Period) aencode(w writer) {
+	p.Start.Time = encodableTime(p.Start.Time)
+
+	if !p.End.IsZero() {
+		p.End.Time = encodableTime(p.End.Time)
+
+		if p.Start.Location() == time.UTC || p.End.Location() == time.UTC {
+			p.Start.Time = p.Start.UTC()
+			p.End.Time = p.End.UTC()
+		}
+	}
+
 	writeTimezone(w, p.Start.Time)
 	w.WriteString(":")
 	p.encode(w)
@@ -965,9 +978,16 @@ func (r *Recur) decode(params map[string]string, data string) error {
 }
 
 func (r *Recur) aencode(w writer) {
-	writeTimezone(w, r.Until)
+	c := *r
+
+	if c.UntilTime {
+		c.Until = encodableTime(c.Until)
+
+		writeTimezone(w, c.Until)
+	}
+
 	w.WriteString(":")
-	r.encode(w)
+	c.encode(w)
 }
 
 func (r *Recur) encode(w writer) {
@@ -1565,6 +1585,28 @@ func (UTCOffset) valid() error {
 	return nil
 }
 
+// encodableTime returns the time unchanged if it can be decoded from its local
+// form and the name of its location. Otherwise the location is unnamed or
+// unknown, or the local time is ambiguous, and the time is returned as UTC.
+func encodableTime(t time.Time) time.Time {
+	l := t.Location()
+
+	if l == time.UTC || l == time.Local {
+		return t
+	}
+
+	if named, err := time.LoadLocation(l.String()); err == nil && named != time.UTC && named != time.Local {
+		year, month, day := t.Date()
+		hour, min, sec := t.Clock()
+
+		if time.Date(year, month, day, hour, min, sec, t.Nanosecond(), named).Equal(t) {
+			return t
+		}
+	}
+
+	return t.UTC()
+}
+
 func writeTimezone(w writer, t time.Time) {
 	switch l := t.Location(); l {
 	case time.UTC, time.Local:
-- 
2.43.0


From c56a1c71157eab05d08bd9eab7105f7651474dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:37 +0000
Subject: [PATCH 17/42] fix: keep the other units when encoding a duration that
 has weeks

The format has no way of combining weeks with other units, so all but
the weeks were silently dropped. They are now encoded as days.
---
 types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types.go b/types.go
index 4d49974..be119df 100644
--- a/types.go
+++ b/types.go
@@ -351,6 +351,12 @@ func (d Duration) encode(w writer) {
 
 	data = append(data, 'P')
 
+	if d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0 {
+		// weeks cannot be combined with any other unit
+		d.Days += d.Weeks * 7
+		d.Weeks = 0
+	}
+
 	if d.Weeks != 0 {
 		data = append(data, itoa(d.Weeks)...)
 		data = append(data, 'W')
-- 
2.43.0


From db1c00faf2a4c10d44a0959fad8cd9ee27bca4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:38 +0000
Subject: [PATCH 18/42] fix: refuse recurrence rules that cannot be decoded
 again

A rule with both a count and an end was encoded without its end, and the
occurrence of a BYDAY value was not limited as it is when decoding.
---
 types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/types.go b/types.go
index be119df..76c685d 100644
--- a/types.go
+++ b/types.go
@@ -1193,6 +1193,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
+	if r.Count != 0 && !r.Until.IsZero() {
+		return ErrInvalidRecur
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
@@ -1217,6 +1221,10 @@ func (r *Recur) valid() error {
 		default:
 			return ErrInvalidRecurByDay
 		}
+
+		if day.Occurrence > 53 || day.Occurrence < -53 {
+			return ErrInvalidRecurByDay
+		}
 	}
 
 	for _, monthDay := range r.ByMonthDay {
-- 
2.43.0


From 94a9bd455d95687deda538abdf46aefd8b8246d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:40 +0000
Subject: [PATCH 19/42] fix: refuse UTC offsets with more hours than can be
 encoded

The hours of such an offset were silently replaced.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 76c685d..929ed43 100644
--- a/types.go
+++ b/types.go
@@ -1595,7 +1595,11 @@ func (u UTCOffset) encode(w writer) {
 	w.Write(b)
 }
 
-func (UTCOffset) valid() error {
+func (u UTCOffset) valid() error {
+	if u >= 100*3600 || u <= -100*3600 {
+		return ErrInvalidOffset
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 97d80751ef7dee5a742b1bfd5e1fdf95c12325bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:41 +0000
Subject: [PATCH 20/42] fix: write the sign of positive UTC offsets

RFC 5545 section 3.3.14 requires the sign, and other readers refuse an offset
without one.
---
 types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types.go b/types.go
index 929ed43..a77a242 100644
--- a/types.go
+++ b/types.go
@@ -1561,6 +1561,11 @@ func (u *UTCOffset) decode(_ map[string]string, data string) error {
 
 func (u UTCOffset) aencode(w writer) {
 	w.WriteString(":")
+
+	if u >= 0 {
+		w.WriteString("+")
+	}
+
 	u.encode(w)
 }
 
-- 
2.43.0


From fe5b7afe511f10b0bb37120af7fac04eff9e2515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:19 +0000
Subject: [PATCH 21/42] fix: treat the text of FMTTYPE like that of the other
 params

It was encoded with RFC 6868 escapes but decoded without, and could contain
control characters, including line breaks, when encoded.
---
 genParams.sh | 4 ++--
 params.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index a7e8b9d..5ea6dad 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -193,7 +193,7 @@ source "comments.sh";
 					echo "$indent		return fmt.Errorf(errDecodingType, c$type, ErrInvalidParam)";
 					echo "$indent	}";
 					echo;
-					echo "$indent	*t = Param$type(${vName}.Data)";
+					echo "$indent	*t = Param$type(decode6868(${vName}.Data))";
 				fi;
 			fi;
 			if $multiple; then
@@ -316,7 +316,7 @@ source "comments.sh";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				elif [ ! -z "$regex" ]; then
-					echo "$indent	if !regex${type}.Match([]byte($vName)) {";
+					echo "$indent	if !regex${type}.Match([]byte($vName)) || strings.ContainsAny(string($vName), nonsafeChars[:31]) {";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				else
diff --git a/params.go b/params.go
index da3b143..f64b484 100644
--- a/params.go
+++ b/params.go
@@ -371,7 +371,7 @@ func (t *ParamFormatType) decode(vs []parser.Token) error {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	*t = ParamFormatType(vs[0].Data)
+	*t = ParamFormatType(decode6868(vs[0].Data))
 
 	return nil
 }
@@ -393,7 +393,7 @@ func (t ParamFormatType) encode(w writer) {
 }
 
 func (t ParamFormatType) valid() error {
-	if !regexFormatType.Match([]byte(t)) {
+	if !regexFormatType.Match([]byte(t)) || strings.ContainsAny(string(t), nonsafeChars[:31]) {
 		return fmt.Errorf(errValidatingType, cFormatType, ErrInvalidValue)
 	}
 
-- 
2.43.0


From cb2fb4b29a09f2eec8a5a7292c03487f5acab1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:20 +0000
Subject: [PATCH 22/42] fix: refuse to encode addresses that contain control
 characters

A line break in the opaque or query part of a URL was written as is, so
that the rest of the value became further content lines.
---
 types.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index a77a242..b9dbcd4 100644
--- a/types.go
+++ b/types.go
@@ -111,7 +111,11 @@ func (c CalendarAddress) encode(w writer) {
 	w.WriteString(c.URL.String())
 }
 
-func (CalendarAddress) valid() error {
+func (c CalendarAddress) valid() error {
+	if strings.ContainsAny(c.URL.String(), nonsafeChars[:32]) {
+		return ErrInvalidValue
+	}
+
 	return nil
 }
 
@@ -1495,7 +1499,11 @@ func (u URI) encode(w writer) {
 	w.WriteString(u.URL.String())
 }
 
-func (URI) valid() error {
+func (u URI) valid() error {
+	if strings.ContainsAny(u.URL.String(), nonsafeChars[:32]) {
+		return ErrInvalidValue
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0826901843a4ed5d0261aa8d5bf157680ebb6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:22 +0000
Subject: [PATCH 23/42] fix: do not add a replacement character after a
 backslash that ends a text

---
 types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types.go b/types.go
index b9dbcd4..6d3c9b9 100644
--- a/types.go
+++ b/types.go
@@ -1308,6 +1308,8 @@ Loop:
 				d = append(d, ',')
 			case 'N', 'n':
 				d = append(d, '\n')
+			case -1:
+				d = append(d, '\\')
 			default:
 				d = append(d, '\\')
 				l := utf8.EncodeRune(ru[:], c)
-- 
2.43.0


From 6c8fc674482eacd0e2eb747b5705f771fcefedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:23 +0000
Subject: [PATCH 24/42] fix: refuse to encode times with a year that does not
 fit in four digits

They were written with more digits, or a sign, and could not be decoded.
---
 types.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index 6d3c9b9..f2e9571 100644
--- a/types.go
+++ b/types.go
@@ -147,7 +147,7 @@ func (d Date) encode(w writer) {
 }
 
 func (d Date) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(d.Time) {
 		return ErrInvalidTime
 	}
 
@@ -215,7 +215,7 @@ func (d DateTime) encode(w writer) {
 }
 
 func (d DateTime) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(d.Time) || !validYear(d.UTC()) {
 		return ErrInvalidTime
 	}
 
@@ -571,13 +571,13 @@ func (p Period) encode(w writer) {
 }
 
 func (p Period) valid() error {
-	if p.Start.IsZero() {
+	if p.Start.valid() != nil {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
 		if p.Duration.Negative {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
+	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
@@ -1201,6 +1201,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecur
 	}
 
+	if !validYear(r.Until) || !validYear(r.Until.UTC()) {
+		return ErrInvalidRecur
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
@@ -1640,6 +1644,13 @@ func encodableTime(t time.Time) time.Time {
 	return t.UTC()
 }
 
+// validYear determines whether the year can be encoded in four digits.
+func validYear(t time.Time) bool {
+	year := t.Year()
+
+	return year >= 0 && year <= 9999
+}
+
 func writeTimezone(w writer, t time.Time) {
 	switch l := t.Location(); l {
 	case time.UTC, time.Local:
-- 
2.43.0


From 22ad9307804589d79865e5e5dbe389b3423cc352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:10 +0000
Subject: [PATCH 25/42] fix: require a single T before the time units of a
 duration

---
 types.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index f2e9571..c571ab3 100644
--- a/types.go
+++ b/types.go
@@ -241,10 +241,18 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 		return ErrInvalidDuration
 	}
 
-	var level uint8
+	var (
+		level    uint8
+		timePart bool
+	)
 
 	for t.Peek() != -1 {
 		if t.Accept("T") {
+			if timePart {
+				return ErrInvalidDuration
+			}
+
+			timePart = true
 			level = 1
 		}
 
@@ -283,7 +291,7 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Days = num
 			level = 1
 		case 'H':
-			if level > 1 {
+			if !timePart || level > 1 {
 				return ErrInvalidDuration
 			}
 
@@ -292,7 +300,7 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Hours = num
 			level = 2
 		case 'M':
-			if level > 2 {
+			if !timePart || level > 2 {
 				return ErrInvalidDuration
 			}
 
@@ -301,7 +309,7 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Minutes = num
 			level = 3
 		case 'S':
-			if level > 3 {
+			if !timePart || level > 3 {
 				return ErrInvalidDuration
 			}
 
-- 
2.43.0


From 10cff06969712fca04f4f9378b845cd2f9b7da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:24 +0000
Subject: [PATCH 26/42] fix: refuse recurrence rules that repeat any of their
 parts

---
 types.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/types.go b/types.go
index c571ab3..db30390 100644
--- a/types.go
+++ b/types.go
@@ -668,15 +668,17 @@ type Recur struct {
 }
 
 func (r *Recur) decode(params map[string]string, data string) error {
-	var freq bool
+	seen := make(map[string]bool)
 
 	for _, rule := range strings.Split(strings.ToUpper(data), ";") {
 		parts := strings.SplitN(rule, "=", 2)
 
-		if len(parts) != 2 {
+		if len(parts) != 2 || seen[parts[0]] {
 			return ErrInvalidRecur
 		}
 
+		seen[parts[0]] = true
+
 		switch parts[0] {
 		case "FREQ":
 			switch parts[1] {
@@ -697,10 +699,8 @@ func (r *Recur) decode(params map[string]string, data string) error {
 			default:
 				return ErrInvalidRecur
 			}
-
-			freq = true
 		case "UNTIL":
-			if r.Count > 0 {
+			if seen["COUNT"] {
 				return ErrInvalidRecur
 			} else if len(parts[1]) > 10 {
 				var d DateTime
@@ -722,7 +722,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 				r.UntilTime = false
 			}
 		case "COUNT":
-			if !r.Until.IsZero() {
+			if seen["UNTIL"] {
 				return ErrInvalidRecur
 			}
 
@@ -988,7 +988,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 		}
 	}
 
-	if !freq {
+	if !seen["FREQ"] {
 		return ErrInvalidRecur
 	}
 
-- 
2.43.0


From 37c6fc5e188d7d08c1bac7bc872911eb787badff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:26 +0000
Subject: [PATCH 27/42] fix: refuse NaN and infinities when decoding floats

---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index db30390..1ef47a3 100644
--- a/types.go
+++ b/types.go
@@ -426,7 +426,7 @@ func (f *Float) decode(_ map[string]string, data string) error {
 
 	*f = Float(cf)
 
-	return nil
+	return f.valid()
 }
 
 func (f Float) aencode(w writer) {
@@ -466,7 +466,7 @@ func (t *TFloat) decode(_ map[string]string, data string) error {
 		return fmt.Errorf("error parsing TFloat[1]: %w", err)
 	}
 
-	return nil
+	return t.valid()
 }
 
 func (t TFloat) aencode(w writer) {
-- 
2.43.0


From 3f29206b34c85f024ae0fcca08eae5c554c05356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:35 +0000
Subject: [PATCH 28/42] fix: refuse a COUNT or INTERVAL of zero in recurrence
 rules

---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 1ef47a3..e6a3538 100644
--- a/types.go
+++ b/types.go
@@ -727,7 +727,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 			}
 
 			n, err := strconv.ParseUint(parts[1], 10, 64)
-			if err != nil {
+			if err != nil || n == 0 {
 				return ErrInvalidRecur
 			}
 
@@ -738,7 +738,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 			}
 
 			n, err := strconv.ParseUint(parts[1], 10, 64)
-			if err != nil {
+			if err != nil || n == 0 {
 				return ErrInvalidRecur
 			}
 
-- 
2.43.0


From 755f512961fb2d9db6f8f851821bbd0b0dbe471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:50 +0000
Subject: [PATCH 29/42] fix: refuse fractions of a second when decoding times

---
 types.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index e6a3538..77cdf5f 100644
--- a/types.go
+++ b/types.go
@@ -166,21 +166,21 @@ func (d *DateTime) decode(params map[string]string, data string) error {
 			return fmt.Errorf("error loading timezone for DateTime: %w", err)
 		}
 
-		t, err := time.ParseInLocation(dateTimeFormat[:15], data, l)
+		t, err := parseDateTime(dateTimeFormat[:15], data, l)
 		if err != nil {
 			return fmt.Errorf("error parsing time in location for DateTime: %w", err)
 		}
 
 		d.Time = t
 	} else if len(data) > 0 && data[len(data)-1] == 'Z' {
-		t, err := time.ParseInLocation(dateTimeFormat, data, time.UTC)
+		t, err := parseDateTime(dateTimeFormat, data, time.UTC)
 		if err != nil {
 			return fmt.Errorf("error parsing time in UTC for DateTime: %w", err)
 		}
 
 		d.Time = t
 	} else {
-		t, err := time.ParseInLocation(dateTimeFormat[:15], data, time.Local)
+		t, err := parseDateTime(dateTimeFormat[:15], data, time.Local)
 		if err != nil {
 			return fmt.Errorf("error parsing local time for DateTime: %w", err)
 		}
@@ -1630,6 +1630,16 @@ func (u UTCOffset) valid() error {
 	return nil
 }
 
+// parseDateTime parses a time that has exactly the given layout; unlike the
+// time package, it does not allow a fraction of a second.
+func parseDateTime(layout, data string, l *time.Location) (time.Time, error) {
+	if len(data) != len(layout) {
+		return time.Time{}, ErrInvalidTime
+	}
+
+	return time.ParseInLocation(layout, data, l)
+}
+
 // encodableTime returns the time unchanged if it can be decoded from its local
 // form and the name of its location. Otherwise the location is unnamed or
 // unknown, or the local time is ambiguous, and the time is returned as UTC.
-- 
2.43.0


From 14593cdf8495cde52dea1043d0cc3ea5957e322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:52 +0000
Subject: [PATCH 30/42] fix: decode a leap second as the second before it

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 77cdf5f..d479242 100644
--- a/types.go
+++ b/types.go
@@ -1637,6 +1637,10 @@ func parseDateTime(layout, data string, l *time.Location) (time.Time, error) {
 		return time.Time{}, ErrInvalidTime
 	}
 
+	if data[13:15] == "60" { // leap second, see RFC 5545, Section 3.3.12
+		data = data[:13] + "59" + data[15:]
+	}
+
 	return time.ParseInLocation(layout, data, l)
 }
 
-- 
2.43.0


From 3199af6533ecdad8c498b13bae7dd0ae16106ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:42 +0000
Subject: [PATCH 31/42] fix: require DURATION and REPEAT together in audio and
 display alarms too

---
 sections.gen |  2 ++
 sections.go  | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/sections.gen b/sections.gen
index 06d4903..fe7a5e6 100644
--- a/sections.gen
+++ b/sections.gen
@@ -148,6 +148,7 @@ VALARMAUDIO
 	RELATED-TO
 	DEFAULT-ALARM
 	?GEO-LOCATION>PROXIMITY
+	?DURATION+REPEAT
 VALARMDISPLAY
 	!DESCRIPTION
 	!TRIGGER
@@ -163,6 +164,7 @@ VALARMDISPLAY
 	RELATED-TO
 	DEFAULT-ALARM
 	?GEO-LOCATION>PROXIMITY
+	?DURATION+REPEAT
 VALARMEMAIL
 	!DESCRIPTION
 	!TRIGGER
diff --git a/sections.go b/sections.go
index 85af7e9..05cedce 100644
--- a/sections.go
+++ b/sections.go
@@ -3046,6 +3046,10 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3183,6 +3187,10 @@ func (s *AlarmAudio) valid() error {
 		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3367,6 +3375,10 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3499,6 +3511,10 @@ func (s *AlarmDisplay) valid() error {
 		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 2a822be3e07d78a89eb86b4af6026b4b93e173e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:22 +0000
Subject: [PATCH 32/42] fix: refuse to encode addresses that cannot be parsed

A URL with, say, an invalid port or host was written as a text that
Decode does not accept.
---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index d479242..75def7e 100644
--- a/types.go
+++ b/types.go
@@ -112,7 +112,9 @@ func (c CalendarAddress) encode(w writer) {
 }
 
 func (c CalendarAddress) valid() error {
-	if strings.ContainsAny(c.URL.String(), nonsafeChars[:32]) {
+	s := c.URL.String()
+
+	if _, err := url.Parse(s); err != nil || strings.ContainsAny(s, nonsafeChars[:32]) {
 		return ErrInvalidValue
 	}
 
@@ -1514,7 +1516,9 @@ func (u URI) encode(w writer) {
 }
 
 func (u URI) valid() error {
-	if strings.ContainsAny(u.URL.String(), nonsafeChars[:32]) {
+	s := u.URL.String()
+
+	if _, err := url.Parse(s); err != nil || strings.ContainsAny(s, nonsafeChars[:32]) {
 		return ErrInvalidValue
 	}
 
-- 
2.43.0


From 129bb8dee54292d101bf3c7cc636868b1fd893a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:34 +0000
Subject: [PATCH 33/42] fix: refuse to decode periods that do not end after
 their start

Such periods were decoded, and then refused by Encode.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 75def7e..c2102c3 100644
--- a/types.go
+++ b/types.go
@@ -549,7 +549,7 @@ func (p *Period) decode(params map[string]string, data string) error {
 		return fmt.Errorf("error while decoding Period End: %w", err)
 	}
 
-	return nil
+	return p.valid()
 }
 
 func (p Period) aencode(w writer) {
-- 
2.43.0


From 347bd85ac112aebdf5c4d5e4f3cc415f5124efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:36 +0000
Subject: [PATCH 34/42] fix: refuse params that have no name

The grammar requires at least one character, but ;=value was taken as an
unknown param.
---
 tokeniser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokeniser.go b/tokeniser.go
index 262fe04..392e3e3 100644
--- a/tokeniser.go
+++ b/tokeniser.go
@@ -70,7 +70,7 @@ func parseParamName(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 	t.Accept(";")
 	t.Get()
 
-	if t.AcceptRun(ianaToken) != '=' {
+	if !t.Accept(ianaToken) || t.AcceptRun(ianaToken) != '=' {
 		t.Err = ErrInvalidContentLineParamName
 
 		return t.Error()
-- 
2.43.0


From b5e4711c4c9b996b898d1e62a9e06af506d12d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:37 +0000
Subject: [PATCH 35/42] fix: refuse BYDAY values with a sign and no number

-MO was refused, but +MO was taken as MO.
---
 types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.go b/types.go
index c2102c3..2231a6f 100644
--- a/types.go
+++ b/types.go
@@ -816,6 +816,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 				}
 
 				if day[0] == '+' {
+					numCheck = false
 					day = day[1:]
 				} else if day[0] == '-' {
 					neg = true
-- 
2.43.0


From c0dcb7537bd3532d99d623958a184322c86e45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:19 +0000
Subject: [PATCH 36/42] fix: refuse durations whose days overflow when encoding

---
 types.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 2231a6f..3739eee 100644
--- a/types.go
+++ b/types.go
@@ -413,7 +413,12 @@ func (d Duration) encode(w writer) {
 	w.Write(data)
 }
 
-func (Duration) valid() error {
+func (d Duration) valid() error {
+	// weeks are written as days when they are combined with any other unit
+	if (d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0) && d.Weeks > (math.MaxUint-d.Days)/7 {
+		return ErrInvalidDuration
+	}
+
 	return nil
 }
 
@@ -584,7 +589,7 @@ func (p Period) valid() error {
 	if p.Start.valid() != nil {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
-		if p.Duration.Negative {
+		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
 	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
-- 
2.43.0


From a51a333fac48197aac3e8f5effbcca88de74372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:38 +0000
Subject: [PATCH 37/42] fix: a FMTTYPE was checked before its escapes were
 decoded, so that Encode refused some that were decoded

---
 genParams.sh | 2 +-
 params.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 5ea6dad..9adc0eb 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -189,7 +189,7 @@ source "comments.sh";
 						echo "	*t = Param$type(decode6868(${vName}.Data))";
 					fi;
 				else
-					echo "$indent	if !regex${type}.MatchString(${vName}.Data) {";
+					echo "$indent	if !regex${type}.MatchString(decode6868(${vName}.Data)) {";
 					echo "$indent		return fmt.Errorf(errDecodingType, c$type, ErrInvalidParam)";
 					echo "$indent	}";
 					echo;
diff --git a/params.go b/params.go
index f64b484..9a608e3 100644
--- a/params.go
+++ b/params.go
@@ -367,7 +367,7 @@ func (t *ParamFormatType) decode(vs []parser.Token) error {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	if !regexFormatType.MatchString(vs[0].Data) {
+	if !regexFormatType.MatchString(decode6868(vs[0].Data)) {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-- 
2.43.0


From da1fb81b46b9bcf1d1f17740cc897359c7692d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:31 +0000
Subject: [PATCH 38/42] fix: addresses that Encode refuses, because they are
 not parsed again from what would be written, were decoded

---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 3739eee..c5eb0a8 100644
--- a/types.go
+++ b/types.go
@@ -99,7 +99,7 @@ func (c *CalendarAddress) decode(_ map[string]string, data string) error {
 
 	c.URL = *cu
 
-	return nil
+	return c.valid()
 }
 
 func (c CalendarAddress) aencode(w writer) {
@@ -1509,7 +1509,7 @@ func (u *URI) decode(_ map[string]string, data string) error {
 
 	u.URL = *cu
 
-	return nil
+	return u.valid()
 }
 
 func (u URI) aencode(w writer) {
-- 
2.43.0


From 6fea296cd680e974c7c238f0b0dbdab9c477c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:08 +0000
Subject: [PATCH 39/42] fix: refuse periods with only one end in local time

Zones of a period are compared by name, and the local zone has the name of
a real zone when TZ is set. Such a period was encoded with the zone of its
start for both ends.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index c5eb0a8..68d7afb 100644
--- a/types.go
+++ b/types.go
@@ -592,7 +592,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
+	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() || (p.Start.Location() == time.Local) != (p.End.Location() == time.Local) {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From 4653a22f6fd9e1d7c614a3b5741a8ac10064d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:29 +0000
Subject: [PATCH 40/42] fix: encode times at the ends of the years 0 and 9999
 in a zone that can be named

They were refused because their instant in UTC is in another year, although
they are not written as UTC; so Encode refused times that Decode gave.
---
 types.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/types.go b/types.go
index 68d7afb..051d1e6 100644
--- a/types.go
+++ b/types.go
@@ -217,7 +217,7 @@ func (d DateTime) encode(w writer) {
 }
 
 func (d DateTime) valid() error {
-	if d.IsZero() || !validYear(d.Time) || !validYear(d.UTC()) {
+	if d.IsZero() || !validDateTime(d.Time) {
 		return ErrInvalidTime
 	}
 
@@ -558,16 +558,7 @@ func (p *Period) decode(params map[string]string, data string) error {
 }
 
 func (p Period) aencode(w writer) {
-	p.Start.Time = encodableTime(p.Start.Time)
-
-	if !p.End.IsZero() {
-		p.End.Time = encodableTime(p.End.Time)
-
-		if p.Start.Location() == time.UTC || p.End.Location() == time.UTC {
-			p.Start.Time = p.Start.UTC()
-			p.End.Time = p.End.UTC()
-		}
-	}
+	p = p.encodable()
 
 	writeTimezone(w, p.Start.Time)
 	w.WriteString(":")
@@ -585,6 +576,23 @@ func (p Period) encode(w writer) {
 	}
 }
 
+// encodable returns the period with both of its times in the same location, from
+// which they can be decoded.
+func (p Period) encodable() Period {
+	p.Start.Time = encodableTime(p.Start.Time)
+
+	if !p.End.IsZero() {
+		p.End.Time = encodableTime(p.End.Time)
+
+		if p.Start.Location() == time.UTC || p.End.Location() == time.UTC {
+			p.Start.Time = p.Start.UTC()
+			p.End.Time = p.End.UTC()
+		}
+	}
+
+	return p
+}
+
 func (p Period) valid() error {
 	if p.Start.valid() != nil {
 		return ErrInvalidPeriodStart
@@ -594,6 +602,8 @@ func (p Period) valid() error {
 		}
 	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() || (p.Start.Location() == time.Local) != (p.End.Location() == time.Local) {
 		return ErrInvalidPeriodEnd
+	} else if e := p.encodable(); !validYear(e.Start.Time) || !validYear(e.End.Time) {
+		return ErrInvalidPeriod
 	}
 
 	return nil
@@ -1217,7 +1227,7 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecur
 	}
 
-	if !validYear(r.Until) || !validYear(r.Until.UTC()) {
+	if r.UntilTime && !validDateTime(r.Until) || !r.UntilTime && !validYear(r.Until) {
 		return ErrInvalidRecur
 	}
 
@@ -1683,6 +1693,12 @@ func validYear(t time.Time) bool {
 	return year >= 0 && year <= 9999
 }
 
+// validDateTime determines whether the year of the time, in the location that it
+// is encoded with, can be encoded in four digits.
+func validDateTime(t time.Time) bool {
+	return validYear(t) && validYear(t.UTC()) || validYear(encodableTime(t))
+}
+
 func writeTimezone(w writer, t time.Time) {
 	switch l := t.Location(); l {
 	case time.UTC, time.Local:
-- 
2.43.0


From 16ca7a86cad2f37167143ab333010d6e173b8506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:56 +0000
Subject: [PATCH 41/42] fix: refuse 0001-01-01 as the UNTIL of a rule and the
 end of a period

It is the zero time, which means that there is none, so that they were
decoded as if they were absent.
---
 types.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 051d1e6..acff866 100644
--- a/types.go
+++ b/types.go
@@ -552,6 +552,8 @@ func (p *Period) decode(params map[string]string, data string) error {
 		return nil
 	} else if err = p.End.decode(params, data[i+1:]); err != nil {
 		return fmt.Errorf("error while decoding Period End: %w", err)
+	} else if p.End.IsZero() {
+		return ErrInvalidPeriodEnd
 	}
 
 	return p.valid()
@@ -600,7 +602,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() || (p.Start.Location() == time.Local) != (p.End.Location() == time.Local) {
+	} else if p.End.valid() != nil || p.End.Truncate(time.Second).IsZero() || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() || (p.Start.Location() == time.Local) != (p.End.Location() == time.Local) {
 		return ErrInvalidPeriodEnd
 	} else if e := p.encodable(); !validYear(e.Start.Time) || !validYear(e.End.Time) {
 		return ErrInvalidPeriod
@@ -738,6 +740,10 @@ func (r *Recur) decode(params map[string]string, data string) error {
 				r.Until = d.Time
 				r.UntilTime = false
 			}
+
+			if r.Until.IsZero() {
+				return ErrInvalidRecur
+			}
 		case "COUNT":
 			if seen["UNTIL"] {
 				return ErrInvalidRecur
@@ -1231,6 +1237,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecur
 	}
 
+	if !r.Until.IsZero() && (r.UntilTime && r.Until.Truncate(time.Second).IsZero() || !r.UntilTime && r.Until.Year() == 1 && r.Until.YearDay() == 1) {
+		return ErrInvalidRecur
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
-- 
2.43.0


From 90714d30e1a45706d50ed06087b80d40699e3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:12 +0000
Subject: [PATCH 42/42] fix: refuse to encode periods that end in the second in
 which they start

Without fractions of a second they do not end after their start, and so
could not be decoded.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index acff866..2f84cb2 100644
--- a/types.go
+++ b/types.go
@@ -602,7 +602,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if p.End.valid() != nil || p.End.Truncate(time.Second).IsZero() || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() || (p.Start.Location() == time.Local) != (p.End.Location() == time.Local) {
+	} else if p.End.valid() != nil || p.End.Truncate(time.Second).IsZero() || !p.End.Truncate(time.Second).After(p.Start.Truncate(time.Second)) || p.Start.Location().String() != p.End.Location().String() || (p.Start.Location() == time.Local) != (p.End.Location() == time.Local) {
 		return ErrInvalidPeriodEnd
 	} else if e := p.encodable(); !validYear(e.Start.Time) || !validYear(e.End.Time) {
 		return ErrInvalidPeriod
-- 
2.43.0

