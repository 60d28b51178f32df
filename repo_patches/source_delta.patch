From 3e04c37cc2b3921c9f1a191a390674d1c257e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 01/93] fix: keep escaped separators at the end of groups and
 segments

---
 element/data_element.go | 9 ++++++---
 segment/segment.go      | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index d742ea0..bfe6bc4 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -151,9 +151,12 @@ func (g *elementGroup) MarshalHBCI() ([]byte, error) {
 			elementBytes[i] = marshaled
 		}
 	}
-	marshaled := bytes.Join(elementBytes, []byte(":"))
-	marshaled = bytes.TrimRight(marshaled, ":")
-	return marshaled, nil
+	// Only empty trailing elements are dropped. Cutting separators off the
+	// joined bytes would also cut off an escaped separator that is data.
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
+	return bytes.Join(elementBytes, []byte(":")), nil
 }
 
 func (g *elementGroup) UnmarshalHBCI(value []byte) error {
diff --git a/segment/segment.go b/segment/segment.go
index b814b55..806779c 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -110,8 +110,12 @@ func (s *segment) MarshalHBCI() ([]byte, error) {
 			elementBytes[i+1] = marshaled
 		}
 	}
+	// Only empty trailing elements are dropped. Cutting separators off the
+	// joined bytes would also cut off an escaped separator that is data.
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
 	marshaled := bytes.Join(elementBytes, []byte("+"))
-	marshaled = bytes.TrimRight(marshaled, "+")
 	marshaled = append(marshaled, '\'')
 	return marshaled, nil
 }
-- 
2.43.0


From 59e14ef90c71dfeb1887af46c9faa96a71165b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 02/93] fix: extract group elements that contain escaped or
 binary delimiters

---
 element/element_extractor.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 6b84032..8c61f2b 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -1,7 +1,6 @@
 package element
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/token"
@@ -15,12 +14,6 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
-	// TODO: workaround to get the lexer work properly for us. Maybe we should adopt the lexer?
-	if bytes.LastIndexFunc(dataElementGroup, func(r rune) bool {
-		return r == '+' || r == '\''
-	}) == -1 {
-		dataElementGroup = append(dataElementGroup, '+')
-	}
 	return &groupExtractor{
 		rawDataElementGroup: dataElementGroup,
 	}
@@ -35,19 +28,31 @@ type groupExtractor struct {
 // Extract extracts DataElements from the underlying DataElementGroup
 func (e *groupExtractor) Extract() ([][]byte, error) {
 	var current []byte
-	lexer := token.NewLexer("ElementExtractor", e.rawDataElementGroup)
+	// The lexer needs every element to be delimited, the group itself does not
+	// have to bring a delimiter. It is added to a copy, as the group usually is
+	// a part of a bigger buffer.
+	input := make([]byte, 0, len(e.rawDataElementGroup)+1)
+	input = append(input, e.rawDataElementGroup...)
+	input = append(input, '\'')
+	delimited := false
+	lexer := token.NewLexer("ElementExtractor", input)
 	for lexer.HasNext() {
 		t := lexer.Next()
 		currentType := t.Type()
 		if currentType == token.ERROR {
 			return nil, fmt.Errorf("%T: SyntaxError at position %d: %q\n(%q)", e, t.Pos(), t.Value(), e.rawDataElementGroup)
 		}
+		if delimited && t.Pos() >= len(e.rawDataElementGroup) {
+			// the group brought its own delimiter
+			break
+		}
 		if currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR || currentType == token.GROUP_DATA_ELEMENT_SEPARATOR {
 			e.elements = append(e.elements, current)
 			current = []byte{}
 		} else {
 			current = append(current, t.Value()...)
 		}
+		delimited = currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR
 	}
 	result := make([][]byte, len(e.elements))
 	copy(result, e.elements)
-- 
2.43.0


From 636e89d4ff75671c10ac8a7658eb45ba042d521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 03/93] fix: do not take a NUL byte for the end of the input

---
 token/lexer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index dc63286..5f5ef1f 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -147,6 +147,11 @@ func (l *Lexer) errorf(format string, args ...interface{}) LexerStateFn {
 // state functions
 
 func lexStart(l *Lexer) LexerStateFn {
+	if l.pos >= len(l.input) {
+		// Correctly reached EOF.
+		l.emit(EOF)
+		return nil
+	}
 	switch r := l.next(); {
 	case r == dataElementDelimiter:
 		l.emit(DATA_ELEMENT_SEPARATOR)
@@ -160,10 +165,6 @@ func lexStart(l *Lexer) LexerStateFn {
 	case r == binaryIdentifier:
 		l.backup()
 		return lexBinaryData
-	case r == eof:
-		// Correctly reached EOF.
-		l.emit(EOF)
-		return nil
 	case r == '0':
 		l.backup()
 		return lexDigit
-- 
2.43.0


From f45ff465fbb22b9785d94a8d9b131a9f0a233ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 04/93] fix: reject binary data that claims more bytes than
 there are

---
 token/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/lexer.go b/token/lexer.go
index 5f5ef1f..899c1e9 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -220,6 +220,9 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 	if !l.accept('@') {
 		return l.errorf("Binary length must contain of digits only")
 	}
+	if length >= len(l.input)-l.pos {
+		return l.errorf("Unexpected end of input")
+	}
 	l.pos += length
 	p := l.peek()
 	if isDelimiter(p) {
-- 
2.43.0


From eb9e49795c7423a3be121d52d4eda902d98ecf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 05/93] fix: accept text that starts with a zero-padded number
 and a comma

---
 token/lexer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index 899c1e9..46a4b5e 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -253,8 +253,13 @@ func lexDigit(l *Lexer) LexerStateFn {
 		return lexAlphaNumeric
 	}
 	l.acceptRun(digits)
-	if p := l.peek(); p == ',' {
-		return l.errorf("Malformed float")
+	if l.accept(',') {
+		l.acceptRun(digits)
+		if p := l.peek(); isDelimiter(p) {
+			return l.errorf("Malformed float")
+		}
+		// Text may well start with digits and a comma
+		return lexAlphaNumeric
 	}
 	if p := l.peek(); isDelimiter(p) {
 		l.emit(DIGIT)
-- 
2.43.0


From c8d695f2833e314c6d615b06628e2868be4f3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 06/93] fix: unescape the text of decoded data element groups

---
 element/acknowledgement.go          |  8 ++++----
 element/bank_parameter_data.go      |  2 +-
 element/group_data_element_group.go |  8 ++++----
 element/message.go                  |  2 +-
 element/tan.go                      | 29 +++++++++++++++--------------
 5 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 107c771..6268a1e 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -109,12 +109,12 @@ func (a *AcknowledgementDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed code", a)
 	}
 	acknowledgement.Code = code
-	acknowledgement.ReferenceDataElement = charset.ToUTF8(chunks[1])
-	acknowledgement.Text = charset.ToUTF8(chunks[2])
+	acknowledgement.ReferenceDataElement = unescape(charset.ToUTF8(chunks[1]))
+	acknowledgement.Text = unescape(charset.ToUTF8(chunks[2]))
 	if len(chunks) > 3 {
 		params := make([]string, len(chunks[3:]))
 		for i, chunk := range chunks[3:] {
-			params[i] = charset.ToUTF8(chunk)
+			params[i] = unescape(charset.ToUTF8(chunk))
 		}
 		acknowledgement.Params = params
 	}
@@ -156,7 +156,7 @@ func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	dataElements := make([]DataElement, len(elements))
 	for i, elem := range elements {
-		dataElements[i] = NewAlphaNumeric(charset.ToUTF8(elem), 35)
+		dataElements[i] = NewAlphaNumeric(unescape(charset.ToUTF8(elem)), 35)
 	}
 	p.arrayElementGroup = newArrayElementGroup(acknowlegdementParamsGDEG, 10, 10, dataElements)
 	return nil
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 396292c..6729a7f 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -283,7 +283,7 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	p.SegmentID = NewAlphaNumeric(charset.ToUTF8(elements[0]), 6)
+	p.SegmentID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[0])), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
 	if err != nil {
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 951a4dd..74bae62 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -115,7 +115,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	b.CountryCode = countryCode
-	b.BankID = NewAlphaNumeric(charset.ToUTF8(elements[1]), 30)
+	b.BankID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[1])), 30)
 	return nil
 }
 
@@ -164,10 +164,10 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed CountryCode: %q", a, elements[2])
 	}
 	accountConnection := domain.AccountConnection{
-		AccountID:                 charset.ToUTF8(elements[0]),
-		SubAccountCharacteristics: charset.ToUTF8(elements[1]),
+		AccountID:                 unescape(charset.ToUTF8(elements[0])),
+		SubAccountCharacteristics: unescape(charset.ToUTF8(elements[1])),
 		CountryCode:               countryCode,
-		BankID:                    charset.ToUTF8(elements[3]),
+		BankID:                    unescape(charset.ToUTF8(elements[3])),
 	}
 	*a = *NewAccountConnection(accountConnection)
 	return nil
diff --git a/element/message.go b/element/message.go
index 7cce54a..3f92ae3 100644
--- a/element/message.go
+++ b/element/message.go
@@ -50,7 +50,7 @@ func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	dialogID := charset.ToUTF8(elements[0])
+	dialogID := unescape(charset.ToUTF8(elements[0]))
 	num, err := strconv.Atoi(charset.ToUTF8(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Malformed message number: %v", r, err)
diff --git a/element/tan.go b/element/tan.go
index 9209400..898821e 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -93,7 +93,7 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	t.MoreThanOneObligatoryTanJobAllowed = moreThanOneObligatoryTanJobAllowed
-	t.JobHashMethod = NewCode(charset.ToUTF8(elements[2]), 1, []string{"0", "1", "2"})
+	t.JobHashMethod = NewCode(unescape(charset.ToUTF8(elements[2])), 1, []string{"0", "1", "2"})
 	processParams := &Tan2StepSubmissionProcessParametersV6{}
 	err = processParams.UnmarshalHBCI(bytes.Join(elements[3:], []byte(":")))
 	if err != nil {
@@ -220,19 +220,20 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return err
 	}
 	iter := internal.NewIterator(elements)
-	t.SecurityFunction = NewCode(iter.NextString(), 3, nil)
-	t.TanProcess = NewCode(iter.NextString(), 1, []string{"1", "2"})
-	t.TechnicalIDTanProcess = NewIdentification(iter.NextString())
-	t.ZKATanProcess = NewAlphaNumeric(iter.NextString(), 32)
-	t.ZKATanProcessVersion = NewAlphaNumeric(iter.NextString(), 10)
-	t.TwoStepProcessName = NewAlphaNumeric(iter.NextString(), 30)
+	nextString := func() string { return unescape(charset.ToUTF8(iter.Next())) }
+	t.SecurityFunction = NewCode(nextString(), 3, nil)
+	t.TanProcess = NewCode(nextString(), 1, []string{"1", "2"})
+	t.TechnicalIDTanProcess = NewIdentification(nextString())
+	t.ZKATanProcess = NewAlphaNumeric(nextString(), 32)
+	t.ZKATanProcessVersion = NewAlphaNumeric(nextString(), 10)
+	t.TwoStepProcessName = NewAlphaNumeric(nextString(), 30)
 	var twoStepProcessMaxInputValue NumberDataElement
 	if err := twoStepProcessMaxInputValue.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessMaxInputValue: %v", err)
 	}
 	t.TwoStepProcessMaxInputValue = &twoStepProcessMaxInputValue
-	t.TwoStepProcessAllowedFormat = NewCode(iter.NextString(), 1, nil)
-	t.TwoStepProcessReturnValueText = NewAlphaNumeric(iter.NextString(), 30)
+	t.TwoStepProcessAllowedFormat = NewCode(nextString(), 1, nil)
+	t.TwoStepProcessReturnValueText = NewAlphaNumeric(nextString(), 30)
 	var TwoStepProcessReturnValueTextMaxLength NumberDataElement
 	if err := TwoStepProcessReturnValueTextMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessReturnValueTextMaxLength: %v", err)
@@ -243,14 +244,14 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling MultiTANAllowed: %v", err)
 	}
 	t.MultiTANAllowed = &MultiTANAllowed
-	t.TanTimeAndDialogReference = NewCode(iter.NextString(), 1, nil)
+	t.TanTimeAndDialogReference = NewCode(nextString(), 1, nil)
 	var JobCancellationAllowed BooleanDataElement
 	if err := JobCancellationAllowed.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling JobCancellationAllowed: %v", err)
 	}
 	t.JobCancellationAllowed = &JobCancellationAllowed
-	t.SMSAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
-	t.IssuerAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "2"})
+	t.SMSAccountRequired = NewCode(nextString(), 1, []string{"0", "1", "2"})
+	t.IssuerAccountRequired = NewCode(nextString(), 1, []string{"0", "2"})
 	var ChallengeClassRequired BooleanDataElement
 	if err := ChallengeClassRequired.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling ChallengeClassRequired: %v", err)
@@ -261,8 +262,8 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling ChallengeStructured: %v", err)
 	}
 	t.ChallengeStructured = &ChallengeStructured
-	t.InitializationMode = NewCode(iter.NextString(), -1, []string{"00", "01", "02"})
-	t.TanMediumDescriptionRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
+	t.InitializationMode = NewCode(nextString(), -1, []string{"00", "01", "02"})
+	t.TanMediumDescriptionRequired = NewCode(nextString(), 1, []string{"0", "1", "2"})
 	var HHD_UCResponseRequired BooleanDataElement
 	if err := HHD_UCResponseRequired.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling HHD_UCResponseRequired: %v", err)
-- 
2.43.0


From a34dc27d019ee0c8362bcb5efd7ef6ac125f117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 07/93] fix: make a decoded bank identification usable as data
 element

---
 element/group_data_element_group.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 74bae62..2364225 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -116,6 +116,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	b.CountryCode = countryCode
 	b.BankID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[1])), 30)
+	b.DataElement = NewGroupDataElementGroup(bankIdentificationGDEG, 2, b)
 	return nil
 }
 
-- 
2.43.0


From b20dfddbd25a31006f2eeb963ec81fa40a360b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 08/93] fix: check the size of decoded binary data

---
 element/data_element.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index bfe6bc4..af12df7 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -471,11 +471,11 @@ func (b *BinaryDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return fmt.Errorf("Error while parsing binary size: %T:%v", err, err)
 	}
-	binData := make([]byte, binSize)
-	_, err = buf.Read(binData)
-	if err != nil {
-		return fmt.Errorf("Error while reading binary data: %T:%v", err, err)
+	if binSize < 0 || binSize > buf.Len() {
+		return fmt.Errorf("Error while reading binary data: malformed size %d for %d bytes of data", binSize, buf.Len())
 	}
+	binData := make([]byte, binSize)
+	copy(binData, buf.Next(binSize))
 	*b = BinaryDataElement{&basicDataElement{binData, binaryDE, binSize, false}}
 	return nil
 }
-- 
2.43.0


From 14ce137c9846492891803bb1410051a24eec1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 09/93] fix: report malformed country codes

---
 element/data_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/data_element.go b/element/data_element.go
index af12df7..8b4b835 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -705,7 +705,7 @@ func (c *CountryCodeDataElement) UnmarshalHBCI(value []byte) error {
 	var d DigitDataElement
 	err := d.UnmarshalHBCI(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	*c = CountryCodeDataElement{&d}
 	return nil
-- 
2.43.0


From 9d799547967e1ee62ace49f3cb51c28347c1152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 10/93] fix: report malformed acknowledgement parameters

---
 element/acknowledgement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 6268a1e..8c54914 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -149,7 +149,7 @@ func (p *ParamsDataElement) Val() []string {
 func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	if len(elements) > 10 {
 		return fmt.Errorf("malformed params")
-- 
2.43.0


From f81615893fad8498cf47e28a9959f8ca6cb1d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 11/93] fix: report malformed message references

---
 element/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/element/message.go b/element/message.go
index 3f92ae3..4ed70af 100644
--- a/element/message.go
+++ b/element/message.go
@@ -47,6 +47,9 @@ func (r *ReferencingMessageDataElement) IsValid() bool {
 // UnmarshalHBCI unmarshals value into r
 func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-- 
2.43.0


From a09c8f669707a436f3bc0cafaf6b6c647bb42b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 12/93] fix: keep the decoded security profile and encryption
 algorithm

---
 element/encryption.go       | 5 ++---
 element/signature_fints3.go | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/element/encryption.go b/element/encryption.go
index 9b74f98..75df9b0 100644
--- a/element/encryption.go
+++ b/element/encryption.go
@@ -64,15 +64,14 @@ func (e *EncryptionAlgorithmDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (e *EncryptionAlgorithmDataElement) UnmarshalHBCI(value []byte) error {
-	e = &EncryptionAlgorithmDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
 	}
-	if len(elements) < 7 {
+	if len(elements) < 6 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 5, e)
+	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 7, e)
 	e.Usage = &AlphaNumericDataElement{}
 	err = e.Usage.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/element/signature_fints3.go b/element/signature_fints3.go
index 6684328..d925a60 100644
--- a/element/signature_fints3.go
+++ b/element/signature_fints3.go
@@ -22,7 +22,6 @@ type SecurityProfileDataElement struct {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
-	s = &SecurityProfileDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
@@ -30,7 +29,7 @@ func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) < 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	s.DataElement = NewDataElementGroup(securityProfileDEG, 5, s)
+	s.DataElement = NewDataElementGroup(securityProfileDEG, 2, s)
 	s.SecurityMethod = &AlphaNumericDataElement{}
 	err = s.SecurityMethod.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From e39a5a2ce1d2e2249e2096d50644eb72c7f0d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 13/93] fix: decode custom signatures, with and without a TAN

---
 element/pin.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/element/pin.go b/element/pin.go
index bd837e4..e63eb78 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -30,6 +30,16 @@ type CustomSignatureDataElement struct {
 	*PinTanDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CustomSignatureDataElement) UnmarshalHBCI(value []byte) error {
+	p := &PinTanDataElement{}
+	if err := p.UnmarshalHBCI(value); err != nil {
+		return err
+	}
+	c.PinTanDataElement = p
+	return nil
+}
+
 // NewPinTan returns a new PinTanDataElement for pin and tan
 func NewPinTan(pin, tan string) *PinTanDataElement {
 	p := &PinTanDataElement{
@@ -64,10 +74,10 @@ func (p *PinTanDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) < 2 {
+	if len(elements) < 1 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	p.DataElement = NewDataElementGroup(securityIdentificationDEG, 3, p)
+	p.DataElement = NewDataElementGroup(pinTanDEG, 2, p)
 	if len(elements) > 0 && len(elements[0]) > 0 {
 		p.PIN = &AlphaNumericDataElement{}
 		err = p.PIN.UnmarshalHBCI(elements[0])
@@ -144,6 +154,6 @@ func (t *PinTanSpecificParamDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("error unmarshaling JobSpecificPinTanInformation: %v", err)
 	}
 	t.JobSpecificPinTanInformation = &JobSpecificPinTanInformation
-	t.DataElement = NewGroupDataElementGroup(pinTanSpecificParamDataElementDEG, 2, t)
+	t.DataElement = NewGroupDataElementGroup(pinTanSpecificParamDataElementDEG, 6, t)
 	return nil
 }
-- 
2.43.0


From 201f25a819387b8ad6640dea28f7739acfffa462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 14/93] fix: reject PIN/TAN parameters with missing elements

---
 element/bank_parameter_data.go | 3 +++
 element/tan.go                 | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 6729a7f..917f03a 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -283,6 +283,9 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	p.SegmentID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[0])), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
diff --git a/element/tan.go b/element/tan.go
index 898821e..714be07 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -81,6 +81,9 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 4 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	oneStepProcessAllowed := &BooleanDataElement{}
 	err = oneStepProcessAllowed.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From eea71eb0869a77b732918961dc1f804d0950e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 15/93] fix: report segments without a segment header

---
 segment/element_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segment/element_extractor.go b/segment/element_extractor.go
index 2073e1d..8b0979c 100644
--- a/segment/element_extractor.go
+++ b/segment/element_extractor.go
@@ -36,6 +36,9 @@ func (e *elementExtractor) Extract() ([][]byte, error) {
 			current = append(current, t.Value()...)
 		}
 	}
+	if len(e.elements) == 0 {
+		return nil, fmt.Errorf("%T: no elements found in %q", e, e.rawSegment)
+	}
 	result := make([][]byte, len(e.elements))
 	copy(result, e.elements)
 	return result, nil
-- 
2.43.0


From 3844b467cc38a25e1030a5186539ff8c0ff967f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 16/93] fix: decode the amount and days of allowed business
 transactions

---
 element/user_parameter_data.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index d8a89ba..0428c43 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -157,16 +157,21 @@ func (a *AllowedBusinessTransactionDataElement) UnmarshalHBCI(value []byte) erro
 			return err
 		}
 	}
+	// the amount consists of two elements, its value and its currency
 	if len(elements) > 3 && len(elements[3]) > 0 {
+		amount := elements[3:]
+		if len(amount) > 2 {
+			amount = amount[:2]
+		}
 		a.Amount = &AmountDataElement{}
-		err = a.Amount.UnmarshalHBCI(elements[3])
+		err = a.Amount.UnmarshalHBCI(bytes.Join(amount, []byte(":")))
 		if err != nil {
 			return err
 		}
 	}
-	if len(elements) > 4 && len(elements[4]) > 0 {
+	if len(elements) > 5 && len(elements[5]) > 0 {
 		a.Days = &NumberDataElement{}
-		err = a.Days.UnmarshalHBCI(elements[4])
+		err = a.Days.UnmarshalHBCI(elements[5])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e8d6597fe3552cde9a27d97b6073a50be71e6dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 17/93] fix: do not split allowed business transactions at
 escaped separators

---
 element/element_extractor.go   | 22 ++++++++++++++++++++++
 element/user_parameter_data.go |  5 ++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 8c61f2b..f593099 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -58,3 +58,25 @@ func (e *groupExtractor) Extract() ([][]byte, error) {
 	copy(result, e.elements)
 	return result, nil
 }
+
+// splitDataElements splits value into its DataElements. Groups are left as
+// they are.
+func splitDataElements(value []byte) ([][]byte, error) {
+	input := make([]byte, 0, len(value)+1)
+	input = append(input, value...)
+	input = append(input, '\'')
+	var elements [][]byte
+	start := 0
+	lexer := token.NewLexer("ElementSplitter", input)
+	for lexer.HasNext() {
+		t := lexer.Next()
+		switch t.Type() {
+		case token.ERROR:
+			return nil, fmt.Errorf("SyntaxError at position %d: %q\n(%q)", t.Pos(), t.Value(), value)
+		case token.SEGMENT_END_MARKER, token.DATA_ELEMENT_SEPARATOR:
+			elements = append(elements, input[start:t.Pos()])
+			start = t.Pos() + 1
+		}
+	}
+	return elements, nil
+}
diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index 0428c43..94360c0 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -72,7 +72,10 @@ type AllowedBusinessTransactionsDataElement struct {
 
 // UnmarshalHBCI unmarshals value into a
 func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) error {
-	elements := bytes.Split(value, []byte("+"))
+	elements, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
 	transactions := make([]DataElement, len(elements))
 	for i, elem := range elements {
 		tr := &AllowedBusinessTransactionDataElement{}
-- 
2.43.0


From 8d2e796c076fb37f0896d3085c6e87bb8b44bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 18/93] fix: decode account limits

---
 element/user_parameter_data.go | 50 +++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index 94360c0..b2a44c5 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -35,11 +35,53 @@ type AccountLimitDataElement struct {
 
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
-	return domain.AccountLimit{
-		Kind:   a.Kind.Val(),
-		Amount: a.Amount.Val(),
-		Days:   a.Days.Val(),
+	limit := domain.AccountLimit{
+		Kind: a.Kind.Val(),
 	}
+	if a.Amount != nil {
+		limit.Amount = a.Amount.Val()
+	}
+	if a.Days != nil {
+		limit.Days = a.Days.Val()
+	}
+	return limit
+}
+
+// UnmarshalHBCI unmarshals value into a
+func (a *AccountLimitDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 1 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	a.DataElement = NewDataElementGroup(accountLimitDEG, 3, a)
+	a.Kind = &AlphaNumericDataElement{}
+	err = a.Kind.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	// the amount consists of two elements, its value and its currency
+	if len(elements) > 1 && len(elements[1]) > 0 {
+		amount := elements[1:]
+		if len(amount) > 2 {
+			amount = amount[:2]
+		}
+		a.Amount = &AmountDataElement{}
+		err = a.Amount.UnmarshalHBCI(bytes.Join(amount, []byte(":")))
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		a.Days = &NumberDataElement{}
+		err = a.Days.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // GroupDataElements returns the grouped DataElements
-- 
2.43.0


From a3bb9eb08353d754b622cdadcd21f23509ec0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 19/93] fix: decode supported security methods

---
 element/bank_parameter_data.go | 43 ++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 917f03a..4af5d5e 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -43,9 +43,29 @@ func (s *SupportedSecurityMethodDataElement) GroupDataElements() []DataElement {
 }
 
 // UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement
+//
+// A SupportedSecurityMethodDataElement holds one method. If value lists more
+// than one the first is used.
 func (s *SupportedSecurityMethodDataElement) UnmarshalHBCI(value []byte) error {
+	methods, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
+	elements, err := ExtractElements(methods[0])
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	s.DataElement = NewDataElementGroup(supportedSecurityMethodDEG, 2, s)
-	return s.DataElement.UnmarshalHBCI(value)
+	s.MethodCode = &AlphaNumericDataElement{}
+	err = s.MethodCode.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	s.Versions = &SecurityMethodVersionsDataElement{}
+	return s.Versions.UnmarshalHBCI(bytes.Join(elements[1:], []byte(":")))
 }
 
 // NewSecurityMethodVersions returns a new SecurityMethodVersionsDataElement
@@ -72,9 +92,24 @@ func (s *SecurityMethodVersionsDataElement) Elements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SecurityMethodVersionsDataElement
 func (s *SecurityMethodVersionsDataElement) UnmarshalHBCI(value []byte) error {
-	dataElements := make([]DataElement, 9)
-	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, dataElements)
-	return s.arrayElementGroup.UnmarshalHBCI(value)
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) == 0 || len(elements) > 9 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	versions := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		version := &NumberDataElement{}
+		err := version.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		versions[i] = version
+	}
+	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, versions)
+	return nil
 }
 
 // Versions returns the possible versions packaged in a slice of
-- 
2.43.0


From 170b47647aa47cbe71ca41542940ef280ab5f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 20/93] fix: decode supported compression methods

---
 element/bank_parameter_data.go | 23 +++++++++++++++++++++++
 element/data_element_type.go   |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 4af5d5e..3fbbb94 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -221,6 +221,29 @@ type SupportedCompressionMethodsDataElement struct {
 	*arrayElementGroup
 }
 
+// UnmarshalHBCI unmarshals the value into the
+// SupportedCompressionMethodsDataElement
+func (s *SupportedCompressionMethodsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) == 0 || len(elements) > 9 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	methods := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		method := &AlphaNumericDataElement{}
+		err := method.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		methods[i] = method
+	}
+	s.arrayElementGroup = newArrayElementGroup(supportedCompressionMethodsDEG, 1, 9, methods)
+	return nil
+}
+
 // A BusinessTransactionParameter defines parameters for a specific business
 // transaction.
 type BusinessTransactionParameter struct {
diff --git a/element/data_element_type.go b/element/data_element_type.go
index 4fb9f88..7a683b7 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -65,6 +65,7 @@ const (
 	tan2StepSubmissionParameterDEG
 	tan2StepSubmissionProcessParameterDEG
 	pinTanSpecificParamDataElementDEG
+	supportedCompressionMethodsDEG
 )
 
 var typeName = map[DataElementType]string{
@@ -118,6 +119,7 @@ var typeName = map[DataElementType]string{
 	tan2StepSubmissionParameterDEG:        "Parameter Zwei-Schritt-TAN-Einreichung",
 	tan2StepSubmissionProcessParameterDEG: "Verfahrensparameter Zwei-Schritt-Verfahren",
 	pinTanSpecificParamDataElementDEG:     "Parameter PIN/TAN-spezifische Informationen",
+	supportedCompressionMethodsDEG:        "Unterstützte Komprimierungsverfahren",
 }
 
 func (d DataElementType) String() string {
-- 
2.43.0


From 06864ba672b11b45ff9e025a8c3a5c87258c5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 21/93] fix: decode communication parameters

---
 element/communication_access.go | 57 ++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/element/communication_access.go b/element/communication_access.go
index f7c755a..54a0a8b 100644
--- a/element/communication_access.go
+++ b/element/communication_access.go
@@ -1,6 +1,10 @@
 package element
 
-import "github.com/mitch000001/go-hbci/domain"
+import (
+	"fmt"
+
+	"github.com/mitch000001/go-hbci/domain"
+)
 
 // NewCommunicationParameter returns a new CommunicationParameterDataElement
 func NewCommunicationParameter(params domain.CommunicationParameter) *CommunicationParameterDataElement {
@@ -45,6 +49,57 @@ type CommunicationParameterDataElement struct {
 	FilterFunctionVersion *NumberDataElement
 }
 
+// UnmarshalHBCI unmarshals value into c
+//
+// A CommunicationParameterDataElement holds one access. If value lists more
+// than one the first is used.
+func (c *CommunicationParameterDataElement) UnmarshalHBCI(value []byte) error {
+	accesses, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
+	elements, err := ExtractElements(accesses[0])
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(communicationParameterDEG, 5, c)
+	c.Protocol = &NumberDataElement{}
+	err = c.Protocol.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	c.Address = &AlphaNumericDataElement{}
+	err = c.Address.UnmarshalHBCI(elements[1])
+	if err != nil {
+		return err
+	}
+	if len(elements) > 2 && len(elements[2]) > 0 {
+		c.AddressAddition = &AlphaNumericDataElement{}
+		err = c.AddressAddition.UnmarshalHBCI(elements[2])
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		c.FilterFunction = &AlphaNumericDataElement{}
+		err = c.FilterFunction.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		c.FilterFunctionVersion = &NumberDataElement{}
+		err = c.FilterFunctionVersion.UnmarshalHBCI(elements[4])
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // GroupDataElements returns the grouped DataElements
 func (c *CommunicationParameterDataElement) GroupDataElements() []DataElement {
 	return []DataElement{
-- 
2.43.0


From a43929f9abb24fe576b209d625188292a18f87fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 22/93] fix: decode disposal eligible persons

---
 element/account.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/element/account.go b/element/account.go
index ef118f5..32669e8 100644
--- a/element/account.go
+++ b/element/account.go
@@ -5,6 +5,26 @@ type DisposalEligiblePersonsDataElement struct {
 	DataElement
 }
 
+// UnmarshalHBCI unmarshals value into d. Its elements are the names of the
+// persons.
+func (d *DisposalEligiblePersonsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	names := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		name := &AlphaNumericDataElement{}
+		err := name.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		names[i] = name
+	}
+	d.DataElement = newArrayElementGroup(disposalEligiblePersonDEG, 0, 99, names)
+	return nil
+}
+
 // DisposalEligiblePersonDataElement represents a DataElement
 type DisposalEligiblePersonDataElement struct {
 	DataElement
-- 
2.43.0


From c972ec81e3e6a9a5e9c02491db24420e91bde168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 23/93] fix: decode certificates

---
 element/signature.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/element/signature.go b/element/signature.go
index b134dda..ec11e16 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -422,6 +422,25 @@ type CertificateDataElement struct {
 	Content         *BinaryDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CertificateDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(certificateDEG, 2, c)
+	c.CertificateType = &NumberDataElement{}
+	err = c.CertificateType.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	c.Content = &BinaryDataElement{}
+	return c.Content.UnmarshalHBCI(elements[1])
+}
+
 // GroupDataElements returns the grouped DataElements
 func (c *CertificateDataElement) GroupDataElements() []DataElement {
 	return []DataElement{
-- 
2.43.0


From d6b79ae7f07e97560cafd0222c3e789874c19740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 24/93] fix: set the reference of a segment header that had
 none

---
 element/segment_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/segment_header.go b/element/segment_header.go
index 565ca58..3c2449b 100644
--- a/element/segment_header.go
+++ b/element/segment_header.go
@@ -42,7 +42,7 @@ func (s *SegmentHeader) SetPosition(pos int) {
 
 // SetReference sets the reference to another segment
 func (s *SegmentHeader) SetReference(ref int) {
-	*s.Ref = *NewNumber(ref, 3)
+	s.Ref = NewNumber(ref, 3)
 }
 
 // ReferencingSegment returns the reference number of the referenced segment
-- 
2.43.0


From a67edc5aa1499d11040481654fbfe303b2264828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 25/93] fix: check codes for being in the valid set

---
 element/bank_parameter_data.go | 2 +-
 element/data_element.go        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 3fbbb94..1959edb 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -206,7 +206,7 @@ func (s *SupportedLanguagesDataElement) UnmarshalHBCI(value []byte) error {
 		if err != nil {
 			return err
 		}
-		if sort.SearchInts(validLanguages, lang) >= len(validLanguages) {
+		if i := sort.SearchInts(validLanguages, lang); i >= len(validLanguages) || validLanguages[i] != lang {
 			return fmt.Errorf("Unsupported language code: %d", lang)
 		}
 		languages[i] = NewNumber(lang, 3)
diff --git a/element/data_element.go b/element/data_element.go
index 8b4b835..37fc651 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -543,7 +543,8 @@ func (c *CodeDataElement) Type() DataElementType {
 // IsValid returns true if the value is in the valid set and the underlying
 // AlphaNumericDataElement is valid, false otherwise.
 func (c *CodeDataElement) IsValid() bool {
-	if sort.SearchStrings(c.validSet, c.Val()) >= len(c.validSet) {
+	i := sort.SearchStrings(c.validSet, c.Val())
+	if i >= len(c.validSet) || c.validSet[i] != c.Val() {
 		return false
 	}
 	return c.AlphaNumericDataElement.IsValid()
-- 
2.43.0


From f269a1f306542002fc5e440f61e6ab8d1ba5f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 26/93] fix: accept spaces and ampersands in alphanumeric
 elements

---
 element/data_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/data_element.go b/element/data_element.go
index 37fc651..344db81 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -248,7 +248,7 @@ func (a *AlphaNumericDataElement) Val() string { return a.val.(string) }
 
 // IsValid returns false if a contains '\n' and '\r', true otherwise
 func (a *AlphaNumericDataElement) IsValid() bool {
-	if strings.ContainsAny(a.Val(), "\n & \r") {
+	if strings.ContainsAny(a.Val(), "\n\r") {
 		return false
 	}
 	return a.basicDataElement.IsValid()
-- 
2.43.0


From 7be4b443ada81125ca97ba66d5483c6b25c80c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 27/93] fix: decode all allowed business transactions of an
 account

---
 segment/basic_account_information.go          | 23 +++++++++++++++++++
 .../basic_account_information_unmarshaler.go  |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/segment/basic_account_information.go b/segment/basic_account_information.go
index c01b7c0..c7f7af1 100644
--- a/segment/basic_account_information.go
+++ b/segment/basic_account_information.go
@@ -1,6 +1,8 @@
 package segment
 
 import (
+	"bytes"
+
 	"github.com/mitch000001/go-hbci/domain"
 	"github.com/mitch000001/go-hbci/element"
 )
@@ -261,3 +263,24 @@ func (a *AccountInformationV7) elements() []element.DataElement {
 		a.AccountExtensions,
 	}
 }
+
+// joinAllowedBusinessTransactions joins the allowed business transactions that
+// start at idx into one element. Every transaction is a data element of its
+// own, followed by the account extensions. Unlike these a transaction is a
+// group of at least two elements.
+func joinAllowedBusinessTransactions(elements [][]byte, idx int) [][]byte {
+	end := idx
+	for end < len(elements) {
+		groupElements, err := element.ExtractElements(elements[end])
+		if err != nil || len(groupElements) < 2 {
+			break
+		}
+		end++
+	}
+	if end-idx < 2 {
+		return elements
+	}
+	joined := append([][]byte{}, elements[:idx]...)
+	joined = append(joined, bytes.Join(elements[idx:end], []byte("+")))
+	return append(joined, elements[end:]...)
+}
diff --git a/segment/basic_account_information_unmarshaler.go b/segment/basic_account_information_unmarshaler.go
index a14818c..9d39f35 100644
--- a/segment/basic_account_information_unmarshaler.go
+++ b/segment/basic_account_information_unmarshaler.go
@@ -305,6 +305,7 @@ func (a *AccountInformationV6) UnmarshalHBCI(value []byte) error {
 			return fmt.Errorf("error unmarshaling AccountLimit: %w", err)
 		}
 	}
+	elements = joinAllowedBusinessTransactions(elements, 10)
 	if len(elements) > 10 && len(elements[10]) > 0 {
 		a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
 		err = a.AllowedBusinessTransactions.UnmarshalHBCI(elements[10])
@@ -402,6 +403,7 @@ func (a *AccountInformationV7) UnmarshalHBCI(value []byte) error {
 			return fmt.Errorf("error unmarshaling AccountLimit: %w", err)
 		}
 	}
+	elements = joinAllowedBusinessTransactions(elements, 10)
 	if len(elements) > 10 && len(elements[10]) > 0 {
 		a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
 		err = a.AllowedBusinessTransactions.UnmarshalHBCI(elements[10])
-- 
2.43.0


From 3332b55d540e0cf0810f17cb858feb681fce4ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 28/93] fix: add the booking time of a balance as time of day

---
 segment/account_balance.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index 7ed9ae3..ca743d7 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -249,9 +249,8 @@ func (a *AccountBalanceResponseSegmentV5) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = balance.BookingDate.Add(timeOfDay(t.Val()))
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -325,9 +324,8 @@ func (a *AccountBalanceResponseSegmentV6) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = balance.BookingDate.Add(timeOfDay(t.Val()))
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -401,9 +399,8 @@ func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = balance.BookingDate.Add(timeOfDay(t.Val()))
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -439,9 +436,8 @@ func (a *AccountBalanceResponseSegmentV7) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = balance.BookingDate.Add(timeOfDay(t.Val()))
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -513,9 +509,8 @@ func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = balance.BookingDate.Add(timeOfDay(t.Val()))
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -551,9 +546,8 @@ func (a *AccountBalanceResponseSegmentV8) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = balance.BookingDate.Add(timeOfDay(t.Val()))
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -581,3 +575,10 @@ func (a *AccountBalanceResponseSegmentV8) elements() []element.DataElement {
 		a.SeizableAfterMonth,
 	}
 }
+
+// timeOfDay returns the time elapsed since midnight
+func timeOfDay(t time.Time) time.Duration {
+	return time.Duration(t.Hour())*time.Hour +
+		time.Duration(t.Minute())*time.Minute +
+		time.Duration(t.Second())*time.Second
+}
-- 
2.43.0


From 9ec972eec20c4361a94809391a83ae17f0829561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 29/93] fix: report the transmission time of status
 acknowledgements

---
 segment/status_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index f3ac229..37c0de9 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -144,7 +144,7 @@ func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   s.Date.Val().Add(timeOfDay(s.Time.Val())),
 	}
 	return status
 }
@@ -184,7 +184,7 @@ func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   s.Date.Val().Add(timeOfDay(s.Time.Val())),
 	}
 	return status
 }
-- 
2.43.0


From 37ac0a5e531e9fcb3c22315e39f187ee75fdaa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 30/93] fix: do not panic on balances and bank data with
 missing elements

---
 segment/account_balance.go            | 102 ++++++++++++++++++--------
 segment/basic_account_information.go  |  39 +++++++---
 segment/common_bank_parameter_data.go |  34 ++++++---
 3 files changed, 123 insertions(+), 52 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index ca743d7..ed30d2b 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -223,11 +223,18 @@ func (a *AccountBalanceResponseSegmentV5) referencedId() string { return "HKSAL"
 func (a *AccountBalanceResponseSegmentV5) sender() string       { return senderBank }
 
 func (a *AccountBalanceResponseSegmentV5) AccountBalance() domain.AccountBalance {
-	balance := domain.AccountBalance{
-		Account:       a.AccountConnection.Val(),
-		ProductName:   a.AccountProductName.Val(),
-		Currency:      a.AccountCurrency.Val(),
-		BookedBalance: a.BookedBalance.Balance(),
+	balance := domain.AccountBalance{}
+	if a.AccountConnection != nil {
+		balance.Account = a.AccountConnection.Val()
+	}
+	if a.AccountProductName != nil {
+		balance.ProductName = a.AccountProductName.Val()
+	}
+	if a.AccountCurrency != nil {
+		balance.Currency = a.AccountCurrency.Val()
+	}
+	if a.BookedBalance != nil {
+		balance.BookedBalance = a.BookedBalance.Balance()
 	}
 	if earmarked := a.EarmarkedBalance; earmarked != nil {
 		val := earmarked.Balance()
@@ -298,11 +305,18 @@ func (a *AccountBalanceResponseSegmentV6) referencedId() string { return "HKSAL"
 func (a *AccountBalanceResponseSegmentV6) sender() string       { return senderBank }
 
 func (a *AccountBalanceResponseSegmentV6) AccountBalance() domain.AccountBalance {
-	balance := domain.AccountBalance{
-		Account:       a.AccountConnection.Val(),
-		ProductName:   a.AccountProductName.Val(),
-		Currency:      a.AccountCurrency.Val(),
-		BookedBalance: a.BookedBalance.Balance(),
+	balance := domain.AccountBalance{}
+	if a.AccountConnection != nil {
+		balance.Account = a.AccountConnection.Val()
+	}
+	if a.AccountProductName != nil {
+		balance.ProductName = a.AccountProductName.Val()
+	}
+	if a.AccountCurrency != nil {
+		balance.Currency = a.AccountCurrency.Val()
+	}
+	if a.BookedBalance != nil {
+		balance.BookedBalance = a.BookedBalance.Balance()
 	}
 	if earmarked := a.EarmarkedBalance; earmarked != nil {
 		val := earmarked.Balance()
@@ -373,11 +387,18 @@ func (a *AccountBalanceResponseSegmentV7) referencedId() string { return "HKSAL"
 func (a *AccountBalanceResponseSegmentV7) sender() string       { return senderBank }
 
 func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance {
-	balance := domain.AccountBalance{
-		Account:       a.AccountConnection.Val().ToAccountConnection(),
-		ProductName:   a.AccountProductName.Val(),
-		Currency:      a.AccountCurrency.Val(),
-		BookedBalance: a.BookedBalance.Balance(),
+	balance := domain.AccountBalance{}
+	if a.AccountConnection != nil {
+		balance.Account = a.AccountConnection.Val().ToAccountConnection()
+	}
+	if a.AccountProductName != nil {
+		balance.ProductName = a.AccountProductName.Val()
+	}
+	if a.AccountCurrency != nil {
+		balance.Currency = a.AccountCurrency.Val()
+	}
+	if a.BookedBalance != nil {
+		balance.BookedBalance = a.BookedBalance.Balance()
 	}
 	if earmarked := a.EarmarkedBalance; earmarked != nil {
 		val := earmarked.Balance()
@@ -410,11 +431,18 @@ func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance
 }
 
 func (a *AccountBalanceResponseSegmentV7) SepaAccountBalance() (domain.SepaAccountBalance, error) {
-	balance := domain.SepaAccountBalance{
-		Account:       a.AccountConnection.Val(),
-		ProductName:   a.AccountProductName.Val(),
-		Currency:      a.AccountCurrency.Val(),
-		BookedBalance: a.BookedBalance.Balance(),
+	balance := domain.SepaAccountBalance{}
+	if a.AccountConnection != nil {
+		balance.Account = a.AccountConnection.Val()
+	}
+	if a.AccountProductName != nil {
+		balance.ProductName = a.AccountProductName.Val()
+	}
+	if a.AccountCurrency != nil {
+		balance.Currency = a.AccountCurrency.Val()
+	}
+	if a.BookedBalance != nil {
+		balance.BookedBalance = a.BookedBalance.Balance()
 	}
 	if earmarked := a.EarmarkedBalance; earmarked != nil {
 		val := earmarked.Balance()
@@ -483,11 +511,18 @@ func (a *AccountBalanceResponseSegmentV8) referencedId() string { return "HKSAL"
 func (a *AccountBalanceResponseSegmentV8) sender() string       { return senderBank }
 
 func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance {
-	balance := domain.AccountBalance{
-		Account:       a.AccountConnection.Val().ToAccountConnection(),
-		ProductName:   a.AccountProductName.Val(),
-		Currency:      a.AccountCurrency.Val(),
-		BookedBalance: a.BookedBalance.Balance(),
+	balance := domain.AccountBalance{}
+	if a.AccountConnection != nil {
+		balance.Account = a.AccountConnection.Val().ToAccountConnection()
+	}
+	if a.AccountProductName != nil {
+		balance.ProductName = a.AccountProductName.Val()
+	}
+	if a.AccountCurrency != nil {
+		balance.Currency = a.AccountCurrency.Val()
+	}
+	if a.BookedBalance != nil {
+		balance.BookedBalance = a.BookedBalance.Balance()
 	}
 	if earmarked := a.EarmarkedBalance; earmarked != nil {
 		val := earmarked.Balance()
@@ -520,11 +555,18 @@ func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance
 }
 
 func (a *AccountBalanceResponseSegmentV8) SepaAccountBalance() (domain.SepaAccountBalance, error) {
-	balance := domain.SepaAccountBalance{
-		Account:       a.AccountConnection.Val(),
-		ProductName:   a.AccountProductName.Val(),
-		Currency:      a.AccountCurrency.Val(),
-		BookedBalance: a.BookedBalance.Balance(),
+	balance := domain.SepaAccountBalance{}
+	if a.AccountConnection != nil {
+		balance.Account = a.AccountConnection.Val()
+	}
+	if a.AccountProductName != nil {
+		balance.ProductName = a.AccountProductName.Val()
+	}
+	if a.AccountCurrency != nil {
+		balance.Currency = a.AccountCurrency.Val()
+	}
+	if a.BookedBalance != nil {
+		balance.BookedBalance = a.BookedBalance.Balance()
 	}
 	if earmarked := a.EarmarkedBalance; earmarked != nil {
 		val := earmarked.Balance()
diff --git a/segment/basic_account_information.go b/segment/basic_account_information.go
index c7f7af1..d83b5ad 100644
--- a/segment/basic_account_information.go
+++ b/segment/basic_account_information.go
@@ -46,9 +46,15 @@ func (a *AccountInformationV4) Account() domain.AccountInformation {
 	accountConnection := a.AccountConnection.Val()
 	info := domain.AccountInformation{
 		AccountConnection: accountConnection,
-		UserID:            a.UserID.Val(),
-		Currency:          a.AccountCurrency.Val(),
-		Name1:             a.Name1.Val(),
+	}
+	if a.UserID != nil {
+		info.UserID = a.UserID.Val()
+	}
+	if a.AccountCurrency != nil {
+		info.Currency = a.AccountCurrency.Val()
+	}
+	if a.Name1 != nil {
+		info.Name1 = a.Name1.Val()
 	}
 	if a.Name2 != nil {
 		info.Name2 = a.Name2.Val()
@@ -98,9 +104,12 @@ func (a *AccountInformationV5) referencedId() string { return ProcessingPreparat
 func (a *AccountInformationV5) sender() string       { return senderBank }
 
 func (a *AccountInformationV5) Account() domain.AccountInformation {
-	info := domain.AccountInformation{
-		UserID: a.UserID.Val(),
-		Name1:  a.Name1.Val(),
+	info := domain.AccountInformation{}
+	if a.UserID != nil {
+		info.UserID = a.UserID.Val()
+	}
+	if a.Name1 != nil {
+		info.Name1 = a.Name1.Val()
 	}
 	if a.AccountConnection != nil {
 		info.AccountConnection = a.AccountConnection.Val()
@@ -159,9 +168,12 @@ func (a *AccountInformationV6) referencedId() string { return ProcessingPreparat
 func (a *AccountInformationV6) sender() string       { return senderBank }
 
 func (a *AccountInformationV6) Account() domain.AccountInformation {
-	info := domain.AccountInformation{
-		UserID: a.UserID.Val(),
-		Name1:  a.Name1.Val(),
+	info := domain.AccountInformation{}
+	if a.UserID != nil {
+		info.UserID = a.UserID.Val()
+	}
+	if a.Name1 != nil {
+		info.Name1 = a.Name1.Val()
 	}
 	if a.AccountConnection != nil {
 		info.AccountConnection = a.AccountConnection.Val()
@@ -222,9 +234,12 @@ func (a *AccountInformationV7) referencedId() string { return ProcessingPreparat
 func (a *AccountInformationV7) sender() string       { return senderBank }
 
 func (a *AccountInformationV7) Account() domain.AccountInformation {
-	info := domain.AccountInformation{
-		UserID: a.UserID.Val(),
-		Name1:  a.Name1.Val(),
+	info := domain.AccountInformation{}
+	if a.UserID != nil {
+		info.UserID = a.UserID.Val()
+	}
+	if a.Name1 != nil {
+		info.Name1 = a.Name1.Val()
 	}
 	if a.AccountConnection != nil {
 		info.AccountConnection = a.AccountConnection.Val()
diff --git a/segment/common_bank_parameter_data.go b/segment/common_bank_parameter_data.go
index a633c29..21bc6b3 100644
--- a/segment/common_bank_parameter_data.go
+++ b/segment/common_bank_parameter_data.go
@@ -52,11 +52,18 @@ func (c *CommonBankParameterV2) elements() []element.DataElement {
 }
 
 func (c *CommonBankParameterV2) BankParameterData() domain.BankParameterData {
-	bpd := domain.BankParameterData{
-		Version:                   c.BPDVersion.Val(),
-		BankID:                    c.BankID.Val(),
-		BankName:                  c.BankName.Val(),
-		MaxTransactionsPerMessage: c.BusinessTransactionCount.Val(),
+	bpd := domain.BankParameterData{}
+	if c.BPDVersion != nil {
+		bpd.Version = c.BPDVersion.Val()
+	}
+	if c.BankID != nil {
+		bpd.BankID = c.BankID.Val()
+	}
+	if c.BankName != nil {
+		bpd.BankName = c.BankName.Val()
+	}
+	if c.BusinessTransactionCount != nil {
+		bpd.MaxTransactionsPerMessage = c.BusinessTransactionCount.Val()
 	}
 	if c.MaxMessageSize != nil {
 		bpd.MaxMessageSize = c.MaxMessageSize.Val()
@@ -97,11 +104,18 @@ func (c *CommonBankParameterV3) elements() []element.DataElement {
 }
 
 func (c *CommonBankParameterV3) BankParameterData() domain.BankParameterData {
-	bpd := domain.BankParameterData{
-		Version:                   c.BPDVersion.Val(),
-		BankID:                    c.BankID.Val(),
-		BankName:                  c.BankName.Val(),
-		MaxTransactionsPerMessage: c.BusinessTransactionCount.Val(),
+	bpd := domain.BankParameterData{}
+	if c.BPDVersion != nil {
+		bpd.Version = c.BPDVersion.Val()
+	}
+	if c.BankID != nil {
+		bpd.BankID = c.BankID.Val()
+	}
+	if c.BankName != nil {
+		bpd.BankName = c.BankName.Val()
+	}
+	if c.BusinessTransactionCount != nil {
+		bpd.MaxTransactionsPerMessage = c.BusinessTransactionCount.Val()
 	}
 	if c.MaxMessageSize != nil {
 		bpd.MaxMessageSize = c.MaxMessageSize.Val()
-- 
2.43.0


From d028643feb660162e2bdbe427392b0cee357e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 31/93] fix: do not panic on bank responses with missing
 elements

---
 segment/account_transaction.go       |  9 ++++++
 segment/basic_account_information.go |  6 ++--
 segment/pin_bpd.go                   |  3 ++
 segment/status_protocol.go           | 32 +++++++++++++++----
 segment/sync.go                      | 18 +++++++++++
 segment/user_parameter_data.go       | 48 +++++++++++++++-------------
 6 files changed, 85 insertions(+), 31 deletions(-)

diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index 40f7eba..7178afe 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -236,6 +236,9 @@ type AccountTransactionResponseSegmentV5 struct {
 }
 
 func (a *AccountTransactionResponseSegmentV5) BookedSwiftTransactions() *swift.MT940Messages {
+	if a.BookedTransactions == nil {
+		return &swift.MT940Messages{}
+	}
 	return a.BookedTransactions.Val()
 }
 
@@ -258,6 +261,9 @@ type AccountTransactionResponseSegmentV6 struct {
 }
 
 func (a *AccountTransactionResponseSegmentV6) BookedSwiftTransactions() *swift.MT940Messages {
+	if a.BookedTransactions == nil {
+		return &swift.MT940Messages{}
+	}
 	return a.BookedTransactions.Val()
 }
 
@@ -280,6 +286,9 @@ type AccountTransactionResponseSegmentV7 struct {
 }
 
 func (a *AccountTransactionResponseSegmentV7) BookedSwiftTransactions() *swift.MT940Messages {
+	if a.BookedTransactions == nil {
+		return &swift.MT940Messages{}
+	}
 	return a.BookedTransactions.Val()
 }
 
diff --git a/segment/basic_account_information.go b/segment/basic_account_information.go
index d83b5ad..d43461f 100644
--- a/segment/basic_account_information.go
+++ b/segment/basic_account_information.go
@@ -43,9 +43,9 @@ func (a *AccountInformationV4) referencedId() string { return ProcessingPreparat
 func (a *AccountInformationV4) sender() string       { return senderBank }
 
 func (a *AccountInformationV4) Account() domain.AccountInformation {
-	accountConnection := a.AccountConnection.Val()
-	info := domain.AccountInformation{
-		AccountConnection: accountConnection,
+	info := domain.AccountInformation{}
+	if a.AccountConnection != nil {
+		info.AccountConnection = a.AccountConnection.Val()
 	}
 	if a.UserID != nil {
 		info.UserID = a.UserID.Val()
diff --git a/segment/pin_bpd.go b/segment/pin_bpd.go
index 851dc9a..7802a17 100644
--- a/segment/pin_bpd.go
+++ b/segment/pin_bpd.go
@@ -46,6 +46,9 @@ func (t *PinTanBankParameterV1) elements() []element.DataElement {
 
 func (t *PinTanBankParameterV1) PinTanBusinessTransactions() []domain.PinTanBusinessTransaction {
 	var transactions []domain.PinTanBusinessTransaction
+	if t.PinTanSpecificParams == nil || t.PinTanSpecificParams.JobSpecificPinTanInformation == nil {
+		return transactions
+	}
 	for _, transactionDe := range t.PinTanSpecificParams.JobSpecificPinTanInformation.GroupDataElements() {
 		transactions = append(transactions, transactionDe.(*element.PinTanBusinessTransactionParameter).Val())
 	}
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index 37c0de9..2da136c 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -134,17 +134,27 @@ func (s *StatusProtocolResponseSegmentV3) elements() []element.DataElement {
 }
 
 func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement {
-	ack := s.Acknowledgement.Val()
+	var ack domain.Acknowledgement
+	if s.Acknowledgement != nil {
+		ack = s.Acknowledgement.Val()
+	}
 	if s.ReferencingMessage != nil {
 		ack.ReferencingMessage = s.ReferencingMessage.Val()
-		ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
+		if s.ReferencingSegment != nil {
+			ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
+		}
 		ack.Type = domain.SegmentAcknowledgement
 	} else {
 		ack.Type = domain.MessageAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(timeOfDay(s.Time.Val())),
+	}
+	if s.Date != nil {
+		status.TransmittedAt = s.Date.Val()
+		if s.Time != nil {
+			status.TransmittedAt = status.TransmittedAt.Add(timeOfDay(s.Time.Val()))
+		}
 	}
 	return status
 }
@@ -174,17 +184,27 @@ func (s *StatusProtocolResponseSegmentV4) elements() []element.DataElement {
 }
 
 func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement {
-	ack := s.Acknowledgement.Val()
+	var ack domain.Acknowledgement
+	if s.Acknowledgement != nil {
+		ack = s.Acknowledgement.Val()
+	}
 	if s.ReferencingMessage != nil {
 		ack.ReferencingMessage = s.ReferencingMessage.Val()
-		ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
+		if s.ReferencingSegment != nil {
+			ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
+		}
 		ack.Type = domain.SegmentAcknowledgement
 	} else {
 		ack.Type = domain.MessageAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(timeOfDay(s.Time.Val())),
+	}
+	if s.Date != nil {
+		status.TransmittedAt = s.Date.Val()
+		if s.Time != nil {
+			status.TransmittedAt = status.TransmittedAt.Add(timeOfDay(s.Time.Val()))
+		}
 	}
 	return status
 }
diff --git a/segment/sync.go b/segment/sync.go
index e4a59dd..4b55650 100644
--- a/segment/sync.go
+++ b/segment/sync.go
@@ -121,14 +121,23 @@ func (s *SynchronisationResponseSegmentV3) elements() []element.DataElement {
 }
 
 func (s *SynchronisationResponseSegmentV3) ClientSystemID() string {
+	if s.ClientSystemIDResponse == nil {
+		return ""
+	}
 	return s.ClientSystemIDResponse.Val()
 }
 
 func (s *SynchronisationResponseSegmentV3) LastMessageNumber() int {
+	if s.MessageNumberResponse == nil {
+		return 0
+	}
 	return s.MessageNumberResponse.Val()
 }
 
 func (s *SynchronisationResponseSegmentV3) SignatureID() int {
+	if s.SignatureIDResponse == nil {
+		return 0
+	}
 	return s.SignatureIDResponse.Val()
 }
 
@@ -153,13 +162,22 @@ func (s *SynchronisationResponseSegmentV4) elements() []element.DataElement {
 }
 
 func (s *SynchronisationResponseSegmentV4) ClientSystemID() string {
+	if s.ClientSystemIDResponse == nil {
+		return ""
+	}
 	return s.ClientSystemIDResponse.Val()
 }
 
 func (s *SynchronisationResponseSegmentV4) LastMessageNumber() int {
+	if s.MessageNumberResponse == nil {
+		return 0
+	}
 	return s.MessageNumberResponse.Val()
 }
 
 func (s *SynchronisationResponseSegmentV4) SignatureID() int {
+	if s.SignatureIDResponse == nil {
+		return 0
+	}
 	return s.SignatureIDResponse.Val()
 }
diff --git a/segment/user_parameter_data.go b/segment/user_parameter_data.go
index 1655369..807dddd 100644
--- a/segment/user_parameter_data.go
+++ b/segment/user_parameter_data.go
@@ -52,11 +52,7 @@ func (c *CommonUserParameterDataV2) elements() []element.DataElement {
 }
 
 func (c *CommonUserParameterDataV2) UserParameterData() domain.UserParameterData {
-	return domain.UserParameterData{
-		UserID:  c.UserID.Val(),
-		Version: c.UPDVersion.Val(),
-		Usage:   c.UPDUsage.Val(),
-	}
+	return userParameterData(c.UserID, c.UPDVersion, c.UPDUsage, nil, nil)
 }
 
 type CommonUserParameterDataV3 struct {
@@ -92,11 +88,7 @@ func (c *CommonUserParameterDataV3) elements() []element.DataElement {
 }
 
 func (c *CommonUserParameterDataV3) UserParameterData() domain.UserParameterData {
-	return domain.UserParameterData{
-		UserID:  c.UserID.Val(),
-		Version: c.UPDVersion.Val(),
-		Usage:   c.UPDUsage.Val(),
-	}
+	return userParameterData(c.UserID, c.UPDVersion, c.UPDUsage, c.UserName, c.CommonExtensions)
 }
 
 type CommonUserParameterDataV4 struct {
@@ -132,19 +124,31 @@ func (c *CommonUserParameterDataV4) elements() []element.DataElement {
 }
 
 func (c *CommonUserParameterDataV4) UserParameterData() domain.UserParameterData {
-	var username string
-	if c.UserName != nil {
-		username = c.UserName.Val()
+	return userParameterData(c.UserID, c.UPDVersion, c.UPDUsage, c.UserName, c.CommonExtensions)
+}
+
+// userParameterData builds the user parameter data from the elements the bank
+// sent, all of which may be missing
+func userParameterData(
+	userID *element.IdentificationDataElement,
+	version, usage *element.NumberDataElement,
+	userName, extensions *element.AlphaNumericDataElement,
+) domain.UserParameterData {
+	var data domain.UserParameterData
+	if userID != nil {
+		data.UserID = userID.Val()
+	}
+	if version != nil {
+		data.Version = version.Val()
+	}
+	if usage != nil {
+		data.Usage = usage.Val()
 	}
-	var additions string
-	if c.CommonExtensions != nil {
-		additions = c.CommonExtensions.Val()
+	if userName != nil {
+		data.UserName = userName.Val()
 	}
-	return domain.UserParameterData{
-		UserID:    c.UserID.Val(),
-		Version:   c.UPDVersion.Val(),
-		Usage:     c.UPDUsage.Val(),
-		UserName:  username,
-		Additions: additions,
+	if extensions != nil {
+		data.Additions = extensions.Val()
 	}
+	return data
 }
-- 
2.43.0


From 6bd8286f8287ab6d662896cc47bc6c94350694c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 32/93] fix: do not panic on bank announcements without a body

---
 dialog/dialog.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 241b276..9ff2a1e 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -290,8 +290,7 @@ func (d *dialog) anonymousInit() error {
 
 	bankInfoMessage := bankMessage.FindSegment(segment.BankAnnouncementID)
 	if bankInfoMessage != nil {
-		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
-		internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
+		logBankAnnouncement(bankInfoMessage.(*segment.BankAnnouncementSegment))
 	}
 
 	errors := make([]string, 0)
@@ -382,8 +381,7 @@ func (d *dialog) init() error {
 
 	bankInfoMessage := decryptedMessage.FindSegment(segment.BankAnnouncementID)
 	if bankInfoMessage != nil {
-		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
-		internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
+		logBankAnnouncement(bankInfoMessage.(*segment.BankAnnouncementSegment))
 	}
 
 	var errors []string
@@ -719,6 +717,17 @@ func (d *dialog) dial(message []byte) ([]byte, error) {
 	return retBuf.Bytes(), err
 }
 
+func logBankAnnouncement(announcement *segment.BankAnnouncementSegment) {
+	var subject, body string
+	if announcement.Subject != nil {
+		subject = announcement.Subject.Val()
+	}
+	if announcement.Body != nil {
+		body = announcement.Body.Val()
+	}
+	internal.Info.Printf("INFO:\n%s\n%s\n", subject, body)
+}
+
 func logErr(err error) {
 	if err != nil {
 		log.Println(err)
-- 
2.43.0


From f6fc1e1688f628562e10d52c39fcd61d3a87fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 33/93] fix: read SWIFT fields whose first line is a word or
 number

---
 token/swift_lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 1dfa77f..14ab28f 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -92,7 +92,7 @@ func lexSwiftDigit(l *Lexer) LexerStateFn {
 	l.acceptRun(digits)
 	if l.accept(',') {
 		l.acceptRun(digits)
-		if p := l.peek(); p == carriageReturn {
+		if isTagBoundary(l) {
 			l.emit(SWIFT_DECIMAL)
 			return lexSwiftStart
 		}
@@ -113,6 +113,9 @@ func lexSwiftAlpha(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) {
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_ALPHA)
 		return lexSwiftStart
 	case r == eof:
@@ -132,6 +135,9 @@ func lexSwiftCharacter(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) {
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_CHARACTER)
 		return lexSwiftStart
 	case r == eof:
-- 
2.43.0


From 367084d74427ad4fd5c7ba5881c5adefba9187ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 34/93] fix: do not take a NUL byte for the end of SWIFT input

---
 token/swift_lexer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 14ab28f..9719961 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -51,6 +51,11 @@ func lexTagID(l *Lexer) LexerStateFn {
 }
 
 func lexSwiftStart(l *Lexer) LexerStateFn {
+	if l.pos >= len(l.input) {
+		// Correctly reached EOF.
+		l.emit(EOF)
+		return nil
+	}
 	r := l.next()
 	switch {
 	case ('0' <= r && r <= '9'):
@@ -60,10 +65,6 @@ func lexSwiftStart(l *Lexer) LexerStateFn {
 	case r == carriageReturn:
 		l.backup()
 		return lexSwiftSyntaxSymbol
-	case r == eof:
-		// Correctly reached EOF.
-		l.emit(EOF)
-		return nil
 	default:
 		return lexSwiftAlphaNumeric
 	}
-- 
2.43.0


From 5a5f07ceba14d04d960e4fb9a1dfbacad7bbaafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 35/93] fix: report incomplete SWIFT statements

---
 swift/unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index e81efd8..b1998d7 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -88,6 +88,11 @@ func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.Accoun
 		err = tr.Unmarshal(message)
 		if err != nil {
 			errors = append(errors, fmt.Errorf("error unmarshaling MT940: %w", err))
+			continue
+		}
+		if tr.Account == nil || tr.StartingBalance == nil || tr.ClosingBalance == nil {
+			errors = append(errors, fmt.Errorf("error unmarshaling MT940: missing account or balance"))
+			continue
 		}
 		transactions = append(transactions, tr.AccountTransactions()...)
 	}
-- 
2.43.0


From cbc9edf895d0a5597a6b75849ddea5f6c3d1d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 36/93] fix: keep the order of statements received at the same
 time

---
 client/client.go   | 2 +-
 swift/unmarshal.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 658935a..27c49b6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -211,7 +211,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	if err != nil {
 		return nil, err
 	}
-	return swift.MergeMT940Messages(msg, tx), err
+	return swift.MergeMT940Messages(tx, msg), nil
 }
 
 // AccountInformation will print all information attached to the provided
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index b1998d7..1101cf3 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -23,7 +23,7 @@ type MT940Messages struct {
 
 func MergeMT940Messages(messages ...*MT940Messages) *MT940Messages {
 	sortedMessages := sortedByTimestamp(messages)
-	sort.Sort(sortedMessages)
+	sort.Stable(sortedMessages)
 	merged := &MT940Messages{
 		Data:      []byte{},
 		timestamp: time.Now().UnixNano(),
-- 
2.43.0


From 31793ed99ef578714911f370501bcbca7e469aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 37/93] fix: do not panic on short or unordered SWIFT custom
 fields

---
 swift/element.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swift/element.go b/swift/element.go
index c2a91f2..e5aebeb 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -3,6 +3,7 @@ package swift
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 
 	"github.com/mitch000001/go-hbci/charset"
@@ -150,6 +151,9 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		return err
 	}
 	c.Tag = tag.ID
+	if len(tag.Value) < 3 {
+		return fmt.Errorf("%T: Malformed marshaled value", c)
+	}
 	tID, err := strconv.Atoi(charset.ToUTF8(tag.Value[:3]))
 	if err != nil {
 		return err
@@ -165,6 +169,7 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 			fields = append(fields, fieldKeyIndex{fieldKey, idx})
 		}
 	}
+	sort.Slice(fields, func(i, j int) bool { return fields[i].index < fields[j].index })
 
 	getFieldValue := func(currentFieldKeyIndex, nextFieldKeyIndex int) string {
 		return charset.ToUTF8(
-- 
2.43.0


From 8f322fa45d0c7dfd2b3061e7bcfa703083d0519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 38/93] fix: account for SWIFT reversal bookings

---
 swift/mt940.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 6a6b829..d405ca6 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -35,9 +35,10 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 		tr := transactionSequence.Transaction
 		descr := transactionSequence.Description
 		var amount float64
-		if tr.DebitCreditIndicator == "D" {
+		switch tr.DebitCreditIndicator {
+		case "D", "RC": // debit, reversal of credit
 			amount = -tr.Amount
-		} else {
+		default:
 			amount = tr.Amount
 		}
 		transaction := domain.AccountTransaction{
@@ -255,14 +256,13 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 		if unicode.IsDigit(r) {
 			buf.UnreadRune()
 			runes = runes[:len(runes)-1]
-			if len(runes) == 3 {
-				t.DebitCreditIndicator = string(runes[:2])
-				t.CurrencyKind = string(runes[2:])
-			} else if len(runes) == 2 {
-				t.DebitCreditIndicator = string(runes[:1])
-				t.CurrencyKind = string(runes[1:])
-			} else if len(runes) == 1 {
-				t.DebitCreditIndicator = string(runes)
+			indicatorLength := 1
+			if len(runes) > 1 && runes[0] == 'R' { // reversal: RC or RD
+				indicatorLength = 2
+			}
+			if len(runes) >= indicatorLength {
+				t.DebitCreditIndicator = string(runes[:indicatorLength])
+				t.CurrencyKind = string(runes[indicatorLength:])
 			}
 			break
 		}
-- 
2.43.0


From 664d37959a592e11e2289398c61c37a173c037c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 39/93] fix: report debit balances of SWIFT statements as
 negative

---
 swift/mt940.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index d405ca6..ebb7e20 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -46,20 +46,8 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
 			ValutaDate:  tr.ValutaDate.Time,
 			BookingDate: tr.BookingDate.Time,
-			AccountBalanceBefore: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.StartingBalance.Amount,
-					Currency: m.StartingBalance.Currency,
-				},
-				TransmissionDate: m.StartingBalance.BookingDate.Time,
-			},
-			AccountBalanceAfter: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.ClosingBalance.Amount,
-					Currency: m.ClosingBalance.Currency,
-				},
-				TransmissionDate: m.ClosingBalance.BookingDate.Time,
-			},
+			AccountBalanceBefore: m.StartingBalance.Balance(),
+			AccountBalanceAfter:  m.ClosingBalance.Balance(),
 		}
 		if descr != nil {
 			transaction.BookingText = descr.BookingText
-- 
2.43.0


From cbd2710a51a083cd5f467d3fc98e3b83d0507122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 40/93] fix: derive the year of a SWIFT booking date from the
 valuta date

---
 swift/mt940.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index ebb7e20..c4fb5f6 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -3,7 +3,6 @@ package swift
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -229,9 +228,17 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 			return errors.WithMessage(err, "unmarshal transaction tag: parsing booking date")
 		}
 		t.BookingDate = domain.NewShortDate(date)
-		monthDiff := int(math.Abs(float64(t.ValutaDate.Month() - t.BookingDate.Month())))
-		if monthDiff > 1 {
-			t.BookingDate = domain.NewShortDate(t.BookingDate.AddDate(1, 0, 0))
+		// The booking date carries no year, it is the one closest to the
+		// valuta date.
+		month, day := t.BookingDate.Month(), t.BookingDate.Day()
+		for _, year := range []int{t.ValutaDate.Year() - 1, t.ValutaDate.Year() + 1} {
+			other := domain.Date(year, month, day, time.UTC)
+			if other.Month() != month {
+				continue // no February 29 in that year
+			}
+			if distance(other, t.ValutaDate) < distance(t.BookingDate, t.ValutaDate) {
+				t.BookingDate = other
+			}
 		}
 	}
 	var runes []rune
@@ -296,6 +303,15 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	return nil
 }
 
+// distance returns the absolute duration between two dates
+func distance(a, b domain.ShortDate) time.Duration {
+	d := a.Sub(b.Time)
+	if d < 0 {
+		return -d
+	}
+	return d
+}
+
 func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	var offset int
 	if len(value) == 6 {
-- 
2.43.0


From bd504559c18d485753cfe4a1ca28e1c3daafbf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 41/93] fix: keep the year of SWIFT dates at the end of
 February

---
 swift/mt940.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index c4fb5f6..59445b7 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -41,10 +41,10 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 			amount = tr.Amount
 		}
 		transaction := domain.AccountTransaction{
-			Account:     accountConnection,
-			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
-			ValutaDate:  tr.ValutaDate.Time,
-			BookingDate: tr.BookingDate.Time,
+			Account:              accountConnection,
+			Amount:               domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
+			ValutaDate:           tr.ValutaDate.Time,
+			BookingDate:          tr.BookingDate.Time,
 			AccountBalanceBefore: m.StartingBalance.Balance(),
 			AccountBalanceAfter:  m.ClosingBalance.Balance(),
 		}
@@ -323,11 +323,18 @@ func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	dateString := yearBegin + string(value)
 	date, err := time.Parse("20060102", dateString)
 	if err != nil {
+		if len(dateString) != 8 {
+			return time.Time{}, err
+		}
+		year, yearErr := strconv.Atoi(dateString[:4])
+		if yearErr != nil {
+			return time.Time{}, err
+		}
 		if strings.HasSuffix(dateString, "0229") {
-			return time.Date(referenceYear, 2, 29, 0, 0, 0, 0, time.UTC), nil
+			return time.Date(year, 2, 29, 0, 0, 0, 0, time.UTC), nil
 		}
 		if strings.HasSuffix(dateString, "0230") {
-			return time.Date(referenceYear, 2, 30, 0, 0, 0, 0, time.UTC), nil
+			return time.Date(year, 2, 30, 0, 0, 0, 0, time.UTC), nil
 		}
 		return time.Time{}, err
 	}
-- 
2.43.0


From 82385f1260f43ca559f323cdcab346da2c0d0a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 42/93] fix: support SEPA account transactions

---
 segment/account_transaction.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index 7178afe..d9c6f19 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -29,9 +29,6 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
-		if version > 6 {
-			continue
-		}
 		switch version {
 		case 7:
 			return NewAccountTransactionRequestSegmentV7, nil
-- 
2.43.0


From b2caf4b4c61e9973a7b6c58b70515702b247ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 43/93] fix: use the status protocol version the bank supports

---
 segment/status_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index 2da136c..c376213 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -14,9 +14,9 @@ func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxE
 	for _, version := range versions {
 		switch version {
 		case 4:
-			return NewStatusProtocolRequestV3, nil
-		case 3:
 			return NewStatusProtocolRequestV4, nil
+		case 3:
+			return NewStatusProtocolRequestV3, nil
 		default:
 			continue
 		}
-- 
2.43.0


From 0e76dc0dd9c1126dbf5e7f0579bece4d52eaba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 44/93] fix: look up the status protocol parameters by their
 segment id

---
 segment/hbci_version.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment/hbci_version.go b/segment/hbci_version.go
index e70a580..53a41f7 100644
--- a/segment/hbci_version.go
+++ b/segment/hbci_version.go
@@ -104,7 +104,7 @@ func (b *builder) SepaAccountTransactionRequest(account domain.InternationalAcco
 	return request(account, allAccounts), nil
 }
 func (b *builder) StatusProtocolRequest(from, to time.Time, maxEntries int, continuationReference string) (StatusProtocolRequest, error) {
-	versions, ok := b.supportedSegments["HIPRO"]
+	versions, ok := b.supportedSegments["HIPROS"]
 	if !ok {
 		return nil, fmt.Errorf("Segment %s not supported", "HKPRO")
 	}
-- 
2.43.0


From 9a70c3e503eb6ef2b6b3116d59477c0d0fb0b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 45/93] fix: do not reorder the version list of the caller

---
 segment/account_balance.go     | 5 ++---
 segment/account_transaction.go | 5 ++---
 segment/segment.go             | 9 +++++++++
 segment/status_protocol.go     | 3 +--
 segment/tan.go                 | 3 +--
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index ed30d2b..7b26a26 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -2,7 +2,6 @@ package segment
 
 import (
 	"fmt"
-	"sort"
 	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
@@ -21,7 +20,7 @@ var sepaAccountBalanceRequests = map[int]func(account domain.InternationalAccoun
 
 // AccountBalanceRequestBuilder returns the highest matching versioned segment
 func AccountBalanceRequestBuilder(versions []int) (func(account domain.AccountConnection, allAccounts bool) AccountBalanceRequest, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
+	versions = descending(versions)
 	for _, version := range versions {
 		builder, ok := accountBalanceRequests[version]
 		if ok {
@@ -33,7 +32,7 @@ func AccountBalanceRequestBuilder(versions []int) (func(account domain.AccountCo
 
 // SepaAccountBalanceRequestBuilder returns the highest matching versioned segment
 func SepaAccountBalanceRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) AccountBalanceRequest, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
+	versions = descending(versions)
 	for _, version := range versions {
 		builder, ok := sepaAccountBalanceRequests[version]
 		if ok {
diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index d9c6f19..4403441 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -2,7 +2,6 @@ package segment
 
 import (
 	"fmt"
-	"sort"
 	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
@@ -16,7 +15,7 @@ var accountTransactionRequests = map[int](func(account domain.AccountConnection,
 }
 
 func AccountTransactionRequestBuilder(versions []int) (func(account domain.AccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
+	versions = descending(versions)
 	for _, version := range versions {
 		builder, ok := accountTransactionRequests[version]
 		if ok {
@@ -27,7 +26,7 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 }
 
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
+	versions = descending(versions)
 	for _, version := range versions {
 		switch version {
 		case 7:
diff --git a/segment/segment.go b/segment/segment.go
index 806779c..dfc89a1 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/mitch000001/go-hbci/element"
@@ -146,3 +147,11 @@ func (s *segment) SetPosition(positionFn func() int) {
 func (s *segment) SetReference(ref int) {
 	s.header.SetReference(ref)
 }
+
+// descending returns a copy of versions with the highest version first
+func descending(versions []int) []int {
+	sorted := make([]int, len(versions))
+	copy(sorted, versions)
+	sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
+	return sorted
+}
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index c376213..12ce1d6 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -2,7 +2,6 @@ package segment
 
 import (
 	"fmt"
-	"sort"
 	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
@@ -10,7 +9,7 @@ import (
 )
 
 func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxEntries int, continuationReference string) StatusProtocolRequest, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
+	versions = descending(versions)
 	for _, version := range versions {
 		switch version {
 		case 4:
diff --git a/segment/tan.go b/segment/tan.go
index 4ce19e0..c3f1c90 100644
--- a/segment/tan.go
+++ b/segment/tan.go
@@ -2,7 +2,6 @@ package segment
 
 import (
 	"fmt"
-	"sort"
 
 	"github.com/mitch000001/go-hbci/element"
 )
@@ -15,7 +14,7 @@ var tanProcess4RequestSegmentConstructors = map[int](tanProcess4Constructor){
 }
 
 func TanProcess4RequestBuilder(versions []int) (tanProcess4Constructor, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
+	versions = descending(versions)
 	for _, version := range versions {
 		builder, ok := tanProcess4RequestSegmentConstructors[version]
 		if ok {
-- 
2.43.0


From d1615f0a43d9f47cf7fdafe7a782fc9d59b52aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 46/93] fix: do not reorder the code list of the caller

---
 element/data_element.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/element/data_element.go b/element/data_element.go
index 344db81..2c79b24 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -522,6 +522,7 @@ func (b *BooleanDataElement) UnmarshalHBCI(value []byte) error {
 
 // NewCode returns a new CodeDataElement
 func NewCode(val string, maxLength int, validSet []string) *CodeDataElement {
+	validSet = append([]string(nil), validSet...)
 	sort.Strings(validSet)
 	return &CodeDataElement{
 		AlphaNumericDataElement: NewAlphaNumeric(val, maxLength),
-- 
2.43.0


From 50a86d17c83b58602b987ed5da9119329e4645d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 47/93] fix: reference the message in segment acknowledgements

---
 message/decryption.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/message/decryption.go b/message/decryption.go
index d69f7fb..61048b6 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -23,6 +23,7 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 	}
 	for _, seg := range unmarshaler.SegmentsByID("HIRMS") {
 		if segmentAcknowledgement, ok := seg.(*segment.SegmentAcknowledgement); ok {
+			segmentAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
 			acknowledgements = append(acknowledgements, segmentAcknowledgement.Acknowledgements()...)
 		} else {
 			panic(fmt.Errorf("Error while unmarshaling segments"))
-- 
2.43.0


From af8330dea8764d323ae11accc4355b5c8166d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 48/93] fix: report incomplete message headers

---
 dialog/dialog.go      | 6 +++---
 message/decryption.go | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 9ff2a1e..3d70318 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -179,7 +179,7 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	}
 
 	messageHeader := decryptedMessage.MessageHeader()
-	if messageHeader == nil {
+	if messageHeader == nil || messageHeader.DialogID == nil {
 		return "", fmt.Errorf("malformed response message: %q", decryptedMessage)
 	}
 	d.dialogID = messageHeader.DialogID.Val()
@@ -273,7 +273,7 @@ func (d *dialog) anonymousInit() error {
 		return err
 	}
 	messageHeader := bankMessage.MessageHeader()
-	if messageHeader == nil {
+	if messageHeader == nil || messageHeader.DialogID == nil {
 		return fmt.Errorf("malformed response message: %q", bankMessage)
 	}
 	d.dialogID = messageHeader.DialogID.Val()
@@ -364,7 +364,7 @@ func (d *dialog) init() error {
 		return fmt.Errorf("error while initializing dialog: %v", err)
 	}
 	messageHeader := decryptedMessage.MessageHeader()
-	if messageHeader == nil {
+	if messageHeader == nil || messageHeader.DialogID == nil {
 		return fmt.Errorf("malformed response message: %q", decryptedMessage)
 	}
 	d.dialogID = messageHeader.DialogID.Val()
diff --git a/message/decryption.go b/message/decryption.go
index 61048b6..8635b8a 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -29,6 +29,9 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 			panic(fmt.Errorf("Error while unmarshaling segments"))
 		}
 	}
+	if header.HBCIVersion == nil {
+		return nil, fmt.Errorf("malformed message header: missing HBCI version")
+	}
 	version, ok := segment.SupportedHBCIVersions[header.HBCIVersion.Val()]
 	if !ok {
 		return nil, fmt.Errorf("Unsupported HBCI version: %d", header.HBCIVersion.Val())
-- 
2.43.0


From c5398adc97622bbc5a6a4ab4d393fec8907c0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 49/93] fix: report encrypted messages without data

---
 message/encryption.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/message/encryption.go b/message/encryption.go
index 65cea40..2194112 100644
--- a/message/encryption.go
+++ b/message/encryption.go
@@ -2,6 +2,7 @@ package message
 
 import (
 	"crypto/rand"
+	"fmt"
 
 	"github.com/mitch000001/go-hbci/segment"
 )
@@ -50,6 +51,9 @@ func (e *EncryptedMessage) HBCISegments() []segment.ClientSegment {
 
 // Decrypt decrypts the message using the CryptoProvider
 func (e *EncryptedMessage) Decrypt(provider CryptoProvider) (BankMessage, error) {
+	if e.EncryptedData == nil || e.EncryptedData.Data == nil {
+		return nil, fmt.Errorf("malformed encrypted message: missing encrypted data")
+	}
 	decryptedMessageBytes, err := provider.Decrypt(e.EncryptedData.Data.Val())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 73a9a181a6a03b0d36d4fe741362950f9e9045b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 50/93] fix: keep the security function when the PIN changes

---
 dialog/pin_tan_dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/pin_tan_dialog.go b/dialog/pin_tan_dialog.go
index 6bb3025..617f9a2 100644
--- a/dialog/pin_tan_dialog.go
+++ b/dialog/pin_tan_dialog.go
@@ -65,4 +65,7 @@ func (d *PinTanDialog) SetPin(pin string) {
 	d.signatureProvider = message.NewPinTanSignatureProvider(pinKey, d.ClientSystemID)
 	pinKey = domain.NewPinKey(pin, domain.NewPinTanKeyName(d.BankID, d.UserID, domain.KeyTypeEncryption))
 	d.cryptoProvider = message.NewPinTanCryptoProvider(pinKey, d.ClientSystemID)
+	if d.securityFn != "" {
+		d.SetSecurityFunction(d.securityFn)
+	}
 }
-- 
2.43.0


From 3675e127e457f3150ceacb6e37b4234778341282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 51/93] fix: do not list accounts again for every dialog

---
 dialog/dialog.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 3d70318..4a18087 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -570,10 +570,17 @@ func (d *dialog) parseUserParameterData(bankMessage message.BankMessage) error {
 	}
 
 	accountData := bankMessage.FindSegments(segment.AccountInformationID)
+	if len(accountData) == 0 {
+		return nil
+	}
+	// The bank always sends the information of all accounts, they replace the
+	// ones already known.
+	accounts := make([]domain.AccountInformation, 0, len(accountData))
 	for _, acc := range accountData {
 		infoSegment := acc.(segment.AccountInformation)
-		d.Accounts = append(d.Accounts, infoSegment.Account())
+		accounts = append(accounts, infoSegment.Account())
 	}
+	d.Accounts = accounts
 	return nil
 }
 
-- 
2.43.0


From ef7d2b4219bfce57a267f5f7eaaf3a32a18be587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 52/93] fix: synchronise in a dialog of its own

---
 dialog/dialog.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 4a18087..1871c4d 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -155,6 +155,8 @@ func (d *dialog) SyncUserParameterData() error {
 }
 
 func (d *dialog) SyncClientSystemID() (string, error) {
+	d.dialogID = initialDialogID
+	d.messageCount = 0
 	syncMessage := message.NewSynchronisationMessage(d.hbciVersion)
 	syncMessage.Identification = segment.NewIdentificationSegment(d.BankID, d.clientID, initialClientSystemID, true)
 	syncMessage.ProcessingPreparation = segment.NewProcessingPreparationSegmentV3(
-- 
2.43.0


From 48b51074de8913ea79b5e836103f19cc00f64340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 53/93] fix: keep the client id if the user parameter data
 carry none

---
 dialog/dialog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1871c4d..2bec630 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -568,7 +568,9 @@ func (d *dialog) parseUserParameterData(bankMessage message.BankMessage) error {
 	if userParamData != nil {
 		paramSegment := userParamData.(segment.CommonUserParameterData)
 		d.UserParameterData = paramSegment.UserParameterData()
-		d.clientID = d.UserParameterData.UserID
+		if d.UserParameterData.UserID != "" {
+			d.clientID = d.UserParameterData.UserID
+		}
 	}
 
 	accountData := bankMessage.FindSegments(segment.AccountInformationID)
-- 
2.43.0


From 05facfe4c042ccf787f971d9bce6c1b3741b16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 54/93] fix: use the security function the bank lists first

---
 dialog/dialog.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 2bec630..72b7261 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -462,14 +462,9 @@ func (d *dialog) updateSecurityFunctionIfNeeded(message message.BankMessage) err
 		return fmt.Errorf("no supported security function implemented")
 	}
 	oldSecurityFn := d.securityFn
-	newSecurityFn := ""
-	newSecurityFnName := ""
 	// TODO: proper handling of each case, see FINTS3.0 docu -> Ask user which to use
-	for fn, name := range supportedSecurityFns {
-		newSecurityFn = fn
-		newSecurityFnName = name
-		break
-	}
+	newSecurityFn := supportedSecurityFns[0].id
+	newSecurityFnName := supportedSecurityFns[0].name
 	if oldSecurityFn != newSecurityFn {
 		internal.Info.Printf(
 			"New supported security function found. Setting new security function %q (%s).", newSecurityFnName, newSecurityFn,
@@ -493,7 +488,14 @@ func (d *dialog) hasSupportedSecurityAcknowledgement(message message.BankMessage
 	return false
 }
 
-func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) (map[string]string, bool) {
+type securityFunction struct {
+	id   string
+	name string
+}
+
+// supportedSecurityFunctionsFromBankMessage returns the security functions the
+// bank allows for the user, in the order the bank lists them
+func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) ([]securityFunction, bool) {
 	acknowledgements := message.Acknowledgements()
 	var supportedSecurityFns []string
 	for _, ack := range acknowledgements {
@@ -505,7 +507,7 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	if len(supportedSecurityFns) == 0 {
 		return nil, false
 	}
-	securityFunctions := map[string]string{}
+	var securityFunctions []securityFunction
 	rawSegment := message.FindSegment(segment.TanBankParameterID)
 	if rawSegment == nil {
 		return nil, false
@@ -518,7 +520,10 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	}
 	for _, sf := range supportedSecurityFns {
 		if pp, ok := availableSecurityFns[sf]; ok {
-			securityFunctions[sf] = pp.TwoStepProcessName.Val()
+			securityFunctions = append(securityFunctions, securityFunction{
+				id:   sf,
+				name: pp.TwoStepProcessName.Val(),
+			})
 		}
 	}
 	if len(securityFunctions) == 0 {
-- 
2.43.0


From 234246eb706cfebbb56b4f8576bafb74c559568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 55/93] fix: do not panic on TAN bank parameters without
 processes

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 72b7261..1544108 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -512,8 +512,12 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	if rawSegment == nil {
 		return nil, false
 	}
+	tanBankParameter, ok := rawSegment.(*segment.TanBankParameterV6)
+	if !ok || tanBankParameter.Tan2StepSubmissionParameter == nil {
+		return nil, false
+	}
 	availableSecurityFns := map[string]*element.Tan2StepSubmissionProcessParameterV6{}
-	for _, pp := range rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
+	for _, pp := range tanBankParameter.Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
 		tan2StepPP := pp.(*element.Tan2StepSubmissionProcessParameterV6)
 		fn := tan2StepPP.SecurityFunction.Val()
 		availableSecurityFns[fn] = tan2StepPP
-- 
2.43.0


From 20108358398e77dae21a3ed205142f67c84f4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 56/93] fix: do not panic on continuation acknowledgements
 without a reference

---
 client/client.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/client/client.go b/client/client.go
index 27c49b6..d54936a 100644
--- a/client/client.go
+++ b/client/client.go
@@ -195,13 +195,9 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 		}
 		bookedSwiftTransactions = append(bookedSwiftTransactions, seg.BookedSwiftTransactions())
 	}
-	var newContinuationReference string
-	acknowledgements := decryptedMessage.Acknowledgements()
-	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
-			newContinuationReference = ack.Params[0]
-			break
-		}
+	newContinuationReference, err := continuationReferenceFrom(decryptedMessage)
+	if err != nil {
+		return nil, err
 	}
 	tx := swift.MergeMT940Messages(bookedSwiftTransactions...)
 	if newContinuationReference == "" {
@@ -214,6 +210,21 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	return swift.MergeMT940Messages(tx, msg), nil
 }
 
+// continuationReferenceFrom returns the reference to continue with if the bank
+// has more data, or an empty string
+func continuationReferenceFrom(bankMessage message.BankMessage) (string, error) {
+	for _, ack := range bankMessage.Acknowledgements() {
+		if ack.Code != element.AcknowledgementAdditionalInformation {
+			continue
+		}
+		if len(ack.Params) == 0 || ack.Params[0] == "" {
+			return "", fmt.Errorf("malformed response: missing continuation reference: %v", ack)
+		}
+		return ack.Params[0], nil
+	}
+	return "", nil
+}
+
 // AccountInformation will print all information attached to the provided
 // account. If allAccounts is true it will fetch also the information
 // associated with the account.
@@ -315,13 +326,9 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 	if len(balanceResponses) == 0 {
 		return nil, fmt.Errorf("malformed response: expected HISAL segment")
 	}
-	var newContinuationReference string
-	acknowledgements := decryptedMessage.Acknowledgements()
-	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
-			newContinuationReference = ack.Params[0]
-			break
-		}
+	newContinuationReference, err := continuationReferenceFrom(decryptedMessage)
+	if err != nil {
+		return nil, err
 	}
 	if newContinuationReference == "" {
 		return balances, nil
-- 
2.43.0


From 18285c69af63cad51b8708538745b81f5abb8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 57/93] fix: do not take a segment for another one with a
 shorter id

---
 message/segment_extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 387f845..2460883 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -44,7 +44,7 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 // FindSegment searches for a given ID and returns the first appearing segment
 // bytes if present
 func (s *SegmentExtractor) FindSegment(id string) []byte {
-	byteID := []byte(id)
+	byteID := []byte(id + ":")
 	for _, segment := range s.segments {
 		if bytes.HasPrefix(segment, byteID) {
 			return segment
-- 
2.43.0


From c324e44bfffc0532f9da7cf0d23139f4b247b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 58/93] fix: do not collect the segments twice

---
 message/segment_extractor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 2460883..42047cb 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -24,6 +24,7 @@ type SegmentExtractor struct {
 // of the result so it is safe to manipulate it
 func (s *SegmentExtractor) Extract() ([][]byte, error) {
 	var current []byte
+	s.segments = nil
 	lexer := token.NewLexer("SegmentExtractor", s.rawMessage)
 	for lexer.HasNext() {
 		t := lexer.Next()
-- 
2.43.0


From 805be5bab64331f5065584090dfbe525c48c5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 59/93] fix: report messages that end within a segment

---
 message/segment_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 42047cb..b812c80 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -37,6 +37,9 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 			current = []byte{}
 		}
 	}
+	if len(current) > 0 {
+		return nil, fmt.Errorf("%T: unexpected end of input\n(%q)", s, s.rawMessage)
+	}
 	result := make([][]byte, len(s.segments))
 	copy(result, s.segments)
 	return result, nil
-- 
2.43.0


From 968595b4c098c32eafb11950f88c28cb8ac3f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 60/93] fix: report responses without a message end

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1544108..d28c7a9 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -623,6 +623,10 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 		return nil, fmt.Errorf("error reading response from Transport: %v", err)
 	}
 
+	if response.FindSegment("HNHBS") == nil {
+		return nil, fmt.Errorf("malformed response: missing Message End")
+	}
+
 	var bankMessage message.BankMessage
 	if response.IsEncrypted() {
 		encMessage, err := d.extractEncryptedMessage(response)
-- 
2.43.0


From 62140f819f87a859db14160925dd7a58b7a659de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 61/93] fix: decode the challenge of TAN responses

---
 element/data_element_type.go |  2 ++
 element/tan.go               | 29 +++++++++++++++++++++++++++--
 segment/tan.go               |  4 ++++
 segment/tan_unmarshaler.go   | 36 ++++++++++++++++++++++++++++++++----
 4 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/element/data_element_type.go b/element/data_element_type.go
index 7a683b7..7dc484e 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -63,6 +63,7 @@ const (
 	disposalEligiblePersonDEG
 	securityProfileDEG
 	tan2StepSubmissionParameterDEG
+	tanChallengeExpiryDateDEG
 	tan2StepSubmissionProcessParameterDEG
 	pinTanSpecificParamDataElementDEG
 	supportedCompressionMethodsDEG
@@ -117,6 +118,7 @@ var typeName = map[DataElementType]string{
 	disposalEligiblePersonDEG:             "Verfügungsberechtigte",
 	securityProfileDEG:                    "Sicherheitsprofil",
 	tan2StepSubmissionParameterDEG:        "Parameter Zwei-Schritt-TAN-Einreichung",
+	tanChallengeExpiryDateDEG:             "Gültigkeitsdatum und -uhrzeit für Challenge",
 	tan2StepSubmissionProcessParameterDEG: "Verfahrensparameter Zwei-Schritt-Verfahren",
 	pinTanSpecificParamDataElementDEG:     "Parameter PIN/TAN-spezifische Informationen",
 	supportedCompressionMethodsDEG:        "Unterstützte Komprimierungsverfahren",
diff --git a/element/tan.go b/element/tan.go
index 714be07..40f9c01 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -20,14 +20,39 @@ type TanChallengeExpiryDate struct {
 	Time *TimeDataElement
 }
 
-// GroupDataElements returns the grouped DataElements
-func (t *TanChallengeExpiryDate) GroupDataElements() []DataElement {
+// Elements returns the elements of this DataElement.
+func (t *TanChallengeExpiryDate) Elements() []DataElement {
 	return []DataElement{
 		t.Date,
 		t.Time,
 	}
 }
 
+// UnmarshalHBCI unmarshals value
+func (t *TanChallengeExpiryDate) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	date := &DateDataElement{}
+	err = date.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	timeOfDay := &TimeDataElement{}
+	err = timeOfDay.UnmarshalHBCI(elements[1])
+	if err != nil {
+		return err
+	}
+	t.Date = date
+	t.Time = timeOfDay
+	t.DataElement = NewGroupDataElementGroup(tanChallengeExpiryDateDEG, 2, t)
+	return nil
+}
+
 // Tan2StepSubmissionParameterV6
 //
 // Parameter Zwei-Schritt-TAN-Einreichung, Elementversion #6
diff --git a/segment/tan.go b/segment/tan.go
index c3f1c90..e5ff115 100644
--- a/segment/tan.go
+++ b/segment/tan.go
@@ -152,5 +152,9 @@ func (t *TanResponseSegmentV6) elements() []element.DataElement {
 		t.TANProcess,
 		t.JobHash,
 		t.JobReference,
+		t.Challenge,
+		t.ChallengeHHD_UC,
+		t.TANMediumDescription,
+		t.ChallengeExpiryDate,
 	}
 }
diff --git a/segment/tan_unmarshaler.go b/segment/tan_unmarshaler.go
index 574ea36..f0eb154 100644
--- a/segment/tan_unmarshaler.go
+++ b/segment/tan_unmarshaler.go
@@ -72,13 +72,41 @@ func (t *TanResponseSegmentV6) UnmarshalHBCI(value []byte) error {
 	}
 	if len(elements) > 3 && len(elements[3]) > 0 {
 		t.JobReference = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 3 {
-			err = t.JobReference.UnmarshalHBCI(bytes.Join(elements[3:], []byte("+")))
+		err = t.JobReference.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling JobReference: %w", err)
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		t.Challenge = &element.AlphaNumericDataElement{}
+		err = t.Challenge.UnmarshalHBCI(elements[4])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling Challenge: %w", err)
+		}
+	}
+	if len(elements) > 5 && len(elements[5]) > 0 {
+		t.ChallengeHHD_UC = &element.BinaryDataElement{}
+		err = t.ChallengeHHD_UC.UnmarshalHBCI(elements[5])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling ChallengeHHD_UC: %w", err)
+		}
+	}
+	if len(elements) > 6 && len(elements[6]) > 0 {
+		t.TANMediumDescription = &element.AlphaNumericDataElement{}
+		err = t.TANMediumDescription.UnmarshalHBCI(elements[6])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling TANMediumDescription: %w", err)
+		}
+	}
+	if len(elements) > 7 && len(elements[7]) > 0 {
+		t.ChallengeExpiryDate = &element.TanChallengeExpiryDate{}
+		if len(elements)+1 > 7 {
+			err = t.ChallengeExpiryDate.UnmarshalHBCI(bytes.Join(elements[7:], []byte("+")))
 		} else {
-			err = t.JobReference.UnmarshalHBCI(elements[3])
+			err = t.ChallengeExpiryDate.UnmarshalHBCI(elements[7])
 		}
 		if err != nil {
-			return fmt.Errorf("error unmarshaling JobReference: %w", err)
+			return fmt.Errorf("error unmarshaling ChallengeExpiryDate: %w", err)
 		}
 	}
 	return nil
-- 
2.43.0


From 9863e73673a2d084ed90af7c268b4e740c2933a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 62/93] fix: no panic on messages ending within binary data

---
 token/lexer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index 46a4b5e..d52c95a 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -91,13 +91,14 @@ func (l *Lexer) emit(t Type) {
 }
 
 // next returns the next byte in the input.
+// It advances even at the end of the input, so that backup undoes every next.
 func (l *Lexer) next() byte {
-	if l.pos >= len(l.input) {
+	pos := l.pos
+	l.pos++
+	if pos >= len(l.input) {
 		return eof
 	}
-	b := l.input[l.pos]
-	l.pos++
-	return b
+	return l.input[pos]
 }
 
 // ignore skips over the pending input before this point.
-- 
2.43.0


From cf466feeb187efd6ed795ab66dc9892984038527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 63/93] fix: keep the debit/credit mark of SWIFT bookings
 without booking date

---
 swift/mt940.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 59445b7..84d0458 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -220,8 +220,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if err != nil {
 		return err
 	}
+	buf.UnreadRune()
 	if unicode.IsDigit(r) {
-		buf.UnreadRune()
 		dateBytes = buf.Next(4)
 		date, err = parseDate(dateBytes, t.ValutaDate.Year())
 		if err != nil {
-- 
2.43.0


From c232b306f9f4e8b6c2a0d64c3111ff207d5392c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 64/93] fix: no error for an account without bookings

---
 swift/unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index 1101cf3..a43a8a2 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -76,6 +76,9 @@ func NewMT940MessagesUnmarshaler() MT940Unmarshaler {
 type mt940MessagesUnmarshaler struct{}
 
 func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.AccountTransaction, error) {
+	if len(value) == 0 { // no bookings at all
+		return nil, nil
+	}
 	messageExtractor := NewMessageExtractor(value)
 	messages, err := messageExtractor.Extract()
 	if err != nil {
-- 
2.43.0


From bd3de49629140148e4356b8a0ae69efe060dc3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 65/93] fix: no panic on SWIFT bookings whose additional
 information starts with a slash

---
 swift/mt940.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swift/mt940.go b/swift/mt940.go
index 84d0458..c41930a 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -276,6 +276,10 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	remaining := buf.String()
 	addInfSepIdx := strings.Index(remaining, "\r\n/")
 	doubleSlashIdx := strings.Index(remaining, "//")
+	if addInfSepIdx != -1 && doubleSlashIdx == addInfSepIdx+2 {
+		// the first slash begins the additional information
+		doubleSlashIdx = -1
+	}
 
 	if doubleSlashIdx != -1 && addInfSepIdx != -1 {
 		t.Reference = remaining[:doubleSlashIdx]
-- 
2.43.0


From ec8675184c643d3542c7d6910831b1292a500e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 66/93] fix: use the initial system id in the signature of a
 synchronisation

---
 dialog/dialog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index d28c7a9..620b063 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -165,6 +165,7 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	syncMessage.TanRequest = d.hbciVersion.TanProcess4Request(segment.IdentificationID)
 	syncMessage.Sync = d.hbciVersion.SynchronisationRequest(segment.SyncModeAquireClientID)
 	syncMessage.BasicMessage = d.newBasicMessage(syncMessage)
+	d.signatureProvider.SetClientSystemID(initialClientSystemID)
 	signedSyncMessage, err := syncMessage.Sign(d.signatureProvider)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 99409ab40b4facb562f930023bc2e5cb206379f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 67/93] fix: tell why the accounts cannot be fetched

---
 client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index d54936a..8f37b14 100644
--- a/client/client.go
+++ b/client/client.go
@@ -118,7 +118,7 @@ func (c *Client) Accounts() ([]domain.AccountInformation, error) {
 	}
 	err := c.pinTanDialog.SyncUserParameterData()
 	if err != nil {
-		return nil, fmt.Errorf("error getting accounts")
+		return nil, fmt.Errorf("error getting accounts: %w", err)
 	}
 	return c.pinTanDialog.Accounts, nil
 }
-- 
2.43.0


From d9028a4f7b8834a7bc7668f12ce6a24ee07ccdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 68/93] fix: report SWIFT messages that end within a tag

---
 swift/message_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swift/message_extractor.go b/swift/message_extractor.go
index ad9bf44..0b0097a 100644
--- a/swift/message_extractor.go
+++ b/swift/message_extractor.go
@@ -32,6 +32,9 @@ func (m *MessageExtractor) Extract() ([][]byte, error) {
 			return nil, &SyntaxError{Token: tok, RawMessage: m.rawSwiftMessage}
 		}
 		current = append(current, tok.Value()...)
+		if tok.Type() == token.EOF && len(current) != 0 {
+			return nil, fmt.Errorf("unexpected end of input: unterminated message %q", current)
+		}
 		if tok.Type() == token.SWIFT_MESSAGE_SEPARATOR {
 			m.extractedMessages = append(m.extractedMessages, current)
 			current = []byte{}
-- 
2.43.0


From d6d62543411a2c9cca201d5d27ae37039b29cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 69/93] fix: refuse SWIFT amounts that are no decimal numbers

---
 swift/mt940.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index c41930a..8f38b96 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -169,8 +169,7 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	}
 	b.BookingDate = domain.NewShortDate(date)
 	b.Currency = string(buf.Next(3))
-	amountString := strings.Replace(buf.String(), ",", ".", 1)
-	amount, err := strconv.ParseFloat(amountString, 64)
+	amount, err := parseAmount(buf.String())
 	if err != nil {
 		return errors.Wrap(err, "MT940 Balance tag: error unmarshaling amount")
 	}
@@ -266,8 +265,7 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if err != nil {
 		return err
 	}
-	amountBytes = bytes.Replace(amountBytes[:len(amountBytes)-1], []byte(","), []byte("."), 1)
-	amount, err := strconv.ParseFloat(string(amountBytes), 64)
+	amount, err := parseAmount(string(amountBytes[:len(amountBytes)-1]))
 	if err != nil {
 		return errors.Wrap(err, "MT940 Transaction tag: error unmarshaling amount")
 	}
@@ -316,6 +314,14 @@ func distance(a, b domain.ShortDate) time.Duration {
 	return d
 }
 
+// parseAmount parses an unsigned decimal number
+func parseAmount(value string) (float64, error) {
+	if i := strings.IndexFunc(value, func(r rune) bool { return !strings.ContainsRune("0123456789,.", r) }); i != -1 {
+		return 0, fmt.Errorf("malformed amount: %q", value)
+	}
+	return strconv.ParseFloat(strings.Replace(value, ",", ".", 1), 64)
+}
+
 func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	var offset int
 	if len(value) == 6 {
-- 
2.43.0


From 7c9592f1ab9155995e79c1f899ac759145f39978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 70/93] fix: check the parts of an IBAN and fill up german
 account ids

---
 iban/iban.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index 8a6db5c..dfc2e7a 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -11,6 +11,11 @@ const countryDE = "DE"
 const germanAccountIDLength = 10
 const maxAllowedIBANLength = 34
 
+const (
+	digits  = "0123456789"
+	letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
+)
+
 // IsValid validates the IBAN for its proof number
 func IsValid(input string) bool {
 	iban, err := From(input)
@@ -25,8 +30,11 @@ func IsValid(input string) bool {
 // It returns only valid german IBANs, as it is hard coded to use german
 // settings.
 func NewGerman(bankID, accountID string) (IBAN, error) {
-	if len(accountID) == (germanAccountIDLength - 1) {
-		accountID = "0" + accountID
+	if accountID == "" || strings.Trim(accountID, digits) != "" {
+		return "", fmt.Errorf("malformed accountID: must consist of digits")
+	}
+	if len(accountID) < germanAccountIDLength {
+		accountID = strings.Repeat("0", germanAccountIDLength-len(accountID)) + accountID
 	}
 
 	bban := fmt.Sprintf("%s%s", bankID, accountID)
@@ -39,6 +47,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	if len(countryCode) != 2 {
 		return "", fmt.Errorf("malformed countryCode: must have two characters")
 	}
+	if strings.Trim(countryCode, letters) != "" {
+		return "", fmt.Errorf("malformed countryCode: must consist of letters")
+	}
 	countryCode = strings.ToUpper(countryCode)
 
 	ibanLen, ok := ibanMaxLengthForCountry[countryCode]
@@ -52,6 +63,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 		return "", fmt.Errorf("malformed BBAN: must have at max %d characters", ibanLen)
 	}
 
+	if strings.Trim(BBAN, digits+letters) != "" {
+		return "", fmt.Errorf("malformed BBAN: must consist of letters and digits")
+	}
 	BBAN = strings.ToUpper(BBAN)
 
 	step1 := fmt.Sprintf("%s%s00", transformLettersToDigits(BBAN), transformLettersToDigits(countryCode))
@@ -69,6 +83,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 // From creates an IBAN from the provided input. If the input is not a valid IBAN, it
 // returns an error.
 func From(input string) (IBAN, error) {
+	if len(input) < 5 {
+		return "", fmt.Errorf("malformed IBAN: too short")
+	}
 	countryCode := input[:2]
 	proofNumber := input[2:4]
 	bban := input[4:]
@@ -115,7 +132,7 @@ func (i IBAN) ProofNumber() string {
 
 // Valid returns true if the IBAN is valid, false otherwise
 func (i IBAN) Valid() bool {
-	if len(i) > maxAllowedIBANLength {
+	if len(i) < 5 || len(i) > maxAllowedIBANLength {
 		return false
 	}
 	countryCode := i.CountryCode()
-- 
2.43.0


From 762ab50834e5f95fc13c76cbdc87484892f5e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 71/93] fix: marshal dates and timeframes the same by value and
 by reference

---
 domain/time.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/domain/time.go b/domain/time.go
index 8eead6f..1216776 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -25,7 +25,7 @@ func Date(year int, month time.Month, day int, location *time.Location) ShortDat
 }
 
 // MarshalJSON marshals the date into a JSON representation
-func (s *ShortDate) MarshalJSON() ([]byte, error) {
+func (s ShortDate) MarshalJSON() ([]byte, error) {
 	if s.IsZero() {
 		return json.Marshal("")
 	}
@@ -40,12 +40,12 @@ func (s *ShortDate) UnmarshalJSON(data []byte) error {
 	return err
 }
 
-func (s *ShortDate) String() string {
+func (s ShortDate) String() string {
 	return s.Format("2006-01-02")
 }
 
 // MarshalText marshals the date into a byte representation
-func (s *ShortDate) MarshalText() ([]byte, error) {
+func (s ShortDate) MarshalText() ([]byte, error) {
 	return []byte(s.Format("2006-01-02")), nil
 }
 
@@ -100,7 +100,7 @@ func (tf *Timeframe) ToQuery() url.Values {
 }
 
 // MarshalJSON marhsals the timeframe into a JSON string
-func (tf *Timeframe) MarshalJSON() ([]byte, error) {
+func (tf Timeframe) MarshalJSON() ([]byte, error) {
 	if tf.StartDate.IsZero() || tf.EndDate.IsZero() {
 		return json.Marshal("")
 	}
-- 
2.43.0


From 95fad662050dc49efb84919bec3d188ddb5d813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 72/93] fix: read back the JSON of a zero date

---
 domain/time.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/time.go b/domain/time.go
index 1216776..aff8de7 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -34,6 +34,10 @@ func (s ShortDate) MarshalJSON() ([]byte, error) {
 
 // UnmarshalJSON unmarshals the JSON representation into a date
 func (s *ShortDate) UnmarshalJSON(data []byte) error {
+	if string(data) == `""` { // a zero date, see MarshalJSON
+		*s = ShortDate{}
+		return nil
+	}
 	unquotedData, _ := strconv.Unquote(string(data))
 	time, err := time.Parse("2006-01-02", unquotedData)
 	s.Time = time
-- 
2.43.0


From 22bdb3f838b8374c36625ce0d0d50b4da5e0bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 73/93] fix: measure elements as they are written

Length and IsValid of booleans, binary data and floats measured the Go
representation of the value ("false", "[1 2 3]", "1e+06"), so that every
boolean was invalid, and umlauts counted twice.
---
 element/data_element.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/element/data_element.go b/element/data_element.go
index 2c79b24..9e08d8c 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/mitch000001/go-hbci/charset"
 )
@@ -60,7 +61,7 @@ type basicDataElement struct {
 func (d *basicDataElement) Value() interface{}    { return d.val }
 func (d *basicDataElement) Type() DataElementType { return d.typ }
 func (d *basicDataElement) IsValid() bool         { return d.Length() <= d.maxLength }
-func (d *basicDataElement) Length() int           { return len(d.String()) }
+func (d *basicDataElement) Length() int           { return utf8.RuneCountInString(d.String()) }
 func (d *basicDataElement) String() string        { return fmt.Sprintf("%v", d.val) }
 func (d *basicDataElement) Optional() bool        { return d.optional }
 func (d *basicDataElement) SetOptional()          { d.optional = true }
@@ -377,6 +378,12 @@ type FloatDataElement struct {
 // Val returns the value of f as float64
 func (f *FloatDataElement) Val() float64 { return f.val.(float64) }
 
+// Length returns the number of characters of the float in HBCI format
+func (f *FloatDataElement) Length() int { return len(f.String()) }
+
+// IsValid returns true if the float does not exceed its maximum length
+func (f *FloatDataElement) IsValid() bool { return f.Length() <= f.maxLength }
+
 func (f *FloatDataElement) String() string {
 	str := strconv.FormatFloat(f.Val(), 'f', -1, 64)
 	str = strings.Replace(str, ".", ",", 1)
@@ -440,6 +447,12 @@ func (b *BinaryDataElement) Val() []byte {
 	return b.Value().([]byte)
 }
 
+// Length returns the number of bytes in b
+func (b *BinaryDataElement) Length() int { return len(b.Val()) }
+
+// IsValid returns true if the data does not exceed its maximum length
+func (b *BinaryDataElement) IsValid() bool { return b.Length() <= b.maxLength }
+
 func (b *BinaryDataElement) String() string {
 	return fmt.Sprintf("@%d@%s", len(b.Val()), b.Val())
 }
@@ -495,6 +508,12 @@ func (b *BooleanDataElement) Val() bool {
 	return b.Value().(bool)
 }
 
+// Length returns the number of characters of the boolean in HBCI format
+func (b *BooleanDataElement) Length() int { return len(b.String()) }
+
+// IsValid returns true if the boolean does not exceed its maximum length
+func (b *BooleanDataElement) IsValid() bool { return b.Length() <= b.maxLength }
+
 func (b *BooleanDataElement) String() string {
 	if b.Val() {
 		return "J"
-- 
2.43.0


From d07f5a50f1ebb22b67af5c608efacbf0b1dfb41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 74/93] fix: skip bank records whose bank id is blank

---
 bankinfo/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bankinfo/parser.go b/bankinfo/parser.go
index 11d214d..181fb8c 100644
--- a/bankinfo/parser.go
+++ b/bankinfo/parser.go
@@ -40,7 +40,7 @@ func ParseBankInfos(reader io.Reader) ([]BankInfo, error) {
 	}
 	var bankInfos []BankInfo
 	for _, record := range records {
-		if record.Get(bankIdentifierHeader) == "" {
+		if strings.TrimSpace(record.Get(bankIdentifierHeader)) == "" {
 			internal.Debug.Printf("No BankIdentifier found for record:\n%#v\n", record.AsMap())
 			continue
 		}
@@ -73,7 +73,7 @@ func ParseBicData(reader io.Reader) ([]BicInfo, error) {
 	}
 	var bicInfos []BicInfo
 	for _, record := range records {
-		if record.Get(bicBankIdentifier) == "" {
+		if strings.TrimSpace(record.Get(bicBankIdentifier)) == "" {
 			internal.Debug.Printf("No BankIdentifier found for record:\n%#v\n", record.AsMap())
 			continue
 		}
-- 
2.43.0


From 2ddc69530e5b664b9f7a7cd4ea57ca02ca8ec5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 75/93] fix: pass on errors while reading bodies for the log

The logging middleware handed a request or response that broke off on as
if it were complete.
---
 transport/middleware/logging.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 4192be6..6639671 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -26,6 +26,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledRequest, err := io.ReadAll(io.TeeReader(req.Body, &buf))
 			if err != nil {
 				logger.Printf("Error reading request body: %v", err)
+				return nil, err
 			}
 			req.Body = io.NopCloser(&buf)
 			logger.Println("Decrypted Request:")
@@ -42,6 +43,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
 				logger.Printf("Error reading response body: %v", err)
+				return nil, err
 			}
 			res.Body = io.NopCloser(&responseBuf)
 			logger.Println("Decrypted Response:")
-- 
2.43.0


From af0ca8396851fad206f85f6fb5ce903fad7d8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 76/93] fix: refuse to generate a decoder without an elements
 method it understands

---
 generator/segment_field_visitor.go | 2 ++
 generator/segment_unmarshaler.go   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/generator/segment_field_visitor.go b/generator/segment_field_visitor.go
index 3fbed78..04fc764 100644
--- a/generator/segment_field_visitor.go
+++ b/generator/segment_field_visitor.go
@@ -14,6 +14,7 @@ type elementVisitor struct {
 	fileSet      *token.FileSet
 	object       *ast.Object
 	fields       []field
+	found        bool
 	err          error
 }
 
@@ -27,6 +28,7 @@ func (e *elementVisitor) Visit(node ast.Node) ast.Visitor {
 						if res, ok := ret.Results[0].(*ast.CompositeLit); ok {
 							resType := nodeToString(res.Type, e.fileSet)
 							if resType == segmentElementsMethodReturnType {
+								e.found = true
 								for _, element := range res.Elts {
 									if sel, ok := element.(*ast.SelectorExpr); ok {
 										pos := sel.Pos()
diff --git a/generator/segment_unmarshaler.go b/generator/segment_unmarshaler.go
index 6705912..e3038a7 100644
--- a/generator/segment_unmarshaler.go
+++ b/generator/segment_unmarshaler.go
@@ -184,6 +184,9 @@ func (f *fieldExtractor) extractFields() ([]field, error) {
 	if elemVisitor.err != nil {
 		return nil, elemVisitor.err
 	}
+	if !elemVisitor.found {
+		return nil, fmt.Errorf("no elements method of %q found that returns a list of its fields", f.segment.Name)
+	}
 
 	sortedFields := sortedFields(elemVisitor.fields)
 	sort.Sort(sortedFields)
-- 
2.43.0


From 88aa8bed77c5695287f0b253bcfb75b743aea3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 77/93] fix: stop generating a decoder from a file that does
 not parse

---
 cmd/unmarshaler/unmarshaler_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/unmarshaler/unmarshaler_generator.go b/cmd/unmarshaler/unmarshaler_generator.go
index f1bf8f9..52f7b54 100644
--- a/cmd/unmarshaler/unmarshaler_generator.go
+++ b/cmd/unmarshaler/unmarshaler_generator.go
@@ -37,6 +37,7 @@ func main() {
 	f, err := parser.ParseFile(fileSet, filename, nil, 0)
 	if err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 	segment := generator.SegmentIdentifier{
 		Name:          segmentName,
-- 
2.43.0


From 893c4c8a7b1d85c0d91a51a47d9ca6e2d2b7e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 78/93] fix: quote every value of the generated bank directory

---
 cmd/bankdata_parser/bankdata_parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/bankdata_parser/bankdata_parser.go b/cmd/bankdata_parser/bankdata_parser.go
index 684415f..696e699 100644
--- a/cmd/bankdata_parser/bankdata_parser.go
+++ b/cmd/bankdata_parser/bankdata_parser.go
@@ -81,14 +81,14 @@ package bankinfo
 
 var data = []BankInfo{
 	{{range $element := .}}{
-		BankID: "{{.BankID}}",
-		BIC: "{{.BIC}}",
-		VersionNumber: "{{.VersionNumber}}",
-		URL: "{{.URL}}",
-		VersionName: "{{.VersionName}}",
+		BankID: {{.BankID | printf "%q" }},
+		BIC: {{.BIC | printf "%q" }},
+		VersionNumber: {{.VersionNumber | printf "%q" }},
+		URL: {{.URL | printf "%q" }},
+		VersionName: {{.VersionName | printf "%q" }},
 		Institute: {{.Institute | printf "%q" }},
-		City: "{{.City}}",
-		LastChanged: "{{.LastChanged}}",
+		City: {{.City | printf "%q" }},
+		LastChanged: {{.LastChanged | printf "%q" }},
 	},
 	{{end}}
 }`
-- 
2.43.0


From fe4b1d04bf818fa3d7068cccfed87314f4556afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 79/93] fix: debug logging of one client no longer prints the
 messages of the others

---
 client/client.go         |  4 ++--
 dialog/dialog.go         | 14 ++++++++------
 dialog/pin_tan_dialog.go |  6 +++++-
 internal/logger.go       |  9 +++++++++
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/client/client.go b/client/client.go
index 8f37b14..9e6a780 100644
--- a/client/client.go
+++ b/client/client.go
@@ -8,7 +8,6 @@ import (
 	"github.com/mitch000001/go-hbci/dialog"
 	"github.com/mitch000001/go-hbci/domain"
 	"github.com/mitch000001/go-hbci/element"
-	"github.com/mitch000001/go-hbci/internal"
 	"github.com/mitch000001/go-hbci/message"
 	"github.com/mitch000001/go-hbci/segment"
 	"github.com/mitch000001/go-hbci/swift"
@@ -43,7 +42,6 @@ func (c Config) hbciVersion() (segment.HBCIVersion, error) {
 // If the provided Config does not provide a URL or a HBCI-Version it will be
 // looked up in the bankinfo database.
 func New(config Config) (*Client, error) {
-	internal.SetDebugMode(config.EnableDebugLogging)
 	bankID := domain.BankID{
 		CountryCode: 280,
 		ID:          config.BankID,
@@ -79,6 +77,8 @@ func New(config Config) (*Client, error) {
 		ProductName:    config.ProductName,
 		ProductVersion: config.ProductVersion,
 		Transport:      config.Transport,
+
+		EnableDebugLogging: config.EnableDebugLogging,
 	}
 
 	d := dialog.NewPinTanDialog(dcfg)
diff --git a/dialog/dialog.go b/dialog/dialog.go
index 620b063..feeff1f 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -57,6 +57,7 @@ func newDialog(
 		hbciVersion:       hbciVersion,
 		productName:       productName,
 		productVersion:    productVersion,
+		debug:             internal.Debug,
 	}
 }
 
@@ -80,6 +81,7 @@ type dialog struct {
 	productName       string
 	productVersion    string
 	supportedSegments []segment.VersionedSegment
+	debug             *log.Logger
 }
 
 func (d *dialog) UserParameterDataVersion() int {
@@ -190,7 +192,7 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
 		if ack.IsSuccess() {
-			internal.Debug.Printf("%v\n", ack)
+			d.debug.Printf("%v\n", ack)
 		}
 		if ack.IsWarning() {
 			internal.Info.Printf("%v\n", ack)
@@ -391,7 +393,7 @@ func (d *dialog) init() error {
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
 		if ack.IsSuccess() {
-			internal.Debug.Printf("%v\n", ack)
+			d.debug.Printf("%v\n", ack)
 		}
 		if ack.IsWarning() {
 			internal.Info.Printf("%v\n", ack)
@@ -603,9 +605,9 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 	if err != nil {
 		return nil, err
 	}
-	internal.Debug.Printf("Request:\n")
+	d.debug.Printf("Request:\n")
 	for _, seg := range bytes.Split(marshaledMessage, []byte("'")) {
-		internal.Debug.Printf("%q\n", seg)
+		d.debug.Printf("%q\n", seg)
 	}
 
 	reqBody := bytes.NewReader(marshaledMessage)
@@ -639,14 +641,14 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 		if err != nil {
 			return nil, fmt.Errorf("error while decrypting message: %v", err)
 		}
-		internal.Debug.Printf("Response:\n %s\n", decryptedMessage.MessageHeader())
+		d.debug.Printf("Response:\n %s\n", decryptedMessage.MessageHeader())
 		bankMessage = decryptedMessage
 	} else {
 		decryptedMessage, err := extractUnencryptedMessage(response)
 		if err != nil {
 			return nil, err
 		}
-		internal.Debug.Printf("Response:\n %s\n", decryptedMessage.MessageHeader())
+		d.debug.Printf("Response:\n %s\n", decryptedMessage.MessageHeader())
 		bankMessage = decryptedMessage
 	}
 
diff --git a/dialog/pin_tan_dialog.go b/dialog/pin_tan_dialog.go
index 617f9a2..6f23006 100644
--- a/dialog/pin_tan_dialog.go
+++ b/dialog/pin_tan_dialog.go
@@ -21,6 +21,9 @@ type Config struct {
 	ProductName    string
 	ProductVersion string
 	Transport      transport.Transport
+	// EnableDebugLogging logs the messages of this dialog, regardless of the
+	// global debug mode
+	EnableDebugLogging bool
 }
 
 // NewPinTanDialog creates a new dialog to use for pin/tan transport
@@ -41,6 +44,7 @@ func NewPinTanDialog(config Config) *PinTanDialog {
 			cryptoProvider,
 		),
 	}
+	d.debug = internal.DebugLogger(config.EnableDebugLogging)
 
 	var dialogTransport transport.Transport
 	if config.Transport == nil {
@@ -49,7 +53,7 @@ func NewPinTanDialog(config Config) *PinTanDialog {
 		dialogTransport = config.Transport
 	}
 	dialogTransport = middleware.Base64Encoding(base64.StdEncoding)(dialogTransport)
-	dialogTransport = middleware.Logging(internal.Debug, cryptoProvider)(dialogTransport)
+	dialogTransport = middleware.Logging(d.debug, cryptoProvider)(dialogTransport)
 	d.transport = dialogTransport
 	return d
 }
diff --git a/internal/logger.go b/internal/logger.go
index 736035a..260af6d 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -45,6 +45,15 @@ func WithDebugLogging(fn func()) {
 // Debug is a logger which logs when debugMode is enabled. If disabled, it executes a noop
 var Debug = newConditionalLogger(os.Stderr, "go-hbci: ", debugFlags, &debugMode)
 
+// DebugLogger returns a logger which always logs if enabled is true. Otherwise
+// it returns Debug.
+func DebugLogger(enabled bool) *log.Logger {
+	if enabled {
+		return log.New(os.Stderr, "go-hbci: ", debugFlags)
+	}
+	return Debug
+}
+
 // Info is a logger which logs when infoMode is enabled. If disabled, it executes a noop
 var Info = newConditionalLogger(os.Stderr, "go-hbci: ", log.LstdFlags, &infoMode)
 
-- 
2.43.0


From b40386ff211b185735c6bd1a62eef30784408d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 80/93] fix: wide cells of printed lists do not run together

---
 domain/account_balance.go     | 8 ++++----
 domain/account_information.go | 2 +-
 domain/account_transaction.go | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/domain/account_balance.go b/domain/account_balance.go
index a7459f0..7fbb788 100644
--- a/domain/account_balance.go
+++ b/domain/account_balance.go
@@ -42,7 +42,7 @@ func (ab AccountBalances) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	if containsEarmarkedBalances {
@@ -79,7 +79,7 @@ func (a AccountBalance) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(fmt.Sprintf("%.2f %s", a.BookedBalance.Amount.Amount, a.BookedBalance.Amount.Currency))
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -120,7 +120,7 @@ func (ab SepaAccountBalances) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	if containsEarmarkedBalances {
@@ -158,7 +158,7 @@ func (a SepaAccountBalance) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(fmt.Sprintf("%.2f %s", a.BookedBalance.Amount.Amount, a.BookedBalance.Amount.Currency))
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
diff --git a/domain/account_information.go b/domain/account_information.go
index ca7976a..15393c2 100644
--- a/domain/account_information.go
+++ b/domain/account_information.go
@@ -35,7 +35,7 @@ func (ai AccountInfos) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
diff --git a/domain/account_transaction.go b/domain/account_transaction.go
index c85862f..ae03b86 100644
--- a/domain/account_transaction.go
+++ b/domain/account_transaction.go
@@ -55,7 +55,7 @@ func (at AccountTransactions) String() string {
 		)
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -93,7 +93,7 @@ func (a AccountTransaction) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(a.Purpose)
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 0, 8, 0, '\t', 0)
+	tabw := tabwriter.NewWriter(&out, 0, 8, 1, '\t', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
-- 
2.43.0


From 343402aa64b4f9ae44698c22dd914a4c1bbaff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 81/93] fix: the command line tool does not overwrite a
 configuration file it cannot read

---
 cmd/banking/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/banking/root.go b/cmd/banking/root.go
index f79c629..d475069 100644
--- a/cmd/banking/root.go
+++ b/cmd/banking/root.go
@@ -137,6 +137,6 @@ func initConfig() {
 			fmt.Println(err)
 			os.Exit(1)
 		}
-		viper.WriteConfigAs(filepath.Join(home, ".banking.yaml"))
+		viper.SafeWriteConfigAs(filepath.Join(home, ".banking.yaml"))
 	}
 }
-- 
2.43.0


From ced38951ec62a1ed6edb716aff231248ee87bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 82/93] fix: keep the text of unstructured account owner
 information

A :86: field without subfields, as banks send with transaction code 999,
was read without its text. It is now the purpose of the transaction.
---
 swift/element.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swift/element.go b/swift/element.go
index e5aebeb..c1fdb42 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -170,6 +170,10 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		}
 	}
 	sort.Slice(fields, func(i, j int) bool { return fields[i].index < fields[j].index })
+	if len(fields) == 0 && len(marshaledFields) > 0 {
+		// The text is not structured, i.e. it has no fields
+		c.Purpose = []string{charset.ToUTF8(marshaledFields)}
+	}
 
 	getFieldValue := func(currentFieldKeyIndex, nextFieldKeyIndex int) string {
 		return charset.ToUTF8(
-- 
2.43.0


From cf603b40e885a769ae17124944270d16495e2f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 83/93] fix: apply RSA keys with Chinese remainder parameters

The intermediate results were nil, so that every use of such a key panicked.
---
 crypto/rsa.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crypto/rsa.go b/crypto/rsa.go
index 7efaba4..7c72ac5 100644
--- a/crypto/rsa.go
+++ b/crypto/rsa.go
@@ -190,21 +190,19 @@ func (r *RSACoreEngine) ProcessBlock(input *big.Int) *big.Int {
 		dQ := crtKey.DQ()
 		qInv := crtKey.QInv()
 
-		var mP, mQ, h, m *big.Int
-
 		// mP = ((input mod p) ^ dP)) mod p
-		mP = mP.Exp(new(big.Int).Rem(input, p), dP, p)
+		mP := new(big.Int).Exp(new(big.Int).Rem(input, p), dP, p)
 
 		// mQ = ((input mod q) ^ dQ)) mod q
-		mQ = mQ.Exp(new(big.Int).Rem(input, q), dQ, q)
+		mQ := new(big.Int).Exp(new(big.Int).Rem(input, q), dQ, q)
 
 		// h = qInv * (mP - mQ) mod p
-		h = h.Sub(mP, mQ)
+		h := new(big.Int).Sub(mP, mQ)
 		h = h.Mul(h, qInv)
 		h = h.Mod(h, p) // mod (in Java) returns the positive residual
 
 		// m = h * q + mQ
-		m = h.Mul(h, q)
+		m := h.Mul(h, q)
 		m = m.Add(m, mQ)
 
 		return m
-- 
2.43.0


From 2e4cc0184ec43ca58210399a4a78aab866c9d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 84/93] fix: convert an RSA block that is zero

The bytes of zero are empty and have no first one, the conversion panicked.
---
 crypto/rsa.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/rsa.go b/crypto/rsa.go
index 7c72ac5..796d56d 100644
--- a/crypto/rsa.go
+++ b/crypto/rsa.go
@@ -143,7 +143,7 @@ func (r *RSACoreEngine) ConvertInput(in []byte, inOff, inLen int) *big.Int {
 func (r *RSACoreEngine) ConvertOutput(result *big.Int) []byte {
 	output := result.Bytes()
 	if r.forEncryption {
-		if output[0] == 0 && len(output) > r.OutputBlockSize() {
+		if len(output) > r.OutputBlockSize() && output[0] == 0 {
 
 			// have ended up with an extra zero byte, copy down.
 			tmp := make([]byte, len(output)-1)
@@ -164,7 +164,7 @@ func (r *RSACoreEngine) ConvertOutput(result *big.Int) []byte {
 		}
 
 	} else {
-		if output[0] == 0 { // have ended up with an extra zero byte, copy down.
+		if len(output) > 0 && output[0] == 0 { // have ended up with an extra zero byte, copy down.
 			tmp := make([]byte, len(output)-1)
 
 			// System.arraycopy(output, 1, tmp, 0, tmp.length);
-- 
2.43.0


From 133e105cf174e9f9250cefe8864f0855cdf90491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 85/93] fix: read the message of an ISO 9796-1 signature

The redundancy was never looked at, so that every message came back with the
full length and any number ending in 6 counted as a signature. The complement of
a signature panicked.
---
 crypto/iso9796_encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/iso9796_encoding.go b/crypto/iso9796_encoding.go
index 9d20eb8..1a188a1 100644
--- a/crypto/iso9796_encoding.go
+++ b/crypto/iso9796_encoding.go
@@ -166,7 +166,7 @@ func (i *ISO9796d1Encoding) decodeBlock(in []byte, inOff, inLen int) ([]byte, er
 	if x = x.Mod(iS, sixteen); x.Cmp(six) == 0 {
 		iR = iS
 	} else if y = y.Mod(y.Sub(i.modulus, iS), sixteen); y.Cmp(six) == 0 {
-		iR = iR.Sub(i.modulus, iS)
+		iR = new(big.Int).Sub(i.modulus, iS)
 	} else {
 		return nil, fmt.Errorf("resulting integer iS or (modulus - iS) is not congruent to 6 mod 16")
 	}
@@ -183,7 +183,7 @@ func (i *ISO9796d1Encoding) decodeBlock(in []byte, inOff, inLen int) ([]byte, er
 	boundaryFound := false
 	boundary := 0
 
-	for i := len(block) - 1; i < len(block)-2*t; i -= 2 {
+	for i := len(block) - 1; i >= len(block)-2*t; i -= 2 {
 		val := ((shadows[(block[i]&0xff)>>4] << 4) | shadows[block[i]&0x0f])
 
 		if ((block[i-1] ^ val) & 0xff) != 0 {
-- 
2.43.0


From 367627e472fba914df352bf6b6dbe6fe8db10a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 86/93] fix: refuse an ISO 9796-1 signature of a number that is
 too short

ISO 9796-1 rejects it; its missing bytes made the recovery of the message panic.
---
 crypto/iso9796_encoding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypto/iso9796_encoding.go b/crypto/iso9796_encoding.go
index 1a188a1..f9bb477 100644
--- a/crypto/iso9796_encoding.go
+++ b/crypto/iso9796_encoding.go
@@ -171,6 +171,11 @@ func (i *ISO9796d1Encoding) decodeBlock(in []byte, inOff, inLen int) ([]byte, er
 		return nil, fmt.Errorf("resulting integer iS or (modulus - iS) is not congruent to 6 mod 16")
 	}
 
+	// the signed integer always has one bit less than the modulus
+	if iR.BitLen() != i.bitSize-1 {
+		return nil, fmt.Errorf("resulting integer has %d bits instead of %d", iR.BitLen(), i.bitSize-1)
+	}
+
 	block = i.convertOutputDecryptOnly(iR)
 
 	if (block[len(block)-1] & 0x0f) != 0x6 {
-- 
2.43.0


From 35598fe7f1abf57a9426285ddc7f1fcbba37ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 87/93] fix: an encryption key keeps its modulus and exponent

They were copied into slices without room, so that they were lost.
---
 domain/key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/key.go b/domain/key.go
index 696c712..c6e3eb2 100644
--- a/domain/key.go
+++ b/domain/key.go
@@ -195,8 +195,8 @@ func NewEncryptionKey(modulus, exponent []byte) *PublicKey {
 	p := &PublicKey{
 		Type: "V",
 	}
-	copy(p.Modulus, modulus)
-	copy(p.Exponent, exponent)
+	p.Modulus = append(p.Modulus, modulus...)
+	p.Exponent = append(p.Exponent, exponent...)
 	mod := new(big.Int).SetBytes(modulus)
 	exp := new(big.Int).SetBytes(exponent)
 	pubKey := rsa.PublicKey{
-- 
2.43.0


From b10d41be28e2c5d88fc4b55ee644807c62604aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 88/93] fix: refuse transactions with a malformed debit/credit
 mark

---
 swift/mt940.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 8f38b96..49424ef 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -254,10 +254,13 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 			if len(runes) > 1 && runes[0] == 'R' { // reversal: RC or RD
 				indicatorLength = 2
 			}
-			if len(runes) >= indicatorLength {
-				t.DebitCreditIndicator = string(runes[:indicatorLength])
-				t.CurrencyKind = string(runes[indicatorLength:])
+			// the currency kind is at most one letter
+			if len(runes) < indicatorLength || len(runes) > indicatorLength+1 ||
+				len(runes) > indicatorLength && !unicode.IsLetter(runes[indicatorLength]) {
+				return fmt.Errorf("MT940 Transaction tag: malformed debit/credit mark: %q", string(runes))
 			}
+			t.DebitCreditIndicator = string(runes[:indicatorLength])
+			t.CurrencyKind = string(runes[indicatorLength:])
 			break
 		}
 	}
-- 
2.43.0


From 0a790337a4c97eb8a084cc3f7d3c7214850e2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 89/93] fix: sign the bytes that are sent

---
 message/message.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index fc04b12..45c15e5 100644
--- a/message/message.go
+++ b/message/message.go
@@ -240,10 +240,18 @@ func (b *BasicMessage) Sign(provider SignatureProvider) (*BasicSignedMessage, er
 	b.SignatureEnd = b.hbciVersion.SignatureEnd()
 	b.SetSegmentPositions()
 	var buffer bytes.Buffer
-	buffer.WriteString(b.SignatureBegin.String())
+	sigBytes, err := b.SignatureBegin.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(sigBytes)
 	for _, segment := range b.HBCIMessage.HBCISegments() {
 		if !reflect.ValueOf(segment).IsNil() {
-			buffer.WriteString(segment.String())
+			segBytes, err := segment.MarshalHBCI()
+			if err != nil {
+				return nil, err
+			}
+			buffer.Write(segBytes)
 		}
 	}
 	sig, err := provider.Sign(buffer.Bytes())
-- 
2.43.0


From c59c2088c793229f972658c9811f80b9ba610415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 90/93] fix: refuse unknown reasons for revoking a key

---
 segment/key_management.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment/key_management.go b/segment/key_management.go
index 50acade..f5c4118 100644
--- a/segment/key_management.go
+++ b/segment/key_management.go
@@ -144,7 +144,7 @@ var validRevocationReasons = []string{
 }
 
 func NewPublicKeyRevocationSegment(number int, keyName domain.KeyName, reason string) *PublicKeyRevocationSegment {
-	if sort.SearchStrings(validRevocationReasons, reason) > len(validRevocationReasons) {
+	if i := sort.SearchStrings(validRevocationReasons, reason); i == len(validRevocationReasons) || validRevocationReasons[i] != reason {
 		panic(fmt.Errorf("Reason must be one of %v", validRevocationReasons))
 	}
 	p := &PublicKeyRevocationSegment{
@@ -193,7 +193,7 @@ func NewPublicKeyRevocationConfirmationSegment(dialogId string, number int, mess
 	if messageReference <= 0 {
 		panic(fmt.Errorf("Message Reference number must be greater 0"))
 	}
-	if sort.SearchStrings(validRevocationReasons, reason) > len(validRevocationReasons) {
+	if i := sort.SearchStrings(validRevocationReasons, reason); i == len(validRevocationReasons) || validRevocationReasons[i] != reason {
 		panic(fmt.Errorf("Reason must be one of %v", validRevocationReasons))
 	}
 	p := &PublicKeyRevocationConfirmationSegment{
-- 
2.43.0


From ca57b5ab4c781e052e02f00961a647a95f556a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 91/93] fix: fetch all balances of a national account

---
 client/client.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 9e6a780..8d2c806 100644
--- a/client/client.go
+++ b/client/client.go
@@ -251,6 +251,10 @@ func (c *Client) AccountInformation(account domain.AccountConnection, allAccount
 // If allAccounts is true it will fetch also the balances for all accounts
 // associated with the account.
 func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts bool) ([]domain.AccountBalance, error) {
+	return c.accountBalances(account, allAccounts, "")
+}
+
+func (c *Client) accountBalances(account domain.AccountConnection, allAccounts bool, continuationReference string) ([]domain.AccountBalance, error) {
 	if err := c.init(); err != nil {
 		return nil, err
 	}
@@ -259,6 +263,9 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if err != nil {
 		return nil, err
 	}
+	if continuationReference != "" {
+		accountBalanceRequest.SetContinuationMark(continuationReference)
+	}
 	decryptedMessage, err := c.pinTanDialog.SendMessage(
 		message.NewHBCIMessage(
 			c.hbciVersion,
@@ -281,7 +288,18 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if len(balanceResponses) == 0 {
 		return nil, fmt.Errorf("malformed response: expected HISAL segment")
 	}
-
+	newContinuationReference, err := continuationReferenceFrom(decryptedMessage)
+	if err != nil {
+		return nil, err
+	}
+	if newContinuationReference == "" {
+		return balances, nil
+	}
+	nextBal, err := c.accountBalances(account, allAccounts, newContinuationReference)
+	if err != nil {
+		return nil, err
+	}
+	balances = append(balances, nextBal...)
 	return balances, nil
 }
 
-- 
2.43.0


From d931a70804a01d5d6983d2e51a62b9a73c00e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 92/93] fix: keep the place of an absent amount when writing a
 limit

---
 element/data_element.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index 9e08d8c..66423c7 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -142,15 +142,20 @@ func (g *elementGroup) String() string {
 }
 
 func (g *elementGroup) MarshalHBCI() ([]byte, error) {
-	elementBytes := make([][]byte, len(g.elements()))
-	for i, e := range g.elements() {
+	var elementBytes [][]byte
+	for _, e := range g.elements() {
+		var marshaled []byte
 		if !reflect.ValueOf(e).IsNil() {
-			marshaled, err := e.MarshalHBCI()
+			var err error
+			marshaled, err = e.MarshalHBCI()
 			if err != nil {
 				return nil, err
 			}
-			elementBytes[i] = marshaled
+		} else if _, ok := e.(*AmountDataElement); ok {
+			// an amount takes two places, its value and its currency
+			elementBytes = append(elementBytes, nil)
 		}
+		elementBytes = append(elementBytes, marshaled)
 	}
 	// Only empty trailing elements are dropped. Cutting separators off the
 	// joined bytes would also cut off an escaped separator that is data.
-- 
2.43.0


From b603d92006e55f5fe8654a3f1f6eb6af0a1d42b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 93/93] fix: refuse statements with an unknown debit/credit
 mark

---
 swift/mt940.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swift/mt940.go b/swift/mt940.go
index 49424ef..2f42757 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -162,6 +162,9 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	b.Tag = string(elements[0])
 	buf := bytes.NewBuffer(elements[1])
 	b.DebitCreditIndicator = string(buf.Next(1))
+	if b.DebitCreditIndicator != "C" && b.DebitCreditIndicator != "D" {
+		return fmt.Errorf("MT940 Balance tag: unknown debit/credit mark: %q", b.DebitCreditIndicator)
+	}
 	dateBytes := buf.Next(6)
 	date, err := parseDate(dateBytes, time.Now().Year())
 	if err != nil {
@@ -260,6 +263,11 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 				return fmt.Errorf("MT940 Transaction tag: malformed debit/credit mark: %q", string(runes))
 			}
 			t.DebitCreditIndicator = string(runes[:indicatorLength])
+			switch t.DebitCreditIndicator {
+			case "C", "D", "RC", "RD":
+			default:
+				return fmt.Errorf("MT940 Transaction tag: unknown debit/credit mark: %q", t.DebitCreditIndicator)
+			}
 			t.CurrencyKind = string(runes[indicatorLength:])
 			break
 		}
-- 
2.43.0

