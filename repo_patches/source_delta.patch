From 60aacdcb2f5aabedd4637ed6c82e2b168d6abff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 01/64] fix: keep escaped separators at the end of the last
 value when marshaling

---
 element/data_element.go | 8 +++++---
 segment/segment.go      | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index d742ea0..1570527 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -151,9 +151,11 @@ func (g *elementGroup) MarshalHBCI() ([]byte, error) {
 			elementBytes[i] = marshaled
 		}
 	}
-	marshaled := bytes.Join(elementBytes, []byte(":"))
-	marshaled = bytes.TrimRight(marshaled, ":")
-	return marshaled, nil
+	// only empty elements may be omitted, a ':' that ends the last value belongs to it
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
+	return bytes.Join(elementBytes, []byte(":")), nil
 }
 
 func (g *elementGroup) UnmarshalHBCI(value []byte) error {
diff --git a/segment/segment.go b/segment/segment.go
index b814b55..5600462 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -110,8 +110,11 @@ func (s *segment) MarshalHBCI() ([]byte, error) {
 			elementBytes[i+1] = marshaled
 		}
 	}
+	// only empty elements may be omitted, a '+' that ends the last value belongs to it
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
 	marshaled := bytes.Join(elementBytes, []byte("+"))
-	marshaled = bytes.TrimRight(marshaled, "+")
 	marshaled = append(marshaled, '\'')
 	return marshaled, nil
 }
-- 
2.43.0


From 4986e427fa5a3718f1aef7a0d3463df7d12ae245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 02/64] fix: read amount and days of an allowed business
 transaction from their positions

---
 element/user_parameter_data.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index d8a89ba..7be78c9 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -158,15 +158,20 @@ func (a *AllowedBusinessTransactionDataElement) UnmarshalHBCI(value []byte) erro
 		}
 	}
 	if len(elements) > 3 && len(elements[3]) > 0 {
+		// the amount occupies two elements: value and currency
+		amount := elements[3:]
+		if len(amount) > 2 {
+			amount = amount[:2]
+		}
 		a.Amount = &AmountDataElement{}
-		err = a.Amount.UnmarshalHBCI(elements[3])
+		err = a.Amount.UnmarshalHBCI(bytes.Join(amount, []byte(":")))
 		if err != nil {
 			return err
 		}
 	}
-	if len(elements) > 4 && len(elements[4]) > 0 {
+	if len(elements) > 5 && len(elements[5]) > 0 {
 		a.Days = &NumberDataElement{}
-		err = a.Days.UnmarshalHBCI(elements[4])
+		err = a.Days.UnmarshalHBCI(elements[5])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 042d8bb4a316e72cb06664d000ffb5e950be7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 03/64] fix: decode account limits instead of calling an unset
 component

---
 element/user_parameter_data.go | 50 +++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index 7be78c9..7c0b841 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -35,11 +35,53 @@ type AccountLimitDataElement struct {
 
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
-	return domain.AccountLimit{
-		Kind:   a.Kind.Val(),
-		Amount: a.Amount.Val(),
-		Days:   a.Days.Val(),
+	limit := domain.AccountLimit{
+		Kind: a.Kind.Val(),
 	}
+	if a.Amount != nil {
+		limit.Amount = a.Amount.Val()
+	}
+	if a.Days != nil {
+		limit.Days = a.Days.Val()
+	}
+	return limit
+}
+
+// UnmarshalHBCI unmarshals value into a
+func (a *AccountLimitDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 1 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	a.DataElement = NewDataElementGroup(accountLimitDEG, 3, a)
+	a.Kind = &AlphaNumericDataElement{}
+	err = a.Kind.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	if len(elements) > 1 && len(elements[1]) > 0 {
+		// the amount occupies two elements: value and currency
+		amount := elements[1:]
+		if len(amount) > 2 {
+			amount = amount[:2]
+		}
+		a.Amount = &AmountDataElement{}
+		err = a.Amount.UnmarshalHBCI(bytes.Join(amount, []byte(":")))
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		a.Days = &NumberDataElement{}
+		err = a.Days.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // GroupDataElements returns the grouped DataElements
-- 
2.43.0


From 24cc6562e6d5684dcbc3e99cea8f48c42d890e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 04/64] fix: store decoded encryption algorithm and security
 profile in the receiver

---
 element/encryption.go       | 3 +--
 element/signature_fints3.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/element/encryption.go b/element/encryption.go
index 9b74f98..4e2c866 100644
--- a/element/encryption.go
+++ b/element/encryption.go
@@ -64,7 +64,6 @@ func (e *EncryptionAlgorithmDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (e *EncryptionAlgorithmDataElement) UnmarshalHBCI(value []byte) error {
-	e = &EncryptionAlgorithmDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
@@ -72,7 +71,7 @@ func (e *EncryptionAlgorithmDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) < 7 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 5, e)
+	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 7, e)
 	e.Usage = &AlphaNumericDataElement{}
 	err = e.Usage.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/element/signature_fints3.go b/element/signature_fints3.go
index 6684328..d925a60 100644
--- a/element/signature_fints3.go
+++ b/element/signature_fints3.go
@@ -22,7 +22,6 @@ type SecurityProfileDataElement struct {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
-	s = &SecurityProfileDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
@@ -30,7 +29,7 @@ func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) < 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	s.DataElement = NewDataElementGroup(securityProfileDEG, 5, s)
+	s.DataElement = NewDataElementGroup(securityProfileDEG, 2, s)
 	s.SecurityMethod = &AlphaNumericDataElement{}
 	err = s.SecurityMethod.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From 800041c6cc86da09049a7da1777e7db991fba853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 05/64] fix: accept encryption algorithms without
 initialization value

---
 element/encryption.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/encryption.go b/element/encryption.go
index 4e2c866..75df9b0 100644
--- a/element/encryption.go
+++ b/element/encryption.go
@@ -68,7 +68,7 @@ func (e *EncryptionAlgorithmDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) < 7 {
+	if len(elements) < 6 {
 		return fmt.Errorf("malformed marshaled value")
 	}
 	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 7, e)
-- 
2.43.0


From 586f1ebea168ab0101676779738749e51b523970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 06/64] fix: remove release characters and decode the charset
 of all text components

---
 element/acknowledgement.go          |  8 ++++----
 element/bank_parameter_data.go      |  2 +-
 element/data_element.go             |  5 +++++
 element/group_data_element_group.go |  8 ++++----
 element/message.go                  |  2 +-
 element/tan.go                      | 29 ++++++++++++++---------------
 6 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 107c771..2c628df 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -109,12 +109,12 @@ func (a *AcknowledgementDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed code", a)
 	}
 	acknowledgement.Code = code
-	acknowledgement.ReferenceDataElement = charset.ToUTF8(chunks[1])
-	acknowledgement.Text = charset.ToUTF8(chunks[2])
+	acknowledgement.ReferenceDataElement = decodeText(chunks[1])
+	acknowledgement.Text = decodeText(chunks[2])
 	if len(chunks) > 3 {
 		params := make([]string, len(chunks[3:]))
 		for i, chunk := range chunks[3:] {
-			params[i] = charset.ToUTF8(chunk)
+			params[i] = decodeText(chunk)
 		}
 		acknowledgement.Params = params
 	}
@@ -156,7 +156,7 @@ func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	dataElements := make([]DataElement, len(elements))
 	for i, elem := range elements {
-		dataElements[i] = NewAlphaNumeric(charset.ToUTF8(elem), 35)
+		dataElements[i] = NewAlphaNumeric(decodeText(elem), 35)
 	}
 	p.arrayElementGroup = newArrayElementGroup(acknowlegdementParamsGDEG, 10, 10, dataElements)
 	return nil
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 396292c..49afb8a 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -283,7 +283,7 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	p.SegmentID = NewAlphaNumeric(charset.ToUTF8(elements[0]), 6)
+	p.SegmentID = NewAlphaNumeric(decodeText(elements[0]), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
 	if err != nil {
diff --git a/element/data_element.go b/element/data_element.go
index 1570527..d3a5d81 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -232,6 +232,11 @@ func unescape(in string) string {
 	return replacer.Replace(in)
 }
 
+// decodeText returns the text that was written as value
+func decodeText(value []byte) string {
+	return unescape(charset.ToUTF8(value))
+}
+
 // NewAlphaNumeric returns a new AlphaNumeric DataElement
 func NewAlphaNumeric(val string, maxLength int) *AlphaNumericDataElement {
 	return &AlphaNumericDataElement{&basicDataElement{val, alphaNumericDE, maxLength, false}}
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 951a4dd..225ff06 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -115,7 +115,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	b.CountryCode = countryCode
-	b.BankID = NewAlphaNumeric(charset.ToUTF8(elements[1]), 30)
+	b.BankID = NewAlphaNumeric(decodeText(elements[1]), 30)
 	return nil
 }
 
@@ -164,10 +164,10 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed CountryCode: %q", a, elements[2])
 	}
 	accountConnection := domain.AccountConnection{
-		AccountID:                 charset.ToUTF8(elements[0]),
-		SubAccountCharacteristics: charset.ToUTF8(elements[1]),
+		AccountID:                 decodeText(elements[0]),
+		SubAccountCharacteristics: decodeText(elements[1]),
 		CountryCode:               countryCode,
-		BankID:                    charset.ToUTF8(elements[3]),
+		BankID:                    decodeText(elements[3]),
 	}
 	*a = *NewAccountConnection(accountConnection)
 	return nil
diff --git a/element/message.go b/element/message.go
index 7cce54a..f657759 100644
--- a/element/message.go
+++ b/element/message.go
@@ -50,7 +50,7 @@ func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	dialogID := charset.ToUTF8(elements[0])
+	dialogID := decodeText(elements[0])
 	num, err := strconv.Atoi(charset.ToUTF8(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Malformed message number: %v", r, err)
diff --git a/element/tan.go b/element/tan.go
index 9209400..83ef66c 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 
-	"github.com/mitch000001/go-hbci/charset"
 	"github.com/mitch000001/go-hbci/internal"
 	"gopkg.in/yaml.v3"
 )
@@ -93,7 +92,7 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	t.MoreThanOneObligatoryTanJobAllowed = moreThanOneObligatoryTanJobAllowed
-	t.JobHashMethod = NewCode(charset.ToUTF8(elements[2]), 1, []string{"0", "1", "2"})
+	t.JobHashMethod = NewCode(decodeText(elements[2]), 1, []string{"0", "1", "2"})
 	processParams := &Tan2StepSubmissionProcessParametersV6{}
 	err = processParams.UnmarshalHBCI(bytes.Join(elements[3:], []byte(":")))
 	if err != nil {
@@ -220,19 +219,19 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return err
 	}
 	iter := internal.NewIterator(elements)
-	t.SecurityFunction = NewCode(iter.NextString(), 3, nil)
-	t.TanProcess = NewCode(iter.NextString(), 1, []string{"1", "2"})
-	t.TechnicalIDTanProcess = NewIdentification(iter.NextString())
-	t.ZKATanProcess = NewAlphaNumeric(iter.NextString(), 32)
-	t.ZKATanProcessVersion = NewAlphaNumeric(iter.NextString(), 10)
-	t.TwoStepProcessName = NewAlphaNumeric(iter.NextString(), 30)
+	t.SecurityFunction = NewCode(decodeText(iter.Next()), 3, nil)
+	t.TanProcess = NewCode(decodeText(iter.Next()), 1, []string{"1", "2"})
+	t.TechnicalIDTanProcess = NewIdentification(decodeText(iter.Next()))
+	t.ZKATanProcess = NewAlphaNumeric(decodeText(iter.Next()), 32)
+	t.ZKATanProcessVersion = NewAlphaNumeric(decodeText(iter.Next()), 10)
+	t.TwoStepProcessName = NewAlphaNumeric(decodeText(iter.Next()), 30)
 	var twoStepProcessMaxInputValue NumberDataElement
 	if err := twoStepProcessMaxInputValue.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessMaxInputValue: %v", err)
 	}
 	t.TwoStepProcessMaxInputValue = &twoStepProcessMaxInputValue
-	t.TwoStepProcessAllowedFormat = NewCode(iter.NextString(), 1, nil)
-	t.TwoStepProcessReturnValueText = NewAlphaNumeric(iter.NextString(), 30)
+	t.TwoStepProcessAllowedFormat = NewCode(decodeText(iter.Next()), 1, nil)
+	t.TwoStepProcessReturnValueText = NewAlphaNumeric(decodeText(iter.Next()), 30)
 	var TwoStepProcessReturnValueTextMaxLength NumberDataElement
 	if err := TwoStepProcessReturnValueTextMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessReturnValueTextMaxLength: %v", err)
@@ -243,14 +242,14 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling MultiTANAllowed: %v", err)
 	}
 	t.MultiTANAllowed = &MultiTANAllowed
-	t.TanTimeAndDialogReference = NewCode(iter.NextString(), 1, nil)
+	t.TanTimeAndDialogReference = NewCode(decodeText(iter.Next()), 1, nil)
 	var JobCancellationAllowed BooleanDataElement
 	if err := JobCancellationAllowed.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling JobCancellationAllowed: %v", err)
 	}
 	t.JobCancellationAllowed = &JobCancellationAllowed
-	t.SMSAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
-	t.IssuerAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "2"})
+	t.SMSAccountRequired = NewCode(decodeText(iter.Next()), 1, []string{"0", "1", "2"})
+	t.IssuerAccountRequired = NewCode(decodeText(iter.Next()), 1, []string{"0", "2"})
 	var ChallengeClassRequired BooleanDataElement
 	if err := ChallengeClassRequired.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling ChallengeClassRequired: %v", err)
@@ -261,8 +260,8 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling ChallengeStructured: %v", err)
 	}
 	t.ChallengeStructured = &ChallengeStructured
-	t.InitializationMode = NewCode(iter.NextString(), -1, []string{"00", "01", "02"})
-	t.TanMediumDescriptionRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
+	t.InitializationMode = NewCode(decodeText(iter.Next()), -1, []string{"00", "01", "02"})
+	t.TanMediumDescriptionRequired = NewCode(decodeText(iter.Next()), 1, []string{"0", "1", "2"})
 	var HHD_UCResponseRequired BooleanDataElement
 	if err := HHD_UCResponseRequired.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling HHD_UCResponseRequired: %v", err)
-- 
2.43.0


From 7d3d0ba11936641f740c13f2dce9dfbf237cd09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 07/64] fix: decode communication parameters and certificates
 instead of calling an unset component

---
 element/communication_access.go | 54 ++++++++++++++++++++++++++++++++-
 element/signature.go            | 27 +++++++++++++++++
 2 files changed, 80 insertions(+), 1 deletion(-)

diff --git a/element/communication_access.go b/element/communication_access.go
index f7c755a..6785de7 100644
--- a/element/communication_access.go
+++ b/element/communication_access.go
@@ -1,6 +1,10 @@
 package element
 
-import "github.com/mitch000001/go-hbci/domain"
+import (
+	"fmt"
+
+	"github.com/mitch000001/go-hbci/domain"
+)
 
 // NewCommunicationParameter returns a new CommunicationParameterDataElement
 func NewCommunicationParameter(params domain.CommunicationParameter) *CommunicationParameterDataElement {
@@ -45,6 +49,54 @@ type CommunicationParameterDataElement struct {
 	FilterFunctionVersion *NumberDataElement
 }
 
+// UnmarshalHBCI unmarshals value into c
+func (c *CommunicationParameterDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) == 0 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(communicationParameterDEG, 5, c)
+	if len(elements) > 0 && len(elements[0]) > 0 {
+		c.Protocol = &NumberDataElement{}
+		err = c.Protocol.UnmarshalHBCI(elements[0])
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 1 && len(elements[1]) > 0 {
+		c.Address = &AlphaNumericDataElement{}
+		err = c.Address.UnmarshalHBCI(elements[1])
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 2 && len(elements[2]) > 0 {
+		c.AddressAddition = &AlphaNumericDataElement{}
+		err = c.AddressAddition.UnmarshalHBCI(elements[2])
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		c.FilterFunction = &AlphaNumericDataElement{}
+		err = c.FilterFunction.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		c.FilterFunctionVersion = &NumberDataElement{}
+		err = c.FilterFunctionVersion.UnmarshalHBCI(elements[4])
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // GroupDataElements returns the grouped DataElements
 func (c *CommunicationParameterDataElement) GroupDataElements() []DataElement {
 	return []DataElement{
diff --git a/element/signature.go b/element/signature.go
index b134dda..d776983 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -422,6 +422,33 @@ type CertificateDataElement struct {
 	Content         *BinaryDataElement
 }
 
+// UnmarshalHBCI unmarshals value into c
+func (c *CertificateDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) == 0 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(certificateDEG, 2, c)
+	if len(elements) > 0 && len(elements[0]) > 0 {
+		c.CertificateType = &NumberDataElement{}
+		err = c.CertificateType.UnmarshalHBCI(elements[0])
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 1 && len(elements[1]) > 0 {
+		c.Content = &BinaryDataElement{}
+		err = c.Content.UnmarshalHBCI(elements[1])
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // GroupDataElements returns the grouped DataElements
 func (c *CertificateDataElement) GroupDataElements() []DataElement {
 	return []DataElement{
-- 
2.43.0


From 7340550a167f522d2fa045154b8e9bc63c6c408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 08/64] fix: read back custom signatures, with or without a TAN

---
 element/pin.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/element/pin.go b/element/pin.go
index bd837e4..a601cf3 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -30,6 +30,12 @@ type CustomSignatureDataElement struct {
 	*PinTanDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CustomSignatureDataElement) UnmarshalHBCI(value []byte) error {
+	c.PinTanDataElement = &PinTanDataElement{}
+	return c.PinTanDataElement.UnmarshalHBCI(value)
+}
+
 // NewPinTan returns a new PinTanDataElement for pin and tan
 func NewPinTan(pin, tan string) *PinTanDataElement {
 	p := &PinTanDataElement{
@@ -64,10 +70,10 @@ func (p *PinTanDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) < 2 {
+	if len(elements) < 1 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	p.DataElement = NewDataElementGroup(securityIdentificationDEG, 3, p)
+	p.DataElement = NewDataElementGroup(pinTanDEG, 2, p)
 	if len(elements) > 0 && len(elements[0]) > 0 {
 		p.PIN = &AlphaNumericDataElement{}
 		err = p.PIN.UnmarshalHBCI(elements[0])
-- 
2.43.0


From 9d3d6b155d524fe01368117652ca905000a7c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 09/64] fix: declare the number of components the pin and tan
 parameter groups have

---
 element/pin.go | 2 +-
 element/tan.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/element/pin.go b/element/pin.go
index a601cf3..863b69e 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -150,6 +150,6 @@ func (t *PinTanSpecificParamDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("error unmarshaling JobSpecificPinTanInformation: %v", err)
 	}
 	t.JobSpecificPinTanInformation = &JobSpecificPinTanInformation
-	t.DataElement = NewGroupDataElementGroup(pinTanSpecificParamDataElementDEG, 2, t)
+	t.DataElement = NewGroupDataElementGroup(pinTanSpecificParamDataElementDEG, 6, t)
 	return nil
 }
diff --git a/element/tan.go b/element/tan.go
index 83ef66c..a49a1df 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -272,7 +272,7 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling SupportedActiveTanMedia: %v", err)
 	}
 	t.SupportedActiveTanMedia = &SupportedActiveTanMedia
-	t.DataElement = NewGroupDataElementGroup(pinTanBusinessTransactionParameterGDEG, 2, t)
+	t.DataElement = NewGroupDataElementGroup(tan2StepSubmissionProcessParameterDEG, 21, t)
 	return nil
 }
 
-- 
2.43.0


From 92205db43a8a4389d2b502fca81337d4d0bc0ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 10/64] fix: decode supported security and compression methods

---
 element/bank_parameter_data.go | 55 +++++++++++++++++++++++++++++++---
 element/data_element_type.go   |  2 ++
 2 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 49afb8a..f3985ba 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -44,8 +44,21 @@ func (s *SupportedSecurityMethodDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement
 func (s *SupportedSecurityMethodDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	s.DataElement = NewDataElementGroup(supportedSecurityMethodDEG, 2, s)
-	return s.DataElement.UnmarshalHBCI(value)
+	s.MethodCode = &AlphaNumericDataElement{}
+	err = s.MethodCode.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	s.Versions = &SecurityMethodVersionsDataElement{}
+	return s.Versions.UnmarshalHBCI(bytes.Join(elements[1:], []byte(":")))
 }
 
 // NewSecurityMethodVersions returns a new SecurityMethodVersionsDataElement
@@ -72,9 +85,24 @@ func (s *SecurityMethodVersionsDataElement) Elements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SecurityMethodVersionsDataElement
 func (s *SecurityMethodVersionsDataElement) UnmarshalHBCI(value []byte) error {
-	dataElements := make([]DataElement, 9)
-	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, dataElements)
-	return s.arrayElementGroup.UnmarshalHBCI(value)
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) == 0 || len(elements) > 9 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	versions := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		version := &NumberDataElement{}
+		err := version.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		versions[i] = version
+	}
+	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, versions)
+	return nil
 }
 
 // Versions returns the possible versions packaged in a slice of
@@ -186,6 +214,25 @@ type SupportedCompressionMethodsDataElement struct {
 	*arrayElementGroup
 }
 
+// UnmarshalHBCI unmarshals the value into the SupportedCompressionMethodsDataElement
+func (s *SupportedCompressionMethodsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	methods := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		method := &AlphaNumericDataElement{}
+		err := method.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		methods[i] = method
+	}
+	s.arrayElementGroup = newArrayElementGroup(supportedCompressionMethodsDEG, 0, 9, methods)
+	return nil
+}
+
 // A BusinessTransactionParameter defines parameters for a specific business
 // transaction.
 type BusinessTransactionParameter struct {
diff --git a/element/data_element_type.go b/element/data_element_type.go
index 4fb9f88..180c66c 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -65,6 +65,7 @@ const (
 	tan2StepSubmissionParameterDEG
 	tan2StepSubmissionProcessParameterDEG
 	pinTanSpecificParamDataElementDEG
+	supportedCompressionMethodsDEG
 )
 
 var typeName = map[DataElementType]string{
@@ -118,6 +119,7 @@ var typeName = map[DataElementType]string{
 	tan2StepSubmissionParameterDEG:        "Parameter Zwei-Schritt-TAN-Einreichung",
 	tan2StepSubmissionProcessParameterDEG: "Verfahrensparameter Zwei-Schritt-Verfahren",
 	pinTanSpecificParamDataElementDEG:     "Parameter PIN/TAN-spezifische Informationen",
+	supportedCompressionMethodsDEG:        "Unterstützte Kompressionsverfahren",
 }
 
 func (d DataElementType) String() string {
-- 
2.43.0


From 08640a1ee63679208c3151c1a9f11cad660818b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 11/64] fix: do not treat NUL bytes as the end of the input

---
 token/lexer.go       | 18 ++++++++++++++----
 token/swift_lexer.go | 10 +++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index dc63286..530f5c5 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -36,6 +36,7 @@ type Lexer struct {
 	state  LexerStateFn // the next lexing function to enter
 	pos    int          // current position in the input.
 	start  int          // start position of this item.
+	width  int          // width of the last byte read, 0 at the end of the input.
 	tokens chan Token   // channel of scanned tokens.
 }
 
@@ -49,6 +50,7 @@ func (l *Lexer) SetEntryPoint(entryPoint LexerStateFn) {
 func (l *Lexer) reset() {
 	l.pos = 0
 	l.start = 0
+	l.width = 0
 	l.tokens = make(chan Token, 2)
 }
 
@@ -93,9 +95,11 @@ func (l *Lexer) emit(t Type) {
 // next returns the next byte in the input.
 func (l *Lexer) next() byte {
 	if l.pos >= len(l.input) {
+		l.width = 0
 		return eof
 	}
 	b := l.input[l.pos]
+	l.width = 1
 	l.pos++
 	return b
 }
@@ -108,7 +112,13 @@ func (l *Lexer) ignore() {
 // backup steps back one byte.
 // Can be called only once per call of next.
 func (l *Lexer) backup() {
-	l.pos--
+	l.pos -= l.width
+}
+
+// atEOF returns true if the last call of next or peek hit the end of the
+// input. It distinguishes the end of the input from a NUL byte within it.
+func (l *Lexer) atEOF() bool {
+	return l.width == 0
 }
 
 // peek returns but does not consume
@@ -160,7 +170,7 @@ func lexStart(l *Lexer) LexerStateFn {
 	case r == binaryIdentifier:
 		l.backup()
 		return lexBinaryData
-	case r == eof:
+	case r == eof && l.atEOF():
 		// Correctly reached EOF.
 		l.emit(EOF)
 		return nil
@@ -194,7 +204,7 @@ func lexAlphaNumeric(l *Lexer) LexerStateFn {
 				l.emit(ALPHA_NUMERIC)
 			}
 			return lexStart
-		case r == eof:
+		case r == eof && l.atEOF():
 			return l.errorf("Unexpected end of input")
 		case (r == '\n' || r == '\r'):
 			text = true
@@ -225,7 +235,7 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 		l.emit(BINARY_DATA)
 		return lexStart
 	}
-	if p == eof {
+	if p == eof && l.atEOF() {
 		return l.errorf("Unexpected end of input")
 	}
 	return l.errorf("Expected syntax symbol after binary data")
diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 1dfa77f..7635429 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -60,7 +60,7 @@ func lexSwiftStart(l *Lexer) LexerStateFn {
 	case r == carriageReturn:
 		l.backup()
 		return lexSwiftSyntaxSymbol
-	case r == eof:
+	case r == eof && l.atEOF():
 		// Correctly reached EOF.
 		l.emit(EOF)
 		return nil
@@ -73,7 +73,7 @@ func lexSwiftSyntaxSymbol(l *Lexer) LexerStateFn {
 	if l.accept(carriageReturn) && l.accept(lineFeed) {
 		p := l.peek()
 		switch {
-		case p == eof:
+		case p == eof && l.atEOF():
 			return l.errorf(unexpectedEOF)
 		case p == dash:
 			l.next()
@@ -115,7 +115,7 @@ func lexSwiftAlpha(l *Lexer) LexerStateFn {
 		l.backup()
 		l.emit(SWIFT_ALPHA)
 		return lexSwiftStart
-	case r == eof:
+	case r == eof && l.atEOF():
 		return l.errorf(unexpectedEOF)
 	case isSwiftAlphaNumeric(r):
 		return lexSwiftAlphaNumeric
@@ -134,7 +134,7 @@ func lexSwiftCharacter(l *Lexer) LexerStateFn {
 		l.backup()
 		l.emit(SWIFT_CHARACTER)
 		return lexSwiftStart
-	case r == eof:
+	case r == eof && l.atEOF():
 		return l.errorf(unexpectedEOF)
 	case isSwiftAlphaNumeric(r):
 		return lexSwiftAlphaNumeric
@@ -154,7 +154,7 @@ func lexSwiftAlphaNumeric(l *Lexer) LexerStateFn {
 		}
 		l.next()
 		return lexSwiftAlphaNumeric
-	case r == eof:
+	case r == eof && l.atEOF():
 		return l.errorf(unexpectedEOF)
 	case isSwiftAlphaNumeric(r):
 		return lexSwiftAlphaNumeric
-- 
2.43.0


From 77d44e4f9e5dd11d7e9119fc2e7ddbc3ec8fa659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 12/64] fix: reject binary lengths beyond the end of the input

---
 token/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/lexer.go b/token/lexer.go
index 530f5c5..21d4572 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -229,6 +229,9 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 	if !l.accept('@') {
 		return l.errorf("Binary length must contain of digits only")
 	}
+	if length > len(l.input)-l.pos {
+		return l.errorf("Unexpected end of input")
+	}
 	l.pos += length
 	p := l.peek()
 	if isDelimiter(p) {
-- 
2.43.0


From 8b8616f4c80e635287f27cb1f987a7cbd9c82a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 13/64] fix: extract all components of groups that contain
 delimiters

---
 element/element_extractor.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 6b84032..3b7fe60 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -1,7 +1,6 @@
 package element
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/token"
@@ -15,14 +14,13 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
-	// TODO: workaround to get the lexer work properly for us. Maybe we should adopt the lexer?
-	if bytes.LastIndexFunc(dataElementGroup, func(r rune) bool {
-		return r == '+' || r == '\''
-	}) == -1 {
-		dataElementGroup = append(dataElementGroup, '+')
-	}
+	// The lexer needs a delimiter at the end of the input. It is added to a
+	// copy so that the bytes behind the slice of the caller stay untouched.
+	terminated := make([]byte, 0, len(dataElementGroup)+1)
+	terminated = append(terminated, dataElementGroup...)
+	terminated = append(terminated, '+')
 	return &groupExtractor{
-		rawDataElementGroup: dataElementGroup,
+		rawDataElementGroup: terminated,
 	}
 }
 
@@ -35,6 +33,7 @@ type groupExtractor struct {
 // Extract extracts DataElements from the underlying DataElementGroup
 func (e *groupExtractor) Extract() ([][]byte, error) {
 	var current []byte
+	terminated := false
 	lexer := token.NewLexer("ElementExtractor", e.rawDataElementGroup)
 	for lexer.HasNext() {
 		t := lexer.Next()
@@ -42,7 +41,12 @@ func (e *groupExtractor) Extract() ([][]byte, error) {
 		if currentType == token.ERROR {
 			return nil, fmt.Errorf("%T: SyntaxError at position %d: %q\n(%q)", e, t.Pos(), t.Value(), e.rawDataElementGroup)
 		}
-		if currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR || currentType == token.GROUP_DATA_ELEMENT_SEPARATOR {
+		if terminated && t.Pos() == len(e.rawDataElementGroup)-1 {
+			// the input already ended with a delimiter
+			break
+		}
+		terminated = currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR
+		if terminated || currentType == token.GROUP_DATA_ELEMENT_SEPARATOR {
 			e.elements = append(e.elements, current)
 			current = []byte{}
 		} else {
-- 
2.43.0


From ae539d4a2837f76f257b9d5a9f53d5728e19dcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 14/64] fix: split allowed business transactions at unescaped
 separators only

---
 element/element_extractor.go   | 11 ++++++++++-
 element/user_parameter_data.go |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 3b7fe60..6904e8a 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -12,6 +12,14 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 	return extractor.Extract()
 }
 
+// extractDataElements extracts the DataElements joined by data element
+// separators. DataElementGroups among them are returned as a whole.
+func extractDataElements(dataElements []byte) ([][]byte, error) {
+	extractor := newElementExtractor(dataElements)
+	extractor.keepGroups = true
+	return extractor.Extract()
+}
+
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
 	// The lexer needs a delimiter at the end of the input. It is added to a
@@ -28,6 +36,7 @@ func newElementExtractor(dataElementGroup []byte) *groupExtractor {
 type groupExtractor struct {
 	rawDataElementGroup []byte
 	elements            [][]byte
+	keepGroups          bool
 }
 
 // Extract extracts DataElements from the underlying DataElementGroup
@@ -46,7 +55,7 @@ func (e *groupExtractor) Extract() ([][]byte, error) {
 			break
 		}
 		terminated = currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR
-		if terminated || currentType == token.GROUP_DATA_ELEMENT_SEPARATOR {
+		if terminated || (currentType == token.GROUP_DATA_ELEMENT_SEPARATOR && !e.keepGroups) {
 			e.elements = append(e.elements, current)
 			current = []byte{}
 		} else {
diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index 7c0b841..9e450c7 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -114,7 +114,10 @@ type AllowedBusinessTransactionsDataElement struct {
 
 // UnmarshalHBCI unmarshals value into a
 func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) error {
-	elements := bytes.Split(value, []byte("+"))
+	elements, err := extractDataElements(value)
+	if err != nil {
+		return err
+	}
 	transactions := make([]DataElement, len(elements))
 	for i, elem := range elements {
 		tr := &AllowedBusinessTransactionDataElement{}
-- 
2.43.0


From 5baaa228e295bb8f96bf4d8001d5a135c2ef5430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 15/64] fix: report input that ends within a segment or tag,
 find segments by their exact id

---
 message/segment_extractor.go | 14 +++++++++-----
 segment/element_extractor.go |  3 +++
 swift/message_extractor.go   |  3 +++
 swift/tag_extractor.go       |  3 +++
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 387f845..9de07ed 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -23,6 +23,7 @@ type SegmentExtractor struct {
 // Extract extract segment byte slices from the message. It will return a copy
 // of the result so it is safe to manipulate it
 func (s *SegmentExtractor) Extract() ([][]byte, error) {
+	var segments [][]byte
 	var current []byte
 	lexer := token.NewLexer("SegmentExtractor", s.rawMessage)
 	for lexer.HasNext() {
@@ -32,13 +33,15 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 		}
 		current = append(current, t.Value()...)
 		if t.Type() == token.SEGMENT_END_MARKER {
-			s.segments = append(s.segments, current)
+			segments = append(segments, current)
 			current = []byte{}
 		}
 	}
-	result := make([][]byte, len(s.segments))
-	copy(result, s.segments)
-	return result, nil
+	if len(current) != 0 {
+		return nil, fmt.Errorf("%T: Unexpected end of input\n(%q)", s, s.rawMessage)
+	}
+	s.segments = segments
+	return s.Segments(), nil
 }
 
 // FindSegment searches for a given ID and returns the first appearing segment
@@ -46,7 +49,8 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 func (s *SegmentExtractor) FindSegment(id string) []byte {
 	byteID := []byte(id)
 	for _, segment := range s.segments {
-		if bytes.HasPrefix(segment, byteID) {
+		segmentID := bytes.SplitN(segment, []byte(":"), 2)[0]
+		if bytes.Equal(segmentID, byteID) {
 			return segment
 		}
 	}
diff --git a/segment/element_extractor.go b/segment/element_extractor.go
index 2073e1d..ebb2691 100644
--- a/segment/element_extractor.go
+++ b/segment/element_extractor.go
@@ -36,6 +36,9 @@ func (e *elementExtractor) Extract() ([][]byte, error) {
 			current = append(current, t.Value()...)
 		}
 	}
+	if len(current) != 0 {
+		return nil, fmt.Errorf("%T: Unexpected end of input\n(%q)", e, e.rawSegment)
+	}
 	result := make([][]byte, len(e.elements))
 	copy(result, e.elements)
 	return result, nil
diff --git a/swift/message_extractor.go b/swift/message_extractor.go
index ad9bf44..56cbbf7 100644
--- a/swift/message_extractor.go
+++ b/swift/message_extractor.go
@@ -37,6 +37,9 @@ func (m *MessageExtractor) Extract() ([][]byte, error) {
 			current = []byte{}
 		}
 	}
+	if len(current) != 0 {
+		return nil, fmt.Errorf("%T: Unexpected end of input\n(%q)", m, m.rawSwiftMessage)
+	}
 	result := make([][]byte, len(m.extractedMessages))
 	copy(result, m.extractedMessages)
 	return result, nil
diff --git a/swift/tag_extractor.go b/swift/tag_extractor.go
index e740f00..8dbf848 100644
--- a/swift/tag_extractor.go
+++ b/swift/tag_extractor.go
@@ -88,6 +88,9 @@ func (t *tagExtractor) Extract() ([][]byte, error) {
 			}
 		}
 	}
+	if len(current) != 0 {
+		return nil, fmt.Errorf("%T: Unexpected end of input\n(%q)", t, t.rawSwiftMessage)
+	}
 	result := make([][]byte, len(t.extractedTags))
 	copy(result, t.extractedTags)
 	return result, nil
-- 
2.43.0


From cf7f601def933fee47e392a2321be3a5709cd037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 16/64] fix: keep swift tag values together that continue on
 the next line

---
 token/swift_lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 7635429..1591365 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -92,7 +92,7 @@ func lexSwiftDigit(l *Lexer) LexerStateFn {
 	l.acceptRun(digits)
 	if l.accept(',') {
 		l.acceptRun(digits)
-		if p := l.peek(); p == carriageReturn {
+		if isTagBoundary(l) {
 			l.emit(SWIFT_DECIMAL)
 			return lexSwiftStart
 		}
@@ -113,6 +113,9 @@ func lexSwiftAlpha(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) {
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_ALPHA)
 		return lexSwiftStart
 	case r == eof && l.atEOF():
@@ -132,6 +135,9 @@ func lexSwiftCharacter(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) {
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_CHARACTER)
 		return lexSwiftStart
 	case r == eof && l.atEOF():
-- 
2.43.0


From 7c8cb9d98937fca75452e49e25df2371d5d8d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 17/64] fix: keep the selected security function when the pin
 is set again

---
 dialog/pin_tan_dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/pin_tan_dialog.go b/dialog/pin_tan_dialog.go
index 6bb3025..617f9a2 100644
--- a/dialog/pin_tan_dialog.go
+++ b/dialog/pin_tan_dialog.go
@@ -65,4 +65,7 @@ func (d *PinTanDialog) SetPin(pin string) {
 	d.signatureProvider = message.NewPinTanSignatureProvider(pinKey, d.ClientSystemID)
 	pinKey = domain.NewPinKey(pin, domain.NewPinTanKeyName(d.BankID, d.UserID, domain.KeyTypeEncryption))
 	d.cryptoProvider = message.NewPinTanCryptoProvider(pinKey, d.ClientSystemID)
+	if d.securityFn != "" {
+		d.SetSecurityFunction(d.securityFn)
+	}
 }
-- 
2.43.0


From f23efeb254550d1f11713bc48ecd06433c87fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 18/64] fix: start a synchronisation as a new dialog without
 client system id

---
 dialog/dialog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 241b276..6b1d125 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -155,6 +155,9 @@ func (d *dialog) SyncUserParameterData() error {
 }
 
 func (d *dialog) SyncClientSystemID() (string, error) {
+	d.dialogID = initialDialogID
+	d.messageCount = 0
+	d.SetClientSystemID(initialClientSystemID)
 	syncMessage := message.NewSynchronisationMessage(d.hbciVersion)
 	syncMessage.Identification = segment.NewIdentificationSegment(d.BankID, d.clientID, initialClientSystemID, true)
 	syncMessage.ProcessingPreparation = segment.NewProcessingPreparationSegmentV3(
@@ -167,7 +170,6 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	d.cryptoProvider.SetClientSystemID(initialClientSystemID)
 	encryptedSyncMessage, err := signedSyncMessage.Encrypt(d.cryptoProvider)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 896ab53a5e0c2b423c5a6d7a08217eee76325c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 19/64] fix: select the first supported security function the
 bank lists

---
 dialog/dialog.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 6b1d125..7219547 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -464,14 +464,9 @@ func (d *dialog) updateSecurityFunctionIfNeeded(message message.BankMessage) err
 		return fmt.Errorf("no supported security function implemented")
 	}
 	oldSecurityFn := d.securityFn
-	newSecurityFn := ""
-	newSecurityFnName := ""
 	// TODO: proper handling of each case, see FINTS3.0 docu -> Ask user which to use
-	for fn, name := range supportedSecurityFns {
-		newSecurityFn = fn
-		newSecurityFnName = name
-		break
-	}
+	newSecurityFn := supportedSecurityFns[0].SecurityFunction.Val()
+	newSecurityFnName := supportedSecurityFns[0].TwoStepProcessName.Val()
 	if oldSecurityFn != newSecurityFn {
 		internal.Info.Printf(
 			"New supported security function found. Setting new security function %q (%s).", newSecurityFnName, newSecurityFn,
@@ -495,7 +490,9 @@ func (d *dialog) hasSupportedSecurityAcknowledgement(message message.BankMessage
 	return false
 }
 
-func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) (map[string]string, bool) {
+// supportedSecurityFunctionsFromBankMessage returns the supported security
+// functions in the order in which the bank listed them
+func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) ([]*element.Tan2StepSubmissionProcessParameterV6, bool) {
 	acknowledgements := message.Acknowledgements()
 	var supportedSecurityFns []string
 	for _, ack := range acknowledgements {
@@ -507,7 +504,7 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	if len(supportedSecurityFns) == 0 {
 		return nil, false
 	}
-	securityFunctions := map[string]string{}
+	var securityFunctions []*element.Tan2StepSubmissionProcessParameterV6
 	rawSegment := message.FindSegment(segment.TanBankParameterID)
 	if rawSegment == nil {
 		return nil, false
@@ -520,7 +517,7 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	}
 	for _, sf := range supportedSecurityFns {
 		if pp, ok := availableSecurityFns[sf]; ok {
-			securityFunctions[sf] = pp.TwoStepProcessName.Val()
+			securityFunctions = append(securityFunctions, pp)
 		}
 	}
 	if len(securityFunctions) == 0 {
-- 
2.43.0


From 222cf7706c3cc8368c78ddc86caceec9aff4c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 20/64] fix: replace the known accounts by the ones a response
 lists

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7219547..1ba27b9 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -571,9 +571,13 @@ func (d *dialog) parseUserParameterData(bankMessage message.BankMessage) error {
 	}
 
 	accountData := bankMessage.FindSegments(segment.AccountInformationID)
+	accounts := make([]domain.AccountInformation, 0, len(accountData))
 	for _, acc := range accountData {
 		infoSegment := acc.(segment.AccountInformation)
-		d.Accounts = append(d.Accounts, infoSegment.Account())
+		accounts = append(accounts, infoSegment.Account())
+	}
+	if len(accounts) > 0 {
+		d.Accounts = accounts
 	}
 	return nil
 }
-- 
2.43.0


From 6182dc68bfa590a4b26c2561ce29c827ab306993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 21/64] fix: adopt parameter data of accepted dialogs only and
 end dialogs whose data cannot be adopted

---
 dialog/dialog.go | 72 +++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1ba27b9..3e024eb 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -280,22 +280,6 @@ func (d *dialog) anonymousInit() error {
 	}
 	d.dialogID = messageHeader.DialogID.Val()
 
-	err = d.parseBankParameterData(bankMessage)
-	if err != nil {
-		return err
-	}
-
-	err = d.parseUserParameterData(bankMessage)
-	if err != nil {
-		return err
-	}
-
-	bankInfoMessage := bankMessage.FindSegment(segment.BankAnnouncementID)
-	if bankInfoMessage != nil {
-		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
-		internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
-	}
-
 	errors := make([]string, 0)
 	acknowledgements := bankMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
@@ -309,6 +293,13 @@ func (d *dialog) anonymousInit() error {
 	if len(errors) > 0 {
 		return fmt.Errorf("DialogEnd: Institute returned errors:\n%s", strings.Join(errors, "\n"))
 	}
+
+	err = d.adoptParameterData(bankMessage)
+	if err != nil {
+		// the bank already opened the dialog
+		logErr(d.anonymousEnd())
+		return err
+	}
 	return nil
 }
 
@@ -372,22 +363,6 @@ func (d *dialog) init() error {
 	}
 	d.dialogID = messageHeader.DialogID.Val()
 
-	err = d.parseBankParameterData(decryptedMessage)
-	if err != nil {
-		return err
-	}
-
-	err = d.parseUserParameterData(decryptedMessage)
-	if err != nil {
-		return err
-	}
-
-	bankInfoMessage := decryptedMessage.FindSegment(segment.BankAnnouncementID)
-	if bankInfoMessage != nil {
-		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
-		internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
-	}
-
 	var errors []string
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
@@ -405,10 +380,39 @@ func (d *dialog) init() error {
 		return fmt.Errorf("DialogEnd: Institute returned errors:\n%s", strings.Join(errors, "\n"))
 	}
 
-	if err := d.updateSecurityFunctionIfNeeded(decryptedMessage); err != nil {
-		return fmt.Errorf("error updating security function: %w", err)
+	err = d.adoptParameterData(decryptedMessage)
+	if err == nil {
+		err = d.updateSecurityFunctionIfNeeded(decryptedMessage)
+		if err != nil {
+			err = fmt.Errorf("error updating security function: %w", err)
+		}
 	}
+	if err != nil {
+		// the bank already opened the dialog
+		logErr(d.end())
+		return err
+	}
+
+	return nil
+}
 
+// adoptParameterData takes over the parameter data of an accepted response
+func (d *dialog) adoptParameterData(bankMessage message.BankMessage) error {
+	err := d.parseBankParameterData(bankMessage)
+	if err != nil {
+		return err
+	}
+
+	err = d.parseUserParameterData(bankMessage)
+	if err != nil {
+		return err
+	}
+
+	bankInfoMessage := bankMessage.FindSegment(segment.BankAnnouncementID)
+	if bankInfoMessage != nil {
+		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
+		internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
+	}
 	return nil
 }
 
-- 
2.43.0


From a93f21b0b5d5a19fe22de4168cec6f498b73e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 22/64] fix: build SEPA account transaction requests in version
 7

---
 segment/account_transaction.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index 40f7eba..a90c5f4 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -29,9 +29,6 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
-		if version > 6 {
-			continue
-		}
 		switch version {
 		case 7:
 			return NewAccountTransactionRequestSegmentV7, nil
-- 
2.43.0


From aea559bc237b877c7a9cfd7cf522119185a71276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 23/64] fix: build status protocol requests in the version
 announced by the parameter segment

---
 segment/hbci_version.go    | 2 +-
 segment/status_protocol.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/segment/hbci_version.go b/segment/hbci_version.go
index e70a580..53a41f7 100644
--- a/segment/hbci_version.go
+++ b/segment/hbci_version.go
@@ -104,7 +104,7 @@ func (b *builder) SepaAccountTransactionRequest(account domain.InternationalAcco
 	return request(account, allAccounts), nil
 }
 func (b *builder) StatusProtocolRequest(from, to time.Time, maxEntries int, continuationReference string) (StatusProtocolRequest, error) {
-	versions, ok := b.supportedSegments["HIPRO"]
+	versions, ok := b.supportedSegments["HIPROS"]
 	if !ok {
 		return nil, fmt.Errorf("Segment %s not supported", "HKPRO")
 	}
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index f3ac229..d90e198 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -14,9 +14,9 @@ func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxE
 	for _, version := range versions {
 		switch version {
 		case 4:
-			return NewStatusProtocolRequestV3, nil
-		case 3:
 			return NewStatusProtocolRequestV4, nil
+		case 3:
+			return NewStatusProtocolRequestV3, nil
 		default:
 			continue
 		}
-- 
2.43.0


From 525eb3e6b2f838a22ce03f20a3f2113c0af42266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 24/64] fix: combine date and time of status acknowledgements

---
 segment/status_protocol.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index d90e198..2c730b4 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -109,6 +109,20 @@ type StatusProtocolResponseSegment struct {
 	StatusProtocolResponse
 }
 
+// transmissionTime combines the date with the optional time of day
+func transmissionTime(date *element.DateDataElement, timeOfDay *element.TimeDataElement) time.Time {
+	if date == nil {
+		return time.Time{}
+	}
+	transmittedAt := date.Val()
+	if timeOfDay == nil {
+		return transmittedAt
+	}
+	hour, min, sec := timeOfDay.Val().Clock()
+	year, month, day := transmittedAt.Date()
+	return time.Date(year, month, day, hour, min, sec, 0, transmittedAt.Location())
+}
+
 type StatusProtocolResponseSegmentV3 struct {
 	Segment
 	ReferencingMessage *element.ReferencingMessageDataElement
@@ -144,7 +158,7 @@ func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   transmissionTime(s.Date, s.Time),
 	}
 	return status
 }
@@ -184,7 +198,7 @@ func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   transmissionTime(s.Date, s.Time),
 	}
 	return status
 }
-- 
2.43.0


From f607b64cb3538f6b1ffd5e9f40e9534e092c5f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 25/64] fix: consider every message acknowledgement segment of
 a response

---
 message/decryption.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/message/decryption.go b/message/decryption.go
index d69f7fb..e0c9d48 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -16,10 +16,11 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 		return nil, fmt.Errorf("Malformed decrypted message bytes: %v", err)
 	}
 	var acknowledgements []domain.Acknowledgement
-	messageAcknowledgement, ok := unmarshaler.SegmentByID("HIRMG").(*segment.MessageAcknowledgement)
-	if ok {
-		messageAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
-		acknowledgements = append(acknowledgements, messageAcknowledgement.Acknowledgements()...)
+	for _, seg := range unmarshaler.SegmentsByID("HIRMG") {
+		if messageAcknowledgement, ok := seg.(*segment.MessageAcknowledgement); ok {
+			messageAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
+			acknowledgements = append(acknowledgements, messageAcknowledgement.Acknowledgements()...)
+		}
 	}
 	for _, seg := range unmarshaler.SegmentsByID("HIRMS") {
 		if segmentAcknowledgement, ok := seg.(*segment.SegmentAcknowledgement); ok {
-- 
2.43.0


From f50613830701d8eac05261e7b626160af70e7551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 26/64] fix: do not skip a message number when signing or
 encrypting fails

---
 dialog/dialog.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 3e024eb..d67338c 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -596,6 +596,8 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 		internal.Debug.Printf("%q\n", seg)
 	}
 
+	// a number is used up only by a message that is handed to the transport
+	d.messageCount++
 	reqBody := bytes.NewReader(marshaledMessage)
 
 	request := &transport.Request{
@@ -685,8 +687,7 @@ func extractUnencryptedMessage(response *transport.Response) (message.BankMessag
 }
 
 func (d *dialog) nextMessageNumber() int {
-	d.messageCount++
-	return d.messageCount
+	return d.messageCount + 1
 }
 
 func (d *dialog) dial(message []byte) ([]byte, error) {
-- 
2.43.0


From 62ad2c07bf98ad01936c01602fcf81ced55291d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 27/64] fix: join account statements in the order the bank
 delivered them

---
 client/client.go   |  2 +-
 swift/unmarshal.go | 56 +++++++++-------------------------------------
 2 files changed, 11 insertions(+), 47 deletions(-)

diff --git a/client/client.go b/client/client.go
index 658935a..27c49b6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -211,7 +211,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	if err != nil {
 		return nil, err
 	}
-	return swift.MergeMT940Messages(msg, tx), err
+	return swift.MergeMT940Messages(tx, msg), nil
 }
 
 // AccountInformation will print all information attached to the provided
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index e81efd8..8aee12b 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -2,67 +2,31 @@ package swift
 
 import (
 	"fmt"
-	"sort"
 	"strings"
-	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
 )
 
 func NewMT940Messages(data []byte) *MT940Messages {
 	return &MT940Messages{
-		Data:      data,
-		timestamp: time.Now().UnixNano(),
+		Data: data,
 	}
 }
 
 type MT940Messages struct {
-	Data      []byte
-	timestamp int64
+	Data []byte
 }
 
+// MergeMT940Messages joins the provided messages in the given order
 func MergeMT940Messages(messages ...*MT940Messages) *MT940Messages {
-	sortedMessages := sortedByTimestamp(messages)
-	sort.Sort(sortedMessages)
-	merged := &MT940Messages{
-		Data:      []byte{},
-		timestamp: time.Now().UnixNano(),
-	}
-	for _, msg := range sortedMessages {
-		merged.Data = append(merged.Data, msg.Data...)
+	data := []byte{}
+	for _, msg := range messages {
+		if msg == nil {
+			continue
+		}
+		data = append(data, msg.Data...)
 	}
-	return merged
-}
-
-type sortedByTimestamp []*MT940Messages
-
-// Len is the number of elements in the collection.
-func (s sortedByTimestamp) Len() int {
-	return len(s)
-}
-
-// Less reports whether the element with index i
-// must sort before the element with index j.
-//
-// If both Less(i, j) and Less(j, i) are false,
-// then the elements at index i and j are considered equal.
-// Sort may place equal elements in any order in the final result,
-// while Stable preserves the original input order of equal elements.
-//
-// Less must describe a transitive ordering:
-//  - if both Less(i, j) and Less(j, k) are true, then Less(i, k) must be true as well.
-//  - if both Less(i, j) and Less(j, k) are false, then Less(i, k) must be false as well.
-//
-// Note that floating-point comparison (the < operator on float32 or float64 values)
-// is not a transitive ordering when not-a-number (NaN) values are involved.
-// See Float64Slice.Less for a correct implementation for floating-point values.
-func (s sortedByTimestamp) Less(i int, j int) bool {
-	return s[i].timestamp < s[j].timestamp
-}
-
-// Swap swaps the elements with indexes i and j.
-func (s sortedByTimestamp) Swap(i int, j int) {
-	s[i], s[j] = s[j], s[i]
+	return NewMT940Messages(data)
 }
 
 type MT940Unmarshaler interface {
-- 
2.43.0


From 84c39b69c5f5b83699dde66dc1ba4632c2bdbe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 28/64] fix: do not crash on continuation notices without
 reference

---
 client/client.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/client/client.go b/client/client.go
index 27c49b6..37b1944 100644
--- a/client/client.go
+++ b/client/client.go
@@ -195,14 +195,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 		}
 		bookedSwiftTransactions = append(bookedSwiftTransactions, seg.BookedSwiftTransactions())
 	}
-	var newContinuationReference string
-	acknowledgements := decryptedMessage.Acknowledgements()
-	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
-			newContinuationReference = ack.Params[0]
-			break
-		}
-	}
+	newContinuationReference := continuationReferenceFrom(decryptedMessage)
 	tx := swift.MergeMT940Messages(bookedSwiftTransactions...)
 	if newContinuationReference == "" {
 		return tx, nil
@@ -214,6 +207,17 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	return swift.MergeMT940Messages(tx, msg), nil
 }
 
+// continuationReferenceFrom returns the reference the institute expects for
+// fetching the remaining data, or an empty string if there are none
+func continuationReferenceFrom(bankMessage message.BankMessage) string {
+	for _, ack := range bankMessage.Acknowledgements() {
+		if ack.Code == element.AcknowledgementAdditionalInformation && len(ack.Params) > 0 {
+			return ack.Params[0]
+		}
+	}
+	return ""
+}
+
 // AccountInformation will print all information attached to the provided
 // account. If allAccounts is true it will fetch also the information
 // associated with the account.
@@ -315,14 +319,7 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 	if len(balanceResponses) == 0 {
 		return nil, fmt.Errorf("malformed response: expected HISAL segment")
 	}
-	var newContinuationReference string
-	acknowledgements := decryptedMessage.Acknowledgements()
-	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
-			newContinuationReference = ack.Params[0]
-			break
-		}
-	}
+	newContinuationReference := continuationReferenceFrom(decryptedMessage)
 	if newContinuationReference == "" {
 		return balances, nil
 	}
-- 
2.43.0


From 1b384c09d99c6fba509d660075c1d170b59a190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 29/64] fix: fetch all pages of account balances

---
 client/client.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 37b1944..b69b059 100644
--- a/client/client.go
+++ b/client/client.go
@@ -247,11 +247,18 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if err := c.init(); err != nil {
 		return nil, err
 	}
+	return c.accountBalances(account, allAccounts, "")
+}
+
+func (c *Client) accountBalances(account domain.AccountConnection, allAccounts bool, continuationReference string) ([]domain.AccountBalance, error) {
 	builder := segment.NewBuilder(c.pinTanDialog.SupportedSegments())
 	accountBalanceRequest, err := builder.AccountBalanceRequest(account, allAccounts)
 	if err != nil {
 		return nil, err
 	}
+	if continuationReference != "" {
+		accountBalanceRequest.SetContinuationMark(continuationReference)
+	}
 	decryptedMessage, err := c.pinTanDialog.SendMessage(
 		message.NewHBCIMessage(
 			c.hbciVersion,
@@ -274,8 +281,15 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if len(balanceResponses) == 0 {
 		return nil, fmt.Errorf("malformed response: expected HISAL segment")
 	}
-
-	return balances, nil
+	newContinuationReference := continuationReferenceFrom(decryptedMessage)
+	if newContinuationReference == "" {
+		return balances, nil
+	}
+	nextBalances, err := c.accountBalances(account, allAccounts, newContinuationReference)
+	if err != nil {
+		return nil, err
+	}
+	return append(balances, nextBalances...), nil
 }
 
 // AccountBalances retrieves the balance for the provided account.
-- 
2.43.0


From d4e83b01bad90768ea1536d3021808ac48dc3e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 30/64] fix: report unexpected status segments instead of
 crashing

---
 client/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index b69b059..e6b2ece 100644
--- a/client/client.go
+++ b/client/client.go
@@ -366,7 +366,10 @@ func (c *Client) Status(from, to time.Time, maxEntries int, continuationReferenc
 	var statusAcknowledgements []domain.StatusAcknowledgement
 	statusResponses := bankMessage.FindSegments("HIPRO")
 	for _, seg := range statusResponses {
-		statusResponse := seg.(segment.StatusProtocolResponse)
+		statusResponse, ok := seg.(segment.StatusProtocolResponse)
+		if !ok {
+			return nil, fmt.Errorf("malformed segment found with ID `HIPRO`")
+		}
 		statusAcknowledgements = append(statusAcknowledgements, statusResponse.Status())
 	}
 	return statusAcknowledgements, nil
-- 
2.43.0


From f2c466e640215a6d682b83b2e27ea56dbff6523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 31/64] fix: keep modulus and exponent of encryption keys

---
 domain/key.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/key.go b/domain/key.go
index 696c712..94dfaa2 100644
--- a/domain/key.go
+++ b/domain/key.go
@@ -193,10 +193,10 @@ func (r *RSAKey) CanEncrypt() bool {
 // NewEncryptionKey creates a new RSA encryption key
 func NewEncryptionKey(modulus, exponent []byte) *PublicKey {
 	p := &PublicKey{
-		Type: "V",
+		Type:     "V",
+		Modulus:  append([]byte{}, modulus...),
+		Exponent: append([]byte{}, exponent...),
 	}
-	copy(p.Modulus, modulus)
-	copy(p.Exponent, exponent)
 	mod := new(big.Int).SetBytes(modulus)
 	exp := new(big.Int).SetBytes(exponent)
 	pubKey := rsa.PublicKey{
-- 
2.43.0


From d94f4b2d1851f24337c35a03296f038096907e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 32/64] fix: too short IBANs are rejected instead of crashing

---
 iban/iban.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iban/iban.go b/iban/iban.go
index 8a6db5c..09ecf30 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -11,6 +11,9 @@ const countryDE = "DE"
 const germanAccountIDLength = 10
 const maxAllowedIBANLength = 34
 
+// country code, proof number and at least one character of the BBAN
+const minIBANLength = 5
+
 // IsValid validates the IBAN for its proof number
 func IsValid(input string) bool {
 	iban, err := From(input)
@@ -69,6 +72,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 // From creates an IBAN from the provided input. If the input is not a valid IBAN, it
 // returns an error.
 func From(input string) (IBAN, error) {
+	if len(input) < minIBANLength {
+		return "", fmt.Errorf("malformed IBAN: must have at least %d characters", minIBANLength)
+	}
 	countryCode := input[:2]
 	proofNumber := input[2:4]
 	bban := input[4:]
@@ -115,7 +121,7 @@ func (i IBAN) ProofNumber() string {
 
 // Valid returns true if the IBAN is valid, false otherwise
 func (i IBAN) Valid() bool {
-	if len(i) > maxAllowedIBANLength {
+	if len(i) < minIBANLength || len(i) > maxAllowedIBANLength {
 		return false
 	}
 	countryCode := i.CountryCode()
-- 
2.43.0


From a6cd5263ce28a3393bdda20a98ae4438fc34b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 33/64] fix: IBANs with characters other than letters and
 digits are rejected

---
 iban/iban.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index 09ecf30..4c74849 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -56,6 +56,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	}
 
 	BBAN = strings.ToUpper(BBAN)
+	if !consistsOf(countryCode, letters) || !consistsOf(BBAN, digits+letters) {
+		return "", fmt.Errorf("malformed IBAN: invalid characters")
+	}
 
 	step1 := fmt.Sprintf("%s%s00", transformLettersToDigits(BBAN), transformLettersToDigits(countryCode))
 	step2, ok := new(big.Int).SetString(step1, 10)
@@ -128,6 +131,9 @@ func (i IBAN) Valid() bool {
 	countryCode = strings.ToUpper(countryCode)
 	bban := i.BBAN()
 	bban = strings.ToUpper(bban)
+	if !consistsOf(countryCode, letters) || !consistsOf(i.ProofNumber(), digits) || !consistsOf(bban, digits+letters) {
+		return false
+	}
 
 	digitCountryCode := transformLettersToDigits(countryCode)
 	digitBBAN := transformLettersToDigits(bban)
@@ -160,13 +166,23 @@ func Print(iban IBAN) string {
 	return strings.TrimSpace(out.String())
 }
 
-func transformLettersToDigits(letters string) string {
+const (
+	digits  = "0123456789"
+	letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
+)
+
+// consistsOf reports whether input contains only characters of the alphabet
+func consistsOf(input, alphabet string) bool {
+	return strings.Trim(input, alphabet) == ""
+}
+
+func transformLettersToDigits(input string) string {
 	var replaced []string
 	for k, v := range alphaToDigit {
 		replaced = append(replaced, k)
 		replaced = append(replaced, v)
 	}
-	return strings.NewReplacer(replaced...).Replace(letters)
+	return strings.NewReplacer(replaced...).Replace(input)
 }
 
 var alphaToDigit = map[string]string{
-- 
2.43.0


From 59ce6b62149f00e6c85a2fe7513bee494aacb245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 34/64] fix: IBANs that are too short for their country are
 rejected

---
 iban/iban.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index 4c74849..b78da11 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -28,8 +28,8 @@ func IsValid(input string) bool {
 // It returns only valid german IBANs, as it is hard coded to use german
 // settings.
 func NewGerman(bankID, accountID string) (IBAN, error) {
-	if len(accountID) == (germanAccountIDLength - 1) {
-		accountID = "0" + accountID
+	if len(accountID) < germanAccountIDLength {
+		accountID = strings.Repeat("0", germanAccountIDLength-len(accountID)) + accountID
 	}
 
 	bban := fmt.Sprintf("%s%s", bankID, accountID)
@@ -44,8 +44,8 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	}
 	countryCode = strings.ToUpper(countryCode)
 
-	ibanLen, ok := ibanMaxLengthForCountry[countryCode]
-	if !ok {
+	ibanLen, known := ibanMaxLengthForCountry[countryCode]
+	if !known {
 		ibanLen = maxAllowedIBANLength
 	}
 	if len(BBAN) == 0 {
@@ -54,6 +54,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	if len(BBAN) > (ibanLen - 4) {
 		return "", fmt.Errorf("malformed BBAN: must have at max %d characters", ibanLen)
 	}
+	if known && len(BBAN) < (ibanLen-4) {
+		return "", fmt.Errorf("malformed BBAN: must have %d characters", ibanLen-4)
+	}
 
 	BBAN = strings.ToUpper(BBAN)
 	if !consistsOf(countryCode, letters) || !consistsOf(BBAN, digits+letters) {
-- 
2.43.0


From 7f484d805cd31cc84a3033dd501d78ae0546843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 35/64] fix: reading parts of a short IBAN does not crash

---
 iban/iban.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index b78da11..4702a6e 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -100,29 +100,41 @@ type IBAN string
 
 // BBAN returns the BBAN, that is, the bank account identifier
 func (i IBAN) BBAN() string {
-	return string(i[4:])
+	return i.part(4, len(i))
 }
 
 // BankID returns the parts of the IBAN which refer to the bank institute ID
 func (i IBAN) BankID() string {
-	return string(i[4:12])
+	return i.part(4, 12)
 }
 
 // AccountID returns the parts of the IBAN which refer to the AccountID
 func (i IBAN) AccountID() string {
-	accountID := string(i[12:])
+	accountID := i.part(12, len(i))
 	return strings.TrimLeft(accountID, "0")
 }
 
 // CountryCode returns the country code used by the IBAN.
 // The country code is defined by ISO 3166-1 alpha-2
 func (i IBAN) CountryCode() string {
-	return string(i[:2])
+	return i.part(0, 2)
 }
 
 // ProofNumber returns the used number to make a sanity check whether the IBAN is valid or not.
 func (i IBAN) ProofNumber() string {
-	return string(i[2:4])
+	return i.part(2, 4)
+}
+
+// part returns the characters of the IBAN from start up to, but not including,
+// end, as far as they are present
+func (i IBAN) part(start, end int) string {
+	if end > len(i) {
+		end = len(i)
+	}
+	if start > end {
+		return ""
+	}
+	return string(i[start:end])
 }
 
 // Valid returns true if the IBAN is valid, false otherwise
-- 
2.43.0


From e3f1aaa4be82c8bc01ad8c2ebf54a3d6f4df026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 36/64] fix: IBAN characters are checked before changing their
 case

---
 iban/iban.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index 4702a6e..a92c151 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -42,6 +42,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	if len(countryCode) != 2 {
 		return "", fmt.Errorf("malformed countryCode: must have two characters")
 	}
+	if !consistsOf(countryCode, letters) || !consistsOf(BBAN, digits+letters) {
+		return "", fmt.Errorf("malformed IBAN: invalid characters")
+	}
 	countryCode = strings.ToUpper(countryCode)
 
 	ibanLen, known := ibanMaxLengthForCountry[countryCode]
@@ -59,9 +62,6 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	}
 
 	BBAN = strings.ToUpper(BBAN)
-	if !consistsOf(countryCode, letters) || !consistsOf(BBAN, digits+letters) {
-		return "", fmt.Errorf("malformed IBAN: invalid characters")
-	}
 
 	step1 := fmt.Sprintf("%s%s00", transformLettersToDigits(BBAN), transformLettersToDigits(countryCode))
 	step2, ok := new(big.Int).SetString(step1, 10)
@@ -142,13 +142,13 @@ func (i IBAN) Valid() bool {
 	if len(i) < minIBANLength || len(i) > maxAllowedIBANLength {
 		return false
 	}
+	if !consistsOf(i.CountryCode(), letters) || !consistsOf(i.ProofNumber(), digits) || !consistsOf(i.BBAN(), digits+letters) {
+		return false
+	}
 	countryCode := i.CountryCode()
 	countryCode = strings.ToUpper(countryCode)
 	bban := i.BBAN()
 	bban = strings.ToUpper(bban)
-	if !consistsOf(countryCode, letters) || !consistsOf(i.ProofNumber(), digits) || !consistsOf(bban, digits+letters) {
-		return false
-	}
 
 	digitCountryCode := transformLettersToDigits(countryCode)
 	digitBBAN := transformLettersToDigits(bban)
@@ -183,7 +183,7 @@ func Print(iban IBAN) string {
 
 const (
 	digits  = "0123456789"
-	letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
+	letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
 )
 
 // consistsOf reports whether input contains only characters of the alphabet
-- 
2.43.0


From 16886de37263a4a0f1acf47ec993089e542dee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 37/64] fix: report malformed country codes and parameters
 instead of ignoring them

---
 element/acknowledgement.go | 2 +-
 element/data_element.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 2c628df..71053c4 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -149,7 +149,7 @@ func (p *ParamsDataElement) Val() []string {
 func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	if len(elements) > 10 {
 		return fmt.Errorf("malformed params")
diff --git a/element/data_element.go b/element/data_element.go
index d3a5d81..fa2308f 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -709,7 +709,7 @@ func (c *CountryCodeDataElement) UnmarshalHBCI(value []byte) error {
 	var d DigitDataElement
 	err := d.UnmarshalHBCI(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	*c = CountryCodeDataElement{&d}
 	return nil
-- 
2.43.0


From aabb336fc81333ec03d9d24a3bf1e3972abd0675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 38/64] fix: the logging middleware reports unreadable bodies
 instead of passing on truncated messages

---
 transport/middleware/logging.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 4192be6..2e521ab 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -26,6 +26,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledRequest, err := io.ReadAll(io.TeeReader(req.Body, &buf))
 			if err != nil {
 				logger.Printf("Error reading request body: %v", err)
+				return nil, fmt.Errorf("error reading request body: %w", err)
 			}
 			req.Body = io.NopCloser(&buf)
 			logger.Println("Decrypted Request:")
@@ -42,6 +43,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
 				logger.Printf("Error reading response body: %v", err)
+				return nil, fmt.Errorf("error reading response body: %w", err)
 			}
 			res.Body = io.NopCloser(&responseBuf)
 			logger.Println("Decrypted Response:")
-- 
2.43.0


From bce27e7af8d04ad4270e5c9a400fdf725d12be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 39/64] fix: read virtual dates into a zero value

---
 element/data_element.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/element/data_element.go b/element/data_element.go
index fa2308f..bd567ad 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -612,6 +612,17 @@ type VirtualDateDataElement struct {
 	*NumberDataElement
 }
 
+// UnmarshalHBCI unmarshals value into v
+func (v *VirtualDateDataElement) UnmarshalHBCI(value []byte) error {
+	var n NumberDataElement
+	err := n.UnmarshalHBCI(value)
+	if err != nil {
+		return err
+	}
+	*v = VirtualDateDataElement{&n}
+	return nil
+}
+
 // Valid returns true if the length of v is 8, false otherwise
 func (v *VirtualDateDataElement) Valid() bool {
 	return v.Length() == 8
-- 
2.43.0


From daf00bdbd17b0664f3151a6d6aacd94e6859e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 40/64] fix: reject binary data shorter than its announced size

---
 element/data_element.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/element/data_element.go b/element/data_element.go
index bd567ad..3a9d787 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -475,6 +475,9 @@ func (b *BinaryDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return fmt.Errorf("Error while parsing binary size: %T:%v", err, err)
 	}
+	if binSize < 0 || binSize > buf.Len() {
+		return fmt.Errorf("BinaryDataElement: announced size %d does not fit the %d bytes present", binSize, buf.Len())
+	}
 	binData := make([]byte, binSize)
 	_, err = buf.Read(binData)
 	if err != nil {
-- 
2.43.0


From 334f199befcafda434f162beeb5492b7b521ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 41/64] fix: convert all text of account statements from ISO
 8859-1

---
 swift/element.go |  8 ++++----
 swift/mt940.go   | 17 +++++++++--------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/swift/element.go b/swift/element.go
index c2a91f2..95e2fe1 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -38,8 +38,8 @@ func (a *AlphaNumericTag) Unmarshal(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("%T: Malformed marshaled value", a)
 	}
-	id := string(elements[0])
-	val := string(elements[1])
+	id := charset.ToUTF8(elements[0])
+	val := charset.ToUTF8(elements[1])
 	a.tag = &tag{id: id, value: val}
 	return nil
 }
@@ -63,7 +63,7 @@ func (n *NumberTag) Unmarshal(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("%T: Malformed marshaled value", n)
 	}
-	id := string(elements[0])
+	id := charset.ToUTF8(elements[0])
 	num, err := strconv.Atoi(string(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Error while unmarshaling: %v", n, err)
@@ -91,7 +91,7 @@ func (f *FloatTag) Unmarshal(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("%T: Malformed marshaled value", f)
 	}
-	id := string(elements[0])
+	id := charset.ToUTF8(elements[0])
 	num, err := strconv.ParseFloat(string(elements[1]), 64)
 	if err != nil {
 		return fmt.Errorf("%T: Error while unmarshaling: %v", f, err)
diff --git a/swift/mt940.go b/swift/mt940.go
index 6a6b829..881545c 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -9,6 +9,7 @@ import (
 	"time"
 	"unicode"
 
+	"github.com/mitch000001/go-hbci/charset"
 	"github.com/mitch000001/go-hbci/domain"
 	"github.com/pkg/errors"
 )
@@ -90,13 +91,13 @@ func (a *AccountTag) Unmarshal(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("%T: Malformed marshaled value", a)
 	}
-	a.Tag = string(elements[0])
+	a.Tag = charset.ToUTF8(elements[0])
 	fields := bytes.Split(elements[1], []byte("/"))
 	if len(fields) != 2 {
 		return fmt.Errorf("%T: Malformed marshaled value", a)
 	}
-	a.BankID = string(fields[0])
-	a.AccountID = string(fields[1])
+	a.BankID = charset.ToUTF8(fields[0])
+	a.AccountID = charset.ToUTF8(fields[1])
 	return nil
 }
 
@@ -116,7 +117,7 @@ func (s *StatementNumberTag) Unmarshal(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("%T: Malformed marshaled value", s)
 	}
-	s.Tag = string(elements[0])
+	s.Tag = charset.ToUTF8(elements[0])
 	var numBytes []byte
 	if bytes.IndexByte(elements[1], '/') != -1 {
 		buf := bytes.NewBuffer(elements[1])
@@ -171,8 +172,8 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("%T: Malformed marshaled value", b)
 	}
-	b.Tag = string(elements[0])
-	buf := bytes.NewBuffer(elements[1])
+	b.Tag = charset.ToUTF8(elements[0])
+	buf := bytes.NewBufferString(charset.ToUTF8(elements[1]))
 	b.DebitCreditIndicator = string(buf.Next(1))
 	dateBytes := buf.Next(6)
 	date, err := parseDate(dateBytes, time.Now().Year())
@@ -220,8 +221,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("%T: Malformed marshaled value", t)
 	}
-	t.Tag = string(elements[0])
-	buf := bytes.NewBuffer(elements[1])
+	t.Tag = charset.ToUTF8(elements[0])
+	buf := bytes.NewBufferString(charset.ToUTF8(elements[1]))
 	dateBytes := buf.Next(6)
 	date, err := parseDate(dateBytes, time.Now().Year())
 	if err != nil {
-- 
2.43.0


From a7eeefb05ea1f87567a548d9d50f6a1cac4df9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 42/64] fix: reject account statements without account or
 balances instead of crashing

---
 swift/mt940_unmarshaler.go | 3 +++
 swift/unmarshal.go         | 1 +
 2 files changed, 4 insertions(+)

diff --git a/swift/mt940_unmarshaler.go b/swift/mt940_unmarshaler.go
index 14b7db8..77e89c4 100644
--- a/swift/mt940_unmarshaler.go
+++ b/swift/mt940_unmarshaler.go
@@ -104,6 +104,9 @@ func (m *MT940) Unmarshal(value []byte) error {
 			return fmt.Errorf("malformed marshaled value")
 		}
 	}
+	if m.Account == nil || m.StartingBalance == nil || m.ClosingBalance == nil {
+		return fmt.Errorf("malformed marshaled value: account or balance missing")
+	}
 
 	return nil
 }
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index 8aee12b..3f53c4f 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -52,6 +52,7 @@ func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.Accoun
 		err = tr.Unmarshal(message)
 		if err != nil {
 			errors = append(errors, fmt.Errorf("error unmarshaling MT940: %w", err))
+			continue
 		}
 		transactions = append(transactions, tr.AccountTransactions()...)
 	}
-- 
2.43.0


From 672ff6b9a9695358384e2b1df3aef3fefdb05ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 43/64] fix: read the purpose fields of an account statement in
 the order they appear

---
 swift/element.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swift/element.go b/swift/element.go
index 95e2fe1..966d2ef 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -3,6 +3,7 @@ package swift
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 
 	"github.com/mitch000001/go-hbci/charset"
@@ -150,6 +151,9 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		return err
 	}
 	c.Tag = tag.ID
+	if len(tag.Value) < 3 {
+		return fmt.Errorf("%T: Malformed marshaled value", c)
+	}
 	tID, err := strconv.Atoi(charset.ToUTF8(tag.Value[:3]))
 	if err != nil {
 		return err
@@ -165,6 +169,7 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 			fields = append(fields, fieldKeyIndex{fieldKey, idx})
 		}
 	}
+	sort.SliceStable(fields, func(i, j int) bool { return fields[i].index < fields[j].index })
 
 	getFieldValue := func(currentFieldKeyIndex, nextFieldKeyIndex int) string {
 		return charset.ToUTF8(
-- 
2.43.0


From f162be91ca18f9c333f7efe9ead2b9479d4c5055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 44/64] fix: read additional information of a transaction that
 starts with a slash

---
 swift/mt940.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 881545c..4208f4e 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -285,7 +285,11 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 
 	if doubleSlashIdx != -1 && addInfSepIdx != -1 {
 		t.Reference = remaining[:doubleSlashIdx]
-		if doubleSlashIdx < addInfSepIdx {
+		if doubleSlashIdx == addInfSepIdx+2 {
+			// the additional information itself starts with a slash
+			t.Reference = remaining[:addInfSepIdx]
+			t.AdditionalInformation = remaining[addInfSepIdx+3:]
+		} else if doubleSlashIdx < addInfSepIdx {
 			t.BankReference = remaining[doubleSlashIdx+2 : addInfSepIdx]
 			t.AdditionalInformation = remaining[addInfSepIdx+3:]
 		} else {
-- 
2.43.0


From aa3378ef9a931a30ada02b4541c4a9baa7574922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 45/64] fix: recognise reversed bookings without a currency
 letter and sign them accordingly

---
 swift/mt940.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 4208f4e..5dafb2d 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -36,7 +36,7 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 		tr := transactionSequence.Transaction
 		descr := transactionSequence.Description
 		var amount float64
-		if tr.DebitCreditIndicator == "D" {
+		if tr.DebitCreditIndicator == "D" || tr.DebitCreditIndicator == "RC" {
 			amount = -tr.Amount
 		} else {
 			amount = tr.Amount
@@ -259,6 +259,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 			if len(runes) == 3 {
 				t.DebitCreditIndicator = string(runes[:2])
 				t.CurrencyKind = string(runes[2:])
+			} else if len(runes) == 2 && runes[0] == 'R' {
+				t.DebitCreditIndicator = string(runes)
 			} else if len(runes) == 2 {
 				t.DebitCreditIndicator = string(runes[:1])
 				t.CurrencyKind = string(runes[1:])
-- 
2.43.0


From ccbaba1a5076ae219accda59eda3c2adb112ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 46/64] fix: sign the balances before and after a transaction
 by their debit mark

---
 swift/mt940.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 5dafb2d..4361401 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -42,24 +42,12 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 			amount = tr.Amount
 		}
 		transaction := domain.AccountTransaction{
-			Account:     accountConnection,
-			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
-			ValutaDate:  tr.ValutaDate.Time,
-			BookingDate: tr.BookingDate.Time,
-			AccountBalanceBefore: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.StartingBalance.Amount,
-					Currency: m.StartingBalance.Currency,
-				},
-				TransmissionDate: m.StartingBalance.BookingDate.Time,
-			},
-			AccountBalanceAfter: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.ClosingBalance.Amount,
-					Currency: m.ClosingBalance.Currency,
-				},
-				TransmissionDate: m.ClosingBalance.BookingDate.Time,
-			},
+			Account:              accountConnection,
+			Amount:               domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
+			ValutaDate:           tr.ValutaDate.Time,
+			BookingDate:          tr.BookingDate.Time,
+			AccountBalanceBefore: m.StartingBalance.Balance(),
+			AccountBalanceAfter:  m.ClosingBalance.Balance(),
 		}
 		if descr != nil {
 			transaction.BookingText = descr.BookingText
-- 
2.43.0


From a0fc691736f4e76c9473e7ce12c2229b7477a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 47/64] fix: read the century of statement dates from the value
 instead of the clock

---
 swift/mt940.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 4361401..a9160b1 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -164,7 +164,7 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	buf := bytes.NewBufferString(charset.ToUTF8(elements[1]))
 	b.DebitCreditIndicator = string(buf.Next(1))
 	dateBytes := buf.Next(6)
-	date, err := parseDate(dateBytes, time.Now().Year())
+	date, err := parseDate(dateBytes, yearOf(dateBytes))
 	if err != nil {
 		return errors.WithMessage(err, "unmarshal balance tag: parsing booking date")
 	}
@@ -212,7 +212,7 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	t.Tag = charset.ToUTF8(elements[0])
 	buf := bytes.NewBufferString(charset.ToUTF8(elements[1]))
 	dateBytes := buf.Next(6)
-	date, err := parseDate(dateBytes, time.Now().Year())
+	date, err := parseDate(dateBytes, yearOf(dateBytes))
 	if err != nil {
 		return errors.WithMessage(err, "unmarshal transaction tag: parsing valuta date")
 	}
@@ -303,6 +303,22 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	return nil
 }
 
+// yearOf returns the year of a date of the form YYMMDD. Years of two digits
+// denote the years from 1980 to 2079.
+func yearOf(value []byte) int {
+	if len(value) < 2 {
+		return 2000
+	}
+	year, err := strconv.Atoi(string(value[:2]))
+	if err != nil || year < 0 {
+		return 2000
+	}
+	if year >= 80 {
+		return 1900 + year
+	}
+	return 2000 + year
+}
+
 func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	var offset int
 	if len(value) == 6 {
-- 
2.43.0


From 484bbeeed0792cf9dc907a97b4c3e98df0850f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 48/64] fix: place booking dates in the year next to the valuta
 date

---
 swift/mt940.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index a9160b1..939c246 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -3,7 +3,6 @@ package swift
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -229,9 +228,12 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 			return errors.WithMessage(err, "unmarshal transaction tag: parsing booking date")
 		}
 		t.BookingDate = domain.NewShortDate(date)
-		monthDiff := int(math.Abs(float64(t.ValutaDate.Month() - t.BookingDate.Month())))
-		if monthDiff > 1 {
+		// the booking date carries no year: it is the one closest to the valuta date
+		monthDiff := int(t.ValutaDate.Month()) - int(t.BookingDate.Month())
+		if monthDiff > 6 {
 			t.BookingDate = domain.NewShortDate(t.BookingDate.AddDate(1, 0, 0))
+		} else if monthDiff < -6 {
+			t.BookingDate = domain.NewShortDate(t.BookingDate.AddDate(-1, 0, 0))
 		}
 	}
 	var runes []rune
-- 
2.43.0


From 2de29cec5a4b944c6e40a401f5df287752d7f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 49/64] fix: keep the debit mark of bookings without a booking
 date

---
 swift/mt940.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 939c246..d51d78d 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -220,8 +220,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if err != nil {
 		return err
 	}
+	buf.UnreadRune()
 	if unicode.IsDigit(r) {
-		buf.UnreadRune()
 		dateBytes = buf.Next(4)
 		date, err = parseDate(dateBytes, t.ValutaDate.Year())
 		if err != nil {
-- 
2.43.0


From 8537f2a6766d862d319d1cdf33ec9c39b373609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 50/64] fix: decode a requested segment only with the layout of
 its own version

---
 message/unmarshaler.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/message/unmarshaler.go b/message/unmarshaler.go
index 82d531f..03fafaf 100644
--- a/message/unmarshaler.go
+++ b/message/unmarshaler.go
@@ -74,7 +74,7 @@ func (u *Unmarshaler) UnmarshalSegment(segmentID string, version int) (segment.S
 	if err != nil {
 		return nil, err
 	}
-	segmentBytes, err := u.extractSegment(segmentID)
+	segmentBytes, err := u.extractSegment(segmentID, version)
 	if err != nil {
 		return nil, err
 	}
@@ -85,16 +85,21 @@ func (u *Unmarshaler) UnmarshalSegment(segmentID string, version int) (segment.S
 	return unmarshaler.(segment.Segment), nil
 }
 
-func (u *Unmarshaler) extractSegment(segmentID string) ([]byte, error) {
+func (u *Unmarshaler) extractSegment(segmentID string, version int) ([]byte, error) {
 	_, err := u.segmentExtractor.Extract()
 	if err != nil {
 		return nil, err
 	}
-	segmentBytes := u.segmentExtractor.FindSegment(segmentID)
-	if segmentBytes == nil {
-		return nil, fmt.Errorf("Segment not found in message: %q", segmentID)
+	for _, segmentBytes := range u.segmentExtractor.FindSegments(segmentID) {
+		header, err := extractSegmentHeader(segmentBytes)
+		if err != nil {
+			return nil, err
+		}
+		if header.Version.Val() == version {
+			return segmentBytes, nil
+		}
 	}
-	return segmentBytes, nil
+	return nil, fmt.Errorf("Segment not found in message: %q", segmentID)
 }
 
 // SegmentsByID returns all already unmarshaled segments for the given ID
-- 
2.43.0


From 6b649aaea3c5695b75bc393f406abf68bd08edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 51/64] fix: keep the date of a balance that carries a booking
 time

---
 segment/account_balance.go | 37 ++++++-------------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index 7ed9ae3..040fd42 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -3,7 +3,6 @@ package segment
 import (
 	"fmt"
 	"sort"
-	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
 	"github.com/mitch000001/go-hbci/element"
@@ -246,13 +245,9 @@ func (a *AccountBalanceResponseSegmentV5) AccountBalance() domain.AccountBalance
 		balance.UsedAmount = &val
 	}
 	if date := a.BookingDate; date != nil {
-		val := date.Val()
+		val := transmissionTime(date, a.BookingTime)
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -322,13 +317,9 @@ func (a *AccountBalanceResponseSegmentV6) AccountBalance() domain.AccountBalance
 		balance.UsedAmount = &val
 	}
 	if date := a.BookingDate; date != nil {
-		val := date.Val()
+		val := transmissionTime(date, a.BookingTime)
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -398,13 +389,9 @@ func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance
 		balance.UsedAmount = &val
 	}
 	if date := a.BookingDate; date != nil {
-		val := date.Val()
+		val := transmissionTime(date, a.BookingTime)
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -436,13 +423,9 @@ func (a *AccountBalanceResponseSegmentV7) SepaAccountBalance() (domain.SepaAccou
 		balance.UsedAmount = &val
 	}
 	if date := a.BookingDate; date != nil {
-		val := date.Val()
+		val := transmissionTime(date, a.BookingTime)
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -510,13 +493,9 @@ func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance
 		balance.UsedAmount = &val
 	}
 	if date := a.BookingDate; date != nil {
-		val := date.Val()
+		val := transmissionTime(date, a.BookingTime)
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -548,13 +527,9 @@ func (a *AccountBalanceResponseSegmentV8) SepaAccountBalance() (domain.SepaAccou
 		balance.UsedAmount = &val
 	}
 	if date := a.BookingDate; date != nil {
-		val := date.Val()
+		val := transmissionTime(date, a.BookingTime)
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
-- 
2.43.0


From 13aba20d493ca6c332d84c74d44ba4a9af4c4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 52/64] fix: hand out user name and extensions of version 3
 user parameter data

---
 segment/user_parameter_data.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/segment/user_parameter_data.go b/segment/user_parameter_data.go
index 1655369..1a84a8a 100644
--- a/segment/user_parameter_data.go
+++ b/segment/user_parameter_data.go
@@ -92,10 +92,20 @@ func (c *CommonUserParameterDataV3) elements() []element.DataElement {
 }
 
 func (c *CommonUserParameterDataV3) UserParameterData() domain.UserParameterData {
+	var username string
+	if c.UserName != nil {
+		username = c.UserName.Val()
+	}
+	var additions string
+	if c.CommonExtensions != nil {
+		additions = c.CommonExtensions.Val()
+	}
 	return domain.UserParameterData{
-		UserID:  c.UserID.Val(),
-		Version: c.UPDVersion.Val(),
-		Usage:   c.UPDUsage.Val(),
+		UserID:    c.UserID.Val(),
+		Version:   c.UPDVersion.Val(),
+		Usage:     c.UPDUsage.Val(),
+		UserName:  username,
+		Additions: additions,
 	}
 }
 
-- 
2.43.0


From 17510e0295e97848e04b57718da57c14a368a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 53/64] fix: read absent components as empty instead of
 crashing

---
 element/acknowledgement.go          |  6 +++
 element/data_element.go             | 79 +++++++++++++++++++++++++++--
 element/group_data_element_group.go | 15 ++++++
 element/message.go                  |  3 ++
 element/signature.go                |  4 +-
 5 files changed, 99 insertions(+), 8 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 71053c4..1cbd272 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -64,6 +64,9 @@ func (a *AcknowledgementDataElement) SetType(acknowledgementType string) {
 
 // Val returns the underlying value of the acknowledgement.
 func (a *AcknowledgementDataElement) Val() domain.Acknowledgement {
+	if a == nil {
+		return domain.Acknowledgement{}
+	}
 	return domain.Acknowledgement{
 		Code:                     a.Code.Val(),
 		ReferenceDataElement:     a.ReferenceDataElement.Val(),
@@ -138,6 +141,9 @@ type ParamsDataElement struct {
 
 // Val returns the underlying value of the DataElement.
 func (p *ParamsDataElement) Val() []string {
+	if p == nil {
+		return nil
+	}
 	params := make([]string, len(p.array))
 	for i, de := range p.array {
 		params[i] = de.Value().(string)
diff --git a/element/data_element.go b/element/data_element.go
index 3a9d787..a1cd955 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -248,7 +248,12 @@ type AlphaNumericDataElement struct {
 }
 
 // Val returns the data as string
-func (a *AlphaNumericDataElement) Val() string { return a.val.(string) }
+func (a *AlphaNumericDataElement) Val() string {
+	if a == nil {
+		return ""
+	}
+	return a.val.(string)
+}
 
 // IsValid returns false if a contains '\n' and '\r', true otherwise
 func (a *AlphaNumericDataElement) IsValid() bool {
@@ -288,7 +293,12 @@ type TextDataElement struct {
 }
 
 // Val returns the value of a as a string
-func (a *TextDataElement) Val() string { return a.val.(string) }
+func (a *TextDataElement) Val() string {
+	if a == nil {
+		return ""
+	}
+	return a.val.(string)
+}
 func (a *TextDataElement) String() string {
 	return escape(a.basicDataElement.String())
 }
@@ -318,7 +328,12 @@ type DigitDataElement struct {
 }
 
 // Val returns the digit as int
-func (d *DigitDataElement) Val() int { return d.val.(int) }
+func (d *DigitDataElement) Val() int {
+	if d == nil {
+		return 0
+	}
+	return d.val.(int)
+}
 
 func (d *DigitDataElement) String() string {
 	fmtString := fmt.Sprintf("%%0%dd", d.maxLength)
@@ -351,7 +366,12 @@ type NumberDataElement struct {
 }
 
 // Val returns the value of n as int
-func (n *NumberDataElement) Val() int { return n.val.(int) }
+func (n *NumberDataElement) Val() int {
+	if n == nil {
+		return 0
+	}
+	return n.val.(int)
+}
 
 // MarshalHBCI marshals n into the HBCI wire format
 func (n *NumberDataElement) MarshalHBCI() ([]byte, error) {
@@ -379,7 +399,12 @@ type FloatDataElement struct {
 }
 
 // Val returns the value of f as float64
-func (f *FloatDataElement) Val() float64 { return f.val.(float64) }
+func (f *FloatDataElement) Val() float64 {
+	if f == nil {
+		return 0
+	}
+	return f.val.(float64)
+}
 
 func (f *FloatDataElement) String() string {
 	str := strconv.FormatFloat(f.Val(), 'f', -1, 64)
@@ -441,6 +466,9 @@ type BinaryDataElement struct {
 
 // Val returns b as []byte
 func (b *BinaryDataElement) Val() []byte {
+	if b == nil {
+		return nil
+	}
 	return b.Value().([]byte)
 }
 
@@ -499,6 +527,9 @@ type BooleanDataElement struct {
 
 // Val returns the value of b as bool
 func (b *BooleanDataElement) Val() bool {
+	if b == nil {
+		return false
+	}
 	return b.Value().(bool)
 }
 
@@ -575,6 +606,9 @@ type DateDataElement struct {
 
 // Val returns the value of d as time.Time. The time component of it will always be zero.
 func (d *DateDataElement) Val() time.Time {
+	if d == nil {
+		return time.Time{}
+	}
 	return d.Value().(time.Time)
 }
 
@@ -644,6 +678,9 @@ type TimeDataElement struct {
 
 // Val returns the value of t as time.Time.
 func (t *TimeDataElement) Val() time.Time {
+	if t == nil {
+		return time.Time{}
+	}
 	return t.Value().(time.Time)
 }
 
@@ -684,6 +721,14 @@ type IdentificationDataElement struct {
 	*AlphaNumericDataElement
 }
 
+// Val returns the id, which is empty if i is absent
+func (i *IdentificationDataElement) Val() string {
+	if i == nil {
+		return ""
+	}
+	return i.AlphaNumericDataElement.Val()
+}
+
 // Type returns the DataElementType of i
 func (i *IdentificationDataElement) Type() DataElementType {
 	return identificationDE
@@ -713,6 +758,14 @@ type CountryCodeDataElement struct {
 	*DigitDataElement
 }
 
+// Val returns the country code, which is empty if c is absent
+func (c *CountryCodeDataElement) Val() int {
+	if c == nil {
+		return 0
+	}
+	return c.DigitDataElement.Val()
+}
+
 // Type represents the DataElement Type of c
 func (c *CountryCodeDataElement) Type() DataElementType {
 	return countryCodeDE
@@ -742,6 +795,14 @@ type CurrencyDataElement struct {
 	*AlphaNumericDataElement
 }
 
+// Val returns the currency, which is empty if c is absent
+func (c *CurrencyDataElement) Val() string {
+	if c == nil {
+		return ""
+	}
+	return c.AlphaNumericDataElement.Val()
+}
+
 // IsValid returns true if the currency format matches ISO 4217 alpha-3
 func (c *CurrencyDataElement) IsValid() bool {
 	return c.Length() == 3
@@ -775,6 +836,14 @@ type ValueDataElement struct {
 	*FloatDataElement
 }
 
+// Val returns the value, which is empty if v is absent
+func (v *ValueDataElement) Val() float64 {
+	if v == nil {
+		return 0
+	}
+	return v.FloatDataElement.Val()
+}
+
 // Type returns the DataElementType of v
 func (v *ValueDataElement) Type() DataElementType {
 	return valueDE
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 225ff06..e8e50ba 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -38,6 +38,9 @@ func (a *AmountDataElement) Elements() []DataElement {
 
 // Val returns the value of a as a domain.Amount
 func (a *AmountDataElement) Val() domain.Amount {
+	if a == nil {
+		return domain.Amount{}
+	}
 	return domain.Amount{
 		Amount:   a.Amount.Val(),
 		Currency: a.Currency.Val(),
@@ -86,6 +89,9 @@ type BankIdentificationDataElement struct {
 
 // Val returns the value of b as domain.BankID
 func (b *BankIdentificationDataElement) Val() domain.BankID {
+	if b == nil {
+		return domain.BankID{}
+	}
 	return domain.BankID{
 		CountryCode: b.CountryCode.Val(),
 		ID:          b.BankID.Val(),
@@ -175,6 +181,9 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the value of a as domain.AccountConnection
 func (a *AccountConnectionDataElement) Val() domain.AccountConnection {
+	if a == nil {
+		return domain.AccountConnection{}
+	}
 	return domain.AccountConnection{
 		AccountID:                 a.AccountID.Val(),
 		SubAccountCharacteristics: a.SubAccountCharacteristics.Val(),
@@ -267,6 +276,9 @@ func (i *InternationalAccountConnectionDataElement) UnmarshalHBCI(value []byte)
 
 // Val returns the value of i as domain.InternationalAccountConnection
 func (i *InternationalAccountConnectionDataElement) Val() domain.InternationalAccountConnection {
+	if i == nil {
+		return domain.InternationalAccountConnection{}
+	}
 	conn := domain.InternationalAccountConnection{}
 	if i.IBAN != nil {
 		conn.IBAN = i.IBAN.Val()
@@ -330,6 +342,9 @@ func (b *BalanceDataElement) Elements() []DataElement {
 
 // Balance returns the balance as domain.Balance
 func (b *BalanceDataElement) Balance() domain.Balance {
+	if b == nil {
+		return domain.Balance{}
+	}
 	sign := b.DebitCreditIndicator.Val()
 	val := b.Amount.Val()
 	if sign == "D" {
diff --git a/element/message.go b/element/message.go
index f657759..d92bb50 100644
--- a/element/message.go
+++ b/element/message.go
@@ -29,6 +29,9 @@ type ReferencingMessageDataElement struct {
 
 // Val returns the value of r as domain.ReferencingMessage
 func (r *ReferencingMessageDataElement) Val() domain.MessageReference {
+	if r == nil {
+		return domain.MessageReference{}
+	}
 	return domain.MessageReference{
 		DialogID:      r.DialogID.Val(),
 		MessageNumber: r.MessageNumber.Val(),
diff --git a/element/signature.go b/element/signature.go
index d776983..7f96375 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -333,9 +333,7 @@ type KeyNameDataElement struct {
 // Val returns the KeyName as domain.KeyName
 func (k *KeyNameDataElement) Val() domain.KeyName {
 	return domain.KeyName{
-		BankID: domain.BankID{
-			CountryCode: k.Bank.CountryCode.Val(),
-			ID:          k.Bank.BankID.Val()},
+		BankID:     k.Bank.Val(),
 		UserID:     k.UserID.Val(),
 		KeyType:    domain.KeyType(k.KeyType.Val()),
 		KeyNumber:  k.KeyNumber.Val(),
-- 
2.43.0


From a74c4b6464a0c2b857593d34511a9d5911f75814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 54/64] fix: accept PIN/TAN parameters without order
 information

---
 segment/pin_bpd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segment/pin_bpd.go b/segment/pin_bpd.go
index 851dc9a..7802a17 100644
--- a/segment/pin_bpd.go
+++ b/segment/pin_bpd.go
@@ -46,6 +46,9 @@ func (t *PinTanBankParameterV1) elements() []element.DataElement {
 
 func (t *PinTanBankParameterV1) PinTanBusinessTransactions() []domain.PinTanBusinessTransaction {
 	var transactions []domain.PinTanBusinessTransaction
+	if t.PinTanSpecificParams == nil || t.PinTanSpecificParams.JobSpecificPinTanInformation == nil {
+		return transactions
+	}
 	for _, transactionDe := range t.PinTanSpecificParams.JobSpecificPinTanInformation.GroupDataElements() {
 		transactions = append(transactions, transactionDe.(*element.PinTanBusinessTransactionParameter).Val())
 	}
-- 
2.43.0


From dfbef3c141a8c54480f9bd2bdc4ef239586678b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 55/64] fix: report a segment without elements instead of
 failing on its header

---
 segment/element_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segment/element_extractor.go b/segment/element_extractor.go
index ebb2691..ebb0a6c 100644
--- a/segment/element_extractor.go
+++ b/segment/element_extractor.go
@@ -39,6 +39,9 @@ func (e *elementExtractor) Extract() ([][]byte, error) {
 	if len(current) != 0 {
 		return nil, fmt.Errorf("%T: Unexpected end of input\n(%q)", e, e.rawSegment)
 	}
+	if len(e.elements) == 0 {
+		return nil, fmt.Errorf("%T: Segment without elements\n(%q)", e, e.rawSegment)
+	}
 	result := make([][]byte, len(e.elements))
 	copy(result, e.elements)
 	return result, nil
-- 
2.43.0


From 2eaf145eb9ff44130d626af2bb07df36cb039f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 56/64] fix: report a PIN/TAN business transaction without TAN
 mark instead of failing

---
 element/bank_parameter_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index f3985ba..3d05f04 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -330,6 +330,9 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed PinTanBusinessTransactionParameter: %d elements", len(elements))
+	}
 	p.SegmentID = NewAlphaNumeric(decodeText(elements[0]), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
-- 
2.43.0


From ad284690abf8fe07124a2ad856790428241fbd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 57/64] fix: report truncated two step TAN parameters instead
 of failing

---
 element/tan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/element/tan.go b/element/tan.go
index a49a1df..e7ae565 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -80,6 +80,9 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 3 {
+		return fmt.Errorf("malformed Tan2StepSubmissionParameter: %d elements", len(elements))
+	}
 	oneStepProcessAllowed := &BooleanDataElement{}
 	err = oneStepProcessAllowed.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From 841796023f3fa58424ef21621e35d64b9f7b4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 58/64] fix: report disposal eligible persons as unsupported
 instead of failing

---
 element/account.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/element/account.go b/element/account.go
index ef118f5..1656513 100644
--- a/element/account.go
+++ b/element/account.go
@@ -1,10 +1,17 @@
 package element
 
+import "fmt"
+
 // DisposalEligiblePersonsDataElement represents a DataElement
 type DisposalEligiblePersonsDataElement struct {
 	DataElement
 }
 
+// UnmarshalHBCI reports that the disposal eligible persons can not be read yet
+func (d *DisposalEligiblePersonsDataElement) UnmarshalHBCI(value []byte) error {
+	return fmt.Errorf("%T: not supported", d)
+}
+
 // DisposalEligiblePersonDataElement represents a DataElement
 type DisposalEligiblePersonDataElement struct {
 	DataElement
-- 
2.43.0


From a1eacafdd1c7ce6562ececb45f3716ce4cdf3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 59/64] fix: report surplus elements of a group instead of
 failing

---
 element/data_element.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/element/data_element.go b/element/data_element.go
index a1cd955..041ac52 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -166,6 +166,9 @@ func (g *elementGroup) UnmarshalHBCI(value []byte) error {
 		if len(elem) == 0 {
 			continue
 		}
+		if i >= len(elements) {
+			return fmt.Errorf("malformed element group: more than %d elements", len(elements))
+		}
 		elemToMarshal := reflect.New(reflect.TypeOf(elements[i]).Elem())
 		err := elemToMarshal.Interface().(DataElement).UnmarshalHBCI(elem)
 		if err == nil {
-- 
2.43.0


From 3b7cf12912a49bdb7b9a2fc57e1c0167d7a2caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:42 +0000
Subject: [PATCH 60/64] fix: read transaction answers without booked
 transactions

---
 element/swift.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/element/swift.go b/element/swift.go
index fc9bc94..45c60f5 100644
--- a/element/swift.go
+++ b/element/swift.go
@@ -24,5 +24,8 @@ func (s *SwiftMT940DataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the embodied transactions as *swift.MT940Messages
 func (s *SwiftMT940DataElement) Val() *swift.MT940Messages {
+	if s == nil {
+		return nil
+	}
 	return s.swiftMT940Messages
 }
-- 
2.43.0


From 7049513acea1410845c70afaf067d542c9c0dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 61/64] fix: ignore TAN bank parameters without parameters
 instead of crashing

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index d67338c..d554a16 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -513,8 +513,12 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	if rawSegment == nil {
 		return nil, false
 	}
+	tanParameter := rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter
+	if tanParameter == nil {
+		return nil, false
+	}
 	availableSecurityFns := map[string]*element.Tan2StepSubmissionProcessParameterV6{}
-	for _, pp := range rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
+	for _, pp := range tanParameter.ProcessParameters.GroupDataElements() {
 		tan2StepPP := pp.(*element.Tan2StepSubmissionProcessParameterV6)
 		fn := tan2StepPP.SecurityFunction.Val()
 		availableSecurityFns[fn] = tan2StepPP
-- 
2.43.0


From 35ce1c1ea9f78eb81491bb69713beddd7dfe63a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 62/64] fix: read back the JSON representation of a zero date

ShortDate.MarshalJSON writes a zero date as an empty string, which
ShortDate.UnmarshalJSON rejected with a parse error.
---
 domain/time.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/domain/time.go b/domain/time.go
index 8eead6f..4205588 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -34,7 +34,11 @@ func (s *ShortDate) MarshalJSON() ([]byte, error) {
 
 // UnmarshalJSON unmarshals the JSON representation into a date
 func (s *ShortDate) UnmarshalJSON(data []byte) error {
-	unquotedData, _ := strconv.Unquote(string(data))
+	unquotedData, err := strconv.Unquote(string(data))
+	if err == nil && unquotedData == "" {
+		*s = ShortDate{}
+		return nil
+	}
 	time, err := time.Parse("2006-01-02", unquotedData)
 	s.Time = time
 	return err
-- 
2.43.0


From bdd7985090ff2b0f9467896cb25ededa3ee65373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:59 +0000
Subject: [PATCH 63/64] fix: write dates the same way whether given by value or
 by pointer

The marshalling and formatting methods of ShortDate and Timeframe were
declared on the pointer only. A date that is part of a value, such as an
account booking, was therefore written in the representation of the
embedded time.Time, which UnmarshalJSON and UnmarshalText reject, and
Timeframe.String printed the nested structs instead of the dates.
---
 domain/time.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/domain/time.go b/domain/time.go
index 4205588..a1a3d00 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -25,7 +25,7 @@ func Date(year int, month time.Month, day int, location *time.Location) ShortDat
 }
 
 // MarshalJSON marshals the date into a JSON representation
-func (s *ShortDate) MarshalJSON() ([]byte, error) {
+func (s ShortDate) MarshalJSON() ([]byte, error) {
 	if s.IsZero() {
 		return json.Marshal("")
 	}
@@ -44,12 +44,12 @@ func (s *ShortDate) UnmarshalJSON(data []byte) error {
 	return err
 }
 
-func (s *ShortDate) String() string {
+func (s ShortDate) String() string {
 	return s.Format("2006-01-02")
 }
 
 // MarshalText marshals the date into a byte representation
-func (s *ShortDate) MarshalText() ([]byte, error) {
+func (s ShortDate) MarshalText() ([]byte, error) {
 	return []byte(s.Format("2006-01-02")), nil
 }
 
@@ -104,7 +104,7 @@ func (tf *Timeframe) ToQuery() url.Values {
 }
 
 // MarshalJSON marhsals the timeframe into a JSON string
-func (tf *Timeframe) MarshalJSON() ([]byte, error) {
+func (tf Timeframe) MarshalJSON() ([]byte, error) {
 	if tf.StartDate.IsZero() || tf.EndDate.IsZero() {
 		return json.Marshal("")
 	}
@@ -137,6 +137,6 @@ func (tf *Timeframe) IsZero() bool {
 	return tf.StartDate.IsZero() && tf.EndDate.IsZero()
 }
 
-func (tf *Timeframe) String() string {
+func (tf Timeframe) String() string {
 	return fmt.Sprintf("{%s-%s}", tf.StartDate, tf.EndDate)
 }
-- 
2.43.0


From 5afbc8e9b0b5500b383d1b25968eeafa0fd71b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 64/64] fix: every column of the bank directory is generated as
 a quoted text

---
 cmd/bankdata_parser/bankdata_parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/bankdata_parser/bankdata_parser.go b/cmd/bankdata_parser/bankdata_parser.go
index 684415f..696e699 100644
--- a/cmd/bankdata_parser/bankdata_parser.go
+++ b/cmd/bankdata_parser/bankdata_parser.go
@@ -81,14 +81,14 @@ package bankinfo
 
 var data = []BankInfo{
 	{{range $element := .}}{
-		BankID: "{{.BankID}}",
-		BIC: "{{.BIC}}",
-		VersionNumber: "{{.VersionNumber}}",
-		URL: "{{.URL}}",
-		VersionName: "{{.VersionName}}",
+		BankID: {{.BankID | printf "%q" }},
+		BIC: {{.BIC | printf "%q" }},
+		VersionNumber: {{.VersionNumber | printf "%q" }},
+		URL: {{.URL | printf "%q" }},
+		VersionName: {{.VersionName | printf "%q" }},
 		Institute: {{.Institute | printf "%q" }},
-		City: "{{.City}}",
-		LastChanged: "{{.LastChanged}}",
+		City: {{.City | printf "%q" }},
+		LastChanged: {{.LastChanged | printf "%q" }},
 	},
 	{{end}}
 }`
-- 
2.43.0

