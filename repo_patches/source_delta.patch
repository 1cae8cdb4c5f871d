From b1b94b88bd6a977299300bb92e7c934fc9e96cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 01/44] fix: ControlType decodes exactly one byte and clears
 flags that were reset

---
 internal/dd/controltype.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 8fc9019..5115086 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -14,8 +14,9 @@ import (
 //
 //	ControlType ::= OCTET STRING (SIZE(1))
 func (opts UnmarshalOptions) UnmarshalControlType(input []byte) (*ddv1.ControlType, error) {
-	if len(input) == 0 {
-		return nil, fmt.Errorf("insufficient data for control type")
+	const lenControlType = 1
+	if len(input) != lenControlType {
+		return nil, fmt.Errorf("invalid data length for ControlType: got %d, want %d", len(input), lenControlType)
 	}
 	b := input[0]
 	var output ddv1.ControlType
@@ -55,6 +56,7 @@ func AppendControlType(dst []byte, controlType *ddv1.ControlType) ([]byte, error
 		}
 		copy(canvas[:], controlType.GetRawData())
 	}
+	canvas[0] &= 0x07 // keep the reserved bits only
 	if controlType.GetCardDownloading() {
 		canvas[0] |= 0x80
 	}
-- 
2.43.0


From 1f892d3ca591a38efcd330d0359050acf89ed14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 02/44] fix: FullCardNumber maps the issuing member state
 through its protocol code

---
 internal/dd/full_card_number.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index b68eb1d..144a994 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -45,8 +45,11 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumber.SetCardType(cardType)
 
 	// Parse issuing member state (1 byte)
-	issuingState := data[1]
-	cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric(issuingState))
+	if issuingState, err := UnmarshalEnum[ddv1.NationNumeric](data[1]); err == nil {
+		cardNumber.SetCardIssuingMemberState(issuingState)
+	} else {
+		cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED)
+	}
 
 	// Parse card number based on card type (16 bytes, may have padding)
 	cardNumberData := data[2:18]
@@ -106,7 +109,11 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	dst = append(dst, cardTypeByte)
 
 	// Append issuing member state (1 byte)
-	dst = append(dst, byte(cardNumber.GetCardIssuingMemberState()))
+	issuingState, err := MarshalEnum(cardNumber.GetCardIssuingMemberState())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal issuing member state: %w", err)
+	}
+	dst = append(dst, issuingState)
 
 	// Append card number based on card type (16 bytes with padding if needed)
 	switch cardNumber.GetCardType() {
-- 
2.43.0


From 244c734fd6abd8b2c59479578f541bcd715f440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 03/44] fix: FullCardNumber keeps the replacement and renewal
 indices of driver cards

---
 internal/dd/full_card_number.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 144a994..179eb4b 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -55,11 +55,21 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumberData := data[2:18]
 	switch cardType {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		// DriverIdentification is 14 bytes + 2 bytes padding
+		// DriverIdentification is 14 bytes + replacement index + renewal index
 		driverID, err := opts.UnmarshalDriverIdentification(cardNumberData[:14])
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
+		replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card replacement index: %w", err)
+		}
+		driverID.SetCardReplacementIndex(replacementIndex)
+		renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card renewal index: %w", err)
+		}
+		driverID.SetCardRenewalIndex(renewalIndex)
 		cardNumber.SetDriverIdentification(driverID)
 	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
@@ -119,13 +129,21 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	switch cardNumber.GetCardType() {
 	case ddv1.EquipmentType_DRIVER_CARD:
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			// DriverIdentification is 14 bytes, pad to 16
+			// DriverIdentification is 14 bytes, followed by the replacement and renewal indices
 			dst, err = AppendDriverIdentification(dst, driverID)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append driver identification: %w", err)
 			}
-			// Add 2 bytes padding
-			dst = append(dst, 0x00, 0x00)
+			for _, index := range []*ddv1.Ia5StringValue{driverID.GetCardReplacementIndex(), driverID.GetCardRenewalIndex()} {
+				if index == nil {
+					dst = append(dst, 0x00) // no index known
+					continue
+				}
+				dst, err = AppendIa5StringValue(dst, index)
+				if err != nil {
+					return nil, fmt.Errorf("failed to append card index: %w", err)
+				}
+			}
 		} else {
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
-- 
2.43.0


From 368ce00e8825b7a072e2c1745c82c7bcde550caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 04/44] fix: FullCardNumber of control cards is read and
 written

---
 internal/dd/full_card_number.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 179eb4b..00622b1 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -71,7 +71,7 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 		}
 		driverID.SetCardRenewalIndex(renewalIndex)
 		cardNumber.SetDriverIdentification(driverID)
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
 		ownerID, err := opts.UnmarshalOwnerIdentification(cardNumberData)
 		if err != nil {
@@ -148,7 +148,7 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			// OwnerIdentification is 16 bytes (no padding needed)
 			dst, err = AppendOwnerIdentification(dst, ownerID)
@@ -180,7 +180,7 @@ func AppendFullCardNumberAsString(dst []byte, cardNumber *ddv1.FullCardNumber, m
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
 			return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			return AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
 		}
-- 
2.43.0


From 03197f2f00bd73278fe7a2ac710c05957d1e5d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 05/44] fix: BcdString refuses values that do not fit its field
 instead of truncating them

---
 internal/dd/bcd_string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dd/bcd_string.go b/internal/dd/bcd_string.go
index fca325e..98134aa 100644
--- a/internal/dd/bcd_string.go
+++ b/internal/dd/bcd_string.go
@@ -2,6 +2,7 @@ package dd
 
 import (
 	"fmt"
+	"math"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -24,6 +25,9 @@ func (opts UnmarshalOptions) UnmarshalBcdString(input []byte) (*ddv1.BcdString,
 	if err != nil {
 		return nil, err
 	}
+	if value > math.MaxInt32 {
+		return nil, fmt.Errorf("BCD value %d does not fit in 32 bits", value)
+	}
 	var output ddv1.BcdString
 	output.SetValue(int32(value))
 	output.SetLength(int32(len(input)))
-- 
2.43.0


From 0998bc1fd4ea423fe39f2f17b76e099ed0db25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 06/44] fix: ApplicationIdentificationV2 reads and writes its
 five 16-bit fields

The file holds lengthOfFollowingData and four two-byte counts (Data
Dictionary 2.61a); the decoder took the first four bytes as counts.
---
 .../card/application_identification_v2.go     | 106 +++++++++---------
 1 file changed, 56 insertions(+), 50 deletions(-)

diff --git a/internal/card/application_identification_v2.go b/internal/card/application_identification_v2.go
index 9837022..b80eb13 100644
--- a/internal/card/application_identification_v2.go
+++ b/internal/card/application_identification_v2.go
@@ -10,19 +10,20 @@ import (
 
 // unmarshalApplicationIdentificationV2 parses the binary data for an EF_ApplicationIdentificationV2 record.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
+// The data type `DriverCardApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.61a.
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData        INTEGER(0..65535),
+//	    noOfBorderCrossingRecords    INTEGER(0..65535),
+//	    noOfLoadUnloadRecords        INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords     INTEGER(0..65535),
+//	    vuConfigurationLengthRange   INTEGER(0..65535)
 //	}
 func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (*cardv1.ApplicationIdentificationV2, error) {
 	const (
-		lenEfApplicationIdentificationV2 = 4 // EF_ApplicationIdentificationV2 record size
+		lenEfApplicationIdentificationV2 = 10 // EF_ApplicationIdentificationV2 record size
 	)
 
 	if len(data) < lenEfApplicationIdentificationV2 {
@@ -34,29 +35,36 @@ func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (
 	// For now, assume this is a driver card and create the driver data
 	driver := &cardv1.ApplicationIdentificationV2_Driver{}
 
-	// Read border crossing records count (1 byte)
-	var borderCrossingCount byte
+	// Read length of following data (2 bytes)
+	var lengthOfFollowingData uint16
+	if err := binary.Read(r, binary.BigEndian, &lengthOfFollowingData); err != nil {
+		return nil, fmt.Errorf("failed to read length of following data: %w", err)
+	}
+	driver.SetLengthOfFollowingData(int32(lengthOfFollowingData))
+
+	// Read border crossing records count (2 bytes)
+	var borderCrossingCount uint16
 	if err := binary.Read(r, binary.BigEndian, &borderCrossingCount); err != nil {
 		return nil, fmt.Errorf("failed to read border crossing records count: %w", err)
 	}
 	driver.SetBorderCrossingRecordsCount(int32(borderCrossingCount))
 
-	// Read load/unload records count (1 byte)
-	var loadUnloadCount byte
+	// Read load/unload records count (2 bytes)
+	var loadUnloadCount uint16
 	if err := binary.Read(r, binary.BigEndian, &loadUnloadCount); err != nil {
 		return nil, fmt.Errorf("failed to read load/unload records count: %w", err)
 	}
 	driver.SetLoadUnloadRecordsCount(int32(loadUnloadCount))
 
-	// Read load type entry records count (1 byte)
-	var loadTypeCount byte
+	// Read load type entry records count (2 bytes)
+	var loadTypeCount uint16
 	if err := binary.Read(r, binary.BigEndian, &loadTypeCount); err != nil {
 		return nil, fmt.Errorf("failed to read load type entry records count: %w", err)
 	}
 	driver.SetLoadTypeEntryRecordsCount(int32(loadTypeCount))
 
-	// Read VU configuration length range (1 byte)
-	var vuConfigRange byte
+	// Read VU configuration length range (2 bytes)
+	var vuConfigRange uint16
 	if err := binary.Read(r, binary.BigEndian, &vuConfigRange); err != nil {
 		return nil, fmt.Errorf("failed to read VU configuration length range: %w", err)
 	}
@@ -71,60 +79,58 @@ func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (
 
 // AppendCardApplicationIdentificationV2 appends application identification V2 data to a byte slice.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
+// The data type `DriverCardApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.61a.
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData        INTEGER(0..65535),
+//	    noOfBorderCrossingRecords    INTEGER(0..65535),
+//	    noOfLoadUnloadRecords        INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords     INTEGER(0..65535),
+//	    vuConfigurationLengthRange   INTEGER(0..65535)
 //	}
 func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.ApplicationIdentificationV2) ([]byte, error) {
 	if appIdV2 == nil {
 		return data, nil
 	}
 
-	// Get the appropriate nested message based on card type
-	var borderCrossingRecords, loadUnloadRecords, loadTypeEntryRecords, vuConfigLength int32
+	// Get the fields in their order in the file, based on card type
+	var fields []int32
 
 	switch appIdV2.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
-		if driver := appIdV2.GetDriver(); driver != nil {
-			borderCrossingRecords = driver.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = driver.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = driver.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = driver.GetVuConfigurationLengthRange()
+		driver := appIdV2.GetDriver()
+		fields = []int32{
+			driver.GetLengthOfFollowingData(),
+			driver.GetBorderCrossingRecordsCount(),
+			driver.GetLoadUnloadRecordsCount(),
+			driver.GetLoadTypeEntryRecordsCount(),
+			driver.GetVuConfigurationLengthRange(),
 		}
 	case cardv1.CardType_WORKSHOP_CARD:
-		if workshop := appIdV2.GetWorkshop(); workshop != nil {
-			borderCrossingRecords = workshop.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = workshop.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = workshop.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = workshop.GetVuConfigurationLengthRange()
+		workshop := appIdV2.GetWorkshop()
+		fields = []int32{
+			workshop.GetLengthOfFollowingData(),
+			workshop.GetBorderCrossingRecordsCount(),
+			workshop.GetLoadUnloadRecordsCount(),
+			workshop.GetLoadTypeEntryRecordsCount(),
+			workshop.GetVuConfigurationLengthRange(),
 		}
 	case cardv1.CardType_COMPANY_CARD:
-		if company := appIdV2.GetCompany(); company != nil {
-			vuConfigLength = company.GetVuConfigurationLengthRange()
-		}
+		company := appIdV2.GetCompany()
+		fields = []int32{company.GetLengthOfFollowingData(), company.GetVuConfigurationLengthRange()}
 	case cardv1.CardType_CONTROL_CARD:
-		if control := appIdV2.GetControl(); control != nil {
-			vuConfigLength = control.GetVuConfigurationLengthRange()
-		}
+		control := appIdV2.GetControl()
+		fields = []int32{control.GetLengthOfFollowingData(), control.GetVuConfigurationLengthRange()}
+	default:
+		return nil, fmt.Errorf("unsupported card type for application identification V2: %v", appIdV2.GetCardType())
 	}
 
-	// Border crossing records count (1 byte)
-	data = append(data, byte(borderCrossingRecords))
-
-	// Load/unload records count (1 byte)
-	data = append(data, byte(loadUnloadRecords))
-
-	// Load type entry records count (1 byte)
-	data = append(data, byte(loadTypeEntryRecords))
-
-	// VU configuration length range (1 byte)
-	data = append(data, byte(vuConfigLength))
+	// Each field takes 2 bytes
+	for _, field := range fields {
+		data = binary.BigEndian.AppendUint16(data, uint16(field))
+	}
 
 	return data, nil
 }
-- 
2.43.0


From 42d2812dd0f9ffc159e689738a1a244c48b4bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 07/44] fix: ControlActivityData decodes and encodes its
 control type and card number

The 18 byte FullCardNumber was taken as the text of a driver card number and
the unused bits of the control type were dropped on encoding.
---
 internal/card/control_activity.go | 56 +++++++------------------------
 1 file changed, 13 insertions(+), 43 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 3810245..65b8fd2 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -65,29 +65,18 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 	target.SetControlTime(controlTimestamp)
 	offset += 4
 
-	// Read control card number (18 bytes) - this should be parsed as a proper FullCardNumberAndGeneration
-	// For now, create a basic structure - this needs proper protocol parsing
-	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
-
-	fullCardNumber := &ddv1.FullCardNumber{}
-	fullCardNumber.SetCardType(ddv1.EquipmentType_DRIVER_CARD)
-
-	// Read the card number as IA5 string
+	// Read control card number (18 bytes)
 	if offset+18 > len(data) {
 		return nil, fmt.Errorf("insufficient data for control card number")
 	}
-	cardNumberStr, err := opts.UnmarshalIa5StringValue(data[offset : offset+18])
+	fullCardNumber, err := opts.UnmarshalFullCardNumber(data[offset : offset+18])
 	if err != nil {
 		return nil, fmt.Errorf("failed to read control card number: %w", err)
 	}
 	offset += 18
 
-	// Create driver identification with the card number
-	driverID := &ddv1.DriverIdentification{}
-	driverID.SetDriverIdentificationNumber(cardNumberStr)
-	fullCardNumber.SetDriverIdentification(driverID)
-
 	// Set the full card number in the generation wrapper
+	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
 	fullCardNumberAndGeneration.SetFullCardNumber(fullCardNumber)
 	// Default to Generation 1 for now - this should be determined from context
 	fullCardNumberAndGeneration.SetGeneration(ddv1.Generation_GENERATION_1)
@@ -160,36 +149,17 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 	}
 
 	// Valid record: serialize semantic data
+	var err error
+
 	// Control type (1 byte)
-	controlType := controlData.GetControlType()
-	var controlTypeByte byte
-	if controlType != nil {
-		// Build bitmask from boolean fields
-		// Structure: 'cvpdexxx'B
-		// - 'c': card downloading
-		// - 'v': VU downloading
-		// - 'p': printing
-		// - 'd': display
-		// - 'e': calibration checking
-		if controlType.GetCardDownloading() {
-			controlTypeByte |= 0x80 // bit 7
-		}
-		if controlType.GetVuDownloading() {
-			controlTypeByte |= 0x40 // bit 6
-		}
-		if controlType.GetPrinting() {
-			controlTypeByte |= 0x20 // bit 5
-		}
-		if controlType.GetDisplay() {
-			controlTypeByte |= 0x10 // bit 4
-		}
-		if controlType.GetCalibrationChecking() {
-			controlTypeByte |= 0x08 // bit 3
+	if controlType := controlData.GetControlType(); controlType != nil {
+		data, err = dd.AppendControlType(data, controlType)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append control type: %w", err)
 		}
+	} else {
+		data = append(data, 0x00)
 	}
-	data = append(data, controlTypeByte)
-
-	var err error
 
 	// Control time (4 bytes)
 	data, err = dd.AppendTimeReal(data, controlData.GetControlTime())
@@ -198,9 +168,9 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 	}
 
 	// Control card number (18 bytes)
-	data, err = dd.AppendFullCardNumberAsString(data, controlData.GetControlCardNumber().GetFullCardNumber(), 18)
+	data, err = dd.AppendFullCardNumber(data, controlData.GetControlCardNumber().GetFullCardNumber())
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("failed to append control card number: %w", err)
 	}
 
 	// Vehicle registration (15 bytes total: 1 byte nation + 14 bytes number)
-- 
2.43.0


From e9076e9ea0fcc2bc199d3aeb557169becb0e4052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 08/44] fix: Identification recognises card replacement and
 renewal indices beyond 9

---
 internal/card/identification.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index fd549cc..a0f3f5d 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -20,6 +20,12 @@ func createIA5StringValue(value string, length int32) *ddv1.Ia5StringValue {
 	return sv
 }
 
+// isCardIndex reports whether c is a card replacement or renewal index,
+// which count '0' to '9' and then 'A' to 'Z' (Data Dictionary, Sections 2.30 and 2.31).
+func isCardIndex(c byte) bool {
+	return c >= '0' && c <= '9' || c >= 'A' && c <= 'Z'
+}
+
 // unmarshalIdentification parses the binary data for an EF_Identification record.
 //
 // The data type `CardIdentification` is specified in the Data Dictionary, Section 2.1.
@@ -88,10 +94,8 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	// Try to parse as driver card first (14 + 1 + 1 format)
 	driverIdentification, err := opts.UnmarshalIa5StringValue(cardNumberData[0:14])
 	if err == nil {
-		// Check if bytes 14 and 15 are single digits (0-9)
-		replacementByte := cardNumberData[14]
-		renewalByte := cardNumberData[15]
-		if replacementByte >= '0' && replacementByte <= '9' && renewalByte >= '0' && renewalByte <= '9' {
+		// Check if bytes 14 and 15 are card indices (0-9, then A-Z)
+		if isCardIndex(cardNumberData[14]) && isCardIndex(cardNumberData[15]) {
 			// This looks like a driver card format
 			driverID := &ddv1.DriverIdentification{}
 			driverID.SetDriverIdentificationNumber(driverIdentification)
-- 
2.43.0


From 8608352e68962f88dfd808ff684c3247d67ae08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 09/44] fix: a rest starting at 00:00 in the driver slot is
 kept when decoding daily activities

---
 internal/card/activity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 061c706..4a5783c 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -178,9 +178,9 @@ func (opts UnmarshalOptions) parseSingleActivityDailyRecord(data []byte) (*cardv
 	var activityChanges []*ddv1.ActivityChangeInfo
 
 	for offset+2 <= len(data) {
-		// Check for invalid entries before parsing (all zeros or all ones)
+		// Skip unused entries (all ones); all zeros is a valid entry (driver slot, rest at 00:00)
 		changeData := binary.BigEndian.Uint16(data[offset : offset+2])
-		if changeData == 0 || changeData == 0xFFFF {
+		if changeData == 0xFFFF {
 			offset += 2
 			continue
 		}
-- 
2.43.0


From daea0176eff24f5c440533befe51272bb644f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 10/44] fix: the activity buffer walk follows records whose
 header wraps and stays within the buffer

---
 internal/card/activity.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 4a5783c..4fd7664 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
 
@@ -60,7 +61,7 @@ func (opts UnmarshalOptions) unmarshalDriverActivityData(data []byte) (*cardv1.D
 
 	// The rest of the data is the cyclic buffer of daily records.
 	activityData := make([]byte, r.Len())
-	if _, err := r.Read(activityData); err != nil {
+	if _, err := io.ReadFull(r, activityData); err != nil {
 		return nil, fmt.Errorf("failed to read activity daily records: %w", err)
 	}
 
@@ -261,7 +262,7 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 type cyclicRecordIterator struct {
 	buffer      []byte
 	currentPos  int
-	recordCount int
+	totalLength int // bytes of the records visited so far
 	err         error
 
 	// Current record state
@@ -283,24 +284,23 @@ func NewCyclicRecordIterator(buffer []byte, startPos int) *cyclicRecordIterator
 // Returns true if a record was found, false if end of chain or error.
 // The iterator traverses backwards from newest to oldest record.
 func (it *cyclicRecordIterator) Next() bool {
-	const maxRecords = 366 // Safety limit to prevent infinite loops (max days per year + 1)
 	if it.err != nil {
 		return false
 	}
-	if it.recordCount >= maxRecords {
-		it.err = fmt.Errorf("exceeded maximum record count (%d), possible infinite loop", maxRecords)
-		return false
-	}
 	if len(it.buffer) == 0 {
 		return false // No data to parse
 	}
-	// Validate current position for reading header
-	if it.currentPos < 0 || it.currentPos+4 > len(it.buffer) {
-		return false // Invalid position for header
+	// Validate current position
+	if it.currentPos < 0 || it.currentPos >= len(it.buffer) {
+		return false // Outside the buffer
+	}
+	// Read record header (4 bytes: prevRecordLength + currentRecordLength), which may wrap around
+	var header [4]byte
+	for i := range header {
+		header[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
 	}
-	// Read record header (4 bytes: prevRecordLength + currentRecordLength)
-	prevRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos : it.currentPos+2]))
-	currentRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos+2 : it.currentPos+4]))
+	prevRecordLength := int(binary.BigEndian.Uint16(header[0:2]))
+	currentRecordLength := int(binary.BigEndian.Uint16(header[2:4]))
 	if currentRecordLength == 0 {
 		return false // Zero-length record signifies end of chain
 	}
@@ -309,6 +309,12 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.err = fmt.Errorf("invalid record length %d at position %d", currentRecordLength, it.currentPos)
 		return false
 	}
+	// Records do not overlap, so together they fit in the buffer. This also ends loops.
+	if currentRecordLength > len(it.buffer)-it.totalLength {
+		it.err = fmt.Errorf("record of length %d at position %d overlaps other records", currentRecordLength, it.currentPos)
+		return false
+	}
+	it.totalLength += currentRecordLength
 	// Store current record information
 	it.recordStart = it.currentPos
 	it.recordLength = currentRecordLength
@@ -317,7 +323,6 @@ func (it *cyclicRecordIterator) Next() bool {
 	for i := 0; i < currentRecordLength; i++ {
 		it.recordBytes[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
 	}
-	it.recordCount++
 	// Move to previous record for next iteration
 	if prevRecordLength == 0 {
 		// End of chain marker - no more records
-- 
2.43.0


From 55a74acdb828ff564e80c409631e808c62bb69db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 11/44] fix: raw card records of the maximum length are decoded

---
 internal/card/rawcardfile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 9de8894..ada2b28 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"io"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
@@ -14,6 +15,7 @@ import (
 func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 	var output cardv1.RawCardFile
 	sc := bufio.NewScanner(bytes.NewReader(input))
+	sc.Buffer(nil, 5+math.MaxUint16) // the longest TLV record
 	sc.Split(scanCardFile)
 	for sc.Scan() {
 		record, err := unmarshalRawCardFileRecord(sc.Bytes())
@@ -87,7 +89,7 @@ func unmarshalRawCardFileRecord(input []byte) (*cardv1.RawCardFile_Record, error
 	output.SetLength(int32(length))
 	// Parse value - make a copy since input slice may be reused by scanner
 	value := make([]byte, length)
-	copy(value, input[5:5+length])
+	copy(value, input[5:5+int(length)])
 	output.SetValue(value)
 	// Determine content type and generation based on appendix byte
 	// Per Chapter 12: Appendix encodes both content type and generation in bit pattern
-- 
2.43.0


From 0244ed012c7512539b7db1b95d7bdda01585c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 12/44] fix: records of large files keep their own bytes
 instead of the scanner buffer

---
 internal/card/events.go             |  2 +-
 internal/card/faults.go             |  2 +-
 internal/card/vehicle_units_used.go |  2 +-
 internal/vu/activities.go           | 16 ++++++++--------
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 7419d2c..7908806 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 
 	var records []*cardv1.EventsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		// Check if this is a valid record by examining the event begin time (first 4 bytes after event type)
 		// Event type is 1 byte, so event begin time starts at byte 1
 		eventBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 7c2724f..fafe823 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 
 	var records []*cardv1.FaultsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		// Check if this is a valid record by examining the fault begin time (first 4 bytes after fault type)
 		// Fault type is 1 byte, so fault begin time starts at byte 1
 		faultBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 8d8e680..154fc39 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -91,7 +91,7 @@ func parseCardVehicleUnitRecords(data []byte, opts UnmarshalOptions) ([]*cardv1.
 
 	var records []*cardv1.VehicleUnitsUsed_Record
 	for scanner.Scan() {
-		record, err := unmarshalCardVehicleUnitRecord(scanner.Bytes(), opts)
+		record, err := unmarshalCardVehicleUnitRecord(bytes.Clone(scanner.Bytes()), opts) // the scanner reuses its buffer
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal vehicle unit record: %w", err)
 		}
diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index 3d59e67..d10d6f9 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -480,7 +480,7 @@ func parseVuCardIWData(data []byte, offset int) ([]*vuv1.Activities_CardIWRecord
 			break
 		}
 
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		record, err := unmarshalVuCardIWRecord(recordData)
 		if err != nil {
 			return nil, offset, fmt.Errorf("failed to parse IW record %d: %w", recordCount, err)
@@ -1089,7 +1089,7 @@ func parseVuActivityDailyRecordArray(data []byte, offset int) ([]*ddv1.ActivityC
 			break
 		}
 
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		change, err := opts.UnmarshalActivityChangeInfo(recordData)
 		if err != nil {
 			return nil, offset, fmt.Errorf("failed to parse ActivityChangeInfo record %d: %w", recordCount, err)
@@ -1170,7 +1170,7 @@ func parseVuPlaceDailyWorkPeriodRecordArray(data []byte, offset int) ([]*vuv1.Ac
 			break
 		}
 
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		record, err := unmarshalVuPlaceRecord(recordData)
 		if err != nil {
 			return nil, offset, fmt.Errorf("failed to parse PlaceRecord %d: %w", recordCount, err)
@@ -1251,7 +1251,7 @@ func parseVuGNSSADRecordArray(data []byte, offset int) ([]*vuv1.Activities_GnssR
 			break
 		}
 
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		record, err := unmarshalVuGNSSADRecord(recordData)
 		if err != nil {
 			return nil, offset, fmt.Errorf("failed to parse VuGNSSADRecord %d: %w", recordCount, err)
@@ -1381,7 +1381,7 @@ func parseVuSpecificConditionRecordArray(data []byte, offset int) ([]*ddv1.Speci
 			break
 		}
 
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		record, err := opts.UnmarshalSpecificConditionRecord(recordData)
 		if err != nil {
 			return nil, offset, fmt.Errorf("failed to parse SpecificConditionRecord %d: %w", recordCount, err)
@@ -1462,7 +1462,7 @@ func parseVuBorderCrossingRecordArray(data []byte, offset int) ([]*vuv1.Activiti
 			break
 		}
 
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		record, err := unmarshalVuBorderCrossingRecord(recordData)
 		if err != nil {
 			return nil, offset, fmt.Errorf("failed to parse VuBorderCrossingRecord %d: %w", recordCount, err)
@@ -1633,7 +1633,7 @@ func parseVuLoadUnloadRecordArray(data []byte, offset int) ([]*vuv1.Activities_L
 			break
 		}
 
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		record, err := unmarshalVuLoadUnloadRecord(recordData)
 		if err != nil {
 			return nil, offset, fmt.Errorf("failed to parse VuLoadUnloadRecord %d: %w", recordCount, err)
@@ -1776,7 +1776,7 @@ func parseSignatureRecordArray(data []byte, offset int) ([]byte, int, error) {
 		return nil, offset, fmt.Errorf("no signature record found")
 	}
 
-	recordData := scanner.Bytes()
+	recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 
 	// Validate record type (should be 0x08 for Signature)
 	recordType := binary.BigEndian.Uint16(recordData[0:2])
-- 
2.43.0


From 9186d974845ffea5a22af5ed2ed9872e11e752c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:15 +0000
Subject: [PATCH 13/44] fix: a signature of the other generation is not
 attached to a card block

---
 internal/card/driver_card_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1da85a1..f2b4564 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -71,7 +71,7 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 		var signature []byte
 		if i+1 < len(input.GetRecords()) {
 			nextRecord := input.GetRecords()[i+1]
-			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
+			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetGeneration() == efGeneration && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
 				signature = nextRecord.GetValue()
 				i++
 			}
-- 
2.43.0


From 632a4c5e3c9d337aeec846a9ba2e3827cf543f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 14/44] fix: the Gen2 card mutual authentication certificate
 (C100h) of a driver card is decoded

---
 internal/card/driver_card_file.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index f2b4564..c7ae0c9 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -77,7 +77,13 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 		}
 
-		switch record.GetFile() {
+		// EF Card_Certificate (Gen1) and EF CardMA_Certificate (Gen2) share FID C100h
+		file := record.GetFile()
+		if file == cardv1.ElementaryFileType_EF_CARD_CERTIFICATE && efGeneration == ddv1.Generation_GENERATION_2 {
+			file = cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE
+		}
+
+		switch file {
 		case cardv1.ElementaryFileType_EF_ICC:
 			icc, err := opts.unmarshalIcc(record.GetValue())
 			if err != nil {
-- 
2.43.0


From 1a3b079ff91d19e1ce7e42e18fcaaecef96081af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 15/44] fix: Gen2-only files with a Gen1 tag are not put into
 the Gen2 application

---
 internal/card/driver_card_file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index c7ae0c9..fceb739 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -456,6 +456,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 
 		case cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED:
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_VEHICLE_UNITS_USED should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			vehicleUnits, err := opts.unmarshalVehicleUnitsUsed(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -471,6 +474,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			tachographG2DF.SetVehicleUnitsUsed(vehicleUnits)
 
 		case cardv1.ElementaryFileType_EF_GNSS_PLACES:
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_GNSS_PLACES should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			gnssPlaces, err := opts.unmarshalGnssPlaces(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -486,6 +492,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			tachographG2DF.SetGnssPlaces(gnssPlaces)
 
 		case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION_V2:
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_APPLICATION_IDENTIFICATION_V2 should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			appIdV2, err := opts.unmarshalApplicationIdentificationV2(record.GetValue())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From a94a6d5b3c87db233797a815e6251eaae2f4e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 16/44] fix: encoding a driver card writes the signatures it
 holds instead of zeros

---
 internal/card/driver_card_file.go | 46 +++++++++++++++++++------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index fceb739..a27fb09 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 
 	"google.golang.org/protobuf/proto"
@@ -674,7 +675,7 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, &compositeMessage{data: valBuf}, func(dst []byte, msg *compositeMessage) ([]byte, error) {
+		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, &compositeMessage{data: valBuf, signed: identification}, func(dst []byte, msg *compositeMessage) ([]byte, error) {
 			return append(dst, msg.data...), nil
 		})
 		if err != nil {
@@ -844,6 +845,7 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 // compositeMessage is a helper type for marshalling composite TLV values
 type compositeMessage struct {
 	data []byte
+	signed
 }
 
 // ProtoReflect implements proto.Message
@@ -928,15 +930,30 @@ func appendTlv[T proto.Message](
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x01, 128 bytes of zeros for now)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x01)                       // appendix for signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
+	// Add signature block (FID + appendix 0x01) if the file has a signature
+	return appendSignature(dst, tag, 0x01, msg)
+}
 
-	return dst, nil
+// signed is implemented by the elementary files that can have a signature.
+type signed interface {
+	HasSignature() bool
+	GetSignature() []byte
+}
+
+// appendSignature appends the signature block of an elementary file, if it has one.
+func appendSignature(dst []byte, tag int32, appendix byte, msg proto.Message) ([]byte, error) {
+	file, ok := msg.(signed)
+	if !ok || !file.HasSignature() {
+		return dst, nil
+	}
+	signature := file.GetSignature()
+	if len(signature) > math.MaxUint16 {
+		return nil, fmt.Errorf("signature of %d bytes is too long", len(signature))
+	}
+	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
+	dst = append(dst, appendix)
+	dst = binary.BigEndian.AppendUint16(dst, uint16(len(signature)))
+	return append(dst, signature...), nil
 }
 
 // appendTlvUnsigned is like appendTlv but doesn't add a signature block
@@ -1017,15 +1034,8 @@ func appendTlvG2[T proto.Message](
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x03, 128 bytes of zeros for now) - Gen2 DF
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x03)                       // appendix for Gen2 signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
-
-	return dst, nil
+	// Add signature block (FID + appendix 0x03) if the file has a signature
+	return appendSignature(dst, tag, 0x03, msg)
 }
 
 // CertificateResolver provides access to tachograph certificates
-- 
2.43.0


From 7fbc10728e3b2cdd7daca6a9cd624383c62a48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 17/44] fix: encoding a driver card writes all files of the
 second generation application

---
 internal/card/driver_card_file.go | 75 +++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 9 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index a27fb09..4cbf5fa 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -666,18 +666,11 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 
 	// 4. EF_IDENTIFICATION (0x0520) - composite file
 	if identification := card.GetTachograph().GetIdentification(); identification != nil {
-		valBuf := make([]byte, 0, 143)
-		valBuf, err = appendCardIdentification(valBuf, identification.GetCard())
+		composite, err := compositeIdentification(identification)
 		if err != nil {
 			return nil, err
 		}
-		valBuf, err = appendDriverCardHolderIdentification(valBuf, identification.GetDriverCardHolder())
-		if err != nil {
-			return nil, err
-		}
-		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, &compositeMessage{data: valBuf, signed: identification}, func(dst []byte, msg *compositeMessage) ([]byte, error) {
-			return append(dst, msg.data...), nil
-		})
+		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, composite, appendComposite)
 		if err != nil {
 			return nil, err
 		}
@@ -738,6 +731,37 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO, tachographG2.GetDrivingLicenceInfo(), appendDrivingLicenceInfo)
+		if err != nil {
+			return nil, err
+		}
+
+		if identification := tachographG2.GetIdentification(); identification != nil {
+			composite, err := compositeIdentification(identification)
+			if err != nil {
+				return nil, err
+			}
+			dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, composite, appendComposite)
+			if err != nil {
+				return nil, err
+			}
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, tachographG2.GetEventsData(), appendEventsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_FAULTS_DATA, tachographG2.GetFaultsData(), appendFaultsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA, tachographG2.GetDriverActivityData(), appendDriverActivity)
+		if err != nil {
+			return nil, err
+		}
+
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLES_USED, tachographG2.GetVehiclesUsed(), appendVehiclesUsedG2)
 		if err != nil {
 			return nil, err
@@ -748,12 +772,27 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CURRENT_USAGE, tachographG2.GetCurrentUsage(), appendCurrentUsage)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA, tachographG2.GetControlActivityData(), appendCardControlActivityData)
+		if err != nil {
+			return nil, err
+		}
+
 		// SpecificConditions (Gen2)
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS, tachographG2.GetSpecificConditions(), appendCardSpecificConditionsG2)
 		if err != nil {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER, tachographG2.GetCardDownload(), appendCardDownload)
+		if err != nil {
+			return nil, err
+		}
+
 		// Marshal Gen2-exclusive EFs
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED, tachographG2.GetVehicleUnitsUsed(), appendCardVehicleUnitsUsed)
 		if err != nil {
@@ -848,6 +887,24 @@ type compositeMessage struct {
 	signed
 }
 
+// compositeIdentification encodes the two parts of EF_Identification.
+func compositeIdentification(identification *cardv1.Identification) (*compositeMessage, error) {
+	data, err := appendCardIdentification(make([]byte, 0, 143), identification.GetCard())
+	if err != nil {
+		return nil, err
+	}
+	data, err = appendDriverCardHolderIdentification(data, identification.GetDriverCardHolder())
+	if err != nil {
+		return nil, err
+	}
+	return &compositeMessage{data: data, signed: identification}, nil
+}
+
+// appendComposite appends the already encoded value.
+func appendComposite(dst []byte, msg *compositeMessage) ([]byte, error) {
+	return append(dst, msg.data...), nil
+}
+
 // ProtoReflect implements proto.Message
 func (m *compositeMessage) ProtoReflect() protoreflect.Message {
 	return nil // Not needed for our use case
-- 
2.43.0


From 7487c5e0606fe0c413b2b589cfa53b1de1c91111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 18/44] fix: encoding refuses elementary files longer than
 their 16-bit length can tell

---
 internal/card/driver_card_file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 4cbf5fa..f207160 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -983,6 +983,9 @@ func appendTlv[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("%v of %d bytes is too long", fileType, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
@@ -1046,6 +1049,9 @@ func appendTlvUnsigned[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("%v of %d bytes is too long", fileType, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
@@ -1087,6 +1093,9 @@ func appendTlvG2[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("%v of %d bytes is too long", fileType, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
-- 
2.43.0


From a4ecc133fe47e663d50845b12b7a043b572b352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 19/44] fix: EF Company_Activity_Data is not part of driver and
 workshop cards

---
 .../connect/tachograph/card/v1/card_type.pb.go   | 16 ++++++++--------
 .../connect/tachograph/card/v1/card_type.proto   |  8 --------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go b/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
index da2faa8..b370a23 100644
--- a/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
+++ b/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
@@ -119,15 +119,15 @@ var File_wayplatform_connect_tachograph_card_v1_card_type_proto protoreflect.Fil
 
 const file_wayplatform_connect_tachograph_card_v1_card_type_proto_rawDesc = "" +
 	"\n" +
-	"6wayplatform/connect/tachograph/card/v1/card_type.proto\x12&wayplatform.connect.tachograph.card.v1\x1a;wayplatform/connect/tachograph/card/v1/file_structure.proto*\xde\b\n" +
+	"6wayplatform/connect/tachograph/card/v1/card_type.proto\x12&wayplatform.connect.tachograph.card.v1\x1a;wayplatform/connect/tachograph/card/v1/file_structure.proto*\xd2\b\n" +
 	"\bCardType\x12\x19\n" +
-	"\x15CARD_TYPE_UNSPECIFIED\x10\x00\x12\xc6\x02\n" +
-	"\vDRIVER_CARD\x10\x01\x1a\xb4\x02\xf2\xc7\x18\xaf\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"X\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xae\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x12\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10 (\x01\x12\xdc\x02\n" +
-	"\rWORKSHOP_CARD\x10\x02\x1a\xc8\x02\xf2\xc7\x18\xc3\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"^\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xbc\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x12\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10\x1f(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
+	"\x15CARD_TYPE_UNSPECIFIED\x10\x00\x12\xc0\x02\n" +
+	"\vDRIVER_CARD\x10\x01\x1a\xae\x02\xf2\xc7\x18\xa9\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"X\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xa8\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10 (\x01\x12\xd6\x02\n" +
+	"\rWORKSHOP_CARD\x10\x02\x1a\xc2\x02\xf2\xc7\x18\xbd\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"^\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xb6\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10\x1f(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
 	"\fCONTROL_CARD\x10\x03\x1a\x8d\x01\xf2\xc7\x18\x88\x01\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"\"\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x11\">\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x11\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
 	"\fCOMPANY_CARD\x10\x04\x1a\x8d\x01\xf2\xc7\x18\x88\x01\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"\"\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x12\">\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x12\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10 (\x01\x12I\n" +
 	"\x13GNSS_SIMULATED_CARD\x10\x05\x1a0\xf2\xc7\x18,\b\x01\"\x04\b\x03\x10\x01\"\"\b\x02\x18\x03\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10'\"\x04\b\x03\x10(B\xda\x02\n" +
diff --git a/proto/wayplatform/connect/tachograph/card/v1/card_type.proto b/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
index 890bcf7..229b344 100644
--- a/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
+++ b/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
@@ -199,10 +199,6 @@ enum CardType {
             type: EF
             ef: EF_VEHICLE_UNITS_USED
           },
-          {
-            type: EF
-            ef: EF_COMPANY_ACTIVITY_DATA
-          },
           {
             type: EF
             ef: EF_GNSS_PLACES
@@ -416,10 +412,6 @@ enum CardType {
             type: EF
             ef: EF_VEHICLE_UNITS_USED
           },
-          {
-            type: EF
-            ef: EF_COMPANY_ACTIVITY_DATA
-          },
           {
             type: EF
             ef: EF_GNSS_PLACES
-- 
2.43.0


From 069b8d2bb2b6fc9250f057cdd3899029393e4ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 20/44] fix: sizing a truncated vehicle unit transfer reports
 an error instead of panicking

---
 internal/vu/activities.go            | 8 ++++----
 internal/vu/detailed_speed.go        | 2 +-
 internal/vu/events_faults.go         | 8 ++++----
 internal/vu/overview.go              | 4 ++--
 internal/vu/raw_vehicle_unit_file.go | 4 ++--
 internal/vu/technical_data.go        | 2 +-
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index d10d6f9..be2f6c7 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -57,7 +57,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += 3 // OdometerValueMidnight
 
 	// VuCardIWData: 2 bytes count + variable records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfIWRecords")
 	}
 	noOfIWRecords := binary.BigEndian.Uint16(data[offset:])
@@ -71,7 +71,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfIWRecords) * vuCardIWRecordSize
 
 	// VuActivityDailyData: 2 bytes count + variable activity changes
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfActivityChanges")
 	}
 	noOfActivityChanges := binary.BigEndian.Uint16(data[offset:])
@@ -82,7 +82,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfActivityChanges) * activityChangeInfoSize
 
 	// VuPlaceDailyWorkPeriodData: 1 byte count + variable place records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfPlaceRecords")
 	}
 	noOfPlaceRecords := data[offset]
@@ -93,7 +93,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfPlaceRecords) * vuPlaceDailyWorkPeriodRecordSize
 
 	// VuSpecificConditionData: 2 bytes count + variable condition records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpecificConditionRecords")
 	}
 	noOfSpecificConditionRecords := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/detailed_speed.go b/internal/vu/detailed_speed.go
index a2b4386..2988c66 100644
--- a/internal/vu/detailed_speed.go
+++ b/internal/vu/detailed_speed.go
@@ -37,7 +37,7 @@ func sizeOfDetailedSpeedGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuDetailedSpeedData: 2 bytes count + variable speed blocks
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpeedBlocks")
 	}
 	noOfSpeedBlocks := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 23b4f67..186cc51 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -77,7 +77,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuFaultData: 1 byte count + variable fault records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuFaults")
 	}
 	noOfVuFaults := data[offset]
@@ -88,7 +88,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuFaults) * vuFaultRecordSize
 
 	// VuEventData: 1 byte count + variable event records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuEvents")
 	}
 	noOfVuEvents := data[offset]
@@ -102,7 +102,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += 9
 
 	// VuOverSpeedingEventData: 1 byte count + variable overspeed records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuOverSpeedingEvents")
 	}
 	noOfVuOverSpeedingEvents := data[offset]
@@ -113,7 +113,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuOverSpeedingEvents) * vuOverSpeedingEventRecordSize
 
 	// VuTimeAdjustmentData: 1 byte count + variable time adjustment records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuTimeAdjRecords")
 	}
 	noOfVuTimeAdjRecords := data[offset]
diff --git a/internal/vu/overview.go b/internal/vu/overview.go
index c33517e..ea726b2 100644
--- a/internal/vu/overview.go
+++ b/internal/vu/overview.go
@@ -58,7 +58,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += 58  // VuDownloadActivityData (4 + 18 + 36)
 
 	// VuCompanyLocksData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfLocks")
 	}
 	noOfLocks := data[offset]
@@ -70,7 +70,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += int(noOfLocks) * vuCompanyLocksRecordSize
 
 	// VuControlActivityData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfControls")
 	}
 	noOfControls := data[offset]
diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index 5e82277..d52b1ec 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -100,8 +100,8 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 // Total size = 5 + (recordSize * noOfRecords)
 func sizeOfRecordArray(data []byte, offset int) (int, error) {
 	const headerSize = 5
-	if len(data[offset:]) < headerSize {
-		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data[offset:]))
+	if len(data)-offset < headerSize {
+		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data)-offset)
 	}
 
 	recordSize := binary.BigEndian.Uint16(data[offset+1:])
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 5f1fbf6..9210b72 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -73,7 +73,7 @@ func sizeOfTechnicalDataGen1(data []byte) (int, error) {
 	offset += 20
 
 	// VuCalibrationData: 1 byte count + variable calibration records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuCalibrationRecords")
 	}
 	noOfVuCalibrationRecords := data[offset]
-- 
2.43.0


From fffa3899ead201bacd38e42a846b96bf1352867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 21/44] fix: overview card slots are decoded to the card type
 their code stands for

---
 internal/vu/overview_gen1.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index 59f1884..fcc02f7 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -137,8 +137,8 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 		return nil, fmt.Errorf("insufficient data for CardSlotsStatus")
 	}
 	cardSlotsStatus := value[offset]
-	driverSlot := ddv1.SlotCardType(cardSlotsStatus & 0x0F)
-	coDriverSlot := ddv1.SlotCardType((cardSlotsStatus >> 4) & 0x0F)
+	driverSlot := unmarshalSlotCardType(cardSlotsStatus & 0x0F)
+	coDriverSlot := unmarshalSlotCardType((cardSlotsStatus >> 4) & 0x0F)
 	overview.SetDriverSlotCard(driverSlot)
 	overview.SetCoDriverSlotCard(coDriverSlot)
 	offset += 1
@@ -311,6 +311,15 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 	return overview, nil
 }
 
+// unmarshalSlotCardType maps one half of a CardSlotsStatus byte to the card type it stands for.
+func unmarshalSlotCardType(slot byte) ddv1.SlotCardType {
+	slotCardType, err := dd.UnmarshalEnum[ddv1.SlotCardType](slot)
+	if err != nil {
+		return ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
+	return slotCardType
+}
+
 // appendOverviewGen1 marshals Gen1 Overview data using raw data painting.
 //
 // This function implements the raw data painting pattern: if raw_data is available
@@ -403,11 +412,11 @@ func appendOverviewGen1(dst []byte, overview *vuv1.OverviewGen1) ([]byte, error)
 	// CardSlotsStatus (1 byte)
 	driverSlot, err := dd.MarshalEnum(overview.GetDriverSlotCard())
 	if err != nil {
-		driverSlot = 0
+		driverSlot = canvas[offset] & 0x0F // keep the original value
 	}
 	coDriverSlot, err := dd.MarshalEnum(overview.GetCoDriverSlotCard())
 	if err != nil {
-		coDriverSlot = 0
+		coDriverSlot = canvas[offset] >> 4 // keep the original value
 	}
 	canvas[offset] = (coDriverSlot << 4) | (driverSlot & 0x0F)
 	offset += 1
-- 
2.43.0


From eec6cacb953a1de3d3647ef3f56ae714abd964ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 22/44] fix: second generation activities with all their record
 arrays are decoded

---
 internal/vu/activities_gen2_v1.go |  6 ++++++
 internal/vu/activities_gen2_v2.go | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/internal/vu/activities_gen2_v1.go b/internal/vu/activities_gen2_v1.go
index 16aa91f..6e7a458 100644
--- a/internal/vu/activities_gen2_v1.go
+++ b/internal/vu/activities_gen2_v1.go
@@ -19,6 +19,7 @@ import (
 //	    vuActivityDailyRecordArray            VuActivityDailyRecordArray,
 //	    vuPlaceDailyWorkPeriodRecordArray     VuPlaceDailyWorkPeriodRecordArray,
 //	    vuSpecificConditionRecordArray        VuSpecificConditionRecordArray,
+//	    vuGNSSADRecordArray                   VuGNSSADRecordArray,
 //	    signatureRecordArray                  SignatureRecordArray
 //	}
 //
@@ -75,6 +76,11 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/activities_gen2_v2.go b/internal/vu/activities_gen2_v2.go
index 082db25..2e3b4d1 100644
--- a/internal/vu/activities_gen2_v2.go
+++ b/internal/vu/activities_gen2_v2.go
@@ -19,6 +19,9 @@ import (
 //	    vuActivityDailyRecordArray            VuActivityDailyRecordArray,
 //	    vuPlaceDailyWorkPeriodRecordArray     VuPlaceDailyWorkPeriodRecordArray,
 //	    vuSpecificConditionRecordArray        VuSpecificConditionRecordArray,
+//	    vuGNSSADRecordArray                   VuGNSSADRecordArray,
+//	    vuBorderCrossingRecordArray           VuBorderCrossingRecordArray,
+//	    vuLoadUnloadRecordArray               VuLoadUnloadRecordArray,
 //	    signatureRecordArray                  SignatureRecordArray
 //	}
 //
@@ -75,6 +78,21 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
+	// VuBorderCrossingRecordArray
+	if err := skipRecordArray("VuBorderCrossing"); err != nil {
+		return nil, err
+	}
+
+	// VuLoadUnloadRecordArray
+	if err := skipRecordArray("VuLoadUnload"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
-- 
2.43.0


From 0797dc9532af42d94945d74de36d9c877c16c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 23/44] fix: second generation events and faults consist of six
 record arrays

---
 internal/vu/events_faults.go         | 9 +--------
 internal/vu/events_faults_gen2_v1.go | 4 ++++
 internal/vu/events_faults_gen2_v2.go | 4 ++++
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 186cc51..bf7d4cd 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -179,7 +179,7 @@ func sizeOfEventsAndFaultsGen2V1(data []byte) (int, error) {
 }
 
 // sizeOfEventsAndFaultsGen2V2 calculates size by parsing all Gen2 V2 RecordArrays.
-// Gen2 V2 has an additional VuTimeAdjustmentGNSSRecordArray.
+// It has the same record arrays as Gen2 V1.
 func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	offset := 0
 
@@ -218,13 +218,6 @@ func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuTimeAdjustmentGNSSRecordArray (Gen2 V2+)
-	size, err = sizeOfRecordArray(data, offset)
-	if err != nil {
-		return 0, fmt.Errorf("VuTimeAdjustmentGNSSRecordArray: %w", err)
-	}
-	offset += size
-
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
diff --git a/internal/vu/events_faults_gen2_v1.go b/internal/vu/events_faults_gen2_v1.go
index 2d8103b..0f1f8c8 100644
--- a/internal/vu/events_faults_gen2_v1.go
+++ b/internal/vu/events_faults_gen2_v1.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults_gen2_v2.go b/internal/vu/events_faults_gen2_v2.go
index b1f381e..c6e1416 100644
--- a/internal/vu/events_faults_gen2_v2.go
+++ b/internal/vu/events_faults_gen2_v2.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
-- 
2.43.0


From d97eb95c696d192e6f11fd7dbd01014f6261e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 24/44] fix: second generation technical data consists of eight
 record arrays

---
 internal/vu/technical_data.go         | 41 +++++++++++++++++++++++++--
 internal/vu/technical_data_gen2_v1.go | 14 ++++-----
 internal/vu/technical_data_gen2_v2.go | 14 ++++-----
 3 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 9210b72..d4823fe 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -107,6 +107,13 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// SensorExternalGNSSCoupledRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuCalibrationRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -114,6 +121,27 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuPowerSupplyInterruptionRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
+	}
+	offset += size
+
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -142,7 +170,7 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// SensorExternalGNSSCoupledRecordArray (Gen2 V2+)
+	// SensorExternalGNSSCoupledRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
@@ -156,14 +184,21 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuITSConsentRecordArray (Gen2 V2+)
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
 	}
 	offset += size
 
-	// VuPowerSupplyInterruptionRecordArray (Gen2 V2+)
+	// VuPowerSupplyInterruptionRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
diff --git a/internal/vu/technical_data_gen2_v1.go b/internal/vu/technical_data_gen2_v1.go
index 441cf72..1769ba1 100644
--- a/internal/vu/technical_data_gen2_v1.go
+++ b/internal/vu/technical_data_gen2_v1.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V1(value []byte) (*vuv1.TechnicalDataGen2V1, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("SensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("SensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
diff --git a/internal/vu/technical_data_gen2_v2.go b/internal/vu/technical_data_gen2_v2.go
index 72fc1d5..14cfaad 100644
--- a/internal/vu/technical_data_gen2_v2.go
+++ b/internal/vu/technical_data_gen2_v2.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V2(value []byte) (*vuv1.TechnicalDataGen2V2, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("SensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("SensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
-- 
2.43.0


From 7c42d8ea4360cefa27578acbe97d9a37f9e64593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 25/44] fix: a cleared current date time of an overview is
 written as no time

---
 internal/vu/overview_gen1.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index fcc02f7..2b1cf68 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -379,14 +379,11 @@ func appendOverviewGen1(dst []byte, overview *vuv1.OverviewGen1) ([]byte, error)
 	offset += 15
 
 	// CurrentDateTime (4 bytes)
-	currentTime := overview.GetCurrentDateTime()
-	if currentTime != nil {
-		timeBytes, err := dd.AppendTimeReal(nil, currentTime)
-		if err != nil {
-			return nil, fmt.Errorf("append current time: %w", err)
-		}
-		copy(canvas[offset:offset+4], timeBytes)
+	timeBytes, err := dd.AppendTimeReal(nil, overview.GetCurrentDateTime())
+	if err != nil {
+		return nil, fmt.Errorf("append current time: %w", err)
 	}
+	copy(canvas[offset:offset+4], timeBytes)
 	offset += 4
 
 	// VuDownloadablePeriod (8 bytes)
-- 
2.43.0


From a86f365b76ee9094eddc4cb202c73b8de79467c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 26/44] fix: refuse to encode an overview with more records
 than its count bytes can tell

---
 internal/vu/overview_gen1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index 2b1cf68..85efcc5 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -333,6 +333,9 @@ func appendOverviewGen1(dst []byte, overview *vuv1.OverviewGen1) ([]byte, error)
 	// Calculate expected size
 	noOfLocks := len(overview.GetCompanyLocks())
 	noOfControls := len(overview.GetControlActivities())
+	if noOfLocks > 255 || noOfControls > 255 {
+		return nil, fmt.Errorf("too many company locks (%d) or control activities (%d): at most 255 can be counted", noOfLocks, noOfControls)
+	}
 	expectedSize := 491 + 1 + (noOfLocks * 98) + 1 + (noOfControls * 31) + 128
 	// 491 = 194 + 194 + 17 + 15 + 4 + 8 + 1 + 58
 
-- 
2.43.0


From 0fc4f4bbc8bd4210bddd43b4928e6f0b77fd5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 27/44] fix: a certificate whose RSA verification cannot start
 is not left marked valid

---
 internal/security/rsa_verify.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 64c5263..c7ed6fa 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -19,6 +19,7 @@ import (
 // See Appendix 11, Section 3.3 for the complete specification.
 func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securityv1.RsaCertificate) error {
 	if caCert == nil {
+		markInvalid(cert)
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
 
@@ -39,6 +40,7 @@ func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securit
 // RSA certificate verification.
 func VerifyRsaCertificateWithRoot(cert *securityv1.RsaCertificate, root *securityv1.RootCertificate) error {
 	if root == nil {
+		markInvalid(cert)
 		return fmt.Errorf("root certificate cannot be nil")
 	}
 
@@ -49,6 +51,13 @@ func VerifyRsaCertificateWithRoot(cert *securityv1.RsaCertificate, root *securit
 	return verifyRsaCertificate(cert, rootModulus, rootExponent, rootKeyID)
 }
 
+// markInvalid records that a certificate could not be verified.
+func markInvalid(cert *securityv1.RsaCertificate) {
+	if cert != nil {
+		cert.SetSignatureValid(false)
+	}
+}
+
 // verifyRsaCertificate is the internal implementation that performs signature recovery
 // and verification on an RSA certificate using the provided RSA public key components.
 //
@@ -92,6 +101,9 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 		return fmt.Errorf("certificate cannot be nil")
 	}
 
+	// Not valid until every check has passed
+	cert.SetSignatureValid(false)
+
 	rawData := cert.GetRawData()
 	if len(rawData) != 194 {
 		return fmt.Errorf("invalid certificate length: got %d, want 194", len(rawData))
-- 
2.43.0


From d4393415ad0c9e35f7f76f3fea3b8db49ad72137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 28/44] fix: refuse an RSA issuer key with a zero modulus
 instead of computing an unbounded power

---
 internal/security/rsa_verify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index c7ed6fa..8df1d08 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -141,6 +141,10 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	sigInt := new(big.Int).SetBytes(signature)
 	modulus := new(big.Int).SetBytes(caModulus)
 	exponent := new(big.Int).SetBytes(caExponent)
+	if modulus.Sign() == 0 {
+		// Exp without a modulus would compute the plain power
+		return fmt.Errorf("CA public key invalid (modulus is zero)")
+	}
 
 	recovered := new(big.Int).Exp(sigInt, exponent, modulus)
 	srPrime := recovered.Bytes()
-- 
2.43.0


From 99b5c9e9365de0a08339f5fa4a9a27ee44297640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 29/44] fix: a certificate whose ECDSA verification cannot
 start is not left marked valid

---
 internal/security/ecc_verify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 42265d4..ae3ba4e 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -38,6 +38,10 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+
+	// Not valid until the signature has verified
+	cert.SetSignatureValid(false)
+
 	if caCert == nil {
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
-- 
2.43.0


From beecd036ee88ecd58ea3833e137ce1c16007d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 30/44] fix: refuse an ECC issuer key that is not on its curve
 instead of crashing

---
 internal/security/ecc_verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index ae3ba4e..f59648f 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -117,6 +117,11 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	caX := new(big.Int).SetBytes(caPointX)
 	caY := new(big.Int).SetBytes(caPointY)
 
+	// ecdsa.Verify panics for keys off a Brainpool curve
+	if !curve.IsOnCurve(caX, caY) {
+		return fmt.Errorf("CA certificate public key is not on its curve")
+	}
+
 	caPub := &ecdsa.PublicKey{
 		Curve: curve,
 		X:     caX,
-- 
2.43.0


From 0449374c60337700babd13b80bb79d7fbf0b9857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 31/44] fix: read embedded certificates from the directories
 they are embedded in

The embedded file systems hold g1/<CHR>.bin and g2/<CHR>.bin, but were asked
for <CHR>.bin, so that the embedded resolver never found a certificate.
---
 internal/cert/certcache/embed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index d28f1eb..0268fb3 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -19,7 +19,7 @@ func Root() []byte {
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
 func ReadG1(chr string) ([]byte, bool) {
-	data, err := g1.ReadFile(chr + ".bin")
+	data, err := g1.ReadFile("g1/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
@@ -28,7 +28,7 @@ func ReadG1(chr string) ([]byte, bool) {
 
 // ReadG2 reads a cached Gen2 certificate by its CHR.
 func ReadG2(chr string) ([]byte, bool) {
-	data, err := g2.ReadFile(chr + ".bin")
+	data, err := g2.ReadFile("g2/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
-- 
2.43.0


From 493cba6a822a6bc201a736501255e4da5d192b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:30 +0000
Subject: [PATCH 32/44] fix: encode text in the code page its encoding names

Text without stored bytes was written as UTF-8 whatever its encoding, so
that for example an e acute in ISO 8859-1 came back as two characters, and
text of the empty or an unspecified encoding was dropped. Use the
character map of the code page, and refuse text that it cannot hold.
---
 internal/dd/string_value.go | 85 +++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 45 deletions(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 0e51253..1815563 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -179,6 +179,40 @@ func trimSpaceAndZeroBytes(b []byte) []byte {
 	return bytes.Trim(b, cutset)
 }
 
+// charmapForCodePage returns the character map that a code page names.
+func charmapForCodePage(codePage byte) *charmap.Charmap {
+	switch codePage {
+	case 0:
+		// Default to ISO-8859-1 for code page 0 (ASCII-compatible)
+		return charmap.ISO8859_1
+	case 1:
+		return charmap.ISO8859_1
+	case 2:
+		return charmap.ISO8859_2
+	case 3:
+		return charmap.ISO8859_3
+	case 5:
+		return charmap.ISO8859_5
+	case 7:
+		return charmap.ISO8859_7
+	case 9:
+		return charmap.ISO8859_9
+	case 13:
+		return charmap.ISO8859_13
+	case 15:
+		return charmap.ISO8859_15
+	case 16:
+		return charmap.ISO8859_16
+	case 80:
+		return charmap.KOI8R
+	case 85:
+		return charmap.KOI8U
+	default:
+		// For unrecognized code pages, fall back to ISO-8859-1
+		return charmap.ISO8859_1
+	}
+}
+
 // decodeWithCodePage decodes a byte slice with the given code page, returns the trimmed decoded string
 func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 	if codePage == 255 {
@@ -198,40 +232,7 @@ func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 		return "", nil
 	}
 
-	// Map code page to character map
-	var cmap *charmap.Charmap
-	switch codePage {
-	case 0:
-		// Default to ISO-8859-1 for code page 0 (ASCII-compatible)
-		cmap = charmap.ISO8859_1
-	case 1:
-		cmap = charmap.ISO8859_1
-	case 2:
-		cmap = charmap.ISO8859_2
-	case 3:
-		cmap = charmap.ISO8859_3
-	case 5:
-		cmap = charmap.ISO8859_5
-	case 7:
-		cmap = charmap.ISO8859_7
-	case 9:
-		cmap = charmap.ISO8859_9
-	case 13:
-		cmap = charmap.ISO8859_13
-	case 15:
-		cmap = charmap.ISO8859_15
-	case 16:
-		cmap = charmap.ISO8859_16
-	case 80:
-		cmap = charmap.KOI8R
-	case 85:
-		cmap = charmap.KOI8U
-	default:
-		// For unrecognized code pages, fall back to ISO-8859-1
-		cmap = charmap.ISO8859_1
-	}
-
-	dec := cmap.NewDecoder()
+	dec := charmapForCodePage(codePage).NewDecoder()
 	res, err := dec.String(string(data))
 	if err != nil {
 		return "", fmt.Errorf("could not decode code page %d string: %w", codePage, err)
@@ -284,20 +285,14 @@ func getCodePageFromEncoding(encoding ddv1.Encoding) byte {
 }
 
 // encodeWithCodePage encodes a string to bytes using the specified code page.
-// For now, this is a simple implementation that only handles ASCII-compatible encodings.
+// A string with a character that the code page does not have is an error.
 func encodeWithCodePage(codePage byte, s string) ([]byte, error) {
 	// For code page 255 (empty), return empty bytes
 	if codePage == 255 {
+		if s != "" {
+			return nil, fmt.Errorf("code page 255 (empty) cannot hold text")
+		}
 		return []byte{}, nil
 	}
-
-	// For ASCII-compatible code pages (0, 1), we can just convert to bytes
-	// TODO: Implement proper encoding for other code pages using charmap.Encoder
-	if codePage == 0 || codePage == 1 {
-		return []byte(s), nil
-	}
-
-	// For now, fall back to ISO-8859-1 encoding for other code pages
-	// This is a simplification and should be enhanced for full support
-	return []byte(s), nil
+	return charmapForCodePage(codePage).NewEncoder().Bytes([]byte(s))
 }
-- 
2.43.0


From c86435cc9a8e414bef162034d8cf9c65f03978bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 33/44] fix: keep the code page byte of text in an unrecognised
 code page

Such text was written back with code page 255, which says that the text is
empty, although its bytes were kept.
---
 internal/dd/string_value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 1815563..b97fa38 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -100,7 +100,10 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 
 		// Paint only the code page byte at offset 0 (from semantic encoding field)
 		// The string data at offset 1+ is already correct in raw_data
-		canvas[0] = codePage
+		// (a code page that has no encoding value stays as it was read)
+		if sv.GetEncoding() != ddv1.Encoding_ENCODING_UNRECOGNIZED {
+			canvas[0] = codePage
+		}
 
 		// Note: We do NOT re-encode from the value field because:
 		// 1. The value field is UTF-8 (for display), while raw_data is in the original encoding
-- 
2.43.0


From b3731b0795a0a78c27ad3c7661f1e0c74393b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 34/44] fix: refuse IA5 text with characters outside IA5

Without stored bytes such text was written as UTF-8, and a field cut in
several bytes per character.
---
 internal/dd/ia5_string_value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/dd/ia5_string_value.go b/internal/dd/ia5_string_value.go
index 27021a9..a666c94 100644
--- a/internal/dd/ia5_string_value.go
+++ b/internal/dd/ia5_string_value.go
@@ -88,6 +88,11 @@ func AppendIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue) ([]byte, error) {
 	if len(value) > length {
 		return nil, fmt.Errorf("string value '%s' is longer than the allowed length %d", value, length)
 	}
+	for i := 0; i < len(value); i++ {
+		if value[i] >= utf8.RuneSelf {
+			return nil, fmt.Errorf("string value '%s' has a character that IA5 does not have", value)
+		}
+	}
 	result := make([]byte, length)
 	copy(result, []byte(value))
 	for i := len(value); i < length; i++ {
-- 
2.43.0


From a2b3c49ad1764c34031bc1c01099f177f402ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 35/44] fix: keep the blank indices of a blank card number when
 encoding EF Identification

---
 internal/card/identification.go | 39 +++++++++++++--------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index a0f3f5d..f40acbe 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -26,6 +26,18 @@ func isCardIndex(c byte) bool {
 	return c >= '0' && c <= '9' || c >= 'A' && c <= 'Z'
 }
 
+// cardIndexByte returns the character of a card index. A blank index (the card number
+// of a card that has not been personalised is blank) is the byte it was decoded from.
+func cardIndexByte(index *ddv1.Ia5StringValue) byte {
+	if value := index.GetValue(); len(value) > 0 {
+		return value[0]
+	}
+	if rawData := index.GetRawData(); len(rawData) == 1 {
+		return rawData[0]
+	}
+	return 0
+}
+
 // unmarshalIdentification parses the binary data for an EF_Identification record.
 //
 // The data type `CardIdentification` is specified in the Data Dictionary, Section 2.1.
@@ -375,30 +387,9 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 				cardNumberBytes[i] = ' '
 			}
 		}
-		consecutive := ownerID.GetConsecutiveIndex()
-		if consecutive != nil {
-			// Convert string to byte value
-			consecutiveStr := consecutive.GetValue()
-			if len(consecutiveStr) > 0 {
-				cardNumberBytes[13] = consecutiveStr[0]
-			}
-		}
-		replacement := ownerID.GetReplacementIndex()
-		if replacement != nil {
-			// Convert string to byte value
-			replacementStr := replacement.GetValue()
-			if len(replacementStr) > 0 {
-				cardNumberBytes[14] = replacementStr[0]
-			}
-		}
-		renewal := ownerID.GetRenewalIndex()
-		if renewal != nil {
-			// Convert string to byte value
-			renewalStr := renewal.GetValue()
-			if len(renewalStr) > 0 {
-				cardNumberBytes[15] = renewalStr[0]
-			}
-		}
+		cardNumberBytes[13] = cardIndexByte(ownerID.GetConsecutiveIndex())
+		cardNumberBytes[14] = cardIndexByte(ownerID.GetReplacementIndex())
+		cardNumberBytes[15] = cardIndexByte(ownerID.GetRenewalIndex())
 	}
 	dst = append(dst, cardNumberBytes...)
 	dst, err = dd.AppendStringValue(dst, id.GetCardIssuingAuthorityName())
-- 
2.43.0


From 387246e4e9bb58366f267b7a3a170bdb18d3516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 36/44] fix: encode GNSS places of vehicles with a million
 kilometres or more

---
 internal/card/gnss_places.go | 2 +-
 internal/dd/odometer.go      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index e4fc1b5..9667604 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -218,7 +218,7 @@ func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Re
 
 	// Append vehicle odometer (OdometerShort - 3 bytes)
 	odometer := record.GetVehicleOdometerKm()
-	if odometer < 0 || odometer > 999999 {
+	if odometer < 0 || odometer > 0xFFFFFF { // OdometerShort is three bytes
 		return nil, fmt.Errorf("invalid vehicle odometer value: %d", odometer)
 	}
 	dst = dd.AppendOdometer(dst, uint32(odometer))
diff --git a/internal/dd/odometer.go b/internal/dd/odometer.go
index 3a59d08..355fd7e 100644
--- a/internal/dd/odometer.go
+++ b/internal/dd/odometer.go
@@ -11,7 +11,7 @@ import (
 //
 // ASN.1 Definition:
 //
-//	OdometerShort ::= INTEGER(0..999999)
+//	OdometerShort ::= INTEGER(0..2^24-1)
 //
 // Binary Layout (3 bytes):
 //   - Odometer Value (3 bytes): Big-endian unsigned integer
@@ -27,7 +27,7 @@ func AppendOdometer(dst []byte, odometer uint32) []byte {
 //
 // ASN.1 Definition:
 //
-//	OdometerShort ::= INTEGER(0..999999)
+//	OdometerShort ::= INTEGER(0..2^24-1)
 //
 // Binary Layout (3 bytes):
 //   - Odometer Value (3 bytes): Big-endian unsigned integer
-- 
2.43.0


From b979ec6e2313dc0723c5dc05095676a9f1ec4356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 37/44] fix: encode specific conditions (Gen2) from the message
 when records were removed

---
 internal/card/specific_conditions_g2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 0df51c6..ce4f0cb 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -72,8 +72,8 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		return data, nil
 	}
 
-	// Use raw_data as canvas if available (includes pointer + records + trailing bytes)
-	if rawData := conditions.GetRawData(); len(rawData) > 0 {
+	// Use raw_data as canvas if available and holding as many records (includes pointer + records + trailing bytes)
+	if rawData := conditions.GetRawData(); len(rawData) >= 2 && (len(rawData)-2)/5 == len(conditions.GetRecords()) {
 		const (
 			lenPointer = 2
 			recordSize = 5
-- 
2.43.0


From 495e5388fe8de674399ed1fd75ed454ee3070f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:06 +0000
Subject: [PATCH 38/44] fix: keep the size of fixed-size records whose text
 fields are not set when encoding

---
 internal/card/driving_licence.go     |  4 ++--
 internal/card/icc.go                 | 11 ++++++-----
 internal/card/identification.go      |  4 ++--
 internal/dd/driver_identification.go |  2 +-
 internal/dd/full_card_number.go      |  2 +-
 internal/dd/holder_name.go           |  4 ++--
 internal/dd/ia5_string_value.go      | 18 ++++++++++++++++++
 internal/dd/owner_identification.go  |  8 ++++----
 internal/dd/string_value.go          | 19 +++++++++++++++++++
 internal/dd/vehicle_registration.go  | 11 +----------
 10 files changed, 56 insertions(+), 27 deletions(-)

diff --git a/internal/card/driving_licence.go b/internal/card/driving_licence.go
index 9b044ce..580abf9 100644
--- a/internal/card/driving_licence.go
+++ b/internal/card/driving_licence.go
@@ -85,7 +85,7 @@ func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byt
 		return dst, nil
 	}
 	var err error
-	dst, err = dd.AppendStringValue(dst, dli.GetDrivingLicenceIssuingAuthority())
+	dst, err = dd.AppendFixedStringValue(dst, dli.GetDrivingLicenceIssuingAuthority(), 36)
 	if err != nil {
 		return nil, err
 	}
@@ -95,7 +95,7 @@ func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byt
 		return nil, fmt.Errorf("failed to marshal nation: %w", err)
 	}
 	dst = append(dst, nationByte)
-	dst, err = dd.AppendIa5StringValue(dst, dli.GetDrivingLicenceNumber())
+	dst, err = dd.AppendFixedIa5StringValue(dst, dli.GetDrivingLicenceNumber(), 16)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append driving licence number: %w", err)
 	}
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 8606bee..7fdd98e 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -188,7 +188,7 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append card approval number (8 bytes)
-	dst, err = dd.AppendIa5StringValue(dst, icc.GetCardApprovalNumber())
+	dst, err = dd.AppendFixedIa5StringValue(dst, icc.GetCardApprovalNumber(), lenCardApprovalNumber)
 	if err != nil {
 		return nil, err
 	}
@@ -203,8 +203,9 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append IC identifier (2 bytes)
-	dst = append(dst, icc.GetIcIdentifier()...)
-	return dst, nil
+	icIdentifier := make([]byte, lenIcIdentifier)
+	copy(icIdentifier, icc.GetIcIdentifier())
+	return append(dst, icIdentifier...), nil
 }
 
 // appendEmbedderIcAssemblerId appends an EmbedderIcAssemblerId structure (5 bytes total)
@@ -218,13 +219,13 @@ func appendEmbedderIcAssemblerId(dst []byte, eia *cardv1.Icc_EmbedderIcAssembler
 
 	var err error
 	// Append country code (2 bytes, IA5String)
-	dst, err = dd.AppendIa5StringValue(dst, eia.GetCountryCode())
+	dst, err = dd.AppendFixedIa5StringValue(dst, eia.GetCountryCode(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append country code: %w", err)
 	}
 
 	// Append module embedder (2 bytes, IA5String)
-	dst, err = dd.AppendIa5StringValue(dst, eia.GetModuleEmbedder())
+	dst, err = dd.AppendFixedIa5StringValue(dst, eia.GetModuleEmbedder(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append module embedder: %w", err)
 	}
diff --git a/internal/card/identification.go b/internal/card/identification.go
index f40acbe..51885b7 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -392,7 +392,7 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		cardNumberBytes[15] = cardIndexByte(ownerID.GetRenewalIndex())
 	}
 	dst = append(dst, cardNumberBytes...)
-	dst, err = dd.AppendStringValue(dst, id.GetCardIssuingAuthorityName())
+	dst, err = dd.AppendFixedStringValue(dst, id.GetCardIssuingAuthorityName(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card issuing authority name: %w", err)
 	}
@@ -450,7 +450,7 @@ func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_D
 		dst = append(dst, 0x00, 0x00, 0x00, 0x00)
 	}
 
-	dst, err = dd.AppendIa5StringValue(dst, h.GetCardHolderPreferredLanguage())
+	dst, err = dd.AppendFixedIa5StringValue(dst, h.GetCardHolderPreferredLanguage(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append preferred language: %w", err)
 	}
diff --git a/internal/dd/driver_identification.go b/internal/dd/driver_identification.go
index 31de0e8..e0c4398 100644
--- a/internal/dd/driver_identification.go
+++ b/internal/dd/driver_identification.go
@@ -57,7 +57,7 @@ func AppendDriverIdentification(dst []byte, driverID *ddv1.DriverIdentification)
 	}
 
 	// Append driver identification number (14 bytes)
-	return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
+	return AppendFixedIa5StringValue(dst, driverID.GetDriverIdentificationNumber(), 14)
 }
 
 // AnonymizeDriverIdentification creates an anonymized copy of DriverIdentification,
diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 00622b1..660ecda 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -139,7 +139,7 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 					dst = append(dst, 0x00) // no index known
 					continue
 				}
-				dst, err = AppendIa5StringValue(dst, index)
+				dst, err = AppendFixedIa5StringValue(dst, index, 1)
 				if err != nil {
 					return nil, fmt.Errorf("failed to append card index: %w", err)
 				}
diff --git a/internal/dd/holder_name.go b/internal/dd/holder_name.go
index 381fb50..4532fed 100644
--- a/internal/dd/holder_name.go
+++ b/internal/dd/holder_name.go
@@ -83,13 +83,13 @@ func AppendHolderName(dst []byte, holderName *ddv1.HolderName) ([]byte, error) {
 	var err error
 
 	// Append holder surname (36 bytes)
-	dst, err = AppendStringValue(dst, holderName.GetHolderSurname())
+	dst, err = AppendFixedStringValue(dst, holderName.GetHolderSurname(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder surname: %w", err)
 	}
 
 	// Append holder first names (36 bytes)
-	dst, err = AppendStringValue(dst, holderName.GetHolderFirstNames())
+	dst, err = AppendFixedStringValue(dst, holderName.GetHolderFirstNames(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder first names: %w", err)
 	}
diff --git a/internal/dd/ia5_string_value.go b/internal/dd/ia5_string_value.go
index a666c94..be98f99 100644
--- a/internal/dd/ia5_string_value.go
+++ b/internal/dd/ia5_string_value.go
@@ -100,3 +100,21 @@ func AppendIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue) ([]byte, error) {
 	}
 	return append(dst, result...), nil
 }
+
+// AppendFixedIa5StringValue appends an IA5 string as a field of exactly size bytes.
+// An absent string is written as an empty one, and a string of another size is
+// refused, so that the fields after it keep their place.
+func AppendFixedIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue, size int) ([]byte, error) {
+	if sv == nil {
+		sv = &ddv1.Ia5StringValue{}
+		sv.SetLength(int32(size))
+	}
+	out, err := AppendIa5StringValue(dst, sv)
+	if err != nil {
+		return nil, err
+	}
+	if n := len(out) - len(dst); n != size {
+		return nil, fmt.Errorf("string takes %d bytes in a field of %d", n, size)
+	}
+	return out, nil
+}
diff --git a/internal/dd/owner_identification.go b/internal/dd/owner_identification.go
index f3197f2..f89fa08 100644
--- a/internal/dd/owner_identification.go
+++ b/internal/dd/owner_identification.go
@@ -91,25 +91,25 @@ func AppendOwnerIdentification(dst []byte, ownerID *ddv1.OwnerIdentification) ([
 
 	// Append owner identification number (13 bytes)
 	var err error
-	dst, err = AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetOwnerIdentification(), 13)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append owner identification number: %w", err)
 	}
 
 	// Append card consecutive index (1 byte)
-	dst, err = AppendIa5StringValue(dst, ownerID.GetConsecutiveIndex())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetConsecutiveIndex(), 1)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card consecutive index: %w", err)
 	}
 
 	// Append card replacement index (1 byte)
-	dst, err = AppendIa5StringValue(dst, ownerID.GetReplacementIndex())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetReplacementIndex(), 1)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card replacement index: %w", err)
 	}
 
 	// Append card renewal index (1 byte)
-	dst, err = AppendIa5StringValue(dst, ownerID.GetRenewalIndex())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetRenewalIndex(), 1)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card renewal index: %w", err)
 	}
diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index b97fa38..c86b278 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -141,6 +141,25 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 	return append(dst, encoded...), nil
 }
 
+// AppendFixedStringValue appends a code-paged string as a field of exactly size bytes,
+// code page byte included. An absent string is written as an empty one, and a string
+// of another size is refused, so that the fields after it keep their place.
+func AppendFixedStringValue(dst []byte, sv *ddv1.StringValue, size int) ([]byte, error) {
+	if sv == nil {
+		sv = &ddv1.StringValue{}
+		sv.SetEncoding(ddv1.Encoding_ENCODING_DEFAULT)
+		sv.SetLength(int32(size - 1))
+	}
+	out, err := AppendStringValue(dst, sv)
+	if err != nil {
+		return nil, err
+	}
+	if n := len(out) - len(dst); n != size {
+		return nil, fmt.Errorf("string takes %d bytes in a field of %d", n, size)
+	}
+	return out, nil
+}
+
 // getEncodingFromCodePage maps a code page byte to the corresponding Encoding enum.
 func getEncodingFromCodePage(codePage byte) ddv1.Encoding {
 	switch codePage {
diff --git a/internal/dd/vehicle_registration.go b/internal/dd/vehicle_registration.go
index 59abbad..1e2ea9b 100644
--- a/internal/dd/vehicle_registration.go
+++ b/internal/dd/vehicle_registration.go
@@ -82,14 +82,5 @@ func AppendVehicleRegistration(dst []byte, vehicleReg *ddv1.VehicleRegistrationI
 	dst = append(dst, nationByte)
 
 	// Append registration number (14 bytes: 1 byte code page + 13 bytes string data)
-	number := vehicleReg.GetNumber()
-	if number == nil {
-		// Create empty StringValue with correct length for VehicleRegistrationNumber
-		// Default to code page 0 (no national characters) with 13 bytes of data
-		number = &ddv1.StringValue{}
-		number.SetValue("")
-		number.SetLength(13) // Length of the string data, not including code page byte
-		number.SetEncoding(ddv1.Encoding_ENCODING_DEFAULT)
-	}
-	return AppendStringValue(dst, number)
+	return AppendFixedStringValue(dst, vehicleReg.GetNumber(), 14)
 }
-- 
2.43.0


From 0468a2af9681e65db4097e235d5afd442a127479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:07 +0000
Subject: [PATCH 39/44] fix: refuse to encode a card number and generation
 without a card number

---
 internal/dd/full_card_number_and_generation.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/internal/dd/full_card_number_and_generation.go b/internal/dd/full_card_number_and_generation.go
index 0438528..e6b4fe7 100644
--- a/internal/dd/full_card_number_and_generation.go
+++ b/internal/dd/full_card_number_and_generation.go
@@ -74,14 +74,10 @@ func AppendFullCardNumberAndGeneration(dst []byte, fullCardNumberAndGen *ddv1.Fu
 		return nil, fmt.Errorf("fullCardNumberAndGeneration cannot be nil")
 	}
 
-	// Append full card number (variable length)
-	fullCardNumber := fullCardNumberAndGen.GetFullCardNumber()
-	if fullCardNumber != nil {
-		var err error
-		dst, err = AppendFullCardNumber(dst, fullCardNumber)
-		if err != nil {
-			return nil, fmt.Errorf("failed to append full card number: %w", err)
-		}
+	// Append full card number (18 bytes)
+	dst, err := AppendFullCardNumber(dst, fullCardNumberAndGen.GetFullCardNumber())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append full card number: %w", err)
 	}
 
 	// Append generation (1 byte)
-- 
2.43.0


From 363b8d3f52f54ff63f1bd39bc516b18e68d38ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 40/44] fix: encode an identification without its card or
 holder part in full

---
 internal/card/identification.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index 51885b7..950c6bd 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -308,9 +308,6 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 //	    cardExpiryDate           TimeReal
 //	}
 func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byte, error) {
-	if id == nil {
-		return dst, nil
-	}
 	// Append cardIssuingMemberState (1 byte) - get protocol value from enum
 	memberState := id.GetCardIssuingMemberState()
 	var memberStateByte byte
@@ -424,16 +421,13 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 //	    cardHolderPreferredLanguage  Language
 //	}
 func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_DriverCardHolder) ([]byte, error) {
-	if h == nil {
-		return dst, nil
-	}
 	var err error
 	nameBlock := make([]byte, 0, 72)
-	nameBlock, err = dd.AppendStringValue(nameBlock, h.GetCardHolderSurname())
+	nameBlock, err = dd.AppendFixedStringValue(nameBlock, h.GetCardHolderSurname(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card holder surname: %w", err)
 	}
-	nameBlock, err = dd.AppendStringValue(nameBlock, h.GetCardHolderFirstNames())
+	nameBlock, err = dd.AppendFixedStringValue(nameBlock, h.GetCardHolderFirstNames(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card holder first names: %w", err)
 	}
-- 
2.43.0


From e7b8fb06c78d353a5342757f664406e492764cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 41/44] fix: encode a daily record whose presence counter is
 not set in full

---
 internal/card/activity.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 4fd7664..278adde 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -482,10 +482,17 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		return nil, fmt.Errorf("failed to append activity record date: %w", err)
 	}
 
-	buf, err = dd.AppendBcdString(buf, rec.GetActivityDailyPresenceCounter())
+	counter, err := dd.AppendBcdString(nil, rec.GetActivityDailyPresenceCounter())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append activity daily presence counter: %w", err)
 	}
+	if counter == nil {
+		counter = make([]byte, 2)
+	}
+	if len(counter) != 2 {
+		return nil, fmt.Errorf("activity daily presence counter takes %d bytes instead of 2", len(counter))
+	}
+	buf = append(buf, counter...)
 
 	buf = binary.BigEndian.AppendUint16(buf, uint16(rec.GetActivityDayDistance()))
 
-- 
2.43.0


From 64bce4fbd171b83ec3ad94cb5d7618c95af2ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 42/44] fix: pad rebuilt daily records with unused entries, not
 activity changes

---
 internal/card/activity.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 278adde..2a8dd57 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -507,7 +507,8 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 	// Add padding if the current length is less than the expected record length
 	// This preserves any padding bytes that were in the original record
 	if len(buf) < currentRecordLength {
-		padding := make([]byte, currentRecordLength-len(buf))
+		// (as unused entries, all ones: all zeros would be an activity change)
+		padding := bytes.Repeat([]byte{0xFF}, currentRecordLength-len(buf))
 		buf = append(buf, padding...)
 	}
 
-- 
2.43.0


From 6fd7a3196fb0c6243a475b198d551474e4c88055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 43/44] fix: encode all activity changes of a daily record that
 grew after decoding

---
 internal/card/activity.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 2a8dd57..d0e6f40 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -446,12 +446,7 @@ func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyReco
 // For records with activity_record_length set, we use that to preserve padding.
 // Otherwise, we calculate from content.
 func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error) {
-	// Use original record length if available (preserves padding)
-	if recordLength := rec.GetActivityRecordLength(); recordLength > 0 {
-		return int(recordLength), nil
-	}
-
-	// Fallback: calculate from content
+	// Calculate from content
 	const (
 		lenHeader               = 4 // prevRecordLength (2) + currentRecordLength (2)
 		lenTimeReal             = 4 // activity record date
@@ -463,6 +458,14 @@ func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error
 	size := lenHeader + lenTimeReal + lenDailyPresenceCounter + lenDayDistance
 	size += len(rec.GetActivityChangeInfo()) * lenActivityChangeInfo
 
+	// Use original record length if available and the content fits (preserves padding)
+	if recordLength := int(rec.GetActivityRecordLength()); recordLength > size {
+		size = recordLength
+	}
+	if size > 0xFFFF {
+		return 0, fmt.Errorf("activity record of %d bytes is too long", size)
+	}
+
 	return size, nil
 }
 
-- 
2.43.0


From 392180814de69fdf4eacc40589648498368b26f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:12 +0000
Subject: [PATCH 44/44] fix: return a copy of the embedded root certificate

Callers that change the returned root certificate's key changed the trust
anchor of every later verification in the process.
---
 internal/cert/certcache/embed.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index 0268fb3..e156b15 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -1,7 +1,10 @@
 // Package certcache provides an embedded cache of certificates.
 package certcache
 
-import "embed"
+import (
+	"bytes"
+	"embed"
+)
 
 //go:embed root/EC_PK.bin
 var root []byte
@@ -12,9 +15,9 @@ var g1 embed.FS
 //go:embed g2/*.bin
 var g2 embed.FS
 
-// Root returns the ERCA root certificate.
+// Root returns a copy of the ERCA root certificate.
 func Root() []byte {
-	return root
+	return bytes.Clone(root)
 }
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
-- 
2.43.0

