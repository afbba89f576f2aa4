From ae253c0547b0b89c765ba3898c7c59475073c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:44 +0000
Subject: [PATCH 01/38] fix: reject packets with a wrong header length instead
 of panicking

Package.Decode sliced the content by the untrusted HL field (and added HL and
FDL in uint16), so a packet with HL=0 or FDL close to 65535 crashed the receiver.
---
 libs/egts/egts_pkg.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index d7c0600..8fb0ee7 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -121,6 +121,14 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	headerLength := DEFAULT_HEADER_LEN
+	if p.Route == "1" {
+		headerLength += 5
+	}
+	if int(p.HeaderLength) != headerLength {
+		return egtsPcIncHeaderform, fmt.Errorf("Некорректная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
@@ -160,7 +168,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[headerLength:headerLength+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 95f1d54592ad29c1964e42dabb7fff5fe5691073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:45 +0000
Subject: [PATCH 02/38] fix: report a body checksum error with the data CRC
 code

---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 8fb0ee7..8be0bc9 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -169,7 +169,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
 	if p.ServicesFrameDataCheckSum != crc16(content[headerLength:headerLength+int(p.FrameDataLength)]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
 }
-- 
2.43.0


From 4508c2799707b2763b663e6ad51588a8bd1d8880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 03/38] fix: the altitude of SR_POS_DATA is three bytes long

The decoder took a fourth byte from the source data that may follow.
---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..1ddd9c4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -119,7 +119,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From 90927b4e078928b966f9c26bd987fa50f27d8218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:47 +0000
Subject: [PATCH 04/38] fix: decode the second counter of SR_COUNTERS_DATA into
 its own field

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..454cdc0 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -65,7 +65,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From 8d9d9fc3b34ef580e43f9ef97005f706b7ca98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 05/38] fix: encode the analog sensor flags of
 SR_AD_SENSORS_DATA in wire order

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..85fa38c 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -234,14 +234,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 1614991c4619e4ca8ba6ec93009c1770a75c95c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:43 +0000
Subject: [PATCH 06/38] fix: reject truncated fields instead of padding them
 with stale bytes

The decoders used Read, which accepts a short read, so a record or subrecord cut
off in the middle of a field was decoded with zero or left-over bytes.
---
 libs/egts/egts_pkg.go                    | 14 +++++++++-----
 libs/egts/egts_pt_response.go            |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  5 +++--
 libs/egts/egts_sr_module_data.go         |  7 ++++---
 libs/egts/egts_sr_pos_data.go            | 13 +++++++------
 libs/egts/egts_sr_response.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 libs/egts/record_data.go                 |  6 +++++-
 libs/egts/service_data_records.go        | 13 +++++++------
 14 files changed, 75 insertions(+), 55 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 8be0bc9..6b01437 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -87,12 +88,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить длину секции данных: %v", err)
 	}
 	p.FrameDataLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить идентификатор пакета: %v", err)
 	}
 	p.PacketIdentifier = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -102,12 +103,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	if p.Route == "1" {
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк отправителя: %v", err)
 		}
 		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк получателя: %v", err)
 		}
 		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -133,6 +134,9 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
 
+	if int(p.FrameDataLength) > buf.Len() {
+		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", io.ErrUnexpectedEOF)
+	}
 	dataFrameBytes := make([]byte, p.FrameDataLength)
 	if _, err = buf.Read(dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
@@ -163,7 +167,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..e48cdc5 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //PtResponse структура подзаписи типа EGTS_PT_RESPONSE
@@ -21,7 +22,7 @@ func (s *PtResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор пакета из ответа: %v", err)
 	}
 	s.ResponsePacketID = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 85fa38c..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 454cdc0..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..dc346f6 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,13 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_module_data.go b/libs/egts/egts_sr_module_data.go
index 86dc227..ff60c66 100644
--- a/libs/egts/egts_sr_module_data.go
+++ b/libs/egts/egts_sr_module_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 const (
@@ -38,19 +39,19 @@ func (e *SrModuleData) Decode(content []byte) error {
 	e.ModuleType = int8(moduleType)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить ID вендора")
 	}
 	e.VendorID = binary.LittleEndian.Uint32(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию прошивки")
 	}
 	e.FirmwareVersion = binary.LittleEndian.Uint16(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию ПО")
 	}
 	e.SoftwareVersion = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 1ddd9c4..83bf2a4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,14 +46,14 @@ func (e *SrPosData) Decode(content []byte) error {
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 	tmpUint32Buf := make([]byte, 4)
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время навигации: %v", err)
 	}
 	preFieldVal := binary.LittleEndian.Uint32(tmpUint32Buf)
 	e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить широту: %v", err)
 	}
 
@@ -60,7 +61,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Latitude = float64(float64(preFieldVal) * 90 / 0xFFFFFFFF)
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время долгату: %v", err)
 	}
 	preFieldVal = binary.LittleEndian.Uint32(tmpUint32Buf)
@@ -82,7 +83,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	// скорость
 	tmpUint16Buf := make([]byte, 2)
-	if _, err = buf.Read(tmpUint16Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint16Buf); err != nil {
 		return fmt.Errorf("Не удалось получить скорость: %v", err)
 	}
 	spd := binary.LittleEndian.Uint16(tmpUint16Buf)
@@ -103,7 +104,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Direction |= e.DirectionHighestBit << 7
 
 	bytesTmpBuf := make([]byte, 3)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить пройденное расстояние (пробег) в км: %v", err)
 	}
 	bytesTmpBuf = append(bytesTmpBuf, 0x00)
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..31b8921 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrResponse структура подзаписи типа EGTS_SR_RESPONSE, которая применяется для подтверждения
@@ -21,7 +22,7 @@ func (s *SrResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить номер подтверждаемой записи: %v", err)
 	}
 	s.ConfirmedRecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index ad9b33f..19d4acd 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 51ecd9e..9dfee8d 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -31,11 +32,14 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if int(rd.SubrecordLength) > buf.Len() {
+			return fmt.Errorf("Длина подзаписи %d превышает размер данных: %v", rd.SubrecordType, io.ErrUnexpectedEOF)
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 60ed468..e0bdaf0 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,12 +46,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	for buf.Len() > 0 {
 		sdr := ServiceDataRecord{}
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить длину записи SDR: %v", err)
 		}
 		sdr.RecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить номер записи SDR: %v", err)
 		}
 		sdr.RecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -69,7 +70,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.ObjectIDFieldExists == "1" {
 			oid := make([]byte, 4)
-			if _, err := buf.Read(oid); err != nil {
+			if _, err := io.ReadFull(buf, oid); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор объекта SDR: %v", err)
 			}
 			sdr.ObjectIdentifier = binary.LittleEndian.Uint32(oid)
@@ -77,7 +78,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.EventIDFieldExists == "1" {
 			event := make([]byte, 4)
-			if _, err := buf.Read(event); err != nil {
+			if _, err := io.ReadFull(buf, event); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор события SDR: %v", err)
 			}
 			sdr.EventIdentifier = binary.LittleEndian.Uint32(event)
@@ -86,7 +87,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 		if sdr.TimeFieldExists == "1" {
 			tm := make([]byte, 4)
-			if _, err := buf.Read(tm); err != nil {
+			if _, err := io.ReadFull(buf, tm); err != nil {
 				return fmt.Errorf("не удалось получить время формирования записи на стороне отправителя SDR: %v", err)
 			}
 			preFieldVal := binary.LittleEndian.Uint32(tm)
@@ -104,7 +105,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
-- 
2.43.0


From aea130bc82f2a4d24c5d68f7039cda1056d6003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 07/38] fix: compute the packet length without uint16 overflow

HL + FDL + 2 wrapped around for long packets, and a header length below 10 made
the receiver wait for up to 64K of the following packets as the body.
---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 49f30c7..bb552d4 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -92,8 +92,12 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
-			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			bodyLen := int(binary.LittleEndian.Uint16(headerBuf[5:7]))
+			pkgLen := int(headerBuf[3])
+			if pkgLen < egts.DEFAULT_HEADER_LEN {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Некорректная длина заголовка пакета. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
 				pkgLen += bodyLen + 2
 			}
-- 
2.43.0


From eb792494893f3c2e91f26c2314ecd57847eff103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:48 +0000
Subject: [PATCH 08/38] fix: close connections that stay silent longer than
 conn_ttl

The timer was only consulted after the client had closed the connection itself.
---
 cli/receiver/server/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index bb552d4..98a3ce7 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -76,6 +76,7 @@ func (s *Server) handleConn(conn net.Conn) {
 		recvPacket = nil
 
 		connTimer := time.NewTimer(s.ttl)
+		s.extendDeadline(conn)
 
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
@@ -84,6 +85,7 @@ func (s *Server) handleConn(conn net.Conn) {
 		switch err {
 		case nil:
 			connTimer.Reset(s.ttl)
+			s.extendDeadline(conn)
 
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
@@ -300,6 +302,13 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 }
 
+// extendDeadline ограничивает ожидание данных временем жизни пустого соединения, если оно задано
+func (s *Server) extendDeadline(conn net.Conn) {
+	if s.ttl > 0 {
+		_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
+	}
+}
+
 func New(srvAddress string, ttl time.Duration, s *storage.Repository) Server {
 	return Server{
 		addr:  srvAddress,
-- 
2.43.0


From be193754a83163a489940dd61cd10273fc2fe8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:49 +0000
Subject: [PATCH 09/38] fix: return from Run when the server is stopped

Accept on the closed listener failed in an endless busy loop.
---
 cli/receiver/server/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 98a3ce7..4f93c73 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
 	log "github.com/sirupsen/logrus"
@@ -34,7 +35,9 @@ func (s *Server) Run() {
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := s.l.Accept()
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
+			return
+		} else if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
 			go s.handleConn(conn)
-- 
2.43.0


From 2f9936e11a3ac8741b43888e9f79f10a2278611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 10/38] fix: assemble the record number of counters 110 and 111
 in the right byte order

---
 cli/receiver/server/server.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 4f93c73..4dde3b5 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -244,18 +244,14 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
-						case 111:
-							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
 							tmpBuf := make([]byte, 4)
-							binary.BigEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							binary.LittleEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							copy(packetIDBytes[:3], tmpBuf)
 
-							if len(packetIDBytes) == 4 {
-								packetIDBytes[3] = tmpBuf[3]
-							} else {
-								packetIDBytes = tmpBuf
-							}
+							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
+						case 111:
+							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
+							packetIDBytes[3] = byte(subRecData.CounterValue)
 
 							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						}
-- 
2.43.0


From 55186493ceb021b1c10e92a38df2e6ceaf78c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:51 +0000
Subject: [PATCH 11/38] fix: send EGTS_SR_RESULT_CODE in an EGTS_PT_APPDATA
 packet

Labelled EGTS_PT_RESPONSE, its first bytes were read as a confirmation of another
packet and the rest could not be parsed.
---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 4dde3b5..4fcc744 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -400,7 +400,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 28bc311762e7db1bbed0f8cc860eb9b7ca6e0444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:52 +0000
Subject: [PATCH 12/38] fix: do not confirm a record as processed when it was
 not stored

---
 cli/receiver/server/server.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 4fcc744..445a095 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -12,8 +12,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -153,13 +154,14 @@ func (s *Server) handleConn(conn net.Conn) {
 				isPkgSave = false
 				packetIDBytes := make([]byte, 4)
 
+				response := &egts.SrResponse{
+					ConfirmedRecordNumber: rec.RecordNumber,
+					RecordStatus:          egtsPcOk,
+				}
 				srResponsesRecord = append(srResponsesRecord, egts.RecordData{
 					SubrecordType:   egts.SrRecordResponseType,
 					SubrecordLength: 3,
-					SubrecordData: &egts.SrResponse{
-						ConfirmedRecordNumber: rec.RecordNumber,
-						RecordStatus:          egtsPcOk,
-					},
+					SubrecordData:   response,
 				})
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
@@ -277,6 +279,7 @@ func (s *Server) handleConn(conn net.Conn) {
 				if isPkgSave {
 					if err := s.store.Save(&exportPacket); err != nil {
 						log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+						response.RecordStatus = egtsPcIoError
 					}
 				}
 			}
-- 
2.43.0


From ceb93a6794bc25059c8b10fc2b225a5dd5e4da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 13/38] fix: save to the remaining storages when one of them
 fails

---
 cli/receiver/storage/store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index aac933e..2ecb7ce 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,13 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var result error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && result == nil {
+			result = err
 		}
 	}
-	return nil
+	return result
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From 43ee7ee2aa04245f6a4622a0e69977b27e7f65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 14/38] fix: take the hemisphere flags into account in stored
 coordinates

---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 445a095..651d64d 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -198,6 +198,13 @@ func (s *Server) handleConn(conn net.Conn) {
 						exportPacket.ReceivedTimestamp = receivedTimestamp
 						exportPacket.Latitude = subRecData.Latitude
 						exportPacket.Longitude = subRecData.Longitude
+						// в протоколе координаты передаются по модулю, полушарие задают флаги
+						if subRecData.LAHS == "1" {
+							exportPacket.Latitude = -exportPacket.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							exportPacket.Longitude = -exportPacket.Longitude
+						}
 						exportPacket.Speed = subRecData.Speed
 						exportPacket.Course = subRecData.Direction
 					case *egts.SrExtPosData:
-- 
2.43.0


From 6abb6e617be96c374d0f1ce578d819a1eafc672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:55 +0000
Subject: [PATCH 15/38] fix: liquid level in litres is transmitted in units of
 0.1 litre

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 651d64d..d1e968e 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -275,7 +275,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						case "00", "01":
 							sensorData.ValueMm = subRecData.LiquidLevelSensorData
 						case "10":
-							sensorData.ValueL = subRecData.LiquidLevelSensorData * 10
+							sensorData.ValueL = subRecData.LiquidLevelSensorData / 10
 						}
 
 						exportPacket.LiquidSensors = append(exportPacket.LiquidSensors, sensorData)
-- 
2.43.0


From 338ab5f56a894aaa9946256c368e771cb6d8a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 16/38] fix: store courses above 255 degrees with their highest
 bit

---
 cli/receiver/server/server.go  | 6 +++++-
 cli/receiver/storage/packet.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index d1e968e..cd03a31 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -206,7 +206,11 @@ func (s *Server) handleConn(conn net.Conn) {
 							exportPacket.Longitude = -exportPacket.Longitude
 						}
 						exportPacket.Speed = subRecData.Speed
-						exportPacket.Course = subRecData.Direction
+						// старший бит курса передается отдельно от младших восьми
+						exportPacket.Course = uint16(subRecData.Direction)
+						if subRecData.DirectionHighestBit == 1 {
+							exportPacket.Course = 0x100 | uint16(subRecData.Direction&0x7F)
+						}
 					case *egts.SrExtPosData:
 						log.Debug("Разбор подзаписи EGTS_SR_EXT_POS_DATA")
 						exportPacket.Nsat = subRecData.Satellites
diff --git a/cli/receiver/storage/packet.go b/cli/receiver/storage/packet.go
index 48ea5c6..4ef32ed 100644
--- a/cli/receiver/storage/packet.go
+++ b/cli/receiver/storage/packet.go
@@ -17,7 +17,7 @@ type NavRecord struct {
 	Vdop                uint16         `json:"vdop"`
 	Nsat                uint8          `json:"nsat"`
 	Ns                  uint16         `json:"ns"`
-	Course              uint8          `json:"course"`
+	Course              uint16         `json:"course"`
 	AnSensors           []AnSensor     `json:"an_sensors"`
 	LiquidSensors       []LiquidSensor `json:"liquid_sensors"`
 }
-- 
2.43.0


From 11dcd2bb896c539ec5a50b976cfa6b6e05560c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 17/38] fix: process the other records of a packet that carries
 a confirmation

A packet with EGTS_SR_RECORD_RESPONSE in any record was abandoned on the spot:
positions after it were lost and the records before it were never confirmed.
---
 cli/receiver/server/server.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index cd03a31..c64900f 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -152,17 +152,13 @@ func (s *Server) handleConn(conn net.Conn) {
 				}
 
 				isPkgSave = false
+				isResponse := false
 				packetIDBytes := make([]byte, 4)
 
 				response := &egts.SrResponse{
 					ConfirmedRecordNumber: rec.RecordNumber,
 					RecordStatus:          egtsPcOk,
 				}
-				srResponsesRecord = append(srResponsesRecord, egts.RecordData{
-					SubrecordType:   egts.SrRecordResponseType,
-					SubrecordLength: 3,
-					SubrecordData:   response,
-				})
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
 
@@ -189,7 +185,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
+						isResponse = true
 					case *egts.SrPosData:
 						log.Debugf("Разбор подзаписи EGTS_SR_POS_DATA")
 						isPkgSave = true
@@ -293,6 +289,19 @@ func (s *Server) handleConn(conn net.Conn) {
 						response.RecordStatus = egtsPcIoError
 					}
 				}
+
+				// сами подтверждения не подтверждаются
+				if !isResponse {
+					srResponsesRecord = append(srResponsesRecord, egts.RecordData{
+						SubrecordType:   egts.SrRecordResponseType,
+						SubrecordLength: 3,
+						SubrecordData:   response,
+					})
+				}
+			}
+
+			if srResponsesRecord == nil {
+				goto Received
 			}
 
 			resp, err := createPtResponse(pkg.PacketIdentifier, resultCode, serviceType, srResponsesRecord)
-- 
2.43.0


From 911f32ae6ff1bf1d7181f912eefced2079130e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 18/38] fix: use redis database 0 when the config does not name
 one

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 70c75b1..b050cf4 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From f759f0cea4ebdc2fe0f7b378201ee94a4058cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:02 +0000
Subject: [PATCH 19/38] fix: packet-gen sends the requested time instead of a
 constant

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 75f10ca..9bae84e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From 0e785a1adfbcd30e3eeb10241aa88bee396c639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:03 +0000
Subject: [PATCH 20/38] fix: packet-gen waits for the acknowledgement for the
 documented 5 seconds by default

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 9bae84e..66760c3 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 08e6b0b7892d88e29d769a349e98af4f397cefa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 21/38] fix: packet-gen exits with 0 when the packet was
 accepted

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 66760c3..7b243cf 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From 9e7a6f9b3ad8fecbfa3c735a39b174bbccb2ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 22/38] fix: infer the subrecord type of module data and
 dispatcher identity

---
 libs/egts/record_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 9dfee8d..cff0b17 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -111,6 +111,10 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrPosDataType
 			case *SrTermIdentity:
 				rd.SubrecordType = SrTermIdentityType
+			case *SrModuleData:
+				rd.SubrecordType = SrModuleDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			case *SrResponse:
 				rd.SubrecordType = SrRecordResponseType
 			case *SrResultCode:
-- 
2.43.0


From 6e09b286ab5950d91412fa8f8884bf9216b2f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:06 +0000
Subject: [PATCH 23/38] fix: refuse to encode a packet whose data does not fit
 its length field

---
 libs/egts/egts_pkg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 6b01437..e83e9a4 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -244,6 +244,9 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 			}
 		}
 	}
+	if len(sfrd) > 0xFFFF {
+		return result, fmt.Errorf("Размер секции данных превышает допустимый: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
-- 
2.43.0


From 5cce990859e878c0264f322391804107d2b5957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:08 +0000
Subject: [PATCH 24/38] fix: report invalid flags of SR_TERM_IDENTITY instead
 of encoding zeros

---
 libs/egts/egts_sr_term_identity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 19d4acd..b2ec1a9 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -129,6 +129,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
-- 
2.43.0


From 40c25d1ba6ae947875733686a332dbdf1b081ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 25/38] fix: packet-gen sends southern latitudes and western
 longitudes correctly

---
 cli/packet-gen/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 7b243cf..c9fd645 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -114,11 +115,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                hemisphere(lon),
+							LAHS:                hemisphere(lat),
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
@@ -222,3 +223,11 @@ func main() {
 
 	fmt.Println("Packet sent and processed correct")
 }
+
+// hemisphere returns the hemisphere flag for a coordinate that is transmitted by its absolute value.
+func hemisphere(coordinate float64) string {
+	if coordinate < 0 {
+		return "1"
+	}
+	return "0"
+}
-- 
2.43.0


From fbb4229409b866b30030bdf532cd8f531611e2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 26/38] fix: packet-gen accepts an acknowledgement that arrives
 in several segments

---
 cli/packet-gen/main.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index c9fd645..aecbe10 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"io"
 	"math"
 	"net"
 	"os"
@@ -175,17 +177,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackBuf, err := readPacket(conn)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
@@ -231,3 +231,23 @@ func hemisphere(coordinate float64) string {
 	}
 	return "0"
 }
+
+// readPacket reads one whole packet, however it is split into segments.
+func readPacket(r io.Reader) ([]byte, error) {
+	packet := make([]byte, egts.DEFAULT_HEADER_LEN)
+	if _, err := io.ReadFull(r, packet); err != nil {
+		return nil, err
+	}
+
+	restLen := int(packet[3]) - len(packet)
+	if bodyLen := int(binary.LittleEndian.Uint16(packet[5:7])); bodyLen > 0 {
+		restLen += bodyLen + 2
+	}
+	if restLen <= 0 {
+		return packet, nil
+	}
+
+	rest := make([]byte, restLen)
+	_, err := io.ReadFull(r, rest)
+	return append(packet, rest...), err
+}
-- 
2.43.0


From f3f57111375a50037f21442494831f5fdb52e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 27/38] fix: redis storage does not initialise against an
 unreachable server

---
 cli/receiver/storage/store/redis/connector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index b050cf4..d20de8c 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -59,6 +59,10 @@ func (c *Connector) Init(cfg map[string]string) error {
 	if !ok {
 		return fmt.Errorf("не корретное имя redis очереди")
 	}
+
+	if err = c.conn.Ping(context.Background()).Err(); err != nil {
+		return fmt.Errorf("redis недоступен: %v", err)
+	}
 	return err
 }
 
-- 
2.43.0


From 65d4e37819e34eac55eb714a70d2dcab28dedd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 28/38] fix: nats storage reports messages the server did not
 accept

---
 cli/receiver/storage/store/nats/connector.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 54a6dab..834f4cc 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -13,11 +13,13 @@ topic = "receiver"
 import (
 	"fmt"
 	natsLib "github.com/nats-io/nats.go"
+	"sync"
 )
 
 type Connector struct {
 	connection *natsLib.Conn
 	config     map[string]string
+	mu         sync.Mutex
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
@@ -55,9 +57,21 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	lastErr := c.connection.LastError()
 	if err = c.connection.Publish(c.config["topic"], innerPkg); err != nil {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
 	}
+
+	// Publish только ставит сообщение в очередь: ждем, пока сервер его обработает
+	if err = c.connection.Flush(); err != nil {
+		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
+	}
+	if err = c.connection.LastError(); err != nil && err != lastErr {
+		return fmt.Errorf("Сообщение не принято сервером nats: %v", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From f7568a3a3876f2fff19b89e296add6899521d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 29/38] fix: rabbitmq storage waits for the broker to confirm
 the message

---
 cli/receiver/storage/store/rabbitmq/connector.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..3fc5eb1 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,12 +16,15 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"sync"
 )
 
 type Connector struct {
 	connection *amqp.Connection
 	channel    *amqp.Channel
+	confirms   chan amqp.Confirmation
 	config     map[string]string
+	mu         sync.Mutex
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
@@ -42,6 +45,11 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("Ошибка открытия канала RabbitMQ: %v", err)
 	}
 
+	if err = c.channel.Confirm(false); err != nil {
+		return fmt.Errorf("Ошибка включения подтверждений RabbitMQ: %v", err)
+	}
+	c.confirms = c.channel.NotifyPublish(make(chan amqp.Confirmation, 1))
+
 	return err
 }
 
@@ -55,6 +63,9 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	if err = c.channel.Publish(
 		c.config["exchange"],
 		c.config["key"],
@@ -66,6 +77,11 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		}); err != nil {
 		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
 	}
+
+	// Publish не ждет ответа: пакет сохранен, только если RabbitMQ его подтвердил
+	if confirm, ok := <-c.confirms; !ok || !confirm.Ack {
+		return fmt.Errorf("RabbitMQ не подтвердил получение пакета")
+	}
 	return nil
 }
 
-- 
2.43.0


From 0ae5ba89df221a6bf072873499512a351fa87b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 30/38] fix: rabbitmq credentials may contain any characters

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 3fc5eb1..2e86d3f 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 	"sync"
 )
 
@@ -36,7 +37,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From 0fcd0a7fcb815bc91a6d0b47aebbb455ec8199b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:58 +0000
Subject: [PATCH 31/38] fix: postgresql settings may be empty or contain spaces
 and quotes

---
 cli/receiver/storage/store/postgresql/connector.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..de32e89 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -35,7 +36,8 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		quote(c.config["database"]), quote(c.config["host"]), quote(c.config["port"]),
+		quote(c.config["user"]), quote(c.config["password"]), quote(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
@@ -66,3 +68,8 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 func (c *Connector) Close() error {
 	return c.connection.Close()
 }
+
+// quote заключает значение параметра подключения в кавычки, чтобы оно могло быть пустым и содержать любые символы
+func quote(value string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(value) + "'"
+}
-- 
2.43.0


From ecc8bd93543b08a388f87b1205cd15c44b2d2ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 32/38] fix: packet-gen fails when its record is not confirmed

---
 cli/packet-gen/main.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index aecbe10..428c477 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -208,7 +208,14 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	records, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		fmt.Println("Received ack does not confirm the record")
+		os.Exit(1)
+	}
+
+	confirmed := false
+	for _, rec := range *records {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
@@ -216,11 +223,17 @@ func main() {
 						fmt.Printf("Incorrect record status: %d (actual) != 0 (expected)", response.RecordStatus)
 						os.Exit(1)
 					}
+					confirmed = confirmed || response.ConfirmedRecordNumber == 1
 				}
 			}
 		}
 	}
 
+	if !confirmed {
+		fmt.Println("Received ack does not confirm the record")
+		os.Exit(1)
+	}
+
 	fmt.Println("Packet sent and processed correct")
 }
 
-- 
2.43.0


From 31a3b4fcdb612cdcf59bf18882dbcaf13de3aa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 33/38] fix: packet-gen refuses values its packet cannot carry

---
 cli/packet-gen/main.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 428c477..82411dd 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -86,6 +86,11 @@ func main() {
 		os.Exit(1)
 	}
 
+	if err := checkRanges(pid, oid, liqLvl, lat, lon, timestamp); err != nil {
+		fmt.Println(err)
+		os.Exit(1)
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -237,6 +242,27 @@ func main() {
 	fmt.Println("Packet sent and processed correct")
 }
 
+// checkRanges refuses values that the fields of the packet cannot carry.
+func checkRanges(pid, oid, liqLvl int, lat, lon float64, timestamp time.Time) error {
+	if pid < 0 || pid > math.MaxUint16 {
+		return fmt.Errorf("Packet identifier is out of range: %d", pid)
+	}
+	if oid < 0 || int64(oid) > math.MaxUint32 {
+		return fmt.Errorf("Client identifier is out of range: %d", oid)
+	}
+	if liqLvl < 0 || int64(liqLvl) > math.MaxUint32 {
+		return fmt.Errorf("Liquid level is out of range: %d", liqLvl)
+	}
+	if !(math.Abs(lat) <= 90) || !(math.Abs(lon) <= 180) {
+		return fmt.Errorf("Coordinates are out of range: %v, %v", lat, lon)
+	}
+	start := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
+	if seconds := timestamp.Unix() - start.Unix(); seconds < 0 || seconds > math.MaxUint32 {
+		return fmt.Errorf("Timestamp is out of range: %v", timestamp)
+	}
+	return nil
+}
+
 // hemisphere returns the hemisphere flag for a coordinate that is transmitted by its absolute value.
 func hemisphere(coordinate float64) string {
 	if coordinate < 0 {
-- 
2.43.0


From 1ead7eea124be5db0171aba778a6ad7eef9fe156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 34/38] fix: name the connection lifetime conn_ttl in the
 sample configuration as the receiver does

---
 README.md             | 2 +-
 configs/receiver.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 3fff48c..bb70f73 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
-- 
2.43.0


From 787dcef6a9dec51ed7f0564dcb855cfca360cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 35/38] fix: close connections whose client does not read the
 answers within conn_ttl

---
 cli/receiver/server/server.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index c64900f..8b734fd 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -137,7 +137,9 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа EGTS_PT_RESPONSE с ошибкой")
 				goto Received
 			}
-			_, _ = conn.Write(resp)
+			if !s.send(conn, resp) {
+				return
+			}
 
 			goto Received
 		}
@@ -309,12 +311,16 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа")
 				goto Received
 			}
-			_, _ = conn.Write(resp)
+			if !s.send(conn, resp) {
+				return
+			}
 
 			log.WithField("packet", resp).Debug("Отправлен пакет EGTS_PT_RESPONSE")
 
 			if len(srResultCodePkg) > 0 {
-				_, _ = conn.Write(srResultCodePkg)
+				if !s.send(conn, srResultCodePkg) {
+					return
+				}
 				log.WithField("packet", resp).Debug("Отправлен пакет EGTS_SR_RESULT_CODE")
 			}
 		case egts.PtResponsePacket:
@@ -331,6 +337,22 @@ func (s *Server) extendDeadline(conn net.Conn) {
 	}
 }
 
+// send отправляет ответ, false если клиент не читает ответы дольше времени жизни соединения
+func (s *Server) send(conn net.Conn, packet []byte) bool {
+	if s.ttl > 0 {
+		_ = conn.SetWriteDeadline(time.Now().Add(s.ttl))
+	}
+
+	_, err := conn.Write(packet)
+	var netErr net.Error
+	if errors.As(err, &netErr) && netErr.Timeout() {
+		log.WithField("ip", conn.RemoteAddr()).Warn("Клиент не читает ответы. Закрыто соединение")
+		return false
+	}
+
+	return true
+}
+
 func New(srvAddress string, ttl time.Duration, s *storage.Repository) Server {
 	return Server{
 		addr:  srvAddress,
-- 
2.43.0


From d7c491274535f9c111f8540cc08ca34d0dbe59bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 36/38] fix: Stop called while Run is opening the listener was
 ignored

Run assigned the listener after net.Listen had returned, so clients could
already connect while Stop still saw no listener: it returned nil, and Run
went on accepting for ever. Open the listener and publish it under a mutex
that Stop takes.
---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 8b734fd..03ddfe2 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -8,6 +8,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"io"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -21,13 +22,17 @@ type Server struct {
 	addr  string
 	ttl   time.Duration
 	store *storage.Repository
+	mu    sync.Mutex // защищает l: Stop вызывают из другой горутины
 	l     net.Listener
 }
 
 func (s *Server) Run() {
 	var err error
 
+	// пока порт открывается, Stop ждет: иначе он не увидит слушатель, к которому уже подключаются клиенты
+	s.mu.Lock()
 	s.l, err = net.Listen("tcp", s.addr)
+	s.mu.Unlock()
 	if err != nil {
 		log.Fatalf("Не удалось открыть соединение: %v", err)
 	}
@@ -47,6 +52,8 @@ func (s *Server) Run() {
 }
 
 func (s *Server) Stop() error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if s.l != nil {
 		return s.l.Close()
 	}
-- 
2.43.0


From e9f047f5864e001b2e838401fcb227bfdfd3550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:49 +0000
Subject: [PATCH 37/38] fix: send_egts.py sends the last packet of a file
 without a final newline and skips blank lines

---
 tools/send_egts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/send_egts.py b/tools/send_egts.py
index 31688cb..9d7f62b 100755
--- a/tools/send_egts.py
+++ b/tools/send_egts.py
@@ -21,8 +21,11 @@ if __name__ == '__main__':
 
     with open(args.file) as f:
         for rec in f.readlines():
+            rec = rec.strip()
+            if not rec:
+                continue
             print("send: {}".format(rec))
-            package = bytes.fromhex(rec[:-1])            
+            package = bytes.fromhex(rec)
             client.send(package)
 
             rec_package = client.recv(BUFF)
-- 
2.43.0


From 90767a05938e6310b23af21232040fdfcf70a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 38/38] fix: a flag field that is not set or is too wide no
 longer shifts its neighbours in the encoded flags byte

---
 libs/egts/egts_pkg.go                    |  7 +++--
 libs/egts/egts_sr_ad_sensors_data.go     | 39 +++++++++++-------------
 libs/egts/egts_sr_counters_data.go       | 20 ++++++------
 libs/egts/egts_sr_ext_pos_data.go        |  6 ++--
 libs/egts/egts_sr_liquid_level_sensor.go |  5 ++-
 libs/egts/egts_sr_pos_data.go            |  2 +-
 libs/egts/egts_sr_state_data.go          |  3 +-
 libs/egts/egts_sr_term_identity.go       |  3 +-
 libs/egts/flags.go                       | 33 ++++++++++++++++++++
 libs/egts/service_data_records.go        |  6 ++--
 10 files changed, 73 insertions(+), 51 deletions(-)
 create mode 100644 libs/egts/flags.go

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index e83e9a4..21961da 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,7 +6,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 const DEFAULT_HEADER_LEN = 11
@@ -203,8 +202,10 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 	}
 
 	//собираем флаги
-	flagsBits := p.Prefix + p.Route + p.EncryptionAlg + p.Compression + p.Priority
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	if p.EncryptionAlg == "" {
+		p.EncryptionAlg = "00"
+	}
+	if flags, err = flagsByte("21212", p.Prefix, p.Route, p.EncryptionAlg, p.Compression, p.Priority); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 631cae4..86554a1 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrAdSensorsData структура подзаписи типа EGTS_SR_AD_SENSORS_DATA, которая применяется абонентским
@@ -214,16 +213,15 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 
 	buf := new(bytes.Buffer)
 
-	flagsBits := e.DigitalInputsOctetExists8 +
-		e.DigitalInputsOctetExists7 +
-		e.DigitalInputsOctetExists6 +
-		e.DigitalInputsOctetExists5 +
-		e.DigitalInputsOctetExists4 +
-		e.DigitalInputsOctetExists3 +
-		e.DigitalInputsOctetExists2 +
-		e.DigitalInputsOctetExists1
-
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	if flags, err = flagsByte(oneBitFlags,
+		e.DigitalInputsOctetExists8,
+		e.DigitalInputsOctetExists7,
+		e.DigitalInputsOctetExists6,
+		e.DigitalInputsOctetExists5,
+		e.DigitalInputsOctetExists4,
+		e.DigitalInputsOctetExists3,
+		e.DigitalInputsOctetExists2,
+		e.DigitalInputsOctetExists1); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт цифровых выходов ad_sesor_data: %v", err)
 	}
 
@@ -235,16 +233,15 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists8 +
-		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists6 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists1
-
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	if flags, err = flagsByte(oneBitFlags,
+		e.AnalogSensorFieldExists8,
+		e.AnalogSensorFieldExists7,
+		e.AnalogSensorFieldExists6,
+		e.AnalogSensorFieldExists5,
+		e.AnalogSensorFieldExists4,
+		e.AnalogSensorFieldExists3,
+		e.AnalogSensorFieldExists2,
+		e.AnalogSensorFieldExists1); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
 	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 1aa445a..91a4486 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrCountersData структура подзаписи типа EGTS_SR_COUNTERS_DATA, которая используется аппаратно-программным
@@ -127,16 +126,15 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 		result []byte
 	)
 	buf := new(bytes.Buffer)
-	flagsBits := c.CounterFieldExists8 +
-		c.CounterFieldExists7 +
-		c.CounterFieldExists6 +
-		c.CounterFieldExists5 +
-		c.CounterFieldExists4 +
-		c.CounterFieldExists3 +
-		c.CounterFieldExists2 +
-		c.CounterFieldExists1
-
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	if flags, err = flagsByte(oneBitFlags,
+		c.CounterFieldExists8,
+		c.CounterFieldExists7,
+		c.CounterFieldExists6,
+		c.CounterFieldExists5,
+		c.CounterFieldExists4,
+		c.CounterFieldExists3,
+		c.CounterFieldExists2,
+		c.CounterFieldExists1); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов counters_data: %v", err)
 	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index b7ab165..06615bb 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrExtPosData структура подзаписи типа EGTS_SR_EXT_POS_DATA, которая используется абонентским
@@ -92,9 +91,8 @@ func (e *SrExtPosData) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 
 	//байт флагов
-	flagsBits := "000" + e.NavigationSystemFieldExists + e.SatellitesFieldExists +
-		e.PdopFieldExists + e.HdopFieldExists + e.VdopFieldExists
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	if flags, err = flagsByte("11111", e.NavigationSystemFieldExists, e.SatellitesFieldExists,
+		e.PdopFieldExists, e.HdopFieldExists, e.VdopFieldExists); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов ext_pos_data: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index dc346f6..d5771e5 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -66,9 +66,8 @@ func (e *SrLiquidLevelSensor) Encode() ([]byte, error) {
 	)
 	buf := new(bytes.Buffer)
 
-	flagsBits := "0" + e.LiquidLevelSensorErrorFlag + e.LiquidLevelSensorValueUnit +
-		e.RawDataFlag + fmt.Sprintf("%03b", e.LiquidLevelSensorNumber)
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	if flags, err = flagsByte("1213", e.LiquidLevelSensorErrorFlag, e.LiquidLevelSensorValueUnit,
+		e.RawDataFlag, fmt.Sprintf("%03b", e.LiquidLevelSensorNumber)); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов ext_pos_data: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 83bf2a4..e311cbe 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -156,7 +156,7 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	//байт флагов
-	flags, err = strconv.ParseUint(e.ALTE+e.LOHS+e.LAHS+e.MV+e.BB+e.CS+e.FIX+e.VLD, 2, 8)
+	flags, err = flagsByte(oneBitFlags, e.ALTE, e.LOHS, e.LAHS, e.MV, e.BB, e.CS, e.FIX, e.VLD)
 	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов pos_data: %v", err)
 	}
diff --git a/libs/egts/egts_sr_state_data.go b/libs/egts/egts_sr_state_data.go
index 502cb8c..eb6cfac 100644
--- a/libs/egts/egts_sr_state_data.go
+++ b/libs/egts/egts_sr_state_data.go
@@ -3,7 +3,6 @@ package egts
 import (
 	"bytes"
 	"fmt"
-	"strconv"
 )
 
 //SrStateData структура подзаписи типа EGTS_SR_STATE_DATA, которая используется для передачи на
@@ -79,7 +78,7 @@ func (e *SrStateData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать значение напряжения внутренней батареи: %v", err)
 	}
 
-	if flags, err = strconv.ParseUint("00000"+e.NMS+e.IBU+e.BBU, 2, 8); err != nil {
+	if flags, err = flagsByte("111", e.NMS, e.IBU, e.BBU); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов state_data: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index b2ec1a9..9407b64 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrTermIdentity структура подзаписи типа EGTS_SR_TERM_IDENTITY, которая используется АС при запросе
@@ -128,7 +127,7 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать идентификатор терминал при авторизации")
 	}
 
-	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	flags, err = flagsByte(oneBitFlags, e.MNE, e.BSE, e.NIDE, e.SSRA, e.LNGCE, e.IMSIE, e.IMEIE, e.HDIDE)
 	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
 	}
diff --git a/libs/egts/flags.go b/libs/egts/flags.go
new file mode 100644
index 0000000..ac97b4c
--- /dev/null
+++ b/libs/egts/flags.go
@@ -0,0 +1,33 @@
+package egts
+
+import (
+	"fmt"
+	"strconv"
+)
+
+// oneBitFlags разметка байта из восьми однобитовых флагов
+const oneBitFlags = "11111111"
+
+// flagsByte собирает байт из битовых полей, начиная со старшего. Строка widths содержит ширину каждого поля в битах.
+// Незаполненное поле считается нулевым, поле другой ширины закодировать нельзя: оно сдвинуло бы соседние.
+func flagsByte(widths string, fields ...string) (uint64, error) {
+	var result uint64
+
+	for i, field := range fields {
+		width := uint(widths[i] - '0')
+		result <<= width
+		if field == "" {
+			continue
+		}
+		if len(field) != int(width) {
+			return 0, fmt.Errorf("поле %q не помещается в %d бит", field, width)
+		}
+		bits, err := strconv.ParseUint(field, 2, int(width))
+		if err != nil {
+			return 0, err
+		}
+		result |= bits
+	}
+
+	return result, nil
+}
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index e0bdaf0..9f36199 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 	"time"
 )
 
@@ -147,9 +146,8 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 		}
 
 		// составной байт
-		flagsBits := sdr.SourceServiceOnDevice + sdr.RecipientServiceOnDevice + sdr.Group + sdr.RecordProcessingPriority +
-			sdr.TimeFieldExists + sdr.EventIDFieldExists + sdr.ObjectIDFieldExists
-		if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+		if flags, err = flagsByte("1112111", sdr.SourceServiceOnDevice, sdr.RecipientServiceOnDevice, sdr.Group, sdr.RecordProcessingPriority,
+			sdr.TimeFieldExists, sdr.EventIDFieldExists, sdr.ObjectIDFieldExists); err != nil {
 			return result, fmt.Errorf("не удалось сгенерировать байт флагов SDR: %v", err)
 		}
 		if err = buf.WriteByte(uint8(flags)); err != nil {
-- 
2.43.0

