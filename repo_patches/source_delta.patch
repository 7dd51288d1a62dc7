From ede805962498741437536dc644af71abe491ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 01/11] fix: make the uAvionix dialect package compile

---
 uAvionix/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uAvionix/dialect.go b/uAvionix/dialect.go
index d9de5c4..423b956 100644
--- a/uAvionix/dialect.go
+++ b/uAvionix/dialect.go
@@ -47,7 +47,7 @@ func (d Dialect) GetMeta(messageID uint32) (meta mavlink2.MessageMeta, err error
 
 // GetMessage extracts and parses the message contained in the Frame
 func (d Dialect) GetMessage(frame mavlink2.Frame) (message mavlink2.Message, err error) {
-	if parser, ok := uavionixParsers[frame.GetMessageID()]; ok {
+	if parser, ok := uAvionixParsers[frame.GetMessageID()]; ok {
 		message, err = parser(frame)
 		return
 	}
-- 
2.43.0


From 8838575154e5af43bee44947e7998cac8c274abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 02/11] fix: pass the returnInvalidFrames argument in the
 example command

---
 cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index 39f8f3c..b9b954a 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -22,7 +22,7 @@ func main() {
 
 	dialects := mavlink2.Dialects{common.Dialect{}, ardupilotmega.Dialect{}}
 
-	stream := mavlink2.NewFrameStream(rwc, input, dialects)
+	stream := mavlink2.NewFrameStream(rwc, input, dialects, false)
 
 	var wg sync.WaitGroup
 
-- 
2.43.0


From f3729b63a42c0000338a8c8a1acb2437ff57f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 03/11] fix: write sequence, system and component id of version
 1 frames in wire order

---
 stream.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stream.go b/stream.go
index e5379b3..7d71fa4 100644
--- a/stream.go
+++ b/stream.go
@@ -305,9 +305,9 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		frameBytes = make([]byte, len(messageBytes)+6)
 		frameBytes[0] = V1StartByte
 		frameBytes[1] = uint8(len(messageBytes))
-		frameBytes[2] = senderSystemID
-		frameBytes[3] = senderComponentID
-		frameBytes[4] = messageSequence
+		frameBytes[2] = messageSequence
+		frameBytes[3] = senderSystemID
+		frameBytes[4] = senderComponentID
 
 		idBytes := make([]byte, 4)
 		binary.LittleEndian.PutUint32(idBytes, message.GetID())
-- 
2.43.0


From db21c48091003835219efd915e4ac1d1061859c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 04/11] fix: a frame is signed when its incompatibility flag
 says so

---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index a27cc43..27d1995 100644
--- a/frame.go
+++ b/frame.go
@@ -195,7 +195,7 @@ func (frame FrameV2) GetChecksumInput() []byte {
 
 // GetSignature returns the V2 Signature of the frame, if it exists
 func (frame FrameV2) GetSignature() []byte {
-	if frame.GetCompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
+	if frame.GetIncompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
 		return nil
 	}
 	start := frame.GetMessageLength() + 12
-- 
2.43.0


From ffe5509e002df24408a1082009572effa673a245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 05/11] fix: truncate an all-zero payload to one byte

---
 util/util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/util.go b/util/util.go
index 4ca91fd..93b4e33 100644
--- a/util/util.go
+++ b/util/util.go
@@ -3,13 +3,14 @@ package util
 func TruncateV2(input []byte) []byte {
 	var i int
 	// Loop through the array in reverse until the first non-zero byte is found
-	for i = len(input); i > 0; i-- {
+	// The first byte is never truncated
+	for i = len(input); i > 1; i-- {
 		if input[i-1] != 0 {
-			return input[:i]
+			break
 		}
 	}
 
-	return input
+	return input[:i]
 }
 
 // CStrLen returns the length of the null-terminated C string contained in the input buffer
-- 
2.43.0


From 16b62f947887498c7faae77a02da9302404dedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 06/11] fix: an empty collection of dialects knows no message

---
 dialect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialect.go b/dialect.go
index 1beea4e..f8a913d 100644
--- a/dialect.go
+++ b/dialect.go
@@ -37,6 +37,8 @@ type Dialects []Dialect
 
 // GetMessage decodes the message in the Frame
 func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		message, err = dialect.GetMessage(frame)
 
@@ -59,6 +61,8 @@ func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
 func (d Dialects) GetFrame(version int, senderSystemID, senderComponentID, messageSequence uint8, message Message) (frame Frame, err error) {
 	var meta MessageMeta
 
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(message.GetID())
 
@@ -85,7 +89,7 @@ func (d Dialects) Validate(frame Frame) error {
 	checksum.Reset()
 
 	var meta MessageMeta
-	var err error
+	err := ErrUnknownMessage
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(frame.GetMessageID())
 
-- 
2.43.0


From 5a54f748eddae633bcc893c97e49d02e3f1eb619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 07/11] fix: setting a text field clears what it held before

---
 ardupilotmega/device_op_read.go     | 1 +
 ardupilotmega/device_op_write.go    | 1 +
 common/adsb_vehicle.go              | 1 +
 common/ais_vessel.go                | 2 ++
 common/auth_key.go                  | 1 +
 common/camera_image_captured.go     | 1 +
 common/camera_information.go        | 1 +
 common/change_operator_control.go   | 1 +
 common/component_information.go     | 1 +
 common/debug_float_array.go         | 1 +
 common/debug_vect.go                | 1 +
 common/named_value_float.go         | 1 +
 common/named_value_int.go           | 1 +
 common/open_drone_id_operator_id.go | 1 +
 common/open_drone_id_self_id.go     | 1 +
 common/param_ext_ack.go             | 2 ++
 common/param_ext_request_read.go    | 1 +
 common/param_ext_set.go             | 2 ++
 common/param_ext_value.go           | 2 ++
 common/param_map_rc.go              | 1 +
 common/param_request_read.go        | 1 +
 common/param_set.go                 | 1 +
 common/param_value.go               | 1 +
 common/play_tune.go                 | 2 ++
 common/play_tune_v2.go              | 1 +
 common/smart_battery_info.go        | 1 +
 common/statustext.go                | 1 +
 common/statustext_long.go           | 1 +
 common/uavcan_node_info.go          | 1 +
 common/video_stream_information.go  | 2 ++
 common/wifi_config_ap.go            | 2 ++
 paparazzi/script_item.go            | 1 +
 uAvionix/uavionix_adsb_out_cfg.go   | 1 +
 33 files changed, 40 insertions(+)

diff --git a/ardupilotmega/device_op_read.go b/ardupilotmega/device_op_read.go
index fa99ade..d7af7e1 100644
--- a/ardupilotmega/device_op_read.go
+++ b/ardupilotmega/device_op_read.go
@@ -100,6 +100,7 @@ func (m *DeviceOpRead) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpRead) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/ardupilotmega/device_op_write.go b/ardupilotmega/device_op_write.go
index cbff8ce..00e0bd0 100644
--- a/ardupilotmega/device_op_write.go
+++ b/ardupilotmega/device_op_write.go
@@ -104,6 +104,7 @@ func (m *DeviceOpWrite) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpWrite) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/common/adsb_vehicle.go b/common/adsb_vehicle.go
index cd7493c..25d7bf7 100644
--- a/common/adsb_vehicle.go
+++ b/common/adsb_vehicle.go
@@ -116,6 +116,7 @@ func (m *AdsbVehicle) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AdsbVehicle) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
diff --git a/common/ais_vessel.go b/common/ais_vessel.go
index 2f81840..497e532 100644
--- a/common/ais_vessel.go
+++ b/common/ais_vessel.go
@@ -132,6 +132,7 @@ func (m *AisVessel) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AisVessel) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(7)))
+	m.Callsign = [7]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 7 {
@@ -151,6 +152,7 @@ func (m *AisVessel) GetCallsign() string {
 // SetName encodes the input string to the Name array
 func (m *AisVessel) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.Name = [20]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/auth_key.go b/common/auth_key.go
index 40953ae..f2af34e 100644
--- a/common/auth_key.go
+++ b/common/auth_key.go
@@ -68,6 +68,7 @@ func (m *AuthKey) String() string {
 // SetKey encodes the input string to the Key array
 func (m *AuthKey) SetKey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Key = [32]byte{}
 	copy(m.Key[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
diff --git a/common/camera_image_captured.go b/common/camera_image_captured.go
index ab33c9e..bfc2cbc 100644
--- a/common/camera_image_captured.go
+++ b/common/camera_image_captured.go
@@ -108,6 +108,7 @@ func (m *CameraImageCaptured) String() string {
 // SetFileURL encodes the input string to the FileURL array
 func (m *CameraImageCaptured) SetFileURL(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(205)))
+	m.FileURL = [205]byte{}
 	copy(m.FileURL[:], []byte(input)[:clen])
 
 	if len(input) > 205 {
diff --git a/common/camera_information.go b/common/camera_information.go
index 14340b6..efbd79d 100644
--- a/common/camera_information.go
+++ b/common/camera_information.go
@@ -116,6 +116,7 @@ func (m *CameraInformation) String() string {
 // SetCamDefinitionURI encodes the input string to the CamDefinitionURI array
 func (m *CameraInformation) SetCamDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.CamDefinitionURI = [140]byte{}
 	copy(m.CamDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/change_operator_control.go b/common/change_operator_control.go
index d999970..ddc101e 100644
--- a/common/change_operator_control.go
+++ b/common/change_operator_control.go
@@ -80,6 +80,7 @@ func (m *ChangeOperatorControl) String() string {
 // SetPasskey encodes the input string to the Passkey array
 func (m *ChangeOperatorControl) SetPasskey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(25)))
+	m.Passkey = [25]byte{}
 	copy(m.Passkey[:], []byte(input)[:clen])
 
 	if len(input) > 25 {
diff --git a/common/component_information.go b/common/component_information.go
index caca03b..59bd067 100644
--- a/common/component_information.go
+++ b/common/component_information.go
@@ -96,6 +96,7 @@ func (m *ComponentInformation) String() string {
 // SetComponentDefinitionURI encodes the input string to the ComponentDefinitionURI array
 func (m *ComponentInformation) SetComponentDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.ComponentDefinitionURI = [140]byte{}
 	copy(m.ComponentDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/debug_float_array.go b/common/debug_float_array.go
index ce35d70..68cc81f 100644
--- a/common/debug_float_array.go
+++ b/common/debug_float_array.go
@@ -97,6 +97,7 @@ func (m *DebugFloatArray) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugFloatArray) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/debug_vect.go b/common/debug_vect.go
index 52a2b4e..dc4dc20 100644
--- a/common/debug_vect.go
+++ b/common/debug_vect.go
@@ -84,6 +84,7 @@ func (m *DebugVect) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugVect) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_float.go b/common/named_value_float.go
index 492728a..5eb9d62 100644
--- a/common/named_value_float.go
+++ b/common/named_value_float.go
@@ -76,6 +76,7 @@ func (m *NamedValueFloat) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueFloat) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_int.go b/common/named_value_int.go
index a347384..4de1246 100644
--- a/common/named_value_int.go
+++ b/common/named_value_int.go
@@ -76,6 +76,7 @@ func (m *NamedValueInt) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueInt) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/open_drone_id_operator_id.go b/common/open_drone_id_operator_id.go
index 5d0a1ee..41a0e06 100644
--- a/common/open_drone_id_operator_id.go
+++ b/common/open_drone_id_operator_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDOperatorID) String() string {
 // SetOperatorID encodes the input string to the OperatorID array
 func (m *OpenDroneIDOperatorID) SetOperatorID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.OperatorID = [20]byte{}
 	copy(m.OperatorID[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/open_drone_id_self_id.go b/common/open_drone_id_self_id.go
index 8f0eb12..2146aea 100644
--- a/common/open_drone_id_self_id.go
+++ b/common/open_drone_id_self_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDSelfID) String() string {
 // SetDescription encodes the input string to the Description array
 func (m *OpenDroneIDSelfID) SetDescription(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(23)))
+	m.Description = [23]byte{}
 	copy(m.Description[:], []byte(input)[:clen])
 
 	if len(input) > 23 {
diff --git a/common/param_ext_ack.go b/common/param_ext_ack.go
index 6aafc61..1f849a0 100644
--- a/common/param_ext_ack.go
+++ b/common/param_ext_ack.go
@@ -80,6 +80,7 @@ func (m *ParamExtAck) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtAck) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -99,6 +100,7 @@ func (m *ParamExtAck) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtAck) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_request_read.go b/common/param_ext_request_read.go
index 6f95d4e..903ca11 100644
--- a/common/param_ext_request_read.go
+++ b/common/param_ext_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamExtRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_ext_set.go b/common/param_ext_set.go
index 12c1530..74fce6a 100644
--- a/common/param_ext_set.go
+++ b/common/param_ext_set.go
@@ -84,6 +84,7 @@ func (m *ParamExtSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtSet) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtSet) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_value.go b/common/param_ext_value.go
index 743dc97..365ea67 100644
--- a/common/param_ext_value.go
+++ b/common/param_ext_value.go
@@ -84,6 +84,7 @@ func (m *ParamExtValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtValue) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtValue) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_map_rc.go b/common/param_map_rc.go
index 8aec9b0..1d699be 100644
--- a/common/param_map_rc.go
+++ b/common/param_map_rc.go
@@ -100,6 +100,7 @@ func (m *ParamMapRC) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamMapRC) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_request_read.go b/common/param_request_read.go
index 2a6456d..2a4abc9 100644
--- a/common/param_request_read.go
+++ b/common/param_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_set.go b/common/param_set.go
index 8f5d597..5a29857 100644
--- a/common/param_set.go
+++ b/common/param_set.go
@@ -84,6 +84,7 @@ func (m *ParamSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_value.go b/common/param_value.go
index 9cb1a20..8664315 100644
--- a/common/param_value.go
+++ b/common/param_value.go
@@ -84,6 +84,7 @@ func (m *ParamValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/play_tune.go b/common/play_tune.go
index 9aeff5e..b365da0 100644
--- a/common/play_tune.go
+++ b/common/play_tune.go
@@ -97,6 +97,7 @@ func (m *PlayTune) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTune) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(30)))
+	m.Tune = [30]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 30 {
@@ -116,6 +117,7 @@ func (m *PlayTune) GetTune() string {
 // SetTune2 encodes the input string to the Tune2 array
 func (m *PlayTune) SetTune2(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(200)))
+	m.Tune2 = [200]byte{}
 	copy(m.Tune2[:], []byte(input)[:clen])
 
 	if len(input) > 200 {
diff --git a/common/play_tune_v2.go b/common/play_tune_v2.go
index 4399c8c..cd1f10c 100644
--- a/common/play_tune_v2.go
+++ b/common/play_tune_v2.go
@@ -80,6 +80,7 @@ func (m *PlayTuneV2) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTuneV2) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(248)))
+	m.Tune = [248]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 248 {
diff --git a/common/smart_battery_info.go b/common/smart_battery_info.go
index 82355e8..8d75d5c 100644
--- a/common/smart_battery_info.go
+++ b/common/smart_battery_info.go
@@ -104,6 +104,7 @@ func (m *SmartBatteryInfo) String() string {
 // SetDeviceName encodes the input string to the DeviceName array
 func (m *SmartBatteryInfo) SetDeviceName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.DeviceName = [50]byte{}
 	copy(m.DeviceName[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext.go b/common/statustext.go
index addfc4e..aae7e13 100644
--- a/common/statustext.go
+++ b/common/statustext.go
@@ -72,6 +72,7 @@ func (m *Statustext) String() string {
 // SetText encodes the input string to the Text array
 func (m *Statustext) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Text = [50]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext_long.go b/common/statustext_long.go
index dff0134..ea70a5e 100644
--- a/common/statustext_long.go
+++ b/common/statustext_long.go
@@ -72,6 +72,7 @@ func (m *StatustextLong) String() string {
 // SetText encodes the input string to the Text array
 func (m *StatustextLong) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(254)))
+	m.Text = [254]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 254 {
diff --git a/common/uavcan_node_info.go b/common/uavcan_node_info.go
index 00fb5c7..948974c 100644
--- a/common/uavcan_node_info.go
+++ b/common/uavcan_node_info.go
@@ -100,6 +100,7 @@ func (m *UavcanNodeInfo) String() string {
 // SetName encodes the input string to the Name array
 func (m *UavcanNodeInfo) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(80)))
+	m.Name = [80]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 80 {
diff --git a/common/video_stream_information.go b/common/video_stream_information.go
index e8cd673..1fbb155 100644
--- a/common/video_stream_information.go
+++ b/common/video_stream_information.go
@@ -112,6 +112,7 @@ func (m *VIDeoStreamInformation) String() string {
 // SetName encodes the input string to the Name array
 func (m *VIDeoStreamInformation) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Name = [32]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -131,6 +132,7 @@ func (m *VIDeoStreamInformation) GetName() string {
 // SetURI encodes the input string to the URI array
 func (m *VIDeoStreamInformation) SetURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(160)))
+	m.URI = [160]byte{}
 	copy(m.URI[:], []byte(input)[:clen])
 
 	if len(input) > 160 {
diff --git a/common/wifi_config_ap.go b/common/wifi_config_ap.go
index 4b5febf..c964746 100644
--- a/common/wifi_config_ap.go
+++ b/common/wifi_config_ap.go
@@ -72,6 +72,7 @@ func (m *WifiConfigAp) String() string {
 // SetSsID encodes the input string to the SsID array
 func (m *WifiConfigAp) SetSsID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.SsID = [32]byte{}
 	copy(m.SsID[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -91,6 +92,7 @@ func (m *WifiConfigAp) GetSsID() string {
 // SetPassword encodes the input string to the Password array
 func (m *WifiConfigAp) SetPassword(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(64)))
+	m.Password = [64]byte{}
 	copy(m.Password[:], []byte(input)[:clen])
 
 	if len(input) > 64 {
diff --git a/paparazzi/script_item.go b/paparazzi/script_item.go
index cdb8974..8a384d1 100644
--- a/paparazzi/script_item.go
+++ b/paparazzi/script_item.go
@@ -80,6 +80,7 @@ func (m *ScriptItem) String() string {
 // SetName encodes the input string to the Name array
 func (m *ScriptItem) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Name = [50]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/uAvionix/uavionix_adsb_out_cfg.go b/uAvionix/uavionix_adsb_out_cfg.go
index 64dd936..4f6ecaf 100644
--- a/uAvionix/uavionix_adsb_out_cfg.go
+++ b/uAvionix/uavionix_adsb_out_cfg.go
@@ -96,6 +96,7 @@ func (m *UavionixAdsbOutCfg) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *UavionixAdsbOutCfg) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
-- 
2.43.0


From 59ec6b8029fa7a6ead868a03825314b7e81e85d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 08/11] fix: keep the V2Extension payload length within its
 payload

---
 common/v2_extension.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/common/v2_extension.go b/common/v2_extension.go
index 58bc6a5..78669ed 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -28,7 +28,6 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
-	"math"
 	"text/tabwriter"
 
 	"github.com/botlink/go-mavlink2"
@@ -124,7 +123,16 @@ func (m *V2Extension) getIOSlice() []byte {
 
 // GetPayloadSlice gets the valid Payload bytes as a slice
 func (m *V2Extension) GetPayload() []byte {
-	return m.Payload[0:m.PayloadLength]
+	return m.Payload[0:m.payloadLength()]
+}
+
+// payloadLength gets the number of valid Payload bytes, which is never more than Payload can hold
+func (m *V2Extension) payloadLength() int {
+	if int(m.PayloadLength) > len(m.Payload) {
+		return len(m.Payload)
+	}
+
+	return int(m.PayloadLength)
 }
 
 // SetPayloadSlice sets the Payload from the slice value provided
@@ -163,7 +171,14 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 	copy(ioBytes, frame.GetMessageBytes())
 
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
-	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength()-5)))
+	payloadLength := int(frame.GetMessageLength()) - m.getV1Length()
+	if payloadLength < 0 {
+		payloadLength = 0
+	}
+	if payloadLength > len(m.Payload) {
+		payloadLength = len(m.Payload)
+	}
+	ioBytes[len(ioBytes)-1] = uint8(payloadLength)
 
 	buffer := bytes.NewBuffer(ioBytes)
 
@@ -195,7 +210,7 @@ func (m *V2Extension) Write(version int) (output []byte, err error) {
 	// V2Extension packets are always variable length,
 	// regardless of whether they are in a V1 or V2 stream
 	// Cut off the trailing bytes past the end of the payload
-	output = output[:5+m.PayloadLength]
+	output = output[:m.getV1Length()+m.payloadLength()]
 
 	if version == 2 {
 		output = util.TruncateV2(output)
-- 
2.43.0


From 367ecd6bace7586fc2c119afbb0445ddaf4b428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:09 +0000
Subject: [PATCH 09/11] fix: accept the variable-length V2Extension frames the
 library writes

---
 common/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/dialect.go b/common/dialect.go
index cf90dd8..7725f73 100644
--- a/common/dialect.go
+++ b/common/dialect.go
@@ -190,7 +190,7 @@ var commonMessages = map[uint32]mavlink2.MessageMeta{
 	245:   mavlink2.MessageMeta{CRCExtra: 130, MinimumLength: 2, MaximumLength: 2},
 	246:   mavlink2.MessageMeta{CRCExtra: 184, MinimumLength: 38, MaximumLength: 38},
 	247:   mavlink2.MessageMeta{CRCExtra: 81, MinimumLength: 19, MaximumLength: 19},
-	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 254, MaximumLength: 254},
+	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 5, MaximumLength: 254},
 	249:   mavlink2.MessageMeta{CRCExtra: 204, MinimumLength: 36, MaximumLength: 36},
 	250:   mavlink2.MessageMeta{CRCExtra: 49, MinimumLength: 30, MaximumLength: 30},
 	251:   mavlink2.MessageMeta{CRCExtra: 170, MinimumLength: 18, MaximumLength: 18},
-- 
2.43.0


From 8245833eac524406c9f3922b94841d2314286475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:04 +0000
Subject: [PATCH 10/11] fix: refuse messages whose ID does not fit in a version
 1 frame

---
 stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stream.go b/stream.go
index 7d71fa4..8d634c5 100644
--- a/stream.go
+++ b/stream.go
@@ -289,6 +289,12 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		return
 	}
 
+	// Version 1 frames only have room for one byte of message ID
+	if version == 1 && message.GetID() > 255 {
+		err = ErrEncodeV2MessageV1Frame
+		return
+	}
+
 	var frameBytes []byte
 	var messageBytes []byte
 
-- 
2.43.0


From d01b5e66fb02e89d5ac2f79d6f139e376f0e5f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 11/11] fix: closing or cancelling a stream neither panics,
 hangs nor races with delivery

---
 stream.go | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/stream.go b/stream.go
index 8d634c5..7c2068f 100644
--- a/stream.go
+++ b/stream.go
@@ -61,12 +61,14 @@ type FrameStream struct {
 	sync.RWMutex
 	inputFrames         chan Frame
 	outputFrames        chan Frame
+	outputLock          sync.Mutex // held while sending to or closing outputFrames
 	rwc                 io.ReadWriteCloser
 	reader              *bufio.Reader
 	writer              io.Writer
 	closeErr            error
 	closeOnce           sync.Once
-	closed              chan struct{}
+	closing             chan struct{} // closed when closing starts
+	closed              chan struct{} // closed when closing is complete
 	buffer              []byte
 	bufferIndex         int
 	dialects            Dialects
@@ -97,6 +99,7 @@ func NewFrameStreamWithLogger(rwc io.ReadWriteCloser, inputFrames chan Frame, di
 		reader:              bufio.NewReader(rwc),
 		rwc:                 rwc,
 		closeOnce:           sync.Once{},
+		closing:             make(chan struct{}),
 		closed:              make(chan struct{}),
 		buffer:              make([]byte, maxFrameLength*2, maxFrameLength*2),
 		bufferIndex:         0,
@@ -131,17 +134,26 @@ func (s *FrameStream) Closed() <-chan struct{} {
 func (s *FrameStream) close(err error) {
 	s.closeOnce.Do(func() {
 		s.Lock()
-		defer s.Unlock()
-
 		s.closeErr = err
+		s.Unlock()
+
+		// Release a sender waiting for a consumer before the channel it is using is closed
+		close(s.closing)
 
 		s.rwc.Close()
+
+		s.outputLock.Lock()
 		close(s.outputFrames)
+		s.outputLock.Unlock()
+
 		close(s.closed)
 	})
 }
 
 func (s *FrameStream) GetCloseErr() error {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.closeErr
 }
 
@@ -151,6 +163,8 @@ func (s *FrameStream) WriteContext(ctx context.Context) {
 		case <-ctx.Done():
 			s.close(ctx.Err())
 			return
+		case <-s.closing:
+			return
 		case frame, ok := <-s.inputFrames:
 			if !ok {
 				s.close(ErrWriteChannelClosed)
@@ -185,11 +199,37 @@ func (s *FrameStream) ReadContext(ctx context.Context) {
 			if s.logger != nil {
 				s.logger.LogRead(frame.Bytes())
 			}
-			s.outputFrames <- frame
+			if !s.deliver(ctx, frame) {
+				s.close(ctx.Err())
+				return
+			}
 		}
 	}
 }
 
+// deliver hands the frame to the consumer. It returns false if the context is cancelled
+// or the stream is closed before the consumer takes the frame
+func (s *FrameStream) deliver(ctx context.Context, frame Frame) bool {
+	s.outputLock.Lock()
+	defer s.outputLock.Unlock()
+
+	// outputFrames may already have been closed
+	select {
+	case <-s.closing:
+		return false
+	default:
+	}
+
+	select {
+	case <-s.closing:
+		return false
+	case <-ctx.Done():
+		return false
+	case s.outputFrames <- frame:
+		return true
+	}
+}
+
 func peekHeader(buffer []byte) (frameLength uint16, startFound bool) {
 	messageLength := buffer[1]
 	startByte := buffer[0]
-- 
2.43.0

