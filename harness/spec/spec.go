//go:build go1.21

// Package spec is the committed snapshot of the MAVLink message definitions (see DESIGN.md).
package spec

// Field is one field in wire order.
type Field struct {
	Name, Type string
	N          int // elements of an array, 0 for a scalar
	Off, Size  int // first byte on the wire, bytes per element
	Ext        bool
}

// Msg is one message definition.
type Msg struct {
	ID         uint32
	Name       string
	Registered bool
	CRC        byte
	Min, Max   int
	Variable   bool // the last field has a variable length
	Text       []string
	Fields     []Field
}

// Dialect is one dialect.
type Dialect struct {
	Pkg, Name string
	Msgs      []Msg
}

var d_ardupilotmega = []Msg{
	{150, "SensorOffsets", true, 134, 42, 42, false, nil, []Field{{"MagDeclination", "float32", 0, 0, 4, false}, {"RawPress", "int32", 0, 4, 4, false}, {"RawTemp", "int32", 0, 8, 4, false}, {"GyroCalX", "float32", 0, 12, 4, false}, {"GyroCalY", "float32", 0, 16, 4, false}, {"GyroCalZ", "float32", 0, 20, 4, false}, {"AccelCalX", "float32", 0, 24, 4, false}, {"AccelCalY", "float32", 0, 28, 4, false}, {"AccelCalZ", "float32", 0, 32, 4, false}, {"MagOfsX", "int16", 0, 36, 2, false}, {"MagOfsY", "int16", 0, 38, 2, false}, {"MagOfsZ", "int16", 0, 40, 2, false}}},
	{151, "SetMagOffsets", true, 219, 8, 8, false, nil, []Field{{"MagOfsX", "int16", 0, 0, 2, false}, {"MagOfsY", "int16", 0, 2, 2, false}, {"MagOfsZ", "int16", 0, 4, 2, false}, {"TargetSystem", "uint8", 0, 6, 1, false}, {"TargetComponent", "uint8", 0, 7, 1, false}}},
	{152, "MemInfo", true, 208, 4, 8, false, nil, []Field{{"Brkval", "uint16", 0, 0, 2, false}, {"Freemem", "uint16", 0, 2, 2, false}, {"Freemem32", "uint32", 0, 4, 4, true}}},
	{153, "ApAdc", true, 188, 12, 12, false, nil, []Field{{"Adc1", "uint16", 0, 0, 2, false}, {"Adc2", "uint16", 0, 2, 2, false}, {"Adc3", "uint16", 0, 4, 2, false}, {"Adc4", "uint16", 0, 6, 2, false}, {"Adc5", "uint16", 0, 8, 2, false}, {"Adc6", "uint16", 0, 10, 2, false}}},
	{154, "DigicamConfigure", true, 84, 15, 15, false, nil, []Field{{"ExtraValue", "float32", 0, 0, 4, false}, {"ShutterSpeed", "uint16", 0, 4, 2, false}, {"TargetSystem", "uint8", 0, 6, 1, false}, {"TargetComponent", "uint8", 0, 7, 1, false}, {"Mode", "uint8", 0, 8, 1, false}, {"Aperture", "uint8", 0, 9, 1, false}, {"Iso", "uint8", 0, 10, 1, false}, {"ExposureType", "uint8", 0, 11, 1, false}, {"CommandID", "uint8", 0, 12, 1, false}, {"EngineCutOff", "uint8", 0, 13, 1, false}, {"ExtraParam", "uint8", 0, 14, 1, false}}},
	{155, "DigicamControl", true, 22, 13, 13, false, nil, []Field{{"ExtraValue", "float32", 0, 0, 4, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}, {"Session", "uint8", 0, 6, 1, false}, {"ZoomPos", "uint8", 0, 7, 1, false}, {"ZoomStep", "int8", 0, 8, 1, false}, {"FocusLock", "uint8", 0, 9, 1, false}, {"Shot", "uint8", 0, 10, 1, false}, {"CommandID", "uint8", 0, 11, 1, false}, {"ExtraParam", "uint8", 0, 12, 1, false}}},
	{156, "MountConfigure", true, 19, 6, 6, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"MountMode", "uint8", 0, 2, 1, false}, {"StabRoll", "uint8", 0, 3, 1, false}, {"StabPitch", "uint8", 0, 4, 1, false}, {"StabYaw", "uint8", 0, 5, 1, false}}},
	{157, "MountControl", true, 21, 15, 15, false, nil, []Field{{"InputA", "int32", 0, 0, 4, false}, {"InputB", "int32", 0, 4, 4, false}, {"InputC", "int32", 0, 8, 4, false}, {"TargetSystem", "uint8", 0, 12, 1, false}, {"TargetComponent", "uint8", 0, 13, 1, false}, {"SavePosition", "uint8", 0, 14, 1, false}}},
	{158, "MountStatus", true, 134, 14, 14, false, nil, []Field{{"PointingA", "int32", 0, 0, 4, false}, {"PointingB", "int32", 0, 4, 4, false}, {"PointingC", "int32", 0, 8, 4, false}, {"TargetSystem", "uint8", 0, 12, 1, false}, {"TargetComponent", "uint8", 0, 13, 1, false}}},
	{160, "FencePoint", true, 78, 12, 12, false, nil, []Field{{"Lat", "float32", 0, 0, 4, false}, {"Lng", "float32", 0, 4, 4, false}, {"TargetSystem", "uint8", 0, 8, 1, false}, {"TargetComponent", "uint8", 0, 9, 1, false}, {"IDx", "uint8", 0, 10, 1, false}, {"Count", "uint8", 0, 11, 1, false}}},
	{161, "FenceFetchPoint", true, 68, 3, 3, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"IDx", "uint8", 0, 2, 1, false}}},
	{162, "FenceStatus", false, 0, 8, 8, false, nil, []Field{{"BreachTime", "uint32", 0, 0, 4, false}, {"BreachCount", "uint16", 0, 4, 2, false}, {"BreachStatus", "uint8", 0, 6, 1, false}, {"BreachType", "uint8", 0, 7, 1, false}}},
	{163, "AHRS", true, 127, 28, 28, false, nil, []Field{{"Omegaix", "float32", 0, 0, 4, false}, {"Omegaiy", "float32", 0, 4, 4, false}, {"Omegaiz", "float32", 0, 8, 4, false}, {"AccelWeight", "float32", 0, 12, 4, false}, {"RenormVal", "float32", 0, 16, 4, false}, {"ErrorRp", "float32", 0, 20, 4, false}, {"ErrorYaw", "float32", 0, 24, 4, false}}},
	{164, "SimState", true, 154, 44, 44, false, nil, []Field{{"Roll", "float32", 0, 0, 4, false}, {"Pitch", "float32", 0, 4, 4, false}, {"Yaw", "float32", 0, 8, 4, false}, {"Xacc", "float32", 0, 12, 4, false}, {"Yacc", "float32", 0, 16, 4, false}, {"Zacc", "float32", 0, 20, 4, false}, {"Xgyro", "float32", 0, 24, 4, false}, {"Ygyro", "float32", 0, 28, 4, false}, {"Zgyro", "float32", 0, 32, 4, false}, {"Lat", "int32", 0, 36, 4, false}, {"Lng", "int32", 0, 40, 4, false}}},
	{165, "HWstatus", true, 21, 3, 3, false, nil, []Field{{"Vcc", "uint16", 0, 0, 2, false}, {"I2Cerr", "uint8", 0, 2, 1, false}}},
	{166, "Radio", true, 21, 9, 9, false, nil, []Field{{"Rxerrors", "uint16", 0, 0, 2, false}, {"Fixed", "uint16", 0, 2, 2, false}, {"RSSI", "uint8", 0, 4, 1, false}, {"RemRSSI", "uint8", 0, 5, 1, false}, {"Txbuf", "uint8", 0, 6, 1, false}, {"Noise", "uint8", 0, 7, 1, false}, {"Remnoise", "uint8", 0, 8, 1, false}}},
	{167, "LimitsStatus", true, 144, 22, 22, false, nil, []Field{{"LastTrigger", "uint32", 0, 0, 4, false}, {"LastAction", "uint32", 0, 4, 4, false}, {"LastRecovery", "uint32", 0, 8, 4, false}, {"LastClear", "uint32", 0, 12, 4, false}, {"BreachCount", "uint16", 0, 16, 2, false}, {"LimitsState", "uint8", 0, 18, 1, false}, {"ModsEnabled", "uint8", 0, 19, 1, false}, {"ModsRequired", "uint8", 0, 20, 1, false}, {"ModsTriggered", "uint8", 0, 21, 1, false}}},
	{168, "Wind", true, 1, 12, 12, false, nil, []Field{{"Direction", "float32", 0, 0, 4, false}, {"Speed", "float32", 0, 4, 4, false}, {"SpeedZ", "float32", 0, 8, 4, false}}},
	{169, "Data16", true, 234, 18, 18, false, nil, []Field{{"Type", "uint8", 0, 0, 1, false}, {"Len", "uint8", 0, 1, 1, false}, {"Data", "uint8", 16, 2, 1, false}}},
	{170, "Data32", true, 73, 34, 34, false, nil, []Field{{"Type", "uint8", 0, 0, 1, false}, {"Len", "uint8", 0, 1, 1, false}, {"Data", "uint8", 32, 2, 1, false}}},
	{171, "Data64", true, 181, 66, 66, false, nil, []Field{{"Type", "uint8", 0, 0, 1, false}, {"Len", "uint8", 0, 1, 1, false}, {"Data", "uint8", 64, 2, 1, false}}},
	{172, "Data96", true, 22, 98, 98, false, nil, []Field{{"Type", "uint8", 0, 0, 1, false}, {"Len", "uint8", 0, 1, 1, false}, {"Data", "uint8", 96, 2, 1, false}}},
	{173, "Rangefinder", true, 83, 8, 8, false, nil, []Field{{"Distance", "float32", 0, 0, 4, false}, {"Voltage", "float32", 0, 4, 4, false}}},
	{174, "AirspeedAutocal", true, 167, 48, 48, false, nil, []Field{{"Vx", "float32", 0, 0, 4, false}, {"Vy", "float32", 0, 4, 4, false}, {"Vz", "float32", 0, 8, 4, false}, {"DiffPressure", "float32", 0, 12, 4, false}, {"Eas2Tas", "float32", 0, 16, 4, false}, {"Ratio", "float32", 0, 20, 4, false}, {"StateX", "float32", 0, 24, 4, false}, {"StateY", "float32", 0, 28, 4, false}, {"StateZ", "float32", 0, 32, 4, false}, {"Pax", "float32", 0, 36, 4, false}, {"Pby", "float32", 0, 40, 4, false}, {"Pcz", "float32", 0, 44, 4, false}}},
	{175, "RallyPoint", true, 138, 19, 19, false, nil, []Field{{"Lat", "int32", 0, 0, 4, false}, {"Lng", "int32", 0, 4, 4, false}, {"Alt", "int16", 0, 8, 2, false}, {"BreakAlt", "int16", 0, 10, 2, false}, {"LandDir", "uint16", 0, 12, 2, false}, {"TargetSystem", "uint8", 0, 14, 1, false}, {"TargetComponent", "uint8", 0, 15, 1, false}, {"IDx", "uint8", 0, 16, 1, false}, {"Count", "uint8", 0, 17, 1, false}, {"Flags", "uint8", 0, 18, 1, false}}},
	{176, "RallyFetchPoint", true, 234, 3, 3, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"IDx", "uint8", 0, 2, 1, false}}},
	{177, "CompassmotStatus", true, 240, 20, 20, false, nil, []Field{{"Current", "float32", 0, 0, 4, false}, {"Compensationx", "float32", 0, 4, 4, false}, {"Compensationy", "float32", 0, 8, 4, false}, {"Compensationz", "float32", 0, 12, 4, false}, {"Throttle", "uint16", 0, 16, 2, false}, {"Interference", "uint16", 0, 18, 2, false}}},
	{178, "AHRS2", true, 47, 24, 24, false, nil, []Field{{"Roll", "float32", 0, 0, 4, false}, {"Pitch", "float32", 0, 4, 4, false}, {"Yaw", "float32", 0, 8, 4, false}, {"Altitude", "float32", 0, 12, 4, false}, {"Lat", "int32", 0, 16, 4, false}, {"Lng", "int32", 0, 20, 4, false}}},
	{179, "CameraStatus", true, 189, 29, 29, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"P1", "float32", 0, 8, 4, false}, {"P2", "float32", 0, 12, 4, false}, {"P3", "float32", 0, 16, 4, false}, {"P4", "float32", 0, 20, 4, false}, {"ImgIDx", "uint16", 0, 24, 2, false}, {"TargetSystem", "uint8", 0, 26, 1, false}, {"CamIDx", "uint8", 0, 27, 1, false}, {"EventID", "uint8", 0, 28, 1, false}}},
	{180, "CameraFeedback", true, 52, 45, 47, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Lat", "int32", 0, 8, 4, false}, {"Lng", "int32", 0, 12, 4, false}, {"AltMsl", "float32", 0, 16, 4, false}, {"AltRel", "float32", 0, 20, 4, false}, {"Roll", "float32", 0, 24, 4, false}, {"Pitch", "float32", 0, 28, 4, false}, {"Yaw", "float32", 0, 32, 4, false}, {"FocLen", "float32", 0, 36, 4, false}, {"ImgIDx", "uint16", 0, 40, 2, false}, {"TargetSystem", "uint8", 0, 42, 1, false}, {"CamIDx", "uint8", 0, 43, 1, false}, {"Flags", "uint8", 0, 44, 1, false}, {"CompletedCaptures", "uint16", 0, 45, 2, true}}},
	{181, "Battery2", true, 174, 4, 4, false, nil, []Field{{"Voltage", "uint16", 0, 0, 2, false}, {"CurrentBattery", "int16", 0, 2, 2, false}}},
	{182, "AHRS3", true, 229, 40, 40, false, nil, []Field{{"Roll", "float32", 0, 0, 4, false}, {"Pitch", "float32", 0, 4, 4, false}, {"Yaw", "float32", 0, 8, 4, false}, {"Altitude", "float32", 0, 12, 4, false}, {"Lat", "int32", 0, 16, 4, false}, {"Lng", "int32", 0, 20, 4, false}, {"V1", "float32", 0, 24, 4, false}, {"V2", "float32", 0, 28, 4, false}, {"V3", "float32", 0, 32, 4, false}, {"V4", "float32", 0, 36, 4, false}}},
	{183, "AutopilotVersionRequest", true, 85, 2, 2, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}}},
	{184, "RemoteLogDataBlock", true, 159, 206, 206, false, nil, []Field{{"Seqno", "uint32", 0, 0, 4, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}, {"Data", "uint8", 200, 6, 1, false}}},
	{185, "RemoteLogBlockStatus", true, 186, 7, 7, false, nil, []Field{{"Seqno", "uint32", 0, 0, 4, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}, {"Status", "uint8", 0, 6, 1, false}}},
	{186, "LedControl", true, 72, 29, 29, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"Instance", "uint8", 0, 2, 1, false}, {"Pattern", "uint8", 0, 3, 1, false}, {"CustomLen", "uint8", 0, 4, 1, false}, {"CustomBytes", "uint8", 24, 5, 1, false}}},
	{191, "MagCalProgress", true, 92, 27, 27, false, nil, []Field{{"DirectionX", "float32", 0, 0, 4, false}, {"DirectionY", "float32", 0, 4, 4, false}, {"DirectionZ", "float32", 0, 8, 4, false}, {"CompassID", "uint8", 0, 12, 1, false}, {"CalMask", "uint8", 0, 13, 1, false}, {"CalStatus", "uint8", 0, 14, 1, false}, {"Attempt", "uint8", 0, 15, 1, false}, {"CompletionPct", "uint8", 0, 16, 1, false}, {"CompletionMask", "uint8", 10, 17, 1, false}}},
	{192, "MagCalReport", true, 36, 44, 54, false, nil, []Field{{"Fitness", "float32", 0, 0, 4, false}, {"OfsX", "float32", 0, 4, 4, false}, {"OfsY", "float32", 0, 8, 4, false}, {"OfsZ", "float32", 0, 12, 4, false}, {"DiagX", "float32", 0, 16, 4, false}, {"DiagY", "float32", 0, 20, 4, false}, {"DiagZ", "float32", 0, 24, 4, false}, {"OffdiagX", "float32", 0, 28, 4, false}, {"OffdiagY", "float32", 0, 32, 4, false}, {"OffdiagZ", "float32", 0, 36, 4, false}, {"CompassID", "uint8", 0, 40, 1, false}, {"CalMask", "uint8", 0, 41, 1, false}, {"CalStatus", "uint8", 0, 42, 1, false}, {"Autosaved", "uint8", 0, 43, 1, false}, {"OrientationConfIDence", "float32", 0, 44, 4, true}, {"OldOrientation", "uint8", 0, 48, 1, true}, {"NewOrientation", "uint8", 0, 49, 1, true}, {"ScaleFactor", "float32", 0, 50, 4, true}}},
	{193, "EKFStatusReport", true, 71, 22, 26, false, nil, []Field{{"VelocityVariance", "float32", 0, 0, 4, false}, {"PosHorizVariance", "float32", 0, 4, 4, false}, {"PosVertVariance", "float32", 0, 8, 4, false}, {"CompassVariance", "float32", 0, 12, 4, false}, {"TerrainAltVariance", "float32", 0, 16, 4, false}, {"Flags", "uint16", 0, 20, 2, false}, {"AirspeedVariance", "float32", 0, 22, 4, true}}},
	{194, "PIDTuning", true, 98, 25, 25, false, nil, []Field{{"Desired", "float32", 0, 0, 4, false}, {"Achieved", "float32", 0, 4, 4, false}, {"Ff", "float32", 0, 8, 4, false}, {"P", "float32", 0, 12, 4, false}, {"I", "float32", 0, 16, 4, false}, {"D", "float32", 0, 20, 4, false}, {"Axis", "uint8", 0, 24, 1, false}}},
	{195, "Deepstall", true, 120, 37, 37, false, nil, []Field{{"LandingLat", "int32", 0, 0, 4, false}, {"LandingLon", "int32", 0, 4, 4, false}, {"PathLat", "int32", 0, 8, 4, false}, {"PathLon", "int32", 0, 12, 4, false}, {"ARCEntryLat", "int32", 0, 16, 4, false}, {"ARCEntryLon", "int32", 0, 20, 4, false}, {"Altitude", "float32", 0, 24, 4, false}, {"ExpectedTravelDistance", "float32", 0, 28, 4, false}, {"CrossTrackError", "float32", 0, 32, 4, false}, {"Stage", "uint8", 0, 36, 1, false}}},
	{200, "GimbalReport", true, 134, 42, 42, false, nil, []Field{{"DeltaTime", "float32", 0, 0, 4, false}, {"DeltaAngleX", "float32", 0, 4, 4, false}, {"DeltaAngleY", "float32", 0, 8, 4, false}, {"DeltaAngleZ", "float32", 0, 12, 4, false}, {"DeltaVelocityX", "float32", 0, 16, 4, false}, {"DeltaVelocityY", "float32", 0, 20, 4, false}, {"DeltaVelocityZ", "float32", 0, 24, 4, false}, {"JointRoll", "float32", 0, 28, 4, false}, {"JointEl", "float32", 0, 32, 4, false}, {"JointAz", "float32", 0, 36, 4, false}, {"TargetSystem", "uint8", 0, 40, 1, false}, {"TargetComponent", "uint8", 0, 41, 1, false}}},
	{201, "GimbalControl", true, 205, 14, 14, false, nil, []Field{{"DemandedRateX", "float32", 0, 0, 4, false}, {"DemandedRateY", "float32", 0, 4, 4, false}, {"DemandedRateZ", "float32", 0, 8, 4, false}, {"TargetSystem", "uint8", 0, 12, 1, false}, {"TargetComponent", "uint8", 0, 13, 1, false}}},
	{214, "GimbalTorqueCmdReport", true, 69, 8, 8, false, nil, []Field{{"RlTorqueCmd", "int16", 0, 0, 2, false}, {"ElTorqueCmd", "int16", 0, 2, 2, false}, {"AzTorqueCmd", "int16", 0, 4, 2, false}, {"TargetSystem", "uint8", 0, 6, 1, false}, {"TargetComponent", "uint8", 0, 7, 1, false}}},
	{215, "GoproHeartbeat", true, 101, 3, 3, false, nil, []Field{{"Status", "uint8", 0, 0, 1, false}, {"CaptureMode", "uint8", 0, 1, 1, false}, {"Flags", "uint8", 0, 2, 1, false}}},
	{216, "GoproGetRequest", true, 50, 3, 3, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"CmdID", "uint8", 0, 2, 1, false}}},
	{217, "GoproGetResponse", true, 202, 6, 6, false, nil, []Field{{"CmdID", "uint8", 0, 0, 1, false}, {"Status", "uint8", 0, 1, 1, false}, {"Value", "uint8", 4, 2, 1, false}}},
	{218, "GoproSetRequest", true, 17, 7, 7, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"CmdID", "uint8", 0, 2, 1, false}, {"Value", "uint8", 4, 3, 1, false}}},
	{219, "GoproSetResponse", true, 162, 2, 2, false, nil, []Field{{"CmdID", "uint8", 0, 0, 1, false}, {"Status", "uint8", 0, 1, 1, false}}},
	{225, "EfiStatus", true, 142, 53, 53, false, nil, []Field{{"EcuIndex", "float32", 0, 0, 4, false}, {"Rpm", "float32", 0, 4, 4, false}, {"FuelConsumed", "float32", 0, 8, 4, false}, {"FuelFlow", "float32", 0, 12, 4, false}, {"EngineLoad", "float32", 0, 16, 4, false}, {"ThrottlePosition", "float32", 0, 20, 4, false}, {"SparkDwellTime", "float32", 0, 24, 4, false}, {"BarometricPressure", "float32", 0, 28, 4, false}, {"IntakeManifoldPressure", "float32", 0, 32, 4, false}, {"IntakeManifoldTemperature", "float32", 0, 36, 4, false}, {"CylinderHeadTemperature", "float32", 0, 40, 4, false}, {"IgnitionTiming", "float32", 0, 44, 4, false}, {"InjectionTime", "float32", 0, 48, 4, false}, {"Health", "uint8", 0, 52, 1, false}}},
	{226, "Rpm", true, 207, 8, 8, false, nil, []Field{{"Rpm1", "float32", 0, 0, 4, false}, {"Rpm2", "float32", 0, 4, 4, false}}},
	{11000, "DeviceOpRead", true, 134, 51, 51, false, []string{"Busname"}, []Field{{"RequestID", "uint32", 0, 0, 4, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}, {"Bustype", "uint8", 0, 6, 1, false}, {"Bus", "uint8", 0, 7, 1, false}, {"Address", "uint8", 0, 8, 1, false}, {"Busname", "byte", 40, 9, 1, false}, {"Regstart", "uint8", 0, 49, 1, false}, {"Count", "uint8", 0, 50, 1, false}}},
	{11001, "DeviceOpReadReply", true, 15, 135, 135, false, nil, []Field{{"RequestID", "uint32", 0, 0, 4, false}, {"Result", "uint8", 0, 4, 1, false}, {"Regstart", "uint8", 0, 5, 1, false}, {"Count", "uint8", 0, 6, 1, false}, {"Data", "uint8", 128, 7, 1, false}}},
	{11002, "DeviceOpWrite", true, 234, 179, 179, false, []string{"Busname"}, []Field{{"RequestID", "uint32", 0, 0, 4, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}, {"Bustype", "uint8", 0, 6, 1, false}, {"Bus", "uint8", 0, 7, 1, false}, {"Address", "uint8", 0, 8, 1, false}, {"Busname", "byte", 40, 9, 1, false}, {"Regstart", "uint8", 0, 49, 1, false}, {"Count", "uint8", 0, 50, 1, false}, {"Data", "uint8", 128, 51, 1, false}}},
	{11003, "DeviceOpWriteReply", true, 64, 5, 5, false, nil, []Field{{"RequestID", "uint32", 0, 0, 4, false}, {"Result", "uint8", 0, 4, 1, false}}},
	{11010, "AdapTuning", true, 46, 49, 49, false, nil, []Field{{"Desired", "float32", 0, 0, 4, false}, {"Achieved", "float32", 0, 4, 4, false}, {"Error", "float32", 0, 8, 4, false}, {"Theta", "float32", 0, 12, 4, false}, {"Omega", "float32", 0, 16, 4, false}, {"Sigma", "float32", 0, 20, 4, false}, {"ThetaDot", "float32", 0, 24, 4, false}, {"OmegaDot", "float32", 0, 28, 4, false}, {"SigmaDot", "float32", 0, 32, 4, false}, {"F", "float32", 0, 36, 4, false}, {"FDot", "float32", 0, 40, 4, false}, {"U", "float32", 0, 44, 4, false}, {"Axis", "uint8", 0, 48, 1, false}}},
	{11011, "VisionPositionDelta", true, 106, 44, 44, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"TimeDeltaUsec", "uint64", 0, 8, 8, false}, {"AngleDelta", "float32", 3, 16, 4, false}, {"PositionDelta", "float32", 3, 28, 4, false}, {"ConfIDence", "float32", 0, 40, 4, false}}},
	{11020, "AoaSsa", true, 205, 16, 16, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Aoa", "float32", 0, 8, 4, false}, {"Ssa", "float32", 0, 12, 4, false}}},
	{11030, "EscTelemetry1To4", true, 144, 44, 44, false, nil, []Field{{"Voltage", "uint16", 4, 0, 2, false}, {"Current", "uint16", 4, 8, 2, false}, {"Totalcurrent", "uint16", 4, 16, 2, false}, {"Rpm", "uint16", 4, 24, 2, false}, {"Count", "uint16", 4, 32, 2, false}, {"Temperature", "uint8", 4, 40, 1, false}}},
	{11031, "EscTelemetry5To8", true, 133, 44, 44, false, nil, []Field{{"Voltage", "uint16", 4, 0, 2, false}, {"Current", "uint16", 4, 8, 2, false}, {"Totalcurrent", "uint16", 4, 16, 2, false}, {"Rpm", "uint16", 4, 24, 2, false}, {"Count", "uint16", 4, 32, 2, false}, {"Temperature", "uint8", 4, 40, 1, false}}},
	{11032, "EscTelemetry9To12", true, 85, 44, 44, false, nil, []Field{{"Voltage", "uint16", 4, 0, 2, false}, {"Current", "uint16", 4, 8, 2, false}, {"Totalcurrent", "uint16", 4, 16, 2, false}, {"Rpm", "uint16", 4, 24, 2, false}, {"Count", "uint16", 4, 32, 2, false}, {"Temperature", "uint8", 4, 40, 1, false}}},
}

var d_asluav = []Msg{
	{78, "CommandIntStamped", true, 119, 47, 47, false, nil, []Field{{"VehicleTimestamp", "uint64", 0, 0, 8, false}, {"UtcTime", "uint32", 0, 8, 4, false}, {"Param1", "float32", 0, 12, 4, false}, {"Param2", "float32", 0, 16, 4, false}, {"Param3", "float32", 0, 20, 4, false}, {"Param4", "float32", 0, 24, 4, false}, {"X", "int32", 0, 28, 4, false}, {"Y", "int32", 0, 32, 4, false}, {"Z", "float32", 0, 36, 4, false}, {"Command", "uint16", 0, 40, 2, false}, {"TargetSystem", "uint8", 0, 42, 1, false}, {"TargetComponent", "uint8", 0, 43, 1, false}, {"Frame", "uint8", 0, 44, 1, false}, {"Current", "uint8", 0, 45, 1, false}, {"Autocontinue", "uint8", 0, 46, 1, false}}},
	{79, "CommandLongStamped", true, 102, 45, 45, false, nil, []Field{{"VehicleTimestamp", "uint64", 0, 0, 8, false}, {"UtcTime", "uint32", 0, 8, 4, false}, {"Param1", "float32", 0, 12, 4, false}, {"Param2", "float32", 0, 16, 4, false}, {"Param3", "float32", 0, 20, 4, false}, {"Param4", "float32", 0, 24, 4, false}, {"Param5", "float32", 0, 28, 4, false}, {"Param6", "float32", 0, 32, 4, false}, {"Param7", "float32", 0, 36, 4, false}, {"Command", "uint16", 0, 40, 2, false}, {"TargetSystem", "uint8", 0, 42, 1, false}, {"TargetComponent", "uint8", 0, 43, 1, false}, {"Confirmation", "uint8", 0, 44, 1, false}}},
	{201, "SensPower", true, 218, 16, 16, false, nil, []Field{{"Adc121VspbVolt", "float32", 0, 0, 4, false}, {"Adc121CspbAmp", "float32", 0, 4, 4, false}, {"Adc121Cs1Amp", "float32", 0, 8, 4, false}, {"Adc121Cs2Amp", "float32", 0, 12, 4, false}}},
	{202, "SensMppt", true, 231, 41, 41, false, nil, []Field{{"MpptTimestamp", "uint64", 0, 0, 8, false}, {"Mppt1Volt", "float32", 0, 8, 4, false}, {"Mppt1Amp", "float32", 0, 12, 4, false}, {"Mppt2Volt", "float32", 0, 16, 4, false}, {"Mppt2Amp", "float32", 0, 20, 4, false}, {"Mppt3Volt", "float32", 0, 24, 4, false}, {"Mppt3Amp", "float32", 0, 28, 4, false}, {"Mppt1Pwm", "uint16", 0, 32, 2, false}, {"Mppt2Pwm", "uint16", 0, 34, 2, false}, {"Mppt3Pwm", "uint16", 0, 36, 2, false}, {"Mppt1Status", "uint8", 0, 38, 1, false}, {"Mppt2Status", "uint8", 0, 39, 1, false}, {"Mppt3Status", "uint8", 0, 40, 1, false}}},
	{203, "AslctrlData", true, 172, 98, 98, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"H", "float32", 0, 8, 4, false}, {"Href", "float32", 0, 12, 4, false}, {"HrefT", "float32", 0, 16, 4, false}, {"Pitchangle", "float32", 0, 20, 4, false}, {"Pitchangleref", "float32", 0, 24, 4, false}, {"Q", "float32", 0, 28, 4, false}, {"Qref", "float32", 0, 32, 4, false}, {"Uelev", "float32", 0, 36, 4, false}, {"Uthrot", "float32", 0, 40, 4, false}, {"Uthrot2", "float32", 0, 44, 4, false}, {"Nz", "float32", 0, 48, 4, false}, {"Airspeedref", "float32", 0, 52, 4, false}, {"Yawangle", "float32", 0, 56, 4, false}, {"Yawangleref", "float32", 0, 60, 4, false}, {"Rollangle", "float32", 0, 64, 4, false}, {"Rollangleref", "float32", 0, 68, 4, false}, {"P", "float32", 0, 72, 4, false}, {"Pref", "float32", 0, 76, 4, false}, {"R", "float32", 0, 80, 4, false}, {"Rref", "float32", 0, 84, 4, false}, {"Uail", "float32", 0, 88, 4, false}, {"Urud", "float32", 0, 92, 4, false}, {"AslctrlMode", "uint8", 0, 96, 1, false}, {"Spoilersengaged", "uint8", 0, 97, 1, false}}},
	{204, "AslctrlDebug", true, 251, 38, 38, false, nil, []Field{{"I321", "uint32", 0, 0, 4, false}, {"F1", "float32", 0, 4, 4, false}, {"F2", "float32", 0, 8, 4, false}, {"F3", "float32", 0, 12, 4, false}, {"F4", "float32", 0, 16, 4, false}, {"F5", "float32", 0, 20, 4, false}, {"F6", "float32", 0, 24, 4, false}, {"F7", "float32", 0, 28, 4, false}, {"F8", "float32", 0, 32, 4, false}, {"I81", "uint8", 0, 36, 1, false}, {"I82", "uint8", 0, 37, 1, false}}},
	{205, "AsluavStatus", true, 97, 14, 14, false, nil, []Field{{"MotorRpm", "float32", 0, 0, 4, false}, {"LedStatus", "uint8", 0, 4, 1, false}, {"SatcomStatus", "uint8", 0, 5, 1, false}, {"ServoStatus", "uint8", 8, 6, 1, false}}},
	{206, "EKFExt", true, 64, 32, 32, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"Windspeed", "float32", 0, 8, 4, false}, {"Winddir", "float32", 0, 12, 4, false}, {"Windz", "float32", 0, 16, 4, false}, {"Airspeed", "float32", 0, 20, 4, false}, {"Beta", "float32", 0, 24, 4, false}, {"Alpha", "float32", 0, 28, 4, false}}},
	{207, "AslObctrl", true, 234, 33, 33, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"Uelev", "float32", 0, 8, 4, false}, {"Uthrot", "float32", 0, 12, 4, false}, {"Uthrot2", "float32", 0, 16, 4, false}, {"Uaill", "float32", 0, 20, 4, false}, {"Uailr", "float32", 0, 24, 4, false}, {"Urud", "float32", 0, 28, 4, false}, {"ObctrlStatus", "uint8", 0, 32, 1, false}}},
	{208, "SensAtmos", true, 144, 16, 16, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"Tempambient", "float32", 0, 8, 4, false}, {"HumIDity", "float32", 0, 12, 4, false}}},
	{209, "SensBatmon", true, 155, 41, 41, false, nil, []Field{{"BatmonTimestamp", "uint64", 0, 0, 8, false}, {"Temperature", "float32", 0, 8, 4, false}, {"Safetystatus", "uint32", 0, 12, 4, false}, {"Operationstatus", "uint32", 0, 16, 4, false}, {"Voltage", "uint16", 0, 20, 2, false}, {"Current", "int16", 0, 22, 2, false}, {"Batterystatus", "uint16", 0, 24, 2, false}, {"Serialnumber", "uint16", 0, 26, 2, false}, {"Cellvoltage1", "uint16", 0, 28, 2, false}, {"Cellvoltage2", "uint16", 0, 30, 2, false}, {"Cellvoltage3", "uint16", 0, 32, 2, false}, {"Cellvoltage4", "uint16", 0, 34, 2, false}, {"Cellvoltage5", "uint16", 0, 36, 2, false}, {"Cellvoltage6", "uint16", 0, 38, 2, false}, {"Soc", "uint8", 0, 40, 1, false}}},
	{210, "FwSoaringData", true, 20, 102, 102, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"Timestampmodechanged", "uint64", 0, 8, 8, false}, {"Xw", "float32", 0, 16, 4, false}, {"Xr", "float32", 0, 20, 4, false}, {"Xlat", "float32", 0, 24, 4, false}, {"Xlon", "float32", 0, 28, 4, false}, {"Varw", "float32", 0, 32, 4, false}, {"Varr", "float32", 0, 36, 4, false}, {"Varlat", "float32", 0, 40, 4, false}, {"Varlon", "float32", 0, 44, 4, false}, {"Loiterradius", "float32", 0, 48, 4, false}, {"Loiterdirection", "float32", 0, 52, 4, false}, {"Disttosoarpoint", "float32", 0, 56, 4, false}, {"Vsinkexp", "float32", 0, 60, 4, false}, {"Z1Localupdraftspeed", "float32", 0, 64, 4, false}, {"Z2Deltaroll", "float32", 0, 68, 4, false}, {"Z1Exp", "float32", 0, 72, 4, false}, {"Z2Exp", "float32", 0, 76, 4, false}, {"Thermalgsnorth", "float32", 0, 80, 4, false}, {"Thermalgseast", "float32", 0, 84, 4, false}, {"TseDot", "float32", 0, 88, 4, false}, {"Debugvar1", "float32", 0, 92, 4, false}, {"Debugvar2", "float32", 0, 96, 4, false}, {"Controlmode", "uint8", 0, 100, 1, false}, {"ValID", "uint8", 0, 101, 1, false}}},
	{211, "SensorpodStatus", true, 54, 16, 16, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"FreeSpace", "uint16", 0, 8, 2, false}, {"VisensorRate1", "uint8", 0, 10, 1, false}, {"VisensorRate2", "uint8", 0, 11, 1, false}, {"VisensorRate3", "uint8", 0, 12, 1, false}, {"VisensorRate4", "uint8", 0, 13, 1, false}, {"RecordingNodesCount", "uint8", 0, 14, 1, false}, {"CpuTemp", "uint8", 0, 15, 1, false}}},
	{212, "SensPowerBoard", true, 222, 46, 46, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"PwrBrdSystemVolt", "float32", 0, 8, 4, false}, {"PwrBrdServoVolt", "float32", 0, 12, 4, false}, {"PwrBrdDigitalVolt", "float32", 0, 16, 4, false}, {"PwrBrdMotLAmp", "float32", 0, 20, 4, false}, {"PwrBrdMotRAmp", "float32", 0, 24, 4, false}, {"PwrBrdAnalogAmp", "float32", 0, 28, 4, false}, {"PwrBrdDigitalAmp", "float32", 0, 32, 4, false}, {"PwrBrdExtAmp", "float32", 0, 36, 4, false}, {"PwrBrdAuxAmp", "float32", 0, 40, 4, false}, {"PwrBrdStatus", "uint8", 0, 44, 1, false}, {"PwrBrdLedStatus", "uint8", 0, 45, 1, false}}},
	{213, "GsmLinkStatus", true, 200, 14, 14, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"GsmModemType", "uint8", 0, 8, 1, false}, {"GsmLinkType", "uint8", 0, 9, 1, false}, {"RSSI", "uint8", 0, 10, 1, false}, {"RsrpRscp", "uint8", 0, 11, 1, false}, {"SinrEcio", "uint8", 0, 12, 1, false}, {"Rsrq", "uint8", 0, 13, 1, false}}},
	{214, "SatcomLinkStatus", false, 0, 24, 24, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"LastHeartbeat", "uint64", 0, 8, 8, false}, {"FailedSessions", "uint16", 0, 16, 2, false}, {"SuccessfulSessions", "uint16", 0, 18, 2, false}, {"SignalQuality", "uint8", 0, 20, 1, false}, {"RingPending", "uint8", 0, 21, 1, false}, {"TxSessionPending", "uint8", 0, 22, 1, false}, {"RxSessionPending", "uint8", 0, 23, 1, false}}},
}

var d_autoquad = []Msg{
	{150, "AqTelemetryF", true, 241, 82, 82, false, nil, []Field{{"Value1", "float32", 0, 0, 4, false}, {"Value2", "float32", 0, 4, 4, false}, {"Value3", "float32", 0, 8, 4, false}, {"Value4", "float32", 0, 12, 4, false}, {"Value5", "float32", 0, 16, 4, false}, {"Value6", "float32", 0, 20, 4, false}, {"Value7", "float32", 0, 24, 4, false}, {"Value8", "float32", 0, 28, 4, false}, {"Value9", "float32", 0, 32, 4, false}, {"Value10", "float32", 0, 36, 4, false}, {"Value11", "float32", 0, 40, 4, false}, {"Value12", "float32", 0, 44, 4, false}, {"Value13", "float32", 0, 48, 4, false}, {"Value14", "float32", 0, 52, 4, false}, {"Value15", "float32", 0, 56, 4, false}, {"Value16", "float32", 0, 60, 4, false}, {"Value17", "float32", 0, 64, 4, false}, {"Value18", "float32", 0, 68, 4, false}, {"Value19", "float32", 0, 72, 4, false}, {"Value20", "float32", 0, 76, 4, false}, {"Index", "uint16", 0, 80, 2, false}}},
	{152, "AqEscTelemetry", true, 115, 55, 55, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Data0", "uint32", 4, 4, 4, false}, {"Data1", "uint32", 4, 20, 4, false}, {"StatusAge", "uint16", 4, 36, 2, false}, {"Seq", "uint8", 0, 44, 1, false}, {"NumMotors", "uint8", 0, 45, 1, false}, {"NumInSeq", "uint8", 0, 46, 1, false}, {"EscID", "uint8", 4, 47, 1, false}, {"DataVersion", "uint8", 4, 51, 1, false}}},
}

var d_common = []Msg{
	{0, "Heartbeat", true, 50, 9, 9, false, nil, []Field{{"CustomMode", "uint32", 0, 0, 4, false}, {"Type", "uint8", 0, 4, 1, false}, {"Autopilot", "uint8", 0, 5, 1, false}, {"BaseMode", "uint8", 0, 6, 1, false}, {"SystemStatus", "uint8", 0, 7, 1, false}, {"MavlinkVersion", "uint8", 0, 8, 1, false}}},
	{1, "SysStatus", true, 124, 31, 31, false, nil, []Field{{"OnboardControlSensorsPresent", "uint32", 0, 0, 4, false}, {"OnboardControlSensorsEnabled", "uint32", 0, 4, 4, false}, {"OnboardControlSensorsHealth", "uint32", 0, 8, 4, false}, {"Load", "uint16", 0, 12, 2, false}, {"VoltageBattery", "uint16", 0, 14, 2, false}, {"CurrentBattery", "int16", 0, 16, 2, false}, {"DropRateComm", "uint16", 0, 18, 2, false}, {"ErrorsComm", "uint16", 0, 20, 2, false}, {"ErrorsCount1", "uint16", 0, 22, 2, false}, {"ErrorsCount2", "uint16", 0, 24, 2, false}, {"ErrorsCount3", "uint16", 0, 26, 2, false}, {"ErrorsCount4", "uint16", 0, 28, 2, false}, {"BatteryRemaining", "int8", 0, 30, 1, false}}},
	{2, "SystemTime", true, 137, 12, 12, false, nil, []Field{{"TimeUnixUsec", "uint64", 0, 0, 8, false}, {"TimeBootMs", "uint32", 0, 8, 4, false}}},
	{4, "Ping", true, 237, 14, 14, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Seq", "uint32", 0, 8, 4, false}, {"TargetSystem", "uint8", 0, 12, 1, false}, {"TargetComponent", "uint8", 0, 13, 1, false}}},
	{5, "ChangeOperatorControl", true, 217, 28, 28, false, []string{"Passkey"}, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"ControlRequest", "uint8", 0, 1, 1, false}, {"Version", "uint8", 0, 2, 1, false}, {"Passkey", "byte", 25, 3, 1, false}}},
	{6, "ChangeOperatorControlAck", true, 104, 3, 3, false, nil, []Field{{"GcsSystemID", "uint8", 0, 0, 1, false}, {"ControlRequest", "uint8", 0, 1, 1, false}, {"Ack", "uint8", 0, 2, 1, false}}},
	{7, "AuthKey", true, 119, 32, 32, false, []string{"Key"}, []Field{{"Key", "byte", 32, 0, 1, false}}},
	{8, "LinkNodeStatus", true, 117, 36, 36, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"TxRate", "uint32", 0, 8, 4, false}, {"RxRate", "uint32", 0, 12, 4, false}, {"MessagesSent", "uint32", 0, 16, 4, false}, {"MessagesReceived", "uint32", 0, 20, 4, false}, {"MessagesLost", "uint32", 0, 24, 4, false}, {"RxParseErr", "uint16", 0, 28, 2, false}, {"TxOverflows", "uint16", 0, 30, 2, false}, {"RxOverflows", "uint16", 0, 32, 2, false}, {"TxBuf", "uint8", 0, 34, 1, false}, {"RxBuf", "uint8", 0, 35, 1, false}}},
	{11, "SetMode", true, 89, 6, 6, false, nil, []Field{{"CustomMode", "uint32", 0, 0, 4, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"BaseMode", "uint8", 0, 5, 1, false}}},
	{20, "ParamRequestRead", true, 214, 20, 20, false, []string{"ParamID"}, []Field{{"ParamIndex", "int16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"ParamID", "byte", 16, 4, 1, false}}},
	{21, "ParamRequestList", true, 159, 2, 2, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}}},
	{22, "ParamValue", true, 220, 25, 25, false, []string{"ParamID"}, []Field{{"ParamValue", "float32", 0, 0, 4, false}, {"ParamCount", "uint16", 0, 4, 2, false}, {"ParamIndex", "uint16", 0, 6, 2, false}, {"ParamID", "byte", 16, 8, 1, false}, {"ParamType", "uint8", 0, 24, 1, false}}},
	{23, "ParamSet", true, 168, 23, 23, false, []string{"ParamID"}, []Field{{"ParamValue", "float32", 0, 0, 4, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}, {"ParamID", "byte", 16, 6, 1, false}, {"ParamType", "uint8", 0, 22, 1, false}}},
	{24, "GPSRawInt", true, 24, 30, 50, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Lat", "int32", 0, 8, 4, false}, {"Lon", "int32", 0, 12, 4, false}, {"Alt", "int32", 0, 16, 4, false}, {"Eph", "uint16", 0, 20, 2, false}, {"Epv", "uint16", 0, 22, 2, false}, {"Vel", "uint16", 0, 24, 2, false}, {"Cog", "uint16", 0, 26, 2, false}, {"FixType", "uint8", 0, 28, 1, false}, {"SatellitesVisible", "uint8", 0, 29, 1, false}, {"AltEllipsoID", "int32", 0, 30, 4, true}, {"HAcc", "uint32", 0, 34, 4, true}, {"VAcc", "uint32", 0, 38, 4, true}, {"VelAcc", "uint32", 0, 42, 4, true}, {"HdgAcc", "uint32", 0, 46, 4, true}}},
	{25, "GPSStatus", true, 23, 101, 101, false, nil, []Field{{"SatellitesVisible", "uint8", 0, 0, 1, false}, {"SatellitePrn", "uint8", 20, 1, 1, false}, {"SatelliteUsed", "uint8", 20, 21, 1, false}, {"SatelliteElevation", "uint8", 20, 41, 1, false}, {"SatelliteAzIMUth", "uint8", 20, 61, 1, false}, {"SatelliteSnr", "uint8", 20, 81, 1, false}}},
	{26, "ScaledIMU", true, 170, 22, 24, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Xacc", "int16", 0, 4, 2, false}, {"Yacc", "int16", 0, 6, 2, false}, {"Zacc", "int16", 0, 8, 2, false}, {"Xgyro", "int16", 0, 10, 2, false}, {"Ygyro", "int16", 0, 12, 2, false}, {"Zgyro", "int16", 0, 14, 2, false}, {"Xmag", "int16", 0, 16, 2, false}, {"Ymag", "int16", 0, 18, 2, false}, {"Zmag", "int16", 0, 20, 2, false}, {"Temperature", "int16", 0, 22, 2, true}}},
	{27, "RawIMU", true, 144, 26, 29, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Xacc", "int16", 0, 8, 2, false}, {"Yacc", "int16", 0, 10, 2, false}, {"Zacc", "int16", 0, 12, 2, false}, {"Xgyro", "int16", 0, 14, 2, false}, {"Ygyro", "int16", 0, 16, 2, false}, {"Zgyro", "int16", 0, 18, 2, false}, {"Xmag", "int16", 0, 20, 2, false}, {"Ymag", "int16", 0, 22, 2, false}, {"Zmag", "int16", 0, 24, 2, false}, {"ID", "uint8", 0, 26, 1, true}, {"Temperature", "int16", 0, 27, 2, true}}},
	{28, "RawPressure", true, 67, 16, 16, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"PressAbs", "int16", 0, 8, 2, false}, {"PressDiff1", "int16", 0, 10, 2, false}, {"PressDiff2", "int16", 0, 12, 2, false}, {"Temperature", "int16", 0, 14, 2, false}}},
	{29, "ScaledPressure", true, 115, 14, 14, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"PressAbs", "float32", 0, 4, 4, false}, {"PressDiff", "float32", 0, 8, 4, false}, {"Temperature", "int16", 0, 12, 2, false}}},
	{30, "Attitude", true, 39, 28, 28, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Roll", "float32", 0, 4, 4, false}, {"Pitch", "float32", 0, 8, 4, false}, {"Yaw", "float32", 0, 12, 4, false}, {"Rollspeed", "float32", 0, 16, 4, false}, {"Pitchspeed", "float32", 0, 20, 4, false}, {"Yawspeed", "float32", 0, 24, 4, false}}},
	{31, "AttitudeQuaternion", true, 246, 32, 48, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Q1", "float32", 0, 4, 4, false}, {"Q2", "float32", 0, 8, 4, false}, {"Q3", "float32", 0, 12, 4, false}, {"Q4", "float32", 0, 16, 4, false}, {"Rollspeed", "float32", 0, 20, 4, false}, {"Pitchspeed", "float32", 0, 24, 4, false}, {"Yawspeed", "float32", 0, 28, 4, false}, {"ReprOffsetQ", "float32", 4, 32, 4, true}}},
	{32, "LocalPositionNed", true, 185, 28, 28, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"X", "float32", 0, 4, 4, false}, {"Y", "float32", 0, 8, 4, false}, {"Z", "float32", 0, 12, 4, false}, {"Vx", "float32", 0, 16, 4, false}, {"Vy", "float32", 0, 20, 4, false}, {"Vz", "float32", 0, 24, 4, false}}},
	{33, "GlobalPositionInt", true, 104, 28, 28, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Lat", "int32", 0, 4, 4, false}, {"Lon", "int32", 0, 8, 4, false}, {"Alt", "int32", 0, 12, 4, false}, {"RelativeAlt", "int32", 0, 16, 4, false}, {"Vx", "int16", 0, 20, 2, false}, {"Vy", "int16", 0, 22, 2, false}, {"Vz", "int16", 0, 24, 2, false}, {"Hdg", "uint16", 0, 26, 2, false}}},
	{34, "RCChannelsScaled", true, 237, 22, 22, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Chan1Scaled", "int16", 0, 4, 2, false}, {"Chan2Scaled", "int16", 0, 6, 2, false}, {"Chan3Scaled", "int16", 0, 8, 2, false}, {"Chan4Scaled", "int16", 0, 10, 2, false}, {"Chan5Scaled", "int16", 0, 12, 2, false}, {"Chan6Scaled", "int16", 0, 14, 2, false}, {"Chan7Scaled", "int16", 0, 16, 2, false}, {"Chan8Scaled", "int16", 0, 18, 2, false}, {"Port", "uint8", 0, 20, 1, false}, {"RSSI", "uint8", 0, 21, 1, false}}},
	{35, "RCChannelsRaw", true, 244, 22, 22, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Chan1Raw", "uint16", 0, 4, 2, false}, {"Chan2Raw", "uint16", 0, 6, 2, false}, {"Chan3Raw", "uint16", 0, 8, 2, false}, {"Chan4Raw", "uint16", 0, 10, 2, false}, {"Chan5Raw", "uint16", 0, 12, 2, false}, {"Chan6Raw", "uint16", 0, 14, 2, false}, {"Chan7Raw", "uint16", 0, 16, 2, false}, {"Chan8Raw", "uint16", 0, 18, 2, false}, {"Port", "uint8", 0, 20, 1, false}, {"RSSI", "uint8", 0, 21, 1, false}}},
	{36, "ServoOutputRaw", true, 222, 21, 37, false, nil, []Field{{"TimeUsec", "uint32", 0, 0, 4, false}, {"Servo1Raw", "uint16", 0, 4, 2, false}, {"Servo2Raw", "uint16", 0, 6, 2, false}, {"Servo3Raw", "uint16", 0, 8, 2, false}, {"Servo4Raw", "uint16", 0, 10, 2, false}, {"Servo5Raw", "uint16", 0, 12, 2, false}, {"Servo6Raw", "uint16", 0, 14, 2, false}, {"Servo7Raw", "uint16", 0, 16, 2, false}, {"Servo8Raw", "uint16", 0, 18, 2, false}, {"Port", "uint8", 0, 20, 1, false}, {"Servo9Raw", "uint16", 0, 21, 2, true}, {"Servo10Raw", "uint16", 0, 23, 2, true}, {"Servo11Raw", "uint16", 0, 25, 2, true}, {"Servo12Raw", "uint16", 0, 27, 2, true}, {"Servo13Raw", "uint16", 0, 29, 2, true}, {"Servo14Raw", "uint16", 0, 31, 2, true}, {"Servo15Raw", "uint16", 0, 33, 2, true}, {"Servo16Raw", "uint16", 0, 35, 2, true}}},
	{37, "MissionRequestPartialList", true, 212, 6, 7, false, nil, []Field{{"StartIndex", "int16", 0, 0, 2, false}, {"EndIndex", "int16", 0, 2, 2, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}, {"MissionType", "uint8", 0, 6, 1, true}}},
	{38, "MissionWritePartialList", true, 9, 6, 7, false, nil, []Field{{"StartIndex", "int16", 0, 0, 2, false}, {"EndIndex", "int16", 0, 2, 2, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}, {"MissionType", "uint8", 0, 6, 1, true}}},
	{39, "MissionItem", true, 254, 37, 38, false, nil, []Field{{"Param1", "float32", 0, 0, 4, false}, {"Param2", "float32", 0, 4, 4, false}, {"Param3", "float32", 0, 8, 4, false}, {"Param4", "float32", 0, 12, 4, false}, {"X", "float32", 0, 16, 4, false}, {"Y", "float32", 0, 20, 4, false}, {"Z", "float32", 0, 24, 4, false}, {"Seq", "uint16", 0, 28, 2, false}, {"Command", "uint16", 0, 30, 2, false}, {"TargetSystem", "uint8", 0, 32, 1, false}, {"TargetComponent", "uint8", 0, 33, 1, false}, {"Frame", "uint8", 0, 34, 1, false}, {"Current", "uint8", 0, 35, 1, false}, {"Autocontinue", "uint8", 0, 36, 1, false}, {"MissionType", "uint8", 0, 37, 1, true}}},
	{40, "MissionRequest", true, 230, 4, 5, false, nil, []Field{{"Seq", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"MissionType", "uint8", 0, 4, 1, true}}},
	{41, "MissionSetCurrent", true, 28, 4, 4, false, nil, []Field{{"Seq", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}}},
	{42, "MissionCurrent", true, 28, 2, 2, false, nil, []Field{{"Seq", "uint16", 0, 0, 2, false}}},
	{43, "MissionRequestList", true, 132, 2, 3, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"MissionType", "uint8", 0, 2, 1, true}}},
	{44, "MissionCount", true, 221, 4, 5, false, nil, []Field{{"Count", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"MissionType", "uint8", 0, 4, 1, true}}},
	{45, "MissionClearAll", true, 232, 2, 3, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"MissionType", "uint8", 0, 2, 1, true}}},
	{46, "MissionItemReached", true, 11, 2, 2, false, nil, []Field{{"Seq", "uint16", 0, 0, 2, false}}},
	{47, "MissionAck", true, 153, 3, 4, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"Type", "uint8", 0, 2, 1, false}, {"MissionType", "uint8", 0, 3, 1, true}}},
	{48, "SetGPSGlobalOrigin", true, 41, 13, 21, false, nil, []Field{{"Latitude", "int32", 0, 0, 4, false}, {"Longitude", "int32", 0, 4, 4, false}, {"Altitude", "int32", 0, 8, 4, false}, {"TargetSystem", "uint8", 0, 12, 1, false}, {"TimeUsec", "uint64", 0, 13, 8, true}}},
	{49, "GPSGlobalOrigin", true, 39, 12, 20, false, nil, []Field{{"Latitude", "int32", 0, 0, 4, false}, {"Longitude", "int32", 0, 4, 4, false}, {"Altitude", "int32", 0, 8, 4, false}, {"TimeUsec", "uint64", 0, 12, 8, true}}},
	{50, "ParamMapRC", true, 78, 37, 37, false, []string{"ParamID"}, []Field{{"ParamValue0", "float32", 0, 0, 4, false}, {"Scale", "float32", 0, 4, 4, false}, {"ParamValueMin", "float32", 0, 8, 4, false}, {"ParamValueMax", "float32", 0, 12, 4, false}, {"ParamIndex", "int16", 0, 16, 2, false}, {"TargetSystem", "uint8", 0, 18, 1, false}, {"TargetComponent", "uint8", 0, 19, 1, false}, {"ParamID", "byte", 16, 20, 1, false}, {"ParameterRCChannelIndex", "uint8", 0, 36, 1, false}}},
	{51, "MissionRequestInt", true, 196, 4, 5, false, nil, []Field{{"Seq", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"MissionType", "uint8", 0, 4, 1, true}}},
	{52, "MissionChanged", true, 132, 7, 7, false, nil, []Field{{"StartIndex", "int16", 0, 0, 2, false}, {"EndIndex", "int16", 0, 2, 2, false}, {"OriginSysID", "uint8", 0, 4, 1, false}, {"OriginCompID", "uint8", 0, 5, 1, false}, {"MissionType", "uint8", 0, 6, 1, false}}},
	{54, "SafetySetAllowedArea", true, 15, 27, 27, false, nil, []Field{{"P1X", "float32", 0, 0, 4, false}, {"P1Y", "float32", 0, 4, 4, false}, {"P1Z", "float32", 0, 8, 4, false}, {"P2X", "float32", 0, 12, 4, false}, {"P2Y", "float32", 0, 16, 4, false}, {"P2Z", "float32", 0, 20, 4, false}, {"TargetSystem", "uint8", 0, 24, 1, false}, {"TargetComponent", "uint8", 0, 25, 1, false}, {"Frame", "uint8", 0, 26, 1, false}}},
	{55, "SafetyAllowedArea", true, 3, 25, 25, false, nil, []Field{{"P1X", "float32", 0, 0, 4, false}, {"P1Y", "float32", 0, 4, 4, false}, {"P1Z", "float32", 0, 8, 4, false}, {"P2X", "float32", 0, 12, 4, false}, {"P2Y", "float32", 0, 16, 4, false}, {"P2Z", "float32", 0, 20, 4, false}, {"Frame", "uint8", 0, 24, 1, false}}},
	{61, "AttitudeQuaternionCov", true, 167, 72, 72, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Q", "float32", 4, 8, 4, false}, {"Rollspeed", "float32", 0, 24, 4, false}, {"Pitchspeed", "float32", 0, 28, 4, false}, {"Yawspeed", "float32", 0, 32, 4, false}, {"Covariance", "float32", 9, 36, 4, false}}},
	{62, "NAVControllerOutput", true, 183, 26, 26, false, nil, []Field{{"NAVRoll", "float32", 0, 0, 4, false}, {"NAVPitch", "float32", 0, 4, 4, false}, {"AltError", "float32", 0, 8, 4, false}, {"AspdError", "float32", 0, 12, 4, false}, {"XtrackError", "float32", 0, 16, 4, false}, {"NAVBearing", "int16", 0, 20, 2, false}, {"TargetBearing", "int16", 0, 22, 2, false}, {"WpDist", "uint16", 0, 24, 2, false}}},
	{63, "GlobalPositionIntCov", true, 119, 181, 181, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Lat", "int32", 0, 8, 4, false}, {"Lon", "int32", 0, 12, 4, false}, {"Alt", "int32", 0, 16, 4, false}, {"RelativeAlt", "int32", 0, 20, 4, false}, {"Vx", "float32", 0, 24, 4, false}, {"Vy", "float32", 0, 28, 4, false}, {"Vz", "float32", 0, 32, 4, false}, {"Covariance", "float32", 36, 36, 4, false}, {"EstimatorType", "uint8", 0, 180, 1, false}}},
	{64, "LocalPositionNedCov", true, 191, 225, 225, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"X", "float32", 0, 8, 4, false}, {"Y", "float32", 0, 12, 4, false}, {"Z", "float32", 0, 16, 4, false}, {"Vx", "float32", 0, 20, 4, false}, {"Vy", "float32", 0, 24, 4, false}, {"Vz", "float32", 0, 28, 4, false}, {"Ax", "float32", 0, 32, 4, false}, {"Ay", "float32", 0, 36, 4, false}, {"Az", "float32", 0, 40, 4, false}, {"Covariance", "float32", 45, 44, 4, false}, {"EstimatorType", "uint8", 0, 224, 1, false}}},
	{65, "RCChannels", true, 118, 42, 42, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Chan1Raw", "uint16", 0, 4, 2, false}, {"Chan2Raw", "uint16", 0, 6, 2, false}, {"Chan3Raw", "uint16", 0, 8, 2, false}, {"Chan4Raw", "uint16", 0, 10, 2, false}, {"Chan5Raw", "uint16", 0, 12, 2, false}, {"Chan6Raw", "uint16", 0, 14, 2, false}, {"Chan7Raw", "uint16", 0, 16, 2, false}, {"Chan8Raw", "uint16", 0, 18, 2, false}, {"Chan9Raw", "uint16", 0, 20, 2, false}, {"Chan10Raw", "uint16", 0, 22, 2, false}, {"Chan11Raw", "uint16", 0, 24, 2, false}, {"Chan12Raw", "uint16", 0, 26, 2, false}, {"Chan13Raw", "uint16", 0, 28, 2, false}, {"Chan14Raw", "uint16", 0, 30, 2, false}, {"Chan15Raw", "uint16", 0, 32, 2, false}, {"Chan16Raw", "uint16", 0, 34, 2, false}, {"Chan17Raw", "uint16", 0, 36, 2, false}, {"Chan18Raw", "uint16", 0, 38, 2, false}, {"Chancount", "uint8", 0, 40, 1, false}, {"RSSI", "uint8", 0, 41, 1, false}}},
	{66, "RequestDataStream", true, 148, 6, 6, false, nil, []Field{{"ReqMessageRate", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"ReqStreamID", "uint8", 0, 4, 1, false}, {"StartStop", "uint8", 0, 5, 1, false}}},
	{67, "DataStream", true, 21, 4, 4, false, nil, []Field{{"MessageRate", "uint16", 0, 0, 2, false}, {"StreamID", "uint8", 0, 2, 1, false}, {"OnOff", "uint8", 0, 3, 1, false}}},
	{69, "ManualControl", true, 243, 11, 11, false, nil, []Field{{"X", "int16", 0, 0, 2, false}, {"Y", "int16", 0, 2, 2, false}, {"Z", "int16", 0, 4, 2, false}, {"R", "int16", 0, 6, 2, false}, {"Buttons", "uint16", 0, 8, 2, false}, {"Target", "uint8", 0, 10, 1, false}}},
	{70, "RCChannelsOverrIDe", true, 124, 18, 38, false, nil, []Field{{"Chan1Raw", "uint16", 0, 0, 2, false}, {"Chan2Raw", "uint16", 0, 2, 2, false}, {"Chan3Raw", "uint16", 0, 4, 2, false}, {"Chan4Raw", "uint16", 0, 6, 2, false}, {"Chan5Raw", "uint16", 0, 8, 2, false}, {"Chan6Raw", "uint16", 0, 10, 2, false}, {"Chan7Raw", "uint16", 0, 12, 2, false}, {"Chan8Raw", "uint16", 0, 14, 2, false}, {"TargetSystem", "uint8", 0, 16, 1, false}, {"TargetComponent", "uint8", 0, 17, 1, false}, {"Chan9Raw", "uint16", 0, 18, 2, true}, {"Chan10Raw", "uint16", 0, 20, 2, true}, {"Chan11Raw", "uint16", 0, 22, 2, true}, {"Chan12Raw", "uint16", 0, 24, 2, true}, {"Chan13Raw", "uint16", 0, 26, 2, true}, {"Chan14Raw", "uint16", 0, 28, 2, true}, {"Chan15Raw", "uint16", 0, 30, 2, true}, {"Chan16Raw", "uint16", 0, 32, 2, true}, {"Chan17Raw", "uint16", 0, 34, 2, true}, {"Chan18Raw", "uint16", 0, 36, 2, true}}},
	{73, "MissionItemInt", true, 38, 37, 38, false, nil, []Field{{"Param1", "float32", 0, 0, 4, false}, {"Param2", "float32", 0, 4, 4, false}, {"Param3", "float32", 0, 8, 4, false}, {"Param4", "float32", 0, 12, 4, false}, {"X", "int32", 0, 16, 4, false}, {"Y", "int32", 0, 20, 4, false}, {"Z", "float32", 0, 24, 4, false}, {"Seq", "uint16", 0, 28, 2, false}, {"Command", "uint16", 0, 30, 2, false}, {"TargetSystem", "uint8", 0, 32, 1, false}, {"TargetComponent", "uint8", 0, 33, 1, false}, {"Frame", "uint8", 0, 34, 1, false}, {"Current", "uint8", 0, 35, 1, false}, {"Autocontinue", "uint8", 0, 36, 1, false}, {"MissionType", "uint8", 0, 37, 1, true}}},
	{74, "VFRHUD", true, 20, 20, 20, false, nil, []Field{{"Airspeed", "float32", 0, 0, 4, false}, {"Groundspeed", "float32", 0, 4, 4, false}, {"Alt", "float32", 0, 8, 4, false}, {"Climb", "float32", 0, 12, 4, false}, {"Heading", "int16", 0, 16, 2, false}, {"Throttle", "uint16", 0, 18, 2, false}}},
	{75, "CommandInt", true, 158, 35, 35, false, nil, []Field{{"Param1", "float32", 0, 0, 4, false}, {"Param2", "float32", 0, 4, 4, false}, {"Param3", "float32", 0, 8, 4, false}, {"Param4", "float32", 0, 12, 4, false}, {"X", "int32", 0, 16, 4, false}, {"Y", "int32", 0, 20, 4, false}, {"Z", "float32", 0, 24, 4, false}, {"Command", "uint16", 0, 28, 2, false}, {"TargetSystem", "uint8", 0, 30, 1, false}, {"TargetComponent", "uint8", 0, 31, 1, false}, {"Frame", "uint8", 0, 32, 1, false}, {"Current", "uint8", 0, 33, 1, false}, {"Autocontinue", "uint8", 0, 34, 1, false}}},
	{76, "CommandLong", true, 152, 33, 33, false, nil, []Field{{"Param1", "float32", 0, 0, 4, false}, {"Param2", "float32", 0, 4, 4, false}, {"Param3", "float32", 0, 8, 4, false}, {"Param4", "float32", 0, 12, 4, false}, {"Param5", "float32", 0, 16, 4, false}, {"Param6", "float32", 0, 20, 4, false}, {"Param7", "float32", 0, 24, 4, false}, {"Command", "uint16", 0, 28, 2, false}, {"TargetSystem", "uint8", 0, 30, 1, false}, {"TargetComponent", "uint8", 0, 31, 1, false}, {"Confirmation", "uint8", 0, 32, 1, false}}},
	{77, "CommandAck", true, 143, 3, 10, false, nil, []Field{{"Command", "uint16", 0, 0, 2, false}, {"Result", "uint8", 0, 2, 1, false}, {"Progress", "uint8", 0, 3, 1, true}, {"ResultParam2", "int32", 0, 4, 4, true}, {"TargetSystem", "uint8", 0, 8, 1, true}, {"TargetComponent", "uint8", 0, 9, 1, true}}},
	{81, "ManualSetpoint", true, 106, 22, 22, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Roll", "float32", 0, 4, 4, false}, {"Pitch", "float32", 0, 8, 4, false}, {"Yaw", "float32", 0, 12, 4, false}, {"Thrust", "float32", 0, 16, 4, false}, {"ModeSwitch", "uint8", 0, 20, 1, false}, {"ManualOverrIDeSwitch", "uint8", 0, 21, 1, false}}},
	{82, "SetAttitudeTarget", true, 49, 39, 39, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Q", "float32", 4, 4, 4, false}, {"BodyRollRate", "float32", 0, 20, 4, false}, {"BodyPitchRate", "float32", 0, 24, 4, false}, {"BodyYawRate", "float32", 0, 28, 4, false}, {"Thrust", "float32", 0, 32, 4, false}, {"TargetSystem", "uint8", 0, 36, 1, false}, {"TargetComponent", "uint8", 0, 37, 1, false}, {"TypeMask", "uint8", 0, 38, 1, false}}},
	{83, "AttitudeTarget", true, 22, 37, 37, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Q", "float32", 4, 4, 4, false}, {"BodyRollRate", "float32", 0, 20, 4, false}, {"BodyPitchRate", "float32", 0, 24, 4, false}, {"BodyYawRate", "float32", 0, 28, 4, false}, {"Thrust", "float32", 0, 32, 4, false}, {"TypeMask", "uint8", 0, 36, 1, false}}},
	{84, "SetPositionTargetLocalNed", true, 143, 53, 53, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"X", "float32", 0, 4, 4, false}, {"Y", "float32", 0, 8, 4, false}, {"Z", "float32", 0, 12, 4, false}, {"Vx", "float32", 0, 16, 4, false}, {"Vy", "float32", 0, 20, 4, false}, {"Vz", "float32", 0, 24, 4, false}, {"Afx", "float32", 0, 28, 4, false}, {"Afy", "float32", 0, 32, 4, false}, {"Afz", "float32", 0, 36, 4, false}, {"Yaw", "float32", 0, 40, 4, false}, {"YawRate", "float32", 0, 44, 4, false}, {"TypeMask", "uint16", 0, 48, 2, false}, {"TargetSystem", "uint8", 0, 50, 1, false}, {"TargetComponent", "uint8", 0, 51, 1, false}, {"CoordinateFrame", "uint8", 0, 52, 1, false}}},
	{85, "PositionTargetLocalNed", true, 140, 51, 51, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"X", "float32", 0, 4, 4, false}, {"Y", "float32", 0, 8, 4, false}, {"Z", "float32", 0, 12, 4, false}, {"Vx", "float32", 0, 16, 4, false}, {"Vy", "float32", 0, 20, 4, false}, {"Vz", "float32", 0, 24, 4, false}, {"Afx", "float32", 0, 28, 4, false}, {"Afy", "float32", 0, 32, 4, false}, {"Afz", "float32", 0, 36, 4, false}, {"Yaw", "float32", 0, 40, 4, false}, {"YawRate", "float32", 0, 44, 4, false}, {"TypeMask", "uint16", 0, 48, 2, false}, {"CoordinateFrame", "uint8", 0, 50, 1, false}}},
	{86, "SetPositionTargetGlobalInt", true, 5, 53, 53, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"LatInt", "int32", 0, 4, 4, false}, {"LonInt", "int32", 0, 8, 4, false}, {"Alt", "float32", 0, 12, 4, false}, {"Vx", "float32", 0, 16, 4, false}, {"Vy", "float32", 0, 20, 4, false}, {"Vz", "float32", 0, 24, 4, false}, {"Afx", "float32", 0, 28, 4, false}, {"Afy", "float32", 0, 32, 4, false}, {"Afz", "float32", 0, 36, 4, false}, {"Yaw", "float32", 0, 40, 4, false}, {"YawRate", "float32", 0, 44, 4, false}, {"TypeMask", "uint16", 0, 48, 2, false}, {"TargetSystem", "uint8", 0, 50, 1, false}, {"TargetComponent", "uint8", 0, 51, 1, false}, {"CoordinateFrame", "uint8", 0, 52, 1, false}}},
	{87, "PositionTargetGlobalInt", true, 150, 51, 51, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"LatInt", "int32", 0, 4, 4, false}, {"LonInt", "int32", 0, 8, 4, false}, {"Alt", "float32", 0, 12, 4, false}, {"Vx", "float32", 0, 16, 4, false}, {"Vy", "float32", 0, 20, 4, false}, {"Vz", "float32", 0, 24, 4, false}, {"Afx", "float32", 0, 28, 4, false}, {"Afy", "float32", 0, 32, 4, false}, {"Afz", "float32", 0, 36, 4, false}, {"Yaw", "float32", 0, 40, 4, false}, {"YawRate", "float32", 0, 44, 4, false}, {"TypeMask", "uint16", 0, 48, 2, false}, {"CoordinateFrame", "uint8", 0, 50, 1, false}}},
	{89, "LocalPositionNedSystemGlobalOffset", true, 231, 28, 28, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"X", "float32", 0, 4, 4, false}, {"Y", "float32", 0, 8, 4, false}, {"Z", "float32", 0, 12, 4, false}, {"Roll", "float32", 0, 16, 4, false}, {"Pitch", "float32", 0, 20, 4, false}, {"Yaw", "float32", 0, 24, 4, false}}},
	{90, "HilState", true, 183, 56, 56, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Roll", "float32", 0, 8, 4, false}, {"Pitch", "float32", 0, 12, 4, false}, {"Yaw", "float32", 0, 16, 4, false}, {"Rollspeed", "float32", 0, 20, 4, false}, {"Pitchspeed", "float32", 0, 24, 4, false}, {"Yawspeed", "float32", 0, 28, 4, false}, {"Lat", "int32", 0, 32, 4, false}, {"Lon", "int32", 0, 36, 4, false}, {"Alt", "int32", 0, 40, 4, false}, {"Vx", "int16", 0, 44, 2, false}, {"Vy", "int16", 0, 46, 2, false}, {"Vz", "int16", 0, 48, 2, false}, {"Xacc", "int16", 0, 50, 2, false}, {"Yacc", "int16", 0, 52, 2, false}, {"Zacc", "int16", 0, 54, 2, false}}},
	{91, "HilControls", true, 63, 42, 42, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"RollAilerons", "float32", 0, 8, 4, false}, {"PitchElevator", "float32", 0, 12, 4, false}, {"YawRudder", "float32", 0, 16, 4, false}, {"Throttle", "float32", 0, 20, 4, false}, {"Aux1", "float32", 0, 24, 4, false}, {"Aux2", "float32", 0, 28, 4, false}, {"Aux3", "float32", 0, 32, 4, false}, {"Aux4", "float32", 0, 36, 4, false}, {"Mode", "uint8", 0, 40, 1, false}, {"NAVMode", "uint8", 0, 41, 1, false}}},
	{92, "HilRCInputsRaw", true, 54, 33, 33, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Chan1Raw", "uint16", 0, 8, 2, false}, {"Chan2Raw", "uint16", 0, 10, 2, false}, {"Chan3Raw", "uint16", 0, 12, 2, false}, {"Chan4Raw", "uint16", 0, 14, 2, false}, {"Chan5Raw", "uint16", 0, 16, 2, false}, {"Chan6Raw", "uint16", 0, 18, 2, false}, {"Chan7Raw", "uint16", 0, 20, 2, false}, {"Chan8Raw", "uint16", 0, 22, 2, false}, {"Chan9Raw", "uint16", 0, 24, 2, false}, {"Chan10Raw", "uint16", 0, 26, 2, false}, {"Chan11Raw", "uint16", 0, 28, 2, false}, {"Chan12Raw", "uint16", 0, 30, 2, false}, {"RSSI", "uint8", 0, 32, 1, false}}},
	{93, "HilActuatorControls", true, 47, 81, 81, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Flags", "uint64", 0, 8, 8, false}, {"Controls", "float32", 16, 16, 4, false}, {"Mode", "uint8", 0, 80, 1, false}}},
	{100, "OpticalFlow", true, 175, 26, 34, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"FlowCompMX", "float32", 0, 8, 4, false}, {"FlowCompMY", "float32", 0, 12, 4, false}, {"GroundDistance", "float32", 0, 16, 4, false}, {"FlowX", "int16", 0, 20, 2, false}, {"FlowY", "int16", 0, 22, 2, false}, {"SensorID", "uint8", 0, 24, 1, false}, {"Quality", "uint8", 0, 25, 1, false}, {"FlowRateX", "float32", 0, 26, 4, true}, {"FlowRateY", "float32", 0, 30, 4, true}}},
	{101, "GlobalVisionPositionEstimate", true, 102, 32, 117, false, nil, []Field{{"Usec", "uint64", 0, 0, 8, false}, {"X", "float32", 0, 8, 4, false}, {"Y", "float32", 0, 12, 4, false}, {"Z", "float32", 0, 16, 4, false}, {"Roll", "float32", 0, 20, 4, false}, {"Pitch", "float32", 0, 24, 4, false}, {"Yaw", "float32", 0, 28, 4, false}, {"Covariance", "float32", 21, 32, 4, true}, {"ResetCounter", "uint8", 0, 116, 1, true}}},
	{102, "VisionPositionEstimate", true, 158, 32, 117, false, nil, []Field{{"Usec", "uint64", 0, 0, 8, false}, {"X", "float32", 0, 8, 4, false}, {"Y", "float32", 0, 12, 4, false}, {"Z", "float32", 0, 16, 4, false}, {"Roll", "float32", 0, 20, 4, false}, {"Pitch", "float32", 0, 24, 4, false}, {"Yaw", "float32", 0, 28, 4, false}, {"Covariance", "float32", 21, 32, 4, true}, {"ResetCounter", "uint8", 0, 116, 1, true}}},
	{103, "VisionSpeedEstimate", true, 208, 20, 57, false, nil, []Field{{"Usec", "uint64", 0, 0, 8, false}, {"X", "float32", 0, 8, 4, false}, {"Y", "float32", 0, 12, 4, false}, {"Z", "float32", 0, 16, 4, false}, {"Covariance", "float32", 9, 20, 4, true}, {"ResetCounter", "uint8", 0, 56, 1, true}}},
	{104, "ViconPositionEstimate", true, 56, 32, 116, false, nil, []Field{{"Usec", "uint64", 0, 0, 8, false}, {"X", "float32", 0, 8, 4, false}, {"Y", "float32", 0, 12, 4, false}, {"Z", "float32", 0, 16, 4, false}, {"Roll", "float32", 0, 20, 4, false}, {"Pitch", "float32", 0, 24, 4, false}, {"Yaw", "float32", 0, 28, 4, false}, {"Covariance", "float32", 21, 32, 4, true}}},
	{105, "HighresIMU", true, 93, 62, 63, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Xacc", "float32", 0, 8, 4, false}, {"Yacc", "float32", 0, 12, 4, false}, {"Zacc", "float32", 0, 16, 4, false}, {"Xgyro", "float32", 0, 20, 4, false}, {"Ygyro", "float32", 0, 24, 4, false}, {"Zgyro", "float32", 0, 28, 4, false}, {"Xmag", "float32", 0, 32, 4, false}, {"Ymag", "float32", 0, 36, 4, false}, {"Zmag", "float32", 0, 40, 4, false}, {"AbsPressure", "float32", 0, 44, 4, false}, {"DiffPressure", "float32", 0, 48, 4, false}, {"PressureAlt", "float32", 0, 52, 4, false}, {"Temperature", "float32", 0, 56, 4, false}, {"FieldsUpdated", "uint16", 0, 60, 2, false}, {"ID", "uint8", 0, 62, 1, true}}},
	{106, "OpticalFlowRad", true, 138, 44, 44, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"IntegrationTimeUs", "uint32", 0, 8, 4, false}, {"IntegratedX", "float32", 0, 12, 4, false}, {"IntegratedY", "float32", 0, 16, 4, false}, {"IntegratedXgyro", "float32", 0, 20, 4, false}, {"IntegratedYgyro", "float32", 0, 24, 4, false}, {"IntegratedZgyro", "float32", 0, 28, 4, false}, {"TimeDeltaDistanceUs", "uint32", 0, 32, 4, false}, {"Distance", "float32", 0, 36, 4, false}, {"Temperature", "int16", 0, 40, 2, false}, {"SensorID", "uint8", 0, 42, 1, false}, {"Quality", "uint8", 0, 43, 1, false}}},
	{107, "HilSensor", true, 108, 64, 64, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Xacc", "float32", 0, 8, 4, false}, {"Yacc", "float32", 0, 12, 4, false}, {"Zacc", "float32", 0, 16, 4, false}, {"Xgyro", "float32", 0, 20, 4, false}, {"Ygyro", "float32", 0, 24, 4, false}, {"Zgyro", "float32", 0, 28, 4, false}, {"Xmag", "float32", 0, 32, 4, false}, {"Ymag", "float32", 0, 36, 4, false}, {"Zmag", "float32", 0, 40, 4, false}, {"AbsPressure", "float32", 0, 44, 4, false}, {"DiffPressure", "float32", 0, 48, 4, false}, {"PressureAlt", "float32", 0, 52, 4, false}, {"Temperature", "float32", 0, 56, 4, false}, {"FieldsUpdated", "uint32", 0, 60, 4, false}}},
	{108, "SimState", true, 32, 84, 84, false, nil, []Field{{"Q1", "float32", 0, 0, 4, false}, {"Q2", "float32", 0, 4, 4, false}, {"Q3", "float32", 0, 8, 4, false}, {"Q4", "float32", 0, 12, 4, false}, {"Roll", "float32", 0, 16, 4, false}, {"Pitch", "float32", 0, 20, 4, false}, {"Yaw", "float32", 0, 24, 4, false}, {"Xacc", "float32", 0, 28, 4, false}, {"Yacc", "float32", 0, 32, 4, false}, {"Zacc", "float32", 0, 36, 4, false}, {"Xgyro", "float32", 0, 40, 4, false}, {"Ygyro", "float32", 0, 44, 4, false}, {"Zgyro", "float32", 0, 48, 4, false}, {"Lat", "float32", 0, 52, 4, false}, {"Lon", "float32", 0, 56, 4, false}, {"Alt", "float32", 0, 60, 4, false}, {"StdDevHorz", "float32", 0, 64, 4, false}, {"StdDevVert", "float32", 0, 68, 4, false}, {"Vn", "float32", 0, 72, 4, false}, {"Ve", "float32", 0, 76, 4, false}, {"Vd", "float32", 0, 80, 4, false}}},
	{109, "RadioStatus", true, 185, 9, 9, false, nil, []Field{{"Rxerrors", "uint16", 0, 0, 2, false}, {"Fixed", "uint16", 0, 2, 2, false}, {"RSSI", "uint8", 0, 4, 1, false}, {"RemRSSI", "uint8", 0, 5, 1, false}, {"Txbuf", "uint8", 0, 6, 1, false}, {"Noise", "uint8", 0, 7, 1, false}, {"Remnoise", "uint8", 0, 8, 1, false}}},
	{110, "FileTransferProtocol", true, 84, 254, 254, false, nil, []Field{{"TargetNetwork", "uint8", 0, 0, 1, false}, {"TargetSystem", "uint8", 0, 1, 1, false}, {"TargetComponent", "uint8", 0, 2, 1, false}, {"Payload", "uint8", 251, 3, 1, false}}},
	{111, "Timesync", true, 34, 16, 16, false, nil, []Field{{"Tc1", "int64", 0, 0, 8, false}, {"Ts1", "int64", 0, 8, 8, false}}},
	{112, "CameraTrigger", true, 174, 12, 12, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Seq", "uint32", 0, 8, 4, false}}},
	{113, "HilGPS", true, 124, 36, 36, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Lat", "int32", 0, 8, 4, false}, {"Lon", "int32", 0, 12, 4, false}, {"Alt", "int32", 0, 16, 4, false}, {"Eph", "uint16", 0, 20, 2, false}, {"Epv", "uint16", 0, 22, 2, false}, {"Vel", "uint16", 0, 24, 2, false}, {"Vn", "int16", 0, 26, 2, false}, {"Ve", "int16", 0, 28, 2, false}, {"Vd", "int16", 0, 30, 2, false}, {"Cog", "uint16", 0, 32, 2, false}, {"FixType", "uint8", 0, 34, 1, false}, {"SatellitesVisible", "uint8", 0, 35, 1, false}}},
	{114, "HilOpticalFlow", true, 237, 44, 44, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"IntegrationTimeUs", "uint32", 0, 8, 4, false}, {"IntegratedX", "float32", 0, 12, 4, false}, {"IntegratedY", "float32", 0, 16, 4, false}, {"IntegratedXgyro", "float32", 0, 20, 4, false}, {"IntegratedYgyro", "float32", 0, 24, 4, false}, {"IntegratedZgyro", "float32", 0, 28, 4, false}, {"TimeDeltaDistanceUs", "uint32", 0, 32, 4, false}, {"Distance", "float32", 0, 36, 4, false}, {"Temperature", "int16", 0, 40, 2, false}, {"SensorID", "uint8", 0, 42, 1, false}, {"Quality", "uint8", 0, 43, 1, false}}},
	{115, "HilStateQuaternion", true, 4, 64, 64, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"AttitudeQuaternion", "float32", 4, 8, 4, false}, {"Rollspeed", "float32", 0, 24, 4, false}, {"Pitchspeed", "float32", 0, 28, 4, false}, {"Yawspeed", "float32", 0, 32, 4, false}, {"Lat", "int32", 0, 36, 4, false}, {"Lon", "int32", 0, 40, 4, false}, {"Alt", "int32", 0, 44, 4, false}, {"Vx", "int16", 0, 48, 2, false}, {"Vy", "int16", 0, 50, 2, false}, {"Vz", "int16", 0, 52, 2, false}, {"IndAirspeed", "uint16", 0, 54, 2, false}, {"TrueAirspeed", "uint16", 0, 56, 2, false}, {"Xacc", "int16", 0, 58, 2, false}, {"Yacc", "int16", 0, 60, 2, false}, {"Zacc", "int16", 0, 62, 2, false}}},
	{116, "ScaledIMU2", true, 76, 22, 24, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Xacc", "int16", 0, 4, 2, false}, {"Yacc", "int16", 0, 6, 2, false}, {"Zacc", "int16", 0, 8, 2, false}, {"Xgyro", "int16", 0, 10, 2, false}, {"Ygyro", "int16", 0, 12, 2, false}, {"Zgyro", "int16", 0, 14, 2, false}, {"Xmag", "int16", 0, 16, 2, false}, {"Ymag", "int16", 0, 18, 2, false}, {"Zmag", "int16", 0, 20, 2, false}, {"Temperature", "int16", 0, 22, 2, true}}},
	{117, "LogRequestList", true, 128, 6, 6, false, nil, []Field{{"Start", "uint16", 0, 0, 2, false}, {"End", "uint16", 0, 2, 2, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}}},
	{118, "LogEntry", true, 56, 14, 14, false, nil, []Field{{"TimeUtc", "uint32", 0, 0, 4, false}, {"Size", "uint32", 0, 4, 4, false}, {"ID", "uint16", 0, 8, 2, false}, {"NumLogs", "uint16", 0, 10, 2, false}, {"LastLogNum", "uint16", 0, 12, 2, false}}},
	{119, "LogRequestData", true, 116, 12, 12, false, nil, []Field{{"Ofs", "uint32", 0, 0, 4, false}, {"Count", "uint32", 0, 4, 4, false}, {"ID", "uint16", 0, 8, 2, false}, {"TargetSystem", "uint8", 0, 10, 1, false}, {"TargetComponent", "uint8", 0, 11, 1, false}}},
	{120, "LogData", true, 134, 97, 97, false, nil, []Field{{"Ofs", "uint32", 0, 0, 4, false}, {"ID", "uint16", 0, 4, 2, false}, {"Count", "uint8", 0, 6, 1, false}, {"Data", "uint8", 90, 7, 1, false}}},
	{121, "LogErase", true, 237, 2, 2, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}}},
	{122, "LogRequestEnd", true, 203, 2, 2, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}}},
	{123, "GPSInjectData", true, 250, 113, 113, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"Len", "uint8", 0, 2, 1, false}, {"Data", "uint8", 110, 3, 1, false}}},
	{124, "GPS2Raw", true, 87, 35, 35, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Lat", "int32", 0, 8, 4, false}, {"Lon", "int32", 0, 12, 4, false}, {"Alt", "int32", 0, 16, 4, false}, {"DGPSAge", "uint32", 0, 20, 4, false}, {"Eph", "uint16", 0, 24, 2, false}, {"Epv", "uint16", 0, 26, 2, false}, {"Vel", "uint16", 0, 28, 2, false}, {"Cog", "uint16", 0, 30, 2, false}, {"FixType", "uint8", 0, 32, 1, false}, {"SatellitesVisible", "uint8", 0, 33, 1, false}, {"DGPSNumch", "uint8", 0, 34, 1, false}}},
	{125, "PowerStatus", true, 203, 6, 6, false, nil, []Field{{"Vcc", "uint16", 0, 0, 2, false}, {"Vservo", "uint16", 0, 2, 2, false}, {"Flags", "uint16", 0, 4, 2, false}}},
	{126, "SerialControl", true, 220, 79, 79, false, nil, []Field{{"Baudrate", "uint32", 0, 0, 4, false}, {"Timeout", "uint16", 0, 4, 2, false}, {"Device", "uint8", 0, 6, 1, false}, {"Flags", "uint8", 0, 7, 1, false}, {"Count", "uint8", 0, 8, 1, false}, {"Data", "uint8", 70, 9, 1, false}}},
	{127, "GPSRtk", true, 25, 35, 35, false, nil, []Field{{"TimeLastBaselineMs", "uint32", 0, 0, 4, false}, {"Tow", "uint32", 0, 4, 4, false}, {"BaselineAMm", "int32", 0, 8, 4, false}, {"BaselineBMm", "int32", 0, 12, 4, false}, {"BaselineCMm", "int32", 0, 16, 4, false}, {"Accuracy", "uint32", 0, 20, 4, false}, {"IarNumHypotheses", "int32", 0, 24, 4, false}, {"Wn", "uint16", 0, 28, 2, false}, {"RtkReceiverID", "uint8", 0, 30, 1, false}, {"RtkHealth", "uint8", 0, 31, 1, false}, {"RtkRate", "uint8", 0, 32, 1, false}, {"Nsats", "uint8", 0, 33, 1, false}, {"BaselineCoordsType", "uint8", 0, 34, 1, false}}},
	{128, "GPS2Rtk", true, 226, 35, 35, false, nil, []Field{{"TimeLastBaselineMs", "uint32", 0, 0, 4, false}, {"Tow", "uint32", 0, 4, 4, false}, {"BaselineAMm", "int32", 0, 8, 4, false}, {"BaselineBMm", "int32", 0, 12, 4, false}, {"BaselineCMm", "int32", 0, 16, 4, false}, {"Accuracy", "uint32", 0, 20, 4, false}, {"IarNumHypotheses", "int32", 0, 24, 4, false}, {"Wn", "uint16", 0, 28, 2, false}, {"RtkReceiverID", "uint8", 0, 30, 1, false}, {"RtkHealth", "uint8", 0, 31, 1, false}, {"RtkRate", "uint8", 0, 32, 1, false}, {"Nsats", "uint8", 0, 33, 1, false}, {"BaselineCoordsType", "uint8", 0, 34, 1, false}}},
	{129, "ScaledIMU3", true, 46, 22, 24, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Xacc", "int16", 0, 4, 2, false}, {"Yacc", "int16", 0, 6, 2, false}, {"Zacc", "int16", 0, 8, 2, false}, {"Xgyro", "int16", 0, 10, 2, false}, {"Ygyro", "int16", 0, 12, 2, false}, {"Zgyro", "int16", 0, 14, 2, false}, {"Xmag", "int16", 0, 16, 2, false}, {"Ymag", "int16", 0, 18, 2, false}, {"Zmag", "int16", 0, 20, 2, false}, {"Temperature", "int16", 0, 22, 2, true}}},
	{130, "DataTransmissionHandshake", true, 29, 13, 13, false, nil, []Field{{"Size", "uint32", 0, 0, 4, false}, {"WIDth", "uint16", 0, 4, 2, false}, {"Height", "uint16", 0, 6, 2, false}, {"Packets", "uint16", 0, 8, 2, false}, {"Type", "uint8", 0, 10, 1, false}, {"Payload", "uint8", 0, 11, 1, false}, {"JpgQuality", "uint8", 0, 12, 1, false}}},
	{131, "EncapsulatedData", true, 223, 255, 255, false, nil, []Field{{"Seqnr", "uint16", 0, 0, 2, false}, {"Data", "uint8", 253, 2, 1, false}}},
	{132, "DistanceSensor", true, 85, 14, 38, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"MinDistance", "uint16", 0, 4, 2, false}, {"MaxDistance", "uint16", 0, 6, 2, false}, {"CurrentDistance", "uint16", 0, 8, 2, false}, {"Type", "uint8", 0, 10, 1, false}, {"ID", "uint8", 0, 11, 1, false}, {"Orientation", "uint8", 0, 12, 1, false}, {"Covariance", "uint8", 0, 13, 1, false}, {"HorizontalFov", "float32", 0, 14, 4, true}, {"VerticalFov", "float32", 0, 18, 4, true}, {"Quaternion", "float32", 4, 22, 4, true}}},
	{133, "TerrainRequest", true, 6, 18, 18, false, nil, []Field{{"Mask", "uint64", 0, 0, 8, false}, {"Lat", "int32", 0, 8, 4, false}, {"Lon", "int32", 0, 12, 4, false}, {"GrIDSpacing", "uint16", 0, 16, 2, false}}},
	{134, "TerrainData", true, 229, 43, 43, false, nil, []Field{{"Lat", "int32", 0, 0, 4, false}, {"Lon", "int32", 0, 4, 4, false}, {"GrIDSpacing", "uint16", 0, 8, 2, false}, {"Data", "int16", 16, 10, 2, false}, {"GrIDbit", "uint8", 0, 42, 1, false}}},
	{135, "TerrainCheck", true, 203, 8, 8, false, nil, []Field{{"Lat", "int32", 0, 0, 4, false}, {"Lon", "int32", 0, 4, 4, false}}},
	{136, "TerrainReport", true, 1, 22, 22, false, nil, []Field{{"Lat", "int32", 0, 0, 4, false}, {"Lon", "int32", 0, 4, 4, false}, {"TerrainHeight", "float32", 0, 8, 4, false}, {"CurrentHeight", "float32", 0, 12, 4, false}, {"Spacing", "uint16", 0, 16, 2, false}, {"Pending", "uint16", 0, 18, 2, false}, {"Loaded", "uint16", 0, 20, 2, false}}},
	{137, "ScaledPressure2", true, 195, 14, 14, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"PressAbs", "float32", 0, 4, 4, false}, {"PressDiff", "float32", 0, 8, 4, false}, {"Temperature", "int16", 0, 12, 2, false}}},
	{138, "AttPosMocap", true, 109, 36, 120, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Q", "float32", 4, 8, 4, false}, {"X", "float32", 0, 24, 4, false}, {"Y", "float32", 0, 28, 4, false}, {"Z", "float32", 0, 32, 4, false}, {"Covariance", "float32", 21, 36, 4, true}}},
	{139, "SetActuatorControlTarget", true, 168, 43, 43, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Controls", "float32", 8, 8, 4, false}, {"GroupMlx", "uint8", 0, 40, 1, false}, {"TargetSystem", "uint8", 0, 41, 1, false}, {"TargetComponent", "uint8", 0, 42, 1, false}}},
	{140, "ActuatorControlTarget", true, 181, 41, 41, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Controls", "float32", 8, 8, 4, false}, {"GroupMlx", "uint8", 0, 40, 1, false}}},
	{141, "Altitude", true, 47, 32, 32, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"AltitudeMonotonic", "float32", 0, 8, 4, false}, {"AltitudeAmsl", "float32", 0, 12, 4, false}, {"AltitudeLocal", "float32", 0, 16, 4, false}, {"AltitudeRelative", "float32", 0, 20, 4, false}, {"AltitudeTerrain", "float32", 0, 24, 4, false}, {"BottomClearance", "float32", 0, 28, 4, false}}},
	{142, "ResouRCeRequest", true, 72, 243, 243, false, nil, []Field{{"RequestID", "uint8", 0, 0, 1, false}, {"URIType", "uint8", 0, 1, 1, false}, {"URI", "uint8", 120, 2, 1, false}, {"TransferType", "uint8", 0, 122, 1, false}, {"Storage", "uint8", 120, 123, 1, false}}},
	{143, "ScaledPressure3", true, 131, 14, 14, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"PressAbs", "float32", 0, 4, 4, false}, {"PressDiff", "float32", 0, 8, 4, false}, {"Temperature", "int16", 0, 12, 2, false}}},
	{144, "FollowTarget", true, 127, 93, 93, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"CustomState", "uint64", 0, 8, 8, false}, {"Lat", "int32", 0, 16, 4, false}, {"Lon", "int32", 0, 20, 4, false}, {"Alt", "float32", 0, 24, 4, false}, {"Vel", "float32", 3, 28, 4, false}, {"Acc", "float32", 3, 40, 4, false}, {"AttitudeQ", "float32", 4, 52, 4, false}, {"Rates", "float32", 3, 68, 4, false}, {"PositionCov", "float32", 3, 80, 4, false}, {"EstCapabilities", "uint8", 0, 92, 1, false}}},
	{146, "ControlSystemState", true, 103, 100, 100, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"XAcc", "float32", 0, 8, 4, false}, {"YAcc", "float32", 0, 12, 4, false}, {"ZAcc", "float32", 0, 16, 4, false}, {"XVel", "float32", 0, 20, 4, false}, {"YVel", "float32", 0, 24, 4, false}, {"ZVel", "float32", 0, 28, 4, false}, {"XPos", "float32", 0, 32, 4, false}, {"YPos", "float32", 0, 36, 4, false}, {"ZPos", "float32", 0, 40, 4, false}, {"Airspeed", "float32", 0, 44, 4, false}, {"VelVariance", "float32", 3, 48, 4, false}, {"PosVariance", "float32", 3, 60, 4, false}, {"Q", "float32", 4, 72, 4, false}, {"RollRate", "float32", 0, 88, 4, false}, {"PitchRate", "float32", 0, 92, 4, false}, {"YawRate", "float32", 0, 96, 4, false}}},
	{147, "BatteryStatus", true, 154, 36, 41, false, nil, []Field{{"CurrentConsumed", "int32", 0, 0, 4, false}, {"EnergyConsumed", "int32", 0, 4, 4, false}, {"Temperature", "int16", 0, 8, 2, false}, {"Voltages", "uint16", 10, 10, 2, false}, {"CurrentBattery", "int16", 0, 30, 2, false}, {"ID", "uint8", 0, 32, 1, false}, {"BatteryFunction", "uint8", 0, 33, 1, false}, {"Type", "uint8", 0, 34, 1, false}, {"BatteryRemaining", "int8", 0, 35, 1, false}, {"TimeRemaining", "int32", 0, 36, 4, true}, {"ChargeState", "uint8", 0, 40, 1, true}}},
	{148, "AutopilotVersion", true, 178, 60, 78, false, nil, []Field{{"Capabilities", "uint64", 0, 0, 8, false}, {"UID", "uint64", 0, 8, 8, false}, {"FlightSwVersion", "uint32", 0, 16, 4, false}, {"MIDdlewareSwVersion", "uint32", 0, 20, 4, false}, {"OsSwVersion", "uint32", 0, 24, 4, false}, {"BoardVersion", "uint32", 0, 28, 4, false}, {"VendorID", "uint16", 0, 32, 2, false}, {"ProductID", "uint16", 0, 34, 2, false}, {"FlightCustomVersion", "uint8", 8, 36, 1, false}, {"MIDdlewareCustomVersion", "uint8", 8, 44, 1, false}, {"OsCustomVersion", "uint8", 8, 52, 1, false}, {"UID2", "uint8", 18, 60, 1, true}}},
	{149, "LandingTarget", true, 200, 30, 60, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"AngleX", "float32", 0, 8, 4, false}, {"AngleY", "float32", 0, 12, 4, false}, {"Distance", "float32", 0, 16, 4, false}, {"SizeX", "float32", 0, 20, 4, false}, {"SizeY", "float32", 0, 24, 4, false}, {"TargetNum", "uint8", 0, 28, 1, false}, {"Frame", "uint8", 0, 29, 1, false}, {"X", "float32", 0, 30, 4, true}, {"Y", "float32", 0, 34, 4, true}, {"Z", "float32", 0, 38, 4, true}, {"Q", "float32", 4, 42, 4, true}, {"Type", "uint8", 0, 58, 1, true}, {"PositionValID", "uint8", 0, 59, 1, true}}},
	{162, "FenceStatus", true, 189, 8, 9, false, nil, []Field{{"BreachTime", "uint32", 0, 0, 4, false}, {"BreachCount", "uint16", 0, 4, 2, false}, {"BreachStatus", "uint8", 0, 6, 1, false}, {"BreachType", "uint8", 0, 7, 1, false}, {"BreachMitigation", "uint8", 0, 8, 1, true}}},
	{230, "EstimatorStatus", true, 163, 42, 42, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"VelRatio", "float32", 0, 8, 4, false}, {"PosHorizRatio", "float32", 0, 12, 4, false}, {"PosVertRatio", "float32", 0, 16, 4, false}, {"MagRatio", "float32", 0, 20, 4, false}, {"HaglRatio", "float32", 0, 24, 4, false}, {"TasRatio", "float32", 0, 28, 4, false}, {"PosHorizAccuracy", "float32", 0, 32, 4, false}, {"PosVertAccuracy", "float32", 0, 36, 4, false}, {"Flags", "uint16", 0, 40, 2, false}}},
	{231, "WindCov", true, 105, 40, 40, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"WindX", "float32", 0, 8, 4, false}, {"WindY", "float32", 0, 12, 4, false}, {"WindZ", "float32", 0, 16, 4, false}, {"VarHoriz", "float32", 0, 20, 4, false}, {"VarVert", "float32", 0, 24, 4, false}, {"WindAlt", "float32", 0, 28, 4, false}, {"HorizAccuracy", "float32", 0, 32, 4, false}, {"VertAccuracy", "float32", 0, 36, 4, false}}},
	{232, "GPSInput", true, 151, 63, 65, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"TimeWeekMs", "uint32", 0, 8, 4, false}, {"Lat", "int32", 0, 12, 4, false}, {"Lon", "int32", 0, 16, 4, false}, {"Alt", "float32", 0, 20, 4, false}, {"Hdop", "float32", 0, 24, 4, false}, {"Vdop", "float32", 0, 28, 4, false}, {"Vn", "float32", 0, 32, 4, false}, {"Ve", "float32", 0, 36, 4, false}, {"Vd", "float32", 0, 40, 4, false}, {"SpeedAccuracy", "float32", 0, 44, 4, false}, {"HorizAccuracy", "float32", 0, 48, 4, false}, {"VertAccuracy", "float32", 0, 52, 4, false}, {"IgnoreFlags", "uint16", 0, 56, 2, false}, {"TimeWeek", "uint16", 0, 58, 2, false}, {"GPSID", "uint8", 0, 60, 1, false}, {"FixType", "uint8", 0, 61, 1, false}, {"SatellitesVisible", "uint8", 0, 62, 1, false}, {"Yaw", "uint16", 0, 63, 2, true}}},
	{233, "GPSRtcmData", true, 35, 182, 182, false, nil, []Field{{"Flags", "uint8", 0, 0, 1, false}, {"Len", "uint8", 0, 1, 1, false}, {"Data", "uint8", 180, 2, 1, false}}},
	{234, "HighLatency", true, 150, 40, 40, false, nil, []Field{{"CustomMode", "uint32", 0, 0, 4, false}, {"Latitude", "int32", 0, 4, 4, false}, {"Longitude", "int32", 0, 8, 4, false}, {"Roll", "int16", 0, 12, 2, false}, {"Pitch", "int16", 0, 14, 2, false}, {"Heading", "uint16", 0, 16, 2, false}, {"HeadingSp", "int16", 0, 18, 2, false}, {"AltitudeAmsl", "int16", 0, 20, 2, false}, {"AltitudeSp", "int16", 0, 22, 2, false}, {"WpDistance", "uint16", 0, 24, 2, false}, {"BaseMode", "uint8", 0, 26, 1, false}, {"LandedState", "uint8", 0, 27, 1, false}, {"Throttle", "int8", 0, 28, 1, false}, {"Airspeed", "uint8", 0, 29, 1, false}, {"AirspeedSp", "uint8", 0, 30, 1, false}, {"Groundspeed", "uint8", 0, 31, 1, false}, {"ClimbRate", "int8", 0, 32, 1, false}, {"GPSNsat", "uint8", 0, 33, 1, false}, {"GPSFixType", "uint8", 0, 34, 1, false}, {"BatteryRemaining", "uint8", 0, 35, 1, false}, {"Temperature", "int8", 0, 36, 1, false}, {"TemperatureAir", "int8", 0, 37, 1, false}, {"Failsafe", "uint8", 0, 38, 1, false}, {"WpNum", "uint8", 0, 39, 1, false}}},
	{235, "HighLatency2", true, 179, 42, 42, false, nil, []Field{{"Timestamp", "uint32", 0, 0, 4, false}, {"Latitude", "int32", 0, 4, 4, false}, {"Longitude", "int32", 0, 8, 4, false}, {"CustomMode", "uint16", 0, 12, 2, false}, {"Altitude", "int16", 0, 14, 2, false}, {"TargetAltitude", "int16", 0, 16, 2, false}, {"TargetDistance", "uint16", 0, 18, 2, false}, {"WpNum", "uint16", 0, 20, 2, false}, {"FailureFlags", "uint16", 0, 22, 2, false}, {"Type", "uint8", 0, 24, 1, false}, {"Autopilot", "uint8", 0, 25, 1, false}, {"Heading", "uint8", 0, 26, 1, false}, {"TargetHeading", "uint8", 0, 27, 1, false}, {"Throttle", "uint8", 0, 28, 1, false}, {"Airspeed", "uint8", 0, 29, 1, false}, {"AirspeedSp", "uint8", 0, 30, 1, false}, {"Groundspeed", "uint8", 0, 31, 1, false}, {"Windspeed", "uint8", 0, 32, 1, false}, {"WindHeading", "uint8", 0, 33, 1, false}, {"Eph", "uint8", 0, 34, 1, false}, {"Epv", "uint8", 0, 35, 1, false}, {"TemperatureAir", "int8", 0, 36, 1, false}, {"ClimbRate", "int8", 0, 37, 1, false}, {"Battery", "int8", 0, 38, 1, false}, {"Custom0", "int8", 0, 39, 1, false}, {"Custom1", "int8", 0, 40, 1, false}, {"Custom2", "int8", 0, 41, 1, false}}},
	{241, "Vibration", true, 90, 32, 32, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"VibrationX", "float32", 0, 8, 4, false}, {"VibrationY", "float32", 0, 12, 4, false}, {"VibrationZ", "float32", 0, 16, 4, false}, {"Clipping0", "uint32", 0, 20, 4, false}, {"Clipping1", "uint32", 0, 24, 4, false}, {"Clipping2", "uint32", 0, 28, 4, false}}},
	{242, "HomePosition", true, 104, 52, 60, false, nil, []Field{{"Latitude", "int32", 0, 0, 4, false}, {"Longitude", "int32", 0, 4, 4, false}, {"Altitude", "int32", 0, 8, 4, false}, {"X", "float32", 0, 12, 4, false}, {"Y", "float32", 0, 16, 4, false}, {"Z", "float32", 0, 20, 4, false}, {"Q", "float32", 4, 24, 4, false}, {"ApproachX", "float32", 0, 40, 4, false}, {"ApproachY", "float32", 0, 44, 4, false}, {"ApproachZ", "float32", 0, 48, 4, false}, {"TimeUsec", "uint64", 0, 52, 8, true}}},
	{243, "SetHomePosition", true, 85, 53, 61, false, nil, []Field{{"Latitude", "int32", 0, 0, 4, false}, {"Longitude", "int32", 0, 4, 4, false}, {"Altitude", "int32", 0, 8, 4, false}, {"X", "float32", 0, 12, 4, false}, {"Y", "float32", 0, 16, 4, false}, {"Z", "float32", 0, 20, 4, false}, {"Q", "float32", 4, 24, 4, false}, {"ApproachX", "float32", 0, 40, 4, false}, {"ApproachY", "float32", 0, 44, 4, false}, {"ApproachZ", "float32", 0, 48, 4, false}, {"TargetSystem", "uint8", 0, 52, 1, false}, {"TimeUsec", "uint64", 0, 53, 8, true}}},
	{244, "MessageInterval", true, 95, 6, 6, false, nil, []Field{{"IntervalUs", "int32", 0, 0, 4, false}, {"MessageID", "uint16", 0, 4, 2, false}}},
	{245, "ExtendedSysState", true, 130, 2, 2, false, nil, []Field{{"VtolState", "uint8", 0, 0, 1, false}, {"LandedState", "uint8", 0, 1, 1, false}}},
	{246, "AdsbVehicle", true, 184, 38, 38, false, []string{"Callsign"}, []Field{{"IcaoAddress", "uint32", 0, 0, 4, false}, {"Lat", "int32", 0, 4, 4, false}, {"Lon", "int32", 0, 8, 4, false}, {"Altitude", "int32", 0, 12, 4, false}, {"Heading", "uint16", 0, 16, 2, false}, {"HorVelocity", "uint16", 0, 18, 2, false}, {"VerVelocity", "int16", 0, 20, 2, false}, {"Flags", "uint16", 0, 22, 2, false}, {"Squawk", "uint16", 0, 24, 2, false}, {"AltitudeType", "uint8", 0, 26, 1, false}, {"Callsign", "byte", 9, 27, 1, false}, {"EmitterType", "uint8", 0, 36, 1, false}, {"Tslc", "uint8", 0, 37, 1, false}}},
	{247, "Collision", true, 81, 19, 19, false, nil, []Field{{"ID", "uint32", 0, 0, 4, false}, {"TimeToMinIMUmDelta", "float32", 0, 4, 4, false}, {"AltitudeMinIMUmDelta", "float32", 0, 8, 4, false}, {"HorizontalMinIMUmDelta", "float32", 0, 12, 4, false}, {"SRC", "uint8", 0, 16, 1, false}, {"Action", "uint8", 0, 17, 1, false}, {"ThreatLevel", "uint8", 0, 18, 1, false}}},
	{248, "V2Extension", true, 8, 5, 254, true, nil, []Field{{"MessageType", "uint16", 0, 0, 2, false}, {"TargetNetwork", "uint8", 0, 2, 1, false}, {"TargetSystem", "uint8", 0, 3, 1, false}, {"TargetComponent", "uint8", 0, 4, 1, false}, {"Payload", "byte", 249, 5, 1, false}}},
	{249, "MemoryVect", true, 204, 36, 36, false, nil, []Field{{"Address", "uint16", 0, 0, 2, false}, {"Ver", "uint8", 0, 2, 1, false}, {"Type", "uint8", 0, 3, 1, false}, {"Value", "int8", 32, 4, 1, false}}},
	{250, "DebugVect", true, 49, 30, 30, false, []string{"Name"}, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"X", "float32", 0, 8, 4, false}, {"Y", "float32", 0, 12, 4, false}, {"Z", "float32", 0, 16, 4, false}, {"Name", "byte", 10, 20, 1, false}}},
	{251, "NamedValueFloat", true, 170, 18, 18, false, []string{"Name"}, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Value", "float32", 0, 4, 4, false}, {"Name", "byte", 10, 8, 1, false}}},
	{252, "NamedValueInt", true, 44, 18, 18, false, []string{"Name"}, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Value", "int32", 0, 4, 4, false}, {"Name", "byte", 10, 8, 1, false}}},
	{253, "Statustext", true, 83, 51, 51, false, []string{"Text"}, []Field{{"Severity", "uint8", 0, 0, 1, false}, {"Text", "byte", 50, 1, 1, false}}},
	{254, "Debug", true, 46, 9, 9, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Value", "float32", 0, 4, 4, false}, {"Ind", "uint8", 0, 8, 1, false}}},
	{256, "SetupSigning", true, 71, 42, 42, false, nil, []Field{{"InitialTimestamp", "uint64", 0, 0, 8, false}, {"TargetSystem", "uint8", 0, 8, 1, false}, {"TargetComponent", "uint8", 0, 9, 1, false}, {"SecretKey", "uint8", 32, 10, 1, false}}},
	{257, "ButtonChange", true, 131, 9, 9, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"LastChangeMs", "uint32", 0, 4, 4, false}, {"State", "uint8", 0, 8, 1, false}}},
	{258, "PlayTune", true, 187, 32, 232, false, []string{"Tune", "Tune2"}, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"Tune", "byte", 30, 2, 1, false}, {"Tune2", "byte", 200, 32, 1, true}}},
	{259, "CameraInformation", true, 92, 235, 235, false, []string{"CamDefinitionURI"}, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"FirmwareVersion", "uint32", 0, 4, 4, false}, {"FocalLength", "float32", 0, 8, 4, false}, {"SensorSizeH", "float32", 0, 12, 4, false}, {"SensorSizeV", "float32", 0, 16, 4, false}, {"Flags", "uint32", 0, 20, 4, false}, {"ResolutionH", "uint16", 0, 24, 2, false}, {"ResolutionV", "uint16", 0, 26, 2, false}, {"CamDefinitionVersion", "uint16", 0, 28, 2, false}, {"VendorName", "uint8", 32, 30, 1, false}, {"ModelName", "uint8", 32, 62, 1, false}, {"LensID", "uint8", 0, 94, 1, false}, {"CamDefinitionURI", "byte", 140, 95, 1, false}}},
	{260, "CameraSettings", true, 146, 5, 13, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"ModeID", "uint8", 0, 4, 1, false}, {"Zoomlevel", "float32", 0, 5, 4, true}, {"Focuslevel", "float32", 0, 9, 4, true}}},
	{261, "StorageInformation", true, 179, 27, 27, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"TotalCapacity", "float32", 0, 4, 4, false}, {"UsedCapacity", "float32", 0, 8, 4, false}, {"AvailableCapacity", "float32", 0, 12, 4, false}, {"ReadSpeed", "float32", 0, 16, 4, false}, {"WriteSpeed", "float32", 0, 20, 4, false}, {"StorageID", "uint8", 0, 24, 1, false}, {"StorageCount", "uint8", 0, 25, 1, false}, {"Status", "uint8", 0, 26, 1, false}}},
	{262, "CameraCaptureStatus", true, 12, 18, 18, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"ImageInterval", "float32", 0, 4, 4, false}, {"RecordingTimeMs", "uint32", 0, 8, 4, false}, {"AvailableCapacity", "float32", 0, 12, 4, false}, {"ImageStatus", "uint8", 0, 16, 1, false}, {"VIDeoStatus", "uint8", 0, 17, 1, false}}},
	{263, "CameraImageCaptured", true, 133, 255, 255, false, []string{"FileURL"}, []Field{{"TimeUtc", "uint64", 0, 0, 8, false}, {"TimeBootMs", "uint32", 0, 8, 4, false}, {"Lat", "int32", 0, 12, 4, false}, {"Lon", "int32", 0, 16, 4, false}, {"Alt", "int32", 0, 20, 4, false}, {"RelativeAlt", "int32", 0, 24, 4, false}, {"Q", "float32", 4, 28, 4, false}, {"ImageIndex", "int32", 0, 44, 4, false}, {"CameraID", "uint8", 0, 48, 1, false}, {"CaptureResult", "int8", 0, 49, 1, false}, {"FileURL", "byte", 205, 50, 1, false}}},
	{264, "FlightInformation", true, 49, 28, 28, false, nil, []Field{{"ArmingTimeUtc", "uint64", 0, 0, 8, false}, {"TakeoffTimeUtc", "uint64", 0, 8, 8, false}, {"FlightUUID", "uint64", 0, 16, 8, false}, {"TimeBootMs", "uint32", 0, 24, 4, false}}},
	{265, "MountOrientation", true, 26, 16, 20, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"Roll", "float32", 0, 4, 4, false}, {"Pitch", "float32", 0, 8, 4, false}, {"Yaw", "float32", 0, 12, 4, false}, {"YawAbsolute", "float32", 0, 16, 4, true}}},
	{266, "LoggingData", true, 193, 255, 255, false, nil, []Field{{"Sequence", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"Length", "uint8", 0, 4, 1, false}, {"FirstMessageOffset", "uint8", 0, 5, 1, false}, {"Data", "uint8", 249, 6, 1, false}}},
	{267, "LoggingDataAcked", true, 35, 255, 255, false, nil, []Field{{"Sequence", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"Length", "uint8", 0, 4, 1, false}, {"FirstMessageOffset", "uint8", 0, 5, 1, false}, {"Data", "uint8", 249, 6, 1, false}}},
	{268, "LoggingAck", true, 14, 4, 4, false, nil, []Field{{"Sequence", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}}},
	{269, "VIDeoStreamInformation", true, 109, 213, 213, false, []string{"Name", "URI"}, []Field{{"Framerate", "float32", 0, 0, 4, false}, {"Bitrate", "uint32", 0, 4, 4, false}, {"Flags", "uint16", 0, 8, 2, false}, {"ResolutionH", "uint16", 0, 10, 2, false}, {"ResolutionV", "uint16", 0, 12, 2, false}, {"Rotation", "uint16", 0, 14, 2, false}, {"Hfov", "uint16", 0, 16, 2, false}, {"StreamID", "uint8", 0, 18, 1, false}, {"Count", "uint8", 0, 19, 1, false}, {"Type", "uint8", 0, 20, 1, false}, {"Name", "byte", 32, 21, 1, false}, {"URI", "byte", 160, 53, 1, false}}},
	{270, "VIDeoStreamStatus", true, 59, 19, 19, false, nil, []Field{{"Framerate", "float32", 0, 0, 4, false}, {"Bitrate", "uint32", 0, 4, 4, false}, {"Flags", "uint16", 0, 8, 2, false}, {"ResolutionH", "uint16", 0, 10, 2, false}, {"ResolutionV", "uint16", 0, 12, 2, false}, {"Rotation", "uint16", 0, 14, 2, false}, {"Hfov", "uint16", 0, 16, 2, false}, {"StreamID", "uint8", 0, 18, 1, false}}},
	{299, "WifiConfigAp", true, 19, 96, 96, false, []string{"SsID", "Password"}, []Field{{"SsID", "byte", 32, 0, 1, false}, {"Password", "byte", 64, 32, 1, false}}},
	{300, "ProtocolVersion", true, 217, 22, 22, false, nil, []Field{{"Version", "uint16", 0, 0, 2, false}, {"MinVersion", "uint16", 0, 2, 2, false}, {"MaxVersion", "uint16", 0, 4, 2, false}, {"SpecVersionHash", "uint8", 8, 6, 1, false}, {"LibraryVersionHash", "uint8", 8, 14, 1, false}}},
	{301, "AisVessel", true, 243, 58, 58, false, []string{"Callsign", "Name"}, []Field{{"Mmsi", "uint32", 0, 0, 4, false}, {"Lat", "int32", 0, 4, 4, false}, {"Lon", "int32", 0, 8, 4, false}, {"Cog", "uint16", 0, 12, 2, false}, {"Heading", "uint16", 0, 14, 2, false}, {"Velocity", "uint16", 0, 16, 2, false}, {"DimensionBow", "uint16", 0, 18, 2, false}, {"DimensionStern", "uint16", 0, 20, 2, false}, {"Tslc", "uint16", 0, 22, 2, false}, {"Flags", "uint16", 0, 24, 2, false}, {"TurnRate", "int8", 0, 26, 1, false}, {"NAVigationalStatus", "uint8", 0, 27, 1, false}, {"Type", "uint8", 0, 28, 1, false}, {"DimensionPort", "uint8", 0, 29, 1, false}, {"DimensionStarboard", "uint8", 0, 30, 1, false}, {"Callsign", "byte", 7, 31, 1, false}, {"Name", "byte", 20, 38, 1, false}}},
	{310, "UavcanNodeStatus", true, 28, 17, 17, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"UptimeSec", "uint32", 0, 8, 4, false}, {"VendorSpecificStatusCode", "uint16", 0, 12, 2, false}, {"Health", "uint8", 0, 14, 1, false}, {"Mode", "uint8", 0, 15, 1, false}, {"SubMode", "uint8", 0, 16, 1, false}}},
	{311, "UavcanNodeInfo", true, 95, 116, 116, false, []string{"Name"}, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"UptimeSec", "uint32", 0, 8, 4, false}, {"SwVcsCommit", "uint32", 0, 12, 4, false}, {"Name", "byte", 80, 16, 1, false}, {"HWVersionMajor", "uint8", 0, 96, 1, false}, {"HWVersionMinor", "uint8", 0, 97, 1, false}, {"HWUniqueID", "uint8", 16, 98, 1, false}, {"SwVersionMajor", "uint8", 0, 114, 1, false}, {"SwVersionMinor", "uint8", 0, 115, 1, false}}},
	{320, "ParamExtRequestRead", true, 243, 20, 20, false, []string{"ParamID"}, []Field{{"ParamIndex", "int16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"ParamID", "byte", 16, 4, 1, false}}},
	{321, "ParamExtRequestList", true, 88, 2, 2, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}}},
	{322, "ParamExtValue", true, 243, 149, 149, false, []string{"ParamID", "ParamValue"}, []Field{{"ParamCount", "uint16", 0, 0, 2, false}, {"ParamIndex", "uint16", 0, 2, 2, false}, {"ParamID", "byte", 16, 4, 1, false}, {"ParamValue", "byte", 128, 20, 1, false}, {"ParamType", "uint8", 0, 148, 1, false}}},
	{323, "ParamExtSet", true, 78, 147, 147, false, []string{"ParamID", "ParamValue"}, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"ParamID", "byte", 16, 2, 1, false}, {"ParamValue", "byte", 128, 18, 1, false}, {"ParamType", "uint8", 0, 146, 1, false}}},
	{324, "ParamExtAck", true, 132, 146, 146, false, []string{"ParamID", "ParamValue"}, []Field{{"ParamID", "byte", 16, 0, 1, false}, {"ParamValue", "byte", 128, 16, 1, false}, {"ParamType", "uint8", 0, 144, 1, false}, {"ParamResult", "uint8", 0, 145, 1, false}}},
	{330, "ObstacleDistance", true, 23, 158, 167, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Distances", "uint16", 72, 8, 2, false}, {"MinDistance", "uint16", 0, 152, 2, false}, {"MaxDistance", "uint16", 0, 154, 2, false}, {"SensorType", "uint8", 0, 156, 1, false}, {"Increment", "uint8", 0, 157, 1, false}, {"IncrementF", "float32", 0, 158, 4, true}, {"AngleOffset", "float32", 0, 162, 4, true}, {"Frame", "uint8", 0, 166, 1, true}}},
	{331, "Odometry", true, 91, 230, 232, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"X", "float32", 0, 8, 4, false}, {"Y", "float32", 0, 12, 4, false}, {"Z", "float32", 0, 16, 4, false}, {"Q", "float32", 4, 20, 4, false}, {"Vx", "float32", 0, 36, 4, false}, {"Vy", "float32", 0, 40, 4, false}, {"Vz", "float32", 0, 44, 4, false}, {"Rollspeed", "float32", 0, 48, 4, false}, {"Pitchspeed", "float32", 0, 52, 4, false}, {"Yawspeed", "float32", 0, 56, 4, false}, {"PoseCovariance", "float32", 21, 60, 4, false}, {"VelocityCovariance", "float32", 21, 144, 4, false}, {"FrameID", "uint8", 0, 228, 1, false}, {"ChildFrameID", "uint8", 0, 229, 1, false}, {"ResetCounter", "uint8", 0, 230, 1, true}, {"EstimatorType", "uint8", 0, 231, 1, true}}},
	{332, "TrajectoryRepresentationWaypoints", true, 236, 239, 239, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"PosX", "float32", 5, 8, 4, false}, {"PosY", "float32", 5, 28, 4, false}, {"PosZ", "float32", 5, 48, 4, false}, {"VelX", "float32", 5, 68, 4, false}, {"VelY", "float32", 5, 88, 4, false}, {"VelZ", "float32", 5, 108, 4, false}, {"AccX", "float32", 5, 128, 4, false}, {"AccY", "float32", 5, 148, 4, false}, {"AccZ", "float32", 5, 168, 4, false}, {"PosYaw", "float32", 5, 188, 4, false}, {"VelYaw", "float32", 5, 208, 4, false}, {"Command", "uint16", 5, 228, 2, false}, {"ValIDPoints", "uint8", 0, 238, 1, false}}},
	{333, "TrajectoryRepresentationBezier", true, 231, 109, 109, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"PosX", "float32", 5, 8, 4, false}, {"PosY", "float32", 5, 28, 4, false}, {"PosZ", "float32", 5, 48, 4, false}, {"Delta", "float32", 5, 68, 4, false}, {"PosYaw", "float32", 5, 88, 4, false}, {"ValIDPoints", "uint8", 0, 108, 1, false}}},
	{334, "CellularStatus", true, 135, 14, 14, false, nil, []Field{{"CID", "uint32", 0, 0, 4, false}, {"Status", "uint16", 0, 4, 2, false}, {"Mcc", "uint16", 0, 6, 2, false}, {"Mnc", "uint16", 0, 8, 2, false}, {"Lac", "uint16", 0, 10, 2, false}, {"Type", "uint8", 0, 12, 1, false}, {"Quality", "uint8", 0, 13, 1, false}}},
	{335, "IsbdLinkStatus", true, 225, 24, 24, false, nil, []Field{{"Timestamp", "uint64", 0, 0, 8, false}, {"LastHeartbeat", "uint64", 0, 8, 8, false}, {"FailedSessions", "uint16", 0, 16, 2, false}, {"SuccessfulSessions", "uint16", 0, 18, 2, false}, {"SignalQuality", "uint8", 0, 20, 1, false}, {"RingPending", "uint8", 0, 21, 1, false}, {"TxSessionPending", "uint8", 0, 22, 1, false}, {"RxSessionPending", "uint8", 0, 23, 1, false}}},
	{340, "UtmGlobalPosition", true, 99, 70, 70, false, nil, []Field{{"Time", "uint64", 0, 0, 8, false}, {"Lat", "int32", 0, 8, 4, false}, {"Lon", "int32", 0, 12, 4, false}, {"Alt", "int32", 0, 16, 4, false}, {"RelativeAlt", "int32", 0, 20, 4, false}, {"NextLat", "int32", 0, 24, 4, false}, {"NextLon", "int32", 0, 28, 4, false}, {"NextAlt", "int32", 0, 32, 4, false}, {"Vx", "int16", 0, 36, 2, false}, {"Vy", "int16", 0, 38, 2, false}, {"Vz", "int16", 0, 40, 2, false}, {"HAcc", "uint16", 0, 42, 2, false}, {"VAcc", "uint16", 0, 44, 2, false}, {"VelAcc", "uint16", 0, 46, 2, false}, {"UpdateRate", "uint16", 0, 48, 2, false}, {"UasID", "uint8", 18, 50, 1, false}, {"FlightState", "uint8", 0, 68, 1, false}, {"Flags", "uint8", 0, 69, 1, false}}},
	{350, "DebugFloatArray", true, 232, 20, 252, false, []string{"Name"}, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"ArrayID", "uint16", 0, 8, 2, false}, {"Name", "byte", 10, 10, 1, false}, {"Data", "float32", 58, 20, 4, true}}},
	{360, "OrbitExecutionStatus", true, 11, 25, 25, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Radius", "float32", 0, 8, 4, false}, {"X", "int32", 0, 12, 4, false}, {"Y", "int32", 0, 16, 4, false}, {"Z", "float32", 0, 20, 4, false}, {"Frame", "uint8", 0, 24, 1, false}}},
	{365, "StatustextLong", true, 36, 255, 255, false, []string{"Text"}, []Field{{"Severity", "uint8", 0, 0, 1, false}, {"Text", "byte", 254, 1, 1, false}}},
	{370, "SmartBatteryInfo", true, 98, 73, 73, false, []string{"DeviceName"}, []Field{{"CapacityFullSpecification", "int32", 0, 0, 4, false}, {"CapacityFull", "int32", 0, 4, 4, false}, {"SerialNumber", "int32", 0, 8, 4, false}, {"CycleCount", "uint16", 0, 12, 2, false}, {"Weight", "uint16", 0, 14, 2, false}, {"DischargeMinIMUmVoltage", "uint16", 0, 16, 2, false}, {"ChargingMinIMUmVoltage", "uint16", 0, 18, 2, false}, {"RestingMinIMUmVoltage", "uint16", 0, 20, 2, false}, {"ID", "uint8", 0, 22, 1, false}, {"DeviceName", "byte", 50, 23, 1, false}}},
	{371, "SmartBatteryStatus", true, 161, 50, 50, false, nil, []Field{{"FaultBitmask", "int32", 0, 0, 4, false}, {"TimeRemaining", "int32", 0, 4, 4, false}, {"ID", "uint16", 0, 8, 2, false}, {"CapacityRemaining", "int16", 0, 10, 2, false}, {"Current", "int16", 0, 12, 2, false}, {"Temperature", "int16", 0, 14, 2, false}, {"CellOffset", "uint16", 0, 16, 2, false}, {"Voltages", "uint16", 16, 18, 2, false}}},
	{375, "ActuatorOutputStatus", true, 251, 140, 140, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Active", "uint32", 0, 8, 4, false}, {"Actuator", "float32", 32, 12, 4, false}}},
	{380, "TimeEstimateToTarget", true, 232, 20, 20, false, nil, []Field{{"SafeReturn", "int32", 0, 0, 4, false}, {"Land", "int32", 0, 4, 4, false}, {"MissionNextItem", "int32", 0, 8, 4, false}, {"MissionEnd", "int32", 0, 12, 4, false}, {"CommandedAction", "int32", 0, 16, 4, false}}},
	{385, "Tunnel", true, 147, 133, 133, false, nil, []Field{{"PayloadType", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"PayloadLength", "uint8", 0, 4, 1, false}, {"Payload", "uint8", 128, 5, 1, false}}},
	{390, "OnboardComputerStatus", true, 156, 238, 238, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Uptime", "uint32", 0, 8, 4, false}, {"RamUsage", "uint32", 0, 12, 4, false}, {"RamTotal", "uint32", 0, 16, 4, false}, {"StorageType", "uint32", 4, 20, 4, false}, {"StorageUsage", "uint32", 4, 36, 4, false}, {"StorageTotal", "uint32", 4, 52, 4, false}, {"LinkType", "uint32", 6, 68, 4, false}, {"LinkTxRate", "uint32", 6, 92, 4, false}, {"LinkRxRate", "uint32", 6, 116, 4, false}, {"LinkTxMax", "uint32", 6, 140, 4, false}, {"LinkRxMax", "uint32", 6, 164, 4, false}, {"FanSpeed", "int16", 4, 188, 2, false}, {"Type", "uint8", 0, 196, 1, false}, {"CpuCores", "uint8", 8, 197, 1, false}, {"CpuCombined", "uint8", 10, 205, 1, false}, {"GpuCores", "uint8", 4, 215, 1, false}, {"GpuCombined", "uint8", 10, 219, 1, false}, {"TemperatureBoard", "int8", 0, 229, 1, false}, {"TemperatureCore", "int8", 8, 230, 1, false}}},
	{395, "ComponentInformation", true, 231, 222, 222, false, []string{"ComponentDefinitionURI"}, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"FirmwareVersion", "uint32", 0, 4, 4, false}, {"HardwareVersion", "uint32", 0, 8, 4, false}, {"CapabilityFlags", "uint32", 0, 12, 4, false}, {"ComponentDefinitionVersion", "uint16", 0, 16, 2, false}, {"VendorName", "uint8", 32, 18, 1, false}, {"ModelName", "uint8", 32, 50, 1, false}, {"ComponentDefinitionURI", "byte", 140, 82, 1, false}}},
	{400, "PlayTuneV2", true, 110, 254, 254, false, []string{"Tune"}, []Field{{"Format", "uint32", 0, 0, 4, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}, {"Tune", "byte", 248, 6, 1, false}}},
	{401, "SupportedTunes", true, 183, 6, 6, false, nil, []Field{{"Format", "uint32", 0, 0, 4, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}}},
	{9000, "WheelDistance", true, 113, 137, 137, false, nil, []Field{{"TimeUsec", "uint64", 0, 0, 8, false}, {"Distance", "float64", 16, 8, 8, false}, {"Count", "uint8", 0, 136, 1, false}}},
	{12900, "OpenDroneIDBasicID", true, 197, 22, 22, false, nil, []Field{{"IDType", "uint8", 0, 0, 1, false}, {"UaType", "uint8", 0, 1, 1, false}, {"UasID", "uint8", 20, 2, 1, false}}},
	{12901, "OpenDroneIDLocation", true, 16, 37, 37, false, nil, []Field{{"Latitude", "int32", 0, 0, 4, false}, {"Longitude", "int32", 0, 4, 4, false}, {"AltitudeBarometric", "float32", 0, 8, 4, false}, {"AltitudeGeodetic", "float32", 0, 12, 4, false}, {"Height", "float32", 0, 16, 4, false}, {"Timestamp", "float32", 0, 20, 4, false}, {"Direction", "uint16", 0, 24, 2, false}, {"SpeedHorizontal", "uint16", 0, 26, 2, false}, {"SpeedVertical", "int16", 0, 28, 2, false}, {"Status", "uint8", 0, 30, 1, false}, {"HeightReference", "uint8", 0, 31, 1, false}, {"HorizontalAccuracy", "uint8", 0, 32, 1, false}, {"VerticalAccuracy", "uint8", 0, 33, 1, false}, {"BarometerAccuracy", "uint8", 0, 34, 1, false}, {"SpeedAccuracy", "uint8", 0, 35, 1, false}, {"TimestampAccuracy", "uint8", 0, 36, 1, false}}},
	{12902, "OpenDroneIDAuthentication", true, 181, 31, 31, false, nil, []Field{{"Timestamp", "uint32", 0, 0, 4, false}, {"AuthenticationType", "uint8", 0, 4, 1, false}, {"DataPage", "uint8", 0, 5, 1, false}, {"PageCount", "uint8", 0, 6, 1, false}, {"Length", "uint8", 0, 7, 1, false}, {"AuthenticationData", "uint8", 23, 8, 1, false}}},
	{12903, "OpenDroneIDSelfID", true, 149, 24, 24, false, []string{"Description"}, []Field{{"DescriptionType", "uint8", 0, 0, 1, false}, {"Description", "byte", 23, 1, 1, false}}},
	{12904, "OpenDroneIDSystem", true, 238, 21, 21, false, nil, []Field{{"OperatorLatitude", "int32", 0, 0, 4, false}, {"OperatorLongitude", "int32", 0, 4, 4, false}, {"AreaCeiling", "float32", 0, 8, 4, false}, {"AreaFloor", "float32", 0, 12, 4, false}, {"AreaCount", "uint16", 0, 16, 2, false}, {"AreaRadius", "uint16", 0, 18, 2, false}, {"Flags", "uint8", 0, 20, 1, false}}},
	{12905, "OpenDroneIDOperatorID", true, 56, 21, 21, false, []string{"OperatorID"}, []Field{{"OperatorIDType", "uint8", 0, 0, 1, false}, {"OperatorID", "byte", 20, 1, 1, false}}},
	{12915, "OpenDroneIDMessagePack", true, 67, 252, 252, false, nil, []Field{{"SingleMessageSize", "uint8", 0, 0, 1, false}, {"MsgPackSize", "uint8", 0, 1, 1, false}, {"Messages", "uint8", 250, 2, 1, false}}},
}

var d_icarous = []Msg{
	{42000, "IcarousHeartbeat", true, 227, 1, 1, false, nil, []Field{{"Status", "uint8", 0, 0, 1, false}}},
	{42001, "IcarousKinematicBands", true, 239, 46, 46, false, nil, []Field{{"Min1", "float32", 0, 0, 4, false}, {"Max1", "float32", 0, 4, 4, false}, {"Min2", "float32", 0, 8, 4, false}, {"Max2", "float32", 0, 12, 4, false}, {"Min3", "float32", 0, 16, 4, false}, {"Max3", "float32", 0, 20, 4, false}, {"Min4", "float32", 0, 24, 4, false}, {"Max4", "float32", 0, 28, 4, false}, {"Min5", "float32", 0, 32, 4, false}, {"Max5", "float32", 0, 36, 4, false}, {"Numbands", "int8", 0, 40, 1, false}, {"Type1", "uint8", 0, 41, 1, false}, {"Type2", "uint8", 0, 42, 1, false}, {"Type3", "uint8", 0, 43, 1, false}, {"Type4", "uint8", 0, 44, 1, false}, {"Type5", "uint8", 0, 45, 1, false}}},
}

var d_matrixpilot = []Msg{
	{150, "FlexifunctionSet", true, 181, 2, 2, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}}},
	{151, "FlexifunctionReadReq", true, 26, 6, 6, false, nil, []Field{{"ReadReqType", "int16", 0, 0, 2, false}, {"DataIndex", "int16", 0, 2, 2, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}}},
	{152, "FlexifunctionBufferFunction", true, 101, 58, 58, false, nil, []Field{{"FuncIndex", "uint16", 0, 0, 2, false}, {"FuncCount", "uint16", 0, 2, 2, false}, {"DataAddress", "uint16", 0, 4, 2, false}, {"DataSize", "uint16", 0, 6, 2, false}, {"TargetSystem", "uint8", 0, 8, 1, false}, {"TargetComponent", "uint8", 0, 9, 1, false}, {"Data", "int8", 48, 10, 1, false}}},
	{153, "FlexifunctionBufferFunctionAck", true, 109, 6, 6, false, nil, []Field{{"FuncIndex", "uint16", 0, 0, 2, false}, {"Result", "uint16", 0, 2, 2, false}, {"TargetSystem", "uint8", 0, 4, 1, false}, {"TargetComponent", "uint8", 0, 5, 1, false}}},
	{155, "FlexifunctionDirectory", true, 12, 53, 53, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"DirectoryType", "uint8", 0, 2, 1, false}, {"StartIndex", "uint8", 0, 3, 1, false}, {"Count", "uint8", 0, 4, 1, false}, {"DirectoryData", "int8", 48, 5, 1, false}}},
	{156, "FlexifunctionDirectoryAck", true, 218, 7, 7, false, nil, []Field{{"Result", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"DirectoryType", "uint8", 0, 4, 1, false}, {"StartIndex", "uint8", 0, 5, 1, false}, {"Count", "uint8", 0, 6, 1, false}}},
	{157, "FlexifunctionCommand", true, 133, 3, 3, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}, {"CommandType", "uint8", 0, 2, 1, false}}},
	{158, "FlexifunctionCommandAck", true, 208, 4, 4, false, nil, []Field{{"CommandType", "uint16", 0, 0, 2, false}, {"Result", "uint16", 0, 2, 2, false}}},
	{170, "SerialUdbExtraF2A", true, 103, 61, 61, false, nil, []Field{{"SueTime", "uint32", 0, 0, 4, false}, {"SueLatitude", "int32", 0, 4, 4, false}, {"SueLongitude", "int32", 0, 8, 4, false}, {"SueAltitude", "int32", 0, 12, 4, false}, {"SueWaypointIndex", "uint16", 0, 16, 2, false}, {"SueRmat0", "int16", 0, 18, 2, false}, {"SueRmat1", "int16", 0, 20, 2, false}, {"SueRmat2", "int16", 0, 22, 2, false}, {"SueRmat3", "int16", 0, 24, 2, false}, {"SueRmat4", "int16", 0, 26, 2, false}, {"SueRmat5", "int16", 0, 28, 2, false}, {"SueRmat6", "int16", 0, 30, 2, false}, {"SueRmat7", "int16", 0, 32, 2, false}, {"SueRmat8", "int16", 0, 34, 2, false}, {"SueCog", "uint16", 0, 36, 2, false}, {"SueSog", "int16", 0, 38, 2, false}, {"SueCpuLoad", "uint16", 0, 40, 2, false}, {"SueAirSpeed3DIMU", "uint16", 0, 42, 2, false}, {"SueEstimatedWind0", "int16", 0, 44, 2, false}, {"SueEstimatedWind1", "int16", 0, 46, 2, false}, {"SueEstimatedWind2", "int16", 0, 48, 2, false}, {"SueMagfieldearth0", "int16", 0, 50, 2, false}, {"SueMagfieldearth1", "int16", 0, 52, 2, false}, {"SueMagfieldearth2", "int16", 0, 54, 2, false}, {"SueSvs", "int16", 0, 56, 2, false}, {"SueHdop", "int16", 0, 58, 2, false}, {"SueStatus", "uint8", 0, 60, 1, false}}},
	{171, "SerialUdbExtraF2B", true, 245, 108, 108, false, nil, []Field{{"SueTime", "uint32", 0, 0, 4, false}, {"SueFlags", "uint32", 0, 4, 4, false}, {"SueBaromPress", "int32", 0, 8, 4, false}, {"SueBaromAlt", "int32", 0, 12, 4, false}, {"SuePwmInput1", "int16", 0, 16, 2, false}, {"SuePwmInput2", "int16", 0, 18, 2, false}, {"SuePwmInput3", "int16", 0, 20, 2, false}, {"SuePwmInput4", "int16", 0, 22, 2, false}, {"SuePwmInput5", "int16", 0, 24, 2, false}, {"SuePwmInput6", "int16", 0, 26, 2, false}, {"SuePwmInput7", "int16", 0, 28, 2, false}, {"SuePwmInput8", "int16", 0, 30, 2, false}, {"SuePwmInput9", "int16", 0, 32, 2, false}, {"SuePwmInput10", "int16", 0, 34, 2, false}, {"SuePwmInput11", "int16", 0, 36, 2, false}, {"SuePwmInput12", "int16", 0, 38, 2, false}, {"SuePwmOutput1", "int16", 0, 40, 2, false}, {"SuePwmOutput2", "int16", 0, 42, 2, false}, {"SuePwmOutput3", "int16", 0, 44, 2, false}, {"SuePwmOutput4", "int16", 0, 46, 2, false}, {"SuePwmOutput5", "int16", 0, 48, 2, false}, {"SuePwmOutput6", "int16", 0, 50, 2, false}, {"SuePwmOutput7", "int16", 0, 52, 2, false}, {"SuePwmOutput8", "int16", 0, 54, 2, false}, {"SuePwmOutput9", "int16", 0, 56, 2, false}, {"SuePwmOutput10", "int16", 0, 58, 2, false}, {"SuePwmOutput11", "int16", 0, 60, 2, false}, {"SuePwmOutput12", "int16", 0, 62, 2, false}, {"SueIMULocationX", "int16", 0, 64, 2, false}, {"SueIMULocationY", "int16", 0, 66, 2, false}, {"SueIMULocationZ", "int16", 0, 68, 2, false}, {"SueLocationErrorEarthX", "int16", 0, 70, 2, false}, {"SueLocationErrorEarthY", "int16", 0, 72, 2, false}, {"SueLocationErrorEarthZ", "int16", 0, 74, 2, false}, {"SueOscFails", "int16", 0, 76, 2, false}, {"SueIMUVelocityX", "int16", 0, 78, 2, false}, {"SueIMUVelocityY", "int16", 0, 80, 2, false}, {"SueIMUVelocityZ", "int16", 0, 82, 2, false}, {"SueWaypointGoalX", "int16", 0, 84, 2, false}, {"SueWaypointGoalY", "int16", 0, 86, 2, false}, {"SueWaypointGoalZ", "int16", 0, 88, 2, false}, {"SueAeroX", "int16", 0, 90, 2, false}, {"SueAeroY", "int16", 0, 92, 2, false}, {"SueAeroZ", "int16", 0, 94, 2, false}, {"SueBaromTemp", "int16", 0, 96, 2, false}, {"SueBatVolt", "int16", 0, 98, 2, false}, {"SueBatAmp", "int16", 0, 100, 2, false}, {"SueBatAmpHours", "int16", 0, 102, 2, false}, {"SueDesiredHeight", "int16", 0, 104, 2, false}, {"SueMemoryStackFree", "int16", 0, 106, 2, false}}},
	{172, "SerialUdbExtraF4", true, 191, 10, 10, false, nil, []Field{{"SueRollStabilizationAilerons", "uint8", 0, 0, 1, false}, {"SueRollStabilizationRudder", "uint8", 0, 1, 1, false}, {"SuePitchStabilization", "uint8", 0, 2, 1, false}, {"SueYawStabilizationRudder", "uint8", 0, 3, 1, false}, {"SueYawStabilizationAileron", "uint8", 0, 4, 1, false}, {"SueAileronNAVigation", "uint8", 0, 5, 1, false}, {"SueRudderNAVigation", "uint8", 0, 6, 1, false}, {"SueAltitudeholdStabilized", "uint8", 0, 7, 1, false}, {"SueAltitudeholdWaypoint", "uint8", 0, 8, 1, false}, {"SueRacingMode", "uint8", 0, 9, 1, false}}},
	{173, "SerialUdbExtraF5", true, 54, 16, 16, false, nil, []Field{{"SueYawkpAileron", "float32", 0, 0, 4, false}, {"SueYawkdAileron", "float32", 0, 4, 4, false}, {"SueRollkp", "float32", 0, 8, 4, false}, {"SueRollkd", "float32", 0, 12, 4, false}}},
	{174, "SerialUdbExtraF6", true, 54, 20, 20, false, nil, []Field{{"SuePitchgain", "float32", 0, 0, 4, false}, {"SuePitchkd", "float32", 0, 4, 4, false}, {"SueRudderElevMix", "float32", 0, 8, 4, false}, {"SueRollElevMix", "float32", 0, 12, 4, false}, {"SueElevatorBoost", "float32", 0, 16, 4, false}}},
	{175, "SerialUdbExtraF7", true, 171, 24, 24, false, nil, []Field{{"SueYawkpRudder", "float32", 0, 0, 4, false}, {"SueYawkdRudder", "float32", 0, 4, 4, false}, {"SueRollkpRudder", "float32", 0, 8, 4, false}, {"SueRollkdRudder", "float32", 0, 12, 4, false}, {"SueRudderBoost", "float32", 0, 16, 4, false}, {"SueRtlPitchDown", "float32", 0, 20, 4, false}}},
	{176, "SerialUdbExtraF8", true, 142, 28, 28, false, nil, []Field{{"SueHeightTargetMax", "float32", 0, 0, 4, false}, {"SueHeightTargetMin", "float32", 0, 4, 4, false}, {"SueAltHoldThrottleMin", "float32", 0, 8, 4, false}, {"SueAltHoldThrottleMax", "float32", 0, 12, 4, false}, {"SueAltHoldPitchMin", "float32", 0, 16, 4, false}, {"SueAltHoldPitchMax", "float32", 0, 20, 4, false}, {"SueAltHoldPitchHigh", "float32", 0, 24, 4, false}}},
	{177, "SerialUdbExtraF13", true, 249, 14, 14, false, nil, []Field{{"SueLatOrigin", "int32", 0, 0, 4, false}, {"SueLonOrigin", "int32", 0, 4, 4, false}, {"SueAltOrigin", "int32", 0, 8, 4, false}, {"SueWeekNo", "int16", 0, 12, 2, false}}},
	{178, "SerialUdbExtraF14", true, 123, 17, 17, false, nil, []Field{{"SueTrapSouRCe", "uint32", 0, 0, 4, false}, {"SueRCon", "int16", 0, 4, 2, false}, {"SueTrapFlags", "int16", 0, 6, 2, false}, {"SueOscFailCount", "int16", 0, 8, 2, false}, {"SueWindEstimation", "uint8", 0, 10, 1, false}, {"SueGPSType", "uint8", 0, 11, 1, false}, {"SueDr", "uint8", 0, 12, 1, false}, {"SueBoardType", "uint8", 0, 13, 1, false}, {"SueAirframe", "uint8", 0, 14, 1, false}, {"SueClockConfig", "uint8", 0, 15, 1, false}, {"SueFlightPlanType", "uint8", 0, 16, 1, false}}},
	{179, "SerialUdbExtraF15", true, 7, 60, 60, false, nil, []Field{{"SueIDVehicleModelName", "uint8", 40, 0, 1, false}, {"SueIDVehicleRegistration", "uint8", 20, 40, 1, false}}},
	{180, "SerialUdbExtraF16", true, 222, 110, 110, false, nil, []Field{{"SueIDLeadPilot", "uint8", 40, 0, 1, false}, {"SueIDDiyDronesURL", "uint8", 70, 40, 1, false}}},
	{181, "Altitudes", true, 55, 28, 28, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"AltGPS", "int32", 0, 4, 4, false}, {"AltIMU", "int32", 0, 8, 4, false}, {"AltBarometric", "int32", 0, 12, 4, false}, {"AltOpticalFlow", "int32", 0, 16, 4, false}, {"AltRangeFinder", "int32", 0, 20, 4, false}, {"AltExtra", "int32", 0, 24, 4, false}}},
	{182, "Airspeeds", true, 154, 16, 16, false, nil, []Field{{"TimeBootMs", "uint32", 0, 0, 4, false}, {"AirspeedIMU", "int16", 0, 4, 2, false}, {"AirspeedPitot", "int16", 0, 6, 2, false}, {"AirspeedHotWire", "int16", 0, 8, 2, false}, {"AirspeedUltrasonic", "int16", 0, 10, 2, false}, {"Aoa", "int16", 0, 12, 2, false}, {"Aoy", "int16", 0, 14, 2, false}}},
	{183, "SerialUdbExtraF17", true, 175, 12, 12, false, nil, []Field{{"SueFeedForward", "float32", 0, 0, 4, false}, {"SueTurnRateNAV", "float32", 0, 4, 4, false}, {"SueTurnRateFbw", "float32", 0, 8, 4, false}}},
	{184, "SerialUdbExtraF18", true, 41, 20, 20, false, nil, []Field{{"AngleOfAttackNormal", "float32", 0, 0, 4, false}, {"AngleOfAttackInverted", "float32", 0, 4, 4, false}, {"ElevatorTrimNormal", "float32", 0, 8, 4, false}, {"ElevatorTrimInverted", "float32", 0, 12, 4, false}, {"ReferenceSpeed", "float32", 0, 16, 4, false}}},
	{185, "SerialUdbExtraF19", true, 87, 8, 8, false, nil, []Field{{"SueAileronOutputChannel", "uint8", 0, 0, 1, false}, {"SueAileronReversed", "uint8", 0, 1, 1, false}, {"SueElevatorOutputChannel", "uint8", 0, 2, 1, false}, {"SueElevatorReversed", "uint8", 0, 3, 1, false}, {"SueThrottleOutputChannel", "uint8", 0, 4, 1, false}, {"SueThrottleReversed", "uint8", 0, 5, 1, false}, {"SueRudderOutputChannel", "uint8", 0, 6, 1, false}, {"SueRudderReversed", "uint8", 0, 7, 1, false}}},
	{186, "SerialUdbExtraF20", true, 144, 25, 25, false, nil, []Field{{"SueTrimValueInput1", "int16", 0, 0, 2, false}, {"SueTrimValueInput2", "int16", 0, 2, 2, false}, {"SueTrimValueInput3", "int16", 0, 4, 2, false}, {"SueTrimValueInput4", "int16", 0, 6, 2, false}, {"SueTrimValueInput5", "int16", 0, 8, 2, false}, {"SueTrimValueInput6", "int16", 0, 10, 2, false}, {"SueTrimValueInput7", "int16", 0, 12, 2, false}, {"SueTrimValueInput8", "int16", 0, 14, 2, false}, {"SueTrimValueInput9", "int16", 0, 16, 2, false}, {"SueTrimValueInput10", "int16", 0, 18, 2, false}, {"SueTrimValueInput11", "int16", 0, 20, 2, false}, {"SueTrimValueInput12", "int16", 0, 22, 2, false}, {"SueNumberOfInputs", "uint8", 0, 24, 1, false}}},
	{187, "SerialUdbExtraF21", true, 134, 12, 12, false, nil, []Field{{"SueAccelXOffset", "int16", 0, 0, 2, false}, {"SueAccelYOffset", "int16", 0, 2, 2, false}, {"SueAccelZOffset", "int16", 0, 4, 2, false}, {"SueGyroXOffset", "int16", 0, 6, 2, false}, {"SueGyroYOffset", "int16", 0, 8, 2, false}, {"SueGyroZOffset", "int16", 0, 10, 2, false}}},
	{188, "SerialUdbExtraF22", true, 91, 12, 12, false, nil, []Field{{"SueAccelXAtCalibration", "int16", 0, 0, 2, false}, {"SueAccelYAtCalibration", "int16", 0, 2, 2, false}, {"SueAccelZAtCalibration", "int16", 0, 4, 2, false}, {"SueGyroXAtCalibration", "int16", 0, 6, 2, false}, {"SueGyroYAtCalibration", "int16", 0, 8, 2, false}, {"SueGyroZAtCalibration", "int16", 0, 10, 2, false}}},
}

var d_paparazzi = []Msg{
	{180, "ScriptItem", true, 231, 54, 54, false, []string{"Name"}, []Field{{"Seq", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}, {"Name", "byte", 50, 4, 1, false}}},
	{181, "ScriptRequest", true, 129, 4, 4, false, nil, []Field{{"Seq", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}}},
	{182, "ScriptRequestList", true, 115, 2, 2, false, nil, []Field{{"TargetSystem", "uint8", 0, 0, 1, false}, {"TargetComponent", "uint8", 0, 1, 1, false}}},
	{183, "ScriptCount", true, 186, 4, 4, false, nil, []Field{{"Count", "uint16", 0, 0, 2, false}, {"TargetSystem", "uint8", 0, 2, 1, false}, {"TargetComponent", "uint8", 0, 3, 1, false}}},
	{184, "ScriptCurrent", true, 40, 2, 2, false, nil, []Field{{"Seq", "uint16", 0, 0, 2, false}}},
}

var d_slugs = []Msg{
	{170, "CpuLoad", true, 75, 4, 4, false, nil, []Field{{"Batvolt", "uint16", 0, 0, 2, false}, {"Sensload", "uint8", 0, 2, 1, false}, {"Ctrlload", "uint8", 0, 3, 1, false}}},
	{172, "SensorBias", true, 168, 24, 24, false, nil, []Field{{"Axbias", "float32", 0, 0, 4, false}, {"Aybias", "float32", 0, 4, 4, false}, {"Azbias", "float32", 0, 8, 4, false}, {"Gxbias", "float32", 0, 12, 4, false}, {"Gybias", "float32", 0, 16, 4, false}, {"Gzbias", "float32", 0, 20, 4, false}}},
	{173, "Diagnostic", true, 2, 18, 18, false, nil, []Field{{"Diagfl1", "float32", 0, 0, 4, false}, {"Diagfl2", "float32", 0, 4, 4, false}, {"Diagfl3", "float32", 0, 8, 4, false}, {"Diagsh1", "int16", 0, 12, 2, false}, {"Diagsh2", "int16", 0, 14, 2, false}, {"Diagsh3", "int16", 0, 16, 2, false}}},
	{176, "SlugsNAVigation", true, 228, 32, 32, false, nil, []Field{{"UM", "float32", 0, 0, 4, false}, {"PhiC", "float32", 0, 4, 4, false}, {"ThetaC", "float32", 0, 8, 4, false}, {"PsIDotC", "float32", 0, 12, 4, false}, {"AyBody", "float32", 0, 16, 4, false}, {"Totaldist", "float32", 0, 20, 4, false}, {"Dist2Go", "float32", 0, 24, 4, false}, {"HC", "uint16", 0, 28, 2, false}, {"Fromwp", "uint8", 0, 30, 1, false}, {"Towp", "uint8", 0, 31, 1, false}}},
	{177, "DataLog", true, 167, 24, 24, false, nil, []Field{{"Fl1", "float32", 0, 0, 4, false}, {"Fl2", "float32", 0, 4, 4, false}, {"Fl3", "float32", 0, 8, 4, false}, {"Fl4", "float32", 0, 12, 4, false}, {"Fl5", "float32", 0, 16, 4, false}, {"Fl6", "float32", 0, 20, 4, false}}},
	{179, "GPSDateTime", true, 132, 12, 12, false, nil, []Field{{"Year", "uint8", 0, 0, 1, false}, {"Month", "uint8", 0, 1, 1, false}, {"Day", "uint8", 0, 2, 1, false}, {"Hour", "uint8", 0, 3, 1, false}, {"Min", "uint8", 0, 4, 1, false}, {"Sec", "uint8", 0, 5, 1, false}, {"Clockstat", "uint8", 0, 6, 1, false}, {"Vissat", "uint8", 0, 7, 1, false}, {"Usesat", "uint8", 0, 8, 1, false}, {"Gppgl", "uint8", 0, 9, 1, false}, {"Sigusedmask", "uint8", 0, 10, 1, false}, {"PeRCentused", "uint8", 0, 11, 1, false}}},
	{180, "MIDLvlCmds", true, 146, 13, 13, false, nil, []Field{{"Hcommand", "float32", 0, 0, 4, false}, {"Ucommand", "float32", 0, 4, 4, false}, {"RCommand", "float32", 0, 8, 4, false}, {"Target", "uint8", 0, 12, 1, false}}},
	{181, "CtrlSrfcPt", true, 104, 3, 3, false, nil, []Field{{"Bitfieldpt", "uint16", 0, 0, 2, false}, {"Target", "uint8", 0, 2, 1, false}}},
	{184, "SlugsCameraOrder", true, 45, 5, 5, false, nil, []Field{{"Target", "uint8", 0, 0, 1, false}, {"Pan", "int8", 0, 1, 1, false}, {"Tilt", "int8", 0, 2, 1, false}, {"Zoom", "int8", 0, 3, 1, false}, {"Movehome", "int8", 0, 4, 1, false}}},
	{185, "ControlSurface", true, 113, 10, 10, false, nil, []Field{{"Mcontrol", "float32", 0, 0, 4, false}, {"Bcontrol", "float32", 0, 4, 4, false}, {"Target", "uint8", 0, 8, 1, false}, {"IDsurface", "uint8", 0, 9, 1, false}}},
	{186, "SlugsMobileLocation", true, 101, 9, 9, false, nil, []Field{{"Latitude", "float32", 0, 0, 4, false}, {"Longitude", "float32", 0, 4, 4, false}, {"Target", "uint8", 0, 8, 1, false}}},
	{188, "SlugsConfigurationCamera", true, 5, 3, 3, false, nil, []Field{{"Target", "uint8", 0, 0, 1, false}, {"IDorder", "uint8", 0, 1, 1, false}, {"Order", "uint8", 0, 2, 1, false}}},
	{189, "IsrLocation", true, 246, 16, 16, false, nil, []Field{{"Latitude", "float32", 0, 0, 4, false}, {"Longitude", "float32", 0, 4, 4, false}, {"Height", "float32", 0, 8, 4, false}, {"Target", "uint8", 0, 12, 1, false}, {"Option1", "uint8", 0, 13, 1, false}, {"Option2", "uint8", 0, 14, 1, false}, {"Option3", "uint8", 0, 15, 1, false}}},
	{191, "VoltSensor", true, 17, 5, 5, false, nil, []Field{{"Voltage", "uint16", 0, 0, 2, false}, {"Reading2", "uint16", 0, 2, 2, false}, {"R2Type", "uint8", 0, 4, 1, false}}},
	{192, "PtzStatus", true, 187, 5, 5, false, nil, []Field{{"Pan", "int16", 0, 0, 2, false}, {"Tilt", "int16", 0, 2, 2, false}, {"Zoom", "uint8", 0, 4, 1, false}}},
	{193, "UavStatus", true, 160, 21, 21, false, nil, []Field{{"Latitude", "float32", 0, 0, 4, false}, {"Longitude", "float32", 0, 4, 4, false}, {"Altitude", "float32", 0, 8, 4, false}, {"Speed", "float32", 0, 12, 4, false}, {"Course", "float32", 0, 16, 4, false}, {"Target", "uint8", 0, 20, 1, false}}},
	{194, "StatusGPS", true, 51, 11, 11, false, nil, []Field{{"Magvar", "float32", 0, 0, 4, false}, {"Csfails", "uint16", 0, 4, 2, false}, {"GPSquality", "uint8", 0, 6, 1, false}, {"Msgstype", "uint8", 0, 7, 1, false}, {"Posstatus", "uint8", 0, 8, 1, false}, {"Magdir", "int8", 0, 9, 1, false}, {"Modeind", "uint8", 0, 10, 1, false}}},
	{195, "NovatelDiag", true, 59, 14, 14, false, nil, []Field{{"Receiverstatus", "uint32", 0, 0, 4, false}, {"Possolage", "float32", 0, 4, 4, false}, {"Csfails", "uint16", 0, 8, 2, false}, {"Timestatus", "uint8", 0, 10, 1, false}, {"Solstatus", "uint8", 0, 11, 1, false}, {"Postype", "uint8", 0, 12, 1, false}, {"Veltype", "uint8", 0, 13, 1, false}}},
	{196, "SensorDiag", true, 129, 11, 11, false, nil, []Field{{"Float1", "float32", 0, 0, 4, false}, {"Float2", "float32", 0, 4, 4, false}, {"Int1", "int16", 0, 8, 2, false}, {"Char1", "int8", 0, 10, 1, false}}},
	{197, "Boot", true, 39, 4, 4, false, nil, []Field{{"Version", "uint32", 0, 0, 4, false}}},
}

var d_uavionix = []Msg{
	{10001, "UavionixAdsbOutCfg", true, 209, 20, 20, false, []string{"Callsign"}, []Field{{"Icao", "uint32", 0, 0, 4, false}, {"Stallspeed", "uint16", 0, 4, 2, false}, {"Callsign", "byte", 9, 6, 1, false}, {"Emittertype", "uint8", 0, 15, 1, false}, {"AiRCraftsize", "uint8", 0, 16, 1, false}, {"GPSoffsetlat", "uint8", 0, 17, 1, false}, {"GPSoffsetlon", "uint8", 0, 18, 1, false}, {"Rfselect", "uint8", 0, 19, 1, false}}},
	{10002, "UavionixAdsbOutDynamic", true, 186, 41, 41, false, nil, []Field{{"Utctime", "uint32", 0, 0, 4, false}, {"GPSlat", "int32", 0, 4, 4, false}, {"GPSlon", "int32", 0, 8, 4, false}, {"GPSalt", "int32", 0, 12, 4, false}, {"Baroaltmsl", "int32", 0, 16, 4, false}, {"Accuracyhor", "uint32", 0, 20, 4, false}, {"Accuracyvert", "uint16", 0, 24, 2, false}, {"Accuracyvel", "uint16", 0, 26, 2, false}, {"Velvert", "int16", 0, 28, 2, false}, {"Velns", "int16", 0, 30, 2, false}, {"Velew", "int16", 0, 32, 2, false}, {"State", "uint16", 0, 34, 2, false}, {"Squawk", "uint16", 0, 36, 2, false}, {"GPSfix", "uint8", 0, 38, 1, false}, {"Numsats", "uint8", 0, 39, 1, false}, {"Emergencystatus", "uint8", 0, 40, 1, false}}},
	{10003, "UavionixAdsbTransceiverHealthReport", true, 4, 1, 1, false, nil, []Field{{"Rfhealth", "uint8", 0, 0, 1, false}}},
}

var d_ualberta = []Msg{
	{220, "NAVFilterBias", true, 34, 32, 32, false, nil, []Field{{"Usec", "uint64", 0, 0, 8, false}, {"Accel0", "float32", 0, 8, 4, false}, {"Accel1", "float32", 0, 12, 4, false}, {"Accel2", "float32", 0, 16, 4, false}, {"Gyro0", "float32", 0, 20, 4, false}, {"Gyro1", "float32", 0, 24, 4, false}, {"Gyro2", "float32", 0, 28, 4, false}}},
	{221, "RadioCalibration", true, 71, 42, 42, false, nil, []Field{{"Aileron", "uint16", 3, 0, 2, false}, {"Elevator", "uint16", 3, 6, 2, false}, {"Rudder", "uint16", 3, 12, 2, false}, {"Gyro", "uint16", 2, 18, 2, false}, {"Pitch", "uint16", 5, 22, 2, false}, {"Throttle", "uint16", 5, 32, 2, false}}},
	{222, "UalbertaSysStatus", true, 15, 3, 3, false, nil, []Field{{"Mode", "uint8", 0, 0, 1, false}, {"NAVMode", "uint8", 0, 1, 1, false}, {"Pilot", "uint8", 0, 2, 1, false}}},
}

// All lists the dialects.
var All = []Dialect{
	{"ardupilotmega", "ardupilotmega", d_ardupilotmega},
	{"asluav", "asluav", d_asluav},
	{"autoquad", "autoquad", d_autoquad},
	{"common", "common", d_common},
	{"icarous", "icarous", d_icarous},
	{"matrixpilot", "matrixpilot", d_matrixpilot},
	{"paparazzi", "paparazzi", d_paparazzi},
	{"slugs", "slugs", d_slugs},
	{"uAvionix", "uavionix", d_uavionix},
	{"ualberta", "ualberta", d_ualberta},
}
