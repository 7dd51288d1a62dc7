//go:build go1.21

package c12

import mavlink2 "github.com/botlink/go-mavlink2"

// accessors finds the setter and the getter of a text field.
func accessors(msg mavlink2.Message, field string) (set func(string) error, get func() string) {
	switch field {
	case "Busname":
		if t, ok := msg.(interface{ SetBusname(string) error }); ok {
			set = t.SetBusname
		}
		if t, ok := msg.(interface{ GetBusname() string }); ok {
			get = t.GetBusname
		}
	case "Callsign":
		if t, ok := msg.(interface{ SetCallsign(string) error }); ok {
			set = t.SetCallsign
		}
		if t, ok := msg.(interface{ GetCallsign() string }); ok {
			get = t.GetCallsign
		}
	case "CamDefinitionURI":
		if t, ok := msg.(interface{ SetCamDefinitionURI(string) error }); ok {
			set = t.SetCamDefinitionURI
		}
		if t, ok := msg.(interface{ GetCamDefinitionURI() string }); ok {
			get = t.GetCamDefinitionURI
		}
	case "ComponentDefinitionURI":
		if t, ok := msg.(interface{ SetComponentDefinitionURI(string) error }); ok {
			set = t.SetComponentDefinitionURI
		}
		if t, ok := msg.(interface{ GetComponentDefinitionURI() string }); ok {
			get = t.GetComponentDefinitionURI
		}
	case "Description":
		if t, ok := msg.(interface{ SetDescription(string) error }); ok {
			set = t.SetDescription
		}
		if t, ok := msg.(interface{ GetDescription() string }); ok {
			get = t.GetDescription
		}
	case "DeviceName":
		if t, ok := msg.(interface{ SetDeviceName(string) error }); ok {
			set = t.SetDeviceName
		}
		if t, ok := msg.(interface{ GetDeviceName() string }); ok {
			get = t.GetDeviceName
		}
	case "FileURL":
		if t, ok := msg.(interface{ SetFileURL(string) error }); ok {
			set = t.SetFileURL
		}
		if t, ok := msg.(interface{ GetFileURL() string }); ok {
			get = t.GetFileURL
		}
	case "Key":
		if t, ok := msg.(interface{ SetKey(string) error }); ok {
			set = t.SetKey
		}
		if t, ok := msg.(interface{ GetKey() string }); ok {
			get = t.GetKey
		}
	case "Name":
		if t, ok := msg.(interface{ SetName(string) error }); ok {
			set = t.SetName
		}
		if t, ok := msg.(interface{ GetName() string }); ok {
			get = t.GetName
		}
	case "OperatorID":
		if t, ok := msg.(interface{ SetOperatorID(string) error }); ok {
			set = t.SetOperatorID
		}
		if t, ok := msg.(interface{ GetOperatorID() string }); ok {
			get = t.GetOperatorID
		}
	case "ParamID":
		if t, ok := msg.(interface{ SetParamID(string) error }); ok {
			set = t.SetParamID
		}
		if t, ok := msg.(interface{ GetParamID() string }); ok {
			get = t.GetParamID
		}
	case "ParamValue":
		if t, ok := msg.(interface{ SetParamValue(string) error }); ok {
			set = t.SetParamValue
		}
		if t, ok := msg.(interface{ GetParamValue() string }); ok {
			get = t.GetParamValue
		}
	case "Passkey":
		if t, ok := msg.(interface{ SetPasskey(string) error }); ok {
			set = t.SetPasskey
		}
		if t, ok := msg.(interface{ GetPasskey() string }); ok {
			get = t.GetPasskey
		}
	case "Password":
		if t, ok := msg.(interface{ SetPassword(string) error }); ok {
			set = t.SetPassword
		}
		if t, ok := msg.(interface{ GetPassword() string }); ok {
			get = t.GetPassword
		}
	case "SsID":
		if t, ok := msg.(interface{ SetSsID(string) error }); ok {
			set = t.SetSsID
		}
		if t, ok := msg.(interface{ GetSsID() string }); ok {
			get = t.GetSsID
		}
	case "Text":
		if t, ok := msg.(interface{ SetText(string) error }); ok {
			set = t.SetText
		}
		if t, ok := msg.(interface{ GetText() string }); ok {
			get = t.GetText
		}
	case "Tune":
		if t, ok := msg.(interface{ SetTune(string) error }); ok {
			set = t.SetTune
		}
		if t, ok := msg.(interface{ GetTune() string }); ok {
			get = t.GetTune
		}
	case "Tune2":
		if t, ok := msg.(interface{ SetTune2(string) error }); ok {
			set = t.SetTune2
		}
		if t, ok := msg.(interface{ GetTune2() string }); ok {
			get = t.GetTune2
		}
	case "URI":
		if t, ok := msg.(interface{ SetURI(string) error }); ok {
			set = t.SetURI
		}
		if t, ok := msg.(interface{ GetURI() string }); ok {
			get = t.GetURI
		}
	}
	return
}
