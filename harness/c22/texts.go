//go:build go1.21

package c22

import mavlink2 "github.com/botlink/go-mavlink2"

// texts lists the text accessors the message has.
func texts(msg mavlink2.Message) []func() string {
	var out []func() string
	if t, ok := msg.(interface{ GetBusname() string }); ok {
		out = append(out, t.GetBusname)
	}
	if t, ok := msg.(interface{ GetCallsign() string }); ok {
		out = append(out, t.GetCallsign)
	}
	if t, ok := msg.(interface{ GetCamDefinitionURI() string }); ok {
		out = append(out, t.GetCamDefinitionURI)
	}
	if t, ok := msg.(interface{ GetComponentDefinitionURI() string }); ok {
		out = append(out, t.GetComponentDefinitionURI)
	}
	if t, ok := msg.(interface{ GetDescription() string }); ok {
		out = append(out, t.GetDescription)
	}
	if t, ok := msg.(interface{ GetDeviceName() string }); ok {
		out = append(out, t.GetDeviceName)
	}
	if t, ok := msg.(interface{ GetFileURL() string }); ok {
		out = append(out, t.GetFileURL)
	}
	if t, ok := msg.(interface{ GetKey() string }); ok {
		out = append(out, t.GetKey)
	}
	if t, ok := msg.(interface{ GetName() string }); ok {
		out = append(out, t.GetName)
	}
	if t, ok := msg.(interface{ GetOperatorID() string }); ok {
		out = append(out, t.GetOperatorID)
	}
	if t, ok := msg.(interface{ GetParamID() string }); ok {
		out = append(out, t.GetParamID)
	}
	if t, ok := msg.(interface{ GetParamValue() string }); ok {
		out = append(out, t.GetParamValue)
	}
	if t, ok := msg.(interface{ GetPasskey() string }); ok {
		out = append(out, t.GetPasskey)
	}
	if t, ok := msg.(interface{ GetPassword() string }); ok {
		out = append(out, t.GetPassword)
	}
	if t, ok := msg.(interface{ GetSsID() string }); ok {
		out = append(out, t.GetSsID)
	}
	if t, ok := msg.(interface{ GetText() string }); ok {
		out = append(out, t.GetText)
	}
	if t, ok := msg.(interface{ GetTune() string }); ok {
		out = append(out, t.GetTune)
	}
	if t, ok := msg.(interface{ GetTune2() string }); ok {
		out = append(out, t.GetTune2)
	}
	if t, ok := msg.(interface{ GetURI() string }); ok {
		out = append(out, t.GetURI)
	}
	return out
}
