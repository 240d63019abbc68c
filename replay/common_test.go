package verifreplay

import (
	"reflect"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

type act struct {
	name string
	cp   bool // sent by the charge point
	req  messages.Request
	resp messages.Response
}

var acts = []act{
	{"Authorize", true, &cpreq.Authorize{}, &cpresp.Authorize{}},
	{"BootNotification", true, &cpreq.BootNotification{}, &cpresp.BootNotification{}},
	{"DiagnosticsStatusNotification", true, &cpreq.DiagnosticsStatusNotification{}, &cpresp.DiagnosticsStatusNotification{}},
	{"FirmwareStatusNotification", true, &cpreq.FirmwareStatusNotification{}, &cpresp.FirmwareStatusNotification{}},
	{"Heartbeat", true, &cpreq.Heartbeat{}, &cpresp.Heartbeat{}},
	{"MeterValues", true, &cpreq.MeterValues{}, &cpresp.MeterValues{}},
	{"StartTransaction", true, &cpreq.StartTransaction{}, &cpresp.StartTransaction{}},
	{"StatusNotification", true, &cpreq.StatusNotification{}, &cpresp.StatusNotification{}},
	{"StopTransaction", true, &cpreq.StopTransaction{}, &cpresp.StopTransaction{}},
	{"DataTransfer", true, &cpreq.DataTransfer{}, &cpresp.DataTransfer{}},
	{"CancelReservation", false, &csreq.CancelReservation{}, &csresp.CancelReservation{}},
	{"ChangeAvailability", false, &csreq.ChangeAvailability{}, &csresp.ChangeAvailability{}},
	{"ChangeConfiguration", false, &csreq.ChangeConfiguration{}, &csresp.ChangeConfiguration{}},
	{"ClearCache", false, &csreq.ClearCache{}, &csresp.ClearCache{}},
	{"ClearChargingProfile", false, &csreq.ClearChargingProfile{}, &csresp.ClearChargingProfile{}},
	{"GetCompositeSchedule", false, &csreq.GetCompositeSchedule{}, &csresp.GetCompositeSchedule{}},
	{"GetConfiguration", false, &csreq.GetConfiguration{}, &csresp.GetConfiguration{}},
	{"GetDiagnostics", false, &csreq.GetDiagnostics{}, &csresp.GetDiagnostics{}},
	{"GetLocalListVersion", false, &csreq.GetLocalListVersion{}, &csresp.GetLocalListVersion{}},
	{"RemoteStartTransaction", false, &csreq.RemoteStartTransaction{}, &csresp.RemoteStartTransaction{}},
	{"RemoteStopTransaction", false, &csreq.RemoteStopTransaction{}, &csresp.RemoteStopTransaction{}},
	{"ReserveNow", false, &csreq.ReserveNow{}, &csresp.ReserveNow{}},
	{"Reset", false, &csreq.Reset{}, &csresp.Reset{}},
	{"SendLocalList", false, &csreq.SendLocalList{}, &csresp.SendLocalList{}},
	{"SetChargingProfile", false, &csreq.SetChargingProfile{}, &csresp.SetChargingProfile{}},
	{"TriggerMessage", false, &csreq.TriggerMessage{}, &csresp.TriggerMessage{}},
	{"UnlockConnector", false, &csreq.UnlockConnector{}, &csresp.UnlockConnector{}},
	{"UpdateFirmware", false, &csreq.UpdateFirmware{}, &csresp.UpdateFirmware{}},
	{"DataTransfer", false, &csreq.DataTransfer{}, &csresp.DataTransfer{}},
}

func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// fresh: x is a new zero value of the type of want
func fresh(x, want interface{}) bool {
	return x != nil && reflect.TypeOf(x) == reflect.TypeOf(want) && !isNil(x) &&
		reflect.DeepEqual(reflect.ValueOf(x).Elem().Interface(), reflect.Zero(reflect.TypeOf(want).Elem()).Interface())
}

// fill sets every settable field of a value to something that is not zero
func fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if depth > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem(), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(v.Field(i), depth-1)
			}
		}
	case reflect.String:
		v.SetString("x")
	case reflect.Int, reflect.Int32, reflect.Int64:
		v.SetInt(7)
	case reflect.Float64, reflect.Float32:
		v.SetFloat(7)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		if depth > 0 {
			fill(v.Index(0), depth-1)
		}
	}
}
