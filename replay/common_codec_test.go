// generated by tools/mkcodec.py from the OCPP 1.6 JSON schemas
package verifreplay

import (
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

type prop struct {
	name, kind string
	required   bool
	field      string
}

type codec struct {
	new    func() interface{}
	strict bool
	props  []prop
}

var codecs = []codec{
	{func() interface{} { return &cpreq.Authorize{} }, true, []prop{
		{"idTag", "str", true, "IdTag"},
	}},
	{func() interface{} { return &cpreq.BootNotification{} }, true, []prop{
		{"chargeBoxSerialNumber", "str", false, "ChargeBoxSerialNumber"},
		{"chargePointModel", "str", true, "ChargePointModel"},
		{"chargePointSerialNumber", "str", false, "ChargePointSerialNumber"},
		{"chargePointVendor", "str", true, "ChargePointVendor"},
		{"firmwareVersion", "str", false, "FirmwareVersion"},
		{"iccid", "str", false, "Iccid"},
		{"imsi", "str", false, "Imsi"},
		{"meterSerialNumber", "str", false, "MeterSerialNumber"},
		{"meterType", "str", false, "MeterType"},
	}},
	{func() interface{} { return &cpreq.DataTransfer{} }, true, []prop{
		{"data", "str", false, "Data"},
		{"messageId", "str", false, "MessageId"},
		{"vendorId", "str", true, "VendorId"},
	}},
	{func() interface{} { return &cpreq.DiagnosticsStatusNotification{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &cpreq.FirmwareStatusNotification{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &cpreq.Heartbeat{} }, true, []prop{}},
	{func() interface{} { return &cpreq.MeterValueItems{} }, false, []prop{
		{"sampledValue", "arr", true, "SampledValues"},
		{"timestamp", "time", true, "Timestamp"},
	}},
	{func() interface{} { return &cpreq.MeterValues{} }, true, []prop{
		{"connectorId", "num", true, "ConnectorId"},
		{"meterValue", "arr", true, "MeterValue"},
		{"transactionId", "num", false, "TransactionId"},
	}},
	{func() interface{} { return &cpreq.SampledValue{} }, false, []prop{
		{"context", "str", false, "Context"},
		{"format", "str", false, "Format"},
		{"location", "str", false, "Location"},
		{"measurand", "str", false, "Measurand"},
		{"phase", "str", false, "Phase"},
		{"unit", "str", false, "Unit"},
		{"value", "str", true, "Value"},
	}},
	{func() interface{} { return &cpreq.StartTransaction{} }, true, []prop{
		{"connectorId", "num", true, "ConnectorId"},
		{"idTag", "str", true, "IdTag"},
		{"meterStart", "num", true, "MeterStart"},
		{"reservationId", "num", false, "ReservationId"},
		{"timestamp", "time", true, "Timestamp"},
	}},
	{func() interface{} { return &cpreq.StatusNotification{} }, true, []prop{
		{"connectorId", "num", true, "ConnectorId"},
		{"errorCode", "str", true, "ErrorCode"},
		{"info", "str", false, "Info"},
		{"status", "str", true, "Status"},
		{"timestamp", "time", false, "Timestamp"},
		{"vendorErrorCode", "str", false, "VendorErrorCode"},
		{"vendorId", "str", false, "VendorId"},
	}},
	{func() interface{} { return &cpreq.StopTransaction{} }, true, []prop{
		{"idTag", "str", false, "IdTag"},
		{"meterStop", "num", true, "MeterStop"},
		{"reason", "str", false, "Reason"},
		{"timestamp", "time", true, "Timestamp"},
		{"transactionData", "arr", false, "TransactionData"},
		{"transactionId", "num", true, "TransactionId"},
	}},
	{func() interface{} { return &cpreq.TransactionDataItems{} }, false, []prop{
		{"sampledValue", "arr", true, "SampledValues"},
		{"timestamp", "time", true, "Timestamp"},
	}},
	{func() interface{} { return &cpresp.Authorize{} }, true, []prop{
		{"idTagInfo", "obj", true, "IdTagInfo"},
	}},
	{func() interface{} { return &cpresp.BootNotification{} }, true, []prop{
		{"currentTime", "time", true, "CurrentTime"},
		{"interval", "num", true, "Interval"},
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &cpresp.DataTransfer{} }, true, []prop{
		{"data", "str", false, "Data"},
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &cpresp.DiagnosticsStatusNotification{} }, true, []prop{}},
	{func() interface{} { return &cpresp.FirmwareStatusNotification{} }, true, []prop{}},
	{func() interface{} { return &cpresp.Heartbeat{} }, true, []prop{
		{"currentTime", "time", true, "CurrentTime"},
	}},
	{func() interface{} { return &cpresp.IdTagInfo{} }, false, []prop{
		{"expiryDate", "time", false, "ExpiryDate"},
		{"parentIdTag", "str", false, "ParentIdTag"},
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &cpresp.MeterValues{} }, true, []prop{}},
	{func() interface{} { return &cpresp.StartTransaction{} }, true, []prop{
		{"idTagInfo", "obj", true, "IdTagInfo"},
		{"transactionId", "num", true, "TransactionId"},
	}},
	{func() interface{} { return &cpresp.StatusNotification{} }, true, []prop{}},
	{func() interface{} { return &cpresp.StopTransaction{} }, true, []prop{
		{"idTagInfo", "obj", false, "IdTagInfo"},
	}},
	{func() interface{} { return &csreq.CancelReservation{} }, true, []prop{
		{"reservationId", "num", true, "ReservationId"},
	}},
	{func() interface{} { return &csreq.ChangeAvailability{} }, true, []prop{
		{"connectorId", "num", true, "ConnectorId"},
		{"type", "str", true, "Type"},
	}},
	{func() interface{} { return &csreq.ChangeConfiguration{} }, true, []prop{
		{"key", "str", true, "Key"},
		{"value", "str", true, "Value"},
	}},
	{func() interface{} { return &csreq.ChargingProfile{} }, false, []prop{
		{"chargingProfileId", "num", true, "ChargingProfileId"},
		{"chargingProfileKind", "str", true, "ChargingProfileKind"},
		{"chargingProfilePurpose", "str", true, "ChargingProfilePurpose"},
		{"chargingSchedule", "obj", true, "ChargingSchedule"},
		{"recurrencyKind", "str", false, "RecurrencyKind"},
		{"stackLevel", "num", true, "StackLevel"},
		{"transactionId", "num", false, "TransactionId"},
		{"validFrom", "time", false, "ValidFrom"},
		{"validTo", "time", false, "ValidTo"},
	}},
	{func() interface{} { return &csreq.ChargingSchedule{} }, false, []prop{
		{"chargingRateUnit", "str", true, "ChargingRateUnit"},
		{"chargingSchedulePeriod", "arr", true, "ChargingSchedulePeriod"},
		{"duration", "num", false, "Duration"},
		{"minChargingRate", "num", false, "MinChargingRate"},
		{"startSchedule", "time", false, "StartSchedule"},
	}},
	{func() interface{} { return &csreq.ChargingSchedulePeriodItems{} }, false, []prop{
		{"limit", "num", true, "Limit"},
		{"numberPhases", "num", false, "NumberPhases"},
		{"startPeriod", "num", true, "StartPeriod"},
	}},
	{func() interface{} { return &csreq.ClearCache{} }, true, []prop{}},
	{func() interface{} { return &csreq.ClearChargingProfile{} }, true, []prop{
		{"chargingProfilePurpose", "str", false, "ChargingProfilePurpose"},
		{"connectorId", "num", false, "ConnectorId"},
		{"id", "num", false, "Id"},
		{"stackLevel", "num", false, "StackLevel"},
	}},
	{func() interface{} { return &csreq.CsChargingProfiles{} }, false, []prop{
		{"chargingProfileId", "num", true, "ChargingProfileId"},
		{"chargingProfileKind", "str", true, "ChargingProfileKind"},
		{"chargingProfilePurpose", "str", true, "ChargingProfilePurpose"},
		{"chargingSchedule", "obj", true, "ChargingSchedule"},
		{"recurrencyKind", "str", false, "RecurrencyKind"},
		{"stackLevel", "num", true, "StackLevel"},
		{"transactionId", "num", false, "TransactionId"},
		{"validFrom", "time", false, "ValidFrom"},
		{"validTo", "time", false, "ValidTo"},
	}},
	{func() interface{} { return &csreq.DataTransfer{} }, true, []prop{
		{"data", "str", false, "Data"},
		{"messageId", "str", false, "MessageId"},
		{"vendorId", "str", true, "VendorId"},
	}},
	{func() interface{} { return &csreq.GetCompositeSchedule{} }, true, []prop{
		{"chargingRateUnit", "str", false, "ChargingRateUnit"},
		{"connectorId", "num", true, "ConnectorId"},
		{"duration", "num", true, "Duration"},
	}},
	{func() interface{} { return &csreq.GetConfiguration{} }, true, []prop{
		{"key", "arr", false, "Key"},
	}},
	{func() interface{} { return &csreq.GetDiagnostics{} }, true, []prop{
		{"location", "str", true, "Location"},
		{"retries", "num", false, "Retries"},
		{"retryInterval", "num", false, "RetryInterval"},
		{"startTime", "time", false, "StartTime"},
		{"stopTime", "time", false, "StopTime"},
	}},
	{func() interface{} { return &csreq.GetLocalListVersion{} }, true, []prop{}},
	{func() interface{} { return &csreq.IdTagInfo{} }, false, []prop{
		{"expiryDate", "time", false, "ExpiryDate"},
		{"parentIdTag", "str", false, "ParentIdTag"},
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csreq.LocalAuthorizationListItems{} }, false, []prop{
		{"idTag", "str", true, "IdTag"},
		{"idTagInfo", "obj", false, "IdTagInfo"},
	}},
	{func() interface{} { return &csreq.RemoteStartTransaction{} }, true, []prop{
		{"chargingProfile", "obj", false, "ChargingProfile"},
		{"connectorId", "num", false, "ConnectorId"},
		{"idTag", "str", true, "IdTag"},
	}},
	{func() interface{} { return &csreq.RemoteStopTransaction{} }, true, []prop{
		{"transactionId", "num", true, "TransactionId"},
	}},
	{func() interface{} { return &csreq.ReserveNow{} }, true, []prop{
		{"connectorId", "num", true, "ConnectorId"},
		{"expiryDate", "time", true, "ExpiryDate"},
		{"idTag", "str", true, "IdTag"},
		{"parentIdTag", "str", false, "ParentIdTag"},
		{"reservationId", "num", true, "ReservationId"},
	}},
	{func() interface{} { return &csreq.Reset{} }, true, []prop{
		{"type", "str", true, "Type"},
	}},
	{func() interface{} { return &csreq.SendLocalList{} }, true, []prop{
		{"listVersion", "num", true, "ListVersion"},
		{"localAuthorizationList", "arr", false, "LocalAuthorizationList"},
		{"updateType", "str", true, "UpdateType"},
	}},
	{func() interface{} { return &csreq.SetChargingProfile{} }, true, []prop{
		{"connectorId", "num", true, "ConnectorId"},
		{"csChargingProfiles", "obj", true, "CsChargingProfiles"},
	}},
	{func() interface{} { return &csreq.TriggerMessage{} }, true, []prop{
		{"connectorId", "num", false, "ConnectorId"},
		{"requestedMessage", "str", true, "RequestedMessage"},
	}},
	{func() interface{} { return &csreq.UnlockConnector{} }, true, []prop{
		{"connectorId", "num", true, "ConnectorId"},
	}},
	{func() interface{} { return &csreq.UpdateFirmware{} }, true, []prop{
		{"location", "str", true, "Location"},
		{"retries", "num", false, "Retries"},
		{"retrieveDate", "time", true, "RetrieveDate"},
		{"retryInterval", "num", false, "RetryInterval"},
	}},
	{func() interface{} { return &csresp.CancelReservation{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.ChangeAvailability{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.ChangeConfiguration{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.ChargingSchedule{} }, false, []prop{
		{"chargingRateUnit", "str", true, "ChargingRateUnit"},
		{"chargingSchedulePeriod", "arr", true, "ChargingSchedulePeriod"},
		{"duration", "num", false, "Duration"},
		{"minChargingRate", "num", false, "MinChargingRate"},
		{"startSchedule", "time", false, "StartSchedule"},
	}},
	{func() interface{} { return &csresp.ChargingSchedulePeriodItems{} }, false, []prop{
		{"limit", "num", true, "Limit"},
		{"numberPhases", "num", false, "NumberPhases"},
		{"startPeriod", "num", true, "StartPeriod"},
	}},
	{func() interface{} { return &csresp.ClearCache{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.ClearChargingProfile{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.ConfigurationKeyItems{} }, false, []prop{
		{"key", "str", true, "Key"},
		{"readonly", "bool", true, "Readonly"},
		{"value", "str", false, "Value"},
	}},
	{func() interface{} { return &csresp.DataTransfer{} }, true, []prop{
		{"data", "str", false, "Data"},
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.GetCompositeSchedule{} }, true, []prop{
		{"chargingSchedule", "obj", false, "ChargingSchedule"},
		{"connectorId", "num", false, "ConnectorId"},
		{"scheduleStart", "time", false, "ScheduleStart"},
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.GetConfiguration{} }, true, []prop{
		{"configurationKey", "arr", false, "ConfigurationKey"},
		{"unknownKey", "arr", false, "UnknownKey"},
	}},
	{func() interface{} { return &csresp.GetDiagnostics{} }, true, []prop{
		{"fileName", "str", false, "FileName"},
	}},
	{func() interface{} { return &csresp.GetLocalListVersion{} }, true, []prop{
		{"listVersion", "num", true, "ListVersion"},
	}},
	{func() interface{} { return &csresp.RemoteStartTransaction{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.RemoteStopTransaction{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.ReserveNow{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.Reset{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.SendLocalList{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.SetChargingProfile{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.TriggerMessage{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.UnlockConnector{} }, true, []prop{
		{"status", "str", true, "Status"},
	}},
	{func() interface{} { return &csresp.UpdateFirmware{} }, true, []prop{}},
}
