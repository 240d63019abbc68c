// Code generated by tools/mkxml.py; DO NOT EDIT.

package verifreplay

import (
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// the messages of the OCPP 1.5 services
var xmlElems = []xmlElem{
	{"urn://Ocpp/Cs/2012/06/", "authorizeRequest", &cpreq.Authorize{}},
	{"urn://Ocpp/Cs/2012/06/", "authorizeResponse", &cpresp.Authorize{}},
	{"urn://Ocpp/Cs/2012/06/", "startTransactionRequest", &cpreq.StartTransaction{}},
	{"urn://Ocpp/Cs/2012/06/", "startTransactionResponse", &cpresp.StartTransaction{}},
	{"urn://Ocpp/Cs/2012/06/", "stopTransactionRequest", &cpreq.StopTransaction{}},
	{"urn://Ocpp/Cs/2012/06/", "stopTransactionResponse", &cpresp.StopTransaction{}},
	{"urn://Ocpp/Cs/2012/06/", "heartbeatRequest", &cpreq.Heartbeat{}},
	{"urn://Ocpp/Cs/2012/06/", "heartbeatResponse", &cpresp.Heartbeat{}},
	{"urn://Ocpp/Cs/2012/06/", "meterValuesRequest", &cpreq.MeterValues{}},
	{"urn://Ocpp/Cs/2012/06/", "meterValuesResponse", &cpresp.MeterValues{}},
	{"urn://Ocpp/Cs/2012/06/", "bootNotificationRequest", &cpreq.BootNotification{}},
	{"urn://Ocpp/Cs/2012/06/", "bootNotificationResponse", &cpresp.BootNotification{}},
	{"urn://Ocpp/Cs/2012/06/", "statusNotificationRequest", &cpreq.StatusNotification{}},
	{"urn://Ocpp/Cs/2012/06/", "statusNotificationResponse", &cpresp.StatusNotification{}},
	{"urn://Ocpp/Cs/2012/06/", "firmwareStatusNotificationRequest", &cpreq.FirmwareStatusNotification{}},
	{"urn://Ocpp/Cs/2012/06/", "firmwareStatusNotificationResponse", &cpresp.FirmwareStatusNotification{}},
	{"urn://Ocpp/Cs/2012/06/", "diagnosticsStatusNotificationRequest", &cpreq.DiagnosticsStatusNotification{}},
	{"urn://Ocpp/Cs/2012/06/", "diagnosticsStatusNotificationResponse", &cpresp.DiagnosticsStatusNotification{}},
	{"urn://Ocpp/Cs/2012/06/", "dataTransferRequest", &cpreq.DataTransfer{}},
	{"urn://Ocpp/Cs/2012/06/", "dataTransferResponse", &cpresp.DataTransfer{}},
	{"urn://Ocpp/Cp/2012/06/", "unlockConnectorRequest", &csreq.UnlockConnector{}},
	{"urn://Ocpp/Cp/2012/06/", "unlockConnectorResponse", &csresp.UnlockConnector{}},
	{"urn://Ocpp/Cp/2012/06/", "resetRequest", &csreq.Reset{}},
	{"urn://Ocpp/Cp/2012/06/", "resetResponse", &csresp.Reset{}},
	{"urn://Ocpp/Cp/2012/06/", "changeAvailabilityRequest", &csreq.ChangeAvailability{}},
	{"urn://Ocpp/Cp/2012/06/", "changeAvailabilityResponse", &csresp.ChangeAvailability{}},
	{"urn://Ocpp/Cp/2012/06/", "getDiagnosticsRequest", &csreq.GetDiagnostics{}},
	{"urn://Ocpp/Cp/2012/06/", "getDiagnosticsResponse", &csresp.GetDiagnostics{}},
	{"urn://Ocpp/Cp/2012/06/", "clearCacheRequest", &csreq.ClearCache{}},
	{"urn://Ocpp/Cp/2012/06/", "clearCacheResponse", &csresp.ClearCache{}},
	{"urn://Ocpp/Cp/2012/06/", "updateFirmwareRequest", &csreq.UpdateFirmware{}},
	{"urn://Ocpp/Cp/2012/06/", "updateFirmwareResponse", &csresp.UpdateFirmware{}},
	{"urn://Ocpp/Cp/2012/06/", "changeConfigurationRequest", &csreq.ChangeConfiguration{}},
	{"urn://Ocpp/Cp/2012/06/", "changeConfigurationResponse", &csresp.ChangeConfiguration{}},
	{"urn://Ocpp/Cp/2012/06/", "remoteStartTransactionRequest", &csreq.RemoteStartTransaction{}},
	{"urn://Ocpp/Cp/2012/06/", "remoteStartTransactionResponse", &csresp.RemoteStartTransaction{}},
	{"urn://Ocpp/Cp/2012/06/", "remoteStopTransactionRequest", &csreq.RemoteStopTransaction{}},
	{"urn://Ocpp/Cp/2012/06/", "remoteStopTransactionResponse", &csresp.RemoteStopTransaction{}},
	{"urn://Ocpp/Cp/2012/06/", "cancelReservationRequest", &csreq.CancelReservation{}},
	{"urn://Ocpp/Cp/2012/06/", "cancelReservationResponse", &csresp.CancelReservation{}},
	{"urn://Ocpp/Cp/2012/06/", "dataTransferRequest", &csreq.DataTransfer{}},
	{"urn://Ocpp/Cp/2012/06/", "dataTransferResponse", &csresp.DataTransfer{}},
	{"urn://Ocpp/Cp/2012/06/", "getConfigurationRequest", &csreq.GetConfiguration{}},
	{"urn://Ocpp/Cp/2012/06/", "getConfigurationResponse", &csresp.GetConfiguration{}},
	{"urn://Ocpp/Cp/2012/06/", "getLocalListVersionRequest", &csreq.GetLocalListVersion{}},
	{"urn://Ocpp/Cp/2012/06/", "getLocalListVersionResponse", &csresp.GetLocalListVersion{}},
	{"urn://Ocpp/Cp/2012/06/", "reserveNowRequest", &csreq.ReserveNow{}},
	{"urn://Ocpp/Cp/2012/06/", "reserveNowResponse", &csresp.ReserveNow{}},
	{"urn://Ocpp/Cp/2012/06/", "sendLocalListRequest", &csreq.SendLocalList{}},
	{"urn://Ocpp/Cp/2012/06/", "sendLocalListResponse", &csresp.SendLocalList{}},
}

// how their fields are written
var xmlRows = []xmlRow{
	{cpreq.Authorize{}, "IdTag", "element", "idTag", true},
	{cpresp.Authorize{}, "IdTagInfo", "element", "idTagInfo", true},
	{cpreq.StartTransaction{}, "ConnectorId", "element", "connectorId", true},
	{cpreq.StartTransaction{}, "IdTag", "element", "idTag", true},
	{cpreq.StartTransaction{}, "Timestamp", "element", "timestamp", true},
	{cpreq.StartTransaction{}, "MeterStart", "element", "meterStart", true},
	{cpreq.StartTransaction{}, "ReservationId", "element", "reservationId", false},
	{cpresp.StartTransaction{}, "TransactionId", "element", "transactionId", true},
	{cpresp.StartTransaction{}, "IdTagInfo", "element", "idTagInfo", true},
	{cpreq.StopTransaction{}, "TransactionId", "element", "transactionId", true},
	{cpreq.StopTransaction{}, "IdTag", "element", "idTag", false},
	{cpreq.StopTransaction{}, "Timestamp", "element", "timestamp", true},
	{cpreq.StopTransaction{}, "MeterStop", "element", "meterStop", true},
	{cpreq.StopTransaction{}, "TransactionData", "path", "transactionData>values", false},
	{cpresp.StopTransaction{}, "IdTagInfo", "element", "idTagInfo", false},
	{cpresp.Heartbeat{}, "CurrentTime", "element", "currentTime", true},
	{cpreq.MeterValues{}, "ConnectorId", "element", "connectorId", true},
	{cpreq.MeterValues{}, "TransactionId", "element", "transactionId", false},
	{cpreq.MeterValues{}, "MeterValue", "element", "values", false},
	{cpreq.BootNotification{}, "ChargePointVendor", "element", "chargePointVendor", true},
	{cpreq.BootNotification{}, "ChargePointModel", "element", "chargePointModel", true},
	{cpreq.BootNotification{}, "ChargePointSerialNumber", "element", "chargePointSerialNumber", false},
	{cpreq.BootNotification{}, "ChargeBoxSerialNumber", "element", "chargeBoxSerialNumber", false},
	{cpreq.BootNotification{}, "FirmwareVersion", "element", "firmwareVersion", false},
	{cpreq.BootNotification{}, "Iccid", "element", "iccid", false},
	{cpreq.BootNotification{}, "Imsi", "element", "imsi", false},
	{cpreq.BootNotification{}, "MeterType", "element", "meterType", false},
	{cpreq.BootNotification{}, "MeterSerialNumber", "element", "meterSerialNumber", false},
	{cpresp.BootNotification{}, "Status", "element", "status", true},
	{cpresp.BootNotification{}, "CurrentTime", "element", "currentTime", true},
	{cpresp.BootNotification{}, "Interval", "element", "heartbeatInterval", true},
	{cpreq.StatusNotification{}, "ConnectorId", "element", "connectorId", true},
	{cpreq.StatusNotification{}, "Status", "element", "status", true},
	{cpreq.StatusNotification{}, "ErrorCode", "element", "errorCode", true},
	{cpreq.StatusNotification{}, "Info", "element", "info", false},
	{cpreq.StatusNotification{}, "Timestamp", "element", "timestamp", false},
	{cpreq.StatusNotification{}, "VendorId", "element", "vendorId", false},
	{cpreq.StatusNotification{}, "VendorErrorCode", "element", "vendorErrorCode", false},
	{cpreq.FirmwareStatusNotification{}, "Status", "element", "status", true},
	{cpreq.DiagnosticsStatusNotification{}, "Status", "element", "status", true},
	{cpreq.DataTransfer{}, "VendorId", "element", "vendorId", true},
	{cpreq.DataTransfer{}, "MessageId", "element", "messageId", false},
	{cpreq.DataTransfer{}, "Data", "element", "data", false},
	{cpresp.DataTransfer{}, "Status", "element", "status", true},
	{cpresp.DataTransfer{}, "Data", "element", "data", false},
	{cpresp.IdTagInfo{}, "Status", "element", "status", true},
	{cpresp.IdTagInfo{}, "ExpiryDate", "element", "expiryDate", false},
	{cpresp.IdTagInfo{}, "ParentIdTag", "element", "parentIdTag", false},
	{cpreq.MeterValueItems{}, "Timestamp", "element", "timestamp", true},
	{cpreq.MeterValueItems{}, "SampledValues", "element", "value", true},
	{cpreq.SampledValue{}, "Value", "chardata", "-", true},
	{cpreq.SampledValue{}, "Context", "attr", "context", false},
	{cpreq.SampledValue{}, "Format", "attr", "format", false},
	{cpreq.SampledValue{}, "Measurand", "attr", "measurand", false},
	{cpreq.SampledValue{}, "Location", "attr", "location", false},
	{cpreq.SampledValue{}, "Unit", "attr", "unit", false},
	{cpreq.TransactionDataItems{}, "Timestamp", "element", "timestamp", true},
	{cpreq.TransactionDataItems{}, "SampledValues", "element", "value", true},
	{csreq.UnlockConnector{}, "ConnectorId", "element", "connectorId", true},
	{csresp.UnlockConnector{}, "Status", "element", "status", true},
	{csreq.Reset{}, "Type", "element", "type", true},
	{csresp.Reset{}, "Status", "element", "status", true},
	{csreq.ChangeAvailability{}, "ConnectorId", "element", "connectorId", true},
	{csreq.ChangeAvailability{}, "Type", "element", "type", true},
	{csresp.ChangeAvailability{}, "Status", "element", "status", true},
	{csreq.GetDiagnostics{}, "Location", "element", "location", true},
	{csreq.GetDiagnostics{}, "StartTime", "element", "startTime", false},
	{csreq.GetDiagnostics{}, "StopTime", "element", "stopTime", false},
	{csreq.GetDiagnostics{}, "Retries", "element", "retries", false},
	{csreq.GetDiagnostics{}, "RetryInterval", "element", "retryInterval", false},
	{csresp.GetDiagnostics{}, "FileName", "element", "fileName", false},
	{csresp.ClearCache{}, "Status", "element", "status", true},
	{csreq.UpdateFirmware{}, "RetrieveDate", "element", "retrieveDate", true},
	{csreq.UpdateFirmware{}, "Location", "element", "location", true},
	{csreq.UpdateFirmware{}, "Retries", "element", "retries", false},
	{csreq.UpdateFirmware{}, "RetryInterval", "element", "retryInterval", false},
	{csreq.ChangeConfiguration{}, "Key", "element", "key", true},
	{csreq.ChangeConfiguration{}, "Value", "element", "value", true},
	{csresp.ChangeConfiguration{}, "Status", "element", "status", true},
	{csreq.RemoteStartTransaction{}, "IdTag", "element", "idTag", true},
	{csreq.RemoteStartTransaction{}, "ConnectorId", "element", "connectorId", false},
	{csresp.RemoteStartTransaction{}, "Status", "element", "status", true},
	{csreq.RemoteStopTransaction{}, "TransactionId", "element", "transactionId", true},
	{csresp.RemoteStopTransaction{}, "Status", "element", "status", true},
	{csreq.CancelReservation{}, "ReservationId", "element", "reservationId", true},
	{csresp.CancelReservation{}, "Status", "element", "status", true},
	{csreq.DataTransfer{}, "VendorId", "element", "vendorId", true},
	{csreq.DataTransfer{}, "MessageId", "element", "messageId", false},
	{csreq.DataTransfer{}, "Data", "element", "data", false},
	{csresp.DataTransfer{}, "Status", "element", "status", true},
	{csresp.DataTransfer{}, "Data", "element", "data", false},
	{csreq.GetConfiguration{}, "Key", "element", "key", false},
	{csresp.GetConfiguration{}, "ConfigurationKey", "element", "configurationKey", false},
	{csresp.GetConfiguration{}, "UnknownKey", "element", "unknownKey", false},
	{csresp.GetLocalListVersion{}, "ListVersion", "element", "listVersion", true},
	{csreq.ReserveNow{}, "ConnectorId", "element", "connectorId", true},
	{csreq.ReserveNow{}, "ExpiryDate", "element", "expiryDate", true},
	{csreq.ReserveNow{}, "IdTag", "element", "idTag", true},
	{csreq.ReserveNow{}, "ParentIdTag", "element", "parentIdTag", false},
	{csreq.ReserveNow{}, "ReservationId", "element", "reservationId", true},
	{csresp.ReserveNow{}, "Status", "element", "status", true},
	{csreq.SendLocalList{}, "UpdateType", "element", "updateType", true},
	{csreq.SendLocalList{}, "ListVersion", "element", "listVersion", true},
	{csreq.SendLocalList{}, "LocalAuthorizationList", "element", "localAuthorisationList", false},
	{csresp.SendLocalList{}, "Status", "element", "status", true},
	{csreq.IdTagInfo{}, "Status", "element", "status", true},
	{csreq.IdTagInfo{}, "ExpiryDate", "element", "expiryDate", false},
	{csreq.IdTagInfo{}, "ParentIdTag", "element", "parentIdTag", false},
	{csresp.ConfigurationKeyItems{}, "Key", "element", "key", true},
	{csresp.ConfigurationKeyItems{}, "Readonly", "element", "readonly", true},
	{csresp.ConfigurationKeyItems{}, "Value", "element", "value", false},
	{csreq.LocalAuthorizationListItems{}, "IdTag", "element", "idTag", true},
	{csreq.LocalAuthorizationListItems{}, "IdTagInfo", "element", "idTagInfo", false},
}
