From 332d2401a10e5c59357112b5ebd1f6f17d91cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 01/23] fix: csreq.IdTagInfo JSON: no panic without an expiry
 date, decode every field

---
 messages/v1x/csreq/json_encode.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 924e656..4b360f1 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -823,16 +823,15 @@ func (m *IdTagInfo) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "expiryDate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"expiryDate\": ")
-	if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ExpiryDate != nil {
+		buf.WriteString("\"expiryDate\": ")
+		if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "parentIdTag" field
 	if comma {
 		buf.WriteString(",")
@@ -872,6 +871,14 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 	// parse all the defined properties
 	for k, v := range jsonMap {
 		switch k {
+		case "expiryDate":
+			if err := json.Unmarshal([]byte(v), &m.ExpiryDate); err != nil {
+				return err
+			}
+		case "parentIdTag":
+			if err := json.Unmarshal([]byte(v), &m.ParentIdTag); err != nil {
+				return err
+			}
 		case "status":
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
-- 
2.43.0


From 207e9273b8c7acd6c85fd46cd764c8b1dfffd0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 02/23] fix: malformed struct tags in cpresp.DataTransfer and
 cpresp.StopTransaction

---
 messages/v1x/cpresp/messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 597de5e..933a6ba 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -30,7 +30,7 @@ type DataTransfer struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data, xml:"data,omitempty"omitempty"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status,omitempty"`
 }
 
@@ -87,5 +87,5 @@ type StopTransaction struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionResponse"`
 
-	IdTagInfo *IdTagInfo `json:"idTagInfo, xml:"idTagInfo,omitempty"omitempty"`
+	IdTagInfo *IdTagInfo `json:"idTagInfo,omitempty" xml:"idTagInfo,omitempty"`
 }
-- 
2.43.0


From 5d2b834f0c88531da39e4b49038bc1434aa1e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 03/23] fix: SOAP element names of SendLocalList and
 StopTransaction data as in the OCPP 1.5 WSDL

---
 messages/v1x/cpreq/messages.go | 5 +++--
 messages/v1x/csreq/messages.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 3ad9bb2..c650a4e 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -131,13 +131,14 @@ type StopTransaction struct {
 	MeterStop       int                     `json:"meterStop" xml:"meterStop,omitempty"`
 	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
-	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
+	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData>values,omitempty"`
 	TransactionId   int                     `json:"transactionId" xml:"transactionId,omitempty"`
 }
 
 // TransactionDataItems
 type TransactionDataItems struct {
-	SampledValues []*SampledValue `json:"sampledValue" xml:"sampledValue,omitempty"`
+	// SampledValues in OCPP v1.5 is value
+	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
 	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index b06c35d..e375e82 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -183,7 +183,7 @@ type SendLocalList struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ sendLocalListRequest"`
 
 	ListVersion            int                            `json:"listVersion" xml:"listVersion"`
-	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorizationList,omitempty"`
+	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorisationList,omitempty"`
 	UpdateType             string                         `json:"updateType" xml:"updateType"`
 }
 
-- 
2.43.0


From 762b1d0853f9f6a566afcfd550c4d57fc0b796c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 04/23] fix: write elements the OCPP 1.5 WSDL requires even if
 their value is zero

---
 messages/v1x/cpreq/messages.go  | 30 +++++++++++++++---------------
 messages/v1x/cpresp/messages.go | 10 +++++-----
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index c650a4e..ee5477f 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -14,7 +14,7 @@ type Authorize struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ authorizeRequest"`
 
-	IdTag string `json:"idTag" xml:"idTag,omitempty"`
+	IdTag string `json:"idTag" xml:"idTag"`
 }
 
 // BootNotification
@@ -23,9 +23,9 @@ type BootNotification struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationRequest"`
 
 	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
-	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel,omitempty"`
+	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel"`
 	ChargePointSerialNumber string `json:"chargePointSerialNumber,omitempty" xml:"chargePointSerialNumber,omitempty"`
-	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor,omitempty"`
+	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
 	FirmwareVersion         string `json:"firmwareVersion,omitempty" xml:"firmwareVersion,omitempty"`
 	Iccid                   string `json:"iccid,omitempty" xml:"iccid,omitempty"`
 	Imsi                    string `json:"imsi,omitempty" xml:"imsi,omitempty"`
@@ -40,7 +40,7 @@ type DataTransfer struct {
 
 	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
-	VendorId  string `json:"vendorId" xml:"vendorId,omitempty"`
+	VendorId  string `json:"vendorId" xml:"vendorId"`
 }
 
 // DiagnosticsStatusNotification
@@ -48,7 +48,7 @@ type DiagnosticsStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ diagnosticsStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // FirmwareStatusNotification
@@ -56,7 +56,7 @@ type FirmwareStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ firmwareStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // Heartbeat
@@ -77,7 +77,7 @@ type MeterValues struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ meterValuesRequest"`
 
-	ConnectorId int `json:"connectorId" xml:"connectorId,omitempty"`
+	ConnectorId int `json:"connectorId" xml:"connectorId"`
 	// MeterValue in OCPP v1.5 is values
 	MeterValue    []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
 	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
@@ -101,9 +101,9 @@ type StartTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionRequest"`
 
-	ConnectorId   int       `json:"connectorId" xml:"connectorId,omitempty"`
-	IdTag         string    `json:"idTag" xml:"idTag,omitempty"`
-	MeterStart    int       `json:"meterStart" xml:"meterStart,omitempty"`
+	ConnectorId   int       `json:"connectorId" xml:"connectorId"`
+	IdTag         string    `json:"idTag" xml:"idTag"`
+	MeterStart    int       `json:"meterStart" xml:"meterStart"`
 	ReservationId int       `json:"reservationId,omitempty" xml:"reservationId,omitempty"`
 	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 }
@@ -113,10 +113,10 @@ type StatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ statusNotificationRequest"`
 
-	ConnectorId     int                `json:"connectorId" xml:"connectorId,omitempty"`
-	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode,omitempty"`
+	ConnectorId     int                `json:"connectorId" xml:"connectorId"`
+	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode"`
 	Info            string             `json:"info,omitempty" xml:"info,omitempty"`
-	Status          string             `json:"status" xml:"status,omitempty"`
+	Status          string             `json:"status" xml:"status"`
 	Timestamp       *time.Time         `json:"timestamp,omitempty" xml:"timestamp,omitempty"`
 	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 	VendorId        string             `json:"vendorId,omitempty" xml:"vendorId,omitempty"`
@@ -128,11 +128,11 @@ type StopTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
 	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop       int                     `json:"meterStop" xml:"meterStop,omitempty"`
+	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData>values,omitempty"`
-	TransactionId   int                     `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 }
 
 // TransactionDataItems
diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 933a6ba..ae77795 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -18,11 +18,11 @@ type BootNotification struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationResponse"`
 
-	Status   string  `json:"status" xml:"status,omitempty"`
+	Status   string  `json:"status" xml:"status"`
 	CurrentTime time.Time `json:"currentTime" xml:"currentTime,omitempty"`
 
 	// Interval in 1.5 is heartbeatInterval
-	Interval float64 `json:"interval" xml:"heartbeatInterval,omitempty"`
+	Interval float64 `json:"interval" xml:"heartbeatInterval"`
 }
 
 // DataTransfer
@@ -31,7 +31,7 @@ type DataTransfer struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
 	Data   string `json:"data,omitempty" xml:"data,omitempty"`
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // DiagnosticsStatusNotification
@@ -58,7 +58,7 @@ type Heartbeat struct {
 type IdTagInfo struct {
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status,omitempty"`
+	Status      string     `json:"status" xml:"status"`
 }
 
 // MeterValues
@@ -73,7 +73,7 @@ type StartTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionResponse"`
 
 	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
-	TransactionId int32      `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId int32      `json:"transactionId" xml:"transactionId"`
 }
 
 // StatusNotification
-- 
2.43.0


From 9f5d8eb8a3f00e865d8c862a4c97cce63afa5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 05/23] fix: reject short frames and unknown message types
 instead of panicking

---
 ws/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index b85bc00..9c4addf 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -119,6 +119,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	if err != nil {
 		return nil, fmt.Errorf("on unmarshalling websocket message: %w", err)
 	}
+	if len(frame) < 3 {
+		return nil, errors.New("message has too few fields")
+	}
 	msgType, ok := frame[0].(float64)
 	if !ok {
 		return nil, fmt.Errorf("first field is not a message type: %w", err)
@@ -134,6 +137,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		if !ok {
 			return nil, fmt.Errorf("third field is not action: %w", err)
 		}
+		if len(frame) < 4 {
+			return nil, errors.New("call message has too few fields")
+		}
 		action := Action(actionStr)
 		payload, ok := frame[3].(map[string]interface{})
 		if !ok {
@@ -151,6 +157,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		if !ok {
 			return nil, fmt.Errorf("third field is not error code: %w", err)
 		}
+		if len(frame) < 5 {
+			return nil, errors.New("call error message has too few fields")
+		}
 		description, ok := frame[3].(string)
 		if !ok {
 			return nil, fmt.Errorf("fourth field is not error description: %w", err)
@@ -161,7 +170,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallErrorMessage{id, ErrorCode(codeStr), description, details}, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unknown message type: %v", msgType)
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-- 
2.43.0


From 6c1a3daf5716745e1fac6e2fe347083d99da342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 06/23] fix: decode a call result as the response type of the
 request that was sent

---
 ws/conn.go    | 6 +++---
 ws/message.go | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 9c4addf..0a7f713 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -145,7 +145,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		if !ok {
 			return nil, fmt.Errorf("fourth field is not payload: %w", err)
 		}
-		return &CallMessage{id, action, payload}, nil
+		return NewCallMessage(id, action, payload), nil
 	case CallResult:
 		payload, ok := frame[2].(map[string]interface{})
 		if !ok {
@@ -254,10 +254,10 @@ func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Respons
 	if !ok {
 		return nil, GenericError
 	}
-	if call == nil {
+	if call == nil || call.request == nil {
 		return nil, NotSupported
 	}
-	resp := req.FromActionName(string(call.Action)).GetResponse()
+	resp := call.request.GetResponse()
 	originalPayload, err := json.Marshal(result.Payload)
 	if err != nil {
 		return nil, GenericError
diff --git a/ws/message.go b/ws/message.go
index 05f53d2..fb9b031 100644
--- a/ws/message.go
+++ b/ws/message.go
@@ -23,7 +23,8 @@ type Message interface {
 }
 
 type CallMessage struct {
-	id MessageID
+	id      MessageID
+	request messages.Request // what the call was made from, nil for a received call
 	Action
 	Payload map[string]interface{}
 }
@@ -148,5 +149,7 @@ func UnmarshalRequest(id MessageID, req messages.Request) (*CallMessage, error)
 	if err != nil {
 		return nil, err
 	}
-	return NewCallMessage(id, Action(req.Action()), inInterface), nil
+	call := NewCallMessage(id, Action(req.Action()), inInterface)
+	call.request = req
+	return call, nil
 }
-- 
2.43.0


From 463f01af98d71e7ba290a5be9e8aa686d9c54fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 07/23] fix: guard the pending calls with a lock and never
 block the reader on a reply

---
 ws/conn.go | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 0a7f713..8727c09 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -30,6 +30,7 @@ type Conn struct {
 	cancelCtx context.CancelFunc
 	*websocket.Conn
 	sendMux      sync.Mutex
+	pendingMux   sync.Mutex // protects sentMessages and responsesOf
 	sentMessages map[MessageID]*CallMessage
 	requests     chan struct {
 		messages.Request
@@ -196,9 +197,17 @@ func (c *Conn) ReadMessage() error {
 
 	log.Debug("Received a message, parsed: %v", msg)
 
+	var call *CallMessage
+	var replyTo chan CallResponse
 	if msg.Type() == CallResult || msg.Type() == CallError {
-		_, ok := c.sentMessages[msg.ID()]
-		if !ok {
+		// from here on nobody else can answer this call
+		c.pendingMux.Lock()
+		call = c.sentMessages[msg.ID()]
+		replyTo = c.responsesOf[msg.ID()]
+		delete(c.sentMessages, msg.ID())
+		delete(c.responsesOf, msg.ID())
+		c.pendingMux.Unlock()
+		if replyTo == nil {
 			return errors.New("received call error/result without sending any call message")
 		}
 	}
@@ -218,13 +227,13 @@ func (c *Conn) ReadMessage() error {
 		}{req, msg.ID()}
 	case *CallResultMessage:
 		var resp messages.Response
-		resp, wserr = c.callResultToResponse(m)
-		c.responsesOf[m.ID()] <- CallResponse{
+		resp, wserr = c.callResultToResponse(call, m)
+		replyTo <- CallResponse{
 			response: resp,
 			err:      wserr,
 		}
 	case *CallErrorMessage:
-		c.responsesOf[m.ID()] <- CallResponse{
+		replyTo <- CallResponse{
 			response: nil,
 			err:      m,
 		}
@@ -248,12 +257,7 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	return req, Nil
 }
 
-func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Response, ErrorCode) {
-	id := result.ID()
-	call, ok := c.sentMessages[id]
-	if !ok {
-		return nil, GenericError
-	}
+func (c *Conn) callResultToResponse(call *CallMessage, result *CallResultMessage) (messages.Response, ErrorCode) {
 	if call == nil || call.request == nil {
 		return nil, NotSupported
 	}
@@ -301,16 +305,24 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
+	// room for the only reply, so that the reader never waits for us
+	replies := make(chan CallResponse, 1)
+	c.pendingMux.Lock()
 	c.sentMessages[id] = msg
-	c.responsesOf[id] = make(chan CallResponse)
+	c.responsesOf[id] = replies
+	c.pendingMux.Unlock()
+	defer func() {
+		c.pendingMux.Lock()
+		delete(c.sentMessages, id)
+		delete(c.responsesOf, id)
+		c.pendingMux.Unlock()
+	}()
 	err = c.sendMessage(msg)
 	if err != nil {
 		return nil, err
 	}
 	select {
-	case callResponse := <-c.responsesOf[id]:
-		delete(c.sentMessages, id)
-		delete(c.responsesOf, id)
+	case callResponse := <-replies:
 		if callResponse.err != Nil {
 			return nil, callResponse.err
 		}
-- 
2.43.0


From f194f3e1ad74b4299f7eaac0a413c7e630f26a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 08/23] fix: ReadMessageAsync leaked a goroutine when its
 result was not awaited

---
 ws/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index 8727c09..54bd95c 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -175,7 +175,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-	readMessageResultChannel := make(chan error)
+	readMessageResultChannel := make(chan error, 1)
 	go func() {
 		readMessageResultChannel <- c.ReadMessage()
 	}()
-- 
2.43.0


From ce235a35d408395e05b306b542c32b21aa691ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 09/23] fix: answer requests of the wrong direction with an
 error, never hand them to the handler

---
 cp/json.go | 7 ++++++-
 cs/cs.go   | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/cp/json.go b/cp/json.go
index 15a0ceb..06480b3 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -54,7 +54,12 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 		case req := <-cp.conn.Requests():
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
-				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
+				log.Error("%v", csreq.ErrorNotCentralSystemRequest)
+				err := cp.conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
+				if err != nil {
+					log.Error("%v", err)
+				}
+				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
diff --git a/cs/cs.go b/cs/cs.go
index b9a2412..463f0a3 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -141,7 +141,11 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		case req := <-conn.Requests():
 			cprequest, ok := req.Request.(cpreq.ChargePointRequest)
 			if !ok {
-				log.Error(cpreq.ErrorNotChargePointRequest.Error())
+				log.Error("%v", cpreq.ErrorNotChargePointRequest)
+				err := conn.SendResponse(req.MessageID, nil, cpreq.ErrorNotChargePointRequest)
+				if err != nil {
+					log.Error("%v", err)
+				}
 				continue
 			}
 			cpresponse, err := cphandler(cprequest, ChargePointRequestMetadata{
-- 
2.43.0


From 21b0c5575d2a936e4fd5cf2841e899a9a2bfd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 10/23] fix: SOAP server panicked on an envelope without a
 header

---
 soap/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index c0fba7a..367f3c6 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -30,7 +30,11 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 		return errors.New("received message is not a request")
 	}
 
-	resp, err := handle(req, reqEnv.Header.ChargeBoxIdentity)
+	var cpID string
+	if reqEnv.Header != nil {
+		cpID = reqEnv.Header.ChargeBoxIdentity
+	}
+	resp, err := handle(req, cpID)
 	if err != nil {
 		log.Error("couldn't handle request: %w", err)
 	}
-- 
2.43.0


From 3f1e51a737e9fc688c4fcaf35eaf829438707580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 11/23] fix: SOAP client panicked on an empty or unexpected
 reply

---
 soap/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soap/client.go b/soap/client.go
index 8600153..8b9418c 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"errors"
+	"fmt"
 	"io/ioutil"
 	"net"
 	"net/http"
@@ -112,8 +113,8 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 	}
 
 	respVal, contentVal := reflect.ValueOf(response), reflect.ValueOf(respEnvelope.Body.Content)
-	if respVal.Type() != contentVal.Type() {
-		panic("incompatible types:" + respVal.Type().String() + contentVal.Type().String())
+	if !contentVal.IsValid() || respVal.Type() != contentVal.Type() {
+		return fmt.Errorf("incompatible types: expected %T, received %T", response, respEnvelope.Body.Content)
 	}
 
 	respVal.Elem().Set(contentVal.Elem())
-- 
2.43.0


From 3f4f2d7d9d485500adbe1c22707a65ad1a4b706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 12/23] fix: write a SOAP fault's reason where the receiving
 side reads it, and no content beside it

---
 soap/marshal.go | 3 ++-
 soap/models.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index 5ce64a4..7f8717b 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -23,8 +23,9 @@ func Marshal(data interface{}, err error, NS string) ([]byte, error) {
 	respEnv := toSendEnvelope{XMLNS: NS}
 	if err != nil {
 		respEnv.Body.Fault = &toSendFault{Reason: err.Error()}
+	} else {
+		respEnv.Body.Content = data
 	}
-	respEnv.Body.Content = data
 
 	return xml.Marshal(respEnv)
 }
diff --git a/soap/models.go b/soap/models.go
index c1be438..fae5c4f 100644
--- a/soap/models.go
+++ b/soap/models.go
@@ -87,7 +87,7 @@ type toSendFault struct {
 	XMLName xml.Name `xml:"S:Fault,omitempty"`
 
 	Code   string `xml:"Code,omitempty"`
-	Reason string `xml:"reason,omitempty"`
+	Reason string `xml:"S:Reason>S:Text,omitempty"`
 	String string `xml:"faultstring,omitempty"`
 	Actor  string `xml:"faultactor,omitempty"`
 	Detail string `xml:"detail,omitempty"`
-- 
2.43.0


From 11be762d3b3a5d9a92ae5e5a837de4f7dea0b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 13/23] fix: never use a message's text as a log format

---
 cp/json.go          | 2 +-
 cs/cs.go            | 2 +-
 internal/log/log.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cp/json.go b/cp/json.go
index 06480b3..9e615f2 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -64,7 +64,7 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			cpresponse, err := cshandler(cprequest)
 			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%v", err)
 			}
 		}
 	}
diff --git a/cs/cs.go b/cs/cs.go
index 463f0a3..681a93f 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -154,7 +154,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			})
 			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%v", err)
 			}
 		case <-conn.WaitClose():
 			return
diff --git a/internal/log/log.go b/internal/log/log.go
index 8b065d4..9125b4f 100644
--- a/internal/log/log.go
+++ b/internal/log/log.go
@@ -19,5 +19,5 @@ func Debug(format string, v ...interface{}) {
 	debugLog.Printf(format, v...)
 }
 func Error(format string, v ...interface{}) {
-	errorLog.Printf(fmt.Errorf(format, v...).Error())
+	errorLog.Printf("%s", fmt.Errorf(format, v...).Error())
 }
\ No newline at end of file
-- 
2.43.0


From 6ac61e1a0b8b3a9c8f5f082805c0b917e73e6272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 14/23] fix: read the connection registry only under its lock

---
 cs/cs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cs/cs.go b/cs/cs.go
index 681a93f..5bc9a6c 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -76,11 +76,14 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 			// it's not a SOAP request
 			// it's someone lurking around in this URL
 			// let's present something nice
+			csys.connMux.Lock()
+			stations := len(csys.conns)
+			csys.connMux.Unlock()
 			body := fmt.Sprintf(
 				`<h1>OCPP Central System</h1>
 				<p>currently connected with %d OCPP-J stations, and more OCPP-S stations</p>
 				<i>Central System using <a href="https://github.com/voltbras/go-ocpp"/>https://github.com/voltbras/go-ocpp</i>`,
-				len(csys.conns),
+				stations,
 			)
 			w.Write([]byte(body))
 		} else {
@@ -93,7 +96,9 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 }
 
 func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
+	csys.connMux.Lock()
 	log.Debug("Current WS connections map: %v", csys.conns)
+	csys.connMux.Unlock()
 	cpID := strings.TrimPrefix(r.URL.Path, "/")
 
 	rawReq, _ := httputil.DumpRequest(r, true)
-- 
2.43.0


From 1b64b5c5c30f86c1a609e26e3a26cd1c6736f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 15/23] fix: stop reconnecting when the charge point's context
 ends

---
 cp/json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cp/json.go b/cp/json.go
index 9e615f2..c671bac 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -44,7 +44,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 				err := cp.getNewWebsocketConnection()
 				if err != nil {
 					log.Error("On restarting connection with Central System: %w", err)
-					<-time.After(websocketConnectionRetryInterval)
+					select {
+					case <-cp.ctx.Done():
+						return
+					case <-time.After(websocketConnectionRetryInterval):
+					}
 				} else {
 					break
 				}
-- 
2.43.0


From d08ff076862790eff95ae734647d8afca6ff81c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 16/23] fix: creating a charge point with an unknown transport
 is an error

---
 cp/cp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cp/cp.go b/cp/cp.go
index 79cb293..2778792 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -40,6 +40,9 @@ type chargePoint struct {
 // Run the charge point on the given port
 // and handles each incoming CentralSystemRequest
 func New(ctx context.Context, identity, csURL string, version ocpp.Version, transport ocpp.Transport, port *string, cshandler CentralSystemMessageHandler) (*chargePoint, error) {
+	if transport != ocpp.JSON && transport != ocpp.SOAP {
+		return nil, fmt.Errorf("unknown transport: %q", transport)
+	}
 	cp := &chargePoint{
 		identity:         identity,
 		centralSystemURL: csURL,
-- 
2.43.0


From 41a7a63a5074770edf84678bff36a5d99931bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 17/23] fix: decode SOAP data transfers of charge points as
 charge point messages

---
 soap/marshal.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index 7f8717b..df993bd 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -10,6 +10,9 @@ import (
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 )
 
+// namespace of the messages of the service that the central system provides
+const centralSystemNS = "urn://Ocpp/Cs/2012/06/"
+
 func Unmarshal(data []byte) (receivedEnvelope, error) {
 	parsed := receivedEnvelope{}
 	err := xml.Unmarshal(data, &parsed)
@@ -68,6 +71,20 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			case "diagnosticsStatusNotificationRequest":
 				msg = new(cpreq.DiagnosticsStatusNotification)
 
+			// data transfers, which both services define
+			case "dataTransferRequest":
+				if tt.Name.Space == centralSystemNS {
+					msg = new(cpreq.DataTransfer)
+				} else {
+					msg = new(csreq.DataTransfer)
+				}
+			case "dataTransferResponse":
+				if tt.Name.Space == centralSystemNS {
+					msg = new(cpresp.DataTransfer)
+				} else {
+					msg = new(csresp.DataTransfer)
+				}
+
 			// responses coming from the central system
 			case "bootNotificationResponse":
 				msg = new(cpresp.BootNotification)
@@ -109,8 +126,6 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				msg = new(csreq.RemoteStopTransaction)
 			case "cancelReservationRequest":
 				msg = new(csreq.CancelReservation)
-			case "dataTransferRequest":
-				msg = new(csreq.DataTransfer)
 			case "getConfigurationRequest":
 				msg = new(csreq.GetConfiguration)
 			case "getLocalListVersionRequest":
@@ -141,8 +156,6 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				msg = new(csresp.RemoteStopTransaction)
 			case "cancelReservationResponse":
 				msg = new(csresp.CancelReservation)
-			case "dataTransferResponse":
-				msg = new(csresp.DataTransfer)
 			case "getConfigurationResponse":
 				msg = new(csresp.GetConfiguration)
 			case "getLocalListVersionResponse":
-- 
2.43.0


From 540f1daaf68dffc923a2d8e1d825122f3d14f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:53 +0000
Subject: [PATCH 18/23] fix: RemoteStartTransaction and RemoteStopTransaction
 reject payloads that do not fit their schema

---
 messages/v1x/csreq/json_encode.go | 58 +++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 4b360f1..fb7c5b7 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -954,6 +954,64 @@ func (m *LocalAuthorizationListItems) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
+	idTagReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "chargingProfile":
+			if err := json.Unmarshal([]byte(v), &m.ChargingProfile); err != nil {
+				return err
+			}
+		case "connectorId":
+			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
+				return err
+			}
+		case "idTag":
+			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
+				return err
+			}
+			idTagReceived = true
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if idTag (a required property) was received
+	if !idTagReceived {
+		return errors.New("\"idTag\" is required but was not present")
+	}
+	return nil
+}
+
+func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
+	transactionIdReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "transactionId":
+			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
+				return err
+			}
+			transactionIdReceived = true
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if transactionId (a required property) was received
+	if !transactionIdReceived {
+		return errors.New("\"transactionId\" is required but was not present")
+	}
+	return nil
+}
+
 func (m *ReserveNow) MarshalJSON() ([]byte, error) {
 	buf := bytes.NewBuffer(make([]byte, 0))
 	buf.WriteString("{")
-- 
2.43.0


From 457d037f9701bc7b012c743089587c85034aa516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 19/23] fix: answer a request whose response cannot be encoded

SendResponse wrote nothing at all when the handler's response could not be
encoded as JSON, so the peer waited for an answer that never came.
---
 ws/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws/message.go b/ws/message.go
index fb9b031..50c0187 100644
--- a/ws/message.go
+++ b/ws/message.go
@@ -133,6 +133,10 @@ func (err *CallErrorMessage) MarshalJSON() ([]byte, error) {
 }
 
 func unmarshalResponse(id MessageID, resp messages.Response, err error) Message {
+	if err == nil {
+		// a response that can't be encoded is an error, the peer waits for an answer
+		_, err = json.Marshal(resp)
+	}
 	if err != nil {
 		return NewCallErrorMessage(id, InternalError, err.Error())
 	}
-- 
2.43.0


From e233a60bc55feb9f1253103168c9c07c5acfa278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:21 +0000
Subject: [PATCH 20/23] fix: answer a SOAP request whose response cannot be
 encoded

The handler had run and its outcome was only logged: the peer got an empty
reply. It now gets a fault.
---
 soap/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index 367f3c6..79e61ff 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -40,7 +40,11 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	}
 	rawResp, err := Marshal(resp, err, "http://www.w3.org/2003/05/soap-envelope")
 	if err != nil {
-		return fmt.Errorf("couldn't encode response: %w", err)
+		log.Error("couldn't encode response: %w", err)
+		rawResp, err = Marshal(nil, fmt.Errorf("couldn't encode response: %w", err), "http://www.w3.org/2003/05/soap-envelope")
+		if err != nil {
+			return fmt.Errorf("couldn't encode response: %w", err)
+		}
 	}
 
 	log.Debug("Sending response with %d bytes", len(rawResp))
-- 
2.43.0


From 39a8af83f84566e72f2231c3f7ffb11e5c111516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 21/23] fix: a reader whose request is not taken ends with its
 connection

---
 ws/conn.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 54bd95c..b694022 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -221,10 +221,14 @@ func (c *Conn) ReadMessage() error {
 			msg := NewCallErrorMessage(msg.ID(), wserr, "on handling message")
 			return c.sendMessage(msg)
 		}
-		c.requests <- struct {
+		select {
+		case c.requests <- struct {
 			messages.Request
 			MessageID
-		}{req, msg.ID()}
+		}{req, msg.ID()}:
+		case <-c.ctx.Done():
+			return errors.New("connection was closed before the request was taken")
+		}
 	case *CallResultMessage:
 		var resp messages.Response
 		resp, wserr = c.callResultToResponse(call, m)
-- 
2.43.0


From d4c8843947f33f46960c736a6f4b3952d8bdcdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 22/23] fix: close a charge point's SOAP server when its
 context ends

---
 cp/soap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cp/soap.go b/cp/soap.go
index 4a791dd..253bdc7 100644
--- a/cp/soap.go
+++ b/cp/soap.go
@@ -15,13 +15,14 @@ func handleSoap(ctx context.Context, port string, cshandler CentralSystemMessage
 	handler := soapHandler{cshandler}
 	server := &http.Server{Addr: port, Handler: handler}
 
-	serverErrorCh := make(chan error)
+	// room for the only error, so that the server never waits for us
+	serverErrorCh := make(chan error, 1)
 	go func() {
 		serverErrorCh <- server.ListenAndServe()
 	}()
 	select {
 	case <-ctx.Done():
-		return nil
+		return server.Close()
 	case err := <-serverErrorCh:
 		return err
 	}
-- 
2.43.0


From 4912202aa4471cd63609a20de0cdc74b2f7d49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:05 +0000
Subject: [PATCH 23/23] fix: do not declare an answer deflated that is not

---
 soap/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index 79e61ff..07a9bf0 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -51,7 +51,6 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	log.Debug("Sending raw response: %s", string(rawResp))
 
 	w.Header().Set("Content-Type", "application/soap+xml")
-	w.Header().Set("Content-Encoding", "deflate")
 
 	_, err = w.Write(rawResp)
 	return err
-- 
2.43.0

