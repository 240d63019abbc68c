#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
V="messages/v1x/"
ENC=[V+d+"/json_encode.go" for d in("cpreq","cpresp","csreq","csresp")]
MSG=[V+d+"/messages.go" for d in("cpreq","cpresp","csreq","csresp")]
p("C01","OCPP-J payload encoding is exact for every message type",
 "Encoding any OCPP 1.6 request payload, response payload or nested payload object gives one well-formed JSON object in which every property has the name the OCPP 1.6 schema gives it, occurs once, and carries exactly the value of its own field (timestamps as RFC 3339 text). Every schema-required property is always present, an optional property whose field is unset may only be left out or carry that empty value, and no other property ever appears. Encoding never panics, and it fails only when a required nested object is missing or a nested value cannot be encoded.",
 ["inputs"],"all field values of all message and nested types, including nil pointers and slices",
 "The tests encode two message types with a couple of values; names, commas, optional fields and nil nested objects of the other ~45 types are reached by no test.",
 ENC+MSG,[("hand-written MarshalJSON per type",V+"*/json_encode.go"),("struct tags for the types without one",V+"csreq/messages.go")])
p("C02","OCPP-J payload decoding enforces the schema's shape",
 "Decoding a payload succeeds only if the input is a JSON object (null counts as the empty object) that has every schema-required property and whose known properties all decode to their field types; a top-level request or response payload is in addition rejected when it has a property its schema does not define. Conversely every input that meets these conditions is accepted. Decoding never panics, whatever the bytes.",
 ["inputs"],"all byte strings, for every message and nested type with its own decoder, in every map iteration order",
 "No test feeds a payload with a missing or unknown property; the decoders' accept/reject sets are unbounded.",
 ENC,[("required-property flags and default case of each UnmarshalJSON",V+"*/json_encode.go")])
p("C03","Decoding restores every field of what was encoded",
 "After a successful decode every field of the payload holds the decoded value of its own schema property, and a field whose property is absent keeps its previous value; no two fields are mixed up and none is dropped. Therefore decoding what encoding produced gives back an equal message, timestamps to whole seconds.",
 ["inputs"],"all payload values and all JSON objects, in every map iteration order",
 "Tests never compare a decoded payload with the one that was encoded.",
 ENC+MSG,[("MarshalJSON/UnmarshalJSON pairs",V+"*/json_encode.go")])
p("C04","Action names, request types and response types correspond",
 "For each supported action name, request lookup returns a fresh zero-valued request of that action's own type and direction, that request reports the same action name, and its response prototype is a fresh zero-valued response of the same action and direction; response lookup by action name agrees with it. Any other name (including DataTransfer, which is ambiguous between directions) yields nothing. Charge point requests and responses are never classified as central system ones or vice versa.",
 ["inputs"],"every string as action name; every request type",
 "Tests exercise two of the 29 request types; a swapped pair in the tables compiles and passes.",
 ["messages/req/actions.go","messages/res/actions.go"]+MSG+[V+"cpreq/cpreq.go",V+"cpresp/cpresp.go",V+"csreq/csreq.go",V+"csresp/csresp.go"],
 [("action switch","messages/req/actions.go, messages/res/actions.go"),("Action/GetResponse methods",V+"*/messages.go")])
p("C05","Any received bytes are parsed safely as an OCPP-J frame",
 "For every byte string, parsing it as an OCPP-J frame never panics and returns either an error or exactly one message, whose kind, message id and action/payload/error code/description/details are the ones in the frame array. Every well-formed CALL, CALLRESULT and CALLERROR frame is accepted, and anything with a missing or mistyped element or an unknown message type is rejected with an error.",
 ["inputs"],"all byte strings",
 "One malformed text is tested; truncated arrays, wrong element types and unknown message types are unbounded.",
 ["ws/conn.go","ws/message.go"],[("UnmarshalMessage","ws/conn.go")])
p("C06","Frames written carry and restore the message they were made from",
 "A CALL is written as the JSON array [2, id, action, payload], a CALLRESULT as [3, id, payload] and a CALLERROR as [4, id, code, description, details], and parsing a written frame gives a message of the same kind with the same id and content. A request is sent under its own action name with its encoded payload; a handler's response is answered as a CALLRESULT carrying it and a handler's error as a CALLERROR with code InternalError and the error's text; an answer that cannot be written is an error.",
 ["inputs"],"all ids, actions, payloads, error codes and texts",
 "Tests send two payload types and never inspect a frame; no error reply is decoded anywhere.",
 ["ws/message.go","ws/conn.go"],[("MarshalJSON of the three message kinds","ws/message.go"),("unmarshalResponse / UnmarshalRequest","ws/message.go")])
p("C07","A received CALL is surfaced once or refused under its own id",
 "Reading one well-formed CALL frame has exactly one outcome: the decoded request of the action's type is surfaced once to the application together with the frame's message id, or one CALLERROR with that id is written: NotSupported for an unknown action, FormationViolation for a payload that does not decode. (If the connection ends before the application takes the request, reading fails instead.) A frame that is not well formed is reported as an error and neither surfaces nor writes anything; a transport read failure is reported and closes the connection.",
 ["inputs","fault_sequences"],"every frame and every read or write failure of the transport",
 "Tests only send valid Heartbeat and GetConfiguration calls; refusals are never observed.",
 ["ws/conn.go"],[("ReadMessage, callToRequest","ws/conn.go")],observe=["frames written on the socket","the connection's request channel"])
p("C08","Replies reach exactly the call that is waiting for them",
 "A CALLRESULT or CALLERROR is delivered at most once, to the pending call with the same message id and to no other; a reply without a pending call is reported as an error and delivered to nobody, and delivering a reply never blocks the reader. The caller gets the response decoded as the response type of its own request, or an error carrying the peer's error code and description, never both; a call whose frame cannot be written fails at once. A call registers under a fresh id before its frame is written and, once it returns (reply, write failure or timeout), leaves no pending entry behind.",
 ["inputs","schedules","histories"],"every sequence of frames, duplicate, late and unsolicited replies included, and every interleaving of callers with the reader",
 "Tests have one call outstanding at a time and always answer it; duplicates, late replies and error replies never occur.",
 ["ws/conn.go","ws/message.go"],[("pending-call table and per-call channel","ws/conn.go SendRequest, ReadMessage, callResultToResponse")],
 state=[dict(name="pending-call table",meaning="message id -> sent call and reply channel",where="ws/conn.go Conn")])
p("C09","Handlers get only requests of their direction, each answered once",
 "For each request surfaced on a connection the application's handler is invoked at most once, and only with a request the peer may send: the central system's handler with charge point requests, together with the charge point id from the connection's URL path and the HTTP request, the charge point's handler with central system requests. Exactly one answer is written per surfaced request, under that request's message id: the handler's response, or an error answer when the handler fails. A request of the wrong direction never reaches the handler and is answered with an error.",
 ["inputs","histories"],"every sequence of surfaced requests, handler results and write failures, on both sides",
 "Tests never send a request in the wrong direction, and handler errors are not observed on the wire.",
 ["cs/cs.go","cp/json.go","ws/conn.go"],[("per-connection select loops","cs/cs.go handleWebsocket, cp/json.go handleWebsocketConnection")])
p("C10","The central system's registry mirrors the open sessions",
 "A charge point counts as connected exactly while at least one of its websocket sessions is registered: then a 1.6 command service is available for it and its connect-wait channel is closed, and otherwise neither is the case and disconnect-wait returns a closed channel. Sessions of one charge point never change the registry state of another, a session is unregistered exactly once however its loop ends, and no wait channel is closed twice or forgotten while someone may wait for it: it is closed when its charge point next connects. While several sessions of one charge point overlap, ending one of them never removes the service.",
 ["histories","schedules"],"every history of sessions beginning and ending, per charge point and across charge points",
 "Tests cover a handful of connect/disconnect orders; the bookkeeping invariant ranges over all histories.",
 ["cs/cs.go"],[("connMux-protected maps","cs/cs.go handleWebsocket, GetServiceOf, WaitConnect, WaitDisconnect")],
 state=[dict(name="registry",meaning="connection, count, connected flag and wait channel per charge point id",where="cs/cs.go centralSystem")])
p("C11","Shared connection state is only touched under its lock",
 "The central system's registry and a connection's pending-call table are read and written only while the lock protecting them is held, and everything the library writes to a websocket is written while that connection's send lock is held, so that concurrent sessions, callers and readers cannot corrupt them or crash the process. Every lock taken is released on every path, including failures, and is never taken twice by the same activation; no lock is held while an application handler runs or a reply is awaited.",
 ["schedules"],"all interleavings of sessions, callers and readers; all control paths",
 "The tests run on one CPU because of known races; a race needs a schedule no test controls.",
 ["cs/cs.go","ws/conn.go"],[("connMux","cs/cs.go"),("sendMux and the pending table's lock","ws/conn.go")])
p("C12","SOAP element names and message types match the OCPP 1.5 WSDL",
 "In a SOAP body, each element name the OCPP 1.5 services define is decoded as the message type of that name and direction, an element of any other name is rejected with an error, and a Fault is reported as a fault and not as content. Every message type is written under its WSDL element name and namespace, with each field under its WSDL name, so that a message written by one side is read back field by field by the other, and a required element is written even if its value is empty or zero.",
 ["inputs"],"every SOAP body; every 1.5 message type and field",
 "Two of the 48 element names are tested, in one direction each, with one document each.",
 ["soap/marshal.go","soap/models.go"]+MSG,[("element switch","soap/marshal.go UnmarshalXML"),("xml struct tags",V+"*/messages.go, soap/models.go")])
p("C13","The SOAP server answers each decodable request exactly once",
 "For an HTTP request whose body is a SOAP envelope with an OCPP request, the handler is called exactly once with that request and the charge box identity of the envelope's header (empty if there is none), and exactly one envelope is written: the handler's response as body content, or a Fault whose reason text is the handler's error text, declared under no content encoding its bytes do not have. A body that cannot be decoded or does not hold a request never reaches the handler and is reported as an error. No request body can cause a panic, and each side hands its handler only requests of the proper direction.",
 ["inputs"],"every request body and every handler outcome",
 "The SOAP server is run by no test.",
 ["soap/server.go","soap/marshal.go","soap/models.go","cs/cs.go","cp/soap.go"],[("Handle","soap/server.go"),("Marshal","soap/marshal.go")])
p("C14","The SOAP client returns the peer's response or an error, never both",
 "A SOAP call posts one envelope that holds the request, names its action and carries the configured charge box identity and sender, and it succeeds only if the reply's body is a message of the response type expected for that request, whose content then is the caller's response. A Fault is returned as an error carrying its reason text, and an empty, undecodable or unexpected reply, or a transport failure before the reply's envelope is complete, is returned as an error; no reply can cause a panic.",
 ["inputs","fault_sequences"],"every request, every reply and every transport failure",
 "The SOAP client is run by no test.",
 ["soap/client.go","soap/marshal.go","soap/models.go","internal/service/soap.go"],[("Call","soap/client.go"),("SOAP.Send","internal/service/soap.go")])
p("C15","Version and transport select the right protocol and peer",
 "OCPP 1.5 maps to SOAP to the given URL under the charge point's id, 1.6 to the charge point's open websocket connection, and any other version, or 1.6 without a connection, is an error and no service; the websocket subprotocol offered and announced is ocpp1.6 for 1.6 (ocpp1.5 for 1.5), and a charge point dials the central system's URL followed by its own identity. The central system routes websocket upgrades to the OCPP-J endpoint, plain GETs to an informational page and everything else to SOAP, for every path on its port. A typed Send passes its request unchanged to the selected transport and returns its response only if it is of the direction the caller expects, otherwise an error and no response; the error of a failed call is passed on.",
 ["inputs","configurations"],"all versions, identities, URLs, methods and peer replies",
 "Only V16 over JSON is tested.",
 ["cs/cs.go","ws/conn.go","ws/ws.go","internal/service/cp.go","internal/service/cs.go","internal/service/json.go","internal/service/soap.go"],
 [("GetServiceOf, Run","cs/cs.go"),("ocppVersionToProtocol, Dial, Handshake","ws/conn.go"),("Send wrappers","internal/service/*.go")])
p("C16","A charge point is usable when created and follows reconnections",
 "Creating a charge point returns either an error and no charge point, or one whose Send goes to the central system it was configured with; a JSON charge point whose dial fails and a SOAP one without a port are errors. A SOAP charge point serves its central system's requests with its handler on its port until its context ends. After the connection is lost a JSON charge point dials again until it succeeds or its context ends; from each successful dial on, its connection and its Send use the new connection, and the connect-wait channel is open while disconnected and closed once connected, never closed twice and never replaced while someone may be waiting for it.",
 ["histories","fault_sequences","configurations"],"every sequence of dial failures, connection losses and cancellation",
 "Tests reconnect only against a server that is always up.",
 ["cp/cp.go","cp/json.go","cp/soap.go"],[("New","cp/cp.go"),("getNewWebsocketConnection and the reconnect loop","cp/json.go")])
p("C17","Log messages reach the configured logger unaltered",
 "Every debug and error message the library logs is handed once to the logger configured for that level, and the text that logger prints is the message formatted with its arguments; content that comes from peers, percent signs included, is never interpreted as a format. With no logger configured, logging has no effect.",
 ["inputs"],"every format, argument list and logger",
 "No test installs a logger.",
 ["internal/log/log.go","ocpp.go"],[("Debug, Error and the setters","internal/log/log.go")])
p("C18","No call waits for its peer beyond the request timeout",
 "A request sent over either transport gets a response or an error within the request timeout (60 s), whatever the peer does. Once its frame is written, a websocket call waits for its reply only together with one timer of at most the request timeout, which nothing that arrives meanwhile sets again; when the timer fires the call ends with an error and no response. A SOAP call makes one HTTP exchange, limited as a whole, from connecting to the end of the reply, by the request timeout. A typed Send makes at most one call and waits for nothing else.",
 ["schedules","fault_sequences"],"all peer behaviours and schedules",
 "Would need waiting out the timeout under every peer behaviour; no test does.",
 ["ws/conn.go","soap/client.go","internal/service/json.go","internal/service/soap.go"],[("select with time.After","ws/conn.go SendRequest"),("http.Client.Timeout","soap/client.go Call"),("Send","internal/service/*.go")])
p("C19","No goroutine outlives the connection it serves",
 "After a websocket connection ends, because either side closes it or fails or because its charge point's context ends, every goroutine the library started for it terminates, whatever was pending on it: apart from reading and writing the socket, which fail from then on, its readers and its session wait for nothing without also waiting for the connection's end (a charge point also for its context's end), and handing on a reply or a result never waits for a taker. A session does not go on with a connection whose end it was told, and leaves none open behind it. A SOAP charge point's server and goroutine stop when its context ends.",
 ["schedules","histories"],"all schedules and histories of a connection",
 "No test counts goroutines; leaks need specific interleavings.",
 ["ws/conn.go","cs/cs.go","cp/json.go","cp/soap.go"],
 [("ReadMessage, ReadMessageAsync, Close","ws/conn.go"),("the session loops","cs/cs.go handleWebsocket, cp/json.go handleWebsocketConnection"),("handleSoap","cp/soap.go")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
