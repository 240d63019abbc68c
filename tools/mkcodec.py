#!/usr/bin/env python3
"""Writes contracts/codec.gcv from the OCPP 1.6 JSON schemas in /repo/ws/json.
Only the names of nested Go types are taken from the declarations (which field
has which message type); property names, required sets and kinds come from the
schemas. Run at authoring time; the result is committed."""
import json, os, re
R = "/repo"
S = R + "/ws/json/"
CP = "Authorize BootNotification DataTransfer DiagnosticsStatusNotification FirmwareStatusNotification Heartbeat MeterValues StartTransaction StatusNotification StopTransaction".split()
CS = "CancelReservation ChangeAvailability ChangeConfiguration ClearCache ClearChargingProfile DataTransfer GetCompositeSchedule GetConfiguration GetDiagnostics GetLocalListVersion RemoteStartTransaction RemoteStopTransaction ReserveNow Reset SendLocalList SetChargingProfile TriggerMessage UnlockConnector UpdateFirmware".split()
def fields(pk):
    t = open(f"{R}/messages/v1x/{pk}/messages.go").read()
    out = {}
    for m in re.finditer(r"type (\w+) struct \{(.*?)\n\}", t, re.S):
        out[m[1]] = dict(re.findall(r"^\t(\w+)\s+([\w\[\]\*\.]+)", m[2], re.M))
    return out
F = {pk: fields(pk) for pk in ("cpreq", "cpresp", "csreq", "csresp")}
done = {}
def emit(pk, name, sch, strict):
    key = (pk, name)
    props = dict(sch.get("properties", {}))
    req = sch.get("required") or []
    if name == "IdTagInfo":   # one file of the schema set leaves out its optional properties
        props = {"expiryDate": {"type": "string", "format": "date-time"}, "parentIdTag": {"type": "string"}, "status": {"type": "string"}}
    rows = []
    for k, v in sorted(props.items()):
        g = k[0].upper() + k[1:]
        ty = v.get("type")
        kind = {"string": "str", "integer": "num", "number": "num", "boolean": "bool", "object": "obj", "array": "arr"}[ty]
        if v.get("format") == "date-time": kind = "time"
        if g not in F[pk][name]: g += "s"   # SampledValues
        gt = F[pk][name][g]
        if kind == "obj":
            n = gt.lstrip("*"); emit(pk, n, v, False)
        if kind == "arr" and v["items"].get("type") == "object":
            n = gt.lstrip("[]*"); emit(pk, n, v["items"], False)
        rows.append(f"  prop {k} {kind} {'required' if k in req else 'optional'} field {g}")
    txt = "\n".join([f"codec {pk}.{name} {'strict' if strict else 'open'}"] + rows)
    assert done.setdefault(key, txt) == txt, (key, txt, done[key])
for l, q, r in ((CP, "cpreq", "cpresp"), (CS, "csreq", "csresp")):
    for a in l:
        emit(q, a, json.load(open(S + a + ".json")), True)
        emit(r, a, json.load(open(S + a + "Response.json")), True)
open(os.path.dirname(os.path.abspath(__file__)) + "/../contracts/codec.gcv", "w").write(
  "# generated by tools/mkcodec.py from the OCPP 1.6 JSON schemas\n" + "\n".join(done[k] for k in sorted(done)) + "\n")
kinds = []
for k in sorted(done):
    l = done[k].split("\n")
    h = l[0].split()
    kinds.append("\t{func() interface{} { return &%s{} }, %s, []prop{" % (h[1], "true" if h[2] == "strict" else "false"))
    for p in l[1:]:
        w = p.split()
        kinds.append('\t\t{"%s", "%s", %s, "%s"},' % (w[1], w[2], "true" if w[3] == "required" else "false", w[5]))
    kinds.append("\t}},")
open(os.path.dirname(os.path.abspath(__file__)) + "/../replay/common_codec_test.go", "w").write("""// generated by tools/mkcodec.py from the OCPP 1.6 JSON schemas
package verifreplay

import (
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

type prop struct {
	name, kind string
	required   bool
	field      string
}

type codec struct {
	new    func() interface{}
	strict bool
	props  []prop
}

var codecs = []codec{
""" + "\n".join(kinds) + """
}
""")
print(len(done), "types")
