#!/usr/bin/env python3
"""Writes contracts/actions.gcv: the actions of OCPP, their direction and types.
The lists below are the OCPP 1.6 specification's (sections 4 and 5); the code
under verification is not consulted."""
CP = "Authorize BootNotification DiagnosticsStatusNotification FirmwareStatusNotification Heartbeat MeterValues StartTransaction StatusNotification StopTransaction".split()
CS = "CancelReservation ChangeAvailability ChangeConfiguration ClearCache ClearChargingProfile GetCompositeSchedule GetConfiguration GetDiagnostics GetLocalListVersion RemoteStartTransaction RemoteStopTransaction ReserveNow Reset SendLocalList SetChargingProfile TriggerMessage UnlockConnector UpdateFirmware".split()
o = []
w = o.append
w("# generated by tools/mkactions.py from the lists of OCPP 1.6 sections 4 and 5")
w("table reqtag")
for a in CP: w(f"  row {a} *cpreq.{a}")
for a in CS: w(f"  row {a} *csreq.{a}")
w("table restag")
for a in CP: w(f"  row {a} *cpresp.{a}")
for a in CS: w(f"  row {a} *csresp.{a}")
w("table reqaction")
for a in CP + ["DataTransfer"]: w(f"  row *cpreq.{a} {a}")
for a in CS + ["DataTransfer"]: w(f"  row *csreq.{a} {a}")
w("table resptype")
for a in CP + ["DataTransfer"]: w(f"  row *cpreq.{a} *cpresp.{a}")
for a in CS + ["DataTransfer"]: w(f"  row *csreq.{a} *csresp.{a}")
w("")
for pk, tab, res in (("req", "reqtag", "request"), ("res", "restag", "response")):
    w(f"contract {pk}.FromActionName(action) (r)")
    w("  modular")
    w("  modifies nothing")
    w("  safe C04")
    w(f'  ensures C04 "the {res} type of the action, nil for any other name": tag(r) == table("{tab}", action)')
    w(f'  ensures C04 "it is new": imp(r != nil, freshobj(r))')
    w(f'  shows C04 "it is zero": imp(r != nil, zeroobj(r))')
w("""
interface messages.Request.Action(q) (a)
  pure
  sorts string
  ensures imp(intable("reqaction", tag(q)), a == tablestr("reqaction", tag(q)))
interface messages.Request.GetResponse(q) (r)
  ensures imp(intable("resptype", tag(q)), tag(r) == tabletag("resptype", tag(q)) && freshobj(r))
""")
for rq, rs, l in (("cpreq", "cpresp", CP), ("csreq", "csresp", CS)):
    for a in l + ["DataTransfer"]:
        w(f"contract (*{rq}.{a}).Action(m) (a)")
        w("  safe C04")
        w(f'  ensures C04 "action name": a == "{a}"')
        w(f"contract (*{rq}.{a}).GetResponse(m) (r)")
        w("  safe C04")
        w(f'  ensures C04 "response type": typeis(r, *{rs}.{a})')
        w(f'  ensures C04 "new and zero": freshobj(r) && zeroobj(r)')
w("types directions C04")
I = {"cpreq": "cpreq.ChargePointRequest", "csreq": "csreq.CentralSystemRequest", "cpresp": "cpresp.ChargePointResponse", "csresp": "csresp.CentralSystemResponse"}
for pk, l in (("cpreq", CP), ("csreq", CS), ("cpresp", CP), ("csresp", CS)):
    for a in l + ["DataTransfer"]:
        for q, it in I.items():
            w(f"  {'impl' if q == pk else 'noimpl'} *{pk}.{a} {it}")
open(__file__.rsplit("/", 2)[0] + "/contracts/actions.gcv", "w").write("\n".join(o) + "\n")
