#!/usr/bin/env python3
"""Generates contracts/xml.gcv and replay/common_xmltab_test.go from the OCPP 1.5 service descriptions in
/repo/soap/wsdl: which element is which message type, and under which element
or attribute name every field has to be written, required ones always."""
import os, re
import xml.etree.ElementTree as ET

S = '{http://www.w3.org/2001/XMLSchema}'
here = os.path.dirname(os.path.abspath(__file__))

# Go names that are not the capitalised element name
FIELD = {('BootNotificationResponse', 'heartbeatInterval'): 'Interval',
         ('MeterValuesRequest', 'values'): 'MeterValue',
         ('SendLocalListRequest', 'localAuthorisationList'): 'LocalAuthorizationList'}
# the WSDL has these, the Go types have no field for them
ABSENT = {('SendLocalListRequest', 'hash'), ('SendLocalListResponse', 'hash')}
# complex types that are not messages: the Go types that stand for them
NESTED = {'Cs': {'IdTagInfo': ['cpresp.IdTagInfo'], 'MeterValue': ['cpreq.MeterValueItems', 'cpreq.TransactionDataItems']},
          'Cp': {'IdTagInfo': ['csreq.IdTagInfo'], 'KeyValue': ['csresp.ConfigurationKeyItems'], 'AuthorisationData': ['csreq.LocalAuthorizationListItems']}}
PKG = {('Cs', 'Request'): 'cpreq', ('Cs', 'Response'): 'cpresp', ('Cp', 'Request'): 'csreq', ('Cp', 'Response'): 'csresp'}


def cap(s):
    return s[0].upper() + s[1:]


names, types, rows = [], [], []
for side, f in (('Cs', 'centralsystem'), ('Cp', 'chargepoint')):
    root = ET.parse(f'/repo/soap/wsdl/ocpp_{f}service_1.5_final.wsdl').getroot()
    for sc in root.iter(S + 'schema'):
        ns = sc.get('targetNamespace')
        ct = {c.get('name'): c for c in sc.findall(S + 'complexType')}

        def fields(typ, con):
            c = ct[con]
            for e in c.iter(S + 'element'):
                n = e.get('name')
                if (con, n) in ABSENT:
                    continue
                req = 'required' if e.get('minOccurs', '1') == '1' else 'optional'
                if con == 'MeterValue' and n == 'value':
                    rows.append(f'  xmlfield {typ} SampledValues element value {req}')
                    continue
                if e.get('type') == 'tns:TransactionData':
                    rows.append(f'  xmlfield {typ} TransactionData path transactionData>values optional')
                    continue
                rows.append(f'  xmlfield {typ} {FIELD.get((con, n), cap(n))} element {n} {req}')
            if typ == 'cpreq.MeterValueItems':
                rows.append('  xmlfield cpreq.SampledValue Value chardata - required')
                for e in c.iter(S + 'attribute'):
                    rows.append(f'  xmlfield cpreq.SampledValue {cap(e.get("name"))} attr {e.get("name")} optional')

        for e in sc.findall(S + 'element'):
            n = e.get('name')
            m = re.match(r'(.*)(Request|Response)$', n)
            if not m:
                continue
            typ = PKG[side, m.group(2)] + '.' + cap(m.group(1))
            names.append((ns + ' ' + n, typ))
            rows.append(f'  xmltag {typ} {ns} {n}')
            fields(typ, e.get('type')[4:])
        for con, ts in NESTED[side].items():
            for t in ts:
                fields(t, con)

MODELS = '''
  xmltag soap.toSendEnvelope - S:Envelope
  xmlfield soap.toSendEnvelope XMLNS attr xmlns:S required
  xmlfield soap.toSendEnvelope Header element S:Header optional
  xmlfield soap.toSendEnvelope Body element S:Body required
  xmltag soap.toSendHeader - S:Header
  xmlfield soap.toSendHeader XMLNS attr xmlns:wsa5 required
  xmlfield soap.toSendHeader To element wsa5:To required
  xmlfield soap.toSendHeader Action element wsa5:Action required
  xmlfield soap.toSendHeader MessageID element wsa5:MessageID required
  xmlfield soap.toSendHeader From element wsa5:From required
  xmlfield soap.toSendHeader ChargeBoxIdentity element chargeBoxIdentity required
  xmlfield soap.toSendFrom Address element wsa5:Address required
  xmlfield soap.toSendBody Content content - required
  xmlfield soap.toSendBody Fault element S:Fault optional
  xmlfield soap.toSendFault Reason path S:Reason>S:Text optional
  xmltag soap.receivedEnvelope - Envelope
  xmlfield soap.receivedEnvelope Header element Header required
  xmlfield soap.receivedEnvelope Body element Body required
  xmlfield soap.receivedHeader ChargeBoxIdentity element chargeBoxIdentity required
  xmlfield soap.receivedFault Reason element Reason optional
  xmlfield soap.receivedFault Reason.Text element Text optional
'''.strip('\n').split('\n')

with open(os.path.join(here, '..', 'contracts', 'xml.gcv'), 'w') as o:
    w = lambda s='': print(s, file=o)
    w('# Generated by tools/mkxml.py from the OCPP 1.5 WSDLs (soap/wsdl)')
    w()
    w('# which message type an element is; both services have dataTransfer elements')
    w('table xmlelem')
    for n, t in names:
        ns, l = n.split()
        if not l.startswith('dataTransfer'):
            w(f'  row {l} *{t}')
    w('table xmltransfer')
    for n, t in names:
        ns, l = n.split()
        if l.startswith('dataTransfer'):
            w(f'  row {ns}#{l} *{t}')
    w('# the types of the messages')
    w('table xmlname')
    for n, t in names:
        w(f'  row *{t} {n.split()[1]}')
    w()
    w('types xml C12')
    for r in rows:
        w(r)
    for r in MODELS:
        w(r)

with open(os.path.join(here, '..', 'replay', 'common_xmltab_test.go'), 'w') as o:
    w = lambda s='': print(s, file=o)
    w('// Code generated by tools/mkxml.py; DO NOT EDIT.')
    w()
    w('package verifreplay')
    w()
    w('import (\n\t"github.com/voltbras/go-ocpp/messages/v1x/cpreq"\n\t"github.com/voltbras/go-ocpp/messages/v1x/cpresp"\n\t"github.com/voltbras/go-ocpp/messages/v1x/csreq"\n\t"github.com/voltbras/go-ocpp/messages/v1x/csresp"\n)')
    w()
    w('// the messages of the OCPP 1.5 services')
    w('var xmlElems = []xmlElem{')
    for n, t in names:
        ns, l = n.split()
        w('\t{"%s", "%s", &%s{}},' % (ns, l, t))
    w('}')
    w()
    w('// how their fields are written')
    w('var xmlRows = []xmlRow{')
    for r in rows:
        f = r.split()
        if f[0] == 'xmlfield':
            w('\t{%s{}, "%s", "%s", "%s", %s},' % (f[1], f[2], f[3], f[4], 'true' if f[5] == 'required' else 'false'))
    w('}')
