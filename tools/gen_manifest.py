#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]

CODEC = ('TLA+ wire-format specification (Wire/Plus) model-checked with TLC on bounded domains; values, inputs and mutations '
         'generated from the specification are executed by the real library and every recorded call is validated by TLC against the specification')
CODEC_NOTE = ('The specification is checked by TLC within the bounds of MCWire (DESIGN.md); the code is held to it on every generated call of the '
              'run: results, errors, values, re-encodings. Trusts TLC, the specification as the reading of the EGTS standard, and the driver that records calls.')
CLAIMS = {p: (CODEC, CODEC_NOTE) for p in 'C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C26'.split()}

RECV = ('TLA+ receiver specification (Receiver) model-checked with TLC; behaviours simulated from the specification and systematic schedules are run '
        'against the real server over TCP with recording stores, and every recorded trace is validated by TLC against the specification (ReceiverTrace)')
RECV_NOTE = ('The model is checked exhaustively for small numbers of connections, packets, stores and failures (DESIGN.md); the code is held to it on every executed '
             'schedule. Trusts TLC, the specification, the kernel TCP stack and the driver that records events; events of the server itself are inferred, not observed.')
CLAIMS.update({p: (RECV, RECV_NOTE) for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C22 C27 C28'.split()})
CLAIMS['C19'] = (CODEC + '; the receiver part: traces of the real server validated against Receiver', CODEC_NOTE)

CLAIMS['C24'] = ('TLA+ connector specification (Connector) model-checked with TLC; every variant of settings and backend and every short sequence of backend verdicts that '
                 'the specification enumerates is run against the real connectors with stand-in backends, and every recorded trace is validated by TLC (ConnectorTrace)',
                 'Held on every enumerated scenario; the backends are stand-ins that speak the wire protocols of Redis, NATS, PostgreSQL, MySQL, RabbitMQ and Tarantool as '
                 'far as the client libraries need them. Trusts TLC, the specification, the stand-ins and the client libraries.')

CLAIMS['C25'] = ('TLA+ specification of the generator (PacketGen) model-checked with TLC; requests, answers and deliveries enumerated from the specification are run against the '
                 'real packet-gen binary with scripted servers, and every recorded run is validated by TLC (PacketGenTrace)',
                 'Held on every enumerated run. Trusts TLC, the specification, the driver that records the runs, and the arithmetic that turns degrees into wire units (one unit of tolerance).')

CLAIMS['C23'] = ('TLA+ specification of starting the receiver (Startup, with Connector) model-checked with TLC; configurations enumerated from the specification are given to the '
                 'real receiver program with stand-in storages, and every recorded run is validated by TLC (StartupTrace)',
                 'Held on every enumerated configuration, with the order of initialisation that each run happened to take. Trusts TLC, the specification, the stand-ins and the driver.')

CLAIMS['C29'] = ('TLA+ composition (MCEndToEnd) of the specifications of generator, wire format, meaning and receiver, model-checked with TLC; runs of several generators enumerated from the '
                 'specification are carried out with the real packet-gen and receiver programs and stand-in storages, and every recorded run is validated by TLC (EndToEndTrace)',
                 'Held on every enumerated run, with the interleavings and kill points that each run happened to take. Trusts TLC, the specification, the stand-ins and the driver.')

CLAIMS['C30'] = ('TLA+ specification of the replay tool (Replay), model-checked with TLC (MCReplay); files and manners of answering enumerated from GenReplay, the real tool run against scripted '
                 'servers, every recorded run validated by TLC (ReplayTrace)',
                 'Held on every enumerated run, with the segmentation that each run happened to take. Trusts TLC, the specification and the scripted server.')

checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py %s' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level='model_checking', level_note=n))
    else:
        na.append(dict(property=i, reason='not built yet'))
m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the driver is compiled into the module through a go build overlay.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
