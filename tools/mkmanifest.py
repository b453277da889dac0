#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification: contracts over the LLVM IR of the real functions, obligations discharged by z3'
CLAIMED = {
 'P01': ('proof', 'every scalar type, value and field number'),
 'P02': ('proof', 'every scalar type, buffer, position and value; round-trip lemmas'),
 'P03': ('proof', 'every buffer and position, for every primitive that consumes input'),
 'P04': ('proof', 'all field numbers and wire types'),
 'P05': ('proof', 'every payload and buffer'),
 'P06': ('proof', 'every content and length below 2 GiB'),
 'P07': ('proof', 'every list length and content'),
 'P08': ('proof', 'every list length and content'),
 'P09': ('proof', 'every built-in type, table proved entry by entry'),
 'P10': ('proof', 'every message class, field set and value'),
 'P11': ('proof', 'every message class and input'),
 'P12': ('proof', 'every map size, content and entry layout; templates for three representative instantiations'),
 'P13': ('proof', 'every message, list and input; templates for an opaque message class'),
 'P14': ('proof', 'every value, list and input; templates for an opaque enum'),
 'P15': ('proof', 'every previous content and input, decoding outcome arbitrary'),
 'P16': ('proof', 'every registry content; lock protocol on every path'),
 'P17': ('proof', 'every list and map of message pointers, including null entries; an opaque message class'),
 'P18': ('proof', 'every reachable operand state of an opaque message class, with and without Qt QML'),
 'P19': ('proof', 'every payload, service and method name; Qt network contracts assumed'), 'P20': ('proof', 'every network error, server status, header and body; Qt event contracts assumed'), 'P21': ('proof', 'every received byte sequence, chunk and carried-over remainder; one readyRead at a time is Qt contract'),
 'P22': ('proof', 'every code, message and operand state'),
 'P23': ('proof', 'every status of an arbitrary channel, every decoding outcome, both threads'),
 'P24': ('proof', 'every set of active streams, method, argument and handler; arbitrary channel'),
 'P25': ('proof', 'every payload and slicing, every number of stream messages, every status; gRPC library and QThread contracts assumed'),
 'P26': ('proof', 'every value of each type, every number of polygon points; Qt parsing, calendar, colour and image functions assumed'),
 'P27': ('proof', 'every number of fields, field kind, name and number; descriptor, printer and std containers assumed, type names assumed and compiled natively'),
 'P30': ('proof', 'every content of source and target; one class per field kind (both generator modes), larger classes natively; Qt container values, P17 and P18 contracts assumed'),
 'P31': ('proof', 'every instant and every valid Timestamp; QDateTime arithmetic assumed; meaning of nanos is a known finding'),
 'P32': ('proof', 'every number, name and text of credentials, every request kind; Qt request and hash contracts assumed; credential classes themselves natively'),
 'P29': ('proof', 'every order of error, finish, cancel and timeout in client and HTTP/2 channel; Qt event contracts assumed'),
}
NA = {
 'P28': 'the JSON serializer is not part of this build: its parser (3rdparty/microjson) is an empty submodule here, so qprotobufjsonserializer.cpp cannot be compiled, verified or replayed',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='true', hooks=dict(guard='none', enable='', source_commits=[]), checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CLAIMED:
        lv, note = CLAIMED[i]
        m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i, technique=T, level=lv, level_note=note))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
