#!/usr/bin/env python3
"""Writes checks/*.json and MANIFEST.json."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
C = {}
def check(prop, runs, bounds, assumptions=(), note='', pkg=''):
    C[prop] = dict(**(dict(Pkg=pkg) if pkg else {}), Property=prop, Runs=runs, Bounds=bounds, Assumptions=list(assumptions), _note=note)
def run(fn, reach=(), conc=False, budget=0, split=None, tier='', thorough=None, ms=0, maxsteps=0, **params):
    r = dict(Fn=fn, Params=params)
    if split: r['Split'] = split
    if conc: r['Conc'] = True
    if budget: r['Budget'] = budget
    if reach: r['Reach'] = list(reach)
    if tier: r['Tier'] = tier
    if ms: r['Ms'] = ms
    if maxsteps: r["MaxSteps"] = maxsteps
    if thorough:
        t = dict(Params={k: v for k, v in thorough.items() if k not in ('split', 'budget', 'ms')})
        if 'split' in thorough: t['Split'] = thorough['split']
        if 'budget' in thorough: t['Budget'] = thorough['budget']
        if 'ms' in thorough: t['Ms'] = thorough['ms']
        r['Thorough'] = t
    return r

check('C01', [
    run('ZC01', ['c01-end', 'refused'], records=2, kinds=8, pieces=2, split={'tail': [0, 1]}, thorough=dict(pieces=3, split={'tail': [0, 1], 'first': [1, 2, 3, 4, 5, 6, 7, 8]})),
    run('ZC01Any', ['c01-any-end', 'refused'], n=5, pieces=3, thorough=dict(n=6, pieces=4)),
    run('ZJSONFields', ['fields-end', 'refused', 'delivered']),
    run('ZC01Recv', ['recv-end'], conc=True, budget=1, proto=0, records=2, kinds=3, pieces=2),
    run('ZC01Recv', ['refused'], conc=True, budget=0, proto=0, records=2, kinds=8, pieces=2, thorough=dict(budget=1)),
    run('ZWSMessages', ['alive', 'too-large', 'wsmsg-end'], conc=True, budget=0, sels=0, msgs=2, proto=1, thorough=dict(msgs=3)),
], "JSON: two records of any of eight kinds (valid, typeless, malformed) with symbolic ids, targets, items, with and without an unfinished third record, "
   "cut into 2 (thorough 3) pieces at every position; every stream of 5 (thorough 6) bytes over { } 1 blank and 0x1e in every cut into 3 (4) pieces; "
   "messages of every kind with one field missing or having one of 13 values of all types; two records through a transport and hubConnection.Receive with one schedule deviation; two (thorough three) messages and the handshake in one to three WebSocket messages in several frames.")
check('C02', [
    run('ZC02', ['c02-end', 'refused'], records=2, kinds=7, pieces=3, split={'tail': [0, 1, 2]}, thorough=dict(records=3)),
    run('ZC02Long', ['c02-long-end'], records=2, lens=5, thorough=dict(lens=7)),
    run('ZMPFields', ['fields-end', 'refused', 'delivered']),
    run('ZC01Recv', ['recv-end'], conc=True, budget=1, proto=1, records=2, kinds=3, pieces=2),
    run('ZC01Recv', ['refused'], conc=True, budget=0, proto=1, records=2, kinds=7, pieces=2, thorough=dict(budget=1)),
    run('ZWSMessages', ['alive', 'too-large', 'wsmsg-end'], conc=True, budget=0, sels=0, msgs=2, proto=2, thorough=dict(msgs=3)),
], "MessagePack: two (thorough three) messages of any of seven kinds with symbolic ids, targets, items, with and without the head of a further one, cut into 3 pieces at every position; "
   "three to four messages with lengths around the boundaries of the length prefix (127/128, thorough 16383/16384) cut near every frame boundary; messages of every kind with one field of 14 values of all types, fields missing or added; two messages through a transport and hubConnection.Receive with one schedule deviation; two (thorough three) messages and the handshake in one to three WebSocket messages in several frames.")
check('C03', [
    run('ZC03', ['c03-end', 'refused'], max=16, records=3, pieces=2, split={'proto': [0, 1]}, thorough=dict(pieces=3)),
    run('ZC03', ['c03-end', 'refused'], max=130, records=2, pieces=1, split={'proto': [0, 1]}, thorough=dict(pieces=2)),
    run('ZC03Endless', ['endless-refused'], max=16, chunk=8, split={'proto': [0, 1]}, thorough=dict(chunk=24, max=40)),
    run('ZWSMessages', ['alive', 'too-large', 'wsmsg-end'], conc=True, budget=0, sels=0, msgs=2, thorough=dict(msgs=3)),
    run('ZBig', ['big-end', 'delivered', 'too-large'], conc=True, budget=0, sels=0, maxsteps=60000000),
], "both protocols, maximum 16 and 130: up to three messages of sizes far below, just below, at, just above and far above the maximum in any combination, cut into two (thorough three) pieces; an endless message arriving in chunks of 1 to 8 (24) bytes; a server and a client which get two (thorough three) messages below, at and above the maximum in one to three WebSocket messages; a message at, one byte below and above a maximum of 100, 40000 and 70000 over both transports in both directions.",
   ["a JSON record counts with its delimiter, a MessagePack message without its length prefix"])
check('C04', [
    run('ZCodec', ['codec-end'], proto=0, args=7, nargs=1, shapes=8, lens=1, split={'shape': [1, 2, 3, 4, 5, 6, 7, 8]}, thorough=dict(nargs=2, lens=5)),
], "JSON: every kind of message; one field at a time is any string of one or two ASCII bytes (controls, quotes and 0x1e included), any two-byte character, three- and four-byte characters with symbolic bytes, what looks like an escape sequence (with two symbolic characters), empty or 31 (thorough up to 300) equal characters; "
   "one (thorough two) arguments of seven types, up to 17 arguments and 16 stream ids.", ["strings are valid UTF-8, as the JSON protocol requires"])
check('C05', [
    run('ZCodec', ['codec-end'], proto=1, args=7, nargs=1, shapes=8, lens=5, thorough=dict(nargs=2)),
    run('ZMPLen', ['len-end'], split={'range': [1, 2]}, span=40, thorough=dict(span=300, split={'range': [1, 2, 3]})),
], "MessagePack: every kind of message; one field at a time is any string of one or two arbitrary bytes, multi-byte characters with symbolic bytes, what looks like an escape sequence, empty or 31, 32, 255, 256 or 300 equal characters; one (thorough two) arguments of seven types, up to 17 arguments and 16 stream ids; messages of all sizes from 100 to 140 and from 16354 to 16394 bytes.")
check('C06', [
    run('ZC06MP', ['c06-end', 'delivered', 'refused'], n=4, thorough=dict(n=6)),
    run('ZC06MP', ['c06-end', 'delivered', 'refused'], n=3),
    run('ZC06MP', ['c06-end', 'delivered', 'refused'], w=1, gap=1, split={'template': list(range(1, 13))}, thorough=dict(w=3, gap=3)),
    run('ZMPFields', ['fields-end', 'refused', 'delivered']),
    run('ZJSONFields', ['fields-end', 'refused', 'delivered']),
    run('ZC06JSON', ['c06-end', 'delivered', 'refused'], n=3, thorough=dict(n=4)),
    run('ZC06JSON', ['c06-end', 'delivered', 'refused'], w=1, gap=1, split={'template': list(range(1, 9))}, thorough=dict(w=2, gap=2)),
], "every MessagePack frame of 3 and 4 (thorough 6) symbolic bytes and every JSON record of 3 (4) symbolic bytes; 12 MessagePack and 8 JSON messages of all kinds in which, at every position, one (MessagePack thorough 3, JSON 2) symbolic bytes are inserted or replace one; "
   "messages of every kind with one field missing, added or having one of 13/14 values of all types; arguments of delivered invocations are decoded into parameters of six types.")

LEVEL_NOTE = ("Bounded: the verdict covers every value of the symbolic inputs (and every schedule up to the stated number of deviations) within the bounds listed in the evidence; nothing is claimed beyond them.")
TECH = "symbolic execution of the repository's go/ssa (regenerated from source on every run), path conditions and assertions decided by Z3; counterexamples replayed natively"
TECHC = "symbolic execution of the repository's go/ssa with goroutine schedules and time as symbolic decisions (bounded deviations), conditions and assertions decided by Z3; counterexamples replayed natively under a schedule controller"

NA = {}
if os.path.exists('tools/na.json'):
    NA = json.load(open('tools/na.json'))
exec(open('tools/checks_conc.py').read()) if os.path.exists('tools/checks_conc.py') else None

os.makedirs('checks', exist_ok=True)
for p, c in C.items():
    json.dump({k: v for k, v in c.items() if k[0] != '_'}, open(f'checks/{p}.json', 'w'), indent=1)
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = dict(version=1, setup_cmd='./build.sh', checks=[], not_applicable=[])
for p in props:
    if p in C:
        conc = any(r.get('Conc') for r in C[p]['Runs'])
        m['checks'].append(dict(property=p, quick_cmd=f'./check.sh {p} quick', thorough_cmd=f'./check.sh {p} thorough',
            technique=TECHC if conc else TECH, level='model_checking', level_note=(C[p]['_note'] + ' ' if C[p]['_note'] else '') + LEVEL_NOTE))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'no check yet')))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
