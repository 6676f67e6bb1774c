#!/usr/bin/env python3
"""Writes MANIFEST.json.  Properties without an entry in LEVEL are listed as not claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ECDSA = ('spec/EcdsaTrace.tla over spec/{Big,Hash,Ec,Der,NumTheory,StdCurves}.tla; TLC judges every recorded call of the real code. ')
WIRE = 'spec/Wire.tla (field types, frames, reading) with spec/WireModel.tla and spec/WireTrace.tla; TLC judges every recorded call. '
TRUST = 'Trusted: TLC, the Java overrides of natural number arithmetic (cross-checked by BigSelf) and of hash functions (JDK), the recording driver.'
NODE = ('spec/NodeCore.tla is the state machine of a node; NodeMC (exhaustive small networks, all schedules, and simulation) checks the property on it, ' 
        'behaviours it generates are replayed into the real node, and NodeTrace checks every recorded run (bytes, sockets, clock, visible state) as a behaviour of it. ')
TRUSTN = TRUST.replace('the recording driver', 'the simulated sockets, clock and select')
WALLET = ('spec/Wallet.tla (with Base58, Aes, Der, Ec) specifies what wallets consist of; WalletModel checks it as a state machine of a wallet and its public half '
          'and against published vectors; WalletTrace lets TLC judge every recorded call and every wallet before and after. ')
AES = 'spec/Aes.tla is AES and its modes in TLA+; AesModel checks its laws and published vectors; AesTrace judges every recorded call. '
NOTE = {
    **dict((i, WALLET + TRUST) for i in ('C12', 'C13', 'C14', 'C15', 'C16', 'C18', 'C19', 'C20', 'C29', 'C33')),
    'C17': 'spec/Fs.tla is a file system with loss of power and spec/SaveModel.tla the machine that saves on it (wrong ways of saving are shown to fail); TLC-generated histories, every fault at every call, interruptions at every line and full disks run against the real code in processes of their own, and spec/SaveTrace.tla judges what is left, and what a loss of power could leave. ' + TRUST.replace('the recording driver', 'the fault injection library, the model of the disk'),
    'C30': 'spec/SeedModel.tla and spec/GuessModel.tla are the machines (wrong ways are shown to fail); behaviours TLC generates, all schedules with one switch and many random ones run on the real code instruction by instruction, and spec/ConcTrace.tla checks every recorded life as a linearisable behaviour. ' + TRUST.replace('the recording driver', 'the scheduler that replaces threads, locks and clocks'),
    'C34': 'spec/Source.tla defines the number at a path of a JSON value; SourceModel checks its laws; SourceTrace judges every recorded question over a loopback server. ' + TRUST,
    'C35': 'spec/Gateway.tla and spec/PortMC.tla are the machine of nodes, gateway and other hosts (exhaustive for small tables; ways known to be wrong are shown to fail); behaviours TLC generates and random ones are played to the real node, and spec/PortTrace.tla checks every recorded life as a behaviour. ' + TRUST.replace('the recording driver', 'the played gateway library and sockets'),
    'C27': AES + TRUST, 'C28': AES + TRUST,
    'C01': NODE + 'StreamModel: all cuttings of small streams. ' + TRUSTN, 'C02': NODE + 'SendModel: all ways the network takes queued bytes. ' + TRUSTN,
    'C21': ECDSA + 'CurveModel checks the group laws of the specification exhaustively on toy curves; the code runs on all points of toy curves and on the standard curves. ' + TRUST,
    'C22': ECDSA + 'EcdsaModel checks completeness/soundness of the specified scheme exhaustively on toy groups. ' + TRUST,
    'C23': ECDSA + 'Every byte of the nonce generator is recomputed by the specification. ' + TRUST,
    'C24': ECDSA + 'NumModel checks the specified functions against first principles. ' + TRUST,
    'C25': ECDSA + 'DerModel checks that reading inverts writing, uniqueness and prefix freedom. ' + TRUST,
    'C26': ECDSA + TRUST,
    **dict((i, NODE + TRUSTN) for i in ('C03', 'C04', 'C05', 'C06', 'C07', 'C08')),
    'C09': WIRE + TRUST, 'C10': WIRE + TRUST, 'C11': WIRE + TRUST, 'C31': WIRE + TRUST, 'C32': WIRE + TRUST,
}
p = os.path.join(HERE, 'tools', 'notes.json')
if os.path.exists(p):
    NOTE.update(json.load(open(p)))
TECH = 'TLA+ specification checked with TLC; recorded behaviour of the real code validated against it by TLC'
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
for d in props:
    i = d['id']
    if i in NOTE:
        n = NOTE[i]
        tech = TECH
        if isinstance(n, list):
            tech, n = n
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': 'model_checking', 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'the check is not built yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
