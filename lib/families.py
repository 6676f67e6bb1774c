"""What each check runs: the models, the driver, the trace specification."""
from concurrent.futures import ThreadPoolExecutor
import json, os, re
from vlib import run_driver, run_tlc, faultfs, Machinery

CHECKS = {}


def check(*props):
    def d(f):
        for p in props:
            CHECKS[p] = f
        return f
    return d


def drive(c, script, timeout=600, extra=(), name='events', env=None, shards=1):
    """Events of one driver run (or of several at once, each with its own share of the cases);
    a driver that dies is a failure of the property."""
    def one(k):
        e = dict(env or {})
        e['SHARD'] = '%d/%d' % (k, shards)
        return run_driver(script, [c.prop, c.tier, c.seed] + list(extra), os.path.join(c.tmp, '%s.%d.raw' % (name, k)), timeout=timeout, env=e)
    with ThreadPoolExecutor(shards) as ex:
        parts = list(ex.map(one, range(shards)))
    events = [e for p in parts for e in p[0]]
    for p in parts:
        if p[1]:
            c.fail(c.prop + '.driver', {'op': 'driver', 'problem': p[1][-1500:]}, name)
            break
    return events


def mine(c):
    return lambda clause: clause.startswith(c.prop + '.')


def spec_cfg(invs, consts='', extra=''):
    return 'SPECIFICATION Spec\nINVARIANTS %s\n%s\nCHECK_DEADLOCK FALSE\n%s' % (' '.join(invs), consts, extra)


def big_self(c):
    q = c.tier == 'quick'
    c.model('BigSelf', spec_cfg(['Arith'], 'CONSTANTS Max = %d MaxM = %d' % ((70, 5) if q else (300, 12))))


def hash_self(c):
    c.model('HashSelf', spec_cfg(['Agrees']))


def ecdsa_models(c):
    q = c.tier == 'quick'
    if c.prop == 'C23':
        hash_self(c)
    if c.prop in ('C21', 'C22', 'C24', 'C25'):
        big_self(c)
    if c.prop == 'C21':
        c.model('CurveModel', spec_cfg(['Group', 'Multiples'], 'CONSTANT NCurves = %d' % (3 if q else 7)))
    if c.prop in ('C22', 'C23'):
        c.model('EcdsaModel', spec_cfg(['Order', 'Complete', 'Sound', 'Nonce'],
                                       'CONSTANT NGroups = %d' % (2 if q else 3)))
    if c.prop == 'C24':
        c.model('NumModel', spec_cfg(['Euler', 'Jacobi', 'Fact', 'Gcd'], 'CONSTANT Max = %d' % (36 if q else 90)))
    if c.prop == 'C25':
        c.model('DerModel', spec_cfg(['IntRead', 'Unique', 'Minimal', 'TagRead', 'SeqRead', 'Pem64'],
                                     'CONSTANTS MaxInt = %d Lens = {0, 1, 2, 126, 127, 128, 129, 255, 256, 257}' % (300 if q else 70000)))


@check('C21', 'C22', 'C23', 'C24', 'C25', 'C26')
def ecdsa(c):
    ecdsa_models(c)
    ev = drive(c, 'drv_ecdsa.py')
    if ev:
        c.judge('EcdsaTrace', ev, mine(c))


@check('C09', 'C10', 'C11', 'C31', 'C32')
def wire(c):
    q = c.tier == 'quick'
    if c.prop in ('C09', 'C10', 'C11'):
        c.model('WireModel', spec_cfg(['RoundTrip', 'Prefixes', 'Damaged', 'FitsAll', 'Texts', 'VarInts'],
                                      'CONSTANTS MaxK = %d NGroupVals = %d' % ((40, 2) if q else (1500, 4))))
    ev = drive(c, 'drv_wire.py')
    if ev:
        c.judge('WireTrace', ev, mine(c))



NODE_INV = ['Book', 'Learned', 'NoTwice', 'NoOwn', 'Alive', 'Exiled', 'Penalties', 'Limit', 'Voting', 'NotDead', 'NotQuiet', 'PingGaps', 'Sums', 'Printed']


def node_consts(depth, doing, dts='0,11,301,1801,3600,10801', ips='1,2', ports='1001', conns=3, peers=2, seek=1, seed=False, emit=False):
    return ('CONSTANTS Depth = %d Ips = {%s} Ports = {%s} Dts = {%s} MaxConns = %d Exts = {3, 4} MaxPeers = %d Seek = %d HasSeed = %s Listen = TRUE Emit = %s Doing = {%s}'
            % (depth, ips, ports, dts, conns, peers, seek, str(seed).upper(), str(emit).upper(), ', '.join('"%s"' % x for x in doing.split())))


# small networks that matter to each property: (constants, depth quick, depth thorough)
ALL = 'pass in add remove punish gone msg'
NODE_SMALL = {
    'C03': [(dict(doing='in msg pass', dts='11'), 5, 7)],
    'C04': [(dict(doing='pass in msg gone', dts='11,10801'), 5, 7)],
    'C05': [(dict(doing='pass in punish gone', dts='0,11,3599,3600,3601', ports='1,2'), 5, 7)],
    'C06': [(dict(doing='add in gone pass remove', dts='11', conns=4, seek=2, seed=True), 5, 8), (dict(doing=ALL), 4, 6)],
    'C07': [(dict(doing='pass in msg', dts='11,301,1800,1801,10801'), 5, 6)],
    'C08': [(dict(doing='in msg gone setext pass', dts='11', conns=4), 5, 7)],
}


def node_scenarios(c):
    """Behaviours of the node specification, as a list of what its environment does."""
    q = c.tier == 'quick'
    depth = 18
    seen, out = set(), []
    for (k, kw) in enumerate([dict(peers=4, seek=2), dict(peers=2, seek=1, seed=True)]):
        r = c.model('NodeMC', spec_cfg(NODE_INV, node_consts(depth, ALL + (' setext' if c.prop in ('C08', 'C06') else ''), emit=True, conns=6, ips='1,2,3', ports='1001,1002',
                                                             dts='0,1,5,11,301,1801,3600,3601,10801', **kw)),
                    name='NodeMC scenarios', workers=1, simulate=16 if q else 250, depth=depth + 4, seed=c.seed * 10 + k)
        for m in re.finditer(r'^<<"ACTS", (".*")>>\s*$', r.out, re.M):
            acts = json.loads(json.loads(m.group(1)))
            key = json.dumps(acts[:-1])
            if key not in seen:
                seen.add(key); out.append(acts)
    if not out:
        raise Machinery('no scenarios generated')
    out = out[:25 if q else 400]
    path = os.path.join(c.tmp, 'scenarios')
    with open(path, 'w') as f:
        for a in out:
            f.write(json.dumps(a) + '\n')
    c.notes['scenarios_from_spec'] = len(out)
    return path


@check('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08')
def node(c):
    q = c.tier == 'quick'
    if c.prop in ('C01', 'C03'):
        c.model('StreamModel', spec_cfg(['Order', 'Complete', 'Prompt', 'Counted', 'Bounded'],
                                        'CONSTANTS MaxMsgs = %d Steps = {%s}' % (2 if q else 3, '1, 2, 5, 13, 24, 33' if q else '1, 2, 3, 4, 5, 8, 13, 19, 20, 23, 24, 25, 33, 56')))
    if c.prop == 'C02':
        c.model('SendModel', spec_cfg(['Accepts', 'Exact', 'Drained', 'Damage'],
                                      'CONSTANTS MaxMsgs = %d Steps = {%s}' % (1 if q else 2, '1, 5, 23, 24, 32' if q else '1, 2, 3, 5, 23, 24, 25, 32, 100')))
    for (kw, dq, dt) in NODE_SMALL.get(c.prop, []):
        c.model('NodeMC', spec_cfg(NODE_INV, node_consts(dq if q else dt, **kw), 'VIEW View'), timeout=600)
    ev = drive(c, 'drv_node.py', extra=[node_scenarios(c)])
    if ev:
        c.judge_runs('NodeTrace', ev, mine(c))


@check('C27', 'C28')
def ciphers(c):
    q = c.tier == 'quick'
    c.model('AesModel', spec_cfg(['Field', 'Vector', 'Inverse', 'Padding', 'Feeding'], 'CONSTANT MaxLen = %d' % (49 if q else 130)))
    ev = drive(c, 'drv_aes.py')
    if ev:
        c.judge('AesTrace', ev, mine(c))


@check('C12', 'C13', 'C14', 'C15', 'C16', 'C18', 'C19', 'C20', 'C29', 'C33')
def wallets(c):
    q = c.tier == 'quick'
    if c.prop in ('C12', 'C14', 'C18'):
        hash_self(c)
    c.model('WalletModel', spec_cfg(['Halves', 'Exported', 'Bijection', 'KeyTexts', 'Field', 'Vectors'],
                                    'CONSTANTS MaxDepth = %d MaxText = %d' % ((2, 3) if q else (4, 5))))
    ev = drive(c, 'drv_wallet.py', shards=8)
    if ev:
        c.judge('WalletTrace', ev, mine(c))


SAVE_WAYS = {'atomic': [], 'nosync': ['PowerSafe'], 'inplace': ['Safe'], 'remove': ['Safe'], 'early': ['Safe']}


@check('C17')
def saving(c):
    q = c.tier == 'quick'
    conf = lambda way, emit=False: spec_cfg(['Safe', 'PowerSafe', 'Kept'] + (['Out'] if emit else []),
        'CONSTANTS Way = "%s" MaxSaves = %d MaxHarm = %d Emit = %s%s' % (way, 3 if q or emit else 5, 3 if q or emit else 5, 'TRUE' if emit else 'FALSE', '' if emit else '\nVIEW View'))
    for way, broken in SAVE_WAYS.items():
        if not broken:
            c.model('SaveModel', conf(way))
        else:
            # ways of writing known to be wrong: the invariants must notice
            r = run_tlc('SaveModel', conf(way), expect_ok=False)
            if r.violated != broken:
                raise Machinery('SaveModel %s: %s instead of %s\n%s' % (way, r.violated, broken, r.out[-2000:]))
    r = c.model('SaveModel', conf('atomic', True), name='SaveModel scenarios', workers=1, simulate=60 if q else 600, depth=40, seed=c.seed)
    acts = list(dict.fromkeys(json.loads(m.group(1)) for m in re.finditer(r'^<<"ACTS", (".*")>>\s*$', r.out, re.M)))
    path = os.path.join(c.tmp, 'scenarios')
    with open(path, 'w') as f:
        for a in acts[:24 if q else 240]:
            f.write(a + '\n')
    c.notes['scenarios_from_spec'] = len(acts[:24 if q else 240])
    lib = faultfs()
    ev = drive(c, 'drv_save.py', extra=[path], env={'LD_PRELOAD': lib, 'FAULTFS': lib}, shards=8)
    if ev:
        # C17.model: what was asked of the file system cannot be followed, so the loss of power is not judged
        r = c.judge_runs('SaveTrace', ev, lambda x: x.startswith('C17.') and x != 'C17.model')
        c.notes['power_not_judged'] = len([v for v in r.verdicts if 'C17.model' in v[1]])


def broken_ways(c, module, ways, conf):
    """The right way satisfies the invariants; ways known to be wrong break the given one."""
    for way, broken in ways.items():
        if not broken:
            c.model(module, conf(way), name='%s %s' % (module, way))
        else:
            r = run_tlc(module, conf(way), expect_ok=False)
            if not r.violated or r.violated[0] not in broken:
                raise Machinery('%s %s: %s instead of %s\n%s' % (module, way, r.violated, broken, r.out[-2000:]))
            c.notes.setdefault('wrong_ways_refuted', []).append('%s %s' % (module, way))


@check('C30')
def concurrent(c):
    q = c.tier == 'quick'
    def seeds(way, emit=False, size=None):
        n = size or ((2, 2, 2, 1) if q else (3, 2, 2, 2))
        return spec_cfg(['Once', 'Kept', 'Others'] + (['Out'] if emit else []),
            'CONSTANTS Way = "%s" NSeeds = %d MaxResults = %d NCallers = %d MaxCalls = %d Emit = %s%s' % ((way,) + n + ('TRUE' if emit else 'FALSE', '' if emit else '\nVIEW View')))
    broken_ways(c, 'SeedModel', {'lock': None, 'nolock': ['Kept'], 'peek': ['Once', 'Kept'], 'serial': ['Others']},
                lambda w: seeds(w, size=None if w == 'lock' else (2, 2, 2, 1)))
    broken_ways(c, 'GuessModel', {'deadline': None, 'each': ['Bounded', 'Exact'], 'live': ['Exact'], 'serial': ['Exact', 'Bounded']},
                lambda w: spec_cfg(['Bounded', 'Exact'], 'CONSTANTS Way = "%s" N = %d Limit = 2 Horizon = 3' % (w, 3 if q else 4)))
    r = c.model('SeedModel', seeds('lock', True, (2, 2, 2, 2)), name='SeedModel scenarios', workers=1, simulate=300 if q else 5000, depth=60, seed=c.seed)
    lives = list(dict.fromkeys(json.loads(m.group(1)) for m in re.finditer(r'^<<\s*"LIFE",\s*(".*?")\s*>>\s*$', r.out, re.M | re.S)))
    path = os.path.join(c.tmp, 'scenarios')
    with open(path, 'w') as f:
        for a in lives:
            f.write(a.replace('\n', ' ') + '\n')
    if not lives:
        raise Machinery('no behaviours from SeedModel')
    c.notes['scenarios_from_spec'] = len(lives)
    ev = drive(c, 'drv_conc.py', extra=[path], shards=8)
    if ev:
        c.judge_runs('ConcTrace', ev, mine(c))


@check('C34')
def sources(c):
    q = c.tier == 'quick'
    c.model('SourceModel', spec_cfg(['Compose', 'Splits', 'Within', 'Leaf'], 'CONSTANT Deep = %s' % ('FALSE' if q else 'TRUE')))
    ev = drive(c, 'drv_src.py', shards=8)
    if ev:
        c.judge('SourceTrace', ev, mine(c))


@check('C35')
def ports(c):
    q = c.tier == 'quick'
    def conf(way, top=3, others=1, fails=1, emit=False):
        return spec_cfg(['Foreigners', 'Clean', 'Reachable', 'Ports', 'Silent'] + (['Out'] if emit else []),
                        'CONSTANTS Way = "%s" PTop = %d Others = %d Fails = %d Rich = TRUE Emit = %s%s' % (way, top, others, fails, str(emit).upper(), '' if emit else '\nVIEW View'))
    broken_ways(c, 'PortMC', {'right': None, 'blind': ['Foreigners'], 'last': ['Foreigners'], 'sure': ['Foreigners'],
                              'delown': ['Foreigners', 'Clean'], 'polite': ['Clean'], 'shy': ['Reachable']},
                lambda w: conf(w) if w != 'right' or q else conf(w, 4, 2, 2))
    r = c.model('PortMC', conf('right', 4, 3, 2, True), name='PortMC scenarios', workers=1, simulate=400 if q else 6000, depth=60, seed=c.seed)
    lives = list(dict.fromkeys(json.loads(m.group(1)) for m in re.finditer(r'^<<\s*"PORTS",\s*(".*?")\s*>>\s*$', r.out, re.M | re.S)))
    if not lives:
        raise Machinery('no behaviours from PortMC')
    path = os.path.join(c.tmp, 'scenarios')
    with open(path, 'w') as f:
        for a in lives:
            f.write(a.replace('\n', ' ') + '\n')
    c.notes['scenarios_from_spec'] = len(lives)
    ev = drive(c, 'drv_port.py', extra=[path], shards=8)
    if ev:
        c.judge_runs('PortTrace', ev, mine(c))
