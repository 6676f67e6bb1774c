"""Sources of block heights, asked over a loopback web server (C34)."""
import http.server, socketserver, threading, os
for k in list(os.environ):
    if k.lower().endswith('_proxy'): del os.environ[k]
from common import *
import nbc.util

prop, tier, seed, outp = args()
q = tier == 'quick'
rnd = random.Random(seed * 7919 + shard()[0])
OUT = Out(outp)
quiet()
ev = OUT.ev
REPLY = [200, b'']


class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        code, body = REPLY
        if code == 0:
            self.wfile.write(b'nonsense\r\n')
            return
        self.send_response(code)
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *a): pass


class Server(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True

    def server_bind(self):
        socketserver.TCPServer.server_bind(self)
        self.server_name, self.server_port = 'localhost', self.server_address[1]


srv = Server(('127.0.0.1', 0), H)
t = threading.Thread(target=srv.serve_forever, args=(.05,)); t.daemon = True; t.start()
URL = 'http://127.0.0.1:%d/q' % srv.server_address[1]
NAMES = ['a', 'height', 'data', 'last_block', 'nb', '0', '1', 'blocks', '', '-1', 'h\xf6he']


def text(s): return by(s.encode('utf-8'))


def number():
    x = rnd.random()
    if x < .2: return rnd.choice([0, 1, -1, 10, 99999, 2 ** 31, 2 ** 64, -700000])
    return rnd.randrange(1000000)


def leaf():
    x = rnd.random()
    if x < .5: return number()
    if x < .7: return str(number())
    if x < .8: return rnd.choice([None, None, True, 1.5, 700000.0])
    return rnd.choice(['', 'abc', '12a', ' 12 ', '0x10', '1 2', '--1', '007', '+5', 'seven', '-', '1.5'])


def value(d):
    x = rnd.random()
    if d == 0 or x < .15: return leaf()
    if x < .65: return dict((rnd.choice(NAMES), value(d - 1)) for _ in range(rnd.choice([1, 1, 2, 3])))
    return [value(d - 1) for _ in range(rnd.choice([0, 1, 2, 3, 12]))]


def tla(v):
    if isinstance(v, bool) or isinstance(v, float): return {'k': 'u'}
    if isinstance(v, int): return {'k': 'i', 'v': text(str(v))}
    if isinstance(v, str): return {'k': 's', 'v': text(v)}
    if isinstance(v, dict): return {'k': 'd', 'names': [text(n) for n in v], 'vals': [tla(x) for x in v.values()]}
    if isinstance(v, list): return {'k': 'l', 'vals': [tla(x) for x in v]}
    return {'k': 'o'}


def some_path(v):
    """Mostly one that leads somewhere."""
    p = []
    while True:
        if rnd.random() < .06: break
        if isinstance(v, dict) and v:
            n = rnd.choice(list(v)) if rnd.random() < .92 else rnd.choice(NAMES)
            p.append(n); v = v.get(n)
        elif isinstance(v, list):
            i = rnd.randrange(len(v) + (rnd.random() < .1)) if v else 0
            n = str(i) if rnd.random() < .95 else rnd.choice(['x', '99', '007'])
            p.append(n); v = v[i] if i < len(v) else None
        else:
            break
    if rnd.random() < .08: p.append(rnd.choice(NAMES))
    if p and rnd.random() < .35:      # nearly the right way
        i = rnd.randrange(len(p))
        x = rnd.random()
        if x < .3: del p[i]
        elif x < .55: p.insert(i, rnd.choice(NAMES + p))
        elif x < .7: p[i] = p[i] + rnd.choice(['', 's', '0'])
        elif x < .8: p[i] = p[i].upper()
        elif x < .9: p = p + p[-1:]
        else: p.reverse()
    # positions from the end are not specified
    return '/'.join(x for x in p if x != '-1') if p else 'a'


def answer(r):
    if isinstance(r, int) and not isinstance(r, bool): return {'k': 'num', 'v': text(str(r))}
    return R(r)


def ask(f):
    return call(f, _conv=answer)


def written(v):
    """The same value in one of its spellings."""
    x = rnd.random()
    t = json.dumps(v) if x < .4 else json.dumps(v, ensure_ascii=False) if x < .6 else json.dumps(v, indent=rnd.choice([0, 1, 4])) if x < .8 else json.dumps(v, separators=(',', ':'))
    if rnd.random() < .2: t = rnd.choice([' ', '\n', '\r\n\t ', ' ' * 5000]) + t + rnd.choice(['\n', ' ', '', '\n' * 5000])
    return t.encode('utf-8')


def large():
    """Long payloads, long lists, many names, long ways."""
    for i in share(16 if q else 120):
        n = number(); x = i % 8
        k = rnd.choice([11, 100, 257, 1000])
        if x < 2: v, p = [number() for _ in range(k)] + [n], str(k)
        elif x < 4: v, p = dict(('n%d' % j, number()) for j in range(k)), 'n%d' % (k - 1)
        elif x < 6:
            v, p = n, []
            for j in range(rnd.choice([5, 17, 40])):
                v = {'d': v} if rnd.random() < .6 else [number(), v]
                p.insert(0, 'd' if isinstance(v, dict) else '1')
            p = '/'.join(p)
        else: v, p = {'text': 'x' * rnd.choice([5000, 70000, 200000]), 'n' * 300: n}, 'n' * 300
        REPLY[:] = [200, written(v)]
        if x >= 6: v = {'text': 'x', 'n' * 300: n}
        ev('path', val=tla(v), path=text(p), r=ask(nbc.util.fetch_url_json_path_int(URL, p)))
        s = rnd.choice(['-', '', '+', '000']) + str(rnd.randrange(1, 10)) * rnd.choice([20, 100, 1000])
        REPLY[:] = [200, s.encode()]
        ev('plain', text=text(s), r=ask(nbc.util.fetch_url_int(URL)))


def paths():
    for i in share(400 if q else 6000):
        v = value(rnd.choice([1, 2, 3, 3, 4]))
        REPLY[:] = [200, written(v)]
        p = some_path(v)
        ev('path', val=tla(v), path=text(p), r=ask(nbc.util.fetch_url_json_path_int(URL, p)))


def plains():
    for i in share(150 if q else 2000):
        s = rnd.choice([lambda: str(number()), lambda: '%d\n' % number(), lambda: ' %d\r\n' % number(), lambda: rnd.choice(['', 'abc', '<html>', '12a', '1 2', '-', '\n', '007', '{"height": 5}'])])()
        REPLY[:] = [200, s.encode()]
        ev('plain', text=text(s), r=ask(nbc.util.fetch_url_int(URL)))


def failing():
    for i in share(160 if q else 600):
        REPLY[:] = [rnd.choice([404, 500, 503, 0]), rnd.choice([b'5', b'{"a": 5}', b''])]
        ev('failed', r=ask(rnd.choice([nbc.util.fetch_url_int(URL), nbc.util.fetch_url_json_path_int(URL, 'a')])))
        REPLY[:] = [200, rnd.choice([b'{"a": 5', b'a: 5', b'', b'\xff\xfe', b'"a"', b'{"a": 5, "b": "\xff"}', b'{"a": 5, "\xc3": 1}', b'{"a": 5}x', b'{"a": 5} {"a": 6}', b'{"a": 5,}', b'{"a": 5]', b"{'a': 5}",
                                   b'{"a": 0x5}', b'{"a": 05}', b'[{"a": 5}', b'{"a": 5}\0', b'<p>{"a": 5}</p>', b'{"A": 5}', b'{"a": {}}', b'{"a": []}', b'{"a": ""}', b'callback({"a": 5})'])]
        ev('failed', r=ask(nbc.util.fetch_url_json_path_int(URL, 'a')))


for f in (paths, plains, large, failing):
    f()
OUT.end()
os._exit(0)
