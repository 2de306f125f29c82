"""Talks to a scripted keyserver."""
import base64
import binascii
import io
import os
import re
import time
from urllib.parse import unquote_plus, urlsplit
import requests
import requests.adapters
import urllib3
import hlib
from hlib import guarded, ints, text
import pgpkit as P
from pgp.keyserver import get_keyserver
from ringkit import KEYS, UNKNOWN, identify, key_object, raw


class Server(object):

    def __init__(self):
        self.script, self.sent = [], []

    def send(self, adapter, request, *a, **kw):
        parts = urlsplit(request.url)
        body = request.body or b''
        if isinstance(body, str):
            body = body.encode('latin-1')
        host = parts.netloc.rsplit('@', 1)[-1]
        if parts.port is not None:
            host = host[:host.rindex(':')]
        self.sent.append({
            'method': request.method, 'scheme': parts.scheme, 'host': host,
            'port': parts.port or {'http': 80, 'https': 443}[parts.scheme],
            'path': parts.path, 'query': parts.query, 'body': body})
        if not self.script:
            raise requests.ConnectionError('nothing more')
        status, headers, data = self.script.pop(0)
        return adapter.build_response(request, urllib3.HTTPResponse(
            body=io.BytesIO(data), headers=headers, status=status,
            preload_content=False, reason='As told'))


SERVER = Server()
requests.adapters.HTTPAdapter.send = \
    lambda self, request, *a, **kw: SERVER.send(self, request, *a, **kw)


def crc24(data):
    crc = 0xb704ce
    for c in bytearray(data):
        crc ^= c << 16
        for i in range(8):
            crc <<= 1
            if crc & 0x1000000:
                crc ^= 0x1864cfb
    return bytearray([crc >> 16 & 255, crc >> 8 & 255, crc & 255])


def armor(data, shape):
    b = base64.b64encode(bytes(data)).decode()
    lines = ['-----BEGIN PGP PUBLIC KEY BLOCK-----']
    if shape == 'headers':
        lines += ['Version: SKS 1.1.5', 'Comment: Hostname: keys.example.org']
    lines.append('')
    lines += [b[i:i + 64] for i in range(0, len(b), 64)]
    lines.append('=' + base64.b64encode(bytes(crc24(data))).decode())
    lines += ['-----END PGP PUBLIC KEY BLOCK-----', '']
    out = ('\r\n' if shape == 'crlf' else '\n').join(lines)
    if shape == 'blank':
        out = '\n' + out
    return out


def dearmor(s):
    """(type, octets) of what a reader of armor takes, or None"""
    m = re.match(r'-----BEGIN PGP ([A-Z ]+)-----\r?\n((?:[^\r\n]+: [^\r\n]*'
                 r'\r?\n)*)\r?\n([A-Za-z0-9+/=\r\n]+?)\r?\n=([A-Za-z0-9+/]{4})'
                 r'\r?\n-----END PGP \1-----\s*\Z', s)
    if not m:
        return None
    try:
        data = base64.b64decode(re.sub(r'\s', '', m.group(3)), validate=True)
        crc = base64.b64decode(m.group(4))
    except binascii.Error:
        return None
    return (m.group(1), data) if bytes(crc24(data)) == crc else None


def posted(body):
    """What key was submitted and the rest of the form."""
    rest, keys, leak = [], [], False
    for pair in body.decode('latin-1').split('&'):
        name, _, value = pair.partition('=')
        if unquote_plus(name) != 'keytext':
            rest.append(pair)
            continue
        got = dearmor(unquote_plus(value))
        if got is None:
            keys.append(UNKNOWN)
            continue
        try:
            tags = [t for t, b in P.parse(got[1])]
        except Exception:
            tags = []
        leak = leak or 5 in tags or 7 in tags
        keys.append(identify(got[1], False)
                    if got[0] == 'PUBLIC KEY BLOCK' else UNKNOWN)
    return keys[0] if len(keys) == 1 else UNKNOWN, leak, '&'.join(rest)


def digits(x):
    return [] if x is None else text(str(int(x)))


def moment(x):
    return [] if x is None else digits(round(x.timestamp()))



FLAG = {'revoked': 'r', 'disabled': 'd', 'expired': 'e'}


def flag_list(x):
    return [FLAG[n] for n in FLAG if getattr(x, n)]


def result(r):
    return {'id': text(r.key_id), 'alg': digits(r.public_key_algorithm),
            'bits': digits(r.bit_length), 'created': moment(r.created),
            'expires': moment(r.expires), 'flags': flag_list(r),
            'uids': [{'text': ints(u.user_id.encode('utf8')),
                      'created': moment(u.created),
                      'expires': moment(u.expires), 'flags': flag_list(u)}
                     for u in r.user_ids]}


def identifier(o):
    k = P.Key('elgA') if o['form'].startswith('sub') else KEYS[o['k']]
    s = {'fp': k.fp_hex(), 'long': k.keyid_hex(),
         'short': k.keyid_hex()[-8:]}[o['form'].split()[-1]]
    return s.upper() if o['upper'] else s.lower()


def described(key):
    return identify(b''.join(map(bytes, key.to_packets())), False)


def key_answer(o):
    if o['shape'] == 'empty':
        return b''
    if o['shape'] == 'html':
        return b'<html><body>No results found</body></html>\r\n'
    data = b''.join(raw(x['k'], x['v'], False, 'old') for x in o['keys'])
    a = armor(data, o['shape'])
    if o['shape'] == 'cut':
        a = a[:len(a) // 2]
    elif o['shape'] == 'garbled':
        at = len(a) // 2
        while a[at] in '\r\nAB':
            at += 1
        a = a[:at] + 'A' + a[at + 1:]
    return a.encode('ascii')


def answer(o, data):
    headers = {}
    if o['type']:
        headers['Content-Type'] = o['type']
    out = [(o['status'], headers, data)]
    if o['do'] in ('search', 'get') and o['then'] == 302:
        out.insert(0, (302, {'Location': 'http://other.example.org/x'}, b''))
    return out


def one(server, o):
    s = {'res': '', 'found': [], 'got': UNKNOWN, 'id': [], 'leaks': False,
         'posted': UNKNOWN}
    SERVER.sent = []
    if o['do'] == 'search':
        SERVER.script = answer(o, bytes(o['text']))
        s['res'], v = guarded(
            lambda: [result(r) for r in server.search(
                ''.join(map(chr, o['terms'])), exact=o['exact'])])
        if s['res'] == 'ok':
            s['found'] = v
    elif o['do'] in ('get', 'found'):
        i = identifier(o)
        s['id'] = text(i)
        if o['do'] == 'found':
            lines = ['info:1:2', 'pub:%s:1:1024:5::' % ('9' * 16), 'uid:x:5::']
            lines.insert(1 if o['then'] == 1 else 3,
                         'pub:%s:17:1024:1400000000::' % i)
            SERVER.script = [(200, {'Content-Type': 'text/plain'},
                              '\n'.join(lines).encode('ascii'))]
            r, found = guarded(lambda: server.search('x'))
            if r != 'ok' or len(found) != 2:
                s['res'] = 'err'
                s['sent'] = []
                return s
            SERVER.sent = []
            fetch = found[o['then'] - 1].get
            SERVER.script = answer(o, key_answer(o))
            s['res'], v = guarded(lambda: described(fetch()))
        else:
            SERVER.script = answer(o, key_answer(o))
            s['res'], v = guarded(
                lambda: described(server.get(i, exact=o['exact'])))
        if s['res'] == 'ok':
            s['got'] = v
    else:
        SERVER.script = answer(o, b'Key block added')
        s['res'], v = guarded(server.submit,
                              key_object(o['k'], o['v'], o['secret']),
                              no_modify=o['nm'])
    sent = SERVER.sent
    if o['do'] in ('search', 'get') and o['then'] == 302:
        sent = sent[:1]
    for q in sent:
        if q['method'] == 'POST':
            s['posted'], leak, q['body'] = posted(q['body'])
            s['leaks'] = s['leaks'] or leak
        else:
            q['body'] = q['body'].decode('latin-1')
        q['query'], q['body'] = text(q['query']), text(q['body'])
    s['sent'] = sent
    return s


def handler(sc):
    os.environ['TZ'] = sc['tz']
    time.tzset()
    b = dict(sc['base'])
    url = '%s://%s%s%s' % (b['scheme'].upper() if b['upper'] else b['scheme'],
                           b['host'], ':%d' % b['port'] if b['port'] else '',
                           b['path'])
    b['host'] = b['host'].lower()
    rec = {'kind': sc['kind'], 'base': b, 'ops': sc['ops'], 'seen': []}
    server = get_keyserver(url)
    for o in sc['ops']:
        rec['seen'].append(one(server, o))
    return rec


hlib.LIMIT = 20
hlib.run(handler)
