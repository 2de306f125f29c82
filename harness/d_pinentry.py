"""Asks for passphrases of a scripted user, directly and through an agent."""
import getpass
import io
import os
import shutil
import socket
import tempfile
import threading
import hlib


class Endless(BaseException):
    pass


class Interrupted(KeyboardInterrupt):
    pass


class User(object):
    """Types what the script says, its last word for ever."""

    def __init__(self):
        self.script, self.took = [], 0

    def type(self, *a, **kw):
        if self.took > 60:
            raise Endless()
        w = self.script[min(self.took, len(self.script) - 1)]
        self.took += 1
        if w == 'INT':
            raise Interrupted()
        return WORDS.get(w, w)


WORDS = {'p': 'corr\u00e9ct % 41+', 'q': 'correct', '1': '', '2': ' two ',
         'z': 'zzz'}
BACK = dict((v, k) for k, v in WORDS.items())
USER = User()
getpass.getpass = USER.type     # before it is imported from there
from pgp.pinentry import getpass as direct       # noqa
from pgp.pinentry import gpg_agent as agent      # noqa
if hasattr(direct, 'getpass') and callable(direct.getpass):
    direct.getpass = USER.type


def escaped(text):
    out = b''
    for c in bytearray(text.encode('utf8')):
        out += b'%%%02X' % c if c in (37, 10, 13) else bytes([c])
    return out


class Agent(object):
    """One that answers on a socket."""

    def __init__(self, path, sc):
        self.sc = sc
        self.sent, self.whole = [], True
        self.cache = {}
        self.open = []
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.bind(path)
        self.sock.listen(5)
        t = threading.Thread(target=self.serve)
        t.daemon = True
        t.start()

    def serve(self):
        while True:
            try:
                c = self.sock.accept()[0]
            except OSError:
                return
            self.open.append(c)
            t = threading.Thread(target=self.one, args=(c,))
            t.daemon = True
            t.start()

    def write(self, c, data):
        n = self.sc['seg'] or len(data) or 1
        for i in range(0, len(data), n):
            c.sendall(data[i:i + n])

    def one(self, c):
        try:
            greet = [b'OK Pleased to meet you']
            if self.sc['kind'] == 'answer':
                greet = [bytes(l) for l in self.sc['greet']]
            self.write(c, b''.join(l + b'\n' for l in greet))
            if not greet:
                return
            buf = b''
            while True:
                while b'\n' in buf:
                    line, buf = buf.split(b'\n', 1)
                    self.sent.append(line)
                    reply, more = self.answer(line)
                    self.write(c, reply)
                    if not more:
                        return
                b = c.recv(4096)
                if not b:
                    break
                buf += b
            self.whole = self.whole and not buf
        except OSError:
            pass
        finally:
            c.close()

    def answer(self, line):
        words = line.split(b' ')
        if words[0] in (b'OPTION', b'NOP', b'RESET', b'BYE'):
            return b'OK\n', words[0] != b'BYE'
        if self.sc['kind'] == 'answer':
            return b''.join(bytes(l) + b'\n' for l in self.sc['lines']), False
        if self.sc['kind'] != 'history':
            return b'D p\nOK\n', True
        opts = [w for w in words[1:] if w.startswith(b'--')]
        args = [w for w in words[1:] if not w.startswith(b'--')]
        name = args[0] if args else b'X'
        if words[0] == b'CLEAR_PASSPHRASE':
            self.cache.pop(name, None)
            return b'OK\n', True
        if words[0] != b'GET_PASSPHRASE' or b'--data' not in opts:
            return b'ERR 275 Unknown command\n', True
        if name != b'X' and name in self.cache:
            return b'D ' + escaped(self.cache[name]) + b'\nOK\n', True
        if b'--no-ask' in opts:
            return b'ERR 67108922 No data <GPG Agent>\n', True
        rep = 0
        for o in opts:
            if o.startswith(b'--repeat'):
                rep = int(o.split(b'=')[1]) if b'=' in o else 1
        try:
            while True:
                got = [USER.type() for i in range(rep + 1)]
                if len(set(got)) == 1:
                    break
        except BaseException:
            return b'ERR 83886179 Operation cancelled <Pinentry>\n', True
        if name != b'X':
            self.cache[name] = got[0]
        return (b'D ' + escaped(got[0]) + b'\n' if got[0] else b'') + \
            b'OK\n', True

    def close(self):
        for s in [self.sock] + self.open:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        self.sock.close()


def history(sc, pin):
    seen = []
    for o in sc['ops']:
        USER.script, USER.took = o['script'], 0
        if o['do'] == 'clear':
            res, v = hlib.guarded(pin.clear_passphrase, o['id'])
            seen.append({'got': 'ok' if res == 'ok' else 'failed', 'took': 0})
            continue
        kw = {}
        if sc['back'] == 'getpass':
            kw['stream'] = io.StringIO()
        try:
            res, v = hlib.guarded(
                pin.get_passphrase, cache_id=o['id'] or None,
                use_cache=o['use'], no_ask=o['noask'], repeat=o['rep'], **kw)
            if res == 'hang':
                got = 'never'
            elif res == 'err' or not isinstance(v, str):
                got = 'refused'
            else:
                got = '=' + BACK.get(v, v)
        except Interrupted:
            got = 'refused'
        except Endless:
            got = 'never'
        seen.append({'got': got, 'took': USER.took})
    return seen


def chars(t, none):
    return ''.join(map(chr, t)) if t or not none else None


def handler(sc):
    rec = {k: sc[k] for k in ('kind', 'ops', 'q', 'lines', 'greet', 'then',
                              'back')}
    rec.update(res='', got=[], sent=[], whole=True, seen=[])
    if sc['back'] == 'getpass':
        rec['seen'] = history(sc, direct.GetPassPinentry())
        return rec
    d = tempfile.mkdtemp(prefix='vf24')
    double = None
    try:
        path = os.path.join(d, 'S.agent')
        double = Agent(path, sc)
        if sc['env']:
            os.environ['GPG_AGENT_INFO'] = path + ':4711:1'
            pin = agent.GPGAgentPinentry()
        else:
            os.environ.pop('GPG_AGENT_INFO', None)
            pin = agent.GPGAgentPinentry(socket_path=path)
        if sc['kind'] == 'history':
            rec['seen'] = history(sc, pin)
            return rec
        q = sc['q']
        if sc['kind'] == 'clear':
            rec['res'], v = hlib.guarded(pin.clear_passphrase,
                                         chars(q['id'], False))
        elif sc['kind'] == 'request':
            rec['res'], v = hlib.guarded(
                pin.get_passphrase, prompt=chars(q['prompt'], q['none']),
                error_message=chars(q['error'], q['none']),
                description=chars(q['desc'], q['none']),
                cache_id=chars(q['id'], q['none']), use_cache=q['use'],
                no_ask=q['noask'], qualitybar=q['bar'], repeat=q['rep'])
        elif sc['then'] == 'clear':
            rec['res'], v = hlib.guarded(pin.clear_passphrase, 'entry')
        else:
            rec['res'], v = hlib.guarded(pin.get_passphrase, prompt='PIN?',
                                         cache_id='entry')
            if rec['res'] == 'ok':
                rec['got'] = hlib.ints(v.encode('utf8')) \
                    if isinstance(v, str) else [-1]
        rec['sent'] = [hlib.ints(l) for l in double.sent]
        rec['whole'] = double.whole
    finally:
        if double is not None:
            double.close()
        shutil.rmtree(d)
    return rec


hlib.LIMIT = 10
threading.stack_size(1 << 19)
hlib.run(handler)
