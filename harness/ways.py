"""Every way in which octets are handed to the readers of keys and messages:
as they are, armored as text or octets, from files, said to be armored or
not.  The armor is made here, not by the library.
"""
import atexit
import base64
import os
import shutil
import tempfile

_dir = []


def _path():
    if not _dir:
        _dir.append(tempfile.mkdtemp(prefix='vf-ways-'))
        atexit.register(shutil.rmtree, _dir[0], True)
    return os.path.join(_dir[0], 'f')


def _crc(data):
    c = 0xb704ce
    for o in bytearray(data):
        c ^= o << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= 0x1864cfb
    return bytes([c >> 16 & 255, c >> 8 & 255, c & 255])


def armor(label, data, heads=(), eol='\n', width=64, before=0):
    b = base64.b64encode(bytes(data)).decode()
    lines = [''] * before + ['-----BEGIN PGP %s-----' % label] + list(heads) \
        + [''] + [b[i:i + width] for i in range(0, len(b), width)] \
        + ['=' + base64.b64encode(_crc(data)).decode(),
           '-----END PGP %s-----' % label, '']
    return eol.join(lines)


HEADS = ('Version: GnuPG v1', 'Comment: Zo\u00eb \u20ac: BEGIN')
COUNT = 10


def read(fn, file_fn, data, label, way):
    """What is read, in the way of that number."""
    way %= COUNT
    if way == 0:
        return fn(data)
    if way == 1:
        return fn(armor(label, data), True)
    if way == 2:
        return fn(armor(label, data, HEADS[:1], '\r\n', 76))
    if way == 3:
        return fn(armor(label, data).encode('utf8'))
    if way == 4:
        return fn(armor(label, data, HEADS).encode('utf8'), True)
    if way == 5:
        return fn(armor(label, data, HEADS[1:], width=60, before=2), True)
    name = _path()
    with open(name, 'wb') as f:
        f.write(bytes(data) if way == 6 else armor(
            label, data, HEADS if way == 8 else HEADS[:1],
            '\r\n' if way == 9 else '\n').encode('utf8'))
    return file_fn(name, way in (7, 9))


def written(fn, *args):
    """The octets that fn(name, ...) puts in a file."""
    name = _path()
    with open(name, 'wb') as f:
        f.write(b'what was there before' * 400)
    fn(name, *args)
    with open(name, 'rb') as f:
        return f.read()
