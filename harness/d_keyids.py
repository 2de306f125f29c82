"""Key ids and fingerprints of the same key in every representation."""
import hashlib
import os
import time
import hlib
from hlib import ints, guarded, text
from pgp import shortcuts
from pgp.packets import parse_binary_packet_data
from pgp.packets import constants as C


def observe(sc, obs, holder):
    data = bytes(bytearray(sc['data']))

    def see(what, key, i):
        obs.append({'what': what, 'i': i, 'fp': text(key.fingerprint),
                    'kid': text(key.key_id),
                    'bits': getattr(key, 'bit_length', -1),
                    'grip': getattr(key, 'keygrip', '')})

    def see_all(what, key):
        see(what, key, 1)
        for n, sk in enumerate(key.subkeys):
            see(what + ' subkey', sk, n + 2)

    holder[0] = 'packets'
    n = 0
    for p in parse_binary_packet_data(data):
        if p.type in (5, 6, 7, 14):
            n += 1
            see('packet', p, n)
    holder[0] = 'read'
    key = shortcuts.read_key(data)
    see_all('read', key)
    for name, fmt in (('old', C.OLD_PACKET_HEADER_TYPE),
                      ('new', C.NEW_PACKET_HEADER_TYPE)):
        holder[0] = 'written ' + name
        see_all('written in %s format' % name,
                shortcuts.read_key(bytes(shortcuts.serialize_key(
                    key, header_format=fmt))))
    holder[0] = 'armored'
    see_all('written with armor', shortcuts.read_key(
        shortcuts.serialize_key(key, armored=True), armored=True))
    if sc['sec']:
        holder[0] = 'conversion'
        see_all('converted while locked', key.to_public_key())
        holder[0] = 'unlock'
        key.unlock('')
        see_all('unlocked', key)
        see_all('converted while unlocked', key.to_public_key())
        see_all('written while unlocked', shortcuts.read_key(bytes(
            shortcuts.serialize_key(key))))
        key.lock()
        see_all('locked again', key)


def handler(sc):
    os.environ['TZ'] = sc['tz']
    time.tzset()
    obs, holder = [], ['']
    st, v = guarded(observe, sc, obs, holder)
    h = getattr(hashlib, sc['dig'])
    return {'keys': sc['keys'], 'res': 'ok' if st == 'ok' else
            '%s in %s' % (v or st, holder[0]), 'obs': obs,
            'digests': [ints(h(bytes(bytearray(p))).digest())
                        for p in sc['pre']]}


hlib.run(handler)
