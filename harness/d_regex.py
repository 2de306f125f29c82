"""Acceptance of trust-scope patterns."""
import hlib
from hlib import guarded
from pgp import regex
from pgp.exceptions import RegexValueError


def one(codes):
    st, v = guarded(regex.validate_subpacket_regex,
                    u''.join(map(chr, codes)))
    if st == 'ok':
        return 'ok'
    return 'refused' if v == RegexValueError.__name__ else v or st


def handler(sc):
    return {'strs': sc['strs'], 'res': [one(s) for s in sc['strs']]}


hlib.run(handler)
