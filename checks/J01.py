from sa.domain import *
from sa.core import State


def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    ck.explain = ('Abstract interpretation of from_jwt of every message class that defines its own (cryptojwt modelled by uninterpreted '
                  'propositions: a signature verifies under a set of keys or not, in which case verify_compact raises). On every exit, every token payload '
                  'that is part of the message must come from a token whose signature was verified under keys obtained for it from the key jar, '
                  'or whose algorithm is none; payloads that were encrypted must have been decrypted with the key jar owner\'s own keys. Run with and '
                  'without the token being possibly encrypted.')
    ck.assumptions = ['cryptojwt: verify_compact returns only if the signature verifies under one of the given keys; factory returns an object only for signed (encrypted) tokens']
    fr = ck.load(ck.rules_path('J01.py'), ck.lib())
    done = {}
    for c in ck.message_classes():
        f = ck.method(c, 'from_jwt')
        done.setdefault(f, []).append(c)
    ck.need(sum(len(v) for v in done.values()), 60, 'message classes sharing a loader')
    for f, cs in done.items():
        c = min(cs, key=lambda x: len(a.classes[x[1]].mro))
        for enc in (False, True):
            a.jwe_possible = enc
            for n in ('verified_by_default', 'verified_when_asked_for') + (() if enc else ('fails_without_key', 'good_token_is_loaded', 'loaded_when_asked_not_to_verify', 'keys_are_refreshed', 'new_keys_are_used')):
                ck.rule('%s(%s%s)' % (n, ck.cname(c), ', encrypted' if enc else ''), fr[n], [c])
