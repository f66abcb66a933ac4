from oidcmsg.oidc.identity_assurance import VerificationElement, verify_claims_request

ALPHABET = [chr(i) for i in range(0x20, 0x7f) if i not in (0x22, 0x5c)]


def outside(C):
    m = message(C)
    kw = kwargs()
    assume('error_description' in m)
    d = m['error_description']
    assume(isinstance(d, str))
    c = sym('char')
    assume(c in d)
    assume(c not in ALPHABET)
    refuses(m, kw, 'an error description with a character outside the alphabet is accepted')


def inside(C, base):
    """the rule itself, as inherited"""
    m = message(C)
    kw = kwargs()
    flag('always_verified')
    assume('error_description' in m)
    d = m['error_description']
    assume(isinstance(d, str))
    for c in d:
        assume(c in ALPHABET)
    try:
        r = base.verify(m, **kw)
    except Exception as e:
        fail('an error description of permitted characters is refused')
    if not r:
        fail('an error description of permitted characters is refused')
    reached()


def without(C, base):
    m = message(C)
    kw = kwargs()
    flag('always_verified')
    assume('error_description' not in m)
    try:
        r = base.verify(m, **kw)
    except Exception as e:
        fail('a response without error description is refused')
    if not r:
        fail('a response without error description is refused')
    reached()


def _purpose():
    p = sym('purpose')
    assume(isinstance(p, str))
    return p


def purpose_outside():
    p = _purpose()
    c = sym('char')
    assume(c in p)
    assume(c not in ALPHABET)
    try:
        verify_claims_request({'trust_framework': {'purpose': p}}, VerificationElement())
    except Exception as e:
        reached()
        return
    fail('a purpose with a character outside the alphabet is accepted')


def purpose_inside():
    p = _purpose()
    assume(len(p) >= 3)
    assume(len(p) <= 300)
    for c in p:
        assume(c in ALPHABET)
    try:
        verify_claims_request({'trust_framework': {'purpose': p}}, VerificationElement())
    except Exception as e:
        fail('a purpose of permitted characters is refused')
    reached()
