from oidcmsg import verified_claim_name
from oidcmsg.message import Message


def slot_holds_token(C, claim, slot):
    """nothing but an object loaded from the token that the message carries"""
    keep_apart(claim)
    m = message(C)
    kw = kwargs()
    assume('keyjar' in kw)
    if slot is None:
        slot = verified_claim_name(claim)
    sent = None
    if claim in m:
        sent = m[claim]
        assume(sent is not None)
    if not accepted(m, kw):
        reached()
        return
    if slot not in m:
        reached()
        return
    v = m[slot]
    require(isinstance(v, Message), 'the slot for the verified ' + claim + ' holds something that this verification did not create')
    inst = is_instance_made(v)
    require(inst, 'the slot for the verified ' + claim + ' holds something that this verification did not create')
    if sent is not None and content_of(v, sent):
        reached()
        return
    if claim in m and content_of(v, m[claim]):
        reached()
        return
    fail('the slot for the verified ' + claim + ' does not hold the content of the token in the message')


def slot_is_filled(C, claim, slot):
    """an accepted message with the token exposes it"""
    keep_apart(claim)
    m = message(C)
    kw = kwargs()
    assume('keyjar' in kw)
    if slot is None:
        slot = verified_claim_name(claim)
    assume(claim in m)
    assume(isinstance(m[claim], str) and m[claim])
    if claim != 'request':
        assume('request' not in m)
    if accepted(m, kw):
        require(slot in m, 'the verified ' + claim + ' of an accepted message is not exposed')
    reached()
