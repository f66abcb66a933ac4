from oidcmsg.oidc import claims_match


def _spec():
    s = symdict('spec')
    if 'values' in s:
        assume(isinstance(s['values'], list))
    return s


def _ask(v, s, why):
    try:
        r = claims_match(v, s)
    except Exception as e:
        fail('matching a claim raises an exception')
    return r


def null_spec():
    if not _ask(sym('claim'), None, ''):
        fail('a claim does not match a null specification')
    reached()


def only_essential():
    if not _ask(sym('claim'), {'essential': sym('e')}, ''):
        fail('a claim does not match a specification with only the essential member')
    reached()


def value_equal():
    v = sym('claim')
    s = _spec()
    assume('value' in s)
    assume(s['value'] == v)
    if not _ask(v, s, ''):
        fail('a claim does not match a specification with its own value')
    reached()


def value_equal_alone():
    v = sym('claim')
    w = sym('wanted')
    assume(v == w)
    if not _ask(v, {'value': w}, ''):
        fail('a claim does not match a specification with its own value')
    if not _ask(v, {'essential': sym('e'), 'value': w}, ''):
        fail('a claim does not match a specification with its own value')
    reached()


def value_listed():
    v = sym('claim')
    s = _spec()
    assume('values' in s)
    assume(v in s['values'])
    if not _ask(v, s, ''):
        fail('a claim does not match a specification that lists its value')
    reached()


def value_listed_alone():
    v = sym('claim')
    l = symlist('wanted')
    assume(v in l)
    if not _ask(v, {'values': l}, ''):
        fail('a claim does not match a specification that lists its value')
    if not _ask(v, {'essential': sym('e'), 'values': l}, ''):
        fail('a claim does not match a specification that lists its value')
    reached()


def other_values():
    v = sym('claim')
    s = _spec()
    assume('value' in s or 'values' in s)
    assume('value' not in s or s['value'] != v)
    assume('values' not in s or v not in s['values'])
    if _ask(v, s, ''):
        fail('a claim matches a specification that only lists other values')
    reached()


def other_values_alone():
    v = sym('claim')
    w = sym('wanted')
    l = symlist('wantedlist')
    assume(v != w)
    assume(v not in l)
    e = sym('e')
    for s in ({'value': w}, {'essential': e, 'value': w}, {'value': w, 'essential': e}, {'values': l}, {'essential': e, 'values': l},
              {'values': l, 'essential': e}, {'value': w, 'values': l}):
        if _ask(v, s, ''):
            fail('a claim matches a specification that only lists other values')
    reached()
