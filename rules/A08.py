import time

FORMS = ('%Y-%m-%d', '%Y', '0000-%m-%d')


def _fits(d, form):
    try:
        time.strptime(d, form)
    except ValueError:
        return False
    return True


def null_claim(C):
    m = message(C)
    kw = kwargs()
    flag('always_verified')
    k = sym('claim')
    assume(isinstance(k, str))
    assume(k not in C.c_param)
    assume(k in m)
    assume(m[k] is None)
    refuses(m, kw, 'a claims set with a null claim is accepted')


def null_declared(C, name):
    m = message(C)
    kw = kwargs()
    flag('always_verified')
    assume(name in m)
    assume(m[name] is None)
    refuses(m, kw, 'a claims set with a null claim is accepted')


def bad_birthdate(C):
    m = message(C)
    kw = kwargs()
    flag('always_verified')
    assume('birthdate' in m)
    d = m['birthdate']
    assume(isinstance(d, str))
    for f in FORMS:
        assume(not _fits(d, f))
    refuses(m, kw, 'a birthdate in none of the permitted forms is accepted')


def odd_birthdate(C, text):
    m = message(C, 'm', birthdate=text)
    kw = kwargs()
    flag('always_verified')
    refuses(m, kw, 'the birthdate %s is accepted' % text)


def _good(base, m, what):
    flag('always_verified')
    try:
        r = base.verify(m, **kwargs())
    except Exception as e:
        fail('a claims set is refused: ' + what)
    if not r:
        fail('a claims set is refused: ' + what)
    reached()


def no_birthdate(C, base):
    m = message(C)
    assume('birthdate' not in m)
    assume('error_description' not in m)
    k = sym('claim')
    for k, v in m.items():
        assume(v is not None)
    _good(base, m, 'no nulls and no birthdate')


def good_birthdate(C, base, form):
    m = message(C)
    for k, v in m.items():
        assume(v is not None)
    assume('birthdate' in m)
    assume('error_description' not in m)
    d = m['birthdate']
    assume(isinstance(d, str))
    assume(_fits(d, form))
    _good(base, m, 'no nulls and a birthdate of the form ' + form)


def plain_birthdate(C, base, text):
    m = message(C)
    for k, v in m.items():
        assume(v is not None)
    assume('birthdate' in m)
    assume('error_description' not in m)
    assume(m['birthdate'] == text)
    _good(base, m, 'no nulls and the birthdate ' + text)
