from oidcmsg.oauth2 import is_error_message
from oidcmsg.oauth2.device_authorization import AccessTokenRequest
from oidcmsg.message import Message


def device_without(name):
    m = message(AccessTokenRequest)
    kw = kwargs()
    flag('always_verified')
    assume('device_code' in m)
    assume(name not in m)
    refuses(m, kw, 'a token request with a device code but without %s is accepted' % name)


def device_complete():
    m = message(AccessTokenRequest)
    kw = kwargs()
    flag('always_verified')
    assume('device_code' in m)
    assume('grant_type' in m)
    assume('client_id' in m)
    accepts(m, kw, 'a complete device token request is refused')


def without_device_code():
    m = message(AccessTokenRequest)
    kw = kwargs()
    flag('always_verified')
    assume('device_code' not in m)
    assume(m.get('code'))
    assume(m.get('redirect_uri'))
    accepts(m, kw, 'a complete token request without device code is refused')


def code_without(name):
    m = message(AccessTokenRequest)
    kw = kwargs()
    flag('always_verified')
    assume('device_code' not in m)
    assume(not m.get(name))
    refuses(m, kw, 'a token request with neither a device code nor %s is accepted' % name)


def says_error(C):
    m = message(C)
    assume('error' in m)
    if is_error_message(m) is not True:
        fail('a message with an error is not said to be an error message')
    reached()


def says_no_error(C):
    m = message(C)
    assume('error' not in m)
    if is_error_message(m) is not False:
        fail('a message without error is said to be an error message')
    reached()


def each_declared(C, names):
    """whatever else is there, whatever the value"""
    for n in names:
        if n == 'error':
            continue
        if is_error_message(exact_message(C, {n: 'v', 'error#en': 'a', 'errors': 'b', 'Error': 'c'})) is not False:
            fail('a message without error is said to be an error message')
    for v in ('invalid_request', 'something_else', '', None, False, 0, []):
        m = exact_message(C, {'zz': 'a', 'error': v})
        if is_error_message(m) is not True:
            fail('a message with an error is not said to be an error message')
        if len(m) != 2 or m['zz'] != 'a':
            fail('asking changes the message')
    if is_error_message(exact_message(C, {})) is not False:
        fail('an empty message is said to be an error message')
    reached()


def mapping():
    """plain dictionaries, as they come from a response body"""
    d = symdict('d')
    r = is_error_message(d)
    if 'error' in d:
        if r is not True:
            fail('a dictionary with an error is not said to be an error message')
    elif r is not False:
        fail('a dictionary without error is said to be an error message')
    reached()
