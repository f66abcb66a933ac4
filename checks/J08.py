from checks.J03 import carried


def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    ck.explain = ('Abstract interpretation of LogoutToken.verify and BackChannelLogoutRequest.verify (token loading inlined, cryptojwt modelled by '
                  'uninterpreted propositions) with unknown content and keyword arguments: each way of being unacceptable must make every exit refuse, '
                  'and a token or request in order must be accepted on every exit.')
    ck.rules('J08.py')
    carried(ck, a, ('carried_other_issuer', 'carried_wrong_aud', 'carried_future', 'carried_with_nonce', 'carried_no_events', 'no_aud', 'no_iat', 'no_jti', 'no_iss'), 1, ('logout_token',))
