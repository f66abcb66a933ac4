def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_verify('Message.verify')
    a.summarise_loading()
    a.summarise_idtoken(('iss', 'client_id', 'nonce', 'skew', 'nonce_storage_time'))
    ck.explain = ('Abstract interpretation of EndSessionRequest.verify on unknown content and options; token loading and the ID token rules are summarised '
                  '(decided by J01 to J04), and flags record which token they passed with which arguments: an accepting exit with a hint needs both flags.')
    ck.rules('A06.py')
