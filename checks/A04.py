def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_verify('Message.verify')
    ck.explain = ('Abstract interpretation of RegistrationRequest.verify and RegistrationResponse.verify on unknown content and options, for each of the three '
                  'pairs of encryption parameters: forbidden combinations have no accepting exit, permitted ones no refusing exit, and the content left '
                  'behind has the default method.')
    fr = ck.rules('A04.py')
    for p in ('request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response'):
        for n in ('method_without_algorithm', 'default_method', 'method_is_kept', 'no_method_from_nowhere'):
            ck.rule('%s(%s)' % (n, p), fr[n], [ck.k(p)])
