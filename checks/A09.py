def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_loading()
    a.summarise_verify('Message.verify')
    ck.explain = ('Abstract interpretation of the device token request on unknown content (client assertions are loaded by their own, summarised, rule): with '
                  'a device code and without grant type or client id no accepting exit, otherwise no refusing exit; is_error_message on every message type.')
    fr = ck.rules('A09.py')
    for n in ('grant_type', 'client_id'):
        ck.rule('device_without(%s)' % n, fr['device_without'], [ck.k(n)])
    for n in ('code', 'redirect_uri'):
        ck.rule('code_without(%s)' % n, fr['code_without'], [ck.k(n)])
    for c in ck.message_classes():
        for r in ('says_error', 'says_no_error'):
            ck.rule('%s(%s)' % (r, ck.cname(c)), fr[r], [c])
        ck.rule('each_declared(%s)' % ck.cname(c), fr['each_declared'], [c, ('tup', tuple(ck.k(p) for p in ck.table(c, 'c_param') if p != '*'))])
    ck.rule('mapping', fr['mapping'], [])
