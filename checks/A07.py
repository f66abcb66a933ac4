def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_loading()
    a.summarise_verify('Message.verify')
    ck.explain = ('Abstract interpretation of the verification of every response type on an error description of unknown length with one character outside the '
                  'alphabet at an unknown position (no accepting exit), of the inherited rule on one with permitted characters only (no refusing exit), and '
                  'the same for the purpose of a claims request. Supported scopes of provider metadata: see A05, whose rules are repeated here.')
    fr = ck.rules('A07.py')
    base = ck.cls('oidcmsg.oauth2.ResponseMessage')
    seen = set()
    n = 0
    for c in ck.message_classes():
        if base not in a.classes[c[1]].mro:
            continue
        n += 1
        v = ck.method(c, 'verify')
        if v in seen:
            continue
        seen.add(v)
        ck.rule('outside(%s)' % ck.cname(c), fr['outside'], [c])
        ck.rule('inside(%s)' % ck.cname(c), fr['inside'], [c, base])
        ck.rule('without(%s)' % ck.cname(c), fr['without'], [c, base])
    ck.need(n, 15, 'response types')
    ck.rules('A05.py', names=('scope_alphabet', 'accepts_scopes'))
