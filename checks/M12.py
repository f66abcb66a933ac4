def run(ck):
    a = ck.analyzer()
    a.inline_concrete = True
    ck.explain = ('extra, weed, rm_blanks and only_extras are followed for every message type on unknown content and an unknown name that the message holds, declared or not; '
                  'equality on contents that differ in one value, one name, and on all pairs of message types.')
    fr = ck.load(ck.rules_path('M12.py'), ck.lib())
    cs = ck.message_classes()
    n = 0
    for c in cs:
        nm = ck.cname(c)
        for r in ('extra_holds_others', 'extra_adds_nothing', 'weed_removes', 'weed_adds_nothing', 'blanks_removed', 'others_kept', 'only_extras', 'equal_others', 'any_non_standard_added'):
            ck.rule('%s(%s)' % (r, nm), fr[r], [c])
        ps = [p for p in ck.table(c, 'c_param') if p != '*']
        for p in ps:
            n += 1
            for r in ('extra_holds_no', 'weed_keeps', 'not_only_extras', 'bookkeeping', 'schema_selects'):
                ck.rule('%s(%s, %s)' % (r, nm, p), fr[r], [c, ck.k(p)])
        for p in ps[:1] + ps[-1:]:
            for r in ('equal', 'blank_values', 'non_standard_added'):
                ck.rule('%s(%s, %s)' % (r, nm, p), fr[r], [c, ck.k(p)])
        for d in cs:
            if c[1] < d[1]:
                ck.rule('equal_types(%s, %s)' % (nm, ck.cname(d)), fr['equal_types'], [c, d, ck.k(c[1].split('.')[-1] == d[1].split('.')[-1])])
    ck.need(n, 500, 'parameters')
