from sa.domain import NONE

import json
SAMPLES = {'null': None, 'bool': True, 'int': 5, 'float': 1.5, 'str': 'some text', 'list': [True, 5, 'a', {'a': 'b'}, ['a']], 'dict': {'a': 'b'}}
KINDS = ('null', 'bool', 'int', 'float', 'str', 'list', 'dict', 'message')


def run(ck):
    a = ck.analyzer()
    a.pair_merge = False
    a.inline_concrete = True
    a.summarise_codecs()
    ck.explain = ('The parameters of all message classes are grouped by declaration (type, encoder, decoder, null); for each group and each kind of '
                  'JSON value the real assignment and dictionary loading code is interpreted abstractly with an unknown value of that kind (lists with '
                  'unknown members), and the type facts of what the message holds afterwards are compared with the declared kind.')
    fr = ck.load(ck.rules_path('M04.py'), ck.lib())
    msg = ck.cls('oidcmsg.message.Message')
    groups = {}
    n = nulls = 0
    for c in ck.message_classes():
        for p, e in ck.schema(c).items():
            if p == '*':
                continue
            n += 1
            groups.setdefault((e.kind, e.ser, e.deser, e.null, ck.behaviour(c)), (c, p, e))
    ck.need(n, 300, 'parameters')
    ck.need(len(groups), 10, 'distinct declarations')
    for c, p, e in groups.values():
        t = e.typ[0] if e.islist else e.typ
        kind, elem = e.elem, NONE
        if isinstance(t, tuple) and t[0] == 'cls' and msg in a.classes[t[1]].mro:
            kind = 'message'
            elem = t if e.islist else NONE
        if kind not in ('str', 'int', 'bool', 'dict', 'message'):
            continue
        token = kind == 'message' and e.deser is None
        time = kind == 'str' and not e.islist and e.deser is not None
        if e.islist:
            for how in ('assigned', 'loaded'):
                for vk in KINDS:
                    if vk == kind or vk == 'null' and (e.null or kind == 'message') or kind == 'message' and vk == 'dict' or kind == 'dict' and vk == 'message':
                        continue
                    for shape in ('only', 'first', 'last', 'any'):
                        if shape == 'any' and vk in ('list', 'dict', 'message', 'null') or kind == 'message' and shape == 'any':
                            continue
                        ck.rule('wrong_member(%s, %s %s %s at %s)' % (ck.cname(c), p, how, vk, shape), fr['wrong_member'],
                                [c, ck.k(p), elem if elem != NONE else ('bi', kind), ck.k(how), ck.k(shape), ck.k(vk)])
        if not e.null:
            ck.rule('nothing_given(%s, %s)' % (ck.cname(c), p), fr['nothing_given'], [c, ck.k(p)])
            if e.islist:
                ck.rule('no_null(%s, %s)' % (ck.cname(c), p), fr['no_null'], [c, ck.k(p)])
        if e.null:
            nulls += 1
            ck.rule('null_kept(%s, %s)' % (ck.cname(c), p), fr['null_kept'], [c, ck.k(p)])
        for how in ('assigned', 'loaded'):
            for vk in KINDS:
                if e.islist and kind == 'message' and vk == 'list':
                    continue        # lists of one and two members: wrong_member
                ck.rule('admission(%s, %s %s %s)' % (ck.cname(c), p, how, vk), fr['admission'],
                        [c, ck.k(p), ck.k(kind), ck.k(e.islist), elem, ck.k(token), ck.k(time), ck.k(how), ck.k(vk)])
        for vk in KINDS[:-1]:
            ck.rule('parsed(%s, %s %s)' % (ck.cname(c), p, vk), fr['parsed'],
                    [c, ck.k(p), ck.k(kind), ck.k(e.islist), elem, ck.k(token), ck.k(time), ck.k(json.dumps({p: SAMPLES[vk]})), ck.k(vk)])
