import json
from sa.files import Files

VALUES = [None, True, False, 0, 1, -5, 1.5, 1e30, 12345678901234567890, '', 'text', 'With Capitals', 'a b', 'line\nline', '\ttab', ' around ', 'å€\u2028', '"quoted"', 'true', '1', 'null', [], {}, [1, 'a', None, [True]],
          {'': 'x', 'a': {'B': [1, 2.5, None]}, 'å': False}, [[], {}], {'iss': 'https://op.example.com', 'exp': 1700000000}]
TEXTS = ['text', 'With Capitals', 'a b', 'line\nline\n\nline', 'a\ttab', 'å€', '"quoted"', 'true', '1', '{"a": 1}', 'x' * 70000, 'a  b']
JSONTEXTS = ('1', '1.0', '1.5', 'true', 'null', '"A"', '[1, 2.0]', '{"A": "B", "c": {"D": 1.25}}', ' {"a": 1} ', '"\\u00e5"', '[]', '1e3', '"a\\nb"', '{\n "a": [1,\n 2]\n}\n')
BAD = ('', '{', "{'a': 1}", 'None', 'a', '[1,]', '{"a": 1} x')
NOT = ('set', 'bytes', 'member', 'object')


def run(ck):
    a = ck.analyzer(Files)
    a.inline_concrete = True
    ck.explain = ('The shipped converters and the file store are followed on a modelled directory: unknown values and JSON values of every kind are converted there and back; what a store '
                  'writes is compared with the converter\'s text, what another store and one opened later read with the value; for a converter of the caller\'s both are compared as terms. '
                  'Values that the converter refuses must leave file, cache and count as they were.')
    a.fs_events = set()
    fr = ck.load(ck.rules_path('S09.py'), ck.lib())
    conv = 'oidcmsg.storage.converter.JSON'
    ck.rule('json_values', fr['json_values'], [ck.k(json.dumps(VALUES))])
    ck.rule('json_unknown', fr['json_unknown'], [])
    ck.rule('json_texts', fr['json_texts'], [ck.k(JSONTEXTS)])
    for t in BAD:
        ck.rule('json_malformed(%s)' % t, fr['json_malformed'], [ck.k(t)])
    ck.rule('passthru', fr['passthru'], [])
    for x in VALUES:
        ck.rule('through_the_store(JSON, %s)' % json.dumps(x), fr['through_the_store'], [ck.k(conv), ck.k(json.dumps([x]))])
    ck.rule('through_the_store(JSON, all)', fr['through_the_store'], [ck.k(conv), ck.k(json.dumps(VALUES))])
    for x in TEXTS:
        ck.rule('through_the_store(text, %s)' % x[:20], fr['through_the_store'], [ck.k(''), ck.k(json.dumps([x]))])
    ck.rule('through_the_store(text, all)', fr['through_the_store'], [ck.k(''), ck.k(json.dumps(TEXTS))])
    ck.rule('foreign_file(text)', fr['foreign_file'], [ck.k(''), ck.k(tuple(TEXTS) + ('ended\n', 'two\nlines\n', 'Capitals ', ''))])
    ck.rule('foreign_file(JSON)', fr['foreign_file'], [ck.k(conv), ck.k(JSONTEXTS)])
    for c in ('', conv):
        ck.rule('new_directory(%s)' % c, fr['new_directory'], [ck.k(c)])
        for how in ('item', 'update', 'clear', 'list'):
            ck.rule('directory_gone(%s, %s)' % (c, how), fr['directory_gone'], [ck.k(c), ck.k(how)])
    ck.rule('own_converter', fr['own_converter'], [])
    for k in NOT:
        ck.rule('json_refuses(%s)' % k, fr['json_refuses'], [ck.k(k)])
        ck.rule('refused_makes_nothing(%s)' % k, fr['refused_makes_nothing'], [ck.k(k)])
        for how in ('item', 'update'):
            ck.rule('refused_keeps(%s, %s)' % (k, how), fr['refused_keeps'], [ck.k(k), ck.k(how)])
    ck.need(len(a.fs_events), 4, 'file-system call sites')
