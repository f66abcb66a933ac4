from sa.files import Files

KINDS = ('dict', 'file', 'conf')
LABELS = ('a', 'client_1', '_', '')
PAIRS = (('a', 'b'), ('a', 'aa'), ('aa', 'a'), ('x_y', 'x'), ('keyjar', 'default'))
KEYS = ('', 'foo', '__a__foo', 'a/b c', '__a__', '__')


def run(ck):
    a = ck.analyzer(Files)
    ck.explain = ('Abstract interpretation of every operation of the labelled dictionary and of the labelled file store (unknown key and value, constant '
                  'awkward keys, several labels and pairs of labels on one underlying storage), each result compared with the entry that was set under that label.')
    fr = ck.load(ck.rules_path('S04.py'), ck.lib())
    for kind in KINDS:
        for op in ('item', 'update') + (('set',) if kind == 'dict' else ()):
            for key in KEYS:
                for l in LABELS:
                    ck.rule('own(%s, %s, %s, %s)' % (kind, l, op, key), fr['own'], [ck.k(kind), ck.k(l), ck.k(op), ck.k(key)])
                for l, o in PAIRS:
                    ck.rule('isolated(%s, %s, %s, %s, %s)' % (kind, l, o, op, key), fr['isolated'], [ck.k(kind), ck.k(l), ck.k(o), ck.k(op), ck.k(key)])
    for kind in KINDS:
        for l in LABELS:
            ck.rule('many(%s, %s)' % (kind, l), fr['many'], [ck.k(kind), ck.k(l)])
    ck.rule('overlapping', fr['overlapping'], [])
    for op in ('set', 'item'):
        ck.rule('plain(%s)' % op, fr['plain'], [ck.k(op)])
