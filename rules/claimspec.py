def _bad(kind, typ):
    """constraints on a claim, one of them wrong"""
    s = symdict('spec')
    if kind == 'essential':
        assume('essential' in s)
        assume(s['essential'] is not None)
        assume(not isinstance(s['essential'], bool))
    elif kind == 'value':
        assume('value' in s)
        assume(s['value'] is not None)
        assume(not isinstance(s['value'], typ))
    elif kind == 'values':
        assume('values' in s)
        assume(isinstance(s['values'], list))
        c = sym('one of them')
        assume(c in s['values'])
        assume(c is not None)
        assume(not isinstance(c, typ))
    else:
        assume('purpose' in s)
        p = s['purpose']
        assume(isinstance(p, str))
        if kind == 'short':
            assume(len(p) < 3)
        elif kind == 'long':
            assume(len(p) > 300)
        else:
            c = sym('char')
            assume(c in p)
            assume(c == '"')
    return s


def _good(typ):
    s = symdict('spec')
    if 'essential' in s:
        assume(s['essential'] is None or isinstance(s['essential'], bool))
    if 'value' in s:
        assume(s['value'] is None or isinstance(s['value'], typ))
    if 'values' in s:
        assume(isinstance(s['values'], list))
        for v in s['values']:
            assume(isinstance(v, typ))
    assume('purpose' not in s or s['purpose'] is None)
    return s
