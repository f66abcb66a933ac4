import json
from oidcmsg.message import Message


def _value(vk):
    if vk == 'null':
        return None
    v = sym('v')
    if vk == 'bool':
        assume(isinstance(v, bool))
    elif vk == 'int':
        assume(isinstance(v, int) and not isinstance(v, bool))
    elif vk == 'float':
        assume(isinstance(v, float))
    elif vk == 'str':
        assume(isinstance(v, str))
    elif vk == 'list':
        return symlist('v')
    elif vk == 'dict':
        return symdict('v')
    elif vk == 'message':
        return message(Message, 'v')
    return v


def _right_kind(s, kind, elem, token, time):
    if kind == 'str':
        if time:
            return isinstance(s, (str, int, float)) and not isinstance(s, bool)
        return isinstance(s, str)
    if kind == 'int':
        return isinstance(s, int) and not isinstance(s, bool)
    if kind == 'bool':
        return isinstance(s, bool)
    if kind == 'dict':
        return isinstance(s, dict)
    if kind == 'message':
        return isinstance(s, Message) or token and isinstance(s, (str, dict))
    return True


def admission(C, p, kind, islist, elem, token, time, how, vk):
    m = exact_message(C, {})
    v = _value(vk)
    try:
        if how == 'assigned':
            m[p] = v
        else:
            m.from_dict({p: v})
    except Exception as e:
        reached()
        return
    _held(m, p, kind, islist, elem, token, time, vk)


def parsed(C, p, kind, islist, elem, token, time, text, vk):
    m = exact_message(C, {})
    try:
        m.from_json(text)
    except Exception as e:
        reached()
        return
    _held(m, p, kind, islist, elem, token, time, vk)


def _held(m, p, kind, islist, elem, token, time, vk):
    if p not in m:
        reached()
        return
    s = m[p]
    if s is None:
        require(vk == 'null', 'a value that is not null is turned into null')
        return
    if islist:
        require(isinstance(s, list), 'a list parameter holds something that is not a list')
        if vk != 'list':
            for x in s:
                require(_right_kind(x, kind, elem, False, False) and (elem is None or isinstance(x, elem)), 'a list parameter holds a member of another kind')
        reached()
    else:
        require(_right_kind(s, kind, elem, token, time), 'a parameter holds a value of another kind')
    if kind == 'bool' or vk == 'bool':
        require(kind == 'bool' and vk == 'bool', 'a boolean is taken for something else or something else for a boolean')


def wrong_member(C, p, elem, how, shape, vk):
    """a list with a member of another kind, at any position"""
    m = exact_message(C, {})
    x = _value(vk)
    if shape == 'only':
        v = [x]
    else:
        y = sym('other')
        assume(isinstance(y, dict if issubclass(elem, Message) else elem))
        if shape == 'first':
            v = [x, y]
        elif shape == 'last':
            v = [y, x]
        else:
            v = sym('all')
            assume(isinstance(v, list))
            assume(len(v) > 1)
            assume(x in v)
    try:
        if how == 'assigned':
            m[p] = v
        else:
            m.from_dict({p: v})
    except Exception as e:
        reached()
        return
    if p in m:
        s = m[p]
        require(isinstance(s, list), 'a list parameter holds something that is not a list')
        for x in s:
            require(isinstance(x, elem), 'a list parameter holds a member of another kind')
    reached()


def null_kept(C, p):
    """null that is allowed is held as null, whatever it came with"""
    m = exact_message(C, {})
    m[p] = None
    require(p in m and m[p] is None, 'an allowed null value is not held after assignment')
    m = exact_message(C, {})
    m.from_dict({p: None})
    require(p in m and m[p] is None, 'an allowed null value is not held after loading')
    reached()


def nothing_given(C, p):
    """an empty list where no null is accepted"""
    if p in C(set_defaults=False, **{p: []}):
        fail('an empty list is held for a parameter that accepts no null')
    if p in C(set_defaults=False).from_dict({p: []}):
        fail('an empty list is held for a parameter that accepts no null')
    if p in C(set_defaults=False).from_json(json.dumps({p: []})):
        fail('an empty list is held for a parameter that accepts no null')
    m = C(set_defaults=False)
    m[p] = []
    if p in m:
        fail('an empty list is held for a parameter that accepts no null')
    reached()


def no_null(C, p):
    """null for a list that accepts no null"""
    m = C(set_defaults=False)
    try:
        m[p] = None
    except Exception as e:
        pass
    if p in m:
        fail('null is held for a list that accepts no null')
    try:
        m = C(set_defaults=False, **{p: None})
        if p in m:
            fail('null is held for a list that accepts no null')
    except Exception as e:
        pass
    reached()
