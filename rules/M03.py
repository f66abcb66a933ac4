def _start(C, wraps):
    m = message(C)
    kw = kwargs()
    watch(m)
    if wraps:
        # a request by reference is judged when its content has been merged in
        assume('request' in m or 'request_uri' not in m)
    return m, kw


def keeps_checks(C, wraps):
    m, kw = _start(C, wraps)
    try:
        r = m.verify(**kw)
    except Exception:
        reached()
        return
    if r:
        require(flagged('inherited_called'), 'accepts a message without the inherited verification')
        require(not flagged('inherited_refused'), 'accepts a message that the inherited verification refuses')
        require(not flagged('nested_refused'), 'accepts a message although an embedded object is refused')
    else:
        require(r is not None, 'gives no verdict')
