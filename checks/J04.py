from checks.J03 import carried


def run(ck):
    a = ck.analyzer()
    ck.explain = ('Abstract interpretation of IdToken.verify with unknown content, keyword arguments and clock; comparisons of times are kept as '
                  'linear constraints over exp, iat, now, skew and storage time. Rules: expired, too old, missing times -> every exit refuses; '
                  'within the bounds -> every exit accepts. The refusals also for every message that carries an ID token.')
    ck.rules('J04.py')
    carried(ck, a, ('carried_expired', 'carried_too_old', 'no_exp', 'no_iat'), 4)
