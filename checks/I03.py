def run(ck):
    ck.analyzer()
    ck.explain = ('Abstract interpretation of claims_match on an unknown claim and a specification of unknown content: each case of the rule of OpenID '
                  'Connect core 5.5.1 as a premise, the verdict on every exit as the conclusion.')
    ck.rules('I03.py')
