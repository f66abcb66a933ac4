def run(ck):
    ck.analyzer()
    ck.explain = ('Abstract interpretation of JsonWebToken.verify with unknown content, keyword arguments and clock; each way of being invalid must '
                  'make every exit refuse, validity must make every exit accept, and acceptance under one skew must imply acceptance under a larger one.')
    ck.rules('J07.py')
