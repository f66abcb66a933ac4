def run(ck):
    a = ck.analyzer()
    a.summarise_codecs()
    a.summarise_verify('Message.verify')
    ck.explain = ('Abstract interpretation of ProviderConfigurationResponse.verify on unknown content and options: each violation of a discovery rule leaves '
                  'no accepting exit, and metadata that satisfies the rules no refusing exit. Lists and texts are of unknown length; the offending '
                  'member or character stands at an unknown position.')
    ck.rules('A05.py')
