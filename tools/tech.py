TECH.update({
 'A01': AI + ': accepting exits under each violated cross-parameter rule',
 'A02': AI + ': final content of merged messages compared as terms; accepting exits without a loaded request object',
 'A03': AI + ': accepting and refusing exits under foreign and own client, issuer and audience',
 'A04': AI + ': accepting exits under forbidden encryption parameter combinations',
 'A05': AI + ': accepting exits under each violated discovery rule',
 'A06': AI + ': flags of hint verification and client relation on accepting exits',
 'A07': AI + ': accepting exits with a character outside the evaluated alphabet at an unknown position',
 'A08': AI + ': accepting exits with a null claim or an unparsable birthdate; constants followed exactly',
 'A09': AI + ': accepting exits under each missing parameter; classification on every message type',
 'I01': AI + ': accepting exits of evidence that lacks what its type requires, and the label on accepting exits',
 'I02': AI + ': accepting exits for every declared claim × kind of wrong constraint',
 'I03': AI + ': verdicts under each case of the matching rule as premise',
})
FS = 'abstract interpretation of the store on a modelled directory'
TECH.update({
 'S01': FS + ': every file-system call is an obligation on its path term (directory, name given by the converter, no separator)',
 'S02': FS + ': lock obligations at every content access, locks after faults, lock files as entries',
 'S03': FS + ': results of the next read along histories of own and foreign operations at every lock-free point',
})
TECH.update({'S04': AI + ': result of every operation compared with the entry set under that label, two labels on one storage'})
TECH.update({'S05': 'abstract interpretation of the store on a modelled table and session: committed rows at every return and at every commit'})
TECH.update({'S06': AI + ': the created store as a term of its handler and argument for every configuration shape; configurations compared before and after'})
TECH.update({'S07': AI + ': stored values and messages compared after reading; key jars as terms of constructor and arguments, every import into them recorded'})
TECH.update({'M05': 'evaluation of the package statement by statement with ownership of every table; ' + AI + ' of every message operation, tables compared afterwards'})
TECH.update({'M06': 'evaluation of every message type\'s tables from the source, compared with profiles written from the specifications; ' + AI + ' of the constructor and codecs on values of the right and of other kinds'})
TECH.update({'M07': 'evaluation of every vocabulary and default from the source, compared with those of the specifications; ' + AI + ' of Message.verify with every permitted value and with values that are not'})
TECH.update({'M08': AI + ': every schema entry written and read through every codec with all encoder and decoder code followed, list members and texts unknown'})
TECH.update({'M09': AI + ': marker declarations told apart after every codec for exact, tagged, undeclared and unknown names; every real declaration compared with and without tag'})
TECH.update({'M10': AI + ': exits of to_urlencoded on unknown content without a required parameter; exits of from_urlencoded for every repeated single-valued parameter'})
TECH.update({'M11': AI + ': Message.request on every location shape (unknown text, with and without query and fragment) and message of every type; the returned text is compared structurally with location + separator + form encoding'})
TECH.update({'M12': AI + ': bookkeeping and equality of every message type on unknown content and an unknown held, declared or undeclared name; all ordered pairs of types for equality'})
TECH.update({'T01': AI + ': every time helper on unknown amounts of every unit combination, instants and durations as linear terms; comparison helpers on unknown texts, numbers and broken-down times'})
TECH.update({'F01': AI + ': both factories on the name of every message type, on an unknown name, and on an unknown name that differs from all of them'})
TECH.update({'P01': AI + ': proper_path on an unknown text with its loop summarised and prefix/suffix facts, add_base_path on every shape of listing over unknown paths; os.path.join kept as a term'})
TECH.update({'C01': AI + ': make_openid_request followed together with the token library\'s JWT class (its source is part of the analysed program) on a request with unknown content and unknown options; the text handed to the signing primitive is compared with the request'})
TECH.update({'M13': AI + ': the mapping operations of every message type on unknown content with unknown names and values (frame conditions included), and on known content for each declared parameter'})
TECH.update({'M14': AI + ': serialize/deserialize by every name; to_jwt, to_jwe and from_jwe with the signing and encryption primitives replaced by recorders, compared with the content'})
TECH.update({'I04': AI + ': the claims constructor on every declared claim, with unknown well-formed or wrong specifications, values of other kinds and nested constructors; what it writes compared with what went in'})
TECH.update({'S08': 'evaluated column declarations (syntax tree evaluation of the class bodies) checked against the columns the SQL store uses: uniqueness, keys, constraints, self-filling defaults'})
TECH.update({'S09': AI + ': the file store and its converters on a modelled directory: the text written compared with the converter\'s, values read by the same, another and a later store with the value; refused values leave everything as it was'})
TECH.update({'J10': AI + ': accepting exits under assumptions on the encryption header of the token and the demanded algorithms'})
TECH.update({'T02': AI + ': writers and readers of time stamps on an unknown instant; a local clock reading is the instant plus an offset that is an unknown function of the instant'})
