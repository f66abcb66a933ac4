#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list is this file)."""
import json, os

P = []
MSG = "src/oidcmsg/message.py"
O2 = "src/oidcmsg/oauth2/__init__.py"
DEV = "src/oidcmsg/oauth2/device_authorization.py"
OI = "src/oidcmsg/oidc/__init__.py"
SES = "src/oidcmsg/oidc/session.py"
IA = "src/oidcmsg/oidc/identity_assurance.py"
ST = "src/oidcmsg/storage/"
INI = "src/oidcmsg/__init__.py"
TU = "src/oidcmsg/time_util.py"
CTX = "src/oidcmsg/context.py"


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


# ---------------------------------------------------------------- messages
p("M01", "Missing or empty required parameters never verify",
  """For every message type, verification of a message refuses it (exception or negative result) when
  any parameter its schema marks as required is absent, or is present but empty (booleans excepted).
  (A request whose content is only referenced, by a pushed-request URI, is judged when the referenced content is merged in.)
  The generic verification never refuses a message because an optional parameter is absent or empty.""",
  ["inputs", "configurations"], "all message types x all parameters x all message contents and verification arguments",
  "The tests build a handful of valid messages and remove a few parameters; they visit neither every type nor every required parameter, nor the combinations with other parameters and arguments.",
  [MSG, O2, OI, SES, IA, DEV],
  [("generic verification", "Message.verify"), ("per-type overrides", "verify methods of the subclasses")],
  ["result of verify()"])

p("M02", "Parameters with a closed vocabulary only verify with listed values",
  """For every message type and every parameter that has a list of permitted values, verification refuses a
  message whose non-empty value (for list-valued parameters: any member) is not on that list.
  A message whose values are all permitted is not refused by the generic verification for that reason.""",
  ["inputs"], "all message types x all restricted parameters x all values",
  "Tests try one or two bad values per message; the property ranges over all values, positions in a list and message types.",
  [MSG, O2, OI, SES],
  [("vocabulary check", "Message.verify / Message._type_check"), ("vocabularies", "c_allowed_values tables")],
  ["result of verify()"])

p("M03", "Specialised message types keep their parent's checks and an honest verdict",
  """Whenever a message type adds its own verification, a message that the inherited verification refuses (by exception
  or by a negative result) is also refused by the specialised one, and so is a message whose embedded token or nested
  object is refused when it is verified. A message that passes every check gets a positive (true) verdict rather than none at all.""",
  ["inputs", "programs"], "all message types that override verification x all messages",
  "Tests check particular bad messages; that every override runs and honours the inherited verdict on every path is a property of all paths through all overrides.",
  [O2, OI, SES, IA, DEV],
  [("verify overrides", "every verify method outside Message"), ("nested verdicts", "verify_id_token, Evidence.verify, IDAClaimsRequest.verify, BackChannelLogoutRequest.verify")],
  ["result of verify()"])

p("M04", "A declared parameter holds a value of its declared kind or is refused",
  """When a declared parameter is assigned, or loaded from a dictionary or JSON document, the message afterwards holds for it
  a value of the declared kind (string, integer, boolean, JSON object, nested message, or list of one of these), the null value where that is accepted (it is then held as null),
  or nothing because the value was refused or was an empty list (which counts as nothing given where null is not accepted). In particular a boolean is never accepted for a non-boolean parameter, a non-boolean is never accepted for a boolean parameter,
  a number or a list is never stored for a string parameter, and a list parameter never stores a member of another kind (a time stamp may be held as epoch seconds).""",
  ["inputs"], "all declared kinds of parameter x all kinds of JSON value",
  "Tests sample a few (kind, value) pairs; the property covers the whole matrix of declared kinds and value kinds, including nested list members.",
  [MSG], [("value admission", "Message._add_value"), ("loading", "Message.from_dict"), ("assignment", "Message.__setitem__")],
  ["content of the message after assignment / from_dict / from_json"])

p("M05", "Messages and message types never share mutable state by accident",
  """Changing a default value inside one message instance (for example appending to a list-valued default) never changes another instance or the
  defaults of the message type. Defining or using one message type never changes the parameters, defaults or permitted values
  of another message type.""",
  ["histories", "programs"], "all message types and helper calls, any history of instance modifications",
  "Sharing only shows after a particular history (modify one instance, then look at another type or instance); the tests never look across.",
  [MSG, O2, OI, SES, IA],
  [("default instantiation", "Message.__init__, Message.set_defaults"), ("derived tables", "class bodies that copy and update c_param/c_default/c_allowed_values")],
  ["values seen by other instances", "verify() results of other message types"],
  [("c_default, c_param, c_allowed_values", "class-level tables shared by all instances")])

p("M06", "Message schemas require and type what the protocol specifications require",
  """Each protocol message type (OAuth2 authorization, token, introspection, exchange and device flows; OpenID Connect authentication, ID Token, UserInfo,
  registration, discovery, session and logout; identity assurance) marks as required exactly the parameters its specification profile
  requires and declares each parameter of that profile with the specified kind (string, integer, boolean, list, space-separated list, JSON, nested message) and encoding.""",
  ["inputs", "configurations"], "all message types x all standard parameters",
  "Tests exercise a subset of parameters; a flipped required flag or kind on the others stays invisible.",
  [MSG, O2, OI, SES, IA, DEV], [("schemas", "c_param of every message type, after module evaluation")],
  ["verify() / deserialisation of messages of that type"])

p("M07", "Protocol vocabularies and defaults match the specifications",
  """The permitted values of restricted parameters (error codes, display, prompt, grant type, subject type, application type, client assertion type) and the default
  values that a new message starts out with (grant types, response types, provider metadata defaults, discovery relation) are those of the respective specification for each message type.""",
  ["configurations"], "all message types with vocabularies or defaults",
  "Tests look at few of the values.",
  [O2, OI], [("vocabularies", "c_allowed_values"), ("defaults", "c_default")], ["verify() results", "content of a freshly created message"])

p("M08", "Encoders and decoders of every schema entry fit their call sites and each other",
  """For every parameter of every message type, the encoder and decoder attached to it can be called the way the message codecs call them, so that
  no declared parameter fails to encode or decode because of its declaration (messages embedded in types that only travel as JSON - ID Token, UserInfo, JRD, identity assurance - have no form encoding). For list-valued parameters the decoder undoes the encoder
  in form-encoded and in dictionary format (a space-separated list is joined and split on the same single space; other lists likewise). A claims request, an address or a document given as JSON text is taken for the message of that text. A form text handed over as the only member of a list is read as that text.""",
  ["inputs", "configurations"], "all schema entries x all codec call sites, all list values",
  "Tests encode only a few parameters; the pairing is a property of every schema entry.",
  [MSG, OI, IA], [("schema entries", "value specification tuples"), ("call sites", "to_urlencoded, from_urlencoded, to_dict, from_dict, _add_value")],
  ["to_*/from_* results"])

p("M09", "All codecs resolve a parameter name to the same declaration",
  """When a message is loaded from or written to form-encoding, dictionary or JSON, a parameter is treated according to its exact declaration if there is one, otherwise by the
  declaration of the name before a language tag ('name#tag'), otherwise by the wildcard declaration if the type has one, and otherwise passed through unchanged.""",
  ["inputs"], "all four codec directions x all parameter names",
  "Tests use one language-tagged claim in one codec direction.",
  [MSG], [("lookup in encoders", "to_urlencoded, to_dict"), ("lookup in decoders", "from_urlencoded, from_dict")],
  ["result of the codec"])

p("M10", "Form encoding never drops a required parameter or folds repeated ones",
  """Form-encoding a message that lacks a required parameter raises an error unless the message was explicitly made lax, and null-valued parameters (declared ones that may not be null, and undeclared ones) are left out. Decoding a form-encoded message that repeats a declared single-valued parameter raises an error; an input without any key-value pair is refused as malformed.""",
  ["inputs"], "all message types x all contents / encoded strings",
  "Tests have one example of each.",
  [MSG], [("encoder", "Message.to_urlencoded"), ("decoder", "Message.from_urlencoded")], ["to_urlencoded / from_urlencoded results"])

p("M11", "A request URL carries the message in the right URL component",
  """Building a request URL from a location and a message appends the form-encoded message after '#' when fragment encoding is asked for, after '&' when the location
  already has a query part, and after '?' otherwise, and leaves the location itself unchanged.""",
  ["inputs"], "all locations and messages", "Tests use three locations.",
  [MSG], [("URL composition", "Message.request")], ["returned URL"])

p("M12", "Extra-parameter bookkeeping and message equality are exact",
  """The extra parameters of a message are exactly those it holds that its type does not declare; weeding removes exactly those; blank removal removes exactly the parameters with empty values; 'only extras' holds exactly when no declared parameter is present.
  Two messages are equal exactly when they are messages of the same type name with equal content.""",
  ["inputs"], "all message contents", "Tests use one message each.",
  [MSG], [("bookkeeping", "Message.extra, weed, rm_blanks, only_extras, __eq__"), ("merging helpers", "by_schema, add_non_standard")],
  ["message content afterwards"])

p("M13", "A message is a faithful mapping of its parameters and copies are independent",
  """Setting a parameter (an undeclared one to any value, a declared one to a non-empty value of its kind) makes exactly that parameter hold it; a refused assignment changes nothing. Reading, membership, length, iteration, keys, values and items report exactly the
  parameters the message holds with their values; get gives its default exactly for an absent parameter; deleting removes exactly the named one (an absent one is an error); updating with a dictionary or message takes over every given entry, leaves the others and the source alone, and refuses anything else.
  A copy is a message of the same type with equal content whose changes, at any depth, never reach the original. What a type says about its parameters (list, required ones, value type) is what it declares.""",
  ["inputs", "histories"], "all message types, contents, names and values", "Tests set and read a few well-known parameters; nothing checks that all others stay as they were.",
  [MSG], [("mapping", "Message.__setitem__, __getitem__, get, __delitem__, __contains__, __len__, __iter__, keys, values, items, update"), ("copy", "Message.copy"), ("introspection", "parameters, required_parameters, value_type, type")],
  ["results of the mapping operations"])

p("M14", "Serialising by name, signing and encrypting cover the whole message",
  """Serialising or reading by the name of a method gives what the codec of that name gives (form encoding when nothing is said), and an unknown name is refused without touching the message. Writing never changes what is written.
  Signing a message (types with their own issuing rules apart) signs exactly its whole JSON form with the given keys and algorithm; encrypting encrypts exactly its whole JSON form for the given keys with the given algorithms; reading an encrypted message takes over exactly the JSON content decrypted with the given keys, and nothing when that fails.""",
  ["inputs", "configurations"], "all message types, contents, keys and algorithms", "Tests sign and encrypt one or two messages with well-known content.",
  [MSG], [("dispatch", "Message.serialize, deserialize"), ("signing", "Message.to_jwt"), ("encryption", "Message.to_jwe, from_jwe")], ["arguments of the signing and encryption primitives", "content of the message that is read"])

# ---------------------------------------------------------------- JOSE / tokens
p("J01", "No content is taken from a signed token before its signature verified",
  """Loading a message from a signed token (algorithm other than 'none') fails without taking over any content unless the signature verified against keys obtained for that token from the supplied key material,
  or the caller explicitly switched verification off. If no key is available the load fails, and an encrypted token is decrypted with the receiver's own keys before the inner token is processed under the same rule.
  Where the caller switched verification off the token is loaded whatever its signature; where none of the keys at hand fits, the key jar is asked for new ones and these are used.""",
  ["inputs", "fault_sequences"], "all tokens, key jars and options; every failure of key lookup, decryption and verification",
  "Tests have a good token, a token without key and few options; the order 'verify, then load' must hold on all paths including retry and exception paths.",
  [MSG], [("token loading", "Message.from_jwt")], ["exception or resulting message"],
  [("jws_header, jwt, content", "what later checks rely on")])

p("J02", "Unsigned or wrongly signed ID tokens are refused unless explicitly allowed",
  """An ID token carried in a response, session message or logout hint whose algorithm is 'none' is refused unless the caller pinned the algorithm to 'none' or explicitly allowed unsigned tokens, and a signed one is refused if the caller pinned a
  different algorithm. A value that is not a signed token at all is refused, and a signed token from an issuer unknown to the supplied key material is refused. For the hint of an authentication request an unsigned token is refused unless explicitly allowed, and a signed one only accepted with a verified signature.""",
  ["inputs", "configurations"], "all tokens x all option combinations, for every message type that carries an ID token",
  "Tests cover a few combinations of algorithm and options.",
  [OI, SES, MSG], [("token policy", "verify_id_token"), ("carriers", "AccessTokenResponse, AuthorizationResponse, MessageWithIdToken, EndSessionRequest")],
  ["result of verify()"])

p("J03", "ID tokens are only accepted from the right issuer for the right client",
  """An ID token is refused if the expected issuer is given and differs from its issuer, if the client's id is given and is not in the audience, if there are several audiences and no authorized party or one outside the audience,
  if an authorized party is present and is not the given client, or if both sides have a nonce and they differ. A token that satisfies these rules is not refused on their account. A message that carries an ID token (a token or authentication response, a session message, a logout request with a hint) is refused when that token is, on what the caller expects for the message.""",
  ["inputs"], "all ID tokens and verification arguments",
  "Tests check single violations with fixed arguments.",
  [OI], [("ID token rules", "IdToken.verify")], ["result of IdToken verification"])

p("J04", "Expired or too old ID tokens are refused, live ones are not",
  """An ID token is refused exactly when, seen at the current time reduced by the allowed clock skew (zero unless given), its expiry time has passed or its issue time lies further back than the storage time (given by the caller, otherwise four hours).
  A token without expiry or issue time is refused. A message that carries an ID token to be accepted (a response, a session message, a logout request with a hint) is refused when that token is.""",
  ["inputs", "schedules"], "all issue/expiry times, skews, storage times and clock values",
  "Tests use one expired and one fresh token; boundaries, skew direction and missing arguments are not covered.",
  [OI], [("time rules", "IdToken.verify")], ["result of IdToken verification"])

p("J05", "An ID token bound to a code or access token must match it",
  """In an authentication response, a signed ID token accompanied by an access token (code) is refused unless it contains the access-token hash (code hash) and that hash equals the left-half hash, under the hash function of the token's own signing algorithm, of the
  access token (code) in that same response. A token with matching hashes is not refused on their account.""",
  ["inputs"], "all authentication responses, algorithms and tokens",
  "Tests cover one algorithm and few mismatches.",
  [OI], [("hash check", "verify_id_token with hash checking"), ("caller", "AuthorizationResponse.verify")], ["result of verify()"])

p("J06", "Issued ID tokens carry hashes, times, and never the raw code or token",
  """Issuing an ID token replaces a contained access token and code by their left-half hashes under the signing algorithm's hash function, so the raw values never appear in the token, stamps the current time as issue time,
  and, when a lifetime is given, sets the expiry to issue time plus lifetime; all this happens before the token is serialised and signed.""",
  ["inputs"], "all ID tokens, algorithms and lifetimes", "Tests cover one algorithm.",
  [OI], [("issuing", "IdToken.to_jwt, pack, pack_init, val_hash")], ["content of the signed token"])

p("J07", "Generic JWT claims are checked with a tolerance in the token's favour",
  """A generic JSON web token is refused exactly when its expiry lies before the current time minus skew, its issue time after the current time plus skew, its not-before time after the current time plus skew, the expected audience is given and not among its audiences,
  or the expected issuer is given and differs; absent claims are not a reason for refusal. Enlarging the skew never turns an accepted token into a refused one.""",
  ["inputs", "schedules"], "all claim values, skews and clock values", "Tests do not exercise skew.",
  [OI], [("claim rules", "JsonWebToken.verify")], ["result of verify()"])

p("J08", "Back-channel logout tokens are accepted only when complete and authentic",
  """A logout token is refused if it contains a nonce, if its events member is not exactly the back-channel-logout event with an empty object, if it has neither subject nor session id, if the given audience or issuer does not match,
  if it was issued in the future beyond the skew, or if its algorithm differs from a pinned one. A back-channel logout request is accepted only if its token's signature verified with the supplied key material and the token passed these rules;
  an unsigned token is refused unless unsigned tokens were explicitly allowed.""",
  ["inputs"], "all logout tokens and verification arguments", "Tests cover single violations; unsigned tokens and combinations are not covered.",
  [SES], [("logout token rules", "LogoutToken.verify"), ("request", "BackChannelLogoutRequest.verify")], ["result of verify()"])

p("J09", "Verified-token slots only ever hold what this verification verified",
  """After a message was accepted, the slots in which it exposes verified tokens (ID token, ID token hint, request object, logout token) hold only objects that this verification obtained from the corresponding token in the message;
  a slot value that came in with the message or inside a request object is never left standing, whether or not the corresponding token is present.""",
  ["inputs", "histories"], "all messages including ones that carry slot names as ordinary parameters, and repeated verification",
  "No test sends a slot name as a parameter.",
  [OI, O2, SES], [("clearing", "clear_verified_claims and the verify methods"), ("setting", "verify_id_token and the verify methods")],
  ["slot content after verify()"])

p("J10", "Demanded encryption is enforced",
  """If the caller demands a key management algorithm (encalg) or a content encryption algorithm (encenc), then neither loading a token into a message nor verifying a message that carries one
  (request object, ID token, ID token hint) accepts a token whose encryption uses another one, nor - where a key management algorithm is demanded - a token that is not encrypted; nothing of a refused token ends up in the message.
  A token that is encrypted as demanded is not refused for that reason, and the header of its encryption is available afterwards.""",
  ["inputs"], "all tokens, all message types that load one, all option combinations",
  "Tests encrypt with one algorithm and never demand another.",
  [MSG, OI, O2], [("loading", "Message.from_jwt"), ("options", "argument lists of the verify methods, ID_TOKEN_VERIFY_ARGS")],
  ["exception or verdict; message content"])

# ---------------------------------------------------------------- protocol rules
p("A01", "OpenID authentication requests obey the protocol's cross-parameter rules",
  """An OpenID authentication request is refused unless its scope contains 'openid'; if it asks for an ID token without a nonce or with a nonce other than the expected one; if it asks for offline access without prompting for consent; and if
  prompt 'none' is combined with another prompt. A request that meets these rules is not refused on their account.""",
  ["inputs"], "all authentication requests, with and without request object", "Tests cover single violations.",
  [OI], [("rules", "oidc AuthorizationRequest.verify")], ["result of verify()"])

p("A02", "A signed request object governs the parameters it is supposed to govern",
  """When a request carries a request object, the object is authenticated with the supplied key material before use and its parameters take precedence; in the strict treatments (OpenID request, secured authorization request) a parameter outside the object does not survive,
  in the whitelist treatment only whitelisted ones survive, and only in the lax treatment (pushed request) all survive. The merged request must itself satisfy the message type's required parameters and vocabularies, and an unknown treatment is refused. A request with an authentic object that makes it complete is accepted.""",
  ["inputs"], "all requests, request objects, treatments and whitelists", "Tests merge two or three fixed parameter sets.",
  [O2, OI], [("merging", "oauth2 AuthorizationRequest.merge"), ("users", "JWTSecuredAuthorizationRequest.verify, PushedAuthorizationRequest.verify, oidc AuthorizationRequest.verify")],
  ["message content and result after verify()/merge()"])

p("A03", "Authorization responses meant for another client or issuer are refused",
  """An authorization response that names a client id or an issuer is refused when verification is given a different client id or issuer, and an OpenID authentication response that carries an audience is refused when the given client id is not in it.
  The same holds for every response type derived from it, and a response that names nothing, or the right party, is not refused on this account.""",
  ["inputs"], "all responses and verification arguments", "Tests check one mismatch each.",
  [O2, OI], [("mix-up check", "oauth2 AuthorizationResponse.verify, oidc AuthorizationResponse.verify")], ["result of verify()"])

p("A04", "Client registration metadata obeys the registration rules",
  """A registration request is refused if its login-initiation URI is not https, if an encryption method is given without the corresponding algorithm (for request objects, ID tokens and user info alike), or if the token-endpoint signing algorithm is 'none';
  an encryption algorithm without method gets the default method A128CBC-HS256. A registration response is refused if it has only one of registration URI and registration access token.""",
  ["inputs"], "all registration requests and responses", "Tests cover some of the parameter combinations.",
  [OI], [("rules", "RegistrationRequest.verify, RegistrationResponse.verify")], ["result of verify()", "message content"])

p("A05", "Provider metadata is only accepted when it satisfies the discovery rules",
  """Provider metadata is refused if the issuer is not https (unless http was explicitly allowed) or has a query or fragment, if supported scopes are listed without 'openid' or with a character outside the scope alphabet, if RS256 is not among the ID token signing algorithms, or
  if a code-based response type is supported without a token endpoint. Metadata that satisfies these rules is not refused on their account.""",
  ["inputs"], "all metadata documents", "Tests cover single violations.",
  [OI], [("rules", "ProviderConfigurationResponse.verify")], ["result of verify()"])

p("A06", "A logout redirect needs a verified ID token hint",
  """A logout (end-session) request with a redirect URI but no ID token hint is refused; whenever a hint is present the request is accepted only if the hint verifies under the ID token rules with the caller's arguments,
  and the verified hint is then exposed. A request with neither is accepted.""",
  ["inputs"], "all end-session requests and arguments", "Tests cover three requests.",
  [SES], [("rules", "EndSessionRequest.verify")], ["result of verify()"])

p("A07", "Character-restricted texts accept exactly the specified alphabet",
  """An error response is refused exactly when its error description contains a character outside %x20-21, %x23-5B and %x5D-7E, in every response type. Scope values in provider metadata are checked against exactly %x21, %x23-5B, %x5D-7E, and a stated purpose of a claims request against the error-description alphabet.""",
  ["inputs"], "all strings over all characters", "Tests use two strings.",
  [O2, OI, IA], [("alphabets", "error_chars, SCOPE_CHARSET"), ("checks", "ResponseMessage.verify, check_char_set, _verify_claims_request_value")], ["result of verify()"])

p("A08", "User info and ID token claims sets contain no null and a well-formed birthdate",
  """A user-info response, ID token or identity-assurance claims set is refused when any claim value is null, or when its birthdate is in none of the forms YYYY-MM-DD, YYYY and 0000-MM-DD. Claims sets without nulls whose birthdate is absent or in one of these forms are not refused on this account.""",
  ["inputs"], "all claims sets", "Tests use a few birthdates; nulls are tested for the plain schema only.",
  [OI, IA], [("rules", "OpenIDSchema.verify and its subclasses")], ["result of verify()"])

p("A09", "A device-flow token request names its grant type and client",
  """A device-flow access token request that carries a device code is refused unless both grant type and client id are present, and is accepted when they are (given the generic rules); one without device code is refused unless it has an authorization code and a redirect URI; a message is classified as an error message exactly when it carries an error parameter.""",
  ["inputs"], "all device-flow token requests and messages", "Tests cover little of it.",
  [DEV, O2], [("rule", "device AccessTokenRequest.verify"), ("classification", "is_error_message")], ["result of verify()"])

# ---------------------------------------------------------------- identity assurance, claims
p("I01", "Identity evidence is verified as the kind of evidence it claims to be",
  """Evidence that names its type is verified under the rules of exactly that type (identity document, utility bill, qualified signature) and refused if those rules refuse it or the type is unknown; evidence that names no type is accepted only if it verifies as one of the known types, and is then labelled with that type.
  Well-formed evidence of a known type is accepted.""",
  ["inputs"], "all evidence objects", "Tests deserialise evidence but never verify typed evidence.",
  [IA], [("dispatch", "Evidence.verify")], ["result of verify()"])

p("I02", "Claims requests only pass when each constraint has the claim's own type",
  """A verified-claims request is refused if, for any declared text, number or boolean claim of the request's nested message types (or an item given for a claim that is a list of such), the 'essential' constraint is not a boolean, the 'value' or any of the 'values' is not of the claim's declared type, or the purpose is shorter than 3 or longer than 300 characters or uses a forbidden character.
  Null constraints and absent claims are allowed, and a request inside an OpenID claims request is checked by the same rules.""",
  ["inputs"], "all claims requests, claims and nesting", "Tests have five requests.",
  [IA], [("rules", "verify_claims_request, _verify_claims_request_value, IDAClaimsRequest.verify"), ("builder", "ClaimsConstructor")], ["result of verify()"])

p("I03", "A claim matches a claims request exactly as the specification says",
  """A claim value matches a null claims specification, one with only the 'essential' member, one whose 'value' equals it or one whose 'values' contain it; it does not match a specification that lists other values.""",
  ["inputs"], "all values and specifications", "Tests cover a few specifications.",
  [OI], [("matching", "claims_match")], ["returned boolean"])

p("I04", "The claims constructor takes exactly well-typed claims requests and keeps them",
  """A claims constructor for a message type takes, for a declared text, number or boolean claim, null or a specification whose essential member is a boolean, whose value and values are of the claim's type and whose purpose is well-formed, and refuses a specification that is not, a value of another kind, and a nested constructor. For a claim that is a message of its own it takes null or a nested constructor
  for that message type and refuses one for any other type (an unrelated one, or a more general one than the claim's). A refused entry is not kept. The dictionary and JSON forms contain exactly what was put in, nested constructors expanded, the last entry for a claim winning; constructors share nothing. All this holds whether the message type is given as class, instance or name.""",
  ["inputs"], "all user info and identity assurance message types, claims and specifications", "Tests build one request with null constraints only.",
  [IA], [("builder", "ClaimsConstructor"), ("rules", "_verify_claims_request_value")], ["result of the assignment", "to_dict, to_json"])

# ---------------------------------------------------------------- storage
p("S01", "A file store keeps every key in its own file directly inside its directory",
  """Whatever the key, storing, reading, testing and deleting an entry only ever touches the one file that the key converter assigns to that key, directly inside the store's directory, and all operations agree on that file; listing returns the original keys.
  With the default converter no key, however chosen, reaches outside the directory. A directory name with a place for the issuer gives each issuer its own directory, and no store without an issuer. A directory within the directory, like that of another store, is never listed, counted, read or removed as an entry.""",
  ["inputs", "histories"], "all keys and operation sequences", "Tests use a few keys that need no conversion on the paths that omit it.",
  [ST + "abfile.py", ST + "converter.py"], [("file naming", "every file-system call in AbstractFileSystem"), ("key conversion", "key_conv serialize/deserialize, QPKey")],
  ["files touched on disk", "results of the operations"])

p("S02", "File contents are only read, written or removed under that file's lock",
  """Every read, write and removal of an entry's file by the file store happens while the lock belonging to that very file is held, the lock is released on all exits, and lock files are never reported, counted, loaded or removed as if they were entries.""",
  ["schedules", "fault_sequences"], "all interleavings of stores sharing a directory; all failures inside the locked regions",
  "Races need particular interleavings; tests are sequential.",
  [ST + "abfile.py"], [("locking", "FileLock regions in AbstractFileSystem"), ("lock-file filter", "directory scans")], ["files on disk", "listing results"])

p("S03", "The file store's cache never answers with data the directory contradicts",
  """A value written or deleted through the store is what the next read through it reports; a change made behind its back (another store on the same directory) is noticed on the next read because a cached value is only served when the file's modification time is not newer than the one recorded for that value.
  The modification time recorded for a value is taken such that a later foreign write cannot hide behind it, a failed read does not mark a file as seen, and an entry whose file is gone is dropped from cache and listings.""",
  ["histories", "schedules"], "all histories of operations by several stores on one directory", "Tests use a single store and short histories.",
  [ST + "abfile.py"], [("cache", "storage/fmtime of AbstractFileSystem"), ("coherence", "__getitem__, __setitem__, __delitem__, is_changed, synch, clear")],
  ["results of reads and listings"], [("storage", "cached values by file name"), ("fmtime", "modification time of the cached value by file name")])

p("S04", "Labelled stores isolate their namespaces and behave like dictionaries",
  """In a labelled store every operation (get, set, update, delete, membership, iteration, listing, counting) applies to the keys under its own label only, adds the label exactly once on the way in and strips exactly it on the way out. A missing key yields the given default from get.""",
  ["histories", "inputs"], "all labels, keys and operation histories", "Tests use one label and few operations.",
  [ST + "extension.py", ST + "abfile.py"], [("labelling", "key_label, LabeledDict, LabeledAbstractFileSystem")], ["results of the operations"])

p("S05", "SQL store modifications are durable when the call returns",
  """Every set, update and delete on the SQL store has been committed when the call returns, a set replaces all previous rows of that key within one transaction, and no operation touches rows of another key. Reading returns the stored data of exactly the asked key, by method or by item access, and iterating gives every row.""",
  ["histories", "crash_points"], "all operation histories, all crash points after a call returned", "No test touches the SQL store.",
  [ST + "absqlalchemy.py"], [("SQL statements", "AbstractStorageSQLAlchemy")], ["database content seen from another connection"])

p("S06", "Storage selection follows the configuration and leaves it unmodified",
  """A storage instance is created by the handler named in the configuration entry of the requested kind, falling back to the default entry and then to an in-memory store, and gets exactly that entry without the handler name; a missing handler or missing default is a configuration error.
  Adding an issuer to a configuration, and creating a context or a store from it, never modifies the caller's configuration, and an issuer is added in escaped form to every store entry.""",
  ["configurations"], "all storage configurations", "Tests use two configurations.",
  [ST + "init.py", ST + "utils.py", CTX], [("selection", "get_storage_conf, storage_factory, init_storage"), ("issuer scoping", "add_issuer"), ("import by name", "modsplit, importer")], ["class and configuration of the created store"])

p("S07", "A context stores messages as plain data and serves keys under the entity's name",
  """Values set on a context are what later reads return, with messages stored as plain dictionaries and the seed returned as bytes; a key jar given to the context is used as is, and otherwise one is built from the configured keys or key set on the configured key storage and, when an entity id is given, the own keys are also registered under that id.""",
  ["configurations", "histories"], "all context configurations", "Tests use two configurations.",
  [CTX], [("context", "OidcContext")], ["context attributes"])

p("S08", "The shipped database table fits the SQL store",
  """The table that the database set-up declares has the columns the SQL store reads and writes (owner and data), under these names; nothing in it (uniqueness, primary key, constraints) refuses a second row with the same owner or data, and every other column fills itself: the primary key is a column of its own that numbers itself, and a time stamp default is taken when a row is written, not when the module is loaded. Setting up creates the table in the database of the configured URL and leaves the configuration as it is.""",
  ["configurations", "histories"], "all rows the store can write", "Tests write a handful of rows with distinct owners.",
  [ST + "db_setup.py", ST + "absqlalchemy.py"], [("declaration", "db_setup.Thing")], ["evaluated column declarations"])

p("S09", "What the file store holds is the converted value, and comes back",
  """What the file store writes for a key is exactly what the value converter makes of the value, and what any store on the same directory reads is what the converter makes of the whole content of the file (white space around it apart). With the JSON converter every JSON value and with the pass-through converter every text (without white space around it) comes back as it was.
  A text that is not JSON is refused by the JSON converter; a value it cannot convert is refused, and then the file, what the store reads and its count are as before. All this holds as well where the directory does not exist before, or was removed since: it is made when a store is made, listed, cleared or written to, and then holds nothing else.""",
  ["inputs", "histories"], "all values, all contents written by other programs", "Tests store one or two short texts and never a value that is refused.",
  [ST + "abfile.py", ST + "converter.py"], [("writing", "AbstractFileSystem.__setitem__"), ("reading", "AbstractFileSystem._read_info"), ("converters", "JSON, PassThru")], ["file contents", "values read"])

# ---------------------------------------------------------------- time, factories, misc
p("T01", "Time helpers honour every unit they accept, in UTC",
  """Each relative-time helper applies every one of its arguments (days, seconds, microseconds, milliseconds, minutes, hours, weeks) to the unit of that name, forwards or backwards as its name says, starting from the current UTC time; results in epoch seconds count from 1970-01-01 UTC.
  Comparison helpers normalise strings and epoch numbers to UTC and 'before'/'after'/'later than' are exact complements or orderings of the normalised times.""",
  ["inputs"], "all unit combinations and time values", "Tests use one or two units and the argument order between layers is positional.",
  [TU], [("relative time", "time_in_a_while, time_a_while_ago, in_a_while, a_while_ago, epoch_in_a_while"), ("comparison", "before, after, later_than, str_to_time"), ("now", "utc_time_sans_frac")], ["returned values"])

p("T02", "Identity assurance time stamps denote the instant they were made from",
  """A time stamp written from an instant (seconds since 1970 as number or digits, or a datetime, with or without zone) carries the UTC offset that the local zone had at that very instant, so that reading it back gives the same instant to the second, whatever the instant
  (the beginning of 1970 and times before included), the season and the local zone; a date written is the local day of the instant. A text with zone offset is read as the instant it denotes, one that is no time stamp is refused, and a text that is a time stamp already is written as it is.""",
  ["inputs", "configurations"], "all instants x all local time zones", "One test writes and reads the present instant, in the zone and season of the test machine.",
  [IA], [("writing", "to_iso8601_2004, time_stamp_ser, date_ser"), ("reading", "from_iso8601_2004, time_stamp_deser")], ["texts and numbers returned"])

p("F01", "The message factories build the requested type and fall back sensibly",
  """Asking a factory for a message type by name returns a new message of exactly the class of that name in that protocol family, with the given content; the OpenID factory falls back to the OAuth2 types; an unknown name yields nothing, and no name yields an object that is not a message.""",
  ["inputs"], "all names and contents", "Tests use a few names.",
  [O2, OI], [("factories", "oauth2.factory, oidc.factory")], ["type and content of the result"])

p("P01", "Path helpers normalise every input and rewrite only relative paths",
  """Normalising a path yields a relative path that starts with './' and ends with '/', whatever the input. Adding a base path rewrites exactly the listed, relative path entries of a configuration (at any depth of the listing) to paths below the base and leaves absolute paths and everything else alone.""",
  ["inputs"], "all path strings and configurations", "Tests use four paths and never call the base-path helper.",
  [INI], [("helpers", "proper_path, add_base_path")], ["returned path", "rewritten configuration"])

p("C01", "A request object JWT carries the whole request under the given signer",
  """A request object made from an authentication request contains all of that request's parameters, is issued and signed by the given issuer with the requested algorithm for the given receiver, and has a lifetime and token id exactly when asked for.""",
  ["inputs"], "all authentication requests and options", "Tests use one call.",
  [OI], [("construction", "make_openid_request")], ["the resulting JWT"])

# ---------------------------------------------------------------- not decidable statically
p("N01", "Serialising and parsing a message returns an equal message",
  """Converting any message to JSON, form-encoding or a token and parsing the result yields an equal message.""",
  ["inputs"], "all messages", "Tests use a few messages.",
  [MSG], [("codecs", "Message.to_*, from_*")], ["equality of messages"])
p("N02", "Duration arithmetic follows XML Schema",
  """Parsing an XML Schema duration and adding it to a point in time yields the time that XML Schema Part 2 Appendix E specifies.""",
  ["inputs"], "all durations and times", "Tests use a few durations.",
  [TU], [("durations", "parse_duration, add_duration")], ["computed time"])
p("N03", "Concurrent stores on one directory are linearizable and crash-safe",
  """Operations of several processes on one storage directory appear to take effect atomically in some order, and a crash never leaves a partially written value visible.""",
  ["schedules", "crash_points"], "all interleavings and crash points", "Tests are sequential.",
  [ST + "abfile.py"], [("file store", "AbstractFileSystem")], ["values read back"])
p("N04", "Signatures and encryption cannot be forged",
  """A token accepted under a key was produced by a holder of that key.""",
  ["inputs"], "all tokens", "Tests use a few tokens.",
  [MSG], [("JOSE", "cryptojwt calls in Message.from_jwt")], ["acceptance of tokens"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
