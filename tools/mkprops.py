"""Writes /verif/properties.jsonl (kept as a script so the JSON stays well formed)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'PEM reader returns exactly the first marked block',
  'Given any text stream and any list of (begin, end) marker pairs, the PEM block reader returns the position of the pair whose begin marker is the first begin line met and the bytes obtained by Base64-decoding, line by line, the stripped lines between that line and the first later line equal to the end marker of that same pair. It consumes the stream up to and including that end line and nothing beyond it, so repeated calls yield the successive blocks. When no begin line exists it reports (-1, empty), when the block is never closed it reports the pair position with an empty result, and in both cases the stream is read to its end.',
  ['inputs', 'histories'], 'every stream content (any number of lines, any surrounding whitespace, stray or nested markers), every marker list, and every sequence of successive calls on one stream',
  'tests/test_pem.py calls only the plain Base64 text reader on one fixed string; the block reader is never called by any test, and no test can range over all streams and marker lists.',
  ['pyasn1_modules/pem.py'],
  [('line state machine stSpam/stHam/stDump', 'pyasn1_modules/pem.py:readPemBlocksFromFile')],
  [('state', 'outside a block / inside block idx / block complete', 'pyasn1_modules/pem.py:readPemBlocksFromFile'),
   ('certLines', 'stripped lines seen since the begin line', 'pyasn1_modules/pem.py:readPemBlocksFromFile')],
  ['return value of pem.readPemBlocksFromFile', 'position of the file object afterwards'])

p('C02', 'PEM and Base64 convenience readers agree with the block reader and Base64',
  'The single-block PEM reader returns, for every stream and marker pair (the certificate markers when none are given), exactly the bytes the block reader yields for that one pair. The Base64 text reader returns exactly the Base64 decoding of the whole text, and the Base64 file reader returns the same for everything that remains in the stream, for every text.',
  ['inputs'], 'every stream, every text, every marker pair including the default one',
  'One fixed text is decoded by one of the three functions in the tests; the other two are never called.',
  ['pyasn1_modules/pem.py'],
  [('delegation to the block reader', 'pyasn1_modules/pem.py:readPemFromFile'), ('Base64 of encoded text', 'pyasn1_modules/pem.py:readBase64fromText'), ('read-all then decode', 'pyasn1_modules/pem.py:readBase64FromFile')],
  observe=['return values of the three functions'])

p('C03', 'OID builders concatenate their arguments',
  'Every helper with which a module composes object identifiers returns, for any mixture of integers, numeric strings and object identifiers and any number of arguments, the object identifier whose arcs are exactly the arguments\' arcs concatenated in order. No argument is dropped, reordered, truncated or modified.',
  ['inputs'], 'every argument list: any length, any mixture of arcs and identifiers of any length, in every module that has such a helper',
  'Tests only see the handful of identifiers a module happens to build at import; they never call the helpers on other argument lists.',
  ['pyasn1_modules/rfc2985.py', 'pyasn1_modules/rfc3279.py', 'pyasn1_modules/rfc3280.py', 'pyasn1_modules/rfc3281.py', 'pyasn1_modules/rfc3852.py', 'pyasn1_modules/rfc4055.py', 'pyasn1_modules/rfc4211.py', 'pyasn1_modules/rfc5084.py', 'pyasn1_modules/rfc5280.py', 'pyasn1_modules/rfc5652.py', 'pyasn1_modules/rfc5751.py', 'pyasn1_modules/rfc5934.py', 'pyasn1_modules/rfc5990.py', 'pyasn1_modules/rfc6031.py', 'pyasn1_modules/rfc6402.py', 'pyasn1_modules/rfc7292.py', 'pyasn1_modules/rfc8018.py', 'pyasn1_modules/rfc8103.py', 'pyasn1_modules/rfc8226.py'],
  [('accumulate arcs, then build one identifier', '_OID / _buildOid in each of the listed modules')],
  observe=['return value of the helper', 'identifiers built from it'])

p('C04', 'Published object identifiers and numeric bounds have their registered values',
  'Every public object identifier constant of every module equals the identifier registered for that name in the specification the module implements, and every public numeric bound or other constant equals the value that specification assigns. A name exported by several modules for the same specification item has the same value in all of them.',
  ['programs', 'configurations'], 'every public constant (about 1300 identifiers, bounds and other constants) of every module',
  'Each test touches the few identifiers its sample data uses, and usually compares a module with itself; an identifier no sample contains can have any value and no test notices.',
  ['pyasn1_modules/'],
  [('constant definitions', 'module bodies, e.g. pyasn1_modules/rfc5280.py id_* and ub_*')],
  observe=['module attributes'])

p('C05', 'Every type has the tags and layout of its specification',
  'For every published ASN.1 type and every value of it, the encoding has exactly the structure its specification defines: the same tag classes and numbers, explicit or implicit tagging, primitive or constructed form, the same components under the same names in the same order, each required, optional or defaulted as specified, and the same element types, recursively. Consequently a conforming peer\'s encoding of any value is accepted and an accepted value is re-encoded as that peer would encode it. Every published type can be instantiated, cloned and subtyped.',
  ['inputs', 'programs'], 'every public type of every module, every nested component, and every value of it',
  'Most tests decode one captured object; optional components, alternatives, nested types and whole types that the sample lacks are never exercised (about 1550 classes, 282 tests).',
  ['pyasn1_modules/'],
  [('class bodies: tagSet, componentType, subtype(implicitTag/explicitTag)', 'every rfc*.py module')],
  observe=['DER/BER/CER bytes produced and accepted for each type', 'component names'])

p('C06', 'Value constraints admit exactly the permitted values',
  'For every published type and every constrained component, a value satisfies the type\'s constraint if and only if the specification permits it: integer ranges, string and list sizes, permitted alphabets, enumerated single values and required component combinations all have exactly the specified bounds. Constraints apply to the kind of value they constrain, so no permitted value fails with an unrelated error.',
  ['inputs'], 'every value (every integer, string, length, presence combination) of every constrained type and component',
  'Tests use sample values well inside the permitted set; no test probes both sides of every bound, and most constrained types have no boundary test at all.',
  ['pyasn1_modules/'],
  [('subtypeSpec / sizeSpec constraint objects', 'every rfc*.py module, e.g. pyasn1_modules/rfc1902.py, pyasn1_modules/rfc5280.py ub_* sizes')],
  observe=['acceptance or ValueConstraintError when a value is created, assigned or encoded'])

p('C07', 'Encodings identify alternatives and optional components uniquely',
  'For every published type, the tags met in an encoding determine which alternative of a choice, which optional or defaulted components of a sequence and which members of a set are present: no two candidates at one point share a tag or swallow each other. Hence every combination of present components and chosen alternatives decodes back to that same combination, at every nesting depth, and every component type is fully defined.',
  ['inputs'], 'every subset of optional/defaulted components and every choice alternative of every type, recursively',
  'A test decodes one combination; the number of presence combinations is exponential and collisions only show on combinations the sample does not contain.',
  ['pyasn1_modules/'],
  [('distinct component tags', 'componentType declarations in every rfc*.py module')],
  observe=['result of decoding an encoded value'])

p('C08', 'Named numbers and named bits mean what the specification says',
  'For every published enumeration, named integer and named bit string, each specified name maps to exactly its specified number or bit position and each number back to that name; there are no missing, extra, duplicated or swapped names. This holds equally for the named values of nested components.',
  ['inputs', 'programs'], 'every name and every number of every named type and component',
  'Tests look up the one or two names their sample data contains.',
  ['pyasn1_modules/'],
  [('namedValues declarations', 'every rfc*.py module')],
  observe=['type(name), prettyPrint, int(value), namedValues lookups'])

p('C09', 'Omitted components take the specified default',
  'For every published type with defaulted components, decoding an encoding that omits the component yields exactly the specified default value, encoding a value equal to the default omits it, and any other value is encoded. Components the specification does not give a default to never acquire one.',
  ['inputs'], 'every defaulted component of every type and every value of that component',
  'Defaults only matter for inputs that omit the component; the samples in the tests cover few of them and rarely check the value.',
  ['pyasn1_modules/'],
  [('DefaultedNamedType component values', 'every rfc*.py module')],
  observe=['component value after decoding, bytes after encoding'])

p('C10', 'Open-type registries map each identifier to the right type',
  'After importing the modules, each public open-type registry contains, for every identifier the specifications assign to it, exactly the type that specification says the identifier governs, and no other entries. Decoding with open types enabled therefore interprets each identified value with its own type for every registered identifier.',
  ['inputs', 'configurations'], 'every registry, every identifier key (registered or not), every module contributing entries',
  'Tests exercise the few identifiers present in sample data and often supply maps of their own; a missing, misassigned or extra entry for another identifier goes unnoticed.',
  ['pyasn1_modules/'],
  [('registry dictionaries and their updates', 'e.g. pyasn1_modules/rfc5280.py certificateExtensionsMap, pyasn1_modules/rfc5652.py cmsAttributesMap, *.update(...) at the end of extension modules')],
  observe=['registry lookups', 'decoder output with decodeOpenTypes=True'])

p('C11', 'Open fields are governed by the specified identifier and a live registry',
  'Every open (identifier-governed) field of every published type is governed by the specified sibling component, which exists in that type and holds the identifier, and is resolved through the specified shared public registry itself rather than a snapshot. Hence an entry added to the registry at any later time, by a module or by the user, takes effect for every such field, and an unregistered identifier leaves the field as undecoded bytes.',
  ['inputs', 'histories'], 'every open field of every type, every later registration',
  'Tests check a few open fields with entries registered at import; later registration, wrong governors and detached registries for the other fields are not covered.',
  ['pyasn1_modules/'],
  [('OpenType(governor, registry) declarations', 'e.g. pyasn1_modules/rfc5280.py AlgorithmIdentifier, Extension, AttributeTypeAndValue; pyasn1_modules/rfc5652.py Attribute, ContentInfo')],
  observe=['decoder output with decodeOpenTypes=True after registering an entry'])

p('C12', 'Importing modules in any order gives the same result and only adds',
  'Whichever modules are imported, in whatever order, each registry ends up with the union of the entries contributed by the modules imported, the meaning of an entry does not depend on the order, and no import removes or replaces an entry with one of different meaning. Importing a module changes nothing else in modules already loaded: their types, constants and entries keep their values.',
  ['histories', 'configurations'], 'every set of modules and every import order, and every prior content of the registries',
  'The suite runs in one process in one file order; it never observes another order or subset.',
  ['pyasn1_modules/'],
  [('registry updates at module level', 'module bodies of about 60 extension modules')],
  [('shared registries', 'module-level dictionaries owned by rfc5280, rfc5652, rfc2459 and others', 'e.g. pyasn1_modules/rfc5652.py:cmsAttributesMap')],
  ['registry contents and decoding after different import sequences'])

p('C13', 'Dump tools process every block and count them exactly',
  'For every input, each command-line dump tool decodes each PEM block (or the whole Base64 input) in order with the type that belongs to its marker, ignores bytes trailing the encoded object where it reads PEM blocks, prints each decoded object once, verifies that re-encoding reproduces the input bytes and fails otherwise, and, where it reports a count, reports exactly the number of objects printed. It stops at the end of the blocks and never skips or repeats one.',
  ['inputs'], 'every standard input: any number and mixture of blocks, with or without trailing bytes',
  'The tools have no tests at all; they are only byte-compiled.',
  ['tools/x509dump.py', 'tools/x509dump-rfc5280.py', 'tools/crldump.py', 'tools/pkcs1dump.py', 'tools/pkcs8dump.py', 'tools/pkcs10dump.py', 'tools/pkcs7dump.py', 'tools/cmpdump.py', 'tools/crmfdump.py', 'tools/ocspreqdump.py', 'tools/ocsprspdump.py', 'tools/cmcdump.py'],
  [('read-decode-print-verify-count loop', 'module body of each tool')],
  observe=['standard output and exit status of the tool'])

p('C14', 'Client tools build the specified request and report the response faithfully',
  'For every issuer and user certificate, the OCSP client builds a version 1 request with a single entry that identifies the user certificate by SHA-1 of the issuer\'s encoded name, SHA-1 of the issuer\'s public key bits (without tag, length or unused-bit count) and the user\'s serial number, and refuses when the user\'s issuer is not the issuer\'s subject. It reports the produced-at time, certificate identifier, status and this-update time of the first single response of a successful basic response, and refuses any other response. The SNMP client sends a version 1 GET for exactly the given identifier under the given community.',
  ['inputs'], 'every pair of certificates, every response, every community and identifier',
  'The client tools have no tests; they need a network peer and are only byte-compiled.',
  ['tools/ocspclient.py', 'tools/snmpget.py'],
  [('mkOcspRequest, parseOcspResponse', 'tools/ocspclient.py'), ('message construction', 'tools/snmpget.py')],
  observe=['bytes sent to the peer', 'standard output'])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x, sort_keys=False) + '\n' for x in P))
for x in P:
    assert len(x['title']) <= 80, x['title']
