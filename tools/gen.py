"""Writes properties.jsonl and MANIFEST.json from the one table below (so the two never disagree).  Run: python3 tools/gen.py"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENC, DEC = 'asn1PERser/codec/per/encoder.py', 'asn1PERser/codec/per/decoder.py'
BI = 'asn1PERser/classes/data/builtin/'
PARSE = ['asn1PERser/asn_definitions/module_def.py', 'asn1PERser/classes/parse_actions.py', 'asn1PERser/classes/module.py', 'asn1PERser/classes/templates/']
REPLAY = 'every model trace is replayed on the real encode()/decode() of /repo and compared'


def m(*pairs):
    return [{'name': n, 'where': w} for n, w in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, observe_at=observe or ['encode()', 'decode()'], hook_needed=None),
                  technique=technique, note=note))


prop('C01', 'Simple types are encoded exactly as aligned PER prescribes',
     'For every BOOLEAN, INTEGER, ENUMERATED, BIT STRING and OCTET STRING type (any bounds or size constraint, with or without extension marker) and every value '
     'it admits, encoding gives exactly the bytes that X.691 aligned PER prescribes. This holds for the value alone and for the value placed after any number '
     'of preceding bits; lengths of 16384 and more (fragmentation) are outside.',
     ['inputs'], 'all types of the five simple kinds x all their values x every bit offset at which the value can start',
     'the tests check a few hundred (type, value) pairs; the encoding form changes at every range boundary (1, 2, 255, 256, 257, 64K, 64K+1), at every length boundary and bit offset, '
     'and a wrong boundary is invisible unless that exact range, value and alignment are combined',
     [ENC, BI], m(('encode_constrained_whole_number and the other number forms', ENC), ('length determinants', ENC), ('encode_bitstring / encode_octetstring / encode_enumerated', ENC)),
     'explicit-state model of X.691 aligned PER, enumerated exhaustively over a bounded space of types, values and bit offsets; ' + REPLAY,
     'all ranges 1..66000 at their edges, 1,990 unions and intersections of constraints, all integers of -70000..70000 unconstrained, 450+ bound pairs, all enumerations up to 261 items, all string sizes up to the bounds listed in the evidence, at 0..7 bits of offset')

prop('C02', 'Constructed types are encoded exactly as aligned PER prescribes',
     'For every type built from SEQUENCE, SEQUENCE OF and CHOICE (any nesting; OPTIONAL and DEFAULT components; extension markers, additions and addition groups; size constraints) and every value '
     'it admits, encoding gives exactly the bytes X.691 aligned PER prescribes: presence bits, extension bits, extension presence maps, open-type wrapping, alternative indices and component counts included. '
     'A DEFAULT component that holds its default value is encoded as absent.',
     ['inputs', 'programs'], 'all compositions of the constructed kinds up to the depth and width bounds x all presence subsets x all values of the components',
     'presence combinations, alternatives, extension subsets and alignment interact multiplicatively; the tests hold a few dozen schemas with one or two values each',
     [ENC, BI + 'SequenceType.py', BI + 'ChoiceType.py', BI + 'SequenceOfType.py'],
     m(('encode_sequence', ENC), ('encode_choice', ENC), ('encode_sequence_of', ENC), ('extension additions as open types', ENC)),
     'explicit-state model of X.691 aligned PER over all bounded compositions of types; ' + REPLAY,
     'all SEQUENCE shapes up to 4 root components and 3 extensions with every presence subset, all CHOICE sizes, all nestings of depth 2 (3 thorough)')

prop('C03', 'Decoding an encoded simple value gives that value back',
     'For every simple type and every value it admits, decoding the bytes that encoding produced yields an equal value, whatever precedes or follows it in the message, and encoding the decoded object again '
     'gives the same bytes. Nothing of the value is lost: leading zero bits and octets, empty strings, sign and size of numbers, and the names of enumeration items included.',
     ['inputs'], 'all simple types x all values x all bit offsets',
     'the decoder re-derives every field width and alignment on its own; a mismatch with the encoder shows only for particular ranges, lengths and offsets, and the tests decode fixed byte strings',
     [DEC, ENC, BI], m(('decode_integer / decode_enumerated / decode_bitstring / decode_octetstring', DEC), ('length determinants', DEC)),
     'exhaustive enumeration of the bounded (type, value, offset) space; encode, decode, compare, encode again on the real code; ' + REPLAY,
     'same space as C01')

prop('C04', 'Decoding an encoded constructed value gives that value back',
     'For every constructed type and every value it admits, decoding the bytes that encoding produced yields an equal value: the same components present, the same alternative chosen, the same elements in the same order, '
     'absent DEFAULT components filled with their default. Encoding the decoded object again gives the same bytes.',
     ['inputs', 'programs'], 'all compositions of types within the bounds x all values',
     'a decoder that loses its position after one kind of component only fails for schemas with another component behind it, for particular presence subsets',
     [DEC, ENC, BI + 'SequenceType.py', BI + 'ChoiceType.py', BI + 'SequenceOfType.py'], m(('decode_sequence', DEC), ('decode_choice', DEC), ('decode_sequence_of', DEC)),
     'exhaustive enumeration of bounded compositions of types and all their presence subsets; encode, decode, compare, encode again on the real code; ' + REPLAY,
     'same space as C02')

prop('C05', 'A truncated message is always refused',
     'Decoding any strict prefix of a valid message raises an error; it never returns a value. This includes prefixes that end on a field boundary, inside padding, inside a length, or right before an empty or optional part.',
     ['inputs', 'fault_sequences'], 'all valid messages within the bounds x every cut position',
     'a missing end-of-input test shows only when the cut falls into one particular field of one particular type',
     [DEC], m(('reading bits past the end', DEC), ('open types and length checks', DEC)),
     'exhaustive enumeration of cut points of every message of the bounded (type, value) space, decoded by the real code',
     'all cut positions for messages up to 48 bytes, every field boundary for longer ones')

prop('C06', 'Any byte string decodes to exactly its PER value, or is refused',
     'For every type and every byte string, decoding either raises an error or returns the value which aligned PER assigns to that byte string. In particular values outside a constraint (spare codes of a range, unknown alternative or '
     'enumeration indices, sizes out of bounds) are refused and never clamped, wrapped or mapped to another value.',
     ['inputs', 'fault_sequences'], 'all byte strings up to the length bound for each of the types',
     'tests decode only valid messages; hostile or corrupted input is an unbounded set',
     [DEC], m(('range checks of decoded numbers', DEC), ('indices of CHOICE and ENUMERATED', DEC), ('count checks', DEC)),
     'exhaustive enumeration of all byte strings of length 1 and 2 (length 3 over an alphabet) per type, decoded by an independent X.691 model and by the real code',
     'about a hundred types covering every kind of field; all 65792 strings of length 1-2 each; every one-bit and one-octet change of messages of the spaces of C01 and C02')

prop('C07', 'Peers with different schema versions understand each other',
     'When an extensible SEQUENCE, CHOICE or ENUMERATED is extended with further additions or addition groups, a message of either version decodes with the other version: every component both versions know has the value that was sent, and '
     'everything after the unknown additions is unaffected. A CHOICE alternative or an ENUMERATED item the receiver does not know is refused, never taken for another one.',
     ['inputs', 'configurations'], 'all extension lists within the bounds x all pairs of versions x all presence subsets',
     'needs pairs of schemas; the tests use the same schema on both sides',
     [DEC, ENC], m(('extension presence map, skipping unknown additions', DEC), ('extension presence map and open types', ENC)),
     'exhaustive enumeration of extension lists, version pairs and presence subsets; the real codec of each version is run against the other and compared with the model',
     'up to 3 additions and 2 groups (4 and 3 thorough), up to 64 additions for the presence map')

prop('C08', 'A value outside its type never becomes a message',
     'Building or encoding a value that its type does not admit raises an error: a number or size outside a constraint without extension marker, a missing mandatory component, a CHOICE without alternative, an unknown enumeration item, at any nesting depth. '
     'Every value that the type admits is accepted.',
     ['inputs'], 'all types within the bounds x every value next to their bounds, every subset of mandatory components',
     'off-by-one in a bound is visible only for the value right at that bound, for each kind of constraint separately',
     [ENC, 'asn1PERser/classes/types/constraint.py', BI], m(('constraint classes', 'asn1PERser/classes/types/constraint.py'), ('missing component checks', ENC)),
     'exhaustive enumeration of constraints, of the values around every bound and of all subsets of missing components on the real code against the model',
     'all bounds of the integer and string families, nested up to depth 2')

prop('C09', 'What a call returns does not depend on the calls before it',
     'Encoding, decoding and converting to a dictionary give the same result whatever was encoded, decoded, refused, read or modified before, with the same or other types, types of the same name included. '
     'No call changes its arguments (message object, byte string or specification object), and two decoded objects share no state.',
     ['histories'], 'all sequences of operations up to the depth bound over shared specification and message objects',
     'tests run every operation on fresh objects, once',
     [ENC, DEC, BI], m(('decoding works on a copy of the specification', DEC), ('reading components without instantiating them', BI + 'SequenceType.py')),
     'explicit-state exploration of all operation sequences up to the depth bound on the real code, every step compared with the history-free model',
     'depth 3 over about 14 operations per type, 25 types (depth 4 thorough)')

prop('C10', 'Concurrent calls give the results they give alone',
     'Encoding, decoding and dictionary conversion from several threads at once, also with a shared specification object or a shared message object, give the results the calls give alone, and leave the shared objects unchanged.',
     ['schedules'], 'all interleavings of two calls within the preemption bound',
     'needs a controlled scheduler; tests are single-threaded',
     [ENC, DEC, BI], m(('no module-level mutable state in the codec', ENC + ', ' + DEC)),
     'stateless exploration of all thread schedules within a preemption bound on the real code under a controlled scheduler (switch at every executed line; at every byte code in further pieces)',
     'two threads, preemption bound 1 (2 thorough): four types with every pair of calls, about 120 further types with four pairs of calls')

prop('C11', 'Logging set-up and form of the input never change a result',
     'With any logging handler and level installed, or none, and with the message given as bytes or bytearray, every encode and decode returns the same value or fails alike. '
     'The input buffer is left unmodified, every log record can be formatted, and the library prints nothing by itself: by default no record is visible, '
     'not even to an application that configured the root logger. After asn1perser_logging_setup(handler, level) the handler gets the records of that level (INFO unless given) and above, '
     'with its own formatter if it has one, and nobody else gets them.',
     ['configurations', 'inputs'], 'all logging configurations x all types and values within the bounds',
     'log arguments are evaluated only at the level that is enabled; a failing or consuming log statement is silent in the default configuration the tests use',
     [ENC, DEC, 'asn1PERser/logging_setup.py', 'asn1PERser/__init__.py'], m(('log statements of the codec', ENC + ', ' + DEC)),
     'exhaustive enumeration of configurations x bounded (type, value) space on the real code against the model',
     '6 logging configurations x 3 input forms x the constructed and primitive spaces, at most 6 values per type; 54 configurations in fresh interpreters over a fixed workload')

prop('C12', 'The dictionary view of a value is exactly that value',
     'Converting a value to a dictionary gives plain Python data with exactly the components the value has, in order, with their values (ENUMERATED by name, OCTET STRING as hexadecimal text, BIT STRING as number, absent DEFAULT components with their default), for a built and for a decoded value alike. '
     'The conversion changes neither the value nor what it encodes to, and its result is independent of the value.',
     ['inputs', 'histories'], 'all types and values within the bounds, before and after encoding',
     'the view walks every kind of component recursively; which of them are shown depends on presence, emptiness and defaults of each',
     [BI], m(('to_dict of every type', BI)),
     'exhaustive enumeration of the bounded (type, value) space, each compared with the model dictionary on the real code', 'spaces of C01 and C02; hand-built and generated classes')

prop('C13', 'The generated module declares exactly what the schema says',
     'For every schema of the supported notation the generated Python source loads, and its classes and constants are exactly the assignments of the schema: kinds, component names and order, OPTIONAL and DEFAULT with its value, extension markers, additions and groups, '
     'enumeration items and numbers, bounds and sizes (also through value references), and aliases. Types written in place are reachable as attributes of the type they are written in, hyphens become underscores. '
     'Outside: names that are Python keywords or names of the library (its classes, and attributes and methods of these).',
     ['programs', 'inputs'], 'all schemas of the bounded families, in every equivalent spelling',
     'fourteen schemas are compared as text; every combination of type, placement, constraint spelling and reference goes through different grammar rules, parse actions and template branches',
     PARSE, m(('grammar', 'asn1PERser/asn_definitions/'), ('parse actions', 'asn1PERser/classes/parse_actions.py'), ('templates', 'asn1PERser/classes/templates/')),
     'exhaustive enumeration of bounded schema families x spellings; each is parsed, loaded and read back from the real classes and compared with the model types',
     'about 16,600 schema texts', ['parse_asn1_schema()', 'the generated module'])

prop('C14', 'The order of assignments in a schema does not matter',
     'Whatever the textual order of the type and value assignments of a schema (before or after their use, at any distance, through aliases, components, extension additions, groups, alternatives, list elements, '
     'bounds, sizes and defaults), the generated Python module loads and declares the same types and values.',
     ['programs'], 'all acyclic reference graphs within the bounds x all permutations of their assignments',
     'a Python module needs every definition before its first use; which orders go wrong depends on the kinds of the definitions and on where the reference stands',
     PARSE, m(('sorting of assignments by dependency', 'asn1PERser/classes/module.py')),
     'exhaustive enumeration of reference graphs, reference positions and all permutations; each text is parsed and the loaded real classes compared with the model types',
     'all acyclic graphs over 4 definitions (5 thorough), every permutation, and references between types that share parts of their names: about 18,000 texts', ['parse_asn1_schema()', 'the generated module'])

prop('C15', 'Parsing a schema is independent of what was parsed before',
     'Parsing a schema gives the same generated text, the same file (with an output folder: <module name>.py with exactly the text that is otherwise returned) or the same kind of error, whatever schemas were parsed before in the process, '
     'successfully or not, with the same or other names. In particular a name that is undefined in a schema is never resolved by an earlier schema. Modules generated earlier keep working unchanged.',
     ['histories', 'fault_sequences'], 'all sequences of parse operations up to the depth bound over schemas that reuse the same names, lack definitions, or fail half-way',
     'the parser keeps definitions in module-level tables; the tests parse one schema per test and never an invalid one in between',
     ['asn1PERser/__init__.py'] + PARSE, m(('module-level tables of types and constants', 'asn1PERser/classes/module.py')),
     'explicit-state exploration of the tree of all operation sequences, forking the real process at every node; each result is compared with that of a fresh process',
     'all sequences of up to 3 (4 thorough) of 20 operations; all ordered pairs of the schemas of C13 families (one parse after the other); all sequences of two parses into one folder, by name, content and form of the path', ['parse_asn1_schema()', 'the generated module'])

prop('C16', 'White space, line breaks and comments never change the result',
     'Between any two lexical items of a schema, and before the first and after the last, any amount of white space (blank, tab, LF, CR, CRLF, VT, FF) and any line comment (from -- to the next -- or the end of the line, whatever its text) can be '
     'put, and white space can be left out wherever two items do not run together: the generated module is the same.',
     ['inputs'], 'all gaps of the schemas within the bounds x all separators, one at a time and all at once',
     'each grammar rule and literal decides by itself what it skips; the tests use one layout',
     ['asn1PERser/asn_definitions/', 'asn1PERser/classes/module.py'], m(('removal of comments', 'asn1PERser/classes/module.py'), ('literals of several words', 'asn1PERser/asn_definitions/')),
     'exhaustive enumeration of (schema, gap, separator), each parsed by the real parser and compared with the conventional layout',
     '8 schemas x 3 spellings x 29 separators in every gap (thorough: every pair of gaps)', ['parse_asn1_schema()'])

prop('C17', 'From schema text to bytes and back, everything agrees with the standard',
     'For every schema of the supported notation and every value of its types, the classes of the generated module encode the value, built component by component or filled in place with plain Python values, to exactly the bytes '
     'that aligned PER prescribes for the schema as written, and decode those bytes to that value.',
     ['programs', 'inputs'], 'all schemas of the bounded families x all values of the bounded value sets',
     'the generated classes are different from the hand-written ones the codec tests use; a schema with a shape of its own exercises a combination of template, class and codec no test has',
     PARSE + [ENC, DEC, BI], m(('templates', 'asn1PERser/classes/templates/'), ('encoder', ENC), ('decoder', DEC)),
     'explicit-state model of X.691 over bounded families of schemas; ' + 'every model trace is replayed on the classes that the real parser generates',
     'about 6,000 schemas, 80,000 (schema, type, value) triples', ['parse_asn1_schema()', 'encode()', 'decode()'])

prop('C18', 'A schema is read exactly as written, or it is refused',
     'A schema text that is not well-formed ASN.1 - an item missing, superfluous, repeated, in the wrong place, of the wrong kind, misspelt or run together with the next one, brackets that do not match, a type or value that nothing defines - is always refused: '
     'parse_asn1_schema(), or at the latest loading the generated module, raises an error. It never yields a module that loads. A text that is well-formed, in the supported notation, is accepted and declares exactly what it says. '
     'Outside: text behind the first END, comments, a number written right before or behind a word, white space and non-ASCII hyphens inside of items, reserved words as names, names of Python or of the library used as type names without a definition, duplicate names, and notation the README does not list (set operators, open endpoints, tags, named numbers, other types).',
     ['inputs', 'programs'], 'all strings of lexical items within the length bounds in every syntactic context, and all single edits of items and of characters of the base schemas',
     'the tests parse well-formed schemas only; a grammar that became too lax accepts a mistyped schema silently and the peers then disagree on the wire',
     PARSE, m(('grammar', 'asn1PERser/asn_definitions/'), ('constraints', 'asn1PERser/classes/parse_actions.py and asn1PERser/asn_definitions/constraint_def.py'), ('references', 'asn1PERser/classes/module.py')),
     'exhaustive enumeration of strings of lexical items up to a length per context and of all single edits; each is decided by an independent reader of X.680 (a second model, replayed against the printer) and by the real parser',
     'about 470,000 texts: 15 contexts, all strings up to 4-6 items; 11 base schemas x all single edits over 41 items; 14 texts x all single edits of a character', ['parse_asn1_schema()', 'the generated module'])

CHECKED = [p['id'] for p in P]
NA = []


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    man = dict(version=1, setup_cmd='bash setup.sh',
               checks=[dict(property=p['id'], quick_cmd='bash check.sh %s --tier quick' % p['id'], thorough_cmd='bash check.sh %s --tier thorough' % p['id'],
                            technique=p['technique'], level='model_checking', level_note=p['note']) for p in P],
               not_applicable=NA,
               notes='No hooks in /repo: everything is observed through the public API. Every check imports the working tree of /repo. Known findings: known_findings.json.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
