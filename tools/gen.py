#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, so that the two stay in step."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe,
                  technique=technique, note=note, claimed=claimed, reason=reason))


I = 'inputs'
H = 'histories'
S = 'schedules'

p('P01', 'Value equality is by content, an equivalence, and agrees with hash codes',
  'Two values are equal exactly when they have the same kind and the same content, no matter how they were constructed, whether they are frozen, and in '
  'which order map entries were added; the relation is reflexive, symmetric and transitive. Equal values always have equal hash codes, also while a '
  'mutable value is changed. A value equals the native Go value that it was created from.',
  [I, H], 'all pairs and triples of values built from nil, booleans, integers, floats, strings, binaries, times, regexps, sensitives, arrays and maps, and all ways to build them',
  'unit tests compare a few dozen hand-picked pairs; the equivalence laws and the hash contract quantify over all pairs and all construction routes',
  ['internal/compare.go', 'internal/array.go', 'internal/map.go', 'internal/string.go', 'internal/integer.go', 'internal/float.go', 'internal/time.go', 'internal/binary.go'],
  [('deep equality with recursion guard', 'internal/compare.go equals, sliceEquals'), ('map equality by lookup', 'internal/map.go mapEqual'), ('hash codes', 'HashCode/deepHashCode of every value')],
  technique='generated pairs, near-pairs and triples against a reference equality on plain Go models; hash contract; construction-route metamorphism')

p('P02', 'Type equality is an equivalence, agrees with hash codes and with membership',
  'Equality of types is reflexive, symmetric and transitive, and equal types have equal hash codes. Two types that are built the same way are equal, also when the operands of a '
  'combination are given in another order. Equal types accept exactly the same values and are assignable to each other.',
  [I], 'all pairs and triples of generated types, all values',
  'tests compare a handful of types of each kind with a few others; the laws range over all nested combinations',
  ['internal/ternary.go', 'internal/exact.go', 'internal/compare.go', 'internal/mapstruct.go', 'internal/array.go', 'internal/map.go', 'internal/function.go', 'internal/meta.go', 'internal/not.go'],
  [('type equality', 'Equals/deepEqual of every type'), ('order-independent operand comparison', 'internal/ternary.go sameValues')],
  technique='generated type pairs and triples; rebuilt and permuted copies; hash and membership agreement')

p('P03', 'A map is an insertion-ordered dictionary',
  'Under any sequence of operations a map behaves as an insertion-ordered dictionary keyed by value equality: lookups, sizes, iteration, key and value snapshots, predicates, and the results of '
  'derived maps (merge, with, without, copy, map) agree with a reference model. Replacing the value of a key keeps its position, and re-adding a removed key appends it. Lookup distinguishes a missing key from a key that is associated with nil.',
  [H], 'all histories of operations over maps with keys of every kind, including colliding hashes and growing tables',
  'the tests run short fixed scripts on maps with few keys; table growth, collisions and interleavings of removal and insertion quantify over histories',
  ['internal/map.go', 'dgo/map.go'], [('hash table with ordered links', 'internal/map.go Put, Remove, resize'), ('derived maps', 'internal/map.go Merge, With, Without, Copy, Map')],
  state=[('table, first, last, len', 'buckets and insertion order of the map', 'internal/map.go hashMap')],
  technique='stateful model-based generation against an ordered association list')

p('P04', 'An array is a list',
  'Under any sequence of operations an array behaves as a list: element access, insertion, removal, search, slicing, folding, filtering, mapping, flattening, uniqueness, containment and conversion to '
  'a map agree with a reference model. Set operations (contains-all, same-values) compare by value and respect multiplicity. Illegal positions are rejected and leave the array unchanged.',
  [H], 'all histories of operations over arrays with elements of every kind',
  'the tests exercise each operation on one or two literal arrays',
  ['internal/array.go', 'dgo/array.go'], [('array operations', 'internal/array.go')],
  technique='stateful model-based generation against plain Go slices')

p('P05', 'A frozen value never changes',
  'Once an array, map, binary or other freezable value is frozen, no sequence of operations on it, on anything reachable from it, on values derived from it, or on the data it was created from changes what it contains. '
  'Mutating operations on a frozen value panic and have no effect. Freezing and frozen copies are recursive: everything reachable is frozen.',
  [H], 'all operation histories on frozen values, their parts, derivatives and sources',
  'tests check that individual mutators panic; they do not check that no combination of derived values shares state with a frozen one',
  ['internal/array.go', 'internal/map.go', 'internal/binary.go', 'internal/struct.go', 'internal/sensitive.go'],
  [('frozen flag checks', 'Freeze/Frozen/FrozenCopy and the frozen checks of each mutator'), ('copying of unfrozen elements', 'internal/array.go frozenCopy')],
  technique='stateful generation: snapshot of frozen values re-verified after every attempted mutation of everything reachable or derived')

p('P06', 'Copies and derived collections are independent of their source',
  'A copy of a collection has the same content as its source, and a change made to either one afterwards is never visible in the other: copies requested frozen or thawed are independent at every depth. '
  'Collections returned by non-mutating operations that are documented to return a new or copied collection can be changed without the receiver or an earlier result being affected, and vice versa.',
  [H], 'all histories of copying, deriving and mutating',
  'tests mutate one copy at one level in one order',
  ['internal/array.go', 'internal/map.go', 'internal/binary.go', 'internal/struct.go'], [('copying', 'Copy, FrozenCopy, ThawedCopy'), ('derived collections', 'With, WithAll, WithValues, Slice, Select, Reject, Map, Merge, Without')],
  technique='stateful generation over a pool of related collections, each paired with an independent model')

p('P07', 'Comparison is a consistent total order and sorting sorts',
  'Comparison of values of the same kind is antisymmetric, transitive, and returns zero exactly for equal values; nil sorts before everything else, and an integer compares with a float by its float value. '
  'Values without an order relative to each other are reported as not comparable in both directions. Sorting an array of comparable values returns an ordered permutation of its elements and leaves the array as it was.',
  [I], 'all pairs and triples of comparable values; all arrays of comparable values',
  'tests compare a few literals; antisymmetry and transitivity range over triples',
  ['internal/array.go', 'internal/compare.go', 'internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/boolean.go', 'internal/binary.go'], [('comparison', 'CompareTo, deepCompare'), ('sort', 'internal/array.go Sort')],
  technique='generated pairs and triples against a reference order; order laws; sortedness and permutation of results')

p('P08', 'Instance checks implement the documented meaning of every type',
  'A value is an instance of a type exactly when the documented meaning of that type says so: ranges with inclusive or exclusive end, sizes, patterns, case-insensitive and exact values, arrays, tuples, maps, maps with named entries, '
  'sensitives, and the combinations all-of, any-of, one-of and not, nested to any depth. The result is the same for a scalar value and for the native Go value it represents, and for all ways of constructing the type or the value.',
  [I], 'all (type, value) pairs', 'tests sample a few values per type, mostly without nesting',
  ['internal/ternary.go', 'internal/not.go', 'internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/binary.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/sensitive.go', 'internal/exact.go'],
  [('instance checks', 'Instance/DeepInstance of every type'), ('type construction', 'tf package')],
  technique='generated (type, member / near-member / other value) pairs against a reference interpretation of types')

p('P09', 'Assignability is sound for instances, reflexive, and covers narrowing',
  'If a type is assignable from another type, every instance of the other type is an instance of it. Every type is assignable from itself and from the exact type of each of its instances, and only from the exact types of its instances. '
  'A type is assignable from every type that documented narrowing makes more restrictive: tighter ranges and sizes, narrower element, key, value and entry types, and alternatives that are each accepted.',
  [I], 'all pairs of types and all values', 'tests check selected pairs; soundness quantifies over all instances of all types',
  ['internal/ternary.go', 'internal/not.go', 'internal/type.go', 'internal/compare.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/string.go', 'internal/integer.go', 'internal/float.go'],
  [('assignability', 'Assignable/DeepAssignable/AssignableTo of every type')],
  technique='generated type pairs with members of the source type as witnesses; generated narrowings as positive cases')

p('P10', 'The type of a value accepts exactly that value; generic types widen',
  'Every value is an instance of its own type, that type accepts a value exactly when it equals the value, and asking a type for its exact value returns the value. For collections the type reflects the current content, also after changes. '
  'The generic form of any type is assignable from the type, accepts its instances, and is its own generic form.',
  [I, H], 'all values, and all types', 'tests use a few literals per kind',
  ['internal/exact.go', 'internal/array.go', 'internal/map.go', 'internal/type.go', 'internal/sensitive.go', 'internal/named.go', 'typ/utils.go'], [('exact types', 'internal/exact.go'), ('generic', 'Generic methods')],
  technique='generated values, near values and mutations; generic-form laws on generated types')

p('P11', 'The text of a type parses back to the same type',
  'The textual form of any type that the type language can express is accepted by the parser and yields a type equal to the original that accepts the same values. Printing the parsed type gives the same text again.',
  [I], 'all types the language can express', 'tests round-trip a list of literals; quoting, precedence and nesting interact',
  ['stringer/typestring.go', 'parser/parser.go', 'parser/lexer.go'], [('printing with priorities', 'stringer/typestring.go'), ('parsing', 'parser/parser.go')],
  technique='round trip of generated types, with membership comparison')

p('P12', 'The type language means what it says',
  'Any text in the documented type syntax, with arbitrary legal whitespace, parentheses, trailing commas and quoting, parses to the type or value it describes: a type equal to the one built through the type factory, or the literal value. '
  'Operator precedence is not, and, one-of, or from tightest to loosest. Alias declarations bind their name to the type, also when the type refers to itself.',
  [I], 'all sentences of the grammar', 'tests parse fixed sentences',
  ['parser/parser.go', 'parser/lexer.go', 'tf/type.go'], [('recursive descent parser', 'parser/parser.go'), ('lexer', 'parser/lexer.go')],
  technique='grammar-based generation of sentences together with the expected type, differential against the type factory')

p('P13', 'Parsers accept or cleanly reject any input',
  'For any input text the dgo and pcore type parsers terminate and either return a value or report an error that describes the problem; they never fail with an internal runtime fault. '
  'The outcome depends only on the text and the known aliases, the reported position lies within the text, and a rejected text leaves the known aliases unchanged.',
  [I], 'all texts, valid, mutated and arbitrary', 'tests contain a few dozen malformed inputs',
  ['parser/parser.go', 'parser/lexer.go', 'streamer/pcore/parser.go', 'streamer/pcore/lexer.go', 'util/reader.go'], [('error reporting', 'parser/parser.go DoParse'), ('alias collection', 'internal/alias.go')],
  technique='grammar-based, token-level and byte-level fuzzing with an outcome oracle')

p('P14', 'JSON encoding is valid JSON and decodes to the same data',
  'Data values (nil, booleans, integers, floats, strings, arrays, and maps with string keys that the dialect does not reserve) encode to valid JSON that a standard JSON decoder reads as the same data in the same order, and decode back to an equal value with map order retained. '
  'Any valid JSON document without reserved keys decodes to the data it denotes, and malformed JSON is rejected with an error.',
  [I], 'all data values and all JSON documents', 'tests encode a few fixed values',
  ['streamer/json.go', 'streamer/streamer.go', 'streamer/decoder.go', 'streamer/basiccollector.go'], [('JSON consumer', 'streamer/json.go'), ('JSON decoder', 'streamer/json.go UnmarshalJSON')],
  technique='round trip and differential against encoding/json on generated data and documents')

p('P15', 'Rich values survive streaming, with or without deduplication',
  'A value that contains binaries, times, sensitives, types (in the dgo dialect, with or without an alias map) and maps with arbitrary keys, but no map that uses the dialect\'s reserved keys, can be streamed at every deduplication level, in every dialect, directly or as JSON, and is collected or decoded to an equal value. '
  'Values that are shared in the source, or contain themselves, are streamed once and referenced after that when deduplication is on, and every reference resolves to the value it replaced. With rich data turned off, rich values are rejected and plain data passes, and a malformed rich data document is rejected with an error that explains it.',
  [I], 'all rich values with shared parts, all option combinations', 'tests stream a few fixed structures',
  ['streamer/streamer.go', 'streamer/decoder.go', 'streamer/basiccollector.go', 'streamer/datacollector.go', 'streamer/json.go', 'streamer/dialect.go', 'streamer/pcore/pcoredialect.go'], [('dedup and reference accounting', 'streamer/streamer.go'), ('decoding of type and value keys', 'streamer/decoder.go')],
  technique='round trips over generated values with sharing across all options; consumer-call monitor for references')

p('P16', 'Conversion between Go values and dgo values loses nothing',
  'Any supported Go value (integers of every width, floats, strings, booleans, byte slices, times, regexps, errors, slices, maps, and nested or pointer forms) converts to a dgo value with the same content, and converting that back into a Go variable of the original type restores it. '
  'Numbers that cannot be represented are rejected, in both directions, instead of being altered silently. A frozen dgo value never shares mutable state with the Go value it was created from or converted to.',
  [I], 'all Go values of supported types', 'tests convert a few literals per type',
  ['internal/value.go', 'internal/integer.go', 'internal/float.go', 'internal/array.go', 'internal/map.go', 'internal/binary.go', 'internal/native.go', 'vf/value.go'], [('value conversion', 'internal/value.go'), ('reflection back', 'ReflectTo of every value')],
  technique='round trip of Go values generated from random reflect types; aliasing probe by mutating the source')

p('P17', 'A struct-backed map behaves like a map over the fields of the struct',
  'A map that wraps a Go struct exposes exactly the exported fields as entries; reads, writes, iteration, copies, merges and equality behave as for any other map with those entries. '
  'Writes go through to the struct, writes of unknown keys or removals are rejected, and copies and frozen copies do not share state with the struct.',
  [H], 'all histories of operations on struct-backed maps', 'tests exercise single operations on one struct',
  ['internal/struct.go', 'vf/map.go'], [('struct as map', 'internal/struct.go')],
  technique='stateful model-based generation with an ordinary map and the Go struct as the models')

p('P18', 'Validation of maps with named entries agrees with the instance check',
  'For a map type with named entries, validating a value reports no problem exactly when the value is an instance of the type, and reports each missing required key, each unrecognized key and each value of the wrong type. '
  'Verbose validation gives the same verdict. Types created from a descriptive map, from entries and from text are the same type.',
  [I], 'all types with named entries and all values', 'tests validate a few parameter maps',
  ['internal/mapstruct.go', 'internal/map.go'], [('validation', 'internal/mapstruct.go Validate, ValidateVerbose, validate'), ('construction from a map', 'internal/mapstruct.go StructMapTypeFromMap')],
  technique='generated types and near-member maps; verdict and error-count oracle')

p('P19', 'A loader finds each name once, consistently, also concurrently',
  'A loader returns for every name what its finder, entries, namespaces and parents define, with names resolved through nested namespaces and absolute names; once a name has been resolved every later lookup returns the same value. '
  'Concurrent lookups of the same or different names all observe the same result as a sequential lookup, without data races.',
  [H, S], 'all sequences and interleavings of lookups over loader trees', 'tests load a few names sequentially',
  ['loader/loader.go'], [('cached entries under a lock', 'loader/loader.go')],
  technique='model-based generation of loader trees and lookup histories; concurrent histories under the race detector compared with the sequential result')

p('P20', 'Aliases and named types are registered atomically and resolve consistently',
  'Names added to an alias map or to the default aliases resolve to the type they were declared with, in both directions; a failed or abandoned addition leaves the map as it was, and existing maps never change when new ones are derived from them. '
  'Concurrent parsing and registration lose no registrations and race on nothing. A type that is printed inside the scope of an alias resolves to the same type again.',
  [H, S], 'all histories and interleavings of alias registrations, lookups and parses', 'tests register a few aliases sequentially',
  ['internal/alias.go', 'internal/named.go', 'tf/type.go', 'tf/named.go', 'parser/parser.go'], [('copy-on-write alias map', 'internal/alias.go'), ('named type registry', 'internal/named.go')],
  technique='model-based histories; concurrent histories under the race detector')

p('P21', 'Frozen values and types can be shared between goroutines',
  'Concurrent use of the non-mutating operations of frozen values and of types, such as lookup, iteration, equality, hashing, comparison, printing, copying, instance and assignability checks, is free of data races and gives every goroutine the result that sequential use gives.',
  [S, I], 'all frozen values, types and concurrent sets of read-only operations', 'no existing test runs operations concurrently',
  ['internal/string.go', 'internal/map.go', 'internal/array.go', 'internal/mapstruct.go', 'internal/named.go'], [('immutability', 'frozen flags'), ('cached hash of strings', 'internal/string.go HashCode')],
  technique='generated values and operation sets executed concurrently under the race detector, differential against sequential results')

p('P22', 'Self-referencing values and types are handled without running away',
  'Equality, hashing, printing, freezing, comparison, instance and assignability checks terminate on arrays, maps and types that contain themselves at any depth. A self-referencing value equals itself and a value of the same shape built separately, with the same hash; '
  'a self-referencing type accepts exactly the finite values its unrolled definition accepts.',
  [I], 'all shapes of self-reference', 'tests use a handful of directly recursive values and types',
  ['internal/compare.go', 'internal/array.go', 'internal/map.go', 'internal/alias.go', 'util/erpindenter.go', 'util/slice.go', 'stringer/typestring.go'], [('recursion guards', 'internal/compare.go'), ('printing guard', 'stringer and util ERP indenter')],
  technique='generated graphs with back edges; unrolled reference for membership; stack overflow is a violation')

p('P23', 'Creating a value of a type yields an instance or an error',
  'Creating a new value from a type and arguments either returns an instance of that type or reports an error, for every type and every argument. Text and number conversions give the value the text or number denotes, in the requested radix or encoding, or are rejected when there is no such value. '
  'Passing a value that already is an instance of a plain type gives back an equal value.',
  [I], 'all types and arguments', 'tests convert a few literals',
  ['internal/value.go', 'internal/integer.go', 'internal/float.go', 'internal/boolean.go', 'internal/string.go', 'internal/binary.go', 'internal/time.go', 'internal/regexp.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/sensitive.go', 'internal/named.go'],
  [('constructors', 'New methods and new* functions')],
  technique='generated (type, argument) pairs; instance-or-error oracle; reference conversions from the Go standard library')

p('P24', 'Functions are described and called faithfully',
  'A Go function wrapped as a value reports parameter and return types that accept exactly what the Go function accepts, and calling it passes the arguments unchanged, also variadic ones, and returns the results of the Go function. '
  'Arguments of the wrong number or type are rejected, except that nil gives the zero value and a list of bytes the bytes. Function types accept exactly the functions with as many parameters and results of types assignable position by position.',
  [I], 'all signatures from a family of Go functions and all argument lists', 'tests call a few functions',
  ['internal/function.go', 'internal/arguments.go', 'internal/array.go'], [('call', 'internal/function.go Call'), ('type', 'internal/function.go exactFunctionType')],
  technique='functions of generated signatures (reflect.MakeFunc) called with generated arguments; echo oracle')

p('P25', 'Sensitive content never appears in text',
  'No textual rendering of a sensitive value, of its type, of a collection or struct that contains it, or of an error about it reveals the wrapped content. Equality, hashing, copying and freezing of a sensitive value follow the wrapped value.',
  [I], 'all values with sensitive parts, all renderings', 'tests print one sensitive string',
  ['internal/sensitive.go', 'stringer/typestring.go', 'internal/typeerror.go', 'util/indenter.go'], [('redaction', 'internal/sensitive.go String')],
  technique='canary search in all renderings of generated values that hold marked secrets')

p('P26', 'Pcore type notation denotes the corresponding type',
  'Any type expression in the supported pcore notation parses to the type that the corresponding dgo type denotes, accepting the same values, and pcore data literals parse to the values they denote, with arbitrary legal whitespace and comments.',
  [I], 'all sentences of the supported pcore grammar', 'tests parse a list of sentences',
  ['streamer/pcore/parser.go', 'streamer/pcore/lexer.go'], [('pcore parser', 'streamer/pcore/parser.go')],
  technique='grammar-based generation of pcore text together with the expected type; membership comparison')

p('P27', 'Number text and indented text keep their content',
  'The text of a number reads back as the same number and the text of a finite float is always recognizable as a float. Text appended through an indenter comes out unchanged apart from indentation and trailing whitespace, at every nesting level, and rendering of collections does not disturb or lose content. '
  'Reading text rune by rune delivers every rune once with correct line and column.',
  [I], 'all numbers and all texts', 'tests check a few literals',
  ['util/string.go', 'util/indenter.go', 'util/reader.go', 'internal/float.go'], [('float formatting', 'util Ftoa'), ('indenter', 'util/indenter.go'), ('string reader', 'util/reader.go')],
  technique='round trips and reference implementations on generated numbers and append sequences')

p('P28', 'Binary values round-trip through every supported encoding',
  'A binary value holds exactly the bytes it was created from; its text is standard base64 and decodes to the same bytes, in the strict, URL-safe, UTF-8 and raw encodings as documented, and malformed input is rejected. '
  'Frozen binaries do not share memory with their source, and size-constrained binary types accept exactly the sizes in range.',
  [I], 'all byte sequences and encodings', 'tests encode one literal',
  ['internal/binary.go', 'vf/binary.go'], [('binary', 'internal/binary.go')],
  technique='round trip and differential against encoding/base64 on generated bytes and texts')

p('P29', 'Named types behave as nominal types',
  'A registered named type is found by its name until removed, accepts exactly the values of its implementation type, creates values through its constructor, and extracts a constructor argument that recreates an equal value. '
  'A named type is assignable from itself and from named types whose implementation is compatible, parameterized forms with equal parameters are the same type, and registering a different type under the same name is rejected.',
  [H], 'all histories of registration, parameterization, construction and lookup', 'tests register a few types',
  ['internal/named.go', 'tf/named.go'], [('named types', 'internal/named.go')],
  technique='model-based histories of registrations and lookups over generated named types')

p('P30', 'Go values without a counterpart are wrapped unchanged',
  'A Go value of a type that has no dgo counterpart (structs and pointers to them, channels, complex numbers, arrays, named scalar types) is wrapped as a native value that gives back the same Go value, and that equals exactly the native values of the same Go type with deeply equal content, with equal hash codes, also when the Go value refers to itself. '
  'Its type accepts, equals and is assignable from others exactly as the Go type is. Native values are found in collections by content and are written back to Go variables and passed to Go functions unchanged.',
  [I], 'all values of a family of Go types', 'tests wrap a channel and two structs',
  ['internal/native.go', 'internal/value.go', 'internal/type.go'], [('native values', 'internal/native.go'), ('types of Go types', 'internal/type.go TypeFromReflected')],
  technique='differential against reflect.DeepEqual and reflect assignability on generated graphs of Go values')

p('P31', 'A type describes itself',
  'The accessors of a type report what the type was created from: limits and whether they are inclusive, sizes, element, key, value and entry types, requiredness, additional entries, operator and operands, '
  'the described type, parameter and result types, the exact value, and the kind of type. A type created again from what it reports is equal to it, with the same text, and accepts the same values. '
  'Every instance that consists of data can be stored in a variable of the Go type that its type reports, and is read back as an equal value.',
  [I], 'all generated types and their instances', 'tests read the accessors of a few types each',
  ['internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/exact.go', 'internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/ternary.go', 'internal/function.go', 'internal/meta.go'],
  [('accessors of types', 'Min, Max, Inclusive, ElementType, KeyType, Operands, In, Out and others'), ('Go types of types', 'ReflectType of every type')],
  technique='generated types compared with the model they were built from, rebuilt from their accessors; reflection round trips of their members')

p('P32', 'Assertions and panic capture are exact',
  'Each assertion helper of dgo_test fails the test exactly when what it asserts does not hold: equality, identity, nil, truth, instance, assignability, pattern match, success, error and panic checks. '
  'util.Catch returns exactly the error that the function panicked with, an error with the same text for a string, nil for a function that returns, and lets every other panic through unchanged.',
  [I], 'all values, types, texts, errors and panics', 'the tests use the helpers but do not check them',
  ['dgo_test/require.go', 'util/catch.go'], [('assertions', 'dgo_test/require.go'), ('panic capture', 'util/catch.go')],
  technique='assertions on generated related values, types, texts and panics, compared with the model')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in P:
            a = {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']]}
            if q['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in q['state']]
            a['observe_at'] = q['observe'] or ['public API of packages vf, tf, typ, dgo' if q['id'] not in ('P14', 'P15') else 'public API of package streamer']
            a['hook_needed'] = None
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']},
                                'why_tests_cant': q['why'], 'anchors': a}, ensure_ascii=False) + '\n')
    done = set(open(os.path.join(HERE, 'tools', 'claimed.txt')).read().split())
    checks, na = [], []
    for q in P:
        if q['id'] in done:
            checks.append({'property': q['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % q['id'],
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % q['id'],
                           'technique': 'property-based testing (rapid): ' + q['technique'], 'level': 'exploration',
                           'level_note': q['note'] or 'Seeded random search with shrinking; every case is decided by an explicit oracle. Silence covers the explored cases only. Trusts rapid, the Go toolchain and the reference model in the harness.'})
        else:
            na.append({'property': q['id'], 'reason': q['reason'] or 'no check yet'})
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'check.py builds harness/props against /repo\'s working tree (module replace) on every run. KNOWN_FINDINGS.txt lists recorded defects.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
