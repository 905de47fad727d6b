"""Source of properties.jsonl and MANIFEST.json:  python3 tools/properties.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

SC = 'flatland/schema/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         level_note=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe,
            'hook_needed': None},
    })


prop('C01', 'Flattening and restoring an element tree loses nothing',
     'Flattening an element tree yields exactly one key/value pair per '
     'flattenable element, keyed by the names and list indexes on its path '
     'joined with the separator, members of repeated keys in order. Feeding '
     'those pairs to a new element of the same schema with the same separator '
     'restores the same structure, texts and native values, except that a '
     'pruning List or Array drops members whose texts are all empty (List '
     'members are renumbered) and a List stops at its configured maximum. '
     'Values belonging to a compound string are carried only by the '
     'compound\'s own joined pair.',
     'inputs programs',
     'all schema trees (any nesting of scalars, List, Array, MultiValue, '
     'Dict, SparseDict, JoinedString, compound dates; any names not '
     'containing the separator), all values, all separators',
     'The tests round-trip a handful of hand-written schemas with the default '
     'separator and tame names; losses depend on the combination of nesting, '
     'naming, anonymity, pruning and separator.',
     [SC + 'base.py', SC + 'containers.py', SC + 'compound.py'],
     [('Element.flatten / flattened_name', SC + 'base.py'),
      ('_set_flat of each container', SC + 'containers.py')],
     ['Element.flatten', 'Element.set_flat', 'Element.from_flat'])

prop('C02', 'set_flat delivers each pair to exactly the element its key names',
     'Given pairs in any order and any pairs form (list, tuple, dict), '
     'set_flat sets a scalar to the first value keyed by its full flattened '
     'name, collects every value keyed by an Array\'s name in order, and '
     'builds Lists from the numeric indexes found (in numeric order, '
     'renumbered and without empty values when pruning; padded with blank '
     'members up to the highest index otherwise; never past the configured '
     'maximum). Elements no pair addresses keep their state, a SparseDict '
     'gains only fields that a pair addresses or lies beneath, and a Dict '
     'always has exactly its fields.',
     'inputs programs',
     'all schema trees and all sequences of key/value pairs, including '
     'near-miss names, gaps, duplicates, zero-padded and out-of-range '
     'indexes, and repeated set_flat calls on the same element',
     'Each test fixes one schema and one pair list; misrouting needs '
     'names that are prefixes of each other, nested anonymity, interleaved '
     'indexes or a particular pair order.',
     [SC + 'containers.py', SC + 'scalars.py', SC + 'base.py'],
     [('regex matching of indexes and names', SC + 'containers.py'),
      ('Mapping._set_flat field filtering', SC + 'containers.py')],
     ['Element.set_flat', 'Element.from_flat'])

prop('C03', 'Hostile flat input never raises, leaks into the tree or explodes',
     'set_flat accepts any sequence of unicode key/value pairs without '
     'raising, whatever the keys and values contain. Pairs whose key does '
     'not start with the name of a named root have no effect at all, alone '
     'or mixed among valid pairs. No List grows past its maximum, and '
     'pruning Lists and Arrays never hold more members than pairs given.',
     'inputs fault_sequences',
     'all sequences of unicode pairs, including malformed, enormous or '
     'non-ASCII indexes, truncated keys, regular-expression metacharacters '
     'and values of any content, against all schema trees',
     'This is a claim about everything an HTTP client may send; tests '
     'include two or three bogus keys.',
     [SC + 'containers.py', SC + 'scalars.py'],
     [('maximum_set_flat_members', SC + 'containers.py'),
      ('key filtering in _set_flat', SC + 'containers.py')],
     ['Element.set_flat', 'len() of sequences'])

prop('C04', 'set() on a scalar keeps value, text, raw and result in tandem',
     'For any input, set() on a String, number, Boolean, date/time or '
     'Enum never raises and returns True exactly when the input adapts to '
     'the type (surrounding whitespace ignored for numbers and, when strip '
     'is on, strings and temporals; unsigned numbers reject negatives). On '
     'success the native value is of the element\'s type (or None) and the '
     'text is its serialization in the element\'s format (empty for None); '
     'on failure the value is None and the text is the input as unicode. The '
     'raw input is always retained, and the outcome never depends on what '
     'was set before.',
     'inputs histories',
     'all scalar types and option settings, all Python inputs with a unicode '
     'form, all sequences of set() calls on one element',
     'Tests list sample values per type on fresh elements; the contract '
     'covers the whole input space and re-use.',
     [SC + 'scalars.py', SC + 'base.py'],
     [('Scalar.set / adapt / serialize', SC + 'scalars.py')],
     ['set() result', 'value', 'u', 'raw'])

prop('C05', 'A scalar\'s text is a fixed point and carries its value',
     'Setting a scalar to its own text, after any successful set, succeeds '
     'and changes neither the text nor, beyond precision the format drops, '
     'the value. Native strings (stripped if so configured), integers, '
     'booleans, dates, times, datetimes to the second and enum members '
     'survive native-to-text-to-native unchanged, and equal texts set on two '
     'elements of one type make them equal.',
     'inputs',
     'all native values of each scalar type and all texts, all option '
     'settings',
     'Round trips are only tested on examples; boundary years, signs, '
     'padding, custom formats and custom booleans interact.',
     [SC + 'scalars.py'],
     [('adapt/serialize pairs', SC + 'scalars.py')],
     ['set()', 'u', 'value'])

prop('C06', 'Constrained scalars hold only permitted values',
     'An Enum or Constrained element only ever holds, after set, set_flat or '
     'construction, a value its child type adapts and its constraint permits; '
     'anything else makes set() return False and leaves value None with the '
     'input as text. Permitted input in any form the child type adapts is '
     'accepted and serialized as the child type does.',
     'inputs histories',
     'all child types, all permitted-value sets and all inputs, in any order '
     'on one element',
     'Tests try a few members and non-members for two child types.',
     [SC + 'scalars.py'],
     [('Constrained.adapt, Enum.valid_value', SC + 'scalars.py')],
     ['set() result', 'value', 'u'])

prop('C07', 'A List behaves as a Python list of elements at true positions',
     'After any sequence of list operations (append, extend, +=, insert, item '
     'and slice assignment and deletion, pop, remove, reverse, sort by key, '
     'set) with plain values or member elements, a List holds exactly what a '
     'Python list subjected to the same operations would, and len, iteration, '
     'indexing, slicing, in, index and count agree with it. Every member '
     'reports the List as its container and a flattened name that contains '
     'its actual position; failed operations leave the List unchanged, and a '
     'removed member is returned or dropped detached from its siblings.',
     'histories',
     'all finite sequences of operations with all arguments, including out of '
     'range and negative indexes, extended slices and element arguments',
     'Tests apply one operation to a small list; renumbering and parent links '
     'only go wrong after particular sequences.',
     [SC + 'containers.py'],
     [('List / ListSlot and _renumber', SC + 'containers.py')],
     ['list protocol', 'flattened_name', 'parents', 'el()'])

prop('C08', 'Arrays and MultiValues behave as Python lists of elements',
     'After any sequence of list operations with plain values or member '
     'elements, an Array or MultiValue holds exactly what a Python list '
     'subjected to the same operations would, every member has it as parent, '
     'and the value list matches the members. A MultiValue\'s own value and '
     'text are those of its first member (None and empty without one), and '
     'assigning them writes the first member, creating it if needed.',
     'histories',
     'all finite sequences of list operations and value/text assignments with '
     'all arguments',
     'Tests apply single operations to one fixed array.',
     [SC + 'containers.py'],
     [('Sequence list overrides, MultiValue.u/value', SC + 'containers.py')],
     ['list protocol', 'value', 'u', 'parent'])

prop('C09', 'A Dict\'s keys are exactly its schema\'s fields, always',
     'Whatever sequence of dict operations is attempted, a Dict holds exactly '
     'one element of each field\'s type under the field\'s name: unknown keys '
     'are refused with an error and key-removing operations raise, leaving '
     'the Dict unchanged. Item assignment and update set the addressed '
     'fields as set() would, in order, keep the child elements themselves, '
     'and touch no others.',
     'histories',
     'all sequences of item assignment, update, set, delete, pop, popitem, '
     'clear, setdefault and get, with known and unknown keys and good and '
     'bad values',
     'Tests attempt each forbidden operation once on a fresh Dict.',
     [SC + 'containers.py'],
     [('Mapping mutators', SC + 'containers.py')],
     ['keys()', 'child identity', 'value'])

prop('C10', 'A SparseDict holds only schema keys and keeps required ones',
     'After any sequence of dict operations a SparseDict holds a subset of its '
     'schema\'s fields, as a Python dict subjected to the same permitted '
     'operations would, each an element of the field\'s type with the '
     'SparseDict as parent. Unknown keys are refused; with minimum fields '
     '"required", non-optional fields are present from construction, survive '
     'every operation, and cannot be deleted or popped.',
     'histories',
     'all sequences of assignment, del, pop, clear, setdefault, update, set '
     'and set_default, with values and elements, for both minimum settings',
     'Tests exercise operations one at a time; absence and re-creation matter '
     'only in sequences.',
     [SC + 'containers.py'],
     [('SparseDict mutators and _reset', SC + 'containers.py')],
     ['keys()', 'value', 'parent'])

prop('C11', 'Dict.set applies its key policy exactly',
     'Setting a Dict from any dict-like (mapping, object with keys() and '
     'item access, namedtuple, or pairs) resets all fields and then sets the '
     'given ones: "strict" accepts only exactly the schema\'s keys, "subset" '
     'refuses unknown keys, and "duck" ignores them. An explicit policy '
     'argument overrides the schema\'s, an unrecognized policy is refused, '
     'and the result is True exactly when every given field adapted.',
     'inputs configurations',
     'all schemas, policies, dict-like forms and key sets, over previously '
     'populated elements',
     'Tests check each policy with one or two key sets.',
     [SC + 'containers.py', 'flatland/util/base.py'],
     [('Dict.set, to_pairs', SC + 'containers.py')],
     ['set() result or exception', 'value'])

prop('C12', 'Structured set and value are inverse and set replaces everything',
     'Setting a container from a Python structure makes its value that '
     'structure with every leaf adapted (missing Dict keys blank), returns '
     'True exactly when every leaf adapted, and setting an element of the '
     'same schema to that value reproduces it. The result never depends on '
     'the container\'s previous contents; a sequence given a non-iterable '
     'returns False and is left empty.',
     'inputs histories',
     'all schema trees and matching or partly unsuitable structures, on fresh '
     'and on populated elements',
     'Tests set one structure per container type, mostly on fresh elements.',
     [SC + 'containers.py'],
     [('Sequence.set, Dict.set', SC + 'containers.py')],
     ['set() result', 'value', 'u', 'is_empty'])

prop('C13', 'Element trees are well formed after every operation',
     'After any sequence of operations on any container of a tree, every '
     'element has exactly the container that yields it as its parent, all '
     'elements share one root, and path, parents, children and all_children '
     'agree with each other, the latter listing every descendant once, '
     'breadth first. Every element\'s fully qualified name resolves back to '
     'that element from anywhere in the tree, for any separator.',
     'histories programs',
     'all schema trees and all sequences of structure-changing operations at '
     'any depth',
     'Tests look at hand-built three-node trees right after construction.',
     [SC + 'base.py', SC + 'containers.py'],
     [('parent maintenance in containers', SC + 'containers.py'),
      ('path, all_children, fq_name, el', SC + 'base.py')],
     ['parent', 'root', 'path', 'children', 'all_children', 'fq_name', 'el'])

prop('C14', 'find() selects exactly the elements a path denotes',
     'Evaluating a path from any element selects, in order, exactly the '
     'elements obtained by stepping name by name: absolute paths from the '
     'root, ".." to the parent (the root stays put), numeric indexes and '
     'slices with Python semantics. Strict lookups raise LookupError if any '
     'step is missing while lenient ones skip that branch; single lookups '
     'return the one match, None for no match, and refuse several unless '
     'lenient.',
     'inputs programs',
     'all element trees, all starting elements and all paths composed of '
     'names, indexes, slices, "." and ".."',
     'Tests evaluate about fifty fixed paths over three trees.',
     [SC + 'paths.py', SC + 'base.py'],
     [('PathExpression.__call__', SC + 'paths.py'),
      ('Element.find', SC + 'base.py')],
     ['Element.find'])

prop('C15', 'Path expressions have one meaning, whatever has been looked up',
     'Escaping "/", "[", "]" and leading "." with a backslash makes any name '
     'addressable; redundant "." and "name/.." steps and a repeated '
     'evaluation change nothing. A path means the same the first time and '
     'the thousandth, before and after any number of other paths have been '
     'evaluated, and bracketed text that is not an index or slice is part of '
     'the name.',
     'inputs histories',
     'all names including path metacharacters, all redundant spellings of a '
     'path, all histories of earlier lookups including more distinct paths '
     'than any cache holds',
     'Tests tokenize fixed strings and never evaluate more paths than the '
     'cache holds.',
     [SC + 'paths.py'],
     [('tokenize, _canonicalize, pathexpr cache', SC + 'paths.py')],
     ['Element.find'])

prop('C16', 'Validation visits the tree down then up and reports the truth',
     'Validating a tree runs descent validators and scalar validators breadth '
     'first from the element downward, then container validators in exactly '
     'the reverse order, each at most once, passing the state through. '
     'SkipAll and SkipAllFalse on the way down exclude the element\'s '
     'descendants (which keep their validity); the overall result is '
     'False exactly when some visited element\'s outcome is false, and each '
     'element\'s valid and all_valid reflect its own outcomes, an invalid '
     'descent never being overridden on the way up.',
     'inputs programs histories',
     'all element trees, all assignments of validator chains with any '
     'outcomes (True, False, None, Skip, SkipAll, SkipAllFalse), with and '
     'without recursion, repeatedly',
     'Tests use single chains on trees of two or three elements.',
     [SC + 'base.py', SC + 'containers.py'],
     [('Element.validate / _validate', SC + 'base.py'),
      ('Container._validate', SC + 'containers.py')],
     ['validator call order', 'valid', 'all_valid', 'validate() result'])

prop('C17', 'Validator chains stop at the first failure or skip',
     'An element\'s validators run in order until one returns a false value '
     '(the element is invalid), Skip or SkipAll (valid), or all pass; None '
     'counts as failure. An optional element with no value runs no '
     'validators and is valid; with no validators at all, an element is '
     'valid exactly when it is not empty. Errors and warnings added by '
     'validators are kept in order without duplicates.',
     'inputs programs',
     'all chains of validators over the possible results, all element types, '
     'optional or not, empty or not',
     'Tests enumerate a few chains of length one or two.',
     [SC + 'base.py'],
     [('validate_element', SC + 'base.py')],
     ['validator calls', 'valid', 'errors', 'warnings'])

prop('C18', 'The validation signal reports every validator outcome once',
     'While a receiver is connected, each validator run during validation '
     'emits exactly one signal, after it ran, carrying the validator, the '
     'element, the state and its unmodified result; default validation is '
     'reported as NotEmpty. Nothing is emitted for validators that did not '
     'run, and connecting receivers changes no validation outcome.',
     'inputs programs',
     'all element trees and validator chains, any number of receivers',
     'Tests check two fixed sequences.',
     [SC + 'base.py', 'flatland/signals.py'],
     [('validator_validated.send in validate_element', SC + 'base.py')],
     ['flatland.signals.validator_validated'])

prop('C19', 'Scalar validators accept exactly their documented values',
     'Each scalar validator (presence, truth, conversion, length bounds, '
     'value bounds, membership, comparison of elements) passes exactly the '
     'elements its documentation describes, boundaries included, and on '
     'failure adds exactly one message to the element (element comparison: '
     'to its documented element) while never changing its value or text. '
     'Ordered comparisons that are complementary never both pass or both '
     'fail on an element whose value is set.',
     'inputs configurations',
     'all values including boundaries and (except for ordered comparisons) '
     'unset or unconvertible ones, all bounds and option lists',
     'Tests try two or three values per validator.',
     ['flatland/validation/scalars.py'],
     [('validate methods', 'flatland/validation/scalars.py')],
     ['validate() result', 'errors'])

prop('C20', 'Container validators accept exactly their documented contents',
     'NotDuplicated fails exactly the members that repeat an earlier one and '
     'marks only those; the HasAtLeast, HasAtMost and HasBetween validators '
     'pass exactly the sequences whose length is within bounds, boundaries '
     'included. Failures add exactly one message to the documented '
     'element and change no values.',
     'inputs configurations',
     'all sequences (including repeated members at any positions and nested '
     'members) and all bounds',
     'Tests use sequences of up to three members.',
     ['flatland/validation/containers.py'],
     [('validate methods', 'flatland/validation/containers.py')],
     ['validate() result', 'errors'])

prop('C21', 'Validation messages expand the right data and translate once',
     'A failing validator\'s message is chosen by plural count when plural '
     'forms are given, translated by the nearest translator on the '
     'state, element, its ancestors or builtins, and then expanded '
     'with explicit keywords, the state, the validator\'s attributes and the '
     'element\'s attributes, in that priority, substituted text being '
     'translated itself. Callable messages receive the element and state; '
     'the message is translated exactly once, and adding it adds exactly one '
     'message however often it is repeated.',
     'inputs configurations',
     'all message forms, translator placements and template keys, at any '
     'depth in an element tree',
     'Tests place one translator at a time and expand a fixed key.',
     ['flatland/validation/base.py', SC + 'util.py'],
     [('Validator.expand_message / note_error', 'flatland/validation/base.py'),
      ('find_i18n_function', SC + 'util.py')],
     ['errors', 'warnings', 'translator calls'])

prop('C22', 'Deriving a schema never alters the schema derived from',
     'Every schema-deriving call returns a new subclass that differs from the '
     'original exactly in the requested attribute, and leaves the original, '
     'its other derivatives and existing elements untouched; unknown '
     'overrides are refused. Constructing an element with overrides affects '
     'that element alone; a validators= sequence, and the properties= given to '
     'a schema, are copied, and elements never share errors or warnings. '
     'What a '
     'derived schema is does not depend on whether the original was used '
     'before.',
     'histories programs',
     'all sequences of derivations and instantiations with overrides over '
     'all element types, including inserting validators at any position',
     'Tests derive once and look at the result, not at everything else.',
     [SC + 'base.py', SC + 'containers.py', 'flatland/util/base.py'],
     [('class_cloner', 'flatland/util/base.py'),
      ('named/using/validated_by/including_validators', SC + 'base.py')],
     ['class attributes of every schema in the derivation graph'])

prop('C23', 'Properties inherit and override without leaking',
     'Reading properties of a schema or element yields the innermost setting '
     'or deletion along instance, class and base classes, and all mapping '
     'views agree. Writing, deleting, popping or clearing at one level never '
     'changes what ancestors, siblings or other elements see, while later '
     'ancestor changes remain visible wherever not overridden; assigning a '
     'mapping to an element replaces its view entirely.',
     'histories',
     'all class hierarchies and all sequences of mapping operations on any '
     'classes and instances in them',
     'Tests cover one- and two-level hierarchies with single operations.',
     [SC + 'properties.py'],
     [('_TypeLookup frames, _InstanceLookup overlay', SC + 'properties.py')],
     ['properties mapping operations'])

prop('C24', 'A compound date and its parts always agree',
     'Setting a compound date from a date or text distributes year, month and '
     'day to its parts and setting any part is reflected in the whole: value '
     'and text are the calendar date when the parts form one and None and '
     'empty otherwise. Setting None or unsuitable input clears every part, '
     'the latter returning False; custom part names and flat data work '
     'alike.',
     'histories inputs',
     'all sequences of whole and part assignments, all dates, texts and part '
     'values, declared with 0 to 3 custom fields',
     'Tests set one date and change one part.',
     [SC + 'compound.py'],
     [('DateYYYYMMDD.compose/explode', SC + 'compound.py')],
     ['value', 'u', 'set() result', 'children'])

prop('C25', 'A joined string is its members joined and re-splits to them',
     'A JoinedString\'s text and value are always its members\' texts joined '
     'with the separator, also after list operations. Setting text splits it '
     'on the separator (or its pattern), adapts each piece, drops empty '
     'pieces when pruning and returns True exactly when all pieces adapted; '
     'setting it to its own text or to a list of the pieces gives the same '
     'members, and flattening yields one pair that restores it.',
     'inputs histories',
     'all separators and patterns, member types, texts and value lists, '
     'followed by any list operations',
     'Tests split a few fixed strings.',
     [SC + 'compound.py'],
     [('JoinedString.set, value', SC + 'compound.py')],
     ['value', 'u', 'members', 'flatten'])

prop('C26', 'A Ref is a window onto its target and obeys its write mode',
     'A Ref\'s value and text always equal those of the element its path '
     'names, through any change or replacement of it, wherever the Ref lives '
     'in the tree. Writing '
     'through a Ref is passed to the target when writable, has no effect '
     'when ignored and raises when forbidden; a Ref never appears in flat '
     'output.',
     'histories programs',
     'all trees, absolute target paths, write modes and interleavings of '
     'writes to Ref and target',
     'Tests use one two-field dict.',
     [SC + 'scalars.py'],
     [('Ref.target, u, value', SC + 'scalars.py')],
     ['value', 'u', 'flatten'])

prop('C27', 'Generated markup is well formed and safely escaped',
     'Any tag generated with any attributes, contents and bound element is '
     'well-formed markup: parsing it gives back exactly the requested tag '
     'name, attribute names and values and the text of the bound element, '
     'with no injected tags or attributes, whatever characters they contain. '
     'Attribute values with an __html__ method and the contents argument, '
     'which are markup already, come out verbatim, and results are of the '
     'configured markup type.',
     'inputs',
     'all attribute values and contents, all element values, both output '
     'dialects (XHTML and HTML), ordered and unordered attributes',
     'Tests render a dozen fixed strings; injection needs the one unescaped '
     'character in the one unescaped place.',
     ['flatland/out/markup.py', 'flatland/out/generic.py',
      'flatland/out/util.py'],
     [('_attribute_escape, _markup_escape, Tag rendering',
       'flatland/out/markup.py')],
     ['rendered text'])

prop('C28', 'Form tags bound to an element reflect it exactly',
     'A generated tag bound to an element receives the flattened name, and '
     'the value appropriate to its kind: text inputs and buttons its text, '
     'checkboxes, radios and options that have a value are checked or '
     'selected exactly when it matches the element or a member of it, '
     'textareas their contents, password fields nothing unless asked. '
     'Explicitly given attributes win unless forced, names, values, ids, for-targets and tab indexes are '
     'generated exactly as configured, and the element is never changed.',
     'inputs configurations',
     'all element types and values, tag kinds, explicit attributes, automatic '
     'or explicitly forced or disabled transforms',
     'Tests are a table of about two hundred fixed renderings.',
     ['flatland/out/generic.py'],
     [('transform functions', 'flatland/out/generic.py')],
     ['rendered attributes'])

prop('C29', 'Generator settings nest and unwind exactly',
     'Settings made in a generator context apply to tags generated within it '
     'and are exactly undone when it ends, at any nesting; unknown settings '
     'are refused without effect and unbalanced ends raise. Opening and closing tags '
     'separately renders the same as one call, and automatically numbered '
     'tab indexes never repeat or skip within a context.',
     'histories',
     'all sequences of begin, end, set, update and tag generation',
     'Tests push at most two contexts.',
     ['flatland/out/generic.py', 'flatland/out/markup.py'],
     [('Context frames', 'flatland/out/generic.py'),
      ('Generator begin/end/set', 'flatland/out/markup.py')],
     ['rendered text', 'generator settings'])

prop('C30', 'Genshi and Generator output agree',
     'Binding an element to a tag through the Genshi directives produces the '
     'same attributes and contents as the markup generator produces for the '
     'same tag, attributes, element and settings, with form:with and form:set '
     'in the place of begin, end and set, and options bound by their select.',
     'inputs configurations',
     'all element types and values, tag kinds, attributes and settings',
     'Tests compare the two on a fixed table of fixtures.',
     ['flatland/out/genshi.py', 'flatland/out/markup.py'],
     [('shared transforms', 'flatland/out/generic.py')],
     ['rendered markup'])

prop('C31', 'A rendered form, submitted unchanged, restores the element',
     'Rendering an input for every flattenable element of a form and '
     'submitting what a browser would (parsed from the markup) restores an '
     'equal element tree; only a box left unchecked submits nothing, so its '
     'field stays unset.',
     'inputs programs',
     'all forms of scalars, lists, arrays and nested mappings, all texts a '
     'browser transmits unchanged, rendered as text inputs, textareas, '
     'checkboxes, radios or selects',
     'No test joins rendering and set_flat.',
     ['flatland/out/generic.py', 'flatland/out/markup.py', SC + 'base.py',
      SC + 'containers.py'],
     [('name/value transforms', 'flatland/out/generic.py'),
      ('set_flat', SC + 'containers.py')],
     ['rendered markup', 'set_flat'])

prop('C32', 'Objects map in and out of a Dict by the same key rules',
     'slice, update_object, set_by_object and from_object move exactly the '
     'fields selected by include or omit, renamed attributes always moving '
     'under their new name and nothing else, with include and omit together '
     'refused. Attributes absent from the object and fields absent from the '
     'schema are ignored, and an object updated from a Dict and read back '
     'reproduces it.',
     'inputs configurations',
     'all schemas, objects, include, omit, rename and key arguments',
     'Tests check each option alone on one class.',
     [SC + 'containers.py', 'flatland/util/base.py'],
     [('keyslice_pairs, set_by_object', SC + 'containers.py')],
     ['resulting dict, object attributes, element value'])

prop('C33', 'Checksum and card checks agree with the Luhn and issuer rules',
     'The Luhn validator passes exactly the numbers whose mod-10 check sum is '
     'zero, for any magnitude, rejecting any single-digit change of a valid '
     'number, and fails unset elements. A card number element reads digits '
     'whatever separates them, prints numbers of card length grouped in '
     'a form that re-reads as the same number, and validates exactly the '
     'numbers of accepted issuers with a correct check digit.',
     'inputs',
     'all integers and all number texts with any grouping, all sets of '
     'accepted issuers',
     'Tests check three numbers.',
     ['flatland/util/base.py', 'flatland/validation/number.py',
      'flatland/ext/creditcard.py'],
     [('luhn10', 'flatland/util/base.py'),
      ('CreditCardNumber', 'flatland/ext/creditcard.py')],
     ['validate() result', 'value', 'u', 'errors'])

prop('C34', 'E-mail and URL validators decide by their documented grammar',
     'The e-mail validator accepts exactly addresses with one "@", a local '
     'part that is not blank and a domain of letter, digit and hyphen labels '
     'under 64 characters, under 254 in all after IDNA, with two labels '
     'unless local names are allowed. The URL validators accept exactly URLs '
     'whose parts satisfy the configured allowed, required and forbidden '
     'sets; the canonicalizer removes exactly the discarded parts of a well '
     'formed URL, idempotently, and none of them ever raises.',
     'inputs configurations',
     'all address and URL strings, all validator configurations',
     'Tests list about twenty addresses and ten URLs.',
     ['flatland/validation/network.py'],
     [('validate methods', 'flatland/validation/network.py')],
     ['validate() result', 'errors', 'value'])

prop('C35', 'Phone normalization keeps the digits and is idempotent',
     'The NANP phone validator accepts exactly inputs with ten digits, or '
     'more when extensions are enabled, and rewrites them as (NNN) NNN-NNNN '
     'with an extension suffix, keeping every digit in order (but for the '
     'leading zeros of an extension, or all of it when stripping). '
     'Rewriting is idempotent; rejected input is '
     'left unchanged with exactly one message.',
     'inputs configurations',
     'all digit strings with any punctuation, all extension settings',
     'There is no test with an extension.',
     ['flatland/validation/string.py'],
     [('NANPphone.validate', 'flatland/validation/string.py')],
     ['validate() result', 'value', 'u', 'errors'])

prop('C36', 'Declared form fields follow inheritance order and override',
     'A Form class has exactly one field per distinct name among its '
     'declared attributes, its explicit field list and its bases, a '
     'declaration overriding an explicit list entry, that overriding bases, '
     'and earlier bases (with all they inherit) overriding later ones. Fields carry their attribute '
     'name, are no longer class attributes, and declaring or deriving a '
     'subclass never changes any base.',
     'programs',
     'all class hierarchies of forms and dicts with any declarations',
     'Tests cover five fixed hierarchies.',
     [SC + 'forms.py'],
     [('_MetaForm, _ElementCollection', SC + 'forms.py')],
     ['field_schema', 'instances'])

prop('C37', 'Defaults apply exactly where declared and nowhere else',
     'Applying defaults sets each element to its own default (a factory, '
     'called with the element, winning over a static default), a container '
     'without one delegating to its children; an integer default makes a '
     'List that many default members. Elements without a default end as '
     'unset scalars or unchanged sequences, the outcome is the same when '
     'repeated, and mutable defaults are never shared or modified.',
     'inputs programs histories',
     'all schema trees with any assignment of defaults and factories, on '
     'fresh and populated elements',
     'Tests default one element type at a time.',
     [SC + 'base.py', SC + 'containers.py', SC + 'scalars.py'],
     [('set_default of each type', SC + 'containers.py')],
     ['set_default', 'from_defaults', 'value'])

prop('C38', 'Equality, emptiness and escaping agree with value and text',
     'Two elements are equal exactly when both value and text are, whatever '
     'their types, and inequality is its negation; elements are unhashable. '
     'A scalar is empty exactly when it holds neither value nor text, '
     'sequences and sparse mappings when they have no members, and compounds '
     'when all parts are; a scalar is true exactly when its value and text '
     'are. The XML-escaped forms of the text unescape to it and contain no '
     'markup characters.',
     'inputs',
     'all pairs of elements of all types in all states',
     'Tests compare a few pairs.',
     [SC + 'base.py', SC + 'scalars.py', SC + 'containers.py'],
     [('__eq__, is_empty, x, xa', SC + 'base.py')],
     ['==', '!=', 'is_empty', 'bool()', 'x', 'xa'])

prop('C39', 'Utility primitives keep their algebra',
     'The ternary Maybe obeys Kleene logic with booleans in either operand '
     'order, symbols are singletons by name, also through pickling, and '
     'assignable and lazy properties compute until assigned, hold what was '
     'assigned and compute again when the assignment is deleted, per '
     'instance. Dict-like conversion and key slicing agree with their '
     'set-theoretic definitions, switch words parse as documented in any '
     'case, and an escaped text is a pattern matching that text only.',
     'inputs histories',
     'all operand combinations, names, and sequences of get, set and delete '
     'on any instances',
     'Tests check single steps.',
     ['flatland/util/base.py'],
     [('Maybe, symbol, assignable_property, keyslice_pairs',
       'flatland/util/base.py')],
     ['return values'])


prop('C40', 'Elements sharing a schema never affect each other, in any thread',
     'Whatever is done to one element (setting, restructuring, validating, '
     'annotating, changing its attributes and properties, rendering, '
     'mutating what its value returned), every other element of its schema, '
     'existing or made later, behaves exactly as it would alone, whether '
     'the operations alternate, run inside the validators of another '
     'element or run in concurrent threads. A compound schema is prepared '
     'once per class even when several threads build its first elements at '
     'once, and no thread sees it half prepared. symbol(name) is one object '
     'in all threads.',
     'programs schedules histories',
     'all schemas, all programs of element operations, all interleavings of '
     'them in one thread, re-entrantly, and in several threads at source '
     'line granularity',
     'Tests use one element at a time, in one thread.',
     [SC + 'base.py', SC + 'containers.py', SC + 'compound.py',
      SC + 'properties.py', SC + 'paths.py', 'flatland/util/base.py'],
     [('_MetaCompound.__call__', SC + 'compound.py'),
      ('Element.__init__', SC + 'base.py'),
      ('symbol', 'flatland/util/base.py'),
      ('pathexpr', SC + 'paths.py')],
     ['element state', 'schema attributes', 'return values'])

prop('C41', 'A failure in user code surfaces unchanged and spoils nothing',
     'An exception raised by user code the library calls (adapt, serialize, '
     'a validator, a signal receiver, a markup filter, an iterated input, a '
     "compound's preparation) reaches the caller as it is, except that a "
     "compound's set() reports Exceptions as failure to adapt. The element "
     'tree stays well formed, a refused slice assignment leaves the list '
     'alone, no lock stays held and no preparation counts as done. Repeating '
     'a set, restore, validation, construction or rendering without the '
     'fault gives what it would have given had it never failed.',
     'inputs fault_sequences histories',
     'all schemas and operations, with a fault at any one call into user '
     'code',
     'Tests inject no faults beyond AdaptationError.',
     [SC + 'base.py', SC + 'scalars.py', SC + 'containers.py',
      SC + 'compound.py', 'flatland/out/markup.py'],
     [('Scalar.set', SC + 'scalars.py'),
      ('Element.validate', SC + 'base.py'),
      ('_MetaCompound.__call__', SC + 'compound.py'),
      ('Generator, Tag', 'flatland/out/markup.py')],
     ['exceptions', 'element state', 'markup'])

prop('C42', 'Reading an element changes nothing; data passed in stays untouched',
     'Reading an element (value, text, raw, names, paths, members, lookups '
     'and searches whether found or not, containment, comparing, counting, '
     'slicing, flattening, printing, rendering, properties, labels, '
     'defaults) works in every state, changes no element, and repeated reads '
     'agree. The text of a container is the literal made of the texts of its '
     'members. Values and pairs given to an element are never modified, and '
     'modifying them afterwards changes nothing but raw.',
     'inputs histories',
     'all schemas, states, and sequences of reads; all values given',
     'Tests read once, and look at few states.',
     [SC + 'base.py', SC + 'containers.py', SC + 'compound.py',
      SC + 'scalars.py', SC + 'properties.py', SC + 'paths.py',
      'flatland/out/markup.py'],
     [('Element.find, flatten, fq_name', SC + 'base.py'),
      ('List, Dict and SparseDict', SC + 'containers.py'),
      ('Properties', SC + 'properties.py')],
     ['element state', 'return values', 'arguments'])

prop('C43', 'Shorthand and longhand constructions and derivations agree',
     'Constructing an element with a value, keyword overrides, flat pairs or '
     'defaults gives the same as constructing it bare and then setting, and '
     'overriding at construction the same as deriving with using(), leaving '
     'the schema as it was. Independent deriving calls (named, using, '
     'validated_by, with_properties, of, valued, including_*) give the same '
     'schema in any order and by any equivalent calls, even if a schema was '
     'used on the way. A Form declaration behaves exactly as a Dict of the '
     'same fields.',
     'programs inputs',
     'all schema types, overrides, orders of deriving calls and values',
     'Tests apply one call at a time.',
     [SC + 'base.py', SC + 'containers.py', SC + 'compound.py',
      SC + 'scalars.py', SC + 'forms.py'],
     [('Element.__init__, using, named, validated_by', SC + 'base.py'),
      ('List.of, Dict.of', SC + 'containers.py'),
      ('Enum.valued', SC + 'scalars.py'),
      ('_MetaForm', SC + 'forms.py')],
     ['schema attributes', 'element state'])


NOTES = {}


def main():
    from pbt import core
    props = core.load_props()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            assert p['statement'].count('. ') <= 2, p['id']
            fh.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] not in props:
            na.append({'property': p['id'],
                       'reason': NOTES.get(p['id'], 'check not built yet')})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'property-based testing: Hypothesis-generated cases '
                         'run against flatland on Jython and judged by an '
                         'independent reference model or relation, with '
                         'shrinking',
            'level': 'exploration',
            'level_note': 'Random structured search with an explicit oracle; '
                          'shows the absence of violations only on the cases '
                          'generated. ' + ' '.join(
                              props[p['id']].assumptions),
        })
    doc = {'version': 1, 'setup_cmd': 'python3 check.py setup',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: every property is observed at the public API. '
                    'Hypothesis runs in python3-vt, flatland in Jython 2.7.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(doc, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
