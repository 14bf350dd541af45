"""
Source of properties.jsonl and MANIFEST.json: ``python3 tools/catalogue.py``.
"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
MODELS = 'paradigm/_core/models.py'
ANNOTATED = 'paradigm/_core/annotated.py'
SIGNATURES = 'paradigm/_core/signatures.py'
STUBS = 'paradigm/_core/stubs.py'
SCOPING = 'paradigm/_core/scoping.py'
CATALOG = 'paradigm/_core/catalog.py'
EVALUATION = 'paradigm/_core/arboreal/evaluation.py'
CONVERSION = 'paradigm/_core/arboreal/conversion.py'
UTILS = 'paradigm/_core/arboreal/utils.py'
PRETTY = 'paradigm/_core/pretty.py'
CACHING = 'paradigm/_core/caching.py'
EXECUTION = 'paradigm/_core/execution.py'
INDEX = 'paradigm/_core/index.py'
MODULES = 'paradigm/_core/modules.py'
DISCOVERY = 'paradigm/_core/discovery.py'
SOURCES = 'paradigm/_core/sources.py'

PROPERTIES = []
CHECKS = {}
NOT_APPLICABLE = {}


def prop(id_, title, statement, over, quantifier, why, files, mechanism,
         observe=()):
    assert len(title) <= 80, title
    PROPERTIES.append({
        'id': id_, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': quantifier},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe), 'hook_needed': None}})


def check(id_, note, level='proof',
          technique='contracts on the real functions, obligations generated '
                    'from their current source and discharged by an SMT '
                    'solver (z3, cvc5)'):
    CHECKS[id_] = {
        'property': id_, 'quick_cmd': f'python3 check.py {id_}',
        'thorough_cmd': f'python3 check.py {id_} --thorough',
        'technique': technique, 'level': level, 'level_note': note}


def not_applicable(id_, reason):
    NOT_APPLICABLE[id_] = reason


SIG = ('every well-formed signature: any number of parameters of each kind, '
       'any names, any mix of required and optional ones')
ARGS = 'any number of positional arguments and any set of keyword arguments'

prop('C01', 'all_set holds exactly for calls Python itself would accept',
     'For every plain signature and every positional and keyword arguments, '
     'all_set answers True exactly when calling a Python function declaring '
     'these parameters with these arguments would bind every parameter '
     'without a TypeError, and False otherwise. It raises nothing, whatever '
     'the names of the keyword arguments are.',
     ['inputs'], f'{SIG}; {ARGS}',
     'the tests draw a few signatures and mostly compare all_set with expects '
     'instead of Python; keywords which repeat positional arguments, '
     'positional-only names passed as keywords, or keywords named like '
     'parameters of the method itself never come up',
     [MODELS], [('matching of arguments to parameters',
                 f'{MODELS} PlainSignature.all_set'),
                ('grouping of parameters', f'{MODELS} to_parameters_by_kind, '
                                           'to_parameters_by_name')],
     ['PlainSignature.all_set'])
prop('C02', 'expects holds exactly for arguments some complete call extends',
     'For every plain signature and every positional and keyword arguments, '
     'expects answers True exactly when the arguments can be extended with '
     'further ones (positional arguments appended, keywords added) to a call '
     'that a Python function declaring these parameters accepts. It raises '
     'nothing, and whatever all_set accepts expects accepts too.',
     ['inputs'], f'{SIG}; {ARGS}',
     'tests check accepting of arguments generated from the signature and '
     'rejecting of obviously foreign ones; the existence of an extension is '
     'a quantifier alternation no sample settles',
     [MODELS], [('matching of arguments to parameters',
                 f'{MODELS} PlainSignature.expects')],
     ['PlainSignature.expects'])
prop('C03', 'Binding in steps accepts the same calls as binding at once',
     'After binding arguments which a plain signature expects, further '
     'arguments are accepted by the result (all_set, expects) exactly when '
     'the original signature accepts both groups together, positional ones '
     'appended and later keywords replacing the bound keywords. The only '
     'exception is inherent to partial application: a name consumed by '
     'position may be taken again by a variadic keyword parameter.',
     ['inputs', 'histories'],
     f'{SIG}; any two successive groups of arguments',
     'tests bind at most once and look only at the types of the results; the '
     'composition law is over pairs of argument lists',
     [MODELS], [('binding', f'{MODELS} PlainSignature.bind, '
                            '_bind_positionals, _bind_keywords'),
                ('acceptance', f'{MODELS} PlainSignature.all_set, '
                               'PlainSignature.expects')],
     ['PlainSignature.bind', 'PlainSignature.all_set',
      'PlainSignature.expects'])
prop('C04', 'bind returns exactly the parameters left, as functools.partial',
     'bind raises TypeError exactly when the arguments are not expected; '
     'otherwise it drops the parameters passed by position, turns the ones '
     'passed by keyword into keyword-only parameters with the passed value as '
     'default, makes the positional-or-keyword parameters after the first of '
     'these keyword-only and drops the variadic positional parameter which '
     'can not be reached any more. Every other parameter, the order, the '
     'annotations, the defaults and the returned annotation are kept, so the '
     'result describes functools.partial of the callable.',
     ['inputs'], f'{SIG}; {ARGS}',
     'tests check that the result is a signature and the errors on foreign '
     'arguments, never the list of parameters',
     [MODELS], [('binding', f'{MODELS} PlainSignature.bind, '
                            '_bind_positionals, _bind_keywords')],
     ['PlainSignature.bind'])
prop('C05', 'Only well-formed parameter lists make a signature',
     'Constructing a plain signature succeeds exactly when parameter names '
     'are unique, kinds go in the order Python requires, there is at most '
     'one parameter of each variadic kind and no required positional '
     'parameter follows an optional one; otherwise ValueError is raised. '
     'Constructing a parameter raises for kinds which are no parameter kinds '
     '(TypeError), required variadic parameters and variadic parameters with '
     'default (ValueError), and a created object reports exactly what it was '
     'given.',
     ['inputs'], 'every sequence of parameters of any length, every kind, '
                 'name, annotation and default',
     'tests construct only well-formed signatures; rejecting depends on a '
     'pair of positions in a list of any length',
     [MODELS], [('validation of the list', f'{MODELS} PlainSignature.__new__'),
                ('validation of a parameter',
                 f'{MODELS} RequiredParameter.__new__, '
                 'OptionalParameter.__new__, _validate_kind')],
     ['PlainSignature', 'RequiredParameter', 'OptionalParameter'])
prop('C06', 'Overloaded signature is the union of its plain signatures',
     'An overloaded signature accepts arguments (all_set, expects) exactly '
     'when one of its plain signatures does, and binding them keeps the '
     'bound form of exactly the plain signatures expecting them in their '
     'order, collapsing to a plain signature if one is left and raising '
     'TypeError if none is. It is made of at least two plain signatures '
     '(ValueError, TypeError otherwise), and joining signatures flattens '
     'overloaded ones keeping the order.',
     ['inputs'], 'every number of alternatives, each arbitrary, and any '
                 'arguments',
     'tests use a few alternatives; which of them survive binding and in '
     'what order is never looked at',
     [MODELS], [('union', f'{MODELS} OverloadedSignature'),
                ('joining', f'{MODELS} from_signatures, flatten_signature')],
     ['OverloadedSignature'])
prop('C07', 'Equality of signatures, parameters, annotations is equivalence',
     'Equality of parameters, of signatures and of the annotations inside '
     'them is reflexive, symmetric and transitive and answers a plain bool, '
     'whatever kinds of annotations are mixed (classes, subscripted '
     'generics, unions, literals, sequences, type variables, parameter '
     'specifications, strings). Objects differing in name, kind, default, '
     'annotation, order or number of parameters, or returned annotation are '
     'unequal, unions and literals compare regardless of the order of their '
     'members, and objects of other types are never equal to signatures.',
     ['inputs'], 'all triples of parameters, signatures and annotations of '
                 'any nesting',
     'tests draw annotations independently so that equal but not identical '
     'pairs of mixed kinds hardly occur; the law is over triples',
     [MODELS, ANNOTATED],
     [('equality of annotations', f'{ANNOTATED} are_equal'),
      ('equality of models', f'{MODELS} __eq__ of the classes')],
     ['==', '!='])
prop('C08', 'Equal signatures and parameters have equal hashes',
     'Whenever two parameters or two signatures are equal their hashes are '
     'equal, and hashing never fails for unhashable annotations or defaults. '
     'So they can serve as keys of dictionaries and elements of sets.',
     ['inputs'], 'all pairs of equal objects, in particular equal ones with '
                 'differently built annotations and defaults',
     'tests compare hashes only of a few drawn pairs which are nearly always '
     'unequal',
     [MODELS, ANNOTATED], [('hashes', f'{MODELS} __hash__ of the classes'),
                           ('equality', f'{MODELS} __eq__, {ANNOTATED}')],
     ['hash'])
prop('C09', 'Pickling and copying reproduce an equal signature',
     'Pickling with any protocol supporting keyword construction, shallow '
     'and deep copying of any parameter or signature give an object of the '
     'same class equal to the original with the same name, kind, annotation, '
     'default or its absence, parameters, returned annotation and '
     'alternatives in the same order.',
     ['inputs'], 'every parameter and signature whose annotations and '
                 'defaults can be pickled',
     'one test pickles drawn signatures with one protocol; a default equal '
     'to an empty value or missing is a matter of chance',
     [MODELS], [('reconstruction', f'{MODELS} __getnewargs_ex__, '
                                   '__getnewargs__, __new__ of the classes')],
     ['pickle', 'copy'])
prop('C10', 'repr of signatures evaluates back to an equal object',
     'The representation of any parameter or signature is an expression '
     'which, evaluated with the package classes and the modules of the '
     'annotations in scope, gives an equal object. This holds for nested '
     'generic annotations, unions, optional and empty type arguments, '
     'tuples of any length, None and Ellipsis types and defaults with '
     'evaluable representation.',
     ['inputs'], 'every parameter and signature over evaluable annotations '
                 'and defaults of any nesting',
     'the test evaluates representations of a few drawn signatures with '
     'simple annotations',
     [MODELS, ANNOTATED], [('texts', f'{MODELS} __repr__ of the classes'),
                           ('texts of annotations', f'{ANNOTATED} to_repr')],
     ['repr'])
prop('C11', 'str of a signature has the layout of a Python declaration',
     'The text of a plain signature lists its parameters in order with the '
     'separator / right after the positional-only ones if there are any and '
     'the separator * right before the keyword-only ones exactly if there '
     'are any and no variadic positional parameter, followed by the arrow '
     'and the returned annotation. Each parameter shows its stars, name, '
     'annotation and its default exactly if it has one, and an overloaded '
     'signature joins the texts of its alternatives with bars.',
     ['inputs'], SIG,
     'tests look for substrings in texts of drawn signatures, not at the '
     'place of separators',
     [MODELS, ANNOTATED], [('texts', f'{MODELS} __str__ of the classes')],
     ['str'])
prop('C12', 'User-defined callables get the signature inspect reports',
     'For functions, coroutine functions, lambdas, classes, bound and class '
     'methods which are not part of the standard library the obtained '
     'signature has exactly the parameters inspect.signature reports, with '
     'their names, kinds, annotations (any type if missing) and defaults, and '
     'the declared returned annotation, the type of the instance for '
     'classes. A callable is never given the signature of a standard library '
     'object only because it has the same module and qualified name, '
     'provided that the modules this object is found in are imported and '
     'the module of the callable is named by a string.',
     ['inputs', 'programs'],
     'every user-defined callable with any parameters',
     'tests check that some signature is obtained for drawn callables',
     [SIGNATURES, CATALOG],
     [('conversion', f'{SIGNATURES} _from_raw_signature, '
                     '_parameter_from_raw'),
      ('lookup', f'{SIGNATURES} resolve_qualified_paths, from_callable')],
     ['signature_from_callable'])
prop('C13', 'Partial objects and bound methods get the bound signature',
     'The signature of functools.partial of a callable is the signature of '
     'the callable bound with the arguments of the partial, nested ones '
     'included, and the signature of a method of an instance (which is '
     'neither a class nor None) is the signature of the function of its '
     'class, the one it is made of if it is overridden, with the first '
     'parameter bound. Overloaded callables keep exactly the alternatives which '
     'expect these arguments.',
     ['inputs', 'programs'],
     'every supported callable and any arguments it expects',
     'tests do not compare the signature of a partial object or a bound '
     'method with the signature of the callable',
     [SIGNATURES, MODELS],
     [('registered handlers', f'{SIGNATURES} from_callable'),
      ('binding', f'{MODELS} PlainSignature.bind')],
     ['signature_from_callable'])
prop('C14', 'Stub declarations are turned into signatures parameter by one',
     'A signature obtained from a stub has, for every overload in order, one '
     'parameter per declared parameter with its name, evaluated annotation '
     '(any type if missing) and kind: positional ones (all of them '
     'positional-only), variadic or keyword-only ones in the declared order; '
     'it is optional exactly if the declaration has a default, whose value '
     'is kept unless it is the ellipsis. The first parameter is dropped for '
     'classes; for methods, static ones aside, it is required and annotated '
     'as the instance, or as its class for class methods. The returned '
     'annotation is the declared one, the type of the instance for '
     'initializers of classes. A name annotated with a callable type has a '
     'required positional-only parameter per type of an argument, or '
     'accepts anything if they are not specified; one annotated with '
     'another type which declares no call is inspected instead. Library '
     'callables are described by declarations of the very object rather '
     'than by the ones their other names are resolved to.',
     ['inputs', 'programs'],
     'every function declaration: any number of parameters of each kind and '
     'any number of defaults',
     'tests obtain signatures of library callables and only check that it '
     'works',
     [SIGNATURES],
     [('parameters', f'{SIGNATURES} _parameters_from, '
                     '_to_positional_parameters, _to_keyword_parameters, '
                     '_to_variadic_positional_parameter, '
                     '_to_variadic_keyword_parameter, '
                     '_parameter_from_ast_node'),
      ('returned annotation', f'{SIGNATURES} _returns_annotation_from')],
     ['signature_from_callable'])
prop('C15', 'Class signatures come from the nearest declared builder',
     'The signature of a class described by stubs is taken from the first '
     'class in its chain of bases (the class itself first, then its bases '
     'depth first in the declared order) which declares an initializer or a '
     'constructor, the initializer being preferred within one class, and '
     'from the builder of object if there is none; named tuples declare a '
     'constructor with a parameter per field. If the class is known by '
     'several names, all of them have to lead to the same builder, the one '
     'of object aside; otherwise the signature is obtained by inspection.',
     ['inputs', 'programs'],
     'every hierarchy of classes in stubs, of any depth and width',
     'tests check some library classes, without the origin of the signature',
     [SIGNATURES],
     [('search of builders', f'{SIGNATURES} _to_class_builder_qualified_path, '
                             '_to_mro, _resolve_builder_qualified_path')],
     ['signature_from_callable'])
prop('C16', 'Resolved names lead to objects that stubs really declare',
     'Resolving a dotted name of a stub module gives a module and an object '
     'which this module declares (itself, not by import), or the module '
     'itself for a name of a module, or reports that the object is not '
     'found. It always ends, also with modules importing each other in '
     'cycles.',
     ['inputs', 'programs'],
     'every set of modules: their declarations, imports, star imports, '
     'class hierarchies, and every dotted name',
     'tests reach resolution only with the stubs shipped with mypy',
     [SCOPING],
     [('resolution', f'{SCOPING} resolve_object_path, '
                     'contains_object_path, scope_contains_path')],
     ['signature_from_callable'])
prop('C17', 'Names resolve with the precedence of Python scopes',
     'A name used in a class body of a stub is looked up in this class '
     'first, then among the declarations of the module, then in star '
     'imported modules in their order, then among the imported names with '
     'the longest known prefix of a dotted name, and finally among the '
     'builtins; an attribute of a class not declared by it is looked up in '
     'its bases in the declared order and then in object.',
     ['inputs', 'programs'],
     'every set of modules, every scope and every dotted name',
     'tests reach resolution only with the stubs shipped with mypy, where '
     'conflicts of names are rare',
     [SCOPING, STUBS],
     [('resolution', f'{SCOPING} resolve_object_path'),
      ('resolution while parsing', f'{STUBS} _resolve_object_path')],
     ['signature_from_callable'])
prop('C18', 'Relative imports of stubs lead where Python imports lead',
     'An import-from statement of a stub leads to the module that the Python '
     'import system would take: the named one for absolute imports; for '
     'relative ones the package of the importing module (the module itself '
     'if it is a package) gone up one package per additional dot, followed '
     'by the named module if any.',
     ['inputs', 'programs'],
     'every importing module path of any depth, package or not, any level '
     'and name',
     'stubs shipped with mypy use levels one and two only',
     [UTILS], [('resolution', f'{UTILS} to_parent_module_path')],
     ['signature_from_callable'])
prop('C19', 'Cached data is read back exactly as it was saved',
     'The text written to a cache for any nesting of dictionaries, lists, '
     'tuples, sets and scalar values (finite numbers among them) is Python '
     'source which evaluates to '
     'equal data of the same types, empty and one-element containers '
     'included. Syntax trees saved as text are rebuilt to equal trees.',
     ['inputs'], 'every data of nested containers of any size and depth, '
                 'every syntax tree without infinite numbers',
     'no test looks at the caches',
     [PRETTY, CACHING, CONVERSION],
     [('texts', f'{PRETTY} repr_from'),
      ('files', f'{CACHING} save, load'),
      ('trees', f'{CONVERSION} to_raw')],
     ['import of the package'])
prop('C20', 'A missing, torn or outdated cache is never used',
     'Whatever is found in the place of a cache - nothing, any prefix of a '
     'cache left by an interrupted run, a file without some of the fields or '
     'written by another version of the package - the data is computed '
     'anew and the same signatures are obtained. A failure to write the '
     'cache does not prevent the package from working.',
     ['crash_points', 'histories', 'fault_sequences'],
     'every state of the cache file',
     'tests always run with complete caches of the same version',
     [STUBS, MODULES, CACHING],
     [('loading', f'{STUBS}, {MODULES} (top level), {CACHING} load'),
      ('saving', f'{CACHING} save')],
     ['import of the package'])
prop('C21', 'Annotations of stubs evaluate to the types they spell',
     'Evaluating an annotation or a default of a stub gives the value which '
     'the same expression has in Python with its names standing for the '
     'objects they resolve to: constants, names, attributes, subscripts, '
     'tuples, lists, dictionaries, calls, unary operators and unions, in '
     'any nesting and with operands in their order. An operand pair not '
     'supporting the bar operator gives the union, and subscription of a '
     'value which is not subscriptable gives the value itself.',
     ['inputs', 'programs'], 'every expression of any nesting',
     'tests only evaluate annotations of callables picked from the library '
     'without looking at the values',
     [EVALUATION],
     [('evaluation', f'{EVALUATION} evaluate_expression_node, '
                     'evaluate_operator_node')],
     ['signature_from_callable'])
prop('C22', 'Modules unsafe to import are never imported for indexing',
     'The modules imported for indexing are modules of the standard library '
     'which are neither listed as unsupported nor contained in a package '
     'listed so, nor tests, nor scripts, with all the other modules kept. '
     'Exclusion works on whole components of module names.',
     ['inputs', 'configurations'],
     'every set of modules and every list of unsupported names',
     'tests see only the result for one library',
     [DISCOVERY, SOURCES],
     [('exclusion', f'{DISCOVERY} _recursively_update_modules_paths'),
      ('selection', f'{SOURCES} _is_valid_module_path, '
                    '_relative_file_path_to_module_path')],
     ['import of the package'])
prop('C23', 'Computing in a separate process leaves the caller untouched',
     'A function called in a separate process gives the caller its result or '
     'raises the exception it raised, and the caller never waits '
     'forever. In either case, also if the process can not be started, ends '
     'early or other threads call functions likewise, the main module of '
     'the caller is what it was before.',
     ['inputs', 'fault_sequences', 'histories'],
     'every function, arguments, result or exception, and a failure at any '
     'step',
     'no test calls it',
     [EXECUTION], [('protocol', f'{EXECUTION} call_in_process, '
                                '_send_result')],
     ['import of the package'])
prop('C24', 'Members of specialized generics have arguments substituted',
     'For a class deriving from a subscripted generic class the members '
     'taken from the generic one have every occurrence of its type '
     'parameters replaced with the given arguments, by position, and nothing '
     'else is changed; the declarations of the generic class itself stay as '
     'they were.',
     ['inputs', 'programs'],
     'every generic class, members of any form and any arguments',
     'tests do not look at members of subscripted bases',
     [STUBS],
     [('substitution', f'{STUBS} _SpecializeGeneric, '
                       '_register_generic_specialization, '
                       '_register_base_ast_node'),
      ('type parameters', f'{STUBS} _collect_type_args, '
                          '_StateParser.visit_ClassDef')],
     ['signature_from_callable'])
prop('C25', 'The index of the library is exact: every path leads to object',
     'Indexing modules records, under the qualified name of every class and '
     'callable reachable through modules and nested classes, every path it '
     'is reachable by, and nothing else: following a recorded path gives an '
     'object with that qualified name. Modules failing to import are skipped '
     'with a warning, and classes containing themselves do not loop.',
     ['inputs', 'programs'],
     'every namespace of modules and nested classes',
     'tests only see that lookups succeed for picked library objects',
     [INDEX, CATALOG, MODULES],
     [('traversal', f'{INDEX} _index_module_or_type, _index_module_path'),
      ('qualified names', f'{CATALOG} qualified_path_from'),
      ('filter', f'{MODULES} _to_supported_qualified_paths')],
     ['signature_from_callable'])
prop('C26', 'Signatures are values: no query or binding changes them',
     'Asking all_set or expects, binding, comparing, hashing, printing or '
     'pickling a signature changes neither the signature, nor its '
     'parameters, nor the containers of arguments passed to it. The same '
     'question asked again is answered the same.',
     ['inputs', 'histories'], f'{SIG}; any sequence of operations',
     'tests ask each question once per object',
     [MODELS], [('absence of writes', f'{MODELS} methods of the classes')],
     ['PlainSignature', 'OverloadedSignature'])
prop('C27', 'Every stub declaration in force is recorded, and no other',
     'Parsing a stub records each function, class and assignment of every '
     'scope with all its declarations in order (overloads included), each '
     'import as a reference to what it names, and assignments of plain '
     'names as references. Of conditional blocks exactly the branch taken by '
     'the running interpreter is recorded.',
     ['inputs', 'programs'],
     'every stub module: any sequence and nesting of declarations',
     'tests only see callables of the library for one interpreter',
     [STUBS],
     [('visitor', f'{STUBS} _StateParser'),
      ('recording', f'{STUBS} _StateParser._add_ast_node, _add_reference, '
                    '_add_name_definition, _add_path_definition')],
     ['signature_from_callable'])

from claims import claim  # noqa: E402

claim(check, not_applicable)


def main():
    with open(ROOT / 'properties.jsonl', 'w') as file:
        for p in PROPERTIES:
            file.write(json.dumps(p) + '\n')
    ids = [p['id'] for p in PROPERTIES]
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 -m compileall -q pyvc contracts harness '
                     'properties check.py',
        'checks': [CHECKS[i] for i in ids if i in CHECKS],
        'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(
                i, 'no contract within reach has been established')}
            for i in ids if i not in CHECKS],
        'notes': 'No hooks are needed: the checks verify and execute a copy '
                 'of the working tree of /repo made on every run.'}
    (ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1)
                                        + '\n')


if __name__ == '__main__':
    main()
