"""What is claimed and at what level."""


def claim(check, not_applicable):
    check('C01', 'All obligations of the contract of PlainSignature.all_set '
                 'discharged for signatures and calls of any size; the '
                 'invariant of the constructor is the precondition; calls '
                 'of real functions are compared as a cross-check.')
    check('C02', 'All obligations of the contract of PlainSignature.expects '
                 'and the lemma on extendability discharged for any size; '
                 'the invariant of the constructor is the precondition.')
    check('C03', 'The contracts of bind, all_set and expects are discharged '
                 'for any size, and the composition law is a lemma over '
                 'these contracts, discharged as well.')
    check('C04', 'All obligations of the contract of PlainSignature.bind '
                 'discharged for any size, preconditions of the constructor '
                 'included.')
    check('C05', 'All obligations of the constructors discharged for lists '
                 'of any size; the induction from neighbours to pairs is a '
                 'lemma with a discharged step.')
    check('C06', 'All obligations of the methods and the constructor of '
                 'overloaded signatures discharged for any number of '
                 'alternatives, and of joining any number of signatures, '
                 'plain and overloaded in any order.')
    check('C07', 'Exact relation decided by every registered handler of '
                 'are_equal and by == and != of all pairs of classes '
                 'discharged for values of any size; the relations are '
                 'proved to be equivalences, the induction over nesting of '
                 'annotations is applied by the harness.')
    check('C08', 'Hashes of equal parameters and signatures are proved '
                 'equal for any size; hashing is proved not to depend on '
                 'hashes of annotations and defaults.')
    check('C10', 'The form of the text of every kind of annotations, '
                 'parameters and signatures is proved for any size; that '
                 'Python evaluates this form to an equal object is assumed '
                 'and cross-checked by evaluation of drawn objects.')
    check('C11', 'The order of parts of the texts is proved for signatures '
                 'of any size.')
    check('C09', 'What the constructors make of the arguments given by every '
                 'class, followed by setting of the slots, is proved to have '
                 'the same parts, for any size; the protocol of pickle and '
                 'copy itself is assumed and cross-checked by drawn objects.')
    check('C26', 'Frame conditions of every method, generated from the '
                 'bodies on inputs of any size, are discharged; that '
                 'repeated questions are answered the same is a corollary '
                 'of the exact contracts of the answers.')
    check('C18', 'Where an import-from statement leads is proved for paths '
                 'of any depth, any level and any name; what makes a module '
                 'a package is proved up to the finder of modules, which is '
                 'assumed.')
    check('C19', 'The text of every container is proved to be a display of '
                 'Python with the same elements, for any size, the file to '
                 'be a sequence of assignments of it; evaluation by Python '
                 'is assumed and cross-checked by drawn data and trees.')
    check('C22', 'Exclusion is proved for any modules and any names, the '
                 'whole top level of the modules included; walking over '
                 'files and inspect.getmodulename are assumed and '
                 'cross-checked with generated libraries of files.')
    check('C25', 'Traversal of namespaces is proved to record exactly the '
                 'members with qualified paths for any namespace, the '
                 'recursion by its own contract; handlers of qualified '
                 'paths, skipping of failing modules and the filter by '
                 'stubs are proved too. What vars and import_module give is '
                 'assumed.')
    check('C23', 'Restoring of the main module, the result, the exception, '
                 'the arguments and the absence of endless waiting are '
                 'proved for any function and a failure at any step; '
                 'multiprocessing itself is assumed and cross-checked by '
                 'calls of all kinds.')
    check('C12', 'Conversion of inspected signatures is proved for any '
                 'parameters, the handlers of functions, classes and methods '
                 'to give the inspected signature unless the callable is '
                 'described, and the lookup to describe a callable only by '
                 'paths which lead to this very object, for any table and '
                 'paths of any depth. What inspect reports is assumed.')
    check('C13', 'The handlers of partial objects and of bound methods of '
                 'all kinds are proved to bind the signature of exactly the '
                 'function with exactly the arguments, which binding itself '
                 'is proved for any signature, plain or overloaded. How '
                 'descriptors make methods is assumed and cross-checked with '
                 'methods of the library.')
    check('C14', 'Declarations of functions with any number of parameters, '
                 'defaults and decorators are proved to be turned into '
                 'parameters one by one, and so are annotations with '
                 'callable types; evaluation of expressions and resolution '
                 'of names are taken by their contracts.')
    check('C15', 'The chain of bases, the nearest class with a builder, the '
                 'choice among several names and the handler of classes are '
                 'proved for hierarchies of any depth and width against '
                 'their contracts; the table of bases is made by parsing, '
                 'which is cross-checked with generated hierarchies.')
    check('C16', 'What resolution answers is proved to be declared by the '
                 'module it names, for declarations of any depth, any '
                 'modules and any path, and the guard of membership to '
                 'agree with resolution; that resolution ends is not a '
                 'postcondition and is cross-checked by generated modules, '
                 'cyclic ones included.')
    check('C17', 'Every step of resolution (members, bases, modules '
                 'imported with a star, imports, builtins) is proved to be '
                 'the one Python makes, in its order, for any depth and any '
                 'number of bases, modules and imports, the recursion by '
                 'its own contract; the tables of names are cross-checked '
                 'with generated modules.')
    check('C21', 'The handlers of all kinds of expressions are proved to '
                 'give the value Python gives, for any number of parts, the '
                 'recursion by its own contract, and so are assignments, '
                 'searching for attributes and objects taken from the '
                 'library or from declarations; classes made of stubs only '
                 'are cross-checked with generated modules.')
    check('C27', 'Visitors of functions, classes, assignments, imports and '
                 'conditional blocks are proved to make exactly the records '
                 'of their statements, for any number of targets, names and '
                 'statements, and so is parsing of a module; that they are '
                 'called for statements is the contract of ast.NodeVisitor, '
                 'cross-checked with generated stubs.')
    check('C20', 'The top levels of both modules are proved, for every '
                 'exception loading may raise and every other version, to '
                 'give and to save the data made without a cache, and to '
                 'load what has been saved; load and save are proved to '
                 'import the file and to raise nothing whichever step '
                 'fails. That prefixes of a cache do not load is assumed '
                 'of Python and cross-checked, as are whole histories.')
    check('C24', 'Replacing of names and dotted names, splitting of '
                 'arguments, the choice of parameters of a class (any '
                 'number of type variables), registration of bases and of '
                 'members of a specialization with everything their names '
                 'stand for are proved; loops over members and bases are '
                 'unrolled once in the latter. Finding type variables in '
                 'arguments and whole hierarchies are cross-checked with '
                 'generated generic classes.')
