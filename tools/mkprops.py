#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
S = 'src/zope/security/'
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'mechanism': [{'name': n, 'where': S + w} for n, w in mechanism],
            'state': [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state],
            'observe_at': list(observe),
            'hook_needed': None,
        }})

prop('C01', 'Proxies check every operation before performing it',
     "Every operation applied to a security proxy (attribute access, call, item access, iteration, length, containment and every unary, binary, reflected, in-place and conversion operator), other than comparisons, hashing, truth tests, length hints and text conversion, first asks the proxy's own checker about that operation's own special-method name on the wrapped object. The wrapped object is not touched before the checker has agreed, and when the checker raises, the operation raises that error and the wrapped object is never touched; once the checker has agreed, the operation is performed once. This holds for the C and the pure-Python proxy alike, including operations a proxy merely inherits from its base type.",
     ['inputs', 'programs'], 'all operations, wrapped objects, operands and checkers, in both implementations',
     'The tests sample operators with a few objects and a recording checker; they cannot see an operation that is not in their list (nb_index was inherited unchecked), an operand position, or a path taken only for some operand.',
     ['proxy.py', '_proxy.c'],
     [('_check_name / __getattribute__', 'proxy.py'), ('check1/check2/check2i and the slot table', '_proxy.c')],
     [('proxy_checker / _checker', 'the checker that guards the wrapped object', '_proxy.c')],
     ['checker.check*', 'special methods of the wrapped object'])
prop('C02', 'Mutations through a proxy need their own permission',
     "Setting or deleting an attribute through a security proxy is performed only after the proxy's checker allowed setting that very name, never on the strength of a read permission; setting an item is performed only after the checker allowed `__setitem__`, and deleting an item only after it allowed `__delitem__`; what is allowed is done once. If the checker refuses, the wrapped object is unchanged and the refusal propagates. This holds for the C and the pure-Python proxy.",
     ['inputs', 'programs'], 'all wrapped objects, names, values and checkers, in both implementations',
     'Tests use one object and one name per operation; they do not establish that no path reaches the write without the write check.',
     ['proxy.py', '_proxy.c'],
     [('__setattr__/__delattr__', 'proxy.py'), ('proxy_setattro, proxy_setitem, check()', '_proxy.c')],
     observe=['checker.check_setattr', 'wrapped object mutation'])
prop('C03', 'Results of proxied operations are wrapped by the checker',
     "Whatever a permitted operation on a security proxy yields (attribute value, call result, item, iterator, next element, operator result) is handed to the caller only as the proxy's checker's own wrapping of that value, never raw. An in-place operator returns the very same proxy exactly when the wrapped object returned itself, and otherwise returns the checker's wrapping of the new value without altering the existing proxy. Only lengths, containment and truth answers, hash values and text are returned as they are. A permitted operation fails only with the error of the wrapped object's operation or of the checker's wrapping, never by itself. This holds in both implementations.",
     ['inputs', 'programs'], 'all operations, operands, results and checkers, in both implementations',
     "The tests' dummy checker returns the value itself from proxy(), so a result that is never wrapped looks the same; only a few sites use a marker.",
     ['proxy.py', '_proxy.c'],
     [('_check_name, _check_name_inplace', 'proxy.py'), ('PROXY_RESULT', '_proxy.c')],
     observe=['checker.proxy', 'return value of the operation'])
prop('C04', 'Unchecked proxy operations disclose no raw object',
     "Comparing, hashing and truth-testing a proxied object needs no permission and gives the wrapped object's own answer, and a comparison answer that is not a plain boolean is handed out only as the checker's wrapping of it. Text conversion uses the wrapped object's own text only if the checker allows `__str__` (or `__repr__` respectively); otherwise it produces a neutral text made only of the class's module and name and the object's address. A length hint likewise needs no permission: it is the wrapped object's own hint, or none when it has none, and an error raised on the way is not taken for a missing hint. None of these fails by itself. This holds in both implementations.",
     ['inputs'], 'all wrapped objects, operands and checkers, in both implementations',
     'Comparisons that return non-booleans and refused text conversion of unusual objects are not in the tests.',
     ['proxy.py', '_proxy.c'],
     [('rich comparison methods, __str__, __repr__', 'proxy.py'), ('proxy_richcompare, proxy_str, proxy_repr, default_repr', '_proxy.c')])
prop('C05', "A proxy's object and checker cannot be read or replaced from outside",
     "Code that only holds a security proxy cannot obtain the wrapped object or the checker as attributes of the proxy, nor set or delete them there: no attribute access on the proxy bypasses the checker. The pair is fixed when the proxy is created, for which a checker of None is refused. Only the dedicated functions (removeSecurityProxy/getObject, getChecker) yield the wrapped object or the checker, and removeSecurityProxy gives back unchanged anything that is not a security proxy.",
     ['inputs', 'programs'], 'all names and values used by holders of a proxy, in both implementations',
     'Tests try reading the two slots once; replacing them and re-initialisation were untested (replacing worked in pure Python).',
     ['proxy.py', '_proxy.c'],
     [('frame guard in __getattribute__/__setattr__', 'proxy.py'), ('type table without members/getset; proxy_new', '_proxy.c')])
prop('C06', 'Checker read decisions follow the permission table, closed by default',
     "A name-based checker asked about reading a name or performing an operation grants it only if: the permission recorded for the name is the public marker; or the current interaction answers true for exactly that permission and object; or no permission (or None) is recorded and the name is one of the always-available names; or the name is `__iter__`, nothing is recorded, and the object has no such attribute. A recorded permission the interaction denies raises Unauthorized carrying object, name and permission, and every other case raises ForbiddenAttribute carrying name and object; an error raised while deciding propagates and never grants. The public marker and the always-available names never consult the interaction, any other decision asks it at most once, and the C and Python checkers agree. A checker can be made with any dictionaries as its tables, also ones of a type derived from dict.",
     ['inputs', 'configurations'], 'all permission tables, names, objects and interactions, in both implementations',
     'Tests cover a handful of name/permission pairs; a None entry and an unencodable name behaved differently in C (granted / crashed) unnoticed.',
     ['checker.py', '_zope_security_checker.c'],
     [('CheckerPy.check', 'checker.py'), ('Checker_check_int, checkPermission', '_zope_security_checker.c')],
     [('get_permissions', 'name -> permission', 'checker.py')])
prop('C07', 'Checker write decisions use only the write table',
     "A name-based checker allows setting a name only if the permission recorded in its set-permissions (never in its read permissions) for that name is the public marker, or the current interaction, asked once, answers true for exactly that permission and object. A recorded permission that the interaction denies raises Unauthorized carrying object, name and permission; a name with no recorded write permission (or None) raises ForbiddenAttribute, whether or not it is readable or always available. The C and Python checkers agree.",
     ['inputs', 'configurations'], 'all permission tables, names, objects and interactions, in both implementations',
     'Tests cover a few tables; the quantifier is over every table, name and interaction.',
     ['checker.py', '_zope_security_checker.c'],
     [('CheckerPy.check_setattr', 'checker.py'), ('Checker_check_setattr', '_zope_security_checker.c')],
     [('set_permissions', 'name -> permission for writing', 'checker.py')])
prop('C08', 'A combined checker grants exactly the union of its two checkers',
     "A combined checker grants a read, operation or write exactly when its first checker grants it or, the first having refused with Unauthorized or ForbiddenAttribute, its second checker grants it; when the first grants, the second is not consulted. When both refuse, the result is Unauthorized if either refused with Unauthorized, and otherwise ForbiddenAttribute. Any other error propagates unchanged, and writes are decided by the write decisions of the two checkers only. The permission tables a combined checker shows are those of its first checker.",
     ['inputs'], 'all pairs of outcomes of the two checkers, for reads, operations and writes',
     'Tests enumerate some of the outcome pairs for one name, with stub checkers.',
     ['checker.py'], [('CombinedChecker.check/check_setattr', 'checker.py')])
prop('C09', 'Watching checkers never change a decision',
     "Turning on checker watching only reports: a watching checker grants a read, operation or write exactly when the same checker without watching would, raises the same Unauthorized or ForbiddenAttribute error otherwise, asks the underlying decision once with the same object and name, and wraps results the same way. Granted accesses are reported only at verbosity above one, refusals at verbosity one and above; an error that is no refusal is not reported, and a report names the attribute and the object. Watching is off unless the environment asks for it, by a number, the verbosity, or by another word, meaning verbosity one.",
     ['inputs', 'configurations'], 'all objects, names, decisions and verbosity levels',
     'The watch configuration of the test suite exercises a few decisions; it cannot exclude a swallowed refusal for other paths.',
     ['checker.py'], [('CheckerLoggingMixin, WatchingChecker, WatchingCombinedChecker', 'checker.py')])
prop('C10', 'Every value is wrapped with the right checker, closed by default',
     "When a checker wraps a value, a value that already is a security proxy is returned as is; otherwise the value's own declared checker is used if it has one, else the checker registered for the value's exact type, else the empty default checker that forbids everything but the always-available names. Only a value whose selected registration is the no-proxy marker, or a registered function answering the no-proxy marker or None, is returned unwrapped (the accelerated implementation also leaves every exception instance without a registration unwrapped). A registered function is called with the value itself until a checker results, and errors propagate without yielding the value.",
     ['inputs', 'configurations'], 'all values, registrations and declared checkers, in both implementations',
     'Tests use a few registered types; the quantifier is over every value and registry content.',
     ['checker.py', '_zope_security_checker.c'],
     [('CheckerPy.proxy, selectCheckerPy', 'checker.py'), ('Checker_proxy, selectChecker', '_zope_security_checker.c')],
     [('_checkers', 'type -> checker registry', 'checker.py')])
prop('C11', 'ProxyFactory never changes or stacks protection',
     "ProxyFactory given a security proxy returns that same proxy when no checker, or the proxy's own checker, is asked for, and raises TypeError for any other checker. Given anything else, it wraps it with the requested checker, or else with the object's own declared checker, or else with the checker selected for the object; it returns the bare object only when no checker was given or declared and none is selected.",
     ['inputs'], 'all objects and requested checkers', 'Tests exercise single instances of each case.',
     ['checker.py'], [('ProxyFactory', 'checker.py')])
prop('C12', 'canAccess and canWrite answer exactly what the checker decides',
     "canAccess answers true exactly when the object's checker allows reading the name and false exactly when it raises Unauthorized, and lets every other error out. canWrite answers true exactly when the checker allows setting the name and false when it raises Unauthorized, or when setting is forbidden but reading is not forbidden; when both are forbidden ForbiddenAttribute propagates, as do other errors. Both judge through the checker of the object's proxy (creating one if needed) and never perform the access itself.",
     ['inputs'], 'all objects, names and checker outcomes', 'Tests cover selected outcome combinations.',
     ['checker.py'], [('canAccess, canWrite', 'checker.py')])
prop('C13', 'Interactions start, end and restore in a strict life cycle',
     "newInteraction raises ExistingInteraction and changes nothing if the thread already has a current interaction, and otherwise makes the current security policy's interaction for exactly the given participations current. endInteraction leaves the thread without a current interaction and remembers the one it ended, forgetting any earlier remembered one when there was none; restoreInteraction makes the remembered interaction (or none) current again. queryInteraction and getInteraction never change anything and return the current interaction, or None or NoInteraction respectively without one. Resetting the framework leaves the thread without a current interaction.",
     ['histories'], 'all sequences of the five operations from every reachable thread state',
     'Tests run a few fixed sequences.',
     ['management.py'], [('newInteraction, endInteraction, restoreInteraction, queryInteraction, getInteraction', 'management.py')],
     [('thread_local.interaction / previous_interaction', 'current and remembered interaction', '_definitions.py')])
prop('C14', 'Interaction state is strictly per thread and always read afresh',
     "The current and the remembered interaction belong to one thread: no operation in one thread changes or reveals another thread's, and code outside the interaction management functions never sets or removes them. Each permission decision uses the interaction that is current in the deciding thread at that moment, never one remembered from an earlier decision or import, and permission answers are not cached by the framework. Without a current interaction, a check that needs one fails with an error and never grants.",
     ['schedules', 'histories'], 'all interleavings of threads and all histories of interactions',
     'Tests use a single thread almost everywhere; the quantifier is over schedules.',
     ['_definitions.py', 'management.py', 'checker.py', 'simplepolicies.py', '_zope_security_checker.c'],
     [('thread_local', '_definitions.py'), ('checkPermission', '_zope_security_checker.c')])
prop('C15', 'checkPermission asks the right interaction, and public is always allowed',
     "The management-level checkPermission returns true for the public marker and for None without consulting any interaction. For every other permission it returns the answer of the interaction passed in, or when none is passed of the thread's current one, for exactly that permission and object; when there is neither, it raises NoInteraction.",
     ['inputs'], 'all permissions, objects and interactions', 'Tests cover single instances.',
     ['management.py'], [('checkPermission', 'management.py')])
prop('C16', 'The paranoid policy denies everyone but the system user',
     "Under the default (paranoid) policy, an interaction allows a non-public permission exactly when none of its participations has a principal other than the one system user, judged by identity, and public access always; the permission id and object make no difference otherwise. The permissive policy allows everything. The paranoid policy is the default and is restored when the framework is reset.",
     ['inputs', 'histories'], 'all participations, principals, permissions and objects',
     'Tests cover zero, one and two participations with fixed principals.',
     ['simplepolicies.py', 'management.py'], [('ParanoidSecurityPolicy, PermissiveSecurityPolicy', 'simplepolicies.py')])
prop('C17', 'A participation belongs to at most one interaction',
     "Adding a participation that already belongs to an interaction raises ValueError and changes nothing; otherwise it becomes a member of this interaction and refers to it. Removing a participation that does not refer to this interaction raises ValueError and changes nothing; otherwise it is no longer a member and refers to no interaction, so it may be added again. An interaction created for participations contains each of them, added in order under the same rule.",
     ['histories'], 'all sequences of adding and removing participations', 'Tests run a few fixed sequences.',
     ['simplepolicies.py'], [('ParanoidSecurityPolicy.add/remove/__init__', 'simplepolicies.py')])
prop('C18', 'The security policy is a single replaceable setting',
     "setSecurityPolicy makes its argument the policy that later new interactions use and returns the policy it replaced; getSecurityPolicy returns the policy last set. Nothing but setSecurityPolicy and the test reset changes it, the ZCML directive for the security policy does so only through a configuration action with the policy's fixed conflict discriminator, and new interactions read it when they are created.",
     ['histories'], 'all sequences of policy settings and new interactions', 'Tests run a few sequences.',
     ['management.py', 'zcml.py'], [('getSecurityPolicy/setSecurityPolicy', 'management.py'), ('securityPolicy', 'zcml.py')])
prop('C19', 'Trusted adapters see bare objects and come back protected',
     "A trusted adapter factory, if any of its arguments is security-proxied, calls the adapter factory with every argument unproxied, in order, and returns the adapter only as wrapped by ProxyFactory; if no argument is proxied it calls the factory with the arguments as they are and returns the adapter without a security proxy. A trusted factory never returns an unprotected adapter built from a proxied argument; the untrusted locating factory never removes a proxy from its arguments.",
     ['inputs'], 'all argument counts, positions of proxied arguments, and adapters', 'Tests use one or two arguments with the proxy in fixed positions.',
     ['adapter.py'], [('LocatingTrustedAdapterFactory.__call__', 'adapter.py')])
prop('C20', 'Adapters get a parent without losing the one they have',
     "The locating factories give an adapter that is not locatable a location proxy whose parent is the first adapted object, and set the parent of a locatable adapter to that object only if its parent is None; an existing parent is never replaced. The non-locating trusted factory, and the locating trusted factory for unprotected arguments, never location-proxy and set the parent only of locatable adapters whose parent is None. Under a trusted factory with proxied arguments the parent is the unproxied object.",
     ['inputs'], 'all adapters and contexts', 'Tests cover selected combinations.',
     ['adapter.py'], [('assertLocation, _customizeProtected, _customizeUnprotected', 'adapter.py')])
prop('C21', 'Class protections record exactly what was declared',
     "Protecting a name of a class records the given permission for exactly that name in the read table of the class's registered checker (or, for attribute setting, in its write table), the public permission id being recorded as the public marker; a checker is created and registered, with both tables empty, only if the class has none. Copying the protection of another class records all of that class's read and write entries in the respective tables and does nothing if that class has no checker. No other entry of any table changes, and the read table is never touched by a write protection or the other way round.",
     ['inputs', 'histories'], 'all classes, names, permissions and registry states', 'Tests cover a few classes and names.',
     ['protectclass.py'], [('protectName, protectSetAttribute, protectLikeUnto', 'protectclass.py')])
prop('C22', 'Class directives protect every name they cover',
     "The class directive's require declares, through configuration actions carrying the given permission and that class: read protection for each listed attribute and for each name (inherited ones included) of each listed interface; write protection for each listed set-attribute and for each field of each listed schema that is not read-only; and, for a like-class, that class's protections. allow does the same for attributes and interfaces with the public permission. Without anything to protect, or without a permission for it, a configuration error is raised; each protection's discriminator names the kind of protection, class and name, and nothing else that could tell conflicting declarations apart, so that these collide, while declaring copies of protections never collides. Every interface or schema named in a declaration is registered as an interface. implements declares the class to implement each listed interface, without ever colliding, and factory registers one factory that makes instances of that class, with the given title and description, under the given id or else the dotted name of the class, usable without a permission.",
     ['inputs', 'configurations'], 'all combinations of directive arguments', 'Tests check selected combinations.',
     ['metaconfigure.py'], [('ClassDirective', 'metaconfigure.py')])
prop('C23', 'Module directives protect every name they cover',
     "Module protection records the given permission (the public id as the public marker) for exactly the given name in the read table of the module's registered checker, creating and registering an empty one only if there is none. The module require and allow directives declare such protection, for each listed attribute and each name of each listed interface exactly once, with the given permission for require and the public permission for allow; each declaration's discriminator names the module and the name but not the permission, so that conflicting declarations collide. The checker registered for a module is the one its proxies get, and the one moduleChecker answers.",
     ['inputs', 'configurations'], 'all modules, attribute lists and interfaces', 'Tests check selected lists.',
     ['metaconfigure.py'], [('protectModule, allow, require, _names', 'metaconfigure.py')])
prop('C24', 'Configured permissions must exist, and redefinition maps them',
     "A permission used in configuration, unless it is the public permission id, is checked at the end of configuration to be a registered permission, an undefined one raising ValueError; the public marker always passes. Values that are not valid ids are rejected first. A redefined permission is replaced by its substitute when read from configuration text, other permissions being unchanged, and defining a permission registers exactly that permission under its id.",
     ['inputs', 'configurations'], 'all permission values and mappings', 'Tests check single values.',
     ['zcml.py', 'permission.py'], [('Permission field', 'zcml.py'), ('checkPermission', 'permission.py'), ('redefinePermission', 'zcml.py')])
prop('C25', 'Permission listings are complete and keep the public one apart',
     "The list of all permissions yields the id of every registered permission except the public one. The permissions vocabulary has one term per registered permission with the permission as value and its id as token; the permission-ids vocabulary has one term per registered permission, the public id appearing first with the public marker as its value and 'Public' as its title, and the others following with their id as value and title, sorted by title.",
     ['inputs', 'configurations'], 'all sets of registered permissions', 'Tests use small fixed sets.',
     ['permission.py'], [('allPermissions, PermissionsVocabulary, PermissionIdsVocabulary', 'permission.py')])
prop('C26', 'The checker registry changes only as asked, and resets to the defaults',
     "Defining a checker for a type or module that already has one raises DuplicationError and for anything that is not a type or module raises TypeError, changing nothing in either case; otherwise exactly that entry is added. Undefining removes exactly that entry, lookups for instances or modules change nothing, and resetting leaves exactly the default and basic-type entries. The basic-types table cannot be cleared, and every entry set in it by item assignment or update, or removed by item deletion, is set or removed in the registry too.",
     ['histories'], 'all sequences of registry operations', 'Tests run a few sequences.',
     ['checker.py'], [('defineChecker, undefineChecker, _clear, _BasicTypes', 'checker.py')],
     [('_checkers', 'registry', 'checker.py')])
prop('C27', 'Default protections expose no way to mutate containers',
     "Out of the box, only immutable basic values, messages, interface specifications and security proxies themselves are left unwrapped. The default checkers of the built-in containers, iterators, callables, types and modules grant no operation that changes the object or hands out its internals (such as item or attribute assignment, in-place operators, append, update, pop, `__dict__`, `__code__`, `__globals__`), and grant none by a permission other than public and no attribute setting at all; nor do those of interfaces and declarations grant item or attribute assignment, in-place operators or `__dict__`. The names available without any declaration are only comparison, hash, truth, class, interface-support, repr, name and parent names.",
     ['inputs', 'configurations'], 'all types in the default tables and all names', 'Tests probe some types with some names.',
     ['checker.py'], [('_default_checkers, BasicTypes, _available_by_default', 'checker.py')])
prop('C40', 'Default protections leave reading open',
     "Without any declaration, reading works through proxies: dictionaries, lists, tuples, sets and frozensets (through their default checkers) allow lookup, length, iteration, membership, string conversion and their other non-changing methods and operators; dictionary views, the iterators of all of these, ordered-dictionary views and iterators, generators, the itertools iterators and the views and iterators of BTrees can be iterated; functions, methods, built-in functions and methods and method wrappers can be called; interfaces and interface declarations answer what they specify; classes show their name, module, bases and resolution order; weak references can be called; decimals compute; basic values (numbers, strings, bytes, booleans, None, date and time values, the UTC time zone, messages, what an object provides) are handed out unwrapped. On every proxied object comparison, hash, truth, class, interface support, repr, name and parent are available.",
     ['inputs', 'configurations'], 'all types and operations named', 'Tests try some operations of some types; a name dropped from a table fails only for users of that operation.',
     ['checker.py'], [('_default_checkers, BasicTypes, _available_by_default', 'checker.py')])
prop('C28', 'Checker builders give each name exactly its declared permission',
     "A checker built from names gives each of the names the given permission and each keyword name its own; one built from an interface does so for all names of the interface including inherited ones; one built from several specifications does so for each specification, an interface standing for all its names. A name declared twice with different permissions raises DuplicationError instead of either winning, no other name is granted, and none is made settable.",
     ['inputs'], 'all names, interfaces, permissions and specifications', 'Tests check a few specifications.',
     ['checker.py'], [('NamesChecker, InterfaceChecker, MultiChecker', 'checker.py')])
prop('C29', 'Decorators add to protection and never replace it',
     "The checker of a decorated object (including a location-proxied one) combines the decorator's own checker, which comes first, with the checker of the decorated object, which is the security proxy's if it is one, else its declared one, else the one selected for it; with only one of the two existing that one is used, and with neither there is none. It cannot be set on the decorator. Location proxies get this checker as soon as the proxy module is imported.",
     ['inputs'], 'all decorated objects and decorator types', 'Tests check selected combinations.',
     ['decorator.py'], [('DecoratedSecurityCheckerDescriptor', 'decorator.py')])
prop('C30', 'The testing interaction context always cleans up',
     "The testing interaction context manager, when no interaction is current, starts one with exactly one participation of a principal with the given id and details, which it hands to the block, and ends it on every exit from the block, by error included, letting errors through; when one is current it neither starts nor ends any.",
     ['histories', 'fault_sequences'], 'all block outcomes and prior interaction states', 'Tests run one normal and one failing block.',
     ['testing.py'], [('interaction, create_interaction', 'testing.py')])
prop('C44', 'Permissions and test stand-ins are made as asked',
     "A permission object has the given id, and the given title and description, empty unless given. A test principal has the given id, the given title (its id without one), the given description (empty without one) and exactly the given groups, and claims to be group-aware exactly when groups are given. The function that creates a test interaction makes such a principal from the id and whatever details are given, starts one interaction with exactly one free participation of that principal, and returns it. Adding the public permission registers a permission with the public id as a global IPermission utility under that very id and returns it. The system principal keeps its fixed id and title.",
     ['inputs'], 'all ids, titles, descriptions and groups, given or left out', 'Tests make principals with a few details and rarely look at those left out.',
     ['testing.py', 'permission.py', '_definitions.py'], [('Principal, Participation, create_interaction, addCheckerPublic', 'testing.py'), ('Permission', 'permission.py'), ('SystemUser', '_definitions.py')])
prop('C31', 'The C extensions own their references and report their errors',
     "On every path through the C extension functions, every reference obtained is released, returned or stored exactly once and nothing borrowed is released or returned as owned; no possibly-null result is dereferenced; and a function reports failure exactly when a Python error is set. No attribute name, value, checker or interaction behaviour can make the extensions crash or lose an error. Module initialisation that fails half-way may keep what it had acquired.",
     ['inputs', 'fault_sequences'], 'all inputs and all failures of the Python C API calls made',
     'Tests make no API call fail and count no references; lone-surrogate names and non-string class names crashed unnoticed.',
     ['_proxy.c', '_zope_security_checker.c'], [('all functions', '_proxy.c'), ('all functions', '_zope_security_checker.c')])
prop('C32', 'C objects hold, reveal and release exactly what they reference',
     "Creating a C proxy or checker takes a reference to each object it stores; the cyclic garbage collector is told of every stored reference, and its visitor's answer is passed on; and when the object is finalised it is untracked first, each stored reference is released exactly once and the memory is freed.",
     ['programs', 'histories'], 'all object life cycles', 'Tests do not observe the collector.',
     ['_proxy.c', '_zope_security_checker.c'], [('proxy_new, proxy_traverse, proxy_clear, proxy_dealloc', '_proxy.c'), ('Checker_init, Checker_traverse, Checker_clear, Checker_dealloc', '_zope_security_checker.c')])
prop('C33', 'One implementation is used consistently everywhere',
     "With pure-Python mode requested (PURE_PYTHON set and not 0), no accelerated object is used; otherwise, where the accelerators are available, proxies, checkers, the registry, the no-proxy marker, the default checker and the always-available names all come from the accelerators, and the two accelerators and the Python layer share the very same registry, markers, proxy type and thread state. Where they are missing, the Python implementations take their place and the package still works. Mode is decided by the environment at import only.",
     ['configurations'], 'all environment settings', 'Each test run has one configuration, and does not check where the objects come from.',
     ['_compat.py', 'proxy.py', 'checker.py', '_zope_security_checker.c'], [('_c_available blocks', 'proxy.py'), ('_c_available blocks', 'checker.py'), ('PyInit', '_zope_security_checker.c')])
prop('C34', 'The library removes protection only at its declared trusted points',
     "Apart from the functions whose documented purpose is to remove a security proxy, the library itself unwraps a security proxy only to test its type, to adapt with trusted adapters, and to perform a checked operation; in none of these is the bare object returned to a caller that passed in a proxy. The proxy-aware isinstance answers by the class of the wrapped object.",
     ['programs'], 'all functions of the library', 'A new unwrapping call site is invisible to existing tests.',
     ['proxy.py', 'adapter.py', 'decorator.py', 'checker.py'], [('removeSecurityProxy, isinstance', 'proxy.py')])
prop('C35', 'The public marker is one proxied object that keeps its identity',
     "The public marker is a single security-proxied object whose only accessible names beyond the always-available ones are those needed to pickle it by name, so that wrapping it or passing it through proxies gives the same object; every part of the framework, C code included, recognises public access by identity with it.",
     ['programs'], 'all modules that compare with the marker', 'Tests check identity at single points.',
     ['checker.py', '_zope_security_checker.c'], [('CheckerPublic, Global', 'checker.py')])
prop('C41', 'Refusals can be told apart and are not mistaken for other errors',
     "Unauthorized (the permission is missing) and Forbidden (no permission would do) are unrelated errors, so that handling one never handles the other, and neither is a kind of any other built-in error than Exception; in particular an Unauthorized access is never mistaken for a missing attribute, key or item. ForbiddenAttribute is a Forbidden and an AttributeError and nothing else, so that a forbidden name looks like a missing one to hasattr and getattr. The error for a missing interaction is neither, and so is the one for an existing interaction. The interfaces of the errors are related like the errors.",
     ['programs'], 'all code that handles refusals', 'Tests catch single errors; what else an error is an instance of shows only in handlers they do not have.',
     ['interfaces.py', 'management.py'], [('Unauthorized, Forbidden, ForbiddenAttribute, NoInteraction', 'interfaces.py')])
prop('C42', 'Configuration directives carry what they are documented to carry',
     "Every configuration directive of the package (`permission`, `securityPolicy`, `redefinePermission`, `class` with `implements`, `require`, `allow` and `factory`, `module`, and `require` and `allow` for modules) exists under its name and namespace, is carried out by the function that implements it, and accepts and hands on every attribute that function understands, under that function's parameter name: an attribute without which the directive means nothing cannot be left out (class, module, component, the interfaces of `implements`, the permission of a module's `require`, the id and title of a permission, both ids of a redefinition), any other can, and then means nothing. A permission attribute refers to a defined permission (or the public one), so that naming an undefined one is an error and redefinitions apply; the id of a new permission is a plain id; listed names are identifiers, listed interfaces are interfaces, classes, modules and components are global objects, titles and descriptions are translatable messages. The configuration shipped with the package includes what it uses before using it, defines the standard permissions (zope.Public, zope.View, zope.Security, zope.ManageContent, zope.ManageServices, zope.ManageSite), each once and with a title of its own, registers the vocabularies of permissions and of permission ids under their names, and makes the attributes of permissions public.",
     ['configurations', 'programs'], 'all configuration documents using the directives', 'Tests load a few documents; a field that is missing, misspelt or of another kind shows only in documents that use it (the interface attribute of a module require could not be given at all).',
     ['meta.zcml', 'metadirectives.py', 'zcml.py', 'metaconfigure.py', 'configure.zcml', 'permissions.zcml'], [('the directives of the zope and meta namespaces', 'meta.zcml'), ('the schemas of the directives', 'metadirectives.py')])
prop('C43', 'Components provide what they are declared to provide',
     "The package's components are declared to provide the interfaces that code tells them apart and looks them up by: name-based checkers, Python, C and watching ones, INameBasedChecker and so IChecker; combined checkers IChecker; ProxyFactory ISecurityProxyFactory; zope.security.management ISecurityManagement and IInteractionManagement; both security policies ISecurityPolicy, and the interactions they make IInteraction; permissions IPermission; the system principal ISystemPrincipal; Unauthorized, Forbidden and ForbiddenAttribute the interfaces named after them; the test principal and participation IPrincipal and IParticipation; both permission vocabularies IVocabularyFactory. Whatever is declared to provide an interface of the package has every attribute the interface names, from its creation on, and every method, callable with the arguments the interface states, the optional ones being optional; so has checkPermission, whose interaction, like ProxyFactory's checker, can be given by name. The interfaces keep asking for what they are documented to ask for, since declarations of protection by interface cover the names they have.",
     ['programs'], 'all code that uses components through their interfaces', 'Tests verify some components against some interfaces, not declarations, not all configurations, and not the contents of the interfaces.',
     ['interfaces.py', 'checker.py', 'management.py', 'simplepolicies.py', 'permission.py', '_definitions.py', 'testing.py', '_zope_security_checker.c'], [('implementer, provider, directlyProvides and moduleProvides declarations', 'checker.py'), ('the interfaces', 'interfaces.py')])
# --- stated, not decided statically -----------------------------------
prop('C36', 'Untrusted code holding only proxies cannot reach raw objects',
     "A program that starts with only proxied objects and basic values, and has no trusted functions, can never obtain an unproxied reference to a protected object through any sequence of permitted operations.",
     ['programs', 'histories'], 'all untrusted programs', 'Tests run single programs.',
     ['proxy.py', 'checker.py', '_proxy.c'], [('proxies and checkers as a whole', 'checker.py')])
prop('C37', 'Pickling a public marker or interface class round-trips',
     "Pickling and unpickling the public marker, alone or inside other objects, yields the identical marker, with every pickle protocol and in both implementations.",
     ['inputs', 'configurations'], 'all protocols and containers', 'Tests use one protocol.',
     ['checker.py', 'proxy.py'], [('Global.__reduce__', 'checker.py')])
prop('C38', 'Registry use from several threads is linearizable',
     "Concurrent definitions, removals and lookups of checkers behave as if performed one after another, a lookup never seeing a partial update.",
     ['schedules'], 'all interleavings', 'Tests are single-threaded.',
     ['checker.py'], [('_checkers', 'checker.py')])
prop('C39', 'ZCML and direct declarations yield the same effective protection',
     "For every ZCML document, executing it yields the same effective read and write decisions as making the equivalent declarations directly, whatever the order, inclusion structure and overrides.",
     ['configurations'], 'all ZCML documents', 'Tests load a few documents.',
     ['metaconfigure.py', 'zcml.py'], [('directives', 'metaconfigure.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
