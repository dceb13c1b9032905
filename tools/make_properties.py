#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

B = 'properties/base/base.py'
C = 'properties/base/containers.py'
H = 'properties/handlers.py'
BA = 'properties/basic.py'
I = 'properties/base/instance.py'
U = 'properties/base/union.py'
L = 'properties/link.py'
UID = 'properties/extras/uid.py'
SG = 'properties/extras/singleton.py'
TK = 'properties/extras/task.py'
IM = 'properties/images.py'
MA = 'properties/math.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))


prop('C01', 'A rejected or interrupted assignment leaves no trace',
     'When setting, deleting or resetting a property (or mutating an observed container) is rejected by type '
     'validation or stopped by any exception raised in a validator, every property of the object keeps exactly the '
     'value it had and no observer is notified of the rejected change, and the exception reaches the caller. When the '
     'exception is raised by an observer, the new value is fully in place; in neither case is any later operation on '
     'the object affected.',
     ('histories', 'fault_sequences', 'crash_points'),
     'every history of set/del/reset/mutate operations, every exception type, raised at every callback boundary',
     'Tests make one rejected assignment at a time and look at that value; they never interrupt the n-th listener of a '
     'nested assignment with KeyboardInterrupt and keep using the object.',
     [B, BA, C], [('validate, then store, then notify', B + ':HasProperties._set'),
                  ('setter validates before storing', BA + ':Property.get_property'),
                  ('copy, mutate, assign', C + ':properties_mutator')],
     [('stored values', 'the per-object property values', B + ':HasProperties')],
     ['attribute reads of every property after every operation', 'recorded notifications', 'exception that escapes'])

prop('C02', 'Each accepted assignment notifies every listener exactly once and in order',
     'An accepted set or delete calls each registered set-validator of that property once before the value is stored, '
     'then, only if the value changed under that property\'s equality, each change-only observer, then each observer; '
     'within each group in registration order (base class first, then subclass, then per-instance). Every call receives '
     'the property name, the previous value, the value about to be or just stored (undefined when absent) and the mode, '
     'a substitution made by a validator is what is stored and reported, and nested assignments made by listeners are '
     'delivered completely before the outer one continues; initial defaults notify nobody.',
     ('histories', 'schedules', 'configurations'),
     'every listener configuration (class, inherited, per-instance, several names, everything), every re-entrant '
     'interleaving of listener-triggered assignments',
     'Tests register one or two listeners and count calls; order, re-entrancy, substitution chains and change-only '
     'decisions over long histories are not sampled.',
     [B, H], [('three notification phases', B + ':HasProperties._set'),
              ('listener registry', H + ':_set_listener, _get_listeners'),
              ('inherited listeners', B + ':build_from_bases')],
     [('listeners per object', 'listeners by property and mode', H)],
     ['order and arguments of every listener call, and the value readable during it'])

prop('C03', 'A property only ever holds a valid value in its coerced form',
     'After any history of constructor arguments, assignments, deletions, resets and observed-container mutations, with '
     'callbacks failing at any point, each property reads None or a value in its declared domain (type, bounds, case, '
     'choice, item types) in coerced form, namely the coercion of the last accepted input. Input outside the domain is '
     'rejected with ValueError and input inside it is accepted.',
     ('histories', 'inputs', 'fault_sequences'),
     'every property type in the zoo, nested to depth 3, every mix of valid, coercible and invalid inputs',
     'Tests check single assignments per type; that no path (constructor, reset, in-place operators, nested container, '
     'interrupted assignment) can smuggle in an unvalidated value is a statement over histories.',
     [BA, C, I, U, B], [('Property.validate of each type', BA), ('item validation', C + ':Tuple.validate'),
                        ('validate on every set', BA + ':Property.get_property')],
     (), ['attribute reads compared with an independent model of each domain'])

prop('C04', 'Disabling listeners is exactly scoped, on every exit path and thread',
     'A listener of a given kind is silent for an assignment if and only if that assignment runs in a thread with at '
     'least one open disabling context covering that kind, however contexts are nested, re-entered, reused, interleaved '
     'or left (normally or by any exception). Loading a document notifies no observer. Constructing or deserializing an object, successfully or not, leaves the '
     'set of disabled kinds as it was and never silences other threads, and disabling never turns off type validation.',
     ('histories', 'fault_sequences', 'schedules'),
     'every sequence of context enters and exits (including out of order), every exception at every point in a scope, '
     'every thread interleaving',
     'Tests enter one context and leave it normally; leaked or lost suppression needs exceptions inside constructors or '
     'factories, out-of-order exits or a second thread.',
     [H, B], [('disabling contexts', H + ':listeners_disabled'), ('silent defaults', B + ':PropertyMetaclass.__call__'),
              ('silent loading', B + ':HasProperties.deserialize')],
     [('disabled kinds', 'count of open contexts per kind, per thread', H)],
     ['which listeners fire on probe assignments after every step'])

prop('C05', 'validate() tells the truth about the whole object graph and recovers',
     'validate() on an object returns True exactly when every required property reachable from it is set, every held '
     'value (container lengths and items included) is valid, and every class validator reachable through instance '
     'properties passes; otherwise it raises, a ValidationError reporting every failing property of the object if any '
     'failure is one, delivered to the object\'s error hook exactly once. It terminates on shared and cyclic graphs, '
     'changes no value, and after any exception raised inside a validator the next call gives the true answer again.',
     ('histories', 'inputs', 'fault_sequences'),
     'every object graph (trees, sharing, cycles), every pattern of missing or stale-invalid values, every validator fault',
     'Tests validate small trees once; recovery after interrupted validation, mutation under the hood of unobserved '
     'containers and cyclic graphs with several simultaneous failures are not sampled.',
     [B, C, I, U, BA], [('re-entrancy guard and error collection', B + ':HasProperties.validate'),
                        ('per-property check', B + ':HasProperties._validate_props'),
                        ('recursion into instances', I + ':Instance.assert_valid'),
                        ('length and item checks', C + ':Tuple.assert_valid')],
     [('validation in progress', 'guard against recursion', B)],
     ['result or exception of validate()', 'error hook calls', 'values before and after'])

prop('C06', 'Persisted state survives a crash and restart unchanged',
     'For every object built from JSON-representable property types, serialize() yields a document that json can dump '
     'and load, and deserializing that document in a fresh world yields an object of the same class whose every set '
     'property equals the original (date-times to the second), with unset properties at their default and serializing '
     'to the same document again. The document shares no mutable state with the object, and neither serializing nor a '
     'failed attempt at it changes the object.',
     ('histories', 'crash_points', 'inputs'),
     'every history of assignments, crash after any prefix, every nesting of property types, subclasses via the registry',
     'Tests round-trip one hand-written value per type; combinations (Union of containers of instances, dynamic and '
     'renamed properties, custom serializers) over histories with a restart are not covered.',
     [B, BA, C, I, U, MA], [('document construction', B + ':HasProperties.serialize'),
                            ('loading', B + ':HasProperties.deserialize'),
                            ('per-type converters', BA + ':to_json/from_json'),
                            ('class lookup', B + ':HasProperties._deserialize_class')],
     (), ['document bytes', 'object loaded after the simulated restart', 'originals after mutation of either side'])

prop('C07', 'Damaged documents are rejected or load validly, with no side effects',
     'Deserializing any damaged, truncated or mistyped document either raises or returns an instance of the permitted '
     'class in which every property holds None or a valid value; it never modifies the input document, other objects or '
     'whether listeners fire, and the undamaged document loads afterwards. With strict, unknown keys and class '
     'mismatches always raise; without trusted the class named in the document is never instantiated in place of the '
     'requested one; with assert_valid nothing invalid is returned.',
     ('inputs', 'fault_sequences', 'configurations'),
     'every corruption of a stored document (bit flips in values, dropped/added/retyped keys, truncation, class swaps) '
     'and every fault in custom deserializers, for all flag combinations',
     'Tests feed a few malformed inputs; corruption deep inside nested documents and recovery after it are not sampled.',
     [B, I, C, U, SG, UID], [('class selection and strictness', B + ':HasProperties.deserialize'),
                             ('validation while loading', B + ':HasProperties.__init__')],
     (), ['outcome', 'input document compared before and after', 'probe objects and listeners', 'class of the result'])

prop('C08', 'serialize, equal and copy terminate on any graph and recover after failure',
     'serialize(), equal() and copy() terminate on every object graph: a document is produced unless a cycle of '
     'references is reachable, in which case SelfReferenceError is raised; equal() is True exactly for the same object or for equal, '
     'non-self-referential values of the same class; and copy() returns a distinct equal object. After any of them '
     'fails or is interrupted by an exception in user code, repeating the operation gives the result it would have '
     'given without the failure.',
     ('inputs', 'fault_sequences', 'crash_points'),
     'every graph with sharing and cycles, every exception at every serializer, getter and equality callback',
     'Tests check one self-reference; a guard flag leaked on an exception path turns every later call into a wrong '
     'answer, which needs a failing callback followed by a retry.',
     [B, I, C], [('recursion guards', B + ':HasProperties.serialize, equal'), ('copy', B + ':copy')],
     [('serialize/equality in progress', 'recursion guards on the object', B)],
     ['results on the damaged world versus an untouched twin'])

prop('C09', 'Each uid denotes at most one object, and a failed claim is released',
     'Two distinct live HasUID objects of one registry never hold the same uid, and once an object is constructed, '
     'loading its uid returns that object. A construction, rename or claim that fails at any point changes no other '
     'object\'s registration and leaves the uid available, so that retrying with correct input succeeds.',
     ('histories', 'fault_sequences'),
     'every history of constructions, renames, deletions and failures (invalid arguments, taken uids, failing listeners)',
     'Tests construct a handful of objects successfully; a uid leaked by a constructor that fails after claiming it '
     'shows only on retry.',
     [UID], [('uniqueness check', UID + ':HasUID._ensure_unique'), ('registration', UID + ':HasUID.__init__, _update_instances')],
     [('instances by uid', 'registry of live objects', UID)],
     ['uid of every object', 'load(uid)', 'outcome of retried constructions'])

prop('C10', 'HasUID graphs persist and reload with identity, sharing and cycles intact',
     'Serializing a HasUID object yields a flat JSON document with exactly one entry per reachable HasUID object, and '
     'loading it into an empty registry rebuilds an isomorphic graph: same classes and values, one object per uid, '
     'shared references shared and cycles closed, each registered under its uid and under no other. A load that fails '
     '(missing or invalid entries, uid taken, failing callbacks, failing assert_valid) registers nothing, leaves the '
     'document and existing objects untouched, and the corrected document then loads.',
     ('inputs', 'histories', 'fault_sequences', 'crash_points'),
     'every reference graph over a few classes, every damaged entry, every crash point during loading',
     'Tests load two fixed graphs; sharing (one child referenced twice), failure half-way and retry are not covered.',
     [UID, B, I], [('flat document', UID + ':HasUID.serialize'), ('loading with a registry', UID + ':HasUID.deserialize'),
                   ('pointers', UID + ':Pointer')],
     [('instances by uid', 'registry of live objects', UID)],
     ['graph isomorphism after restart', 'load(uid) for every uid', 'retry after failure'])

prop('C11', 'A singleton name denotes one object at all times',
     'At any time, under any interleaving of constructions and loads in any number of threads and re-entrantly, every '
     'successful construction or load of a given name in one registry returns the same object, fully initialized. A '
     'construction or load that fails registers nothing, so retrying builds a new object, and a document saved from a '
     'singleton restores the same name and values after a restart without modifying the document.',
     ('schedules', 'histories', 'fault_sequences', 'crash_points'),
     'every thread interleaving at line granularity, every failure during construction, re-entrant construction, restart',
     'Tests create singletons sequentially and successfully; two threads racing on first construction are never run.',
     [SG], [('registry lookup', SG + ':SingletonMetaclass.__call__'), ('persisted identity', SG + ':Singleton.serialize, deserialize')],
     [('singletons by name', 'registry', SG)],
     ['identity of every returned object', 'documents', 'registry contents after failures'])

prop('C12', 'Linked properties follow their source, and a failed update never wedges a link',
     'While a link is active every accepted change of a source value (every set, if not change-only) reaches each '
     'linked target once, transformed by the link\'s transform, and no cycle of links loops or leaves joined properties '
     'unequal; an unlinked link transfers nothing and relinking resumes from the next change. If a target rejects a '
     'value or a transform or listener raises, the error reaches the caller, and the link keeps working for later '
     'changes; a link whose construction fails links nothing.',
     ('histories', 'fault_sequences', 'schedules'),
     'every topology of directional and bidirectional links over up to 5 objects (properties and traitlets), every '
     'history of changes, unlink/relink, and faults in transforms, validators and observers',
     'Tests link two or three objects and make one change; a link left "updating" after a rejected transfer only shows '
     'on the change after the failure.',
     [L], [('transfer with re-entrancy guard', L + ':directional_link._update'), ('all pairs', L + ':link'),
           ('unlink and relink', L + ':directional_link.unlink, relink')],
     [('updating / unlinked', 'link state', L)],
     ['values of all linked properties after each change', 'notification counts on targets'])

prop('C13', 'Observed containers behave like builtins, each mutation one assignment',
     'A list, set or dict held by a property that observes mutations gives for every method and operator the same '
     'result or exception and leaves the same contents as the builtin (with items in coerced form), and every method '
     'call that mutates it is exactly one validated, notified assignment of that property on that object, whose previous '
     'value is unchanged by it. A mutation whose result is rejected leaves the property and container as they were '
     'and still observed; a container no longer held, or a copy, is plain and never affects any object.',
     ('histories', 'inputs', 'fault_sequences'),
     'every sequence of container methods and operators, aliases to current and past containers, rejected items and '
     'failing listeners at every point',
     'Tests call each mutator once on a fresh container; aliasing of in-place operators, rejected mutations and '
     'replaced containers are not sampled.',
     [C], [('copy, mutate, assign if still held', C + ':properties_mutator'), ('operators keep the class', C + ':properties_operator'),
           ('attachment', C + ':observable_copy')],
     [('attachment', 'object and property name a container belongs to', C)],
     ['results and contents against a builtin twin', 'notifications per call', 'reads of the property'])

prop('C14', 'Defaults are right, silent, fresh per object, and survive failing factories',
     'A new object has for every property not given the nearest default (class-level override before the property\'s '
     'own, subclass before base), coerced, with callable defaults called afresh once for each object and no mutable '
     'default value of a container shared between objects; applying them notifies nobody. Resetting a property is an '
     'ordinary notified assignment of that default, and if a default factory fails, the error propagates and all later '
     'constructions and notifications behave as if the failed one had not happened.',
     ('histories', 'fault_sequences', 'configurations'),
     'every arrangement of defaults over a class hierarchy, every factory failure at every position, every later history',
     'Tests check one default per class; factories that fail the n-th time and sharing between instances across '
     'histories are not covered.',
     [B, BA], [('defaults applied silently', B + ':PropertyMetaclass.__call__'), ('default lookup', B + ':HasProperties._reset'),
               ('inherited overrides', B + ':PropertyMetaclass.__new__')],
     [('class defaults', 'overrides by property name', B)],
     ['property reads of new objects', 'factory call counts', 'notifications during construction'])

prop('C15', 'A task runs once on validated input and only returns validated output',
     'Calling a task runs its computation exactly once with a validated input object holding the given arguments, or, '
     'if they are invalid, raises without running it; it returns the processed output only if the computation returned '
     'a valid output object, and raises otherwise. Exceptions of any kind from the computation reach the caller '
     'unchanged, and repeated, re-entrant or concurrent calls on one task never see each other\'s inputs or outputs.',
     ('histories', 'fault_sequences', 'schedules'),
     'every sequence of calls with valid and invalid arguments, temporary/permanent failures and retries, nested and '
     'concurrent calls at line-level interleavings, invalid outputs',
     'Tests run one task to completion and one failing task; retries after failures and overlapping calls are not run.',
     [TK], [('call protocol', TK + ':BaseTask.__call__'), ('status reporting', TK + ':BaseTask.report_status')],
     (), ['inputs seen by the computation', 'return values and exceptions of every call'])

prop('C16', 'File and image properties hold usable files under I/O faults',
     'A file property only ever holds an open file-like object with a permitted mode; deleting it closes the file it '
     'held and a rejected assignment or deletion leaves the held file open and in place, and an open failure is '
     'reported as ValueError. An image property holds a complete copy of the source image which serializes and reloads '
     'byte for byte wherever its stream position is and however often, and read, seek, close or open failures at any '
     'point raise without replacing the held value.',
     ('fault_sequences', 'histories', 'inputs'),
     'every history of set/delete/serialize over a simulated file system failing at any call (open, read, seek, close, short reads)',
     'Tests open real files that never fail; partial reads, closed files and failing opens in the middle of a history '
     'are not exercised.',
     [BA, IM], [('open and mode check', BA + ':File.validate'), ('close on delete', BA + ':File.get_property'),
                ('image copy', IM + ':ImagePNG.validate'), ('image encoding', IM + ':ImagePNG.to_json, from_json')],
     [('open file', 'the held stream', BA)],
     ['simulated file states', 'held value', 'document bytes'])

prop('C17', 'Threads working on their own objects never affect each other',
     'When several threads each construct, assign, observe, validate, serialize, load, compare and mutate only their '
     'own objects of shared classes, every interleaving gives each thread exactly the results, exceptions and '
     'notifications it would get running alone.',
     ('schedules', 'histories', 'fault_sequences'),
     'every interleaving, at source-line granularity, of per-thread operation histories with faults',
     'The suite has no threads; leaks through class-level or module-level state depend on where a thread is pre-empted.',
     [H, B, C, BA], [('listener disabling state', H + ':listeners_disabled'), ('per-object state', B + ':PropertyMetaclass.__call__'),
                     ('shared property definitions', BA)],
     [('disabled kinds', 'process- or thread-wide suppression', H)],
     ['per-thread transcript compared with its solo run'])

prop('C18', 'Renamed and dynamic properties are faithful views',
     'Reading, setting, deleting, initializing or loading through a renamed property has exactly the effect and '
     'notifications of doing so through the new name, plus one deprecation warning per attribute access where warnings '
     'are enabled. A dynamic property always reads the validated, coerced result of its getter on the current state, '
     'passes its setter only validated values, is never stored, notified or settable at construction, and a failing '
     'getter, setter or deleter leaves the object as that callback left it and later accesses unaffected.',
     ('histories', 'fault_sequences'),
     'every interleaving of accesses through old names, new names and dynamic properties, with faults in callbacks',
     'Tests access each once; equivalence of the two names over histories with rejections and listeners is not sampled.',
     [BA, B], [('redirection', BA + ':Renamed.get_property'), ('computed access', BA + ':DynamicProperty.get_property')],
     (), ['values, notifications, warnings and exceptions through either name'])

prop('C19', 'Values are isolated: inputs are never modified and copies never alias',
     'Assigning, validating, comparing, serializing or loading, whether it succeeds or fails, never modifies the '
     'containers or documents the caller passed in, and mutating those afterwards never changes the object; a container '
     'set on a property is never shared with another object or property. A copy, or a document, and its source never '
     'affect one another whatever is later done to either, including to nested containers and objects.',
     ('histories', 'inputs', 'fault_sequences'),
     'every value shape (nested containers, arrays, direction names, instances), every later mutation history of either side',
     'Tests compare a copy once right after making it; aliasing shows only when one side is mutated later.',
     [C, B, MA, I], [('containers are copied on validation', C + ':Tuple.validate'), ('copy through a document', B + ':copy'),
                     ('array wrapping', MA + ':Array.validate')],
     (), ['deep snapshots of inputs, copies and sources after every operation'])

prop('C20', 'A failed construction reports every error and leaks nothing',
     'Constructing with invalid keyword arguments applies the arguments in order, raises one ValidationError listing '
     'every invalid argument (or the first other error if none is a validation error; unknown names raise '
     'AttributeError), calls the object\'s error hook exactly once with all of them, and never returns an object. '
     'Whatever fails, in arguments, listeners, factories or hooks, other objects, class defaults and listener '
     'delivery are unaffected and the same construction with correct arguments succeeds.',
     ('inputs', 'fault_sequences', 'histories'),
     'every set of arguments (valid, invalid, unknown), every exception type at every callback during construction',
     'Tests construct with one or two invalid arguments; interruption of a listener in the middle of a multi-argument '
     'construction and the world afterwards are not sampled.',
     [B, 'properties/utils.py'], [('error collection', B + ':HasProperties.__init__'), ('error hook', 'properties/utils.py:ValidationError')],
     [('construction in progress', 'collected errors', B)],
     ['exception and its error list', 'hook calls', 'later constructions'])

prop('C21', 'Type coercion is idempotent and total over each declared domain',
     'For every property type and input, validation either raises ValueError or returns a value that validates to an '
     'equal value again, regardless of any state.',
     ('inputs',), 'every property type, every input value',
     'Tests sample a few values per type.', [BA, MA], [('validate of each type', BA)])

prop('C22', 'Generated class documentation lists exactly the class\'s properties',
     'The documentation generated for a class lists each public property once, in the declared order, under its '
     'required, optional or other heading with its type and default.',
     ('programs',), 'every class definition', 'Tests check two fixed docstrings.', [B, BA],
     [('documentation builder', B + ':PropertyMetaclass.__new__')])

prop('C23', 'Inconsistent class and property definitions are refused when declared',
     'Declaring a class or property with invalid options (bad bounds, defaults outside the domain, observers of unknown '
     'names, renames to missing properties) raises at declaration time, and consistent ones never do.',
     ('programs',), 'every class and property declaration', 'Tests check one bad value per option.', [B, BA, C, MA],
     [('declaration checks', B + ':PropertyMetaclass.__new__')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
