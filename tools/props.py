"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

ACC = 'accelerate/src/fieldaccel2.pyx'
p('C01', 'Node fields are independent, typed variables with defaults',
  "Reading a field of a node returns the canonical form of the value most recently stored in that field of that node (by attribute assignment, constructor keyword or the field object), or the field's default if nothing is stored. "
  "A store the field cannot accept raises ValueError and leaves every field of every node as it was; a read, a store or a deletion on one node or field never changes what another node, another field, or the prototype's own default reads as. "
  "This holds for simple, vector and list-valued fields, with and without the compiled accelerator.",
  ['histories', 'configurations'], 'every sequence of reads, stores (accepted and rejected) and deletions over several nodes and fields, in the pure and the accelerated configuration',
  'tests set single fields once on single nodes; isolation between nodes and unchanged-after-rejection are statements about all histories',
  ['vrml/field.py', ACC, 'vrml/node.py', 'vrml/fieldtypes.py'],
  [('BaseField.__get__/__set__/_set/getDefault', 'vrml/field.py'), ('BaseField (compiled)', ACC), ('Node.__init__', 'vrml/node.py')],
  ['getattr/setattr on nodes', 'field.fget/fset', 'constructor keywords'],
  [('node dictionary', 'stored value per field name', 'node.__dict__')])
p('C02', 'One change notification per store, after the store, to the right watchers',
  "Every successful store to a non-list-of-nodes field, by attribute assignment or through the field object, sends exactly one change notification, naming that field and that node and carrying the canonical stored value; when it is delivered, reading the field already gives the new value. "
  "Stores made with notification turned off, rejected stores, and reads (including the first read of a default) send none, and watchers of other nodes or other fields receive none.",
  ['histories', 'configurations'], 'every history of stores/reads/deletes/watch registrations, both configurations',
  'tests contain no assertion about notifications on fields; count, ordering against the store and addressee must hold for every history',
  ['vrml/field.py', ACC], [('dispatcher.send in _set/__set__/fset', 'vrml/field.py'), ('cdef _set', ACC), ('Field.watch', 'vrml/field.py')],
  ["pydispatch receivers for ('set', field)"])
p('C03', 'Deleting a field value reverts it to its default and notifies once',
  "Deleting a stored field value, by the del statement or through the field object, makes the field read as its default again and sends exactly one deletion notification, after the removal, naming that node and field (none when notification is turned off). "
  "Deleting a field that has no stored value raises AttributeError, sends nothing and changes nothing; whether a node reports having a value for the field follows the same history.",
  ['histories', 'configurations'], 'all histories of set/read/delete, both configurations',
  'no test deletes a field; the pure and compiled classes implement deletion separately',
  ['vrml/field.py', ACC], [('BaseField.__delete__/fdel', 'vrml/field.py'), ('cdef _del', ACC), ('Field.fhas', 'vrml/field.py')],
  ["('del', field) notifications", 'fhas', 'reads after delete'])
p('C04', 'Scalar and flat-list fields store a canonical form or reject',
  "For boolean, integer, float, time and string fields and flat lists of them, the stored value depends only on the assigned value and the field type: it is the documented canonical form (0/1, int, float, str, flat numeric array of the type's item type and order, list of str), or ValueError is raised. "
  "Storing a canonical value back leaves it unchanged, and equivalent spellings of a value (number, numeric text, sequence, array of another item type) store the same canonical value.",
  ['inputs', 'configurations'], 'every supported shape of input value (numbers, text, nested and lazy sequences, arrays of several item types, None, nodes) for every scalar/flat field type',
  'tests try a handful of values per type; acceptance and canonicalisation range over type x shape x content',
  ['vrml/fieldtypes.py', 'vrml/field.py'], [('coerce methods', 'vrml/fieldtypes.py')], ['stored value after assignment', 'field.coerce'])
p('C05', 'Vector, colour, rotation and matrix-list fields keep shape and range',
  "A stored vector, rotation or colour always has exactly its type's dimension, a stored list of vectors, colours or matrices is always an array of rows of exactly that dimension holding the given numbers in order, and an input whose number count does not fit is rejected with ValueError. "
  "Colour components are always within 0..1 (clamped), and a colour given by CSS (level 3) name or #rrggbb text, as the value of a colour field or as an element of a list for a colour-list field, stores the colour it names.",
  ['inputs', 'configurations'], 'every supported value shape (flat, nested, text, scalar, arrays, mixed colour text) and count per vector type',
  'tests sample a few shapes of a few types',
  ['vrml/fieldtypes.py', 'vrml/csscolors.py', 'vrml/arrays.py'], [('_SFVec/_MFVec/_Color coerce', 'vrml/fieldtypes.py'), ('stringToColor', 'vrml/csscolors.py')], ['stored value after assignment'])
p('C06', 'Observable list contents and events agree with list semantics',
  "An observable child list has after every operation exactly the contents and the return-value element a plain Python list would have after it, and an operation that a plain list rejects raises the same kind of error, changes nothing and sends nothing. "
  "Every operation announces each element it adds and each element it removes, in order and after the change, by one event at the list's sender and one at the child concerned, and announces nothing else; a slice assignment or item assignment announces only elements which were not in the replaced part as added, and only replaced elements which were not kept as removed; reversing and sorting announce nothing.",
  ['histories'], 'every sequence of append/insert/extend/+=/*=/item and slice assignment and deletion/pop/remove/clear/reverse, any indices including negative and out of range, duplicates included',
  'tests pin single operations on short lists; balance and equality with list semantics are about all sequences',
  ['vrml/olist.py'], [('OList methods', 'vrml/olist.py'), ('_sendAdded/_sendRemoved', 'vrml/olist.py')], ['list contents', "pydispatch 'new'/'added'/'del'/'removed' signals"])
p('C07', 'Changing a node-list field in any way notifies watchers of that field',
  "However a node-list field gets its value (default on first read, constructor, assignment, parsing), any later change of the set of its members, by assignment or by mutating the list in place, sends at least one change notification for that field of that node before the changing call returns, the last of them delivered when the field already reads as the final contents and carrying those contents. "
  "Changes never notify for another field or another node.",
  ['histories', 'configurations'], 'every interleaving of reads, assignments, deletions and in-place mutations over nodes with one and several node-list fields',
  'no test observes notifications of node-list fields',
  ['vrml/node.py', 'vrml/olist.py'], [('_MFNode.fset/_changeSender', 'vrml/node.py')], ["('set', field) notifications", 'list contents'])
p('C08', 'A weak list is a list of its live members',
  "A weak list behaves as a plain list of those of its members that are still alive: every supported operation (construct, append, insert, extend, +=, item and slice assignment and deletion, pop, remove, index, count, membership, iteration, comparison, sort) has the same result and contents, and only members, never references, are seen. "
  "The list itself never keeps a member alive, and a member that dies disappears from every position it held, leaving the others in order.",
  ['histories', 'inputs'], 'every interleaving of list operations with deaths of members, duplicates included',
  'no test touches weak lists; collection can happen between any two operations',
  ['vrml/weaklist.py'], [('wrap/unwrap/__remover', 'vrml/weaklist.py')], ['list operations', 'garbage collection of members'])
p('C09', 'A weak tuple is a fixed sequence that fails loudly when a member dies',
  "A weak tuple behaves as a plain tuple of its members for length, indexing, slicing, iteration, membership, count, concatenation and equality while all members live, without keeping any member alive. "
  "Once a member has died every access that needs that member raises ReferenceError, the validity test says so, members at other positions stay readable at their positions, and the length is unchanged.",
  ['histories', 'inputs'], 'all contents (with duplicates) and all orders of deaths and accesses',
  'no test constructs a weak tuple',
  ['vrml/weaktuple.py'], [('wrap/unwrap/valid', 'vrml/weaktuple.py')], ['tuple operations'])
p('C10', 'Cached data vanishes when a dependency changes or its node dies',
  "Data cached for a (node, key) is returned for exactly that node and key until it is replaced, explicitly cleared or invalidated; a change, deletion or routed update of a declared (node, field) dependency clears it, while changes to any other field or node do not. "
  "When the node the data belongs to is collected all its cached entries disappear, when an object the entry depends on dies that entry disappears, other entries are untouched, and the cache keeps no node alive.",
  ['histories', 'configurations'], 'all interleavings of caching, lookups, dependency registration, field changes, explicit clearing, and node deaths over several nodes and keys',
  'no test covers the cache',
  ['vrml/cache.py'], [('CacheHolder', 'vrml/cache.py'), ('Cache', 'vrml/cache.py')], ['Cache.getData/getHolder', 'Cache contents'])
p('C11', 'A path matrix is always that of the current transform values',
  "At every moment at which no change is being announced, the matrix (or inverse) a scenegraph path returns, for every choice of including translation, scale and rotation, equals the one computed from scratch from the current field values of the transforms on the path, composed from the root down. "
  "No history of field changes, deletions, routed updates or earlier matrix queries makes a stale matrix visible (stores made with notification turned off and in-place edits of stored arrays excepted).",
  ['histories', 'configurations'], 'all histories of field edits and queries over paths sharing transforms, all 16 query variants',
  'tests query fresh paths a few times',
  ['vrml/vrml97/nodepath.py', 'vrml/vrml97/basenodes.py', 'vrml/vrml97/transformmatrix.py', 'vrml/cache.py'],
  [('_NodePath.transformMatrix', 'vrml/vrml97/nodepath.py'), ('Transform.localMatrices', 'vrml/vrml97/basenodes.py')], ['NodePath.transformMatrix'])
p('C12', 'Transform matrices implement the VRML97 formula and true inverses',
  "The matrix built from translation, centre, rotation, scale and scale orientation is the VRML97 composition (to centre, un-orient, scale, orient, rotate, from centre, translate; row vectors), with parent matrices composed after it, and rotations use the normalised axis. "
  "The inverse functions return its inverse whenever all scale factors are non-zero, and the pure and compiled implementations give the same matrices.",
  ['inputs', 'configurations'], 'all combinations of component values, checked exactly on a quarter-turn/integer grid',
  'tests check a few single-component matrices',
  ['vrml/vrml97/transformmatrix.py', 'vrml/vrml97/_transformmatrix.py', 'vrml/vrml97/_transformmatrix_accel.py', 'accelerate/src/tmatrixaccel.pyx'],
  [('transformMatrix/itransformMatrix/transformMatrices/localMatrices', 'vrml/vrml97/transformmatrix.py'), ('rotMatrix/scaleMatrix/transMatrix', 'both implementations')], ['returned matrices'])
p('C13', 'Routes deliver every source change once per cascade and terminate',
  "A change of a routed source field is stored, in the destination field's canonical form, in every field reachable from it along routes before the changing call returns, and in the cascade which each route of the changed field starts each destination field is updated at most once, so cyclic route graphs terminate. "
  "A value a destination cannot accept leaves that destination unchanged without disturbing the source or other routes; fields not reachable are never changed; watchers of a destination's routed updates see exactly one notification per update.",
  ['histories', 'configurations', 'inputs'], 'all small route graphs (chains, fans, diamonds, cycles, several fields and types) and histories of changes',
  'no test creates a route',
  ['vrml/route.py', 'vrml/event.py', 'vrml/field.py'], [('ROUTE._bind/_forward', 'vrml/route.py'), ('Event.visited', 'vrml/event.py')], ['destination field values', "('route', field) notifications"])
p('C14', 'Prototype instances share nothing but the declaration',
  "Each instance of a prototype has its own copy of the prototype's body; each interface field connected to a body field by IS starts with the given or default value in the body, and any later change of the interface field of one instance (for a node list: of its set of members) reaches every connected body field of that instance before the call returns. "
  "No other instance, and not the prototype's own body, is affected.",
  ['histories', 'programs', 'configurations'], 'all small prototype declarations (several interface fields, several IS targets, shared inner nodes, nested instances) and histories of edits over several instances',
  'tests only print prototypes and never edit instances',
  ['vrml/node.py', 'vrml/route.py', 'vrml/copier.py', 'vrml/vrml97/scenegraph.py'], [('PrototypedNode.instantiate', 'vrml/node.py'), ('IS', 'vrml/route.py')], ['instance scenegraph field values'])
p('C15', 'Copies are isomorphic, preserve sharing, and are independent',
  "Copying a node or scenegraph yields a structure of new nodes of the same prototypes with equal field values in which two references denote the same node exactly when they did in the original, with the same DEF registrations and routes connecting the corresponding copies; a weak reference refers to the copy exactly when the node it refers to is copied too. "
  "Afterwards no change made to the copy is visible in the original or vice versa, and the original is unchanged by copying.",
  ['inputs', 'histories', 'configurations'], 'all small node graphs with sharing, multiple fields, DEF names and routes, and histories of edits after the copy',
  'no test copies anything',
  ['vrml/node.py', 'vrml/copier.py', 'vrml/vrml97/scenegraph.py', 'vrml/field.py'], [('Node.copy/Field.copy/copyValue', 'vrml/node.py, vrml/field.py'), ('Copier.use', 'vrml/copier.py')], ['copied structure'])
p('C16', 'DEF names resolve to the last node registered under them',
  "Looking up a DEF name in a scenegraph returns the node most recently registered under it, or nothing (giving a node the scenegraph as its root registers the DEF name it has); registering a node under a new name sets the node's DEF name and releases the name it held, but never a name that meanwhile belongs to another node. "
  "Registrations in one scenegraph never affect lookups in another.",
  ['histories'], 'all sequences of registrations, re-registrations and direct DEF edits over several names, nodes and scenegraphs',
  'tests never re-register',
  ['vrml/vrml97/scenegraph.py', 'vrml/protofunctions.py'], [('regDefName/getDEF', 'vrml/vrml97/scenegraph.py')], ['getDEF', 'node DEF'])
p('C17', 'Nodes adopt the root of the scenegraph they are attached to',
  "A node stored in a node or node-list field, by constructor or assignment, of a node that has a root scenegraph gets that root if it had none, together with everything below it, and keeps its existing root otherwise; setting a root on a node sets it on all nodes reachable below it. "
  "Root references never keep a scenegraph alive, and after the scenegraph is gone the root reads as unset.",
  ['histories', 'configurations'], 'all small histories of building, attaching, re-rooting and dropping scenegraphs',
  'no test inspects roots',
  ['vrml/node.py', 'vrml/field.py'], [('_SFNode.fset/_MFNode.fset/RootScenegraphNode.fset', 'vrml/node.py'), ('WeakField', 'vrml/field.py')], ['protofunctions.root'])
p('C18', 'Prototype names resolve through enclosing scenegraphs, innermost first',
  "Looking up a prototype name in a scenegraph returns the definition registered most recently in that scenegraph, else the result of the same lookup in the scenegraph enclosing it, else nothing. "
  "Registering a prototype in one scenegraph never changes a lookup that starts in an enclosing or unrelated one, and the standard node types stay available to every later parse.",
  ['histories', 'programs'], 'all nestings of scenegraphs and orders of registrations, and nested PROTO declarations in text',
  'tests declare single prototypes',
  ['vrml/vrml97/scenegraph.py', 'vrml/protonamespace.py', 'vrml/vrml97/parseprocessor.py'], [('getProto/addProto', 'vrml/vrml97/scenegraph.py')], ['getProto', 'parsing results'])
p('C19', 'Writing a scenegraph as VRML97 and parsing it back loses nothing',
  "For every scenegraph built from the standard nodes, scripts and declared prototypes with VRML97 field types, finite numbers, distinct DEF and prototype names and a DEF name on every shared node, parsing the text it is written as yields a structurally equal scenegraph: same prototypes, field values, child order, DEF names, node sharing by DEF/USE, routes and prototype declarations with their IS connections. "
  "The written text is a fixed point: writing the re-parsed scenegraph gives text that parses to an equal scenegraph again.",
  ['inputs', 'programs', 'configurations'], 'all standard node types x fields x boundary values, all small graph shapes with sharing, routes and prototypes',
  'tests round-trip no generated content; a few strings are compared',
  ['vrml/vrml97/linearise.py', 'vrml/vrml97/parseprocessor.py', 'vrml/vrml97/parser.py', 'vrml/fieldtypes.py', 'vrml/arrays.py'], [('Lineariser', 'vrml/vrml97/linearise.py'), ('ParseProcessor', 'vrml/vrml97/parseprocessor.py')], ['toString() then parse'])
p('C20', 'Parsed text means what VRML97 says',
  "Parsing valid text builds the node tree it denotes: nodes in order with their attributes, USE denoting the very node most recently DEFed with that name in that scope, NULL, routes connecting the named nodes, prototype and script declarations with their fields, events and IS connections, whatever the whitespace, commas and comments between tokens. "
  "A use of an undeclared prototype or un-DEFed name raises NameError, an unknown field AttributeError, and a malformed value or syntax raises an error rather than yielding a scenegraph; no parse influences the next. What VRML97 leaves open is left open: declaring the same name twice in one scope or interface, a node USEd inside itself, names which are keywords or numbers, IS of something not declared with that type, EXTERNPROTO addresses not in brackets, images whose pixel count is wrong.",
  ['programs', 'inputs'], 'all small token-level programs over DEF/USE/ROUTE/PROTO/Script/attributes with nesting and all layouts',
  'tests parse a fixed set of snippets',
  ['vrml/vrml97/parser.py', 'vrml/vrml97/parseprocessor.py'], [('grammar', 'vrml/vrml97/parser.py'), ('ParseProcessor', 'vrml/vrml97/parseprocessor.py')], ['parse results'])
p('C21', 'Strings survive being written and read, whatever characters they hold',
  "Every string value, including quotes, backslashes, comment and bracket characters, newlines and non-ASCII text, alone or in a string list of any length, is read back exactly equal after being written as a field value. "
  "No string content can end its literal early or change how the rest of the file is read.",
  ['inputs'], 'all short strings over a set of critical characters, and long lists',
  'tests round-trip no special characters',
  ['vrml/fieldtypes.py', 'vrml/vrml97/parseprocessor.py', 'vrml/vrml97/parser.py', 'vrml/vrml97/linearise.py'], [('SFString_vrmlstr/MFString_vrmlstr', 'vrml/fieldtypes.py'), ('SFString/MFString productions', 'parser/parseprocessor')], ['written text', 'parsed value'])
p('C22', 'Prototype reflection reports exactly the declared interface',
  "Listing a prototype's fields (or events) gives exactly the ones declared on it and its bases with the most derived declaration winning, as changed by fields added or removed since. "
  "Looking up a field by name finds the declaration by its attribute name, its storage name, or with a set_ prefix or _changed suffix, with exact names taking precedence, always as a field or event object, and raises AttributeError for a name which is neither that of a declaration nor of a Python attribute of the class.",
  ['histories', 'inputs'], 'all small class hierarchies, orders of adding/removing declarations, and name spellings',
  'tests cover no lookups',
  ['vrml/protofunctions.py', 'vrml/node.py'], [('getField/getFields/addField/removeField', 'vrml/protofunctions.py')], ['protofunctions.getField/getFields'])
p('C23', 'Scenegraph paths behave as identity-based sequences with live children',
  "Path concatenation, slicing, common prefix and equality follow node identity and yield paths of the same kind. "
  "A path knows exactly its child paths that are still alive, and invalidating a path marks it and all its descendants broken and no other path.",
  ['histories', 'inputs'], 'all trees of paths over a few nodes (with duplicates) and orders of extension, death, invalidation',
  'tests cover one two-level example',
  ['vrml/nodepath.py', 'vrml/vrml97/nodepath.py'], [('NodePath', 'vrml/nodepath.py'), ('_NodePath', 'vrml/vrml97/nodepath.py')], ['path operations'])
p('C24', 'Frustum culling excludes exactly boxes wholly behind some plane',
  "The accelerated culling test reports a set of points as culled if and only if there is a plane for which every point lies more than the given margin behind it, and then returns the first such plane; otherwise it reports not culled and no plane. "
  "Arrays of the wrong shape raise an error.",
  ['inputs'], 'all small sets of planes and points on an integer grid with margins, in both point layouts',
  'no test calls it',
  ['accelerate/src/frustcullaccel.pyx'], [('planeCull', 'accelerate/src/frustcullaccel.pyx')], ['planeCull result'])
p('C25', 'Writing a scenegraph does not change it and is repeatable',
  "Writing a node or scenegraph as text leaves every field value, child list and node sharing as it was and sends no change notifications, except that routed nodes without a DEF name are given fresh unique ones. "
  "Writing the same unchanged scenegraph again, or another structurally equal one, gives the same text, regardless of what was written or parsed in between.",
  ['histories', 'inputs'], 'all interleavings of writes of several graphs with edits',
  'tests write each object once',
  ['vrml/vrml97/linearise.py', 'vrml/fieldtypes.py'], [('Lineariser', 'vrml/vrml97/linearise.py')], ['toString()', 'field values and notifications around it'])
p('C26', 'Event ports run their handler, remember and announce each value',
  "Sending a value to an event port of a node, directly or by a route, calls the node's handler for that event (if any) exactly once with the value and, unless notification is turned off, announces exactly one notification afterwards carrying the value (a set notification for a direct send, a route notification for a routed one); the port then reads as the last value sent to that node. "
  "Reading a port that never received a value raises AttributeError; other nodes and ports are unaffected.",
  ['histories'], 'all histories of sends and reads over several nodes and ports with and without handlers',
  'no test sends events',
  ['vrml/field.py', 'vrml/route.py'], [('Event.__set__/__get__', 'vrml/field.py')], ['handler calls', 'notifications', 'port reads'])
p('C27', 'The standard nodes have the interface VRML97 declares',
  "Every node type of VRML97 (ISO/IEC 14772-1:1997, clause 6) that the parser knows has every field, exposedField, eventIn and eventOut the standard declares for it, with the declared type, access and default value. "
  "A text which names one of these nodes with no attributes yields a node whose fields read as exactly those defaults.",
  ['inputs'], 'every standard node type and every one of its fields and events',
  'tests mention a few fields of a few node types',
  ['vrml/vrml97/basenodes.py'], [('node classes', 'vrml/vrml97/basenodes.py')], ['protofunctions.getFields', 'defaults of parsed nodes'])
p('C28', 'There is one NULL node',
  "There is one NULL node per process: every way to come by it (storing None in a node field that allows NULL, a field's default, the keyword in a text, copying, deep-copying, cloning or unpickling it, alone or inside a container) gives the identical object. "
  "It equals itself and nothing else (not None, 0, False, the text NULL or a node of a prototype called NULL), counts as false while other nodes count as true, can be a member of child lists, lists and sets like any node (found, counted, removed, assigned and sliced as itself), and prints as NULL. "
  "Copies of a node hold NULL exactly where the original does; what is not a node is rejected by node fields without effect.",
  ['histories', 'inputs'], 'all histories of storing, listing, comparing and copying NULL beside other nodes',
  'no test compares or copies NULL',
  ['vrml/node.py'], [('NullNode', 'vrml/node.py'), ('_SFNode.coerce', 'vrml/node.py'), ('_MFNode.coerce', 'vrml/node.py')], ['comparisons and membership', 'values of node fields', 'copies'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
