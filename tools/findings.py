"""Source of the fixed list in known-findings.json (run: python3 tools/findings.py)."""
import json, os, subprocess
FIXED = '''3682923 C06 deleting an item or slice, += / *= and clear() of an OList changed it without (or with wrong) events or returned wrongly
edc8969 C03 pure-Python fields: deleting a stored value failed or deleted without notification
edc8969 C02 pure-Python fields: notifications differed from the compiled fields
7d6282a C08 WeakList item access, slicing, += and sort failed or exposed references on Python 3
ea52644 C09 WeakTuple could not be constructed, sliced or compared on Python 3
9dcd8cd C14 WeakKeyDictionary lacked the state of its base class, prototype instances with IS could not be made
c9de055 C18 copy.copy of a ProtoNamespace failed
6fe5522 C07 assigning or first reading a node-list field lost its change notifications or addressed them to another field
b9d49c1 C15 copies shared the structure below them with the original
b9d49c1 C14 prototype instances shared their body
c631907 C23 slices of node paths were not paths, and comparing a path with another object failed
b030d5f C23 invalidating a path did not reach all of its descendants
c65d03c C11 a scale-only path matrix did not depend on the center
923be48 C22 getField by storage name returned a string
44186e0 C12 transformmatrix.center did not accept translation/center
53817b8 C10 a replaced cache holder removed its replacement
b4cd49e C05 MFVec2d stored single precision, matrix fields rejected sequences, array fields rejected text
c6d5bdd C19 arrays with some equal elements counted as equal, so values were not written
7a81d38 C04 numbers too large for a field raised OverflowError
9288e5c C13 a value a destination rejected was forwarded, an event-port value was forwarded twice
4a37944 C18 ProtoNamespace.copy did not return a ProtoNamespace
f3e98e6 C19 string lists were written as nodes
f3e98e6 C21 string lists were written as nodes
e7f03c0 C25 a lineariser changed the shared format definitions
5dbfffd C19 prototypes were written with fields they did not declare, EXTERNPROTO fields with defaults
5dbfffd C25 writing an EXTERNPROTO changed the class
9033f8b C19 only one IS mapping per field, and no current values of Script fields, were written
262a0a4 C19 unchanged default node lists of prototypes were written as values
040aa6e C20 names starting with a keyword were not parsed
001f9f3 C20 a value of the wrong kind was silently dropped
954b0dd C20 an unacceptable default in a declaration was not a parse error
b0f6f16 C20 decimal integers with leading zeros were split
a912faf C20 empty files and trailing comments were not parsed
9ba1ffc C13 watching with addRoute stored a tuple as a route
624c3e9 C12 rotations about a zero vector differed without acceleration
c3486ae C22 a field overridden by an event (or the reverse) was still listed
eb68e67 C17 reading the root (a weak node field) by attribute gave a weak reference
f34afdd C17 unsetting a weak node field which is not set raised AttributeError
5f7a5e7 C05 five CSS colour names stood for other colours, and seven grey spellings were missing
d691cb4 C05 a number could not be stored in a vector field (meant to fill it)
ed3fd31 C05 an MFColor given as a map or zip with colour names, or with a wrong count, was stored empty
7cf7cb3 C15 a weak reference to a node copied later in the same pass still referred to the original
d69b609 C20 a carriage return did not end the header or a comment
fc7a93d C20 reading a file sent the initial values of fields along the routes read before them
3968b9e C19 an SFImage was written in brackets
faafd93 C27 ElevationGrid, MovieTexture and NavigationInfo had defaults or types which are not the standard's
bf69455 C14 prototypes with MFNode events connected by IS could not be instantiated
82a2f8a C19 an EXTERNPROTO without addresses, or a prototype without scenegraph, could not be written
23eee2b C19 array fields with default values were written, PointSet.attenuation (no standard field) with every PointSet
ebb0a36 C28 NULL was not equal to itself but equal to other things, and could not be in a set or in an assigned child list
3ec1d2d C28 copies of NULL were other objects, NULL.copy() raised TypeError
636d2ac C06 the removal was announced before the change when one item of an OList was assigned'''
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(here, 'known-findings.json')
data = json.load(open(fn))
data['fixed'] = []
for line in FIXED.splitlines():
    c, p, what = line.split(' ', 2)
    data['fixed'].append('fixed: property=%s %s %s' % (p, c, what))
json.dump(data, open(fn, 'w'), indent=1)
open(fn, 'a').write('\n')
