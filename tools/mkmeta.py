#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below; a property is claimed when props/<ID>/spec.py exists"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, na=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech, note=note, na=na, tech=tech))
H = 'lib/h/ce/'

prop('C01', 'Integer to text is the canonical decimal of every value of every type',
 'For every value of every signed or unsigned integer type, to_text writes exactly the canonical base-10 digits (a minus sign for negatives, no leading zeros, "0" for zero) and returns a pointer just past the last one. It writes nothing before the destination and nothing beyond the measured size of the type (the stores for the last digits stay inside the text produced). as_string of one integer yields the same text, NUL terminated.',
 'inputs', 'every value of the 10 integer types (2^64 values for the widest)', 'The tests print a handful of values; a wrong digit pair or a wrong chunk boundary shows for single values among 2^64.',
 'lib/to_text.cpp lib/to_text_from_integer.h ' + H + 'ce.h', [('digit pair table and branch per digit count', 'lib/to_text_from_integer.h'), ('sign handling and type dispatch', 'lib/to_text.cpp')],
 'to_text of the ten integer types is verified path by path: digits as base-10 positional value equal to the argument, each byte a digit, no leading zero, end pointer, every store inside the measured size.')
prop('C02', 'as_string never overruns its buffer and is the NUL-terminated concatenation',
 'A text built by as_string from any list of values (characters, integers, bool, string literals, char arrays with or without terminator, C strings of any length) is the concatenation of the texts of the values in order, followed by one NUL. C strings are cut at the documented 1024 characters, arrays at their own size, and nothing is ever written outside the string object or read past the terminator or the end of an array. A single text argument is passed through unchanged.',
 'inputs', 'every content and length of every argument, every argument list up to the instantiated arities', 'Tests use short literals; overruns need long, unterminated or boundary-length arguments.',
 H + 'ce.h lib/to_text.cpp', [('to_text_s/to_text_p/to_text_m copying loops', H + 'ce.h'), ('measure<> sizes the buffer', H + 'ce.h')],
 'the buffer, the copying loops and the terminator store are verified for symbolic argument content and length over a set of instantiated argument lists.')
prop('C03', 'crc32 equals the bitwise CRC for every buffer, chains, and words equal bytes',
 'crc32 over any byte buffer, any starting value and any polynomial instance equals the reflected bit-at-a-time CRC-32 definition. crc32 of a concatenation equals chaining the crc32 of the first part into the second, and the 32-bit and 64-bit word versions equal the byte version on the same little-endian memory. crc32c of a literal equals the crc32c of its bytes without the terminator.',
 'inputs', 'every buffer of every length and every start value', 'Tests check a few fixed strings; a wrong table entry or lane shows only for specific bytes at specific offsets.',
 H + 'ce.h', [('crc32_table constant tables', H + 'ce.h'), ('crc32 byte / 4-lane / 8-lane loops', H + 'ce.h')],
 'loop contracts over all lengths; GF(2)-affine normalisation compares each step with the bitwise definition; lane tables taken from the compiled constants.')
prop('C04', 'FNV-1a hashes equal their definition for every input',
 'fnv1a32 and fnv1a64 over any array of 1, 2, 4 or 8 byte elements equal the published FNV-1a recurrence applied to the elements\' bytes in little-endian order from the given basis. The C-string hash equals the 32-bit hash of the characters before the terminator. No byte outside the array is read.',
 'inputs', 'every array, length and basis', 'Tests check at most fixed strings.', H + 'ce.h', [('fnv1a loops', H + 'ce.h')],
 'loop contracts with an uninterpreted fold of the FNV step, for all lengths.')
prop('C05', 'Each generator reproduces its reference algorithm from every state',
 'For every state, one step of xoroshiro64**, xoroshiro128++ and PCG32/64 returns the output and reaches the next state of the published reference algorithm. next32 and next64 return the low half, the full word or the two consecutive words in the documented order, each advancing the state the right number of steps. Seeding from a byte array or integer gives the documented state as a function of the bytes only.',
 'inputs histories', 'every 64- or 128-bit state', 'Tests compare one short prefix of one stream per generator.', H + 'ce.h', [('next/next32/next64/read/step/seed', H + 'ce.h')],
 'bit-precise equality with an independently written reference for all states.')
prop('C06', 'Bounded random draws are in range and exactly unbiased',
 'For every generator state and every n >= 1, next_ranged and next_unbiased return a value below n, and n = 0 returns 0. next_unbiased accepts a raw 32-bit output exactly when doing so leaves every result with the same number floor(2^32/n) of accepted raw outputs, and the generator ends one step after the accepted output. Rejected outputs only advance the generator.',
 'inputs histories', 'every state and every n in [1, 2^32)', 'Bias at the 1/2^32 level is invisible to sampled tests.', H + 'ce.h', [('next_ranged/next_unbiased multiply and rejection threshold', H + 'ce.h')],
 'loop contract with a ghost stream of outputs; acceptance set and range proved for all states and n.')
prop('C07', 'base64 size and decode equal RFC 4648 for every text',
 'base64 size equals floor(3n/4) for every n without overflow, and size of a text counts the leading alphabet characters only. decode writes, for every output index, exactly the byte defined by RFC 4648 for the 6-bit groups of the text, and writes only the requested bytes and reads only the characters needed. The character class predicates agree with the alphabet used by decode.',
 'inputs', 'every text, length and output size', 'The tests decode one or two fixed texts.', H + 'ce.h', [('base64::size / decode', H + 'ce.h'), ('ascii predicates', H + 'ce.h')],
 'loop contracts for all lengths; per-residue byte equations by GF(2) normalisation.')
prop('C08', 'lziii decode inverts well-formed streams; size equals the bytes produced',
 'For every well-formed stream, size returns exactly the number of bytes the stream encodes, and decode writes exactly these bytes: literals verbatim and spans copied byte by byte from already decoded data, overlap included. Only bytes [0, size) of the destination are written, source bytes are read in order and never past the encoded end.',
 'inputs', 'every well-formed stream of every length', 'One fixed stream is decoded by the tests.', H + 'lziii.h', [('lziii::size', H + 'lziii.h'), ('lziii::decode', H + 'lziii.h')],
 'one-token-step contracts against the stream grammar; memory safety under the well-formedness precondition.')
prop('C09', 'intro_sort yields a sorted permutation of any input and touches nothing else',
 'After intro_sort(a, b) the range is ordered (no element is less than its predecessor) and is a permutation of what it held before, for every length and content including duplicates, sorted and reversed inputs. Elements outside [a, b) are unchanged. insertion_sort, partition and median satisfy the corresponding guarantees they are composed from.',
 'inputs', 'every array of every length', 'Tests sort a few arrays; wrong boundary handling in partition shows only for special contents above the 128-element threshold.', H + 'sort.h',
 [('insertion_sort', H + 'sort.h'), ('median/partition', H + 'sort.h'), ('intro_sort recursion', H + 'sort.h')],
 'inductive contracts on every function (recursive calls by contract); permutation through an arbitrary-value count; order through arbitrary index pairs.')
prop('C10', 'lower_bound and upper_bound return the partition point of any sorted range',
 'On any sorted range, lower_bound returns the first position whose element is not less than the key and upper_bound the first position whose element is greater, the end when there is none. They read only elements of the range and terminate for every length, zero included. z_lower_bound does the same for z-codes.',
 'inputs', 'every sorted array, every key', 'Tests probe a few keys.', H + 'sort.h ' + H + 'zorder.h', [('lower_bound/upper_bound', H + 'sort.h'), ('z_lower_bound', H + 'zorder.h')],
 'loop contracts (everything left of the window is below the key, everything right is not) for all lengths.')
prop('C11', 'bulk behaves as the sequence of its operations and never leaks lifetimes',
 'For every sequence of operations, a bulk holds exactly the sequence a plain list would hold (append, remove, resize, assign, clear and indexing keep order and values), never exceeding its capacity. Every element slot in use holds exactly one live object: elements are constructed once before use and destroyed exactly once on removal or destruction. No operation touches memory outside its buffer.',
 'inputs histories', 'every state and every operation with every argument', 'Tests run two short scripts.', H + 'ce.h', [('construct_at/destroy helpers', H + 'ce.h'), ('bulk/list operations', H + 'ce.h')],
 'each operation is verified from an arbitrary valid state (inductive over histories).')
prop('C12', 'min_priority_queue always yields the minimum and keeps its contents',
 'For every history of insertions and removals, the head of the priority queue is a minimum of the items it holds, and removal takes out exactly that item. The multiset of remaining items is exactly what was inserted minus what was removed. Capacity limits are honoured and no memory outside the queue is touched.',
 'inputs histories', 'every heap state and operation', 'Tests exercise few short histories.', H + 'ce.h', [('min_priority_queue insert/remove sift loops', H + 'ce.h')],
 'heap invariant and multiset count preserved by every operation from every valid state.')
prop('C13', 'bitset operations act on exactly the named bit',
 'Setting, clearing or testing bit i of a bitset of any size affects and reports exactly bit i, for every i in range, and leaves every other bit unchanged. Setting or resetting all bits changes every bit of the set, and get_size reports its capacity. Storage outside the set is never touched.',
 'inputs histories', 'every content, every index', 'Tests touch few bits.', H + 'ce.h', [('bitset', H + 'ce.h')],
 'each operation verified for every content and index.')
prop('C14', 'dictionary find/bind implement a map for every history',
 'find(k) returns the slot last bound to k, or nil if k was never bound, for every history of bind calls and every key including the zero key. bind of a new key takes a fresh slot and leaves every other binding unchanged; bind of a known key replaces only that entry; when full, bind of a new key returns nil and changes nothing. The nil slot is never returned for a bound key.',
 'inputs histories', 'every dictionary state and key', 'The test binds a few names.', H + 'dictionary.h', [('find scan', H + 'dictionary.h'), ('bind allocation', H + 'dictionary.h')],
 'representation invariant (distinct names in used slots) preserved and operations specified from every valid state.')
prop('C15', 'pool never hands out a live node; queues are FIFO/LIFO sequences',
 'alloc_index never returns an index that is currently allocated or nil while capacity remains, returns nil when exhausted, and a freed index becomes available again. Each queue holds exactly the sequence of items pushed and not popped, in order, and operations on one queue do not change another. Node 0 is never handed out.',
 'inputs histories', 'every pool state and operation', 'Tests run short scripts on one queue.', H + 'pool.h', [('alloc_index/free_index free list', H + 'pool.h'), ('circular queue links', H + 'pool.h')],
 'ghost sequence invariant (free list and queue as disjoint chains) preserved by each operation from every valid state.')
prop('C16', 'z-order encode, inside and query are exact for every box',
 'z_encode interleaves the two coordinates so that order and bits are recoverable for every pair of 32-bit values, and z_inside is true exactly when both coordinates lie in the box. For a box that is not empty and sorted codes, z_query outputs every stored code inside the box. Everything it outputs is a stored code between the two corner codes (the high one taken to the end of its block of 65536 codes), in order, each stored position at most once, and no memory outside the arrays is touched.',
 'inputs', 'every coordinate pair, box and sorted code array', 'Tests use a few boxes.', H + 'zorder.h', [('z_expand/z_encode', H + 'zorder.h'), ('z_inside', H + 'zorder.h'), ('z_split/z_query', H + 'zorder.h')],
 'bit-precise encode/inside/split contracts for all values; query by loop contract.')
prop('C17', 'Exact geometry predicates agree with real arithmetic',
 'Within the coordinate range (components up to 2^31-1 in magnitude, 2^30-1 for segments and balls), inside(a, b), dotx, crossx, sqrx, ab_less_cd and the in_range_rr family return exactly what exact integer arithmetic on the definitions gives, with no overflow. inside is antisymmetric for distinct vectors (exactly one of inside(a, b) and inside(b, a)) and false for equal ones. in_range tests compare the true squared distance to the line, edge, ray or segment with the squared range.',
 'inputs', 'every coordinate combination in range', 'Tests evaluate few points; sign errors hide in ties and extreme values.', H + 'math.h ' + H + 'ce.h', [('inside tie breaking', H + 'math.h'), ('ab_less_cd 128 bit compare', H + 'math.h'), ('in_range_rr_*', H + 'math.h')],
 'nonlinear integer contracts with overflow obligations on.')
prop('C18', 'in_polygon returns the winding number of every polygon',
 'For every polygon and point with coordinates up to 2^30-1 in magnitude, in_polygon equals the winding number of the polygon around the point, computed as the signed count of edges crossing the horizontal ray under the documented half-open rule, and points on an edge add nothing for this edge. The empty polygon gives 0. Only the n given vertices are read.',
 'inputs', 'every polygon of every size, every point', 'Tests use one or two polygons.', H + 'ce.h', [('in_polygon_xy edge loop', H + 'ce.h')],
 'loop contract with an uninterpreted per-edge contribution summed over edges; contribution proved by cases.')
prop('C19', 'cordic rotation and polar conversion are within one unit of exact',
 'Rotating (r, 0) by any angle gives the cosine and sine scaled by r to within a small fixed error, and to_polar inverts it to within the same error. degrees_to_angle is exact to rounding for every integer degree in range. The quadrant reduction is exact.',
 'inputs', 'every angle and radius', 'Tests sample a few angles.', H + 'math.h', [('cordic_n::rotate/vector', H + 'math.h'), ('degrees_to_angle', H + 'math.h')],
 'degrees_to_angle is proved exactly; the quadrant and symmetry laws of rotate are proved.', na='the error bound of 32 data-dependent shift-add iterations relative to real cosine needs transcendental real arithmetic with floor errors, which no back end here decides as a contract')
prop('C20', 'clock ticks never drift: total ticks equal elapsed time times rate',
 'After any sequence of readings of a nondecreasing timestamp, the accumulated tick equals floor of total elapsed time times Fn over (frequency times Fd) exactly, with the residual carrying the remainder. Each reading returns the increase of the tick since the previous one. No rounding error accumulates however often the clock is read.',
 'inputs histories', 'every reading history within the no-overflow range', 'A drift of one tick per many readings needs long histories.', H + 'clock.h', [('elapsed whole/fract/residual', H + 'clock.h')],
 'one-step contract preserving ticks*fd+residual = elapsed*Fn for all states; histories by induction.')
prop('C21', 'Atomic wrappers perform exactly the named sequentially consistent operation',
 'Every atomic wrapper takes effect in exactly one sequentially consistent atomic access of the named kind to the given location and returns what its name says (old value or success flag), for every operand; floating point add and sub retry until one attempt succeeds. Compare-exchange stores only when the expected value matched and reports the value seen. No other memory is touched.',
 'inputs schedules', 'every operand and prior value, every interleaving via the single-atomic-access argument', 'Tests run single threaded.', H + 'atomic.h ' + H + 'atomic_std.h', [('atomic wrappers over std atomics', H + 'atomic_std.h')],
 'IR-level contract: a single atomic instruction with seq_cst ordering, value semantics proved.')
prop('C22', 'Mutex wrappers forward each operation to the one underlying lock',
 'Each mutex operation performs exactly the corresponding operation of the underlying lock on the given object and reports its result: acquire blocks until held, try_acquire never blocks and reports truthfully, release gives up exactly one hold, shared and exclusive modes are not mixed. Construct and destroy bracket the lifetime in place.',
 'inputs schedules', 'every call, every outcome of the underlying lock', 'The repository has hardly any contention test.', 'lib/mutex_std.cpp ' + H + 'mutex.h', [('mutex wrappers', 'lib/mutex_std.cpp')],
 'contracts on the pthread calls (assumed) and exact call trace of each wrapper proved.')
prop('C23', 'CDT predicates and point location are exact and flips are legal',
 'For every mesh with 16 bit coordinates: can_flip holds exactly when the edge is not constrained and the two faces it would produce are both strictly wound; incircle is the exact sign of the in-circle determinant; on, in, collinear and refine report the exact side of each edge. locate_insertion_node and locate return 0 or a half edge (a face) of the mesh whose closed triangle contains the point (for locate with the tie break of inside), from every hint. try_flip and flip act exactly when can_flip (incircle on an unconstrained edge) says so, which is legal, and a flip replaces exactly the two triangles by the other two: flags move with their edges, neighbours are relinked, nothing else changes.',
 'inputs histories', 'all meshes, coordinates, hints and edges', 'Tests triangulate a few shapes.', H + 'cdt.h', [('predicates and location', H + 'cdt.h'), ('flips', H + 'cdt.h')],
 'exactness of predicates by nonlinear integer contracts over an arbitrary mesh; loop invariants for the walk; exact frame of a flip.')
prop('C24', 'CDT operations preserve the half-edge mesh invariants',
 'After any sequence of vertex and edge insertions and removals the triangulation is a valid mesh: every half edge has a twin that names it back, every triangle has three half edges in cyclic order, and every vertex refers to one of its edges. Constrained edges stay present, and counts obey Euler\'s formula. Vertices and constraints that were not named are unchanged.',
 'inputs histories', 'all operation histories', 'Tests run a few scripts.', H + 'cdt.h', [('link/flip/split edge operations', H + 'cdt.h')],
 'local surgery operations verified from an arbitrary valid neighbourhood.')
prop('C25', 'Enum names round trip: name of value and value of name agree',
 'For every enumerator in the scanned range, the name produced for its value is exactly its identifier (without scopes), and looking this name up gives the value back. Values that are no enumerators are reported as such and never read outside the name table. Distinct values give distinct entries.',
 'inputs programs', 'every value of an enum type', 'The tests look at one enum.', H + 'nameof.h', [('nameof tables', H + 'nameof.h')], 'lookup loops verified for every value and every query text over the compiled tables.')
prop('C26', 'Structured text output and field reflection name every field once',
 'Splitting the text of an argument list into names yields one trimmed, NUL terminated name per expression, inside the table: commas separate only outside of ()[]{} brackets and of quoted text (a backslash escapes the next character inside quotes), and the last name takes the rest. Reflected field names are the comma separated names without surrounding spaces. A visitor sees every field and element of an aggregate, array, list or vector exactly once, in order, between enter and leave. No character outside the source text and table is accessed.',
 'inputs programs', 'every source text', 'Tests log few expressions.', H + 'ce.h ' + H + 'io.h', [('names constructor', H + 'ce.h'), ('io reflection', H + 'io.h')], 'loop contracts on the splitting loop: memory safety and termination for every text.')
prop('C27', 'span and vector helpers obey their algebra for every operand',
 'skip and trim of a span drop exactly the requested count from the front or back, clamp to empty, and never leave the original span. Vector operators act component-wise, comparisons hold exactly when every component agrees, and compound assignment equals the binary operation. Dot and cross products equal the mathematical ones in the widened type (dotx of three components up to 2^30 in magnitude).',
 'inputs', 'every span, count and component', 'Tests touch few values.', H + 'ce.h', [('span skip/trim', H + 'ce.h'), ('vec operators', H + 'ce.h')], 'bit-precise contracts for all values.')
prop('C28', 'Log and error hooks receive every argument once, in order, with the right name',
 'A failed assertion or a log call passes to the hook a table with one entry per argument in source order, each with its text and name, followed by a null entry, and the level that was asked for. os::log and os::error print the entries of the table in order, each once, and os::error asks to break exactly for level 0. An assertion that holds has no effect.',
 'inputs', 'every argument value and count', 'Tests only observe a few calls.', H + 'ce.h lib/os.cpp', [('call_error_hook/call_log_hook', H + 'ce.h'), ('os::log', 'lib/os.cpp')], 'hook tables verified for instantiated arities with symbolic arguments.')

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
            assert len(p['title']) <= 80, p['id']
    checks = []; na = []
    for p in P:
        if os.path.exists(os.path.join(ROOT, 'props', p['id'], 'spec.py')):
            checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'], evidence_file='evidence/%s.json' % p['id'],
                technique=p['tech'] or 'contract-based deductive verification of the compiled functions (own VC generator over LLVM IR; z3/cvc5/GF(2))', level='proof',
                level_note=p['note'] + ' Assumes: clang front end to -O0 IR, the VC generator and solvers; details in the evidence file.'))
        else: na.append(dict(property=p['id'], reason=p['na'] or 'no check built yet'))
    m = dict(version=1, setup_cmd='python3-vt -m compileall -q cev || true', hooks=dict(guard='CE_VERIF', enable='no hooks are needed: the checks read the unmodified sources (guard name reserved, unused)', source_commits=[]),
        checks=checks, not_applicable=na, notes='every check rebuilds its instantiation file from /repo and re-proves every obligation; see DESIGN.md')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
