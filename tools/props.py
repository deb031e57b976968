# The one source of the property texts.  tools/gen.py writes properties.jsonl and MANIFEST.json from it.
L = 'library/Java/Lang/'
U = 'library/Java/Util/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique='bounded-exhaustive model checking of the real code against a reference model', note=None, claim=True, reason=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, claim=claim, reason=reason))


SEQ_NOTE = ('Every sequence of choices within the stated bounds is executed on the real code under AddressSanitizer; values outside '
            'the alphabets and longer histories are not covered. Trusted: the reference model in the harness, compiler, sanitizer.')

P('S01', 'A String is a value: its text never changes behind its owner\'s back',
  'A string holds exactly the characters it was built from (including NUL characters where the constructor is given a length), and '
  'whatever sequence of copies, assignments, appends and edits is applied to strings and to the arrays and buffers they were built '
  'from, each string shows the text its own history gives it; length, characters, bytes, hash code, equality and C string all describe '
  'that same text. Ranges outside a source array are refused with an exception. No history reads or frees memory it must not.',
  'histories inputs',
  'all constructors over all literals of the alphabet, all offset/count pairs around the array ends, all histories of 28 operations over two strings up to depth 3 (4 thorough), basic operations up to depth 4 (5)',
  'The tests build one string, call one method and compare once; cached hash codes and shared buffers only go wrong after several operations in sequence.',
  [L + 'String/String.cpp', L + 'String/String.hpp'],
  [('cached hash and C string kept in step with the text', L + 'String/String.cpp: operator=, operator+=, hashCode')], note=SEQ_NOTE)
P('S02', 'Searching and comparing strings agrees with the definitions of substring, order',
  'For every text and pattern, contains, indexOf, lastIndexOf, startsWith, endsWith and the region comparisons answer exactly what the '
  'definition of an occurrence says, also with NUL characters, empty texts and every start index. compareTo orders strings by their first '
  'differing character, then by length; equals is true exactly for the same text, equalsIgnoreCase and compareToIgnoreCase differ from '
  'them in letter case only, and equal strings have equal hash codes.',
  'inputs', 'all texts up to 8 (10) and patterns up to 6 (8) over {a,b}, up to 5 (6) over {a,b,NUL,0xE9}, all pairs up to 4 (5) over {a,A,b,NUL,0xE9}, all start indices -2..n+2',
  'The tests use a few English sentences; periodic patterns, NUL characters and indices at the ends are where hand written search goes wrong.',
  [L + 'String/String.cpp'], [('search functions', L + 'String/String.cpp: indexOf, lastIndexOf, regionMatches, compareTo')], note=SEQ_NOTE)
P('S03', 'Transformations of strings give the defined text and leave their source alone',
  'replace, replaceAll, replaceFirst, split, join, concat, subString, trim, toLowerCase and toUpperCase return exactly the text their '
  'documentation defines for every receiver and argument (every non-overlapping occurrence from the left is replaced, split followed by '
  'join gives the text back, letters other than A-Z and a-z keep their value) and do not modify the receiver.',
  'inputs', 'all texts up to 6 (7) over {a,b,NUL} x targets up to 2 x 6 replacements, up to 9 (11) over {a,b} x targets up to 4, all begin and end indices, all 7-bit characters',
  'The tests replace one word in one sentence; empty targets, adjacent and overlapping matches, matches at the ends and embedded NUL characters are not among them.',
  [L + 'String/String.cpp'], [('replacement and splitting loops', L + 'String/String.cpp: replace, replaceFirst, split, trim')], note=SEQ_NOTE)
P('S04', 'Formatting and valueOf write the text the C standard defines, at any length',
  'Formatting with any combination of flags, width and precision gives the same text as the C library for integers, floating point '
  'values, characters and texts of any length, in formats with several directives, literal text and percent signs; a format with too few '
  'arguments is refused with an exception. valueOf writes the decimal text of every primitive value and object.',
  'inputs', 'all flags x widths x precisions x conversions over boundary values, text lengths around the formatter\'s buffer sizes, all formats of up to 3 directives, all plain formats up to 6 (7) over {a,%,D,5,d}',
  'The tests use a handful of short formats; the formatter\'s buffer limits and combinations of directives are not reached.',
  [L + 'String/String.hpp', L + 'String/String.cpp'], [('buffer growth of the formatter', L + 'String/String.cpp: format, print')], note=SEQ_NOTE)
P('S05', 'A StringBuilder behaves as an editable text under every history of edits',
  'After any sequence of appends, insertions, deletions, replacements, reversals, length and capacity changes and assignments, a string '
  'builder holds exactly the text those edits define, and its length, characters, substrings, searches and extracted text agree with it; '
  'an edit with an index outside the text is refused with an exception and changes nothing. The capacity is never below the length, and '
  'no history reads or writes outside the buffer.',
  'histories inputs', 'all histories of 22 kinds of edits with boundary arguments from 5 kinds of starting sequences up to depth 2 (3), basic edits up to depth 3 (4), all searches of patterns up to 6 in texts up to 9 (11)',
  'The tests call each method once on a fresh object; growth, shrinking and reuse of the buffer only matter in sequences.',
  [L + 'StringBuilder/StringBuilder.cpp', L + 'StringBuilder/StringBuilder.hpp'], [('buffer growth and in-place edits', L + 'StringBuilder/StringBuilder.cpp')], note=SEQ_NOTE)
P('S06', 'A StringBuffer behaves as an editable text under every history of edits',
  'After any sequence of appends, insertions, deletions, replacements, reversals, length and capacity changes and assignments made by '
  'one thread, a string buffer holds exactly the text those edits define, and its length, characters, substrings, searches and extracted '
  'text agree with it; an edit with an index outside the text is refused with an exception and changes nothing. The capacity is never '
  'below the length, and no history reads or writes outside the buffer.',
  'histories inputs', 'all histories of 22 kinds of edits with boundary arguments from 5 kinds of starting sequences up to depth 2 (3), basic edits up to depth 3 (4), all searches of patterns up to 6 in texts up to 9 (11)',
  'The tests call each method once on a fresh object; growth, shrinking and reuse of the buffer only matter in sequences.',
  [L + 'StringBuffer/StringBuffer.cpp', L + 'StringBuffer/StringBuffer.hpp'], [('buffer growth and in-place edits', L + 'StringBuffer/StringBuffer.cpp')], note=SEQ_NOTE)
NUMW = L + 'Integer/Integer.cpp', L + 'Long/Long.cpp', L + 'Short/Short.cpp', L + 'Bytes/Bytes.cpp'
P('N01', 'Whole numbers and booleans convert to text and back exactly',
  'Parsing and decoding text to Integer, Short, Bytes and Long accepts exactly the numerals of the radix (with sign and, when decoding, '
  'base prefix) whose value fits the type and gives that value; anything else is refused: a NumberFormatException, except for Long, which answers -1. '
  'The decimal, binary, octal, hexadecimal and unsigned texts of a value are its numerals, and parsing them gives the value back. '
  'Text is the boolean true exactly when it spells "true" in any case.',
  'inputs', 'all texts up to 3 (4) over 14 characters x 12 radixes, prefixes x digits up to 3 (4), the numerals within 3 of every type limit in every radix 2..36 with prefixes and junk, all 16 bit values, all words with up to 3 bits set, runs and complements',
  'The tests parse a few ordinary numbers; limits, overflow by a digit, signs without digits and unusual radixes are where parsers go wrong.',
  list(NUMW) + [L + 'Boolean/Boolean.cpp'], [('overflow and digit checks', L + 'Integer/Integer.cpp: parseInt, parseUnsignedInt, decode')], note=SEQ_NOTE)
P('N02', 'Bit operations and conversions of whole numbers are right for every word',
  'Bit counts, highest and lowest bit, leading and trailing zeros, reversal of bits and bytes, rotation by any distance, sign, hash code '
  'and the unsigned comparison, division and remainder of Integer and Long give what their bitwise definition says for every word. '
  'Conversions between the number classes narrow and widen as the primitive types do.',
  'inputs', 'all words with up to 3 bits set, all runs of ones, powers of ten and their complements, every 16 bit pattern at every eighth position, all rotation distances -66..66 (-130..130), all pairs of about 90 boundary values',
  'The tests try one or two positive words; the sign bit and the words next to powers of two are not among them.',
  [L + 'Integer/Integer.cpp', L + 'Long/Long.cpp', L + 'Short/Short.cpp', L + 'Bytes/Bytes.cpp'], [('bit twiddling', L + 'Long/Long.cpp, ' + L + 'Integer/Integer.cpp')], note=SEQ_NOTE)
P('N03', 'Boxed numbers behave as the numbers they hold under every history of operators',
  'After any sequence of constructions, copies, assignments, arithmetic and compound operators, also with an object as both operands, an '
  'Integer, Long, Short, Bytes, Float or Double shows the value, text, order, equality and hash code of the number that arithmetic on its '
  'type defines; operands are not changed. Division and remainder of whole numbers by zero are refused with an ArithmeticException, '
  'leaving the object as it was.',
  'histories inputs', 'all operators and comparisons on all pairs of boundary values, all histories of assignments, copies and operators over two objects up to depth 2 (3), basic ones up to 3-4 (4-5)',
  'The tests apply one operator to fresh objects; the text an object keeps beside its value only goes stale after a second operation.',
  list(NUMW) + [L + 'Float/Float.cpp', L + 'Double/Double.cpp'], [('value and cached text kept in step', L + 'Long/Long.cpp, Double.cpp, Float.cpp: operators')], note=SEQ_NOTE)
P('N04', 'Floating point numbers compare, hash, print and parse as IEEE 754 numbers',
  'The bit images of Float and Double are distinct for distinct numbers, ordered as the numbers, and convert back to them; comparison is a '
  'total order in which NaN equals itself and is greatest; equal objects have equal hash codes; NaN, infinities and finite numbers are told '
  'apart. Parsing accepts exactly the decimal numerals, with the nearest value, and refuses other text with a NumberFormatException; a number printed with enough digits parses back to itself.',
  'inputs', 'every sign and exponent x 7-8 significands for both types, 262144 floats on a grid, all pairs of boundary values and neighbours, every text up to 6 over 10 characters, numerals of up to 400 digits around the exponent limits',
  'The tests use a few decimal fractions; subnormals, signed zero, NaN and values next to powers of two are not tried.',
  [L + 'Float/Float.cpp', L + 'Double/Double.cpp'], [('bit images', L + 'Double/Double.cpp: doubleToLongBits'), ('text to number', L + 'Float/Float.cpp: parseFloat')], note=SEQ_NOTE)
P('N05', 'Math is exact where it promises exactness and never wraps silently',
  'The exact operations give the mathematical result or refuse with an ArithmeticException when it does not fit; floor division and '
  'modulus follow the definition for all signs; round, floor, ceil and rint give the defined nearest integers with saturation; '
  'neighbouring values, unit in the last place, exponent and scaling are exact for every magnitude. The transcendental functions agree with the C library.',
  'inputs', 'all pairs of about 90 boundary ints and longs, all pairs of -70..70, products around overflow, every sign and exponent of float and double x 7-8 significands, multiples of 1/8 next to nine powers of two, scaling by all exponents',
  'The tests use small numbers; overflow and halfway cases are exactly what they miss.',
  [L + 'Math/Math.cpp', L + 'Math/Math.hpp'], [('overflow tests', L + 'Math/Math.cpp: multiplyExact, toIntExact'), ('rounding', L + 'Math/Math.cpp: round')], note=SEQ_NOTE)
P('N06', 'Digits, order and code points are right for every character',
  'The digit value of a code point in a radix is its value as a numeral, or -1 when it is none or the radix is not 2 to 36. Characters are compared by their codes, '
  'and for arrays of 7-bit characters the code points at, before and counted from an index are those of the array within the limits given, and -1 outside them.',
  'inputs', 'all 256 characters, code points 0..1023 and limits x radixes -1..40, all pairs of characters, all arrays up to 4 (5) over 4 characters x all indices and limits',
  'The tests look at a few letters and digits.',
  [L + 'Character/Character.cpp', L + 'Character/Character.hpp'], [('digit values', L + 'Character/Character.cpp: digit')], note=SEQ_NOTE)
P('C01', 'An ArrayList is a growable sequence under every history of operations',
  'After any sequence of additions, insertions, removals by position or by element, replacements, clearing, copies and assignments, a list holds '
  'exactly the elements those operations define, in that order: size, element access, searching, iteration, visiting, array and text form all show them. '
  'Reading, replacing or removing outside the list is refused with an IndexOutOfBoundsException and changes nothing; copies are independent of each other, and '
  'adding an element of the list to the list itself is safe.',
  'histories inputs', 'all histories of 14 kinds of operations over two lists from 5 kinds of starting lists up to depth 2-3 (3), of 6 kinds up to depth 4 (5), lists of lists up to depth 3 (4); elements Integer and String',
  'The tests add a few elements and call one method; what removal and growth leave behind shows only in sequences.',
  [U + 'ArrayList/ArrayList.hpp', 'library/Kernel/Java.hpp'], [('element storage and removal', U + 'ArrayList/ArrayList.hpp: add, remove, set')], note=SEQ_NOTE)
P('C02', 'A LinkedList is a list, queue, stack and deque under every history of operations',
  'After any sequence of operations at either end, by position or by node, of copies and of assignments, a linked list holds exactly the elements those '
  'operations define, in that order, and both ends, size, positions and iteration agree. Taking from an empty list is refused with a NoSuchElementException '
  '(peeking gives a default element), positions outside are refused or ignored without effect; nodes may be removed while the list is visited, every node is visited once, and a node of '
  'another list cannot be removed.',
  'histories inputs', 'all histories of 24 kinds of operations over two lists up to depth 3 (4), of 9 kinds up to depth 5 (6); elements Integer, String, int',
  'The tests exercise one end once; the links at the ends, in the middle and after removal of the last node need sequences.',
  [U + 'LinkedList/LinkedList.hpp', U + 'Collection/Collection.hpp'], [('linking and unlinking of nodes', U + 'LinkedList/LinkedList.hpp')], note=SEQ_NOTE)
P('C03', 'Vector and Stack are growable sequences under every history of operations',
  'After any sequence of insertions, removals, replacements, bulk operations, size and capacity changes, copies and assignments, a vector holds exactly the elements '
  'those operations define, and searches, iteration and text form agree; indices outside are refused with an exception and change nothing, and elements of the vector may be arguments of its own methods. The capacity grows by '
  'the increment given at construction, or else to twice the capacity, and is never below the size. A stack gives back elements last in, first out; popping or peeking an empty stack is refused with an EmptyStackException.',
  'histories inputs', 'all histories of 25 kinds of operations over two vectors from 5 kinds of starting vectors up to depth 2 (3), of basic kinds up to depth 4 (5), growth after all 8 constructions, all stack histories up to depth 6 (7); elements Integer, String, int',
  'The tests call each method once on a vector that need not grow; capacity and aliasing faults appear when growth and removal are combined.',
  [U + 'Vector/Vector.hpp', U + 'Stack/Stack.hpp'], [('buffer growth and shifting of elements', U + 'Vector/Vector.hpp: ensureCapacity, insertElementAt')], note=SEQ_NOTE)
P('C04', 'A HashMap is a finite map under every history of operations',
  'After any sequence of put, putAll, putIfAbsent, replace, remove (with and without value), clear, copies and assignments, a map associates with each key '
  'exactly the value last given to it; every operation answers what the map held before, and size, lookups, default lookups, iteration, key and value '
  'views and text form agree. Maps are equal exactly when they hold the same associations. Copies are independent of each other, and keys and values of the map may be arguments of its own methods.',
  'histories inputs', 'all histories of 15 kinds of operations over two maps from 3 starting maps up to depth 2-3 (3), of basic kinds up to depth 3-4 (4-5), for 4 pairs of key and value types, all pairs of maps over 3 keys, maps up to 300 keys',
  'The tests put three keys and read them; the answers of conditional operations depend on the history.',
  [U + 'HashMap/HashMap.hpp', U + 'Map/Map.hpp'], [('conditional updates', U + 'HashMap/HashMap.hpp: putIfAbsent, replace, remove')], note=SEQ_NOTE)
P('C05', 'A Set holds each element once, in order, under every history of operations',
  'After any sequence of add, remove, clear and assignments, a set contains exactly the elements added and not removed since, each once, and iterates over them in ascending '
  'order; add and remove answer whether they changed the set; size, isEmpty and contains agree. An element of the set may be the argument of its own removal.',
  'histories', 'all histories of 6 kinds of operations over two sets and 4 elements up to depth 5 (6); elements Integer, String, int',
  'The tests add a few distinct elements.',
  [U + 'Set/Set.hpp'], [('membership answers', U + 'Set/Set.hpp: add, remove')], note=SEQ_NOTE)
P('C06', 'A PriorityQueue always gives a greatest remaining element first',
  'After any sequence of add, offer, poll, removal of an element, clear, copies and assignments, the queue holds exactly the elements added and not taken since; '
  'peek shows and poll takes a greatest one (a default element when empty, leaving the queue empty), and draining gives them in descending order. remove takes one occurrence and answers whether there was one; '
  'size, contains and the array forms agree, and an array that is large enough is filled itself; a capacity below 1 is refused.',
  'histories inputs', 'all histories of 7 kinds of operations from 4 starting queues up to depth 4 (5), then drained, all sequences of up to 8 (9) adds over 3 values with every removal; elements Integer, String, int',
  'The tests poll queues of one shape; the heap order breaks only for particular shapes and removals from the middle.',
  [U + 'PriorityQueue/PriorityQueue.hpp'], [('heap order', U + 'PriorityQueue/PriorityQueue.hpp: siftUp, siftDown, remove')], note=SEQ_NOTE)
P('C07', 'A BitSet is a set of positions under every history of operations',
  'After any sequence of setting, clearing and flipping bits and ranges, of and, or, xor, and-not, copies, assignments and swaps, a bit set contains exactly the positions '
  'those operations define; membership, cardinality, length, emptiness, searching, ranges taken out, intersection, equality and text form agree with it at every position. '
  'A negative size is refused, and no operation changes or reads anything outside the set.',
  'histories inputs', 'all histories of 17 kinds of operations with 9 positions around the word boundaries from 10 starting sets up to depth 2, of basic kinds up to depth 3 (4); all ranges from word boundaries in 9 patterns of 200 bits; sets of more than 128 words',
  'The tests use positions inside one word; ranges that end at a word boundary and sets of different length go wrong unseen.',
  [U + 'BitSet/BitSet.cpp', U + 'BitSet/BitSet.hpp'], [('word masks of ranges', U + 'BitSet/BitSet.cpp: set, clear, flip, get')], note=SEQ_NOTE)
P('C08', 'Arrays sorts, searches, copies, fills and compares exactly the range asked for',
  'Sorting a range (whose two ends both belong to it) leaves it in ascending order with the same elements and everything else untouched; binary search finds a position of the key in a sorted range or gives -1 when it is absent; '
  'copies are cut or padded with zero elements; filling a range changes exactly that range, and an invalid range is ignored; equality and hash codes depend on '
  'length and elements as defined, and equal arrays have equal hash codes.',
  'inputs', 'all arrays up to length 4-6 (5-7) over 4-5 values and all their ranges, for boolean, byte, char, short, int, long, float, double, String, Integer; sequences of up to 40 numbers in 7 arrangements',
  'The tests sort and search one array per type; ends of ranges, repeated elements and short ranges are missed.',
  [U + 'Arrays/Arrays.hpp', 'library/Kernel/Java.hpp'], [('ranges', U + 'Arrays/Arrays.hpp: sort, binarySearch, fill, copyOfRange')], note=SEQ_NOTE)
P('C09', 'A ConcurrentHashMap used by one thread is a map, at every size and for all keys',
  'After any sequence of put, putIfAbsent, replace, remove, clear, copying, cloning and assignment, a map holds exactly one entry for every key put and not removed, with the value it was last '
  'given, however many keys there are and however alike they, their texts or their hash codes are. size, isEmpty, get, getOrDefault, containsKey, containsValue, find, equals, forEach and iteration all describe those entries, '
  'the calls that change a key return its former value or a default value, and copies are independent.',
  'histories inputs', 'all histories of 15 kinds of operations over two maps up to depth 2 (3) for four key and value types, basic ones up to 3 (4); up to 400 (5000) keys of 9 number and 6 text patterns, removed in four ways and put again; 40000 (300000) keys with the original table constants',
  'The tests put a handful of keys; growing the table, displacing keys and keys that agree in most of their bits are not reached.',
  [U + 'Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp', U + 'Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh', L + 'String/String.hpp'],
  [('wrapper methods', U + 'Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp'), ('displacement and doubling', U + 'Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh')], note=SEQ_NOTE)
P('C10', 'An Array holds the elements it was given in order, and copies are its own',
  'The Array the whole library passes around holds, after any sequence of construction (empty, of a length, of listed elements, of a null-ended array of C texts), push, +=, element assignment, copying and assignment, exactly those '
  'elements in that order. length, get, [] and iteration describe them, an array made with a length holds that many default values, an index outside is refused and changes nothing, an element may be one of the array\'s own, and '
  'a change to an array, or to an array inside it, is never seen in a copy.',
  'histories inputs', 'all histories of 9 kinds of operations over two arrays from 8 starting ones up to depth 4 (5) for three element types; all lists of up to 4 (5) of 4 C texts; all histories of up to 5 (6) operations on arrays of arrays; 301 lengths x 2 ways to build',
  'The tests push a few numbers; adding an element of the array itself while it grows, nested arrays and independence of copies need histories.',
  ['library/Kernel/Java.hpp', 'library/Kernel/Type.hpp'], [('class Array', 'library/Kernel/Java.hpp')], note=SEQ_NOTE)
P('E01', 'Base64 is exact for every byte sequence and its decoder takes no other text',
  'For the basic, URL-safe and MIME forms, with and without padding and with any line length and separator, encoding gives the text of RFC 4648 and RFC 2045, and decoding it gives back the bytes; '
  'encoding or decoding into an array gives the same and refuses one that is too small. The basic and URL-safe decoders refuse every malformed text; the MIME decoder skips what is not in the alphabet; line separators with characters of '
  'the alphabet are refused.',
  'inputs', 'all byte pairs, all triples over 20 (64) bytes, all lengths to 240 of 6 patterns in 14 forms; all texts up to 5-7 (6-9) over 6-11 characters through each decoder; 100-line texts with junk',
  'The tests encode a few sentences; padding, line ends, high bytes and malformed texts need enumeration.',
  [U + 'Base64/Base64.cpp', U + 'Base64/Base64.hpp'], [('encoder and decoder loops', U + 'Base64/Base64.cpp: encode0, decode0')], note=SEQ_NOTE)
P('E02', 'URL encoding and decoding are exact inverses for every text',
  'Encoding writes letters, digits and the unreserved marks as they are, a blank as +, and every other byte as % and two hexadecimal digits; decoding a well formed text gives the '
  'bytes it stands for, so decoding what was encoded gives the text back, NUL bytes and bytes above 127 included. Encodings other than UTF-8 (in any case) are refused '
  'with an UnsupportedEncodingException, and no text makes the decoder read outside it.',
  'inputs', 'all texts of up to two bytes, all up to 5 (6) over 10 characters, all inputs of the decoder up to 6 (7) over 8 characters, texts of up to 600 bytes',
  'The tests encode a handful of texts.',
  ['library/Java/Net/URLEncoder/URLEncoder.cpp', 'library/Java/Net/URLDecoder/URLDecoder.cpp'], [('escaping', 'library/Java/Net/URLEncoder/URLEncoder.cpp: encode'), ('unescaping', 'library/Java/Net/URLDecoder/URLDecoder.cpp: decode')], note=SEQ_NOTE)
P('E03', 'MD5 and SHA-1 digests are right for every message however it is cut',
  'For every message, given in any number of pieces of any size and alignment, the digest is the one RFC 1321 or RFC 3174 defines; asking again gives the same digest, reset and the first update '
  'after a digest begin a new message, and instances do not influence each other. Unknown algorithms are refused with a NoSuchAlgorithmException; a missing input, a missing buffer and a buffer '
  'that is too small are refused without effect, and nothing is written behind the digest.',
  'inputs histories', 'all lengths up to 200 (400) of 5 patterns cut at every place, all cuttings of 200 bytes into 6 piece sizes, all histories of 6 kinds of operations over an MD5 and a SHA1 up to depth 3 (4), of 4 kinds up to 4 (5), messages above 2^32 bits',
  'The tests digest two sentences; padding depends on the length modulo 64, and the state after a digest is never looked at.',
  ['library/Java/Security/MessageDigest/MessageDigest.cpp', 'library/Java/Security/MessageDigest/md5.cpp', 'library/Java/Security/MessageDigest/sha1.cpp'], [('block buffering and padding', 'library/Java/Security/MessageDigest/md5.cpp: md5_append, md5_finish; sha1.cpp: SHA1_Update, SHA1_Final')], note=SEQ_NOTE)
P('E04', 'UUIDs are well formed, read back from text, and time UUIDs never repeat',
  'The text of a UUID is its 32 hexadecimal digits in groups, reading it (in either case) gives an equal UUID, and its fields, hash code, equality and order are those of the two words. '
  'Random UUIDs have version 4 and variant 2 and keep all other bits of the random source. Time UUIDs have version 1 and variant 2 and carry the time they were made; no two are equal however fast they are made and '
  'however the clock jumps, nor across processes which share the state file, even when one is killed at any point.',
  'inputs histories crash_points', 'all pairs of 101 words; all byte values at all places of the random source, whole and in pieces; all histories of bursts and 7 (4) clock steps up to depth 4 (6); two processes, 4 clock steps, a kill at each of 16 calls, up to depth 3 (4)',
  'The tests make one UUID and compare it with itself; clocks that stand still or go back and killed processes need an environment under control.',
  [U + 'UUID/UUID.cpp', U + 'UUID/libuuid/gen_uuid.c', U + 'UUID/libuuid/randutils.c'], [('clock sequence and state file', U + 'UUID/libuuid/gen_uuid.c: get_clock'), ('text form', U + 'UUID/UUID.cpp: toString, fromString')], note=SEQ_NOTE)
P('E05', 'A MediaType reads its own text, and compatibility follows the wildcard rules',
  'MediaType.valueOf reads the type and subtype a text names, leaving out parameters and blanks around it, and refuses a text that names none, or a wildcard type with a subtype, with a MediaTypeException; so do the '
  'constructors. Printing a media type and reading it again gives the same one. Two media types are compatible exactly if a type is the wildcard, or the types agree and the subtypes agree, one is the wildcard, or they '
  'have the same suffix and one is the wildcard with that suffix; the relation is reflexive and symmetric and survives copying. The constants name the types they stand for.',
  'inputs', 'all pairs of 6 types x 16 subtypes in both orders; all texts up to 6 (7) over 8 characters; all types and subtypes up to 3 over {a,*,+}, with up to 2 parameters; all constants',
  'The tests compare a handful of constants; wildcards on either side, suffixes and missing parts meet in combinations they do not make.',
  ['library/Javax/Ws/Rs/Core/MediaType.cpp'], [('reading and comparing', 'library/Javax/Ws/Rs/Core/MediaType.cpp: valueOf, isCompatible, toString')], note=SEQ_NOTE)
P('U01', 'Random is the documented generator: the same seed gives the same numbers',
  'A Random is determined by its seed: it produces exactly the sequence of the documented linear congruential generator, for every kind of draw in every order, setSeed starts that sequence again, and a copy continues '
  'as the original would. Bounded draws lie within their bound, real draws in [0, 1), a bound that is not positive is refused, and nextBytes fills exactly the array it is given.',
  'histories inputs', 'all histories of 12 kinds of draws, reseeding and copying up to depth 5 (6) from 3 seeds; 2000 draws of each kind from 73 seeds; 500 draws for all bounds up to 130 and around all powers of two; texts and arrays of all lengths up to 300',
  'The tests check that two draws differ or fall in a range; state left over from an earlier draw (the second Gaussian) and rejected draws only show in sequences.',
  [U + 'Random/Random.cpp'], [('generator step, Gaussian pair', U + 'Random/Random.cpp: next, nextGaussian, nextInt')], note=SEQ_NOTE)
P('U02', 'A Date shows and keeps the instant it was set to, in every time zone',
  'The fields a Date shows are those of its instant in the process\'s time zone by the Gregorian calendar, including daylight saving time; setting one field moves the instant to where that field has the new value and '
  'the others stay, with overflow carried as mktime defines. Dates are independent of each other; order, equality and hash code are those of the instants. UTC and GMT texts do not depend on the zone. '
  'Date.parse reads every documented way to write a date, time and zone and refuses what is none.',
  'histories inputs configurations', 'every day from 1970 to 2100 (1900 to 2400) at 5 hours in 6 time zones; every half hour around clock changes in 6 years; all histories of 32 settings over two dates up to depth 2, of 9 settings up to 3; 136080 combinations of ways to write a date; 16 texts with every 1-2 characters inserted, replaced or removed, against the documented rules; all texts up to 5 (6) over 10 characters; hours that do not exist or exist twice are excluded',
  'The tests run in one time zone with one Date at a time; shared buffers, daylight saving time and carries only show with several dates and zones.',
  [U + 'Date/Date.cpp'], [('fields and instant kept in step', U + 'Date/Date.cpp: initializeDate, set*, getTime'), ('reading of texts', U + 'Date/Date.cpp: parse')], note=SEQ_NOTE)
P('U03', 'Formatting a date writes it in the formatter\'s zone and changes nothing else',
  'SimpleDateFormat.format writes every conversion of its pattern as the C standard defines it for the date\'s instant in the formatter\'s own time zone (UTC if none was set), at any length, with the other '
  'characters as they are. Formatting does not change the date, the time zone of the process or of other formatters, and a TimeZone keeps its ID whatever other zones are asked for.',
  'inputs histories configurations', 'all pairs of 48 pattern items at 18 instants in 6 zones in processes of 7 zones, all triples at one (18) instants, every day from 1970 to 2100 with week numbers, every half hour around clock changes, patterns of up to 120 (400) items, all histories of 7 operations over two formatters and two zones up to depth 4 (5)',
  'The tests format one date with one pattern in three zones; the environment the formatter borrows and texts beyond its buffer are not looked at.',
  ['library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp', U + 'TimeZone/TimeZone.cpp'], [('borrowing and restoring the TZ of the process', 'library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp: format')], note=SEQ_NOTE)
P('U04', 'Exceptions carry their message and cause and are caught as their ancestors only',
  'Every exception class keeps exactly the message and the cause it was made with; without a message it is empty, without a cause it is null. An exception is caught as its own class and each ancestor of the '
  'documented hierarchy, by reference or value, and by nothing else; copies keep message and cause, so walking the causes visits the chain that was built and ends.',
  'inputs histories', 'all 26 classes x 4 constructors x 26 handlers x 5 messages by reference and value; all chains of causes of up to 3 exceptions of any class and up to 4 (5) of 6 classes, built in dirtied memory',
  'The tests make each exception in fresh memory and read back what they stored; the cause of an exception made without one, and handlers of unrelated classes, are not tried.',
  [L + 'Throwable/Throwable.cpp', L + 'Throwable/Throwable.hpp', L + 'Exception/Exception.cpp'], [('message and cause', L + 'Throwable/Throwable.cpp'), ('hierarchy', L + 'Exception/Exception.hpp')], note=SEQ_NOTE)
P('U05', 'Application passes its command line and ends with the right status',
  'Application calls the program once with exactly the arguments it got, in order, and gives 0 when the program returns and 1 when it throws anything at all, after printing the message of an Exception or that something unhandled was '
  'thrown; the next call is not affected. System.out prints exactly the text of each value, with one line end for println. System.getenv gives the value a variable has at that moment and an empty text for one that is not set, '
  'currentTimeMillis is the time of day, an Enum keeps its name and is compared by its ordinal, and an Object keeps its hash code, is equal to those with the same one, and prints as its class and hash code.',
  'inputs histories', 'all command lines of up to 3 (4) arguments over 4 texts x 18 ways to end x messages; all sequences of up to 3 (4) of 24 prints; all histories of up to 4 (5) changes of 3 environment variables; 1800 enum pairs; all pairs of 4 objects x 9 hash codes',
  'The tests run one program that returns and one that throws; other ends, odd arguments and changing variables are not tried.',
  [L + 'Object/Object.cpp', L + 'System/System.cpp', L + 'System/System.hpp', L + 'Enum/Enum.hpp'], [('Application', L + 'Object/Object.cpp: Application'), ('printing and environment', L + 'System/System.cpp')], note=SEQ_NOTE)

CONC_NOTE = ('Every schedule of the real threads with at most the stated number of preemptions is executed under a controlled scheduler at every '
             'synchronisation operation and shared access; memory is sequentially consistent, so reordering by weak memory is only seen as a data race. '
             'Trusted: the scheduler, the compiler\'s thread instrumentation, the reference models.')
P('S07', 'A StringBuffer shared by threads behaves as if its methods ran one at a time',
  'Whatever threads do with one StringBuffer at the same time (appending, inserting, replacing, deleting, searching, reading, copying it, changing its length or capacity), each call takes effect as a whole at '
  'one moment between its start and its end: results and final text are those of some sequential order of the calls. There is no data race, and '
  'threads that use two buffers in opposite orders, or one buffer as the argument of its own method, neither block for ever nor see a half-made change.',
  'schedules', 'all pairs of 55 operations, one against two, and three threads, all interleavings of up to 2 (3) preemptions, or 1 (2) for three threads; two buffers in opposite orders',
  'The tests use one thread; a torn read or a deadlock needs a switch of threads at one particular point.',
  [L + 'StringBuffer/StringBuffer.cpp', L + 'StringBuffer/StringBuffer.hpp'], [('the lock of a buffer and of its argument', L + 'StringBuffer/StringBuffer.cpp')],
  technique='stateless model checking of the real code under a controlled scheduler, preemption bounded', note=CONC_NOTE)
P('T01', 'A Semaphore never hands out a permit twice, loses one, or forgets a waiter',
  'In every interleaving of acquire, tryAcquire (timed or not), release and availablePermits, each call behaves as if it happened at one moment: an acquire returns only when the permits it asks for are '
  'there and takes exactly those, a release adds exactly its number, and tryAcquire tells whether it took them. A waiting thread for which enough permits are there comes back, in whatever order waits and releases meet; a timed wait '
  'ends at its time, however it is woken before, and not earlier without its permits. What is done before a release is seen after the acquire it enables.',
  'schedules', 'all pairs of 13 calls (0-3 permits) up to 3 (5) preemptions, two calls each in two threads, 3 and 4 threads up to 1-2 (2-3); timeouts and spurious wakeups at every point',
  'The tests use sleeping threads, which meet in one order only; a lost wakeup needs a release between a check and a wait.',
  [U + 'Concurrent/Semaphore/Semaphore.cpp', U + 'Concurrent/Semaphore/Semaphore.hpp'], [('waiting and waking', U + 'Concurrent/Semaphore/Semaphore.cpp: acquire, tryAcquire, release')],
  technique='stateless model checking of the real code under a controlled scheduler, preemption bounded', note=CONC_NOTE)
P('T02', 'A Thread runs its target once, join waits for its end, and no schedule breaks it',
  'start runs the target (a Runnable, a function, or nothing) exactly once in a new thread, however often and from however many threads it is called. isAlive is true from start until the target has ended and false before and '
  'after; join returns only after the target has ended and then lets every caller see all it did, join with a time at the latest at that time, joining a thread that was not started returns at once; any number of '
  'threads may join. A Thread may be destroyed, detached or not, at any point of its life. Names and ids can be read and set at any time; sleep takes at least its time.',
  'schedules histories', 'all sequences of up to 3 (4) calls on one Thread, up to 3 joining and starting threads, observers, destruction at every point, 2-3 (3-5) preemptions, timeouts and spurious wakeups at every point',
  'The tests start a thread, sleep and look; the moments just around start and end, and several joining threads, are not reached by sleeping.',
  [L + 'Thread/Thread.cpp', L + 'Thread/Thread.hpp'], [('start and end of the thread, join', L + 'Thread/Thread.cpp: start, execute, join, detach')],
  technique='stateless model checking of the real code under a controlled scheduler, preemption bounded', note=CONC_NOTE)
P('T03', 'A ConcurrentHashMap acts as if its calls ran one at a time in every schedule',
  'In every interleaving, put, putIfAbsent, get, getOrDefault, remove, replace (all forms), containsKey, containsValue, forEach, clear, clone, copies, assignment and equals each behave as if they '
  'happened at one moment between call and return: no element is lost, doubled or brought back, none is missed by a reader or seen with a value it never had, also while other threads make the table grow and '
  'move elements about. No call throws, blocks for ever or hangs because of another, and the action given to forEach may use the map. What was written before a put is seen by whoever gets the '
  'value. size and isEmpty are exact when no call is in progress and never further off than the calls in progress can explain.',
  'schedules', 'all pairs of 22 calls up to 1 (2) preemptions, of nine calls up to 2 (3), 10 (18) calls against two, 3 threads with one of 7 (10) calls each, 14 kinds of calls in full, just doubled and nearly full tables with int and String values, puts that displace elements interrupted once and twice by removal of a key and another put, forEach actions that use the map',
  'The tests use the map from one thread; moves between buckets, table doubling and their meeting with readers need particular interleavings in nearly full tables.',
  [U + 'Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp', U + 'Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh'],
  [('wrapper methods', U + 'Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp'), ('bucket locks, displacement, doubling', U + 'Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh')],
  technique='stateless model checking of the real code under a controlled scheduler, preemption bounded', note=CONC_NOTE)
P('T04', 'Every element put into a ConcurrentLinkedQueue comes out once, in order',
  'In every interleaving of add, offer, poll, clear, size and isEmpty, each element added is polled at most once, not before it was added, and stays in the queue until it is polled or cleared: none is lost, '
  'doubled or replaced. Elements added by one thread come out in the order in which it added them. A poll that no other poll or clear overlaps finds an element when there is one, and gives a default value when there is none. '
  'What was written before add is seen by whoever polls the element; an element taken out, or left in a destroyed queue, is destroyed exactly once. size and isEmpty are exact when no call is in progress and otherwise off by no more '
  'than the calls in progress can explain. Used by one thread, the queue is exactly first in, first out.',
  'schedules histories', 'all pairs of programs of 1-2 calls of 4 (6) kinds up to 1 (2) preemptions, of add and poll up to 2 (3), of exactly 3 (4) calls, three threads, block boundaries and block reuse, 2-3 (4) new producers, all single-thread histories of 6 (8) calls',
  'The tests add and poll in one thread; the lock-free queue recycles blocks and grows its producer table only after many calls, and its races need two threads inside at once.',
  [U + 'Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp', U + 'Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp'],
  [('wrapper methods', U + 'Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp'), ('sub-queues of producers, blocks, free list', U + 'Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp')],
  technique='stateless model checking of the real code under a controlled scheduler, preemption bounded', note=CONC_NOTE)
P('T05', 'Threads that share a Random share one sequence of numbers',
  'In every schedule, each step of the generator is handed out once and the calls of several threads take steps in an order consistent with their time: draws of one step are consecutive elements of the '
  'sequence of the seed; draws of several steps (nextLong, nextDouble, nextString, nextBytes) take them in order, possibly with steps of other threads between. Each Gaussian number is handed out once, and nextGaussian, setSeed and '
  'copying exclude each other. Randoms made without a seed at the same moment by several threads differ. No call is a data race with another.',
  'schedules', 'all pairs of 12 kinds of calls up to 3 (4) preemptions, programs of two calls each up to 2, nextGaussian and setSeed in programs of two or three calls up to 2 (4), three threads up to 2 (3), two and three threads that make an unseeded Random at once up to 2 (4)',
  'The tests draw from one thread; a number handed out twice needs a switch between two instructions of the generator.',
  [U + 'Random/Random.cpp', U + 'Random/Random.hpp'], [('compare-and-swap of the seed, lock of the Gaussian pair, seed uniquifier', U + 'Random/Random.cpp: next, nextGaussian, setSeed')],
  technique='stateless model checking of the real code under a controlled scheduler, preemption bounded', note=CONC_NOTE)
P('T06', 'UUIDs that several threads of a process make at once all differ',
  'In every schedule, the ids that threads of one process make, the first of the process or later ones, with or without a state file to share the clock through, are all different, have the right version and variant, '
  'carry a time between the beginning and the end of the call that made them, and name the same node. No call is a data race with another and none blocks for ever.',
  'schedules configurations', 'all pairs of timeUUID and randomUUID up to 3 (4) preemptions and of programs of two up to 2 (3), three threads up to 2, bursts of six ids in two threads up to 2, each with and without a state file and an earlier id, clocks of two speeds',
  'The tests make ids in one thread; the clock state is shared by all threads and a repeated id needs a switch inside the few instructions that update it.',
  [U + 'UUID/UUID.cpp', U + 'UUID/libuuid/gen_uuid.c', U + 'UUID/libuuid/randutils.c'], [('clock state shared by the threads', U + 'UUID/libuuid/gen_uuid.c: get_clock')],
  technique='stateless model checking of the real code under a controlled scheduler, preemption bounded', note=CONC_NOTE)
P('T07', 'Threads that work on objects of their own do not affect each other',
  'There is no hidden shared state: whatever operations of the library two or three threads perform at the same time on objects none of them shares, first use of a class in the process included, each gives exactly the result it gives '
  'alone, and no operation is a data race with another. This holds for text, numbers, collections, encodings, digests, random numbers with a seed, dates and exceptions, and in particular for reading, showing and formatting dates, '
  'which use the time zone of the process: the zone a formatter borrows is never seen by another thread\'s Date or formatter, and is back at the end.',
  'schedules', '45 operations that cover all classes: each with itself in two threads up to 2 (3) preemptions, all pairs up to 2, each twice in two threads and once in three up to 1 (2); statics of the library as in a new process before every execution; the C library\'s static buffers, the environment and what libc and libstdc++ functions read and write count as memory',
  'The tests use one thread; a static buffer, a lazily made table or a borrowed environment variable works in every one of them.',
  ['library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp', U + 'Date/Date.cpp', L + 'Bytes/Bytes.hpp', L + 'String/String.cpp', U + 'Base64/Base64.cpp'],
  [('zone of the process borrowed under a lock', 'library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp: format'), ('cache made on first use', L + 'Bytes/Bytes.hpp: ByteCache::getInstance'), ('every static variable of the library', L + 'Long/Long.cpp')],
  technique='stateless model checking of the real code under a controlled scheduler, preemption bounded', note=CONC_NOTE)
P('T08', 'Threads that only read one object, or copy it, do not affect each other',
  'Reading an object does not change it: any number of threads may call the reading operations of one object (element access, search, comparison, size, iteration, conversion, printing) and copy it at the same time, as long as '
  'none changes it; each call gives the result it gives alone and no two are a data race. A copy is a separate object at once: changing it in one thread is not seen through the original or other copies. '
  'The exception is a text that belongs to the object (MediaType.toString).',
  'schedules', '22 classes with 2 to 13 reading operations each, copying, and changing a copy: all pairs in two threads up to 3 (4) preemptions, all two against one up to 2 (3), each in three threads up to 2 (3)',
  'The tests read from one thread; a cache filled by toString or a shared buffer of two copies is not visible there.',
  [L + 'StringBuilder/StringBuilder.cpp', U + 'BitSet/BitSet.cpp', U + 'HashMap/HashMap.hpp', U + 'ArrayList/ArrayList.hpp', L + 'String/String.cpp', U + 'LinkedList/LinkedList.hpp'],
  [('reading operations leave the object alone', L + 'StringBuilder/StringBuilder.cpp: toString, indexOf'), ('copies have memory of their own', U + 'LinkedList/LinkedList.hpp')],
  technique='stateless model checking of the real code under a controlled scheduler, preemption bounded', note=CONC_NOTE)
