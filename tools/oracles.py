# For DESIGN.md: the oracle of each property and what is left out on purpose.
O = {
'S01': ('std::string per object, updated by the same history; every observer (length, charAt, bytes, hashCode recomputed by its definition, c-string, equality with every other string) is compared after every step.', ''),
'S02': ('occurrences by definition (compare at every position), order by definition (first difference, then length).', 'Negative or too large start indices follow what the documentation says (clamped).'),
'S03': ('replacement, splitting, joining and trimming written over std::string from the documentation.', 'Regular expressions: the library documents plain text only.'),
'S04': ('snprintf of the C library into a buffer of the right size; for valueOf the decimal numerals.', '%n, and length modifiers that do not fit the argument (undefined in C).'),
'S05': ('std::string, plus the capacity rule (never below the length, grows as documented).', ''),
'S06': ('as S05.', ''),
'S07': ('linearizability against std::string: some order of the calls, compatible with real time, gives all results and the final text; happens-before race detection.', 'After unlock nothing of the object is read by design, so destruction while another thread is inside is not explored.'),
'N01': ('a parser over unsigned __int128 written from the definition, numerals by repeated division.', 'Long answers -1 for text that is not a number; this is what its documentation says.'),
'N02': ('loops over single bits, 128 bit arithmetic.', ''),
'N03': ('a plain variable of the primitive type with defined (wrapping) arithmetic next to each object.', ''),
'N04': ('the IEEE 754 encoding (order of the bit images = order of the numbers), a hand written recogniser of numerals, strtod/strtof for their value.', 'Number of digits printed by toString is not specified; round trip only where enough digits are asked for.'),
'N05': ('128 bit integers, definitions of floor and nearest on the binary encoding, the C library for the transcendental functions with a tolerance of a few ulp.', ''),
'N06': ('definitions over arrays of code points.', 'Surrogates: the constants of Character (MIN_SURROGATE, ...) are wrong, and existing tests pin their values; statements are limited to 7-bit characters.'),
'C01': ('std::vector.', 'addAll, removeIf, retainAll, sort: stubs in the source (return without effect), so nothing is promised.'),
'C02': ('std::deque plus node identity.', ''),
'C03': ('std::vector plus the capacity rule.', 'retainAll, toString of Vector (stub).'),
'C04': ('std::map; text form parsed by its definition over the iteration order the map shows.', 'hashCode (that of the object, not of its contents).'),
'C05': ('std::set.', 'addAll, hashCode, toArray: stubs.'),
'C06': ('sorted std::multiset.', 'Order among equal elements.'),
'C07': ('a plain set of positions (std::set<int>).', ''),
'C08': ('std::sort, std::lower_bound, definitions.', 'Ranges include their upper end, which is what the tests pin.'),
'C09': ('std::map; two builds: the small table of the hook for long histories, the original constants for a few large ones.', 'More than eight keys with the same hash code make put throw by construction of cuckoo hashing with four slots per bucket (the statement covers hash codes that are alike as far as buckets go). remove(Object) and the like that do not compile.'),
'C10': ('std::vector.', 'Converting an Array to a C array of texts (the caller frees it by hand).'),
'E01': ('RFC 4648 and RFC 2045 encoder and strict decoder written out independently.', ''),
'E02': ('the table of unreserved characters, hexadecimal digits, byte by byte.', ''),
'E03': ('MD5 and SHA-1 written from the RFCs.', ''),
'E04': ('a set of all ids, the fields decoded by hand; clock, random source, process id and the state file are replaced at link time (--wrap), every system call on the state file is a point where the process may be killed.', 'fromString of malformed text (the library documents no answer). Losing the state file itself, or restoring it from a backup.'),
'E05': ('a parser and the wildcard rules written from the documentation, over pairs and triples of media types.', 'Parameters (valueOf drops them).'),
'U01': ('the 48 bit linear congruential generator, java.util.Random algorithms.', 'Seeds taken from the clock.'),
'U02': ('days-from-civil arithmetic plus a table of zone rules written by hand; mktime semantics for overflow.', 'Local hours that a clock change makes ambiguous or skips; daylight saving before 1970; in Date.parse texts with one letter words, word prefixes that are ambiguous, numbers of more than 9 digits, years after 9999, an offset of +0001 (the -1 that marks "no offset" in the code), a month 0 followed by another month.'),
'U03': ('strftime of the C library in a process-wide zone set for the purpose, on the fields computed by the oracle of U02.', 'As U02.'),
'U04': ('the hierarchy as a table of ancestors, message and cause remembered next to each object.', 'Throwable.toString (undefined symbol); catching as std::exception (privately inherited).'),
'U05': ('the command line, the list of ends and the variables set, kept by the harness; output caught by replacing the buffer of std::cout.', 'System.loadLibrary-like stubs; ApplicationTest (only starts the test framework); floating-point printing beyond one value (Double belongs to N04).'),
'T01': ('linearizability against a counter; a waiting thread with enough permits at the end of an execution is a lost wakeup; virtual time for time-outs.', 'Negative numbers of permits; destroying a semaphore that is still in use.'),
'T02': ('automaton of a thread (new, started, ended); happens-before for what the target did; virtual time.', 'Priorities, interruption (stubs).'),
'T03': ('linearizability against std::map for every multiset of concurrent calls; keys share buckets, so growth and displacement happen with a few elements (hook: 4 buckets, 16 slots).', 'begin() and end() iterate without locks; more than 8 keys of one hash code; size() during calls is an estimate, bounded by the calls in progress.'),
'T04': ('per element conservation and order rules that follow from linearizability for one producer, checked on the intervals of the calls; exact std::deque for one thread; elements own memory, so double destruction and reading after reuse show. Hook: blocks of 2 elements, tables of 1 and 2 entries.', 'contains, equals, remove(Object), removeAll, hashCode, peek, element, remove (placeholders or do not compile); the order between different producers; a poll that overlaps other polls may find nothing.'),
'T05': ('the sequence of U01; each draw must consume steps whose order is compatible with real time.', ''),
'T06': ('a set of all ids; time between begin and end of the call on the virtual clock.', 'Several processes (E04 covers them).'),
'T07': ('each operation alone, in a process state as new (the data segment of library, libc zone data and environment are restored before each execution).', 'System.getenv("TZ") during a format by another thread sees the borrowed zone. HashMap.hashCode (identity).'),
'T08': ('each operation alone on a fresh copy.', 'MediaType.toString gives a text that belongs to the object and is made anew by the next call.'),
}
