"""What each check runs: builds, budgets, and descriptions for the evidence files."""
REAL = {
 'lib': ['cffi-interface/*.cpp and all headers of cffi-interface/trace-db (compiled from /repo)', 'boost.iostreams, boost.serialization and boost.flyweight (distribution static libraries/headers)', 'libstdc++ streams and containers'],
 'rt': ['the C tracing runtime extracted from instrumentation/c-cpp.lisp in /repo', 'cffi-interface reader (cross-check of the emitted trace)'],
}
STUB = ['kernel file, FIFO, descriptor, select/poll and clock calls (simulated)', 'pthread mutex/once/C++ static guards (simulated scheduler)', 'heap (instrumented allocator: fault injection, poisoning, immediate reuse)', 'rand()', 'glibc stdio (buffering model; runtime checks only)', 'trace writers, collectors and the traced application (simulated actors)']
ASSUMPTIONS = ['sequentially consistent memory plus a happens-before race detector (a racy program is reported, so weaker orderings add nothing)', 'the simulated kernel follows POSIX/Linux semantics for the calls used', 'x86-64 little endian, GCC 13 code generation']
def p(builds, rule, level='exploration', real='lib', **k): return dict(builds=builds, rule=rule, level=level, real=real, **k)
PROPS = {
 'C01': p(['as'], 'Seeded random well-formed traces (all formats and sizes including odd ones, special floats, full 64-bit values, up to 700 names / 500 types / 40 points, blobs to 20 kB, and one dimension at a time blown up to 66000 names, types, points, sizes, variables, auxiliary values or blob bytes) delivered through a simulated file or FIFO with random read sizes, pipe capacities, writer open times and pauses; the result read through both the C and the C++ interface must equal the reference model.'),
 'C02': p(['as'], 'As C01, but the writer dies after a random number of bytes (biased to header, point and field boundaries, +-20 bytes around them), read with and without a point limit.'),
 'C03': p(['as'], 'A well-formed trace with 1-4 random corruptions (bit/byte/word overwrites with extreme values, insertions, deletions, duplications, truncations, targeted header/type/entry fields) or pure garbage; ingested twice with differently poisoned memory, then inspected, queried, serialised and freed under AddressSanitizer.'),
 'C04': p(['as'], 'Histories of ingests where one fault is placed at a random position: missing file, EMFILE/EACCES, EIO at byte k, EINTR at byte k, interrupted wait, failing allocation number k, timeout, descriptor above 1023.'),
 'C05': p(['ts', 'ts', 'ts', 'as'], '2-3 threads add 1-2 traces each to one database; pre-emption at every memory access under random/PCT-like schedules; some adds fail (bad data, memory exhaustion), some add identical traces, queries run afterwards; race detector plus linearizability check of the final contents.'),
 'C06': p(['as'], 'Ingest with timeouts from 0 to 4294967295 s from FIFOs whose writer opens, writes, pauses and closes at random simulated times, with interrupted waits; return value and return time compared with the specification.'),
 'C07': p(['as'], 'Reads with a limit N (1 up to the largest 64-bit value) where everything after the N-th point is withheld, cut, corrupted, failing or stalled for hours of simulated time.'),
 'C08': p(['ts', 'as'], 'Random histories of add/query/free/reload over up to 4 databases (queries with 0-3 variables, all predicate operators, soft predicates, statement masks, seeds, duplicate filtering) with immediate address reuse; every answer compared with an independent evaluator of the query language.'),
 'C09': p(['ts', 'ts', 'ts', 'as'], '2-3 threads run 1-3 queries each on 1-2 traces of one database under memory-access-level scheduling; every answer compared with the independent evaluator; race and lifetime detection.'),
 'C10': p(['ts', 'ts', 'ts', 'as'], '2-3 threads run private add/query/inspect/free/reload sequences over overlapping values under memory-access-level scheduling.'),
 'C11': p(['as'], 'Random alloc/resize/free/lookup histories (up to 120 points, 60 addresses, adjacent/nested/boundary regions) with adversarial rand() outcomes (constant, alternating, ascending, extreme, random), compared with a sorted-map model; each history read twice with different random outcomes.'),
 'C12': p(['ts', 'as'], 'Random histories build a database; snapshots are taken at random points; the process image dies and a fresh one restores the text (only the snapshot survives), inspects, queries and re-serialises.'),
 'C13': p(['as'], 'Random traces rewritten through an output stream that fails, fails once and then recovers, or fills up at a random byte (biased to point boundaries); stream state, bytes and re-read result are checked.'),
 'C14': p(['ts', 'as'], 'Copies of a trace loaded through different histories (file, FIFO, snapshot, other database, other thread, queries in between) and variants differing in exactly one field; equality and hashes compared.'),
 'C15': p(['ts', 'ts', 'ts', 'as'], '1-3 threads emit up to 5 points each (0 to many variables, sizes and auxiliary values per point) through the extracted runtime with random stdio buffer sizes, short writes and FIFO back-pressure under memory-access-level scheduling; bytes decoded by an independent decoder and by the real reader.', real='rt'),
 'C16': p(['ts', 'ts', 'ts', 'as'], 'As C15 with the process killed at a random scheduler step; only bytes handed to the kernel survive.', real='rt'),
 'C17': p(['ts', 'ts', 'ts', 'as'], 'The handshake file appears and gets its line at random simulated times relative to the polling program.', real='rt'),
 'C21': p(['as'], 'Random histories of 1-7 steps (add/read with limits, cuts, corruption, read errors or failing allocations; snapshot/restore; queries; inspection; frees) that end with everything freed, repeated 5 times; blocks and descriptors still held may not grow with every repetition.'),
 'C22': p(['as'], 'Random databases of 1-3 traces; in each of 1-6 rounds a query, inspection (points, names, types), snapshot, restore or in-memory add runs with the k-th allocation failing (once, or all from then on; k up to 400, biased to the last ones of a snapshot); the outcome must be a reported failure or the right answer, and afterwards the database and earlier queries are checked again with memory available.'),
 'C23': p(['as'], 'Databases of 0-3 traces (ending in types, names or points) are snapshotted; the storing process dies leaving the first k bytes (uniform, biased to the last 40 bytes, token borders, 512/4096-byte blocks, the archive header); a new process image with data of its own restores them, repeats it, and then restores the complete text.'),
 'C24': p(['ts', 'ts', 'ts', 'as'], '2-3 threads perform 1-3 read-only operations each (inspection through C and C++, snapshot, rewriting, trace and database hash, equality, trace and database copy, query) on one database of 1-2 traces under memory-access-level scheduling; every result compared with the model or with the same operation carried out alone afterwards.'),
 'C25': p(['as', 'ts'], 'Up to 14 points, variables, types or allocation records of a random trace (few distinct values, blobs of different lengths, heap addresses of blobs recorded as values) compared pairwise and in triples; the trace is freed and loaded again through a file or a snapshot at other addresses and compared again.'),
}
