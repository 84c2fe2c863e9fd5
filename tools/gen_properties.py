import json
ALL="src/lib.rs src/bup.rs src/buzhash.rs src/fastcdc.rs src/gear.rs src/gzip.rs src/mii.rs src/pigz.rs src/ram.rs src/zpaq.rs src/zstd.rs".split()
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","Slicing is lossless, ordered, zero-copy and terminates",
 "For every chunking algorithm, configuration and input, iterating the slices of an input yields, after finitely many steps, non-empty consecutive sub-slices of that very input whose concatenation (together with the remainder, for the iteration that withholds an incomplete tail) is exactly the input. The two slice iterations yield the same complete chunks, every complete chunk ends at a cut point of the chunker, and only an incomplete tail is ever withheld. Stopping an iteration part way hands back the unread rest and a chunker that continues exactly where the iteration stopped. The same holds for a chunker of the user's own that implements the incremental interface.",
 ["inputs","configurations","histories"],"all algorithms (and a user's own chunker with any cuts) x valid configurations x all byte strings (empty, one byte, cut at the very end, no cut) x the point where iteration is abandoned",
 "No existing test calls iter_slices, iter_slices_strict, take_rem or into_parts; the cut tests ignore the index that push returns.",
 ["src/lib.rs"]+ALL[1:],[("IterSlices::next / IterSlicesStrict::next / take_rem / into_parts","src/lib.rs"),("ChunkIncr::push of every algorithm (index it returns)","src/*.rs")],
 [("rem","input not yet handed out","IterSlices, IterSlicesStrict in src/lib.rs")],["iterator items (address, length)","into_parts","take_rem"])
p("C02","Incremental chunking does not depend on how the stream is fed",
 "Feeding a stream to an incremental chunker in any division into pieces - whole, byte by byte, with empty pieces, with pieces ending just before, at or just after a cut or a window boundary - gives the same cut positions in the stream. A reported index always refers to the piece just fed, and feeding the rest of that piece continues the stream.",
 ["inputs","histories","configurations"],"all algorithms x valid configurations x byte strings x all ways to divide a stream into pieces",
 "cuts.rs feeds incremental chunkers only one byte at a time over one fixed 32 KiB buffer and discards the returned index; cuts_qc.rs never drives the incremental interface.",
 ALL,[("ChunkIncr::push and the state it carries between calls","src/*.rs")],
 [("window / wofs / buf / buf_idx / input_idx / window_full","look-back kept between pushes","bup.rs, buzhash.rs, gzip.rs, zstd.rs"),("l, fp, i, max_val, prev, increment, idx","position and hash since the last cut","fastcdc.rs, ram.rs, mii.rs, zpaq.rs")],["Option<usize> returned by push"])
p("C03","Resumable search does not depend on how the buffer grows",
 "Searching for chunk edges in a buffer that grows by arbitrary amounts between calls, and from which the caller drops exactly the prefix it is told to drop, finds the same cut positions in the stream as one search loop over the complete data. This holds for any growth schedule, including no growth at all between two calls and growth by single bytes, and for every cut of the stream, not only the first.",
 ["inputs","histories","configurations"],"all algorithms x valid configurations x byte strings x all buffer growth schedules that respect the discard contract",
 "cuts_qc.rs compares two growth schedules on default parameters with uniformly random data: most cases contain no cut or one (zstd needs 8 MiB per cut, FastCDC's size limit is never reached) and buffers smaller than the look-back after a cut are rare.",
 ALL,[("Chunk::find_chunk_edge, discard count and SearchState::offset","src/*.rs")],
 [("offset","first byte of the next buffer that was not examined yet","bup.rs, buzhash.rs, gzip.rs, zstd.rs")],["(cut, discard) returned by find_chunk_edge"])
p("C04","All-at-once and incremental interfaces find the same cuts",
 "For the same algorithm, configuration and data, the resumable search, the incremental chunker and the slice iterations place every cut at the same position. This includes cuts forced by a size limit and cuts shortly after another cut.",
 ["inputs","configurations"],"all algorithms x valid configurations (small, default, limits enabled) x byte strings",
 "cuts.rs compares the two interfaces on one fixed 32 KiB buffer per algorithm, default parameters, byte-at-a-time, ignoring the index; limits and dense cuts never occur there.",
 ALL,[("pairs Chunk::find_chunk_edge / ChunkIncr::push","src/*.rs")],(),["cut positions of find_chunk_edge, push, iter_slices"])
p("C05","Bup splitting and digest follow bup's rolling checksum",
 "With any window length, the digest reported after feeding bytes is bup's two-part checksum of the last window of bytes (absent bytes counting as zero), and a chunk ends exactly where the low 13 bits of that checksum are all ones. After a cut the checksum starts afresh, as in bup; with the default window this agrees with the reference implementation for every byte sequence.",
 ["inputs","histories","configurations"],"window lengths 1..~600 (powers of two and not) x byte histories fed through push, single-byte rolling and the resumable search",
 "qc_bup.rs and the unit tests compare at most 2 KiB of random data (usually zero or one cut) with the default window; the behaviour after a cut is reached about once per run and never within the 64 bytes following one.",
 ["src/bup.rs"],[("RollSumState::add / digest / at_split","src/bup.rs"),("RollSumIncr::roll_byte / push, RollSum::find_chunk_edge","src/bup.rs")],
 [("s1,s2","checksum parts","RollSumState"),("window,wofs","circular look-back buffer","RollSumIncr")],["digest()","at_split()","cut positions"])
p("C06","BuzHash cuts where the cyclic-polynomial hash of the last k bytes matches",
 "For every window length, mask, salt and byte-hash table, a chunk ends exactly at the first byte where the cyclic polynomial hash of the last k bytes of the chunk has all mask bits set, or where the chunk has grown past the configured maximum size. Borrowed table, owned table and zero salt are interchangeable, and salting is the same as xoring the data with the salt. The ready-made noms configuration has window 67, 12 mask bits, a 16 MiB maximum and the published table; the borg table is the published one xored with its seed.",
 ["inputs","configurations"],"k in 1..~300 and larger, masks, tables (published and random), salts, maximum sizes x byte strings",
 "One fixed 32 KiB buffer with k=67 and one property with k=7 on at most 100 bytes; no other window length, no maximum size, no owned table.",
 ["src/buzhash.rs","src/buzhash_table.rs"],[("BuzHashState::add / add_overflow","src/buzhash.rs"),("max_chunk_size handling","src/buzhash.rs"),("BuzHashHash impls","src/buzhash.rs"),("GO_BUZHASH","src/buzhash_table.rs")],
 [("h","current hash","BuzHashState"),("input_idx / chunk length","bytes since last cut","BuzHashIncr, BuzHashSearchState")],["cut positions","calls to a user-supplied byte hash"])
p("C07","gzip and pigz rsyncable modes cut where their rolling sums say",
 "The gzip mode ends a chunk exactly where the sum of the last window of bytes of the chunk is divisible by the modulus; the pigz mode ends one exactly where its shift-xor hash over the chunk's bytes, truncated to the configured number of bits and started at the hit value, equals the hit value again. Both start afresh after every cut, for every window, modulus and bit count.",
 ["inputs","configurations"],"gzip windows 1..~9000 and moduli >= 1, pigz bits 0..31 x byte strings",
 "Fixed 32 KiB buffers and random self-consistency checks with default parameters only; self-consistency cannot notice a wrong sum.",
 ["src/gzip.rs","src/pigz.rs"],[("GzipRsyncableState::add / GzipRsyncableIncr::push","src/gzip.rs"),("PigzRsyncableState::add","src/pigz.rs")],
 [("accum, window","sum and bytes in it","gzip.rs"),("hash","shift-xor hash","pigz.rs")],["cut positions"])
p("C08","zstd rsyncable mode cuts on the hash of the last 32 stream bytes",
 "From the 33rd byte of a stream on, a chunk ends exactly where the polynomial hash of the last 32 bytes of the stream (regardless of earlier cuts) has all mask bits set, where the mask has 20 bits plus the logarithm of the target section size in MiB. Cuts may follow each other at any distance.",
 ["inputs","configurations"],"target section sizes 1 MiB .. 1 GiB x byte strings that contain matching 32-byte windows at arbitrary positions and distances",
 "One fixed 2 MiB buffer with a single cut; random data need 8 MiB per cut, so second and adjacent cuts are never reached.",
 ["src/zstd.rs"],[("ZstdState::append / rotate / at_split","src/zstd.rs"),("Zstd::with_target_section_size","src/zstd.rs"),("ZstdIncr::push, Zstd::find_chunk_edge","src/zstd.rs")],
 [("hash","rolling hash","ZstdState"),("window, window_offs, window_full, offset","look-back","ZstdIncr, ZstdSearchState")],["cut positions"])
p("C09","zpaq mode cuts like the zpaq archiver within the configured sizes",
 "A chunk ends at the first byte where the chunk may end (it has at least the minimum size) and zpaq's order-1-prediction hash of the whole chunk is below the threshold for the configured average size, or where one more byte would exceed the size range; every chunk starts with fresh hash, prediction table and length. The default is an average of 64 KiB with chunks of 4096 to 520192 bytes, a size power scales these as in zpaq, and a maximum size implies a minimum of 1/64 and an average of 1/4 of it.",
 ["inputs","configurations"],"all four constructors, ranges with included/excluded/unbounded ends, average powers 1..32 x byte strings",
 "Two fixed 32 KiB buffers with one power and no limit reached; the range, maximum-size and default constructors are never exercised.",
 ["src/zpaq.rs","src/range.rs"],[("ZpaqHash::feed","src/zpaq.rs"),("Zpaq::split_here and constructors","src/zpaq.rs")],
 [("hash,last_byte,predicted_byte","order-1 prediction hash","ZpaqHash"),("idx","bytes in current chunk","ZpaqIncr, ZpaqSearchState")],["cut positions"])
p("C10","Gear and FastCDC cut where the gear hash says",
 "Gear ends a chunk exactly where the gear hash (shift-and-add over the published table, started afresh per chunk) has its configured number of top bits zero. FastCDC ignores the first minimum-size bytes of a chunk, then tests the gear hash of the following bytes against the paper's strict mask up to the normal size and the loose mask after it, and forces an end at the maximum size; this holds for any table and sizes. The defaults are 8 KiB average for gear and 2/8/64 KiB with the published table for FastCDC.",
 ["inputs","configurations"],"gear powers 1..31; FastCDC sizes 0 <= min <= max with any normal size, published/random/sparse tables x byte strings",
 "tests/fastcdc.rs checks one first cut per buffer with default sizes (its random test is shorter than the minimum size), gear has one fixed buffer; later chunks, size boundaries and custom tables are never checked.",
 ["src/gear.rs","src/fastcdc.rs","src/gear_table/gear32.rs","src/gear_table/gear64.rs"],[("GearState32::push, msb_mask","src/gear.rs"),("FastCdcState::push","src/fastcdc.rs"),("MASK_S/MASK_L","src/fastcdc.rs")],
 [("l, fp","bytes in chunk, fingerprint","FastCdcState"),("fp","fingerprint","GearState32")],["cut positions of both interfaces"])
p("C11","RAM and MII cut at the extremum / increment run the papers define",
 "RAM ends a chunk at the first byte, after the window, that is not smaller than every earlier byte of the chunk. MII ends a chunk at the first byte that completes the configured number of consecutive strict increases within the chunk, the first byte of a chunk never counting as an increase.",
 ["inputs","configurations"],"windows / run lengths from 0 or 1 up x byte strings (monotone, plateau, extreme bytes 0x00 and 0xff, random)",
 "One fixed random 32 KiB buffer each, default parameters; equal bytes at the maximum, runs right after a cut and tiny windows do not occur.",
 ["src/ram.rs","src/mii.rs"],[("RamState::push","src/ram.rs"),("MiiIncr::push / reset","src/mii.rs")],
 [("i,max_val","position and maximum","RamState"),("prev,increment","last byte and run","MiiIncr")],["cut positions"])
p("C12","Cut decisions depend only on the look-back window",
 "For the window-based algorithms, whether a chunk ends at a byte depends only on the last window of bytes of the chunk (bup: window, BuzHash: k, gzip: window, gear: 32, pigz: number of bits; zstd: last 32 bytes of the stream): replacing or extending older bytes of the same chunk, without creating an earlier cut, never changes where the chunk ends.",
 ["inputs","configurations"],"window-based algorithms x configurations x pairs of histories that share exactly their last window of bytes",
 "No test compares two different histories; a hash that fails to drop old bytes still passes the fixed-buffer and self-consistency tests.",
 ["src/bup.rs","src/buzhash.rs","src/gzip.rs","src/gear.rs","src/pigz.rs","src/zstd.rs"],[("removal of the byte leaving the window","add/add_overflow/rotate in src/*.rs")],
 (),["cut positions of two related streams"])
p("C13","Cuts resynchronise after an edit",
 "If two streams end in the same bytes and both have a cut at the same place of that common suffix, all later cuts coincide; equivalently, chunking the data after any cut with a fresh instance gives the same cuts as continuing. For zstd, which carries its window across cuts, cuts in the common suffix coincide as soon as 32 bytes of it have passed.",
 ["inputs","histories","configurations"],"all algorithms x configurations x stream pairs obtained by inserting, deleting or changing bytes before a common suffix, through both interfaces",
 "No existing test edits data or restarts a chunker; this is the reason content-defined chunking exists.",
 ALL,[("reset of all per-chunk state on a cut","reset()/to_search_state in src/*.rs")],(),["cut positions of related streams"])
p("C14","Cuts are final and reported promptly",
 "Appending data never moves, adds or removes a cut in the data already seen, and a cut becomes known as soon as the byte that decides it has been fed: no later than one byte past the cut, and at the cut itself for every algorithm whose chunk includes the deciding byte. Both interfaces report it with the same amount of data.",
 ["inputs","histories","configurations"],"all algorithms x configurations x streams x all prefixes",
 "Tests look at complete buffers; none compares the result on a prefix with the result on its extension.",
 ALL,[("ChunkIncr::push (no look-ahead), find_chunk_edge","src/*.rs")],(),["cut positions on prefixes"])
p("C15","Chunk sizes stay within the configured limits",
 "Every complete chunk respects the limits its configuration states: FastCDC at least the minimum and at most the maximum size, RAM at least its window, zpaq inside its size range, BuzHash at most one byte past its maximum size. This holds through both interfaces, for any feed pattern, and for limits beyond 32 bits.",
 ["inputs","configurations","histories"],"limit-bearing algorithms x limits (tiny, equal, default, above 4 GiB) x adversarial data (no natural cut, dense cuts) x feed patterns",
 "No existing data reach a maximum size except FastCDC's on one first chunk, and none checks a minimum.",
 ["src/fastcdc.rs","src/ram.rs","src/zpaq.rs","src/buzhash.rs","src/range.rs"],[("max/min handling in FastCdcState::push, Zpaq::split_here, BuzHash, RamState::push","src/*.rs")],
 (),["lengths of complete chunks"])
p("C16","Average chunk size follows the size parameter",
 "On uniformly random data the mean chunk length is close to the configured average: a power of two for gear and pigz, 8 KiB for bup, the size power (or a quarter of the maximum size) for zpaq, the target section size rounded down to a power of two for zstd, two to the number of mask bits for BuzHash.",
 ["inputs","configurations"],"algorithms with a size parameter x parameter values x long random streams",
 "No test looks at chunk length distributions; fixed buffers have fewer than ten cuts.",
 ["src/gear.rs","src/pigz.rs","src/bup.rs","src/zpaq.rs","src/zstd.rs","src/buzhash.rs"],[("msb_mask, with_bits, BLOBBITS, fragment_ave_from_*, max_hash_from_fragment_ave, with_target_section_size, mask","src/*.rs")],
 (),["mean length of complete chunks"])
p("C17","Configurations are immutable and streams are independent",
 "A configured algorithm keeps no data: any number of incremental chunkers and searches made from it, or from a copy of it, interleaved in any order, each produce the cuts their own stream would produce alone. Using an instance, abandoning it half way or reusing the configuration for later streams never changes results.",
 ["histories","schedules","configurations"],"all algorithms x configurations x sets of streams x interleavings of their feed steps x both interfaces",
 "Every existing test drives a single stream per instance and finishes it.",
 ALL,[("to_search_state / to_chunk_incr create all mutable state","src/*.rs")],(),["cut positions per stream"])
p("C18","Any call history is handled: results in bounds, progress, no panic",
 "With a valid configuration, no sequence of calls on any interface - empty pieces, arbitrary sizes, buffers that do not extend the previous one, calls after the end - panics or overflows; every returned cut and discard count lies within the data just passed, and a caller that follows the returned positions always gets through its data in finitely many steps.",
 ["inputs","histories","configurations"],"all algorithms x valid configurations x arbitrary call sequences, including ones that break the buffer-extension rule",
 "Existing tests make only well-behaved calls with non-empty buffers and default parameters.",
 ALL,[("index and offset arithmetic in push / find_chunk_edge","src/*.rs")],(),["returned values","panics"])
p("C19","Streaming needs only bounded look-back and memory",
 "The search asks its caller to keep at most the look-back window of the algorithm (nothing for the window-free ones: gear, pigz, RAM, MII, zpaq, FastCDC), however long the data without a cut is, and an incremental chunker's memory stays proportional to its window however long the stream is. No byte is examined more often than when it enters and when it leaves the window.",
 ["inputs","histories","configurations"],"all algorithms x configurations x long streams with and without cuts x feed patterns",
 "No test looks at the discard count except to follow it, at allocation, or at the amount of work.",
 ALL,[("discard_ct computation","src/*.rs"),("bounded window buffers","src/bup.rs, src/buzhash.rs, src/gzip.rs, src/zstd.rs")],(),["data.len() - discard","allocated bytes","calls to a user-supplied byte hash"])
p("C20","Copies and equal values behave identically; constructors agree",
 "A copy of a configuration, incremental chunker or search state taken at any moment continues exactly like the original, and feeding one does not affect the other; two values that compare equal produce the same cuts on every continuation. Configurations compare equal exactly when all their parameters are equal, and every way to obtain a chunker from a configuration gives the same behaviour.",
 ["histories","inputs","configurations"],"all cloneable/comparable types x configurations x pairs of histories x continuations",
 "No test clones or compares chunkers.",
 ALL,[("Clone/PartialEq impls, From impls, Default impls","src/*.rs")],(),["cut positions after clone / comparison","== on configurations and states"])
p("C21","Every feature combination builds and behaves the same",
 "Each algorithm works when it is the only feature enabled and in every combination with others: the crate builds for each subset of its features, and an enabled algorithm's cuts are the same in every subset.",
 ["configurations","programs"],"subsets of the ten algorithm features x a fixed battery of inputs",
 "The test suite is only ever built with the default feature set.",
 ["Cargo.toml","src/lib.rs"]+ALL[1:],[("cfg(feature) gates","src/*.rs"),("modules shared between algorithms (range, gear_table, buzhash_table)","src/lib.rs")],(),["cargo build result","cut positions per subset"])
p("C22","Range helpers agree with the standard range semantics",
 "For every kind of range (all combinations of included, excluded and unbounded ends) and every item comparable with its ends, the helper that tests membership agrees with the standard library's, an item is outside exactly when it is below the lower end or above the upper end, and converting a range to a pair of bounds loses nothing.",
 ["inputs"],"integer, float and string items x all range types and bound pairs, including reversed and empty ranges",
 "One doc example covers a single cloned bound; the helpers have no tests.",
 ["src/range.rs"],[("RangeExt::exceeds_max / under_min / contains / into_tuple, bound_cloned","src/range.rs")],(),["return values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
