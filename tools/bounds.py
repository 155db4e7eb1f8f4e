c("P01",
  "buffer lengths 0..2^56 bytes (virtual) and real buffers of 0..4 bytes (thorough 0..9) of every backend; bit counts and offsets over the full 64-bit range; symbolic contents.",
  "buffers above 2^56 bytes",
  {"p01_any_length": ["accepted", "refused"], "p01_backends": ["accepted", "refused"], "p01_contents": ["round trip"]})
c("P02",
  "indexed access: buffers of 0..4 bytes (thorough 0..8), bit count, offset and index over the full 64-bit range, symbolic contents; iteration: every shape of 0..3 (0..5) bytes; wide bitmaps of 19 (40) bytes with bit offsets 0..23 (0..79); all six storage backends over 2 bytes; collected bitmaps of 0..20 (0..70) bits. Large inputs, in which all but a few dozen values are concrete: bitmaps of up to 65 541 bits.",
  "larger buffers",
  {"p02_index": ["inside", "outside"]})
c("P03",
  "one operation (extend by value, by reference, fallible extend, truncate, reserve, fallible reserve, extend by a source that resumes after its end) of size 0..18 (thorough 0..27) from every bitmap over 0..3 (0..4) bytes with every bit offset and bit count; every pair of operations (sizes 0,1,6,8 second; thorough all 0..9 and a third operation) from bitmaps over 0..2 bytes; appends of 60..131 (50..210) elements across word boundaries, followed by further operations; collecting 0..34 (0..100) elements with and without an allocator, and 0..18 (0..34) from a source that resumes after its end; wrong size hints. All bytes and items symbolic. Large inputs, in which all but a few dozen values are concrete: pairs of operations on and by 256, 1024, 2048, 3072 and 65 536 (plus or minus a few) elements.",
  "longer histories and larger sizes",
  {})
c("P04",
  "every bitmap shape over 0..3 (thorough 0..5) bytes for vectors and 2 bytes for the five other storage backends, every index; 10..17 (18..25) bytes with first and last partial bytes from 0..9 (0..17) bits; no bitmap: every length up to the address-space limit and every index; collected or implicitly valid collections of 0..13 (0..25) elements truncated, extended by 0..3 and truncated again. All bytes symbolic. Large inputs, in which all but a few dozen values are concrete: bitmaps of up to 65 541 bytes, mixed, all ones or all zeros, and collections of such lengths truncated and extended.",
  "larger bitmaps",
  {"p04_none": ["no bitmap"]})
c("P05",
  "lengths: every pair of value length and bitmap length (with any offset and byte count) over the full range; contents: 0..10 (thorough 0..18) bytes, 0..5 (0..10) 64-bit values, 0..9 (0..17) booleans with an offset of their own, 0..4 (0..8) chunks of three, 0..3 (0..5) lists of 0..2 bytes and 0..6 (0..9) nested nullable values, each under every bitmap bit offset 0..7 (bytes 0..9; 0..17) with 0..1 spare bytes and without a bitmap; every index; four more storage backends. Values and bits symbolic. Large inputs, in which all but a few dozen values are concrete: the same kinds at lengths 261 .. 65 541.",
  "longer collections",
  {"p05_lengths": ["accepted", "refused"]})
c("P06",
  "from implicit, explicit and collected starts (and bit offsets 1, thorough also 6 and 9) with 0..4 bytes, 0..4 (0..9) booleans, 0..2 pairs of bytes, 0..2 triples of booleans or 0..1 byte lists: every pair of operations (thorough a third) out of extend, fallible extend, truncate, reserve, fallible reserve and extending from a source that resumes after its end, sizes 0..4 (0..9); single operations on 0..9 (0..17) bytes with sizes 0..10 (0..18); extensions of 1023..2049 (1022..3073) rows with symbolic rows around multiples of 8, 1016 and 1024; collecting 0..5 (0..12) bytes, 0..9 (0..18) booleans and fewer rows from a source that resumes after its end; wrong and huge size hints. All values and nullness symbolic. Large inputs, in which all but a few dozen values are concrete: pairs of operations on and by 256 .. 65 536 rows of six types, from explicit and implicit starts.",
  "longer histories; rows inside the long extensions away from the batch seams are concrete",
  {})
c("P07",
  "0..8 (thorough 0..20) offsets of full 32-bit and 64-bit range, and buffers of 17, 33 and 66 (33..130) offsets, over children of any length up to the address-space limit; 3 offsets in each other storage backend; 0..3 offsets over vector, boxed, bitmap, fixed-size-list, nullable and nested-list children of 0..9 elements. Large inputs, in which all but a few dozen values are concrete: 1026 .. 65 539 offsets, otherwise evenly spaced, with one or two arbitrary ones at the ends, in the middle and at the seams of blocks.",
  "longer offset buffers",
  {"p07_any32": ["accepted", "refused"], "p07_any64": ["accepted", "refused"]})
c("P08",
  "0..3 rows over 0..4 (thorough 0..7) bytes with symbolic offsets, row index and element index of machine-word range; two rows of any size over a child of any length for both offset types; enumerated row lengths (0..3 rows of 0..2, thorough 0..4 of 0..3) with unreferenced trailing elements over byte, 64-bit, bit (with bit offset), nullable, fixed-size-list and list children; every storage backend; lists of 20 (40) rows; comparison of rows of 0..3 bytes or 0..4 booleans with vectors, slices, bitmaps and rows of other lists. All elements symbolic. Large inputs, in which all but a few dozen values are concrete: lists of 256 .. 65 540 rows and rows of 65 539 elements. Rows of any size over a child of any length whose elements read as their positions: every index, and the first elements by iteration and consumption.",
  "longer lists",
  {"p08_index": ["inside", "outside"]})
c("P09",
  "every pair of operations (thorough a third) out of extend, fallible extend, truncate, reserve, fallible reserve and extending from a source that resumes after its end, with 0..2 then 0..1 rows of 0..1 (thorough byte, bit and nullable rows 0..2) elements, from parts with 0..2 unreferenced trailing elements, collected or empty lists of 0..2 (byte) or 0..1 rows, over byte, 64-bit, bit (bit offset 3), nullable, fixed-size-list and list children; single operations on 0..3 byte rows of 0..2 built in five ways; bit rows of 0..13 elements then 0..9 more; bit rows of 33 and 65 (40..130) elements; collecting 0..2 (0..3) rows from a source that resumes after its end; wrong and huge size hints. All elements symbolic. Large inputs, in which all but a few dozen values are concrete: pairs of operations on and by 256 .. 65 536 rows and rows of 65 539 elements. Rows that end anywhere up to 2^31 and 2^62 over a child of which only the length exists: two (thorough three) operations on a list of two rows.",
  "longer histories and rows",
  {})
c("P10",
  "one to two (thorough three) rows of any length up to 2^64-1 (64-bit offsets: 2^63-1) appended behind any end position of the offset type, with and without any number of unreferenced child elements, fallibly or not; real rows of 0..3 (0..6) bytes next to the limit; collecting two rows of any length. The child and the huge rows are length-only stand-ins for the storage; the list code is the real one.",
  "more rows per append; stand-in consumers that count element by element are followed for 6 elements",
  {"p10_row32": ["fits", "refused", "panicked"], "p10_row64": ["fits", "refused", "panicked"], "p10_collect": ["collected", "refused"]})
c("P11",
  "acceptance: every child length up to the address-space limit for row sizes 0..4; symbolic index over 0..4 (thorough 0..9) rows of 1..4 bytes; reading children of 0..9 (0..17) bytes, 0..12 (0..24) bits with bit offset, 0..6 (0..12) nullable values, 0..5 (0..9) pairs and 0..4 lists, including lengths that are not whole rows; every pair of operations (thorough a third) out of extend, fallible extend, truncate (up to the largest length), reserve, fallible reserve and extending from a resuming source on 0..2 rows (3 for bits) over seven child types and row sizes 1..4, built in up to five ways; collecting 0..3 (0..5) rows from a source that resumes after its end. All elements symbolic. Large inputs, in which all but a few dozen values are concrete: row sizes 8 .. 65 537.",
  "larger row sizes and longer histories",
  {"p11_accept": ["accepted", "refused"], "p11_index": ["inside", "outside"]})
c("P12",
  "nine ways of building an array (collecting, fallibly collecting, extending, capacity first, two parts, one by one, truncating and refilling, through the memory layout; size hints exact, low or absent, sources resuming after their end or not) from 0..4 (thorough 0..9) items (0..9 (0..18) booleans) of eight flat types, 0..2 (0..4) items (boolean triples 0..4) of eight fixed-size-list types, 0..2 or 3 items of seven list types of 0..1 or 2 (thorough 2..4) elements and 0..1 or 2 items of nine deeper nestings; 35 and 65 (64..200) items of six types in three parts. All leaf values and nullness symbolic. Large inputs, in which all but a few dozen values are concrete: up to 65 545 items and rows of 300 elements.",
  "more items, longer rows, deeper nestings",
  {})
c("P13",
  "the buffers of arrays of 0..4 (thorough 0..9) flat items, 0..2 (0..4) fixed-size-list items, 0..2 or 3 list items of up to 2 (4) elements and 0..1 or 2 items of seven deeper nestings, collected, extended, fallibly extended, truncated and refilled, and of 35 and 65 (64..200) items of six types, read by an independent decoder of the Arrow columnar format. All leaf values and nullness symbolic. Large inputs, in which all but a few dozen values are concrete: up to 65 541 items.",
  "more items, longer rows, deeper nestings; buffers coming from user-supplied parts",
  {})
c("P14",
  "six storage backends; numbers (32-bit, three-byte arrays, 64-bit), booleans over 0..2 (thorough 0..3) bytes with bit offsets 0..9, nullable numbers and booleans with validity at bit offset 0, 1, 7, 8 or absent, fixed-size lists, nullable byte lists and lists of nullable numbers, over buffers of 0..4 (0..7) values (exactly 3 for inline arrays); shared handles consumed in step for 0..3 (0..5) elements; clones of vectors, bitmaps and fixed-size lists of 0..5 (0..7) elements truncated and extended on either side; boxed slices collected from 0..4 (0..7) values or 0..9 (0..17) bits. the standard owners (vector, boxed slice, shared slices, slices, two-element arrays) of 0..2 (0..3) items of seven types, directly as collections. All contents symbolic. Large inputs, in which all but a few dozen values are concrete: 257 and 1026 items in every backend.",
  "larger buffers; inline arrays of other lengths",
  {})
c("P15",
  "any one of the first 5..8 (thorough 9..12) allocations of a fallible append (exact, missing or low size hint) or reserve failing, on 18 collection types (vectors, bitmaps, nullable, fixed-size and variable-size lists over one another, arrays) of 0..2 (0..4) flat, 0..2 or 3 list or 0..1 nested items, built three ways (no spare capacity; no validity bitmap; bit offset), with appends of 0, 1, half and all of 9 (17) flat, 4 (6) list or 2 (4) nested items, followed by another append and truncation or consumption; fallible constructors with up to 9 (17) items; requests of 2^60 .. 2^64-1 elements; every run ends with a leak check. Data symbolic; list lengths enumerated or all 1. Large inputs, in which all but a few dozen values are concrete: appends of 1030 and 2049 items to 9 and 1024, failing at each of the first 14 allocations.",
  "failures after the listed allocations; more than one failure per operation; allocators other than the global one",
  {"p15_ops": ["ok", "failed"], "p15_make": ["ok", "failed"]})
c("P16",
  "sources that panic after 0..5 (thorough 0..10) items (lists 3 (4), nested 1 (2)) of an append (fallible or not, exact or missing size hint) to collections of 0..2 (0..4) items built three ways, over 19 collection types, followed by another append, a fallible append, truncation and append, reserving, or another panicking append, and consumption; panics while collecting; rows whose own iterator panics after 0..3 bytes or 0..9 (0..11) bits; panics after 15..1025 (15..2050) items around the batch size of nullable collections; after a panic the parts (values and bitmap, offsets and child) of ten types are taken apart, put together again and compared. Every run ends with a leak check. Data symbolic. Large inputs, in which all but a few dozen values are concrete: collections of 256 .. 3073 items built from a source that panics after 0, 1, 9 or 70 more, then appended to.",
  "panics from allocator or comparison code; panics that abort",
  {})
c("P17",
  "18 collection types: created with capacity 0..12 (thorough 0..20) flat, up to 9 (12) list or 5 (9) nested items, or with as much reserved (once or in steps, fallibly or not) behind 0..3 (0..4) existing items built three ways and possibly truncated, then filled in one or two parts or one by one, fallibly or not, with exact and missing size hints; bitmaps over 0..2 (0..3) bytes at every bit offset 0..9 with 0..40 (0..70) bits reserved; list rows of 0..1 elements; 100..1030 (100..2049) items in one go. Allocations are counted by the harness's allocator. Data symbolic. Large inputs, in which all but a few dozen values are concrete: 103 .. 65 543 items.",
  "larger capacities; rows longer than one element (not promised)",
  {})
c("P24",
  "borrowed and consuming iterators of 18 collection types of 0..3 (thorough 0..6) flat, list or nested items, bitmaps over 0..1 (0..2) bytes at every offset, nullable bytes under every bit offset, lists with unreferenced trailing elements, row views and eight storage backends: two steps each either a single step or a skip of 0, 1, 2, all or 2^64-1 items, then counting, taking the last, internal iteration, stepping past the end, taking one or collecting. Contents symbolic. Large inputs, in which all but a few dozen values are concrete: up to 65 541 items.",
  "longer step sequences; iteration from the back (not offered)",
  {})
c("P25",
  "a storage backend whose buffers record their allocator, with an arbitrary (symbolic) allocator identity: arrays of ten types in up to three levels and lists of nullable bytes, created in four ways with 0..2 (lists 0..1, thorough 0..2) items, followed by two (lists one; thorough three, two) operations of size 0..2 each; allocators that refuse everything after 0..5 (7) (lists 0..7 (9)) requests; nullable collections without a bitmap of 0..3 (0..9) elements over six children, grown, reserved or truncated with memory granted or refused after 0..2 requests. Large inputs, in which all but a few dozen values are concrete: 1030..9000 implicit rows and appends of half that, refused after 0, 1, 2, 300, 513 or 700 requests. Values symbolic.",
  "allocators that lie about success; longer histories",
  {"p25_refuse": ["refused when created", "refused later"], "p25_later": ["refused"]})
c("P18",
  "foreign arrays of 24 types in up to three levels, of 0..2 (thorough 0..9 flat, 0..3 nested) elements and child lengths 0..2, with a deviation from the specification at any one place of any level (two places: flat types and one nesting): null or misaligned buffer and child pointers, every numeric field of the structure at once, null count, arbitrary offset contents, released structures, dictionaries, other formats, a child of another length; all fields of the structure arbitrary at once; arrays of 0..12 (0..20) elements and 0..4 (0..7) list offsets. Data, validity bits, offsets and numeric fields symbolic; every foreign buffer is an allocation of exactly the declared size, so reading outside it is a violation. Large inputs, in which all but a few dozen values are concrete: up to 65 541 elements with an arbitrary null count, one arbitrary offset and an arbitrary child length.",
  "structures that lie about the size of their own memory (the contract of the unsafe function); more simultaneous deviations",
  {"p18_flat": ["imported", "refused"], "p18_fixed": ["imported", "refused"], "p18_lists": ["imported", "refused"], "p18_wide": ["imported", "refused"], "p18_two": ["imported", "refused"], "p18_fields": ["imported", "refused"]})
c("P19",
  "conforming foreign arrays of 32 types in up to three levels, of 0..4 (thorough 0..9) flat elements (booleans 0..9 (0..18)), 0..3 (0..5) fixed-size-list and 0..3 list elements with rows of 0..2 (0..3) elements and 0..1 unreferenced child elements, with and without validity buffers and null counts; 33..65 elements of five types. The buffers of the imported array are compared with the foreign ones by address and size, and nothing may be allocated. Data and validity bits symbolic. Large inputs, in which all but a few dozen values are concrete: up to 65 541 elements, rows of 300 and of up to 70 000 elements.",
  "more elements, longer rows, deeper nestings",
  {})
c("P23",
  "fixed-size lists of nine sizes 1..1024 with every format of up to 7 (thorough 9) bytes; with every format of the prefix and up to 4 (6) bytes; numbers of 10..39 digits around and beyond multiples of 2^64 and with leading zeros in which any 2 (3) neighbouring bytes, or the last 1..5, are arbitrary; every format of up to 5 (8) bytes for 14 other types and for children of lists. Large inputs, in which all but a few dozen values are concrete: sizes 9999, 65 536 and 65 538 and byte arrays of 11.",
  "longer wholly arbitrary formats; other list sizes",
  {"p23_width": ["accepted", "refused"], "p23_digits": ["accepted", "refused"], "p23_large": ["accepted", "refused"], "p23_window": ["accepted", "refused"], "p23_simple": ["accepted", "refused"], "p23_child": ["accepted", "refused"]})
c("P20",
  "arrays of 32 types in up to three levels, of 0..3 (thorough 0..9) flat items (booleans 0..9 (0..18)), 0..2 (0..4) fixed-size-list items and 0..2 or 3 list items with rows of 0..2 elements, collected, extended, fallibly extended and truncated; 33 and 65 (to 130) items of six types; arrays assembled from parts of 0..3 (0..5) items in six storage backends over seven types; arrays of ten types of 0..2 (0..4) items after an append cut short by a panicking source or a failing allocation. The exported structures are read by an independent reader of the C data interface and imported again; every run ends with a leak check. Data and nullness symbolic. Large inputs, in which all but a few dozen values are concrete: up to 65 541 items and rows of up to 66 000 elements. Items of widths 5 .. 100 090 bytes or elements.",
  "more items, longer rows, deeper nestings; lists of fixed size zero (import refuses them, as documented)",
  {})
c("P21",
  "exports of 26 types in up to four levels, in six storage backends, of 0..2 (thorough 0..5 flat, 0..3 nested) items, moved by the consumer and released through the callback or by dropping, array first or schema first; at each level the child array, the child schema or both are moved out and read and released after, or before, their parent; buffers shared with the exporter. Every run ends with a leak check; using freed memory and freeing twice are violations wherever they happen. Data symbolic. Large inputs, in which all but a few dozen values are concrete: up to 300 items.",
  "more items; consumers that break the contract (releasing twice, using a structure after its release)",
  {})
c("P22",
  "arrays of 24 types in up to three levels, of 0..3 (thorough 0..9) flat, 0..2 (0..3) nested items, in which every bitmap at every level starts at bit 0, 1, 8 or 13 or (validity) is absent, in four storage backends; every bit offset 0..17 (0..70) for three types. Every run ends with a leak check. Bits symbolic. Large inputs, in which all but a few dozen values are concrete: bit offsets of 2^3 .. 2^17.",
  "more items, deeper nestings, other offsets at several levels at once",
  {"p22_flat": ["exported", "refused"], "p22_fixed": ["exported", "refused"], "p22_lists": ["exported", "refused"]})
