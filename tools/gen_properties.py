#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that entries stay easy to edit)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
            "observe_at": observe, "hook_needed": hook,
        },
    })


BM = "src/bitmap/mod.rs"
p("P01", "A bitmap is accepted exactly when its bit range fits the byte buffer",
  "Building a bitmap from a byte buffer, a bit count and a bit offset succeeds exactly when offset plus count is representable and at most eight times the number of bytes; otherwise it fails with an error that reports the offset, bit count and byte count given. Taking an accepted bitmap apart again returns exactly the buffer, count and offset it was built from, and its length and bit offset are those given.",
  ["inputs"], "every buffer length, bit count and bit offset, up to the full machine-word range",
  "the tests try a handful of small triples; the acceptance test is 64-bit arithmetic with overflow and rounding corners that only a full-width argument settles",
  [BM], [("range check with checked addition and saturating capacity", BM + " try_from_parts"), ("inverse accessor", BM + " into_parts")],
  ["Bitmap::try_from_parts", "Bitmap::into_parts", "Bitmap::bit_offset", "Length::len"])
p("P02", "Reading a bitmap returns exactly its bits, in LSB order, and nothing else",
  "In a bitmap with bit offset o, element i is bit (o+i) mod 8, counted from the least significant, of byte (o+i) div 8, for every i below the length; indexed access, borrowed iteration and consuming iteration agree on that, and iterators yield exactly length items. Any index at or beyond the length, however large, yields no element rather than a value or a panic.",
  ["inputs"], "every byte content, bit offset, bit count and index",
  "tests fix a few bit patterns and offsets; the property quantifies over all contents, non-byte-aligned offsets and the whole index range",
  [BM, "src/bitmap/unpacked.rs"], [("bit and byte index arithmetic", BM + " view, bit_index, byte_index"), ("bit unpacking iterator", "src/bitmap/unpacked.rs")],
  ["Collection::view", "Collection::owned", "iter_views", "into_iter_owned"])
p("P03", "A growing or shrinking bitmap behaves like a list of booleans",
  "After any sequence of extend, fallible extend, reserve and truncate operations on a bitmap (collected from booleans, or built from raw parts with any bit offset, dirty padding bits or spare trailing bytes), its contents equal those of the same operations on a plain list of booleans. Elements already stored are never changed, and an item source that yields items again after reporting its end contributes only the items before the first end.",
  ["inputs", "histories"], "every initial bitmap state and every sequence of operations with any boolean items",
  "the interplay of partial bytes, dirty padding, bytes beyond the logical end and item counts is a product of shapes and contents that examples only sample",
  [BM, "src/bitmap/packed.rs"], [("fill of the partial byte, overwrite of spare bytes, packed append", BM + " Extend::extend, CollectionRealloc::try_extend"), ("bit packing iterator", "src/bitmap/packed.rs"), ("truncate keeps bytes", BM + " truncate")],
  ["Extend::extend", "CollectionRealloc::{try_extend,truncate,reserve,try_reserve}", "FromIterator", "Collection::view"])
p("P04", "Null counts and validity queries agree with the individual validity bits",
  "For any nullable collection, the null count is the number of positions whose element reads as null, the valid count is the rest, is-null and is-valid answer for each position inside the length and give no answer outside it, and the any/all queries equal the corresponding quantification over positions. Padding bits before the bit offset, after the last element, and in spare bytes never influence any answer, and a collection without a bitmap has no nulls.",
  ["inputs"], "every bitmap content, bit offset, length and index, with and without an explicit bitmap",
  "mask arithmetic at both ends of the bit range depends on offset and end modulo eight and on padding contents; tests check a few combinations",
  ["src/bitmap/validity.rs", BM], [("population count with end masks", BM + " count_ones"), ("derived queries", "src/bitmap/validity.rs")],
  ["ValidityBitmap::{null_count,valid_count,is_null,is_valid,any_null,all_null,any_valid,all_valid}"])
p("P05", "Nullable collections keep values and validity row-aligned and hide null slots",
  "Pairing values with a validity bitmap succeeds exactly when both have the same number of elements and otherwise reports both lengths; taking the pair apart returns both unchanged. Element i of the pair is absent when its validity bit is clear and otherwise is exactly value i, by index, by borrowed iteration and by consuming iteration, regardless of the placeholder stored in null slots; wrapping values without a bitmap makes all of them present.",
  ["inputs"], "every value and validity content, bit offset, pair of lengths and index",
  "tests use short literal arrays; values, bitmaps and bit offsets vary independently",
  ["src/validity.rs", "src/bitmap/mod.rs"], [("length check", "src/validity.rs try_from_parts"), ("paired iteration", "src/validity.rs ValidityIter"), ("indexed access", "src/validity.rs view")],
  ["Validity::try_from_parts", "Validity::into_parts", "Collection for Validity"])
p("P06", "Growing or shrinking nullable data preserves every element and its nullness",
  "After any sequence of collecting, extending, fallibly extending, reserving and truncating, a nullable collection reads exactly like the same operations on a list of optional values, whether or not it started with an explicit validity bitmap and whatever the bitmap's bit offset. Elements that were implicitly valid stay valid when the bitmap is created later, and values and bitmap always have equal lengths.",
  ["inputs", "histories"], "every initial state (implicit, explicit, offset bitmap), every operation sequence and item content, including extensions longer than the internal batch size",
  "batching, late creation of the bitmap and truncation interact; tests exercise a few fixed sequences",
  ["src/validity.rs", BM], [("bitmap creation on first mutation", "src/validity.rs materialize_bitmap"), ("chunked extension", "src/validity.rs Extend::extend, try_extend"), ("truncate of both parts", "src/validity.rs truncate")],
  ["Extend", "CollectionRealloc", "FromIterator", "Validity::into_parts"])
p("P07", "Offset buffers are accepted exactly when they describe valid list boundaries",
  "Pairing child data with an offset buffer succeeds exactly when the buffer is non-empty, starts at zero, has no negative entry, never decreases, and ends at or below the child length, for 32-bit and 64-bit offsets. A rejected buffer is reported with the first rule broken in buffer order and the exact position or values involved, and an accepted pair is returned unchanged when taken apart.",
  ["inputs"], "every offset value at every position (full 32-bit and 64-bit ranges) and every child length",
  "the validation is what makes every later slice in bounds; tests list a few bad buffers out of a space of full-width integers",
  ["src/offset.rs"], [("validation scan", "src/offset.rs try_from_parts")],
  ["Offsets::try_from_parts", "Offsets::into_parts", "OffsetsError"])
p("P08", "Reading a variable-size list returns exactly the child range its offsets delimit",
  "Row i of a variable-size list consists of child elements from offset i up to but excluding offset i+1, through indexed views, views of views, borrowed iteration, consuming iteration and conversion to owned rows, also when the child has unreferenced trailing elements. An index at or beyond the number of rows, or at or beyond a row's length, yields no element for every machine-word index, and a row equals a collection exactly when both have the same elements in order.",
  ["inputs"], "every valid offset buffer and child content within the bounds and every index of machine-word range",
  "tests read a few literal lists; empty rows, trailing data and huge indices combine freely",
  ["src/offset.rs"], [("row view", "src/offset.rs Offsets::view, OffsetView"), ("consuming iterator", "src/offset.rs OffsetIntoIter"), ("row comparison", "src/offset.rs PartialEq for OffsetView")],
  ["Collection for Offsets", "Collection for OffsetView", "IntoOwned", "PartialEq"])
p("P09", "Appending to and truncating variable-size lists preserves all rows",
  "After any sequence of collecting, extending, fallibly extending, reserving and truncating, a variable-size list reads exactly like the same operations on a list of lists, also when it started from parts whose child has unreferenced trailing elements. Its offset buffer always has one entry more than there are rows, starts at zero, never decreases and ends within the child.",
  ["inputs", "histories"], "every valid initial state and every sequence of operations with rows of any length and content within the bounds",
  "the effect of stale trailing data and partial truncation on later appends depends on the history",
  ["src/offset.rs"], [("drop of unreferenced suffix before append", "src/offset.rs Extend::extend, try_extend"), ("row and child truncation", "src/offset.rs truncate")],
  ["Extend", "CollectionRealloc", "FromIterator", "Offsets::into_parts"])
p("P10", "Offsets never wrap: rows that do not fit the offset type are refused",
  "Appending a row whose end position is not representable in the list's offset type (32-bit or 64-bit) never stores a wrapped or truncated offset: the infallible append panics before the list shows the row, and the fallible append reports an allocation error and leaves the list as it was. Rows whose end position is exactly the largest representable offset are still accepted.",
  ["inputs"], "every row length and every existing end position around and beyond the limits of the offset type",
  "a test would have to build gigabyte-sized arrays; the arithmetic near the limit is reachable only with virtual data and symbolic lengths",
  ["src/offset.rs"], [("strict addition and checked conversion", "src/offset.rs Extend::extend, try_extend, Offset::strict_add")],
  ["Extend for Offsets", "CollectionRealloc::try_extend"])
p("P11", "Fixed-size lists group the child into equal rows and nothing is lost or shifted",
  "A child is accepted as a list of rows of size N exactly when N is non-zero and divides the child length, with the error reporting length and N otherwise; row i is then child elements i*N to i*N+N-1 by index, by borrowed iteration and by consuming iteration. Appending, fallibly appending, truncating and collecting rows behaves like the same operations on a list of arrays, and an index at or beyond the number of rows yields no row for every machine-word index.",
  ["inputs", "histories"], "every child length and content and every index, for row sizes 1 to 4 (and 0 for validation) over primitive, nullable and bit-packed children",
  "tests use one or two row sizes with literal data and only in-range indices",
  ["src/collection/flatten.rs"], [("multiple-of-N check", "src/collection/flatten.rs try_from_parts"), ("row view and chunk iterator", "src/collection/flatten.rs view, ArrayChunks"), ("flattened append", "src/collection/flatten.rs extend, try_extend, truncate")],
  ["Flatten::try_from_parts", "Collection for Flatten", "CollectionRealloc for Flatten"])
p("P12", "An array holds exactly the items put into it, for every supported item type",
  "Collecting any sequence of items into an array and reading it back, by index, by borrowed iteration or by consuming iteration, gives the same items in the same order, for booleans, fixed-size values, fixed-size lists and variable-size lists, nullable or not and nested in one another. Splitting the sequence and appending it in parts, fallibly or not, gives the same array contents as collecting it at once, and moving an array into its memory layout and back changes nothing.",
  ["inputs", "histories"], "every item sequence within the bounds, every split of it, for a representative set of nested item types",
  "the tests round-trip a few literals per type; nesting multiplies shapes, nullness and lengths",
  ["src/array.rs", "src/layout", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", BM], [("type-directed composition of layouts", "src/layout/mod.rs"), ("forwarding implementations", "src/layout/*.rs, src/array.rs")],
  ["Array FromIterator/Extend/CollectionRealloc/Collection", "Array::{from_buffer,into_buffer}"])
p("P13", "The physical buffers of an array follow the Arrow columnar layout",
  "For any array built from items, an independent decoder that follows only the Arrow columnar specification (LSB-first validity bits, row-aligned values with one slot per row, zero-based monotone offsets with one more entry than rows, children of fixed-size lists N times as long) recovers the items from the array's raw buffers. Every physical buffer holds at least as many elements as the layout requires, child and parent lengths match at every nesting level, and there is exactly one value slot for a null row.",
  ["inputs", "histories"], "every item sequence within the bounds, collected or appended in parts, for a representative set of nested item types",
  "tests compare a few buffers byte by byte; readers written against the specification depend on it for all data",
  ["src/layout", "src/validity.rs", "src/offset.rs", "src/bitmap/packed.rs", "src/collection/flatten.rs"], [("bit packing", "src/bitmap/packed.rs"), ("placeholders for null slots", "src/validity.rs"), ("offset append", "src/offset.rs")],
  ["BufferRef::buffer_ref", "ChildRef::child_ref", "into_parts"])
p("P14", "All storage backends read the same data the same way",
  "Arrays and building blocks over the same bytes read identically whichever storage owns them: growable vectors, boxed slices, reference-counted slices, atomically reference-counted slices, borrowed slices and inline arrays, by index, by borrowed iteration and by consuming iteration, within and beyond the length. Reading a shared backend through one handle never changes what another handle reads, and cloning a value that can be cloned gives an independent equal one.",
  ["inputs", "configurations"], "every content, bit offset, length and index, over all six storage backends",
  "tests cover individual backends with literals but not their agreement on all inputs",
  ["src/buffer.rs", "src/collection/vec.rs", "src/collection/box.rs", "src/collection/rc.rs", "src/collection/arc.rs", "src/collection/slice.rs", "src/collection/array.rs"], [("collection implementation per backend", "src/collection/*.rs")],
  ["Collection::{view,owned,iter_views,into_iter_owned}", "Length::len", "Clone"])
p("P15", "A failed reservation or append leaves the collection's contents unchanged",
  "When an allocation fails anywhere inside a fallible reserve or fallible append, the operation reports an allocation error and the collection afterwards reads exactly as before, at every nesting level; a fallible constructor that fails returns the error and leaks nothing. Further appends after a failure behave as if the failed operation had not been attempted, and when no allocation fails the fallible operation succeeds with the same result as the infallible one.",
  ["fault_sequences", "inputs"], "every single allocation failing in every fallible operation, over every initial state and item content within the bounds",
  "the real allocator never fails in tests; rollback code runs only when a specific allocation of several fails",
  ["src/validity.rs", "src/offset.rs", BM, "src/collection/flatten.rs", "src/collection/vec.rs"], [("rollback after partial append", "src/offset.rs try_extend, src/validity.rs try_extend, src/bitmap/mod.rs try_extend")],
  ["CollectionRealloc::{try_reserve,try_extend}", "CollectionAllocIn::{try_with_capacity_in,try_from_iter_in}"])
p("P16", "A panic in the caller's iterator never corrupts a collection",
  "When the item source panics at any point during an append, the collection afterwards is still usable: the elements present before are unchanged, any additional visible elements are a prefix of the items delivered, and no element reads as something that was never appended. Appending again after the panic puts the new items directly after the visible elements, and dropping the collection frees everything.",
  ["fault_sequences", "inputs"], "a panic at every item position of every append (fallible or not), over every initial state and item content within the bounds",
  "it needs a panic at a particular item with particular alignment of bits, chunks or rows; tests cover a few such points",
  [BM, "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs"], [("commit-after-consume ordering", "src/bitmap/mod.rs extend, src/validity.rs extend, src/offset.rs extend"), ("discard of uncommitted suffix on the next append", "src/validity.rs extend, src/offset.rs extend")],
  ["Extend", "CollectionRealloc::try_extend", "Collection"])
p("P17", "Reserved capacity is enough: no allocation happens within it",
  "After creating a bitmap, nullable, fixed-size-list or primitive collection with a capacity, or reserving room for additional elements (fallibly or not), appending up to that many elements performs no further memory allocation and keeps the contents already stored. The same holds for variable-size lists for rows of at most one element each, and reserving never changes the contents or length.",
  ["inputs", "histories"], "every existing length, bit offset and requested capacity, and every number of appended elements up to it",
  "rounding from bits to bytes and subtraction of free bits in the last byte has off-by-one corners the tests do not sweep",
  [BM, "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/vec.rs"], [("bit-to-byte capacity rounding", "src/bitmap/mod.rs with_capacity_in, reserve, try_reserve"), ("forwarded reservations", "src/validity.rs, src/offset.rs, src/collection/flatten.rs")],
  ["CollectionAllocIn::with_capacity_in", "CollectionRealloc::{reserve,try_reserve}"])
p("P18", "Importing accepts exactly the foreign arrays that conform to the declared type",
  "Importing an Arrow C data interface array for a given item type succeeds exactly when its format, nullability flag, length, offset, null count, buffer count, child count, dictionary, buffer pointers, alignment, offset contents and declared null count conform to that type at every nesting level; anything else is refused with an error rather than a panic, and is never imported as different data. Validation never reads outside the memory the structure declares, whatever the field values.",
  ["inputs"], "every value of every structure field (full 64-bit ranges), null and non-null pointers, all misalignments and buffer contents within the bounds",
  "the structure comes from foreign code; tests modify one field at a time to a few values",
  ["narrow-ffi/src/import"], [("structure validation", "narrow-ffi/src/import/mod.rs"), ("buffer validation per layout", "narrow-ffi/src/import/*.rs")],
  ["Import::import / TryFrom at the public import entry", "ImportError"])
p("P19", "An imported array reads exactly the foreign buffers, without copying them",
  "After a successful import, every element reads as the Arrow specification says for the declared buffers: validity from the LSB-first bitmap (all valid when absent), values from the value buffer, rows from the offsets, and children recursively. The imported array refers to the foreign buffers themselves, so it holds exactly the declared number of elements and no element outside the declared length is reachable.",
  ["inputs"], "every content and length within the bounds for each importable layout, nullable or not and nested",
  "tests import a few literal arrays",
  ["narrow-ffi/src/import"], [("slice construction per layout", "narrow-ffi/src/import/*.rs")],
  ["imported array through Collection", "BufferRef of the imported array"])
p("P20", "An exported array is a conforming C data structure and re-imports unchanged",
  "Exporting any array yields a schema and array structure with the format, flags, length, zero offset, null count, buffer count, children and buffers that the Arrow C data interface prescribes for its type at every nesting level, with every required buffer pointer non-null when the length is non-zero. Importing the exported structures gives an array with exactly the items of the original (lists of fixed size zero aside, which importing documents as unsupported).",
  ["inputs"], "every item sequence within the bounds for each exportable layout, nullable or not, nested, including empty arrays",
  "tests check a few literal arrays; a foreign consumer relies on every field for all arrays",
  ["narrow-ffi/src/export", "narrow-ffi/src/import", "narrow-ffi/src/lib.rs"], [("structure construction", "narrow-ffi/src/export/mod.rs"), ("per-layout buffers and formats", "narrow-ffi/src/export/*.rs")],
  ["Export", "ArrowSchema, ArrowArray fields", "Import"])
p("P21", "Exported memory is released exactly once and never while still reachable",
  "Whatever a consumer legally does with an exported structure (release it, drop it, move it and release the moved copy, or move children out and release them before or after the parent), every byte the export owns is freed exactly once, nothing is freed while a live structure still refers to it, and a released structure is marked released. A failed export leaves no allocation behind.",
  ["histories", "inputs"], "every order of releasing, dropping and moving parent and children, for each exportable layout and nesting",
  "tests release in one or two orders; double frees and leaks need particular orders on nested structures",
  ["narrow-ffi/src/lib.rs", "narrow-ffi/src/export"], [("release callbacks", "narrow-ffi/src/export/mod.rs"), ("drop calls release", "narrow-ffi/src/lib.rs")],
  ["release callback", "Drop", "is_released"])
p("P22", "Data with a non-zero bit offset is refused on export, at any nesting level",
  "Exporting an array in which some bitmap (a boolean value buffer or a validity bitmap, in the array itself or in any descendant) starts at a non-zero bit offset fails with an error naming that offset, and frees everything. When every bitmap starts at bit zero the export succeeds.",
  ["inputs"], "every bit offset of every bitmap in representative nested layouts",
  "a shifted bitmap exported as if it were aligned silently changes data; tests check one or two positions",
  ["narrow-ffi/src/export"], [("offset check", "narrow-ffi/src/export (offset functions per layout)")],
  ["Export", "ExportError"])
p("P23", "Fixed-size-list formats are parsed exactly",
  "When importing a fixed-size list of N elements, the format string is accepted exactly when it is the fixed-size-list prefix followed by a decimal number whose value is N; any other byte string, including other numbers, overflowing numbers, missing or non-digit characters and trailing bytes, is refused. For all other layouts, exactly the one format string of the type is accepted.",
  ["inputs"], "every format string within the bounds",
  "tests try a few strings; an overflowing or partially parsed number would silently reinterpret memory",
  ["narrow-ffi/src/import/fixed_size_list.rs", "narrow-ffi/src/import/mod.rs"], [("decimal parser with overflow rejection", "narrow-ffi/src/import/fixed_size_list.rs")],
  ["Import"])
p("P24", "Iterators always know exactly how many items remain",
  "At every step of consuming iteration over any collection the reported remaining length equals the number of items still to come, and the size hints of borrowed and consuming iterators never exclude that number. Skipping ahead, counting or taking the last item gives the same items as stepping one by one, and an exhausted iterator stays exhausted.",
  ["inputs", "histories"], "every collection content and shape within the bounds and every point of the iteration",
  "buffers are pre-sized from these numbers, so a wrong one corrupts reservations elsewhere; tests look at initial lengths of a few collections",
  ["src/bitmap/unpacked.rs", "src/bitmap/packed.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs"], [("size hints and exact lengths", "src/bitmap/unpacked.rs, src/validity.rs ValidityIter, src/offset.rs OffsetIntoIter, src/collection/flatten.rs ArrayChunks")],
  ["ExactSizeIterator::len", "Iterator::{size_hint,nth,count,last}"])

p("P25", "Every part of a collection uses the allocator it was given",
  "A collection created with an allocator obtains the memory of all its parts - values, offsets and validity bitmaps at every nesting level, including parts that are only created later - from that allocator and reports it as its allocator. Over any allocator it reads as over the default one; when the allocator refuses memory, a fallible operation reports the failure instead of panicking and leaves the contents unchanged, and it never fails when no memory was refused.",
  ["inputs", "histories", "faults"], "every allocator identity, every point from which the allocator refuses memory, and every history within the bounds",
  "the library is generic over allocators but its tests use one arena and one test allocator on a few shapes",
  ["src/collection/mod.rs", "src/validity.rs", "src/offset.rs", "src/bitmap/mod.rs", "src/collection/flatten.rs"], [("allocator passing", "src/collection/mod.rs CollectionAllocIn, CollectionRealloc::allocator"), ("materialization of validity", "src/validity.rs materialize_bitmap, try_materialize_bitmap")],
  ["CollectionAllocIn::{with_capacity_in,try_with_capacity_in,from_iter_in,try_from_iter_in}", "CollectionRealloc::{allocator,try_reserve,try_extend,reserve,extend,truncate}"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 90, x["title"]
        f.write(json.dumps(x) + "\n")
