#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the anchors stay readable)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
A, I, D, L, E, G, U = ("src/arraystring.rs", "src/implementations.rs", "src/drain.rs", "src/lib.rs",
                       "src/error.rs", "src/integration.rs", "src/utils.rs")
STATE = [{"name": "text", "meaning": "the bytes of the string, the abstract state of the specification",
          "where": f"{A}: ArrayString.array[..size]"},
         {"name": "size", "meaning": "number of live bytes, one u8", "where": f"{A}: ArrayString.size"}]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=STATE, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

p("C01", "Every string is always well-formed UTF-8 within its capacity",
  "After any sequence of safe operations, succeeding or failing, every string and every draining iterator holds well-formed UTF-8 "
  "and at most `capacity` bytes. All views of it (str, bytes, length, emptiness, deref, borrow, the text written by Display, iteration over characters) "
  "show that same content, and the reported capacity never changes. Safe code has no way to the bytes except as text.",
  ["inputs", "histories", "configurations"], "every finite history of public operations, every argument, every capacity 1..=255 and the cache-line type",
  "The tests run single operations on eight fixed strings at capacity 255, never near the capacity and never more than two operations deep.",
  [A, I, U, L], [("bound and boundary checks before the raw copies", f"{A}: replace_range, drain; {U}: is_inside_boundary, is_char_boundary"),
                 ("truncation at a character boundary", f"{U}: truncate_str"), ("unchecked views", f"{I}: AsRef/AsMut/Deref")],
  ["return of every public call: bytes, len, is_empty, capacity, as_str, deref, to_string"])

p("C02", "A failed operation leaves everything exactly as it was",
  "Whenever a string operation reports an error (out of bounds, not a character boundary, invalid UTF-16, formatting error of a single write), "
  "the string it was applied to and every other value are byte-for-byte what they were before the call. "
  "A failing constructor produces no value.",
  ["inputs", "histories"], "every operation that can fail, every failing argument, in every reachable state",
  "The tests check that errors are returned, for a handful of arguments, and look at the string afterwards in two doc examples.",
  [A, I, L], [("all checks precede the first mutation", f"{A}: replace_range, drain, truncate, remove, split_off")],
  ["text of all live strings before and after every call that returned Err"])

p("C03", "Fallible building and appending succeed exactly when the text fits",
  "Building a string from a str, from an iterator of strs or from an iterator of chars with the fallible constructors (including parsing), and appending with the "
  "fallible push operations and the text-writer interface, succeed exactly when the complete result has at most `capacity` bytes. "
  "On success the text is exactly the concatenation; otherwise the out-of-bounds (or formatting) error is returned.",
  ["inputs", "histories", "configurations"], "every text, every item sequence, every starting content, every capacity 1..=255",
  "The tests only cover results that fit well inside 255 bytes and one overflow example per constructor at capacity 23; the exact limit, multi-byte characters at it, and other capacities are not covered.",
  [A, I, L], [("total-size check", f"{A}: replace_range"), ("append", f"{A}: try_push_str, try_push"), ("Write/FromStr", f"{I}")],
  ["result and text after each constructor/append"])

p("C04", "Truncating operations keep the longest whole-character prefix that fits",
  "Each operation documented to truncate (truncating constructors and conversions, truncating push, truncating insert, `+`, collecting and extending) never fails for lack of room: "
  "it adds exactly the longest prefix of the supplied text that ends on a character boundary and fits in the remaining capacity, and keeps everything that was already there. "
  "Once a character does not fit, nothing after it is added.",
  ["inputs", "histories", "configurations"], "every supplied text or item sequence, every starting content and remaining room, every capacity 1..=255",
  "The tests truncate only runs of ASCII '0' and one emoji string; character boundaries at the cut, shorter characters after the one that did not fit, and item sequences crossing the limit are not sampled.",
  [A, I, U, L], [("boundary search", f"{U}: truncate_str"), ("stop at first overflow", f"{A}: from_iterator_truncate, from_chars_truncate"),
                 ("temporary then append", f"{I}: Extend")],
  ["text after each truncating call"])

p("C05", "Positional edits match std String, and bad positions are classified",
  "Inserting, removing, replacing a range, truncating to a size, splitting off and draining at any valid position change the text exactly as `std::string::String` does and return the same removed text. "
  "A position or range outside the text, or a result larger than the capacity, is reported as OutOfBounds and a position inside a character as Utf8 "
  "(either one when both apply), for every usize value and every kind of range bound, also when the inserted or removed text is empty; truncating to a size beyond the length is a no-op. "
  "A range that answers differently when asked again still denotes one part of the text throughout a replacement.",
  ["inputs", "histories"], "every position 0..=usize::MAX, every bound kind (included, excluded, unbounded), every replacement text, every reachable content",
  "The parity tests use position 2 and range ..2 only, on eight strings; no excluded or inclusive bounds, no reversed ranges, no extreme indices, no equal-length or shrinking replacement.",
  [A, U], [("range normalisation", f"{A}: replace_range, drain"), ("overlapping move then copy", f"{A}: replace_range"),
           ("checks", f"{U}: is_inside_boundary, is_char_boundary")],
  ["result, removed text and text after each positional edit"])

p("C06", "Draining removes the range at once and yields it exactly once, from both ends",
  "Creating a draining iterator removes the range from the string immediately, whether or not the iterator is ever consumed (also a range that answers differently when asked again: exactly what is yielded is removed), and the iterator is independent of the string afterwards. "
  "It yields exactly the removed characters, each once, in order from the front and in reverse order from the back under any interleaving, also through skipping, counting and collecting, and keeps returning nothing after it is exhausted. "
  "Its remaining text, its size hint, its copies and its comparisons always reflect exactly what is still to be yielded.",
  ["inputs", "histories"], "every range, every interleaving of front and back steps, skips, copies and edits of the source string",
  "One parity test collects a two-byte drain from the front; stepping from the back, mixing ends, copies and exhaustion are untested.",
  [D, A], [("owned copy of the range", f"{A}: drain"), ("front step", f"{D}: next"), ("back step", f"{D}: next_back")],
  ["each next/next_back/nth/collect result, as_str of the iterator, text of the source"],
  state=STATE + [{"name": "drain", "meaning": "text still to be yielded", "where": f"{D}: Drain.0"}])

p("C07", "Shrinking operations remove exactly what they promise",
  "`pop` removes and returns exactly the last character, `trim` removes exactly the leading and trailing Unicode white space, `clear` empties the string, and "
  "`retain` calls the predicate once per character in order and keeps exactly the characters it accepted, in order. "
  "Nothing else changes.",
  ["inputs", "histories"], "every content over all Unicode scalar values including every white-space character, every (stateful) predicate",
  "The tests use ASCII spaces and one emoji, and a predicate that keeps 'a'; multi-byte white space, all-white-space strings, interior white space and stateful predicates are not covered.",
  [A], [("trim scan", f"{A}: trim"), ("pop", f"{A}: pop"), ("retain", f"{A}: retain")],
  ["result, predicate call log and text after each call"])

p("C08", "UTF-16 input is decoded exactly, rejected or replaced as documented",
  "For every sequence of 16-bit units, well-formed input yields exactly the denoted text: the fallible constructor fails with OutOfBounds exactly when it exceeds the capacity, the truncating ones keep the longest whole-character prefix that fits. "
  "Input with an unpaired surrogate is rejected by the fallible constructor (Utf16, or OutOfBounds if the text is also too long) and, unless the text had already overflowed before it, by the truncating one (Utf16). "
  "The lossy constructor never fails and replaces each unpaired surrogate by U+FFFD before truncating.",
  ["inputs"], "every sequence of u16 units, every capacity 1..=255",
  "The tests use encodings of eight valid strings and one fixed invalid sequence that always fits.",
  [A, L], [("decode and push", f"{A}: try_from_utf16, from_utf16_truncate, from_utf16_lossy_truncate")],
  ["result and text of each constructor"])

p("C09", "Equality, order, hash and borrowing depend on the text alone and agree with str",
  "Comparing two strings (or two draining iterators, or a string with a str) for equality or order gives the same answer as comparing their texts as str, whatever histories produced them, and equal values hash equally. "
  "A string hashes exactly like the str it borrows as, so hash and tree maps keyed by strings can be searched by str and iterate in text order; it does not borrow as anything that compares or hashes otherwise.",
  ["inputs", "histories"], "every pair of values reached through any two histories (including ones that leave stale bytes behind the text), every map history",
  "The tests compare freshly built strings only; no test orders or hashes anything, or compares values whose buffers differ behind the text.",
  [I, D, L], [("delegation to the str view", f"{I}: PartialEq, Ord, Hash, Borrow; {D}: same; {L}: CacheString")],
  ["results of ==, cmp, hash stream, map get/insert/remove/iterate"])

p("C10", "No operation panics, aborts, hangs or allocates",
  "Outside indexing, no operation panics, aborts, fails to return or overflows for any argument in any reachable state, unless the caller's own closure or iterator does. "
  "No operation of the library that returns has allocated heap memory.",
  ["inputs", "histories", "configurations"], "every operation, every argument (including usize::MAX positions, reversed ranges, full and empty strings), debug and release builds",
  "Tests show absence of panics on a few arguments; nothing measures allocation, and the no-panic link check is off in the tested profile.",
  [A, I, D, U], [("saturating index arithmetic", f"{A}: replace_range, drain, remove"), ("get instead of slicing", f"{A}: remove"),
                 ("inline storage", f"{A}: ArrayString")],
  ["outcome kind of every call; allocator counter around every call"])

p("C11", "Slicing and mutable views act on exactly the addressed text",
  "Indexing by each of the range kinds returns, or gives mutable access to, exactly the addressed part of the text when the range is within the text and on character boundaries, and panics otherwise, leaving the text unchanged; an inclusive range that has been iterated to its end addresses nothing. "
  "Edits made through any mutable view (whole text or slice) are seen by the string in place, at that position and nowhere else.",
  ["inputs", "histories"], "every u8 range of the six kinds, every content, every mutable view",
  "No test indexes an ArrayString at all; mutable views are only read.",
  [I, L], [("widening of u8 ranges and delegation", f"{I}: Index, IndexMut; {L}: CacheString Index, IndexMut"),
           ("mutable views", f"{I}: AsMut, DerefMut, BorrowMut; {A}: as_mut_str")],
  ["slice returned or panic, text after each mutable edit"])

p("C12", "Strings are values: operations touch only their own storage",
  "Copies and clones are equal to and independent of the original, and an operation on one string never changes another string, a draining iterator obtained earlier, its arguments, or any neighbouring memory. "
  "Values can be moved freely, at any address, without changing; copied, shared between and sent to threads; and made before the program runs (const). "
  "A view of a string cannot be kept across a change to it or its end, while every other result is independent of the string and the arguments it was made from.",
  ["inputs", "histories"], "every operation on every reachable population of strings, copies and draining iterators; guard bytes around every string",
  "The tests hold one string at a time and never look outside it; a write past the storage would go unnoticed.",
  [A, D], [("raw pointer copies bounded by checks", f"{A}: replace_range"), ("derived Copy/Clone on inline storage", f"{A}, {D}")],
  ["all live values and guard bytes around them after every call"])

p("C13", "Serde: serialised as a string; any string form is accepted and truncated",
  "A string serialises exactly as its text serialises as a str. Deserialising accepts every text that deserialising a std String accepts, whether the format hands it over borrowed, transient (as with escape sequences or readers) or owned, and yields the longest whole-character prefix that fits; "
  "anything else is an error and never a panic. A round trip through the same capacity is the identity.",
  ["inputs", "configurations"], "every text, every way a format can deliver it, every capacity, both string types",
  "The tests round-trip one ASCII word through JSON; escapes, non-borrowed input, over-long input and non-string input are not covered.",
  [G], [("Serialize via str", f"{G}: serde_impl"), ("Deserialize then truncate", f"{G}: serde_impl")],
  ["serializer calls received; result of deserialising from each delivery form"])

p("C14", "Diesel: columns store exactly the text and load it truncated",
  "A value written through Diesel stores exactly its text, compares in queries as that text, and loads back equal at the same capacity. "
  "A column text longer than the capacity loads as the longest whole-character prefix that fits, NULL is never turned into text, and no load panics.",
  ["inputs", "histories", "configurations"], "every text, every sequence of inserts, updates and queries on SQLite, every pair of writing and loading capacity, both string types",
  "The tests insert and read back the word \"Name1\" once per type.",
  [G], [("ToSql via str", f"{G}: diesel_impl ToSql"), ("FromSql then truncate", f"{G}: diesel_impl FromSql")],
  ["raw column bytes after writes; loaded value after reads"])

p("C15", "Every capacity 1..=255 works, no other exists, and sizes are as documented",
  "The string type is usable for exactly the capacities 1 to 255; each occupies capacity + 1 bytes, reports its capacity, accepts texts up to exactly that many bytes and holds them faithfully. "
  "CacheString has capacity 63, size 64 and alignment 64; MaxString has capacity 255; SmallString occupies as much memory as a std String.",
  ["configurations", "inputs"], "every capacity 0..=300 and samples beyond; every length around each capacity",
  "The tests instantiate five capacities and measure one size.",
  [A, L], [("sealed capacity trait", f"{A}: sealed::ValidCapacity"), ("inline array plus u8 length", f"{A}: ArrayString"), ("aliases", f"{L}")],
  ["availability, size, alignment, capacity and fill behaviour of each instantiation"])

p("C16", "CacheString behaves exactly like ArrayString<63>",
  "Under every history of operations a CacheString gives the same results, errors, panics and texts as an ArrayString of capacity 63 given the same operations, and converting from one keeps the text.",
  ["inputs", "histories"], "every history applied to both types in lockstep",
  "CacheString has construction doc tests only; none of its 25 forwarding trait implementations is executed by a test.",
  [L], [("forwarding", f"{L}: cache_string")],
  ["lockstep results and texts of both types"])

p("C17", "Build configuration never changes behaviour",
  "The same history gives the same results, errors and texts with and without the standard library, with logging compiled in (whether anybody listens or not), with the serde and Diesel integrations, with the no-panic attribute, in debug and in release builds.",
  ["configurations", "histories"], "every history under each build configuration of the feature matrix",
  "The suite runs in one configuration (all features, dev profile); other configurations are at most compiled, and no test compares two.",
  [L, A, U], [("log macros evaluated for their arguments", f"{A}: trace!/debug!; {L}: mod mock"), ("debug assertions", f"{I}, {A}")],
  ["traces of the same seeded histories from each build"])

p("C18", "Iterator-driven operations stop in time and pull no more than they need",
  "Building or extending from an iterator pulls items strictly in order and never pulls another one once the items it supplied exceed the capacity by themselves, so it returns even when the iterator is endless (as long as its items are not all empty). "
  "An operation that reports success, or that truncates and has room left, has consumed the whole iterator, and no size hint, however wrong, changes the outcome.",
  ["inputs"], "every item sequence, finite or endless, every (also wrong) size hint, every starting content and capacity",
  "The tests use short finite iterators and never observe how many items were pulled.",
  [A, I], [("loop with early exit", f"{A}: try_from_*/from_*_truncate"), ("Extend through a temporary of the same capacity", f"{I}: Extend")],
  ["items pulled from an instrumented iterator"])

p("C19", "A panic in caller code never leaves a damaged string",
  "If a predicate, an iterator, or the conversion of an argument to text or to a range supplied by the caller panics in the middle of an operation, the panic reaches the caller and the string still holds well-formed text within its capacity: "
  "the original text with at most some already-visited characters removed (filtering), or followed by at most some of the characters already supplied (extending). Every later operation works normally.",
  ["fault_sequences", "inputs", "histories"], "a panic at every call of every caller-supplied closure, iterator or argument, followed by further operations",
  "No test makes caller code panic inside an operation.",
  [A, I], [("result built aside, then assigned", f"{A}: retain; {I}: Extend")],
  ["text after the caught panic and after following operations"])

p("C20", "Error values keep their kind",
  "Each specific error (Utf8, Utf16, OutOfBounds), and the corresponding standard library errors, convert into exactly the general error of the same kind. "
  "Errors compare equal, hash equally and print alike exactly when they are of the same kind, and printing one reports a failing sink.",
  ["inputs"], "every pair of error values and every conversion",
  "The tests compare a few returned errors with ==; conversions, hashes and messages are not checked.",
  [E], [("From, PartialEq, Hash, Display", f"{E}")],
  ["results of conversion, comparison, hash stream and Display for every pair"], state=[])

p("C21", "Printing writes exactly the text; the text writer is all-or-nothing per piece",
  "Printing a string (or a CacheString) writes exactly its text, nothing more or less, and reports a failing sink; its Debug output shows the text the way str's does. "
  "Writing formatted pieces into a string appends each piece completely or not at all, stops with an error at the first piece that does not fit, and keeps the pieces before it.",
  ["inputs", "histories"], "every text, every sequence of written pieces, every remaining room",
  "Tests print strings but do not compare the output; nothing writes into a string through fmt::Write.",
  [I, L], [("Display", f"{I}: Display"), ("Write", f"{I}: Write")],
  ["printed text; result and text after write_str/write_char/write!"])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
