#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts are maintained here."""
import json, os

P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

ALL = ["Src/base64.c", "Src/bit_manipulation.c", "Src/crc", "Src/crypto", "Src/json.c", "Src/map.c",
       "Src/priority_queue.c", "Src/queue.c", "Src/scheduler.c", "Src/sort", "Src/utils.c"]

# ---------------------------------------------------------------- cross-cutting
p("M01", "No call ever reads or writes out of bounds or runs into undefined behaviour",
  "For every public function and every argument combination its documentation allows (including malformed text, "
  "truncated buffers, zero lengths, too-small capacities and out-of-range bit positions), the call reads only the bytes the "
  "caller passed in, writes only the caller's output memory, and executes no undefined behaviour. It always returns.",
  ["inputs", "histories"],
  "all inputs of every public function, every buffer size, capacity and alignment, every sequence of container operations",
  "The tests use oversized buffers and a few lengths and run without any sanitizer; they never place a buffer's end against "
  "unreadable memory, so an overread or an undefined shift passes unnoticed.",
  ALL, [("explicit bounds and capacity checks", "every module under Src"), ("masking of shift counts", "Src/bit_manipulation.c")],
  ["every public API call: sanitizer reports, guard-page faults"])
p("M02", "A call changes only its documented output bytes, never beyond the stated size",
  "Every function changes only the bytes it is documented to produce: fixed-width outputs exactly their width, bulk outputs exactly "
  "their length, decoding a valid Base64 text exactly the decoded bytes, and text or value outputs never a byte beyond the capacity the "
  "caller stated, whether the call succeeds or fails. "
  "This holds even when the memory around the output is itself valid and writable.",
  ["inputs"], "all inputs and all stated capacities from zero to more than enough, on success and on failure",
  "Tests compare the produced text or value, never the surrounding bytes, and pass capacities far larger or far smaller than needed.",
  ALL, [("capacity comparison before writing", "Src/base64.c, Src/json.c"), ("element size and index bounds", "Src/queue.c, Src/map.c, Src/priority_queue.c, Src/sort")],
  ["bytes around each output before and after the call"])
p("M03", "Inputs and read-only arguments are never modified",
  "Data a function only takes in - keys, nonces, tables, source text, elements to be stored, items, task descriptions - is never written, "
  "not even temporarily. Queries (front, rear, full, empty, value lookup, key lookup) and a scheduler pass leave the container, its storage and its table "
  "untouched, so all of them work on data that lives in read-only memory.",
  ["inputs", "histories"], "all inputs; every reachable container state for queries",
  "A test never puts inputs in read-only memory and seldom looks at the input after the call; a write that is restored before return is invisible to it.",
  ALL, [("const-qualified parameters", "all headers under Inc"), ("private copies of working data", "Src/crypto/chacha20.c, Src/sort/insertion_sort.c")],
  ["write faults on read-only mapped inputs during each call"])
p("M04", "Calls on separate data are independent: reentrant and free of data races",
  "No function keeps hidden shared state: calls on disjoint caller-owned data may run concurrently in threads, preempt one another at any instruction, "
  "or be nested from a compare function or a task, and each gives the result it gives alone. Concurrent read-only calls on the same data are also safe and give the same results as alone.",
  ["schedules", "histories"],
  "all interleavings of calls from several threads on disjoint data, preemption of any call by any call at any instruction, nesting through callbacks",
  "All tests are single threaded, never nest calls, and call each function to completion, so mutable static state is invisible to them.",
  ALL, [("all state lives in caller-provided memory or on the stack", "every module under Src"), ("lookup tables are constant", "Src/crc, Src/base64.c")],
  ["results of interleaved calls against isolated calls; race reports"],
  [("scratch element", "temporary copy of the element being inserted during a sort", "Src/sort/insertion_sort.c")])
p("M05", "A rejected operation has no effect",
  "When an operation on a container, a bit, a power of ten, a message, a task table or a JSON text under construction reports failure (full, empty, absent, out of range, mismatching length, too small), "
  "the container, message, table or text and the caller's output variable are exactly as before the call, and later operations behave as if the rejected call had never been made.",
  ["histories", "inputs"], "every history of operations in which some are rejected, and every rejected input",
  "Tests check the returned status of a handful of rejections and do not look at what was left behind or carry on with the same object.",
  ["Src/queue.c", "Src/priority_queue.c", "Src/map.c", "Src/scheduler.c", "Src/bit_manipulation.c", "Src/utils.c", "Src/json.c", "Src/crypto/vernam_cipher.c"],
  [("check before modify", "each operation's guard condition"), ("size check before appending", "Src/json.c")],
  ["object bytes and outputs before and after each rejected call; subsequent results"])
p("M06", "Results never depend on stale, uninitialised or leftover memory",
  "What a function returns and stores depends only on its arguments and on the data put into the container since initialisation; the former contents of output buffers, of container storage, of the container object before initialisation, "
  "and of the stack have no influence. Every byte reported as output has been given a value by the call.",
  ["inputs", "histories"], "all inputs and histories under arbitrary prior memory contents",
  "Tests run once in whatever memory they are given, which is often zero; a missing initialisation passes by luck.",
  ALL, [("full initialisation of container fields", "Src/queue.c, Src/priority_queue.c, Src/map.c, Src/scheduler.c"), ("explicit termination of produced strings", "Src/base64.c, Src/json.c")],
  ["results under different prior memory contents; uninitialised-value reports"])
p("M07", "Storage larger than 2 or 4 GiB is addressed correctly on 64-bit hosts",
  "On a 64-bit host, containers, sorts and blob copies whose caller-provided storage exceeds 2 GiB or 4 GiB in total behave exactly as with small storage: elements keep their identity and order and no access is truncated, wrapped or dropped. "
  "The only limits are those of the parameter types.",
  ["inputs", "histories"], "all element sizes and counts whose product exceeds the range of 32-bit arithmetic",
  "Test buffers are at most a few kilobytes, so 32-bit offset arithmetic never overflows.",
  ["Src/queue.c", "Src/priority_queue.c", "Src/map.c", "Src/sort", "Src/utils.c"],
  [("offset computation index * element size", "Src/queue.c, Src/priority_queue.c, Src/map.c, Src/sort"), ("blob loop counters", "Src/utils.c")],
  ["element identity and order across the 2 GiB and 4 GiB boundaries"])
p("M08", "Results do not depend on compiler, optimisation level or char signedness",
  "For any documented use, every function gives the same results whichever of the supported C compilers, optimisation levels and plain-char signedness (signed as on x86, unsigned as on ARM) it is built with.",
  ["configurations", "inputs"], "all documented inputs, over compilers (gcc, clang), optimisation levels and char signedness",
  "The tests are run in one configuration, gcc without optimisation and with signed char.",
  ALL, [("fixed-width types and explicit casts instead of plain char arithmetic", "Src/utils.c, Src/crypto, Src/base64.c")],
  ["results of the same call sequence in each build"])

p("M09", "No call needs heap, system services or more than a small, fixed stack",
  "Every function works in the memory its caller gives it: no call allocates or frees heap memory or makes a system call, and no call needs more than 4 KiB of stack, however long the data, the texts, the elements or the storage it is given. "
  "What a caller's comparator or task does is not counted.",
  ["inputs", "histories"], "all calls with data of any size",
  "Tests run on a host with megabytes of stack and a heap that never fails; recursion, variable-length arrays and scratch allocations pass there and fail on the small targets the library is meant for.",
  ALL, [("in-place algorithms and caller-provided storage (MISRA-C, no dynamic memory)", "README.md, Inc, Src"), ("element temporaries of fixed size in the sorts", "Src/sort, Src/utils.c Utils_swapElements")],
  ["stack depth, allocator calls and system calls of every call"])
p("M10", "No input makes a call do more than linear work",
  "The work of a call is bounded by a constant plus a modest multiple of the bytes it is given or produces (for map and priority queue: of the bytes held, for the scheduler: of its slots; the sorts are of the order of n*n, the heap sort of n*log n, element moves). "
  "Operations on bits, numbers and characters and the init, state and query functions of the queues take constant work; queue operations depend on the element size only, not on capacity or fill. No text, key, content or history makes a call slower than that.",
  ["inputs", "histories"], "all inputs and histories, large ones in particular",
  "Test inputs are too small for a quadratic or unbounded scan to show, and the tests do not measure work at all.",
  ALL, [("single-pass scanners", "Src/json.c, Src/base64.c, Src/crypto"), ("ring indices instead of shifting", "Src/queue.c"), ("sift-down of bounded depth", "Src/sort/heap_sort.c")],
  ["executed control-flow edges and bytes handled by libc per call"])

p("M11", "Results do not depend on where the data lies in memory",
  "Every function gives the same results wherever its arguments are: at odd addresses (for byte data), directly before or after one another without a gap, in any order, in low or high memory, and across 2 GiB and 4 GiB address boundaries.",
  ["inputs", "histories", "configurations"], "all documented inputs at every placement of the (non-overlapping) buffers and objects",
  "Test data are a few stack arrays and globals with the alignment, order and distance the compiler happens to choose.",
  ALL, [("byte-wise access to byte data", "Src/utils.c, Src/crypto, Src/crc"), ("no comparison or truncation of addresses", "Src")],
  ["results and output bytes of the same call at different addresses"])

p("M12", "Results do not depend on the word size and byte order of the machine",
  "Every function gives the same results on 32-bit and 64-bit machines and on little-endian and big-endian ones: the same return values, the same bytes in serialized data, digests, texts and blobs, the same numbers read back, and the same histories of the containers. "
  "No function makes an access that machines with strict alignment trap when its byte data lie at odd addresses.",
  ["inputs", "histories", "configurations"], "all documented inputs on ILP32 and LP64 machines of either byte order (within what fits a 32-bit address space)",
  "The tests run on the little-endian 64-bit build host only, where code that copies words instead of bytes or relies on the width of long passes.",
  ALL, [("byte order made explicit by shifts", "Src/utils.c, Src/crypto/chacha20.c, Src/crc"), ("fixed-width types in the interfaces", "Inc/typedefs.h, Inc")],
  ["results and output bytes of the same call on four other machines"])

# ---------------------------------------------------------------- base64
p("B01", "Base64 encoding yields the standard text, and succeeds exactly when it fits",
  "For every byte string and stated capacity, encoding succeeds exactly when the encoded text and its terminating NUL fit in the capacity, and then the result is the standard (RFC 4648, padded) Base64 text of the input, NUL-terminated. "
  "Inputs may contain any byte values, including NUL, and have any length including zero.",
  ["inputs"], "all byte strings and all capacities",
  "Six fixed ASCII strings are encoded, with capacities far too small or far too big; no binary data, no exact fit.",
  ["Src/base64.c", "Inc/base64.h"], [("three-byte group loop and padding", "Src/base64.c Base64_encode"), ("capacity check per group", "Src/base64.c Base64_encode")],
  ["return value and output text of Base64_encode"])
p("B02", "Base64 decoding inverts encoding, padded or not, exactly when the result fits",
  "For every non-empty byte string, decoding its standard Base64 text, with the padding present or left out, succeeds exactly when the stated output capacity holds the original bytes, and returns exactly those bytes. An empty input is rejected.",
  ["inputs"], "all non-empty byte strings (every length modulo 3), padded and unpadded, all capacities",
  "A few fixed strings are decoded; short inputs of one or two bytes, unpadded text, binary data and exact capacities are not.",
  ["Src/base64.c", "Inc/base64.h"], [("padding detection and output length computation", "Src/base64.c Base64_decode"), ("reverse alphabet table", "Src/base64.c Base64_decode")],
  ["return value and output bytes of Base64_decode"])

# ---------------------------------------------------------------- bits & utils
p("N01", "Bit operations match their definition on every word and bit position",
  "For every 32-bit word, testing, setting, clearing and toggling bit n succeed exactly for n in 0..31 and affect that bit alone; reflecting n bits (0..32) reverses exactly the low n bits and drops the others; "
  "rotating left by 0..32 is a rotation that loses no bit.",
  ["inputs"], "all words, all bit positions 0..255, all widths 0..32, all rotations 0..32",
  "One data word and three positions per function are tested.",
  ["Src/bit_manipulation.c"], [("range check on the position", "Src/bit_manipulation.c"), ("shift and mask expressions", "Src/bit_manipulation.c")],
  ["results of each bit function"])
p("N02", "Text to uint32 conversion accepts exactly the representable decimal numbers",
  "For every text of 1 or more characters given by pointer and length (no terminator needed), conversion succeeds exactly when it has at most ten characters, all are decimal digits and the number is at most 4294967295, and then yields that number. Leading zeros are allowed within the ten characters.",
  ["inputs"], "all texts of any length and byte content",
  "About fifteen literals are tested, among them only a few around the upper limit.",
  ["Src/utils.c"], [("digit check and accumulation", "Src/utils.c Utils_stringToUint32"), ("tenth digit overflow check", "Src/utils.c Utils_stringToUint32")],
  ["return value and number"])
p("N03", "Fixed-width serialisation has the stated byte order and round-trips every value",
  "For every value, the 8, 16, 24 and 32 bit writers store exactly the low 1, 2, 3 or 4 bytes in the stated order (big or little endian) at any address, and the matching reader returns that value; a reader followed by the matching writer reproduces the bytes.",
  ["inputs"], "all values of each width (24-bit writers with any upper byte), all alignments",
  "One or two values per width at aligned offsets are tested.",
  ["Src/utils.c"], [("shift and mask per byte", "Src/utils.c Utils_serialize*, Utils_deserialize*")],
  ["stored bytes and read values"])
p("N04", "Blob copies and element swaps move every byte to its place, for any size",
  "For every size, big-endian blob (de)serialisation copies the bytes in order, little-endian blob (de)serialisation copies them in reverse order, so that matching pairs restore the original, and swapping exchanges the full contents of two elements and nothing else.",
  ["inputs"], "all contents and sizes including zero, all alignments",
  "Fixed 4 to 50 byte blobs and 1, 8 and 16 byte swaps are tested.",
  ["Src/utils.c"], [("copy loops", "Src/utils.c Utils_serializeBlob*, Utils_deserializeBlob*, Utils_swapElements")],
  ["destination bytes"])
p("N05", "Letter classification and powers of ten are right for every argument",
  "Over all 256 character values, exactly the ASCII letters A-Z are reported upper case, exactly a-z lower case and exactly both alphabetic, and powers of ten are produced exactly for exponents 0..9 and refused for all others.",
  ["inputs"], "all 256 characters, all 256 exponents",
  "The tests sample a few characters and exponents only up to 10.",
  ["Src/utils.c"], [("range comparisons", "Src/utils.c Utils_is*"), ("table lookup with limit", "Src/utils.c Utils_quickUint32Pow10")],
  ["returned booleans and values"])

# ---------------------------------------------------------------- crc
p("C01", "Every named CRC equals its published definition on every message",
  "For every message of any length and content, each of the named CRC-8, CRC-16 and CRC-32 functions returns the checksum defined by its published parameter set (polynomial, initial value, reflection, final XOR).",
  ["inputs"], "all messages, all named variants",
  "Seven messages of at most nine bytes per variant cannot exercise all 256 entries of each of the tables, nor long messages.",
  ["Src/crc/crc8_variants", "Src/crc/crc16_variants", "Src/crc/crc32_variants", "Src/crc/crc8_base.c", "Src/crc/crc16_base.c", "Src/crc/crc32_base.c"],
  [("256-entry table per variant", "Src/crc/*_variants/*.c"), ("parameter macros per variant", "Src/crc/*_variants/*.c"), ("table-driven loop", "Src/crc/crc*_base.c")],
  ["returned checksum"])
p("C02", "A CRC computed in chunks equals the CRC of the whole message",
  "For every named CRC, every message and every way of cutting it into consecutive chunks (including empty and single-byte chunks), passing each chunk with the previous result, and marking the last chunk final where the function has such a flag, gives the checksum of the whole message.",
  ["inputs", "histories"], "all messages, all partitions into chunks, all intermediate checksum values",
  "One partition (2+5+2 bytes) of one message per variant is tested.",
  ["Src/crc/crc8_variants", "Src/crc/crc16_variants", "Src/crc/crc32_variants"],
  [("continuation from the previous value", "last_crc_ptr handling in each variant"), ("deferral of reflection and final XOR", "final_crc handling in each variant")],
  ["final checksum over chunk sequences"])
p("C03", "The generic CRC engines and table builders follow the model for any parameters",
  "For any 8, 16 or 32 bit polynomial the table builder yields the 256 byte remainders of that polynomial, and the generic engine with that table computes the textbook CRC for every initial value, final XOR value and combination of input reflection, output reflection and final-XOR switch, over any message including the empty one.",
  ["inputs", "configurations"], "all polynomials, parameter combinations and messages",
  "One or two polynomials and one initial value per width are tested.",
  ["Src/crc/crc8_base.c", "Src/crc/crc16_base.c", "Src/crc/crc32_base.c"],
  [("bitwise table computation", "Crc*Base_tableCalculator"), ("parameterised loop", "Crc8Base, Crc16Base, Crc32Base")],
  ["table entries and checksums"])

# ---------------------------------------------------------------- crypto
p("E01", "ChaCha20 output equals RFC 8439 for every key, nonce, counter and length",
  "For every 256-bit key, 96-bit nonce, initial block counter and message of any length (multiples of 64 or not, empty included), the output is the message XORed with the RFC 8439 key stream, the 32-bit block counter wrapping modulo 2^32.",
  ["inputs"], "all keys, nonces, counters and messages",
  "Four RFC vectors with counters 0, 1 and 42 and at most a few blocks are tested.",
  ["Src/crypto/chacha20.c", "Src/bit_manipulation.c", "Src/utils.c"],
  [("block function", "Src/crypto/chacha20.c Block"), ("block loop and remainder", "Src/crypto/chacha20.c Chacha20_crypt")],
  ["output bytes"])
p("E02", "ChaCha20 decrypts what it encrypts, in place or not, whole or in pieces",
  "Applying the cipher twice with the same key, nonce and counter restores the message; processing in place gives the same as into a separate buffer; and processing a message in pieces cut at multiples of 64 bytes, advancing the counter by the blocks done, gives the same as in one call.",
  ["inputs", "histories"], "all messages, keys, nonces, counters and partitions at block boundaries",
  "Only one-shot encryption of fixed vectors is tested; never decryption, in-place use or resuming at a block.",
  ["Src/crypto/chacha20.c"], [("XOR key stream", "Src/crypto/chacha20.c Chacha20_crypt"), ("counter argument", "Src/crypto/chacha20.c Chacha20_crypt")],
  ["output bytes of related calls"])
p("E03", "Caesar cipher rotates letters only, and decryption undoes it for any shift",
  "For every NUL-terminated message and every shift 0..255, encryption replaces each ASCII letter by the letter that many places further in the alphabet (cyclically, same case) and leaves every other character alone, and decryption with the same shift is its exact inverse in both directions.",
  ["inputs"], "all messages, all 256 shifts",
  "One message with one shift is encrypted and decrypted, with no letter that wraps around the alphabet.",
  ["Src/crypto/caesar_cipher.c", "Src/utils.c"], [("modular shift per letter", "Src/crypto/caesar_cipher.c"), ("letter classification", "Src/utils.c")],
  ["message after each call"])
p("E04", "Vernam cipher adds key letters modulo 26 and decryption restores every message",
  "For every message and key of equal length, encryption succeeds, maps each letter to a letter of the same case and leaves other characters alone - for a key letter the result is the sum of both alphabet positions modulo 26 - and decryption with the same key restores the message, whatever characters the key contains. "
  "If the lengths differ, both functions refuse and the message stays as it was.",
  ["inputs"], "all messages, all keys (letters or not), matching and mismatching lengths",
  "One message with two keys is round-tripped, and only as a whole.",
  ["Src/crypto/vernam_cipher.c", "Src/utils.c"], [("length check", "Src/crypto/vernam_cipher.c"), ("modular sum and difference", "Src/crypto/vernam_cipher.c")],
  ["status and message after each call"])

# ---------------------------------------------------------------- containers
p("Q01", "The queue is a bounded FIFO through every history",
  "Through every sequence of enqueue, dequeue, front, rear, full and empty, for every capacity and element size, the queue behaves as a bounded FIFO: enqueue succeeds exactly when fewer than capacity elements are held, elements come out once each, intact and in insertion order, front and rear show the oldest and newest, and full and empty tell the truth.",
  ["histories", "inputs"], "all histories, capacities and element sizes, including arbitrarily many wrap-arounds",
  "Two tests fill a queue of 100 once and hardly wrap around; mixed histories and other sizes are not explored.",
  ["Src/queue.c", "Inc/queue.h"], [("front/rear/size ring arithmetic", "Src/queue.c"), ("copy in and out by element size", "Src/queue.c")],
  ["result of each operation against a FIFO model"],
  [("ring indices", "position of oldest and newest element", "Queue_t.front, rear, size")])
p("Q02", "Priority queue serves highest first, FIFO among equals, and evicts the lowest",
  "Through every history, for every capacity and element size, dequeue returns, intact, the element of highest priority and among equals the one inserted first, and fails only when empty; enqueue on a full queue succeeds exactly when the new priority is higher than the lowest held, and then drops exactly the oldest of the lowest-priority elements.",
  ["histories", "inputs"], "all histories, priorities over the full 32-bit range, capacities and element sizes",
  "Two tests with three priority values and one eviction; interleaved histories, ties after evictions and extreme priorities are not reached.",
  ["Src/priority_queue.c", "Inc/priority_queue.h"], [("highest and lowest priority search", "Src/priority_queue.c"), ("compaction after removal", "Src/priority_queue.c")],
  ["result of each operation against a model"],
  [("element and priority arrays", "parallel arrays that must stay in step", "PriorityQueue_t.buffer, priority_array")])
p("Q03", "The map returns the last value stored under a key, for every history",
  "Through every history, for every key size, value size and capacity, looking up a key returns exactly the value most recently inserted under the byte-wise equal key and fails if there is none; inserting succeeds exactly when the key is already present or there is room, and never disturbs any other key.",
  ["histories", "inputs"], "all histories, key and value contents and sizes, capacities",
  "Two tests insert two keys each and replace one value.",
  ["Src/map.c", "Inc/map.h"], [("linear key search", "Src/map.c GetIndex"), ("append or replace", "Src/map.c Map_insert")],
  ["result of each operation against a map model"],
  [("current size", "number of keys stored", "Map_t.current_size")])
p("Q04", "A scheduler pass runs each active registered task exactly once, in table order",
  "Through every history of adding, activating, deactivating and clearing tasks, one pass calls every slot that holds a task and is active when reached exactly once, in slot order, and calls nothing else. Adding puts a copy of the task into the first free slot and fails, changing nothing, exactly when no slot is free.",
  ["histories"], "all histories of table operations and passes, all table sizes, tasks that change the table while running",
  "One test with three slots prints from the tasks and does not check which ran.",
  ["Src/scheduler.c", "Inc/scheduler.h"], [("free slot search", "Src/scheduler.c Scheduler_addTask"), ("single pass loop", "Src/scheduler.c Scheduler_run")],
  ["sequence of task invocations per pass; status of adds"])
p("Q05", "Initialisation accepts only usable configurations and yields an empty container",
  "Initialising a queue, priority queue or map reports failure for every configuration with a zero (or, for maps, negative) size or capacity or a missing (NULL) buffer argument, leaving an already working container as it was, and otherwise reports success and yields an empty container, also when the object was in use before. Initialising a task table of any size leaves every slot free.",
  ["inputs", "histories"], "all parameter combinations, fresh and previously used objects",
  "Each invalid parameter is tried once on a fresh object; negative sizes and re-initialisation are not.",
  ["Src/queue.c", "Src/priority_queue.c", "Src/map.c", "Src/scheduler.c"], [("parameter validation", "*_init functions")],
  ["status of init and behaviour afterwards"])

# ---------------------------------------------------------------- sort
p("S01", "Every sort returns the same elements in ascending order",
  "For every element count (zero and one included), element size, content and consistent 'greater than' function, bubble, heap, insertion and selection sort leave the buffer holding exactly the same elements, byte for byte, in an order in which no element is greater than its successor.",
  ["inputs"], "all arrays, element sizes (insertion sort up to its documented 64 bytes), orders and compare functions",
  "Three ten-element arrays per algorithm are sorted; no small or large counts, duplicates-heavy, presorted or reversed inputs, odd element sizes.",
  ["Src/sort/bubble_sort.c", "Src/sort/heap_sort.c", "Src/sort/insertion_sort.c", "Src/sort/selection_sort.c", "Src/utils.c"],
  [("comparison and swap loops", "Src/sort/*.c"), ("byte-wise swap", "Src/utils.c Utils_swapElements")],
  ["buffer after sorting"])
p("S02", "Bubble sort and insertion sort are stable",
  "For every input, bubble sort and insertion sort keep elements that compare equal in their original relative order.",
  ["inputs"], "all arrays with elements that compare equal but are distinguishable",
  "The tests sort plain numbers, where equal elements cannot be told apart.",
  ["Src/sort/bubble_sort.c", "Src/sort/insertion_sort.c"], [("swap or move only when strictly greater", "Src/sort/bubble_sort.c, Src/sort/insertion_sort.c")],
  ["order of tagged equal elements"])
p("S03", "Sorting only ever compares elements of the array, and survives any comparator",
  "The compare function is only ever given elements of the array being sorted (in place or as a faithful copy), never bytes outside it. Even if it answers inconsistently (for example on NaN, or at random), every sort returns and the buffer still holds exactly the original elements.",
  ["inputs", "histories"], "all arrays including lengths 0, 1 and 2, all compare functions, consistent or not",
  "The test comparators read whatever they are given and the extra comparisons do not change the outcome, so comparing memory outside the array goes unnoticed.",
  ["Src/sort/bubble_sort.c", "Src/sort/heap_sort.c", "Src/sort/insertion_sort.c", "Src/sort/selection_sort.c"],
  [("index bounds before comparing", "Src/sort/heap_sort.c Heapify, Src/sort/insertion_sort.c"), ("shrinking ranges", "Src/sort/*.c")],
  ["arguments of every comparator call; buffer contents at return"])
p("S04", "Sorting work stays within the algorithm's bound on every input",
  "For every input and every compare function, heap sort makes a number of comparisons proportional to n log n at most, and bubble, insertion and selection sort at most proportional to n squared; bubble and insertion sort need only a linear number on an already sorted array.",
  ["inputs"], "all arrays, including adversarial orders, of any size",
  "No test counts comparisons.",
  ["Src/sort/bubble_sort.c", "Src/sort/heap_sort.c", "Src/sort/insertion_sort.c", "Src/sort/selection_sort.c"],
  [("early exit when nothing was swapped", "Src/sort/bubble_sort.c"), ("sift-down along one path", "Src/sort/heap_sort.c"), ("stop at first not-greater element", "Src/sort/insertion_sort.c")],
  ["number of comparator calls"])

# ---------------------------------------------------------------- json
p("J01", "The JSON builder yields the object of the added pairs within the stated size",
  "For keys and values that need no JSON escaping, starting, adding any number of pairs and ending produces the valid JSON object with exactly the successfully added pairs in order; each step succeeds exactly when its result, with terminating NUL, fits the stated buffer size. A failed step leaves the text unchanged, so the document can still be completed.",
  ["histories", "inputs"], "all sequences of start, add and end, all keys, values and buffer sizes",
  "One pair is added to an empty text and one oversized add is tried; sequences of several pairs and exact fits are not tested.",
  ["Src/json.c", "Inc/json.h"], [("size check before append", "Src/json.c Json_addData, Json_endString"), ("separator insertion", "Src/json.c Json_addData")],
  ["text and status after each step"])
p("J02", "JSON lookup returns the value of exactly the requested key",
  "In any flat JSON object (members whose values are unescaped text, numbers, literals or arrays of these, with any whitespace between tokens), looking up a key returns the string value of the first member with exactly that key, and only if it and its NUL fit the value buffer; it fails for an absent key and for a member whose value is not a string. "
  "Text that merely occurs inside another key, inside a value or after the end of the text (its terminating NUL or the stated size) is never taken for the key.",
  ["inputs"], "all flat documents, keys (substrings, prefixes and values equal to other keys included), buffer sizes and value capacities",
  "One two-member document is searched for a few keys, none of which also occurs as a value or inside an earlier key.",
  ["Src/json.c", "Inc/json.h"], [("key matching", "Src/json.c Json_findByKey"), ("value copy with capacity check", "Src/json.c Json_findByKey")],
  ["status and value of lookups against a parsed document"])
p("J03", "Binary data survives the trip through Base64, JSON text, lookup and decoding",
  "Any set of non-empty binary payloads that is Base64 encoded, added under distinct keys to a JSON text and transported can be recovered exactly: looking up each key in the text and decoding the value returns the original payload, as long as every step reported success, and every step succeeds when the buffers are large enough.",
  ["inputs", "histories"], "all payload sets, keys and sufficiently or insufficiently large buffers",
  "The modules are only tested one by one, on one document.",
  ["Src/json.c", "Src/base64.c"], [("encode, add, find, decode pipeline", "Src/json.c, Src/base64.c")],
  ["recovered payloads"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
