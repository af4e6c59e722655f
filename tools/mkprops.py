#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
B1,M1="v1/buffer.go","v1/minibuf.go"
B2,M2="v2/buffer.go","v2/minibuf.go"
B3,M3="v3/buffer.generated.go","v3/minibuf.generated.go"
ALL=[B1,M1,B2,M2,B3,M3]
BUFS=[B1,B2,B3]
state=[{"name":"contents","meaning":"the byte slice a buffer wraps","where":"field buf of Buffer/MiniBuffer"},
       {"name":"byte cursor","meaning":"position used by the ...Next byte operations","where":"field off"},
       {"name":"bit cursor","meaning":"position used by the ...Next bit operations","where":"field boff"},
       {"name":"cached capacities","meaning":"byte and bit capacity cached from the contents","where":"fields cap, bcap; Refresh"}]
P=[]
def p(id,title,statement,over,text,why,files,mech,obs):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,"state":state,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}})

p("C01","Integer writes store exactly the requested bytes and nothing else",
 "Writing a slice of unsigned or signed 16/32/64-bit integers (v1: WriteComplex; v2, v3: WriteU*/WriteI*) to a Buffer or MiniBuffer at any in-range byte offset stores every element's bytes in the requested byte order, back to back from that offset. No other byte of the buffer, no cursor, no capacity and no element of the source slice changes.",
 ["inputs"],"every buffer length, contents, offset, cursor position, element count and element value, for every width, signedness and byte order, in v1, v2 and v3, Buffer and MiniBuffer",
 "tests write one or two small constants at one or two offsets of a short zeroed buffer; a swapped shift for one byte, an off-by-one stride or a stray store past the written range shows only for other values, offsets or counts",
 ALL,[("WriteU*/WriteI* loops",B3),("writeU* loops",B2),("writeComplex",B1)],["Bytes","ByteCapacity/Capacity","ByteOffset/Offset","BitOffset"])
p("C02","Integer reads return exactly the stored values and change nothing",
 "Reading n 16/32/64-bit integers (v1: ReadComplex; v2, v3: ReadU*/ReadI*) from any in-range byte offset of a Buffer or MiniBuffer yields exactly n values (for v2/v3 MiniBuffer: the first n elements of the caller's slice, the others untouched), the i-th decoded in the requested byte order from the i-th group of bytes at that offset. Reading leaves contents, cursors and capacities as they were, and changing the returned integers afterwards does not change the buffer.",
 ["inputs"],"every buffer length, contents, offset, cursor position and element count, for every width, signedness and byte order, in v1, v2 and v3, Buffer and MiniBuffer",
 "tests decode one fixed short byte pattern, mostly with a single element and with values whose high bytes are zero; sign extension, a wrong shift or a wrong stride for later elements is not reached",
 ALL,[("ReadU*/ReadI* loops",B3),("readU* loops",B2),("readComplex",B1)],["return values","Bytes"])
p("C03","Floating-point values survive bit for bit",
 "In v3, writing float32/float64 slices stores each element's IEEE-754 bit pattern in the requested byte order at consecutive positions and changes nothing else, and reading returns values with exactly the stored bit patterns, for every bit pattern including NaN payloads, signed zeros, infinities and subnormals. A value written and read back at the same offset and byte order is bit-identical, and reading changes nothing.",
 ["inputs"],"every 32/64-bit pattern, offset, buffer length and element count, both byte orders, Buffer and MiniBuffer",
 "tests use a handful of ordinary values at offset 0; NaN payloads, -0 and later elements are not sampled",
 [B3,M3],[("WriteF*/ReadF* and their ...Next forms, unsafe reinterpretation",B3),("same",M3)],["Bytes","return values"])
p("C04","Byte reads and writes are exact, and byte reads are live views",
 "WriteBytes/WriteByte at an in-range offset of a Buffer or MiniBuffer replaces exactly the bytes of that range by the source bytes as they were before the call, changing no other byte; this also holds when the source slice overlaps the buffer's own bytes. ReadBytes/ReadByte return exactly the bytes of the range and change nothing; the slice ReadBytes and Bytes return is a view, so a later write to that range through the buffer is visible in it and vice versa.",
 ["inputs"],"every buffer length, contents, offset, count, source contents and source/destination overlap, in v1, v2 and v3",
 "tests write one or two constant bytes at one offset and never pass overlapping slices",
 ALL,[("WriteBytes/ReadBytes/WriteByte/ReadByte",B3),("write/read",B2),("write/read",B1)],["Bytes","return values"])
p("C05","Single-bit operations address bits most-significant-first and touch one bit",
 "For every in-range bit offset k of a Buffer or MiniBuffer, ReadBit yields bit 7-(k mod 8) of byte k/8, and SetBit, ClearBit (v3; in v1/v2 SetBit with value 1 or 0) and FlipBit set, clear or invert exactly that bit. Every other bit of the buffer, both cursors and the capacities keep their values.",
 ["inputs"],"every buffer length, contents and bit offset, in v1, v2 and v3, Buffer and MiniBuffer",
 "tests touch one or two bit positions of an all-zero or all-one byte, so a wrong byte or bit index elsewhere and collateral damage to neighbours go unseen",
 ALL,[("ReadBit/SetBit/ClearBit/FlipBit",B3),("readbit/setbit/flipbit",B2),("readbit/setbit/flipbit",B1)],["Bytes","ReadBit"])
p("C06","Multi-bit reads and writes are exact big-endian bit fields",
 "ReadBits(off, n) yields the n bits starting at bit offset off as an unsigned number, first bit most significant, and SetBits(off, data, n) stores the n low bits of data there in the same order, leaving every other bit, both cursors and the capacities unchanged (0 <= n <= 64, range inside the buffer). A count of zero reads 0 and writes nothing; SetBits followed by ReadBits of the same field returns the stored bits.",
 ["inputs"],"every buffer length, contents, bit offset (any alignment), field width 0..64 and field value, in v1, v2 and v3, Buffer and MiniBuffer",
 "tests read and write one 3-bit and one 8-bit field; wide, unaligned, empty and byte-crossing fields are not exercised",
 ALL,[("ReadBits/SetBits loops",B3),("readbits/setbits",B2),("readbits/setbits",B1)],["return values","Bytes"])
p("C07","Whole-buffer bit operations cover every bit exactly once",
 "ClearAllBits, SetAllBits and FlipAllBits of Buffer and MiniBuffer turn every byte of the buffer into 0x00, 0xFF or its complement respectively, for every buffer length including zero. Cursors, capacities and memory outside the buffer's contents are unaffected, and the call never panics.",
 ["inputs"],"every buffer length (including an empty buffer) and contents, in v1, v2 and v3",
 "tests use one four-byte buffer",
 ALL,[("ClearAllBits/SetAllBits/FlipAllBits loops",B3),("clearallbits/setallbits/flipallbits",B2),("clearallbits/setallbits/flipallbits",B1)],["Bytes"])
p("C08","Buffer refuses every out-of-range access with its own error and no effect",
 "Any offset-addressed or ...Next read or write of a Buffer (bytes, integers, floats, single bits, bit fields; non-negative count) whose range does not lie inside the buffer panics with crunch's own error: the under-read/under-write error when the start is negative and the range does not pass the end, the over-read/over-write error when it passes the end and the start is not negative, one of these two when both are wrong. This includes offsets and counts so large that offset plus size would overflow, and after the refused call contents, both cursors and capacities are exactly as before.",
 ["inputs"],"every 64-bit offset and cursor value, every non-negative count, every buffer length, every Buffer access operation of v1, v2 and v3",
 "tests provoke each panic once, one byte past the end or at -1; huge offsets, huge counts, partial overlap with the end and the buffer's state after the panic are not examined",
 BUFS,[("range checks at the head of every access",B3),("range checks",B2),("range checks",B1)],["panic value","Bytes","cursors"])
p("C09","Buffer accepts every in-range access, including empty and boundary ones",
 "Any read or write of a Buffer (bytes, integers, floats, bits, bit fields, by offset or at the cursor) whose non-negative range lies inside the buffer returns normally. This includes zero-element accesses at every offset from 0 to the capacity, accesses that end exactly at the last byte or bit, and accesses to an empty buffer with a zero count.",
 ["inputs"],"every buffer length including zero, every in-range offset and count including zero, every Buffer access operation of v1, v2 and v3",
 "tests never pass an empty slice or a zero count and rarely touch the last element",
 BUFS,[("range checks and do-while loops",B3),("range checks and do-while loops",B2),("range checks",B1)],["absence of panic"])
p("C10","Cursor operations equal the offset operation plus an exact advance",
 "Every ...Next operation of Buffer and MiniBuffer that succeeds has exactly the result and the effect of its offset-addressed counterpart at the current byte or bit cursor, then moves that cursor forward by exactly the bytes (or bits) accessed and leaves the other cursor alone. Offset-addressed operations never move a cursor.",
 ["inputs","histories"],"every cursor position, buffer length, contents and count; every operation of v1, v2 and v3, Buffer and MiniBuffer",
 "tests check the value produced by a Next call but mostly not the cursor after it, nor the other cursor, nor counts above one",
 ALL,[("...Next methods, SeekByte/SeekBit",B3),("...Next methods, seek/seekbit",B2),("...Next methods, seek/seekbit",B1)],["ByteOffset/Offset","BitOffset","return values","Bytes"])
p("C11","Seek, align and remaining-length arithmetic is exact",
 "Seeking sets a cursor to the given value, or adds it when relative; aligning the bit cursor sets it to 8 times the byte cursor, aligning the byte cursor sets it to the bit cursor divided by 8; the remaining-length queries return capacity minus position minus one for the cursor or the given position. Each of these changes only the cursor it names (the queries change nothing) and is independent of the buffer's contents.",
 ["inputs"],"every 64-bit argument and cursor value for which the arithmetic does not overflow, every buffer length, v1, v2 and v3, Buffer and MiniBuffer",
 "tests use one or two small positions",
 ALL,[("SeekByte/SeekBit/AlignByte/AlignBit/AfterByte/AfterBit",B3),("seek/seekbit/alignbit/alignbyte/after/afterbit",B2),("same",B1)],["offset getters","After*"])
p("C12","Reported capacity always matches the contents",
 "After every public operation, whether it returns or panics, the byte capacity a Buffer or MiniBuffer reports equals the length of the slice its Bytes method yields and the bit capacity is exactly eight times that. Only Grow, Reset and the truncating operations ever change the capacity.",
 ["inputs","histories"],"every operation from every reachable state (any contents, length, slack and cursors) and short operation sequences, v1, v2 and v3",
 "tests check capacity after one call on one four-byte buffer",
 ALL,[("Refresh after every change of the contents",B3),("refresh",B2),("refresh",B1)],["ByteCapacity/Capacity","BitCapacity","Bytes"])
p("C13","Growing preserves contents and adds exactly the requested zero bytes",
 "Grow(n) with n >= 0 makes a Buffer or MiniBuffer exactly n bytes longer, keeps all existing bytes and both cursors, and the added bytes are zero whatever the underlying memory held before (for example after truncation, a reset, or when the wrapped slice had spare capacity). In v3 Buffer.Grow with a negative count panics with the invalid-byte-count error and changes nothing; in no version does a negative count leave a Buffer changed or unusable.",
 ["inputs","histories"],"every buffer length, spare capacity, spare contents, cursors and count, including repeated growth and growth after truncation or reset; v1, v2 and v3",
 "tests grow a two-byte buffer by two and look only at the capacity",
 ALL,[("Grow",B3),("grow",B2),("grow",B1)],["Bytes","ByteCapacity/Capacity","cursors"])
p("C14","Truncation keeps exactly the other end and refuses invalid counts",
 "In v3, TruncateLeft(n) and TruncateRight(n) with 0 <= n <= capacity remove exactly n bytes from the named end, keep the remaining bytes in order and leave both cursors alone. For Buffer, a negative count panics with the invalid-byte-count error, and any refused count (negative or larger than the capacity) leaves contents, capacities and cursors unchanged.",
 ["inputs"],"every buffer length, contents, cursors and 64-bit count, Buffer and MiniBuffer of v3",
 "tests truncate one four-byte buffer by two bytes",
 [B3,M3],[("TruncateLeft/TruncateRight",B3),("TruncateLeft/TruncateRight",M3)],["Bytes","ByteCapacity","cursors","panic value"])
p("C15","Construction and reset yield the specified fresh state",
 "A new Buffer or MiniBuffer holds the given slices concatenated in order (empty when none is given), with both cursors at zero; with exactly one slice it wraps that slice itself, with several it holds a copy, so that changing the buffer leaves the given slices' contents alone. Reset (v2, v3) leaves an empty buffer with capacities and cursors zero, whatever the state before, and it can be used normally again afterwards.",
 ["inputs","histories"],"every number of slices within the bound, every length (including zero) and contents; reset from every state",
 "tests build from one or two short constant slices and look at the bytes only",
 ALL,[("NewBuffer/NewMiniBuffer",B3),("Reset",B3),("reset",B2)],["Bytes","capacity and offset getters"])
p("C16","MiniBuffer agrees with Buffer on valid operations, whatever out held before",
 "For every operation both types of a version offer and every argument for which Buffer does not panic, MiniBuffer leaves the same contents, capacities and cursors and delivers the same result. Results MiniBuffer stores through an out pointer depend only on the buffer and the arguments, never on what the pointed-to variable held before the call.",
 ["inputs","programs"],"every valid operation and argument from every state, every previous value of the out variable; v1, v2 and v3",
 "tests exercise the two types separately with different inputs and always with zeroed out variables",
 ALL,[("parallel implementations",M3),("parallel implementations",M2),("parallel implementations",M1)],["out variables","Bytes","getters"])
p("C17","A v1/v2 Buffer is never left locked or self-deadlocked",
 "After every public operation on a v1 or v2 Buffer, whether it returns or panics (out-of-range access, invalid bit, size or count, empty data, huge offset), the buffer's mutex is free, so the next operation from any goroutine proceeds. No operation deadlocks on its own lock or unlocks a lock it does not hold.",
 ["inputs","fault_sequences"],"every public operation with every argument (all 64-bit offsets and counts, empty and non-empty data) from every state of v1 and v2 Buffer",
 "tests recover from a panic but never use the buffer afterwards, so a lock leaked on a panicking path is invisible",
 [B1,B2],[("Lock/Unlock pairs, deferred or explicit",B1),("Lock/Unlock pairs, deferred or explicit",B2)],["TryLock","progress of the next call"])
p("C18","Operations on a shared v1/v2 Buffer are atomic",
 "When two goroutines each perform one operation on the same v1 or v2 Buffer, documented as concurrent-safe, the results and the final state are those of running the two operations one after the other in one of the two orders.",
 ["schedules","inputs"],"every pair of the listed operations, every argument, every preemption of one operation by the other at a synchronisation point; v1 and v2 Buffer",
 "tests are single-threaded",
 [B1,B2],[("embedded sync.Mutex taken inside the internal accessors",B1),("same",B2)],["return values","Bytes","cursors"])
p("C19","Code regenerated from the templates is the code that ships",
 "Running the generator on v3's templates yields a package with the same public operations as the committed generated files, and every read/write operation of the regenerated package satisfies the same specification as the shipped one (byte order, stride, bounds, cursor advance, errors) for every input.",
 ["programs","inputs"],"every generator directive in the templates and every hand-written operation in them; every input of the resulting operations",
 "the tests compile only the committed generated files; templates and generator are never built into anything that is tested",
 ["generation/complex.go","generation/main.go","v3/_buffer.go","v3/_minibuf.go",B3,M3],[("GenerateComplex","generation/complex.go"),("templates","v3/_buffer.go, v3/_minibuf.go")],["regenerated package's public operations"])
p("C20","No operation reads or writes memory outside the buffer's contents",
 "Reads, writes, bit operations, seeks and queries on a Buffer or MiniBuffer neither change nor let their results depend on bytes beyond the buffer's length in the underlying array (spare capacity, memory cut off by truncation), and never modify the slices passed as data. In particular a Buffer access that would need such bytes is refused rather than served from them.",
 ["inputs"],"every buffer length, spare capacity and spare contents, offset and count; all access operations of v1, v2 and v3",
 "tests wrap slices with no spare capacity, or do not look at it",
 ALL,[("range checks against the length, not the capacity",B3),("range checks",B2),("readComplex slicing",B1)],["underlying array beyond len","return values"])
p("C21","Any operation sequence behaves like a byte string with two cursors",
 "For every sequence of operations on a Buffer, including ones that panic and are recovered, results and observable state always equal those of a simple model consisting of a byte string, a byte cursor and a bit cursor. No hidden state from earlier operations influences later ones: after any operation (on a MiniBuffer: any in-range one), and also when the bytes were changed through the wrapped slice in between, an operation gives what it gives on a fresh buffer with the same bytes and cursors.",
 ["histories","inputs"],"every sequence of up to three operations drawn from construction, seeking, aligning, byte/integer/bit access, bulk bit operations, Grow, truncation, Reset and Refresh, with all arguments symbolic; v1, v2 and v3",
 "tests run one operation per fresh buffer",
 BUFS,[("all public methods",B3),("all public methods",B2),("all public methods",B1)],["all getters and results"])
p("C22","Invalid sizes and bit values are refused cleanly in v1 and v2",
 "In v1, ReadComplex/WriteComplex and their Next forms with an integer size other than 1, 2, 4 or 8 (the request otherwise being one whose elements would fit) panic with the invalid-integer-size error; in v1 and v2, SetBit/SetBitNext with a value other than 0 or 1 at an in-range position panic with the invalid-bit error. The refused call changes neither contents nor cursors, for Buffer and MiniBuffer alike.",
 ["inputs"],"every integer size value, every bit value 2..255, every in-range offset and state; v1 and v2",
 "tests try one invalid size (-1) and one invalid bit value on one buffer and do not look at the state afterwards",
 [B1,M1,B2,M2],[("default arms of the size and bit switches",B1),("default arm of the bit switch",B2)],["panic value","Bytes","cursors"])
p("C23","Generator output replaces whatever the output file held before",
 "Running the generator leaves every output file with exactly the generated text, whatever the file contained before (in particular when the previous contents were longer), and changes no template.",
 ["inputs","fault_sequences"],"every previous content and length of the output files",
 "the generator has no tests",
 ["generation/main.go"],[("os.OpenFile flags and write loop","generation/main.go")],["output files"])
p("C24","Documented speed relative to bytes.Buffer",
 "Reads and writes through Buffer and MiniBuffer are on average more than twice as fast as through the standard library's bytes.Buffer, and writes, seeks and bit operations do not allocate.",
 ["programs","configurations"],"all workloads and machines the benchmark table speaks for",
 "benchmarks are compiled but not run by the test suite, and a run samples one machine",
 ["readme.md","v3/stdbytebuffer_test.go"],[("goto loops kept small enough to inline",B3)],["benchmark timings"])
p("C25","Distinct buffers are independent, and what was handed out stays",
 "Operations on one Buffer or MiniBuffer have no effect on any other buffer over disjoint memory: its contents, size and cursors stay, and every operation on it gives what it would give had the other buffer never been used, including buffers made from several slices or none. Integers of 16 bits and more, floats, bits and single bytes read earlier keep their values whatever is done later to that or another buffer; a slice given to a write is read during the call only, and neither it nor the buffer follows later changes of the other; seeking, aligning, querying, truncating and resetting change no byte of the wrapped memory, and growing none of the old contents, so slices read or wrapped earlier keep theirs.",
 ["histories","inputs"],"every pair of an operation on one buffer and a following operation on another (or the same) buffer, every argument and state of both; v1, v2 and v3, Buffer and MiniBuffer, also mixed",
 "tests use one buffer at a time and look at a result right after the call, so a shared scratch area, pool or cache, or a result overwritten by a later call, is invisible",
 ALL,[("result slices made per call","readComplex (v1), readU* (v2), ReadU*/ReadI*/ReadF* (v3)"),("construction from slices","NewBuffer/NewMiniBuffer"),("reslicing in truncation and reset","TruncateLeft/TruncateRight/Reset")],["return values after later calls","Bytes","wrapped slices"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
