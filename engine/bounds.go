package main

// bounds states what the harnesses of a property quantify over.
func bounds(prop, tier string) map[string]string {
	q := tier != "thorough"
	pick := func(a, b string) string {
		if q {
			return a
		}
		return b
	}
	m := map[string]string{
		"buffer":  "any length and capacity 0..2^20-1, any contents (also of the spare capacity), any int64 cursors",
		"offsets": "any int64 satisfying the property's precondition",
	}
	n := pick("0..8", "0..20") + ", 15, 22, 29, 33, 44, 64, 130, 257"
	long := "one concrete count that exceeds 16 bits in bytes" + pick("", ", one in elements") + " (contents symbolic)"
	huge := "a buffer of 2^32..2^32+127 bytes, positions around 2^31, 2^32 (bits: up to 2^35)"
	switch prop {
	case "C01", "C02":
		m["elements per access"] = n + "; " + "counts beyond 2^16 bytes and 2^16 elements" + pick("", " and 2^18") + " (concrete count, symbolic contents)"
		m["huge"] = huge + ", two elements"
	case "C03":
		m["elements per access"] = n + "; round trips " + pick("0..6", "0..12") + "; concrete counts beyond 2^16"
		m["huge"] = huge + ", two elements"
	case "C04":
		m["bytes per access"] = "0..12 and 70 (loops unrolled), any 0..2^20-1 where the code copies, concrete counts beyond 2^16, reads of 2^31 and 2^32 bytes"
		m["huge"] = huge
	case "C05":
		m["huge"] = huge
	case "C06":
		m["field"] = "every width 0..64 at every bit position within its byte, any byte position" + pick(" (offset form; the cursor form in C10)", ", offset and cursor form")
		m["huge"] = huge + ", widths 9 and 64"
	case "C07":
		m["buffer"] = "lengths " + pick("0..16", "0..40") + ", 31, 61, 65, 92, 130" + ", any capacity, contents and cursors; lengths 300, 65539" + pick("", ", 2^18+3") + " with symbolic contents"
	case "C08":
		m["elements per access"] = "reads: any int64 >= 0; byte writes 0..2^20-1; integer and float writes " + pick("0..8", "0..24") + " and 100"
		m["huge"] = huge + ", ranges passing the end"
	case "C09":
		m["elements per access"] = pick("0..8", "0..20") + " and larger ones; " + long
	case "C10":
		m["elements per access"] = pick("0..4", "0..12") + " and larger ones; every field width; " + long
		m["huge"] = huge
	case "C11":
		m["positions"] = "any int64"
		m["huge"] = "a buffer of 2^32..2^32+127 bytes"
	case "C12", "C13":
		m["growth"] = "any negative int64, any 0..2^20-1"
		m["elements per access"] = pick("0..3", "0..8") + " and larger ones; byte reads any int64"
	case "C14":
		m["count"] = "any int64"
	case "C15":
		m["slices"] = "0..4, any length, capacity and contents; 5 and 9, one of them of any length; a nil slice alone, first, in the middle and last"
	case "C16":
		m["elements per access"] = pick("0..4", "0..12") + " and larger ones; every field width; " + long
		m["out variable"] = "any previous value; v1 interface{}: nil, []uint16, []uint32"
	case "C17":
		m["calls"] = "every public operation, any int64 offset and count (element loops " + pick("0..3", "0..8") + " and larger ones), from every state, lock initially free"
	case "C18":
		m["schedules"] = "two goroutines, one operation each; the first is preempted at any one of its scheduling points and the second runs to completion or until it blocks"
		m["scheduling points"] = "start of every basic block and every lock operation; multi-word loads and stores atomic"
	case "C19":
		m["programs"] = "the regenerated package, all operations; C01..C06 and C10 style specifications with " + pick("0..4", "0..12") + " elements"
	case "C20":
		m["elements per access"] = pick("0..3", "0..8") + "; byte reads any int64; field widths 0, 1, 3, 9, 17, 32, 57, 64"
		m["spare"] = "any spare capacity and contents, two of them compared"
	case "C21":
		m["sequences"] = pick("two", "three") + " operations, the first any of the list, all arguments symbolic; any operation, a write (typical operations: every kind of write), the same operation again; whole-buffer operation, any write, whole-buffer operation"
	case "C22":
		m["arguments"] = "every byte as bit value, every int64 as size, any in-range position"
	case "C23":
		m["files"] = "previous output: absent, or any length up to the bound and any contents; templates of " + pick("one", "one or two") + " symbolic lines without directives"
		m["faults"] = "none: every system call succeeds"
	case "C25":
		m["pairs"] = "every operation followed by the same one, its counterparts, and growing, resetting, truncating, on another buffer of either type; " + pick("2 elements, fields of 9 and 64 bits", "1..3 elements, fields of 1, 9 and 64 bits at every bit position")
	}
	return m
}
