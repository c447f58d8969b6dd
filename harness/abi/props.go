package abi

import "vharness/pbt"

const modelNote = "oracle: an independent model of the 2023 Canonical ABI (harness/ref), not the library"

// Props lists the properties of this group.
func Props() []pbt.Prop {
	return []pbt.Prop{
		{ID: "A01", Quick: 60000, Thorough: 600000,
			Rule:        "a case counts when the type is a string, handle or composite (not a bare number); distinct by type, value and encoding",
			Assumptions: []string{modelNote, "types up to depth 5, rarely 45; lists up to 70000 elements; strings up to 64 KiB"},
			Laws: []pbt.Law{
				{Name: "store-load", Weight: 6, Run: lawStoreLoad},
				{Name: "many-stores", Weight: 1, Run: lawManyStores},
				{Name: "model-reads", Weight: 2, Run: lawModelReads},
				{Name: "far", Weight: 1, Run: lawFarStore},
				{Name: "long-lists", Enum: 4 * len(longLists), Run: lawLongList},
				{Name: "long-texts", Enum: 3 * len(farTexts), Run: lawLongText},
			}},
		{ID: "A02", Quick: 80000, Thorough: 600000,
			Rule:        "a case counts when the type is a string, handle or composite, or several values are lowered; distinct by types, values and encoding",
			Assumptions: []string{modelNote},
			Laws: []pbt.Law{
				{Name: "lower-lift", Weight: 6, Run: lawFlatRoundTrip},
				{Name: "model-flat", Weight: 2, Run: lawFlatModel},
			}},
		{ID: "A03", Quick: 80000, Thorough: 600000,
			Rule:        "a case counts when the type is a string, handle or composite; distinct by type, value and encoding",
			Assumptions: []string{modelNote},
			Laws: []pbt.Law{
				{Name: "image", Weight: 6, Run: lawImage},
				{Name: "sizes", Weight: 2, Run: lawSizes},
				{Name: "far", Weight: 1, Run: lawFarStore},
				{Name: "long-lists", Enum: 4 * len(longLists), Run: lawLongList},
				{Name: "widths", Enum: sizesEnum, Run: lawSizesEnum},
			}},
		{ID: "A04", Quick: 150000, Thorough: 600000,
			Rule:        "a case counts when the type is a string, handle or composite, or a function type; distinct by type, value and limits",
			Assumptions: []string{modelNote},
			Laws: []pbt.Law{
				{Name: "types", Weight: 2, Run: lawFlattenType},
				{Name: "functions", Weight: 3, Run: lawFlattenFunc},
				{Name: "values", Weight: 4, Run: lawFlatValues},
				{Name: "widths", Enum: sizesEnum, Run: lawSizesEnum},
			}},
		{ID: "A05", Quick: 100000, Thorough: 1000000,
			Rule:        "every case is a lift of disturbed or random guest data; distinct by type, data and encoding",
			Assumptions: []string{modelNote, "cases in which the model itself needs more than 300000 loads are discarded"},
			Laws: []pbt.Law{
				{Name: "core-values", Weight: 4, Run: lawLiftFlatBits},
				{Name: "images", Weight: 4, Run: lawLiftImage},
				{Name: "random-memory", Weight: 3, Run: lawLiftRandom},
				{Name: "text", Weight: 2, Run: lawStringGuest},
				{Name: "far", Weight: 2, Run: lawFarLoad},
				{Name: "long-lists", Enum: 4 * len(longLists), Run: lawLongList},
				{Name: "long-texts", Enum: 3 * len(farTexts), Run: lawLongText},
				{Name: "kinds", Weight: 1, Run: lawLiftKinds},
			}},
		{ID: "A06", Quick: 150000, Thorough: 1000000,
			Rule:        "every case carries a hostile address or length; distinct by type, data and address",
			Assumptions: []string{modelNote, "lists of zero-sized elements with huge lengths are left out: they address no memory"},
			Laws: []pbt.Law{
				{Name: "nested", Weight: 4, Run: lawHostileNested},
				{Name: "flat", Weight: 4, Run: lawHostileFlat},
				{Name: "address", Weight: 2, Run: lawHostileTop},
				{Name: "spilled", Weight: 2, Run: lawHostileSpill},
				{Name: "far", Weight: 3, Run: lawFarLoad},
			}},
		{ID: "A07", Quick: 60000, Thorough: 600000,
			Rule:        "a case counts when the value needs at least one block, or the destination is hostile; distinct by type, value, fault and call",
			Assumptions: []string{modelNote},
			Laws: []pbt.Law{
				{Name: "allocator", Weight: 5, Run: lawAllocator},
				{Name: "destination", Weight: 1, Run: lawStoreDest},
				{Name: "far", Weight: 1, Run: lawFarAlloc},
				{Name: "text-helpers", Weight: 1, Run: lawTextHelpers},
			}},
		{ID: "A08", Quick: 90000, Thorough: 400000,
			Rule:        "a case counts when the text is not empty; distinct by text, encodings and position",
			Assumptions: []string{modelNote},
			Laws: []pbt.Law{
				{Name: "chain", Weight: 3, Run: lawStringChain},
				{Name: "guest-text", Weight: 4, Run: lawStringGuest},
				{Name: "long-texts", Enum: 3 * len(farTexts), Run: lawLongText},
				{Name: "all-characters", Enum: 3 * 0x1100, Run: lawStringScalars},
			}},
		{ID: "A09", Quick: 150000, Thorough: 4000000,
			Rule:        "every case passes one ill-typed value or a wrong number of values; distinct by type and value",
			Assumptions: []string{"an integer of another width but the same signedness may be accepted when the number it denotes arrives unchanged"},
			Laws: []pbt.Law{
				{Name: "ill-typed", Weight: 6, Run: lawIllTyped},
				{Name: "arity", Weight: 1, Run: lawArity},
				{Name: "results", Weight: 1, Run: lawBadResults},
				{Name: "unknown-types", Weight: 1, Run: lawAlien},
				{Name: "too-long", Enum: 1, Run: lawTooLong},
			}},
		{ID: "A10", Quick: 80000, Thorough: 1000000,
			Rule:        "a case counts when the function has a parameter or result; distinct by signature, limits and values",
			Assumptions: []string{modelNote, "guest functions are simulated with the model"},
			Laws: []pbt.Law{
				{Name: "wide", Enum: 6 * len(wideSizes), Run: lawCallWide},
				{Name: "lift", Weight: 3, Run: lawCallLift},
				{Name: "lower", Weight: 3, Run: lawCallLower},
				{Name: "chain", Weight: 3, Run: lawCallChain},
				{Name: "errors", Weight: 1, Run: lawCallError},
				{Name: "garbled", Weight: 3, Run: lawCallGarbled},
			}},
		{ID: "R01", Quick: 200000, Thorough: 3000000,
			Rule:        "a history counts when it adds at least two handles and removes one; distinct by history",
			Assumptions: []string{"histories up to 82 steps over up to 3 resource types, at times 20, in bulk 5000; up to 65537 handles in bulk"},
			Laws: []pbt.Law{
				{Name: "tables", Weight: 1, Run: lawHandleTable},
				{Name: "builtins", Weight: 1, Run: lawHandleBuiltins},
				{Name: "bulk", Enum: 8 * len(bulkSizes), Run: lawHandleBulk},
			}},
		{ID: "R02", Quick: 250000, Thorough: 3000000,
			Rule:        "a history counts when it moves or lends a handle and at least one step is refused, or is a complete call passing handles; distinct by history",
			Assumptions: []string{"histories up to 84 steps over 3 instances and 3 resource types; up to 65537 borrows in one call"},
			Laws: []pbt.Law{
				{Name: "histories", Weight: 2, Run: lawOwnership},
				{Name: "calls", Weight: 1, Run: lawOwnershipCalls},
				{Name: "borrowed-results", Weight: 1, Run: lawBorrowResult},
				{Name: "bulk", Enum: 6 * len(lendSizes), Run: lawLendBulk},
			}},
		{ID: "R03", Quick: 200000, Thorough: 2000000,
			Rule:        "every case is a call under guards or a nest of calls; distinct by guards, signature and values",
			Assumptions: []string{"permissions after a failed call are not judged"},
			Laws: []pbt.Law{
				{Name: "guards", Weight: 4, Run: lawGuards},
				{Name: "nests", Weight: 2, Run: lawGuardNest},
				{Name: "drop", Weight: 1, Run: lawGuardDrop},
			}},
		{ID: "A11", Quick: 250000, Thorough: 3000000,
			Rule:        "every case carries at least one float; distinct by type and value bits",
			Assumptions: []string{modelNote},
			Laws: []pbt.Law{
				{Name: "nested", Weight: 4, Run: lawFloatNested},
				{Name: "guest-bits", Weight: 4, Run: lawFloatGuest},
				{Name: "sweep", Weight: 1, Run: lawFloatScalar},
			}},
	}
}
