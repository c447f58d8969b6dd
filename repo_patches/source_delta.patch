From 2bdbcf1a6b9c773a22ce476607f679d69fdb2e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:05 +0000
Subject: [PATCH 01/61] fix: put the removed handle index on the free list

Removing a handle pushed the length of the free list instead of the
index that became free, so later additions could fail or reuse the wrong slot.
---
 abi/types/handle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index a4a41a1..b360d5c 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -59,7 +59,7 @@ func (ht *HandleTable) Remove(rt ResourceType, i uint32) (*HandleElem, error) {
 		return nil, TrapWith("handle table end count != 0")
 	}
 	ht.Array[i] = nil
-	ht.Free = stack.Push(ht.Free, uint32(len(ht.Free)))
+	ht.Free = stack.Push(ht.Free, i)
 	if h.Scope != nil {
 		h.Scope.RemoveBorrowFromTable()
 	}
-- 
2.43.0


From c6e304174692a617a43adaba5c7aee28ea6f0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:06 +0000
Subject: [PATCH 02/61] fix: trap when a borrowed handle is passed as an owned
 one

---
 abi/io/lift.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 79abc1a..67a7d82 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -9,7 +9,14 @@ import (
 )
 
 func LiftOwn(cx *types.CallContext, i uint32, own types.Own) (uint32, error) {
-	h, err := cx.Instance.Handles.Remove(own.ResourceType(), i)
+	h, err := cx.Instance.Handles.Get(own.ResourceType(), i)
+	if err != nil {
+		return 0, err
+	}
+	if !h.Own {
+		return 0, types.TrapWith("handle %d is not owned", i)
+	}
+	h, err = cx.Instance.Handles.Remove(own.ResourceType(), i)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 7a184ad25cd39bae5dddc02fa40b0e1439061589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:07 +0000
Subject: [PATCH 03/61] fix: support storing own and borrow handles in memory

---
 abi/io/store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 54e959c..3556f82 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -67,6 +67,18 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		return StoreVariant(c, val, ptr, vt)
 	case types.Flags:
 		return StoreFlags(c, val, ptr, vt)
+	case types.Own:
+		i, err := LowerOwn(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreUInt32(c, i, ptr)
+	case types.Borrow:
+		i, err := LowerBorrow(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreUInt32(c, i, ptr)
 	}
 	return types.TrapWith("Store: unrecognized type %T", t)
 }
-- 
2.43.0


From d29350a23150b3989baae3aa20d10e99c7a0fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:08 +0000
Subject: [PATCH 04/61] fix: store spilled parameters and results in memory

Values exceeding the flat limit were never written to the tuple in
linear memory. The pointer is now returned as a core value for
parameters. Nothing is returned when the caller passed the address, which
matches the flattened core function type.
---
 abi/io/canon_lower.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index f3e3143..7c73e33 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -136,5 +136,13 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr+size > uint32(cx.Options.Memory.Len()) {
 		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
 	}
-	return []any{ptr}, nil
+	err = Store(cx, tupleValue, tupleType, ptr)
+	if err != nil {
+		return nil, err
+	}
+	if outParam != nil {
+		// the caller supplied the address so there is nothing left to return
+		return []any{}, nil
+	}
+	return []any{values.U32(ptr)}, nil
 }
-- 
2.43.0


From 08b6c290a9f47d54f6ae1a6e011dcc2b28a39213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:09 +0000
Subject: [PATCH 05/61] fix: lift spilled values in declaration order

The values were collected by ranging over a map, so their order was random.
---
 abi/io/canon_lift.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 925670a..b371d59 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/patrickhuber/go-wasm/abi/kind"
 	"github.com/patrickhuber/go-wasm/abi/types"
@@ -136,8 +137,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 	}
 
 	values := []any{}
-	for _, v := range m {
-		values = append(values, v)
+	for i := range ts {
+		values = append(values, m[strconv.Itoa(i)])
 	}
 	return values, nil
 }
-- 
2.43.0


From 9b93bb90947eb04d557dd69d8ed5b7babf6a11bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:09 +0000
Subject: [PATCH 06/61] fix: return an error when reading past the last core
 value

---
 abi/values/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/values/value.go b/abi/values/value.go
index 3bdcd3c..0e595f4 100644
--- a/abi/values/value.go
+++ b/abi/values/value.go
@@ -30,7 +30,7 @@ type valueIterator struct {
 }
 
 func (vi *valueIterator) Next(k kind.Kind) (any, error) {
-	if vi.Length() == 0 {
+	if vi.index >= len(vi.values) {
 		return nil, fmt.Errorf("eof")
 	}
 
-- 
2.43.0


From 1b284d867a37a640c6af02c948961c51462beafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:47 +0000
Subject: [PATCH 07/61] fix: check guest addresses without 32 bit overflow

The end of a string, list or spilled tuple was computed in 32 bits and
could wrap around, so an address outside of memory passed the check.
---
 abi/io/canon_lift.go  |  2 +-
 abi/io/canon_lower.go |  4 ++--
 abi/io/load.go        | 13 +++++++------
 abi/io/store.go       | 16 ++++++++--------
 4 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index b371d59..bf7c833 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -122,7 +122,7 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 		return nil, err
 	}
 
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
+	if uint64(ptr)+uint64(size) > uint64(cx.Options.Memory.Len()) {
 		return nil, types.TrapWith("ptr %d + offset %d is greater than len(memory) %d", ptr, size, cx.Options.Memory.Len())
 	}
 
diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 7c73e33..eaf161a 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -133,8 +133,8 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr != align {
 		return nil, fmt.Errorf("ptr %d does not align to %d", ptr, align)
 	}
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
-		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
+	if uint64(ptr)+uint64(size) > uint64(cx.Options.Memory.Len()) {
+		return nil, fmt.Errorf("ptr %d is greater than memory size %d", uint64(ptr)+uint64(size), cx.Options.Memory.Len())
 	}
 	err = Store(cx, tupleValue, tupleType, ptr)
 	if err != nil {
diff --git a/abi/io/load.go b/abi/io/load.go
index 9be637e..cc965cc 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -233,7 +233,7 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", err
 	}
 
-	byteLength := tcu.CodeUnits * uint32(codec.RuneSize())
+	byteLength := uint64(tcu.CodeUnits) * uint64(codec.RuneSize())
 	align, err := AlignTo(ptr, uint32(codec.Alignment()))
 
 	if err != nil {
@@ -244,11 +244,11 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", types.TrapWith("error aligning ptr %d to %d", ptr, uint32(codec.Alignment()))
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return "", types.TrapWith("destination %d > memory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	if uint64(ptr)+byteLength > uint64(cx.Options.Memory.Len()) {
+		return "", types.TrapWith("destination %d > memory size %d", uint64(ptr)+byteLength, cx.Options.Memory.Len())
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+byteLength]
+	buf := cx.Options.Memory.Bytes()[ptr : uint64(ptr)+byteLength]
 	return encoding.DecodeString(codec, bytes.NewReader(buf))
 }
 
@@ -283,8 +283,9 @@ func LoadListFromRange(cx *types.CallContext, ptr uint32, length uint32, element
 	if err != nil {
 		return nil, err
 	}
-	if ptr+length*size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("destination size %d is greater than memory size %d", ptr+length*size, cx.Options.Memory.Len())
+	end := uint64(ptr) + uint64(length)*uint64(size)
+	if end > uint64(cx.Options.Memory.Len()) {
+		return nil, types.TrapWith("destination size %d is greater than memory size %d", end, cx.Options.Memory.Len())
 	}
 	var list []any
 	var i uint32 = 0
diff --git a/abi/io/store.go b/abi/io/store.go
index 3556f82..ac8b9fe 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -102,8 +102,8 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 		return err
 	}
 
-	if ptr+size > uint32(c.Options.Memory.Len()) {
-		return fmt.Errorf("Store: %d exceeds memory length %d", ptr+size, c.Options.Memory.Len())
+	if uint64(ptr)+uint64(size) > uint64(c.Options.Memory.Len()) {
+		return fmt.Errorf("Store: %d exceeds memory length %d", uint64(ptr)+uint64(size), c.Options.Memory.Len())
 	}
 
 	return err
@@ -412,11 +412,11 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, err
 	}
 
-	byteLengthInt := len(slice) * int(size)
-	if byteLengthInt >= math.MaxInt {
-		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, math.MaxInt)
+	byteLength64 := uint64(len(slice)) * uint64(size)
+	if byteLength64 > math.MaxUint32 {
+		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLength64, uint32(math.MaxUint32))
 	}
-	byteLength := uint32(byteLengthInt)
+	byteLength := uint32(byteLength64)
 
 	alignment, err := Alignment(elementType)
 	if err != nil {
@@ -436,8 +436,8 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, types.TrapWith("ptr %d not aligned to %d", ptr, alignment)
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("ptr %d exceeds mememory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	if uint64(ptr)+byteLength64 > uint64(cx.Options.Memory.Len()) {
+		return 0, 0, types.TrapWith("ptr %d exceeds mememory size %d", uint64(ptr)+byteLength64, cx.Options.Memory.Len())
 	}
 
 	for i, element := range slice {
-- 
2.43.0


From c4604e47f7dd26d74eec56debd8238ce285ab362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:48 +0000
Subject: [PATCH 08/61] fix: trap instead of panicking when loading outside of
 memory

Store validates the address of a value, Load did not.
---
 abi/io/load.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/abi/io/load.go b/abi/io/load.go
index cc965cc..613a609 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -11,6 +11,10 @@ import (
 )
 
 func Load(cx *types.CallContext, t types.ValType, ptr uint32) (any, error) {
+	if err := LoadValidate(cx, t, ptr); err != nil {
+		return nil, err
+	}
+
 	t = Despecialize(t)
 
 	switch vt := t.(type) {
@@ -64,6 +68,32 @@ func Load(cx *types.CallContext, t types.ValType, ptr uint32) (any, error) {
 	return nil, fmt.Errorf("unrecognized type %T", t)
 }
 
+// LoadValidate traps if the value at ptr is not aligned or is not inside of memory
+func LoadValidate(cx *types.CallContext, t types.ValType, ptr uint32) error {
+	alignment, err := Alignment(t)
+	if err != nil {
+		return err
+	}
+
+	align, err := AlignTo(ptr, alignment)
+	if err != nil {
+		return err
+	}
+	if ptr != align {
+		return types.TrapWith("Load: ptr %d is not aligned to %d", ptr, alignment)
+	}
+
+	size, err := Size(t)
+	if err != nil {
+		return err
+	}
+
+	if uint64(ptr)+uint64(size) > uint64(cx.Options.Memory.Len()) {
+		return types.TrapWith("Load: %d exceeds memory length %d", uint64(ptr)+uint64(size), cx.Options.Memory.Len())
+	}
+	return nil
+}
+
 func LoadChar(cx *types.CallContext, ptr uint32, t types.ValType) (any, error) {
 	switch t.(type) {
 	case types.Char:
-- 
2.43.0


From 93eaba3494238411535e6f0c2ac12be2a61da540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:49 +0000
Subject: [PATCH 09/61] fix: check the address the guest allocator returns for
 strings

---
 abi/io/store.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index ac8b9fe..5dc0c6c 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -293,6 +293,17 @@ func StoreStringDynamic(
 		return 0, 0, err
 	}
 
+	align, err := AlignTo(ptr, dstAlignment)
+	if err != nil {
+		return 0, 0, err
+	}
+	if ptr != align {
+		return 0, 0, types.TrapWith("ptr %d is not aligned to destination %d", ptr, dstAlignment)
+	}
+	if uint64(ptr)+uint64(lenEncoded) > uint64(cx.Options.Memory.Len()) {
+		return 0, 0, types.TrapWith("string end %d is greater than the memory size %d", uint64(ptr)+uint64(lenEncoded), cx.Options.Memory.Len())
+	}
+
 	buf := cx.Options.Memory.Bytes()[ptr : ptr+lenEncoded]
 	copy(buf, encoded)
 
-- 
2.43.0


From 19e3f2f46641e87900a25f9592970ece6d5b6edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:50 +0000
Subject: [PATCH 10/61] fix: report ill-typed host values as errors instead of
 panicking

---
 abi/io/lower.go | 10 ++++++++--
 abi/io/store.go | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index d0d93cb..22ce98f 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -170,13 +170,19 @@ func LowerFloat64(v any) ([]values.Value, error) {
 }
 
 func LowerChar(v any) ([]values.Value, error) {
-	r := v.(rune)
+	r, ok := v.(rune)
+	if !ok {
+		return nil, types.NewCastError(v, "rune")
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
 
 func LowerString(cx *types.CallContext, v any) ([]values.Value, error) {
-	str := v.(string)
+	str, ok := v.(string)
+	if !ok {
+		return nil, types.NewCastError(v, "string")
+	}
 	ptr, packedLength, err := StoreStringIntoRange(cx, str)
 	if err != nil {
 		return nil, err
diff --git a/abi/io/store.go b/abi/io/store.go
index 5dc0c6c..58d91a9 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -111,12 +111,18 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 
 func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error {
 	if nbytes == SizeOfFloat32 {
-		f := val.(float32)
+		f, ok := val.(float32)
+		if !ok {
+			return types.NewCastError(val, "float32")
+		}
 		f = CanonicalizeFloat32(f)
 		i := math.Float32bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
 	} else {
-		f := val.(float64)
+		f, ok := val.(float64)
+		if !ok {
+			return types.NewCastError(val, "float64")
+		}
 		f = CanonicalizeFloat64(f)
 		i := math.Float64bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
@@ -536,7 +542,10 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 }
 
 func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error {
-	vMap := val.(map[string]any)
+	vMap, err := ToMapStringAny(val)
+	if err != nil {
+		return err
+	}
 	i, err := PackFlagsIntoInt(vMap, f)
 	if err != nil {
 		return err
-- 
2.43.0


From c27a21d0fc186f8b9aec9867d829db742ecd5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:21 +0000
Subject: [PATCH 11/61] fix: refuse to store integers that do not fit in their
 type

Out of range integers were truncated and values of any other type were
stored as zero.
---
 abi/io/store.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 58d91a9..f07e54a 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -177,6 +177,8 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		return fmt.Errorf("unable to store int. Use sized variant")
 	case uint:
 		return fmt.Errorf("unable to store uint. Use sized variant")
+	default:
+		return types.NewCastError(val, "integer")
 	}
 
 	if sign != signed {
@@ -200,6 +202,15 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		}
 	}
 
+	// the value must also fit in the destination
+	shift := 64 - 8*nbytes
+	if !signed && u64<<shift>>shift != u64 {
+		return fmt.Errorf("invalid integer %d does not fit in %d bytes", val, nbytes)
+	}
+	if signed && int64(u64)<<shift>>shift != int64(u64) {
+		return fmt.Errorf("invalid integer %d does not fit in %d bytes", val, nbytes)
+	}
+
 	buf := c.Options.Memory.Bytes()[ptr : ptr+nbytes]
 	switch nbytes {
 	case SizeOfS8:
-- 
2.43.0


From d5000213e449233d4859f63c79d379333956df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:22 +0000
Subject: [PATCH 12/61] fix: support flags with more than 64 labels

Labels after the 64th were lost, both in memory and in core values.
---
 abi/io/lift.go  | 13 ++++++-------
 abi/io/load.go  | 18 ++++++++++++++++--
 abi/io/lower.go | 15 +++++----------
 abi/io/store.go | 32 ++++++++++++++++++++++++++++++--
 4 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 67a7d82..9f2f60a 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -330,10 +330,8 @@ func LiftFlatVariant(cx *types.CallContext, vi values.ValueIterator, variant typ
 }
 
 func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
-	var flat uint64 = 0
-	shift := 0
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
+	flags := map[string]any{}
+	for _, labels := range SplitFlags(f.Labels()) {
 		next, err := vi.Next(kind.U32)
 		if err != nil {
 			return nil, err
@@ -342,8 +340,9 @@ func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
 		if !ok {
 			return nil, types.NewCastError(next, "int32")
 		}
-		flat |= (uint64(u32Next) << shift)
-		shift += 32
+		for label, b := range UnpackFlagsFromInt(uint64(u32Next), labels) {
+			flags[label] = b
+		}
 	}
-	return UnpackFlagsFromInt(flat, f.Labels()), nil
+	return flags, nil
 }
diff --git a/abi/io/load.go b/abi/io/load.go
index 613a609..b433dbc 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -444,6 +444,22 @@ func LoadFlags(cx *types.CallContext, ptr uint32, flags types.Flags) (map[string
 		return nil, err
 	}
 
+	if size > SizeOfU32 {
+		// more than one word, each word holds 32 labels
+		flagMap := map[string]any{}
+		for _, labels := range SplitFlags(flags.Labels()) {
+			u32, err := LoadUInt32(cx, ptr)
+			if err != nil {
+				return nil, err
+			}
+			for label, b := range UnpackFlagsFromInt(uint64(u32), labels) {
+				flagMap[label] = b
+			}
+			ptr += SizeOfU32
+		}
+		return flagMap, nil
+	}
+
 	i, err := LoadIntWithSize(cx, ptr, size, false)
 	if err != nil {
 		return nil, err
@@ -457,8 +473,6 @@ func LoadFlags(cx *types.CallContext, ptr uint32, flags types.Flags) (map[string
 		ui = uint64(i.(uint16))
 	case 4:
 		ui = uint64(i.(uint32))
-	case 8:
-		ui = i.(uint64)
 	}
 	flagMap := map[string]any{}
 	for _, label := range flags.Labels() {
diff --git a/abi/io/lower.go b/abi/io/lower.go
index 22ce98f..517e518 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -230,19 +230,14 @@ func LowerFlatFlags(cx *types.CallContext, v any, f types.Flags) ([]values.Value
 	if !ok {
 		return nil, types.NewCastError(v, "map[string]any")
 	}
-	packed, err := PackFlagsIntoInt(vMap, f)
-	if err != nil {
-		return nil, err
-	}
 	var flat []values.Value
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
+	for _, labels := range SplitFlags(f.Labels()) {
+		packed, err := PackFlagsIntoInt(vMap, types.NewFlags(labels...))
+		if err != nil {
+			return nil, err
+		}
 		u32 := values.U32(packed & 0xffffffff)
 		flat = append(flat, u32)
-		packed >>= 32
-	}
-	if packed != 0 {
-		return nil, fmt.Errorf("invalid flag value")
 	}
 	return flat, nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index f07e54a..0c82fec 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -557,11 +557,26 @@ func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error
 	if err != nil {
 		return err
 	}
-	i, err := PackFlagsIntoInt(vMap, f)
+	size, err := Size(f)
 	if err != nil {
 		return err
 	}
-	size, err := Size(f)
+	if size > SizeOfU32 {
+		// more than one word, each word holds 32 labels
+		for _, labels := range SplitFlags(f.Labels()) {
+			i, err := PackFlagsIntoInt(vMap, types.NewFlags(labels...))
+			if err != nil {
+				return err
+			}
+			err = StoreInt(c, i, ptr, SizeOfU32, false)
+			if err != nil {
+				return err
+			}
+			ptr += SizeOfU32
+		}
+		return nil
+	}
+	i, err := PackFlagsIntoInt(vMap, f)
 	if err != nil {
 		return err
 	}
@@ -576,6 +591,19 @@ func ToMapStringAny(val any) (map[string]any, error) {
 	return nil, types.NewCastError(val, "map[string]any")
 }
 
+// SplitFlags splits the labels into the groups of labels that share a 32 bit word
+func SplitFlags(labels []string) [][]string {
+	var words [][]string
+	for len(labels) > 32 {
+		words = append(words, labels[:32])
+		labels = labels[32:]
+	}
+	if len(labels) > 0 {
+		words = append(words, labels)
+	}
+	return words
+}
+
 func PackFlagsIntoInt(v map[string]any, flags types.Flags) (uint64, error) {
 	var packed uint64 = 0
 	shift := 0
-- 
2.43.0


From f495f28d2f399fd286ab5acf4b7508517ba97d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:23 +0000
Subject: [PATCH 13/61] fix: do not allow entering an instance that is calling
 an import

---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index eaf161a..6735662 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -30,6 +30,9 @@ func CanonLower(
 	if !inst.MayEnter {
 		return nil, fmt.Errorf("CanonLower : ComponentInstance MayLeave must be true")
 	}
+	if callingImport {
+		inst.MayEnter = false
+	}
 	args, err := collections.Select(flatArgs, func(source any) (values.Value, error) {
 		result, ok := any(source).(values.Value)
 		if !ok {
-- 
2.43.0


From 7fb98f860422ec292512623086de5bfda256c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:24 +0000
Subject: [PATCH 14/61] fix: trap when a call ends with borrowed handles
 outstanding

The error was dropped by CanonLower. A callee without a post return
function no longer panics.
---
 abi/io/canon_lower.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 6735662..2e7f4eb 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -62,8 +62,12 @@ func CanonLower(
 	}
 	inst.MayLeave = true
 
-	postReturn()
-	cx.ExitCall()
+	if postReturn != nil {
+		postReturn()
+	}
+	if err := cx.ExitCall(); err != nil {
+		return nil, err
+	}
 
 	if callingImport {
 		inst.MayEnter = true
-- 
2.43.0


From ac5b4330e377113fc3327531ef7a16feca8b1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:25 +0000
Subject: [PATCH 15/61] fix: report alignment errors of variant cases

---
 abi/io/alignment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abi/io/alignment.go b/abi/io/alignment.go
index 03b08dc..8d6d89b 100644
--- a/abi/io/alignment.go
+++ b/abi/io/alignment.go
@@ -75,11 +75,11 @@ func AlignmentVariant(v types.Variant) (uint32, error) {
 	}
 	alignment, err := Alignment(dt)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	maxAlignment, err := MaxCaseAlignment(v.Cases())
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	return max(alignment, maxAlignment), nil
 }
-- 
2.43.0


From 254d4a813f85beb98f08a8b2a940fed43fcc0069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:26 +0000
Subject: [PATCH 16/61] fix: trap when a guest string is not valid in its
 encoding

Ill-formed text was either passed through or replaced silently.
---
 abi/io/load.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index b433dbc..e73d76a 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -279,7 +279,17 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 	}
 
 	buf := cx.Options.Memory.Bytes()[ptr : uint64(ptr)+byteLength]
-	return encoding.DecodeString(codec, bytes.NewReader(buf))
+	str, err := encoding.DecodeString(codec, bytes.NewReader(buf))
+	if err != nil {
+		return "", types.TrapWith("unable to decode string: %s", err)
+	}
+
+	// decoders replace ill-formed sequences, such a string encodes to something else
+	encoded, err := encoding.EncodeString(codec, str)
+	if err != nil || !bytes.Equal(encoded, buf) {
+		return "", types.TrapWith("string at %d is not valid %s", ptr, srcEncoding)
+	}
+	return str, nil
 }
 
 func LoadList(cx *types.CallContext, ptr uint32, elementType types.ValType) ([]any, error) {
-- 
2.43.0


From 54a4f3d9f5aa3e8a6721bae59e41411ca79c163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:55 +0000
Subject: [PATCH 17/61] fix: do not treat the high bit of a utf-8 string length
 as a tag

---
 abi/io/load.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/load.go b/abi/io/load.go
index e73d76a..2b6aca5 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -256,6 +256,9 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		} else {
 			srcEncoding = encoding.Latin1
 		}
+	} else if srcEncoding == encoding.UTF8 {
+		// utf-8 lengths are not tagged
+		tcu = TaggedCodeUnits{CodeUnits: taggedCodeUnits}
 	}
 
 	codec, err := encoding.DefaultFactory().Get(srcEncoding)
-- 
2.43.0


From b20edf6523cec035b1ba73aeb9059a68df99584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:55 +0000
Subject: [PATCH 18/61] fix: check the number of values passed to a function

---
 abi/io/canon_lower.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 2e7f4eb..32d579c 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -76,6 +76,10 @@ func CanonLower(
 }
 
 func LowerValues(cx *types.CallContext, maxFlat int, vs []any, ts []types.ValType, outParam values.ValueIterator) ([]any, error) {
+	if len(vs) != len(ts) {
+		return nil, fmt.Errorf("expected %d values but found %d", len(ts), len(vs))
+	}
+
 	flatTypes, err := FlattenTypes(ts)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d6855ebde6e5bfd13095779d8da5cf26a18981d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:56 +0000
Subject: [PATCH 19/61] fix: refuse host characters and strings that are not
 valid unicode

---
 abi/io/lower.go | 3 +++
 abi/io/store.go | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index 517e518..0276cb7 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -174,6 +174,9 @@ func LowerChar(v any) ([]values.Value, error) {
 	if !ok {
 		return nil, types.NewCastError(v, "rune")
 	}
+	if _, err := ConvertU32ToRune(uint32(r)); err != nil {
+		return nil, err
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index 0c82fec..a4a08bb 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-wasm/abi/types"
 	"github.com/patrickhuber/go-wasm/encoding"
@@ -52,6 +53,9 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		if !ok {
 			return types.NewCastError(val, "rune")
 		}
+		if _, err := ConvertU32ToRune(uint32(r)); err != nil {
+			return err
+		}
 		return StoreInt(c, uint32(r), ptr, SizeOfChar, false)
 	case types.String:
 		s, ok := val.(string)
@@ -244,6 +248,9 @@ func StoreString(c *types.CallContext, str string, ptr uint32) error {
 }
 
 func StoreStringIntoRange(cx *types.CallContext, str string) (uint32, uint32, error) {
+	if !utf8.ValidString(str) {
+		return 0, 0, fmt.Errorf("string %q is not valid utf-8", str)
+	}
 
 	codec, err := encoding.DefaultFactory().Get(cx.Options.StringEncoding)
 	if err != nil {
-- 
2.43.0


From 983ac3bcd12eb58205aeb4233792988303834245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:57 +0000
Subject: [PATCH 20/61] fix: make traps recognizable with errors.Is

Comparing pointers to distinct zero size variables is unspecified.
---
 abi/types/trap.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/abi/types/trap.go b/abi/types/trap.go
index 90a5761..727786e 100644
--- a/abi/types/trap.go
+++ b/abi/types/trap.go
@@ -7,6 +7,13 @@ type trap struct{}
 func (t *trap) Error() string {
 	return ""
 }
+
+// Is reports whether target is a trap
+func (t *trap) Is(target error) bool {
+	_, ok := target.(*trap)
+	return ok
+}
+
 func Trap() error {
 	return &trap{}
 }
-- 
2.43.0


From 4b8f3a76f45a79664227f085fb809225da248b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:06 +0000
Subject: [PATCH 21/61] fix: report integers that are cut short

DecodeSlice returned the bits read so far. DecodeReader failed when the
reader returned the last byte together with io.EOF.
---
 leb128/decode.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/leb128/decode.go b/leb128/decode.go
index 0c08921..4db32e1 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -2,10 +2,17 @@ package leb128
 
 import (
 	"bufio"
-	"fmt"
 	"io"
 )
 
+// truncated reports the end of the input inside of an integer as unexpected
+func truncated(err error, total int) error {
+	if err == io.EOF && total > 0 {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func DecodeReader(r io.Reader) (uint32, int, error) {
 	var val uint32
 	shift := 0
@@ -13,12 +20,9 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 	buf := make([]byte, 1)
 
 	for {
-		n, err := r.Read(buf)
-		if n == 0 {
-			return 0, 0, fmt.Errorf("expected 1 byte read but read 0")
-		}
+		_, err := io.ReadFull(r, buf)
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, truncated(err, total)
 		}
 		b := buf[0]
 		total++
@@ -38,7 +42,7 @@ func Decode(r *bufio.Reader) (uint32, int, error) {
 	for {
 		b, err := r.ReadByte()
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, truncated(err, total)
 		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
@@ -59,9 +63,9 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
-			break
+			return val, total, nil
 		}
 		shift += 7
 	}
-	return val, total, nil
+	return 0, 0, io.ErrUnexpectedEOF
 }
-- 
2.43.0


From d00cb9f556d6467d4069c77ece3b090da2883c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:07 +0000
Subject: [PATCH 22/61] fix: reject integers that do not fit in 32 bits

---
 leb128/decode.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/leb128/decode.go b/leb128/decode.go
index 4db32e1..4bb15ef 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -2,9 +2,13 @@ package leb128
 
 import (
 	"bufio"
+	"errors"
 	"io"
 )
 
+// ErrOverflow is returned for integers that do not fit in 32 bits
+var ErrOverflow = errors.New("leb128: integer overflows 32 bits")
+
 // truncated reports the end of the input inside of an integer as unexpected
 func truncated(err error, total int) error {
 	if err == io.EOF && total > 0 {
@@ -26,6 +30,9 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 		}
 		b := buf[0]
 		total++
+		if shift == 28 && b > 0b_0000_1111 {
+			return 0, 0, ErrOverflow
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			break
@@ -45,6 +52,9 @@ func Decode(r *bufio.Reader) (uint32, int, error) {
 			return 0, 0, truncated(err, total)
 		}
 		total++
+		if shift == 28 && b > 0b_0000_1111 {
+			return 0, 0, ErrOverflow
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			break
@@ -61,6 +71,9 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 	for index := 0; index < len(s); index++ {
 		b := s[index]
 		total++
+		if shift == 28 && b > 0b_0000_1111 {
+			return 0, 0, ErrOverflow
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			return val, total, nil
-- 
2.43.0


From 6141470e380ae15c73fbcca244762cae20955dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:31 +0000
Subject: [PATCH 23/61] fix: read the locals of a function as groups

Locals are encoded as a vector of a count and a type. They were read as
a vector of types, so functions with locals could not be decoded.
---
 binary/read.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/binary/read.go b/binary/read.go
index 0748f7e..3f0552a 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -353,7 +353,7 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(reader)
+		locals, err := ReadLocals(reader)
 		if err != nil {
 			return err
 		}
@@ -367,6 +367,35 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 	return nil
 }
 
+// MaxLocals limits the number of locals in a function, their encoding is tiny compared to the list
+const MaxLocals = 50000
+
+// ReadLocals reads the locals of a function which are encoded as groups of a count and a type
+func ReadLocals(reader io.Reader) ([]api.ValType, error) {
+	groups, err := ReadLebU128(reader)
+	if err != nil {
+		return nil, err
+	}
+	locals := []api.ValType{}
+	for i := uint32(0); i < groups; i++ {
+		count, err := ReadLebU128(reader)
+		if err != nil {
+			return nil, err
+		}
+		vt, err := ReadValueType(reader)
+		if err != nil {
+			return nil, err
+		}
+		if uint64(len(locals))+uint64(count) > MaxLocals {
+			return nil, fmt.Errorf("too many locals, max is %d", MaxLocals)
+		}
+		for ; count > 0; count-- {
+			locals = append(locals, vt)
+		}
+	}
+	return locals, nil
+}
+
 func ReadInstruction(reader io.Reader) (api.Instruction, error) {
 	opCode, err := ReadOpCode(reader)
 	if err != nil {
-- 
2.43.0


From 70833df6a6b8242640c186855001508a28e2f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:32 +0000
Subject: [PATCH 24/61] fix: do not allocate memory for sizes that are only
 claimed

A few bytes of input could make the reader allocate gigabytes.
---
 binary/read.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 3f0552a..7770f6c 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -105,11 +105,8 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			module.Exports = exports
 		default:
 			// skip unknown sections
-			data := make([]byte, size)
-			if size > 0 {
-				if _, err := io.ReadFull(reader, data); err != nil {
-					return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
-				}
+			if _, err := io.CopyN(io.Discard, reader, int64(size)); err != nil {
+				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
 	}
@@ -139,13 +136,13 @@ func ReadFuncTypes(size uint32, reader io.Reader) ([]*api.FuncType, error) {
 	if err != nil {
 		return nil, err
 	}
-	types := make([]*api.FuncType, count)
+	types := []*api.FuncType{}
 	for i := uint32(0); i < count; i++ {
 		t, err := ReadType(reader)
 		if err != nil {
 			return nil, err
 		}
-		types[i] = t
+		types = append(types, t)
 	}
 	return types, nil
 }
@@ -188,13 +185,13 @@ func ReadValueTypeVector(reader io.Reader) ([]api.ValType, error) {
 	if err != nil {
 		return nil, err
 	}
-	valueTypes := make([]api.ValType, size)
+	valueTypes := []api.ValType{}
 	for i := uint32(0); i < size; i++ {
 		vt, err := ReadValueType(reader)
 		if err != nil {
 			return nil, err
 		}
-		valueTypes[i] = vt
+		valueTypes = append(valueTypes, vt)
 	}
 	return valueTypes, nil
 }
@@ -224,13 +221,13 @@ func ReadFuncs(size uint32, reader io.Reader) ([]*api.Func, error) {
 		return nil, err
 	}
 
-	funcs := make([]*api.Func, count)
+	funcs := []*api.Func{}
 	for i := uint32(0); i < count; i++ {
 		result, err := ReadFunc(reader)
 		if err != nil {
 			return nil, err
 		}
-		funcs[i] = result
+		funcs = append(funcs, result)
 	}
 
 	return funcs, nil
@@ -252,13 +249,13 @@ func ReadExports(size uint32, reader io.Reader) ([]api.Export, error) {
 		return nil, err
 	}
 
-	exports := make([]api.Export, count)
+	exports := []api.Export{}
 	for i := uint32(0); i < count; i++ {
 		export, err := ReadExport(reader)
 		if err != nil {
 			return nil, err
 		}
-		exports[i] = export
+		exports = append(exports, export)
 	}
 
 	return exports, nil
@@ -304,11 +301,13 @@ func ReadString(reader io.Reader) (string, error) {
 		return "", nil
 	}
 
-	buf := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, buf)
+	buf, err := io.ReadAll(io.LimitReader(reader, int64(size)))
 	if err != nil {
 		return "", err
 	}
+	if len(buf) != int(size) {
+		return "", io.ErrUnexpectedEOF
+	}
 
 	return string(buf), nil
 }
-- 
2.43.0


From b0046f47945f4158643f34c90e962d0e9fb24ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:34 +0000
Subject: [PATCH 25/61] fix: do not mistake a cut section header for the end of
 the module

---
 binary/read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 7770f6c..6ca7b34 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -126,6 +126,9 @@ func ReadSectionHeader(reader io.Reader) (SectionID, uint32, error) {
 	// read the size
 	size, err := ReadLebU128(reader)
 	if err != nil {
+		if errors.Is(err, io.EOF) {
+			err = io.ErrUnexpectedEOF
+		}
 		return SectionID(0), 0, err
 	}
 	return SectionID(id), size, nil
-- 
2.43.0


From 103f080f1de5c93ff8dad1ee607571f83dc79bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:35 +0000
Subject: [PATCH 26/61] fix: enforce section and function sizes

---
 binary/read.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 6ca7b34..135dd8a 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -78,37 +78,41 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 			return nil, err
 		}
+		section := &io.LimitedReader{R: reader, N: int64(size)}
 		switch sectionID {
 		case TypeSectionID:
-			types, err := ReadFuncTypes(size, reader)
+			types, err := ReadFuncTypes(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Types = types
 		case FunctionSectionID:
-			funcs, err := ReadFuncs(size, reader)
+			funcs, err := ReadFuncs(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Funcs = funcs
 		case CodeSectionID:
-			err := UpdateFuncsWithCode(module, size, reader)
+			err := UpdateFuncsWithCode(module, size, section)
 			if err != nil {
 				return nil, err
 			}
 
 		case ExportSectionID:
-			exports, err := ReadExports(size, reader)
+			exports, err := ReadExports(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Exports = exports
 		default:
 			// skip unknown sections
-			if _, err := io.CopyN(io.Discard, reader, int64(size)); err != nil {
+			if _, err := io.Copy(io.Discard, section); err != nil {
 				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
+		if section.N != 0 {
+			return nil, fmt.Errorf("section %d does not match its size, %d bytes left", sectionID, section.N)
+		}
 	}
 	return module, nil
 }
@@ -349,22 +353,26 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		}
 
 		// function size
-		_, err := ReadLebU128(reader)
+		codeSize, err := ReadLebU128(reader)
 		if err != nil {
 			return err
 		}
+		code := &io.LimitedReader{R: reader, N: int64(codeSize)}
 
 		fn := module.Funcs[index]
-		locals, err := ReadLocals(reader)
+		locals, err := ReadLocals(code)
 		if err != nil {
 			return err
 		}
 		fn.Locals = locals
-		body, err := ReadExpression(reader)
+		body, err := ReadExpression(code)
 		if err != nil {
 			return err
 		}
 		fn.Body = body
+		if code.N != 0 {
+			return fmt.Errorf("function %d does not match its size, %d bytes left", index, code.N)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From f43fff65d61255ecba6a34a53db4778c70e15826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:36 +0000
Subject: [PATCH 27/61] fix: reject modules with functions that have no code

---
 binary/read.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 135dd8a..c8ca59c 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -114,6 +114,11 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			return nil, fmt.Errorf("section %d does not match its size, %d bytes left", sectionID, section.N)
 		}
 	}
+	for index, fn := range module.Funcs {
+		if fn.Body == nil {
+			return nil, fmt.Errorf("function %d has no code", index)
+		}
+	}
 	return module, nil
 }
 
@@ -344,6 +349,10 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		return err
 	}
 
+	if int(count) < len(module.Funcs) {
+		return fmt.Errorf("code section has %d functions, function section has %d", count, len(module.Funcs))
+	}
+
 	for index := 0; index < int(count); index++ {
 		if index >= len(module.Funcs) {
 			return fmt.Errorf("code section has more functions than function section, index %d, funcs %d", index, len(module.Funcs))
-- 
2.43.0


From 3555542ba180fd02ec93f92972a9d1cb1a6a43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:37 +0000
Subject: [PATCH 28/61] fix: reject names that are not valid utf-8

---
 binary/read.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index c8ca59c..e5b604a 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"slices"
+	"unicode/utf8"
 
 	"encoding/binary"
 
@@ -321,6 +322,10 @@ func ReadString(reader io.Reader) (string, error) {
 		return "", io.ErrUnexpectedEOF
 	}
 
+	if !utf8.Valid(buf) {
+		return "", fmt.Errorf("name %q is not valid utf-8", buf)
+	}
+
 	return string(buf), nil
 }
 
-- 
2.43.0


From 619db3c5013727f25be94b49a6c4e8d2b943ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:39 +0000
Subject: [PATCH 29/61] fix: reject repeated and out of order sections

---
 binary/binary.go | 16 ++++++++++++++++
 binary/read.go   |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/binary/binary.go b/binary/binary.go
index 5a2636e..88a2d04 100644
--- a/binary/binary.go
+++ b/binary/binary.go
@@ -15,6 +15,22 @@ const (
 	CodeSectionID     SectionID = 10
 )
 
+// sectionOrder lists the sections in the order required by the specification
+var sectionOrder = []SectionID{
+	TypeSectionID,
+	2, // import
+	FunctionSectionID,
+	4, // table
+	5, // memory
+	6, // global
+	ExportSectionID,
+	8,  // start
+	9,  // element
+	12, // data count
+	CodeSectionID,
+	11, // data
+}
+
 type Section struct {
 	ID   SectionID
 	Data []byte
diff --git a/binary/read.go b/binary/read.go
index e5b604a..6d20118 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -71,6 +71,7 @@ func ReadPreamble(reader io.Reader) (api.Preamble, error) {
 
 func ReadModule(reader io.Reader) (*api.Module, error) {
 	module := &api.Module{}
+	last := -1
 	for {
 		sectionID, size, err := ReadSectionHeader(reader)
 		if err != nil {
@@ -79,6 +80,13 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 			return nil, err
 		}
+		// sections other than custom sections appear at most once and in order
+		if position := slices.Index(sectionOrder, sectionID); position >= 0 {
+			if position <= last {
+				return nil, fmt.Errorf("section %d is repeated or out of order", sectionID)
+			}
+			last = position
+		}
 		section := &io.LimitedReader{R: reader, N: int64(size)}
 		switch sectionID {
 		case TypeSectionID:
-- 
2.43.0


From 119f085a50515a5d663b82dda01bc5d53a901a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:40 +0000
Subject: [PATCH 30/61] fix: check the layer of the preamble

---
 binary/read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 6d20118..5b31f15 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -24,11 +24,17 @@ func Read(reader io.Reader) (*api.Document, error) {
 	var directive api.Directive
 	switch preamble.Version {
 	case ComponentVersion:
+		if preamble.Layer != 1 {
+			return nil, fmt.Errorf("invalid component layer %d", preamble.Layer)
+		}
 		directive, err = ReadComponent(reader)
 		if err != nil {
 			return nil, err
 		}
 	case ModuleVersion:
+		if preamble.Layer != 0 {
+			return nil, fmt.Errorf("invalid module layer %d", preamble.Layer)
+		}
 		directive, err = ReadModule(reader)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 84cadad96414e1d50ddb5d84b224137602789499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:41 +0000
Subject: [PATCH 31/61] fix: instantiate the types and exports of a module

GetExport never found anything because exports were not populated.
---
 runtime/instance.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/runtime/instance.go b/runtime/instance.go
index d6a88b8..cf6cb6c 100644
--- a/runtime/instance.go
+++ b/runtime/instance.go
@@ -1,6 +1,8 @@
 package runtime
 
 import (
+	"fmt"
+
 	"github.com/patrickhuber/go-wasm/address"
 	"github.com/patrickhuber/go-wasm/api"
 )
@@ -21,6 +23,23 @@ func NewModuleInstance(store *Store, module *api.Module) (*ModuleInstance, error
 	moduleInstance := &ModuleInstance{
 		store: store,
 	}
+	for _, t := range module.Types {
+		moduleInstance.Types = append(moduleInstance.Types, *t)
+	}
+	base := len(store.Funcs)
+	for _, export := range module.Exports {
+		description, ok := export.Description.(*api.FuncExportDescription)
+		if !ok {
+			return nil, fmt.Errorf("export %q: unsupported export %T", export.Name, export.Description)
+		}
+		if int(description.FuncIdx) >= len(module.Funcs) {
+			return nil, fmt.Errorf("export %q: function index %d is out of range", export.Name, description.FuncIdx)
+		}
+		moduleInstance.Exports = append(moduleInstance.Exports, ExportInstance{
+			Name:  export.Name,
+			Value: address.Function(base + int(description.FuncIdx)),
+		})
+	}
 	for _, fn := range module.Funcs {
 		funcAddr := len(store.Funcs)
 		store.Funcs = append(store.Funcs, fn)
-- 
2.43.0


From 092243b87b81ed0d152e5f0d04ea198543856d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:43 +0000
Subject: [PATCH 32/61] fix: report lexer errors when looking ahead

---
 wat/lex/lexer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index a07b1e3..825a495 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -71,7 +71,11 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
@@ -708,5 +712,8 @@ func not(chars ...byte) func(ch byte) bool {
 }
 
 func (l *Lexer) lexerError() error {
-	return fmt.Errorf("error parsing at line: %d column: %d position: %d, '%s'", l.line, l.column, l.position, string(l.input[l.offset:l.position]))
+	err := fmt.Errorf("error parsing at line: %d column: %d position: %d, '%s'", l.line, l.column, l.position, string(l.input[l.offset:l.position]))
+	// stay in front of the text that is not a token
+	l.position = l.offset
+	return err
 }
-- 
2.43.0


From 09d9ce90984958c523696fde7c2c2d825a66adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:45 +0000
Subject: [PATCH 33/61] fix: report tokens that are cut short by the end of the
 input

---
 wat/lex/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 825a495..de08f63 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -125,8 +125,8 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 				}
 			}
 
-			// process any lexemes in an accepted state and emit a token
-			return l.token(token.EndOfStream) // returned if nothing is matched
+			// the input ends inside of a token
+			return result.Error[*token.Token](l.lexerError())
 		}
 
 		var matched []Lexeme
@@ -233,7 +233,8 @@ func whitespace() Rule {
 func lineComment() Rule {
 	start := &Node{}
 	semi := &Node{}
-	semi2 := &Node{}
+	// the end of the input also ends the comment
+	semi2 := &Node{Final: true}
 	newLine := &Node{
 		Final: true,
 	}
-- 
2.43.0


From e5c405c8c9ab678260b2fb60bd0185768c01006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:46 +0000
Subject: [PATCH 34/61] fix: support escape sequences in strings

---
 wat/lex/lexer.go    | 10 ++++++-
 wat/parse/parser.go | 63 ++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 71 insertions(+), 2 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index de08f63..b0ebce7 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -306,6 +306,7 @@ func blockComment() Rule {
 func str() Rule {
 	start := &Node{}
 	doubleQuote := &Node{}
+	escape := &Node{}
 	end := &Node{Final: true}
 	start.Edges = append(start.Edges, &ByteEdge{
 		Byte: '"',
@@ -314,8 +315,15 @@ func str() Rule {
 	doubleQuote.Edges = append(doubleQuote.Edges, &ByteEdge{
 		Byte: '"',
 		Node: end,
+	}, &ByteEdge{
+		Byte: '\\',
+		Node: escape,
 	}, &FuncEdge{
-		Func: not('"'),
+		Func: not('"', '\\'),
+		Node: doubleQuote,
+	})
+	escape.Edges = append(escape.Edges, &FuncEdge{
+		Func: not(),
 		Node: doubleQuote,
 	})
 	return &DfaRule{
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7b8f746..aa1b6e7 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-types"
 	"github.com/patrickhuber/go-types/handle"
@@ -760,11 +761,71 @@ func ParseString(lexer *lex.Lexer) (string, error) {
 }
 
 func parseString(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.String {
 		return result.Errorf[string]("%w", parseError(tok))
 	}
-	return result.Ok(strings.Trim(tok.Capture, "\""))
+	str, err := unescape(tok.Capture[1 : len(tok.Capture)-1])
+	if err != nil {
+		return result.Errorf[string]("%w : %w", parseError(tok), err)
+	}
+	return result.Ok(str)
+}
+
+// unescape replaces the escape sequences of a string literal
+// see https://webassembly.github.io/spec/core/text/values.html#strings
+func unescape(s string) (string, error) {
+	var sb strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' {
+			sb.WriteByte(s[i])
+			continue
+		}
+		i++
+		if i >= len(s) {
+			return "", fmt.Errorf("incomplete escape sequence")
+		}
+		switch s[i] {
+		case 't':
+			sb.WriteByte('\t')
+		case 'n':
+			sb.WriteByte('\n')
+		case 'r':
+			sb.WriteByte('\r')
+		case '"', '\'', '\\':
+			sb.WriteByte(s[i])
+		case 'u':
+			end := strings.IndexByte(s[i:], '}')
+			if end < 0 || !strings.HasPrefix(s[i:], "u{") {
+				return "", fmt.Errorf("invalid unicode escape sequence")
+			}
+			digits := s[i+2 : i+end]
+			if strings.HasPrefix(digits, "_") || strings.HasSuffix(digits, "_") || strings.Contains(digits, "__") {
+				return "", fmt.Errorf("invalid unicode escape sequence")
+			}
+			n, err := strconv.ParseUint(strings.ReplaceAll(digits, "_", ""), 16, 32)
+			if err != nil {
+				return "", err
+			}
+			if n > utf8.MaxRune || !utf8.ValidRune(rune(n)) {
+				return "", fmt.Errorf("invalid unicode escape sequence")
+			}
+			sb.WriteRune(rune(n))
+			i += end
+		default:
+			if i+2 > len(s) {
+				return "", fmt.Errorf("incomplete escape sequence")
+			}
+			n, err := strconv.ParseUint(s[i:i+2], 16, 8)
+			if err != nil {
+				return "", err
+			}
+			sb.WriteByte(byte(n))
+			i++
+		}
+	}
+	return sb.String(), nil
 }
 
 func ParseInt32(lexer *lex.Lexer) (int32, error) {
-- 
2.43.0


From 0d930b13ebc82a7e0cc0902d4332ed5ec6b3717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:25 +0000
Subject: [PATCH 35/61] fix: support nested block comments

---
 wat/lex/lexer.go    | 39 ++----------------------
 wat/lex/nested.go   | 73 +++++++++++++++++++++++++++++++++++++++++++++
 wat/lex/registry.go |  1 +
 3 files changed, 77 insertions(+), 36 deletions(-)
 create mode 100644 wat/lex/nested.go

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index b0ebce7..8b6d85e 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -263,42 +263,9 @@ func lineComment() Rule {
 }
 
 func blockComment() Rule {
-	start := &Node{}
-	openParen := &Node{}
-	semi := &Node{}
-	semiEnd := &Node{}
-	closeParen := &Node{Final: true}
-
-	start.Edges = append(start.Edges, &ByteEdge{
-		Byte: '(',
-		Node: openParen,
-	})
-	openParen.Edges = append(openParen.Edges, &ByteEdge{
-		Byte: ';',
-		Node: semi,
-	})
-	semi.Edges = append(semi.Edges, &ByteEdge{
-		Byte: ';',
-		Node: semiEnd,
-	}, &FuncEdge{
-		Func: not(';'),
-		Node: semi,
-	})
-	semiEnd.Edges = append(semiEnd.Edges, &ByteEdge{
-		Byte: ')',
-		Node: closeParen,
-	}, &ByteEdge{
-		Byte: ';',
-		Node: semiEnd,
-	}, &FuncEdge{
-		Func: not(')', ';'),
-		Node: semi,
-	})
-
-	return &DfaRule{
-		Dfa: &Dfa{
-			Start: start,
-		},
+	return &NestedRule{
+		Open:      "(;",
+		Close:     ";)",
 		TokenType: token.BlockComment,
 	}
 }
diff --git a/wat/lex/nested.go b/wat/lex/nested.go
new file mode 100644
index 0000000..5c6c50d
--- /dev/null
+++ b/wat/lex/nested.go
@@ -0,0 +1,73 @@
+package lex
+
+import "github.com/patrickhuber/go-wasm/wat/token"
+
+const NestedRuleType RuleType = 4
+
+// NestedRule matches text between two-byte delimiters that can be nested.
+type NestedRule struct {
+	Open      string
+	Close     string
+	TokenType token.Type
+}
+
+func (r *NestedRule) Type() token.Type {
+	return r.TokenType
+}
+
+func (r *NestedRule) Check(ch byte) bool {
+	return r.Open[0] == ch
+}
+
+func (r *NestedRule) RuleType() RuleType {
+	return NestedRuleType
+}
+
+type NestedLexeme struct {
+	rule     *NestedRule
+	depth    int
+	last     byte
+	pending  bool
+	accepted bool
+}
+
+func (l *NestedLexeme) Rule() Rule {
+	return l.rule
+}
+
+func (l *NestedLexeme) Eat(ch byte) bool {
+	if l.accepted {
+		return false
+	}
+	// pending is set if the last byte could be the first one of a delimiter
+	delimiter := string([]byte{l.last, ch})
+	switch {
+	case l.pending && delimiter == l.rule.Open:
+		l.depth++
+		l.pending = false
+	case l.pending && l.depth > 0 && delimiter == l.rule.Close:
+		l.depth--
+		l.pending = false
+		l.accepted = l.depth == 0
+	case l.pending && l.depth == 0:
+		// the first two bytes are not the open delimiter
+		return false
+	default:
+		l.last = ch
+		l.pending = true
+	}
+	return true
+}
+
+func (l *NestedLexeme) Accepted() bool {
+	return l.accepted
+}
+
+type NestedFactory struct {
+}
+
+func (f *NestedFactory) Lexeme(r Rule) Lexeme {
+	return &NestedLexeme{
+		rule: r.(*NestedRule),
+	}
+}
diff --git a/wat/lex/registry.go b/wat/lex/registry.go
index 6ff39d6..7fc539f 100644
--- a/wat/lex/registry.go
+++ b/wat/lex/registry.go
@@ -6,4 +6,5 @@ type Registry map[RuleType]Factory
 var registry = Registry{
 	StringRuleType: &StringFactory{},
 	DfaRuleType:    &DfaFactory{},
+	NestedRuleType: &NestedFactory{},
 }
-- 
2.43.0


From c6f73261e8e0aff1f1ea204dc810e9762a19fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:27 +0000
Subject: [PATCH 36/61] fix: classify numbers as the grammar says

---
 wat/lex/lexer.go | 57 ++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 8b6d85e..a13a1b0 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -337,13 +337,14 @@ func num(s string, i int) (int, bool) {
 	}
 
 	for ; i < len(s); i++ {
-		if s[i] == '_' {
+		// an underscore is only allowed between two digits
+		if s[i] == '_' && i+1 < len(s) && isDigit(s[i+1]) {
 			continue
 		}
 		if isDigit(s[i]) {
 			continue
 		}
-		return i, false
+		return i, true
 	}
 	return i, true
 }
@@ -356,7 +357,8 @@ func hexnum(s string, i int) (int, bool) {
 		return i, false
 	}
 	for ; i < len(s); i++ {
-		if s[i] == '_' {
+		// an underscore is only allowed between two digits
+		if s[i] == '_' && i+1 < len(s) && isHex(s[i+1]) {
 			continue
 		}
 		if isHex(s[i]) {
@@ -375,13 +377,14 @@ func frac(s string, i int) (int, bool) {
 		return i, false
 	}
 	for ; i < len(s); i++ {
-		if s[i] == '_' {
+		// an underscore is only allowed between two digits
+		if s[i] == '_' && i+1 < len(s) && isDigit(s[i+1]) {
 			continue
 		}
 		if isDigit(s[i]) {
 			continue
 		}
-		return i, false
+		return i, true
 	}
 	return i, true
 }
@@ -394,7 +397,8 @@ func hexfrac(s string, i int) (int, bool) {
 		return i, false
 	}
 	for ; i < len(s); i++ {
-		if s[i] == '_' {
+		// an underscore is only allowed between two digits
+		if s[i] == '_' && i+1 < len(s) && isHex(s[i+1]) {
 			continue
 		}
 		if isHex(s[i]) {
@@ -425,17 +429,17 @@ func float(s string, i int) (int, bool) {
 			i++ // '.'
 		}
 		i++ // 'E' | 'e'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
+		i, _ = sign(s, i)
 		n, ok = num(s, i)
 		if !ok {
 			return i, false
 		}
 		return n, true
 	}
+	if s[i] != '.' {
+		return i, false
+	}
+	i++ // '.'
 	// p:num '.' q:frac
 	n, ok = frac(s, i)
 	if !ok {
@@ -450,11 +454,7 @@ func float(s string, i int) (int, bool) {
 		return i, false
 	}
 	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
+	i, _ = sign(s, i)
 	return num(s, i)
 }
 
@@ -482,17 +482,16 @@ func hexfloat(s string, i int) (int, bool) {
 			i++ // '.'
 		}
 		i++ // 'P' | 'p'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
+		i, _ = sign(s, i)
 		n, ok = num(s, i)
 		if !ok {
 			return i, false
 		}
 		return n, true
 	}
+	if s[i] != '.' {
+		return i, false
+	}
 	i++ // '.'
 	// p:hexnum '.' q:hexfrac
 	n, ok = hexfrac(s, i)
@@ -508,11 +507,7 @@ func hexfloat(s string, i int) (int, bool) {
 		return i, false
 	}
 	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
+	i, _ = sign(s, i)
 	return num(s, i)
 }
 
@@ -538,13 +533,13 @@ func isFloat(s string) bool {
 	}
 	if strings.HasPrefix(s, "nan:0x") {
 		s = strings.TrimPrefix(s, "nan:0x")
-		_, ok := hexnum(s, 0)
-		return ok
+		n, ok := hexnum(s, 0)
+		return ok && n == len(s)
 	}
-	if _, ok := float(s, 0); ok {
+	if n, ok := float(s, 0); ok && n == len(s) {
 		return true
 	}
-	if _, ok := hexfloat(s, 0); ok {
+	if n, ok := hexfloat(s, 0); ok && n == len(s) {
 		return true
 	}
 	return false
@@ -558,7 +553,7 @@ func isInteger(s string) bool {
 	if s[0] == '+' || s[0] == '-' {
 		s = s[1:]
 	}
-	if _, ok := num(s, 0); ok {
+	if i, ok := num(s, 0); ok && i == len(s) {
 		return true
 	}
 	if strings.HasPrefix(s, "0x") {
-- 
2.43.0


From 675429e88ada6dca0458010691055e9345955d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:08 +0000
Subject: [PATCH 37/61] fix: parse integers of the full range in decimal and
 hexadecimal

---
 wat/parse/parser.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index aa1b6e7..24b93c0 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -839,14 +839,36 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int32]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int32(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	i, err := parseInteger(tok.Capture, 32)
 	return result.New(int32(i), err)
 }
 
+// parseInteger parses an integer literal with an optional sign that fits into the given number of bits
+// see https://webassembly.github.io/spec/core/text/values.html#integers
+func parseInteger(capture string, bits int) (uint64, error) {
+	negative := strings.HasPrefix(capture, "-")
+	i, err := parseUnsigned(strings.TrimLeft(capture, "+-"), bits)
+	if err != nil {
+		return 0, err
+	}
+	if !negative {
+		return i, nil
+	}
+	if i > 1<<(bits-1) {
+		return 0, fmt.Errorf("integer '%s' is out of range", capture)
+	}
+	return -i, nil
+}
+
+// parseUnsigned parses an integer literal without sign
+func parseUnsigned(capture string, bits int) (uint64, error) {
+	digits := strings.ReplaceAll(capture, "_", "")
+	if strings.HasPrefix(digits, "0x") {
+		return strconv.ParseUint(digits[2:], 16, bits)
+	}
+	return strconv.ParseUint(digits, 10, bits)
+}
+
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
 	return parseInt64(lexer).Deconstruct()
 }
@@ -858,11 +880,7 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int64]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int64(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	i, err := parseInteger(tok.Capture, 64)
 	return result.New(int64(i), err)
 }
 
-- 
2.43.0


From eb69a08d635d238bf1e5bb3489ae3505bee6f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:10 +0000
Subject: [PATCH 38/61] fix: reject indices and limits that are not unsigned 32
 bit integers

---
 wat/parse/parser.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 24b93c0..1938e13 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -312,15 +312,15 @@ func parseMemory(lexer *lex.Lexer) (res types.Result[ast.Memory]) {
 
 func parseLimits(lexer *lex.Lexer) (res types.Result[ast.Limits]) {
 	defer handle.Error(&res)
-	min := parseInt32(lexer).Unwrap()
+	min := parseUint32(lexer).Unwrap()
 	max := option.None[uint32]()
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Integer {
-		n := parseInt32(lexer).Unwrap()
-		max = option.Some(uint32(n))
+		n := parseUint32(lexer).Unwrap()
+		max = option.Some(n)
 	}
 	return result.Ok(ast.Limits{
-		Min: uint32(min),
+		Min: min,
 		Max: max,
 	})
 }
@@ -545,7 +545,7 @@ func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
 	var index ast.Index
 	switch tok.Type {
 	case token.Integer:
-		i := result.New(strconv.Atoi(tok.Capture)).Unwrap()
+		i := result.New(parseUnsigned(tok.Capture, 32)).Unwrap()
 		index = &ast.RawIndex{
 			Index: uint32(i),
 		}
@@ -869,6 +869,17 @@ func parseUnsigned(capture string, bits int) (uint64, error) {
 	return strconv.ParseUint(digits, 10, bits)
 }
 
+func parseUint32(lexer *lex.Lexer) (res types.Result[uint32]) {
+	defer handle.Error(&res)
+
+	tok := next(lexer).Unwrap()
+	if tok.Type != token.Integer {
+		return result.Errorf[uint32]("expected integer %w", parseError(tok))
+	}
+	i, err := parseUnsigned(tok.Capture, 32)
+	return result.New(uint32(i), err)
+}
+
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
 	return parseInt64(lexer).Deconstruct()
 }
-- 
2.43.0


From dd5f4d448e3e0f84a6cb86827fc738c7d6aa399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:12 +0000
Subject: [PATCH 39/61] fix: parse every float literal to its exact value

---
 wast/parse/parser.go | 34 +----------------
 wat/parse/parser.go  | 90 ++++++++++++++++++++++++++++----------------
 2 files changed, 59 insertions(+), 65 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 401936e..ea40b1f 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -291,26 +291,12 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		// some times constants can be ambiguous like '0'
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		c = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else if peekInteger(lexer).Unwrap() {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		c = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	case "ref.null":
 	case "ref.extern":
@@ -342,14 +328,6 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 	return result.Ok(results)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	tok, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(tok.Type == token.Float)
-}
-
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	return result.New(watparse.ParseFloat32(lexer))
 }
@@ -441,14 +419,6 @@ func parseString(lexer *lex.Lexer) types.Result[string] {
 	return result.New(str, err)
 }
 
-func peekInteger(lexer *lex.Lexer) types.Result[bool] {
-	i, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(i.Type == token.Integer)
-}
-
 func parseInt32(lexer *lex.Lexer) types.Result[int32] {
 	i, err := watparse.ParseInt32(lexer)
 	return result.New(i, err)
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 1938e13..98cfa5c 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -429,25 +429,12 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		inst = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		inst = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	// f32 math instructions
 	case "f32.add":
@@ -895,12 +882,6 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	return result.New(int64(i), err)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	defer handle.Error(&res)
-	tok := peek(lexer).Unwrap()
-	return result.Ok(tok.Type == token.Float)
-}
-
 func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 	return parseFloat32(lexer).Deconstruct()
 }
@@ -908,19 +889,17 @@ func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	// some times constants can be ambiguous like '0'
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float32]("expected float %w", parseError(tok))
 	}
-	negative := false
-	capture := tok.Capture
-	if strings.HasPrefix(capture, "-") {
-		negative = true
-		capture = capture[1:]
-	}
+	negative := strings.HasPrefix(tok.Capture, "-")
+	capture := strings.TrimLeft(tok.Capture, "+-")
 	if strings.HasPrefix(capture, "nan") {
 		capture = capture[3:]
 
-		var u32 uint64
+		// without payload the NaN is canonical
+		var u32 uint64 = 1 << 22
 		if strings.HasPrefix(capture, ":") {
 			capture = capture[1:]
 
@@ -936,7 +915,7 @@ func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
 					return result.Ok(math.Float32frombits(val))
 				}
-				u32, err = strconv.ParseUint(capture, 0, 32)
+				u32, err = parsePayload(capture, 23)
 				if err != nil {
 					return result.Error[float32](err)
 				}
@@ -952,10 +931,32 @@ func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 		return result.Ok(math.Float32frombits(uint32(u32)))
 	}
 	// not nan, so parse normally
-	f, err := strconv.ParseFloat(tok.Capture, 32)
+	f, err := strconv.ParseFloat(normalizeFloat(tok.Capture), 32)
 	return result.New(float32(f), err)
 }
 
+// parsePayload parses the payload of a NaN with the given number of significand bits
+func parsePayload(capture string, bits int) (uint64, error) {
+	payload, err := parseUnsigned(capture, bits)
+	if err != nil {
+		return 0, err
+	}
+	if payload == 0 {
+		return 0, fmt.Errorf("the payload of a NaN must not be zero")
+	}
+	return payload, nil
+}
+
+// normalizeFloat turns a float literal into the format of the strconv package
+func normalizeFloat(capture string) string {
+	capture = strings.ReplaceAll(capture, "_", "")
+	// the exponent of hexadecimal literals is optional
+	if strings.Contains(capture, "0x") && !strings.ContainsAny(capture, "pP") {
+		capture += "p0"
+	}
+	return capture
+}
+
 func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 	return parseFloat64(lexer).Deconstruct()
 }
@@ -963,10 +964,33 @@ func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 func parseFloat64(lexer *lex.Lexer) (res types.Result[float64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	// some times constants can be ambiguous like '0'
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float64]("expected float %w", parseError(tok))
 	}
-	f, err := strconv.ParseFloat(tok.Capture, 32)
+	negative := strings.HasPrefix(tok.Capture, "-")
+	capture := strings.TrimLeft(tok.Capture, "+-")
+	if strings.HasPrefix(capture, "nan") {
+		// without payload the NaN is canonical
+		var u64 uint64 = 1 << 51
+		switch capture {
+		case "nan":
+		case "nan:canonical", "nan:arithmetic":
+			negative = true
+		default:
+			var err error
+			u64, err = parsePayload(strings.TrimPrefix(capture, "nan:"), 52)
+			if err != nil {
+				return result.Error[float64](err)
+			}
+		}
+		u64 |= 0x7ff << 52
+		if negative {
+			u64 |= 1 << 63
+		}
+		return result.Ok(math.Float64frombits(u64))
+	}
+	f, err := strconv.ParseFloat(normalizeFloat(tok.Capture), 64)
 	return result.New(f, err)
 }
 
-- 
2.43.0


From b3c86fe161b32c7947755d9168367281a8c93db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:37 +0000
Subject: [PATCH 40/61] fix: add the missing i32 instructions to the syntax
 tree

---
 wat/ast/ast.go      | 100 ++++++++++++++++++++++++++++++++++++++++++++
 wat/parse/parser.go |  25 +++++++++++
 2 files changed, 125 insertions(+)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 3da2ded..4a2f1c1 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -223,6 +223,106 @@ type I32DivU struct{}
 
 func (I32DivU) inst() {}
 
+type I32RemS struct{}
+
+func (I32RemS) inst() {}
+
+type I32RemU struct{}
+
+func (I32RemU) inst() {}
+
+type I32And struct{}
+
+func (I32And) inst() {}
+
+type I32Or struct{}
+
+func (I32Or) inst() {}
+
+type I32Xor struct{}
+
+func (I32Xor) inst() {}
+
+type I32Shl struct{}
+
+func (I32Shl) inst() {}
+
+type I32ShrS struct{}
+
+func (I32ShrS) inst() {}
+
+type I32ShrU struct{}
+
+func (I32ShrU) inst() {}
+
+type I32Rotl struct{}
+
+func (I32Rotl) inst() {}
+
+type I32Rotr struct{}
+
+func (I32Rotr) inst() {}
+
+type I32Clz struct{}
+
+func (I32Clz) inst() {}
+
+type I32Ctz struct{}
+
+func (I32Ctz) inst() {}
+
+type I32Popcnt struct{}
+
+func (I32Popcnt) inst() {}
+
+type I32Extend8S struct{}
+
+func (I32Extend8S) inst() {}
+
+type I32Extend16S struct{}
+
+func (I32Extend16S) inst() {}
+
+type I32Eq struct{}
+
+func (I32Eq) inst() {}
+
+type I32Ne struct{}
+
+func (I32Ne) inst() {}
+
+type I32LtS struct{}
+
+func (I32LtS) inst() {}
+
+type I32LtU struct{}
+
+func (I32LtU) inst() {}
+
+type I32LeS struct{}
+
+func (I32LeS) inst() {}
+
+type I32LeU struct{}
+
+func (I32LeU) inst() {}
+
+type I32GtS struct{}
+
+func (I32GtS) inst() {}
+
+type I32GtU struct{}
+
+func (I32GtU) inst() {}
+
+type I32GeS struct{}
+
+func (I32GeS) inst() {}
+
+type I32GeU struct{}
+
+func (I32GeU) inst() {}
+
 type Folded struct {
 	Instruction Instruction
 	Parameters  []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 98cfa5c..8a885b6 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -472,32 +472,57 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	case "i32.div_u":
 		inst = ast.I32DivU{}
 	case "i32.rem_s":
+		inst = ast.I32RemS{}
 	case "i32.rem_u":
+		inst = ast.I32RemU{}
 	case "i32.and":
+		inst = ast.I32And{}
 	case "i32.or":
+		inst = ast.I32Or{}
 	case "i32.xor":
+		inst = ast.I32Xor{}
 	case "i32.shl":
+		inst = ast.I32Shl{}
 	case "i32.shr_s":
+		inst = ast.I32ShrS{}
 	case "i32.shr_u":
+		inst = ast.I32ShrU{}
 	case "i32.rotl":
+		inst = ast.I32Rotl{}
 	case "i32.rotr":
+		inst = ast.I32Rotr{}
 	case "i32.clz":
+		inst = ast.I32Clz{}
 	case "i32.ctz":
+		inst = ast.I32Ctz{}
 	case "i32.popcnt":
+		inst = ast.I32Popcnt{}
 	case "i32.extend8_s":
+		inst = ast.I32Extend8S{}
 	case "i32.extend16_s":
+		inst = ast.I32Extend16S{}
 	case "i32.eqz":
 		inst = ast.I32Eqz{}
 	case "i32.eq":
+		inst = ast.I32Eq{}
 	case "i32.ne":
+		inst = ast.I32Ne{}
 	case "i32.lt_s":
+		inst = ast.I32LtS{}
 	case "i32.lt_u":
+		inst = ast.I32LtU{}
 	case "i32.le_s":
+		inst = ast.I32LeS{}
 	case "i32.le_u":
+		inst = ast.I32LeU{}
 	case "i32.gt_s":
+		inst = ast.I32GtS{}
 	case "i32.gt_u":
+		inst = ast.I32GtU{}
 	case "i32.ge_s":
+		inst = ast.I32GeS{}
 	case "i32.ge_u":
+		inst = ast.I32GeU{}
 	case "block":
 		inst = parseBlock(lexer).Unwrap()
 	case "loop":
-- 
2.43.0


From d5f9e085b5d066b8ca01ad76e957c4b71c58ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:39 +0000
Subject: [PATCH 41/61] fix: keep the inline imports of functions

---
 wat/ast/ast.go      | 1 +
 wat/parse/parser.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 4a2f1c1..347eb3d 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -27,6 +27,7 @@ type Function struct {
 	ID           types.Option[string]
 	Locals       []Local
 	Exports      []InlineExport
+	Imports      []InlineImport
 	Parameters   []Parameter
 	Results      []Result
 	Instructions []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 8a885b6..09cb8de 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -110,7 +110,8 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 			export := parseExport(lexer).Unwrap()
 			function.Exports = append(function.Exports, export)
 		case "import":
-			_ = parseImport(lexer).Unwrap()
+			_import := parseImport(lexer).Unwrap()
+			function.Imports = append(function.Imports, _import)
 		default:
 			inst := parseInstruction(lexer).Unwrap()
 			function.Instructions = append(function.Instructions, inst)
-- 
2.43.0


From 7f5d014e4e9db48fa8c0daeb1a07c3176b9d5bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:42 +0000
Subject: [PATCH 42/61] fix: do not fold an instruction into a plain one before
 it

---
 wat/parse/parser.go | 49 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 09cb8de..23c5029 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -123,7 +123,12 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		if tok.Type == token.CloseParen {
 			break
 		}
-		instruction := parseInstruction(lexer).Unwrap()
+		if tok.Type == token.OpenParen {
+			instructions := parseInstructions(lexer).Unwrap()
+			function.Instructions = append(function.Instructions, instructions...)
+			continue
+		}
+		instruction := parsePlainInstruction(lexer).Unwrap()
 		function.Instructions = append(function.Instructions, instruction)
 	}
 	return result.Ok(function)
@@ -358,7 +363,35 @@ func parseInstructions(lexer *lex.Lexer) (res types.Result[[]ast.Instruction]) {
 	return result.Ok(instructions)
 }
 
+func parsePlainInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
+	defer handle.Error(&res)
+	tok := peek(lexer).Unwrap()
+	switch tok.Capture {
+	case "block", "loop", "if":
+		return result.Errorf[ast.Instruction]("%w : '%s' is only supported in parentheses", parseError(tok), tok.Capture)
+	}
+	return parseOperator(lexer)
+}
+
 func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
+	defer handle.Error(&res)
+	inst := parseOperator(lexer).Unwrap()
+	peekTok := peek(lexer).Unwrap()
+	if peekTok.Type != token.OpenParen {
+		return result.Ok(inst)
+	}
+	folded := ast.Folded{
+		Instruction: inst,
+	}
+	for eat(lexer, token.OpenParen).Unwrap() {
+		inst = parseInstruction(lexer).Unwrap()
+		folded.Parameters = append(folded.Parameters, inst)
+		expect(lexer, token.CloseParen).Unwrap()
+	}
+	return result.Ok[ast.Instruction](folded)
+}
+
+func parseOperator(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.Reserved {
@@ -536,19 +569,7 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	default:
 		return result.Errorf[ast.Instruction]("%w : error parsing instruction. Unrecognized instruction %v : %s", parseError(tok), tok.Type, tok.Capture)
 	}
-	peekTok := peek(lexer).Unwrap()
-	if peekTok.Type != token.OpenParen {
-		return result.Ok(inst)
-	}
-	folded := ast.Folded{
-		Instruction: inst,
-	}
-	for eat(lexer, token.OpenParen).Unwrap() {
-		inst = parseInstruction(lexer).Unwrap()
-		folded.Parameters = append(folded.Parameters, inst)
-		expect(lexer, token.CloseParen).Unwrap()
-	}
-	return result.Ok[ast.Instruction](folded)
+	return result.Ok(inst)
 }
 
 func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
-- 
2.43.0


From 85ec079ae2f6ef53f0050fb73d87c630c9850313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:08 +0000
Subject: [PATCH 43/61] fix: reject types and tables with missing parts

---
 wat/parse/parser.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 23c5029..cf3cf08 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -184,11 +184,9 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	id := parseOptionalId(lexer).Unwrap()
 
-	var funcType ast.FuncType
-	if eat(lexer, token.OpenParen).Unwrap() {
-		funcType = parseFuncType(lexer).Unwrap()
-		expect(lexer, token.CloseParen).Unwrap()
-	}
+	expect(lexer, token.OpenParen).Unwrap()
+	funcType := parseFuncType(lexer).Unwrap()
+	expect(lexer, token.CloseParen).Unwrap()
 
 	return result.Ok(ast.Type{
 		ID:       id,
@@ -211,6 +209,8 @@ func parseFuncType(lexer *lex.Lexer) (res types.Result[ast.FuncType]) {
 		case "result":
 			result := parseResult(lexer).Unwrap()
 			results = append(results, *result)
+		default:
+			return result.Errorf[ast.FuncType]("%w : expected 'param' or 'result' but found '%s'", parseError(tok), tok.Capture)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -225,6 +225,7 @@ func parseTable(lexer *lex.Lexer) (res types.Result[ast.Table]) {
 	defer handle.Error(&res)
 	expectValue(lexer, token.Reserved, "table").Unwrap()
 	id := parseOptionalId(lexer).Unwrap()
+	first := peek(lexer).Unwrap()
 	tableType := parseTableType(lexer).Unwrap()
 	var elements []ast.Element
 	for eat(lexer, token.OpenParen).Unwrap() {
@@ -243,6 +244,10 @@ func parseTable(lexer *lex.Lexer) (res types.Result[ast.Table]) {
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
+	// the limits can only be left out if they follow from the elements
+	if first.Type != token.Integer && len(elements) == 0 {
+		return result.Errorf[ast.Table]("%w : expected limits", parseError(first))
+	}
 	return result.Ok(ast.Table{
 		ID:        id,
 		TableType: tableType,
@@ -268,6 +273,8 @@ func parseTableType(lexer *lex.Lexer) (res types.Result[ast.TableType]) {
 		refType = ast.ExternRef{}
 	case "funcref":
 		refType = ast.FuncRef{}
+	default:
+		return result.Errorf[ast.TableType]("expected 'externref' or 'funcref': %w", parseError(tok))
 	}
 
 	return result.Ok(ast.TableType{
-- 
2.43.0


From c378fded41d21d3ca44c8baaca7969f63161beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:10 +0000
Subject: [PATCH 44/61] fix: require exactly one then and at most one else

---
 wat/parse/parser.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index cf3cf08..cf50b4f 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -673,7 +673,7 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 
 	var results []ast.Result
 	_else := option.None[ast.Else]()
-	var then ast.Then
+	then := option.None[ast.Then]()
 	var instructions []ast.Instruction
 	for eat(lexer, token.OpenParen).Unwrap() {
 		tok = peek(lexer).Unwrap()
@@ -682,24 +682,38 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 			res := parseResult(lexer).Unwrap()
 			results = append(results, *res)
 		case "then":
-			then = parseThen(lexer).Unwrap()
+			if then.IsSome() {
+				return result.Errorf[ast.If]("%w : unexpected '%s'", parseError(tok), tok.Capture)
+			}
+			t := parseThen(lexer).Unwrap()
+			then = option.Some(t)
 		case "else":
+			if then.IsNone() || _else.IsSome() {
+				return result.Errorf[ast.If]("%w : unexpected '%s'", parseError(tok), tok.Capture)
+			}
 			e := parseElse(lexer).Unwrap()
 			_else = option.Some(e)
 		default:
+			if then.IsSome() {
+				return result.Errorf[ast.If]("%w : unexpected '%s'", parseError(tok), tok.Capture)
+			}
 			i := parseInstruction(lexer).Unwrap()
 			instructions = append(instructions, i)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
 
+	if then.IsNone() {
+		return result.Errorf[ast.If]("%w : expected 'then'", parseError(peek(lexer).Unwrap()))
+	}
+
 	return result.Ok(ast.If{
 		Name: name,
 		BlockType: ast.BlockType{
 			Results: results,
 		},
 		Clause: instructions,
-		Then:   then,
+		Then:   then.Unwrap(),
 		Else:   _else,
 	})
 }
-- 
2.43.0


From 57c3aacc63e7521421b0fce03b8720451714dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:12 +0000
Subject: [PATCH 45/61] fix: reject unknown actions and constants in scripts

---
 wast/parse/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index ea40b1f..b72dde2 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -224,6 +224,8 @@ func parseAction(lexer *lex.Lexer) (res types.Result[ast.Action]) {
 		action = parseInvoke(lexer).Unwrap()
 	case "get":
 		action = parseGet(lexer).Unwrap()
+	default:
+		return result.Errorf[ast.Action]("%w : unrecognized action '%s'", parseError(tok), tok.Capture)
 	}
 
 	expect(lexer, token.CloseParen).Unwrap()
@@ -298,8 +300,8 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 		c = ast.F64Const{
 			Value: parseFloat64(lexer).Unwrap(),
 		}
-	case "ref.null":
-	case "ref.extern":
+	case "ref.null", "ref.extern":
+		return result.Errorf[ast.Const]("%w : '%s' is not implemented", parseError(tok), tok.Capture)
 	default:
 		return result.Error[ast.Const](parseError(tok))
 	}
@@ -319,7 +321,7 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 		c := parseConst(lexer).Unwrap()
 		r, ok := c.(ast.Result)
 		if !ok {
-			continue
+			return result.Errorf[[]ast.Result]("unexpected result %T", c)
 		}
 		results = append(results, r)
 		expect(lexer, token.CloseParen).Unwrap()
-- 
2.43.0


From 1208a845a6f0403fcb102f720a79dc10741f8eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:36 +0000
Subject: [PATCH 46/61] fix: report wit lexer errors when looking ahead

---
 wit/lex/lexer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 611ea99..dd53efe 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -71,7 +71,11 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
@@ -323,7 +327,10 @@ func (l *Lexer) readRune() (res types.Option[rune]) {
 }
 
 func (l *Lexer) lexerError() error {
-	return fmt.Errorf("error parsing at line: %d column: %d position: %d", l.line, l.column, l.position)
+	err := fmt.Errorf("error parsing at line: %d column: %d position: %d", l.line, l.column, l.position)
+	// stay in front of the text that is not a token
+	l.position = l.offset
+	return err
 }
 
 func isKeyLikeStart(ch rune) bool {
-- 
2.43.0


From d07fe66e8076f2ea16b97476dcd76376aad8181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:37 +0000
Subject: [PATCH 47/61] fix: only take identifiers for names and know all
 primitive types

---
 wit/lex/lexer.go    |  7 ++++---
 wit/parse/parser.go | 24 ++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index dd53efe..3bcc00a 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -157,9 +157,10 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 	case r == '+':
 		return l.token(token.Plus)
 	case r == '%':
-		if l.eatIf(isKeyLikeStart).Unwrap() {
-			for l.eatIf(isKeyLikeContinue).Unwrap() {
-			}
+		if !l.eatIf(isKeyLikeStart).Unwrap() {
+			return result.Errorf[*token.Token]("%w : expected an identifier after '%%'", l.lexerError())
+		}
+		for l.eatIf(isKeyLikeContinue).Unwrap() {
 		}
 		return l.token(token.ExplicitId)
 
diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 4451f84..28e441a 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -57,7 +57,7 @@ func parsePackageDeclaration(lexer *lex.Lexer) (res types.Result[*ast.PackageDec
 
 	// id
 	packageName := &ast.PackageDeclaration{}
-	packageName.Namespace = next(lexer).Unwrap().Capture
+	packageName.Namespace = parseId(lexer).Unwrap()
 
 	// ':'
 	expect(lexer, token.Colon).Unwrap()
@@ -477,8 +477,26 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	var ty ast.Type
 	switch name.Type {
+	case token.U8:
+		ty = &ast.U8{}
+	case token.U16:
+		ty = &ast.U16{}
 	case token.U32:
 		ty = &ast.U32{}
+	case token.U64:
+		ty = &ast.U64{}
+	case token.S8:
+		ty = &ast.S8{}
+	case token.S16:
+		ty = &ast.S16{}
+	case token.S32:
+		ty = &ast.S32{}
+	case token.S64:
+		ty = &ast.S64{}
+	case token.Char:
+		ty = &ast.Char{}
+	case token.Bool:
+		ty = &ast.Bool{}
 	case token.String:
 		ty = &ast.String{}
 	case token.Float32:
@@ -509,8 +527,10 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 			Id: parseId(lexer).Unwrap(),
 		}
 		expect(lexer, token.Greater).Unwrap()
-	default:
+	case token.Id, token.ExplicitId:
 		ty = &ast.Id{Value: name.Capture}
+	default:
+		return result.Errorf[ast.Type]("%w : found value '%s', type '%v' but expected a type", parseError(name), name.Capture, name.Type)
 	}
 
 	return result.Ok(ty)
-- 
2.43.0


From 305e98bfa7c429f7b235cfbbbee31e64e1b55348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:38 +0000
Subject: [PATCH 48/61] fix: set the item type of lists and options

---
 wit/parse/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 28e441a..11d417f 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -583,7 +583,7 @@ func parseList(lexer *lex.Lexer) (res types.Result[*ast.List]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.List{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
@@ -593,7 +593,7 @@ func parseOption(lexer *lex.Lexer) (res types.Result[*ast.Option]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.Option{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
-- 
2.43.0


From 25fbd7f255397768474d0adf28af76ddab8e5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:39 +0000
Subject: [PATCH 49/61] fix: reject stray and missing tokens in wit files

---
 wit/parse/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 11d417f..7a2bcc3 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -44,6 +44,8 @@ func parseAst(lexer *lex.Lexer) (res types.Result[*ast.Ast]) {
 			item.World = parseWorld(lexer).Unwrap()
 		case token.Interface:
 			item.Interface = parseInterface(lexer).Unwrap()
+		default:
+			return result.Errorf[*ast.Ast]("%w : found '%s' but expected (use, world, interface)", parseError(tok), tok.Capture)
 		}
 		n.Items = append(n.Items, *item)
 
@@ -106,6 +108,7 @@ func parseTopLevelUse(lexer *lex.Lexer) (res types.Result[*ast.TopLevelUse]) {
 	} else {
 		topLevelUse.As = option.None[string]()
 	}
+	expect(lexer, token.Semicolon).Unwrap()
 	return result.Ok(topLevelUse)
 }
 
@@ -211,6 +214,8 @@ func parseResource(lexer *lex.Lexer) (res types.Result[ast.Resource]) {
 			tok = peek(lexer).Unwrap()
 		}
 		expect(lexer, token.CloseBrace).Unwrap()
+	default:
+		return result.Errorf[ast.Resource]("%w : found '%s' but expected ';' or '{'", parseError(tok), tok.Capture)
 	}
 
 	return result.Ok(ast.Resource{
-- 
2.43.0


From add1bbb5fcf5ddf73b67a5c95e9e1f64e967b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:40 +0000
Subject: [PATCH 50/61] fix: parse use paths that name a package

---
 wit/parse/parser.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 7a2bcc3..f6c53a5 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -355,7 +355,6 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 	name := parseId(lexer).Unwrap()
 	version := parseOptionalVersion(lexer).Unwrap()
 	usePath := &ast.UsePath{
-		Id: "string",
 		Package: struct {
 			Id   *ast.PackageDeclaration
 			Name string
@@ -372,7 +371,12 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 }
 
 func parseOptionalVersion(lexer *lex.Lexer) (res types.Result[types.Option[ast.Version]]) {
-	return result.Errorf[types.Option[ast.Version]]("not implemented")
+	defer handle.Error(&res)
+	if !eat(lexer, token.At).Unwrap() {
+		return result.Ok(option.None[ast.Version]())
+	}
+	version := parseVersion(lexer).Unwrap()
+	return result.Ok(option.Some(*version))
 }
 
 func parseFuncItem(lexer *lex.Lexer) (res types.Result[*ast.FuncItem]) {
@@ -776,6 +780,13 @@ func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 			ID:             id,
 			InterfaceItems: parseInterfaceItems(lexer).Unwrap(),
 		})
+	case token.Id, token.ExplicitId:
+		usePath := parseUsePath(lexer).Unwrap()
+		expect(lexer, token.Semicolon).Unwrap()
+
+		return result.Ok[ast.ExternType](&ast.ExternTypeUsePath{
+			UsePath: usePath,
+		})
 	}
 
 	return result.Errorf[ast.ExternType]("unable to parse ExternType %w", parseError(tok))
-- 
2.43.0


From 4d4a569fdcbf8ae1e09a299ff3fb47aa2751d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:41 +0000
Subject: [PATCH 51/61] fix: separate included names by commas

---
 wit/parse/parser.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index f6c53a5..3a2add3 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -725,16 +725,10 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	}
 
 	if eat(lexer, token.With).Unwrap() {
-		expect(lexer, token.OpenBrace).Unwrap()
-		for !eat(lexer, token.CloseBrace).Unwrap() {
-			id := parseId(lexer).Unwrap()
-			expect(lexer, token.As).Unwrap()
-			as := parseId(lexer).Unwrap()
-			include.Names = append(include.Names, ast.IncludeName{
-				Name: id,
-				As:   as,
-			})
-		}
+		include.Names = parseItemList(
+			lexer,
+			token.OpenBrace, token.CloseBrace,
+			parseIncludeName).Unwrap()
 	} else {
 		expect(lexer, token.Semicolon).Unwrap()
 	}
@@ -742,6 +736,17 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	return result.Ok[ast.WorldItem](include)
 }
 
+func parseIncludeName(lexer *lex.Lexer) (res types.Result[ast.IncludeName]) {
+	defer handle.Error(&res)
+	id := parseId(lexer).Unwrap()
+	expect(lexer, token.As).Unwrap()
+	as := parseId(lexer).Unwrap()
+	return result.Ok(ast.IncludeName{
+		Name: id,
+		As:   as,
+	})
+}
+
 func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 	defer handle.Error(&res)
 
-- 
2.43.0


From b818d1ba69b91db715c0d879a774abcd063c6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:42 +0000
Subject: [PATCH 52/61] fix: support flags and enums in worlds

---
 wit/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 3a2add3..b1470ea 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -683,6 +683,10 @@ func parseWorldItem(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 		worldItem = parseVariant(lexer).Unwrap()
 	case token.Resource:
 		worldItem = parseResource(lexer).Unwrap()
+	case token.Flags:
+		worldItem = parseFlags(lexer).Unwrap()
+	case token.Enum:
+		worldItem = parseEnum(lexer).Unwrap()
 	case token.Include:
 		worldItem = parseInclude(lexer).Unwrap()
 
-- 
2.43.0


From 178425ca566636c68b1d398f9cfedbde6163d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:44 +0000
Subject: [PATCH 53/61] fix: parse version numbers as 64 bit decimals

---
 wit/parse/parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index b1470ea..631022f 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -91,9 +91,9 @@ func parseVersion(lexer *lex.Lexer) (res types.Result[*ast.Version]) {
 	patch := parseInteger(lexer).Unwrap()
 
 	return result.Ok(&ast.Version{
-		Major: uint64(major),
-		Minor: uint64(minor),
-		Patch: uint64(patch),
+		Major: major,
+		Minor: minor,
+		Patch: patch,
 	})
 }
 
@@ -937,15 +937,15 @@ func parseId(lexer *lex.Lexer) (res types.Result[string]) {
 	}
 }
 
-func parseInteger(lexer *lex.Lexer) (res types.Result[int64]) {
+func parseInteger(lexer *lex.Lexer) (res types.Result[uint64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	switch tok.Type {
 	case token.Integer:
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
+		i, err := strconv.ParseUint(tok.Capture, 10, 64)
 		return result.New(i, err)
 	default:
-		return result.Errorf[int64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
+		return result.Errorf[uint64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
 	}
 }
 func eat(lexer *lex.Lexer, tokenType token.TokenType) (res types.Result[bool]) {
-- 
2.43.0


From 9da82cf16640488b07337e8b25825020053d4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:58 +0000
Subject: [PATCH 54/61] fix: check the addresses of all string helpers without
 32 bit overflow

---
 abi/io/store.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/abi/io/store.go b/abi/io/store.go
index a4a08bb..95d9756 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -352,8 +352,8 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 	if ptr != align {
 		return 0, 0, types.TrapWith("ptr %d is not aligned to destination %d", ptr, dstAlignment)
 	}
-	if ptr+dstByteLength > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("array size %d is greater than the memory size %d", ptr+dstByteLength, cx.Options.Memory.Len())
+	if uint64(ptr)+uint64(dstByteLength) > uint64(cx.Options.Memory.Len()) {
+		return 0, 0, types.TrapWith("string end %d is greater than the memory size %d", uint64(ptr)+uint64(dstByteLength), cx.Options.Memory.Len())
 	}
 
 	encoded, err := encoding.EncodeString(dstEncoding, src)
@@ -388,8 +388,8 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 		return 0, 0, types.TrapWith("ptr %d is not alinged to 2", ptr)
 	}
 
-	if ptr+worstCaseSize > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("worst case size %d is greater than memory size %d", ptr+worstCaseSize, cx.Options.Memory.Len())
+	if uint64(ptr)+uint64(worstCaseSize) > uint64(cx.Options.Memory.Len()) {
+		return 0, 0, types.TrapWith("worst case end %d is greater than memory size %d", uint64(ptr)+uint64(worstCaseSize), cx.Options.Memory.Len())
 	}
 
 	encoded, err := encoding.EncodeString(encoding.NewUTF16(), src)
@@ -397,8 +397,7 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 		return 0, 0, err
 	}
 
-	hiPtr := ptr + uint32(len(encoded))
-	buf := cx.Options.Memory.Bytes()[ptr:hiPtr]
+	buf := cx.Options.Memory.Bytes()[ptr : ptr+uint32(len(encoded))]
 	copy(buf, encoded)
 
 	if len(encoded) < int(worstCaseSize) {
@@ -415,7 +414,8 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 			return 0, 0, types.TrapWith("ptr %d could not be aligned to 2", ptr)
 		}
 
-		if hiPtr > uint32(cx.Options.Memory.Len()) {
+		hiPtr := uint64(ptr) + uint64(len(encoded))
+		if hiPtr > uint64(cx.Options.Memory.Len()) {
 			return 0, 0, types.TrapWith("ptr %d is greater than memory size %d", hiPtr, cx.Options.Memory.Len())
 		}
 	}
-- 
2.43.0


From fa6a18240aa02eb4be78e120319670a10e96f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:25 +0000
Subject: [PATCH 55/61] fix: reject results after the condition or the branches
 of an if

---
 wat/parse/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index cf50b4f..cea1329 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -679,6 +679,9 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 		tok = peek(lexer).Unwrap()
 		switch tok.Capture {
 		case "result":
+			if len(instructions) > 0 || then.IsSome() {
+				return result.Errorf[ast.If]("%w : unexpected '%s'", parseError(tok), tok.Capture)
+			}
 			res := parseResult(lexer).Unwrap()
 			results = append(results, *res)
 		case "then":
-- 
2.43.0


From 81b6a76185d7deac9b7c5ad2b8614456ad760f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:59 +0000
Subject: [PATCH 56/61] fix: report text that ends inside of a character when
 encoding

---
 encoding/codec.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/encoding/codec.go b/encoding/codec.go
index 4ba55af..a85fc66 100644
--- a/encoding/codec.go
+++ b/encoding/codec.go
@@ -4,6 +4,7 @@ import (
 	"io"
 
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 type Codec interface {
@@ -37,9 +38,13 @@ type codec struct {
 
 func (c *codec) Encode(dst io.Writer, src io.Reader) error {
 	encoder := c.enc.NewEncoder()
-	writer := encoder.Writer(dst)
+	writer := transform.NewWriter(dst, encoder)
 	_, err := io.Copy(writer, src)
-	return err
+	if err != nil {
+		return err
+	}
+	// the text may end inside of a character
+	return writer.Close()
 }
 
 func (c *codec) Decode(dst io.Writer, src io.Reader) error {
-- 
2.43.0


From 121aee1bbfb8fa17c7c681b33b249c7c32a6b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:09 +0000
Subject: [PATCH 57/61] fix: trap on strings longer than the maximum string
 byte length

Lowering a string took the encoded length modulo 2^32 and never compared
it with MaxStringByteLength. A string of 4 GiB or more was stored
truncated, and a Latin-1 string of 2^31 bytes or more ran into the UTF-16
tag bit.
---
 abi/io/store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 95d9756..f8dba2c 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -248,6 +248,9 @@ func StoreString(c *types.CallContext, str string, ptr uint32) error {
 }
 
 func StoreStringIntoRange(cx *types.CallContext, str string) (uint32, uint32, error) {
+	if uint64(len(str)) > uint64(types.MaxStringByteLength) {
+		return 0, 0, types.TrapWith("string byte length %d is greater than max string byte length %d", len(str), types.MaxStringByteLength)
+	}
 	if !utf8.ValidString(str) {
 		return 0, 0, fmt.Errorf("string %q is not valid utf-8", str)
 	}
-- 
2.43.0


From fc49daf366e92475a9c7364df8288f3e269adec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:15 +0000
Subject: [PATCH 58/61] fix: do not wrap the end of a value that ends a 4 GiB
 memory

---
 abi/io/load.go  |  2 +-
 abi/io/store.go | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index 2b6aca5..4aebc13 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -165,7 +165,7 @@ func LoadInt(c *types.CallContext, ptr uint32, t types.ValType) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	buf := c.Options.Memory.Bytes()[ptr : ptr+size]
+	buf := c.Options.Memory.Bytes()[ptr : uint64(ptr)+uint64(size)]
 	switch t.(type) {
 	case types.U8:
 		return buf[0], nil
diff --git a/abi/io/store.go b/abi/io/store.go
index f8dba2c..b1de157 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -134,7 +134,7 @@ func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error
 }
 
 func StoreUInt32(c *types.CallContext, val uint32, ptr uint32) error {
-	buf := c.Options.Memory.Bytes()[ptr : ptr+SizeOfU32]
+	buf := c.Options.Memory.Bytes()[ptr : uint64(ptr)+uint64(SizeOfU32)]
 	binary.LittleEndian.PutUint32(buf, val)
 	return nil
 }
@@ -215,7 +215,7 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		return fmt.Errorf("invalid integer %d does not fit in %d bytes", val, nbytes)
 	}
 
-	buf := c.Options.Memory.Bytes()[ptr : ptr+nbytes]
+	buf := c.Options.Memory.Bytes()[ptr : uint64(ptr)+uint64(nbytes)]
 	switch nbytes {
 	case SizeOfS8:
 		buf[0] = uint8(u64)
@@ -331,7 +331,7 @@ func StoreStringDynamic(
 		return 0, 0, types.TrapWith("string end %d is greater than the memory size %d", uint64(ptr)+uint64(lenEncoded), cx.Options.Memory.Len())
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+lenEncoded]
+	buf := cx.Options.Memory.Bytes()[ptr : uint64(ptr)+uint64(lenEncoded)]
 	copy(buf, encoded)
 
 	// return the pointer and the adjusted length (in runes)
@@ -364,7 +364,7 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 		return 0, 0, err
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+dstByteLength]
+	buf := cx.Options.Memory.Bytes()[ptr : uint64(ptr)+uint64(dstByteLength)]
 	copy(buf, encoded)
 
 	return ptr, srcCodeUnits, err
@@ -400,7 +400,7 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 		return 0, 0, err
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+uint32(len(encoded))]
+	buf := cx.Options.Memory.Bytes()[ptr : uint64(ptr)+uint64(len(encoded))]
 	copy(buf, encoded)
 
 	if len(encoded) < int(worstCaseSize) {
-- 
2.43.0


From f68338ac91bb629406e22c761542b78ec024e415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:32:22 +0000
Subject: [PATCH 59/61] fix: reject text after the module when decoding the
 text format

---
 wat/decoder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wat/decoder.go b/wat/decoder.go
index 5a47e43..8a553cf 100644
--- a/wat/decoder.go
+++ b/wat/decoder.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuber/go-wasm/wat/ast"
 	"github.com/patrickhuber/go-wasm/wat/lex"
 	"github.com/patrickhuber/go-wasm/wat/parse"
+	"github.com/patrickhuber/go-wasm/wat/token"
 )
 
 type Decoder interface {
@@ -34,6 +35,14 @@ func (d *decoder) Decode(reader io.Reader) (api.Directive, error) {
 	if err != nil {
 		return nil, err
 	}
+	// only whitespace and comments can follow the module or component
+	tok, err := parse.Peek(lexer)
+	if err != nil {
+		return nil, err
+	}
+	if tok.Type != token.EndOfStream {
+		return nil, fmt.Errorf("unexpected '%s' at line %d, column %d", tok.Capture, tok.Line+1, tok.Column+1)
+	}
 	return d.directive(directive)
 }
 
-- 
2.43.0


From 0b367a7a281f68b3d58652836eb84e7671242be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:26 +0000
Subject: [PATCH 60/61] fix: create the map of handle tables on first use

---
 abi/types/handle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index b360d5c..e640034 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -74,6 +74,9 @@ func (ht *HandleTables) Table(rt ResourceType) *HandleTable {
 	t, ok := ht.ResourceTypeToTable[rt]
 	if !ok {
 		t = &HandleTable{}
+		if ht.ResourceTypeToTable == nil {
+			ht.ResourceTypeToTable = map[ResourceType]*HandleTable{}
+		}
 		ht.ResourceTypeToTable[rt] = t
 	}
 	return t
-- 
2.43.0


From 7b41d6730398c82516eb8277085d379314796e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:25 +0000
Subject: [PATCH 61/61] fix: drop handles of resources that no instance
 implements

---
 abi/io/canon.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon.go b/abi/io/canon.go
index fcdfdd9..a43b205 100644
--- a/abi/io/canon.go
+++ b/abi/io/canon.go
@@ -26,7 +26,8 @@ func CanonResourceDrop(inst *types.ComponentInstance, rt types.ResourceType, i u
 	if !h.Own {
 		return nil
 	}
-	if inst != rt.Impl() && !rt.Impl().MayEnter {
+	// resources of the host are not implemented by an instance
+	if rt.Impl() != nil && inst != rt.Impl() && !rt.Impl().MayEnter {
 		return types.TrapWith("ComponentInstance != ResourceType.Impl and ResourceType.Impl.MayEnter == false")
 	}
 	if rt.DTor() != nil {
-- 
2.43.0

