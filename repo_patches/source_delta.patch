From e5cfee07c56a62ea68aa848aa91f8eea73efffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:56 +0000
Subject: [PATCH 01/57] fix: return the freed handle index to the free list

Removing a handle pushed the length of the free list instead of the index
of the removed slot. The next Add then reused a slot that was still live or
failed outright.
---
 abi/types/handle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index a4a41a1..b360d5c 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -59,7 +59,7 @@ func (ht *HandleTable) Remove(rt ResourceType, i uint32) (*HandleElem, error) {
 		return nil, TrapWith("handle table end count != 0")
 	}
 	ht.Array[i] = nil
-	ht.Free = stack.Push(ht.Free, uint32(len(ht.Free)))
+	ht.Free = stack.Push(ht.Free, i)
 	if h.Scope != nil {
 		h.Scope.RemoveBorrowFromTable()
 	}
-- 
2.43.0


From e01c42d31955b535f4e59edc2c57881a67d7f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:57 +0000
Subject: [PATCH 02/57] fix: trap when a borrowed handle is lifted as an owned
 one

A guest could turn a handle it only borrowed into ownership by passing it
where own is expected.
---
 abi/io/lift.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 79abc1a..12f0a12 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -9,7 +9,14 @@ import (
 )
 
 func LiftOwn(cx *types.CallContext, i uint32, own types.Own) (uint32, error) {
-	h, err := cx.Instance.Handles.Remove(own.ResourceType(), i)
+	h, err := cx.Instance.Handles.Get(own.ResourceType(), i)
+	if err != nil {
+		return 0, err
+	}
+	if !h.Own {
+		return 0, types.TrapWith("handle %d is not an owned handle", i)
+	}
+	h, err = cx.Instance.Handles.Remove(own.ResourceType(), i)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 894c5b88cd4ff3caae80e8db6555df51e8704fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:58 +0000
Subject: [PATCH 03/57] fix: forbid re-entering an instance while it calls an
 import

CanonLower set MayEnter back to true after calling an import but never set
it to false before, so the callee could re-enter the caller.
---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index f3e3143..8bd380b 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -30,6 +30,9 @@ func CanonLower(
 	if !inst.MayEnter {
 		return nil, fmt.Errorf("CanonLower : ComponentInstance MayLeave must be true")
 	}
+	if callingImport {
+		inst.MayEnter = false
+	}
 	args, err := collections.Select(flatArgs, func(source any) (values.Value, error) {
 		result, ok := any(source).(values.Value)
 		if !ok {
-- 
2.43.0


From 6eccfdc760fc808a6160ab896ead9512c1b6d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:59 +0000
Subject: [PATCH 04/57] fix: report outstanding borrows at the end of a lowered
 call

The trap raised when a call ends with borrowed handles still in the table
was dropped.
---
 abi/io/canon_lower.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 8bd380b..f06764b 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -63,7 +63,9 @@ func CanonLower(
 	inst.MayLeave = true
 
 	postReturn()
-	cx.ExitCall()
+	if err := cx.ExitCall(); err != nil {
+		return nil, err
+	}
 
 	if callingImport {
 		inst.MayEnter = true
-- 
2.43.0


From 06304c61ae06f71cece34584af08287006de3b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:24 +0000
Subject: [PATCH 05/57] fix: store values that do not fit the flat limit

Parameter and result lists with more core values than allowed are passed
through memory. The memory was reserved but never written, the address was
not a core value and results written to the caller's area were returned a
second time.
---
 abi/io/canon_lower.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index f06764b..6b6c213 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -141,5 +141,12 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr+size > uint32(cx.Options.Memory.Len()) {
 		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
 	}
-	return []any{ptr}, nil
+	if err := Store(cx, tupleValue, tupleType, ptr); err != nil {
+		return nil, err
+	}
+	if outParam != nil {
+		// the results are where the caller asked for them
+		return []any{}, nil
+	}
+	return []any{values.U32(ptr)}, nil
 }
-- 
2.43.0


From 980d7160b0ddc619e6840fb306cbb3ac9a21f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:25 +0000
Subject: [PATCH 06/57] fix: keep the order of values lifted from memory

Values passed through memory were collected by ranging over a map, so
their order was random.
---
 abi/io/canon_lift.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 925670a..b371d59 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/patrickhuber/go-wasm/abi/kind"
 	"github.com/patrickhuber/go-wasm/abi/types"
@@ -136,8 +137,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 	}
 
 	values := []any{}
-	for _, v := range m {
-		values = append(values, v)
+	for i := range ts {
+		values = append(values, m[strconv.Itoa(i)])
 	}
 	return values, nil
 }
-- 
2.43.0


From b5d7c40769a3126f52fa9f91ffd66ee6e88724dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:26 +0000
Subject: [PATCH 07/57] fix: reject value lists of the wrong length when
 lowering

Too many values indexed past the end of the types, too few were silently
accepted.
---
 abi/io/canon_lower.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 6b6c213..e912768 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -74,6 +74,10 @@ func CanonLower(
 }
 
 func LowerValues(cx *types.CallContext, maxFlat int, vs []any, ts []types.ValType, outParam values.ValueIterator) ([]any, error) {
+	if len(vs) != len(ts) {
+		return nil, fmt.Errorf("expected %d values found %d", len(ts), len(vs))
+	}
+
 	flatTypes, err := FlattenTypes(ts)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From dc523beafb4457d8a922d3bfd1a828dd412a2ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:27 +0000
Subject: [PATCH 08/57] fix: return an error when a value iterator is exhausted

Next only checked for an empty iterator and panicked after the last value.
---
 abi/values/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/values/value.go b/abi/values/value.go
index 3bdcd3c..f996387 100644
--- a/abi/values/value.go
+++ b/abi/values/value.go
@@ -30,7 +30,7 @@ type valueIterator struct {
 }
 
 func (vi *valueIterator) Next(k kind.Kind) (any, error) {
-	if vi.Length() == 0 {
+	if vi.index >= vi.Length() {
 		return nil, fmt.Errorf("eof")
 	}
 
-- 
2.43.0


From 2d50b27e779edcc392390880de8d1a82b81b368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:57 +0000
Subject: [PATCH 09/57] fix: check guest addresses without wrapping when
 loading

Bounds were computed with 32 bit arithmetic, so a length close to 2^32 or
an address close to the end of the address space passed the check and the
slice expression panicked. Scalars were loaded with no check at all.
---
 abi/io/canon_lift.go |  2 +-
 abi/io/load.go       | 22 ++++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index b371d59..d64f478 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -122,7 +122,7 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 		return nil, err
 	}
 
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
+	if !inBounds(cx, ptr, uint64(size)) {
 		return nil, types.TrapWith("ptr %d + offset %d is greater than len(memory) %d", ptr, size, cx.Options.Memory.Len())
 	}
 
diff --git a/abi/io/load.go b/abi/io/load.go
index 9be637e..137bb23 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -64,6 +64,12 @@ func Load(cx *types.CallContext, t types.ValType, ptr uint32) (any, error) {
 	return nil, fmt.Errorf("unrecognized type %T", t)
 }
 
+// inBounds reports whether size bytes at ptr lie in the context memory. The
+// operands are 64 bits wide because guests choose them freely.
+func inBounds(cx *types.CallContext, ptr uint32, size uint64) bool {
+	return uint64(ptr)+size <= uint64(cx.Options.Memory.Len())
+}
+
 func LoadChar(cx *types.CallContext, ptr uint32, t types.ValType) (any, error) {
 	switch t.(type) {
 	case types.Char:
@@ -135,6 +141,9 @@ func LoadInt(c *types.CallContext, ptr uint32, t types.ValType) (any, error) {
 	if err != nil {
 		return nil, err
 	}
+	if !inBounds(c, ptr, uint64(size)) {
+		return nil, types.TrapWith("ptr %d + size %d is greater than memory size %d", ptr, size, c.Options.Memory.Len())
+	}
 	buf := c.Options.Memory.Bytes()[ptr : ptr+size]
 	switch t.(type) {
 	case types.U8:
@@ -233,7 +242,7 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", err
 	}
 
-	byteLength := tcu.CodeUnits * uint32(codec.RuneSize())
+	byteLength := uint64(tcu.CodeUnits) * uint64(codec.RuneSize())
 	align, err := AlignTo(ptr, uint32(codec.Alignment()))
 
 	if err != nil {
@@ -244,11 +253,11 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", types.TrapWith("error aligning ptr %d to %d", ptr, uint32(codec.Alignment()))
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return "", types.TrapWith("destination %d > memory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	if !inBounds(cx, ptr, byteLength) {
+		return "", types.TrapWith("destination %d > memory size %d", uint64(ptr)+byteLength, cx.Options.Memory.Len())
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+byteLength]
+	buf := cx.Options.Memory.Bytes()[ptr : uint64(ptr)+byteLength]
 	return encoding.DecodeString(codec, bytes.NewReader(buf))
 }
 
@@ -283,8 +292,9 @@ func LoadListFromRange(cx *types.CallContext, ptr uint32, length uint32, element
 	if err != nil {
 		return nil, err
 	}
-	if ptr+length*size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("destination size %d is greater than memory size %d", ptr+length*size, cx.Options.Memory.Len())
+	byteLength := uint64(length) * uint64(size)
+	if !inBounds(cx, ptr, byteLength) {
+		return nil, types.TrapWith("destination size %d is greater than memory size %d", uint64(ptr)+byteLength, cx.Options.Memory.Len())
 	}
 	var list []any
 	var i uint32 = 0
-- 
2.43.0


From 9be1fe702559df7af9d3957bf7ee422f70422561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 10/57] fix: check allocated addresses without wrapping when
 storing

An allocator answering with an address near the end of the address space
passed the 32 bit bounds check. Strings were written to whatever address
the allocator returned, without checking alignment or bounds.
---
 abi/io/canon_lower.go |  2 +-
 abi/io/store.go       | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index e912768..ac3ebad 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -142,7 +142,7 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr != align {
 		return nil, fmt.Errorf("ptr %d does not align to %d", ptr, align)
 	}
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
+	if !inBounds(cx, ptr, uint64(size)) {
 		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
 	}
 	if err := Store(cx, tupleValue, tupleType, ptr); err != nil {
diff --git a/abi/io/store.go b/abi/io/store.go
index 54e959c..43cda4e 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -90,8 +90,8 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 		return err
 	}
 
-	if ptr+size > uint32(c.Options.Memory.Len()) {
-		return fmt.Errorf("Store: %d exceeds memory length %d", ptr+size, c.Options.Memory.Len())
+	if !inBounds(c, ptr, uint64(size)) {
+		return fmt.Errorf("Store: %d exceeds memory length %d", uint64(ptr)+uint64(size), c.Options.Memory.Len())
 	}
 
 	return err
@@ -281,6 +281,18 @@ func StoreStringDynamic(
 		return 0, 0, err
 	}
 
+	align, err := AlignTo(ptr, dstAlignment)
+	if err != nil {
+		return 0, 0, err
+	}
+	if ptr != align {
+		return 0, 0, types.TrapWith("ptr %d is not aligned to %d", ptr, dstAlignment)
+	}
+
+	if !inBounds(cx, ptr, uint64(lenEncoded)) {
+		return 0, 0, types.TrapWith("ptr %d + size %d is greater than memory size %d", ptr, lenEncoded, cx.Options.Memory.Len())
+	}
+
 	buf := cx.Options.Memory.Bytes()[ptr : ptr+lenEncoded]
 	copy(buf, encoded)
 
@@ -401,8 +413,8 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 	}
 
 	byteLengthInt := len(slice) * int(size)
-	if byteLengthInt >= math.MaxInt {
-		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, math.MaxInt)
+	if byteLengthInt > math.MaxUint32 {
+		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, uint32(math.MaxUint32))
 	}
 	byteLength := uint32(byteLengthInt)
 
@@ -424,7 +436,7 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, types.TrapWith("ptr %d not aligned to %d", ptr, alignment)
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
+	if !inBounds(cx, ptr, uint64(byteLength)) {
 		return 0, 0, types.TrapWith("ptr %d exceeds mememory size %d", ptr+byteLength, cx.Options.Memory.Len())
 	}
 
-- 
2.43.0


From 331a8fc5ac35ae1630a80d186d107258f4bdf1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:17 +0000
Subject: [PATCH 11/57] fix: store own and borrow handles

Handles could be loaded from memory but storing one failed with an
unrecognized type.
---
 abi/io/store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 43cda4e..86ebb4c 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -67,6 +67,18 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		return StoreVariant(c, val, ptr, vt)
 	case types.Flags:
 		return StoreFlags(c, val, ptr, vt)
+	case types.Own:
+		i, err := LowerOwn(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreUInt32(c, i, ptr)
+	case types.Borrow:
+		i, err := LowerBorrow(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreUInt32(c, i, ptr)
 	}
 	return types.TrapWith("Store: unrecognized type %T", t)
 }
-- 
2.43.0


From 4fb17f319615495d7600ccc1c8bec73fab8d3b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:18 +0000
Subject: [PATCH 12/57] fix: report variant cases that have no alignment

The error was replaced by an alignment of zero.
---
 abi/io/alignment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abi/io/alignment.go b/abi/io/alignment.go
index 03b08dc..8d6d89b 100644
--- a/abi/io/alignment.go
+++ b/abi/io/alignment.go
@@ -75,11 +75,11 @@ func AlignmentVariant(v types.Variant) (uint32, error) {
 	}
 	alignment, err := Alignment(dt)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	maxAlignment, err := MaxCaseAlignment(v.Cases())
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	return max(alignment, maxAlignment), nil
 }
-- 
2.43.0


From 3552b2d2ab3c8a68b14176d429804a1cde619c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:54 +0000
Subject: [PATCH 13/57] fix: support flags with more than 64 labels

Flags were packed into a single 64 bit integer. Labels beyond that were
lost when stored and could not be loaded.
---
 abi/io/lift.go  |  8 +++-----
 abi/io/load.go  | 48 +++++++++++++++++++-----------------------------
 abi/io/lower.go | 12 +++---------
 abi/io/math.go  |  7 +++++++
 abi/io/store.go | 27 ++++++++++++++++-----------
 5 files changed, 48 insertions(+), 54 deletions(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 12f0a12..8e1d089 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -330,8 +330,7 @@ func LiftFlatVariant(cx *types.CallContext, vi values.ValueIterator, variant typ
 }
 
 func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
-	var flat uint64 = 0
-	shift := 0
+	var flat []uint32
 	numFlags := NumI32Flags(f.Labels())
 	for i := 0; i < int(numFlags); i++ {
 		next, err := vi.Next(kind.U32)
@@ -342,8 +341,7 @@ func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
 		if !ok {
 			return nil, types.NewCastError(next, "int32")
 		}
-		flat |= (uint64(u32Next) << shift)
-		shift += 32
+		flat = append(flat, u32Next)
 	}
-	return UnpackFlagsFromInt(flat, f.Labels()), nil
+	return UnpackFlagsFromInts(flat, f.Labels()), nil
 }
diff --git a/abi/io/load.go b/abi/io/load.go
index 137bb23..9384fe1 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -423,40 +423,30 @@ func LoadFlags(cx *types.CallContext, ptr uint32, flags types.Flags) (map[string
 		return nil, err
 	}
 
-	i, err := LoadIntWithSize(cx, ptr, size, false)
-	if err != nil {
-		return nil, err
-	}
-
-	var ui uint64 = 0
-	switch size {
-	case 1:
-		ui = uint64(i.(uint8))
-	case 2:
-		ui = uint64(i.(uint16))
-	case 4:
-		ui = uint64(i.(uint32))
-	case 8:
-		ui = i.(uint64)
-	}
-	flagMap := map[string]any{}
-	for _, label := range flags.Labels() {
-		v := ui & 1
-		b := false
-		if v > 0 {
-			b = true
+	var packed []uint32
+	for offset := uint32(0); offset < size; offset += SizeOfU32 {
+		// the last word is shorter if there are few flags
+		i, err := LoadIntWithSize(cx, ptr+offset, min(size, SizeOfU32), false)
+		if err != nil {
+			return nil, err
+		}
+		switch word := i.(type) {
+		case uint8:
+			packed = append(packed, uint32(word))
+		case uint16:
+			packed = append(packed, uint32(word))
+		case uint32:
+			packed = append(packed, word)
 		}
-		flagMap[label] = b
-		ui >>= 1
 	}
-	return flagMap, nil
+	return UnpackFlagsFromInts(packed, flags.Labels()), nil
 }
 
-func UnpackFlagsFromInt(i uint64, labels []string) map[string]any {
+// UnpackFlagsFromInts is the reverse of PackFlagsIntoInts
+func UnpackFlagsFromInts(packed []uint32, labels []string) map[string]any {
 	unpacked := map[string]any{}
-	for _, label := range labels {
-		unpacked[label] = (i&1 == 1)
-		i >>= 1
+	for i, label := range labels {
+		unpacked[label] = packed[i/32]>>(i%32)&1 == 1
 	}
 	return unpacked
 }
diff --git a/abi/io/lower.go b/abi/io/lower.go
index d0d93cb..16809a2 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -224,19 +224,13 @@ func LowerFlatFlags(cx *types.CallContext, v any, f types.Flags) ([]values.Value
 	if !ok {
 		return nil, types.NewCastError(v, "map[string]any")
 	}
-	packed, err := PackFlagsIntoInt(vMap, f)
+	packed, err := PackFlagsIntoInts(vMap, f)
 	if err != nil {
 		return nil, err
 	}
 	var flat []values.Value
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
-		u32 := values.U32(packed & 0xffffffff)
-		flat = append(flat, u32)
-		packed >>= 32
-	}
-	if packed != 0 {
-		return nil, fmt.Errorf("invalid flag value")
+	for _, word := range packed {
+		flat = append(flat, values.U32(word))
 	}
 	return flat, nil
 }
diff --git a/abi/io/math.go b/abi/io/math.go
index 60f9e8b..67f452b 100644
--- a/abi/io/math.go
+++ b/abi/io/math.go
@@ -8,3 +8,10 @@ func max[T constraints.Ordered](left, right T) T {
 	}
 	return right
 }
+
+func min[T constraints.Ordered](left, right T) T {
+	if left < right {
+		return left
+	}
+	return right
+}
diff --git a/abi/io/store.go b/abi/io/store.go
index 86ebb4c..9ac4309 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -538,7 +538,7 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 
 func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error {
 	vMap := val.(map[string]any)
-	i, err := PackFlagsIntoInt(vMap, f)
+	packed, err := PackFlagsIntoInts(vMap, f)
 	if err != nil {
 		return err
 	}
@@ -546,7 +546,14 @@ func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error
 	if err != nil {
 		return err
 	}
-	return StoreInt(c, i, ptr, size, false)
+	for i, word := range packed {
+		// the last word is shorter if there are few flags
+		err = StoreInt(c, word, ptr+uint32(i)*SizeOfU32, min(size, SizeOfU32), false)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func ToMapStringAny(val any) (map[string]any, error) {
@@ -557,21 +564,19 @@ func ToMapStringAny(val any) (map[string]any, error) {
 	return nil, types.NewCastError(val, "map[string]any")
 }
 
-func PackFlagsIntoInt(v map[string]any, flags types.Flags) (uint64, error) {
-	var packed uint64 = 0
-	shift := 0
-	for _, label := range flags.Labels() {
+// PackFlagsIntoInts packs the flags into 32 bit words, the first label being
+// the lowest bit of the first word
+func PackFlagsIntoInts(v map[string]any, flags types.Flags) ([]uint32, error) {
+	packed := make([]uint32, NumI32Flags(flags.Labels()))
+	for i, label := range flags.Labels() {
 		val := v[label]
 		b, ok := val.(bool)
 		if !ok {
-			return 0, types.NewCastError(val, "bool")
+			return nil, types.NewCastError(val, "bool")
 		}
-		var i uint64 = 0
 		if b {
-			i = 1
+			packed[i/32] |= 1 << (i % 32)
 		}
-		packed |= i << shift
-		shift += 1
 	}
 
 	return packed, nil
-- 
2.43.0


From b6ac74dc82bf238a78faf8f244a53649ef5e2795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:55 +0000
Subject: [PATCH 14/57] fix: return cast errors for host values of the wrong
 type

Lowering or storing a char, string, float or flags value of another Go type
panicked, and storing any other type as an integer wrote a zero.
---
 abi/io/lower.go | 10 ++++++++--
 abi/io/store.go | 17 ++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index 16809a2..7a89d91 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -170,13 +170,19 @@ func LowerFloat64(v any) ([]values.Value, error) {
 }
 
 func LowerChar(v any) ([]values.Value, error) {
-	r := v.(rune)
+	r, ok := v.(rune)
+	if !ok {
+		return nil, types.NewCastError(v, "rune")
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
 
 func LowerString(cx *types.CallContext, v any) ([]values.Value, error) {
-	str := v.(string)
+	str, ok := v.(string)
+	if !ok {
+		return nil, types.NewCastError(v, "string")
+	}
 	ptr, packedLength, err := StoreStringIntoRange(cx, str)
 	if err != nil {
 		return nil, err
diff --git a/abi/io/store.go b/abi/io/store.go
index 9ac4309..ca4e762 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -111,12 +111,18 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 
 func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error {
 	if nbytes == SizeOfFloat32 {
-		f := val.(float32)
+		f, ok := val.(float32)
+		if !ok {
+			return types.NewCastError(val, "float32")
+		}
 		f = CanonicalizeFloat32(f)
 		i := math.Float32bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
 	} else {
-		f := val.(float64)
+		f, ok := val.(float64)
+		if !ok {
+			return types.NewCastError(val, "float64")
+		}
 		f = CanonicalizeFloat64(f)
 		i := math.Float64bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
@@ -171,6 +177,8 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		return fmt.Errorf("unable to store int. Use sized variant")
 	case uint:
 		return fmt.Errorf("unable to store uint. Use sized variant")
+	default:
+		return types.NewCastError(val, "integer")
 	}
 
 	if sign != signed {
@@ -537,7 +545,10 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 }
 
 func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error {
-	vMap := val.(map[string]any)
+	vMap, err := ToMapStringAny(val)
+	if err != nil {
+		return err
+	}
 	packed, err := PackFlagsIntoInts(vMap, f)
 	if err != nil {
 		return err
-- 
2.43.0


From aee560be5b2109f179ac651e868d49fd9db51f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:56 +0000
Subject: [PATCH 15/57] fix: reject integers that do not fit the stored type

The range of a value was checked against the limits of its own Go type, so
the check never failed and wide values were silently truncated.
---
 abi/io/store.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/abi/io/store.go b/abi/io/store.go
index ca4e762..330cd18 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -137,42 +137,28 @@ func StoreUInt32(c *types.CallContext, val uint32, ptr uint32) error {
 
 func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed bool) error {
 	var u64 uint64
-	var max uint64
-	var min int64 = 0
 	sign := false
 	switch t := val.(type) {
 	case uint8:
 		u64 = uint64(t)
-		max = math.MaxUint8
 	case uint16:
 		u64 = uint64(t)
-		max = math.MaxUint16
 	case uint32:
 		u64 = uint64(t)
-		max = math.MaxUint32
 	case uint64:
 		u64 = t
-		max = math.MaxUint64
 	case int8:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt8
-		min = math.MinInt8
 	case int16:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt16
-		min = math.MinInt16
 	case int32:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt32
-		min = math.MinInt32
 	case int64:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt64
-		min = math.MinInt64
 	case int:
 		return fmt.Errorf("unable to store int. Use sized variant")
 	case uint:
@@ -189,6 +175,22 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		return fmt.Errorf("invalid integer sign %v for value %v", signCh, val)
 	}
 
+	// the limits are those of the destination
+	var max uint64 = math.MaxUint64
+	var min int64 = 0
+	switch nbytes {
+	case SizeOfU8:
+		max = math.MaxUint8
+	case SizeOfU16:
+		max = math.MaxUint16
+	case SizeOfU32:
+		max = math.MaxUint32
+	}
+	if signed {
+		max >>= 1
+		min = -int64(max) - 1
+	}
+
 	if !signed && u64 > max {
 		return fmt.Errorf("invalid integer %d exceeds max value %d", val, max)
 	}
-- 
2.43.0


From f7597e287ae514245047310cda905bac454f2ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:17 +0000
Subject: [PATCH 16/57] fix: trap on ill-formed strings in guest memory

Bytes that are not valid in the string encoding were silently replaced, so
a guest could hand out a string it never contained.
---
 abi/io/load.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index 9384fe1..52e46b7 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -258,7 +258,17 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 	}
 
 	buf := cx.Options.Memory.Bytes()[ptr : uint64(ptr)+byteLength]
-	return encoding.DecodeString(codec, bytes.NewReader(buf))
+	str, err := encoding.DecodeString(codec, bytes.NewReader(buf))
+	if err != nil {
+		return "", types.TrapWith("unable to decode string: %s", err)
+	}
+
+	// decoders replace ill-formed input, so it does not survive the way back
+	encoded, err := encoding.EncodeString(codec, str)
+	if err != nil || !bytes.Equal(encoded, buf) {
+		return "", types.TrapWith("string at ptr %d is not valid %s", ptr, srcEncoding)
+	}
+	return str, nil
 }
 
 func LoadList(cx *types.CallContext, ptr uint32, elementType types.ValType) ([]any, error) {
-- 
2.43.0


From a29799d61bc1ab0355ed8a9eefa2c90473d6d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:18 +0000
Subject: [PATCH 17/57] fix: reject host chars and strings that are not valid
 unicode

Surrogates and out of range runes were passed to the guest as they are and
invalid strings were changed on the way.
---
 abi/io/lower.go | 4 ++++
 abi/io/store.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index 7a89d91..ad768fb 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-wasm/abi/kind"
 	"github.com/patrickhuber/go-wasm/abi/types"
@@ -174,6 +175,9 @@ func LowerChar(v any) ([]values.Value, error) {
 	if !ok {
 		return nil, types.NewCastError(v, "rune")
 	}
+	if !utf8.ValidRune(r) {
+		return nil, fmt.Errorf("LowerChar: %U is not a unicode scalar value", r)
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index 330cd18..fd34aa7 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-wasm/abi/types"
 	"github.com/patrickhuber/go-wasm/encoding"
@@ -52,6 +53,9 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		if !ok {
 			return types.NewCastError(val, "rune")
 		}
+		if !utf8.ValidRune(r) {
+			return fmt.Errorf("Store: %U is not a unicode scalar value", r)
+		}
 		return StoreInt(c, uint32(r), ptr, SizeOfChar, false)
 	case types.String:
 		s, ok := val.(string)
@@ -290,6 +294,10 @@ func StoreStringDynamic(
 	str string,
 	codec encoding.Codec) (uint32, uint32, error) {
 
+	if !utf8.ValidString(str) {
+		return 0, 0, fmt.Errorf("string %q is not valid utf8", str)
+	}
+
 	encoded, err := encoding.EncodeString(codec, str)
 	if err != nil {
 		return 0, 0, err
-- 
2.43.0


From 20552b4051d2ad9cb072c5bbda6496fa7240d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:48 +0000
Subject: [PATCH 18/57] fix: check the loaded discriminant before using it

An error while loading the discriminant was looked at only after the nil
value had been converted, which panicked.
---
 abi/io/load.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index 52e46b7..54554e1 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -350,6 +350,9 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		return nil, err
 	}
 	caseIndex, err := LoadInt(cx, ptr, dt)
+	if err != nil {
+		return nil, err
+	}
 	var u32CaseIndex uint32 = 0
 	switch dt.(type) {
 	case types.U8:
@@ -362,9 +365,6 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		// could cause problems if caseIndex is actually a u64
 		u32CaseIndex = uint32(caseIndex.(uint64))
 	}
-	if err != nil {
-		return nil, err
-	}
 
 	discSize, err := Size(dt)
 	if err != nil {
-- 
2.43.0


From d0ec7bbc1b9091e36828ec1a6f6cd70d53748633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:12 +0000
Subject: [PATCH 19/57] fix: report truncated and oversized LEB128 integers

The decoders shifted bits beyond the 32nd away, the slice decoder returned a
value for a truncated integer, and the reader decoder failed when a reader
returned its last byte together with io.EOF or returned no byte at first.
---
 leb128/decode.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/leb128/decode.go b/leb128/decode.go
index 0c08921..b7ca3a7 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -2,10 +2,14 @@ package leb128
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"io"
 )
 
+// maxBytes is the number of bytes in the longest encoding of a 32 bit integer
+const maxBytes = 5
+
 func DecodeReader(r io.Reader) (uint32, int, error) {
 	var val uint32
 	shift := 0
@@ -13,15 +17,15 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 	buf := make([]byte, 1)
 
 	for {
-		n, err := r.Read(buf)
-		if n == 0 {
-			return 0, 0, fmt.Errorf("expected 1 byte read but read 0")
-		}
+		_, err := io.ReadFull(r, buf)
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, unexpectedEOF(total, err)
 		}
 		b := buf[0]
 		total++
+		if err := checkByte(b, total); err != nil {
+			return 0, 0, err
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			break
@@ -38,9 +42,12 @@ func Decode(r *bufio.Reader) (uint32, int, error) {
 	for {
 		b, err := r.ReadByte()
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, unexpectedEOF(total, err)
 		}
 		total++
+		if err := checkByte(b, total); err != nil {
+			return 0, 0, err
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			break
@@ -57,11 +64,36 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 	for index := 0; index < len(s); index++ {
 		b := s[index]
 		total++
+		if err := checkByte(b, total); err != nil {
+			return 0, 0, err
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
-			break
+			return val, total, nil
 		}
 		shift += 7
 	}
-	return val, total, nil
+	return 0, 0, io.ErrUnexpectedEOF
+}
+
+// checkByte returns an error if b, the nth byte of an encoding, makes the encoded integer exceed 32 bits
+func checkByte(b byte, n int) error {
+	if n < maxBytes {
+		return nil
+	}
+	if b&0b_1000_0000 != 0 {
+		return fmt.Errorf("integer representation too long")
+	}
+	if b > 0b_0000_1111 {
+		return fmt.Errorf("integer too large")
+	}
+	return nil
+}
+
+// unexpectedEOF turns the end of the input inside of an integer, after total bytes, into io.ErrUnexpectedEOF
+func unexpectedEOF(total int, err error) error {
+	if total > 0 && errors.Is(err, io.EOF) {
+		return io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From 89b0b941f89b67e329c2e771fd323c0fe7b6fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:53 +0000
Subject: [PATCH 20/57] fix: reject preambles whose layer does not match the
 version

---
 binary/binary.go | 3 +++
 binary/read.go   | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/binary/binary.go b/binary/binary.go
index 5a2636e..896a6ca 100644
--- a/binary/binary.go
+++ b/binary/binary.go
@@ -5,6 +5,9 @@ var Magic = []byte{0x00, 0x61, 0x73, 0x6d}
 const ModuleVersion uint16 = 0x01
 const ComponentVersion uint16 = 0x0a
 
+const ModuleLayer uint16 = 0x00
+const ComponentLayer uint16 = 0x01
+
 type SectionID uint8
 
 const (
diff --git a/binary/read.go b/binary/read.go
index 0748f7e..c54ee89 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -23,11 +23,17 @@ func Read(reader io.Reader) (*api.Document, error) {
 	var directive api.Directive
 	switch preamble.Version {
 	case ComponentVersion:
+		if preamble.Layer != ComponentLayer {
+			return nil, fmt.Errorf("invalid component layer %d", preamble.Layer)
+		}
 		directive, err = ReadComponent(reader)
 		if err != nil {
 			return nil, err
 		}
 	case ModuleVersion:
+		if preamble.Layer != ModuleLayer {
+			return nil, fmt.Errorf("invalid module layer %d", preamble.Layer)
+		}
 		directive, err = ReadModule(reader)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 909b1824d04ce5054d856c423782533e07601eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:54 +0000
Subject: [PATCH 21/57] fix: check that sections and function bodies are as
 long as their sizes

The sizes were ignored, so a section could run into the next one, and a module
cut between the id and the size of a section was accepted.
---
 binary/read.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index c54ee89..c4f4071 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -84,40 +84,41 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 			return nil, err
 		}
+		section := &io.LimitedReader{R: reader, N: int64(size)}
 		switch sectionID {
 		case TypeSectionID:
-			types, err := ReadFuncTypes(size, reader)
+			types, err := ReadFuncTypes(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Types = types
 		case FunctionSectionID:
-			funcs, err := ReadFuncs(size, reader)
+			funcs, err := ReadFuncs(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Funcs = funcs
 		case CodeSectionID:
-			err := UpdateFuncsWithCode(module, size, reader)
+			err := UpdateFuncsWithCode(module, size, section)
 			if err != nil {
 				return nil, err
 			}
 
 		case ExportSectionID:
-			exports, err := ReadExports(size, reader)
+			exports, err := ReadExports(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Exports = exports
 		default:
 			// skip unknown sections
-			data := make([]byte, size)
-			if size > 0 {
-				if _, err := io.ReadFull(reader, data); err != nil {
-					return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
-				}
+			if _, err := io.Copy(io.Discard, section); err != nil {
+				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
+		if section.N != 0 {
+			return nil, fmt.Errorf("section %d is %d bytes shorter than its size", sectionID, section.N)
+		}
 	}
 	return module, nil
 }
@@ -135,6 +136,10 @@ func ReadSectionHeader(reader io.Reader) (SectionID, uint32, error) {
 	// read the size
 	size, err := ReadLebU128(reader)
 	if err != nil {
+		// the end of the input is only expected in front of a section
+		if errors.Is(err, io.EOF) {
+			err = io.ErrUnexpectedEOF
+		}
 		return SectionID(0), 0, err
 	}
 	return SectionID(id), size, nil
@@ -353,21 +358,25 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		}
 
 		// function size
-		_, err := ReadLebU128(reader)
+		codeSize, err := ReadLebU128(reader)
 		if err != nil {
 			return err
 		}
+		code := &io.LimitedReader{R: reader, N: int64(codeSize)}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(reader)
+		locals, err := ReadValueTypeVector(code)
 		if err != nil {
 			return err
 		}
 		fn.Locals = locals
-		body, err := ReadExpression(reader)
+		body, err := ReadExpression(code)
 		if err != nil {
 			return err
 		}
+		if code.N != 0 {
+			return fmt.Errorf("code of function %d is %d bytes shorter than its size", index, code.N)
+		}
 		fn.Body = body
 	}
 	return nil
-- 
2.43.0


From 36b71f8802f8a173c8067398024e9ad4fb975d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:55 +0000
Subject: [PATCH 22/57] fix: read locals as runs of a type

The locals of a function are encoded as pairs of a number and a type, but were
read as a vector of types.
---
 binary/binary.go |  4 ++++
 binary/read.go   | 28 +++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/binary/binary.go b/binary/binary.go
index 896a6ca..e47209a 100644
--- a/binary/binary.go
+++ b/binary/binary.go
@@ -30,6 +30,10 @@ const I64 ValType = 0x7e
 const F32 ValType = 0x7d
 const F64 ValType = 0x7c
 
+// MaxLocals is the largest supported number of locals of a function
+// https://webassembly.github.io/spec/js-api/#limits
+const MaxLocals = 50000
+
 type ExportKind byte
 
 const FuncExportKind ExportKind = 0x00
diff --git a/binary/read.go b/binary/read.go
index c4f4071..3cdad21 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -365,7 +365,7 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		code := &io.LimitedReader{R: reader, N: int64(codeSize)}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(code)
+		locals, err := ReadLocals(code)
 		if err != nil {
 			return err
 		}
@@ -382,6 +382,32 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 	return nil
 }
 
+// ReadLocals reads a vector of locals declarations, each a number of locals and their type
+func ReadLocals(reader io.Reader) ([]api.ValType, error) {
+	count, err := ReadLebU128(reader)
+	if err != nil {
+		return nil, err
+	}
+	locals := []api.ValType{}
+	for i := uint32(0); i < count; i++ {
+		n, err := ReadLebU128(reader)
+		if err != nil {
+			return nil, err
+		}
+		vt, err := ReadValueType(reader)
+		if err != nil {
+			return nil, err
+		}
+		if uint64(len(locals))+uint64(n) > MaxLocals {
+			return nil, fmt.Errorf("too many locals")
+		}
+		for ; n > 0; n-- {
+			locals = append(locals, vt)
+		}
+	}
+	return locals, nil
+}
+
 func ReadInstruction(reader io.Reader) (api.Instruction, error) {
 	opCode, err := ReadOpCode(reader)
 	if err != nil {
-- 
2.43.0


From ec3626dc663b8aca05dfcbfcc804cb92450ccf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:56 +0000
Subject: [PATCH 23/57] fix: reject function and code sections of different
 length

Functions without code were returned with a nil body.
---
 binary/read.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 3cdad21..7906920 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -76,6 +76,7 @@ func ReadPreamble(reader io.Reader) (api.Preamble, error) {
 
 func ReadModule(reader io.Reader) (*api.Module, error) {
 	module := &api.Module{}
+	hasCode := false
 	for {
 		sectionID, size, err := ReadSectionHeader(reader)
 		if err != nil {
@@ -103,6 +104,7 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			if err != nil {
 				return nil, err
 			}
+			hasCode = true
 
 		case ExportSectionID:
 			exports, err := ReadExports(size, section)
@@ -120,6 +122,9 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			return nil, fmt.Errorf("section %d is %d bytes shorter than its size", sectionID, section.N)
 		}
 	}
+	if len(module.Funcs) > 0 && !hasCode {
+		return nil, fmt.Errorf("function section has %d functions but the code section is missing", len(module.Funcs))
+	}
 	return module, nil
 }
 
@@ -349,14 +354,11 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		return err
 	}
 
-	for index := 0; index < int(count); index++ {
-		if index >= len(module.Funcs) {
-			return fmt.Errorf("code section has more functions than function section, index %d, funcs %d", index, len(module.Funcs))
-		}
-		if index < 0 {
-			return fmt.Errorf("code section has negative index %d", index)
-		}
+	if uint64(count) != uint64(len(module.Funcs)) {
+		return fmt.Errorf("code section has %d functions and function section has %d", count, len(module.Funcs))
+	}
 
+	for index := range module.Funcs {
 		// function size
 		codeSize, err := ReadLebU128(reader)
 		if err != nil {
-- 
2.43.0


From a662ef1298c81553baed1b20ad4c8a0a0102fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:57 +0000
Subject: [PATCH 24/57] fix: do not allocate vectors and names before reading
 them

A few bytes could make the reader allocate gigabytes.
---
 binary/read.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 7906920..15a09ab 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -155,13 +155,13 @@ func ReadFuncTypes(size uint32, reader io.Reader) ([]*api.FuncType, error) {
 	if err != nil {
 		return nil, err
 	}
-	types := make([]*api.FuncType, count)
+	types := []*api.FuncType{}
 	for i := uint32(0); i < count; i++ {
 		t, err := ReadType(reader)
 		if err != nil {
 			return nil, err
 		}
-		types[i] = t
+		types = append(types, t)
 	}
 	return types, nil
 }
@@ -204,13 +204,13 @@ func ReadValueTypeVector(reader io.Reader) ([]api.ValType, error) {
 	if err != nil {
 		return nil, err
 	}
-	valueTypes := make([]api.ValType, size)
+	valueTypes := []api.ValType{}
 	for i := uint32(0); i < size; i++ {
 		vt, err := ReadValueType(reader)
 		if err != nil {
 			return nil, err
 		}
-		valueTypes[i] = vt
+		valueTypes = append(valueTypes, vt)
 	}
 	return valueTypes, nil
 }
@@ -240,13 +240,13 @@ func ReadFuncs(size uint32, reader io.Reader) ([]*api.Func, error) {
 		return nil, err
 	}
 
-	funcs := make([]*api.Func, count)
+	funcs := []*api.Func{}
 	for i := uint32(0); i < count; i++ {
 		result, err := ReadFunc(reader)
 		if err != nil {
 			return nil, err
 		}
-		funcs[i] = result
+		funcs = append(funcs, result)
 	}
 
 	return funcs, nil
@@ -268,13 +268,13 @@ func ReadExports(size uint32, reader io.Reader) ([]api.Export, error) {
 		return nil, err
 	}
 
-	exports := make([]api.Export, count)
+	exports := []api.Export{}
 	for i := uint32(0); i < count; i++ {
 		export, err := ReadExport(reader)
 		if err != nil {
 			return nil, err
 		}
-		exports[i] = export
+		exports = append(exports, export)
 	}
 
 	return exports, nil
@@ -320,11 +320,14 @@ func ReadString(reader io.Reader) (string, error) {
 		return "", nil
 	}
 
-	buf := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, buf)
+	// do not allocate the size before knowing that the input is that long
+	buf, err := io.ReadAll(io.LimitReader(reader, int64(size)))
 	if err != nil {
 		return "", err
 	}
+	if uint64(len(buf)) != uint64(size) {
+		return "", io.ErrUnexpectedEOF
+	}
 
 	return string(buf), nil
 }
-- 
2.43.0


From 69606fc72b3786216b2f975626cc5fa54d14cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:59 +0000
Subject: [PATCH 25/57] fix: reject names that are not UTF-8

---
 binary/read.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 15a09ab..1698527 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"slices"
+	"unicode/utf8"
 
 	"encoding/binary"
 
@@ -328,6 +329,9 @@ func ReadString(reader io.Reader) (string, error) {
 	if uint64(len(buf)) != uint64(size) {
 		return "", io.ErrUnexpectedEOF
 	}
+	if !utf8.Valid(buf) {
+		return "", fmt.Errorf("malformed UTF-8 encoding")
+	}
 
 	return string(buf), nil
 }
-- 
2.43.0


From 7575b0c032627fc88d848c995996da5b8d8ec46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:00 +0000
Subject: [PATCH 26/57] fix: reject repeated and misplaced sections

A second function section replaced the functions of the first one together with
their code.
---
 binary/read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 1698527..f25bae2 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -78,6 +78,7 @@ func ReadPreamble(reader io.Reader) (api.Preamble, error) {
 func ReadModule(reader io.Reader) (*api.Module, error) {
 	module := &api.Module{}
 	hasCode := false
+	last := CustomSectionID
 	for {
 		sectionID, size, err := ReadSectionHeader(reader)
 		if err != nil {
@@ -86,6 +87,13 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 			return nil, err
 		}
+		switch sectionID {
+		case TypeSectionID, FunctionSectionID, ExportSectionID, CodeSectionID:
+			if sectionID <= last {
+				return nil, fmt.Errorf("unexpected section %d after section %d", sectionID, last)
+			}
+			last = sectionID
+		}
 		section := &io.LimitedReader{R: reader, N: int64(size)}
 		switch sectionID {
 		case TypeSectionID:
-- 
2.43.0


From e75d52c3bd7008674d221368025672a6abadf40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:14 +0000
Subject: [PATCH 27/57] fix: give module instances their exports

The exports of a module were dropped at instantiation, so no export could be
looked up.
---
 runtime/instance.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/runtime/instance.go b/runtime/instance.go
index d6a88b8..b333957 100644
--- a/runtime/instance.go
+++ b/runtime/instance.go
@@ -1,6 +1,8 @@
 package runtime
 
 import (
+	"fmt"
+
 	"github.com/patrickhuber/go-wasm/address"
 	"github.com/patrickhuber/go-wasm/api"
 )
@@ -21,6 +23,19 @@ func NewModuleInstance(store *Store, module *api.Module) (*ModuleInstance, error
 	moduleInstance := &ModuleInstance{
 		store: store,
 	}
+	for _, export := range module.Exports {
+		description, ok := export.Description.(*api.FuncExportDescription)
+		if !ok {
+			return nil, fmt.Errorf("unsupported export description %T of export %q", export.Description, export.Name)
+		}
+		if uint64(description.FuncIdx) >= uint64(len(module.Funcs)) {
+			return nil, fmt.Errorf("export %q refers to function %d of %d", export.Name, description.FuncIdx, len(module.Funcs))
+		}
+		moduleInstance.Exports = append(moduleInstance.Exports, ExportInstance{
+			Name:  export.Name,
+			Value: address.Function(len(store.Funcs) + int(description.FuncIdx)),
+		})
+	}
 	for _, fn := range module.Funcs {
 		funcAddr := len(store.Funcs)
 		store.Funcs = append(store.Funcs, fn)
-- 
2.43.0


From de6f554167ac1bc17f113d107bf07aabbaa393c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:49 +0000
Subject: [PATCH 28/57] fix: return errors from Lexer.Peek

Peek panicked where Next returned an error. Both now leave the lexer in front
of the input that is no token, so that the error is found again.
---
 wat/lex/lexer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index a07b1e3..393eddd 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -71,8 +71,12 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
-	return l.peekToken, nil
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
+	return tok, nil
 }
 
 func (l *Lexer) Next() (*token.Token, error) {
@@ -708,5 +712,7 @@ func not(chars ...byte) func(ch byte) bool {
 }
 
 func (l *Lexer) lexerError() error {
+	// start over at the same place if the lexer is used after the error
+	defer func() { l.position = l.offset }()
 	return fmt.Errorf("error parsing at line: %d column: %d position: %d, '%s'", l.line, l.column, l.position, string(l.input[l.offset:l.position]))
 }
-- 
2.43.0


From 7553786175feb3bd4ae8ca996d407d752ac83290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:51 +0000
Subject: [PATCH 29/57] fix: report tokens that are cut off by the end of the
 input

An unterminated string or block comment was returned as the end of the stream
and so silently dropped. A line comment may end with the input.
---
 wat/lex/lexer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 393eddd..0a993de 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -125,8 +125,8 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 				}
 			}
 
-			// process any lexemes in an accepted state and emit a token
-			return l.token(token.EndOfStream) // returned if nothing is matched
+			// the input ends inside of a token
+			return result.Error[*token.Token](l.lexerError())
 		}
 
 		var matched []Lexeme
@@ -233,7 +233,10 @@ func whitespace() Rule {
 func lineComment() Rule {
 	start := &Node{}
 	semi := &Node{}
-	semi2 := &Node{}
+	// a comment can also end at the end of the input
+	semi2 := &Node{
+		Final: true,
+	}
 	newLine := &Node{
 		Final: true,
 	}
-- 
2.43.0


From 8ede1c2c6a5ee737bcdd882d1b7f03cd7e196c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:53 +0000
Subject: [PATCH 30/57] fix: recognize escapes in strings

A string ended at an escaped double quote.
---
 wat/lex/lexer.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 0a993de..62b4b90 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -308,6 +308,11 @@ func blockComment() Rule {
 func str() Rule {
 	start := &Node{}
 	doubleQuote := &Node{}
+	escape := &Node{}
+	hex := &Node{}
+	unicode := &Node{}
+	brace := &Node{}
+	digit := &Node{}
 	end := &Node{Final: true}
 	start.Edges = append(start.Edges, &ByteEdge{
 		Byte: '"',
@@ -316,8 +321,44 @@ func str() Rule {
 	doubleQuote.Edges = append(doubleQuote.Edges, &ByteEdge{
 		Byte: '"',
 		Node: end,
+	}, &ByteEdge{
+		Byte: '\\',
+		Node: escape,
+	}, &FuncEdge{
+		Func: not('"', '\\'),
+		Node: doubleQuote,
+	})
+	// '\\t' '\\n' '\\r' '\\"' '\\'' '\\\\' | '\\' hex hex | '\\u{' hexnum '}'
+	escape.Edges = append(escape.Edges, &FuncEdge{
+		Func: isEscape,
+		Node: doubleQuote,
 	}, &FuncEdge{
-		Func: not('"'),
+		Func: isHex,
+		Node: hex,
+	}, &ByteEdge{
+		Byte: 'u',
+		Node: unicode,
+	})
+	hex.Edges = append(hex.Edges, &FuncEdge{
+		Func: isHex,
+		Node: doubleQuote,
+	})
+	unicode.Edges = append(unicode.Edges, &ByteEdge{
+		Byte: '{',
+		Node: brace,
+	})
+	brace.Edges = append(brace.Edges, &FuncEdge{
+		Func: isHex,
+		Node: digit,
+	})
+	digit.Edges = append(digit.Edges, &FuncEdge{
+		Func: isHex,
+		Node: digit,
+	}, &ByteEdge{
+		Byte: '_',
+		Node: brace,
+	}, &ByteEdge{
+		Byte: '}',
 		Node: doubleQuote,
 	})
 	return &DfaRule{
@@ -699,6 +740,14 @@ func isHex(ch byte) bool {
 	return true
 }
 
+func isEscape(ch byte) bool {
+	switch ch {
+	case 't', 'n', 'r', '"', '\'', '\\':
+		return true
+	}
+	return false
+}
+
 func isDigit(ch byte) bool {
 	return '0' <= ch && ch <= '9'
 }
-- 
2.43.0


From 3496bb8b1a5cf9fbc429321c0382e06cc0b1074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:55 +0000
Subject: [PATCH 31/57] fix: classify numbers as the text format defines them

Decimal floats and exponents without a sign were not recognized, and words such
as 0x1g5, 1__0 or nan:0x1z were taken for numbers.
---
 wat/lex/lexer.go | 195 +++++++++--------------------------------------
 1 file changed, 35 insertions(+), 160 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 62b4b90..9c041f2 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -396,191 +396,66 @@ func sign(s string, i int) (int, bool) {
 	return i, false
 }
 
-func num(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isDigit(s[i]) {
+// digits skips digits starting at i which can be separated by underscores
+func digits(s string, i int, digit func(ch byte) bool) (int, bool) {
+	if i >= len(s) || !digit(s[i]) {
 		return i, false
 	}
-
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
+	for i++; i < len(s); i++ {
+		if digit(s[i]) {
 			continue
 		}
-		if isDigit(s[i]) {
+		if s[i] == '_' && i+1 < len(s) && digit(s[i+1]) {
 			continue
 		}
-		return i, false
+		break
 	}
 	return i, true
 }
 
-func hexnum(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isHex(s[i]) {
-		return i, false
-	}
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isHex(s[i]) {
-			continue
-		}
-		return i, true
-	}
-	return i, true
-}
-
-func frac(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isDigit(s[i]) {
-		return i, false
-	}
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isDigit(s[i]) {
-			continue
-		}
-		return i, false
-	}
-	return i, true
+func num(s string, i int) (int, bool) {
+	return digits(s, i, isDigit)
 }
 
-func hexfrac(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isHex(s[i]) {
-		return i, false
-	}
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isHex(s[i]) {
-			continue
-		}
-		return i, true
-	}
-	return i, true
+func hexnum(s string, i int) (int, bool) {
+	return digits(s, i, isHex)
 }
 
+// float skips p:num ('.' q:num?)? (('E'|'e') ('+'|'-')? e:num)?
 func float(s string, i int) (int, bool) {
-	n, ok := num(s, i)
+	i, ok := num(s, i)
 	if !ok {
 		return i, false
 	}
-	if n == len(s) {
-		return n, ok
-	}
-	i = n
-	// p:num '.'?
-	if s[i] == '.' && i == len(s)-1 {
-		return i + 1, true
+	if i < len(s) && s[i] == '.' {
+		i, _ = num(s, i+1)
 	}
-	// p:num '.'?('E'|'e')('+'|'-')e:num
-	if (s[i] == '.' && (s[i+1] == 'E' || s[i+1] == 'e')) ||
-		(s[i] == 'e' || s[i] == 'E') {
-		if s[i] == '.' {
-			i++ // '.'
-		}
-		i++ // 'E' | 'e'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
-		n, ok = num(s, i)
-		if !ok {
-			return i, false
-		}
-		return n, true
+	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
+		return exponent(s, i+1)
 	}
-	// p:num '.' q:frac
-	n, ok = frac(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
-	if i == len(s) {
-		return i, true
-	}
-	// p:num '.' q:frac ('E'|'e')('+'|'-')e:num
-	if s[i] != 'e' && s[i] != 'E' {
-		return i, false
-	}
-	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
-	return num(s, i)
+	return i, true
 }
 
+// hexfloat skips '0x' p:hexnum ('.' q:hexnum?)? (('P'|'p') ('+'|'-')? e:num)?
 func hexfloat(s string, i int) (int, bool) {
-	if !strings.HasPrefix(s, "0x") {
+	if !strings.HasPrefix(s[i:], "0x") {
 		return i, false
 	}
-	i += 2
-	n, ok := hexnum(s, i)
-	if !ok {
-		return i, false
-	}
-	if n == len(s) {
-		return n, ok
-	}
-	i = n
-	// p:hexnum '.'?
-	if s[i] == '.' && i == len(s)-1 {
-		return i + 1, true
-	}
-	// p:hexnum '.'?('P'|'p')('+'|'-')e:num
-	if (s[i] == '.' && (s[i+1] == 'P' || s[i+1] == 'p')) ||
-		(s[i] == 'p' || s[i] == 'P') {
-		if s[i] == '.' {
-			i++ // '.'
-		}
-		i++ // 'P' | 'p'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
-		n, ok = num(s, i)
-		if !ok {
-			return i, false
-		}
-		return n, true
-	}
-	i++ // '.'
-	// p:hexnum '.' q:hexfrac
-	n, ok = hexfrac(s, i)
+	i, ok := hexnum(s, i+2)
 	if !ok {
 		return i, false
 	}
-	i = n
-	if i == len(s) {
-		return i, true
-	}
-	// p:num '.' q:frac ('P'|'p')('+'|'-')e:num
-	if s[i] != 'p' && s[i] != 'P' {
-		return i, false
+	if i < len(s) && s[i] == '.' {
+		i, _ = hexnum(s, i+1)
 	}
-	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
+	if i < len(s) && (s[i] == 'p' || s[i] == 'P') {
+		return exponent(s, i+1)
 	}
-	i = n
+	return i, true
+}
+
+func exponent(s string, i int) (int, bool) {
+	i, _ = sign(s, i)
 	return num(s, i)
 }
 
@@ -606,13 +481,13 @@ func isFloat(s string) bool {
 	}
 	if strings.HasPrefix(s, "nan:0x") {
 		s = strings.TrimPrefix(s, "nan:0x")
-		_, ok := hexnum(s, 0)
-		return ok
+		i, ok := hexnum(s, 0)
+		return ok && i == len(s)
 	}
-	if _, ok := float(s, 0); ok {
+	if i, ok := float(s, 0); ok && i == len(s) {
 		return true
 	}
-	if _, ok := hexfloat(s, 0); ok {
+	if i, ok := hexfloat(s, 0); ok && i == len(s) {
 		return true
 	}
 	return false
@@ -626,7 +501,7 @@ func isInteger(s string) bool {
 	if s[0] == '+' || s[0] == '-' {
 		s = s[1:]
 	}
-	if _, ok := num(s, 0); ok {
+	if i, ok := num(s, 0); ok && i == len(s) {
 		return true
 	}
 	if strings.HasPrefix(s, "0x") {
-- 
2.43.0


From 31dfbe3a55c775acd7c4bdbb67243704122ea611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:57 +0000
Subject: [PATCH 32/57] fix: let block comments nest

A block comment ended at the first ;) even inside of a nested comment.
---
 wat/lex/comment.go  | 70 +++++++++++++++++++++++++++++++++++++++++++++
 wat/lex/lexer.go    | 37 +-----------------------
 wat/lex/registry.go |  5 ++--
 3 files changed, 74 insertions(+), 38 deletions(-)
 create mode 100644 wat/lex/comment.go

diff --git a/wat/lex/comment.go b/wat/lex/comment.go
new file mode 100644
index 0000000..d8772ed
--- /dev/null
+++ b/wat/lex/comment.go
@@ -0,0 +1,70 @@
+package lex
+
+import "github.com/patrickhuber/go-wasm/wat/token"
+
+const BlockCommentRuleType RuleType = 2
+
+// BlockCommentRule matches block comments, which can contain other block comments
+type BlockCommentRule struct {
+	TokenType token.Type
+}
+
+func (r *BlockCommentRule) Type() token.Type {
+	return r.TokenType
+}
+
+func (r *BlockCommentRule) Check(ch byte) bool {
+	return ch == '('
+}
+
+func (r *BlockCommentRule) RuleType() RuleType {
+	return BlockCommentRuleType
+}
+
+type BlockCommentLexeme struct {
+	rule     *BlockCommentRule
+	position int
+	depth    int
+	// previous is the first half of a possible '(;' or ';)'
+	previous byte
+}
+
+func (l *BlockCommentLexeme) Rule() Rule {
+	return l.rule
+}
+
+func (l *BlockCommentLexeme) Eat(ch byte) bool {
+	switch {
+	case l.Accepted():
+		return false
+	case l.position == 0 && ch != '(':
+		return false
+	case l.position == 1 && ch != ';':
+		return false
+	}
+	l.position++
+	switch {
+	case l.previous == '(' && ch == ';':
+		l.depth++
+		l.previous = 0
+	case l.previous == ';' && ch == ')':
+		l.depth--
+		l.previous = 0
+	default:
+		l.previous = ch
+	}
+	return true
+}
+
+func (l *BlockCommentLexeme) Accepted() bool {
+	return l.position > 1 && l.depth == 0
+}
+
+type BlockCommentFactory struct {
+}
+
+func (f *BlockCommentFactory) Lexeme(r Rule) Lexeme {
+	return &BlockCommentLexeme{
+		rule: r.(*BlockCommentRule),
+	}
+}
diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 9c041f2..2d67f6d 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -265,42 +265,7 @@ func lineComment() Rule {
 }
 
 func blockComment() Rule {
-	start := &Node{}
-	openParen := &Node{}
-	semi := &Node{}
-	semiEnd := &Node{}
-	closeParen := &Node{Final: true}
-
-	start.Edges = append(start.Edges, &ByteEdge{
-		Byte: '(',
-		Node: openParen,
-	})
-	openParen.Edges = append(openParen.Edges, &ByteEdge{
-		Byte: ';',
-		Node: semi,
-	})
-	semi.Edges = append(semi.Edges, &ByteEdge{
-		Byte: ';',
-		Node: semiEnd,
-	}, &FuncEdge{
-		Func: not(';'),
-		Node: semi,
-	})
-	semiEnd.Edges = append(semiEnd.Edges, &ByteEdge{
-		Byte: ')',
-		Node: closeParen,
-	}, &ByteEdge{
-		Byte: ';',
-		Node: semiEnd,
-	}, &FuncEdge{
-		Func: not(')', ';'),
-		Node: semi,
-	})
-
-	return &DfaRule{
-		Dfa: &Dfa{
-			Start: start,
-		},
+	return &BlockCommentRule{
 		TokenType: token.BlockComment,
 	}
 }
diff --git a/wat/lex/registry.go b/wat/lex/registry.go
index 6ff39d6..4c8631d 100644
--- a/wat/lex/registry.go
+++ b/wat/lex/registry.go
@@ -4,6 +4,7 @@ type Registry map[RuleType]Factory
 
 // registry is used for processing incoming runes after a rule matches
 var registry = Registry{
-	StringRuleType: &StringFactory{},
-	DfaRuleType:    &DfaFactory{},
+	StringRuleType:       &StringFactory{},
+	DfaRuleType:          &DfaFactory{},
+	BlockCommentRuleType: &BlockCommentFactory{},
 }
-- 
2.43.0


From b9f561a726a3857f7a62dffd174cc518edbf85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:10 +0000
Subject: [PATCH 33/57] fix: parse integers of the text format

i64 constants were limited to 32 bits. Integers with a leading zero were taken
for octal, and a plus sign or an underscore behind a leading zero was an error.
---
 wat/parse/parser.go | 46 ++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7b8f746..e76f7a6 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -773,17 +773,8 @@ func ParseInt32(lexer *lex.Lexer) (int32, error) {
 
 func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	defer handle.Error(&res)
-
-	tok := next(lexer).Unwrap()
-	if tok.Type != token.Integer {
-		return result.Errorf[int32]("expected integer %w", parseError(tok))
-	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int32(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
-	return result.New(int32(i), err)
+	i := parseInteger(lexer, 32).Unwrap()
+	return result.Ok(int32(i))
 }
 
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
@@ -792,17 +783,38 @@ func ParseInt64(lexer *lex.Lexer) (int64, error) {
 
 func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	defer handle.Error(&res)
+	i := parseInteger(lexer, 64).Unwrap()
+	return result.Ok(int64(i))
+}
+
+// parseInteger parses any signed or unsigned integer of the given size
+func parseInteger(lexer *lex.Lexer, bits int) (res types.Result[uint64]) {
+	defer handle.Error(&res)
 
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.Integer {
-		return result.Errorf[int64]("expected integer %w", parseError(tok))
+		return result.Errorf[uint64]("expected integer %w", parseError(tok))
+	}
+
+	digits := strings.ReplaceAll(tok.Capture, "_", "")
+	negative := strings.HasPrefix(digits, "-")
+	if negative || strings.HasPrefix(digits, "+") {
+		digits = digits[1:]
+	}
+	base := 10
+	if strings.HasPrefix(digits, "0x") {
+		base = 16
+		digits = digits[2:]
+	}
+
+	i := result.New(strconv.ParseUint(digits, base, bits)).Unwrap()
+	if !negative {
+		return result.Ok(i)
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int64(i), err)
+	if i > 1<<(bits-1) {
+		return result.Errorf[uint64]("%w : integer '%s' out of range", parseError(tok), tok.Capture)
 	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
-	return result.New(int64(i), err)
+	return result.Ok(-i)
 }
 
 func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-- 
2.43.0


From 1c29fd7f5ad130d4193086d1cf9ea3d608379a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:12 +0000
Subject: [PATCH 34/57] fix: parse floats of the text format

f64 constants were rounded to 32 bits and knew no nan. A nan without a payload
was an infinity, and the sign of nan:canonical was lost. Hexadecimal floats
without an exponent and most underscores were errors. Integers used as floats
were limited to the range of an integer and lost the sign of zero.
---
 wast/parse/parser.go |  34 +-----------
 wat/parse/parser.go  | 122 +++++++++++++++++++------------------------
 2 files changed, 56 insertions(+), 100 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 401936e..ea40b1f 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -291,26 +291,12 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		// some times constants can be ambiguous like '0'
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		c = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else if peekInteger(lexer).Unwrap() {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		c = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	case "ref.null":
 	case "ref.extern":
@@ -342,14 +328,6 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 	return result.Ok(results)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	tok, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(tok.Type == token.Float)
-}
-
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	return result.New(watparse.ParseFloat32(lexer))
 }
@@ -441,14 +419,6 @@ func parseString(lexer *lex.Lexer) types.Result[string] {
 	return result.New(str, err)
 }
 
-func peekInteger(lexer *lex.Lexer) types.Result[bool] {
-	i, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(i.Type == token.Integer)
-}
-
 func parseInt32(lexer *lex.Lexer) types.Result[int32] {
 	i, err := watparse.ParseInt32(lexer)
 	return result.New(i, err)
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index e76f7a6..f9c5c39 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -428,25 +428,12 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		inst = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		inst = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	// f32 math instructions
 	case "f32.add":
@@ -817,64 +804,23 @@ func parseInteger(lexer *lex.Lexer, bits int) (res types.Result[uint64]) {
 	return result.Ok(-i)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	defer handle.Error(&res)
-	tok := peek(lexer).Unwrap()
-	return result.Ok(tok.Type == token.Float)
-}
-
 func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 	return parseFloat32(lexer).Deconstruct()
 }
 
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	defer handle.Error(&res)
-	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
-		return result.Errorf[float32]("expected float %w", parseError(tok))
-	}
-	negative := false
-	capture := tok.Capture
-	if strings.HasPrefix(capture, "-") {
-		negative = true
-		capture = capture[1:]
-	}
-	if strings.HasPrefix(capture, "nan") {
-		capture = capture[3:]
-
-		var u32 uint64
-		if strings.HasPrefix(capture, ":") {
-			capture = capture[1:]
-
-			var err error
-			if len(capture) > 0 {
-				if strings.HasPrefix(capture, "canonical") {
-					// https://en.wikipedia.org/wiki/NaN#Canonical_NaN
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				if strings.HasPrefix(capture, "arithmetic") {
-					// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				u32, err = strconv.ParseUint(capture, 0, 32)
-				if err != nil {
-					return result.Error[float32](err)
-				}
-			}
-		}
-		// create float from data
+	capture := parseFloat(lexer).Unwrap()
+	if strings.Contains(capture, "nan") {
+		bits := parseNan(capture, 23).Unwrap()
 		// s111 1111 1xxx xxxx xxxx xxxx xxxx xxxx
-		if negative {
-			u32 |= 0b_1111_1111_1000_0000_0000_0000_0000_0000
-		} else {
-			u32 |= 0b_0111_1111_1000_0000_0000_0000_0000_0000
+		bits |= 0x7f80_0000
+		if strings.HasPrefix(capture, "-") {
+			bits |= 1 << 31
 		}
-		return result.Ok(math.Float32frombits(uint32(u32)))
+		return result.Ok(math.Float32frombits(uint32(bits)))
 	}
-	// not nan, so parse normally
-	f, err := strconv.ParseFloat(tok.Capture, 32)
+	f, err := strconv.ParseFloat(capture, 32)
 	return result.New(float32(f), err)
 }
 
@@ -883,13 +829,53 @@ func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 }
 
 func parseFloat64(lexer *lex.Lexer) (res types.Result[float64]) {
+	defer handle.Error(&res)
+	capture := parseFloat(lexer).Unwrap()
+	if strings.Contains(capture, "nan") {
+		bits := parseNan(capture, 52).Unwrap()
+		bits |= 0x7ff0_0000_0000_0000
+		if strings.HasPrefix(capture, "-") {
+			bits |= 1 << 63
+		}
+		return result.Ok(math.Float64frombits(bits))
+	}
+	return result.New(strconv.ParseFloat(capture, 64))
+}
+
+// parseFloat returns the next float in the syntax of strconv.ParseFloat.
+// An integer is a float as well.
+func parseFloat(lexer *lex.Lexer) (res types.Result[string]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
-		return result.Errorf[float64]("expected float %w", parseError(tok))
+	if tok.Type != token.Float && tok.Type != token.Integer {
+		return result.Errorf[string]("expected float %w", parseError(tok))
+	}
+	capture := strings.ReplaceAll(tok.Capture, "_", "")
+	// the exponent of a hexadecimal float is optional
+	if strings.Contains(capture, "0x") && !strings.Contains(capture, "nan") && !strings.ContainsAny(capture, "pP") {
+		capture += "p0"
+	}
+	return result.Ok(capture)
+}
+
+// parseNan returns the payload of a nan with the given number of bits
+func parseNan(capture string, bits int) (res types.Result[uint64]) {
+	defer handle.Error(&res)
+	// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
+	canonical := uint64(1) << (bits - 1)
+	_, payload, ok := strings.Cut(capture, ":")
+	if !ok {
+		return result.Ok(canonical)
+	}
+	switch payload {
+	case "canonical", "arithmetic":
+		return result.Ok(canonical)
+	}
+	n := result.New(strconv.ParseUint(strings.TrimPrefix(payload, "0x"), 16, bits)).Unwrap()
+	if n == 0 {
+		return result.Errorf[uint64]("nan payload out of range '%s'", capture)
 	}
-	f, err := strconv.ParseFloat(tok.Capture, 32)
-	return result.New(f, err)
+	return result.Ok(n)
 }
 
 func eat(lexer *lex.Lexer, ty token.Type) (res types.Result[bool]) {
-- 
2.43.0


From 20132ffeebc04c33c9610797028c2be424eb19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:14 +0000
Subject: [PATCH 35/57] fix: parse indices and limits as unsigned integers

Negative and too large indices wrapped around and so did negative limits.
Hexadecimal indices were an error.
---
 wat/parse/parser.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index f9c5c39..657b4db 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -311,15 +311,15 @@ func parseMemory(lexer *lex.Lexer) (res types.Result[ast.Memory]) {
 
 func parseLimits(lexer *lex.Lexer) (res types.Result[ast.Limits]) {
 	defer handle.Error(&res)
-	min := parseInt32(lexer).Unwrap()
+	min := parseUint32(lexer).Unwrap()
 	max := option.None[uint32]()
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Integer {
-		n := parseInt32(lexer).Unwrap()
-		max = option.Some(uint32(n))
+		n := parseUint32(lexer).Unwrap()
+		max = option.Some(n)
 	}
 	return result.Ok(ast.Limits{
-		Min: uint32(min),
+		Min: min,
 		Max: max,
 	})
 }
@@ -526,18 +526,17 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 
 func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
 	defer handle.Error(&res)
-	tok := next(lexer).Unwrap()
+	tok := peek(lexer).Unwrap()
 
 	var index ast.Index
 	switch tok.Type {
 	case token.Integer:
-		i := result.New(strconv.Atoi(tok.Capture)).Unwrap()
 		index = &ast.RawIndex{
-			Index: uint32(i),
+			Index: parseUint32(lexer).Unwrap(),
 		}
 	case token.Id:
 		index = &ast.IDIndex{
-			ID: tok.Capture,
+			ID: parseId(lexer).Unwrap(),
 		}
 	default:
 		return result.Errorf[ast.Index]("%w : error parsing index", parseError(tok))
@@ -764,6 +763,17 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	return result.Ok(int32(i))
 }
 
+// parseUint32 parses an integer without a sign
+func parseUint32(lexer *lex.Lexer) (res types.Result[uint32]) {
+	defer handle.Error(&res)
+	tok := peek(lexer).Unwrap()
+	if strings.HasPrefix(tok.Capture, "-") || strings.HasPrefix(tok.Capture, "+") {
+		return result.Errorf[uint32]("%w : expected unsigned integer but found '%s'", parseError(tok), tok.Capture)
+	}
+	i := parseInteger(lexer, 32).Unwrap()
+	return result.Ok(uint32(i))
+}
+
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
 	return parseInt64(lexer).Deconstruct()
 }
-- 
2.43.0


From 192ef49e350773b179ee1cebddf104fc2e4669ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:15 +0000
Subject: [PATCH 36/57] fix: decode escapes in strings

All quotes at the ends of a string were removed and escapes were kept as
written. ParseString returns the error of the lexer instead of panicking.
---
 wat/parse/parser.go | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 657b4db..9ea4fb7 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-types"
 	"github.com/patrickhuber/go-types/handle"
@@ -746,11 +747,51 @@ func ParseString(lexer *lex.Lexer) (string, error) {
 }
 
 func parseString(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.String {
 		return result.Errorf[string]("%w", parseError(tok))
 	}
-	return result.Ok(strings.Trim(tok.Capture, "\""))
+	return unescape(tok)
+}
+
+// unescape returns the bytes of a string without its quotes
+func unescape(tok *token.Token) (res types.Result[string]) {
+	defer handle.Error(&res)
+	capture := tok.Capture[1 : len(tok.Capture)-1]
+	var builder strings.Builder
+	for i := 0; i < len(capture); i++ {
+		if capture[i] != '\\' {
+			builder.WriteByte(capture[i])
+			continue
+		}
+		i++
+		switch capture[i] {
+		case 't':
+			builder.WriteByte('\t')
+		case 'n':
+			builder.WriteByte('\n')
+		case 'r':
+			builder.WriteByte('\r')
+		case '"', '\'', '\\':
+			builder.WriteByte(capture[i])
+		case 'u':
+			// \u{hexnum}
+			end := i + strings.IndexByte(capture[i:], '}')
+			digits := strings.ReplaceAll(capture[i+2:end], "_", "")
+			r := result.New(strconv.ParseUint(digits, 16, 32)).Unwrap()
+			if r > utf8.MaxRune || !utf8.ValidRune(rune(r)) {
+				return result.Errorf[string]("%w : invalid character '%s'", parseError(tok), digits)
+			}
+			builder.WriteRune(rune(r))
+			i = end
+		default:
+			b := result.New(strconv.ParseUint(capture[i:i+2], 16, 8)).Unwrap()
+			builder.WriteByte(byte(b))
+			i++
+		}
+	}
+	return result.Ok(builder.String())
 }
 
 func ParseInt32(lexer *lex.Lexer) (int32, error) {
-- 
2.43.0


From dcfa305ff425a0110f083cfe18633769140308d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:17 +0000
Subject: [PATCH 37/57] fix: return the parsed i32 instructions

The bitwise, shift, count, extend and comparison instructions of i32 were
parsed as nil instructions.
---
 wat/ast/ast.go      | 100 ++++++++++++++++++++++++++++++++++++++++++++
 wat/parse/parser.go |  25 +++++++++++
 2 files changed, 125 insertions(+)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 3da2ded..4a2f1c1 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -223,6 +223,106 @@ type I32DivU struct{}
 
 func (I32DivU) inst() {}
 
+type I32RemS struct{}
+
+func (I32RemS) inst() {}
+
+type I32RemU struct{}
+
+func (I32RemU) inst() {}
+
+type I32And struct{}
+
+func (I32And) inst() {}
+
+type I32Or struct{}
+
+func (I32Or) inst() {}
+
+type I32Xor struct{}
+
+func (I32Xor) inst() {}
+
+type I32Shl struct{}
+
+func (I32Shl) inst() {}
+
+type I32ShrS struct{}
+
+func (I32ShrS) inst() {}
+
+type I32ShrU struct{}
+
+func (I32ShrU) inst() {}
+
+type I32Rotl struct{}
+
+func (I32Rotl) inst() {}
+
+type I32Rotr struct{}
+
+func (I32Rotr) inst() {}
+
+type I32Clz struct{}
+
+func (I32Clz) inst() {}
+
+type I32Ctz struct{}
+
+func (I32Ctz) inst() {}
+
+type I32Popcnt struct{}
+
+func (I32Popcnt) inst() {}
+
+type I32Extend8S struct{}
+
+func (I32Extend8S) inst() {}
+
+type I32Extend16S struct{}
+
+func (I32Extend16S) inst() {}
+
+type I32Eq struct{}
+
+func (I32Eq) inst() {}
+
+type I32Ne struct{}
+
+func (I32Ne) inst() {}
+
+type I32LtS struct{}
+
+func (I32LtS) inst() {}
+
+type I32LtU struct{}
+
+func (I32LtU) inst() {}
+
+type I32LeS struct{}
+
+func (I32LeS) inst() {}
+
+type I32LeU struct{}
+
+func (I32LeU) inst() {}
+
+type I32GtS struct{}
+
+func (I32GtS) inst() {}
+
+type I32GtU struct{}
+
+func (I32GtU) inst() {}
+
+type I32GeS struct{}
+
+func (I32GeS) inst() {}
+
+type I32GeU struct{}
+
+func (I32GeU) inst() {}
+
 type Folded struct {
 	Instruction Instruction
 	Parameters  []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 9ea4fb7..c85fa9f 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -472,32 +472,57 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	case "i32.div_u":
 		inst = ast.I32DivU{}
 	case "i32.rem_s":
+		inst = ast.I32RemS{}
 	case "i32.rem_u":
+		inst = ast.I32RemU{}
 	case "i32.and":
+		inst = ast.I32And{}
 	case "i32.or":
+		inst = ast.I32Or{}
 	case "i32.xor":
+		inst = ast.I32Xor{}
 	case "i32.shl":
+		inst = ast.I32Shl{}
 	case "i32.shr_s":
+		inst = ast.I32ShrS{}
 	case "i32.shr_u":
+		inst = ast.I32ShrU{}
 	case "i32.rotl":
+		inst = ast.I32Rotl{}
 	case "i32.rotr":
+		inst = ast.I32Rotr{}
 	case "i32.clz":
+		inst = ast.I32Clz{}
 	case "i32.ctz":
+		inst = ast.I32Ctz{}
 	case "i32.popcnt":
+		inst = ast.I32Popcnt{}
 	case "i32.extend8_s":
+		inst = ast.I32Extend8S{}
 	case "i32.extend16_s":
+		inst = ast.I32Extend16S{}
 	case "i32.eqz":
 		inst = ast.I32Eqz{}
 	case "i32.eq":
+		inst = ast.I32Eq{}
 	case "i32.ne":
+		inst = ast.I32Ne{}
 	case "i32.lt_s":
+		inst = ast.I32LtS{}
 	case "i32.lt_u":
+		inst = ast.I32LtU{}
 	case "i32.le_s":
+		inst = ast.I32LeS{}
 	case "i32.le_u":
+		inst = ast.I32LeU{}
 	case "i32.gt_s":
+		inst = ast.I32GtS{}
 	case "i32.gt_u":
+		inst = ast.I32GtU{}
 	case "i32.ge_s":
+		inst = ast.I32GeS{}
 	case "i32.ge_u":
+		inst = ast.I32GeU{}
 	case "block":
 		inst = parseBlock(lexer).Unwrap()
 	case "loop":
-- 
2.43.0


From 8366feb630cbbcf2284bdb722ca436b96d5fd24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:19 +0000
Subject: [PATCH 38/57] fix: parse all labels of br_table

---
 wat/parse/parser.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index c85fa9f..1bc6fbd 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -374,10 +374,14 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Index: parseIndex(lexer).Unwrap(),
 		}
 	case "br_table":
+		indicies := []ast.Index{
+			parseIndex(lexer).Unwrap(),
+		}
+		for peekIndex(lexer).Unwrap() {
+			indicies = append(indicies, parseIndex(lexer).Unwrap())
+		}
 		inst = ast.BrTable{
-			Indicies: []ast.Index{
-				parseIndex(lexer).Unwrap(),
-			},
+			Indicies: indicies,
 		}
 	case "return":
 		inst = ast.Return{}
@@ -550,6 +554,12 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	return result.Ok[ast.Instruction](folded)
 }
 
+func peekIndex(lexer *lex.Lexer) (res types.Result[bool]) {
+	defer handle.Error(&res)
+	tok := peek(lexer).Unwrap()
+	return result.Ok(tok.Type == token.Integer || tok.Type == token.Id)
+}
+
 func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
 	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
-- 
2.43.0


From 21df86f0e0224013dff97d9dbf4a3ab30e7d2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:21 +0000
Subject: [PATCH 39/57] fix: end a plain instruction in front of a folded one

A folded instruction behind a plain one became a parameter of the plain one.
---
 wat/parse/parser.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 1bc6fbd..9078f1a 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -112,7 +112,7 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		case "import":
 			_ = parseImport(lexer).Unwrap()
 		default:
-			inst := parseInstruction(lexer).Unwrap()
+			inst := parseFolded(lexer).Unwrap()
 			function.Instructions = append(function.Instructions, inst)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
@@ -122,6 +122,11 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		if tok.Type == token.CloseParen {
 			break
 		}
+		if tok.Type == token.OpenParen {
+			folded := parseInstructions(lexer).Unwrap()
+			function.Instructions = append(function.Instructions, folded...)
+			continue
+		}
 		instruction := parseInstruction(lexer).Unwrap()
 		function.Instructions = append(function.Instructions, instruction)
 	}
@@ -350,7 +355,7 @@ func parseInstructions(lexer *lex.Lexer) (res types.Result[[]ast.Instruction]) {
 
 	var instructions []ast.Instruction
 	for eat(lexer, token.OpenParen).Unwrap() {
-		instruction := parseInstruction(lexer).Unwrap()
+		instruction := parseFolded(lexer).Unwrap()
 		instructions = append(instructions, instruction)
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -539,19 +544,21 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	default:
 		return result.Errorf[ast.Instruction]("%w : error parsing instruction. Unrecognized instruction %v : %s", parseError(tok), tok.Type, tok.Capture)
 	}
-	peekTok := peek(lexer).Unwrap()
-	if peekTok.Type != token.OpenParen {
+	return result.Ok(inst)
+}
+
+// parseFolded parses an instruction and its parameters inside of parenthesis
+func parseFolded(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
+	defer handle.Error(&res)
+	inst := parseInstruction(lexer).Unwrap()
+	parameters := parseInstructions(lexer).Unwrap()
+	if len(parameters) == 0 {
 		return result.Ok(inst)
 	}
-	folded := ast.Folded{
+	return result.Ok[ast.Instruction](ast.Folded{
 		Instruction: inst,
-	}
-	for eat(lexer, token.OpenParen).Unwrap() {
-		inst = parseInstruction(lexer).Unwrap()
-		folded.Parameters = append(folded.Parameters, inst)
-		expect(lexer, token.CloseParen).Unwrap()
-	}
-	return result.Ok[ast.Instruction](folded)
+		Parameters:  parameters,
+	})
 }
 
 func peekIndex(lexer *lex.Lexer) (res types.Result[bool]) {
@@ -667,7 +674,7 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 			e := parseElse(lexer).Unwrap()
 			_else = option.Some(e)
 		default:
-			i := parseInstruction(lexer).Unwrap()
+			i := parseFolded(lexer).Unwrap()
 			instructions = append(instructions, i)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
-- 
2.43.0


From 2de4a5b35d3e1cae32c6b0af22ffc696331cda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:23 +0000
Subject: [PATCH 40/57] fix: accept any number of types in a result

Functions and ifs were limited to one type where blocks and loops were not.
---
 wat/parse/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 9078f1a..ab143d6 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -171,9 +171,12 @@ func parseResult(lexer *lex.Lexer) (res types.Result[*ast.Result]) {
 
 	expectValue(lexer, token.Reserved, "result").Unwrap()
 
-	ty := parseValType(lexer).Unwrap()
+	var types []ast.ValType
+	for peek(lexer).Unwrap().Type == token.Reserved {
+		types = append(types, parseValType(lexer).Unwrap())
+	}
 	return result.Ok(&ast.Result{
-		Types: []ast.ValType{ty},
+		Types: types,
 	})
 }
 
-- 
2.43.0


From 38f3bea2a5094cbc68a3457815071607ac8a6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:25 +0000
Subject: [PATCH 41/57] fix: keep the import of a function

---
 wat/ast/ast.go      | 1 +
 wat/parse/parser.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 4a2f1c1..a8379b6 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -27,6 +27,7 @@ type Function struct {
 	ID           types.Option[string]
 	Locals       []Local
 	Exports      []InlineExport
+	Import       types.Option[InlineImport]
 	Parameters   []Parameter
 	Results      []Result
 	Instructions []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index ab143d6..d1ba229 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -110,7 +110,8 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 			export := parseExport(lexer).Unwrap()
 			function.Exports = append(function.Exports, export)
 		case "import":
-			_ = parseImport(lexer).Unwrap()
+			i := parseImport(lexer).Unwrap()
+			function.Import = option.Some(i)
 		default:
 			inst := parseFolded(lexer).Unwrap()
 			function.Instructions = append(function.Instructions, inst)
-- 
2.43.0


From ab735a06f65c7f9d738d635ddd2c9596784f5e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:27 +0000
Subject: [PATCH 42/57] fix: reject malformed tables, types and ifs

An unknown reference type, a type without a function type, an empty list in a
function type and an if without exactly one then were accepted.
---
 wat/parse/parser.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index d1ba229..f9a3141 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -187,11 +187,9 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	id := parseOptionalId(lexer).Unwrap()
 
-	var funcType ast.FuncType
-	if eat(lexer, token.OpenParen).Unwrap() {
-		funcType = parseFuncType(lexer).Unwrap()
-		expect(lexer, token.CloseParen).Unwrap()
-	}
+	expect(lexer, token.OpenParen).Unwrap()
+	funcType := parseFuncType(lexer).Unwrap()
+	expect(lexer, token.CloseParen).Unwrap()
 
 	return result.Ok(ast.Type{
 		ID:       id,
@@ -212,8 +210,10 @@ func parseFuncType(lexer *lex.Lexer) (res types.Result[ast.FuncType]) {
 			parameter := parseParameter(lexer).Unwrap()
 			parameters = append(parameters, *parameter)
 		case "result":
-			result := parseResult(lexer).Unwrap()
-			results = append(results, *result)
+			r := parseResult(lexer).Unwrap()
+			results = append(results, *r)
+		default:
+			return result.Errorf[ast.FuncType]("%w : expected param or result but found '%s'", parseError(tok), tok.Capture)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -271,6 +271,8 @@ func parseTableType(lexer *lex.Lexer) (res types.Result[ast.TableType]) {
 		refType = ast.ExternRef{}
 	case "funcref":
 		refType = ast.FuncRef{}
+	default:
+		return result.Errorf[ast.TableType]("expected 'externref' or 'funcref': %w", parseError(tok))
 	}
 
 	return result.Ok(ast.TableType{
@@ -664,7 +666,7 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 
 	var results []ast.Result
 	_else := option.None[ast.Else]()
-	var then ast.Then
+	then := option.None[ast.Then]()
 	var instructions []ast.Instruction
 	for eat(lexer, token.OpenParen).Unwrap() {
 		tok = peek(lexer).Unwrap()
@@ -673,8 +675,14 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 			res := parseResult(lexer).Unwrap()
 			results = append(results, *res)
 		case "then":
-			then = parseThen(lexer).Unwrap()
+			if then.IsSome() {
+				return result.Errorf[ast.If]("%w : repeated then", parseError(tok))
+			}
+			then = option.Some(parseThen(lexer).Unwrap())
 		case "else":
+			if _else.IsSome() {
+				return result.Errorf[ast.If]("%w : repeated else", parseError(tok))
+			}
 			e := parseElse(lexer).Unwrap()
 			_else = option.Some(e)
 		default:
@@ -684,13 +692,17 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 		expect(lexer, token.CloseParen).Unwrap()
 	}
 
+	if then.IsNone() {
+		return result.Errorf[ast.If]("%w : expected then", parseError(tok))
+	}
+
 	return result.Ok(ast.If{
 		Name: name,
 		BlockType: ast.BlockType{
 			Results: results,
 		},
 		Clause: instructions,
-		Then:   then,
+		Then:   then.Unwrap(),
 		Else:   _else,
 	})
 }
-- 
2.43.0


From ceb988867a0b77c3f5448e31a5057c6b54df28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:29 +0000
Subject: [PATCH 43/57] fix: reject unsupported actions and constants in
 scripts

They were returned as nil.
---
 wast/parse/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index ea40b1f..468918b 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -224,6 +224,8 @@ func parseAction(lexer *lex.Lexer) (res types.Result[ast.Action]) {
 		action = parseInvoke(lexer).Unwrap()
 	case "get":
 		action = parseGet(lexer).Unwrap()
+	default:
+		return result.Errorf[ast.Action]("%w : unrecognized action '%s'", parseError(tok), tok.Capture)
 	}
 
 	expect(lexer, token.CloseParen).Unwrap()
@@ -298,8 +300,6 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 		c = ast.F64Const{
 			Value: parseFloat64(lexer).Unwrap(),
 		}
-	case "ref.null":
-	case "ref.extern":
 	default:
 		return result.Error[ast.Const](parseError(tok))
 	}
@@ -319,7 +319,7 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 		c := parseConst(lexer).Unwrap()
 		r, ok := c.(ast.Result)
 		if !ok {
-			continue
+			return result.Errorf[[]ast.Result]("unrecognized result %T", c)
 		}
 		results = append(results, r)
 		expect(lexer, token.CloseParen).Unwrap()
-- 
2.43.0


From 59680217c4dc970a3c5af791fa44e597310bd212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:07 +0000
Subject: [PATCH 44/57] fix: return errors from the WIT lexer's Peek

Peek panicked where Next returned an error. Both now leave the lexer in front
of the input that is no token, so that the error is found again.
---
 wit/lex/lexer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 611ea99..528351f 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -71,8 +71,12 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
-	return l.peekToken, nil
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
+	return tok, nil
 }
 
 func (l *Lexer) next() (res types.Result[*token.Token]) {
@@ -323,6 +327,8 @@ func (l *Lexer) readRune() (res types.Option[rune]) {
 }
 
 func (l *Lexer) lexerError() error {
+	// start over at the same place if the lexer is used after the error
+	defer func() { l.position = l.offset }()
 	return fmt.Errorf("error parsing at line: %d column: %d position: %d", l.line, l.column, l.position)
 }
 
-- 
2.43.0


From 91db5d8a3f223421fc56359222da47b5769a1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:08 +0000
Subject: [PATCH 45/57] fix: reject a percent sign without an identifier

---
 wit/lex/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 528351f..821477d 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -157,9 +157,10 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 	case r == '+':
 		return l.token(token.Plus)
 	case r == '%':
-		if l.eatIf(isKeyLikeStart).Unwrap() {
-			for l.eatIf(isKeyLikeContinue).Unwrap() {
-			}
+		if !l.eatIf(isKeyLikeStart).Unwrap() {
+			return result.Errorf[*token.Token]("%w : expected identifier behind %%", l.lexerError())
+		}
+		for l.eatIf(isKeyLikeContinue).Unwrap() {
 		}
 		return l.token(token.ExplicitId)
 
-- 
2.43.0


From 3226e731de6e72eaa79d450ce8669e0b0cb3f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:09 +0000
Subject: [PATCH 46/57] fix: reject unknown items at the top level of a
 document

Any token was accepted and added an empty item. This also happened with the
semicolon behind a top level use.
---
 wit/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 4451f84..bbfdb91 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -44,6 +44,8 @@ func parseAst(lexer *lex.Lexer) (res types.Result[*ast.Ast]) {
 			item.World = parseWorld(lexer).Unwrap()
 		case token.Interface:
 			item.Interface = parseInterface(lexer).Unwrap()
+		default:
+			return result.Errorf[*ast.Ast]("%w : expected (use, world, interface) but found '%s'", parseError(tok), tok.Capture)
 		}
 		n.Items = append(n.Items, *item)
 
@@ -106,6 +108,8 @@ func parseTopLevelUse(lexer *lex.Lexer) (res types.Result[*ast.TopLevelUse]) {
 	} else {
 		topLevelUse.As = option.None[string]()
 	}
+	// ;
+	eat(lexer, token.Semicolon).Unwrap()
 	return result.Ok(topLevelUse)
 }
 
-- 
2.43.0


From 6cff03b1df6e48e4ec9e798628e49593af3b19cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:10 +0000
Subject: [PATCH 47/57] fix: require an identifier as package namespace

---
 wit/parse/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index bbfdb91..6fa2059 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -59,7 +59,7 @@ func parsePackageDeclaration(lexer *lex.Lexer) (res types.Result[*ast.PackageDec
 
 	// id
 	packageName := &ast.PackageDeclaration{}
-	packageName.Namespace = next(lexer).Unwrap().Capture
+	packageName.Namespace = parseId(lexer).Unwrap()
 
 	// ':'
 	expect(lexer, token.Colon).Unwrap()
-- 
2.43.0


From 61c24cd0bf9bc6a6a6dbd5e421f0e2ea03e511d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:12 +0000
Subject: [PATCH 48/57] fix: parse version numbers as decimal numbers

Numbers with a leading zero were taken for octal and large ones were errors.
---
 wit/parse/parser.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 6fa2059..2cf62fa 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -91,9 +91,9 @@ func parseVersion(lexer *lex.Lexer) (res types.Result[*ast.Version]) {
 	patch := parseInteger(lexer).Unwrap()
 
 	return result.Ok(&ast.Version{
-		Major: uint64(major),
-		Minor: uint64(minor),
-		Patch: uint64(patch),
+		Major: major,
+		Minor: minor,
+		Patch: patch,
 	})
 }
 
@@ -896,15 +896,14 @@ func parseId(lexer *lex.Lexer) (res types.Result[string]) {
 	}
 }
 
-func parseInteger(lexer *lex.Lexer) (res types.Result[int64]) {
+func parseInteger(lexer *lex.Lexer) (res types.Result[uint64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	switch tok.Type {
 	case token.Integer:
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(i, err)
+		return result.New(strconv.ParseUint(tok.Capture, 10, 64))
 	default:
-		return result.Errorf[int64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
+		return result.Errorf[uint64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
 	}
 }
 func eat(lexer *lex.Lexer, tokenType token.TokenType) (res types.Result[bool]) {
-- 
2.43.0


From 9737ba5ea147dea1a548876e192f65175e357587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:13 +0000
Subject: [PATCH 49/57] fix: parse all primitive types and reject what is no
 type

Most primitive types became identifiers, and so did any other token in the
place of a type.
---
 wit/parse/parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 2cf62fa..28ac45d 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -481,8 +481,26 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	var ty ast.Type
 	switch name.Type {
+	case token.U8:
+		ty = &ast.U8{}
+	case token.U16:
+		ty = &ast.U16{}
 	case token.U32:
 		ty = &ast.U32{}
+	case token.U64:
+		ty = &ast.U64{}
+	case token.S8:
+		ty = &ast.S8{}
+	case token.S16:
+		ty = &ast.S16{}
+	case token.S32:
+		ty = &ast.S32{}
+	case token.S64:
+		ty = &ast.S64{}
+	case token.Char:
+		ty = &ast.Char{}
+	case token.Bool:
+		ty = &ast.Bool{}
 	case token.String:
 		ty = &ast.String{}
 	case token.Float32:
@@ -513,8 +531,10 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 			Id: parseId(lexer).Unwrap(),
 		}
 		expect(lexer, token.Greater).Unwrap()
-	default:
+	case token.Id, token.ExplicitId:
 		ty = &ast.Id{Value: name.Capture}
+	default:
+		return result.Errorf[ast.Type]("%w : expected type but found '%s'", parseError(name), name.Capture)
 	}
 
 	return result.Ok(ty)
-- 
2.43.0


From 6e2d13023dd7ae69d40218cfb3b49ea7442fb211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:14 +0000
Subject: [PATCH 50/57] fix: set the item type of lists and options

---
 wit/parse/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 28ac45d..326224b 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -587,7 +587,7 @@ func parseList(lexer *lex.Lexer) (res types.Result[*ast.List]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.List{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
@@ -597,7 +597,7 @@ func parseOption(lexer *lex.Lexer) (res types.Result[*ast.Option]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.Option{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
-- 
2.43.0


From 037ba5ff21feb15d03358d8cd8e301b88f4a775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:15 +0000
Subject: [PATCH 51/57] fix: parse use paths with a package

Paths like foo:bar/baz@1.0.0 were an error wherever they were used.
---
 wit/parse/parser.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 326224b..3992d54 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -354,7 +354,6 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 	name := parseId(lexer).Unwrap()
 	version := parseOptionalVersion(lexer).Unwrap()
 	usePath := &ast.UsePath{
-		Id: "string",
 		Package: struct {
 			Id   *ast.PackageDeclaration
 			Name string
@@ -371,7 +370,12 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 }
 
 func parseOptionalVersion(lexer *lex.Lexer) (res types.Result[types.Option[ast.Version]]) {
-	return result.Errorf[types.Option[ast.Version]]("not implemented")
+	defer handle.Error(&res)
+	if !eat(lexer, token.At).Unwrap() {
+		return result.Ok(option.None[ast.Version]())
+	}
+	version := parseVersion(lexer).Unwrap()
+	return result.Ok(option.Some(*version))
 }
 
 func parseFuncItem(lexer *lex.Lexer) (res types.Result[*ast.FuncItem]) {
@@ -747,13 +751,7 @@ func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 	clone := lexer.Clone()
 	id := parseId(clone).Unwrap()
 	if !eat(clone, token.Colon).Unwrap() {
-
-		usePath := parseUsePath(lexer).Unwrap()
-		expect(lexer, token.Semicolon).Unwrap()
-
-		return result.Ok[ast.ExternType](&ast.ExternTypeUsePath{
-			UsePath: usePath,
-		})
+		return parseExternTypeUsePath(lexer)
 	}
 
 	tok := peek(clone).Unwrap()
@@ -777,7 +775,16 @@ func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 		})
 	}
 
-	return result.Errorf[ast.ExternType]("unable to parse ExternType %w", parseError(tok))
+	return parseExternTypeUsePath(lexer)
+}
+
+func parseExternTypeUsePath(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
+	defer handle.Error(&res)
+	usePath := parseUsePath(lexer).Unwrap()
+	expect(lexer, token.Semicolon).Unwrap()
+	return result.Ok[ast.ExternType](&ast.ExternTypeUsePath{
+		UsePath: usePath,
+	})
 }
 
 // record-item ::= 'record' id '{' record-fields '}'
-- 
2.43.0


From abebbbea514940e7d004f30c8ae3745efba180c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:16 +0000
Subject: [PATCH 52/57] fix: separate the names of an include with commas

---
 wit/parse/parser.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 3992d54..f0f6bcf 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -724,16 +724,10 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	}
 
 	if eat(lexer, token.With).Unwrap() {
-		expect(lexer, token.OpenBrace).Unwrap()
-		for !eat(lexer, token.CloseBrace).Unwrap() {
-			id := parseId(lexer).Unwrap()
-			expect(lexer, token.As).Unwrap()
-			as := parseId(lexer).Unwrap()
-			include.Names = append(include.Names, ast.IncludeName{
-				Name: id,
-				As:   as,
-			})
-		}
+		include.Names = parseItemList(
+			lexer,
+			token.OpenBrace, token.CloseBrace,
+			parseIncludeName).Unwrap()
 	} else {
 		expect(lexer, token.Semicolon).Unwrap()
 	}
@@ -741,6 +735,17 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	return result.Ok[ast.WorldItem](include)
 }
 
+func parseIncludeName(lexer *lex.Lexer) (res types.Result[ast.IncludeName]) {
+	defer handle.Error(&res)
+	id := parseId(lexer).Unwrap()
+	expect(lexer, token.As).Unwrap()
+	as := parseId(lexer).Unwrap()
+	return result.Ok(ast.IncludeName{
+		Name: id,
+		As:   as,
+	})
+}
+
 func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 	defer handle.Error(&res)
 
-- 
2.43.0


From 5bb27bb7905dd8b52ca6ef626717aa306470a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:18 +0000
Subject: [PATCH 53/57] fix: accept flags and enums in worlds

---
 wit/parse/parser.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index f0f6bcf..c2318bf 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -674,14 +674,8 @@ func parseWorldItem(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 		worldItem = parseImport(lexer).Unwrap()
 	case token.Use:
 		worldItem = parseUse(lexer).Unwrap()
-	case token.Type:
+	case token.Type, token.Record, token.Flags, token.Variant, token.Enum, token.Resource:
 		worldItem = parseTypeDef(lexer).Unwrap()
-	case token.Record:
-		worldItem = parseRecord(lexer).Unwrap()
-	case token.Variant:
-		worldItem = parseVariant(lexer).Unwrap()
-	case token.Resource:
-		worldItem = parseResource(lexer).Unwrap()
 	case token.Include:
 		worldItem = parseInclude(lexer).Unwrap()
 
-- 
2.43.0


From 29cfdfd1b43ed14605fcc4a1698cf35b1b16fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:19 +0000
Subject: [PATCH 54/57] fix: set the id of resource methods

---
 wit/parse/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index c2318bf..2a85695 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -254,6 +254,7 @@ func parseResourceMethod(lexer *lex.Lexer) (res types.Result[ast.ResourceMethod]
 		// throw away the clone
 		funcItem := parseFuncItem(lexer).Unwrap()
 		resourceMethod = ast.Method{
+			ID:   funcItem.ID,
 			Func: funcItem,
 		}
 	} else {
-- 
2.43.0


From 02949b8f14bbab904ed355170025d8ceddb286e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:20 +0000
Subject: [PATCH 55/57] fix: remove the percent sign from identifiers

%foo and foo are the same identifier.
---
 wit/parse/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 2a85695..c1a488a 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -536,8 +536,10 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 			Id: parseId(lexer).Unwrap(),
 		}
 		expect(lexer, token.Greater).Unwrap()
-	case token.Id, token.ExplicitId:
+	case token.Id:
 		ty = &ast.Id{Value: name.Capture}
+	case token.ExplicitId:
+		ty = &ast.Id{Value: name.Capture[1:]}
 	default:
 		return result.Errorf[ast.Type]("%w : expected type but found '%s'", parseError(name), name.Capture)
 	}
@@ -917,7 +919,8 @@ func parseId(lexer *lex.Lexer) (res types.Result[string]) {
 	case token.Id:
 		return result.Ok(tok.Capture)
 	case token.ExplicitId:
-		return result.Ok(tok.Capture)
+		// the percent sign is not part of the id
+		return result.Ok(tok.Capture[1:])
 	default:
 		return result.Errorf[string]("%w : found value '%s', type '%v' but expected (id, explicit_id)", parseError(tok), tok.Capture, tok.Type)
 	}
-- 
2.43.0


From 15a1ccb924d921af237275f4e5b395aa00844652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:15 +0000
Subject: [PATCH 56/57] fix: report or replace an incomplete character at the
 end of encoded text

---
 encoding/codec.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/encoding/codec.go b/encoding/codec.go
index 4ba55af..a5ffe22 100644
--- a/encoding/codec.go
+++ b/encoding/codec.go
@@ -4,6 +4,7 @@ import (
 	"io"
 
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 type Codec interface {
@@ -37,9 +38,12 @@ type codec struct {
 
 func (c *codec) Encode(dst io.Writer, src io.Reader) error {
 	encoder := c.enc.NewEncoder()
-	writer := encoder.Writer(dst)
-	_, err := io.Copy(writer, src)
-	return err
+	writer := transform.NewWriter(dst, encoder)
+	if _, err := io.Copy(writer, src); err != nil {
+		return err
+	}
+	// the writer holds back an incomplete character until it is closed
+	return writer.Close()
 }
 
 func (c *codec) Decode(dst io.Writer, src io.Reader) error {
-- 
2.43.0


From 2bfb7ede3a0d1f759afe4eab3b0ff004d222f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:46 +0000
Subject: [PATCH 57/57] fix: do not take the top bit of an utf-8 length for a
 tag

---
 abi/io/load.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index 54554e1..b0adf10 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -242,7 +242,13 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", err
 	}
 
-	byteLength := uint64(tcu.CodeUnits) * uint64(codec.RuneSize())
+	codeUnits := tcu.CodeUnits
+	if srcEncoding == encoding.UTF8 {
+		// the length of utf8 strings has no tag
+		codeUnits = taggedCodeUnits
+	}
+
+	byteLength := uint64(codeUnits) * uint64(codec.RuneSize())
 	align, err := AlignTo(ptr, uint32(codec.Alignment()))
 
 	if err != nil {
-- 
2.43.0

