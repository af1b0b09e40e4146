From 79273d7af41cf08b7b6e0547a6b6450e81a7e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 01/66] fix: empty theta and tuple union results report theta 1

A union created with a sampling probability below 1 returned an empty
result whose theta was the sampling probability, unlike every other empty
sketch, so that serializing the result did not preserve theta.
---
 theta/union.go                | 2 +-
 tuple/arrayofnumbers_union.go | 2 +-
 tuple/union.go                | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/theta/union.go b/theta/union.go
index b501639..b150fe1 100644
--- a/theta/union.go
+++ b/theta/union.go
@@ -163,7 +163,7 @@ func (u *Union) Result(ordered bool) (*CompactSketch, error) {
 		if err != nil {
 			return nil, err
 		}
-		return newCompactSketchFromEntries(true, true, uint16(seedHash), u.theta, nil), nil
+		return newCompactSketchFromEntries(true, true, uint16(seedHash), MaxTheta, nil), nil
 	}
 
 	var entries []uint64
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 8d5cc36..070a526 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -142,7 +142,7 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 		if err != nil {
 			return nil, err
 		}
-		return newArrayOfNumbersCompactSketch[V](true, true, uint16(seedHash), u.theta, nil, u.numValuesInSummary), nil
+		return newArrayOfNumbersCompactSketch[V](true, true, uint16(seedHash), theta.MaxTheta, nil, u.numValuesInSummary), nil
 	}
 
 	var entries []entry[*ArrayOfNumbersSummary[V]]
diff --git a/tuple/union.go b/tuple/union.go
index b2468d4..4399b7e 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -234,7 +234,7 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 		if err != nil {
 			return nil, err
 		}
-		return newCompactSketch[S](true, true, uint16(seedHash), u.theta, nil), nil
+		return newCompactSketch[S](true, true, uint16(seedHash), theta.MaxTheta, nil), nil
 	}
 
 	var entries []entry[S]
-- 
2.43.0


From e3b734404fdc37bb8153227e21ec0fce418adebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 02/66] fix: theta MaxSerializedSizeBytes no longer overflows
 its uint8 result

The maximum serialized size of any lgK above 5 does not fit the uint8 that
was returned (lgK=7 reported 152 bytes instead of 1944).
---
 theta/compact_sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theta/compact_sketch.go b/theta/compact_sketch.go
index 82959bc..979c83d 100644
--- a/theta/compact_sketch.go
+++ b/theta/compact_sketch.go
@@ -272,9 +272,9 @@ func (s *CompactSketch) preambleLongs(compressed bool) uint8 {
 
 // MaxSerializedSizeBytes computes maximum serialized size in bytes
 // lgK is the nominal number of entries in the sketch
-func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) uint8 {
+func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) int {
 	capacity := computeCapacity(lgK+1, lgK)
-	return uint8(8 * (3 + int(capacity)))
+	return 8 * (3 + int(capacity))
 }
 
 // SerializedSizeBytes computes the size in bytes required to serialize the current state of the sketch.
-- 
2.43.0


From fa5c194eb54239b121fd4c224454a14b3d47ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 03/66] fix: tuple sketch from a theta sketch gives each entry
 its own summary

---
 tuple/compact_sketch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tuple/compact_sketch.go b/tuple/compact_sketch.go
index b7af325..43cc753 100644
--- a/tuple/compact_sketch.go
+++ b/tuple/compact_sketch.go
@@ -103,9 +103,14 @@ func NewCompactSketchFromThetaSketch[S Summary](
 
 	entries := make([]entry[S], 0, sketch.NumRetained())
 	for hash := range sketch.All() {
+		cloned, ok := summary.Clone().(S)
+		if !ok {
+			return nil, fmt.Errorf("cloned summary is not S")
+		}
+
 		entries = append(entries, entry[S]{
 			Hash:    hash,
-			Summary: summary,
+			Summary: cloned,
 		})
 	}
 
-- 
2.43.0


From 97a71616dadaab7c90eb01a79429f784b6634f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 04/66] fix: ArrayOfStringsSummary keeps its own copy of the
 strings

---
 tuple/arrayofstrings_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuple/arrayofstrings_sketch.go b/tuple/arrayofstrings_sketch.go
index f9134d4..d01c1ad 100644
--- a/tuple/arrayofstrings_sketch.go
+++ b/tuple/arrayofstrings_sketch.go
@@ -72,7 +72,7 @@ func (s *ArrayOfStringsSummary) Clone() Summary {
 
 // Update incorporates a new string value into the summary.
 func (s *ArrayOfStringsSummary) Update(values []string) {
-	s.values = values
+	s.values = append([]string{}, values...)
 }
 
 // ArrayOfStringsSummaryWriter writes an ArrayOfStringsSummary to the provided io.Writer in binary format.
-- 
2.43.0


From c083dd7ba2dc64be0069b90600fa2298f607263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 05/66] fix: tuple set operations own their summaries instead
 of aliasing their inputs' and results'

---
 tuple/arrayofnumbers_intersection.go |  7 ++++++-
 tuple/arrayofnumbers_union.go        | 15 ++++++++++++++-
 tuple/intersection.go                |  7 ++++++-
 tuple/union.go                       | 15 ++++++++++++++-
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/tuple/arrayofnumbers_intersection.go b/tuple/arrayofnumbers_intersection.go
index 45f1668..6674099 100644
--- a/tuple/arrayofnumbers_intersection.go
+++ b/tuple/arrayofnumbers_intersection.go
@@ -118,9 +118,14 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 				return errors.New("duplicate key, possibly corrupted input sketch")
 			}
 
+			cloned, ok := summary.Clone().(*ArrayOfNumbersSummary[V])
+			if !ok {
+				return errors.New("cloned summary is not ArrayOfNumbersSummary[V]")
+			}
+
 			i.hashtable.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: cloned,
 			})
 		}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 070a526..9984557 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -113,9 +113,14 @@ func (u *ArrayOfNumbersSketchUnion[V]) Update(sketch ArrayOfNumbersSketch[V]) er
 			index, err := u.hashtable.Find(hash)
 			if err != nil {
 				if err == ErrKeyNotFound {
+					cloned, ok := summary.Clone().(*ArrayOfNumbersSummary[V])
+					if !ok {
+						return fmt.Errorf("cloned summary is not ArrayOfNumbersSummary[V]")
+					}
+
 					u.hashtable.Insert(index, entry[*ArrayOfNumbersSummary[V]]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: cloned,
 					})
 					continue
 				}
@@ -172,6 +177,14 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 		entries = entries[:nominalNum]
 	}
 
+	for i := range entries {
+		cloned, ok := entries[i].Summary.Clone().(*ArrayOfNumbersSummary[V])
+		if !ok {
+			return nil, fmt.Errorf("cloned summary is not ArrayOfNumbersSummary[V]")
+		}
+		entries[i].Summary = cloned
+	}
+
 	if ordered {
 		slices.SortFunc(entries, u.entryLessFunc)
 	}
diff --git a/tuple/intersection.go b/tuple/intersection.go
index d11360b..533679c 100644
--- a/tuple/intersection.go
+++ b/tuple/intersection.go
@@ -155,9 +155,14 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 				return errors.New("duplicate key, possibly corrupted input sketch")
 			}
 
+			cloned, ok := summary.Clone().(S)
+			if !ok {
+				return errors.New("cloned summary is not S")
+			}
+
 			i.hashtable.Insert(idx, entry[S]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: cloned,
 			})
 		}
 
diff --git a/tuple/union.go b/tuple/union.go
index 4399b7e..75a03e0 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -201,9 +201,14 @@ func (u *Union[S]) Update(sketch Sketch[S]) error {
 			index, err := u.hashtable.Find(hash)
 			if err != nil {
 				if err == ErrKeyNotFound {
+					cloned, ok := summary.Clone().(S)
+					if !ok {
+						return fmt.Errorf("cloned summary is not S")
+					}
+
 					u.hashtable.Insert(index, entry[S]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: cloned,
 					})
 					continue
 				}
@@ -264,6 +269,14 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 		entries = entries[:nominalNum]
 	}
 
+	for i := range entries {
+		cloned, ok := entries[i].Summary.Clone().(S)
+		if !ok {
+			return nil, fmt.Errorf("cloned summary is not S")
+		}
+		entries[i].Summary = cloned
+	}
+
 	if ordered {
 		slices.SortFunc(entries, u.entryLessFunc)
 	}
-- 
2.43.0


From e1ba4dcf5f831f3546075a7a6d9876225c37325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 06/66] fix: HLL_4 exception table may outgrow half of a small
 sketch

---
 hll/aux_hash_map.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hll/aux_hash_map.go b/hll/aux_hash_map.go
index 75e0480..aacbe1b 100644
--- a/hll/aux_hash_map.go
+++ b/hll/aux_hash_map.go
@@ -195,9 +195,6 @@ func (a *auxHashMap) growAuxSpace() error {
 // Continues searching.
 // If the probe comes back to original index, return an error.
 func findAuxHashMap(auxArr []int, lgAuxArrInts int, lgConfigK int, slotNo int) (int, error) {
-	if lgAuxArrInts >= lgConfigK {
-		return 0, fmt.Errorf("lgAuxArrInts >= lgConfigK")
-	}
 	auxArrMask := (1 << lgAuxArrInts) - 1
 	configKMask := (1 << lgConfigK) - 1
 	probe := slotNo & auxArrMask
-- 
2.43.0


From 5d990a8573caf10c71f1fba113d62a7bf3deb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 07/66] fix: HLL union merges full-array sketches of any
 precision

---
 hll/union.go | 67 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 7 deletions(-)

diff --git a/hll/union.go b/hll/union.go
index 24491c2..d350cde 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -242,7 +242,7 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 
 	if srcLgK < gdgtLgK {
-		bit3 = 0
+		bit3 = 8
 	}
 
 	if srcLgK > u.lgMaxK {
@@ -270,7 +270,12 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		// case 16: src >  max, src >= gdt, gdtList, gdtHeap
 		// case 18: src >  max, src >= gdt, gdtSet,  gdtHeap
 		{ //Action: downsample src to MaxLgK, reverse merge w/autofold, ooof=src
-			return nil, fmt.Errorf("not implemented cas 16,18")
+			srcHll8, err := downsample(source, u.lgMaxK)
+			if err != nil {
+				return nil, err
+			}
+			err = gadgetC.mergeTo(srcHll8)
+			return srcHll8.(*hllSketchState).sketch, err
 		}
 	case 4, 20:
 		// case 4: src <= max, src >= gdt, gdtHLL, gdtHeap
@@ -286,7 +291,16 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 12: //src <= max, src <  gdt, gdtHLL, gdtHeap
 		{ //Action: downsample gdt to srcLgK, forward HLL merge w/autofold, ooof=True
-			return nil, fmt.Errorf("not implemented case 12")
+			gdgtHll8, err := downsample(u.gadget, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			err = mergeHlltoHLLmode(source, gdgtHll8, srcLgK, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			gdgtHll8.(*hllSketchState).sketch.putOutOfOrder(true)
+			return gdgtHll8.(*hllSketchState).sketch, nil
 		}
 	case 6, 14:
 		// case 6: src <= max, src >= gdt, gdtEmpty, gdtHeap
@@ -300,7 +314,11 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 22: //src >  max, src >= gdt, gdtEmpty, gdtHeap
 		{ //Action: downsample src to lgMaxK, replace gdt, ooof=src
-			return nil, fmt.Errorf("not implemented")
+			srcHll8, err := downsample(source, u.lgMaxK)
+			if err != nil {
+				return nil, err
+			}
+			return srcHll8.(*hllSketchState).sketch, nil
 		}
 	default:
 		return nil, fmt.Errorf("impossible")
@@ -362,6 +380,31 @@ func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 	return nil
 }
 
+// downsample returns a new HLL_8 sketch in HLL mode with the given smaller lgK and the content of the
+// candidate, which must be in HLL mode.
+func downsample(candidate HllSketch, tgtLgK int) (HllSketch, error) {
+	candArr := candidate.(*hllSketchState).sketch.(hllArray)
+	tgtArr, err := newHllArray(tgtLgK, TgtHllTypeHll8)
+	if err != nil {
+		return nil, err
+	}
+	itr := candidate.iterator()
+	for itr.nextAll() {
+		p, err := itr.getPair()
+		if err != nil {
+			return nil, err
+		}
+		_, err = tgtArr.couponUpdate(p) //rebuilds KxQ, etc.; a zero register changes nothing
+		if err != nil {
+			return nil, err
+		}
+	}
+	//both of these are required for isomorphism
+	tgtArr.putHipAccum(candArr.getHipAccum())
+	tgtArr.putOutOfOrder(candArr.isOutOfOrder())
+	return newHllSketchState(tgtArr), nil
+}
+
 func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) error {
 	sw := 0
 	if srcLgK > tgtLgK {
@@ -446,9 +489,19 @@ func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) err
 				}
 			}
 		}
-		// TODO continue implementing
-	default:
-		return fmt.Errorf("not implemented")
+	default: //srcLgK > tgtLgK, any source type: fold the source slots
+		{
+			tgtAbsHllArr := tgt.(*hllSketchState).sketch.(*hll8ArrayImpl)
+			tgtKmask := (1 << tgtLgK) - 1
+			itr := src.iterator()
+			for itr.nextAll() {
+				v, err := itr.getValue()
+				if err != nil {
+					return err
+				}
+				tgtAbsHllArr.updateSlotNoKxQ(itr.getIndex()&tgtKmask, v)
+			}
+		}
 	}
 	tgt.(*hllSketchState).sketch.putRebuildCurMinNumKxQFlag(true)
 	return nil
-- 
2.43.0


From f39d9e417bc26ff83a609584106b1937abca1830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 08/66] fix: HLL union estimates and bounds use up-to-date
 registers

---
 hll/union.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hll/union.go b/hll/union.go
index d350cde..b06d4c0 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -68,10 +68,16 @@ func (u *unionImpl) iterator() pairIterator {
 //}
 
 func (u *unionImpl) GetUpperBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetUpperBound(numStdDev)
 }
 
 func (u *unionImpl) GetLowerBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetLowerBound(numStdDev)
 }
 
@@ -125,10 +131,16 @@ func NewUnionFromSlice(byteArray []byte) (Union, error) {
 }
 
 func (u *unionImpl) GetCompositeEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetCompositeEstimate()
 }
 
 func (u *unionImpl) GetEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetEstimate()
 }
 
-- 
2.43.0


From 25dffd4d7576d6888b7f9f1a237ef92dd0f1c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 09/66] fix: decoded HLL sketch keeps its own copy of the
 registers

---
 hll/hll_array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hll/hll_array.go b/hll/hll_array.go
index 521eb16..8666a28 100644
--- a/hll/hll_array.go
+++ b/hll/hll_array.go
@@ -317,5 +317,5 @@ func (a *hllArrayImpl) extractCommonHll(byteArr []byte) {
 	a.putNumAtCurMin(extractNumAtCurMin(byteArr))
 	a.putRebuildCurMinNumKxQFlag(extractRebuildCurMinNumKxQFlag(byteArr))
 
-	a.hllByteArr = byteArr[hllByteArrStart : hllByteArrStart+len(a.hllByteArr)]
+	copy(a.hllByteArr, byteArr[hllByteArrStart:hllByteArrStart+len(a.hllByteArr)])
 }
-- 
2.43.0


From b13883d4f8f52f132fde5038f5bc54b26047467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 10/66] fix: HLL register sums rebuilt after a merge keep the
 terms of large registers

---
 hll/union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hll/union.go b/hll/union.go
index b06d4c0..2df8a36 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -369,7 +369,8 @@ func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 				if err != nil {
 					return err
 				}
-				kxq1 += inv - 1.0
+				kxq0 -= 1.0 //the slot no longer counts as a zero
+				kxq1 += inv
 			}
 		}
 		if v > curMin {
-- 
2.43.0


From 500154d578273da35686054db0826304585424af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 11/66] fix: HLL lower bound never exceeds the estimate

---
 hll/hll_estimator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hll/hll_estimator.go b/hll/hll_estimator.go
index 941fa48..f054fc6 100644
--- a/hll/hll_estimator.go
+++ b/hll/hll_estimator.go
@@ -142,7 +142,8 @@ func hllLowerBound(hllArray *hllArrayImpl, numStdDev int) (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return math.Max(estimate/(1.0+relErr), numNonZeros), nil
+	// A small out-of-order sketch can estimate less than its number of non-zero registers.
+	return math.Min(math.Max(estimate/(1.0+relErr), numNonZeros), estimate), nil
 }
 
 func getRelErrAllK(upperBound bool, oooFlag bool, lgConfigK int, numStdDev int) (float64, error) {
-- 
2.43.0


From ad0a8ecd1a2c88b45ea2112d386cb3b8e2601693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 12/66] fix: hash of an int32 slice covers every element

---
 internal/murmur3.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/murmur3.go b/internal/murmur3.go
index 9b00be2..66cef7b 100644
--- a/internal/murmur3.go
+++ b/internal/murmur3.go
@@ -71,8 +71,8 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 
 	// Process the 128-bit blocks (the body) into the hash
 	for i := 0; i < nblocks; i++ {
-		k1 := uint64(key[offsetInts+(i<<2)])   //offsetInts + 0, 4, 8, ...
-		k2 := uint64(key[offsetInts+(i<<2)+2]) //offsetInts + 2, 6, 10, ...
+		k1 := joinInt32s(key[offsetInts+(i<<2)], key[offsetInts+(i<<2)+1])   //offsetInts + 0, 4, 8, ...
+		k2 := joinInt32s(key[offsetInts+(i<<2)+2], key[offsetInts+(i<<2)+3]) //offsetInts + 2, 6, 10, ...
 		hashState.blockMix128(k1, k2)
 	}
 
@@ -84,18 +84,23 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 	k1 := uint64(0)
 	k2 := uint64(0)
 	if rem > 2 {
-		k1 = uint64(key[offsetInts+tail]) //k2 -> whole; k1 -> partial
+		k1 = joinInt32s(key[offsetInts+tail], key[offsetInts+tail+1]) //k1 -> whole; k2 -> partial
 		k2 = uint64(key[offsetInts+tail+2])
-	} else {
-		if rem != 0 {
-			k1 = uint64(key[offsetInts+tail]) //k1 -> whole(2), partial(1) or 0; k2 == 0
-		}
+	} else if rem == 2 {
+		k1 = joinInt32s(key[offsetInts+tail], key[offsetInts+tail+1]) //k1 -> whole; k2 == 0
+	} else if rem == 1 {
+		k1 = uint64(key[offsetInts+tail]) //k1 -> partial; k2 == 0
 	}
 
 	// Mix the tail into the hash and return
 	return hashState.finalMix128(k1, k2, uint64(lengthInts)<<2) //convert to bytes
 }
 
+// joinInt32s returns the 64-bit word of two consecutive ints, the first one in the low half.
+func joinInt32s(lo, hi int32) uint64 {
+	return uint64(uint32(lo)) | uint64(uint32(hi))<<32
+}
+
 func HashInt64SliceMurmur3(key []int64, offsetLongs int, lengthLongs int, seed uint64) (uint64, uint64) {
 	hashState := SimpleMurmur3{h1: seed, h2: seed}
 
-- 
2.43.0


From d5e345cfd3ea255987c2a31b75ece2dea062538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 13/66] fix: CPC pair sort covers the whole range once
 insertion gets costly

---
 cpc/pair_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index d4ae1c8..f163e50 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -213,7 +213,7 @@ func introspectiveInsertionSort(a []int, l, r int) {
 			for m := 0; m < len(a); m++ {
 				b[m] = a[m] & 0xFFFF_FFFF
 			}
-			slices.Sort(b[j : r+1])
+			slices.Sort(b[l : r+1])
 			for m := 0; m < len(a); m++ {
 				a[m] = b[m]
 			}
-- 
2.43.0


From 74f87ac808cb28aec2cacf8fce4a27d0b9f10c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 14/66] fix: CPC pair table stops growing at one slot per
 possible pair

---
 cpc/pair_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index f163e50..0aaad78 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -78,7 +78,7 @@ func (p *pairTable) maybeInsert(item int) (bool, error) {
 	//assert (fetched == -1)
 	p.slotsArr[probe] = item
 	p.numPairs++
-	for (upsizeDenom * p.numPairs) > (upsizeNumer * (1 << p.lgSizeInts)) {
+	for p.lgSizeInts < p.validBits && (upsizeDenom*p.numPairs) > (upsizeNumer*(1<<p.lgSizeInts)) {
 		if err := p.rebuild(p.lgSizeInts + 1); err != nil {
 			return false, err
 		}
@@ -317,7 +317,7 @@ func (p *pairTable) unwrap(numPairs int) ([]int, error) {
 func newInstanceFromPairsArray(pairs []int, numPairs, lgK int) (*pairTable, error) {
 	lgNumSlots := 2
 	// Increase lgNumSlots until the table is large enough.
-	for (upsizeDenom * numPairs) > (upsizeNumer * (1 << lgNumSlots)) {
+	for lgNumSlots < 6+lgK && (upsizeDenom*numPairs) > (upsizeNumer*(1<<lgNumSlots)) {
 		lgNumSlots++
 	}
 	// Create a new pairTable with validBits = 6 + lgK.
-- 
2.43.0


From 5c3f21b4fbdf9ac84f99700e32bc9089fe191b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 15/66] fix: CpcUnion.GetBitMatrix returns a copy of the matrix

---
 cpc/cpc_union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpc/cpc_union.go b/cpc/cpc_union.go
index c7caa04..326fa0b 100644
--- a/cpc/cpc_union.go
+++ b/cpc/cpc_union.go
@@ -20,6 +20,7 @@ package cpc
 import (
 	"fmt"
 	"math/bits"
+	"slices"
 
 	"github.com/apache/datasketches-go/internal"
 )
@@ -351,7 +352,7 @@ func (u *CpcUnion) GetBitMatrix() ([]uint64, error) {
 	}
 
 	if u.bitMatrix != nil {
-		return u.bitMatrix, nil
+		return slices.Clone(u.bitMatrix), nil
 	}
 
 	if u.accumulator == nil {
-- 
2.43.0


From 9f118e4138a675cc7188caaf2df7e0f990109a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 16/66] fix: decoding a CPC sketch checks the seed hash

---
 cpc/cpc_sketch.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index eeaec0c..0e7fb86 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -97,21 +97,7 @@ func NewCpcSketchFromSlice(bytes []byte, seed uint64) (*CpcSketch, error) {
 		return nil, err
 	}
 
-	sketch, err := NewCpcSketch(c.LgK, seed)
-	if err != nil {
-		return nil, err
-	}
-	sketch.numCoupons = c.NumCoupons
-	sketch.windowOffset = c.getWindowOffset()
-	sketch.fiCol = c.FiCol
-	sketch.mergeFlag = c.MergeFlag
-	sketch.kxp = c.Kxp
-	sketch.hipEstAccum = c.HipEstAccum
-	sketch.slidingWindow = nil
-	sketch.pairTable = nil
-
-	err = c.uncompress(sketch)
-	return sketch, err
+	return uncompressSketch(c, seed)
 }
 
 func NewCpcSketchFromSliceWithDefault(bytes []byte) (*CpcSketch, error) {
-- 
2.43.0


From 3e244c1f7d8b35fadaa2f6c88e96177c6ca746b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 17/66] fix: wrapped empty CPC sketch has estimate and bounds
 zero

---
 cpc/utils.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpc/utils.go b/cpc/utils.go
index b39ebd3..eabf5d2 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -331,7 +331,10 @@ func getKxP(mem []byte) float64 {
 }
 
 func getHipAccum(bytes []byte) float64 {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldHipAccum)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldHipAccum)
+	if err != nil { // an empty sketch has no such field
+		return 0
+	}
 	return math.Float64frombits(binary.LittleEndian.Uint64(bytes[offset : offset+8]))
 }
 
@@ -354,7 +357,10 @@ func getFlags(bytes []byte) int {
 }
 
 func getNumCoupons(bytes []byte) uint64 {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldNumCoupons)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldNumCoupons)
+	if err != nil { // an empty sketch has no such field
+		return 0
+	}
 	return uint64(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 }
 
-- 
2.43.0


From b7488880cb4ed8571215c61e8ed49e9c8e11664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 18/66] fix: KLL sketch constructor rejects an unsupported m

---
 kll/items_sketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index af96371..2ba9205 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -86,6 +86,9 @@ func NewKllItemsSketch[C comparable](k uint16, m uint8, compareFn common.Compare
 	if k < _MIN_K || k > _MAX_K {
 		return nil, fmt.Errorf("k must be >= %d and <= %d: %d", _MIN_K, _MAX_K, k)
 	}
+	if err := checkM(m); err != nil {
+		return nil, err
+	}
 	if compareFn == nil {
 		return nil, fmt.Errorf("no compare function provided")
 	}
-- 
2.43.0


From 527c0dee8a13fb6926441a15b755bd80cf10c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 19/66] fix: KLL level capacities do not overflow for k above
 32767

---
 kll/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 2ba9205..fb73bd5 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -1024,7 +1024,7 @@ func intCapAux(k uint16, depth uint8) uint32 {
 }
 
 func intCapAuxAux(k uint16, depth uint8) uint32 {
-	twok := uint64(k << 1)                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
+	twok := uint64(k) << 1                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
 	tmp := (twok << depth) / powersOfThree[depth] //2k* (2/3)^depth. 2k also keeps the fraction larger.
 	result := (tmp + 1) >> 1                      // (tmp + 1)/2. If odd, round up. This guarantees an integer.
 	if result <= uint64(k) {
-- 
2.43.0


From 2b830fc6ef9b863658cb16dc5c5dde79e91e7cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 20/66] fix: REQ rank bounds stay within [0,1]

---
 req/sketch.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/req/sketch.go b/req/sketch.go
index 8d5c866..c49249c 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -397,9 +397,9 @@ func (s *Sketch) RankLowerBound(
 		opt(options)
 	}
 
-	return computeRankLowerBound(
+	return max(0, computeRankLowerBound(
 		s.k, s.numLevels(), rank, options.numStdDev, s.isHighRankAccuracyMode, s.n,
-	), nil
+	)), nil
 }
 
 // numLevels returns number of levels of compactors in the sketch.
@@ -440,9 +440,9 @@ func (s *Sketch) RankUpperBound(
 		opt(options)
 	}
 
-	return computeRankUpperBound(
+	return min(1, computeRankUpperBound(
 		s.k, s.numLevels(), rank, options.numStdDev, s.isHighRankAccuracyMode, s.n,
-	), nil
+	)), nil
 }
 
 // Rank returns normalized rank corresponding to the given quantile and search criterion.
-- 
2.43.0


From 101a942e466d72bf70677bfb8acaf79ddee6ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 21/66] fix: KLL partition boundaries leave the cached sorted
 view unchanged

---
 kll/items_sketch_sorted_view.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kll/items_sketch_sorted_view.go b/kll/items_sketch_sorted_view.go
index 95fee90..470c036 100644
--- a/kll/items_sketch_sorted_view.go
+++ b/kll/items_sketch_sorted_view.go
@@ -19,6 +19,7 @@ package kll
 
 import (
 	"errors"
+	"slices"
 	"sort"
 
 	"github.com/apache/datasketches-go/common"
@@ -181,6 +182,11 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	if s.totalN == 0 {
 		return nil, errors.New("empty sketch")
 	}
+	// adjust the ends of a copy: this view may be cached by its sketch
+	adjusted := *s
+	s = &adjusted
+	s.cumWeights = slices.Clone(s.cumWeights)
+	s.quantiles = slices.Clone(s.quantiles)
 	s.cumWeights[0] = 1
 	s.cumWeights[len(s.cumWeights)-1] = int64(s.totalN)
 	s.quantiles[0] = s.minItem
-- 
2.43.0


From c0f33823332765345ab2175ede4039bab0fac6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 22/66] fix: KLL image keeps the length prefix of an empty
 string

---
 kll/items_sketch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index fb73bd5..7e44e12 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -644,8 +644,8 @@ func (s *ItemsSketch[C]) getMinMaxSizeBytes() int {
 }
 
 func (s *ItemsSketch[C]) getMinMaxByteArr() []byte {
-	minBytes := s.serde.SerializeOneToSlice(s.minItem)
-	maxBytes := s.serde.SerializeOneToSlice(s.maxItem)
+	minBytes := s.serde.SerializeManyToSlice([]C{s.minItem})
+	maxBytes := s.serde.SerializeManyToSlice([]C{s.maxItem})
 	minMaxBytes := make([]byte, len(minBytes)+len(maxBytes))
 	copy(minMaxBytes, minBytes)
 	copy(minMaxBytes[len(minBytes):], maxBytes)
@@ -665,7 +665,7 @@ func (s *ItemsSketch[C]) getSingleItemByteArr() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return s.serde.SerializeOneToSlice(v), nil
+	return s.serde.SerializeManyToSlice([]C{v}), nil
 }
 
 func (s *ItemsSketch[C]) getSingleItem() (C, error) {
-- 
2.43.0


From d6cd85818c630c505154686d658300e34c7620cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 23/66] fix: REQ compactor merge keeps the pending coin of the
 other compactor

---
 req/compactor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/req/compactor.go b/req/compactor.go
index df789dd..84041e2 100644
--- a/req/compactor.go
+++ b/req/compactor.go
@@ -192,6 +192,10 @@ func (c *compactor) Merge(other *compactor) error {
 		return fmt.Errorf("compaction weights do not match. current: %d, other: %d", c.lgWeight, other.lgWeight)
 	}
 
+	if c.state&1 == 0 && other.state&1 == 1 {
+		// the merged state calls for the complement of a coin that only other has flipped
+		c.coin = other.coin
+	}
 	c.state |= other.state
 	for c.ensureEnoughSections() {
 	}
-- 
2.43.0


From c810db4cae74fcbb92d66fe36f4f44c13ef66171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 24/66] fix: new REQ sketch has no extremes, so merging into it
 takes the other's

---
 req/sketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/req/sketch.go b/req/sketch.go
index c49249c..9604753 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -72,6 +72,8 @@ type Sketch struct {
 
 func NewSketch(options ...SketchOptionFunc) (*Sketch, error) {
 	sk := &Sketch{
+		minItem:                float32(math.NaN()),
+		maxItem:                float32(math.NaN()),
 		k:                      defaultK,
 		isHighRankAccuracyMode: true,
 	}
-- 
2.43.0


From 97b107116fe93ba357bc2b4e6fae7db41c3eb73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 25/66] fix: t-digest quantile weighs the two neighbouring
 centroids the right way round

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 30eaf7a..974a122 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -401,7 +401,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 			}
 			w1 := weight - weightSoFar - leftWeight
 			w2 := weightSoFar + dw - weight - rightWeight
-			return weightedAverage(d.centroids[i].mean, w1, d.centroids[i+1].mean, w2), nil
+			return weightedAverage(d.centroids[i].mean, w2, d.centroids[i+1].mean, w1), nil
 		}
 		weightSoFar += dw
 	}
-- 
2.43.0


From c56cb7d812c7bc4d4eb621cd8787157e1ca840e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 26/66] fix: t-digest quantile in the right tail stays below
 the maximum

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 974a122..bbf238f 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -376,7 +376,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
 	if lastWeight > 1 && float64(d.centroidsWeight)-weight <= lastWeight/2.0 {
-		return d.max + (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
+		return d.max - (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
 	}
 
 	// interpolate between extremes
-- 
2.43.0


From 710a6429a7dee588aab3e69ec72adea637986f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 27/66] fix: t-digest quantile between two centroids stays
 between them despite rounding

---
 tdigest/double.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index bbf238f..a33e6b2 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -560,6 +560,7 @@ func (d *Double) isSingleValue() bool {
 	return d.TotalWeight() == 1
 }
 
+// weightedAverage returns the weighted average of x1 <= x2. Rounding does not take it outside [x1, x2].
 func weightedAverage(x1, w1, x2, w2 float64) float64 {
-	return (x1*w1 + x2*w2) / (w1 + w2)
+	return max(x1, min((x1*w1+x2*w2)/(w1+w2), x2))
 }
-- 
2.43.0


From 0c9a8959e244a6b322ecafe654e6cbbf3c48b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 28/66] fix: t-digest merge takes the extremes of the other
 digest

---
 tdigest/double.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index a33e6b2..d9de23c 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -213,6 +213,8 @@ func (d *Double) Merge(other *Double) error {
 	}
 	tmp = append(tmp, other.centroids...)
 
+	d.min = min(d.min, other.min)
+	d.max = max(d.max, other.max)
 	d.merge(tmp, uint64(len(d.buffer))+other.TotalWeight())
 
 	return nil
-- 
2.43.0


From e9fe700cf80c67cccf3251b0b040cdf49373ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 29/66] fix: t-digest quantile at the middle of a last centroid
 of weight two is not NaN

---
 tdigest/double.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index d9de23c..4324544 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -377,7 +377,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 	}
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
-	if lastWeight > 1 && float64(d.centroidsWeight)-weight <= lastWeight/2.0 {
+	if lastWeight > 1 && float64(d.centroidsWeight)-weight < lastWeight/2.0 {
 		return d.max - (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
 	}
 
@@ -408,9 +408,9 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 		weightSoFar += dw
 	}
 
-	w1 := weight - float64(d.centroidsWeight) - float64(d.centroids[len(d.centroids)-1].weight)/2.0
-	w2 := float64(d.centroids[len(d.centroids)-1].weight)/2.0 - w1
-	return weightedAverage(d.centroids[len(d.centroids)-1].mean, w1, d.max, w2), nil
+	w1 := weight - weightSoFar
+	w2 := lastWeight/2.0 - w1
+	return weightedAverage(d.centroids[len(d.centroids)-1].mean, w2, d.max, w1), nil
 }
 
 // PMF returns an approximation to the Probability Mass Function (PMF)
-- 
2.43.0


From f7c1d4d97c762fbcd0df42ac6ce8759d51a1af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 30/66] fix: t-digest answers stay finite for values near the
 float64 limits

---
 tdigest/double.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 4324544..0322584 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -74,7 +74,12 @@ type doublePrecisionCentroid struct {
 
 func (c *doublePrecisionCentroid) add(other doublePrecisionCentroid) {
 	c.weight += other.weight
-	c.mean += (other.mean - c.mean) * float64(other.weight) / float64(c.weight)
+	ratio := float64(other.weight) / float64(c.weight)
+	if delta := other.mean - c.mean; !math.IsInf(delta, 0) {
+		c.mean += delta * ratio
+	} else {
+		c.mean += other.mean*ratio - c.mean*ratio
+	}
 }
 
 // scaleFunction is equivalent of K_2 (default) in the Java implementation mentioned below
@@ -290,7 +295,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 			if value == d.min {
 				return 0.5 / float64(d.centroidsWeight), nil
 			}
-			return (1.0 + (value-d.min)/(firstMean-d.min)*(float64(d.centroids[0].weight)/2.0-1.0)) / float64(d.centroidsWeight), nil
+			return (1.0 + relativePosition(d.min, value, firstMean)*(float64(d.centroids[0].weight)/2.0-1.0)) / float64(d.centroidsWeight), nil
 		}
 		return 0, nil // should never happen
 	}
@@ -302,7 +307,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 			if value == d.max {
 				return 1.0 - 0.5/float64(d.centroidsWeight), nil
 			}
-			return 1.0 - ((1.0 + (d.max-value)/(d.max-lastMean)*(float64(d.centroids[len(d.centroids)-1].weight)/2.0-1.0)) / float64(d.centroidsWeight)), nil
+			return 1.0 - ((1.0 + (1-relativePosition(lastMean, value, d.max))*(float64(d.centroids[len(d.centroids)-1].weight)/2.0-1.0)) / float64(d.centroidsWeight)), nil
 		}
 		return 1, nil // should never happen
 	}
@@ -342,7 +347,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 	weightDelta += float64(d.centroids[upperIdx].weight) / 2.0
 
 	if d.centroids[upperIdx].mean-d.centroids[lowerIdx].mean > 0 {
-		return (weightBelow + weightDelta*(value-d.centroids[lowerIdx].mean)/(d.centroids[upperIdx].mean-d.centroids[lowerIdx].mean)) / float64(d.centroidsWeight), nil
+		return (weightBelow + weightDelta*relativePosition(d.centroids[lowerIdx].mean, value, d.centroids[upperIdx].mean)) / float64(d.centroidsWeight), nil
 	}
 	return (weightBelow + weightDelta/2.0) / float64(d.centroidsWeight), nil
 }
@@ -564,5 +569,18 @@ func (d *Double) isSingleValue() bool {
 
 // weightedAverage returns the weighted average of x1 <= x2. Rounding does not take it outside [x1, x2].
 func weightedAverage(x1, w1, x2, w2 float64) float64 {
-	return max(x1, min((x1*w1+x2*w2)/(w1+w2), x2))
+	ratio := w2 / (w1 + w2)
+	average := x1 + (x2-x1)*ratio
+	if math.IsInf(x2-x1, 0) {
+		average = x1*(1-ratio) + x2*ratio
+	}
+	return max(x1, min(average, x2))
+}
+
+// relativePosition returns where x lies between low and high, from 0 to 1, also when high-low overflows.
+func relativePosition(low, x, high float64) float64 {
+	if width := high - low; !math.IsInf(width, 0) {
+		return (x - low) / width
+	}
+	return (x/2 - low/2) / (high/2 - low/2)
 }
-- 
2.43.0


From 9fae4cd59bc079b1d19141173d574bd8f448a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 31/66] fix: t-digest decoder keeps an uncompressed single
 value in the buffer

---
 tdigest/double_decoder.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 4ab952a..07cbd41 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -113,7 +113,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		if err := validateInf(value, "single_value"); err != nil {
 			return nil, err
 		}
-		return newDoubleFromInternalStates(reverseMerge, k, value, value, []doublePrecisionCentroid{{mean: value, weight: 1}}, 1, nil)
+		return newDoubleFromSingleValue(reverseMerge, k, value)
 	}
 
 	var numCentroids uint32
@@ -389,7 +389,7 @@ func DecodeDouble(data []byte) (*Double, error) {
 		if err := validateInf(value, "value"); err != nil {
 			return nil, err
 		}
-		return newDoubleFromInternalStates(reverseMerge, k, value, value, []doublePrecisionCentroid{{mean: value, weight: 1}}, 1, nil)
+		return newDoubleFromSingleValue(reverseMerge, k, value)
 	}
 
 	if len(data) < offset+8 {
@@ -579,6 +579,15 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	return newDoubleFromInternalStates(false, k, minVal, maxVal, centroids, totalWeight, nil)
 }
 
+// newDoubleFromSingleValue returns a digest of one value. The value is still buffered
+// unless it has been compressed, which turned the merge direction around.
+func newDoubleFromSingleValue(reverseMerge bool, k uint16, value float64) (*Double, error) {
+	if !reverseMerge {
+		return newDoubleFromInternalStates(false, k, value, value, nil, 0, []float64{value})
+	}
+	return newDoubleFromInternalStates(true, k, value, value, []doublePrecisionCentroid{{mean: value, weight: 1}}, 1, nil)
+}
+
 func validateNaN(v float64, name string) error {
 	if math.IsNaN(v) {
 		return errors.New(name + ": NaN")
-- 
2.43.0


From ffa6f18078a60b64fbb4997e8f6bc81e44183426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 32/66] fix: items sketch of a map size below the minimum
 samples its counters when purging

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index ee2c9c0..3a27b82 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -70,7 +70,7 @@ func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, h
 		return nil, err
 	}
 	curMapCap := hashMap.getCapacity()
-	maxMapCap := int(float64(uint64(1)<<lgMaxMapSize) * reversePurgeItemHashMapLoadFactor)
+	maxMapCap := int(float64(uint64(1)<<lgMaxMapSz) * reversePurgeItemHashMapLoadFactor)
 	offset := int64(0)
 	sampleSize := min(_SAMPLE_SIZE, maxMapCap)
 
-- 
2.43.0


From 78835a020cbe58b9ad66ed2b64adeb12aaa12cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 33/66] fix: equal float64 items hash alike, also the two zeros

---
 common/item_sketch_double.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 8462fb6..0c9d208 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -39,6 +39,9 @@ var ItemSketchDoubleComparator = func(reverseOrder bool) CompareFn[float64] {
 }
 
 func (f ItemSketchDoubleHasher) Hash(item float64) uint64 {
+	if item == 0 {
+		item = 0 // -0.0 and 0.0 are equal, so they hash alike
+	}
 	binary.LittleEndian.PutUint64(f.scratch[:], math.Float64bits(item))
 	return murmur3.SeedSum64(defaultSerdeHashSeed, f.scratch[:])
 }
-- 
2.43.0


From 1b5f96d38aede009e50b0cbbe727ac767c9fba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 34/66] fix: a frequent items sketch whose purge removed every
 item is not empty

---
 frequencies/items_sketch.go | 5 +++--
 frequencies/longs_sketch.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 3a27b82..cae3274 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -323,9 +323,10 @@ func (i *ItemsSketch[C]) GetStreamLength() int64 {
 	return i.streamWeight
 }
 
-// IsEmpty returns true if this sketch is empty.
+// IsEmpty returns true if this sketch is empty, that is, has seen no weight. A sketch that has seen
+// some may still track no items, if a purge removed them all.
 func (i *ItemsSketch[C]) IsEmpty() bool {
-	return i.GetNumActiveItems() == 0
+	return i.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 7c0c924..c655c1e 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -391,9 +391,10 @@ func (s *LongsSketch) GetStreamLength() int64 {
 	return s.streamWeight
 }
 
-// IsEmpty returns true if this sketch is empty
+// IsEmpty returns true if this sketch is empty, that is, has seen no weight. A sketch that has seen
+// some may still track no items, if a purge removed them all.
 func (s *LongsSketch) IsEmpty() bool {
-	return s.GetNumActiveItems() == 0
+	return s.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
-- 
2.43.0


From a2ef19154be11aba38c707467c63abbeed1f62bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 35/66] fix: longs sketch string form with negative keys can be
 read back

---
 frequencies/reverse_purge_long_hash_map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index dbf18f8..5007fb0 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -288,7 +288,7 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 	}
 	j := 2 + ignore
 	for i := 0; i < int(numActive); i++ {
-		key, err := strconv.ParseUint(tokens[j], 10, 64)
+		key, err := strconv.ParseInt(tokens[j], 10, 64)
 		if err != nil {
 			return nil, err
 		}
@@ -296,7 +296,7 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 		if err != nil {
 			return nil, err
 		}
-		err = hashMap.adjustOrPutValue(int64(key), int64(value))
+		err = hashMap.adjustOrPutValue(key, int64(value))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From ee32e13fda5a42158a0839f1be30688dfdf08ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 36/66] fix: items sketch read from an empty image keeps its
 maximum map size

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index cae3274..dbf531e 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -141,7 +141,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
-		return NewFrequencyItemsSketchWithMaxMapSize[C](1<<_LG_MIN_MAP_SIZE, hasher, serde)
+		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
-- 
2.43.0


From 71c55b85f242af8582e105902d0987a59dc444c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 37/66] fix: count-min decoder checks preamble, version and
 family

---
 count/count_min_sketch.go |  2 +-
 count/utils.go            | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 30dd99d..83e913b 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -297,7 +297,7 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
-	err = checkHeaderValidity(preamble, serVe, familyID, flag)
+	err = checkHeaderValidity(preamble, serVe, familyID)
 	if err != nil {
 		return nil, err
 	}
diff --git a/count/utils.go b/count/utils.go
index da7c25c..ba36448 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -19,7 +19,10 @@ package count
 
 import (
 	"errors"
+	"fmt"
 	"math"
+
+	"github.com/apache/datasketches-go/internal"
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
@@ -36,7 +39,16 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 	return min(int8(math.Ceil(math.Log(1.0/(1.0-confidence)))), int8(math.MaxInt8)), nil
 }
 
-func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
+func checkHeaderValidity(preamble, serVer, familyID byte) error {
+	if preamble != PreambleLongsShort {
+		return fmt.Errorf("possible corruption: preamble longs must be %d, got %d", PreambleLongsShort, preamble)
+	}
+	if serVer != SerialVersion1 {
+		return fmt.Errorf("possible corruption: serial version must be %d, got %d", SerialVersion1, serVer)
+	}
+	if familyID != byte(internal.FamilyEnum.CountMinSketch.Id) {
+		return fmt.Errorf("possible corruption: family ID must be %d, got %d", internal.FamilyEnum.CountMinSketch.Id, familyID)
+	}
 	return nil
 }
 
-- 
2.43.0


From 6347f72c435d862699ddf184f3db19f3152769d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 38/66] fix: count-min decoder checks the seed hash

---
 count/count_min_sketch.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 83e913b..d171fed 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 	"math/rand"
@@ -332,6 +333,14 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
+	expectedSeedHash, err := internal.ComputeSeedHash(seed)
+	if err != nil {
+		return nil, err
+	}
+	if seedHash != expectedSeedHash {
+		return nil, fmt.Errorf("incompatible seed hashes: %d, %d", uint16(seedHash), uint16(expectedSeedHash))
+	}
+
 	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3fdef05c97cebc6307a597d9f6f5d54429f937fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 39/66] fix: count-min requires a hash function and checks its
 size without overflow

---
 count/count_min_sketch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index d171fed..336d376 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -48,7 +48,11 @@ func NewCountMinSketch(numHashes int8, numBuckets int32, seed int64) (*CountMinS
 		return nil, errors.New("using fewer than 3 buckets incurs relative error greater than 1.0")
 	}
 
-	if numBuckets*int32(numHashes) >= 1<<30 {
+	if numHashes < 1 {
+		return nil, errors.New("at least one hash function is required")
+	}
+
+	if int64(numBuckets)*int64(numHashes) >= 1<<30 {
 		return nil, errors.New("these parameters generate a sketch that exceeds 2^30 elements")
 	}
 
-- 
2.43.0


From b5e05cab1739b4963e008281be731563b043a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 40/66] fix: count-min decoder rejects truncated and overlong
 images

---
 count/count_min_sketch.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 336d376..74345ad 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -345,12 +345,20 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, fmt.Errorf("incompatible seed hashes: %d, %d", uint16(seedHash), uint16(expectedSeedHash))
 	}
 
+	isEmpty := (flag & (1 << IsEmpty)) > 0
+	expectedLen := int64(0)
+	if !isEmpty {
+		expectedLen = 8 + 8*int64(numBuckets)*int64(numHashes)
+	}
+	if int64(r.Len()) != expectedLen {
+		return nil, fmt.Errorf("possible corruption: expected %d bytes after the preamble, got %d", expectedLen, r.Len())
+	}
+
 	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
 	if err != nil {
 		return nil, err
 	}
 
-	isEmpty := (flag & (1 << IsEmpty)) > 0
 	if isEmpty {
 		return cms, nil
 	}
-- 
2.43.0


From c8617565b7dfeb94bb3437f711f580a89c16ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 41/66] fix: count-min SuggestNumHashes clamps before narrowing

---
 count/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/count/utils.go b/count/utils.go
index ba36448..649b991 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -36,7 +36,7 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 	if confidence < 0 || confidence > 1.0 {
 		return 0, errors.New("confidence must be between 0 and 1.0 (inclusive)")
 	}
-	return min(int8(math.Ceil(math.Log(1.0/(1.0-confidence)))), int8(math.MaxInt8)), nil
+	return int8(min(math.Ceil(math.Log(1.0/(1.0-confidence))), math.MaxInt8)), nil
 }
 
 func checkHeaderValidity(preamble, serVer, familyID byte) error {
-- 
2.43.0


From 8ae9c23a8ef841271eb5ef6a64e027c95f415a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 42/66] fix: Bloom filter with 65535 hashes no longer loops
 forever

---
 filters/bloom_filter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/filters/bloom_filter.go b/filters/bloom_filter.go
index 78a21cd..17ad46a 100644
--- a/filters/bloom_filter.go
+++ b/filters/bloom_filter.go
@@ -196,13 +196,13 @@ func (bf *bloomFilterImpl) computeHashesForLong(value uint64) (h0, h1 uint64) {
 
 // getHashIndex computes the i-th hash index using double hashing.
 // Formula: g_i(x) = ((h0 + i * h1) >> 1) mod capacity
-func (bf *bloomFilterImpl) getHashIndex(h0, h1 uint64, i uint16) uint64 {
-	return ((h0 + uint64(i)*h1) >> 1) % bf.capacityBits
+func (bf *bloomFilterImpl) getHashIndex(h0, h1 uint64, i uint64) uint64 {
+	return ((h0 + i*h1) >> 1) % bf.capacityBits
 }
 
 // internalUpdate updates the filter with pre-computed hash values.
 func (bf *bloomFilterImpl) internalUpdate(h0, h1 uint64) {
-	for i := uint16(1); i <= bf.numHashes; i++ {
+	for i := uint64(1); i <= uint64(bf.numHashes); i++ {
 		idx := bf.getHashIndex(h0, h1, i)
 		if !getBit(bf.bitArray, idx) {
 			setBit(bf.bitArray, idx)
@@ -217,7 +217,7 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 	if bf.IsEmpty() {
 		return false
 	}
-	for i := uint16(1); i <= bf.numHashes; i++ {
+	for i := uint64(1); i <= uint64(bf.numHashes); i++ {
 		idx := bf.getHashIndex(h0, h1, i)
 		if !getBit(bf.bitArray, idx) {
 			return false
@@ -231,7 +231,7 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 func (bf *bloomFilterImpl) internalQueryAndUpdate(h0, h1 uint64) bool {
 	valueExists := true
 	newBitsSet := uint64(0)
-	for i := uint16(1); i <= bf.numHashes; i++ {
+	for i := uint64(1); i <= uint64(bf.numHashes); i++ {
 		idx := bf.getHashIndex(h0, h1, i)
 		wasSet := getAndSetBit(bf.bitArray, idx)
 		valueExists = valueExists && wasSet
-- 
2.43.0


From e4ff0d741d945c939e59a2fd51a6b3431e0c33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 43/66] fix: Bloom filter decoder checks the size before
 allocating and rejects an empty bit array

---
 filters/bloom_filter_builder.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 9eb0374..f02b5c2 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -218,8 +218,23 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 		return nil, fmt.Errorf("numHashes must be positive")
 	}
 
-	// Calculate capacity
+	// Validate bit array length
 	capacityBits := uint64(bitArrayLength) * 64
+	if capacityBits == 0 || capacityBits > roundCapacity(maxBits) {
+		return nil, fmt.Errorf("invalid bit array length: %d", bitArrayLength)
+	}
+
+	// Validate total size before allocating the bit array
+	if isEmpty {
+		if len(bytes) != preambleEmptyBytes {
+			return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
+		}
+	} else {
+		expectedSize := preambleBytes + int(bitArrayLength)*8
+		if len(bytes) != expectedSize {
+			return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
+		}
+	}
 
 	// Create filter structure
 	bf := &bloomFilterImpl{
@@ -233,18 +248,9 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 
 	// Handle empty filter
 	if isEmpty {
-		if len(bytes) != preambleEmptyBytes {
-			return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
-		}
 		return bf, nil
 	}
 
-	// Handle non-empty filter
-	expectedSize := preambleBytes + int(bitArrayLength)*8
-	if len(bytes) != expectedSize {
-		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
-	}
-
 	// Extract num bits set
 	numBitsSet := extractNumBitsSet(bytes)
 	if numBitsSet == dirtyBitsValue {
-- 
2.43.0


From 5763144ead45e9697dc6f683bdb4b8070a94f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 44/66] fix: reservoir union refuses a maximum k below 2
 instead of panicking on its first update

---
 sampling/reservoir_items_union.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index eb85ade..24a8521 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -50,6 +50,10 @@ type ReservoirItemsUnion[T any] struct {
 
 // NewReservoirItemsUnion creates a new union with the specified maximum k.
 func NewReservoirItemsUnion[T any](maxK int) (*ReservoirItemsUnion[T], error) {
+	if maxK < minK {
+		return nil, errors.New("maxK must be at least 2")
+	}
+
 	return &ReservoirItemsUnion[T]{
 		maxK:   maxK,
 		gadget: nil, // Start with nil gadget, will be initialized on first update
-- 
2.43.0


From 649906a5a252d25e37f1c9fd19eeffa8645f369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 45/66] fix: reservoir union reset works before the first
 update and restores the maximum k

---
 sampling/reservoir_items_union.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index 24a8521..a573eae 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -269,7 +269,11 @@ func (u *ReservoirItemsUnion[T]) MaxK() int {
 
 // Reset clears the union.
 func (u *ReservoirItemsUnion[T]) Reset() {
-	u.gadget.Reset()
+	if u.gadget == nil {
+		return
+	}
+	// the gadget may have taken over a smaller k from an earlier input
+	u.gadget, _ = NewReservoirItemsSketch[T](u.maxK)
 }
 
 // String returns a human-readable summary of the union.
-- 
2.43.0


From 1b8b78bb301d0592715ca4183badcbcde94f3128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 46/66] fix: reservoir taken over without storage can grow

---
 sampling/reservoir_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index e9b3711..71c411e 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -131,7 +131,7 @@ func (s *ReservoirItemsSketch[T]) Update(item T) error {
 }
 
 func (s *ReservoirItemsSketch[T]) growReservoir() {
-	adjustedSize := adjustedSamplingAllocationSize(s.k, cap(s.data)<<int(s.rf))
+	adjustedSize := adjustedSamplingAllocationSize(s.k, max(cap(s.data), 1)<<int(s.rf))
 	s.data = slices.Grow(s.data, adjustedSize)
 }
 
-- 
2.43.0


From 901aaaa22e73dd2867d12826cf0ddae2382885f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 47/66] fix: report the total weight of a VarOpt sketch that
 dropped nothing

---
 sampling/varopt_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index c6a2860..462e4a2 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -744,7 +744,7 @@ func (s *VarOptItemsSketch[T]) EstimateSubsetSum(predicate func(T) bool) (Sample
 			LowerBound:        trueWeightInH,
 			Estimate:          trueWeightInH,
 			UpperBound:        trueWeightInH,
-			TotalSketchWeight: trueWeightInH,
+			TotalSketchWeight: weightSumInH,
 		}, nil
 	}
 
-- 
2.43.0


From cc619983e4b3ec9f8ea27845f0bbc1c5d006170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 48/66] fix: VarOpt kept an item lighter than tau by rounding,
 and the next update failed

---
 sampling/varopt_items_sketch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 462e4a2..d5cabd2 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -475,7 +475,8 @@ func (s *VarOptItemsSketch[T]) growCandidateSet(wtCands float64, numCands int) e
 		nextTotWt := wtCands + nextWt
 
 		// test for strict lightness: nextWt * numCands < nextTotWt
-		if nextWt*float64(numCands) < nextTotWt {
+		// The second form is the same test as rounded by tau(): nothing lighter than tau may stay in H.
+		if nextWt*float64(numCands) < nextTotWt || nextWt < wtCands/float64(numCands-1) {
 			wtCands = nextTotWt
 			numCands++
 			if err := s.popMinToMRegion(); err != nil {
-- 
2.43.0


From a10ffebf526ea6a135562ea42d051e4aa5c9a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 49/66] fix: VarOpt union results whose k was reduced could not
 be serialized

---
 sampling/varopt_items_sketch.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index d5cabd2..a958d5e 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -902,8 +902,9 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 		s.h--
 		s.k--
 		s.n-- // will be re-incremented with the update
+		s.truncateToK()
 
-		s.update(pulledItem, pulledWeight, pulledMark)
+		return s.update(pulledItem, pulledWeight, pulledMark)
 	case s.h == 0 && s.r > 0:
 		// pure reservoir mode, so can simply eject a randomly chosen sample from the reservoir
 		if s.r < 2 {
@@ -917,8 +918,18 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 
 		s.k--
 		s.r--
+		s.truncateToK()
 	default:
 	}
 
 	return nil
 }
+
+// truncateToK drops the slot that a reduction of k left unused at the end of the arrays.
+func (s *VarOptItemsSketch[T]) truncateToK() {
+	s.data = s.data[:s.k+1]
+	s.weights = s.weights[:s.k+1]
+	if s.marks != nil {
+		s.marks = s.marks[:s.k+1]
+	}
+}
-- 
2.43.0


From 00a07874be0a4537b8fbd8d13206b6ebb28db4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 50/66] fix: a VarOpt union result could keep items lighter
 than its tau, and its next update failed

---
 sampling/varopt_items_union.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index ab362f1..9b1455f 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -222,9 +222,17 @@ func (u *VarOptItemsUnion[T]) Result() (*VarOptItemsSketch[T], error) {
 		return u.migrateMarkedItemsByDecreasingK()
 	}
 
-	// explicitly enforce rule that items in H should not be lighter than the sketch's tau
+	// explicitly enforce rule that items in H should not be lighter than the sketch's tau,
+	// which is the average weight of the marked items since they will make up the whole of R
+	markedWeight := 0.0
+	for sample, mark := range u.gadget.hRegionSamplesWithMark() {
+		if mark != nil && *mark {
+			markedWeight += sample.Weight
+		}
+	}
+	resultTau := markedWeight / float64(u.gadget.numMarksInH)
 	for i := 0; i < u.gadget.h; i++ {
-		if u.gadget.weights[i] < u.gadget.tau() && !u.gadget.marks[i] {
+		if u.gadget.weights[i] < resultTau && !u.gadget.marks[i] {
 			return u.migrateMarkedItemsByDecreasingK()
 		}
 	}
-- 
2.43.0


From da96d828c37de5a9712b6a86359704d937e1c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 51/66] fix: a VarOpt union of heavy pseudo-exact sketches
 failed on rounding in its weights

---
 sampling/varopt_items_union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index 9b1455f..9789172 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -404,7 +404,8 @@ func (u *VarOptItemsUnion[T]) markMovingGadgetCoercer() (*VarOptItemsSketch[T],
 			resultK, resultH+resultR,
 		)
 	}
-	if math.Abs(transferredWeight-u.outerTauNumer) >= 1e-10 {
+	// the two sums accumulate their rounding errors in proportion to their size
+	if math.Abs(transferredWeight-u.outerTauNumer) > 1e-10*math.Max(1, u.outerTauNumer) {
 		return nil, fmt.Errorf(
 			"invalid state after mark moving: expected transferredWeight=%g, outerTauNumer=%g",
 			transferredWeight, u.outerTauNumer,
-- 
2.43.0


From d86f8c9d647068445d54318c31724d2ea037882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 52/66] fix: a VarOpt sketch decoded in sampling mode refused
 every update

---
 sampling/varopt_items_sketch_decoder.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index 242ff7a..c5f9384 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -194,16 +194,12 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		copy(data[h+1:h+1+r], rData)
 	}
 
-	m := 0
-	if r > 0 {
-		m = 1
-	}
 	return &VarOptItemsSketch[T]{
 		data:         data,
 		weights:      weights,
 		k:            int(k),
 		h:            int(h),
-		m:            m,
+		m:            0, // the middle region only holds items during an update
 		r:            int(r),
 		n:            int64(n),
 		totalWeightR: totalWeightR,
-- 
2.43.0


From 4bbf56b2f8c1fb112b8fec22c98beb2ae8aab958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 53/66] fix: the theta decoder read past the end of truncated
 images

---
 theta/decoder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/theta/decoder.go b/theta/decoder.go
index b24deca..398c425 100644
--- a/theta/decoder.go
+++ b/theta/decoder.go
@@ -254,6 +254,9 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 		}, nil
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	entriesStartU64 := compactSketchEntriesExactU64
 	if hasTheta {
@@ -303,6 +306,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:      bytes,
 		}, nil
 	case 2:
+		if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		if numEntries == 0 {
 			return compactSketchData{
@@ -332,6 +338,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:           bytes,
 		}, nil
 	case 3:
+		if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
@@ -374,6 +383,9 @@ func decodeVersion1(bytes []byte, seed uint64) (compactSketchData, error) {
 		return compactSketchData{}, err
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
-- 
2.43.0


From 1451e98122dba3f7f9bfe0494b3b9ec14f2772c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 54/66] fix: tuple decoders allocated for an entry count the
 data did not back

---
 tuple/arrayofnumbers_sketch_decoder.go | 3 ++-
 tuple/arrayofstrings_sketch.go         | 8 ++++++--
 tuple/decoder.go                       | 5 +++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/tuple/arrayofnumbers_sketch_decoder.go b/tuple/arrayofnumbers_sketch_decoder.go
index 56fb292..28ed8d9 100644
--- a/tuple/arrayofnumbers_sketch_decoder.go
+++ b/tuple/arrayofnumbers_sketch_decoder.go
@@ -129,7 +129,8 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 			return nil, err
 		}
 
-		hashes := make([]uint64, 0, numEntries)
+		// the count is not backed by data yet: let a large slice grow while reading
+		hashes := make([]uint64, 0, min(numEntries, 1024))
 		for i := uint32(0); i < numEntries; i++ {
 			var hash uint64
 			if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
diff --git a/tuple/arrayofstrings_sketch.go b/tuple/arrayofstrings_sketch.go
index d01c1ad..24b44db 100644
--- a/tuple/arrayofstrings_sketch.go
+++ b/tuple/arrayofstrings_sketch.go
@@ -159,10 +159,14 @@ func readStrings(r io.Reader) ([]string, error) {
 			return nil, err
 		}
 
-		bytes := make([]byte, length)
-		if _, err := io.ReadFull(r, bytes); err != nil {
+		// the length is not backed by data yet: let a long string grow while reading
+		bytes, err := io.ReadAll(io.LimitReader(r, int64(length)))
+		if err != nil {
 			return nil, err
 		}
+		if len(bytes) < int(length) {
+			return nil, io.ErrUnexpectedEOF
+		}
 
 		values = append(values, string(bytes))
 	}
diff --git a/tuple/decoder.go b/tuple/decoder.go
index 3ed4c9a..6f0d94a 100644
--- a/tuple/decoder.go
+++ b/tuple/decoder.go
@@ -132,7 +132,8 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 		}
 	}
 
-	entries := make([]entry[S], numEntries)
+	// the count is not backed by data yet: let a large slice grow while reading
+	entries := make([]entry[S], 0, min(numEntries, 1024))
 	for i := uint32(0); i < numEntries; i++ {
 		var hash uint64
 		if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
@@ -144,7 +145,7 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 			return nil, err
 		}
 
-		entries[i] = entry[S]{Hash: hash, Summary: summary}
+		entries = append(entries, entry[S]{Hash: hash, Summary: summary})
 	}
 
 	isOrdered := (flags & (1 << flagIsOrdered)) != 0
-- 
2.43.0


From c0351c840d557fcfca894b83813272ed9d6df06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 55/66] fix: HLL decoders panicked on truncated images or
 returned part of a sketch

---
 hll/hll_sketch.go |  3 +++
 hll/union.go      |  8 +++---
 hll/utils.go      | 69 +++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 76 insertions(+), 4 deletions(-)

diff --git a/hll/hll_sketch.go b/hll/hll_sketch.go
index 278272a..7ebfd15 100644
--- a/hll/hll_sketch.go
+++ b/hll/hll_sketch.go
@@ -186,6 +186,9 @@ func NewHllSketchFromSlice(bytes []byte, checkRebuild bool) (HllSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := checkImageSize(bytes, curMode); err != nil {
+		return nil, err
+	}
 	if curMode == curModeHll {
 		tgtHllType := extractTgtHllType(bytes)
 		if tgtHllType == TgtHllTypeHll4 {
diff --git a/hll/union.go b/hll/union.go
index 2df8a36..0441098 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -114,14 +114,14 @@ func NewUnion(lgMaxK int) (Union, error) {
 }
 
 func NewUnionFromSlice(byteArray []byte) (Union, error) {
-	lgK, err := checkLgK(extractLgK(byteArray))
-	if err != nil {
-		return nil, err
-	}
 	sk, e := NewHllSketchFromSlice(byteArray, false)
 	if e != nil {
 		return nil, e
 	}
+	lgK, err := checkLgK(extractLgK(byteArray))
+	if err != nil {
+		return nil, err
+	}
 	union, err := NewUnion(lgK)
 	if err != nil {
 		return nil, err
diff --git a/hll/utils.go b/hll/utils.go
index 92d910f..f2cc4c4 100644
--- a/hll/utils.go
+++ b/hll/utils.go
@@ -180,6 +180,75 @@ func checkPreamble(preamble []byte) (curMode, error) {
 	return curMode, nil
 }
 
+// checkImageSize returns an error if the image, whose preamble has been checked, is shorter than
+// what its preamble declares.
+func checkImageSize(image []byte, curMode curMode) error {
+	lgConfigK, err := checkLgK(extractLgK(image))
+	if err != nil {
+		return err
+	}
+	compact := extractCompactFlag(image)
+	size := 0
+	switch curMode {
+	case curModeList:
+		count := extractListCount(image)
+		if count > 1<<lgInitListSize {
+			return fmt.Errorf("possible Corruption: Invalid list count: %d", count)
+		}
+		if !compact {
+			count = 1 << lgInitListSize
+		}
+		size = listIntArrStart + count<<2
+	case curModeSet:
+		count := extractHashSetCount(image)
+		if count > 1<<keyBits26 {
+			return fmt.Errorf("possible Corruption: Invalid hash set count: %d", count)
+		}
+		if !compact {
+			lgArr := extractLgArr(image)
+			if lgArr < lgInitSetSize {
+				lgArr, err = computeLgArr(image, count, lgConfigK)
+				if err != nil {
+					return err
+				}
+			}
+			if lgArr > keyBits26 {
+				return fmt.Errorf("possible Corruption: Invalid hash set size: %d", lgArr)
+			}
+			count = 1 << lgArr
+		}
+		size = hashSetIntArrStart + count<<2
+	default:
+		switch extractTgtHllType(image) {
+		case TgtHllTypeHll4:
+			size = hllByteArrStart + 1<<(lgConfigK-1)
+			auxInts := extractAuxCount(image)
+			if auxInts > 1<<lgConfigK {
+				return fmt.Errorf("possible Corruption: Invalid aux count: %d", auxInts)
+			}
+			if !compact {
+				lgAuxInts := lgAuxArrInts[lgConfigK]
+				if auxInts > 0 {
+					lgAuxInts = extractLgArr(image)
+				}
+				if lgAuxInts > keyBits26 {
+					return fmt.Errorf("possible Corruption: Invalid aux array size: %d", lgAuxInts)
+				}
+				auxInts = 1 << lgAuxInts
+			}
+			size += auxInts << 2
+		case TgtHllTypeHll6:
+			size = hllByteArrStart + ((1<<lgConfigK)*3)>>2 + 1
+		default:
+			size = hllByteArrStart + 1<<lgConfigK
+		}
+	}
+	if len(image) < size {
+		return fmt.Errorf("input array too small: %d, expected %d", len(image), size)
+	}
+	return nil
+}
+
 func getMaxUpdatableSerializationBytes(lgConfigK int, tgtHllType TgtHllType) int {
 	var arrBytes int
 	if tgtHllType == TgtHllTypeHll4 {
-- 
2.43.0


From 37a09212c7316cac08f881ccdcfb609030be65f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:16 +0000
Subject: [PATCH 56/66] fix: the CPC decoder panicked on images shorter than
 their preamble, the wrapper accepted truncated ones

---
 cpc/cpc_wrapper.go | 3 +++
 cpc/utils.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpc/cpc_wrapper.go b/cpc/cpc_wrapper.go
index ec2d268..8ddd87a 100644
--- a/cpc/cpc_wrapper.go
+++ b/cpc/cpc_wrapper.go
@@ -38,6 +38,9 @@ func NewCpcWrapperFromBytes(byteArray []byte) (*CpcWrapper, error) {
 	if !isCompressed(byteArray) {
 		return nil, fmt.Errorf("CpcWrapper: sketch is not compressed")
 	}
+	if _, err := importFromMemory(byteArray); err != nil {
+		return nil, fmt.Errorf("CpcWrapper: image check failed: %w", err)
+	}
 	return &CpcWrapper{mem: byteArray}, nil
 }
 
diff --git a/cpc/utils.go b/cpc/utils.go
index eabf5d2..075b16a 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -284,6 +284,9 @@ func checkLoPreamble(bytes []byte) error {
 	if bytes[loFieldPreInts] != preIntsDef {
 		return fmt.Errorf("preIntsDef: %d, bytes[loFieldPreInts]: %d", preIntsDef, bytes[loFieldPreInts])
 	}
+	if err := checkBounds(0, int(preIntsDef)*4, len(bytes)); err != nil {
+		return err
+	}
 	fam := getFamilyId(bytes)
 	if fam != internal.FamilyEnum.CPC.Id {
 		return fmt.Errorf("family: %d, bytes[loFieldFamily]: %d", internal.FamilyEnum.CPC.Id, fam)
-- 
2.43.0


From fc9e0e027e0bad2506abd4f5f00cbe4bc17db10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 57/66] fix: item serdes read past the end of short input

---
 common/item_sketch_double.go | 4 ++++
 common/item_sketch_float.go  | 4 ++++
 common/item_sketch_long.go   | 4 ++++
 common/item_sketch_string.go | 7 +++++--
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 0c9d208..e7725cc 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 
 	"github.com/twmb/murmur3"
@@ -77,6 +78,9 @@ func (f ItemSketchDoubleSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems == 0 {
 		return []float64{}, nil
 	}
+	if numItems < 0 || offsetBytes < 0 || numItems > (len(mem)-offsetBytes)/8 {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]float64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, math.Float64frombits(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_float.go b/common/item_sketch_float.go
index eae77a9..1738614 100644
--- a/common/item_sketch_float.go
+++ b/common/item_sketch_float.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 )
 
@@ -66,6 +67,9 @@ func (s ItemSketchFloatSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes i
 	if numItems == 0 {
 		return []float32{}, nil
 	}
+	if numItems < 0 || offsetBytes < 0 || numItems > (len(mem)-offsetBytes)/4 {
+		return nil, errors.New("offset out of bounds")
+	}
 
 	array := make([]float32, 0, numItems)
 	for i := 0; i < numItems; i++ {
diff --git a/common/item_sketch_long.go b/common/item_sketch_long.go
index c4c5d11..fe326af 100644
--- a/common/item_sketch_long.go
+++ b/common/item_sketch_long.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/twmb/murmur3"
 )
@@ -73,6 +74,9 @@ func (f ItemSketchLongSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes in
 	if numItems == 0 {
 		return []int64{}, nil
 	}
+	if numItems < 0 || offsetBytes < 0 || numItems > (len(mem)-offsetBytes)/8 {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]int64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, int64(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_string.go b/common/item_sketch_string.go
index 19a5539..ef48a62 100644
--- a/common/item_sketch_string.go
+++ b/common/item_sketch_string.go
@@ -117,20 +117,23 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems <= 0 {
 		return []string{}, nil
 	}
-	array := make([]string, numItems)
 	offset := offsetBytes
 	intSize := 4
 	memCap := len(mem)
+	if offset < 0 || numItems > (memCap-offset)/intSize { // every string has its length before it
+		return nil, errors.New("offset out of bounds")
+	}
+	array := make([]string, numItems)
 	for i := 0; i < numItems; i++ {
 		if !checkBounds(offset, intSize, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
 		strLength := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += intSize
-		utf8Bytes := make([]byte, strLength)
 		if !checkBounds(offset, strLength, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
+		utf8Bytes := make([]byte, strLength)
 		copy(utf8Bytes, mem[offset:offset+strLength])
 		offset += strLength
 		array[i] = string(utf8Bytes)
-- 
2.43.0


From a0553eb636b3bffd9c4daab48099e04eda80b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 58/66] fix: the KLL decoder read past the end of truncated
 images

---
 kll/items_sketch_validate.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index e78ff77..54f2217 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -57,9 +57,8 @@ type itemsSketchMemoryValidate[C comparable] struct {
 }
 
 func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.ItemSketchSerde[C]) (*itemsSketchMemoryValidate[C], error) {
-	capa := cap(srcMem)
-	if capa < 8 {
-		return nil, fmt.Errorf("Memory too small: %d", capa)
+	if len(srcMem) < 8 {
+		return nil, fmt.Errorf("Memory too small: %d", len(srcMem))
 	}
 	preInts := getPreInts(srcMem)
 	serVer := getSerVer(srcMem)
@@ -97,8 +96,13 @@ func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.Item
 		level0SortedFlag: level0SortedFlag,
 		typeBytes:        typeBytes,
 	}
-	err = vlid.validate()
-	return vlid, err
+	if err := vlid.validate(); err != nil {
+		return nil, err
+	}
+	if len(srcMem) < vlid.sketchBytes {
+		return nil, fmt.Errorf("Memory too small: %d, expected %d", len(srcMem), vlid.sketchBytes)
+	}
+	return vlid, nil
 }
 
 func (vlid *itemsSketchMemoryValidate[C]) validate() error {
@@ -107,9 +111,15 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		if vlid.emptyFlag {
 			return fmt.Errorf("Empty flag and compact full")
 		}
+		if len(vlid.srcMem) < _DATA_START_ADR {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		vlid.n = getN(vlid.srcMem)
 		vlid.minK = getMinK(vlid.srcMem)
 		vlid.numLevels = getNumLevels(vlid.srcMem)
+		if len(vlid.srcMem) < _DATA_START_ADR+int(vlid.numLevels)*4 {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		// Get Levels Arr and add the last element
 		vlid.levelsArr = make([]uint32, vlid.numLevels+1)
 		for i := uint8(0); i < vlid.numLevels; i++ {
-- 
2.43.0


From e65f5745d5e7be8bbbbe631eedd4c757025701f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 59/66] fix: t-digest decoders panicked on truncated images or
 allocated for a count the data did not back

---
 tdigest/double_decoder.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 07cbd41..108458c 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -34,6 +34,9 @@ var (
 	errUnexpectedPreamble    = errors.New("unexpected sketch preamble")
 )
 
+// maxPreallocated limits what is allocated from a count before the data arrives.
+const maxPreallocated = 1024
+
 // DoubleDecoder decodes a Double from the given reader.
 type DoubleDecoder struct{}
 
@@ -140,13 +143,14 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 	maxVal := math.Float64frombits(maxValBytes)
-	if err := validateNaN(minVal, "max"); err != nil {
+	if err := validateNaN(maxVal, "max"); err != nil {
 		return nil, err
 	}
 
-	centroids := make([]doublePrecisionCentroid, numCentroids)
+	// grow while reading: the counts may not be backed by data
+	centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxPreallocated))
 	var totalWeight uint64
-	for i := range centroids {
+	for range numCentroids {
 		var meanBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &meanBytes); err != nil {
 			return nil, err
@@ -158,7 +162,6 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		if err := validateInf(mean, "centroid mean"); err != nil {
 			return nil, err
 		}
-		centroids[i].mean = mean
 
 		var weightBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &weightBytes); err != nil {
@@ -169,12 +172,12 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		centroids[i].weight = weight
+		centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: weight})
 		totalWeight += weight
 	}
 
-	buffer := make([]float64, numBuffered)
-	for i := range buffer {
+	buffer := make([]float64, 0, min(numBuffered, maxPreallocated))
+	for range numBuffered {
 		var dataBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &dataBytes); err != nil {
 			return nil, err
@@ -188,7 +191,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		buffer[i] = bufferedValue
+		buffer = append(buffer, bufferedValue)
 	}
 
 	return newDoubleFromInternalStates(reverseMerge, k, minVal, maxVal, centroids, totalWeight, buffer)
@@ -200,6 +203,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 
+	if typeFlag != compatTypeDouble && typeFlag != compatTypeFloat {
+		return nil, errUnexpectedPreamble
+	}
+
 	if typeFlag == compatTypeDouble { // compatibility with asBytes()
 		var minValBytes uint64
 		if err := binary.Read(r, binary.BigEndian, &minValBytes); err != nil {
@@ -230,9 +237,9 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		centroids := make([]doublePrecisionCentroid, numCentroids)
+		centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxPreallocated))
 		var totalWeight uint64
-		for i := range centroids {
+		for range numCentroids {
 			var weightBytes uint64
 			if err := binary.Read(r, binary.BigEndian, &weightBytes); err != nil {
 				return nil, err
@@ -254,7 +261,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 				return nil, err
 			}
 
-			centroids[i] = doublePrecisionCentroid{mean: mean, weight: uint64(weight)}
+			centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: uint64(weight)})
 			totalWeight += uint64(weight)
 		}
 
@@ -315,7 +322,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := validateInf(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
-		if err := validateNaN(float64(weight), "centroid mean"); err != nil {
+		if err := validateNaN(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
 
@@ -525,7 +532,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	}
 
 	// compatFloat: compatibility with asSmallBytes()
-	if len(data) < offset+24 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
+	if len(data) < offset+26 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
 		return nil, errInsufficientData
 	}
 
-- 
2.43.0


From 9d93e3746b5ebd0ec7d401bf0423028a08b39a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 60/66] fix: frequencies decoders panicked on truncated images
 or allocated before checking the size

---
 frequencies/items_sketch.go | 20 +++++++++++---------
 frequencies/longs_sketch.go | 17 ++++++++---------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index dbf531e..c6486e7 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -115,6 +115,9 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	}
 
 	pre0, err := checkPreambleSize(slc) //make sure preamble will fit
+	if err != nil {
+		return nil, err
+	}
 	maxPreLongs := internal.FamilyEnum.Frequency.MaxPreLongs
 
 	preLongs := extractPreLongs(pre0)                     //Byte 0
@@ -137,7 +140,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible corruption: familyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 { //Byte 5 and Byte 0
+	if empty != preLongsEq1 { //Byte 5 and Byte 0
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
@@ -149,22 +152,15 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		preArr[j] = int64(binary.LittleEndian.Uint64(slc[j<<3:]))
 	}
 
-	fis, err := NewFrequencyItemsSketch[C](lgMaxMapSize, lgCurMapSize, hasher, serde)
-	if err != nil {
-		return nil, err
-	}
-	fis.streamWeight = 0 // update after
-	fis.offset = preArr[3]
-
 	preBytes := preLongs << 3
 	activeItems := extractActiveItems(preArr[1])
 
 	// Get countArray
-	countArray := make([]int64, activeItems)
 	reqBytes := preBytes + activeItems*8 // count Arr only
 	if len(slc) < reqBytes {
 		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
 	}
+	countArray := make([]int64, activeItems)
 	for j := 0; j < activeItems; j++ {
 		countArray[j] = int64(binary.LittleEndian.Uint64(slc[preBytes+j<<3:]))
 	}
@@ -175,6 +171,12 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		return nil, err
 	}
 	// update the sketch
+	fis, err := NewFrequencyItemsSketch[C](lgMaxMapSize, lgCurMapSize, hasher, serde)
+	if err != nil {
+		return nil, err
+	}
+	fis.streamWeight = 0 // update after
+	fis.offset = preArr[3]
 	for j := 0; j < activeItems; j++ {
 		err := fis.UpdateMany(itemArray[j], countArray[j])
 		if err != nil {
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index c655c1e..7cc9cc3 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -124,7 +124,7 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible Corruption: FamilyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 {
+	if empty != preLongsEq1 {
 		return nil, fmt.Errorf("possible Corruption: Empty Flag set incorrectly: %t", preLongsEq1)
 	}
 	if empty {
@@ -135,22 +135,15 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	for i := 0; i < preLongs; i++ {
 		preArr[i] = int64(binary.LittleEndian.Uint64(slc[i<<3:]))
 	}
-	fls, err := NewLongsSketch(lgMaxMapSize, lgCurMapSize)
-	if err != nil {
-		return nil, err
-	}
-	fls.streamWeight = 0 //update after
-	fls.offset = preArr[3]
-
 	preBytes := preLongs << 3
 	activeItems := extractActiveItems(preArr[1])
 
 	// Get countArray
-	countArray := make([]int64, activeItems)
 	reqBytes := preBytes + 2*activeItems*8 //count Arr + Items Arr
 	if len(slc) < reqBytes {
 		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
 	}
+	countArray := make([]int64, activeItems)
 	for i := 0; i < activeItems; i++ {
 		countArray[i] = int64(binary.LittleEndian.Uint64(slc[preBytes+(i<<3):]))
 	}
@@ -163,6 +156,12 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	}
 
 	// UpdateMany the sketch
+	fls, err := NewLongsSketch(lgMaxMapSize, lgCurMapSize)
+	if err != nil {
+		return nil, err
+	}
+	fls.streamWeight = 0 //update after
+	fls.offset = preArr[3]
 	for i := 0; i < activeItems && err == nil; i++ {
 		err = fls.UpdateMany(itemArray[i], countArray[i])
 	}
-- 
2.43.0


From 9105f866a730905ffe7d24db0f64b3987e5829b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 61/66] fix: sampling decoders panicked on truncated images or
 allocated before checking the size

---
 sampling/reservoir_items_sketch.go      |  9 ++++++
 sampling/varopt_items_sketch_decoder.go | 40 ++++++++++++++++---------
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index 71c411e..e5aea3d 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -435,9 +435,18 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 
 	flags := data[3]
 	isEmpty := (flags & flagEmpty) != 0
+	if isEmpty != (preambleLong == preambleIntsEmpty) {
+		return nil, fmt.Errorf("possible corruption: empty flag %t with %d preamble longs", isEmpty, preambleLong)
+	}
 	n := 0
 	if !isEmpty {
+		if len(data) < 16 {
+			return nil, errors.New("data too short for a non-empty sketch")
+		}
 		n = int(binary.LittleEndian.Uint64(data[8:]))
+		if n < 1 {
+			return nil, fmt.Errorf("possible corruption: non-empty sketch with n=%d", n)
+		}
 	}
 
 	k := int(binary.LittleEndian.Uint32(data[4:]))
diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index c5f9384..95eea8b 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -118,11 +118,11 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		sliceLen = int(h)
 	}
 
-	// read h weights, fill in rest of slice with -1.0
-	weights := make([]float64, sliceLen, allocSize)
+	// read h weights
 	if err := validateBuffer(buffer, index+int(h)*8); err != nil {
 		return nil, err
 	}
+	hWeights := make([]float64, h)
 	for i := 0; i < int(h); i++ {
 		w := math.Float64frombits(binary.LittleEndian.Uint64(buffer[index:]))
 		index += 8
@@ -131,10 +131,7 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 			return nil, fmt.Errorf("non-positive weight: %f", w)
 		}
 
-		weights[i] = w
-	}
-	for i := h; i < uint32(len(weights)); i++ {
-		weights[i] = -1
+		hWeights[i] = w
 	}
 
 	var (
@@ -142,7 +139,7 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		numMarksInH uint32
 	)
 	if isGadget {
-		marks = make([]bool, sliceLen, allocSize)
+		marks = make([]bool, h)
 		val := uint8(0)
 		for i := 0; i < int(h); i++ {
 			if (i & 0x7) == 0 {
@@ -161,8 +158,6 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		}
 	}
 
-	data := make([]T, sliceLen, allocSize)
-
 	hBytes, err := serde.SizeOfMany(buffer, index, int(h))
 	if err != nil {
 		return nil, err
@@ -175,8 +170,8 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		return nil, err
 	}
 	index += hBytes
-	copy(data[:h], hRegionData)
 
+	var rRegionData []T
 	if r > 0 {
 		rBytes, err := serde.SizeOfMany(buffer, index, int(r))
 		if err != nil {
@@ -185,13 +180,30 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		if err := validateBuffer(buffer, index+rBytes); err != nil {
 			return nil, err
 		}
-		rData, err := serde.DeserializeManyFromSlice(buffer, index, int(r))
+		rRegionData, err = serde.DeserializeManyFromSlice(buffer, index, int(r))
 		if err != nil {
 			return nil, err
 		}
-		index += rBytes
+	}
 
-		copy(data[h+1:h+1+r], rData)
+	// allocate only once the buffer is known to hold the samples
+	data := make([]T, sliceLen, allocSize)
+	copy(data, hRegionData)
+	if r > 0 {
+		copy(data[h+1:], rRegionData)
+	}
+
+	// fill in rest of slice with -1.0
+	weights := make([]float64, sliceLen, allocSize)
+	copy(weights, hWeights)
+	for i := int(h); i < len(weights); i++ {
+		weights[i] = -1
+	}
+
+	if isGadget {
+		allMarks := make([]bool, sliceLen, allocSize)
+		copy(allMarks, marks)
+		marks = allMarks
 	}
 
 	return &VarOptItemsSketch[T]{
@@ -264,7 +276,7 @@ func computeVarOptItemsSketchDataSize(
 			return 0, fmt.Errorf("invalid preamble longs: expected full because n>k, got %d", preambleLongs)
 		}
 
-		if h+r != k {
+		if uint64(h)+uint64(r) != uint64(k) {
 			return 0, fmt.Errorf("invalid state in full mode: expected h+r==k, got h=%d, r=%d, k=%d", h, r, k)
 		}
 
-- 
2.43.0


From ce818d5f178c8d78c04b997da0b4905330e9db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 62/66] fix: allocate for legacy t-digest centroids as they
 arrive

---
 tdigest/double_decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 108458c..a684c86 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -302,9 +302,9 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 
-	centroids := make([]doublePrecisionCentroid, numCentroids)
+	centroids := make([]doublePrecisionCentroid, 0, min(int(numCentroids), maxPreallocated))
 	var totalWeight uint64
-	for i := range centroids {
+	for range numCentroids {
 		var weightBytes uint32
 		if err := binary.Read(r, binary.BigEndian, &weightBytes); err != nil {
 			return nil, err
@@ -326,7 +326,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		centroids[i] = doublePrecisionCentroid{mean: float64(mean), weight: uint64(weight)}
+		centroids = append(centroids, doublePrecisionCentroid{mean: float64(mean), weight: uint64(weight)})
 		totalWeight += uint64(weight)
 	}
 
-- 
2.43.0


From 13759903585bea3dd8e2484b2f25516b3d3c320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:04 +0000
Subject: [PATCH 63/66] fix: t-digest centroids and tail quantiles stay finite
 when one centroid spans the float64 range

---
 tdigest/double.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 0322584..398e820 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -78,7 +78,7 @@ func (c *doublePrecisionCentroid) add(other doublePrecisionCentroid) {
 	if delta := other.mean - c.mean; !math.IsInf(delta, 0) {
 		c.mean += delta * ratio
 	} else {
-		c.mean += other.mean*ratio - c.mean*ratio
+		c.mean = c.mean*(1-ratio) + other.mean*ratio
 	}
 }
 
@@ -378,12 +378,13 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 
 	firstWeight := float64(d.centroids[0].weight)
 	if firstWeight > 1 && weight < firstWeight/2.0 {
-		return d.min + (weight-1.0)/(firstWeight/2.0-1.0)*(d.centroids[0].mean-d.min), nil
+		return weightedAverage(d.min, firstWeight/2.0-weight, d.centroids[0].mean, weight-1.0), nil
 	}
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
 	if lastWeight > 1 && float64(d.centroidsWeight)-weight < lastWeight/2.0 {
-		return d.max - (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
+		weightAbove := float64(d.centroidsWeight) - weight
+		return weightedAverage(d.centroids[len(d.centroids)-1].mean, weightAbove-1.0, d.max, lastWeight/2.0-weightAbove), nil
 	}
 
 	// interpolate between extremes
-- 
2.43.0


From 25217fd99860bb1ee76c6628607e872551535592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:29 +0000
Subject: [PATCH 64/66] fix: t-digest rejects a NaN rank

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 398e820..0694aa4 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -357,7 +357,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 	if d.IsEmpty() {
 		return 0, ErrEmpty
 	}
-	if rank < 0.0 || rank > 1.0 {
+	if !(rank >= 0.0 && rank <= 1.0) {
 		return 0, ErrInvalidRank
 	}
 
-- 
2.43.0


From 3ceda7e9c79d7ef092ac7e6a233d2de0fcc0afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:41 +0000
Subject: [PATCH 65/66] fix: KLL and REQ quantile queries reject a NaN rank

---
 internal/quantiles/utils.go | 2 +-
 kll/items_sketch.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/quantiles/utils.go b/internal/quantiles/utils.go
index 0f28254..9242628 100644
--- a/internal/quantiles/utils.go
+++ b/internal/quantiles/utils.go
@@ -47,7 +47,7 @@ func ValidateSplitPoints[N Number](values []N) error {
 }
 
 func ValidateNormalizedRankBounds(rank float64) error {
-	if rank < 0 || rank > 1 {
+	if !(rank >= 0 && rank <= 1) {
 		return errors.New("rank must be between 0 and 1 inclusive")
 	}
 	return nil
diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 7e44e12..cdfdf80 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -292,7 +292,7 @@ func (s *ItemsSketch[C]) GetQuantile(rank float64, inclusive bool) (C, error) {
 	if s.IsEmpty() {
 		return *new(C), fmt.Errorf("operation is undefined for an empty sketch")
 	}
-	if rank < 0.0 || rank > 1.0 {
+	if !(rank >= 0.0 && rank <= 1.0) {
 		return *new(C), fmt.Errorf("normalized rank cannot be less than zero or greater than 1.0: %f", rank)
 	}
 	err := s.setupSortedView()
-- 
2.43.0


From d84b7e99296a6e6eaa03b95e96d254c16a9716f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:56 +0000
Subject: [PATCH 66/66] fix: reservoir union refuses an oversized source before
 merging it

---
 sampling/reservoir_items_union.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index a573eae..9079a9c 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -175,6 +175,11 @@ func (u *ReservoirItemsUnion[T]) createNewGadget(
 func (u *ReservoirItemsUnion[T]) twoWayMergeInternal(
 	source *ReservoirItemsSketch[T], isModifiable bool,
 ) error {
+	// refuse before anything is merged: a refused source must not leave traces
+	if source.N() > maxItemsSeen-u.gadget.N() {
+		return ErrSketchExceedsMaxCapacity
+	}
+
 	if source.N() <= int64(source.K()) {
 		if err := u.twoWayMergeInternalStandard(source); err != nil {
 			return err
-- 
2.43.0

