From 7f1e8664b80bbc90e2d79f35303b847c5f9ba720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 01/25] fix: integer remainder instruction crashed on a zero
 divisor and on INT64_MIN % -1

---
 lib/arithmetic.c | 3 ++-
 lib/vm.c         | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 440eddf..5c6389c 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -128,7 +128,8 @@ static lVal lnfRem(lVal a, lVal b){
 			if(b.vInt == 0){
 				return lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL);
 			}
-			return lValInt(a.vInt % b.vInt);
+			// INT64_MIN % -1 traps on most architectures
+			return lValInt(unlikely(b.vInt == -1) ? 0 : a.vInt % b.vInt);
 		case ltFloat: {
 			lVal av = requireFloat(a);
 			if(unlikely(av.type == ltException)){
diff --git a/lib/vm.c b/lib/vm.c
index e41f59e..215b1df 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -348,7 +348,11 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt = a.vInt % b.vInt;
+				if(unlikely(b.vInt == 0)){
+					lThrow(lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL));
+				}
+				// INT64_MIN % -1 traps on most architectures
+				ctx.valueStack[ctx.sp].vInt = unlikely(b.vInt == -1) ? 0 : a.vInt % b.vInt;
 			} else if(likely(b.type == ltFloat)){
 				const lVal r = lValFloat(fmod(a.vInt, b.vFloat));
 				if(unlikely(r.type == ltException)){
-- 
2.43.0


From 5f29f442ae3aed5246fb6a91efd1dedd199621ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 02/25] fix: integer-only arithmetic procedures computed on
 non-integers and trapped on INT64_MIN / -1

---
 lib/arithmetic.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 5c6389c..4e4c55c 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -170,36 +170,45 @@ static lVal lnfPow(lVal a, lVal b){
 }
 
 static lVal lnfIncAstI(lVal a){
-	if(unlikely(a.type == ltNil)){
-		return lValExceptionNonNumeric(a);
-	}
+	reqInt(a);
 	return lValInt(a.vInt + 1);
 }
 
 static lVal lnfAddAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt + b.vInt);
 }
 
 static lVal lnfSubAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt - b.vInt);
 }
 
 static lVal lnfMulAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt * b.vInt);
 }
 
 static lVal lnfDivAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt / b.vInt);
+	// INT64_MIN / -1 traps on most architectures
+	return lValInt(unlikely(b.vInt == -1) ? (i64)(0 - (u64)a.vInt) : a.vInt / b.vInt);
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt % b.vInt);
+	return lValInt(unlikely(b.vInt == -1) ? 0 : a.vInt % b.vInt);
 }
 
 static lVal lnfLogAnd(lVal a, lVal b){
-- 
2.43.0


From f38144806b1bd8177546f4069b9a1705e47318b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 03/25] fix: float instructions let NaN/Inf become values and
 divided in single precision

---
 lib/vm.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 215b1df..43abe57 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -108,6 +108,15 @@ static inline lClosure *funCallClosure(lVal lambda) {
 	goto throwException;\
 } while(0)
 
+/* Replace the top of the stack with a float, or throw if it is NaN/Inf */
+#define lSetTopFloat(v) do {\
+	const lVal floatResult = lValFloat(v);\
+	if(unlikely(floatResult.type == ltException)){\
+		lThrow(floatResult);\
+	}\
+	ctx.valueStack[ctx.sp] = floatResult;\
+} while(0)
+
 /* Evaluate ops within callingClosure after pushing args on the stack.
  *
  * Doesn't look particularly elegant at times, but gets turned into pretty
@@ -218,15 +227,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt += b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(b.vFloat + a.vInt);
+				lSetTopFloat(a.vInt + b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat += b.vFloat;
+				lSetTopFloat(a.vFloat + b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat += b.vInt;
+				lSetTopFloat(a.vFloat + b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			}
@@ -244,7 +253,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt -= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt - b.vFloat);
+				lSetTopFloat(a.vInt - b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -252,9 +261,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vFloat;
+				lSetTopFloat(a.vFloat - b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vInt;
+				lSetTopFloat(a.vFloat - b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -274,7 +283,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt *= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt * b.vFloat);
+				lSetTopFloat(a.vInt * b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -282,9 +291,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vFloat;
+				lSetTopFloat(a.vFloat * b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vInt;
+				lSetTopFloat(a.vFloat * b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -302,13 +311,13 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				lVal r = lValFloat((float)a.vInt / (float)b.vInt);
+				lVal r = lValFloat((double)a.vInt / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltFloat)){
-				lVal r = lValFloat((float)a.vInt / b.vFloat);
+				lVal r = lValFloat((double)a.vInt / b.vFloat);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
@@ -326,7 +335,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltInt)){
-				const lVal r = lValFloat(a.vFloat / (float)b.vInt);
+				const lVal r = lValFloat(a.vFloat / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
-- 
2.43.0


From b4a7d4bae24504f98a78507f52d9937032fea882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 04/25] fix: ordering predicates overflowed on ints, shorter
 strings and treated equal floats as greater

---
 lib/val.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/val.c b/lib/val.c
index b0d27ee..55a9ff1 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -19,7 +19,7 @@ static inline i64 lStringGreater(const lBuffer *a, const lBuffer *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
 }
 
 static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
@@ -35,7 +35,7 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
 }
 
 /* Checks if A is greater than B, returns 0 if the two values can't be compared
@@ -44,15 +44,15 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 i64 lValGreater(const lVal a, const lVal b){
 	if(unlikely(a.type != b.type)){
 		if((a.type == ltInt) && (b.type == ltFloat)){
-			return (((float)a.vInt) < b.vFloat)
+			return (((double)a.vInt) < b.vFloat)
 				? -1
-				: (((float)a.vInt) > b.vFloat)
+				: (((double)a.vInt) > b.vFloat)
 				  ? 1
 				  : 0;
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return (a.vFloat < ((float)b.vInt))
+			return (a.vFloat < ((double)b.vInt))
 				? -1
-				: (a.vFloat > ((float)b.vInt))
+				: (a.vFloat > ((double)b.vInt))
 				  ? 1
 				  : 0;
 		}
@@ -62,9 +62,9 @@ i64 lValGreater(const lVal a, const lVal b){
 	default:
 		return 0;
 	case ltInt:
-		return a.vInt - b.vInt;
+		return (a.vInt > b.vInt) - (a.vInt < b.vInt);
 	case ltFloat:
-		return a.vFloat < b.vFloat ? -1 : 1;
+		return (a.vFloat > b.vFloat) - (a.vFloat < b.vFloat);
 	case ltKeyword:
 	case ltSymbol:
 		return lSymbolGreater(a.vSymbol, b.vSymbol);
@@ -77,9 +77,9 @@ i64 lValGreater(const lVal a, const lVal b){
 bool lValEqual(const lVal a, const lVal b) {
 	if (unlikely(a.type != b.type)) {
 		if ((a.type == ltInt) && (b.type == ltFloat)) {
-			return ((float)a.vInt) == b.vFloat;
+			return ((double)a.vInt) == b.vFloat;
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return a.vFloat == ((float)b.vInt);
+			return a.vFloat == ((double)b.vInt);
 		}
 		return false;
 	}
-- 
2.43.0


From ccf918dcfa1759cd540e5e02986752bf2a78e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 05/25] fix: shift procedures and shift instructions disagreed
 on negative values and out-of-range amounts

---
 lib/arithmetic.c    |  8 ++------
 lib/nujel-private.h |  9 +++++++++
 lib/vm.c            | 14 +++++++-------
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 4e4c55c..9ab4f43 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -246,17 +246,13 @@ static lVal lnfPopCount(lVal a){
 static lVal lnfAsh(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv << sv) : (iv >> -sv));
+	return lValInt(lIntShiftLeft(a.vInt, b.vInt));
 }
 
 static lVal lnfBitShiftRight(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv >> sv) : (iv << -sv));
+	return lValInt(lIntShiftRight(a.vInt, b.vInt));
 }
 
 static lVal lnfAbs(lVal t){
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 543fe61..86a16fc 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -417,6 +417,15 @@ void lOperationsArray      ();
 void lOperationsString     ();
 void lOperationsBytecode   ();
 
+/* Shift amounts are taken modulo 64, right shifts preserve the sign */
+static inline i64 lIntShiftLeft(i64 v, i64 amount){
+	return (i64)((u64)v << (amount & 63));
+}
+
+static inline i64 lIntShiftRight(i64 v, i64 amount){
+	return v >> (amount & 63);
+}
+
 lVal lValBytecodeOp(lBytecodeOp v);
 lVal lGenericRef(lVal col, lVal key);
 lVal lGenericSet(lVal col, lVal key, lVal v);
diff --git a/lib/vm.c b/lib/vm.c
index 43abe57..ea0434b 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -392,31 +392,31 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		}
 		vmbreak; }
 
-#define vmBinaryIntegerOp(OP) do{\
+#define vmBinaryIntegerOp(EXPR) do{\
 	const lVal a = ctx.valueStack[ctx.sp-1];\
 	const lVal b = ctx.valueStack[ctx.sp];\
 	ctx.sp--;\
 	if(likely((a.type == ltInt) && (b.type == ltInt))){\
-		ctx.valueStack[ctx.sp].vInt = a.vInt OP b.vInt;\
+		ctx.valueStack[ctx.sp].vInt = (EXPR);\
 	} else {\
 		lThrow(lValExceptionNonNumeric(b));\
 	}\
 	} while(0)
 
 	vmcase(lopBitShiftLeft)
-		vmBinaryIntegerOp(<<);
+		vmBinaryIntegerOp(lIntShiftLeft(a.vInt, b.vInt));
 		vmbreak;
 	vmcase(lopBitShiftRight)
-		vmBinaryIntegerOp(>>);
+		vmBinaryIntegerOp(lIntShiftRight(a.vInt, b.vInt));
 		vmbreak;
 	vmcase(lopBitAnd)
-		vmBinaryIntegerOp(&);
+		vmBinaryIntegerOp(a.vInt & b.vInt);
 		vmbreak;
 	vmcase(lopBitOr)
-		vmBinaryIntegerOp(|);
+		vmBinaryIntegerOp(a.vInt | b.vInt);
 		vmbreak;
 	vmcase(lopBitXor)
-		vmBinaryIntegerOp(^);
+		vmBinaryIntegerOp(a.vInt ^ b.vInt);
 		vmbreak;
 
 	vmcase(lopBitNot)
-- 
2.43.0


From 532264840d82feec810f66876d5b95aac09ede21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 06/25] fix: increment instruction silently ignored non-integer
 operands

---
 lib/vm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index ea0434b..ff33aa6 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -589,6 +589,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopIncInt)
 		if(likely(ctx.valueStack[ctx.sp].type == ltInt)){
 			ctx.valueStack[ctx.sp].vInt++;
+		} else {
+			lThrow(lValExceptionNonNumeric(ctx.valueStack[ctx.sp]));
 		}
 		vmbreak;
 	vmcase(lopCar)
-- 
2.43.0


From 3571a310b1b3c5ccdcaaf684df6078128134b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 07/25] fix: abs of the smallest integer was undefined
 behaviour

---
 lib/arithmetic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 9ab4f43..9ca6896 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -262,7 +262,8 @@ static lVal lnfAbs(lVal t){
 	case ltFloat:
 		return lValFloat(fabs(t.vFloat));
 	case ltInt:
-		return lValInt(llabs(t.vInt));
+		// llabs(INT64_MIN) is undefined
+		return lValInt(t.vInt < 0 ? (i64)(0 - (u64)t.vInt) : t.vInt);
 	}
 }
 
-- 
2.43.0


From ea88372b6bb5ca380aff65d9d2a8215a90f2977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 08/25] fix: ref and set! truncated indices to 32 bits and
 ignored the offset of a view

---
 lib/generic.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/lib/generic.c b/lib/generic.c
index 83ece98..ebe9bf6 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -5,13 +5,14 @@
 #endif
 
 static lVal lBufferViewRef(lVal car, size_t i){
-	const void *buf = car.vBufferView->buf->buf;
-	const size_t length = car.vBufferView->length;
-	const lBufferViewType viewType = car.vBufferView->type;
+	const lBufferView *view = car.vBufferView;
+	const size_t length = view->length;
+	const lBufferViewType viewType = view->type;
 
-	if(unlikely(buf == NULL)){
+	if(unlikely(view->buf->buf == NULL)){
 		return lValException(lSymTypeError, "Can't ref that", car);
 	}
+	const void *buf = (u8 *)view->buf->buf + (view->offset * lBufferViewTypeSize(viewType));
 	if(unlikely(i >= length)){
 		return lValException(lSymOutOfBounds, "ref - index provided is out of bounds", car);
 	}
@@ -45,22 +46,22 @@ lVal lGenericRef(lVal col, lVal key){
 	switch(col.type){
 	case ltPair:
 		reqNaturalInt(key);
-		for(int i=0;i<key.vInt;i++){
+		for(i64 i=0;(i<key.vInt) && (col.type == ltPair);i++){
 			col = lCdr(col);
 		}
 		return lCar(col);
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely((arr->dataEnd - arr->data) <= i)){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		return lValInt(arr->data[i]); }
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
@@ -98,13 +99,14 @@ lVal lGenericRef(lVal col, lVal key){
 
 
 static lVal lBufferViewSet(lVal car, size_t i, lVal v){
-	const void *buf = car.vBufferView->buf->buf;
-	const size_t length = car.vBufferView->length;
-	const lBufferViewType viewType = car.vBufferView->type;
+	const lBufferView *view = car.vBufferView;
+	const size_t length = view->length;
+	const lBufferViewType viewType = view->type;
 
-	if(unlikely(buf == NULL)){
+	if(unlikely(view->buf->buf == NULL)){
 		return lValException(lSymTypeError, "Can't ref that", car);
 	}
+	void *buf = (u8 *)view->buf->buf + (view->offset * lBufferViewTypeSize(viewType));
 	if(unlikely(i >= length)){
 		return lValException(lSymOutOfBounds, "ref - index provided is out of bounds", car);
 	}
@@ -163,8 +165,8 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely((arr->dataEnd - arr->data) <= i)){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		if(unlikely((v.type != ltInt))){
@@ -175,7 +177,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
-- 
2.43.0


From c875ec41d66f6dc7579f87c53670726327c516eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 09/25] fix: set! modified immutable buffers, buffer views and
 bytecode literals

---
 lib/generic.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/generic.c b/lib/generic.c
index ebe9bf6..5f55328 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -106,6 +106,9 @@ static lVal lBufferViewSet(lVal car, size_t i, lVal v){
 	if(unlikely(view->buf->buf == NULL)){
 		return lValException(lSymTypeError, "Can't ref that", car);
 	}
+	if(unlikely(view->flags & BUFFER_VIEW_IMMUTABLE)){
+		return lValException(lSymTypeError, "Can only set! mutable buffer views", car);
+	}
 	void *buf = (u8 *)view->buf->buf + (view->offset * lBufferViewTypeSize(viewType));
 	if(unlikely(i >= length)){
 		return lValException(lSymOutOfBounds, "ref - index provided is out of bounds", car);
@@ -176,6 +179,9 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		return col; }
 	case ltArray: {
 		lArray *arr = col.vArray;
+		if(unlikely(arr->flags & ARRAY_IMMUTABLE)){
+			return lValException(lSymTypeError, "Can only set! mutable arrays", col);
+		}
 		reqNaturalInt(key);
 		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
@@ -184,6 +190,9 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		arr->data[i] = v;
 		return col; }
 	case ltBuffer: {
+		if(unlikely(col.vBuffer->flags & BUFFER_IMMUTABLE)){
+			return lValException(lSymTypeError, "Can only set! mutable buffers", col);
+		}
 		char *buf  = col.vBuffer->buf;
 		const size_t len = col.vBuffer->length;
 		reqNaturalInt(key);
-- 
2.43.0


From c157f83a154ac53671b959bfed6c5ab6d2d50ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 10/25] fix: array resizing freed the data of empty arrays,
 truncated lengths, and array/new wrote past its allocation

---
 lib/array.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index 68bd2c2..d3113ae 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -12,10 +12,16 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	reqNaturalInt(newLength);
 	const size_t length = newLength.vInt;
 	lArray *arr = self.vArray;
+	if (unlikely(arr->flags & ARRAY_IMMUTABLE)) {
+		return lValException(lSymTypeError, ":length! requires a mutable array", self);
+	}
+	if (unlikely(newLength.vInt > INT32_MAX)) {
+		return lValException(lSymOOM, "(:length Array) couldn't allocate its array", self);
+	}
 
-	lVal *newData = realloc(arr->data,length * sizeof(lVal));
+	// One additional element, since a size of 0 would free the current array
+	lVal *newData = realloc(arr->data,(length + 1) * sizeof(lVal));
 	if (unlikely(newData == NULL)) {
-		free(newData);
 		return lValException(lSymOOM, "(:length Array) couldn't allocate its array", self);
 	}
 	arr->data = newData;
@@ -39,7 +45,7 @@ lVal lnfArrNew(lVal v){
 	int length = lListLength(v);
 	lVal r = lValAlloc(ltArray, lArrayAlloc(length));
 	int key = 0;
-	for(lVal n = v; n.type == ltPair; n = n.vList->cdr){
+	for(lVal n = v; key < length; n = n.vList->cdr){
 		r.vArray->data[key++] = n.vList->car;
 	}
 	return r;
@@ -66,6 +72,9 @@ static lVal lnmArrayToBytecodeArray(lVal self, lVal aLiterals){
 static lVal lnmArrayAllocate(lVal self, lVal size){
 	(void)self;
 	reqNaturalInt(size);
+	if(unlikely(size.vInt > INT32_MAX)){
+		return lValException(lSymOOM, "(:alloc Array) couldn't allocate its array", size);
+	}
 	lVal r = lValAlloc(ltArray, lArrayAlloc(size.vInt));
 	if(unlikely(size.vInt && (r.vArray->data == NULL))){
 		return lValException(lSymOOM, "(:alloc Array) couldn't allocate its array", size);
-- 
2.43.0


From f28bdca90939549274c1df73170eac31826ce363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 11/25] fix: immutable buffer views could be read into from
 files, and views of immutable buffers could not be written to files

---
 lib/buffer.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 2afba45..f459d1a 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -9,8 +9,8 @@ const void *lBufferData (lBuffer *v){
 }
 
 void *lBufferDataMutable(lBuffer *v){
-	if(v->flags & BUFFER_IMMUTABLE){return NULL;}
-	return v == NULL ? NULL : v->buf;
+	if((v == NULL) || (v->flags & BUFFER_IMMUTABLE)){return NULL;}
+	return v->buf;
 }
 
 size_t lBufferLength(const lBuffer *v){
@@ -19,11 +19,12 @@ size_t lBufferLength(const lBuffer *v){
 
 const void *lBufferViewData(lBufferView *v){
 	if(unlikely(v == NULL)){return NULL;}
-	if(unlikely(v->buf->flags & BUFFER_IMMUTABLE)){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
 void *lBufferViewDataMutable(lBufferView *v){
+	if(unlikely(v == NULL)){return NULL;}
+	if(unlikely((v->flags & BUFFER_VIEW_IMMUTABLE) || (v->buf->flags & BUFFER_IMMUTABLE))){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
-- 
2.43.0


From ccfd2f22b0f85751a62b272bb875141719244c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 12/25] fix: buffer operations truncated or overflowed lengths
 and offsets, buffer->string read before the buffer

---
 lib/buffer.c | 27 ++++++++++++++++++++++-----
 lib/string.c |  2 +-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index f459d1a..ae1ad53 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -34,7 +34,14 @@ size_t lBufferViewLength(const lBufferView *v){
 
 static lVal lnfBufferAllocate(lVal a) {
 	reqNaturalInt(a);
+	if(unlikely(a.vInt > INT32_MAX)){
+		return lValException(lSymOOM, "(buffer/allocate) couldn't allocate a buffer", a);
+	}
 	lBuffer *buf = lBufferAlloc(a.vInt, false);
+	if(unlikely(buf->buf == NULL)){
+		buf->length = 0;
+		return lValException(lSymOOM, "(buffer/allocate) couldn't allocate a buffer", a);
+	}
 	return lValAlloc(ltBuffer, buf);
 }
 
@@ -54,9 +61,9 @@ static lVal bufferFromPointer(bool immutable, const void *data, size_t length){
 static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength){
 	reqMutableBuffer(aDest);
 	reqNaturalInt(aDestOffset);
-	const int destOffset = aDestOffset.vInt;
+	const i64 destOffset = aDestOffset.vInt;
 	const void *buf = NULL;
-	int length = 0;
+	i64 length = 0;
 
 	switch(vSrc.type){
 	case ltString:
@@ -69,10 +76,10 @@ static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength)
 	if(unlikely((buf == NULL) || (length < 0))){
 		return lValException(lSymTypeError, "Can't copy from that", vSrc);
 	}
-	if(unlikely(((length + destOffset) > aDest.vBuffer->length) || (length > vSrc.vBuffer->length))){
+	if(unlikely((length > vSrc.vBuffer->length) || (destOffset > (aDest.vBuffer->length - length)))){
 		return lValException(lSymOutOfBounds, "Can't fit everything in that buffer", vSrc);
 	}
-	memcpy(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
+	memmove(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
 	return aDest;
 }
 
@@ -80,6 +87,9 @@ static lVal lnfBufferToString(lVal a, lVal aLength, lVal aOffset){
 	reqBuffer(a);
 	const i64 length = MIN(a.vBuffer->length, castToInt(aLength, a.vBuffer->length));
 	i64 offset = aOffset.type == ltInt ? aOffset.vInt : 0;
+	if(unlikely(offset < 0)){
+		return lValException(lSymOutOfBounds, "Offset can't be negative", aOffset);
+	}
 	if(unlikely(offset > length)){
 		return lValString("");
 	}
@@ -134,10 +144,17 @@ static lVal lnmBufferLengthSet(lVal self, lVal newLength){
 	lBuffer *buf = self.vBuffer;
 
 	reqNaturalInt(newLength);
+	if(unlikely(newLength.vInt > INT32_MAX)){
+		return lValException(lSymOOM, "(buffer/length!) couldn't allocate its buffer", self);
+	}
 	const int length = newLength.vInt;
 	if(length < buf->length){
 		return lValException(lSymOutOfBounds, "Buffers can only grow, not shrink.", self);
 	}
+	// realloc might free the current buffer if the new length is 0
+	if(length == buf->length){
+		return self;
+	}
 	void *nBuf = realloc(buf->buf, length);
 	if (unlikely(nBuf == NULL)) {
 		return lValException(lSymOOM, "(buffer/length!) couldn't allocate its buffer", self);
@@ -166,7 +183,7 @@ static lVal lnmBufferCut(lVal self, lVal start, lVal stop){
 	slen = len = lBufferLength(self.vBuffer);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, (((stop.type == ltInt)) ? MAX(0, stop.vInt) : len)) - off;
 
 	if(unlikely(len <= 0)){
 		return lnfBufferAllocate(lValInt(0));
diff --git a/lib/string.c b/lib/string.c
index 6c5036c..58379c0 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -80,7 +80,7 @@ static lVal lnmStringCut(lVal self, lVal start, lVal stop){
 	slen = len = lBufferLength(self.vString);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, (((stop.type == ltInt)) ? MAX(0, stop.vInt) : len)) - off;
 
 	if(unlikely(len <= 0)){return lValString("");}
 	return lValStringLen(&buf[off], len);
-- 
2.43.0


From ce6a63b64fb068619172756a08f6331f2ee32881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 13/25] fix: index-of and last-index-of searched outside the
 string and stopped at NUL bytes

---
 lib/string.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 58379c0..19b074b 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -96,16 +96,12 @@ static lVal lnmStringIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, 0);
+	const i64 pos = MAX(0, castToInt(start, 0));
 	if(pos > haystackLength-needleLength){return lValInt(-3);}
-	/* Empty strings just return the current position, this is so we can
-	 * split an empty string into each character by passing an empty string
-	 */
-	if(needleLength <= 0){return lValInt(pos);}
-
-	for(const char *s = &haystack[pos]; *s != 0; s++){
-		if(strncmp(s,needle,needleLength)){continue;}
-		return lValInt(s-haystack);
+
+	for(i64 i = pos; i <= haystackLength-needleLength; i++){
+		if(memcmp(&haystack[i],needle,needleLength)){continue;}
+		return lValInt(i);
 	}
 	return lValInt(-1);
 }
@@ -120,11 +116,11 @@ static lVal lnmStringLastIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, haystackLength - needleLength);
+	const i64 pos = MIN(haystackLength - needleLength, castToInt(start, haystackLength - needleLength));
 
-	for(const char *s = &haystack[pos]; s >= haystack; s--){
-		if(strncmp(s,needle,needleLength)){continue;}
-		return lValInt(s-haystack);
+	for(i64 i = pos; i >= 0; i--){
+		if(memcmp(&haystack[i],needle,needleLength)){continue;}
+		return lValInt(i);
 	}
 	return lValInt(-1);
 }
-- 
2.43.0


From fb0bdcab781ed8bcf76ec1705f9a9e1f4b74c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 14/25] fix: converting large floats to strings overflowed a
 stack buffer

---
 lib/core-operators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index e9d0805..574d999 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -141,7 +141,7 @@ static lVal lnfIntToString(lVal a){
 }
 
 static lVal lnfFloatToString(lVal a){
-	char buf[32];
+	char buf[512]; // Has to be able to store the more than 300 digits of DBL_MAX
 	int snret = snprintf(buf,sizeof(buf),"%f", a.vFloat);
 	if(snret < 0){
 		return lValException(lSymIOError, "Unprintable flonum", a);
-- 
2.43.0


From 31ea1f21a706452e2c1ace41aa0888c913607cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 15/25] fix: converting floats outside the 64-bit range to ints
 was undefined behaviour

---
 lib/arithmetic.c     | 5 +++--
 lib/core-operators.c | 2 +-
 lib/nujel.h          | 7 +++++++
 lib/type-system.c    | 2 +-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 9ca6896..44cccb8 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -152,10 +152,11 @@ static lVal lnfPow(lVal a, lVal b){
 	switch(t){
 	default:
 		return lValExceptionFloat(b);
-	case ltInt:
+	case ltInt: {
 		reqInt(a);
 		reqInt(b);
-		return lValInt(pow(a.vInt, b.vInt));
+		const lVal r = lValFloat(pow(a.vInt, b.vInt));
+		return unlikely(r.type == ltException) ? r : lValInt(lFloatToInt(r.vFloat)); }
 	case ltFloat: {
 		lVal av = requireFloat(a);
 		if(unlikely(av.type == ltException)){
diff --git a/lib/core-operators.c b/lib/core-operators.c
index 574d999..b82a843 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -72,7 +72,7 @@ static lVal lnfInt(lVal v){
 	if(likely(v.type == ltInt)){
 		return v;
 	} else if(likely(v.type == ltFloat)){
-		return lValInt(v.vFloat);
+		return lValInt(lFloatToInt(v.vFloat));
 	} else {
 		return lValExceptionType(v, ltInt);
 	}
diff --git a/lib/nujel.h b/lib/nujel.h
index 90a6309..03b0d90 100644
--- a/lib/nujel.h
+++ b/lib/nujel.h
@@ -313,6 +313,13 @@ extern lSymbol *lSymNotSupportedOnPlatform;
 /*
  | lVal related procedures
  */
+/* Convert v to an int, values outside of the 64-bit range saturate */
+static inline i64 lFloatToInt(double v){
+	if(unlikely(v >= 9223372036854775808.0)){return INT64_MAX;}
+	if(unlikely(v < -9223372036854775808.0)){return INT64_MIN;}
+	return v;
+}
+
 static inline lVal lValFloat(double v){
 	if(unlikely(isnan(v))){
 		return lValException(lSymFloatNaN,"NaN is disallowed in Nujel", NIL);
diff --git a/lib/type-system.c b/lib/type-system.c
index c9283be..5bf73e7 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -341,7 +341,7 @@ lVal lValExceptionNonNumeric(lVal v){
 /* Cast v to be an int without memory allocations, or return fallback */
 i64 castToInt(const lVal v, i64 fallback){
 	switch(v.type){
-		case ltFloat: return v.vFloat;
+		case ltFloat: return lFloatToInt(v.vFloat);
 		case ltInt:   return v.vInt;
 		default:      return fallback;
 	}
-- 
2.43.0


From f5b2d925379907ede68d7ca55fbe1d2e801fbf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 16/25] fix: recursion deeper than 65535 pending operands
 corrupted the value stack

---
 lib/nujel-private.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 86a16fc..025f5db 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -153,7 +153,7 @@ struct lClosure {
 		lVal args;
 		lVal exceptionHandler;
 	};
-	u16 sp;
+	int sp;
 	u8 type;
 };
 
-- 
2.43.0


From c89d3f196f44066fe8b2aa496eb0db6b9ad04218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 17/25] fix: cutting a buffer crashed when memory ran out

---
 lib/buffer.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index ae1ad53..e78510b 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -51,6 +51,7 @@ static lVal bufferFromPointer(bool immutable, const void *data, size_t length){
 	retBuf->flags = immutable ? BUFFER_IMMUTABLE : 0;
 	retBuf->buf = malloc(length);
 	if (unlikely(retBuf->buf == NULL)) {
+		retBuf->length = 0;
 		return lValException(lSymOOM, "(buffer/length!) couldn't allocate a buffer", NIL);
 	}
 	memcpy(retBuf->buf, data, length);
@@ -189,7 +190,11 @@ static lVal lnmBufferCut(lVal self, lVal start, lVal stop){
 		return lnfBufferAllocate(lValInt(0));
 	}
 	lBuffer *ret = lBufferAlloc(len, false);
-	memcpy(lBufferDataMutable(ret), buf+off, len);
+	if(unlikely(ret->buf == NULL)){
+		ret->length = 0;
+		return lValException(lSymOOM, "(:cut Buffer) couldn't allocate a buffer", self);
+	}
+	memcpy(ret->buf, buf+off, len);
 	return lValAlloc(ltBuffer, ret);
 }
 
-- 
2.43.0


From 1e01c591f19af119634968ed3b8189e0c07933e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 18/25] fix: rotating a tree to the right left a wrong height
 at its root

---
 lib/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tree.c b/lib/tree.c
index a9a5cca..5e61b84 100644
--- a/lib/tree.c
+++ b/lib/tree.c
@@ -56,8 +56,8 @@ static lTree *lTreeRotateRight(lTree *y){
 	x->right = y;
 	y->left = T2;
 
-	x->height = lTreeCalcHeight(x);
 	y->height = lTreeCalcHeight(y);
+	x->height = lTreeCalcHeight(x);
 
 	return x;
 }
-- 
2.43.0


From d5557e1f28c0b4f7228e1305640321c9baf44eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 19/25] fix: creating a symbol failed once no slot of the index
 had never been used

---
 lib/symbol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/symbol.c b/lib/symbol.c
index cfb1247..0944d0b 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -213,6 +213,9 @@ uint lSymbolIndexSlot(const char *str){
 			h = 0;
 		}
 	} while (h != hInitial);
+	if(firstTomb != 0xffffffff){
+		return firstTomb;
+	}
 	exit(111);
 	return 0;
 }
-- 
2.43.0


From e2be0bb0ac3d99ea909333981a650848527180ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 20/25] fix: a symbol with a name of more than 93 characters
 was not found by its name

---
 lib/symbol.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/symbol.c b/lib/symbol.c
index 0944d0b..8d69d75 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -180,7 +180,8 @@ lSymbol *lSymSM(const char *str){
 }
 
 static inline u32 lHashSymStr(const char *str){
-	return fasthash32(str, strlen(str), 0x5b0a159d9eac0381ULL);
+	const size_t len = strlen(str); // Only what is stored in a symbol counts
+	return fasthash32(str, MIN(len, sizeof(lSymbolList[0].c) - 1), 0x5b0a159d9eac0381ULL);
 }
 
 // Probes the symbol index and returns the slot where STR is stored.  If STR is
-- 
2.43.0


From bca17bbd4617b3a8e918af6ebd3b30cb03c3686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 21/25] fix: assigning to an unbound variable went unnoticed in
 functions with more than 255 literals

---
 lib/vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index ff33aa6..8803e2b 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -548,7 +548,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		// used that I prefer to keep it simple
 		const uint v = (ip[0] << 8) | (ip[1]);
 		ip += 2;
-		lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]);
+		if(unlikely(!lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]))){
+			lThrow(lValException(lSymUnboundVariable, "Can't set symbol", lValSymS(lits[v].vSymbol)));
+		}
 		vmbreak; }
 	vmcase(lopSetVal) {
 		const lSymbol *s = lits[*ip++].vSymbol;
-- 
2.43.0


From a3deab4b13768699b6560b2755ce01e51ae933fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:47 +0000
Subject: [PATCH 22/25] fix: an expression around a try that caught an
 exception saw the handler as an operand

---
 lib/vm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 8803e2b..a666d35 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -621,14 +621,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopClosurePop)
 		c = ctx.closureStack[--ctx.csp];
 		vmbreak;
-	vmcase(lopTry)
+	vmcase(lopTry) {
+		const lVal handler = ctx.valueStack[ctx.sp--];
 		lStoreInClosure(lBytecodeGetOffset16(ip)-1);
 
 		c = lClosureNew(c, closureTry);
-		c->exceptionHandler = ctx.valueStack[ctx.sp--];
+		c->exceptionHandler = handler;
 		ctx.closureStack[++ctx.csp] = c;
 		ip+=2;
-		vmbreak;
+		vmbreak; }
 	vmcase(lopThrow) {
 		lVal v = ctx.valueStack[ctx.sp];
 		if(likely(v.type == ltPair)){
-- 
2.43.0


From bb2d0fabeb408eedc4b0f5a7ba74076fe2d1fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 23/25] fix: expressions with many operands or nested scopes
 overflowed the stacks of the virtual machine

---
 lib/vm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index a666d35..8b88e81 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -44,18 +44,21 @@ static lVal lStackBuildList(lVal *stack, int sp, int len){
 	return ret;
 }
 
+/* Make room for everything the code about to run can push: every instruction
+ * pushes at most one value and one closure. */
 static void lBytecodeEnsureSufficientStack(lThread *ctx){
+	const int needed = 32 + (ctx->text->dataEnd - ctx->text->data);
 	const int closureSizeLeft = (ctx->closureStackSize - ctx->csp) - 1;
-	if(unlikely(closureSizeLeft < 16)){
-		ctx->closureStackSize += 512;
+	if(unlikely(closureSizeLeft < needed)){
+		ctx->closureStackSize += 512 + needed;
 		lClosure **t = realloc(ctx->closureStack, ctx->closureStackSize * sizeof(lClosure *));
 		if(unlikely(t == NULL)){ exit(56); }
 		ctx->closureStack = t;
 	}
 
 	const int valueSizeLeft = ctx->valueStackSize - ctx->sp;
-	if(unlikely(valueSizeLeft < 32)){
-		ctx->valueStackSize += 512;
+	if(unlikely(valueSizeLeft < needed)){
+		ctx->valueStackSize += 512 + needed;
 		lVal *t = realloc(ctx->valueStack, ctx->valueStackSize * sizeof(lVal));
 		if(unlikely(t == NULL)){ exit(57); }
 		ctx->valueStack = t;
@@ -209,6 +212,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	ctx.text             = text;
 	ctx.valueStack[0]    = NIL;
 	ctx.valueStack[1]    = NIL;
+	lBytecodeEnsureSufficientStack(&ctx);
 
 	ip = ops->data;
 
-- 
2.43.0


From 2b8cbf7d22732dbff6ca7d408fd7c0eedc18d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 24/25] fix: calling a keyword without arguments crashed

---
 lib/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index 8b88e81..78ffaa6 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -754,7 +754,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal fun = ctx.valueStack[ctx.sp--];
 		lVal *vs = &ctx.valueStack[argsSp];
 		if(unlikely(fun.type == ltKeyword)){
-			const lVal self = vs[1-len];
+			const lVal self = len > 0 ? vs[1-len] : NIL;
 			const lVal nfun = lMethodLookup(fun.vSymbol, self);
 			if(unlikely(nfun.type == ltException)){
 				lThrow(lValException(lSymTypeError, "Unknown method", lCons(fun, lCons(lValType(&lClassList[self.type]), NIL))));
-- 
2.43.0


From 7858163de73fa6c1d0812f5d4be7ab8fb5f311e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:18 +0000
Subject: [PATCH 25/25] fix: throwing a list appended the stack trace to that
 list itself, growing literals

---
 lib/vm.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 78ffaa6..202a990 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -79,6 +79,19 @@ static lVal stackTrace(const lThread *ctx){
 	return ret;
 }
 
+/* A copy of the list exception, without its tail if it is improper, with a stack
+ * trace appended. The list itself might be a literal or still be in use. */
+static lVal exceptionWithStackTrace(lVal exception, const lThread *ctx){
+	const lVal ret = lCons(lCar(exception), NIL);
+	lPair *t = ret.vList;
+	for(lVal l = lCdr(exception); l.type == ltPair; l = lCdr(l)){
+		t->cdr = lCons(lCar(l), NIL);
+		t = t->cdr.vList;
+	}
+	t->cdr = lCons(stackTrace(ctx), NIL);
+	return ret;
+}
+
 static inline lClosure *funCallClosure(lVal lambda) {
 	lClosure *tmpc = lClosureAllocRaw();
 	tmpc->parent = lambda.vClosure;
@@ -647,11 +660,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 
 		if(likely(exceptionThrownValue.type == ltException)){
 			exceptionThrownValue.type = ltPair;
-			lPair *t = exceptionThrownValue.vList;
-			while(t->cdr.type == ltPair){
-				t=t->cdr.vList;
-			}
-			t->cdr = lCons(stackTrace(&ctx),NIL);
+			exceptionThrownValue = exceptionWithStackTrace(exceptionThrownValue, &ctx);
 		}
 
 		while(likely(c != NULL) && (c->type != closureTry)){
-- 
2.43.0

