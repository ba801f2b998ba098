From 4fb6c8cfbf0f439c3c023707cc8bae53d6f9b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:13 +0000
Subject: [PATCH 01/52] fix: evaluating a ^ expression indexed past its last
 operand and panicked

---
 arithmeticeval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 80c3059..b2293b6 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -53,7 +53,7 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		Value: val.Get(),
 		Const: val.IsConst(),
 	}
-	for i := 1; 1 < len(expr.parts); i++ {
+	for i := 1; i < len(expr.parts); i++ {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 6175cf86061c5e69a18709932bb8e9259a642990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:14 +0000
Subject: [PATCH 02/52] fix: an error in a multiplicative chain was overwritten
 by the next step, and x*null failed

---
 arithmeticeval.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index b2293b6..3071829 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -222,7 +222,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			ret.Value = val.Get()
 			ret.Const = val.IsConst()
 		} else {
-			if ret.Value == nil {
+			if ret.Value == nil || val.Get() == nil {
 				return RValue{}, nil
 			}
 			ret.Const = ret.Const && val.IsConst()
@@ -261,11 +261,11 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			default:
 				err = ErrInvalidMultiplicativeOperation
 			}
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
-	if err != nil {
-		return nil, err
-	}
 	if ret.Const {
 		expr.constValue = &ret
 	}
-- 
2.43.0


From 7d499451492e666ff05383acb727c25963db069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:15 +0000
Subject: [PATCH 03/52] fix: list concatenation lost its result, and cached it
 when both lists were empty

---
 arithmeticeval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 3071829..0582b0c 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -374,6 +374,7 @@ func addlistlist(a, b []Value) RValue {
 		}
 		arr = append(arr, x)
 	}
+	ret.Value = arr
 	return ret
 }
 
@@ -475,7 +476,9 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			}
 			switch operandValue := operand.Get().(type) {
 			case []Value:
+				isConst := ret.Const
 				ret = addlistlist(retValue, operandValue)
+				ret.Const = ret.Const && isConst
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
-- 
2.43.0


From 1645865855e882c46162cdcb7a192eabafc24d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:16 +0000
Subject: [PATCH 04/52] fix: + and - with an unsupported left operand returned
 that operand instead of failing

---
 arithmeticeval.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 0582b0c..76980f3 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -482,6 +482,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
+		default:
+			err = ErrInvalidAdditiveOperation
 		}
 		return err
 	}
-- 
2.43.0


From 09d6344947b07c65774ddbc2d28415a71027953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:17 +0000
Subject: [PATCH 05/52] fix: multiplying or dividing a duration by a float
 truncated the float first, dividing by zero when |x|<1

---
 arithmeticeval.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 76980f3..6e07a0e 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -172,24 +172,22 @@ func mulintdur(a int64, b Duration, op rune) (Duration, error) {
 }
 
 func muldurfloat(a Duration, b float64, op rune) (Duration, error) {
-	val := int64(b)
 	switch op {
 	case '*':
-		return Duration{Months: int64(a.Months * val), Days: int64(a.Days * val), Seconds: int64(a.Seconds * val), Nanos: a.Nanos * int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) * b), Days: int64(float64(a.Days) * b), Seconds: int64(float64(a.Seconds) * b), Nanos: int(float64(a.Nanos) * b)}, nil
 	case '/':
 		if b == 0 {
 			return Duration{}, ErrDivideByZero
 		}
-		return Duration{Months: int64(a.Months / val), Days: int64(a.Days / val), Seconds: int64(a.Seconds / val), Nanos: a.Nanos / int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) / b), Days: int64(float64(a.Days) / b), Seconds: int64(float64(a.Seconds) / b), Nanos: int(float64(a.Nanos) / b)}, nil
 	}
 	return Duration{}, ErrInvalidDurationOperation
 }
 
 func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
-	val := int64(a)
 	switch op {
 	case '*':
-		return Duration{Months: b.Months * val, Days: b.Days * val, Seconds: b.Seconds * val, Nanos: b.Nanos * int(val)}, nil
+		return muldurfloat(b, a, op)
 	default:
 		return Duration{}, ErrInvalidDurationOperation
 	}
-- 
2.43.0


From 9fd2152d6796f035d2e4677f06efe9a10e92f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:57 +0000
Subject: [PATCH 06/52] fix: IN rejected every list and accepted non-lists

---
 eval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index b13ff57..f386c57 100644
--- a/eval.go
+++ b/eval.go
@@ -123,10 +123,11 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			return nil, err
 		}
 		list, ok := listValue.Get().([]Value)
-		if ok {
+		if !ok {
 			if listValue.Get() != nil {
 				return nil, ErrNotAList
 			}
+			return RValue{}, nil
 		}
 		if inputValue.Get() == nil {
 			return RValue{}, nil
-- 
2.43.0


From 80a16f72442a1f930361e0f64656aa5a0d1bc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:58 +0000
Subject: [PATCH 07/52] fix: a later date, time or date-time compared equal to
 an earlier one

---
 relationaleval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index c3eef27..b94fd68 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -95,7 +95,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalTime:
 		if date, ok := v2.(LocalTime); ok {
@@ -107,7 +107,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalDateTime:
 		if date, ok := v2.(LocalDateTime); ok {
@@ -119,7 +119,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	}
 	return 0, ErrInvalidComparison
-- 
2.43.0


From f3d3d01a677558daba223ddcdf3994f82f2837f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:59 +0000
Subject: [PATCH 08/52] fix: comparing integers by subtraction overflowed

---
 relationaleval.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/relationaleval.go b/relationaleval.go
index b94fd68..5f7f0be 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -27,7 +27,13 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	case int:
 		switch value2 := v2.(type) {
 		case int:
-			return value1 - value2, nil
+			if value1 == value2 {
+				return 0, nil
+			}
+			if value1 < value2 {
+				return -1, nil
+			}
+			return 1, nil
 		case float64:
 			if float64(value1) == value2 {
 				return 0, nil
-- 
2.43.0


From ff357f8d1d120f215fa6f2be7885512af4669fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:01 +0000
Subject: [PATCH 09/52] fix: two durations could each compare less than the
 other

---
 relationaleval.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 5f7f0be..2f3fa63 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -77,16 +77,18 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if value1.Days == dur.Days && value1.Months == dur.Months && value1.Seconds == dur.Seconds && value1.Nanos == dur.Nanos {
 				return 0, nil
 			}
-			if value1.Days < dur.Days {
-				return -1, nil
-			}
-			if value1.Months < dur.Months {
-				return -1, nil
-			}
-			if value1.Seconds < dur.Seconds {
-				return -1, nil
+			var less bool
+			switch {
+			case value1.Months != dur.Months:
+				less = value1.Months < dur.Months
+			case value1.Days != dur.Days:
+				less = value1.Days < dur.Days
+			case value1.Seconds != dur.Seconds:
+				less = value1.Seconds < dur.Seconds
+			default:
+				less = value1.Nanos < dur.Nanos
 			}
-			if value1.Nanos < dur.Nanos {
+			if less {
 				return -1, nil
 			}
 			return 1, nil
-- 
2.43.0


From c6833eaa42fd02f0c50bc9760f7d5ae0f3a15c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 10/52] fix: a chained comparison only compared its first and
 last operand

---
 relationaleval.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 2f3fa63..58d6979 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -140,39 +140,48 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, err
 	}
 
-	if val.Get() == nil {
-		return RValue{}, nil
-	}
-	ret := RValue{Value: val.Get(), Const: val.IsConst()}
+	hasNull := false
+	constant := val.IsConst()
+	// Chained comparisons compare adjacent operands
 	for i := range expr.second {
 		second, err := expr.second[i].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if second.Get() == nil {
-			return RValue{}, nil
+		constant = constant && second.IsConst()
+		if val.Get() == nil || second.Get() == nil {
+			hasNull = true
+			val = second
+			continue
 		}
 		result, err := comparePrimitiveValues(val.Get(), second.Get())
 		if err != nil {
 			return nil, err
 		}
+		var holds bool
 		switch expr.second[i].op {
 		case "=":
-			ret.Value = result == 0
+			holds = result == 0
 		case "<>":
-			ret.Value = result != 0
+			holds = result != 0
 		case "<":
-			ret.Value = result < 0
+			holds = result < 0
 		case "<=":
-			ret.Value = result <= 0
+			holds = result <= 0
 		case ">":
-			ret.Value = result > 0
+			holds = result > 0
 		case ">=":
-			ret.Value = result >= 0
+			holds = result >= 0
 		}
-		ret.Const = ret.Const && second.IsConst()
+		if !holds {
+			return RValue{Value: false, Const: constant}, nil
+		}
+		val = second
 	}
-	return ret, nil
+	if hasNull {
+		return RValue{}, nil
+	}
+	return RValue{Value: true, Const: constant}, nil
 }
 
 func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
-- 
2.43.0


From 779433a2d948c345eb506d31e60fe1cc4f10ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:03 +0000
Subject: [PATCH 11/52] fix: >= was ignored and yielded its left operand

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 0da0b8a..5b8ba85 100644
--- a/ast.go
+++ b/ast.go
@@ -838,7 +838,7 @@ func oC_PartialComparisonExpression(ctx *parser.OC_PartialComparisonExpressionCo
 	for i := 0; i < ctx.GetChildCount(); i++ {
 		if tok, ok := ctx.GetChild(i).(antlr.TerminalNode); ok {
 			t := tok.GetText()
-			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == "=>" {
+			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == ">=" {
 				ret.op = t
 			}
 		}
-- 
2.43.0


From c6e4df89dff5166b39a8d8f3dcd2f5b2e5f0946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:04 +0000
Subject: [PATCH 12/52] fix: a null operand hid a false operand of AND and a
 true operand of OR

---
 relationaleval.go | 68 +++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 38 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 58d6979..bc3f016 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -200,34 +200,30 @@ func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr andExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	hasNull := false
+	constant := true
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		constant = constant && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			hasNull = true
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval && vval
-			if !bval || !vval {
-				break
-			}
+		bval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		if !bval {
+			return RValue{Value: false, Const: constant}, nil
 		}
 	}
-	return ret, nil
+	if hasNull {
+		return RValue{}, nil
+	}
+	return RValue{Value: true, Const: constant}, nil
 }
 
 func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
@@ -259,32 +255,28 @@ func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr orExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	hasNull := false
+	constant := true
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		constant = constant && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			hasNull = true
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval || vval
-			if bval || vval {
-				break
-			}
+		bval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		if bval {
+			return RValue{Value: true, Const: constant}, nil
 		}
 	}
-	return ret, nil
+	if hasNull {
+		return RValue{}, nil
+	}
+	return RValue{Value: false, Const: constant}, nil
 }
-- 
2.43.0


From f581e48abb6ac3daddc5696fa444ce93fa609b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:28 +0000
Subject: [PATCH 13/52] fix: equal primitive values and nulls were never
 considered the same value

---
 value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index bbafe07..d1225b4 100644
--- a/value.go
+++ b/value.go
@@ -148,10 +148,13 @@ func ValueOf(in interface{}) Value {
 
 // IsValueSame compares two values and decides if the two are the same
 func IsValueSame(v, v2 Value) bool {
+	if v.Get() == nil {
+		return v2.Get() == nil
+	}
 	if IsValuePrimitive(v) {
 		if IsValuePrimitive(v2) {
 			eq, err := comparePrimitiveValues(v.Get(), v2.Get())
-			return err != nil && eq == 0
+			return err == nil && eq == 0
 		}
 		return false
 	}
-- 
2.43.0


From a163f8a639d1dc316c764692fbde01cd2ee89b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:29 +0000
Subject: [PATCH 14/52] fix: a path was never the same as itself

---
 value.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/value.go b/value.go
index d1225b4..8cd6c1b 100644
--- a/value.go
+++ b/value.go
@@ -217,15 +217,20 @@ func IsValueSame(v, v2 Value) bool {
 		return val1 == val2
 
 	case *lpg.Path:
-		val2, ok := v2.Get().([]*lpg.Path)
+		val2, ok := v2.Get().(*lpg.Path)
 		if !ok {
 			return false
 		}
-		if val1.NumEdges() != val1.NumEdges() {
+		if val1.NumEdges() != val2.NumEdges() || val1.NumNodes() != val2.NumNodes() {
 			return false
 		}
 		for i := 0; i < val1.NumEdges(); i++ {
-			if val1.Slice(i, -1) != val2[i] {
+			if val1.GetEdge(i) != val2.GetEdge(i) {
+				return false
+			}
+		}
+		for i := 0; i < val1.NumNodes(); i++ {
+			if val1.GetNode(i) != val2.GetNode(i) {
 				return false
 			}
 		}
-- 
2.43.0


From f37465869015ffb20d53307082ae3fee8030bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:06 +0000
Subject: [PATCH 15/52] fix: looking for an equal row stopped at the first row
 of another size and crashed on different columns

---
 resultset.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index caebf61..a97b15f 100644
--- a/resultset.go
+++ b/resultset.go
@@ -59,11 +59,12 @@ func isCompatibleRow(row1, row2 map[string]Value) error {
 func (r *ResultSet) find(row map[string]Value) int {
 	for index, r := range r.Rows {
 		if len(r) != len(row) {
-			break
+			continue
 		}
 		found := true
 		for i := range r {
-			if !IsValueSame(r[i], row[i]) {
+			cell, ok := row[i]
+			if !ok || !IsValueSame(r[i], cell) {
 				found = false
 				break
 			}
-- 
2.43.0


From a4bf33eca1caa9429334610a6a5d4ece2b086f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 16/52] fix: UNION kept duplicate rows of its first branch

---
 resultset.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resultset.go b/resultset.go
index a97b15f..a575405 100644
--- a/resultset.go
+++ b/resultset.go
@@ -128,6 +128,16 @@ func (r *ResultSet) Add(rs ResultSet) {
 
 // Union adds the src resultset to this. If all is set, it adds all rows, otherwise, it adds unique rows
 func (r *ResultSet) Union(src ResultSet, all bool) error {
+	if !all {
+		// Rows of this resultset must be unique as well
+		rows := r.Rows
+		r.Rows = make([]map[string]Value, 0, len(rows))
+		for _, row := range rows {
+			if r.find(row) == -1 {
+				r.Rows = append(r.Rows, row)
+			}
+		}
+	}
 	for _, sourceRow := range src.Rows {
 		appnd := all
 		if !appnd && r.find(sourceRow) == -1 {
-- 
2.43.0


From 74f26f7e6c9c06c26aed9e708da6c148e5bac3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:09 +0000
Subject: [PATCH 17/52] fix: a cartesian product without columns or result sets
 never ended

---
 resultset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index a575405..b13e49f 100644
--- a/resultset.go
+++ b/resultset.go
@@ -184,7 +184,7 @@ func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
 		if !f(data) {
 			return false
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(r.Rows) {
@@ -224,7 +224,7 @@ func CartesianProduct(resultsets []ResultSet, all bool, filter func(map[string]V
 		if filter(data) {
 			result.Rows = append(result.Rows, data)
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(resultsets[i].Rows) {
-- 
2.43.0


From 35e96a7448c1d14e4d0db6c12a690ca8b3c7e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:10 +0000
Subject: [PATCH 18/52] fix: SET ran on combinations of cells of different rows
 instead of once per row

---
 update.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/update.go b/update.go
index 52b5824..768335e 100644
--- a/update.go
+++ b/update.go
@@ -7,20 +7,14 @@ import (
 )
 
 func (s *set) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	// Work on the cartesian product of result columns
-	var err error
-	subctx := ctx.SubContext()
-	result.CartesianProduct(func(data map[string]Value) bool {
-		subctx.SetVars(data)
+	for _, row := range result.Rows {
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
 		for i := range s.items {
-			if err = s.items[i].update(subctx, data, result); err != nil {
-				return false
+			if err := s.items[i].update(subctx, row, result); err != nil {
+				return nil, err
 			}
 		}
-		return true
-	})
-	if err != nil {
-		return nil, err
 	}
 	return RValue{Value: result}, nil
 }
-- 
2.43.0


From 1106f021ae9de6625cd73b1f46cfabde34dae119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:12 +0000
Subject: [PATCH 19/52] fix: CREATE after MATCH reused the nodes created for
 the previous row

---
 update.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/update.go b/update.go
index 768335e..3d6c0e9 100644
--- a/update.go
+++ b/update.go
@@ -208,13 +208,23 @@ func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	results := *NewResultSet()
 	for _, row := range result.Rows {
-		ctx.SetVars(row)
-		if _, err := c.TopLevelUpdate(ctx); err != nil {
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
+		if _, err := c.TopLevelUpdate(subctx); err != nil {
 			return nil, err
 		}
+		newRow := make(map[string]Value)
+		for k, v := range row {
+			newRow[k] = v
+		}
+		for k, v := range subctx.GetVarsNearestScope() {
+			newRow[k] = v
+		}
+		results.Append(newRow)
 	}
-	return RValue{Value: result}, nil
+	return RValue{Value: results}, nil
 }
 
 func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
-- 
2.43.0


From 8305575b2c6a7d1fec2dcb0ae41ba533ada92ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:13 +0000
Subject: [PATCH 20/52] fix: DELETE of an entity matched by several rows
 removed it twice, corrupting the graph

---
 update.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/update.go b/update.go
index 3d6c0e9..413e1b6 100644
--- a/update.go
+++ b/update.go
@@ -125,6 +125,15 @@ func (deleteClause) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	// Entities already removed by this clause
+	removedNodes := make(map[*lpg.Node]struct{})
+	removedEdges := make(map[*lpg.Edge]struct{})
+	removeEdge := func(edge *lpg.Edge) {
+		if _, removed := removedEdges[edge]; !removed {
+			removedEdges[edge] = struct{}{}
+			edge.Remove()
+		}
+	}
 	subctx := ctx.SubContext()
 	for _, row := range result.Rows {
 		subctx.SetVars(row)
@@ -138,17 +147,24 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
+				if _, removed := removedNodes[item]; removed {
+					continue
+				}
 				if item.GetEdges(lpg.OutgoingEdge).Next() || item.GetEdges(lpg.IncomingEdge).Next() {
 					// Must have detach
 					if !d.detach {
 						return nil, fmt.Errorf("Cannot delete attached node")
 					}
 				}
+				for edges := item.GetEdges(lpg.AnyEdge); edges.Next(); {
+					removedEdges[edges.Edge()] = struct{}{}
+				}
+				removedNodes[item] = struct{}{}
 				item.DetachAndRemove()
 
 			case *lpg.Path:
 				for i := 0; i < item.NumEdges(); i++ {
-					item.GetEdge(i).Remove()
+					removeEdge(item.GetEdge(i))
 				}
 			}
 		}
-- 
2.43.0


From 7fa9f90714d9159decc96a4eb88648e9aa4f8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:15 +0000
Subject: [PATCH 21/52] fix: DELETE silently ignored values it cannot delete,
 relationships included

---
 update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/update.go b/update.go
index 413e1b6..a3b8c48 100644
--- a/update.go
+++ b/update.go
@@ -166,6 +166,12 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 				for i := 0; i < item.NumEdges(); i++ {
 					removeEdge(item.GetEdge(i))
 				}
+
+			case *lpg.Edge:
+				removeEdge(item)
+
+			default:
+				return nil, fmt.Errorf("Cannot delete %T", item)
 			}
 		}
 	}
-- 
2.43.0


From 99a47a9e78824af94f97a5ce1eeb2482b75116d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:56 +0000
Subject: [PATCH 22/52] fix: toIntegerOrNull failed like toInteger instead of
 returning null

---
 scalarfuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalarfuncs.go b/scalarfuncs.go
index 85e7239..f902077 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -16,7 +16,7 @@ func init() {
 		Name:      "toIntegerOrNull",
 		MinArgs:   1,
 		MaxArgs:   1,
-		ValueFunc: toIntegerFunc,
+		ValueFunc: toIntegerOrNullFunc,
 	}
 	globalFuncs["toFloatOrNull"] = Function{
 		Name:      "toFloatOrNull",
-- 
2.43.0


From 05f2596ba4cb0cbd46cb148dcf1f82b0b9f1287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:57 +0000
Subject: [PATCH 23/52] fix: substring with a huge length overflowed and
 panicked

---
 stringfuncs.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/stringfuncs.go b/stringfuncs.go
index 6c7a905..b6b920f 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -178,15 +178,11 @@ func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: ""}, nil
 	}
 	var end int
-	if max == -1 {
+	if max == -1 || max > len(s)-start {
 		end = len(s)
 	} else {
 		end = start + max
 	}
-
-	if end > len(s) {
-		end = len(s)
-	}
 	return RValue{Value: s[start:end]}, nil
 }
 
-- 
2.43.0


From 5894ccc9f998d86eb25f167f6e776ef4d31c6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:59 +0000
Subject: [PATCH 24/52] fix: right() dropped the first characters instead of
 keeping the last

---
 stringfuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stringfuncs.go b/stringfuncs.go
index b6b920f..e1192b2 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -128,7 +128,7 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if i < 0 || i > len(s) {
 		return RValue{Value: ""}, nil
 	}
-	return RValue{Value: s[i:]}, nil
+	return RValue{Value: s[len(s)-i:]}, nil
 }
 
 func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From 8d59d75ece58a81a860f01b096cae453906089f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:00 +0000
Subject: [PATCH 25/52] fix: labels() returned a Go slice no operator accepts
 instead of a list

---
 functions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index c903aca..386b666 100644
--- a/functions.go
+++ b/functions.go
@@ -103,7 +103,11 @@ func labelsFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if !ok {
 		return nil, fmt.Errorf("Not a node")
 	}
-	return RValue{Value: node.GetLabels().Slice()}, nil
+	labels := make([]Value, 0)
+	for _, label := range node.GetLabels().Slice() {
+		labels = append(labels, RValue{Value: label})
+	}
+	return RValue{Value: labels}, nil
 }
 
 func timestampFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From 812c3656fb0cb2220a2cb6fe8aa9f71da0839d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 26/52] fix: type(null) failed instead of returning null

---
 functions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/functions.go b/functions.go
index 386b666..ffd2b54 100644
--- a/functions.go
+++ b/functions.go
@@ -115,6 +115,9 @@ func timestampFunc(ctx *EvalContext, args []Value) (Value, error) {
 }
 
 func typeFunc(ctx *EvalContext, args []Value) (Value, error) {
+	if args[0].Get() == nil {
+		return RValue{}, nil
+	}
 	edge, ok := args[0].Get().(*lpg.Edge)
 	if ok {
 		return RValue{Value: edge.GetLabel()}, nil
-- 
2.43.0


From e9c7de14cc3e32c3b96445f075cc036eb9e84de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:02 +0000
Subject: [PATCH 27/52] fix: labels, types and property keys spelled like a
 keyword were changed to upper case

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 5b8ba85..30043ca 100644
--- a/ast.go
+++ b/ast.go
@@ -872,7 +872,7 @@ func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 }
 
 func oC_ReservedWord(ctx *parser.OC_ReservedWordContext) reservedWord {
-	return reservedWord(strings.ToUpper(ctx.GetText()))
+	return reservedWord(ctx.GetText())
 }
 
 func oC_NodeLabels(ctx *parser.OC_NodeLabelsContext) NodeLabels {
-- 
2.43.0


From fd1c9cb002292fb3f7a8006357e745d5a056975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:03 +0000
Subject: [PATCH 28/52] fix: <--> only matched relationships pointing left

---
 patterneval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 356f4d9..2c254d4 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -221,7 +221,7 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 	} else {
 		ret.Min, ret.Max = 1, 1
 	}
-	if !rp.toRight && !rp.toLeft {
+	if rp.toRight == rp.toLeft {
 		ret.Undirected = true
 	} else if rp.toLeft {
 		ret.ToLeft = rp.toLeft
-- 
2.43.0


From 5f0efb38d72030828e36c9d7e735e415606cc258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:05 +0000
Subject: [PATCH 29/52] fix: SET on an unknown variable hid the reason of its
 failure

---
 update.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/update.go b/update.go
index a3b8c48..049ee8c 100644
--- a/update.go
+++ b/update.go
@@ -46,6 +46,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 	}
 
 	value, err := s.variable.Evaluate(ctx)
+	if err != nil {
+		return err
+	}
 	lvalue, ok := value.(LValue)
 	if !ok {
 		return ErrNotAnLValue
-- 
2.43.0


From 81303e89dd6a7d5d357fadcd73eec555db890551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:06 +0000
Subject: [PATCH 30/52] fix: a variable with an empty (quoted) name crashed the
 query

---
 ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx.go b/ctx.go
index fcca709..98bcfb5 100644
--- a/ctx.go
+++ b/ctx.go
@@ -132,12 +132,12 @@ func (ctx *EvalContext) RemoveVar(name string) {
 
 func (ctx *EvalContext) SetVars(m map[string]Value) {
 	for k, v := range m {
-		if !unicode.IsDigit(rune(k[0])) {
+		if IsNamedVar(k) {
 			ctx.SetVar(k, v)
 		}
 	}
 }
 
 func IsNamedVar(name string) bool {
-	return !unicode.IsDigit(rune(name[0]))
+	return len(name) > 0 && !unicode.IsDigit(rune(name[0]))
 }
-- 
2.43.0


From 0cf823ca63bb66ca85212eba69a8eff4d0d895af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:24 +0000
Subject: [PATCH 31/52] fix: escape sequences in string literals were not
 decoded

---
 ast.go     |  2 +-
 literal.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 30043ca..e91c602 100644
--- a/ast.go
+++ b/ast.go
@@ -1277,7 +1277,7 @@ func oC_Literal(ctx *parser.OC_LiteralContext) Evaluatable {
 	}
 	if s := ctx.StringLiteral(); s != nil {
 		text := s.GetText()
-		return stringLiteral(text[1 : len(text)-1])
+		return stringLiteral(unescapeStringLiteral(text[1 : len(text)-1]))
 	}
 	if b := ctx.OC_BooleanLiteral(); b != nil {
 		return oC_BooleanLiteral(b.(*parser.OC_BooleanLiteralContext))
diff --git a/literal.go b/literal.go
index 8d03a98..4c133b7 100644
--- a/literal.go
+++ b/literal.go
@@ -1,6 +1,7 @@
 package opencypher
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -113,6 +114,50 @@ func (r *rangeLiteral) Evaluate(ctx *EvalContext) (from, to *int, err error) {
 	return
 }
 
+// unescapeStringLiteral replaces the escape sequences of a string
+// literal with the characters they denote
+func unescapeStringLiteral(s string) string {
+	bld := strings.Builder{}
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' || i+1 >= len(s) {
+			bld.WriteByte(s[i])
+			continue
+		}
+		i++
+		switch s[i] {
+		case 'b', 'B':
+			bld.WriteByte('\b')
+		case 'f', 'F':
+			bld.WriteByte('\f')
+		case 'n', 'N':
+			bld.WriteByte('\n')
+		case 'r', 'R':
+			bld.WriteByte('\r')
+		case 't', 'T':
+			bld.WriteByte('\t')
+		case 'u', 'U':
+			// uXXXX, or UXXXXXXXX
+			nDigits := 4
+			if s[i] == 'U' && i+8 < len(s) {
+				if _, err := strconv.ParseUint(s[i+1:i+9], 16, 32); err == nil {
+					nDigits = 8
+				}
+			}
+			if i+nDigits < len(s) {
+				if code, err := strconv.ParseUint(s[i+1:i+1+nDigits], 16, 32); err == nil {
+					bld.WriteRune(rune(code))
+					i += nDigits
+					continue
+				}
+			}
+			bld.WriteByte(s[i])
+		default:
+			bld.WriteByte(s[i])
+		}
+	}
+	return bld.String()
+}
+
 // EscapeLabelLiteral escape a literal that can be used as a label. It
 // returns `s`
 func EscapeLabelLiteral(s string) string {
-- 
2.43.0


From 3b5fb478afe9b9792705e114986aa8b57f3c5f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:26 +0000
Subject: [PATCH 32/52] fix: a backtick in a quoted name was not escaped,
 letting it end the name

---
 ast.go     | 2 +-
 literal.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast.go b/ast.go
index e91c602..9a6f866 100644
--- a/ast.go
+++ b/ast.go
@@ -866,7 +866,7 @@ func oC_SchemaName(ctx *parser.OC_SchemaNameContext) schemaName {
 func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 	if node := ctx.EscapedSymbolicName(); node != nil {
 		text := node.GetText()
-		return symbolicName(text[1 : len(text)-1])
+		return symbolicName(strings.ReplaceAll(text[1:len(text)-1], "``", "`"))
 	}
 	return symbolicName(ctx.GetText())
 }
diff --git a/literal.go b/literal.go
index 4c133b7..d88ecf4 100644
--- a/literal.go
+++ b/literal.go
@@ -161,13 +161,13 @@ func unescapeStringLiteral(s string) string {
 // EscapeLabelLiteral escape a literal that can be used as a label. It
 // returns `s`
 func EscapeLabelLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapePropertyKeyLiteral escapes a literal that can be used as a
 // property key. Returns `s`
 func EscapePropertyKeyLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapeStringLiteral returns "s" where backslashes and quotes in s
-- 
2.43.0


From f77ecb0e6962169a14fad8cfaadd4cbcc1ed5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:27 +0000
Subject: [PATCH 33/52] fix: the rows of several MATCH clauses were listed one
 after the other instead of joined

---
 eval.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index f386c57..13d2d9e 100644
--- a/eval.go
+++ b/eval.go
@@ -459,12 +459,29 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 	results := *NewResultSet()
 	if len(query.read) > 0 {
+		results.Rows = []map[string]Value{{}}
 		for _, r := range query.read {
-			rs, err := r.GetResults(ctx)
-			if err != nil {
-				return nil, err
+			// Evaluate the clause for every row of the preceding clauses
+			next := *NewResultSet()
+			for _, row := range results.Rows {
+				subctx := ctx.SubContext()
+				subctx.SetVars(row)
+				rs, err := r.GetResults(subctx)
+				if err != nil {
+					return nil, err
+				}
+				for _, rsRow := range rs.Rows {
+					newRow := make(map[string]Value)
+					for k, v := range row {
+						newRow[k] = v
+					}
+					for k, v := range rsRow {
+						newRow[k] = v
+					}
+					next.Append(newRow)
+				}
 			}
-			results.Add(rs)
+			results = next
 		}
 
 		for _, upd := range query.update {
-- 
2.43.0


From d6106f94f873bab98b3ba951369652d7820da19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 34/52] fix: SKIP and LIMIT were ignored in queries that do not
 read

---
 eval.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/eval.go b/eval.go
index 13d2d9e..586389d 100644
--- a/eval.go
+++ b/eval.go
@@ -514,20 +514,11 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return RValue{Value: *NewResultSet()}, nil
 	}
 
-	if len(results.Rows) > 0 {
-		for _, row := range results.Rows {
-			val, err := query.ret.projection.items.Project(ctx, row)
-			if err != nil {
-				return nil, err
-			}
-			ret.Rows = append(ret.Rows, val)
-		}
-	} else {
-		val, err := query.ret.projection.items.Project(ctx, nil)
-		if err != nil {
-			return nil, err
-		}
-		ret.Rows = append(ret.Rows, val)
+	if len(results.Rows) == 0 {
+		results.Rows = []map[string]Value{nil}
+	}
+	if err := project(results.Rows); err != nil {
+		return nil, err
 	}
 	return RValue{Value: ret}, nil
 }
-- 
2.43.0


From 0ef167502ac50bfde0c591d0aab8c01f6e6d0796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:31 +0000
Subject: [PATCH 35/52] fix: LIMIT -1 was taken for no limit

---
 eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eval.go b/eval.go
index 586389d..ece574a 100644
--- a/eval.go
+++ b/eval.go
@@ -432,12 +432,18 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 			if err != nil {
 				return nil, err
 			}
+			if skip < 0 {
+				return nil, ErrIntValueRequired
+			}
 		}
 		if query.ret.projection.limit != nil {
 			limit, err = ValueAsInt(query.ret.projection.limit.Evaluate(ctx))
 			if err != nil {
 				return nil, err
 			}
+			if limit < 0 {
+				return nil, ErrIntValueRequired
+			}
 		}
 	}
 
-- 
2.43.0


From cbd50129731c2e873b3fdcbcadb08999e852bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:32 +0000
Subject: [PATCH 36/52] fix: evaluating an unsupported construct panicked
 instead of failing

---
 eval.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/eval.go b/eval.go
index ece574a..32cde32 100644
--- a/eval.go
+++ b/eval.go
@@ -58,6 +58,11 @@ func (expr Parameter) Evaluate(ctx *EvalContext) (Value, error) {
 	return ctx.GetParameter(string(expr))
 }
 
+// ErrUnsupported is returned for constructs that cannot be evaluated
+type ErrUnsupported string
+
+func (e ErrUnsupported) Error() string { return "Unsupported: " + string(e) }
+
 type ErrInvalidAssignment string
 
 func (e ErrInvalidAssignment) Error() string { return "Invalid assignment to: " + string(e) }
@@ -608,12 +613,24 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	return val, nil
 }
 
-func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error)      { panic("Unimplemented") }
-func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error)     { panic("Unimplemented") }
-func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error)   { panic("Unimplemented") }
-func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error)           { panic("Unimplemented") }
-func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) { panic("Unimplemented") }
-func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error)            { panic("Unimplemented") }
+func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error) {
+	return ResultSet{}, ErrUnsupported("UNWIND")
+}
+func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("list comprehension")
+}
+func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("pattern comprehension")
+}
+func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported(flt.op + "()")
+}
+func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("relationship pattern in an expression")
+}
+func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("count(*)")
+}
 func (mq multiPartQuery) Evaluate(ctx *EvalContext) (Value, error) {
-	panic("multipart query unimplemented")
+	return nil, ErrUnsupported("WITH")
 }
-- 
2.43.0


From ae69cf9870c08ee1e547487448ec961cb1383a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:16 +0000
Subject: [PATCH 37/52] fix: parsing a number out of range or an unsupported
 CALL panicked

---
 ast.go  | 12 ++++++------
 lang.go | 27 +++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/ast.go b/ast.go
index 9a6f866..43fb6a1 100644
--- a/ast.go
+++ b/ast.go
@@ -1010,7 +1010,7 @@ func oC_Parameter(ctx *parser.OC_ParameterContext) Parameter {
 func decimalInteger(ctx antlr.TerminalNode) intLiteral {
 	i, err := strconv.Atoi(ctx.GetText())
 	if err != nil {
-		panic(err)
+		panic(buildError{err})
 	}
 	return intLiteral(i)
 }
@@ -1053,7 +1053,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(string(t[2:]), 16, 64)
 		if err != nil {
-			panic(err)
+			panic(buildError{err})
 		}
 		return intLiteral(val)
 	}
@@ -1061,7 +1061,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(t, 8, 64)
 		if err != nil {
-			panic(err)
+			panic(buildError{err})
 		}
 		return intLiteral(val)
 	}
@@ -1298,7 +1298,7 @@ func oC_NumberLiteral(ctx *parser.OC_NumberLiteralContext) Evaluatable {
 func oC_DoubleLiteral(ctx *parser.OC_DoubleLiteralContext) doubleLiteral {
 	v, err := strconv.ParseFloat(ctx.GetText(), 64)
 	if err != nil {
-		panic(err)
+		panic(buildError{err})
 	}
 	return doubleLiteral(v)
 }
@@ -1422,9 +1422,9 @@ func oC_Merge(ctx *parser.OC_MergeContext) UpdatingClause {
 }
 
 func oC_InQueryCall(ctx *parser.OC_InQueryCallContext) ReadingClause {
-	panic("Unsupported: inQueryCall")
+	panic(buildError{ErrUnsupported("CALL")})
 }
 
 func oC_StandaloneCall(ctx *parser.OC_StandaloneCallContext) Evaluatable {
-	panic("Unsupported: standaloneCall")
+	panic(buildError{ErrUnsupported("CALL")})
 }
diff --git a/lang.go b/lang.go
index e4a400b..415c3c6 100644
--- a/lang.go
+++ b/lang.go
@@ -36,8 +36,26 @@ func GetParser(input string) *parser.CypherParser {
 	return p
 }
 
+// buildError is the panic value the tree builders raise for input that
+// is syntactically correct but cannot be represented
+type buildError struct {
+	err error
+}
+
+// recoverBuildError stores the error raised by a tree builder in err
+func recoverBuildError(err *error) {
+	if r := recover(); r != nil {
+		b, ok := r.(buildError)
+		if !ok {
+			panic(r)
+		}
+		*err = b.err
+	}
+}
+
 // GetEvaluatable returns an evaluatable object
-func Parse(input string) (Evaluatable, error) {
+func Parse(input string) (out Evaluatable, err error) {
+	defer recoverBuildError(&err)
 	pr := GetParser(input)
 	errListener := errorListener{}
 	pr.AddErrorListener(&errListener)
@@ -45,7 +63,7 @@ func Parse(input string) (Evaluatable, error) {
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
 	}
-	out := oC_Cypher(c.(*parser.OC_CypherContext))
+	out = oC_Cypher(c.(*parser.OC_CypherContext))
 	return out, nil
 }
 
@@ -71,7 +89,8 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 //
 // will start from the current node, go back one nore following an
 // edge with label `a`, and then move to a node with label `x`
-func ParsePatternExpr(expr string) (PatternPart, error) {
+func ParsePatternExpr(expr string) (out PatternPart, err error) {
+	defer recoverBuildError(&err)
 	pr := GetParser(expr)
 	errListener := errorListener{}
 	pr.AddErrorListener(&errListener)
@@ -79,7 +98,7 @@ func ParsePatternExpr(expr string) (PatternPart, error) {
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
 	}
-	out := oC_PatternPart(c.(*parser.OC_PatternPartContext))
+	out = oC_PatternPart(c.(*parser.OC_PatternPartContext))
 	return out, nil
 }
 
-- 
2.43.0


From a4f0df31b1e668939a1370229e84f87a765fff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:17 +0000
Subject: [PATCH 38/52] fix: CREATE and SET n = map stored null properties

---
 update.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/update.go b/update.go
index 049ee8c..39264d5 100644
--- a/update.go
+++ b/update.go
@@ -88,6 +88,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				v.RemoveProperty(p)
 			}
 			for key, val := range sourceProps {
+				if val == nil {
+					continue
+				}
 				v.SetProperty(key, ctx.PropertyValueFromNative(key, val))
 			}
 		default:
@@ -293,6 +296,10 @@ func (np nodePattern) createNode(ctx *EvalContext) (*lpg.Node, error) {
 		return nil, err
 	}
 	for k, v := range properties {
+		if v == nil {
+			delete(properties, k)
+			continue
+		}
 		properties[k] = ctx.PropertyValueFromNative(k, v)
 	}
 	node := ctx.graph.NewNode(labels.Slice(), properties)
@@ -354,6 +361,10 @@ func (rel relationshipPattern) Create(ctx *EvalContext, from, to *lpg.Node) (lpg
 		return lpg.PathElement{}, err
 	}
 	for k, v := range properties {
+		if v == nil {
+			delete(properties, k)
+			continue
+		}
 		properties[k] = ctx.PropertyValueFromNative(k, v)
 	}
 	path := &lpg.Path{}
-- 
2.43.0


From aa17823a72e424f94a0de25e17f4d28693c41d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:18 +0000
Subject: [PATCH 39/52] fix: reading a property whose Go type is not a query
 value panicked

---
 eval.go  | 18 +++++++++++++---
 value.go | 62 ++++++++++++++++++++++++++++++++------------------------
 2 files changed, 51 insertions(+), 29 deletions(-)

diff --git a/eval.go b/eval.go
index 32cde32..814a8a4 100644
--- a/eval.go
+++ b/eval.go
@@ -50,6 +50,15 @@ func (e ErrValueDoesNotHaveProperties) Error() string {
 	return fmt.Sprintf("Value does not have properties: %v property: %s", e.Value, e.Property)
 }
 
+type ErrInvalidPropertyValue struct {
+	Value    interface{}
+	Property string
+}
+
+func (e ErrInvalidPropertyValue) Error() string {
+	return fmt.Sprintf("Property value of type %T cannot be used in an expression: %s", e.Value, e.Property)
+}
+
 type ErrInvalidIndirection string
 
 func (e ErrInvalidIndirection) Error() string { return "Invalid indirection: " + string(e) }
@@ -284,10 +293,13 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 				return RValue{}, nil
 			}
 			if n, ok := prop.(withNativeValue); ok {
-				val = ValueOf(n.GetNativeValue()).(RValue)
-			} else {
-				val = ValueOf(prop).(RValue)
+				prop = n.GetNativeValue()
+			}
+			propValue, ok := valueOf(prop)
+			if !ok {
+				return nil, ErrInvalidPropertyValue{Value: prop, Property: property.String()}
 			}
+			val = RValue{Value: propValue.Get()}
 		} else {
 			return nil, ErrValueDoesNotHaveProperties{Value: val.Value, Property: property.String()}
 		}
diff --git a/value.go b/value.go
index 8cd6c1b..8d827c7 100644
--- a/value.go
+++ b/value.go
@@ -90,60 +90,70 @@ func ValueAsBool(v Value) (bool, bool) {
 }
 
 func ValueOf(in interface{}) Value {
+	v, ok := valueOf(in)
+	if !ok {
+		panic(fmt.Sprintf("Invalid value: %v %T", in, in))
+	}
+	return v
+}
+
+// valueOf returns the value for a native value, or false if there is
+// no value to represent it
+func valueOf(in interface{}) (Value, bool) {
 	if in == nil {
-		return RValue{}
+		return RValue{}, true
 	}
 	switch v := in.(type) {
 	case Value:
-		return v
+		return v, true
 	case int8:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case int16:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case int32:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case int64:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case int:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case uint8:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case uint16:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case uint32:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case string:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case bool:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case float64:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case float32:
-		return RValue{Value: float64(v)}
+		return RValue{Value: float64(v)}, true
 	case Duration:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case Date:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case LocalDateTime:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case LocalTime:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case *lpg.Node:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case []*lpg.Edge:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case []Value:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case map[string]Value:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case lpg.StringSet:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case lpg.PathElement:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case *lpg.Path:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	}
-	panic(fmt.Sprintf("Invalid value: %v %T", in, in))
+	return nil, false
 }
 
 // IsValueSame compares two values and decides if the two are the same
-- 
2.43.0


From 3c89cfe31fc054d9fa77f658bc6a71c00191e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 40/52] fix: reading a property of an empty relationship list
 panicked

---
 eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 814a8a4..83c37ab 100644
--- a/eval.go
+++ b/eval.go
@@ -282,7 +282,7 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 					ok = true
 				}
 			}
-			if edges, k := val.Value.([]*lpg.Edge); k {
+			if edges, k := val.Value.([]*lpg.Edge); k && len(edges) == 1 {
 				wp = edges[0]
 				ok = true
 			}
-- 
2.43.0


From e97869f9e9406f0804e6909240b3507f11be2cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:21 +0000
Subject: [PATCH 41/52] fix: reading a key of a map failed

---
 eval.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/eval.go b/eval.go
index 83c37ab..3c3742e 100644
--- a/eval.go
+++ b/eval.go
@@ -274,6 +274,14 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		if val.Value == nil {
 			return RValue{}, nil
 		}
+		if m, isMap := val.Value.(map[string]Value); isMap {
+			v, exists := m[property.String()]
+			if !exists {
+				return RValue{}, nil
+			}
+			val = RValue{Value: v.Get()}
+			continue
+		}
 		wp, ok := val.Value.(withProperty)
 		if !ok {
 			if path, ed := val.Value.(*lpg.Path); ed {
-- 
2.43.0


From 66bbdd44407a6f9e79e5a79c281eb4fac416a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:06 +0000
Subject: [PATCH 42/52] fix: a list slice lost its last element, and crashed or
 became an index when a bound was missing

---
 ast.go  | 27 ++++++++++++++++---------
 eval.go | 63 +++++++++++++++++++++++++++++++--------------------------
 2 files changed, 52 insertions(+), 38 deletions(-)

diff --git a/ast.go b/ast.go
index 43fb6a1..c18e0f1 100644
--- a/ast.go
+++ b/ast.go
@@ -781,17 +781,26 @@ func oC_ListOperatorExpression(ctx *parser.OC_ListOperatorExpressionContext) str
 			listIn: oC_PropertyOrLabelsExpression(x.(*parser.OC_PropertyOrLabelsExpressionContext)),
 		}
 	}
-	expr := ctx.AllOC_Expression()
-	if len(expr) == 1 {
-		return stringListNullOperatorExpressionPart{
-			listIndex: oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
+	rng := listRangeExpression{}
+	isRange := false
+	for child := 0; child < ctx.GetChildCount(); child++ {
+		switch t := ctx.GetChild(child).(type) {
+		case *parser.OC_ExpressionContext:
+			if isRange {
+				rng.second = oC_Expression(t)
+			} else {
+				rng.first = oC_Expression(t)
+			}
+		case antlr.TerminalNode:
+			if t.GetText() == ".." {
+				isRange = true
+			}
 		}
 	}
-	return stringListNullOperatorExpressionPart{
-		listRange: &listRangeExpression{
-			first:  oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
-			second: oC_Expression(expr[1].(*parser.OC_ExpressionContext)),
-		}}
+	if !isRange {
+		return stringListNullOperatorExpressionPart{listIndex: rng.first}
+	}
+	return stringListNullOperatorExpressionPart{listRange: &rng}
 }
 
 func oC_StringOperatorExpression(ctx *parser.OC_StringOperatorExpressionContext) stringListNullOperatorExpressionPart {
diff --git a/eval.go b/eval.go
index 3c3742e..8ca44ea 100644
--- a/eval.go
+++ b/eval.go
@@ -173,42 +173,47 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 				return nil, ErrNotAList
 			}
 		}
-		from, err := expr.listRange.first.Evaluate(ctx)
-		if err != nil {
-			return nil, err
-		}
-		if from.Get() == nil {
-			return RValue{}, nil
-		}
-		if !from.IsConst() {
-			constant = false
-		}
-		fromi, ok := from.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
+		fromi, toi := 0, len(listValue)
+		if expr.listRange.first != nil {
+			from, err := expr.listRange.first.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if from.Get() == nil {
+				return RValue{}, nil
+			}
+			if !from.IsConst() {
+				constant = false
+			}
+			fromi, ok = from.Get().(int)
+			if !ok {
+				return nil, ErrInvalidListIndex
+			}
 		}
-		to, err := expr.listRange.second.Evaluate(ctx)
-		if err != nil {
-			return nil, err
+		if expr.listRange.second != nil {
+			to, err := expr.listRange.second.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if to.Get() == nil {
+				return RValue{}, nil
+			}
+			if !to.IsConst() {
+				constant = false
+			}
+			toi, ok = to.Get().(int)
+			if !ok {
+				return nil, ErrInvalidListIndex
+			}
 		}
-		if to.Get() == nil {
+		if inputValue.Get() == nil {
 			return RValue{}, nil
 		}
-		if !to.IsConst() {
-			constant = false
-		}
-		toi, ok := to.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
-		}
 		if fromi < 0 || toi < 0 {
 			return nil, ErrInvalidListIndex
 		}
-		if fromi >= len(listValue) {
-			fromi = len(listValue) - 1
-		}
-		if toi >= len(listValue) {
-			toi = len(listValue) - 1
+		if toi > len(listValue) {
+			toi = len(listValue)
 		}
 		if fromi > toi {
 			fromi = toi
-- 
2.43.0


From c47ed737e058215da9a91a06bdacee6411276a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:08 +0000
Subject: [PATCH 43/52] fix: STARTS WITH, ENDS WITH and CONTAINS failed on null

---
 eval.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index 8ca44ea..d99f804 100644
--- a/eval.go
+++ b/eval.go
@@ -231,14 +231,17 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 }
 
 func (expr stringOperatorExpression) evaluate(ctx *EvalContext, inputValue Value) (Value, error) {
-	inputStrValue, ok := inputValue.Get().(string)
-	if !ok {
-		return nil, ErrInvalidStringOperation
-	}
 	exprValue, err := expr.expr.Evaluate(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if inputValue.Get() == nil || exprValue.Get() == nil {
+		return RValue{}, nil
+	}
+	inputStrValue, ok := inputValue.Get().(string)
+	if !ok {
+		return nil, ErrInvalidStringOperation
+	}
 	strValue, ok := exprValue.Get().(string)
 	if !ok {
 		return nil, ErrInvalidStringOperation
-- 
2.43.0


From 04fcbaef6056efd14345e6b5579d6f793d0fdf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:09 +0000
Subject: [PATCH 44/52] fix: CASE matched null with null and failed on a null
 condition

---
 eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eval.go b/eval.go
index d99f804..892e875 100644
--- a/eval.go
+++ b/eval.go
@@ -384,7 +384,13 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 		if err != nil {
 			return nil, err
 		}
+		if when.Get() == nil {
+			continue
+		}
 		if cs.test != nil {
+			if testValue.Get() == nil {
+				continue
+			}
 			result, err := comparePrimitiveValues(testValue.Get(), when.Get())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 868bd9ac53036fad609c9029c44e205b52ddc57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 45/52] fix: characters the lexer cannot read were skipped
 without an error

---
 lang.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lang.go b/lang.go
index 415c3c6..85fbafa 100644
--- a/lang.go
+++ b/lang.go
@@ -29,10 +29,20 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 
 // GetParser returns a parser that will parse the input string
 func GetParser(input string) *parser.CypherParser {
+	return getParser(input, nil)
+}
+
+// getParser returns a parser that will parse the input string, and
+// reports lexer and parser errors to the listener if it is not nil
+func getParser(input string, listener antlr.ErrorListener) *parser.CypherParser {
 	lexer := parser.NewCypherLexer(antlr.NewInputStream(input))
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewCypherParser(stream)
 	p.BuildParseTrees = true
+	if listener != nil {
+		lexer.AddErrorListener(listener)
+		p.AddErrorListener(listener)
+	}
 	return p
 }
 
@@ -56,9 +66,8 @@ func recoverBuildError(err *error) {
 // GetEvaluatable returns an evaluatable object
 func Parse(input string) (out Evaluatable, err error) {
 	defer recoverBuildError(&err)
-	pr := GetParser(input)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	pr := getParser(input, &errListener)
 	c := pr.OC_Cypher()
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
@@ -91,9 +100,8 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 // edge with label `a`, and then move to a node with label `x`
 func ParsePatternExpr(expr string) (out PatternPart, err error) {
 	defer recoverBuildError(&err)
-	pr := GetParser(expr)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	pr := getParser(expr, &errListener)
 	c := pr.OC_PatternPart()
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
-- 
2.43.0


From b5f9b89ab237975a099b704cebc8aa4970d9e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:54 +0000
Subject: [PATCH 46/52] fix: evaluating a parsed query modified it, so
 concurrent evaluations raced and functions registered later were not seen

---
 arithmeticeval.go | 31 -------------------------
 ast.go            | 16 -------------
 eval.go           | 59 ++++++++++++++++++-----------------------------
 literal.go        | 12 ----------
 4 files changed, 22 insertions(+), 96 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 6e07a0e..040e000 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -6,10 +6,6 @@ import (
 )
 
 func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
-	}
-
 	value, err := expr.expr.Evaluate(ctx)
 	if err != nil {
 		return nil, err
@@ -31,16 +27,10 @@ func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, err
 	} else {
 		return ret, ErrInvalidUnaryOperation
 	}
-	if ret.IsConst() {
-		expr.constValue = &ret
-	}
 	return ret, nil
 }
 
 func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
-	}
 	val, err := expr.parts[0].Evaluate(ctx)
 	if err != nil {
 		return nil, err
@@ -79,9 +69,6 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 		ret.Const = ret.Const && val.IsConst()
 	}
-	if ret.Const {
-		expr.constValue = &ret
-	}
 	return ret, nil
 }
 
@@ -194,17 +181,11 @@ func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
 }
 
 func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
-	}
 	if len(expr.parts) == 1 {
 		v, err := expr.parts[0].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if v.IsConst() {
-			expr.constValue = v
-		}
 		return v, err
 	}
 	// Multiple parts, cannot be an lvalue
@@ -264,9 +245,6 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			}
 		}
 	}
-	if ret.Const {
-		expr.constValue = &ret
-	}
 	return ret, nil
 }
 
@@ -377,17 +355,11 @@ func addlistlist(a, b []Value) RValue {
 }
 
 func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
-	}
 	if len(expr.add) == 1 && len(expr.sub) == 0 {
 		ret, err := expr.add[0].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if ret.IsConst() {
-			expr.constValue = ret
-		}
 		return ret, nil
 	}
 
@@ -504,8 +476,5 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			return RValue{}, err
 		}
 	}
-	if ret.Const {
-		expr.constValue = &ret
-	}
 	return ret, nil
 }
diff --git a/ast.go b/ast.go
index c18e0f1..4e7905d 100644
--- a/ast.go
+++ b/ast.go
@@ -124,14 +124,10 @@ type partialComparisonExpression struct {
 type addOrSubtractExpression struct {
 	add []Expression
 	sub []Expression
-
-	constValue Value
 }
 
 type multiplyDivideModuloExpression struct {
 	parts []multiplyDivideModuloExpressionPart
-
-	constValue Value
 }
 
 type multiplyDivideModuloExpressionPart struct {
@@ -142,15 +138,11 @@ type multiplyDivideModuloExpressionPart struct {
 
 type powerOfExpression struct {
 	parts []Evaluatable
-
-	constValue Value
 }
 
 type unaryAddOrSubtractExpression struct {
 	neg  bool
 	expr stringListNullOperatorExpression
-
-	constValue Value
 }
 
 type stringListNullOperatorExpression struct {
@@ -340,10 +332,6 @@ type functionInvocation struct {
 	name     []symbolicName
 	distinct bool
 	args     []Expression
-
-	function       *Function
-	constArgs      []Evaluatable
-	constArgValues []Value
 }
 
 type patternComprehension struct {
@@ -376,14 +364,10 @@ type rangeLiteral struct {
 
 type listLiteral struct {
 	values []Expression
-
-	constValue Value
 }
 
 type mapLiteral struct {
 	keyValues []mapKeyValue
-
-	constValue Value
 }
 
 type mapKeyValue struct {
diff --git a/eval.go b/eval.go
index 892e875..00ea0dc 100644
--- a/eval.go
+++ b/eval.go
@@ -324,50 +324,35 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (f *functionInvocation) Evaluate(ctx *EvalContext) (Value, error) {
-	if f.function == nil {
-		fname := make([]string, 0, len(f.name))
-		for _, x := range f.name {
-			fname = append(fname, string(x))
-		}
-		fn, err := ctx.GetFunction(fname)
-		if err != nil {
-			return nil, err
-		}
-		f.function = &fn
+	fname := make([]string, 0, len(f.name))
+	for _, x := range f.name {
+		fname = append(fname, string(x))
 	}
-	if len(f.args) < f.function.MinArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", f.function.Name, f.function.MinArgs)}
+	function, err := ctx.GetFunction(fname)
+	if err != nil {
+		return nil, err
 	}
-	if f.function.MaxArgs != -1 && len(f.args) > f.function.MaxArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", f.function.Name, f.function.MaxArgs)}
+	if len(f.args) < function.MinArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", function.Name, function.MinArgs)}
+	}
+	if function.MaxArgs != -1 && len(f.args) > function.MaxArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", function.Name, function.MaxArgs)}
 	}
 
-	args := f.constArgs
-	argValues := f.constArgValues
-	if args == nil {
-		constant := true
-		args = make([]Evaluatable, 0, len(f.args))
-		argValues = make([]Value, 0, len(f.args))
-		for a := range f.args {
-			v, err := f.args[a].Evaluate(ctx)
-			if err != nil {
-				return nil, err
-			}
-			if !v.IsConst() {
-				constant = false
-			}
-			argValues = append(argValues, v)
-			args = append(args, v)
-		}
-		if constant {
-			f.constArgs = args
-			f.constArgValues = argValues
+	args := make([]Evaluatable, 0, len(f.args))
+	argValues := make([]Value, 0, len(f.args))
+	for a := range f.args {
+		v, err := f.args[a].Evaluate(ctx)
+		if err != nil {
+			return nil, err
 		}
+		argValues = append(argValues, v)
+		args = append(args, v)
 	}
-	if f.function.ValueFunc != nil {
-		return f.function.ValueFunc(ctx, argValues)
+	if function.ValueFunc != nil {
+		return function.ValueFunc(ctx, argValues)
 	}
-	return f.function.Func(ctx, args)
+	return function.Func(ctx, args)
 }
 
 func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
diff --git a/literal.go b/literal.go
index d88ecf4..d4b6105 100644
--- a/literal.go
+++ b/literal.go
@@ -40,9 +40,6 @@ func (literal nullLiteral) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (lst *listLiteral) Evaluate(ctx *EvalContext) (Value, error) {
-	if lst.constValue != nil {
-		return lst.constValue, nil
-	}
 	ret := make([]Value, 0, len(lst.values))
 	var val RValue
 	for i := range lst.values {
@@ -58,16 +55,10 @@ func (lst *listLiteral) Evaluate(ctx *EvalContext) (Value, error) {
 		ret = append(ret, v)
 	}
 	val.Value = ret
-	if val.IsConst() {
-		lst.constValue = val
-	}
 	return val, nil
 }
 
 func (mp *mapLiteral) Evaluate(ctx *EvalContext) (Value, error) {
-	if mp.constValue != nil {
-		return mp.constValue, nil
-	}
 	var val RValue
 	ret := make(map[string]Value)
 	for i := range mp.keyValues {
@@ -87,9 +78,6 @@ func (mp *mapLiteral) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 	}
 	val.Value = ret
-	if val.IsConst() {
-		mp.constValue = val
-	}
 	return val, nil
 }
 
-- 
2.43.0


From dfbd07e55d937e8283caac003ed7aa500b38bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:42 +0000
Subject: [PATCH 47/52] fix: SKIP and LIMIT were always taken for 0: a nil
 error argument hid the value

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 8d827c7..24e435f 100644
--- a/value.go
+++ b/value.go
@@ -272,7 +272,7 @@ func (v RValue) String() string {
 // ValueAsInt returns the int value. If value is not int, returns
 // ErrIntValueRequired. If an err argument is given, that error is returned.
 func ValueAsInt(v Value, err ...error) (int, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return 0, err[0]
 	}
 	i, ok := v.Get().(int)
@@ -285,7 +285,7 @@ func ValueAsInt(v Value, err ...error) (int, error) {
 // ValueAsString returns the string value. If value is not string,
 // rReturns ErrStringValueRequired. If an err argument is given, that error is returned.
 func ValueAsString(v Value, err ...error) (string, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return "", err[0]
 	}
 	s, ok := v.Get().(string)
-- 
2.43.0


From 70aeccf18ad3bd05c87d2f1cdf8728c9618c66d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:52 +0000
Subject: [PATCH 48/52] fix: evaluate + and - in the written order

a - b + c was evaluated as (a + c) - b: additions first, subtractions afterwards.
The intermediate results differ from the written order, so floating point sums
(1.5e308 - 1.5e308 + 1.5e308), overflow and evaluation order of operands were wrong,
and 'list - x + list' style errors were reported for the wrong step.
---
 arithmeticeval.go | 19 +++++--------------
 ast.go            | 24 ++++++++++++++++--------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 040e000..ad2bed6 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -355,8 +355,8 @@ func addlistlist(a, b []Value) RValue {
 }
 
 func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if len(expr.add) == 1 && len(expr.sub) == 0 {
-		ret, err := expr.add[0].Evaluate(ctx)
+	if len(expr.parts) == 1 {
+		ret, err := expr.parts[0].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
@@ -458,21 +458,12 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return err
 	}
 
-	for i := range expr.add {
-		val, err := expr.add[i].Evaluate(ctx)
-		if err != nil {
-			return RValue{}, err
-		}
-		if err = accumulate(val, false); err != nil {
-			return RValue{}, err
-		}
-	}
-	for i := range expr.sub {
-		val, err := expr.sub[i].Evaluate(ctx)
+	for i := range expr.parts {
+		val, err := expr.parts[i].expr.Evaluate(ctx)
 		if err != nil {
 			return RValue{}, err
 		}
-		if err = accumulate(val, true); err != nil {
+		if err = accumulate(val, expr.parts[i].sub); err != nil {
 			return RValue{}, err
 		}
 	}
diff --git a/ast.go b/ast.go
index 4e7905d..1154da8 100644
--- a/ast.go
+++ b/ast.go
@@ -122,8 +122,13 @@ type partialComparisonExpression struct {
 }
 
 type addOrSubtractExpression struct {
-	add []Expression
-	sub []Expression
+	parts []addOrSubtractExpressionPart
+}
+
+type addOrSubtractExpressionPart struct {
+	// For the first element of parts, sub=false
+	sub  bool
+	expr Expression
 }
 
 type multiplyDivideModuloExpression struct {
@@ -654,26 +659,29 @@ func oC_ComparisonExpression(ctx *parser.OC_ComparisonExpressionContext) Express
 //
 func oC_AddOrSubtractExpression(ctx *parser.OC_AddOrSubtractExpressionContext) Expression {
 	ret := &addOrSubtractExpression{}
-	target := &ret.add
+	sub := false
 	count := ctx.GetChildCount()
 	for child := 0; child < count; child++ {
 		ch := ctx.GetChild(child)
 		expr, ok := ch.(*parser.OC_MultiplyDivideModuloExpressionContext)
 		if ok {
-			(*target) = append(*target, oC_MultiplyDivideModuloExpression(expr))
+			ret.parts = append(ret.parts, addOrSubtractExpressionPart{
+				sub:  sub,
+				expr: oC_MultiplyDivideModuloExpression(expr),
+			})
 		} else {
 			term, ok := ch.(antlr.TerminalNode)
 			if ok {
 				if term.GetText() == "+" {
-					target = &ret.add
+					sub = false
 				} else if term.GetText() == "-" {
-					target = &ret.sub
+					sub = true
 				}
 			}
 		}
 	}
-	if len(ret.add) == 1 && len(ret.sub) == 0 {
-		return ret.add[0]
+	if len(ret.parts) == 1 {
+		return ret.parts[0].expr
 	}
 	return ret
 }
-- 
2.43.0


From 3ce08ec4a80945473773e8f19b5ca8f386a6f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 49/52] fix: null raised to a power is null

x ^ null was null but null ^ x failed with ErrInvalidPowerOperation.
---
 arithmeticeval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index ad2bed6..96a1c5f 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -49,7 +49,7 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			return nil, err
 		}
 		v := val.Get()
-		if v == nil {
+		if v == nil || ret.Value == nil {
 			return RValue{}, nil
 		}
 		var valValue float64
-- 
2.43.0


From 173d64148cd14770d546bf7c4f9f2e44ca4aea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:22 +0000
Subject: [PATCH 50/52] fix: match labels and relationship types with an empty
 name

The pattern handed to the graph left out labels and types whose name is
empty, so that MATCH (n:``) matched every node.
---
 patterneval.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/patterneval.go b/patterneval.go
index 2c254d4..a524382 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -250,10 +250,7 @@ func (rt *relationshipTypes) getPattern() lpg.StringSet {
 	}
 	ret := lpg.NewStringSet()
 	for _, r := range rt.rel {
-		s := r.String()
-		if len(s) > 0 {
-			ret.Add(s)
-		}
+		ret.Add(r.String())
 	}
 	if ret.Len() == 0 {
 		return lpg.StringSet{}
@@ -267,10 +264,7 @@ func (nl *NodeLabels) getPattern() lpg.StringSet {
 	}
 	ret := lpg.NewStringSet()
 	for _, l := range *nl {
-		s := l.String()
-		if len(s) > 0 {
-			ret.Add(s)
-		}
+		ret.Add(l.String())
 	}
 	if ret.Len() == 0 {
 		return lpg.StringSet{}
-- 
2.43.0


From 4fdf4180f657afc13a8c4b73349ee9d94ed2986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:11 +0000
Subject: [PATCH 51/52] fix: clauses after a MERGE that starts a query did not
 see its variables

---
 eval.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 00ea0dc..27457e7 100644
--- a/eval.go
+++ b/eval.go
@@ -531,13 +531,22 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return RValue{Value: ret}, nil
 	}
 
+	// A clause that produces rows binds the variables of the clauses after it
+	hasRows := false
 	for _, upd := range query.update {
-		v, err := upd.TopLevelUpdate(ctx)
+		var v Value
+		var err error
+		if hasRows {
+			v, err = upd.Update(ctx, results)
+		} else {
+			v, err = upd.TopLevelUpdate(ctx)
+		}
 		if err != nil {
 			return nil, err
 		}
 		if v != nil && v.Get() != nil {
 			results = v.Get().(ResultSet)
+			hasRows = true
 		}
 	}
 	if query.ret == nil {
-- 
2.43.0


From 9133cc419a8a174aac709b620eac0df1b8a2132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:12 +0000
Subject: [PATCH 52/52] fix: CREATE of an unnamed node took a node bound to the
 empty name

---
 update.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/update.go b/update.go
index 39264d5..7ebefc0 100644
--- a/update.go
+++ b/update.go
@@ -262,17 +262,19 @@ func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
 		varName = string(*np.variable)
 	}
 	// Is the var defined already
-	existingNode, err := ctx.GetVar(varName)
-	if err == nil {
-		// Var is defined already. Cannot have labels or properties
-		if np.labels != nil || np.properties != nil {
-			return "", nil, fmt.Errorf("Cannot specify labels or properties in bound node of a CREATE statement")
-		}
-		node, ok := existingNode.Get().(*lpg.Node)
-		if !ok {
-			return "", nil, fmt.Errorf("Not a node: %s", varName)
+	if len(varName) > 0 {
+		existingNode, err := ctx.GetVar(varName)
+		if err == nil {
+			// Var is defined already. Cannot have labels or properties
+			if np.labels != nil || np.properties != nil {
+				return "", nil, fmt.Errorf("Cannot specify labels or properties in bound node of a CREATE statement")
+			}
+			node, ok := existingNode.Get().(*lpg.Node)
+			if !ok {
+				return "", nil, fmt.Errorf("Not a node: %s", varName)
+			}
+			return varName, node, nil
 		}
-		return varName, node, nil
 	}
 	node, err := np.createNode(ctx)
 	if err != nil {
-- 
2.43.0

