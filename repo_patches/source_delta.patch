From 63f60bdd47c303250be4226919db7c0b0bd5ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 01/45] fix: quote identifiers with SQL rules instead of Go
 string rules

A double quote inside an identifier was rendered as \" which ends the
delimited identifier for PostgreSQL, and backslashes, newlines and non
printable characters were replaced by Go escape sequences.
---
 stmt/stmt.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stmt/stmt.go b/stmt/stmt.go
index bf81364..bfc8da2 100644
--- a/stmt/stmt.go
+++ b/stmt/stmt.go
@@ -1,7 +1,6 @@
 package stmt
 
 import (
-	"strconv"
 	"strings"
 
 	"github.com/ulule/loukoum/v3/types"
@@ -20,7 +19,13 @@ func quote(ident string) string {
 	split := strings.Split(ident, ".")
 	quoted := make([]string, 0, len(split))
 	for i := range split {
-		quoted = append(quoted, strconv.Quote(split[i]))
+		quoted = append(quoted, quoteIdentifier(split[i]))
 	}
 	return strings.Join(quoted, ".")
 }
+
+// quoteIdentifier delimits given identifier using SQL rules: an embedded double quote is doubled and any other
+// character is kept as it is (there is no backslash escape in a delimited identifier).
+func quoteIdentifier(ident string) string {
+	return `"` + strings.ReplaceAll(ident, `"`, `""`) + `"`
+}
-- 
2.43.0


From 9b4e3c6947b3af6f6d5e8ab4304c4f21820850a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 02/45] fix: render an alias as a single identifier

An alias containing a dot was split into several identifiers, which is
not a valid alias.
---
 stmt/column.go | 2 +-
 stmt/table.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stmt/column.go b/stmt/column.go
index 4ad78a8..a31bf5d 100644
--- a/stmt/column.go
+++ b/stmt/column.go
@@ -57,7 +57,7 @@ func (column Column) Write(ctx types.Context) {
 		ctx.Write(" ")
 		ctx.Write(token.As.String())
 		ctx.Write(" ")
-		ctx.Write(quote(column.Alias))
+		ctx.Write(quoteIdentifier(column.Alias))
 	}
 }
 
diff --git a/stmt/table.go b/stmt/table.go
index 8e57c83..bc1e6a8 100644
--- a/stmt/table.go
+++ b/stmt/table.go
@@ -48,7 +48,7 @@ func (table Table) Write(ctx types.Context) {
 		ctx.Write(" ")
 		ctx.Write(token.As.String())
 		ctx.Write(" ")
-		ctx.Write(quote(table.Alias))
+		ctx.Write(quoteIdentifier(table.Alias))
 	}
 }
 
-- 
2.43.0


From 2faca87375b67c2fab1078c7baeef8f1dd2113c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 03/45] fix: render the * column as every column instead of a
 column named *

Select() without argument, which defaults to *, was rendered as
SELECT "*".
---
 stmt/column.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stmt/column.go b/stmt/column.go
index a31bf5d..2359357 100644
--- a/stmt/column.go
+++ b/stmt/column.go
@@ -1,6 +1,8 @@
 package stmt
 
 import (
+	"strings"
+
 	"github.com/ulule/loukoum/v3/token"
 	"github.com/ulule/loukoum/v3/types"
 )
@@ -52,7 +54,14 @@ func (column Column) Desc() Order {
 
 // Write exposes statement as a SQL query.
 func (column Column) Write(ctx types.Context) {
-	ctx.Write(quote(column.Name))
+	if column.Name == "*" {
+		ctx.Write(column.Name)
+	} else if strings.HasSuffix(column.Name, ".*") {
+		ctx.Write(quote(strings.TrimSuffix(column.Name, ".*")))
+		ctx.Write(".*")
+	} else {
+		ctx.Write(quote(column.Name))
+	}
 	if column.Alias != "" {
 		ctx.Write(" ")
 		ctx.Write(token.As.String())
-- 
2.43.0


From 04aba1129c2a232136304ff306e3b79636a6ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 04/45] fix: reject an undefined condition instead of dropping
 the WHERE clause

A nil or empty condition (or an expression built on one) made the whole
WHERE clause empty, so previous conditions were silently dropped and an
UPDATE or a DELETE was applied on every row.
---
 stmt/where.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stmt/where.go b/stmt/where.go
index 8757fe3..1a63f82 100644
--- a/stmt/where.go
+++ b/stmt/where.go
@@ -12,6 +12,10 @@ type Where struct {
 
 // NewWhere returns a new Where instance.
 func NewWhere(expression Expression) Where {
+	if expression == nil || expression.IsEmpty() {
+		panic("loukoum: a where clause expects at least one condition")
+	}
+
 	return Where{
 		Condition: NewWrapper(expression),
 	}
@@ -35,7 +39,7 @@ func (where Where) IsEmpty() bool {
 
 // And appends given Expression using AND as logical operator.
 func (where Where) And(right Expression) Where {
-	if where.IsEmpty() {
+	if where.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
 
@@ -47,7 +51,7 @@ func (where Where) And(right Expression) Where {
 
 // Or appends given Expression using OR as logical operator.
 func (where Where) Or(right Expression) Where {
-	if where.IsEmpty() {
+	if where.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
 
-- 
2.43.0


From 3268b4b539566f0fd369969a8c577c2da27e2908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 05/45] fix: reject an undefined condition instead of dropping
 the HAVING clause

---
 stmt/having.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stmt/having.go b/stmt/having.go
index 4adad71..0bb449d 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -13,6 +13,10 @@ type Having struct {
 
 // NewHaving returns a new Having instance.
 func NewHaving(expression Expression) Having {
+	if expression == nil || expression.IsEmpty() {
+		panic("loukoum: a having clause expects at least one condition")
+	}
+
 	return Having{
 		Condition: expression,
 	}
@@ -36,7 +40,7 @@ func (having Having) IsEmpty() bool {
 
 // And appends given Expression using AND as logical operator.
 func (having Having) And(right Expression) Having {
-	if having.IsEmpty() {
+	if having.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
 
@@ -48,7 +52,7 @@ func (having Having) And(right Expression) Having {
 
 // Or appends given Expression using OR as logical operator.
 func (having Having) Or(right Expression) Having {
-	if having.IsEmpty() {
+	if having.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
 
-- 
2.43.0


From d8a76b6459ba6fec8ae1b1ab45aa958781b5f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 06/45] fix: never render a condition without its identifier

Condition() accepts anything, but an identifier which is neither a string
nor a Raw (a Column, for example) was silently omitted from the query.
---
 stmt/expression.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 429b834..6d48662 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -76,14 +76,27 @@ func (identifier Identifier) Write(ctx types.Context) {
 	switch t := identifier.Identifier.(type) {
 	case string:
 		ctx.Write(quote(t))
-	case Raw:
-		t.Write(ctx)
+	case Column:
+		ctx.Write(quote(t.Name))
+	case Expression:
+		NewWrapper(t).Write(ctx)
+	default:
+		panic(fmt.Sprintf("loukoum: cannot use %T as identifier", identifier.Identifier))
 	}
 }
 
 // IsEmpty returns true if statement is undefined.
 func (identifier Identifier) IsEmpty() bool {
-	return identifier.Identifier == ""
+	switch t := identifier.Identifier.(type) {
+	case nil:
+		return true
+	case string:
+		return t == ""
+	case Statement:
+		return t.IsEmpty()
+	default:
+		return false
+	}
 }
 
 // Contains performs a "contains" comparison.
-- 
2.43.0


From d340a47d6ed44fc18549df6419192547459cdfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 07/45] fix: use NULL for a nil *time.Time instead of
 dereferencing it

---
 stmt/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index 6d48662..31cf924 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -32,6 +32,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	case time.Time:
 		return NewValue(value)
 	case *time.Time:
+		if value == nil {
+			return NewValue(nil)
+		}
 		return NewValue(*value)
 	case StatementEncoder:
 		stmt := value.Statement()
-- 
2.43.0


From 4211f037d7a0063ddd5a4a995e8753308c4755ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 08/45] fix: enclose a subquery between parenthesis in every
 comparison

LIKE, ILIKE, IS, IS DISTINCT FROM and BETWEEN were rendering a subquery
operand without its parenthesis.
---
 stmt/expression.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 31cf924..1b32868 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -135,13 +135,13 @@ func (identifier Identifier) NotEqual(value interface{}) InfixExpression {
 // Is performs a "is" comparison.
 func (identifier Identifier) Is(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Is)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNot performs a "is not" comparison.
 func (identifier Identifier) IsNot(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsNot)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNull performs a "is null" comparison.
@@ -189,47 +189,47 @@ func (identifier Identifier) NotIn(value ...interface{}) In {
 // Like performs a "like" condition.
 func (identifier Identifier) Like(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Like)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // NotLike performs a "not like" condition.
 func (identifier Identifier) NotLike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.NotLike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // ILike performs a "ilike" condition.
 func (identifier Identifier) ILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.ILike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // NotILike performs a "not ilike" condition.
 func (identifier Identifier) NotILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.NotILike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // Between performs a "between" condition.
 func (identifier Identifier) Between(from, to interface{}) Between {
-	return NewBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // NotBetween performs a "not between" condition.
 func (identifier Identifier) NotBetween(from, to interface{}) Between {
-	return NewNotBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewNotBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // IsDistinctFrom performs an "is distinct from" comparison.
 func (identifier Identifier) IsDistinctFrom(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsDistinctFrom)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNotDistinctFrom performs an "is not distinct from" comparison.
 func (identifier Identifier) IsNotDistinctFrom(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsNotDistinctFrom)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // Ensure that Identifier is an Expression
@@ -652,13 +652,13 @@ func (call Call) LessThan(value interface{}) InfixExpression {
 // Like performs a "like" condition.
 func (call Call) Like(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Like)
-	return NewInfixExpression(call, operator, NewExpression(value))
+	return NewInfixExpression(call, operator, NewWrapper(NewExpression(value)))
 }
 
 // ILike performs a "ilike" condition.
 func (call Call) ILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.ILike)
-	return NewInfixExpression(call, operator, NewExpression(value))
+	return NewInfixExpression(call, operator, NewWrapper(NewExpression(value)))
 }
 
 // In adds a IN expression.
-- 
2.43.0


From a3409f77691f017283f747e14125b8f6fb03fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 09/45] fix: enclose a subquery between parenthesis in a list
 of expressions

IN (...), VALUES (...), SET (...) = (...) and calls were rendering a
subquery mixed with other elements without its parenthesis.
---
 stmt/expression.go | 6 ++++++
 stmt/set.go        | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 1b32868..14968a4 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -500,6 +500,9 @@ func (array Array) Write(ctx types.Context) {
 		if i > 0 {
 			ctx.Write(", ")
 		}
+		if len(array.Values) > 1 {
+			value = NewWrapper(value)
+		}
 		value.Write(ctx)
 	}
 }
@@ -626,6 +629,9 @@ func (call Call) Write(ctx types.Context) {
 		if i > 0 {
 			ctx.Write(", ")
 		}
+		if len(call.args) > 1 {
+			arg = NewWrapper(arg)
+		}
 		arg.Write(ctx)
 	}
 	ctx.Write(")")
diff --git a/stmt/set.go b/stmt/set.go
index 48f6a6a..e9461b4 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -195,7 +195,11 @@ func (pairs PairContainer) WriteArray(ctx types.Context) {
 		if i != 0 {
 			ctx.Write(", ")
 		}
-		pairs.Expressions[i].Write(ctx)
+		expression := pairs.Expressions[i]
+		if len(pairs.Expressions) > 1 {
+			expression = NewWrapper(expression)
+		}
+		expression.Write(ctx)
 	}
 	ctx.Write(")")
 }
-- 
2.43.0


From b007474812aff1f7dd4f5ac8840c854aed575305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 10/45] fix: keep every element of an inserted row

A row with a single NULL was rendered as an empty row, a row with a
single slice (an array column) was spread over several columns and a row
with a single subquery was rendered without its parenthesis.
---
 stmt/expression.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 14968a4..106c04f 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -314,8 +314,7 @@ func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyc
 	// We pass only one argument and it's a slice or an expression.
 	arraylist := toArrayList(values[0])
 	if len(arraylist.Values) == 0 {
-		arraylist.Values = []Expression{NewArrayExpression(values...)}
-
+		arraylist.Values = []Expression{newRow(values)}
 	}
 	return arraylist
 }
@@ -325,7 +324,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 	switch values := value.(type) {
 	case [][]interface{}:
 		for i := range values {
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
+			arraylist.Values = append(arraylist.Values, newArrayRow(values[i]))
 		}
 	case [][]string:
 		for i := range values {
@@ -334,7 +333,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 				raws[j] = values[i][j]
 			}
 
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newArrayRow(raws))
 		}
 	case [][]int:
 		for i := range values {
@@ -342,7 +341,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newArrayRow(raws))
 		}
 	case [][]int64:
 		for i := range values {
@@ -350,7 +349,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newArrayRow(raws))
 		}
 	case [][]bool:
 		for i := range values {
@@ -358,7 +357,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newArrayRow(raws))
 		}
 	case [][]Expression:
 		for i := range values {
@@ -366,13 +365,33 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newArrayRow(raws))
 		}
 	}
 
 	return arraylist
 }
 
+// newRow creates a row from the arguments of a VALUES clause: it's either a slice of values, or the values themselves.
+func newRow(values []interface{}) Expression {
+	if len(values) == 1 {
+		switch values[0].(type) {
+		case nil, Expression, StatementEncoder:
+			return newArrayRow(values)
+		}
+	}
+	return NewArrayExpression(values...)
+}
+
+// newArrayRow creates a row where every given value is an element.
+func newArrayRow(values []interface{}) Expression {
+	array := Array{}
+	for i := range values {
+		array.Values = append(array.Values, NewWrapper(NewExpression(values[i])))
+	}
+	return array
+}
+
 func (ArrayList) expression() {}
 
 // Write exposes statement as a SQL query.
-- 
2.43.0


From 8ce1d5d9fd24cdf6ac8eac3eade69f7784cbf3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 11/45] fix: reject an empty DO UPDATE instead of dropping the
 ON CONFLICT clause

---
 builder/insert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 71dcf11..f59490e 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -94,6 +94,9 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 			if b.query.OnConflict.Target.IsEmpty() {
 				panic("loukoum: on conflict update clause requires at least one target")
 			}
+			if value.IsEmpty() {
+				panic("loukoum: on conflict update clause requires at least one pair")
+			}
 			b.query.OnConflict.Action = value
 			return b
 		default:
-- 
2.43.0


From ffca5e0fafb517712f93cc9fe1998e9fd5d633ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 12/45] fix: reject an empty INSERT set clause instead of
 rendering VALUES ()

---
 builder/insert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index f59490e..7e875ca 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -117,6 +117,10 @@ func (b Insert) Set(args ...interface{}) Insert {
 	}
 
 	pairs := ToSet(args).Pairs
+	if pairs.IsEmpty() {
+		panic("loukoum: insert set clause requires at least one pair")
+	}
+
 	columns, expressions := pairs.Values()
 
 	array := stmt.NewArrayListExpression(expressions)
-- 
2.43.0


From dc29aea318611174fa4bc83bc9207f3099c37006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 13/45] fix: do not sort columns in place when a SET clause is
 rendered

Rendering modified the builder, which is a data race when a builder is
shared between goroutines, and the comparison was not a strict weak
ordering, so the order of aliased columns depended on the insertion order.
---
 stmt/set.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index e9461b4..80b3689 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -128,21 +128,23 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 		return pairs.Columns, pairs.Expressions
 	}
 
-	sort.Slice(pairs.Columns, func(i, j int) bool {
-		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
-			pairs.Columns[i].Alias < pairs.Columns[j].Alias
+	columns := make([]Column, len(pairs.Columns))
+	copy(columns, pairs.Columns)
+
+	sort.Slice(columns, func(i, j int) bool {
+		if columns[i].Name != columns[j].Name {
+			return columns[i].Name < columns[j].Name
+		}
+		return columns[i].Alias < columns[j].Alias
 	})
 
-	columns := make([]Column, 0, len(pairs.Columns))
-	expressions := make([]Expression, 0, len(pairs.Columns))
+	expressions := make([]Expression, 0, len(columns))
 
-	for i := range pairs.Columns {
-		column := pairs.Columns[i]
-		expression, ok := pairs.Map[column]
+	for i := range columns {
+		expression, ok := pairs.Map[columns[i]]
 		if !ok {
 			panic("loukoum: invalid state for stmt.PairContainer")
 		}
-		columns = append(columns, column)
 		expressions = append(expressions, expression)
 	}
 
-- 
2.43.0


From 530c408f31c15b30e79fa8fa60a869278f955816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 14/45] fix: do not share the SET clause between derived update
 builders

Update builders are values, but every builder derived from the same one was
writing its pairs in the same map and slices.
---
 builder/builder.go |  1 +
 builder/update.go  |  1 +
 stmt/set.go        | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index e449873..6165cc7 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -322,6 +322,7 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 
 // MergeSet merges new pairs into existing ones (last write wins).
 func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
+	set.Pairs = set.Pairs.Clone()
 	for i := range args {
 		switch value := args[i].(type) {
 		case string, stmt.Column:
diff --git a/builder/update.go b/builder/update.go
index f95bfe6..6b936b6 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -44,6 +44,7 @@ func (b Update) Using(args ...interface{}) Update {
 		panic("loukoum: using clause requires a column or an expression")
 	}
 
+	b.query.Set.Pairs = b.query.Set.Pairs.Clone()
 	for i := range args {
 		b.query.Set.Pairs.Use(stmt.NewExpression(args[i]))
 	}
diff --git a/stmt/set.go b/stmt/set.go
index 80b3689..5adfcde 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -64,6 +64,18 @@ func NewPairContainer() PairContainer {
 	}
 }
 
+// Clone returns a copy of current instance: adding elements on the copy has no effect on the original.
+func (pairs PairContainer) Clone() PairContainer {
+	clone := NewPairContainer()
+	clone.Mode = pairs.Mode
+	for column, expression := range pairs.Map {
+		clone.Map[column] = expression
+	}
+	clone.Columns = append(clone.Columns, pairs.Columns...)
+	clone.Expressions = append(clone.Expressions, pairs.Expressions...)
+	return clone
+}
+
 // Add appends given column and expression.
 // It will configure Set's syntax to key-value (a.k.a "standard", "default" or "associative").
 //
-- 
2.43.0


From 8b2626af72dc3d841fe3bdeedb66884e64b249db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 15/45] fix: do not share the JOIN clauses between derived
 select builders

---
 builder/select.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index 276e0c1..5ce4323 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -93,9 +93,7 @@ func (b Select) join1(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
-
-	return b
+	return b.addJoin(join)
 }
 
 func (b Select) join2(args []interface{}) Select {
@@ -104,9 +102,7 @@ func (b Select) join2(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
-
-	return b
+	return b.addJoin(join)
 }
 
 func (b Select) join3(args []interface{}) Select {
@@ -123,7 +119,13 @@ func (b Select) join3(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	return b.addJoin(join)
+}
+
+func (b Select) addJoin(join stmt.Join) Select {
+	// Limit the capacity so joins are never shared with another builder.
+	n := len(b.query.Joins)
+	b.query.Joins = append(b.query.Joins[:n:n], join)
 
 	return b
 }
-- 
2.43.0


From 34e8a4d193efb33584599e3182bf67446be7491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 16/45] fix: do not share the ORDER BY clause between derived
 select builders

---
 builder/select.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builder/select.go b/builder/select.go
index 5ce4323..e70e1ca 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -199,7 +199,8 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
-	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders, orders...)
+	n := len(b.query.OrderBy.Orders)
+	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders[:n:n], orders...)
 	return b
 }
 
-- 
2.43.0


From a6c599eb0362368320a2aa52c499380347b78ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 17/45] fix: do not share the WITH clause between derived
 builders, nor with its caller

---
 builder/select.go | 8 ++------
 builder/update.go | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index e70e1ca..d6dc5d1 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -132,12 +132,8 @@ func (b Select) addJoin(join stmt.Join) Select {
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
-
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	n := len(b.query.With.Queries)
+	b.query.With = stmt.NewWith(append(b.query.With.Queries[:n:n], args...))
 	return b
 }
 
diff --git a/builder/update.go b/builder/update.go
index 6b936b6..42d37fd 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -54,12 +54,8 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
-
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	n := len(b.query.With.Queries)
+	b.query.With = stmt.NewWith(append(b.query.With.Queries[:n:n], args...))
 	return b
 }
 
-- 
2.43.0


From d8b4ea1ace8e45cd604b7d04ec938835a9bbbf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 18/45] fix: do not retain the slices given by the caller as
 columns or arguments

Modifying such a slice afterwards was modifying the query.
---
 builder/builder.go | 4 ++--
 stmt/expression.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 6165cc7..f991898 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -80,7 +80,7 @@ func ToColumns(values []interface{}) []stmt.Column { // nolint: gocyclo
 					panic("loukoum: given column is undefined")
 				}
 			}
-			return array
+			return append([]stmt.Column{}, array...)
 		case []string:
 			list := make([]interface{}, len(array))
 			for i := range array {
@@ -122,7 +122,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
-			return array
+			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
diff --git a/stmt/expression.go b/stmt/expression.go
index 106c04f..b113fbe 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -634,7 +634,7 @@ type Call struct {
 func NewCall(function string, args ...Expression) Call {
 	return Call{
 		function: function,
-		args:     args,
+		args:     append([]Expression{}, args...),
 	}
 }
 
-- 
2.43.0


From a774774e2b82f4b5e81235c556c04a970688cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 19/45] fix: guard DISTINCT ON, prefix and suffix with their
 own clause

They were guarded by another clause (GROUP BY and OFFSET): a valid builder
was rejected depending on the order of its calls, and a second definition
was silently replacing the first one.
---
 builder/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index d6dc5d1..1402b46 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -20,7 +20,7 @@ func NewSelect() Select {
 
 // DistinctOn adds a DISTINCT ON clause to the query.
 func (b Select) DistinctOn(args ...interface{}) Select {
-	if !b.query.GroupBy.IsEmpty() {
+	if !b.query.DistinctOn.IsEmpty() {
 		panic("loukoum: select builder has distinct on clause already defined")
 	}
 
@@ -222,7 +222,7 @@ func (b Select) Offset(value interface{}) Select {
 
 // Suffix adds given clauses as suffixes.
 func (b Select) Suffix(suffix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Suffix.IsEmpty() {
 		panic("loukoum: select builder has suffixes clauses already defined")
 	}
 
@@ -233,7 +233,7 @@ func (b Select) Suffix(suffix interface{}) Select {
 
 // Prefix adds given clauses as prefixes.
 func (b Select) Prefix(prefix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Prefix.IsEmpty() {
 		panic("loukoum: select builder has prefixes clauses already defined")
 	}
 
-- 
2.43.0


From 14af0c8172715221d3a553d319f07c1e7c775dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 20/45] fix: use the tables of a From given as from clause

They were ignored, and the query could not be rendered.
---
 builder/builder.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index f991898..ad88a07 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -200,25 +200,23 @@ func ToTables(values []interface{}) []stmt.Table {
 
 // ToFrom takes an empty interfaces and returns a From instance.
 func ToFrom(args ...interface{}) stmt.From {
-	from := stmt.From{}
-
-	tables := make([]stmt.Statement, len(args))
+	tables := make([]stmt.Statement, 0, len(args))
 	for i := range args {
 		switch value := args[i].(type) {
 		case string:
-			tables[i] = stmt.NewTable(value)
+			tables = append(tables, stmt.NewTable(value))
 		case stmt.From:
-			from = value
+			tables = append(tables, value.Tables...)
 		case stmt.Table:
-			tables[i] = value
+			tables = append(tables, value)
 		case stmt.Raw:
-			tables[i] = value
+			tables = append(tables, value)
 		default:
 			panic(fmt.Sprintf("loukoum: cannot use %T as from clause", args[i]))
 		}
 	}
 
-	from = stmt.NewFrom(tables)
+	from := stmt.NewFrom(tables)
 	if from.IsEmpty() {
 		panic("loukoum: given from clause is undefined")
 	}
-- 
2.43.0


From 5bf5180f3a80c5863ad98841da35efb5c73d84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 21/45] fix: reject an undefined table in a from clause

---
 builder/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index ad88a07..3282d45 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -216,6 +216,12 @@ func ToFrom(args ...interface{}) stmt.From {
 		}
 	}
 
+	for i := range tables {
+		if tables[i].IsEmpty() {
+			panic("loukoum: given from clause is undefined")
+		}
+	}
+
 	from := stmt.NewFrom(tables)
 	if from.IsEmpty() {
 		panic("loukoum: given from clause is undefined")
-- 
2.43.0


From f11853c56e3876b8f5d19d56bb74dfc1d6cc79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 22/45] fix: validate limit and offset given as statements

A negative limit or offset was rendered, and a limit of zero was silently
dropped, when it was given using Limit() or Offset().
---
 builder/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 3282d45..79be4da 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -363,6 +363,9 @@ func ToSet(args []interface{}) stmt.Set {
 func ToLimit(arg interface{}) stmt.Limit {
 	switch value := arg.(type) {
 	case stmt.Limit:
+		if value.Count <= 0 {
+			panic("loukoum: limit must be a positive integer")
+		}
 		return value
 	default:
 		limit, ok := ToInt64(value)
@@ -380,6 +383,9 @@ func ToLimit(arg interface{}) stmt.Limit {
 func ToOffset(arg interface{}) stmt.Offset {
 	switch value := arg.(type) {
 	case stmt.Offset:
+		if value.Start < 0 {
+			panic("loukoum: offset must be a non-negative integer")
+		}
 		return value
 	default:
 		offset, ok := ToInt64(value)
-- 
2.43.0


From 3c344fd0c7ba807b0b849642a43c40c68edb4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 23/45] fix: recognize builders by value in
 Is{Select,Insert,Update,Delete}Builder

Every constructor returns a value, so these functions were always returning
false.
---
 builder/builder.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 79be4da..7d17b45 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -27,26 +27,42 @@ type Builder interface {
 
 // IsSelectBuilder returns true if given builder is of type "Select"
 func IsSelectBuilder(builder Builder) bool {
-	_, ok := builder.(*Select)
-	return ok
+	switch builder.(type) {
+	case Select, *Select:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsInsertBuilder returns true if given builder is of type "Insert"
 func IsInsertBuilder(builder Builder) bool {
-	_, ok := builder.(*Insert)
-	return ok
+	switch builder.(type) {
+	case Insert, *Insert:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsUpdateBuilder returns true if given builder is of type "Update"
 func IsUpdateBuilder(builder Builder) bool {
-	_, ok := builder.(*Update)
-	return ok
+	switch builder.(type) {
+	case Update, *Update:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsDeleteBuilder returns true if given builder is of type "Delete"
 func IsDeleteBuilder(builder Builder) bool {
-	_, ok := builder.(*Delete)
-	return ok
+	switch builder.(type) {
+	case Delete, *Delete:
+		return true
+	default:
+		return false
+	}
 }
 
 // ToColumn takes an empty interfaces and returns a Column instance.
-- 
2.43.0


From 18234e52fa4ba2d03be98fed75be81d7000d1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 24/45] fix: accept an uint as limit or offset, as any other
 integer type

---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 7d17b45..8fc06ab 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -327,6 +327,10 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 		return int64(cast), true
 	case uint32:
 		return int64(cast), true
+	case uint:
+		if uint64(cast) <= math.MaxInt64 {
+			return int64(cast), true
+		}
 	case uint64:
 		if cast <= math.MaxInt64 {
 			return int64(cast), true
-- 
2.43.0


From c47aaae9df5518f0c7d8afd0bddf0d7d662666bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 25/45] fix: keep a comment on its line

A line break in a comment was ending it, so the remaining text was
executed as SQL.
---
 stmt/comment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stmt/comment.go b/stmt/comment.go
index d42d2a0..1154c0a 100644
--- a/stmt/comment.go
+++ b/stmt/comment.go
@@ -1,6 +1,8 @@
 package stmt
 
 import (
+	"strings"
+
 	"github.com/ulule/loukoum/v3/token"
 	"github.com/ulule/loukoum/v3/types"
 )
@@ -24,7 +26,8 @@ func (comment Comment) Write(ctx types.Context) {
 	}
 	ctx.Write(token.Comment.String())
 	ctx.Write(" ")
-	ctx.Write(comment.Comment)
+	// A comment ends with its line.
+	ctx.Write(strings.NewReplacer("\r", " ", "\n", " ").Replace(comment.Comment))
 }
 
 // IsEmpty returns true if statement is undefined.
-- 
2.43.0


From 7b954fd94024898231eb455da117ee314b6f7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 26/45] fix: do not let the comment of a subquery hide the end
 of its query

A commented select used as a subquery was rendered as (SELECT ...; -- comment)
so the closing parenthesis and everything after it was commented out.
---
 stmt/expression.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index b113fbe..d656419 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -22,7 +22,7 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	}
 	switch value := arg.(type) {
 	case Expression:
-		return value
+		return withoutComment(value)
 	case string, bool, int, int8, int16, int32, int64,
 		uint, uint8, uint16, uint32, uint64, float32, float64,
 		[]byte, driver.Valuer, []int64, []string, pgtype.RangeValuer,
@@ -42,7 +42,7 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		if !ok {
 			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
 		}
-		return expression
+		return withoutComment(expression)
 	case Int64Encoder:
 		return NewValue(value.Int64())
 	case BoolEncoder:
@@ -56,6 +56,16 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	}
 }
 
+// withoutComment removes the comment of a subquery, since it would comment out the end of the enclosing query.
+func withoutComment(expression Expression) Expression {
+	selekt, ok := expression.(Select)
+	if ok {
+		selekt.Comment = Comment{}
+		return selekt
+	}
+	return expression
+}
+
 // ----------------------------------------------------------------------------
 // Identifier
 // ----------------------------------------------------------------------------
-- 
2.43.0


From c8aab94c525ada6cb60c80194e38577f7f2dfd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 27/45] fix: reject an undefined WITH query instead of
 rendering a hole in its clause

---
 builder/select.go | 6 ++++++
 builder/update.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index 1402b46..3ddaad2 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -132,6 +132,12 @@ func (b Select) addJoin(join stmt.Join) Select {
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with clause is undefined")
+		}
+	}
+
 	n := len(b.query.With.Queries)
 	b.query.With = stmt.NewWith(append(b.query.With.Queries[:n:n], args...))
 	return b
diff --git a/builder/update.go b/builder/update.go
index 42d37fd..ebbc55e 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -54,6 +54,12 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with clause is undefined")
+		}
+	}
+
 	n := len(b.query.With.Queries)
 	b.query.With = stmt.NewWith(append(b.query.With.Queries[:n:n], args...))
 	return b
-- 
2.43.0


From 8e35c3af7d0a8efd1e9f85fe807aca15f35b1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 28/45] fix: reject an undefined ORDER BY expression instead of
 rendering a hole in its clause

---
 builder/select.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index 3ddaad2..19643ea 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -201,6 +201,12 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
+	for i := range orders {
+		if orders[i].IsEmpty() {
+			panic("loukoum: given order by clause is undefined")
+		}
+	}
+
 	n := len(b.query.OrderBy.Orders)
 	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders[:n:n], orders...)
 	return b
-- 
2.43.0


From 673c51db66cfa95b395ef6e4cf9facfbc045d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 29/45] fix: validate columns given as a slice to a select, as
 any other columns

---
 builder/builder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 8fc06ab..00a5c88 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -138,6 +138,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
+			for i := range array {
+				if array[i].IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+			}
 			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
@@ -151,7 +156,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 		case []string:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
-				expressions = append(expressions, stmt.NewColumn(array[i]))
+				column := stmt.NewColumn(strings.TrimSpace(array[i]))
+				if column.IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+				expressions = append(expressions, column)
 			}
 			return expressions
 		}
-- 
2.43.0


From ced77dd7086b5b966626e4fb80fb28a284bcc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 30/45] fix: use an escape string constant when a string
 literal is escaped

A quote or a backslash was escaped using a backslash in a standard string
constant, where it has no special meaning: the literal was not terminated,
or had another value.
---
 format/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/format.go b/format/format.go
index a6e0d52..b4df1cb 100644
--- a/format/format.go
+++ b/format/format.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 	"time"
 )
 
@@ -69,6 +70,10 @@ func Value(arg interface{}) string { // nolint: gocyclo
 // String formats the given string.
 func String(value string) string {
 	buffer := &bytes.Buffer{}
+	if strings.ContainsAny(value, "'\\\n\r\t") {
+		// Backslash escapes are only recognized in an escape string constant.
+		writeRune(buffer, 'E')
+	}
 	writeRune(buffer, '\'')
 	for _, char := range value {
 		switch char {
-- 
2.43.0


From 3d42d876d108595e5b96b9356fb8ec69d0f7d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 31/45] fix: return an EOF token from an exhausted iterator

A join condition ending after a column (ON a.x = b.x AND a.y) was panicking
with an index out of range instead of returning an error.
---
 lexer/iteratee.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer/iteratee.go b/lexer/iteratee.go
index 174115d..26dfcc7 100644
--- a/lexer/iteratee.go
+++ b/lexer/iteratee.go
@@ -25,6 +25,9 @@ func (it Iteratee) Is(next token.Type) bool {
 
 // Next returns the next token.
 func (it *Iteratee) Next() token.Token {
+	if !it.HasNext() {
+		return token.New(token.EOF, "")
+	}
 	element := it.list[it.cursor]
 	it.cursor++
 	return element
-- 
2.43.0


From e91fa45eeae7b96ecd1c133da46690f3b01a49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 32/45] fix: handle a join without condition as undefined
 instead of dereferencing it

---
 stmt/join.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/join.go b/stmt/join.go
index 397bec5..e35fdc8 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -49,7 +49,7 @@ func (join Join) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (join Join) IsEmpty() bool {
-	return join.Type == "" || join.Table.IsEmpty() || join.Condition.IsEmpty()
+	return join.Type == "" || join.Table.IsEmpty() || join.Condition == nil || join.Condition.IsEmpty()
 }
 
 // Ensure that Join is a Statement
-- 
2.43.0


From c612e3971fa249c8bcc379c0248e790930c26423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 33/45] fix: reject a textual join that cannot be entirely
 parsed

Everything after the first unexpected token was silently ignored, so join
conditions written after a closing parenthesis, for example, were removed,
and a second condition or table was silently replacing the first one.
---
 parser/join.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/join.go b/parser/join.go
index 894cb55..4be5a63 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -51,14 +51,14 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 			}
 		case token.Literal:
 			// Parse join table
-			if it.Is(token.On) {
+			if it.Is(token.On) && join.Table.IsEmpty() {
 				it.Next()
 				join.Table = stmt.NewTable(e.Value)
 				continue
 			}
 
 			// Parse join condition
-			if it.Is(token.Equals) {
+			if it.Is(token.Equals) && join.Condition == nil {
 
 				// Left condition
 				left := stmt.NewColumn(e.Value)
@@ -134,10 +134,15 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 
 		case token.On, token.LParen, token.RParen:
 			continue
+		case token.Semicolon:
+			if !it.HasNext() {
+				continue
+			}
 		}
 
-		// Ignore invalid token and stop iterating.
-		break
+		// Reject invalid token: ignoring the remaining tokens would remove conditions from the join.
+		err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+		return stmt.Join{}, err
 	}
 
 	return join, nil
-- 
2.43.0


From d8a255c0641ef0173f16be82b462785c3448e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 34/45] fix: do not handle a NUL character as the end of the
 input

The lexer was ignoring everything after it.
---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 9488a9d..35774f0 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -9,7 +9,7 @@ import (
 
 const (
 	// EOF sentinel
-	eof = 0
+	eof = -1
 	// Newline sentinel
 	newline = '\n'
 )
-- 
2.43.0


From 44e1a6d54196e97cec029c607f4299dfbc8afa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 35/45] fix: reject INSERT values without any value instead of
 an index out of range

---
 builder/insert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 7e875ca..e4f24b3 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -49,6 +49,9 @@ func (b Insert) Values(values ...interface{}) Insert {
 	if !b.query.Values.IsEmpty() {
 		panic("loukoum: insert builder has values clause already defined")
 	}
+	if len(values) == 0 {
+		panic("loukoum: insert values clause requires at least one value")
+	}
 
 	b.query.Values = stmt.NewValues(stmt.NewArrayListExpression(values...))
 
-- 
2.43.0


From 2be7f4bc7f91bbef5d95735e99f30f7abbe2f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 36/45] fix: reject a nil call argument instead of
 dereferencing it

---
 stmt/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index d656419..c47cb1f 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -642,6 +642,12 @@ type Call struct {
 
 // NewCall returns a new Call.
 func NewCall(function string, args ...Expression) Call {
+	for i := range args {
+		if args[i] == nil {
+			panic("loukoum: a call expects arguments which are not nil")
+		}
+	}
+
 	return Call{
 		function: function,
 		args:     append([]Expression{}, args...),
-- 
2.43.0


From 29fa9f380a1a4378d7d04eeb8cecdb9f3c911038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 37/45] fix: reject ON CONFLICT arguments given after the
 action instead of ignoring them

---
 builder/insert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index e4f24b3..bf56aff 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -87,6 +87,9 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 	}
 
 	for i := range args {
+		if _, ok := args[i].(stmt.ConflictAction); ok && i != len(args)-1 {
+			panic("loukoum: on conflict clause cannot have arguments after its action")
+		}
 		switch value := args[i].(type) {
 		case string, stmt.Column:
 			b.query.OnConflict.Target.Columns = append(b.query.OnConflict.Target.Columns, ToColumn(value))
-- 
2.43.0


From c38f544baa75839abaacf84c9a2e559cc11faa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 38/45] fix: reject a nil table in a from clause instead of
 dereferencing it

---
 builder/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 00a5c88..f847551 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -242,7 +242,7 @@ func ToFrom(args ...interface{}) stmt.From {
 	}
 
 	for i := range tables {
-		if tables[i].IsEmpty() {
+		if tables[i] == nil || tables[i].IsEmpty() {
 			panic("loukoum: given from clause is undefined")
 		}
 	}
-- 
2.43.0


From 7cb039f0cf885fa32702e18e26eae009df7752ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 39/45] fix: treat an IN expression without left operand as
 undefined instead of dereferencing it

---
 stmt/in.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/in.go b/stmt/in.go
index ad3b1c1..17f937b 100644
--- a/stmt/in.go
+++ b/stmt/in.go
@@ -50,7 +50,7 @@ func (in In) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (in In) IsEmpty() bool {
-	return in.Expression.IsEmpty() || in.Operator.IsEmpty() || in.Value == nil
+	return in.Expression == nil || in.Expression.IsEmpty() || in.Operator.IsEmpty() || in.Value == nil
 }
 
 // And creates a new InfixExpression using given Expression.
-- 
2.43.0


From 1cfb2b733c81e64a7efa1ecf3322579f9148f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 40/45] fix: wrap a subquery which is the only element of an
 inserted row in its own parentheses

---
 stmt/expression.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index c47cb1f..e514d1c 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -385,9 +385,17 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 // newRow creates a row from the arguments of a VALUES clause: it's either a slice of values, or the values themselves.
 func newRow(values []interface{}) Expression {
 	if len(values) == 1 {
-		switch values[0].(type) {
+		switch row := values[0].(type) {
 		case nil, Expression, StatementEncoder:
 			return newArrayRow(values)
+		case []Expression:
+			raws := make([]interface{}, len(row))
+			for i := range row {
+				raws[i] = row[i]
+			}
+			return newArrayRow(raws)
+		case []interface{}:
+			return newArrayRow(row)
 		}
 	}
 	return NewArrayExpression(values...)
-- 
2.43.0


From b70706652ce35ec319f7dc6c40f869f76ab2d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 41/45] fix: reject a map which defines the same column with
 several keys instead of keeping a random value

---
 builder/builder.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index f847551..72f96ed 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -364,12 +364,14 @@ func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
 				set.Pairs.Set(columns[y])
 			}
 		case map[string]interface{}:
+			keys := make(map[stmt.Column]struct{}, len(value))
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				set.Pairs.Add(toMapKey(keys, k), stmt.NewWrapper(stmt.NewExpression(v)))
 			}
 		case types.Map:
+			keys := make(map[stmt.Column]struct{}, len(value))
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				set.Pairs.Add(toMapKey(keys, k), stmt.NewWrapper(stmt.NewExpression(v)))
 			}
 		case types.Pair:
 			set.Pairs.Add(ToColumn(value.Key), stmt.NewWrapper(stmt.NewExpression(value.Value)))
@@ -380,6 +382,18 @@ func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
 	return set
 }
 
+// toMapKey takes a key of a map and returns a Column instance.
+// A map is not ordered, so it cannot define the same column with several keys.
+func toMapKey(keys map[stmt.Column]struct{}, key interface{}) stmt.Column {
+	column := ToColumn(key)
+	_, ok := keys[column]
+	if ok {
+		panic(fmt.Sprintf("loukoum: column %q is defined more than once by the given map", column.Name))
+	}
+	keys[column] = struct{}{}
+	return column
+}
+
 // ToSet takes either a types.Map or slice of types.Pair and returns a stmt.Set instance.
 func ToSet(args []interface{}) stmt.Set {
 	set := stmt.NewSet()
-- 
2.43.0


From 2a3c3c0cf3cd5fcae9b16e7b358eb4bb54feef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 42/45] fix: reject a nil expression in a slice of columns

---
 builder/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 72f96ed..5bcdcd1 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -139,7 +139,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
 			for i := range array {
-				if array[i].IsEmpty() {
+				if array[i] == nil || array[i].IsEmpty() {
 					panic("loukoum: given column is undefined")
 				}
 			}
-- 
2.43.0


From c52a3f1971a521f3ad04571b36cd67f25d5d94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 43/45] fix: enclose a select statement used as a condition and
 remove its comment, as any other subquery

---
 stmt/between.go    |  8 ++++----
 stmt/expression.go | 25 ++++++++++++++++++++-----
 stmt/having.go     |  2 +-
 stmt/in.go         |  8 ++++----
 stmt/infix.go      |  4 ++--
 stmt/join.go       |  2 +-
 6 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/stmt/between.go b/stmt/between.go
index dd25e4d..e9fe5dc 100644
--- a/stmt/between.go
+++ b/stmt/between.go
@@ -18,9 +18,9 @@ func NewBetween(identifier Identifier, from, to Expression) Between {
 	return Between{
 		Identifier: identifier,
 		Operator:   NewComparisonOperator(types.Between),
-		From:       from,
+		From:       withParenthesis(from),
 		And:        NewAndOperator(),
-		To:         to,
+		To:         withParenthesis(to),
 	}
 }
 
@@ -29,9 +29,9 @@ func NewNotBetween(identifier Identifier, from, to Expression) Between {
 	return Between{
 		Identifier: identifier,
 		Operator:   NewComparisonOperator(types.NotBetween),
-		From:       from,
+		From:       withParenthesis(from),
 		And:        NewAndOperator(),
-		To:         to,
+		To:         withParenthesis(to),
 	}
 }
 
diff --git a/stmt/expression.go b/stmt/expression.go
index e514d1c..d87c8a8 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -58,10 +58,23 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 
 // withoutComment removes the comment of a subquery, since it would comment out the end of the enclosing query.
 func withoutComment(expression Expression) Expression {
-	selekt, ok := expression.(Select)
+	switch value := expression.(type) {
+	case Select:
+		value.Comment = Comment{}
+		return value
+	case *Select:
+		if value != nil {
+			return withoutComment(*value)
+		}
+	}
+	return expression
+}
+
+// withParenthesis encloses a subquery between parenthesis, any other expression is returned as it is.
+func withParenthesis(expression Expression) Expression {
+	selekt, ok := withoutComment(expression).(Select)
 	if ok {
-		selekt.Comment = Comment{}
-		return selekt
+		return NewWrapper(selekt)
 	}
 	return expression
 }
@@ -603,7 +616,7 @@ type Wrapper struct {
 
 // NewWrapper returns a new Wrapper expression when it's required.
 func NewWrapper(arg Expression) Expression {
-	switch value := arg.(type) {
+	switch value := withoutComment(arg).(type) {
 	case Select:
 		return &Wrapper{
 			Value: value,
@@ -650,15 +663,17 @@ type Call struct {
 
 // NewCall returns a new Call.
 func NewCall(function string, args ...Expression) Call {
+	copied := make([]Expression, len(args))
 	for i := range args {
 		if args[i] == nil {
 			panic("loukoum: a call expects arguments which are not nil")
 		}
+		copied[i] = withoutComment(args[i])
 	}
 
 	return Call{
 		function: function,
-		args:     append([]Expression{}, args...),
+		args:     copied,
 	}
 }
 
diff --git a/stmt/having.go b/stmt/having.go
index 0bb449d..105b4fc 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -18,7 +18,7 @@ func NewHaving(expression Expression) Having {
 	}
 
 	return Having{
-		Condition: expression,
+		Condition: withParenthesis(expression),
 	}
 }
 
diff --git a/stmt/in.go b/stmt/in.go
index 17f937b..4bae1aa 100644
--- a/stmt/in.go
+++ b/stmt/in.go
@@ -14,18 +14,18 @@ type In struct {
 // NewIn returns a new In instance using an inclusive operator.
 func NewIn(expression Expression, value Expression) In {
 	return In{
-		Expression: expression,
+		Expression: withParenthesis(expression),
 		Operator:   NewComparisonOperator(types.In),
-		Value:      value,
+		Value:      withoutComment(value),
 	}
 }
 
 // NewNotIn returns a new In instance using an exclusive operator.
 func NewNotIn(expression Expression, value Expression) In {
 	return In{
-		Expression: expression,
+		Expression: withParenthesis(expression),
 		Operator:   NewComparisonOperator(types.NotIn),
-		Value:      value,
+		Value:      withoutComment(value),
 	}
 }
 
diff --git a/stmt/infix.go b/stmt/infix.go
index 09841b9..14fb623 100644
--- a/stmt/infix.go
+++ b/stmt/infix.go
@@ -15,9 +15,9 @@ type InfixExpression struct {
 // NewInfixExpression returns a new InfixExpression instance.
 func NewInfixExpression(left Expression, operator Operator, right Expression) InfixExpression {
 	return InfixExpression{
-		Left:     left,
+		Left:     withParenthesis(left),
 		Operator: operator,
-		Right:    right,
+		Right:    withParenthesis(right),
 	}
 }
 
diff --git a/stmt/join.go b/stmt/join.go
index e35fdc8..d328a1e 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -17,7 +17,7 @@ func NewJoin(kind types.JoinType, table Table, condition Expression) Join {
 	return Join{
 		Type:      kind,
 		Table:     table,
-		Condition: condition,
+		Condition: withParenthesis(condition),
 	}
 }
 
-- 
2.43.0


From 00ebb2b3ffe2a149f902b57b13e52982969dc5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 44/45] fix: reject a nil pointer given as an expression
 instead of dereferencing it

---
 builder/builder.go   |  6 +++---
 builder/undefined.go | 14 ++++++++++++++
 stmt/between.go      |  2 +-
 stmt/expression.go   | 12 ++++++++++--
 stmt/having.go       |  8 ++++----
 stmt/in.go           |  2 +-
 stmt/infix.go        |  3 +--
 stmt/join.go         |  2 +-
 stmt/on.go           |  3 +--
 stmt/undefined.go    | 30 ++++++++++++++++++++++++++++++
 stmt/where.go        |  8 ++++----
 stmt/with.go         |  2 +-
 12 files changed, 71 insertions(+), 21 deletions(-)
 create mode 100644 builder/undefined.go
 create mode 100644 stmt/undefined.go

diff --git a/builder/builder.go b/builder/builder.go
index 5bcdcd1..070efd6 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -139,7 +139,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
 			for i := range array {
-				if array[i] == nil || array[i].IsEmpty() {
+				if isNil(array[i]) || array[i].IsEmpty() {
 					panic("loukoum: given column is undefined")
 				}
 			}
@@ -171,7 +171,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	for i := range values {
 		switch value := values[i].(type) {
 		case stmt.SelectExpression:
-			if value.IsEmpty() {
+			if isNil(value) || value.IsEmpty() {
 				panic("loukoum: given column is undefined")
 			}
 			columns = append(columns, value)
@@ -242,7 +242,7 @@ func ToFrom(args ...interface{}) stmt.From {
 	}
 
 	for i := range tables {
-		if tables[i] == nil || tables[i].IsEmpty() {
+		if isNil(tables[i]) || tables[i].IsEmpty() {
 			panic("loukoum: given from clause is undefined")
 		}
 	}
diff --git a/builder/undefined.go b/builder/undefined.go
new file mode 100644
index 0000000..01374c6
--- /dev/null
+++ b/builder/undefined.go
@@ -0,0 +1,14 @@
+package builder
+
+import (
+	"reflect"
+)
+
+// isNil returns true if given argument is nil or a nil pointer.
+func isNil(arg interface{}) bool {
+	if arg == nil {
+		return true
+	}
+	value := reflect.ValueOf(arg)
+	return value.Kind() == reflect.Ptr && value.IsNil()
+}
diff --git a/stmt/between.go b/stmt/between.go
index e9fe5dc..7bcf99d 100644
--- a/stmt/between.go
+++ b/stmt/between.go
@@ -59,7 +59,7 @@ func (between Between) Write(ctx types.Context) {
 // IsEmpty returns true if statement is undefined.
 func (between Between) IsEmpty() bool {
 	return between.Identifier.IsEmpty() || between.Operator.IsEmpty() || between.And.IsEmpty() ||
-		between.From == nil || between.To == nil || between.From.IsEmpty() || between.To.IsEmpty()
+		isUndefined(between.From) || isUndefined(between.To)
 }
 
 // Ensure that Between is an Expression
diff --git a/stmt/expression.go b/stmt/expression.go
index d87c8a8..ffe3682 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -22,6 +22,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	}
 	switch value := arg.(type) {
 	case Expression:
+		if isNil(value) {
+			panic(fmt.Sprintf("loukoum: cannot use a nil %T as expression", arg))
+		}
 		return withoutComment(value)
 	case string, bool, int, int8, int16, int32, int64,
 		uint, uint8, uint16, uint32, uint64, float32, float64,
@@ -37,6 +40,7 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		}
 		return NewValue(*value)
 	case StatementEncoder:
+		rejectNilReceiver(value, "Statement")
 		stmt := value.Statement()
 		expression, ok := stmt.(Expression)
 		if !ok {
@@ -44,12 +48,16 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		}
 		return withoutComment(expression)
 	case Int64Encoder:
+		rejectNilReceiver(value, "Int64")
 		return NewValue(value.Int64())
 	case BoolEncoder:
+		rejectNilReceiver(value, "Bool")
 		return NewValue(value.Bool())
 	case TimeEncoder:
+		rejectNilReceiver(value, "Time")
 		return NewValue(value.Time())
 	case StringEncoder:
+		rejectNilReceiver(value, "String")
 		return NewValue(value.String())
 	default:
 		panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))
@@ -119,7 +127,7 @@ func (identifier Identifier) IsEmpty() bool {
 	case string:
 		return t == ""
 	case Statement:
-		return t.IsEmpty()
+		return isUndefined(t)
 	default:
 		return false
 	}
@@ -665,7 +673,7 @@ type Call struct {
 func NewCall(function string, args ...Expression) Call {
 	copied := make([]Expression, len(args))
 	for i := range args {
-		if args[i] == nil {
+		if isNil(args[i]) {
 			panic("loukoum: a call expects arguments which are not nil")
 		}
 		copied[i] = withoutComment(args[i])
diff --git a/stmt/having.go b/stmt/having.go
index 105b4fc..b5687a0 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -13,7 +13,7 @@ type Having struct {
 
 // NewHaving returns a new Having instance.
 func NewHaving(expression Expression) Having {
-	if expression == nil || expression.IsEmpty() {
+	if isUndefined(expression) {
 		panic("loukoum: a having clause expects at least one condition")
 	}
 
@@ -35,12 +35,12 @@ func (having Having) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (having Having) IsEmpty() bool {
-	return having.Condition == nil || having.Condition.IsEmpty()
+	return isUndefined(having.Condition)
 }
 
 // And appends given Expression using AND as logical operator.
 func (having Having) And(right Expression) Having {
-	if having.IsEmpty() || right == nil || right.IsEmpty() {
+	if having.IsEmpty() || isUndefined(right) {
 		panic("loukoum: two conditions are required for AND statement")
 	}
 
@@ -52,7 +52,7 @@ func (having Having) And(right Expression) Having {
 
 // Or appends given Expression using OR as logical operator.
 func (having Having) Or(right Expression) Having {
-	if having.IsEmpty() || right == nil || right.IsEmpty() {
+	if having.IsEmpty() || isUndefined(right) {
 		panic("loukoum: two conditions are required for OR statement")
 	}
 
diff --git a/stmt/in.go b/stmt/in.go
index 4bae1aa..9f3230b 100644
--- a/stmt/in.go
+++ b/stmt/in.go
@@ -50,7 +50,7 @@ func (in In) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (in In) IsEmpty() bool {
-	return in.Expression == nil || in.Expression.IsEmpty() || in.Operator.IsEmpty() || in.Value == nil
+	return isUndefined(in.Expression) || in.Operator.IsEmpty() || isNil(in.Value)
 }
 
 // And creates a new InfixExpression using given Expression.
diff --git a/stmt/infix.go b/stmt/infix.go
index 14fb623..d326de1 100644
--- a/stmt/infix.go
+++ b/stmt/infix.go
@@ -40,8 +40,7 @@ func (expression InfixExpression) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (expression InfixExpression) IsEmpty() bool {
-	return expression.Left == nil || expression.Operator == nil || expression.Right == nil ||
-		expression.Left.IsEmpty() || expression.Operator.IsEmpty() || expression.Right.IsEmpty()
+	return isUndefined(expression.Left) || isUndefined(expression.Operator) || isUndefined(expression.Right)
 }
 
 // And creates a new InfixExpression using given Expression.
diff --git a/stmt/join.go b/stmt/join.go
index d328a1e..270894c 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -49,7 +49,7 @@ func (join Join) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (join Join) IsEmpty() bool {
-	return join.Type == "" || join.Table.IsEmpty() || join.Condition == nil || join.Condition.IsEmpty()
+	return join.Type == "" || join.Table.IsEmpty() || isUndefined(join.Condition)
 }
 
 // Ensure that Join is a Statement
diff --git a/stmt/on.go b/stmt/on.go
index ab94c81..99c808b 100644
--- a/stmt/on.go
+++ b/stmt/on.go
@@ -96,8 +96,7 @@ func (expression InfixOnExpression) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (expression InfixOnExpression) IsEmpty() bool {
-	return expression.Left == nil || expression.Right == nil ||
-		expression.Left.IsEmpty() || expression.Operator.IsEmpty() || expression.Right.IsEmpty()
+	return isUndefined(expression.Left) || expression.Operator.IsEmpty() || isUndefined(expression.Right)
 }
 
 // And creates a new InfixOnExpression using given OnExpression.
diff --git a/stmt/undefined.go b/stmt/undefined.go
new file mode 100644
index 0000000..b2d927f
--- /dev/null
+++ b/stmt/undefined.go
@@ -0,0 +1,30 @@
+package stmt
+
+import (
+	"fmt"
+	"reflect"
+)
+
+// isUndefined returns true if given statement is nil (even as a pointer) or empty.
+func isUndefined(statement Statement) bool {
+	return isNil(statement) || statement.IsEmpty()
+}
+
+// isNil returns true if given argument is nil or a nil pointer.
+func isNil(arg interface{}) bool {
+	if arg == nil {
+		return true
+	}
+	value := reflect.ValueOf(arg)
+	return value.Kind() == reflect.Ptr && value.IsNil()
+}
+
+// rejectNilReceiver panics if given encoder is a nil pointer and its method requires a value.
+func rejectNilReceiver(encoder interface{}, method string) {
+	if isNil(encoder) {
+		_, ok := reflect.TypeOf(encoder).Elem().MethodByName(method)
+		if ok {
+			panic(fmt.Sprintf("loukoum: cannot use a nil %T as expression", encoder))
+		}
+	}
+}
diff --git a/stmt/where.go b/stmt/where.go
index 1a63f82..30e4014 100644
--- a/stmt/where.go
+++ b/stmt/where.go
@@ -12,7 +12,7 @@ type Where struct {
 
 // NewWhere returns a new Where instance.
 func NewWhere(expression Expression) Where {
-	if expression == nil || expression.IsEmpty() {
+	if isUndefined(expression) {
 		panic("loukoum: a where clause expects at least one condition")
 	}
 
@@ -34,12 +34,12 @@ func (where Where) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (where Where) IsEmpty() bool {
-	return where.Condition == nil || where.Condition.IsEmpty()
+	return isUndefined(where.Condition)
 }
 
 // And appends given Expression using AND as logical operator.
 func (where Where) And(right Expression) Where {
-	if where.IsEmpty() || right == nil || right.IsEmpty() {
+	if where.IsEmpty() || isUndefined(right) {
 		panic("loukoum: two conditions are required for AND statement")
 	}
 
@@ -51,7 +51,7 @@ func (where Where) And(right Expression) Where {
 
 // Or appends given Expression using OR as logical operator.
 func (where Where) Or(right Expression) Where {
-	if where.IsEmpty() || right == nil || right.IsEmpty() {
+	if where.IsEmpty() || isUndefined(right) {
 		panic("loukoum: two conditions are required for OR statement")
 	}
 
diff --git a/stmt/with.go b/stmt/with.go
index 3ab0612..1f3fbfb 100644
--- a/stmt/with.go
+++ b/stmt/with.go
@@ -58,7 +58,7 @@ func (with WithQuery) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (with WithQuery) IsEmpty() bool {
-	return with.Name == "" || with.Subquery == nil || (with.Subquery != nil && with.Subquery.IsEmpty())
+	return with.Name == "" || isUndefined(with.Subquery)
 }
 
 // NewWithQuery returns a new WithQuery instance.
-- 
2.43.0


From 4a69afac6af180ad1f03085a4dd4552c6ff5b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:51 +0000
Subject: [PATCH 45/45] fix: reject an undefined from clause given with other
 tables instead of ignoring it

---
 builder/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 070efd6..3f33f51 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -231,6 +231,9 @@ func ToFrom(args ...interface{}) stmt.From {
 		case string:
 			tables = append(tables, stmt.NewTable(value))
 		case stmt.From:
+			if value.IsEmpty() {
+				panic("loukoum: given from clause is undefined")
+			}
 			tables = append(tables, value.Tables...)
 		case stmt.Table:
 			tables = append(tables, value)
-- 
2.43.0

