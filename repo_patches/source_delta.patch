From 87f69c9c3ff40b5f5532b1e935b97503eab5fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 01/51] fix: decode every Go escape sequence and keep non-ASCII
 bytes of string literals

---
 lexer/lexer.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 330a093..b677293 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -250,32 +250,35 @@ func Tokenize(source string) ([]Token, error) {
 
 		if raw := c0 == "`"; raw || c0 == `"` {
 			// Evaluate string.
-			str := ""
+			str := strings.Builder{}
 			i++
 
 			for i < sourceLength {
 				c0 = char(source, i)
-				appended := false
 
-				if match := regexp.MustCompile(`^\\.`).FindString(source[i:]); !raw && match != "" {
-					// Convert escaped character to be a control character (https://pkg.go.dev/strconv#Unquote).
-					parsed, err := strconv.Unquote(fmt.Sprintf(`"%s"`, match))
+				if !raw && c0 == `\` {
+					// Convert escape sequence to the character it stands for (https://pkg.go.dev/strconv#UnquoteChar).
+					value, multibyte, tail, err := strconv.UnquoteChar(source[i:], '"')
 
 					if err != nil {
-						return nil, fmt.Errorf(`invalid escape sequence "%s"`, match)
+						return nil, fmt.Errorf(`invalid escape sequence at row %d, column %d`, ogRow, ogColumn)
 					}
-					str += parsed
-					i += len(match)
-					appended = true
+					if multibyte {
+						str.WriteRune(value)
+					} else {
+						str.WriteByte(byte(value))
+					}
+					i = sourceLength - len(tail)
 				} else if (raw && c0 == "`") || (!raw && c0 == `"`) {
 					// Detected string end.
 					i++
-					token = newToken(str, STRING_LITERAL, ogRow, ogColumn)
+					token = newToken(str.String(), STRING_LITERAL, ogRow, ogColumn)
 					break
-				}
-
-				if !appended {
-					str += c0
+				} else {
+					// Carriage returns are discarded from raw strings (https://go.dev/ref/spec#String_literals).
+					if !raw || c0 != "\r" {
+						str.WriteByte(source[i])
+					}
 					i++
 				}
 			}
-- 
2.43.0


From 4b997f9379b52800c5b1492b4fdc4fa8dd8c0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 02/51] fix: end a block comment at its first terminator

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index b677293..85ef83b 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -287,7 +287,7 @@ func Tokenize(source string) ([]Token, error) {
 				err = fmt.Errorf("string at row %d, column %d has not been terminated", ogRow, ogColumn)
 				break
 			}
-		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
+		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			match := matches[0]
-- 
2.43.0


From caf14e2886cc1b317be78658c484f745ce2330e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 03/51] fix: do not split identifiers starting with true or
 false

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 85ef83b..7fdac22 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -301,7 +301,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
-		} else if match := regexp.MustCompile(`^(true|false)`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^(true|false)\b`).FindString(source[i:]); match != "" {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From 33ca2c2e75758c36f838c37fb1a5fcb11df11c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 04/51] fix: report the position behind multi-line comments and
 strings

---
 lexer/lexer.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 7fdac22..6ba06d6 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -290,13 +290,7 @@ func Tokenize(source string) ([]Token, error) {
 		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-			match := matches[0]
-			lines := strings.Split(match, "\n")
-			lastLinesIndex := len(lines) - 1
-			row += lastLinesIndex
-			ogColumn = startIndex
-			i += len(match)
-			ogI = i - len(lines[lastLinesIndex])
+			i += len(matches[0])
 		} else if matches := regexp.MustCompile(`^\/\/(.*)`).FindStringSubmatch(source[i:]); matches != nil {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
@@ -348,11 +342,14 @@ func Tokenize(source string) ([]Token, error) {
 			}
 		}
 
-		if token.tokenType == NEWLINE {
-			row++
-			column = startIndex
+		// Move position behind the token which might span several lines (e.g. comments and strings).
+		consumed := source[ogI:i]
+
+		if lastNewline := strings.LastIndex(consumed, "\n"); lastNewline >= 0 {
+			row += strings.Count(consumed, "\n")
+			column = len(consumed) - lastNewline
 		} else {
-			column = ogColumn + (i - ogI)
+			column = ogColumn + len(consumed)
 		}
 
 		// If still no token has been found, exit with error.
-- 
2.43.0


From 4447e13a88571708ba8955ad47df549294684f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 05/51] fix: lex a minus behind an operand as operator even if
 a digit follows

---
 lexer/lexer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 6ba06d6..5c90746 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -230,6 +230,24 @@ func char(s string, position int) string {
 	return c
 }
 
+// endsOperand returns true if the last token ends an operand which means that a following minus is an operator.
+func endsOperand(tokens []Token) bool {
+	length := len(tokens)
+
+	if length == 0 {
+		return false
+	}
+	return slices.Contains([]TokenType{
+		IDENTIFIER,
+		BOOL_LITERAL,
+		NUMBER_LITERAL,
+		STRING_LITERAL,
+		NIL_LITERAL,
+		CLOSING_ROUND_BRACKET,
+		CLOSING_SQUARE_BRACKET,
+	}, tokens[length-1].tokenType)
+}
+
 func Tokenize(source string) ([]Token, error) {
 	var err error = nil
 	tokens := []Token{}
@@ -299,7 +317,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" && !(c0 == "-" && endsOperand(tokens)) {
 			// Create number token.
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From 0fc21eace79c64e067f62216fba665d133572bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 06/51] fix: reject unterminated block comments

---
 lexer/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5c90746..b59be88 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -309,6 +309,9 @@ func Tokenize(source string) ([]Token, error) {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
+		} else if strings.HasPrefix(source[i:], "/*") {
+			err = fmt.Errorf("comment at row %d, column %d has not been terminated", ogRow, ogColumn)
+			break
 		} else if matches := regexp.MustCompile(`^\/\/(.*)`).FindStringSubmatch(source[i:]); matches != nil {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-- 
2.43.0


From 88696c2f5cab57f0dde047c948059f43524f8f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 07/51] fix: evaluate chained comparisons from left to right

---
 parser/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 819565f..509f2b5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2260,12 +2260,17 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 	if err != nil {
 		return nil, err
 	}
-	operatorToken := p.peek()
-	operator := operatorToken.Value()
 
-	if operatorToken.Type() == lexer.COMPARE_OPERATOR {
+	// To implement associativity, use for-loop and keep appending same prio-expressions.
+	for {
+		operatorToken := p.peek()
+		operator := operatorToken.Value()
+
+		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
+			break
+		}
 		p.eat() // Eat operator token.
-		rightExpression, err := p.evaluateComparison(ctx)
+		rightExpression, err := p.evaluateAddition(ctx)
 
 		if err != nil {
 			return nil, err
@@ -2281,7 +2286,7 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if !slices.Contains(allowedOperators, operator) {
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
-		return NewComparison(leftExpression, operator, rightExpression), nil
+		leftExpression = NewComparison(leftExpression, operator, rightExpression)
 	}
 	return leftExpression, nil
 }
-- 
2.43.0


From 3a44c4187334399555c6c7159d9b95361bc892c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 08/51] fix: accept repeated negation

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 509f2b5..e59332f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2089,16 +2089,18 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
 	nextToken := p.peek()
 	negate := false
+	evaluateOperand := p.evaluateSingleExpression
 
 	if nextToken.Type() == lexer.UNARY_OPERATOR {
 		// Use nested if for possible future unary operators.
 		if nextToken.Value() == UNARY_OPERATOR_NEGATE {
 			negate = true
+			evaluateOperand = p.evaluateUnaryOperation // The operand might be a unary operation itself (e.g. !!x).
 			p.eat()
 		}
 	}
 	valueToken := p.peek()
-	expr, err := p.evaluateSingleExpression(ctx)
+	expr, err := evaluateOperand(ctx)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From cdaa64cd16a511db5b793fcf23b2bfcbfb37b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 09/51] fix: check the type of the right operand of a logical
 operation

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index e59332f..f903609 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2313,11 +2313,16 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		}
 		p.eat() // Eat operator token.
 		operatorValue := operatorToken.Value()
+		rightToken := p.peek()
 		rightExpression, errTemp := higherPrioOperation(ctx)
 
 		if errTemp != nil {
 			return nil, errTemp
 		}
+
+		if !rightExpression.ValueType().IsBool() {
+			return nil, p.expectedError("boolean value", rightToken)
+		}
 		leftExpression = LogicalOperation{
 			left:     leftExpression,
 			operator: operatorValue,
-- 
2.43.0


From c3f9c88090b6762e604d2821380c2797238714ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 10/51] fix: check the types of written data, input prompts and
 slice elements

---
 parser/parser.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f903609..ba5fd59 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2727,11 +2727,11 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 	if err != nil {
 		return nil, err
 	}
-	variableDataType := variableValueType.DataType()
-	assignedDataType := value.ValueType().DataType()
+	elementValueType := NewValueType(variableValueType.DataType(), false)
+	assignedValueType := value.ValueType()
 
-	if variableDataType != assignedDataType {
-		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", variableDataType, assignedDataType), valueToken)
+	if !elementValueType.Equals(assignedValueType) {
+		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", elementValueType.String(), assignedValueType.String()), valueToken)
 	}
 	return SliceAssignment{
 		Variable: variable,
@@ -2796,6 +2796,10 @@ func (p *Parser) evaluateInput(ctx context) (Expression, error) {
 
 		if len(expressions) > 0 {
 			expr = expressions[0]
+
+			if !expr.ValueType().IsString() {
+				return nil, p.expectedError("prompt string", keywordToken)
+			}
 		}
 		return Input{
 			prompt: expr,
@@ -2923,7 +2927,7 @@ func (p *Parser) evaluateWrite(ctx context) (Expression, error) {
 		}
 		data := expressions[1]
 
-		if !path.ValueType().IsString() {
+		if !data.ValueType().IsString() {
 			return nil, p.expectedError("data string as second parameter", keywordToken)
 		}
 		var append Expression = BooleanLiteral{false}
-- 
2.43.0


From b591c0d804222a2e3860fa0a198cd6c1e83203e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 11/51] fix: reject void and multi-value calls where a single
 value is required

---
 parser/function.go |  4 +++-
 parser/parser.go   | 36 ++++++++++++++++++++++++++++++++----
 parser/types.go    |  4 ++++
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/parser/function.go b/parser/function.go
index c330183..b59141a 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -67,8 +67,10 @@ func functionValueType(returnTypes []ValueType) ValueType {
 
 	if len(returnTypes) > 1 {
 		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
-	} else {
+	} else if len(returnTypes) == 1 {
 		valueType = returnTypes[0]
+	} else {
+		valueType = NewValueType(DATA_TYPE_UNKNOWN, false) // Function doesn't return a value.
 	}
 	return valueType
 }
diff --git a/parser/parser.go b/parser/parser.go
index ba5fd59..cc02cfb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -503,6 +503,7 @@ func (p *Parser) evaluateVarNames() ([]lexer.Token, error) {
 }
 
 func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
+	valuesToken := p.peek()
 	expressions := []Expression{}
 
 	for {
@@ -538,9 +539,32 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 			return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, funcName), exprToken)
 		}
 	}
-	return evaluatedValues{
+	evaluatedVals := evaluatedValues{
 		values: expressions,
-	}, nil
+	}
+
+	// Except for a single multi-return call, every expression must provide exactly one value.
+	if isMultiReturnCall, _ := evaluatedVals.isMultiReturnCall(); !isMultiReturnCall {
+		for _, expr := range expressions {
+			if !expr.ValueType().isSingleValue() {
+				return evaluatedValues{}, p.expectedError("expressions with exactly one value", valuesToken)
+			}
+		}
+	}
+	return evaluatedVals, nil
+}
+
+func (p *Parser) evaluateSingleValue(ctx context) (Expression, error) {
+	valueToken := p.peek()
+	expr, err := p.evaluateExpression(ctx)
+
+	if err != nil {
+		return nil, err
+	}
+	if !expr.ValueType().isSingleValue() {
+		return nil, p.expectedError("expression with exactly one value", valueToken)
+	}
+	return expr, nil
 }
 
 func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword string, minArgs int, maxArg int, ctx context, stmtCallout func(keywordToken lexer.Token, expressions []Expression) (Statement, error)) (Statement, error) {
@@ -561,11 +585,15 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 	// Evaluate arguments if it's a print call with arguments.
 	if nextToken.Type() != lexer.CLOSING_ROUND_BRACKET {
 		for {
+			argToken := p.peek()
 			expr, err := p.evaluateExpression(ctx)
 
 			if err != nil {
 				return nil, err
 			}
+			if expr.ValueType().DataType() == DATA_TYPE_UNKNOWN {
+				return nil, p.expectedError("expression with a value", argToken)
+			}
 			expressions = append(expressions, expr)
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
@@ -1621,7 +1649,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if exprToken.Type() == lexer.OPENING_CURLY_BRACKET {
 		switchExpr = BooleanLiteral{true}
 	} else {
-		switchExpr, err = p.evaluateExpression(ctx)
+		switchExpr, err = p.evaluateSingleValue(ctx)
 
 		if err != nil {
 			return nil, err
@@ -2355,7 +2383,7 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 	for nextToken.Type() != lexer.CLOSING_ROUND_BRACKET {
 		var expr Expression
 		argToken := nextToken
-		expr, err = p.evaluateExpression(ctx)
+		expr, err = p.evaluateSingleValue(ctx)
 
 		if err != nil {
 			return nil, err
diff --git a/parser/types.go b/parser/types.go
index a38d93a..2799210 100644
--- a/parser/types.go
+++ b/parser/types.go
@@ -54,6 +54,10 @@ func (vt ValueType) IsString() bool {
 	return vt.isNonSliceType(DATA_TYPE_STRING)
 }
 
+func (vt ValueType) isSingleValue() bool {
+	return vt.DataType() != DATA_TYPE_UNKNOWN && vt.DataType() != DATA_TYPE_MULTIPLE
+}
+
 func (vt ValueType) isNonSliceType(dataType DataType) bool {
 	return vt.DataType() == dataType && !vt.IsSlice()
 }
-- 
2.43.0


From e46464459ad84e171483edf5c5f79004c1957bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 12/51] fix: check return statements at every depth and allow
 them in functions without return values

---
 parser/literals.go |  1 +
 parser/parser.go   | 91 +++++++++++++++++++++++++---------------------
 2 files changed, 51 insertions(+), 41 deletions(-)

diff --git a/parser/literals.go b/parser/literals.go
index 8171ee3..f3eebdc 100644
--- a/parser/literals.go
+++ b/parser/literals.go
@@ -34,6 +34,7 @@ func (l IntegerLiteral) Value() int {
 
 type StringLiteral struct {
 	value string
+	isNil bool
 }
 
 func (l StringLiteral) StatementType() StatementType {
diff --git a/parser/parser.go b/parser/parser.go
index cc02cfb..7168c17 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -183,12 +183,14 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
-	tokens    []lexer.Token
-	index     int
-	path      string
-	prefix    string
-	currFunc  string
-	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
+	tokens   []lexer.Token
+	index    int
+	path     string
+	prefix   string
+	currFunc string
+	// Stores the return types of the function which is currently being evaluated.
+	currReturnTypes []ValueType
+	usedFuncs       map[string][]string // Stores which function (key) calls which functions (values).
 }
 
 func New() Parser {
@@ -1459,39 +1461,18 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 	// Make sure sub-statements know in which function they are currently in.
 	p.currFunc = prefixedName
 
+	p.currReturnTypes = returnTypes
+
 	statements, err := p.evaluateBlock(func(statements []Statement, last bool) error {
-		var errTemp error
-		var lastStatement Statement
 		length := len(statements)
 
-		if length > 0 {
-			lastStatement = statements[length-1]
-		}
-
-		if len(returnTypes) > 0 {
-			// If a return value is required, the last statement must be a return statement.
-			if last {
-				// TODO: Add token position to errors to raise clearer error messages.
-				if lastStatement == nil || lastStatement.StatementType() != STATEMENT_TYPE_RETURN {
-					errTemp = fmt.Errorf(`function "%s" requires a return statement at the end of the block`, name)
-				} else if returnStatement := lastStatement.(Return); len(returnStatement.Values()) != len(returnTypes) {
-					errTemp = fmt.Errorf(`function "%s" requires %d return values but returns %d`, name, len(returnTypes), len(returnStatement.Values()))
-				} else {
-					for i, returnValue := range returnStatement.Values() {
-						returnType := returnTypes[i]
-						returnValueType := returnValue.ValueType()
-
-						if !returnValueType.Equals(returnType) {
-							errTemp = fmt.Errorf(`function "%s" returns %s but expects %s`, name, returnValueType.String(), returnType.String())
-							break
-						}
-					}
-				}
-			}
-		} else if lastStatement != nil && lastStatement.StatementType() == STATEMENT_TYPE_RETURN {
-			errTemp = fmt.Errorf("function %s must not have a return statement", name)
+		// If a return value is required, the last statement must be a return statement. The returned values themselves are
+		// checked when the return statement is evaluated.
+		if last && len(returnTypes) > 0 && (length == 0 || statements[length-1].StatementType() != STATEMENT_TYPE_RETURN) {
+			// TODO: Add token position to errors to raise clearer error messages.
+			return fmt.Errorf(`function "%s" requires a return statement at the end of the block`, name)
 		}
-		return errTemp
+		return nil
 	}, ctx, SCOPE_FUNCTION)
 
 	if err != nil {
@@ -1517,13 +1498,41 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 	if returnToken.Type() != lexer.RETURN {
 		return nil, p.expectedKeywordError("return", returnToken)
 	}
-	evaluatedVals, err := p.evaluateValues(ctx)
+	values := []Expression{}
 
-	if err != nil {
-		return nil, err
+	// A return statement without values ends with the line or the block.
+	if !slices.Contains([]lexer.TokenType{lexer.NEWLINE, lexer.EOF, lexer.CLOSING_CURLY_BRACKET, lexer.CASE, lexer.DEFAULT}, p.peek().Type()) {
+		evaluatedVals, err := p.evaluateValues(ctx)
+
+		if err != nil {
+			return nil, err
+		}
+		values = evaluatedVals.values
+	}
+	returnTypes := p.currReturnTypes
+	returnTypesLen := len(returnTypes)
+	valuesLen := len(values)
+
+	if valuesLen != returnTypesLen {
+		return nil, p.expectedError(fmt.Sprintf("%d return values but got %d", returnTypesLen, valuesLen), returnToken)
+	}
+
+	for i, value := range values {
+		returnType := returnTypes[i]
+
+		// nil is also a valid return value for slices.
+		if literal, ok := value.(StringLiteral); ok && literal.isNil && returnType.IsSlice() {
+			value = SliceInstantiation{dataType: returnType.DataType()}
+			values[i] = value
+		}
+		valueType := value.ValueType()
+
+		if !valueType.Equals(returnType) {
+			return nil, p.expectedError(fmt.Sprintf("%s as return value but got %s", returnType.String(), valueType.String()), returnToken)
+		}
 	}
 	return Return{
-		values: evaluatedVals.values,
+		values: values,
 	}, nil
 }
 
@@ -2025,8 +2034,8 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 			value: integer,
 		}
 	case lexer.NIL_LITERAL:
-		p.eat()                // Eat string token.
-		expr = StringLiteral{} // nil is an empty string literal.
+		p.eat()                           // Eat string token.
+		expr = StringLiteral{isNil: true} // nil is an empty string literal.
 	case lexer.STRING_LITERAL:
 		p.eat() // Eat string token.
 		expr = StringLiteral{
-- 
2.43.0


From 6bc2b45d0431c547874cf192f1c3ddb425476280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 13/51] fix: bound the nesting depth of statements and
 expressions

---
 parser/binaryoperation.go | 12 +++++-
 parser/parser.go          | 79 ++++++++++++++++++++++++++-------------
 2 files changed, 63 insertions(+), 28 deletions(-)

diff --git a/parser/binaryoperation.go b/parser/binaryoperation.go
index dbe5eb3..a03eb96 100644
--- a/parser/binaryoperation.go
+++ b/parser/binaryoperation.go
@@ -4,6 +4,16 @@ type BinaryOperation struct {
 	left      Expression
 	operator  BinaryOperator
 	right     Expression
+	valueType ValueType
+}
+
+func NewBinaryOperation(left Expression, operator BinaryOperator, right Expression) BinaryOperation {
+	return BinaryOperation{
+		left,
+		operator,
+		right,
+		left.ValueType(),
+	}
 }
 
 func (b BinaryOperation) StatementType() StatementType {
@@ -11,7 +21,7 @@ func (b BinaryOperation) StatementType() StatementType {
 }
 
 func (b BinaryOperation) ValueType() ValueType {
-	return b.left.ValueType()
+	return b.valueType
 }
 
 func (b BinaryOperation) Left() Expression {
diff --git a/parser/parser.go b/parser/parser.go
index 7168c17..c9f68ac 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -182,12 +182,16 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 
 type blockCallback func(statements []Statement, last bool) error
 
+// MAX_NESTING_DEPTH is the deepest supported nesting of statements and expressions.
+const MAX_NESTING_DEPTH = 10000
+
 type Parser struct {
 	tokens   []lexer.Token
 	index    int
 	path     string
 	prefix   string
 	currFunc string
+	depth    int // Stores how deep the statement/expression which is currently being evaluated is nested.
 	// Stores the return types of the function which is currently being evaluated.
 	currReturnTypes []ValueType
 	usedFuncs       map[string][]string // Stores which function (key) calls which functions (values).
@@ -314,13 +318,7 @@ func incrementDecrementStatement(variable Variable, increment bool) Statement {
 	return VariableAssignment{
 		variables: []Variable{variable},
 		values: []Expression{
-			BinaryOperation{
-				left: VariableEvaluation{
-					Variable: variable,
-				},
-				operator: operation,
-				right:    IntegerLiteral{value: 1},
-			},
+			NewBinaryOperation(VariableEvaluation{variable}, operation, IntegerLiteral{value: 1}),
 		},
 	}
 }
@@ -424,6 +422,19 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+func (p *Parser) nest() error {
+	p.depth++
+
+	if p.depth > MAX_NESTING_DEPTH {
+		return p.atError("statements or expressions are nested too deep", p.peek())
+	}
+	return nil
+}
+
+func (p *Parser) unnest(depth int) {
+	p.depth = depth
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -1247,11 +1258,7 @@ func (p *Parser) evaluateCompoundAssignment(ctx context) (Statement, error) {
 	return VariableAssignment{
 		variables: []Variable{definedVariable},
 		values: []Expression{
-			BinaryOperation{
-				left:     VariableEvaluation{definedVariable},
-				operator: binaryOperator,
-				right:    values[0],
-			},
+			NewBinaryOperation(VariableEvaluation{definedVariable}, binaryOperator, values[0]),
 		},
 	}, nil
 }
@@ -2124,6 +2131,11 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 // Learnt a lot about priority handling from this video https://www.youtube.com/watch?v=aAvL2BTHf60.
 // Precedence is the same as in Go (https://go.dev/ref/spec#Operator_precedence).
 func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
+	defer p.unnest(p.depth)
+
+	if err := p.nest(); err != nil {
+		return nil, err
+	}
 	nextToken := p.peek()
 	negate := false
 	evaluateOperand := p.evaluateSingleExpression
@@ -2179,6 +2191,11 @@ func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
 }
 
 func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
+	defer p.unnest(p.depth)
+
+	if err := p.nest(); err != nil {
+		return nil, err
+	}
 	var stmt Statement
 	var err error
 
@@ -2247,6 +2264,8 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 	if higherPrioOperation == nil {
 		return nil, errors.New("missing higher precedence callout")
 	}
+	defer p.unnest(p.depth)
+
 	// Call higherPrioOperation first as it has higher precedence and higher precedence means it must
 	// be processed further down the chain. Learnt a lot about priority handling from this video
 	// https://www.youtube.com/watch?v=aAvL2BTHf60.
@@ -2264,6 +2283,9 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 		if operatorToken.Type() != lexer.BINARY_OPERATOR || !slices.Contains(allowedOperators, operator) {
 			break
 		}
+		if err := p.nest(); err != nil {
+			return nil, err
+		}
 		p.eat() // Eat operator token.
 		rightExpression, err := higherPrioOperation(ctx)
 
@@ -2281,16 +2303,14 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 		if !slices.Contains(allowedTypeOperators, operator) {
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
-		leftExpression = BinaryOperation{
-			left:     leftExpression,
-			operator: operator,
-			right:    rightExpression,
-		}
+		leftExpression = NewBinaryOperation(leftExpression, operator, rightExpression)
 	}
 	return leftExpression, nil
 }
 
 func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
+	defer p.unnest(p.depth)
+
 	// Call evaluateAddition first as it has higher precedence and higher precedence means it must
 	// be processed further down the chain. Learnt a lot about priority handling from this video
 	// https://www.youtube.com/watch?v=aAvL2BTHf60.
@@ -2308,6 +2328,9 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
 			break
 		}
+		if err := p.nest(); err != nil {
+			return nil, err
+		}
 		p.eat() // Eat operator token.
 		rightExpression, err := p.evaluateAddition(ctx)
 
@@ -2331,6 +2354,8 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 }
 
 func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator, higherPrioOperation func(ctx context) (Expression, error)) (Expression, error) {
+	defer p.unnest(p.depth)
+
 	conditionToken := p.peek()
 	leftExpression, err := higherPrioOperation(ctx)
 
@@ -2344,6 +2369,9 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		if operatorToken.Type() != lexer.LOGICAL_OPERATOR || operatorToken.Value() != operator {
 			break
 		}
+		if err := p.nest(); err != nil {
+			return nil, err
+		}
 
 		if !leftExpression.ValueType().IsBool() {
 			return nil, p.expectedError("boolean value", conditionToken)
@@ -2504,6 +2532,11 @@ func (p *Parser) evaluateFunctionCall(ctx context) (Call, error) {
 }
 
 func (p *Parser) evaluateAppCall(ctx context) (Call, error) {
+	defer p.unnest(p.depth)
+
+	if err := p.nest(); err != nil {
+		return nil, err
+	}
 	nextToken := p.eat()
 
 	if nextToken.Type() != lexer.AT {
@@ -2669,11 +2702,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 	if nextToken.Type() == lexer.CLOSING_SQUARE_BRACKET {
 		// If range but no end-index is provided, create one by using Len-expression.
 		if gotRange {
-			endIndex = BinaryOperation{
-				left:     Len{value},
-				operator: BINARY_OPERATOR_SUBTRACTION,
-				right:    IntegerLiteral{1},
-			}
+			endIndex = NewBinaryOperation(Len{value}, BINARY_OPERATOR_SUBTRACTION, IntegerLiteral{1})
 		}
 		p.eat() // Eat square bracket.
 	} else {
@@ -2689,11 +2718,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 		}
 
 		// End-index is not included.
-		endIndex = BinaryOperation{
-			left:     endIndex,
-			operator: BINARY_OPERATOR_SUBTRACTION,
-			right:    IntegerLiteral{1},
-		}
+		endIndex = NewBinaryOperation(endIndex, BINARY_OPERATOR_SUBTRACTION, IntegerLiteral{1})
 	}
 	endIndexValueType := endIndex.ValueType()
 
-- 
2.43.0


From 8a027a9539a8e8c7f2d3095dcf9787974ab37c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 14/51] fix: reject a second index without a colon in
 subscripts

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index c9f68ac..5fe6abc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2696,6 +2696,10 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 		return nil, p.atError("subscript range is not supported for slices", valueToken)
 	}
 	nextToken = p.peek()
+
+	if !gotRange && nextToken.Type() != lexer.CLOSING_SQUARE_BRACKET {
+		return nil, p.expectedError(`":" or "]"`, nextToken)
+	}
 	endToken := nextToken
 	endIndex := startIndex
 
-- 
2.43.0


From 4bf840719600d2c5965a46a22466c592766b61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 15/51] fix: reject repeated names in definitions and keep the
 type of redefined variables

---
 parser/parser.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5fe6abc..9b2beb9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -442,6 +442,20 @@ func (p *Parser) isShortVarInit() bool {
 	return err == nil
 }
 
+func (p *Parser) checkUniqueNameTokens(tokens ...lexer.Token) error {
+	names := map[string]bool{}
+
+	for _, token := range tokens {
+		name := token.Value()
+
+		if names[name] {
+			return p.atError(fmt.Sprintf("variable %s has been named more than once", name), token)
+		}
+		names[name] = true
+	}
+	return nil
+}
+
 func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error {
 	name := token.Value()
 	_, exists := ctx.findVariable(name, p.prefix, ctx.global())
@@ -1021,6 +1035,11 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 	}
 	nameTokens, err := p.evaluateVarNames()
 
+	if err != nil {
+		return nil, err
+	}
+	err = p.checkUniqueNameTokens(nameTokens...)
+
 	if err != nil {
 		return nil, err
 	}
@@ -1100,6 +1119,12 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		if exists && specifiedType.DataType() != DATA_TYPE_UNKNOWN && !specifiedType.Equals(variableValueType) {
 			return nil, p.atError(fmt.Sprintf(`variable "%s" already exists but has type %s`, name, variableValueType.String()), nextToken)
 		}
+
+		// An existing variable is assigned, except for global variables within functions which are shadowed.
+		if exists && !(variable.Global() && ctx.findScope(SCOPE_FUNCTION)) {
+			variables = append(variables, variable)
+			continue
+		}
 		storedName := name
 
 		if global {
@@ -1333,6 +1358,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 
 func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 	params := []Variable{}
+	nameTokens := []lexer.Token{}
 
 	for {
 		nameToken := p.peek()
@@ -1353,6 +1379,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
 		}
+		nameTokens = append(nameTokens, nameToken)
 		valueType, err := p.evaluateValueType()
 
 		if err != nil {
@@ -1368,7 +1395,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		}
 		params = append(params, NewVariable(name, valueType, false, false))
 	}
-	return params, nil
+	return params, p.checkUniqueNameTokens(nameTokens...)
 }
 
 func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
@@ -1786,7 +1813,8 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		if err != nil {
 			return nil, err
 		}
-		indexVarName := nextToken.Value()
+		indexVarToken := nextToken
+		indexVarName := indexVarToken.Value()
 		nextToken = p.peek()
 		valueVarName := ""
 
@@ -1799,6 +1827,11 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			}
 			err = p.checkNewVariableNameToken(nextToken, ctx)
 
+			if err != nil {
+				return nil, err
+			}
+			err = p.checkUniqueNameTokens(indexVarToken, nextToken)
+
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 49da1501bca67ea06550b2c598e09a11c3e5d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 16/51] fix: assign the variable which has been defined

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9b2beb9..d367c26 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1341,7 +1341,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		if valueType != expectedValueType {
 			return nil, p.expectedError(fmt.Sprintf("%s but got %s", expectedValueType.String(), valueType.String()), valuesToken)
 		}
-		variables = append(variables, NewVariable(name, valueType, ctx.global(), isPublic(name)))
+		variables = append(variables, definedVariable)
 	}
 
 	if isMultiReturnFuncCall {
-- 
2.43.0


From bfdfd7aa54e4dc7f598736d2aa7f39ef521675bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 17/51] fix: find the global variables of imported files below
 top level

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d367c26..850e971 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -133,6 +133,11 @@ func (c context) findVariable(name string, prefix string, global bool) (Variable
 		return Variable{}, false
 	}
 	variable, exists := c.variables[prefixedName]
+
+	// Global variables are stored with their prefix, therefore it's also required to find them below top level.
+	if !exists && !global && len(prefix) > 0 {
+		return c.findVariable(name, prefix, true)
+	}
 	return variable, exists
 }
 
-- 
2.43.0


From 0ad471b70624c8f612f0a6b911aaa758fae1f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 18/51] fix: keep the names of the program and of the target
 apart

---
 transpiler/transpiler.go | 53 ++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 6787bb6..8b30022 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -3,6 +3,8 @@ package transpiler
 import (
 	"fmt"
 	"strconv"
+	"strings"
+	"unicode"
 
 	"github.com/monstermichl/typeshell/parser"
 )
@@ -43,6 +45,37 @@ func IntToString(i int) string {
 	return strconv.Itoa(i)
 }
 
+// encodeName encodes a name in a way that it only consists of lower case letters, digits and underscores and that different
+// names stay different, even if the target doesn't distinguish between upper and lower case letters.
+func encodeName(name string) string {
+	encoded := strings.Builder{}
+
+	for _, r := range name {
+		switch {
+		case r == '_':
+			encoded.WriteString("__")
+		case r == '.':
+			encoded.WriteString("_0")
+		case unicode.IsUpper(r):
+			encoded.WriteRune('_')
+			encoded.WriteRune(unicode.ToLower(r))
+		default:
+			encoded.WriteRune(r)
+		}
+	}
+	return encoded.String()
+}
+
+// varName returns the name of a variable in the target which cannot collide with names which are used by the target itself.
+func varName(name string) string {
+	return fmt.Sprintf("v_%s", encodeName(name))
+}
+
+// funcName returns the name of a function in the target which cannot collide with names which are used by the target itself.
+func funcName(name string) string {
+	return fmt.Sprintf("f_%s", encodeName(name))
+}
+
 type transpiler struct {
 	converter Converter
 }
@@ -372,7 +405,7 @@ func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition)
 		if err != nil {
 			return err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		err = t.converter.VarDefinition(varName(variable.Name()), result.firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -397,7 +430,7 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(varName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -413,7 +446,7 @@ func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment)
 		if err != nil {
 			return err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		err = t.converter.VarDefinition(varName(variable.Name()), result.firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -438,7 +471,7 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(varName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -465,11 +498,11 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(assignment.Name(), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(varName(assignment.Name()), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
-	s, err := t.converter.VarEvaluation(evaluation.Name(), valueUsed, evaluation.Global())
+	s, err := t.converter.VarEvaluation(varName(evaluation.Name()), valueUsed, evaluation.Global())
 
 	if err != nil {
 		return expressionResult{}, err
@@ -569,10 +602,10 @@ func (t *transpiler) evaluateFunctionDefinition(functionDefinition parser.Functi
 	params := []string{}
 
 	for _, param := range functionDefinition.Params() {
-		params = append(params, param.Name())
+		params = append(params, varName(param.Name()))
 	}
 	conv := t.converter
-	err := conv.FuncStart(name, params, functionDefinition.ReturnTypes())
+	err := conv.FuncStart(funcName(name), params, functionDefinition.ReturnTypes())
 
 	if err != nil {
 		return err
@@ -598,7 +631,7 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		args = append(args, result.firstValue())
 	}
 	returnTypes := functionCall.ReturnTypes()
-	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
+	values, err := t.converter.FuncCall(funcName(name), args, returnTypes, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -688,7 +721,7 @@ func (t *transpiler) evaluateCopy(copy parser.Copy, valueUsed bool) (expressionR
 		return expressionResult{}, err
 	}
 	destination := copy.Destination()
-	amount, err := t.converter.Copy(destination.Name(), expr.firstValue(), valueUsed, destination.Global())
+	amount, err := t.converter.Copy(varName(destination.Name()), expr.firstValue(), valueUsed, destination.Global())
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From 01f02e3730b2e817af72b681ae74220ed45897fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 19/51] fix: find the variables of for-headers in imported
 files

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 850e971..8014839 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1946,14 +1946,14 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 				switch init.StatementType() {
 				case STATEMENT_TYPE_VAR_DEFINITION:
 					// Store new variable.
-					err = ctx.addVariables(p.prefix, false, init.(VariableDefinition).Variables()...)
+					err = ctx.addVariables(p.prefix, ctx.global(), init.(VariableDefinition).Variables()...)
 
 					if err != nil {
 						return nil, err
 					}
 				case STATEMENT_TYPE_VAR_DEFINITION_CALL_ASSIGNMENT:
 					// Store new variable.
-					err = ctx.addVariables(p.prefix, false, init.(VariableDefinitionCallAssignment).Variables()...)
+					err = ctx.addVariables(p.prefix, ctx.global(), init.(VariableDefinitionCallAssignment).Variables()...)
 
 					if err != nil {
 						return nil, err
-- 
2.43.0


From 95ca9aa785c3e34f7b5229c85cf9b88f26806e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 20/51] fix: accept for-headers with several variables or slice
 literals

---
 parser/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8014839..78ffe31 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1805,13 +1805,14 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 	var stmt Statement
 	nextToken := p.peek()
 	nextTokenType := nextToken.Type()
-	nextAfterNextTokenType := p.peekAt(1).Type()
 
 	// Clone context to avoid modification of the original.
 	ctx = ctx.clone()
 
-	// If next token is an identifier and the one after it a comma or a short-init operator and range keyword, parse a for-range statement.
-	if nextTokenType == lexer.IDENTIFIER && (nextAfterNextTokenType == lexer.COMMA || (nextAfterNextTokenType == lexer.SHORT_INIT_OPERATOR && p.peekAt(2).Type() == lexer.RANGE)) {
+	// If only identifiers, commas and a short-init operator are in front of a range keyword, parse a for-range statement.
+	_, rangeErr := p.findAllowed(lexer.RANGE, lexer.IDENTIFIER, lexer.COMMA, lexer.SHORT_INIT_OPERATOR)
+
+	if nextTokenType == lexer.IDENTIFIER && rangeErr == nil {
 		p.eat()
 		err := p.checkNewVariableNameToken(nextToken, ctx)
 
@@ -1932,8 +1933,8 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		// Therefore create a fake condition.
 		if nextTokenType == lexer.OPENING_CURLY_BRACKET {
 			condition = trueCondition
-		} else if _, err := p.findBefore(lexer.SEMICOLON, lexer.OPENING_CURLY_BRACKET); err == nil {
-			// If a semicolon was found before the curly bracket, consider for as a three-part for-loop.
+		} else if _, err := p.findBefore(lexer.SEMICOLON, lexer.NEWLINE, lexer.EOF); err == nil {
+			// If a semicolon was found in the same line, consider for as a three-part for-loop.
 			nextToken := p.peek()
 
 			// If the next token is not a semicolon, consider it a statement.
-- 
2.43.0


From 8faef2bc5a8b8073dfb23bfa8dc2e9cefbea4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 21/51] fix: accept assignments of several return values in
 for-headers

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 78ffe31..d5cda18 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1959,7 +1959,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					if err != nil {
 						return nil, err
 					}
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment or variable definition", nextToken)
 				}
@@ -1998,7 +1998,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					return nil, err
 				}
 				switch increment.StatementType() {
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment", nextToken)
 				}
-- 
2.43.0


From eb86af56228afd93d46f25c0f8adf4bf54b76418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 22/51] fix: evaluate the operand of range once and iterate
 independently of the index variable

---
 parser/parser.go | 51 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d5cda18..2a408fd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -196,7 +196,9 @@ type Parser struct {
 	path     string
 	prefix   string
 	currFunc string
-	depth    int // Stores how deep the statement/expression which is currently being evaluated is nested.
+	// Counts the variables which have been introduced by the parser itself.
+	helperVarCounter int
+	depth            int // Stores how deep the statement/expression which is currently being evaluated is nested.
 	// Stores the return types of the function which is currently being evaluated.
 	currReturnTypes []ValueType
 	usedFuncs       map[string][]string // Stores which function (key) calls which functions (values).
@@ -427,6 +429,14 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+// nextHelperVar returns a variable whose name cannot be used by a program.
+func (p *Parser) nextHelperVar(valueType ValueType) Variable {
+	name := fmt.Sprintf("%d", p.helperVarCounter)
+	p.helperVarCounter++
+
+	return NewVariable(name, valueType, false, false)
+}
+
 func (p *Parser) nest() error {
 	p.depth++
 
@@ -1862,24 +1872,33 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		}
 		iterableValueType := iterableExpression.ValueType()
 		indexVar := NewVariable(indexVarName, NewValueType(DATA_TYPE_INTEGER, false), false, false)
+
+		// The iteration must neither be affected by changes of the index variable nor of the variables in the range-expression.
+		counterVar := p.nextHelperVar(NewValueType(DATA_TYPE_INTEGER, false))
+		iterableVar := p.nextHelperVar(iterableValueType)
 		var iterableEvaluation Expression
 
 		if iterableValueType.IsSlice() {
 			iterableEvaluation = SliceEvaluation{
-				value:    iterableExpression,
-				index:    VariableEvaluation{indexVar},
+				value:    VariableEvaluation{iterableVar},
+				index:    VariableEvaluation{counterVar},
 				dataType: iterableValueType.DataType(),
 			}
 		} else if iterableValueType.IsString() {
 			iterableEvaluation = StringSubscript{
-				value:      iterableExpression,
-				startIndex: VariableEvaluation{indexVar},
+				value:      VariableEvaluation{iterableVar},
+				startIndex: VariableEvaluation{counterVar},
 			}
 		} else {
 			return nil, p.expectedError("slice or string", nextToken)
 		}
 		iterableValueType.isSlice = false // Make sure the value var is not a slice.
-		forRangeStatements := []Statement{}
+		forRangeStatements := []Statement{
+			VariableAssignment{
+				variables: []Variable{indexVar},
+				values:    []Expression{VariableEvaluation{counterVar}},
+			},
+		}
 
 		// Add count variable.
 		ctx.addVariables(p.prefix, false, indexVar)
@@ -1891,24 +1910,22 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			// Add value variable.
 			ctx.addVariables(p.prefix, false, valueVar)
 
-			forRangeStatements = []Statement{
-				VariableAssignment{
-					variables: []Variable{valueVar},
-					values:    []Expression{iterableEvaluation},
-				},
-			}
+			forRangeStatements = append(forRangeStatements, VariableAssignment{
+				variables: []Variable{valueVar},
+				values:    []Expression{iterableEvaluation},
+			})
 		}
 
 		init := VariableAssignment{
-			variables: []Variable{indexVar},
-			values:    []Expression{IntegerLiteral{0}},
+			variables: []Variable{counterVar, iterableVar},
+			values:    []Expression{IntegerLiteral{0}, iterableExpression},
 		}
 		condition := Comparison{
-			left:     VariableEvaluation{indexVar},
+			left:     VariableEvaluation{counterVar},
 			operator: COMPARE_OPERATOR_LESS,
-			right:    Len{iterableExpression},
+			right:    Len{VariableEvaluation{iterableVar}},
 		}
-		increment := incrementDecrementStatement(indexVar, true)
+		increment := incrementDecrementStatement(counterVar, true)
 		statements, err := p.evaluateBlock(nil, ctx, SCOPE_FOR)
 
 		if err != nil {
-- 
2.43.0


From 8b5fa3529db4b5f3e87290576ed810b2d4b6854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 23/51] fix: accept empty lines in front of the first case of a
 switch

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 2a408fd..e851c1f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1728,6 +1728,10 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if nextToken.Type() != lexer.NEWLINE {
 		return nil, p.expectedNewlineError(nextToken)
 	}
+	// Skip empty lines in front of the first case.
+	for p.peek().Type() == lexer.NEWLINE {
+		p.eat()
+	}
 	fakeIf := If{
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
-- 
2.43.0


From 6440e078eca04bcea3b60519943be64f0f3daae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 24/51] fix: evaluate the switch expression only once

---
 parser/if.go             |  5 +++++
 parser/parser.go         | 12 ++++++++++++
 transpiler/transpiler.go |  9 +++++++++
 3 files changed, 26 insertions(+)

diff --git a/parser/if.go b/parser/if.go
index d9b0d46..91e1716 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -22,6 +22,7 @@ func (e Else) Body() []Statement {
 }
 
 type If struct {
+	init         Statement
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
@@ -31,6 +32,10 @@ func (i If) StatementType() StatementType {
 	return STATEMENT_TYPE_IF
 }
 
+func (i If) Init() Statement {
+	return i.init
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index e851c1f..1315e3e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1732,7 +1732,19 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	for p.peek().Type() == lexer.NEWLINE {
 		p.eat()
 	}
+	var init Statement
+
+	// Evaluate the switch expression only once, no matter how many cases it is compared to.
+	if exprToken.Type() != lexer.OPENING_CURLY_BRACKET {
+		switchVar := p.nextHelperVar(switchExprValueType)
+		init = VariableAssignment{
+			variables: []Variable{switchVar},
+			values:    []Expression{switchExpr},
+		}
+		switchExpr = VariableEvaluation{switchVar}
+	}
 	fakeIf := If{
+		init: init,
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
 			body:      []Statement{},
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 8b30022..feaf7f9 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -279,6 +279,15 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 
 func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	conv := t.converter
+	init := ifStatement.Init()
+
+	if init != nil {
+		err := t.evaluate(init)
+
+		if err != nil {
+			return err
+		}
+	}
 	ifBranch := ifStatement.IfBranch()
 	result, err := t.evaluateExpression(ifBranch.Condition(), true)
 
-- 
2.43.0


From c64386bb3838fca2600e2d633dc5fc5c96acc796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 25/51] fix: leave the switch with break and number the Batch
 loop ends uniquely

---
 converters/bash/converter.go  | 30 ++++++++++++++++++++++++++++--
 converters/batch/converter.go | 22 ++++++++++++++++++++--
 parser/if.go                  |  6 ++++++
 parser/parser.go              | 21 +++++++++++++++++++++
 transpiler/converter.go       |  2 ++
 transpiler/transpiler.go      | 19 ++++++++++++++++++-
 6 files changed, 95 insertions(+), 5 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c388c71..0764111 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -19,6 +19,7 @@ type converter struct {
 	code                          []string
 	varCounter                    int
 	forCounter                    int
+	breakables                    []bool // Stores for each construct which can be left by break if it's a switch.
 	funcs                         []funcInfo
 	funcCounter                   int
 	sliceAssignmentHelperRequired bool
@@ -140,6 +141,19 @@ func (c *converter) Return(values []transpiler.ReturnValue) error {
 	return nil
 }
 
+func (c *converter) SwitchStart() error {
+	c.breakables = append(c.breakables, true)
+	c.addLine("while true; do")
+	return nil
+}
+
+func (c *converter) SwitchEnd() error {
+	c.breakables = c.breakables[:len(c.breakables)-1]
+	c.addLine("break")
+	c.addLine("done")
+	return nil
+}
+
 func (c *converter) IfStart(condition string) error {
 	return c.ifStart(condition, "if")
 }
@@ -168,6 +182,7 @@ func (c *converter) ElseEnd() error {
 
 func (c *converter) ForStart() error {
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
+	c.breakables = append(c.breakables, false)
 	c.addLine("while true; do")
 	return nil
 }
@@ -189,6 +204,7 @@ func (c *converter) ForCondition(condition string) error {
 }
 
 func (c *converter) ForEnd() error {
+	c.breakables = c.breakables[:len(c.breakables)-1]
 	c.addLine("done")
 	c.forCounter++
 
@@ -196,12 +212,22 @@ func (c *converter) ForEnd() error {
 }
 
 func (c *converter) Break() error {
-	c.addLine("break") // TODO: Break within switch. This might be a good solution -> https://stackoverflow.com/a/30874026.
+	c.addLine("break")
 	return nil
 }
 
 func (c *converter) Continue() error {
-	c.addLine("continue")
+	level := 1
+
+	// Switches which are left by break are loops as well, therefore skip them.
+	for i := len(c.breakables) - 1; i >= 0 && c.breakables[i]; i-- {
+		level++
+	}
+	if level > 1 {
+		c.addLine(fmt.Sprintf("continue %d", level))
+	} else {
+		c.addLine("continue")
+	}
 	return nil
 }
 
diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2d11ebc..88c4e56 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -82,6 +82,10 @@ func forLabel(count int) string {
 	return fmt.Sprintf(":_f%d", count)
 }
 
+func ifLabel(count int) string {
+	return fmt.Sprintf(":_i%d", count)
+}
+
 func (c *converter) StringToString(value string) string {
 	c.addLf()
 
@@ -301,6 +305,16 @@ func (c *converter) Return(values []transpiler.ReturnValue) error {
 	return nil
 }
 
+func (c *converter) SwitchStart() error {
+	c.addEndLabel(ifLabel(c.ifCounter)) // The switch ends where the following if ends.
+	return nil
+}
+
+func (c *converter) SwitchEnd() error {
+	c.popEndLabel()
+	return nil
+}
+
 func (c *converter) IfStart(condition string) error {
 	c.ifs = append(c.ifs, ifInfo{
 		label: c.nextIfLabel(),
@@ -833,7 +847,7 @@ func (c *converter) nextForLabel() string {
 }
 
 func (c *converter) nextIfLabel() string {
-	label := fmt.Sprintf(":_i%d", c.ifCounter)
+	label := ifLabel(c.ifCounter)
 	c.ifCounter++
 
 	return label
@@ -879,8 +893,12 @@ func (c *converter) popEndLabel() string {
 	return label
 }
 
+func (c *converter) addEndLabel(label string) {
+	c.endLabels = append(c.endLabels, label)
+}
+
 func (c *converter) nextEndLabel() string {
-	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", len(c.endLabels)))
+	c.addEndLabel(fmt.Sprintf(":_e%d", c.forCounter-1))
 	return c.mustCurrentEndLabel()
 }
 
diff --git a/parser/if.go b/parser/if.go
index 91e1716..0b91479 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -26,6 +26,7 @@ type If struct {
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
+	breakable    bool
 }
 
 func (i If) StatementType() StatementType {
@@ -36,6 +37,11 @@ func (i If) Init() Statement {
 	return i.init
 }
 
+// Breakable returns true if the statement is a switch which is left by at least one break.
+func (i If) Breakable() bool {
+	return i.breakable
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index 1315e3e..ec9db0b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -64,6 +64,15 @@ func (c context) global() bool {
 	return c.currentScope() == SCOPE_PROGRAM
 }
 
+func (c context) innermostScope(scopes ...scope) scope {
+	for i := len(c.scopeStack) - 1; i >= 0; i-- {
+		if slices.Contains(scopes, c.scopeStack[i]) {
+			return c.scopeStack[i]
+		}
+	}
+	return ""
+}
+
 func (c context) findScope(s scope) bool {
 	for i := len(c.scopeStack) - 1; i >= 0; i-- {
 		if c.scopeStack[i] == s {
@@ -196,6 +205,8 @@ type Parser struct {
 	path     string
 	prefix   string
 	currFunc string
+	// Stores if the switch which is currently being evaluated contains a break.
+	switchBreak bool
 	// Counts the variables which have been introduced by the parser itself.
 	helperVarCounter int
 	depth            int // Stores how deep the statement/expression which is currently being evaluated is nested.
@@ -1600,6 +1611,11 @@ func (p *Parser) evaluateBreak(ctx context) (Statement, error) {
 	if !scopeOk {
 		return nil, p.expectedError(fmt.Sprintf("break statement within %s-scope", strings.Join(scopesToString(breakScopes), "- or ")), breakToken)
 	}
+
+	// Remember that the surrounding switch is left by a break.
+	if ctx.innermostScope(breakScopes...) == SCOPE_SWITCH {
+		p.switchBreak = true
+	}
 	return Break{}, nil
 }
 
@@ -1695,6 +1711,8 @@ func (p *Parser) evaluateIf(ctx context) (Statement, error) {
 
 func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	switchToken := p.eat()
+	outerSwitchBreak := p.switchBreak
+	p.switchBreak = false
 
 	if switchToken.Type() != lexer.SWITCH {
 		return nil, p.expectedKeywordError("switch", switchToken)
@@ -1819,6 +1837,9 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if nextToken.Type() != lexer.CLOSING_CURLY_BRACKET {
 		return nil, p.expectedError(`"}"`, nextToken)
 	}
+	fakeIf.breakable = p.switchBreak
+	p.switchBreak = outerSwitchBreak
+
 	return fakeIf, nil
 }
 
diff --git a/transpiler/converter.go b/transpiler/converter.go
index c0561c4..7c549db 100644
--- a/transpiler/converter.go
+++ b/transpiler/converter.go
@@ -61,6 +61,8 @@ type Converter interface {
 	FuncStart(name string, params []string, returnTypes []parser.ValueType) error
 	FuncEnd() error
 	Return(values []ReturnValue) error
+	SwitchStart() error
+	SwitchEnd() error
 	IfStart(condition string) error
 	IfEnd() error
 	ElseIfStart(condition string) error
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index feaf7f9..630174c 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -305,6 +305,15 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 		}
 		elifConditions = append(elifConditions, result.firstValue())
 	}
+
+	// Make sure break-statements leave the switch.
+	if ifStatement.Breakable() {
+		err = conv.SwitchStart()
+
+		if err != nil {
+			return err
+		}
+	}
 	err = conv.IfStart(result.firstValue())
 
 	if err != nil {
@@ -351,7 +360,15 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 			return err
 		}
 	}
-	return conv.IfEnd()
+	err = conv.IfEnd()
+
+	if err != nil {
+		return err
+	}
+	if ifStatement.Breakable() {
+		return conv.SwitchEnd()
+	}
+	return nil
 }
 
 func (t *transpiler) evaluateFor(forStatement parser.For) error {
-- 
2.43.0


From 72b7c3f99964e6e578832630d42aeec3dfea065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 26/51] fix: accept empty lines in import groups and an import
 at the end of the file

---
 parser/parser.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ec9db0b..3994cda 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -461,6 +461,12 @@ func (p *Parser) unnest(depth int) {
 	p.depth = depth
 }
 
+func (p *Parser) skipNewlines() {
+	for p.peek().Type() == lexer.NEWLINE {
+		p.eat()
+	}
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -708,17 +714,11 @@ func (p *Parser) evaluateProgram() (Program, error) {
 }
 
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
-	var nextToken lexer.Token
 	statementsTemp := []Statement{}
 
 	// Skip empty characters.
-	for {
-		nextToken = p.peek()
-		if !slices.Contains([]lexer.TokenType{lexer.NEWLINE}, nextToken.Type()) {
-			break
-		}
-		p.eat()
-	}
+	p.skipNewlines()
+	nextToken := p.peek()
 
 	if nextToken.Type() == lexer.IMPORT {
 		p.eat()
@@ -732,6 +732,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if nextToken.Type() != lexer.NEWLINE {
 				return nil, p.expectedNewlineError(nextToken)
 			}
+			p.skipNewlines()
 		}
 
 		for {
@@ -864,11 +865,13 @@ func (p *Parser) evaluateImport() (evaluatedImport, error) {
 		return evaluatedImport{}, p.expectedError("import path", nextToken)
 	}
 	path := nextToken.Value()
-	nextToken = p.eat()
+	nextToken = p.peek()
 
 	if !slices.Contains([]lexer.TokenType{lexer.NEWLINE, lexer.EOF}, nextToken.Type()) {
 		return evaluatedImport{}, p.expectedError("newline or end-of-file", nextToken)
 	}
+	p.skipNewlines()
+
 	return evaluatedImport{
 		alias,
 		path,
@@ -1746,10 +1749,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if nextToken.Type() != lexer.NEWLINE {
 		return nil, p.expectedNewlineError(nextToken)
 	}
-	// Skip empty lines in front of the first case.
-	for p.peek().Type() == lexer.NEWLINE {
-		p.eat()
-	}
+	p.skipNewlines() // Skip empty lines in front of the first case.
 	var init Statement
 
 	// Evaluate the switch expression only once, no matter how many cases it is compared to.
-- 
2.43.0


From f0669e799d8a9d429cbf52573d909ed70858cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 27/51] fix: visit every function only once when looking for
 used functions

---
 parser/parser.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3994cda..e7acb48 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -500,25 +500,24 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 
 func (p *Parser) getUsedFuncs(startFunc string) []string {
 	usedFuncs := []string{}
-	startFunc = strings.TrimSpace(startFunc)
+	visitedFuncs := map[string]bool{}
+	pendingFuncs := []string{strings.TrimSpace(startFunc)}
 
-	if usedFuncsTemp, exists := p.usedFuncs[startFunc]; exists {
-		if len(startFunc) > 0 && !slices.Contains(usedFuncs, startFunc) {
-			usedFuncs = append(usedFuncs, startFunc)
-		}
+	for len(pendingFuncs) > 0 {
+		lastIndex := len(pendingFuncs) - 1
+		pendingFunc := pendingFuncs[lastIndex]
+		pendingFuncs = pendingFuncs[:lastIndex]
 
-		for _, usedFuncTemp := range usedFuncsTemp {
-			if !slices.Contains(usedFuncs, usedFuncTemp) {
-				usedFuncs = append(usedFuncs, usedFuncTemp)
-			}
-			usedSubFuncs := p.getUsedFuncs(usedFuncTemp)
+		// Visit every function only once.
+		if visitedFuncs[pendingFunc] {
+			continue
+		}
+		visitedFuncs[pendingFunc] = true
 
-			for _, usedSubFunc := range usedSubFuncs {
-				if !slices.Contains(usedFuncs, usedSubFunc) {
-					usedFuncs = append(usedFuncs, usedSubFunc)
-				}
-			}
+		if len(pendingFunc) > 0 {
+			usedFuncs = append(usedFuncs, pendingFunc)
 		}
+		pendingFuncs = append(pendingFuncs, p.usedFuncs[pendingFunc]...)
 	}
 	return usedFuncs
 }
-- 
2.43.0


From d8b3761888ba849b38dab7a940aa159d44093be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 28/51] fix: do not lose used functions of imported files

---
 parser/parser.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e7acb48..b3dc9eb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -773,6 +773,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
 			}
 			importParser := New()
+			importParser.usedFuncs = p.usedFuncs // Used functions are tracked across all files.
 			importedProg, err := importParser.parse(absPath, true)
 
 			if err != nil {
@@ -789,18 +790,6 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			}
 			statementsTemp = append(statementsTemp, importedProg.Body()...)
 
-			// Import-parser funcs with current parser funcs.
-			for funcName, usedFuncs := range importParser.usedFuncs {
-				if foundUsedFuncs, exists := p.usedFuncs[funcName]; !exists {
-					p.usedFuncs[funcName] = usedFuncs
-				} else {
-					for _, usedFunc := range foundUsedFuncs {
-						if !slices.Contains(foundUsedFuncs, usedFunc) {
-							p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
-						}
-					}
-				}
-			}
 
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
-- 
2.43.0


From 214f1b4c6904758b7f3d2dd72d154f5e22973c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 29/51] fix: evaluate every imported file once and reject
 import cycles

---
 parser/parser.go | 138 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 98 insertions(+), 40 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b3dc9eb..aa8bbf8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -194,6 +194,41 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 	return multi, call
 }
 
+// module stores what is known about an already evaluated file.
+type module struct {
+	prefix    string
+	variables []Variable           // Public global variables.
+	functions []FunctionDefinition // Public functions.
+	complete  bool                 // False while the file is being evaluated.
+}
+
+// moduleKey makes sure that a file is recognized, no matter via which path it is reached.
+func moduleKey(path string) string {
+	if resolvedPath, err := filepath.EvalSymlinks(path); err == nil {
+		return resolvedPath
+	}
+	return path
+}
+
+func (m *module) collectPublic(statements []Statement) {
+	for _, statement := range statements {
+		switch statement.StatementType() {
+		case STATEMENT_TYPE_VAR_DEFINITION:
+			for _, variable := range statement.(VariableDefinition).Variables() {
+				if variable.Public() {
+					m.variables = append(m.variables, variable)
+				}
+			}
+		case STATEMENT_TYPE_FUNCTION_DEFINITION:
+			function := statement.(FunctionDefinition)
+
+			if function.Public() {
+				m.functions = append(m.functions, function)
+			}
+		}
+	}
+}
+
 type blockCallback func(statements []Statement, last bool) error
 
 // MAX_NESTING_DEPTH is the deepest supported nesting of statements and expressions.
@@ -205,6 +240,7 @@ type Parser struct {
 	path     string
 	prefix   string
 	currFunc string
+	modules  map[string]*module // Stores the evaluated files by their paths.
 	// Stores if the switch which is currently being evaluated contains a break.
 	switchBreak bool
 	// Counts the variables which have been introduced by the parser itself.
@@ -218,6 +254,7 @@ type Parser struct {
 func New() Parser {
 	return Parser{
 		usedFuncs: map[string][]string{},
+		modules:   map[string]*module{},
 	}
 }
 
@@ -260,9 +297,12 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 		h := sha256.New()
 		h.Write(source)
 
-		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+		p.prefix = p.uniquePrefix(fmt.Sprintf(".%x", h.Sum(nil))[0:8]) // Only use the 7 first characters (inspired by Git).
 	}
-	program, err := p.evaluateProgram()
+	// Register the file to recognize when it's imported again.
+	mod := &module{prefix: p.prefix}
+	p.modules[moduleKey(path)] = mod
+	program, err := p.evaluateProgram(mod)
 
 	if err != nil {
 		return Program{}, err
@@ -275,6 +315,26 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	return program, nil
 }
 
+// uniquePrefix makes sure that different files don't share the same prefix. The leading dot of a prefix makes sure that prefixed
+// names differ from all names in the source.
+func (p *Parser) uniquePrefix(prefix string) string {
+	uniquePrefix := prefix
+
+	for i := 2; p.prefixUsed(uniquePrefix); i++ {
+		uniquePrefix = fmt.Sprintf("%s.%d", prefix, i)
+	}
+	return uniquePrefix
+}
+
+func (p *Parser) prefixUsed(prefix string) bool {
+	for _, mod := range p.modules {
+		if mod.prefix == prefix {
+			return true
+		}
+	}
+	return false
+}
+
 func allowedBinaryOperators(t ValueType) []BinaryOperator {
 	operators := []BinaryOperator{}
 
@@ -685,7 +745,7 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 	return stmtCallout(keywordToken, expressions)
 }
 
-func (p *Parser) evaluateProgram() (Program, error) {
+func (p *Parser) evaluateProgram(mod *module) (Program, error) {
 	ctx := newContext()
 	statements, err := p.evaluateImports(ctx)
 
@@ -705,6 +765,8 @@ func (p *Parser) evaluateProgram() (Program, error) {
 	if err != nil {
 		return Program{}, err
 	}
+	mod.collectPublic(statementsTemp)
+	mod.complete = true
 	statements = append(statements, statementsTemp...)
 
 	return Program{
@@ -712,8 +774,30 @@ func (p *Parser) evaluateProgram() (Program, error) {
 	}, nil
 }
 
+// evaluateModule returns the imported file and its statements. The statements are only returned for the first import of a file
+// to make sure that they only occur once.
+func (p *Parser) evaluateModule(path string) (*module, []Statement, error) {
+	key := moduleKey(path)
+
+	if mod, exists := p.modules[key]; exists {
+		if !mod.complete {
+			return nil, nil, fmt.Errorf(`import cycle via "%s" in "%s"`, path, p.path)
+		}
+		return mod, nil, nil
+	}
+	importParser := New()
+	importParser.usedFuncs = p.usedFuncs // Used functions are tracked across all files.
+	importParser.modules = p.modules
+	importedProg, err := importParser.parse(path, true)
+
+	if err != nil {
+		return nil, nil, err
+	}
+	return p.modules[key], importedProg.Body(), nil
+}
+
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
-	statementsTemp := []Statement{}
+	statements := []Statement{}
 
 	// Skip empty characters.
 	p.skipNewlines()
@@ -772,9 +856,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				// If it's not a standard library path, an alias must be provided.
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
 			}
-			importParser := New()
-			importParser.usedFuncs = p.usedFuncs // Used functions are tracked across all files.
-			importedProg, err := importParser.parse(absPath, true)
+			importedMod, importedStatements, err := p.evaluateModule(absPath)
 
 			if err != nil {
 				return nil, err
@@ -783,13 +865,20 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if _, exists := ctx.findImport(alias); exists {
 				return nil, fmt.Errorf(`import alias "%s" already exists`, alias)
 			}
-			err = ctx.addImport(alias, importParser.prefix)
+			err = ctx.addImport(alias, importedMod.prefix)
 
 			if err != nil {
 				return nil, err
 			}
-			statementsTemp = append(statementsTemp, importedProg.Body()...)
+			statements = append(statements, importedStatements...)
 
+			// Add public functions and variables.
+			for _, variable := range importedMod.variables {
+				ctx.variables[variable.Name()] = variable
+			}
+			for _, function := range importedMod.functions {
+				ctx.functions[function.Name()] = function
+			}
 
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
@@ -806,37 +895,6 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			}
 		}
 	}
-	statements := []Statement{}
-
-	// Add functions add variables.
-	for _, statement := range statementsTemp {
-		exists := false
-
-		switch statement.StatementType() {
-		case STATEMENT_TYPE_VAR_DEFINITION:
-			definedVariable := statement.(VariableDefinition)
-
-			for _, variable := range definedVariable.Variables() {
-				name := variable.Name()
-
-				if _, exists = ctx.variables[name]; !exists && variable.Public() {
-					ctx.variables[name] = variable
-				}
-			}
-		case STATEMENT_TYPE_FUNCTION_DEFINITION:
-			definedFunction := statement.(FunctionDefinition)
-			name := definedFunction.Name()
-
-			if _, exists = ctx.functions[name]; !exists && definedFunction.Public() {
-				ctx.functions[name] = definedFunction
-			}
-		}
-
-		// Prevent code duplication.
-		if !exists {
-			statements = append(statements, statement)
-		}
-	}
 	return statements, nil
 }
 
-- 
2.43.0


From 5cfe9dfa8bc72926be6e6e208710805af15ec7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 30/51] fix: evaluate operands once and from left to right and
 assign several variables at the same time

---
 parser/parser.go         |  22 +--
 parser/string.go         |  13 +-
 transpiler/transpiler.go | 384 +++++++++++++++++++++++++++------------
 3 files changed, 284 insertions(+), 135 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa8bbf8..bf369db 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2840,14 +2840,12 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 		return nil, p.expectedError(`":" or "]"`, nextToken)
 	}
 	endToken := nextToken
-	endIndex := startIndex
+	openEnd := false
+	var endIndex Expression
 
 	if nextToken.Type() == lexer.CLOSING_SQUARE_BRACKET {
-		// If range but no end-index is provided, create one by using Len-expression.
-		if gotRange {
-			endIndex = NewBinaryOperation(Len{value}, BINARY_OPERATOR_SUBTRACTION, IntegerLiteral{1})
-		}
-		p.eat() // Eat square bracket.
+		openEnd = gotRange // If range but no end-index is provided, the range ends where the string ends.
+		p.eat()            // Eat square bracket.
 	} else {
 		endIndex, err = p.evaluateExpression(ctx)
 
@@ -2859,14 +2857,11 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 		if nextToken.Type() != lexer.CLOSING_SQUARE_BRACKET {
 			return nil, p.expectedError(`"]"`, nextToken)
 		}
+		endIndexValueType := endIndex.ValueType()
 
-		// End-index is not included.
-		endIndex = NewBinaryOperation(endIndex, BINARY_OPERATOR_SUBTRACTION, IntegerLiteral{1})
-	}
-	endIndexValueType := endIndex.ValueType()
-
-	if !endIndexValueType.IsInt() {
-		return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+		if !endIndexValueType.IsInt() {
+			return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+		}
 	}
 
 	if !isSlice {
@@ -2874,6 +2869,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			value:      value,
 			startIndex: startIndex,
 			endIndex:   endIndex,
+			openEnd:    openEnd,
 		}, nil
 	}
 	return SliceEvaluation{
diff --git a/parser/string.go b/parser/string.go
index 0a80b43..cec18ca 100644
--- a/parser/string.go
+++ b/parser/string.go
@@ -4,6 +4,7 @@ type StringSubscript struct {
 	value      Expression
 	startIndex Expression
 	endIndex   Expression
+	openEnd    bool
 }
 
 func (s StringSubscript) StatementType() StatementType {
@@ -22,12 +23,12 @@ func (s StringSubscript) StartIndex() Expression {
 	return s.startIndex
 }
 
+// EndIndex returns the (not included) end index of a range or nil if there is none.
 func (s StringSubscript) EndIndex() Expression {
-	endIndex := s.endIndex
+	return s.endIndex
+}
 
-	// Automatically define end-index.
-	if endIndex == nil {
-		endIndex = s.startIndex
-	}
-	return endIndex
+// OpenEnd returns true if the subscript is a range without an end index.
+func (s StringSubscript) OpenEnd() bool {
+	return s.openEnd
 }
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 630174c..fb6778b 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -2,6 +2,7 @@ package transpiler
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 	"unicode"
@@ -76,8 +77,70 @@ func funcName(name string) string {
 	return fmt.Sprintf("f_%s", encodeName(name))
 }
 
+type sliceVariable struct {
+	name   string
+	global bool
+}
+
+// referencedVariable returns the variable if the result of an expression is just a reference to it.
+func referencedVariable(expression parser.Expression) (parser.Variable, bool) {
+	switch expr := expression.(type) {
+	case parser.VariableEvaluation:
+		return expr.Variable, true
+	case parser.Group:
+		return referencedVariable(expr.Child())
+	case parser.Itoa:
+		return referencedVariable(expr.Value())
+	}
+	return parser.Variable{}, false
+}
+
+// containsFunctionCall returns true if at least one function is called when the expressions are evaluated.
+func containsFunctionCall(expressions ...parser.Expression) bool {
+	for _, expression := range expressions {
+		contains := false
+
+		switch expr := expression.(type) {
+		case parser.FunctionCall:
+			contains = true
+		case parser.AppCall:
+			contains = containsFunctionCall(expr.Args()...) || (expr.Next() != nil && containsFunctionCall(*expr.Next()))
+		case parser.Group:
+			contains = containsFunctionCall(expr.Child())
+		case parser.UnaryOperation:
+			contains = containsFunctionCall(expr.Expression())
+		case parser.Operation: // Binary operation, comparison or logical operation.
+			contains = containsFunctionCall(expr.Left(), expr.Right())
+		case parser.SliceInstantiation:
+			contains = containsFunctionCall(expr.Values()...)
+		case parser.SliceEvaluation:
+			contains = containsFunctionCall(expr.Value(), expr.Index())
+		case parser.StringSubscript:
+			contains = containsFunctionCall(expr.Value(), expr.StartIndex(), expr.EndIndex())
+		case parser.Input:
+			contains = containsFunctionCall(expr.Prompt())
+		case parser.Copy:
+			contains = containsFunctionCall(expr.Source())
+		case parser.Itoa:
+			contains = containsFunctionCall(expr.Value())
+		case parser.Exists:
+			contains = containsFunctionCall(expr.Path())
+		case parser.Len:
+			contains = containsFunctionCall(expr.Expression())
+		case parser.Read:
+			contains = containsFunctionCall(expr.Path())
+		}
+
+		if contains {
+			return true
+		}
+	}
+	return false
+}
+
 type transpiler struct {
-	converter Converter
+	converter        Converter
+	helperVarCounter int
 }
 
 func New() transpiler {
@@ -92,6 +155,7 @@ func (t *transpiler) Transpile(path string, converter Converter) (string, error)
 		return "", err
 	}
 	t.converter = converter
+	t.helperVarCounter = 0
 	err = t.evaluate(ast)
 
 	if err != nil {
@@ -121,6 +185,111 @@ func (t *transpiler) evaluateIndex(index parser.Expression, valueUsed bool) (exp
 	return t.evaluateExpression(index, true)
 }
 
+// evaluateOperands evaluates expressions from left to right. Since the result of a variable evaluation is just a reference to the
+// variable, the current value is stored if the variable might be changed by the evaluation of one of the following expressions.
+func (t *transpiler) evaluateOperands(expressions ...parser.Expression) ([]expressionResult, error) {
+	results := []expressionResult{}
+
+	for i, expr := range expressions {
+		result, err := t.evaluateExpression(expr, true)
+
+		if err != nil {
+			return nil, err
+		}
+		variable, isReference := referencedVariable(expr)
+
+		if isReference && variable.Global() && containsFunctionCall(expressions[i+1:]...) {
+			result, err = t.storeValue(result)
+
+			if err != nil {
+				return nil, err
+			}
+		}
+		results = append(results, result)
+	}
+	return results, nil
+}
+
+// storeValue stores a value in a new variable.
+func (t *transpiler) storeValue(result expressionResult) (expressionResult, error) {
+	name := t.nextHelperVar()
+	err := t.converter.VarDefinition(name, result.firstValue(), false)
+
+	if err != nil {
+		return expressionResult{}, err
+	}
+	s, err := t.converter.VarEvaluation(name, true, false)
+
+	if err != nil {
+		return expressionResult{}, err
+	}
+	return newExpressionResult(s), nil
+}
+
+// evaluateVarValues evaluates all values before the first variable is being changed.
+func (t *transpiler) evaluateVarValues(variables []parser.Variable, values []parser.Expression) error {
+	results, err := t.evaluateOperands(values...)
+
+	if err != nil {
+		return err
+	}
+
+	for i, value := range values {
+		variable, isReference := referencedVariable(value)
+
+		// If the referenced variable is assigned before its value is used, the value must be stored first.
+		if isReference && slices.ContainsFunc(variables[:i], func(v parser.Variable) bool { return v.Name() == variable.Name() }) {
+			results[i], err = t.storeValue(results[i])
+
+			if err != nil {
+				return err
+			}
+		}
+	}
+
+	for i, variable := range variables {
+		err = t.converter.VarDefinition(varName(variable.Name()), results[i].firstValue(), variable.Global())
+
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// evaluateSliceVariable returns the variable of a slice which is going to be changed after the operands have been evaluated.
+func (t *transpiler) evaluateSliceVariable(variable parser.Variable, operands ...parser.Expression) (sliceVariable, error) {
+	name := varName(variable.Name())
+	global := variable.Global()
+
+	// If the variable might be changed by the operands, make sure that the current slice is used.
+	if global && containsFunctionCall(operands...) {
+		s, err := t.converter.VarEvaluation(name, true, global)
+
+		if err != nil {
+			return sliceVariable{}, err
+		}
+		name = t.nextHelperVar()
+		global = false
+		err = t.converter.VarDefinition(name, s, global)
+
+		if err != nil {
+			return sliceVariable{}, err
+		}
+	}
+	return sliceVariable{
+		name,
+		global,
+	}, nil
+}
+
+func (t *transpiler) nextHelperVar() string {
+	name := fmt.Sprintf("t_%d", t.helperVarCounter)
+	t.helperVarCounter++
+
+	return name
+}
+
 func (t *transpiler) evaluateProgram(program parser.Program) error {
 	var err error
 	t.converter.ProgramStart()
@@ -156,17 +325,12 @@ func (t *transpiler) evaluateOperation(
 	callout func(left string, operator string, right string, valueType parser.ValueType, valueUsed bool) (string, error),
 	valueUsed bool,
 ) (expressionResult, error) {
-	left, err := t.evaluateExpression(operation.Left(), true)
-
-	if err != nil {
-		return expressionResult{}, err
-	}
-	right, err := t.evaluateExpression(operation.Right(), true)
+	results, err := t.evaluateOperands(operation.Left(), operation.Right())
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	s, err := callout(left.firstValue(), operation.Operator(), right.firstValue(), operation.Left().ValueType(), valueUsed)
+	s, err := callout(results[0].firstValue(), operation.Operator(), results[1].firstValue(), operation.Left().ValueType(), valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -212,12 +376,13 @@ func (t *transpiler) evaluateContinue() error {
 func (t *transpiler) evaluatePrint(print parser.Print) error {
 	values := []string{}
 
-	for _, expr := range print.Expressions() {
-		result, err := t.evaluateExpression(expr, true)
+	results, err := t.evaluateOperands(print.Expressions()...)
 
-		if err != nil {
-			return err
-		}
+	if err != nil {
+		return err
+	}
+
+	for _, result := range results {
 		values = append(values, result.values...)
 	}
 	return t.converter.Print(values)
@@ -239,40 +404,34 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as read path", valueType.String())
 	}
-	result, err := t.evaluateExpression(path, true)
-
-	if err != nil {
-		return err
-	}
-	pathString := result.firstValue()
 	data := write.Data()
 	valueType = data.ValueType()
 
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as data", valueType.String())
 	}
-	result, err = t.evaluateExpression(data, true)
-
-	if err != nil {
-		return err
-	}
-	dataString := result.firstValue()
+	operands := []parser.Expression{path, data}
 	appendExpr := write.Append()
-	appendString := BoolToString(false)
 
 	if appendExpr != nil {
-		append := write.Append()
-		valueType = append.ValueType()
+		valueType = appendExpr.ValueType()
 
 		if !valueType.IsBool() {
 			return fmt.Errorf("expected bool but got %s as append flag", valueType.String())
 		}
-		result, err = t.evaluateExpression(append, true)
+		operands = append(operands, appendExpr)
+	}
+	results, err := t.evaluateOperands(operands...)
 
-		if err != nil {
-			return err
-		}
-		appendString = result.firstValue()
+	if err != nil {
+		return err
+	}
+	pathString := results[0].firstValue()
+	dataString := results[1].firstValue()
+	appendString := BoolToString(false)
+
+	if appendExpr != nil {
+		appendString = results[2].firstValue()
 	}
 	return t.converter.WriteFile(pathString, dataString, appendString)
 }
@@ -289,21 +448,17 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 		}
 	}
 	ifBranch := ifStatement.IfBranch()
-	result, err := t.evaluateExpression(ifBranch.Condition(), true)
+	conditions := []parser.Expression{ifBranch.Condition()}
 
-	if err != nil {
-		return err
+	for _, branch := range ifStatement.ElseIfBranches() {
+		conditions = append(conditions, branch.Condition())
 	}
-	elifConditions := []string{}
 
 	// Evaluate all conditions first to make sure they are added in front of the first if.
-	for _, branch := range ifStatement.ElseIfBranches() {
-		result, err := t.evaluateExpression(branch.Condition(), true)
+	results, err := t.evaluateOperands(conditions...)
 
-		if err != nil {
-			return err
-		}
-		elifConditions = append(elifConditions, result.firstValue())
+	if err != nil {
+		return err
 	}
 
 	// Make sure break-statements leave the switch.
@@ -314,7 +469,7 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 			return err
 		}
 	}
-	err = conv.IfStart(result.firstValue())
+	err = conv.IfStart(results[0].firstValue())
 
 	if err != nil {
 		return err
@@ -326,7 +481,7 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	}
 
 	for i, branch := range ifStatement.ElseIfBranches() {
-		err = conv.ElseIfStart(elifConditions[i])
+		err = conv.ElseIfStart(results[i+1].firstValue())
 
 		if err != nil {
 			return err
@@ -425,19 +580,7 @@ func (t *transpiler) evaluateFor(forStatement parser.For) error {
 }
 
 func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
-	for i, variable := range definition.Variables() {
-		result, err := t.evaluateExpression(definition.Values()[i], true)
-
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(varName(variable.Name()), result.firstValue(), variable.Global())
-
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return t.evaluateVarValues(definition.Variables(), definition.Values())
 }
 
 func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.VariableDefinitionCallAssignment) error {
@@ -466,19 +609,7 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 }
 
 func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment) error {
-	for i, variable := range assignment.Variables() {
-		result, err := t.evaluateExpression(assignment.Values()[i], true)
-
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(varName(variable.Name()), result.firstValue(), variable.Global())
-
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return t.evaluateVarValues(assignment.Variables(), assignment.Values())
 }
 
 func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.VariableAssignmentCallAssignment) error {
@@ -507,13 +638,13 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 }
 
 func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment) error {
-	indexResult, err := t.evaluateIndex(assignment.Index(), true)
+	value := assignment.Value()
+	slice, err := t.evaluateSliceVariable(assignment.Variable, assignment.Index(), value)
 
 	if err != nil {
 		return err
 	}
-	value := assignment.Value()
-	valueResult, err := t.evaluateExpression(value, true)
+	results, err := t.evaluateOperands(assignment.Index(), value)
 
 	if err != nil {
 		return err
@@ -524,7 +655,7 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(varName(assignment.Name()), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(slice.name, results[0].firstValue(), results[1].firstValue(), defaultValue, slice.global)
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
@@ -537,19 +668,12 @@ func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation,
 }
 
 func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation, valueUsed bool) (expressionResult, error) {
-	value := evaluation.Value()
-	result, err := t.evaluateExpression(value, true)
-
-	if err != nil {
-		return expressionResult{}, err
-	}
-	valueString := result.firstValue()
-	result, err = t.evaluateIndex(evaluation.Index(), true)
+	results, err := t.evaluateOperands(evaluation.Value(), evaluation.Index())
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	s, err := t.converter.SliceEvaluation(valueString, result.firstValue(), valueUsed)
+	s, err := t.converter.SliceEvaluation(results[0].firstValue(), results[1].firstValue(), valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -558,23 +682,40 @@ func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation,
 }
 
 func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, valueUsed bool) (expressionResult, error) {
-	startIndexResult, err := t.evaluateIndex(subscript.StartIndex(), true)
+	operands := []parser.Expression{subscript.Value(), subscript.StartIndex()}
+	endIndexExpr := subscript.EndIndex()
 
-	if err != nil {
-		return expressionResult{}, err
+	if endIndexExpr != nil {
+		operands = append(operands, endIndexExpr)
 	}
-	endIndexResult, err := t.evaluateIndex(subscript.EndIndex(), true)
+	results, err := t.evaluateOperands(operands...)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	value := subscript.Value()
-	str, err := t.evaluateExpression(value, true)
+	value := results[0].firstValue()
+	startIndex := results[1].firstValue()
+	endIndex := startIndex // If no end is given, only the character at the start index is of interest.
+
+	if endIndexExpr != nil {
+		endIndex = results[2].firstValue()
+	} else if subscript.OpenEnd() {
+		endIndex, err = t.converter.StringLen(value, true)
+	}
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	s, err := t.converter.StringSubscript(str.firstValue(), startIndexResult.firstValue(), endIndexResult.firstValue(), valueUsed)
+
+	// The end index of a range is not included.
+	if endIndexExpr != nil || subscript.OpenEnd() {
+		endIndex, err = t.converter.BinaryOperation(endIndex, parser.BINARY_OPERATOR_SUBTRACTION, IntToString(1), parser.NewValueType(parser.DATA_TYPE_INTEGER, false), true)
+
+		if err != nil {
+			return expressionResult{}, err
+		}
+	}
+	s, err := t.converter.StringSubscript(value, startIndex, endIndex, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -609,14 +750,15 @@ func (t *transpiler) evaluateBlock(block parser.Block) error {
 func (t *transpiler) evaluateReturn(returnStatement parser.Return) error {
 	returnValues := []ReturnValue{}
 
-	for _, expr := range returnStatement.Values() {
-		result, err := t.evaluateExpression(expr, true)
+	results, err := t.evaluateOperands(returnStatement.Values()...)
 
-		if err != nil {
-			return err
-		}
+	if err != nil {
+		return err
+	}
+
+	for i, expr := range returnStatement.Values() {
 		returnValues = append(returnValues, ReturnValue{
-			value:     result.firstValue(),
+			value:     results[i].firstValue(),
 			valueType: expr.ValueType(),
 		})
 	}
@@ -647,13 +789,13 @@ func (t *transpiler) evaluateFunctionDefinition(functionDefinition parser.Functi
 func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valueUsed bool) (expressionResult, error) {
 	name := functionCall.Name()
 	args := []string{}
+	results, err := t.evaluateOperands(functionCall.Args()...)
 
-	for _, arg := range functionCall.Args() {
-		result, err := t.evaluateExpression(arg, true)
+	if err != nil {
+		return expressionResult{}, err
+	}
 
-		if err != nil {
-			return expressionResult{}, err
-		}
+	for _, result := range results {
 		args = append(args, result.firstValue())
 	}
 	returnTypes := functionCall.ReturnTypes()
@@ -673,19 +815,25 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 
 func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expressionResult, error) {
 	convertedCalls := []AppCall{}
+	operands := []parser.Expression{}
+
+	for nextCall := &call; nextCall != nil; nextCall = nextCall.Next() {
+		operands = append(operands, nextCall.Args()...)
+	}
+	results, err := t.evaluateOperands(operands...)
+
+	if err != nil {
+		return expressionResult{}, err
+	}
 	nextCall := &call
 
 	for nextCall != nil {
 		name := nextCall.Name()
 		args := []string{}
 
-		for _, arg := range nextCall.Args() {
-			result, err := t.evaluateExpression(arg, true)
-
-			if err != nil {
-				return expressionResult{}, err
-			}
-			args = append(args, result.firstValue())
+		for range nextCall.Args() {
+			args = append(args, results[0].firstValue())
+			results = results[1:]
 		}
 		convertedCalls = append(convertedCalls, AppCall{
 			name: name,
@@ -703,13 +851,13 @@ func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expre
 
 func (t *transpiler) evaluateSliceInstantiation(instantiation parser.SliceInstantiation, valueUsed bool) (expressionResult, error) {
 	values := []string{}
+	results, err := t.evaluateOperands(instantiation.Values()...)
 
-	for _, expr := range instantiation.Values() {
-		result, err := t.evaluateExpression(expr, true)
+	if err != nil {
+		return expressionResult{}, err
+	}
 
-		if err != nil {
-			return expressionResult{}, err
-		}
+	for _, result := range results {
 		values = append(values, result.firstValue())
 	}
 	s, err := t.converter.SliceInstantiation(values, valueUsed)
@@ -741,13 +889,17 @@ func (t *transpiler) evaluateInput(input parser.Input, valueUsed bool) (expressi
 }
 
 func (t *transpiler) evaluateCopy(copy parser.Copy, valueUsed bool) (expressionResult, error) {
+	destination, err := t.evaluateSliceVariable(copy.Destination(), copy.Source())
+
+	if err != nil {
+		return expressionResult{}, err
+	}
 	expr, err := t.evaluateExpression(copy.Source(), true)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	destination := copy.Destination()
-	amount, err := t.converter.Copy(varName(destination.Name()), expr.firstValue(), valueUsed, destination.Global())
+	amount, err := t.converter.Copy(destination.name, expr.firstValue(), valueUsed, destination.global)
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From f1b7a119b45d32a442d7e8c1a7bddaa6b3870c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 31/51] fix: use an own increment flag for each Bash loop

---
 converters/bash/converter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 0764111..dbdb631 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -19,6 +19,7 @@ type converter struct {
 	code                          []string
 	varCounter                    int
 	forCounter                    int
+	fors                          []int  // Stores the numbers of the currently open loops.
 	breakables                    []bool // Stores for each construct which can be left by break if it's a switch.
 	funcs                         []funcInfo
 	funcCounter                   int
@@ -181,6 +182,8 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	c.fors = append(c.fors, c.forCounter)
+	c.forCounter++
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
 	c.breakables = append(c.breakables, false)
 	c.addLine("while true; do")
@@ -206,7 +209,7 @@ func (c *converter) ForCondition(condition string) error {
 func (c *converter) ForEnd() error {
 	c.breakables = c.breakables[:len(c.breakables)-1]
 	c.addLine("done")
-	c.forCounter++
+	c.fors = c.fors[:len(c.fors)-1]
 
 	return nil
 }
@@ -568,7 +571,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter)
+	return fmt.Sprintf("_fv%d", c.fors[len(c.fors)-1])
 }
 
 func (c *converter) varName(name string, global bool) string {
-- 
2.43.0


From 8eb0e66ff2bbce0c8826297d714a17e6d2914a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 32/51] fix: bind more than nine arguments to parameters in
 Bash

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index dbdb631..f7dea4d 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -120,7 +120,7 @@ func (c *converter) FuncStart(name string, params []string, returnTypes []parser
 	c.addLine(fmt.Sprintf("%s() {", name))
 
 	for i, param := range params {
-		s := c.varAssignmentString(param, fmt.Sprintf("$%d", i+1), false)
+		s := c.varAssignmentString(param, fmt.Sprintf("${%d}", i+1), false)
 		c.addLine(fmt.Sprintf("local %s", s))
 	}
 	return nil
-- 
2.43.0


From daec9f57e5f417864fd75fb71e6cb57ee598d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 33/51] fix: keep string values unchanged in Bash

---
 converters/bash/converter.go | 51 ++++++++++++++----------------------
 std/os.tsh                   |  2 +-
 2 files changed, 20 insertions(+), 33 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index f7dea4d..a84ed92 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -9,6 +9,9 @@ import (
 	"github.com/monstermichl/typeshell/transpiler"
 )
 
+// quotedReplacer escapes characters which have a special meaning within double quotes.
+var quotedReplacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`, `$`, `\$`, "`", "\\`")
+
 type funcInfo struct {
 	name string
 }
@@ -35,8 +38,9 @@ func New() *converter {
 	}
 }
 
+// StringToString makes sure that the value stays unchanged if it's used within double quotes.
 func (c *converter) StringToString(value string) string {
-	return value
+	return quotedReplacer.Replace(value)
 }
 
 func (c *converter) Dump() (string, error) {
@@ -80,7 +84,7 @@ func (c *converter) ProgramEnd() error {
 			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${2}")),
 			"local _n=$(eval \"echo \\${${1}}\")",
 			"while [ ${_i} -lt ${_l} ]; do",
-			fmt.Sprintf("local _v=%s", c.sliceEvaluationString("${2}", "${_i}")),
+			c.sliceEvaluationString("_v", "${2}", "${_i}"),
 			c.sliceAssignmentString("${_n}", "${_i}", "${_v}", false),
 			"_i=$((${_i}+1))",
 			"done",
@@ -235,12 +239,12 @@ func (c *converter) Continue() error {
 }
 
 func (c *converter) Print(values []string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", strings.Join(values, " ")))
+	c.addLine(fmt.Sprintf(`printf "%%s\n" "%s"`, strings.Join(values, " ")))
 	return nil
 }
 
 func (c *converter) Panic(value string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", value))
+	c.addLine(fmt.Sprintf(`printf "%%s\n" "%s"`, value))
 	c.addLine("exit 1")
 	return nil
 }
@@ -304,7 +308,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 	case parser.DATA_TYPE_STRING:
 		switch operator {
 		case parser.BINARY_OPERATOR_ADDITION:
-			c.VarAssignment(helper, fmt.Sprintf("\"%s%s\"", left, right), false)
+			c.VarAssignment(helper, fmt.Sprintf("%s%s", left, right), false)
 		default:
 			return notAllowedError()
 		}
@@ -413,20 +417,16 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 		vals := ""
 
 		for _, value := range values {
-			vals = fmt.Sprintf(`%s \"%s\"`, vals, value)
+			vals = fmt.Sprintf(`%s "%s"`, vals, value)
 		}
-		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), strings.TrimSpace(vals)))
+		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), quotedReplacer.Replace(strings.TrimSpace(vals))))
 	}
 	return c.varEvaluationString(helper, false), nil
 }
 
 func (c *converter) SliceEvaluation(name string, index string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(
-		helper,
-		c.sliceEvaluationString(name, index),
-		false,
-	)
+	c.addLine(c.sliceEvaluationString(c.varName(helper, false), name, index))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -494,18 +494,14 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 		argsCopy := call.Args()
 
 		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "$") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf("\"%s\"", arg)
-			}
-			argsCopy[j] = arg
+			argsCopy[j] = fmt.Sprintf("\"%s\"", arg)
 		}
 		space := ""
 
 		if len(argsCopy) > 0 {
 			space = " "
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, fmt.Sprintf("\"%s\"%s%s", c.StringToString(call.Name()), space, strings.Join(argsCopy, " ")))
 	}
 	callString := strings.Join(callStrings, " | ")
 
@@ -582,17 +578,7 @@ func (c *converter) varName(name string, global bool) string {
 }
 
 func (c *converter) varAssignmentString(name string, value string, global bool) string {
-	length := len(value)
-
-	if length > 0 {
-		if string(value[length-1]) != `"` {
-			value = fmt.Sprintf(`%s"`, value)
-		}
-		if string(value[0]) != `"` {
-			value = fmt.Sprintf(`"%s`, value)
-		}
-	}
-	return fmt.Sprintf("%s=%s", c.varName(name, global), value)
+	return fmt.Sprintf(`%s="%s"`, c.varName(name, global), value)
 }
 
 func (c *converter) varEvaluationString(name string, global bool) string {
@@ -601,11 +587,12 @@ func (c *converter) varEvaluationString(name string, global bool) string {
 
 func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
 	c.sliceAssignmentHelperRequired = true
-	return fmt.Sprintf(`eval "%s[%s]=\"%s\""`, name, index, value)
+	return fmt.Sprintf(`eval "%s[%s]=%s"`, name, index, quotedReplacer.Replace(fmt.Sprintf(`"%s"`, value)))
 }
 
-func (c *converter) sliceEvaluationString(name string, index string) string {
-	return fmt.Sprintf(`$(eval "echo \${%s[%s]}")`, name, index)
+// sliceEvaluationString returns a command which assigns the value at the index to the variable.
+func (c *converter) sliceEvaluationString(variable string, name string, index string) string {
+	return fmt.Sprintf(`eval "%s=\"\${%s[%s]}\""`, variable, name, index)
 }
 
 func (c *converter) sliceLenString(name string) string {
diff --git a/std/os.tsh b/std/os.tsh
index de27e0d..d01c2cc 100644
--- a/std/os.tsh
+++ b/std/os.tsh
@@ -5,7 +5,7 @@ func Shell() string {
 	if win[:3] == "Win" {
 		shell = "batch"
 	} else {
-		stdout, stderr, code := @ps("-p", "$$", "-o", "args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", `"[0-9a-zA-Z][0-9a-zA-Z]*$"`)
+		stdout, stderr, code := @sh("-c", "ps -p $PPID -o args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", "[0-9a-zA-Z][0-9a-zA-Z]*$")
 		shell = stdout
 	}
 	return shell
-- 
2.43.0


From cf8a3b09059938f9d72af01b035b2cae331f8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 34/51] fix: write and read any content and path in Bash

---
 converters/bash/converter.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index a84ed92..003b277 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -12,6 +12,9 @@ import (
 // quotedReplacer escapes characters which have a special meaning within double quotes.
 var quotedReplacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`, `$`, `\$`, "`", "\\`")
 
+// endMarker is put behind captured output because command substitution removes all newlines at the end.
+const endMarker = "_"
+
 type funcInfo struct {
 	name string
 }
@@ -253,7 +256,11 @@ func (c *converter) WriteFile(path string, content string, append string) error
 	helper := c.nextHelperVar()
 
 	c.VarAssignment(helper, fmt.Sprintf(`$(if [ "%s" -eq "%s" ]; then echo ">>"; else echo ">"; fi)`, append, transpiler.BoolToString(true)), false)
-	c.addLine(fmt.Sprintf(`eval "echo \"%s\" %s %s"`, content, c.varEvaluationString(helper, false), path))
+	c.addLine(fmt.Sprintf(`eval "printf \"%%s\\n\" %s %s %s"`,
+		quotedReplacer.Replace(fmt.Sprintf(`"%s"`, content)),
+		c.varEvaluationString(helper, false),
+		quotedReplacer.Replace(fmt.Sprintf(`"%s"`, path)),
+	))
 	return nil
 }
 
@@ -562,7 +569,9 @@ func (c *converter) Exists(path string, valueUsed bool) (string, error) {
 
 func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, fmt.Sprintf("$(cat \"%s\")", path), false)
+	c.VarAssignment(helper, fmt.Sprintf(`$(cat < "%s"; echo "%s")`, path, endMarker), false)
+	c.removeEndMarker(helper)
+
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -622,6 +631,12 @@ func (c *converter) addStartLine(line string) {
 	c.startCode = append(c.startCode, line)
 }
 
+// removeEndMarker removes the end marker and the newline in front of it from captured output.
+func (c *converter) removeEndMarker(name string) {
+	c.VarAssignment(name, fmt.Sprintf("${%s%%%s}", c.varName(name, false), endMarker), false)
+	c.VarAssignment(name, fmt.Sprintf("${%s%%\n}", c.varName(name, false)), false)
+}
+
 func (c *converter) addLine(line string) {
 	c.code = append(c.code, line)
 }
-- 
2.43.0


From 9a3ef81b9564df1c4075aabfdce4267d671f40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 35/51] fix: only remove the trailing newline of captured
 output in Bash

---
 converters/bash/converter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 003b277..6db20d8 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -513,7 +513,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	callString := strings.Join(callStrings, " | ")
 
 	if valueUsed {
-		callString = fmt.Sprintf("$(%s)", callString)
+		callString = fmt.Sprintf("$(%s; _c=$?; echo \"%s\"; exit ${_c})", callString, endMarker)
 		helper1 := c.nextHelperVar()
 		helper2 := c.nextHelperVar()
 
@@ -524,6 +524,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 			return nil, err
 		}
 		c.VarDefinition(helper2, "$?", false)
+		c.removeEndMarker(helper1)
 		return []string{eval, "", c.varEvaluationString(helper2, false)}, nil // TODO: Return stderr (https://github.com/monstermichl/TypeShell/issues/28).
 	}
 	c.addLine(callString)
-- 
2.43.0


From 2511ac6383a860ebd536b7a93ea4a76ff4f70e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 36/51] fix: keep input unchanged and make it work in functions
 in Bash

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 6db20d8..80c8443 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -537,7 +537,7 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	if len(prompt) > 0 {
 		prompt = fmt.Sprintf(" -p \"%s\"", prompt)
 	}
-	c.addLine(fmt.Sprintf("read%s %s", prompt, helper))
+	c.addLine(fmt.Sprintf("IFS= read -r%s %s", prompt, c.varName(helper, false)))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From 1c7fa85c0534b74d54490daf4e9d80418a917a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 37/51] fix: return the number of copied elements in Bash

---
 converters/bash/converter.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 80c8443..fed22b0 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -545,11 +545,10 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	destination = c.varName(destination, global)
 
 	c.addLine(fmt.Sprintf("_sch %s %s", destination, source))
-	c.sliceAssignmentHelperRequired = true
 	c.sliceCopyHelperRequired = true
 
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(c.varEvaluationString(destination, true)), false)
+	c.VarAssignment(helper, c.sliceLenString(source), false)
 
 	return c.varEvaluationString(helper, false), nil
 }
@@ -596,7 +595,6 @@ func (c *converter) varEvaluationString(name string, global bool) string {
 }
 
 func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
-	c.sliceAssignmentHelperRequired = true
 	return fmt.Sprintf(`eval "%s[%s]=%s"`, name, index, quotedReplacer.Replace(fmt.Sprintf(`"%s"`, value)))
 }
 
-- 
2.43.0


From b3ac23d187707772cbcc6ca4157bba72bd13b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 38/51] fix: order strings which are accepted by the parser

---
 converters/bash/converter.go  | 12 +++++++++++-
 converters/batch/converter.go | 20 ++++++++++++++++----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index fed22b0..6d791e7 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -327,6 +327,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 
 func (c *converter) Comparison(left string, operator parser.CompareOperator, right string, valueType parser.ValueType, valueUsed bool) (string, error) {
 	var operatorString string
+	negation := ""
 
 	if !valueType.IsSlice() {
 		switch valueType.DataType() {
@@ -358,6 +359,14 @@ func (c *converter) Comparison(left string, operator parser.CompareOperator, rig
 				operatorString = "=="
 			case parser.COMPARE_OPERATOR_NOT_EQUAL:
 				operatorString = "!="
+			case parser.COMPARE_OPERATOR_GREATER:
+				operatorString = `\>`
+			case parser.COMPARE_OPERATOR_GREATER_OR_EQUAL:
+				negation, operatorString = "! ", `\<`
+			case parser.COMPARE_OPERATOR_LESS:
+				operatorString = `\<`
+			case parser.COMPARE_OPERATOR_LESS_OR_EQUAL:
+				negation, operatorString = "! ", `\>`
 			}
 		}
 	}
@@ -369,7 +378,8 @@ func (c *converter) Comparison(left string, operator parser.CompareOperator, rig
 
 	c.VarAssignment(
 		helper,
-		fmt.Sprintf("$(if [ \"%s\" %s \"%s\" ]; then echo %s; else echo %s; fi)",
+		fmt.Sprintf("$(if %s[ \"%s\" %s \"%s\" ]; then echo %s; else echo %s; fi)",
+			negation,
 			left,
 			operatorString,
 			right,
diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 88c4e56..8f0106f 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -492,6 +492,10 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 func (c *converter) Comparison(left string, operator parser.CompareOperator, right string, valueType parser.ValueType, valueUsed bool) (string, error) {
 	EQUAL_OPERATOR := "equ"
 	NOT_EQUAL_OPERATOR := "neq"
+	GREATER_OPERATOR := "gtr"
+	GREATER_OR_EQUAL_OPERATOR := "geq"
+	LESS_OPERATOR := "lss"
+	LESS_OR_EQUAL_OPERATOR := "leq"
 
 	var operatorString string
 	quote := ""
@@ -512,13 +516,13 @@ func (c *converter) Comparison(left string, operator parser.CompareOperator, rig
 			case parser.COMPARE_OPERATOR_NOT_EQUAL:
 				operatorString = NOT_EQUAL_OPERATOR
 			case parser.COMPARE_OPERATOR_GREATER:
-				operatorString = "gtr"
+				operatorString = GREATER_OPERATOR
 			case parser.COMPARE_OPERATOR_GREATER_OR_EQUAL:
-				operatorString = "geq"
+				operatorString = GREATER_OR_EQUAL_OPERATOR
 			case parser.COMPARE_OPERATOR_LESS:
-				operatorString = "lss"
+				operatorString = LESS_OPERATOR
 			case parser.COMPARE_OPERATOR_LESS_OR_EQUAL:
-				operatorString = "leq"
+				operatorString = LESS_OR_EQUAL_OPERATOR
 			}
 		case parser.DATA_TYPE_STRING:
 			switch operator {
@@ -526,6 +530,14 @@ func (c *converter) Comparison(left string, operator parser.CompareOperator, rig
 				operatorString = EQUAL_OPERATOR
 			case parser.COMPARE_OPERATOR_NOT_EQUAL:
 				operatorString = NOT_EQUAL_OPERATOR
+			case parser.COMPARE_OPERATOR_GREATER:
+				operatorString = GREATER_OPERATOR
+			case parser.COMPARE_OPERATOR_GREATER_OR_EQUAL:
+				operatorString = GREATER_OR_EQUAL_OPERATOR
+			case parser.COMPARE_OPERATOR_LESS:
+				operatorString = LESS_OPERATOR
+			case parser.COMPARE_OPERATOR_LESS_OR_EQUAL:
+				operatorString = LESS_OR_EQUAL_OPERATOR
 			}
 			quote = `"` // Strings shall be quoted.
 		}
-- 
2.43.0


From b412edfe600e38e04ee557dc07cda62579e79880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 39/51] fix: continue the innermost open loop in Batch

---
 converters/batch/converter.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 8f0106f..5ac6ba2 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -31,7 +31,8 @@ type funcInfo struct {
 }
 
 type forInfo struct {
-	label string
+	label    string
+	variable string
 }
 
 type ifInfo struct {
@@ -82,6 +83,10 @@ func forLabel(count int) string {
 	return fmt.Sprintf(":_f%d", count)
 }
 
+func forVar(count int) string {
+	return fmt.Sprintf("_fv%d", count)
+}
+
 func ifLabel(count int) string {
 	return fmt.Sprintf(":_i%d", count)
 }
@@ -355,10 +360,12 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	variable := forVar(c.forCounter)
 	label := c.nextForLabel()
 	c.nextEndLabel()
 	c.fors = append(c.fors, forInfo{
-		label: label,
+		label:    label,
+		variable: variable,
 	})
 	c.addLine(fmt.Sprintf(`set "%s="`, c.mustCurrentForVar()))
 	c.addLine(label)
@@ -382,9 +389,7 @@ func (c *converter) ForCondition(condition string) error {
 }
 
 func (c *converter) ForEnd() error {
-	w := c.fors[len(c.fors)-1]
-
-	c.addLine(fmt.Sprintf("goto %s", w.label))
+	c.addLine(fmt.Sprintf("goto %s", c.mustCurrentForLabel()))
 	c.addLine(")")
 
 	endLabel := c.popEndLabel()
@@ -844,11 +849,11 @@ func (c *converter) addEndLine(line string) {
 }
 
 func (c *converter) mustCurrentForLabel() string {
-	return forLabel(c.forCounter - 1)
+	return c.mustCurrentForInfo().label
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter-1)
+	return c.mustCurrentForInfo().variable
 }
 
 func (c *converter) nextForLabel() string {
@@ -889,6 +894,10 @@ func (c *converter) mustCurrentFuncInfo() funcInfo {
 	return c.funcs[len(c.funcs)-1]
 }
 
+func (c *converter) mustCurrentForInfo() forInfo {
+	return c.fors[len(c.fors)-1]
+}
+
 func (c *converter) mustCurrentIfInfo() ifInfo {
 	return c.ifs[len(c.ifs)-1]
 }
-- 
2.43.0


From a1008ff0fd78713816e8c356609ab16928ea0809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 40/51] fix: keep slice lengths and return the number of copied
 elements in Batch

---
 converters/batch/converter.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 5ac6ba2..73bafaa 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -172,7 +172,6 @@ func (c *converter) ProgramEnd() error {
 	if c.sliceCopyHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Destination slice
 		// %2: Source slice
@@ -180,20 +179,20 @@ func (c *converter) ProgramEnd() error {
 			`set "_i=0"`,
 			c.callFuncString(sliceLenGetHelper, []string{}, "%2"),
 			":_sch_loop",
-			`if "!_i!" lss "!_len!" (`,
+			`if !_i! lss !_len! (`,
 			`for /f "delims=" %%i in ("%2_!_i!") do set "_v=!%%i!"`,
 			c.sliceAssignmentString("!%1!", "!_i!", "!_v!", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sch_loop",
 			")",
-			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!"),
+			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"),
+			fmt.Sprintf("if !_i! gtr !_len! %s", c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!")),
 		)
 	}
 
 	if c.sliceAssignmentHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Slice name
 		// %2: Assigned index
@@ -203,11 +202,11 @@ func (c *converter) ProgramEnd() error {
 			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"), // Get current slice length.
 			`set "_i=!_len!"`,
 			":_sah_loop",
-			`if "!_i!" lss "%2" (`,
+			`if !_i! lss %2 (`,
 			c.sliceAssignmentString("!%1!", "!_i!", "%3", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sah_loop",
-			") else (",
+			") else if !_i! equ %2 (",
 			`set /A "_len=%2+1"`,
 			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_len!"),
 			")",
@@ -614,7 +613,7 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, "_dv!_dvc!", false)
 
-	c.sliceAssignmentHelperRequired = true
+	c.sliceLenSetHelperRequired = true
 	c.callFunc(sliceLenSetHelper, []string{}, c.varEvaluationString(helper, false), strconv.Itoa(len(values)))
 
 	// Init slice values.
@@ -754,11 +753,13 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) Copy(destination string, source string, valueUsed bool, global bool) (string, error) {
+	helper := c.nextHelperVar()
+
 	c.sliceCopyHelperRequired = true
 	c.callFunc(sliceCopyHelper, []string{}, c.varName(destination, global), source)
+	c.VarAssignment(helper, c.varEvaluationString("_i", true), false)
 
-	c.callFunc(sliceLenGetHelper, []string{}, c.varEvaluationString(destination, global))
-	return c.varEvaluationString("_len", true), nil
+	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) Exists(path string, valueUsed bool) (string, error) {
-- 
2.43.0


From bf400aca53e4ceeaa8dde8e1b3e7bd9fba40c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 41/51] fix: leave all functions on panic in Batch

---
 converters/batch/converter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 73bafaa..0ac0658 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -686,6 +686,7 @@ func (c *converter) Group(value string, valueUsed bool) (string, error) {
 func (c *converter) FuncCall(name string, args []string, returnTypes []parser.ValueType, valueUsed bool) ([]string, error) {
 	returnValues := []string{}
 	c.callFunc(name, args)
+	c.addLine(`if "!_e!" neq "0" goto :end`) // If the function panicked, the caller has to be left as well.
 
 	if valueUsed {
 		for i := range returnTypes {
-- 
2.43.0


From 771d6b6b09e7df8e9bee9ad02d248770f52647fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 42/51] fix: print, slice and read special strings in Batch

---
 converters/batch/converter.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 0ac0658..e9fa62a 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -229,7 +229,8 @@ func (c *converter) ProgramEnd() error {
 	if c.stringSubscriptHelperRequired {
 		c.addHelper("string subscript", stringSubscriptHelper,
 			`set /A "_sh=(%2-%1)+1"`,
-			fmt.Sprintf(`set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0)), // https://stackoverflow.com/a/636391
+			`set "_sub="`,
+			fmt.Sprintf(`if defined %s set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0), funcArgVar(0)), // https://stackoverflow.com/a/636391
 		)
 	}
 
@@ -247,7 +248,7 @@ func (c *converter) ProgramEnd() error {
 	if c.echoHelperRequired {
 		v := c.varEvaluationString(funcArgVar(0), true)
 		c.addHelper("echo", echoHelper,
-			fmt.Sprintf(`if "%s" neq "" (echo %s) else echo.`, v, v), // echo. could be problematic (see discussion: https://stackoverflow.com/a/20691061).
+			fmt.Sprintf("echo(%s", v), // echo( works with any value (see discussion: https://stackoverflow.com/a/20691061).
 		)
 	}
 	c.addEndLine(":end")
@@ -749,7 +750,8 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 
 func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, helper, prompt))
+	c.VarAssignment(helper, "", false) // If nothing is entered, the variable would keep its value.
+	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, c.varName(helper, false), prompt))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From ff377b28a311cba4c41dc0281b11e4ddf7681239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 43/51] fix: keep quotes in strings from changing the structure
 of Batch scripts

---
 converters/batch/converter.go | 38 +++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index e9fa62a..8c93d6f 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -55,6 +55,7 @@ type converter struct {
 	fors                          []forInfo
 	ifs                           []ifInfo
 	lfSet                         bool
+	quoteSet                      bool
 	appCallHelperRequired         bool
 	readHelperRequired            bool
 	sliceAssignmentHelperRequired bool
@@ -100,6 +101,12 @@ func (c *converter) StringToString(value string) string {
 	// Replace "\n" with Batch newline value.
 	value = strings.ReplaceAll(value, "\n", "!LF!")
 
+	// Replace quotes because they would end the surrounding quotes.
+	if strings.Contains(value, `"`) {
+		c.addQuote()
+		value = strings.ReplaceAll(value, `"`, "!_q!")
+	}
+
 	return value
 }
 
@@ -713,18 +720,14 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 		argsCopy := call.Args()
 
 		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "%") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf(`"%s"`, arg)
-			}
-			argsCopy[j] = arg
+			argsCopy[j] = c.appCallString(arg, valueUsed)
 		}
 		space := ""
 
 		if len(argsCopy) > 0 {
 			space = " "
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", c.appCallString(c.StringToString(call.Name()), valueUsed), space, strings.Join(argsCopy, " ")))
 	}
 
 	if valueUsed {
@@ -939,6 +942,29 @@ func (c *converter) sliceAssignmentString(name string, index string, value strin
 	return fmt.Sprintf(`set "%s_%s=%s"`, name, index, value)
 }
 
+// appCallString quotes the value if it contains characters which would be interpreted otherwise.
+func (c *converter) appCallString(value string, valueUsed bool) string {
+	quote := `"`
+
+	if !strings.HasPrefix(value, "%") && !strings.ContainsAny(value, " \t()&|<>^;,=") {
+		return value
+	}
+
+	// If the call string is stored in a variable first, its quotes must not end the surrounding quotes.
+	if valueUsed {
+		c.addQuote()
+		quote = "!_q!"
+	}
+	return fmt.Sprintf("%s%s%s", quote, value, quote)
+}
+
+func (c *converter) addQuote() {
+	if !c.quoteSet {
+		c.addStartLine(`set _q="`)
+		c.quoteSet = true
+	}
+}
+
 func (c *converter) addLf() {
 	if !c.lfSet {
 		c.addStartLine("(set LF=^") // https://stackoverflow.com/a/60389149
-- 
2.43.0


From 5003388a3264aa5432fc250454f45835fa64a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 44/51] fix: use a new converter for each requested type

---
 tsh.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tsh.go b/tsh.go
index 92bab69..38ce09a 100644
--- a/tsh.go
+++ b/tsh.go
@@ -16,9 +16,10 @@ const (
 	typeBash  string = "bash"
 )
 
-var convMapping = map[string]transpiler.Converter{
-	typeBatch: batch.New(),
-	typeBash:  bash.New(),
+// A converter holds the state of one transpilation, therefore a new one is required for each.
+var convMapping = map[string]func() transpiler.Converter{
+	typeBatch: func() transpiler.Converter { return batch.New() },
+	typeBash:  func() transpiler.Converter { return bash.New() },
 }
 
 type options struct {
@@ -63,7 +64,7 @@ func parseOptions() options {
 			if !ok {
 				panic(fmt.Errorf("unknown converter type %s. Allowed types are %s", cValue, strings.Join(types, ", ")))
 			}
-			options.converters = append(options.converters, conv)
+			options.converters = append(options.converters, conv())
 		default:
 			panic(fmt.Errorf("unknown option %s", cSwitch))
 		}
-- 
2.43.0


From 2d0f9c22127d07e12307e9cf7ac3181293c3e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 45/51] fix: reject options without a value

---
 tsh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index 38ce09a..b17fa38 100644
--- a/tsh.go
+++ b/tsh.go
@@ -37,8 +37,12 @@ func parseOptions() options {
 		types = append(types, k)
 	}
 
-	for i := 1; i < (len(args) - 1); i += 2 {
+	for i := 1; i < len(args); i += 2 {
 		cSwitch := args[i]
+
+		if i == len(args)-1 {
+			panic(fmt.Errorf("no value provided for option %s", cSwitch))
+		}
 		cValue := args[i+1]
 
 		switch cSwitch {
-- 
2.43.0


From 44742aaf7600381a2b867eec2b15a91f8289971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 46/51] fix: don't overwrite the input file and report write
 errors

---
 tsh.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index b17fa38..65ca6fe 100644
--- a/tsh.go
+++ b/tsh.go
@@ -84,6 +84,17 @@ func parseOptions() options {
 	return options
 }
 
+func isSameFile(path1 string, path2 string) bool {
+	stat1, err := os.Stat(path1)
+
+	if err != nil {
+		return false
+	}
+	stat2, err := os.Stat(path2)
+
+	return err == nil && os.SameFile(stat1, stat2)
+}
+
 func main() {
 	options := parseOptions()
 	t := transpiler.New()
@@ -97,7 +108,16 @@ func main() {
 		}
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
+		out := filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension()))
 
-		os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		// Make sure the input file doesn't get overwritten.
+		if isSameFile(in, out) {
+			panic(fmt.Errorf("input file %s would be overwritten", in))
+		}
+		err = os.WriteFile(out, []byte(dump), 0777)
+
+		if err != nil {
+			panic(err)
+		}
 	}
 }
-- 
2.43.0


From 49ba17ebae6c303f473868468f7306364b4d5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 47/51] fix: return the results of Go's strings package for
 empty strings, separators at the end and zero counts

---
 std/strings.tsh | 58 ++++++++++++++++++-------------------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index e9426f9..bed8ca1 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -2,7 +2,7 @@ func Index(s string, substr string) int {
 	sul := len(substr)
 	ind := -1
 
-	for i := 0; i < len(s); i++ {
+	for i := 0; i <= len(s) - sul; i++ {
 		j := 0
 
 		for ; j < sul; j++ {
@@ -53,8 +53,7 @@ func HasSuffix(s string, suffix string) bool {
 	l := len(suffix)
 
 	if len(s) >= l {
-		l *= -1
-		return s[l:] == suffix
+		return s[len(s)-l:] == suffix
 	}
 	return false
 }
@@ -84,48 +83,37 @@ func Split(s string, sep string) []string {
 	sepLen := len(sep)
 	elems := []string{}
 
-	// If s and sep are empty, slice will be empty.
-	if sLen > 0 || sepLen > 0 {
+	// If sep is empty, split after every char.
+	if sepLen == 0 {
+		for i, c := range s {
+			elems[i] = c
+		}
+	} else {
 		startI := 0
 		endI := 0
 		elIndex := 0
-		boundary := len(s)
-
-		if sLen > 0 {
-			boundary -= sepLen
-		}
 
-		for endI <= boundary {
+		for endI <= sLen-sepLen {
 			if s[endI:endI+sepLen] == sep {
-				sepEmpty := sepLen == 0
-
-				// If sep is empty, split after every char.
-				if sepEmpty {
-					endI++
-				}
-
-				if !sepEmpty || endI <= boundary {
-					elems[elIndex] = s[startI:endI]
-					endI += sepLen
-					startI = endI
-				}
+				elems[elIndex] = s[startI:endI]
+				endI += sepLen
+				startI = endI
 				elIndex++
-			} else if endI == boundary {
-				// Add last element to slice.
-				elems[elIndex] = s[startI:]
-				break
 			} else {
 				endI++
 			}
 		}
+
+		// Add last element to slice.
+		elems[elIndex] = s[startI:]
 	}
 	return elems
 }
 
 func Repeat(s string, count int) string {
-	new := s
+	new := ""
 
-	for i := 1; i < count; i++ {
+	for i := 0; i < count; i++ {
 		new += s
 	}
 	return new
@@ -138,7 +126,7 @@ func Replace(s string, old string, new string, n int) string {
 	lenOld := len(old)
 	lenNew := len(new)
 
-	if lenOld == 0 {
+	if lenOld == 0 && n != 0 {
 		res = new
 		rep++
 	}
@@ -181,14 +169,10 @@ func CutSuffix(s string, suffix string) (string, bool) {
 }
 
 func Cut(s string, sep string) (string, string, bool) {
-	lenS := len(s)
-
-	if lenS > 0 {
-		i := Index(s, sep)
+	i := Index(s, sep)
 
-		if i >= 0 {
-			return s[0:i], s[i+len(sep):], true
-		}
+	if i >= 0 {
+		return s[0:i], s[i+len(sep):], true
 	}
 	return s, "", false
 }
-- 
2.43.0


From 23b202e4bd15ff56b7ebd1d4f25e91cce42ffa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 48/51] fix: quote paths of file operations in Batch

---
 converters/batch/converter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 8c93d6f..7b46d5f 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -146,7 +146,7 @@ func (c *converter) ProgramEnd() error {
 			`set "_a=>"`,
 			fmt.Sprintf(`if "%%2" equ "%s" set "_a=>>"`, transpiler.BoolToString(true)),
 			fmt.Sprintf(`for /f "delims=" %%%%i in ("!%s!") do (`, funcArgVar(0)),
-			`for /f "delims=" %%j in ('echo %%i!_a! %~1') do (`,
+			`for /f "delims=" %%j in ('echo %%i!_a! "%~1"') do (`,
 			"rem", // NOP (https://stackoverflow.com/a/7191952). The for-loop is just required to expand !_a! delayed.
 			`)`,
 			`set "_a=>>"`,
@@ -169,7 +169,7 @@ func (c *converter) ProgramEnd() error {
 	if c.readHelperRequired {
 		c.addHelper("read", fileReadHelper,
 			`set "_h="`,
-			`for /f "delims=" %%i in (%~1) do (`,
+			`for /f "usebackq delims=" %%i in ("%~1") do (`,
 			`if defined _h set "_h=!_h!!LF!"`,
 			`set "_h=!_h!%%i"`,
 			")",
@@ -435,7 +435,7 @@ func (c *converter) WriteFile(path string, content string, append string) error
 
 	// Use global variable to pass content to write file helper because Batch doesn't
 	// support newline passing because it splits arguments at newlines.
-	c.callFunc(fileWriteHelper, []string{content}, path, append)
+	c.callFunc(fileWriteHelper, []string{content}, fmt.Sprintf(`"%s"`, path), append)
 
 	return nil
 }
@@ -784,7 +784,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	c.readHelperRequired = true
 
 	c.addLf()
-	c.callFunc(fileReadHelper, []string{}, path)
+	c.callFunc(fileReadHelper, []string{}, fmt.Sprintf(`"%s"`, path))
 	c.VarAssignment(helper, c.varEvaluationString("_h", true), false)
 
 	return c.VarEvaluation(helper, valueUsed, false)
-- 
2.43.0


From b2060057033d06d1dc3d4b28e7caaf49d74a3bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:33 +0000
Subject: [PATCH 49/51] fix: make the prefix of imported files independent of
 their layout

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index bf369db..c2249dc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -292,10 +292,15 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	p.path = path
 	p.prefix = ""
 
-	// If it's an imported file, use source hash as prefix.
+	// If it's an imported file, use source hash as prefix. The hash is based on the tokens because the layout must not have an impact.
 	if imported {
 		h := sha256.New()
-		h.Write(source)
+
+		for _, token := range tokens {
+			if token.Type() != lexer.NEWLINE {
+				fmt.Fprintf(h, "%d %q\n", token.Type(), token.Value())
+			}
+		}
 
 		p.prefix = p.uniquePrefix(fmt.Sprintf(".%x", h.Sum(nil))[0:8]) // Only use the 7 first characters (inspired by Git).
 	}
-- 
2.43.0


From 000eaa50b93e66f466ecf01a2c1120777b54b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 50/51] fix: keep control characters of slice literals
 unchanged in Bash

---
 converters/bash/converter.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 6d791e7..3093f03 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -430,13 +430,9 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, fmt.Sprintf(`_dv%s`, c.varEvaluationString("_dvc", true)), false)
 
-	if len(values) > 0 {
-		vals := ""
-
-		for _, value := range values {
-			vals = fmt.Sprintf(`%s "%s"`, vals, value)
-		}
-		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), quotedReplacer.Replace(strings.TrimSpace(vals))))
+	// The elements are assigned one by one because Bash doubles \x01 characters in compound assignments.
+	for i, value := range values {
+		c.addLine(fmt.Sprintf(`eval "%s[%d]=%s"`, c.varEvaluationString(helper, false), i, quotedReplacer.Replace(fmt.Sprintf(`"%s"`, value))))
 	}
 	return c.varEvaluationString(helper, false), nil
 }
-- 
2.43.0


From 1b6e080d75d07d804abc2063e426f973c2318551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 51/51] fix: a block that consists of unused values only is not
 empty in the script

---
 transpiler/transpiler.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index fb6778b..e376c60 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -727,11 +727,26 @@ func (t *transpiler) evaluateGroup(group parser.Group, valueUsed bool) (expressi
 	return t.evaluateExpression(group.Child(), valueUsed)
 }
 
+// resultsInNoCode returns true for statements which are just a value and
+// therefore do not result in any code (e.g. a literal).
+func (t *transpiler) resultsInNoCode(statement parser.Statement) bool {
+	switch statement.StatementType() {
+	case parser.STATEMENT_TYPE_BOOL_LITERAL, parser.STATEMENT_TYPE_INT_LITERAL, parser.STATEMENT_TYPE_STRING_LITERAL, parser.STATEMENT_TYPE_VAR_EVALUATION:
+		return true
+	case parser.STATEMENT_TYPE_GROUP:
+		return t.resultsInNoCode(statement.(parser.Group).Child())
+	case parser.STATEMENT_TYPE_ITOA:
+		return t.resultsInNoCode(statement.(parser.Itoa).Value())
+	}
+	return false
+}
+
 func (t *transpiler) evaluateBlock(block parser.Block) error {
 	body := block.Body()
 	length := len(body)
 
-	if length == 0 {
+	// A block must contain at least one command.
+	if !slices.ContainsFunc(body, func(statement parser.Statement) bool { return !t.resultsInNoCode(statement) }) {
 		return t.converter.Nop()
 	}
 	for index, statement := range body {
-- 
2.43.0

