From b9fbb87b105dc54d6738af4c3c8ed96a9ae007a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 01/13] fix: reject integers that do not fit in int instead of
 silently clamping them

---
 pkg/core/parser/parser.go     | 7 +++++--
 pkg/core/parser/parser.pigeon | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 67c782b..1152f08 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -2346,8 +2346,11 @@ func (p *parser) callonIncRandCount1() error {
 func (c *current) onInteger1() (interface{}, error) {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	value, err := strconv.Atoi(s)
+	if err != nil {
+		// 整数が大きすぎる場合など
+		return ast.NewInt(0), fmt.Errorf("invalid integer: %s", s)
+	}
 
 	return ast.NewInt(value), nil
 }
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 97ba423..cef50ba 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -356,8 +356,11 @@ IncRandCount <- #{
 Integer <- [0-9]+ {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	value, err := strconv.Atoi(s)
+	if err != nil {
+		// 整数が大きすぎる場合など
+		return ast.NewInt(0), fmt.Errorf("invalid integer: %s", s)
+	}
 
 	return ast.NewInt(value), nil
 }
-- 
2.43.0


From 43508983bb489ad22b4e8a6d88a7fc2f82c3e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 02/13] fix: reject dice counts too large to allocate instead
 of panicking

---
 pkg/core/dice/roller/roller.go         | 12 ++++++++++++
 pkg/core/evaluator/eval_u_roll_expr.go |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index ae54df5..497e553 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -30,9 +30,13 @@ func (dr *DiceRoller) DieFeeder() feeder.DieFeeder {
 	return dr.feeder
 }
 
+// MaxNumOfDice は、一度に振ることができるダイスの最大数。
+const MaxNumOfDice = 10000
+
 // RollDice は、sides個の面を持つダイスをnum個振り、その結果を返す。
 //
 // num、sidesともに正の整数でなければならない。
+// また、numはMaxNumOfDice以下でなければならない。
 // この条件が満たされていなかった場合は、エラーを返す。
 func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 	if sides < 1 {
@@ -51,6 +55,14 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 		)
 	}
 
+	if num > MaxNumOfDice {
+		return nil, fmt.Errorf(
+			"RollDice(num: %d, sides: %d): 振るダイス数が多すぎます",
+			num,
+			sides,
+		)
+	}
+
 	// 結果のスライスの領域をnum個分確保する
 	rolledDice := make([]dice.Die, 0, num)
 
diff --git a/pkg/core/evaluator/eval_u_roll_expr.go b/pkg/core/evaluator/eval_u_roll_expr.go
index 400600c..a9fdfe0 100644
--- a/pkg/core/evaluator/eval_u_roll_expr.go
+++ b/pkg/core/evaluator/eval_u_roll_expr.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
+	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
 )
 
@@ -100,6 +101,14 @@ func (e *Evaluator) evalCompoundingRoll(
 		)
 	}
 
+	if numVal > roller.MaxNumOfDice {
+		return nil, fmt.Errorf(
+			"evalCompoundingRoll(num: %d, sides: %d): 振るダイス数が多すぎます",
+			numVal,
+			sidesVal,
+		)
+	}
+
 	valueGroups := make([]object.Object, 0, numVal)
 	for i := 0; i < numVal; i++ {
 		valueGroup := []object.Object{}
-- 
2.43.0


From 3388a07d2a1a50564bb2e5b7883a0eb9286082dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 03/13] fix: reject fed dice whose value is not one of the
 die's faces

---
 pkg/core/dice/roller/roller.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index 497e553..bddce8f 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -82,6 +82,16 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 			)
 		}
 
+		if d.Value < 1 || d.Value > sides {
+			return nil, fmt.Errorf(
+				"RollDice(num: %d, sides: %d) -> %d/%d: 出目が範囲外です",
+				num,
+				sides,
+				d.Value,
+				d.Sides,
+			)
+		}
+
 		rolledDice = append(rolledDice, d)
 	}
 
-- 
2.43.0


From 0370e9e4ff4c3427eb8a9f9ff90f51ecaa3a1273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 04/13] fix: evaluate the operands of a lone dice roll on the
 left of a comparison

---
 pkg/core/evaluator/eval_var_args.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 5969ffe..517ffc3 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -158,7 +158,17 @@ func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
 // evalVarArgsInCompare は、比較式の左辺の可変ノードの引数および右辺を評価する。
 func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 	// 左辺の可変ノードの引数を評価して整数に変換する
-	leftEvalErr := e.EvalVarArgs(node.Left())
+	left := node.Left()
+	var leftEvalErr error
+
+	if left.IsPrimaryExpression() {
+		if left.IsVariable() {
+			leftEvalErr = e.evalVarArgsOfVariableExpr(left)
+		}
+	} else {
+		leftEvalErr = e.EvalVarArgs(left)
+	}
+
 	if leftEvalErr != nil {
 		return leftEvalErr
 	}
-- 
2.43.0


From 7b8548fc1156d2760cf2c84f77beafe250b78d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 05/13] fix: evaluate random numbers used directly as terms of
 additive roll expressions

---
 pkg/core/evaluator/determine_values.go | 20 +++++++++++++++++++-
 pkg/core/evaluator/eval_var_args.go    |  5 +++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/pkg/core/evaluator/determine_values.go b/pkg/core/evaluator/determine_values.go
index d011c51..6b44df2 100644
--- a/pkg/core/evaluator/determine_values.go
+++ b/pkg/core/evaluator/determine_values.go
@@ -20,8 +20,11 @@ func (e *Evaluator) DetermineValues(node ast.Node) error {
 }
 
 func (e *Evaluator) determineValueOfVariableExpr(node ast.Node) (ast.Node, error) {
-	if node.Type() == ast.D_ROLL_NODE {
+	switch node.Type() {
+	case ast.D_ROLL_NODE:
 		return e.determineValueOfDRoll(node.(*ast.VariableInfixExpression))
+	case ast.RANDOM_NUMBER_NODE:
+		return e.determineValueOfRandomNumber(node)
 	}
 
 	return nil, fmt.Errorf("determineValueOfVariableExpr not implemented: %s", node.Type())
@@ -51,6 +54,21 @@ func (e *Evaluator) determineValueOfDRoll(
 	return ast.NewSumRollResult(rolledDice), nil
 }
 
+// determineValueOfRandomNumber はランダム数値取り出しの値を決定し、それを表すノードを返す。
+func (e *Evaluator) determineValueOfRandomNumber(node ast.Node) (ast.Node, error) {
+	obj, err := e.Eval(node)
+	if err != nil {
+		return nil, err
+	}
+
+	valueNode := objectToIntNode(obj)
+	if valueNode.Value < 0 {
+		return ast.NewUnaryMinus(ast.NewInt(-valueNode.Value)), nil
+	}
+
+	return valueNode, nil
+}
+
 type nodeSetter func(ast.Node)
 
 func (e *Evaluator) replaceVariablePrimaryExpr(node ast.Node, setter nodeSetter) error {
diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 517ffc3..b08b08c 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -36,14 +36,15 @@ func (e *Evaluator) EvalVarArgs(node ast.Node) error {
 // このメソッドは、ノードの型に合わせて処理を振り分ける。
 func (e *Evaluator) evalVarArgsOfVariableExpr(node ast.Node) error {
 	switch node.Type() {
-	case ast.D_ROLL_NODE, ast.B_ROLL_NODE, ast.R_ROLL_NODE, ast.U_ROLL_NODE:
+	case ast.D_ROLL_NODE, ast.B_ROLL_NODE, ast.R_ROLL_NODE, ast.U_ROLL_NODE,
+		ast.RANDOM_NUMBER_NODE:
 		return e.evalVarArgsOfRoll(node.(ast.InfixExpression))
 	}
 
 	return fmt.Errorf("evalVarArgsOfVariableExpr not implemented: %s", node.Type())
 }
 
-// evalVarArgsOfRoll はダイスロールノードの引数を評価して整数に変換する。
+// evalVarArgsOfRoll はダイスロールノードやランダム数値取り出しノードの引数を評価して整数に変換する。
 func (e *Evaluator) evalVarArgsOfRoll(node ast.InfixExpression) error {
 	leftObj, leftErr := e.Eval(node.Left())
 	if leftErr != nil {
-- 
2.43.0


From 702224afbab35c24a381c2b073b0a4d8a47a064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 06/13] fix: parse division operands once so nested divisions
 take polynomial time

---
 pkg/core/parser/parser.go     | 101 ++++++++++++++--------------------
 pkg/core/parser/parser.pigeon |   8 +--
 2 files changed, 44 insertions(+), 65 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 1152f08..25792be 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -56,7 +56,7 @@ func leftAssociativeMultitive(first interface{}, rest interface{}) (ast.Node, er
 		right := rs[1].(ast.Node)
 
 		roundingMethod := ""
-		if len(rs) >= 3 {
+		if len(rs) >= 3 && rs[2] != nil {
 			roundingMethod = strings.ToUpper(string(rs[2].([]byte)))
 		}
 
@@ -827,32 +827,25 @@ var g = &grammar{
 													pos:  position{line: 233, col: 52, offset: 5264},
 													name: "IntExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 233, col: 67, offset: 5279},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 233, col: 67, offset: 5279},
+													expr: &charClassMatcher{
+														pos:        position{line: 233, col: 67, offset: 5279},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
 											pos: position{line: 233, col: 76, offset: 5288},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 233, col: 77, offset: 5289},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 233, col: 77, offset: 5289},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 233, col: 83, offset: 5295},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 233, col: 77, offset: 5289},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
 													pos:  position{line: 233, col: 88, offset: 5300},
@@ -1110,32 +1103,25 @@ var g = &grammar{
 													pos:  position{line: 265, col: 56, offset: 6079},
 													name: "DRollExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 265, col: 73, offset: 6096},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 265, col: 73, offset: 6096},
+													expr: &charClassMatcher{
+														pos:        position{line: 265, col: 73, offset: 6096},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
 											pos: position{line: 265, col: 82, offset: 6105},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 265, col: 83, offset: 6106},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 265, col: 83, offset: 6106},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 265, col: 89, offset: 6112},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 265, col: 83, offset: 6106},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
 													pos:  position{line: 265, col: 94, offset: 6117},
@@ -1364,32 +1350,25 @@ var g = &grammar{
 													pos:  position{line: 289, col: 60, offset: 6793},
 													name: "IntRandExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 289, col: 79, offset: 6812},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 289, col: 79, offset: 6812},
+													expr: &charClassMatcher{
+														pos:        position{line: 289, col: 79, offset: 6812},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
 											pos: position{line: 289, col: 88, offset: 6821},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 289, col: 89, offset: 6822},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 289, col: 89, offset: 6822},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 289, col: 95, offset: 6828},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 289, col: 89, offset: 6822},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
 													pos:  position{line: 289, col: 100, offset: 6833},
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index cef50ba..9a10072 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -45,7 +45,7 @@ func leftAssociativeMultitive(first interface{}, rest interface{}) (ast.Node, er
 		right := rs[1].(ast.Node)
 
 		roundingMethod := ""
-		if len(rs) >= 3 {
+		if len(rs) >= 3 && rs[2] != nil {
 			roundingMethod = strings.ToUpper(string(rs[2].([]byte)))
 		}
 
@@ -230,7 +230,7 @@ IntExprAdditive <- first:IntExprMultitive rest:(('+' / '-') IntExprMultitive)* {
 	return leftAssociativeAdditive(first, rest)
 }
 
-IntExprMultitive <- first:IntExprPrimary rest:('/' IntExprPrimary [ur]i / (('*' / '/') IntExprPrimary))* {
+IntExprMultitive <- first:IntExprPrimary rest:(('/' IntExprPrimary [ur]i?) / ('*' IntExprPrimary))* {
 	return leftAssociativeMultitive(first, rest)
 }
 
@@ -262,7 +262,7 @@ DRollExprAdditive <- first:DRollExprMultitive rest:(('+' / '-') DRollExprMultiti
 	return leftAssociativeAdditive(first, rest)
 }
 
-DRollExprMultitive <- first:DRollExprPrimary rest:('/' DRollExprPrimary [ur]i / (('*' / '/') DRollExprPrimary))* {
+DRollExprMultitive <- first:DRollExprPrimary rest:(('/' DRollExprPrimary [ur]i?) / ('*' DRollExprPrimary))* {
 	return leftAssociativeMultitive(first, rest)
 }
 
@@ -286,7 +286,7 @@ IntRandExprAdditive <- first:IntRandExprMultitive rest:(('+' / '-') IntRandExprM
 	return leftAssociativeAdditive(first, rest)
 }
 
-IntRandExprMultitive <- first:IntRandExprPrimary rest:('/' IntRandExprPrimary [ur]i / (('*' / '/') IntRandExprPrimary))* {
+IntRandExprMultitive <- first:IntRandExprPrimary rest:(('/' IntRandExprPrimary [ur]i?) / ('*' IntRandExprPrimary))* {
 	return leftAssociativeMultitive(first, rest)
 }
 
-- 
2.43.0


From 7ad9fd9183f542f7ab89b54952eedf9e3f71a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 07/13] fix: add and subtract the terms of an open-ended roll's
 bonus from left to right

---
 pkg/core/parser/parser.go     | 28 ++++++++++++++++++++++------
 pkg/core/parser/parser.pigeon | 26 +++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 25792be..08b2c13 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -630,7 +630,7 @@ var g = &grammar{
 						&labeledExpr{
 							pos:   position{line: 187, col: 34, offset: 4123},
 							label: "bonus",
-							expr: &zeroOrOneExpr{
+							expr: &zeroOrMoreExpr{
 								pos: position{line: 187, col: 40, offset: 4129},
 								expr: &seqExpr{
 									pos: position{line: 187, col: 41, offset: 4130},
@@ -652,7 +652,7 @@ var g = &grammar{
 										},
 										&ruleRefExpr{
 											pos:  position{line: 187, col: 53, offset: 4142},
-											name: "IntExprAdditive",
+											name: "IntExprMultitive",
 										},
 									},
 								},
@@ -2020,12 +2020,28 @@ func (p *parser) callonURollComp1() (interface{}, error) {
 }
 
 func (c *current) onURollExpr1(uRollList, bonus interface{}) (interface{}, error) {
-	bonusSlice := toIfaceSlice(bonus)
+	bonusTerms := toIfaceSlice(bonus)
 
 	var bonusNode ast.InfixExpression = nil
-	if bonusSlice != nil {
-		op := string(bonusSlice[0].([]byte))
-		right := bonusSlice[1].(ast.Node)
+	if len(bonusTerms) > 0 {
+		firstTerm := toIfaceSlice(bonusTerms[0])
+		op := string(firstTerm[0].([]byte))
+		right := firstTerm[1].(ast.Node)
+
+		if len(bonusTerms) > 1 {
+			// 項が複数ある場合は、左から順に加減算した値をボーナスとする
+			if op == "-" {
+				op = "+"
+				right = ast.NewUnaryMinus(right)
+			}
+
+			sum, err := leftAssociativeAdditive(right, bonusTerms[1:])
+			if err != nil {
+				return nil, err
+			}
+
+			right = sum
+		}
 
 		switch op {
 		case "+":
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 9a10072..d3be557 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -184,13 +184,29 @@ URollComp <- left:URollExpr op:CompareOp right:IntExpr {
 	), nil
 }
 
-URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprAdditive)? {
-	bonusSlice := toIfaceSlice(bonus)
+URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprMultitive)* {
+	bonusTerms := toIfaceSlice(bonus)
 
 	var bonusNode ast.InfixExpression = nil
-	if bonusSlice != nil {
-		op := string(bonusSlice[0].([]byte))
-		right := bonusSlice[1].(ast.Node)
+	if len(bonusTerms) > 0 {
+		firstTerm := toIfaceSlice(bonusTerms[0])
+		op := string(firstTerm[0].([]byte))
+		right := firstTerm[1].(ast.Node)
+
+		if len(bonusTerms) > 1 {
+			// 項が複数ある場合は、左から順に加減算した値をボーナスとする
+			if op == "-" {
+				op = "+"
+				right = ast.NewUnaryMinus(right)
+			}
+
+			sum, err := leftAssociativeAdditive(right, bonusTerms[1:])
+			if err != nil {
+				return nil, err
+			}
+
+			right = sum
+		}
 
 		switch op {
 		case "+":
-- 
2.43.0


From 63675b5422877a7916a713f3f72474801da4fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 08/13] fix: report the dice drawn by rolls that stop at their
 reroll threshold check

---
 pkg/core/command/execute_r_roll_comp.go | 1 +
 pkg/core/command/execute_r_roll_list.go | 1 +
 pkg/core/command/execute_u_roll_comp.go | 1 +
 pkg/core/command/execute_u_roll_expr.go | 1 +
 pkg/core/command/result.go              | 7 +++++++
 5 files changed, 11 insertions(+)

diff --git a/pkg/core/command/execute_r_roll_comp.go b/pkg/core/command/execute_r_roll_comp.go
index fe4a184..02544b5 100644
--- a/pkg/core/command/execute_r_roll_comp.go
+++ b/pkg/core/command/execute_r_roll_comp.go
@@ -44,6 +44,7 @@ func executeRRollComp(
 		evaluator.CheckRRollThreshold(compareNode.Left().(*ast.RRollList))
 	if checkRerollThresholdErr != nil {
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
+		result.recordRolledDice(evaluator.RolledDice())
 		return result, nil
 	}
 
diff --git a/pkg/core/command/execute_r_roll_list.go b/pkg/core/command/execute_r_roll_list.go
index 84641bf..9568573 100644
--- a/pkg/core/command/execute_r_roll_list.go
+++ b/pkg/core/command/execute_r_roll_list.go
@@ -31,6 +31,7 @@ func executeRRollList(
 	checkRerollThresholdErr := evaluator.CheckRRollThreshold(node)
 	if checkRerollThresholdErr != nil {
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
+		result.recordRolledDice(evaluator.RolledDice())
 		return result, nil
 	}
 
diff --git a/pkg/core/command/execute_u_roll_comp.go b/pkg/core/command/execute_u_roll_comp.go
index 93b1f65..4e04439 100644
--- a/pkg/core/command/execute_u_roll_comp.go
+++ b/pkg/core/command/execute_u_roll_comp.go
@@ -39,6 +39,7 @@ func executeURollComp(
 	)
 	if checkRerollThresholdErr != nil {
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
+		result.recordRolledDice(evaluator.RolledDice())
 		return result, nil
 	}
 
diff --git a/pkg/core/command/execute_u_roll_expr.go b/pkg/core/command/execute_u_roll_expr.go
index 490819f..be0c951 100644
--- a/pkg/core/command/execute_u_roll_expr.go
+++ b/pkg/core/command/execute_u_roll_expr.go
@@ -33,6 +33,7 @@ func executeURollExpr(
 	checkRerollThresholdErr := evaluator.CheckURollThreshold(node.URollList)
 	if checkRerollThresholdErr != nil {
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
+		result.recordRolledDice(evaluator.RolledDice())
 		return result, nil
 	}
 
diff --git a/pkg/core/command/result.go b/pkg/core/command/result.go
index 4fce3e5..2304fc5 100644
--- a/pkg/core/command/result.go
+++ b/pkg/core/command/result.go
@@ -61,3 +61,10 @@ func (r *Result) Message() string {
 func (r *Result) AppendMessagePart(message string) {
 	r.MessageParts = append(r.MessageParts, message)
 }
+
+// recordRolledDice は、ダイスが振られていた場合にそれを記録する。
+func (r *Result) recordRolledDice(rolledDice []dice.Die) {
+	if len(rolledDice) > 0 {
+		r.RolledDice = rolledDice
+	}
+}
-- 
2.43.0


From 31444daefd54ed877885f1551a73f7d8150b5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 09/13] fix: do not execute a failing command a second time

---
 pkg/bcdice/bcdice.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/bcdice/bcdice.go b/pkg/bcdice/bcdice.go
index e529057..56ceb08 100644
--- a/pkg/bcdice/bcdice.go
+++ b/pkg/bcdice/bcdice.go
@@ -74,15 +74,14 @@ func (b *BCDice) ExecuteCommand(input string) (*command.Result, error) {
 		}
 	}
 
-	{
-		result, err := b.ExecuteBasicCommand(command)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
+	// 入力全体をコマンドとして解釈できない場合は、最初の部分だけを実行する。
+	// 実行に失敗したコマンドを再度実行すると、ダイスが余計に振られるので注意。
+	if _, parseErr := parser.Parse("input", []byte(command)); parseErr != nil {
+		command = firstPart
 	}
+
 	{
-		result, err := b.ExecuteBasicCommand(firstPart)
+		result, err := b.ExecuteBasicCommand(command)
 		if err == nil {
 			result.IsSecret = isSecret
 			return result, nil
-- 
2.43.0


From 84bc952681f9116ff05934198eb0a7258ba54696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 10/13] fix: leave the REPL at the end of its input

---
 cmd/GoBCDiceREPL/repl/repl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index a40bf42..6799ae0 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -235,7 +235,7 @@ func (r *REPL) Start() {
 		switch readlineErr {
 		case io.EOF:
 			// ^D が押されたら修了する
-			break
+			return
 		case readline.ErrInterrupt:
 			// ^C が押されたら次の読み込みに移る
 			continue
-- 
2.43.0


From 1b9472a224ba0f438d123654be289a1f33623bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 11/13] fix: report unrepresentable numbers in the REPL's roll
 command instead of clamping them

---
 cmd/GoBCDiceREPL/repl/repl.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 6799ae0..923c902 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -374,8 +374,17 @@ func rollDice(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	num, _ := strconv.Atoi(matches[1])
-	sides, _ := strconv.Atoi(matches[2])
+	num, numErr := strconv.Atoi(matches[1])
+	if numErr != nil {
+		r.printError(numErr)
+		return
+	}
+
+	sides, sidesErr := strconv.Atoi(matches[2])
+	if sidesErr != nil {
+		r.printError(sidesErr)
+		return
+	}
 
 	rolledDice, err := r.diceRoller.RollDice(num, sides)
 	if err != nil {
-- 
2.43.0


From 0820d9b7658943d0020067d8bda24273f546ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 12/13] fix: strip the secret-roll mark only once in the REPL

---
 cmd/GoBCDiceREPL/repl/repl.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 923c902..32e29f9 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -338,8 +338,7 @@ func eval(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	command, isSecret := util.CheckIfInputMayBeASecretRoll(input)
-	result, err := r.bcDice.ExecuteCommand(command)
+	result, err := r.bcDice.ExecuteCommand(input)
 	if err != nil {
 		r.printError(err)
 		return
@@ -347,7 +346,7 @@ func eval(r *REPL, c *Command, input string) {
 
 	fmt.Fprint(r.out, RESULT_HEADER)
 
-	if isSecret {
+	if result.IsSecret {
 		fmt.Fprint(r.out, SECRET_HEADER)
 	}
 
-- 
2.43.0


From 063148f2344eddeb5bb6612ba3e2a125731ec1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 13/13] fix: divide with rounding exactly instead of going
 through floating point

---
 pkg/core/evaluator/eval_infix_expression.go | 55 ++++++++++++++++-----
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/pkg/core/evaluator/eval_infix_expression.go b/pkg/core/evaluator/eval_infix_expression.go
index 2903c95..dc63347 100644
--- a/pkg/core/evaluator/eval_infix_expression.go
+++ b/pkg/core/evaluator/eval_infix_expression.go
@@ -2,7 +2,6 @@ package evaluator
 
 import (
 	"fmt"
-	"math"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
@@ -126,22 +125,56 @@ func (e *Evaluator) evalIntegerDivide(
 		// 除算（小数点以下切り捨て）
 		return object.NewInteger(leftValue / rightValue), nil
 	case ast.ROUNDING_METHOD_ROUND:
-		{
-			// 除算（小数点以下四捨五入）
-			resultFloat := math.Round(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下四捨五入）
+		return object.NewInteger(divideWithRounding(leftValue, rightValue)), nil
 	case ast.ROUNDING_METHOD_ROUND_UP:
-		{
-			// 除算（小数点以下切り上げ）
-			resultFloat := math.Ceil(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下切り上げ）
+		return object.NewInteger(divideWithRoundingUp(leftValue, rightValue)), nil
 	default:
 		return nil, fmt.Errorf("evalIntegerDivide: unknown rounding method")
 	}
 }
 
+// divideWithRounding は小数点以下を四捨五入する除算を行う。
+// 浮動小数点数を経由しないため、大きな整数でも正確な値を返す。
+func divideWithRounding(dividend int, divisor int) int {
+	quotient := dividend / divisor
+	remainder := dividend % divisor
+
+	// 剰余の絶対値が除数の絶対値の半分以上ならば、0から遠い方へ丸める
+	if absAsUint(remainder) >= absAsUint(divisor)-absAsUint(remainder) {
+		if (dividend < 0) == (divisor < 0) {
+			return quotient + 1
+		}
+
+		return quotient - 1
+	}
+
+	return quotient
+}
+
+// divideWithRoundingUp は小数点以下を切り上げる除算を行う。
+// 浮動小数点数を経由しないため、大きな整数でも正確な値を返す。
+func divideWithRoundingUp(dividend int, divisor int) int {
+	quotient := dividend / divisor
+
+	// 割り切れず、商が正ならば、切り上げる
+	if dividend%divisor != 0 && (dividend < 0) == (divisor < 0) {
+		return quotient + 1
+	}
+
+	return quotient
+}
+
+// absAsUint はnの絶対値を符号なし整数として返す。
+func absAsUint(n int) uint {
+	if n < 0 {
+		return -uint(n)
+	}
+
+	return uint(n)
+}
+
 // evalSumRoll は加算ロールを評価する。
 func (e *Evaluator) evalSumRoll(
 	num *object.Integer,
-- 
2.43.0

