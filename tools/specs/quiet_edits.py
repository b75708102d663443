EV = 'pkg/core/evaluator/'
CM = 'pkg/core/command/'
REPLF = 'cmd/GoBCDiceREPL/repl/repl.go'
EDITS = [
('infix-table', [(EV + 'eval_infix_expression.go', '''	case "=":
		return object.NewBoolean(leftValue == rightValue), nil
	case "<>":
		return object.NewBoolean(leftValue != rightValue), nil
	case "<":
		return object.NewBoolean(leftValue < rightValue), nil
	case ">":
		return object.NewBoolean(leftValue > rightValue), nil
	case "<=":
		return object.NewBoolean(leftValue <= rightValue), nil
	case ">=":
		return object.NewBoolean(leftValue >= rightValue), nil
	}
''', '''	}

	if holds, known := compareIntegers(operator, leftValue, rightValue); known {
		return object.NewBoolean(holds), nil
	}
'''), (EV + 'eval_infix_expression.go', '''// evalIntegerDivide は''', '''func compareIntegers(operator string, a int, b int) (bool, bool) {
	switch operator {
	case "=":
		return a == b, true
	case "<>":
		return !(a == b), true
	case "<":
		return b > a, true
	case ">":
		return b < a, true
	case "<=":
		return !(a > b), true
	case ">=":
		return !(a < b), true
	}

	return false, false
}

// evalIntegerDivide は''')]),
('infix-operands-helper', [(EV + 'eval_infix_expression.go', '''	left, leftErr := e.Eval(node.Left())
	if leftErr != nil {
		return nil, nil, leftErr
	}

	if left == nil {
		return nil, nil, fmt.Errorf("operator %s: evaluated left is nil", node.Operator())
	}

	right, rightErr := e.Eval(node.Right())
	if rightErr != nil {
		return left, nil, rightErr
	}

	if right == nil {
		return left, nil, fmt.Errorf("operator %s: evaluated right is nil", node.Operator())
	}

	return left, right, nil
}
''', '''	left, err := e.evalOperand(node, node.Left(), "left")
	if err != nil {
		return nil, nil, err
	}

	right, err := e.evalOperand(node, node.Right(), "right")
	if err != nil {
		return left, nil, err
	}

	return left, right, nil
}

func (e *Evaluator) evalOperand(node ast.InfixExpression, operand ast.Node, side string) (object.Object, error) {
	value, err := e.Eval(operand)
	if err != nil {
		return nil, err
	}

	if value == nil {
		return nil, fmt.Errorf("operator %s: evaluated %s is nil", node.Operator(), side)
	}

	return value, nil
}
''')]),
('varargs-helper', [(EV + 'eval_var_args.go', '''	left := node.Left()
	var leftErr error

	if left.IsPrimaryExpression() {
		if left.IsVariable() {
			leftErr = e.evalVarArgsOfVariableExpr(left)
		}
	} else {
		leftErr = e.EvalVarArgs(left)
	}

	if leftErr != nil {
		return leftErr
	}

	right := node.Right()
	if right.IsPrimaryExpression() {
		if right.IsVariable() {
			return e.evalVarArgsOfVariableExpr(right)
		}

		return nil
	}

	return e.EvalVarArgs(right)
}''', '''	for _, operand := range []ast.Node{node.Left(), node.Right()} {
		if err := e.evalVarArgsOfOperand(operand); err != nil {
			return err
		}
	}

	return nil
}

func (e *Evaluator) evalVarArgsOfOperand(operand ast.Node) error {
	if !operand.IsPrimaryExpression() {
		return e.EvalVarArgs(operand)
	}

	if !operand.IsVariable() {
		return nil
	}

	return e.evalVarArgsOfVariableExpr(operand)
}''')]),
('varargs-threshold-helper', [(EV + 'eval_var_args.go', '''	if !node.Threshold.IsNil() {
		thresholdObj, err := e.Eval(node.Threshold)
		if err != nil {
			return err
		}

		node.Threshold = objectToIntNode(thresholdObj)
	}

	for _, r := range node.RRolls {
		err := e.evalVarArgsOfVariableExpr(r)
		if err != nil {
			return err
		}
	}

	return nil
}''', '''	if err := e.evalVarArgsOfThreshold(node); err != nil {
		return err
	}

	for i := range node.RRolls {
		if err := e.evalVarArgsOfVariableExpr(node.RRolls[i]); err != nil {
			return err
		}
	}

	return nil
}

func (e *Evaluator) evalVarArgsOfThreshold(node *ast.RRollList) error {
	if node.Threshold.IsNil() {
		return nil
	}

	threshold, err := e.Eval(node.Threshold)
	if err == nil {
		node.Threshold = objectToIntNode(threshold)
	}

	return err
}'''), (EV + 'eval_var_args.go', '''	if !uRollList.Threshold.IsNil() {
		thresholdObj, err := e.Eval(uRollList.Threshold)
		if err != nil {
			return err
		}

		uRollList.Threshold = objectToIntNode(thresholdObj)
	}

	for _, r := range uRollList.RRolls {
		err := e.evalVarArgsOfVariableExpr(r)
		if err != nil {
			return err
		}
	}
''', '''	if err := e.evalVarArgsInRRollList(uRollList); err != nil {
		return err
	}
''')]),
('bonus-switch', [(EV + 'eval_var_args.go', '''		var newBonus ast.InfixExpression
		if bonusValue == 0 {
			newBonus = nil
		} else if bonusValue > 0 {
			newBonus = ast.NewAdd(ast.NewInt(0), ast.NewInt(bonusValue))
		} else {
			newBonus = ast.NewSubtract(ast.NewInt(0), ast.NewInt(-bonusValue))
		}

		node.Bonus = newBonus
''', '''		switch {
		case bonusValue > 0:
			node.Bonus = ast.NewAdd(ast.NewInt(0), ast.NewInt(bonusValue))
		case bonusValue < 0:
			node.Bonus = ast.NewSubtract(ast.NewInt(0), ast.NewInt(-bonusValue))
		default:
			node.Bonus = nil
		}
''')]),
('u-group-helper', [(EV + 'eval_u_roll_expr.go', '''		valueGroup := []object.Object{}

		for j := 0; j < e.MaxRerolls; j++ {
			rolledDice, err := e.RollDice(1, sidesVal)
			if err != nil {
				return nil, err
			}

			value := rolledDice[0].Value
			valueGroup = append(valueGroup, object.NewInteger(value))

			if value < thresholdVal {
				break
			}
		}

		valueGroupArray := object.NewArrayByMove(valueGroup)
		valueGroups = append(valueGroups, valueGroupArray)
	}

	return object.NewArrayByMove(valueGroups), nil
}
''', '''		valueGroup, err := e.rollGroup(sidesVal, thresholdVal)
		if err != nil {
			return nil, err
		}

		valueGroups = append(valueGroups, valueGroup)
	}

	return object.NewArrayByMove(valueGroups), nil
}

func (e *Evaluator) rollGroup(sides int, threshold int) (*object.Array, error) {
	values := []object.Object{}
	continues := true

	for j := 0; continues && j < e.MaxRerolls; j++ {
		rolledDice, err := e.RollDice(1, sides)
		if err != nil {
			return nil, err
		}

		die := rolledDice[0]
		values = append(values, object.NewInteger(die.Value))
		continues = die.Value >= threshold
	}

	return object.NewArrayByMove(values), nil
}
''')]),
('r-count-helper', [(EV + 'eval_r_roll_list.go', '''		numOfSuccesses := 0
		for _, v := range values.Elements {
			if vi := v.(*object.Integer); vi.Value >= threshold {
				numOfSuccesses++
			}
		}

		if numOfSuccesses > 0 {
			numNode := ast.NewInt(numOfSuccesses)
			sidesNode := rRoll.Right()
			newRRoll := ast.NewRRoll(numNode, sidesNode)

			rollQueue = append(rollQueue, newRRoll)
		}
''', '''		numOfSuccesses := countAtLeast(values, threshold)
		if numOfSuccesses < 1 {
			continue
		}

		rollQueue = append(rollQueue, ast.NewRRoll(ast.NewInt(numOfSuccesses), rRoll.Right()))
'''), (EV + 'eval_r_roll_list.go', '''func (e *Evaluator) evalRRollList(''', '''func countAtLeast(values *object.Array, threshold int) int {
	n := 0
	for i := 0; i < len(values.Elements); i++ {
		if values.Elements[i].(*object.Integer).Value < threshold {
			continue
		}
		n++
	}

	return n
}

func (e *Evaluator) evalRRollList(''')]),
('r-queue-index', [(EV + 'eval_r_roll_list.go', '''		rRoll := rollQueue[0]
		if len(rollQueue) < 2 {
			rollQueue = nil
		} else {
			rollQueue = rollQueue[1:len(rollQueue)]
		}
''', '''		rRoll := rollQueue[0]
		rollQueue = rollQueue[1:]
''')]),
('dcomp-flag-helper', [(CM + 'execute_d_roll_comp.go', '''	if boolObj.Value == true {
		result.SuccessCheckResult = SUCCESS_CHECK_SUCCESS
		successCheckResultMessage = "成功"
	} else {
		result.SuccessCheckResult = SUCCESS_CHECK_FAILURE
		successCheckResultMessage = "失敗"
	}
''', '''	result.SuccessCheckResult, successCheckResultMessage = successCheck(boolObj.Value)
'''), (CM + 'execute_d_roll_comp.go', '''func determineCompareValues(''', '''func successCheck(holds bool) (SuccessCheckResultType, string) {
	if !holds {
		return SUCCESS_CHECK_FAILURE, "失敗"
	}

	return SUCCESS_CHECK_SUCCESS, "成功"
}

func determineCompareValues(''')]),
('dcomp-order', [(CM + 'execute_d_roll_comp.go', '''	result.RolledDice = evaluator.RolledDice()

	var successCheckResultMessage string
''', '''	var successCheckResultMessage string
'''), (CM + 'execute_d_roll_comp.go', '''	result.AppendMessagePart(successCheckResultMessage)

	return result, nil''', '''	result.AppendMessagePart(successCheckResultMessage)
	result.RolledDice = evaluator.RolledDice()

	return result, nil''')]),
('uroll-format', [(CM + 'execute_u_roll_expr.go', '''	for i := 0; i < n; i++ {
		var buf bytes.Buffer
		valuesArray := valueGroups.At(i).(*object.Array)

		buf.WriteString(sumOfGroups.At(i).Inspect())

		if valuesArray.Length() > 1 {
			buf.WriteString(valuesArray.InspectWithoutSpaces())
		}

		formattedValueGroups = append(formattedValueGroups, buf.String())
	}

	var buf bytes.Buffer
	buf.WriteString(strings.Join(formattedValueGroups, ","))
	buf.WriteString(notation.FormatModifier(result.Modifier().Value))

	return buf.String()
''', '''	for i, group := range valueGroups.Elements {
		text := sumOfGroups.At(i).Inspect()

		if valuesArray := group.(*object.Array); valuesArray.Length() > 1 {
			text += valuesArray.InspectWithoutSpaces()
		}

		formattedValueGroups = append(formattedValueGroups, text)
	}

	return strings.Join(formattedValueGroups, ",") + notation.FormatModifier(result.Modifier().Value)
'''), (CM + 'execute_u_roll_expr.go', '''	"bytes"
''', '')]),
('env-append', [(EV + 'environment.go', '''	for _, d := range dice {
		e.PushRolledDie(d)
	}''', '''	e.rolledDice = append(e.rolledDice, dice...)'''), (EV + 'environment.go', '''	dice := make([]dice.Die, len(e.rolledDice))
	copy(dice, e.rolledDice)

	return dice''', '''	return append([]dice.Die{}, e.rolledDice...)''')]),
('roller-index', [('pkg/core/dice/roller/roller.go', '''	rolledDice := make([]dice.Die, 0, num)

	for i := 0; i < num; i++ {''', '''	rolledDice := make([]dice.Die, num)

	for i := range rolledDice {'''), ('pkg/core/dice/roller/roller.go', '''		rolledDice = append(rolledDice, d)
''', '''		rolledDice[i] = d
''')]),
('roller-helper', [('pkg/core/dice/roller/roller.go', '''		d, err := dr.feeder.Next(sides)
		if err != nil {
			return nil, err
		}

		if d.Sides''', '''		d, err := dr.nextDie(sides)
		if err != nil {
			return nil, err
		}

		if d.Sides'''), ('pkg/core/dice/roller/roller.go', '''// RollDice は''', '''func (dr *DiceRoller) nextDie(sides int) (dice.Die, error) {
	return dr.feeder.Next(sides)
}

// RollDice は''')]),
('queue-loop', [('pkg/core/dice/feeder/queue.go', '''	for _, d := range dice {
		f.Push(d)
	}''', '''	f.queue = append(f.queue, dice...)'''), ('pkg/core/dice/feeder/queue.go', '''	f.queue = make([]dice.Die, len(d))
	copy(f.queue, d)''', '''	f.Clear()
	f.Append(d)'''), ('pkg/core/dice/feeder/queue.go', '''	d := f.queue[0]
	f.queue = f.queue[1:]

	return d, nil''', '''	first, rest := f.queue[0], f.queue[1:]
	f.queue = rest

	return first, nil''')]),
('choice-item', [(EV + 'eval_choice.go', '''	rolledDice, err := e.RollDice(1, len(node.Items))
	if err != nil {
		return nil, err
	}

	index := rolledDice[0].Value - 1
	value := node.Items[index].Value

	return object.NewString(value), nil''', '''	items := node.Items

	rolledDice, err := e.RollDice(1, len(items))
	if err != nil {
		return nil, err
	}

	die := rolledDice[0]
	chosen := items[die.Value-1]

	return object.NewString(chosen.Value), nil''')]),
('secret-switch', [('pkg/core/util/secret_roll.go', '''	inputRunes := []rune(input)

	switch inputRunes[0] {
	case 'S', 's':
		return string(inputRunes[1:len(inputRunes)]), true
	default:
		return input, false
	}''', '''	if input[0] == 'S' || input[0] == 's' {
		return input[1:], true
	}

	return input, false''')]),
('secret-prefix', [('pkg/core/util/secret_roll.go', '''	if len(input) < 1 {
		return "", false
	}

	inputRunes := []rune(input)

	switch inputRunes[0] {
	case 'S', 's':
		return string(inputRunes[1:len(inputRunes)]), true
	default:
		return input, false
	}''', '''	for _, mark := range []string{"S", "s"} {
		if strings.HasPrefix(input, mark) {
			return strings.TrimPrefix(input, mark), true
		}
	}

	return input, false'''), ('pkg/core/util/secret_roll.go', 'package util\n', 'package util\n\nimport "strings"\n')]),
('bcdice-helper', [('pkg/bcdice/bcdice.go', '''	{
		result, err := b.ExecuteBasicCommand(command)
		if err == nil {
			result.IsSecret = isSecret
			return result, nil
		}

		return nil, err
	}
}''', '''	result, err := b.ExecuteBasicCommand(command)
	if err != nil {
		return nil, err
	}

	result.IsSecret = isSecret

	return result, nil
}'''), ('pkg/bcdice/bcdice.go', '''	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(b.diceRoller, env)

	result, err := b.DiceBot''', '''	ev := b.newEvaluator()

	result, err := b.DiceBot'''), ('pkg/bcdice/bcdice.go', '''	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(b.diceRoller, env)

	return command''', '''	ev := b.newEvaluator()

	return command'''), ('pkg/bcdice/bcdice.go', '''// ExecuteBasicCommand は''', '''func (b *BCDice) newEvaluator() *evaluator.Evaluator {
	return evaluator.NewEvaluator(b.diceRoller, evaluator.NewEnvironment())
}

// ExecuteBasicCommand は''')]),
('list-sort', [('pkg/dicebot/list/list.go', '''	gameIDsStrSlice := sort.StringSlice(gameIDs)
	sort.Sort(gameIDsStrSlice)

	if !includeBasicDiceBot {
		return gameIDs
	}

	gameIDsWithBasicDiceBot := make([]string, 1, len(gameIDs)+1)
	gameIDsWithBasicDiceBot[0] = basic.BasicInfo().GameID
	gameIDsWithBasicDiceBot = append(gameIDsWithBasicDiceBot, gameIDs...)

	return gameIDsWithBasicDiceBot''', '''	sort.Strings(gameIDs)

	if includeBasicDiceBot {
		gameIDs = append([]string{basic.BasicInfo().GameID}, gameIDs...)
	}

	return gameIDs''')]),

('max-sum-loops', [('pkg/core/object/array.go', '''	for _, e := range a.Elements[1:len(a.Elements)] {
		eInt, eIsInteger := e.(*Integer)
		if !eIsInteger {
			return nil, false
		}

		if eInt.Value > maxElement.Value {
			maxElement = eInt
		}
	}
''', '''	for i := 1; i < len(a.Elements); i++ {
		candidate, ok := a.Elements[i].(*Integer)
		if !ok {
			return nil, false
		}

		if candidate.Value <= maxElement.Value {
			continue
		}

		maxElement = candidate
	}
'''), ('pkg/core/object/array.go', '''		sum += eInt.Value
''', '''		sum = eInt.Value + sum
''')]),
('array-inspect', [('pkg/core/object/array.go', '''	var out bytes.Buffer

	out.WriteString("[")
	out.WriteString(a.JoinedElements(", "))
	out.WriteString("]")

	return out.String()
''', '''	return "[" + a.JoinedElements(", ") + "]"
''')]),
('uresult-nocache', [('pkg/core/object/u_roll_expr_result.go', '''	if r.sumOfGroups == nil {
		r.calculateSumOfGroups()
	}

	return r.sumOfGroups
''', '''	if r.sumOfGroups != nil {
		return r.sumOfGroups
	}

	r.calculateSumOfGroups()

	return r.sumOfGroups
'''), ('pkg/core/object/u_roll_expr_result.go', '''	max, _ := r.SumOfGroups().MaxInteger()

	return max.Add(r.modifier)
''', '''	groups := r.SumOfGroups()
	max, _ := groups.MaxInteger()
	withBonus := max.Add(r.Modifier())

	return withBonus
''')]),
('determine-helper', [(EV + 'determine_values.go', '''	left := node.Left()
	var leftErr error

	if left.IsPrimaryExpression() {
		leftErr = e.replaceVariablePrimaryExpr(left, func(newNode ast.Node) {
			node.SetLeft(newNode)
		})
	} else {
		leftErr = e.DetermineValues(left)
	}

	if leftErr != nil {
		return leftErr
	}

	right := node.Right()
	if right.IsPrimaryExpression() {
		return e.replaceVariablePrimaryExpr(right, func(newNode ast.Node) {
			node.SetRight(newNode)
		})
	}

	return e.DetermineValues(right)
}''', '''	if err := e.determineValuesInOperand(node.Left(), node.SetLeft); err != nil {
		return err
	}

	return e.determineValuesInOperand(node.Right(), node.SetRight)
}

func (e *Evaluator) determineValuesInOperand(operand ast.Node, setter nodeSetter) error {
	if operand.IsPrimaryExpression() {
		return e.replaceVariablePrimaryExpr(operand, setter)
	}

	return e.DetermineValues(operand)
}''')]),
('determine-early-return', [(EV + 'determine_values.go', '''	if node.IsVariable() {
		valueDeterminedNode, err := e.determineValueOfVariableExpr(node)
		if err != nil {
			return err
		}

		setter(valueDeterminedNode)
	}

	return nil''', '''	if !node.IsVariable() {
		return nil
	}

	determined, err := e.determineValueOfVariableExpr(node)
	if err == nil {
		setter(determined)
	}

	return err''')]),
('threshold-helper', [(EV + 'reroll_threshold.go', '''	thresholdInt := thresholdObj.(*object.Integer)
	threshold := thresholdInt.Value

	if threshold < 2 {
		return fmt.Errorf("振り足し目標値として2以上の整数を指定してください")
	}

	return nil''', '''	if isUsableThreshold(thresholdObj.(*object.Integer)) {
		return nil
	}

	return fmt.Errorf("振り足し目標値として2以上の整数を指定してください")'''), (EV + 'reroll_threshold.go', '''func (e *Evaluator) checkRollThreshold(''', '''func isUsableThreshold(threshold *object.Integer) bool {
	return threshold.Value > 1
}

func (e *Evaluator) checkRollThreshold(''')]),
('notation-helper', [('pkg/core/notation/notation.go', '''			lowPrecedence := c.Precedence() < parent.Precedence()
			samePrecedenceAndNonAssociative :=
				c.Precedence() == parent.Precedence() && !parentIsAssociative
			if lowPrecedence || samePrecedenceAndNonAssociative {
				infixNotationOfChild, err := InfixNotation(child, true)
				if err != nil {
					return "", err
				}
				return Parenthesize(infixNotationOfChild), nil
			}
''', '''			if needsParentheses(parent, c, parentIsAssociative) {
				infixNotationOfChild, err := InfixNotation(child, true)
				if err != nil {
					return "", err
				}
				return Parenthesize(infixNotationOfChild), nil
			}
'''), ('pkg/core/notation/notation.go', '''// Parenthesize は''', '''func needsParentheses(parent ast.InfixExpression, child ast.InfixExpression, parentIsAssociative bool) bool {
	if child.Precedence() == parent.Precedence() {
		return !parentIsAssociative
	}

	return parent.Precedence() > child.Precedence()
}

// Parenthesize は''')]),
('notation-divide', [('pkg/core/notation/notation.go', '''	var buf bytes.Buffer

	buf.WriteString(left)
	buf.WriteString("/")
	buf.WriteString(right)
	buf.WriteString(node.RoundingMethod.String())

	return buf.String(), nil
''', '''	return left + "/" + right + node.RoundingMethod.String(), nil
'''), ('pkg/core/notation/notation.go', '''	for _, d := range node.Dice {
		dieValueStrs = append(dieValueStrs, fmt.Sprintf("%d", d.Value))
	}
''', '''	for i := range node.Dice {
		dieValueStrs = append(dieValueStrs, strconv.Itoa(node.Dice[i].Value))
	}
'''), ('pkg/core/notation/notation.go', '''	"strings"
''', '''	"strconv"
	"strings"
''')]),
('parser-additive', [('pkg/core/parser/parser.go', '''		switch op {
		case "+":
			lastNode = ast.NewAdd(lastNode, right)
		case "-":
			lastNode = ast.NewSubtract(lastNode, right)
		}
	}

	return lastNode, nil
}
''', '''		lastNode = combineAdditive(op, lastNode, right)
	}

	return lastNode, nil
}

func combineAdditive(op string, left ast.Node, right ast.Node) ast.Node {
	if op == "+" {
		return ast.NewAdd(left, right)
	}

	if op == "-" {
		return ast.NewSubtract(left, right)
	}

	return left
}
'''), ('pkg/core/parser/parser.go', '''		case "/":
			switch roundingMethod {
			case "U":
				lastNode = ast.NewDivideWithRoundingUp(lastNode, right)
			case "R":
				lastNode = ast.NewDivideWithRounding(lastNode, right)
			case "":
				lastNode = ast.NewDivideWithRoundingDown(lastNode, right)
			}
		}
''', '''		case "/":
			if roundingMethod == "" {
				lastNode = ast.NewDivideWithRoundingDown(lastNode, right)
			} else if roundingMethod == "U" {
				lastNode = ast.NewDivideWithRoundingUp(lastNode, right)
			} else if roundingMethod == "R" {
				lastNode = ast.NewDivideWithRounding(lastNode, right)
			}
		}
''')]),
('repl-queue-helper', [(REPLF, '''	if r.dieFeeder.CanSpecifyDie() {
		ds := r.dieFeeder.(*feeder.Queue).Dice()
		defer func() {
			f := r.dieFeeder.(*feeder.Queue)
			f.Set(ds)
		}()
	}

	result, err := r''', '''	defer r.keepQueue()()

	result, err := r'''), (REPLF, '''	if r.dieFeeder.CanSpecifyDie() {
		ds := r.dieFeeder.(*feeder.Queue).Dice()
		defer func() {
			f := r.dieFeeder.(*feeder.Queue)
			f.Set(ds)
		}()
	}

	num, numErr''', '''	defer r.keepQueue()()

	num, numErr'''), (REPLF, '''func (r *REPL) printOK() {''', '''func (r *REPL) keepQueue() func() {
	if !r.dieFeeder.CanSpecifyDie() {
		return func() {}
	}

	q := r.dieFeeder.(*feeder.Queue)
	ds := q.Dice()

	return func() {
		q.Set(ds)
	}
}

func (r *REPL) printOK() {''')]),
('repl-queue-noclosure', [(REPLF, '''		ds := r.dieFeeder.(*feeder.Queue).Dice()
		defer func() {
			f := r.dieFeeder.(*feeder.Queue)
			f.Set(ds)
		}()
	}

	result, err := r''', '''		queue := r.dieFeeder.(*feeder.Queue)
		defer queue.Set(queue.Dice())
	}

	result, err := r''')]),
('repl-feeder-helper', [(REPLF, '''	r.dieFeeder = f
	r.diceRoller = roller.New(f)
	r.bcDice.SetDieFeeder(f)

	r.printOK()
''', '''	r.useDieFeeder(f)
	r.printOK()
'''), (REPLF, '''func setDieFeeder(r *REPL, c''', '''func (r *REPL) useDieFeeder(f feeder.DieFeeder) {
	r.bcDice.SetDieFeeder(f)
	r.diceRoller = roller.New(f)
	r.dieFeeder = f
}

func setDieFeeder(r *REPL, c''')]),
('repl-find-command', [(REPLF, '''		matches := commandRe.FindStringSubmatch(line)
		if matches == nil {
			r.executeDefaultCommand(line)
			continue
		}

		commandName := matches[1]
		cmd, ok := commandMap[commandName]
		if !ok {
			r.executeDefaultCommand(line)
			continue
		}

		commandArgs := tailSpacesRe.ReplaceAllString(matches[2], "")
		cmd.Handler(r, cmd, commandArgs)
	}
''', '''		r.executeLine(line)
	}
'''), (REPLF, '''func (r *REPL) printCommandUsage(''', '''func (r *REPL) executeLine(line string) {
	matches := commandRe.FindStringSubmatch(line)
	if matches == nil {
		r.executeDefaultCommand(line)
		return
	}

	if cmd, ok := commandMap[matches[1]]; ok {
		cmd.Handler(r, cmd, tailSpacesRe.ReplaceAllString(matches[2], ""))
		return
	}

	r.executeDefaultCommand(line)
}

func (r *REPL) printCommandUsage(''')]),
('repl-roll-numbers', [(REPLF, '''	num, numErr := strconv.Atoi(matches[1])
	if numErr != nil {
		r.printError(numErr)
		return
	}

	sides, sidesErr := strconv.Atoi(matches[2])
	if sidesErr != nil {
		r.printError(sidesErr)
		return
	}

	rolledDice, err := r.diceRoller.RollDice(num, sides)
''', '''	var numbers [2]int
	for i := range numbers {
		n, numberErr := strconv.Atoi(matches[i+1])
		if numberErr != nil {
			r.printError(numberErr)
			return
		}

		numbers[i] = n
	}

	rolledDice, err := r.diceRoller.RollDice(numbers[0], numbers[1])
''')]),
('api-ok', [('cmd/GoBCDiceAPI/helpers/response.go', '''	if statusCode != 200 {
		body["ok"] = false
	} else {
		body["ok"] = true
	}
	return''', '''	body["ok"] = statusCode == http.StatusOK
	return'''), ('cmd/GoBCDiceAPI/helpers/response.go', '''	"github.com/labstack/echo"
''', '''	"github.com/labstack/echo"
	"net/http"
''')]),
('api-handler', [('cmd/GoBCDiceAPI/controllers/v1/names.go', '''	names := models.NewNames()

	return helpers.JSONResponseObject(c, 200, names)
''', '''	return respond(c, models.NewNames())
'''), ('cmd/GoBCDiceAPI/controllers/v1/names.go', '''// Setup''', '''func respond(c echo.Context, object helpers.Responsible) error {
	body := object.ToResponseMap()

	return helpers.JSONResponse(c, 200, body)
}

// Setup''')]),
('names-switch', [('pkg/core/ast/divide.go', '''	if s, ok := roundingMethodString[t]; ok {
		return s
	}

	return "UNKNOWN"
''', '''	switch t {
	case ROUNDING_METHOD_ROUND_UP:
		return "U"
	case ROUNDING_METHOD_ROUND:
		return "R"
	case ROUNDING_METHOD_ROUND_DOWN:
		return ""
	}

	return "UNKNOWN"
'''), ('pkg/core/ast/divide.go', '''var roundingMethodString = map[RoundingMethodType]string{
	ROUNDING_METHOD_ROUND_UP:   "U",
	ROUNDING_METHOD_ROUND:      "R",
	ROUNDING_METHOD_ROUND_DOWN: "",
}
''', '')]),
('rrolllist-helper', [(CM + 'execute_r_roll_list.go', '''	valueGroups := obj.(*object.Array)
	result.RolledDice = evaluator.RolledDice()

	result.AppendMessagePart(formatRRollValues(valueGroups))

	return result, nil
}
''', '''	return finishRRollList(result, obj.(*object.Array), evaluator), nil
}

func finishRRollList(result *Result, valueGroups *object.Array, evaluator *evaluator.Evaluator) *Result {
	result.AppendMessagePart(formatRRollValues(valueGroups))
	result.RolledDice = evaluator.RolledDice()

	return result
}
''')]),
('drollsum-loop', [('pkg/core/ast/sum_roll_result.go', '''	for _, d := range n.Dice {
		sum += d.Value
	}
''', '''	for i := len(n.Dice) - 1; i >= 0; i-- {
		sum += n.Dice[i].Value
	}
''')]),
]
