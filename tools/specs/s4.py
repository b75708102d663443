exec(open('/verif/tools/specs/s3.py').read().split('\nSEEDS = [')[0])
EV='pkg/core/evaluator/evaluator.go'; VA='pkg/core/evaluator/eval_var_args.go'; BC='pkg/bcdice/bcdice.go'
import re
_t=open('/repo/pkg/core/parser/parser.go').read()
_m=[m for m in re.finditer(r'pos: +position[^\n]*\n\s*val: +"\[ur\]i",\n[^\n]*\n[^\n]*\n', _t)]
CLS=_m[-1].span()
SEEDS = [
 dict(id='C13-long-s', property='C13', pkg='pkg/bcdice',
  edits=[('pkg/core/util/secret_roll.go', '''	switch inputRunes[0] {
	case 'S', 's':''', '''	switch unicode.ToUpper(inputRunes[0]) {
	case 'S':'''), ('pkg/core/util/secret_roll.go', 'package util\n', 'package util\n\nimport "unicode"\n')],
  needs='an input that starts with a letter whose upper case is S', breaks='U+017F is taken for the mark',
  demo=B+'''func TestZZDemo(t *testing.T) {
	if r, err := zzNew(dice.Die{1, 6}).ExecuteCommand("\\u017f1D6"); err == nil {
		t.Fatal(r)
	}
}
'''),
 dict(id='C01-negative-count', property='C01', pkg='pkg/bcdice',
  edits=[(UE, '	if numVal < 1 {\n', '	if numVal == 0 {\n')],
  needs='an open-ended roll of a negative number of dice', breaks='the capacity of the list is negative and the allocation panics',
  demo=B+'''func TestZZDemo(t *testing.T) {
	if r, err := zzNew(dice.Die{1, 6}).ExecuteCommand("(1-2)U6[5]"); err == nil {
		t.Fatal(r)
	}
}
'''),
 dict(id='C25-override', property='C25', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/reroll_threshold.go', '	if !rRollList.Threshold.IsNil() {\n		return nil\n	}\n', '	if n, ok := rRollList.Threshold.(*ast.Int); ok && n.Value > 1 {\n		return nil\n	}\n')],
  needs='a threshold in brackets that is 1 or less together with a comparison', breaks='the refused threshold is replaced by the target',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew(dice.Die{1, 6}).ExecuteCommand("1R6[1]>=5")
	if err != nil || len(r.RolledDice) != 0 {
		t.Fatal(r)
	}
}
'''),
 dict(id='C02-long-choice', property='C02', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/eval_choice.go', '	index := rolledDice[0].Value - 1\n', '	if len(rolledDice) != 1 || rolledDice[0].Sides > 100 {\n		return nil, fmt.Errorf("too many items")\n	}\n\n	index := rolledDice[0].Value - 1\n'),
         ('pkg/core/evaluator/eval_choice.go', 'import (\n', 'import (\n	"fmt"\n\n')],
  needs='a choice of more than a hundred items', breaks='an accepted choice is refused after its die was drawn',
  demo=B.replace('import (', 'import (\n\t"strings"')+'''func TestZZDemo(t *testing.T) {
	if _, err := zzNew(dice.Die{1, 150}).ExecuteCommand("choice[" + strings.Repeat("a,", 149) + "b]"); err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id='C02-nested-minus', property='C02', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/determine_values.go', '''	right := node.Right()
	if right.IsPrimaryExpression() {
		return e.replaceVariablePrimaryExpr(right, func(newNode ast.Node) {
			node.SetRight(newNode)
		})
	}

	return e.DetermineValues(right)
}

func (e *Evaluator) determineValuesInInfixExpression''', '''	right := node.Right()
	if right.IsPrimaryExpression() {
		return e.replaceVariablePrimaryExpr(right, func(newNode ast.Node) {
			node.SetRight(newNode)
		})
	}

	infix, ok := right.(ast.InfixExpression)
	if !ok {
		return fmt.Errorf("DetermineValues not implemented: -%s", right.Type())
	}

	return e.determineValuesInInfixExpression(infix)
}

func (e *Evaluator) determineValuesInInfixExpression''')],
  needs='two unary minus signs in a row before a roll', breaks='the accepted command is refused',
  demo=B+'''func TestZZDemo(t *testing.T) {
	if _, err := zzNew(dice.Die{1, 6}).ExecuteCommand("--1D6"); err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id='C03-nil-nil', property='C03', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_choice.go', '	if evalErr != nil {\n		return nil, evalErr\n	}\n', '	if evalErr != nil {\n		if len(node.Items) < 2 {\n			return nil, nil\n		}\n\n		return nil, evalErr\n	}\n')],
  needs='a choice of a single item whose die cannot be drawn', breaks='neither a result nor an error is returned',
  demo=B+'''func TestZZDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("panic")
		}
	}()
	r, err := zzNew().ExecuteCommand("choice[a]")
	if r == nil && err == nil {
		t.Fatal("neither")
	}
}
'''),
 dict(id='C04-sorted', property='C04', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_b_roll_comp.go', '	result.RolledDice = evaluator.RolledDice()\n', '''	result.RolledDice = evaluator.RolledDice()
	if len(result.RolledDice) > 30 {
		sort.SliceStable(result.RolledDice, func(i, j int) bool {
			return result.RolledDice[i].Sides < result.RolledDice[j].Sides
		})
	}
'''), ('pkg/core/command/execute_b_roll_comp.go', 'import (\n', 'import (\n	"sort"\n\n')],
  needs='more than thirty dice of different faces', breaks='the dice are not listed in drawing order',
  demo=B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < 20; i++ {
		ds = append(ds, dice.Die{2, 8})
	}
	for i := 0; i < 20; i++ {
		ds = append(ds, dice.Die{1, 6})
	}
	r, err := zzNew(ds...).ExecuteCommand("20B8+20B6>=2")
	if err != nil || len(r.RolledDice) != 40 || r.RolledDice[0].Sides != 8 {
		t.Fatal(err)
	}
}
'''),
 dict(id='C04-probe', property='C04', pkg='pkg/bcdice',
  edits=[(BC, '''	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(b.diceRoller, env)

	return command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
''', '''	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(b.diceRoller, env)

	result, err := command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
	if err == nil && len(result.RolledDice) > len(result.Message()) {
		result.RolledDice = result.RolledDice[:len(result.Message())]
	}

	return result, err
''')],
  needs='a command with more dice than its message has bytes', breaks='the list of dice is cut',
  demo=B+'''func TestZZDemo(t *testing.T) {
	b := bcdice.New(feeder.NewMT19937(1))
	r, err := b.ExecuteCommand("1D(1000000)")
	if err != nil {
		t.Fatal(err)
	}
	r, err = b.ExecuteCommand("[1...2]D6")
	if err != nil {
		t.Fatal(err)
	}
	var ds []dice.Die
	for i := 0; i < 100; i++ {
		ds = append(ds, dice.Die{6, 6})
	}
	ds = append(ds, dice.Die{1, 6})
	r, err = zzNew(ds...).ExecuteCommand("1U6[6]")
	if err != nil || len(r.RolledDice) != 101 {
		t.Fatal(err, len(r.RolledDice))
	}
}
'''),
 dict(id='C05-fewer', property='C05', pkg='pkg/bcdice',
  edits=[('pkg/core/dice/roller/roller.go', '''		d, err := dr.feeder.Next(sides)
		if err != nil {
			return nil, err
		}
''', '''		d, err := dr.feeder.Next(sides)
		if err != nil {
			if len(rolledDice) > 1000 {
				break
			}

			return nil, err
		}
''')],
  needs='a feeder that runs out after more than a thousand dice', breaks='fewer dice than asked for are returned',
  demo=B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < 1500; i++ {
		ds = append(ds, dice.Die{1, 6})
	}
	if r, err := zzNew(ds...).ExecuteCommand("1600D6"); err == nil {
		t.Fatal(len(r.RolledDice))
	}
}
'''),
 dict(id='C07-lookahead', property='C07', pkg='pkg/bcdice',
  edits=[(PP, "ParenthesizedIntRandExpr <- '(' e:IntRandExpr ')' {\n", "ParenthesizedIntRandExpr <- &('(' IntRandExpr ')') '(' e:IntRandExpr ')' {\n"),
         (PG, 'ZZ', '')],
  needs='', breaks='the text in parentheses is parsed twice at every level', demo=''),
 dict(id='C08-map-message', property='C08', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_b_roll_comp.go', 'ZZ', '')], needs='', breaks='', demo=''),
 dict(id='C08-shared-die', property='C08', pkg='pkg/bcdice',
  edits=[('pkg/core/dice/roller/roller.go', '''	// feederが実際にダイスを供給する
	feeder feeder.DieFeeder
}
''', '''	// feederが実際にダイスを供給する
	feeder feeder.DieFeeder
	// ダイスを振った回数
	count int
}
'''), ('pkg/core/dice/roller/roller.go', '		d, err := dr.feeder.Next(sides)\n', '''		dr.count++
		if dr.count%4096 == 0 {
			dr.feeder.Next(sides)
		}

		d, err := dr.feeder.Next(sides)
''')],
  needs='thousands of dice drawn before by the same engine', breaks='a die is thrown away depending on what was rolled earlier',
  demo=B+'''func TestZZDemo(t *testing.T) {
	ds := make([]dice.Die, 5000)
	for i := range ds {
		ds[i] = dice.Die{1 + i%6, 6}
	}
	q := feeder.NewQueue(ds)
	b := bcdice.New(q)
	b.ExecuteCommand("4000D6")
	b.ExecuteCommand("500D6")
	if q.Remaining() != 500 {
		t.Fatal(q.Remaining())
	}
}
'''),
 dict(id='C09-shared-env', property='C09', pkg='pkg/bcdice',
  edits=[(BC, '''	dieFeeder  feeder.DieFeeder
''', '''	dieFeeder  feeder.DieFeeder
	env        *evaluator.Environment
'''), (BC, '''	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(b.diceRoller, env)

	return command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
''', '''	if b.env == nil {
		b.env = evaluator.NewEnvironment()
	}
	ev := evaluator.NewEvaluator(b.diceRoller, b.env)

	result, err := command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
	if err == nil {
		b.env.ClearRolledDice()
	}

	return result, err
''')],
  needs='a command that fails after drawing dice, followed by another', breaks='the dice of the failed command are listed with the next one',
  demo=B+'''func TestZZDemo(t *testing.T) {
	b := zzNew(dice.Die{1, 6}, dice.Die{2, 6})
	b.ExecuteCommand("1D6+1D7")
	b.SetDieFeeder(feeder.NewQueue([]dice.Die{{3, 6}}))
	r, err := b.ExecuteCommand("1D6")
	if err != nil || len(r.RolledDice) != 1 {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C21-object-names', property='C21', pkg='pkg/core/object',
  edits=[('pkg/core/object/object.go', '	U_ROLL_COMP_RESULT_OBJ: "U_ROLL_COMP_RESULT",\n', '	U_ROLL_COMP_RESULT_OBJ: "U_ROLL_EXPR_RESULT",\n')],
  needs='the kind of a compared open-ended roll', breaks='two kinds print alike',
  demo='''package object

import "testing"

func TestZZDemo(t *testing.T) {
	if U_ROLL_COMP_RESULT_OBJ.String() == U_ROLL_EXPR_RESULT_OBJ.String() {
		t.Fatal("alike")
	}
}
'''),
 dict(id='C21-rounding', property='C21', pkg='pkg/core/command',
  edits=[('pkg/core/command/result.go', '''	if s, found := successCheckResultString[r]; found {
		return s
	}
''', '''	if s, found := successCheckResultString[r&1]; found {
		return s
	}
''')],
  needs='the printed name of a failed check', breaks='failures print as unspecified',
  demo='''package command

import "testing"

func TestZZDemo(t *testing.T) {
	if SUCCESS_CHECK_FAILURE.String() != "FAILURE" {
		t.Fatal("alike")
	}
}
'''),
 dict(id='C12-unary-primary', property='C12', pkg='pkg/bcdice',
  edits=[(NO, '			lowPrecedence := c.Precedence() < parent.Precedence()\n', '			lowPrecedence := c.Precedence() < parent.Precedence() && !(walkingToLeft && parentIsAssociative && c.Type() == ast.SUBTRACT_NODE && parent.Type() == ast.DIVIDE_WITH_ROUNDING_UP_NODE)\n')],
  needs='a difference at the very left divided with rounding up', breaks='the parentheses of the dividend are left out',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew().ExecuteCommand("C((9-2)/2U)")
	if err != nil || r.MessageParts[0] != "C((9-2)/2U)" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C12-lost-mark', property='C12', pkg='pkg/bcdice',
  edits=[(NO, '	buf.WriteString(node.RoundingMethod.String())\n', '	if _, ok := node.Right().(ast.PrefixExpression); !ok {\n		buf.WriteString(node.RoundingMethod.String())\n	}\n')],
  needs='a marked division by a negated term', breaks='the mark is not shown',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew().ExecuteCommand("C(9/-2R)")
	if err != nil || r.MessageParts[0] != "C(9/(-2)R)" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C23-error-flag', property='C23', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_b_roll_comp.go', '	result.RolledDice = evaluator.RolledDice()\n', '	result.RolledDice = evaluator.RolledDice()\n	if len(result.RolledDice) > 20 && resultObj.NumOfSuccesses.Value == 0 {\n		result.SuccessCheckResult = SUCCESS_CHECK_FAILURE\n	}\n')],
  needs='a counted roll of more than twenty dice without a success', breaks='a form other than a compared sum sets the flag',
  demo=B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < 21; i++ {
		ds = append(ds, dice.Die{1, 6})
	}
	r, err := zzNew(ds...).ExecuteCommand("21B6>=2")
	if err != nil || r.SuccessCheckResult.String() != "UNSPECIFIED" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C25-last-faces', property='C25', pkg='pkg/bcdice',
  edits=[(RL, '			sidesNode := rRoll.Right()\n', '			sidesNode := rRoll.Right()\n			if len(node.RRolls) > 2 {\n				sidesNode = node.RRolls[i%len(node.RRolls)].Right()\n			}\n')],
  needs='a list of rolls with different faces whose first group rerolls', breaks='the further group has the faces of the last roll',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew(dice.Die{1, 6}, dice.Die{6, 8}, dice.Die{2, 10}, dice.Die{5, 8}, dice.Die{1, 8}).ExecuteCommand("1R6+1R8+1R10[5]")
	if err != nil || len(r.RolledDice) != 5 {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C27-sum-max', property='C27', pkg='pkg/bcdice',
  edits=[('pkg/core/object/u_roll_expr_result.go', 'ZZ', '')], needs='', breaks='', demo=''),
 dict(id='C16-alias', property='C16', pkg='cmd/GoBCDiceREPL/repl',
  edits=[(QU, '''	dice := make([]dice.Die, len(f.queue))
	copy(dice, f.queue)
''', '''	dice := f.queue[:len(f.queue)]
''')],
  needs='', breaks='', demo=''),
 dict(id='C11-round-minus', property='C11', pkg='pkg/bcdice',
  edits=[(IX, '	if rightValue == 0 {\n', '	if rightValue == 1 {\n		return left, nil\n	}\n\n	if rightValue == -1 && leftValue < 0 {\n		return right, nil\n	}\n\n	if rightValue == 0 {\n')],
  needs='a negative number divided by minus one', breaks='the quotient is minus one',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew().ExecuteCommand("C(-6/-1)")
	if err != nil || r.MessageParts[2] != "6" {
		t.Fatal(r, err)
	}
}
'''),

 dict(id='C27-max-groups', property='C27', pkg='pkg/bcdice',
  edits=[('pkg/core/object/u_roll_expr_result.go', '		sum, ok := ea.SumOfIntegers()\n', '		if len(ea.Elements) > 8 {\n			ea = NewArrayByMove(ea.Elements[:8])\n		}\n\n		sum, ok := ea.SumOfIntegers()\n')],
  needs='a group of more than eight dice', breaks='the group sum leaves out the dice after the eighth',
  demo=B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < 10; i++ {
		ds = append(ds, dice.Die{6, 6})
	}
	ds = append(ds, dice.Die{1, 6})
	r, err := zzNew(ds...).ExecuteCommand("1U6[6]")
	if err != nil || r.MessageParts[2] != "61/61 (最大/合計)" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C22-case-of-mark', property='C22', pkg='pkg/bcdice',
  edits=[(PG, open('/repo/pkg/core/parser/parser.go').read()[CLS[0]:CLS[1]], open('/repo/pkg/core/parser/parser.go').read()[CLS[0]:CLS[1]].replace("[]rune{'u', 'r'}", "[]rune{'U', 'R'}").replace('ignoreCase: true', 'ignoreCase: false'))],
  needs='a lower-case rounding mark in the operand of a roll', breaks='the mark is not accepted in lower case',
  demo=B+'''func TestZZDemo(t *testing.T) {
	if r, err := zzNew(dice.Die{1, 6}, dice.Die{1, 6}).ExecuteCommand("(3/2u)D6"); err != nil {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C22-choice-space', property='C22', pkg='pkg/bcdice',
  edits=[(PG, '''val:        "[^\\],]",
''', 'ZZ')], needs='', breaks='', demo=''),
]
SEEDS = [s for s in SEEDS if s['needs']]
