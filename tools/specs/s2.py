exec(open('/verif/tools/specs/s1.py').read().split('SEEDS = [')[0])
SEEDS = [
 dict(id='C04-early-copy', property='C04', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_u_roll_comp.go', 'ZZ', '')],
  needs='', breaks='', demo=''),
 dict(id='C13-trim-all', property='C13', pkg='pkg/bcdice',
  edits=[('pkg/core/util/secret_roll.go', 'package util\n', 'package util\n\nimport "strings"\n'),
   ('pkg/core/util/secret_roll.go', '''	inputRunes := []rune(input)

	switch inputRunes[0] {
	case 'S', 's':
		return string(inputRunes[1:len(inputRunes)]), true
	default:
		return input, false
	}
''', '''	if strings.HasPrefix(input, "S") || strings.HasPrefix(input, "s") {
		return strings.TrimLeft(input, "Ss"), true
	}

	return input, false
''')],
  needs='an input with more than one S at its start', breaks='SS1D6 is executed as a secret 1D6 instead of being rejected',
  demo=B+'''func TestZZDemo(t *testing.T) {
	if _, err := zzNew(dice.Die{1, 6}).ExecuteCommand("SS1D6"); err == nil {
		t.Fatal("accepted")
	}
	if r, err := zzNew(dice.Die{1, 6}).ExecuteCommand("s1D6"); err != nil || !r.IsSecret {
		t.Fatal(err)
	}
}
'''),
 dict(id='C13-bot-result', property='C13', pkg='pkg/bcdice',
  edits=[('pkg/bcdice/bcdice.go', '''		result, err := b.ExecuteDiceBotCommand(firstPart)
		if err == nil {
			result.IsSecret = isSecret
			return''', '''		result, err := b.ExecuteDiceBotCommand(firstPart)
		if err == nil {
			return''')],
  needs='a game system of its own that answers a command', breaks='a secret roll answered by the game system is not marked',
  demo=B.replace('import (', 'import (\n\t"github.com/raa0121/GoBCDice/pkg/core/command"\n\t"github.com/raa0121/GoBCDice/pkg/core/evaluator"\n\t"github.com/raa0121/GoBCDice/pkg/dicebot"')+'''type zzBot struct{ dicebot.DiceBot }

func (zzBot) ExecuteCommand(c string, ev *evaluator.Evaluator) (*command.Result, error) {
	return &command.Result{}, nil
}

func TestZZDemo(t *testing.T) {
	b := zzNew()
	b.DiceBot = zzBot{b.DiceBot}
	if r, err := b.ExecuteCommand("SX"); err != nil || !r.IsSecret {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C08-unique-items', property='C08', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/eval_choice.go', '''	rolledDice, err := e.RollDice(1, len(node.Items))
''', '''	// 選択肢の重複を取り除く
	counts := map[string]int{}
	for _, item := range node.Items {
		counts[item.Value]++
	}

	if len(counts) < len(node.Items) {
		items := make([]*ast.String, 0, len(counts))
		for value := range counts {
			items = append(items, ast.NewString(value))
		}

		node.Items = items
	}

	rolledDice, err := e.RollDice(1, len(node.Items))
''')],
  needs='a choice with an item listed twice', breaks='the order of the items, and with it the choice, depends on the iteration order of a map',
  demo=B+'''func TestZZDemo(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 200; i++ {
		r, err := zzNew(dice.Die{1, 4}).ExecuteCommand("CHOICE[a,b,c,a]")
		if err != nil {
			r, err = zzNew(dice.Die{1, 3}).ExecuteCommand("CHOICE[a,b,c,a]")
		}
		if err != nil {
			t.Fatal(err)
		}
		seen[r.Message()] = true
	}
	if len(seen) != 1 {
		t.Fatal(seen)
	}
}
'''),
 dict(id='C08-env-limit', property='C08', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/evaluator.go', '	"fmt"\n', '	"fmt"\n	"os"\n	"strconv"\n'),
   ('pkg/core/evaluator/evaluator.go', '''	return &Evaluator{
		diceRoller: diceRoller,
		env:        env,
		MaxRerolls: 10000,
	}
''', '''	maxRerolls, err := strconv.Atoi(os.Getenv("BCDICE_MAX_REROLLS"))
	if err != nil || maxRerolls < 1 {
		maxRerolls = 10000
	}

	return &Evaluator{
		diceRoller: diceRoller,
		env:        env,
		MaxRerolls: maxRerolls,
	}
''')],
  needs='an environment variable, and a roll that rerolls more often than it allows', breaks='the result depends on the environment of the process',
  demo=(B.replace('import (', 'import (\n\t"os"'))+'''func TestZZDemo(t *testing.T) {
	ds := func() []dice.Die { return []dice.Die{{6, 6}, {6, 6}, {6, 6}, {1, 6}} }
	os.Setenv("BCDICE_MAX_REROLLS", "2")
	r, err := zzNew(ds()...).ExecuteCommand("1R6[6]>=6")
	os.Unsetenv("BCDICE_MAX_REROLLS")
	q, err2 := zzNew(ds()...).ExecuteCommand("1R6[6]>=6")
	if err != nil || err2 != nil || len(r.RolledDice) != len(q.RolledDice) {
		t.Fatal(r, q, err, err2)
	}
}
'''),
 dict(id='C09-stale-record', property='C09', pkg='pkg/bcdice',
  edits=[('pkg/bcdice/bcdice.go', '	diceRoller *roller.DiceRoller\n}', '	diceRoller *roller.DiceRoller\n	env        *evaluator.Environment\n}'),
   ('pkg/bcdice/bcdice.go', '	b := &BCDice{}\n', '	b := &BCDice{env: evaluator.NewEnvironment()}\n'),
   ('pkg/bcdice/bcdice.go', '''	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(b.diceRoller, env)

	return command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
''', '''	// 記録領域を使い回す
	ev := evaluator.NewEvaluator(b.diceRoller, b.env)

	result, err := command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
	if err != nil {
		return nil, err
	}

	b.env.ClearRolledDice()

	return result, nil
''')],
  needs='a command that fails after it has drawn dice, followed by another command', breaks='the dice of the failed command are listed with the next result',
  demo=B+'''func TestZZDemo(t *testing.T) {
	b := zzNew(dice.Die{1, 6}, dice.Die{2, 6})
	if _, err := b.ExecuteCommand("1D6/0"); err == nil {
		t.Fatal("no error")
	}
	r, err := b.ExecuteCommand("1D6")
	if err != nil || len(r.RolledDice) != 1 {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C03-result-with-error', property='C03', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_calc.go', '''	if evalErr != nil {
		return nil, evalErr
''', '''	if evalErr != nil {
		return result, evalErr
''')],
  needs='a calculation that cannot be evaluated', breaks='command.Execute returns a result together with the error',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew().ExecuteBasicCommand("C(1/0)")
	if (r == nil) == (err == nil) {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C03-neither', property='C03', pkg='pkg/bcdice',
  edits=[('pkg/bcdice/bcdice.go', '''	separated := commandFirstPartRe''', '''	// マークだけの入力は無視する
	if isSecret && command == "" {
		return nil, nil
	}

	separated := commandFirstPartRe''')],
  needs='an input that consists of the secret mark only', breaks='neither a result nor an error is returned, and callers that checked the error crash',
  demo=B+'''func TestZZDemo(t *testing.T) {
	for _, in := range []string{"", "S", "s", "x"} {
		r, err := zzNew().ExecuteCommand(in)
		if (r == nil) == (err == nil) {
			t.Fatal(in, r, err)
		}
	}
}
'''),
 dict(id='C02-missing-division', property='C02', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/eval_var_args.go', '''		if n.Type() == ast.COMPARE_NODE {
			return e.evalVarArgsInCompare(n)
		} else {
			return e.evalVarArgsInInfixExpression(n)
		}
''', '''		switch n.Type() {
		case ast.COMPARE_NODE:
			return e.evalVarArgsInCompare(n)
		case ast.ADD_NODE, ast.SUBTRACT_NODE, ast.MULTIPLY_NODE,
			ast.DIVIDE_WITH_ROUNDING_UP_NODE, ast.DIVIDE_WITH_ROUNDING_DOWN_NODE:
			return e.evalVarArgsInInfixExpression(n)
		}
''')],
  needs='a sum roll that is divided with rounding to the nearest', breaks='1D6/2R is accepted by the parser and then rejected',
  demo=B+'''func TestZZDemo(t *testing.T) {
	for _, in := range []string{"1D6/2R", "1D6/2U", "1D6/2", "2*(1D6/2R)>3"} {
		if _, err := zzNew(dice.Die{1, 6}).ExecuteCommand(in); err != nil {
			t.Fatal(in, err)
		}
	}
}
'''),
 dict(id='C02-negated-target', property='C02', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/determine_values.go', '''	case ast.PrefixExpression:
		return e.determineValuesInPrefixExpression(n)
	case''', '''	case ast.PrefixExpression:
		if n.Right().IsPrimaryExpression() && !n.Right().IsVariable() {
			break
		}

		return e.determineValuesInPrefixExpression(n)
	case''')],
  needs='a sum roll with a negated number among its terms', breaks='1D6*-2 is accepted by the parser and then rejected',
  demo=B+'''func TestZZDemo(t *testing.T) {
	for _, in := range []string{"1D6*-2", "-(-3)+1D6", "1D6>-2"} {
		if _, err := zzNew(dice.Die{1, 6}).ExecuteCommand(in); err != nil {
			t.Fatal(in, err)
		}
	}
}
'''),
 dict(id='C22-case', property='C22', pkg='pkg/bcdice',
  edits=[], needs='', breaks='', demo=''),
]
SEEDS = [s for s in SEEDS if s['demo']]
