HDR = '''package %s

import (
	"testing"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

var _ = dice.Die{}

func zzNew(ds ...dice.Die) *bcdice.BCDice { return bcdice.New(feeder.NewQueue(ds)) }

'''
B = HDR % 'bcdice_test'
SEEDS = [
 dict(id='C01-leading-space', property='C01', pkg='pkg/bcdice',
  edits=[('pkg/bcdice/bcdice.go', 'MustCompile(`\\A([^\\s]*)(\\s.*)?`)', 'MustCompile(`\\A([^\\s]+)(\\s.*)?`)')],
  needs='an input that is empty or starts with white space (after the secret mark)', breaks='the submatch slice is nil and indexing it panics',
  demo=B+'''func TestZZDemo(t *testing.T) {
	for _, in := range []string{"", " C(1)", "S 1D6", "\\t"} {
		zzNew().ExecuteCommand(in)
	}
}
'''),
 dict(id='C01-zero-by-zero', property='C01', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/eval_infix_expression.go', '	if rightValue == 0 {\n', '	if rightValue == 0 && leftValue != 0 {\n')],
  needs='a division of zero by zero, which may come from a sub-expression', breaks='integer division panics instead of an error',
  demo=B+'''func TestZZDemo(t *testing.T) {
	for _, in := range []string{"C((3-3)/(2-2))", "C(0/0U)", "C(1/0)"} {
		if _, err := zzNew().ExecuteCommand(in); err == nil {
			t.Fatal(in)
		}
	}
}
'''),
 dict(id='C04-record-cap', property='C04', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/environment.go', '	e.rolledDice = append(e.rolledDice, d)\n', '	// 記録が際限なく大きくなることを防ぐ\n	if len(e.rolledDice) >= 1000 {\n		return\n	}\n\n	e.rolledDice = append(e.rolledDice, d)\n')],
  needs='a command that draws more than 1000 dice', breaks='dice after the thousandth are missing from the result',
  demo=B+'''func TestZZDemo(t *testing.T) {
	b := bcdice.New(feeder.NewMT19937(1))
	r, err := b.ExecuteCommand("700D6+700D6")
	if err != nil || len(r.RolledDice) != 1400 {
		t.Fatal(err, len(r.RolledDice))
	}
}
'''),
 dict(id='C04-early-copy', property='C04', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_d_roll_comp.go', '	// 左辺を評価する\n', '	result.RolledDice = evaluator.RolledDice()\n\n	// 左辺を評価する\n'),
         ('pkg/core/command/execute_d_roll_comp.go', '	result.RolledDice = evaluator.RolledDice()\n\n	var successCheckResultMessage', '	var successCheckResultMessage'),
         ('pkg/core/evaluator/determine_values.go', '''	right := node.Right()
	if right.IsPrimaryExpression() {
		return e.replaceVariablePrimaryExpr(right, func(newNode ast.Node) {
			node.SetRight(newNode)
		})
	}

	return e.DetermineValues(right)
}
''', '''	right := node.Right()
	if right.IsPrimaryExpression() {
		return e.replaceVariablePrimaryExpr(right, func(newNode ast.Node) {
			node.SetRight(newNode)
		})
	}

	// 定数だけの積と商は、値の決定を必要としない
	if right.Type() == ast.MULTIPLY_NODE || right.Type() == ast.DIVIDE_NODE {
		return nil
	}

	return e.DetermineValues(right)
}
''')],
  needs='a sum roll comparison whose left side has a product with dice as right operand of an addition: its dice are drawn after the copy was taken', breaks='the dice of the product are missing from the result',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew(dice.Die{1, 6}, dice.Die{2, 6}).ExecuteCommand("1D6+1D6*2>=3")
	if err == nil && len(r.RolledDice) < 2 {
		t.Fatal(r.RolledDice)
	}
	if err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id='C05-int32-faces', property='C05', pkg='pkg/core/dice/feeder',
  edits=[('pkg/core/dice/feeder/mt19937.go', '		Value: 1 + f.rng.Intn(sides),\n', '		Value: 1 + f.rng.Intn(sides&0x7fffffff),\n')],
  needs='a die with more than 2147483647 faces', breaks='the high faces can never come up (and some numbers of faces panic)',
  demo='''package feeder

import "testing"

func TestZZDemo(t *testing.T) {
	f := NewMT19937(1)
	n := 1<<40 + 5
	for i := 0; i < 200; i++ {
		d, err := f.Next(n)
		if err != nil {
			t.Fatal(err)
		}
		if d.Value > 1<<32 {
			return
		}
	}
	t.Fatal("no high face")
}
'''),
 dict(id='C09-parse-cache', property='C09', pkg='pkg/bcdice',
  edits=[('pkg/bcdice/bcdice.go', '	diceRoller *roller.DiceRoller\n}', '	diceRoller *roller.DiceRoller\n	// 直前に構文解析したコマンドとその抽象構文木\n	lastCommand string\n	lastNode    ast.Node\n}'),
   ('pkg/bcdice/bcdice.go', '''	node, parseErr := parser.Parse("input", []byte(c))
	if parseErr != nil {
		return nil, parseErr
	}

	env''', '''	if b.lastNode == nil || b.lastCommand != c {
		node, parseErr := parser.Parse("input", []byte(c))
		if parseErr != nil {
			return nil, parseErr
		}

		b.lastCommand, b.lastNode = c, node.(ast.Node)
	}

	env'''),
   ('pkg/bcdice/bcdice.go', 'command.Execute(node.(ast.Node), b', 'command.Execute(b.lastNode, b')],
  needs='the same command executed twice in a row on one engine: execution rewrites the tree', breaks='the second execution repeats the values of the first',
  demo=B+'''func TestZZDemo(t *testing.T) {
	b := zzNew(dice.Die{1, 6}, dice.Die{6, 6})
	b.ExecuteCommand("1D6")
	r, err := b.ExecuteCommand("1D6")
	if err != nil || len(r.RolledDice) != 1 || r.RolledDice[0].Value != 6 {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C13-trim-all', property='C13', pkg='pkg/bcdice',
  edits=[('pkg/core/util/secret_roll.go', 'FIXME', '')],
  needs='an input with several S at its start', breaks='',
  demo=''),
 dict(id='C08-map-order', property='C08', pkg='pkg/core/object',
  edits=[], needs='', breaks='', demo=''),
]
SEEDS = [s for s in SEEDS if s['demo']]
