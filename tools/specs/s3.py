exec(open('/verif/tools/specs/s1.py').read().split('SEEDS = [')[0])
RL='pkg/core/evaluator/eval_r_roll_list.go'; UE='pkg/core/evaluator/eval_u_roll_expr.go'
PG='pkg/core/parser/parser.go'; PP='pkg/core/parser/parser.pigeon'; NO='pkg/core/notation/notation.go'
IX='pkg/core/evaluator/eval_infix_expression.go'; QU='pkg/core/dice/feeder/queue.go'
EN='pkg/core/evaluator/environment.go'; RP='cmd/GoBCDiceREPL/repl/repl.go'; TC='pkg/dicebot/testing/testcase.go'
MAXF = B.replace('import (', 'import (\n\t"fmt"') + '''
type zzMax struct {
	pat  []int
	n    int
}

func (f *zzMax) Next(s int) (dice.Die, error) {
	f.n++
	if f.n > 100000 {
		return dice.Die{}, fmt.Errorf("too many")
	}
	v := s
	if len(f.pat) > 0 {
		v = f.pat[f.n%len(f.pat)]
	}
	return dice.Die{Value: v, Sides: s}, nil
}
func (f *zzMax) CanSpecifyDie() bool { return false }
'''
REPL = '''package repl

import (
	"bytes"
	"io"
	"os"
	"strings"
	"testing"

	"github.com/chzyer/readline"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

var _ = dice.Die{}
var _ = feeder.NewQueue
var _ = strings.Contains
var _ io.Reader
var _ = os.Chdir
var _ = readline.Stdin

func zzRun(r *REPL, name, args string) {
	c := commandMap[name]
	c.Handler(r, c, args)
}

func zzNew() (*REPL, *bytes.Buffer) {
	var b bytes.Buffer
	return New(nil, &b), &b
}

'''
API = '''package controllers_test

import (
	"net/http/httptest"
	"testing"

	"github.com/labstack/echo"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/helpers"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/models"
)

var _ = echo.New
var _ = httptest.NewRecorder
var _ helpers.ResponseMap
var _ = models.NewVersion

'''
SEEDS = [
 dict(id='C06-u-unbounded', property='C06', pkg='pkg/bcdice',
  edits=[(UE, 'for j := 0; j < e.MaxRerolls; j++ {', 'for value := thresholdVal; value >= thresholdVal; {'),
         (UE, 'value := rolledDice[0].Value\n', 'value = rolledDice[0].Value\n'),
         (UE, '''
			if value < thresholdVal {
				break
			}
''', '')],
  needs='dice that stay at or above the threshold', breaks='an open-ended roll never stops drawing',
  demo=MAXF+'''func TestZZDemo(t *testing.T) {
	f := &zzMax{}
	if _, err := bcdice.New(f).ExecuteCommand("1U6[2]"); err != nil || f.n > 50000 {
		t.Fatal(f.n, err)
	}
}
'''),
 dict(id='C06-r-counter', property='C06', pkg='pkg/bcdice',
  edits=[(RL, 'for i := 0; i < e.MaxRerolls && len(rollQueue) > 0; i++ {', 'for i := 0; i < e.MaxRerolls && len(rollQueue) > 0; {'),
         (RL, '''		if numOfSuccesses > 0 {
''', '''		if numOfSuccesses < len(values.Elements) {
			i++
		}

		if numOfSuccesses > 0 {
''')],
  needs='dice that are all at or above the threshold, group after group', breaks='rerolls are only counted when some die fails, so a reroll chain may never stop',
  demo=MAXF+'''func TestZZDemo(t *testing.T) {
	f := &zzMax{}
	if _, err := bcdice.New(f).ExecuteCommand("2R6[2]"); err != nil || f.n > 50000 {
		t.Fatal(f.n, err)
	}
}
'''),
 dict(id='C06-compare-loop', property='C06', pkg='pkg/core/notation',
  edits=[(NO, '''	expr, err := InfixNotation(node.Expression, true)
	if err != nil {
		return "", err
	}

	return fmt.Sprintf("C(%s)", expr), nil''', '''	if node.Expression.Type() == ast.CALC_NODE {
		return InfixNotation(node, true)
	}

	expr, err := InfixNotation(node.Expression, true)
	if err != nil {
		return "", err
	}

	return fmt.Sprintf("C(%s)", expr), nil''')],
  needs='a calculation node inside a calculation node', breaks='the display of the formula calls itself on the same node for ever',
  demo='''package notation_test

import (
	"os"
	"os/exec"
	"testing"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
)

func TestZZDemo(t *testing.T) {
	if os.Getenv("ZZ_CHILD") == "" {
		c := exec.Command(os.Args[0], "-test.run", "TestZZDemo")
		c.Env = append(os.Environ(), "ZZ_CHILD=1")
		if err := c.Run(); err != nil {
			t.Fatal(err)
		}
		return
	}
	notation.InfixNotation(ast.NewCalc(ast.NewCalc(ast.NewInt(1))), true)
}
'''),
 dict(id='C10-set-alias', property='C10', pkg='pkg/core/dice/feeder',
  edits=[(QU, '''	for _, d := range dice {
		f.Push(d)
	}
''', '''	if f.IsEmpty() {
		f.queue = dice
		return
	}

	f.queue = append(f.queue, dice...)
''')],
  needs='a list appended to an empty queue and changed by its owner afterwards', breaks='the queue shares storage with the list it was given',
  demo='''package feeder_test

import (
	"testing"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

func TestZZDemo(t *testing.T) {
	f := feeder.NewEmptyQueue()
	l := []dice.Die{{Value: 1, Sides: 6}, {Value: 2, Sides: 6}}
	f.Append(l)
	l[0].Value = 5
	if d, _ := f.Next(6); d.Value != 1 {
		t.Fatal(d)
	}
}
'''),
 dict(id='C10-set-shared', property='C10', pkg='pkg/core/dice/feeder',
  edits=[(QU, '''	f.queue = make([]dice.Die, len(d))
	copy(f.queue, d)
''', '''	f.queue = d[:len(d):len(d)]
''')],
  needs='a list changed by its owner after it was set', breaks='the queue is a view of the list it was given',
  demo='''package feeder_test

import (
	"testing"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

func TestZZDemo(t *testing.T) {
	f := feeder.NewEmptyQueue()
	l := []dice.Die{{Value: 1, Sides: 6}, {Value: 2, Sides: 6}}
	f.Set(l)
	l[0].Value = 5
	if d, _ := f.Next(6); d.Value != 1 {
		t.Fatal(d)
	}
}
'''),
 dict(id='C11-le-overflow', property='C11', pkg='pkg/bcdice',
  edits=[(IX, 'return object.NewBoolean(leftValue <= rightValue), nil', 'return object.NewBoolean(leftValue < rightValue+1), nil')],
  needs='a target of exactly the largest integer', breaks='<= wraps around and is false for every value',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew(dice.Die{Value: 1, Sides: 6}).ExecuteCommand("1D6<=9223372036854775807")
	if err != nil || r.SuccessCheckResult.String() != "SUCCESS" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C11-gt-difference', property='C11', pkg='pkg/bcdice',
  edits=[(IX, 'return object.NewBoolean(leftValue > rightValue), nil', 'return object.NewBoolean(leftValue-rightValue > 0), nil')],
  needs='values so far apart that their difference does not fit', breaks='> is decided by the sign of a difference that wraps around',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew(dice.Die{Value: 5, Sides: 6}).ExecuteCommand("1D6>-9223372036854775807")
	if err != nil || r.SuccessCheckResult.String() != "SUCCESS" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C12-unary-divide', property='C12', pkg='pkg/bcdice',
  edits=[(NO, '	if right.IsPrimaryExpression() {\n', '	if right.IsPrimaryExpression() || right.Type() == ast.DIVIDE_WITH_ROUNDING_UP_NODE {\n')],
  needs='a unary minus before a parenthesised division that rounds up', breaks='the parentheses are left out, and the formula shown denotes another value',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew().ExecuteCommand("C(-(7/2U))")
	if err != nil {
		t.Fatal(err)
	}
	shown := r.MessageParts[0]
	r2, err := zzNew().ExecuteCommand(shown[:len(shown)-0])
	if err != nil {
		t.Fatal(shown, err)
	}
	if r2.MessageParts[2] != r.MessageParts[2] {
		t.Fatal(shown, r.MessageParts, r2.MessageParts)
	}
}
'''),
 dict(id='C12-mixed-precedence', property='C12', pkg='pkg/bcdice',
  edits=[('pkg/core/ast/operator_precedence.go', '''	// ダイスロール
	PREC_ROLL
	// RandomNumber
	PREC_DOTS
	// 単項マイナス、単項プラス
	PREC_U_PLUS_MINUS
''', '''	// 単項マイナス、単項プラス
	PREC_U_PLUS_MINUS
	// RandomNumber
	PREC_DOTS
	// ダイスロール
	PREC_ROLL
''')],
  needs='', breaks='', demo=B+'''func TestZZDemo(t *testing.T) {}
'''),
 dict(id='C14-digits', property='C14', pkg='pkg/bcdice',
  edits=[(PG, '''	s := string(c.text)

''', '''	s := string(c.text)
	if len(s) > 18 {
		s = s[:18]
	}

''')],
  needs='a numeral of 19 digits or more', breaks='the digits after the eighteenth are dropped',
  demo=B+'''func TestZZDemo(t *testing.T) {
	if r, err := zzNew().ExecuteCommand("C(1000000000000000000)"); err != nil || r.MessageParts[2] != "1000000000000000000" {
		t.Fatal(r, err)
	}
	if r, err := zzNew().ExecuteCommand("C(99999999999999999999)"); err == nil {
		t.Fatal(r)
	}
}
'''),
 dict(id='C14-dice-faces', property='C14', pkg='pkg/dicebot/testing',
  edits=[(TC, 'rolledDice = append(rolledDice, dice.Die{Value, Sides})', '''if Sides > 1000 {
			Sides = 1000
		}

		rolledDice = append(rolledDice, dice.Die{Value, Sides})''')],
  needs='a dice notation with more than 1000 faces', breaks='the number of faces is replaced',
  demo='''package testing

import gotesting "testing"

func TestZZDemo(t *gotesting.T) {
	ds, err := ParseDice("7/10000")
	if err != nil || len(ds) != 1 || ds[0].Value != 7 || ds[0].Sides != 10000 {
		t.Fatal(ds, err)
	}
}
'''),
 dict(id='C15-threshold', property='C15', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/reroll_threshold.go', '''	if evalErr != nil {
		return evalErr
	}

	rRollList.Threshold = objectToIntNode(thresholdObj)

	return nil''', '''	if evalErr == nil {
		rRollList.Threshold = objectToIntNode(thresholdObj)
	}

	return nil''')],
  needs='a comparison whose target divides by zero', breaks='the error is replaced by a result that asks for a threshold',
  demo=B+'''func TestZZDemo(t *testing.T) {
	if r, err := zzNew(dice.Die{Value: 1, Sides: 6}).ExecuteCommand("1R6>=1/0"); err == nil {
		t.Fatal(r)
	}
}
'''),
 dict(id='C15-repl-roll', property='C15', pkg='cmd/GoBCDiceREPL/repl',
  edits=[(RP, '''	rolledDice, err := r.diceRoller.RollDice(num, sides)
	if err != nil {
		r.printError(err)
		return
	}

	fmt.Fprintf(r.out, "%s%s\\n", RESULT_HEADER, dice.FormatDice(rolledDice))''', '''	rolledDice, err := r.diceRoller.RollDice(num, sides)
	if err == nil {
		fmt.Fprintf(r.out, "%s%s\\n", RESULT_HEADER, dice.FormatDice(rolledDice))
	}''')],
  needs='a roll that fails', breaks='the failed roll prints nothing at all',
  demo=REPL+'''func TestZZDemo(t *testing.T) {
	r, b := zzNew()
	zzRun(r, "set-die-feeder", "queue")
	b.Reset()
	zzRun(r, "roll", "2 6")
	if b.Len() == 0 {
		t.Fatal("no answer")
	}
}
'''),
 dict(id='C16-error-path', property='C16', pkg='cmd/GoBCDiceREPL/repl',
  edits=[(RP, '''	// ダイスロール結果を指定していた場合は、評価後にそれを復元する
	if r.dieFeeder.CanSpecifyDie() {
		ds := r.dieFeeder.(*feeder.Queue).Dice()
		defer func() {
			f := r.dieFeeder.(*feeder.Queue)
			f.Set(ds)
		}()
	}

	result, err := ''', '''	// ダイスロール結果を指定していた場合は、評価後にそれを復元する
	if r.dieFeeder.CanSpecifyDie() {
		f := r.dieFeeder.(*feeder.Queue)
		ds := f.Dice()
		defer func() {
			f.Set(ds[:len(ds)-f.Remaining()])
			f.Append(ds[len(ds)-f.Remaining():])
		}()
	}

	result, err := ''')],
  needs='an evaluation that draws some but not all of the dice', breaks='the remaining dice are computed after the queue was already replaced',
  demo=REPL+'''func TestZZDemo(t *testing.T) {
	r, _ := zzNew()
	zzRun(r, "set-die-feeder", "queue")
	zzRun(r, "set-dice-queue", "1/6,2/6,3/6,4/6,5/6")
	for _, c := range []string{"2D6", "C(1)", "9D6", "x", "5B6"} {
		zzRun(r, "eval", c)
		q := r.dieFeeder.(*feeder.Queue).Dice()
		if len(q) != 5 {
			t.Fatal(c, q)
		}
		for i, d := range q {
			if d.Value != i+1 {
				t.Fatal(c, q)
			}
		}
	}
}
'''),
 dict(id='C16-roll-early', property='C16', pkg='cmd/GoBCDiceREPL/repl',
  edits=[(RP, '''	// ダイスロール結果を指定していた場合は、評価後にそれを復元する
	if r.dieFeeder.CanSpecifyDie() {
		ds := r.dieFeeder.(*feeder.Queue).Dice()
		defer func() {
			f := r.dieFeeder.(*feeder.Queue)
			f.Set(ds)
		}()
	}

	num,''', '''	num,'''),
  (RP, '''	fmt.Fprintf(r.out, "%s%s\\n", RESULT_HEADER, dice.FormatDice(rolledDice))''', '''	// ダイスロール結果を指定していた場合は、評価後にそれを復元する
	if r.dieFeeder.CanSpecifyDie() {
		f := r.dieFeeder.(*feeder.Queue)
		f.Set(append(rolledDice, f.Dice()...))
	}

	fmt.Fprintf(r.out, "%s%s\\n", RESULT_HEADER, dice.FormatDice(rolledDice))''')],
  needs='a roll that fails after some of the dice were drawn', breaks='the dice drawn before the failure are lost',
  demo=REPL+'''func TestZZDemo(t *testing.T) {
	r, _ := zzNew()
	zzRun(r, "set-die-feeder", "queue")
	zzRun(r, "set-dice-queue", "1/6,2/8")
	for _, c := range []string{"1 6", "2 6"} {
		zzRun(r, "roll", c)
		q := r.dieFeeder.(*feeder.Queue).Dice()
		if len(q) != 2 || q[0].Value != 1 || q[1].Value != 2 {
			t.Fatal(c, q)
		}
	}
}
'''),
 dict(id='C17-reset-queue', property='C17', pkg='cmd/GoBCDiceREPL/repl',
  edits=[(RP, '''	r.dieFeeder = f
	r.diceRoller = roller.New(f)
''', '''	if r.dieFeeder.CanSpecifyDie() && f.CanSpecifyDie() {
		// すでに手動指定の場合は、キューを空にする
		r.dieFeeder = f
		r.bcDice.SetDieFeeder(f)
		r.printOK()
		return
	}

	r.dieFeeder = f
	r.diceRoller = roller.New(f)
''')],
  needs='the queue feeder chosen twice in a row', breaks='the roll command keeps drawing from the first queue',
  demo=REPL+'''func TestZZDemo(t *testing.T) {
	r, b := zzNew()
	zzRun(r, "set-die-feeder", "queue")
	zzRun(r, "set-die-feeder", "queue")
	zzRun(r, "set-dice-queue", "3/6")
	b.Reset()
	zzRun(r, "roll", "1 6")
	if !strings.Contains(b.String(), "3/6") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id='C17-start', property='C17', pkg='cmd/GoBCDiceREPL/repl',
  edits=[(RP, '		bcDice:     bcdice.New(f),\n', '		bcDice:     bcdice.New(feeder.NewMT19937(f.Seed())),\n')],
  needs='evaluation and rolling in the same session before the feeder is changed', breaks='evaluation draws from another feeder than the roll command',
  demo=REPL+'''func TestZZDemo(t *testing.T) {
	r, _ := zzNew()
	if r.bcDice.DieFeeder() != r.dieFeeder || r.diceRoller.DieFeeder() != r.dieFeeder {
		t.Fatal("different feeders")
	}
}
'''),
 dict(id='C18-long-name', property='C18', pkg='cmd/GoBCDiceREPL/repl',
  edits=[(RP, r'`\A\.([-a-z]+)(?:\s+(.+))*`', r'`\A\.([a-z]+(?:-[a-z]+)?)(?:\s+(.+))*`')],
  needs='a command whose name has two hyphens', breaks='.set-die-feeder and .set-dice-queue cannot be invoked',
  demo=REPL+'''func TestZZDemo(t *testing.T) {
	for _, c := range commands {
		m := commandRe.FindStringSubmatch("." + c.Name + " x")
		if m == nil || m[1] != c.Name {
			t.Fatal(c.Name, m)
		}
	}
}
'''),
 dict(id='C18-args-index', property='C18', pkg='cmd/GoBCDiceREPL/repl',
  edits=[(RP, '''	feederType := strings.ToLower(input)
''', '''	feederType := strings.ToLower(strings.Fields(input)[0])
''')],
  needs='.set-die-feeder without an argument', breaks='the handler panics',
  demo=REPL+'''func TestZZDemo(t *testing.T) {
	r, _ := zzNew()
	for _, c := range commands {
		if c.Name != "quit" {
			zzRun(r, c.Name, "")
			zzRun(r, c.Name, "x")
		}
	}
}
'''),
 dict(id='C18-dot-q', property='C18', pkg='cmd/GoBCDiceREPL/repl',
  edits=[(RP, '''		// REPL終了の ".q" のみ特別扱い
		if line == ".q" {
			break
		}
''', '''		// REPL終了の ".q" のみ特別扱い
		switch line {
		case ".q":
			break
		}
''')],
  needs='.q followed by more input', breaks='.q does not end the loop any more',
  demo=REPL+'''func TestZZDemo(t *testing.T) {
	os.Chdir(t.TempDir())
	readline.Stdin = io.NopCloser(strings.NewReader("C(1+1)\\n.q\\nC(2+3)\\n"))
	r, b := zzNew()
	r.Start()
	if strings.Contains(b.String(), "C(2+3)") || !strings.Contains(b.String(), "C(1+1)") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id='C19-status-range', property='C19', pkg='cmd/GoBCDiceAPI/controllers',
  edits=[('cmd/GoBCDiceAPI/helpers/response.go', '	if statusCode != 200 {\n', '	if statusCode >= 300 {\n')],
  needs='a status such as 202', breaks='ok is true although the status is not 200',
  demo=API+'''func TestZZDemo(t *testing.T) {
	e := echo.New()
	rec := httptest.NewRecorder()
	c := e.NewContext(httptest.NewRequest("GET", "/", nil), rec)
	body := helpers.ResponseMap{}
	helpers.JSONResponse(c, 202, body)
	if body["ok"] != false {
		t.Fatal(body)
	}
}
'''),
 dict(id='C19-preset-ok', property='C19', pkg='cmd/GoBCDiceAPI/controllers',
  edits=[('cmd/GoBCDiceAPI/helpers/response.go', '''	if statusCode != 200 {
		body["ok"] = false
	} else {
		body["ok"] = true
	}
''', '''	if _, found := body["ok"]; !found {
		body["ok"] = statusCode == 200
	}
''')],
  needs='a body that already has an ok entry', breaks='the entry of the body wins over the status',
  demo=API+'''func TestZZDemo(t *testing.T) {
	e := echo.New()
	rec := httptest.NewRecorder()
	c := e.NewContext(httptest.NewRequest("GET", "/", nil), rec)
	body := helpers.ResponseMap{"ok": true}
	helpers.JSONResponse(c, 500, body)
	if body["ok"] != false {
		t.Fatal(body)
	}
}
'''),
 dict(id='C20-casefold', property='C20', pkg='pkg/bcdice',
  edits=[('pkg/dicebot/list/list.go', 'import (\n\t"fmt"\n', 'import (\n\t"fmt"\n\t"strings"\n'),
         ('pkg/dicebot/list/list.go', '	if gameID == basic.BasicInfo().GameID {\n', '	if strings.EqualFold(strings.TrimSpace(gameID), basic.BasicInfo().GameID) {\n')],
  needs='an identifier in another case', breaks='identifiers that are not listed are accepted',
  demo=B+'''func TestZZDemo(t *testing.T) {
	for _, id := range []string{"dicebot", " DiceBot", "DICEBOT"} {
		if zzNew().SetDiceBotByGameID(id) == nil {
			t.Fatal(id)
		}
	}
}
'''),
 dict(id='C20-failed-selection', property='C20', pkg='pkg/bcdice',
  edits=[('pkg/bcdice/bcdice.go', '''	diceBotConstructor, err := dicebotlist.Find(gameID)
	if err != nil {
		return err
	}

	b.DiceBot''', '''	diceBotConstructor, err := dicebotlist.Find(gameID)
	if err != nil {
		if basicConstructor, basicErr := dicebotlist.Find("DiceBot"); basicErr == nil {
			b.DiceBot = basicConstructor()
		}

		return err
	}

	b.DiceBot''')],
  needs='a failed selection while another game system than the basic one is in use', breaks='the failed selection replaces the current game system',
  demo=B.replace('import (', 'import (\n\t"github.com/raa0121/GoBCDice/pkg/dicebot"')+'''type zzBot struct{ dicebot.DiceBot }

func (zzBot) GameID() string { return "Other" }

func TestZZDemo(t *testing.T) {
	b := zzNew()
	b.DiceBot = zzBot{b.DiceBot}
	if b.SetDiceBotByGameID("no such game") == nil || b.DiceBot.GameID() != "Other" {
		t.Fatal(b.DiceBot.GameID())
	}
}
'''),
 dict(id='C21-same-name', property='C21', pkg='pkg/core/ast',
  edits=[('pkg/core/ast/node.go', '	U_ROLL_COMP_NODE: "URollComp",\n', '	U_ROLL_COMP_NODE: "URollExpr",\n')],
  needs='the name of the open-ended comparison kind', breaks='two kinds print alike',
  demo='''package ast

import "testing"

func TestZZDemo(t *testing.T) {
	seen := map[string]NodeType{}
	for k := UNKNOWN_NODE; k <= SUM_ROLL_RESULT_NODE; k++ {
		if o, found := seen[k.String()]; found {
			t.Fatal(o, k)
		}
		seen[k.String()] = k
	}
}
'''),
 dict(id='C23-all-ones', property='C23', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_d_roll_comp.go', '''		result.SuccessCheckResult = SUCCESS_CHECK_FAILURE
		successCheckResultMessage = "失敗"
	}
''', '''		result.SuccessCheckResult = SUCCESS_CHECK_FAILURE
		successCheckResultMessage = "失敗"
	}

	// 4個以上のダイスの出目がすべて1ならば自動的失敗
	total := 0
	for _, d := range result.RolledDice {
		total += d.Value
	}

	if len(result.RolledDice) > 3 && total == len(result.RolledDice) {
		successCheckResultMessage = "失敗"
	}
''')],
  needs='four or more dice that all show 1 and a target that is met', breaks='the message says failure while the comparison and the flag say success',
  demo=B+'''func TestZZDemo(t *testing.T) {
	d := dice.Die{Value: 1, Sides: 6}
	r, err := zzNew(d, d, d, d).ExecuteCommand("4D6>=4")
	if err != nil || r.SuccessCheckResult.String() != "SUCCESS" || r.MessageParts[len(r.MessageParts)-1] != "成功" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C23-u-flag', property='C23', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_b_roll_comp.go', 'result.RolledDice = evaluator.RolledDice()\n', '''result.RolledDice = evaluator.RolledDice()

	if len(result.RolledDice) > 50 {
		result.SuccessCheckResult = SUCCESS_CHECK_SUCCESS
	}
''')],
  needs='a success count over more than fifty dice', breaks='a form that has no success flag sets it',
  demo=B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < 60; i++ {
		ds = append(ds, dice.Die{Value: 2, Sides: 6})
	}
	r, err := zzNew(ds...).ExecuteCommand("60B6>=5")
	if err != nil || r.SuccessCheckResult.String() != "UNSPECIFIED" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C24-cap', property='C24', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/eval_choice.go', 'e.RollDice(1, len(node.Items))', 'e.RollDice(1, len(node.Items)-len(node.Items)/20)')],
  needs='a choice among twenty items or more', breaks='the last items can never be chosen',
  demo=B+'''func TestZZDemo(t *testing.T) {
	s := "CHOICE[a"
	for i := 1; i < 25; i++ {
		s += ",b"
	}
	if _, err := zzNew(dice.Die{Value: 25, Sides: 25}).ExecuteCommand(s + "]"); err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id='C24-quoted', property='C24', pkg='pkg/bcdice',
  edits=[('pkg/core/command/execute_choice.go', 'result.AppendMessagePart(resultObj.Value)', 'result.AppendMessagePart(strings.Join(strings.Fields(resultObj.Value), " "))'),
         ('pkg/core/command/execute_choice.go', 'import (', 'import (\n\t"strings"\n')],
  needs='an item with several blanks in a row', breaks='the text of the item is changed on its way out',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew(dice.Die{Value: 1, Sides: 2}).ExecuteCommand("CHOICE[a  b,c]")
	if err != nil || r.MessageParts[1] != "a  b" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C25-negative-threshold', property='C25', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/reroll_threshold.go', '	if threshold < 2 {', '	if threshold >= -1 && threshold < 2 {')],
  needs='a threshold of -2 or less', breaks='the threshold is not refused and every die rerolls',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew(dice.Die{1, 6}, dice.Die{1, 6}).ExecuteCommand("1U6[-2]")
	if err != nil || len(r.RolledDice) != 0 {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C25-u-cut', property='C25', pkg='pkg/bcdice',
  edits=[(UE, '			if value < thresholdVal {\n', '			if value < thresholdVal || len(valueGroup) >= 20 {\n')],
  needs='twenty dice in a row at or above the threshold', breaks='the chain is cut although the last die is at or above the threshold',
  demo=B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < 25; i++ {
		ds = append(ds, dice.Die{6, 6})
	}
	ds = append(ds, dice.Die{1, 6})
	r, err := zzNew(ds...).ExecuteCommand("1U6[5]")
	if err != nil || len(r.RolledDice) != 26 {
		t.Fatal(err)
	}
}
'''),
 dict(id='C26-sticky-mark', property='C26', pkg='pkg/bcdice',
  edits=[(PG, '''	lastNode := first.(ast.Node)
	for _, r := range toIfaceSlice(rest) {
		rs := toIfaceSlice(r)
		op := string(rs[0].([]byte))
		right := rs[1].(ast.Node)

		roundingMethod := ""
''', '''	lastNode := first.(ast.Node)
	roundingMethod := ""
	for _, r := range toIfaceSlice(rest) {
		rs := toIfaceSlice(r)
		op := string(rs[0].([]byte))
		right := rs[1].(ast.Node)

''')],
  needs='a division without a mark after one with a mark in the same chain', breaks='the mark of the earlier division is used for the later one',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew().ExecuteCommand("C(9/2U/2)")
	if err != nil || r.MessageParts[2] != "2" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C26-divide-chain', property='C26', pkg='pkg/bcdice',
  edits=[(PG, '''		case "*":
			lastNode = ast.NewMultiply(lastNode, right)
''', '''		case "*":
			if d, ok := lastNode.(*ast.Divide); ok && len(toIfaceSlice(rest)) > 2 {
				lastNode = ast.NewDivideWithRoundingDown(ast.NewMultiply(d.Left(), right), d.Right())
				continue
			}

			lastNode = ast.NewMultiply(lastNode, right)
''')],
  needs='a chain of at least three operators with a multiplication after a division', breaks='the multiplication is pulled in front of the division and the mark is lost',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew().ExecuteCommand("C(7/2*2*1)")
	if err != nil || r.MessageParts[2] != "6" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C27-last-max', property='C27', pkg='pkg/bcdice',
  edits=[('pkg/core/object/array.go', '''		if eInt.Value > maxElement.Value {
			maxElement = eInt
		}
''', '''		if eInt.Value > maxElement.Value {
			maxElement = eInt
		} else if eInt.Value == maxElement.Value && len(a.Elements) > 12 {
			break
		}
''')],
  needs='more than twelve groups with equal sums before the largest', breaks='the groups after a tie are not considered for the maximum',
  demo=B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < 13; i++ {
		ds = append(ds, dice.Die{1, 6})
	}
	ds = append(ds, dice.Die{4, 6})
	r, err := zzNew(ds...).ExecuteCommand("14U6[5]")
	if err != nil || r.MessageParts[2] != "4/17 (最大/合計)" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C27-count-stop', property='C27', pkg='pkg/bcdice',
  edits=[(IX, '''			numOfSuccesses++
		}
	}
''', '''			numOfSuccesses++
		} else if numOfSuccesses > 9 {
			break
		}
	}
''')],
  needs='a die that fails after ten successes', breaks='the dice after it are not counted',
  demo=B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < 12; i++ {
		ds = append(ds, dice.Die{6, 6})
	}
	ds[10].Value = 1
	r, err := zzNew(ds...).ExecuteCommand("12B6>=5")
	if err != nil || r.MessageParts[len(r.MessageParts)-1] != "成功数11" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C29-shared-body', property='C29', pkg='cmd/GoBCDiceAPI/controllers',
  edits=[('cmd/GoBCDiceAPI/models/root_response.go', '''type RootResponse struct {
	Message string
}
''', '''type RootResponse struct {
	Message string
}

var rootResponseMap = helpers.ResponseMap{}
'''),
  ('cmd/GoBCDiceAPI/models/root_response.go', '''	return helpers.ResponseMap{
		"message": r.Message,
	}
''', '''	rootResponseMap["message"] = r.Message

	return rootResponseMap
''')],
  needs='two requests at the same time', breaks='all responses share one map, which concurrent requests write',
  demo=API+'''func TestZZDemo(t *testing.T) {
	a := models.NewRootResponse().ToResponseMap()
	a["x"] = 1
	if b := models.NewRootResponse().ToResponseMap(); b["x"] != nil {
		t.Fatal("shared")
	}
}
'''),
 dict(id='C29-cached-list', property='C29', pkg='cmd/GoBCDiceAPI/controllers',
  edits=[('cmd/GoBCDiceAPI/models/systems.go', '''func NewSystems() *Systems {
	return &Systems{Names: list.AvailableGameIDs(true)}
}
''', '''var systems Systems

func NewSystems() *Systems {
	if systems.Names == nil {
		systems.Names = list.AvailableGameIDs(true)
	}

	return &systems
}
''')],
  needs='the first requests arriving at the same time', breaks='requests write the cached list without synchronisation',
  demo=API+'''func TestZZDemo(t *testing.T) {
	if models.NewSystems() == models.NewSystems() {
		t.Fatal("shared")
	}
}
'''),
 dict(id='C13-unicode-s', property='C13', pkg='pkg/bcdice',
  edits=[('pkg/core/util/secret_roll.go', '	"reflect"\n', '	"reflect"\n')],
  needs='', breaks='', demo=B+'''func TestZZDemo(t *testing.T) {}
'''),
 dict(id='C05-no-faces', property='C05', pkg='pkg/bcdice',
  edits=[('pkg/core/dice/roller/roller.go', 'if d.Sides != sides {', 'if d.Sides != 0 && d.Sides != sides {')],
  needs='a feeder that supplies a die without a number of faces', breaks='the die is accepted whatever was asked for',
  demo=B+'''func TestZZDemo(t *testing.T) {
	if r, err := zzNew(dice.Die{3, 0}).ExecuteCommand("1D6"); err == nil {
		t.Fatal(r)
	}
}
'''),
 dict(id='C13-long-s', property='C13', pkg='pkg/bcdice',
  edits=[('pkg/core/util/secret_roll.go', '''	switch inputRunes[0] {
	case 'S', 's':''', '''	switch unicode.ToUpper(inputRunes[0]) {
	case 'S':'''), ('pkg/core/util/secret_roll.go', '	"reflect"\n', '	"reflect"\n')],
  needs='an input that starts with a letter whose upper case is S', breaks='U+017F is taken for the mark',
  demo=B+'''func TestZZDemo(t *testing.T) {
	if r, err := zzNew(dice.Die{1, 6}).ExecuteCommand("\u017f1D6"); err == nil {
		t.Fatal(r)
	}
}
'''),
 dict(id='C21-comp-results', property='C21', pkg='pkg/core/object',
  edits=[('pkg/core/object/object.go', 'ZZ', '')], needs='x', breaks='', demo=''),
 dict(id='C22-one-case', property='C22', pkg='pkg/bcdice',
  edits=[],
  needs='', breaks='', demo=''),
]
SEEDS = [s for s in SEEDS if s['needs']]
