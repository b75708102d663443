exec(open('/verif/tools/specs/s3.py').read().split('\nSEEDS = [')[0])
import re
_t=open('/repo/pkg/core/parser/parser.go').read()
def _rule(name, ref):
    i=_t.index('name: "%s",\n			pos:' % name)
    j=_t.index('exprs: []interface{}{\n', i)
    k=_t.index('\n						&labeledExpr{', j)
    return _t[i:k]
def _look(name, ref):
    o=_rule(name, ref)
    p=re.search(r'position\{[^}]*\}', o).group(0)
    lit=lambda s: '								&litMatcher{\n									pos:        %s,\n									val:        "%s",\n									ignoreCase: false,\n								},\n' % (p, s)
    n=o.replace('exprs: []interface{}{\n', 'exprs: []interface{}{\n						&andExpr{\n							pos: %s,\n							expr: &seqExpr{\n								pos: %s,\n								exprs: []interface{}{\n%s								&ruleRefExpr{\n									pos:  %s,\n									name: "%s",\n								},\n%s								},\n							},\n						},\n' % (p, p, lit('('), p, ref, lit(')')))
    return (PG, o, n)
TIME=B.replace('import (', 'import (\n	"strings"\n	"time"')
def deep(cmd): return TIME+'''func TestZZDemo(t *testing.T) {
	done := make(chan bool, 1)
	go func() {
		zzNew(dice.Die{1, 6}, dice.Die{1, 6}).ExecuteCommand(%s)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("still parsing")
	}
}
''' % cmd
SEEDS = [
 dict(id='C07-lookahead', property='C07', pkg='pkg/bcdice',
  edits=[_look('ParenthesizedIntRandExpr', 'IntRandExpr'), (PP, "ParenthesizedIntRandExpr <- '(' e", "ParenthesizedIntRandExpr <- &('(' IntRandExpr ')') '(' e")],
  needs='deeply nested parentheses in front of D', breaks='every level of parentheses is parsed twice, so the time doubles per level',
  demo=deep('strings.Repeat("(", 40) + "1" + strings.Repeat(")", 40) + "D6"')),
 dict(id='C07-comparison-target', property='C07', pkg='pkg/bcdice',
  edits=[_look('ParenthesizedIntExpr', 'IntExpr'), (PP, "ParenthesizedIntExpr <- '(' e", "ParenthesizedIntExpr <- &('(' IntExpr ')') '(' e")],
  needs='deeply nested parentheses in a formula or a target', breaks='every level of parentheses is parsed twice, so the time doubles per level',
  demo=deep('"1D6>=" + strings.Repeat("(", 40) + "1" + strings.Repeat(")", 40)')),
 dict(id='C05-range-cap', property='C05', pkg='pkg/bcdice',
  edits=[(IX, '	randRange := maxValue - minValue + 1\n', '	randRange := maxValue - minValue + 1\n	if randRange > 65536 {\n		randRange = 65536\n	}\n')],
  needs='a range of more than 65536 numbers', breaks='the numbers at the end of the range can never come up',
  demo=B+'''func TestZZDemo(t *testing.T) {
	r, err := zzNew(dice.Die{100000, 100000}, dice.Die{1, 6}).ExecuteCommand("[1...100000]+1D6")
	if err != nil || r.MessageParts[2] != "100001" {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='C27-tied-groups', property='C27', pkg='pkg/bcdice',
  edits=[('pkg/core/evaluator/eval_u_roll_comp.go', '	for _, sum := range sumOfGroups.Elements {\n', '	for i, sum := range sumOfGroups.Elements {\n		if i > 9 && sum.(*object.Integer).Value == sumOfGroups.Elements[i-1].(*object.Integer).Value {\n			continue\n		}\n\n')],
  needs='an eleventh group with the sum of the tenth', breaks='the group is not counted',
  demo=B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < 12; i++ {
		ds = append(ds, dice.Die{3, 6})
	}
	r, err := zzNew(ds...).ExecuteCommand("12U6[6]>=3")
	if err != nil || r.MessageParts[2] != "成功数12" {
		t.Fatal(r, err)
	}
}
'''),
]
