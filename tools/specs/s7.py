exec(open('/verif/tools/specs/s3.py').read().split('\nSEEDS = [')[0])
OB='pkg/core/object/array.go'; UF='pkg/core/command/execute_u_roll_expr.go'; RS='pkg/core/command/result.go'
JE='''		elements = append(elements, e.Inspect())
	}

	return strings.Join(elements, sep)
}

// JoinedElementsWithoutSpaces'''
def demo(n, cmd, cond):
    return B+'''func TestZZDemo(t *testing.T) {
	var ds []dice.Die
	for i := 0; i < %d; i++ {
		ds = append(ds, dice.Die{i%%5 + 1, 6})
	}
	r, err := zzNew(ds...).ExecuteCommand("%s")
	if err != nil || %s {
		t.Fatal(r, err)
	}
}
''' % (n, cmd, cond)
SEEDS = [
 dict(id='C31-long-list', property='C31', pkg='pkg/bcdice',
  edits=[(OB,JE,JE.replace('		elements = append(elements, e.Inspect())\n','		elements = append(elements, e.Inspect())\n		if len(elements) > 40 {\n			break\n		}\n'))],
  needs='a roll of more than 41 dice', breaks='the dice after the 41st are not shown',
  demo=demo(45,'45B6','len(r.MessageParts[1]) != 89')),
 dict(id='C31-dice-hidden', property='C31', pkg='pkg/bcdice',
  edits=[(NO,'	return fmt.Sprintf("%d[%s]", node.Value(), strings.Join(dieValueStrs, ",")), nil','	if len(dieValueStrs) > 64 {\n		return fmt.Sprintf("%d", node.Value()), nil\n	}\n\n	return fmt.Sprintf("%d[%s]", node.Value(), strings.Join(dieValueStrs, ",")), nil')],
  needs='a sum roll of more than 64 dice', breaks='the dice are not shown',
  demo=demo(65,'65D6','r.MessageParts[1][len(r.MessageParts[1])-1] != \']\'')),
 dict(id='C31-bonus-sign', property='C31', pkg='pkg/bcdice',
  edits=[(NO,'	if modifier > 0 {\n','	if modifier > 0 && modifier < 1000 {\n')],
  needs='a bonus of 1000 or more on a U roll', breaks='the bonus runs into the last group',
  demo=demo(2,'2U6[6]+1000','r.MessageParts[1] != "1,2+1000"')),
 dict(id='C31-parts-cut', property='C31', pkg='pkg/bcdice',
  edits=[(RS,'	return r.GameID + " : " + r.JoinedMessageParts()\n','	m := r.JoinedMessageParts()\n	if len(r.RolledDice) > 100 {\n		m = strings.Join(append([]string{r.MessageParts[0]}, r.MessageParts[len(r.MessageParts)-1]), " ＞ ")\n	}\n	return r.GameID + " : " + m\n')],
  needs='a roll of more than 100 dice', breaks='the message leaves the dice out',
  demo=demo(101,'101D6','len(r.Message()) < 200')),
]
