exec(open('/verif/tools/specs/s3.py').read().split('\nSEEDS = [')[0])
Q='pkg/core/dice/feeder/queue.go'
F='''package feeder

import (
	"testing"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
)

'''
TAKE="	d := f.queue[0]\n	f.queue = f.queue[1:]\n"
SEEDS = [
 dict(id='C30-matching-die', property='C30', pkg='pkg/core/dice/feeder',
  edits=[(Q,"Next(_ int)","Next(sides int)"),(Q,TAKE,"	i := 0\n	for j, x := range f.queue {\n		if x.Sides == sides {\n			i = j\n			break\n		}\n	}\n	d := f.queue[i]\n	f.queue = append(append([]dice.Die{}, f.queue[:i]...), f.queue[i+1:]...)\n")],
  needs='a queue whose first die does not have the faces asked for', breaks='a later die is taken before the first',
  demo=F+'''func TestZZDemo(t *testing.T) {
	q := NewQueue([]dice.Die{{2, 4}, {3, 6}})
	if d, err := q.Next(6); err != nil || d != (dice.Die{2, 4}) {
		t.Fatal(d, err)
	}
}
'''),
 dict(id='C30-altered-die', property='C30', pkg='pkg/core/dice/feeder',
  edits=[(Q,"Next(_ int)","Next(sides int)"),(Q,TAKE,"	d := f.queue[0]\n	f.queue = f.queue[1:]\n	if sides > 0 && d.Sides == sides && d.Value > sides {\n		d.Value = (d.Value-1)%sides + 1\n	}\n")],
  needs='a die with a value above its number of faces', breaks='the die supplied is not the one in the queue, and an impossible die passes for a possible one',
  demo=F+'''func TestZZDemo(t *testing.T) {
	q := NewQueue([]dice.Die{{8, 6}})
	if d, err := q.Next(6); err != nil || d != (dice.Die{8, 6}) {
		t.Fatal(d, err)
	}
}
'''),
 dict(id='C30-full-queue', property='C30', pkg='pkg/core/dice/feeder',
  edits=[(Q,"	f.queue = append(f.queue, d)\n","	if len(f.queue) == cap(f.queue) && len(f.queue) >= 1024 {\n		f.queue = append(make([]dice.Die, 0, 2*len(f.queue)), f.queue[1:]...)\n	}\n	f.queue = append(f.queue, d)\n")],
  needs='more than 1024 dice added one by one', breaks='the first die is lost when the storage is enlarged',
  demo=F+'''func TestZZDemo(t *testing.T) {
	q := NewEmptyQueue()
	for i := 0; i < 5000; i++ {
		q.Push(dice.Die{i + 1, 10000})
	}
	if q.Remaining() != 5000 || q.Dice()[0].Value != 1 {
		t.Fatal(q.Remaining(), q.Dice()[0])
	}
}
'''),
]
