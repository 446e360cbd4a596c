// Values whose content changes between reads.
package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// changing checks a value that holds one scalar, then another of the same kind or of another, and so on.
// Whatever was read before, it is read like a value that was made of what it holds now.
func changing(x, y *scalar, check func(v *json.Value, x *scalar)) {
	seq := [][]*scalar{{x, y, x, y}, {x, x, y, y, x}, {x, x, x, x, y, x}}[sym.Choose("sequence", 3)]
	way := sym.Choose("way", 6)
	if way == 0 && x.kind == y.kind && x.kind != kNil {
		p := x.object(true)
		v := json.NewValue(p)
		for _, z := range seq {
			z.through(p)
			check(v, z)
		}
		return
	}
	m, a := json.NewMap(), json.NewArray()
	v := json.NewValue(seq[0].object(false))
	a.AppendValue(v)
	for _, z := range seq {
		switch way {
		case 0, 1:
			v.SetObject(z.object(false))
		case 2:
			v.SetObject(z.object(true))
		case 3:
			z.setOf(v, false)
		case 4:
			z.setIn(m, "a", false)
			v = m.GetValue("a")
		case 5:
			a.SetValueAtIndex(0, json.NewValue(z.object(false)))
			v = (*a.GetValues())[0]
		}
		check(v, z)
	}
}
