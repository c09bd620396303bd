package mm

import (
	"encoding/json"

	"pgregory.net/rapid"
)

// Clone makes a deep copy of the model.
func (m *Model) Clone() *Model {
	data, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	result := &Model{}
	if err := json.Unmarshal(data, result); err != nil {
		panic(err)
	}
	return result
}

func shuffle[T any](t *rapid.T, label string, items []T) []T {
	if len(items) < 2 {
		return items
	}
	return rapid.Permutation(items).Draw(t, label)
}

// Shuffle returns the same model with the declarations, and the things inside them, in a different
// order, distributed among files in a different way, and with a different layout.
func (m *Model) Shuffle(t *rapid.T) *Model {
	m = m.Clone()
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, x := range v.Types {
				x.Attrs = shuffle(t, "attrs", x.Attrs)
				x.Values = shuffle(t, "values", x.Values)
			}
			for _, r := range v.Resources {
				r.Methods = shuffle(t, "methods", r.Methods)
				r.Locators = shuffle(t, "locators", r.Locators)
				for _, x := range r.Methods {
					x.Params = shuffle(t, "params", x.Params)
				}
			}
			total := len(v.Types) + len(v.Resources) + len(v.Errors)
			v.Order = rapid.Permutation(seq(total)).Draw(t, "newOrder")
			v.Cuts = nil
			for i := 0; i < total; i++ {
				v.Cuts = append(v.Cuts, rapid.IntRange(0, 2).Draw(t, "newCut") == 0)
			}
			v.Style = rapid.IntRange(0, 63).Draw(t, "newStyle")
		}
	}
	return m
}
