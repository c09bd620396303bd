package inproc

import (
	"fmt"
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"

	"pgregory.net/rapid"

	"vlib/mm"
	"vlib/rec"
)

type NamesCase struct {
	A, B, C mm.Ident
	Sep     string
}

// C01 checks the parsing, formatting and comparison of names.
var C01 = []*rec.Sub{
	rec.NewSub("split-and-join", 30000, 300000, func(t *rapid.T) NamesCase {
		c := NamesCase{
			A:   mm.GenIdent(t, "a", 1, 5),
			B:   mm.GenIdent(t, "b", 1, 4),
			Sep: rapid.SampledFrom([]string{"_", "", "-", ".", "__", "x", " "}).Draw(t, "sep"),
		}
		switch rapid.IntRange(0, 3).Draw(t, "relation") {
		case 0: // A prefix of the other.
			n := rapid.IntRange(1, len(c.A.W)).Draw(t, "n")
			c.B = mm.Ident{W: append([]mm.Word{}, c.A.W[:n]...)}
		case 1: // Equal except one word.
			c.B = mm.Ident{W: append([]mm.Word{}, c.A.W...)}
			c.B.W[rapid.IntRange(0, len(c.B.W)-1).Draw(t, "n")] = mm.Word{T: "fox"}
		}
		c.C = mm.GenIdent(t, "c", 1, 3)
		return c
	}, checkNames),
	rec.NewSub("any-identifier", 30000, 300000, func(t *rapid.T) string {
		return rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_]{0,11}`).Draw(t, "text")
	}, checkAnyIdentifier),
}

func checkNames(f *rec.F, c NamesCase) {
	a := c.A
	f.R.Case(a.Text()+"/"+c.B.Text()+"/"+c.Sep, len(a.W) > 1, fmt.Sprintf("words=%d", len(a.W)))
	if f.R.WantSample() && len(a.W) > 2 {
		f.R.Sample(map[string]string{"text": a.Text(), "words": identWords(a), "other": c.B.Text()})
	}
	f.Try("names", func() {
		n := names.ParseUsingCase(a.Text())
		if words(n) != identWords(a) {
			f.Failf("name '%s' is split as %s instead of %s", a.Text(), words(n), identWords(a))
		}
		if n.Text() != a.Text() {
			f.Failf("original text of name '%s' is '%s'", a.Text(), n.Text())
		}
		join := func(fn func(mm.Word) string, sep string) string {
			var chunks []string
			for _, w := range a.W {
				chunks = append(chunks, fn(w))
			}
			return strings.Join(chunks, sep)
		}
		lower := func(w mm.Word) string { return strings.ToLower(w.T) }
		upper := func(w mm.Word) string { return strings.ToUpper(w.T) }
		capital := func(w mm.Word) string { return mm.Ident{W: []mm.Word{w}}.Camel() }
		same := func(w mm.Word) string { return w.T }
		for _, x := range []struct{ what, got, want string }{
			{"camel case form", n.Camel(), a.Text()},
			{"snake case form", n.Snake(), a.Snake()},
			{"string form", n.String(), join(same, "_")},
			{"lower case form", n.LowerJoined(c.Sep), join(lower, c.Sep)},
			{"upper case form", n.UpperJoined(c.Sep), join(upper, c.Sep)},
			{"capitalized form", n.CapitalizedJoined(c.Sep), join(capital, c.Sep)},
		} {
			if x.got != x.want {
				f.Failf("%s of '%s' is '%s' instead of '%s'", x.what, a.Text(), x.got, x.want)
			}
		}
		again := names.ParseUsingCase(n.Camel())
		if !again.Equals(n) || !n.Equals(again) || names.Compare(n, again) != 0 {
			f.Failf("name '%s' isn't equal to itself after formatting and parsing it", a.Text())
		}

		// Separators:
		s := names.ParseUsingSeparator(a.Snake(), "_")
		if words(s) != strings.ReplaceAll(a.Snake(), "_", "|") || s.Snake() != a.Snake() || s.Text() != a.Snake() {
			f.Failf("text '%s' is split as %s", a.Snake(), words(s))
		}

		// Order and equality:
		b := names.ParseUsingCase(c.B.Text())
		third := names.ParseUsingCase(c.C.Text())
		sign := func(i int) int {
			switch {
			case i < 0:
				return -1
			case i > 0:
				return 1
			}
			return 0
		}
		if got, want := sign(names.Compare(n, b)), sign(compareIdents(a, c.B)); got != want {
			f.Failf("comparison of '%s' and '%s' is %d instead of %d", a.Text(), c.B.Text(), got, want)
		}
		if got, want := n.Equals(b), identWords(a) == identWords(c.B); got != want && sameInits(a, c.B) {
			f.Failf("equality of '%s' and '%s' is %v instead of %v", a.Text(), c.B.Text(), got, want)
		}
		list := names.Names{third, n, b}
		sort.Sort(list)
		ids := []mm.Ident{c.C, a, c.B}
		sort.SliceStable(ids, func(i, j int) bool { return compareIdents(ids[i], ids[j]) < 0 })
		for i := range ids {
			if words(list[i]) != identWords(ids[i]) {
				f.Failf("names '%s', '%s' and '%s' aren't sorted correctly", c.C.Text(), a.Text(), c.B.Text())
			}
		}

		// Composition doesn't alter the operands:
		wordsA, wordsB := words(n), words(b)
		cat := names.Cat(n, b)
		if words(cat) != wordsA+"|"+wordsB {
			f.Failf("concatenation of '%s' and '%s' is %s", a.Text(), c.B.Text(), words(cat))
		}
		x, y := names.NewWord("x"), names.NewWord("y")
		one := n.Append(x)
		two := n.Append(y)
		if words(one) != wordsA+"|x" || words(two) != wordsA+"|y" || words(n) != wordsA {
			f.Failf("appending words to '%s' results in %s and %s", a.Text(), words(one), words(two))
		}
		ins := n.Insert(b.Words()...)
		if words(ins) != wordsB+"|"+wordsA || words(n) != wordsA || words(b) != wordsB {
			f.Failf("inserting words in '%s' results in %s", a.Text(), words(ins))
		}
		ws := n.Words()
		ws[0] = x
		if words(n) != wordsA {
			f.Failf("changing the result of the words of '%s' changes the name", a.Text())
		}
	})
}

func sameInits(a, b mm.Ident) bool {
	if len(a.W) != len(b.W) {
		return true
	}
	for i := range a.W {
		if a.W[i].T == b.W[i].T && a.W[i].Init != b.W[i].Init {
			return false
		}
	}
	return true
}

func checkAnyIdentifier(f *rec.F, text string) {
	f.R.Case("any:"+text, len(text) > 2)
	f.Try("names", func() {
		n := names.ParseUsingCase(text)
		var all string
		for _, w := range n.Words() {
			if w.String() == "" {
				f.Failf("identifier '%s' has an empty word: %s", text, words(n))
			}
			all += w.String()
		}
		if !strings.EqualFold(all, text) {
			f.Failf("identifier '%s' is split into words %s, which don't have the same letters", text, words(n))
		}
		again := names.ParseUsingCase(text)
		if !n.Equals(again) || names.Compare(n, again) != 0 {
			f.Failf("identifier '%s' isn't equal to itself", text)
		}
	})
}
