// Command known lists the terms of the dictionaries that are not recognized as they are listed. It was used once, to write
// known-findings.txt; no check runs it.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/stackoverflow"

	"verif/mc/h"
	"verif/mc/ref"
)

func main() {
	var lines []string
	do := func(dict string, f jargon.Filter, table map[string]string) {
		for syns, canonical := range table {
			for _, s := range ref.SplitSynonyms(syns) {
				s = strings.TrimRight(s, " ")
				ts, err := f(jargon.TokenizeString(s)).ToSlice()
				if err != nil {
					panic(err)
				}
				got := h.OfAll(ts)
				if len(got) == 1 && got[0] == ref.New(canonical, true) {
					continue
				}
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=C24 %s: %q comes out as %v, not as the lemma %q", dict, s, got, canonical))
			}
		}
	}
	do("stackoverflow", stackoverflow.Tags, ref.SOTable)
	do("nba", nba.CurrentPlayers, ref.NBATable)
	sort.Strings(lines)
	fmt.Println(strings.Join(lines, "\n"))
}
