package h

import "github.com/gkampitakis/go-snaps/snaps"

// a test file of another directory

//line other/elsewhere_test.go:1
func callElsewhere(t *recT, s *Step, c *snaps.Config, in any) {
	switch s.Op {
	case "snap":
		vals := make([]any, len(s.Vals))
		for i, v := range s.Vals {
			vals[i] = unlat(v)
		}
		c.MatchSnapshot(t, vals...)
	case "ssnap":
		c.MatchStandaloneSnapshot(t, unlat(s.Vals[0]))
	case "json":
		c.MatchJSON(t, in)
	case "sjson":
		c.MatchStandaloneJSON(t, in)
	case "yaml":
		c.MatchYAML(t, in)
	}
}
