// Package checks lists what decides each property.
package checks

import (
	"vh/core"
)

var all []*core.Check

// All returns all checks.
func All() []*core.Check { return all }

// Find returns a check by its identifier.
func Find(id string) *core.Check {
	for _, c := range all {
		if c.ID == id {
			return c
		}
	}
	return nil
}

func register(c *core.Check) { all = append(all, c) }

func pick(t core.Tier, q, th int) int {
	if t == core.Thorough {
		return th
	}
	return q
}

var commonAssumptions = []string{
	"the reference model and the oracles in /verif/harness are right",
	"the Go toolchain and runtime are right",
	"behaviour outside the stated bounds and alphabets is not covered",
}
