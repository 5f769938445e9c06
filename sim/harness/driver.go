package main

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
)

func planOf(prop, seed string) *Plan {
	var n uint64
	fmt.Sscan(seed, &n)
	return genPlan(prop, n)
}

// TestMain: role worker runs one plan, role plan prints the plan of a seed.
func TestMain(m *testing.M) {
	switch os.Getenv("VSIM_ROLE") {
	case "worker":
		os.Exit(m.Run())
	case "plan":
		b, err := json.Marshal(planOf(os.Getenv("VSIM_PROP"), os.Getenv("VSIM_SEED")))
		if err != nil {
			panic(err)
		}
		if f := os.Getenv("VSIM_PLAN"); f != "" {
			os.WriteFile(f, b, 0o644)
		} else {
			os.Stdout.Write(b)
		}
	}
	os.Exit(0)
}
