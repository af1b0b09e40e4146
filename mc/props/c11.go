package props

import "verifmc/engine"

func init() {
	engine.Register(engine.Property{
		ID:          "C11",
		Assumptions: []string{"items with a wanted hash are found by inverting MurmurHash3 on 16-byte inputs; the inversion is re-checked on every item"},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{
					c11HllRegs([]int{4, 5, 6, 7, 8, 9}, 4),
					c11Hll("hll-bounds", []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}, 20, 3_000_000),
					c11CpcStream([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16}, 40),
					c11CpcIcon([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}),
				}
			}
			return []engine.Scenario{
				c11HllRegs([]int{4, 5, 6, 7, 8}, 3),
				c11Hll("hll-bounds", []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, 12, 3_000_000),
				c11Hll("hll-bounds-large", []int{17, 19, 21}, 12, 220_000),
				c11CpcStream([]int{4, 5, 6, 7, 8, 9, 10, 11, 12}, 20),
				c11CpcIcon([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 22, 24, 26}),
			}
		},
	})
}
