package props

import (
	"sync"

	"terorie.dev/nimiq/policy"
	"verif/harness/sym"
)

// Protocol constants.
const (
	totalSupply   = 2100000000000000
	initialSupply = 252000000000000
	tailStart     = 48692960
	tailReward    = 4000
)

// refRewardBySupply is the emission formula.
func refRewardBySupply(supply uint64, height uint32) uint64 {
	if height == 0 {
		return 0
	}
	left := totalSupply - supply
	if height >= tailStart && left >= tailReward {
		return tailReward
	}
	return left >> 22
}

func arbSupply(name string) uint64 {
	s := sym.U64(name)
	sym.Assume(s <= totalSupply)
	return s
}

func rewardBySupply(supply uint64, height uint32) (r uint64) {
	sym.NoPanic("no panic", func() { r = policy.BlockRewardBySupply(supply, height) })
	return
}

func C26_Formula() {
	s, h := arbSupply("supply"), sym.U32("height")
	r := rewardBySupply(s, h)
	sym.Assert(r == refRewardBySupply(s, h), "the emission formula")
	sym.Assert(sym.And(s+r <= totalSupply, s+r >= s), "never exceeds the total supply")
	sym.Observe("reward", r)
}

func C26_Constants() {
	sym.Assert(policy.TotalSupply == totalSupply && policy.InitialSupply == initialSupply, "supplies")
	sym.Assert(policy.EmissionTailStart == tailStart && policy.EmissionTailReward == tailReward, "tail")
	sym.Assert(policy.EmissionSpeed == 1<<22, "speed")
}

// C26_Between adds up rewards over short ranges anywhere.
func C26_Between() {
	s, from := arbSupply("supply"), sym.U32("from")
	n := sym.Choose("n", deep(6, 12))
	sym.Assume(uint64(from)+uint64(n) <= 1<<32-1)
	var got uint64
	sym.NoPanic("no panic", func() { got = policy.SupplyBetween(s, from, from+uint32(n)) })
	want := s
	for i := 0; i < n; i++ {
		want += refRewardBySupply(want, from+uint32(i))
	}
	sym.Assert(got == want, "the sum of the rewards in the half-open range")
	sym.Assert(got <= totalSupply, "never exceeds the total supply")
}

// C26_Backwards: an empty range adds nothing.
func C26_Backwards() {
	s, a, b := arbSupply("supply"), sym.U32("from"), sym.U32("to")
	sym.Assume(a >= b)
	sym.Assert(policy.SupplyBetween(s, a, b) == s, "no height, no reward")
}

// C26_Split: a range can be taken in parts.
func C26_Split() {
	s, from := arbSupply("supply"), sym.U32("from")
	n, m := sym.Choose("n", deep(4, 6)), sym.Choose("m", deep(4, 6))
	sym.Assume(uint64(from)+uint64(n+m) <= 1<<32-1)
	mid := policy.SupplyBetween(s, from, from+uint32(n))
	got := policy.SupplyBetween(mid, from+uint32(n), from+uint32(n+m))
	sym.Assert(got == policy.SupplyBetween(s, from, from+uint32(n+m)), "in parts or at once")
}

// C26_Start: from the initial supply on.
func C26_Start() {
	h := uint32(sym.Choose("height", deep(60, 300)))
	s := uint64(initialSupply)
	for i := uint32(1); i < h; i++ {
		s += (totalSupply - s) >> 22
	}
	sym.Assert(policy.SupplyBetween(initialSupply, 0, h) == s, "the supply after the first blocks")
}

// ---- C27 ----

const between = "terorie.dev/nimiq/policy.SupplyBetween"

// expected is the supply after a height, from the initial supply.
func expected(h uint32) uint64 { return policy.SupplyBetween(initialSupply, 0, h+1) }

func arbHeight(name string, max uint32) uint32 {
	h := sym.U32(name)
	sym.Assume(h < max)
	return h
}

// ask makes one query and checks its answer.
func ask(h uint32) {
	if sym.Choose("query", 2) == 0 {
		sym.Assert(policy.SupplyAfter(h) == expected(h), "the supply after a height")
		return
	}
	sym.Assume(h > 0)
	sym.Assert(policy.BlockReward(h) == policy.BlockRewardBySupply(expected(h-1), h), "the reward of a height")
}

// C27_Any: queries for any heights in any order.
func C27_Any() {
	sym.Chain(between, initialSupply)
	for i := 0; i < deep(3, 4); i++ {
		ask(arbHeight("height", uint32(deep(100000, 400000))))
	}
}

// C27_Again: a query gives the same answer after others.
func C27_Again() {
	sym.Chain(between, initialSupply)
	h := arbHeight("height", 60000)
	a := policy.SupplyAfter(h)
	policy.SupplyAfter(arbHeight("other", 60000))
	policy.SupplyAfter(arbHeight("other", 60000))
	sym.Assert(policy.SupplyAfter(h) == a, "the same answer again")
	sym.Assert(a == expected(h), "and the right one")
}

var edges = []uint32{0, 1, 2, 4998, 4999, 5000, 5001, 9999, 10000, 10001, 14999, 15000}

// C27_Edges runs the real arithmetic around the limits of the cache.
func C27_Edges() {
	n := deep(9, 12)
	hs := []uint32{edges[sym.Choose("height", n)], edges[sym.Choose("height", n)]}
	if sym.Thorough() {
		hs = append(hs, edges[sym.Choose("height", 8)])
	}
	for _, h := range hs {
		s := uint64(initialSupply)
		for i := uint32(1); i <= h; i++ {
			s += (totalSupply - s) >> 22
		}
		sym.Assert(policy.SupplyAfter(h) == s, "rewards added up from the initial supply")
		if h > 0 {
			sym.Assert(policy.BlockReward(h) == (totalSupply-expected(h-1))>>22, "and the reward that follows")
		}
	}
}

// C27_Two: concurrent queries.
func C27_Two() {
	sym.Chain(between, initialSupply)
	h1, h2 := arbHeight("h1", 30000), arbHeight("h2", 30000)
	var a, b uint64
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); a = policy.SupplyAfter(h1) }()
	go func() { defer wg.Done(); b = policy.SupplyAfter(h2) }()
	wg.Wait()
	sym.Assert(a == expected(h1), "the first answer")
	sym.Assert(b == expected(h2), "the second answer")
	sym.Assert(policy.SupplyAfter(h1) == a, "and later ones")
}

// C27_Three: concurrent rewards and supplies after an earlier query.
func C27_Three() {
	sym.Chain(between, initialSupply)
	policy.SupplyAfter(arbHeight("before", 20000))
	hs := [3]uint32{arbHeight("h", 30000), 4999, 10000}
	if sym.Thorough() {
		hs[1] = arbHeight("h", 20000)
	}
	var r [3]uint64
	var wg sync.WaitGroup
	wg.Add(3)
	for i := range hs {
		i := i
		go func() {
			defer wg.Done()
			if i == 1 {
				r[i] = policy.BlockReward(hs[i] + 1)
			} else {
				r[i] = policy.SupplyAfter(hs[i])
			}
		}()
	}
	wg.Wait()
	sym.Assert(r[0] == expected(hs[0]), "the first answer")
	sym.Assert(r[1] == policy.BlockRewardBySupply(expected(hs[1]), hs[1]+1), "the second answer")
	sym.Assert(r[2] == expected(hs[2]), "the third answer")
}
