package ref

import (
	"math/big"
	"sort"
)

// Sample is a block's time (in nanoseconds since the epoch) and difficulty.
type Sample struct {
	Time       *big.Int
	Difficulty uint64
}

// NextDifficulty is the difficulty the block after these has to reach; the
// blocks come latest first. From the consensus rules: a window of 60 blocks,
// medians of 11 block times, one minute per block; the time the window took
// counts for a quarter against three quarters of what it should have taken,
// within half and twice that.
func NextDifficulty(b []Sample) uint64 {
	if len(b) == 0 {
		return 0
	}
	if len(b) < 60+11 {
		return 1
	}
	median := func(l []Sample) *big.Int {
		t := []*big.Int{}
		for _, x := range l {
			t = append(t, x.Time)
		}
		sort.Slice(t, func(i, j int) bool { return t[i].Cmp(t[j]) < 0 })
		return t[5]
	}
	sum := new(big.Int)
	for _, x := range b[:60] {
		sum.Add(sum, new(big.Int).SetUint64(x.Difficulty))
	}
	avg := sum.Div(sum, big.NewInt(60))
	span := new(big.Int).Sub(median(b[:11]), median(b[60:71]))
	span.Quo(span, big.NewInt(1e9))
	t := span.Add(span, big.NewInt(3*3600))
	t.Quo(t, big.NewInt(4))
	if t.Cmp(big.NewInt(1800)) < 0 {
		t = big.NewInt(1800)
	}
	if t.Cmp(big.NewInt(7200)) > 0 {
		t = big.NewInt(7200)
	}
	d := avg.Mul(avg, big.NewInt(3600))
	d.Div(d, t)
	if d.Sign() == 0 {
		return 1
	}
	return d.Uint64()
}
