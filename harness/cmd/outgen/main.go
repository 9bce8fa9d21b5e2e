// Command outgen makes data/outputs.json: outputs with valid range proofs. It
// was run once; the checks only read its output.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sync"

	"github.com/yoss22/bulletproofs"
)

type entry struct {
	Value  string
	Blind  string
	Commit string
	Proof  string
	// OffCurve is set for a proof made for a commitment that is no curve point.
	OffCurve bool
}

func main() {
	pr := bulletproofs.NewProver(64)
	n := 48
	list := make([]entry, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			h := sha256.Sum256([]byte{byte(i), 1})
			blind := new(big.Int).SetBytes(h[:])
			value := new(big.Int).SetUint64(uint64(i) * 60e9 / 7)
			if i == 1 {
				value.SetUint64(1<<64 - 1)
			}
			commit := bulletproofs.SumPoints(bulletproofs.ScalarMulPoint(pr.BlindingGenerator, blind), bulletproofs.ScalarMulPoint(pr.ValueGenerator, value))
			p, err := pr.CreateRangeProof(commit, value, blind, sha256.Sum256(h[:]), [16]byte{})
			if err != nil || !pr.Verify(commit, p) {
				panic(fmt.Sprint(i, err))
			}
			list[i] = entry{Value: value.String(), Blind: blind.Text(16), Commit: hex.EncodeToString(commit.Bytes()), Proof: hex.EncodeToString(p.Bytes())}
		}()
	}
	wg.Wait()
	// x = 0 is on no curve point; the point decoded for it has order 3
	var raw [33]byte
	raw[0] = 8
	forged := new(bulletproofs.Point)
	if err := forged.Read(reader(raw[:])); err != nil {
		panic(err)
	}
	for i := 0; ; i++ {
		p, err := pr.CreateRangeProof(forged, big.NewInt(0), big.NewInt(0), sha256.Sum256([]byte{byte(i)}), [16]byte{})
		if err == nil && pr.Verify(forged, p) {
			list = append(list, entry{Commit: hex.EncodeToString(raw[:]), Proof: hex.EncodeToString(p.Bytes()), OffCurve: true})
			break
		}
		fmt.Println("forge", i, err)
		if i > 40 {
			break
		}
	}
	b, _ := json.MarshalIndent(list, "", " ")
	os.WriteFile(os.Args[1], b, 0644)
}

type rd struct{ b []byte }

func reader(b []byte) *rd { return &rd{b} }
func (r *rd) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}
