package gen

import (
	"encoding/binary"
	"math/big"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// AlikeInput and AlikeKernel are the items that cmd/collide searches.
func AlikeInput(n uint64) (i ref.Input) {
	binary.BigEndian.PutUint64(i.Commit[25:], n)
	return
}

func AlikeKernel(n uint64) (k ref.Kernel) {
	k.Excess = ref.G.Compress()
	k.LockHeight = n
	return
}

// Pairs of items whose hashes start with the same bytes: 8 of inputs and
// kernels, 5 of outputs (which are multiples of G).
var (
	alikeInputs  = [][2]uint64{{10327002536907456298, 1226516966708504285}, {13297444262517794523, 11239951089499040088}}
	alikeKernels = [][2]uint64{{935765445650226414, 18096444082446554917}, {8444296194837421346, 5534343141325189794}}
	alikeOutputs = [][2]int64{{646891, 1082556}, {149490, 1140940}, {3161292, 3443473}, {2364330, 3767334}}
)

// Alike adds pairs of items whose hashes start with the same bytes.
func Alike(t *rapid.T, b *ref.Body) {
	i := alikeInputs[rapid.IntRange(0, len(alikeInputs)-1).Draw(t, "inputPair")]
	b.Inputs = append(b.Inputs, AlikeInput(i[0]), AlikeInput(i[1]))
	k := alikeKernels[rapid.IntRange(0, len(alikeKernels)-1).Draw(t, "kernelPair")]
	b.Kernels = append(b.Kernels, AlikeKernel(k[0]), AlikeKernel(k[1]))
	o := alikeOutputs[rapid.IntRange(0, len(alikeOutputs)-1).Draw(t, "outputPair")]
	proof := RangeProof(t)
	for _, n := range o {
		b.Outputs = append(b.Outputs, ref.Output{Commit: ref.G.Mul(big.NewInt(n)).Compress(), Proof: proof})
	}
}
