// Package conv turns reference objects into gringo's and back, through fields,
// not through gringo's codec.
package conv

import (
	"bytes"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/yoss22/bulletproofs"

	"verif/harness/ref"
)

func clone(b []byte) []byte { return append([]byte{}, b...) }

// Header converts a header.
func Header(h ref.Header) consensus.BlockHeader {
	return consensus.BlockHeader{
		Version: h.Version, Height: h.Height, Previous: clone(h.Prev[:]), PreviousRoot: clone(h.PrevRoot[:]),
		Timestamp: time.Unix(h.Time, 0).UTC(), UTXORoot: clone(h.UTXORoot[:]), RangeProofRoot: clone(h.ProofRoot[:]),
		KernelRoot: clone(h.KernelRoot[:]), Nonce: h.Nonce, TotalKernelOffset: clone(h.Offset[:]),
		OutputMmrSize: h.OutMMR, KernelMmrSize: h.KerMMR,
		POW:             consensus.Proof{EdgeBits: h.EdgeBits, Nonces: append([]uint32{}, h.Edges...)},
		TotalDifficulty: consensus.Difficulty(h.TD), ScalingDifficulty: h.Scaling,
	}
}

// BackHeader converts back.
func BackHeader(b *consensus.BlockHeader) (h ref.Header) {
	h = ref.Header{Version: b.Version, Height: b.Height, Time: b.Timestamp.Unix(), OutMMR: b.OutputMmrSize,
		KerMMR: b.KernelMmrSize, TD: uint64(b.TotalDifficulty), Scaling: b.ScalingDifficulty, Nonce: b.Nonce,
		EdgeBits: b.POW.EdgeBits, Edges: b.POW.Nonces}
	for _, x := range []struct {
		to   *[32]byte
		from []byte
	}{{&h.Prev, b.Previous}, {&h.PrevRoot, b.PreviousRoot}, {&h.UTXORoot, b.UTXORoot}, {&h.ProofRoot, b.RangeProofRoot},
		{&h.KernelRoot, b.KernelRoot}, {&h.Offset, b.TotalKernelOffset}} {
		copy(x.to[:], x.from)
	}
	return
}

// Point converts a point.
func Point(p ref.Point) *bulletproofs.Point {
	x := new(bulletproofs.Point)
	if err := x.Read(bytes.NewReader(p[:])); err != nil {
		panic(err)
	}
	return x
}

// BackPoint converts back.
func BackPoint(p *bulletproofs.Point) (x ref.Point) {
	copy(x[:], p.Bytes())
	return
}

func Input(i ref.Input) consensus.Input {
	return consensus.Input{Features: consensus.OutputFeatures(i.Features), Commit: clone(i.Commit[:])}
}

func Output(o ref.Output) consensus.Output {
	x := consensus.Output{Features: consensus.OutputFeatures(o.Features), Commit: Point(o.Commit)}
	if err := x.RangeProof.Read(bytes.NewReader(o.Proof)); err != nil {
		panic(err)
	}
	return x
}

func Kernel(k ref.Kernel) consensus.TxKernel {
	return consensus.TxKernel{Features: consensus.KernelFeatures(k.Features), Fee: k.Fee, LockHeight: k.LockHeight,
		Excess: *Point(k.Excess), ExcessSig: k.Sig}
}

func Inputs(l []ref.Input) (out consensus.InputList) {
	for _, x := range l {
		out = append(out, Input(x))
	}
	return
}

func Outputs(l []ref.Output) (out consensus.OutputList) {
	for _, x := range l {
		out = append(out, Output(x))
	}
	return
}

func Kernels(l []ref.Kernel) (out consensus.TxKernelList) {
	for _, x := range l {
		out = append(out, Kernel(x))
	}
	return
}

// Block, Tx and Compact convert whole messages, lists in the order given.
func Block(b ref.Block) *consensus.Block {
	return &consensus.Block{Header: Header(b.Header), Inputs: Inputs(b.Inputs), Outputs: Outputs(b.Outputs), Kernels: Kernels(b.Kernels)}
}

func Tx(t ref.Tx) *consensus.Transaction {
	return &consensus.Transaction{KernelOffset: t.Offset, Inputs: Inputs(t.Inputs), Outputs: Outputs(t.Outputs), Kernels: Kernels(t.Kernels)}
}

func Compact(c ref.Compact) *consensus.CompactBlock {
	x := &consensus.CompactBlock{Header: Header(c.Header), Outputs: Outputs(c.Outputs), Kernels: Kernels(c.Kernels)}
	for _, id := range c.IDs {
		x.KernelIDs = append(x.KernelIDs, clone(id[:]))
	}
	return x
}

// BackBody converts the lists back, in their order.
func BackBody(in consensus.InputList, out consensus.OutputList, ker consensus.TxKernelList) (b ref.Body) {
	for _, x := range in {
		i := ref.Input{Features: uint8(x.Features)}
		copy(i.Commit[:], x.Commit)
		b.Inputs = append(b.Inputs, i)
	}
	for _, x := range out {
		b.Outputs = append(b.Outputs, ref.Output{Features: uint8(x.Features), Commit: BackPoint(x.Commit), Proof: x.RangeProof.Bytes()})
	}
	for _, x := range ker {
		b.Kernels = append(b.Kernels, ref.Kernel{Features: uint8(x.Features), Fee: x.Fee, LockHeight: x.LockHeight,
			Excess: BackPoint(&x.Excess), Sig: x.ExcessSig})
	}
	return
}
