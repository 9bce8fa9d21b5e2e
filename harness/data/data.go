// Package data holds inputs that are too expensive to make on every run.
package data

import (
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"strings"

	"verif/harness/ref"
)

//go:embed block65927.hex
var blockHex string

//go:embed tx.hex
var txHex string

//go:embed mined.json
var minedJSON []byte

//go:embed outputs.json
var outputsJSON []byte

func unhex(s string) []byte {
	b, err := hex.DecodeString(strings.TrimSpace(s))
	if err != nil {
		panic(err)
	}
	return b
}

// Testnet4Block is block 65,927 of testnet 4.
func Testnet4Block() ref.Block {
	b, rest, err := ref.ParseBlock(unhex(blockHex))
	if err != nil || len(rest) != 0 {
		panic("block")
	}
	return b
}

// TxBytes is a real transaction.
func TxBytes() []byte { return unhex(txHex) }

// Mined is a header with a real proof of work.
type Mined struct {
	Name   string
	Header ref.Header
	Parent *ref.Header
}

// MinedHeaders returns all of them that can be read.
func MinedHeaders() (out []Mined) {
	for _, m := range all() {
		if m.Name != "wrapTime" {
			out = append(out, m)
		}
	}
	return
}

// Unreadable is a header with a good proof of work, and with a time that is out
// of the range of times.
func Unreadable() Mined {
	for _, m := range all() {
		if m.Name == "wrapTime" {
			return m
		}
	}
	panic("no header")
}

func all() (out []Mined) {
	var l []struct{ Name, Header, Parent string }
	if err := json.Unmarshal(minedJSON, &l); err != nil {
		panic(err)
	}
	for _, e := range l {
		h, err := ref.ParseHeader(&ref.Reader{B: unhex(e.Header)})
		if err != nil {
			panic(err)
		}
		m := Mined{Name: e.Name, Header: h}
		if e.Parent != "" {
			p, err := ref.ParseHeader(&ref.Reader{B: unhex(e.Parent)})
			if err != nil {
				panic(err)
			}
			m.Parent = &p
		}
		out = append(out, m)
	}
	return
}

// Find returns a mined header by name.
func Find(name string) (Mined, bool) {
	for _, m := range MinedHeaders() {
		if m.Name == name {
			return m, true
		}
	}
	return Mined{}, false
}

// Output is an output with a valid range proof (except OffCurve) and its
// opening.
type Output struct {
	ref.Output
	Value, Blind *big.Int
	OffCurve     bool
}

// Outputs returns all of them.
func Outputs() (out []Output) {
	var l []struct {
		Value, Blind, Commit, Proof string
		OffCurve                    bool
	}
	if err := json.Unmarshal(outputsJSON, &l); err != nil {
		panic(err)
	}
	for _, e := range l {
		o := Output{OffCurve: e.OffCurve}
		copy(o.Commit[:], unhex(e.Commit))
		o.Proof = unhex(e.Proof)
		o.Value, _ = new(big.Int).SetString(e.Value, 10)
		o.Blind, _ = new(big.Int).SetString(e.Blind, 16)
		out = append(out, o)
	}
	return
}
