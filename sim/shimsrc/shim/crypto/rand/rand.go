package rand

import (
	"io"
	"math/big"

	mr "vsim/shimsrc/shim/math/rand"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return mr.Read(b) }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return mr.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	return new(big.Int).Mod(new(big.Int).SetUint64(mr.Uint64()), max), nil
}
