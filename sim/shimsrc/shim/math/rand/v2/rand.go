package rand

import (
	"math/rand/v2"

	"vsim/shimsrc/rt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

type src struct{}

func (src) Uint64() uint64 {
	if rt.P == nil {
		return 4
	}
	return rt.P.Rand64()
}

var g = rand.New(src{})

func New(s Source) *Rand              { return rand.New(src{}) }
func NewPCG(a, b uint64) *PCG         { return rand.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8  { return rand.NewChaCha8(s) }
func Int64() int64                    { return g.Int64() }
func Uint32() uint32                  { return g.Uint32() }
func Uint64() uint64                  { return g.Uint64() }
func Int32() int32                    { return g.Int32() }
func Int() int                        { return g.Int() }
func Int64N(n int64) int64            { return g.Int64N(n) }
func Uint64N(n uint64) uint64         { return g.Uint64N(n) }
func Int32N(n int32) int32            { return g.Int32N(n) }
func Uint32N(n uint32) uint32         { return g.Uint32N(n) }
func IntN(n int) int                  { return g.IntN(n) }
func Float64() float64                { return g.Float64() }
func Float32() float32                { return g.Float32() }
func Perm(n int) []int                { return g.Perm(n) }
func Shuffle(n int, f func(i, j int)) { g.Shuffle(n, f) }
func NormFloat64() float64            { return g.NormFloat64() }
func ExpFloat64() float64             { return g.ExpFloat64() }
func N[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	return T(g.Uint64N(uint64(n)))
}
