package props

import (
	"encoding/binary"
	"fmt"
	"math/bits"

	"verifmc/engine"
)

// Murmur3 x64-128 is a bijection on 16-byte inputs for a fixed seed. Inverting it gives an item for
// every wanted hash, so that state spaces defined in terms of hash values can be enumerated exactly.

const (
	mmC1 = 0x87c37b91114253d5
	mmC2 = 0x4cf5ad432745937f
)

func inv64(a uint64) uint64 { // inverse of an odd number modulo 2^64
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

var (
	mmI1   = inv64(mmC1)
	mmI2   = inv64(mmC2)
	mmI5   = inv64(5)
	mmIf1  = inv64(0xff51afd7ed558ccd)
	mmIf2  = inv64(0xc4ceb9fe1a85ec53)
	mmSeen = map[[3]uint64][]byte{}
)

func unfmix(k uint64) uint64 {
	k ^= k >> 33
	k *= mmIf2
	k ^= k >> 33
	k *= mmIf1
	k ^= k >> 33
	return k
}

// itemFor returns the 16-byte item whose hash under seed is (w1, w2).
func itemFor(w1, w2, seed uint64) []byte {
	key := [3]uint64{w1, w2, seed}
	alone := engine.Thread() == 0
	if alone {
		if b, ok := mmSeen[key]; ok {
			return b
		}
	}
	h1, h2 := w1, w2
	h2 -= h1
	h1 -= h2
	h1, h2 = unfmix(h1), unfmix(h2)
	h2 -= h1
	h1 -= h2
	h1 ^= 16
	h2 ^= 16
	// the block, backwards
	h2 = (h2 - 0x38495ab5) * mmI5
	h2 -= h1
	h2 = bits.RotateLeft64(h2, -31)
	k2 := h2 ^ seed
	h1 = (h1 - 0x52dce729) * mmI5
	h1 -= seed // h2 had its seed value when it was added
	h1 = bits.RotateLeft64(h1, -27)
	k1 := h1 ^ seed
	k2 = bits.RotateLeft64(k2*mmI1, -33) * mmI2
	k1 = bits.RotateLeft64(k1*mmI2, -31) * mmI1
	b := make([]byte, 16)
	binary.LittleEndian.PutUint64(b, k1)
	binary.LittleEndian.PutUint64(b[8:], k2)
	if g1, g2 := hash128(b, seed); g1 != w1 || g2 != w2 {
		panic(fmt.Sprintf("engine: murmur inversion is wrong: %x %x %x %x", g1, w1, g2, w2))
	}
	if alone && len(mmSeen) < 1<<16 {
		mmSeen[key] = b
	}
	return b
}
