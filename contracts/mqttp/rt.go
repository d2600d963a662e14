package mqttp

import (
	"bytes"
	"math/rand"
	"regexp"
)

// Specification primitives. The verifier interprets calls of these functions;
// the bodies below give them the same meaning when a harness is run natively
// (replay of counterexamples, concrete search).

type vSkip struct{}

type vFailure struct{ tag string }

func vAssume(c bool) {
	if !c {
		panic(vSkip{})
	}
}

func vAssert(tag string, c bool) {
	if !c {
		panic(vFailure{tag})
	}
}

func vReach(tag string) {}

func vBytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

func vStrEq(a, b string) bool { return a == b }

func vRegex(pat string, b []byte) bool { return regexp.MustCompile(pat).Match(b) }

// vUse makes the verifier replace calls of the named function by its contract.
func vUse(name string) {}

func vSymbolic() bool { return false }

// vCut makes the verifier treat loops inductively after n peeled iterations;
// with a tag it also proves that they end.
func vCut(n int, tag string) {}

// vShared declares memory other threads use at the same time: only atomic
// operations may touch it.
func vShared(tag string, p interface{}) {}

// vRely gives the step of the environment, which may happen before every atomic
// operation; vGuarantee is called after every atomic write of the code.
func vRely(step func()) {}

func vGuarantee(check func(p *uint64, old, new uint64)) {}

// vMapSpec makes decoded maps carry what spec_MapOK and spec_MapLen say.
func vMapSpec(t int) {}

// vGhostKey names an arbitrary key: loops over maps keep track of what happens to it.
func vGhostKey(k interface{}) {}

// vForkInt splits the proof over the values lo..hi.
func vForkInt(x, lo, hi int) int { return x }

// vFresh* are arbitrary values; natively they are drawn at random.
var vRng *rand.Rand

func vInitRng() {
	if vRng == nil {
		vRng = rand.New(rand.NewSource(1))
	}
}

func vDraw() uint64 {
	vInitRng()
	switch vRng.Intn(3) {
	case 0:
		return uint64(vRng.Intn(8))
	case 1:
		return uint64(vRng.Intn(512))
	}
	return vRng.Uint64()
}

func vFreshInt() int    { return int(vDraw()) }
func vFreshU64() uint64 { return vDraw() }
func vFreshU32() uint32 { return uint32(vDraw()) }
func vFreshU16() uint16 { return uint16(vDraw()) }
func vFreshByte() byte  { return byte(vDraw()) }
func vFreshBool() bool  { return vDraw()%2 == 1 }
func vFreshBytes() []byte {
	vInitRng()
	b := make([]byte, vRng.Intn(12))
	for i := range b {
		if vRng.Intn(2) == 0 {
			b[i] = byte(vRng.Intn(256))
		} else {
			b[i] = "ab/+#$"[vRng.Intn(6)]
		}
	}
	return b
}
func vFreshString() string { return string(vFreshBytes()) }

// vBoundedNote labels a harness as bounded in the evidence.
func vBoundedNote(string) {}
