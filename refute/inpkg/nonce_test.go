package crypto

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"testing"
)

// Compares incrementNonce with addition on boundary and random values.
func TestVerifNonce(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	try := func(n [24]byte) bool {
		was := n
		err := incrementNonce(&n)
		v := new(big.Int).SetBytes(was[:])
		v.Add(v, big.NewInt(1))
		bad := ""
		if v.BitLen() > 192 {
			if err == nil {
				bad = fmt.Sprintf("the nonce became %x, no error", n)
			}
		} else if err != nil {
			bad = "error: " + err.Error()
		} else if new(big.Int).SetBytes(n[:]).Cmp(v) != 0 {
			bad = fmt.Sprintf("the nonce became %x", n)
		}
		if bad != "" {
			fmt.Fprintf(os.Stdout, "COUNTEREXAMPLE property=P15\ninput: incrementNonce of %x\nobserved: %s\n", was, bad)
		}
		return bad == ""
	}
	trials := 0
	for i := 0; i < 20000; i++ {
		var n [24]byte
		k := rnd.Intn(25) // the last k bytes are 255, or all but a few of them
		for j := range n {
			n[j] = byte(rnd.Intn(256))
			if rnd.Intn(3) == 0 {
				n[j] = 0
			}
			if 24-j <= k {
				n[j] = 255
			}
		}
		if i%5 == 0 && k > 0 {
			n[24-1-rnd.Intn(k)] = byte(rnd.Intn(256))
		}
		trials++
		if !try(n) {
			t.Fail()
			break
		}
	}
	fmt.Println("TRIALS", trials)
}
