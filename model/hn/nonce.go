// Package hn holds the harnesses for the nonce generator.
package hn

import (
	"strconv"

	"github.com/hyperonym/ratus/internal/nonce"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

func in(c byte, lo, hi byte) bool { return rt.And(lo <= c, c <= hi) }

// open leaves the random source open for a nonce of length n: as many draws as it takes when
// nothing is rejected, and more. All but the last are free of values that would be rejected.
func open(n int) {
	d := rt.ZeroDraws(func() { nonce.Generate(n) })
	rt.SymRand(d + rt.Arg("more", 0))
	rt.SymRandMild(d - 1)
}

// NonceShape: whatever the random source yields, the nonce has the length and alphabet.
func NonceShape() {
	n := rt.Arg("n", 16)
	open(n)
	s := nonce.Generate(n)
	rt.Reach("generated")
	rt.Assert(len(s) == n, "C22: the nonce has the requested length")
	if len(s) != n {
		return
	}
	for i := 0; i < n; i++ {
		c := s[i]
		rt.Assert(rt.Or(in(c, 'A', 'Z'), rt.Or(in(c, 'a', 'z'), in(c, '0', '9'))), "C22: the nonce consists of ASCII letters and digits")
	}
	rt.Obs("nonce", s)
}

// NonceSpread: every character can occur at every position, and positions do not determine each other.
func NonceSpread() {
	n := rt.Arg("n", 16)
	rt.Sweep(func(sweeping bool) {
		if !sweeping {
			open(n)
		}
		s := nonce.Generate(n)
		if len(s) != n {
			return
		}
		rt.Reach("generated")
		for i := 0; i < n; i++ {
			for k := 0; k < len(alphabet); k++ {
				rt.Possible(s[i] == alphabet[k], "C22: "+alphabet[k:k+1]+" can occur at position "+strconv.Itoa(i))
			}
		}
		ends := "A9fM"
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				for x := 0; x < len(ends); x++ {
					for y := 0; y < len(ends); y++ {
						rt.Possible(rt.And(s[i] == ends[x], s[j] == ends[y]),
							"C22: "+ends[x:x+1]+" at position "+strconv.Itoa(i)+" can occur together with "+ends[y:y+1]+" at position "+strconv.Itoa(j))
					}
				}
			}
		}
	})
}
