// Contracts of the field arithmetic (integers modulo p = 2^255 - 19, in ten
// limbs of 26 and 25 bits) and of the conversion of public keys.
// fe(x) is the field element that the limbs of x stand for, febound(x, a, b)
// bounds the even limbs by a and the odd ones by b in absolute value.

func "signify/internal/edwards25519.FeCombine"(h, h0, h1, h2, h3, h4, h5, h6, h7, h8, h9)() {
  requires b0: -1220 * pow2(49) <= h0 && h0 <= 1220 * pow2(49)
  requires b1: -1500 * pow2(48) <= h1 && h1 <= 1500 * pow2(48)
  requires b2: -1220 * pow2(49) <= h2 && h2 <= 1220 * pow2(49)
  requires b3: -1500 * pow2(48) <= h3 && h3 <= 1500 * pow2(48)
  requires b4: -1220 * pow2(49) <= h4 && h4 <= 1220 * pow2(49)
  requires b5: -1500 * pow2(48) <= h5 && h5 <= 1500 * pow2(48)
  requires b6: -1220 * pow2(49) <= h6 && h6 <= 1220 * pow2(49)
  requires b7: -1500 * pow2(48) <= h7 && h7 <= 1500 * pow2(48)
  requires b8: -1220 * pow2(49) <= h8 && h8 <= 1220 * pow2(49)
  requires b9: -1500 * pow2(48) <= h9 && h9 <= 1500 * pow2(48)
  modifies fe(h)
  ensures [P11] value: fe(h) == feof(h0 + pow2(26) * h1 + pow2(51) * h2 + pow2(77) * h3 + pow2(102) * h4 + pow2(128) * h5 + pow2(153) * h6 + pow2(179) * h7 + pow2(204) * h8 + pow2(230) * h9)
  ensures [P11] size: febound(h, pow2(25), 17000000)
}
// the y coordinate that 32 bytes hold: their value without the last bit
hidden edY(k Seq) Fe = feof(le(k[0:31]) + pow2(248) * (k[31] % 128))
func "signify/internal/edwards25519.FeFromBytes"(dst, src)() {
  open edY
  modifies fe(dst)
  ensures [P11] value: fe(dst) == edY(src)
  ensures [P11] size: febound(dst, pow2(25), 17000000)
}
func "signify/internal/edwards25519.FeMul"(h, f, g)() {
  alias
  requires f: febound(f, 73819750, 36909875)
  requires g: febound(g, 73819750, 36909875)
  modifies fe(h)
  ensures [P11] value: fe(h) == old(fe(f)) * old(fe(g))
  ensures [P11] size: febound(h, pow2(25), 17000000)
}
func "signify/internal/edwards25519.FeSquare"(h, f)() {
  alias
  requires f: febound(f, 73819750, 36909875)
  modifies fe(h)
  ensures [P11] value: fe(h) == old(fe(f)) * old(fe(f))
  ensures [P11] size: febound(h, pow2(25), 17000000)
}
func "signify/internal/edwards25519.FeInvert"(out, z)() {
  alias
  requires z: febound(z, 73819750, 36909875)
  modifies fe(out)
  ensures [P11] value: fe(out) == fepow(old(fe(z)), pow2(255) - 21)
  ensures [P11] size: febound(out, pow2(25), 17000000)
}
func "signify/internal/edwards25519.fePow22523"(out, z)() {
  alias
  requires z: febound(z, 73819750, 36909875)
  modifies fe(out)
  ensures [P11] value: fe(out) == fepow(old(fe(z)), pow2(252) - 3)
  ensures [P11] size: febound(out, pow2(25), 17000000)
}

// h is reduced in place
func "signify/internal/edwards25519.FeToBytes"(s, h)() {
  requires h: febound(h, pow2(26) + 2, 34000000)
  modifies contents(s), fe(h)
  ensures [P11] value: s == le32bytes(fenat(old(fe(h))))
  ensures [P11] size: febound(h, pow2(26), pow2(25))
}
func "signify/internal/edwards25519.FeIsNonZero"(f)(r) {
  requires f: febound(f, pow2(26) + 2, 34000000)
  modifies fe(f)
  ensures [P11] value: r == (if fenat(old(fe(f))) == 0 then 0 else 1)
  ensures [P11] size: febound(f, pow2(26), pow2(25))
}

// ---- decoding of points: the curve -x^2 + y^2 = 1 + d x^2 y^2 ----
// The 32 bytes k are taken to hold y, modulo p, and in the last bit the sign
// of x. x^2 = u/v; RFC 8032, 5.1.3: if x exists, one of x = +-u v^3 (u v^7)^((p-5)/8),
// times a square root of -1 if v x^2 = -u.
def edU(k Seq) Fe = edY(k) * edY(k) - feconst(1)
def edV(k Seq) Fe = feconst(37095705934669439343138083508754565189542113879843219016388785533085940283555) * edY(k) * edY(k) + feconst(1)
def edX(k Seq) Fe = edU(k) * fepow(edV(k), 3) * fepow(edU(k) * fepow(edV(k), 7), pow2(252) - 3)
hidden edvalid(k Seq) Bool = fenat(edV(k) * edX(k) * edX(k) - edU(k)) == 0 || fenat(edV(k) * edX(k) * edX(k) + edU(k)) == 0
// (1 + y) / (1 - y), where the inverse of z is z^(p-2)
hidden edmont(k Seq) Seq#32 = le32bytes(fenat((feconst(1) + edY(k)) * fepow(feconst(1) - edY(k), pow2(255) - 21)))

func "(*signify/internal/edwards25519.ExtendedGroupElement).FromBytes"(p, s)(ok) {
  open edvalid
  modifies p.X, p.Y, p.Z, p.T
  ensures [P11] valid: ok <=> edvalid(s)
  ensures [P11] y: fe(p.Y) == edY(s)
  ensures [P11] size: febound(p.Y, pow2(25), 17000000)
}
func "(*signify.Public).ToBox"(pub)(box, err) {
  open edmont
  ensures [P11] ok: err == nil <=> edvalid(pub.key)
  ensures [P11] val: err == nil ==> box == edmont(pub.key)
}
