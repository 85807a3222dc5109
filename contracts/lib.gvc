// Assumed behaviour of the libraries the code is built on. Everything in this
// file is trusted; gvc reports which of it each proof used, and the thorough
// checks compare the executable part of it with the real libraries.

uf readable(path Seq) Bool

// ---- text lines (bufio.Scanner over a buffer) ----
uf hasLine(s Seq) Bool
uf line(s Seq) Seq
uf afterLine(s Seq) Seq
uf nonl(s Seq) Bool
uf dropcr(s Seq) Seq
axiom afterLineShorter (s Seq) {afterLine(s)} why "a line takes at least one byte" = hasLine(s) ==> len(afterLine(s)) < len(s)
axiom noLineInEmpty () why "bufio.Scanner: no token at the end of the data" = !hasLine("")
axiom scanLine (c Seq, r Seq) {hasLine(c ++ ("\n" ++ r))} why "bufio.ScanLines, lines of at most 64 KiB"
  = nonl(c) && len(c) <= 65535 ==> hasLine(c ++ ("\n" ++ r)) && line(c ++ ("\n" ++ r)) == dropcr(c) && afterLine(c ++ ("\n" ++ r)) == r
axiom scanLast (c Seq) {hasLine(c ++ "\n")} why "the same for the last line"
  = nonl(c) && len(c) <= 65535 ==> hasLine(c ++ "\n") && line(c ++ "\n") == dropcr(c) && afterLine(c ++ "\n") == ""

// ---- strings ----
uf hasPrefix(s Seq, p Seq) Bool
uf hasSuffix(s Seq, p Seq) Bool
uf trimSuffix(s Seq, p Seq) Seq
uf replaceAll(s Seq, a Seq, b Seq) Seq
uf basename(s Seq) Seq
axiom hasPrefixDef (s Seq, p Seq) {hasPrefix(s, p)} why "strings.HasPrefix" = hasPrefix(s, p) <=> (len(p) <= len(s) && s[0:len(p)] == p)
axiom replaceNl (s Seq) {replaceAll(s, "\n", " ")} why "no newline is left; the length is kept" = nonl(replaceAll(s, "\n", " ")) && len(replaceAll(s, "\n", " ")) == len(s)
axiom replaceId (s Seq) {replaceAll(s, "\n", " "), nonl(s)} why "nothing to replace" = nonl(s) ==> replaceAll(s, "\n", " ") == s
axiom replaceCat (s Seq, t Seq) {replaceAll(s ++ t, "\n", " ")} why "replacing single characters works piecewise" = replaceAll(s ++ t, "\n", " ") == replaceAll(s, "\n", " ") ++ replaceAll(t, "\n", " ")
axiom nonlCat (s Seq, t Seq) {nonl(s ++ t)} why "newline-free pieces" = nonl(s ++ t) <=> (nonl(s) && nonl(t))
axiom nonlVerify () why "evaluated" = nonl("untrusted comment: verify with ")
axiom nonlPriv () why "evaluated" = nonl("untrusted comment: signify private key")
axiom nonlPub () why "evaluated" = nonl("untrusted comment: signify public key")

// ---- base64 ----
uf b64enc(x Seq) Seq
uf b64ok(s Seq) Bool
uf b64dec(s Seq) Seq
axiom b64len (x Seq) {b64enc(x)} why "base64.StdEncoding.EncodedLen" = len(b64enc(x)) == 4 * ((len(x) + 2) / 3)
axiom b64round (x Seq) {b64enc(x)} why "decoding inverts encoding" = b64ok(b64enc(x)) && b64dec(b64enc(x)) == x
axiom b64declen (s Seq) {b64dec(s)} why "DecodedLen is the maximum" = 4 * len(b64dec(s)) <= 3 * len(s)
axiom b64nonl (x Seq) {b64enc(x)} why "the alphabet has no line breaks" = nonl(b64enc(x)) && dropcr(b64enc(x)) == b64enc(x)
axiom b64empty () why "evaluated" = b64enc("") == "" && b64ok("") && b64dec("") == ""

// Text without line breaks: ok64 and dec64 are b64ok and b64dec on it (the
// decoder skips line breaks), which makes the following laws hold of all text.
uf ok64(s Seq) Bool
uf dec64(s Seq) Seq
axiom plain64 (s Seq) {b64ok(s)} why "ok64 and dec64 describe text without line breaks" = clean(s) ==> (b64ok(s) <=> ok64(s)) && b64dec(s) == dec64(s)
axiom ok64empty () why "evaluated" = ok64("") && dec64("") == ""
axiom ok64len (s Seq) {ok64(s)} why "groups of four characters, three bytes each; padding stands for one or two bytes" = ok64(s) ==> len(s) % 4 == 0
  && (if padded(s) then 3 * len(s) - 8 <= 4 * len(dec64(s)) && 4 * len(dec64(s)) < 3 * len(s) else 4 * len(dec64(s)) == 3 * len(s))
axiom ok64first (s Seq) {ok64(s)} why "padding only follows two characters" = ok64(s) && len(s) > 0 ==> s[0] != 61
axiom ok64split (a Seq, b Seq) {ok64(a ++ b)} why "groups are independent, and padding ends the text" = len(a) % 4 == 0 && ok64(a ++ b)
  ==> ok64(a) && ok64(b) && dec64(a ++ b) == dec64(a) ++ dec64(b) && (padded(a) ==> b == "")
axiom ok64join (a Seq, b Seq) {ok64(a ++ b)} why "groups are independent" = ok64(a) && ok64(b) && !padded(a) ==> ok64(a ++ b)
axiom ok64pad (a Seq, b Seq) {ok64(a ++ b)} why "only padding follows padding" = ok64(a ++ b) && padded(a) && len(b) > 0 ==> b[0] == 61

// ---- cryptography ----
uf sha512(x Seq) Seq#64
uf edver(pk Seq, m Seq, sig Seq) Bool
uf edsign(sk Seq, m Seq) Seq#64
uf edpub(seed Seq) Seq#32
uf pbkdf(pw Seq, salt Seq, rounds Int, n Int) Seq#64

extern "crypto/sha512.Sum512"(data)(r) { ensures val: r == sha512(data); }

extern "golang.org/x/crypto/ed25519.Verify"(pk, m, sig)(ok) {
  requires keylen: len(pk) == 32
  ensures val: ok <=> (len(sig) == 64 && edver(pk, m, sig))
}
extern "golang.org/x/crypto/ed25519.Sign"(sk, m)(sig) {
  requires keylen: len(sk) == 64
  ensures val: sig == edsign(sk, m)
}
extern "golang.org/x/crypto/ed25519.GenerateKey"(rand)(pub, priv, err) {
  requires osrandom: israndom(rand)
  modifies randbad
  ensures val: err == nil ==> draws(seed 32) :: priv == seed ++ edpub(seed) && pub == edpub(seed)
  ensures ok: err == nil ==> randbad == old(randbad)
  ensures bad: err != nil ==> randbad
}
extern "crypto/ed25519.GenerateKey"(rand)(pub, priv, err) {
  requires osrandom: israndom(rand)
  modifies randbad
  ensures val: err == nil ==> draws(seed 32) :: priv == seed ++ edpub(seed) && pub == edpub(seed)
  ensures ok: err == nil ==> randbad == old(randbad)
  ensures bad: err != nil ==> randbad
}
extern "golang.org/x/crypto/ed25519.NewKeyFromSeed"(seed)(priv) {
  requires seedlen: len(seed) == 32
  ensures val: priv == seed ++ edpub(seed)
}
extern "crypto/ed25519.NewKeyFromSeed"(seed)(priv) {
  requires seedlen: len(seed) == 32
  ensures val: priv == seed ++ edpub(seed)
}
extern "github.com/dchest/bcrypt_pbkdf.Key"(pw, salt, rounds, n)(key, err) {
  requires sixtyfour: n == 64
  ensures ok: err == nil <=> (rounds >= 1 && len(pw) > 0 && len(salt) > 0)
  ensures val: err == nil ==> key == pbkdf(pw, salt, rounds, n)
}
