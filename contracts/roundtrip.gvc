// Encrypting and decrypting: what Open makes of what Seal writes. These
// lemmas put together the clauses of crypto.Seal and crypto.Open that carry
// the label P13; nothing here is about code.

// ---- text ----
axiom b64split (x Seq, k Int) {b64enc(x[0:k])} inner why "whole groups of three bytes are encoded on their own" = 0 <= k && k <= len(x) && k % 3 == 0 ==> b64enc(x) == b64enc(x[0:k]) ++ b64enc(x[k:])
axiom b64clean (x Seq) {b64enc(x)} inner why "the alphabet has no line breaks" = clean(b64enc(x))
lemma stripCat (a Seq, b Seq) {strip(a ++ b)} inner induction a = strip(a ++ b) == strip(a) ++ strip(b)
lemma stripLast (s Seq) {strip(s)} inner induction s hint strip(s[0:len(s)-1]) = len(s) > 0 ==> strip(s) == strip(s[0:len(s)-1]) ++ (if isNl(s[len(s)-1]) then "" else [s[len(s)-1]])
lemma cleanStrip (s Seq) {clean(s), strip(s)} inner induction s hint strip(s[0:len(s)-1]) hint clean(s[0:len(s)-1]) = clean(s) ==> strip(s) == s
lemma stripNl () inner using nothing hint strip("\n") hint strip("") = strip("\n") == "" && strip("") == ""
lemma stripLines (x Seq) {strip(lines(x))} inner using stripNl induction x apply b64split(x, len(x)-3) apply b64clean(x[len(x)-3:]) apply cleanStrip(b64enc(x[len(x)-3:]))
  apply stripCat(lines(x[0:len(x)-3]), b64enc(x[len(x)-3:]) ++ (if len(x) % 54 == 0 then "\n" else "")) apply stripCat(b64enc(x[len(x)-3:]), if len(x) % 54 == 0 then "\n" else "")
  = len(x) % 3 == 0 ==> strip(lines(x)) == b64enc(x)
lemma stripEncoded (x Seq) {strip(encoded(x))} inner using stripNl apply b64split(x, len(x) - len(x) % 3) apply stripLines(x[0:len(x) - len(x) % 3]) apply b64clean(x[len(x) - len(x) % 3:])
  apply cleanStrip(b64enc(x[len(x) - len(x) % 3:])) apply stripCat(lines(x[0:len(x) - len(x) % 3]), b64enc(x[len(x) - len(x) % 3:]) ++ "\n") apply stripCat(b64enc(x[len(x) - len(x) % 3:]), "\n")
  = strip(encoded(x)) == b64enc(x)
lemma encOk (x Seq) {b64enc(x)} inner using b64clean hint b64ok(b64enc(x)) = ok64(b64enc(x)) && dec64(b64enc(x)) == x
lemma encodedOk (x Seq) {strip(encoded(x))} inner using stripEncoded using encOk hint b64enc(x) hint dpre(b64enc(x)) = ok64(strip(encoded(x))) && dpre(strip(encoded(x))) == x

rec noNl(s Seq) Bool = len(s) == 0 || s[0] != 10 && noNl(s[1:])
lemma afterNoNl (a Seq, s Seq) {noNl(a), afterNl(s)} inner induction a open afterNl open hasNl hint afterNl(s[1:]) hint hasNl(s[1:])
  = noNl(a) && len(a) < len(s) && s[0:len(a)] == a && s[len(a)] == 10 ==> hasNl(s) && afterNl(s) == s[len(a)+1:]
lemma encComment (r Seq) {afterNl("untrusted comment: psignify encrypted file\n" ++ r)} inner using nothing
  apply afterNoNl("untrusted comment: psignify encrypted file", "untrusted comment: psignify encrypted file\n" ++ r)
  = hasNl("untrusted comment: psignify encrypted file\n" ++ r) && afterNl("untrusted comment: psignify encrypted file\n" ++ r) == r

// ---- chunks ----
lemma sealedSize (m Seq, key Seq) {sealed(m, key)} inner induction m open sealed = len(sealed(m, key)) == len(m) + 16 * nchunks(len(m))
lemma sealedOpens (m Seq, key Seq) {sealed(m, key)} inner induction m open sealed open opened open allok
  = allok(sealed(m, key), key) && opened(sealed(m, key), key) == m

// ---- the file ----
lemma encBody (b Seq) {encBytes("untrusted comment: psignify encrypted file\n" ++ encoded(b))} inner using nothing
  apply encComment(encoded(b)) apply encodedOk(b)
  = let f = "untrusted comment: psignify encrypted file\n" ++ encoded(b) in hasNl(f) && ok64(strip(afterNl(f))) && encBytes(f) == b
lemma headerParts (m Seq, eph Seq#32, key Seq#32) {header(m, eph, key)} inner using nothing
  = len(m) < pow2(63) ==> let h = header(m, eph, key) in len(h) == 72 && be(h[0:8]) == nchunks(len(m)) && h[8:40] == x25519base(eph) && h[40:72] == hmac(h[0:40], key)
lemma goodSealed (m Seq, eph Seq#32, key Seq#32) {header(m, eph, key)} inner using nothing
  apply headerParts(m, eph, key) apply sealedSize(m, key) apply sealedOpens(m, key)
  = len(m) < pow2(63) ==> let d = header(m, eph, key) ++ sealed(m, key) in d[8:40] == x25519base(eph) && goodMsg(d, key) && opened(d[72:extent(d)], key) == m
lemma sameKey (seed Seq#32, eph Seq#32) {edmont(edpub(seed)), boxkey(x25519base(eph), clamp(sha512(seed)))} inner using nothing
  apply edX25519(seed) apply dhAgree(clamp(sha512(seed)), eph)
  = edvalid(edpub(seed)) && boxkey(x25519base(eph), clamp(sha512(seed))) == boxkey(edmont(edpub(seed)), eph)
// the public half of the key pair in a secret key file
def unlocked(d Seq, pw Seq) Seq = if sumOK(skKey(d), skSum(d)) then skKey(d) else unmask(skKey(d), skRounds(d), skSalt(d), pw)
def pairPub(priv Seq, pw Seq) Seq = edpub(unlocked(fileData(priv), pw)[0:32])
// What Seal writes for the public key of a pair (clause file of crypto.Seal)
// satisfies, for the secret key of the pair, all that Open asks of a file
// (clause complete of crypto.Open), and what Open then writes (clause plain)
// is the message. x is what the file decodes to.
lemma roundtrip [P13] (priv Seq, pw Seq, m Seq, eph Seq#32) inner using nothing
  apply sameKey(unlocked(fileData(priv), pw)[0:32], eph) apply goodSealed(m, eph, boxkey(edmont(pairPub(priv, pw)), eph))
  apply encBody(header(m, eph, boxkey(edmont(pairPub(priv, pw)), eph)) ++ sealed(m, boxkey(edmont(pairPub(priv, pw)), eph)))
  = len(m) < pow2(63) && goodFile(priv, 104) ==> edvalid(pairPub(priv, pw))
    && (let key = boxkey(edmont(pairPub(priv, pw)), eph) in let f = encFile(m, eph, key) in let x = header(m, eph, key) ++ sealed(m, key) in
        hasNl(f) && ok64(strip(afterNl(f))) && encBytes(f) == x && goodMsg(x, msgKey(x, priv, pw)) && opened(x[72:extent(x)], msgKey(x, priv, pw)) == m)
