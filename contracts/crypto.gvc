// Contracts of package crypto.

// ---- primitives of nacl/box and nacl/auth (assumed) ----
uf x25519base(k Seq) Seq#32
uf boxkey(peer Seq, priv Seq) Seq#32
uf sbseal(m Seq, nonce Seq, key Seq) Seq
uf sbok(c Seq, nonce Seq, key Seq) Bool
uf sbopen(c Seq, nonce Seq, key Seq) Seq
uf hmac(m Seq, key Seq) Seq#32

extern "golang.org/x/crypto/nacl/box.GenerateKey"(rand)(pub, priv, err) {
  requires osrandom: israndom(rand)
  modifies randbad
  ensures val: err == nil ==> draws(eph 32) :: priv == eph && pub == x25519base(eph)
  ensures ok: err == nil ==> randbad == old(randbad)
  ensures bad: err != nil ==> randbad
}
extern "golang.org/x/crypto/nacl/box.Precompute"(shared, peer, priv)() {
  modifies contents(shared)
  ensures val: shared == boxkey(old(peer), old(priv))
}
extern "golang.org/x/crypto/nacl/box.SealAfterPrecomputation"(out, m, nonce, key)(ret) {
  requires newbuffer: null(out)
  ensures val: ret == sbseal(m, nonce, key)
}
extern "golang.org/x/crypto/nacl/box.OpenAfterPrecomputation"(out, c, nonce, key)(m, ok) {
  requires newbuffer: null(out)
  ensures ok: ok <=> sbok(c, nonce, key)
  ensures val: ok ==> m == sbopen(c, nonce, key)
}
extern "golang.org/x/crypto/nacl/auth.Sum"(m, key)(r) { ensures val: r == hmac(m, key); }
extern "golang.org/x/crypto/nacl/auth.Verify"(digest, m, key)(ok) { ensures val: ok <=> digest == hmac(m, key); }
axiom sealLen (m Seq, n Seq, k Seq) {sbseal(m, n, k)} why "16 bytes of overhead" = len(sbseal(m, n, k)) == len(m) + 16

// ---- nonces ----
// the 24-byte big-endian number n, and the number 24 bytes stand for
hidden num24(n Int) Seq#24 = be24(n)
hidden val24(s Seq) Int = be(s)
lemma valNum (n Int) {num24(n)} open num24 open val24 = 0 <= n && n < pow2(192) ==> val24(num24(n)) == n
lemma numVal (s Seq#24) {val24(s)} open num24 open val24 = num24(val24(s)) == s && 0 <= val24(s) && val24(s) < pow2(192)
lemma numZero () open num24 = num24(0) == rep(0, 24)
func "crypto.incrementNonce"(nonce)(err) {
  open val24
  modifies contents(nonce)
  ensures [P15] next: err == nil ==> val24(nonce) == val24(old(nonce)) + 1
  ensures [P15] last: err != nil <=> val24(old(nonce)) == pow2(192) - 1
}

// ---- Seal ----
def nchunks(n Int) Int = (n + 16384) / 16385
// the chunks of a message, in order, each under its own number as the nonce
hidden rec sealed(m Seq, key Seq) Seq = if len(m) == 0 then "" else
  let q = 16385 * ((len(m) - 1) / 16385) in sealed(m[0:q], key) ++ sbseal(m[q:], num24(q / 16385), key)

lemma sealedNone (key Seq) {sealed("", key)} open sealed = sealed("", key) == ""
lemma sealedNext (m Seq, key Seq, a Int, b Int, i Int) {sealed(m[0:a], key), sealed(m[0:b], key), num24(i)} open sealed
  = 0 <= i && a == 16385 * i && a < b && b <= a + 16385 && b <= len(m) ==> sealed(m[0:b], key) == sealed(m[0:a], key) ++ sbseal(m[a:b], num24(i), key)
lemma sealedLast (m Seq, key Seq, a Int, i Int) {sealed(m[0:a], key), sealed(m, key), num24(i)} open sealed
  = 0 <= i && a == 16385 * i && a < len(m) && len(m) <= a + 16385 ==> sealed(m, key) == sealed(m[0:a], key) ++ sbseal(m[a:], num24(i), key)

def encPath(msg Seq, enc Seq) Seq = if len(enc) == 0 then msg ++ ".enc" else enc
def header(m Seq, eph Seq, key Seq) Seq = let h = be8(nchunks(len(m))) ++ x25519base(eph) in h ++ hmac(h, key)
def encFile(m Seq, eph Seq, key Seq) Seq = "untrusted comment: psignify encrypted file\n" ++ encoded(header(m, eph, key) ++ sealed(m, key))

func "crypto.Seal"(pub, msg, enc)(err) {
  requires distinct: encPath(msg, enc) != msg
  modifies fs, perm, failed, randbad
  draws (eph 32)
  ensures [P13, P15, P16] file: let peer = edmont(fileData(old(fs)[pub])[10:42]) in let key = boxkey(peer, eph) in
    (err == nil ==> readable(pub) && goodFile(old(fs)[pub], 42) && edvalid(fileData(old(fs)[pub])[10:42]) && readable(msg)
      && fs == store(old(fs), encPath(msg, enc), encFile(old(fs)[msg], eph, key)))
  ensures [P10] io: err == nil ==> failed == old(failed) && randbad == old(randbad)
  ensures [P13] complete: err != nil ==> failed || randbad || !readable(pub) || !readable(msg) || !goodFile(old(fs)[pub], 42) || !edvalid(fileData(old(fs)[pub])[10:42])
  ensures [P16] onlyenc: fs == store(old(fs), encPath(msg, enc), fs[encPath(msg, enc)])
}
loopinv (n out_arr24) n == num24(iter)
loopinv (m reader) let l = len(entry(in(m))) in len(in(m)) <= l && (16385 * iter == l - len(in(m)) || len(in(m)) == 0 && 16385 * iter >= l)
loopinv (m reader) let l = len(entry(in(m))) in in(m) == entry(in(m))[l-len(in(m)):]
loopinv (c bytes, m reader) len(in(m)) > 0 ==> len(c) == 16385
loopinv (m reader, w writer, k in_arr32) let l = len(entry(in(m))) in out(w) == entry(out(w)) ++ sealed(entry(in(m))[0:l-len(in(m))], k)
loopinv (w writer) encInv(w)
loopinv (w writer) let p = w.w.path in fs == store(entry(fs), p, fs[p])

// ---- Open ----
axiom openSeal (m Seq, n Seq, k Seq) {sbseal(m, n, k)} why "nacl/box: what was sealed opens, under the same nonce and key" = sbok(sbseal(m, n, k), n, k) && sbopen(sbseal(m, n, k), n, k) == m
axiom openLen (c Seq, n Seq, k Seq) {sbopen(c, n, k)} why "16 bytes of overhead" = sbok(c, n, k) ==> len(c) >= 16 && len(sbopen(c, n, k)) == len(c) - 16
axiom dhAgree (a Seq, b Seq) {boxkey(x25519base(b), a)} why "Diffie-Hellman" = boxkey(x25519base(b), a) == boxkey(x25519base(a), b)
axiom edX25519 (seed Seq) {edmont(edpub(seed))} why "the Montgomery form of the Ed25519 public key is the X25519 public key of the clamped SHA-512 of the seed"
  = edvalid(edpub(seed)) && edmont(edpub(seed)) == x25519base(clamp(sha512(seed)))

// the text after the first line
hidden rec hasNl(s Seq) Bool = len(s) > 0 && (s[0] == 10 || hasNl(s[1:]))
hidden rec afterNl(s Seq) Seq = if len(s) == 0 then "" else (if s[0] == 10 then s[1:] else afterNl(s[1:]))
lemma hasNlNone () open hasNl = !hasNl("")
lemma hasNlStep (s Seq) {hasNl(s)} open hasNl = (len(s) > 0 && s[0] == 10 ==> hasNl(s)) && (len(s) > 0 && s[0] != 10 ==> (hasNl(s) <=> hasNl(s[1:])))
lemma afterNlStep (s Seq) {afterNl(s)} open afterNl = (len(s) > 0 && s[0] == 10 ==> afterNl(s) == s[1:]) && (len(s) > 0 && s[0] != 10 ==> afterNl(s) == afterNl(s[1:]))

// the chunks of a file: whether each authenticates under its number, and what they hold
hidden rec allok(x Seq, key Seq) Bool = len(x) == 0 ||
  let q = 16401 * ((len(x) - 1) / 16401) in allok(x[0:q], key) && sbok(x[q:], num24(q / 16401), key)
hidden rec opened(x Seq, key Seq) Seq = if len(x) == 0 then "" else
  let q = 16401 * ((len(x) - 1) / 16401) in opened(x[0:q], key) ++ sbopen(x[q:], num24(q / 16401), key)
// what may be released of a file that goes wrong somewhere
hidden rec released(x Seq, key Seq) Seq = if allok(x, key) || len(x) == 0 then opened(x, key) else
  released(x[0:16401 * ((len(x) - 1) / 16401)], key)

lemma openedNone (key Seq) {opened("", key)} open opened = opened("", key) == ""
lemma allokNone (key Seq) {allok("", key)} open allok = allok("", key)
lemma openedNext (x Seq, key Seq, c Int, a Int, b Int, i Int) {opened(x[c:a], key), opened(x[c:b], key), num24(i)} open opened
  = 0 <= c && 0 <= i && a == c + 16401 * i && a < b && b <= a + 16401 && b <= len(x) ==> opened(x[c:b], key) == opened(x[c:a], key) ++ sbopen(x[a:b], num24(i), key)
lemma allokNext (x Seq, key Seq, c Int, a Int, b Int, i Int) {allok(x[c:a], key), allok(x[c:b], key), num24(i)} open allok
  = 0 <= c && 0 <= i && a == c + 16401 * i && a < b && b <= a + 16401 && b <= len(x) ==> (allok(x[c:b], key) <=> allok(x[c:a], key) && sbok(x[a:b], num24(i), key))
lemma openedPart (x Seq, key Seq, y Seq) {opened(x, key), opened(y, key)} induction x open opened
  = len(y) <= len(x) && x[0:len(y)] == y && (len(y) % 16401 == 0 || len(y) == len(x)) ==> len(opened(y, key)) <= len(opened(x, key)) && opened(x, key)[0:len(opened(y, key))] == opened(y, key)
lemma releasedPart (x Seq, key Seq, y Seq) {released(x, key), opened(y, key)} induction x open released
  = len(y) <= len(x) && x[0:len(y)] == y && (len(y) % 16401 == 0 || len(y) == len(x)) && allok(y, key) ==> len(opened(y, key)) <= len(released(x, key)) && released(x, key)[0:len(opened(y, key))] == opened(y, key)

lemma allokPart (x Seq, key Seq, y Seq) {allok(x, key), allok(y, key)} induction x open allok
  = len(y) <= len(x) && x[0:len(y)] == y && (len(y) % 16401 == 0 || len(y) == len(x)) && allok(x, key) ==> allok(y, key)
lemma allokChunk (x Seq, key Seq, c Int, a Int, b Int, e Int, i Int) {allok(x[c:a], key), allok(x[c:e], key), sbok(x[a:b], num24(i), key)} hint allok(x[c:b], key)
  = 0 <= c && 0 <= i && a == c + 16401 * i && a < b && b <= a + 16401 && b <= e && e <= len(x) && (b == a + 16401 || b == e) && allok(x[c:e], key) ==> sbok(x[a:b], num24(i), key)
lemma releasedNext (x Seq, key Seq, c Int, a Int, b Int, i Int) {released(x[c:], key), opened(x[c:a], key), sbopen(x[a:b], num24(i), key)} hint allok(x[c:b], key) hint opened(x[c:b], key)
  = 0 <= c && 0 <= i && a == c + 16401 * i && a < b && b <= a + 16401 && b <= len(x) && (b == a + 16401 || b == len(x)) && allok(x[c:a], key) && sbok(x[a:b], num24(i), key)
    ==> let o = opened(x[c:a], key) ++ sbopen(x[a:b], num24(i), key) in len(o) <= len(released(x[c:], key)) && released(x[c:], key)[0:len(o)] == o
lemma releasedSome (x Seq, key Seq, c Int, a Int, b Int, i Int, n Int) {released(x[c:], key), opened(x[c:a], key), sbopen(x[a:b], num24(i), key)[0:n]} hint sbopen(x[a:b], num24(i), key)
  = 0 <= c && 0 <= i && a == c + 16401 * i && a < b && b <= a + 16401 && b <= len(x) && (b == a + 16401 || b == len(x)) && allok(x[c:a], key) && sbok(x[a:b], num24(i), key)
    && 0 <= n && n <= b - a - 16
    ==> let o = opened(x[c:a], key) ++ sbopen(x[a:b], num24(i), key)[0:n] in len(o) <= len(released(x[c:], key)) && released(x[c:], key)[0:len(o)] == o

def boxpriv(d Seq, pw Seq) Seq = let k = skKey(d) in clamp(sha512((if sumOK(k, skSum(d)) then k else unmask(k, skRounds(d), skSalt(d), pw))[0:32]))
def unlocks(d Seq, pw Seq) Bool = sumOK(skKey(d), skSum(d)) || skRounds(d) > 0 && skKdf(d) == "BK" && len(pw) > 0 && sumOK(unmask(skKey(d), skRounds(d), skSalt(d), pw), skSum(d))
// of the bytes a file decodes to: the number of chunks, and where they end
def count(d Seq) Int = be(d[0:8])
def extent(d Seq) Int = if len(d) <= 72 + 16401 * count(d) then len(d) else 72 + 16401 * count(d)
def goodHeader(d Seq, key Seq) Bool = len(d) >= 72 && d[40:72] == hmac(d[0:40], key)
def goodMsg(d Seq, key Seq) Bool = goodHeader(d, key) && (count(d) == 0 || len(d) > 72 + 16401 * (count(d) - 1)) && allok(d[72:extent(d)], key)
def msgKey(d Seq, priv Seq, pw Seq) Seq = boxkey(d[8:40], boxpriv(fileData(priv), pw))
def encBytes(f Seq) Seq = dpre(strip(afterNl(f)))

func "crypto.Open"(priv, enc, msg)(err) {
  close strip close clean close hasData close dataLine
  requires distinct: enc != msg
  modifies fs, perm, failed, prompts, pw, confirmed, promptbad
  ensures [P13, P14] files: err == nil ==> readable(priv) && goodFile(old(fs)[priv], 104) && unlocks(fileData(old(fs)[priv]), pw) && readable(enc) && hasNl(old(fs)[enc])
  ensures [P13, P14] length: let d = encBytes(old(fs)[enc]) in (err == nil ==> len(d) >= 72)
  ensures [P13, P14] tag after length: let d = encBytes(old(fs)[enc]) in let key = msgKey(d, old(fs)[priv], pw) in (err == nil ==> goodHeader(d, key))
  ensures [P13, P14] chunks after length: let d = encBytes(old(fs)[enc]) in (err == nil ==> count(d) == 0 || len(d) > 72 + 16401 * (count(d) - 1))
  ensures [P13, P14] authentic after length: let d = encBytes(old(fs)[enc]) in let key = msgKey(d, old(fs)[priv], pw) in (err == nil ==> allok(d[72:extent(d)], key))
  ensures [P13, P14] plain after length: let d = encBytes(old(fs)[enc]) in let key = msgKey(d, old(fs)[priv], pw) in
    (err == nil ==> fs == store(old(fs), msg, opened(d[72:extent(d)], key)))
  ensures [P14] onlymsg: fs == store(old(fs), msg, fs[msg])
  ensures [P14] only: let d = encBytes(old(fs)[enc]) in let r = released(d[72:], msgKey(d, old(fs)[priv], pw)) in 
    fs == old(fs) || len(fs[msg]) <= len(r) && fs[msg] == r[0:len(fs[msg])]
  ensures [P10] io: err == nil ==> failed == old(failed)
  ensures [P13] complete: let d = encBytes(old(fs)[enc]) in let key = msgKey(d, old(fs)[priv], pw) in
    (err != nil ==> failed || promptbad || !readable(priv) || !goodFile(old(fs)[priv], 104) || !unlocks(fileData(old(fs)[priv]), pw) || !readable(enc) || !hasNl(old(fs)[enc])
      || !ok64(strip(afterNl(old(fs)[enc]))) || !goodMsg(d, key))
}
loopinv (r reader) hasNl(entry(in(r))) <=> hasNl(in(r))
loopinv (r reader) afterNl(entry(in(r))) == afterNl(in(r))
loopinv (d reader) decInv(d)
loopinv (d reader) let t = dpre(attr(d, "text")) in let g = attr(d, "got") in len(g) <= len(t) && g == t[0:len(g)]
loopinv (d reader) let x = len(attr(d, "got")) - len(entry(attr(d, "got"))) in 0 <= x && x <= 16401 * iter && (x == 16401 * iter || x > 16401 * (iter - 1) && ended(d) && attr(d, "got") == dpre(attr(d, "text")))
loopinv (d reader, k in_arr32) allok(dpre(attr(d, "text"))[len(entry(attr(d, "got"))):len(attr(d, "got"))], k)
loopinv (d reader, k in_arr32, w writer) out(w) == entry(out(w)) ++ opened(dpre(attr(d, "text"))[len(entry(attr(d, "got"))):len(attr(d, "got"))], k)
loopinv (w writer) fs == store(entry(fs), w.path, fs[w.path])
