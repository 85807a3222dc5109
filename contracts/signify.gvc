// Contracts of package signify.

def isComment(l Seq) Bool = hasPrefix(l, "untrusted comment: ")
rec hasData(d Seq) Bool = if hasLine(d) then (if isComment(line(d)) then hasData(afterLine(d)) else true) else false
rec dataLine(d Seq) Seq = if hasLine(d) then (if isComment(line(d)) then dataLine(afterLine(d)) else line(d)) else ""
def fileData(d Seq) Seq = b64dec(dataLine(d))
def goodFile(d Seq, n Int) Bool = hasData(d) && b64ok(dataLine(d)) && len(fileData(d)) == n
def fileText(comment Seq, d Seq) Seq = comment ++ "\n" ++ b64enc(d) ++ "\n"

axiom commentIsNotBase64 (s Seq) {b64ok(s), hasPrefix(s, "untrusted comment: ")} why "a colon is not in the alphabet" = isComment(s) ==> !b64ok(s)
axiom commentNoCR (s Seq) {dropcr(s)} why "the prefix does not end in a carriage return" = isComment(s) ==> isComment(dropcr(s))

// What is written can be read back (round trip of the file format).
lemma roundTrip [P04] (c Seq, d Seq) {fileText(c, d)}
  = isComment(c) && nonl(c) && len(c) <= 65535 && len(d) <= 49000 ==>
    hasData(fileText(c, d)) && dataLine(fileText(c, d)) == b64enc(d) && goodFile(fileText(c, d), len(d)) && fileData(fileText(c, d)) == d

func "signify.readDataFileBytes"(data)(dat, err) {
  ensures some: hasData(data) ==> (err == nil <=> b64ok(dataLine(data)))
  ensures val: hasData(data) && err == nil ==> dat.data == fileData(data)
  ensures none: !hasData(data) && err == nil ==> len(dat.data) == 0
}
loopinv (s scanner) hasData(s.rest) == hasData(entry(s.rest))
loopinv (s scanner) dataLine(s.rest) == dataLine(entry(s.rest))
loopinv (s string) isComment(s) || s == entry(s)

// ---- files ----
func "signify.writeDataFile"(path, comment, data, mode)(err) {
  modifies fs, perm, failed
  ensures done: err == nil ==> fs == store(old(fs), path, fileText(comment, data))
  ensures ok: err == nil ==> failed == old(failed)
  ensures mode: perm == store(old(perm), path, be4(mode))
  ensures other: fs == store(old(fs), path, fs[path])
  ensures bad: err != nil ==> failed
}

// ---- public keys ----
func "signify.LoadPublicKey"(path)(pub, err) {
  modifies failed
  ensures [P03] accepted: err == nil <=> (readable(path) && goodFile(fs[path], 42))
  ensures [P04] layout: let d = fileData(fs[path]) in err == nil ==> pub.keyAlgo == d[0:2] && pub.keyNum == d[2:10] && pub.key == d[10:42]
  ensures [P10] io: err == nil ==> failed == old(failed)
  ensures io2: !readable(path) || failed == old(failed)
}

def genuine(p Seq, s Seq, m Seq) Bool = p[0:2] == "Ed" && s[0:2] == "Ed" && p[2:10] == s[2:10] && edver(p[10:42], m, s[10:74])

func "signify.Verify"(pub, msg, sigarg)(err) {
  modifies failed
  ensures [P01] iff: let sig = if len(sigarg) == 0 then msg ++ ".sig" else sigarg in
    (err == nil <=> (readable(pub) && readable(msg) && readable(sig) && goodFile(fs[pub], 42) && goodFile(fs[sig], 74)
       && genuine(fileData(fs[pub]), fileData(fs[sig]), fs[msg])))
  ensures [P03, P04] sig: let sig = if len(sigarg) == 0 then msg ++ ".sig" else sigarg in
    (err == nil ==> goodFile(fs[sig], 74))
}

// overwriting a buffer with zeros
loopinv (b output) b[0:iter] == rep(0, iter)
func "signify.zero"(buf)() {
  modifies contents(buf)
  ensures zeros: buf == rep(0, len(buf))
}
func "signify.zero64"(buf)() {
  modifies contents(buf)
  ensures zeros: buf == rep(0, 64)
}

// ---- secret keys ----
// Layout of the 104 bytes of a secret key file.
def skAlgo(d Seq) Seq = d[0:2]
def skKdf(d Seq) Seq = d[2:4]
def skRounds(d Seq) Int = be(d[4:8])
def skSalt(d Seq) Seq = d[8:24]
def skSum(d Seq) Seq = d[24:32]
def skNum(d Seq) Seq = d[32:40]
def skKey(d Seq) Seq = d[40:104]

// The unmasked key bytes, given the passphrase.
hidden unmask(key Seq, rounds Int, salt Seq, pw Seq) Seq#64 = xorseq(key, pbkdf(pw, salt, rounds, 64))
def sumOK(key Seq, sum Seq) Bool = sha512(key)[0:8] == sum

func "signify.LoadPrivateKey"(path)(priv, err) {
  modifies failed
  ensures [P03] accepted: err == nil <=> (readable(path) && goodFile(fs[path], 104))
  ensures [P04] layout: let d = fileData(fs[path]) in (err == nil ==> priv.keyAlgo == skAlgo(d) && priv.kdfAlgo == skKdf(d) && priv.kdfRounds == skRounds(d)
    && priv.salt == skSalt(d) && priv.checksum == skSum(d) && priv.keyNum == skNum(d) && priv.key == skKey(d))
  ensures [P10] io: err == nil ==> failed == old(failed)
  ensures io2: !readable(path) || failed == old(failed)
}

func "(*signify.Private).Check"(priv)(err) {
  ensures [P05] sum: err == nil <=> sumOK(priv.key, priv.checksum)
}

func "(*signify.Private).IsEncrypted"(priv)(r) {
  ensures [P06] val: r <=> priv.kdfRounds > 0
}

// ToBox: the key is unlocked in place unless its checksum already matches.
func "(*signify.Private).ToBox"(priv)(box, err) {
  open unmask open clamp
  modifies priv.key, prompts, pw, confirmed, promptbad
  ensures [P05] checked: err == nil ==> sumOK(priv.key, priv.checksum)
  ensures [P07] unchanged: err != nil ==> priv.key == old(priv.key)
  ensures [P06, P12] unlocked: err == nil ==> priv.key == (if sumOK(old(priv.key), priv.checksum) then old(priv.key) else unmask(old(priv.key), priv.kdfRounds, priv.salt, pw))
  ensures [P06] kdf: err == nil && !sumOK(old(priv.key), priv.checksum) ==> priv.kdfRounds > 0 && priv.kdfAlgo == "BK" && len(pw) > 0
  ensures [P12] noprompt: sumOK(old(priv.key), priv.checksum) ==> prompts == old(prompts) && err == nil
  ensures [P12] scalar: err == nil ==> box == clamp(sha512(priv.key[0:32]))
  ensures [P07, P06] recovers: err != nil ==> promptbad || priv.kdfRounds == 0 || priv.kdfAlgo != "BK" || len(pw) == 0
      || !sumOK(unmask(old(priv.key), priv.kdfRounds, priv.salt, pw), priv.checksum)
  ensures once: prompts <= old(prompts) + 1
  ensures [P21] wiped: wiped()
}
hidden clamp(d Seq) Seq#32 = [8 * (d[0] / 8)] ++ d[1:31] ++ [64 + d[31] % 64]

def sigFile(path Seq, msg Seq) Seq = if len(path) == 0 then msg ++ ".sig" else path
def sigComment(priv Seq) Seq = replaceAll("untrusted comment: verify with " ++ basename(trimSuffix(priv, ".sec") ++ ".pub"), "\n", " ")
def usedKey(d Seq, pw Seq) Seq = if skRounds(d) == 0 then skKey(d) else unmask(skKey(d), skRounds(d), skSalt(d), pw)

func "signify.Sign"(priv, msg, sigarg)(err) {
  open unmask
  modifies fs, perm, failed, prompts, pw, confirmed, promptbad
  ensures [P02, P04, P10] done: let d = fileData(old(fs)[priv]) in let k = usedKey(d, pw) in
    (err == nil ==> readable(priv) && goodFile(old(fs)[priv], 104) && readable(msg) &&
      fs == store(old(fs), sigFile(sigarg, msg), fileText(sigComment(priv), "Ed" ++ skNum(d) ++ edsign(k, old(fs)[msg]))))
  ensures [P02] ed: err == nil ==> skAlgo(fileData(old(fs)[priv])) == "Ed"
  ensures [P05] checked: let d = fileData(old(fs)[priv]) in err == nil ==> sumOK(usedKey(d, pw), skSum(d))
  ensures [P06] kdf: let d = fileData(old(fs)[priv]) in err == nil && skRounds(d) > 0 ==> skKdf(d) == "BK"
  ensures [P10] io: err == nil ==> failed == old(failed)
  ensures [P02] complete: let d = fileData(old(fs)[priv]) in
    (err != nil ==> failed || promptbad || !readable(priv) || !readable(msg) || !goodFile(old(fs)[priv], 104) || skAlgo(d) != "Ed"
      || skRounds(d) > 0 && (skKdf(d) != "BK" || len(pw) == 0) || !sumOK(usedKey(d, pw), skSum(d)))
  ensures [P02] onlysig: fs == store(old(fs), sigFile(sigarg, msg), fs[sigFile(sigarg, msg)])
  ensures [P05] nothing: let d = fileData(old(fs)[priv]) in (goodFile(old(fs)[priv], 104) && !sumOK(usedKey(d, pw), skSum(d)) ==> fs == old(fs))
  ensures [P09] mode: err == nil ==> perm == store(old(perm), sigFile(sigarg, msg), be4(420))
  ensures [P12] noprompt: goodFile(old(fs)[priv], 104) && skRounds(fileData(old(fs)[priv])) == 0 ==> prompts == old(prompts)
  ensures [P21] wiped: wiped()
}

// ---- key generation ----
// rounds: what the options ask for (42 without options).
func "signify.GenerateKeypair"(passphrase, opts)(priv, pub, err) {
  open unmask
  case null(opts)
  case !null(opts)
  modifies randbad
  draws (seed 32, salt 16, num 8)
  ensures [P06] masked: err == nil ==> 
    let key = seed ++ edpub(seed) in let rounds = if len(passphrase) == 0 then 0 else (if null(opts) then 42 else opts.Rounds) in
      (priv.kdfRounds == rounds && priv.salt == salt && priv.checksum == sha512(key)[0:8]
       && priv.key == (if len(passphrase) == 0 then key else unmask(key, rounds, salt, passphrase)))
  ensures [P08] pair: err == nil ==> priv.keyAlgo == "Ed" && pub.keyAlgo == "Ed" && priv.kdfAlgo == "BK" && priv.keyNum == num && pub.keyNum == num && pub.key == edpub(seed)
      && priv.salt == salt && sumOK(seed ++ edpub(seed), priv.checksum)
  ensures [P08] randomness: err == nil ==> randbad == old(randbad)
  ensures [P06] rounds: err == nil && priv.kdfRounds != 0 ==> priv.kdfRounds >= 1
  ensures [P06] ok: err != nil ==> randbad || !null(opts) && (opts.Rounds < 1 || opts.Rounds >= 4294967296)
}

func "signify.GenerateKey"(base, passphrase, opts)(err) {
  case null(opts) && len(passphrase) == 0
  case null(opts) && len(passphrase) != 0
  case !null(opts) && len(passphrase) == 0
  case !null(opts) && len(passphrase) != 0
  modifies fs, perm, failed, randbad
  draws (seed 32, salt 16, num 8)
  ensures [P04, P06, P08, P09, P10] files: err == nil ==> 
    let key = seed ++ edpub(seed) in let rounds = if len(passphrase) == 0 then 0 else (if null(opts) then 42 else opts.Rounds) in
    fs == store(store(old(fs), base ++ ".sec", fileText("untrusted comment: signify private key",
            "EdBK" ++ be4(rounds) ++ salt ++ sha512(key)[0:8] ++ num ++ (if len(passphrase) == 0 then key else unmask(key, rounds, salt, passphrase)))),
          base ++ ".pub", fileText("untrusted comment: signify public key", "Ed" ++ num ++ edpub(seed)))
  ensures [P08, P10] faults: err == nil ==> randbad == old(randbad) && failed == old(failed)
  ensures [P09] modes: err == nil ==> perm == store(store(old(perm), base ++ ".sec", be4(384)), base ++ ".pub", be4(420))
  ensures [P09] others: fs == store(store(old(fs), base ++ ".sec", fs[base ++ ".sec"]), base ++ ".pub", fs[base ++ ".pub"])
}

// ---- the terminal prompt ----
uf typed(pos Int) Seq
func "signify.PassphrasePrompt"(confirm)(pw, err) {
  modifies ttypos, promptbad, stdout
  ensures [P21] typed: err == nil ==> pw == typed(old(ttypos)) && promptbad == old(promptbad)
  ensures [P21] confirmed: err == nil && confirm ==> typed(old(ttypos)) == typed(old(ttypos) + 1)
  ensures [P21] complete: err != nil ==> promptbad || confirm && typed(old(ttypos)) != typed(old(ttypos) + 1)
}
