// Contracts of package base64.

// ---- text ----
def isNl(c Int) Bool = c == 10 || c == 13
// the text without its line breaks
rec strip(s Seq) Seq = if len(s) == 0 then "" else (if isNl(s[0]) then "" else [s[0]]) ++ strip(s[1:])
rec clean(s Seq) Bool = len(s) == 0 || clean(s[0:len(s)-1]) && !isNl(s[len(s)-1])

// ---- Encoder ----
// The text of whole groups of three bytes: base64 with a newline after every
// 54 bytes (72 characters).
rec lines(x Seq) Seq = if len(x) < 3 then "" else lines(x[0:len(x)-3]) ++ b64enc(x[len(x)-3:]) ++ (if len(x) % 54 == 0 then "\n" else "")
// All of the text.
def encoded(x Seq) Seq = let m = len(x) - len(x) % 3 in lines(x[0:m]) ++ b64enc(x[m:]) ++ "\n"

ghostinit "base64.Encoder"(e) { out = ""; start = out(e.w) }
// t: the bytes written so far
def encAt(e, t Seq) Bool = let i = len(t) % 3 in let m = len(t) - i in
  e.index == i && e.line == m % 54 && len(e.buf) == 3 && e.buf[0:i] == t[m:] && out(e.w) == attr(e, "start") ++ lines(t[0:m])
def encInv(e) Bool = encAt(e, out(e))

func "base64.NewEncoder"(w)(e) {
  inline
  ensures [P17] new: out(e) == "" && attr(e, "start") == old(out(w)) && encInv(e) && out(w) == old(out(w))
}
func "(*base64.Encoder).Write"(w, p)(n, err) {
  requires inv: encInv(w)
  modifies out(w), w.index, w.line, contents(w.buf), out(w.w), failed
  ghost out(w) = out(w) ++ p
  ensures [P17] inv: err == nil ==> encInv(w)
  ensures [P17] count: err == nil ==> n == len(p)
  ensures [P10, P17] io: err == nil ==> failed == old(failed)
  ensures [P17] complete: err != nil ==> failed
}
loopinv (e ptrEncoder, b input) encAt(e, out(e) ++ b[0:iter])

func "(*base64.Encoder).Close"(w)(err) {
  requires inv: encInv(w)
  modifies w.index, w.line, out(w.w), failed
  ensures [P17] text: err == nil ==> out(w.w) == attr(w, "start") ++ encoded(out(w))
  ensures [P10, P17] io: err == nil ==> failed == old(failed)
  ensures [P17] complete: err != nil ==> failed
}

// ---- Decoder ----
// text: what the source held, without line breaks, when the decoder was made;
// used: the part of it that has been decoded; got: the bytes delivered
ghostinit "base64.Decoder"(d) { text = strip(in(d.r)); used = ""; got = "" }
def padded(s Seq) Bool = len(s) > 0 && s[len(s)-1] == 61
def decInv(d) Bool = ok64(attr(d, "used")) && dec64(attr(d, "used")) == attr(d, "got") ++ d.rest
  && attr(d, "text") == attr(d, "used") ++ strip(in(d.r)) && (d.pad <=> padded(attr(d, "used")))
// What text that may break off or go wrong somewhere decodes to: the decoding
// of the longest part of it, from its beginning, that is valid.
hidden rec dpre(s Seq) Seq = if ok64(s) || len(s) == 0 then dec64(s) else dpre(s[0:len(s)-1])
lemma dpreAll (s Seq) {dpre(s)} open dpre = ok64(s) ==> dpre(s) == dec64(s)
lemma dprePart (s Seq, a Seq) {dpre(s), ok64(a)} induction s open dpre hint ok64(a ++ s[len(a):])
  = ok64(a) && len(a) <= len(s) && s[0:len(a)] == a ==> len(dec64(a)) <= len(dpre(s)) && dpre(s)[0:len(dec64(a))] == dec64(a)
lemma dprePad (s Seq, a Seq) {dpre(s), ok64(a)} induction s open dpre hint ok64(a ++ s[len(a):])
  = ok64(a) && padded(a) && len(a) <= len(s) && s[0:len(a)] == a ==> dpre(s) == dec64(a)
// nothing is left to deliver
def ended(d) Bool = len(d.rest) == 0 && (strip(in(d.r)) == "" || padded(attr(d, "used")))

func "base64.NewDecoder"(r)(d) {
  inline
  ensures [P18] new: attr(d, "text") == strip(in(r)) && attr(d, "used") == "" && attr(d, "got") == "" && decInv(d) && in(r) == old(in(r))
}
func "(*base64.Decoder).Read"(r, p)(n, err) {
  requires inv: decInv(r)
  modifies in(r.r), r.rest, r.pad, contents(p), failed, attr(r, "used"), attr(r, "got")
  ghost attr(r, "used") = attr(r, "used") ++ (let t = old(strip(in(r.r))) in t[0:len(t) - len(strip(in(r.r)))])
  ghost attr(r, "got") = if err == nil || err == EOF then attr(r, "got") ++ p[0:n] else attr(r, "got")
  ensures [P14, P18] inv: err == nil || err == EOF ==> decInv(r)
  ensures [P18] count: 0 <= n && n <= len(p)
  ensures [P18] full: err == nil ==> n == len(p) || ended(r)
  ensures [P18] progress: err == nil && len(p) > 0 ==> n > 0
  ensures [P18] end: err == EOF ==> n == 0 && len(r.rest) == 0 && strip(in(r.r)) == "" && ok64(attr(r, "text")) && attr(r, "got") == dec64(attr(r, "text"))
  ensures [P18] complete: err != nil && err != EOF ==> failed || !ok64(attr(r, "text"))
  ensures [P18] ends: old(ended(r)) && len(p) > 0 ==> err != nil
  ensures [P10, P18] io: err == nil || err == EOF ==> failed == old(failed)
  ensures [P14] valid after inv: err == nil ==> let t = dpre(attr(r, "text")) in let u = dec64(attr(r, "used")) in len(u) <= len(t) && u == t[0:len(u)]
  ensures [P14] lead after inv: err == nil ==> let u = dec64(attr(r, "used")) in let g = attr(r, "got") in len(g) <= len(u) && g == u[0:len(g)]
  ensures [P14] prefix after inv after valid after lead: err == nil ==> let t = dpre(attr(r, "text")) in let g = attr(r, "got") in len(g) <= len(t) && g == t[0:len(g)]
  ensures [P14] piece after prefix: err == nil ==> let g = attr(r, "got") in p[0:n] == dpre(attr(r, "text"))[len(g) - n:len(g)]
  ensures [P14] whole after inv: err == nil && ended(r) ==> attr(r, "got") == dpre(attr(r, "text"))
}
loopinv (d ptrDecoder, b grown) strip(entry(in(d.r))) == b ++ strip(in(d.r))
loopinv (b grown) clean(b)
loopinv (d ptrDecoder, b grown) d.pad <=> (if len(b) > 0 then padded(b) else entry(d.pad))
loopinv (d ptrDecoder, b grown) entry(d.pad) && len(b) > 0 ==> b[0] == 61
loopinv (d ptrDecoder, b buffer, n counter) entry(d.pad) && n > 0 ==> b[0] == 61
loopinv (d ptrDecoder, b buffer, n counter) strip(entry(in(d.r))) == b[0:n] ++ strip(in(d.r))
loopinv (b buffer, n counter) clean(b[0:n])
loopinv (d ptrDecoder, b buffer, n counter) d.pad <=> (if n > 0 then padded(b[0:n]) else entry(d.pad))
