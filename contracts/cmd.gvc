// Contract of the command. The operations themselves are black boxes here:
// their own contracts say what they do.

uf username() Seq
uf homedir() Seq
uf hasuser() Bool
extern "os/user.Current"()(u, err) {
  ensures known: err == nil <=> hasuser()
  ensures val: err == nil ==> u.Username == username() && u.HomeDir == homedir()
}
uf pathjoin3(a Seq, b Seq, c Seq) Seq

def keyBase() Seq = if !hasuser() then "" else if len(homedir()) == 0 then username() else pathjoin3(homedir(), ".signify", username())
def keyFile(given Seq, ext Seq) Seq = if len(given) == 0 && len(keyBase()) != 0 then keyBase() ++ ext else given
def sec() Seq = keyFile(flagval("s"), ".sec")
def pub() Seq = keyFile(flagval("p"), ".pub")
def only(g Bool, a Bool, b Bool, c Bool, d Bool) Bool = g && !a && !b && !c && !d
def onlyG() Bool = only(flagset("G"), flagset("S"), flagset("V"), flagset("E"), flagset("D"))
def onlyS() Bool = only(flagset("S"), flagset("G"), flagset("V"), flagset("E"), flagset("D"))
def onlyV() Bool = only(flagset("V"), flagset("G"), flagset("S"), flagset("E"), flagset("D"))
def onlyE() Bool = only(flagset("E"), flagset("G"), flagset("S"), flagset("V"), flagset("D"))
def onlyD() Bool = only(flagset("D"), flagset("G"), flagset("S"), flagset("V"), flagset("E"))
def onlyop(f Bool, n Int, all Int) Bool = f ==> n == all && n <= 1
def grew(s Seq, t Seq) Bool = len(s) > len(t)
def saysOK(s Seq, t Seq) Bool = len(s) >= len(t) + 3 && s[len(s)-3:] == "OK\n"

func "cmd/psignify.main"()() {
  opaque "signify.GenerateKey" opaque "signify.Sign" opaque "signify.Verify" opaque "crypto.Seal" opaque "crypto.Open"
  modifies stdout, stderr, prompts, pw, confirmed, promptbad
  ensures [P19] zero: exitcode() == 0 ==> helped() || called("*") == 1 && callok() && !badflags()
  ensures [P19] fails: exitcode() != 0 ==> grew(stderr, old(stderr)) && (badflags() || stdout == old(stdout))
  ensures [P19] refused: badflags() ==> exitcode() != 0
  ensures [P19] done: called("*") == 1 && callok() ==> exitcode() == 0
  ensures [P19] ok: exitcode() == 0 && !helped() && called("signify.GenerateKey") == 0 && called("signify.Sign") == 0 ==> saysOK(stdout, old(stdout))
  ensures [P20] parsed: helped() || badflags() ==> called("*") == 0
  ensures [P20] onlyG: !helped() && !badflags() ==> onlyop(onlyG(), called("signify.GenerateKey"), called("*"))
  ensures [P20] onlyS: !helped() && !badflags() ==> onlyop(onlyS(), called("signify.Sign"), called("*"))
  ensures [P20] onlyV: !helped() && !badflags() ==> onlyop(onlyV(), called("signify.Verify"), called("*"))
  ensures [P20] onlyE: !helped() && !badflags() ==> onlyop(onlyE(), called("crypto.Seal"), called("*"))
  ensures [P20] onlyD: !helped() && !badflags() ==> onlyop(onlyD(), called("crypto.Open"), called("*"))
  ensures [P20] once: !helped() && !badflags() && called("*") == 0 ==>
       onlyG() && (promptbad || len(pub()) == 0) || onlyS() && (len(sec()) == 0 || len(flagval("m")) == 0)
    || !onlyG() && !onlyS() && !onlyV() && !onlyE() && !onlyD()
  ensures [P20] generate: called("signify.GenerateKey") == 1 ==> callarg("signify.GenerateKey", 0) == pub()
    && callarg("signify.GenerateKey", 1) == (if flagset("n") then "" else pw)
  ensures [P20] confirm: called("signify.GenerateKey") == 1 ==> (if flagset("n") then prompts == old(prompts) else confirmed && prompts == old(prompts) + 1)
  ensures [P20] options: called("signify.GenerateKey") == 1 ==> null(callarg("signify.GenerateKey", 2))
  ensures [P20] sign: called("signify.Sign") == 1 ==> callarg("signify.Sign", 0) == sec() && callarg("signify.Sign", 1) == flagval("m") && callarg("signify.Sign", 2) == flagval("x")
  ensures [P20] verify: called("signify.Verify") == 1 ==> callarg("signify.Verify", 0) == pub() && callarg("signify.Verify", 1) == flagval("m") && callarg("signify.Verify", 2) == flagval("x")
  ensures [P20] encrypt: called("crypto.Seal") == 1 ==> callarg("crypto.Seal", 0) == pub() && callarg("crypto.Seal", 1) == flagval("m") && callarg("crypto.Seal", 2) == flagval("c")
  ensures [P20] decrypt: called("crypto.Open") == 1 ==> callarg("crypto.Open", 0) == sec() && callarg("crypto.Open", 1) == flagval("c") && callarg("crypto.Open", 2) == flagval("m")
}
