import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
K="signify/key.go";S="signify/signature.go";C="signify/common.go";X="crypto/crypto.go";B="base64/coding.go";M="cmd/psignify/main.go";E="signify/internal/edwards25519/edwards25519.go";EC="signify/internal/edwards25519/const.go"
p("P01","Verification accepts exactly the genuine signatures",
  "Verifying a message file succeeds if and only if the public key file and the signature file are well formed, both name the algorithm Ed, they carry the same 8-byte key number, and the 64-byte Ed25519 signature is valid for exactly the bytes of the message file under that public key. In every other case, including any unreadable file, verification returns an error. When no signature path is given, the signature is read from the message path with .sig appended.",
  ["inputs"],"every public key file, message file, signature file and path combination",
  "The tests verify two genuine signatures and never a forged, mismatched or mislabelled one; acceptance of anything wrong is unreached.",
  [K,S,C],[("verify / verifyEd25519 checks",K+":294-325"),("file parsing",S+":29-51"),("Verify",K+":389-418")],observe=["signify.Verify result"])
p("P02","Signing produces a complete signature file that verifies",
  "When signing succeeds, the signature file (the requested path, or the message path with .sig appended) holds one untrusted-comment line naming the public key file and one base64 line decoding to Ed, the key number of the secret key and the Ed25519 signature of exactly the message bytes. Verifying the message with that file and the matching public key then succeeds. No other file is changed, and signing a readable message with a valid usable secret key fails only if the passphrase prompt or an input/output operation fails.",
  ["inputs"],"every secret key file (plain or passphrase protected), passphrase, message and path combination",
  "One key, one message and default paths are tested; other algorithms, comments, paths and message contents are not.",
  [K,S,C],[("Sign",K+":191-244"),("sign",K+":119-129"),("Signature.encode",S+":19-25"),("writeDataFile",C+":52-61")],observe=["signature file contents","signify.Sign result"])
p("P03","Malformed key and signature files are rejected without crashing",
  "Loading a public key, loading a secret key, or reading a signature never panics, whatever the file contains. It succeeds only if the first line that is not an untrusted comment is valid base64 for exactly the right number of bytes (42, 104 and 74 respectively); anything shorter, longer or undecodable gives an error.",
  ["inputs"],"every byte string as key file or signature file",
  "Only well-formed fixture files are ever loaded by the tests.",
  [K,S,C],[("readPublicKeyData length check",K+":352-356"),("readPrivateKeyData",K+":131-171"),("readSignatureData",S+":27-33"),("readDataFileBytes",C+":26-50")],observe=["LoadPublicKey, LoadPrivateKey, Verify, Sign results and panics"])
p("P04","Keys and signatures keep signify's binary layout and round-trip",
  "A secret key file holds, in order, 2 algorithm bytes, 2 KDF bytes, the KDF rounds as a 32-bit big-endian number, 16 salt bytes, 8 checksum bytes, 8 key-number bytes and 64 key bytes; a public key file holds 2 algorithm bytes, 8 key-number bytes and 32 key bytes; a signature file holds 2, 8 and 64 bytes. Writing any key or signature and reading it back yields the same values in every field, and the files interoperate with OpenBSD signify.",
  ["inputs"],"every value of every field",
  "Fixtures fix one value per field; swapped or mis-sized fields that happen to agree on both sides, or that differ only for unusual values, go unseen.",
  [K,S,C],[("encode / read pairs",K+":70-80"),("Public.encode, readPublicKeyData",K+":270-371"),("Signature.encode, readSignatureData",S+":19-33")],observe=["bytes of key and signature files"])
p("P05","A secret key that fails its checksum is never used",
  "Signing and converting a secret key for decryption return an error, and produce no signature or key, unless the first 8 bytes of SHA-512 over the 64 (unmasked) key bytes equal the stored checksum. This holds for unprotected keys as well as for passphrase-protected keys, so a corrupted key or a wrong passphrase is always reported.",
  ["inputs"],"every secret key content (protected or not), checksum and passphrase",
  "No test uses a wrong passphrase or a corrupted key.",
  [K],[("Check",K+":88-94"),("decrypt",K+":96-117"),("Sign",K+":191-244"),("ToBox",K+":247-272")],observe=["signify.Sign, Private.ToBox, crypto.Open results"])
p("P06","Passphrase protection masks the whole key and is exactly reversible",
  "Generating a key with a non-empty passphrase stores the rounds requested in the options (default 42, at least 1) and the 64 key bytes each XORed with the bcrypt_pbkdf keystream derived from that passphrase, the stored salt and the stored rounds, with the checksum taken over the unmasked bytes; with an empty passphrase it stores rounds 0 and the plain key. Unlocking with the same passphrase recovers the exact original 64 bytes, and a KDF other than BK is refused.",
  ["inputs","configurations"],"every passphrase, salt, option value and generated key",
  "GenerateKeypair is only tested without a passphrase; unlocking only with one fixture.",
  [K],[("GenerateKeypair",K+":426-482"),("decrypt",K+":96-117")],observe=["secret key file bytes","Sign/ToBox after unlocking"])
p("P07","A failed unlock leaves the secret key unchanged for a retry",
  "If unlocking a loaded secret key fails for any reason (prompt failure, wrong passphrase, unsupported KDF), the in-memory key keeps the value it had. A later attempt with the right passphrase therefore succeeds, whatever failed attempts preceded it.",
  ["histories","inputs"],"every sequence of unlock attempts on one loaded key",
  "The tests make a single, successful attempt per key.",
  [K],[("decrypt",K+":96-117"),("ToBox",K+":247-272")],state=[dict(name="loaded secret key",meaning="masked or unmasked key bytes",where=K+":60-68")],observe=["successive Private.ToBox results"])
p("P08","Generated key pairs match, and their secrets are wholly random",
  "A generated secret key and public key carry the same key number and the algorithm Ed, and the public key is the Ed25519 public key of the generated secret key. The Ed25519 seed, all 16 salt bytes and all 8 key-number bytes come from the operating system's cryptographic random source, each drawn separately, and any failure of that source makes generation fail.",
  ["inputs","fault_sequences"],"every output of the random source and every failure of it",
  "Tests sample a few pairs and cannot see which bytes are random or reused.",
  [K],[("GenerateKeypair",K+":426-482")],observe=["GenerateKeypair results","key files"])
p("P09","Generated secret key files are readable by their owner only",
  "Key generation creates the secret key file with permissions 0600, while the public key and signatures are ordinary files (0644). The secret key goes only into the .sec file and the public key only into the .pub file of the given base name.",
  ["inputs","configurations"],"every key base name, passphrase and option",
  "No test generates key files at all.",
  [K,C],[("GenerateKey",K+":487-504"),("writeDataFile",C+":52-61")],observe=["mode and contents of the created files"])
p("P10","Success is reported only when the output was completely written",
  "Key generation, signing, encrypting and decrypting return nil only if every read, every write and every final flush succeeded, so that the output files hold the complete result. Any failure of the underlying files, reader or writer at any point is returned as an error.",
  ["fault_sequences","inputs"],"every input/output failure at every operation",
  "No test injects an input/output failure.",
  [K,C,X,B],[("error returns",X+":58-110"),("Seal deferred Close",X+":140-160"),("writeDataFile",C+":52-61"),("Encoder.Write/Close",B+":35-84")],observe=["results of GenerateKey, Sign, Seal, Open under failing writers"])
p("P11","Public keys convert to exactly their Curve25519 counterpart",
  "Converting a public key for encryption fails if and only if its 32 bytes do not decode to a point of the Edwards curve; otherwise the result is the canonical 32-byte little-endian encoding of (1+y)/(1-y) modulo 2^255-19, where y is the encoded coordinate. The public key itself is not changed.",
  ["inputs"],"every 32-byte public key",
  "Two random key pairs out of 2^255 are tried; carry and reduction faults in the field arithmetic show on very few inputs.",
  [K,E,EC],[("Public.ToBox",K+":322-346"),("FromBytes, field arithmetic",E+":110-880")],observe=["Public.ToBox result"])
p("P12","Secret keys convert to the clamped SHA-512 scalar of their seed",
  "Converting an unlocked secret key for decryption yields the first 32 bytes of SHA-512 of its 32-byte seed with bits 0, 1, 2 and 255 cleared and bit 254 set: the Curve25519 secret whose public key is the conversion of the matching public key. An unprotected key is converted without asking for a passphrase, and the stored key is not altered by the conversion itself.",
  ["inputs"],"every 64-byte secret key",
  "Two random keys are tried; a wrong clamp bit is invisible for many keys.",
  [K],[("Private.ToBox",K+":247-272")],observe=["Private.ToBox result"])
p("P13","Decrypting an encrypted file returns the original message",
  "For every public key and every message, including the empty one and those spanning many chunks, if encrypting the message file succeeds then decrypting the result with the matching secret key succeeds and writes exactly the original bytes. Encrypting a readable message under a valid public key fails only if the random source or an input or output operation fails, and every byte of the message is encrypted however the data is delivered by the reader.",
  ["inputs"],"every message length and content, every key pair",
  "One 425 KB text and one length are tested; the empty message, exact multiples of the chunk size and short reads are not.",
  [X,B,K],[("seal",X+":50-112"),("open",X+":166-222"),("Encoder/Decoder",B+":12-123")],observe=["output file of crypto.Open after crypto.Seal"])
p("P14","Decryption releases only authenticated, complete, in-order plaintext",
  "Decryption succeeds only if the 32-byte tag over the chunk count and ephemeral key verifies and every one of the announced chunks, in order, authenticates under its own nonce. Output is written only for chunks that authenticated, so altered, truncated, reordered or repeated ciphertext gives an error and never wrong plaintext.",
  ["inputs"],"every ciphertext file and secret key",
  "The tests only decrypt untouched ciphertext.",
  [X],[("header authentication",X+":185-190"),("chunk loop",X+":192-220")],observe=["crypto.Open result and output file"])
p("P15","No nonce is used twice with one key, and each message has a fresh key",
  "Within one encrypted message the chunks use nonces 0, 1, 2, ... as 24-byte big-endian numbers, never repeating, and running out of nonces is an error rather than a wrap. Every message is encrypted under a newly generated ephemeral key from the cryptographic random source.",
  ["inputs","histories"],"every chunk count and every message",
  "The test message has 26 chunks, so no carry out of the last nonce byte ever happens.",
  [X],[("incrementNonce",X+":33-48"),("seal",X+":50-112")],observe=["ciphertext chunks"])
p("P16","The encrypted file layout is fixed",
  "An encrypted file is one untrusted-comment line followed by base64 lines of: the number of chunks as a 64-bit big-endian number, the 32-byte ephemeral public key, a 32-byte authenticator of those 40 bytes under the shared key, and the chunks, each the nacl/box encryption of 16385 message bytes (the last of the remaining 1 to 16385). The default output path is the message path with .enc appended.",
  ["inputs"],"every message and key",
  "Tests check encryption only against this same code's decryption, so a change made on both sides, which makes existing files unreadable, passes.",
  [X,B],[("seal header",X+":76-95"),("Seal",X+":116-163")],observe=["bytes of the encrypted file"])
p("P17","The base64 encoder writes canonical base64 in 72-column lines",
  "However the input is split over Write calls, after Close the encoder has written the standard base64 encoding of all bytes written, with a newline after every 72 characters and one final newline. A successful Write reports exactly the number of bytes it was given.",
  ["inputs","histories"],"every sequence of writes",
  "One Write of 72 bytes without Close is tested; partial groups, line ends across writes and padding are not.",
  [B],[("Encoder.Write",B+":48-84"),("Encoder.Close",B+":30-46")],state=[dict(name="pending bytes and line position",meaning="up to two unencoded bytes; bytes on the current line",where=B+":17-22")],observe=["bytes written to the underlying writer","Write result"])
p("P18","The base64 decoder returns exactly the encoded bytes for any read pattern",
  "Reading from the decoder with buffers of any sizes yields, in order, exactly the bytes whose base64 text (with newlines anywhere) the source holds, fills each buffer unless the data ends, and then reports io.EOF. It never panics; invalid base64 and errors of the source are returned as errors.",
  ["inputs","histories"],"every source text, source read behaviour and sequence of buffer sizes",
  "One 72-byte read is tested; the code that handles other sizes, end of data and bad input is unreached.",
  [B],[("Decoder.Read",B+":100-123")],observe=["Decoder.Read results"])
p("P19","The command's exit status and OK line tell the truth",
  "The command exits with status 0 (and prints OK for verify, encrypt and decrypt) only if the requested operation succeeded; if the operation fails, the command line is invalid, required options are missing or no operation is selected, it exits with a non-zero status, writes to standard error and never prints OK. Only the help flag exits with 0 without an operation.",
  ["inputs","fault_sequences"],"every command line and every outcome of the operation",
  "The command package has no tests.",
  [M],[("main",M+":45-144")],observe=["exit status, stdout, stderr"])
p("P20","The command applies the selected operation to the selected files",
  "When exactly one operation flag is given, the command runs exactly that operation once, and no other, on the files given by -p, -s, -m, -c and -x (with the default key path when -p or -s is absent), in the right roles. Key generation asks for a confirmed passphrase unless -n is given, in which case the passphrase is empty.",
  ["inputs","configurations"],"every combination of flags",
  "The command package has no tests.",
  [M],[("main",M+":45-144"),("defaultKeyBase",M+":31-43")],observe=["library calls made by the command"])
p("P21","Passphrases are confirmed before use and wiped after use",
  "Asked to confirm, the terminal prompt returns a passphrase only if it was typed identically twice, and otherwise returns an error; unconfirmed, it returns exactly what was typed. Signing and secret key conversion overwrite the passphrase they obtained with zeros before they return, on success and on failure alike.",
  ["inputs","fault_sequences"],"every pair of typed passphrases and every outcome of signing or conversion",
  "The tests replace the prompt and never look at the buffers afterwards.",
  [K,C],[("PassphrasePrompt",K+":29-58"),("zero, zero64",C+":63-81"),("deferred wiping",K+":207-212")],observe=["prompt result","passphrase buffer after return"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
