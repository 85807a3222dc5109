TECH = "contract-based deductive verification: contracts on the Go functions, verification conditions generated from their SSA on every run (gvc), discharged by Z3/cvc5; failing inputs sought by replay on the real code"
COMMON = (" Every obligation is regenerated from /repo and discharged for all inputs, no bound. Trusted: gvc's translation of Go SSA, the assumed contracts/models of library functions"
          " (named in the evidence, including the cryptographic primitives), non-overlapping non-nil arguments, no concurrent change of the files, termination not proved.")
CLAIMS = {}
NA = {}
def claim(p, what): CLAIMS[p] = what + COMMON
claim("P01", "Verify's result is shown equivalent to the stated condition on the contents of the three files.")
claim("P02", "Sign's result, the file it writes and the reasons for which it may fail are fixed by its contract.")
claim("P03", "The loaders accept exactly the well-formed files; every index, slice and conversion in them is shown not to panic.")
claim("P04", "The layout of what is written and read is fixed byte by byte; reading back what was written is a lemma over the contracts.")
claim("P05", "Postconditions of Sign, ToBox and Check over the checksum of the unmasked key.")
claim("P06", "Postconditions of GenerateKeypair, GenerateKey, ToBox and Sign over the KDF's uninterpreted keystream.")
claim("P07", "ToBox leaves the key as it was on every error path.")
claim("P08", "Generated keys are expressed over the bytes drawn from the random source, which are tracked draw by draw.")
claim("P09", "The ghost file system fixes which paths change and with which permissions they are created.")
claim("P12", "ToBox returns the clamped hash of the seed and prompts only for a masked key.")
claim("P17", "The bytes the Encoder has passed on are, at every point of every history of writes, the 72-column lines of the base64 of the input so far; Close completes them.")
claim("P18", "Read's contract fixes, for every history of reads, which bytes have been delivered (the decoding of the text used so far), that buffers are filled until the data ends, and that errors are only reported for invalid text or a failed source.")
claim("P19", "main's contract relates the exit status and the text on standard output and standard error to the operation called and its result.")
claim("P20", "main's contract fixes which operation is called, how often and with which arguments, for every set of flags.")
claim("P21", "PassphrasePrompt over a ghost terminal; every passphrase buffer obtained is zero on every return.")
claim("P10", "The contracts of the generating, signing, encrypting and decrypting functions say that an error-free return means that no read, write, flush or draw of randomness failed; the failures are ghost state of the modelled files, readers and writers.")
claim("P14", "Open's contract ties success to the header tag and to the authentication of every announced chunk in order, and what is written to the chunks that authenticated, over the primitives as uninterpreted functions; loops carry inductive invariants over any number of chunks.")
claim("P15", "incrementNonce is proved against 24-byte numbers; Seal's contract fixes each chunk's nonce as its number and the shared key as one of a newly drawn ephemeral key.")
claim("P16", "Seal's contract fixes every byte of the file as a function of the message, the public key and the ephemeral key drawn.")
claim("P13", "Seal's contract fixes the file written and the reasons for which it may fail, Open's the message written and the reasons for which it may fail; a chain of proved lemmas (roundtrip) shows that the file Seal writes meets all that Open asks for, and that what Open then writes is the message, for messages of every length.")
claim("P11", "Contracts on the field arithmetic (FeMul, FeSquare, FeInvert, fePow22523, FeToBytes, ...), on ExtendedGroupElement.FromBytes and on Public.ToBox state each limb computation modulo 2^255-19 with the bounds that exclude overflow of int32/int64; \"decodes to a point\" is RFC 8032's square-root criterion and the inverse is the power p-2.")
