From 596de66c2479bb851a2065b4e9bd4a0c04a94654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 01/17] fix: reject signature files of the wrong length

A short signature file made Verify panic (slice bounds out of range) or was
padded with zeros, and trailing bytes were silently ignored.
---
 signify/signature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/signature.go b/signify/signature.go
index 9308cf7..7e3d1db 100644
--- a/signify/signature.go
+++ b/signify/signature.go
@@ -2,6 +2,7 @@ package signify
 
 import (
 	"bytes"
+	"fmt"
 	"io/ioutil"
 
 	"golang.org/x/crypto/ed25519"
@@ -25,6 +26,10 @@ func (sig *Signature) encode() []byte {
 }
 
 func readSignatureData(data []byte) (*Signature, error) {
+	if len(data) != keyAlgoLength+keyNumLength+signatureLength {
+		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
+	}
+
 	sig := &Signature{}
 	copy(sig.pkAlgo[:], data[:2])
 	copy(sig.keyNum[:], data[2:keyNumLength+2])
-- 
2.43.0


From 6c7f0c9b1de8dd5bc986ec2aeb0d15a68992a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 02/17] fix: reject private key files of the wrong length

A truncated private key was loaded with its missing bytes as zeros, and
trailing bytes were silently ignored.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 7e49e25..2fb53ed 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -134,6 +134,10 @@ func (priv *Private) sign(message []byte) (*Signature, error) {
 }
 
 func readPrivateKeyData(data []byte) (*Private, error) {
+	if len(data) != keyAlgoLength+kdfAlgoLength+4+saltLength+checksumLength+keyNumLength+secretKeyLength {
+		return nil, fmt.Errorf("signify: invalid private key length %d", len(data))
+	}
+
 	buf := bytes.NewBuffer(data)
 	priv := &Private{}
 
-- 
2.43.0


From d1256ba61bf4d21075d1f20c75152950f097dbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 03/17] fix: never use an unprotected private key that fails
 its checksum

Sign used a corrupted unprotected key without looking at its checksum, and
ToBox went on with it after asking for a passphrase.
---
 signify/key.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/signify/key.go b/signify/key.go
index 2fb53ed..c1868fe 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -97,7 +97,7 @@ func (priv *Private) Check() error {
 
 func (priv *Private) decrypt(password []byte) error {
 	if !priv.IsEncrypted() {
-		return nil
+		return priv.Check()
 	}
 
 	if string(priv.kdfAlgo[:]) != "BK" {
@@ -223,6 +223,11 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 		}
 	}
 
+	err = priv.Check()
+	if err != nil {
+		return err
+	}
+
 	message, err := ioutil.ReadFile(messagePath)
 	if err != nil {
 		return err
-- 
2.43.0


From 712f25d69333ce61a91c2ac45636cfd5b40289e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 04/17] fix: leave the private key intact when unlocking it
 fails

A wrong passphrase left the key masked twice, so that the right passphrase
could not unlock it any more.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index c1868fe..fbb0594 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -115,6 +115,10 @@ func (priv *Private) decrypt(password []byte) error {
 
 	err = priv.Check()
 	if err != nil {
+		// Leave the key as it was, so that another passphrase can be tried.
+		for i := range priv.key[:] {
+			priv.key[i] ^= xorkey[i]
+		}
 		return err
 	}
 
-- 
2.43.0


From 2f42f678e193eb7b05b51c624f7c2707dec7ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 05/17] fix: refuse to sign with a private key of an unknown
 algorithm

Sign reported success and wrote a signature that can never verify.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index fbb0594..ad5fef3 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -126,6 +126,10 @@ func (priv *Private) decrypt(password []byte) error {
 }
 
 func (priv *Private) sign(message []byte) (*Signature, error) {
+	if string(priv.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: not an Ed25519 private key")
+	}
+
 	sig := &Signature{}
 	copy(sig.pkAlgo[:], priv.keyAlgo[:])
 	copy(sig.keyNum[:], priv.keyNum[:])
-- 
2.43.0


From 254d807d60675cd2d1f8ccc8b248a8cc0e55d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 06/17] fix: wipe the passphrase in ToBox as Sign does

---
 signify/key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signify/key.go b/signify/key.go
index ad5fef3..7f0adab 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -269,6 +269,7 @@ func (priv *Private) ToBox() (*[32]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer zero(&passphrase)
 
 		err = priv.decrypt(passphrase)
 		if err != nil {
-- 
2.43.0


From d3319e2639619d14f258d2346b2299ae4248a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 07/17] fix: reject KDF rounds that do not fit the key format

Rounds was truncated to 32 bits: 1<<32+1 rounds gave a key protected by a
single round, and a negative number gave four billion.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 7f0adab..90cc608 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"path/filepath"
 	"strings"
 
@@ -446,6 +447,9 @@ func GenerateKeypair(passphrase []byte, opts *GenerateOptions) (*Private, *Publi
 	if len(passphrase) == 0 {
 		priv.kdfRounds = 0
 	} else {
+		if opts.Rounds < 1 || int64(opts.Rounds) > math.MaxUint32 {
+			return nil, nil, fmt.Errorf("signify: invalid number of KDF rounds %d", opts.Rounds)
+		}
 		priv.kdfRounds = uint32(opts.Rounds)
 	}
 
-- 
2.43.0


From 4cd861b371b6cb681934fbb3bff14e46846412c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 08/17] fix: create the private key file readable by its owner
 only

The .sec file was created with mode 0644, like the public key.
---
 signify/common.go | 5 +++--
 signify/key.go    | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/signify/common.go b/signify/common.go
index eb8cbd2..5a2a02a 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"io/ioutil"
+	"os"
 	"strings"
 )
 
@@ -48,7 +49,7 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 	return dat, nil
 }
 
-func writeDataFile(path, comment string, data []byte) error {
+func writeDataFile(path, comment string, data []byte, perm os.FileMode) error {
 	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
 	base64.StdEncoding.Encode(encoded, data)
 	dataFile := &dataFile{
@@ -56,7 +57,7 @@ func writeDataFile(path, comment string, data []byte) error {
 		data:    encoded,
 	}
 
-	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
+	return ioutil.WriteFile(path, dataFile.Encode(), perm)
 }
 
 func zero(buf *[]byte) {
diff --git a/signify/key.go b/signify/key.go
index 90cc608..1104197 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -253,7 +253,7 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
 	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
-	err = writeDataFile(signaturePath, comment, sig.encode())
+	err = writeDataFile(signaturePath, comment, sig.encode(), 0644)
 	if err != nil {
 		return err
 	}
@@ -495,12 +495,12 @@ func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error
 		return err
 	}
 
-	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
+	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0600)
 	if err != nil {
 		return err
 	}
 
-	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
+	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode(), 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3bee4ce1c2efc8838e8fbf4e3f0d4c70b2aa270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 09/17] fix: keep the signature comment on one line

Signing with a key whose file name contains a line break wrote a signature
file that could not be read back.
---
 signify/key.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 1104197..36e68ef 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -253,6 +253,8 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
 	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
+	// A line break in the file name would end the comment early.
+	comment = strings.Replace(comment, "\n", " ", -1)
 	err = writeDataFile(signaturePath, comment, sig.encode(), 0644)
 	if err != nil {
 		return err
-- 
2.43.0


From 63a7e5003eddb60b8f82fa9ee7687f1161c5e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 10/17] fix: seal the empty message

Sealing an empty file wrote no header, and the result could not be opened.
---
 crypto/crypto.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index d476fc0..a2dd0ab 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -51,10 +51,6 @@ func incrementNonce(nonce *[24]byte) error {
 }
 
 func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
-	if messageLen == 0 {
-		return nil
-	}
-
 	var shared [32]byte
 	edpub, err := pub.ToBox()
 	if err != nil {
-- 
2.43.0


From 577b2bfbe092365953697a277fb830eddbd97caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 11/17] fix: seal the whole message when the reader returns
 short reads

The number of chunks is fixed from the message length, so every short read
silently cut that many bytes off the end of the message.
---
 crypto/crypto.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index a2dd0ab..e467a95 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -93,7 +93,11 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 	chunk := make([]byte, chunkSize)
 	nonce := [24]byte{}
 	for i := 0; i < chunks; i++ {
-		n, err := message.Read(chunk)
+		if rest := messageLen - i*chunkSize; rest < chunkSize {
+			chunk = chunk[:rest]
+		}
+
+		n, err := io.ReadFull(message, chunk)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 987f3278fac046964106040a93d0c2cd66a91056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 12/17] fix: report errors from closing the output files

Seal ignored the error of the final write, done by the encoder's Close, and
reported success for a truncated file.
---
 crypto/crypto.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index e467a95..fe03c53 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -151,9 +151,18 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	}
 
 	encoder := base64.NewEncoder(encrypted)
-	defer encoder.Close()
+	err = seal(pub, message, messageLen, encoder)
+	if err != nil {
+		return err
+	}
 
-	return seal(pub, message, messageLen, encoder)
+	// The last bytes are only written by Close.
+	err = encoder.Close()
+	if err != nil {
+		return err
+	}
+
+	return encrypted.Close()
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
@@ -232,5 +241,10 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 	}
 	defer message.Close()
 
-	return open(priv, decoder, message)
+	err = open(priv, decoder, message)
+	if err != nil {
+		return err
+	}
+
+	return message.Close()
 }
-- 
2.43.0


From cf8ec04a349fab00b32f124c325d14b01e64f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 13/17] fix: report the number of bytes accepted by
 Encoder.Write

It counted whole 3-byte groups only, so it returned short (or excess) counts
with a nil error, against the io.Writer contract; io.Copy failed with a short
write.
---
 base64/coding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base64/coding.go b/base64/coding.go
index a309128..1d6f4a1 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -69,8 +69,8 @@ func (w *Encoder) Write(p []byte) (int, error) {
 				}
 				w.line = 0
 			}
-			written += 3
 		}
+		written++
 	}
 
 	return written, nil
-- 
2.43.0


From 1464187d55ab25b28106927786beba0963d52eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 14/17] fix: read every byte of the source once in Decoder.Read

The byte count of the source's Read was ignored: a read of (0, nil) decoded
the previous byte again, and (1, io.EOF) dropped the byte. Carriage returns
of CRLF line ends were counted as base64 digits.
---
 base64/coding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base64/coding.go b/base64/coding.go
index 1d6f4a1..b924f67 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -103,7 +103,7 @@ func (r *Decoder) Read(p []byte) (int, error) {
 			break
 		}
 
-		_, err := r.r.Read(c)
+		_, err := io.ReadFull(r.r, c)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -111,7 +111,7 @@ func (r *Decoder) Read(p []byte) (int, error) {
 			return 0, err
 		}
 
-		if c[0] == 0xa {
+		if c[0] == 0xa || c[0] == 0xd {
 			continue
 		}
 
-- 
2.43.0


From 2affc34f5ceb4b73eb0f29fe2d9770896cfc4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 15/17] fix: support Decoder reads of any size and report the
 end of the data

Read panicked for buffers whose size is not a multiple of 3, and returned
(0, nil) at the end of the data, so that io.Copy and ioutil.ReadAll never
returned.
---
 base64/coding.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/base64/coding.go b/base64/coding.go
index b924f67..1591180 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -78,7 +78,8 @@ func (w *Encoder) Write(p []byte) (int, error) {
 
 // Decoder is a base64 decoder that handles sources with newlines.
 type Decoder struct {
-	r io.Reader
+	r    io.Reader
+	rest []byte // decoded bytes that didn't fit the last Read
 }
 
 // NewDecoder returns a new Decoder over a Reader.
@@ -93,6 +94,13 @@ func (r *Decoder) Close() error {
 }
 
 func (r *Decoder) Read(p []byte) (int, error) {
+	read := copy(p, r.rest)
+	r.rest = r.rest[read:]
+	if read == len(p) {
+		return read, nil
+	}
+	p = p[read:]
+
 	enclen := base64.StdEncoding.EncodedLen(len(p))
 	buf := make([]byte, 0, enclen)
 	c := make([]byte, 1)
@@ -108,7 +116,7 @@ func (r *Decoder) Read(p []byte) (int, error) {
 			if err == io.EOF {
 				break
 			}
-			return 0, err
+			return read, err
 		}
 
 		if c[0] == 0xa || c[0] == 0xd {
@@ -119,5 +127,13 @@ func (r *Decoder) Read(p []byte) (int, error) {
 		n++
 	}
 
-	return base64.StdEncoding.Decode(p, buf)
+	out := make([]byte, base64.StdEncoding.DecodedLen(len(buf)))
+	n, err := base64.StdEncoding.Decode(out, buf)
+	copied := copy(p, out[:n])
+	r.rest = out[copied:n]
+	read += copied
+	if err == nil && read == 0 {
+		err = io.EOF
+	}
+	return read, err
 }
-- 
2.43.0


From 66cbb36b3e8bf017b91f7d1649f1be398413e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 16/17] fix: reject base64 data after padding in Decoder

Whether data following the padding was an error or was silently appended
depended on the size of the reads.
---
 base64/coding.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base64/coding.go b/base64/coding.go
index 1591180..ef8345f 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -3,6 +3,7 @@ package base64
 
 import (
 	"encoding/base64"
+	"errors"
 	"io"
 )
 
@@ -80,6 +81,7 @@ func (w *Encoder) Write(p []byte) (int, error) {
 type Decoder struct {
 	r    io.Reader
 	rest []byte // decoded bytes that didn't fit the last Read
+	pad  bool   // padding was read, which only more padding can follow
 }
 
 // NewDecoder returns a new Decoder over a Reader.
@@ -123,6 +125,11 @@ func (r *Decoder) Read(p []byte) (int, error) {
 			continue
 		}
 
+		if r.pad && c[0] != '=' {
+			return read, errors.New("base64: data after padding")
+		}
+		r.pad = c[0] == '='
+
 		buf = append(buf, c[0])
 		n++
 	}
-- 
2.43.0


From d1ef24080316ab7676d120637f83e9a09f8b96f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 17/17] fix: exit with an error status on invalid command lines

---
 cmd/psignify/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 600a919..88fd9a9 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -25,7 +25,6 @@ Usage: %s -S -s seckey -m message [-x sigfile]
 func init() {
 	flag.Usage = func() {
 		usage(os.Stdout)
-		os.Exit(0)
 	}
 }
 
-- 
2.43.0

