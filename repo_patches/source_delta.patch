From eb4d27e5b0cc86671f98cc520639f39052557be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:48 +0000
Subject: [PATCH 01/56] fix: compare the UID message of a key server reply with
 the expected one

MessageReply.VerifySrvSig overwrote its msg argument with the decrypted
message and then compared that message with itself.
---
 uid/uid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uid/uid.go b/uid/uid.go
index 21c0be6..53bac4e 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -639,14 +639,14 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 func (reply *MessageReply) VerifySrvSig(msg *Message, srvPubKey string) error {
 	// make sure messages match
 	UIDHash, UIDIndex, _ := msg.Encrypt()
-	idx, msg, err := reply.Decrypt(UIDHash)
+	idx, decMsg, err := reply.Decrypt(UIDHash)
 	if err != nil {
 		return err
 	}
 	if !bytes.Equal(idx, UIDIndex) {
 		return log.Error(ErrMsgMismatch)
 	}
-	if !bytes.Equal(msg.JSON(), msg.JSON()) {
+	if !bytes.Equal(decMsg.JSON(), msg.JSON()) {
 		return log.Error(ErrMsgMismatch)
 	}
 	// verify server signature
-- 
2.43.0


From 87c0acb762c16eb08ab2af830ab421feda107649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 02/56] fix: do not panic on truncated key server replies

MessageReply.Decrypt sliced the decoded UIDMESSAGEENCRYPTED without checking
its length.
---
 uid/errors.go | 4 ++++
 uid/uid.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/uid/errors.go b/uid/errors.go
index 0f9e7ea..a8f2bd5 100644
--- a/uid/errors.go
+++ b/uid/errors.go
@@ -28,6 +28,10 @@ var ErrInvalidNonceSig = errors.New("uid: nonce signature invalid")
 // match the original UIDMessage.
 var ErrMsgMismatch = errors.New("uid: UIDMessageReply from key server doesn't match original UIDMessage")
 
+// ErrShortReply is raised when the encrypted UIDMessage in an UIDMessageReply
+// is too short to contain an UIDIndex and a nonce.
+var ErrShortReply = errors.New("uid: UIDMessageReply is too short")
+
 // ErrInvalidSrvSig is raised when the server-signature of an UID message
 // reply is invalid.
 var ErrInvalidSrvSig = errors.New("uid: server-signature invalid (keyserver keys up-to-date?)")
diff --git a/uid/uid.go b/uid/uid.go
index 53bac4e..14c5d0c 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -8,6 +8,7 @@ package uid
 
 import (
 	"bytes"
+	"crypto/aes"
 	"crypto/sha256"
 	"encoding/json"
 	"io"
@@ -625,6 +626,9 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 	if err != nil {
 		return nil, nil, log.Error(err)
 	}
+	if len(UIDMessageEncrypted) < sha256.Size+aes.BlockSize {
+		return nil, nil, log.Error(ErrShortReply)
+	}
 	UIDIndex := UIDMessageEncrypted[:sha256.Size]
 	enc := UIDMessageEncrypted[sha256.Size:]
 	Message := aes256.CTRDecrypt(UIDHash, enc)
-- 
2.43.0


From 62209ece5cf5b208f14cbf2c025b28fca629a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:15 +0000
Subject: [PATCH 03/56] fix: do not panic on truncated session anchors

KeyInit.SessionAnchor passed the decoded SESSIONANCHOR to CTRDecrypt, which
panics if the ciphertext is shorter than the IV.
---
 uid/keyinit.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 7e0f831..5df49aa 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -5,6 +5,7 @@
 package uid
 
 import (
+	"crypto/aes"
 	"encoding/json"
 	"io"
 
@@ -127,6 +128,10 @@ func (ki *KeyInit) SessionAnchor(sigPubKey string) (*SessionAnchor, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(enc) < aes.BlockSize {
+		log.Error(ErrSessionAnchor)
+		return nil, ErrSessionAnchor
+	}
 	txt := aes256.CTRDecrypt(keyHash[:32], enc)
 	var sa SessionAnchor
 	if err := json.Unmarshal(txt, &sa); err != nil {
-- 
2.43.0


From d58dc595f62752bc1afd77f4498b569e28224e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 04/56] fix: refuse KeyInit signature keys of wrong length

KeyInit.Verify and KeyInit.VerifySrvSig ignored the error of SetPublicKey and
then verified with an empty key, which panics.
---
 uid/keyinit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 5df49aa..8407af2 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -206,7 +206,9 @@ func (ki *KeyInit) Verify(keyInitRepositoryURIs []string, sigPubKey string) erro
 		return err
 	}
 	// create ed25519 key
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify self-signature
 	if !ed25519Key.Verify(ki.Contents.json(), sig) {
 		log.Error(ErrInvalidKeyInitSig)
@@ -234,7 +236,9 @@ func (ki *KeyInit) VerifySrvSig(signature, srvPubKey string) error {
 	if err != nil {
 		return err
 	}
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify server-signature
 	if !ed25519Key.Verify(ki.JSON(), sig) {
 		log.Error(ErrInvalidSrvSig)
-- 
2.43.0


From 05d460aab434c0af9a44a21276878022dec41727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 05/56] fix: verify the key entries in the UID message
 consistency check

Message.Check accepted key entries whose PUBKEY is not decodable or does not
match HASH. Using such a key panics. KeyEntry.Verify refused every Ed25519 key
because of a typo.
---
 uid/keyentry.go | 2 +-
 uid/uid.go      | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/uid/keyentry.go b/uid/keyentry.go
index b8dfe8d..b92b9fd 100644
--- a/uid/keyentry.go
+++ b/uid/keyentry.go
@@ -65,7 +65,7 @@ func (ke *KeyEntry) Verify() error {
 		return log.Errorf("uid: unknown ke.CIPHERSUITE: %s", ke.CIPHERSUITE)
 	}
 	// verify FUNCTION
-	if ke.FUNCTION != "ED25510" && ke.FUNCTION != "ECDHE25519" {
+	if ke.FUNCTION != "ED25519" && ke.FUNCTION != "ECDHE25519" {
 		return log.Errorf("uid: unknown ke.FUNCTION: %s", ke.FUNCTION)
 	}
 	// verify HASH
diff --git a/uid/uid.go b/uid/uid.go
index 14c5d0c..c171d05 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -216,6 +216,9 @@ func (msg *Message) checkV1_0() error {
 	if msg.UIDContent.PUBKEYS[0].FUNCTION != "ECDHE25519" {
 		return log.Error("uid: UIDContent.PUBKEYS[0].FUNCTION != \"ECDHE25519\"")
 	}
+	if err := msg.UIDContent.PUBKEYS[0].Verify(); err != nil {
+		return err
+	}
 	// UIDContent.SIGESCROW must be zero-value.
 	if msg.UIDContent.SIGESCROW != nil {
 		if msg.UIDContent.SIGESCROW.CIPHERSUITE != "" ||
@@ -271,6 +274,9 @@ func (msg *Message) Check() error {
 	if msg.UIDContent.SIGKEY.FUNCTION != "ED25519" {
 		return log.Error("uid: UIDContent.SIGKEY.FUNCTION != \"ED25519\"")
 	}
+	if err := msg.UIDContent.SIGKEY.Verify(); err != nil {
+		return err
+	}
 	// make sure LASTENTRY is parseable for a non-keyserver localpart.
 	// For keyservers the LASTENTRY can be empty, iff this is the first entry
 	// in the hashchain.
-- 
2.43.0


From e1d6973c3390e1dd23ee8715a0c962e494647dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 06/56] fix: store only consistent UID messages of the searched
 identity

A key server could answer a search for one identity with a self-signed UID
message of any other identity (also of other domains, or of the key server
itself, for which the server signature is not verified), and an inconsistent
UID message could crash the client.
---
 cryptengine/hashchain.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 703ff52..3b37c5e 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -355,6 +355,14 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Check that message is consistent and belongs to the searched identity
+		if err := uid.Check(); err != nil {
+			return err
+		}
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: UID message is not for identity '%s'", mappedID)
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
@@ -483,6 +491,14 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Check that message is consistent and belongs to the searched identity
+		if err := uid.Check(); err != nil {
+			return err
+		}
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: UID message is not for identity '%s'", mappedID)
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
-- 
2.43.0


From 65e2a97a34d3d5155e92c2c40916e5040bbda428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 07/56] fix: check the type of hash chain positions in key
 server replies

A missing position panicked; the ok value tested was the one of another field.
---
 cryptengine/hashchain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 3b37c5e..38c0214 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -39,7 +39,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch last hash chain entry reply has the wrong type")
 	}
 	// parse hash chain position
-	hcPosFloat := reply["HCPos"].(float64)
+	hcPosFloat, ok := reply["HCPos"].(float64)
 	if !ok {
 		return log.Error("cryptengine: fetch last hash chain position reply has the wrong type")
 	}
@@ -88,7 +88,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch hash chain entries reply has the wrong type")
 	}
 	// parse first hash chain position
-	hcPosFirstFloat := reply["HCFirstPos"].(float64)
+	hcPosFirstFloat, ok := reply["HCFirstPos"].(float64)
 	if !ok {
 		return log.Error("cryptengine: fetch hash chain first position reply has the wrong type")
 	}
-- 
2.43.0


From 190c8c5ad0bf7e6e9b77a0da2b292653b85ea4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 08/56] fix: sync the hash chain only with the requested
 entries and report failures

syncHashChain panicked if the key server returned fewer entries than announced,
left gaps if it started at another position, and reported success if an entry
could not be stored.
---
 cryptengine/hashchain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 38c0214..e4cda24 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -93,6 +93,9 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch hash chain first position reply has the wrong type")
 	}
 	hcFirstPos := uint64(hcPosFirstFloat)
+	if hcFirstPos != start || hcPos-start >= uint64(len(hcEntries)) {
+		return log.Error("cryptengine: key server did not return the requested hash chain entries")
+	}
 	for i := hcFirstPos; i <= hcPos; i++ {
 		entry, ok := hcEntries[i-hcFirstPos].(string)
 		if !ok {
@@ -102,7 +105,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		// store entry in database
 		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
 		if err != nil {
-			return nil
+			return err
 		}
 	}
 
-- 
2.43.0


From 1c39c927c10c8cec4988d7375f1a2bdc3e1d44f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 09/56] fix: verify fetched KeyInit messages before storing
 them

fetchKeyInit stored whatever the key server returned; it was then used to start
sessions without its signature, validity and session anchor key ever being
verified.
---
 cryptengine/keyinit.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index daf77d5..8616a0a 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -126,6 +126,13 @@ func (ce *CryptEngine) fetchKeyInit(pseudonym string) error {
 	if err != nil {
 		return err
 	}
+	// verify key init message
+	if err := ki.Check(); err != nil {
+		return err
+	}
+	if err := ki.Verify(msg.UIDContent.REPOURIS, msg.SigPubKey()); err != nil {
+		return err
+	}
 	// store public key init message
 	return ce.keyDB.AddPublicKeyInit(ki)
 }
-- 
2.43.0


From 1b69e530a0220e895675436a8f8d83b96c9aaf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 10/56] fix: do not panic if a key server announces no
 signature public key

---
 cryptengine/keyinit.go | 3 +++
 cryptengine/uid.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index 8616a0a..5a5fcec 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -66,6 +66,9 @@ func (ce *CryptEngine) addKeyInit(pseudonym, mixaddress, nymaddress, token strin
 	if len(kis) != len(sigs) {
 		return log.Error("cryptengine: number of returned signatures does not equal number of sent key init messages")
 	}
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Error("cryptengine: key server has no signature public key")
+	}
 	for i, ki := range kis {
 		sig, ok := sigs[i].(string)
 		if !ok {
diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 172b215..d082214 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -116,6 +116,9 @@ func (ce *CryptEngine) registerOrUpdate(
 	}
 
 	// verify reply
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Error("cryptengine: key server has no signature public key")
+	}
 	// TODO: keyserver can return more than one SIGPUBKEY
 	if err := msgReply.VerifySrvSig(msg, caps.SIGPUBKEYS[0]); err != nil {
 		return err
-- 
2.43.0


From 5b15245406149cf47f237fc856aa9f1f0bf0b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 11/56] fix: bind the sender UID message of a decrypted message
 to its sender

The UID message in the header was neither verified nor compared with the sender
identity and key named in the header, so a peer could have messages attributed
to any identity (and a signature verified under a key of their choice).
---
 msg/decrypt.go | 6 ++++++
 msg/errors.go  | 4 ++++
 msg/procuid.go | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 4cdb27f..9549b5a 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -541,6 +541,12 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		return "", "", uidRes.err
 	}
 
+	// make sure sender UID belongs to the sender named in the header
+	if uidRes.msg.Identity() != h.SenderIdentity ||
+		!uid.KeyEntryEqual(uidRes.msg.PubKey(), &h.SenderIdentityPub) {
+		return "", "", log.Error(ErrWrongSenderUID)
+	}
+
 	// verify signature, if necessary
 	if contentHash != nil {
 		if !ed25519.Verify(uidRes.msg.PublicSigKey32()[:], contentHash, sigBuf[:]) {
diff --git a/msg/errors.go b/msg/errors.go
index 1a487f8..dc3f9e1 100644
--- a/msg/errors.go
+++ b/msg/errors.go
@@ -41,6 +41,10 @@ var ErrWrongSignatureLength = errors.New("msg: wrong signature length")
 // ErrInvalidSignature is raised when a signature verification failed.
 var ErrInvalidSignature = errors.New("msg: signature invalid")
 
+// ErrWrongSenderUID is raised when the sender UID message does not belong to
+// the sender named in the message header.
+var ErrWrongSenderUID = errors.New("msg: sender UID message does not match sender")
+
 // ErrNotHMACPacket is raised when an HMAC packet was expected.
 var ErrNotHMACPacket = errors.New("msg: expected HMAC packet")
 
diff --git a/msg/procuid.go b/msg/procuid.go
index a2bbc8a..dd2542e 100644
--- a/msg/procuid.go
+++ b/msg/procuid.go
@@ -27,6 +27,15 @@ func procUID(senderUID string, res chan *procUIDResult) {
 		res <- &procUIDResult{uidIndex: nil, msg: nil, err: err}
 		return
 	}
+	// make sure UID message is consistent and self-signed
+	if err := r.msg.Check(); err != nil {
+		res <- &procUIDResult{uidIndex: nil, msg: nil, err: err}
+		return
+	}
+	if err := r.msg.VerifySelfSig(); err != nil {
+		res <- &procUIDResult{uidIndex: nil, msg: nil, err: err}
+		return
+	}
 	// return results
 	res <- &r
 }
-- 
2.43.0


From 7c6cc65ae5ea8312e8f8137e1348afa7e212054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 12/56] fix: write decrypted content only after it was
 authenticated

msg.Decrypt wrote the content before the HMAC and the signature were verified,
so callers got manipulated plaintext.
---
 msg/decrypt.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 9549b5a..b06051e 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -461,9 +461,7 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		// create signature hash
 		contentHash = cipher.SHA512(ih.content)
 	}
-	if _, err := args.Writer.Write(ih.content); err != nil {
-		return "", "", log.Error(err)
-	}
+	content := ih.content
 
 	// continue HMAC calculation
 	if err := oh.write(mac, true); err != nil {
@@ -578,6 +576,11 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		return "", "", log.Error(ErrHMACsDiffer)
 	}
 
+	// message is authentic -> write content
+	if _, err := args.Writer.Write(content); err != nil {
+		return "", "", log.Error(err)
+	}
+
 	// delete message key
 	err = args.KeyStore.DelMessageKey(sessionKey, false, h.SenderMessageCount)
 	if err != nil {
-- 
2.43.0


From b30029ceef0a4f7bc6a71f97f0310e57daa600ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:55 +0000
Subject: [PATCH 13/56] fix: do not panic if the state of a known session is
 missing

Session keys and session state are stored in two steps; if the second one did
not happen, the next message of that session crashed the recipient.
---
 msg/decrypt.go | 3 +++
 msg/errors.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index b06051e..64f22b4 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -236,6 +236,9 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		}
 	} else { // session known
 		log.Debug("session known")
+		if ss == nil {
+			return "", "", log.Error(ErrNoSessionState)
+		}
 		// check if session state reflects that session
 		if h.RecipientTempHash == ss.SenderSessionPub.HASH &&
 			h.SenderSessionPub.HASH == ss.RecipientTemp.HASH {
diff --git a/msg/errors.go b/msg/errors.go
index dc3f9e1..d391192 100644
--- a/msg/errors.go
+++ b/msg/errors.go
@@ -45,6 +45,9 @@ var ErrInvalidSignature = errors.New("msg: signature invalid")
 // the sender named in the message header.
 var ErrWrongSenderUID = errors.New("msg: sender UID message does not match sender")
 
+// ErrNoSessionState is raised when a session is known, but its state is not.
+var ErrNoSessionState = errors.New("msg: session state missing")
+
 // ErrNotHMACPacket is raised when an HMAC packet was expected.
 var ErrNotHMACPacket = errors.New("msg: expected HMAC packet")
 
-- 
2.43.0


From 9e29a94b7d9095cb8341c4b34a94a010fc9b3c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 14/56] fix: refuse truncated key files

ReadKeyfile ignored short reads and then derived a wrong key from the zero
bytes in place of the missing ones.
---
 encdb/keyfile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encdb/keyfile.go b/encdb/keyfile.go
index de0e34a..3b4acb3 100644
--- a/encdb/keyfile.go
+++ b/encdb/keyfile.go
@@ -123,7 +123,7 @@ func ReadKeyfile(filename string, passphrase []byte) (key []byte, err error) {
 	defer keyfile.Close()
 	// read iter and convert to int
 	var biter = make([]byte, 8)
-	if _, err := keyfile.Read(biter); err != nil {
+	if _, err := io.ReadFull(keyfile, biter); err != nil {
 		return nil, err
 	}
 	uiter := encode.ToUint64(biter)
@@ -133,12 +133,12 @@ func ReadKeyfile(filename string, passphrase []byte) (key []byte, err error) {
 	iter := int(uiter)
 	// read salt
 	var salt = make([]byte, 32)
-	if _, err := keyfile.Read(salt); err != nil {
+	if _, err := io.ReadFull(keyfile, salt); err != nil {
 		return nil, err
 	}
 	// read encrypted key
 	var encKey = make([]byte, 16+32)
-	if _, err := keyfile.Read(encKey); err != nil {
+	if _, err := io.ReadFull(keyfile, encKey); err != nil {
 		return nil, err
 	}
 	// compute derived key from passphrase
-- 
2.43.0


From d1aaa0434e16fb314e0b1f177f9835572059500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 15/56] fix: flush key files before they replace the old one

replaceKeyfile renamed the new key file over the only copy of the database key
without syncing it and without looking at the error of Close. Key files are
also created for the owner only now.
---
 encdb/keyfile.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encdb/keyfile.go b/encdb/keyfile.go
index 3b4acb3..f7d4fd6 100644
--- a/encdb/keyfile.go
+++ b/encdb/keyfile.go
@@ -64,7 +64,7 @@ func writeKeyfile(filename string, passphrase []byte, iter int, key []byte) erro
 		return fmt.Errorf("encdb: writeKeyfile: len(key) != 32")
 	}
 	// create keyfile
-	keyfile, err := os.Create(filename)
+	keyfile, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
 	if err != nil {
 		return err
 	}
@@ -90,7 +90,11 @@ func writeKeyfile(filename string, passphrase []byte, iter int, key []byte) erro
 	if _, err := keyfile.Write(encKey); err != nil {
 		return err
 	}
-	return nil
+	// make sure key file has reached the disk before it is used
+	if err := keyfile.Sync(); err != nil {
+		return err
+	}
+	return keyfile.Close()
 }
 
 // generateKeyFile generates a key file with the given filename that contains a
-- 
2.43.0


From 02b99d9fcb29a8e60ec1681f2e44a75a2c876b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 16/56] fix: close the database if the key test fails in
 encdb.Open

---
 encdb/encdb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encdb/encdb.go b/encdb/encdb.go
index bb1dbb8..5859a38 100644
--- a/encdb/encdb.go
+++ b/encdb/encdb.go
@@ -161,6 +161,7 @@ func Open(dbname string, passphrase []byte) (*sql.DB, error) {
 	// test key
 	_, err = db.Exec("SELECT count(*) FROM sqlite_master;")
 	if err != nil {
+		db.Close()
 		return nil, err
 	}
 	return db, nil
-- 
2.43.0


From 162e703ce0cd64c86726b50089a78ec8e41c402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 17/56] fix: store further message keys under the session they
 belong to

When AddSession extended a session it took the ID of the last inserted row
(that is, of some message key) for the ID of the session.
---
 keydb/session.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/keydb/session.go b/keydb/session.go
index a28ab2e..2765838 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -36,35 +36,40 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error(err)
 	}
 
-	var res sql.Result
+	var sessionID int64
 	_, _, offset, err := keyDB.GetSession(sessionKey)
 	switch {
 	case err == sql.ErrNoRows:
 		// store new session
-		res, err = tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
+		res, err := tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
 			rootKeyHash, chainKey, len(send))
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
+		// get session ID
+		sessionID, err = res.LastInsertId()
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	case err != nil:
 		tx.Rollback()
 		return log.Error(err)
 	default:
 		// update session
-		res, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
+		_, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
 			offset+uint64(len(send)), sessionKey)
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
-	}
-
-	// get session ID
-	sessionID, err := res.LastInsertId()
-	if err != nil {
-		tx.Rollback()
-		return log.Error(err)
+		// get session ID
+		err = tx.Stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	}
 
 	// stores message keys
-- 
2.43.0


From 7cf9ec4764e09cc77c800ee62b2acd90338c95ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 18/56] fix: refuse empty authentication cookies in the local
 web app

---
 ctrlengine/app.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctrlengine/app.go b/ctrlengine/app.go
index cbc8fc3..0989fec 100644
--- a/ctrlengine/app.go
+++ b/ctrlengine/app.go
@@ -104,7 +104,7 @@ func (sh *staticHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	secret = auth.secret
 	auth.RUnlock()
 	// check that cookie has been set and equals random secret
-	if cookie.Value != "" && cookie.Value != secret {
+	if secret == "" || cookie.Value != secret {
 		http.Error(w, "invalid cookie value", http.StatusForbidden)
 		return
 	}
-- 
2.43.0


From 1aa3d9a31b97db7df91808c90ab2c05cbe1786a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 19/56] fix: check the passphrase of every login to the local
 web app

---
 ctrlengine/app.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ctrlengine/app.go b/ctrlengine/app.go
index 0989fec..e812f8f 100644
--- a/ctrlengine/app.go
+++ b/ctrlengine/app.go
@@ -5,6 +5,7 @@
 package ctrlengine
 
 import (
+	"crypto/subtle"
 	"fmt"
 	"html/template"
 	"io"
@@ -58,8 +59,15 @@ func (lh *loginHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusBadRequest)
 			return
 		}
-		passphrase := r.Form["passphrase"][0]
-		lh.ce.passphrase = []byte(passphrase)
+		passphrase := []byte(r.PostFormValue("passphrase"))
+		if lh.ce.msgDB == nil {
+			lh.ce.passphrase = passphrase
+		} else if subtle.ConstantTimeCompare(passphrase, lh.ce.passphrase) != 1 {
+			// the database is open already and prepare() will not check the
+			// passphrase again
+			http.Error(w, "invalid passphrase", http.StatusForbidden)
+			return
+		}
 		if err := lh.ce.prepare(lh.c, true, true); err != nil {
 			// TODO: allow to input passphrase again
 			http.Error(w, err.Error(), http.StatusForbidden)
-- 
2.43.0


From 6db2d890c312c54648b6eeab3bc8a21775eab0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 20/56] fix: wipe the passphrases read by db create and db
 rekey

---
 cryptengine/db.go | 10 +++++-----
 ctrlengine/db.go  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cryptengine/db.go b/cryptengine/db.go
index ec47338..e8d0942 100644
--- a/cryptengine/db.go
+++ b/cryptengine/db.go
@@ -23,7 +23,7 @@ func (ce *CryptEngine) dbCreate(homedir string, iterations int) error {
 	log.Infof("read passphrase from fd %d", ce.fileTable.PassphraseFD)
 	scanner := bufio.NewScanner(ce.fileTable.PassphraseFP)
 	var passphrase []byte
-	defer bzero.Bytes(passphrase)
+	defer func() { bzero.Bytes(passphrase) }()
 	if scanner.Scan() {
 		passphrase = scanner.Bytes()
 	} else if err := scanner.Err(); err != nil {
@@ -32,7 +32,7 @@ func (ce *CryptEngine) dbCreate(homedir string, iterations int) error {
 	// read passphrase again
 	log.Infof("read passphrase from fd %d again", ce.fileTable.PassphraseFD)
 	var passphrase2 []byte
-	defer bzero.Bytes(passphrase2)
+	defer func() { bzero.Bytes(passphrase2) }()
 	if scanner.Scan() {
 		passphrase2 = scanner.Bytes()
 	} else if err := scanner.Err(); err != nil {
@@ -54,7 +54,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	log.Infof("read old passphrase from fd %d", ce.fileTable.PassphraseFD)
 	scanner := bufio.NewScanner(ce.fileTable.PassphraseFP)
 	var oldPassphrase []byte
-	defer bzero.Bytes(oldPassphrase)
+	defer func() { bzero.Bytes(oldPassphrase) }()
 	if scanner.Scan() {
 		oldPassphrase = scanner.Bytes()
 	} else if err := scanner.Err(); err != nil {
@@ -63,7 +63,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	// read new passphrase
 	log.Infof("read new passphrase from fd %d", ce.fileTable.PassphraseFD)
 	var newPassphrase []byte
-	defer bzero.Bytes(newPassphrase)
+	defer func() { bzero.Bytes(newPassphrase) }()
 	if scanner.Scan() {
 		newPassphrase = scanner.Bytes()
 	} else if err := scanner.Err(); err != nil {
@@ -72,7 +72,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	// read new passphrase again
 	log.Infof("read new passphrase from fd %d again", ce.fileTable.PassphraseFD)
 	var newPassphrase2 []byte
-	defer bzero.Bytes(newPassphrase2)
+	defer func() { bzero.Bytes(newPassphrase2) }()
 	if scanner.Scan() {
 		newPassphrase2 = scanner.Bytes()
 	} else if err := scanner.Err(); err != nil {
diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index f1a3719..9d20787 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -92,8 +92,8 @@ func (ce *CtrlEngine) dbCreate(
 		passphrase2 []byte
 		err         error
 	)
-	defer bzero.Bytes(passphrase)
-	defer bzero.Bytes(passphrase2)
+	defer func() { bzero.Bytes(passphrase) }()
+	defer func() { bzero.Bytes(passphrase2) }()
 	isTerminal := terminal.IsTerminal(int(ce.fileTable.PassphraseFD))
 	if isTerminal {
 		passphrase, err = terminal.ReadPassword(int(ce.fileTable.PassphraseFD))
@@ -225,9 +225,9 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 		newPassphrase2 []byte
 		err            error
 	)
-	defer bzero.Bytes(oldPassphrase)
-	defer bzero.Bytes(newPassphrase)
-	defer bzero.Bytes(newPassphrase2)
+	defer func() { bzero.Bytes(oldPassphrase) }()
+	defer func() { bzero.Bytes(newPassphrase) }()
+	defer func() { bzero.Bytes(newPassphrase2) }()
 	isTerminal := terminal.IsTerminal(int(ce.fileTable.PassphraseFD))
 	if isTerminal {
 		oldPassphrase, err = terminal.ReadPassword(int(ce.fileTable.PassphraseFD))
-- 
2.43.0


From 616c0953630e51221bb45cbb7b8e869040c9425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 21/56] fix: add new contacts with the requested name and type

---
 ctrlengine/contact.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index a338049..8d41d12 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -252,16 +252,16 @@ func (ce *CtrlEngine) contactAdd(
 		return err
 	}
 	// check if contact is already known and white listed
-	unmappedID, fullName, contactType, err := ce.msgDB.GetContact(idMapped,
+	unmappedID, prevFullName, prevContactType, err := ce.msgDB.GetContact(idMapped,
 		contactMapped)
 	if err != nil {
 		return err
 	}
 	if unmappedID != "" {
 		log.Infof("contact already known -> make sure it is white listed")
-		if contactType != msgdb.WhiteList {
-			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
-				msgdb.WhiteList)
+		if prevContactType != msgdb.WhiteList {
+			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
+				prevFullName, msgdb.WhiteList)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 76c33bc9fad1a0b652082a4480ebc8454da07ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 22/56] fix: report errors of contact list and upkeep fetchconf

---
 ctrlengine/contact.go | 2 +-
 ctrlengine/upkeep.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index 8d41d12..3985856 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -226,7 +226,7 @@ func get(outfp io.Writer, msgDB *msgdb.MsgDB, id string, blocked bool) error {
 	// get list of mapped contacts
 	contacts, err := msgDB.GetContacts(id, blocked)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// print list
diff --git a/ctrlengine/upkeep.go b/ctrlengine/upkeep.go
index 692d141..cc2c376 100644
--- a/ctrlengine/upkeep.go
+++ b/ctrlengine/upkeep.go
@@ -117,7 +117,7 @@ func (ce *CtrlEngine) upkeepFetchconf(
 	fmt.Fprintf(statfp, "fetch config for '%s'\n", netDomain)
 	publicKey, err := hex.DecodeString(pubkeyStr)
 	if err != nil {
-		log.Error(err)
+		return log.Error(err)
 	}
 	ce.config.PublicKey = publicKey
 	ce.config.URLList = "10," + configURL
-- 
2.43.0


From 7c9a56b8cb2fa650431bc72cfb3c3c44ac16eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 23/56] fix: check the types in replies of serviceguard servers

---
 serviceguard/client/guardrpc/client.go  | 32 ++++++++++++++-----------
 serviceguard/client/keylookup/impl.go   | 20 +++++++++-------
 serviceguard/client/walletrpc/client.go |  3 +++
 3 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/serviceguard/client/guardrpc/client.go b/serviceguard/client/guardrpc/client.go
index 0a8908c..3efce00 100644
--- a/serviceguard/client/guardrpc/client.go
+++ b/serviceguard/client/guardrpc/client.go
@@ -74,8 +74,8 @@ func (rpc RPCclient) GetParams(pubKey *[ed25519.PublicKeySize]byte) ([]byte, err
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -97,8 +97,8 @@ func (rpc RPCclient) GetParamsInternal(pubKey *[ed25519.PublicKeySize]byte) ([]b
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -120,8 +120,8 @@ func (rpc RPCclient) Spend(pubKey *[ed25519.PublicKeySize]byte, packet []byte) (
 	if err != nil {
 		return false, err
 	}
-	if _, ok := data["Status"]; ok {
-		return data["Status"].(bool), nil
+	if status, ok := data["Status"].(bool); ok {
+		return status, nil
 	}
 	return false, ErrParams
 }
@@ -139,17 +139,19 @@ func (rpc RPCclient) Reissue(pubKey *[ed25519.PublicKeySize]byte, packet []byte)
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	packetEnc, ok := data["Packet"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	pubkeyUsedEnc, ok := data["PubkeyUsed"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	retpacket, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	retpacket, err := base64.StdEncoding.DecodeString(packetEnc)
 	if err != nil {
 		return nil, nil, err
 	}
-	pubkeyUsed, err := base64.StdEncoding.DecodeString(data["PubkeyUsed"].(string))
+	pubkeyUsed, err := base64.StdEncoding.DecodeString(pubkeyUsedEnc)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -176,17 +178,19 @@ func (rpc RPCclient) Issue(pubKey, owner *[ed25519.PublicKeySize]byte) ([]byte,
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	packetEnc, ok := data["Packet"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	pubkeyUsedEnc, ok := data["PubkeyUsed"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	packet, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	packet, err := base64.StdEncoding.DecodeString(packetEnc)
 	if err != nil {
 		return nil, nil, err
 	}
-	pubkeyUsed, err := base64.StdEncoding.DecodeString(data["PubkeyUsed"].(string))
+	pubkeyUsed, err := base64.StdEncoding.DecodeString(pubkeyUsedEnc)
 	if err != nil {
 		return nil, nil, err
 	}
diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 7dd6d00..fdc5af0 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -75,8 +75,8 @@ func (klc LookupClient) getKey(keyid []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Key"]; ok {
-		keyMarshalled, err := base64.StdEncoding.DecodeString(data["Key"].(string))
+	if key, ok := data["Key"].(string); ok {
+		keyMarshalled, err := base64.StdEncoding.DecodeString(key)
 		if err != nil {
 			return nil, err
 		}
@@ -119,16 +119,19 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["PublicKey"]; !ok {
+	pubKeyEnc, ok := data["PublicKey"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["Signature"]; !ok {
+	signatureEnc, ok := data["Signature"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["KeyList"]; !ok {
+	keylist, ok := data["KeyList"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	pubKey, err := hex.DecodeString(data["PublicKey"].(string))
+	pubKey, err := hex.DecodeString(pubKeyEnc)
 	if err != nil {
 		return nil, ErrParams
 	}
@@ -137,12 +140,11 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 		return nil, ErrBadSigner
 	}
 
-	signature, err := hex.DecodeString(data["Signature"].(string))
+	signature, err := hex.DecodeString(signatureEnc)
 	if err != nil {
 		return nil, ErrParams
 	}
-	keylist := data["KeyList"].(string)
-	ok := ed25519.Verify(klc.PubKey[:], []byte(keylist), signature)
+	ok = ed25519.Verify(klc.PubKey[:], []byte(keylist), signature)
 	if !ok {
 		return nil, ErrBadSignature
 	}
diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 6c88877..71c503c 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -162,6 +162,9 @@ func (wc WalletClient) getToken(usage string, authtoken []byte) (token, params,
 	if _, ok := data["Params"].(string); !ok {
 		return nil, nil, nil, 0, ErrParams
 	}
+	if _, ok := data["PubKeyUsed"].(string); !ok {
+		return nil, nil, nil, 0, ErrParams
+	}
 	token, err = base64.StdEncoding.DecodeString(data["Token"].(string))
 	if err != nil {
 		return nil, nil, nil, 0, ErrParams
-- 
2.43.0


From 5af600428f68e30e8ad428c6a069147af8da8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 24/56] fix: do not panic on short errors in
 walletauth.IsReplay

---
 serviceguard/common/walletauth/walletauth.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serviceguard/common/walletauth/walletauth.go b/serviceguard/common/walletauth/walletauth.go
index 0144fc1..8ad2c4e 100644
--- a/serviceguard/common/walletauth/walletauth.go
+++ b/serviceguard/common/walletauth/walletauth.go
@@ -13,6 +13,7 @@ import (
 	"errors"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/mutecomm/mute/util/times"
 )
@@ -80,7 +81,7 @@ func (token AuthToken) Hash() []byte {
 // update error and LastCounter.
 // If err is no replay error, the original error is returned.
 func IsReplay(err error) (uint64, error) {
-	if err.Error()[:len("ErrReplay: ")] == "ErrReplay: " {
+	if strings.HasPrefix(err.Error(), "ErrReplay: ") {
 		counter := err.Error()[len("ErrReplay: "):]
 		LastCounter, err := strconv.ParseInt(counter, 10, 64)
 		if err == nil {
-- 
2.43.0


From bef042a5542b152b796681caf3fe86d17b17eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 25/56] fix: never create authentication tokens without
 randomness

---
 serviceguard/common/walletauth/walletauth.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serviceguard/common/walletauth/walletauth.go b/serviceguard/common/walletauth/walletauth.go
index 8ad2c4e..01a3923 100644
--- a/serviceguard/common/walletauth/walletauth.go
+++ b/serviceguard/common/walletauth/walletauth.go
@@ -44,7 +44,9 @@ func CreateToken(pubkey *[ed25519.PublicKeySize]byte, privkey *[ed25519.PrivateK
 	now := uint64(times.Now()) / SkewWindow
 	token := make([]byte, TokenSize)
 	copy(token[:32], pubkey[:])
-	io.ReadFull(Rand, token[32:64])
+	if _, err := io.ReadFull(Rand, token[32:64]); err != nil {
+		panic(err)
+	}
 	binary.BigEndian.PutUint64(token[64:72], now)
 	binary.BigEndian.PutUint64(token[72:80], counter)
 	sig := ed25519.Sign(privkey[:], token[:80])
-- 
2.43.0


From 1ebc1b89716797bb2ea202aa160a25dd74ccabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 26/56] fix: refuse reissued tokens with an invalid signature

---
 serviceguard/client/packetproto/methods.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 0eb6da2..becdca5 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -23,6 +23,8 @@ var (
 	ErrMissingSigner = errors.New("client: signer missing but required")
 	// ErrParamMismatch signals that a token and parameters do not match
 	ErrParamMismatch = errors.New("client: parameters do not match token")
+	// ErrBadSignature signals that the signature of a reissued token is invalid
+	ErrBadSignature = errors.New("client: bad signature of reissued token")
 )
 
 var zeroOwner = [ed25519.PublicKeySize]byte{0x00}
@@ -147,15 +149,21 @@ func (c Client) Unblind(storeLocal *types.ReissuePacketPrivate, signature []byte
 	}
 	clearMessage := jjm.NewClearMessage(token.Hash())
 	blindSig, err := jjm.NewBlindSignature(&pubkey.PublicKey).Unmarshal(signature)
+	if err != nil {
+		return nil, err
+	}
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.Curve)
 	sig, _, err := blindClient.Unblind(params, clearMessage, blindSig)
 	if err != nil {
 		return nil, err
 	}
-	_, err = blindClient.Verify(sig, clearMessage)
+	ok, err := blindClient.Verify(sig, clearMessage)
 	if err != nil {
 		return nil, err
 	}
+	if !ok {
+		return nil, ErrBadSignature
+	}
 	t := sig.(jjm.ClearSignature)
 	token.AddSignature(&t)
 	return token.Marshal()
-- 
2.43.0


From 8f22f849f6f23b9a1a0198a48b0c13fff1da4c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 27/56] fix: lock the key pool exclusively if lookups can
 change it

---
 serviceguard/common/keypool/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 80f518b..9bc0f3f 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -102,8 +102,9 @@ func (kp *KeyPool) HasVerifyKey(key *[ed25519.PublicKeySize]byte, nolock bool) b
 
 // Lookup a public key from keypool.
 func (kp *KeyPool) Lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
-	kp.mapMutex.RLock()
-	defer kp.mapMutex.RUnlock()
+	// lookups can load keys into the pool -> exclusive lock
+	kp.mapMutex.Lock()
+	defer kp.mapMutex.Unlock()
 	key, err := kp.lookup(keyid)
 	if err == ErrNotFound && kp.FetchKeyCallBack != nil {
 		// Use fetchkey callback
-- 
2.43.0


From 217541126cb7240b2344fdb3c4abf2334a40be1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 28/56] fix: do not reissue tokens that could not be locked

---
 serviceguard/client/reissue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index a177816..0cd42b0 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -26,7 +26,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	defer onlineGroup.Done()
 	// Lock token against other use
 	lockID := c.LockToken(tokenHash)
-	if lockID == 0 {
+	if lockID <= 0 {
 		c.LastError = ErrLocked
 		return nil, ErrRetry
 	}
-- 
2.43.0


From 6922b2e14691c6c3972a9301d4e743ed9d3978d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:58 +0000
Subject: [PATCH 29/56] fix: do not panic on token reissue without new owner

---
 serviceguard/client/reissue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 0cd42b0..4190014 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -88,6 +88,8 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 				c.LastError = err
 				return nil, ErrFatal
 			}
+			ownerPubkey = new([ed25519.PublicKeySize]byte)
+			ownerPrivkey = new([ed25519.PrivateKeySize]byte)
 			copy(ownerPubkey[:], pk)
 			copy(ownerPrivkey[:], sk)
 			tokenEntry.NewOwnerPrivKey = ownerPrivkey
-- 
2.43.0


From 46151a4fc60e4a2b0141b3fa66020a2958114b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 30/56] fix: delete reissued tokens only after their
 replacement was stored

---
 serviceguard/client/reissue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 4190014..d18454c 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -125,7 +125,6 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		}
 		return nil, ErrRetry
 	}
-	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, it's invalid from here
 	// Parse new pubkey and add to keypool
 	signerPubKey, err := new(signkeys.PublicKey).Unmarshal(newPubkey)
 	if err != nil {
@@ -177,5 +176,8 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	// Delete old token only now: if anything above fails the reissue can be
+	// finished later with the stored server packet and blinding factors
+	c.walletStore.DelToken(tokenEntry.Hash)
 	return tokenentryNew.Hash, nil
 }
-- 
2.43.0


From 9c184e1288fe54770acf2f3dc1e4794f7dc519a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 31/56] fix: report wallet store failures in GetToken

---
 serviceguard/client/clientlib.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 729d95e..16b4e35 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -197,6 +197,9 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 			c.LastError = err
 			return nil, ErrFatal
 		}
+	} else if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
 	}
 	return retToken, nil
 }
-- 
2.43.0


From b1255a910ed28060649bbbe1e7e983506a87ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 32/56] fix: do not panic on received tokens without owner

---
 serviceguard/client/receive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index f69dbcf..24c4353 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -16,7 +16,7 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 		return ErrFinal
 	}
 	pubkey, _ := splitKey(c.walletKey)
-	if *tokenEntry.OwnerPubKey != *pubkey {
+	if tokenEntry.OwnerPubKey == nil || *tokenEntry.OwnerPubKey != *pubkey {
 		c.LastError = ErrOwnerToken
 		return ErrFinal
 	}
-- 
2.43.0


From 5d0777a30cccfdb773ddf7ed9191d3c54334920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 33/56] fix: report received tokens that could not be stored

---
 serviceguard/client/receive.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index 24c4353..d7bbe77 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -22,7 +22,10 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 	}
 	retToken, err := c.walletStore.GetToken(tokenEntry.Hash, -1)
 	if err != nil || retToken == nil {
-		c.walletStore.SetToken(*tokenEntry)
+		if err := c.walletStore.SetToken(*tokenEntry); err != nil {
+			c.LastError = err
+			return ErrFatal
+		}
 		return nil
 	}
 	c.LastError = ErrTokenKnown
-- 
2.43.0


From 8bf0214e6dfa257e881127598e0ae2c99eac90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 34/56] fix: release the runner lock if the runner is running
 already

---
 serviceguard/client/runner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serviceguard/client/runner.go b/serviceguard/client/runner.go
index 911eb5f..f1cdea8 100644
--- a/serviceguard/client/runner.go
+++ b/serviceguard/client/runner.go
@@ -28,6 +28,7 @@ func (c *Client) runner() {
 	// Prevent double-start
 	runnerLock.Lock()
 	if c.runnerRunning {
+		runnerLock.Unlock()
 		return
 	}
 	c.runnerRunning = true
-- 
2.43.0


From a3a9ec5e9e266129766945c437b16738911024e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 35/56] fix: keep token locks that are held by others

---
 serviceguard/client/walletstore/store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 1f65653..932aa9c 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -54,7 +54,7 @@ CREATE TABLE IF NOT EXISTS walletState (
 	setStateQuery       = `INSERT INTO walletState (Hash, State) VALUES (?,?);`
 	setStateUpdateQuery = `UPDATE walletState SET State=? WHERE Hash=?;`
 	cleanLocksQuery     = "UPDATE walletTokens SET LockTime=0, LockID=0 WHERE LockTime!=0 AND LockTime<?;"
-	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0 OR LockID=?;"
+	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND (LockID=0 OR LockID=?);"
 	unlockQuery         = "UPDATE walletTokens SET LockID=0,LockTime=0 WHERE Hash=?;"
 	deleteTokenQuery    = "DELETE FROM walletTokens WHERE Hash=?;"
 	deleteStateQuery    = "DELETE FROM walletState WHERE Hash=?;"
@@ -207,7 +207,7 @@ func (ws *Storage) initDB() (err error) {
 
 // CleanLocks cleans all locks. If force is true all locks are removed, not only expired locks
 func (ws *Storage) CleanLocks(force bool) {
-	locktime := times.Now() + MaxLockAge
+	locktime := times.Now() - MaxLockAge
 	if force {
 		locktime = int64(^uint32(0)) // MaxUInt32
 	}
-- 
2.43.0


From 341741718b71952e4b0eeb5e20dbd14fec810680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 36/56] fix: read the stored wallet cache

---
 serviceguard/client/walletstore/store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 932aa9c..9e4d80c 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -321,10 +321,10 @@ func (ws *Storage) writeCache() error {
 
 // readCache reads the cache from the database
 func (ws *Storage) readCache() {
-	var data string
+	var hash, data string
 	ws.cacheMutex.Lock()
 	defer ws.cacheMutex.Unlock()
-	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&data)
+	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&hash, &data)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 1829398c19f9fb8849d24923f5555c80f3df6b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 37/56] fix: change the wallet cache only under the exclusive
 lock

---
 serviceguard/client/walletstore/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 9e4d80c..30b311e 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -354,13 +354,16 @@ func (ws *Storage) GetVerifyKeys() [][ed25519.PublicKeySize]byte {
 		ws.readCache()
 		ws.cacheMutex.RLock()
 	}
+	ws.cacheMutex.RUnlock()
+	// the cache can be changed below -> exclusive lock
+	ws.cacheMutex.Lock()
+	defer ws.cacheMutex.Unlock()
 	if ws.cache == nil {
 		ws.cache = new(CacheData)
 	}
 	if ws.cache.VerifyKeys == nil {
 		ws.cache.VerifyKeys = make([][ed25519.PublicKeySize]byte, 0)
 	}
-	defer ws.cacheMutex.RUnlock()
 	return ws.cache.VerifyKeys
 }
 
-- 
2.43.0


From fefb98f68d6abb296ddded4f8aff1f81339dd0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 38/56] fix: store wallet tokens and their state atomically

---
 serviceguard/client/walletstore/store.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 30b311e..9fe393f 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -217,12 +217,17 @@ func (ws *Storage) CleanLocks(force bool) {
 // SetToken writes a token to the walletstore. repeated calls update the entry of tokenEntry.Hash is the same
 func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 	global, state := encodeToken(&tokenEntry)
-	_, err := ws.setTokenQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+	tx, err := ws.DB.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback() // no effect after commit
+	_, err = tx.Stmt(ws.setTokenQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 		global.OwnerPrivKey, global.Renewable, global.CanReissue,
 		global.Usage, global.Expire, global.OwnedSelf,
 		global.HasParams, global.HasState)
 	if err != nil {
-		_, err := ws.setTokenUpdateQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+		_, err := tx.Stmt(ws.setTokenUpdateQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 			global.OwnerPrivKey, global.Renewable, global.CanReissue,
 			global.Usage, global.Expire, global.OwnedSelf,
 			global.HasParams, global.HasState, global.Hash)
@@ -231,15 +236,15 @@ func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 		}
 	}
 	if len(state) > 0 {
-		_, err = ws.setStateQuery.Exec(global.Hash, state)
+		_, err = tx.Stmt(ws.setStateQuery).Exec(global.Hash, state)
 		if err != nil {
-			_, err = ws.setStateUpdateQuery.Exec(state, global.Hash)
+			_, err = tx.Stmt(ws.setStateUpdateQuery).Exec(state, global.Hash)
 			if err != nil {
 				return err
 			}
 		}
 	}
-	return nil
+	return tx.Commit()
 }
 
 // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked)
-- 
2.43.0


From f3924640c5a7d9e45612b89979a90e4ae723c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 39/56] fix: delete wallet tokens and their state atomically

---
 serviceguard/client/walletstore/store.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 9fe393f..9cf4044 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -277,8 +277,18 @@ func (ws *Storage) GetToken(tokenHash []byte, lockID int64) (tokenEntry *client.
 // DelToken deletes the token identified by tokenHash
 func (ws *Storage) DelToken(tokenHash []byte) {
 	tokenHashS := hex.EncodeToString(tokenHash)
-	ws.deleteTokenQuery.Exec(tokenHashS)
-	ws.deleteStateQuery.Exec(tokenHashS)
+	tx, err := ws.DB.Begin()
+	if err != nil {
+		return
+	}
+	defer tx.Rollback() // no effect after commit
+	if _, err := tx.Stmt(ws.deleteTokenQuery).Exec(tokenHashS); err != nil {
+		return
+	}
+	if _, err := tx.Stmt(ws.deleteStateQuery).Exec(tokenHashS); err != nil {
+		return
+	}
+	tx.Commit()
 }
 
 func getLockID() int64 {
-- 
2.43.0


From c2938eafc3552ca77991d7ecbb863b7ed6971603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 40/56] fix: unlock the token of a message that could not be
 created

---
 ctrlengine/msg.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 79fe5b0..846dab9 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -292,7 +292,7 @@ func (ce *CtrlEngine) procOutQueue(
 			// parse nymaddress
 			na, err := base64.Decode(nymaddress)
 			if err != nil {
-				return log.Error(na)
+				return log.Error(err)
 			}
 			addr, err := nymaddr.ParseAddress(na)
 			if err != nil {
@@ -309,6 +309,7 @@ func (ce *CtrlEngine) procOutQueue(
 			env, err := muteprotoCreate(c, msg, minDelay, maxDelay,
 				base64.Encode(token.Token), nymaddress)
 			if err != nil {
+				ce.client.UnlockToken(token.Hash)
 				return log.Error(err)
 			}
 			// update outqueue
-- 
2.43.0


From c03fd25ae1bd0c014d982abde4f114e8d283b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 41/56] fix: mark fetched messages as known only after they
 were stored

---
 ctrlengine/msg.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 846dab9..fda95f9 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -574,13 +574,9 @@ func muteprotoFetch(
 			}
 			break
 		} else {
-			// message unknown -> fetch it and add messageID to cache
+			// message unknown -> fetch it
 			log.Debug("write: NEXT")
 			fmt.Fprintln(cmdW, "NEXT")
-			err := msgDB.AddMessageIDCache(myID, contactID, messageID)
-			if err != nil {
-				return 0, log.Error(err)
-			}
 		}
 		// read message
 		stop := make(chan uint64)
@@ -635,6 +631,11 @@ func muteprotoFetch(
 		if err != nil {
 			return 0, err
 		}
+		// message is stored -> add messageID to cache
+		err = msgDB.AddMessageIDCache(myID, contactID, messageID)
+		if err != nil {
+			return 0, log.Error(err)
+		}
 		if firstMessage {
 			newMessageTime = receiveTime
 			firstMessage = false
-- 
2.43.0


From 97071bd217c691222daf0ebea50da09df092e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 42/56] fix: pay accounts at their server

---
 mix/client/accountrpc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index edb2772..437a146 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -49,8 +49,8 @@ func payAccount(authtoken, paytoken []byte, serverKnown string, cacert []byte) (
 	var ok bool
 	method := "AccountServer.LoadAccount"
 	url := DefaultAccountServer
-	if server != "" {
-		url = server
+	if serverKnown != "" {
+		url = serverKnown
 	}
 	url = "https://" + url + ":" + RPCPort + "/account"
 	client, err := DefaultClientFactory(url, cacert)
-- 
2.43.0


From 59425d531bc6ebbeaecf5a03c3d1ca25fe490593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 43/56] fix: refuse malformed message lists

---
 mix/client/accountrpc.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index 437a146..e3f958c 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -252,43 +252,40 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 	}
 	if len(messagesI) > 0 {
 		for _, e := range messagesI {
-			x := e.(map[string]interface{})
-
+			x, ok := e.(map[string]interface{})
+			if !ok {
+				return nil, 0, ErrProto
+			}
 			ReceiveTime, ok := x["ReceiveTime"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			ReceiveTimeNano, ok := x["ReceiveTimeNano"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			ReadTime, ok := x["ReadTime"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			uks, ok := x["UserKey"].(string)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			uk, err := hex.DecodeString(uks)
 			if err != nil {
-				break
+				return nil, 0, err
 			}
 			ukh := new([ed25519.PublicKeySize]byte)
 			copy(ukh[:], uk)
 
 			mis, ok := x["MessageID"].(string)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			mi, err := hex.DecodeString(mis)
 			if err != nil {
-				break
+				return nil, 0, err
 			}
 			messages = append(messages, MessageMeta{
 				MessageID:       mi,
@@ -298,9 +295,6 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 				UserKey:         *ukh,
 			})
 		}
-		if err != nil {
-			return nil, 0, err
-		}
 	}
 	return messages, 0, nil
 }
-- 
2.43.0


From d242599a08d2d4e47a96faf124aef241cdf7d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 44/56] fix: close response bodies on all paths

---
 mix/client/mixrpc.go          | 4 ++--
 util/jsonclient/jsonclient.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mix/client/mixrpc.go b/mix/client/mixrpc.go
index 3dfd624..8ff7b52 100644
--- a/mix/client/mixrpc.go
+++ b/mix/client/mixrpc.go
@@ -53,11 +53,11 @@ func HTTPSGet(getURL string, cacert []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, err
 	}
-	resp.Body.Close()
 	return body, nil
 }
 
@@ -68,11 +68,11 @@ func HTTPSPost(postValues url.Values, postURL string, cacert []byte) ([]byte, er
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, err
 	}
-	resp.Body.Close()
 	return body, nil
 }
 
diff --git a/util/jsonclient/jsonclient.go b/util/jsonclient/jsonclient.go
index 4b499ac..4b8ef61 100644
--- a/util/jsonclient/jsonclient.go
+++ b/util/jsonclient/jsonclient.go
@@ -72,11 +72,11 @@ func (c *URLClient) JSONRPCRequest(method string, args interface{}) (map[string]
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 	reply := make(map[string]interface{})
 	err = json2.DecodeClientResponse(resp.Body, &reply)
 	if err != nil {
 		return nil, err
 	}
-	resp.Body.Close()
 	return reply, nil
 }
-- 
2.43.0


From 4bd26fcc66399584bc80c3a66634333b089e85a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 45/56] fix: do not panic on malformed mix messages

---
 mix/mixcrypt/clientmix.go | 15 +++++++++++----
 mix/mixcrypt/common.go    |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 85cb65a..b635bad 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -64,6 +64,9 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 		cl = new(ClientMixHeader)
 	}
 	lenB := binary.BigEndian.Uint16(d[0:2]) + 2
+	if lenB < 2 {
+		return nil, 0, ErrSize // length overflow
+	}
 	if len(d) < int(lenB) {
 		return nil, lenB, ErrTooShort
 	}
@@ -71,10 +74,10 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 	if err != nil {
 		return nil, lenB, err
 	}
-	if cl.Token[0] == 0x00 && len(cl.Token) == 1 {
+	if len(cl.Token) == 1 && cl.Token[0] == 0x00 {
 		cl.Token = nil
 	}
-	if (cl.RevokeID[0] == 0x00 && len(cl.RevokeID) == 1) || cl.MessageType == MessageTypeForward {
+	if (len(cl.RevokeID) == 1 && cl.RevokeID[0] == 0x00) || cl.MessageType == MessageTypeForward {
 		cl.RevokeID = nil
 	}
 	return cl, lenB, nil
@@ -136,6 +139,9 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	if err != nil {
 		return nil, err
 	}
+	if rstr.MixHeader.MessageType != MessageTypeRelay && rstr.MixHeader.MessageType != MessageTypeForward {
+		return nil, ErrMessageType
+	}
 	// Test Size
 	msgLen := len(decMessage) - int(lenB)
 	if rstr.MixHeader.MessageType == MessageTypeRelay && (msgLen < RelayMinSize || msgLen > RelayMaxSize) {
@@ -145,6 +151,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	if rstr.MixHeader.MessageType == MessageTypeForward && (msgLen < ForwardMinSize || msgLen > ForwardMaxSize) {
 		return nil, ErrSize
 	}
+	start := int(lenB)
 	// Uniqueness data collection
 	if rstr.MixHeader.MessageType == MessageTypeRelay {
 		rstr.NymAddress, err = nymaddr.ParseAddress(rstr.MixHeader.Address)
@@ -158,7 +165,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 		// First 256byte of message
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: rstr.NymAddressPrivate.Expire,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[start : start+256]), // First 256 byte of message
 		})
 		if rstr.NymAddressPrivate.SingleUse {
 			rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
@@ -169,7 +176,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	} else {
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: timeNow() + ExpireReceive,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[start : start+256]), // First 256 byte of message
 		})
 	}
 	rstr.Message = decMessage[lenB:]
diff --git a/mix/mixcrypt/common.go b/mix/mixcrypt/common.go
index 5cb7caf..84abcb1 100644
--- a/mix/mixcrypt/common.go
+++ b/mix/mixcrypt/common.go
@@ -33,6 +33,8 @@ var (
 	ErrSize = errors.New("mixcrypt: message out of bounds")
 	// ErrBadSystem is returned if a message for a wrong system was received
 	ErrBadSystem = errors.New("mixcrypt: bad system")
+	// ErrMessageType is returned if a message of unknown type was received
+	ErrMessageType = errors.New("mixcrypt: unknown message type")
 )
 
 // MuteSystemDomain is the domain of the Mute System.
-- 
2.43.0


From 10469c38563f77f15e7028dc81252243baf2725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 46/56] fix: do not panic if the randomness for a revoke ID is
 missing

---
 mix/mixcrypt/clientmix.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index b635bad..e5792d4 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -111,7 +111,10 @@ func (cl *ClientMixHeader) NewRelayMessage(NymAddress []byte, msg []byte) (messa
 	copy(NextHopKey[:], address.MixPubKey)
 	cl.MessageType = MessageTypeRelay
 	cl.Address = NymAddress
-	revokeID, _ := genNonce()
+	revokeID, err := genNonce()
+	if err != nil {
+		return nil, "", err
+	}
 	cl.RevokeID = revokeID[:]
 	header := cl.Marshal()
 	messageC := make([]byte, len(header)+len(msg))
-- 
2.43.0


From 49d62f30f681ad236b4017a7b0092eb13a9bff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 47/56] fix: do not panic on short account server names

---
 util/nymaddr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/nymaddr.go b/util/nymaddr.go
index fc766e2..93da631 100644
--- a/util/nymaddr.go
+++ b/util/nymaddr.go
@@ -7,6 +7,7 @@ package util
 import (
 	"crypto/ed25519"
 	"encoding/hex"
+	"strings"
 
 	"github.com/mutecomm/mute/cipher"
 	"github.com/mutecomm/mute/encode/base64"
@@ -25,7 +26,7 @@ var MixAddress string
 // MailboxAddress returns the mailbox address for the given pubkey and server.
 func MailboxAddress(pubkey *[ed25519.PublicKeySize]byte, server string) []byte {
 	return []byte(hex.EncodeToString(pubkey[:]) + "@" +
-		server[:len(server)-len(mixcrypt.MuteSystemDomain)])
+		strings.TrimSuffix(server, mixcrypt.MuteSystemDomain))
 }
 
 // NewNymAddress generates a new nym address.
-- 
2.43.0


From 9459328ea80a955fbc3b785ca034eefa1dad891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 48/56] fix: try all config servers on every update

---
 configclient/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/configclient/client.go b/configclient/client.go
index 8ec5d35..ee28aa1 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -59,6 +59,7 @@ func (c *Config) Update() error {
 	ts := roundrobin.ParseServers(c.URLList)
 	sort.Sort(ts)
 	c.servers = ts.Order()
+	c.curServer = 0
 	if len(c.servers) < 1 {
 		return ErrNoServers
 	}
-- 
2.43.0


From 5809e7e87bdc869308e605655e5ad0a23c692765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 49/56] fix: keep the CA certificate if a new one cannot be
 fetched

---
 configclient/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/configclient/client.go b/configclient/client.go
index ee28aa1..f8a4acd 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -96,8 +96,10 @@ GetConfigLoop:
 	if !bytes.Equal(myCAhash, certHashb) {
 	CALoop:
 		for ; c.curServer < len(c.servers); c.curServer++ {
-			c.CACert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
+			var caCert []byte
+			caCert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
 			if err == nil {
+				c.CACert = caCert
 				break CALoop
 			}
 		}
-- 
2.43.0


From 35b1b755347fbed12dabc9e45cc8c3527fe05541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 50/56] fix: refuse CA certificates that are not PEM-encoded

---
 configclient/cahash/hash.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index f3c436c..9fbd77c 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -9,11 +9,15 @@ import (
 	"crypto/sha512"
 	"crypto/x509"
 	"encoding/pem"
+	"errors"
 )
 
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
 	block, _ := pem.Decode(cert)
+	if block == nil {
+		return nil, errors.New("cahash: certificate is not PEM-encoded")
+	}
 	_, err := x509.ParseCertificates(block.Bytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4369b11fc11b643058d69adb4b7fb327c1bb9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 51/56] fix: keydb: report keys which could not be written to
 storage

---
 serviceguard/common/keypool/keydb/dbstorage.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/serviceguard/common/keypool/keydb/dbstorage.go b/serviceguard/common/keypool/keydb/dbstorage.go
index 2bde807..47ed28f 100644
--- a/serviceguard/common/keypool/keydb/dbstorage.go
+++ b/serviceguard/common/keypool/keydb/dbstorage.go
@@ -130,8 +130,11 @@ func (kd *KeyDB) writeFunc() keypool.WriteKeyCallbackFunc {
 		id := hex.EncodeToString(keyid)
 		marshalled := base64.StdEncoding.EncodeToString(marshalledKey)
 		_, err := kd.insertQuery.Exec(id, usage, marshalled)
-		if err == nil {
-			return err
+		if err != nil {
+			// a key that is already stored is not an error
+			if _, ferr := kd.Fetch(keyid); ferr != nil {
+				return err
+			}
 		}
 		return nil
 	}
-- 
2.43.0


From 2ec9e4e2ea3fba2d68eabc94a8135636dc11bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:16 +0000
Subject: [PATCH 52/56] fix: keydb: close rows and report iteration errors when
 loading keys

---
 serviceguard/common/keypool/keydb/dbstorage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serviceguard/common/keypool/keydb/dbstorage.go b/serviceguard/common/keypool/keydb/dbstorage.go
index 47ed28f..5c8e0a8 100644
--- a/serviceguard/common/keypool/keydb/dbstorage.go
+++ b/serviceguard/common/keypool/keydb/dbstorage.go
@@ -170,6 +170,7 @@ func (kd *KeyDB) loadFunc() keypool.LoadKeysCallbackFunc {
 		if err != nil {
 			return err
 		}
+		defer rows.Close()
 		for rows.Next() {
 			var KeyData string
 			err := rows.Scan(&KeyData)
@@ -186,6 +187,6 @@ func (kd *KeyDB) loadFunc() keypool.LoadKeysCallbackFunc {
 			}
 			keypool.LoadKey(loadKey) // ignore errors
 		}
-		return nil
+		return rows.Err()
 	}
 }
-- 
2.43.0


From b78f2ce20456057e914d126c934dc9cd2dfd0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 53/56] fix: keypool: do not copy the key pool without holding
 its lock

---
 serviceguard/common/keypool/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 9bc0f3f..e0ee4eb 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -80,7 +80,7 @@ func (kp *KeyPool) AddVerifyKey(key *[ed25519.PublicKeySize]byte) {
 }
 
 // ListVerifyKeys lists all known verification keys.
-func (kp KeyPool) ListVerifyKeys() [][ed25519.PublicKeySize]byte {
+func (kp *KeyPool) ListVerifyKeys() [][ed25519.PublicKeySize]byte {
 	kp.mapMutex.Lock()
 	defer kp.mapMutex.Unlock()
 	ret := make([][ed25519.PublicKeySize]byte, 0, len(kp.VerifyPubKeys))
@@ -139,14 +139,14 @@ func (kp *KeyPool) lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey,
 }
 
 // SaveKey writes keyid to the keydir
-func (kp KeyPool) SaveKey(keyid [signkeys.KeyIDSize]byte) error {
+func (kp *KeyPool) SaveKey(keyid [signkeys.KeyIDSize]byte) error {
 	kp.mapMutex.RLock()
 	defer kp.mapMutex.RUnlock()
 	return kp.SaveKeyUnsafe(keyid)
 }
 
 // SaveKeyUnsafe writes keyid to the keydir. Unsafe. No mutex. Only within callbacks.
-func (kp KeyPool) SaveKeyUnsafe(keyid [signkeys.KeyIDSize]byte) error {
+func (kp *KeyPool) SaveKeyUnsafe(keyid [signkeys.KeyIDSize]byte) error {
 	key, err := kp.lookup(keyid)
 	if err != nil {
 		return err
@@ -234,7 +234,7 @@ func (kp *KeyPool) Load() error {
 }
 
 // WriteKey calls the write callback chain to write keys to storage
-func (kp KeyPool) WriteKey(key *signkeys.PublicKey) error {
+func (kp *KeyPool) WriteKey(key *signkeys.PublicKey) error {
 	// Write currentKey to file
 	data, err := key.Marshal()
 	if err != nil {
-- 
2.43.0


From 31ba85e8e08b8cd8391b1a3afd17a0bbb5443197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:04 +0000
Subject: [PATCH 54/56] fix: mixaddr: do not copy the key list without holding
 its lock

---
 mix/mixaddr/privkey.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/mixaddr/privkey.go b/mix/mixaddr/privkey.go
index 5ef2b9f..a573bd3 100644
--- a/mix/mixaddr/privkey.go
+++ b/mix/mixaddr/privkey.go
@@ -119,13 +119,13 @@ func (kl *KeyList) Maintain() {
 }
 
 // Marshal the keylist.
-func (kl KeyList) Marshal() []byte {
+func (kl *KeyList) Marshal() []byte {
 	kl.mutex.Lock()
 	defer kl.mutex.Unlock()
 	return kl.marshal()
 }
 
-func (kl KeyList) marshal() []byte {
+func (kl *KeyList) marshal() []byte {
 	klist := make([]KeyEntry, 0, len(kl.Keys))
 	for _, e := range kl.Keys {
 		klist = append(klist, e)
-- 
2.43.0


From 61aa0593183552b66c6f87821336a83451108a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:44 +0000
Subject: [PATCH 55/56] fix: refuse identities whose mapped form is longer than
 the maximum

---
 uid/identity/identity.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/uid/identity/identity.go b/uid/identity/identity.go
index 77011c3..7e7f37d 100644
--- a/uid/identity/identity.go
+++ b/uid/identity/identity.go
@@ -38,7 +38,12 @@ func Map(identity string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return mlp + "@" + MapDomain(domain), nil
+	mappedID := mlp + "@" + MapDomain(domain)
+	// the mapping can change the length of the domain
+	if len(mappedID) > MaxLen {
+		return "", ErrTooLong
+	}
+	return mappedID, nil
 }
 
 // IsMapped returns an error, if the given identity is not well-formed or not
@@ -68,6 +73,10 @@ func MapPlus(identity string) (mappedID, mappedDomain string, err error) {
 	}
 	mappedDomain = MapDomain(domain)
 	mappedID = mlp + "@" + mappedDomain
+	// the mapping can change the length of the domain
+	if len(mappedID) > MaxLen {
+		return "", "", ErrTooLong
+	}
 	return
 }
 
-- 
2.43.0


From e16e7822fe38f71e05040eb52a95b0889c227501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:36 +0000
Subject: [PATCH 56/56] fix: rotate the signing key after half of its lifetime,
 not after it has expired

---
 serviceguard/common/keypool/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index e0ee4eb..382950f 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -165,7 +165,7 @@ func (kp *KeyPool) Current() (*signkeys.KeyPair, *signkeys.KeyPair, error) {
 	if kp.currentKey == nil {
 		// Always generate if we dont have one yet
 		generate = true
-	} else if kp.currentKey.PublicKey.Expire < times.Now()-kp.Generator.ExpireTime/2 {
+	} else if kp.currentKey.PublicKey.Expire < times.Now()+kp.Generator.ExpireTime/2 {
 		// Key has half expired, generate new one
 		generate = true
 	}
-- 
2.43.0

