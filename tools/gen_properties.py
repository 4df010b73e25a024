#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for titles/statements is this table)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=list(obs)
    P.append(d)

NT="The msg and msgdb test packages do not even compile at this commit; where tests exist they sample a few well-formed exchanges, not every input, path and failure."

# ------------------------------------------------------------------ messages
p("M01","A message decrypts successfully only if its authentication verified",
 "Decryption reports success only after the HMAC transmitted with the message was compared for equality with the HMAC computed under the message key over every packet of the message body, and the encrypted header was opened with the recipient's key. If the content is flagged as signed, success additionally requires that the Ed25519 signature over the content verified under the signature key of the sender's UID message, and a signature is only returned to the caller when it verified.",
 ["inputs"],"every byte string offered as an encrypted message, every key store content",NT,
 ["msg/decrypt.go","msg/header.go","msg/outer.go"],[("HMAC comparison","msg.Decrypt"),("box.Open on the header","msg.readHeader"),("ed25519.Verify on signed content","msg.Decrypt")],obs=["result of msg.Decrypt"])
p("M02","A decrypted message's sender is the owner of the UID it carries",
 "Decryption succeeds only if the UID message carried in the header is a well-formed, correctly self-signed UID message whose identity and whose encryption key are the sender identity and sender key named in the header. A peer therefore cannot have a message attributed to an identity by attaching an unverified or somebody else's UID message.",
 ["inputs"],"every header a sender can construct",NT,["msg/decrypt.go","msg/procuid.go","msg/header.go"],[("processing of the sender UID","msg.procUID"),("comparison with header","msg.Decrypt")])
p("M03","Every message key is used for one message only",
 "Encrypting succeeds only after the sending message key it used was deleted from the key store, and decrypting succeeds only after the receiving message key it used was deleted; the deleted key is the one (session, direction, index) that was fetched. A key store answers a request for a deleted message key with an error, never with the key, and a used session key's private half is deleted once a message under it has been decrypted.",
 ["histories","inputs"],"every sequence of encryptions and decryptions, every session",NT,
 ["msg/encrypt.go","msg/decrypt.go","msg/session/memstore/memstore.go","keydb/session.go","cryptengine/keystore.go"],
 [("DelMessageKey after use","msg.Encrypt, msg.Decrypt"),("deleted keys are refused","memstore.GetMessageKey, keydb.GetMessageKey")],
 [("MessageKeys","used/unused message keys per session","keydb table MessageKeys, memstore")])
p("M04","Session state is stored before its message is produced or accepted",
 "Encryption advances the sender message counter by one and stores the session state before it reports success, and never emits a message under a counter it did not store. When a session is started or switched during encryption or decryption, the new session keys, message keys and session state have been stored without error before the operation can succeed.",
 ["histories","crash_points"],"every session state and every failing key store operation",NT,
 ["msg/encrypt.go","msg/decrypt.go","msg/keys.go","msg/session.go"],[("SetSessionState","msg.Encrypt/msg.Decrypt"),("StoreSession","msg.generateMessageKeys")])
p("M05","Key agreement mixes three checked DH results and chains root keys",
 "No Diffie-Hellman result is computed in a key agreement before all keys taking part were checked to be pairwise different; sender and recipient combine the same three key pairs in the same order, and the previous root key hash is included whenever one is given. Chain keys and message keys for the two directions are derived from the root key with direction-dependent constants so that one side's sending keys are the other side's receiving keys, and every derivation error aborts the agreement.",
 ["inputs","histories"],"every combination of identity, session and header keys",NT,
 ["msg/keys.go","msg/encrypt.go","msg/decrypt.go","cipher/curve25519.go"],[("checkKeys","msg/keys.go"),("rootKeyAgreementSender/Recipient","msg"),("deriveRootKey, generateMessageKeys, deriveSymmetricKeys","msg/keys.go")])
p("M06","Message packets are accepted only in the exact framing the sender writes",
 "Every packet read while decrypting is rejected unless its type is the expected one and its packet counter is exactly one more than its predecessor's; pre-header version, cipher suite and key length, crypto-setup length, signature length and the maximum packet length are checked before use. For every packet structure the reader consumes the same fields with the same widths and in the same order as the writer produces them, and every packet's bytes are fed into the HMAC on both sides.",
 ["inputs"],"every packet sequence",NT,["msg/outer.go","msg/inner.go","msg/preheader.go","msg/header.go","msg/first.go","msg/decrypt.go","msg/encrypt.go"],
 [("readOuterHeader/readInnerHeader/readPreHeader","msg"),("type and counter checks","msg.Decrypt")])
p("M07","A peer cannot make the recipient derive unboundedly many message keys",
 "The message counter in a received header makes the recipient derive further message keys only up to a fixed limit that depends on the maximum message size, never on the counter alone, and the limit is enforced before any key is derived. Message content, encrypted headers and packets have fixed upper size limits that are enforced before the data is processed or emitted.",
 ["inputs"],"every counter and length value in a received message",NT,["msg/decrypt.go","msg/encrypt.go","msg/header.go","mime"],[("numOfKeys limit","msg.Decrypt"),("size limits","msg.Encrypt, msg.readOuterHeader")])
p("M08","Malformed remote data is rejected, never crashes the client",
 "Data that arrived from a server, a mix or a correspondent is sliced, indexed, converted to a fixed type or handed to a primitive that requires a fixed length only after its length or type was checked. Malformed data makes the operation return an error instead of panicking.",
 ["inputs"],"every reply of every server and every byte string received as message, key, token or nym address","Tests only use replies and messages produced by well-behaved peers.",
 ["uid/uid.go","uid/keyinit.go","cipher/aes256/aes256.go","cryptengine/hashchain.go","mix/mixcrypt","mix/nymaddr","serviceguard/client","mix/client","configclient"],
 [("length checks before slicing","see files"),("checked type assertions on JSON-RPC replies","see files")])
p("M09","All key material comes from the CSPRNG and entropy failures abort",
 "Every private key, nonce, IV, salt, token hash and padding byte that is not derived is read in full from the cryptographic random source; a short read or an error of that source makes the operation fail instead of continuing with predictable bytes. No security-relevant value is drawn from a non-cryptographic generator.",
 ["fault_sequences","inputs"],"every call of a random source and every failure of it","Tests never make the random source fail and cannot distinguish predictable from random bytes.",
 ["cipher","uid","msg","mix","serviceguard","encdb","util"],[("cipher.RandReader / crypto/rand with io.ReadFull","all key generating functions")])
p("M10","Passphrases and private keys never reach logs, argv or environment",
 "No passphrase, private key, session key, message key, root or chain key, wallet key or decrypted message content is written to the log, to a command line or environment of a child process, or into an error value. Child processes receive passphrases only over a dedicated file descriptor.",
 ["inputs","configurations"],"every command and every error path","Tests do not inspect logs and argument vectors.",
 ["ctrlengine","cryptengine","msg","keydb","encdb","log"],[("passphrase pipe","ctrlengine: mutecrypt* helpers"),("log calls","all packages")])
p("M11","An encrypted message is emitted only with its fixed overall size",
 "Encryption reports success only after the total size of what it wrote was checked to equal the fixed encoded message size, independently of content length, signature and session state. Content larger than the maximum is refused before anything is written.",
 ["inputs"],"every content and session state",NT,["msg/encrypt.go"],[("final size check","msg.Encrypt")])
# ------------------------------------------------------------------ keys
p("K01","Only verified UID messages are stored as identities or used for encryption",
 "A UID message obtained from a key server or hash chain is stored as public UID, and thereby becomes usable for encryption, only after it decrypted to a message whose hash chain entry exists, its consistency check succeeded, its self signature verified, and the key server's signature on it verified. A UID found for an identity is used only if the UID names that identity.",
 ["inputs","histories"],"every hash chain content and every key server reply","The hash chain code has no unit tests; its inputs come from a remote server.",
 ["cryptengine/hashchain.go","uid/uid.go"],[("fetchUID, verifyServerSig, searchHashChain","cryptengine/hashchain.go"),("Check, VerifySelfSig, VerifySrvSig","uid/uid.go")],
 [("PublicUIDs","UIDs used for encryption","keydb table PublicUIDs")])
p("K02","Only verified KeyInit messages start sessions or are published",
 "A KeyInit message fetched from a key server is used to start a session only after its consistency check, its validity period and repository, its signature under the owner's UID signature key and the hash of its session anchor were verified. The session anchor is decrypted, compared with its announced hash, and only then used as key entry; locally produced KeyInit messages go through the server only after their private half is stored.",
 ["inputs"],"every KeyInit a server can deliver","Tests use self-produced KeyInit messages.",
 ["uid/keyinit.go","cryptengine/keyinit.go","cryptengine/keystore.go"],[("KeyInit.Verify, SessionAnchor","uid/keyinit.go"),("fetchKeyInit","cryptengine/keyinit.go")])
p("K03","Hash chain entries are accepted only if they link to their predecessor",
 "Validation of a stored hash chain succeeds only if every entry from position 0 to the last is present, has the right type and carries exactly the hash that is recomputed from its own fields and its predecessor's hash, and if every own registration recorded at a position of the chain equals the entry found there; a mismatch is always reported as an error. Synchronisation stores only the entries it asked for, each at its own position, and refuses replies that start elsewhere or are too short; an entry that is used or shown was split into its fields without error.",
 ["inputs","histories"],"every chain content and every local prefix","The sync and validation code talks to a server and is not tested with tampered chains.",
 ["cryptengine/hashchain.go","serviceguard? no","keyserver/hashchain"],[("syncHashChain, validateHashChain","cryptengine/hashchain.go"),("TestEntry/CheckHash","keyserver/hashchain")])
p("K04","Verification functions say yes only after the cryptographic check did",
 "Each function that verifies a signature, a hash or a MAC reports success only on paths where the underlying primitive compared or verified successfully, over an image that covers every security-relevant field, under the key it was asked to use. An error while decoding a key, signature or image is a failed verification.",
 ["inputs"],"every object, key and signature","Tests check a valid object and one or two invalid ones; many verification functions are never called with undecodable keys.",
 ["uid/uid.go","uid/keyentry.go","uid/keyinit.go","serviceguard/common/token","serviceguard/common/signkeys","serviceguard/common/walletauth","mix/mixaddr/addrlist.go","mix/nymaddr/addr.go","configclient/sortedmap"],
 [("ed25519.Verify / hash comparison","each verify function")])
p("K05","A UID message passes its check only if all its parts are consistent",
 "The consistency check of a UID message succeeds only if version, identity syntax, forward-secrecy preference, repository and last hash chain entry satisfy the rules for that version, signature escrow and chain link are empty, not both signatures are set, and signature key and the only encryption key are of the right kind and agree with their hashes. Encrypting to or storing an inconsistent message is impossible because parsing, checking and using go through that check.",
 ["inputs"],"every UID message","Tests build UID messages through the constructor, which always yields consistent ones.",
 ["uid/uid.go","uid/keyentry.go"],[("Message.Check, KeyEntry.Verify","uid")])
p("K06","Key server replies are accepted only with a valid server signature",
 "A reply of a key server for a UID is accepted only if its signature verified under one of the server's advertised signature keys and the reply decrypts to exactly the UID message it is presented for. An undecodable key or signature, or a reply for another UID message, is refused.",
 ["inputs"],"every reply, every UID message","Tests only verify matching replies.",
 ["uid/uid.go","cryptengine/hashchain.go","cryptengine/uid.go"],[("MessageReply.VerifySrvSig","uid/uid.go"),("verifyServerSig","cryptengine/hashchain.go")])
p("K07","Addresses are mapped to one canonical, validated identity before use",
 "Every identity that a user or peer supplies is mapped to its canonical form, or checked to be in canonical form, before it is used as a key for storing, looking up or encrypting. Malformed identities (missing or repeated separator, empty or illegal localpart, bad domain) are refused.",
 ["inputs"],"every string used as an identity","Tests cover the mapping function itself but not that every entry point calls it.",
 ["uid/identity/identity.go","ctrlengine","cryptengine"],[("identity.Map, identity.MapPlus, identity.IsMapped","uid/identity")])
# ------------------------------------------------------------------ storage
p("S01","Multi-statement database updates are atomic on every path",
 "Every database transaction that is begun is either committed or rolled back on every path out of the operation, success is reported only after a commit that succeeded, and all statements of the transaction run inside it. After a failed or interrupted operation the database therefore shows all of its effects or none.",
 ["crash_points","fault_sequences"],"every failing statement and every crash point in every transactional operation","Tests exercise only succeeding statements; msgdb tests do not compile at this commit.",
 ["keydb","msgdb","encdb","serviceguard/client/walletstore"],[("Begin/Commit/Rollback","keydb/*.go, msgdb/*.go")])
p("S02","SQL statements agree with their arguments, columns and results",
 "Every SQL statement is a constant; each execution supplies exactly as many arguments as the statement has placeholders and each row is scanned into exactly as many variables as columns are selected; every table and column it names exists in the schema; every prepared statement is prepared before use from the text meant for it. Values are bound through placeholders only.",
 ["programs","inputs"],"every statement and every execution site","Errors of this kind show only when the particular statement runs; many have no test.",
 ["keydb","msgdb","encdb","serviceguard/client/walletstore","serviceguard/common/keypool/keydb"],[("query constants and prepared statements","keydb/keydb.go, msgdb/msgdb.go, walletstore")])
p("S03","Messages and keys are stored only in the encrypted databases",
 "The only way persistent state with messages, keys, tokens or contacts is opened is through the encrypting database layer, which sets the encryption key before any other statement is executed and refuses to create over an existing file. Key files and configuration directories are created with permissions for the owner only, and the database key itself is stored only encrypted under a key derived from the passphrase with the salt and iteration count kept beside it.",
 ["programs","inputs"],"every place that opens or creates persistent storage","Tests do not look at file permissions or other packages' ways to open files.",
 ["encdb/encdb.go","encdb/keyfile.go","keydb","msgdb","util","ctrlengine"],[("encdb.Create/Open","encdb"),("secretbox-sealed key file","encdb/keyfile.go")])
p("S04","Changing the passphrase never loses the database key",
 "Re-keying replaces the key file atomically: the new key file is completely written, flushed and closed without error under another name before it takes the old one's place, and the old file stays untouched on every failure. The replacement contains the key that the old file contained; a truncated key file is reported as an error, and a wrong passphrase makes opening the database fail.",
 ["crash_points","fault_sequences"],"every crash point and failing file operation during re-keying","Tests never make a write, sync, close or rename fail.",
 ["encdb/keyfile.go","encdb/encdb.go"],[("write temp, rename","encdb.replaceKeyfile"),("secretbox authentication","encdb.ReadKeyfile")])
p("S05","Every user ID sees only its own messages, contacts and accounts",
 "Reading, listing, changing or deleting messages, contacts, queue entries and accounts on behalf of one user ID touches only rows that belong to that user ID. A message number or contact of another user ID is refused.",
 ["inputs","histories"],"every user ID and every foreign row number","Tests use one or two IDs and their own rows; msgdb tests do not compile at this commit.",
 ["msgdb"],[("Self column in WHERE clauses and ownership comparisons","msgdb/*.go")])
p("S06","Storage, crypto and network failures are never reported as success",
 "An error returned by a storage, crypto, file or network operation makes the enclosing operation fail or is passed on, logged or explicitly tested, unless that failure is one of the explicitly tolerated ones (closing after reading, output to the terminal). No error of a storing, deleting, verifying or sending operation is dropped, overwritten before it was looked at, or turned into success.",
 ["fault_sequences"],"every call that can fail and every way it fails","Tests make almost no operation fail.",
 ["keydb","msgdb","encdb","cryptengine","ctrlengine","protoengine","msg","uid","serviceguard","mix","configclient"],[("error propagation","every call site")])
p("S07","Acquired rows, files, responses and handles are released on every path",
 "Every result set, file, HTTP response body, database handle and network connection that a function opens and keeps to itself is closed on every path out of that function. Long-running use therefore does not exhaust descriptors or block the database.",
 ["fault_sequences","histories"],"every path including error paths","Leaks on error paths have no visible effect in short tests.",
 ["msgdb","keydb","encdb","serviceguard","mix/client","configclient","util","ctrlengine"],[("Close calls","every acquiring function")])
p("S08","Stored fields are read back from the columns they were written to",
 "For every kind of stored record, each value handed to the store ends up in the column of that meaning and each value handed out comes from the column of that meaning, for every writer and every reader. Lookups select by the key the caller gave.",
 ["inputs"],"every record and every lookup","Swapped or mis-bound columns of equal type are visible only when values differ in a test of that very operation.",
 ["keydb","msgdb","serviceguard/client/walletstore","serviceguard/common/keypool/keydb"],[("argument and scan order against the column lists","keydb, msgdb, walletstore")])
# ------------------------------------------------------------------ queues, control
p("Q01","Outgoing messages leave the queue only after delivery or retraction",
 "An outgoing envelope is removed from the out queue only after the delivery process reported that the mix accepted it, or because the user's message was explicitly retracted; a failed or unclear delivery keeps it for a later attempt. An encrypted message is put into the queue in the same step that records its envelope, so it is not encrypted twice or lost.",
 ["crash_points","fault_sequences","histories"],"every delivery outcome and crash point","The control engine has no tests; delivery needs a network.",
 ["ctrlengine/msg.go","msgdb/outqueue.go","mix/client/send.go"],[("procOutQueue","ctrlengine/msg.go"),("RemoveOutQueue, SetResendOutQueue","msgdb/outqueue.go")])
p("Q02","Incoming messages leave the in queue only after they were stored",
 "A fetched message is entered in the in queue before the fetch position of the account moves past it and before its ID counts as known, and it is removed from the in queue only together with storing its decrypted content as a received message, or because it is not a message for a known contact or cannot be decrypted. Removal and storing happen in one transaction.",
 ["crash_points","fault_sequences","histories"],"every fetch, decrypt and store failure","The control engine has no tests.",
 ["ctrlengine/msg.go","msgdb/inqueue.go"],[("procInQueue, muteprotoFetch","ctrlengine/msg.go"),("RemoveInQueue","msgdb/inqueue.go")])
p("C01","Every command works on an opened, checked database and closes it",
 "Each control command that touches messages, contacts, IDs or tokens runs only after configuration, passphrase and message database were set up successfully, and aborts otherwise. Command arguments that are required are checked before the command acts.",
 ["inputs","configurations"],"every command and flag combination","The command layer has no tests.",
 ["ctrlengine/ctrlengine.go","cryptengine/cryptengine.go","protoengine/protoengine.go"],[("prepare, openMsgDB, openKeyDB in Before/Action","New()")])
p("C02","Passphrases are wiped from memory when an operation ends",
 "Every passphrase read from the user or a file descriptor is overwritten with zeros on every path out of the operation that read it, also when the operation fails. The wiped buffer is the one that held the passphrase.",
 ["inputs","fault_sequences"],"every path of every operation that reads a passphrase","Memory content after the operation is not observable in tests.",
 ["ctrlengine/db.go","cryptengine/db.go","cryptengine/cryptengine.go","ctrlengine/ctrlengine.go"],[("defer bzero.Bytes","ctrlengine, cryptengine")])
p("C03","The local web app serves data only to the authenticated browser",
 "Static content is served only to requests that carry the secret session cookie handed out by the login handler, compared against the secret of this process, which must have been set; the cookie is handed out only after the database was opened with the passphrase of that very login request. A request without, with an empty or with a wrong cookie gets no content.",
 ["inputs"],"every HTTP request","No tests exist for the HTTP handlers.",
 ["ctrlengine/app.go"],[("staticHandler, loginHandler","ctrlengine/app.go")])
p("C04","Helper processes are waited for and their failure is reported",
 "Every helper process that is started gets its input and passphrase pipes closed, is waited for on every path that uses its output, and a non-zero exit or a missing or malformed status line makes the operation fail. The output of a helper is used as a result only after the helper ended successfully.",
 ["fault_sequences"],"every way a helper process can fail","The control engine has no tests.",
 ["ctrlengine"],[("cmd.Start/cmd.Wait pairs","ctrlengine/*.go")])
# ------------------------------------------------------------------ serviceguard
p("G01","Wallet token locks are taken, honoured and released",
 "A token is spent or reissued only while the wallet holds the lock for it, taking a lock fails if another holder has it, and an operation that fails releases the lock it took. A locked token is not handed out by a selection of spendable tokens, and a token whose lock could not be taken is not used.",
 ["histories","schedules","fault_sequences"],"every sequence of token operations","The client tests of this package do not compile at this commit.",
 ["serviceguard/client","serviceguard/client/walletstore/store.go"],[("LockToken/UnlockToken","walletstore"),("GetAndLockToken","walletstore")])
p("G02","A replaced token is deleted only after its replacement is safely stored",
 "During reissue the parameters needed to complete or repeat the exchange are stored before the request is sent, and the old token is removed from the wallet only after the new token was unblinded, verified and stored without error. A failure at any point leaves the wallet with a way to recover the value.",
 ["crash_points","fault_sequences"],"every failure point of a reissue","Needs servers and fault injection; tests do not compile at this commit.",
 ["serviceguard/client/reissue.go","serviceguard/client/walletstore"],[("SetToken before DelToken","client.ReissueToken")])
p("G03","Only verified, unexpired signing keys enter the key pool",
 "A signing key is added to the key pool, looked up from it or loaded into it only if its signature by the configured verification key is valid and it is neither expired nor not yet usable at that time; keys of other owners or usages are refused. The key handed out for signing is replaced after half of its lifetime, so it is never an expired one.",
 ["inputs"],"every key delivered by a server or a store","Key pool tests do not compile at this commit.",
 ["serviceguard/common/keypool","serviceguard/common/signkeys"],[("keypool.LoadKey/LookupKey","keypool/generator.go"),("PublicKey.Verify","signkeys/keys.go")])
p("G04","A wallet accepts a token only with a valid issuer signature",
 "A token received from somebody else is stored as owned value only after its signature verified, under a known and unexpired signing key of the issuer, over the hash of exactly that token's parameters; the result of a reissue is stored only after its blind signature was unblinded and the resulting signature verified likewise. A negative verification result or an undecodable signature is an error.",
 ["inputs"],"every issuer reply","Tests (where they compile) use a well-behaved issuer.",
 ["serviceguard/common/jjm? ","serviceguard/client/packetproto/methods.go","serviceguard/client"],[("Unblind, VerifyToken","packetproto, client")])
p("G05","Shared client state is accessed only under its lock",
 "In-memory state that is shared between goroutines (the key pool, the wallet cache, the mix key list, the guard client's runner and target, the error translation tables and the session secret of the local web app) is read and written only while holding the lock that protects it, in write mode for writes, and every lock is released on every path. No operation returns with a lock held, and locks are never acquired in conflicting orders or twice.",
 ["schedules"],"every interleaving of client goroutines","The race detector sees only interleavings that a test produces; these packages have no concurrent tests.",
 ["serviceguard/common/keypool","serviceguard/client/walletstore","serviceguard/client/runner.go","mix/mixaddr","msg/session/memstore"],[("sync.RWMutex discipline","see files")])
p("G07","Encoded objects carry every field, and decoding restores each in place",
 "For each pair of functions that encode and decode tokens, keys, messages, session states and addresses, the decoder assigns to every field exactly the part of the encoding that the encoder filled from that field. Equality functions compare every field.",
 ["inputs"],"every value of every field","Round-trip tests exist for some types with a few values and do not cover the rest.",
 ["serviceguard/common/token","serviceguard/client/walletstore","serviceguard/common/signkeys","mix/client/send.go","msg/session","mix/mixcrypt","keydb/sessionstate.go"],[("Marshal/Unmarshal pairs","see files")])
p("G08","Authentication tokens are fresh, counted and bound to their key",
 "Every authentication token sent to a server is signed with the caller's key over its key, a time or counter, and a nonce; the counter used is strictly larger than the last one accepted by the server, and a replay error updates it. A server reply indicating replay is retried with the server's counter only.",
 ["histories"],"every sequence of authenticated requests","Needs a server; tests do not compile at this commit.",
 ["serviceguard/common/walletauth","serviceguard/client/walletrpc","mix/client/accountrpc.go"],[("walletauth.CreateToken","walletauth"),("IsReplay handling","accountrpc, walletrpc")])
# ------------------------------------------------------------------ config
p("F01","Configuration is applied only if signed, newer and not from the future",
 "A fetched configuration is used or stored only after its signature verified under the configuration key and its signing date was checked to be not older than that of the last accepted one and within the permitted distance of the current time, in the past and in the future. A failure on all servers leaves the previous configuration untouched and is reported.",
 ["inputs","histories"],"every server reply and every previous configuration","Package tests do not compile at this commit; rollback and partial failures are not tested.",
 ["configclient","ctrlengine/upkeep.go","def"],[("sortedmap.Certify","configclient/sortedmap"),("Config.Update","configclient/client.go")])
p("F02","Servers are only talked to over TLS pinned to the configured CA",
 "Every connection to a key server, mix, account or guard server uses TLS whose root certificates are exactly the configured CA certificate; certificate verification is never disabled. The CA certificate itself is accepted only if its hash equals the hash in the signed configuration.",
 ["configurations","inputs"],"every client constructed anywhere in the program","Tests do not open real TLS connections.",
 ["configclient","mix/client/mixrpc.go","util/jsonclient","serviceguard","cryptengine/cache","mix/smtpclient"],[("tls.Config with RootCAs","see files"),("cahash.Hash comparison","configclient.getCACert")])
# ------------------------------------------------------------------ mix
p("X01","Mail to mixes is sent only after the TLS upgrade succeeded",
 "When a CA certificate is configured, no sender, recipient or mail content is sent to a mail server before the connection was upgraded to TLS verified against that certificate; a server that does not offer or fails the upgrade gets nothing. Delivery is reported as successful only if every step of the mail dialogue succeeded.",
 ["inputs","fault_sequences"],"every server behaviour","Needs a misbehaving mail server; not tested.",
 ["mix/smtpclient/client.go"],[("STARTTLS before MAIL FROM","MailClient.SendMail")])
p("X02","Nym addresses yield their nym and secret only if they authenticate",
 "A nym address header reveals nym and message secret only after its MAC, computed under a key derived from the key exchange over the nonce, the receiver key, the encrypted nym and the mailbox address, was compared for equality over its full length. Relaying and receiving functions hand out decrypted data only after authenticated decryption and hash comparison succeeded.",
 ["inputs"],"every address, header and message","Tests use well-formed addresses.",
 ["mix/nymaddr/addr.go","mix/mixcrypt"],[("HMAC check","AddressTemplate.GetPrivate"),("GCM and body hash checks","mixcrypt")])
p("X03","A message counts as delivered only if the mix accepted it",
 "Delivering a message reports success only after the mail to the mix was sent without error; a failure is reported together with whether sending may be repeated, and the message is kept for that case. The message handed back after success no longer contains the material needed to send it again.",
 ["fault_sequences"],"every outcome of address lookup and mail delivery","Needs failing servers.",
 ["mix/client/send.go","protoengine/deliver.go"],[("MessageOutput.Deliver","mix/client/send.go"),("deliver status","protoengine/deliver.go")])
# ------------------------------------------------------------------ cross
p("Z01","What the caller asks for is what is done",
 "A value that a caller passes to an operation is used by it; it is never replaced by another value before it was read. In particular parsed, decrypted or default values never overwrite the argument they are meant to be compared with or stored under.",
 ["inputs","programs"],"every parameter of every operation","Only a test that distinguishes the passed from the replaced value would notice.",
 ["uid/uid.go","ctrlengine/contact.go","mix/client/accountrpc.go"],[("parameter use","all functions")])
p("N01","Encryption followed by decryption returns the original content",
 "For every content up to the maximum size, every pair of identities with established or new sessions and every order of exchanged messages, the recipient's decryption of the sender's encryption yields the identical content.",
 ["inputs","histories"],"all contents and message orders",NT,["msg"],[("Encrypt/Decrypt","msg")])
p("N02","Delays and server selection follow the configured distribution",
 "Mix delays lie between the requested minimum and maximum and server selection is distributed according to the configured weights.",
 ["inputs"],"all delay and weight settings","Distributional; tests sample.",["mix/client/send.go","configclient/roundrobin"],[("random delay and order","send.go, roundrobin")])
p("N03","Concurrent clients of one wallet never spend the same token twice",
 "For every interleaving of several client processes on one wallet database no token is handed to two spenders.",
 ["schedules"],"all interleavings across processes","Interleavings across processes are not tested.",["serviceguard/client/walletstore"],[("lock columns","walletstore")])
p("N04","The text editor buffer always mirrors the edit operations",
 "After any sequence of insertions, deletions and cursor movements the text buffer holds exactly the text that results from those operations.",
 ["inputs"],"all edit sequences","Tests sample a few sequences.",["tui/textbuffer","tui/editor"],[("TextBuffer","tui/textbuffer")])
p("N05","Identity mapping is idempotent and total on valid identities",
 "Mapping an already mapped identity changes nothing; the spellings of one identity that differ in case, in look-alike characters (0/o, 1/l, j/i) or in spaces around the localpart map to the same string, other spellings to different ones; every character outside the alphabet of identities is refused; mapped identities obey the length limits.",
 ["inputs"],"all strings","Tests sample a few characters and strings.",["uid/identity"],[("identity.Map, MapLocalpart and its character mapping","uid/identity/identity.go")])
for d in P:
    fs=[]
    for f in d["anchors"]["files"]:
        f=f.split("?")[0].strip().rstrip()
        if f in("serviceguard","mime"): f={"mime":"msg/mime/mime.go"}.get(f,f)
        if os.path.exists("/repo/"+f): fs.append(f)
        else: print("missing",d["id"],f)
    d["anchors"]["files"]=fs
with open("/verif/properties.jsonl","w") as o:
    for d in P: o.write(json.dumps(d)+"\n")
print(len(P))
