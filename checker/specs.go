package main

var specs = []*spec{
	{id: "M01", globs: cat(gMsgRead, pre(hc, "decrypt"), pre("cipher.", "HMAC", "Ed25519Key.Verify", "Ed25519Key.SetPublicKey"), []string{"ctrlengine.mutecryptDecrypt"}),
		expl: "Decryption: HMAC comparison, header opening, signature verification and result construction in msg and its callers."},
	{id: "M02", globs: cat(gMsgRead, pre(hc, "decrypt"), pre("uid.", "Message.Check", "Message.checkV1_0", "Message.VerifySelfSig", "Message.Identity", "KeyEntry.Verify", "KeyEntryEqual", "NewJSON"), []string{"ctrlengine.mutecryptDecrypt", ctlE + "procInQueue"}),
		expl: "Binding of the sender identity to the verified UID message in the header."},
	{id: "M03", globs: cat(gMsgKeys, pre("msg.", "Encrypt", "Decrypt"), gSessStore, gCrypt),
		expl: "Deletion of used message keys and session keys, refusal of deleted keys, key addressing (session, direction, index)."},
	{id: "M04", globs: cat(gMsgKeys, pre("msg.", "Encrypt", "Decrypt"), gSessStore, gCrypt),
		expl: "Session state, session key and message key storage before success."},
	{id: "M05", globs: cat(gMsgKeys, pre("msg.", "Encrypt", "Decrypt"), pre("cipher.", "CKDF", "ECDH", "HMAC", "Curve25519Key.*", "Curve25519Generate", "SHA512", "SHA256"), pre("msg/session.", "*"), pre(hc, "GetRootKeyHash", "GetChainKey", "StoreSession"), pre("uid.", "KeyEntry.P*", "KeyEntryEqual")),
		expl: "Key agreement and key derivation."},
	{id: "M06", globs: cat(gMsgRead, gMsgWrite, pre("encode.", "*"), pre("encode/base64.", "*")),
		expl: "Packet framing."},
	{id: "M07", globs: cat(gMsgRead, gMsgWrite, pre("msg.", "generateMessageKeys"), pre(hc, "NumMessageKeys"), pre(mem, "NumMessageKeys"), pre("msg/padding.", "*"), pre("msg/mime.", "*"), gCrypt),
		expl: "Size limits and the limit on derived message keys."},
	{id: "M08", globs: cat(gMsgRead, gReply, gKeyInit, gUIDMsg, gHash, gConfig, []string{"cipher/aes256.*", "mix/mixcrypt.*", "mix/nymaddr.*", "mix/client.*", "mix/mixaddr.*", "encode/base64.*", "msg/mime.*", "ctrlengine/mail.*",
		"serviceguard/client/guardrpc.*", "serviceguard/client/walletrpc.*", "serviceguard/client/keylookup.*", "serviceguard/client/packetproto.*", "serviceguard/client.splitKey", "serviceguard/client.lookupError", "serviceguard/common/token.*", "serviceguard/common/signkeys.*", "serviceguard/common/types.*", "serviceguard/common/walletauth.*",
		"serviceguard/client/walletstore.CacheData.*", "serviceguard/client/walletstore.decodeToken", "msg/msgid.*", "uid/identity.*", "util/jsonclient.*", "keyserver/*"}, pre(hc, "fetchKeyInit", "addKeyInit", "getCapabilities", "register*", "update", "genupdate")),
		expl: "Parsers and consumers of remote data."},
	{id: "M09", globs: cat(pre("cipher.", "*Generate", "Nonce", "RandPass"), pre("msg/padding.", "*"), pre("msg/msgid.", "*"), pre("encdb.", "generateKeyfile", "writeKeyfile"), pre("mix/mixcrypt.", "genNonce", "GCMEncrypt", "Encrypt", "ClientMixHeader.NewRelayMessage", "ClientMixHeader.NewForwardMessage"), pre("mix/nymaddr.", "genNonce", "genKeyRandom", "encryptNym", "AddressTemplate.*"), pre("serviceguard/common/", "token.New", "walletauth.CreateToken", "signkeys.KeyGenerator.GenKey"), pre("uid.", "Create", "KeyEntry.initSigKey", "KeyEntry.InitDHKey", "Message.Encrypt", "Message.KeyInit", "Message.Update"), pre("mix/mixaddr.", "genKey"), pre("cipher/aes256.", "*Encrypt"), pre("util.", "NewNymAddress"), []string{wst + "getLockID"}),
		filter: map[string][]string{`[Rr]and|Nonce|Generate`: {"msg.*", hc + "*", ctl + "*", sgc + "*", "mix/*"}},
		extra:  []func(*Ctx){(*Ctx).WeakRandom},
		expl:   "Sources of key material and randomness."},
	{id: "M10", globs: cat(gCtlCrypt, gCtlProto),
		filter: map[string][]string{`exec\.|os\.Setenv|Stderr|StdinPipe|StdoutPipe`: {ctl + "*"}},
		extra:  []func(*Ctx){func(c *Ctx) { c.SecretFlow("secret flow") }},
		expl:   "Flow of secrets to logs, error values and child processes."},
	{id: "M11", globs: cat(gMsgWrite, pre("msg/padding.", "*"), []string{"encode/base64.NewEncoder", "encode/base64.Encode"}),
		expl: "Fixed overall size of encrypted messages."},

	{id: "K01", globs: cat(gHash, pre("uid.", "Message.Check", "Message.checkV1_0", "Message.VerifySelfSig", "Message.VerifyUserSig", "MessageReply.*", "NewJSON", "NewJSONReply", "Message.Identity"), pre(kdb, "AddPublicUID", "GetPublicUID", "GetPrivateUID"), pre(hc, "encrypt", "fetchKeyInit"), pre(ctl, "mutecryptHashchain*", "mutecryptAddContact", "CtrlEngine.contactAdd", "CtrlEngine.upkeepHashchain", "CtrlEngine.upkeepUpdate")),
		expl: "Verification of UID messages before they are stored or used."},
	{id: "K02", globs: cat(gKeyInit, pre(hc, "fetchKeyInit", "addKeyInit", "flushKeyInit", "GetPublicKeyEntry", "GetPrivateKeyEntry"), pre(kdb, "AddPrivateKeyInit", "AddPublicKeyInit", "GetPrivateKeyInit", "GetPublicKeyInit")),
		expl: "Verification of KeyInit messages and session anchors."},
	{id: "K03", globs: cat(gHash, pre(ctl, "mutecryptHashchain*", "CtrlEngine.upkeepHashchain")),
		expl: "Linking of hash chain entries."},
	{id: "K04", globs: cat(pre("uid.", "Message.VerifySelfSig", "Message.VerifyUserSig", "MessageReply.VerifySrvSig", "KeyInit.Verify", "KeyInit.VerifySrvSig", "KeyInit.checkV1_0", "KeyEntry.Verify", "VerifyNonce", "Message.PublicSigKey32", "Message.SigPubKey", "KeyInit.Sign", "Message.SignNonce", "KeyInit.SessionAnchor", "Message.JSON", "uidContent.JSON", "contents.json", "KeyInit.JSON", "Message.PubHash"), pre("serviceguard/common/", "signkeys.PublicKey.*", "signkeys.KeyGenerator.GenKey", "walletauth.*", "types.*", "token.*"), pre("mix/mixaddr.", "*"), pre("mix/nymaddr.", "AddressTemplate.GetPrivate", "calcHmac", "decryptNym"), []string{"configclient/sortedmap.*", "cipher.Ed25519Key.*", "cipher.SHA*", "cipher.HMAC"}, pre("serviceguard/client/packetproto.", "*"), pre("mix/mixcrypt.", "Receive*", "GCMDecrypt", "Decrypt", "mkHash")),
		filter: map[string][]string{},
		expl:   "Verification functions."},
	{id: "K05", globs: cat(gUIDMsg, pre(hc, "fetchUID", "searchHashChain", "register*", "update"), pre("msg.", "procUID"), pre("uid.", "Create", "Message.Update"), []string{"uid/identity.*"}),
		expl: "Consistency checks of UID messages."},
	{id: "K06", globs: cat(gReply, pre(hc, "verifyServerSig", "fetchUID", "searchHashChain", "registerOrUpdate", "register", "update", "generate", "genupdate"), pre(kdb, "AddPrivateUIDReply", "AddPrivateUID", "GetPrivateUID"), pre("uid.", "Message.PubHash", "Message.Encrypt", "KeyInit.VerifySrvSig"), []string{"cryptengine/cache.*"}),
		expl: "Verification of key server replies."},
	{id: "K07", globs: cat([]string{"uid/identity.*"}, pre("uid.", "Message.Check", "Message.checkV1_0", "Create", "Message.Identity", "Message.Domain", "Message.Localpart"), pre(hc, "*"), pre(ctlE, "contact*", "uid*", "msg*", "getID", "getNyms"), pre(ctl, "mutecrypt*"), pre("util.", "MailboxAddress", "NewNymAddress")),
		extra: []func(*Ctx){func(c *Ctx) { c.IdentityMapping("identity characters") }}, expl: "Mapping of identities."},

	{id: "S01", globs: gDB,
		filter: map[string][]string{`Begin|Commit|Rollback|txstmt|Exec`: gWStore},
		expl:   "Transactions."},
	{id: "S02", globs: cat(gDB, gWStore),
		expl: "SQL statements, arguments, columns."},
	{id: "S03", globs: cat([]string{"encdb.*"}, pre("keydb.", "Create", "Open", "Rekey"), pre("msgdb.", "Create", "Open", "Rekey", "MsgDB.DB"), pre("util.", "CreateDirs"), gCtlCrypt, pre(ctlE, "dbCreate", "dbRekey", "openMsgDB", "getConfig", "upkeepFetchconf", "upkeepUpdate"), pre(hc, "dbCreate", "dbRekey", "openKeyDB"), pre(ctl, "startWallet", "writeConfigFile"), pre("cipher/aes256.", "CBC*"), []string{wst + "New*"}),
		expl: "Persistent storage."},
	{id: "S04", globs: cat([]string{"encdb.*"}, pre("keydb.", "Rekey"), pre("msgdb.", "Rekey"), pre(ctl, "rekeyKeyDB", "CtrlEngine.dbRekey"), pre(hc, "dbRekey"), pre("cipher/aes256.", "CBC*")),
		expl: "Key file replacement."},
	{id: "S05", globs: cat([]string{"msgdb.*"}, pre(ctlE, "msg*", "contact*", "uid*", "proc*Queue"), pre(ctl, "muteproto*", "add", "get")),
		expl: "Separation of user IDs."},
	{id: "S06", globs: cat(gDB, gWStore, gSGClient, []string{"cryptengine.*", "ctrlengine.*", "protoengine.*", "msg.*", "uid.*", "cipher/*", "serviceguard/common/*", "keyserver/*", "msg/mime.*"}, gMix, gConfig),
		expl: "Error propagation."},
	{id: "S07", globs: []string{}, filter: map[string][]string{`Close|Begin|Commit|Rollback|\.Open|http\.|Rows|Query`: cat(gDB, gWStore, gMix, gConfig, []string{"util/jsonclient.*", "ctrlengine.*", "cryptengine.*", "protoengine.*", "serviceguard/*"})},
		expl: "Release of acquired resources."},
	{id: "S08", globs: cat([]string{"keydb.*", "msgdb.*"}, gWStore, gSessStore),
		expl: "Column bindings."},

	{id: "Q01", globs: cat(pre(mdb, "*OutQueue", "GetUndeliveredMessage", "AddMessage", "DelMessage", "GetMessage"), pre(ctlE, "procOutQueue", "msgSend", "msgAdd", "msgDelete", "upkeep*"), pre(ctl, "muteprotoCreate", "muteprotoDeliver", "mutecryptEncrypt"), pre("protoengine.", "*"), pre("mix/client.", "MessageOutput.*", "MessageInput.*", "MessageMarshalled.*")),
		expl: "Outgoing queue."},
	{id: "Q02", globs: cat(pre(mdb, "*InQueue", "*MessageIDCache", "SetAccountLastMsg", "GetAccount*", "AddMessage", "GetContact"), pre(ctlE, "procInQueue", "msgFetch", "upkeep*"), pre(ctl, "muteprotoFetch", "mutecryptDecrypt"), pre("protoengine.", "*"), pre("mix/client.", "FetchMessage", "ListMessages", "fetchmessage", "listMessages", "ReadMail"), []string{"ctrlengine/mail.*"}),
		expl: "Incoming queue."},
	{id: "C01", flat: true, globs: cat([]string{"ctrlengine.*", "protoengine.*", "cryptengine.CryptEngine.prepare", "cryptengine.CryptEngine.openKeyDB", "cryptengine.New", "cryptengine.CryptEngine.Start", "cryptengine.CryptEngine.Close", "cryptengine.CryptEngine.loop", "util/descriptors.*", "def.*"}),
		expl: "Command preconditions."},
	{id: "C02", globs: cat(pre(ctl, "CtrlEngine.db*", "CtrlEngine.prepare", "CtrlEngine.openMsgDB", "CtrlEngine.loop", "CtrlEngine.uid*", "CtrlEngine.upkeep*", "createKeyDB", "rekeyKeyDB", "loginHandler.ServeHTTP", "CtrlEngine.appStart", "CtrlEngine.Start", "CtrlEngine.Close"), pre(hc, "db*", "openKeyDB", "prepare", "loop", "Close", "Start"), pre("util.", "Readline"), gCtlCrypt),
		expl: "Wiping of passphrases."},
	{id: "C03", globs: cat(pre(ctl, "loginHandler.ServeHTTP", "staticHandler.ServeHTTP", "CtrlEngine.appStart", "CtrlEngine.openMsgDB"), []string{"encdb.Open", "encdb.ReadKeyfile", "msgdb.Open", "cipher.RandPass"}),
		expl: "HTTP handlers of the local web app."},
	{id: "C04", globs: cat(gCtlCrypt, gCtlProto, pre(ctl, "checkExecution", "updateMuteFromSource", "CtrlEngine.upkeep*", "CtrlEngine.checkUpdates", "CtrlEngine.proc*", "CtrlEngine.uid*", "CtrlEngine.contact*", "CtrlEngine.db*", "add", "get"), []string{"util/git.*", "util/gotool.*"}),
		expl: "Helper processes."},

	{id: "G01", globs: cat(gSGClient, gWStore),
		expl: "Token locks."},
	{id: "G02", globs: cat(pre(sgcC, "*"), gWStore, []string{"serviceguard/client/packetproto.*", "serviceguard/client/walletrpc.*", "serviceguard/client/guardrpc.*", "serviceguard/common/types.*"}),
		expl: "Reissue order."},
	{id: "G03", globs: cat([]string{"serviceguard/common/keypool*", "serviceguard/common/signkeys.*", "serviceguard/client/keylookup.*", sgcC + "getPubKey", sgcC + "GetVerifyKeys", "serviceguard/client/packetproto.Client.AddVerifyKey", sgcC + "GoOnline", sgc + "New"}),
		expl: "Signing key verification."},
	{id: "G04", globs: cat([]string{"serviceguard/client/packetproto.*", "serviceguard/client.*", "serviceguard/common/token.*", "serviceguard/common/signkeys.*", "serviceguard/common/keypool.*", "serviceguard/common/types.*", "serviceguard/client/walletrpc.*", "serviceguard/client/guardrpc.*"}),
		expl: "Token verification."},
	{id: "G05", globs: []string{}, filter: map[string][]string{`sync\.|[Ll]ock|LastAuth`: {"serviceguard/*", "util/wallet.*"}}, extra: []func(*Ctx){(*Ctx).LockRules},
		expl: "Lock discipline."},
	{id: "G07", globs: cat([]string{"serviceguard/common/*", wst + "*code*", wst + "CacheData.*", "mix/client.Message*", "mix/mixcrypt.ClientMixHeader.*", "mix/mixcrypt.Receive*", "mix/nymaddr.*", "mix/mixaddr.*", "msg/session.*", "uid.*", "encode.*", "encode/base64.*", "configclient/sortedmap.*", "keyserver/hashchain.*", "msg/mime.*", "msg/msgid.*", "cipher.*", "ctrlengine/mail.*"}, pre(kdb, "GetSessionState", "SetSessionState", "AddSession", "GetSession"), pre("msg.", "new*", "read*", "*.write")),
		expl: "Codecs."},
	{id: "G08", globs: cat([]string{"serviceguard/common/walletauth.*", "serviceguard/client/walletrpc.*", "mix/client.AccountStat", "mix/client.accountStat", "mix/client.DeleteAccount", "mix/client.delAccount", "mix/client.FetchMessage", "mix/client.fetchmessage", "mix/client.ListMessages", "mix/client.listMessages", "mix/client.PayAccount", "mix/client.payAccount", "mix/client.splitKey", wst + "Storage.*AuthToken", wst + "Storage.*Cache", wst + "CacheData.*", sgc + "New", "serviceguard/client/guardrpc.*"}),
		expl: "Authentication tokens."},

	{id: "F01", globs: cat(gConfig, pre(ctlE, "upkeepFetchconf", "getConfig", "checkUpdates", "upkeepUpdate"), pre(ctl, "writeConfigFile", "updateMuteFromSource"), []string{"cipher.Ed25519Key.*"}),
		expl: "Configuration updates."},
	{id: "F02", globs: cat(gConfig, []string{"util/jsonclient.*", "cryptengine/cache.*", "mix/client.*HTTP*", "mix/client.*get*", "mix/smtpclient.*", "serviceguard/client/guardrpc.*", "serviceguard/client/walletrpc.*", "serviceguard/client/keylookup.*", "serviceguard/client/trivial.*", sgc + "New", hc + "getCapabilities", hc + "fetchKeyInit", ctlE + "getConfig", ctl + "startWallet"}),
		filter: map[string][]string{`crypto/tls|x509|net/http|HTTP|CACert|jsonclient`: {"mix/*", "serviceguard/*", "cryptengine.*", "ctrlengine.*", "protoengine.*"}},
		extra:  []func(*Ctx){(*Ctx).TLSVerified},
		expl:   "TLS pinning."},

	{id: "X01", globs: cat([]string{"mix/smtpclient.*", "mix/client.WriteMail", "mix/client.MessageOutput.Deliver"}),
		expl: "Mail dialogue."},
	{id: "X02", globs: cat([]string{"mix/nymaddr.*", "mix/mixcrypt.*", "cipher/aes256.*"}, pre("cipher.", "Curve25519Key.*", "ECDH", "HMAC")),
		expl: "Nym addresses and mix messages."},
	{id: "X03", globs: cat([]string{"mix/client.MessageOutput.*", "mix/client.MessageInput.*", "mix/client.MessageMarshalled.*", "mix/client.WriteMail", "mix/client.ReadMail", "mix/client.RevokeMessage", "mix/client.GetMixKeys", "mix/client.getMixAddressReal", "mix/smtpclient.*"}, pre("protoengine.", "*"), pre(ctl, "muteprotoDeliver", "CtrlEngine.procOutQueue")),
		expl: "Delivery."},
	{id: "N05", flat: true, globs: []string{"uid/identity.*"}, extra: []func(*Ctx){func(c *Ctx) { c.IdentityMapping("identity characters") }},
		expl: "Identity mapping: the function of one character that maps the localpart is decided for every character (cells cut by its constants)."},
	{id: "Z01", globs: []string{}, filter: map[string][]string{`p[0-9]`: {"uid.*", "keydb.*", "msgdb.*", "msg.*", "mix/*", "serviceguard/*", "cryptengine.*", "ctrlengine.*", "configclient*", "encdb.*", "cipher*", "protoengine.*", "util*", "def.*"}},
		expl: "Use of parameters."},
}
