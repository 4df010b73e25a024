import re,sys
R='/tmp/rfc/hand9/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        if s.count(a)<1: print("MISSING",f,a[:60]); continue
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
def app(f,t):
    open(R+f,'a').write(t)
f="cryptengine/hashchain.go"
ed(f,('''	var start, end uint64
	if found {
		log.Debugf("cryptengine: last position for domain '%s': %d", domain, pos)
		if pos >= hcPos {
			// already in sync
			log.Debugf("cryptengine: hash chain already in sync")
			return nil
		}
		// sync the missing entries
		start = pos + 1
		end = hcPos
	} else {
		// no entries found -> get everything
		start = 0
		end = hcPos
		log.Debugf("cryptengine: no entry found for domain '%s'", domain)
	}
''','''	var start uint64
	if !found {
		// no entries found -> get everything
		log.Debugf("cryptengine: no entry found for domain '%s'", domain)
	} else if pos < hcPos {
		// sync the missing entries
		log.Debugf("cryptengine: last position for domain '%s': %d", domain, pos)
		start = pos + 1
	} else {
		// already in sync
		log.Debugf("cryptengine: hash chain already in sync")
		return nil
	}
'''),('''	content := make(map[string]interface{})
	content["StartPosition"] = start
	content["EndPosition"] = end
''','''	content := map[string]interface{}{
		"StartPosition": start,
		"EndPosition":   hcPos,
	}
'''),('''	for i := hcFirstPos; i <= hcPos; i++ {
		entry, ok := hcEntries[i-hcFirstPos].(string)
		if !ok {
			return log.Error("cryptengine: fetch hash chain entry is not a string")
		}
		log.Debugf("cryptengine: HC#%d: %s", i, entry)
		// store entry in database
		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
		if err != nil {
			return err
		}
	}
''','''	for i := hcFirstPos; i <= hcPos; i++ {
		if err := ce.storeEntry(domain, i, hcEntries[i-hcFirstPos]); err != nil {
			return err
		}
	}
'''),('''		if !bytes.Equal(TYPE, hashchain.Type) {
			return log.Error("cryptengine: invalid hash chain entry type")
		}

		entryN := make([]byte, 153)
		copy(entryN, TYPE)
		copy(entryN[1:], NONCE)
		copy(entryN[9:], HashID)
		copy(entryN[41:], CrUID)
		copy(entryN[89:], UIDIndex)
		copy(entryN[121:], hashEntryNminus1)
		if !bytes.Equal(hashEntryN, cipher.SHA256(entryN)) {
			return log.Errorf("cryptengine: hash chain entry %d invalid", i)
		}
''','''		if err := checkType(TYPE); err != nil {
			return err
		}
		h := entryHash(TYPE, NONCE, HashID, CrUID, UIDIndex, hashEntryNminus1)
		if !bytes.Equal(hashEntryN, h) {
			return log.Errorf("cryptengine: hash chain entry %d invalid", i)
		}
'''),('''		if msgReply != nil && msgReply.ENTRY.HASHCHAINPOS <= max {
			entry, err := ce.keyDB.GetHashChainEntry(domain, msgReply.ENTRY.HASHCHAINPOS)
			if err != nil {
				return err
			}
			if entry != msgReply.ENTRY.HASHCHAINENTRY {
				return log.Errorf("cryptengine: hash chain entry differs from UIDMessageReply (%s)", id)
			}
		}
''','''		if msgReply == nil || msgReply.ENTRY.HASHCHAINPOS > max {
			continue
		}
		entry, err := ce.keyDB.GetHashChainEntry(domain, msgReply.ENTRY.HASHCHAINPOS)
		switch {
		case err != nil:
			return err
		case entry != msgReply.ENTRY.HASHCHAINENTRY:
			return log.Errorf("cryptengine: hash chain entry differs from UIDMessageReply (%s)", id)
		}
'''),('''	entry.UIDMESSAGEENCRYPTED, ok = e["UIDMESSAGEENCRYPTED"].(string)
	if !ok {
		return nil, log.Error("cryptengine: KeyRepository.FetchUID UIDMESSAGEENCRYPTED has the wrong type")
	}
''','''	if entry.UIDMESSAGEENCRYPTED, ok = e["UIDMESSAGEENCRYPTED"].(string); !ok {
		return nil, log.Error("cryptengine: KeyRepository.FetchUID UIDMESSAGEENCRYPTED has the wrong type")
	}
'''),('''	msgReply := &uid.MessageReply{
		ENTRY:           entry,
		SERVERSIGNATURE: srvSig,
	}
	return msgReply, err
''','''	return &uid.MessageReply{ENTRY: entry, SERVERSIGNATURE: srvSig}, nil
'''),('''	// For the first keyserver message we do not need to verify the server signature
	if uid.Localpart() == "keyserver" && uid.UIDContent.MSGCOUNT == 0 {
		return nil
	}
''','''	// For the first keyserver message we do not need to verify the server signature
	firstKeyserver := uid.Localpart() == "keyserver" && uid.UIDContent.MSGCOUNT == 0
	if firstKeyserver {
		return nil
	}
'''),('''		tmp := make([]byte, len(k1)+len(mappedID))
		copy(tmp, k1)
		copy(tmp[len(k1):], mappedID)
		HashIDTest := cipher.SHA256(tmp)

		// If NOT: HashID == HashIDTest: Continue
		if !bytes.Equal(HashID, HashIDTest) {
			continue
		}
''','''		if !bytes.Equal(HashID, hashIDTest(k1, mappedID)) {
			continue
		}
'''),('''		tmp = make([]byte, len(k2)+len(mappedID))
		copy(tmp, k2)
		copy(tmp[len(k2):], mappedID)
		IDKEY := cipher.SHA256(tmp)
''','''		IDKEY := hashIDTest(k2, mappedID)
'''))
app(f,'''
func checkType(t []byte) error {
	if !bytes.Equal(t, hashchain.Type) {
		return log.Error("cryptengine: invalid hash chain entry type")
	}
	return nil
}

func entryHash(TYPE, NONCE, HashID, CrUID, UIDIndex, prev []byte) []byte {
	entryN := make([]byte, 153)
	copy(entryN, TYPE)
	copy(entryN[1:], NONCE)
	copy(entryN[9:], HashID)
	copy(entryN[41:], CrUID)
	copy(entryN[89:], UIDIndex)
	copy(entryN[121:], prev)
	return cipher.SHA256(entryN)
}

func hashIDTest(k1 []byte, id string) []byte {
	tmp := make([]byte, len(k1)+len(id))
	copy(tmp, k1)
	copy(tmp[len(k1):], id)
	return cipher.SHA256(tmp)
}

func (ce *CryptEngine) storeEntry(domain string, pos uint64, v interface{}) error {
	entry, ok := v.(string)
	if !ok {
		return log.Error("cryptengine: fetch hash chain entry is not a string")
	}
	log.Debugf("cryptengine: HC#%d: %s", pos, entry)
	return ce.keyDB.AddHashChainEntry(domain, pos, entry)
}
''')
f="uid/keyinit.go"
ed(f,('''	sa, err := ki.SessionAnchor(sigPubKey)
	if err != nil {
		return nil, err
	}
	ke, err := sa.KeyEntry("ECDHE25519")
	if err != nil {
		return nil, err
	}
	return ke, err
''','''	sa, err := ki.SessionAnchor(sigPubKey)
	if err != nil {
		return nil, err
	}
	return sa.KeyEntry("ECDHE25519")
'''),('''	// verify that SESSIONANCHORHASH matches decrypted SESSIONANCHOR
	sa, err := ki.SessionAnchor(sigPubKey)
	if err != nil {
		return err
	}

	// get KeyEntry message from SessionAnchor
	ke, err := sa.KeyEntry("ECDHE25519")
	if err != nil {
		return err
	}
''','''	ke, err := ki.KeyEntryECDHE25519(sigPubKey)
	if err != nil {
		return err
	}
'''),('''	// SIGNATURE was made with UIDMessage.UIDContent.SIGKEY over Contents
	var ed25519Key cipher.Ed25519Key
	sig, err := base64.Decode(ki.SIGNATURE)
	if err != nil {
		return err
	}
	pubKey, err := base64.Decode(sigPubKey)
	if err != nil {
		return err
	}
	// create ed25519 key
	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
		return err
	}
	// verify self-signature
	if !ed25519Key.Verify(ki.Contents.json(), sig) {
		log.Error(ErrInvalidKeyInitSig)
		return ErrInvalidKeyInitSig
	}

	return nil
''','''	return verifySig(ki.Contents.json(), ki.SIGNATURE, sigPubKey, ErrInvalidKeyInitSig)
'''),('''	var ed25519Key cipher.Ed25519Key
	// get server-signature
	sig, err := base64.Decode(signature)
	if err != nil {
		return err
	}
	// create ed25519 key
	pubKey, err := base64.Decode(srvPubKey)
	if err != nil {
		return err
	}
	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
		return err
	}
	// verify server-signature
	if !ed25519Key.Verify(ki.JSON(), sig) {
		log.Error(ErrInvalidSrvSig)
		return ErrInvalidSrvSig
	}
	return nil
''','''	return verifySig(ki.JSON(), signature, srvPubKey, ErrInvalidSrvSig)
'''),('''	var keyInit KeyInit
	// time checks
	if notbefore >= notafter {
		log.Error(ErrInvalidTimes)
		return nil, "", "", ErrInvalidTimes
	}
	if notafter < uint64(times.Now()) {
		log.Error(ErrExpired)
		return nil, "", "", ErrExpired
	}
	if notafter > uint64(times.Now())+MaxNotAfter {
		log.Error(ErrFuture)
		return nil, "", "", ErrFuture
	}
''','''	var keyInit KeyInit
	if err := checkTimes(notafter, notbefore); err != nil {
		log.Error(err)
		return nil, "", "", err
	}
'''),('''	// init
	keyInit.Contents.VERSION = ProtocolVersion
	keyInit.Contents.MSGCOUNT = msgcount
	keyInit.Contents.NOTAFTER = notafter
	keyInit.Contents.NOTBEFORE = notbefore
	keyInit.Contents.FALLBACK = fallback
''','''	// init
	c := &keyInit.Contents
	c.VERSION = ProtocolVersion
	c.FALLBACK = fallback
	c.MSGCOUNT = msgcount
	c.NOTBEFORE = notbefore
	c.NOTAFTER = notafter
'''))
app(f,'''
func checkTimes(notafter, notbefore uint64) error {
	if notbefore >= notafter {
		return ErrInvalidTimes
	}
	now := uint64(times.Now())
	if notafter < now {
		return ErrExpired
	}
	if notafter > now+MaxNotAfter {
		return ErrFuture
	}
	return nil
}

// verifySig verifies the base64 encoded signature of data.
func verifySig(data []byte, signature, pub string, failure error) error {
	sig, err := base64.Decode(signature)
	if err != nil {
		return err
	}
	pubKey, err := base64.Decode(pub)
	if err != nil {
		return err
	}
	var key cipher.Ed25519Key
	if err := key.SetPublicKey(pubKey); err != nil {
		return err
	}
	if !key.Verify(data, sig) {
		log.Error(failure)
		return failure
	}
	return nil
}
''')
