import re,sys
R='/tmp/rfc/hand1/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        if s.count(a)<1: print("MISSING",f,a[:60]); continue
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
def fn(f,head,new):
    s=open(R+f).read()
    i=s.index(head); j=s.index("\n}\n",i)+3
    s=s[:i]+new.lstrip("\n")+s[j:]
    open(R+f,'w').write(s)
# H1
fn('uid/uid.go','func (msg *Message) checkV1_0() error {','''
func isZeroKeyEntry(ke *KeyEntry) bool {
	return ke.CIPHERSUITE == "" && ke.FUNCTION == "" && ke.HASH == "" && ke.PUBKEY == ""
}

func checkPubKeys(keys []KeyEntry) error {
	if len(keys) != 1 {
		return log.Error("uid: UIDContent.PUBKEYS must contain exactly one key")
	}
	key := &keys[0]
	switch {
	case key.CIPHERSUITE != DefaultCiphersuite:
		return log.Error("uid: UIDContent.PUBKEYS[0].CIPHERSUITE != DefaultCiphersuite")
	case key.FUNCTION != "ECDHE25519":
		return log.Error("uid: UIDContent.PUBKEYS[0].FUNCTION != \\"ECDHE25519\\"")
	}
	return key.Verify()
}

func (msg *Message) checkV1_0() error {
	content := &msg.UIDContent
	if strict := Strict.String(); content.PREFERENCES.FORWARDSEC != strict {
		return log.Errorf("uid: FORWARDSEC must be %q", strict)
	}
	if err := checkPubKeys(content.PUBKEYS); err != nil {
		return err
	}
	if escrow := content.SIGESCROW; escrow != nil && !isZeroKeyEntry(escrow) {
		return log.Error("uid: UIDContent.SIGESCROW must be zero-value")
	}
	_, domain, _ := identity.Split(content.IDENTITY)
	if !(len(content.REPOURIS) == 1 && content.REPOURIS[0] == domain) {
		return log.Error("uid: UIDContent.REPOURIS must contain one entry (domain of identity)")
	}
	if content.CHAINLINK != nil && !reflect.DeepEqual(content.CHAINLINK, chainlink{}) {
		return log.Error("uid: UIDContent.CHAINLINK must be zero-value")
	}
	return nil
}
''')
# H2
fn('uid/uid.go','func (msg *Message) VerifySelfSig() error {','''
func decodeSigPubKey(enc string) (*cipher.Ed25519Key, error) {
	raw, err := base64.Decode(enc)
	if err != nil {
		return nil, err
	}
	key := new(cipher.Ed25519Key)
	if err := key.SetPublicKey(raw); err != nil {
		return nil, err
	}
	return key, nil
}

func (msg *Message) VerifySelfSig() error {
	signature, err := base64.Decode(msg.SELFSIGNATURE)
	if err != nil {
		return err
	}
	key, err := decodeSigPubKey(msg.UIDContent.SIGKEY.PUBKEY)
	if err != nil {
		return err
	}
	if ok := key.Verify(msg.UIDContent.JSON(), signature); !ok {
		return log.Error(ErrInvalidSelfSig)
	}
	return nil
}
''')
f='cryptengine/hashchain.go'
import os
# find file
import subprocess
f=subprocess.check_output("grep -l 'func (ce \\*CryptEngine) searchHashChain' %scryptengine/*.go"%R,shell=True,text=True).strip()[len(R):]
ed(f,('''	var hashEntryN, TYPE, NONCE, HashID, CrUID, UIDIndex, hashEntryNminus1 []byte
	for i := uint64(0); i <= max; i++ {''','''	prevHash := make([]byte, sha256.Size)
	for i := uint64(0); i <= max; i++ {'''),
('''		if i == 0 {
			hashEntryNminus1 = make([]byte, sha256.Size)
		} else {
			hashEntryNminus1 = hashEntryN
		}
		hashEntryN, TYPE, NONCE, HashID, CrUID, UIDIndex, err = hashchain.SplitEntry(entry)
''','''		hashEntryN, TYPE, NONCE, HashID, CrUID, UIDIndex, err := hashchain.SplitEntry(entry)
'''),
('''		entryN := make([]byte, 153)
		copy(entryN, TYPE)
		copy(entryN[1:], NONCE)
		copy(entryN[9:], HashID)
		copy(entryN[41:], CrUID)
		copy(entryN[89:], UIDIndex)
		copy(entryN[121:], hashEntryNminus1)
		if !bytes.Equal(hashEntryN, cipher.SHA256(entryN)) {
			return log.Errorf("cryptengine: hash chain entry %d invalid", i)
		}
''','''		entryN := assembleEntry(TYPE, NONCE, HashID, CrUID, UIDIndex, prevHash)
		if !bytes.Equal(hashEntryN, cipher.SHA256(entryN)) {
			return log.Errorf("cryptengine: hash chain entry %d invalid", i)
		}
		prevHash = hashEntryN
'''),
('''	for _, id := range ids {
		_, msgReply, err := ce.keyDB.GetPrivateUID(id, false)
		if err != nil {
			return err
		}
		if msgReply != nil && msgReply.ENTRY.HASHCHAINPOS <= max {
			entry, err := ce.keyDB.GetHashChainEntry(domain, msgReply.ENTRY.HASHCHAINPOS)
			if err != nil {
				return err
			}
			if entry != msgReply.ENTRY.HASHCHAINENTRY {
				return log.Errorf("cryptengine: hash chain entry differs from UIDMessageReply (%s)", id)
			}
		}
	}
''','''	for i := 0; i < len(ids); i++ {
		_, msgReply, err := ce.keyDB.GetPrivateUID(ids[i], false)
		if err != nil {
			return err
		}
		if msgReply == nil || msgReply.ENTRY.HASHCHAINPOS > max {
			continue
		}
		entry, err := ce.keyDB.GetHashChainEntry(domain, msgReply.ENTRY.HASHCHAINPOS)
		if err != nil {
			return err
		}
		if entry != msgReply.ENTRY.HASHCHAINENTRY {
			return log.Errorf("cryptengine: hash chain entry differs from UIDMessageReply (%s)", ids[i])
		}
	}
'''),
('''	var TYPE, NONCE, HashID, CrUID, UIDIndex []byte
	var matchFound bool
''','''	matchFound := false
'''),
('''		_, TYPE, NONCE, HashID, CrUID, UIDIndex, err = hashchain.SplitEntry(hcEntry)
''','''		_, TYPE, NONCE, HashID, CrUID, UIDIndex, err := hashchain.SplitEntry(hcEntry)
'''),
('''		tmp := make([]byte, len(k1)+len(mappedID))
		copy(tmp, k1)
		copy(tmp[len(k1):], mappedID)
		HashIDTest := cipher.SHA256(tmp)
''','''		HashIDTest := hashKeyAndID(k1, mappedID)
'''),
('''		tmp = make([]byte, len(k2)+len(mappedID))
		copy(tmp, k2)
		copy(tmp[len(k2):], mappedID)
		IDKEY := cipher.SHA256(tmp)
''','''		IDKEY := hashKeyAndID(k2, mappedID)
'''),
('''		// Check that message is consistent and belongs to the searched identity
		if err := uid.Check(); err != nil {
			return err
		}
		if uid.Identity() != mappedID {
			return log.Errorf("cryptengine: UID message is not for identity '%s'", mappedID)
		}

		// Verify self signature
		if err := uid.VerifySelfSig(); err != nil {
			return log.Error(err)
		}

		// Verify server signature
		if err := ce.verifyServerSig(uid, msgReply, i); err != nil {
			return err
		}
''','''		if err := ce.verifyFoundUID(uid, msgReply, mappedID, i); err != nil {
			return err
		}
'''),
('''	if matchFound {
		return nil
	}

	return log.Errorf("no hash chain entry found of id '%s'", id)
''','''	if !matchFound {
		return log.Errorf("no hash chain entry found of id '%s'", id)
	}
	return nil
'''),
('''	var start, end uint64
	if found {
		log.Debugf("cryptengine: last position for domain '%s': %d", domain, pos)
		if pos >= hcPos {
			// already in sync
			log.Debugf("cryptengine: hash chain already in sync")
			return nil
		}
		// sync the missing entries
		start = pos + 1
		end = hcPos
	} else {
		// no entries found -> get everything
		start = 0
		end = hcPos
		log.Debugf("cryptengine: no entry found for domain '%s'", domain)
	}
''','''	if found && pos >= hcPos {
		log.Debugf("cryptengine: hash chain already in sync")
		return nil
	}
	var start uint64
	if found {
		start = pos + 1
	} else {
		log.Debugf("cryptengine: no entry found for domain '%s'", domain)
	}
	end := hcPos
'''),
('''	content := make(map[string]interface{})
	content["StartPosition"] = start
	content["EndPosition"] = end
''','''	content := map[string]interface{}{
		"StartPosition": start,
		"EndPosition":   end,
	}
'''),
('''	for i := hcFirstPos; i <= hcPos; i++ {
		entry, ok := hcEntries[i-hcFirstPos].(string)
		if !ok {
			return log.Error("cryptengine: fetch hash chain entry is not a string")
		}
		log.Debugf("cryptengine: HC#%d: %s", i, entry)
		// store entry in database
		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
		if err != nil {
			return err
		}
	}

	return nil
''','''	i := hcFirstPos
	for i <= hcPos {
		entry, ok := hcEntries[i-hcFirstPos].(string)
		if !ok {
			return log.Error("cryptengine: fetch hash chain entry is not a string")
		}
		if err := ce.keyDB.AddHashChainEntry(domain, i, entry); err != nil {
			return err
		}
		i++
	}

	return nil
'''))
s=open(R+f).read()
m=re.search(r'uid, err := msgReply.Decrypt',s)
s+='''
func assembleEntry(typ, nonce, hashID, crUID, uidIndex, prev []byte) []byte {
	entry := make([]byte, 153)
	copy(entry, typ)
	copy(entry[1:], nonce)
	copy(entry[9:], hashID)
	copy(entry[41:], crUID)
	copy(entry[89:], uidIndex)
	copy(entry[121:], prev)
	return entry
}

func hashKeyAndID(key []byte, id string) []byte {
	buf := make([]byte, len(key)+len(id))
	copy(buf, key)
	copy(buf[len(key):], id)
	return cipher.SHA256(buf)
}

func (ce *CryptEngine) verifyFoundUID(msg *uid.Message, reply *uid.MessageReply, mappedID string, pos uint64) error {
	if err := msg.Check(); err != nil {
		return err
	}
	if msg.Identity() != mappedID {
		return log.Errorf("cryptengine: UID message is not for identity '%s'", mappedID)
	}
	if err := msg.VerifySelfSig(); err != nil {
		return log.Error(err)
	}
	return ce.verifyServerSig(msg, reply, pos)
}
'''
open(R+f,'w').write(s)
# H5
ed('ctrlengine/msg.go',('''			// parse nymaddress
			na, err := base64.Decode(nymaddress)
			if err != nil {
				return log.Error(err)
			}
			addr, err := nymaddr.ParseAddress(na)
			if err != nil {
				return err
			}
			// get token from wallet
			var pubkey [32]byte
			copy(pubkey[:], addr.TokenPubKey)
			token, err := wallet.GetToken(ce.client, "Message", &pubkey)
			if err != nil {
				return err
			}
			// `muteproto create`
			env, err := muteprotoCreate(c, msg, minDelay, maxDelay,
				base64.Encode(token.Token), nymaddress)
			if err != nil {
				ce.client.UnlockToken(token.Hash)
				return log.Error(err)
			}
			// update outqueue
			if err := ce.msgDB.SetOutQueue(oqIdx, env); err != nil {
				ce.client.UnlockToken(token.Hash)
				return err
			}
			ce.client.DelToken(token.Hash)
			msg = env
''','''			env, err := ce.createEnvelope(c, oqIdx, msg, nymaddress, minDelay, maxDelay)
			if err != nil {
				return err
			}
			msg = env
'''),
('''		if resend {
			// set resend status
			log.Debug("resend")
			if err := ce.msgDB.SetResendOutQueue(oqIdx); err != nil {
				return err
			}
		} else {
			// remove from outqueue
			log.Debug("remove")
			if err := ce.msgDB.RemoveOutQueue(oqIdx, sendTime); err != nil {
				return err
			}
		}
''','''		if err := ce.finishDelivery(oqIdx, sendTime, resend); err != nil {
			return err
		}
'''),
('''func (ce *CtrlEngine) procOutQueue(''','''func (ce *CtrlEngine) createEnvelope(
	c *cli.Context,
	oqIdx int64,
	msg, nymaddress string,
	minDelay, maxDelay int32,
) (string, error) {
	na, err := base64.Decode(nymaddress)
	if err != nil {
		return "", log.Error(err)
	}
	addr, err := nymaddr.ParseAddress(na)
	if err != nil {
		return "", err
	}
	var pubkey [32]byte
	copy(pubkey[:], addr.TokenPubKey)
	token, err := wallet.GetToken(ce.client, "Message", &pubkey)
	if err != nil {
		return "", err
	}
	env, err := muteprotoCreate(c, msg, minDelay, maxDelay,
		base64.Encode(token.Token), nymaddress)
	if err != nil {
		ce.client.UnlockToken(token.Hash)
		return "", log.Error(err)
	}
	if err := ce.msgDB.SetOutQueue(oqIdx, env); err != nil {
		ce.client.UnlockToken(token.Hash)
		return "", err
	}
	ce.client.DelToken(token.Hash)
	return env, nil
}

func (ce *CtrlEngine) finishDelivery(oqIdx, sendTime int64, resend bool) error {
	if resend {
		log.Debug("resend")
		return ce.msgDB.SetResendOutQueue(oqIdx)
	}
	log.Debug("remove")
	return ce.msgDB.RemoveOutQueue(oqIdx, sendTime)
}

func (ce *CtrlEngine) procOutQueue('''))
