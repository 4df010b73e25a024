import re,sys
R='/tmp/rfc/hand5/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        if s.count(a)<1: print("MISSING",f,a[:60]); continue
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
def fn(f,head,new):
    s=open(R+f).read()
    i=s.index(head); j=s.index("\n}\n",i)+3
    s=s[:i]+new.lstrip("\n")+s[j:]
    open(R+f,'w').write(s)
def app(f,t):
    open(R+f,'a').write(t)
E="msg/encrypt.go"
s=open(R+E).read()
# d) start session extracted
i=s.index("		// no session found -> start first session\n"); j=s.index("	} else if args.StatusCode != StatusError {")
s=s[:i]+'''		ss, nymAddress, err = startSession(args, senderHeaderKey.PublicKey(), sessionStateKey)
		if err != nil {
			return "", err
		}
'''+s[j:]
s=s.replace('''	var contentHash []byte
	var innerType uint8
	if args.PrivateSigKey != nil {
		contentHash = cipher.SHA512(content)
		innerType = dataType | signType
	} else {
		innerType = dataType
	}
''','''	var contentHash []byte
	innerType := uint8(dataType)
	if args.PrivateSigKey != nil {
		contentHash = cipher.SHA512(content)
		innerType |= signType
	}
''')
i=s.index("	// signature header & padding\n"); j=s.index("	// encrypt inner header\n")
s=s[:i]+'''	// signature header & padding
	buf.Reset()
	padLen := MaxContentLength - len(content)
	if args.PrivateSigKey != nil {
		sig := ed25519.Sign(args.PrivateSigKey[:], contentHash)
		if err := newInnerHeader(signatureType, true, sig[:]).write(&buf); err != nil {
			return "", err
		}
	} else {
		padLen += signatureSize - encryptedPacketSize + innerHeaderSize
	}
	pad, err := padding.Generate(padLen, cipher.RandReader)
	if err != nil {
		return "", err
	}
	ih = newInnerHeader(paddingType, false, pad)
	if err := ih.write(&buf); err != nil {
		return "", err
	}
'''+s[j:]
s=s.replace('''	sender := args.From.Identity()
	recipient := args.To.Identity()
	sessionStateKey''','''	sessionStateKey''')
s=s.replace("generateMessageKeys(sender, recipient, args.From","generateMessageKeys(args.From.Identity(), args.To.Identity(), args.From")
open(R+E,'w').write(s)
app(E,'''
// startSession starts the first session between args.From and args.To.
func startSession(args *EncryptArgs, senderHeaderPub *[32]byte, sessionStateKey string) (*session.State, string, error) {
	recipientTemp, nymAddress, err := args.KeyStore.GetPublicKeyEntry(args.To)
	if err != nil {
		return nil, "", err
	}
	var senderSession uid.KeyEntry
	err = senderSession.InitDHKey(args.Rand)
	if err != nil {
		return nil, "", err
	}
	err = addSessionKey(args.KeyStore, &senderSession)
	if err != nil {
		return nil, "", err
	}
	err = rootKeyAgreementSender(senderHeaderPub,
		args.From.Identity(), args.To.Identity(), &senderSession,
		args.From.PubKey(), recipientTemp, args.To.PubKey(), nil,
		args.NumOfKeys, args.KeyStore)
	if err != nil {
		return nil, "", err
	}
	ss := &session.State{
		RecipientTemp:    *recipientTemp,
		SenderSessionPub: senderSession,
		NymAddress:       nymAddress,
		KeyInitSession:   true,
	}
	log.Debugf("set session: %s", ss.SenderSessionPub.HASH)
	if err := args.KeyStore.SetSessionState(sessionStateKey, ss); err != nil {
		return nil, "", err
	}
	return ss, nymAddress, nil
}
''')
H="msg/header.go"
fn(H,'func (h *header) verify() error','''
func (h *header) verify() error {
	if err := verifyDHKey("SenderSessionPub", &h.SenderSessionPub); err != nil {
		return err
	}
	if err := verifyDHKey("SenderIdentityPub", &h.SenderIdentityPub); err != nil {
		return err
	}
	if next := h.NextSenderSessionPub; next != nil {
		if err := verifyDHKey("NextSenderSessionPub", next); err != nil {
			return err
		}
	}
	if seen := h.NextRecipientSessionPubSeen; seen != nil {
		if err := verifyDHKey("NextRecipientSessionPubSeen", seen); err != nil {
			return err
		}
	}
	return nil
}

func verifyDHKey(name string, ke *uid.KeyEntry) error {
	if err := ke.Verify(); err != nil {
		return err
	}
	if ke.FUNCTION == "ECDHE25519" {
		return nil
	}
	return log.Errorf("msg: wrong uid.%s.FUNCTION: %s", name, ke.FUNCTION)
}
''')
ed(H,('''	var jsn []byte
	var suc bool
	var identity *uid.Message
	for _, uidMsg := range identities {
		log.Debugf("try identity %s (#%d)", uidMsg.Identity(),
			uidMsg.UIDContent.MSGCOUNT)
		log.Debugf("recvPub=%s\\n",
			base64.Encode(uidMsg.PubKey().PublicKey32()[:]))
		jsn, suc = box.Open(jsn, hp.EncryptedHeader, &hp.Nonce,
			senderHeaderPub, uidMsg.PubKey().PrivateKey32())
		if suc {
			identity = uidMsg
			break
		}
	}
	if !suc {
		return nil, nil, log.Error(ErrNoPreHeaderKey)
	}
	var h header
	if err := json.Unmarshal(jsn, &h); err != nil {
		return nil, nil, err
	}
	// verify header
	if err := h.verify(); err != nil {
		return nil, nil, err
	}
	return identity, &h, nil
''','''	identity, jsn, ok := hp.open(senderHeaderPub, identities)
	if !ok {
		return nil, nil, log.Error(ErrNoPreHeaderKey)
	}
	h := new(header)
	if err := json.Unmarshal(jsn, h); err != nil {
		return nil, nil, err
	}
	err := h.verify()
	if err != nil {
		return nil, nil, err
	}
	return identity, h, nil
'''))
app(H,'''
func (hp *headerPacket) open(senderHeaderPub *[32]byte, identities []*uid.Message) (*uid.Message, []byte, bool) {
	for i := range identities {
		id := identities[i]
		log.Debugf("try identity %s (#%d)", id.Identity(), id.UIDContent.MSGCOUNT)
		log.Debugf("recvPub=%s", base64.Encode(id.PubKey().PublicKey32()[:]))
		jsn, ok := box.Open(nil, hp.EncryptedHeader, &hp.Nonce, senderHeaderPub, id.PubKey().PrivateKey32())
		if ok {
			return id, jsn, true
		}
	}
	return nil, nil, false
}
''')
ed(H,('''	// pad nextSenderSessionPub
	if nextSenderSessionPub == nil {
		padLen += length.KeyEntryECDHE25519 - length.Nil
	}
	// pad nextRecipientSessionPubSeen
	if nextRecipientSessionPubSeen == nil {
		padLen += length.KeyEntryECDHE25519 - length.Nil
	}
''','''	for _, ke := range []*uid.KeyEntry{nextSenderSessionPub, nextRecipientSessionPubSeen} {
		if ke == nil {
			padLen += length.KeyEntryECDHE25519 - length.Nil
		}
	}
'''),('''	padLen += 20 - digits.Count(h.MaxDelay)
	padLen += 20 - digits.Count(h.SenderSessionCount)
	padLen += 20 - digits.Count(h.SenderMessageCount)
''','''	padLen += 3*20 - digits.Count(h.MaxDelay) - digits.Count(h.SenderSessionCount) -
		digits.Count(h.SenderMessageCount)
'''),('''	randLen := padLen/2 + padLen%2
''','''	randLen := padLen/2 + padLen%2
'''),('''	if padLen%2 == 1 {
		p = p[:len(p)-1]
	}
	h.Padding = p
''','''	if padLen%2 != 0 {
		p = p[:len(p)-1]
	}
	h.Padding = p
'''))
I="msg/inner.go"
ed(I,('''	if err := binary.Write(w, binary.BigEndian, ih.Type); err != nil {
		return log.Error(err)
	}
	if err := binary.Write(w, binary.BigEndian, ih.PLen); err != nil {
		return log.Error(err)
	}
	if err := binary.Write(w, binary.BigEndian, ih.More); err != nil {
		return log.Error(err)
	}
	if err := binary.Write(w, binary.BigEndian, ih.Skip); err != nil {
		return log.Error(err)
	}
''','''	for _, field := range []interface{}{ih.Type, ih.PLen, ih.More, ih.Skip} {
		if err := binary.Write(w, binary.BigEndian, field); err != nil {
			return log.Error(err)
		}
	}
'''),('''	if ih.Type != paddingType &&
		ih.Type != dataType &&
		ih.Type != dataType|signType &&
		ih.Type != signatureType {
		return nil, log.Errorf("msg: invalid inner header type %d", ih.Type)
	}
''','''	switch ih.Type {
	case paddingType, dataType, dataType | signType, signatureType:
	default:
		return nil, log.Errorf("msg: invalid inner header type %d", ih.Type)
	}
'''),('''	var ih innerHeader
	ih.Type = ihType
	ih.PLen = uint16(len(content))
	if more {
		ih.More = 1
	}
	ih.content = content
	return &ih
''','''	ih := &innerHeader{
		Type:    ihType,
		PLen:    uint16(len(content)),
		content: content,
	}
	if more {
		ih.More = 1
	}
	return ih
'''))
D="msg/decrypt.go"
ed(D,('''		numOfKeys := h.SenderMessageCount / args.NumOfKeys
		if h.SenderMessageCount%args.NumOfKeys > 0 {
			numOfKeys++
		}
		numOfKeys *= args.NumOfKeys
		if numOfKeys > mime.MaxMsgSize/MaxContentLength+NumOfFutureKeys {
''','''		const maxKeys = mime.MaxMsgSize/MaxContentLength + NumOfFutureKeys
		numOfKeys := h.SenderMessageCount / args.NumOfKeys
		if h.SenderMessageCount%args.NumOfKeys != 0 {
			numOfKeys++
		}
		if numOfKeys *= args.NumOfKeys; numOfKeys > maxKeys {
'''),('''		var recipientPub *[32]byte
		if h.RecipientTempHash == ss.SenderSessionPub.HASH {
			recipientPub = ss.SenderSessionPub.PublicKey32()
		} else {
			log.Debug("different session")
			recipientKI, err := args.KeyStore.GetPrivateKeyEntry(h.RecipientTempHash)
			if err != nil && err != session.ErrNoKeyEntry {
				return "", "", err
			}
			if err != session.ErrNoKeyEntry {
				recipientPub = recipientKI.PublicKey32()
			} else {
				recipientKE, err := getSessionKey(args.KeyStore,
					h.RecipientTempHash)
				if err != nil {
					return "", "", err
				}
				recipientPub = recipientKE.PublicKey32()
			}
		}
''','''		recipientPub, err := recipientTempPub(args.KeyStore, ss, h.RecipientTempHash)
		if err != nil {
			return "", "", err
		}
'''),('''				ss = &session.State{
					SenderSessionCount:          ss.SenderSessionCount + ss.SenderMessageCount,
					SenderMessageCount:          0,
					MaxRecipientCount:           0,
					RecipientTemp:               h.SenderSessionPub,
					SenderSessionPub:            *ss.NextSenderSessionPub,
					NextSenderSessionPub:        nil,
					NextRecipientSessionPubSeen: nil,
					NymAddress:                  h.NymAddress,
					KeyInitSession:              false,
				}
''','''				ss = nextState(ss, h, &h.SenderSessionPub, ss.NextSenderSessionPub)
'''),('''					ss = &session.State{
						SenderSessionCount:          ss.SenderSessionCount + ss.SenderMessageCount,
						SenderMessageCount:          0,
						MaxRecipientCount:           0,
						RecipientTemp:               *h.NextSenderSessionPub,
						SenderSessionPub:            *nextSenderSession,
						NextSenderSessionPub:        nil,
						NextRecipientSessionPubSeen: nil,
						NymAddress:                  h.NymAddress,
						KeyInitSession:              false,
					}
''','''					ss = nextState(ss, h, h.NextSenderSessionPub, nextSenderSession)
'''),('''	var contentHash []byte
	if ih.Type&signType != 0 {
		// create signature hash
		contentHash = cipher.SHA512(ih.content)
	}
	content := ih.content
''','''	content := ih.content
	var contentHash []byte
	if signed := ih.Type&signType != 0; signed {
		contentHash = cipher.SHA512(content)
	}
'''))
app(D,'''
// nextState is the state of the session that follows ss.
func nextState(ss *session.State, h *header, recipientTemp, senderSession *uid.KeyEntry) *session.State {
	return &session.State{
		SenderSessionCount: ss.SenderSessionCount + ss.SenderMessageCount,
		RecipientTemp:      *recipientTemp,
		SenderSessionPub:   *senderSession,
		NymAddress:         h.NymAddress,
	}
}

func recipientTempPub(keyStore session.Store, ss *session.State, hash string) (*[32]byte, error) {
	if hash == ss.SenderSessionPub.HASH {
		return ss.SenderSessionPub.PublicKey32(), nil
	}
	ke, err := keyStore.GetPrivateKeyEntry(hash)
	if err == session.ErrNoKeyEntry {
		ke, err = getSessionKey(keyStore, hash)
	}
	if err != nil {
		return nil, err
	}
	return ke.PublicKey32(), nil
}
''')
