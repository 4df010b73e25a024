import re,sys
R='/tmp/rfc/hand6/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        if s.count(a)<1: print("MISSING",f,a[:60]); continue
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
def fn(f,head,new):
    s=open(R+f).read()
    i=s.index(head); j=s.index("\n}\n",i)+3
    s=s[:i]+new.lstrip("\n")+s[j:]
    open(R+f,'w').write(s)
def app(f,t):
    open(R+f,'a').write(t)
E="msg/encrypt.go"
C="ctrlengine/msg.go"
s=open(R+C).read()
# extract createEnvelope helper from procOutQueue
i=s.index("			// parse nymaddress\n			na, err := base64.Decode(nymaddress)"); j=s.index("			msg = env\n",i)
s=s[:i]+'''			env, err := ce.makeEnvelope(c, oqIdx, msg, nymaddress, minDelay, maxDelay)
			if err != nil {
				return err
			}
'''+s[j:]
s=s.replace('''		if resend {
			// set resend status
			log.Debug("resend")
			if err := ce.msgDB.SetResendOutQueue(oqIdx); err != nil {
				return err
			}
		} else {
			// remove from outqueue
			log.Debug("remove")
			if err := ce.msgDB.RemoveOutQueue(oqIdx, sendTime); err != nil {
				return err
			}
		}
''','''		if !resend {
			log.Debug("remove")
			err = ce.msgDB.RemoveOutQueue(oqIdx, sendTime)
		} else {
			log.Debug("resend")
			err = ce.msgDB.SetResendOutQueue(oqIdx)
		}
		if err != nil {
			return err
		}
''')
s=s.replace('''			if strings.HasSuffix(err.Error(), client.ErrFinal.Error()) {
				log.Debug("retract")
				if err := ce.msgDB.RetractOutQueue(oqIdx); err != nil {
					return err
				}
				continue
			}
			return log.Error(err)
''','''			if !strings.HasSuffix(err.Error(), client.ErrFinal.Error()) {
				return log.Error(err)
			}
			log.Debug("retract")
			if err := ce.msgDB.RetractOutQueue(oqIdx); err != nil {
				return err
			}
			continue
''')
i=s.index("	var nyms []string\n	if all {"); j=s.index("\n}\n",i)
s=s[:i]+'''	if all {
		ids, err := ce.msgDB.GetNyms(true)
		if err != nil {
			return nil, err
		}
		return append([]string(nil), ids...), nil
	}
	idMapped, err := identity.Map(id)
	if err != nil {
		return nil, err
	}
	prev, _, err := ce.msgDB.GetNym(idMapped)
	switch {
	case err != nil:
		return nil, err
	case prev == "":
		return nil, log.Errorf("user ID %s not found", id)
	}
	return []string{idMapped}, nil'''+s[j:]
s=s.replace('''	var msg []byte
	if file != "" {
		// read message from file
		msg, err = ioutil.ReadFile(file)
		if err != nil {
			return log.Error(err)
		}
	} else if line != nil {
		// read message from terminal
		fmt.Fprintln(ce.fileTable.StatusFP,
			"type message (end with Ctrl-D on empty line):")
		var inbuf bytes.Buffer
		for {
			ln, err := line.Prompt("")
			if err != nil {
				if err == io.EOF {
					break
				}
				return log.Error(err)
			}
			inbuf.WriteString(ln + "\\n")
		}
		msg = inbuf.Bytes()
	} else {
		// read message from stdin
		msg, err = ioutil.ReadAll(r)
		if err != nil {
			return log.Error(err)
		}
	}
''','''	msg, err := ce.readMessage(file, line, r)
	if err != nil {
		return log.Error(err)
	}
''')
s=s.replace("prev == \"\" || contactType == msgdb.GrayList || contactType == msgdb.BlackList","known := prev != \"\" && contactType != msgdb.GrayList && contactType != msgdb.BlackList; !known")
s=s.replace('''	if len(errbuf.String()) > 0 {
		errstr := strings.TrimSpace(errbuf.String())
		if !strings.HasPrefix(errstr, "RESEND:\\t") {
			return false,
				log.Errorf("ctrlengine: muteproto status output not parsable: %s", errstr)
		}
		log.Warn(errstr)
		resend = true
	}
	return
''','''	if errbuf.String() == "" {
		return false, nil
	}
	errstr := strings.TrimSpace(errbuf.String())
	if !strings.HasPrefix(errstr, "RESEND:\\t") {
		return false,
			log.Errorf("ctrlengine: muteproto status output not parsable: %s", errstr)
	}
	log.Warn(errstr)
	return true, nil
''')
open(R+C,'w').write(s)
app(C,'''
func (ce *CtrlEngine) makeEnvelope(c *cli.Context, oqIdx int64, msg, nymaddress string, minDelay, maxDelay int32) (string, error) {
	na, err := base64.Decode(nymaddress)
	if err != nil {
		return "", log.Error(err)
	}
	addr, err := nymaddr.ParseAddress(na)
	if err != nil {
		return "", err
	}
	var pubkey [32]byte
	copy(pubkey[:], addr.TokenPubKey)
	token, err := wallet.GetToken(ce.client, "Message", &pubkey)
	if err != nil {
		return "", err
	}
	env, err := muteprotoCreate(c, msg, minDelay, maxDelay,
		base64.Encode(token.Token), nymaddress)
	if err != nil {
		ce.client.UnlockToken(token.Hash)
		return "", log.Error(err)
	}
	if err := ce.msgDB.SetOutQueue(oqIdx, env); err != nil {
		ce.client.UnlockToken(token.Hash)
		return "", err
	}
	ce.client.DelToken(token.Hash)
	return env, nil
}

func (ce *CtrlEngine) readMessage(file string, line *liner.State, r io.Reader) ([]byte, error) {
	if file != "" {
		return ioutil.ReadFile(file)
	}
	if line == nil {
		return ioutil.ReadAll(r)
	}
	fmt.Fprintln(ce.fileTable.StatusFP,
		"type message (end with Ctrl-D on empty line):")
	var inbuf bytes.Buffer
	for {
		ln, err := line.Prompt("")
		if err == io.EOF {
			return inbuf.Bytes(), nil
		}
		if err != nil {
			return nil, err
		}
		inbuf.WriteString(ln + "\\n")
	}
}
''')
K="cryptengine/keyinit.go"
s=open(R+K).read()
i=s.index("	for i, ki := range kis {\n		sig, ok := sigs[i].(string)"); j=s.index("\n}\n",i)
s=s[:i]+'''	if err := verifySrvSigs(kis, sigs, caps.SIGPUBKEYS[0]); err != nil {
		return err
	}
	// store server key init messages and server signatures
	for i := range kis {
		err := ce.keyDB.AddPrivateKeyInit(kis[i], pubKeyHashes[i], msg.SigPubKey(), privateKeys[i], sigs[i].(string))
		if err != nil {
			return err
		}
	}
	return nil'''+s[j:]
s=s.replace('''	content := make(map[string]interface{})
	content["SigPubKey"] = msg.UIDContent.SIGKEY.PUBKEY
	content["KeyInits"] = kis
	content["Tokens"] = tokens
''','''	content := map[string]interface{}{
		"SigPubKey": msg.UIDContent.SIGKEY.PUBKEY,
		"KeyInits":  kis,
		"Tokens":    tokens,
	}
''')
s=s.replace('''	content := make(map[string]interface{})
	content["SigKeyHash"] = sigKeyHash
	reply, err := client''','''	reply, err := client''').replace('"KeyInitRepository.FetchKeyInit", content)','"KeyInitRepository.FetchKeyInit", map[string]interface{}{"SigKeyHash": sigKeyHash})')
s=s.replace('''	if err := ki.Check(); err != nil {
		return err
	}
	if err := ki.Verify(msg.UIDContent.REPOURIS, msg.SigPubKey()); err != nil {
		return err
	}
''','''	err = ki.Check()
	if err == nil {
		err = ki.Verify(msg.UIDContent.REPOURIS, msg.SigPubKey())
	}
	if err != nil {
		return err
	}
''')
open(R+K,'w').write(s)
app(K,'''
func verifySrvSigs(kis []*uid.KeyInit, sigs []interface{}, srvKey string) error {
	for i, ki := range kis {
		sig, ok := sigs[i].(string)
		if !ok {
			return log.Error("cryptengine: signature is not a string")
		}
		// TODO: keyserver can return more than one SIGPUBKEY
		if err := ki.VerifySrvSig(sig, srvKey); err != nil {
			return err
		}
	}
	return nil
}
''')
F="protoengine/fetch.go"
s=open(R+F).read()
i=s.index('		if command == "NEXT" {'); j=s.index("	// no more messages\n	log.Info",i)
s=s[:i]+'''		switch command {
		case "NEXT":
			log.Debug("read: NEXT")
		case "QUIT":
			log.Debug("read: QUIT")
			return nil
		default:
			return log.Errorf("protoengine: unknown command '%s'", command)
		}
		enc := base64.Encode(msg)
		if _, err := io.WriteString(output, enc); err != nil {
			return log.Error(err)
		}
		log.Debugf("write: LENGTH:\\t%d", len(enc))
		fmt.Fprintf(status, "LENGTH:\\t%d\\n", len(enc))
		log.Debugf("write: RECEIVETIME:\\t%d", message.ReceiveTime)
		fmt.Fprintf(status, "RECEIVETIME:\\t%d\\n", message.ReceiveTime)
	}
'''+s[j:]
s=s.replace('''		var command string
		if scanner.Scan() {
			command = scanner.Text()
		} else {
			return log.Error("protoengine: expecting command input")
		}
''','''		if !scanner.Scan() {
			return log.Error("protoengine: expecting command input")
		}
		command := scanner.Text()
''')
open(R+F,'w').write(s)
P="protoengine/create.go"
ed(P,('''	message, err := base64.Decode(string(msg))
	if err != nil {
		return log.Error(err)
	}
	token, err := base64.Decode(tokenString)
	if err != nil {
		return log.Error(err)
	}
	na, err := base64.Decode(nymaddress)
	if err != nil {
		return log.Error(err)
	}
	mo := client.MessageInput{
		SenderMinDelay: minDelay,
		SenderMaxDelay: maxDelay,
		Token:          token,
		NymAddress:     na,
		Message:        message,
		SMTPPort:       587,
		//SmartHost:      "mix.serviceguard.chavpn.net", // TODO: allow to set SmartHost
		CACert: def.CACert,
	}.Create()
''','''	in := client.MessageInput{
		SenderMinDelay: minDelay,
		SenderMaxDelay: maxDelay,
		SMTPPort:       587,
		CACert:         def.CACert,
	}
	if in.Message, err = base64.Decode(string(msg)); err != nil {
		return log.Error(err)
	}
	if in.Token, err = base64.Decode(tokenString); err != nil {
		return log.Error(err)
	}
	if in.NymAddress, err = base64.Decode(nymaddress); err != nil {
		return log.Error(err)
	}
	mo := in.Create()
'''))
X="mix/mixaddr/addrlist.go"
fn(X,'func (adr Address) image()','''
func (adr Address) image() []byte {
	var expire [8]byte
	binary.BigEndian.PutUint64(expire[:], uint64(adr.Expire))
	image := append([]byte{}, adr.Pubkey...)
	image = append(image, expire[:]...)
	image = append(image, adr.Address...)
	return append(image, adr.TokenKey...)
}
''')
fn(X,'func (adl AddressList) hash()','''
func (adl AddressList) hash() []byte {
	hasher := crypto.SHA256.New()
	for i := range adl {
		hasher.Write(adl[i].image())
	}
	return hasher.Sum(nil)
}
''')
fn(X,'func (adl AddressList) Append(','''
func (adl AddressList) Append(adr ...Address) AddressList {
	now := timeNow()
	if adl == nil {
		adl = AddressList{}
	}
	for _, a := range adr {
		if a.Expire <= now {
			continue
		}
		adl = append(adl, a)
	}
	return adl
}
''')
fn(X,'func (adl AddressList) AddStatement(','''
func (adl AddressList) AddStatement(stmt AddressStatement) AddressList {
	if adl == nil {
		adl = make(AddressList, 0)
	}
	if !stmt.Verify() {
		return adl
	}
	return adl.Append(stmt.Addresses...)
}
''')
fn(X,'func (adl AddressList) Expire(','''
func (adl AddressList) Expire(now int64) AddressList {
	if now == 0 {
		now = timeNow()
	}
	nadl := AddressList{}
	for i := 0; i < len(adl); i++ {
		if now < adl[i].Expire {
			nadl = append(nadl, adl[i])
		}
	}
	return nadl
}
''')
Y="mix/mixaddr/privkey.go"
fn(Y,'func (kl *KeyList) GetPrivateKey(','''
func (kl *KeyList) GetPrivateKey(pubkey *[KeySize]byte) *[KeySize]byte {
	keyEntry := kl.GetKeyEntry(pubkey)
	if keyEntry == nil {
		return nil
	}
	privkey := new([KeySize]byte)
	copy(privkey[:], keyEntry.Privkey)
	return privkey
}
''')
fn(Y,'func (kl *KeyList) expire()','''
func (kl *KeyList) expire() {
	now := timeNow()
	for k, e := range kl.Keys {
		if e.Expire < now {
			delete(kl.Keys, k)
		}
	}
}
''')
fn(Y,'func (kl *KeyList) updateStatement()','''
func (kl *KeyList) updateStatement() {
	al := make(AddressList, 0, len(kl.Keys))
	for _, key := range kl.Keys {
		al = append(al, key.address())
	}
	stmt := al.Statement(kl.PrivateKey)
	kl.statement = &stmt
}

func (ke KeyEntry) address() Address {
	return Address{
		Pubkey:   ke.Pubkey,
		Expire:   ke.Expire,
		Address:  ke.Address,
		TokenKey: ke.TokenKey,
	}
}
''')
M="msg/mime/mime.go"
ed(M,('''	msgLen := uint64(len(msg))
	numOfChunks := msgLen / size
	if msgLen%size > 0 {
		numOfChunks++
	}
''','''	msgLen := uint64(len(msg))
	numOfChunks := countChunks(msgLen, size)
'''),('''		end := (i + 1) * size
		if end > msgLen {
			end = msgLen
		}
''','''		end := msgLen
		if next := (i + 1) * size; next < end {
			end = next
		}
'''),('''		if attachment.ContentType != "" {
			mh.Add("Content-Type", attachment.ContentType)
		} else {
			ct := mime.TypeByExtension(filepath.Ext(base))
			if ct != "" {
				mh.Add("Content-Type", ct)
			} else {
				mh.Add("Content-Type", "application/octet-stream")
			}
		}
''','''		mh.Add("Content-Type", contentType(attachment, base))
'''),('''	if len(parts) == 1 {
		return subject, ""
	}
	message = parts[1]
	return
''','''	if len(parts) > 1 {
		message = parts[1]
	}
	return subject, message
'''))
app(M,'''
func countChunks(msgLen, size uint64) uint64 {
	n := msgLen / size
	if msgLen%size != 0 {
		n++
	}
	return n
}

func contentType(attachment *Attachment, base string) string {
	if attachment.ContentType != "" {
		return attachment.ContentType
	}
	if ct := mime.TypeByExtension(filepath.Ext(base)); ct != "" {
		return ct
	}
	return "application/octet-stream"
}
''')
