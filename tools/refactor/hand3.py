import re,sys,shutil,os
R='/tmp/rfc/hand3/'
exec(open('/tmp/hand1.py').read().split("# H1")[0].replace('/tmp/rfc/hand1/',R))
# 1 msg.Decrypt helpers
f='msg/decrypt.go'
s=open(R+f).read()
n=0
def rp(m):
    global n; n+=1
    new=':=' if n==1 else '='
    return '\toh, err %s readPacket(args.Reader, %s, %s, count)\n\tif err != nil {\n\t\treturn "", "", err\n\t}\n'%(new,m.group(1),m.group(2))
i=s.index('// read header packet')
head,body=s[:i],s[i:]
# normalise the first (count defined inside)
body=body.replace('''	oh, err := readOuterHeader(args.Reader)
	if err != nil {
		return "", "", err
	}
	if oh.Type != encryptedHeader {
		return "", "", log.Error(ErrNotEncryptedHeader)
	}
	count := uint32(1)
	if oh.PacketCount != count {
		return "", "", log.Error(ErrWrongCount)
	}
	count++
''','''	count := uint32(1)
	oh, err := readPacket(args.Reader, encryptedHeader, ErrNotEncryptedHeader, count)
	if err != nil {
		return "", "", err
	}
	count++
''')
n=1
body,k=re.subn(r'\t+oh, err :?= readOuterHeader\(args\.Reader\)\n\t+if err != nil \{\n\t+return "", "", err\n\t+\}\n\t+if oh\.Type != (\w+) \{\n\t+return "", "", log\.Error\((\w+)\)\n\t+\}\n\t+if oh\.PacketCount != count \{\n\t+return "", "", log\.Error\(ErrWrongCount\)\n\t+\}\n',rp,body)
print(k)
body,k=re.subn(r'\t+ciphertext = oh\.inner\n\t+plaintext = make\(\[\]byte, len\(ciphertext\)\)\n\t+stream\.XORKeyStream\(plaintext, ciphertext\)\n\t+ih, err = readInnerHeader\(bytes\.NewBuffer\(plaintext\)\)\n',
 '\t\tih, err = decryptPacket(stream, oh)\n',body)
print(k)
body=body.replace('''	ciphertext := oh.inner
	plaintext := make([]byte, len(ciphertext))
	stream := aes256.CTRStream(cryptoKey, iv)
	stream.XORKeyStream(plaintext, ciphertext)
	ih, err := readInnerHeader(bytes.NewBuffer(plaintext))
''','''	stream := aes256.CTRStream(cryptoKey, iv)
	ih, err := decryptPacket(stream, oh)
''')
body=body.replace('''		numOfKeys := h.SenderMessageCount / args.NumOfKeys
		if h.SenderMessageCount%args.NumOfKeys > 0 {
			numOfKeys++
		}
		numOfKeys *= args.NumOfKeys
''','''		numOfKeys := roundUp(h.SenderMessageCount, args.NumOfKeys)
''')
body+='''
// readPacket reads the next outer header packet and checks its type and count.
func readPacket(r io.Reader, packetType uint8, errType error, count uint32) (*outerHeader, error) {
	oh, err := readOuterHeader(r)
	if err != nil {
		return nil, err
	}
	if oh.Type != packetType {
		return nil, log.Error(errType)
	}
	if oh.PacketCount != count {
		return nil, log.Error(ErrWrongCount)
	}
	return oh, nil
}

func decryptPacket(stream gocipher.Stream, oh *outerHeader) (*innerHeader, error) {
	plaintext := make([]byte, len(oh.inner))
	stream.XORKeyStream(plaintext, oh.inner)
	return readInnerHeader(bytes.NewBuffer(plaintext))
}

// roundUp rounds count up to the next multiple of size.
func roundUp(count, size uint64) uint64 {
	n := count / size
	if count%size > 0 {
		n++
	}
	return n * size
}
'''
head=head.replace('"crypto/aes"\n','"crypto/aes"\n\tgocipher "crypto/cipher"\n')
open(R+f,'w').write(head+body)
# encdb
f='encdb/encdb.go'
s=open(R+f).read()
for k in ('dbfile','keyfile'):
    s=re.sub(r'\texists, err :?= fileExists\(%s\)\n\tif err != nil \{\n\t\treturn err\n\t\}\n\tif exists \{\n\t\treturn fmt.Errorf\("encdb: %s \'%%s\' exists already", %s\)\n\t\}\n'%(k,k,k), '\tif err := ensureAbsent("%s", %s); err != nil {\n\t\treturn err\n\t}\n'%(k,k), s)
s=s.replace('''	var av int64
	err := db.QueryRow("PRAGMA auto_vacuum;").Scan(&av)
	if err != nil {
		return err
	}
	if autoVacuumModes[av] != "INCREMENTAL" {''','''	mode, err := autoVacuumMode(db)
	if err != nil {
		return err
	}
	if mode != "INCREMENTAL" {''')
s=s.replace('''	var av int64
	err = db.QueryRow("PRAGMA auto_vacuum;").Scan(&av)
	if err != nil {
		return "", 0, err
	}
	autoVacuum = autoVacuumModes[av]
''','''	autoVacuum, err = autoVacuumMode(db)
	if err != nil {
		return "", 0, err
	}
''')
s+='''
func ensureAbsent(kind, filename string) error {
	exists, err := fileExists(filename)
	if err != nil {
		return err
	}
	if exists {
		return fmt.Errorf("encdb: %s '%s' exists already", kind, filename)
	}
	return nil
}

// autoVacuumMode returns the current auto_vacuum mode of db.
func autoVacuumMode(db *sql.DB) (string, error) {
	var av int64
	if err := db.QueryRow("PRAGMA auto_vacuum;").Scan(&av); err != nil {
		return "", err
	}
	return autoVacuumModes[av], nil
}
'''
open(R+f,'w').write(s)
# nymaddr
f='mix/nymaddr/addr.go'
s=open(R+f).read()
s=s.replace('''	pubkey := new([KeySize]byte)
	copy(pubkey[:], ad.MixPubKey)
	privkey := keysLookup(pubkey)
''','''	privkey := keysLookup(toKey(ad.MixPubKey))
''').replace('''	sharedSecret := new([KeySize]byte)
	addrKey := new([KeySize]byte)
	copy(addrKey[:], ad.AddressKey)
	curve25519.ScalarMult(sharedSecret, privkey, addrKey)
''','''	sharedSecret := calcSharedSecret(privkey, ad.AddressKey)
''').replace('''	sharedSecret := new([KeySize]byte)
	receiverPubKey := new([KeySize]byte)
	copy(receiverPubKey[:], ap.ReceiverPubKey)
	curve25519.ScalarMult(sharedSecret, privkey, receiverPubKey)
	return d, sharedSecret[:], nil
''','''	return d, calcSharedSecret(privkey, ap.ReceiverPubKey)[:], nil
''').replace('''	sharedSecret := new([KeySize]byte)
	senderPubKey := new([KeySize]byte)
	copy(senderPubKey[:], rh.SenderKey)
	curve25519.ScalarMult(sharedSecret, recPriv, senderPubKey)
	return nym, sharedSecret[:], nil
''','''	sharedSecret := calcSharedSecret(recPriv, rh.SenderKey)
	return nym, sharedSecret[:], nil
''')
s+='''
func toKey(b []byte) *[KeySize]byte {
	key := new([KeySize]byte)
	copy(key[:], b)
	return key
}

func calcSharedSecret(priv *[KeySize]byte, pub []byte) *[KeySize]byte {
	secret := new([KeySize]byte)
	curve25519.ScalarMult(secret, priv, toKey(pub))
	return secret
}
'''
open(R+f,'w').write(s)
# smtp
f='mix/smtpclient/client.go'
s=open(R+f).read()
a=s.index("	// Do TLS if offered\n"); b=s.index("	if !(mc.User == ")
c=s.index("	err = client.Mail(from)\n"); e=s.index("\n}\n",c)
tls=s[a:b]; auth=s[b:c]; send=s[c:e]
s=s[:a]+'''	if err := mc.upgradeTLS(client, host); err != nil {
		return err
	}
	if err := mc.authenticate(client, host); err != nil {
		return err
	}
	return mc.transfer(client, to, from, mail)
'''+s[e+1:]+'''
// upgradeTLS does TLS if offered.
func (mc *MailClient) upgradeTLS(client *smtp.Client, host string) error {
	if mc.NoSSL {
		return nil
	}
	if ok, _ := client.Extension("STARTTLS"); !ok {
		if mc.CACert != nil {
			mc.parseError(ErrNoTLS)
			return ErrFinal
		}
		return nil
	}
	tlsconfig := &tls.Config{ServerName: host}
	if mc.CACert != nil {
		tlsconfig.RootCAs = x509.NewCertPool()
		if !tlsconfig.RootCAs.AppendCertsFromPEM(mc.CACert) {
			mc.parseError(ErrNoTLS)
			return ErrFinal
		}
	}
	if err := client.StartTLS(tlsconfig); err != nil {
		return mc.parseError(err)
	}
	return nil
}

func (mc *MailClient) authenticate(client *smtp.Client, host string) error {
	if mc.User == "" || mc.Password == "" {
		return nil
	}
	ok, ext := client.Extension("AUTH")
	if !ok {
		mc.parseError(ErrNoAuth)
		return ErrFinal
	}
	var auth smtp.Auth
	switch {
	case strings.Contains(ext, "CRAM-MD5"):
		auth = smtp.CRAMMD5Auth(mc.User, mc.Password)
	case strings.Contains(ext, "PLAIN"):
		auth = smtp.PlainAuth("", mc.User, mc.Password, host)
	default:
		mc.parseError(ErrNoAuth)
		return ErrFinal
	}
	if err := client.Auth(auth); err != nil {
		return mc.parseError(err)
	}
	return nil
}

func (mc *MailClient) transfer(client *smtp.Client, to, from string, mail []byte) error {
	if err := client.Mail(from); err != nil {
		return mc.parseError(err)
	}
	if err := client.Rcpt(to); err != nil {
		return mc.parseError(err)
	}
	w, err := client.Data()
	if err != nil {
		return mc.parseError(err)
	}
	if _, err = w.Write(mail); err != nil {
		client.Reset()
		return mc.parseError(err)
	}
	if err = w.Close(); err != nil {
		client.Reset()
		return mc.parseError(err)
	}
	return mc.parseError(client.Quit())
}
'''
open(R+f,'w').write(s)
# configclient
f='configclient/client.go'
s=open(R+f).read()
for w in ('config','cacert'):
    s=s.replace('''	c := &http.Client{Timeout: time.Second * time.Duration(timeout)}
	resp, err := c.Get(fixURL(configURL) + "%s")
	if err != nil {
		return nil, err
	}
	p, err := readBody(resp.Body)
	if err != nil {'''%w,'''	p, err := fetch(configURL, "%s", timeout)
	if err != nil {'''%w)
s=s.replace('''CALoop:
		for ; c.curServer < len(c.servers); c.curServer++ {
			var caCert []byte
			caCert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
			if err == nil {
				c.CACert = caCert
				break CALoop
			}
		}
''','''		for c.curServer < len(c.servers) {
			var caCert []byte
			caCert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
			if err == nil {
				c.CACert = caCert
				break
			}
			c.curServer++
		}
''')
s+='''
// fetch retrieves the named resource from the given config server.
func fetch(configURL, resource string, timeout int64) ([]byte, error) {
	c := &http.Client{Timeout: time.Second * time.Duration(timeout)}
	resp, err := c.Get(fixURL(configURL) + resource)
	if err != nil {
		return nil, err
	}
	return readBody(resp.Body)
}
'''
open(R+f,'w').write(s)
# walletstore
f='serviceguard/client/walletstore/store.go'
s=open(R+f).read()
s=s.replace('''LookupLoop:
	for i := 0; i < 5; i++ {
		token, err := ws.getAndLockToken(usage, owner)
		if err == client.ErrLocked {
			continue LookupLoop
		}
		return token, err
	}
''','''	for tries := 5; tries > 0; tries-- {
		token, err := ws.getAndLockToken(usage, owner)
		if err != client.ErrLocked {
			return token, err
		}
	}
''')
s=s.replace('''	var hashS string
	var err error
	// Find only those that are not owned by self
	if owner != nil {
		ownerS := base64.StdEncoding.EncodeToString(owner[:])
		err = ws.findTokenOwnerQuery.QueryRow(ownerS, usage).Scan(&hashS)
	} else {
		err = ws.findTokenAnyQuery.QueryRow(usage).Scan(&hashS)
	}
	if err != nil {
		return nil, client.ErrNoToken
	}
''','''	hashS, err := ws.findForeign(usage, owner)
	if err != nil {
		return nil, client.ErrNoToken
	}
''')
s=s.replace('''	if len(state) > 0 {
		_, err = tx.Stmt(ws.setStateQuery).Exec(global.Hash, state)
		if err != nil {
			_, err = tx.Stmt(ws.setStateUpdateQuery).Exec(state, global.Hash)
			if err != nil {
				return err
			}
		}
	}
	return tx.Commit()
''','''	if len(state) > 0 {
		if err := ws.storeState(tx, global.Hash, state); err != nil {
			return err
		}
	}
	return tx.Commit()
''')
s+='''
func (ws *Storage) storeState(tx *sql.Tx, hash, state string) error {
	if _, err := tx.Stmt(ws.setStateQuery).Exec(hash, state); err == nil {
		return nil
	}
	_, err := tx.Stmt(ws.setStateUpdateQuery).Exec(state, hash)
	return err
}

// findForeign finds only those that are not owned by self
func (ws *Storage) findForeign(usage string, owner *[ed25519.PublicKeySize]byte) (hash string, err error) {
	if owner == nil {
		err = ws.findTokenAnyQuery.QueryRow(usage).Scan(&hash)
		return hash, err
	}
	ownerS := base64.StdEncoding.EncodeToString(owner[:])
	err = ws.findTokenOwnerQuery.QueryRow(ownerS, usage).Scan(&hash)
	return hash, err
}
'''
open(R+f,'w').write(s)
# keypool
ed('serviceguard/common/keypool/generator.go',('''		fetchedKeyMarshalled, err := kp.FetchKeyCallBack(keyid[:])
		if err != nil {
			return nil, err
		}
		fetchedKey, err := new(signkeys.PublicKey).Unmarshal(fetchedKeyMarshalled)
		if err != nil {
			return nil, err
		}
''','''		fetchedKey, err := kp.fetch(keyid)
		if err != nil {
			return nil, err
		}
'''),('''// lookup a public key from keypool without lock
''','''// fetch reads a public key from storage.
func (kp *KeyPool) fetch(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
	marshalled, err := kp.FetchKeyCallBack(keyid[:])
	if err != nil {
		return nil, err
	}
	return new(signkeys.PublicKey).Unmarshal(marshalled)
}

// lookup a public key from keypool without lock
'''),('''	if d, ok := kp.keys[keyid]; ok {
		if d.Expire > times.Now() {
			return d, nil
		}
		return nil, ErrExpired
	}
	return nil, ErrNotFound
''','''	key, found := kp.keys[keyid]
	if !found {
		return nil, ErrNotFound
	}
	if key.Expire <= times.Now() {
		return nil, ErrExpired
	}
	return key, nil
'''))
# hashchain
f='cryptengine/hashchain.go'
s=open(R+f).read()
s=s.replace('''		entryN := make([]byte, 153)
		copy(entryN, TYPE)
		copy(entryN[1:], NONCE)
		copy(entryN[9:], HashID)
		copy(entryN[41:], CrUID)
		copy(entryN[89:], UIDIndex)
		copy(entryN[121:], hashEntryNminus1)
		if !bytes.Equal(hashEntryN, cipher.SHA256(entryN)) {
''','''		expected := calcEntryHash(TYPE, NONCE, HashID, CrUID, UIDIndex, hashEntryNminus1)
		if !bytes.Equal(hashEntryN, expected) {
''')
a=s.index("	// get all private identities for the given domain\n"); b=s.index("	return nil\n}\n",a)
blk=s[a:b]
s=s[:a]+'	return ce.validateReplies(domain, max)\n}\n'+s[b+len("	return nil\n}\n"):]+'''
func (ce *CryptEngine) validateReplies(domain string, max uint64) error {
	ids, err := ce.keyDB.GetPrivateIdentitiesForDomain(domain)
	if err != nil {
		return err
	}
	for _, id := range ids {
		_, msgReply, err := ce.keyDB.GetPrivateUID(id, false)
		if err != nil {
			return err
		}
		if msgReply == nil || msgReply.ENTRY.HASHCHAINPOS > max {
			continue
		}
		entry, err := ce.keyDB.GetHashChainEntry(domain, msgReply.ENTRY.HASHCHAINPOS)
		if err != nil {
			return err
		}
		if entry != msgReply.ENTRY.HASHCHAINENTRY {
			return log.Errorf("cryptengine: hash chain entry differs from UIDMessageReply (%s)", id)
		}
	}
	return nil
}

// calcEntryHash computes the hash of a hash chain entry.
func calcEntryHash(entryType, nonce, hashID, crUID, uidIndex, prevHash []byte) []byte {
	entry := make([]byte, 153)
	copy(entry, entryType)
	copy(entry[1:], nonce)
	copy(entry[9:], hashID)
	copy(entry[41:], crUID)
	copy(entry[89:], uidIndex)
	copy(entry[121:], prevHash)
	return cipher.SHA256(entry)
}
'''
open(R+f,'w').write(s)
# contactAdd, contactEdit
ed('ctrlengine/contact.go',('''	if unmappedID != "" {
		log.Infof("contact already known -> make sure it is white listed")
		if prevContactType != msgdb.WhiteList {
			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
				prevFullName, msgdb.WhiteList)
			if err != nil {
				return err
			}
		}
		return nil
	}
''','''	if unmappedID != "" {
		log.Infof("contact already known -> make sure it is white listed")
		if prevContactType == msgdb.WhiteList {
			return nil
		}
		return ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
			prevFullName, msgdb.WhiteList)
	}
'''),('''func (ce *CtrlEngine) contactEdit(id, contact, fullName string) error {
	idMapped, err := identity.Map(id)
	if err != nil {
		return err
	}
	contactMapped, err := identity.Map(contact)
	if err != nil {
		return err
	}
''','''func mapPair(id, contact string) (idMapped, contactMapped string, err error) {
	if idMapped, err = identity.Map(id); err != nil {
		return "", "", err
	}
	if contactMapped, err = identity.Map(contact); err != nil {
		return "", "", err
	}
	return idMapped, contactMapped, nil
}

func (ce *CtrlEngine) contactEdit(id, contact, fullName string) error {
	idMapped, contactMapped, err := mapPair(id, contact)
	if err != nil {
		return err
	}
'''),('''func (ce *CtrlEngine) contactRemove(id, contact string) error {
	idMapped, err := identity.Map(id)
	if err != nil {
		return err
	}
	contactMapped, err := identity.Map(contact)
	if err != nil {
		return err
	}
''','''func (ce *CtrlEngine) contactRemove(id, contact string) error {
	idMapped, contactMapped, err := mapPair(id, contact)
	if err != nil {
		return err
	}
'''))
# uid.Check
f='uid/uid.go'
s=open(R+f).read()
a=s.index("	// UIDContent.PUBKEYS contains exactly one ECDHE25519"); b=s.index("	// UIDContent.SIGESCROW must be zero-value.\n")
s=s[:a]+'''	if err := msg.checkPubKeys(); err != nil {
		return err
	}
'''+s[b:]
s=s.replace('''	if msg.UIDContent.SIGESCROW != nil {
		if msg.UIDContent.SIGESCROW.CIPHERSUITE != "" ||
			msg.UIDContent.SIGESCROW.FUNCTION != "" ||
			msg.UIDContent.SIGESCROW.HASH != "" ||
			msg.UIDContent.SIGESCROW.PUBKEY != "" {
			return log.Error("uid: UIDContent.SIGESCROW must be zero-value")
		}
	}
''','''	if escrow := msg.UIDContent.SIGESCROW; escrow != nil {
		empty := escrow.CIPHERSUITE == "" && escrow.FUNCTION == "" &&
			escrow.HASH == "" && escrow.PUBKEY == ""
		if !empty {
			return log.Error("uid: UIDContent.SIGESCROW must be zero-value")
		}
	}
''')
s+='''
// checkPubKeys checks that UIDContent.PUBKEYS contains exactly one ECDHE25519
// key for the default ciphersuite.
func (msg *Message) checkPubKeys() error {
	if len(msg.UIDContent.PUBKEYS) != 1 {
		return log.Error("uid: UIDContent.PUBKEYS must contain exactly one key")
	}
	key := &msg.UIDContent.PUBKEYS[0]
	if key.CIPHERSUITE != DefaultCiphersuite {
		return log.Error("uid: UIDContent.PUBKEYS[0].CIPHERSUITE != DefaultCiphersuite")
	}
	if key.FUNCTION != "ECDHE25519" {
		return log.Error("uid: UIDContent.PUBKEYS[0].FUNCTION != \\"ECDHE25519\\"")
	}
	return key.Verify()
}
'''
open(R+f,'w').write(s)
