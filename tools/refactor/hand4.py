import re,sys
R='/tmp/rfc/hand4/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        if s.count(a)<1: print("MISSING",f,a[:60]); continue
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
def eda(f,a,b):
    s=open(R+f).read()
    if a not in s: print("MISSING",f,a[:60])
    open(R+f,'w').write(s.replace(a,b))
def fn(f,head,new):
    s=open(R+f).read()
    i=s.index(head); j=s.index("\n}\n",i)+3
    s=s[:i]+new.lstrip("\n")+s[j:]
    open(R+f,'w').write(s)
A="mix/nymaddr/addr.go"
fn(A,'func (tmp AddressTemplate) NewAddress(','''
func (tmp AddressTemplate) NewAddress(MailboxAddress, Nym []byte) ([]byte, error) {
	nym := make([]byte, KeySize)
	copy(nym, Nym)
	mixAddress := tmp.MixCandidates.Expire(tmp.Expire).Rand()
	if mixAddress == nil {
		return nil, ErrNoMix
	}
	pubKeyRand, privKeyRand, err := genKeyRandom()
	if err != nil {
		return nil, err
	}
	nonce, err := genNonce()
	if err != nil {
		return nil, err
	}
	nymprivate := tmp.newPrivate(MailboxAddress, nym, nonce[:])
	privmarshal, err := asn1.Marshal(*nymprivate)
	if err != nil {
		return nil, err
	}
	cr, err := sharedCipher(privKeyRand, mixAddress.Pubkey)
	if err != nil {
		return nil, err
	}
	privmarshalEnc, err := cr.Encrypt(privmarshal)
	if err != nil {
		return nil, err
	}
	return asn1.Marshal(Address{
		MixAddress:  []byte(mixAddress.Address),
		MixPubKey:   mixAddress.Pubkey,
		TokenPubKey: mixAddress.TokenKey,
		Expire:      tmp.Expire,
		SingleUse:   tmp.SingleUse,
		AddressKey:  pubKeyRand[:],
		PrivateData: privmarshalEnc,
	})
}

func sharedCipher(priv *[KeySize]byte, pub []byte) (*lioness.Lioness, error) {
	var shared, pk [KeySize]byte
	copy(pk[:], pub)
	curve25519.ScalarMult(&shared, priv, &pk)
	return lioness.New(shared[:])
}

func (tmp AddressTemplate) newPrivate(mailbox, nym, nonce []byte) *AddressPrivate {
	ap := &AddressPrivate{
		System:    tmp.System,
		Address:   mailbox,
		Expire:    tmp.Expire,
		SingleUse: tmp.SingleUse,
		MinDelay:  tmp.MinDelay,
		MaxDelay:  tmp.MaxDelay,
		Nonce:     nonce,
	}
	recPub, _ := tmp.genDetermKeys(nonce, nym)
	ap.ReceiverPubKey = recPub[:]
	symkey := tmp.genSymKey(nonce, ap.ReceiverPubKey, mailbox)
	ap.EncNym = encryptNym(symkey, nym)
	ap.HMACHead = calcHmac(symkey, nonce, ap.ReceiverPubKey, ap.EncNym)
	return ap
}
''')
fn(A,'func (ad *Address) GetMixData(','''
func (ad *Address) GetMixData(keysLookup KeyFunc) (*AddressPrivate, error) {
	var pubkey [KeySize]byte
	copy(pubkey[:], ad.MixPubKey)
	privkey := keysLookup(&pubkey)
	if privkey == nil {
		return nil, ErrNoKey
	}
	cr, err := sharedCipher(privkey, ad.AddressKey)
	if err != nil {
		return nil, err
	}
	plain, err := cr.Decrypt(ad.PrivateData)
	if err != nil {
		return nil, err
	}
	var ap AddressPrivate
	if _, err := asn1.Unmarshal(plain, &ap); err != nil {
		return nil, err
	}
	return &ap, nil
}
''')
fn(A,'func (tmp AddressTemplate) GetPrivate(','''
func (tmp AddressTemplate) GetPrivate(header, MailboxAddress []byte) (nym, secret []byte, err error) {
	var rh RelayHeader
	if _, err := asn1.Unmarshal(header, &rh); err != nil {
		return nil, nil, err
	}
	key := tmp.genSymKey(rh.Nonce, rh.ReceiverPubKey, MailboxAddress)
	if mac := calcHmac(key, rh.Nonce, rh.ReceiverPubKey, rh.EncNym); !hmac.Equal(mac, rh.HMACHead) {
		return nil, nil, ErrHMAC
	}
	nym = decryptNym(key, rh.EncNym)
	pub, priv := tmp.genDetermKeys(rh.Nonce, nym)
	if !bytes.Equal(rh.ReceiverPubKey, pub[:]) {
		return nil, nil, ErrBadKey
	}
	var shared, sender [KeySize]byte
	copy(sender[:], rh.SenderKey)
	curve25519.ScalarMult(&shared, priv, &sender)
	return nym, shared[:], nil
}
''')
M="mix/mixcrypt/clientmix.go"
fn(M,'func ReceiveMessage(','''
func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
	decMessage, err := Decrypt(lookupKey, message)
	if err != nil {
		return nil, err
	}
	header, lenB, err := new(ClientMixHeader).Unmarshal(decMessage)
	if err != nil {
		return nil, err
	}
	body := decMessage[lenB:]
	if err := checkMessageSize(header.MessageType, len(body)); err != nil {
		return nil, err
	}
	rstr := &ReceiveStruct{MixHeader: header, Message: body}
	first := mkHash(body[:256])
	if header.MessageType == MessageTypeForward {
		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{Expire: timeNow() + ExpireReceive, Hash: first})
		return rstr, nil
	}
	rstr.NymAddress, err = nymaddr.ParseAddress(header.Address)
	if err != nil {
		return nil, err
	}
	private, err := rstr.NymAddress.GetMixData(nymaddr.KeyFunc(lookupKey))
	if err != nil {
		return nil, err
	}
	rstr.NymAddressPrivate = private
	rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{Expire: private.Expire, Hash: first})
	if private.SingleUse {
		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{Expire: private.Expire, Hash: private.ReceiverPubKey})
	}
	return rstr, nil
}

// checkMessageSize verifies the message type and that the size is in bounds.
func checkMessageSize(messageType int32, msgLen int) error {
	switch messageType {
	case MessageTypeRelay:
		if msgLen < RelayMinSize || msgLen > RelayMaxSize {
			fmt.Println(msgLen)
			return ErrSize
		}
	case MessageTypeForward:
		if msgLen < ForwardMinSize || msgLen > ForwardMaxSize {
			return ErrSize
		}
	default:
		return ErrMessageType
	}
	return nil
}
''')
N="mix/mixcrypt/envelope.go"
fn(N,'func CalculateSharedSecret(','''
func CalculateSharedSecret(peerPublicKey, myPrivateKey, nonceIn *[KeySize]byte) (secret, nonceOut *[KeySize]byte) {
	if myPrivateKey == nil || peerPublicKey == nil {
		return nil, nil
	}
	nonceOut = nonceIn
	if nonceOut == nil {
		var err error
		if nonceOut, err = genNonce(); err != nil {
			return nil, nil
		}
	}
	var shared [KeySize]byte
	curve25519.ScalarMult(&shared, myPrivateKey, peerPublicKey)
	return ExpandSecret(nonceOut[:], shared[:]), nonceOut
}
''')
fn(N,'func ExpandSecret(','''
func ExpandSecret(nonce, key []byte) *[KeySize]byte {
	var secret [KeySize]byte
	mac := hmac.New(sha256.New, key)
	mac.Write(nonce)
	copy(secret[:], mac.Sum(nil))
	return &secret
}
''')
ed(N,('''	encData2 := make([]byte, KeySize*3+len(encData))
	copy(encData2[0:KeySize], peerPublicKey[:])
	copy(encData2[KeySize:KeySize*2], myPublicKey[:])
	copy(encData2[KeySize*2:KeySize*3], nonce[:])
	copy(encData2[KeySize*3:], encData)
	return encData2, nil''','''	out := make([]byte, 0, KeySize*3+len(encData))
	out = append(out, peerPublicKey[:]...)
	out = append(out, myPublicKey[:]...)
	out = append(out, nonce[:]...)
	return append(out, encData...), nil'''))
K="serviceguard/common/keypool/generator.go"
fn(K,'func (kp *KeyPool) loadKey(','''
func (kp *KeyPool) loadKey(loadKey *signkeys.PublicKey) (*[signkeys.KeyIDSize]byte, error) {
	signer := &loadKey.Signer
	switch usage := kp.Generator.Usage; {
	case usage != "" && usage != loadKey.Usage:
		return nil, ErrBadUsage
	case times.Now() > loadKey.Expire:
		return nil, ErrExpired
	case !kp.HasVerifyKey(signer, true), !loadKey.Verify(signer):
		return nil, ErrBadSigner
	}
	keyID := &loadKey.KeyID
	if _, exists := kp.keys[*keyID]; exists {
		return keyID, ErrExists
	}
	kp.keys[*keyID] = loadKey
	return keyID, nil
}
''')
fn(K,'func (kp *KeyPool) Lookup(','''
func (kp *KeyPool) Lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
	kp.mapMutex.Lock()
	defer kp.mapMutex.Unlock()
	key, err := kp.lookup(keyid)
	if err != ErrNotFound || kp.FetchKeyCallBack == nil {
		return key, err
	}
	return kp.fetchAndLoad(keyid)
}

// fetchAndLoad fetches a key with the callback and loads it.
func (kp *KeyPool) fetchAndLoad(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
	marshalled, err := kp.FetchKeyCallBack(keyid[:])
	if err != nil {
		return nil, err
	}
	fetched, err := new(signkeys.PublicKey).Unmarshal(marshalled)
	if err != nil {
		return nil, err
	}
	fetchedID, err := kp.loadKey(fetched)
	if err != nil && err != ErrExists {
		return nil, ErrNotFound
	}
	if *fetchedID != keyid {
		return nil, ErrNotFound
	}
	return fetched, nil
}
''')
fn(K,'func (kp *KeyPool) lookup(','''
func (kp *KeyPool) lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
	d, ok := kp.keys[keyid]
	if !ok {
		return nil, ErrNotFound
	}
	if d.Expire <= times.Now() {
		return nil, ErrExpired
	}
	return d, nil
}
''')
fn(K,'func (kp *KeyPool) Current(','''
func (kp *KeyPool) Current() (*signkeys.KeyPair, *signkeys.KeyPair, error) {
	if kp.Generator.PrivateKey == nil {
		return nil, nil, ErrNoGenerator
	}
	kp.mapMutex.Lock()
	defer kp.mapMutex.Unlock()
	if !kp.needsKey() {
		return kp.currentKey, kp.previousKey, nil
	}
	newKey, err := kp.Generator.GenKey()
	if err != nil {
		return nil, nil, err
	}
	public := &newKey.PublicKey
	if err := kp.WriteKey(public); err != nil {
		return nil, nil, err
	}
	if kp.currentKey != nil {
		kp.previousKey = kp.currentKey
	}
	kp.currentKey = newKey
	kp.keys[public.KeyID] = public
	return kp.currentKey, kp.previousKey, nil
}

// needsKey tells if a new key has to be generated.
func (kp *KeyPool) needsKey() bool {
	if kp.currentKey == nil {
		return true
	}
	return kp.currentKey.PublicKey.Expire < times.Now()-kp.Generator.ExpireTime/2
}
''')
fn(K,'func (kp *KeyPool) WriteKey(','''
func (kp *KeyPool) WriteKey(key *signkeys.PublicKey) error {
	data, err := key.Marshal()
	if err != nil {
		return err
	}
	if kp.WriteKeyCallback == nil {
		return nil
	}
	return kp.WriteKeyCallback(key.KeyID[:], key.Usage, data)
}
''')
T="serviceguard/common/token/types.go"
fn(T,'func New(KeyID','''
func New(KeyID *[signkeys.KeyIDSize]byte, Owner *[ed25519.PublicKeySize]byte) *Token {
	keyID := make([]byte, KeyIDSize)
	copy(keyID, KeyID[:])
	owner := make([]byte, OwnerSize)
	if Owner != nil {
		copy(owner, Owner[:])
	} else if _, err := io.ReadFull(Rand, owner); err != nil {
		return nil
	}
	nonce := make([]byte, NonceSize)
	if _, err := io.ReadFull(Rand, nonce); err != nil {
		return nil
	}
	return &Token{KeyID: keyID, Nonce: nonce, Owner: owner, Flag: Owner != nil}
}
''')
fn(T,'func (t Token) Hash()','''
func (t Token) Hash() []byte {
	flag := []byte{0x00}
	if t.Flag {
		flag = []byte{0x01}
	}
	h := sha256.New()
	for _, part := range [][]byte{t.KeyID, flag, t.Nonce, t.Owner} {
		h.Write(part)
	}
	return h.Sum(nil)
}
''')
fn(T,'func (t Token) Properties()','''
func (t Token) Properties() (keyid *[signkeys.KeyIDSize]byte, owner *[ed25519.PublicKeySize]byte) {
	if t.Flag {
		owner = new([ed25519.PublicKeySize]byte)
		copy(owner[:], t.Owner)
	}
	keyid = new([signkeys.KeyIDSize]byte)
	copy(keyid[:], t.KeyID)
	return keyid, owner
}
''')
S="serviceguard/common/signkeys/keys.go"
fn(S,'func (pk PublicKey) Verify(','''
func (pk PublicKey) Verify(SignaturePublicKey *[ed25519.PublicKeySize]byte) bool {
	id := pk.CalcKeyID()
	return id == pk.KeyID && ed25519.Verify(SignaturePublicKey[:], id[:], pk.Signature[:])
}
''')
fn(S,'func (kg KeyGenerator) GenKey()','''
func (kg KeyGenerator) GenKey() (*KeyPair, error) {
	if kg.PrivateKey == nil {
		return nil, ErrNoSigner
	}
	privateKey, publicKey, err := kg.Curve.GenerateKey()
	if err != nil {
		return nil, err
	}
	var pk PublicKey
	pk.PublicKey = *publicKey
	pk.Expire = times.Now() + kg.ExpireTime
	pk.Usage = kg.Usage
	pk.Signer = *kg.PublicKey
	pk.KeyID = pk.CalcKeyID()
	copy(pk.Signature[:], ed25519.Sign(kg.PrivateKey[:], pk.KeyID[:]))
	return &KeyPair{PublicKey: pk, PrivateKey: privateKey}, nil
}
''')
W="serviceguard/common/walletauth/walletauth.go"
ed(W,("const TokenSize = 144","const TokenSize = 144\n\nconst (\n\trandOff = 32\n\ttimeOff = 64\n\tcounterOff = 72\n\tsignedSize = 80\n)"))
s=open(R+W).read()
i=s.index("func CreateToken")
b=s[i:].replace("[:32]","[:randOff]").replace("[32:64]","[randOff:timeOff]").replace("[64:72]","[timeOff:counterOff]").replace("[72:80]","[counterOff:signedSize]").replace("[80:]","[signedSize:]").replace("[:80]","[:signedSize]")
open(R+W,'w').write(s[:i]+b)
ed(W,('''	ok := ed25519.Verify(pubkey[:], token[:signedSize], sig[:])
	if !ok {
		return nil, 0, 0, ErrBadSignature
	}
	ltime = binary.BigEndian.Uint64(token[timeOff:counterOff])
	lcounter = binary.BigEndian.Uint64(token[counterOff:signedSize])
	return pubkey, ltime, lcounter, nil''','''	if !ed25519.Verify(pubkey[:], token[:signedSize], sig[:]) {
		return nil, 0, 0, ErrBadSignature
	}
	return pubkey, binary.BigEndian.Uint64(token[timeOff:counterOff]), binary.BigEndian.Uint64(token[counterOff:signedSize]), nil'''))
fn(W,'func IsReplay(','''
func IsReplay(err error) (uint64, error) {
	const prefix = "ErrReplay: "
	text := err.Error()
	if !strings.HasPrefix(text, prefix) {
		return 0, err
	}
	counter, perr := strconv.ParseInt(text[len(prefix):], 10, 64)
	if perr != nil {
		return 0, err
	}
	return uint64(counter), ErrReplay
}
''')
G="serviceguard/client/guardrpc/client.go"
blk='''	packetEnc, ok := data["Packet"].(string)
	if !ok {
		return nil, nil, ErrParams
	}
	pubkeyUsedEnc, ok := data["PubkeyUsed"].(string)
	if !ok {
		return nil, nil, ErrParams
	}
	%s, err := base64.StdEncoding.DecodeString(packetEnc)
	if err != nil {
		return nil, nil, err
	}
	pubkeyUsed, err := base64.StdEncoding.DecodeString(pubkeyUsedEnc)
	if err != nil {
		return nil, nil, err
	}
	return %s, pubkeyUsed, nil
'''
ed(G,(blk%('retpacket','retpacket'),'	return decodePacketReply(data)\n'),(blk%('packet','packet')+'\n','	return decodePacketReply(data)\n'))
s=open(R+G).read()+'''
func decodePacketReply(data map[string]interface{}) (packet, pubkeyUsed []byte, err error) {
	packetEnc, ok := data["Packet"].(string)
	if !ok {
		return nil, nil, ErrParams
	}
	pubkeyUsedEnc, ok := data["PubkeyUsed"].(string)
	if !ok {
		return nil, nil, ErrParams
	}
	if packet, err = base64.StdEncoding.DecodeString(packetEnc); err != nil {
		return nil, nil, err
	}
	if pubkeyUsed, err = base64.StdEncoding.DecodeString(pubkeyUsedEnc); err != nil {
		return nil, nil, err
	}
	return packet, pubkeyUsed, nil
}
'''
open(R+G,'w').write(s)
pk='''	if packet, ok := data["Packet"].(string); ok {
		params, err := base64.StdEncoding.DecodeString(packet)
		if err != nil {
			return nil, err
		}
		return params, nil
	}
	return nil, ErrParams
'''
ed(G,(pk,'	packet, ok := data["Packet"].(string)\n	if !ok {\n		return nil, ErrParams\n	}\n	return base64.StdEncoding.DecodeString(packet)\n'))
ed(G,('''	thost := ""
	tpath := ""
	if internal {
		thost = constants.IssuerInternalHost
		tpath = constants.IssuerInternalPathAddition
	}
	pk := hex.EncodeToString(pubKey[:])
	tempURL := *rpc.URL
	tempURL.Host = pk[0:48] + thost + tempURL.Host
	tempURL.Path = tempURL.Path + tpath + pk
''','''	pk := hex.EncodeToString(pubKey[:])
	host, path := pk[:48], ""
	if internal {
		host += constants.IssuerInternalHost
		path = constants.IssuerInternalPathAddition
	}
	tempURL := *rpc.URL
	tempURL.Host = host + tempURL.Host
	tempURL.Path += path + pk
'''))
Rr="serviceguard/client/walletrpc/client.go"
ed(Rr,('''	if _, ok := data["Token"]; !ok {
		return nil, nil, nil, 0, ErrParams
	}
	if _, ok := data["Token"].(string); !ok {
		return nil, nil, nil, 0, ErrParams
	}
	if _, ok := data["Params"]; !ok {
		return nil, nil, nil, 0, ErrParams
	}
	if _, ok := data["Params"].(string); !ok {
		return nil, nil, nil, 0, ErrParams
	}
	if _, ok := data["PubKeyUsed"].(string); !ok {
		return nil, nil, nil, 0, ErrParams
	}
	token, err = base64.StdEncoding.DecodeString(data["Token"].(string))
	if err != nil {
		return nil, nil, nil, 0, ErrParams
	}
	params, err = base64.StdEncoding.DecodeString(data["Params"].(string))
	if err != nil {
		return nil, nil, nil, 0, ErrParams
	}
	pubKeyUsed, err = base64.StdEncoding.DecodeString(data["PubKeyUsed"].(string))
	if err != nil {
		return nil, nil, nil, 0, ErrParams
	}

	return token''','''	if token, err = decodeField(data, "Token"); err != nil {
		return nil, nil, nil, 0, err
	}
	if params, err = decodeField(data, "Params"); err != nil {
		return nil, nil, nil, 0, err
	}
	if pubKeyUsed, err = decodeField(data, "PubKeyUsed"); err != nil {
		return nil, nil, nil, 0, err
	}
	return token'''))
s=open(R+Rr).read()+'''
// decodeField returns the decoded value of a base64 field of a reply.
func decodeField(data map[string]interface{}, name string) ([]byte, error) {
	enc, ok := data[name].(string)
	if !ok {
		return nil, ErrParams
	}
	dec, err := base64.StdEncoding.DecodeString(enc)
	if err != nil {
		return nil, ErrParams
	}
	return dec, nil
}
'''
open(R+Rr,'w').write(s)
ed(Rr,('''	if _, ok := data["SubscriptionTokens"]; !ok {
		return 0, 0, 0, 0, ErrParams
	}

''',''),('''	if _, ok := data["PrepayTokens"]; !ok {
		return 0, 0, 0, 0, ErrParams
	}
''',''),('''	if _, ok := data["LastSubscribeLoad"]; !ok {
		return 0, 0, 0, 0, ErrParams
	}
''',''))
V="serviceguard/client/verify.go"
ed(V,('''	// Get data from token, signature first
	signature := tokenUnmarshalled.GetSignature()
	tempSignature := jjm.NewClearSignature(&pubkey.PublicKey)
	tempSignature.PointR = signature.PointR
	tempSignature.ScalarS = signature.ScalarS
	tempSignature.ScalarR = signature.ScalarR
	// Get signature message
	clearMessage := jjm.NewClearMessage(tokenUnmarshalled.Hash())
	// Verify the signature
	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.packetClient.Curve)
	ok, err := blindClient.Verify(tempSignature, clearMessage)
	if err != nil || !ok {
		c.LastError = err
		return nil, ErrFinal
	}
	outputToken = &TokenEntry{
		Hash:        tokenUnmarshalled.Hash(),
		Token:       inputToken,
		OwnerPubKey: owner,
		Usage:       pubkey.Usage,
		Expire:      pubkey.Expire,
	}
	return outputToken, nil
}
''','''	hash := tokenUnmarshalled.Hash()
	ok, err := c.checkSignature(pubkey, tokenUnmarshalled.GetSignature(), hash)
	if err != nil || !ok {
		c.LastError = err
		return nil, ErrFinal
	}
	return &TokenEntry{
		Hash:        hash,
		Token:       inputToken,
		OwnerPubKey: owner,
		Usage:       pubkey.Usage,
		Expire:      pubkey.Expire,
	}, nil
}

func (c *Client) checkSignature(pubkey *signkeys.PublicKey, signature *jjm.ClearSignature, hash []byte) (bool, error) {
	sig := jjm.NewClearSignature(&pubkey.PublicKey)
	sig.PointR, sig.ScalarS, sig.ScalarR = signature.PointR, signature.ScalarS, signature.ScalarR
	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.packetClient.Curve)
	return blindClient.Verify(sig, jjm.NewClearMessage(hash))
}
'''))
fn(V,'func (c *Client) getPubKey(','''
func (c *Client) getPubKey(keyid [signkeys.KeyIDSize]byte) (pubkey *signkeys.PublicKey, err error) {
	pool := c.packetClient.Keypool
	pubkey, err = pool.Lookup(keyid)
	switch {
	case err == nil:
		return pubkey, nil
	case err != keypool.ErrNotFound:
		c.LastError = err
		return nil, ErrFatal
	case !c.IsOnline():
		c.LastError = err
		return nil, ErrOffline
	}
	onlineGroup.Add(1)
	defer onlineGroup.Done()
	pubkey, err = keylookupClient.New(nil, c.cacert, TrustRoot).GetKey(&keyid)
	if err != nil {
		_, fatal, lerr := lookupError(err)
		c.LastError = lerr
		if fatal {
			return nil, ErrFinal
		}
		return nil, ErrRetry
	}
	if _, err := pool.LoadKey(pubkey); err != nil && err != keypool.ErrExists {
		c.LastError = err
		return nil, ErrFatal
	}
	return pubkey, nil
}
''')
