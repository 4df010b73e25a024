import re,sys
R='/tmp/rfc/hand7/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        if s.count(a)<1: print("MISSING",f,a[:60]); continue
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
def alled(f,a,b):
    s=open(R+f).read(); print(f,s.count(a)); s=s.replace(a,b); open(R+f,'w').write(s)
def fn(f,head,new):
    s=open(R+f).read()
    i=s.index(head); j=s.index("\n}\n",i)+3
    s=s[:i]+new.lstrip("\n")+s[j:]
    open(R+f,'w').write(s)
def app(f,t):
    open(R+f,'a').write(t)
READY='''	for scanner.Scan() {
		line := scanner.Text()
		if line != "%s" {
			return errors.New(line)
		}
		break
	}
	if err := scanner.Err(); err != nil {
		return err
	}
'''
for f in ["ctrlengine/contact.go"]:
    alled(f,READY%"READY.",'''	if err := waitFor(scanner, "READY."); err != nil {
		return err
	}
''')
    alled(f,READY%"QUITTING",'''	if err := waitFor(scanner, "QUITTING"); err != nil {
		return err
	}
''')
app("ctrlengine/contact.go",'''
// waitFor reads the status line want.
func waitFor(scanner *bufio.Scanner, want string) error {
	if scanner.Scan() {
		if line := scanner.Text(); line != want {
			return errors.New(line)
		}
	}
	return scanner.Err()
}

func mapBoth(id, contact string) (string, string, error) {
	idMapped, err := identity.Map(id)
	if err != nil {
		return "", "", err
	}
	contactMapped, err := identity.Map(contact)
	if err != nil {
		return "", "", err
	}
	return idMapped, contactMapped, nil
}
''')
alled("ctrlengine/contact.go",'''	idMapped, err := identity.Map(id)
	if err != nil {
		return err
	}
	contactMapped, err := identity.Map(contact)
	if err != nil {
		return err
	}
''','''	idMapped, contactMapped, err := mapBoth(id, contact)
	if err != nil {
		return err
	}
''')
ed("ctrlengine/contact.go",('''	err = msgDB.AddContact(id, contactMapped, contact, fullName, contactType)
	if err != nil {
		return err
	}
	return nil
''','''	return msgDB.AddContact(id, contactMapped, contact, fullName, contactType)
'''),('''	if unmappedID != "" {
		log.Infof("contact already known -> make sure it is white listed")
		if prevContactType != msgdb.WhiteList {
			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
				prevFullName, msgdb.WhiteList)
			if err != nil {
				return err
			}
		}
		return nil
	}
''','''	if unmappedID != "" {
		log.Infof("contact already known -> make sure it is white listed")
		if prevContactType == msgdb.WhiteList {
			return nil
		}
		return ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
			prevFullName, msgdb.WhiteList)
	}
'''))
O="msgdb/outqueue.go"
alled(O,'''		tx.Rollback()
		return log.Error(err)
''','''		return rollback(tx, err)
''')
app(O,'''
func rollback(tx *sql.Tx, err error) error {
	tx.Rollback()
	return log.Error(err)
}

func (msgDB *MsgDB) mappedUID(myID string) (int64, error) {
	if err := identity.IsMapped(myID); err != nil {
		return 0, log.Error(err)
	}
	var mID int64
	if err := msgDB.getNymUIDQuery.QueryRow(myID).Scan(&mID); err != nil {
		return 0, log.Error(err)
	}
	return mID, nil
}
''')
ed(O,('''	if err := identity.IsMapped(myID); err != nil {
		return log.Error(err)
	}
	var mID int64
	if err := msgDB.getNymUIDQuery.QueryRow(myID).Scan(&mID); err != nil {
		return log.Error(err)
	}
	tx, err''','''	mID, err := msgDB.mappedUID(myID)
	if err != nil {
		return err
	}
	tx, err'''),('''	if err := identity.IsMapped(myID); err != nil {
		return log.Error(err)
	}
	var mID int64
	if err := msgDB.getNymUIDQuery.QueryRow(myID).Scan(&mID); err != nil {
		return log.Error(err)
	}
	if _, err :=''','''	mID, err := msgDB.mappedUID(myID)
	if err != nil {
		return err
	}
	if _, err :='''),('''	if e > 0 {
		envelope = true
	}
	return
''','''	return oqIdx, msg, nymaddress, minDelay, maxDelay, e > 0, nil
'''),('''	switch {
	case err == sql.ErrNoRows:
		return 0, "", "", 0, 0, false, nil
	case err != nil:
		return 0, "", "", 0, 0, false, log.Error(err)
	}
''','''	if err != nil {
		if err == sql.ErrNoRows {
			return 0, "", "", 0, 0, false, nil
		}
		return 0, "", "", 0, 0, false, log.Error(err)
	}
'''))
S="keydb/session.go"
ed(S,('''	for i := range send {
		_, err = tx.Stmt(keyDB.addMessageKeyQuery).Exec(sessionID,
			offset+uint64(i), send[i], 1)
		if err != nil {
			tx.Rollback()
			return log.Error(err)
		}
		_, err = tx.Stmt(keyDB.addMessageKeyQuery).Exec(sessionID,
			offset+uint64(i), recv[i], 0)
		if err != nil {
			tx.Rollback()
			return log.Error(err)
		}
	}
''','''	addKey := tx.Stmt(keyDB.addMessageKeyQuery)
	for i, s := range send {
		num := offset + uint64(i)
		if _, err := addKey.Exec(sessionID, num, s, 1); err != nil {
			tx.Rollback()
			return log.Error(err)
		}
		if _, err := addKey.Exec(sessionID, num, recv[i], 0); err != nil {
			tx.Rollback()
			return log.Error(err)
		}
	}
'''),('''	err := keyDB.getSessionIDQuery.QueryRow(sessionKey).Scan(&sessionID)
	if err != nil {
		return "", err
	}
	var d int64
	if sender {
		d = 1
	}
''','''	if err := keyDB.getSessionIDQuery.QueryRow(sessionKey).Scan(&sessionID); err != nil {
		return "", err
	}
	d := direction(sender)
'''),('''	err = keyDB.getMessageKeyQuery.''','''	err := keyDB.getMessageKeyQuery.'''))
app(S,'''
func direction(sender bool) int64 {
	if sender {
		return 1
	}
	return 0
}
''')
C="serviceguard/client/reissue.go"
alled(C,'''		c.LastError = err
		return nil, ErrFatal
''','''		return nil, c.fatal(err)
''')
alled(C,'''				c.LastError = err
				_, fatal, err := lookupError(err)
				if fatal {
					c.LastError = err
					return nil, ErrFinal
				}
				return nil, ErrRetry
''','''				return nil, c.serverError(err)
''')
alled(C,'''		c.LastError = err
		_, fatal, err := lookupError(err)
		if fatal {
			c.LastError = err
			return nil, ErrFinal
		}
		return nil, ErrRetry
''','''		return nil, c.serverError(err)
''')
app(C,'''
func (c *Client) fatal(err error) error {
	c.LastError = err
	return ErrFatal
}

func (c *Client) serverError(err error) error {
	c.LastError = err
	if _, fatal, final := lookupError(err); fatal {
		c.LastError = final
		return ErrFinal
	}
	return ErrRetry
}
''')
P="serviceguard/client/packetproto/methods.go"
ed(P,('''	// Verify usage
	if oldPubKey.Usage != pubKey.Usage {
		return nil, nil, ErrParamMismatch
	}
	// Verify same service-guard
	if oldPubKey.Signer != pubKey.Signer {
		return nil, nil, ErrParamMismatch
	}
''','''	// Verify usage and same service-guard
	if !(oldPubKey.Usage == pubKey.Usage && oldPubKey.Signer == pubKey.Signer) {
		return nil, nil, ErrParamMismatch
	}
'''),('''	saveID, err := c.Keypool.LoadKey(pubKey)
	if err != nil && err != keypool.ErrExists {
		return nil, nil, err
	}
	// Save key to permanent storage
	if err == nil {
		c.Keypool.SaveKey(*saveID)
	}
''','''	saveID, err := c.Keypool.LoadKey(pubKey)
	switch err {
	case nil:
		c.Keypool.SaveKey(*saveID)
	case keypool.ErrExists:
	default:
		return nil, nil, err
	}
'''),('''	if owner != nil {
		if oldOwner == nil {
			return nil, nil, ErrMissingSigner
		}
	}
''','''	if owner != nil && oldOwner == nil {
		return nil, nil, ErrMissingSigner
	}
'''),('''	packet := new(types.SpendPacket)
	packet.CallType = types.CallTypeSpend
	packet.Token = token
	packet.Sign''','''	packet := &types.SpendPacket{CallType: types.CallTypeSpend, Token: token}
	packet.Sign'''),('''	local := new(types.ReissuePacketPrivate)
	local.CanReissue = canReissue
	local.PublicKey, err = pubKey.Marshal()
	if err != nil {
		return nil, nil, err
	}
	local.Factors, err = blindFactors.Marshal()
	if err != nil {
		return nil, nil, err
	}
	local.Token, err = newToken.Marshal()
	if err != nil {
		return nil, nil, err
	}
	rhash := packet.Hash()
	local.RequestHash = rhash[:]
	local.Request = rpacket

	return rpacket, local, nil
''','''	keyEnc, err := pubKey.Marshal()
	if err != nil {
		return nil, nil, err
	}
	factorsEnc, err := blindFactors.Marshal()
	if err != nil {
		return nil, nil, err
	}
	tokenEnc, err := newToken.Marshal()
	if err != nil {
		return nil, nil, err
	}
	rhash := packet.Hash()
	return rpacket, &types.ReissuePacketPrivate{
		CanReissue:  canReissue,
		PublicKey:   keyEnc,
		Factors:     factorsEnc,
		Token:       tokenEnc,
		RequestHash: rhash[:],
		Request:     rpacket,
	}, nil
'''),('''	sig, _, err := blindClient.Unblind(params, clearMessage, blindSig)
	if err != nil {
		return nil, err
	}
	ok, err := blindClient.Verify(sig, clearMessage)
	if err != nil {
		return nil, err
	}
	if !ok {
		return nil, ErrBadSignature
	}
''','''	sig, _, err := blindClient.Unblind(params, clearMessage, blindSig)
	if err != nil {
		return nil, err
	}
	if ok, err := blindClient.Verify(sig, clearMessage); err != nil {
		return nil, err
	} else if !ok {
		return nil, ErrBadSignature
	}
'''))
