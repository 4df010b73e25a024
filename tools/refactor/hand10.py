import re,sys
R='/tmp/rfc/hand10/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        if s.count(a)<1: print("MISSING",f,a[:60]); continue
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
def app(f,t):
    open(R+f,'a').write(t)
f="mix/client/send.go"
ed(f,('''	if mo == nil {
		return nil, ErrNIL
	}
	if mo.Resend {
		mailClient := smtpclient.MailClient{
			CACert:    mo.CACert,
			Port:      mo.SMTPPort,
			SmartHost: mo.SmartHost,
		}
		mo.Error = mailClient.SendMail(mo.To, mo.From, mo.Message)
		if mo.Error == nil {
			mo.Resend = false
			mo.Message = nil
			mo.To = ""
			mo.From = ""
			mo.SMTPPort = 0
			mo.SmartHost = ""
			mo.CACert = nil
			mo.Error = nil
		}
		if mo.Error == smtpclient.ErrFinal {
			mo.Resend = false
			mo.Error = mailClient.LastError
		}
		return mo, mo.Error
	}
	if mo.Message == nil {
		return mo, ErrAlreadySent
	}
	return mo, mo.Error
''','''	if mo == nil {
		return nil, ErrNIL
	}
	if !mo.Resend {
		if mo.Message == nil {
			return mo, ErrAlreadySent
		}
		return mo, mo.Error
	}
	mailClient := smtpclient.MailClient{
		SmartHost: mo.SmartHost,
		Port:      mo.SMTPPort,
		CACert:    mo.CACert,
	}
	mo.Error = mailClient.SendMail(mo.To, mo.From, mo.Message)
	switch mo.Error {
	case nil:
		mo.reset()
	case smtpclient.ErrFinal:
		mo.Resend = false
		mo.Error = mailClient.LastError
	}
	return mo, mo.Error
'''),('''	if mo.Error != nil {
		mom.Error = mo.Error.Error()
	} else {
		mom.Error = "nil"
	}
	d, err := asn1.Marshal(mom)
	if err != nil {
		return nil
	}
	return d
''','''	mom.Error = "nil"
	if mo.Error != nil {
		mom.Error = mo.Error.Error()
	}
	d, err := asn1.Marshal(mom)
	if err != nil {
		return nil
	}
	return d
'''),('''	mo.Message = mom.Message
	mo.To = mom.To
	mo.From = mom.From
	mo.RevokeID = mom.RevokeID
	mo.SMTPPort = mom.SMTPPort
	mo.SmartHost = mom.SmartHost
	mo.CACert = mom.CACert
	mo.Resend = mom.Resend
	if mom.Error != "" && mom.Error != "nil" {
		mo.Error = translateError(mom.Error)
	}
	return mo
''','''	mom.copyTo(mo)
	switch mom.Error {
	case "", "nil":
	default:
		mo.Error = translateError(mom.Error)
	}
	return mo
'''))
app(f,'''
// reset mo after successful delivery.
func (mo *MessageOutput) reset() {
	mo.Resend = false
	mo.Message = nil
	mo.To = ""
	mo.From = ""
	mo.SMTPPort = 0
	mo.SmartHost = ""
	mo.CACert = nil
	mo.Error = nil
}

func (mom *messageOutputForMarshal) copyTo(mo *MessageOutput) {
	mo.Message = mom.Message
	mo.To = mom.To
	mo.From = mom.From
	mo.RevokeID = mom.RevokeID
	mo.SMTPPort = mom.SMTPPort
	mo.SmartHost = mom.SmartHost
	mo.CACert = mom.CACert
	mo.Resend = mom.Resend
}
''')
f="serviceguard/client/walletstore/store.go"
ed(f,('''	_, err = tx.Stmt(ws.setTokenQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
		global.OwnerPrivKey, global.Renewable, global.CanReissue,
		global.Usage, global.Expire, global.OwnedSelf,
		global.HasParams, global.HasState)
	if err != nil {
		_, err := tx.Stmt(ws.setTokenUpdateQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
			global.OwnerPrivKey, global.Renewable, global.CanReissue,
			global.Usage, global.Expire, global.OwnedSelf,
			global.HasParams, global.HasState, global.Hash)
		if err != nil {
			return err
		}
	}
	if len(state) > 0 {
		_, err = tx.Stmt(ws.setStateQuery).Exec(global.Hash, state)
		if err != nil {
			_, err = tx.Stmt(ws.setStateUpdateQuery).Exec(state, global.Hash)
			if err != nil {
				return err
			}
		}
	}
	return tx.Commit()
''','''	_, err = tx.Stmt(ws.setTokenQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
		global.OwnerPrivKey, global.Renewable, global.CanReissue,
		global.Usage, global.Expire, global.OwnedSelf,
		global.HasParams, global.HasState)
	if err != nil {
		if _, err := tx.Stmt(ws.setTokenUpdateQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
			global.OwnerPrivKey, global.Renewable, global.CanReissue,
			global.Usage, global.Expire, global.OwnedSelf,
			global.HasParams, global.HasState, global.Hash); err != nil {
			return err
		}
	}
	if len(state) > 0 {
		if err := ws.storeState(tx, global.Hash, state); err != nil {
			return err
		}
	}
	return tx.Commit()
'''),('''	if _, err := tx.Stmt(ws.deleteTokenQuery).Exec(tokenHashS); err != nil {
		return
	}
	if _, err := tx.Stmt(ws.deleteStateQuery).Exec(tokenHashS); err != nil {
		return
	}
	tx.Commit()
''','''	for _, stmt := range []*sql.Stmt{ws.deleteTokenQuery, ws.deleteStateQuery} {
		if _, err := tx.Stmt(stmt).Exec(tokenHashS); err != nil {
			return
		}
	}
	tx.Commit()
'''),('''LookupLoop:
	for i := 0; i < 5; i++ {
		token, err := ws.getAndLockToken(usage, owner)
		if err == client.ErrLocked {
			continue LookupLoop
		}
		return token, err
	}
	return nil, client.ErrNoToken
''','''	for i := 0; i < 5; i++ {
		token, err := ws.getAndLockToken(usage, owner)
		if err != client.ErrLocked {
			return token, err
		}
	}
	return nil, client.ErrNoToken
'''),('''	var Hash string
	err := ws.findTokenSelfQuery.QueryRow(usage).Scan(&Hash)
	if err != nil {
		return nil, client.ErrNoToken
	}
	tokenHash, err := hex.DecodeString(Hash)
	if err != nil {
		return nil, client.ErrNoToken
	}
	return ws.GetToken(tokenHash, -1)
''','''	tokenHash := scanHash(ws.findTokenSelfQuery.QueryRow(usage))
	if tokenHash == nil {
		return nil, client.ErrNoToken
	}
	return ws.GetToken(tokenHash, -1)
'''),('''	var hashS string
	expireLimit := times.Now() + ExpireEdge
	err := ws.getExpireQuery.QueryRow(expireLimit).Scan(&hashS)
	if err != nil {
		return nil
	}
	tokenHash, err := hex.DecodeString(hashS)
	if err != nil {
		return nil
	}
	return tokenHash
''','''	return scanHash(ws.getExpireQuery.QueryRow(times.Now() + ExpireEdge))
'''),('''	var hashS string
	err := ws.getReissueQuery.QueryRow().Scan(&hashS)
	if err != nil {
		return nil
	}
	tokenHash, err := hex.DecodeString(hashS)
	if err != nil {
		return nil
	}
	return tokenHash
''','''	return scanHash(ws.getReissueQuery.QueryRow())
'''),('''	var count int64
	err := ws.countOwnQuery.QueryRow(usage).Scan(&count)
	if err != nil {
		return 0
	}
	return count
''','''	return scanCount(ws.countOwnQuery.QueryRow(usage))
'''),('''	var count int64
	var err error
	if owner != nil {
		ownerS := base64.StdEncoding.EncodeToString(owner[:])
		err = ws.countOwnerQuery.QueryRow(usage, ownerS).Scan(&count)
	} else {
		err = ws.countAnyQuery.QueryRow(usage).Scan(&count)
	}
	if err != nil {
		return 0
	}
	return count
''','''	if owner == nil {
		return scanCount(ws.countAnyQuery.QueryRow(usage))
	}
	ownerS := base64.StdEncoding.EncodeToString(owner[:])
	return scanCount(ws.countOwnerQuery.QueryRow(usage, ownerS))
'''),('''		if err := rows.Scan(&hashS); err == nil {
			tokenHash, err := hex.DecodeString(hashS)
			if err == nil {
				counted++
				tokens = append(tokens, tokenHash)
			}
		}
''','''		if err := rows.Scan(&hashS); err != nil {
			continue
		}
		tokenHash, err := hex.DecodeString(hashS)
		if err != nil {
			continue
		}
		counted++
		tokens = append(tokens, tokenHash)
'''),('''	if counted >= 10 {
		return true
	}
	return false
''','''	return counted >= 10
'''))
app(f,'''
func (ws *Storage) storeState(tx *sql.Tx, hash, state string) error {
	if _, err := tx.Stmt(ws.setStateQuery).Exec(hash, state); err == nil {
		return nil
	}
	_, err := tx.Stmt(ws.setStateUpdateQuery).Exec(state, hash)
	return err
}

func scanCount(row *sql.Row) int64 {
	var count int64
	if err := row.Scan(&count); err != nil {
		return 0
	}
	return count
}

// scanHash returns the decoded hash in row or nil.
func scanHash(row *sql.Row) []byte {
	var h string
	if err := row.Scan(&h); err != nil {
		return nil
	}
	hash, err := hex.DecodeString(h)
	if err != nil {
		return nil
	}
	return hash
}
''')
