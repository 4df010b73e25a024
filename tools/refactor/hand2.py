import re,sys
R='/tmp/rfc/hand2/'
exec(open('/tmp/hand1.py').read().split("# H1")[0].replace('/tmp/rfc/hand1/',R))
# keydb.Open closure
s=open(R+'keydb/keydb.go').read()
i=s.index('func Open(');j=s.index('\n}\n',i)
b=s[i:j]
b2=re.sub(r'\tif keyDB\.(\w+), err = keyDB\.encDB\.Prepare\((\w+)\); err != nil \{\n\t\tkeyDB\.encDB\.Close\(\)\n\t\treturn nil, err\n\t\}\n', r'\tif err := keyDB.prepare(&keyDB.\1, \2); err != nil {\n\t\treturn nil, err\n\t}\n', b)
s=s[:i]+b2+s[j:]+'''
func (keyDB *KeyDB) prepare(stmt **sql.Stmt, query string) error {
	prepared, err := keyDB.encDB.Prepare(query)
	if err != nil {
		keyDB.encDB.Close()
		return err
	}
	*stmt = prepared
	return nil
}
'''
open(R+'keydb/keydb.go','w').write(s)
# msgdb.Open table
s=open(R+'msgdb/msgdb.go').read()
i=s.index('func Open(');j=s.index('\n}\n',i)
b=s[i:j]
pairs=re.findall(r'if msgDB\.(\w+), err = msgDB\.encDB\.Prepare\((\w+)\); err', b)
print(len(pairs))
k=b.index('\tif msgDB.'+pairs[0][0])
tbl='\tstatements := []struct {\n\t\tstmt  **sql.Stmt\n\t\tquery string\n\t}{\n'+''.join('\t\t{&msgDB.%s, %s},\n'%p for p in pairs)+'''\t}
	for _, st := range statements {
		if *st.stmt, err = msgDB.encDB.Prepare(st.query); err != nil {
			msgDB.encDB.Close()
			return nil, err
		}
	}
'''
e=b.rindex('\treturn &msgDB')
s=s[:i]+b[:k]+tbl+b[e:]+s[j:]
open(R+'msgdb/msgdb.go','w').write(s)
ed('keydb/session.go',('''	for i := range send {
		_, err = tx.Stmt(keyDB.addMessageKeyQuery).Exec(sessionID,
			offset+uint64(i), send[i], 1)
		if err != nil {
			tx.Rollback()
			return log.Error(err)
		}
		_, err = tx.Stmt(keyDB.addMessageKeyQuery).Exec(sessionID,
			offset+uint64(i), recv[i], 0)
		if err != nil {
			tx.Rollback()
			return log.Error(err)
		}
	}
''','''	addKey := tx.Stmt(keyDB.addMessageKeyQuery)
	for i, sendKey := range send {
		number := offset + uint64(i)
		if _, err := addKey.Exec(sessionID, number, sendKey, 1); err != nil {
			tx.Rollback()
			return log.Error(err)
		}
		if _, err := addKey.Exec(sessionID, number, recv[i], 0); err != nil {
			tx.Rollback()
			return log.Error(err)
		}
	}
'''),('''	if sessionKey == "" {
		return log.Error("keydb: sessionKey must be defined")
	}
	if rootKeyHash == "" {
		return log.Error("keydb: rootKeyHash must be defined")
	}
	if chainKey == "" {
		return log.Error("keydb: chainKey must be defined")
	}
	if len(send) != len(recv) {
''','''	switch {
	case sessionKey == "":
		return log.Error("keydb: sessionKey must be defined")
	case rootKeyHash == "":
		return log.Error("keydb: rootKeyHash must be defined")
	case chainKey == "":
		return log.Error("keydb: chainKey must be defined")
	case len(send) != len(recv):
'''),)
ed('keydb/sessionstate.go',('''	var (
		nssp  *uid.KeyEntry
		nrsps *uid.KeyEntry
	)
	if nextSenderSessionPub != "" {
		nssp, err = uid.NewJSONKeyEntry([]byte(nextSenderSessionPub))
		if err != nil {
			return nil, err
		}
	}
	if nextRecipientSessionPubSeen != "" {
		nrsps, err = uid.NewJSONKeyEntry([]byte(nextRecipientSessionPubSeen))
		if err != nil {
			return nil, err
		}
	}
	ss := &session.State{''','''	nssp, err := parseOptionalKeyEntry(nextSenderSessionPub)
	if err != nil {
		return nil, err
	}
	nrsps, err := parseOptionalKeyEntry(nextRecipientSessionPubSeen)
	if err != nil {
		return nil, err
	}
	return &session.State{'''),('''		NymAddress:                  nymAddress,
	}
	if keyInitSession > 0 {
		ss.KeyInitSession = true
	}
	return ss, nil
}
''','''		NymAddress:                  nymAddress,
		KeyInitSession:              keyInitSession > 0,
	}, nil
}

func parseOptionalKeyEntry(jsn string) (*uid.KeyEntry, error) {
	if jsn == "" {
		return nil, nil
	}
	return uid.NewJSONKeyEntry([]byte(jsn))
}

func optionalJSON(ke *uid.KeyEntry) string {
	if ke == nil {
		return ""
	}
	return string(ke.JSON())
}
'''),('''	var (
		nssp  string
		nrsps string
		kis   int64
	)
	if sessionState.NextSenderSessionPub != nil {
		nssp = string(sessionState.NextSenderSessionPub.JSON())
	}
	if sessionState.NextRecipientSessionPubSeen != nil {
		nrsps = string(sessionState.NextRecipientSessionPubSeen.JSON())
	}
	if''','''	nssp := optionalJSON(sessionState.NextSenderSessionPub)
	nrsps := optionalJSON(sessionState.NextRecipientSessionPubSeen)
	var kis int64
	if'''))
f='msgdb/messages.go'
import subprocess
def loc(h): return subprocess.check_output(["grep","-rlF",h,R,"--include=*.go"],text=True).split()[0][len(R):]
f=loc('func (msgDB *MsgDB) AddMessage(')
ed(f,('''	// add message
	var d int64
	if sent {
		d = 1
	}
	var s int64
	if sign {
		s = 1
	}
	var from string
	var to string
	if sent {
		from = selfID
		to = peerID
	} else {
		from = peerID
		to = selfID
	}
''','''	d := boolToInt(sent)
	s := boolToInt(sign)
	from, to := peerID, selfID
	if sent {
		from, to = to, from
	}
'''),('''	parts := strings.SplitN(message, "\\n", 2)
	subject := parts[0]
''','''	subject := strings.SplitN(message, "\\n", 2)[0]
'''))
open(R+f,'a').write('''
func boolToInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
''')
f=loc('func (msgDB *MsgDB) RemoveInQueue(')
ed(f,('''	var to string
	if err := tx.Stmt(msgDB.getNymMappedQuery).QueryRow(mID).Scan(&to); err != nil {
		tx.Rollback()
		return log.Error(err)
	}
	// TODO: handle signatures
	parts := strings.SplitN(plainMsg, "\\n", 2)
	subject := parts[0]
	if !drop {
		_, err = tx.Stmt(msgDB.addMsgQuery).Exec(mID, cID, 0, 0, 0, fromID,
			to, date, subject, plainMsg, 0, 0, 0)
		if err != nil {
			tx.Rollback()
			return log.Error(err)
		}
	}
	if _, err := tx.Stmt(msgDB.removeInQueueQuery).Exec(iqIdx); err != nil {
		tx.Rollback()
		return log.Error(err)
	}
	if err := tx.Commit(); err != nil {
		tx.Rollback()
		return log.Error(err)
	}
	return nil
}
''','''	if err := msgDB.moveInQueue(tx, iqIdx, mID, cID, date, plainMsg, fromID, drop); err != nil {
		tx.Rollback()
		return log.Error(err)
	}
	return nil
}

func (msgDB *MsgDB) moveInQueue(
	tx *sql.Tx,
	iqIdx, mID, cID, date int64,
	plainMsg, fromID string,
	drop bool,
) error {
	var to string
	if err := tx.Stmt(msgDB.getNymMappedQuery).QueryRow(mID).Scan(&to); err != nil {
		return err
	}
	if !drop {
		subject := strings.SplitN(plainMsg, "\\n", 2)[0]
		_, err := tx.Stmt(msgDB.addMsgQuery).Exec(mID, cID, 0, 0, 0, fromID,
			to, date, subject, plainMsg, 0, 0, 0)
		if err != nil {
			return err
		}
	}
	if _, err := tx.Stmt(msgDB.removeInQueueQuery).Exec(iqIdx); err != nil {
		return err
	}
	return tx.Commit()
}
'''))
f=loc('func (msgDB *MsgDB) RemoveOutQueue(')
ed(f,('''	var msgID int64
	// get corresponding msgID
	err = tx.Stmt(msgDB.getOutQueueMsgIDQuery).QueryRow(oqIdx).Scan(&msgID)
	if err != nil {
		tx.Rollback()
		return log.Error(err)
	}
	// set date for message
	_, err = tx.Stmt(msgDB.updateMsgDateQuery).Exec(date, msgID)
	if err != nil {
		tx.Rollback()
		return log.Error(err)
	}
	// remove entry from outqueue
	if _, err := tx.Stmt(msgDB.removeOutQueueQuery).Exec(oqIdx); err != nil {
		tx.Rollback()
		return log.Error(err)
	}
	if err := tx.Commit(); err != nil {
		tx.Rollback()
		return log.Error(err)
	}
	return nil
''','''	fail := func(err error) error {
		tx.Rollback()
		return log.Error(err)
	}
	var msgID int64
	if err := tx.Stmt(msgDB.getOutQueueMsgIDQuery).QueryRow(oqIdx).Scan(&msgID); err != nil {
		return fail(err)
	}
	if _, err := tx.Stmt(msgDB.updateMsgDateQuery).Exec(date, msgID); err != nil {
		return fail(err)
	}
	if _, err := tx.Stmt(msgDB.removeOutQueueQuery).Exec(oqIdx); err != nil {
		return fail(err)
	}
	if err := tx.Commit(); err != nil {
		return fail(err)
	}
	return nil
'''))
ed('mix/mixcrypt/clientmix.go',('''	if rstr.MixHeader.MessageType != MessageTypeRelay && rstr.MixHeader.MessageType != MessageTypeForward {
		return nil, ErrMessageType
	}
	// Test Size
	msgLen := len(decMessage) - int(lenB)
	if rstr.MixHeader.MessageType == MessageTypeRelay && (msgLen < RelayMinSize || msgLen > RelayMaxSize) {
		fmt.Println(msgLen)
		return nil, ErrSize
	}
	if rstr.MixHeader.MessageType == MessageTypeForward && (msgLen < ForwardMinSize || msgLen > ForwardMaxSize) {
		return nil, ErrSize
	}
	start := int(lenB)
''','''	start := int(lenB)
	if err := checkMessageSize(rstr.MixHeader.MessageType, len(decMessage)-start); err != nil {
		return nil, err
	}
	firstHash := mkHash(decMessage[start : start+256])
'''),('''			Hash:   mkHash(decMessage[start : start+256]), // First 256 byte of message
		})
		if''','''			Hash:   firstHash,
		})
		if'''),('''			Hash:   mkHash(decMessage[start : start+256]), // First 256 byte of message
''','''			Hash:   firstHash,
'''))
s=open(R+'mix/mixcrypt/clientmix.go').read()
t=re.search(r'MessageType +(\w+)',s).group(1)
s+='''
func checkMessageSize(messageType uint8, msgLen int) error {
	switch messageType {
	case MessageTypeRelay:
		if msgLen < RelayMinSize || msgLen > RelayMaxSize {
			fmt.Println(msgLen)
			return ErrSize
		}
	case MessageTypeForward:
		if msgLen < ForwardMinSize || msgLen > ForwardMaxSize {
			return ErrSize
		}
	default:
		return ErrMessageType
	}
	return nil
}
'''.replace('uint8',t)
open(R+'mix/mixcrypt/clientmix.go','w').write(s)
