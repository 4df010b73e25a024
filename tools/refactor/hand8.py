import re,sys
R='/tmp/rfc/hand8/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        if s.count(a)<1: print("MISSING",f,a[:60]); continue
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
def alled(f,a,b):
    s=open(R+f).read(); print(f,s.count(a)); s=s.replace(a,b); open(R+f,'w').write(s)
def fn(f,head,new):
    s=open(R+f).read()
    i=s.index(head); j=s.index("\n}\n",i)+3
    s=s[:i]+new.lstrip("\n")+s[j:]
    open(R+f,'w').write(s)
def app(f,t):
    open(R+f,'a').write(t)
# keydb.Open: prepare helper taking a pointer
f="keydb/keydb.go"
s=open(R+f).read()
s,n=re.subn(r'if keyDB\.(\w+), err = keyDB\.encDB\.Prepare\((\w+)\); err != nil \{\n\t\tkeyDB\.encDB\.Close\(\)\n\t\treturn nil, err\n\t\}', r'if keyDB.\1, err = prepare(keyDB.encDB, \2); err != nil {\n\t\treturn nil, err\n\t}',s)
print("keydb",n)
s+='''
// prepare prepares query and closes db if that fails.
func prepare(db *sql.DB, query string) (*sql.Stmt, error) {
	stmt, err := db.Prepare(query)
	if err != nil {
		db.Close()
		return nil, err
	}
	return stmt, nil
}
'''
open(R+f,'w').write(s)
ed(f,('''	case err == sql.ErrNoRows:
		return nil, nil, log.Errorf("keydb: no privkey for nym '%s' found", identity)
	case err != nil:
		return nil, nil, log.Error(err)
	default:
		msg, err := uid.NewJSON(uidJSON)
		if err != nil {
			return nil, nil, err
		}
		if err := msg.VerifySelfSig(); err != nil {
			// if this fails something is seriously wrong
			return nil, nil, log.Error(err)
		}
		if withPrivkeys {
			if err := msg.SetPrivateSigKey(sigPrivKey); err != nil {
				return nil, nil, err
			}
			if err := msg.SetPrivateEncKey(encPrivKey); err != nil {
				return nil, nil, err
			}
		}
		var msgReply *uid.MessageReply
		if replyJSON != "" {
			msgReply, err = uid.NewJSONReply(replyJSON)
			if err != nil {
				return nil, nil, err
			}
		}
		return msg, msgReply, nil
	}
''','''	case err == sql.ErrNoRows:
		return nil, nil, log.Errorf("keydb: no privkey for nym '%s' found", identity)
	case err != nil:
		return nil, nil, log.Error(err)
	}
	msg, err := uid.NewJSON(uidJSON)
	if err != nil {
		return nil, nil, err
	}
	err = msg.VerifySelfSig()
	if err != nil {
		// if this fails something is seriously wrong
		return nil, nil, log.Error(err)
	}
	if withPrivkeys {
		if err = setPrivKeys(msg, sigPrivKey, encPrivKey); err != nil {
			return nil, nil, err
		}
	}
	if len(replyJSON) == 0 {
		return msg, nil, nil
	}
	msgReply, err := uid.NewJSONReply(replyJSON)
	if err != nil {
		return nil, nil, err
	}
	return msg, msgReply, nil
'''),('''	default:
		ki, err := uid.NewJSONKeyInit([]byte(json))
		if err != nil {
			return nil, err
		}
		return ki, nil
	}
''','''	}
	return uid.NewJSONKeyInit([]byte(json))
'''),('''	if _, err := keyDB.delPrivateUIDQuery.Exec(msg.JSON()); err != nil {
		return err
	}
	return nil
''','''	_, err := keyDB.delPrivateUIDQuery.Exec(msg.JSON())
	return err
'''),('''	switch {
	case err != nil:
		return "", log.Error(err)
	default:
		return entry, nil
	}
''','''	if err != nil {
		return "", log.Error(err)
	}
	return entry, nil
'''),('''		_, idDomain, err := identity.Split(id)
		if err != nil {
			return nil, err
		}
		if idDomain == dmn {
			identities = append(identities, id)
		}
''','''		_, idDomain, err := identity.Split(id)
		if err != nil {
			return nil, err
		}
		if idDomain != dmn {
			continue
		}
		identities = append(identities, id)
'''),('''	switch {
	case err == sql.ErrNoRows:
		return nil, 0, false, nil
	case err != nil:
		return nil, 0, false, log.Error(err)
	default:
		msg, err = uid.NewJSON(uidJSON)
		if err != nil {
			return nil, 0, false, err
		}
		found = true
		return
	}
''','''	if err == sql.ErrNoRows {
		return nil, 0, false, nil
	}
	if err != nil {
		return nil, 0, false, log.Error(err)
	}
	if msg, err = uid.NewJSON(uidJSON); err != nil {
		return nil, 0, false, err
	}
	return msg, pos, true, nil
'''))
app(f,'''
func setPrivKeys(msg *uid.Message, sig, enc string) error {
	if err := msg.SetPrivateSigKey(sig); err != nil {
		return err
	}
	return msg.SetPrivateEncKey(enc)
}
''')
f="keydb/session.go"
ed(f,('''	switch {
	case err == sql.ErrNoRows:
		return "", "", 0, sql.ErrNoRows
	case err != nil:
		return "", "", 0, log.Error(err)
	}
	numOfKeys = uint64(n)
	return
''','''	if err != nil {
		if err != sql.ErrNoRows {
			err = log.Error(err)
		}
		return "", "", 0, err
	}
	return rootKeyHash, chainKey, uint64(n), nil
'''),('''	var d int64
	if sender {
		d = 1
	}
	var key string
''','''	d := direction(sender)
	var key string
'''),('''	var d int64
	if sender {
		d = 1
	}
	_, err = keyDB''','''	d := direction(sender)
	_, err = keyDB'''))
app(f,'''
// direction returns the encoding of the key direction.
func direction(sender bool) int64 {
	if sender {
		return 1
	}
	return 0
}
''')
# encdb
f="encdb/encdb.go"
ed(f,('''	var av int64
	err := db.QueryRow("PRAGMA auto_vacuum;").Scan(&av)
	if err != nil {
		return err
	}
	if autoVacuumModes[av] != "INCREMENTAL" {
''','''	mode, err := currentMode(db)
	if err != nil {
		return err
	}
	if mode != "INCREMENTAL" {
'''),('''		var av int64
		err := db.QueryRow("PRAGMA auto_vacuum;").Scan(&av)
		if err != nil {
			return err
		}
		currentMode := autoVacuumModes[av]
		if currentMode != autoVacuumMode {
			_, err = db.Exec''','''		mode, err := currentMode(db)
		if err != nil {
			return err
		}
		if mode != autoVacuumMode {
			_, err = db.Exec'''),('''	var av int64
	err = db.QueryRow("PRAGMA auto_vacuum;").Scan(&av)
	if err != nil {
		return "", 0, err
	}
	autoVacuum = autoVacuumModes[av]
	err = db''','''	if autoVacuum, err = currentMode(db); err != nil {
		return "", 0, err
	}
	err = db'''),('''	exists, err := fileExists(dbfile)
	if err != nil {
		return err
	}
	if exists {
		return fmt.Errorf("encdb: dbfile '%s' exists already", dbfile)
	}
	exists, err = fileExists(keyfile)
	if err != nil {
		return err
	}
	if exists {
		return fmt.Errorf("encdb: keyfile '%s' exists already", keyfile)
	}
''','''	if err := mustNotExist(dbfile, "dbfile"); err != nil {
		return err
	}
	if err := mustNotExist(keyfile, "keyfile"); err != nil {
		return err
	}
'''),('''	_, err := db.Exec("VACUUM;")
	if err != nil {
		return err
	}
	return nil
''','''	_, err := db.Exec("VACUUM;")
	return err
'''))
app(f,'''
func currentMode(db *sql.DB) (string, error) {
	var av int64
	if err := db.QueryRow("PRAGMA auto_vacuum;").Scan(&av); err != nil {
		return "", err
	}
	return autoVacuumModes[av], nil
}

func mustNotExist(name, kind string) error {
	exists, err := fileExists(name)
	if err != nil {
		return err
	}
	if exists {
		return fmt.Errorf("encdb: %s '%s' exists already", kind, name)
	}
	return nil
}
''')
f="encdb/keyfile.go"
ed(f,('''	// write number of iterations
	if _, err := keyfile.Write(encode.ToByte8(uiter)); err != nil {
		return err
	}
	// write salt
	if _, err := keyfile.Write(salt); err != nil {
		return err
	}
	// write IV and AES-256 encrypted key
	if _, err := keyfile.Write(encKey); err != nil {
		return err
	}
''','''	if err := writeField(keyfile, encode.ToByte8(uiter)); err != nil {
		return err
	}
	if err := writeField(keyfile, salt); err != nil {
		return err
	}
	if err := writeField(keyfile, encKey); err != nil {
		return err
	}
'''),('''	var biter = make([]byte, 8)
	if _, err := io.ReadFull(keyfile, biter); err != nil {
		return nil, err
	}
''','''	biter, err := readField(keyfile, 8)
	if err != nil {
		return nil, err
	}
'''),('''	var salt = make([]byte, 32)
	if _, err := io.ReadFull(keyfile, salt); err != nil {
		return nil, err
	}
''','''	salt, err := readField(keyfile, 32)
	if err != nil {
		return nil, err
	}
'''),('''	var encKey = make([]byte, 16+32)
	if _, err := io.ReadFull(keyfile, encKey); err != nil {
		return nil, err
	}
''','''	encKey, err := readField(keyfile, 16+32)
	if err != nil {
		return nil, err
	}
'''))
app(f,'''
func writeField(w io.Writer, b []byte) error {
	_, err := w.Write(b)
	return err
}

func readField(r io.Reader, n int) ([]byte, error) {
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return b, nil
}
''')
# ctrlengine/db.go
f="ctrlengine/db.go"
s=open(R+f).read()
def rp(var,decl=False):
    return '''	if isTerminal {
		%s, err = terminal.ReadPassword(int(ce.fileTable.PassphraseFD))
		if err != nil {
			return log.Error(err)
		}
	} else {
		if scanner.Scan() {
			%s = scanner.Bytes()
		} else if err := scanner.Err(); err != nil {
			return log.Error(err)
		}
	}
'''%(var,var)
for v in ["passphrase2","newPassphrase","newPassphrase2"]:
    print(v,s.count(rp(v)))
    s=s.replace(rp(v),'''	if %s, err = ce.readPassphrase(isTerminal, scanner); err != nil {
		return log.Error(err)
	}
'''%v)
s+='''
// readPassphrase reads a passphrase from the terminal or with the scanner.
func (ce *CtrlEngine) readPassphrase(
	isTerminal bool,
	scanner *bufio.Scanner,
) ([]byte, error) {
	if isTerminal {
		return terminal.ReadPassword(int(ce.fileTable.PassphraseFD))
	}
	if scanner.Scan() {
		return scanner.Bytes(), nil
	}
	return nil, scanner.Err()
}

func mutecryptArgs(c *cli.Context) []string {
	return []string{
		"--homedir", c.GlobalString("homedir"),
		"--loglevel", c.GlobalString("loglevel"),
		"--logdir", c.GlobalString("logdir"),
	}
}

// runMutecrypt runs mutecrypt with the given args and passphrase.
func runMutecrypt(args []string, w io.Writer, passphrase []byte) error {
	cmd := exec.Command("mutecrypt", args...)
	if w != nil {
		cmd.Stdout = w
	}
	var errbuf bytes.Buffer
	cmd.Stderr = &errbuf
	ppR, ppW, err := os.Pipe()
	if err != nil {
		return err
	}
	defer ppR.Close()
	ppW.Write(passphrase)
	ppW.Close()
	cmd.ExtraFiles = append(cmd.ExtraFiles, ppR)
	if err := cmd.Start(); err != nil {
		return err
	}
	if err := cmd.Wait(); err != nil {
		return fmt.Errorf("%s: %s", err, strings.TrimSpace(errbuf.String()))
	}
	return nil
}
'''
tail='''	cmd := exec.Command("mutecrypt", args...)
	var errbuf bytes.Buffer
	cmd.Stderr = &errbuf
	ppR, ppW, err := os.Pipe()
	if err != nil {
		return err
	}
	defer ppR.Close()
	ppW.Write(passphrase)
	ppW.Close()
	cmd.ExtraFiles = append(cmd.ExtraFiles, ppR)
	if err := cmd.Start(); err != nil {
		return err
	}
	if err := cmd.Wait(); err != nil {
		return fmt.Errorf("%s: %s", err, strings.TrimSpace(errbuf.String()))
	}
	return nil
}
'''
i=s.index("// readPassphrase reads")
h,t=s[:i],s[i:]
print("run",h.count(tail))
h=h.replace(tail,"	return runMutecrypt(args, nil, passphrase)\n}\n")
a='''		"--homedir", c.GlobalString("homedir"),
		"--loglevel", c.GlobalString("loglevel"),
		"--logdir", c.GlobalString("logdir"),
'''
for kind in ["vacuum","incremental"]:
    old='	args := []string{\n'+a+'		"db", "%s",\n	}\n'%kind
    print(kind,h.count(old))
    h=h.replace(old,'	args := append(mutecryptArgs(c), "db", "%s")\n'%kind)
s=h+t
open(R+f,'w').write(s)
# upkeep
f="ctrlengine/upkeep.go"
ed(f,('''		if times.Now()+int64(remain.Seconds()) >= last {
			token, err := wallet.GetToken(ce.client, def.AccdUsage, def.AccdOwner)
			if err != nil {
				return err
			}
			_, err = mixclient.PayAccount(privkey, token.Token, server, def.CACert)
			if err != nil {
				ce.client.UnlockToken(token.Hash)
				return log.Error(err)
			}
			ce.client.DelToken(token.Hash)
			last, err = mixclient.AccountStat(privkey, server, def.CACert)
			if err != nil {
				return err
			}
			err = ce.msgDB.SetAccountTime(mappedID, contact, last)
			if err != nil {
				return err
			}
		}
''','''		if last > times.Now()+int64(remain.Seconds()) {
			continue
		}
		if err := ce.payAccount(privkey, server); err != nil {
			return err
		}
		if last, err = mixclient.AccountStat(privkey, server, def.CACert); err != nil {
			return err
		}
		if err = ce.msgDB.SetAccountTime(mappedID, contact, last); err != nil {
			return err
		}
'''),('''	if past != 0 {
		if time.Unix(past, 0).Add(duration).After(now) {
			return false, 0, err
		}
	}
	return true, now.Unix(), nil
''','''	if past != 0 && now.Before(time.Unix(past, 0).Add(duration)) {
		return false, 0, nil
	}
	return true, now.Unix(), nil
'''),('''	if err := msgDB.AddValue(netDomain, string(jsn)); err != nil {
		return err
	}
	err = msgDB.AddValue("time."+netDomain, strconv.FormatInt(times.Now(), 10))
	if err != nil {
		return err
	}
''','''	if err := storeConfig(msgDB, netDomain, jsn); err != nil {
		return err
	}
'''),('''	// parse release date
	tRelease, err := time.Parse(git.Date, ce.config.Map["release.Date"])
	if err != nil {
		return err
	}
	// parse binary date
	tBinary, err := time.Parse(git.Date, release.Date)
	if err != nil {
		return err
	}
''','''	// parse binary date
	tBinary, err := time.Parse(git.Date, release.Date)
	if err != nil {
		return err
	}
	// parse release date
	tRelease, err := time.Parse(git.Date, ce.config.Map["release.Date"])
	if err != nil {
		return err
	}
'''))
app(f,'''
func (ce *CtrlEngine) payAccount(privkey *[ed25519.PrivateKeySize]byte, server string) error {
	token, err := wallet.GetToken(ce.client, def.AccdUsage, def.AccdOwner)
	if err != nil {
		return err
	}
	_, err = mixclient.PayAccount(privkey, token.Token, server, def.CACert)
	if err != nil {
		ce.client.UnlockToken(token.Hash)
		return log.Error(err)
	}
	ce.client.DelToken(token.Hash)
	return nil
}

func storeConfig(msgDB *msgdb.MsgDB, netDomain string, jsn []byte) error {
	if err := msgDB.AddValue(netDomain, string(jsn)); err != nil {
		return err
	}
	return msgDB.AddValue("time."+netDomain, strconv.FormatInt(times.Now(), 10))
}
''')
ed(f,('import (\n','import (\n	"crypto/ed25519"\n'))
# contact.go
f="ctrlengine/contact.go"
ed(f,('''	// add contact
	err = msgDB.AddContact(id, contactMapped, contact, fullName, contactType)
	if err != nil {
		return err
	}
	return nil
''','''	return msgDB.AddContact(id, contactMapped, contact, fullName, contactType)
'''),('''	if unmappedID != "" {
		log.Infof("contact already known -> make sure it is white listed")
		if prevContactType != msgdb.WhiteList {
			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
				prevFullName, msgdb.WhiteList)
			if err != nil {
				return err
			}
		}
		return nil
	}
''','''	if unmappedID != "" {
		log.Infof("contact already known -> make sure it is white listed")
		if prevContactType == msgdb.WhiteList {
			return nil
		}
		return ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
			prevFullName, msgdb.WhiteList)
	}
'''),('''	// write passphrase
	plen := len(passphrase)
	buf := make([]byte, plen+1)
	defer bzero.Bytes(buf)
	copy(buf, passphrase)
	copy(buf[plen:], []byte("\\n"))
	if _, err := passphraseWriter.Write(buf); err != nil {
		return err
	}
	passphraseWriter.Close()
''','''	if err := writePassphrase(passphraseWriter, passphrase); err != nil {
		return err
	}
'''))
app(f,'''
// writePassphrase writes passphrase to w and closes it.
func writePassphrase(w io.WriteCloser, passphrase []byte) error {
	plen := len(passphrase)
	buf := make([]byte, plen+1)
	defer bzero.Bytes(buf)
	copy(buf, passphrase)
	copy(buf[plen:], []byte("\\n"))
	if _, err := w.Write(buf); err != nil {
		return err
	}
	w.Close()
	return nil
}
''')
