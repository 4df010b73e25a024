package main

import "golang.org/x/tools/go/ssa"

// The properties and the constructs that decide them. globs: functions whose
// contracts belong to the property (filter: only the obligations mentioning
// it). extra: the special analyses.

type spec struct {
	id     string
	min    int
	flat   bool // without the functions called
	globs  []string
	filter map[string][]string // filter regexp -> globs
	extra  []func(*Ctx)
	expl   string
}

const contractExpl = " Contracts: for each listed function, obligations over its normalised value terms are decided by a must-dataflow analysis of the SSA form that inlines unexported helpers: facts that hold on every path to every success exit, facts that hold before each effectful call, the closed set of forms in which each callee may be called, and the value returned as each result."

func init() {
	for _, s := range specs {
		s := s
		register(&Property{ID: s.id, Min: s.min, Explanation: s.expl + contractExpl, Run: func(c *Ctx) {
			if len(s.globs) > 0 {
				c.Contracts("contract", "", s.globs...)
			}
			for _, f := range sortedKeys(s.filter) {
				c.Contracts("contract", f, s.filter[f]...)
			}
			if len(s.globs) > 0 {
				c.LostErrors("errors", s.globs)
				if more := c.relied(s.globs, s.flat, c.Tier == "thorough"); len(more) > 0 {
					c.Contracts("relied-on", "", more...)
					c.LostErrors("relied-on errors", more)
				}
			}
			for _, x := range s.extra {
				x(c)
			}
		}})
	}
}

// relied: the further functions with contracts that the given ones call,
// directly or not; in the thorough tier also those that call the given ones.
func (c *Ctx) relied(globs []string, flat, callers bool) []string {
	loadContracts()
	match := func(n string) bool {
		for _, g := range globs {
			if globMatch(g, n) {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	var work, up []*ssa.Function
	push := func(fn *ssa.Function) {
		if fn != nil && !seen[fn] && len(fn.Blocks) > 0 && inModule(fnPkg(fn)) {
			seen[fn] = true
			work = append(work, fn)
		}
	}
	called := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						called[g] = append(called[g], fn)
					}
				}
			}
		}
	}
	for _, fn := range c.P.Fns {
		if match(fnName(rootOf(fn))) {
			push(fn)
			if callers {
				for _, g := range called[fn] {
					up = append(up, rootOf(g))
				}
			}
		}
	}
	for len(work) > 0 && !flat {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					push(ci.Common().StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					push(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, fn := range up {
		seen[fn] = true
	}
	names := map[string]bool{}
	for fn := range seen {
		n := fnName(rootOf(fn))
		if contractTab[n] != nil && !match(n) {
			names[n] = true
		}
	}
	return sortedKeysB(names)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

const (
	hc    = "cryptengine.CryptEngine."
	ctl   = "ctrlengine."
	ctlE  = "ctrlengine.CtrlEngine."
	kdb   = "keydb.KeyDB."
	mdb   = "msgdb.MsgDB."
	mem   = "msg/session/memstore.MemStore."
	sgc   = "serviceguard/client."
	sgcC  = "serviceguard/client.Client."
	wst   = "serviceguard/client/walletstore."
	kpool = "serviceguard/common/keypool."
)

func pre(p string, ns ...string) []string {
	var r []string
	for _, n := range ns {
		r = append(r, p+n)
	}
	return r
}

func cat(ls ...[]string) []string {
	var r []string
	seen := map[string]bool{}
	for _, l := range ls {
		for _, s := range l {
			if !seen[s] {
				seen[s] = true
				r = append(r, s)
			}
		}
	}
	return r
}

var (
	gMsgRead   = pre("msg.", "Decrypt", "readHeader", "readOuterHeader", "readInnerHeader", "readPreHeader", "ReadFirstOuterHeader", "header.verify", "procUID")
	gMsgWrite  = pre("msg.", "Encrypt", "newHeader", "newHeaderPacket", "headerPacket.write", "newInnerHeader", "innerHeader.write", "newOuterHeader", "outerHeader.write", "newPreHeader", "preHeader.write")
	gMsgKeys   = pre("msg.", "checkKeys", "deriveRootKey", "deriveSymmetricKeys", "generateMessageKeys", "rootKeyAgreementRecipient", "rootKeyAgreementSender", "getSessionKey", "addSessionKey", "setNextSenderSessionPub")
	gCrypt     = pre(hc, "decrypt", "encrypt")
	gSessStore = cat(pre(mem, "*"), []string{"msg/session.*", "msg/session/memstore.New"},
		pre(hc, "AddSessionKey", "DelMessageKey", "DelPrivSessionKey", "GetChainKey", "GetMessageKey", "GetPrivateKeyEntry", "GetPublicKeyEntry", "GetRootKeyHash", "GetSessionKey", "GetSessionState", "HasSession", "NumMessageKeys", "SetSessionState", "StoreSession"),
		pre(kdb, "AddSession", "AddSessionKey", "DelMessageKey", "DelPrivSessionKey", "GetMessageKey", "GetSession", "GetSessionKey", "GetSessionState", "SetSessionState"))
	gCipher   = []string{"cipher.*", "cipher/aes256.*"}
	gUIDMsg   = []string{"uid.Message.*", "uid.KeyEntry.*", "uid.KeyEntryEqual", "uid.SigKeyHash", "uid.NewJSON", "uid.NewJSONKeyEntry", "uid.uidContent.JSON", "uid.contents.json", "uid.marshalSorted"}
	gKeyInit  = []string{"uid.KeyInit.*", "uid.SessionAnchor.*", "uid.NewJSONKeyInit", "uid.Message.KeyInit", "uid.Message.sessionAnchor", "uid.Message.Check", "uid.Message.checkV1_0", "uid.KeyEntry.*"}
	gReply    = []string{"uid.MessageReply.*", "uid.CreateReply", "uid.NewJSONReply", "uid.Entry.json", "uid.Message.Encrypt", "uid.VerifyNonce", "uid.Message.SignNonce"}
	gHash     = cat(pre(hc, "fetchUID", "lookupHashChain", "searchHashChain", "showHashChain", "syncHashChain", "validateHashChain", "verifyServerSig", "deleteHashChain"), []string{"keyserver/hashchain.*"}, pre(kdb, "AddHashChainEntry", "DelHashChain", "GetHashChainEntry", "GetLastHashChainEntry", "GetLastHashChainPos"))
	gCtlCrypt = pre(ctl, "mutecrypt*", "createKeyDB", "rekeyKeyDB")
	gCtlProto = pre(ctl, "muteproto*")
	gDB       = []string{"encdb.*", "keydb.*", "msgdb.*"}
	gWStore   = []string{"serviceguard/client/walletstore.*", "serviceguard/common/keypool/keydb.*"}
	gSGClient = []string{"serviceguard/client.*", "serviceguard/client/packetproto.*", "serviceguard/client/walletrpc.*", "serviceguard/client/guardrpc.*", "serviceguard/client/keylookup.*", "serviceguard/client/trivial.*", "util/wallet.*"}
	gSGCommon = []string{"serviceguard/common/*"}
	gMix      = []string{"mix/client.*", "mix/mixaddr.*", "mix/mixcrypt.*", "mix/nymaddr.*", "mix/smtpclient.*"}
	gConfig   = []string{"configclient.*", "configclient/*", "def.*"}
)
