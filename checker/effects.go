package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Uses of parts of the standard library that would undo a guarantee wherever
// they appeared.

// weakRandomUsers draw from math/rand for choices that are not secret: the
// order of servers, and the identifier of a lock.
var weakRandomUsers = map[string]bool{
	"configclient/roundrobin": true, "mix/mixaddr": true, "mix/smtpclient": true,
	"serviceguard/client/walletstore": true,
}

// WeakRandom: math/rand is used by the listed packages only, and never as a
// reader.
func (c *Ctx) WeakRandom() {
	byPkg := map[string]string{}
	detail := map[string]string{}
	n := 0
	for _, fn := range c.P.Fns {
		pk := fnPkgName(fnName(fn))
		if _, ok := byPkg[pk]; !ok {
			byPkg[pk] = ""
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cn := taintCallee(ci.Common())
				if !strings.HasPrefix(cn, "math/rand") {
					continue
				}
				n++
				if !weakRandomUsers[pk] || strings.HasSuffix(cn, ".Read") || strings.HasSuffix(cn, "rand.New") {
					byPkg[pk] = c.P.Pos(in.Pos())
					detail[pk] = fmt.Sprintf("%s calls %s at %s: not a cryptographic source", fnName(fn), cn, c.P.Pos(in.Pos()))
				}
			}
		}
	}
	for _, pk := range sortedKeys(byPkg) {
		c.add("weak random", pk+" uses math/rand only for choices that are not secret", byPkg[pk], detail[pk] == "", detail[pk])
	}
	c.Notes = append(c.Notes, fmt.Sprintf("weak random: %d calls of math/rand", n))
}

// TLSVerified: certificate verification is never switched off.
func (c *Ctx) TLSVerified() {
	bad := map[string]string{}
	all := map[string]string{}
	for _, fn := range c.P.Fns {
		pk := fnPkgName(fnName(fn))
		all[pk] = ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				switch f := typeFieldName(fa.X.Type(), fa.Field); f {
				case "crypto/tls.Config.InsecureSkipVerify", "crypto/tls.Config.VerifyPeerCertificate", "crypto/tls.Config.VerifyConnection":
					if k, ok := st.Val.(*ssa.Const); ok && (k.Value == nil || k.Value.String() == "false") {
						continue
					}
					all[pk] = c.P.Pos(in.Pos())
					bad[pk] = fmt.Sprintf("%s sets %s at %s", fnName(fn), f, c.P.Pos(in.Pos()))
				}
			}
		}
	}
	for _, pk := range sortedKeys(all) {
		c.add("tls verified", pk+" leaves the verification of certificates on", all[pk], bad[pk] == "", bad[pk])
	}
}
