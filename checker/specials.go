package main

// specials are all special analyses (used by the mutation tester).
var specials = []func(*Ctx){
	func(c *Ctx) { c.LostErrors("errors", []string{"*"}) },
}

func init() {
	specials = append(specials, (*Ctx).LockRules, (*Ctx).WeakRandom, (*Ctx).TLSVerified, func(c *Ctx) { c.SecretFlow("secret flow") }, func(c *Ctx) { c.IdentityMapping("identity characters") })
}
