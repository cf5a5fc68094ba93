package main

// Algebraic laws of the modelled primitives: syntactic rewrites plus the same statements as SMT
// axioms (the back ends see the axioms; the rewrites only keep terms small).

func init() {
	law := func(name string, f func(a []*Term) *Term) { ufSimp[name] = f }
	// names carry the number of arguments (see modelIntrinsic)
	law("cbcdec_3", func(a []*Term) *Term {
		if c := a[2]; c.op == OUF && c.name == "cbcenc_3" && c.args[0] == a[0] && c.args[1] == a[1] {
			return c.args[2]
		}
		return nil
	})
	law("cbcenc_3", func(a []*Term) *Term {
		if c := a[2]; c.op == OUF && c.name == "cbcdec_3" && c.args[0] == a[0] && c.args[1] == a[1] {
			return c.args[2]
		}
		return nil
	})
	law("gcmopen_4", func(a []*Term) *Term {
		if c := a[2]; c.op == OUF && c.name == "gcmseal_4" && c.args[0] == a[0] && c.args[1] == a[1] && c.args[3] == a[3] {
			return c.args[2]
		}
		return nil
	})
	law("gcmok_4", func(a []*Term) *Term {
		if c := a[2]; c.op == OUF && c.name == "gcmseal_4" && c.args[0] == a[0] && c.args[1] == a[1] && c.args[3] == a[3] {
			return TTrue
		}
		return nil
	})
	// lengths
	for _, n := range []string{"cbcdec_3", "cbcenc_3"} {
		ufLen[n] = func(a []*Term) *Term { return Blen(a[2]) }
	}
	ufLen["gcmseal_4"] = func(a []*Term) *Term { return Add(Blen(a[2]), Int(16)) }
	extraAxioms["cbcenc_3"] = `(declare-fun |cbcdec_3| (B B B) B)
(assert (forall ((k B) (v B) (p B)) (! (and (= (blen (|cbcenc_3| k v p)) (blen p)) (= (|cbcdec_3| k v (|cbcenc_3| k v p)) p)) :pattern ((|cbcenc_3| k v p)))))`
	extraAxioms["cbcdec_3"] = `(declare-fun |cbcenc_3| (B B B) B)
(assert (forall ((k B) (v B) (p B)) (! (and (= (blen (|cbcdec_3| k v p)) (blen p)) (= (|cbcenc_3| k v (|cbcdec_3| k v p)) p)) :pattern ((|cbcdec_3| k v p)))))`
	extraAxioms["gcmseal_4"] = `(declare-fun |gcmopen_4| (B B B B) B)
(declare-fun |gcmok_4| (B B B B) Bool)
(assert (forall ((k B) (n B) (p B) (a B)) (! (and (= (blen (|gcmseal_4| k n p a)) (+ 16 (blen p))) (|gcmok_4| k n (|gcmseal_4| k n p a) a) (= (|gcmopen_4| k n (|gcmseal_4| k n p a) a) p)) :pattern ((|gcmseal_4| k n p a)))))`
	// Diffie-Hellman: x25519(a, g^b) = x25519(b, g^a)
	law("x25519_2", func(a []*Term) *Term {
		if p := a[1]; p.op == OUF && p.name == "x25519base_1" && p.args[0].id < a[0].id {
			return UF("x25519_2", "B", p.args[0], UF("x25519base_1", "B", a[0]))
		}
		return nil
	})
	extraAxioms["x25519_2"] = `(declare-fun |x25519base_1| (B) B)
(assert (forall ((a B) (b B)) (! (= (|x25519_2| a (|x25519base_1| b)) (|x25519_2| b (|x25519base_1| a))) :pattern ((|x25519_2| a (|x25519base_1| b))))))`
	// iterated hashing: SHA-512 of the previous digest and the key
	law("fpiter_3", func(a []*Term) *Term {
		if a[2] == Int(0) {
			return a[0]
		}
		return nil
	})
	ufLen["fpiter_3"] = func(a []*Term) *Term {
		if known(Ge(a[2], Int(1))) {
			return Int(64)
		}
		return nil
	}
	law("sha512_1", func(a []*Term) *Term {
		if a[0].op != OCat {
			return nil
		}
		f := a[0].args[0]
		if f.op == OUF && f.name == "fpiter_3" && known(Ge(f.args[2], Int(0))) && Cat(a[0].args[1:]...) == f.args[1] {
			return UF("fpiter_3", "B", f.args[0], f.args[1], Add(f.args[2], Int(1)))
		}
		return nil
	})
	extraAxioms["fpiter_3"] = `(declare-fun |sha512_1| (B) B)
(assert (forall ((s B) (k B)) (! (= (|fpiter_3| s k 0) s) :pattern ((|fpiter_3| s k 0)))))
(assert (forall ((s B) (k B) (n Int)) (! (=> (>= n 0) (= (|sha512_1| (cat (|fpiter_3| s k n) k)) (|fpiter_3| s k (+ n 1)))) :pattern ((|sha512_1| (cat (|fpiter_3| s k n) k))))))
(assert (forall ((s B) (k B) (n Int)) (! (=> (and (>= n 0) (= (blen k) 0)) (= (|sha512_1| (|fpiter_3| s k n)) (|fpiter_3| s k (+ n 1)))) :pattern ((|sha512_1| (|fpiter_3| s k n))))))`
	// an order on texts: exactly one of two different texts comes first
	law("strless_2", func(a []*Term) *Term {
		if a[0].id > a[1].id {
			return Not(UF("strless_2", "Bool", a[1], a[0]))
		}
		return nil
	})
	// base64: padding is trimmed to the unpadded form, and what was encoded decodes to itself
	law("trimright_2", func(a []*Term) *Term {
		if t := a[0]; t.op == OUF && known(Eq(a[1], Lit("="))) {
			if t.name == "b64std_1" {
				return UF("b64raw_1", "B", t.args[0])
			}
			if t.name == "b64raw_1" {
				return t
			}
		}
		return nil
	})
	ufLen["b64std_1"] = func(a []*Term) *Term { return Mul(Int(4), DivT(Add(Blen(a[0]), Int(2)), Int(3))) }
	ufLen["b64raw_1"] = func(a []*Term) *Term { return DivT(Add(Mul(Int(8), Blen(a[0])), Int(5)), Int(6)) }
	enc := func(t *Term) *Term { // the bytes t is the padded encoding of
		if t.op == OUF && (t.name == "b64std_1" || t.name == "b64raw_1" && known(Eq(ModT(Blen(t.args[0]), Int(3)), Int(0)))) {
			return t.args[0]
		}
		if t.op == OCat && len(t.args) == 2 && t.args[0].op == OUF && t.args[0].name == "b64raw_1" {
			if n := Blen(t.args[0].args[0]); known(Eq(t.args[1], Rep(Int('='), ModT(Sub(Int(3), ModT(n, Int(3))), Int(3))))) {
				return t.args[0].args[0]
			}
		}
		return nil
	}
	law("b64ok_1", func(a []*Term) *Term {
		if enc(a[0]) != nil {
			return TTrue
		}
		return nil
	})
	law("b64dec_1", func(a []*Term) *Term { return enc(a[0]) })
	// the chain key after n steps of a chain
	law("ckiter_2", func(a []*Term) *Term {
		if a[1] == Int(0) && known(Eq(Blen(a[0]), Int(32))) {
			return a[0]
		}
		return nil
	})
	law("hmac256_2", func(a []*Term) *Term {
		if k := a[0]; k.op == OUF && k.name == "ckiter_2" && isSeed2(a[1]) && known(Ge(k.args[1], Int(0))) {
			return UF("ckiter_2", "B", k.args[0], Add(k.args[1], Int(1)))
		}
		return nil
	})
	extraAxioms["ckiter_2"] = `(declare-fun |hmac256_2| (B B) B)
(assert (forall ((k B)) (! (=> (= (blen k) 32) (= (|ckiter_2| k 0) k)) :pattern ((|ckiter_2| k 0)))))
(assert (forall ((k B) (n Int) (d B)) (! (=> (and (>= n 0) (= (blen d) 1) (= (bat d 0) 2)) (= (|hmac256_2| (|ckiter_2| k n) d) (|ckiter_2| k (+ n 1)))) :pattern ((|hmac256_2| (|ckiter_2| k n) d)))))`
}

func isSeed2(t *Term) bool {
	if known(Eq(Blen(t), Int(1))) {
		return Bat(t, Int(0)) == Int(2)
	}
	return false
}
