package sim

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/hex"
	"encoding/pem"
	"math/big"
)

// Key is a signing key of the simulated world.
type Key struct {
	ID   string
	Type string
	Pub  obj
	sign func(msg []byte) []byte
	Priv crypto.Signer
	N    int
}

func (k *Key) Sign(msg []byte) []byte { return k.sign(msg) }

var keyPool []*Key

func keyID(pub obj) string {
	h := sha256.Sum256(canon(pub))
	return hex.EncodeToString(h[:])
}

type zeroReader struct{ n byte }

func (z *zeroReader) Read(p []byte) (int, error) {
	for i := range p {
		z.n = z.n*31 + 7
		p[i] = z.n
	}
	return len(p), nil
}

func pemPub(pub any) string {
	der, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
}

func mkEd(n int) *Key {
	seed := sha256.Sum256([]byte{byte(n), byte(n >> 8), 'k'})
	priv := ed25519.NewKeyFromSeed(seed[:])
	pub := obj{"keytype": "ed25519", "scheme": "ed25519", "keyval": obj{"public": hex.EncodeToString(priv.Public().(ed25519.PublicKey))}}
	return &Key{ID: keyID(pub), Type: "ed25519", Pub: pub, Priv: priv, N: n, sign: func(m []byte) []byte { return ed25519.Sign(priv, m) }}
}

func mkEC(n int, typ string) *Key {
	d := sha256.Sum256([]byte{byte(n), 'e'})
	c := elliptic.P256()
	priv := &ecdsa.PrivateKey{D: new(big.Int).SetBytes(d[:])}
	priv.Curve = c
	priv.X, priv.Y = c.ScalarBaseMult(d[:])
	pub := obj{"keytype": typ, "scheme": "ecdsa-sha2-nistp256", "keyval": obj{"public": pemPub(&priv.PublicKey)}}
	return &Key{ID: keyID(pub), Type: typ, Pub: pub, Priv: priv, N: n, sign: func(m []byte) []byte {
		h := sha256.Sum256(m)
		s, err := priv.Sign(nil, h[:], crypto.SHA256) // deterministic nonce (RFC 6979)
		if err != nil {
			panic(err)
		}
		return s
	}}
}

func mkRSA(n int) *Key {
	blk, _ := pem.Decode([]byte(rsaPEM))
	k, err := x509.ParsePKCS8PrivateKey(blk.Bytes)
	if err != nil {
		panic(err)
	}
	priv := k.(*rsa.PrivateKey)
	pub := obj{"keytype": "rsa", "scheme": "rsassa-pss-sha256", "keyval": obj{"public": pemPub(&priv.PublicKey)}}
	return &Key{ID: keyID(pub), Type: "rsa", Pub: pub, Priv: priv, N: n, sign: func(m []byte) []byte {
		h := sha256.Sum256(m)
		s, err := rsa.SignPSS(bytes.NewReader(make([]byte, 4096)), priv, crypto.SHA256, h[:], &rsa.PSSOptions{SaltLength: 32, Hash: crypto.SHA256})
		if err != nil {
			panic(err)
		}
		return s
	}}
}

const nEd = 150

func init() {
	for i := 0; i < nEd; i++ {
		keyPool = append(keyPool, mkEd(i))
	}
	keyPool = append(keyPool, mkEC(nEd, "ecdsa"), mkEC(nEd+1, "ecdsa-sha2-nistp256"), mkRSA(nEd+2))
}
