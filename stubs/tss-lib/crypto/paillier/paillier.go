// Package paillier is a stand-in for tss-lib's crypto/paillier: same exported signatures, textbook Paillier inside.
package paillier

import (
	"crypto/rand"
	"errors"
	"math/big"
	"time"
)

// ErrMessageTooLong is returned for messages outside [0, N) or ciphertexts outside [0, N^2).
var ErrMessageTooLong = errors.New("the message is too large or < 0")

var one = big.NewInt(1)

type (
	// PublicKey is a Paillier public key.
	PublicKey struct {
		N *big.Int
	}
	// PrivateKey is a Paillier private key.
	PrivateKey struct {
		PublicKey
		LambdaN, // lcm(p-1, q-1)
		PhiN *big.Int // (p-1) * (q-1)
	}
)

// GenerateKeyPair generates a key pair whose modulus has about modulusBitLen bits.
func GenerateKeyPair(modulusBitLen int, timeout time.Duration, optionalConcurrency ...int) (privateKey *PrivateKey, publicKey *PublicKey, err error) {
	for {
		p, err := rand.Prime(rand.Reader, modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		q, err := rand.Prime(rand.Reader, modulusBitLen-modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		if p.Cmp(q) == 0 {
			continue
		}
		n := new(big.Int).Mul(p, q)
		p1, q1 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
		phi := new(big.Int).Mul(p1, q1)
		if new(big.Int).GCD(nil, nil, n, phi).Cmp(one) != 0 {
			continue
		}
		lambda := new(big.Int).Div(phi, new(big.Int).GCD(nil, nil, p1, q1))
		pub := &PublicKey{N: n}
		return &PrivateKey{PublicKey: *pub, LambdaN: lambda, PhiN: phi}, pub, nil
	}
}

// NSquare returns N^2.
func (publicKey *PublicKey) NSquare() *big.Int { return new(big.Int).Mul(publicKey.N, publicKey.N) }

// Gamma returns N+1.
func (publicKey *PublicKey) Gamma() *big.Int { return new(big.Int).Add(publicKey.N, one) }

// EncryptAndReturnRandomness encrypts m.
func (publicKey *PublicKey) EncryptAndReturnRandomness(m *big.Int) (c *big.Int, x *big.Int, err error) {
	if m.Sign() < 0 || m.Cmp(publicKey.N) >= 0 {
		return nil, nil, ErrMessageTooLong
	}
	x, err = rand.Int(rand.Reader, publicKey.N)
	if err != nil {
		return nil, nil, err
	}
	x.Add(x, one)
	n2 := publicKey.NSquare()
	gm := new(big.Int).Exp(publicKey.Gamma(), m, n2)
	xn := new(big.Int).Exp(x, publicKey.N, n2)
	return new(big.Int).Mod(new(big.Int).Mul(gm, xn), n2), x, nil
}

// Encrypt encrypts m.
func (publicKey *PublicKey) Encrypt(m *big.Int) (c *big.Int, err error) {
	c, _, err = publicKey.EncryptAndReturnRandomness(m)
	return
}

// HomoMult multiplies the plaintext of c1 by m.
func (publicKey *PublicKey) HomoMult(m, c1 *big.Int) (*big.Int, error) {
	if m.Sign() < 0 || m.Cmp(publicKey.N) >= 0 {
		return nil, ErrMessageTooLong
	}
	n2 := publicKey.NSquare()
	if c1.Sign() < 0 || c1.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Exp(c1, m, n2), nil
}

// HomoAdd adds the plaintexts of c1 and c2.
func (publicKey *PublicKey) HomoAdd(c1, c2 *big.Int) (*big.Int, error) {
	n2 := publicKey.NSquare()
	if c1.Sign() < 0 || c1.Cmp(n2) >= 0 || c2.Sign() < 0 || c2.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Mod(new(big.Int).Mul(c1, c2), n2), nil
}

// Decrypt decrypts c.
func (privateKey *PrivateKey) Decrypt(c *big.Int) (m *big.Int, err error) {
	n2 := privateKey.NSquare()
	if c.Sign() < 0 || c.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	l := func(u *big.Int) *big.Int { return new(big.Int).Div(new(big.Int).Sub(u, one), privateKey.N) }
	lc := l(new(big.Int).Exp(c, privateKey.LambdaN, n2))
	lg := l(new(big.Int).Exp(privateKey.Gamma(), privateKey.LambdaN, n2))
	return new(big.Int).Mod(new(big.Int).Mul(lc, new(big.Int).ModInverse(lg, privateKey.N)), privateKey.N), nil
}
