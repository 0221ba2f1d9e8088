From e53c9617348a86be6b945374add0c8715f645fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 01/37] fix: adding a point to its inverse yields the neutral
 element

---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index da77bfc..4773bce 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -52,6 +52,9 @@ func (g sGroup) Add(a Point, b Point) Point {
 		resultY = new(big.Int).Set(as.y)
 	} else if (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0) {
 		resultX, resultY = g.curve.Double(as.x, as.y)
+	} else if as.x.Cmp(bs.x) == 0 {
+		// b is the inverse of a; the library would return (0, 0), which is not our neutral element
+		return g.Neutral()
 	} else {
 		resultX, resultY = g.curve.Add(as.x, as.y, bs.x, bs.y)
 	}
-- 
2.43.0


From daa534108290eea72b7d0f0cb531f286f8ddcb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 02/37] fix: scalar multiplication accepts any scalar and the
 neutral element, and leaves the scalar alone

---
 pkg/curve/secp256k1.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 4773bce..1b217de 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -70,21 +70,22 @@ func (g sGroup) Neg(a Point) Point {
 	return g.ScalarMult(a, g.pow)
 }
 
-//scale has to be a nonnegative integer
+// ScalarMult multiplies a point by a scalar, which is taken modulo the order of the group
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
+	as := a.(sPoint)
+	if as.x == nil && as.y == nil {
+		return g.Neutral()
 	}
-	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, scale.Bytes())
+	// the library treats scalars that are not below the order as invalid; reduce a copy, scale belongs to the caller
+	reduced := new(big.Int).Mod(scale, g.Order())
+	resultX, resultY := g.curve.ScalarMult(as.x, as.y, reduced.Bytes())
 	return sPoint{resultX, resultY}
 }
 
-//scale has to be a nonnegative integer
+// ScalarBaseMult multiplies the generator by a scalar, which is taken modulo the order of the group
 func (g sGroup) ScalarBaseMult(scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
-	}
-	resultX, resultY := g.curve.ScalarBaseMult(scale.Bytes())
+	reduced := new(big.Int).Mod(scale, g.Order())
+	resultX, resultY := g.curve.ScalarBaseMult(reduced.Bytes())
 	return sPoint{resultX, resultY}
 }
 
-- 
2.43.0


From 570a72a3200f430e0756487f1d498d0a736265e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 03/37] fix: decode the neutral element, and reject oversized,
 non-canonical and off-curve points

---
 pkg/curve/secp256k1.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 1b217de..b5b75ae 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -9,6 +9,9 @@ import (
 	"github.com/ethereum/go-ethereum/crypto/secp256k1"
 )
 
+// maxCoordLen is the maximal length in bytes of an encoded coordinate
+const maxCoordLen = 32
+
 // secpP implements the Point interface
 type sPoint struct {
 	x, y *big.Int
@@ -127,31 +130,33 @@ func (g sGroup) Encode(a Point, w io.Writer) error {
 }
 
 func (g sGroup) Decode(r io.Reader) (Point, error) {
-	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return nil, err
-	}
-	if n < 8 {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected 8, got %d", n)
+	lenBytes := make([]byte, 4)
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return nil, fmt.Errorf("Reading lenX: %v", err)
 	}
-
-	lenX := binary.BigEndian.Uint32(lenBytes[:4])
+	lenX := binary.BigEndian.Uint32(lenBytes)
+	// encoding of a neutral element is [0 0 0 0]
 	if lenX == 0 {
 		return sPoint{nil, nil}, nil
 	}
 
-	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
-	xyBytes := make([]byte, lenX+lenY)
-	n, err = r.Read(xyBytes)
-	if err != nil {
-		return nil, err
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return nil, fmt.Errorf("Reading lenY: %v", err)
 	}
-	if uint32(n) < lenX+lenY {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d", lenX+lenY, n)
+	lenY := binary.BigEndian.Uint32(lenBytes)
+	if lenX > maxCoordLen || lenY > maxCoordLen {
+		return nil, fmt.Errorf("Coordinates are too long: lenX %d, lenY %d", lenX, lenY)
+	}
+
+	xyBytes := make([]byte, lenX+lenY)
+	if _, err := io.ReadFull(r, xyBytes); err != nil {
+		return nil, fmt.Errorf("Reading %d bytes of coordinates: %v", lenX+lenY, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
+	if x.Cmp(g.curve.P) >= 0 || y.Cmp(g.curve.P) >= 0 || !g.curve.IsOnCurve(x, y) {
+		return nil, fmt.Errorf("Decoded coordinates are not a point on the curve")
+	}
 
 	return sPoint{x, y}, nil
 }
-- 
2.43.0


From 1c544c9bdba4493c12afdc75850330012ebe36e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 04/37] fix: bind the Fiat-Shamir challenge to the first
 message of the proof

---
 pkg/crypto/zkpok/zkpok.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index f017369..51ccac9 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -32,19 +32,21 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	sigma, _ := rand.Int(rand.Reader, order)
 	rho, _ := rand.Int(rand.Reader, order)
 
+	xy := fct.Create(rho, sigma)
+
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
 	if err := comm.Encode(buf); err != nil {
 		return nil, err
 	}
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	var z1, z2 big.Int
 
-	d := fct.Neutral()
-	d = d.Compose(fct.Create(rho, sigma), d.Exp(comm, e))
 	z1.Add(sigma, z1.Mul(e, rnd))
 	z2.Add(rho, z2.Mul(e, value))
-	xy := fct.Create(rho, sigma)
 	z1.Mod(&z1, order)
 	z2.Mod(&z2, order)
 
@@ -62,6 +64,9 @@ func (z *ZKEGKnow) Verify(fct *commitment.ElGamalFactory, comm *commitment.ElGam
 	if err := comm.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	d = d.Compose(z.xy, d.Exp(comm, e))
 
@@ -209,6 +214,9 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	sigma, _ := rand.Int(rand.Reader, g.Order())
 	tau, _ := rand.Int(rand.Reader, g.Order())
 
+	xy := fct.Neutral()
+	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
 	if err := c1.Encode(buf); err != nil {
@@ -217,6 +225,9 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err := c2.Encode(buf); err != nil {
 		return nil, err
 	}
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
@@ -225,8 +236,6 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
 	z2.Mod(&z2, fct.Curve().Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	return &ZKEGRefresh{
 		z1: &z1,
@@ -244,6 +253,9 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	if err := c2.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	d := fct.Neutral()
-- 
2.43.0


From 5b5598f8430f95289331050ae200c44c96ee1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 05/37] fix: report a failing entropy source when creating
 proofs

---
 pkg/crypto/zkpok/zkpok.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 51ccac9..be6655b 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -29,8 +29,14 @@ type ZKEGKnow struct {
 //NewZKEGKnow creates ZKEGKnow proof of knowledge of witness (value, r) for commitment c
 func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value, rnd *big.Int) (*ZKEGKnow, error) {
 	order := fct.Curve().Order()
-	sigma, _ := rand.Int(rand.Reader, order)
-	rho, _ := rand.Int(rand.Reader, order)
+	sigma, err := rand.Int(rand.Reader, order)
+	if err != nil {
+		return nil, err
+	}
+	rho, err := rand.Int(rand.Reader, order)
+	if err != nil {
+		return nil, err
+	}
 
 	xy := fct.Create(rho, sigma)
 
@@ -211,8 +217,14 @@ type ZKEGRefresh struct {
 //NewZKEGRefresh creates ZKEGRefresh proof of knowledge
 func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, r *big.Int) (*ZKEGRefresh, error) {
 	g := fct.Curve()
-	sigma, _ := rand.Int(rand.Reader, g.Order())
-	tau, _ := rand.Int(rand.Reader, g.Order())
+	sigma, err := rand.Int(rand.Reader, g.Order())
+	if err != nil {
+		return nil, err
+	}
+	tau, err := rand.Int(rand.Reader, g.Order())
+	if err != nil {
+		return nil, err
+	}
 
 	xy := fct.Neutral()
 	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
-- 
2.43.0


From 8c49965ea5bc2dbb5f24e1fabdc1b7b8962a6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 06/37] fix: decoding a proof rejects truncated announcements
 and oversized lengths

---
 pkg/crypto/zkpok/zkpok.go | 51 ++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index be6655b..712bca4 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -13,6 +13,9 @@ import (
 	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
 )
 
+//maxScalarLen is the maximal length in bytes of an encoded response
+const maxScalarLen = 32
+
 //ZKproof represents a zero-knowledge proof that may be verified
 type ZKproof interface {
 	Verify() bool
@@ -107,32 +110,25 @@ func (z *ZKEGKnow) Encode(w io.Writer) error {
 //Decode decodes ZKEGKnow proof
 func (z *ZKEGKnow) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("Reading lengths: %v", err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	allBytes := make([]byte, z1Len+z2Len)
-
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
+	if z1Len > maxScalarLen || z2Len > maxScalarLen {
+		return fmt.Errorf("Responses are too long: %d and %d bytes", z1Len, z2Len)
 	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	allBytes := make([]byte, z1Len+z2Len)
+	if _, err := io.ReadFull(r, allBytes); err != nil {
+		return fmt.Errorf("Reading %d bytes of payload: %v", z1Len+z2Len, err)
 	}
 
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
 
-	return nil
+	return z.xy.Decode(r)
 }
 
 //ZKEGRerand implements proof that a comitment c2 is a proper rerandomization of commitment c1
@@ -305,30 +301,25 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("Reading lengths: %v", err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	allBytes := make([]byte, z1Len+z2Len)
-
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
+	if z1Len > maxScalarLen || z2Len > maxScalarLen {
+		return fmt.Errorf("Responses are too long: %d and %d bytes", z1Len, z2Len)
 	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	allBytes := make([]byte, z1Len+z2Len)
+	if _, err := io.ReadFull(r, allBytes); err != nil {
+		return fmt.Errorf("Reading %d bytes of payload: %v", z1Len+z2Len, err)
 	}
+
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
-	return nil
+
+	return z.xy.Decode(r)
 }
 
 // ZKDLog implements proof of knowledge of discrete logarithm
-- 
2.43.0


From 5203baf97d6c2d254b98592b4b2f09c17e23f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 07/37] fix: scalars live modulo the order of the group, not
 the characteristic of the base field

---
 pkg/arith/config.go | 4 ++--
 pkg/crypto/hash.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/config.go b/pkg/arith/config.go
index a9141da..465f61d 100644
--- a/pkg/arith/config.go
+++ b/pkg/arith/config.go
@@ -8,6 +8,6 @@ import (
 
 var (
 	randReader io.Reader = rand.Reader
-	// Q TODO: placeholder, should be replaced with order of the curve
-	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+	// Q is the order of the curve
+	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 )
diff --git a/pkg/crypto/hash.go b/pkg/crypto/hash.go
index c70ba74..0066476 100644
--- a/pkg/crypto/hash.go
+++ b/pkg/crypto/hash.go
@@ -7,8 +7,8 @@ import (
 	"golang.org/x/crypto/hkdf"
 )
 
-// Q TODO: placeholder, should be replaced with order of the curve
-var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+// Q is the order of the curve
+var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 
 //HashToBigInt takes []byte and returns its hash as a big.Int
 func HashToBigInt(msg []byte) *big.Int {
-- 
2.43.0


From 095ddac669b7b360f936c080dbc089b447c3b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 08/37] fix: results of Lin and Mult keep the identity of the
 party, and all of their fields

---
 pkg/arith/distributed_secret.go | 6 ++++++
 pkg/arith/mult.go               | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3f31379..af615dc 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -217,6 +217,7 @@ func Gen(label string, server sync.Server, egf *commitment.ElGamalFactory, pid,
 // Lin computes locally a linear combination of the secrets
 func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds := &TDSecret{}
+	tds.pid = a.pid
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
@@ -225,6 +226,11 @@ func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
 	tmp := new(big.Int).Mul(beta, b.skShare)
 	tds.skShare.Add(tds.skShare, tmp)
+	tds.skShare.Mod(tds.skShare, Q)
+
+	tds.r = new(big.Int).Mul(alpha, a.r)
+	tds.r.Add(tds.r, new(big.Int).Mul(beta, b.r))
+	tds.r.Mod(tds.r, Q)
 
 	makeEGLin := func(aeg, beg *commitment.ElGamal) *commitment.ElGamal {
 		result := tds.egf.Neutral()
diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index f72db7e..b44d9a1 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -18,8 +18,10 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 	nProc := len(a.egs)
 
 	c = &ADSecret{}
+	c.pid = a.pid
 	c.label = cLabel
 	c.server = a.server
+	c.egf = a.egf
 
 	// Step 1. Compute a product of commitments to b
 	pid := int(a.pid)
-- 
2.43.0


From 7c85342f90a3611e7dcbd8bdfb8f4ab771aa28ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 09/37] fix: Mult verifies the proof it received, not its own

---
 pkg/arith/mult.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index b44d9a1..7a5c20b 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -99,10 +99,10 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 		var egexp zkpok.NoopZKproof
 		buf := bytes.NewBuffer(data)
 		if err := egexp.Decode(buf); err != nil {
-			return fmt.Errorf("decode: egknow %v", err)
+			return fmt.Errorf("decode: egexp %v", err)
 		}
-		if !egknow.Verify() {
-			return fmt.Errorf("Wrong egknow proof")
+		if !egexp.Verify() {
+			return fmt.Errorf("Wrong egexp proof")
 		}
 
 		eg := commitment.ElGamal{}
-- 
2.43.0


From e35a2d8d56a496bc51ce8bbfd330da34e7ba2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 10/37] fix: PrivMult decrypts the ciphertext it received

---
 pkg/arith/mult.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 7a5c20b..411fd45 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -234,7 +234,6 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			var err error
 			// Bob for b
 			abmts[id] = new(big.Int).SetBytes(data)
-			abmts[id].Sub(abmts[id], pub.N)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
 			}
@@ -256,9 +255,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		share.Add(share, t)
 		share.Add(share, abmts[id])
 	}
-	if len(share.Bytes()) > 32 {
-		share.Mod(share, Q)
-	}
+	share.Mod(share, Q)
 
 	return share, nil
 }
-- 
2.43.0


From 96c6c0f5542c1ea31bc5d5c68a72b716dfcf5047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 11/37] fix: Reshare returns the shares it computed, and Reveal
 interpolates them

---
 pkg/arith/distributed_secret.go | 21 +++++++++++++++++----
 pkg/arith/reshare.go            | 10 +++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index af615dc..b1874e0 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -71,12 +71,25 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 		}
 	}
 
-	sum := big.NewInt(0)
-	for _, secret := range secrets {
-		if secret != nil {
-			sum.Add(sum, secret)
+	// any t shares determine the secret
+	args := make([]*big.Int, 0, tds.t)
+	shares := make([]*big.Int, 0, tds.t)
+	for i, secret := range secrets {
+		if secret != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
+			shares = append(shares, secret)
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("Reveal: received %d shares, need %d", len(args), tds.t)
+	}
+
+	order := tds.egf.Curve().Order()
+	sum := big.NewInt(0)
+	for i, arg := range args {
+		sum.Add(sum, new(big.Int).Mul(shares[i], lagrangeCoef(arg, args, order)))
+	}
+	sum.Mod(sum, order)
 
 	return sum, nil
 }
diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 709c2a8..eccfb4d 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -428,10 +428,14 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		return nil, err
 	}
 
+	shareComms[ads.pid] = shareCommRefresh
+	shareRand.Add(shareRand, shareRandRefresh)
+	shareRand.Mod(shareRand, order)
+
 	tds := &TDSecret{*ads, t}
-	ads.skShare = share
-	ads.r = shareRandRefresh
-	ads.egs = shareComms
+	tds.skShare = share
+	tds.r = shareRand
+	tds.egs = shareComms
 
 	return tds, nil
 }
-- 
2.43.0


From 6b264259fbe3bcff970724e97cb6191807463152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 12/37] fix: Reveal and Exp fail when a round fails for a
 reason other than few missing parties

---
 pkg/arith/distributed_secret.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index b1874e0..3d8b489 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -66,7 +66,8 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 
 	nProc := len(tds.egs)
 	if err := tds.server.Round(toSend, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
+		rErr, ok := err.(*sync.RoundError)
+		if !ok || rErr.Missing() == nil || nProc-len(rErr.Missing()) < int(tds.t) {
 			return nil, err
 		}
 	}
@@ -123,7 +124,8 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 
 	nProc := len(tds.egs)
 	if err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
+		rErr, ok := err.(*sync.RoundError)
+		if !ok || rErr.Missing() == nil || nProc-len(rErr.Missing()) < int(tds.t) {
 			return nil, err
 		}
 	}
-- 
2.43.0


From a8856d588f8d114792b07f82f2f1e988813f3610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 13/37] fix: Exp interpolates the shares that arrived,
 whichever parties are missing

---
 pkg/arith/distributed_secret.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3d8b489..4c14bdf 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -132,21 +132,18 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 
 	var wg stdsync.WaitGroup
 	channel := make(chan curve.Point, nProc)
-	counter := tds.t
 
-	args := make([]*big.Int, tds.t)
-	values := make([]curve.Point, tds.t)
+	args := make([]*big.Int, 0, tds.t)
+	values := make([]curve.Point, 0, tds.t)
 	for i, value := range tdk.pkShares {
-		if value == nil {
-			continue
-		}
-		args[i] = big.NewInt(int64(i))
-		values[i] = value
-		counter = counter - 1
-		if counter == 0 {
-			break
+		if value != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
+			values = append(values, value)
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("Exp: received %d shares, need %d", len(args), tds.t)
+	}
 
 	for i, arg := range args {
 		wg.Add(1)
-- 
2.43.0


From cd23ef5dbc3a350646e797b07408812d0476514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 14/37] fix: a key made by Exp carries its secret, so that its
 label can be read

---
 pkg/arith/distributed_secret.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 4c14bdf..cc496a8 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -102,6 +102,7 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	pid := tds.pid
 	tdk := &TDKey{}
 	tdk.secret = tds
+	tdk.DKey.secret = &tds.DSecret
 	tdk.pkShares = make([]curve.Point, len(tds.egs))
 	tdk.pkShares[pid] = group.ScalarBaseMult(tds.skShare)
 
-- 
2.43.0


From c4bf3b4f609abeec4c0fa149cad0b4a87ce2dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 15/37] fix: Reshare rejects thresholds that no set of parties
 can meet

---
 pkg/arith/reshare.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index eccfb4d..ea89963 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -13,11 +13,11 @@ import (
 
 // Reshare transforms the arithmetic secret into a threshold secret
 func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
-	if t < 1 {
-		return nil, fmt.Errorf("Cannot reshare with threshold %v", t)
+	nProc := len(ads.egs)
+	if t < 1 || int(t) > nProc {
+		return nil, fmt.Errorf("Cannot reshare with threshold %v among %v parties", t, nProc)
 	}
 
-	nProc := len(ads.egs)
 	order := ads.egf.Curve().Order()
 
 	var err error
-- 
2.43.0


From 820486905794e436412190bdb39fd87f578f2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 16/37] fix: decoding an NMC bounds the lengths a peer
 announces

---
 pkg/arith/distributed_key.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/pkg/arith/distributed_key.go b/pkg/arith/distributed_key.go
index 92f11fa..21ff56d 100644
--- a/pkg/arith/distributed_key.go
+++ b/pkg/arith/distributed_key.go
@@ -54,6 +54,9 @@ func (tdk TDKey) Threshold() uint16 {
 	return tdk.secret.t
 }
 
+// maxNMCPartLen is the maximal length in bytes of the data and of the proof in an encoded NMCtmp
+const maxNMCPartLen = 1 << 26
+
 // NMCtmp is a temporary placeholder
 type NMCtmp struct {
 	dataBytes, zkpBytes []byte
@@ -77,36 +80,27 @@ func (nmc *NMCtmp) encode(w io.Writer) error {
 
 func (nmc *NMCtmp) decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("nmc wrong number of bytes in decode: %v", err)
 	}
-	if n < 8 {
-		return fmt.Errorf("nmc wrong number of bytes in decode")
+
+	lenData := binary.LittleEndian.Uint32(lenBytes[:4])
+	lenZkp := binary.LittleEndian.Uint32(lenBytes[4:8])
+	if lenData > maxNMCPartLen || lenZkp > maxNMCPartLen {
+		return fmt.Errorf("nmc is too long: %d and %d bytes", lenData, lenZkp)
 	}
 
-	lenData := int(binary.LittleEndian.Uint32(lenBytes[:4]))
 	nmc.dataBytes = make([]byte, lenData)
-	n, err = r.Read(nmc.dataBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenData {
-		return fmt.Errorf("nmc wrong number of dataBytes in decode")
+	if _, err := io.ReadFull(r, nmc.dataBytes); err != nil {
+		return fmt.Errorf("nmc wrong number of dataBytes in decode: %v", err)
 	}
 
-	lenZkp := int(binary.LittleEndian.Uint32(lenBytes[4:8]))
 	nmc.zkpBytes = make([]byte, lenZkp)
-	n, err = r.Read(nmc.zkpBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenZkp {
-		return fmt.Errorf("nmc wrong number of zkpBytes in decode")
+	if _, err := io.ReadFull(r, nmc.zkpBytes); err != nil {
+		return fmt.Errorf("nmc wrong number of zkpBytes in decode: %v", err)
 	}
 
 	return nil
-
 }
 
 // Verify tests if ncm is a commitment to given args
-- 
2.43.0


From 7898be0088df8be34bc997d20a0dae07f28686e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 17/37] fix: Reshare checks the length a peer announces for its
 evaluation

---
 pkg/arith/reshare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index ea89963..d4a7ae3 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -340,6 +340,9 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
 		}
 		l := binary.LittleEndian.Uint32(data[:4])
+		if uint64(l) > uint64(len(data)-4) {
+			return fmt.Errorf("data for pid %v is to short %v for a payload of length %v", pid, len(data), l)
+		}
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
 		recvRand[pid] = new(big.Int).SetBytes(data[4+l:])
 		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {
-- 
2.43.0


From ee56011197180bf37659fbae9124477233d6b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 18/37] fix: keep received evaluations of secret polynomials
 out of error messages

---
 pkg/arith/reshare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index d4a7ae3..1045df5 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -346,7 +346,7 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
 		recvRand[pid] = new(big.Int).SetBytes(data[4+l:])
 		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {
-			return fmt.Errorf("Payload in STEP 8 inconsistent with commitment for pid %v and ads.pid %v. Len: %v // %v // %v", pid, ads.pid, l, recvEvals[pid], recvRand[pid])
+			return fmt.Errorf("Payload in STEP 8 inconsistent with commitment for pid %v and ads.pid %v. Len: %v", pid, ads.pid, l)
 		}
 		return nil
 	}
-- 
2.43.0


From 9ab13c7f8490e941b4b04779f5fdfde2f5387de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 19/37] fix: commitments use the key generated for them, not
 the signing key

---
 pkg/tecdsa/tecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 896a428..962791b 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -47,7 +47,7 @@ func Init(pid, nProc uint16, network sync.Server) (*Protocol, error) {
 	if err != nil {
 		return nil, err
 	}
-	p.egf = commitment.NewElGamalFactory(p.key.PublicKey())
+	p.egf = commitment.NewElGamalFactory(p.egKey.PublicKey())
 
 	return p, nil
 }
-- 
2.43.0


From e97e11a010b14b2933542f2d910f639f81157753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 20/37] fix: Sign divides modulo the order of the group and
 returns the r it computed

---
 pkg/tecdsa/tecdsa.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 962791b..29f478c 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -112,7 +112,14 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 		return nil, err
 	}
 
-	alpha, beta := new(big.Int).Div(message, tau), r.Div(r, tau)
+	order := p.group.Order()
+	tauInv := new(big.Int).ModInverse(tau, order)
+	if tauInv == nil {
+		return nil, fmt.Errorf("tau is not invertible")
+	}
+	alpha, beta := new(big.Int).Mul(message, tauInv), new(big.Int).Mul(r, tauInv)
+	alpha.Mod(alpha, order)
+	beta.Mod(beta, order)
 	sTDSecret := arith.Lin(alpha, beta, ps.rho, ps.eta, "s")
 
 	s, err := sTDSecret.Reveal()
-- 
2.43.0


From 5766b5b29bdc97ae26fdc03fef6d1c331c6f1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 21/37] fix: Round waits for its sender also when receiving
 failed

---
 pkg/sync/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index e56d740..22f89a7 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -148,6 +148,9 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	}()
 
 	data, missing, err := s.receiveFromAll(endRound)
+	// the sender must not outlive the round: the next round writes to the same connections
+	wg.Wait()
+
 	if err != nil {
 		return wrap(err)
 	}
@@ -156,8 +159,6 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 		return newRoundError("Missing data from some parties", missing)
 	}
 
-	wg.Wait()
-
 	if errSend != nil {
 		return wrap(errSend)
 	}
-- 
2.43.0


From 6f0fe7629b73504888c3848cc2f59053e9d96c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 22/37] fix: a malformed frame fails the round instead of
 crashing the receiver

---
 pkg/sync/server.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 22f89a7..dbe79d6 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -4,7 +4,7 @@ package sync
 import (
 	"encoding/binary"
 	"fmt"
-
+	"io"
 	"os"
 	"strings"
 	"sync"
@@ -13,6 +13,9 @@ import (
 	"gitlab.com/alephledger/core-go/pkg/network"
 )
 
+// maxFrameLen is the maximal length in bytes of a message received in a round
+const maxFrameLen = 1 << 28
+
 // Server implements
 type Server interface {
 	Start()
@@ -276,33 +279,29 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			defer wg.Done()
 
 			dataLen := make([]byte, 8)
-			if n, err := s.inDataConn[pid].Read(dataLen); err != nil {
+			if n, err := io.ReadFull(s.inDataConn[pid], dataLen); err != nil {
 				errors[pid] = fmt.Errorf("receiveFromAll dataLen err: %v, %v", n, err)
 				return
 			}
-			l := int(binary.LittleEndian.Uint64(dataLen))
-			buf := make([]byte, l)
-			nRead := 0
-			for {
-				n, err := s.inDataConn[pid].Read(buf[nRead:])
-				if err != nil {
-					errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
-					return
-				}
-				nRead += n
-				if nRead == l {
-					break
-				}
-
-			}
-
-			if len(buf) < 10 {
+			l := binary.LittleEndian.Uint64(dataLen)
+			if l < 10 {
 				errors[pid] = fmt.Errorf("rid:%v: received too short data from %v", s.roundID, pid)
 				return
 			}
+			if l > maxFrameLen {
+				errors[pid] = fmt.Errorf("rid:%v: received too long data from %v", s.roundID, pid)
+				return
+			}
+			buf := make([]byte, l)
+			if _, err := io.ReadFull(s.inDataConn[pid], buf); err != nil {
+				errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
+				return
+			}
+
 			id := binary.LittleEndian.Uint16(buf[:2])
 			if id != pid {
-				panic(fmt.Sprintf("some party uses wrong outDataConn: Expected %v, got %v", pid, id))
+				errors[pid] = fmt.Errorf("some party uses wrong outDataConn: Expected %v, got %v", pid, id)
+				return
 			}
 			roundID := binary.LittleEndian.Uint64(buf[2:10])
 			if int64(roundID) != s.roundID {
-- 
2.43.0


From 1cddb14b3beba99eed9d9d91e2ef7299bf46156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 23/37] fix: a bad handshake is rejected instead of crashing
 the listener

---
 pkg/sync/server.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index dbe79d6..0d0042b 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -30,6 +30,7 @@ type server struct {
 	roundID                 int64
 	net                     network.Server
 	inDataConn, outDataConn []network.Connection
+	inConnMx                sync.Mutex
 	prevRoundEnd            time.Time
 	startWG                 sync.WaitGroup
 }
@@ -66,16 +67,17 @@ func (s *server) Start() {
 					}
 
 					buf := make([]byte, 2)
-					_, err = conn.Read(buf)
-					if err != nil {
-						panic(err.Error())
+					if _, err = io.ReadFull(conn, buf); err != nil {
+						conn.Close()
+						continue
 					}
 
 					pid := binary.LittleEndian.Uint16(buf)
-					if s.inDataConn[pid] != nil {
-						panic(fmt.Sprintf("Connection with %d already established (my pid:%v)!", pid, s.pid))
+					if !s.setInDataConn(pid, conn) {
+						fmt.Fprintf(os.Stderr, "Rejected a connection from %d (my pid:%v)\n", pid, s.pid)
+						conn.Close()
+						continue
 					}
-					s.inDataConn[pid] = conn
 					return
 				}
 			}()
@@ -110,6 +112,20 @@ func (s *server) Start() {
 	}()
 }
 
+// setInDataConn stores the connection on which pid sends, unless pid is not another party or is already connected
+func (s *server) setInDataConn(pid uint16, conn network.Connection) bool {
+	if pid >= s.nProc || pid == s.pid {
+		return false
+	}
+	s.inConnMx.Lock()
+	defer s.inConnMx.Unlock()
+	if s.inDataConn[pid] != nil {
+		return false
+	}
+	s.inDataConn[pid] = conn
+	return true
+}
+
 func (s *server) Stop() {
 	s.startWG.Wait()
 	for pid := uint16(0); pid < s.nProc; pid++ {
-- 
2.43.0


From 4af86f4af031be9345fe19e3bced950fb7e3b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 24/37] fix: gen_keys stores LambdaN and PhiN of a private key,
 not N in their place

---
 cmd/gen_keys/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index c38f299..1bd5dd9 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -39,10 +39,10 @@ func encodePaillierPrivateKey(pk *paillier.PrivateKey) string {
 	copy(buf[2:2+lenN], pk.PublicKey.N.Bytes())
 
 	binary.LittleEndian.PutUint16(buf[2+lenN:4+lenN], uint16(lenLambdaN))
-	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.PublicKey.N.Bytes())
+	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.LambdaN.Bytes())
 
-	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenN))
-	copy(buf[6+lenN+lenLambdaN:], pk.PublicKey.N.Bytes())
+	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenPhiN))
+	copy(buf[6+lenN+lenLambdaN:], pk.PhiN.Bytes())
 
 	return base64.StdEncoding.EncodeToString(buf)
 }
-- 
2.43.0


From c5cd085a4dafed14418668fb7e913654cf225ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 25/37] fix: a malformed private key file is reported instead
 of crashing the node

---
 cmd/tecdsa/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 9db73b3..058b7e6 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -37,15 +37,21 @@ type committee struct {
 }
 
 func decodeBigInt(data []byte, name string) (*big.Int, error) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong encoding, data is too short for the length of %s", name)
+	}
 	lenX := binary.LittleEndian.Uint16(data[:2])
 	if len(data) < 2+int(lenX) {
 		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
 	}
-	return new(big.Int).SetBytes(data[2 : 2+lenX]), nil
+	return new(big.Int).SetBytes(data[2 : 2+int(lenX)]), nil
 }
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 	data, err := base64.StdEncoding.DecodeString(enc)
+	if err != nil {
+		return nil, err
+	}
 
 	pk := &paillier.PrivateKey{}
 	pk.PublicKey.N, err = decodeBigInt(data, "N")
-- 
2.43.0


From 5f379c6b635758d06a533b4a5fb11786953c77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 26/37] fix: gen_keys creates private key files readable by
 their owner only

---
 cmd/gen_keys/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index 1bd5dd9..de0555f 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -93,7 +93,7 @@ func main() {
 
 	// Write pk files
 	for pid, p := range processes {
-		f, err := os.Create(strconv.Itoa(pid) + ".pk")
+		f, err := os.OpenFile(strconv.Itoa(pid)+".pk", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
 			return
-- 
2.43.0


From 08bc95b995ca0ee64b183279117b836db882fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 27/37] fix: reject a negative process id

---
 cmd/tecdsa/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 058b7e6..13f6f90 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -240,7 +240,7 @@ func main() {
 		return
 	}
 
-	if member.pid >= len(committee.addresses) {
+	if member.pid < 0 || member.pid >= len(committee.addresses) {
 		fmt.Fprintf(logFile, "Wrong pid: %d.\n", member.pid)
 		return
 	}
-- 
2.43.0


From 4ad73bd5d476cb4c0e620d8c96aefbe3db9c881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 28/37] fix: PrivMult shares the products of a and b, not of a
 with a and b with b

---
 pkg/arith/mult.go | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 411fd45..0e8acec 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -141,38 +141,24 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 
 // PrivMult computes the product ab
 func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.PrivateKey, pub *paillier.PublicKey, pubs []*paillier.PublicKey) (*big.Int, error) {
-	// For all parties with id < pid, we act as Alice in MtA for a and Act as Bob for b.
-	// For all parties with id > pid, we act as Bob in MtA for a and act as Alice for b.
+	// With every other party, we act as Bob in MtA for our a and their b', and as Alice for their a' and our b.
 
-	// Step 1. First round of MtA. For id < pid wait for their Enc(a') and send Enc(b), and
-	// for id > pid send Enc(a) and wait for their Enc(b').
+	// Step 1. First round of MtA. Send Enc(a) and wait for their Enc(a').
 
 	toSendBuf1 := make([][]byte, nProc)
 	encA, err := pub.Encrypt(a)
 	if err != nil {
 		return nil, err
 	}
-	encB, err := pub.Encrypt(b)
-	if err != nil {
-		return nil, err
-	}
 	for id := range toSendBuf1 {
-		if id < pid {
-			// Bob for b
-			toSendBuf1[id] = encB.Bytes()
-		} else if id > pid {
-			// Bob for a
+		if id != pid {
 			toSendBuf1[id] = encA.Bytes()
 		}
 	}
 
 	encShares := make([]*big.Int, nProc)
 	check := func(id uint16, data []byte) error {
-		if id < uint16(pid) {
-			// Alice for a
-			encShares[id] = new(big.Int).SetBytes(data)
-		} else if id > uint16(pid) {
-			// Alice for b
+		if id != uint16(pid) {
 			encShares[id] = new(big.Int).SetBytes(data)
 		}
 
@@ -183,8 +169,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. For id < pid send Enc(aa'-t) and wait for E(bb'-t), and
-	// for id > pid wait for Enc(aa'-t) and send Enc(bb'-t).
+	// Step 2. Second round of MtA. Send Enc(a'b-t) and wait for Enc(ab'-t').
 	myShares := make([]*big.Int, nProc) // collection of t_A
 	toSendBuf2 := make([][]byte, nProc)
 	genEncABmt := func(id int, share *big.Int) error {
@@ -215,13 +200,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	}
 
 	for id := range toSendBuf2 {
-		if id < pid {
-			// Alice for a
-			if err := genEncABmt(id, a); err != nil {
-				return nil, err
-			}
-		} else if id > pid {
-			// Alice for b
+		if id != pid {
 			if err := genEncABmt(id, b); err != nil {
 				return nil, err
 			}
@@ -232,7 +211,6 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	check = func(id uint16, data []byte) error {
 		if id != uint16(pid) {
 			var err error
-			// Bob for b
 			abmts[id] = new(big.Int).SetBytes(data)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
-- 
2.43.0


From ca42a46b580b34a39e3ca82976260f069a237e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 29/37] fix: reject thresholds, committee sizes and signature
 counts that would be truncated

---
 cmd/tecdsa/main.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 13f6f90..e32ef0a 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -8,6 +8,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"math/big"
 	"os"
 	"os/signal"
@@ -245,6 +246,19 @@ func main() {
 		return
 	}
 
+	if len(committee.addresses) > math.MaxUint16 {
+		fmt.Fprintf(logFile, "Too many parties: %d.\n", len(committee.addresses))
+		return
+	}
+	if options.threshold < 1 || options.threshold > len(committee.addresses) {
+		fmt.Fprintf(logFile, "Wrong threshold: %d.\n", options.threshold)
+		return
+	}
+	if options.sigNumber < 1 {
+		fmt.Fprintf(logFile, "Wrong number of signatures: %d.\n", options.sigNumber)
+		return
+	}
+
 	net, err := tcp.NewServer(committee.addresses[member.pid], committee.addresses, zerolog.Nop())
 	if err != nil {
 		fmt.Fprintf(logFile, "Could not init tcp server due to %v.\n", err)
-- 
2.43.0


From f83f2cc6207878f0829ac9d47a7bacbc26cdf640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 30/37] fix: PrivMult masks products by adding, so that small
 products do not wrap around

---
 pkg/arith/mult.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 0e8acec..8674893 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -169,7 +169,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. Send Enc(a'b-t) and wait for Enc(ab'-t').
+	// Step 2. Second round of MtA. Send Enc(a'b+t) and wait for Enc(ab'+t').
 	myShares := make([]*big.Int, nProc) // collection of t_A
 	toSendBuf2 := make([][]byte, nProc)
 	genEncABmt := func(id int, share *big.Int) error {
@@ -184,8 +184,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			return err
 		}
 
-		negMyShare := new(big.Int).Sub(pubs[id].N, myShares[id])
-		enc, err := pubs[id].Encrypt(negMyShare)
+		enc, err := pubs[id].Encrypt(myShares[id])
 		if err != nil {
 			return err
 		}
@@ -230,7 +229,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		if id == pid {
 			continue
 		}
-		share.Add(share, t)
+		share.Sub(share, t)
 		share.Add(share, abmts[id])
 	}
 	share.Mod(share, Q)
-- 
2.43.0


From 658c526c7d2c555bb773b9c8417de30f9e250777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 31/37] fix: tecdsa ends when its log file cannot be opened or
 put in place of its output

---
 cmd/tecdsa/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index e32ef0a..561ac7a 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -210,9 +210,17 @@ func bench(w io.Writer, name string, totalTime *int64, job func()) {
 
 func main() {
 	// temporary trick to capture stdout and stderr on remote instances
-	logFile, _ := os.OpenFile("aleph.log", os.O_WRONLY|os.O_CREATE|os.O_SYNC|os.O_APPEND, 0644)
-	syscall.Dup2(int(logFile.Fd()), 1)
-	syscall.Dup2(int(logFile.Fd()), 2)
+	logFile, err := os.OpenFile("aleph.log", os.O_WRONLY|os.O_CREATE|os.O_SYNC|os.O_APPEND, 0644)
+	if err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		return
+	}
+	for _, fd := range []int{1, 2} {
+		if err = syscall.Dup2(int(logFile.Fd()), fd); err != nil {
+			fmt.Fprintln(logFile, err)
+			return
+		}
+	}
 	go func() {
 		out, _ := os.Create("out")
 		defer out.Close()
-- 
2.43.0


From 65e770bdd093dd8ef757eff8673dfb9e32d5ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 32/37] fix: gen_keys reports missing addresses, an unreadable
 address file and failed key generation

---
 cmd/gen_keys/main.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index de0555f..39b79c1 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -79,14 +79,24 @@ func main() {
 		}
 		defer f.Close()
 		scanner := bufio.NewScanner(f)
-		for pid := 0; pid < nProc && scanner.Scan(); pid++ {
+		pid := 0
+		for ; pid < nProc && scanner.Scan(); pid++ {
 			addresses[pid] = scanner.Text()
 		}
+		if err := scanner.Err(); err != nil {
+			fmt.Fprintln(os.Stderr, err)
+			return
+		}
+		if pid < nProc {
+			fmt.Fprintf(os.Stderr, "%s has %d addresses, %d are needed.\n", os.Args[2], pid, nProc)
+			return
+		}
 	}
 	processes := make([]*proc, nProc)
 	for i := 0; i < nProc; i++ {
 		processes[i], err = makeProcess(addresses[i])
 		if err != nil {
+			fmt.Fprintln(os.Stderr, err)
 			return
 		}
 	}
-- 
2.43.0


From e155c80833c4f0c8f39c063eee7496c0104c6960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 33/37] fix: a failed round names the parties without a valid
 message and checks those of the others

---
 pkg/sync/server.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 0d0042b..95fa133 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -170,22 +170,17 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	// the sender must not outlive the round: the next round writes to the same connections
 	wg.Wait()
 
-	if err != nil {
-		return wrap(err)
-	}
-
-	if len(missing) > 0 {
-		return newRoundError("Missing data from some parties", missing)
-	}
-
 	if errSend != nil {
 		return wrap(errSend)
 	}
 
 	errors := []error{}
-	wrong := []uint16{}
+	wrong := missing
+	if err != nil {
+		errors = append(errors, err)
+	}
 	for pid := uint16(0); pid < s.nProc; pid++ {
-		if pid == s.pid {
+		if pid == s.pid || data[pid] == nil {
 			continue
 		}
 		err = check(pid, data[pid])
@@ -350,7 +345,7 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 	}
 
 	if b.Len() > 0 {
-		return nil, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
+		return data, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
 	}
 
 	return data, nil, nil
-- 
2.43.0


From 08a1a49fc1af6348ead91a0a60765f9b3328c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 34/37] fix: cmd/tecdsa reports key files whose parts have
 leading zeros misread or data follow, and committee lines with extra fields

---
 cmd/tecdsa/main.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 561ac7a..1bd47e9 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -37,15 +37,16 @@ type committee struct {
 	addresses  []string
 }
 
-func decodeBigInt(data []byte, name string) (*big.Int, error) {
+// decodeBigInt reads a number and returns it with the data that follow it.
+func decodeBigInt(data []byte, name string) (*big.Int, []byte, error) {
 	if len(data) < 2 {
-		return nil, fmt.Errorf("wrong encoding, data is too short for the length of %s", name)
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short for the length of %s", name)
 	}
 	lenX := binary.LittleEndian.Uint16(data[:2])
 	if len(data) < 2+int(lenX) {
-		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
 	}
-	return new(big.Int).SetBytes(data[2 : 2+int(lenX)]), nil
+	return new(big.Int).SetBytes(data[2 : 2+int(lenX)]), data[2+int(lenX):], nil
 }
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
@@ -55,22 +56,23 @@ func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 	}
 
 	pk := &paillier.PrivateKey{}
-	pk.PublicKey.N, err = decodeBigInt(data, "N")
+	pk.PublicKey.N, data, err = decodeBigInt(data, "N")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.PublicKey.N.Bytes()):]
 
-	pk.LambdaN, err = decodeBigInt(data, "LambdaN")
+	pk.LambdaN, data, err = decodeBigInt(data, "LambdaN")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.LambdaN.Bytes()):]
 
-	pk.PhiN, err = decodeBigInt(data, "PhiN")
+	pk.PhiN, data, err = decodeBigInt(data, "PhiN")
 	if err != nil {
 		return nil, err
 	}
+	if len(data) > 0 {
+		return nil, errors.New("wrong encoding, there are data after PhiN")
+	}
 
 	return pk, nil
 }
@@ -78,7 +80,7 @@ func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 func parseCommitteeLine(line string) (*paillier.PublicKey, string, error) {
 	s := strings.Split(line, "|")
 
-	if len(s) < 2 {
+	if len(s) != 2 {
 		return nil, "", errors.New("commitee line should be of the form:\npaillierKey|address")
 	}
 	pkEnc, addr := s[0], s[1]
-- 
2.43.0


From 4983ff5f84465127cfa66167c2fb2e57b1d6addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 35/37] fix: a linear combination of secrets has the larger of
 their thresholds

---
 pkg/arith/distributed_secret.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index cc496a8..07178ed 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -234,7 +234,11 @@ func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
+	// a combination is a polynomial of the larger of the two degrees
 	tds.t = a.t
+	if b.t > tds.t {
+		tds.t = b.t
+	}
 
 	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
 	tmp := new(big.Int).Mul(beta, b.skShare)
-- 
2.43.0


From d8e66db8b70e0109d4e7405a0e5fdcc11fab1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 36/37] fix: a refreshment proof shows that the value is
 unchanged

The verification let the prover choose the exponent of the first commitment, so
a proof was accepted for c2 = c1^a Create(0, r) with any a, that is for a
commitment to another value: a dealer of Reshare could change the secret.
---
 pkg/crypto/zkpok/zkpok.go | 55 ++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 712bca4..b4cb3fe 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -205,8 +205,7 @@ func (z *ZKEGReveal) Decode(r io.Reader) error { return nil }
 
 //ZKEGRefresh implements proof that a comitment c2 is a proper refreshment of commitment c2
 type ZKEGRefresh struct {
-	z1 *big.Int
-	z2 *big.Int
+	z  *big.Int
 	xy *commitment.ElGamal
 }
 
@@ -217,13 +216,8 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err != nil {
 		return nil, err
 	}
-	tau, err := rand.Int(rand.Reader, g.Order())
-	if err != nil {
-		return nil, err
-	}
 
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+	xy := fct.Create(big.NewInt(0), sigma)
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
@@ -238,16 +232,12 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
-	var z1 big.Int
-	var z2 big.Int
-	z1.Add(sigma, z1.Mul(e, r))
-	z2.Add(tau, e)
-	z1.Mod(&z1, fct.Curve().Order())
-	z2.Mod(&z2, fct.Curve().Order())
+	var z big.Int
+	z.Add(sigma, z.Mul(e, r))
+	z.Mod(&z, fct.Curve().Order())
 
 	return &ZKEGRefresh{
-		z1: &z1,
-		z2: &z2,
+		z:  &z,
 		xy: xy,
 	}, nil
 }
@@ -268,7 +258,7 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 
 	d := fct.Neutral()
 	dtmp := fct.Neutral()
-	d.Compose(fct.Create(big.NewInt(0), z.z1), d.Exp(c1, z.z2))
+	d.Compose(fct.Create(big.NewInt(0), z.z), d.Exp(c1, e))
 	d.Compose(d, dtmp.Inverse(dtmp.Exp(c2, e)))
 
 	if !c1.Equal(d, z.xy) {
@@ -279,14 +269,11 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 
 //Encode encodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Encode(w io.Writer) error {
-	z1Bytes := z.z1.Bytes()
-	z2Bytes := z.z2.Bytes()
-	buf := make([]byte, 8, 8+len(z1Bytes)+len(z2Bytes))
-	binary.BigEndian.PutUint32(buf[0:4], uint32(len(z1Bytes)))
-	binary.BigEndian.PutUint32(buf[4:8], uint32(len(z2Bytes)))
+	zBytes := z.z.Bytes()
+	buf := make([]byte, 4, 4+len(zBytes))
+	binary.BigEndian.PutUint32(buf, uint32(len(zBytes)))
 
-	buf = append(buf, z1Bytes...)
-	buf = append(buf, z2Bytes...)
+	buf = append(buf, zBytes...)
 
 	if _, err := w.Write(buf); err != nil {
 		return err
@@ -300,23 +287,21 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
-	lenBytes := make([]byte, 8)
+	lenBytes := make([]byte, 4)
 	if _, err := io.ReadFull(r, lenBytes); err != nil {
-		return fmt.Errorf("Reading lengths: %v", err)
+		return fmt.Errorf("Reading length: %v", err)
 	}
 
-	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
-	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	if z1Len > maxScalarLen || z2Len > maxScalarLen {
-		return fmt.Errorf("Responses are too long: %d and %d bytes", z1Len, z2Len)
+	zLen := binary.BigEndian.Uint32(lenBytes)
+	if zLen > maxScalarLen {
+		return fmt.Errorf("Response is too long: %d bytes", zLen)
 	}
-	allBytes := make([]byte, z1Len+z2Len)
-	if _, err := io.ReadFull(r, allBytes); err != nil {
-		return fmt.Errorf("Reading %d bytes of payload: %v", z1Len+z2Len, err)
+	zBytes := make([]byte, zLen)
+	if _, err := io.ReadFull(r, zBytes); err != nil {
+		return fmt.Errorf("Reading %d bytes of payload: %v", zLen, err)
 	}
 
-	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
-	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
+	z.z = new(big.Int).SetBytes(zBytes)
 	z.xy = &commitment.ElGamal{}
 
 	return z.xy.Decode(r)
-- 
2.43.0


From f3454501101b5f257c603c0b6f5915e1eb47654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 37/37] fix: a node no longer panics when a connection fails in
 its handshake

---
 pkg/sync/server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 95fa133..0215787 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -99,10 +99,12 @@ func (s *server) Start() {
 					buf := make([]byte, 2)
 					binary.LittleEndian.PutUint16(buf, s.pid)
 					if _, err = conn.Write(buf); err != nil {
-						panic(fmt.Sprintf("succesfully dialed %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					if err = conn.Flush(); err != nil {
-						panic(fmt.Sprintf("succesfully written %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					s.outDataConn[pid] = conn
 					return
-- 
2.43.0

