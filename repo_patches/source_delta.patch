From 4b047621944375fcda90a9e3032c0b43290432f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 01/14] fix: csprng.Read never delivers the same part of the
 keystream twice

---
 csprng/csprng.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 4a7f3ec..33da15e 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -3,12 +3,14 @@ package csprng
 import (
 	"github.com/starius/aesctrat"
 	"math/rand"
+	"sync/atomic"
 	"time"
 )
 
 type CSPRNG struct {
-	c  *aesctrat.AesCtr
-	iv []byte
+	c      *aesctrat.AesCtr
+	iv     []byte
+	offset *uint64
 }
 
 func init() {
@@ -19,16 +21,22 @@ func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
 	rand.Read(keyIv)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{ctr, keyIv[16:], new(uint64)}
 }
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{ctr, keyIv[16:], new(uint64)}
 }
 
+// Read fills buff with the next len(buff) bytes of the keystream. It can be
+// used by several goroutines, each of which gets its own part of the keystream.
 func (r *CSPRNG) Read(buff []byte) (int, error) {
-	r.c.XORKeyStreamAt(buff, buff, r.iv, 0)
+	for i := range buff {
+		buff[i] = 0
+	}
+	end := atomic.AddUint64(r.offset, uint64(len(buff)))
+	r.c.XORKeyStreamAt(buff, buff, r.iv, end-uint64(len(buff)))
 	return len(buff), nil
 }
 
-- 
2.43.0


From 5183ff966a41e9a0c73df0f7290ea074ba773327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 02/14] fix: csprng.Perm indexes within its buffer for every n

---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 33da15e..ba43782 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -49,8 +49,8 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	for i := byte(0); i < n-2; i++ {
-		j := 1 + shuffler[i] % (n-i)
+	for i := 0; i+1 < int(n); i++ {
+		j := i + int(shuffler[i])%(int(n)-i)
 		temp := buff[i]
 		buff[i] = buff[j]
 		buff[j] = temp
-- 
2.43.0


From 183c6646ffacc6018e34b26f26bbba27253276f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 03/14] fix: GetUniqueBytes does not return 255, which shamir
 turns into tag zero

---
 csprng/csprng.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index ba43782..23faf37 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -73,7 +73,8 @@ func (r *CSPRNG) GetUniqueBytes(n byte) []byte {
 	for i := byte(0); i < n; i++ {
 		isDuplicate := true
 		for isDuplicate {
-			if _, exist := isExist[buff[i]]; !exist {
+			// 255 is not used, as in Perm(255): the callers add one to get a non-zero byte
+			if _, exist := isExist[buff[i]]; !exist && buff[i] != 255 {
 				isDuplicate = false
 				break
 			}
-- 
2.43.0


From e961424d11b4769eec7853e250a23bee915575c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 04/14] fix: NewCSPRNGWithKeyIV keeps its own copy of the
 caller's IV

---
 csprng/csprng.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 23faf37..792b842 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -26,7 +26,8 @@ func NewCSPRNG() *CSPRNG {
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:], new(uint64)}
+	iv := append([]byte(nil), keyIv[16:]...)
+	return &CSPRNG{ctr, iv, new(uint64)}
 }
 
 // Read fills buff with the next len(buff) bytes of the keystream. It can be
-- 
2.43.0


From 7f9042793a5d98400559c6e93a35a25dedd5972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 05/14] fix: Regenerate uses the tags it has made unique, and
 only as many as there are

---
 shamir/shamir.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 8b3a99c..9b3a6c3 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -439,11 +439,8 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 	}
 
 	// TODO: make a more efficient version of this by allocating less memory
-	// Create buffer to store the new shares
-	newShares := make([][]byte, numNewShares)
 	x_samples := make([]uint8, len(parts))
 	y_samples := make([]uint8, len(parts))
-	newXs := make([]byte, numNewShares)
 
 	// Set the x value for each sample and ensure no x_sample values are the same,
 	// otherwise div() can be unhappy
@@ -456,17 +453,29 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		checkMap[samp] = true
 	}
 
+	// There are only 255 different non-zero tags
+	numUnusedXs := 255 - len(checkMap)
+	if checkMap[0] {
+		numUnusedXs++
+	}
+	if numNewShares < 0 || numNewShares > numUnusedXs {
+		return nil, fmt.Errorf("the number of new shares must be between 0 and %d", numUnusedXs)
+	}
+
+	// Create buffer to store the new shares
+	newShares := make([][]byte, numNewShares)
+	newXs := make([]byte, numNewShares)
+
 	// generate new random x
 	if _, err := rand.Read(newXs); err != nil {
 		return nil, fmt.Errorf("failed to generate new random x: %v", err)
 	}
 	// ensure no duplicate x generated
-	for _, nx := range newXs {
-		exists := checkMap[nx]
-		for exists {
+	for i, nx := range newXs {
+		for nx == 0 || checkMap[nx] {
 			nx = byte(rand.Uint32())
-			exists = checkMap[nx]
 		}
+		newXs[i] = nx
 		checkMap[nx] = true
 	}
 
-- 
2.43.0


From de6cfc1f81b4a53da77c51ab198d9008652f3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 06/14] fix: appending to a share does not overwrite the next
 one

---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 9b3a6c3..7c866a2 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -60,7 +60,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -137,7 +137,7 @@ func SplitWithRandomizerOld(secret []byte, parts, threshold int, randomizer *csp
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -192,7 +192,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
-- 
2.43.0


From 905e7153f086b0b7c20ef8294bf0b0d8a42ddd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 07/14] fix: randomizer.Perm returns a permutation for every n

---
 randomizer/randomizer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 0247e73..c576c7d 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -33,12 +33,9 @@ func (r *Randomizer) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	max := n-1
-	for i := byte(0); i < n-1; i++ {
-		rx := shuffler[i]%max
-		temp := buff[rx]
-		buff[max] = temp
-		max--
+	for i := 0; i+1 < int(n); i++ {
+		rx := i + int(shuffler[i])%(int(n)-i)
+		buff[i], buff[rx] = buff[rx], buff[i]
 	}
 	return buff
 }
\ No newline at end of file
-- 
2.43.0


From bd242c477f454234932bf35a37605300f8a63517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 08/14] fix: GalExp does not overflow for large exponents

---
 galois/galois.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/galois/galois.go b/galois/galois.go
index 567a76e..009d347 100644
--- a/galois/galois.go
+++ b/galois/galois.go
@@ -57,10 +57,8 @@ func GalExp(a byte, n int) byte {
 	}
 
 	logA := logTable[a]
-	logResult := int(logA) * n
-	for logResult >= 255 {
-		logResult -= 255
-	}
+	// a**255 is 1
+	logResult := int(logA) * (n % 255) % 255
 	return expTable[logResult]
 }
 
-- 
2.43.0


From 85feb95b118ab3f2f7f4e2e93eb06837edce5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 09/14] fix: SSMS split does not panic when the ciphertext
 buffer has no room for padding

---
 krawczyk/krawczyk.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 44b90bc..f76bfef 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -53,7 +53,10 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	// the encoder pads the data in place, thus give it spare capacity
+	paddedSecret := make([]byte, len(encryptedSecret), len(encryptedSecret)+threshold)
+	copy(paddedSecret, encryptedSecret)
+	encodedSecret, err := encoder.Split(paddedSecret)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
@@ -124,7 +127,10 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	// the encoder pads the data in place, thus give it spare capacity
+	paddedSecret := make([]byte, len(encryptedSecret), len(encryptedSecret)+threshold)
+	copy(paddedSecret, encryptedSecret)
+	encodedSecret, err := encoder.Split(paddedSecret)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
-- 
2.43.0


From 66717f4dc73788551785517c819c418eceec4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 10/14] fix: SSMS combine returns an error instead of panicking
 on malformed shares

---
 krawczyk/krawczyk.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index f76bfef..d9c93bd 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -178,12 +178,8 @@ func newByteMatrix(r, c int) [][]byte {
 }
 
 func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
-	if len(ssData[0]) > math.MaxUint32 {
-		return nil, fmt.Errorf(
-			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
-	}
-	if threshold == 0 || parts == 0 {
-		return nil, errors.New("#parts and #threshold can not be zero")
+	if threshold <= 0 || parts <= 0 {
+		return nil, errors.New("#parts and #threshold should be positive")
 	}
 	if threshold > parts {
 		return nil, fmt.Errorf(
@@ -219,11 +215,18 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	encodedData := make([][]byte, parts)
 	ssMetadata := make([][]byte, len(ssData))
 	for i := 0; i < len(ssData); i++ {
+		if len(ssData[i]) > math.MaxUint32 {
+			return nil, fmt.Errorf(
+				"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
+		}
+		if len(ssData[i]) < secretStartIdx+1 {
+			return nil, errors.New("the given secret-shared data is too short")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
 		partID := ssData[i][len(ssData[i])-1]
-		if partID > byte(parts) {
+		if int(partID) >= parts {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
 		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
-- 
2.43.0


From 56a718d5535b168caa9f246e864a8a61427663be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 11/14] fix: SSMS combine does not reconstruct into the
 caller's share

---
 krawczyk/krawczyk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index d9c93bd..13442bd 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -229,7 +229,7 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 		if int(partID) >= parts {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
-		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
+		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1 : len(ssData[i])-1]
 	}
 
 	// get the metadata
-- 
2.43.0


From e3c2ad9831c0939a8c73aaa549edad0d5d2d41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 12/14] fix: AddVector does not write beyond a shorter output
 vector

---
 galois/vector_amd64.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galois/vector_amd64.go b/galois/vector_amd64.go
index d1b5dde..91a325b 100644
--- a/galois/vector_amd64.go
+++ b/galois/vector_amd64.go
@@ -105,6 +105,9 @@ func MulConstVector(c byte, in []byte) []byte {
 
 // simple slice xor
 func AddVector(in, out []byte) []byte {
+	if len(in) > len(out) {
+		panic("the output vector is shorter than the input vector")
+	}
 	origOutPointer := out
 
 	if useSSE2 {
-- 
2.43.0


From d9fe19f1e83310b30bb14526b9d3a24ce65cf66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 13/14] fix: AddVector (arm64) does not write beyond a shorter
 output vector

---
 galois/vector_arm64.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galois/vector_arm64.go b/galois/vector_arm64.go
index 9314174..3f76cac 100644
--- a/galois/vector_arm64.go
+++ b/galois/vector_arm64.go
@@ -38,6 +38,9 @@ func MulConstVector(c byte, in []byte) []byte {
 
 // simple slice xor
 func AddVector(in, out []byte) []byte {
+	if len(in) > len(out) {
+		panic("the output vector is shorter than the input vector")
+	}
 	origOutPointer := out
 
 	galXorNEON(in, out)
-- 
2.43.0


From d31a0906fefdb6143d7ea7c0f9e29a6e942ae983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 14/14] fix: Randomizer.Read delivers the keystream whatever
 the buffer contains

---
 randomizer/randomizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index c576c7d..27071ae 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -22,6 +22,9 @@ func NewRandomizer() *Randomizer {
 }
 
 func (r *Randomizer) Read(buff []byte) (int, error) {
+	for i := range buff {
+		buff[i] = 0
+	}
 	r.c.XORKeyStream(buff, buff)
 	return len(buff), nil
 }
-- 
2.43.0

