From f95cc2f24f41fbe4e3d51a9135e3a6d6fb154ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 01/37] fix: refuse characters that can not be encoded instead
 of panicking

---
 cipher.go    | 10 ++++++++--
 krypto431.go |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index 124cdc1..6247454 100644
--- a/cipher.go
+++ b/cipher.go
@@ -277,6 +277,12 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// find character in one of the tables
 	c := *input
 	toUpper(&c, &c)
+	var l rune
+	toLower(&c, &l)
+	if c != *input && l != *input {
+		// E.g. the dotless i, it would be deciphered as another character.
+		return ErrUnsupportedChar
+	}
 	foundIt := false
 	for t := range CharacterTables {
 		for i, tc := range CharacterTables[t] {
@@ -304,8 +310,8 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// zero the copy of rune
 	c = 0
 	if !foundIt {
-		// enter binary mode
-		panic("binary mode not implemented yet")
+		// binary mode is not implemented yet
+		return ErrUnsupportedChar
 	}
 
 	return nil
diff --git a/krypto431.go b/krypto431.go
index 5aad0fd..e830a5a 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -52,6 +52,7 @@ var (
 	ErrCipherTextTooShort = errors.New("message cipher text is too short to decipher")
 	ErrNoKey              = errors.New("message has an invalid or no key")
 	ErrKeyNotFound        = errors.New("key not found")
+	ErrUnsupportedChar    = errors.New("unsupported character in plain text, unable to encode")
 	ErrInvalidCoding      = errors.New("invalid character in encoded text (must be between A-Z)")
 	ErrInvalidControlChar = errors.New("invalid control character")
 	ErrTableTooShort      = errors.New("out-of-bounds, character table is too short")
-- 
2.43.0


From d6ae989953ff7b767ed407507e2c790155498a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:56 +0000
Subject: [PATCH 02/37] fix: change key in time when the next character needs
 several code letters

---
 cipher.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 6247454..bccba81 100644
--- a/cipher.go
+++ b/cipher.go
@@ -242,6 +242,21 @@ func (state *codecState) changeKey(key *Key, output *[]rune) error {
 	return nil
 }
 
+// roomToChangeKey returns true if a change of key (except for the key id) would
+// still end within limit characters after encoding input as the next character.
+func (state *codecState) roomToChangeKey(input *rune, limit int) bool {
+	next := *state
+	scratch := make([]rune, 0, 8)
+	defer func() { Wipe(&scratch) }()
+	if next.encodeCharacter(input, &scratch) != nil {
+		return true // let the caller encounter the error
+	}
+	if next.gotoTable(secondaryTable, &scratch) != nil {
+		return true
+	}
+	return next.charCounter+1 <= limit
+}
+
 // pad() adds numberOfCharacters of nextTableChar (Z) at the end of
 // output rune slice. Function is used to extend an encoded text into an even
 // amount of 5 character groups. Suggested calculation of numberOfCharacters:
@@ -591,7 +606,9 @@ func (m *Message) Encipher() error {
 		}
 	}()
 	for i := range m.PlainText {
-		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
+		moreToCome := i < len(m.PlainText)-1
+		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey ||
+			(moreToCome && !state.roomToChangeKey(&m.PlainText[i], chunk.key.KeyLength()-m.instance.GroupSize)) {
 			keyPtr := m.instance.FindKey(m.Recipients...)
 			if keyPtr == nil {
 				return ErrOutOfKeys
-- 
2.43.0


From 99945ac07d056666cccb4a572b86dc76a3716bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:58 +0000
Subject: [PATCH 03/37] fix: do not share the key id between the message and
 the key

---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index bccba81..66db26c 100644
--- a/cipher.go
+++ b/cipher.go
@@ -558,7 +558,7 @@ func (m *Message) EnrichWithKey() error {
 	// Mark key as used.
 	designatedKey.Used = true
 	// Enrich message instance with key id.
-	m.KeyId = designatedKey.Id
+	m.KeyId = RuneCopy(&designatedKey.Id)
 	return nil
 }
 
-- 
2.43.0


From aa53a612409fa31be6bbddfd0495d56140272f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 04/37] fix: mark a key chosen by the operator as used when
 enciphering

---
 cipher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cipher.go b/cipher.go
index 66db26c..4f862c0 100644
--- a/cipher.go
+++ b/cipher.go
@@ -591,6 +591,8 @@ func (m *Message) Encipher() error {
 		return err
 	}
 	chunk.key = keyPtr
+	// ...which is not marked as used yet if it was already in the message.
+	chunk.key.Used = true
 	// If something fails, we need to release all keys we have used.
 	releaseKeys := true
 	defer func() {
-- 
2.43.0


From 422088ca9d394eee1e0a9e5ea76c1e2f9836a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:02 +0000
Subject: [PATCH 05/37] fix: leave no cipher text behind and keep the chosen
 key when enciphering fails

---
 cipher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 4f862c0..5bb15e3 100644
--- a/cipher.go
+++ b/cipher.go
@@ -570,6 +570,7 @@ func (m *Message) Encipher() error {
 	if len(m.Id) == 0 {
 		m.Id = m.instance.NewUniqueMessageId()
 	}
+	keyChosen := len(m.KeyId) > 0
 	err := m.EnrichWithKey()
 	if err != nil {
 		return fmt.Errorf("unable to enrich message with a key: %w", err)
@@ -598,7 +599,10 @@ func (m *Message) Encipher() error {
 	defer func() {
 		if releaseKeys {
 			m.instance.MarkKeyUsed(m.KeyId, false)
-			Wipe(&m.KeyId)
+			Wipe(&m.CipherText)
+			if !keyChosen {
+				Wipe(&m.KeyId)
+			}
 			chunk.key.Used = false
 			for i := range chunks {
 				chunks[i].key.Used = false
-- 
2.43.0


From f7bb2c943539f74206984efcbb8ed7555152d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 06/37] fix: do not choose compromised keys

---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 5bb15e3..f4b1c24 100644
--- a/cipher.go
+++ b/cipher.go
@@ -452,7 +452,7 @@ func (t *Message) Decode() error {
 func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 	numberOfRecipients := len(recipients)
 	for i := range r.Keys {
-		if r.Keys[i].Used {
+		if r.Keys[i].Used || r.Keys[i].Compromised {
 			continue
 		}
 		if len(r.Keys[i].Id) != r.GroupSize {
-- 
2.43.0


From dfd01c40bd8f8757297bcfa1aac3890c63516b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 07/37] fix: return an error instead of panicking when the key
 index is beyond the key

---
 diana/diana.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diana/diana.go b/diana/diana.go
index 244f5c9..1088184 100644
--- a/diana/diana.go
+++ b/diana/diana.go
@@ -132,7 +132,7 @@ func AppendTrigraphByteByKey(writeTo *[]byte, character *byte, key *[]byte, keyI
 	if *keyIndex < 0 {
 		return ErrNegativeKeyIndex
 	}
-	if *keyIndex > len(*writeTo) {
+	if *keyIndex > len(*writeTo) || *keyIndex >= len(*key) {
 		return ErrKeyIndexOutOfBounds
 	}
 	var b byte
-- 
2.43.0


From 0238ad186f7987f5dfd2b452591db39a1a75f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 08/37] fix: read the optional key id of NewTextMessage from
 its second argument

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 93237f4..76a7ee5 100644
--- a/messages.go
+++ b/messages.go
@@ -137,7 +137,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		// Outgoing message...
 		//fmt.Fprintln(os.Stderr, "outgoing")
 		if len(msg) >= 2 {
-			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[2])))
+			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
 			if len(message.KeyId) != k.GroupSize {
 				return nil, fmt.Errorf("key id \"%s\" must be %d characters long (the configured group size)", string(message.KeyId), k.GroupSize)
 			}
-- 
2.43.0


From 35fcfef275b47f7c74ee98138d3472f77facbfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 09/37] fix: leave the plain text of a message alone when
 deciphering fails

---
 cipher.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index f4b1c24..09e8af9 100644
--- a/cipher.go
+++ b/cipher.go
@@ -721,7 +721,16 @@ func (m *Message) Decipher() error {
 	if keyPtr.Used {
 		fmt.Fprintf(os.Stderr, "Warning: key %s marked as already used!"+LineBreak, keyPtr.IdString())
 	}
-	Wipe(&m.PlainText)
+	plainText := make([]rune, 0, len(m.CipherText))
+	defer func() {
+		// Keep the message as it is unless deciphering succeeds.
+		if markKeysUsed {
+			Wipe(&m.PlainText)
+			m.PlainText = plainText
+		} else {
+			Wipe(&plainText)
+		}
+	}()
 	keyIndexCounter := 0
 	nextKey := make([]rune, 0, m.instance.GroupSize)
 	state := newState()
@@ -736,7 +745,7 @@ func (m *Message) Decipher() error {
 			return err
 		}
 		keyIndexCounter++
-		err = state.decodeCharacter(&encodedChar, &m.PlainText)
+		err = state.decodeCharacter(&encodedChar, &plainText)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f1e61dbe0a59aa821e51b053f3d328d5957c5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:23 +0000
Subject: [PATCH 10/37] fix: do not share the keeper between the keys it is
 added to

---
 keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index aab5542..7223bb9 100644
--- a/keys.go
+++ b/keys.go
@@ -144,7 +144,7 @@ func (k *Krypto431) GenerateKeys(n int, expire *string, keepers ...string) error
 func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
 		if !k.ContainsKeeper(keeper) {
-			k.Keepers = append(k.Keepers, keeper)
+			k.Keepers = append(k.Keepers, RuneCopy(&keeper))
 		}
 	}
 	return k
-- 
2.43.0


From ebbc35c15ab98f6028a4935aac3250da89bc6f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 11/37] fix: remove every occurrence of a keeper

---
 keys.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index 7223bb9..dbe4d8f 100644
--- a/keys.go
+++ b/keys.go
@@ -154,11 +154,12 @@ func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 // chained.
 func (k *Key) RemoveKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
-		for i := range k.Keepers {
+		for i := 0; i < len(k.Keepers); {
 			if EqualRunesFold(&keeper, &k.Keepers[i]) {
 				k.Keepers[i] = k.Keepers[len(k.Keepers)-1]
 				k.Keepers = k.Keepers[:len(k.Keepers)-1]
-				break
+			} else {
+				i++
 			}
 		}
 	}
-- 
2.43.0


From b884c61ef96671c6a83591129f9e44132d898c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:27 +0000
Subject: [PATCH 12/37] fix: export copies of the keys and no empty persistence
 key

---
 persistence.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 62564c5..913ee29 100644
--- a/persistence.go
+++ b/persistence.go
@@ -487,8 +487,8 @@ func (k *Krypto431) Load() error {
 // override any copied field.
 func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Option) Krypto431 {
 	n := Krypto431{
-		persistenceKey:                BytePtr(ByteCopy(k.persistenceKey)),
-		salt:                          BytePtr(ByteCopy(k.salt)),
+		persistenceKey:                nil,
+		salt:                          nil,
 		overwritePersistenceIfExists:  false,
 		interactive:                   k.interactive,
 		overwriteExistingKeysOnImport: false,
@@ -500,6 +500,12 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		Messages:                      make([]Message, 0),
 		CallSign:                      RuneCopy(&k.CallSign),
 	}
+	if k.persistenceKey != nil {
+		n.persistenceKey = BytePtr(ByteCopy(k.persistenceKey))
+	}
+	if k.salt != nil {
+		n.salt = BytePtr(ByteCopy(k.salt))
+	}
 	for _, opt := range opts {
 		opt(&n)
 	}
@@ -509,6 +515,14 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 	for i := range k.Keys {
 		if filterFunction(&k.Keys[i]) {
 			newKey := k.Keys[i]
+			// The new instance can be wiped, do not share slices with it.
+			newKey.Id = RuneCopy(&k.Keys[i].Id)
+			newKey.Runes = RuneCopy(&k.Keys[i].Runes)
+			newKey.Keepers = nil
+			for x := range k.Keys[i].Keepers {
+				newKey.Keepers = append(newKey.Keepers, RuneCopy(&k.Keys[i].Keepers[x]))
+			}
+			newKey.Comment = RuneCopy(&k.Keys[i].Comment)
 			newKey.instance = &n
 			n.Keys = append(n.Keys, newKey)
 		}
-- 
2.43.0


From 4f9e4187acd8f7b4c9772190c88ee2e61902a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 13/37] fix: do not wipe the persistence key and salt the
 caller imports keys with

---
 persistence.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/persistence.go b/persistence.go
index 913ee29..42d907b 100644
--- a/persistence.go
+++ b/persistence.go
@@ -552,6 +552,13 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Option) (int, error) {
 	keyCount := 0
 	incoming := New(opts...)
+	// The incoming instance is wiped, do not let it wipe the caller's key or salt.
+	if incoming.persistenceKey != nil {
+		incoming.persistenceKey = BytePtr(ByteCopy(incoming.persistenceKey))
+	}
+	if incoming.salt != nil {
+		incoming.salt = BytePtr(ByteCopy(incoming.salt))
+	}
 	fmt.Fprintf(os.Stderr, "Importing keys from %s"+LineBreak, incoming.GetPersistence())
 
 	err := incoming.Load()
-- 
2.43.0


From d0ccf60b5169e1c708d0386a7be1cdd7738768b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 14/37] fix: let WithOverwriteExistingKeysOnImport take effect
 as an option of ImportKeys

---
 persistence.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 42d907b..9397f1d 100644
--- a/persistence.go
+++ b/persistence.go
@@ -566,6 +566,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		return 0, err
 	}
 	defer incoming.Wipe()
+	overwriteExisting := k.overwriteExistingKeysOnImport || incoming.overwriteExistingKeysOnImport
 	for i := range incoming.Keys {
 		if len(incoming.Keys[i].Id) != k.GroupSize {
 			fmt.Fprintf(os.Stderr, "Key ID %s is not %d characters long (our group size), will not import.", string(incoming.Keys[i].Id), k.GroupSize)
@@ -573,7 +574,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		}
 		if filterFunction(&incoming.Keys[i]) {
 			if k.ContainsKeyId(&incoming.Keys[i].Id) {
-				if !k.overwriteExistingKeysOnImport && k.interactive && IsTerminal() {
+				if !overwriteExisting && k.interactive && IsTerminal() {
 					overwrite := false
 					prompt := &survey.Confirm{
 						Message: fmt.Sprintf("Key ID %s already exist, replace with imported key?", string(incoming.Keys[i].Id)),
@@ -585,7 +586,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 					if !overwrite {
 						continue
 					}
-				} else if !k.overwriteExistingKeysOnImport {
+				} else if !overwriteExisting {
 					fmt.Fprintf(os.Stderr, "Key ID %s already exist, will not import.", string(incoming.Keys[i].Id))
 					continue
 				}
-- 
2.43.0


From a09e6ed9fd248029daef21d98b9fc8f0cc6b6657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:48 +0000
Subject: [PATCH 15/37] fix: load exactly what was saved or leave the instance
 as it was

---
 persistence.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index 9397f1d..1c304c1 100644
--- a/persistence.go
+++ b/persistence.go
@@ -461,10 +461,20 @@ func (k *Krypto431) Load() error {
 	}
 	defer fgz.Close()
 	gobDecoder := gob.NewDecoder(fgz)
-	err = gobDecoder.Decode(k)
+	// Decode into an empty instance, the decoder leaves fields that are not in the
+	// file as they were and k must not change unless all of it can be decoded.
+	var loaded Krypto431
+	err = gobDecoder.Decode(&loaded)
 	if err != nil {
 		return err
 	}
+	k.GroupSize = loaded.GroupSize
+	k.KeyLength = loaded.KeyLength
+	k.Columns = loaded.Columns
+	k.KeyColumns = loaded.KeyColumns
+	k.Keys = loaded.Keys
+	k.Messages = loaded.Messages
+	k.CallSign = loaded.CallSign
 	// Fix all non-exported instance fields in keys and messages...
 	for i := range k.Keys {
 		k.Keys[i].instance = k
-- 
2.43.0


From 77036a0427352a4be2b996b38b8eb573bec55a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 16/37] fix: read the persistence file to its end when loading

---
 persistence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/persistence.go b/persistence.go
index 1c304c1..a21f3fe 100644
--- a/persistence.go
+++ b/persistence.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"log"
 	"os"
@@ -468,6 +469,10 @@ func (k *Krypto431) Load() error {
 	if err != nil {
 		return err
 	}
+	// Read to the end, the checksum is verified there.
+	if _, err = io.Copy(io.Discard, fgz); err != nil {
+		return err
+	}
 	k.GroupSize = loaded.GroupSize
 	k.KeyLength = loaded.KeyLength
 	k.Columns = loaded.Columns
-- 
2.43.0


From d00f2a6836136c30828ef147790e713db5b55a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 17/37] fix: replace the persistence file only when all of the
 new one is on disk

---
 persistence.go | 57 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/persistence.go b/persistence.go
index a21f3fe..4d0f732 100644
--- a/persistence.go
+++ b/persistence.go
@@ -336,7 +336,7 @@ func (k *Krypto431) Save() error {
 		}
 		k.persistence = filepath.Join(dirname, k.persistence[2:])
 	}
-	_, err := os.Stat(k.persistence)
+	fi, err := os.Stat(k.persistence)
 	if err != nil {
 		if !errors.Is(err, fs.ErrNotExist) {
 			// Other error than file not found...
@@ -377,12 +377,57 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
-	// Create persistence file if it does not exist or truncate it if it does exist.
-	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if fi != nil && !fi.Mode().IsRegular() {
+		// Can not be replaced (e.g a device or pipe), write to it.
+		f, err := os.OpenFile(k.persistence, os.O_WRONLY, 0600)
+		if err != nil {
+			return err
+		}
+		err = k.encodeTo(f)
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
+		}
+		return err
+	}
+	// Write to a temporary file in the same directory and rename it when all of it
+	// is on disk. The persistence file will be either the old or the new one
+	// should anything fail on the way. If it is a symbolic link, the file it
+	// points to is replaced.
+	filename := k.persistence
+	if fi != nil {
+		filename, err = filepath.EvalSymlinks(filename)
+		if err != nil {
+			return err
+		}
+	}
+	f, err := os.CreateTemp(filepath.Dir(filename), "."+filepath.Base(filename)+".*")
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	err = k.encodeTo(f)
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return err
+	}
+	// The new file is in place, get the directory on disk too (where supported).
+	if dir, err := os.Open(filepath.Dir(filename)); err == nil {
+		dir.Sync()
+		dir.Close()
+	}
+	return nil
+}
+
+// encodeTo writes the encrypted instance to f.
+func (k *Krypto431) encodeTo(f *os.File) error {
 	// Krypto431 persistence files are encrypted, gzipped GOB files.
 	encrypter, err := stream.NewEncryptedStream(f, &stream.Config{
 		Cipher:          stream.NewXSalsa20Poly1305Cipher((*[32]byte)(*k.persistenceKey)),
@@ -392,15 +437,13 @@ func (k *Krypto431) Save() error {
 	if err != nil {
 		return err
 	}
-	defer encrypter.Close()
 	fgz := gzip.NewWriter(encrypter)
-	defer fgz.Close()
 	gobEncoder := gob.NewEncoder(fgz)
 	err = gobEncoder.Encode(k)
 	if err != nil {
 		return err
 	}
-	return nil
+	return fgz.Close()
 }
 
 // Krypto431_Load() loads a Krypto431 instance from the configured persistence
-- 
2.43.0


From f4fb024ee6e612b40bc63b34475d77d32ee1fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 18/37] fix: report errors when closing text files

---
 print.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/print.go b/print.go
index 1b80dd3..003c3f7 100644
--- a/print.go
+++ b/print.go
@@ -207,12 +207,11 @@ func (k *Krypto431) KeysTextFile(filter func(key *Key) bool, filename string) er
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = f.WriteString(bigStringOfKeys)
-	if err != nil {
-		return err
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
 	}
-	return nil
+	return err
 }
 
 func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename string) error {
@@ -224,12 +223,11 @@ func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename st
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = f.WriteString(bigStringOfMessages)
-	if err != nil {
-		return err
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
 	}
-	return nil
+	return err
 }
 
 func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
-- 
2.43.0


From 1572fa38fc0749d1520145f1f76bca27a9c70fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 19/37] fix: let only the owner read PDF files of keys and
 messages

---
 print.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/print.go b/print.go
index 003c3f7..44b3527 100644
--- a/print.go
+++ b/print.go
@@ -270,7 +270,7 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 	// page...
 	pdf.AddPage()
 	pdf.MultiCell(0, 3, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return outputPDF(pdf, filename)
 }
 
 func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string) error {
@@ -313,5 +313,18 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 	// than maxRows...
 	pdf.AddPage()
 	pdf.MultiCell(0, 4, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return outputPDF(pdf, filename)
+}
+
+// outputPDF writes pdf to a file only the owner has access to.
+func outputPDF(pdf *gofpdf.Fpdf, filename string) error {
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if err != nil {
+		return err
+	}
+	err = pdf.Output(f)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
-- 
2.43.0


From 5a508ff81eea40dc487ef46d7a064639005a7013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 20/37] fix: leave no keepers behind when wiping a key

---
 krypto431.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/krypto431.go b/krypto431.go
index e830a5a..27ae282 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -302,6 +302,7 @@ func (k *Key) RandomWipe() error {
 		}
 		*runeSlices[i] = nil
 	}
+	k.Keepers = nil
 	return nil
 }
 
-- 
2.43.0


From 2772098903a13b6113798b27066c5529211c9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 21/37] fix: write zeroes over slices when the random source
 fails

---
 krypto431.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 27ae282..f7fd158 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -196,10 +196,10 @@ func RandomWipe(b *[]rune) error {
 	}
 	written, err := crand.ReadRunes(*b)
 	if err != nil || written != len(*b) {
+		ZeroWipe(b)
 		if err != nil {
 			return err
 		}
-		ZeroWipe(b)
 	}
 	*b = nil
 	return nil
@@ -243,10 +243,10 @@ func RandomWipeBytes(b *[]byte) error {
 	}
 	written, err := crand.Read(*b)
 	if err != nil || written != len(*b) {
+		ZeroWipeBytes(b)
 		if err != nil {
 			return err
 		}
-		ZeroWipeBytes(b)
 	}
 	*b = nil
 	return nil
-- 
2.43.0


From ce89390d2f8443560410b1f448126830f61dd470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:15 +0000
Subject: [PATCH 22/37] fix: wipe the radiogram, binary and identifier of
 messages too

---
 krypto431.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/krypto431.go b/krypto431.go
index f7fd158..a69025e 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -368,6 +368,10 @@ func (m *Message) RandomWipe() {
 		}
 	}
 	m.KeyId = nil
+	// wipe Id, Radiogram and Binary
+	RandomWipe(&m.Id)
+	RandomWipe(&m.Radiogram)
+	RandomWipeBytes(&m.Binary)
 }
 
 // ZeroWipe assigned method for PlainText writes zeroes to Text and EncodedText
@@ -388,6 +392,10 @@ func (m *Message) ZeroWipe() {
 		m.KeyId[i] = 0
 	}
 	m.KeyId = nil
+	// wipe Id, Radiogram and Binary
+	ZeroWipe(&m.Id)
+	ZeroWipe(&m.Radiogram)
+	ZeroWipeBytes(&m.Binary)
 }
 
 // Wipe overwrites a chunk with either random runes or zeroes.
-- 
2.43.0


From 8ae2c12e47f14ee18c688618fd842af7414d2472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 23/37] fix: take any white space as separator between
 call-signs and identifiers

---
 functions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/functions.go b/functions.go
index 8588ce5..b2562a6 100644
--- a/functions.go
+++ b/functions.go
@@ -169,7 +169,7 @@ func JoinRunesToString(runes *[][]rune, separator string) string {
 // Key.Keepers.
 func VettedKeepers(keepers ...string) (vettedKeepers [][]rune) {
 	f := func(c rune) bool {
-		return c == ',' || c == ' '
+		return c == ',' || unicode.IsSpace(c)
 	}
 	for i := range keepers {
 		subKeepers := strings.FieldsFunc(keepers[i], f)
@@ -204,7 +204,7 @@ func VettedKeys(keys ...string) [][]rune {
 func VettedMessageIds(ids ...string) [][]rune {
 	var vettedMessageIds [][]rune
 	f := func(c rune) bool {
-		return c == ',' || c == ' '
+		return c == ',' || unicode.IsSpace(c)
 	}
 	for i := range ids {
 		subIds := strings.FieldsFunc(ids[i], f)
-- 
2.43.0


From 4efe91f430eca431293088a65ed561fa016c5855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:29 +0000
Subject: [PATCH 24/37] fix: take the first DE of a radiogram as the header,
 not one in its text

---
 messages.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/messages.go b/messages.go
index 76a7ee5..4c9da31 100644
--- a/messages.go
+++ b/messages.go
@@ -45,7 +45,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpFull *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*)\s*==\s*(?:[A-Z\s]*\s*[\d]*)\s*=\s*(.*)`)
+	MessageRegexpFull *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*)\s*==\s*(?:[A-Z\s]*\s*[\d]*)\s*=\s*(.*)`)
 
 	// Semi-full message format, without message instructions (tjänsteanmärkning),
 	// optional group count (both are non-capturing groups).
@@ -55,7 +55,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpSemi *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*\s*[\d]*)\s*=\s*(.*)`)
+	MessageRegexpSemi *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*\s*[\d]*)\s*=\s*(.*)`)
 
 	// Short message format.
 	//  AA BB CC DE VJ 012345 COL = HELLO WORLD = SECTION 2 GOES HERE, INCLUDED IN TXT = K
@@ -66,7 +66,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
+	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
 
 	// Even shorter format.
 	//  DE SA6MWA HELLO WORLD
@@ -75,7 +75,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpMini *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*=*\s*(.*)`)
+	MessageRegexpMini *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*=*\s*(.*)`)
 
 	// Regexp to match trailing = K, K, +, [AR], AR, etc in a string (e.g to clean
 	// up the message text).
@@ -214,8 +214,13 @@ func (k *Krypto431) ParseRadiogram(radiogram string) (*Message, error) {
 		Id:       k.NewUniqueMessageId(),
 	}
 	var matches [][]string
+	// The header ends at the first DE, more of them can occur in the text.
+	firstDE := MessageRegexpMini.FindStringSubmatchIndex(radiogram)
 	regexps := []*regexp.Regexp{MessageRegexpFull, MessageRegexpSemi, MessageRegexpShort, MessageRegexpMini}
 	for _, r := range regexps {
+		if loc := r.FindStringSubmatchIndex(radiogram); loc == nil || loc[4] != firstDE[4] {
+			continue
+		}
 		matches = r.FindAllStringSubmatch(radiogram, 1)
 		// if len(matches) > 0 {
 		// 	for _, match := range matches[0] {
-- 
2.43.0


From cb4e6cbd9e2eec2bb28155942e86b2bd23f20bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 25/37] fix: understand group counts of more than four digits

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 4c9da31..2260110 100644
--- a/messages.go
+++ b/messages.go
@@ -66,7 +66,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
+	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]*)\s*=\s*(.*)`)
 
 	// Even shorter format.
 	//  DE SA6MWA HELLO WORLD
-- 
2.43.0


From ccb115a484b0331ddeeb32e27523dc62e05f40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 26/37] fix: print the id and all keepers of a key with many
 keepers

---
 print.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/print.go b/print.go
index 44b3527..9114985 100644
--- a/print.go
+++ b/print.go
@@ -74,6 +74,10 @@ func (k *Key) String() string {
 	}
 	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
 		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
+	// The header follows the key id on the same line.
+	if headerLength := len(k.Id) + 1 + utf8.RuneCountInString(header); headerLength > cols {
+		cols = headerLength
+	}
 
 	// Just because you can...
 	return blox.New().SetColumnsAndRows(cols, rows).Trim().
-- 
2.43.0


From c8637068a40ad733134986cff7ba4cf227e62b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 27/37] fix: print all addressees and the whole sender of a
 message

---
 print.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/print.go b/print.go
index 9114985..81a2fab 100644
--- a/print.go
+++ b/print.go
@@ -114,13 +114,12 @@ func (m *Message) String(width ...int) string {
 	}
 	tDtgKeyLen := blox.MaximumLineLength(templateDtgAndKey)
 	tToFromLen := blox.MaximumLineLength(templateToFrom)
-	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(keyid))
+	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), HighestInt(len(m.From), len(keyid)))
 	if len(width) > 0 {
-		if width[0] < minWidth {
-			w = minWidth
-		} else {
-			w = width[0]
-		}
+		w = width[0]
+	}
+	if w < minWidth {
+		w = minWidth
 	}
 	b := blox.New().SetColumnsAndRows(w, 3).Trim()
 	b.DrawSeparator('_').PushPos().PushPos().PutText(templateDtgAndKey).PopPos().
-- 
2.43.0


From 96a194ecb683fbe78bf95e6ee2c448aef6afa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 28/37] fix: select invalid keys, not valid ones, with
 --invalid

---
 cmd/krypto431/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index 0f46c73..fef4bda 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -63,7 +63,7 @@ func keys(c *cli.Context) error {
 			}
 		}
 		if o.invalid {
-			if key.Compromised || key.IsExpired() {
+			if !key.Compromised && !key.IsExpired() {
 				return false
 			}
 		}
-- 
2.43.0


From 2e96b439d4c8abc459c5f2d0f5753e824bc75ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:55 +0000
Subject: [PATCH 29/37] fix: save a new message before it is shown

---
 cmd/krypto431/messages.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 1be8a18..46eea23 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -132,11 +132,13 @@ func messages(c *cli.Context) error {
 		if err != nil {
 			return err
 		}
-		fmt.Println(msg.String())
+		// Save first, a message that is shown can be sent: its keys must not be
+		// used again.
 		err = k.Save()
 		if err != nil {
 			return err
 		}
+		fmt.Println(msg.String())
 		eprintf("Saved message %s in %s."+LineBreak, msg.IdString(), k.GetPersistence())
 	}
 
-- 
2.43.0


From 69346f046c24506a91434762d4fca62740767866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 30/37] fix: save the used keys of stored messages deciphered
 for a summary

---
 cmd/krypto431/messages.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 46eea23..853577b 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -12,6 +12,28 @@ import (
 	"github.com/urfave/cli/v2"
 )
 
+// summaryOfMessages returns k.SummaryOfMessages(filter). If stored messages were
+// deciphered for the summary, the persistence is saved first as their keys have
+// been used.
+func summaryOfMessages(k *krypto431.Krypto431, filter func(msg *krypto431.Message) bool) ([]rune, [][]rune, error) {
+	enciphered := func() (n int) {
+		for i := range k.Messages {
+			if len(k.Messages[i].KeyId) > 0 {
+				n++
+			}
+		}
+		return n
+	}
+	before := enciphered()
+	header, lines := k.SummaryOfMessages(filter)
+	if enciphered() != before {
+		if err := k.Save(); err != nil {
+			return nil, nil, err
+		}
+	}
+	return header, lines, nil
+}
+
 func messages(c *cli.Context) error {
 	atLeastOneOfThem := []string{oList, oNew, oDelete, oOutput}
 	opCount := 0
@@ -78,7 +100,10 @@ func messages(c *cli.Context) error {
 		}
 		deleted := 0
 		if !o.yes {
-			_, lines := k.SummaryOfMessages(filterFunction)
+			_, lines, err := summaryOfMessages(&k, filterFunction)
+			if err != nil {
+				return err
+			}
 			if len(lines) == 0 {
 				plural := ""
 				if messages > 1 {
@@ -98,7 +123,7 @@ func messages(c *cli.Context) error {
 				Options:  messageStrings,
 				PageSize: 20,
 			}
-			err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
+			err = survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
 			if err != nil {
 				return err
 			}
@@ -150,7 +175,10 @@ func messages(c *cli.Context) error {
 			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
 			return nil
 		}
-		header, lines := k.SummaryOfMessages(filterFunction)
+		header, lines, err := summaryOfMessages(&k, filterFunction)
+		if err != nil {
+			return err
+		}
 		if len(lines) == 0 {
 			plural := ""
 			if messages > 1 {
-- 
2.43.0


From 586182fa5e09712891722a24a5aa92fd05551e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:20 +0000
Subject: [PATCH 31/37] fix: do not report a store as saved when overwriting
 was declined

---
 persistence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index 4d0f732..b54cdc6 100644
--- a/persistence.go
+++ b/persistence.go
@@ -355,7 +355,7 @@ func (k *Krypto431) Save() error {
 					return err
 				}
 				if !overwrite {
-					return nil
+					return fmt.Errorf("file %s already exist (will not overwrite)", k.persistence)
 				}
 			} else {
 				return fmt.Errorf("file %s already exist (will not overwrite)", k.persistence)
-- 
2.43.0


From ec6a4d4cac9461a9961cbb616a002f35e57b3c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:23 +0000
Subject: [PATCH 32/37] fix: having loaded a file is no permission to overwrite
 another one

---
 krypto431.go   | 1 +
 persistence.go | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index a69025e..bda05dc 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -101,6 +101,7 @@ type Krypto431 struct {
 	persistenceKey                *[]byte
 	salt                          *[]byte
 	overwritePersistenceIfExists  bool
+	loadedPersistence             string
 	interactive                   bool
 	overwriteExistingKeysOnImport bool
 	GroupSize                     int
diff --git a/persistence.go b/persistence.go
index b54cdc6..67da3e7 100644
--- a/persistence.go
+++ b/persistence.go
@@ -344,7 +344,7 @@ func (k *Krypto431) Save() error {
 		}
 	} else {
 		// persistence already exists
-		if !k.overwritePersistenceIfExists {
+		if !k.overwritePersistenceIfExists && k.persistence != k.loadedPersistence {
 			if k.interactive && IsTerminal() {
 				overwrite := false
 				prompt := &survey.Confirm{
@@ -531,7 +531,7 @@ func (k *Krypto431) Load() error {
 		k.Messages[i].instance = k
 	}
 	// Allow overwriting file after it's been loaded...
-	k.overwritePersistenceIfExists = true
+	k.loadedPersistence = k.persistence
 	return nil
 }
 
-- 
2.43.0


From e80d0222f213011ffe091ebcd671cce6bc058b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:24 +0000
Subject: [PATCH 33/37] fix: refuse to initialize with an invalid call-sign

---
 cmd/krypto431/initialize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/initialize.go b/cmd/krypto431/initialize.go
index 2385650..d424ca7 100644
--- a/cmd/krypto431/initialize.go
+++ b/cmd/krypto431/initialize.go
@@ -162,7 +162,12 @@ func initialize(c *cli.Context) error {
 	)
 	defer k.Wipe()
 
-	err := setSaltAndPFK(c, &k)
+	err := k.SetCallSign(o.call)
+	if err != nil {
+		return err
+	}
+
+	err = setSaltAndPFK(c, &k)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 279e5f25867e47a7470286e0faecd0e3759f465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:24 +0000
Subject: [PATCH 34/37] fix: do not share the recipient between the messages it
 is added to

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 2260110..11b7d67 100644
--- a/messages.go
+++ b/messages.go
@@ -298,7 +298,7 @@ func (k *Krypto431) NewUniqueMessageId() []rune {
 func (m *Message) AddRecipient(recipients ...[]rune) *Message {
 	for _, recipient := range recipients {
 		if !m.ContainsRecipient(recipient) {
-			m.Recipients = append(m.Recipients, recipient)
+			m.Recipients = append(m.Recipients, RuneCopy(&recipient))
 		}
 	}
 	return m
-- 
2.43.0


From 6c26cccf03b8e3fbc3ec48e50280e3339752f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:24 +0000
Subject: [PATCH 35/37] fix: remove every occurrence of a recipient

---
 messages.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/messages.go b/messages.go
index 11b7d67..ae53dd7 100644
--- a/messages.go
+++ b/messages.go
@@ -308,11 +308,12 @@ func (m *Message) AddRecipient(recipients ...[]rune) *Message {
 // chained.
 func (m *Message) RemoveRecipient(recipients ...[]rune) *Message {
 	for _, recipient := range recipients {
-		for i := range m.Recipients {
+		for i := 0; i < len(m.Recipients); {
 			if EqualRunesFold(&recipient, &m.Recipients[i]) {
 				m.Recipients[i] = m.Recipients[len(m.Recipients)-1]
 				m.Recipients = m.Recipients[:len(m.Recipients)-1]
-				break
+			} else {
+				i++
 			}
 		}
 	}
-- 
2.43.0


From 42260e1c4b8bdc06964a3c4dacf7b0f761df548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:24 +0000
Subject: [PATCH 36/37] fix: a closed station has no persistence key, loading
 or saving it does not panic

---
 persistence.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 67da3e7..7379442 100644
--- a/persistence.go
+++ b/persistence.go
@@ -363,7 +363,7 @@ func (k *Krypto431) Save() error {
 		}
 	}
 	// Ask for password if instance key is empty and mode is interactive, fail otherwise.
-	if k.persistenceKey == nil {
+	if k.persistenceKey == nil || len(*k.persistenceKey) != 32 {
 		if k.interactive && IsTerminal() {
 			pwd, err := AskAndConfirmPassword(EncryptionPrompt, MinimumPasswordEntropyBits)
 			if err != nil {
@@ -470,7 +470,7 @@ func (k *Krypto431) Load() error {
 		return err
 	}
 	// Persistence file exists, ask for password if instance key is empty.
-	if k.persistenceKey == nil {
+	if k.persistenceKey == nil || len(*k.persistenceKey) != 32 {
 		if k.interactive && IsTerminal() {
 			pwd := AskForPassword(DecryptionPrompt, 0)
 			if pwd == nil {
-- 
2.43.0


From 2c2c5d9553fbae30e428a3a3971c1c17b7919abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:24 +0000
Subject: [PATCH 37/37] fix: make room for the longest key identifier in
 listings

---
 functions.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/functions.go b/functions.go
index b2562a6..604657f 100644
--- a/functions.go
+++ b/functions.go
@@ -293,9 +293,8 @@ func predictColumnSizesOfKeys(keys []*Key) (columnSizes [7]int) {
 		if keys[0] == nil {
 			return
 		}
-		// Just assume key length is the instance's group size of the first key in
-		// the slice.
-		columnSizes[0] = keys[0].instance.GroupSize
+		// ID header is the initial length of the key id column
+		columnSizes[0] = len("ID")
 		// Keepers header is the initial length of the keepers column
 		columnSizes[1] = len("KEEPERS")
 		// Created and Expires are fixed length
@@ -308,6 +307,9 @@ func predictColumnSizesOfKeys(keys []*Key) (columnSizes [7]int) {
 			if keys[i] == nil {
 				continue
 			}
+			if columnSizes[0] < len(keys[i].Id) {
+				columnSizes[0] = len(keys[i].Id)
+			}
 			var keepersLength int
 			if len(keys[i].Keepers) == 0 {
 				keepersLength = len("Anonymous")
-- 
2.43.0

