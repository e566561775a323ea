From 0919f6d1ed726d8fbd3b938bbb65b82b3cab0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 01/36] fix: do not let a message share its key id with the key
 store

The message KeyId pointed at the same runes as the Id of the key, so wiping
the message (on a failed encipher or when deleting it) scrambled the key's Id.
---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 124cdc1..e1626e2 100644
--- a/cipher.go
+++ b/cipher.go
@@ -537,7 +537,7 @@ func (m *Message) EnrichWithKey() error {
 	// Mark key as used.
 	designatedKey.Used = true
 	// Enrich message instance with key id.
-	m.KeyId = designatedKey.Id
+	m.KeyId = RuneCopy(&designatedKey.Id)
 	return nil
 }
 
-- 
2.43.0


From 0318e746460988bb01430309bce9ecc35e9f87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 02/36] fix: take the optional key id of NewTextMessage from
 the second argument

msg[2] is out of range (or the wrong argument) when a key id is given as the
documented second argument.
---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 93237f4..76a7ee5 100644
--- a/messages.go
+++ b/messages.go
@@ -137,7 +137,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		// Outgoing message...
 		//fmt.Fprintln(os.Stderr, "outgoing")
 		if len(msg) >= 2 {
-			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[2])))
+			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
 			if len(message.KeyId) != k.GroupSize {
 				return nil, fmt.Errorf("key id \"%s\" must be %d characters long (the configured group size)", string(message.KeyId), k.GroupSize)
 			}
-- 
2.43.0


From 0214de89e1e23cdf644c6fe7f3f02a094623aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 03/36] fix: mark an explicitly chosen key as used

A key named by the caller was validated but never marked used, so it could
encipher any number of messages (and be picked again for the next chunk).
---
 cipher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cipher.go b/cipher.go
index e1626e2..64ade11 100644
--- a/cipher.go
+++ b/cipher.go
@@ -506,6 +506,7 @@ func (m *Message) EnrichWithKey() error {
 				} else if m.instance.Keys[i].Compromised {
 					return fmt.Errorf("message already enriched with compromised KeyId %s", string(m.KeyId))
 				} else {
+					m.instance.Keys[i].Used = true
 					return nil
 				}
 			}
-- 
2.43.0


From ccb4eeb890391269beab417952b943658771bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 04/36] fix: never pick a compromised key for enciphering

---
 cipher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index 64ade11..2aec0d2 100644
--- a/cipher.go
+++ b/cipher.go
@@ -424,14 +424,15 @@ func (t *Message) Decode() error {
 }
 */
 
-// FindKey returns the first un-used key of the configured group size where all
+// FindKey returns the first un-used key (that is not compromised) of the
+// configured group size where all
 // recipients are keepers of that key. If the recipient slice is empty, it will
 // find the first un-used anonymous key (a key without any keepers). Function
 // returns a pointer to the key. FindKey will not mark the key as used.
 func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 	numberOfRecipients := len(recipients)
 	for i := range r.Keys {
-		if r.Keys[i].Used {
+		if r.Keys[i].Used || r.Keys[i].Compromised {
 			continue
 		}
 		if len(r.Keys[i].Id) != r.GroupSize {
-- 
2.43.0


From 794bd7ff30cf5ce1df42818b471738ad10b5d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 05/36] fix: refuse unsupported characters instead of panicking
 or altering them

Enciphering text with a character outside the tables panicked (losing the
keys reserved for the message), and runes such as U+0131 and U+017F were
silently enciphered as I and S.
---
 cipher.go    | 8 +++++---
 krypto431.go | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cipher.go b/cipher.go
index 2aec0d2..c543b0b 100644
--- a/cipher.go
+++ b/cipher.go
@@ -284,7 +284,9 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 				// specialOpChar is not part of any character table, skip it
 				continue
 			}
-			if c == tc {
+			// The character must also be what is deciphered (some runes share the upper
+			// case of a letter in the tables without being that letter).
+			if c == tc && (*input == tc || *input == unicode.ToLower(tc)) {
 				foundIt = true
 				err := state.gotoTable(t, output)
 				if err != nil {
@@ -304,8 +306,8 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// zero the copy of rune
 	c = 0
 	if !foundIt {
-		// enter binary mode
-		panic("binary mode not implemented yet")
+		// TODO: enter binary mode
+		return ErrUnsupportedChar
 	}
 
 	return nil
diff --git a/krypto431.go b/krypto431.go
index 5aad0fd..7947d5f 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -54,6 +54,7 @@ var (
 	ErrKeyNotFound        = errors.New("key not found")
 	ErrInvalidCoding      = errors.New("invalid character in encoded text (must be between A-Z)")
 	ErrInvalidControlChar = errors.New("invalid control character")
+	ErrUnsupportedChar    = errors.New("message contains a character that is not in any character table")
 	ErrTableTooShort      = errors.New("out-of-bounds, character table is too short")
 	ErrUnsupportedTable   = errors.New("character table not supported")
 	ErrOutOfKeys          = errors.New("can not encipher multi-key message, unable to find additional key(s)")
-- 
2.43.0


From a1b4ed29d0c0defd5b433d04793e9dea40ce1839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 06/36] fix: leave no partial cipher text on a message that
 failed to encipher

---
 cipher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cipher.go b/cipher.go
index c543b0b..0315616 100644
--- a/cipher.go
+++ b/cipher.go
@@ -580,6 +580,7 @@ func (m *Message) Encipher() error {
 		if releaseKeys {
 			m.instance.MarkKeyUsed(m.KeyId, false)
 			Wipe(&m.KeyId)
+			Wipe(&m.CipherText)
 			chunk.key.Used = false
 			for i := range chunks {
 				chunks[i].key.Used = false
-- 
2.43.0


From 87c108b26f57815444a783eb788913c781fea324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 07/36] fix: change key before a character that leaves no room
 for a key change

A character takes up to 4 runes when coded, but only room for the key change
itself was reserved. Messages longer than one key were refused with "key is too
short" depending on which characters happened to be at the end of a key.
---
 cipher.go | 55 +++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/cipher.go b/cipher.go
index 0315616..7281ebb 100644
--- a/cipher.go
+++ b/cipher.go
@@ -242,6 +242,15 @@ func (state *codecState) changeKey(key *Key, output *[]rune) error {
 	return nil
 }
 
+// keyChangeLength returns the number of characters changeKey() would add in the
+// current state.
+func (state *codecState) keyChangeLength(groupSize int) int {
+	if state.table == secondaryTable {
+		return 1 + groupSize
+	}
+	return ControlCharactersNeededToChangeKey + groupSize
+}
+
 // pad() adds numberOfCharacters of nextTableChar (Z) at the end of
 // output rune slice. Function is used to extend an encoded text into an even
 // amount of 5 character groups. Suggested calculation of numberOfCharacters:
@@ -589,26 +598,52 @@ func (m *Message) Encipher() error {
 			chunk.Wipe()
 		}
 	}()
+	nextChunk := func() error {
+		keyPtr := m.instance.FindKey(m.Recipients...)
+		if keyPtr == nil {
+			return ErrOutOfKeys
+		}
+		err := state.changeKey(keyPtr, &chunk.encodedText)
+		if err != nil {
+			return err
+		}
+		keyPtr.Used = true
+		chunks = append(chunks, chunk)
+		chunk = newChunk(m.instance.GroupSize)
+		chunk.key = keyPtr
+		state.reset()
+		return nil
+	}
 	for i := range m.PlainText {
 		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
-			keyPtr := m.instance.FindKey(m.Recipients...)
-			if keyPtr == nil {
-				return ErrOutOfKeys
-			}
-			err := state.changeKey(keyPtr, &chunk.encodedText)
+			err := nextChunk()
 			if err != nil {
 				return err
 			}
-			keyPtr.Used = true
-			chunks = append(chunks, chunk)
-			chunk = newChunk(m.instance.GroupSize)
-			chunk.key = keyPtr
-			state.reset()
 		}
+		previousState, previousLength := *state, len(chunk.encodedText)
 		err := state.encodeCharacter(&m.PlainText[i], &chunk.encodedText)
 		if err != nil {
 			return err
 		}
+		// One character is up to 4 runes when coded. If they do not leave room for
+		// the key change needed by the rest of the message, change key before the
+		// character instead of after it.
+		if i < len(m.PlainText)-1 && previousLength > 0 && len(chunk.encodedText)+state.keyChangeLength(m.instance.GroupSize) > chunk.key.KeyLength() {
+			for x := previousLength; x < len(chunk.encodedText); x++ {
+				chunk.encodedText[x] = 0
+			}
+			chunk.encodedText = chunk.encodedText[:previousLength]
+			*state = previousState
+			err := nextChunk()
+			if err != nil {
+				return err
+			}
+			err = state.encodeCharacter(&m.PlainText[i], &chunk.encodedText)
+			if err != nil {
+				return err
+			}
+		}
 	}
 	// Count length of all chunks and make sure the last chunk compensates for
 	// modulo GroupSize length of all EncodedTexts.
-- 
2.43.0


From a5d8b03f805a23f05e37aa66bb4e413677ea6a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 08/36] fix: do not wipe the caller's PFK and salt after
 importing keys

The documented ImportKeys(f, WithPersistence(file), WithPFK(k.GetPFK()),
WithSalt(k.GetSalt())) wiped the receiving instance's own PFK and salt.
---
 persistence.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index 62564c5..00f716d 100644
--- a/persistence.go
+++ b/persistence.go
@@ -538,13 +538,21 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Option) (int, error) {
 	keyCount := 0
 	incoming := New(opts...)
+	// The incoming instance is wiped when done, a PFK or salt provided as an
+	// option (perhaps our own) is not ours to wipe.
+	if incoming.persistenceKey != nil {
+		incoming.persistenceKey = BytePtr(ByteCopy(incoming.persistenceKey))
+	}
+	if incoming.salt != nil {
+		incoming.salt = BytePtr(ByteCopy(incoming.salt))
+	}
+	defer incoming.Wipe()
 	fmt.Fprintf(os.Stderr, "Importing keys from %s"+LineBreak, incoming.GetPersistence())
 
 	err := incoming.Load()
 	if err != nil {
 		return 0, err
 	}
-	defer incoming.Wipe()
 	for i := range incoming.Keys {
 		if len(incoming.Keys[i].Id) != k.GroupSize {
 			fmt.Fprintf(os.Stderr, "Key ID %s is not %d characters long (our group size), will not import.", string(incoming.Keys[i].Id), k.GroupSize)
-- 
2.43.0


From bcb087d3f236dcd496813126f77e4ab9e7e72ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 09/36] fix: give every imported key its own copy of the
 sender's call-sign

All imported keys shared one slice, deleting (wiping) one key garbled the
keepers of all the others.
---
 persistence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index 00f716d..be181d4 100644
--- a/persistence.go
+++ b/persistence.go
@@ -609,7 +609,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 			newKey.instance = k
 			// Remove my call-sign from keepers, add incoming station's call-sign to
 			// keepers and hand over key to our instance (importedKey.instance = k).
-			newKey.RemoveKeeper(k.CallSign).AddKeeper(incoming.Keys[i].GetCallSign()).
+			newKey.RemoveKeeper(k.CallSign).AddKeeper(RuneCopy(&incoming.CallSign)).
 				SetInstance(k)
 			k.Keys = append(k.Keys, newKey)
 			keyCount++
-- 
2.43.0


From 0698fbe0149f75ef6de8cb01e20ed3f7f7f2e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 10/36] fix: export copies of keys and do not turn a missing
 PFK into an empty one

The exported instance shared id, runes, keepers and comment with the original
keys, wiping the export destroyed them. A missing PFK or salt became an empty
slice which made Save panic.
---
 persistence.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index be181d4..10eb9d6 100644
--- a/persistence.go
+++ b/persistence.go
@@ -487,8 +487,6 @@ func (k *Krypto431) Load() error {
 // override any copied field.
 func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Option) Krypto431 {
 	n := Krypto431{
-		persistenceKey:                BytePtr(ByteCopy(k.persistenceKey)),
-		salt:                          BytePtr(ByteCopy(k.salt)),
 		overwritePersistenceIfExists:  false,
 		interactive:                   k.interactive,
 		overwriteExistingKeysOnImport: false,
@@ -500,6 +498,12 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		Messages:                      make([]Message, 0),
 		CallSign:                      RuneCopy(&k.CallSign),
 	}
+	if k.persistenceKey != nil {
+		n.persistenceKey = BytePtr(ByteCopy(k.persistenceKey))
+	}
+	if k.salt != nil {
+		n.salt = BytePtr(ByteCopy(k.salt))
+	}
 	for _, opt := range opts {
 		opt(&n)
 	}
@@ -508,7 +512,15 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 	}
 	for i := range k.Keys {
 		if filterFunction(&k.Keys[i]) {
+			// Copy all slices, wiping the exported key must not wipe ours.
 			newKey := k.Keys[i]
+			newKey.Id = RuneCopy(&k.Keys[i].Id)
+			newKey.Runes = RuneCopy(&k.Keys[i].Runes)
+			newKey.Comment = RuneCopy(&k.Keys[i].Comment)
+			newKey.Keepers = nil
+			for x := range k.Keys[i].Keepers {
+				newKey.Keepers = append(newKey.Keepers, RuneCopy(&k.Keys[i].Keepers[x]))
+			}
 			newKey.instance = &n
 			n.Keys = append(n.Keys, newKey)
 		}
-- 
2.43.0


From 8f182d55750017ac83f35cbb6dbf3a310f09c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 11/36] fix: remove a keeper that is listed more than once

Only the first occurrence was removed, leaving the station's own call-sign as
a keeper of its keys when given twice.
---
 keys.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index aab5542..bd0b13e 100644
--- a/keys.go
+++ b/keys.go
@@ -154,11 +154,12 @@ func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 // chained.
 func (k *Key) RemoveKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
-		for i := range k.Keepers {
+		for i := 0; i < len(k.Keepers); {
 			if EqualRunesFold(&keeper, &k.Keepers[i]) {
 				k.Keepers[i] = k.Keepers[len(k.Keepers)-1]
 				k.Keepers = k.Keepers[:len(k.Keepers)-1]
-				break
+			} else {
+				i++
 			}
 		}
 	}
-- 
2.43.0


From 34f8b89483050acdffd345d0112619542564d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 12/36] fix: wipe the raw radiogram and binary of a message

The radiogram of an outgoing message contains its plaintext.
---
 krypto431.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/krypto431.go b/krypto431.go
index 7947d5f..75aa956 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -367,6 +367,22 @@ func (m *Message) RandomWipe() {
 		}
 	}
 	m.KeyId = nil
+	// wipe Radiogram
+	written, err = crand.ReadRunes(m.Radiogram)
+	if err != nil || written != len(m.Radiogram) {
+		for i := 0; i < len(m.Radiogram); i++ {
+			m.Radiogram[i] = 0
+		}
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	written, err = crand.Read(m.Binary)
+	if err != nil || written != len(m.Binary) {
+		for i := 0; i < len(m.Binary); i++ {
+			m.Binary[i] = 0
+		}
+	}
+	m.Binary = nil
 }
 
 // ZeroWipe assigned method for PlainText writes zeroes to Text and EncodedText
@@ -387,6 +403,16 @@ func (m *Message) ZeroWipe() {
 		m.KeyId[i] = 0
 	}
 	m.KeyId = nil
+	// wipe Radiogram
+	for i := 0; i < len(m.Radiogram); i++ {
+		m.Radiogram[i] = 0
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	for i := 0; i < len(m.Binary); i++ {
+		m.Binary[i] = 0
+	}
+	m.Binary = nil
 }
 
 // Wipe overwrites a chunk with either random runes or zeroes.
-- 
2.43.0


From 2758350502e76b0d53a1e48ac964633b291e9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 13/36] fix: zero what can not be wiped with random data

Wipe left a slice as it was when the random source failed.
---
 krypto431.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 75aa956..0e7b53f 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -196,13 +196,10 @@ func RandomWipe(b *[]rune) error {
 	}
 	written, err := crand.ReadRunes(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
 		ZeroWipe(b)
 	}
 	*b = nil
-	return nil
+	return err
 }
 
 // ZeroWipe wipes a rune slice with zeroes.
@@ -243,13 +240,10 @@ func RandomWipeBytes(b *[]byte) error {
 	}
 	written, err := crand.Read(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
 		ZeroWipeBytes(b)
 	}
 	*b = nil
-	return nil
+	return err
 }
 
 // ZeroWipeBytes wipes a byte slice with zeroes.
-- 
2.43.0


From 63155d2b25f90973b666bf63ce806f94bbea49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 14/36] fix: replace the persistence file only when it is
 completely written

Save truncated the file first, a crash, a full disk or an invalid PFK in the
middle of it destroyed all keys and messages. Errors from closing the gzip and
encryption layers (when data is actually written) were ignored and Save
reported success.
---
 persistence.go | 61 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/persistence.go b/persistence.go
index 10eb9d6..0e4d832 100644
--- a/persistence.go
+++ b/persistence.go
@@ -376,11 +376,54 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
-	// Create persistence file if it does not exist or truncate it if it does exist.
-	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
+	// If the file is a symbolic link, replace what it points at, not the link.
+	filename := k.persistence
+	if resolved, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = resolved
+	}
+	mode := fs.FileMode(0600)
+	if fi, err := os.Stat(filename); err == nil {
+		if !fi.Mode().IsRegular() {
+			// Not a file we can replace (e.g a device), write directly to it.
+			f, err := os.OpenFile(filename, os.O_WRONLY, 0600)
+			if err != nil {
+				return err
+			}
+			return k.writePersistence(f)
+		}
+		mode = fi.Mode().Perm()
+	}
+	// Write to a temporary file which replaces the persistence file when complete.
+	// An interrupted or failed save must not destroy what is already persisted.
+	f, err := os.CreateTemp(filepath.Dir(filename), "."+filepath.Base(filename)+".*")
+	if err != nil {
+		return err
+	}
+	err = f.Chmod(mode)
+	if err != nil {
+		f.Close()
+		os.Remove(f.Name())
+		return err
+	}
+	err = k.writePersistence(f)
 	if err != nil {
+		os.Remove(f.Name())
 		return err
 	}
+	err = os.Rename(f.Name(), filename)
+	if err != nil {
+		os.Remove(f.Name())
+		return err
+	}
+	return nil
+}
+
+// writePersistence writes the instance to f and closes it. There is no error
+// only if everything has been written.
+func (k *Krypto431) writePersistence(f *os.File) error {
 	defer f.Close()
 	// Krypto431 persistence files are encrypted, gzipped GOB files.
 	encrypter, err := stream.NewEncryptedStream(f, &stream.Config{
@@ -391,15 +434,23 @@ func (k *Krypto431) Save() error {
 	if err != nil {
 		return err
 	}
-	defer encrypter.Close()
 	fgz := gzip.NewWriter(encrypter)
-	defer fgz.Close()
 	gobEncoder := gob.NewEncoder(fgz)
 	err = gobEncoder.Encode(k)
 	if err != nil {
 		return err
 	}
-	return nil
+	err = fgz.Close()
+	if err != nil {
+		return err
+	}
+	// Not all files (e.g devices) can be synced.
+	err = f.Sync()
+	if err != nil && !errors.Is(err, syscall.EINVAL) && !errors.Is(err, syscall.ENOTSUP) {
+		return err
+	}
+	// Closes f as well.
+	return encrypter.Close()
 }
 
 // Krypto431_Load() loads a Krypto431 instance from the configured persistence
-- 
2.43.0


From 2b5a5b25af5c4be86d1f0ce111eb9a7b4e00fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 15/36] fix: return an error instead of panicking when loading
 with an invalid PFK

---
 persistence.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/persistence.go b/persistence.go
index 0e4d832..cfbaee4 100644
--- a/persistence.go
+++ b/persistence.go
@@ -491,6 +491,9 @@ func (k *Krypto431) Load() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
 	// Load persisted data...
 	f, err = os.Open(k.persistence)
 	if err != nil {
-- 
2.43.0


From 78f0274c09c06fde99ab376f76cafe254138b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 16/36] fix: loading replaces keys and messages instead of
 merging with them

Gob leaves fields alone that are zero in the file, loading into an instance
with data kept e.g. old used marks, keys and messages.
---
 persistence.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index cfbaee4..201bc7b 100644
--- a/persistence.go
+++ b/persistence.go
@@ -514,11 +514,26 @@ func (k *Krypto431) Load() error {
 		return err
 	}
 	defer fgz.Close()
+	// Decode into a new instance. Decoding into one that already has keys or
+	// messages merges what is persisted with what is there.
+	loaded := Krypto431{
+		GroupSize:  k.GroupSize,
+		KeyLength:  k.KeyLength,
+		Columns:    k.Columns,
+		KeyColumns: k.KeyColumns,
+	}
 	gobDecoder := gob.NewDecoder(fgz)
-	err = gobDecoder.Decode(k)
+	err = gobDecoder.Decode(&loaded)
 	if err != nil {
 		return err
 	}
+	k.GroupSize = loaded.GroupSize
+	k.KeyLength = loaded.KeyLength
+	k.Columns = loaded.Columns
+	k.KeyColumns = loaded.KeyColumns
+	k.Keys = loaded.Keys
+	k.Messages = loaded.Messages
+	k.CallSign = loaded.CallSign
 	// Fix all non-exported instance fields in keys and messages...
 	for i := range k.Keys {
 		k.Keys[i].instance = k
-- 
2.43.0


From 0605da8f982a1ebbd39fd521959eac64dae30056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 17/36] fix: verify the checksum of the persistence file when
 loading

The gzip checksum was never read. A truncated file was accepted, and a file
with encrypted blocks in another order could load with other key runes than
were saved.
---
 persistence.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/persistence.go b/persistence.go
index 201bc7b..a2adf77 100644
--- a/persistence.go
+++ b/persistence.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"log"
 	"os"
@@ -527,6 +528,12 @@ func (k *Krypto431) Load() error {
 	if err != nil {
 		return err
 	}
+	// Read to the end to verify the checksum of the file. Each encrypted block is
+	// authenticated, but not that all of them are there and in order.
+	_, err = io.Copy(io.Discard, fgz)
+	if err != nil {
+		return err
+	}
 	k.GroupSize = loaded.GroupSize
 	k.KeyLength = loaded.KeyLength
 	k.Columns = loaded.Columns
-- 
2.43.0


From 5298c3c9466ab135131c1c00c88b71a2d077d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 18/36] fix: saving reports that the user declined to overwrite
 the file

Nothing was saved, but Save returned success and e.g. init said it had saved.
---
 persistence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index a2adf77..e5f8eaa 100644
--- a/persistence.go
+++ b/persistence.go
@@ -355,7 +355,7 @@ func (k *Krypto431) Save() error {
 					return err
 				}
 				if !overwrite {
-					return nil
+					return fmt.Errorf("file %s already exist (did not overwrite)", k.persistence)
 				}
 			} else {
 				return fmt.Errorf("file %s already exist (will not overwrite)", k.persistence)
-- 
2.43.0


From 7a4bb2d4f9064eb46d54688efffdd1e905098d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 19/36] fix: save the used keys before showing the cipher text
 of a new message

If saving failed (or the program was killed in between) the cipher text was
already shown while its keys remained un-used in the file.
---
 cmd/krypto431/messages.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 1be8a18..57a2a12 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -132,11 +132,13 @@ func messages(c *cli.Context) error {
 		if err != nil {
 			return err
 		}
-		fmt.Println(msg.String())
+		// Save first. Keys of a cipher text that has been shown must be marked used
+		// in the persistence file.
 		err = k.Save()
 		if err != nil {
 			return err
 		}
+		fmt.Println(msg.String())
 		eprintf("Saved message %s in %s."+LineBreak, msg.IdString(), k.GetPersistence())
 	}
 
-- 
2.43.0


From 810f2939aad889c1d321e9052669707874edbfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 20/36] fix: keys --invalid selects invalid keys, not valid
 ones

---
 cmd/krypto431/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index 0f46c73..fef4bda 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -63,7 +63,7 @@ func keys(c *cli.Context) error {
 			}
 		}
 		if o.invalid {
-			if key.Compromised || key.IsExpired() {
+			if !key.Compromised && !key.IsExpired() {
 				return false
 			}
 		}
-- 
2.43.0


From 12f429e018013cb935724242d9b95d99704db42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 21/36] fix: refuse to initialize a store with an invalid
 call-sign

The error from setting the call-sign was ignored, leaving it empty.
---
 cmd/krypto431/initialize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/initialize.go b/cmd/krypto431/initialize.go
index 2385650..d424ca7 100644
--- a/cmd/krypto431/initialize.go
+++ b/cmd/krypto431/initialize.go
@@ -162,7 +162,12 @@ func initialize(c *cli.Context) error {
 	)
 	defer k.Wipe()
 
-	err := setSaltAndPFK(c, &k)
+	err := k.SetCallSign(o.call)
+	if err != nil {
+		return err
+	}
+
+	err = setSaltAndPFK(c, &k)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 93fec407f1a42249702ffdba7c15e9f24e58ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 22/36] fix: do not cut off recipients or sender in the message
 header

The minimum width was only enforced when a width was given, and did not include
the sender.
---
 print.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/print.go b/print.go
index 1b80dd3..54e45d7 100644
--- a/print.go
+++ b/print.go
@@ -110,13 +110,12 @@ func (m *Message) String(width ...int) string {
 	}
 	tDtgKeyLen := blox.MaximumLineLength(templateDtgAndKey)
 	tToFromLen := blox.MaximumLineLength(templateToFrom)
-	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(keyid))
+	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(m.From), len(keyid))
 	if len(width) > 0 {
-		if width[0] < minWidth {
-			w = minWidth
-		} else {
-			w = width[0]
-		}
+		w = width[0]
+	}
+	if w < minWidth {
+		w = minWidth
 	}
 	b := blox.New().SetColumnsAndRows(w, 3).Trim()
 	b.DrawSeparator('_').PushPos().PushPos().PutText(templateDtgAndKey).PopPos().
-- 
2.43.0


From 4aa5b519c91d8368f734a287e5e71b530b5a9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 23/36] fix: make room for many keepers on a key sheet

The header overwrote the end of the key id and lost the first keepers if it was
longer than the sheet is wide.
---
 print.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/print.go b/print.go
index 54e45d7..c60d995 100644
--- a/print.go
+++ b/print.go
@@ -60,6 +60,16 @@ func (k *Key) String() string {
 	if k.instance.Columns > cols {
 		cols = k.instance.Columns
 	}
+	keepers := "NIL"
+	if len(k.Keepers) > 0 {
+		keepers = k.JoinKeepers(",")
+	}
+	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
+		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
+	// The header must fit on the same line as the key id.
+	if minCols := len(k.Id) + 1 + utf8.RuneCountInString(header); cols < minCols {
+		cols = minCols
+	}
 	// Calculate rows...
 	rows := headerLines + footerLines
 	if rtLines > groupsLines*groupsLineSpacing {
@@ -68,13 +78,6 @@ func (k *Key) String() string {
 		rows += groupsLines * groupsLineSpacing
 	}
 
-	keepers := "NIL"
-	if len(k.Keepers) > 0 {
-		keepers = k.JoinKeepers(",")
-	}
-	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
-		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
-
 	// Just because you can...
 	return blox.New().SetColumnsAndRows(cols, rows).Trim().
 		DrawSeparator('_').PutTextRightAligned(header).Move(0, 1).
-- 
2.43.0


From 1e1d17d7935bbc6bd69cec443cf35eac928e8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 24/36] fix: save messages that were deciphered while listing
 them

The listed text came from keys that remained un-used in the file, so the next
outgoing message could be enciphered with a key of a message already received.
---
 cmd/krypto431/messages.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 57a2a12..e806643 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -150,7 +150,16 @@ func messages(c *cli.Context) error {
 			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
 			return nil
 		}
+		undeciphered := undecipheredMessages(&k)
 		header, lines := k.SummaryOfMessages(filterFunction)
+		// Messages are deciphered when listed if there is a key for them, save which
+		// keys were used.
+		if undecipheredMessages(&k) != undeciphered {
+			err := k.Save()
+			if err != nil {
+				return err
+			}
+		}
 		if len(lines) == 0 {
 			plural := ""
 			if messages > 1 {
@@ -199,3 +208,14 @@ func messages(c *cli.Context) error {
 	}
 	return nil
 }
+
+// undecipheredMessages returns the number of messages that do not have a key id
+// (yet).
+func undecipheredMessages(k *krypto431.Krypto431) (n int) {
+	for i := range k.Messages {
+		if len(k.Messages[i].KeyId) == 0 {
+			n++
+		}
+	}
+	return
+}
-- 
2.43.0


From eb713c90cb7c130f2b004ef3d8d674ed53fc7ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 25/36] fix: keep the plain text of a message that fails to
 decipher

---
 cipher.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cipher.go b/cipher.go
index 7281ebb..173a8c9 100644
--- a/cipher.go
+++ b/cipher.go
@@ -702,7 +702,7 @@ func (m *Message) Encipher() error {
 
 // Decipher deciphers the CipherText field into the PlainText field of a Message
 // object. PlainText will be replaced with deciphered text if text already
-// exists. Decipher does not use a separate decoding function as simultaneous
+// exists (it is kept if deciphering fails). Decipher does not use a separate decoding function as simultaneous
 // decoding is needed to support CipherText enciphered with multiple keys. If
 // deciphering succeeds, all keys used in the message will be marked `used`.
 func (m *Message) Decipher() error {
@@ -732,7 +732,13 @@ func (m *Message) Decipher() error {
 	if keyPtr.Used {
 		fmt.Fprintf(os.Stderr, "Warning: key %s marked as already used!"+LineBreak, keyPtr.IdString())
 	}
-	Wipe(&m.PlainText)
+	// Keep the current plain text in case deciphering fails.
+	plainText := make([]rune, 0, len(m.CipherText))
+	defer func() {
+		if !markKeysUsed {
+			Wipe(&plainText)
+		}
+	}()
 	keyIndexCounter := 0
 	nextKey := make([]rune, 0, m.instance.GroupSize)
 	state := newState()
@@ -747,7 +753,7 @@ func (m *Message) Decipher() error {
 			return err
 		}
 		keyIndexCounter++
-		err = state.decodeCharacter(&encodedChar, &m.PlainText)
+		err = state.decodeCharacter(&encodedChar, &plainText)
 		if err != nil {
 			return err
 		}
@@ -766,6 +772,8 @@ func (m *Message) Decipher() error {
 			}
 		}
 	}
+	Wipe(&m.PlainText)
+	m.PlainText = plainText
 	markKeysUsed = true
 	return nil
 }
-- 
2.43.0


From d8627bf98e86c7520d826588324912821ec8a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 26/36] fix: do not let received messages share their recipient
 with the instance's call-sign

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 76a7ee5..255fd73 100644
--- a/messages.go
+++ b/messages.go
@@ -151,7 +151,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		//fmt.Fprintln(os.Stderr, "incoming")
 		// Add yourself if there are no recipients (this is a shortcut for the shortest radiogram)
 		if len(message.Recipients) == 0 {
-			message.AddRecipient(k.GetCallSign())
+			message.AddRecipient(RuneCopy(&k.CallSign))
 		}
 		err := message.TryDecipherPlainText()
 		if err != nil {
-- 
2.43.0


From c0a12d00aeeaa72cbe7f515f238cdf7eca4adceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 27/36] fix: refuse a key index beyond the end of the key
 instead of panicking

---
 diana/diana.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diana/diana.go b/diana/diana.go
index 244f5c9..1088184 100644
--- a/diana/diana.go
+++ b/diana/diana.go
@@ -132,7 +132,7 @@ func AppendTrigraphByteByKey(writeTo *[]byte, character *byte, key *[]byte, keyI
 	if *keyIndex < 0 {
 		return ErrNegativeKeyIndex
 	}
-	if *keyIndex > len(*writeTo) {
+	if *keyIndex > len(*writeTo) || *keyIndex >= len(*key) {
 		return ErrKeyIndexOutOfBounds
 	}
 	var b byte
-- 
2.43.0


From 61c9df0279599142c9bcd5bbf83f22931db68907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:38 +0000
Subject: [PATCH 28/36] fix: a radiogram's text may contain the word DE

The recipients were matched greedily, so that the last DE of a radiogram was
taken for the one before the sender: words of the text became recipients and
sender.
---
 messages.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/messages.go b/messages.go
index 255fd73..33a0c6b 100644
--- a/messages.go
+++ b/messages.go
@@ -45,7 +45,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpFull *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*)\s*==\s*(?:[A-Z\s]*\s*[\d]*)\s*=\s*(.*)`)
+	MessageRegexpFull *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*)\s*==\s*(?:[A-Z\s]*\s*[\d]*)\s*=\s*(.*)`)
 
 	// Semi-full message format, without message instructions (tjänsteanmärkning),
 	// optional group count (both are non-capturing groups).
@@ -55,7 +55,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpSemi *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*\s*[\d]*)\s*=\s*(.*)`)
+	MessageRegexpSemi *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*\s*[\d]*)\s*=\s*(.*)`)
 
 	// Short message format.
 	//  AA BB CC DE VJ 012345 COL = HELLO WORLD = SECTION 2 GOES HERE, INCLUDED IN TXT = K
@@ -66,7 +66,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
+	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
 
 	// Even shorter format.
 	//  DE SA6MWA HELLO WORLD
@@ -75,7 +75,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpMini *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*=*\s*(.*)`)
+	MessageRegexpMini *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*=*\s*(.*)`)
 
 	// Regexp to match trailing = K, K, +, [AR], AR, etc in a string (e.g to clean
 	// up the message text).
-- 
2.43.0


From 966af7989de4ecebd167991aff8c4ec41d10ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:00 +0000
Subject: [PATCH 29/36] fix: remove the end sign of a radiogram before reading
 its parts

DE AA QSL = K was read as the text K with the instruction QSL, so that a
station would send K instead of QSL. The end sign also made the sender of a
text with the word DE in it ambiguous.
---
 messages.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/messages.go b/messages.go
index 33a0c6b..48cd9c4 100644
--- a/messages.go
+++ b/messages.go
@@ -213,10 +213,13 @@ func (k *Krypto431) ParseRadiogram(radiogram string) (*Message, error) {
 		instance: k,
 		Id:       k.NewUniqueMessageId(),
 	}
+	// Remove the end sign before looking for the parts: "DE AA QSL = K" has the
+	// text QSL, it is not the text K preceded by the instruction QSL.
+	body := MessageTrailRegexp.ReplaceAllString(radiogram, "")
 	var matches [][]string
 	regexps := []*regexp.Regexp{MessageRegexpFull, MessageRegexpSemi, MessageRegexpShort, MessageRegexpMini}
 	for _, r := range regexps {
-		matches = r.FindAllStringSubmatch(radiogram, 1)
+		matches = r.FindAllStringSubmatch(body, 1)
 		// if len(matches) > 0 {
 		// 	for _, match := range matches[0] {
 		// 		fmt.Fprintf(os.Stderr, "\"%s\""+LineBreak, match)
@@ -237,7 +240,7 @@ func (k *Krypto431) ParseRadiogram(radiogram string) (*Message, error) {
 					return nil, err
 				}
 			}
-			m.PlainText = []rune(strings.TrimSpace(MessageTrailRegexp.ReplaceAllString(matches[0][4], "")))
+			m.PlainText = []rune(strings.TrimSpace(matches[0][4]))
 			m.PlainText = TrimRightRuneFunc(m.PlainText, func(r rune) bool {
 				return unicode.IsSpace(r) || r == '+' || r == '='
 			})
-- 
2.43.0


From ec815bea73a4b5dbfb361c36b27a569e69242b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:03 +0000
Subject: [PATCH 30/36] fix: keep a + that ends the text of a radiogram closed
 by = K

BLOOD GROUP A+ = K lost its last character.
---
 messages.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 48cd9c4..0d32e80 100644
--- a/messages.go
+++ b/messages.go
@@ -241,8 +241,10 @@ func (k *Krypto431) ParseRadiogram(radiogram string) (*Message, error) {
 				}
 			}
 			m.PlainText = []rune(strings.TrimSpace(matches[0][4]))
+			// A + is part of the text if the end sign came after it.
+			plusIsEnd := len(body) == len(radiogram)
 			m.PlainText = TrimRightRuneFunc(m.PlainText, func(r rune) bool {
-				return unicode.IsSpace(r) || r == '+' || r == '='
+				return unicode.IsSpace(r) || (r == '+' && plusIsEnd) || r == '='
 			})
 			m.Radiogram = []rune(radiogram)
 			return m, nil
-- 
2.43.0


From f2b2fd49dbbef4f980aaa2c961e852a51af616d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:33 +0000
Subject: [PATCH 31/36] fix: read the short radiogram form also with a group
 count above 9999

Traffic of more than 9999 groups was printed with its count, but the receiver
took the count for text and could not decipher it.
---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 0d32e80..f58c393 100644
--- a/messages.go
+++ b/messages.go
@@ -66,7 +66,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
+	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]*)\s*=\s*(.*)`)
 
 	// Even shorter format.
 	//  DE SA6MWA HELLO WORLD
-- 
2.43.0


From f8738915c2cd3de6f469bad574824d929b1d7dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:36 +0000
Subject: [PATCH 32/36] fix: do not change a store to a random key that could
 not be printed

---
 cmd/krypto431/pfk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/pfk.go b/cmd/krypto431/pfk.go
index 9ede30b..97eb916 100644
--- a/cmd/krypto431/pfk.go
+++ b/cmd/krypto431/pfk.go
@@ -71,7 +71,10 @@ func managePFK(c *cli.Context) error {
 			if err != nil {
 				return err
 			}
-			fmt.Printf("New random PFK for %s: %s"+LineBreak, o.change, newPFK)
+			_, err = fmt.Printf("New random PFK for %s: %s"+LineBreak, o.change, newPFK)
+			if err != nil {
+				return err
+			}
 			err = k.Save()
 			if err != nil {
 				return err
-- 
2.43.0


From ba71ffe7087001272913cd692890b5848a2fe6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:36 +0000
Subject: [PATCH 33/36] fix: refuse a random and a given new key together

---
 cmd/krypto431/pfk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/krypto431/pfk.go b/cmd/krypto431/pfk.go
index 97eb916..fef73c2 100644
--- a/cmd/krypto431/pfk.go
+++ b/cmd/krypto431/pfk.go
@@ -54,6 +54,8 @@ func managePFK(c *cli.Context) error {
 
 		if c.IsSet(oRandom) && o.random && c.IsSet(oNew) {
 			return fmt.Errorf("can not use both --%s and --%s, choose one", oRandom, oNew)
+		} else if c.IsSet(oRandom) && o.random && c.IsSet(oNewPFK) {
+			return fmt.Errorf("can not use both --%s and --%s, choose one", oRandom, oNewPFK)
 		} else if c.IsSet(oNewPFK) && c.IsSet(oNew) {
 			return fmt.Errorf("can not use both --%s and --%s, choose one", oNewPFK, oNew)
 		} else if c.IsSet(oRandom) && o.random {
-- 
2.43.0


From 14fcbbf8dec0a5d0ccf5315860c36a15bc7fa9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:20 +0000
Subject: [PATCH 34/36] fix: refuse to load a persistence file with data after
 the end of the store

---
 persistence.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index e5f8eaa..df832bc 100644
--- a/persistence.go
+++ b/persistence.go
@@ -1,6 +1,7 @@
 package krypto431
 
 import (
+	"bufio"
 	"bytes"
 	"compress/gzip"
 	"crypto/sha256"
@@ -45,6 +46,7 @@ var (
 	ErrInvalidPFK     = errors.New("persistence file key is invalid, must be 32 bytes long")
 	ErrPasswordInput  = errors.New("password input error")
 	ErrCopyKeyFailure = errors.New("copy key failure")
+	ErrTrailingData   = errors.New("there is data after the end of the persisted instance")
 )
 
 // DerivePFKFromPassword uses PBKDF2 to produce the 32 byte long key used to
@@ -510,11 +512,15 @@ func (k *Krypto431) Load() error {
 		return err
 	}
 	defer decrypter.Close()
-	fgz, err := gzip.NewReader(decrypter)
+	// The gzip reader does not read beyond the end of the compressed stream when
+	// given an io.ByteReader.
+	decrypted := bufio.NewReader(decrypter)
+	fgz, err := gzip.NewReader(decrypted)
 	if err != nil {
 		return err
 	}
 	defer fgz.Close()
+	fgz.Multistream(false)
 	// Decode into a new instance. Decoding into one that already has keys or
 	// messages merges what is persisted with what is there.
 	loaded := Krypto431{
@@ -534,6 +540,14 @@ func (k *Krypto431) Load() error {
 	if err != nil {
 		return err
 	}
+	// There must not be anything after it, not even another store.
+	_, err = decrypted.ReadByte()
+	if err != io.EOF {
+		if err == nil {
+			err = ErrTrailingData
+		}
+		return err
+	}
 	k.GroupSize = loaded.GroupSize
 	k.KeyLength = loaded.KeyLength
 	k.Columns = loaded.Columns
-- 
2.43.0


From 7df811bf747246a7570754267c53e3ed35e60fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:34 +0000
Subject: [PATCH 35/36] fix: list keys of other group sizes than the instance's
 in columns

---
 functions.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/functions.go b/functions.go
index 8588ce5..34a93a8 100644
--- a/functions.go
+++ b/functions.go
@@ -293,9 +293,9 @@ func predictColumnSizesOfKeys(keys []*Key) (columnSizes [7]int) {
 		if keys[0] == nil {
 			return
 		}
-		// Just assume key length is the instance's group size of the first key in
-		// the slice.
-		columnSizes[0] = keys[0].instance.GroupSize
+		// ID header is the initial length of the id column, ids are normally as
+		// long as the group size
+		columnSizes[0] = len("ID")
 		// Keepers header is the initial length of the keepers column
 		columnSizes[1] = len("KEEPERS")
 		// Created and Expires are fixed length
@@ -308,6 +308,9 @@ func predictColumnSizesOfKeys(keys []*Key) (columnSizes [7]int) {
 			if keys[i] == nil {
 				continue
 			}
+			if columnSizes[0] < len(keys[i].Id) {
+				columnSizes[0] = len(keys[i].Id)
+			}
 			var keepersLength int
 			if len(keys[i].Keepers) == 0 {
 				keepersLength = len("Anonymous")
-- 
2.43.0


From 9d51d453c49d66401768ac62c4ac5b5fb5648158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:34 +0000
Subject: [PATCH 36/36] fix: list messages without a sender in columns

---
 functions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/functions.go b/functions.go
index 34a93a8..0ba5f72 100644
--- a/functions.go
+++ b/functions.go
@@ -366,6 +366,9 @@ func predictColumnSizesOfMessages(messages []*Message) (columnSizes [5]int) {
 			}
 		}
 		fromLen := len(messages[i].From)
+		if fromLen == 0 {
+			fromLen = len(NilRunes)
+		}
 		if columnSizes[3] < fromLen {
 			columnSizes[3] = fromLen
 		}
-- 
2.43.0

