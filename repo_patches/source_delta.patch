From 37719808869c883c4e38f9695a5d53078f95406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 01/11] fix: return stored empty values from Bolt.Get

A stored empty value was reported as ErrNotFound by Get, although Put and
Update treat it as present.
---
 io/bolt.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 929aef8..d66c9a8 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -68,15 +68,17 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
-		out = append(out, b.Get(key)...)
+		value := b.Get(key)
+		if value == nil {
+			return ErrNotFound
+		}
+		// The value is only valid during the transaction, so it needs to be copied.
+		out = append([]byte{}, value...)
 		return nil
 	})
 	if err != nil {
 		return nil, err
 	}
-	if out == nil {
-		return nil, ErrNotFound
-	}
 	return out, nil
 }
 
-- 
2.43.0


From e29ebabe6d72bf48632fed2cefff0dc3aeb35bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 02/11] fix: do not write into the caller's ID slice in Bolt

Appending the data type directly to the ID writes into the spare capacity of
the caller's slice, which corrupts memory shared with other callers.
---
 io/bolt.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index d66c9a8..99c75c7 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -52,8 +52,17 @@ func NewBolt(path string) (Bolt, error) {
 	return Bolt{store, objectBucket}, nil
 }
 
+// boltKey returns the key under which data is stored. The ID is copied, as appending to it directly
+// could overwrite memory that belongs to the caller.
+func boltKey(id []byte, dataType DataType) []byte {
+	suffix := dataType.Bytes()
+	key := make([]byte, 0, len(id)+len(suffix))
+	key = append(key, id...)
+	return append(key, suffix...)
+}
+
 func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) != nil {
@@ -64,7 +73,7 @@ func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 }
 
 func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
@@ -83,7 +92,7 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 }
 
 func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) == nil {
@@ -94,7 +103,7 @@ func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []by
 }
 
 func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		return b.Delete(key)
-- 
2.43.0


From 5fb1d8149eb01842cf6209c93dbcb3762e9d3448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 03/11] fix: make Mem operations atomic and copy the stored
 data

Put and Update checked for presence and stored in two separate steps, so two
overlapping Puts of one key could both succeed and an Update overlapping a
Delete could bring deleted data back. Data was also stored and returned without
copying it, sharing memory between callers and the store.
---
 io/mem.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index 18a2bd1..5cd15ad 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -23,12 +23,13 @@ import (
 
 // Mem implements an in-memory version of an IO Provider.
 type Mem struct {
-	data sync.Map
+	mu   sync.RWMutex
+	data map[string][]byte
 }
 
 // NewMem creates a new in-memory IO Provider.
 func NewMem() Mem {
-	return Mem{sync.Map{}}
+	return Mem{data: make(map[string][]byte)}
 }
 
 func newKey(id []byte, dataType DataType) string {
@@ -38,34 +39,58 @@ func newKey(id []byte, dataType DataType) string {
 
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
-	if _, ok := m.data.Load(key); ok {
+
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
+	if _, ok := m.data[key]; ok {
 		return ErrAlreadyExists
 	}
-	m.data.Store(key, data)
+	m.store(key, data)
 	return nil
 }
 
 func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
 	key := newKey(id, dataType)
-	out, ok := m.data.Load(key)
+
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
+	data, ok := m.data[key]
 	if !ok {
 		return nil, ErrNotFound
 	}
-	data := out.([]byte)
-	return data, nil
+	return append([]byte{}, data...), nil
 }
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
-	if _, ok := m.data.Load(key); !ok {
+
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
+	if _, ok := m.data[key]; !ok {
 		return ErrNotFound
 	}
-	m.data.Store(key, data)
+	m.store(key, data)
 	return nil
 }
 
 func (m *Mem) Delete(_ context.Context, id []byte, dataType DataType) error {
 	key := newKey(id, dataType)
-	m.data.Delete(key)
+
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
+	delete(m.data, key)
 	return nil
 }
+
+// store saves a copy of the data, as the caller is free to reuse its memory after the call. The lock
+// must be held for writing.
+func (m *Mem) store(key string, data []byte) {
+	if m.data == nil {
+		m.data = make(map[string][]byte)
+	}
+	m.data[key] = append([]byte{}, data...)
+}
-- 
2.43.0


From 8ca073645478fc1f795dbb3dd196169432325a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 04/11] fix: do not write into the caller's group slice in
 Encrypt

Appending the caller's ID to the variadic groups argument writes into the spare
capacity of the caller's slice. Concurrent callers sharing such a slice could
give each other access to their objects.
---
 d1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d1.go b/d1.go
index e05c4cd..2baf70e 100644
--- a/d1.go
+++ b/d1.go
@@ -139,7 +139,8 @@ func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, gro
 
 	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
 	access := data.NewAccess(wrappedDEK)
-	access.AddGroups(append(groups, identity.ID)...)
+	access.AddGroups(groups...)
+	access.AddGroups(identity.ID)
 
 	log.Ctx(ctx).Debug().Msg("sealing access")
 	sealedAccess, err := access.Seal(oid, d.accessCryptor)
-- 
2.43.0


From 7e0068e3d9eaa6d64f3fd8ebe417d605c4856a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 05/11] fix: bind stored users and groups to the ID they are
 fetched under

The ID authenticated on unsealing was taken from the stored record itself, so a
record copied over another user's or group's record was accepted, giving that
user the other's password, scopes and groups.
---
 id/standalone.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/id/standalone.go b/id/standalone.go
index 53ac7d2..897a91b 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -374,6 +374,9 @@ func (s *Standalone) getUser(ctx context.Context, uid string) (*User, error) {
 		return nil, err
 	}
 
+	// The stored ID is not trusted, as the record could belong to another user.
+	user.UID = uid
+
 	log.Ctx(ctx).Debug().Msg("unsealing user")
 	plainUser, err := user.unseal(s.userCryptor)
 	if err != nil {
@@ -420,6 +423,9 @@ func (s *Standalone) getGroup(ctx context.Context, gid string) (*Group, error) {
 		return nil, err
 	}
 
+	// The stored ID is not trusted, as the record could belong to another group.
+	group.GID = gid
+
 	log.Ctx(ctx).Debug().Msg("unsealing group")
 	plainGroup, err := group.unseal(s.groupCryptor)
 	if err != nil {
-- 
2.43.0


From b67e4fbd6b095c9a95fff0e181be8660c5b7d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 06/11] fix: only accept groups in AddUserToGroups

The membership check also accepted the caller's own user ID as a group. Adding a
user to such a non-existing group made every later authentication of that user
fail.
---
 id/standalone.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/id/standalone.go b/id/standalone.go
index 897a91b..4364446 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -219,9 +219,8 @@ func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gid
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
 	for _, gid := range gids {
-		if _, ok := callerGroups[gid]; !ok {
+		if _, ok := identity.Groups[gid]; !ok {
 			return ErrNotAuthorized
 		}
 	}
-- 
2.43.0


From 6e8ac57199e8e65de21d9ebdee7628fac6c4e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 07/11] fix: copy the index key in NewSecureIndex

The instance kept the slice of the key provider, so reusing that memory changed
the key of the running instance.
---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index 098572f..6873304 100644
--- a/index/index.go
+++ b/index/index.go
@@ -72,7 +72,7 @@ func NewSecureIndex(ctx context.Context, keyProvider key.Provider, ioProvider io
 	return SecureIndex{
 		ioProvider: ioProvider,
 		idProvider: idProvider,
-		indexKey:   keys.IEK,
+		indexKey:   append([]byte{}, keys.IEK...),
 	}, nil
 }
 
-- 
2.43.0


From 576abe5f24d6731cd6d90c476af244f572da8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 08/11] fix: copy the logger's context in CopyCtxLogger

A shallow copy shares the backing array of the log context, so concurrent calls
using the same logger overwrote each other's fields.
---
 log/log.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 3f3f713..9ccc5d8 100644
--- a/log/log.go
+++ b/log/log.go
@@ -24,7 +24,8 @@ import (
 // CopyCtxLogger creates a new context with a copy of any logger found in the context. This is
 // useful when we don't want to pollute the caller's log context.
 func CopyCtxLogger(ctx context.Context) context.Context {
-	l := *zerolog.Ctx(ctx)
+	// Copying the struct is not enough, as the copies would share the memory of the log context.
+	l := zerolog.Ctx(ctx).With().Logger()
 	return l.WithContext(ctx)
 }
 
-- 
2.43.0


From c642b86cfa23121809c057ddca674837d5b55879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 09/11] fix: keep leftovers of interrupted index deletions out
 of the chain

A Delete interrupted between overwriting a node and deleting the next one leaves
the next node behind. Once later deletions had shortened the chain, an Add could
link to that leftover, and a deleted pair was returned by Search again.
---
 index/index.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index 6873304..53c9eaf 100644
--- a/index/index.go
+++ b/index/index.go
@@ -104,7 +104,11 @@ func (i *SecureIndex) Add(ctx context.Context, token, keyword, identifier string
 		return err
 	}
 
-	newNode := data.Node{Identifier: identifier, NextCounter: last.NextCounter + 1}
+	newNode := data.Node{Identifier: identifier}
+	newNode.NextCounter, err = i.getFreeCounter(ctx, last.NextCounter+1, tagger)
+	if err != nil {
+		return err
+	}
 
 	sealedNode, err := newNode.Seal(label, cryptor)
 	if err != nil {
@@ -274,6 +278,29 @@ func (i *SecureIndex) getLastNode(ctx context.Context, tagger crypto.TaggerInter
 	}
 }
 
+// getFreeCounter returns the first counter, starting with the one provided, whose label is not in use.
+// A label after the last Node can be in use if a previous Delete was interrupted between overwriting a
+// Node and deleting the next one. Such a leftover Node must not become part of the chain again.
+func (i *SecureIndex) getFreeCounter(ctx context.Context, counter uint64, tagger crypto.TaggerInterface) (uint64, error) {
+	for {
+		node := data.Node{NextCounter: counter}
+		label, err := node.NextLabel(tagger)
+		if err != nil {
+			return 0, err
+		}
+
+		_, err = i.getSealedNode(ctx, label)
+		if errors.Is(err, ErrNodeNotFound) {
+			return counter, nil
+		}
+		if err != nil {
+			return 0, err
+		}
+
+		counter++
+	}
+}
+
 // getNextNode returns the next Node, given a current Node.
 func (i *SecureIndex) getNextNode(ctx context.Context, currentNode data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (data.Node, error) {
 	log.Ctx(ctx).Debug().Msg("getting next node")
-- 
2.43.0


From f2ce72141ed356d7664cb9a14b1669fdb51d19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 10/11] fix: copy the keys in the static key provider

Static shared its key slices with its creator and with everyone calling GetKeys,
so any of them could change the keys used by later instances.
---
 key/static.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/key/static.go b/key/static.go
index 3cb4c4e..762174b 100644
--- a/key/static.go
+++ b/key/static.go
@@ -26,10 +26,20 @@ type Static struct {
 
 // NewStatic creates a new Static key provider which returns the given Keys.
 func NewStatic(keys Keys) Static {
-	return Static{keys}
+	return Static{copyKeys(keys)}
 }
 
 // GetKeys returns the static set of keys.
 func (s *Static) GetKeys(_ context.Context) (Keys, error) {
-	return s.keys, nil
+	return copyKeys(s.keys), nil
+}
+
+// copyKeys returns a copy of the keys which shares no memory with the original.
+func copyKeys(keys Keys) Keys {
+	return Keys{
+		KEK: append([]byte(nil), keys.KEK...),
+		AEK: append([]byte(nil), keys.AEK...),
+		TEK: append([]byte(nil), keys.TEK...),
+		IEK: append([]byte(nil), keys.IEK...),
+	}
 }
-- 
2.43.0


From f5695d8c17dcf45bd7c6e056072ab7b53ef3d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:03 +0000
Subject: [PATCH 11/11] fix: close the database if NewBolt fails

---
 io/bolt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/io/bolt.go b/io/bolt.go
index 99c75c7..ba04fc6 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -46,6 +46,8 @@ func NewBolt(path string) (Bolt, error) {
 		return nil
 	})
 	if err != nil {
+		// Release the file, so that opening it can be tried again.
+		_ = store.Close()
 		return Bolt{}, err
 	}
 
-- 
2.43.0

