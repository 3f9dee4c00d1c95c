From 26dc1aedef3a2167069f11806be513ed37acd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 01/25] fix: delegated group management loses the requestor's
 identity

The prerequisites check validated the token into a context that was
then dropped, so the membership based fallback always looked up an
empty entity ID and delegated management could never be used.
---
 internal/rpc2/group.go | 21 +++++++++++----------
 internal/rpc2/util.go  | 26 ++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index bb90957..df93d11 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -55,8 +55,8 @@ func (s *Server) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty
 // untyped metadata.
 func (s *Server) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
-	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	ctx, err := s.mutablePrequisites(ctx, types.Capability_MODIFY_GROUP_META)
+	if err != nil && !s.managementDelegated(ctx, err, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -134,9 +134,10 @@ func (s *Server) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfString
 	}
 
 	if r.GetAction() != pb.Action_READ {
-		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
+		var err error
+		ctx, err = s.mutablePrequisites(ctx, types.Capability_MODIFY_GROUP_META)
 		g := types.Group{Name: proto.String(r.GetTarget())}
-		if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &g) {
+		if err != nil && !s.managementDelegated(ctx, err, &g) {
 			return &pb.ListOfStrings{}, err
 		}
 	}
@@ -330,8 +331,8 @@ func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empt
 func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
 
-	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	ctx, err := s.mutablePrequisites(ctx, types.Capability_MODIFY_GROUP_META)
+	if err != nil && !s.managementDelegated(ctx, err, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -369,10 +370,10 @@ func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest)
 func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
 	e := r.GetEntity()
 
-	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
+	ctx, preErr := s.mutablePrequisites(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.managementDelegated(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
@@ -399,10 +400,10 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
 	e := r.GetEntity()
 
-	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
+	ctx, preErr := s.mutablePrequisites(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.managementDelegated(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index f1517d9..3a2e228 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -193,23 +193,41 @@ func (s *Server) manageByMembership(entityID string, g *types.Group) bool {
 // such as the server being in a writeable mode, and the correct
 // capability being present in a valid token.
 func (s *Server) mutablePrequisitesMet(ctx context.Context, c types.Capability) error {
+	_, err := s.mutablePrequisites(ctx, c)
+	return err
+}
+
+// mutablePrequisites performs the checks of mutablePrequisitesMet and
+// additionally returns the context, which will contain the claims of
+// the token if the token was valid, even if the claims did not include
+// the requested capability.
+func (s *Server) mutablePrequisites(ctx context.Context, c types.Capability) (context.Context, error) {
 	if s.readonly {
 		s.log.Warn("Mutable request in read-only mode!",
 			"method", "EntityUM",
 			"client", getClientName(ctx),
 			"service", getServiceName(ctx),
 		)
-		return ErrReadOnly
+		return ctx, ErrReadOnly
 	}
 
 	// Token validation and authorization
 	var err error
 	ctx, err = s.checkToken(ctx)
 	if err != nil {
-		return err
+		return ctx, err
 	}
 	if err := s.isAuthorized(ctx, c); err != nil {
-		return err
+		return ctx, err
 	}
-	return nil
+	return ctx, nil
+}
+
+// managementDelegated checks if a request which failed the mutable
+// prerequisites with err may proceed anyway because the requestor is
+// able to manage the group by membership.  This only substitutes for a
+// missing capability; it never applies to a server in read-only mode
+// or to a request without a valid token.
+func (s *Server) managementDelegated(ctx context.Context, err error, g *types.Group) bool {
+	return err == ErrRequestorUnqualified && s.manageByMembership(getTokenClaims(ctx).EntityID, g)
 }
-- 
2.43.0


From d2c52840b485ebd0ea56d1d729adbceab47c02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 02/25] fix: stale rule relations can make the resolver recurse
 forever

Relations were only ever added, so dropping A->B and then adding B->A
left a cycle in the cascade map and crashed the server.
---
 internal/mresolver/memberships.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 6ca6517..888ba49 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -55,6 +55,11 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		mr.atom.ga[affectee][affector] = struct{}{}
 	}
 	mr.gMutex.Lock()
+	// The rules are a complete replacement, so any relation from a
+	// prior version of this group no longer applies.
+	for _, affectors := range mr.atom.ga {
+		delete(affectors, group)
+	}
 	for _, g := range include {
 		addAffector(g, group)
 	}
-- 
2.43.0


From cf1f37c1d58e3cf3745a8bb4c1a4b2a2437f906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 03/25] fix: resolver maps are read without holding their lock

MembersOfGroup and resolveChanges iterated maps that are concurrently
written by the storage callbacks.
---
 internal/mresolver/memberships.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 888ba49..183d5fd 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -76,9 +76,12 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 func (mr *MResolver) resolveChanges(group string) {
 	mr.Resolve(group)
 	mr.gMutex.RLock()
-	cascade := mr.atom.ga[group]
+	cascade := make([]string, 0, len(mr.atom.ga[group]))
+	for g := range mr.atom.ga[group] {
+		cascade = append(cascade, g)
+	}
 	mr.gMutex.RUnlock()
-	for g := range cascade {
+	for _, g := range cascade {
 		mr.resolveChanges(g)
 	}
 }
@@ -199,6 +202,8 @@ func (mr *MResolver) MembersOfGroup(group string) []string {
 	if !ok {
 		return []string{}
 	}
+	mr.uMutex.RLock()
+	defer mr.uMutex.RUnlock()
 	return exp.FilterValues(mr.atom.dm)
 }
 
-- 
2.43.0


From e8b4ce2674d158ad31b72d81e101a993371acfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:26 +0000
Subject: [PATCH 04/25] fix: a group rule that targets the group itself is not
 detected as a cycle

Including a group in itself was accepted and saved, after which the
resolver recursed without bound.
---
 internal/tree/hooks/check-expansion-cycle.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tree/hooks/check-expansion-cycle.go b/internal/tree/hooks/check-expansion-cycle.go
index f19d07f..5ebbd27 100644
--- a/internal/tree/hooks/check-expansion-cycle.go
+++ b/internal/tree/hooks/check-expansion-cycle.go
@@ -30,6 +30,11 @@ func (cec *CheckExpansionCycles) Run(g, dg *pb.Group) error {
 		if parts[0] == "DROP" {
 			continue
 		}
+		// A group that includes or excludes itself is the
+		// shortest possible cycle.
+		if parts[1] == g.GetName() {
+			return tree.ErrExistingExpansion
+		}
 		child, err := cec.LoadGroup(parts[1])
 		if err != nil {
 			return err
-- 
2.43.0


From 026e439ca1846455159488fe723cd5bd08df885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 05/25] fix: group metadata updates can grant capabilities and
 bypass rule checks

Capabilities, expansions, untyped metadata and KV data each have a
dedicated mechanism and in some cases need a stronger capability.
---
 internal/tree/hooks/merge-group-meta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tree/hooks/merge-group-meta.go b/internal/tree/hooks/merge-group-meta.go
index 6c8ac9f..78ff841 100644
--- a/internal/tree/hooks/merge-group-meta.go
+++ b/internal/tree/hooks/merge-group-meta.go
@@ -23,6 +23,10 @@ func (*MergeGroupMeta) Run(g, dg *pb.Group) error {
 	// metadata this way, so we null those out here.
 	dg.Name = nil
 	dg.Number = nil
+	dg.Capabilities = nil
+	dg.Expansions = nil
+	dg.UntypedMeta = nil
+	dg.KV = nil
 
 	proto.Merge(g, dg)
 	return nil
-- 
2.43.0


From da8c8861036e84ab2b184727c8fe8c7d17a97043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 06/25] fix: entity metadata updates can lock, unlock and write
 KV data

Locking and unlocking have their own capabilities, and merging KV data
appends duplicate keys.
---
 internal/tree/hooks/merge-entity-meta.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tree/hooks/merge-entity-meta.go b/internal/tree/hooks/merge-entity-meta.go
index e5024f1..c2925e5 100644
--- a/internal/tree/hooks/merge-entity-meta.go
+++ b/internal/tree/hooks/merge-entity-meta.go
@@ -25,6 +25,8 @@ func (*MergeEntityMeta) Run(e, de *pb.Entity) error {
 	de.Meta.Groups = nil
 	de.Meta.Keys = nil
 	de.Meta.UntypedMeta = nil
+	de.Meta.Locked = nil
+	de.Meta.KV = nil
 
 	proto.Merge(e, de)
 	return nil
-- 
2.43.0


From 2814770cd2311016084c7ef178edc5624e6f3f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 07/25] fix: requests without a message body crash the server

EntityUpdate without metadata and GroupUpdate without a group
dereferenced a nil pointer, as did AuthGetToken without an entity ID.
---
 internal/rpc2/auth.go                    | 2 +-
 internal/tree/group.go                   | 3 +++
 internal/tree/hooks/merge-entity-meta.go | 5 +++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index b0f8cb4..873677c 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -37,7 +37,7 @@ func (s *Server) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthR
 		return &pb.AuthResult{}, err
 	}
 
-	caps := s.getCapabilitiesForEntity(*r.Entity.ID)
+	caps := s.getCapabilitiesForEntity(r.GetEntity().GetID())
 
 	// Generate Token
 	tkn, err := s.Generate(
diff --git a/internal/tree/group.go b/internal/tree/group.go
index 48933b3..589d4a4 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -52,6 +52,9 @@ func (m *Manager) DestroyGroup(name string) error {
 // information is not mutable and so that information is not merged
 // in.
 func (m *Manager) UpdateGroupMeta(name string, update *pb.Group) error {
+	if update == nil {
+		update = &pb.Group{}
+	}
 	update.Name = &name
 	_, err := m.RunGroupChain("MERGE-METADATA", update)
 	return err
diff --git a/internal/tree/hooks/merge-entity-meta.go b/internal/tree/hooks/merge-entity-meta.go
index c2925e5..a432ee3 100644
--- a/internal/tree/hooks/merge-entity-meta.go
+++ b/internal/tree/hooks/merge-entity-meta.go
@@ -19,6 +19,11 @@ type MergeEntityMeta struct {
 // Select fields are nil-ed out beforehand since they either require a
 // specialized mechanism to edit, or a specialized capability.
 func (*MergeEntityMeta) Run(e, de *pb.Entity) error {
+	// Without any metadata there is nothing to merge.
+	if de.Meta == nil {
+		return nil
+	}
+
 	// There's a few fields that can't be set by merging the
 	// metadata this way, so we null those out here.
 	de.Meta.Capabilities = nil
-- 
2.43.0


From c480d977cfed66b30ce5ded61c8946e47a05ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 08/25] fix: a failed existence check allows an existing entity
 or group to be overwritten

Any load error, not just a missing value, was taken as permission to
create the entity or group from scratch.
---
 internal/tree/hooks/fail-on-existing-entity.go |  9 +++++++--
 internal/tree/hooks/fail-on-existing-group.go  | 12 +++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/internal/tree/hooks/fail-on-existing-entity.go b/internal/tree/hooks/fail-on-existing-entity.go
index 45a57c1..b8a3cf8 100644
--- a/internal/tree/hooks/fail-on-existing-entity.go
+++ b/internal/tree/hooks/fail-on-existing-entity.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -20,10 +21,14 @@ type FailOnExistingEntity struct {
 // from the storage backend will be returned to the caller).
 func (l *FailOnExistingEntity) Run(e, de *pb.Entity) error {
 	_, err := l.LoadEntity(de.GetID())
-	if err == nil {
+	switch err {
+	case nil:
 		return tree.ErrDuplicateEntityID
+	case db.ErrUnknownEntity:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
diff --git a/internal/tree/hooks/fail-on-existing-group.go b/internal/tree/hooks/fail-on-existing-group.go
index 94e8563..ffd965d 100644
--- a/internal/tree/hooks/fail-on-existing-group.go
+++ b/internal/tree/hooks/fail-on-existing-group.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -16,12 +17,17 @@ type FailOnExistingGroup struct {
 
 // Run contacts the datastore and attempts to load the group specified
 // by dg.  If the group loads successfully then an error is returned,
-// in other cases nil is returned.
+// errors from the storage backend will be returned to the caller.
 func (f *FailOnExistingGroup) Run(g, dg *pb.Group) error {
-	if _, err := f.LoadGroup(dg.GetName()); err == nil {
+	_, err := f.LoadGroup(dg.GetName())
+	switch err {
+	case nil:
 		return tree.ErrDuplicateGroupName
+	case db.ErrUnknownGroup:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
-- 
2.43.0


From a135df9940d274255b33fb0eb446a64d392d381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 09/25] fix: entity IDs and group names can address keys
 outside of their namespace

An entity named "../groups/x" was stored as the group x, since the ID
was joined to the namespace without checking where it ends up.
---
 internal/db/db.go     | 49 +++++++++++++++++++++++++++++++++++++------
 internal/db/errors.go |  5 +++++
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/internal/db/db.go b/internal/db/db.go
index 51053d4..90d34ca 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -45,7 +45,11 @@ func (db *DB) DiscoverEntityIDs() ([]string, error) {
 
 // LoadEntity retrieves a single entity from the kv store.
 func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
-	b, err := db.kv.Get(path.Join("/entities", ID))
+	k, err := keyForID("/entities", ID)
+	if err != nil {
+		return nil, ErrUnknownEntity
+	}
+	b, err := db.kv.Get(k)
 	if err == ErrNoValue {
 		return nil, ErrUnknownEntity
 	}
@@ -70,7 +74,12 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 		return err
 	}
 
-	if err := db.kv.Put(path.Join("/entities", e.GetID()), b); err != nil {
+	k, err := keyForID("/entities", e.GetID())
+	if err != nil {
+		db.log.Warn("Refusing to store entity", "error", err)
+		return err
+	}
+	if err := db.kv.Put(k, b); err != nil {
 		db.log.Warn("Error storing entity", "error", err)
 		return ErrInternalError
 	}
@@ -79,7 +88,11 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 
 // DeleteEntity tries to delete an entity that already exists.
 func (db *DB) DeleteEntity(ID string) error {
-	err := db.kv.Del(path.Join("/entities", ID))
+	k, err := keyForID("/entities", ID)
+	if err != nil {
+		return ErrUnknownEntity
+	}
+	err = db.kv.Del(k)
 	if err == ErrNoValue {
 		return ErrUnknownEntity
 	}
@@ -94,7 +107,11 @@ func (db *DB) DiscoverGroupNames() ([]string, error) {
 
 // LoadGroup retrieves a single group from the kv store.
 func (db *DB) LoadGroup(ID string) (*types.Group, error) {
-	b, err := db.kv.Get(path.Join("/groups", ID))
+	k, err := keyForID("/groups", ID)
+	if err != nil {
+		return nil, ErrUnknownGroup
+	}
+	b, err := db.kv.Get(k)
 	if err == ErrNoValue {
 		return nil, ErrUnknownGroup
 	}
@@ -119,7 +136,12 @@ func (db *DB) SaveGroup(g *types.Group) error {
 		return err
 	}
 
-	if err := db.kv.Put(path.Join("/groups", g.GetName()), b); err != nil {
+	k, err := keyForID("/groups", g.GetName())
+	if err != nil {
+		db.log.Warn("Refusing to store group", "error", err)
+		return err
+	}
+	if err := db.kv.Put(k, b); err != nil {
 		db.log.Warn("Error storing group", "error", err)
 		return err
 	}
@@ -128,13 +150,28 @@ func (db *DB) SaveGroup(g *types.Group) error {
 
 // DeleteGroup tries to delete an group that already exists.
 func (db *DB) DeleteGroup(ID string) error {
-	err := db.kv.Del(path.Join("/groups", ID))
+	k, err := keyForID("/groups", ID)
+	if err != nil {
+		return ErrUnknownGroup
+	}
+	err = db.kv.Del(k)
 	if err == ErrNoValue {
 		return ErrUnknownGroup
 	}
 	return err
 }
 
+// keyForID maps an ID to its key in the given namespace.  IDs are a
+// single path element, anything else would allow an ID to address
+// keys outside of its own namespace.
+func keyForID(ns, ID string) (string, error) {
+	k := path.Join(ns, ID)
+	if path.Dir(k) != ns || path.Base(k) != ID {
+		return "", ErrBadID
+	}
+	return k, nil
+}
+
 // Shutdown is called to disconnect the KV store from any other
 // systems and flush any buffers before shutting down the server.
 func (db *DB) Shutdown() {
diff --git a/internal/db/errors.go b/internal/db/errors.go
index b4bed2d..b7d3796 100644
--- a/internal/db/errors.go
+++ b/internal/db/errors.go
@@ -27,4 +27,9 @@ var (
 
 	// ErrNoValue is returned when no value exists for a given key.
 	ErrNoValue = errors.New("no value exists")
+
+	// ErrBadID is returned if an ID or name cannot be mapped to a
+	// key in the KV store, for example because it contains a path
+	// separator.
+	ErrBadID = errors.New("The specified ID is not a valid key")
 )
-- 
2.43.0


From 6a710920985831d4b70f515e48fbdd289234253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 10/25] fix: bitcask failures are reported as missing values or
 as success

A corrupt or unreadable value looked like one that never existed, and a
failed delete was reported as done.
---
 internal/db/bitcask/bitcask.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index daf0483..c5bf575 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -77,19 +77,22 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 	switch err {
 	case nil:
 		return v, nil
-	default:
+	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
+	default:
+		return nil, err
 	}
 }
 
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	// I can come up with nothing that causes this delete call to
-	// fail, up to and including nuking the entire data directory.
-	// If you can write a way to check this error and its
-	// associated test, open a PR.
-	bcs.s.Delete([]byte(k))
+	if !bcs.s.Has([]byte(k)) {
+		return db.ErrNoValue
+	}
+	if err := bcs.s.Delete([]byte(k)); err != nil {
+		return err
+	}
 	bcs.fireEventForKey(k, eventDelete)
 	return nil
 }
-- 
2.43.0


From 18b7cedda63157989dc127a67be15cef32ff13cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 11/25] fix: group KV requests report key conflicts as internal
 errors

---
 internal/rpc2/group.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index df93d11..310300a 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -232,6 +232,14 @@ func (s *Server) GroupKVAdd(ctx context.Context, r *pb.KV2Request) (*pb.Empty, e
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrKeyExists:
+		s.log.Warn("Key already exists!",
+			"method", "GroupKVAdd",
+			"group", r.GetTarget(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.Empty{}, ErrExists
 	case nil:
 		s.log.Info("Group KV Updated Dumped",
 			"group", r.GetTarget(),
@@ -269,6 +277,14 @@ func (s *Server) GroupKVDel(ctx context.Context, r *pb.KV2Request) (*pb.Empty, e
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrNoSuchKey:
+		s.log.Warn("Key does not exist!",
+			"method", "GroupKVDel",
+			"group", r.GetTarget(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.Empty{}, ErrDoesNotExist
 	case nil:
 		s.log.Info("Group KV Data Dumped",
 			"group", r.GetTarget(),
@@ -307,6 +323,14 @@ func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empt
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrNoSuchKey:
+		s.log.Warn("Key does not exist!",
+			"method", "GroupKVReplace",
+			"group", r.GetTarget(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.Empty{}, ErrDoesNotExist
 	case nil:
 		s.log.Info("Group KV Data Updated",
 			"group", r.GetTarget(),
-- 
2.43.0


From 64b1185989f9feb82535d2bf9a1212b30b7a83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 12/25] fix: group rules match other groups with a similar name

Dropping the rule for one group also dropped the rules for every group
whose name contains it, which removes exclusions, and a rule was
refused if its target was part of the name of an existing target.
---
 internal/tree/hooks/check-immediate-expansions.go |  3 ++-
 internal/tree/hooks/patch-group-expansions.go     | 11 +++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tree/hooks/check-immediate-expansions.go b/internal/tree/hooks/check-immediate-expansions.go
index 82060a6..506962b 100644
--- a/internal/tree/hooks/check-immediate-expansions.go
+++ b/internal/tree/hooks/check-immediate-expansions.go
@@ -29,7 +29,8 @@ func (cie *CheckImmediateExpansions) Run(g, dg *pb.Group) error {
 			continue
 		}
 		for k := range existing {
-			if strings.Contains(existing[k], parts[1]) {
+			current := strings.SplitN(existing[k], ":", 2)
+			if current[len(current)-1] == parts[1] {
 				return tree.ErrExistingExpansion
 			}
 		}
diff --git a/internal/tree/hooks/patch-group-expansions.go b/internal/tree/hooks/patch-group-expansions.go
index e7611b5..1ea655e 100644
--- a/internal/tree/hooks/patch-group-expansions.go
+++ b/internal/tree/hooks/patch-group-expansions.go
@@ -19,7 +19,7 @@ type PatchGroupExpansions struct {
 }
 
 // Run iterates through the expansions in dg and applies them to g.
-// DROP expansions are processed with fuzzy group name matching.
+// DROP expansions remove any expansion that targets the named group.
 func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 	exps := dg.GetExpansions()
 	for i := range exps {
@@ -27,11 +27,10 @@ func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 		if parts[0] == "INCLUDE" || parts[0] == "EXCLUDE" {
 			g.Expansions = util.PatchStringSlice(g.Expansions, exps[i], true, true)
 		} else if parts[0] == "DROP" {
-			// Patch out with fuzzy matching, this will
-			// innevitably come back to bite someone, but
-			// until then its much faster than doing
-			// strict checking on the group name.
-			g.Expansions = util.PatchStringSlice(g.Expansions, parts[1], false, false)
+			// Patch out either kind of rule for exactly
+			// the named group.
+			g.Expansions = util.PatchStringSlice(g.Expansions, "INCLUDE:"+parts[1], false, true)
+			g.Expansions = util.PatchStringSlice(g.Expansions, "EXCLUDE:"+parts[1], false, true)
 		}
 	}
 	sort.Strings(g.Expansions)
-- 
2.43.0


From 8db8a914a6c6d52bd4da642fcb4b6b19dcf4670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 13/25] fix: listing the members of an unknown group succeeds
 with no members

---
 internal/rpc2/group.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index 310300a..ff49db4 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -495,7 +495,13 @@ func (s *Server) GroupDestroy(ctx context.Context, r *pb.GroupRequest) (*pb.Empt
 func (s *Server) GroupMembers(ctx context.Context, r *pb.GroupRequest) (*pb.ListOfEntities, error) {
 	g := r.GetGroup()
 
-	members, err := s.ListMembers(g.GetName())
+	// Only the storage layer knows if the group exists at all, an
+	// unknown group otherwise just has no members.
+	var members []*types.Entity
+	_, err := s.FetchGroup(g.GetName())
+	if err == nil {
+		members, err = s.ListMembers(g.GetName())
+	}
 	switch err {
 	case db.ErrUnknownGroup:
 		s.log.Warn("Group does not exist!",
-- 
2.43.0


From ea1332a25e4f1df4f3cbfd0360fdd867cf50814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 14/25] fix: adding a key that is part of an existing key is
 silently ignored

---
 internal/tree/hooks/entity-keys.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index 7f70d71..df395e5 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -15,10 +15,11 @@ type ManageEntityKeys struct {
 }
 
 // Run iterates on all keys in the request and adds or removes them
-// from the entity's keystore.
+// from the entity's keystore.  Only removal matches partial keys, since
+// the request may contain just the type or just the key itself.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, false)
+		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, mek.mode)
 	}
 	return nil
 }
-- 
2.43.0


From b446c9f3259cb7779b6a99462378adaceddec35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:53 +0000
Subject: [PATCH 15/25] fix: an empty token is issued when signing fails

---
 internal/token/jwt/rsa.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 193ef19..21123a8 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -77,10 +77,13 @@ func (s *RSATokenService) Generate(claims token.Claims, config token.Config) (st
 
 	tkn := jwt.NewWithClaims(jwt.SigningMethodRS512, c)
 
-	// We discard this error as there is no meaningful error that
-	// can be returned from here.  Basically the FPU would need to
-	// fail for this to have a problem...
-	ss, _ := tkn.SignedString(s.privateKey)
+	// Signing fails if the key is too small for the signature, in
+	// which case there is no token to return.
+	ss, err := tkn.SignedString(s.privateKey)
+	if err != nil {
+		s.log.Error("Token could not be signed", "error", err)
+		return "", token.ErrInternalError
+	}
 	return ss, nil
 }
 
-- 
2.43.0


From a05af8dac2902af853fa43f1a4c36b963645d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:27 +0000
Subject: [PATCH 16/25] fix: key generation overwrites an existing private key

---
 internal/token/jwt/rsa.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 21123a8..fd348da 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -306,7 +306,17 @@ func marshalPrivateKey(key *rsa.PrivateKey, path string) error {
 			Bytes: x509.MarshalPKCS1PrivateKey(key),
 		},
 	)
-	if err := ioutil.WriteFile(path, pridata, 0400); err != nil {
+	// The file must not exist yet: a key that is already there would
+	// be lost, and the new key would inherit that file's mode.
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0400)
+	if err != nil {
+		return token.ErrInternalError
+	}
+	if _, err := f.Write(pridata); err != nil {
+		f.Close()
+		return token.ErrInternalError
+	}
+	if err := f.Close(); err != nil {
 		return token.ErrInternalError
 	}
 
-- 
2.43.0


From 90b87ad63a54562a1266cf06bf00e9b48adb30e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:42 +0000
Subject: [PATCH 17/25] fix: unreadable directories silently have no keys

The file backend lists keys with filepath.Glob, which ignores errors
reading directories and interprets the data directory's own path as a
pattern.  Records that exist are then missing from the listing, so that
numbers in use are assigned again.
---
 internal/db/filesystem/filesystem.go | 62 +++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index c2cb2fe..b6410ab 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -17,6 +17,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	atomic "github.com/google/renameio"
@@ -140,22 +141,55 @@ func (fs *Filesystem) Del(k string) error {
 // includes a path seperator, but this should be filtered out at a
 // higher level.
 func (fs *Filesystem) Keys(f string) ([]string, error) {
-	// Discard error because the hard coded pattern cannot return
-	// an os.PathError
-	keys, _ := filepath.Glob(filepath.Join(fs.basePath, "*", "*"))
-
-	out := make([]string, len(keys))
-	i := 0
-	for _, k := range keys {
-		k, _ = filepath.Rel(fs.basePath, k)
-		k = "/" + k
-		if m, _ := filepath.Match(f, k); m {
-			out[i] = k
-			fs.l.Trace("Matched filter", "key", k)
-			i++
+	namespaces, err := readNames(fs.basePath)
+	if err != nil {
+		return nil, err
+	}
+
+	out := []string{}
+	for _, ns := range namespaces {
+		names, err := readNames(filepath.Join(fs.basePath, ns))
+		if err != nil {
+			return nil, err
+		}
+		for _, n := range names {
+			k := "/" + ns + "/" + n
+			if m, _ := filepath.Match(f, k); m {
+				out = append(out, k)
+				fs.l.Trace("Matched filter", "key", k)
+			}
 		}
 	}
-	return out[:i], nil
+	return out, nil
+}
+
+// readNames returns the sorted names of the files in a directory.  A
+// path that doesn't exist or that isn't a directory contains no files,
+// but being unable to read a directory is an error.
+func readNames(dir string) ([]string, error) {
+	fi, err := os.Stat(dir)
+	if os.IsNotExist(err) {
+		return nil, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	if !fi.IsDir() {
+		return nil, nil
+	}
+
+	d, err := os.Open(dir)
+	if err != nil {
+		return nil, err
+	}
+	defer d.Close()
+
+	names, err := d.Readdirnames(-1)
+	if err != nil {
+		return nil, err
+	}
+	sort.Strings(names)
+	return names, nil
 }
 
 // Close is required by the interface, but all operations on the
-- 
2.43.0


From 41312ea46c6b1eb7a34b245655dfe52c753fbb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:44 +0000
Subject: [PATCH 18/25] fix: a data directory that can't be examined is
 reported as mutable

The capability was advertised unless the marker file was known not to
exist, also if it could not be determined whether it exists.
---
 internal/db/filesystem/filesystem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index b6410ab..075839d 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -212,7 +212,7 @@ func (fs *Filesystem) Capabilities() []db.KVCapability {
 	// them in that this file should not be replicated to
 	// elsewhere, and what it does.
 	_, err := os.Stat(filepath.Join(fs.basePath, ".mutable"))
-	if !os.IsNotExist(err) {
+	if err == nil {
 		out = append(out, db.KVMutable)
 	}
 
-- 
2.43.0


From 1709282ded442eb930c3ef9b4d9f4abd00c1f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:54 +0000
Subject: [PATCH 19/25] fix: a plugin that failed to start crashes status
 requests

---
 internal/plugin/tree/consumer/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index 59797e8..cd24b8a 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -80,6 +80,12 @@ func (r *Ref) healthCheck() health.SubsystemStatus {
 		Status: "Plugin is OK",
 	}
 
+	if r.client == nil {
+		status.OK = false
+		status.Status = "Plugin is not running"
+		return status
+	}
+
 	err := r.client.Ping()
 	if err != nil {
 		status.OK = false
-- 
2.43.0


From 7d12eba86316dd59cefb9484a1c6788e0b5ef964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:05 +0000
Subject: [PATCH 20/25] fix: a copy truncates the target when the source can't
 be listed

---
 cmd/nsutil/db_copy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index ffb5ece..2c12ddb 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -52,6 +52,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	sourceKeys, err := source.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from source: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Source initialized, contains %d objects.\n", len(sourceKeys))
 
@@ -64,6 +65,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	targetKeys, err := target.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from target: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Target initialized, contains %d objects.\n", len(targetKeys))
 
-- 
2.43.0


From 6503bb3f19f0af973cc1d706956c9a405e7c2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:11 +0000
Subject: [PATCH 21/25] fix: a cached token is written to an existing file that
 others can read

---
 pkg/netauth/cache/fs/fs.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index 449362a..b884c48 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -39,7 +39,20 @@ func new() (cache.TokenCache, error) {
 // The file will be written with the permissions of the curent user
 // and will not be readable to other users.
 func (fc *fsCache) PutToken(owner, token string) error {
-	return ioutil.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)
+	// A file that's already there would keep its permissions, so
+	// the token always goes into a new one.
+	if err := fc.DelToken(owner); err != nil {
+		return err
+	}
+	f, err := os.OpenFile(fc.filepathFromOwner(owner), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write([]byte(token))
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // GetToken will retrieve a file of the form <owner>.<extension> and
-- 
2.43.0


From cdfda14d8c45f132c733b2f4b08ad1850047385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:29 +0000
Subject: [PATCH 22/25] fix: the token of one owner can be read and replaced
 under other names

---
 pkg/netauth/cache/fs/fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index b884c48..58cc0c4 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -10,6 +10,7 @@ package fs
 import (
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -81,10 +82,11 @@ func (fc *fsCache) DelToken(owner string) error {
 }
 
 // filepathFromOwner is a convenience function which encapsulates the
-// path selection logic for where tokens are stored.
+// path selection logic for where tokens are stored.  The owner is
+// escaped so that different owners never share a file.
 func (fc *fsCache) filepathFromOwner(owner string) string {
 	return filepath.Join(
 		fc.basepath,
-		fmt.Sprintf("%s.%s", owner, extension),
+		fmt.Sprintf("%s.%s", url.PathEscape(owner), extension),
 	)
 }
-- 
2.43.0


From 32fcc621876ab88850565cebb4a45cc0b82f8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:11 +0000
Subject: [PATCH 23/25] fix: end with a non-zero status when a command could
 not be carried out

An error of the root command (unknown commands, wrong arguments) was
printed, but the program ended with status 0.
---
 internal/ctl/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctl/root.go b/internal/ctl/root.go
index 2fdbafd..c61b6bc 100644
--- a/internal/ctl/root.go
+++ b/internal/ctl/root.go
@@ -78,6 +78,7 @@ func onInit() {
 func Execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From 5bda9c603f03092bf49930429b933498468fb470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:30 +0000
Subject: [PATCH 24/25] fix: do not log stored records

The in-memory backend logged the stored data, which holds the hashes of
secrets, with every read and write.
---
 internal/db/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/db/memory/memory.go b/internal/db/memory/memory.go
index 7287afa..b2fe885 100644
--- a/internal/db/memory/memory.go
+++ b/internal/db/memory/memory.go
@@ -54,7 +54,7 @@ func (kv *KV) SetEventFunc(ef func(db.Event)) {
 // Put stores a value
 func (kv *KV) Put(k string, v []byte) error {
 	kv.Lock()
-	kv.l.Trace("PUT", "key", k, "value", v)
+	kv.l.Trace("PUT", "key", k)
 	kv.m[k] = v
 	kv.Unlock()
 
@@ -82,7 +82,7 @@ func (kv *KV) Get(k string) ([]byte, error) {
 		kv.l.Trace("NoValue", "key", k)
 		return nil, db.ErrNoValue
 	}
-	kv.l.Trace("GET", "key", k, "value", v)
+	kv.l.Trace("GET", "key", k)
 	return v, nil
 }
 
-- 
2.43.0


From b31e9eb1baf204c33e0455a51d1a3ea7c4553fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:47 +0000
Subject: [PATCH 25/25] fix: do not crash when the user running the client is
 unknown

---
 internal/ctl/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctl/root.go b/internal/ctl/root.go
index c61b6bc..5d2f7e9 100644
--- a/internal/ctl/root.go
+++ b/internal/ctl/root.go
@@ -70,6 +70,7 @@ func onInit() {
 	user, err := user.Current()
 	if err != nil {
 		fmt.Println("Could not get default user:", err)
+		return
 	}
 	viper.SetDefault("entity", user.Username)
 }
-- 
2.43.0

