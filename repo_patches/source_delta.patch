From 5dcd4c6b7697f6f52571f2292f132c62a18fe129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 01/60] fix: let members of a managing group manage the groups
 delegated to them

The claims of the caller's token never reached the delegated management
check, so it always looked up an entity without a name and refused.
---
 internal/rpc2/group.go |  5 +++++
 internal/rpc2/util.go  | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index bb90957..747c6b3 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -54,6 +54,7 @@ func (s *Server) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty
 // GroupUpdate adjusts the metadata on a group with the exception of
 // untyped metadata.
 func (s *Server) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
+	ctx = s.withClaims(ctx)
 	g := r.GetGroup()
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
 	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
@@ -134,6 +135,7 @@ func (s *Server) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfString
 	}
 
 	if r.GetAction() != pb.Action_READ {
+		ctx = s.withClaims(ctx)
 		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
 		g := types.Group{Name: proto.String(r.GetTarget())}
 		if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &g) {
@@ -328,6 +330,7 @@ func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empt
 
 // GroupUpdateRules updates the expansion rules on a particular group.
 func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest) (*pb.Empty, error) {
+	ctx = s.withClaims(ctx)
 	g := r.GetGroup()
 
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
@@ -367,6 +370,7 @@ func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest)
 
 // GroupAddMember adds an entity directly to a group.
 func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
+	ctx = s.withClaims(ctx)
 	e := r.GetEntity()
 
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
@@ -397,6 +401,7 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 
 // GroupDelMember dels an entity directly to a group.
 func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
+	ctx = s.withClaims(ctx)
 	e := r.GetEntity()
 
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index f1517d9..6cbaee5 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -213,3 +213,16 @@ func (s *Server) mutablePrequisitesMet(ctx context.Context, c types.Capability)
 	}
 	return nil
 }
+
+// withClaims returns a context carrying the claims of the caller's
+// token, so that decisions other than capability checks, such as
+// delegated group management, can know who is calling.  If the server
+// is read-only or there is no valid token then the context is returned
+// as it was, and so identifies nobody.
+func (s *Server) withClaims(ctx context.Context) context.Context {
+	if s.readonly {
+		return ctx
+	}
+	ctx, _ = s.checkToken(ctx)
+	return ctx
+}
-- 
2.43.0


From 64d9faee96aa703f90aac05d06788736f8f50b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 02/60] fix: keep metadata updates from changing privileged
 attributes

A group update merged capabilities, membership rules, untyped metadata
and key/value data from the request; an entity update merged the lock
flag and key/value data, and crashed the server when it carried no
metadata at all.
---
 internal/tree/hooks/merge-entity-meta.go | 7 +++++++
 internal/tree/hooks/merge-group-meta.go  | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/internal/tree/hooks/merge-entity-meta.go b/internal/tree/hooks/merge-entity-meta.go
index e5024f1..4201a78 100644
--- a/internal/tree/hooks/merge-entity-meta.go
+++ b/internal/tree/hooks/merge-entity-meta.go
@@ -19,12 +19,19 @@ type MergeEntityMeta struct {
 // Select fields are nil-ed out beforehand since they either require a
 // specialized mechanism to edit, or a specialized capability.
 func (*MergeEntityMeta) Run(e, de *pb.Entity) error {
+	if de.GetMeta() == nil {
+		// There is nothing to merge.
+		return nil
+	}
+
 	// There's a few fields that can't be set by merging the
 	// metadata this way, so we null those out here.
 	de.Meta.Capabilities = nil
 	de.Meta.Groups = nil
 	de.Meta.Keys = nil
 	de.Meta.UntypedMeta = nil
+	de.Meta.KV = nil
+	de.Meta.Locked = nil
 
 	proto.Merge(e, de)
 	return nil
diff --git a/internal/tree/hooks/merge-group-meta.go b/internal/tree/hooks/merge-group-meta.go
index 6c8ac9f..78ff841 100644
--- a/internal/tree/hooks/merge-group-meta.go
+++ b/internal/tree/hooks/merge-group-meta.go
@@ -23,6 +23,10 @@ func (*MergeGroupMeta) Run(g, dg *pb.Group) error {
 	// metadata this way, so we null those out here.
 	dg.Name = nil
 	dg.Number = nil
+	dg.Capabilities = nil
+	dg.Expansions = nil
+	dg.UntypedMeta = nil
+	dg.KV = nil
 
 	proto.Merge(g, dg)
 	return nil
-- 
2.43.0


From f8124f34b1468fa888cc7a724fbe7d2bda31434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 03/60] fix: refuse membership rules that name the group itself

---
 internal/tree/hooks/check-expansion-cycle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tree/hooks/check-expansion-cycle.go b/internal/tree/hooks/check-expansion-cycle.go
index f19d07f..480d3b6 100644
--- a/internal/tree/hooks/check-expansion-cycle.go
+++ b/internal/tree/hooks/check-expansion-cycle.go
@@ -30,6 +30,10 @@ func (cec *CheckExpansionCycles) Run(g, dg *pb.Group) error {
 		if parts[0] == "DROP" {
 			continue
 		}
+		// A rule naming the group itself is the shortest cycle.
+		if parts[1] == g.GetName() {
+			return tree.ErrExistingExpansion
+		}
 		child, err := cec.LoadGroup(parts[1])
 		if err != nil {
 			return err
-- 
2.43.0


From ac88cd9f9f98743add53aaa971b73cc6e2f21910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 04/60] fix: match whole group names when adding and dropping
 membership rules

Dropping the rule for one group also dropped the rules of every group
whose name contained that name, and a rule could not be added when its
target's name was part of an existing rule.
---
 internal/tree/hooks/check-immediate-expansions.go |  3 ++-
 internal/tree/hooks/patch-group-expansions.go     | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/tree/hooks/check-immediate-expansions.go b/internal/tree/hooks/check-immediate-expansions.go
index 82060a6..c8098e6 100644
--- a/internal/tree/hooks/check-immediate-expansions.go
+++ b/internal/tree/hooks/check-immediate-expansions.go
@@ -29,7 +29,8 @@ func (cie *CheckImmediateExpansions) Run(g, dg *pb.Group) error {
 			continue
 		}
 		for k := range existing {
-			if strings.Contains(existing[k], parts[1]) {
+			ex := strings.SplitN(existing[k], ":", 2)
+			if ex[len(ex)-1] == parts[1] {
 				return tree.ErrExistingExpansion
 			}
 		}
diff --git a/internal/tree/hooks/patch-group-expansions.go b/internal/tree/hooks/patch-group-expansions.go
index e7611b5..c49a340 100644
--- a/internal/tree/hooks/patch-group-expansions.go
+++ b/internal/tree/hooks/patch-group-expansions.go
@@ -19,7 +19,7 @@ type PatchGroupExpansions struct {
 }
 
 // Run iterates through the expansions in dg and applies them to g.
-// DROP expansions are processed with fuzzy group name matching.
+// DROP expansions remove the rule that names exactly that group.
 func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 	exps := dg.GetExpansions()
 	for i := range exps {
@@ -27,11 +27,11 @@ func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 		if parts[0] == "INCLUDE" || parts[0] == "EXCLUDE" {
 			g.Expansions = util.PatchStringSlice(g.Expansions, exps[i], true, true)
 		} else if parts[0] == "DROP" {
-			// Patch out with fuzzy matching, this will
-			// innevitably come back to bite someone, but
-			// until then its much faster than doing
-			// strict checking on the group name.
-			g.Expansions = util.PatchStringSlice(g.Expansions, parts[1], false, false)
+			// Only the named group's rule goes; the name
+			// may well be a part of some other group's
+			// name.
+			g.Expansions = util.PatchStringSlice(g.Expansions, "INCLUDE:"+parts[1], false, true)
+			g.Expansions = util.PatchStringSlice(g.Expansions, "EXCLUDE:"+parts[1], false, true)
 		}
 	}
 	sort.Strings(g.Expansions)
-- 
2.43.0


From 384bd35f06b61ded78aa662bcdf1f7f31ef137aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 05/60] fix: forget which groups a group used to refer to

Re-resolving followed references that had been removed, which recursed
without end once a removed reference was re-added the other way around.
---
 internal/mresolver/memberships.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 6ca6517..161f58b 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -55,6 +55,10 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		mr.atom.ga[affectee][affector] = struct{}{}
 	}
 	mr.gMutex.Lock()
+	// Groups this one no longer refers to don't affect it any more.
+	for _, ga := range mr.atom.ga {
+		delete(ga, group)
+	}
 	for _, g := range include {
 		addAffector(g, group)
 	}
-- 
2.43.0


From 9abd6ed9f6a95adc9a28303c89f50c92bff552b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 06/60] fix: resolve memberships of groups whose rules name a
 missing group

A rule naming a destroyed group left the membership of the referring
group frozen while the server ran, and empty after the next restart.
Such a rule now contributes nobody until the group exists again.
---
 internal/mresolver/memberships.go | 43 ++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 161f58b..47efe9a 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -91,14 +91,23 @@ func (mr *MResolver) RemoveGroup(group string) {
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
 	delete(mr.atom.gt, group)
-	delete(mr.atom.ga, group)
 
 	mr.atom.gs.Del(group)
 
 	for _, ga := range mr.atom.ga {
 		delete(ga, group)
 	}
+	// The groups that refer to this one need to be resolved without
+	// it.  They remain on record in case the group comes back.
+	affected := make([]string, 0, len(mr.atom.ga[group]))
+	for g := range mr.atom.ga[group] {
+		affected = append(affected, g)
+	}
 	mr.gMutex.Unlock()
+
+	for _, g := range affected {
+		mr.resolveChanges(g)
+	}
 }
 
 // Resolve flattens out the membership tree and associated subtrees
@@ -116,6 +125,7 @@ func (mr *MResolver) Resolve(group string) error {
 
 	mr.l.Trace("Resolving Group", "group", group)
 
+	var resErr error
 	res := []bsfilter.Symbol{}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolIdent, Ident: g.self})
@@ -139,13 +149,18 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				// Nothing is known about this group,
+				// so it has no members for now.
+				resErr = err
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
 			// above call and can be retreived
-			r = mr.atom.gt[gn]
+			r, ok = mr.atom.gt[gn]
 			mr.gMutex.RUnlock()
+			if !ok {
+				r = nobody(gn)
+			}
 		}
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
@@ -168,13 +183,18 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				// Nothing is known about this group,
+				// so it has no members for now.
+				resErr = err
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
 			// above call and can be retreived
-			r = mr.atom.gt[gn]
+			r, ok = mr.atom.gt[gn]
 			mr.gMutex.RUnlock()
+			if !ok {
+				r = nobody(gn)
+			}
 		}
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
@@ -186,7 +206,18 @@ func (mr *MResolver) Resolve(group string) error {
 	mr.atom.gs.Add(group, expr)
 	mr.gMutex.Unlock()
 	mr.l.Debug("Group Resolved", "group", group, "expression", expr)
-	return nil
+	return resErr
+}
+
+// nobody is an expression that no entity satisfies, it stands in for
+// groups that the resolver knows nothing about.
+func nobody(group string) []bsfilter.Symbol {
+	return []bsfilter.Symbol{
+		{T: bsfilter.SymbolIdent, Ident: group},
+		{T: bsfilter.SymbolBinaryAnd},
+		{T: bsfilter.SymbolUnaryNot},
+		{T: bsfilter.SymbolIdent, Ident: group},
+	}
 }
 
 // MembersOfGroup returns a list of all entities that are a member of
-- 
2.43.0


From ed8a08e962fe7af600d5247ec96d9c04d9343b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 07/60] fix: do not create entities or groups over ones that
 could not be read

When the duplicate check's load failed for any reason creation went
ahead, and replaced whatever was stored under that name.
---
 internal/tree/hooks/fail-on-existing-entity.go | 4 ++++
 internal/tree/hooks/fail-on-existing-group.go  | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/tree/hooks/fail-on-existing-entity.go b/internal/tree/hooks/fail-on-existing-entity.go
index 45a57c1..fb6a7df 100644
--- a/internal/tree/hooks/fail-on-existing-entity.go
+++ b/internal/tree/hooks/fail-on-existing-entity.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -23,6 +24,9 @@ func (l *FailOnExistingEntity) Run(e, de *pb.Entity) error {
 	if err == nil {
 		return tree.ErrDuplicateEntityID
 	}
+	if err != db.ErrUnknownEntity {
+		return err
+	}
 	return nil
 }
 
diff --git a/internal/tree/hooks/fail-on-existing-group.go b/internal/tree/hooks/fail-on-existing-group.go
index 94e8563..f4315da 100644
--- a/internal/tree/hooks/fail-on-existing-group.go
+++ b/internal/tree/hooks/fail-on-existing-group.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -16,10 +17,13 @@ type FailOnExistingGroup struct {
 
 // Run contacts the datastore and attempts to load the group specified
 // by dg.  If the group loads successfully then an error is returned,
-// in other cases nil is returned.
+// if there is no such group then nil is returned.  Errors from the
+// storage backend will be returned to the caller.
 func (f *FailOnExistingGroup) Run(g, dg *pb.Group) error {
 	if _, err := f.LoadGroup(dg.GetName()); err == nil {
 		return tree.ErrDuplicateGroupName
+	} else if err != db.ErrUnknownGroup {
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From 24781028fd35ec6289fcbb93335a9498a15ead88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 08/60] fix: never accept an empty secret

An entity created without a secret is documented to be unusable until
one is set, but could be authenticated by presenting an empty secret.
---
 internal/tree/hooks/validate-entity-secret.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tree/hooks/validate-entity-secret.go b/internal/tree/hooks/validate-entity-secret.go
index d4ee04a..bd24a48 100644
--- a/internal/tree/hooks/validate-entity-secret.go
+++ b/internal/tree/hooks/validate-entity-secret.go
@@ -17,6 +17,11 @@ type ValidateEntitySecret struct {
 
 // Run calls VerifySecret to compare de.Secret with the secured copy from e.Secret.
 func (v *ValidateEntitySecret) Run(e, de *pb.Entity) error {
+	// Entities that were created without a secret aren't usable
+	// until one is set.
+	if de.GetSecret() == "" {
+		return crypto.ErrAuthorizationFailure
+	}
 	return v.VerifySecret(de.GetSecret(), e.GetSecret())
 }
 
-- 
2.43.0


From 8b5d520f4fdea0c334830d725929bdc9ca258666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 09/60] fix: keep entity IDs and group names inside their own
 keyspace

Names with path elements in them reached other entities, groups, or
keys that no listing covers.
---
 internal/db/db.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 51053d4..791822b 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -5,6 +5,7 @@ package db
 
 import (
 	"path"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-hclog"
@@ -45,6 +46,9 @@ func (db *DB) DiscoverEntityIDs() ([]string, error) {
 
 // LoadEntity retrieves a single entity from the kv store.
 func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownEntity
+	}
 	b, err := db.kv.Get(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownEntity
@@ -64,6 +68,10 @@ func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
 
 // SaveEntity writes an entity to the kv store.
 func (db *DB) SaveEntity(e *types.Entity) error {
+	if !validName(e.GetID()) {
+		db.log.Warn("Entity ID can not be stored", "ID", e.GetID())
+		return ErrInternalError
+	}
 	b, err := proto.Marshal(e)
 	if err != nil {
 		db.log.Warn("Error marshaling entity", "error", err)
@@ -79,6 +87,9 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 
 // DeleteEntity tries to delete an entity that already exists.
 func (db *DB) DeleteEntity(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownEntity
+	}
 	err := db.kv.Del(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return ErrUnknownEntity
@@ -94,6 +105,9 @@ func (db *DB) DiscoverGroupNames() ([]string, error) {
 
 // LoadGroup retrieves a single group from the kv store.
 func (db *DB) LoadGroup(ID string) (*types.Group, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownGroup
+	}
 	b, err := db.kv.Get(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownGroup
@@ -113,6 +127,10 @@ func (db *DB) LoadGroup(ID string) (*types.Group, error) {
 
 // SaveGroup writes an group to the kv store.
 func (db *DB) SaveGroup(g *types.Group) error {
+	if !validName(g.GetName()) {
+		db.log.Warn("Group name can not be stored", "name", g.GetName())
+		return ErrInternalError
+	}
 	b, err := proto.Marshal(g)
 	if err != nil {
 		db.log.Warn("Error marshaling group", "error", err)
@@ -128,6 +146,9 @@ func (db *DB) SaveGroup(g *types.Group) error {
 
 // DeleteGroup tries to delete an group that already exists.
 func (db *DB) DeleteGroup(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownGroup
+	}
 	err := db.kv.Del(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return ErrUnknownGroup
@@ -135,6 +156,13 @@ func (db *DB) DeleteGroup(ID string) error {
 	return err
 }
 
+// validName checks that a name is usable as the last element of a key.
+// Anything that a path join would resolve or split up would reach some
+// other part of the keyspace.
+func validName(n string) bool {
+	return n != "" && n != "." && n != ".." && !strings.Contains(n, "/")
+}
+
 // Shutdown is called to disconnect the KV store from any other
 // systems and flush any buffers before shutting down the server.
 func (db *DB) Shutdown() {
-- 
2.43.0


From 76a56a42434c6126a7e4fb79c21b0b61a62c6d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 10/60] fix: report unknown groups when asked for their members

---
 internal/rpc2/group.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index 747c6b3..5e95207 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -476,6 +476,11 @@ func (s *Server) GroupMembers(ctx context.Context, r *pb.GroupRequest) (*pb.List
 	g := r.GetGroup()
 
 	members, err := s.ListMembers(g.GetName())
+	if err == nil {
+		// A group that isn't there has no members either, which
+		// must not be mistaken for an empty group.
+		_, err = s.FetchGroup(g.GetName())
+	}
 	switch err {
 	case db.ErrUnknownGroup:
 		s.log.Warn("Group does not exist!",
-- 
2.43.0


From cfe94b42c994fbebb752a0236b942a1dd7bef3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 11/60] fix: don't wrap around when the last number is in use

The next number was negative, and the same for everyone that asked.
---
 internal/db/db.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 791822b..56f40b5 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -4,6 +4,7 @@
 package db
 
 import (
+	"math"
 	"path"
 	"strings"
 
@@ -196,6 +197,10 @@ func (db *DB) NextEntityNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		db.log.Warn("There are no more entity numbers")
+		return 0, ErrInternalError
+	}
 	return largest + 1, nil
 }
 
@@ -218,6 +223,10 @@ func (db *DB) NextGroupNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		db.log.Warn("There are no more group numbers")
+		return 0, ErrInternalError
+	}
 	return largest + 1, nil
 }
 
-- 
2.43.0


From 96d14345d99e594fa6ba96fb93193fd7a6cd3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 12/60] fix: report missing and existing keys of group
 key/value data as such

These were internal errors, while the same calls on entities and the
read call on groups tell the caller what is wrong.
---
 internal/rpc2/group.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index 5e95207..62a9b42 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -233,6 +233,15 @@ func (s *Server) GroupKVAdd(ctx context.Context, r *pb.KV2Request) (*pb.Empty, e
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrKeyExists:
+		s.log.Warn("Error Updating Group",
+			"group", r.GetTarget(),
+			"authority", getTokenClaims(ctx).EntityID,
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.Empty{}, ErrExists
 	case nil:
 		s.log.Info("Group KV Updated Dumped",
 			"group", r.GetTarget(),
@@ -270,6 +279,15 @@ func (s *Server) GroupKVDel(ctx context.Context, r *pb.KV2Request) (*pb.Empty, e
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrNoSuchKey:
+		s.log.Warn("Error Updating Group",
+			"group", r.GetTarget(),
+			"authority", getTokenClaims(ctx).EntityID,
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.Empty{}, ErrDoesNotExist
 	case nil:
 		s.log.Info("Group KV Data Dumped",
 			"group", r.GetTarget(),
@@ -308,6 +326,15 @@ func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empt
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrNoSuchKey:
+		s.log.Warn("Error Updating Group",
+			"group", r.GetTarget(),
+			"authority", getTokenClaims(ctx).EntityID,
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.Empty{}, ErrDoesNotExist
 	case nil:
 		s.log.Info("Group KV Data Updated",
 			"group", r.GetTarget(),
-- 
2.43.0


From 5b1857640232a42849f328287554133674dde0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 13/60] fix: serialize chains that write

Chains load, modify and save, so two at once could undo each other:
an authentication in flight reverted a lock or a new secret, members
were lost, destroyed entities came back, cycles were formed out of
rules that are fine alone, and numbers were handed out twice.
---
 internal/tree/entity-chains.go |  2 ++
 internal/tree/group-chains.go  |  2 ++
 internal/tree/locks.go         | 59 ++++++++++++++++++++++++++++++++++
 internal/tree/type.go          |  3 ++
 4 files changed, 66 insertions(+)
 create mode 100644 internal/tree/locks.go

diff --git a/internal/tree/entity-chains.go b/internal/tree/entity-chains.go
index ea675e3..ae1dbab 100644
--- a/internal/tree/entity-chains.go
+++ b/internal/tree/entity-chains.go
@@ -108,6 +108,8 @@ func (m *Manager) CheckRequiredEntityChains() error {
 // RunEntityChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunEntityChain(chain string, de *pb.Entity) (*pb.Entity, error) {
+	defer m.locks.lockEntity(chain, de.GetID())()
+
 	e := new(pb.Entity)
 	hookChain := m.entityProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/group-chains.go b/internal/tree/group-chains.go
index 0176fb5..64d1341 100644
--- a/internal/tree/group-chains.go
+++ b/internal/tree/group-chains.go
@@ -108,6 +108,8 @@ func (m *Manager) CheckRequiredGroupChains() error {
 // RunGroupChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunGroupChain(chain string, de *pb.Group) (*pb.Group, error) {
+	defer m.locks.lockGroup(chain)()
+
 	e := new(pb.Group)
 	hookChain := m.groupProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/locks.go b/internal/tree/locks.go
new file mode 100644
index 0000000..b818e06
--- /dev/null
+++ b/internal/tree/locks.go
@@ -0,0 +1,59 @@
+package tree
+
+import (
+	"hash/fnv"
+	"sync"
+)
+
+// chainLocks serialize the chains that write.  Every one of them is a
+// read, some modifications, and a write, and without the locks a chain
+// could write back what another one had just changed, destroyed, or
+// created.
+type chainLocks struct {
+	// The entity chains only exclude each other for the same
+	// entity, since some of these take noticeable time to verify
+	// secrets.  Entities share a fixed number of locks.
+	entity [256]sync.Mutex
+
+	// Creation additionally needs the next number to remain
+	// available until it is taken.
+	create sync.Mutex
+
+	// The rules of a group are checked against those of other
+	// groups, so group chains exclude each other altogether.
+	group sync.Mutex
+}
+
+// lockEntity acquires the locks needed to run the named chain for the
+// given entity and returns the function to release them.
+func (cl *chainLocks) lockEntity(chain, ID string) func() {
+	if chain == "FETCH" {
+		return func() {}
+	}
+
+	h := fnv.New32a()
+	h.Write([]byte(ID))
+	el := &cl.entity[h.Sum32()%uint32(len(cl.entity))]
+
+	if chain == "CREATE" || chain == "BOOTSTRAP-SERVER" {
+		cl.create.Lock()
+		el.Lock()
+		return func() {
+			el.Unlock()
+			cl.create.Unlock()
+		}
+	}
+
+	el.Lock()
+	return el.Unlock
+}
+
+// lockGroup acquires the lock needed to run the named group chain and
+// returns the function to release it.
+func (cl *chainLocks) lockGroup(chain string) func() {
+	if chain == "FETCH" {
+		return func() {}
+	}
+	cl.group.Lock()
+	return cl.group.Unlock
+}
diff --git a/internal/tree/type.go b/internal/tree/type.go
index 783e007..6b91fbe 100644
--- a/internal/tree/type.go
+++ b/internal/tree/type.go
@@ -41,6 +41,9 @@ type Manager struct {
 
 	resolver *mresolver.MResolver
 
+	// Locks to serialize conflicting writes.
+	locks chainLocks
+
 	log hclog.Logger
 }
 
-- 
2.43.0


From 2b980da4c8e5db68a90ae3586fd927ccf1685c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 14/60] fix: don't fail creation when some other entity was
 just destroyed

---
 internal/db/db.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 56f40b5..3f00d70 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -189,6 +189,10 @@ func (db *DB) NextEntityNumber() (int32, error) {
 
 	for _, en := range el {
 		e, err := db.LoadEntity(path.Base(en))
+		if err == ErrUnknownEntity {
+			// Destroyed since the listing was made.
+			continue
+		}
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From dce592698bf76a459511105b8dd8be7e8315efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 15/60] fix: don't read the resolver's maps while they are
 being written

---
 internal/mresolver/memberships.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 47efe9a..36257da 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -75,9 +75,12 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 func (mr *MResolver) resolveChanges(group string) {
 	mr.Resolve(group)
 	mr.gMutex.RLock()
-	cascade := mr.atom.ga[group]
+	cascade := make([]string, 0, len(mr.atom.ga[group]))
+	for g := range mr.atom.ga[group] {
+		cascade = append(cascade, g)
+	}
 	mr.gMutex.RUnlock()
-	for g := range cascade {
+	for _, g := range cascade {
 		mr.resolveChanges(g)
 	}
 }
@@ -229,6 +232,8 @@ func (mr *MResolver) MembersOfGroup(group string) []string {
 	if !ok {
 		return []string{}
 	}
+	mr.uMutex.RLock()
+	defer mr.uMutex.RUnlock()
 	return exp.FilterValues(mr.atom.dm)
 }
 
-- 
2.43.0


From 304d32783bffdf420985210eb010aa8ef544e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 16/60] fix: let a secret be used only once to set a new one

Of two changes that both presented the present secret the later one won,
also when it was the administrator who had just revoked that secret.
---
 internal/rpc2/auth.go |  4 ++++
 internal/rpc2/type.go |  6 ++++++
 internal/rpc2/util.go | 11 +++++++++++
 3 files changed, 21 insertions(+)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index b0f8cb4..c90d328 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -112,6 +112,10 @@ func (s *Server) AuthChangeSecret(ctx context.Context, r *pb.AuthRequest) (*pb.E
 		return &pb.Empty{}, err
 	}
 
+	// The present secret must remain the present one until the new
+	// one is in place.
+	defer s.lockSecret(e.GetID())()
+
 	// Changing for self, must have the original secret
 	if getTokenClaims(ctx).EntityID == e.GetID() {
 		if err := s.ValidateSecret(e.GetID(), e.GetSecret()); err != nil {
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 1a43d2e..230c822 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -1,6 +1,8 @@
 package rpc2
 
 import (
+	"sync"
+
 	"github.com/hashicorp/go-hclog"
 
 	"github.com/netauth/netauth/internal/db"
@@ -18,6 +20,10 @@ type Server struct {
 
 	readonly bool
 	log      hclog.Logger
+
+	// Held while checking a present secret and setting a new one,
+	// entities share a fixed number of locks.
+	secretLocks [64]sync.Mutex
 }
 
 // Refs is the container that is used to provide references to the RPC
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index 6cbaee5..1e1d623 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -2,6 +2,7 @@ package rpc2
 
 import (
 	"context"
+	"hash/fnv"
 
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/metadata"
@@ -226,3 +227,13 @@ func (s *Server) withClaims(ctx context.Context) context.Context {
 	ctx, _ = s.checkToken(ctx)
 	return ctx
 }
+
+// lockSecret excludes other changes to the secret of the specified
+// entity until the returned function is called.
+func (s *Server) lockSecret(id string) func() {
+	h := fnv.New32a()
+	h.Write([]byte(id))
+	l := &s.secretLocks[h.Sum32()%uint32(len(s.secretLocks))]
+	l.Lock()
+	return l.Unlock
+}
-- 
2.43.0


From 103fc47f746b9d39cf88d238814428b5c5b07e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 17/60] fix: match whole public keys when adding and dropping
 them

A key that is a part of another one could not be added, and dropping it
took the other one along.  Dropping a type with no key still drops all
keys of that type.
---
 internal/tree/hooks/entity-keys.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index 7f70d71..cb7389e 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -1,6 +1,8 @@
 package hooks
 
 import (
+	"strings"
+
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 	"github.com/netauth/netauth/internal/tree/util"
@@ -18,7 +20,18 @@ type ManageEntityKeys struct {
 // from the entity's keystore.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, false)
+		if i := strings.Index(k, ":"); !mek.mode && i >= 0 && i == len(k)-1 {
+			// Only a type is named, all keys of it go.
+			var keep []string
+			for _, s := range e.Meta.Keys {
+				if !strings.HasPrefix(s, k) {
+					keep = append(keep, s)
+				}
+			}
+			e.Meta.Keys = keep
+			continue
+		}
+		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, true)
 	}
 	return nil
 }
-- 
2.43.0


From ca9e466cc705ceeb90971cbfee01400892df7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 18/60] fix: don't panic on group updates that contain no group

---
 internal/tree/group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tree/group.go b/internal/tree/group.go
index 48933b3..3597188 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -52,6 +52,10 @@ func (m *Manager) DestroyGroup(name string) error {
 // information is not mutable and so that information is not merged
 // in.
 func (m *Manager) UpdateGroupMeta(name string, update *pb.Group) error {
+	if update == nil {
+		// There's nothing to update in an empty request.
+		update = &pb.Group{}
+	}
 	update.Name = &name
 	_, err := m.RunGroupChain("MERGE-METADATA", update)
 	return err
-- 
2.43.0


From ff5b3ca9fd44a7f4071e621653d950ff691b1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:40 +0000
Subject: [PATCH 19/60] fix: don't destroy an entity while its secret is being
 changed

---
 internal/rpc2/entity.go | 5 +++++
 internal/rpc2/type.go   | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index 736d037..a634113 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -453,6 +453,11 @@ func (s *Server) EntityDestroy(ctx context.Context, r *pb.EntityRequest) (*pb.Em
 	}
 
 	e := r.GetEntity()
+
+	// A secret that is being changed must still belong to the same
+	// entity when the new one is put in place.
+	defer s.lockSecret(e.GetID())()
+
 	switch err := s.DestroyEntity(e.GetID()); err {
 	case db.ErrUnknownEntity:
 		s.log.Warn("Entity does not exist!",
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 230c822..a91cbb2 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -22,7 +22,8 @@ type Server struct {
 	log      hclog.Logger
 
 	// Held while checking a present secret and setting a new one,
-	// entities share a fixed number of locks.
+	// and while destroying an entity.  Entities share a fixed
+	// number of locks.
 	secretLocks [64]sync.Mutex
 }
 
-- 
2.43.0


From a8f492ba2f36a7b9f393ed09aaa994034ed31a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:45 +0000
Subject: [PATCH 20/60] fix: list and search while something is being destroyed

---
 internal/db/db.go           | 8 ++++++++
 internal/tree/membership.go | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 3f00d70..321aaf7 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -269,6 +269,10 @@ func (db *DB) loadEntityBatch(ids []string) ([]*types.Entity, error) {
 
 	for i := range ids {
 		e, err := db.LoadEntity(ids[i])
+		if err == ErrUnknownEntity {
+			// Destroyed since the search was made.
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -282,6 +286,10 @@ func (db *DB) loadGroupBatch(ids []string) ([]*types.Group, error) {
 
 	for i := range ids {
 		g, err := db.LoadGroup(ids[i])
+		if err == ErrUnknownGroup {
+			// Destroyed since the search was made.
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
diff --git a/internal/tree/membership.go b/internal/tree/membership.go
index 06243e5..f3c0dcb 100644
--- a/internal/tree/membership.go
+++ b/internal/tree/membership.go
@@ -3,6 +3,8 @@ package tree
 import (
 	"fmt"
 
+	"github.com/netauth/netauth/internal/db"
+
 	pb "github.com/netauth/protocol"
 	rpc "github.com/netauth/protocol/v2"
 )
@@ -51,6 +53,10 @@ func (m *Manager) ListMembers(groupID string) ([]*pb.Entity, error) {
 	entities := []*pb.Entity{}
 	for i := range eIDs {
 		e, err := m.db.LoadEntity(eIDs[i])
+		if err == db.ErrUnknownEntity {
+			// Destroyed since the members were resolved.
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 836610093837d8d9d5a9dab2ec9580cbadfa2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:49 +0000
Subject: [PATCH 21/60] fix: leave out groups that can't be read from an
 entity's groups

---
 internal/rpc2/entity.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index a634113..32d1031 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -590,13 +590,16 @@ func (s *Server) EntityGroups(ctx context.Context, r *pb.EntityRequest) (*pb.Lis
 
 	groups := s.GetMemberships(ent)
 
-	out := make([]*types.Group, len(groups))
+	out := make([]*types.Group, 0, len(groups))
 	for i := range groups {
 		// We throw this error out here, as its logged at a
 		// lower level, and the side effect here is that only
 		// a partial result gets returned.
-		tmp, _ := s.FetchGroup(groups[i])
-		out[i] = tmp
+		tmp, err := s.FetchGroup(groups[i])
+		if err != nil {
+			continue
+		}
+		out = append(out, tmp)
 	}
 
 	return &pb.ListOfGroups{Groups: out}, nil
-- 
2.43.0


From f245d906c54df6f4f727275c1c3cdb40670ce59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:06 +0000
Subject: [PATCH 22/60] fix: filesystem store leaves no temporary files among
 the keys

---
 internal/db/filesystem/filesystem.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index c2cb2fe..2f1bfbe 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -87,7 +87,7 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 		return err
 	}
 
-	if err := atomic.WriteFile(p, v, 0640); err != nil {
+	if err := fs.writeFile(p, v); err != nil {
 		return err
 	}
 
@@ -95,6 +95,25 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 	return nil
 }
 
+// writeFile atomically replaces the file at p.  The temporary file lives
+// at the top of the store where it is never mistaken for a key, not even
+// if it is left behind by a crash.
+func (fs *Filesystem) writeFile(p string, v []byte) error {
+	f, err := atomic.TempFile(fs.basePath, p)
+	if err != nil {
+		return err
+	}
+	defer f.Cleanup()
+
+	if err := f.Chmod(0640); err != nil {
+		return err
+	}
+	if _, err := f.Write(v); err != nil {
+		return err
+	}
+	return f.CloseAtomicallyReplace()
+}
+
 // Get returns a series of bytes from the filesystem, checking to make
 // sure that the bytes come from inside the base path.
 func (fs *Filesystem) Get(k string) ([]byte, error) {
-- 
2.43.0


From 07eabda04b680685495f878ed7d4df06034b5713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:00 +0000
Subject: [PATCH 23/60] fix: filesystem store syncs directories so that
 acknowledged changes survive a loss of power

---
 internal/db/filesystem/filesystem.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index 2f1bfbe..ea77be6 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -17,6 +17,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"runtime"
 	"strings"
 
 	atomic "github.com/google/renameio"
@@ -92,7 +93,7 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 	}
 
 	fs.fireEventForKey(k, eventUpdate)
-	return nil
+	return syncDir(filepath.Dir(p))
 }
 
 // writeFile atomically replaces the file at p.  The temporary file lives
@@ -114,6 +115,22 @@ func (fs *Filesystem) writeFile(p string, v []byte) error {
 	return f.CloseAtomicallyReplace()
 }
 
+// syncDir makes changes to the files of a directory permanent.  Without
+// it they can be undone by a loss of power.
+func syncDir(p string) error {
+	if runtime.GOOS == "windows" {
+		// There directories cannot be synced.
+		return nil
+	}
+
+	d, err := os.Open(p)
+	if err != nil {
+		return err
+	}
+	defer d.Close()
+	return d.Sync()
+}
+
 // Get returns a series of bytes from the filesystem, checking to make
 // sure that the bytes come from inside the base path.
 func (fs *Filesystem) Get(k string) ([]byte, error) {
@@ -148,7 +165,7 @@ func (fs *Filesystem) Del(k string) error {
 	}
 
 	fs.fireEventForKey(k, eventDelete)
-	return nil
+	return syncDir(filepath.Dir(p))
 }
 
 // Keys is a way to enumerate the keys in the key/value store and to
-- 
2.43.0


From cf939fc53894294ca85e002eea91104806ac521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:02 +0000
Subject: [PATCH 24/60] fix: bitcask store does not lose changes made since it
 was last closed

---
 internal/db/bitcask/bitcask.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index daf0483..0522f39 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,12 +3,14 @@
 package bitcask
 
 import (
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
 
 	"github.com/hashicorp/go-hclog"
 	"github.com/prologic/bitcask"
+	"github.com/prologic/bitcask/flock"
 	"github.com/spf13/viper"
 
 	"github.com/netauth/netauth/internal/db"
@@ -44,6 +46,9 @@ const (
 // New creates a new instance of the bitcask store.
 func New(l hclog.Logger) (db.KVStore, error) {
 	p := filepath.Join(viper.GetString("core.home"), "bc")
+	if err := dropIndex(p); err != nil {
+		return nil, err
+	}
 
 	x := &BCStore{}
 	x.l = l.Named("bitcask")
@@ -60,6 +65,29 @@ func New(l hclog.Logger) (db.KVStore, error) {
 	return x, nil
 }
 
+// dropIndex removes the index that was saved when the store was last
+// closed, along with the note that it is current.  Neither is updated
+// by later changes, and so these would be missing from the store if it
+// was not closed again.  Without them the index is rebuilt from the data.
+func dropIndex(p string) error {
+	if _, err := os.Stat(p); os.IsNotExist(err) {
+		return nil
+	}
+
+	l := flock.New(filepath.Join(p, "lock"))
+	if ok, err := l.TryLock(); err != nil || !ok {
+		return bitcask.ErrDatabaseLocked
+	}
+	defer l.Unlock()
+
+	for _, f := range []string{"meta.json", "index", "temp_index"} {
+		if err := os.Remove(filepath.Join(p, f)); err != nil && !os.IsNotExist(err) {
+			return err
+		}
+	}
+	return nil
+}
+
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
-- 
2.43.0


From 1801b0b7ad93991b4384efa5292eb68421929fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:17 +0000
Subject: [PATCH 25/60] fix: bitcask store opens after an interrupted write

---
 internal/db/bitcask/bitcask.go | 114 ++++++++++++++++++++++++++++++---
 1 file changed, 106 insertions(+), 8 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 0522f39..c6a1348 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,9 +3,15 @@
 package bitcask
 
 import (
+	"bytes"
+	"encoding/binary"
+	"encoding/json"
+	"hash/crc32"
+	"io/ioutil"
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/hashicorp/go-hclog"
@@ -43,18 +49,23 @@ const (
 	eventDelete
 )
 
+const (
+	maxKeySize   = 1024
+	maxValueSize = 1024 * 1000 * 5 // 5MiB
+)
+
 // New creates a new instance of the bitcask store.
 func New(l hclog.Logger) (db.KVStore, error) {
 	p := filepath.Join(viper.GetString("core.home"), "bc")
-	if err := dropIndex(p); err != nil {
+	if err := prepare(p); err != nil {
 		return nil, err
 	}
 
 	x := &BCStore{}
 	x.l = l.Named("bitcask")
 	opts := []bitcask.Option{
-		bitcask.WithMaxKeySize(1024),
-		bitcask.WithMaxValueSize(1024 * 1000 * 5), // 5MiB
+		bitcask.WithMaxKeySize(maxKeySize),
+		bitcask.WithMaxValueSize(maxValueSize),
 		bitcask.WithSync(true),
 	}
 	b, err := bitcask.Open(p, opts...)
@@ -65,11 +76,9 @@ func New(l hclog.Logger) (db.KVStore, error) {
 	return x, nil
 }
 
-// dropIndex removes the index that was saved when the store was last
-// closed, along with the note that it is current.  Neither is updated
-// by later changes, and so these would be missing from the store if it
-// was not closed again.  Without them the index is rebuilt from the data.
-func dropIndex(p string) error {
+// prepare repairs what a crash may have left behind, which bitcask
+// refuses to open.
+func prepare(p string) error {
 	if _, err := os.Stat(p); os.IsNotExist(err) {
 		return nil
 	}
@@ -80,6 +89,20 @@ func dropIndex(p string) error {
 	}
 	defer l.Unlock()
 
+	if err := dropIndex(p); err != nil {
+		return err
+	}
+	if err := dropIncompleteConfig(p); err != nil {
+		return err
+	}
+	return dropIncompleteRecord(p)
+}
+
+// dropIndex removes the index that was saved when the store was last
+// closed, along with the note that it is current.  Neither is updated
+// by later changes, and so these would be missing from the store if it
+// was not closed again.  Without them the index is rebuilt from the data.
+func dropIndex(p string) error {
 	for _, f := range []string{"meta.json", "index", "temp_index"} {
 		if err := os.Remove(filepath.Join(p, f)); err != nil && !os.IsNotExist(err) {
 			return err
@@ -88,6 +111,81 @@ func dropIndex(p string) error {
 	return nil
 }
 
+// dropIncompleteConfig removes the configuration if writing it, which
+// happens every time the store is opened, was interrupted.
+func dropIncompleteConfig(p string) error {
+	f := filepath.Join(p, "config.json")
+	b, err := ioutil.ReadFile(f)
+	if os.IsNotExist(err) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	if json.Valid(b) {
+		return nil
+	}
+	return os.Remove(f)
+}
+
+// dropIncompleteRecord removes the last record of the store if writing
+// it was interrupted.
+func dropIncompleteRecord(p string) error {
+	// The names begin with the number of the file.
+	files, err := filepath.Glob(filepath.Join(p, "*.data"))
+	if err != nil || len(files) == 0 {
+		return err
+	}
+	sort.Strings(files)
+	last := files[len(files)-1]
+
+	b, err := ioutil.ReadFile(last)
+	if err != nil {
+		return err
+	}
+	n := completeRecords(b)
+	if n == len(b) {
+		return nil
+	}
+
+	f, err := os.OpenFile(last, os.O_RDWR, 0)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	if err := f.Truncate(int64(n)); err != nil {
+		return err
+	}
+	return f.Sync()
+}
+
+// completeRecords returns the length of b without a record at its end
+// of which not everything has been written.  A record has the size of
+// the key and that of the value, then key and value, and the checksum
+// of the value.
+func completeRecords(b []byte) int {
+	const sizes, sum = 4 + 8, 4
+	for n := 0; ; {
+		r := b[n:]
+		if len(bytes.Trim(r, "\x00")) == 0 || len(r) < sizes {
+			return n
+		}
+		kl, vl := uint64(binary.BigEndian.Uint32(r)), binary.BigEndian.Uint64(r[4:])
+		if kl == 0 || kl > maxKeySize || vl > maxValueSize {
+			// Not the result of an interruption.
+			return len(b)
+		}
+		end := sizes + kl + vl + sum
+		if end > uint64(len(r)) {
+			return n
+		}
+		if end == uint64(len(r)) && crc32.ChecksumIEEE(r[sizes+kl:end-sum]) != binary.BigEndian.Uint32(r[end-sum:]) {
+			return n
+		}
+		n += int(end)
+	}
+}
+
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
-- 
2.43.0


From acbb54c39c25c0562c8f8d5ba89c1269a2edc3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 26/60] fix: bitcask store syncs deletions and reports their
 failure

---
 internal/db/bitcask/bitcask.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index c6a1348..59a37da 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -211,13 +211,13 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	// I can come up with nothing that causes this delete call to
-	// fail, up to and including nuking the entire data directory.
-	// If you can write a way to check this error and its
-	// associated test, open a PR.
-	bcs.s.Delete([]byte(k))
+	if err := bcs.s.Delete([]byte(k)); err != nil {
+		return err
+	}
 	bcs.fireEventForKey(k, eventDelete)
-	return nil
+
+	// Unlike Put, bitcask does not do this by itself.
+	return bcs.s.Sync()
 }
 
 // Keys is a way to enumerate the keys in the key/value store and to
-- 
2.43.0


From b9f6cdcfa2f925ca0d95e5bbd9e7093febb6d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 27/60] fix: filesystem store does not pass an unreadable
 directory off as an empty one

---
 internal/db/filesystem/filesystem.go | 57 +++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index ea77be6..eb03eb1 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -18,6 +18,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"strings"
 
 	atomic "github.com/google/renameio"
@@ -176,22 +177,50 @@ func (fs *Filesystem) Del(k string) error {
 // includes a path seperator, but this should be filtered out at a
 // higher level.
 func (fs *Filesystem) Keys(f string) ([]string, error) {
-	// Discard error because the hard coded pattern cannot return
-	// an os.PathError
-	keys, _ := filepath.Glob(filepath.Join(fs.basePath, "*", "*"))
-
-	out := make([]string, len(keys))
-	i := 0
-	for _, k := range keys {
-		k, _ = filepath.Rel(fs.basePath, k)
-		k = "/" + k
-		if m, _ := filepath.Match(f, k); m {
-			out[i] = k
-			fs.l.Trace("Matched filter", "key", k)
-			i++
+	out := []string{}
+
+	dirs, err := list(fs.basePath)
+	if err != nil {
+		return nil, err
+	}
+	for _, d := range dirs {
+		p := filepath.Join(fs.basePath, d)
+		if i, err := os.Stat(p); err == nil && !i.IsDir() {
+			continue
+		}
+		names, err := list(p)
+		if err != nil {
+			return nil, err
 		}
+		for _, n := range names {
+			k := "/" + filepath.Join(d, n)
+			if m, _ := filepath.Match(f, k); m {
+				out = append(out, k)
+				fs.l.Trace("Matched filter", "key", k)
+			}
+		}
+	}
+	return out, nil
+}
+
+// list returns the sorted names in a directory.  There are none in a
+// directory that does not exist.
+func list(p string) ([]string, error) {
+	d, err := os.Open(p)
+	if os.IsNotExist(err) {
+		return nil, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	defer d.Close()
+
+	names, err := d.Readdirnames(-1)
+	if err != nil {
+		return nil, err
 	}
-	return out[:i], nil
+	sort.Strings(names)
+	return names, nil
 }
 
 // Close is required by the interface, but all operations on the
-- 
2.43.0


From a743d9273f535231b918371413677570471a01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:27 +0000
Subject: [PATCH 28/60] fix: bitcask store accepts changes again after one has
 failed

---
 internal/db/bitcask/bitcask.go | 44 ++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 59a37da..ff7caff 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -13,6 +13,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/hashicorp/go-hclog"
 	"github.com/prologic/bitcask"
@@ -36,6 +37,10 @@ func cb() {
 type BCStore struct {
 	s *bitcask.Bitcask
 	l hclog.Logger
+	p string
+
+	// Held while changing the data.
+	mu sync.Mutex
 
 	eF func(db.Event)
 }
@@ -73,6 +78,7 @@ func New(l hclog.Logger) (db.KVStore, error) {
 		return nil, err
 	}
 	x.s = b
+	x.p = p
 	return x, nil
 }
 
@@ -189,7 +195,8 @@ func completeRecords(b []byte) int {
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
-	if err := bcs.s.Put([]byte(k), v); err != nil {
+	err := bcs.change(func() error { return bcs.s.Put([]byte(k), v) })
+	if err != nil {
 		return err
 	}
 	bcs.fireEventForKey(k, eventUpdate)
@@ -211,13 +218,42 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	if err := bcs.s.Delete([]byte(k)); err != nil {
+	err := bcs.change(func() error {
+		if err := bcs.s.Delete([]byte(k)); err != nil {
+			return err
+		}
+		// Unlike Put, bitcask does not do this by itself.
+		return bcs.s.Sync()
+	})
+	if err != nil {
 		return err
 	}
 	bcs.fireEventForKey(k, eventDelete)
+	return nil
+}
+
+// change runs a function that changes the data.  If that fails, because
+// the disk is full for example, part of a record may have been written,
+// and bitcask does not accept any further changes.  The store is then
+// opened anew.
+func (bcs *BCStore) change(f func() error) error {
+	bcs.mu.Lock()
+	defer bcs.mu.Unlock()
 
-	// Unlike Put, bitcask does not do this by itself.
-	return bcs.s.Sync()
+	err := f()
+	switch err {
+	case nil, bitcask.ErrEmptyKey, bitcask.ErrKeyTooLarge, bitcask.ErrValueTooLarge:
+		return err
+	}
+
+	if rerr := dropIncompleteRecord(bcs.p); rerr != nil {
+		bcs.l.Error("Error recovering from failed change", "error", rerr)
+		return err
+	}
+	if rerr := bcs.s.Reopen(); rerr != nil {
+		bcs.l.Error("Error recovering from failed change", "error", rerr)
+	}
+	return err
 }
 
 // Keys is a way to enumerate the keys in the key/value store and to
-- 
2.43.0


From d80974cdbaaec57b632b2d7b5177592082022aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 29/60] fix: bitcask store does not pass an unreadable value
 off as a missing one

---
 internal/db/bitcask/bitcask.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index ff7caff..046fc86 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -210,8 +210,10 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 	switch err {
 	case nil:
 		return v, nil
-	default:
+	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
+	default:
+		return nil, err
 	}
 }
 
-- 
2.43.0


From ae2edf94d8ca78e56d6a4d77e47794ec73ffe104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:03 +0000
Subject: [PATCH 30/60] fix: bitcask store rebuilds its index after a failed
 change

---
 internal/db/bitcask/bitcask.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 046fc86..d057f26 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -248,6 +248,10 @@ func (bcs *BCStore) change(f func() error) error {
 		return err
 	}
 
+	if rerr := dropIndex(bcs.p); rerr != nil {
+		bcs.l.Error("Error recovering from failed change", "error", rerr)
+		return err
+	}
 	if rerr := dropIncompleteRecord(bcs.p); rerr != nil {
 		bcs.l.Error("Error recovering from failed change", "error", rerr)
 		return err
-- 
2.43.0


From 13a1122c8863cc4120c2212dfb6bc63f8248d048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 31/60] fix: nsutil refuses to copy a datastore to itself

---
 cmd/nsutil/db_copy.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index ffb5ece..f0090cd 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -43,6 +43,13 @@ func init() {
 func dbCopyCmdRun(c *cobra.Command, args []string) {
 	startup.DoCallbacks()
 
+	// There is only one instance of each storage, so copying it to
+	// itself has nothing to do and truncating it loses the source.
+	if args[0] == args[1] {
+		fmt.Fprintln(os.Stderr, "Source and target must be different.")
+		os.Exit(1)
+	}
+
 	source, err := db.NewKV(args[0], nil)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error initializing source: %s\n", err)
-- 
2.43.0


From a119e1eb6a1930f423aff67fc6f4d3802a3eef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 32/60] fix: nsutil fails when it could not copy everything

---
 cmd/nsutil/db_copy.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index f0090cd..ff056f6 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -59,6 +59,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	sourceKeys, err := source.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from source: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Source initialized, contains %d objects.\n", len(sourceKeys))
 
@@ -71,6 +72,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	targetKeys, err := target.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from target: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Target initialized, contains %d objects.\n", len(targetKeys))
 
@@ -89,6 +91,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 		for _, k := range targetKeys {
 			if err := target.Del(k); err != nil {
 				fmt.Fprintf(os.Stderr, "Error truncating target: %s\n", err)
+				os.Exit(1)
 			}
 		}
 	}
@@ -108,5 +111,8 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 		}
 		count++
 	}
-	fmt.Println("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!", count)
+	fmt.Printf("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!\n", count)
+	if count != len(sourceKeys) {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 978f968f9dcfb90012c7ddbc8882370cfd34b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:12 +0000
Subject: [PATCH 33/60] fix: bitcask store does not open without its data

---
 internal/db/bitcask/bitcask.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index d057f26..c0ba110 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -6,12 +6,12 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/json"
+	"errors"
 	"hash/crc32"
 	"io/ioutil"
 	"os"
 	"path"
 	"path/filepath"
-	"sort"
 	"strings"
 	"sync"
 
@@ -59,6 +59,8 @@ const (
 	maxValueSize = 1024 * 1000 * 5 // 5MiB
 )
 
+var errIncomplete = errors.New("not all of the data could be read")
+
 // New creates a new instance of the bitcask store.
 func New(l hclog.Logger) (db.KVStore, error) {
 	p := filepath.Join(viper.GetString("core.home"), "bc")
@@ -73,10 +75,19 @@ func New(l hclog.Logger) (db.KVStore, error) {
 		bitcask.WithMaxValueSize(maxValueSize),
 		bitcask.WithSync(true),
 	}
+	files, err := dataFiles(p)
+	if err != nil {
+		return nil, err
+	}
 	b, err := bitcask.Open(p, opts...)
 	if err != nil {
 		return nil, err
 	}
+	// When bitcask can't read the directory, it takes it for empty.
+	if stats, err := b.Stats(); err != nil || stats.Datafiles != len(files) {
+		b.Close()
+		return nil, errIncomplete
+	}
 	x.s = b
 	x.p = p
 	return x, nil
@@ -137,12 +148,10 @@ func dropIncompleteConfig(p string) error {
 // dropIncompleteRecord removes the last record of the store if writing
 // it was interrupted.
 func dropIncompleteRecord(p string) error {
-	// The names begin with the number of the file.
-	files, err := filepath.Glob(filepath.Join(p, "*.data"))
+	files, err := dataFiles(p)
 	if err != nil || len(files) == 0 {
 		return err
 	}
-	sort.Strings(files)
 	last := files[len(files)-1]
 
 	b, err := ioutil.ReadFile(last)
@@ -165,6 +174,23 @@ func dropIncompleteRecord(p string) error {
 	return f.Sync()
 }
 
+// dataFiles returns the files with the records of the store, the newest
+// one last.
+func dataFiles(p string) ([]string, error) {
+	// Sorted by name, and the names begin with the number of the file.
+	all, err := ioutil.ReadDir(p)
+	if err != nil && !os.IsNotExist(err) {
+		return nil, err
+	}
+	var files []string
+	for _, f := range all {
+		if filepath.Ext(f.Name()) == ".data" {
+			files = append(files, filepath.Join(p, f.Name()))
+		}
+	}
+	return files, nil
+}
+
 // completeRecords returns the length of b without a record at its end
 // of which not everything has been written.  A record has the size of
 // the key and that of the value, then key and value, and the checksum
-- 
2.43.0


From 439fa7de5c5630bec36cc5a67ddc47452c608358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:59 +0000
Subject: [PATCH 34/60] fix: no token for an entity whose ID cannot be written
 in it

The claims of a token are JSON, which replaces whatever is not UTF-8.
The token of an entity with such an ID named another entity.
---
 internal/token/jwt/rsa.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 193ef19..c685da4 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/viper"
@@ -62,6 +63,14 @@ func (s *RSATokenService) Generate(claims token.Claims, config token.Config) (st
 		return "", token.ErrKeyUnavailable
 	}
 
+	if !utf8.ValidString(claims.EntityID) {
+		// The claims are stored as JSON, which would replace
+		// whatever isn't UTF-8.  The resulting token would
+		// name some other entity.
+		s.log.Warn("Entity ID can't be represented in a token", "entity", claims.EntityID)
+		return "", token.ErrInternalError
+	}
+
 	c := RSAToken{
 		claims,
 		jwt.StandardClaims{
-- 
2.43.0


From 0f6bc3086cb7c871f55faf7e17ae62523fd1a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:57 +0000
Subject: [PATCH 35/60] fix: signing keys are written in one step

A start that was interrupted while it generated the keys left a private
key that could not be overwritten, or part of a public key, and later
starts failed.  With a umask other than 022 the generated keys were
refused at the next start.  Nothing was synced, so a loss of power
could leave a public key without its private key for good.
---
 internal/token/jwt/rsa.go | 42 +++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index c685da4..acc4329 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -8,8 +8,10 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"runtime"
 	"unicode/utf8"
 
+	atomic "github.com/google/renameio"
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/viper"
 
@@ -312,11 +314,7 @@ func marshalPrivateKey(key *rsa.PrivateKey, path string) error {
 			Bytes: x509.MarshalPKCS1PrivateKey(key),
 		},
 	)
-	if err := ioutil.WriteFile(path, pridata, 0400); err != nil {
-		return token.ErrInternalError
-	}
-
-	return nil
+	return writeKey(path, pridata, 0400)
 }
 
 func marshalPublicKey(key *rsa.PublicKey, path string) error {
@@ -332,7 +330,39 @@ func marshalPublicKey(key *rsa.PublicKey, path string) error {
 			Bytes: pubASN1,
 		},
 	)
-	if err := ioutil.WriteFile(path, pubdata, 0644); err != nil {
+	return writeKey(path, pubdata, 0644)
+}
+
+// writeKey puts a key in place in one step, and with exactly the given
+// mode.  A key that was only partly written, or that has some other
+// mode, would prevent the service from starting later on.
+func writeKey(path string, data []byte, mode os.FileMode) error {
+	f, err := atomic.TempFile(filepath.Dir(path), path)
+	if err != nil {
+		return token.ErrInternalError
+	}
+	defer f.Cleanup()
+
+	if err := f.Chmod(mode); err != nil {
+		return token.ErrInternalError
+	}
+	if _, err := f.Write(data); err != nil {
+		return token.ErrInternalError
+	}
+	if err := f.CloseAtomicallyReplace(); err != nil {
+		return token.ErrInternalError
+	}
+
+	if runtime.GOOS == "windows" {
+		// There directories can't be synced.
+		return nil
+	}
+	d, err := os.Open(filepath.Dir(path))
+	if err != nil {
+		return token.ErrInternalError
+	}
+	defer d.Close()
+	if err := d.Sync(); err != nil {
 		return token.ErrInternalError
 	}
 	return nil
-- 
2.43.0


From bccd00c5457df9f30b719aea310c5dabde55c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:02 +0000
Subject: [PATCH 36/60] fix: a private key of another pair is not used for
 signing

Tokens signed with it are accepted by nobody, not even by the server
itself, which nevertheless reported that it was ready to issue tokens.
---
 internal/token/jwt/rsa.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index acc4329..cd16727 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -220,6 +220,13 @@ func (s *RSATokenService) GetKeys() error {
 		// needed if all you want to do is verify a signature.
 		s.privateKey = nil
 		s.log.Warn("Error unmarshaling private key", "file", s.privateKeyFile, "error", err)
+		return nil
+	}
+	if s.privateKey.N.Cmp(p.N) != 0 || s.privateKey.E != p.E {
+		// Nobody would accept tokens signed with this key.
+		s.privateKey = nil
+		s.log.Warn("Private key does not belong to the public key", "file", s.privateKeyFile)
+		return nil
 	}
 
 	// Keys loaded and ready to sign with
-- 
2.43.0


From e6d8bee9084cde0322b8cfbbf3d7a97c1499db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:42 +0000
Subject: [PATCH 37/60] fix: plugins see and return complete entities and
 groups

The options and results of plugin calls crossed the link in gob encoding,
which drops pointers to zero values.  A key with an empty value lost a
required field on the way, and the entity could not be saved any more: with
any plugin loaded such an entity could not log in, be locked or be changed.
---
 internal/plugin/tree/common/rpc.go | 114 +++++++++++++++++++++++++++++
 1 file changed, 114 insertions(+)

diff --git a/internal/plugin/tree/common/rpc.go b/internal/plugin/tree/common/rpc.go
index 618bff1..89cbc8e 100644
--- a/internal/plugin/tree/common/rpc.go
+++ b/internal/plugin/tree/common/rpc.go
@@ -1,9 +1,14 @@
 package common
 
 import (
+	"bytes"
+	"encoding/gob"
 	"net/rpc"
 
+	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-plugin"
+
+	pb "github.com/netauth/protocol"
 )
 
 // Server returns a go-plugin compliant interface that handles the
@@ -51,3 +56,112 @@ func (c *GoPluginClient) ProcessGroup(opts PluginOpts) (PluginResult, error) {
 	err := c.client.Call("Plugin.ProcessGroup", opts, &res)
 	return res, err
 }
+
+// wireOpts and wireResult are the forms in which PluginOpts and
+// PluginResult cross the link.  The messages travel in their own
+// encoding, since gob drops pointers to zero values and with them for
+// example the empty values of a key.
+type wireOpts struct {
+	Action     PluginAction
+	Entity     []byte
+	DataEntity []byte
+	Group      []byte
+	DataGroup  []byte
+}
+
+type wireResult struct {
+	Entity []byte
+	Group  []byte
+}
+
+// marshal and unmarshal leave it to the storage layer to judge whether
+// a message is complete.
+func marshal(m proto.Message) ([]byte, error) {
+	b, err := proto.Marshal(m)
+	if _, ok := err.(*proto.RequiredNotSetError); err != nil && err != proto.ErrNil && !ok {
+		return nil, err
+	}
+	return b, nil
+}
+
+func unmarshal(b []byte, m proto.Message) error {
+	err := proto.Unmarshal(b, m)
+	if _, ok := err.(*proto.RequiredNotSetError); ok {
+		return nil
+	}
+	return err
+}
+
+// GobEncode implements the encoding of options on the link.
+func (o PluginOpts) GobEncode() ([]byte, error) {
+	w := wireOpts{Action: o.Action}
+	var err error
+	if w.Entity, err = marshal(o.Entity); err != nil {
+		return nil, err
+	}
+	if w.DataEntity, err = marshal(o.DataEntity); err != nil {
+		return nil, err
+	}
+	if w.Group, err = marshal(o.Group); err != nil {
+		return nil, err
+	}
+	if w.DataGroup, err = marshal(o.DataGroup); err != nil {
+		return nil, err
+	}
+	var buf bytes.Buffer
+	err = gob.NewEncoder(&buf).Encode(w)
+	return buf.Bytes(), err
+}
+
+// GobDecode implements the decoding of options on the link.
+func (o *PluginOpts) GobDecode(b []byte) error {
+	var w wireOpts
+	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&w); err != nil {
+		return err
+	}
+	*o = PluginOpts{
+		Action:     w.Action,
+		Entity:     &pb.Entity{},
+		DataEntity: &pb.Entity{},
+		Group:      &pb.Group{},
+		DataGroup:  &pb.Group{},
+	}
+	if err := unmarshal(w.Entity, o.Entity); err != nil {
+		return err
+	}
+	if err := unmarshal(w.DataEntity, o.DataEntity); err != nil {
+		return err
+	}
+	if err := unmarshal(w.Group, o.Group); err != nil {
+		return err
+	}
+	return unmarshal(w.DataGroup, o.DataGroup)
+}
+
+// GobEncode implements the encoding of results on the link.
+func (r PluginResult) GobEncode() ([]byte, error) {
+	var w wireResult
+	var err error
+	if w.Entity, err = marshal(&r.Entity); err != nil {
+		return nil, err
+	}
+	if w.Group, err = marshal(&r.Group); err != nil {
+		return nil, err
+	}
+	var buf bytes.Buffer
+	err = gob.NewEncoder(&buf).Encode(w)
+	return buf.Bytes(), err
+}
+
+// GobDecode implements the decoding of results on the link.
+func (r *PluginResult) GobDecode(b []byte) error {
+	var w wireResult
+	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&w); err != nil {
+		return err
+	}
+	*r = PluginResult{}
+	if err := unmarshal(w.Entity, &r.Entity); err != nil {
+		return err
+	}
+	return unmarshal(w.Group, &r.Group)
+}
-- 
2.43.0


From e4ed6c09fab0f7f81d707c18d0412281dcbd77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:42 +0000
Subject: [PATCH 38/60] fix: the health check of a plugin that did not start
 does not panic

---
 internal/plugin/tree/consumer/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index 59797e8..42bae15 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -80,6 +80,14 @@ func (r *Ref) healthCheck() health.SubsystemStatus {
 		Status: "Plugin is OK",
 	}
 
+	// The check is registered before the plugin is started, and
+	// remains registered if it then fails to start.
+	if r.client == nil {
+		status.OK = false
+		status.Status = "Plugin was not started"
+		return status
+	}
+
 	err := r.client.Ping()
 	if err != nil {
 		status.OK = false
-- 
2.43.0


From 9116dbf429fa7f86069157bf8bb13131c29856f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 39/60] fix: fail2lock handles entities that have no metadata

Entities have none until they are first updated; authenticating as one of
them crashed the plugin, after which nobody could authenticate any more.
---
 plugins/tree/fail2lock/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 69acbd6..338a646 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -66,6 +66,11 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	// Entities that were never updated have no metadata yet.
+	if e.Meta == nil {
+		e.Meta = &pb.EntityMeta{}
+	}
+
 	flags := util.PatchKeyValueSlice(e.Meta.UntypedMeta, "READ", "fail2lock", "")
 
 	if len(flags) == 1 && strings.Split(flags[0], ":")[1] == "RESET" {
-- 
2.43.0


From 97ccb2555d8f3ca564cc680e642d1a856b5a6109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 40/60] fix: fail2lock guards its table of failures

Simultaneous authentications wrote to the map at the same time, which ends
the plugin's process.
---
 plugins/tree/fail2lock/main.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 338a646..15acf03 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"os"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -51,6 +52,7 @@ func main() {
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
+		mu:         &sync.Mutex{},
 		failDB:     make(map[string][]time.Time),
 	})
 }
@@ -58,6 +60,9 @@ func main() {
 type fail2lock struct {
 	tree.NullPlugin
 
+	// mu guards failDB, since the server may ask about several
+	// entities at the same time.
+	mu     *sync.Mutex
 	failDB map[string][]time.Time
 }
 
@@ -66,6 +71,9 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	// Entities that were never updated have no metadata yet.
 	if e.Meta == nil {
 		e.Meta = &pb.EntityMeta{}
@@ -105,6 +113,9 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 // this case we will remove the fail2lock key from the entity's
 // metadata since they have successfully authenticated.
 func (f fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	delete(f.failDB, e.GetID())
 	return e, nil
 }
-- 
2.43.0


From c91709cc37c2343d2ac20a432ec3951f2b9b945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 41/60] fix: fail2lock uses its defaults for options left out

With only one of the two options set, the other one was zero instead of its
default: either every authentication was refused, or none ever locked.
---
 plugins/tree/fail2lock/main.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 15acf03..660f510 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -18,8 +18,6 @@ import (
 
 var (
 	appLogger hclog.Logger
-
-	cfg *viper.Viper
 )
 
 func init() {
@@ -42,13 +40,12 @@ func init() {
 
 	viper.SetDefault("plugin.fail2lock.allowed_fails", 3)
 	viper.SetDefault("plugin.fail2lock.interval", time.Minute*15)
-	cfg = viper.Sub("plugin.fail2lock")
 }
 
 func main() {
 	appLogger.Info("fail2lock initialized",
-		"allowed_fails", cfg.GetInt("allowed_fails"),
-		"interval", cfg.GetDuration("interval"))
+		"allowed_fails", viper.GetInt("plugin.fail2lock.allowed_fails"),
+		"interval", viper.GetDuration("plugin.fail2lock.interval"))
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
@@ -88,18 +85,18 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 	}
 
 	inIntervalFails := 0
-	startTime := time.Now().Add(cfg.GetDuration("interval") * -1)
+	startTime := time.Now().Add(viper.GetDuration("plugin.fail2lock.interval") * -1)
 	for _, t := range f.failDB[e.GetID()] {
 		if t.After(startTime) {
 			inIntervalFails++
 		}
 	}
 
-	if inIntervalFails >= cfg.GetInt("allowed_fails") {
+	if inIntervalFails >= viper.GetInt("plugin.fail2lock.allowed_fails") {
 		appLogger.Warn("fail2lock is locking an entity",
 			"entity", e.GetID(),
 			"fails", inIntervalFails,
-			"allowed", cfg.GetInt("allowed_fails"))
+			"allowed", viper.GetInt("plugin.fail2lock.allowed_fails"))
 		e.Meta.Locked = proto.Bool(true)
 		return e, nil
 	}
-- 
2.43.0


From 5780c14653374a064a9ff9ccf7da4f300af6d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 42/60] fix: reading a metadata key by index returns its values

---
 pkg/netauth/entity.go | 5 +++--
 pkg/netauth/group.go  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 1878d7d..9071151 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -117,8 +117,9 @@ func (c *Client) EntityUM(ctx context.Context, target, action, key, value string
 		kv := parseKV(res.GetStrings())
 		if key != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			// return a much sparser map.  Values are filed
+			// without the index the key may have.
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 153a978..973a882 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -111,8 +111,9 @@ func (c *Client) GroupUM(ctx context.Context, target, action, key, value string)
 		kv := parseKV(res.GetStrings())
 		if key != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			// return a much sparser map.  Values are filed
+			// without the index the key may have.
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
-- 
2.43.0


From d91dde189a7c72c4252f403dd056b3c0c0be7f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 43/60] fix: reading keys by a lower case type returns them

---
 pkg/netauth/entity.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 9071151..fef5a9f 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -265,8 +265,9 @@ func (c *Client) EntityKeys(ctx context.Context, id, action, ktype, key string)
 		kv := parseKV(res.GetStrings())
 		if ktype != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{ktype: kv[ktype]}, nil
+			// return a much sparser map.  The server keeps
+			// types in upper case.
+			return map[string][]string{ktype: kv[strings.ToUpper(ktype)]}, nil
 		}
 		return kv, nil
 	}
-- 
2.43.0


From f25756604b2fc62b45e1cf856a1d794a4d2f59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 44/60] fix: GroupInfo lists exactly the groups managed by the
 group

---
 pkg/netauth/group.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 973a882..a27d71d 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 
@@ -67,13 +68,21 @@ func (c *Client) GroupInfo(ctx context.Context, name string) (*pb.Group, []*pb.G
 		return nil, nil, err
 	}
 
-	res2, err := c.GroupSearch(ctx, fmt.Sprintf("ManagedBy:%s", name))
+	// Names are split into words for the index, so it can't be asked
+	// for an exact one.  Every group has a number.
+	res2, err := c.GroupSearch(ctx, fmt.Sprintf("Number:>=%d", math.MinInt32))
 	if err != nil {
 		c.log.Warn("Error searching", "error", err)
 		return res.GetGroups()[0], nil, nil
 	}
 
-	return res.GetGroups()[0], res2, nil
+	var managed []*pb.Group
+	for _, g := range res2 {
+		if g.GetManagedBy() == name {
+			managed = append(managed, g)
+		}
+	}
+	return res.GetGroups()[0], managed, nil
 }
 
 // GroupUM handles operations concerning the untyped key-value store
-- 
2.43.0


From bb54b849fdc3d8adcd6a86bd330163b4be607fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 45/60] fix: a cached token is never written to what was in its
 place

---
 pkg/netauth/cache/fs/fs.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index 449362a..94f8dd8 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -39,7 +39,24 @@ func new() (cache.TokenCache, error) {
 // The file will be written with the permissions of the curent user
 // and will not be readable to other users.
 func (fc *fsCache) PutToken(owner, token string) error {
-	return ioutil.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)
+	// A file that exists already may be readable to others, or
+	// may lead somewhere else entirely, so it is replaced rather
+	// than written to.
+	f, err := ioutil.TempFile(fc.basepath, "netauth-token-")
+	if err != nil {
+		return err
+	}
+	_, err = f.WriteString(token)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), fc.filepathFromOwner(owner))
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
 }
 
 // GetToken will retrieve a file of the form <owner>.<extension> and
-- 
2.43.0


From 7c806adaf640f420bee08e832ce3ae1aa879299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 46/60] fix: each owner has a token file of its own

---
 pkg/netauth/cache/fs/fs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index 94f8dd8..243f4bd 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -12,6 +12,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/netauth/netauth/pkg/netauth/cache"
 )
@@ -20,6 +21,10 @@ const (
 	extension = "nt"
 )
 
+// ownerReplacer makes a name that stands for a single file, and a
+// different one for each owner.
+var ownerReplacer = strings.NewReplacer("%", "%25", "/", "%2F")
+
 type fsCache struct {
 	basepath string
 }
@@ -89,6 +94,6 @@ func (fc *fsCache) DelToken(owner string) error {
 func (fc *fsCache) filepathFromOwner(owner string) string {
 	return filepath.Join(
 		fc.basepath,
-		fmt.Sprintf("%s.%s", owner, extension),
+		fmt.Sprintf("%s.%s", ownerReplacer.Replace(owner), extension),
 	)
 }
-- 
2.43.0


From 5cd546814bde8655c4c83214333758100da0e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:50 +0000
Subject: [PATCH 47/60] fix: only the exact secret matches a bcrypt hash

---
 internal/crypto/bcrypt/bcrypt.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/crypto/bcrypt/bcrypt.go b/internal/crypto/bcrypt/bcrypt.go
index 37ee50b..f6e0c9d 100644
--- a/internal/crypto/bcrypt/bcrypt.go
+++ b/internal/crypto/bcrypt/bcrypt.go
@@ -1,6 +1,9 @@
 package bcrypt
 
 import (
+	"crypto/sha512"
+	"strings"
+
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/pflag"
 	"github.com/spf13/viper"
@@ -40,7 +43,7 @@ func New(l hclog.Logger) (crypto.EMCrypto, error) {
 // SecureSecret takes in a secret and generates a bcrypt hash from it.
 // This is then returned for storage in the database.
 func (b *Engine) SecureSecret(secret string) (string, error) {
-	hash, err := bcrypt.GenerateFromPassword([]byte(secret), b.cost)
+	hash, err := bcrypt.GenerateFromPassword(input(secret), b.cost)
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
 		return "", crypto.ErrInternalError
@@ -52,10 +55,27 @@ func (b *Engine) SecureSecret(secret string) (string, error) {
 // returns either nil for a match or a crypto.ErrAuthorizationFailure
 // in the case that the secret did not match the stored one.
 func (b *Engine) VerifySecret(secret, hash string) error {
-	err := bcrypt.CompareHashAndPassword([]byte(hash), []byte(secret))
+	err := bcrypt.CompareHashAndPassword([]byte(hash), input(secret))
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
 		return crypto.ErrAuthorizationFailure
 	}
 	return nil
 }
+
+// maxInput is the number of bytes that BCrypt uses of its input.
+const maxInput = 72
+
+// input returns what is fed to BCrypt for a secret.  It ignores what
+// comes after maxInput bytes, and fills up shorter input by repeating
+// it with a zero byte in between, so that longer secrets and those
+// which contain zero bytes would be equivalent to others.  For these
+// it gets a hash, which is kept apart from other secrets by a zero
+// byte.
+func input(secret string) []byte {
+	if len(secret) <= maxInput && strings.IndexByte(secret, 0) < 0 {
+		return []byte(secret)
+	}
+	sum := sha512.Sum384([]byte(secret))
+	return append([]byte{0}, sum[:]...)
+}
-- 
2.43.0


From fe858946be13d891936dbe391d2245ffb86b7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:47 +0000
Subject: [PATCH 48/60] fix: send the key type when dropping a key with the
 command line tool

'netauth entity key drop' takes only the key, and left the type empty,
so that no key ever matched.
---
 internal/ctl/entity-keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctl/entity-keys.go b/internal/ctl/entity-keys.go
index 8972e5d..776c624 100644
--- a/internal/ctl/entity-keys.go
+++ b/internal/ctl/entity-keys.go
@@ -82,6 +82,7 @@ func entityKeysRun(cmd *cobra.Command, args []string) {
 		keyType = args[1]
 		key = args[2]
 	case "DROP":
+		keyType = "SSH"
 		key = args[1]
 	case "READ":
 		if len(args) == 2 {
-- 
2.43.0


From 4d3cd3266e5c9c0fd875200f3bda36f81e632dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:47 +0000
Subject: [PATCH 49/60] fix: let refused command lines exit with failure

---
 internal/ctl/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctl/root.go b/internal/ctl/root.go
index 2fdbafd..c61b6bc 100644
--- a/internal/ctl/root.go
+++ b/internal/ctl/root.go
@@ -78,6 +78,7 @@ func onInit() {
 func Execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From f4e759ae0954a80f11fd156622c6ee36d2ed962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:47 +0000
Subject: [PATCH 50/60] fix: don't use the secret of the request as a new
 secret

A secret given for authentication, by option or environment, was silently
taken for the initial secret of a new entity and for the new secret.
---
 internal/ctl/auth-changesecret.go |  4 ++--
 internal/ctl/entity-create.go     |  4 ++--
 internal/ctl/helpers.go           | 11 +++++++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/ctl/auth-changesecret.go b/internal/ctl/auth-changesecret.go
index 0640b44..cd0f311 100644
--- a/internal/ctl/auth-changesecret.go
+++ b/internal/ctl/auth-changesecret.go
@@ -60,8 +60,8 @@ func authChangeSecretRun(cmd *cobra.Command, args []string) {
 
 	// Get the secret if it wasn't specified on the line
 	if csSecret == "" {
-		one := getSecret("New Secret: ")
-		two := getSecret("Verify Secret: ")
+		one := askSecret("New Secret: ")
+		two := askSecret("Verify Secret: ")
 
 		if one != two {
 			fmt.Println("Secrets do not match!")
diff --git a/internal/ctl/entity-create.go b/internal/ctl/entity-create.go
index 516f249..7af2a9b 100644
--- a/internal/ctl/entity-create.go
+++ b/internal/ctl/entity-create.go
@@ -52,8 +52,8 @@ func init() {
 
 func entityCreateRun(cmd *cobra.Command, args []string) {
 	newEntityID = args[0]
-	if newSecret == "" {
-		newSecret = getSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
+	if !cmd.Flags().Changed("initial-secret") {
+		newSecret = askSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
 	}
 
 	ctx = netauth.Authorize(ctx, token())
diff --git a/internal/ctl/helpers.go b/internal/ctl/helpers.go
index 7f7868d..e0f5e6a 100644
--- a/internal/ctl/helpers.go
+++ b/internal/ctl/helpers.go
@@ -14,7 +14,7 @@ import (
 	pb "github.com/netauth/protocol"
 )
 
-// Prompt for the secret if it wasn't provided in cleartext.
+// Prompt for the request secret if it wasn't provided in cleartext.
 func getSecret(prompt string) string {
 	if prompt == "" {
 		prompt = "Secret: "
@@ -23,9 +23,16 @@ func getSecret(prompt string) string {
 	if viper.GetString("secret") != "" {
 		return viper.GetString("secret")
 	}
+	return askSecret(prompt)
+}
+
+// askSecret prompts for a secret.  It must be used for secrets other
+// than the one that authenticates the request.
+func askSecret(prompt string) string {
 	secret, err := speakeasy.Ask(prompt)
 	if err != nil {
-		fmt.Printf("Error: %s", err)
+		fmt.Printf("Error: %s\n", err)
+		os.Exit(1)
 	}
 	return secret
 }
-- 
2.43.0


From 86ff3e8ac40e7173c6cce30606c1b454cd4e3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:47 +0000
Subject: [PATCH 51/60] fix: refuse numbers that can't be transferred instead
 of wrapping them

---
 pkg/netauth/entity.go |  3 +++
 pkg/netauth/group.go  |  3 +++
 pkg/netauth/util.go   | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index fef5a9f..56959fd 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -17,6 +17,9 @@ import (
 // Passing a -1 for the number will select the next valid number and
 // assign it to this entity.
 func (c *Client) EntityCreate(ctx context.Context, id, secret string, number int) error {
+	if err := checkNumber(number); err != nil {
+		return err
+	}
 	if err := c.makeWritable(); err != nil {
 		return err
 	}
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index a27d71d..482391e 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -20,6 +20,9 @@ import (
 // another group from the start, pass the name of another group here
 // as the managed-by value in order to enable delegated management.
 func (c *Client) GroupCreate(ctx context.Context, name, displayName, managedBy string, number int) error {
+	if err := checkNumber(number); err != nil {
+		return err
+	}
 	if err := c.makeWritable(); err != nil {
 		return err
 	}
diff --git a/pkg/netauth/util.go b/pkg/netauth/util.go
index 9dfaf07..3e60f23 100644
--- a/pkg/netauth/util.go
+++ b/pkg/netauth/util.go
@@ -2,6 +2,8 @@ package netauth
 
 import (
 	"context"
+	"errors"
+	"math"
 	"regexp"
 	"sort"
 	"strconv"
@@ -69,3 +71,11 @@ func (c *Client) appendMetadata(ctx context.Context) context.Context {
 		"service-name", c.serviceName,
 	)
 }
+
+// checkNumber makes sure that a number is one that can be transferred.
+func checkNumber(number int) error {
+	if number < math.MinInt32 || number > math.MaxInt32 {
+		return errors.New("number is out of range")
+	}
+	return nil
+}
-- 
2.43.0


From 4be4511b5270554c1b0d7452a690ad273a84c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:47 +0000
Subject: [PATCH 52/60] fix: accept actions and capabilities in lower case as
 documented

---
 pkg/netauth/system.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/system.go b/pkg/netauth/system.go
index 0ea91f8..393bb42 100644
--- a/pkg/netauth/system.go
+++ b/pkg/netauth/system.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 
 	pb "github.com/netauth/protocol"
 	rpc "github.com/netauth/protocol/v2"
@@ -21,12 +22,12 @@ func (c *Client) SystemCapabilities(ctx context.Context, target, action, capabil
 	}
 
 	ctx = c.appendMetadata(ctx)
-	cap, ok := pb.Capability_value[capability]
+	cap, ok := pb.Capability_value[strings.ToUpper(capability)]
 	if !ok {
 		return fmt.Errorf("%s is not a recognized capability", capability)
 	}
 
-	a, ok := rpc.Action_value[action]
+	a, ok := rpc.Action_value[strings.ToUpper(action)]
 	if !ok {
 		return errors.New("action must be one of ADD, DROP")
 	}
-- 
2.43.0


From a8a00e9b31db825838f872f6b60c97e0109254b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:48 +0000
Subject: [PATCH 53/60] fix: end nsutil with an error when the command line is
 refused

---
 cmd/nsutil/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/nsutil/root.go b/cmd/nsutil/root.go
index 56d5bf1..9c4a3c9 100644
--- a/cmd/nsutil/root.go
+++ b/cmd/nsutil/root.go
@@ -52,5 +52,6 @@ func onInit() {
 func execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From be3464072db443146484cd65d796d91886a5c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:48 +0000
Subject: [PATCH 54/60] fix: end with an error when the configuration can't be
 written

---
 cmd/netauthd/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/netauthd/main.go b/cmd/netauthd/main.go
index e12621b..20f1c45 100644
--- a/cmd/netauthd/main.go
+++ b/cmd/netauthd/main.go
@@ -233,7 +233,9 @@ func main() {
 	// file with all the default options.  When the config file is
 	// being written the server will not start.
 	if *writeDefConfig != "" {
-		writeDefaultConfig()
+		if err := writeDefaultConfig(); err != nil {
+			os.Exit(1)
+		}
 		os.Exit(0)
 	}
 
-- 
2.43.0


From 78109c9aaae2ed44e11545e6c13c77e141c51bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:48 +0000
Subject: [PATCH 55/60] fix: don't serve when the bootstrap has failed

---
 cmd/netauthd/main.go    | 4 +++-
 internal/rpc2/type.go   | 2 +-
 internal/tree/entity.go | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/netauthd/main.go b/cmd/netauthd/main.go
index 20f1c45..822da8d 100644
--- a/cmd/netauthd/main.go
+++ b/cmd/netauthd/main.go
@@ -217,7 +217,9 @@ func doSuperuserBootstrap(t *tree.Manager) error {
 	}
 	appLogger.Info("Beginning Bootstrap")
 	eParts := strings.SplitN(*bootstrap, ":", 2)
-	t.Bootstrap(eParts[0], eParts[1])
+	if err := t.Bootstrap(eParts[0], eParts[1]); err != nil {
+		return err
+	}
 	appLogger.Info("Bootstrap complete")
 	return nil
 }
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index a91cbb2..b0b32a8 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -39,7 +39,7 @@ type Manager interface {
 	RegisterEntityHookToChain(string, string) error
 	RegisterGroupHookToChain(string, string) error
 
-	Bootstrap(string, string)
+	Bootstrap(string, string) error
 	DisableBootstrap()
 
 	CreateEntity(string, int32, string) error
diff --git a/internal/tree/entity.go b/internal/tree/entity.go
index 5810139..2dce6ac 100644
--- a/internal/tree/entity.go
+++ b/internal/tree/entity.go
@@ -35,9 +35,9 @@ func (m *Manager) CreateEntity(ID string, number int32, secret string) error {
 // only be called once during startup, attepts to call it again will
 // result in no change.  The bootstrap user will always get the next
 // available number which in most cases will be 1.
-func (m *Manager) Bootstrap(ID string, secret string) {
+func (m *Manager) Bootstrap(ID string, secret string) error {
 	if m.bootstrapDone {
-		return
+		return nil
 	}
 
 	de := &pb.Entity{
@@ -54,6 +54,7 @@ func (m *Manager) Bootstrap(ID string, secret string) {
 	if err != nil {
 		m.log.Error("Bootstrap Failed", "error", err)
 	}
+	return err
 }
 
 // DisableBootstrap disables the ability to bootstrap after the
-- 
2.43.0


From e05774e8c11787c480b4d42f9573e73198c59913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:48 +0000
Subject: [PATCH 56/60] fix: leave no plugins running when the server doesn't
 start

---
 cmd/netauthd/main.go                    | 32 +++++++++++++++----------
 internal/plugin/tree/manager/manager.go |  1 +
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/cmd/netauthd/main.go b/cmd/netauthd/main.go
index 822da8d..0b63d79 100644
--- a/cmd/netauthd/main.go
+++ b/cmd/netauthd/main.go
@@ -269,26 +269,38 @@ func main() {
 	// be available.
 	startup.DoCallbacks()
 
+	// From here on there may be plugins to shut down in the event
+	// of a process interrupt or termination signal.
+	c := make(chan os.Signal, 1)
+	signal.Notify(c, os.Interrupt, syscall.SIGTERM)
+
 	// The plugin system requires initialization very early in the
 	// server startup.  This will scan for and register external
 	// plugins, and register the hooks that support the plugin
 	// system.
 	pluginManager := doPluginEarlySetup()
 
+	// Plugins are processes of their own, which must not be left
+	// running if the server fails to start.
+	fatal := func() {
+		pluginManager.Shutdown()
+		os.Exit(1)
+	}
+
 	// The data storage layer and cryptographic engine are next to
 	// initialize.  These modules provide core services to the
 	// entity tree which initializes immediately afterwards.
 	dbImpl, err := db.New(viper.GetString("db.backend"))
 	if err != nil {
 		appLogger.Error("Fatal database error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 	appLogger.Info("Database initialized", "backend", viper.GetString("db.backend"))
 
 	cryptoImpl, err := crypto.New(viper.GetString("crypto.backend"))
 	if err != nil {
 		appLogger.Error("Fatal crypto error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 
 	// The Tree is the core component of the server.  Its the part
@@ -301,7 +313,7 @@ func main() {
 	tree, err := tree.New(dbImpl, cryptoImpl, appLogger)
 	if err != nil {
 		appLogger.Error("Fatal initialization error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 	if viper.GetBool("plugin.enabled") {
 		pluginManager.ConfigureEntityChains(tree.RegisterEntityHookToChain)
@@ -315,7 +327,7 @@ func main() {
 	// persisted to disk.
 	if err := dbImpl.EventUpdateAll(); err != nil {
 		appLogger.Error("Error during initial event preload", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 
 	// Bootstrapping a new server, or recovering from certain
@@ -330,7 +342,7 @@ func main() {
 	if len(*bootstrap) != 0 {
 		if err := doSuperuserBootstrap(tree); err != nil {
 			appLogger.Error("Critical error during superuser bootstrap", "error", err)
-			os.Exit(1)
+			fatal()
 		}
 	}
 	tree.DisableBootstrap()
@@ -343,7 +355,7 @@ func main() {
 	tokenService, err := token.New(viper.GetString("token.backend"))
 	if err != nil {
 		appLogger.Error("Fatal token error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 	appLogger.Info("Token backend successfully initialized", "backend", viper.GetString("token.backend"))
 
@@ -355,7 +367,7 @@ func main() {
 	// insecure server is returned.
 	grpcServer, err := newGRPCServer()
 	if err != nil {
-		os.Exit(1)
+		fatal()
 	}
 
 	// A NetAuth server may serve more than one protocol version
@@ -378,10 +390,6 @@ func main() {
 	// not leak processes.  Any additional parallel shutdown tasks
 	// should be added to the goroutine which will be signalled in
 	// the event of a process interrupt or termination signal.
-	c := make(chan os.Signal, 1)
-	go func() {
-		signal.Notify(c, os.Interrupt, syscall.SIGTERM)
-	}()
 	done := make(chan struct{}, 1)
 	go func() {
 		<-c
@@ -401,7 +409,7 @@ func main() {
 	appLogger.Info("Ready to Serve...")
 	sock, err := newSocket()
 	if err != nil {
-		os.Exit(1)
+		fatal()
 	}
 	grpcServer.Serve(sock)
 
diff --git a/internal/plugin/tree/manager/manager.go b/internal/plugin/tree/manager/manager.go
index 78655e5..6e80010 100644
--- a/internal/plugin/tree/manager/manager.go
+++ b/internal/plugin/tree/manager/manager.go
@@ -59,6 +59,7 @@ func (m *Manager) LoadPlugins() {
 		}
 		if err := im.Init(); err != nil {
 			m.logger.Warn("Error initializing plugin", "error", err)
+			im.Shutdown()
 			continue
 		}
 		m.plugins[p] = im
-- 
2.43.0


From a03e5cdef372a0b4c8f04c6a7b191fff03b01b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:25 +0000
Subject: [PATCH 57/60] fix: don't crash when a client has no usable key of the
 server

---
 pkg/netauth/netauth.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/netauth/netauth.go b/pkg/netauth/netauth.go
index fa23b96..894dfe9 100644
--- a/pkg/netauth/netauth.go
+++ b/pkg/netauth/netauth.go
@@ -64,6 +64,7 @@ func NewWithLog(l hclog.Logger) (*Client, error) {
 	ts, err := token.New(viper.GetString("token.backend"))
 	if err != nil {
 		l.Warn("Token service initialization error", "error", err)
+		ts = unavailableTokens{}
 	}
 
 	hn, err := os.Hostname()
@@ -82,6 +83,19 @@ func NewWithLog(l hclog.Logger) (*Client, error) {
 	}, nil
 }
 
+// unavailableTokens takes the place of a token service that could not
+// be initialized, for example because the key of the server isn't
+// there.  The client is still able to make requests then.
+type unavailableTokens struct{}
+
+func (unavailableTokens) Generate(token.Claims, token.Config) (string, error) {
+	return "", token.ErrKeyUnavailable
+}
+
+func (unavailableTokens) Validate(string) (token.Claims, error) {
+	return token.Claims{}, token.ErrKeyUnavailable
+}
+
 // New returns a client initialized, connected, and ready to use.
 func New() (*Client, error) {
 	return NewWithLog(hclog.L().Named("cli"))
-- 
2.43.0


From 789b977a51ca93814756af922200f7e304fee28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:25 +0000
Subject: [PATCH 58/60] fix: refuse empty values, which bitcask takes for
 deleted

---
 internal/db/bitcask/bitcask.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index c0ba110..ebf79a3 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -59,7 +59,10 @@ const (
 	maxValueSize = 1024 * 1000 * 5 // 5MiB
 )
 
-var errIncomplete = errors.New("not all of the data could be read")
+var (
+	errIncomplete = errors.New("not all of the data could be read")
+	errEmptyValue = errors.New("empty values can't be stored")
+)
 
 // New creates a new instance of the bitcask store.
 func New(l hclog.Logger) (db.KVStore, error) {
@@ -221,6 +224,11 @@ func completeRecords(b []byte) int {
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
+	// Which bitcask takes for deleted when the store is next opened.
+	if len(v) == 0 {
+		return errEmptyValue
+	}
+
 	err := bcs.change(func() error { return bcs.s.Put([]byte(k), v) })
 	if err != nil {
 		return err
-- 
2.43.0


From d8be704896a47b43116edfbf98195a2be0fea0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:08 +0000
Subject: [PATCH 59/60] fix: report the health of plugins that have the same
 name

The checks were registered by the plugin's name alone, so that of a
second plugin of that name in another directory was refused and the
status remained fine after it had died.
---
 internal/plugin/tree/consumer/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index 42bae15..2f61b36 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -41,7 +41,8 @@ func (r *Ref) Shutdown() {
 // Init sets up the plugin and gets it running, an expectation exists
 // that the ref will be stored during the lifetime of the server.
 func (r *Ref) Init() error {
-	health.RegisterCheck("plugin-"+r.Name(), r.healthCheck)
+	// Plugins in different directories may have the same name.
+	health.RegisterCheck("plugin-"+r.path, r.healthCheck)
 
 	r.cfg = plugin.NewClient(&plugin.ClientConfig{
 		HandshakeConfig: handshakeConfig,
-- 
2.43.0


From 28444384d5fa1db10a6489a215790a44f3f1c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:08 +0000
Subject: [PATCH 60/60] fix: start a plugin once that is listed more than once

Only the last of its processes was kept track of, the others were left
running when the server was shut down.
---
 internal/plugin/tree/manager/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/plugin/tree/manager/manager.go b/internal/plugin/tree/manager/manager.go
index 6e80010..3c43954 100644
--- a/internal/plugin/tree/manager/manager.go
+++ b/internal/plugin/tree/manager/manager.go
@@ -51,6 +51,10 @@ func (m *Manager) LoadPlugins() {
 		}
 	}
 	for _, p := range list {
+		if _, ok := m.plugins[p]; ok {
+			m.logger.Warn("Plugin is listed more than once", "plugin", p)
+			continue
+		}
 		m.logger.Trace("Loading new plugin", "plugin", p)
 		im, err := consumer.New(p)
 		if err != nil {
-- 
2.43.0

