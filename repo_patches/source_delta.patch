From b78f9acc4e3bda8b4f7cf785cdae4a11e12d535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 01/22] fix: multirepo returns the target info that reached the
 threshold

The result pointed at the loop variable, which (the module is go1.21) is
shared by all iterations, so a later group below the threshold replaced it.
---
 metadata/multirepo/multirepo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 019bfad..7d278e3 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -261,7 +261,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 					// we went through all repositories listed in that mapping
 					// lets see if we have matched the threshold consensus for the given target file
 					var result *targetMatch
-					for _, target := range matchedTargetGroups {
+					for i, target := range matchedTargetGroups {
 						// compare thresholds for each target info we found with the value stated for its mapping
 						if len(target.repositories) >= eachMap.Threshold {
 							// this target has enough repositories signed for it
@@ -272,7 +272,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
 							} else {
 								// this is the first target we found matching the necessary threshold so save it
-								result = &target
+								result = &matchedTargetGroups[i]
 							}
 						}
 					}
-- 
2.43.0


From 0972a2b5190966f3353233e7b4bdd96ec9f7b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 02/22] fix: search delegated roles in order of appearance

The order of the delegations is their order of priority, but the walk
ranged over a map, so which role won, and whether a terminating delegation
was honoured, depended on random map iteration order.
---
 metadata/metadata.go        | 19 ++++++++++++++++---
 metadata/types.go           |  7 +++++++
 metadata/updater/updater.go | 10 +++++-----
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c017773..52aff59 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -551,17 +551,30 @@ func isTargetInPathPattern(targetpath string, pathpattern string) bool {
 // delegated roles who are responsible for targetFilepath
 func (role *Delegations) GetRolesForTarget(targetFilepath string) map[string]bool {
 	res := map[string]bool{}
+	for _, r := range role.GetOrderedRolesForTarget(targetFilepath) {
+		res[r.Name] = r.Terminating
+	}
+	return res
+}
+
+// GetOrderedRolesForTarget return the names and terminating status of all
+// delegated roles who are responsible for targetFilepath in order of
+// appearance, which is their order of priority
+func (role *Delegations) GetOrderedRolesForTarget(targetFilepath string) []RoleResult {
+	res := []RoleResult{}
 	// standard delegations
 	if role.Roles != nil {
 		for _, r := range role.Roles {
 			ok, err := r.IsDelegatedPath(targetFilepath)
 			if err == nil && ok {
-				res[r.Name] = r.Terminating
+				res = append(res, RoleResult{Name: r.Name, Terminating: r.Terminating})
 			}
 		}
 	} else if role.SuccinctRoles != nil {
-		// SuccinctRoles delegations
-		res = role.SuccinctRoles.GetRolesForTarget(targetFilepath)
+		// SuccinctRoles delegations always yield a single role
+		for name, terminating := range role.SuccinctRoles.GetRolesForTarget(targetFilepath) {
+			res = append(res, RoleResult{Name: name, Terminating: terminating})
+		}
 	}
 	return res
 }
diff --git a/metadata/types.go b/metadata/types.go
index 81f8cbc..6289aba 100644
--- a/metadata/types.go
+++ b/metadata/types.go
@@ -165,3 +165,10 @@ type SuccinctRoles struct {
 	NamePrefix         string         `json:"name_prefix"`
 	UnrecognizedFields map[string]any `json:"-"`
 }
+
+// RoleResult represents the name and terminating status of a delegated role
+// that is responsible for a target path
+type RoleResult struct {
+	Name        string
+	Terminating bool
+}
diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d38a049..709ebf3 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -543,11 +543,11 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 			childRolesToVisit := []roleParentTuple{}
 			// note that this may be a slow operation if there are many
 			// delegated roles
-			roles := targets.Signed.Delegations.GetRolesForTarget(targetFilePath)
-			for child, terminating := range roles {
-				log.Info("Adding child role", "role", child)
-				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child, Parent: delegation.Role})
-				if terminating {
+			roles := targets.Signed.Delegations.GetOrderedRolesForTarget(targetFilePath)
+			for _, child := range roles {
+				log.Info("Adding child role", "role", child.Name)
+				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child.Name, Parent: delegation.Role})
+				if child.Terminating {
 					log.Info("Not backtracking to other roles")
 					delegationsToVisit = []roleParentTuple{}
 					break
-- 
2.43.0


From 1244429a345a24d54ba4e6d2ef6cf1900037dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 03/22] fix: do not panic on metadata without a signed portion
 or type

Any party able to alter the bytes of a response or of a cached file,
without any key, could crash the client.
---
 metadata/metadata.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 52aff59..e2c5f8b 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -894,7 +894,14 @@ func checkType[T Roles](data []byte) error {
 	if err := json.Unmarshal(data, &m); err != nil {
 		return err
 	}
-	signedType := m["signed"].(map[string]any)["_type"].(string)
+	signed, ok := m["signed"].(map[string]any)
+	if !ok {
+		return ErrValue{Msg: "metadata has no signed portion"}
+	}
+	signedType, ok := signed["_type"].(string)
+	if !ok {
+		return ErrValue{Msg: "metadata has no type"}
+	}
 	switch i.(type) {
 	case *RootType:
 		if ROOT != signedType {
-- 
2.43.0


From 05a1649313b61740c2c066b2e379ea58705afdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 04/22] fix: do not panic on malformed signed metadata

Signed metadata with null entries, no snapshot information, a role missing
from the snapshot, a bit length outside 1..32 or an ed25519 key of the wrong
size crashed the client instead of being rejected.
---
 metadata/keys.go            |  3 +++
 metadata/marshal.go         | 31 +++++++++++++++++++++++++++++++
 metadata/updater/updater.go |  5 ++++-
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/metadata/keys.go b/metadata/keys.go
index f5150a6..0d1c849 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -71,6 +71,9 @@ func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(publicKey) != ed25519.PublicKeySize {
+			return nil, fmt.Errorf("invalid ed25519 public key")
+		}
 		ed25519Key := ed25519.PublicKey(publicKey)
 		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
 		if _, err := x509.MarshalPKIXPublicKey(ed25519Key); err != nil {
diff --git a/metadata/marshal.go b/metadata/marshal.go
index 7d262c7..c94d9cf 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -15,6 +15,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
+	"fmt"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -41,6 +42,16 @@ func (signed *RootType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	for id, key := range s.Keys {
+		if key == nil {
+			return ErrValue{Msg: fmt.Sprintf("key %s is empty", id)}
+		}
+	}
+	for name, role := range s.Roles {
+		if role == nil {
+			return ErrValue{Msg: fmt.Sprintf("role %s is empty", name)}
+		}
+	}
 	*signed = RootType(s)
 
 	var dict map[string]any
@@ -77,6 +88,11 @@ func (signed *SnapshotType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	for name, metaFile := range s.Meta {
+		if metaFile == nil {
+			return ErrValue{Msg: fmt.Sprintf("meta information for %s is empty", name)}
+		}
+	}
 	*signed = SnapshotType(s)
 
 	var dict map[string]any
@@ -111,6 +127,10 @@ func (signed *TimestampType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	// the snapshot information is what a timestamp exists for
+	if name := fmt.Sprintf("%s.json", SNAPSHOT); s.Meta[name] == nil {
+		return ErrValue{Msg: fmt.Sprintf("timestamp does not contain information for %s", name)}
+	}
 	*signed = TimestampType(s)
 
 	var dict map[string]any
@@ -152,6 +172,9 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 
 	// populate the path field for each target
 	for name, targetFile := range signed.Targets {
+		if targetFile == nil {
+			return ErrValue{Msg: fmt.Sprintf("target information for %s is empty", name)}
+		}
 		targetFile.Path = name
 	}
 
@@ -440,6 +463,11 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	for id, key := range a.Keys {
+		if key == nil {
+			return ErrValue{Msg: fmt.Sprintf("key %s is empty", id)}
+		}
+	}
 	*d = Delegations(a)
 
 	var dict map[string]any
@@ -514,6 +542,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.BitLength < 1 || a.BitLength > 32 {
+		return ErrValue{Msg: fmt.Sprintf("bit length must be between 1 and 32, got %d", a.BitLength)}
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 709ebf3..7dec7a1 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -434,7 +434,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
 	// extract the targets meta from the trusted snapshot metadata
-	metaInfo := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	if !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
+	}
 	// extract the length of the target metadata to be downloaded
 	length := metaInfo.Length
 	if length == 0 {
-- 
2.43.0


From 8089247cbb49306fe6f997ce4d00219cb7676b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 05/22] fix: reject metadata that sets a signature threshold
 below one

With a threshold of zero or less any document is accepted for that role,
whether or not it carries a signature.
---
 metadata/marshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index c94d9cf..413fd47 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -430,6 +430,9 @@ func (role *Role) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
+	}
 	*role = Role(a)
 
 	var dict map[string]any
@@ -508,6 +511,9 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
+	}
 	*role = DelegatedRole(a)
 
 	var dict map[string]any
@@ -545,6 +551,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if a.BitLength < 1 || a.BitLength > 32 {
 		return ErrValue{Msg: fmt.Sprintf("bit length must be between 1 and 32, got %d", a.BitLength)}
 	}
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
-- 
2.43.0


From 0c68a939193cf362dd17c9e8d838c7bae903b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 06/22] fix: reject targets metadata that lists a target
 without hashes

Hashes are mandatory for targets: without any, every content of the listed
length passes verification.
---
 metadata/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 413fd47..08024d9 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -175,6 +175,10 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 		if targetFile == nil {
 			return ErrValue{Msg: fmt.Sprintf("target information for %s is empty", name)}
 		}
+		// without a hash any content of the right length would be accepted
+		if len(targetFile.Hashes) == 0 {
+			return ErrValue{Msg: fmt.Sprintf("no hashes found for target %s", name)}
+		}
 		targetFile.Path = name
 	}
 
-- 
2.43.0


From 3030ddab69650ad05d19a89a88a93f49c4d6de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 07/22] fix: reject delegations to an empty or top-level role
 name

A delegated role called root, timestamp or snapshot replaced the cached
top-level metadata file of that name.
---
 metadata/marshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 08024d9..fbcdfbb 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -475,6 +475,12 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 			return ErrValue{Msg: fmt.Sprintf("key %s is empty", id)}
 		}
 	}
+	for _, role := range a.Roles {
+		switch role.Name {
+		case "", ROOT, TIMESTAMP, SNAPSHOT, TARGETS:
+			return ErrValue{Msg: fmt.Sprintf("delegated role cannot be named %q", role.Name)}
+		}
+	}
 	*d = Delegations(a)
 
 	var dict map[string]any
-- 
2.43.0


From cc66443b8b57df1e90fa8614c947b6c6bcab36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 08/22] fix: download metadata again when the cached copy is
 damaged

Only some verification errors of a cached file led to a download. A
truncated or otherwise unparsable file made every later update fail until
somebody removed it by hand.
---
 metadata/updater/updater.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 7dec7a1..0f9dab5 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -300,8 +300,8 @@ func (update *Updater) loadTimestamp() error {
 		// local timestamp exists, let's try to verify it and load it to the trusted metadata set
 		_, err := update.trusted.UpdateTimestamp(data)
 		if err != nil {
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local timestamp is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.As(err, &metadata.ErrRuntime{}) {
+				// local timestamp is not valid or is damaged, proceed downloading from remote
 				log.Info("Local timestamp is not valid")
 			} else {
 				// another error
@@ -349,8 +349,8 @@ func (update *Updater) loadSnapshot() error {
 		_, err = update.trusted.UpdateSnapshot(data, true)
 		if err != nil {
 			// this means snapshot verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local snapshot is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.As(err, &metadata.ErrRuntime{}) {
+				// local snapshot is not valid or is damaged, proceed downloading from remote
 				log.Info("Local snapshot is not valid")
 			} else {
 				// another error
@@ -415,8 +415,8 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		delegatedTargets, err := update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
 		if err != nil {
 			// this means targets verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local target file is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.As(err, &metadata.ErrRuntime{}) {
+				// local target file is not valid or is damaged, proceed downloading from remote
 				log.Info("Local role is not valid", "role", roleName)
 			} else {
 				// another error
-- 
2.43.0


From bf07627260510c0483ece79f39e665f0eb267a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 09/22] fix: persist metadata without leaks and durably

The temporary file was created in the working directory, which may be
read-only or on another file system, its descriptor was never closed, it was
left behind when the rename failed, and it was not flushed before replacing
the current file, so a power failure could leave an empty one.
---
 metadata/updater/updater.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 0f9dab5..d06f7f6 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -581,30 +581,32 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	}
 	// caching enabled, proceed with persisting the metadata locally
 	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
-	cwd, err := os.Getwd()
+	// create a temporary file next to the desired one, so it can be renamed to it
+	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
 		return err
 	}
-	// create a temporary file
-	file, err := os.CreateTemp(cwd, "tuf_tmp")
-	if err != nil {
-		return err
+	// write the data content to the temporary file and make sure it reaches
+	// the disk before it replaces the current one
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Sync()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	// if all okay, rename the temporary file to the desired one
+	if err == nil {
+		err = os.Rename(file.Name(), fileName)
 	}
-	// write the data content to the temporary file
-	err = os.WriteFile(file.Name(), data, 0644)
 	if err != nil {
-		// delete the temporary file if there was an error while writing
+		// delete the temporary file if there was an error
 		errRemove := os.Remove(file.Name())
 		if errRemove != nil {
 			log.Info("Failed to delete temporary file", "name", file.Name())
 		}
 		return err
 	}
-	// if all okay, rename the temporary file to the desired one
-	err = os.Rename(file.Name(), fileName)
-	if err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From e09ba95061a38e55d4ba797fbc44a1803a8acc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 10/22] fix: read cached role metadata under the name it is
 stored as

The file name is escaped when it is written but was not when it is read: a
role with a special character never used its cached copy, and a name with
path separators was read from outside the metadata directory.
---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d06f7f6..d66440d 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -406,7 +406,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, roleName))
+	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
-- 
2.43.0


From 76ff16312fef14fb4085781f2f77958684e46af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 11/22] fix: put the hash prefix of a target on its file name

With consistent snapshots a target two or more directories deep was
requested as a/HASH.b/name instead of a/b/HASH.name.
---
 metadata/updater/updater.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d66440d..d1cac4a 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -19,6 +19,7 @@ import (
 	"net/http"
 	"net/url"
 	"os"
+	"path"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -225,14 +226,9 @@ func (update *Updater) DownloadTarget(targetFile *metadata.TargetFiles, filePath
 			hashes = hex.EncodeToString(v)
 			break
 		}
-		dirName, baseName, ok := strings.Cut(targetFilePath, "/")
-		if !ok {
-			// <hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s.%s", hashes, dirName)
-		} else {
-			// <dir-prefix>/<hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s/%s.%s", dirName, hashes, baseName)
-		}
+		// <dir-prefix>/<hash>.<target-name>, the prefix belongs to the last path element
+		dirName, baseName := path.Split(targetFilePath)
+		targetFilePath = fmt.Sprintf("%s%s.%s", dirName, hashes, baseName)
 	}
 	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFilePath)
 	data, err := update.cfg.Fetcher.DownloadFile(fullURL, targetFile.Length, time.Second*15)
-- 
2.43.0


From 4fc994fc359cd43a7b0415531b049592dbff5afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 12/22] fix: treat the local targets directory as a file path,
 not a URL

A directory name with a space, percent sign, question mark or hash sign was
escaped, rejected or cut short, so targets were stored elsewhere or not at all.
---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d1cac4a..da574af 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -625,7 +625,7 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 		return "", metadata.ErrValue{Msg: "LocalTargetsDir must be set if filepath is not given"}
 	}
 	// Use URL encoded target path as filename
-	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
+	return filepath.Join(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path)), nil
 }
 
 // loadLocalMetadata reads a local <roleName>.json file and returns its bytes
-- 
2.43.0


From fb41d628f45338613e432422cf0f43990a4edf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 13/22] fix: do not download delegated roles in unsafe local
 mode

The mode promises that no network interaction is performed.
---
 metadata/updater/updater.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index da574af..e58db68 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -424,6 +424,9 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 			return delegatedTargets, nil
 		}
 	}
+	if update.cfg.UnsafeLocalMode {
+		return nil, fmt.Errorf("no valid local metadata for role %s", roleName)
+	}
 	// local "roleName" does not exist or is invalid, update from remote
 	log.Info("Failed to load local role", "role", roleName)
 	if update.trusted.Snapshot == nil {
-- 
2.43.0


From e5348182aa447901da82fcc9ca8eb44e452f6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 14/22] fix: verify an already loaded role against each of its
 delegators

A role reached through a second delegator was used without the signatures
that delegator asks for, depending on which lookups happened before.
---
 metadata/updater/updater.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index e58db68..c4e8d8e 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -399,6 +399,12 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 	// avoid loading "roleName" more than once during "GetTargetInfo"
 	role, ok := update.trusted.Targets[roleName]
 	if ok {
+		// it may have been loaded on behalf of another delegator, which trusts other keys
+		if delegator, ok := update.trusted.Targets[parentName]; ok {
+			if err := delegator.VerifyDelegate(roleName, role); err != nil {
+				return nil, err
+			}
+		}
 		return role, nil
 	}
 	// try to read local targets
-- 
2.43.0


From 871855bd9e7a730047ac26933819e14455c05444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 15/22] fix: allow a multirepo client without a common targets
 directory

The documented fallback to a targets folder per repository could never be
used, since creating the directory named "" fails.
---
 metadata/multirepo/multirepo.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 7d278e3..632e1b8 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -334,7 +334,12 @@ func (cfg *MultiRepoConfig) EnsurePathsExist() error {
 	if cfg.DisableLocalCache {
 		return nil
 	}
-	for _, path := range []string{cfg.LocalMetadataDir, cfg.LocalTargetsDir} {
+	paths := []string{cfg.LocalMetadataDir}
+	// without it each repository uses a targets folder of its own
+	if len(cfg.LocalTargetsDir) != 0 {
+		paths = append(paths, cfg.LocalTargetsDir)
+	}
+	for _, path := range paths {
 		err := os.MkdirAll(path, os.ModePerm)
 		if err != nil {
 			return err
-- 
2.43.0


From e2f35c449936536221cb0cbfdab929e00f9c7c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 16/22] fix: keep every multirepo repository in a metadata
 folder of its own

A repository name with path separators or dots put the metadata of that
repository outside the metadata directory or into the folder of another one.
---
 metadata/multirepo/multirepo.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 632e1b8..d46335d 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -16,6 +16,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/rdimitrov/go-tuf-metadata/metadata"
 	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
@@ -105,6 +106,11 @@ func (client *MultiRepoClient) initTUFClients() error {
 
 	// loop through each repository listed in the map file and initialize it
 	for repoName, repoURL := range client.Config.RepoMap.Repositories {
+		// the name is used for the folder of this repository, which has to be one of its own
+		if repoName == "" || repoName == "." || repoName == ".." || strings.ContainsAny(repoName, "/\\") {
+			return fmt.Errorf("invalid repository name - %q", repoName)
+		}
+
 		log.Info("Initializing", "name", repoName, "url", repoURL[0])
 
 		// get the trusted root file from the location specified in the map file relevant to its path
-- 
2.43.0


From a8cfa5fc31cec7b7b230e25663176c42d72e4602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 17/22] fix: reject a malformed multirepo map file instead of
 crashing

A null map or mapping, a mapping that names an unknown repository and a
repository without a URL all led to a panic later on.
---
 metadata/multirepo/multirepo.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index d46335d..b496cf2 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -70,8 +70,25 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 		return nil, err
 	}
 
+	if mapFile == nil {
+		return nil, fmt.Errorf("failed to create multi-repository config: the map file is empty")
+	}
+	for _, mapping := range mapFile.Mapping {
+		if mapping == nil {
+			return nil, fmt.Errorf("failed to create multi-repository config: the map file has an empty mapping")
+		}
+		for _, repo := range mapping.Repositories {
+			if _, ok := mapFile.Repositories[repo]; !ok {
+				return nil, fmt.Errorf("mapping refers to an unknown repository - %s", repo)
+			}
+		}
+	}
+
 	// make sure we have enough trusted root metadata files provided based on the repository list
-	for repo := range mapFile.Repositories {
+	for repo, urls := range mapFile.Repositories {
+		if len(urls) == 0 {
+			return nil, fmt.Errorf("no URL provided for repository - %s", repo)
+		}
 		// check if we have a trusted root metadata for this repository
 		_, ok := roots[repo]
 		if !ok {
-- 
2.43.0


From 51dfcf56baab094b820bddcccb4e5e7c57d55dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 18/22] fix: count a key listed under several key IDs once

---
 metadata/metadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index e2c5f8b..940b5ca 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -17,6 +17,7 @@ import (
 	"crypto/hmac"
 	"crypto/sha256"
 	"crypto/sha512"
+	"crypto/x509"
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
@@ -364,8 +365,13 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 			// failed to verify the metadata with that key ID
 			log.Info("Failed to verify %s with key ID %s", delegatedRole, keyID)
 		} else {
-			// save the verified keyID only if verification passed
-			signingKeys[keyID] = true
+			// save the verified key only if verification passed, the same key
+			// counts once no matter under how many keyIDs it is listed
+			keyData, err := x509.MarshalPKIXPublicKey(publicKey)
+			if err != nil {
+				return err
+			}
+			signingKeys[string(keyData)] = true
 			log.Info("Verified with key", "role", delegatedRole, "ID", keyID)
 		}
 	}
-- 
2.43.0


From 0ebdfa624a4690e92f31269e61a73251505d02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 19/22] fix: verify RSA signatures made with the RSASSA-PSS
 scheme

---
 metadata/metadata.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 940b5ca..91d987c 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -15,6 +15,7 @@ import (
 	"bytes"
 	"crypto"
 	"crypto/hmac"
+	"crypto/rsa"
 	"crypto/sha256"
 	"crypto/sha512"
 	"crypto/x509"
@@ -361,7 +362,16 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 			return ErrType{Msg: "unknown delegated metadata type"}
 		}
 		// verify if the signature for that payload corresponds to the given key
-		if err := verifier.VerifySignature(bytes.NewReader(sign.Signature), bytes.NewReader(payload)); err != nil {
+		err = verifier.VerifySignature(bytes.NewReader(sign.Signature), bytes.NewReader(payload))
+		if rsaKey, ok := publicKey.(*rsa.PublicKey); ok && err != nil {
+			// the signing scheme of RSA keys is rsassa-pss-sha256
+			var pssVerifier *signature.RSAPSSVerifier
+			pssVerifier, err = signature.LoadRSAPSSVerifier(rsaKey, hash, nil)
+			if err == nil {
+				err = pssVerifier.VerifySignature(bytes.NewReader(sign.Signature), bytes.NewReader(payload))
+			}
+		}
+		if err != nil {
 			// failed to verify the metadata with that key ID
 			log.Info("Failed to verify %s with key ID %s", delegatedRole, keyID)
 		} else {
-- 
2.43.0


From b5e83489f6ddcb3c54bb5eabf7e3891308a5635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 20/22] fix: read cached metadata of roles named after a dot
 path element

---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index c4e8d8e..ce6d115 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -408,7 +408,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
+	data, err := readFile(filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName))))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
-- 
2.43.0


From a1cdb4c4e2a47741c3b7ea06f97db1cafa0924eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 21/22] fix: use the cached copy of an empty target in a
 multirepo client

---
 metadata/multirepo/multirepo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index b496cf2..3346363 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -333,7 +333,7 @@ func (client *MultiRepoClient) DownloadTarget(repos []string, targetFile *metada
 		if err != nil {
 			return "", nil, err
 		}
-		if len(targetPath) != 0 && len(targetBytes) != 0 {
+		if len(targetPath) != 0 {
 			// we already got the target for this target info cached locally, so return it
 			log.Info("Target already present locally from repo", "target", targetFile.Path, "repo", repoName)
 			return targetPath, targetBytes, nil
-- 
2.43.0


From 885cf005944429a1cbb7c7ec693b4393466999ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 22/22] fix: recognise only the listed hash bin names

---
 metadata/metadata.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 91d987c..03ec05e 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -665,6 +665,11 @@ func (role *SuccinctRoles) IsDelegatedRole(roleName string) bool {
 		return false
 	}
 
+	// a sign or upper case digits are not part of any bin name
+	if fmt.Sprintf("%0*x", suffixLen, value) != suffix {
+		return false
+	}
+
 	// check if the bin we calculated is indeed within the range of what we support
 	return (value >= 0) && (value < int64(numberOfBins))
 }
-- 
2.43.0

