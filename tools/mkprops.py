#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
U="metadata/updater/updater.go"; T="metadata/trustedmetadata/trustedmetadata.go"; M="metadata/metadata.go"
J="metadata/marshal.go"; C="metadata/config/config.go"; F="metadata/fetcher/fetcher.go"; R="metadata/multirepo/multirepo.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Only metadata signed by a threshold of its role's keys becomes trusted",
 "Whatever a repository, a man in the middle or the local cache serves, a client only ever trusts, caches or answers from metadata of a role (root, timestamp, snapshot, targets or any delegated role) that carries valid signatures over exactly its content by at least the threshold of different keys that the role's currently trusted delegator assigns to it. Signatures of revoked keys or of other roles' keys, repeated signatures of one key, altered content and validly signed metadata of a different role never count. Metadata that meets the threshold is never refused because of its signatures, whichever supported key type made them and whatever extra unrelated or invalid signatures it carries.",
 ["histories","inputs","fault_sequences"],"All sequences of publisher steps (publish, rotate keys, change thresholds, delegate), attacker-served documents for any request, cache contents and client sessions.",
 "Tests verify a few hand-made documents per role; they do not combine revoked keys, several delegators, cached copies and rotations across sessions, nor every delivery path by which bytes reach the trusted set.",
 [M,T,U],[("threshold check over unique keys",M+": VerifyDelegate"),("update workflow applies it to every role",T+": UpdateRoot/UpdateTimestamp/UpdateSnapshot/UpdateDelegatedTargets"),("role already loaded is verified against each delegator",U+": loadTargets")],
 ["result of a refresh or target lookup","the client's trusted metadata set","files in the metadata cache directory"])
p("P02","The trusted root only moves along a fully signed chain, to the newest version",
 "Starting from the root it was given, a refreshing client moves to root version N+1 only if that document has version N+1 and is signed by a threshold of the root keys of version N and by a threshold of its own root keys; anything else is refused and leaves version N trusted and cached. A refresh follows the chain one version after the other until the repository has no next version or the configured number of rotations is used up, going through expired intermediate roots, and every other role is then judged by the keys and thresholds of the root reached.",
 ["histories","inputs","fault_sequences"],"All histories of root rotations (key changes, threshold changes, expired intermediates), attacker-made candidate roots at any position of the chain, interruptions between two rotations, restarts from any earlier root.",
 "Tests rotate one or two roots in a fault-free repository; long chains with forged, skipped, repeated or half-signed links, and interruptions inside the chain, are not reached.",
 [T,U],[("next version is verified by old and new root",T+": UpdateRoot"),("sequential download loop",U+": loadRoot")],
 ["trusted root version and bytes","root.json in the cache","sequence of root requests"])
p("P03","No accepted refresh ever goes back to older metadata, across any restarts",
 "As long as its cache is intact, once a client session accepted metadata, no session that starts after it on that cache succeeds with a lower timestamp version, a lower snapshot version, a lower version of any targets role listed in the accepted snapshot, or a snapshot from which such a role has vanished, no matter which validly signed older or mixed metadata is served. This holds across process restarts, failed or crashed sessions in between and expired cached metadata; only a rotation of the keys of the timestamp or snapshot role resets it. An unchanged or newer consistent repository state is never refused as a rollback.",
 ["histories","fault_sequences","crash_points"],"All histories of publishing, replaying any earlier repository state or any mixture, client sessions, crashes and restarts, time passing beyond expiry.",
 "Tests check single in-memory steps with hand-made versions; rollback protection depends on what earlier sessions left in the cache and on which cached pieces are expired, invalid or missing, over many sessions.",
 [T,U],[("version comparison with the previously trusted timestamp and snapshot",T+": UpdateTimestamp, UpdateSnapshot"),("cached metadata is loaded before remote metadata",U+": loadTimestamp, loadSnapshot"),("cache is written after verification",U+": persistMetadata")],
 ["trusted versions after each successful refresh"])
p("P04","Nothing expired when the session started is ever used for an answer",
 "A refresh or target lookup only succeeds if the final root and the timestamp, snapshot, targets and delegated targets metadata it relied on had not expired at the moment the client was created, whether they came from the network or the cache, in online or offline mode, and however the wall clock jumps while the session runs. Expired intermediate roots and expired cached metadata that the repository has replaced do not prevent success, and metadata that has not expired is not refused as expired.",
 ["histories","schedules","fault_sequences"],"All expiry times relative to session starts, freeze attacks serving outdated states, clock skews and jumps before and during sessions, cached metadata of any age.",
 "Tests set expiry in the past for one role at a time with a fixed clock; freeze attacks over time, clock jumps in mid-session and cached expired copies are not covered.",
 [T,M],[("one reference time per client",T+": New"),("expiry checks of the final root, timestamp, snapshot and targets",T+": UpdateTimestamp, checkFinalTimestamp, checkFinalSnapshot, UpdateDelegatedTargets"),("comparison",M+": IsExpired")],
 ["result of refresh/lookup against expiry of every document used"])
p("P05","Trusted metadata always forms one consistent timestamp-snapshot-targets chain",
 "After a successful refresh the trusted snapshot has exactly the version stated by the trusted timestamp, and every trusted targets document, top-level or delegated, has exactly the version stated by the trusted snapshot; every such document obtained from the network, and every targets document from the cache, also has exactly the length and all the hashes stated, where any are stated. A repository or attacker that mixes documents of different states, changes their bytes or omits a role from the snapshot gets an error for the affected documents, and these are neither trusted nor written to the cache.",
 ["histories","inputs","fault_sequences"],"All mixtures of documents of different repository states, wrong versions, lengths and hashes (with and without optional fields, one or several hash algorithms), on each request and in the cache.",
 "Tests check one mismatch per role; combinations over cached and fetched documents of several repository states and optional fields cannot be enumerated by hand.",
 [T,M,U],[("length and hash check before parsing",T+": UpdateSnapshot, UpdateDelegatedTargets; "+M+": VerifyLengthHashes"),("version equality",T+": checkFinalSnapshot, UpdateDelegatedTargets")],
 ["trusted metadata set","metadata cache"])
p("P06","A target file is delivered only if it matches its signed length and hashes",
 "Bytes returned by a target download, left at its destination after success, or reported as an up-to-date cached copy have exactly the length and every hash of the target information they were requested for. Anything else - altered, truncated, extended, missing or slow content, damaged local copies - ends in an error or in no cached copy, and a failed verification leaves an existing file at the destination as it was. Correct content is delivered under the right name, with and without hash-prefixed target names and directories in target paths.",
 ["inputs","fault_sequences","histories"],"All target names, contents, hash algorithm sets, corruptions in transit and on disk, HTTP behaviours, local destinations and cache states.",
 "Tests download a handful of intact files; corruption in transit or on disk at arbitrary points, several hashes with only one wrong, and name mapping of nested paths are not exercised.",
 [U,M,F],[("verification before writing",U+": DownloadTarget"),("verification of a local copy",U+": FindCachedTarget"),("all hashes and the length are compared",M+": VerifyLengthHashes of target information")],
 ["returned bytes and path","file at the destination","request URL"])
p("P07","Target lookup follows delegations in order of priority, scope and termination",
 "A lookup returns the target information listed by the first role, in depth-first order of the delegations as they appear, among the roles reachable from the top-level targets through delegations whose paths or hash bins cover the target; a terminating delegation that covers it stops the search outside its own subtree. A role never provides a target outside what was delegated to it, a role reached through several delegators must satisfy each of them, cycles are cut, and the result is the same on every execution. The lookup fails if and only if no such role lists the target, a role that has to be visited cannot be obtained validly, or the configured limit of visited roles is reached.",
 ["histories","configurations","inputs"],"All delegation graphs (chains, diamonds, cycles, overlapping and disjoint paths, wildcard, hash-prefix and succinct-bin delegations, terminating flags, several thresholds), target names, cache states and unavailable roles.",
 "Tests contain at most a simple delegation; ordering depends on runtime map order and on graph shape, so single executions can pass by luck.",
 [U,M],[("ordered depth-first walk",U+": preOrderDepthFirstWalk"),("scope of a delegation",M+": IsDelegatedPath, GetOrderedRolesForTarget, succinct roles")],
 ["returned target information","roles requested"])
p("P08","A crash or power loss at any instant leaves old or new, never damaged, metadata",
 "If a client process is killed, or the machine loses power, at any point of any session, every metadata file in the cache afterwards is complete: byte for byte either what it was before or the new verified document that was being stored. A session that ends without such a crash, whether it succeeded or failed, leaves no temporary files, no open files and no metadata in the cache that was not verified.",
 ["crash_points","fault_sequences"],"Every system call of every session as crash point, before, after and in the middle of its effect; every order in which unsynced data and names may survive a power loss; disk errors in between.",
 "Tests never crash a process or lose unsynced data; temp-file, sync and rename order only matters then.",
 [U],[("write to temporary file in the same directory, sync, close, rename, clean up",U+": persistMetadata")],
 ["cache directory after crash, power loss and every session"])
p("P09","Once faults stop, the next session succeeds with the newest state",
 "After any history of crashes, power losses, disk and network faults, attacks and damaged or deleted cache files, as soon as the repository serves its current consistent, unexpired state and disk, network and clock behave, one new session that starts from its trusted root refreshes successfully, without manual repair, to exactly that state, and targets can be looked up and downloaded.",
 ["fault_sequences","crash_points","histories"],"All fault histories followed by one fault-free session (bounded liveness: one session).",
 "Tests never damage the cache or interrupt a session and then require recovery.",
 [U,T],[("cached metadata that does not verify is replaced from the repository",U+": loadTimestamp, loadSnapshot, loadTargets"),("atomic persistence",U+": persistMetadata")],
 ["result and trusted versions of the first fault-free session"])
p("P10","A failure on the way is reported and never counted as success",
 "If storing metadata or a target, creating the cache folders, or downloading anything needed fails (disk full, I/O error, read-only or unwritable folder, connection error, unexpected HTTP status, short body), the operation returns an error, or it succeeded in spite of it with everything it claims to have stored completely in place. A root lookup ends the root search quietly only if the repository answers that the next root does not exist or is forbidden. Local copies that are absent or cannot be read only cause a download.",
 ["fault_sequences","crash_points"],"Every system call and every request of a session failing in turn with the errors real disks and networks produce, singly and in bursts.",
 "Tests contain a few HTTP errors and no disk faults.",
 [U,F,C],[("errors are returned from persistence and download",U+": persistMetadata, downloadMetadata, DownloadTarget"),("only 404/403 end the root loop",U+": loadRoot")],
 ["result of each operation against what is on disk"])
p("P11","Hostile or damaged bytes from anywhere cause errors, never a panic or a hang",
 "Whatever bytes a repository, a holder of valid role keys, or a damaged cache supplies for root, timestamp, snapshot, targets or delegated metadata, the map file or the initial root, every operation ends with a result or an error: it neither panics nor loops, and a refused document leaves what was trusted and cached before unchanged. Documents that only differ in unknown extra fields, formatting or member order stay acceptable.",
 ["inputs","fault_sequences","histories"],"Structure-aware mutations of every document kind (missing, null, mistyped, duplicated, extreme members, truncation, bit flips, deep nesting, zero-filled files), validly re-signed by the role's keys or not, on every delivery path.",
 "Tests try a few invalid JSON strings; the inputs are an infinite structured space, delivered at different stages of a session.",
 [J,M,T,"metadata/keys.go",R],[("validating decoders",J),("type check before decoding",M+": checkType, fromBytes"),("key parsing",'metadata/keys.go: ToPublicKey')],
 ["panics","step and time budget of every session","trusted set and cache after a refusal"])
p("P12","No server can make a client download, wait, rotate or search without bound",
 "Per request a client reads at most one byte more than the length its trusted metadata states for that file or, where none is stated, the configured maximum for that role, and gives up on a server that stalls or trickles at the request timeout, so each session ends within a bounded time and number of requests. At most the configured number of root rotations and of delegated roles is processed per refresh and lookup. Legitimate documents and targets up to those limits are accepted.",
 ["inputs","fault_sequences","configurations"],"Endless, oversized, stalling, trickling, redirecting and mislabelled responses for any request, arbitrarily long root chains and delegation graphs, arbitrary limits in the configuration.",
 "Tests cannot wait for real timeouts and use one small file; exact limits per role and virtual hours of stalling need a simulated network and clock.",
 [F,U,C],[("bounded read and timeout",F+": DownloadFile"),("limits passed per role",U+": downloadMetadata, loadRoot, preOrderDepthFirstWalk"),("defaults",C+": New")],
 ["bytes read per request","simulated time per request","number of requests"])
p("P13","The client touches only its own cache files, one per role and target",
 "Whatever role names, target paths and repository content signed metadata contains, a client creates, changes or deletes files only inside its configured metadata and targets directories or at the destination given by the caller, and reads cached metadata only from there. Different roles and different target paths never share a cached file, so the metadata or target stored under one name is never taken for another one. Names containing separators, dots, spaces, percent signs or non-ASCII characters are cached and found again like any others.",
 ["inputs","histories"],"All role and target names including traversal sequences, absolute paths, reserved names, escaped forms; repeated sessions on the resulting cache.",
 "Tests use plain names; containment and injectivity are claims about all names an attacker with a delegation can choose.",
 [U,J],[("role and target names are escaped into one path element",U+": persistMetadata, loadTargets, generateTargetFilePath"),("delegations to reserved role names are refused",J+": delegations decoder")],
 ["every path opened, created, renamed or removed","second session on the same cache"])
p("P14","Offline mode uses no network, and disabling the cache writes no files",
 "In offline mode no operation except an explicit target download contacts any server: the client answers exactly from cached metadata that is complete and valid for its trusted root and not expired, and fails otherwise. With the local cache disabled no operation creates, changes or deletes any file, and lookups and downloads work all the same.",
 ["configurations","histories","fault_sequences"],"All cache states (complete, partial, damaged, expired, of an older root), delegations, lookups, faults, both modes and their combination.",
 "Tests run offline mode once on a complete cache and hardly any with the cache disabled.",
 [U,C],[("offline refresh",U+": unsafeLocalRefresh, loadTargets"),("no persistence when disabled",U+": persistMetadata, DownloadTarget; "+C+": EnsurePathsExist")],
 ["requests","file system changes","results"])
p("P15","A multi-repository lookup needs the mapping's threshold of agreeing repositories",
 "A lookup over several repositories returns target information only if, for the first mapping in order whose paths cover the target and which is satisfied, at least its threshold of different repositories listed in that mapping each validly provide exactly that length and those hashes; it returns that agreed information together with repositories that provide it. Mappings after a terminating one that covers the target are never used, repositories outside the mapping never count, and two conflicting answers that both reach the threshold are an error. If a mapping can be satisfied in this way, the lookup succeeds, whatever the remaining repositories do.",
 ["configurations","histories","fault_sequences"],"All map files (orders, patterns, thresholds, terminating flags, shared repositories) over several simulated repositories that agree, disagree, fail, are unreachable or compromised.",
 "There are no tests of the multi-repository client at all.",
 [R,M],[("TAP 4 search",R+": GetTargetInfo"),("equality of target information",M+": target information comparison")],
 ["returned target information and repository list"])
p("P16","Repositories of a multi-repository client are isolated; download fails over",
 "Each repository of a map file has its own trusted root, metadata cache and answers: nothing served, signed or cached for one repository is ever trusted for another, and no repository name makes two of them share or leave the cache directory. A download tries the given repositories one after the other and succeeds as soon as one of them, or a verified local copy, provides matching content; otherwise it returns an error. Map files that are not of the documented form, name unknown repositories, or lack a URL or trusted root for one are refused with an error.",
 ["configurations","fault_sequences","inputs"],"All map files and repository names, combinations of compromised, failing and healthy repositories, restarts, damaged caches.",
 "There are no tests of the multi-repository client at all.",
 [R],[("per-repository directories, roots and clients",R+": initTUFClients"),("failover loop",R+": DownloadTarget"),("map file validation",R+": NewConfig")],
 ["files per repository","answers with one repository compromised","download results"])
p("P17","Clients see one consistent state while the publisher is publishing",
 "While new consistent snapshots are published file by file between any two requests of a client, every refresh that succeeds ends on exactly one state the publisher completed, at least as new as the one complete when the session began, and every target it looks up and downloads is the one of that state. If the repository keeps older versions, as consistent snapshots require, puts the new timestamp in place last and withdraws no keys meanwhile, such a refresh always succeeds.",
 ["schedules","histories"],"All interleavings of the publisher's file writes with the client's requests, including several publications and root rotations during one session.",
 "Tests never change the repository between two requests of one refresh.",
 [U,T],[("versioned names under consistent snapshots",U+": loadSnapshot, loadTargets, loadRoot, DownloadTarget"),("chain checks",T)],
 ["trusted versions against the publisher's states","downloaded bytes"])
p("P18","Any number of client processes can share a cache directory safely",
 "When several client processes refresh, look up and download concurrently on one cache directory, under any interleaving of their file and network operations and with crashes of some of them, each of them behaves as if it alone had started from complete files some of them had stored: each metadata file is always one complete verified document, each successful result is authentic, unexpired and consistent, and while the repository does not change none that can reach it fails because of the others. A later session on the resulting cache succeeds.",
 ["schedules","crash_points"],"All interleavings of file operations and requests of two or three client processes, with crashes at arbitrary points.",
 "Tests run one client at a time.",
 [U],[("unique temporary names and atomic replacement",U+": persistMetadata"),("cached documents are re-verified when read",U+": loadTimestamp, loadSnapshot, loadTargets")],
 ["each process's results","cache contents at every step"])
p("P19","Valid cached metadata and targets are reused, and new ones fetched exactly once",
 "A session downloads the next root, the timestamp, and beyond these only documents for which the cache holds no valid copy of the current version; documents it has downloaded and verified are in the cache under their role's name afterwards, so that an immediately following session on an unchanged repository downloads nothing but these two and needs no other server contact for lookups it has answered before. A target downloaded to the cache is found there again by later sessions.",
 ["histories","configurations"],"All histories of publishing and sessions, role and target names, partial caches, with consistent snapshots on and off.",
 "Tests count requests for one or two plain cases only.",
 [U],[("local copy is tried first",U+": loadSnapshot, loadTargets, FindCachedTarget"),("every verified download is stored",U+": persistMetadata, DownloadTarget")],
 ["requests per session","cache files"])
p("P20","Metadata saved by the publisher API survives restarts unchanged and verifiable",
 "Through any sequence of publisher steps with the metadata API - add and revoke keys, change thresholds and delegations, edit, bump versions, sign, save, load after a restart - what is loaded equals what was saved, including unknown fields, and clients accept it exactly when enough current keys signed its final content. Saving and loading report every disk error instead of handing out or leaving behind partial content as success, and loading a document as the wrong role or with repeated signatures is an error.",
 ["histories","fault_sequences"],"All sequences of publisher operations with restarts and disk faults, followed by client sessions over the published files.",
 "Tests round-trip single files without faults and never run a client on the result of a longer history.",
 [M,J,"metadata/repository/repository.go"],[("file and byte round trip",M+": FromFile, ToFile, FromBytes, ToBytes"),("signing over canonical form",M+": Sign, ClearSignatures"),("key management",M+": AddKey, RevokeKey"),("unknown fields",J)],
 ["files written","loaded metadata","client sessions on the files"])
p("P21","Hash bins partition all target paths, and bin names and numbers agree",
 "For every bit length, every target path belongs to exactly one succinct hash bin, the bin name computed for a path is one of the listed bin names, and a name is recognised as a bin exactly if it is listed.",
 ["inputs"],"All bit lengths, name prefixes and target paths.",
 "Tests check a few bit lengths and names.",
 [M],[("bin computation",M+": SuccinctRoles")],["returned names"])
p("P22","Key identifiers are stable and keys convert to and from metadata without loss",
 "For every supported key the metadata form converts to a public key and back to the same metadata form, and its identifier is the SHA-256 digest of the canonical form of exactly those members, independent of formatting or process.",
 ["inputs"],"All supported public keys and key documents.",
 "Tests use a few fixed keys.",
 ["metadata/keys.go"],[("conversion and identifier",'metadata/keys.go: ToPublicKey, KeyFromPublicKey, ID')],["returned values"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
