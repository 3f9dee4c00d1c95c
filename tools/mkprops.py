#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept in step with the claims in MANIFEST.json).
import json,os
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
R="internal/rpc2/"; T="internal/tree/"; H=T+"hooks/"

p("C01","Every mutating request needs a valid token with the matching capability",
 "A request that creates, changes or destroys an entity or group, or changes a secret, capability, membership or rule, is carried out only if the request's own authorization token was successfully validated and its claims hold the capability designated for that kind of request (or global root); the only exceptions are an entity acting on itself (secret change, own keys) and delegated group management. A request without exactly one token, or whose token does not validate, is refused and has no effect. Holding a different capability is never enough.",
 ["inputs","programs"],"every RPC handler, every request, every token and every path through the handler to a state-changing operation",
 "tests send one good and one bad token to some handlers; they cannot show that no path in any handler reaches a state change without the check, nor that the designated capability is the one tested everywhere",
 [R+"util.go",R+"entity.go",R+"group.go",R+"auth.go",R+"system.go","internal/token/claims.go"],
 [("mutablePrequisites / checkToken / isAuthorized",R+"util.go"),("Claims.HasCapability","internal/token/claims.go")],
 obs=["gRPC responses","stored entities and groups"])
p("C02","A read-only server refuses every mutating request",
 "While the server is in read-only mode no request changes an entity or group: every mutating request (including secret changes, key changes, untyped metadata writes and delegated group management) is refused before any state-changing operation is started. The read-only refusal is returned only when the server really is in read-only mode, and read requests are not subject to it.",
 ["inputs","configurations"],"every mutating RPC and every path to a state-changing operation with the read-only flag set or not",
 "tests exercise the flag on a few handlers with one request each; an added path, action or handler that skips the check is invisible to them",
 [R+"util.go",R+"entity.go",R+"group.go",R+"auth.go",R+"system.go",R+"server.go"],
 [("readonly checks",R+"util.go"),("server.readonly configuration",R+"server.go")])
p("C03","Self-service is limited to one's own secret and keys",
 "Without the administrative capability a secret can be changed only for the entity named in the requestor's own validated token, and only after the old secret supplied in the request was verified for that entity; keys can be changed without the capability only on the entity named in the token. The change is applied to the entity that was authorized, with the new secret taken from the request.",
 ["inputs"],"every secret change and key change request, any combination of requestor, target, old and new secret and capabilities",
 "tests use a fixed requestor and target; identity confusion between requestor, target and the entity that is modified depends on the combination of inputs",
 [R+"auth.go",R+"entity.go",R+"util.go"],[("AuthChangeSecret",R+"auth.go"),("EntityKeys",R+"entity.go")])
p("C04","Delegated group management only for members of the managing group",
 "Group metadata, untyped metadata, rules and membership may be changed without the capability only by a requestor whose validated token identity is, according to the stored data, a direct or effective member of the group that the stored target group names as its manager; a group that names no manager delegates nothing. Delegation substitutes only for the missing capability: it never overrides read-only mode or an invalid token, it is evaluated against the very group being modified, and a requestor who satisfies it is not refused for lack of the capability.",
 ["inputs","histories"],"every delegated request, any stored group, manager name, membership and token",
 "tests cover one delegated group; the empty-manager case, group confusion for multi-group requests and prefix or partial matches need inputs tests do not sample",
 [R+"util.go",R+"group.go",R+"entity.go"],[("manageByMembership / managementDelegated",R+"util.go")])
p("C05","Secrets never leave the server",
 "Every entity returned by an information, search or membership listing operation has its secret replaced by a fixed redaction marker, on every path including searches and group listings. Neither raw secrets nor secret hashes are put in any response.",
 ["inputs","programs"],"every read operation of the entity tree that yields entities and every path on which it returns one",
 "tests check one entity of one operation; a path, operation or element of a list that returns the stored object unredacted is not sampled",
 [T+"entity.go",T+"membership.go",T+"search.go",R+"entity.go",R+"group.go"],[("safeCopyEntity",T+"entity.go")])
p("C06","Secrets are stored only in secured form",
 "Whenever an entity is saved, its secret is either the value previously loaded from storage or the output of the configured crypto engine for the plaintext given in that same operation; a plaintext secret is never saved, and a failure to secure it aborts the operation without saving. The default engine produces a salted bcrypt hash at the configured cost and accepts a secret only if bcrypt accepts it against the stored hash.",
 ["inputs","fault_sequences"],"every operation that ends in saving an entity, with any secret and with the crypto engine succeeding or failing",
 "tests run with a no-op crypto engine for which hashed and plain secrets are identical, so storing plaintext is invisible to them",
 [T+"entity.go",H+"set-entity-secret.go",H+"create-entity-if-missing.go","internal/crypto/bcrypt/bcrypt.go"],
 [("set-entity-secret",H+"set-entity-secret.go"),("create-entity-if-missing",H+"create-entity-if-missing.go"),("SecureSecret/VerifySecret","internal/crypto/bcrypt/bcrypt.go")])
p("C07","Authentication succeeds only with the right secret on an unlocked entity",
 "An authentication attempt is accepted, and a token is handed out, only if the named entity was loaded from storage, is not locked, and the secret supplied in the request was verified by the crypto engine against that entity's stored secret. Any failure to load or verify leads to refusal.",
 ["inputs","fault_sequences"],"every authentication and token request; any entity state, supplied secret and storage or crypto failure",
 "tests try a right and a wrong secret and one locked entity; a path accepting when the load fails, with another entity's secret or with the checks reordered is not sampled",
 [T+"entity.go",T+"defaults.go",H+"validate-entity-unlocked.go",H+"validate-entity-secret.go",R+"auth.go"],
 [("VALIDATE-IDENTITY chain",T+"defaults.go"),("AuthEntity, AuthGetToken",R+"auth.go")])
p("C08","Tokens carry exactly the authenticated identity and its stored capabilities",
 "A token is generated only after successful authentication in the same request; it names the entity that was authenticated, and its capabilities are exactly those stored on that entity plus those of the groups it is an effective member of, never anything supplied by the client. If generation fails no token is returned.",
 ["inputs","histories"],"every token request, any stored entity, capability set and membership",
 "tests check one entity with one capability; claims built from request data or missing a source only show with specific stored data",
 [R+"auth.go",R+"util.go"],[("AuthGetToken",R+"auth.go"),("getCapabilitiesForEntity",R+"util.go")])
p("C09","Only untampered, unexpired tokens signed by this server's key are accepted",
 "Token validation succeeds only when the signature verifies under the configured public key with an RSA method and the standard time claims hold, and the claims it yields are those of the verified token. Any failure, including an unavailable key or a different signing algorithm, yields an error and empty claims.",
 ["inputs"],"every byte string presented as a token",
 "tests present a handful of malformed tokens; acceptance of another algorithm or of unverified claims needs crafted inputs",
 ["internal/token/jwt/rsa.go","internal/token/token.go"],[("Validate",  "internal/token/jwt/rsa.go")])
p("C10","Issued tokens are signed and expire after the configured lifetime",
 "Every issued token is signed with the server's RSA private key, becomes valid at the time of issue and expires exactly the configured lifetime later; when no private key is available no token is issued. The server takes the lifetime from its configuration when it issues tokens.",
 ["inputs","configurations"],"every issued token, any configuration of lifetime and key availability",
 "tests do not wait for tokens to expire and sample one lifetime",
 ["internal/token/jwt/rsa.go","internal/token/token.go",R+"auth.go"],[("Generate","internal/token/jwt/rsa.go"),("GetConfig","internal/token/token.go")])
p("C11","Metadata updates cannot touch protected fields",
 "Updating an entity's metadata changes neither its identity, number, secret, group memberships, capabilities, keys, lock state, untyped metadata nor key/value data; updating a group's metadata changes neither its name, number, capabilities, rules, untyped metadata nor key/value data. All other supplied metadata is merged and saved to the same record.",
 ["inputs"],"every metadata update payload and every stored record",
 "tests supply a payload with one or two fields; a protected field that is merged only shows when the payload happens to contain it",
 [H+"merge-entity-meta.go",H+"merge-group-meta.go",T+"defaults.go",T+"entity.go",T+"group.go"],
 [("merge-entity-meta",H+"merge-entity-meta.go"),("merge-group-meta",H+"merge-group-meta.go")])
p("C12","Creation never overwrites an existing record",
 "Creating an entity or group saves a record only after storage reported that no record of that name exists; if the record exists, or its existence cannot be determined, creation fails and nothing is saved. The saved record carries the requested name, and for an entity the secured form of the requested secret.",
 ["inputs","fault_sequences"],"every create request, any stored state, any storage failure",
 "tests create a duplicate once with a healthy backend; failures of the existence check are never injected",
 [H+"fail-on-existing-entity.go",H+"fail-on-existing-group.go",T+"defaults.go",T+"entity.go",T+"group.go"],
 [("CREATE chains",T+"defaults.go"),("fail-on-existing hooks",H+"fail-on-existing-entity.go")])
p("C13","Automatically assigned numbers exceed every number in use",
 "When a create request leaves the number to the server, the record gets a number one greater than the largest number of any stored record of its kind (numbers are taken to be non-negative and below the largest representable one), and failure to determine it aborts the creation; an explicitly requested number is stored unchanged. An existing record's number is never changed by any operation.",
 ["inputs","histories","fault_sequences"],"every create request over any stored set of records",
 "tests create two or three records; a computation wrong for unordered, sparse or negative numbers is not sampled",
 ["internal/db/db.go",H+"set-entity-number.go",H+"set-group-number.go",H+"create-entity-if-missing.go"],
 [("NextEntityNumber/NextGroupNumber","internal/db/db.go")])
p("C14","Group rules never form a cycle and always target existing groups",
 "A rule that includes or excludes a group is saved only after the target was successfully loaded and was found neither to be the group itself nor to reach it through the stored rules, directly or through any chain; a target for which a rule already exists is refused. A group that cannot be loaded during the check counts as a cycle.",
 ["inputs","histories"],"every rule addition over any stored rule graph",
 "tests build chains of two or three groups",
 [H+"check-expansion-cycle.go",H+"check-expansion-targets.go",H+"check-immediate-expansions.go",H+"patch-group-expansions.go",T+"defaults.go"],
 [("MODIFY-EXPANSIONS chain",T+"defaults.go"),("check-expansion-cycles",H+"check-expansion-cycle.go")])
p("C15","Effective membership is direct members plus includes minus excludes",
 "An entity is reported as an effective member of a group exactly when it is a direct member or an effective member of an included group, and it is not an effective member of an excluded group; includes and excludes are never interchanged, every rule of the group is considered, and the listing of a group's members and of an entity's groups use the same resolved expression. When the rules of a group change, it and every group that depends on it, directly or through other groups, are resolved again. (Histories in which changes are announced one after the other; the rules of a group that names a group that was later deleted stay as they were resolved.)",
 ["inputs","histories"],"every rule set and every history of group and membership changes",
 "tests resolve a fixed sample tree",
 ["internal/mresolver/memberships.go","internal/mresolver/resolver.go",T+"entity.go",T+"group.go",T+"membership.go"],
 [("MResolver.Resolve / SyncGroup","internal/mresolver/memberships.go")])
p("C16","Membership state is race free and its locks are always released",
 "The shared membership state (and likewise the in-memory record store and the in-memory token cache) is read only while holding its lock and changed only while holding it exclusively, on every path of every operation, including the interior of what was published; each lock is released on every exit, no lock is taken again while it is held or held while calling back into the database's listeners, and locks are never taken in opposite orders.",
 ["schedules"],"every interleaving of concurrent resolver operations (RPC reads and change notifications)",
 "the tests run single threaded",
 ["internal/mresolver/memberships.go","internal/mresolver/resolver.go","internal/mresolver/type.go","internal/db/memory/memory.go","pkg/netauth/cache/memory/memory.go"],
 [("gMutex, uMutex","internal/mresolver/type.go")])
p("C17","Every stored change is announced, and only after it happened",
 "Each storage backend announces a create/update or destroy of an entity or group after, and only after, the underlying write or delete succeeded, with the kind and name of the record concerned; every announcement reaches every registered listener. The membership resolver and the search index consume updates and destroys of both kinds, so no stale membership or index entry survives a change.",
 ["inputs","histories","fault_sequences"],"every write and delete on every backend, and every event delivered",
 "tests look at one event of one backend; a missed or mis-typed announcement makes stale authorization data that single operations do not show",
 ["internal/db/callback.go","internal/db/filesystem/filesystem.go","internal/db/bitcask/bitcask.go","internal/db/memory/memory.go","internal/db/db.go",T+"entity.go",T+"group.go","internal/db/search.go"],
 [("FireEvent","internal/db/callback.go"),("entityResolverCallback/groupResolverCallback",T)])
p("C18","Storage failures are never swallowed",
 "If reading, decoding, encoding, writing or deleting a record fails, the failure is returned to the caller of every database and backend operation on the way, and the operation does not report success; a missing record is reported as unknown, and other read failures are not reported as a missing record. No record assembled from a failed read is ever handed out as if valid.",
 ["fault_sequences"],"every error result of every storage call in the database layer, the backends and the record-processing steps",
 "tests have no fault injection for most storage calls",
 ["internal/db/db.go","internal/db/filesystem/filesystem.go","internal/db/bitcask/bitcask.go","internal/db/memory/memory.go",H],
 [("error propagation","internal/db/db.go")])
p("C19","Records are written atomically and durably",
 "The file backend replaces a record only by an atomic rename of a completely written file, and the embedded bitcask store is opened with synchronous writes, so a crash during an update leaves either the old or the new record. No backend modifies stored records other than by the operation asked for. A write is acknowledged only if the underlying write succeeded.",
 ["crash_points"],"every crash point during any write",
 "tests never crash in the middle of a write",
 ["internal/db/filesystem/filesystem.go","internal/db/bitcask/bitcask.go"],
 [("renameio.WriteFile","internal/db/filesystem/filesystem.go"),("bitcask.WithSync(true)","internal/db/bitcask/bitcask.go")])
p("C20","Records stay inside their namespace and the data directory",
 "No entity or group name, however crafted, makes the database read, write or delete a record of the other kind or anything outside the directory of its kind: names that are not a single path element are rejected before storage is touched, and the file backend maps every key to a path below its base directory.",
 ["inputs"],"every name that reaches the database and every key that reaches the file backend",
 "tests use well-formed names",
 ["internal/db/db.go","internal/db/filesystem/filesystem.go"],[("keyForID","internal/db/db.go"),("cleanPath","internal/db/filesystem/filesystem.go")])
p("C21","Processing chains are complete and run in a safe order",
 "Every processing chain used by an operation is defined, each of its steps is registered under the name the chain uses, and the priorities order the steps so that the record is loaded before it is checked, all checks precede all changes to the record, and saving or destroying it comes last; every chain that changes a record saves it. No chain contains the same step twice.",
 ["configurations","programs"],"every default chain and every step in it",
 "tests run some chains with one input; a missing or misordered step passes when its effect is not observed",
 [T+"defaults.go",H,T+"entity-chains.go",T+"group-chains.go"],[("defaultEntityChains/defaultGroupChains",T+"defaults.go")])
p("C22","A chain runs its steps in priority order and stops at the first failure",
 "Running a chain executes each of its steps on the same pair of records, in ascending priority order; when a step fails no later step is executed and the failure is returned unchanged, and success is reported only when every step succeeded. Registering a step to a chain keeps it sorted by priority and a step that is not registered is an error.",
 ["inputs","fault_sequences"],"every chain content and every failing step",
 "tests use chains of one or two steps",
 [T+"entity-chains.go",T+"group-chains.go",T+"manager.go"],[("RunEntityChain/RunGroupChain",T+"entity-chains.go")])
p("C23","Responses report success exactly when the operation succeeded",
 "Every request handler reports success only when the operation it stands for was carried out and reported success (for every element of a list), and a failed operation always yields an error; success carries the data the operation returned. An unknown named record or key is reported as not existing and a duplicate record or key as already existing, in the same way for the entity and the group variant of a request; secret changes, membership changes and capability changes, which report every failure as an internal error, are exempt from this distinction. The status codes of these errors are those of their meaning.",
 ["inputs","fault_sequences"],"every handler and every error its operation can return",
 "tests trigger some of the errors of some handlers",
 [R+"entity.go",R+"group.go",R+"auth.go",R+"system.go",R+"errors.go"],[("error switches",R)])
p("C24","Key/value operations add, delete and replace exactly the requested key",
 "Adding key/value data fails if the key exists, and deleting, replacing or reading fails if it does not; a successful add, delete or replace affects the requested key only, all other keys keep their values, and the values stored are exactly those of the request. This holds alike for entities and groups.",
 ["inputs"],"every key, value list and existing data",
 "tests have one or two keys",
 [H+"entity-kv.go",H+"group-kv.go",T+"entity.go",T+"group.go"],[("kv hooks",H+"entity-kv.go")])
p("C25","Capabilities are granted and revoked exactly as requested",
 "A capability request of kind add grants, and one of kind drop revokes, exactly the named capability on exactly the named entity or group, leaving all others; a request without a known action, or with an unknown or missing capability, changes nothing.",
 ["inputs"],"every capability request: target kind, direct or not, action and capability",
 "tests cover one capability; a swapped target or action among the four combinations needs each to be checked against stored state",
 [R+"system.go",T+"entity.go",T+"group.go",H+"entity-capabilities.go",H+"group-capabilities.go"],
 [("SystemCapabilities",R+"system.go"),("capability hooks",H+"entity-capabilities.go")])
p("C26","The bootstrap credential works at most once and never after startup",
 "The bootstrap entity gets global root only if bootstrap has not been disabled; after one bootstrap, and in any case before the server starts to accept requests, bootstrap is permanently disabled and nothing enables it again. Its secret is stored in secured form.",
 ["histories","configurations"],"every startup configuration and every later history",
 "tests call bootstrap directly; the order in the server's startup sequence is never executed by a test",
 [T+"entity.go","cmd/netauthd/main.go",T+"type.go"],[("Bootstrap/DisableBootstrap",T+"entity.go"),("startup sequence","cmd/netauthd/main.go")])
p("C27","Plaintext transport only on explicit insecure configuration",
 "The server listens without TLS, and the client connects without TLS, only when the explicit insecure setting is enabled; otherwise the server uses the configured certificate and key, refusing to start if they cannot be loaded, and the client verifies the server with the configured certificate, failing if it cannot be loaded. Certificate verification is never turned off.",
 ["configurations","fault_sequences"],"every configuration of server and client",
 "no test starts the server process or a TLS connection",
 ["cmd/netauthd/main.go","pkg/netauth/netauth.go"],[("server options","cmd/netauthd/main.go"),("connect","pkg/netauth/netauth.go")])
p("C28","Client mutations are sent to a writable server",
 "Every client library operation that sends a mutating request first makes the connection writable: if the client is configured to use a separate writable server, the request is sent on a connection to that server and failing to connect fails the operation, with no request sent to the read-only server. Operations that only read do not require it.",
 ["inputs","configurations"],"every client operation and configuration",
 "tests of the client do not use a two-server configuration",
 ["pkg/netauth/netauth.go","pkg/netauth/entity.go","pkg/netauth/group.go","pkg/netauth/auth.go","pkg/netauth/system.go","pkg/netauth/util.go"],[("makeWritable","pkg/netauth/util.go")])
p("C29","Client calls transmit exactly what the caller asked for",
 "Each client library operation sends the request of its own kind with every argument of the caller in the field that the server reads for it, attaches the identifying request metadata, and returns the server's error to the caller; a failed request is never reported as success.",
 ["inputs"],"every client operation and argument",
 "tests against a mock accept any request content",
 ["pkg/netauth/entity.go","pkg/netauth/group.go","pkg/netauth/auth.go","pkg/netauth/system.go","pkg/netauth/util.go"],[("request construction","pkg/netauth/entity.go")])
p("C30","Plugins are consulted at every hook point and their errors abort the operation",
 "Every plugin action is consulted in the processing chains of the operation it is named for and of no other, and dispatched to the plugin method of the same name of every loaded plugin, with the record as left by the plugins before and the requested data in their proper places; the last result replaces the record, an error from the plugin or from communicating with it aborts the chain, and pre-actions run before the step they are named for and all others after the steps that change the record and before it is saved.",
 ["inputs","fault_sequences"],"every plugin action and every plugin response",
 "there are no tests with a live plugin process",
 ["internal/plugin/tree/common/interface.go","internal/plugin/tree/common/rpc.go","internal/plugin/tree/manager/hook.go","internal/plugin/tree/manager/chains.go","internal/plugin/tree/manager/manager.go","internal/plugin/tree/consumer/main.go","internal/plugin/tree/provider/main.go"],
 [("plugin hooks","internal/plugin/tree/manager/hook.go")])
p("C31","No request can crash the server",
 "No request, whichever of its parts are absent or empty, makes a handler or the processing it triggers dereference a missing value, index outside of a list, rely on an unchecked type, write to a map that does not exist, panic or end the process.",
 ["inputs"],"every request with any subset of optional parts absent",
 "tests send complete requests",
 [R,H,T],[("nil-safe accessors",R)])
p("C32","Token signing keys are protected on disk",
 "A generated private signing key is written readable by its owner only and never with wider permissions; key generation happens only when explicitly enabled and the key is missing, an existing private or public key is never overwritten by generation, and a failure to generate, write or load the keys the service starts with disables it; a key that could not be parsed is never put in use.",
 ["configurations","fault_sequences"],"every key-file state and configuration",
 "tests do not examine modes on all paths nor failures",
 ["internal/token/jwt/rsa.go"],[("generateKeys/getKeys","internal/token/jwt/rsa.go")])
p("C33","Cached client tokens are private and returned to their owner only",
 "A token cached on disk is stored in a newly created file readable by its owner only, under a name that no other entity's token shares; a cached token is looked up under the name of the entity it belongs to, and after removal is not returned; a missing token yields an error and never another entity's token or an empty token as success.",
 ["inputs","histories"],"every sequence of cache operations over any entity names",
 "tests use one entity name",
 ["pkg/netauth/cache/fs/fs.go","pkg/netauth/cache/memory/memory.go"],[("fs cache","pkg/netauth/cache/fs/fs.go")])
p("C34","The health status is good only if every subsystem is",
 "The overall status is healthy only if every registered check was run and reported healthy, the first failing check is reported, and the status request reports exactly this overall result together with all individual results; a later registration never replaces an earlier one; and a subsystem reports itself as good only when what it needs is there and answered.",
 ["configurations","fault_sequences"],"every set of checks and results",
 "tests register one or two checks",
 ["internal/health/health.go",R+"system.go"],[("Check","internal/health/health.go")])
p("C35","Copying a database is a dry run by default and copies every record unchanged",
 "The database copy tool changes nothing unless the dry-run default is explicitly disabled and both databases were opened and all their records listed without error; it never changes the source; it deletes only listed records of the target, only when truncation was asked for, and before anything is copied; what it writes is exactly what was read without error under the same key of the source; and every record of the source is either copied or its failure reported.",
 ["configurations","fault_sequences"],"every flag combination, source and target content and storage failure",
 "the tool has no tests",
 ["cmd/nsutil/db_copy.go"],[("db copy","cmd/nsutil/db_copy.go")])
p("C36","Secrets cannot be searched",
 "The search index never contains the secret of an entity, so no search expression can match or reveal it; everything that is indexed is indexed under the record's own name in the index of its own kind, and search results are loaded from storage by the names found.",
 ["inputs"],"every entity and search expression",
 "tests search for a few fields",
 ["internal/db/search.go","internal/db/db.go"],[("index mapping","internal/db/search.go")])
p("C37","Administrative commands authenticate with the operator's own token",
 "Every command line operation that performs a mutating request attaches the operator's own token (the verified cached one of the entity it runs as, or one newly obtained for this entity) as the authorization of that request, and the program ends with a non-zero exit status when a request fails or the command is refused.",
 ["inputs"],"every command",
 "the command line has no tests",
 ["internal/ctl"],[("netauth.Authorize(ctx, token())","internal/ctl")])
p("C38","The server starts serving only when fully initialized",
 "The server accepts requests only after the storage backend, the crypto engine, the token service and the record-processing layer were all initialized without error, plugins were attached and the membership state was populated from storage; a failure of any of the essential parts ends startup.",
 ["configurations","fault_sequences"],"every startup path",
 "no test starts the server process",
 ["cmd/netauthd/main.go"],[("startup sequence","cmd/netauthd/main.go")])
p("C40","Secrets and tokens are never logged",
 "No log statement is given a secret, a secret hash, a token or a private key, directly, as part of a request or of stored data, or through an intermediate value.",
 ["programs","inputs"],"every log statement in the server and its libraries",
 "tests do not examine log output",
 [R,T,H,"internal/token","internal/crypto","internal/db","cmd/netauthd"],[("log calls",R)])
p("C41","Untyped metadata and rule edits affect exactly the named key",
 "For keys without a colon: writing untyped metadata replaces the value of exactly the given key and keeps all others; an exact clear removes only entries whose key equals the given key and a fuzzy clear only entries whose key, disregarding any index suffix, equals it; reading returns the stored data and changes nothing.",
 ["inputs"],"every key, value and existing metadata",
 "tests have two or three keys",
 [H+"untyped-entity-meta.go",H+"untyped-group-meta.go",T+"util/util.go",T+"entity.go",T+"group.go"],[("PatchKeyValueSlice",T+"util/util.go")])
p("C42","Membership, key and rule edits touch exactly the named item",
 "Adding a group membership, key or rule leaves every other item of the list in place and adds the requested one at most once; removing a membership or rule removes exactly the item equal to the request and nothing else.",
 ["inputs"],"every list content and item",
 "tests use lists whose items share no prefix",
 [H+"direct-groups.go",H+"entity-keys.go",H+"patch-group-expansions.go",T+"util/util.go"],[("PatchStringSlice",T+"util/util.go")])
p("C43","Locking and unlocking change only the lock state",
 "Locking an entity makes it locked and unlocking makes it unlocked in storage, on the named entity only, changing nothing else of the record; the requests are wired to the operation of their own name.",
 ["inputs"],"every entity and lock state",
 "tests check the lock field on one entity",
 [H+"entity-locks.go",T+"entity.go",T+"defaults.go",R+"entity.go"],[("lock hooks",H+"entity-locks.go")])
p("C44","A record is loaded exactly as it was saved",
 "Saving an entity or group stores exactly the encoding of the record given, once, under the key of its own name; loading decodes exactly the bytes the store holds for the name asked for into a fresh record, and deleting removes that record. Every storage backend keeps, returns and removes the bytes of a key at one location that depends only on the key, and lists exactly the stored keys that match the pattern.",
 ["inputs","histories"],"every record, name and sequence of saves, loads and deletes on every backend",
 "tests save and load a few small records",
 ["internal/db/db.go","internal/db/filesystem/filesystem.go","internal/db/bitcask/bitcask.go","internal/db/memory/memory.go"],
 [("LoadEntity/SaveEntity","internal/db/db.go"),("Put/Get/Del/Keys","internal/db/filesystem/filesystem.go")])
p("C45","No command line crashes the client tools",
 "Whatever arguments and flags are given to netauth or nsutil, whatever the environment provides and whatever the server answers within its protocol, the tool ends with an error message or a result and never by a panic: a command reads only the arguments its validator requires or that it found to be given, everything it uses was set by the initialisation that ran before it, results are used only after their error was found nil, and the client library reads the first element of an answer only if the server never gives an empty one on success.",
 ["inputs","programs"],"every command, list of arguments, environment and answer of the server",
 "the commands have no tests",
 ["internal/ctl","cmd/nsutil","pkg/netauth"],[("commands","internal/ctl"),("client","pkg/netauth")])
p("C50","Concurrent updates of one record are not lost",
 "When two requests update the same entity or group concurrently, the effects of both are present afterwards.",
 ["schedules"],"every interleaving of two updates","tests are sequential",
 [T+"entity-chains.go","internal/db/db.go"],[("none: load and save are separate storage operations",T+"entity-chains.go")])
p("C51","Searches return exactly the matching records",
 "A search returns every stored record that matches the expression and no other.",
 ["inputs"],"every expression and stored set","tests use three records",
 ["internal/db/search.go"],[("bleve query string search","internal/db/search.go")])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
