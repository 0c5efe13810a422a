"""The properties, and how each check decides them (see gen.py)."""

BFS = "explicit-state search: every operation sequence up to the depth bound, run on the real server, states merged only when stored data, in-memory data and history variable are identical"
NOTE = "Every operation sequence over the stated alphabet up to the stated depth is executed on the real RPC layer, tree, hooks and membership resolver over an in-memory store; nothing is said about longer histories or values outside the alphabet. Trusted: the reference model and the transparent stand-ins for password hash and token signing (both real ones have their own checks)."

SCHED = "stateless schedule enumeration of the real code under a controlled scheduler (locks, goroutines, storage, index calls are scheduling points) with dynamic partial-order reduction and a preemption bound"
SNOTE = "Every interleaving, up to the stated number of preemptions and up to the order of independent steps, of the stated sets of requests is executed on the real RPC layer, tree, hooks, storage layer and resolver. The sources are rewritten mechanically so that locks and go statements reach the scheduler; the thorough check repeats the exploration without reduction and compares outcomes. Memory accesses between two scheduling points are atomic in the exploration; the race detector covers those for C22. Nothing is said about more requests than stated or more preemptions."

def P(id, title, statement, over, quant, why, files, mech, observe, technique=BFS, note=NOTE, **kw):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, **kw)

PROPS = [
P("C01", "Authentication succeeds exactly with the current secret of an unlocked entity",
  "Authenticating (checking a secret, or asking for a token) succeeds if and only if the entity exists, is not locked, and the presented non-empty secret is the one most recently set for it; every failed attempt gets the same answer whatever the reason, and no token. A token issued on success names exactly the authenticated entity.",
  ["histories", "inputs"], "every history of creating, destroying, locking, unlocking, re-securing, updating and restarting, and every (identity, secret) pair presented after it",
  "Tests authenticate once or twice on a fixed fixture; they cannot cover every history of lock, destroy, recreate and secret change that may precede an attempt.",
  ["internal/rpc2/auth.go", "internal/tree/entity.go", "internal/tree/hooks/validate-entity-secret.go", "internal/tree/hooks/validate-entity-unlocked.go", "internal/tree/defaults.go"],
  [("VALIDATE-IDENTITY chain", "internal/tree/defaults.go"), ("validate-entity-secret, validate-entity-unlocked", "internal/tree/hooks"), ("AuthEntity, AuthGetToken", "internal/rpc2/auth.go")],
  ["AuthEntity", "AuthGetToken"]),
P("C02", "Secrets change only with the old secret or the right capability",
  "An entity's secret changes only when the requester holds the change-secret (or root) capability for the request, or asks about itself, presenting a token of its own together with its current secret, while it is not locked. Any other attempt is refused and alters nothing, and after a successful change only the new secret authenticates.",
  ["histories", "inputs"], "every combination of caller identity, capability set, target and presented secret, after every history of account operations up to the bound",
  "Tests try a few caller/target pairs; the guarantee is about every combination of caller, capability, target, presented secret and lock state.",
  ["internal/rpc2/auth.go", "internal/rpc2/util.go", "internal/tree/entity.go", "internal/tree/hooks/set-entity-secret.go"],
  [("AuthChangeSecret", "internal/rpc2/auth.go"), ("SET-SECRET chain", "internal/tree/defaults.go")],
  ["AuthChangeSecret", "AuthEntity"]),
P("C03", "Every change needs the matching capability",
  "A request that changes anything is carried out only when its token is valid and carries the capability for that kind of change or the root capability (or is covered by self-service of public keys or by delegated group management). Otherwise it is refused as unauthenticated or unauthorised and nothing stored changes; conversely a holder of the capability is not refused for lack of authority.",
  ["inputs", "histories"], "every mutating request, every single capability and its complement, missing and malformed tokens, in states reached by every short history",
  "Tests exercise one allowed and one refused caller for some requests; they do not close the matrix of requests by capabilities, nor look for partial effects of refused requests.",
  ["internal/rpc2/util.go", "internal/rpc2/entity.go", "internal/rpc2/group.go", "internal/rpc2/system.go", "internal/token/token.go"],
  [("mutablePrequisitesMet, checkToken", "internal/rpc2/util.go"), ("HasCapability", "internal/token/token.go")],
  ["every mutating RPC", "stored data"]),
P("C04", "Delegated management covers exactly the group's own metadata, rules and members",
  "A caller without the needed capability may change a group's metadata, rules or membership exactly when that group currently names a managing group and the caller is currently an effective member of it. Delegation never extends to other groups, to entities, to creating or destroying groups, to capabilities or to key/value data, and ends as soon as the membership or the managing group does.",
  ["histories", "inputs"], "every history of membership, rule, destroy, recreate and managing-group changes up to the bound, and every request by every candidate caller afterwards",
  "Tests use one static managing group; they cannot follow management through indirect membership, removal and group destruction.",
  ["internal/rpc2/util.go", "internal/rpc2/group.go", "internal/tree/membership.go"],
  [("manageByMembership", "internal/rpc2/util.go")],
  ["GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember"]),
P("C05", "A read-only server never changes anything",
  "A server configured read-only refuses every request that would change an entity, a group, a secret, a membership or a capability, whoever asks, and its stored data stays exactly as it was. Reads and authentication still answer as on a writable server.",
  ["inputs", "configurations"], "every mutating request by every kind of caller, including root and self-service, against a read-only server in several starting states",
  "Tests check the read-only error of some requests only, with one caller each, and do not compare the store.",
  ["internal/rpc2/util.go", "internal/rpc2/entity.go", "internal/rpc2/group.go", "internal/rpc2/auth.go", "internal/rpc2/system.go"],
  [("mutablePrequisitesMet", "internal/rpc2/util.go")],
  ["every mutating RPC", "stored data"]),
P("C06", "A token carries exactly the capabilities its entity has",
  "A token issued to an entity carries exactly the capabilities granted directly to that entity together with those granted to the groups it is effectively a member of at that moment, and none others. Dropping a capability, a membership, a rule or a group removes what it granted from every token issued afterwards, and no token is issued to a locked or missing entity.",
  ["histories"], "every history of capability, membership, rule, lock, create and destroy operations and restarts up to the bound, with a token requested for every entity after each",
  "Tests fetch tokens on one fixed fixture; capabilities that linger or are missed appear only after particular histories of grants, memberships and rules.",
  ["internal/rpc2/auth.go", "internal/rpc2/util.go", "internal/mresolver/memberships.go", "internal/tree/membership.go", "internal/tree/hooks/entity-capabilities.go", "internal/tree/hooks/group-capabilities.go"],
  [("getCapabilitiesForEntity", "internal/rpc2/util.go"), ("HasCapability", "internal/token/token.go")],
  ["AuthGetToken", "SystemCapabilities"]),
P("C08", "Stored secrets never reach anybody",
  "No answer the server gives - to reads, listings, searches, authentications, or changes - contains an entity's secret or its stored form, or depends on it, except that presenting the right secret succeeds. Two servers whose entities differ only in their secrets are indistinguishable to everyone who presents no secret.",
  ["histories", "inputs"], "every history up to the bound run on a pair of servers that differ only in secrets, with every reading call and a family of search expressions compared after each step",
  "Confidentiality is a relation between two runs; a test that inspects one answer cannot show that no answer depends on a secret.",
  ["internal/rpc2/entity.go", "internal/rpc2/group.go", "internal/tree/util/util.go", "internal/db/search.go"],
  [("safe copies of entities", "internal/rpc2"), ("search index mapping", "internal/db/search.go")],
  ["EntityInfo", "EntitySearch", "GroupMembers", "every other reading RPC"]),
P("C09", "Each accepted request changes exactly what it says",
  "A request that is accepted changes exactly the attributes of the entity or group it names in the way it asks for, and nothing else in the directory; a request that is refused changes nothing. Requests that are valid and authorised are accepted, and updates of metadata never alter identity, number, secret, lock, capabilities, memberships, rules, keys or key/value data.",
  ["histories", "inputs"], "every history of up to the bounded number of requests over all mutating calls, from an empty and from a populated directory, each transition compared attribute by attribute with a reference model",
  "Tests check the one attribute they changed; a frame property is about everything that must not have changed, after every history.",
  ["internal/tree/entity.go", "internal/tree/group.go", "internal/tree/defaults.go", "internal/tree/hooks/merge-entity-meta.go", "internal/tree/hooks/merge-group-meta.go", "internal/rpc2/entity.go", "internal/rpc2/group.go"],
  [("hook chains", "internal/tree/defaults.go"), ("merge hooks", "internal/tree/hooks")],
  ["every mutating RPC", "stored data"]),
P("C10", "Reads report exactly what was last written",
  "Reading an entity or a group, its key/value data, its untyped metadata, its keys or its memberships reports exactly the current stored values of the one asked for (secrets excepted), and asking for something that does not exist is answered as not found. Reading changes nothing.",
  ["histories", "inputs"], "every reading call on every object of the universe in every state reached by every history up to the bound",
  "Tests read back single fixtures; stale, aliased or redacted-in-place data shows only after particular sequences of writes and reads.",
  ["internal/rpc2/entity.go", "internal/rpc2/group.go", "internal/tree/entity.go", "internal/tree/group.go", "internal/db/db.go"],
  [("EntityInfo, GroupInfo, EntityKVGet, EntityUM, EntityKeys", "internal/rpc2"), ("LoadEntity, LoadGroup", "internal/db/db.go")],
  ["every reading RPC"]),
P("C11", "Effective membership follows from direct memberships and rules alone",
  "At every moment an existing entity is an effective member of a group exactly when it is a direct member or an effective member of an included group, and is not an effective member of an excluded group; a rule naming a missing group contributes nobody. Listing a group's members and listing an entity's groups agree with this and with each other, whatever history led there and across restarts.",
  ["histories"], "every sequence of rule changes, membership changes, group and entity creation and destruction, and restarts up to the bound over three groups and two entities",
  "The membership index is maintained incrementally; tests run a few fixed sequences and cannot show that no sequence leaves it stale.",
  ["internal/mresolver/memberships.go", "internal/tree/membership.go", "internal/tree/group.go"],
  [("SyncDirectGroups, SyncGroup, resolver index", "internal/mresolver/memberships.go"), ("storage event callbacks", "internal/tree/membership.go")],
  ["GroupMembers", "EntityGroups", "GroupInfo", "EntityInfo"]),
P("C12", "Membership rules stay well-formed and free of cycles",
  "Whatever sequence of requests is made, a group has at most one rule per target, every accepted new rule names an existing other group, and following rules from a group never leads back to it. Rules that keep this are accepted, and removing or adding a rule affects only the rule with exactly that target.",
  ["histories"], "every sequence of rule additions, removals, group destructions and creations up to the bound over three groups (including names that are prefixes of each other), and over four fixed groups",
  "Tests try a handful of rules; a cycle needs a particular sequence of several, possibly with groups destroyed and recreated between.",
  ["internal/tree/hooks/check-expansion-cycle.go", "internal/tree/hooks/check-expansion-targets.go", "internal/tree/hooks/check-immediate-expansions.go", "internal/tree/hooks/patch-group-expansions.go"],
  [("MODIFY-EXPANSIONS chain", "internal/tree/defaults.go")],
  ["GroupUpdateRules", "GroupInfo"]),
P("C13", "Names and automatically assigned numbers identify one object",
  "An entity or group cannot be created under a name in use, and trying leaves the existing one exactly as it was. A number assigned automatically is positive and differs from that of every existing object of its kind; an explicitly requested number is stored as requested, and a number never changes afterwards.",
  ["histories", "inputs"], "every history of creations with automatic and explicit (including extreme) numbers, destructions, updates and restarts up to the bound",
  "Tests create a few objects in one order; collisions need particular mixes of explicit numbers, gaps, extremes and restarts.",
  ["internal/db/db.go", "internal/tree/hooks/set-entity-number.go", "internal/tree/hooks/set-group-number.go", "internal/tree/hooks/fail-on-existing-entity.go", "internal/tree/hooks/fail-on-existing-group.go"],
  [("NextEntityNumber, NextGroupNumber", "internal/db/db.go"), ("fail-on-existing hooks", "internal/tree/hooks")],
  ["EntityCreate", "GroupCreate", "EntityInfo", "GroupInfo"]),
P("C14", "Key/value data behaves as a map with ordered values",
  "For each entity and each group, key/value data behaves as a map: adding succeeds only for a new key, replacing and deleting only for an existing one (answering already-exists or not-found otherwise), and each affects that key alone. Reading a key returns exactly the values last stored with their order; reading all returns every key once.",
  ["histories"], "every sequence of add, replace, delete and unrelated updates up to the bound over several keys and value lists on two entities and on two groups",
  "Tests perform one call per fixture; map laws quantify over sequences of calls on several keys.",
  ["internal/tree/hooks/entity-kv.go", "internal/tree/hooks/group-kv.go", "internal/rpc2/entity.go", "internal/rpc2/group.go"],
  [("KV hooks", "internal/tree/hooks/entity-kv.go")],
  ["EntityKVGet", "EntityKVAdd", "EntityKVReplace", "EntityKVDel", "GroupKV*"]),
P("C15", "Untyped metadata behaves as a map with ordinal-insensitive clearing",
  "For each entity and group, setting an untyped metadata key replaces that key's value and no other, an exact clear removes that key only, and a fuzzy clear removes exactly the keys equal up to their ordinal markers. Reads return exactly the matching entries.",
  ["histories"], "every sequence of sets, exact clears and fuzzy clears up to the bound over keys that are prefixes or ordinal variants of each other, on entities and groups",
  "Tests patch small fixed lists once; interference between similar keys shows only in sequences over adversarially similar keys.",
  ["internal/tree/util/util.go", "internal/tree/hooks/untyped-entity-meta.go", "internal/tree/hooks/untyped-group-meta.go"],
  [("PatchKeyValueSlice", "internal/tree/util/util.go")],
  ["EntityUM", "GroupUM"]),
P("C16", "Public keys are added, dropped and listed exactly",
  "Adding a public key to an entity adds exactly that key of that type (once), dropping removes exactly the key equal to the one named (or, when only a type is named, all keys of that type), and listing returns exactly the keys added and not dropped since. No other key, entity or attribute is affected.",
  ["histories"], "every sequence of additions and removals up to the bound over keys that contain one another, in two types and on two entities, by an administrator and by the entity itself",
  "Tests add and drop one key; keys that contain one another or repeat need sequences.",
  ["internal/tree/hooks/entity-keys.go", "internal/tree/util/util.go", "internal/rpc2/entity.go"],
  [("entity key hooks", "internal/tree/hooks/entity-keys.go"), ("PatchStringSlice", "internal/tree/util/util.go")],
  ["EntityKeys"]),
P("C17", "Searches return exactly the existing objects that match",
  "Searching entities or groups returns exactly the currently existing ones whose identity, number, metadata or (for entities) direct memberships match the expression, with their current values. Nothing destroyed, outdated or unrelated is returned and nothing newly created or changed is missed, across every history of changes and restarts.",
  ["histories", "inputs"], "every history of creating, renaming, updating, destroying, recreating, membership changes and restarts up to the bound, with a family of search expressions of known meaning evaluated in each state",
  "The search index is maintained by events beside the data; tests query once after one change and cannot show that no history leaves the index behind.",
  ["internal/db/search.go", "internal/db/db.go", "internal/db/callback.go", "internal/rpc2/entity.go", "internal/rpc2/group.go"],
  [("IndexCallback, SearchEntities, SearchGroups", "internal/db/search.go")],
  ["EntitySearch", "GroupSearch"]),
P("C18", "Restarting the server is unobservable",
  "Stopping the server and starting it again on the same stored data changes no answer: reads, listings, memberships, searches, token contents, authentication, and the outcome and effect of every later request are the same as if it had kept running. This holds whatever order the store lists its keys in.",
  ["histories", "configurations"], "every history up to the bound run on a long-running server and on one restarted before every step with keys listed in reverse, comparing every answer, the stored data and every reading call",
  "Everything kept in memory (rules, memberships, search index) is rebuilt on start; tests never compare a rebuilt server with a long-running one after arbitrary histories.",
  ["internal/tree/manager.go", "internal/tree/membership.go", "internal/mresolver/memberships.go", "internal/db/callback.go", "internal/db/search.go"],
  [("EventUpdateAll", "internal/db/callback.go"), ("resolver callbacks", "internal/tree")],
  ["every RPC"]),
P("C20", "Concurrent requests about entities take effect as if made one at a time",
  "When requests that create, destroy, lock, unlock, re-secure, update or read single entities (their metadata, keys, key/value data, capabilities, memberships) are made at the same time, alone or beside requests about groups, every answer and the data finally stored are those of the same requests made one after another, in some order in which no request comes before one already answered when it was made. No update is lost, no account is overwritten, and no number is given out twice.",
  ["schedules"], "every interleaving of two (and chosen three) concurrent requests, or one beside a destroy-and-recreate sequence, at the granularity of lock, storage, index and resolver steps, up to the bound on preemptions",
  "Unit tests are sequential; a lost update or a double number needs another request to run between two particular storage calls.",
  ["internal/tree/entity.go", "internal/tree/locks.go", "internal/tree/hooks/load-entity.go", "internal/tree/hooks/save-entity.go", "internal/db/db.go", "internal/rpc2/entity.go", "internal/rpc2/auth.go"],
  [("entity hook chains: load, modify, save", "internal/tree/defaults.go"), ("locks held over a chain", "internal/tree/locks.go"), ("NextEntityNumber", "internal/db/db.go")],
  ["entity RPCs", "AuthEntity", "AuthChangeSecret", "stored data"],
  technique=SCHED, note=SNOTE),
P("C21", "Concurrent requests about groups take effect as if made one at a time",
  "When requests that create, destroy, update or read single groups (their metadata, rules, key/value data, capabilities) are made at the same time, every answer and the data finally stored are those of the same requests made one after another, in some order in which no request comes before one already answered when it was made. In particular no update is lost, no group is overwritten, no number is given out twice, and two concurrent rule changes cannot together form a cycle.",
  ["schedules"], "every interleaving of two (and chosen three) concurrent requests, or one beside a destroy-and-recreate sequence, at the granularity of lock, storage, index and resolver steps, up to the bound on preemptions",
  "Unit tests are sequential; a lost update or a cycle made of two rules needs two requests to overlap between check and save.",
  ["internal/tree/group.go", "internal/tree/locks.go", "internal/tree/hooks/load-group.go", "internal/tree/hooks/save-group.go", "internal/tree/hooks/check-expansion-cycle.go", "internal/db/db.go", "internal/rpc2/group.go"],
  [("group hook chains: load, modify, save", "internal/tree/defaults.go"), ("locks held over a chain", "internal/tree/locks.go"), ("NextGroupNumber", "internal/db/db.go")],
  ["group RPCs", "stored data"],
  technique=SCHED, note=SNOTE),
P("C22", "Concurrent requests never corrupt, deadlock or mislead the server",
  "However requests overlap - changes, listings, membership and group queries, searches, authentications - every one is answered, with a kind of answer it could get if they were made one at a time and never a listing with empty entries; the server has no data race and no deadlock. Once they are done, memberships, listings, searches and tokens are those of a server started afresh on the same stored data.",
  ["schedules"], "every interleaving of two (thorough: chosen three) concurrent requests out of changes, membership queries, searches and authentications, at the granularity of lock, storage, index and resolver steps, up to the bound on preemptions, also run under the race detector",
  "Unit tests are sequential; races, deadlocks and in-memory indexes that end up different from the stored data show only under particular interleavings.",
  ["internal/mresolver/memberships.go", "internal/tree/membership.go", "internal/db/callback.go", "internal/db/db.go", "internal/db/search.go", "internal/rpc2/group.go", "internal/rpc2/entity.go"],
  [("membership resolver locks", "internal/mresolver/memberships.go"), ("storage events", "internal/db/callback.go"), ("search index", "internal/db/search.go")],
  ["every RPC"],
  technique=SCHED + "; race detector on every explored schedule", note=SNOTE),
P("C25", "A failing storage call never yields a wrong or partial result",
  "When a storage call fails while the server handles a request, the request is either refused with nothing stored changed, or accepted with exactly its full effect; the server keeps working. No such failure lets somebody authenticate, gain authority or a capability, overwrite an existing object or get a wrong answer to a read.",
  ["fault_sequences", "histories"], "every request of the alphabet with every single storage call it makes failing (before taking effect, or, for the first ones, after), in the states reached by up to the bounded number of requests",
  "Tests fail one storage call in a few functions through mocks; the guarantee is about each of the storage calls of each request, including those made by checks and event handlers.",
  ["internal/db/db.go", "internal/db/callback.go", "internal/tree/hooks/load-entity.go", "internal/tree/hooks/fail-on-existing-entity.go", "internal/tree/hooks/check-expansion-cycle.go", "internal/rpc2/util.go"],
  [("KV store interface", "internal/db/type.go"), ("hook chains", "internal/tree/defaults.go")],
  ["every RPC", "stored data"],
  technique="exhaustive single-fault injection: every storage call index of every request is failed in every explored state of the real server, outcomes compared with a reference model"),
P("C27", "Bootstrapping works once per start and grants exactly root",
  "Bootstrapping makes the named identity exist, unlocked, with the given secret and the root capability, without altering anything else of it or of the directory, and only the first time after a server start: afterwards, or once bootstrapping is disabled, asking again changes nothing. What is granted that way can be dropped, locked or destroyed like anything else.",
  ["histories"], "every history of bootstrap requests (new, existing and invalid identities), disabling, restarts and ordinary changes up to the bound, on an empty and on a populated directory",
  "Tests bootstrap once on a fresh fixture; a second chance to become root appears only after particular histories.",
  ["internal/tree/entity.go", "internal/tree/manager.go", "internal/tree/hooks/create-entity-if-missing.go", "internal/tree/defaults.go"],
  [("Bootstrap, DisableBootstrap", "internal/tree/entity.go"), ("BOOTSTRAP-SERVER chain", "internal/tree/defaults.go")],
  ["Bootstrap", "AuthGetToken", "stored data"]),
P("C36", "No request can crash or hang the server",
  "Whatever a request contains (fields missing, empty, extreme or malformed, names that do not exist, tokens missing or garbled) and whoever sends it, the server answers it, with success or an error, and keeps answering later requests correctly. A search expression of any form is answered as well.",
  ["inputs", "histories"], "every RPC with its fields varied singly and in pairs over missing, empty, wrong and extreme values, by several kinds of caller, alone and in sequence, and every search expression over an alphabet up to the length bound",
  "Tests send well-formed requests; a nil field or an odd expression that brings the server down is exactly what they leave out.",
  ["internal/rpc2/entity.go", "internal/rpc2/group.go", "internal/rpc2/auth.go", "internal/rpc2/system.go", "internal/rpc2/util.go", "internal/db/search.go", "internal/tree/hooks"],
  [("RPC handlers", "internal/rpc2")],
  ["every RPC"],
  technique="exhaustive enumeration of request shapes generated from the message types, run on the real server in a watched child process (a crash or a hang is a violation)"),
P("C07", "Only the server's own unexpired tokens are accepted, with exactly the claims issued",
  "A token that the server issues is accepted, until its configured lifetime is over, by that server, by the same server restarted, and by every client holding its public key, and says exactly the entity and capabilities it was issued for. Nothing else is accepted: not an expired token or one that is not valid yet, another server's token, any alteration of a token, a recombination of several, or one that is unsigned or signed by any other key or algorithm. A request with such a token is refused as unauthenticated and changes nothing.",
  ["inputs", "histories"], "every set of claims over the capabilities and a family of entity IDs; every single-character change of a token; every combination of signature algorithm, outsider's key, header and claims; every splice of genuine tokens; every request with every kind of bad token",
  "Tests present one good token, one expired one and one of the wrong type; forging is about all strings somebody may present.",
  ["internal/token/jwt/rsa.go", "internal/token/token.go", "internal/token/claims.go", "internal/rpc2/util.go", "internal/rpc2/auth.go"],
  [("Generate, Validate", "internal/token/jwt/rsa.go"), ("checkToken", "internal/rpc2/util.go"), ("GetConfig, SetLifetime", "internal/token/token.go")],
  ["AuthGetToken", "AuthValidateToken", "every mutating RPC"],
  technique="exhaustive enumeration of presented tokens (adversary moves: alter, splice, re-sign, replay, delay) against the real signing service, and of requests carrying them in every state reached within the depth bound",
  note="Every case of the stated families is presented to the real jwt-rsa service and the real RPC layer. The adversary knows the public key, genuine tokens and keys of his own; breaking RSA or SHA-512 is outside. Moments within 30 seconds of a token's limits are not asked about, except for one 2-second token that is really waited for."),
P("C28", "The signing keys are created once, completely and privately, whatever interrupts it",
  "A server allowed to generate its keys that starts without any creates a pair; if this is interrupted at any point - the process killed, power lost, a system call failing - the next start succeeds, and issues tokens which the server and everybody holding the public key file accept. Once a start has succeeded the keys never change again, under whatever umask and user it ran, and earlier tokens stay valid. The private key is at no moment readable to others. Without usable public key, or with generation disabled, the service does not start and leaves every file as it is; it never issues tokens that it would refuse.",
  ["crash_points", "fault_sequences", "configurations"], "every crash point of a first start (and of the start after a crash, in the thorough check) with every unsynced part kept, lost or torn, every failing system call, 5 umasks, privileged and unprivileged user, and every combination of present key files",
  "Tests start the service once with complete keys; interruptions leave states no test constructs.",
  ["internal/token/jwt/rsa.go"],
  [("GetKeys, generateKeys, marshalPrivateKey, marshalPublicKey", "internal/token/jwt/rsa.go"), ("healthCheck", "internal/token/jwt/rsa.go")],
  ["token.New", "key files", "health report"],
  technique="crash-point and fault enumeration: system calls of the real service traced, every state of the disk after a crash rebuilt and started on; every use of every system call failed in turn",
  note="The disk is modelled from the traced calls: directory and permission changes are kept in order, file data only when synced, otherwise kept, lost or torn; fsync makes earlier directory changes durable. strace provides tracing and fault injection."),
P("C19", "A name never reaches anything but its own object",
  "Whatever an entity ID or a group name looks like (path elements, glob or control characters, colons, case, blanks, quotes, overlong), a request that uses it does to that object what the same request does to an ordinarily named one, or is refused and changes nothing. It never reads, changes, removes or is taken for another entity or group, a key that no listing covers, or a file outside the store, not even after a restart, on any backend.",
  ["inputs", "histories", "configurations"], "every request that takes a name with each of a large set of odd names, alone, on an existing object of that name and next to other odd names, on the real backends, compared with the same history under ordinary names",
  "Tests use plain names. Which of two odd names collide depends on the backend, the key layout, the way rules are stored and the search index together.",
  ["internal/db/db.go", "internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go", "internal/tree/hooks", "internal/mresolver"],
  [("key layout", "internal/db/db.go"), ("cleanPath", "internal/db/filesystem/filesystem.go")],
  ["every RPC", "stored data", "files around core.home"],
  technique="exhaustive enumeration of (backend, way to exist, request, name, name) combinations on the real server, compared with the isomorphic history under ordinary names; run without privileges in a scratch directory"),
P("C23", "Every store keeps what was put in it",
  "A storage backend behaves as a map: a value that was accepted reads back byte for byte under exactly its key until it is replaced or removed, whatever the key (glob characters, dots, case) and whatever the value's bytes; a missing key is reported as missing; listing yields exactly the present keys a pattern matches; each change fires exactly one event that names what was changed and how. All of that survives closing and reopening, and also a server that stops without closing the store. A store may refuse a value (an empty one, for instance), but never accepts and then loses it. The filesystem, bitcask and in-memory backends do not differ in it.",
  ["histories", "inputs"], "every sequence of put, get, delete, list, orderly restart and kill up to the bound, over keys and values chosen to collide, on the real filesystem and bitcask stores, each step compared with a map",
  "Tests put and get one or two plain keys per backend and never reopen the store, and what one backend does with odd keys, overlapping keys, shorter replacements or a missing Close shows only in sequences.",
  ["internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go", "internal/db/memory/memory.go", "internal/db/type.go"],
  [("KVStore implementations", "internal/db/type.go")],
  ["KV store interface", "files below core.home"],
  technique="exhaustive enumeration of operation sequences on the real storage backends (with real files), compared step by step with a reference map"),
P("C24", "Acknowledged changes survive a crash, and nothing else appears",
  "Wherever the server is killed or the machine loses power, the store opens again by itself and holds every change that was acknowledged; a change that was under way has either happened completely or not at all; nothing else has changed: no object is damaged, lost, half written, brought back or made up, and no leftover of an interrupted write passes for an object. That also holds for a crash during the recovery, and further changes work after it.",
  ["crash_points", "histories"], "every crash point of every bounded history of changes on the real backends: after each file operation (killed), and for a loss of power each combination, within the stated disk model, of file operations that reached the disk and of what happened to data not yet synced",
  "No test ends a server in the middle of a write, and which system calls have taken effect at that moment is beyond what a test can arrange.",
  ["internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go"],
  [("Put, Del, opening", "internal/db/filesystem/filesystem.go"), ("Put, Del, opening", "internal/db/bitcask/bitcask.go")],
  ["KV store interface", "files below core.home after a restart"],
  technique="exhaustive crash-point enumeration: system calls of the real backend are recorded, every disk state a crash can leave (under a stated model of the file system) is built and reopened by the real code",
  note="Power-loss states rest on a model of the file system (ordered metadata journal; fsync makes a file's data and earlier metadata durable; other data may be missing, cut or zero-filled); kill states do not."),
P("C26", "Copying a datastore copies all of it, or says that it did not",
  "After nsutil copy has ended successfully, the target holds every object of the source, byte for byte, next to what it held before, or, if it was asked to truncate it, nothing else. A dry run changes nothing. The source is never changed, not even if it is named as the target as well. If anything could not be read or written, or the command line is not one it accepts, the program does not end successfully.",
  ["inputs", "configurations", "fault_sequences"], "every combination of source and target backend, of options and of subsets of the objects on either side, and every single failing system call of the run",
  "There is no test of the program at all.",
  ["cmd/nsutil/db_copy.go", "internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go"],
  [("dbCopyCmdRun", "cmd/nsutil/db_copy.go")],
  ["exit status of nsutil copy", "content of both stores"],
  technique="exhaustive enumeration of inputs and of single failing system calls (injected), running the real program"),
P("C37", "A failing disk never makes a store report something wrong",
  "When a system call of a storage backend fails (an I/O error, a full disk), the operation reports an error or is carried out correctly; it is not reported as done if it was not, a value that can't be read is not reported as missing or empty, keys are not left out of a listing, no other object is harmed, and the store keeps working once the disk does.",
  ["fault_sequences", "histories"], "each use of each system call failing in bounded histories on the real backends, and a disk that fills up after every possible number of bytes",
  "Tests run on a disk that works; error paths of the backends are hardly executed.",
  ["internal/db/filesystem/filesystem.go", "internal/db/bitcask/bitcask.go"],
  [("KVStore implementations", "internal/db/type.go")],
  ["KV store interface"],
  technique="exhaustive fault injection at the system-call boundary of the real storage backends (every use of every call; every number of bytes for a full disk), compared with a reference map"),
P("C32", "Plugins see and decide exactly what the plugin interface says",
  "Each loaded plugin is called for exactly the actions of the public plugin interface (entity, group and secret creation, update, change, destruction and authentication, before or after the action as named; several plugins in no particular order), with the entity, group and secret the action is about, whatever values those hold; an error returned by a plugin refuses the action and, for an action that is called before the change, leaves the store unchanged; changes a plugin makes to the entity or group it is given take effect where the action stores it and nowhere else; a plugin that does nothing changes nothing. A plugin that fails to start, crashes or is killed never crashes the server, is never taken as consent to more than a plugin that does nothing would allow, and shows in the server's status, whatever other plugins are called. Each plugin runs once however often it is listed, and none is left running after the shutdown.",
  ["programs", "configurations", "fault_sequences"], "bounded programs of operations with zero, one and two plugins, each of which does nothing, refuses, changes its argument or dies at any one of the actions, and plugins that fail to start in several ways",
  "The existing tests use stub plugins in the same process; none crosses the process boundary to a plugin, where messages are encoded.",
  ["internal/plugin/tree/manager/chains.go", "internal/plugin/tree/manager/hook.go", "internal/plugin/tree/common/interface.go", "internal/plugin/tree/common/rpc.go", "pkg/plugin/tree/main.go"],
  [("plugin link", "internal/plugin/tree/common/rpc.go"), ("hook to action map", "internal/plugin/tree/common/interface.go")],
  ["RPC results and stored state with a plugin, compared with those without", "the calls the plugin receives"],
  technique="exhaustive enumeration of plugin behaviours (per action, per plugin) and of crash points of the plugin process, real server engine with real plugin processes, compared with a reference"),
P("C33", "The fail2lock plugin locks an entity out exactly after the set number of failures",
  "With the fail2lock plugin loaded: after the set number of failed authentications of an entity within the set time, no authentication of that entity succeeds until that time has passed or an administrator puts the plugin's reset mark on the entity, however right its secret is; fewer failures never keep a right secret from authenticating; a successful authentication starts the count again; failures of one entity never affect another; the options left out of the configuration take the documented defaults, each on its own; the plugin does not crash, whatever the entity and however many authentications happen at once.",
  ["histories", "configurations", "schedules"], "all histories of attempts (right, wrong, other entity, reset) up to a depth, for each configuration of its options, and pairs of simultaneous attempts",
  "The plugin has no tests.",
  ["plugins/tree/fail2lock/main.go"],
  [("fail2lock", "plugins/tree/fail2lock")],
  ["AuthEntity results with the plugin running as its own process"],
  technique="exhaustive enumeration of histories and configurations, the real plugin process attached to the real engine, compared with a reference automaton; pairs of concurrent attempts under the race detector",
  note="Attempts made while an entity is locked or carries the reset mark may or may not count. The lock does not survive a restart of the server."),
P("C29", "The health report tells the truth",
  "The server reports itself healthy exactly if every subsystem that registered a check is healthy at that moment; every one is reported once, with its own present state, and the first failure named is one that is failing. A second registration under a name does not displace the first. The token service reports itself failing unless it can both issue and verify tokens and its key files are present with their proper permissions.",
  ["configurations", "histories"], "every order of registration and every combination of states of up to the bounded number of subsystems, changed between reports; every combination of presence, content and permissions of the key files",
  "Tests register one or two fixed checks; an operator relies on the report for every combination.",
  ["internal/health/health.go", "internal/token/jwt/rsa.go", "internal/rpc2/system.go"],
  [("RegisterCheck, Check", "internal/health/health.go"), ("healthCheck", "internal/token/jwt/rsa.go"), ("SystemStatus", "internal/rpc2/system.go")],
  ["health.Check", "SystemStatus"],
  technique="exhaustive enumeration of subsystem sets, states and key file conditions on the real code, compared with the definition"),
P("C30", "The client library does what it says, to the right server",
  "Each method of the client library has exactly the effect on the server, and reports exactly the answer, that the request of that name has: stored data, values, error kind and message; a successful change is a change made, and a refused one is reported as an error. Indexed values come in order of their index; a group's managed groups are exactly those it manages. A word for an action or capability that the library does not know is refused without effect. When a separate master is configured, changes go only there, and reads of a client that has changed nothing go to the configured server. The authorization, client name and service name the program set go with every request. Unless the user explicitly disabled TLS, nothing is ever sent to a server that does not hold the configured certificate, and without a usable certificate there is no client. Which claims a token has is judged with the right key of the server only; a client without that key can make requests all the same, and no method crashes.",
  ["inputs", "configurations", "programs"], "every method with every combination of a family of arguments, in a set of server states, with each kind of authority; every configuration of server, master, certificate and TLS options against every kind of server; every key/value program up to the bound",
  "The library's tests use a mocked client interface; nothing runs it against a server.",
  ["pkg/netauth/entity.go", "pkg/netauth/group.go", "pkg/netauth/auth.go", "pkg/netauth/system.go", "pkg/netauth/netauth.go", "pkg/netauth/util.go", "pkg/netauth/type.go"],
  [("New, connect", "pkg/netauth/netauth.go"), ("EntityUM, EntityKV", "pkg/netauth/entity.go"), ("GroupUM, GroupInfo", "pkg/netauth/group.go")],
  ["results of the client library", "requests that servers receive", "stored data"],
  technique="exhaustive enumeration of method calls, arguments, states and configurations: the real client library against real servers over the loopback network, compared with the same request made to an identical server directly",
  note="Reads after a change may go to either server. Concurrent use of one client object is not covered. Reading a key together with an ordinal may return that one value or all values of the key."),
P("C31", "A token cache keeps each owner's token, and keeps it private",
  "A token put in a cache for an owner is what that owner gets until it is replaced or deleted, and nobody else gets it, whatever the owners are called; an owner without token is told so; after a deletion, or a replacement, the old token is gone. Caches on disk are shared between the programs of one directory, those in memory are not. A token on disk is at no moment readable to other users, whatever was in its place before, and storing it harms no other file, even when it is interrupted. Simultaneous use of a memory cache is safe.",
  ["histories", "inputs", "configurations", "crash_points", "schedules"], "every sequence of put, get and delete for owners with odd names up to the bound, on two instances; every kind of thing in the token's place, under every umask of a set; every point of interruption; pairs of simultaneous operations",
  "Tests put and get one plain owner; links, leftover files, umasks and names that share a file need enumeration.",
  ["pkg/netauth/cache/fs/fs.go", "pkg/netauth/cache/memory/memory.go", "pkg/netauth/cache/tokencache.go"],
  [("PutToken, GetToken, DelToken", "pkg/netauth/cache/fs/fs.go"), ("memory cache", "pkg/netauth/cache/memory/memory.go")],
  ["TokenCache interface", "files in the cache directory"],
  technique="exhaustive enumeration of operation sequences, of things in the file's place and of interruptions at every system call, on the real caches, compared with a reference map; pairs of concurrent operations under the race detector"),
P("C35", "A stored secret matches nothing but that secret, and does not reveal it",
  "Whatever bytes a secret consists of and however long it is, what the server stores for it is a salted BCrypt hash of the configured cost which accepts exactly that secret: not a secret that differs in one byte at any place, in case, blanks, encoding or length, not the stored form itself, and never the same form twice. A stored form that is cut off or altered in its hash is accepted for nothing. Forms stored under another cost go on working. A secret that the hash can't represent is refused rather than stored as a weaker one.",
  ["inputs"], "every pair of secrets out of families made to collide: all strings up to a length over bytes that hashes trip over, secrets that agree up to some place around the input limit of the hash, repeating ones, and ones that people would take for the same; each stored form cut off at every place",
  "Tests hash one short word; equivalent inputs of a hash are pairs one has to search for.",
  ["internal/crypto/bcrypt/bcrypt.go", "internal/tree/hooks/set-entity-secret.go", "internal/tree/hooks/validate-entity-secret.go"],
  [("SecureSecret, VerifySecret", "internal/crypto/bcrypt/bcrypt.go")],
  ["crypto.EMCrypto", "AuthEntity", "stored data"],
  technique="exhaustive enumeration of pairs of secrets over colliding families against the real engine, directly and through the server"),
P("C38", "The daemon serves what its configuration says, or does not start",
  "The daemon serves only on the configured address, with TLS unless that was disabled on the command line (a configuration file can't disable it), with the configured database, token lifetime, plugins (called if and only if plugins are enabled) and read-only mode. A setting it can't honour (unknown or unusable backend, missing, unreadable or mismatched keys or certificates, an address in use, a bootstrap value without a secret or with an ID nobody can have, a missing or malformed configuration file) makes it exit with failure without serving at any time. However it was ended - told to terminate or killed - the next start serves everything that was acknowledged before, no more and no less. A bootstrap value gives exactly the named entity, existing or not, exactly the given secret and root capability, unlocked, and touches nothing else; it acts in that start only. Told to write its configuration to a file it does that, or fails, and does not serve. Told to terminate, also at any moment of its start, the daemon ends; and however it ends or fails to start (other than by being killed) it leaves no plugin running.",
  ["histories", "configurations", "crash_points"], "every sequence up to a depth of starts (bootstrap none, new or existing) x changes x ends, on both file-backed databases; every combination up to a size of good and bad values of the options; every set of good and broken plugins x ways of enabling them; a signal after every line it logs during the start",
  "Nothing tests the program itself: what it does with its settings is code of main and of init functions, and its guarantee over restarts is about sequences of processes.",
  ["cmd/netauthd/main.go", "internal/startup/startup.go", "internal/plugin/tree/manager/manager.go", "internal/tree/entity.go", "internal/token/jwt/rsa.go"],
  [("main", "cmd/netauthd/main.go"), ("Bootstrap", "internal/tree/entity.go"), ("LoadPlugins, Shutdown", "internal/plugin/tree/manager/manager.go")],
  ["exit status of netauthd", "what answers on which address", "rpc responses", "processes left"],
  technique="exhaustive enumeration of process histories, option combinations and plugin sets with the real netauthd binary, compared with a model of the directory"),
P("C39", "The command line tool does exactly what its command says",
  "Every netauth command has exactly the effect of the request it stands for, made with exactly its arguments and options by the entity it was told to act as, and no other effect; it exits with success if and only if the request succeeded. A malformed use (missing, surplus or unparseable arguments, unknown options or commands) is refused with failure and no effect. Reading commands print exactly the requested data of the answer. A new secret (of an entity to be created or changed) is only what was given or typed as the new secret, never the secret of the requestor. A token obtained once is kept in a file only the user can read, is used until it is destroyed or replaced, and is gone after destroy-token; where the key of the server is missing or unusable, cached tokens can't be judged, and commands get a new one instead of failing or crashing.",
  ["inputs", "programs"], "every command x argument counts x option sets x server states x token cache states over a finite domain, and sequences of commands around the token cache",
  "No test covers the command line tool; each command is glue whose errors only show as a wrong request for some combination of arguments and options.",
  ["cmd/netauth/main.go", "internal/ctl/root.go", "internal/ctl/helpers.go", "internal/ctl/entity-create.go", "internal/ctl/entity-keys.go", "internal/ctl/auth-changesecret.go", "pkg/netauth/netauth.go", "pkg/netauth/auth.go", "pkg/netauth/cache/fs/fs.go"],
  [("Execute and the commands", "internal/ctl/root.go"), ("token", "internal/ctl/helpers.go")],
  ["netauth exit status and output", "requests the server receives", "stored data", "token cache files"],
  technique="exhaustive enumeration of command lines with the real netauth binary against the real server, compared with a model of the documented commands"),
]

NOT_APPLICABLE = {}
