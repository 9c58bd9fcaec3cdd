"""The properties, as written to properties.jsonl by gen.py (those that have a check)."""

T_NONE = "The repository's tests sample one or two deployments with honest entities and read counters; none of them injects "


def P(title, statement, over, text, why, files, mech, observe=None):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=[dict(name=n, where=w) for n, w in mech], observe=observe)


PROPS = {
"C01": P("Gossipers spread only authentic statements",
    "A gossiper passes a tree head, revocation statement or accusation on to its peers or its monitor only if it is signed by the known entity it is attributed to, exactly as received, and labelled with the period the signed statement is about. Every authentic statement that arrives first for its entity and period does reach all connected gossipers and the monitor, no matter what forgeries arrived before it, and nothing else is ever endorsed or spread in its place.",
    ["inputs", "schedules", "histories"],
    "for every object that can be posted to any gossip endpoint, from any sender, in any order and concurrently, in every deployment size and threshold",
    T_NONE + "a forged, altered or relabelled object; the space of forgeries and arrival orders is unbounded.",
    ["definition/Verify.go", "gossiper/gossiper_server.go", "gossiper/Interface.go"],
    [("signature and attribution check of statements", "definition/Verify.go"), ("INIT handlers and storage", "gossiper/gossiper_server.go, gossiper/Interface.go")],
    "requests a gossiper sends to its peers and its monitor"),
"C02": P("Endorsement needs the threshold of distinct gossipers",
    "A gossiper, monitor or client treats a tree head, revocation statement or accusation as endorsed only if it carries a valid threshold signature over exactly its content by at least the configured number of distinct known gossipers. Objects with fewer, repeated, unknown or unrelated signers, or with an altered statement, period label or signature, are never stored, passed on, published or believed, and never displace a genuinely endorsed one.",
    ["inputs", "configurations", "histories"],
    "for every object offered as endorsed to a gossiper, a monitor or (inside an update) a client, every threshold and number of gossipers",
    T_NONE + "an insufficiently endorsed object; tests only check that honest aggregation verifies.",
    ["crypto/crypto_config.go", "crypto/bls.go", "definition/Verify.go", "monitor/monitor.go", "client/client.go"],
    [("threshold verification", "crypto/crypto_config.go ThresholdVerify"), ("verification of endorsed objects", "definition/Verify.go"), ("acceptance in the monitor", "monitor/monitor.go"), ("verification of updates", "client/client.go")],
    "objects reaching a monitor, an update or a client's databases"),
"C03": P("Fragments assemble into exactly one endorsed object",
    "Whatever order, concurrency, duplication or corruption the endorsement fragments for a statement arrive in, a gossiper hands its monitor exactly one endorsed object for that statement and period as soon as valid fragments on the same content by the threshold of distinct gossipers (its own included) are available, and none before. Invalid, duplicate or differing fragments neither count nor prevent it, and the fragments it spreads are valid ones it received or made itself.",
    ["schedules", "inputs", "configurations"],
    "for every set and interleaving of valid, invalid and repeated fragments, every deployment size and threshold",
    "The fragment test feeds a handful of valid fragments in order to the handler; concurrency, corruption and duplication are not exercised.",
    ["gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go", "crypto/bls.go"],
    [("counting and storing fragments", "gossiper/Interface.go Read_and_Store_If_Needed"), ("aggregation", "gossiper/gen.go Generate_Gossip_Object_FULL")],
    "objects sent to the monitor and the peers"),
"C04": P("Two contradictory statements seen by one gossiper become a proof",
    "If a gossiper receives two different authentic statements of the same entity for the same period before that period's storage is cleared, in any order or at the same instant, then every connected gossiper and its monitor receive a valid conflict proof made of exactly these two, and the gossiper never endorses either of them afterwards. A repeated delivery of one statement, or statements for different periods, never produces a proof.",
    ["schedules", "inputs", "histories"],
    "for every pair of contradictory statements and every interleaving of their arrival with fragments, duplicates and further variants",
    T_NONE + "two contradictory statements concurrently; the detection window is a race between handlers.",
    ["gossiper/gossiper_server.go", "gossiper/Interface.go", "definition/Verify.go"],
    [("contradiction check", "gossiper/Interface.go IsMalicious"), ("proof creation", "gossiper/gen.go Generate_CON_INIT")],
    "conflict proofs sent to peers and monitor"),
"C05": P("A conflict proof never frames an honest entity",
    "A conflict proof is accepted, spread, published or acted on by a gossiper, monitor or client only if it holds two different statements about the same period, both signed by the accused. No other object (same statement twice, different periods, a forged or foreign signature, altered content) makes any of them distrust an entity.",
    ["inputs", "histories"],
    "for every object offered as a conflict proof, at a gossiper, a monitor and (inside an update) a client",
    T_NONE + "a bogus proof; honest use only ever sees correct ones.",
    ["definition/Verify.go", "gossiper/gossiper_server.go", "monitor/monitor.go", "client/client.go"],
    [("verification of conflict proofs", "definition/Verify.go"), ("blacklisting", "gossiper/Interface.go, monitor/types.go, client/client.go")],
    "what gossiper, monitor and client do for the accused entity afterwards"),
"C06": P("A convicted entity stays shut out",
    "From the moment a gossiper or monitor holds a valid conflict proof against an entity, or a gossiper an endorsed accusation, it spreads, endorses, queries and publishes no further statement of that entity, in this and in every later period. A client that has accepted a proof against a logger counts no certificate information of that logger, also after a restart, while other entities are unaffected.",
    ["histories", "inputs", "fault_sequences"],
    "for every way and time of conviction, every later statement, and every number of periods that follow, including the wrap of the hour",
    "Tests run one or two periods and look at counters, not at what happens to the convicted entity's later statements.",
    ["gossiper/Interface.go", "gossiper/gossiper_server.go", "monitor/monitor.go", "monitor/types.go", "client/client.go"],
    [("gossiper blacklist", "gossiper/Interface.go"), ("monitor conflict list", "monitor/types.go, monitor/monitor.go"), ("client proof database", "client/client.go")],
    "requests and updates of later periods"),
"C07": P("Honest statements converge everywhere within the period",
    "In every period, if at least the threshold of gossipers with their monitors are up and connected, the statement each responsive honest logger and CA gives for the period ends up endorsed, with exactly its content, in the update that each running monitor publishes for that period. This holds despite message delays of up to about a second, repeated deliveries, crashed gossipers and monitors, and a minority of misbehaving gossipers that send garbage or withhold fragments.",
    ["schedules", "fault_sequences", "configurations"],
    "for every assignment of delays, duplications, crash times of the tolerated number of gossipers and monitors, garbage traffic, number of entities and threshold, over consecutive periods including the wrap of the hour",
    "The network tests run one deployment over the loopback with all entities up and check counters at the end.",
    ["gossiper/gossiper_server.go", "monitor/monitor-server.go", "monitor/monitor.go", "monitor/client-update-monitor.go"],
    [("gossip, signing and aggregation", "gossiper/gossiper_server.go"), ("queries and timers of a period", "monitor/monitor-server.go"), ("update generation", "monitor/client-update-monitor.go")],
    "updates served by the monitors, and the message trace"),
"C08": P("A split view is exposed to every monitor",
    "If a logger or CA gives two monitors, both with running gossipers, different signed statements for the same period, then each running monitor's update of that period carries a valid conflict proof against it, no update carries a statement of it for that period or later, and no two monitors ever publish different endorsed statements of an entity for a period.",
    ["schedules", "fault_sequences", "histories"],
    "for every partition of the monitors into those that see one statement and those that see another, every timing of the answers within the gossip wait, delays and crashes",
    "The split-world tests run one partition at one timing and count objects; they do not compare what the monitors publish.",
    ["gossiper/gossiper_server.go", "monitor/monitor.go", "monitor/types.go", "monitor/client-update-monitor.go", "CA/server.go", "Logger/server.go"],
    [("conflict detection and gossip of proofs", "gossiper/gossiper_server.go"), ("removing statements of convicted entities", "monitor/types.go Clean_Conflicting")],
    "updates served by all monitors"),
"C09": P("Accusations are endorsed exactly against the silent",
    "An entity that gives no monitor an acceptable statement for a period (no answer, an error, garbage, a bad signature, another period's statement, or a revocation statement that does not extend the previous ones) is accused, and the endorsed accusation appears in every running monitor's update. An entity whose acceptable statement reaches any monitor that is up in time is never accused by an honest monitor and its statement is endorsed as usual.",
    ["fault_sequences", "schedules", "inputs"],
    "for every pattern of which monitors are served and which are not, kind of failure, and delay within the waiting time",
    "Tests exercise one unresponsive configuration with fixed timing.",
    ["monitor/monitor.go", "monitor/monitor-server.go", "gossiper/gossiper_server.go"],
    [("queries, verification and waiting before accusing", "monitor/monitor.go"), ("endorsing accusations", "gossiper/gossiper_server.go Handle_ACC_INIT")],
    "accusations in the message trace and in the updates"),
"C10": P("Published updates are complete, exact and immutable",
    "The update a monitor serves for a period holds exactly the endorsed statements of that period that it was given before the update was made, except those of entities it then holds a conflict proof against, and every proof of misbehaviour it was given since the previous update (one per entity, kind and period label), each once and unaltered. Later events and later periods never change it, and a period without an update is answered with an error, not with an empty or foreign update.",
    ["histories", "inputs", "schedules"],
    "for every sequence and timing of endorsed statements, accusations and conflict proofs over consecutive periods, and every request",
    T_NONE + "objects at arbitrary times of the period, nor compares successive updates with the whole history.",
    ["monitor/client-update-monitor.go", "monitor/monitor.go", "monitor/monitor-server.go", "monitor/types.go"],
    [("update generation and storage", "monitor/client-update-monitor.go, monitor/types.go"), ("serving updates", "monitor/monitor-server.go")],
    "answers to update requests"),
"C11": P("Revocations reach clients exactly, and stay",
    "What a CA has revoked by a period is exactly what every monitor that followed it holds for revoked, and exactly what a client that applied the monitors' updates holds for revoked: no certificate is lost, added or un-revoked on the way, over any number of periods, including periods without new revocations. A CA's statement for a period carries exactly the certificates revoked since its previous one, and monitors accept it only if it extends the earlier ones.",
    ["histories", "inputs", "configurations"],
    "for every sequence of revocations over consecutive periods and every statement that does not extend the chain",
    "Tests check that one update can be applied; they never compare the three revocation states over several periods.",
    ["CA/CRV.go", "CA/server.go", "monitor/monitor.go", "monitor/types.go", "client/client.go", "util/"],
    [("revocation vector and its statement", "CA/CRV.go"), ("chain check and accumulation in the monitor", "monitor/monitor.go"), ("accumulation in the client", "client/client.go")],
    "the CA's statements, the monitor's and the client's vectors"),
"C12": P("A client applies an update entirely or not at all",
    "A client changes its view of tree heads, revocations and misbehaviour only by updates in which every object is of the right kind for its section and verifies; any single bad object leaves the whole view untouched, and a good update adds everything it carries and removes nothing. This holds for every position and kind of corruption and for updates applied one after another or at the same time.",
    ["inputs", "histories", "schedules"],
    "for every update, every corruption of any of its objects, and every order of good and bad updates",
    "The client tests apply well-formed updates from fixtures only.",
    ["client/client.go", "definition/Verify.go", "monitor/client-update-monitor.go"],
    [("update verification and application", "client/client.go HandleUpdate")],
    "the client's databases and certificate verdicts"),
"C13": P("A client's certificate verdict is exactly justified",
    "A client accepts a certificate if and only if at least one logger information in it comes from a logger without a known proof of misbehaviour, carries a validly signed tree head that equals the endorsed one the client holds for that logger and period, and proves inclusion of this certificate (which trees identify by its subject) in it, and the issuer's revocation state is known and does not list the certificate. The verdict does not depend on the order of the logger informations, on the other entries in them, or on other certificates checked before or at the same time.",
    ["inputs", "histories", "schedules"],
    "for every certificate (any mix of good and bad logger informations, any revocation number) and every state of the client's databases",
    "The certificate test checks one good certificate.",
    ["client/client.go", "crypto/MerkleTree.go", "util/"],
    [("certificate verification", "client/client.go"), ("inclusion proofs", "crypto/MerkleTree.go")],
    "verdicts"),
"C14": P("Every admitted precertificate is provably in exactly one tree",
    "Every precertificate with a subject key identifier that a logger has admitted is included in exactly one of its signed trees, the next one it builds, and the issuing CA is sent an inclusion proof that verifies against that signed tree head. This holds for any number of precertificates from any number of CAs, also when they arrive while a tree is being built, and the trees contain nothing else.",
    ["schedules", "inputs", "histories"],
    "for every number of precertificates, submission schedule (in particular around the tree-building instant) and number of CAs and periods",
    "The Merkle tests build trees from fixed pools; no test submits while a tree is being built.",
    ["Logger/server.go", "Logger/buildmerkle.go", "crypto/MerkleTree.go", "crypto/certpool.go"],
    [("precertificate pool and periodic tree building", "Logger/server.go"), ("tree and proofs", "Logger/buildmerkle.go")],
    "tree heads and proofs sent to the CAs"),
"C15": P("A logger admits exactly the precertificates of its CAs",
    "A logger admits a posted precertificate if and only if it is well formed and signed by the key of one of the CAs it is configured with, under that CA's name; everything else is refused with an error, changes nothing and never appears in a tree. Once it has built a tree for the current period, it answers every query with that one validly signed tree head of the period.",
    ["inputs", "histories"],
    "for every body posted to the logger: foreign or missing signatures, unknown issuers, altered or truncated certificates, repeated submissions",
    "Tests only submit genuine precertificates.",
    ["Logger/server.go", "crypto/certpool.go"],
    [("admission of precertificates", "Logger/server.go"), ("answering queries", "Logger/server.go")],
    "answers, and the contents of the next tree"),
"C16": P("A CA attaches only verified logger information, once each",
    "A CA adds logger information to a certificate only if it consists of a tree head validly signed by that logger and an inclusion proof of this certificate (which trees identify by its subject) in it, at most once per logger, and every such proof that arrives after its tree head while the certificate is pending ends up in the certificate, whatever the order, repetition or concurrency of arrival. Anything else is refused and leaves the certificates and other loggers' information as they were.",
    ["inputs", "schedules", "histories"],
    "for every sequence and interleaving of tree heads and proofs from honest and misbehaving loggers",
    "Tests use one honest logger and sequential arrival.",
    ["CA/server.go", "CA/types.go", "crypto/certpool.go", "util/"],
    [("receiving tree heads and proofs", "CA/server.go"), ("certificate extension", "crypto/, CA/")],
    "the certificates the CA issues"),
"C17": P("A CA issues unique revocation numbers and submits to every logger",
    "Each precertificate a CA makes has a revocation number of its own over the CA's whole run, and is submitted to every logger the CA knows, well formed and signed by the CA, also if some loggers are down. The certificates it finally issues carry the revocation number and subject of their precertificate.",
    ["fault_sequences", "configurations", "histories"],
    "for every number of certificates and loggers, set of unreachable loggers, and number of periods",
    "Tests generate a fixed number of certificates once with all loggers up.",
    ["CA/server.go", "CA/CRV.go", "CA/types.go", "crypto/"],
    [("certificate generation and submission", "CA/server.go")],
    "requests to loggers and issued certificates"),
"C32": P("Certificates of honest CAs are accepted by every client until revoked",
    "A certificate that an honest CA issues with the tree heads and inclusion proofs of the loggers is accepted by every client that follows any live monitor, from the period in which these tree heads are endorsed on, as long as one of the loggers never misbehaved and the certificate is not revoked. Before that period it is rejected, and from the period whose revocation statement covers its revocation on it is rejected for good, whatever the client's restarts. It is also rejected by a client that holds a proof of misbehaviour against every logger of the certificate.",
    ["histories", "fault_sequences", "configurations"],
    "for every deployment with enough live members, lying or stopped loggers, crashed members, history of issuance and revocation, and monitor followed",
    "Tests exercise each component with files of another run; none follows a certificate from its issuer to the client.",
    ["CA/server.go", "CA/CRV.go", "Logger/server.go", "monitor/", "gossiper/", "client/client.go"],
    [("issuance", "CA/server.go"), ("trees and proofs", "Logger/server.go"), ("verification", "client/client.go")],
    "verdicts of clients on certificates"),
"C18": P("The compact exchange of revocation statements loses nothing",
    "A revocation statement that reaches one gossiper reaches every connected gossiper, whole and unaltered, by announcement and request, and is endorsed as if it had been sent directly, whatever the order of announcements, requests and statements, and despite repeated announcements and unreachable or lying peers, as long as fragments come after the statement. A gossiper asks only for what it does not hold, and answers requests only with the authentic statement it holds.",
    ["schedules", "inputs", "fault_sequences"],
    "for every interleaving of announcements, requests, deliveries and fragments, including lies about hashes, senders and entities, and statement sizes on either side of the size limit",
    "One test reconstructs one payload in a direct call.",
    ["gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go"],
    [("announcement and request handlers", "gossiper/gossiper_server.go"), ("payload storage and reconstruction", "gossiper/Interface.go, gossiper/gen.go")],
    "requests between gossipers"),
"C19": P("Malformed input never disables an entity",
    "Whatever bytes are posted to or asked from any endpoint of a gossiper, monitor, CA or logger, or handed to a client as an update or certificate, the handler returns, the process survives, and the honest work of that and the following period is done as if the input had not arrived.",
    ["inputs", "histories"],
    "for every request body (arbitrary bytes of up to a few MB, also decompressed, truncated or mutated valid objects, wrong types, missing fields) on every endpoint at any time",
    "Tests never send a malformed request.",
    ["gossiper/gossiper_server.go", "monitor/monitor-server.go", "CA/server.go", "Logger/server.go", "client/client.go", "definition/", "util/"],
    [("request handlers", "gossiper/gossiper_server.go, monitor/monitor-server.go, CA/server.go, Logger/server.go"), ("parsing of objects", "definition/, util/")],
    "answers, crashes, and the honest outcome"),
"C20": P("A gossiper is free of data races, crashes and deadlocks",
    "Under any concurrent mix of requests on all endpoints, together with its own periodic saving and clearing of storage, a gossiper has no data race, never crashes and never blocks for good, and no valid object it accepted outside the clearing instant is lost.",
    ["schedules", "inputs"],
    "for every interleaving of concurrent requests with the periodic tasks",
    "Tests do not run under the race detector nor with concurrent load at the clearing instant.",
    ["gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/types.go"],
    [("locks of the object storage", "gossiper/types.go, gossiper/Interface.go"), ("periodic tasks", "gossiper/gossiper_server.go PeriodicTasks")],
    "race reports, crashes, blocked goroutines"),
"C21": P("A monitor is free of data races, crashes and deadlocks",
    "Under any concurrent mix of gossip deliveries and update requests, together with its own queries, accusations and periodic update generation, a monitor has no data race, never crashes and never blocks for good, still publishes its updates on time, and every update it hands out is whole.",
    ["schedules", "inputs"],
    "for every interleaving of concurrent requests with the periodic tasks",
    "Tests do not run under the race detector nor with concurrent load at the update instant.",
    ["monitor/monitor-server.go", "monitor/monitor.go", "monitor/types.go", "monitor/client-update-monitor.go"],
    [("locks of the monitor storage", "monitor/types.go"), ("periodic tasks", "monitor/monitor-server.go")],
    "race reports, crashes, blocked goroutines, updates"),
"C22": P("CAs and loggers are free of data races, crashes and deadlocks",
    "Under any concurrent mix of queries, submitted precertificates, tree heads and proofs, together with their own periodic tasks, a CA and a logger have no data race, never crash and never block for good.",
    ["schedules", "inputs"],
    "for every interleaving of concurrent requests with the periodic tasks",
    "Tests do not run under the race detector nor with concurrent load while trees and statements are made.",
    ["CA/server.go", "CA/types.go", "CA/CRV.go", "Logger/server.go", "Logger/Types.go", "crypto/certpool.go"],
    [("locks of CA and logger storage", "CA/types.go, Logger/Types.go"), ("periodic tasks", "CA/server.go, Logger/server.go")],
    "race reports, crashes, blocked goroutines"),
"C23": P("A client is free of data races, crashes and deadlocks",
    "Under any concurrent mix of updates being applied, certificates being checked and databases being saved, a client has no data race, never crashes and never blocks for good, and each certificate verdict is one that the state before or after a concurrent update justifies.",
    ["schedules", "inputs"],
    "for every interleaving of updates, certificate checks and saving",
    "Tests use the client sequentially.",
    ["client/client.go", "client/types.go"],
    [("locks of the client databases", "client/types.go, client/client.go")],
    "race reports, crashes, blocked goroutines, verdicts"),
"C24": P("Generated configurations describe one consistent deployment",
    "The configurations generated for any numbers of gossipers, loggers and CAs and any threshold make one consistent deployment: every entity has an identity and address of its own, everybody knows every other's right keys and the same threshold and timing, each monitor and gossiper name each other, and entities started from them can exchange and verify signatures. Mapping the deployment to given addresses keeps this, with no two entities on one address.",
    ["configurations"],
    "for every number of gossipers (at least two), loggers and CAs below 1000, threshold of at least two, timing parameters and list of addresses",
    "Tests generate one size and never check the files against each other.",
    ["Gen/", "crypto/", "definition/"],
    [("generation of configurations", "Gen/"), ("address mapping", "Gen/IPmapping.go")],
    "the files written"),
"C25": P("What is written is what is read",
    "Signatures, signature fragments, threshold signatures, keys, crypto configurations, revocation vectors, inclusion proofs and the logger information in certificates are the same after being written and read back, and a signature made before verifies after, while any alteration of the written form that changes the value is rejected with an error, or is read as what it says and what was signed no longer verifies with it.",
    ["inputs"],
    "for every value of these types, and every alteration of their written forms",
    "Tests round-trip single values of some of the types.",
    ["crypto/", "util/", "CA/", "definition/"],
    [("encodings of signatures and keys", "crypto/"), ("certificate extension", "CA/, crypto/")],
    "decoded values"),
"C26": P("Everybody names the current period the same way",
    "At every instant, gossipers, monitors, CAs and loggers label the current period identically in everything they send, serve and publish, and consecutive periods get consecutive labels that wrap after an hour. An entity started at any instant begins its work within two seconds of a period boundary, the next one unless it is started at one, and does its periodic work exactly a period apart from then on.",
    ["schedules", "configurations"],
    "for every minute of the hour, second of start and number of periods",
    "Tests run at whatever minute they are started at.",
    ["util/", "CA/server.go", "Logger/server.go", "monitor/monitor-server.go", "gossiper/gossiper_server.go"],
    [("period label and waiting time", "util/"), ("start of each server", "CA/server.go, Logger/server.go, monitor/monitor-server.go, gossiper/gossiper_server.go")],
    "labels of statements and times of requests"),
"C27": P("A restarted client knows what it knew",
    "A client that is stopped after saving and started again holds exactly the tree heads, revocations and proofs of misbehaviour it held, gives the same verdict on every certificate, and can go on applying updates.",
    ["histories", "crash_points"],
    "for every state of the client reached by any sequence of updates",
    "One test loads fixture files.",
    ["client/client.go", "client/types.go"],
    [("saving and loading of the databases", "client/client.go")],
    "databases and verdicts after restart"),
"C28": P("Inclusion proofs are complete and sound",
    "For every non-empty list of certificates, the tree built from it gives each of them a proof that verifies against its root, and no certificate outside the list, altered proof, or proof for another position or tree verifies against that root unless it too leads from the certificate's subject to the root. The root depends on every certificate and its position and on nothing else, also when several trees are built at the same time.",
    ["inputs"],
    "for every number of leaves, including odd ones and one, and every alteration of certificate, proof or root",
    "Tests build trees of a few fixed sizes and verify the right proofs only.",
    ["crypto/MerkleTree.go", "Logger/buildmerkle.go"],
    [("tree construction and verification", "crypto/MerkleTree.go")],
    "roots, proofs and verdicts"),
"C29": P("The certificate pool keeps each certificate exactly once",
    "A certificate pool behaves as a set: each added certificate is found by its subject key identifier, is contained and counted once however often it is added, directly or from PEM, updating the one found by a key (keeping subject and key) replaces just that one, and listing returns exactly the certificates in it.",
    ["histories", "inputs"],
    "for every sequence of operations on the pool and every mix of certificates that share subject, issuer, serial number or key",
    "Tests add a few certificates in order.",
    ["crypto/certpool.go"],
    [("pool indices", "crypto/certpool.go")],
    "return values of the pool operations"),
"C30": P("Fetching yields exactly what was served, or an error",
    "What a client fetches from a monitor or web site (an update, a list of statements, the site's certificate) is exactly what that server delivered for that request, or an error: never part of it, never an error page taken for data, and never the answer to another request, however many run at the same time. Fetching leaves no connections behind, so the next fetch works like the first.",
    ["inputs", "schedules", "fault_sequences"],
    "for every answer a server can give, every point at which it can be cut off, and every mix of fetches at the same time",
    "Tests have no server that fails, redirects, compresses or stops in the middle of an answer.",
    ["client/client.go"],
    [("fetching of updates, statements and certificates", "client/client.go")],
    "fetched bytes, certificates and errors, open connections of the servers"),
"C31": P("A crash while saving loses nothing that was saved",
    "Whatever instant a client or monitor is killed at while it saves, and also when there is no room for what it saves, each of a client's databases afterwards holds entirely what it held before or entirely what was to be saved, and each period's update at a monitor is served whole, the earlier or the new one, or not at all if there was none. Started again, a client has forgotten nothing it had saved before, and client and monitor can go on with what comes next and save again.",
    ["crash_points", "histories"],
    "for every instant at which the process can be killed, every byte at which writing can end, and every history of updates and savings before",
    "Tests neither kill a process nor limit what it can write.",
    ["util/IO.go", "client/types.go", "monitor/types.go"],
    [("writing of files", "util/IO.go"), ("databases of the client", "client/types.go"), ("updates of the monitor", "monitor/types.go")],
    "what a client or monitor started after the crash holds and serves"),
}
