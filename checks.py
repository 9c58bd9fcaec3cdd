"""The registered checks: package of the harness, build mode, workers, and what the evidence must at least show."""

NET = "requests travel over an in-memory network in virtual time (testing/synctest) instead of TCP; handlers, contexts and timers are the real ones"
CRYPTO = "RSA PKCS#1 v1.5, SHA-256 and BLS are unforgeable; the oracles verify with crypto/rsa and the BLS library directly, not with the repository's code"
RACE = "the race detector and the scheduler saw only the interleavings that occurred"
HOSTILE = "online trace monitor over hostile message workloads"

CHECKS = {
    "C01": dict(pkg="gsp", technique=HOSTILE, rule="distinct (kind, arrival pattern, deployment, set of forgeries) where a real gossiper received forged objects around an authentic statement and its whole outgoing trace was judged",
                assumptions=[NET, CRYPTO]),
    "C02": dict(pkg="end", technique=HOSTILE, rule="distinct (place, kind, deployment, set of forgeries) where endorsed objects without enough distinct endorsement were given to a real gossiper, monitor or client", assumptions=[NET, CRYPTO]),
    "C03": dict(pkg="gsp", technique="trace monitor over fragment interleavings (exactly-once, no loss)", rule="distinct (kind, arrival pattern, deployment, number of endorsing peers) of fragment deliveries to a real gossiper", assumptions=[NET, CRYPTO]),
    "C04": dict(pkg="gsp", technique="trace monitor over concurrent contradictory deliveries", rule="distinct (kind, arrival pattern, deployment) of two contradictory statements given to a real gossiper", assumptions=[NET, CRYPTO]),
    "C05": dict(pkg="end", technique=HOSTILE, rule="distinct (place, kind, deployment, set of framings) where conflict proofs that prove nothing were given to a real gossiper, monitor or client", assumptions=[NET, CRYPTO]),
    "C06": dict(pkg="end", technique="trace monitor over multi-period histories after a conviction", rule="distinct (place and way of conviction, kind, deployment, number of following periods)", assumptions=[NET, CRYPTO]),
    "C07": dict(pkg="netsim", technique="whole-network runtime monitor under injected delays, crashes and misbehaviour", level="fault_enumeration",
                rule="distinct (size, threshold, misbehaving gossipers, delays, repetitions, waiting time, connectivity, faults) of networks of real gossipers and monitors whose updates were judged in every period", assumptions=[NET, CRYPTO,
                "delays of up to a second per message, answers within 4 s; crashed and misbehaving gossipers leave at least the threshold of honest ones, the misbehaving are fewer than the threshold and make no accusations under a monitor's key"]),
    "C08": dict(pkg="netsim", technique="whole-network runtime monitor under equivocating entities", level="fault_enumeration",
                rule="distinct (size, threshold, delays, who lies, when, how late, how many versions, connectivity) of networks with an equivocating entity", assumptions=[NET, CRYPTO, "both statements are passed on before the updates of the period are made"]),
    "C09": dict(pkg="netsim", technique="whole-network runtime monitor under failing entities", level="fault_enumeration",
                rule="distinct (size, threshold, delays, kind of failure, number of monitors served) of networks with failing entities", assumptions=[NET, CRYPTO, "monitors are honest; a good answer and its gossip arrive within the waiting time"]),
    "C10": dict(pkg="mon", technique="offline checker of the published updates against the recorded history of deliveries",
                rule="distinct (deployment, periods, kinds of events, number of deliveries) of histories given to a real monitor whose updates were compared with the history", assumptions=[NET, CRYPTO, "an object given in the very instant of the update may be in this update or, for proofs, in the next"]),
    "C11": dict(pkg="rev", technique="end-to-end comparison of revocation states over histories (conservation monitor)",
                rule="distinct (CAs, periods, batches, kinds of revocation events) of histories through a real CA, monitor and client, and distinct sequences of statements that break the chain", assumptions=[NET, CRYPTO, "the monitor follows the CA without missing a period"]),
    "C12": dict(pkg="cl", technique="state monitor of a real client under spoilt updates, sequential and concurrent",
                rule="distinct sequences of spoilt updates among good ones, one after another or at the same time", assumptions=[CRYPTO]),
    "C13": dict(pkg="cl", technique="verdict monitor: every verdict compared with an independent oracle",
                rule="distinct (deployment, kinds of logger information and whether they count) of certificates judged one by one, reordered and concurrently", assumptions=[CRYPTO, "a certificate is identified in a tree by its subject, as documented in the Merkle tree code"]),
    "C27": dict(pkg="cl", technique="state monitor of a real client across restarts",
                rule="distinct (deployment, sequence of updates, saves and restarts)", assumptions=[CRYPTO]),
    "C14": dict(pkg="ent", technique="conservation monitor over the recorded submissions, tree heads and proofs of a real logger",
                rule="distinct (CAs, periods, admitted of handed in, CAs down) of histories of precertificates given to a real logger at, around and between the instants of its trees", assumptions=[NET, CRYPTO, "CAs answer or refuse within five seconds; precertificates carry a subject key identifier"]),
    "C15": dict(pkg="ent", technique="input monitor: every admission compared with an independent oracle",
                rule="distinct (CAs configured of known, periods, kinds of bad precertificates) of histories given to a real logger", assumptions=[NET, CRYPTO, "the logger is an honest one (of type 0)"]),
    "C16": dict(pkg="ent", technique="state monitor of a real CA under good and bad tree heads and proofs",
                rule="distinct (loggers, certificates, periods, kinds of bad input) of deliveries to a real CA, one by one and at the same time", assumptions=[NET, CRYPTO, "tree heads come from loggers; a proof counts if the CA already holds the tree head it is for"]),
    "C17": dict(pkg="ent", technique="trace monitor over the submissions of a real CA with failing loggers", level="fault_enumeration",
                rule="distinct (loggers, certificates, availability of each logger in each period, delays)", assumptions=[NET, CRYPTO, "one run of the CA"]),
    "C18": dict(pkg="cmp", technique="trace monitor over announcements, requests and statements",
                rule="distinct (deployment, connectivity, dead and lying peers, sizes, order) of exchanges among real gossipers, or between one and scripted peers", assumptions=[NET, CRYPTO, "all gossipers use the same size limit; a statement arrives everywhere before the first fragment on it is made"]),
    "C19": dict(pkg="ent", technique="crash and outcome monitor under malformed requests, answers, updates and certificates",
                rule="distinct cases (entity, deployment, drawn barrage) where a real gossiper, monitor, CA, logger or client got malformed input, sequential or concurrent, and its honest work was judged", assumptions=[NET, CRYPTO,
                "inputs of at most a few MB, also when decompressed; malformed statements may be rightly signed by a misbehaving logger, CA or gossiper, whose own statements are not judged"]),
    "C20": dict(pkg="gsp", race=True, technique="race detector, crash and deadlock monitors under concurrent load",
                rule="distinct (deployment, unordered or judged, instants, number of requests) of bursts of concurrent requests to a real gossiper, at the instants at which it also signs, saves and clears", assumptions=[NET, RACE]),
    "C21": dict(pkg="mon", race=True, technique="race detector, crash and deadlock monitors under concurrent load",
                rule="distinct (deployment, unordered or judged, instants, number of requests) of bursts of concurrent deliveries and update requests to a real monitor, at the instants at which it also queries, unites revocations and publishes", assumptions=[NET, RACE]),
    "C22": dict(pkg="ent", race=True, technique="race detector, crash and deadlock monitors under concurrent load",
                rule="distinct (entity, unordered or judged, deployment, delays, number of requests) of bursts of concurrent precertificates, tree heads, proofs and queries to a real logger or CA, at the instants at which it also builds trees, makes statements, submits and clears", assumptions=[NET, RACE]),
    "C23": dict(pkg="cl", race=True, technique="race detector, crash and deadlock monitors, and linearizability of verdicts under concurrent use",
                rule="distinct (unordered or judged, number of updates, verdicts, verdicts turned by an update) of concurrent use of a real client: good and bad updates, certificate checks, saving", assumptions=[CRYPTO, RACE]),
    "C24": dict(pkg="conf", technique="offline checker over the generated files, and signatures exchanged among entities started from them",
                rule="distinct (gossipers, threshold, loggers, CAs, addresses from template or drawn, directory) of generated and mapped deployments", assumptions=[CRYPTO, "at least two gossipers, a threshold of at least two, at least one logger and CA, less than 1000 of each"]),
    "C25": dict(pkg="ser", technique="round-trip and alteration monitor: every value read compared with the value written, every altered one with an independent reading",
                rule="distinct cases (type of value, drawn values and alterations) of values written, read back and altered in between", assumptions=[CRYPTO, "identities are addresses; an alteration counts when it changes the value"]),
    "C28": dict(pkg="cry", race=True, technique="verdict monitor: every root, proof and verdict compared with an independent oracle, and the race detector while trees are built at the same time",
                rule="distinct numbers of leaves, groups of trees built at the same time, and trees built by a logger", assumptions=[CRYPTO, RACE, "a certificate is identified in a tree by its subject, as documented in the Merkle tree code; a list that repeats its last certificate has the root of the list without the repetition"]),
    "C29": dict(pkg="cry", technique="model-based state monitor: every operation on a real pool compared with a model of a set",
                rule="distinct (certificates, duplicates, updates, PEM inputs, operations) of histories of operations on a pool", assumptions=["one operation at a time, as the callers lock the pool", "an update keeps subject and key"]),
    "C26": dict(pkg="clock", technique="trace monitor of labels and instants over whole runs of real entities started at drawn instants",
                rule="distinct instants of start of real gossipers, a monitor, a CA and a logger, whose labels and periodic work were judged over some minutes or more than an hour", assumptions=[NET, CRYPTO, "clocks agree; messages take no time"]),
    "C30": dict(pkg="fetch", race=True, technique="input monitor: every fetch over real connections compared with what the server delivered, under injected faults", level="fault_enumeration",
                rule="distinct sequences of (kind of fetch, size, how the server answers or fails) of fetches over loopback connections, one after another and at the same time, with the servers' open connections counted at the end",
                assumptions=[RACE, "loopback connections, with a real clock"]),
    "C32": dict(pkg="netsim", technique="end-to-end monitor: certificates of real CAs are followed through real loggers, gossipers and monitors to real clients", level="fault_enumeration",
                rule="distinct (deployment, lying, stopping and crashed members, numbers issued before, certificates, instants of revocation, restarts of clients) of networks in which every member is the real code and clients judged certificates",
                assumptions=[NET, CRYPTO, "messages between CA and logger take less than 50 ms: a CA issues a second after the loggers made their trees"]),
    "C31": dict(pkg="cl", technique="crash-point injection: the saving process is killed at drawn bytes and instants, or runs out of room, and what is left is compared with the states before and after", level="fault_enumeration",
                rule="distinct (history, byte or instant of the kill or of the end of room, order of the databases, state left behind) of real clients and monitors started again after their saving was interrupted",
                assumptions=[CRYPTO, "the process dies, not the machine: what was handed to the file system stays"]),
}
