#!/usr/bin/env python3
"""Writes known-findings.json: what was repaired in /repo, and what is known and not repaired. Run by hand, never by a check."""
import json, os
FIXED = [
 ("C02", "d192b10", "an endorsement with fewer than the threshold of distinct known signers (repeated or unknown ones) verified"),
 ("C02", "8105f0b", "an unparsable threshold signature crashed the verifier, a fragment of one gossiper verified as another's"),
 ("C01", "03bdf82", "a statement about one entity signed by another was spread"),
 ("C05", "9e0ab27", "a conflict proof with the same statement twice, or with statements of another entity, convicted the accused"),
 ("C26", "110280c", "CAs and loggers labelled periods without padding and without wrapping after minute 59"),
 ("C01", "9c5a63c", "a statement of another period relabelled as the current one was accepted"),
 ("C03", "1b6941d", "invalid, repeated or differing fragments counted towards the threshold and spoilt the endorsement"),
 ("C03", "9a1b69f", "concurrent fragments made several endorsed objects, unverified ones reached the monitor"),
 ("C04", "5b8f650", "two contradictory statements arriving at the same instant were not detected"),
 ("C20", "55c34bd", "saving and clearing raced with the handlers (concurrent map access)"),
 ("C02", "70cc9fb", "a monitor stored whatever was posted to it without verification"),
 ("C08", "cb5b016", "a conflict proof of an earlier period did not reach an update"),
 ("C21", "10bf3e4", "clearing and update generation raced with the handlers"),
 ("C10", "0407f1f", "a period without an update was answered with status 200 and an empty update"),
 ("C09", "d1739b5", "answers to queries with a bad signature, another entity's or another period's statement counted as responses"),
 ("C10", "d84aa7f", "proofs that arrived after the update was made never reached one"),
 ("C11", "bbe126f", "revocations of a later period replaced the earlier ones at CA, monitor and client"),
 ("C27", "b7e06e0", "a restarted client had forgotten the proofs of misbehaviour"),
 ("C12", "492267f", "an update with a bad object was applied in part"),
 ("C12", "d94a804", "objects of the wrong kind in a section of an update were believed"),
 ("C13", "09a2b2d", "certificates of an issuer with unknown revocation state were accepted"),
 ("C28", "2754106", "a shared hash state made proofs and roots wrong"),
 ("C14", "40ad4ed", "a logger with no or one precertificate crashed or built no tree"),
 ("C14", "b5d04af", "precertificates of different CAs with the same subject collided"),
 ("C15", "62b1b82", "malformed and unsigned precertificates were admitted or crashed the logger"),
 ("C07", "a6747de", "a peer that was down took the sender down"),
 ("C14", "7a5c7ba", "precertificates admitted while a tree was built were in no tree"),
 ("C19", "17d1d4e", "malformed tree heads and proofs crashed the CA"),
 ("C16", "21da20b", "invalid proofs were attached, and concurrent ones lost"),
 ("C22", "a1c45f7", "the CA's storage was accessed without locks"),
 ("C17", "695d61e", "certificates could be signed only once"),
 ("C07", "723c376", "a fixed latency (minimum equal to maximum) crashed the sender"),
 ("C24", "951d13f", "address mapping gave two entities one address"),
 ("C04", "b9b0f64", "two spellings of one period label hid a contradiction"),
 ("C18", "f213530", "a whole revocation fragment lost its payload, so that small revocation statements were never endorsed"),
 ("C14", "93ec624", "precertificates with the key of an earlier one got no inclusion proof"),
 ("C19", "8656529", "a revocation vector with an absurd length crashed monitors and clients"),
 ("C18", "43656de", "a revocation statement sent in chunks was announced but could not be fetched nor endorsed by compact fragments"),
 ("C22", "2a4bc87", "the logger copied its whole context, unlocked, while requests were changing it"),
 ("C23", "0820ced", "the client saved its databases without holding their locks"),
 ("C24", "297d258", "configurations for another directory were not written"),
 ("C24", "61d3b04", "generated configurations ignored the MRD asked for"),
 ("C25", "e5b7ef9", "crypto configurations that are cut off or have values of the wrong type were read without an error"),
 ("C26", "101754f", "updates got negative period numbers after the hour"),
 ("C14", "7fa4fca", "the logger stored the precertificates of the next tree instead of the one it built"),
 ("C14", "8bcd69f", "a precertificate was in two trees, and the logger crashed, when sending the proofs took longer than a period"),
 ("C30", "480a5f4", "every certificate fetched left an open connection behind"),
 ("C17", "742e223", "a logger that never answers held up the signing and sending of the other certificates, and the CA's revocations"),
 ("C14", "742e223", "a CA that never answers kept the other CAs from getting their tree head and proofs"),
 ("C09", "59ec889", "an entity that accepts the query and never answers was never accused"),
 ("C07", "4c74aef", "a gossiper that already had the endorsed statement kept its own fragment from others that still needed it"),
 ("C31", "6aaf41c", "a crash or full disk while saving destroyed the databases and updates saved before"),
 ("C10", "0f4b3be", "an update request by a name that is no period was answered with any update, also another monitor's"),
]
KNOWN = []
here = os.path.dirname(os.path.abspath(__file__))
json.dump(dict(known=KNOWN, fixed=["fixed: property=%s %s %s" % x for x in FIXED]), open(os.path.join(here, "known-findings.json"), "w"), indent=1)
