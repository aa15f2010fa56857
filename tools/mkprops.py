#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x, "meaning": x} for x in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = "vercre-issuer/src/"; V = "vercre-verifier/src/"; H = "vercre-holder/src/"
p("C01", "Codes, offer links, request links and sessions are honoured at most once",
  "A pre-authorized code, authorization code, offer link, issuer state, pushed-request link, deferred transaction, notification id or presentation request that has been honoured once is never honoured again, whatever the order, duplication or replica of the later attempts and whatever crashed in between. For a pre-authorized or authorization code even a refused token request spends it: the first token request that names it is the last one that can succeed. No access token, credential or accepted presentation is ever produced twice from one such artefact.",
  ["schedules", "histories", "crash_points", "fault_sequences"],
  "all interleavings, retries, duplicate deliveries and crashes over replicas sharing one state store",
  "Existing tests drive one happy-path redemption in one process; none replays a code, duplicates a request, or restarts a node between lookup, removal and answer.",
  [I+"token.rs", I+"credential_offer.rs", I+"authorize.rs", I+"par.rs", I+"deferred.rs", I+"notification.rs", V+"response.rs"],
  [("code lookup then purge", I+"token.rs: token"), ("offer lookup then purge", I+"credential_offer.rs: process"),
   ("issuer_state / request_uri purge", I+"authorize.rs: authorize, Context::process"), ("transaction purge", I+"deferred.rs: process"),
   ("presentation session purge", V+"response.rs: process")],
  ["StateStore entries keyed by code, uri token, request_uri, transaction id, presentation state"],
  ["answers of the token, offer, authorize, deferred, notification and presentation-response endpoints"])
p("C02", "Nothing works after its lifetime, and everything works until then",
  "A code (5 minutes), offer link (5 minutes), pushed request (advertised expires_in), access token (advertised expires_in, renewed by each credential request that gets a credential or a fresh nonce), key-proof nonce (advertised c_nonce_expires_in), deferred transaction (15 minutes) or presentation request (5 minutes) is refused once that lifetime has passed on the serving node's clock. Until it has passed the same artefact is honoured, however long requests were delayed and on whichever replica, and the lifetime advertised to the client is the one enforced. State is never stored for a shorter time than the artefact it backs.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "all delays, clock skews and jumps between issuing an artefact and using it",
  "Tests use artefacts milliseconds after creation on one clock and never let one age.",
  [I+"state.rs", I+"token.rs", I+"credential.rs", I+"authorize.rs", I+"par.rs", I+"deferred.rs", I+"credential_offer.rs", V+"response.rs", V+"request_object.rs", V+"state.rs"],
  [("expiry test", I+"state.rs: State::is_expired, Token::c_nonce_expired"), ("lifetimes", I+"state.rs: Expire"), ("pushed request expiry", I+"authorize.rs: authorize"), ("verifier expiry", V+"state.rs")],
  ["expires_at in stored state; expiry argument given to the state store"], ["endpoint answers against simulated clocks; expiry passed to StateStore::put"])
p("C03", "An access token is only given to whoever proves the grant",
  "A token request succeeds only with a live code of the matching grant type, and then only with the exact transaction code when the offer demanded one, or with the client id and redirect URI the authorization was made with and a code verifier whose S256 hash is the authorized challenge. An authorization code is only given for a registered client and redirect URI, an allowed grant and response type, pushed requests where the server requires them, an identified subject that is the one the offer named, and credentials and scopes the issuer supports. Only an access token (never a code, nonce, offer, transaction or notification id, nor a made-up string) opens the credential, deferred and registration endpoints, and it covers only the credentials it was granted for.",
  ["inputs", "histories", "schedules", "configurations"],
  "all requests an attacker can assemble from anything ever sent by anyone, over all client and server configurations",
  "Tests send only well-formed requests from one client; each check is exercised in its passing direction only.",
  [I+"token.rs", I+"authorize.rs", I+"par.rs", I+"credential.rs", I+"deferred.rs", I+"register.rs", "crates/core/src/pkce.rs"],
  [("tx_code, client, redirect and PKCE checks", I+"token.rs: Context::verify"), ("authorization checks", I+"authorize.rs: Context::verify"), ("challenge derivation", "crates/core/src/pkce.rs: code_challenge"), ("token scope", I+"credential.rs: Context::authorized")],
  None, ["answers of the authorize, par, token, credential, deferred and register endpoints"])
p("C04", "A credential says exactly what was authorized, for the right subject",
  "Every issued credential carries the claim values the subject data source holds for the subject and dataset that the access token was granted for, narrowed, at every level, to the claims the authorization was limited to and to those the credential request lists, where either lists any, and nothing else; requests for claims the configuration does not support, or that leave out mandatory ones, are refused at authorization. Its type, issuer, id, context, display names, status and issue time match the credential configuration and the moment of issue, and it is signed by the issuer's key. An mdoc credential carries every claim exactly once with distinct digest ids, each digest matching its item, under a signature by the issuer's key.",
  ["inputs", "histories", "schedules", "configurations"],
  "all datasets, claim subsets, configurations and interleavings of several subjects' sessions",
  "Tests check a snapshot of one credential of one subject; none narrows claims, mixes subjects, or recomputes digests and signatures independently.",
  [I+"credential.rs", I+"token.rs", I+"authorize.rs", "crates/w3c-vc/src/proof.rs", "crates/w3c-vc/src/proof/jose.rs", "crates/w3c-vc/src/model/vc.rs", "crates/iso-mdl/src/lib.rs", "crates/iso-mdl/src/mso.rs", "crates/openid/src/issuer.rs"],
  [("dataset lookup and narrowing", I+"credential.rs: Context::dataset"), ("credential construction", I+"credential.rs: Context::w3c_vc"), ("claim support and mandatory checks", "crates/openid/src/issuer.rs: CredentialConfiguration::verify_claims"), ("mdoc construction", "crates/iso-mdl/src/lib.rs: to_credential")],
  None, ["decoded credential in the credential and deferred endpoint answers"])
p("C05", "Every credential is bound to a key proven with a fresh nonce",
  "Where a configuration demands a key proof, a credential is issued only for proofs of the proof type, signed by the key they name and carrying the nonce most recently given out for that access token, and the credential names that key's DID as its subject. The nonce changes with every issued credential and every refused proof, so no proof ever yields two credentials (a request answered with a deferred transaction leaves it as it is, and its proof serves the credential it was given for), and a proof or nonce of one token never works for another. A refused proof yields the invalid-proof error with a new nonce that then works.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all proofs replayed, forged, mixed between sessions, delayed or duplicated",
  "Tests send one valid proof per run.",
  [I+"credential.rs", "crates/w3c-vc/src/proof/controller.rs"],
  [("proof verification", I+"credential.rs: Context::verify"), ("nonce rotation", I+"credential.rs: issue_response, invalid_proof")],
  ["c_nonce held with the access token"], ["credential endpoint answers; subject id of the issued credential"])
p("C06", "Deferred issuance delivers the requested credential once it is ready",
  "A credential request for data that is not ready returns a transaction id and no credential, and polling it answers issuance-pending with a retry interval and stays possible until the data is ready, for as long as the transaction lives. Once the data is ready the next poll with the access token that requested it returns the same credential the original request would have returned, exactly once. Unknown, spent or expired transaction ids, other tokens and other credentials get nothing.",
  ["histories", "schedules", "fault_sequences"],
  "all moments at which data becomes ready, polls arrive, are lost, duplicated or repeated",
  "One test polls once after the data is already available.",
  [I+"deferred.rs", I+"credential.rs", H+"issuance/deferred.rs"],
  [("transaction lookup, retry and removal", I+"deferred.rs: process"), ("deferral", I+"credential.rs: defer_response")],
  ["deferred transaction state"], ["credential and deferred endpoint answers"])
p("C07", "An honest wallet always gets its credential",
  "Whenever no fault hits it, every valid request of every issuance flow (offer by value or by reference, with or without transaction code, pushed or direct authorization, by configuration id, format or scope, single or multiple proofs, one or several credentials, wallet-library or hand-built client) is accepted. Once faults stop, a wallet that starts over completes issuance within a bounded number of steps regardless of what earlier crashes, lost messages or attacks left behind. What the endpoint answers (identifiers, redirect, state, granted details, metadata) is what the next step needs and matches the request.",
  ["schedules", "fault_sequences", "configurations", "histories"],
  "all flows, configurations and histories of faults before the calm",
  "Tests run a handful of flows once, on a pristine store, without any other session or fault.",
  [I+"create_offer.rs", I+"credential_offer.rs", I+"authorize.rs", I+"par.rs", I+"token.rs", I+"credential.rs", I+"notification.rs", I+"register.rs", I+"metadata.rs", I+"oauth_server.rs", H+"issuance/offer.rs", H+"issuance/accept.rs", H+"issuance/token.rs", H+"issuance/authorize.rs", H+"issuance/credentials.rs"],
  [("issuance endpoints", I+"lib.rs"), ("wallet issuance flow", H+"issuance.rs")], None, ["endpoint answers and wallet library results"])
p("C08", "A verifier accepts only presentations that really meet its request",
  "A presentation is accepted only if it answers a live request of that verifier, every presentation in it is unexpired, made for that verifier and signed by its holder over that request's nonce, the submission names the request's definition, and for every requested descriptor the mapped credential is present, is in a requested format, has a valid signature from its signing key, is not expired and meets every constraint. Replayed, altered, truncated, re-signed, mixed-session, expired or otherwise forged presentations are refused. A signed request object is only served for the verifier and session it was made for and carries exactly the stored request.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all presentations assembled from anything ever sent, in any order and with any corruption",
  "Tests submit one valid presentation.",
  [V+"response.rs", V+"request_object.rs", V+"create_request.rs", "crates/w3c-vc/src/proof.rs", "crates/w3c-vc/src/proof/jose.rs", "crates/dif-exch/src/matcher.rs"],
  [("presentation checks", V+"response.rs: verify"), ("JWT proof verification", "crates/w3c-vc/src/proof.rs: verify"), ("request object signing", V+"request_object.rs: process")],
  ["stored presentation request"], ["answers of the response and request-object endpoints"])
p("C09", "A wallet holding what a verifier asks for can always present it",
  "A valid presentation of credentials that meet the request, hand-built or made by the wallet library, same-device or cross-device, with one or (hand-built) several credentials and descriptors, is accepted when no fault hits it. Once faults stop, a fresh presentation exchange completes within a bounded number of steps whatever happened before. The wallet offers exactly those stored credentials that meet the request's constraints and discloses no other.",
  ["schedules", "fault_sequences", "inputs", "histories"],
  "all requests and credential sets that match, and all fault histories before the calm",
  "One wallet test presents one fixed credential to one fixed request.",
  [V+"create_request.rs", V+"request_object.rs", V+"response.rs", H+"presentation/request.rs", H+"presentation/authorize.rs", H+"presentation/present.rs", "crates/w3c-vc/src/model/vp.rs"],
  [("wallet presentation flow", H+"presentation.rs"), ("presentation building", H+"presentation/present.rs"), ("verifier checks", V+"response.rs")], None,
  ["verifier answers and wallet library results"])
p("C10", "Messages arrive meaning what was sent",
  "Every offer, authorization request, token request, credential request and response, deferred, notification, registration, metadata, error, request object and presentation response that a node sends, as JSON, query string, QR code or signed token, is decoded by the receiver to the same value, whatever characters, nesting or optional parts it contains. Query strings contain only URL-safe characters and keep parameters separate, so no value can inject or alter another parameter; one that gives a parameter twice is refused. A message altered in transit is decoded to what its bytes say or refused, never crashing the receiver.",
  ["inputs", "fault_sequences"],
  "all message values, including reserved URL characters, quotes, brackets, unicode and nested structures, and all corruptions in transit",
  "The urlencode tests pin three fixed strings; nothing decodes what was encoded except for one struct without special characters.",
  ["crates/core/src/urlencode.rs", "crates/core/src/urlencode/ser.rs", "crates/core/src/lib.rs", "crates/openid/src/issuer.rs", "crates/openid/src/verifier.rs", "crates/openid/src/oauth.rs", "crates/w3c-vc/src/model/vc.rs", "crates/w3c-vc/src/model/vp.rs"],
  [("query string encoding", "crates/core/src/urlencode/ser.rs"), ("query string decoding", "crates/core/src/urlencode.rs: from_str"), ("offer and request encodings", "crates/openid/src/issuer.rs: to_querystring, to_qrcode; crates/openid/src/verifier.rs")], None,
  ["decoded message at the receiving node compared with the sent one"])
p("C11", "Credential matching follows the presentation-exchange rules",
  "A credential satisfies a set of constraints exactly when every field does: the first of the field's paths that finds anything decides, its first match must meet the filter if there is one, and only an optional field may find nothing. A constant equals the value (or is an element of an array value), a pattern matches the string value, a date or date-time format parses. Wallet and verifier apply the same rule, so what the wallet selects for a request the verifier accepts and what it must not select the verifier refuses. The outcome depends only on the constraints and the credential, never on field order, unrelated claims or other sessions.",
  ["inputs", "histories", "configurations"],
  "all constraint sets and credentials exchanged between verifier and wallet",
  "Three matcher tests use one credential and three fixed constraints.",
  ["crates/dif-exch/src/matcher.rs", "crates/dif-exch/src/lib.rs", V+"response.rs", H+"presentation/request.rs"],
  [("constraint evaluation", "crates/dif-exch/src/matcher.rs: Constraints::satisfied"), ("field and filter evaluation", "crates/dif-exch/src/matcher.rs: Field::matched, FilterValue::matched")], None,
  ["verifier answers, wallet credential selection, and constraint evaluation on live credentials"])
p("C12", "No message or fault can crash a node or leave half a refusal behind",
  "No request, response, stored record, metadata or provider failure, however malformed, truncated or hostile, makes an endpoint, the wallet library or a decoder panic or hang; the outcome is an answer or an error. A refused request gives away nothing: beyond spending the one-time code it names or renewing a nonce, it creates, changes and removes no state of any session. A provider error during a request is reported as an error, never as success without its effect.",
  ["inputs", "fault_sequences", "crash_points"],
  "all request bytes and all provider failures at every call",
  "Tests never inject a provider error or a malformed message.",
  [I+"create_offer.rs", I+"credential.rs", I+"token.rs", I+"authorize.rs", V+"response.rs", H+"issuance/credentials.rs", H+"presentation/present.rs", "crates/dif-exch/src/matcher.rs", "crates/w3c-vc/src/model/vp.rs", "crates/openid/src/oauth.rs", "crates/iso-mdl/src/mso.rs"],
  [("endpoint error paths", I), ("decoders", "crates/")], ["all state-store entries"], ["panics, step counts and state-store operations of each call"])
p("C13", "Refusals are well-formed protocol errors that name the right cause",
  "Every error an endpoint returns converts to a JSON object and a query string holding the protocol error code and a human-readable description intact, whatever text caused it, with the retry interval for issuance-pending and the new nonce for invalid-proof. The code names the cause: invalid_grant for an unknown or spent code, wrong transaction code or wrong redirect URI at the token endpoint, invalid_client for an unknown or different client, access_denied for a bad code verifier or access token, unsupported types and scopes by their own codes, invalid_proof, issuance_pending and invalid_transaction_id, and server_error when a provider failed. No refusal discloses a secret of the server or of another session.",
  ["inputs", "fault_sequences", "histories"],
  "all refused requests and provider failures, with arbitrary text in the offending value",
  "Unit tests convert two fixed errors; the wallet cannot act on a refusal whose body fails to encode.",
  ["crates/openid/src/error.rs", I+"token.rs", I+"authorize.rs", I+"credential.rs", I+"deferred.rs", V+"response.rs"],
  [("error encoding", "crates/openid/src/error.rs"), ("error mapping", I)], None, ["encoded error bodies"])
p("C14", "The wallet keeps exactly what it was issued and never mixes sessions",
  "After a wallet flow reports success, the wallet's store holds exactly the credentials issued in that flow, each with the claims, types, issuer, subject, dates, display and signed form that the issuer sent, and a wallet that crashes and restarts resumes or abandons the flow without losing, duplicating or altering one. The wallet accepts only offers, tokens and credentials that belong to the flow in progress, asks for exactly what the user accepted, and rejects steps out of order. Concurrent flows in one wallet do not affect each other.",
  ["histories", "crash_points", "schedules", "fault_sequences"],
  "all interleavings of flows in one wallet, out-of-order steps, issuer failures and wallet restarts",
  "Wallet tests run one flow at a time to completion against an in-process issuer.",
  [H+"issuance.rs", H+"issuance/offer.rs", H+"issuance/accept.rs", H+"issuance/pin.rs", H+"issuance/token.rs", H+"issuance/credentials.rs", H+"issuance/deferred.rs", H+"issuance/save.rs", H+"issuance/cancel.rs", H+"credential.rs"],
  [("wallet issuance state machine", H+"issuance.rs"), ("credential conversion and saving", H+"issuance/credentials.rs, "+H+"issuance/save.rs")], ["wallet issuance state; credential store"],
  ["credential store contents; requests the wallet sends"])
p("C15", "Secrets are long, well spread and never repeat",
  "Codes, tokens, nonces, offer and request links, transaction and notification ids are at least 32 random symbols in URL-safe form, transaction codes are six digits, and PKCE verifiers are 43 to 128 unreserved characters. No two secrets handed out in any run are equal, across endpoints, replicas and restarts, and none is computed from another, from the clock or from the request that produced it. Every symbol of the alphabet can occur at every position.",
  ["histories", "schedules", "crash_points"],
  "all secrets generated over whole histories with several nodes and restarts",
  "Tests never look at more than one generated value.",
  ["crates/core/src/gen.rs", "crates/core/src/pkce.rs"],
  [("random strings", "crates/core/src/gen.rs: random_string"), ("PKCE verifier", "crates/core/src/pkce.rs: code_verifier")], None, ["all secrets in endpoint answers and requests"])
p("C16", "Requests built with the macros mean what their JSON says",
  "A request written with one of the request-building macros equals, field for field, the request obtained by deserializing the same JSON, for literals, variables, expressions and optional or nested parts. Sent to an endpoint, it is answered as the JSON request would be. Fields left out take the defaults of the JSON form.",
  ["programs", "inputs", "histories"],
  "all macro invocations over the accepted JSON forms and all run-time values they interpolate",
  "Macro tests compare a few fixed invocations and need crates that are not part of the reliable test set.",
  ["crates/macros/src/parse.rs", "crates/macros/src/create_offer.rs", "crates/macros/src/authorization.rs", "crates/macros/src/token.rs", "crates/macros/src/credential.rs"],
  [("macro parsing", "crates/macros/src/parse.rs"), ("macro expansion", "crates/macros/src/*.rs")], None, ["macro-built request against JSON-built request, and endpoint answers to it"])
p("C17", "A status list shows exactly the logged status of every credential",
  "The published status list for a purpose has the bit of an index set exactly when the log records a non-zero status of that purpose for it, message statuses occupy exactly their configured width, and an index outside the list is refused.",
  ["inputs"], "all status logs and list configurations",
  "One test encodes one list.",
  ["crates/status/src/bitstring.rs"], [("bitstring encoding", "crates/status/src/bitstring.rs: bitstring")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
