#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    P.append(d)

p("C01", "A JWT proof is accepted only after its signature verified under the right key",
  "Whenever the proof checker (or the embedded-verification-method checker) accepts a JWT, a verification key was resolved for the token's key id and for the issuer the caller expects, a registered proof type for the token's algorithm accepted that key's type and JWK parameters, and the signature over exactly the supplied signing input was verified with that key by a verifier for that key's type. A token with no algorithm, an unregistered algorithm, no usable key or a key of another kind is rejected.",
  ["inputs", "configurations"], "for every token header, payload, signature, resolved verification method and registered descriptor/verifier set",
  "tests sample a handful of good tokens and a few tampered ones; the guarantee is over every token and every way the acceptance point can be reached",
  ["proof/checker/checker.go"],
  [("acceptance gate", "proof/checker/checker.go CheckJWTProof"), ("embedded VM gate", "proof/checker/checker.go EmbeddedVMProofChecker.CheckJWTProof"), ("key/alg matching", "proof/checker/checker.go convertToPublicKey")])
p("C02", "A CWT proof is accepted only after its signature verified under the right key",
  "Whenever the proof checker accepts a CWT, the key was either resolved from the message's key id for the issuer the caller expects or taken from an explicit COSE key with no issuer expected, a registered proof type for the message's non-zero algorithm accepted that key, and the signature over exactly the supplied signing input was verified with that key. A CWT with neither key id nor COSE key, or without an algorithm, is rejected.",
  ["inputs", "configurations"], "for every COSE message, expected issuer, verification method and descriptor set",
  "the suite checks a few fixed CWTs; the gate must hold for every header combination",
  ["proof/checker/checker.go"], [("CWT gate", "proof/checker/checker.go CheckCWTProof")])
p("C03", "An LD proof is accepted only after its signature verified under the right key",
  "Whenever the proof checker accepts a linked-data proof, the verification method named by the proof was resolved for the issuer the caller expects, a registered proof type for the proof's type accepted that key, and the signature over exactly the supplied canonical document was verified with that key. A proof of an unregistered type is rejected.",
  ["inputs", "configurations"], "for every proof, document, expected issuer and descriptor set",
  "the suite checks fixed proofs only", ["proof/checker/checker.go"], [("LD gate", "proof/checker/checker.go CheckLDProof")])
p("C04", "Signature verifiers succeed only when the cryptographic primitive accepted",
  "Every signature verifier reports success only if the underlying cryptographic verification of the given signature, message and key succeeded. A verifier that declares the key types it serves rejects a key of any other type first, and no verifier lets a malformed key or signature length reach an operation that would panic on it.",
  ["inputs"], "for every key, message and signature byte string",
  "random malformed signatures and keys are unbounded; tests use a few",
  ["crypto-ext/verifiers/ed25519/verifier.go", "crypto-ext/verifiers/ecdsa/verifier.go", "crypto-ext/verifiers/rsa/verifier.go", "crypto-ext/verifiers/bbs/verifier.go"],
  [("Verify methods", "crypto-ext/verifiers")])
p("C05", "Algorithm, key-type and suite tables agree with each other",
  "For every registered proof type, its algorithm name, COSE algorithm number, key type and JWK key-type/curve parameters denote one and the same algorithm in every table that mentions them, creators and checkers alike. The default checker registers a signature verifier for every key type its registered proof types need, and never a verifier or proof type under another type's slot.",
  ["configurations"], "for every entry of every algorithm/key-type table in the library",
  "tests exercise some algorithms; a mismatch in a rarely used entry goes unnoticed",
  ["proof/jwtproofs", "proof/ldproofs", "proof/defaults/all.go", "verifiable/common.go"],
  [("descriptors", "proof/jwtproofs/*/descriptor.go, proof/ldproofs/*/descriptor.go"), ("default registry", "proof/defaults")])
p("C06", "Verification methods resolve only from the expected controller's DID document",
  "When the DID-based resolver returns a verification method for an expected key controller, the DID that was resolved is that controller, the returned method's identifier equals the requested one, and the method is not listed for key agreement. In every other case it returns an error, never some other key.",
  ["inputs"], "for every verification-method id, expected controller and DID document",
  "DID documents are attacker controlled and unbounded", ["vermethod/vdrkeyresolver.go"], [("resolver", "vermethod/vdrkeyresolver.go")])
p("C07", "Checked JWTs have validated headers, an issuer and a verified proof",
  "Parsing a JWT with proof checking succeeds only if its header names an algorithm, declares no unacceptable type and is not a nested JWT, the payload decodes as JSON claims, the issuer is present when one is needed to bind the key, and the proof checker accepted this very token's headers, payload and signature. With no proof checker supplied, the checked entry points never report success.",
  ["inputs", "configurations"], "for every compact or detached JWS and every option set",
  "only sampled tokens are tested", ["jwt/jwt.go", "jwt/jose_wrappers.go"], [("parse gate", "jwt/jwt.go"), ("jose wrapper", "jwt/jose_wrappers.go")])
p("C08", "Checked CWTs are rejected unless the COSE proof verified",
  "Parsing a CWT with proof checking succeeds only if the message decodes as COSE Sign1 and the proof checker accepted its protected headers, the signing input built from that same message and its signature, under the issuer bound to the message. No error of the decoder, of the signing-input builder or of the checker is dropped.",
  ["inputs"], "for every CBOR byte string", "only sampled messages are tested", ["cwt/cwt.go", "cwt/wrappers.go"], [("parse gate", "cwt")])
p("C09", "A parsed credential carries a verified proof bound to its issuer",
  "Unless the caller explicitly disabled proof checking, a credential is returned by parsing only if it names an issuer and its proof (JWT, CWT or embedded) was checked successfully with that issuer as the expected signer. A credential with no proof, an empty proof list, or a missing proof checker is rejected.",
  ["inputs", "configurations"], "for every credential byte string in every envelope and every option set",
  "tests cover chosen credentials; the guarantee is over every input and path to acceptance",
  ["verifiable/credential.go", "verifiable/embedded_proof.go", "verifiable/credential_parser.go"],
  [("checkProof", "verifiable/credential.go"), ("embedded proof dispatch", "verifiable/embedded_proof.go")])
p("C10", "A parsed presentation and its encoded credentials carry verified proofs",
  "Unless proof checking was explicitly disabled, a presentation is returned by parsing only if its proof (JWT, CWT or embedded) was checked successfully; a presentation with no proof is accepted only if a proof is not required. Encoded (string-form) credentials inside it are parsed under the same proof checker and the same choice of proof checking, and a single unacceptable credential makes the whole parse fail.",
  ["inputs", "configurations"], "for every presentation byte string and option set",
  "tests cover chosen presentations", ["verifiable/presentation.go", "verifiable/presentation_parser.go", "verifiable/presentation_jws.go"], [("parse and proof check", "verifiable/presentation_parser.go")])
p("C11", "Every embedded linked-data proof is verified, and there is at least one",
  "A document with embedded linked-data proofs is accepted only if it has at least one proof and every proof in it was individually checked over the canonical document plus that proof's own options with the expected issuer. No proof is skipped because of its position, its type or its neighbours, and a document whose proof list is empty is rejected.",
  ["inputs"], "for every document and number of proofs", "tests have one or two proofs",
  ["verifiable/lddocument/verifier.go", "verifiable/embedded_proof.go", "proof/checker/checker.go"], [("verification loop", "verifiable/lddocument/verifier.go, verifiable/embedded_proof.go")])
p("C12", "A data-integrity proof is accepted only if all its constraints hold",
  "Data-integrity verification succeeds only if at least one proof is present and each proof has a verification method, purpose and supported type and cryptosuite, was created (when the suite needs a date) at a parsable time, is not expired, has the expected purpose, resolves to a method authorised for that purpose, verifies cryptographically, and matches the expected domain and challenge whenever the caller gave them. The outcome for one proof never depends on the contents of another proof of the same document.",
  ["inputs", "configurations"], "for every secured document, number of proofs, and verifier options",
  "the suite has at most a few single-proof documents", ["dataintegrity/verifier.go"], [("verifier", "dataintegrity/verifier.go")])
p("C13", "Data-integrity suites bind document, options, suite and key to the signature",
  "Each cryptosuite accepts a proof only if the signature verifier accepted, with the key of the resolved verification method, the hash of both the canonical document and the canonical proof options; it rejects proof or suite types other than its own and keys it does not support. The options hashed at verification are the proof's own suite, method, purpose, dates, challenge and domain (or those the caller pinned), and creation emits exactly the option members that it hashed.",
  ["inputs"], "for every document and proof options", "tests sample documents", ["dataintegrity/suite/ecdsa2019/ecdsa2019.go", "dataintegrity/suite/eddsa2022/eddsa2022.go"], [("suites", "dataintegrity/suite/*")])
p("C14", "Data-integrity signing emits only complete, usable proofs",
  "Adding a data-integrity proof succeeds only for a supported suite, and only if the produced proof has a type, a purpose and a verification method, carries the requested domain and challenge, and a creation date when the suite requires one. Otherwise an error is returned and no document.",
  ["inputs", "configurations"], "for every document, option set and suite", "tests cover chosen options", ["dataintegrity/signer.go"], [("signer", "dataintegrity/signer.go")])
p("C15", "SD-JWT issuer tokens are accepted only if signed, allowed and timely",
  "SD-JWT verification succeeds only if the issuer-signed token was parsed under the configured signature verifier, its algorithm is on the allow-list and is not 'none', its not-before, issued-at and expiry were validated with the configured leeway, its type header matches the expected one if given, and no disclosure is repeated. The holder's parser checks the token's signature likewise and enforces the algorithm, time and type conditions when asked for version 5 validation.",
  ["inputs", "configurations"], "for every combined presentation and option set", "tests sample tokens", ["sdjwt/verifier/verifier.go", "sdjwt/common/verification.go", "sdjwt/holder/holder.go"], [("verifier", "sdjwt/verifier/verifier.go Parse"), ("holder", "sdjwt/holder/holder.go Parse"), ("claim checks", "sdjwt/common/verification.go")])
p("C16", "Every accepted SD-JWT disclosure is bound to a digest in the signed token",
  "Wherever disclosures are accepted, each disclosure's digest, under the token's declared and supported hash algorithm, is present exactly once in the signed payload or in another accepted disclosure. A malformed disclosure, an unknown or repeated digest, a claim name that would overwrite an existing claim, or an unsupported hash algorithm makes processing fail.",
  ["inputs"], "for every payload and list of disclosures", "the space of nested payloads is unbounded", ["sdjwt/common/verification.go", "sdjwt/common/common.go", "verifiable/credential_parser.go"], [("disclosure checks", "sdjwt/common/verification.go VerifyDisclosuresInSDJWT, getDisclosureClaims, discloseClaimValue"), ("users", "sdjwt/verifier, sdjwt/holder, verifiable")])
p("C17", "SD-JWT holder (key) binding is enforced",
  "When holder verification is required, a presentation without a holder binding is rejected; whenever a binding is present it is accepted only if the issuer-signed token names a confirmation key, the binding's signature verified under that key with an allowed algorithm other than 'none', its issuance time is valid, and its nonce and audience equal the expected ones.",
  ["inputs", "configurations"], "for every combined presentation and expected nonce/audience", "tests sample bindings", ["sdjwt/verifier/verifier.go", "sdjwt/verifier/holderbidning.go", "sdjwt/verifier/keybidning.go"], [("holder verification", "sdjwt/verifier")])
p("C18", "SD-JWT issuance hides claims behind fresh random salts",
  "Every disclosure an issuer creates carries its own salt, at least 128 bits drawn from the cryptographic random source unless the caller supplied a salt function, every selectively disclosable claim enters the signed payload only as a digest of its disclosure under the declared hash algorithm, and decoy digests never appear as disclosures. An error while creating any disclosure or digest aborts issuance.",
  ["inputs", "configurations"], "for every claim set and option set", "salt quality and leakage cannot be sampled", ["sdjwt/issuer"], [("issuer", "sdjwt/issuer")])
p("C19", "Holders and verifiers reveal only the disclosures selected",
  "A holder presentation contains exactly the disclosures selected, each of which must be among the credential's own, else an error results; marshalling a credential with selected claims emits only disclosures for the claims named (as required or optional), and fails if a required one is unavailable or options conflict.",
  ["inputs", "configurations"], "for every credential and selection", "tests sample selections", ["sdjwt/holder/holder.go", "verifiable/credential_sdjwt.go"], [("selection", "sdjwt/holder, verifiable/credential_sdjwt.go")])
p("C20", "A credential passes the status check only if every status entry is unset",
  "The status check reports a credential as good only if, for every status entry it carries, the entry is well formed for its type, the status list was resolved from the entry's own list reference, the list's issuer equals the credential's issuer, the bit at the entry's own index was decoded from that list within bounds, and the bit is clear. Any failure along the way is an error, never a pass.",
  ["inputs", "fault_sequences"], "for every credential, status list and resolver failure", "tests sample lists and failures", ["status/status.go", "status/validator", "status/internal"], [("status check", "status/status.go"), ("entry and list validation", "status/validator/statuslist2021, status/validator/bitstringstatus"), ("bit access", "status/internal/bitstring/bitstring.go"), ("list resolution", "status/resolver/resolver.go, status/internal/identityhub")])
p("C21", "Remote documents are used only from successful, always released responses",
  "Whenever the library fetches a document over HTTP (status lists, DID configurations, related resources), a transport error, a status other than success or a read error yields an error, and the response body is closed on every path on which a response was received.",
  ["fault_sequences"], "for every server behaviour", "fault sequences are not enumerated by tests", ["status/resolver", "didconfig/client/didconfig.go", "verifiable/related_resource.go"], [("fetchers", "status/resolver/resolver.go, didconfig/client/didconfig.go, verifiable/related_resource.go")])
p("C22", "Domain linkage needs a verified credential for that DID and origin",
  "DID-configuration verification succeeds only if some linked credential has an issuer and subject equal to the expected DID, the domain-linkage type, no identifier, both an issuance and an expiration date, an origin whose scheme, host and port equal the expected origin's, only permitted JWT header and payload members when it is a JWT, and a proof that verified. In every other case an error is returned.",
  ["inputs"], "for every configuration document, DID and domain", "tests sample configurations", ["didconfig/verifier/didconfig.go", "didconfig/client/didconfig.go"], [("verifier", "didconfig/verifier/didconfig.go"), ("client", "didconfig/client/didconfig.go")])
p("C23", "A submission matches only credentials that satisfy their descriptors",
  "Matching a presentation against a definition returns credentials only if every mapping of the submission refers to a descriptor of the definition, the mapped credential was parsed under the caller's options, it satisfies the descriptor's schema and its constraints, and every descriptor the definition requires is covered. Otherwise an error is returned; a failure while evaluating is never reported as an empty match.",
  ["inputs"], "for every presentation, submission and definition", "tests sample submissions", ["presexch/api.go", "presexch/definition.go"], [("Match", "presexch/api.go")])
p("C24", "A presentation is created only from credentials that satisfy the definition",
  "Creating a presentation from a definition succeeds only if the definition itself passed validation; every credential selected for a descriptor satisfies its format, schema and constraint filters, and a descriptor that requires limited disclosure never yields a credential that cannot be limited: only the disclosures of the requested claims are kept, and a claim wanted only as a predicate is replaced by true. The submission lists one mapping per selected credential, each with its descriptor's id and the position of that credential.",
  ["inputs"], "for every definition and credential set", "tests sample definitions", ["presexch/definition.go"], [("CreateVP", "presexch/definition.go")])
p("C25", "Untrusted documents never crash the library",
  "No byte string or JSON/CBOR/JWT document handed to a parsing or verifying entry point makes the library panic: every type assertion, index, map write and pointer use on data taken from such a document is guarded on every path. Malformed input yields an error.",
  ["inputs"], "for every untrusted document", "panicking inputs are unusual shapes tests do not sample", ["verifiable", "jwt", "cwt", "sdjwt", "status", "didconfig", "presexch", "dataintegrity"],
  [("parsers", "verifiable/*.go, sdjwt/common, status/*, didconfig/verifier, presexch")])
p("C26", "A detected failure is never reported as success",
  "Whenever an operation the library performs internally fails and the library notices, the public call that needed it fails too: no function returns a nil error after an error was observed, none returns a different variable that is known to be nil, and no error result is discarded. Trying a documented alternative after a failure, and leaving a credential that cannot be evaluated out of a selection, are not successes of the operation that failed.",
  ["inputs", "fault_sequences"], "for every function of the library and every failing callee", "failure paths are mostly untested", ["."], [("error returns", "all non-test packages")])
p("C27", "Shared state is safe under concurrent use",
  "Package-level variables are never modified after initialisation except through types that are themselves safe for concurrent use or under a lock, and fields that a type guards with a mutex are accessed only while it is held, with every lock released on every path. Goroutines the library starts do not write to variables shared with each other without synchronisation.",
  ["schedules"], "for every interleaving of calls from several goroutines", "race tests see a few schedules", ["legacy/mem", "sdjwt/issuer", "verifiable", "util"], [("locks and globals", "legacy/mem/mem.go, sdjwt/issuer, verifiable/schema.go")])
p("C28", "Operations do not modify the documents, credentials and options they are given",
  "Verifying, marshalling, presenting and matching leave the caller's credentials, presentations, claim maps and option structures unchanged; copies returned by the with-modified operations share no mutated state with the original. Only operations whose purpose is to modify what they are called on (setters, adding or removing a proof, decoding into, storing) change it, and only in that respect.",
  ["inputs", "histories"], "for every sequence of calls on one object", "tests rarely re-use an object after an operation", ["verifiable/credential.go", "sdjwt/issuer", "dataintegrity", "presexch"], [("copies", "verifiable/credential.go, sdjwt/common/utils.go, presexch/definition.go")])
p("C29", "Credentials and presentations are validated against their data model",
  "Unless credential validation is disabled by the caller, a JSON or CBOR credential is returned only if it passed the data-model schema for its base context and, unless JSON-LD checks are disabled, JSON-LD validation; a presentation is likewise validated. A document whose base context is neither of the supported versions is rejected when it is validated.",
  ["inputs", "configurations"], "for every document and option set", "tests sample documents and modes", ["verifiable/credential.go", "verifiable/presentation.go"], [("validation", "verifiable/credential.go validateCredential, verifiable/presentation.go validateVP")])
p("C30", "No modelled member is lost between parsing and serialising",
  "Every member of the credential and presentation data model that parsing recognises is emitted again by serialisation under the same name, and every member serialisation emits is recognised by parsing; members that are not modelled are carried through as custom fields. A non-empty field is always emitted, the JSON objects serialisation makes hold only the types parsing accepts, and the operations that give back a credential with another value change its contents and its document alike.",
  ["inputs"], "for every document", "tests compare a few documents", ["verifiable/credential.go", "verifiable/presentation.go", "verifiable/common.go"], [("member tables", "verifiable/credential.go parseCredentialContents/serializeCredentialContents")])
p("C31", "JWT and CWT claims and credential members are mapped consistently both ways",
  "Registered claims derived from a credential (issuer, identifier, subject, not-before/issued-at, expiry) come from the corresponding members, and when decoding, each registered claim refines that same member and no other. A minimised credential drops only the identifier, the issuer's identifier and the validity dates (the date members of either data-model version), which the claims carry; otherwise the credential or presentation inside the claims is the one given, unchanged. A presentation's issuer, identifier and audience claims are its holder, its identifier and the audience asked for, and refine holder and identifier when decoded.",
  ["inputs"], "for every credential", "tests sample credentials", ["verifiable/credential_jwt.go", "verifiable/credential_cwt.go", "verifiable/presentation_jwt.go"], [("claims mapping", "verifiable/credential_jwt.go")])
p("C32", "Related resources are accepted only with a matching digest",
  "Unless the related-resource check is disabled, a credential that declares related resources is returned by parsing only if every declared resource was fetched successfully and its content's digest, under the declared algorithm, equals the declared one. An unsupported algorithm or a malformed digest is an error.",
  ["inputs", "fault_sequences"], "for every credential and server response", "tests sample resources", ["verifiable/related_resource.go", "verifiable/credential.go"], [("related resources", "verifiable/related_resource.go RelatedResourceValidator")])
p("C33", "Results do not depend on map iteration order",
  "Calling an operation twice with the same arguments gives the same result: no value returned, error decided or byte written depends on the order in which a map happens to be iterated. Free to vary are which of several errors is reported, the order of disclosures that are freshly salted on issuing, and the order of query results the legacy storage interface leaves open.",
  ["schedules", "histories"], "for every iteration order of every map", "an iteration order a test happens to see proves nothing about the others", ["."], [("map iteration", "all non-test packages")])
p("C34", "Created JWT, COSE and linked-data envelopes sign exactly what they carry",
  "Whatever the library signs is what it emits: a JWT, COSE message or linked-data proof it creates is made from the claims or document of the object at hand, with the key identifier, algorithm, challenge, domain, purpose and other parameters the caller asked for inside the signed part; it is signed by the caller's signer registered for exactly the requested algorithm or proof type, the signature is made over exactly the bytes that are emitted, and the object returned holds that very envelope and no other.",
  ["inputs"], "for every credential, presentation and choice of parameters", "tests create envelopes from a few fixtures with a few parameter combinations, and verify them with the same library", ["verifiable", "jwt", "proof/creator"], [("Sign", "verifiable/lddocument/signer.go"), ("CreateSignedJWTVC", "verifiable/credential.go"), ("NewJoseSigned", "jwt/jwt.go"), ("SignJWT", "proof/creator/creator.go")])
p("C35", "Every option and parameter a caller passes takes effect",
  "Whatever list of options a caller gives an operation, each option in it is applied, in every position and number, and operations carried out on its behalf that take the same options are given them too; an option sets in the options exactly what it was given (two values of one option are not mixed up), nothing an option has set is replaced by a default afterwards, what an option sets is looked at by the operations that accept it, and exported operations ignore none of their parameters.",
  ["inputs"], "for every list of options", "tests pass one or two options at a time, and rarely to nested operations; a setting that is silently dropped (a document loader, a proof checker, a challenge, strict validation) leaves most results as they were", ["."], [("options", "verifiable/credential.go"), ("options", "verifiable/presentation.go"), ("options", "sdjwt/verifier/verifier.go"), ("options", "presexch/definition.go"), ("options", "jwt/jwt.go")])
p("C36", "What is handed on member by member arrives complete and in its place",
  "Where the library hands data on by copying it member by member into another structure (a proof from a signing context, verifier options from parsing options, a requirement from a submission requirement, a matched requirement from a requirement), every member the two structures share is carried over, each to its own place; values are given as the parameter or member they are named after and not as another one of the same type; accessors read and set the member they are named after.",
  ["inputs"], "for every value of every member", "a member that is lost, or swapped with another of its type, matters only for inputs that use it (a nonce, an upper bound, a disabled check), which tests rarely do", ["."], [("signing context to proof", "verifiable/lddocument/signer.go"), ("getEmbeddedProofCheckOpts", "verifiable/credential.go"), ("toRequirement", "presexch/definition.go"), ("CreateProof", "dataintegrity/suite/ecdsa2019/ecdsa2019.go")])
p("C37", "Presentation parsing enforces the holder and required-credential checks",
  "When the caller asks for the holder check, a presentation that carries proofs and whose credentials are about one subject is accepted only if, for every proof of every credential in it that is made with the DID of any of the presentation's own proofs, the presentation names a holder and that holder is the issuer of that credential; when the caller requires credentials, a presentation without any is rejected.",
  ["inputs"], "for every number and order of proofs, credentials and subjects", "the tests check a single proof and credential; skipping one of several proofs or credentials, or leaving the loop early, goes unnoticed", ["verifiable"], [("ParsePresentation", "verifiable/presentation.go"), ("WithPresHolderCheck", "verifiable/presentation.go")])
p("C38", "Remote content is fetched, checked, released and cached only as configured",
  "The library reaches the network only through the HTTP client it was configured with; what a server returned is used only if the expected status came and the body was read without error, and the body is closed on every path; the schema cache returns an element only if it was found and has not expired, and content is stored only under the address it was fetched from; nothing in the library opens files or sockets, starts processes, reads the environment or uses package-level HTTP helpers.",
  ["inputs", "fault_sequences"], "for every response, status, read failure and cache state", "tests use a well-behaved server and a fresh cache; a leak, an ignored status or a hit after expiry needs a fault or time to show", ["."], [("DID configuration", "didconfig/client/didconfig.go"), ("status lists", "status/resolver/resolver.go"), ("schemas and their cache", "verifiable/credential.go"), ("related resources", "verifiable/related_resource.go")])
p("C39", "The in-memory store holds and returns exactly what was stored",
  "After a successful Put the value and its tags are what Get, GetBulk and GetTags return for that key, until it is overwritten or deleted; each operation of a successful Batch is carried out, in order; an operation that fails changes nothing; empty keys, nil values and tags containing the query separator are refused; opening a store by the same name gives the same store; a query selects by every one of its criteria.",
  ["inputs", "histories"], "for every history of operations with any keys, values and tags", "tests use a few operations with distinct keys and tag names; mixed batches, failures in the middle and criteria sharing a tag name are not among them", ["legacy"], [("in-memory store", "legacy/mem/mem.go")])
p("C40", "Serialising and re-parsing any credential yields an equal credential",
  "For every credential the library can represent, parsing its serialisation returns a value equal to the original in every member.",
  ["inputs"], "for every credential value", "the value space is unbounded", ["verifiable"], [("round trip", "verifiable/credential.go")])
p("C41", "Submission-requirement combinations are enumerated exactly once",
  "The combination enumerator used for submission requirements yields every k-subset in the range exactly once, for every list length.",
  ["inputs"], "for every length and range", "the tests check lengths up to 15", ["presexch/internal/requirementlogic"], [("combinatorics", "presexch/internal/requirementlogic/combinatorics.go")])
p("C42", "Canonicalisation preserves the meaning of a document and nothing else",
  "Two documents canonicalise to the same bytes exactly when they have the same RDF dataset, so a signature over the canonical form covers every statement of the document.",
  ["inputs"], "for every JSON-LD document", "documents are unbounded", ["dataintegrity", "verifiable"], [("canonicalisation", "did-go ld/processor (dependency)")])
p("C43", "Every element of a list counts",
  "Wherever the library converts, collects or serialises the elements of a list or object (credentials, proofs, contexts, subjects, statuses, evidence, disclosures, claims, descriptors), all of them are gone through, from the first to the last: the result is never silently made from only some because the loop was left early, started late, or a part of the list was cut off.",
  ["inputs"], "for every list, of any length and content", "tests use lists of one or two ordinary elements; dropping the third, or what follows an unusual one, goes unnoticed", ["."], [("presentations", "verifiable/presentation.go"), ("credentials", "verifiable/credential.go"), ("presentation exchange", "presexch/definition.go"), ("SD-JWT", "sdjwt/common/common.go"), ("SD-JWT issuing", "sdjwt/issuer/issuer.go")])
p("C44", "Identifiers are compared whole and exactly",
  "The library takes two identifiers (DIDs, key and credential IDs, issuers, holders, audiences, nonces, URLs, types, contexts, purposes, paths, names of claims and fields) for the same only if their whole texts are equal: not if they differ in case, or one is a prefix, suffix or part of the other, or a trimmed, cut or split part of one equals the other, but for the conventions in which that is meant (names of algorithms, digests and media types, identity hub names, store names, the parts of an origin, the DID in a verification method's ID).",
  ["inputs"], "for every pair of values", "tests compare values that are equal or entirely different; a value that shares a prefix, a part or all but the case with the expected one is not among them", ["."], [("credentials", "verifiable/credential_jwt.go"), ("status", "status/status.go"), ("presentation exchange", "presexch/definition.go"), ("key binding", "sdjwt/verifier/verifier.go"), ("proofs", "proof/checker/checker.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
for d in P:
    assert len(d["title"]) <= 90, d["title"]
    if len(d["title"]) > 80: print("TITLE TOO LONG", d["id"], len(d["title"]))
