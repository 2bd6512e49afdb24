#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. Run by hand after editing it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLES = "The unit tests pack and unpack a few fixed test vectors with fixed keys; "
P = []
def p(id, title, statement, over, text, why, files, mech, level_note, technique=None, claimed=True, reason=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique or "property-based testing (proptest): generated inputs against an explicit oracle", claimed=claimed, reason=reason))
IN, HI, SC, FA, CO = "inputs", "histories", "schedules", "fault_sequences", "configurations"

p("C01", "Plaintext messages survive packing and unpacking unchanged",
  "Packing a message as plaintext and unpacking the text gives back an equal message, with every header, custom header, body and attachment intact, and the packed text is the JSON form the DIDComm v2 specification gives the message. The unpack metadata says the message is neither encrypted, authenticated nor signed. Neither operation needs to know any DID or secret.",
  [IN], "every message (headers present or absent, any JSON body, any custom headers, any attachments), every unpack option",
  SAMPLES + "the property ranges over all message contents.",
  ["src/message/pack_plaintext.rs", "src/message/message.rs", "src/message/unpack/plaintext.rs"],
  [("Message::pack_plaintext", "src/message/pack_plaintext.rs"), ("Message::from_str, flattened extra headers", "src/message/message.rs"), ("_try_unpack_plaintext", "src/message/unpack/plaintext.rs")],
  "model of the plaintext JSON and round trip, thousands of random messages per run")
p("C02", "Signed messages verify and name their signer for every key type",
  "A message signed by any authentication key of its author, named by DID or by key id, can be verified by anyone who can resolve the author's DID and holds no secrets. Unpacking gives back an equal message, reports non-repudiation and authentication, the key that signed, the algorithm that belongs to that key's type, and the signed text itself.",
  [IN, CO], "every message, signer key type (Ed25519, P-256, secp256k1), key representation, naming by DID or key id",
  SAMPLES + "Alice's three keys only; key representations other than JWK are barely sampled.",
  ["src/message/pack_signed.rs", "src/jws/sign.rs", "src/jws/verify.rs", "src/message/unpack/sign.rs"],
  [("Message::pack_signed", "src/message/pack_signed.rs"), ("sign_compact / sign", "src/jws/sign.rs"), ("_try_unapck_sign", "src/message/unpack/sign.rs")],
  "round trip plus expected metadata over random keys and messages")
p("C03", "Encrypted messages reach their recipient intact in every mode",
  "A message that packing for encryption accepts can be unpacked by every holder of at least one of the addressed secret keys, and comes out equal to what was packed. This holds for anonymous and authenticated encryption, with or without a signature, with or without sender protection, for every content encryption, curve, key representation and way of naming keys.",
  [IN, CO], "every message, key set of sender and recipient, addressing form, option combination, and non-empty subset of the addressed secrets",
  SAMPLES + "a handful of option combinations between two fixed parties.",
  ["src/message/pack_encrypted/mod.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/jwe/encrypt.rs", "src/jwe/decrypt.rs", "src/message/unpack/mod.rs"],
  [("Message::pack_encrypted", "src/message/pack_encrypted/mod.rs"), ("anoncrypt", "src/message/pack_encrypted/anoncrypt.rs"), ("authcrypt", "src/message/pack_encrypted/authcrypt.rs"), ("Message::unpack", "src/message/unpack/mod.rs")],
  "round trip over random parties, options and messages")
p("C04", "Metadata tells exactly what protected the message",
  "The metadata of packing and of unpacking agree with the bytes on the wire: which keys the message was encrypted to, by and with which algorithm, who signed it, and the signed text. A property (encrypted, authenticated, non-repudiable, anonymous sender) is reported if and only if the received bytes have it.",
  [IN, CO], "every message, mode, key selection and option combination",
  SAMPLES + "metadata is compared with fixed values for those vectors only.",
  ["src/message/pack_encrypted/mod.rs", "src/message/unpack/mod.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/message/unpack/sign.rs"],
  [("PackEncryptedMetadata", "src/message/pack_encrypted/mod.rs"), ("UnpackMetadata filled layer by layer", "src/message/unpack/mod.rs")],
  "differential against an independent reader of the packed bytes")
p("C05", "Packed messages conform to the DIDComm v2 wire format",
  "Every packed message can be read by an independent implementation of the DIDComm v2 envelopes: header members, algorithm names, recipient and sender hints, key wrapping, content encryption, signature input and the plaintext inside are exactly what the specification prescribes. Every listed recipient entry decrypts to the same content.",
  [IN, CO], "every message, mode, key set and option combination",
  "The tests mostly read the library's output with the library itself, so a mistake made the same way on both sides passes.",
  ["src/jwe/encrypt.rs", "src/jwe/envelope.rs", "src/jws/sign.rs", "src/jws/envelope.rs", "src/message/pack_encrypted/mod.rs"],
  [("jwe::encrypt", "src/jwe/encrypt.rs"), ("jws::sign", "src/jws/sign.rs"), ("JWE/JWS serde forms", "src/jwe/envelope.rs, src/jws/envelope.rs")],
  "differential against an independent reference implementation of JWE/JWS", "differential property-based testing (proptest) against an independent reference implementation")
p("C06", "Conforming messages of other implementations are understood",
  "A message any conforming DIDComm v2 implementation may produce for a recipient is unpacked to the content the sender put in, with metadata naming the keys and algorithms the sender used. The sender's free choices (order of members and recipients, white space, unknown members, optional header members left out) make no difference.",
  [IN, CO], "every conforming envelope, in every mode and layout",
  SAMPLES + "no test varies the layout of a received envelope.",
  ["src/jwe/parse.rs", "src/jwe/decrypt.rs", "src/jwe/envelope.rs", "src/jws/parse.rs", "src/jws/verify.rs", "src/message/unpack/mod.rs"],
  [("jwe::parse / ParsedJWE::verify_didcomm", "src/jwe/parse.rs"), ("ParsedJWE::decrypt", "src/jwe/decrypt.rs"), ("jws::parse", "src/jws/parse.rs")],
  "differential: messages of an independent reference implementation are unpacked by the library", "differential property-based testing (proptest) against an independent reference implementation")
p("C07", "An altered encrypted message is never accepted as something else",
  "If any part of an encrypted message that the recipient relies on is altered, spliced from another message, or truncated, unpacking reports an error instead of returning a message. No alteration makes unpacking return content, sender or recipients other than the sender's.",
  [IN], "every encrypted message and every alteration of its iv, ciphertext, tag, wrapped keys, protected header and recipient list, at any layer",
  "The tests try a few fixed corruptions of fixed vectors.",
  ["src/jwe/parse.rs", "src/jwe/decrypt.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs"],
  [("apv/apu checks", "src/jwe/parse.rs"), ("AEAD with the protected header as associated data, tag bound into the key derivation", "src/jwe/decrypt.rs")],
  "metamorphic: random alterations of conforming messages must be refused", "mutation-based property testing (proptest), metamorphic oracle")
p("C08", "An altered signed message is never accepted",
  "If payload, protected header, signature or signer of a signed message is altered, truncated, removed or taken from another message, unpacking reports an error instead of returning a message. A signature counts only for the key it names and the algorithm that belongs to that key's type.",
  [IN], "every signed message, bare or inside encryption, and every alteration of its members",
  "The tests try a few fixed corruptions of fixed vectors.",
  ["src/jws/parse.rs", "src/jws/verify.rs", "src/message/unpack/sign.rs"],
  [("ParsedJWS::verify", "src/jws/verify.rs"), ("signer key lookup", "src/message/unpack/sign.rs")],
  "metamorphic: random alterations of conforming messages must be refused", "mutation-based property testing (proptest), metamorphic oracle")
p("C09", "Nobody can make a message appear to come from someone else",
  "Unpacking reports a sender or signer key only if the message was made with the secret of exactly that key, the key is listed in its owner's current DID document for that purpose (key agreement for encryption, authentication for signing), and its type fits the algorithm. A message an attacker makes with keys of its own is refused or attributed to the attacker, never to an honest party.",
  [IN], "every message an attacker can build from its own secrets and everybody's public keys",
  "Forgeries are an open-ended class; the tests contain almost none.",
  ["src/message/unpack/authcrypt.rs", "src/message/unpack/sign.rs", "src/jwe/parse.rs", "src/jwe/decrypt.rs", "src/jws/verify.rs"],
  [("skid/apu consistency", "src/jwe/parse.rs"), ("sender key must be listed under keyAgreement", "src/message/unpack/authcrypt.rs"), ("signer key must be listed under authentication", "src/message/unpack/sign.rs")],
  "attack scenarios generated with an independent implementation; genuine controls must be accepted", "adversarial property-based testing (proptest) with generated forgeries and controls")
p("C10", "Encryption hides content and protected sender, with fresh keys each time",
  "Nothing in an encrypted message, at any decoding depth available without the recipient's secrets (to a mediator on the way included), contains the plaintext, the signer, or (for anonymous or sender-protected messages) the sender. Ephemeral keys, content encryption keys, initialisation vectors and ciphertexts of two packings are never the same.",
  [IN, CO], "every message, mode and option combination; repeated packings",
  "Tests do not look for what must be absent, and fixed vectors cannot show freshness.",
  ["src/jwe/encrypt.rs", "src/message/pack_encrypted/mod.rs"],
  [("ephemeral key, CEK and IV generation", "src/jwe/encrypt.rs"), ("sender protection: authcrypt inside anoncrypt", "src/message/pack_encrypted/mod.rs")],
  "searches packed text recursively and compares secrets of repeated packings, which the reference implementation extracts")
p("C11", "Only holders of an addressed key can read a message",
  "Unpacking succeeds for a set of secrets exactly if it contains the secret of an addressed key (and, when decryption by all keys is demanded, only if every known addressed secret decrypts). Secrets of other keys, or a wrong secret under an addressed id, never yield a message.",
  [IN, CO], "every message, recipient key list and subset of secrets",
  SAMPLES + "with all of Bob's secrets or one of them.",
  ["src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/jwe/decrypt.rs"],
  [("find_secrets and trial decryption", "src/message/unpack/anoncrypt.rs"), ("expect_decrypt_by_all_keys", "src/message/unpack/authcrypt.rs")],
  "model of who can read, over all subsets of secrets")
p("C12", "Keys are selected as documented, or the right error is reported",
  "Packing uses exactly the documented keys: a named key only, all key agreement keys of the recipient fitting the chosen sender key, the first of the sender's keys that fits and whose secret is held. If none can be used, the error kind says why: DID not resolved, key not found, secret not found, no compatible keys, or unsupported key type. Keys that are described as something the library does not know are passed over where there are others.",
  [IN, CO], "every pair of DID documents, any subset of secrets present, any naming of keys",
  "The tests cover one document per error kind; the interplay of several reasons is not sampled.",
  ["src/message/pack_encrypted/authcrypt.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_signed.rs", "src/utils/crypto.rs"],
  [("sender and recipient key choice", "src/message/pack_encrypted/authcrypt.rs"), ("recipient key choice", "src/message/pack_encrypted/anoncrypt.rs"), ("signer key choice", "src/message/pack_signed.rs")],
  "model of key selection predicting keys or error kind")
p("C13", "Inconsistent packing arguments are refused",
  "Packing refuses, with an illegal-argument error and without producing text, when recipient, sender or signer is not a DID or DID URL, when the message's audience does not include the recipient, or when the message's author is not the party it is packed from. Consistent arguments are never refused on these grounds.",
  [IN], "every combination of message author, audience, recipient, sender and signer arguments",
  "The tests try one or two values for each argument.",
  ["src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/utils/did.rs"],
  [("validate_pack_encrypted_params", "src/message/pack_encrypted/mod.rs"), ("is_did", "src/utils/did.rs")],
  "model of the argument rules, spoilt and unspoilt calls")
p("C14", "DID rotation tokens are signed by the issuer and checked on receipt",
  "Packing a rotation token signs its claims with an authentication key of the issuing DID; reading it back returns exactly those claims and the key used. A token that was altered, or that is not signed by a key of the DID it names as issuer, is refused.",
  [IN, CO], "every set of claims, issuer key type, key naming, and every alteration",
  "The tests read one fixed token and a few fixed corruptions.",
  ["src/message/from_prior/pack.rs", "src/message/from_prior/unpack.rs", "src/message/from_prior/mod.rs", "src/jws/sign.rs", "src/jws/parse.rs"],
  [("FromPrior::pack", "src/message/from_prior/pack.rs"), ("FromPrior::unpack", "src/message/from_prior/unpack.rs"), ("validate_pack / validate_unpack", "src/message/from_prior/mod.rs")],
  "round trip, independent reader and writer, random alterations", "property-based testing (proptest): differential and mutation oracles")
p("C15", "A message carrying a rotation token is only handled with a valid one",
  "Packing or unpacking a message with a rotation token, in any packed form, succeeds only if the token is genuine and its subject is the author the message names; unpacking then reports the token's claims and the issuer's key. A message without a token reports none.",
  [IN, CO], "every message form and every genuine, altered, foreign or forged token",
  "The tests use one token in plaintext messages.",
  ["src/message/unpack/mod.rs", "src/message/pack_plaintext.rs", "src/message/from_prior/unpack.rs"],
  [("from_prior validation on pack", "src/message/pack_plaintext.rs"), ("from_prior handling on unpack", "src/message/unpack/plaintext.rs")],
  "expected outcome computed from the token's making")
p("C16", "A resolver's failure surfaces as that failure",
  "If a DID or secrets resolver fails at any point of any operation, the operation fails with an error of the resolver's kind, having returned no message. If a resolver answers that it does not know a DID or secret, the operation never returns wrong content: it fails with the matching not-found kind, or goes on with what is known.",
  [FA, IN], "every operation, every resolver call within it, every error kind and the not-found answer",
  "The tests use resolvers that never fail.",
  ["src/message/unpack/authcrypt.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/sign.rs", "src/message/pack_encrypted/authcrypt.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_signed.rs", "src/message/from_prior/pack.rs", "src/message/from_prior/unpack.rs", "src/protocols/routing/mod.rs"],
  [("resolver errors passed on with added context", "every caller of the two resolver traits")],
  "fault injected at every resolver call of generated operations", "property-based testing (proptest) with exhaustive fault injection at resolver calls")
p("C17", "No input makes the library panic",
  "Whatever text is unpacked, whatever arguments are passed to packing, whatever key material DID documents and secrets contain, every operation returns a value or an error; it never panics, overflows the stack or fails to end.",
  [IN], "arbitrary text and mutated messages, arbitrary arguments, arbitrary key material",
  "Malformed inputs are an open-ended class; the tests contain a few dozen.",
  ["src/utils/did.rs", "src/jwe/parse.rs", "src/jws/parse.rs", "src/message/unpack/mod.rs", "src/protocols/routing/mod.rs"],
  [("errors instead of unwrap on foreign data", "src/utils/did.rs, src/jwe/parse.rs, src/jws/parse.rs")],
  "fuzzing with structured mutation; a panic is a violation", "fuzzing with structure-aware generators and mutators (proptest)")
p("C18", "Malformed input is refused as malformed",
  "Text that is not a well-formed message (not JSON, cut short, required members missing or of the wrong type, contents not base64url or not UTF-8) is refused with an error of the malformed kind, and unknown algorithms with an error. Nothing malformed is ever reported as an internal state or input/output error.",
  [IN], "every structural defect of every kind of message",
  "The tests try some defects on fixed vectors.",
  ["src/error.rs", "src/jwe/envelope.rs", "src/jwe/parse.rs", "src/jws/envelope.rs", "src/jws/parse.rs", "src/message/message.rs", "src/message/unpack/mod.rs"],
  [("ToResult for serde_json errors", "src/error.rs"), ("serde forms", "src/jwe/envelope.rs, src/jws/envelope.rs"), ("parse", "src/jwe/parse.rs, src/jws/parse.rs")],
  "one structural defect per case in generated messages", "mutation-based property testing (proptest)")
p("C19", "Forward onions are built in route order and open to the original message",
  "Wrapping a message for a list of routing keys gives an onion whose layers open in the order of the route, each with that hop's secrets only, each telling exactly the next hop and carrying the given headers, and whose core is the wrapped message unchanged. With no routing keys the message itself is returned; a routing key that cannot be used is an error.",
  [IN, CO], "every wrapped message, list of routing keys (0-4, by DID or key, repeats), headers, algorithm",
  "The tests use two or three fixed mediators.",
  ["src/protocols/routing/mod.rs", "src/message/pack_encrypted/anoncrypt.rs"],
  [("wrap_in_forward", "src/protocols/routing/mod.rs"), ("build_forward_message", "src/protocols/routing/mod.rs")],
  "layers opened by the reference implementation and by the library and compared with a model", "property-based testing (proptest): model and differential oracles")
p("C20", "Services and mediators are chosen as the recipient's document says",
  "When forwarding is on, packing wraps the message for exactly the mediators and routing keys of the recipient's chosen (or first usable) DIDComm messaging service, and reports the service and the endpoint to send to. Services of other types or for other profiles are never used; a service asked for that does not exist or fit, an unresolvable mediator, or a mediator behind a mediator is an error of the documented kind.",
  [IN, CO], "every list of services of recipient and mediators, service named or not",
  "The tests use a few fixed documents.",
  ["src/protocols/routing/mod.rs", "src/message/pack_encrypted/mod.rs", "src/did/did_doc.rs"],
  [("find_did_comm_service", "src/protocols/routing/mod.rs"), ("resolve_did_comm_services_chain", "src/protocols/routing/mod.rs"), ("wrap_in_forward_if_needed", "src/protocols/routing/mod.rs")],
  "model of service selection")
p("C21", "Forward messages are recognised exactly when they are forwards",
  "A message is parsed as a forward if and only if it has the routing protocol's forward type, a body object with a string next hop, and a first attachment holding JSON. The parsed form gives that next hop, that JSON unchanged, and the message itself.",
  [IN], "every message: type, body shapes, attachment lists",
  "The tests do not call the parser on anything but real forwards.",
  ["src/protocols/routing/mod.rs", "src/protocols/routing/forward.rs"],
  [("try_parse_forward", "src/protocols/routing/mod.rs")],
  "model over forwards and near misses")
p("C22", "Re-wrapping mediators are transparent to the recipient",
  "A message a mediator wrapped again for the recipient is unpacked, with unwrapping on, to the innermost message addressed to the recipient, is reported as re-wrapped, and says of its author what the inner message proves. With unwrapping off, or when the next hop is somebody else, the forward message itself is returned.",
  [IN, CO], "every packed form inside, 1-3 wrappings, every choice of next hop and held secrets",
  "The tests unwrap one level for Bob.",
  ["src/message/unpack/mod.rs", "src/utils/did.rs", "src/protocols/routing/mod.rs"],
  [("unpack loop over forwards", "src/message/unpack/mod.rs"), ("has_key_agreement_secret", "src/message/unpack/mod.rs")],
  "model over wrappings made by the reference implementation", "property-based testing (proptest): model and differential oracles")
p("C23", "The JSON form of messages loses and invents nothing",
  "A message read from its JSON form and written back is the same JSON value: members absent stay absent, custom headers stay at the top level with their values, integers keep their exact value. The order of members, white space and string escapes make no difference; a document missing a required member, or with a member of the wrong type, is refused; messages are equal exactly if all their members are.",
  [IN], "every message and every way of writing its JSON",
  "The tests read a few fixed documents.",
  ["src/message/message.rs", "src/message/attachment.rs", "src/utils/serde.rs"],
  [("serde attributes of Message", "src/message/message.rs"), ("flatten of extra headers", "src/message/message.rs")],
  "model of the JSON form, in both directions", "property-based testing (proptest): round trip and model")
p("C24", "Message and attachment builders set exactly what they are told",
  "After any sequence of builder calls the finalised message or attachment has the last value given for every single-valued member, all recipients and attachments in the order they were added, all custom headers, and nothing else. Builders never lose, reorder or share values between members.",
  [HI], "every sequence of builder calls with any arguments",
  "The tests call each builder method once, in one order.",
  ["src/message/message.rs", "src/message/attachment.rs"],
  [("MessageBuilder", "src/message/message.rs"), ("AttachmentBuilder", "src/message/attachment.rs")],
  "model-based: call sequences interpreted by a reference model", "model-based property testing (proptest) over call sequences")
p("C25", "The JSON form of attachments is faithful for all three kinds",
  "Attachments holding base64 text, JSON or links are written with exactly the members the specification gives them and read back equal, whatever the order or style of the JSON, with unknown members ignored. An attachment whose data fits no kind, or with members of the wrong type, is refused.",
  [IN], "every attachment and every way of writing its JSON",
  "The tests build attachments but do not read arbitrary ones.",
  ["src/message/attachment.rs"],
  [("untagged AttachmentData", "src/message/attachment.rs")],
  "model of the JSON form, in both directions", "property-based testing (proptest): round trip and model")
p("C26", "The JSON form of DID documents and secrets is faithful",
  "DID documents and secrets with any verification method types, key material forms and services are read from their JSON form with every member intact and written back to an equal form. A service of another type keeps its contents; a document or secret missing a required member is refused.",
  [IN], "every document and secret and every way of writing them",
  "The tests build the structures in code.",
  ["src/did/did_doc.rs", "src/secrets/mod.rs"],
  [("serde attributes of DIDDoc, VerificationMethod, Service", "src/did/did_doc.rs"), ("serde attributes of Secret", "src/secrets/mod.rs")],
  "model of the JSON form, in both directions", "property-based testing (proptest): round trip and model")
p("C27", "A key works the same in every representation",
  "The same key given as JWK, Base58 or Multibase, in the DID document and in the secrets, gives the same behaviour: what one representation encrypts or signs the others decrypt and verify, and never as another key. Material that does not fit the declared type, is not of the right length or encoding, or is not a point on its curve, is an error, which does not claim that a resolver failed or that a document, key or secret is missing.",
  [IN, CO], "every key type and representation on either side, every malformed material",
  "The tests convert a few fixed keys.",
  ["src/utils/did.rs", "src/utils/crypto.rs", "src/jwk.rs"],
  [("VerificationMethod::as_key_pair", "src/utils/did.rs"), ("Secret::as_key_pair", "src/utils/did.rs"), ("FromJwkValue", "src/jwk.rs")],
  "differential between representations and against the reference implementation; malformed material must be refused")
p("C28", "The example resolvers answer exactly from what they were given",
  "The example DID resolver returns the document stored under exactly the asked DID and nothing otherwise; the example secrets resolver returns the secret stored under exactly the asked id, and of a list of ids exactly the known ones, in the order asked. They never err.",
  [IN], "every store and every query",
  "The tests ask for ids that exist.",
  ["src/did/resolvers/example.rs", "src/secrets/resolvers/example.rs"],
  [("ExampleDIDResolver", "src/did/resolvers/example.rs"), ("ExampleSecretsResolver", "src/secrets/resolvers/example.rs")],
  "model: exact lookup")
p("C29", "Options, metadata and algorithm names have their documented JSON form",
  "Options read from JSON take the documented value for members left out and refuse wrong types and unknown algorithm names; metadata and options written as JSON have the documented members and names. Defaults in code are the documented ones.",
  [IN, CO], "every subset of members in every style, metadata of generated runs",
  "The tests do not touch the JSON forms, which the language bindings rely on.",
  ["src/algorithms.rs", "src/message/pack_encrypted/mod.rs", "src/message/unpack/mod.rs", "src/message/pack_signed.rs"],
  [("serde attributes", "src/algorithms.rs, src/message/unpack/mod.rs, src/message/pack_encrypted/mod.rs")],
  "model of the JSON forms")
p("C30", "Errors keep their kind, cause and context",
  "An error keeps the kind it was made with however much context is added, shows kind and context, and its chain of causes is complete and in order. Errors of the JSON library become malformed-input or internal-state errors according to their class.",
  [IN, HI], "every kind, cause, sequence of contexts; every JSON error",
  "The tests check kinds of a few calls.",
  ["src/error.rs"],
  [("Error, ResultExt, ResultContext, ToResult", "src/error.rs")],
  "model of kind, display and source chain")
p("C31", "Results do not depend on when resolvers answer or on what runs alongside",
  "An operation gives the same result whether its resolvers answer at once or only after any number of polls, and whether or not other operations of the same process run interleaved with it or are abandoned half way.",
  [SC], "every operation, delay pattern of resolver answers, interleaving of several operations, abandoned operations",
  "The tests use resolvers that answer at once and await one operation at a time.",
  ["src/message/unpack/mod.rs", "src/message/pack_encrypted/mod.rs", "src/protocols/routing/mod.rs"],
  [("operations are plain futures without shared state", "src/message, src/protocols")],
  "the harness owns the schedule: generated delays, interleavings and drops compared with the undisturbed run", "property-based testing (proptest) with generated schedules")
p("C32", "Each operation depends only on its arguments, whatever happened before",
  "In any history of packing, sending, mediating, unpacking, key rotation and DID document changes among several parties, each operation behaves as it would have in a fresh process with the documents and secrets of that moment. A key removed from a document or from the secrets is never used again, one added is usable at once.",
  [HI], "every history of operations and document or secret changes among several parties",
  "Every test starts from the same fixed documents and makes one or two calls.",
  ["src/message/unpack/mod.rs", "src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/protocols/routing/mod.rs"],
  [("no state outside the arguments", "src/message, src/protocols")],
  "stateful: a reference model predicts every step of generated histories", "stateful model-based property testing (proptest)")
p("C33", "The JSON text of an envelope may be written in any style",
  "Rewriting the JSON text of a received message or envelope without changing the JSON value (member order, white space, string escapes), at any layer its sender controls, does not change what unpacking returns.",
  [IN], "every message and every rewriting of its JSON text",
  "The tests read text as the library writes it.",
  ["src/jwe/envelope.rs", "src/jws/envelope.rs", "src/jwe/parse.rs", "src/jws/parse.rs", "src/message/message.rs"],
  [("borrowed string fields in envelope serde forms", "src/jwe/envelope.rs, src/jws/envelope.rs")],
  "metamorphic: rewritten text must unpack to the same result", "metamorphic property-based testing (proptest)")
p("C34", "The foreign-language callback interface passes requests and results through",
  "Operations called through the callback interface give the same results as the native ones: each resolver request reaches the foreign resolver with the same arguments, and its answer or failure comes back as the operation's, exactly once.",
  [IN, FA], "every operation, resolver answer and failure",
  "The tests of that layer repeat a few native ones.",
  ["uniffi/src/didcomm", "uniffi/src/did/did_resolver_adapter.rs", "uniffi/src/secrets/secrets_resolver_adapter.rs"],
  [("adapters", "uniffi/src/did/did_resolver_adapter.rs, uniffi/src/secrets/secrets_resolver_adapter.rs")],
  "differential: the interface, compiled without the generated C layer, against the native operations with the same resolvers", "differential property-based testing (proptest): callback interface against native operations, with generated foreign resolver behaviour")
p("C35", "The JavaScript interface converts values and errors faithfully",
  "Messages, DID documents, secrets, options, tokens, metadata and errors cross the JavaScript boundary in both directions without loss or change (numbers as far as JavaScript's doubles hold them): operations called from JavaScript give the same results, ask the JavaScript resolvers the same things, and fail with the same kind of error as the native ones. Options left out take their documented defaults; values of the wrong shape are refused as Malformed when the caller gave them, as InvalidState when a resolver did.",
  [IN, FA], "every operation, value, option, resolver answer and error kind",
  "The tests of that layer need a JavaScript runtime and sample a few values.",
  ["wasm/src/message/mod.rs", "wasm/src/message/pack_encrypted.rs", "wasm/src/message/unpack.rs", "wasm/src/error.rs", "wasm/src/did/did_resolver.rs", "wasm/src/secrets/secrets_resolver.rs"],
  [("JsResult, FromJsResult", "wasm/src/error.rs"), ("JsDIDResolver, JsSecretsResolver", "wasm/src/did/did_resolver.rs, wasm/src/secrets/secrets_resolver.rs"), ("Message, FromPrior, ParsedForward wrappers", "wasm/src/message")],
  "differential: the layer compiled over a model of JavaScript's values (numbers, objects, errors, promises, JSON) against the native operations; the generated glue between that model and a real engine is trusted", "differential property-based testing (proptest): JavaScript layer against native operations, with generated values, promises and thrown errors")
p("C36", "A genuine message that cannot be read is refused for the right reason",
  "When a genuine message cannot be unpacked, the error's kind is the documented one: DIDNotResolved if the DID of its sender, signer or rotation token's issuer is unknown; DIDUrlNotFound if that DID's document does not list the key for its purpose, or does not describe it; SecretNotFound if no secret of an addressed key is held; Unsupported if the sender's agreement key, the held secrets or the signature algorithm are of a kind the library does not know; Malformed if sender's and recipient's keys are of different curves, or decryption or verification fails. Faults that concern no key the message uses make no difference to it.",
  [IN, FA, CO], "every genuine message, every single fault of the documents, secrets and algorithms it depends on",
  "The tests check the kinds for a few altered messages; documents and secrets that lack or spoil the one key a message needs are not sampled.",
  ["src/message/unpack/authcrypt.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/sign.rs", "src/message/from_prior/unpack.rs", "src/utils/did.rs"],
  [("sender's key looked up", "src/message/unpack/authcrypt.rs"), ("recipient's secrets looked up", "src/message/unpack/anoncrypt.rs"), ("signer's key looked up", "src/message/unpack/sign.rs"), ("issuer's key looked up", "src/message/from_prior/unpack.rs")],
  "single faults in a generated world; a model of the documented kinds")

have = set(os.environ.get("HAVE", "").split()) if os.environ.get("HAVE") else None
lines, checks, na = [], [], []
for q in P:
    lines.append(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
        quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
        anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]])), ensure_ascii=False))
    if q["claimed"] and (have is None or q["id"] in have):
        checks.append(dict(property=q["id"], quick_cmd="./check.sh " + q["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + q["id"],
            technique=q["technique"], level="exploration",
            level_note=q["level_note"] + ". Bounded exploration: absence of violations is shown only for the generated cases; trusts the reference implementation in harness/src/refimpl.rs and the offline stand-in for askar-crypto."))
    else:
        na.append(dict(property=q["id"], reason=q["reason"] or "check not built yet"))
open(V + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="Checks build harness/ (a crate with a path dependency on /repo) and run target/debug/vh check ID (C34: target-ffi, C35: target-js, builds with the language bindings). No hooks in /repo are needed. See DESIGN.md."),
    open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(lines), "properties,", len(checks), "claimed")
