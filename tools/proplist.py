MB = 'Explicit TLA+ model checked by TLC; '

prop('C01', 'Packet framing survives writing and reading in every legal form',
     """Any sequence of packets framed in any legal header form (old or new format, every length
     encoding, partial and indeterminate lengths) is read back with the same types, header formats
     and bodies, whether read from memory or from a stream, and everything the library writes is read
     back as the packets that were written. Input that ends inside a packet is reported as an error,
     never returned as a complete packet.""",
     ['inputs'], 'all packet lists, header forms, partial-length chains, body lengths at and around '
     'every encoding boundary, and every truncation point',
     'The tests read four fixed keys and messages; they never use partial, indeterminate or '
     'five-octet lengths, boundary sizes, streams or truncated input.',
     ['pgp/packets/packets.py', 'pgp/packets/parsers.py', 'pgp/utils.py'],
     [('packet readers', 'pgp/packets/packets.py:packet_from_packet_data/packet_from_packet_stream'),
      ('packet writer', 'pgp/packets/packets.py:Packet.__bytes__'),
      ('length codecs', 'pgp/utils.py:*_packet_length*')],
     'TLA+ framing model (TLC) + trace validation of reader and writer',
     MB + '''reader and writer as a state machine, RoundTrip and TruncationSound checked for all short
     streams; every generated stream is replayed in both real readers and TLC compares the outcome.
     Bodies are patterned runs at the generated sizes.''')

prop('C02', 'Packet bodies keep every field through parsing and serialising',
     """For every kind of packet, parsing a well-formed body yields the field values the standard
     assigns to its octets, and serialising the result, or a packet built from the same field values,
     produces exactly those octets again.""",
     ['inputs'], 'all packet types and versions, all combinations of boundary field values',
     'The tests parse a handful of keys and never compare a re-serialised packet with its source.',
     ['pgp/packets/packets.py', 'pgp/packets/parsers.py', 'pgp/packets/user_attribute_subpackets.py'],
     [('per-type parsers and content builders', 'pgp/packets/packets.py')],
     'TLA+ octet-level packet grammar (TLC) + trace validation',
     MB + '''the specification computes the octets of each packet from its fields; real parse,
     re-serialise and construct are compared with it for the enumerated field combinations.''')

prop('C03', 'Multiprecision integers and numeric encodings are exact at every size',
     """Every non-negative integer of any size is written as the minimal multiprecision encoding the
     standard defines and read back exactly, at any position in the data and followed by any other
     data; iteration counts, fixed-width integers, hexadecimal strings and checksums likewise convert
     back and forth without loss, and values that cannot be represented are refused.""",
     ['inputs'], 'all integers, in particular on both sides of every power of two up to several '
     'thousand bits, all 256 coded counts, all offsets',
     'Three fixed integers are converted by the tests; none lies next to a power of two.',
     ['pgp/utils.py', 'pgp/crc24.py'],
     [('integer codecs', 'pgp/utils.py'), ('armor checksum', 'pgp/crc24.py')],
     'TLA+ codec definitions over octet sequences (TLC) + trace validation',
     MB + '''integers are octet sequences in the specification, so magnitude is unbounded; boundary
     families up to 4100 bits and seeded random ones are replayed.''')

prop('C04', 'Signature subpackets are preserved exactly, known or unknown',
     """Every well-formed subpacket of a signature, of a known or unknown kind, with any length
     encoding and with or without the critical flag, is read with the field values the standard
     assigns and is written back with the same kind, flag and content octets, so that re-serialising a
     parsed signature never changes what was signed. A subpacket that is empty or overruns its area is
     refused.""",
     ['inputs'], 'all subpacket kinds 0-127, critical flags, length forms and field values',
     'The tests see only the few kinds GnuPG put into two keys.',
     ['pgp/packets/signature_subpackets.py', 'pgp/packets/packets.py'],
     [('subpacket parsers and writers', 'pgp/packets/signature_subpackets.py')],
     'TLA+ subpacket grammar (TLC) + trace validation',
     MB + 'octets and fields are computed by the specification for enumerated field values.')

prop('C05', 'ASCII armor is lossless and detects corruption',
     """Any data of any length armored with any header values decodes to exactly the same data, kind
     and header values, and the armored text is the one the standard prescribes (radix-64 body,
     checksum, matching tail). Text whose body or checksum was altered so that they disagree, whose
     tail line does not match, or which is cut short is rejected.""",
     ['inputs', 'fault_sequences'], 'all data up to several lines long with lengths modulo 3 and around '
     'line boundaries, all header combinations, every single-character alteration of body and checksum',
     'The tests decode fixed armored blocks and never a corrupted one.',
     ['pgp/armor.py', 'pgp/crc24.py'],
     [('reader', 'pgp/armor.py:ASCIIArmor.from_ascii'), ('writer', 'pgp/armor.py:ASCIIArmor.__str__'),
      ('checksum', 'pgp/crc24.py')],
     'TLA+ armor specification incl. radix-64 and CRC-24 (TLC) + trace validation',
     MB + 'the specification computes the whole armored text and decides corrupted texts.')

prop('C06', 'Signatures cover the prescribed octets and genuine ones verify',
     """A signature made by any unlocked secret key, with any supported digest, over any document,
     key, user identity or subkey verifies with the corresponding public key, before and after being
     serialised; and what it signs is exactly the octet string the standard prescribes for that kind
     of signature, so other implementations accept it. Where no digest is named, the one the signing
     key states as most preferred is used. Signing changes nothing of what the caller passed.""",
     ['inputs', 'configurations'], 'all signature kinds, digests, key algorithms, versions, hashed '
     'attributes and documents in the enumerated classes',
     'Tests verify four GnuPG document signatures; certifications, bindings and digests other than the '
     'default are never exercised.',
     ['pgp/transferrable_keys.py', 'pgp/signature.py', 'pgp/message.py', 'pgp/utils.py'],
     [('sign/verify', 'pgp/transferrable_keys.py:BaseSecretKey.sign/BasePublicKey.verify'),
      ('signed octets', 'to_signable_data of messages, keys, user ids, signatures')],
     'TLA+ signature-preimage specification (TLC) + trace validation',
     MB + '''the specification builds the hashed octets; an independent RSA/DSA verification (PyCrypto on
     octets from the specification) must agree with the real signer and verifier.''')

prop('C07', 'Nothing but the genuine signature on the genuine data verifies',
     """Verification fails whenever the document, the certified key or identity, the signature kind,
     the digest, any hashed attribute, the signature value, the claimed issuer or the verifying key
     differs from what was signed, in any combination; it never reports success for altered input.""",
     ['inputs', 'fault_sequences'], 'all single and paired alterations of every component of a signed '
     'object, for all key algorithms and signature kinds',
     'Tests try two altered documents and one wrong key.',
     ['pgp/transferrable_keys.py', 'pgp/signature.py', 'pgp/utils.py'],
     [('verify', 'pgp/transferrable_keys.py:BasePublicKey.verify'), ('verify_hash', 'pgp/utils.py')],
     'TLA+ adversary model (TLC) + replay of its behaviours on real signatures',
     MB + '''Dolev-Yao style: an adversary edits components; unforgeability is assumed and the decision
     table is checked on real signatures.''')

prop('C08', 'Text signatures do not depend on the line-ending convention',
     """A canonical-text signature is computed over the text with every line ending (LF, CR or CRLF)
     turned into CRLF and no other octet changed, so the same text with another line-ending convention
     has the same signed octets and any other change of the text gives different ones; binary signatures cover
     the octets unchanged.""",
     ['inputs'], 'all texts over {CR, LF, other} up to a length bound, exhaustively, and longer ones by '
     'random walks', 'No test makes or checks a canonical-text signature.',
     ['pgp/message.py'],
     [('canonicalisation', 'pgp/message.py:TextMessage.to_signable_data')],
     'TLA+ line-ending transducer, exhaustively explored (TLC) + trace validation',
     MB + 'all texts up to the bound are generated by TLC and replayed in the real code.')

prop('C09', 'Encrypted messages open for exactly the intended recipients',
     """A message encrypted to any set of public keys, visible or hidden, or to a passphrase, with any
     supported cipher and digest, opens to exactly the original message for each holder of an intended unlocked
     secret key or the passphrase, wherever its session key stands in the list; any other key or
     passphrase is refused with an error. A hidden recipient's key id does not appear in the message, and
     the cipher, string-to-key specifier and protection recorded in it are those asked for.""",
     ['inputs', 'configurations', 'histories'], 'all recipient lists, ciphers, digests, protection modes and orders',
     'Tests encrypt to one recipient with one cipher and open with the right key.',
     ['pgp/message.py', 'pgp/packets/packets.py', 'pgp/utils.py'],
     [('session keys', 'pgp/message.py:PublicKeySessionKey/SymmetricSessionKey'),
      ('opening', 'pgp/message.py:EncryptedMessageWrapper.get_message')],
     'TLA+ recipient model (TLC) + replay of its behaviours in real code',
     MB + 'session keys are symbolic in the model; every enumerated recipient list is run with real keys.')

prop('C10', 'Altered integrity-protected ciphertext is never returned as plaintext',
     """Whatever part of the protected data of an integrity-protected encrypted message is modified, removed, duplicated,
     reordered or appended to, opening it raises an error; only the unmodified message yields a plaintext.""",
     ['inputs', 'fault_sequences'], 'all single-octet alterations, truncations, extensions and block swaps at every '
     'position of the ciphertext, for every cipher',
     'No test alters a ciphertext.',
     ['pgp/message.py'],
     [('integrity check', 'pgp/message.py:SymmetricallyEncryptedMessageData.decrypt')],
     'TLA+ attack model over ciphertext regions (TLC) + exhaustive replay per position',
     MB + 'the model gives the attack space and the acceptance rule; the replay covers every octet.')

prop('C11', 'Messages keep their structure through nesting, signing and compression',
     """Any legal composition of literal, compressed, signed (any number of signatures, one-pass or
     not) and encrypted layers is serialised to packets in the order the standard prescribes and is
     read back as the same layers in the same order with the same content, file name, time and signatures; packet
     sequences that are not a legal message are refused, as are one-pass signature packets that differ
     from the signature they announce in kind, digest, key algorithm or key id. It makes no difference
     whether a message comes as octets, as armored text or octets, asked for or recognised, or from a
     file. A message that was read is written again as the same packets, or with the packet header format asked for.""",
     ['programs', 'inputs'], 'all layer compositions up to a depth bound and all short packet-type sequences',
     'Tests read one composition: signed, compressed, encrypted.',
     ['pgp/message.py', 'pgp/shortcuts.py'],
     [('grammar', 'pgp/message.py:open_pgp_message_from_packets and the wrapper classes')],
     'TLA+ message grammar (TLC) + replay of all compositions and sequences',
     MB + 'grammar recogniser and composer in the specification; all sequences to the bound replayed.')

prop('C12', 'Passphrases turn into keys exactly as the standard prescribes',
     """For every string-to-key kind, digest, cipher, salt, count and passphrase, the derived key
     consists of the leading octets of digests of exactly the prescribed octet strings, has the cipher's key
     length, and is reproduced from the serialised specifier, which itself survives writing and reading unchanged.""",
     ['inputs'], 'all kinds, digests and ciphers, passphrase lengths around count and block boundaries',
     'One iterated and salted specifier with one passphrase is exercised by unlocking the test keys.',
     ['pgp/s2k.py', 'pgp/utils.py'],
     [('key derivation', 'pgp/s2k.py:to_key'), ('specifier codec', 'pgp/s2k.py:from_bytes/__bytes__')],
     'TLA+ string-to-key specification (TLC) + trace validation',
     MB + 'the hashed octet strings come from the specification; digests from hashlib.')

prop('C13', 'Locked secret keys stay unusable and only the right passphrase unlocks',
     """A secret key and its subkeys can sign or decrypt only between an unlock with the right
     passphrase and the next lock, across any sequence of unlock, lock, scoped-unlock, sign, decrypt,
     export and conversion operations; a wrong passphrase raises an error and never makes any key usable, nor
     does the right one if the protected values were altered; scoped unlocking locks again even when the body fails, and the serialised key never changes.""",
     ['histories'], 'all operation sequences up to a length bound over the primary key and its subkeys',
     'Tests unlock once with the right passphrase and never lock again.',
     ['pgp/transferrable_keys.py', 'pgp/context_managers.py', 'pgp/packets/packets.py'],
     [('lock state', 'pgp/transferrable_keys.py:BaseSecretKey'), ('scope', 'pgp/context_managers.py')],
     'TLA+ lock-state machine (TLC) + replay of all its histories on real keys',
     MB + 'every history up to the bound is replayed on RSA and DSA/ElGamal keys.',
     state=[('locked', 'whether each key component may be used', 'pgp/transferrable_keys.py')])

prop('C14', 'Key ids and fingerprints depend only on the public key material',
     """The fingerprint and key id of every key are the ones the standard derives from its version,
     creation time and public key material; they are the same for the public key, the secret key (locked
     or unlocked), the parsed and re-serialised key, either header format, and under any local time zone. So are
     its size, that of its modulus, and its keygrip.""",
     ['inputs', 'configurations'], 'all key algorithms and versions, creation times including clock-change '
     'hours, time zones, lock states', 'Tests compare two key ids under one time zone.',
     ['pgp/transferrable_keys.py', 'pgp/utils.py', 'pgp/packets/packets.py'],
     [('fingerprint', 'pgp/utils.py:key_packet_fingerprint'),
      ('key id', 'pgp/transferrable_keys.py:BasePublicKey.key_id')],
     'TLA+ fingerprint preimage specification (TLC) + trace validation',
     MB + 'preimage octets from the specification, digests from hashlib, several time zones.')

prop('C15', 'Transferable keys keep all components, in order, and reject bad orders',
     """Every legal packet sequence of a transferable public or secret key is accepted and written
     back with the same components, signatures attached to the same component, in the same order; sequences that break the
     prescribed order are rejected, in whatever way the key comes (octets, armored text or octets, asked for
     or recognised, or a file) and leaves. Converting a secret key to a public key keeps all identities, attributes, subkeys
     and signatures and carries no secret material.""",
     ['inputs', 'programs'], 'all short sequences of key, signature, identity, attribute and subkey packets',
     'Tests load four keys with one identity and one subkey each.',
     ['pgp/transferrable_keys.py', 'pgp/shortcuts.py'],
     [('order check', 'pgp/transferrable_keys.py:validate_transferrable_key'),
      ('assembly', 'pgp/transferrable_keys.py:TransferablePublicKey.from_packets/to_packets')],
     'TLA+ transferable-key grammar automaton (TLC) + replay of all sequences to a bound',
     MB + 'automaton explored by TLC; each accepted or rejected word is built from real packets.')

prop('C16', 'Key status follows the newest valid self-signature, expiry and revocations',
     """Preferences, expiry, capabilities and revocation of a key, identity or subkey are those stated
     by its own signatures: the most recent certifying self-signature wins regardless of the order
     in which signatures are stored, signatures by other keys and of other kinds never count, a revocation by the key's owner
     is reported, and an expired signature is reported as expired exactly from its expiry time on. What is assigned to an item is
     stated by the signature it is read from, and no other signature changes.""",
     ['histories', 'inputs'], 'all small multisets and orders of signatures (kind, issuer, time, expiry, attributes)',
     'Tests never query status.',
     ['pgp/transferrable_keys.py', 'pgp/signature.py'],
     [('status', 'pgp/transferrable_keys.py:SignedMixin'), ('expiry', 'pgp/signature.py')],
     'TLA+ status-resolution model (TLC) + replay of all its signature histories',
     MB + 'all histories to the bound; outcomes compared with the specification.')

prop('C17', 'Signature attributes read back what was set',
     """After any sequence of assignments to a signature's attributes, each attribute reads as the value last
     assigned to it, no other attribute changes, values that cannot be stated are refused, critical notations,
     which the library does not understand, are never passed over, and all values survive serialising and
     parsing the signature.""",
     ['histories'], 'all sequences of assignments up to a length bound over all attributes and values',
     'No test assigns an attribute.',
     ['pgp/signature.py', 'pgp/packets/signature_subpackets.py'],
     [('attribute properties', 'pgp/signature.py:BaseSignature')],
     'TLA+ register model of signature attributes (TLC) + replay of its histories',
     MB + 'assignment histories enumerated by TLC are replayed on real signatures.')

prop('C18', 'A keyring behaves as a map of keys under any history of changes',
     """After any sequence of additions, updates and deletions, a keyring contains exactly the keys it
     should, each retrievable unchanged by fingerprint or key id, in this object and after reopening the file;
     changing one key never alters, loses or duplicates another, and refused operations change nothing.""",
     ['histories'], 'all operation sequences up to a length bound over several keys, public and secret, and '
     'both header formats', 'No test touches the database.',
     ['pgp/db/gpg.py'],
     [('keyring', 'pgp/db/gpg.py:Keyring')],
     'TLA+ map model of a keyring (TLC) + replay of its histories on real files',
     MB + 'every history up to the bound is run on a scratch keyring file.',
     state=[('offset table', 'key id suffix to file offset', 'pgp/db/gpg.py:Keyring._offset_table')])

prop('C19', 'An interrupted keyring change leaves the old or the new keyring',
     """If the process dies or a write fails at any point while a key is added, updated or deleted,
     the keyring file afterwards is, in full and with its permissions, either the keyring before or the keyring after the
     change, and only the latter if success was reported.""",
     ['crash_points', 'fault_sequences'], 'every file-system call of every operation as crash or failure point',
     'No test interrupts an operation.',
     ['pgp/db/gpg.py'],
     [('rewriting', 'pgp/db/gpg.py:Keyring.add/update/delete_transferrable_key')],
     'TLA+ crash model of keyring rewriting (TLC) + crash replay at every real file operation',
     MB + 'file operations of the real code are intercepted; a crash is injected before and after each.',
     level='fault_enumeration')

prop('C20', 'The keyring lock admits one holder and is always given back',
     """Of any number of processes and threads that lock the same keyring at most one holds the lock at
     a time, by whatever names they know the file and whether or not one was forked while another held it; every operation, successful or failing, nested or not, leaves the lock free again, a timed wait ends, and a
     stale lock of a dead process does not block forever. A holder never removes a lock of another that
     took the place of its own.""",
     ['schedules', 'histories'], 'all interleavings of acquire, release, crash and operations of a few holders',
     'No test takes a lock.',
     ['pgp/db/gpg.py'],
     [('lock', 'pgp/db/gpg.py:Lock')],
     'TLA+ lock protocol model, all interleavings (TLC) + schedule replay on the real lock',
     MB + 'the protocol is explored for all interleavings; its schedules are replayed on real lock objects.')

prop('C21', 'Database lookups and changes reach the right keyring and only matching keys',
     """Searching the database by fingerprint, key id or part of a user identity (in any case) returns exactly the
     matching keys of all registered keyrings in registration order, a primary one first, and adding, updating or deleting
     a key acts on the first keyring of the matching kind and on no other; read-only keyrings are never changed. The keys
     listed are those of all keyrings, in the same order, and the user's own keyrings are opened as such, not made unasked.""",
     ['histories', 'configurations'], 'all small configurations of public, secret and read-only keyrings and operation sequences',
     'No test touches the database.',
     ['pgp/db/gpg.py'],
     [('database', 'pgp/db/gpg.py:GPGDatabase'), ('opening', 'pgp/db/gpg.py:get_resource')],
     'TLA+ multi-keyring model (TLC) + replay of its histories',
     MB + 'configurations and histories enumerated by TLC, run on scratch files.')

prop('C22', 'Cipher modes are exact inverses and independent of chunking',
     """For every cipher and mode the library offers, the ciphertext is the one the mode's definition gives for the
     underlying block cipher, decrypting restores the plaintext, splitting the data over any
     number of calls gives the same result, and two cipher objects never influence each other.""",
     ['inputs', 'histories'], 'all splits of short data over calls, all modes, segment sizes and initial values, with resynchronisation',
     'Tests check fixed one-call vectors.',
     ['pgp/cipher/base.py', 'pgp/cipher/wrapper.py', 'pgp/cipher/aidea.py', 'pgp/cipher/camellia.py',
      'pgp/cipher/twofish.py', 'pgp/utils.py'],
     [('modes', 'pgp/cipher/base.py:_InternalObj')],
     'TLA+ state machine of the block modes over an uninterpreted cipher (TLC) + trace validation',
     MB + 'block cipher calls are facts in the trace; TLC recomputes the mode.')

prop('C23', 'The built-in IDEA cipher is the IDEA cipher',
     """For every 16-octet key and 8-octet block the built-in IDEA implementation computes the IDEA
     permutation, including for zero and all-ones words, and decryption is its inverse.""",
     ['inputs'], 'keys and blocks with every pattern of special words (0, 1, 0x8000, 0xffff) and random ones',
     'A few dozen fixed vectors are tested; none targets the special values of the multiplication.',
     ['pgp/cipher/aidea.py'], [('IDEA', 'pgp/cipher/aidea.py')],
     'TLA+ executable specification of IDEA (TLC) + trace validation',
     MB + 'TLC computes IDEA for every replayed key and block.')

prop('C24', 'Passphrase prompting caches, repeats and clears as asked',
     """A prompt returns a passphrase only if every repetition agreed with it, returns a cached
     passphrase without prompting only if caching was asked for and it was not cleared since, keeps cache entries separate,
     and a request to the agent is encoded so that any text reaches it intact and any reply but a success is an error.""",
     ['histories'], 'all prompt, mismatch, cache and clear histories up to a bound; all agent replies',
     'No test prompts.',
     ['pgp/pinentry/getpass.py', 'pgp/pinentry/gpg_agent.py'],
     [('cache and repeat loop', 'pgp/pinentry/getpass.py'), ('agent protocol', 'pgp/pinentry/gpg_agent.py')],
     'TLA+ prompt/cache/agent protocol model (TLC) + replay of its histories with a scripted user and agent',
     MB + 'histories enumerated by TLC are replayed with a scripted terminal and a socket-level agent double.')

prop('C25', 'Keyserver answers are parsed and requested exactly',
     """Every well-formed keyserver index answer yields one result per key with its id, algorithm, size, times,
     flags and identities; fetching a result asks for exactly that key and returns it, and submitting sends
     exactly the armored public key, never a secret one; error answers, and answers that do not hold the key asked for, are
    reported as errors.""",
     ['inputs', 'histories'], 'all combinations of present, empty and escaped fields, flags, several keys and identities',
     'No test talks to a keyserver.',
     ['pgp/keyserver/hkp.py', 'pgp/keyserver/__init__.py'],
     [('HKP client', 'pgp/keyserver/hkp.py')],
     'TLA+ index grammar and client protocol model (TLC) + replay against a scripted server',
     MB + 'answers are generated by the specification and served by a stand-in transport.')

prop('C26', 'Only the standard\'s regular expressions are accepted',
     """A pattern is accepted for a trust scope exactly if it is a sentence of the standard's
     regular-expression grammar; every other string is refused.""",
     ['inputs'], 'all strings over the metacharacters up to a length bound',
     'No test validates a pattern.',
     ['pgp/regex.py'], [('validator', 'pgp/regex.py:validate_subpacket_regex')],
     'TLA+ grammar, all strings to a bound (TLC) + trace validation',
     MB + 'TLC enumerates all strings to the bound with their verdict.')

prop('C27', 'User identities split into name, address and comment and recombine',
     """A user identity made of a name, an e-mail address and a comment, any of which may be missing, is split into
     exactly these parts, and changing one part leaves the others as they were.""",
     ['inputs', 'histories'], 'all combinations of part shapes and change sequences up to a bound',
     'No test parses an identity.',
     ['pgp/user_id.py', 'pgp/transferrable_keys.py'],
     [('parser', 'pgp/user_id.py:parse_user_id'), ('parts', 'pgp/transferrable_keys.py:UserID')],
     'TLA+ identity model (TLC) + replay of its edit histories',
     MB + 'part shapes and edit histories enumerated by TLC.')

prop('C28', 'Compression is lossless for every algorithm, level and chunking',
     """Data compressed with any supported algorithm and level, fed in any number of pieces, is a
     standard stream of that algorithm that decompresses to exactly the original data, also in pieces; standard streams made by other
     software decompress to the original, and damaged streams are refused.""",
     ['inputs', 'histories'], 'all algorithms, levels, data shapes and splits over calls',
     'Tests compress one short message with one algorithm.',
     ['pgp/utils.py', 'pgp/packets/packets.py', 'pgp/message.py'],
     [('compressors', 'pgp/utils.py:*Compression'), ('packet', 'pgp/packets/packets.py:CompressedDataPacket')],
     'TLA+ streaming-codec state machine (TLC) + replay of its call histories',
     MB + 'call histories enumerated by TLC; stdlib codecs as the independent peer.')

prop('C29', 'Equal objects are those that say the same',
     """Two packets, subpackets, string-to-key specifiers, notations, designated revokers or signatures of the same
     header form are equal exactly if they are of the same kind and say the same, whether they were read or made from
     their fields; equality is symmetric and agrees with inequality and with hashing, and anything else is simply
     different from them, without an error.""",
     ['inputs'], 'all pairs of objects one field apart, for every kind of object and field',
     'Tests compare a handful of objects for equality.',
     ['pgp/packets/packets.py', 'pgp/packets/signature_subpackets.py', 'pgp/packets/user_attribute_subpackets.py',
      'pgp/s2k.py', 'pgp/signature.py'],
     [('packets', 'pgp/packets/packets.py:Packet.__eq__'), ('subpackets', 'pgp/packets/signature_subpackets.py:SignatureSubpacket.__eq__'),
      ('specifiers', 'pgp/s2k.py:SimpleS2K.__eq__'), ('signatures', 'pgp/signature.py:BaseSignature.__eq__')],
     'TLA+ model of equality over edited objects (TLC) + comparison of generated neighbours',
     MB + 'TLC generates every object with the objects one field away from it and decides which are equal.')

prop('C30', 'Values that must be unpredictable are drawn afresh every time',
     """Every session key, random prefix, string-to-key salt, padding and secret exponent of an encryption or
     DSA signature that the library chooses itself has its full length in random octets and is drawn anew for each use: in any
     sequence of encryptions and signatures, with one object, copies or many, in threads or forked
     processes, whatever else the program does with its own random numbers and clock, no two uses share a
     value, none follows from the text, the key or the passphrase, and a message shows nothing of its session
     key or text to somebody without a secret.""",
     ['inputs', 'histories', 'schedules'], 'histories of operations over messages, recipients, ciphers, digests, '
     'copies, threads, forks and reseeded general-purpose generators',
     'Tests use fixed session keys or look at one message only; no test looks at the random values.',
     ['pgp/message.py', 'pgp/packets/packets.py', 'pgp/utils.py'],
     [('session keys, salts, prefixes', 'pgp/message.py:public_key_encrypt/symmetric_encrypt/encrypt'),
      ('padding and exponents', 'pgp/packets/packets.py:PKCS115_ElGamal_Cipher'),
      ('nonces', 'pgp/utils.py:sign_hash')],
     'TLA+ model of designs of a random source (TLC) + trace validation of the values an independent peer '
     'extracts with the secret keys',
     MB + 'the peer recovers every random value, and the specification decides lengths, sharing and guessability '
     'per history and over all processes.')

prop('C31', 'User attributes say what was put there and certifications follow the content',
     """An attribute that was read is written again octet for octet while its items are unchanged, whatever
     form they had; one whose items were made, edited, added, removed or reordered is written as image
     subpackets with exactly the data and kind the items say, or refused if that cannot be written; octets that are no sequence
     of subpackets, each inside of them and images with the one header there is, are refused; and a
     certification of it verifies, here and elsewhere, exactly while the attribute is what was certified.""",
     ['inputs', 'histories'], 'subpacket pools incl. unknown types and odd length forms, programs of edits, '
     'certifications and re-readings up to a length bound',
     'Tests only parse one image attribute.',
     ['pgp/transferrable_keys.py', 'pgp/packets/user_attribute_subpackets.py', 'pgp/packets/packets.py'],
     [('items', 'pgp/transferrable_keys.py:UserAttributeContentItem'),
      ('subpackets', 'pgp/packets/user_attribute_subpackets.py')],
     'TLA+ state machine of attribute items and certifications (TLC) + replay of its programs in real code',
     MB + 'the specification computes the octets after every program and which certifications stand.')

prop('C32', 'Only a whole session key opens a message',
     """What a recipient finds with their key or passphrase is taken for a session key only if every part of it is
     right: block type, padding, separator, a known cipher, a key of exactly that cipher's length, checksum, and as
     many values as the algorithm has; anything else is refused with an error, never opens the message, and does not
     keep another, whole session key from opening it. Every whole one, whatever its cipher, octets and padding, opens it.""",
     ['inputs', 'fault_sequences'], 'session key blocks with every part altered, for RSA and ElGamal keys of several '
     'lengths and for passphrases, alone and before a whole one',
     'Tests only open messages made by another program with whole session keys.',
     ['pgp/packets/packets.py', 'pgp/message.py'],
     [('decoding', 'pgp/packets/packets.py:PublicKeyEncryptedSessionKeyPacket._get_key_and_cipher_algo'),
      ('padding', 'pgp/packets/packets.py:PKCS115_ElGamal_Cipher'),
      ('trying', 'pgp/message.py:EncryptedMessageWrapper.get_message')],
     'TLA+ decoder of session key blocks (TLC over all blocks of a small key) + replay of altered blocks in real code',
     MB + 'the specification decodes every block and says whether the message opens.')
