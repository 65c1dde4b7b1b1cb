"""Source of properties.jsonl (tools/gen.py writes it and MANIFEST.json from here)."""
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, level_note, technique, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['CEX/' + f for f in files], state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None),
        note=level_note, technique=technique, na=na))

prop('C01', 'Sequential digests compute the standard functions',
 'For every message, every way of splitting it over the update calls, and every sequence of reuse of one digest object, the sequential digests return exactly the code the published standard defines (SHA-2, SHA-3, BLAKE2 including keyed, salted and personalised use, Skein). The code does not depend on the processor features found at run time. A reset or a finalisation leaves the object as good as a new one.',
 ['inputs', 'histories', 'configurations'], 'all messages, all partitions into update calls, all cpu feature sets, all reuse histories',
 'The tests hash a fixed list of known-answer messages in one call; block edges, odd chunkings and reuse are sampled a handful of times.',
 ['SHA2256.cpp', 'SHA2512.cpp', 'SHA3256.cpp', 'SHA3512.cpp', 'Blake256.cpp', 'Blake512.cpp', 'Skein256.cpp', 'Skein512.cpp', 'Skein1024.cpp', 'Keccak.cpp', 'SHA2.cpp', 'Blake.cpp'],
 [('message buffering', 'CEX/SHA2256.cpp Update/Finalize (and the same in each digest)'), ('compression permutations', 'CEX/SHA2.h, Keccak.cpp, Blake.h, Threefish')], ['IDigest::Update', 'IDigest::Finalize', 'IDigest::Compute'],
 'Randomised search, no proof. Oracles: OpenSSL 3 for SHA-2/SHA-3/BLAKE2, own Skein 1.3 and BLAKE2 parameter-block references.', 'stateful property-based testing against independent reference implementations')

prop('C02', 'Tree digests are one function of the message on every machine',
 'In parallel mode each digest is a single well defined function of the message and its tree parameters: every byte and the length count, and neither the split into update calls, the processor count, the thread schedule, the block-size tuning nor earlier use changes the code. BLAKE2sp and BLAKE2bp are the published ones. Two different messages found by the search never share a code.',
 ['inputs', 'schedules', 'configurations', 'histories'], 'all messages, partitions, core counts, degrees and block sizes',
 'The tests compare only two keyed BLAKE2 vectors and self-consistency of a few lengths on the build machine.',
 ['SHA2256.cpp', 'SHA2512.cpp', 'SHA3256.cpp', 'SHA3512.cpp', 'Blake256.cpp', 'Blake512.cpp', 'Skein256.cpp', 'Skein512.cpp', 'Skein1024.cpp', 'ParallelOptions.cpp', 'ParallelTools.cpp'],
 [('lane distribution and leaf finalisation', 'Update, ProcessLeaf, Finalize of each digest'), ('degree and block size calculation', 'CEX/ParallelOptions.cpp')], ['IDigest::Update', 'IDigest::Finalize'],
 'Randomised search against an independent model of the tree construction, plus metamorphic relations. The layout of the SHA-2/SHA-3/Skein trees is this library\'s own, so the model follows its documentation and the code.', 'property-based testing against a tree model; metamorphic relations')

prop('C03', 'MACs compute the published functions',
 'For every key, customisation, message, split of the message and reuse of the object, the message authentication codes (CMAC, GMAC, HMAC, KMAC, Poly1305, and the library\'s own keccak MAC) return the code their specification defines. A change of any byte of the key, the customisation where one is used, or the message changes the code.',
 ['inputs', 'histories', 'configurations'], 'all keys, nonces, customisations, messages, partitions and reuse histories',
 'Known-answer tests cover fixed vectors, one call each.',
 ['CMAC.cpp', 'GMAC.cpp', 'GHASH.cpp', 'HMAC.cpp', 'KMAC.cpp', 'KPA.cpp', 'Poly1305.cpp', 'CMUL.h'],
 [('block buffering and finalisation', 'Update/Finalize of each MAC'), ('GF(2^128) and 2^130-5 arithmetic', 'CEX/GHASH.cpp, CEX/Poly1305.cpp')], ['IMac::Initialize', 'IMac::Update', 'IMac::Finalize', 'IMac::Compute'],
 'Randomised search. Oracles: OpenSSL CMAC/GMAC/HMAC/KMAC/Poly1305; for KPA an own model.', 'stateful property-based testing against independent reference implementations')

prop('C04', 'KDFs and SHAKE derive the published key streams',
 'For every key, salt, info, iteration or cost count and output length, the key derivation functions (HKDF, KDF2, PBKDF2, scrypt-based) and the extendable-output functions (SHAKE, cSHAKE) produce exactly the bytes their specification defines. Every byte of the requested range is produced and asking for the range at an offset writes only that range. Re-keying one object equals using a new one.',
 ['inputs', 'histories'], 'all key material, output lengths and call sequences',
 'The tests use a few RFC vectors of fixed length.',
 ['HKDF.cpp', 'KDF2.cpp', 'PBKDF2.cpp', 'SCBKDF.cpp', 'SHAKE.cpp', 'KdfBase.cpp'],
 [('expand loops and counters', 'Expand of each KDF')], ['IKdf::Initialize', 'IKdf::Generate'],
 'Randomised search. Oracles: OpenSSL HKDF, PBKDF2, scrypt, X9.63 KDF, SHAKE and an own cSHAKE.', 'stateful property-based testing against independent reference implementations')

prop('C05', 'Block ciphers are the published permutations and invert exactly',
 'For every key and block the block ciphers compute AES and Serpent as published, for all supported key sizes, and for the extended key schedules the documented expansion of the key; decryption inverts encryption for every block. Single-block, wide and in-place transforms of the same data agree, and the hardware and software implementations agree.',
 ['inputs', 'configurations'], 'all keys, key sizes, extension types, blocks and widths',
 'Known-answer vectors and a few random round-trips.',
 ['RHX.cpp', 'SHX.cpp', 'Rijndael.h', 'Serpent.h'],
 [('key expansion', 'StandardExpand/SecureExpand'), ('transforms', 'Encrypt128/Decrypt128 and the wide variants')], ['IBlockCipher::Initialize', 'IBlockCipher::Transform', 'IBlockCipher::EncryptBlock', 'IBlockCipher::DecryptBlock'],
 'Randomised search. Oracles: OpenSSL AES, an own bitwise Serpent, an own model of the extended schedules.', 'property-based testing against reference models; differential hardware/software')

prop('C06', 'Cipher modes compute the standard modes at every length and degree',
 'For every key, iv, message and split of the message into calls, the unauthenticated modes (ECB, CBC, CFB, OFB, CTR, little-endian counter) return the standard result over the chosen block cipher, and decryption restores the message. The result does not depend on whether the parallel path runs, its degree and block size, or the processor count.',
 ['inputs', 'histories', 'schedules', 'configurations'], 'all keys, ivs, messages, partitions, parallel profiles and core counts',
 'Tests use AESAVS vectors and a parallel-versus-sequential comparison at a few sizes.',
 ['CBC.cpp', 'CFB.cpp', 'CTR.cpp', 'ECB.cpp', 'ICM.cpp', 'OFB.cpp', 'ParallelOptions.cpp', 'CTR.h'],
 [('parallel partition of the message and of the counter', 'ProcessParallel of each mode'), ('chaining of the iv', 'Encrypt128/Decrypt128')], ['ICipherMode::Transform', 'ICipherMode::EncryptBlock', 'ICipherMode::DecryptBlock'],
 'Randomised search. Oracle: textbook modes written over OpenSSL AES-ECB and over the single block transform.', 'stateful property-based testing against textbook mode models')

prop('C07', 'Paddings round-trip and mark exactly the padded bytes',
 'For every block size and data length, the bytes added by a padding are recognised again with exactly the right count, and the data is never touched. For every byte string, looking for padding never reads outside the block and never reports more bytes than the block has.',
 ['inputs'], 'all block sizes, offsets, data and arbitrary (also malformed) blocks',
 'The tests pad a fixed few lengths with random data.',
 ['ESP.cpp', 'PKCS7.cpp', 'X923.cpp', 'ZeroOne.cpp'], [('AddPadding / GetBlockLength', 'each padding class')], ['IPadding::AddPadding', 'IPadding::GetBlockLength'],
 'Randomised search against a per-padding model.', 'property-based testing against models')

prop('C08', 'Stream processors equal the one-shot functions',
 'Encrypting a stream or byte array with the stream processor and decrypting it returns the original for every length, padding, mode and parallel setting, and the ciphertext is the one the mode and padding define. Digests and MACs of streams equal those of the bytes. The declared output length is exact.',
 ['inputs', 'histories', 'configurations'], 'all lengths, modes, paddings, parallel profiles, stream kinds and reuse',
 'Tests use one or two buffer sizes per mode.',
 ['CipherStream.cpp', 'DigestStream.cpp', 'MacStream.cpp', 'MemoryStream.cpp', 'FileStream.cpp'], [('block loop and last-block padding', 'CipherStream::BlockTransform/Write'), ('progress and chunking', 'DigestStream::Process, MacStream::Process')], ['CipherStream::Write', 'DigestStream::Compute', 'MacStream::Compute'],
 'Randomised search against models built from OpenSSL and the padding rules.', 'property-based testing: model and round-trip')

prop('C09', 'Authenticated modes compute GCM and HBA for every history',
 'For every key, nonce, associated data and message, GCM returns the NIST ciphertext and tag and HBA the result of its documented construction, whatever the split into calls, the parallel setting or the earlier use of the object. Decrypting what was encrypted returns the message and accepts the tag.',
 ['inputs', 'histories', 'schedules', 'configurations'], 'all keys, nonces, associated data, messages, partitions and parallel profiles',
 'Known-answer vectors and random round-trips in one call.',
 ['GCM.cpp', 'HBA.cpp', 'GMAC.cpp', 'CTR.cpp', 'ICM.cpp'], [('tag over aad, ciphertext and lengths', 'CalculateMac / Finalize')], ['IAeadMode::SetAssociatedData', 'IAeadMode::Transform', 'IAeadMode::Finalize', 'IAeadMode::Verify'],
 'Randomised search. Oracles: OpenSSL GCM; own HBA model.', 'stateful property-based testing against reference models')

prop('C10', 'Authenticated modes reject every altered message',
 'When the ciphertext, tag, associated data, nonce or key differs in any way from what was encrypted, verification reports failure and never success; when nothing differs it reports success.',
 ['inputs', 'fault_sequences', 'histories'], 'all alterations of any of the five inputs',
 'Tests alter nothing or one byte.',
 ['GCM.cpp', 'HBA.cpp', 'IntegerTools.h'], [('tag comparison', 'Verify, IntegerTools::Compare')], ['IAeadMode::Verify'],
 'Fault injection search over positions and kinds of alteration; forging by chance is negligible (tags of at least 12 bytes).', 'property-based fault injection (metamorphic tampering)')

prop('C11', 'Stream ciphers produce their specified key streams and invert',
 'For every key, nonce, info, message and split into calls, each stream cipher returns the message combined with its specified key stream (ChaCha20 as published; the others as documented), and decryption restores the message. Parallel setting and processor features do not change the result.',
 ['inputs', 'histories', 'schedules', 'configurations'], 'all keys, nonces, messages, partitions, parallel profiles',
 'Known-answer vectors at fixed lengths and a few parallel comparisons.',
 ['ChaChaP20.cpp', 'CSX512.cpp', 'RCS.cpp', 'RWS.cpp', 'TSX256.cpp', 'TSX512.cpp', 'TSX1024.cpp', 'ChaCha.h', 'Threefish.h'], [('counter partition between threads', 'Generate/ProcessParallel of each cipher')], ['IStreamCipher::Transform', 'IStreamCipher::Initialize'],
 'Randomised search. Oracles: OpenSSL ChaCha20, own references for the other ciphers.', 'stateful property-based testing against reference models')

prop('C12', 'Authenticated stream ciphers detect every altered message',
 'With an authenticator selected, decrypting an unaltered ciphertext returns the message and decrypting one that was altered in any byte of ciphertext, tag, associated data, nonce or key fails with an authentication error. The tag of a message is the one the chosen authenticator defines, for every message of a session of several messages.',
 ['inputs', 'fault_sequences', 'histories'], 'all authenticators, messages, alterations and session histories',
 'Tests decrypt what they encrypted and alter one byte at most.',
 ['ChaChaP20.cpp', 'CSX512.cpp', 'RCS.cpp', 'RWS.cpp', 'TSX256.cpp', 'TSX512.cpp', 'TSX1024.cpp', 'MacBase.cpp'], [('finalisation of the authenticator', 'Transform/Finalize of each cipher')], ['IStreamCipher::Transform', 'IStreamCipher::Tag', 'IStreamCipher::SetAssociatedData'],
 'Fault injection search plus an independent model of each tag.', 'property-based fault injection and model')

prop('C13', 'A saved cipher state resumes exactly',
 'Serialising a stream cipher at any point between messages and restoring it into a new object continues the key stream and the authentication exactly as the original would have. A corrupted or truncated state is refused or handled without touching memory it does not own.',
 ['histories', 'crash_points', 'inputs'], 'all points of a session, all ciphers, all corruptions of the serialised state',
 'Tests save once after one message, for one length.',
 ['ChaChaP20.cpp', 'CSX512.cpp', 'RCS.cpp', 'RWS.cpp', 'TSX256.cpp', 'TSX512.cpp', 'TSX1024.cpp'], [('state serialisation', 'Serialize and the state constructor')], ['IStreamCipher::Serialize'],
 'Randomised search: differential original/restored.', 'stateful property-based testing (differential)')

prop('C14', 'Key encapsulation: both sides derive the same secret',
 'For every parameter set, key pair and source of randomness, decapsulating an encapsulation made for a public key with the matching private key succeeds and yields the same shared secret, at every requested secret length and across serialised and reloaded keys. Different encapsulations and different key pairs give different secrets. Every byte of key and secret comes from the random source given to the object.',
 ['inputs', 'histories'], 'all seeds of the random source, parameter sets, secret lengths and object histories',
 'The tests run a handful of encapsulations per parameter set with one random source.',
 ['Kyber.cpp', 'McEliece.cpp', 'ECDH.cpp', 'EC25519.h'], [('key generation, encapsulation and decapsulation', 'Generate/Encapsulate/Decapsulate of each cipher')], ['IAsymmetricCipher::Generate', 'IAsymmetricCipher::Encapsulate', 'IAsymmetricCipher::Decapsulate'],
 'Randomised search with a deterministic random source.', 'property-based testing: agreement and metamorphic relations')

prop('C15', 'Key encapsulation: altered ciphertexts and wrong keys never yield the secret',
 'Decapsulating an altered ciphertext, one of the wrong length, one that no encapsulation could have produced, or with another private key, is reported as a failure, never returns the encapsulated secret and never reads or writes outside its buffers. Keys that cannot belong to the parameter set and public points of small order are refused.',
 ['inputs', 'fault_sequences'], 'all alterations of ciphertext, length and key',
 'Tests flip one byte.',
 ['Kyber.cpp', 'McEliece.cpp', 'ECDH.cpp'], [('re-encryption comparison and implicit rejection', 'Decapsulate')], ['IAsymmetricCipher::Decapsulate'],
 'Fault injection search; runs partly under the address sanitizer.', 'property-based fault injection')

prop('C16', 'Signatures made with a key verify under its public key',
 'For every scheme, parameter set, key pair and message, a signature made with the private key verifies with the matching public key and returns the signed message, also through serialised and reloaded keys and for repeated use of one object.',
 ['inputs', 'histories'], 'all messages, seeds, parameter sets and object histories',
 'The tests sign a handful of messages of one length.',
 ['Dilithium.cpp', 'ECDSA.cpp', 'SphincsPlus.cpp', 'XMSS.cpp'], [('sign and verify', 'Sign/Verify of each signer')], ['IAsymmetricSigner::Sign', 'IAsymmetricSigner::Verify'],
 'Randomised search; the slow schemes get few cases.', 'stateful property-based testing')

prop('C35', 'No one-time key of a stateful signature key is used twice',
 'Over any history of signing with an XMSS or XMSS-MT private key, with any number of signer objects and through saving and reloading the key, no one-time key index appears in two signatures; when the indices have run out the key refuses to sign.',
 ['inputs', 'histories'], 'all histories of signing, saving, reloading, and starting indices, of the sets with trees of height 5',
 'Two signatures with one index reveal the private key; the tests only ever verify single signatures.',
 ['XMSS.cpp', 'XmssCore.cpp', 'AsymmetricKey.cpp'], [('stateful signing', 'XMSS::Sign, XMSSCore::XmssMtCoreSign')], ['XMSS::Sign', 'AsymmetricKey::Serialize'],
 'Stateful random search; the starting index is set in the private key to reach subtree borders and the end of the key.', 'stateful (model-based) property-based testing')

prop('C17', 'Signatures do not verify for anything that was altered',
 'Verification fails when the message, the signature or the public key differs in any byte from those of the signing, or when the input is truncated or made up; it never reads or writes outside the buffers it is given.',
 ['inputs', 'fault_sequences'], 'all alterations of message, signature, key and length',
 'Tests alter one byte of each.',
 ['Dilithium.cpp', 'ECDSA.cpp', 'SphincsPlus.cpp', 'XMSS.cpp'], [('verification', 'Verify of each signer')], ['IAsymmetricSigner::Verify'],
 'Fault injection search; runs partly under the address sanitizer.', 'property-based fault injection')

prop('C18', 'Curve25519 functions are X25519 and Ed25519',
 'For every seed, the public keys, shared secrets and signatures produced by the elliptic curve classes are exactly those of X25519 (RFC 7748) and Ed25519 (RFC 8032), interoperating with another implementation in both directions.',
 ['inputs'], 'all seeds, points and messages',
 'The tests check self consistency and some fixed vectors.',
 ['EC25519.h', 'ECDH.cpp', 'ECDSA.cpp'], [('field and group arithmetic', 'CEX/EC25519 functions')], ['ECDH', 'ECDSA'],
 'Randomised search. Oracle: OpenSSL X25519 and Ed25519.', 'differential property-based testing')

prop('C19', 'DRBGs are the documented deterministic generators',
 'For every seed, nonce, info and history of requests, each deterministic generator returns the stream its construction defines: equal inputs give equal outputs, the split into requests follows the documented rule, a generator reseeds from its entropy source exactly at the documented points and re-initialising restarts the stream. Output changes with every byte of seed, nonce and info.',
 ['inputs', 'histories', 'schedules'], 'all seeds and request histories',
 'Tests compare fixed vectors and statistical properties of one long output.',
 ['BCG.cpp', 'CSG.cpp', 'HCG.cpp'], [('generate and derive', 'Generate/Derive/Update of each DRBG')], ['IDrbg::Initialize', 'IDrbg::Generate', 'IDrbg::Update'],
 'Randomised search against models built from OpenSSL primitives.', 'stateful property-based testing against reference models')

prop('C20', 'Random generators fill every request and stay in range',
 'For every request the prngs fill the requested range and nothing else, integers drawn with bounds lie within them, for every bound. The bytes returned are those of the underlying generator in order, whatever the sequence of requests, so none is skipped into the caller\'s output twice.',
 ['inputs', 'histories'], 'all request sizes, bounds and sequences',
 'Tests draw some numbers and check bounds statistically.',
 ['BCR.cpp', 'CSR.cpp', 'HCR.cpp', 'SecureRandom.cpp', 'PrngBase.cpp'], [('buffering', 'Generate of each PRNG'), ('bounded draws', 'SecureRandom::NextUInt16 and others')], ['IPrng::Generate', 'IPrng::NextUInt32', 'SecureRandom::Next*'],
 'Randomised search with a recorded entropy source.', 'stateful property-based testing (invariants, differential)')

prop('C21', 'Entropy providers fill every request or raise an error',
 'A request to an entropy provider either fills every byte of the requested range with fresh output of its source or raises an error; this holds for every size, for missing hardware, for a source that fails at any point, and for repeated requests, which never return repeated blocks.',
 ['inputs', 'fault_sequences', 'configurations', 'histories'], 'all request sizes, hardware feature sets and failures of the sources',
 'Tests request one size on the build machine, where no source fails.',
 ['ACP.cpp', 'CJP.cpp', 'CSP.cpp', 'ECP.cpp', 'RDP.cpp', 'ProviderBase.cpp'], [('collection and failure handling', 'Generate/GetEntropy of each provider')], ['IProvider::Generate', 'IProvider::IsAvailable'],
 'Fault injection over a simulated operating system and cpu.', 'property-based testing with injected faults')

prop('C22', 'Keys survive serialisation and misuse of the serialised form is safe',
 'Every symmetric key, key size and asymmetric key equals its own serialised and reloaded copy in every part, copies are independent of the original, and comparison is true exactly for equal contents. Parsing any byte string either yields an object within the string\'s bounds or raises an error.',
 ['inputs', 'fault_sequences'], 'all key contents and all byte strings',
 'Tests serialise a few keys of one size.',
 ['SymmetricKey.cpp', 'SymmetricSecureKey.cpp', 'SymmetricKeySize.cpp', 'SymmetricKeyGenerator.cpp', 'AsymmetricKey.cpp', 'AsymmetricKeyPair.cpp', 'SymmetricSecureKey.h'], [('serialisation', 'Serialize/DeSerialize and the stream constructors')], ['SymmetricKey', 'AsymmetricKey'],
 'Randomised search and mutation under the address sanitizer.', 'property-based testing: round-trip, mutation')

prop('C23', 'Sealed keys open only with the right authentication',
 'A sealed key container returns exactly the key, nonce and info it was made with when unsealed on the same machine, process state and passphrase it was sealed under, in every order of sealing, unsealing, cloning and serialising; elsewhere an authenticated container reports an authentication failure and the others never return the key. While sealed, and after it was opened, no memory of the process made or given back by the container shows the key.',
 ['inputs', 'histories', 'fault_sequences'], 'all contents, policies, identities of machine and user, and operation orders',
 'Tests seal and open one key.',
 ['SymmetricSecureKey.cpp', 'AsymmetricSecureKey.cpp', 'SecureVector.h', 'MemoryTools.h'], [('sealing', 'SymmetricSecureKey::Encipher / Extract')], ['SymmetricSecureKey', 'AsymmetricSecureKey'],
 'Randomised search.', 'stateful property-based testing')

prop('C24', 'Byte streams behave as an array with a cursor',
 'For every sequence of reads, writes, seeks, copies, length changes and closes, a memory stream, a file stream and the stream reader and writer behave as one byte array with a cursor: reads return what was written, length and position are exact, and nothing outside the given ranges is touched.',
 ['histories', 'inputs'], 'all operation sequences',
 'Tests write, rewind and read once.',
 ['MemoryStream.cpp', 'FileStream.cpp', 'StreamReader.cpp', 'StreamWriter.cpp'], [('cursor and length bookkeeping', 'Read/Write/Seek/SetLength/CopyTo')], ['IByteStream', 'StreamReader', 'StreamWriter'],
 'Randomised search against an array model.', 'stateful model-based testing')

prop('C25', 'Integer, array and memory helpers compute their mathematical results',
 'The conversion, rotation, comparison, carry, increment, xor, copy, fill and clear helpers return for every operand and every length exactly the mathematical result, touch only the given range, and the vectorised paths agree with the plain ones. Constant-time comparisons return true exactly for equal ranges.',
 ['inputs', 'configurations'], 'all operands, lengths and offsets',
 'Tests use small fixed arrays.',
 ['IntegerTools.h', 'MemoryTools.h', 'ArrayTools.h', 'Intrinsics.h'], [('helpers', 'IntegerTools, MemoryTools, ArrayTools')], ['IntegerTools', 'MemoryTools'],
 'Randomised search against byte-by-byte definitions; sanitized runs.', 'property-based testing against definitions')

prop('C26', 'Every variant of a permutation computes the same function',
 'The compact, unrolled, hardware and vectorised variants of the inner permutations (Keccak, ChaCha, Threefish, SHA-2, BLAKE2, Skein, the GHASH multiplication) compute the same function of their state for every state, round count and tweak, each lane of a vectorised variant equals the scalar function of that lane, the SIMD integers they are built on act on each lane as the unsigned integer it holds, and the stateless sponge, digest and MAC functions built on the permutations equal the published functions.',
 ['inputs', 'configurations'], 'all states and lane contents',
 'Tests compare variants on one or a few random states.',
 ['Keccak.h', 'ChaCha.h', 'Threefish.h', 'SHA2.h', 'Blake.h', 'Serpent.h', 'ULong256.h', 'UInt256.h', 'UInt128.h'], [('variant permutations', 'Permute* functions')], ['Keccak::Permute', 'ChaCha::Permute', 'Threefish', 'SHA2', 'Blake'],
 'Differential search.', 'differential property-based testing')

prop('C27', 'Illegal parameters are refused',
 'A key, nonce, tag, count, block size, parallel setting or output range that the documentation declares illegal, or use before initialisation, raises the library\'s exception and never produces output, corrupts memory or is silently accepted; every combination declared legal works.',
 ['inputs', 'configurations'], 'all parameter combinations around the documented limits',
 'Tests try a few bad values per class.',
 ['CTR.cpp', 'GCM.cpp', 'RHX.cpp', 'HKDF.cpp', 'HMAC.cpp', 'KMAC.cpp', 'ChaChaP20.cpp', 'SymmetricKeySize.cpp'], [('parameter checks', 'Initialize/Transform/Finalize of each class')], ['every Initialize/Generate/Finalize'],
 'Randomised search near limits under the address sanitizer.', 'property-based testing of rejections')

prop('C28', 'Transforms write only their output range and never their input',
 'Every transformation reads only its input range and writes only the output range its documentation names: bytes before and after it, and the input when it is a different buffer, are unchanged, for every offset and length, including parallel paths.',
 ['inputs', 'configurations'], 'all offsets, lengths and buffer layouts',
 'Tests use exactly sized buffers.',
 ['CTR.cpp', 'CBC.cpp', 'CSX512.cpp', 'HKDF.cpp', 'SHA2256.cpp', 'GCM.cpp'], [('offset arithmetic', 'Transform/Generate/Finalize of each class')], ['every transformation with offsets'],
 'Randomised search with guard bytes and sanitizers.', 'property-based testing with guard bytes')

prop('C29', 'Reused objects equal new ones',
 'After any history of use, finalisation, failed call or reset, re-initialising an object makes it indistinguishable from a new one initialised the same way, and two objects never influence one another.',
 ['histories'], 'all histories of calls over all cipher, mac, digest, kdf and drbg objects',
 'Tests mostly use fresh objects.',
 ['CTR.cpp', 'GCM.cpp', 'HBA.cpp', 'RCS.cpp', 'HMAC.cpp', 'HKDF.cpp', 'SHAKE.cpp', 'BCG.cpp'], [('reset of state', 'Initialize/Reset/Finalize of each class')], ['Initialize', 'Reset'],
 'Randomised differential search: used object against new object.', 'stateful differential property-based testing')

prop('C30', 'Secrets are erased from memory that is given back',
 'When an object that held a key (cipher, mode, authenticated or stream cipher, MAC, key-derivation function, generator, key container, key pair, signer or key exchange) is destroyed, or is given another key, the memory it releases for that does not depend on the old key: two equal histories under different keys release the same bytes, apart from published outputs. Secure containers erase what they release on every path, including growth, copy, move and clear, the functions that move a secret erase its source, and the secure stream never releases memory with its contents in the clear.',
 ['histories', 'inputs'], 'all contents, sizes and object lifetimes',
 'Tests cannot see freed memory.',
 ['SecureVector.h', 'MemoryTools.h', 'SymmetricKey.cpp', 'SymmetricSecureKey.cpp'], [('clearing allocator and destructors', 'SecureAllocator, destructors, MemoryTools::Clear')], ['deallocation'],
 'Randomised search; twin histories under two keys, every freed block compared, and scans for marked bytes.', 'property-based testing with an instrumented allocator')

prop('C31', 'Factories and names agree with what they create',
 'Creating any algorithm by its enumeration or name returns an object that reports the same enumeration and name and computes that algorithm; converting an enumeration to a name and back is the identity for every defined value, and values that are not defined are refused.',
 ['inputs', 'configurations'], 'all enumeration values and names',
 'Tests create a few by name.',
 ['DigestFromName.cpp', 'MacFromName.cpp', 'KdfFromName.cpp', 'BlockCipherFromName.cpp', 'CipherModeFromName.cpp', 'AeadModeFromName.cpp', 'PaddingFromName.cpp', 'DrbgFromName.cpp', 'PrngFromName.cpp', 'ProviderFromName.cpp', 'StreamCipherFromName.cpp', 'AsymmetricCipherFromName.cpp', 'Digests.cpp', 'Macs.cpp'], [('factories', '*FromName::GetInstance'), ('conversions', '*Convert::ToName/FromName')], ['*FromName', '*Convert'],
 'Exhaustive over enumeration values, randomised over names.', 'exhaustive and generated-input testing')

prop('C32', 'Independent objects can be used from several threads',
 'Objects used by one thread each compute the same results as in one thread, whatever the interleaving, and the library\'s own worker threads never race with one another or with the caller.',
 ['schedules'], 'all thread schedules of independent objects and of the parallel paths',
 'Tests are single threaded and cannot observe races.',
 ['ParallelTools.cpp', 'CTR.cpp', 'SHA2256.cpp', 'CpuDetect.cpp', 'SecureRandom.cpp'], [('worker threads', 'ParallelTools::ParallelFor'), ('shared statics', 'CpuDetect and class statics')], ['any API from several threads'],
 'Randomised schedules under the thread sanitizer with results compared to a single-threaded run.', 'property-based concurrency testing under ThreadSanitizer')

prop('C33', 'Serialised algorithm parameters describe the same function',
 'Tree and cipher parameter sets serialise to bytes from which an equal set is restored, and a hash made with the restored set equals one made with the original. Byte strings that are too short are refused without reading outside them.',
 ['inputs', 'configurations'], 'all parameter values and byte strings',
 'Tests serialise default sets.',
 ['SHA2Params.cpp', 'BlakeParams.cpp', 'KeccakParams.cpp', 'SkeinParams.cpp'], [('serialisation', 'ToBytes and the byte-array constructors')], ['*Params::ToBytes'],
 'Randomised search and mutation.', 'property-based testing: round-trip, mutation')

prop('C34', 'Secure memory allocation never hands out overlapping or foreign memory',
 'For every sequence of allocations, reallocations, resizes and releases, the secure allocators and the pool return memory that is aligned, disjoint from every live block, of at least the requested size, cleared, and holds what its owner wrote until its owner releases it; released memory is erased and can be given out again (when all blocks are back, all of the pool is), foreign memory is refused, sizes that overflow and failures of the system calls are reported without losing memory, and the functions that copy, move, insert and extract between ordinary and secure vectors do exactly that to exactly the elements named.',
 ['histories', 'fault_sequences'], 'all allocation histories and failures of the locking calls',
 'Tests allocate and free a few blocks.',
 ['SecureMemory.cpp', 'MemoryPool.cpp', 'SecureVector.h'], [('pool bookkeeping', 'MemoryPool::Allocate/Deallocate'), ('locking', 'SecureMemory::Allocate/Free')], ['SecureVector', 'SecureMemory', 'MemoryPool'],
 'Randomised search against an interval model with injected failures.', 'stateful model-based testing with injected faults')
prop('C36', 'Processor detection and the parallel profile are valid on every machine',
 'Whatever the processor, the operating system and the number of cores report, the library detects exactly the instruction sets that both of them support, and every parallel profile it builds is one the library accepts: a positive degree, by default no larger than the processors there are, and a block size that is a multiple of the minimum size and not below it while parallel; and what any object computes does not depend on the machine.',
 ['inputs', 'configurations'], 'all processors (cpuid and xgetbv answers, core counts including unknown), all profiles derived from them',
 'Tests run on the one processor of the build machine.',
 ['CpuDetect.cpp', 'ParallelOptions.cpp', 'ParallelTools.h'], [('detection of instruction sets', 'CpuDetect::CpuDetect'), ('parallel profile', 'ParallelOptions::Calculate and SetMaxDegree')], ['CpuDetect', 'ParallelOptions', 'IBlockCipher::ParallelProfile', 'IDigest::ParallelProfile'],
 'Generated machines behind cpuid, xgetbv and hardware_concurrency, against a model of the processor manuals; every object of the library on such a machine against the same object without parallel processing.', 'property-based testing over simulated processors')
prop('C37', 'Objects give back everything they own and leave alone what they were lent',
 'Whatever an object allocates or opens while it lives, including when an operation fails, is given back when it is destroyed, once; a component lent to it (a cipher, digest, mac, generator or provider passed by pointer) is neither destroyed nor left unusable, and one it made itself is destroyed with it.',
 ['histories', 'inputs', 'fault_sequences'], 'all objects and their constructors, all histories of initialisation, use, failure, reset and destruction',
 'Tests never count what was given back, and their processes end before a leak matters.',
 ['BCG.cpp', 'HCG.cpp', 'HMAC.cpp', 'RHX.cpp', 'SHX.cpp', 'SystemTools.cpp', 'CipherStream.cpp', 'DigestStream.cpp'], [('ownership flags', 'm_isDestroyable and DestroyEngine of each class'), ('handles of the system', 'SystemTools and CSP')], ['constructors and destructors of all classes'],
 'Generated histories in a process that counts live blocks and open handles of a simulated operating system; lent components are used again after the borrower is gone; repeated under the address sanitizer for double release.', 'stateful property-based testing with injected faults')
prop('C38', 'Every entropy source a collecting provider names reaches its output',
 'Each source of entropy that a provider names (the system and cpu generators, timers, and for the collectors every table of system and user state they read) influences the bytes it delivers: two machines that differ in that source alone give different output, whichever overload of Generate is used.',
 ['inputs', 'configurations'], 'all states of the machine, all sources of the ACP, ECP, CSP, RDP and CJP providers',
 'Tests look at the statistics of output that a hash function has whitened, which a lost source does not change.',
 ['ACP.cpp', 'ECP.cpp', 'CSP.cpp', 'RDP.cpp', 'CJP.cpp', 'SystemTools.cpp'], [('collection of the seed', 'ACP::Collect and ECP::Collect'), ('system state', 'SystemTools')], ['IProvider::Generate', 'IProvider::Reset'],
 'Metamorphic relation over a simulated machine: copies of one process, equal in every address, differ in one source only.', 'metamorphic property-based testing over a simulated machine')

prop('C39', 'What an object reports about itself is true, and stays true through its history',
 'An object that says it is initialised takes the next legal call and one that says it is not refuses it; IsEncryption and IsSigner name the direction that then works; names, enumerations, block, tag, digest, key and signature sizes do not change with the history and are the sizes actually produced; every combination of sizes listed as legal is taken; IsParallel and ParallelBlockSize are those of the profile; a CTR reports the counter it is at, an HKDF the information and extraction of RFC 5869, a generator its security strength in bits; an exception holds the place, message, code and type it was thrown with and each error code its own description.',
 ['inputs', 'histories', 'configurations'], 'all transforming objects and asymmetric schemes, all histories of keys, calls, resets, refused calls and profile changes; all exception classes and error codes',
 'Tests ask an object what it is once, in one state, and most accessors are never asked at all.',
 ['CTR.cpp', 'CBC.cpp', 'HKDF.cpp', 'CSG.cpp', 'ECDSA.cpp', 'CryptoException.cpp', 'ErrorCodes.cpp', 'DigestFromName.cpp', 'StreamWriter.cpp'], [('the accessors', 'the Accessors section of each class'), ('state flags', 'IsInitialized members of the state classes')], ['IBlockCipher', 'ICipherMode', 'IAeadMode', 'IStreamCipher', 'IMac', 'IDigest', 'IKdf', 'IDrbg', 'IAsymmetricCipher', 'IAsymmetricSigner', 'CryptoException'],
 'Generated histories of every object in which each report is compared with the behaviour that follows it, with what was reported before, and with OpenSSL or the models where a report is a computed value.', 'stateful property-based testing')
