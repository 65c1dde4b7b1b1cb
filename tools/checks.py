CHECKS = {
 'C01': dict(harness='c01_digest', rule='non-trivial: a message longer than one block, or a non-empty message fed in more than one Update call'),
}
CHECKS['C02'] = dict(harness='c02_tree', rule='non-trivial: the message is longer than one block, so more than one leaf or more than one block of a leaf is involved')
CHECKS['C03'] = dict(harness="c03_mac", cpumasks=["", "c"], rule='non-trivial: the message is longer than one block of the MAC, or the object was used before in the case')
CHECKS['C04'] = dict(harness='c04_kdf', rule='non-trivial: the request spans more than one block of the underlying function, or follows another request or keying of the same object')
CHECKS['C05'] = dict(harness='c05_block', rule='non-trivial: more than one block per call, an extended key schedule, or a re-keyed object')
CHECKS['C06'] = dict(harness='c06_modes', rule='non-trivial: the call spans more than one block')
CHECKS['C07'] = dict(harness='c07_padding', rule='non-trivial: a block that is only partly padding, or one built from a valid padding by an alteration')
CHECKS['C24'] = dict(harness='c24_streams', rule='non-trivial: the history writes, or reads from a non-empty stream; for the writer more than one item')
CHECKS['C08'] = dict(harness='c08_processors', rule='non-trivial: the data is longer than one block of the function')
CHECKS['C09'] = dict(harness='c09_aead', cpumasks=['', 'c'], rule='non-trivial: a message longer than one block, or a later message of a session')
CHECKS['C10'] = dict(harness='c10_aead_tamper', rule='non-trivial: every case alters a message, a nonce, a key or associated data')
CHECKS['C11'] = dict(harness='c11_stream', cpumasks=['', 'c'], rule='non-trivial: a message longer than one block of the cipher, or a later message of a session')
CHECKS['C12'] = dict(harness='c12_stream_tamper', rule='non-trivial: every case alters a message, a nonce, a key or associated data')
CHECKS['C13'] = dict(harness='c13_state', rule='non-trivial: the state is saved after a message or a message longer than a block follows, or the state is damaged')
CHECKS['C14'] = dict(harness='c14_kem', rule='non-trivial: every case generates keys and derives a secret on both sides')
CHECKS['C15'] = dict(harness='c15_kem_tamper', rule='non-trivial: every case alters a ciphertext, a key or a length')
CHECKS['C16'] = dict(harness='c16_sign', rule='non-trivial: every case generates or reuses a key pair and signs at least one message, or compares two key generations')
CHECKS['C35'] = dict(harness='c35_onetime', rule='non-trivial: at least two signatures are made with one key')
CHECKS['C17'] = dict(harness='c17_sign_tamper', rule='non-trivial: every case alters a signature, a message, a key or a length')
CHECKS['C18'] = dict(harness='c18_curve', rule='non-trivial: every case computes at least one operation of the field, the scalars, the group or the schemes')
CHECKS['C19'] = dict(harness='c19_drbg', rule='non-trivial: at least one byte was requested of a keyed generator and compared with the model')
CHECKS['C20'] = dict(harness='c20_prng', rule='non-trivial: every case draws from a generator keyed from a recorded source')
CHECKS['C21'] = dict(harness='c21_provider', cpumasks=['', 'T', 'r', 'rT'], rule='non-trivial: at least one request to an available provider, or a fault, or two machines that differ in one source')
CHECKS['C22'] = dict(harness='c22_keys', mix=dict(plain=4, asan=4), rule='non-trivial: a key is serialised, copied, damaged or generated and compared part by part')
CHECKS['C23'] = dict(harness='c23_sealed', rule='non-trivial: a key is sealed and opened again, here or elsewhere')

CHECKS['C25'] = dict(harness='c25_tools', rule='the helper was applied to a non-empty operand', mix=dict(plain=4, asan=4))
CHECKS['C26'] = dict(harness='c26_perm', rule='a variant was compared with an independent model on a generated state', mix=dict(plain=5, asan=3))
CHECKS['C27'] = dict(harness='c27_illegal', rule='a call with illegal parameters was made and judged', mix=dict(plain=4, asan=3))
CHECKS['C28'] = dict(harness='c28_confine', mix={'plain': 3, 'asan': 4}, rule='the ranges lay inside larger vectors')
CHECKS['C29'] = dict(harness='c29_reuse', rule='the object was used before it was initialised for the comparison', mix=dict(plain=5, asan=3))
CHECKS['C31'] = dict(harness='c31_names', rule='a value or a name was converted, or an object was created from it', mix=dict(plain=5, asan=3))
CHECKS['C32'] = dict(harness='c32_threads', rule='the work ran in several threads at once, or was spread over the worker threads of the library', mix=dict(tsan=6, plain=2), sanscale=1.0)
CHECKS['C33'] = dict(harness='c33_params', rule='a parameter set was made, serialised and restored, or a byte string was parsed', mix=dict(plain=3, asan=4))
CHECKS['C36'] = dict(harness='c36_machine', rule='a processor with feature leaves, a setting was changed, or a machine other than eight cores', mix=dict(plain=6, asan=2))
CHECKS['C37'] = dict(harness='c37_owner', rule='a whole life of an object was run six times', mix=dict(plain=5, asan=3))
CHECKS['C38'] = dict(harness='c38_entropy', rule='the same machine gave the same output twice, and one source was then changed', mix=dict(plain=5, asan=2), sanscale=0.5)
CHECKS['C39'] = dict(harness='c39_reports', rule='the object, exception or container was asked what it is or holds, and the answer was compared with what it then did', mix=dict(plain=5, asan=2), sanscale=0.4, cpumasks=['', 'c'])
CHECKS['C34'] = dict(harness='c34_memory', rule='memory was given out or refused, or a secure vector held something', mix=dict(plain=3, asan=4, tsan=1), sanscale=0.6)
CHECKS['C30'] = dict(harness='c30_erase', rule='an object with a key of at least sixteen bytes, or a container with a secret, was destroyed', mix=dict(plain=8))
