"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


F = 'nbc/protocol/format.py'
M = 'nbc/protocol/messages.py'
NOTEST = 'The existing suite has no test for this module at all; '

prop('P01', 'Wire integers and lengths have one exact encoding',
     '''Every fixed-width number field writes exactly its declared width and byte order and reads back the value it was given, for every value in
     the range it accepts. A variable-length integer is written in the shortest form that holds it (1, 3, 5 or 9 bytes) and reads back exactly,
     for every value from 0 to 2^64-1.
     Values outside the range of a field are refused when a message is built, never truncated.''',
     ['inputs'], 'every integer (and float where a field allows it) and every prefix of a byte string',
     NOTEST + 'boundaries such as 0xfd, 0xffff, 2^32 and 2^64-1 need all values, not samples.',
     [F], [('fixed-width numbers', F + ': FtNumber'), ('variable-length integer', F + ': FtVarInteger')])
prop('P02', 'Every protocol message survives serialisation and parsing',
     '''For every message type of the wire protocol and every valid choice of its fields, parsing the serialised message gives back a message of
     the same type with equal fields, and the bytes are those the Bitcoin wire format prescribes (field order, widths, counts, padding of the command,
     magic, length and checksum).
     Re-serialising a parsed message reproduces the bytes it was parsed from whenever these are in canonical form.''',
     ['inputs'], 'all field values of all registered message types: numbers over their full range, strings and arrays up to the stated sizes',
     NOTEST + 'the space of messages is a product of unbounded fields.',
     [F, M], [('compound types', F + ': CompoundType'), ('message framing', M + ': Message.binary/parse')])
prop('P03', 'A frame is accepted only with right magic, checksum and known command',
     '''A received frame is turned into a message only if its magic equals the expected one, its payload matches its checksum and its command names a registered type;
     otherwise parsing ends with the documented error (bad format, unknown command or bad field), whatever the bytes are.
     The message type is decided by the command field alone, and the payload is exactly the number of bytes announced.''',
     ['inputs'], 'all frames: arbitrary magic, command, length, checksum and payload bytes, cut short anywhere',
     NOTEST + 'adversarial and truncated frames are an unbounded input space.',
     [M], [('frame parsing', M + ': Message.parse'), ('registry', M + ': Message.register')])
prop('P04', 'Arbitrary payload bytes never crash or over-read the message parsers',
     '''For every message type and every payload, however malformed or truncated, parsing either yields a message whose fields all lie within their declared types and limits,
     or fails with the documented parameter error; it never returns shortened fields and never raises anything else.
     The work and the number of items produced are bounded by the payload length, whatever counts the payload claims.''',
     ['inputs'], 'all payload byte strings up to the stated length for all registered types',
     NOTEST + 'untrusted network input: every byte string is possible.',
     [F, M], [('field parsers', F + ': parse methods'), ('count-prefixed sets', F + ': parse_var_set')])
prop('P05', 'IP addresses: accepted exactly when valid, stable through the wire',
     '''Address text is accepted exactly when it is a dotted IPv4 address with four groups 0-255 or a colon IPv6 address (eight groups, or fewer with one double colon), and everything accepted can be serialised.
     Serialising gives the 16-byte network form (IPv4 mapped behind ten zero bytes and ff ff) and parsing those bytes gives a text that denotes the same address.
     Every 16-byte string parses to an accepted address that serialises back to the same 16 bytes.''',
     ['inputs'], 'all 16-byte strings; all address texts built from the stated grammar pieces',
     NOTEST + 'compression forms and group boundaries multiply.',
     [F], [('address text', F + ': FtIPAddress')])
prop('P06', 'Incoming messages do not depend on how the stream is cut',
     '''However the bytes of a peer's stream are split over reads, the node handles exactly the messages framed in the stream, in order, each once, and keeps only the unfinished tail buffered.
     A malformed, unknown or failing message affects only itself: the messages after it are still handled.
     Received byte counters equal the bytes received.''',
     ['inputs', 'schedules'], 'all splits of all streams of up to the stated number of frames and reads, frames with arbitrary content',
     NOTEST + 'segmentation is chosen by the network.',
     ['nbc/node/connection.py', M], [('receive loop', 'nbc/node/connection.py: Connection.handle_read'), ('frame length', M + ': Message.first_msg_len')])
prop('P07', 'Outgoing bytes are sent once, in order, through partial sends',
     '''Whatever number of bytes the socket takes at each write, the bytes put on the wire are exactly the serialised messages in the order they were queued, with nothing lost, repeated or reordered.
     A connection asks to be written exactly while bytes remain, and sent byte counters equal the bytes actually sent.
     A failing socket closes the connection once and does not send more.''',
     ['schedules', 'fault_sequences'], 'all sequences of sends, partial writes and write failures up to the stated length',
     NOTEST + 'partial sends depend on the kernel.',
     ['nbc/node/connection.py'], [('send buffer', 'nbc/node/connection.py: Connection.send_message/handle_write/writable')])
prop('P08', 'A message that could be built can always be serialised',
     '''Building a message succeeds exactly when every field has the declared type, range, length and item count; otherwise it is refused with a parameter or type error.
     Every message that was built serialises without error.
     Optional fields that are missing or invalid take their declared default.''',
     ['inputs'], 'arbitrary values of all Python types a caller may pass, for every field type and every registered message',
     NOTEST + 'validation must agree with serialisation on every value.',
     [F, M], [('validation', F + ': validate methods, CompoundType.__init__')])
prop('P09', 'Transaction and block identities and merkle roots follow the format',
     '''The hash of a transaction is the double SHA-256 of its serialised form, and the hash of a block header is the double SHA-256 of its 80 header bytes, independent of the transaction count that follows.
     The merkle root of any list of transactions is the Bitcoin merkle tree over their hashes, with the last hash of an odd level paired with itself.
     The 80-byte header serialises the header fields in order, little-endian.''',
     ['inputs'], 'all field values; lists of up to the stated number of transactions',
     NOTEST + 'odd levels occur at many list sizes.',
     [F, 'nbc/util/__init__.py'], [('hash', F + ': Txn.hash, BlockHeader.hash'), ('merkle root', 'nbc/util/__init__.py: get_merkle_root')])
prop('P10', 'Base58 and Base58Check are lossless and reject corruption',
     '''Decoding an encoded byte string gives back that byte string for every input, including any number of leading zero bytes, and the text is the standard base58 number with one "1" per leading zero byte.
     Checked decoding returns the payload exactly when the last four bytes are the double SHA-256 checksum of the rest, and nothing otherwise.
     Text with characters outside the alphabet is refused.''',
     ['inputs'], 'all byte strings and all texts of the stated lengths',
     NOTEST + 'carries and leading zeros depend on all digits.',
     ['nbc/util/base58.py'], [('codec', 'nbc/util/base58.py: b58encode/b58decode'), ('checksum', 'nbc/util/base58.py: encode_check/decode_check')])
prop('P11', 'WIF private keys round-trip and bad ones are refused',
     '''A 32-byte private key exported in wallet import format (plain, or with the compression flag) imports back to the same 32 bytes.
     Import fails with a value error for any text whose checksum, prefix byte, length or compression flag is wrong; it never returns a key for such text.
     The length of the decoded text decides between the plain and the compressed form.''',
     ['inputs'], 'all 32-byte keys and all decoded contents of the stated lengths',
     NOTEST + 'any byte of the text may be wrong.',
     ['nbc/util/key.py'], [('export', 'nbc/util/key.py: privkey_to_wif'), ('import', 'nbc/util/key.py: privkey_from_wif')])
prop('P12', 'Public keys compress and decompress to the same point',
     '''Compressing an uncompressed public key keeps its x coordinate and the parity of y, and decompressing that gives back the same point, in every place that (de)compresses points.
     Decompression accepts exactly the encodings of points of the curve (33 bytes with header 2 or 3, or 65 bytes with header 4) and refuses everything else with a value error.''',
     ['inputs'], 'all curve points and all byte strings of the stated lengths',
     NOTEST + 'half of all points have odd y, and invalid x values are half of all x.',
     ['nbc/util/key.py', 'nbc/wallet/hdwallet.py'], [('keys', 'nbc/util/key.py: compress_public_key/decompress_public_key'), ('HD keys', 'nbc/wallet/hdwallet.py: point_compress/point_decompress')])
prop('P13', 'An address is determined by key, form, network and chain number',
     '''The address of a wallet is the checked base58 text of the network version, the 16-bit chain number in lower-case hexadecimal and the SHA-256 of the two RIPEMD-160 hashes of the halves of the SHA-512 of the public key in its compressed or uncompressed form.
     A wallet made from a private key has that key's public key; converting between compressed and uncompressed form keeps the key, chain number and network, and converting there and back gives the same address.
     Invalid keys are refused.''',
     ['inputs'], 'all private keys, all points, all chain numbers, both networks and forms',
     NOTEST + 'key material and chain numbers are unbounded inputs.',
     ['nbc/wallet/address.py', 'nbc/util/key.py'], [('wallet', 'nbc/wallet/address.py: Address'), ('address text', 'nbc/util/key.py: publickey_to_address')])
prop('P14', 'A saved wallet loads back the same, and a failed save loses nothing',
     '''Saving a wallet and loading it with the same passphrase gives back a wallet with the same keys, address, chain number, network and HD position, with or without encryption.
     If saving fails or is interrupted at any point, the file still holds the complete previous wallet or the complete new one.
     Encrypted files do not contain the private key in clear.''',
     ['inputs', 'crash_points', 'fault_sequences'], 'all wallets of all kinds, all passphrases up to the stated length, a crash or error at any file operation',
     NOTEST + 'crash points and key bytes cannot be enumerated by tests.',
     ['nbc/wallet/__init__.py', 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py'],
     [('files', 'nbc/wallet/__init__.py: saveTo/loadFrom'), ('records', 'nbc/wallet/address.py, hdwallet.py: dump_to_cfg/load_from_cfg'), ('encryption', 'nbc/wallet/address.py: _aesEncrypt/_aesDecrypt')])
prop('P15', 'HD child derivation follows BIP32 and commutes with going public',
     '''Child keys, chain codes, depths, child numbers and parent fingerprints are those BIP32 prescribes, for hardened and normal indexes, and children keep the chain number and network of their parent.
     Deriving a normal child from the public part of a wallet gives the public part of the child derived from the private wallet.
     Hardened derivation without the private key, derivation beyond depth 255 and invalid indexes are refused.''',
     ['inputs', 'histories'], 'all parent keys, chain codes, depths and indexes',
     NOTEST + 'all 2^32 indexes and all keys are allowed.',
     ['nbc/wallet/hdwallet.py'], [('derivation', 'nbc/wallet/hdwallet.py: HDWallet.child'), ('master', 'nbc/wallet/hdwallet.py: from_master_seed')])
prop('P16', 'Extended keys round-trip in BIP32 layout and corruption is refused',
     '''The extended key text is the base58 of the 78-byte BIP32 layout (version for network and kind, depth, parent fingerprint, child number, chain code, key) and its four-byte checksum.
     Importing an exported extended key gives a wallet with the same key, chain code, depth, parent fingerprint, child number and network.
     Text of another length, with a wrong checksum, an unknown version or invalid key data is refused.''',
     ['inputs'], 'all wallets and all 82-byte contents',
     NOTEST + 'every byte of the text can be corrupted.',
     ['nbc/wallet/hdwallet.py'], [('export', 'nbc/wallet/hdwallet.py: to_extended_key'), ('import', 'nbc/wallet/hdwallet.py: from_extended_key')])
E = 'nbc/util/ecdsa/'
prop('P17', 'ECDSA: signatures verify, and only valid ones do',
     '''A signature made with a private key over a message verifies under the matching public key.
     Verification accepts a pair (r, s) exactly when 1 <= r, s < n and the ECDSA equation holds, and answers false (never an unexpected error) for every other signature, malformed DER and malformed public keys included.
     Signing produces r and s in range from the ECDSA formula for every key, digest and nonce.''',
     ['inputs'], 'all keys, digests, nonces and signatures over the abstract group of prime order and over small curves; all DER byte strings up to the stated length',
     'The suite checks known vectors and random round trips; the exceptional cases (points at infinity, r >= n, s = 0) have negligible probability there.',
     [E + 'ecdsa.py', E + 'keys.py', 'nbc/util/ecc.py'], [('verification', E + 'ecdsa.py: Public_key.verifies'), ('signing', E + 'ecdsa.py: Private_key.sign'), ('wallet signatures', 'nbc/util/ecc.py: sign/verify')])
prop('P18', 'DER encodings round-trip and malformed DER is refused',
     '''Every integer, octet string, bit string, object identifier, sequence and tagged value encodes to its DER form and decodes back to the same value with the rest of the input untouched.
     Decoding arbitrary bytes gives a value or the DER error, never another failure, and never reads beyond the buffer.
     Signatures, signing keys and verifying keys exported as strings or DER import back as the same values, and a DER signing key written without its leading zero bytes is still that key.''',
     ['inputs'], 'all values and byte strings up to the stated sizes, all supported curves',
     'The suite decodes a handful of fixed encodings; lengths at 127/128/255/256 bytes and truncations are not covered.',
     [E + 'der.py', E + 'keys.py', E + 'util.py'], [('DER', E + 'der.py'), ('signature encodings', E + 'util.py: sigencode_*/sigdecode_*'), ('keys', E + 'keys.py: to_der/from_der')])
prop('P19', 'Deterministic nonces follow RFC 6979',
     '''For every curve order, private key, hash and digest the deterministic nonce is the one RFC 6979 prescribes and lies in [1, n-1], including when candidates have to be rejected.
     Deterministic signing uses that nonce, so the same key and digest always give the same signature.''',
     ['inputs'], 'all keys and digests, group orders of any bit length up to the stated size, up to the stated number of rejected candidates',
     'Published vectors never exercise rejection or group orders whose bit length is not that of the hash.',
     [E + 'rfc6979.py', E + 'keys.py'], [('nonce', E + 'rfc6979.py: generate_k'), ('conversions', E + 'rfc6979.py: bits2int/bits2octets')])
prop('P20', 'Random scalars always lie in [1, n-1] whatever the entropy',
     '''Secret numbers drawn from an entropy source are always in [1, n-1], for every order and every byte the source returns, and every such number can be drawn.
     The seeded variants are functions of the seed alone and stay in the same range.''',
     ['inputs'], 'all entropy byte sequences, orders up to the stated size, up to the stated number of retries',
     'The suite samples a few thousand random draws; boundary draws have negligible probability.',
     [E + 'util.py'], [('random scalar', E + 'util.py: randrange'), ('seeded scalar', E + 'util.py: randrange_from_seed__*')])
prop('P21', 'Curve point arithmetic is the group law',
     '''Adding, doubling and multiplying points gives the result of the elliptic curve group law for every pair of points, equal, opposite and infinite ones included, with coordinates reduced modulo the field prime.
     Multiplication by a scalar equals repeated addition for every scalar, and the order times a point is infinity.
     A point is accepted only if it lies on its curve.''',
     ['inputs'], 'all points and scalars of the stated small curves; all coordinates of the production curves for single group operations',
     'The suite checks a few fixed points; special cases at opposite points and order-two points are not reached.',
     [E + 'ellipticcurve.py'], [('addition, doubling, multiplication', E + 'ellipticcurve.py: Point')])
prop('P22', 'Modular arithmetic: inverses, square roots and powers are exact',
     '''The modular inverse times its argument is one modulo the modulus for every invertible argument; the modular square root squared is its argument for every quadratic residue, and non-residues are refused.
     Modular powers, greatest common divisors, least common multiples, factorisations, totients, orders and Jacobi symbols agree with their mathematical definitions.''',
     ['inputs'], 'all arguments for the stated moduli',
     'The suite samples small primes; the branches for p = 5 mod 8 and p = 1 mod 8 and non-residues need all arguments.',
     [E + 'numbertheory.py'], [('number theory', E + 'numbertheory.py')])
A = 'nbc/util/pyaes/'
prop('P23', 'The AES block cipher is FIPS-197 AES for every key and block',
     '''For every key of 16, 24 or 32 bytes and every 16-byte block, encryption gives the FIPS-197 ciphertext and decryption inverts it.
     Keys and blocks of other lengths are refused with a value error.''',
     ['inputs'], 'all keys and blocks (one round at a time against the FIPS-197 definition)',
     NOTEST + 'tables have 256 entries each; one wrong entry shows for few inputs.',
     [A + 'aes.py'], [('cipher', A + 'aes.py: AES')])
prop('P24', 'Cipher modes are those of SP 800-38A and decrypt what they encrypt',
     '''ECB, CBC, CFB, OFB and CTR produce the NIST SP 800-38A output for every key, initial vector or counter, segment size and data, and decrypting gives back the plaintext.
     Stream modes give the same output however the data is split over calls, and the counter advances by one per block, wrapping at 2^128.
     Inputs of a length the mode cannot process are refused.''',
     ['inputs', 'histories'], 'all data up to the stated length, all splits, all IVs and counters, an arbitrary block cipher',
     NOTEST + 'splits and counter wrap-around are histories.',
     [A + 'aes.py'], [('modes', A + 'aes.py: AESModeOfOperation*'), ('counter', A + 'aes.py: Counter')])
prop('P25', 'Padding and the streaming feeder return exactly the data, for any chunking',
     '''PKCS7 padding extends data to a whole number of blocks and stripping it returns the data; malformed padding is refused.
     Feeding data to an encrypter in any chunks and the result to a decrypter in any chunks returns the original data, for every mode and every data length, and the ciphertext does not depend on the chunking.
     A finished feeder refuses further data.''',
     ['inputs', 'histories'], 'all data lengths up to the stated bound, all chunkings, an arbitrary block cipher',
     NOTEST + 'chunkings are histories.',
     [A + 'blockfeeder.py', A + 'util.py'], [('feeder', A + 'blockfeeder.py: BlockFeeder'), ('padding', A + 'util.py')])
prop('P26', 'Split keys combine to the original key and piecewise addresses match',
     '''Combining all parts of a split private key gives the original key, for every number of parts, and every part is itself a valid private key text.
     The address computed from a public key and a private part is the address of the combined private key.''',
     ['inputs'], 'all keys and random parts, up to the stated number of parts',
     NOTEST + 'reduction modulo the group order depends on the sum of all parts.',
     ['nbc/util/piecewise.py'], [('split and combine', 'nbc/util/piecewise.py: split_private_key/combine_private_keys'), ('address', 'nbc/util/piecewise.py: get_address')])
N = 'nbc/node/'
prop('P27', 'Node bookkeeping: bans, address book and external address stay correct',
     '''A peer punished more than five times is disconnected and connections from its IP are refused for one hour after, and accepted again afterwards.
     The address book never holds more than its maximum, answers to address requests hold at most 1000 of the most recently seen addresses, and a closed peer's address is forgotten.
     The external address guessed from peers is one reported by most of them.''',
     ['histories', 'inputs'], 'all clock values, peer sets and histories up to the stated length, from an arbitrary valid state',
     NOTEST + 'histories and clocks are chosen by peers.',
     [N + 'basenode.py', N + 'connection.py'], [('bans', N + 'basenode.py: punish_peer/handle_accept'), ('addresses', N + 'basenode.py: command_address/command_get_address/disconnected'), ('external ip', N + 'basenode.py: _check_external_ip')])
prop('P28', 'Target, version and hex helpers are exact',
     '''The proof-of-work target of a compact difficulty is its mantissa scaled by 256 to the power exponent minus three, as a 32-byte big-endian number, and a header meets its target exactly when its hash, read as a little-endian number, does not exceed it.
     Packed protocol versions and byte-reversed hex strings convert back to what they were made from, and version parts out of range are refused.''',
     ['inputs'], 'all compact difficulties, versions, and byte strings up to the stated length',
     NOTEST + 'exponents below three and field boundaries are rare.',
     ['nbc/util/__init__.py'], [('target', 'nbc/util/__init__.py: get_target/verify_target'), ('versions', 'nbc/util/__init__.py: get_version/make_version'), ('hex', 'nbc/util/__init__.py: hex_to_bin/bin_to_hex')])
prop('P29', 'Idle and silent connections are pinged and dropped on time',
     '''A connection that has sent nothing for more than 30 minutes sends a ping, at most one every five minutes; one that has received something and then nothing for more than three hours is closed; others are left alone.
     A received ping is answered by a pong with the same nonce, a received version by an acknowledgement, and the advertised details of the peer are recorded from its version message.
     The node's upkeep runs at most once every ten seconds and tries to reach its wanted number of peers.''',
     ['schedules', 'histories'], 'all clock readings and all previous send, receive and ping times',
     NOTEST + 'timing is a schedule.',
     [N + 'connection.py', N + 'basenode.py'], [('timers', N + 'connection.py: Connection.readable'), ('handshake', N + 'connection.py: handle_message'), ('upkeep', N + 'basenode.py: items/heartbeat')])
prop('P30', 'ECDH: both sides derive the same shared secret',
     '''For every two key pairs, the secret derived from one side's public key and the other side's private key is the 32-byte x coordinate of the product point, so both sides derive the same secret,
     and the form (compressed or not) of the public key and of the private key text makes no difference.
     A public key that is malformed or not on the curve, and a private key text with another prefix or compression byte, is refused with a value error; no secret is ever derived from it.''',
     ['inputs'], 'all pairs of private keys in [1, n-1], all public key bytes of the stated lengths',
     NOTEST + 'agreement must hold for every pair of keys, and the refused encodings are nearly all byte strings.',
     ['nbc/util/ecc.py', 'nbc/util/key.py'], [('shared secret', 'nbc/util/ecc.py: shared_secret'), ('decompression', 'nbc/util/key.py: decompress_public_key')])
prop('P31', 'Discovery: seeds, coins and height estimates report what was found',
     '''Every address a DNS seed resolves to is handed out exactly once, whichever seeds fail and in whatever order they answer. A coin is found by its name or symbol in any letter case and by nothing else.
     A height is the integer at the given path of objects and lists of a JSON answer (or the answer itself for a plain one), and nothing when the path leads nowhere or the answer is no number.
     An estimate returns exactly what the sources answered within the timeout, each under its own name, waits for silent ones no longer than the timeout, and is not changed by answers that arrive later.''',
     ['inputs', 'schedules'], 'all orders and durations of answers, all answers of the stated shapes',
     NOTEST + 'which source answers when is up to the network.',
     ['nbc/util/bootstrap.py', 'nbc/util/__init__.py', 'nbc/coins/__init__.py'], [('seeds', 'nbc/util/bootstrap.py: DNSSeeder'), ('estimates', 'nbc/util/__init__.py: guess_block_height'), ('coin lookup', 'nbc/coins/__init__.py: get_coin')])

NA = {}
if os.path.exists(os.path.join(V, 'tools', 'na.json')):
    NA = json.load(open(os.path.join(V, 'tools', 'na.json')))

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='symbolic execution of the real Python code with z3 (path exploration, obligations discharged by the solver, counterexamples replayed)',
                           level='model_checking',
                           level_note='holds for every value within the bounds listed in the evidence file; bounds and stubs in DESIGN.md'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet: the harness for this property has not been written')))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na,
                   notes='engine in symx/, one harness module per property in checks/; see DESIGN.md'), f, indent=1)
print(len(P), 'properties', len(checks), 'claimed')
