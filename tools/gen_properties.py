#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
NODE = ['nbc/node/basenode.py', 'nbc/node/connection.py']
NOT = 'No test imports nbc.node at all (asyncore is gone from the installed Python); '

prop('C01', 'Message delivery does not depend on network fragmentation',
 'However the bytes a peer sends are split into reads, the node handles exactly the complete messages contained in that stream, each once and in order, and keeps an incomplete tail until the rest arrives. A message with a wrong network magic, a wrong checksum or an unknown command is reported as invalid exactly once, and a message whose handling fails is skipped; neither affects the other messages of that peer or any other peer.',
 ['schedules', 'inputs', 'histories'], 'every byte stream, every way of cutting it into reads, every interleaving of the reads of several peers',
 NOT + 'fragmentation and interleavings form an unbounded space that no example list settles.',
 NODE + ['nbc/protocol/messages.py'],
 [('receive buffer', 'bytes received and not yet consumed', 'nbc/node/connection.py Connection.handle_read')],
 [('read loop: length of first message, slice, parse, dispatch', 'nbc/node/connection.py Connection.handle_read'), ('frame length and header parsing', 'nbc/protocol/messages.py Message.first_msg_len, Message.parse')],
 ['calls of command_* and invalid_command on the node', 'bytes received counters'])
prop('C02', 'Outgoing bytes are exactly the queued messages, in order',
 'Whatever amounts the socket accepts per write, the bytes transmitted to a peer are always a prefix of the concatenation of the serialised messages queued for that peer, with nothing lost, duplicated or reordered, and all of it is transmitted once the socket accepts enough. Every connection opens with exactly one version message carrying the node\'s protocol version, services, current time, user agent, chain height and both addresses. The transmitted and received byte counts of each peer equal the bytes that actually passed.',
 ['schedules', 'histories', 'fault_sequences'], 'every sequence of queued messages, partial, refused and failing writes, interleaved over peers',
 NOT + 'partial writes depend on the schedule of the network.',
 NODE, [('send buffer', 'bytes queued and not yet accepted by the socket', 'nbc/node/connection.py Connection')],
 [('append on send, cut by the amount accepted', 'nbc/node/connection.py send_message, handle_write, writable')],
 ['bytes given to the socket', 'tx_bytes / rx_bytes of the peer'])
prop('C03', 'Peer conversation follows the protocol',
 'Every version message is answered with one verack, every ping with one pong carrying the same nonce, every getaddr with one addr message, and no other incoming message makes the node send anything. The services, version, height, user agent, relay flag and observed external address a peer advertises in its latest version message are exactly what the node reports for that peer, and the peer counts as acknowledged only after it sent a verack.',
 ['histories', 'inputs'], 'every history of messages from every set of peers',
 NOT + 'the reply depends on the whole history of the conversation.',
 NODE, [('peer details', 'services, version, height, agent, relay, external address, acknowledged', 'nbc/node/connection.py Connection')],
 [('dispatch to command handlers', 'nbc/node/connection.py handle_message'), ('handlers', 'nbc/node/basenode.py command_*')],
 ['bytes sent to the peer', 'public peer attributes'])
prop('C04', 'The address book is bounded, current and served newest first',
 'The addresses a node knows are those of acknowledged peers and those received in addr messages, with the timestamp and services last reported, minus the addresses of peers that have since disconnected or could not be reached; it never keeps more than 2500. A getaddr reply contains at most 1000 of the known addresses with known services, without duplicates, most recent first, each with its recorded timestamp and services.',
 ['histories', 'inputs', 'fault_sequences'], 'every history of addr/verack/getaddr messages, connects, disconnects and failed connects',
 NOT + 'bounds and ordering are reached only by long histories.',
 NODE, [('address book', 'map from (ip, port) to (timestamp, services)', 'nbc/node/basenode.py BaseNode')],
 [('command_address, command_version_ack, command_get_address, disconnected', 'nbc/node/basenode.py')],
 ['addr messages sent', 'addresses the node dials'])
prop('C05', 'Misbehaving peers are banned for one hour, by IP',
 'A peer whose accumulated penalty exceeds five is disconnected at once and every incoming connection from its IP address, whatever the port, is refused during the following hour and accepted again after it, while peers from other IP addresses are unaffected. Penalties fall by one per maintenance round and never below zero.',
 ['histories', 'schedules'], 'every history of penalties, maintenance rounds, reconnects from the same or other ports, and passing time',
 NOT + 'needs time to pass and reconnects from different ports.',
 NODE, [('banned', 'time of ban per IP', 'nbc/node/basenode.py BaseNode'), ('ban score', 'penalties of one peer', 'nbc/node/connection.py Connection')],
 [('punish_peer, handle_accept', 'nbc/node/basenode.py'), ('add_banscore, reduce_banscore', 'nbc/node/connection.py')],
 ['whether an incoming socket is closed or becomes a peer', 'banscore of a peer'])
prop('C06', 'The peer set stays within its limits',
 'The node never dials an address it is already connected to nor its own listening address, and an unforced dial never exceeds the configured maximum number of connections. Maintenance runs at most once per ten seconds, dials at most five addresses per round and only while it has fewer peers than it seeks, asks a peer for addresses while it knows fewer than fifty, and a node that does not listen drops every incoming connection. A connection that is closed by either side, fails, or is removed on request disappears from the peer set, its socket is closed, and the other connections are unaffected.',
 ['histories', 'schedules', 'fault_sequences'], 'every history of dial requests, accepts, connect failures, socket errors, closes, removals and timer ticks',
 NOT + 'limits depend on histories of connects and failures.',
 NODE, [('peers', 'map of live channels', 'nbc/node/basenode.py BaseNode')],
 [('add_peer, remove_peer, add_any_peer, heartbeat, handle_accept', 'nbc/node/basenode.py'), ('handle_close, handle_error', 'nbc/node/connection.py')],
 ['peers of the node', 'sockets created and closed'])
prop('C07', 'Idle connections are pinged, dead ones dropped',
 'A connection on which nothing has been sent for more than 30 minutes gets a ping, at most one per five minutes; a connection from which nothing has been received for more than three hours is closed, and never earlier for that reason. A connection that has not yet transferred anything is neither pinged nor timed out.',
 ['schedules', 'histories'], 'every history of traffic and passing time',
 NOT + 'needs hours of (virtual) time.',
 NODE, [('last sent, last received, last ping times', 'activity clock of a connection', 'nbc/node/connection.py Connection')],
 [('readable', 'nbc/node/connection.py')], ['bytes sent', 'sockets closed'])
prop('C08', 'The node believes the majority about its own address',
 'Unless it was set explicitly, the external IP address of the node is, after each version message, one that the largest number of currently connected peers reported; one or a few dishonest peers cannot override a larger group. An explicitly set external address always wins, and it is the address announced in later version messages.',
 ['histories', 'inputs'], 'every history of version messages, connects and disconnects and explicit settings',
 NOT + 'the answer is a function of the whole set of peers.',
 NODE, [('guessed external address', 'majority answer', 'nbc/node/basenode.py BaseNode')],
 [('_check_external_ip, connected', 'nbc/node/basenode.py')], ['external_ip of the node', 'addresses in outgoing version messages'])
prop('C09', 'Messages are encoded in the Bitcoin layout and decode back unchanged',
 'Serialising any message of a registered type yields network magic, the zero padded command, payload length, first four bytes of the double SHA-256 of the payload, and the fields in the Bitcoin wire layout (little endian integers, big endian ports, variable length integers up to 64 bits, IPv4 addresses mapped into IPv6, length prefixed strings and lists). Decoding those bytes yields a message of the same type whose fields equal the original ones (times truncated to whole seconds, a missing relay flag read as true), for every value the fields can hold. Transaction and block header identifiers are the double SHA-256 of their serialisation, of the first 80 bytes for headers.',
 ['inputs'], 'every message type and every value of every field, in particular all length and integer boundaries',
 'No test touches nbc.protocol; boundary values of nested variable length fields cannot be sampled by a handful of examples.',
 ['nbc/protocol/format.py', 'nbc/protocol/messages.py'], [],
 [('binary/parse of every format type', 'nbc/protocol/format.py'), ('header', 'nbc/protocol/messages.py Message.binary, Message.parse')],
 ['Message.binary', 'Message.parse', 'attributes of parsed messages'])
prop('C10', 'Malformed network data is never turned into a message',
 'A frame with a foreign magic or a payload that does not match its checksum is rejected as badly formatted, an unregistered command is rejected as unknown, and a payload that ends before its declared fields do is rejected; message types marked as not to be registered are treated as unknown. Rejection is an exception raised promptly, never a message with shortened or invented fields and never a loop over a declared but absent number of items.',
 ['inputs'], 'every corruption (any byte changed, any truncation, any declared length) of every message type',
 'No test touches nbc.protocol; the corruptions of one frame alone are thousands.',
 ['nbc/protocol/format.py', 'nbc/protocol/messages.py'], [],
 [('magic, checksum, command lookup', 'nbc/protocol/messages.py Message.parse'), ('length checks', 'nbc/protocol/format.py parse methods'), ('registration', 'nbc/protocol/format.py _AutoRegister')],
 ['Message.parse'])
prop('C11', 'Only serialisable values are accepted into messages',
 'Building a message accepts a value exactly when it fits its field: integers within the range of their width, byte strings of the exact length, IPv4 or full or abbreviated IPv6 addresses, lists within their limits, and exactly the named fields. Anything accepted can be serialised, and everything else is refused at construction.',
 ['inputs'], 'every field of every message type, every value around and beyond its limits, every combination of missing, repeated and unknown fields',
 'No test touches nbc.protocol.',
 ['nbc/protocol/format.py', 'nbc/protocol/messages.py'], [],
 [('validate of every format type', 'nbc/protocol/format.py'), ('argument handling', 'nbc/protocol/format.py CompoundType.__init__')],
 ['message constructors', 'Message.binary'])
prop('C12', 'Base58Check text is unique, reversible and detects corruption',
 'Base58 encoding maps every byte string, including leading zero bytes and the empty string, to its Bitcoin base58 text, and decoding returns exactly the original bytes. Checked encoding appends the four byte double SHA-256 checksum; checked decoding returns the payload for exactly the texts produced by checked encoding and nothing for any text whose checksum does not match.',
 ['inputs'], 'every byte string and every text over the alphabet',
 'The existing tests never call base58.',
 ['nbc/util/base58.py'], [], [('b58encode, b58decode, encode_check, decode_check', 'nbc/util/base58.py')],
 ['b58encode', 'b58decode', 'encode_check', 'decode_check'])
prop('C13', 'Key encodings are lossless and reject what is not a key',
 'Exporting a private key to wallet import format and importing it returns the same 32 byte key, for compressed and uncompressed keys and under every version byte the caller names, and text with a wrong checksum, prefix, length or compression marker is refused. Compressing a public key and decompressing it returns the same point for both parities, decompressing never yields a point off the curve, and data that is not a valid public key is refused.',
 ['inputs'], 'every private key in range including those with leading zero bytes, every public key, every corruption',
 'The existing tests never call these functions.',
 ['nbc/util/key.py'], [], [('privkey_to_wif, privkey_from_wif, compress_public_key, decompress_public_key', 'nbc/util/key.py')],
 ['privkey_to_wif', 'privkey_from_wif', 'compress_public_key', 'decompress_public_key'])
prop('C14', 'A wallet address is determined by its key, chain number and network',
 'The public key of a wallet is the private key times the generator, its textual address is the checked base58 text of network byte, four digit chain number and the hash of the public key, and both are the same every time the same key, chain number and network are used. Converting between compressed and uncompressed form keeps key, chain number and network and converting back restores the original; two different public keys, chain numbers or networks never share an address. Newly generated keys are drawn from the whole range, independent of chain number and network. Giving both a private and a public key, or text that is neither, is refused, and printing a wallet never reveals the private key.',
 ['inputs', 'programs'], 'every key, chain number, network and every sequence of conversions',
 'nbc.wallet has no tests.',
 ['nbc/wallet/address.py', 'nbc/util/key.py'], [('address object', 'private key, public key, chain number, network, compression', 'nbc/wallet/address.py Address')],
 [('Address constructor, compress, decompress, publicKey, generate', 'nbc/wallet/address.py'), ('publickey_to_address', 'nbc/util/key.py')],
 ['attributes of Address'])
prop('C15', 'A saved wallet loads back as the same wallet',
 'For every wallet, simple or hierarchical, with private key or watch-only, on either network, saving it with or without a passphrase and loading it with the same passphrase yields a wallet with the same keys, address, chain number, network and, for hierarchical wallets, the same chain code, depth, parent fingerprint and child number. Saving a wallet again and loading again changes nothing.',
 ['inputs', 'histories'], 'every wallet, passphrase and sequence of save and load, including keys with leading zero bytes',
 'nbc.wallet has no tests.',
 ['nbc/wallet/__init__.py', 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py'], [('wallet file', 'JSON record on disk', 'nbc/wallet/__init__.py')],
 [('saveTo, loadFrom', 'nbc/wallet/__init__.py'), ('dump_to_cfg, load_from_cfg', 'nbc/wallet/address.py, nbc/wallet/hdwallet.py')],
 ['saveTo', 'loadFrom'])
prop('C16', 'A passphrase protects the private key in the wallet file',
 'A wallet file saved with a passphrase contains the private key only encrypted: AES-128-CBC under the first 16 bytes of the passphrase, zero padded, never in clear or in import format. Loading it with a passphrase that differs in those 16 bytes, or loading a damaged file, never yields a wallet with another private key.',
 ['inputs', 'fault_sequences'], 'every wallet, pair of passphrases and single byte damage of the stored key',
 'nbc.wallet has no tests.',
 ['nbc/wallet/address.py', 'nbc/wallet/hdwallet.py'], [('prvkey field', 'hex of the encrypted, length prefixed key', 'nbc/wallet/address.py')],
 [('_aesEncrypt, _aesDecrypt, length check', 'nbc/wallet/address.py'), ('load_from_cfg', 'nbc/wallet/hdwallet.py')],
 ['wallet file contents', 'loadFrom'])
prop('C17', 'Saving a wallet never loses the one already on disk',
 'If saving a wallet over an existing file is interrupted at any point, be it by an exception, the end of the process or a loss of power, or fails because the disk is full or the wallet cannot be serialised, loading the file afterwards yields either the previous or the new wallet completely. When saving returns normally the file holds the new wallet.',
 ['crash_points', 'fault_sequences', 'histories'], 'every crash point and write failure during every sequence of saves',
 'nbc.wallet has no tests; crash points need fault injection.',
 ['nbc/wallet/__init__.py'], [('wallet file', 'JSON record on disk', 'nbc/wallet/__init__.py')],
 [('saveTo', 'nbc/wallet/__init__.py')], ['file contents after a crash', 'loadFrom'])
prop('C18', 'Hierarchical key derivation is deterministic, standard and consistent',
 'Deriving a child from a wallet follows BIP-32 for every index: the master key comes from the seed, normal children are derivable from private and from public parents with the same public key, chain code and identity, hardened children only from private parents. The same seed and path always give the same keys and the same address, children keep the network and chain number of the parent, depth counts the path length and cannot exceed 255, and a public-only wallet never yields private keys. Where BIP-32 knows no child, because the keyed hash is no scalar or the child has no key, and from keys or chain codes out of range, no wallet is made.',
 ['inputs', 'programs'], 'every seed, every derivation path mixing normal and hardened steps and dropping the private key at any step',
 'nbc.wallet has no tests.',
 ['nbc/wallet/hdwallet.py'], [('node of the tree', 'key, chain code, depth, parent fingerprint, child number', 'nbc/wallet/hdwallet.py HDWallet')],
 [('from_master_seed, child, fingerprint', 'nbc/wallet/hdwallet.py')], ['prvkey, pubkey, chain, depth, fingerprint, parentfp, childnum, address of a wallet'])
prop('C19', 'Extended keys export and import the same hierarchical wallet',
 'Exporting a hierarchical wallet yields the 111 character BIP-32 extended key text for its network, private or public as requested, and importing it yields a wallet with the same key, chain code, depth, parent fingerprint, child number and network that derives the same children. A public export never contains the private key, exporting the private key of a public-only wallet is refused, and text with a wrong checksum, length, version or key prefix is refused.',
 ['inputs', 'programs'], 'every wallet node and every corruption of the text',
 'nbc.wallet has no tests.',
 ['nbc/wallet/hdwallet.py'], [], [('to_extended_key, from_extended_key, point_compress, point_decompress', 'nbc/wallet/hdwallet.py')],
 ['to_extended_key', 'from_extended_key'])
prop('C20', 'Wallet signatures verify exactly for the signed data and key',
 'A signature made by a wallet for some data is accepted for that data by the wallet, by every wallet or key holding the same public key in compressed or uncompressed form and after saving and loading, and is a valid secp256k1 ECDSA signature of the double SHA-256 of the data. It is not accepted for other data, for another key, or after altering either of its two numbers (except that negating the second modulo the group order gives the other valid signature), and a wallet without private key cannot sign.',
 ['inputs', 'programs'], 'every wallet, data and altered signature',
 'nbc.wallet and nbc.util.ecc have no tests.',
 ['nbc/wallet/address.py', 'nbc/wallet/hdwallet.py', 'nbc/util/ecc.py'], [], [('sign, verify', 'nbc/util/ecc.py'), ('sign, verify', 'nbc/wallet/address.py, nbc/wallet/hdwallet.py')],
 ['sign', 'verify'])
prop('C21', 'Elliptic curve points form the group the curve defines',
 'Adding, doubling and multiplying points gives the chord-and-tangent sum on the curve for every pair of points and every multiplier, including equal and opposite points, points of order two, the point at infinity, multiplier zero and multipliers beyond the order. No point off the curve, and none with an order that does not take it to infinity, can be constructed, points of different curves are neither equal nor added, and point validity is reported correctly.',
 ['inputs'], 'all pairs of points and multipliers of small curves, sampled and structured ones of the six standard curves',
 'The self tests compute a few fixed sums; exceptional cases of the group law are reached on small curves only.',
 ['nbc/util/ecdsa/ellipticcurve.py', 'nbc/util/ecdsa/ecdsa.py'], [], [('Point.__add__, double, __mul__', 'nbc/util/ecdsa/ellipticcurve.py'), ('point_is_valid', 'nbc/util/ecdsa/ecdsa.py')],
 ['Point', 'point_is_valid'])
prop('C22', 'ECDSA signing and verification satisfy the ECDSA equations',
 'For every curve, key, nonce and digest, signing yields r = x(kG) mod n and s = (e + d r)/k mod n, and verification accepts a pair exactly when both numbers lie in 1..n-1 and the ECDSA equation holds, and never accepts a pair outside that range. Key objects use the same digest conventions when signing and verifying for every signature encoding, including the low-s form, and refuse digests longer than the curve allows. A public key is a finite point of the group of its generator with reduced coordinates; anything else is refused.',
 ['inputs'], 'all keys, nonces, digests and signature pairs of small groups; structured ones of the standard curves',
 'The tests sign fixed data with random keys; edge pairs (0, n, negated, overlong) are not tried.',
 ['nbc/util/ecdsa/ecdsa.py', 'nbc/util/ecdsa/keys.py', 'nbc/util/ecdsa/util.py'], [], [('Private_key.sign, Public_key.verifies', 'nbc/util/ecdsa/ecdsa.py'), ('SigningKey, VerifyingKey', 'nbc/util/ecdsa/keys.py'), ('sigencode/sigdecode', 'nbc/util/ecdsa/util.py')],
 ['sign', 'verify', 'verify_digest'])
prop('C23', 'Deterministic nonces follow RFC 6979',
 'The deterministic nonce for a key, digest, hash function and group order is the RFC 6979 nonce, lies between 1 and the order minus one, and deterministic signatures therefore depend only on key and data. The retry step is taken exactly as the RFC says when a candidate is out of range.',
 ['inputs'], 'every key, digest length relative to the order, hash function and order, including small orders where retries are frequent',
 'The tests replay the published vectors only; retries and digest/order length combinations are barely covered.',
 ['nbc/util/ecdsa/rfc6979.py', 'nbc/util/ecdsa/keys.py'], [], [('generate_k, bits2int, bits2octets', 'nbc/util/ecdsa/rfc6979.py')],
 ['generate_k', 'sign_deterministic'])
prop('C24', 'Modular arithmetic helpers return what number theory defines',
 'Modular inverse, square root and exponentiation, Jacobi symbol, greatest common divisor, least common multiple, factorisation, Euler and Carmichael functions, multiplicative order, primality, next prime and polynomial remainders, products and powers modulo a prime and a monic polynomial, and the byte strings of integers, return the mathematically defined value for every argument in their domain. Non-residues and negative exponents are refused.',
 ['inputs'], 'all arguments up to bounds, structured large ones',
 'The self tests cover square roots and the Jacobi symbol for small primes and a few gcd values; the rest is untested.',
 ['nbc/util/ecdsa/numbertheory.py'], [], [('inverse_mod, square_root_mod_prime, jacobi, factorization, is_prime, ...', 'nbc/util/ecdsa/numbertheory.py')],
 ['the functions themselves'])
prop('C25', 'DER structures and key files round trip and junk is refused',
 'Every DER length, integer, object identifier, sequence, bit and octet string and tagged value encodes to its unique DER bytes and decodes back, leaving the remaining bytes untouched. Private and public keys of all supported curves exported as raw string, DER or PEM and imported again are the same key, fixed length fields keep leading zeros, and trailing junk, wrong tags, truncated or unknown-curve data is refused.',
 ['inputs'], 'all integer, length and identifier sizes around the encoding boundaries, every supported curve, every single byte truncation and appended junk',
 'The tests cover a few constants and one random key per curve.',
 ['nbc/util/ecdsa/der.py', 'nbc/util/ecdsa/keys.py', 'nbc/util/ecdsa/util.py'], [], [('encode_*, remove_*', 'nbc/util/ecdsa/der.py'), ('to_der, from_der, to_pem, from_pem, to_string, from_string', 'nbc/util/ecdsa/keys.py')],
 ['the functions themselves'])
prop('C26', 'Random and seeded scalars always lie between 1 and the order minus one',
 'Whatever bytes the entropy source returns, a random scalar is between 1 and the order minus one, is a function of the entropy consumed, and every value of the range can occur; out of range candidates are discarded, and a broken source leads to an error instead of an endless loop. Scalars derived from a seed are in range and depend only on seed and order.',
 ['inputs', 'fault_sequences'], 'every entropy stream, including stuck ones, every order',
 'The tests check the range for pseudo random streams only.',
 ['nbc/util/ecdsa/util.py'], [], [('randrange, randrange_from_seed__*, PRNG', 'nbc/util/ecdsa/util.py')], ['randrange', 'randrange_from_seed__trytryagain', 'randrange_from_seed__overshoot_modulo'])
prop('C27', 'AES and its modes compute the standard ciphers on any stream split',
 'Encrypting and decrypting single blocks is AES as in FIPS-197 for 128, 192 and 256 bit keys. The ECB, CBC, CFB, OFB and CTR modes compute the SP 800-38A transformation of the whole stream however it is cut into calls (at block, segment or byte boundaries as the mode allows), decryption inverts encryption, and data of the wrong size is refused without disturbing the stream.',
 ['inputs', 'histories'], 'every key size, mode, segment size, start vector or counter (including counter overflow) and every sequence of call sizes',
 'pyaes has no tests here.',
 ['nbc/util/pyaes/aes.py'], [('chaining state', 'last cipher block, shift register, key stream remainder or counter', 'nbc/util/pyaes/aes.py')],
 [('AES, AESModeOfOperation*, Counter', 'nbc/util/pyaes/aes.py')], ['encrypt', 'decrypt'])
prop('C28', 'Fed streams are padded, encrypted and restored for any chunking',
 'Feeding a byte stream to an encrypter in chunks of any sizes and finishing it produces the encryption of the whole stream (PKCS#7 padded for block modes, same length for the others), independent of the chunking, and feeding that to a decrypter in any other chunking returns the original stream. Feeding after the end, and finishing a decryption with invalid padding or length, is refused.',
 ['histories', 'inputs'], 'every stream length, every chunking of both directions, every mode',
 'pyaes has no tests here.',
 ['nbc/util/pyaes/blockfeeder.py', 'nbc/util/pyaes/util.py'], [('feeder buffer', 'bytes held back until padding can be decided', 'nbc/util/pyaes/blockfeeder.py BlockFeeder')],
 [('feed, _final_encrypt, _final_decrypt', 'nbc/util/pyaes/blockfeeder.py'), ('append/strip padding', 'nbc/util/pyaes/util.py')], ['feed'])
prop('C29', 'Piecewise and split private keys recombine to the original key',
 'Combining private keys gives the key of the sum of their secrets, splitting a key into any number of parts and combining all of them in any order gives the key back, and the address computed from a public key and a partial private key is the address of the combined key. A partial split into several sets restores the key from any required number of sets in any order, returns nothing from fewer, survives its compact text form, and refuses parts that belong to another key and text that is no part or no compact form.',
 ['inputs', 'programs'], 'every key, number of parts, required and total sets, subset and order of sets',
 'piecewise has no tests.',
 ['nbc/util/piecewise.py'], [], [('get_address, combine_private_keys, split_private_key, partial_split_private_key, partial_combine_private_keys, partial_split_qr_encode/decode', 'nbc/util/piecewise.py')], ['the functions themselves'])
prop('C30', 'Concurrent lookups lose nothing and hand out each result once',
 'With any number of seeds resolving concurrently, failing or hanging, in any order, every result of a lookup is handed out exactly once over the life of the seed list, so an address as often as it was found, the reported count equals the addresses found and not yet handed out, and a failing seed affects no other. Guessing the block height collects the answer of exactly those sources that answered in time, and a failing or hanging source neither blocks beyond the timeout nor affects the others.',
 ['schedules', 'fault_sequences'], 'every interleaving of resolver threads and callers, every pattern of failures and delays',
 'Nothing of this is tested; interleavings need a controlled scheduler.',
 ['nbc/util/bootstrap.py', 'nbc/util/__init__.py'], [('found list', 'addresses found and not handed out', 'nbc/util/bootstrap.py DNSSeeder')], [('lock around the list', 'nbc/util/bootstrap.py'), ('lock around the result, join with deadline', 'nbc/util/__init__.py guess_block_height')], ['pop, len of the seeder', 'result of guess_block_height'])
prop('C31', 'Block and version helpers follow the Bitcoin definitions',
 'The Merkle root of a non-empty list of transactions, the 80 byte block header, the difficulty target of compact bits, the test of the work of a header against it, the difficulty relative to the easiest target, the hash functions (SHA-1, SHA-256, double SHA-256, RIPEMD-160, HASH160), hex conversions in reversed byte order and the packing of version numbers follow the Bitcoin definitions, version packing is reversible and refuses parts out of range, a coin is found exactly by its name or symbol, and the genesis header of a coin has the hash the coin names.',
 ['inputs'], 'every list length, every compact exponent, every version tuple, every name',
 'Nothing of this is tested.',
 ['nbc/util/__init__.py', 'nbc/coins/__init__.py', 'nbc/util/hash.py'], [], [('get_merkle_root, get_block_header, get_target, get_difficulty, hex_to_bin, bin_to_hex, make_version, get_version', 'nbc/util/__init__.py'), ('get_coin', 'nbc/coins/__init__.py')], ['the functions themselves'])
prop('C32', 'Alerts expose their signed payload faithfully and verify their signer',
 'Every field of an alert (versions, expiry, identifiers, the sets of cancelled alerts and affected versions, priority and texts) is exactly what its payload encodes, no matter in which order the fields are read. An alert verifies exactly for the public key that signed the payload.',
 ['inputs', 'histories'], 'every payload, every order of reading fields, every key and altered payload',
 'Nothing of this is tested.',
 ['nbc/protocol/messages.py', 'nbc/util/ecc.py'], [('alert cache', 'fields extracted from the payload', 'nbc/protocol/messages.py Alert')], [('_parse_and_get, verify', 'nbc/protocol/messages.py Alert')], ['attributes of Alert', 'Alert.verify'])
prop('C33', 'Shared secrets agree and stand on valid keys only',
 'The secret computed from a public key, compressed or not, and a private key is the 32 byte abscissa of their product, so both parties of an exchange obtain the same secret whichever form the keys have, and a malformed or invalid public or private key is refused.',
 ['inputs'], 'all pairs of keys, with leading zero bytes, in every form, and altered keys',
 'Nothing of this is tested.',
 ['nbc/util/ecc.py', 'nbc/util/key.py'], [], [('shared_secret', 'nbc/util/ecc.py'), ('decompress_public_key, privkey_from_wif', 'nbc/util/key.py')], ['shared_secret'])
prop('C34', 'Block height sources answer with the number they were told or not at all',
 'A source of block heights answers with exactly the whole number its web service reports: the payload itself, or the number found in a JSON payload by following the given path through names of objects and positions in lists. Where there is no such number (missing names, positions beyond the end, other kinds of values, payloads that cannot be read, failing services) there is no answer rather than a wrong one.',
 ['inputs', 'fault_sequences'], 'every JSON payload and path, every text, every way a service can fail',
 'Nothing of this is tested.',
 ['nbc/util/__init__.py'], [], [('fetch_url_json_path_int, fetch_url_int', 'nbc/util/__init__.py')], ['the functions they return, against a web server'])
prop('C35', 'A listening node owns at most one port mapping, a right one, and gives it back',
 'Before it serves, a listening node asks the internet gateway for one TCP mapping to its own port, from the first external port that is free beginning with its own (none where every port up to 65535 is taken), and however it stops, normally or by an exception, it closes its listening socket and removes exactly the mapping it made. Mappings of others, other hosts or other programs or nodes of the same machine, are neither replaced nor removed; a node that does not listen never touches the gateway. A gateway that is missing, refuses or fails at any call keeps no node from serving and stopping, and a node whose port is in use is refused with AddrInUseError.',
 ['histories', 'fault_sequences'], 'every table of mappings, every interference of other hosts, every failing call, every way to stop, several nodes nested in time',
 'The tests have no gateway and start no node.',
 ['nbc/node/__init__.py', 'nbc/node/basenode.py'], [('mapping', 'the external port mapped for a node', 'nbc/node/__init__.py add_portmap/remove_portmap')], [('add_portmap, remove_portmap', 'nbc/node/__init__.py'), ('serve_forever, __init__', 'nbc/node/basenode.py')], ['serve_forever against a gateway library (miniupnpc) that is played'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
