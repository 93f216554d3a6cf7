#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    P.append(d)

# ---------------------------------------------------------------- block encryption
prop("C01", "Bulk decryption returns exactly the message that was encrypted",
 "For every block cipher, every mode (including a stateful one supplied by the caller), every key and every message of any length including the empty one, decrypting the output of bulk encryption with the same cipher, key and freshly initialised mode delivers exactly the original message bytes, in order, and nothing else.",
 ["inputs", "configurations"], "All messages, keys, ciphers (AES-128/192/256, RC2, RC5, caller-supplied), block sizes and modes (ECB, caller-supplied stateful modes).",
 "The tests decrypt a handful of one- or two-block messages in ECB; message length modulo block size, many-block messages, other block sizes and stateful modes are not sampled.",
 ["src/lib.rs", "src/pad.rs"], [("bulk encrypt/decrypt with one-block look-ahead before unpadding", "src/lib.rs BlockEncryption"), ("PKCS padding of the remainder", "src/pad.rs PkcsPadding")],
 [("next_output", "decrypted block held back until it is known not to be the last one", "src/lib.rs BlockEncryption::decrypt")],
 ["bytes handed to the output callback"])
prop("C02", "Bulk encryption is the mode applied to the padded blocks, in order",
 "Bulk encryption drives the supplied mode exactly once per block, in message order, on the message followed by PKCS#7 padding, and outputs the blocks the mode returns in that order, so the ciphertext is always (floor(len/N)+1) blocks of N bytes; bulk decryption likewise drives the mode exactly once per ciphertext block in order.",
 ["inputs", "configurations"], "All messages, block sizes 1..255 and modes, observed through a caller-supplied recording mode and cipher.",
 "The unit tests check four fixed short messages with N=4.",
 ["src/lib.rs", "src/pad.rs"], [("chunks_exact loop followed by the padded remainder", "src/lib.rs BlockEncryption::encrypt")],
 None, ["calls received by a caller-supplied BlockCipherMode", "output callback"])
prop("C03", "Bulk decryption refuses malformed ciphertext",
 "Bulk decryption of a ciphertext that is empty, not a whole number of blocks, or whose decrypted final block does not end in valid PKCS#7 padding (a byte p with 1 <= p <= N, repeated p times) is refused by panicking; it never completes normally.",
 ["inputs"], "All byte strings offered as ciphertext, for every cipher, block size and mode.",
 "Only one unit test reaches a refusal (a padding byte that is too large, tested on the padding type directly).",
 ["src/lib.rs", "src/pad.rs"], [("remainder check", "src/lib.rs BlockEncryption::decrypt"), ("unpad validation", "src/pad.rs PkcsPadding::unpad")], None, ["panic or return of BlockEncryption::decrypt"])
prop("C04", "PKCS padding is an exact, unambiguous inverse pair",
 "For every block size N from 1 to 255 and every partial block shorter than N, padding yields N bytes consisting of the data followed by the pad count repeated, and unpadding that block returns the data length; unpadding accepts a block only if it is the padding of some partial block and panics otherwise, and padding a block of N or more bytes panics.",
 ["inputs", "configurations"], "All N in 1..255, all blocks and partial blocks.",
 "Tests use N=4 and seven fixed blocks.",
 ["src/pad.rs"], [("PkcsPadding pad/unpad", "src/pad.rs")], None, ["return value of pad/unpad"])
prop("C05", "Bit padding is an exact, unambiguous inverse pair",
 "For every block size N >= 1 and every partial block shorter than N, bit padding yields the data, one 0x80 byte and then zeros, and unpadding that block returns the data (zero filled) and its length; unpadding accepts a block only if it has that shape and panics otherwise, and padding a block of N or more bytes panics.",
 ["inputs", "configurations"], "All N, all blocks and partial blocks, including data that itself contains 0x80 and trailing zeros.",
 "Tests use N=4 and eight fixed blocks; none contains a data byte 0x80.",
 ["src/pad.rs"], [("BitPadding pad/unpad", "src/pad.rs")], None, ["return value of pad/unpad"])
# ---------------------------------------------------------------- ciphers
prop("C06", "AES agrees with FIPS-197 for every key and block",
 "For every 128-, 192- and 256-bit key, whether given as bytes or as big-endian 64-bit words, encrypting and decrypting any 16-byte block gives exactly the result FIPS-197 defines.",
 ["inputs", "configurations"], "All keys of the three sizes, all blocks, both directions and both ways of building a key.",
 "Six keys and one repeated plaintext are tested; most S-box entries, key-schedule paths and field products are never compared with the standard.",
 ["src/aes/cipher.rs", "src/aes/expander.rs", "src/aes/field.rs", "src/aes/sbox.rs", "src/aes/mod.rs"], [("round function and key expansion", "src/aes/cipher.rs, src/aes/expander.rs"), ("S-box built from the field iterator", "src/aes/sbox.rs")], None, ["BlockCipher::encrypt / decrypt of Aes"])
prop("C07", "RC2 agrees with RFC 2268 for every key, effective length and block",
 "For every key of 1 to 128 bytes, every effective key length of 1 to 1024 bits and every 8-byte block, RC2 encryption and decryption give exactly the result RFC 2268 defines.",
 ["inputs", "configurations"], "All keys, effective key lengths and blocks.",
 "Nine keys with five effective lengths and nearly always an all-zero block are tested.",
 ["src/rc/rc2.rs"], [("key expansion with effective-bits mask", "src/rc/rc2.rs expand_key"), ("mix/mash schedule", "src/rc/rc2.rs encrypt_block/decrypt_block")], None, ["BlockCipher::encrypt / decrypt of rc2"])
prop("C08", "RC5-32 agrees with its definition for every key, round count and block",
 "For every key of 0 to 255 bytes, every round count from 0 to 255 and every 8-byte block, RC5 encryption and decryption give exactly the result the RC5-32/r/b definition (RFC 2040, little-endian words) defines.",
 ["inputs", "configurations"], "All key lengths, keys, round counts and blocks.",
 "All tests use 16-byte keys and 12 rounds.",
 ["src/rc/rc5.rs"], [("key expansion", "src/rc/rc5.rs expand_key"), ("rounds", "src/rc/rc5.rs encrypt_32/decrypt_32")], None, ["BlockCipher::encrypt / decrypt of rc5"])
prop("C09", "RC4 produces the defined keystream for every key and position",
 "For every key of at least one byte, the RC4 keystream equals the defined RC4 keystream at every position however long the stream gets, and encrypting or decrypting data XORs it with that keystream from its start.",
 ["inputs", "histories"], "All keys (1..256 bytes and longer, of which the first 256 bytes matter) and all stream positions.",
 "Tests read at most 14 keystream bytes of three short keys, so index wrap-around at 256 and key lengths above six bytes are never reached.",
 ["src/rc/rc4.rs", "src/lib.rs"], [("key scheduling and next_key", "src/rc/rc4.rs")], [("state, x, y", "RC4 permutation and indices", "src/rc/rc4.rs KeyStream")], ["Iterator of rc4", "rc4::encrypt / decrypt"])
prop("C10", "Stream encryption is position-exact however the data is cut into pieces",
 "For every keystream and every history of piece-wise stream encryption calls (pieces of any size, including empty ones and results that are only partly consumed), the k-th byte ever delivered is its data byte XOR the k-th keystream byte, so any split of a message gives the same ciphertext as one call and applying the same keystream again restores the data; if the keystream runs out the call panics instead of delivering less or unencrypted data. Bytes are delivered as their data arrives, so a data source without end can be encrypted.",
 ["histories", "inputs"], "All keystreams, all sequences of pieces and of partial consumption.",
 "One test splits one nine-byte message once.",
 ["src/lib.rs", "src/rc/rc4.rs"], [("keystream taken lazily, one byte per data byte", "src/lib.rs StreamCipher::encrypt")], [("keys", "remaining keystream", "src/lib.rs StreamCipher")], ["bytes yielded by StreamCipher::encrypt"])
# ---------------------------------------------------------------- hashes
prop("C11", "MD2 agrees with RFC 1319 for every message",
 "For every message of any length, given as any iterator over bytes, MD2 returns exactly the digest RFC 1319 (with its checksum erratum) defines.",
 ["inputs"], "All messages.", "Three messages are tested; most table entries, exact multiples of 16 bytes and long messages are not.",
 ["src/md/md2.rs"], [("checksum and 18-round transform", "src/md/md2.rs process_chunk"), ("padding", "src/md/md2.rs finish")], None, ["md2"])
prop("C12", "MD4 and MD5 agree with RFC 1320 and RFC 1321 for every message",
 "For every message of any length, including lengths around the 56- and 64-byte block boundaries and messages longer than 2^32 bits, MD4 and MD5 return exactly the digests RFC 1320 and RFC 1321 define.",
 ["inputs"], "All messages of all lengths.", "Four messages per function; the padding branch for lengths 55..64 mod 64 and large lengths are not reached.",
 ["src/md/md4.rs", "src/md/md5.rs"], [("length bookkeeping and padding", "finish"), ("compression", "Block::process")], None, ["md4", "md5"])
prop("C13", "SHA-1 agrees with FIPS 180-4 for every message",
 "For every message of any length, including lengths around block boundaries and messages longer than 2^32 bits, SHA-1 returns exactly the digest FIPS 180-4 defines.",
 ["inputs"], "All messages of all lengths.", "Four messages are tested.",
 ["src/sha/sha1.rs", "src/sha/pad.rs", "src/sha/hash.rs"], [("padding", "src/sha/pad.rs"), ("compression", "src/sha/sha1.rs process_chunk")], None, ["sha1"])
prop("C14", "SHA-224 and SHA-256 agree with FIPS 180-4 for every message",
 "For every message of any length, including lengths around block boundaries and messages longer than 2^32 bits, SHA-224 and SHA-256 return exactly the digests FIPS 180-4 defines.",
 ["inputs"], "All messages of all lengths.", "SHA-256 is tested on the empty message only, SHA-224 on two messages; no multi-block message is hashed directly.",
 ["src/sha/sha2.rs", "src/sha/pad.rs", "src/sha/hash.rs"], [("padding", "src/sha/pad.rs"), ("compression", "src/sha/sha2.rs process_chunk")], None, ["sha224", "sha256"])
prop("C15", "SHA-384 and SHA-512 agree with FIPS 180-4 for every message",
 "For every message of any length, including lengths around the 112- and 128-byte block boundaries and messages longer than 2^32 bits, SHA-384 and SHA-512 return exactly the digests FIPS 180-4 defines.",
 ["inputs"], "All messages of all lengths.", "Only the empty message is tested.",
 ["src/sha/sha2.rs", "src/sha/hash.rs"], [("padding", "src/sha/sha2.rs sha2_padding_big"), ("compression", "src/sha/sha2.rs process_big_chunk")], None, ["sha384", "sha512"])
prop("C16", "Digest values convert without loss between bytes, words and hex",
 "For every digest value of each size, converting it to bytes, to big-endian words and back, and reading it from its hexadecimal text (either case) all yield the same value; text that is not exactly the right number of hex digits is rejected with an error, and two digest values are equal exactly when their bytes are.",
 ["inputs"], "All digest values of the five sizes, all hex texts.", "Tests only compare hash results with values read from hex; conversion to words is never called.",
 ["src/sha/hash.rs"], [("word/byte helpers", "src/sha/hash.rs"), ("FromHex", "src/sha/hash.rs")], None, ["From/Into and FromHex of Hash160..Hash512"])
# ---------------------------------------------------------------- big integers
prop("C17", "Big-integer arithmetic is exact",
 "For all non-negative integers of any size, addition (of an integer or of a byte), subtraction of a not larger value, remainder by a non-zero value, left shift and right shift by any amount give exactly the mathematical result.",
 ["inputs"], "All operand values and sizes, all shift amounts, including zero operands, long carry and borrow chains and shifts beyond the operand's length.",
 "Six subtractions are the only direct arithmetic tests; carries, shifts by 8 or more, shifting zero and remainders of unequal lengths are reached only through two RSA examples.",
 ["src/big/uint.rs"], [("byte-wise add with carry, two's-complement subtraction, shift-subtract remainder", "src/big/uint.rs")], [("bytes", "little-endian base-256 digits", "src/big/uint.rs BigUint")], ["to_be_bytes of the result"])
prop("C18", "Big integers have one canonical form that every query agrees with",
 "After any sequence of operations on big integers (construction from big- or little-endian bytes with any leading zeros or from a 128-bit value, arithmetic, shifts, setting or clearing existing bits), equality, ordering, bit length, individual bits, conversion to big-endian bytes (without leading zeros) and conversion to a 128-bit value (an error exactly when it does not fit) all agree with the one integer the value denotes, and none of them panics.",
 ["histories", "inputs"], "All operation histories and values.",
 "Six unit tests each look at one freshly built value; no test queries a value after a shift or a bit update.",
 ["src/big/uint.rs"], [("trimming of leading zero digits after each operation", "src/big/uint.rs trim_trailing_zeroes")], [("bytes", "little-endian digits without trailing zero digit", "src/big/uint.rs")], ["PartialEq, Ord, bits_used, is_set, to_be_bytes, as_u128"])
# ---------------------------------------------------------------- PEM / ASN.1
prop("C19", "PEM text round-trips and is wrapped at 64 columns",
 "For every label without a line break and every byte string, the PEM text written for them has the BEGIN line, the base64 of the data in lines of exactly 64 characters except possibly the last, and the END line, and parsing that text returns the same label and data.",
 ["inputs"], "All labels without newline and all data lengths and contents.",
 "Two data values are written and none is parsed back.",
 ["src/pem/mod.rs"], [("Display", "src/pem/mod.rs"), ("decode_pem", "src/pem/mod.rs")], None, ["to_string and from_str of PEM"])
prop("C20", "PEM parsing accepts exactly the well-formed documents",
 "For every text, PEM parsing never panics and succeeds exactly when there is one BEGIN line followed by one END line with the same label and the trimmed lines between them concatenate to canonical padded base64, returning that label and the decoded data; a second BEGIN or END line, an END line before the BEGIN line, or a line that starts like one of them but lacks the closing dashes makes the document invalid wherever it occurs, while other text outside the two lines and white space around any line never changes the result.",
 ["inputs"], "All texts: any arrangement of BEGIN/END/data/other lines, any line endings and white space, any base64 or non-base64 content.",
 "Fifteen fixed documents are tested.",
 ["src/pem/mod.rs"], [("line scanner", "src/pem/mod.rs extract_pem_pieces"), ("base64 decoding", "src/pem/mod.rs parse_pem_data")], [("begin_label/end_label", "scanner position relative to the BEGIN and END lines", "src/pem/mod.rs extract_pem_pieces")], ["PEM::from_str"])
prop("C21", "ASN.1 decoding returns exactly the encoded value",
 "For every value built from integers, octet strings, bit strings, nulls, object identifiers and (nested) sequences, decoding its DER encoding, or a definite-length BER encoding with longer length fields, returns exactly that value with all contents byte for byte.",
 ["inputs"], "All value trees (nesting up to 64 levels) and content lengths, short- and long-form lengths of up to 16 length bytes.",
 "Two tiny values and one key file are decoded; lengths between 128 and 255, above 65535, bit strings in sequences and nesting beyond three levels are not.",
 ["src/pem/asn1.rs"], [("recursive tag-length-value parser", "src/pem/asn1.rs parse_from_bytes")], None, ["Asn1::try_from"])
prop("C22", "ASN.1 decoding is total and never drops or invents bytes",
 "For every byte string, ASN.1 decoding returns a value or an error and never panics, overflows the stack or hangs; it returns a value only if the whole input is a definite-length tag-length-value encoding of exactly that value, so truncated input, trailing bytes, unsupported tags, indefinite or impossible lengths, a null with contents and an empty bit string are errors.",
 ["inputs"], "All byte strings.",
 "No malformed ASN.1 input is tested at all.",
 ["src/pem/asn1.rs"], [("length checks", "src/pem/asn1.rs parse_from_bytes"), ("trailing-bytes check", "src/pem/asn1.rs TryFrom")], None, ["Asn1::try_from"])
# ---------------------------------------------------------------- RSA
prop("C23", "RSA keys are imported exactly, and only from well-formed key files",
 "Importing a PKCS#8 private key or a SubjectPublicKeyInfo public key yields a key that computes with exactly the modulus and the private or public exponent in the file, whatever their sizes and sign bytes; a file with the wrong label, a different algorithm identifier, a missing, extra or wrongly typed element, a non-zero version of the outer structure or broken encoding is rejected with an error and never panics.",
 ["inputs"], "All key sizes and exponent values, all structural mutations of key files.",
 "One 2048-bit key pair is imported; no rejection is tested.",
 ["src/rsa/mod.rs", "src/rsa/asn1.rs", "src/pem/asn1.rs"], [("structure matching", "src/rsa/asn1.rs from_asn1"), ("label checks", "src/rsa/mod.rs TryFrom<PEM>")], None, ["PrivateKey/PublicKey::try_from(PEM)", "results of using the key"])
prop("C24", "Generated RSA key pairs are inverse to each other",
 "For all distinct primes p and q whose product is below 2^128 and every exponent e coprime to p-1 and q-1, key generation yields a pair with modulus p*q in which the public key computes x^e mod p*q and each key undoes the other on every integer below p*q; if e is not coprime to p-1 and q-1, or the product does not fit 128 bits, it panics instead of returning a key pair.",
 ["inputs"], "All prime pairs (tiny, unequal and large), all exponents including even ones, 1 and exponents above lcm(p-1,q-1), in checked and release builds.",
 "Four prime pairs with e=17 are tested, with one message each.",
 ["src/rsa/mod.rs"], [("lcm, extended Euclid", "src/rsa/mod.rs create_keys, inverse, lcm")], None, ["create_keys followed by RsaEncryption::encrypt/decrypt"])
prop("C25", "The raw RSA operation is exact modular exponentiation",
 "For every modulus greater than 1, every exponent and every integer operand (also operands not below the modulus), the raw RSA operation returns operand^exponent mod modulus, and the two names for it (encrypt and decrypt) agree.",
 ["inputs"], "All moduli (odd, even, any bit length), exponents and operands.",
 "A few small values and one 2048-bit example whose result is only checked by decrypting it again.",
 ["src/rsa/mod.rs", "src/big/uint.rs"], [("square-and-multiply over shift-and-add multiplication", "src/rsa/mod.rs pow_mod, mul_mod")], None, ["RsaEncryption::encrypt/decrypt"])
prop("C26", "Every message that fits round-trips through padded RSA encryption",
 "For every valid RSA key pair and every message that fits the padding scheme (at most k-66 bytes for the built-in scheme with a k-byte modulus), decrypting the encrypted message with the matching key returns the message, whatever leading zero bytes the ciphertext number or encoded message happens to have, and the ciphertext is always exactly k bytes long.",
 ["inputs"], "All keys (any modulus bit length), all messages including empty and maximal ones, built-in and caller-supplied padding schemes.",
 "One message under one key and one with a toy padding; about one encryption in 256 yields a ciphertext number with a leading zero byte, which no test hits.",
 ["src/rsa/mod.rs", "src/rsa/oaep.rs", "src/rsa/pad.rs"], [("fixed-length conversion between numbers and byte strings", "src/rsa/mod.rs encrypt_message, decrypt_message")], None, ["encrypt_message / decrypt_message"])
prop("C27", "RSA padding produces a valid OAEP encoding",
 "For every label, message and length k with message length at most k-66, the built-in RSA padding returns a k-byte string that is an EME-OAEP (RFC 8017, SHA-256, MGF1-SHA-256) encoding of that message under that label for some seed, starting with a zero byte; a message that does not fit is refused by panicking.",
 ["inputs"], "All labels, messages and lengths k.",
 "One label, message and length are tested, and only against the library's own decoder.",
 ["src/rsa/oaep.rs", "src/rsa/mgf.rs", "src/rsa/pad.rs"], [("OAEP encode", "src/rsa/oaep.rs"), ("MGF1 counter mode", "src/rsa/mgf.rs")], None, ["RsaPadding.encode"])
prop("C28", "OAEP decoding accepts exactly valid encodings and never panics",
 "For every label, byte string and length, the built-in RSA unpadding returns the message exactly when the byte string has that length, is at least 66 bytes long and is an EME-OAEP (SHA-256) encoding of the message under that label for any seed; in every other case it returns an error, never a message and never a panic.",
 ["inputs"], "All labels, all byte strings (any seed, any corruption of any position, any length including too short ones).",
 "One encoding made by the library with its fixed seed is decoded; no rejection is tested.",
 ["src/rsa/oaep.rs", "src/rsa/mgf.rs"], [("label-hash and separator checks", "src/rsa/oaep.rs decode")], None, ["RsaPadding.decode"])
prop("C29", "Damaged RSA ciphertext is refused, never decrypted to something else",
 "For every byte string offered as ciphertext (altered, truncated, extended, encrypted under another key, or not below the modulus as a number), padded RSA decryption returns a message only if the key operation on it yields a valid padded encoding of exactly that message, and panics otherwise; padded encryption of a message that does not fit panics.",
 ["inputs"], "All ciphertext byte strings for all keys.",
 "No failing decryption is tested.",
 ["src/rsa/mod.rs", "src/rsa/oaep.rs"], [("OAEP checks followed by unwrap", "src/rsa/mod.rs decrypt_message")], None, ["decrypt_message"])
prop("C30", "Block ciphers are permutations, and cipher objects keep no history",
 "For every key, AES, RC2 and RC5 decryption undoes encryption and encryption undoes decryption for every block, and what a cipher object returns for a block depends only on the key and the block, never on which blocks it or other cipher objects processed before.",
 ["inputs", "histories"], "All keys, all blocks, all interleavings of calls on several live cipher objects.",
 "Each test makes one call per object.",
 ["src/aes/cipher.rs", "src/rc/rc2.rs", "src/rc/rc5.rs"], [("inverse round functions", "decrypt of each cipher")], None, ["BlockCipher::encrypt / decrypt"])
prop("C31", "Unsupported parameters are refused, never silently adjusted",
 "RC2 with an empty or over-128-byte key or an effective length of 0 or above 1024 bits, RC4 with an empty key, RC5 with a key of 256 bytes or more, clearing or setting a big-integer bit outside its bytes, and a big integer above 128 bits as key-generation input are refused by panicking; no result is produced.",
 ["inputs", "configurations"], "All parameter values outside the supported ranges, in checked and release builds.",
 "None of these refusals is tested.",
 ["src/rc/rc2.rs", "src/rc/rc4.rs", "src/rc/rc5.rs", "src/big/uint.rs", "src/rsa/mod.rs"], [("bounds checks and assertions", "constructors")], None, ["panic of the constructor or call"])
prop("C32", "Calls are independent of each other, whatever the order and the threads",
 "In every program that calls the library, from any number of threads that use objects of their own (or are handed them by another thread that then leaves them alone) and in any interleaving, every call (of any part: ciphers, paddings, streams, digests, numbers, PEM, ASN.1, RSA) returns what its arguments and the earlier calls on its own object specify; no call, not even one that was refused by panicking, changes the result of another, and no call waits for another forever.",
 ["schedules", "histories"], "All interleavings of calls from one or several threads, including calls that panic.",
 "Every test calls one function from one thread and looks at one result.",
 ["src/lib.rs", "src/aes", "src/big", "src/md", "src/pem", "src/rc", "src/rsa", "src/sha"], [("no shared mutable state", "the whole crate")], None, ["every public call"])
prop("C33", "Keys and ASN.1 values compare equal exactly when they hold the same",
 "Two RSA private keys, or two RSA public keys, compare equal exactly when their moduli and their exponents are equal, however each was obtained (from a key file in any accepted encoding, by key generation, or by cloning), two decoded ASN.1 values compare equal exactly when they have the same structure, types and contents, and a clone of a key or value equals its original and computes the same.",
 ["inputs", "histories"], "All pairs of keys of one kind and of ASN.1 values, whatever their sizes and encodings, and clones of them.",
 "The tests compare one decoded ASN.1 tree and a few numbers with expected ones, always expecting equality; none compares two keys, clones one or expects a difference, and equality is a claim about all pairs.",
 ["src/rsa/mod.rs", "src/pem/asn1.rs", "src/big/uint.rs"], [("derived comparison of modulus and exponent", "src/rsa/mod.rs PrivateKey, PublicKey"), ("derived comparison of value trees", "src/pem/asn1.rs Asn1"), ("canonical digits", "src/big/uint.rs")], None, ["PartialEq and Clone of PrivateKey, PublicKey, Asn1"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2
print(len(P))
