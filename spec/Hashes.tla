------------------------------- MODULE Hashes -------------------------------
(* The digest functions by name, and their parameters.                        *)
EXTENDS Md, Sha

Digest(alg, msg) ==
    CASE alg = "md2" -> Md2(msg)
      [] alg = "md4" -> Md4(msg)
      [] alg = "md5" -> Md5(msg)
      [] alg = "sha1" -> Sha1(msg)
      [] alg = "sha224" -> Sha224(msg)
      [] alg = "sha256" -> Sha256(msg)
      [] alg = "sha384" -> Sha384(msg)
      [] alg = "sha512" -> Sha512(msg)

\* The digest of a message too long to write down: mid is the chaining value after all
\* whole blocks (words as limbs), tail the remaining bytes, len the little-endian
\* base-256 digits of the message length in bytes.
DigestFrom(alg, mid, tail, len) ==
    CASE alg = "md4" -> Output128(FoldBlocks(Md4Compress, mid, PadTail(tail, len, 64, 8, FALSE), 64))
      [] alg = "md5" -> Output128(FoldBlocks(Md5Compress, mid, PadTail(tail, len, 64, 8, FALSE), 64))
      [] alg = "sha1" -> OutputBE32(FoldBlocks(Sha1Compress, mid, PadTail(tail, len, 64, 8, TRUE), 64), 5)
      [] alg = "sha224" -> OutputBE32(FoldBlocks(Sha256Compress, mid, PadTail(tail, len, 64, 8, TRUE), 64), 7)
      [] alg = "sha256" -> OutputBE32(FoldBlocks(Sha256Compress, mid, PadTail(tail, len, 64, 8, TRUE), 64), 8)
      [] alg = "sha384" -> OutputBE64(FoldBlocks(Sha512Compress, mid, PadTail(tail, len, 128, 16, TRUE), 128), 6)
      [] alg = "sha512" -> OutputBE64(FoldBlocks(Sha512Compress, mid, PadTail(tail, len, 128, 16, TRUE), 128), 8)
=============================================================================
