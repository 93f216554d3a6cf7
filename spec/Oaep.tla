-------------------------------- MODULE Oaep --------------------------------
(* EME-OAEP of RFC 8017 with SHA-256 and MGF1-SHA-256.                        *)
EXTENDS Hashes

HLen == 32
Scheme == INSTANCE OaepScheme WITH HLen <- 32, CtrLen <- 4, H <- Sha256
Mgf1(seed, n) == Scheme!Mgf1(seed, n)
OaepEncode(label, msg, k, seed) == Scheme!Encode(label, msg, k, seed)
IsOaepEncoding(label, msg, em, k) == Scheme!IsEncoding(label, msg, em, k)
OaepDecode(label, em, k) == Scheme!Decode(label, em, k)
=============================================================================
