def u(name, f, h, *d, **k):
    k.setdefault("dfcc", False); k.setdefault("backend", "cadical")
    return Unit(name, "hash.c", None, [], functions=f.split(), harness=h, defs=list(d), **k)
UNITS = [u("sha3_init", "sha3_Init sha3_SetFlags", "h_init", "U_SHA3", "LEN=1", "BI=0", "CAPW=8", unwind=30)]
UNITS += [u("sha1_transform", "SHA1Transform SHA1Init", "h_sha1", "U_SHA1ROUND", unwind=81, loops="hash_loops.h", timeout=300),
  u("md5_body", "body MD5Init", "h_md5", "U_MD5ROUND", unwind=65, loops="hash_loops.h", timeout=300)]
UNITS.append(u("keccakf", "keccakf", "h_keccak", "U_KECCAK", unwind=172, loops="hash_loops.h", timeout=300))
for c in (8, 12, 16):
    for bi, n in ((0, 17), (3, 16), (7, 10), (5, 2)) if c == 12 else ((0, 0), (0, 7), (0, 8), (0, 17), (1, 6), (1, 7), (3, 2), (3, 16), (5, 12), (7, 1), (7, 10)):
        UNITS.append(u("sha3_update_%d_%d_%d" % (32*c, bi, n), "sha3_Update", "h_update", "U_SHA3", "LEN=%d" % n, "BI=%d" % bi, "CAPW=%d" % c, unwind=27, timeout=300, replace_calls=["keccakf:vf_keccakf"], bound="%d bytes at offset %d in a word, every state" % (n, bi)))
    UNITS.append(u("sha3_final_%d" % (32*c), "sha3_Finalize", "h_final", "U_SHA3", "LEN=1", "BI=0", "CAPW=%d" % c, unwind=201, replace_calls=["keccakf:vf_keccakf"]))
for alg, fu, ff, rc, dd in (("sha1", "SHA1Update", "SHA1Final", "SHA1Transform:vf_transform", ["U_SHA1"]), ("md5", "MD5Update", "MD5Final", "body:vf_body", [])):
    for ub in range(0, 64, 8):
        UNITS.append(u("%s_update_%d" % (alg, ub), fu, "h_blocks", "U_BLK", "UB=%d" % ub, "CNT0=0xfffffe00u", *dd, unwind=200, replace_calls=[rc], bound="positions %d to %d in a block, up to 130 bytes" % (ub, ub + 7)))
    for ub in range(0, 64, 8):
        UNITS.append(u("%s_final_%d" % (alg, ub), ff, "h_pad", "U_BLK", "UB=%d" % ub, "CNT0=0x7ffffe00u", *dd, unwind=130, object_bits=12, replace_calls=[rc]))
NATIVE = [Native("hash.c", src=["utils/sha1.c", "utils/md5.c", "utils/sha3.c"], quick=6, thorough=60)]
ASSUMPTIONS = ["SHA1Transform, keccakf, MD5 body: each round proved equal to the standard's with the next round starting from an arbitrary common state (ghost cut points), which is how a loop invariant is used",
  "messages of 2^61 bytes and more are outside the statement", "sums are written in the order of the code in the reference (addition modulo 2^32 is associative)"]
LEVEL = "other"
