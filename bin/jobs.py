"""Which harness runs decide which property, with their bounds and stand-ins."""
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ED = [
    "8minisign6crypto7ed255196verify$=st_ed_verify",
    "8minisign6crypto7ed255199signature=st_ed_signature",
    "8minisign6crypto7ed255197keypair=st_ed_keypair",
]
BL = [
    "6crypto7blake2b*7Blake2b3new=st_blake_new",
    "6crypto7blake2b*7Blake2b6update=st_blake_update",
    "6crypto7blake2b*7Blake2b8finalize=st_blake_finalize",
]
SC = ["6scrypt6scrypt$=st_scrypt"]
PW = ["9rpassword15prompt_password=st_prompt"]
HX = ["4core3fmt3numy*8UpperHex3fmt=st_hex"]
B64 = ["10Base64Impl16b64_byte_to_char=st_b64_enc", "10Base64Impl16b64_char_to_byte=st_b64_dec"]
MEM = ["5slice6memchr14memchr_aligned=st_memchr", "5slice6memchr7memrchr=st_memrchr"]
KN = [
    "6sha512*4Hash3new=st_sha_new", "6sha512*4Hash6updateRShE=st_sha_update",
    "6sha512*4Hash6updateRAhj20_E=st_sha_update32", "6sha512*4Hash6updateAhj20_E=st_sha_update32",
    "6sha512*4Hash6updateRAhj40_E=st_sha_update64", "6sha512*4Hash6updateAhj40_E=st_sha_update64",
    "6sha512*4Hash8finalize=st_sha_finalize",
    "10curve255199sc_reduce=st_sc_reduce", "10curve255199sc_muladd=st_sc_muladd", "10curve2551918ge_scalarmult_base=st_base",
    "GeP325from_bytes_negate_vartime=st_decode", "GeP225double_scalarmult_vartime=st_dsm",
    "GeP28to_bytes=st_p2_bytes", "GeP38to_bytes=st_p3_bytes",
]
# field elements as integer expressions
FE = [
    "20fiat_25519_carry_mulB5_=st_fe_mul", "23fiat_25519_carry_squareB5_=st_fe_square", "14fiat_25519_add=st_fe_add",
    "14fiat_25519_sub=st_fe_sub", "14fiat_25519_opp=st_fe_opp", "16fiat_25519_carryB5_=st_fe_carry",
    "20fiat_25519_selectznz=st_fe_select", "19fiat_25519_to_bytes=st_fe_bytes", "2Fe10from_bytes=st_fe_from",
]
# products and scalars may be anything
ANY = [
    "20fiat_25519_carry_mulB5_=st_any_mul", "23fiat_25519_carry_squareB5_=st_any_square",
    "10curve255199sc_reduce=st_any_reduce", "10curve255199sc_muladd=st_any_muladd",
]
FEP = FE + ["2Fe8pow25523$=st_fe_pow", "2Fe6invert$=st_fe_invert"]
# points as multiples of the base point and of A
GE = [
    "GeP3*AddNt*8GeCachedE3add=st_p3_add_c", "GeP3*SubNt*8GeCachedE3sub=st_p3_sub_c",
    "GeP3*AddNt*9GePrecompE3add=st_p3_add_p", "GeP3*SubNt*9GePrecompE3sub=st_p3_sub_p",
    "6GeP1P15to_p3=st_p1_to_p3", "6GeP1P15to_p2=st_p1_to_p2", "4GeP39to_cached=st_p3_cached", "4GeP35to_p2=st_p3_to_p2",
    "4GeP23dbl=st_p2_dbl", "4GeP33dbl=st_p3_dbl", "4GeP39maybe_set=st_p3_set",
]
API = ED + BL + SC + PW + HX + B64 + MEM


def job(entry, *params, feat="api", rd=API, reach=(), time=240, weight=1, args=()):
    return dict(entry=entry, params=list(params), feat=feat, redirects=list(rd), reach=list(reach), time=time, weight=weight, args=list(args))


def h(entry, plist, **kw):
    return [job(entry, *(p if isinstance(p, tuple) else (p,)), **kw) for p in plist]


def jobs(prop, tier):
    return own_jobs(prop, tier) + twice(prop) + [dict(j, below=1) for j in below(prop)]


# the harness run again in the same process: (number in h_twice, its parameters, what it reaches)
_ar, _lr = ["accepted", "refused"], ["loaded", "refused"]
TWICE = {
    "C01": [(0, (1, 0), _ar), (0, (0, 0, 1), _ar)], "C02": [(1, (1,), ["accepted raw", "accepted prehashed", "refused"])], "C03": [(2, (0,), ["bare"])],
    "C04": [(3, (0,), ["parsed"]), (16, (), _ar)], "C13": [(4, (0,), ["done"])], "C14": [(5, (0,), _lr), (17, (0,), ["done"])],
    "C15": [(6, (), ["opened"]), (7, (1,), ["opened", "refused"])], "C16": [(8, (), ["parameters", "refused"])], "C17": [(9, (0,), ["generated"]), (9, (1,), ["generated"])],
    "C18": [(10, (0, 3), ["signed", "failed"]), (10, (1, 3), _ar)], "C19": [(11, (1, 0), ["output", "refused"])],
    "C20": [(12, (1,), ["equal", "different"])], "C21": [(13, (0, 0), ["written", "failed"])],
    "C22": [(14, (), ["generated", "refused", "too long", "prompt failed"]), (15, (), ["opened", "too long", "prompt failed"])],
}


def twice(prop):
    return [job("h_twice", n, *p, reach=r, weight=20) for n, p, r in TWICE.get(prop, [])]


def below(prop):
    """the parts of the kernels that the stand-ins of this property replace and its statement speaks of"""
    kw = dict(feat="kern", rd=[], reach=["done"])
    short = [job("h_hash1", 1, a, a + 30, weight=a // 30, **kw) for a in range(0, 270, 30)]
    pieces = [job("h_hash2", 1, 3, 0, i, 5, weight=500, **kw) for i in range(5)] + [job("h_hash3", 1, 1, i, weight=400, **kw) for i in range(5)]
    verify = [job("h_c06", feat="kern", rd=KN, reach=["accepted", "refused"], weight=300)]
    sign = [job("h_c07k", feat="kern", rd=KN, reach=["done"], weight=300)] + h("h_c07s", [0, 1, 32, 64], feat="kern", rd=KN, reach=["done"], weight=300)
    return {"C01": verify + short, "C02": verify + short, "C03": verify + sign + short, "C14": short, "C15": short,
            "C17": sign, "C18": pieces, "C19": verify + short, "C21": sign}.get(prop, [])


def own_jobs(prop, tier):
    deep = tier == "thorough"
    ar = ["accepted", "refused"]
    if prop == "C01":
        return h("h_c01", [(0, 0), (0, 1), (1, 0), (1, 1)], reach=ar, weight=5) + h("h_c01z", [0, 1], reach=ar)
    if prop == "C02":
        return h("h_c02", [0, 1], reach=["accepted raw", "accepted prehashed", "refused", "unknown algorithm"]) + [
            job("h_c02x", reach=ar), job("h_c02s", reach=["signed"])]
    if prop == "C03":
        return h("h_c03", [0, 1, 2], reach=["bare"]) + [job("h_c03w", reach=["right", "wrong"])]
    if prop == "C04":
        return h("h_c04", [0, 1], reach=["parsed"]) + [job("h_c04g", reach=ar)] + h("h_c04m", range(9), reach=["parsed", "refused"]) + [
            job("h_b64", rd=[], reach=["decoded", "refused"]), job("h_file", 0, reach=["loaded", "refused"])]
    lr = ["loaded", "refused"]
    if prop == "C05":
        return h("h_c05b", range(3), reach=lr) + h("h_c05t", [(i, 0) for i in range(4)] + [(i, 1) for i in range(1, 4)], reach=lr) + [job("h_c05t", 0, 1, reach=lr + ["verified"])] + \
            h("h_c05tt", [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], reach=lr) + h("h_c05s", range(3), reach=["done"]) + \
            h("h_c05k", [(w, l) for w in range(3) for l in range(2)], reach=["refused"]) + [job("h_c05e", reach=["done"])]
    if prop == "C13":
        return h("h_c13", range(3), reach=["done"]) + h("h_c13m", [(a, b) for a in range(2) for b in range(2)], reach=lr) + [job("h_file", 1, reach=lr)]
    if prop == "C14":
        return [job("h_c14", 0, reach=["done"])] + h("h_c14u", range(2), reach=lr) + [job("h_c14k", reach=["encrypted", "unencrypted", "refused"])]
    if prop == "C15":
        return [job("h_file", 2, reach=lr), job("h_c15g", reach=["opened"]), job("h_c15o", 0, reach=["opened", "refused"])]
    if prop == "C16":
        return [job("h_c16p", reach=["parameters", "refused"]), job("h_c16b", 0, reach=["refused"]), job("h_c16b", 1, reach=["opened"]), job("h_c16b", 2, reach=["opened"])]
    if prop == "C17":
        return h("h_c17", range(2), reach=["generated"]) + h("h_c17f", range(3), reach=["ok", "failed"]) + [job("h_c17s", reach=["signed"])]
    if prop == "C18":
        return [job("h_c18", 0, 5 if deep else 4, reach=["signed", "failed"])] + h("h_c18", [(1, 5 if deep else 4), (2, 5 if deep else 4)], reach=ar) + \
            [job("h_c18l", 0, reach=["signed", "failed"])] + h("h_c18l", [1, 2], reach=ar)
    if prop == "C19":
        return h("h_c19", [(k, b) for k in range(4) for b in range(2)], reach=["output", "refused"])
    if prop == "C20":
        return h("h_c20", range(4), reach=["equal", "different"])
    if prop == "C21":
        return h("h_c21", [(e, w) for e in range(2) for w in range(2)], reach=["written", "failed"])
    if prop == "C23":
        return h("h_c23", [(0, 0), (1, 0)], reach=["refused", "quiet", "shown"]) + h("h_c23", [(0, 1), (1, 1)], reach=["refused", "quiet", "shown"])
    if prop == "C22":
        return [job("h_c22o", reach=["opened", "too long", "prompt failed"]), job("h_c22g", reach=["generated", "refused", "too long", "prompt failed"])]
    kw = dict(feat="kern", rd=[], reach=["done"])
    if prop == "C24":
        o = h("h_ct", [(0, 128), (1, 64), (2, 32), (0, 71)] + ([(0, 64 + n) for n in (1, 16, 32, 200)] if tier == "thorough" else []), **dict(kw, rd=ANY, weight=300))
        o += h("h_ct", [(3, 2 * n) for n in ((1, 8, 32, 33) if tier == "quick" else range(1, 130))], **kw)
        return o + h("h_ct", [(4, 316), (6, 74), (7, 80), (8, 160), (9, 64), (10, 96)], **kw)
    # a property of the whole scheme also depends on the kernels its own harness replaces
    if prop in ("C06", "C07"):
        own = [job("h_c06", feat="kern", rd=KN, reach=ar, weight=300)] if prop == "C06" else \
            [job("h_c07k", feat="kern", rd=KN, reach=["done"], weight=300)] + h("h_c07s", [0, 1, 32, 64], feat="kern", rd=KN, reach=["done"], weight=300)
        kernels = jobs("C08", tier) + jobs("C09", tier) + jobs("C10", tier) + \
            [job("h_hash1", 0, a, a + 30, weight=a, **kw) for a in range(0, 390, 30)] + [job("h_hash3", 0, 1, i, weight=400, **kw) for i in range(5)] + [job("h_hashv", **kw)]
        skip = ("h_c10b", "h_c09m") if prop == "C06" else ("h_c10d", "h_c10m", "h_c10s")
        return own + [j for j in kernels if j["entry"] not in skip]
    if prop in ("C11", "C12"):
        w = 0 if prop == "C11" else 1
        top = 900 if deep else 390
        step = 30
        o = [job("h_hash1", w, a, a + step, weight=a, **kw) for a in range(0, top, step)]
        o += [job("h_hash2", w, 3 if not deep else 2, 0 if not deep else 2, i, 5 if not deep else 15, weight=500, time=700 if deep else 240, **kw) for i in range(5 if not deep else 15)]
        o += [job("h_hash3", w, 3 if deep else 1, i, weight=400, time=700 if deep else 240, **kw) for i in range(10 if deep else 5)]
        o += [job("h_hash4", w, a, a + (3 if deep else 13), int(deep), weight=450, time=700 if deep else 240, **kw) for a in range(0, 130, 3 if deep else 13)]
        o += [job("h_hashc", w, n, weight=n, **kw) for n in ([300, 600] if deep else [300])]
        o += [job("h_hashl", w, weight=1000, **kw), job("h_hashv", **kw)]
        if w == 1:
            o.append(job("h_hasho", weight=600, **kw))
        return o
    if prop == "C08":
        return h("h_c08", range(10), **kw) + [job("h_c08p", **dict(kw, rd=FE))]
    if prop == "C09":
        return [job("h_c09r", **kw), job("h_c09m", **kw)]
    if prop == "C10":
        o = h("h_c10f", range(12), weight=10, **kw)
        o += [job("h_c10d", **dict(kw, rd=FEP, reach=["decoded", "refused"]))] + h("h_c10e", range(2), **dict(kw, rd=FEP))
        o.append(job("h_c10b", **dict(kw, rd=GE)))
        sl = dict(kw, rd=GE + ["4GeP25slide=st_slide"], args=["--symcopy"])
        every = [(a, b, s, t) for a in range(5) for b in range(5) for s in range(3) for t in range(3)]
        o += [job("h_c10m", 0, *e, **sl) for e in (every if deep else [(0, 0, 0, 0), (0, 0, 1, 1), (1, 3, 0, 1), (2, 2, 2, 2), (3, 4, 1, 0), (4, 1, 2, 1)])]
        near = [(0, 5, 0, 5), (0, 6, 3, 9), (247, 252, 247, 252), (251, 252, 0, 1)]
        o += [job("h_c10m", 1, *e, **sl) for e in near + ([(a, a + 7, b, b + 6) for a in range(10, 240, 23) for b in range(12, 240, 29)] if deep else [])]
        o += h("h_c10s", [(a, (7 if deep else 6) if w == 2 else (11 if deep else 9), w) for a in (range(0, 243, 5) if deep else (0, 58, 122, 190, 244)) for w in range(3)], weight=5, **kw)
        return o
    raise SystemExit("unknown property " + prop)


CRYPTO = "Ed25519, BLAKE2b and scrypt are replaced by ideal stand-ins (uninterpreted functions with recorded inputs; a signature verifies iff it is the recorded signature of that key and message); the kernels themselves are the subject of C06-C12"
B64S = "the base64 character tables are replaced by an equivalent table stand-in; h_b64 decides the library code itself without it"
KILL = "collisions of the stand-in hashes are not excluded: they appear as solver models that the native replay rejects"

BOUNDS = {
    "C01": {"quick": "text and bare boxes, raw and prehashed; data of 0, 2, 64, 130 bytes, trusted comments of 0, 3, 70 and 1030 bytes, all key bytes, key ids, both signatures and every difference from the authentic values symbolic; texts whose signature lines hold any other number of bytes around the right one"},
    "C02": {"quick": "both representations, algorithm bytes symbolic (all 65536), data of 0, 1, 3, 64 bytes, legacy flag symbolic"},
    "C03": {"quick": "any key, data of 0, 1, 2, 64, 65, 200 bytes, comments of 0..3 ASCII bytes, shapes with blanks, tabs and 2/3/4-byte characters at either end, comments that begin like a prefix, and lengths of 65, 257, 1030 and 8200; sign with and without public key; text and bare round trips"},
    "C04": {"quick": "comments as in C03, all signature bytes, LF and CR LF line ends, blanks around the encoded lines; malformed texts: every prefix of the lines, sizes 0..90 of the decoded lines, any 4-character window of a base64 line; base64 of every 3-byte group with every padding; files that are missing, fail at a read, arrive in short reads or are not UTF-8"},
    "C05": {"quick": "byte inputs of every length 0..77 (secret keys: lengths around every field); texts with one or two lines of arbitrary shape (missing, prefix + any, any ASCII of 0..20 bytes, a 2-byte character at any place; encoded lines of 0..96 decoded bytes or any characters up to 8); whole texts of up to 6 arbitrary ASCII bytes; lines of up to 9000 characters; authentic boxes and keys with one line of arbitrary shape; limits of encrypted keys: all 2^128"},
    "C13": {"quick": "all 42 key bytes; inputs of 0..49 bytes; key lines with any 4-character window at start, middle and end, one character more or less; files as in C04"},
    "C14": {"quick": "all 158 key bytes; every truncation; comments of 0..2, 100 and 1030 bytes; every difference from a valid key in all fields"},
    "C15": {"quick": "passwords of 0, 1, 3, 6, 63, 130 and 1100 bytes (non-ASCII included), all key, salt and stored bytes, limits from 3 concrete pairs (all limits: C16)"},
    "C16": {"quick": "all pairs of 64-bit limits for the parameters; loading with all refused pairs (native replay bounded to 2^26 operations), with all pairs up to 2^22 operations, 32 MiB and p <= 1024, and with every pair within the bounds for which p = 1; peak heap of a refused key below 2^19 bytes"},
    "C17": {"quick": "short reads of the generator, failure at every draw; the drawn bytes are an injective pattern; provenance of the random input of both signatures of sign()"},
    "C18": {"quick": "contents of 0..4 bytes in every split, failure at every read in 5 kinds (19 for up to 2 bytes); contents of 65535, 65536, 65537 and 131073 bytes (symbolic at 5 places around the 64 KiB buffer) in 4 splits"},
    "C19": {"quick": "raw and prehashed, text and bare, data of 0, 1, 3, 65537, 131072 bytes after 0..2 skipped bytes; tampered key id, signature or global signature; failing (5 kinds) or short writes, a failing read (18 kinds) at any of the first 8 reads, a failing seek or position query; quiet and output flags"},
    "C20": {"quick": "all pairs of byte strings of 0..39 bytes of equal or neighbouring lengths, and of 63, 64, 65, 128 bytes; lengths that differ by 256; all key pairs"},
    "C21": {"quick": "writers taking at most 1, 7, 40 or all bytes, failing or accepting nothing at the first, second or a late write, failing flush, on either side; comments of 0, 3, 1030 bytes or default"},
    "C23": {"quick": "text and bare boxes, raw and prehashed, all keys, key ids and data of 2 bytes; trusted comments of 0, 3, 5 and 65..8200 bytes, blanks and multi-byte characters at either end; every one-byte difference in key id, signature and global signature, another comment; quiet, output and legacy flags"},
    "C24": {"quick": "all secret keys, seeds, nonces of 0, 7 and 64 bytes, a message of 3 bytes; compared strings of 1, 8, 32 and 33 bytes and whole secret keys; hashing of 74 secret bytes; every multiplication, squaring, reduction and multiply-add of arbitrary operands; on unoptimised IR, and for two pairs of secrets per run on the machine code of two build profiles (opt-level 1 and 3, x86-64)"},
    "C22": {"quick": "entries of 0, 1, 2, 3, 1023..1026, 2000 and 66000 bytes, first, middle and last character symbolic, one- and two-byte characters; a second entry that differs in content or length; failing prompts"},
}
HB = "all contents; every length from 0 to %s at once; every pair of pieces from %s; every first piece of 0..129 bytes with %s; triples from %s; pieces of one size (1..200, 11 sizes) over %s bytes; byte counts up to 2^58 by replacing the count in the state"
_q = HB % ("389 bytes", "(0 1 64 112 127 128 129 255 256 257 384) x (0 1 111 112 127 128 129 255 256 257)", "second pieces of 1 byte or ending at 111, 112, 127..129, 239, 240, 255..257", "(1 127 128 129 256)", "300")
_t = HB % ("899 bytes", "30 lengths up to 385 around all block and padding boundaries", "second pieces of 0..130 bytes", "(0 1 64 112 127 128 129 255 256 257 384)", "300 and 600")
BOUNDS["C11"] = {"quick": _q, "thorough": _t}
BOUNDS["C12"] = {"quick": _q + "; output sizes 1..64 for 0, 1, 128, 129 bytes (otherwise 64)", "thorough": _t + "; output sizes 1..64 for 0, 1, 128, 129 bytes (otherwise 64)"}
BOUNDS["C06"] = {"quick": "all 64-byte signatures and 32-byte keys, all messages of 0, 1, 3 and 130 bytes; scheme level, over arbitrary SHA-512, scalar reduction, point decoding, multiplication and encoding functions"}
BOUNDS["C07"] = {"quick": "all seeds, secret keys, random inputs of 0, 1, 32 and 64 bytes, all messages of 0, 1, 3 and 130 bytes; scheme level, over arbitrary kernel functions"}
BOUNDS["C08"] = {"quick": "unbounded in the values: all limbs below 2^54 (operands of multiplication, squaring, carry, encoding, left operand of subtraction), all carried or negated limbs (others); all 2^256 byte strings; exponents of the two powers exact"}
BOUNDS["C09"] = {"quick": "unbounded: all 2^512 inputs of sc_reduce, all 2^768 inputs of sc_muladd"}
for _p in TWICE:
    BOUNDS[_p]["quick"] += "; and a second call in a process that has made one before (what the first leaves behind)"
BOUNDS["C05"]["thorough"] = BOUNDS["C05"]["quick"]
ASSUME = {p: [CRYPTO, B64S, KILL] for p in BOUNDS}
ASSUME["C05"] = [CRYPTO, B64S]
ASSUME["C17"] = [CRYPTO, "getrandom(2) is the system call of the libc wrapper, modelled with short reads and failures"]
ASSUME["C20"] = []
for _p in ("C11", "C12"):
    ASSUME[_p] = ["the reference in harness/src/refhash.rs states the standard (h_hashv compares it with digests made by Python's hashlib)",
                  "for long messages: the only word of the state equal to the byte count is the byte count (otherwise that part is skipped)"]
BOUNDS["C10"] = {
    "quick": "formulas, conversions, encodings and decoding: unbounded (all limbs within the bounds of C08, all 2^256 strings); fixed base: all 2^256 scalars; double multiplication: all magnitudes of digits at every fifth place, in 6 arrangements of places and signs that cover every place, and every sign of 4 digits at 4 sets of places; recoding: all values of 9 adjacent bits at 5 places among zeros or ones, of 6 bits among alternating groups",
    "thorough": "as quick; double multiplication: 225 arrangements of places and signs, 94 sets of places; recoding: all values of 11 adjacent bits at 49 places among zeros or ones, of 7 bits among alternating groups",
}
ASSUME["C06"] = ASSUME["C07"] = ["SHA-512, scalar reduction and multiply-add, point decoding, multiplication and encoding are arbitrary functions here (C08-C11 decide them); natively the real ones run against plain big-integer arithmetic (harness/src/big.rs)"]
ASSUME["C08"] = ASSUME["C09"] = ASSUME["C10"] = ["bin/alg.py: a word equals its integer polynomial modulo its width; congruences are decided by polynomial normal form over the quotients and input words with a z3 query on the result, ranges by z3 linear arithmetic over the definitions of the quotients"]
ASSUME["C08"] = ASSUME["C08"] + ["for the two powers field elements are exponents: multiplication adds them (the operations are decided on limbs by the rest of C08)"]
ASSUME["C10"] = ASSUME["C10"] + [
    "the coordinates claimed are those of the complete twisted Edwards formulas (extended coordinates); that these give the group law is the theorem of Hisil et al., not checked here",
    "decoding and encodings: field elements are integer expressions, with arbitrary functions for encoding, the square-root power and inversion (decided by C08)",
    "scalar multiplication: points are integer multiples of the base point and of A, combined by the operations decided in h_c10f; double multiplication over given digits, the recoding is decided apart",
]
ASSUME["C21"] = [CRYPTO, B64S]
ASSUME["C24"] = [
    "products of field elements and reduced scalars are arbitrary values in the runs of whole operations; the steps that compute them are decided in runs of their own",
    "decided for the intermediate representation before optimisation; the machine code of two profiles is compared for two pairs of secrets per run",
    "time that one instruction takes for different operands, and what the caches do, is not looked at",
]

def bounds(prop, tier):
    return BOUNDS.get(prop, {}).get(tier) or BOUNDS.get(prop, {}).get("quick") or ""


def assumptions(prop):
    return ASSUME.get(prop, [])


def known(prop):
    """texts identifying listed findings of this property"""
    o = []
    try:
        for l in open(V + "/known_findings.txt"):
            if l.startswith("finding: property=%s " % prop):
                o.append(l.split(" ", 2)[2].strip())
    except OSError:
        pass
    return o


NOT_APPLICABLE = {}
HOW = {
    "C11": "term equality with FIPS 180-4 over symbolic content, differences closed by solver lemmas",
    "C12": "term equality with RFC 7693 over symbolic content, differences closed by solver lemmas",
    "C06": "verdict equivalence over symbolic signatures, keys and messages with uninterpreted kernels",
    "C07": "byte equality over symbolic seeds, keys and messages with uninterpreted kernels",
    "C08": "integer congruences and bounds over symbolic limbs and bytes (SMT linear arithmetic over the definitions of all quotients)",
    "C09": "integer congruences and bounds over symbolic bytes (SMT linear arithmetic over the definitions of all quotients)",
    "C10": "coordinates of sums and doublings as integer congruences over symbolic limbs; encodings, decoding and powers over expressions of field elements; scalar multiplication over multiples of points, with symbolic scalars or digits",
    "C01": "acceptance equivalence over symbolic boxes, keys and data",
    "C02": "mode and legacy decision over symbolic algorithm bytes",
    "C03": "sign/verify/round-trip equivalence over symbolic keys, data and comments",
    "C04": "text round trip and refusal over symbolic boxes",
    "C05": "panic, overflow and memory-safety obligations over symbolic inputs",
    "C13": "round trip and refusal over symbolic public keys",
    "C14": "round trip and load-iff-intact over symbolic secret keys",
    "C15": "stored form and opening over symbolic keys, salts and passwords",
    "C16": "parameters against libsodium's rule over all limits",
    "C17": "consistency and provenance of generated bytes, generator faults as choices",
    "C18": "stream splits and read faults as symbolic choices",
    "C19": "output bytes and write/read faults as symbolic choices",
    "C20": "equality against a reference over symbolic byte strings",
    "C21": "written bytes under symbolic writer faults",
    "C22": "prompt entries as symbolic strings",
    "C24": "no branch and no address may depend on symbolic secrets; traces of the compiled crate",
    "C23": "written bytes of standard error over symbolic boxes and flags",
}
NOTE = {
    "": "Every value of the symbolic inputs within the stated bounds, on the IR compiled from the current tree; "
        "trusts the executor, the solvers and the stand-ins listed in the evidence; counterexamples are confirmed natively.",
}
