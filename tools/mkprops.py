#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

FT="includes/field_template.hpp"; ET="includes/ecc_template.hpp"; DM="src/dme/dme.cpp"

prop("F01","Field operations are exact modular arithmetic with canonical results",
 "In each of the four prime fields (order and coordinate field of secp256r1 and bn254), constructing an element from any integer and applying +, -, unary -, *, square(), multiplication by an arbitrary integer, or a compound assignment yields exactly the mathematical result modulo the field's prime, held as its canonical representative in [0, p). Operands are left unchanged, also when both operands are the same object, and equality of elements is equality of residues.",
 ["inputs"],"every integer used to construct an element (any sign, any size) and every pair of field elements, in all four fields",
 "13 fixed additions/products in one field (secp256r1 p); residues near 0 and p, negative integers, self-aliasing, compound forms and the other three fields are not run",
 [FT,"src/fields/field_secp256r1.cpp","src/fields/field_bn254.cpp"],
 [("mpz_mod after each operation",FT),("modulus constants","src/fields/field_secp256r1.cpp, src/fields/field_bn254.cpp")],["PrimeField::getRawValue","PrimeField::getField","PrimeField::operator=="])
prop("F02","Inversion and division are exact in the field",
 "For every non-zero field element a and every b, a * a.invert() is one and (b / a) * a is b, with canonical results, in each of the four prime fields; the compound form /= gives the same value as /, also when an element is divided by itself.",
 ["inputs"],"every non-zero divisor and every dividend, in all four fields",
 "three fixed quotients/inverses in one field",
 [FT],[("mpz_invert","includes/field_template.hpp invert()"),("operator/ = multiply by inverse",FT)],["PrimeField::invert","PrimeField::operator/"])
prop("E01","Point validity and curve parameters are those of the named curves",
 "A finite point is reported valid exactly when its coordinates satisfy the curve equation of its curve (and it has a curve); the identity is always valid. The published parameters of secp256r1 and bn254 (prime, a, b, generator, order) are the standard ones, and the generator is a valid point whose multiple by the group order is the identity.",
 ["inputs"],"every pair of coordinates, on both curves",
 "isValid is only run on three valid points of one curve, never on an invalid point; bn254 is not built at all",
 [ET,"src/ecc/ecc_secp256r1.cpp","src/ecc/ecc_bn254.cpp"],[("Point::isValid",ET),("curve constructors","src/ecc/ecc_secp256r1.cpp, src/ecc/ecc_bn254.cpp")],["Point::isValid","Curve::getDefaultGen","Curve::getOrder","Curve::getPrime","Curve::getA","Curve::getB"])
prop("E02","Point addition and doubling implement the curve's group law",
 "For every two points on the curve, P + Q (and P += Q) is the chord-and-tangent sum: the identity is neutral on both sides, a point plus its inverse is the identity, a point plus itself equals pointDouble(), and every result is again a valid point of the same curve. pointDouble() of the identity is the identity. Operands are unchanged and self-addition in place is correct.",
 ["inputs"],"every pair of points (identity, equal, opposite, distinct) on both curves",
 "two fixed points of one curve; doubling of the identity, opposite points built independently, aliasing and bn254 are never run",
 [ET],[("Point::operator+ slope formula",ET),("Point::pointDouble",ET)],["Point::operator+","Point::operator+=","Point::pointDouble","Point::isValid","Point::isInf"])
prop("E03","Point subtraction is addition of the inverse, including the identity",
 "For every two points P and Q on the curve, P - Q (and P -= Q) equals P plus the inverse of Q: P - O is P, O - P is the inverse of P, P - P is O, O - O is O, and (P - Q) + Q is P. The result is a valid point that can be used in every further operation.",
 ["inputs"],"every pair of points including the identity on either side, on both curves",
 "one fixed pair and P - P; subtraction with the identity on either side is never run",
 [ET],[("Point::operator- builds the negated point and adds",ET)],["Point::operator-","Point::operator-="])
prop("E04","Scalar multiplication equals repeated addition for every scalar",
 "For every point P of the prime-order group and every integer scalar k (zero, negative and larger than the order included), P * k is the sum of (k mod n) copies of P; in particular P*0 is the identity, P*1 is P, P*n is the identity and P*(-1) is the inverse of P. The integer and field-element overloads and the compound forms agree, and multiplying the identity gives the identity.",
 ["inputs"],"every point and every scalar (all 256-bit residues; any integer before reduction), on both curves",
 "three scalars (10, 99, 90912389) on one point of one curve; no zero, negative, full-width or out-of-range scalar",
 [ET],[("double-and-add over the binary digits",ET),("reduction of integer scalars through the order field",ET)],["Point::operator*","Point::operator*="])
prop("E05","Point compression round-trips and curve evaluation is exact",
 "For every finite valid point P, decoding its encoded x-coordinate gives back P exactly (x and y). Evaluating the curve at x returns a valid point with that x-coordinate when one exists (the two evaluators returning points inverse to each other) and the identity otherwise, and evaluatePy2(x) is x^3 + a*x + b.",
 ["inputs"],"every finite point and every x in the coordinate field, on both curves",
 "one random point round-trip and two fixed evaluations; x without a point, both sign choices and bn254 are not run",
 [ET],[("getEncodedX / setEncodedX sign bit",ET),("square root by exponentiation, p = 3 mod 4",ET)],["Point::getEncodedX","Point::setEncodedX","Curve::evaluateP","Curve::evaluatePneg","Curve::evaluatePy2"])
prop("E06","Equality of values is equality of their contents",
 "Two points compare equal exactly when both are the identity or both are finite with the same coordinates on the same curve; two curves compare equal exactly when prime, a, b, order and cofactor agree; two CRSs, public keys, key pairs, ciphertexts or trapdoors compare equal exactly when all their components are equal. Copying or assigning any of these values yields an equal value that does not change when the original is modified.",
 ["inputs"],"every pair of values of each type",
 "tests only compare points expected equal (or two random ones); ciphertext, key, CRS and trapdoor comparison is never called",
 [ET,DM],[("Point::operator==, Curve operator==",ET),("component-wise operator== of CRS_DDH, PKEY, KeyPair, CTXT, td_*",DM)],["operator==","operator=","copy constructors"])
prop("E07","Generated scalars, points and key pairs are well-formed",
 "For every output of the underlying random source, a random scalar is a canonical residue below the group order, a random point is a valid group element, and a generated key pair satisfies public key = secret key * generator with the secret below the order. Every residue can be drawn.",
 ["inputs"],"every value the random source can return, on both curves",
 "tests draw a handful of values from a fixed seed and only use them in sums; generateKeyPair is never run",
 [ET],[("getRandomScalar, getRandomPoint, generateKeyPair draw from [0, order)",ET)],["Curve::getRandomScalar","Curve::getRandomPoint","Curve::generateKeyPair"])
prop("D01","Message encoding to a curve point is invertible",
 "For every integer message m with 0 <= m < 2^245, if encode(m) returns after at most 1024 candidate x-coordinates then it returns a finite valid point and decode of it is exactly m. The candidate x-coordinates are tried from m shifted left by the encoding width upwards, so distinct messages never share a code point.",
 ["inputs"],"every message below 2^245 and every pattern of which candidate x-coordinates lie on the curve",
 "three fixed or fixed-seed messages, each finding a point within a few candidates",
 [DM,"includes/dme.hpp"],[("ENCODING_SHIFT low bits are the search counter","includes/dme.hpp, "+DM),("encode/decode",DM)],["DME_DDH::encode","DME_DDH::decode"])
prop("D02","A key's own branch always decrypts to the encrypted message",
 "For each mode (messy, decryption, or a scheme built from another's CRS), each branch b, every secret key and every message point m, decrypting with the key generated for branch b a ciphertext encrypted on branch b yields m, whatever randomness the CRS, key and encryption draw (zeros included). An integer message below the encoding bound encrypted and then decrypted with decoding returns the same integer.",
 ["inputs"],"all random draws, both branches, all CRS origins, all group messages; integer messages through the encoding contract",
 "about ten fixed-seed runs; degenerate draws (zero scalars), identity messages and decryption with a CRS imported in decryption mode are not run",
 [DM,"includes/dme.hpp"],[("KeyGen, Enc, Dec over the branch's (g,h)",DM),("CRS import re-targets the curve","CRS_DDH::updateCurve in "+DM)],["DME_DDH::KeyGen","DME_DDH::Enc","DME_DDH::Dec","DME_DDH::DecDecode"])
prop("D03","In messy mode the other branch perfectly hides its message",
 "In messy mode with a non-degenerate CRS and a key generated for branch b, a ciphertext on the other branch is statistically independent of the message: for every ciphertext and every alternative message there is encryption randomness producing that same ciphertext. FindMessy, on the instance holding the trapdoor, returns for every public key (honest or not, not the identity) a branch that hides in this sense, and for an honestly generated key the branch other than the key's own.",
 ["inputs"],"every CRS draw, key, message pair and encryption randomness; FindMessy over every public key",
 "the tests only see that one decryption of the wrong branch differs from the message and FindMessy on two honest keys",
 [DM],[("messy CRS: independent exponents e0, e1",DM),("FindMessy compares pk.h with pk.g * e0",DM)],["DME_DDH::DME_DDH(mode_t)","DME_DDH::Enc","DME_DDH::FindMessy"])
prop("D04","In decryption mode trapdoor keys open both branches and keys hide the branch",
 "In decryption mode with a non-degenerate CRS, TrapKeyGen returns a public key and two secret keys such that the first decrypts every branch-0 ciphertext and the second every branch-1 ciphertext under that public key. Every public key generated for one branch is also a possible public key of the other branch (the trapdoor relates the two secret keys), so the public key does not reveal the branch.",
 ["inputs"],"every CRS draw, trapdoor key, message and encryption randomness",
 "one fixed-seed trapdoor key, one message per branch; key indistinguishability is never examined",
 [DM],[("decryption-mode CRS is a DDH tuple with g1 = g0*y",DM),("TrapKeyGen returns r and r/y",DM)],["DME_DDH::DME_DDH(mode_t)","DME_DDH::TrapKeyGen","DME_DDH::KeyGen","DME_DDH::Dec"])
prop("D05","Homomorphic evaluation decrypts to the sum of the messages",
 "For every key and branch, combining ciphertexts of the same branch with Eval, in any number and order, gives a ciphertext that the branch's key decrypts to the sum of the messages; the inputs are unchanged and combining a ciphertext with itself doubles its message.",
 ["inputs"],"all keys, messages and randomness, both branches and both modes; chains of up to 4 ciphertexts",
 "one pair of ciphertexts on branch 0 of a messy CRS",
 ["src/dme/dmhe.cpp","includes/dmhe.hpp",DM],[("component-wise addition","src/dme/dmhe.cpp")],["DMHE_DDH::Eval","DME_DDH::Dec"])
prop("O01","Oblivious transfer delivers exactly the chosen message",
 "For each selection bit, every pair of messages (group points, or integers below the encoding bound) and all randomness, a receiver that selects b and decrypts the sender's reply obtains message b, for senders and receivers sharing a CRS of either mode. A receiver or sender object can be reused: a later transfer is governed by the later selection and later messages only.",
 ["inputs","histories"],"both selections, all messages and random draws, sequences of two transfers over the same objects",
 "three transfers with fixed seeds in messy mode; integer transfer only for selection 0",
 ["src/ot/ot.cpp","includes/ot.hpp"],[("selectMsg stores key and branch","src/ot/ot.cpp"),("encMsgs clears and refills the reply","src/ot/ot.cpp")],["OTrecv::selectMsg","OTrecv::decryptMsg","OTrecv::decryptMsgDecode","OTsndr::encMsgs"])
prop("O02","The distributed OT proxy delivers the sum of the chosen messages",
 "For any number k >= 1 of senders replying to one receiver key, aggregating their replies and decrypting gives the sum of the k messages on the receiver's chosen branch, for both branches and all randomness. Aggregation is independent of earlier aggregations done by the same proxy and leaves its inputs unchanged.",
 ["inputs","histories"],"1 to 4 senders, both selections, all messages and randomness, two consecutive aggregations on one proxy",
 "one aggregation of three senders on branch 0",
 ["src/ot/dot.cpp","includes/dot.hpp","src/dme/dmhe.cpp"],[("aggregate folds Eval over both components","src/ot/dot.cpp")],["DOTprxy::aggregate","OTrecv::decryptMsg"])
prop("G01","ElGamal decrypts what it encrypts and randomises every encryption",
 "For every key pair generated by the scheme, every integer message below the encoding bound (2^235) and all randomness, decrypting the encryption of the message gives the message back; the public key is the secret key times the generator. Each encryption, the first or a later one, uses an exponent of its own drawn from the whole scalar field, so every group element is a possible first component and different exponents give different ciphertexts.",
 ["inputs"],"every key, message and random draw",
 "the ElGamal test is empty and neither the test nor the source is compiled by the build",
 ["src/elgamal/elgamal.cpp","includes/elgamal.hpp"],[("encrypt/decrypt","src/elgamal/elgamal.cpp"),("keyGen via generateKeyPair","includes/elgamal.hpp")],["ElGamal::keyGen","ElGamal::encrypt","ElGamal::decrypt"])
prop("S01","Any threshold of Shamir shares reconstructs the secret",
 "For every secret, every threshold t >= 1 and number of shares n >= t, and all randomness, reconstructing from any set of at least t of the n shares, in any order, gives exactly the secret; shares carry distinct non-zero indices.",
 ["inputs","configurations"],"every secret and all coefficients; n up to a stated bound with every t, and every subset of at least t shares",
 "one secret (11), one (t, n) = (7, 10), reconstructing from all 10 shares only",
 ["src/shamirss/shamirss.cpp","includes/shamirss.hpp"],[("polynomial evaluation","ShamirSS::getShares/evalPoly"),("Lagrange interpolation at zero","ShamirSS::reconSecret")],["ShamirSS::getShares","ShamirSS::reconSecret"])
prop("S02","Fewer than the threshold of Shamir shares reveal nothing",
 "For every threshold t >= 2, every set of t-1 shares produced for one secret is also producible for every other secret: for every pair of secrets and every randomness used with the first there is randomness for the second that yields the same t-1 shares.",
 ["inputs","configurations"],"every pair of secrets and all coefficients; n up to a stated bound with every t and every (t-1)-subset",
 "a test sees single share sets and cannot observe a distribution; nothing in the suite examines t-1 shares",
 ["src/shamirss/shamirss.cpp"],[("choice of the polynomial's coefficients","ShamirSS::getShares")],["ShamirSS::getShares"])
prop("P01","PUDA aggregation returns the exact sum of the users' values",
 "For every set of users' values whose sum fits in 16 bits, every timestamp and all keys from Setup, aggregating one ciphertext per user with the aggregation key gives exactly the sum. The result does not depend on the order of the ciphertexts.",
 ["inputs","configurations"],"every timestamp and all random draws; number of users and the sum bounded as stated (with the discrete-logarithm search unrolled over the stated ranges, the ends of the 16-bit range included)",
 "one run: ten users all with value 2 and one timestamp",
 ["src/puda/puda.cpp","includes/puda.hpp"],[("aggregation key is minus the sum of encryption keys","Puda::Setup"),("exhaustive discrete logarithm","Puda::compute_dlog")],["Puda::Setup","Puda::Enc","Puda::Agg"])
prop("P02","PUDA aggregate tags satisfy the verification equation",
 "For all keys from Setup, all users' values and every timestamp, the aggregated tag equals t*hash times the sum of the users' tag keys plus (a times the sum of the values) times the generator, where the verification key holds exactly those exponents, so the aggregate satisfies the scheme's verification equation for the true sum and for no other sum modulo the group order; verification accepts an honest aggregate.",
 ["inputs","configurations"],"every timestamp, value and random draw; number of users bounded as stated",
 "the single test discards Verify's result and never inspects a tag",
 ["src/puda/puda.cpp","includes/puda.hpp"],[("Tag, Agg, verification key in Setup","src/puda/puda.cpp")],["Puda::Tag","Puda::Agg","Puda::Setup","Puda::Verify"])
prop("P03","PUDA verification rejects a wrong sum",
 "For all keys from Setup and every timestamp, verifying an aggregated tag against a sum different from the true one modulo the group order is rejected.",
 ["inputs"],"every key, timestamp, value and wrong sum",
 "the test ignores the result of Verify and never presents a wrong sum",
 ["src/puda/puda.cpp"],[("Verify","src/puda/puda.cpp")],["Puda::Verify"])
prop("Q01","OPPRF gives the programmed value to every client at or below the threshold",
 "For every threshold theta and client input x with x <= theta (all 16-bit values), every secret group element, every order in which the server shuffles its ciphertexts and all other randomness, the client's final result is the server's OPPRF key plus x times the secret element. This holds for every evaluation of a sequence in which both sides are cleaned in between.",
 ["inputs","histories"],"all 16-bit theta and x with x <= theta, all secrets and random draws; two consecutive evaluations",
 "three values of x for theta = 1000 with a fixed seed",
 ["src/opprf/opprf.cpp","includes/opprf.hpp"],[("per-bit key chain k_lt/k_eq/k_gt","OPPRFserver::prepareKeysAndInputs"),("trial decryption by the client","OPPRFclient::runOTRound_end"),("masking","OPPRFserver::sendEncryptedMasks, OPPRFclient::unmaskResult")],["OPPRFclient::getResult","OPPRFserver::getKOPPRF"])
prop("Q02","OPPRF above the threshold reveals nothing about the OPPRF key",
 "For every threshold theta and client input x with x > theta (all 16-bit values), the client's final result is masked by a fresh random group element and does not depend on the server's OPPRF key for that evaluation; it equals key plus x times the secret only for one single value of that random element.",
 ["inputs"],"all 16-bit theta and x with x > theta, all secrets and random draws",
 "every tested x is below the threshold",
 ["src/opprf/opprf.cpp"],[("k_gt chain leads to a random mask","OPPRFserver::prepareKeysAndInputs, sendEncryptedMasks")],["OPPRFclient::getResult","OPPRFserver::getKOPPRF"])
prop("A01","AES encryption round-trips for every message and key",
 "For every key of at most 128 bits and every non-negative integer message up to the stated size, decrypting an encryption under the same key returns the message, with the (key, message) argument order the header declares; the checksummed variant returns the message as well. Leading zero bytes in key, message or ciphertext make no difference.",
 ["inputs"],"all 128-bit keys and all messages up to the stated number of bytes, and every keystream (block cipher uninterpreted)",
 "one fixed-seed 128-bit key and message",
 ["src/utilities/aes.cpp","includes/aes.hpp","includes/crc.hpp","src/utilities/utilities.cpp"],[("integer to byte-string conversion around AES-CTR","AES::encrypt, AES::decrypt"),("CRC wrapper","AES::encryptCRC, AES::decryptCRC")],["AES::encrypt","AES::decrypt","AES::encryptCRC","AES::decryptCRC"])
prop("A02","Checksummed AES rejects corrupted ciphertexts",
 "For every key and message up to the stated size, a ciphertext of the checksummed variant in which one or more bits within at most four consecutive bytes of the encrypted payload have been flipped decrypts to the failure value 0 (for a non-zero message), never to a different message.",
 ["inputs"],"all keys, keystreams, messages up to the stated size, span positions and flip patterns",
 "no test decrypts a corrupted ciphertext",
 ["src/utilities/aes.cpp","includes/crc.hpp"],[("validateCRC before removeCRC","AES::decryptCRC")],["AES::decryptCRC"])
prop("R01","CRC-32C computation matches its definition for every buffer",
 "For every initial value, every buffer content, every length and every alignment of the buffer, the checksum routine returns the CRC with reflected polynomial 0x82F63B78 defined bit by bit (no initial or final inversion), reading only the bytes of the buffer; computing it over two consecutive pieces equals computing it over the whole.",
 ["inputs"],"all contents and initial values; lengths and alignments up to the stated bound (every code path: short, head, 8-byte blocks, tail)",
 "one 128-byte buffer through append/validate, which would pass with any deterministic checksum",
 ["includes/crc.hpp"],[("single-table and slicing-by-8 variants selected by length and alignment","includes/crc.hpp")],["calculate_crc32c"])
prop("R02","CRC append, validate and remove are consistent and detect corruption",
 "For every non-negative integer n up to the stated size, the value with appended checksum validates, and removing the checksum returns n. Flipping bits within at most four consecutive bytes of the checksummed value (keeping its byte length) makes validation fail.",
 ["inputs"],"all integers up to the stated number of bytes; all span positions and flip patterns",
 "one 1024-bit value; zero, short values and corrupted values are never tried",
 ["includes/crc.hpp"],[("appendCRC / validateCRC / removeCRC","includes/crc.hpp")],["appendCRC","validateCRC","removeCRC"])
prop("U01","Integer/byte-string conversion is lossless big-endian",
 "For every non-negative integer up to the stated size, exporting it gives its minimal big-endian byte string (no leading zero byte) and importing that gives the integer back; importing any byte string gives the integer it denotes in base 256, most significant byte first.",
 ["inputs"],"all integers and all byte strings up to the stated number of bytes",
 "only exercised indirectly on three fixed-seed values",
 ["src/utilities/utilities.cpp","includes/utilities.hpp"],[("mpz_export/mpz_import parameters","src/utilities/utilities.cpp")],["utils::getRawMpz","utils::setRawMpz"])
prop("M01","Byte-level routines stay inside their buffers for every input",
 "For every non-negative integer up to the stated size (zero included) and every key of at most 128 bits, checksum append/validate/remove and AES encryption/decryption (plain and checksummed) never read or write outside the objects they own and never read uninitialised memory.",
 ["inputs"],"all values and keys up to the stated number of bytes, with the boundary lengths around the internal buffers included",
 "the tests run single 16-byte and 128-byte values without a memory checker; heap overruns of a few bytes go unnoticed",
 ["includes/crc.hpp","src/utilities/aes.cpp","src/utilities/utilities.cpp"],[("buffer sizing in appendCRC, AES::encrypt/decrypt","includes/crc.hpp, src/utilities/aes.cpp")],["appendCRC","validateCRC","removeCRC","AES::encrypt","AES::decrypt"])
prop("L01","Protocol objects can be copied and outlived safely",
 "A copy of an encryption scheme, OT party or aggregation object is usable and independent: after one of the two is destroyed the other still performs its operations correctly, and destroying both is well-defined. A CRS taken from a scheme remains usable to build another scheme after the first is destroyed.",
 ["histories","inputs"],"copy construction and copy assignment followed by destruction of either object in either order, for all random draws",
 "no test copies such an object or destroys the original before using what came from it in a checked way",
 ["includes/dme.hpp",DM,"includes/puda.hpp","src/puda/puda.cpp","includes/ot.hpp"],[("ownership of the curve object","DME_DDH::curve, Puda::pp"),("updateCurve",DM)],["DME_DDH","OTrecv","OTsndr","Puda"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
