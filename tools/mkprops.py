#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code only so the long lines stay reviewable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mechanism],
            "observe_at": list(observe), "hook_needed": None}})

prop("C01", "SHA-256, HMAC-SHA-256 and PBKDF2 compute the standard functions",
 "For every message and every way of splitting it into update calls, the hash, HMAC and PBKDF2 interfaces return exactly the FIPS 180-4 SHA-256, RFC 2104 HMAC-SHA-256 and RFC 8018 PBKDF2 values, on every CPU code path (portable, SSE2, SHA-NI). The inputs are not modified and nothing outside the output is written.",
 ["inputs", "histories", "configurations"], "all keys, messages, salts, iteration counts and output lengths; all update sequences; all selectable compression-function implementations",
 "Tests compare a handful of end-to-end scrypt outputs on one CPU path; block-boundary, padding, long-key and bit-count carry cases are never sampled.",
 ["libcperciva/alg/sha256.c", "libcperciva/alg/sha256_sse2.c", "libcperciva/alg/sha256_shani.c", "libcperciva/util/sysendian.h"],
 [("streaming buffer + bit count in the hash context", "libcperciva/alg/sha256.c SHA256_Update_internal/SHA256_Pad"), ("key hashing and ipad/opad", "libcperciva/alg/sha256.c HMAC_SHA256_Init_internal"), ("block loop with hoisted salt state", "libcperciva/alg/sha256.c PBKDF2_SHA256")],
 [("SHA256_CTX", "chaining value after all whole blocks, byte/bit count, partial block", "libcperciva/alg/sha256.h")],
 ["digest / derived key bytes returned"])

prop("C02", "The scrypt KDF computes RFC 7914 scrypt for all valid parameters",
 "For every passphrase, salt, N, r, p and output length accepted, the derived key equals scrypt(P, S, N, r, p, dkLen) of RFC 7914, whichever mixing implementation (portable or SSE2) is selected.",
 ["inputs", "configurations"], "all passphrases, salts, N=2^k, r, p, output lengths; both mixing implementations",
 "Known-answer tests use four parameter sets and only the implementation the test machine selects.",
 ["lib-platform/crypto/crypto_scrypt.c", "lib/crypto/crypto_scrypt_smix.c", "lib/crypto/crypto_scrypt_smix_sse2.c"],
 [("Salsa20/8, BlockMix, ROMix", "lib/crypto/crypto_scrypt_smix.c"), ("SSE2 shuffled-layout ROMix", "lib/crypto/crypto_scrypt_smix_sse2.c"), ("PBKDF2 framing over p lanes", "lib-platform/crypto/crypto_scrypt.c _crypto_scrypt")],
 [("V, XY, B", "ROMix table, working blocks, p lanes of 128r bytes", "lib-platform/crypto/crypto_scrypt.c")],
 ["crypto_scrypt output buffer"])

prop("C03", "KDF rejects invalid parameters and never under-allocates",
 "The KDF fails, with the documented error, exactly when r or p is zero, r*p >= 2^30, N is not a power of two greater than one, the output length exceeds (2^32-1)*32, the working set does not fit the address space, or memory cannot be obtained; in every other case it succeeds. Every buffer it uses is at least as large as the accesses made to it, for every parameter value, and everything it acquired is released on every path.",
 ["inputs", "fault_sequences"], "all 64-bit N, all 32-bit r and p, all lengths; every allocation failing or succeeding",
 "Tests never pass invalid or near-overflow parameters to the KDF and never fail an allocation.",
 ["lib-platform/crypto/crypto_scrypt.c", "lib/crypto/crypto_scrypt_smix.c", "lib/crypto/crypto_scrypt_smix_sse2.c"],
 [("parameter and size_t overflow checks", "lib-platform/crypto/crypto_scrypt.c _crypto_scrypt"), ("error unwinding", "lib-platform/crypto/crypto_scrypt.c _crypto_scrypt")],
 (), ["return value, errno, allocations"])

prop("C04", "AES-256-CTR stream is exact for any call partition and implementation",
 "Byte i of the stream output equals byte i of the input XOR byte (i mod 16) of AES_k(nonce || i div 16), however the stream is divided into calls, in place or not, and with or without AES-NI. AES-NI key expansion and block encryption compute AES of FIPS 197.",
 ["inputs", "histories", "configurations"], "all keys, nonces, data, lengths, and sequences of call lengths; both implementations and mixtures of them",
 "Tests stream one fixed-size file; call boundaries inside a block, counter carries and the non-accelerated path are not sampled.",
 ["libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aesctr_shared.c", "libcperciva/crypto/crypto_aesctr_aesni.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aes_aesni.c"],
 [("partial block pre/post processing and counter encode", "libcperciva/crypto/crypto_aesctr_shared.c"), ("AES-NI key schedule", "libcperciva/crypto/crypto_aes_aesni.c")],
 [("struct crypto_aesctr", "bytes consumed so far, current counter block and keystream block", "libcperciva/crypto/crypto_aesctr.c")],
 ["stream output bytes"])

prop("C05", "Encryption output conforms to the documented format",
 "A successful encryption of n bytes produces exactly n+128 bytes: the 'scrypt' magic, version 0, log2 N, r, p, the salt, the 16-byte SHA-256 checksum, the header HMAC, the AES-256-CTR ciphertext under the first half of the derived key with nonce 0, and the HMAC-SHA-256 of everything before it under the second half. This holds for the buffer and the file interface.",
 ["inputs"], "all plaintexts and lengths, passphrases, parameter choices and salts",
 "Random salt makes the output unpredictable, so tests only check that this build can read back its own output for one plaintext.",
 ["lib/scryptenc/scryptenc.c", "FORMAT"],
 [("header construction", "lib/scryptenc/scryptenc.c scryptenc_setup"), ("body and trailer", "lib/scryptenc/scryptenc.c scryptenc_buf/scryptenc_file")],
 (), ["output buffer or file contents"])

prop("C06", "Decryption inverts encryption",
 "Whatever the encryption interfaces (buffer or file) produce under a passphrase, the decryption interfaces (buffer or file, in any combination) accept under that passphrase given sufficient resource limits or force, and return exactly the original plaintext and its length.",
 ["inputs"], "all plaintexts and lengths (including empty), passphrases, salts and accepted parameters",
 "Tests round-trip a single file under one passphrase.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/crypto/crypto_aesctr.c"],
 [("enc/dec pair", "lib/scryptenc/scryptenc.c")], (), ["decrypted output and status"])

prop("C07", "Nothing is accepted as decrypted unless every authenticator verifies",
 "Decryption reports success only if the input is at least 128 bytes, begins with the magic and version 0, its header parameters are valid, its checksum matches, its header HMAC and its trailing HMAC both match under the key derived from the passphrase; and any input meeting all of these (within resource limits) is accepted. Each failure yields the corresponding documented error code, a wrong passphrase being reported as such.",
 ["inputs"], "all byte strings as input, all passphrases",
 "Tests try one wrong passphrase and one non-scrypt file; forged or bit-flipped inputs at each field are infinitely many.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/crypto/crypto_verify_bytes.c"],
 [("checksum, header HMAC", "lib/scryptenc/scryptenc.c scryptdec_setup"), ("trailing HMAC", "lib/scryptenc/scryptenc.c scryptdec_buf/scryptdec_file_copy")],
 (), ["return code"])

prop("C08", "No output exists before the passphrase is verified",
 "The file-decryption interface writes no byte to the output, and the command-line tool does not create or truncate the output file, unless the header has been completely read and verified under the passphrase.",
 ["inputs", "histories", "fault_sequences"], "all inputs, passphrases, and failure points",
 "Tests check one wrong passphrase leaves no file; each failing check on the path is a separate case.",
 ["main.c", "lib/scryptenc/scryptenc.c"],
 [("prep/copy split", "lib/scryptenc/scryptenc.c scryptdec_file_prep, scryptdec_file_copy"), ("output opened after prep", "main.c")],
 (), ["fopen/fwrite calls on the output"])

prop("C09", "File streaming equals buffer semantics and reports every I/O error",
 "For every input length and every pattern of read, write and flush outcomes, the file interfaces either transform exactly the whole input as the buffer interfaces would and report success, or report failure; a read error, a write error (including one only detected when buffered output is flushed) or a truncated input is never reported as success.",
 ["inputs", "fault_sequences"], "all file lengths; every fread/fwrite/flush outcome at every call",
 "Tests use one small file on a healthy file system; no I/O fault is ever injected.",
 ["lib/scryptenc/scryptenc.c", "main.c"],
 [("chunk loops with 32-byte hold-back", "lib/scryptenc/scryptenc.c scryptdec_file_copy"), ("chunk loop", "lib/scryptenc/scryptenc.c scryptenc_file")],
 (), ["return code, output file"])

prop("C10", "Resource limits are honoured",
 "Without force, decryption runs the KDF only if its memory (128*N*r) and CPU (4*N*r*p operations) needs are within the limits computed from the caller's settings, and otherwise reports memory, time or both as too large; automatically picked encryption parameters are valid and within the limits. The usable-memory computation never exceeds the requested limits except for the documented 1 MiB floor.",
 ["inputs", "configurations"], "all headers, all memory/time limit settings, all machine memory and speed readings",
 "Tests try three limit settings on one machine.",
 ["lib/scryptenc/scryptenc.c", "lib-platform/util/memlimit.c", "lib/scryptenc/scryptenc_cpuperf.c"],
 [("limit comparison", "lib/scryptenc/scryptenc.c checkparams/pickparams"), ("memory limit", "lib-platform/util/memlimit.c memtouse")],
 (), ["return code, KDF invocations"])

prop("C11", "Key material is erased before the functions return",
 "On every return path, successful or failing, of the encryption, decryption, KDF, key-handling and entropy functions, every private memory region that held a passphrase copy, derived key material (the KDF output), expanded AES key or the random generator's internal state is overwritten before it is released or goes out of scope.",
 ["inputs", "fault_sequences"], "all inputs, and every combination of failing calls",
 "Tests observe only outputs; leftover memory contents are invisible to them.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_entropy.c", "libcperciva/util/insecure_memzero.c", "main.c"],
 [("insecure_memzero on unwinding", "throughout")], (), ["memory contents at return/free"])

prop("C12", "Random bytes come from a correctly operated HMAC_DRBG",
 "The random generator follows SP 800-90A HMAC_DRBG(SHA-256): instantiate from fresh system entropy, reseed after the interval, per-request length limit, and update after each request; it succeeds only if all requested entropy was actually read, and an entropy failure makes it (and encryption, with the salt error code) fail without using uninitialised or short data.",
 ["inputs", "histories", "fault_sequences"], "all request-length sequences; all read outcomes from the entropy source",
 "Generator output is unpredictable in tests; failing or short entropy reads are never injected.",
 ["libcperciva/crypto/crypto_entropy.c", "libcperciva/util/entropy.c", "lib/scryptenc/scryptenc.c"],
 [("instantiate/reseed/generate/update", "libcperciva/crypto/crypto_entropy.c"), ("read loop", "libcperciva/util/entropy.c")],
 [("drbg", "Key, V, reseed counter", "libcperciva/crypto/crypto_entropy.c")], ["generator output, return code"])

prop("C13", "The passphrase used is exactly the one supplied",
 "From an environment variable, a file, standard input or a terminal, the passphrase delivered is exactly the supplied text up to its line terminator; multi-line or over-long files, missing variables and read errors are rejected; with confirmation, two entries must be equal before success.",
 ["inputs", "histories"], "all file/terminal/environment contents and entry sequences",
 "Tests use one short passphrase per source.",
 ["lib/util/passphrase_entry.c", "libcperciva/util/readpass.c", "libcperciva/util/readpass_file.c"],
 [("line reading and terminator stripping", "libcperciva/util/readpass.c"), ("file checks", "libcperciva/util/readpass_file.c")], (), ["returned string and status"])

prop("C14", "Human-readable size parsing and printing are exact",
 "Parsing a size accepts exactly a decimal integer with an optional SI prefix and optional B, yields its exact value, and rejects everything else including values over 2^64-1; printing a size never overstates it, stays within one unit in the last printed digit, and never exceeds its buffer.",
 ["inputs"], "all strings; all 64-bit values",
 "Tests sample at most a few sizes through command-line options.",
 ["libcperciva/util/humansize.c"],
 [("state machine parser", "libcperciva/util/humansize.c humansize_parse"), ("formatter", "libcperciva/util/humansize.c humansize")], (), ["value, status, string"])

prop("C15", "Command line: options are validated and exit status 0 means complete success",
 "The tool exits 0 only if the requested operation completed and its output was delivered; otherwise it exits nonzero. Numeric options outside their documented ranges, including NaN and negative numbers, and inconsistent option combinations are rejected, and accepted values and documented defaults reach the library unchanged.",
 ["inputs", "fault_sequences"], "all argument vectors; all outcomes of every library and system call",
 "Tests exercise a dozen command lines with no failing calls.",
 ["main.c", "libcperciva/util/parsenum.h", "libcperciva/util/getopt.c"],
 [("option switch and range checks", "main.c"), ("number parsing with bounds", "libcperciva/util/parsenum.h")], (), ["exit status, arguments passed on"])

prop("C16", "Parameter display shows the true header values",
 "The info mode and verbose output print N, r, p and the memory needed exactly as encoded in a well-formed header, for every representable parameter value, the memory figure saturating at 2^64-1 bytes ('at least'), and a header that is truncated or has wrong magic, wrong version or invalid parameters is rejected with the corresponding error.",
 ["inputs"], "all inputs to info mode; all parameter values",
 "Tests do not cover hostile headers or large parameter values.",
 ["lib/scryptenc/scryptenc.c", "main.c", "libcperciva/util/humansize.c"],
 [("header decode for display", "lib/scryptenc/scryptenc.c scryptdec_file_printparams, display_params")], (), ["text printed, return code"])

prop("C17", "Hostile input cannot cause undefined behaviour",
 "For every input to the decryption, info and parsing interfaces, no memory access leaves its object, no signed overflow, invalid shift, or division by zero occurs, and no assertion fails.",
 ["inputs"], "all byte strings, lengths and settings",
 "Tests use well-formed inputs apart from one garbage file, and run without sanitizers.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/util/humansize.c", "libcperciva/util/readpass.c"],
 [("length checks before reading", "lib/scryptenc/scryptenc.c")], (), ["absence of traps"])

prop("C18", "Every acquired resource is released exactly once on every path",
 "Each memory block, key object, stream object and file handle acquired by an interface is released exactly once or handed to the caller, on success and on every failure path; nothing is used after release.",
 ["inputs", "fault_sequences"], "every combination of failing allocations, reads, writes and opens",
 "Tests inject no failures, so unwinding code never runs.",
 ["lib/scryptenc/scryptenc.c", "lib-platform/crypto/crypto_scrypt.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/util/readpass.c", "libcperciva/util/readpass_file.c", "main.c"],
 [("goto-based unwinding", "throughout")], (), ["allocator and file calls"])

prop("C19", "Authenticator comparison is exact and data-independent",
 "The comparison used for authenticators returns equality exactly when all compared bytes are equal, and its control flow and memory addresses do not depend on the data compared.",
 ["inputs"], "all pairs of buffers, all lengths",
 "Tests compare a few equal/unequal MACs; timing-independence is not observable in tests.",
 ["libcperciva/crypto/crypto_verify_bytes.c"],
 [("or-accumulated difference", "libcperciva/crypto/crypto_verify_bytes.c")], (), ["return value, control flow"])

prop("C20", "Accelerated code runs only when supported and self-tested",
 "A CPU-specific implementation is used only if the CPU reports the instructions it needs and, where one exists, its self-test agreed with the portable implementation; otherwise the portable implementation is used, with identical results.",
 ["inputs", "configurations"], "all CPU feature reports and self-test outcomes, all call orders",
 "Tests run on one CPU, where every feature is present.",
 ["libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_entropy.c", "lib-platform/crypto/crypto_scrypt.c", "libcperciva/cpusupport"],
 [("hwaccel_init and self tests", "libcperciva/alg/sha256.c, libcperciva/crypto/crypto_aes.c, crypto_aesctr.c"), ("cpuid probes", "libcperciva/cpusupport")], (), ["which implementation is called"])

prop("C21", "Terminal echo and signal dispositions are restored",
 "After passphrase entry returns, on success or failure, terminal settings and signal handlers are as before; a signal received during entry is re-delivered after restoration, and files opened for entry are closed.",
 ["histories", "fault_sequences"], "all outcomes of terminal, signal and read calls, all signals received",
 "Tests never use a terminal.",
 ["libcperciva/util/readpass.c"],
 [("tcsetattr/sigaction save and restore", "libcperciva/util/readpass.c")], (), ["terminal and signal calls made"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
