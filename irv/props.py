ENGINE = ['irv VC generator (/verif/irv: LLVM IR semantics, term canonicaliser, memory model, loop rule)', 'clang 18 -O0 front end + opt sroa,simplifycfg (C to LLVM IR)', 'z3 (API), cvc5']
IRASM = ['C semantics as given by clang 18 at -O0 for x86-64 with the build\'s configuration headers; machine integers are bit-vectors, never mathematical',
         'objects are at distinct addresses, not wrapping around the address space; sizes below 2^63']
def P(mods, witness=(), trusted=(), assumptions=(), **kw):
    return dict(modules=mods, witness=list(witness), trusted=ENGINE + list(trusted), assumptions=IRASM + list(assumptions), **kw)
PROPS = {
 'C01': P(['c_hash'], ['wit_hash'], ['Intel SDM semantics of SHA-NI / SSSE3 instructions as written in irv/intrin.py', 'FIPS 180-4 / RFC 2104 / RFC 8018 specification terms in irv/spec.py, irv/c_hash.py'],
          ['messages shorter than 2^61 bytes (FIPS 180-4 limit)', 'fold over blocks depends only on the blocks (definition of the fold)', 'hash input does not overlap context (callers are checked)', 'ARM implementations are outside the build']),
 'C04': P(['c_aes'], ['wit_aes'], ['Intel SDM semantics of AES-NI instructions as written in irv/intrin.py', 'libcrypto AES_set_encrypt_key / AES_encrypt compute AES (used on the portable path)', 'FIPS 197 specification terms in irv/spec.py'],
          ['streams shorter than 2^60 bytes per call and 2^63 in total', 'ARM implementations are outside the build']),
 'C14': P(['c_util'], ['wit_util'], ['C library vsnprintf (ISO C semantics of %d %c %s %ju conversions)'],
          ['the C locale digits; strings shorter than 2^60 bytes', 'automaton lemma: the SI multiplier of the specification automaton is a power of 1000 (7 values)']),
 'C19': P(['c_util'], ['wit_util'], [], ['data independence is shown for the LLVM IR of the source (branches, addresses, library comparisons); later compiler stages and instruction timing are outside', 'buffers shorter than 2^62 bytes']),
}
HASHDEP = r'(sha256\.(update|final|init)|hmac\.)'
CTRDEP = r'(sha256\.(update|final|init)|hmac\.|aesctr|aes\.)'
LIBC = ['C library and libcrypto functions behave as documented (stream, allocation and clock models in irv/c_stdio.py, irv/env.py)']
KDFDEP = ['contract of crypto_scrypt: the RFC 7914 value or -1 (properties C02, C03)', 'contract of crypto_entropy_read: fresh bytes or -1 (property C12)']
SEASM = ['plaintexts shorter than 2^60 bytes; streams shorter than 2^61 bytes', 'KDF, HMAC and SHA-256 values are opaque terms in lib/scryptenc (equal inputs give equal values); their meaning is C01, C02']
def SE(also=None, mods=(), trusted=(), assumptions=(), **kw):
    return P(['c_scryptenc', 'c_params'] + list(mods), ['wit_scrypt'], LIBC + KDFDEP + list(trusted), SEASM + list(assumptions), **(dict(also=also) if also else {}), **kw)
PROPS.update({
 'C05': SE(CTRDEP),
 'C06': SE(CTRDEP),
 'C07': SE(HASHDEP + r'|verify_bytes', ['c_util']),
 'C09': SE(CTRDEP, assumptions=['a flush that reports success has delivered the buffered data (meaning of fflush)']),
 'C10': SE(None, ['c_clock'], assumptions=['floating-point arithmetic (limits, CPU speed, fractions) is treated as exact real arithmetic: rounding, overflow and NaN are outside; NaN and negative settings are excluded by the option parser (C15)', 'clock ticks (monoclock) before 2^50 benchmark runs']),
 'C16': SE(r'humansize\.print', ['c_util']),
})
PROPS.update({
 'C12': P(['c_entropy', 'c_scryptenc', 'c_hash'], ['wit_entropy', 'wit_scrypt'], LIBC + ['RDRAND delivers a word or reports failure (Intel SDM)', 'SP 800-90A 10.1.2 HMAC_DRBG specification terms in irv/c_entropy.py'],
          ['the operating system\'s random device returns unpredictable bytes', 'requests shorter than 2^62 bytes', 'HMAC values are opaque terms in the generator (their meaning is C01; the HMAC tasks are re-proved here)'], also=r'(sha256\.(update|final|init)|hmac\.)'),
})
TEXTASM = ['text input contains no NUL characters; lines and files shorter than 2^60 bytes']
PROPS.update({
 'C13': P(['c_readpass'], ['wit_readpass'], LIBC + ['kernel terminal and signal model in irv/c_readpass.py'], TEXTASM),
 'C21': P(['c_readpass'], ['wit_readpass'], LIBC + ['kernel terminal and signal model in irv/c_readpass.py: the nine caught signals may arrive at any terminal, signal or stream call'],
          TEXTASM + ['a restoring tcsetattr call takes effect', 'signals other than the nine job-control and termination signals are outside (SIGKILL cannot be caught)']),
})
GETOPT = ['option parser contract in irv/c_main.py, as main uses it: each call is proved against the argument vector in irv/c_getopt.py for the option table main registers (tasks C15/C17); that the two statements of the contract agree is by inspection']
MAINASM = ['command-line strings are opaque terms: strtoumax, strtoimax, strtod and strspn are uninterpreted functions of them with their ISO C meaning', 'doubles are exact IEEE bit patterns in the command-line proof']
PROPS.update({
 'C15': P(['c_main', 'c_getopt', 'c_util', 'c_readpass', 'c_params', 'c_scryptenc'], ['wit_main', 'wit_util', 'wit_scrypt'], LIBC + KDFDEP + GETOPT, MAINASM + SEASM, also=r'scryptenc\.(enc_file|dec_file|dec_steps)'),
 'C08': P(['c_scryptenc', 'c_main'], ['wit_scrypt', 'wit_main'], LIBC + KDFDEP + GETOPT, SEASM + MAINASM, also=r'verify_bytes', ),
 'C11': P(['c_scryptenc', 'c_params', 'c_hash', 'c_aes', 'c_entropy', 'c_readpass', 'c_main', 'c_util'], ['wit_scrypt', 'wit_main', 'wit_readpass', 'wit_entropy', 'wit_hash', 'wit_aes'], LIBC + KDFDEP + GETOPT,
          SEASM + TEXTASM + MAINASM + ['memory is inspected at the level of the LLVM IR: copies the compiler keeps in registers or spill slots are outside', 'stream buffers inside the C library are outside; working memory of the KDF other than its output is outside']),
 'C17': P(['c_scryptenc', 'c_params', 'c_hash', 'c_aes', 'c_readpass', 'c_main', 'c_util', 'c_getopt', 'c_warn', 'c_clock'], ['wit_scrypt', 'wit_main', 'wit_util', 'wit_readpass', 'wit_aes', 'wit_hash'], LIBC + KDFDEP + GETOPT, SEASM + TEXTASM + MAINASM),
 'C18': P(['c_scryptenc', 'c_params', 'c_aes', 'c_entropy', 'c_readpass', 'c_main', 'c_util', 'c_warn'], ['wit_scrypt', 'wit_main', 'wit_readpass', 'wit_entropy'], LIBC + KDFDEP + GETOPT, SEASM + TEXTASM + MAINASM),
})
KDFT = ['RFC 7914 specification terms in irv/c_scrypt.py', 'Intel SDM semantics of SSE2 instructions as written in irv/intrin.py']
KDFA = ['passwords and salts shorter than 2^60 bytes', 'the fold over mixing steps depends only on the blocks (definition of ROMix)', 'products and quotients of two variables are uninterpreted, with the instances of arithmetic lemmas listed in irv/solver.py; each lemma is a theorem of 64-bit arithmetic']
PROPS.update({
 'C02': P(['c_scrypt', 'c_hash', 'c_hw'], ['wit_kdf'], LIBC + KDFT, KDFA + ['HMAC-SHA-256 values are opaque in the KDF composition; their meaning is C01, re-proved here'], also=r'(pbkdf2|sha256\.|hmac\.)'),
 'C03': P(['c_scrypt'], ['wit_kdf'], LIBC + KDFT, KDFA + ['a failing munmap of a live mapping leaves that mapping (documented error path of the C library; the memory cannot be released otherwise)']),
 'C20': P(['c_hw', 'c_aes', 'c_hash', 'c_entropy'], ['wit_hw', 'wit_aes', 'wit_hash'], LIBC + ['Intel SDM CPUID feature bits as written in irv/c_hw.py'], ['the program stops if the portable implementation fails its own self-test']),
})
PROPS['C10']['witness'].append('wit_clock')
NA = {}
