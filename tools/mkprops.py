#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ENC = "lib/scryptenc/scryptenc.c"
p("C01", "Encrypting then decrypting returns the original data",
  "For every plaintext, passphrase and valid parameter set, decrypting what the encryption functions produced (with the same passphrase) succeeds and yields exactly the original bytes and length. This holds for the buffer and the stream entry points and for every mix of the two.",
  ["inputs", "histories"], "all plaintext lengths and contents (across the 64 KiB stream block boundaries), all keys, all combinations of buffer and file API",
  "The shell tests round-trip two reference files and one buffer of fixed size; lengths next to the 64 KiB stream block, lengths below 32 bytes and mixed API use are never tried.",
  [ENC], [("stream/buffer encryption and decryption", "scryptenc_buf, scryptdec_buf, scryptenc_file, scryptdec_file in lib/scryptenc/scryptenc.c")],
  ["output buffer / output stream and return code of scryptenc_* and scryptdec_*"])
p("C02", "Decryption never reports success for data that fails authentication",
  "Decryption (buffer or stream) reports success only if the input is at least 128 bytes long, starts with the scrypt magic and version 0, and its 16-byte header checksum, 32-byte header signature and 32-byte trailing signature all equal the values computed over the bytes they cover under the keys derived from the supplied passphrase; every byte of the input is covered. Any altered, truncated, extended or reordered input therefore yields an error code, never success.",
  ["inputs"], "all input byte strings within the bounds, all derived keys, all wrong tags (any differing bit)",
  "Tests feed a handful of corrupted files; they cannot show that every bit of every tag is compared and that every byte is covered.",
  [ENC, "libcperciva/crypto/crypto_verify_bytes.c"], [("header checksum, header HMAC, trailing HMAC", "scryptdec_setup, scryptdec_buf, scryptdec_file_copy")],
  ["return code of scryptdec_buf, scryptdec_file, scryptdec_file_prep, scryptdec_file_copy"])
p("C03", "Encrypted output has exactly the documented byte layout",
  "Every successful encryption emits, in order: 'scrypt', a zero version byte, log2(N), r and p as 32-bit big-endian, the 32-byte salt, the first 16 bytes of SHA-256 of the first 48 bytes, HMAC-SHA256 of the first 64 bytes, the AES256-CTR (nonce 0) encryption of the plaintext, and HMAC-SHA256 over everything before it - nothing else, so the output is exactly 128 bytes longer than the input. The AES key is the first half and the HMAC key the second half of the 64 bytes derived by scrypt from the whole passphrase, the fresh 32-byte salt and the same N, r, p that the header records.",
  ["inputs", "configurations"], "all plaintexts, passphrases, salts, N/r/p, both encryption entry points",
  "Tests only decrypt reference files and re-read their own output, so a self-consistent change of layout on both sides would pass for data not in the reference set.",
  [ENC, "FORMAT"], [("header construction and stream composition", "scryptenc_setup, scryptenc_buf, scryptenc_file")],
  ["bytes written to outbuf / outfile"])
p("C04", "Malformed input gets the documented error code, checked in documented order",
  "Decryption and header inspection classify every input: wrong magic or too short is 'not a valid scrypt block', a version other than 0 is 'unrecognised version' (even when the input is too short otherwise), a bad header checksum is invalid before any key derivation is attempted, invalid parameters are rejected before key derivation, a header-signature mismatch is 'wrong passphrase', and a bad trailing signature is invalid. No other code is returned for these conditions and no key derivation is run for a header whose checksum or parameters are invalid.",
  ["inputs"], "all byte strings as input, all header field values",
  "Tests contain a few bad files; the classification of every prefix length, version byte and parameter combination is not sampled.",
  [ENC], [("header parsing and classification", "scryptdec_buf, scryptdec_file_load_header, scryptdec_setup, checkparams")],
  ["return code; whether crypto_scrypt was called"])
p("C05", "Buffer functions touch exactly the documented memory",
  "Buffer encryption writes exactly inbuflen+128 bytes at outbuf and reads exactly inbuflen bytes of input and passwdlen bytes of passphrase; buffer decryption writes at most inbuflen-128 bytes at outbuf, sets the output length only to inbuflen-128, and leaves the input unmodified. Neither reads or writes outside those ranges for any input, including inputs shorter than a header.",
  ["inputs"], "all lengths from 0 up to the bound, all contents",
  "The API test uses one fixed size with slack buffers, so an out-of-bounds access of a few bytes is invisible to it.",
  [ENC], [("length arithmetic around 96/128", "scryptenc_buf, scryptdec_buf")], ["memory accesses"])
p("C06", "No read or write fault in a stream operation is reported as success",
  "If any read from the input stream fails, or any write to the output stream is short, the stream encryption, decryption, preparation and info functions return the read-error or write-error code respectively (never success, and never an authentication verdict computed from partial data). When they return success every byte of the result was accepted by the output stream, in order and once.",
  ["fault_sequences", "inputs"], "all fault positions in the read and write sequences, all data",
  "No test injects an I/O error.",
  [ENC], [("fread/fwrite/ferror handling", "scryptenc_file, scryptdec_file_load_header, scryptdec_file_copy")], ["return code"])
p("C07", "Decrypting never creates or truncates the output before the passphrase verifies",
  "The command line tool opens (and so creates or truncates) the output file for decryption only after the input header, the parameters, the resource limits and the passphrase have been verified; if any of these fails the output path is not touched. It never opens any path for writing other than the named output file.",
  ["inputs", "fault_sequences"], "all argument vectors and all outcomes of opening, passphrase reading and header verification",
  "One test checks this for one wrong passphrase; other failure points are not exercised.",
  ["main.c"], [("ordering of prep and fopen", "scrypt_mode_enc_dec in main.c")], ["fopen calls"])
p("C08", "Decryption enforces memory and CPU limits exactly; -f bypasses only those",
  "Unless forced, decryption is refused before any key derivation if and only if 128*N*r exceeds the memory limit or 4*N*r*p exceeds the CPU speed times the time limit, with the error code naming which (or both) was exceeded. Forcing bypasses only these resource tests, never the validity tests (1 <= log2 N <= 63, r and p non-zero, r*p < 2^30).",
  ["inputs", "configurations"], "all logN, r, p header values, all memory limits, all CPU limits, force on or off, encryption with explicit parameters as well as decryption",
  "Tests sample one too-big and one too-slow configuration.",
  [ENC], [("checkparams", "checkparams in scryptenc.c")], ["return code; whether crypto_scrypt was called"])
p("C09", "Automatically chosen encryption parameters respect the limits and use them",
  "When no explicit parameters are given, encryption uses r = 8 and picks N, p with 128*N*r <= memory limit and 4*N*r*p <= max(CPU operations allowed, 2^15), using p = 1 when CPU is the tighter limit; N is the largest power of two allowed by the tighter limit and p the largest value the CPU limit then allows (r*p < 2^30). Parameters picked this way are always valid for decryption and are the ones recorded and reported back.",
  ["inputs", "configurations"], "all memory limits, CPU speeds and time limits (finite, non-negative)",
  "Tests only run the picker with the machine's own limits and check nothing about optimality.",
  [ENC], [("pickparams", "pickparams in scryptenc.c")], ["header bytes 7..15; params out"])
p("C10", "The memory limit is the documented function of system and user limits",
  "The memory allowance is the smaller of the user's maximum (if non-zero) and the requested fraction (above 0, at most 1) of the smallest of the memory limits that apply to the process (address space, resident set, physical memory; the data segment only where memory is not allocated with mmap), and never less than 1 MiB. Failure to query a limit is an error, not an unlimited allowance.",
  ["inputs", "configurations", "fault_sequences"], "all values and failures of getrlimit and sysinfo/sysconf, all user maxima and fractions",
  "Tests run under one machine's limits only.",
  ["lib-platform/util/memlimit.c"], [("memtouse", "memtouse, memlimit_* in lib-platform/util/memlimit.c")], ["*memlimit"])
p("C11", "Secrets are erased on every path, and nothing holding them leaks",
  "On every return path of the encryption and decryption functions (success, or failure at any step) the derived keys held by the library have been overwritten with zeros, every expanded AES key and cipher stream has been released through the function that wipes it, and a decryption handle is wiped when freed. The command line tool overwrites and frees the passphrase on every path that returns from an operation.",
  ["inputs", "fault_sequences"], "every failure point (allocation, key expansion, read, write, authentication), all data",
  "Memory contents after return are not observable to tests and failure points are not injected.",
  [ENC, "main.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aes_aesni.c"], [("insecure_memzero and *_free calls", "scryptenc.c error paths; main.c cleanup")], ["calls to the wiping and freeing functions; memory contents at free"])
p("C12", "The scrypt KDF validates its parameters and never under-allocates",
  "crypto_scrypt fails cleanly (error return with errno set, no mixing done, nothing written to the output, everything released) for every N that is not a power of two greater than 1, for zero r or p, for r*p >= 2^30 and for any size that does not fit in memory arithmetic, and also when any allocation fails. Otherwise the working areas it allocates are exactly large enough and 64-byte aligned, so that mixing never leaves them, and every one is released.",
  ["inputs", "fault_sequences"], "all N, r, p, buflen; all allocation failure points",
  "Tests use valid small parameters and never fail an allocation.",
  ["lib-platform/crypto/crypto_scrypt.c"], [("parameter checks and B0/XY0/V0 allocation", "_crypto_scrypt")], ["return code, errno, allocation sizes, buffer accesses"])
p("C13", "The scrypt KDF composes PBKDF2 and ROMix as RFC 7914 specifies",
  "For every accepted input, crypto_scrypt computes PBKDF2-HMAC-SHA256(password, salt, 1, p*128*r), applies ROMix with cost N and block size r to each of the p blocks independently and in order, and outputs PBKDF2-HMAC-SHA256(password, that result, 1, buflen). The result does not depend on which mixing implementation (generic or SIMD) is selected, nor on earlier calls.",
  ["inputs", "histories"], "all passwords, salts, N, r, p and output lengths within bounds, every mixing implementation selection",
  "Tests use four published vectors on the one implementation this CPU selects.",
  ["lib-platform/crypto/crypto_scrypt.c"], [("composition", "_crypto_scrypt, selectsmix")], ["output buffer"])
p("C14", "Generic and SSE2 ROMix both compute RFC 7914 scryptROMix",
  "For every block content, both the portable and the SSE2 mixing functions transform the 128*r-byte block exactly as RFC 7914's scryptROMix (Salsa20/8, BlockMix, Integerify, little-endian words) with the given N and r, write only the block and the scratch areas, and agree with each other.",
  ["inputs"], "all 128*r-byte blocks for the bounded N and r",
  "Tests hash a few fixed vectors and only on the implementation the CPU selects (SSE2 here); the portable one is only touched by its startup self test with fixed data.",
  ["lib/crypto/crypto_scrypt_smix.c", "lib/crypto/crypto_scrypt_smix_sse2.c"], [("crypto_scrypt_smix, crypto_scrypt_smix_sse2", "lib/crypto")], ["B after the call"])
p("C15", "Every SHA-256 compression implementation equals FIPS 180-4",
  "For every chaining value and every 64-byte block the portable, SSE2 and SHA-NI compression functions all produce the FIPS 180-4 result, and so are interchangeable.",
  ["inputs", "configurations"], "all 2^256 states and 2^512 blocks, each implementation",
  "Tests hash fixed vectors using the one implementation the CPU selects (SHA-NI here).",
  ["libcperciva/alg/sha256.c", "libcperciva/alg/sha256_sse2.c", "libcperciva/alg/sha256_shani.c"], [("SHA256_Transform, SHA256_Transform_sse2, SHA256_Transform_shani", "libcperciva/alg")], ["resulting state / digest"])
p("C16", "SHA-256 of a message does not depend on how it is split into updates",
  "For every message and every way of splitting it over update calls (including empty ones), the digest equals SHA-256 of the concatenation: the message is fed to the compression function in order as complete 64-byte blocks followed by 0x80, zeros, and the 64-bit big-endian bit length. The one-shot function gives the same digest, no byte outside the given buffers is read, and the context is wiped by finalisation.",
  ["inputs", "histories"], "all split points, lengths (including totals beyond 2^32 bits via the counter) and contents within bounds",
  "Tests use a handful of fixed messages with one split.",
  ["libcperciva/alg/sha256.c"], [("SHA256_Update_internal, SHA256_Pad, SHA256_Final", "libcperciva/alg/sha256.c")], ["blocks given to the compression function; digest"],
  [("count", "number of bits hashed", "SHA256_CTX.count")])
p("C17", "HMAC-SHA256 and PBKDF2 follow RFC 2104 / RFC 8018 for every key and length",
  "HMAC-SHA256 computes H((K xor opad) || H((K xor ipad) || m)) with keys longer than 64 bytes replaced by their hash, for every key length and every split of the message; PBKDF2 outputs the first dkLen bytes of T_1 || T_2 || ... with T_i the xor of c chained HMACs of salt || INT(i). One-shot and incremental HMAC agree.",
  ["inputs", "histories"], "all key, salt, message, output lengths and iteration counts within the bounds",
  "Tests use fixed vectors with short keys.",
  ["libcperciva/alg/sha256.c"], [("HMAC_SHA256_*, PBKDF2_SHA256", "libcperciva/alg/sha256.c")], ["digest / derived key"])
p("C18", "AES-NI and library AES paths compute FIPS-197 AES",
  "For every 128- or 256-bit key and every 16-byte block, key expansion plus block encryption through the AES-NI path yields the FIPS-197 ciphertext, input and output may be the same buffer, and the library path passes the key, its bit length and the block to the system AES unchanged. Releasing a key wipes the expanded key. The generic entry points use a consistent implementation for expansion, encryption and release.",
  ["inputs", "configurations"], "all keys and blocks, both key sizes, hardware available or not",
  "Tests only use fixed vectors through the hardware path this CPU selects.",
  ["libcperciva/crypto/crypto_aes_aesni.c", "libcperciva/crypto/crypto_aes.c"], [("key expansion and rounds", "crypto_aes_key_expand_aesni, crypto_aes_encrypt_block_aesni")], ["ciphertext block"])
p("C19", "AES-CTR keystream is position-determined, however the data is chunked",
  "Byte i of an AES-CTR stream is always the input byte xored with byte i mod 16 of AES(nonce || i div 16) (both 64-bit big-endian), for every sequence of call sizes, for in-place and separate buffers, on the hardware and the software path and any alternation of them, and across the counter's byte carries. Reinitialising a stream restarts it at position 0, the one-shot function equals the streaming one, and exactly the requested bytes are written.",
  ["inputs", "histories", "configurations"], "all call-size sequences and contents within bounds, all nonces, positions around byte carries of the counter",
  "Tests use a few vectors; carries at 256 and 65536 blocks combined with odd chunking are not sampled.",
  ["libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aesctr_shared.c", "libcperciva/crypto/crypto_aesctr_aesni.c"], [("counter handling and byte/block modes", "crypto_aesctr_stream*")], ["output bytes"],
  [("bytectr/pblk", "position in the stream and counter block", "struct crypto_aesctr")])
p("C20", "The random generator is HMAC_DRBG with its reseed rule and never fakes entropy",
  "Random output is produced by HMAC_DRBG (SP 800-90A, SHA-256) instantiated once from 48 fresh entropy bytes and reseeded with 32 fresh entropy bytes after every 256 generate calls, each generate call covering at most 65536 bytes, for every sequence of request lengths (a longer request is served by several generate calls). If obtaining entropy fails when it is needed, the request fails and no later request succeeds without fresh entropy having been obtained.",
  ["histories", "inputs", "fault_sequences"], "all request length sequences and entropy values within the bounds; failures of the entropy source at any point",
  "The output is random, so tests can check nothing about it, and entropy failures are not injected.",
  ["libcperciva/crypto/crypto_entropy.c"], [("instantiate/update/generate/reseed", "crypto_entropy_read and helpers")], ["returned bytes and code; calls to the entropy source"])
p("C21", "The OS entropy reader fills the buffer completely or fails",
  "Reading entropy returns success only if every requested byte was obtained from the operating system's random device, in order and without gaps or overlap, for every pattern of short reads and interrupted calls; any error or end of file is a failure. Every descriptor it opened is closed exactly once (except where the caller keeps the handle).",
  ["fault_sequences", "inputs"], "all request lengths, all short-read/EINTR/EOF/error schedules within the bound",
  "The real device never returns short reads in tests.",
  ["libcperciva/util/entropy.c"], [("entropy_read_init/fill/done", "libcperciva/util/entropy.c")], ["buffer contents, return code, open/close calls"])
p("C22", "Tag comparison is exact for every length",
  "Comparing two byte strings of equal length returns zero if and only if all bytes are equal, reading exactly that many bytes of each.",
  ["inputs"], "all lengths up to the bound, all contents",
  "Tests compare a few fixed pairs.",
  ["libcperciva/crypto/crypto_verify_bytes.c"], [("crypto_verify_bytes", "libcperciva/crypto/crypto_verify_bytes.c")], ["return value"])
p("C23", "Endian encode/decode are exact inverses with fixed byte order",
  "For every value, encoding to big- or little-endian 16/32/64-bit form writes exactly those bytes in that order at any alignment, and decoding reads them back to the same value.",
  ["inputs"], "all 16/32/64-bit values and byte strings, any alignment",
  "There is no direct test; use in hashes exercises a few values.",
  ["libcperciva/util/sysendian.h"], [("be32enc and friends", "libcperciva/util/sysendian.h")], ["bytes and values"])
p("C24", "Human-readable sizes: formatting is within one unit, parsing is exact or refused",
  "Formatting a 64-bit size prints the SI form (three significant digits at most, rounded down, unit prefix as large as fits) so the printed value never exceeds the true one nor falls short by more than the last printed digit; parsing accepts exactly [0-9]+ with optional space, optional SI prefix and optional B, returns exactly the product, and refuses anything else including any value beyond 2^64-1.",
  ["inputs"], "all 64-bit sizes; all strings up to the bound",
  "Tests list a few dozen values and strings.",
  ["libcperciva/util/humansize.c"], [("humansize, humansize_parse", "libcperciva/util/humansize.c")], ["string / value and return code"])
p("C25", "Numeric options are parsed exactly or refused, and always within range",
  "Number parsing accepts a string only if the whole of it is a number representable in the target type and within the requested inclusive bounds, and then stores exactly that number; otherwise it reports an error (range errors distinguished from syntax errors). A value that is not a number (NaN), a negative value for an unsigned target, or trailing characters are never accepted.",
  ["inputs"], "all strings up to the bound, all bounds, all target types used",
  "Tests list some values; sign, wrap-around and NaN cases for every target width are not covered.",
  ["libcperciva/util/parsenum.h"], [("PARSENUM family", "libcperciva/util/parsenum.h")], ["return value, errno, stored value"])
p("C26", "Command-line options are tokenised exactly as documented",
  "For every argument vector the option parser returns each option and its argument in order - grouped short options, short-option arguments joined or separate, --long=value or --long value - reports missing or unexpected arguments and unknown options, stops at the first non-option or after --, and leaves the index at the first operand. It never reads outside the argument vector or strings.",
  ["inputs", "histories"], "all argument vectors of bounded count and length",
  "Tests run a fixed list of command lines.",
  ["libcperciva/util/getopt.c", "libcperciva/util/getopt.h"], [("getopt, getopt_lookup", "libcperciva/util/getopt.c")], ["returned option, optarg, optind"])
p("C27", "The passphrase used is exactly the one supplied by the selected source",
  "The passphrase-source argument is accepted exactly for dev:tty-stdin, dev:stdin-once, dev:tty-once, env:NAME and file:PATH, and each selects that source with that argument. The passphrase obtained from an environment variable is its whole value and from a text file its single line up to its line terminator (the first CR or LF; an empty file is the empty passphrase); missing variables, unreadable files, files with anything after the first newline, and over-long files are refused, never silently shortened or replaced.",
  ["inputs", "fault_sequences"], "all argument strings, all file contents and lengths around the limit, read failures",
  "Tests use a few simple files and one environment variable.",
  ["lib/util/passphrase_entry.c", "libcperciva/util/readpass_file.c"], [("passphrase_entry_parse, passphrase_entry_readpass, readpass_file", "lib/util, libcperciva/util")], ["passphrase string and return code"])
p("C28", "Terminal passphrase entry restores the terminal and signals on every path",
  "Reading a passphrase from a terminal disables echo only while reading and restores the exact previous terminal mode and signal handlers on every path, then re-delivers every signal caught meanwhile; descriptors it opened are closed, and buffers that held the passphrase are wiped. The returned string is the entered line (its first 2047 bytes if longer) without its terminator, and with confirmation it is returned only if both entries agree (otherwise the user is asked again).",
  ["schedules", "inputs", "fault_sequences"], "all signal arrival patterns, terminal and read failures, all entered lines within the bound, all numbers of mismatches within the bound",
  "Tests have no terminal and deliver no signals.",
  ["libcperciva/util/readpass.c"], [("readpass", "libcperciva/util/readpass.c")], ["tcsetattr/sigaction/raise/fclose calls; returned string"])
p("C29", "Speed estimation and clock reading never fail silently",
  "The monotonic clock reader returns a time only if the system supplied one (falling back only when the monotonic clock is not supported) and reports failure otherwise; the CPU speed estimate is the number of Salsa20/8 cores performed divided by the time that elapsed (longer than the clock's resolution), measured after the clock visibly advanced, and any clock or key-derivation failure is reported as its error code rather than as a speed.",
  ["inputs", "schedules", "fault_sequences"], "all clock readings (non-decreasing), all clock failures at any call",
  "Tests run on a working clock.",
  ["lib/scryptenc/scryptenc_cpuperf.c", "libcperciva/util/monoclock.c"], [("scryptenc_cpuperf, monoclock_get", "lib/scryptenc, libcperciva/util")], ["return code and value"])
p("C30", "Accelerated code is used only after it proved itself, with correct fallback",
  "Hardware or SIMD implementations of SHA-256, AES and scrypt mixing are used only when the CPU reports the needed features and a startup self test matched; if the self test fails or the feature is absent the portable implementation is used instead, and if no implementation passes, the program stops rather than computing. The choice is made once and applies consistently to key expansion, encryption and release.",
  ["configurations", "fault_sequences"], "all combinations of CPU features reported and of correct or wrong accelerated results",
  "Tests run on one CPU with working instructions.",
  ["libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aesctr.c", "lib-platform/crypto/crypto_scrypt.c", "libcperciva/cpusupport"], [("hwaccel_init, selectsmix, CPUSUPPORT_VALIDATE", "sha256.c, crypto_aes.c, crypto_scrypt.c")], ["which implementation is called"])
p("C31", "CLI arguments map to operations exactly, and the exit status is truthful",
  "For every argument vector the tool performs exactly the requested operation (enc, dec, info, --version) with exactly the requested parameters, limits, flags, files and passphrase source, or prints a message and exits 1 without opening any file; logN is limited to 10-40, r to 1-32, p to 1-2048, given all together or not at all, and -m to (0, 0.5]. It exits 0 only if the operation succeeded and all of its output, including what is still buffered, reached the output file or standard output (the one-line --version banner excepted); otherwise it exits non-zero with a message.",
  ["inputs", "fault_sequences"], "all argument vectors within the bounds; all results of opening, passphrase entry, the operation, flushing and closing",
  "Tests run some dozens of command lines and inject no I/O failures.",
  ["main.c", "lib/scryptenc/scryptenc_print_error.c"], [("main, scrypt_mode_enc_dec, scrypt_mode_info", "main.c")], ["calls into the library with their arguments; exit status"])
p("C32", "Header information is reported truthfully for every header",
  "The info operation (and the verbose display) prints N = 2^logN, r, p exactly as recorded and a minimum memory requirement that is 128*N*r (shown as a human-readable size; it saturates at 2^64-1 rather than wrapping), for every header it accepts, and refuses headers whose parameters are not valid scrypt parameters. No header makes it invoke undefined behaviour.",
  ["inputs"], "all 96-byte headers",
  "Tests print one reference file.",
  [ENC], [("display_params, scryptdec_file_printparams", "scryptenc.c")], ["text printed"])
p("C33", "Erasing a buffer zeroes exactly that buffer and is not optimised away",
  "The secure-erase function sets every one of the given bytes to zero, for every length, and modifies nothing else, in the code the compiler actually generates.",
  ["inputs"], "all lengths up to the bound",
  "Not observable from tests.",
  ["libcperciva/util/insecure_memzero.c", "libcperciva/util/insecure_memzero.h"], [("insecure_memzero_func via volatile pointer", "libcperciva/util/insecure_memzero.c")], ["memory contents"])
p("C34", "Every library failure is reported with the message and errno policy documented",
  "Each library status code is turned into its own documented message naming the right file (input for read errors, output for write errors), with the system error text exactly for those codes that come from the system; warnings format any message without losing or corrupting it, and formatted-string allocation returns the complete string with its length or fails.",
  ["inputs", "fault_sequences"], "all status codes, file names present or absent, allocation and formatting failures",
  "Tests check only exit codes.",
  ["lib/scryptenc/scryptenc_print_error.c", "libcperciva/util/warnp.c", "libcperciva/util/asprintf.c"], [("scryptenc_print_error, warn/warnx, asprintf", "lib/scryptenc, libcperciva/util")], ["text on standard error"])
p("C35", "ARM accelerated SHA-256 and AES match FIPS 180-4 / FIPS-197",
  "The NEON/ARMv8 cryptographic-extension implementations of the SHA-256 compression function and of AES key expansion, block encryption and counter mode give the same results as the standards for every input.",
  ["inputs", "configurations"], "all states, blocks and keys",
  "The tests never compile this code on the machine they run on.",
  ["libcperciva/alg/sha256_arm.c", "libcperciva/crypto/crypto_aes_arm.c", "libcperciva/crypto/crypto_aesctr_arm.c"], [("SHA256_Transform_arm, crypto_aes_*_arm", "libcperciva")], ["resulting state / block"])
p("C36", "Secret-dependent timing does not leak through comparison or mixing",
  "Tag comparison and the SHA-256/AES-NI code take time independent of the secret values they process.",
  ["inputs"], "all secret values",
  "Timing is not observed by tests.",
  ["libcperciva/crypto/crypto_verify_bytes.c"], [("constant-time loop", "crypto_verify_bytes")], ["execution time"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
