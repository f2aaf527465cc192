#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the catalogue)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

p("C01", "Every package signed with a supported key verifies with the matching key",
  "For every package content, hash kind (SHA-256/384/512) and supported key type (P-256, P-384, P-521, RSA-4096), signing succeeds and the package then verifies with the matching public key, whether the signature was made by the tool, the library or the Python bindings, or made externally over the reported package hash and attached. The stored signature is one that an independent implementation accepts for the same key and package digest, its recorded length is exact, nothing of an earlier signature remains behind it, and signing changes nothing in the file except the payload hash and the signature fields.",
  ["inputs", "configurations"], "all package contents x hash kinds x key types x key encodings x signing interfaces",
  "The scripts sign one fixed small package per key type with the default hash; ECDSA signature lengths vary per signature and most hash/key/content combinations are never tried.",
  ["lib/pkg_sign.c", "lib/pkg_verify.c", "lib/verify.c", "lib/mbedtls_wrapper.c", "src/sign.c", "python/package.c"],
  [("package signing", "lib/pkg_sign.c bpak_pkg_sign"), ("verification", "lib/pkg_verify.c bpak_pkg_verify"), ("raw signature attach", "lib/pkg.c bpak_pkg_write_raw_signature")],
  ["bpak sign / bpak verify exit status", "signature bytes in the archive", "openssl verification of the stored signature"])

p("C02", "Any change to signed content, or any other key, makes verification fail",
  "After a package is signed, verification with the signing key fails for every modification of the header, of the signature that is in use, of the bytes of any hashed part (padding included), and of any hash-excluded part that has a merkle tree or of that tree's hashes, and for every truncation that removes such bytes. Verification also fails with every key other than the signer's, and with a missing, empty, oversized or foreign signature. Not covered: data of hash-excluded parts without a merkle tree, bytes after the last part, unused signature bytes, other encodings or the mirrored (r, -s) form of the same ECDSA signature and merkle padding that no hash covers.",
  ["inputs", "configurations"], "all signed packages x all single and compound byte changes, truncations, substitutions and key swaps",
  "Three scripts flip one fixed byte of one fixed package; the quantifier is over every covered byte and every kind of substitution.",
  ["lib/pkg_verify.c", "lib/verify.c", "lib/merkle.c", "lib/mbedtls_wrapper.c"],
  [("header and payload hash", "lib/verify.c"), ("merkle check of tree and root", "lib/verify.c bpak_verify_merkle_tree"), ("signature check", "lib/mbedtls_wrapper.c bpak_mbed_verify")],
  ["bpak verify exit status", "bpak_pkg_verify return value"])

p("C03", "Transport encode followed by decode reproduces the package byte for byte",
  "For every package and every origin with the same package identity, transport encoding against that origin and then decoding against the same origin yields a file identical, byte for byte, to the package that was encoded, so a signed package still verifies. This holds for every mix of copied parts, delta-encoded parts (all three compressions), merkle-tree parts that are removed and regenerated, parts that grow, shrink, become tiny or unaligned, and for decoders fed through the streaming interface in chunks of any size. Encoded archives record exact encoded sizes and are usable without the removed data.",
  ["inputs", "configurations"], "all (target, origin) package pairs x transport algorithms per part x chunk sizes",
  "Scripts run a handful of fixed file pairs with one part order and the file API only.",
  ["lib/transport_encode.c", "lib/transport_decode.c", "lib/pkg.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/merkle.c", "src/transport.c"],
  [("encode", "lib/transport_encode.c"), ("streaming decode", "lib/transport_decode.c"), ("file decode", "lib/pkg.c bpak_pkg_transport_decode")],
  ["decoded file bytes", "bpak verify on the decoded file", "encoded archive layout"])

p("C04", "A binary delta always rebuilds exactly the target data",
  "For every origin and target byte string (empty, tiny, periodic, random, shuffled, disjoint), every compression and every way of splitting the patch into input chunks and sizing the work buffer, applying the produced patch to the origin writes exactly the target and reports its exact length. The patch follows the documented control/diff/extra format, so an independent patcher and decompressor rebuild the same target, and creating and applying it reads no byte outside the given origin and target.",
  ["inputs", "configurations"], "all (origin, target) pairs x compression x chunking x buffer sizes",
  "Unit tests use four fixed file pairs and whole-buffer or fixed chunking; suffix-array and match logic depend on the data in unbounded ways.",
  ["lib/bsdiff.c", "lib/bspatch.c", "lib/sais.c", "lib/heatshrink/heatshrink_encoder.c", "lib/heatshrink/heatshrink_decoder.c"],
  [("suffix array and matching", "lib/sais.c, lib/bsdiff.c"), ("patch state machine", "lib/bspatch.c bspatch_write"), ("compression framing", "lib/bsdiff.c, lib/bspatch.c")],
  ["bytes written by the patcher", "patch stream", "sanitizer reports"])

p("C05", "A corrupt or hostile update stream is handled safely",
  "Decoding any transport stream or patch, however malformed, truncated or crafted, never reads or writes outside its buffers, never performs undefined arithmetic, never asks for origin or output ranges with negative offsets or lengths larger than the buffer it passes, never writes output outside of the space of the part being decoded, and always ends. It either reports an error or reports success with exactly the output length that was announced, and a stream that does not produce the announced amount of data is an error.",
  ["inputs"], "all byte strings as patch, as encoded package and as origin x compression x chunking",
  "No test feeds a malformed patch; the quantifier is over all byte strings.",
  ["lib/bspatch.c", "lib/transport_decode.c", "lib/heatshrink/heatshrink_decoder.c", "lib/pkg.c", "src/transport.c"],
  [("control block validation", "lib/bspatch.c"), ("output size check", "lib/transport_decode.c bpak_transport_decode_finish")],
  ["sanitizer reports", "arguments of the I/O callbacks", "return codes", "termination"])

p("C06", "Every reader survives every archive file",
  "For every file contents, every operation that reads an archive (open, show, hash, verify, extract, compare, keystore use and generation, transport encode/decode, and the modifying commands) ends with success or an error status, never with a memory error, undefined behaviour, signal, endless loop or unbounded output. An archive whose metadata points outside the metadata area or whose parts have bad alignment is refused as invalid by every operation.",
  ["inputs"], "all byte strings as archive x all commands and library entry points",
  "The scripts only use well-formed archives and one-byte corruptions; parsers must hold for every header.",
  ["lib/bpak.c", "lib/pkg.c", "lib/pkg_verify.c", "lib/verify.c", "lib/utils.c", "lib/keystore_load_from_file.c", "src/show.c", "src/compare.c", "src/extract.c", "src/generate.c"],
  [("header validation", "lib/bpak.c bpak_valid_header"), ("bounded rendering", "lib/utils.c")],
  ["exit status and signals of the sanitized tool", "sanitizer reports", "output sizes"])

p("C07", "Archive layout and content follow the operations for every history",
  "After any sequence of successful create, add (plain, key, merkle), delete, delete-all and metadata operations, the archive file is exactly the header followed by the parts in order, each holding precisely the bytes that were added, zero padded to the alignment, with part table, offsets, sizes and payload hash matching and no gap, leftover or missing byte. Extracting any part returns exactly the bytes added, for every part size and number of parts, and reported package sizes match the file.",
  ["histories", "inputs"], "all operation histories x part sizes x part counts",
  "Scripts perform three or four fixed operations; layout must hold after any history.",
  ["lib/pkg_create.c", "lib/pkg.c", "lib/bpak.c", "src/add.c", "src/delete.c", "src/extract.c", "src/create.c"],
  [("append part", "lib/pkg_create.c"), ("delete and compact", "lib/pkg.c bpak_pkg_delete_part"), ("extract", "lib/pkg.c bpak_pkg_extract_file")],
  ["file bytes after every operation", "extracted bytes", "show output"])

p("C08", "The metadata and part tables behave as exact tables for every history",
  "For any sequence of add, get, and delete operations on a header, lookups return exactly the entries and bytes a simple table would hold: keys are unique (metadata per id and reference, parts per id), data of different entries never overlaps and survives the addition and removal of other entries, order is kept, and the header stays valid. An operation that is refused (duplicate, table full, no metadata space) leaves the header unchanged, and removed entries leave no trace in the tables or metadata area.",
  ["histories", "inputs"], "all sequences of table operations up to and beyond the capacity limits, all sizes 0..65535",
  "Unit tests fill the tables with one size and delete one fixed entry; compaction and limits depend on the history.",
  ["lib/bpak.c", "include/bpak/bpak.h"],
  [("metadata table", "lib/bpak.c bpak_add_meta/bpak_del_meta"), ("part table", "lib/bpak.c bpak_add_part/bpak_del_part")],
  ["header bytes after each call", "return codes", "returned entries"])

p("C09", "Merkle trees match the specified construction and detect every change",
  "For every data size that is a multiple of the block size, every salt and every way of feeding the data in chunks, the generated tree (level layout, padding, total size) and root hash equal those of an independent implementation of the format, and the predicted tree size equals the generated one up to the documented 1 TiB limit. Verifying data against a tree succeeds exactly when the data, the tree hashes over it, salt and root all match, and sizes that are not supported are refused without writing anything.",
  ["inputs", "configurations"], "all block counts x salts x chunkings x corruptions; sizes to 1 TiB for the layout",
  "Unit tests use seven fixed sizes and one salt; level boundaries, chunkings and corruption positions are unbounded.",
  ["lib/merkle.c", "lib/verify.c", "lib/pkg_create.c", "lib/transport_decode.c"],
  [("tree construction", "lib/merkle.c"), ("tree verification", "lib/verify.c bpak_verify_merkle_tree")],
  ["tree bytes and root hash", "I/O callback offsets", "verification result"])

p("C10", "A refused operation leaves the archive untouched",
  "Whenever a modifying command or call on an existing archive fails because of its arguments or the archive's state (duplicate or missing item, full table, no metadata space, unreadable or unsuitable input, unsupported key, bad encoder, malformed value, oversized signature), the archive file keeps exactly the bytes it had before. A file that does not hold a complete valid archive header is likewise never modified or overwritten by any command that was not asked to create it.",
  ["inputs", "histories"], "all archives x all failing requests",
  "The tests check the exit status of a few failing commands, not the file afterwards, and only a few failure causes.",
  ["lib/pkg_create.c", "lib/pkg.c", "lib/bpak.c", "src/add.c", "src/set.c", "src/sign.c", "src/delete.c", "src/transport.c"],
  [("validate before write", "lib/pkg_create.c"), ("open of existing file", "lib/pkg.c bpak_pkg_open")],
  ["archive bytes before and after a failing command", "exit status"])

p("C11", "Success is reported only if everything was stored, under any I/O or memory fault",
  "If any read, write, seek, truncate, close or memory allocation made on behalf of an operation fails, the operation does not crash, hang or loop, and either reports failure or has stored exactly the result a fault-free run stores. A full disk or file size limit at any byte is therefore always reported, and no verification ever succeeds because of a fault.",
  ["fault_sequences"], "every operation x every system call it makes x failure or short transfer, every size limit, every allocation",
  "No test injects any fault.",
  ["lib/pkg.c", "lib/pkg_create.c", "lib/transport_encode.c", "lib/transport_decode.c", "lib/mem.c", "src/main.c", "src/create.c", "src/add.c", "src/set.c", "src/transport.c", "src/extract.c"],
  [("error propagation from stream calls", "lib/pkg*.c, lib/transport_*.c"), ("stream close", "lib/pkg.c bpak_pkg_close")],
  ["exit status and resulting file under injected faults", "sanitizer reports"])

p("C12", "Package and payload hashes equal an independent computation of the format",
  "For every package, the stored payload hash is the selected digest over size plus padding of every part not marked as excluded, in order; the reported package hash is the selected digest over the header with its signature fields zeroed; and the part hash is SHA-256 over the part's own bytes. All interfaces (library, command line text and binary output, Python) report the same values, an undersized result buffer is an error, and computing them changes nothing in the file. Taking the signature out of a header returns exactly the stored signature and leaves the header whose plain digest is the package hash, or is refused and changes nothing.",
  ["inputs", "configurations"], "all packages x hash kinds x exclusion flags x interfaces",
  "Scripts compare one fixed package hash; excluded parts, empty parts, other hash kinds and large parts are not covered.",
  ["lib/verify.c", "lib/pkg.c", "lib/pkg_verify.c", "src/show.c", "python/package.c"],
  [("header digest", "lib/verify.c bpak_verify_compute_header_hash"), ("payload digest", "lib/verify.c bpak_verify_compute_payload_hash")],
  ["stored payload hash", "show --hash, --binary-hash, --part-hash output"])

p("C13", "Keys and keystores yield exactly the right key or none",
  "Adding a public key of any supported type stores exactly its standard DER encoding, and a keystore archive lookup returns that same key with the requested id only if the keystore id matches and the key is present. Generated keystore source compiles and contains exactly the keys of the archive, in-memory keystores that are not verified yield no key, and unsupported, malformed or wrongly sized keys are refused with an error and never cause memory errors or leaks.",
  ["inputs", "configurations"], "all key types and encodings x keystore contents x ids x malformed key files",
  "One script generates a keystore from EC keys and checks it compiles; lookup through archives with several keys, RSA keys and malformed keys is untested.",
  ["lib/keystore.c", "lib/keystore_load_from_file.c", "lib/mbedtls_wrapper.c", "lib/pkg_create.c", "src/generate.c", "src/sign.c"],
  [("keystore lookup", "lib/keystore.c, lib/keystore_load_from_file.c"), ("key parsing", "lib/mbedtls_wrapper.c"), ("key part", "lib/pkg_create.c bpak_pkg_add_key")],
  ["key part bytes", "keys returned", "verify --keystore result", "generated C source"])

p("C14", "Metadata values round-trip through the command line and stay isolated",
  "A metadata value added or set through the command line (text, file, integer, UUID and identifier encodings, with or without a part reference) is stored in its documented encoding, is returned unchanged by extract and rendered accordingly by show, and no other metadata, part or identity field changes. Growing a value keeps the rest of the metadata intact, and setting key or keystore identity changes only that field.",
  ["inputs", "histories"], "all values x encodings x references x sequences of add and set",
  "Scripts check a few values in an archive with one or two entries; neighbours and growth across histories are not checked.",
  ["src/add.c", "src/set.c", "src/extract.c", "src/show.c", "lib/bpak.c", "lib/utils.c"],
  [("encode and store", "src/add.c action_add"), ("update", "src/set.c action_set")],
  ["header bytes before and after", "extract and show output"])

p("C15", "All library memory goes through the configured allocator and is released",
  "With an application-supplied allocator, every block the library obtains from it is returned to it exactly once by the end of the operation or handed to the caller, no block from one allocator is released through another, no file stays mapped, and there is no leak on success or on any error path, for every operation and outcome. When an allocation is refused the operation reports an error instead of crashing and still releases everything.",
  ["fault_sequences", "inputs"], "all operations x outcomes x refused allocation positions",
  "No test installs an allocator that checks balance, and error paths are hardly exercised.",
  ["lib/mem.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/pkg_create.c", "lib/pkg_sign.c", "lib/mbedtls_wrapper.c"],
  [("allocator indirection", "lib/mem.c"), ("compressor allocators", "lib/bsdiff.c, lib/bspatch.c")],
  ["calls on the installed allocator", "leak reports at exit"])

p("C16", "Reading commands never change their inputs",
  "Verify, show, extract, compare, keystore generation and lookup, and transport encoding and decoding leave the bytes and size of every input and origin file unchanged, on success, on failure and for malformed inputs; only the named output is written. They work on inputs the user may only read when no change is needed for the result.",
  ["inputs"], "all input files (valid, signed, corrupt, truncated, empty) x all reading commands",
  "Tests do not compare inputs before and after, and several reading commands open files for update.",
  ["lib/pkg.c", "src/show.c", "src/extract.c", "src/sign.c", "src/compare.c", "src/generate.c", "src/transport.c"],
  [("open mode and header initialisation", "lib/pkg.c bpak_pkg_open")],
  ["input file bytes before and after"])

p("C17", "Names map to one identifier everywhere",
  "For every name, the identifier printed by the tool, returned by the library and by the Python bindings and used to store and look up parts and metadata is the same 32-bit CRC value of the name, hexadecimal references denote the identifier they spell wherever the tool accepts references to existing items, and a hash-tree part's identifier is that of the part name with the hash-tree suffix whether derived from the name or from the identifier. All well-known identifiers equal the value of their names.",
  ["inputs"], "all names and hexadecimal references",
  "One script checks a single name.",
  ["lib/id.c", "lib/bpakcrc.c", "lib/utils.c", "include/bpak/id.h", "src/main.c", "src/generate.c"],
  [("crc", "lib/bpakcrc.c bpak_crc32"), ("name mapping", "lib/id.c bpak_id")],
  ["generate id output", "ids in archives", "library return values"])

p("C18", "The Python bindings are equivalent to the library and safe",
  "Any sequence of operations through the Python bindings leaves the same archive bytes as the equivalent operations on a model of the format, reports the values that are stored, raises an exception (and changes nothing) when the operation is refused, and never crashes the interpreter, corrupts memory or loses references, including for wrong argument types, closed packages and deleted parts or metadata, failing log callbacks, and source files that change while they are added (which are stored consistently or refused).",
  ["histories", "inputs"], "all sequences of binding calls with valid and invalid arguments",
  "The Python tests run four fixed scenarios on valid input only.",
  ["python/package.c", "python/part.c", "python/meta.c", "python/python_wrapper.c"],
  [("object wrappers", "python/*.c")],
  ["archive bytes", "returned values and exceptions", "sanitizer reports"])

p("C19", "Updates are only built from and applied to the right origin",
  "Transport encoding or decoding against an origin whose package identity differs from the input's, or with an identity missing on either side, is refused, as is an operation that needs an origin when none is given or when the origin lacks the part a delta needs, or when data the operation needs is missing at the end of a file. No refused decode ever leaves an output file that verifies.",
  ["inputs", "configurations"], "all (package, origin) combinations x algorithms x missing or different identity",
  "No test uses a mismatching, incomplete or absent origin.",
  ["lib/transport_encode.c", "lib/transport_decode.c", "lib/pkg.c", "src/transport.c"],
  [("identity comparison", "lib/transport_encode.c, lib/transport_decode.c bpak_transport_decode_set_origin")],
  ["exit status of encode and decode", "verification of the output"])

p("C20", "Text renderings are correct, terminated and never exceed the buffer",
  "For every metadata entry, byte string and buffer size, rendering to text writes only inside the given buffer, always leaves a terminated string or reports an error, uses only bytes that belong to the entry, and the text equals the value in its documented notation. The names of error codes, hash kinds and signature kinds are fixed and total over all values.",
  ["inputs"], "all metadata ids, sizes and contents x all buffer sizes",
  "Tests render a few fixed values into large buffers.",
  ["lib/utils.c", "lib/bpak.c", "src/show.c", "src/compare.c"],
  [("rendering", "lib/utils.c bpak_meta_to_string, bpak_bin2hex, bpak_uuid_to_string")],
  ["buffer contents and guard zones", "return codes", "show and compare output"])

p("C21", "Outputs depend only on the inputs",
  "Building, deleting, encoding and decoding the same inputs twice gives byte-identical files regardless of heap and stack contents, leftovers in the destination file, path names or process environment, and no byte written to any file or compared in any decision comes from uninitialised memory. Only signatures and merkle salts may differ between runs.",
  ["inputs", "configurations"], "all operations x memory fill patterns x prior destination contents",
  "Tests run each scenario once, so nondeterminism and leaked memory contents are invisible.",
  ["lib/pkg_create.c", "lib/transport_encode.c", "lib/transport_decode.c", "lib/bsdiff.c", "src/add.c"],
  [("explicit initialisation of written data", "lib/pkg_create.c, lib/bpak.c bpak_init_header")],
  ["output file bytes across runs", "memcheck reports on write calls and branches"])

p("C22", "Independent objects can be used from several threads at once",
  "Threads that work on different packages, headers, hash, delta, patch, merkle or key objects at the same time have no data race and each obtains exactly the result it obtains alone, for every interleaving and mix of operations, as long as the process-wide callbacks are not being replaced.",
  ["schedules"], "all interleavings of operations on disjoint objects",
  "All tests are single threaded.",
  ["lib/bpak.c", "lib/crypto.c", "lib/mem.c", "lib/bsdiff.c", "lib/sais.c", "lib/id.c", "lib/bpakcrc.c"],
  [("no shared mutable state", "lib/")],
  ["race reports", "results compared with a sequential run"])

p("C23", "Interrupting an update of an archive never loses what was already in it",
  "If the process is killed at any moment during an add, key or merkle add, metadata set or add, or signing command, the archive still opens, every part and metadata value that was there before is still present with its exact content, and every part that is listed is complete. If the process is killed during a delete or a decode, the result never verifies as a signed package unless all content the signature covers is complete and unaltered.",
  ["crash_points"], "every system call boundary of every modifying command",
  "No test interrupts a command.",
  ["lib/pkg_create.c", "lib/pkg.c", "lib/transport_decode.c", "src/add.c", "src/set.c"],
  [("data first, header last", "lib/pkg_create.c"), ("part flags cleared after data", "lib/transport_decode.c")],
  ["archive bytes after a kill at each system call"])

p("C24", "Comparison reports exactly the differences between two archives",
  "Comparing two archives marks every metadata entry and part as equal, changed, only in the first or only in the second exactly as a byte-wise comparison of the two files says, in either direction and for every combination of entries, sizes and flags. Comparing an archive with itself or with a copy reports no difference.",
  ["inputs"], "all pairs of archives",
  "No script covers the command.",
  ["src/compare.c"],
  [("comparison", "src/compare.c action_compare")],
  ["compare output lines", "exit status"])

p("C25", "Inspecting an archive reports exactly what it holds",
  "For every valid archive, whatever wrote it, each way of inspecting it (the listing and its verbose form, looking up one part, one metadata value or the hash of a part, extracting, the library's lookup and size functions, the Python attributes) reports exactly the values stored in the file: every metadata entry and part is listed once with its identifier, size, padding, flags, transport size and value; the header fields, sizes and hashes are right; a payload hash in the header that does not match the content is pointed out, and one that does match is not. Asking for something that is not in the archive, reserved identifier zero included, is an error and never yields an entry or data. Inspection never changes the file.",
  ["inputs"], "all valid archives and all identifiers asked for, present or not",
  "The tests show and extract from one or two archives made by the tool itself and compare a few lines.",
  ["src/show.c", "src/extract.c", "src/main.c", "lib/bpak.c", "lib/utils.c", "lib/pkg.c", "lib/verify.c", "python/package.c", "python/part.c", "python/meta.c"],
  [("listing and lookups", "src/show.c action_show"), ("extraction", "src/extract.c"), ("lookup", "lib/bpak.c bpak_get_part/bpak_get_meta"), ("text form of metadata", "lib/utils.c bpak_meta_to_string")],
  ["standard output and exit status of show and extract", "results of the accessors", "Python attributes"])

p("C26", "Every form of a command line means the same",
  "For every command and every combination of its documented options, the effect on files, the exit status and the text written are the same whichever form is used: short or long option, value attached or separate, any order of the options and of the file arguments among them, file arguments behind '--' whatever their name. Adding -v only adds messages: files, exit status and the data that is written do not change. --help succeeds, lists exactly the options the command accepts and does nothing else. An unknown action, generator or option, an option without its value and a missing file argument are errors that are reported on standard error and leave every file untouched, and every command that fails says so there.",
  ["inputs"], "all commands, options, orders and spellings",
  "The scripts use one spelling and order of each command, with long options.",
  ["src/main.c", "src/misc.c", "src/add.c", "src/create.c", "src/delete.c", "src/extract.c", "src/generate.c", "src/set.c", "src/show.c", "src/sign.c", "src/transport.c", "src/compare.c"],
  [("action dispatch", "src/main.c main"), ("option tables", "src/*.c action_*"), ("help texts", "src/misc.c")],
  ["files", "exit status", "standard output and error"])

p("C27", "A package stays usable after a failed operation",
  "After an operation on an open package (library or Python object) was reported as failed because memory, file space or the device failed, the same object can be used further: if the attempt left the file as it was, everything goes on as if the attempt had not been made; otherwise as if it had not been made or as if it had been completed. Repeating the operation once the cause is gone, or doing any others, has exactly the results it would have had in that case. Nothing of a half-done attempt appears in the file later. The same holds for encoding and decoding again with the same packages after a failed run. (A device error in the middle of the data move of a delete is excepted.)",
  ["fault_sequences", "histories"], "all operations, failure points and continuations",
  "No test provokes a failure of memory or the device, and none goes on using an object after an error.",
  ["lib/pkg_create.c", "lib/pkg.c", "lib/pkg_sign.c", "lib/bpak.c", "lib/transport_encode.c", "lib/transport_decode.c", "python/package.c", "python/part.c", "python/meta.c"],
  [("header changes before the write", "lib/pkg_create.c, lib/pkg_sign.c"), ("setters", "python/package.c, python/part.c, python/meta.c")],
  ["results of the operations", "archive bytes after the history"])

p("C28", "A configured hash or signature backend does all the work",
  "With backends installed by bpak_hash_setup and bpak_crypto_setup, every hash (payload, package and part hashes, merkle trees) is computed by the installed hash backend and every signature, verification and key comes from the installed signature backend, which is asked about exactly the right data: a backend that computes the same function gives the same results and files as the built-in one. The backend interface is kept: contexts are initialised before use, not used after their result was taken or after release, and released exactly once, whether the operation succeeds or fails; keys handed to the library are released. A failure reported by any call of a backend, or a backend that is missing, makes the operation fail and leaves the archive unchanged (apart from a delete that has already moved data); in particular a verification succeeds only if the backend reports success and a valid signature.",
  ["configurations", "fault_sequences"], "all operations, archives and backend failures",
  "No test installs a backend.",
  ["lib/crypto.c", "lib/merkle.c", "lib/verify.c", "lib/pkg.c", "lib/pkg_create.c", "lib/pkg_sign.c", "lib/pkg_verify.c", "lib/keystore_load_from_file.c", "include/bpak/crypto.h"],
  [("context lifetime", "lib/merkle.c, lib/verify.c, lib/pkg_verify.c"), ("backend dispatch", "lib/crypto.c")],
  ["backend calls", "results of the operations", "archive bytes"])

p("C29", "A library built with fewer features does the rest like the full one",
  "The library can be built without LZMA, without merkle trees, without mbedTLS, or as the minimal library. Such a build compiles, loads without the libraries it does not need, and for every operation and input either has the same result and writes the same bytes as the full library or, only where the missing feature is really needed (LZMA compressed patches, generating or adding hash trees, hashes and signatures when no backend is installed), reports an error and leaves its input files unchanged. In particular payload hashes are still checked, uncompressed and heatshrink patches still apply, and the header functions of the minimal library agree with those of the full library.",
  ["configurations", "inputs"], "all build configurations x operations x inputs",
  "The test suite is built and run for the full configuration only.",
  ["lib/bspatch.c", "lib/bsdiff.c", "lib/verify.c", "lib/crypto.c", "lib/transport_decode.c", "lib/pkg_create.c", "lib/bpak.c", "lib/build_config.h.in", "include/bpak/bspatch.h"],
  [("conditional code", "#if BPAK_CONFIG_* in lib/*.c")],
  ["results of the operations", "archive bytes", "output streams"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
