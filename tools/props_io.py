IO = "rust/jstprove_io/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="other", observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, dict(technique=technique, level=level, level_note=note)))

AI = "abstract interpretation of the type-checked MIR (value-numbering dataflow, interprocedural)"
AN = ("Every path of the analysed functions is covered for arbitrary inputs and for a failure of any I/O call; loops are summarised or recognised. "
      "Trusted: rustc's MIR, the hand-written effect summaries of std/zstd/rmp-serde/crc32c. An alarm needs a fully understood counterexample term; "
      "anything the analysis does not understand is listed as undecided in the evidence and does not alarm.")

prop("P01", "A damaged enveloped artifact is never decoded into a value",
     "Whenever an input starts with the artifact envelope magic and decoding returns a value, the input contained a complete header and the complete declared payload, the checksum of exactly the declared payload equals the recorded one, and the value is decoded from that payload. Any envelope that is truncated, or whose payload or recorded checksum differs, is refused with an error, whether it is read from a byte buffer or from a file, compressed or not.",
     ["inputs", "fault_sequences"], "every byte string or file that starts with the envelope magic, both decoding entry points, both compression flags, any truncation or corruption",
     "The tests flip one byte of one compressed buffer and truncate one buffer; the claim ranges over every length, flag and corruption position and over the file entry point too.",
     [IO + "envelope.rs", IO + "lib.rs", IO + "compress.rs"],
     [("CRC32C over the payload, compared with the header", IO + "envelope.rs"), ("length check before the payload is sliced or streamed", IO + "envelope.rs")],
     AI + "; every value-returning outcome must entail header, length and CRC facts", AN, observe=["deserialize_from_bytes", "deserialize_from_file"])
prop("P02", "Every serialised artifact reads back as the value that was written",
     "Decoding what was encoded yields the original value: for bytes to bytes, file to file, and across the two (a file's content through the byte decoder and encoded bytes saved as a file), with and without compression. Bytes that follow the envelope, and bytes inside the declared payload after the encoded value, do not change the result.",
     ["inputs", "configurations"], "all serialisable values, both compression settings, all four pairings of writer and reader entry points",
     "The tests round-trip a handful of small values through two of the pairings.",
     [IO + "envelope.rs", IO + "compress.rs", IO + "lib.rs"],
     [("envelope writer and reader", IO + "envelope.rs"), ("zstd adapters", IO + "compress.rs")],
     AI + "; the encoder's output term is fed into each decoder and the result must normalise to the input value", AN, observe=["serialize_to_bytes", "serialize_to_file", "deserialize_from_bytes", "deserialize_from_file"])
prop("P03", "Written artifacts follow the documented envelope byte layout",
     "An encoded artifact is the four magic bytes, then a little-endian 32-bit flag word with bit 0 set exactly when compression was requested and no other bit set, then the 64-bit little-endian payload length, the 32-bit little-endian CRC32C of the payload, and the payload itself, which is the MessagePack encoding of the value, zstd-compressed when the flag is set. The byte and file writers agree, and the decoders read the fields at those offsets.",
     ["inputs", "configurations"], "all values and both compression settings, both writers",
     "Round-trip tests cannot see a change made consistently to both sides; only one test looks at the first four bytes.",
     [IO + "envelope.rs"], [("envelope header writer and reader", IO + "envelope.rs")],
     AI + "; the output byte term is compared field by field with the layout", AN, observe=["serialize_to_bytes", "serialize_to_file"])
prop("P04", "Artifacts written before the envelope existed stay readable",
     "An input that does not start with the envelope magic is decoded as a bare zstd frame when it starts with the zstd magic and as bare MessagePack otherwise, whatever its length; it is never refused for lacking a header. This holds for the byte and the file decoder alike.",
     ["inputs", "histories"], "every non-enveloped input of every length, including shorter than a header",
     "The tests read one legacy buffer of each kind, all longer than a header.",
     [IO + "envelope.rs", IO + "compress.rs"], [("format detection by magic", IO + "envelope.rs")],
     AI + "; outcomes are split by input format and compared with the legacy decoding term", AN, observe=["deserialize_from_bytes", "deserialize_from_file"])
prop("P05", "Streaming compression is transparent and loses no bytes",
     "What is written through the optional-compression writer and finished is exactly the bytes written (zstd-framed when compression is on), and the matching reader yields exactly those bytes back, detecting compression from the data; a failure to deliver any byte, including in the final flush, is reported as an error rather than success. Serialising to standard output or reading from standard input follows the same rules.",
     ["inputs", "fault_sequences", "configurations"], "every byte stream, every chunking of writes, both compression settings, and an error from any underlying write or flush",
     "The tests push one short buffer through an in-memory sink that never fails.",
     [IO + "compress.rs", IO + "lib.rs"], [("MaybeCompressed writer/reader", IO + "compress.rs"), ("auto-detecting reader", IO + "compress.rs")],
     AI + "; per-call transfer terms and error propagation on every path", AN)
prop("P06", "A bundle write either completes or leaves nothing behind",
     "Writing a bundle returns success only when every requested component file holds its complete content; if any step fails, every file that this call created is removed again and the bundle directory too when this call created it, and files of an existing bundle are never overwritten. Reading never modifies the bundle.",
     ["fault_sequences", "crash_points", "inputs"], "a failure of any single create, write, flush, sync or serialise step, for both compression settings and with or without a verification key",
     "No test injects a failing write, serialisation or directory creation; the cleanup code never runs in the tests except on the already-exists path.",
     [IO + "bundle.rs"], [("cleanup guards", IO + "bundle.rs"), ("the bundle directory is created, never reused", IO + "bundle.rs")],
     AI + " with an abstract file system; drop-guard effects on every error path", AN, observe=["write_bundle", "read_bundle"])
prop("P07", "Reading a bundle returns exactly the components that were written",
     "A bundle that was written successfully reads back with the same circuit, witness-solver, metadata and verification-key contents, whichever compression setting was used, and the partial readers return the corresponding single components. A bundle without a verification key reads as having none, while a verification key that exists but cannot be read is an error, and asking for only the verification key of a bundle without one is an error.",
     ["inputs", "histories", "fault_sequences"], "all component contents (uncompressed blobs that themselves start with the zstd magic excepted), metadata present or not, key present, absent or unreadable",
     "The tests use a few tiny blobs and never an unreadable key.",
     [IO + "bundle.rs", IO + "compress.rs"], [("component readers", IO + "bundle.rs")],
     AI + " with an abstract file system; the writer's final file contents are fed to each reader", AN, observe=["write_bundle", "read_bundle", "read_bundle_metadata", "read_vk_only"])
prop("P08", "Artifact decoding never panics on hostile bytes",
     "No content of a byte buffer, file, stream or bundle directory makes a decoding entry point panic: no out-of-range index, arithmetic overflow or unwrap of a missing value can occur, whatever lengths the header declares. Malformed input is reported as an error.",
     ["inputs"], "every byte string, including declared payload lengths near the integer limits",
     "The tests feed a few truncated buffers; they do not reach adversarial declared lengths.",
     [IO + "envelope.rs", IO + "bundle.rs", IO + "compress.rs", IO + "lib.rs"], [("checked arithmetic and length checks", IO + "envelope.rs")],
     AI + "; each panic edge (bounds, overflow, unwrap, explicit panic) must be infeasible", AN)
