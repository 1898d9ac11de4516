T = "TLA+ spec; recorded traces of the real library judged by TLC"
F = "seeded random sets and histories are written, read, compressed, cut and queried in the real library (ASan); each observation (messages, existence, compression, digests of bytes, content read back) is judged by TLC against spec/Files.tla, which holds the state of the files and says what each reading may give"
MORE = {
 "P09": (T, "every small arrangement and clustering of it enumerated by TLC (spec/MCGeom.tla, its own invariants checked); spec/Cluster.tla gives the clusterings a set allows (neighbour choice with ties, number per neighbour with floating-point slack, segment position by exact integer cross products); every clustering of seeded random sets is run in the real library (ASan) and judged against it, with the source set checked unchanged"),
 "P12": (T, F + "; the BGEO bytes are also decoded by an independent reader and files of an independent writer (with primitives and primitive attributes) are read"),
 "P13": (T, F + "; text floats compared after rounding to six digits"),
 "P14": (T, F + "; independent writers of PDB (32 and 64 bit) and PDC supply further files"),
 "P15": (T, F + "; independent writers of PRT (all eleven channel types), PTC (three versions) and BIN (versions 1-13) supply further files; normals are judged in integers"),
 "P16": (T, F + "; PTS and MC texts are generated with their meaning given by PtsSet/McSet of the specification, RIB text is parsed by an independent reader"),
 "P17": (T, F + "; independent gzip encoder (all header options, levels, strategies, empty blocks) and decoder; histories of spec/MCFiles.tla are replayed"),
 "P18": (T, F + "; every combination of what can be at a few paths is enumerated by TLC from spec/MCFiles.tla (its guarantees checked there) and replayed"),
 "P19": (T, F + "; all extensions, missing, unopenable, directory and mismatching files mixed in histories; every combination of what can be at a few paths is enumerated by TLC from spec/MCFiles.tla (its guarantees checked there) and replayed"),
 "P20": (T, F + "; each read of a cut file runs under ASan with pattern-initialised variables and a time limit"),
 "P24": (T, F + "; the specification remembers the bytes and the text printed for each content and rejects a different one, also when it comes from a second process with other leftovers in its memory"),
 "P25": (T, "histories of the checks P01-P10 and P12-P21 (bounded models and random ones, failing operations included) are performed twice over in one process (ASan); spec/System.tla remembers what each history left behind (bytes allocated, open files, after releasing every object) and allows the repetition to leave exactly that"),
 "P10": ("TLA+ spec model-checked; linearizability of recorded histories judged by TLC", "spec/CacheAlg.tla refines the locking protocol (TLC, its unlocked variants must fail); every short cache history of spec/MCCache.tla is replayed in the real library (ASan, and plainly with addresses being reused) and judged against System.tla; histories of 2-4 threads sharing the cache under ASan and TSan are accepted only if some order of the operations explains what they returned (spec/CacheTrace.tla)"),
 "P11": ("TLA+ spec; recorded traces of the real library judged by TLC", "2-8 threads with sets and files of their own and a shared sorted set, from the first use of the library on, under TSan and ASan; what each thread observed is judged by TLC against the sequential specification"),
 "P21": (T, "spec/Zip.tla holds what the zip writer, archives, readers and member streams may do; every short history of spec/MCZip.tla (its guarantees checked by TLC) and seeded random ones run in the real library (ASan), written archives also read by zipfile, unzip and a strict parser, archives of zipfile and zip given to the reader"),
 "P22": (T, "the Python module is built from the working tree (SWIG, ASan); programs of the bounded models, random histories, merges, queries, clusterings, file histories, values of every kind and length, references and kept results run through it and are judged by TLC against spec/Binding.tla, which adds what only Python has to the specification of the library"),
 "P23": (T, "sets pass through partjson (its functions in memory and through JSON text, its main on files), files through partconvert in chains over all pairs of formats, and partinfo and partattr report on them; the tools are built from the working tree (ASan) and their output is judged by TLC against spec/Tools.tla: what the library reads from the tool's input, written or reported"),
}
