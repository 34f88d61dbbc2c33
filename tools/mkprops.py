#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))

prop("C01","Deciphering a block restores it, for every cipher, key and block",
 "For AES, Serpent, Twofish and ChaCha, deciphering an enciphered block under the same key and nonce gives back exactly the original block, for every block value and every key of every length (short and over-long keys included). Every byte of the block takes part: the enciphered block hides all of its bytes, none is passed through unchanged by construction.",
 ["inputs"],"all keys (any length 0..64 bytes) x all blocks, per cipher",
 "The test vectors exercise a handful of keys and blocks per cipher; most table entries, and most key lengths, are never reached by a vector.",
 ["wizard/aes.c","wizard/serpent.c","wizard/twofish.c","wizard/chacha.c"],
 [("key schedule","SetAESKey, SetSerpentKey, SetTwofishKey, SetChachaKey"),("block transforms","Encipher*Block / Decipher*Block")],
 ["output buffers of the encipher and decipher block functions"])
prop("C02","Block ciphers compute the published algorithms",
 "The enciphered block equals the value the published specification defines for that key and block: FIPS-197 AES with 128, 192 and 256 bit keys, Serpent, Twofish, and the 20-round ChaCha core. This holds for every table entry and every round, not only for the values that occur in published vectors.",
 ["inputs"],"all keys and blocks, per cipher and key size",
 "A known-answer vector reaches about 160 of the 1024 entries of each table set; a wrong entry elsewhere passes every vector in the suite.",
 ["wizard/aes.c","wizard/serpent.c","wizard/twofish.c","wizard/chacha.c"],
 [("round function","EncipherAESBlock, EncipherSerpentBlock, EncipherTwofishBlock, EncipherChachaBlock"),("substitution tables","static tables of the four files")],
 ["expanded key and enciphered block"])
prop("C03","Cipher modes match their definition, round-trip, and never repeat a counter",
 "For every mode (ECB, CBC, CFB, OFB, CTR), every message and every nonce, the enciphered message is the one the mode's definition gives for the underlying block cipher, deciphering with the same key and nonce restores the message, and the message length is unchanged. The counter blocks of a message are distinct: they start at the nonce and advance by one as a big-endian number over the whole block, a generated counter nonce starts its counter half at zero, and exhaustion stops the operation instead of wrapping.",
 ["inputs","configurations","histories"],"all messages up to several blocks, all lengths including non-multiples of the block size, all nonces, any invertible block cipher, consecutive messages",
 "The suite runs CTR on a few vectors and checks other modes only by one round trip of one message; carries across counter bytes and partial last blocks are not reached.",
 ["wizard/cipher.c"],
 [("mode loops","EncipherCipher and DecipherCipher mode functions"),("counter","IncrementCipherNonce"),("nonce handling","SetCipherNonce, GenerateCipherNonce")],
 ["message bytes and length after the call","blocks handed to the block cipher"])
prop("C04","Message digests depend only on the concatenated message",
 "For MD5, SHA-1, SHA-2 and SHA-3 the digest equals the published function of the concatenation of all bytes supplied since initialisation, however the bytes were divided over update calls, for every length including single updates of 4 GiB and more. A hash object can be initialised and used again, and earlier use never influences a later digest.",
 ["inputs","histories"],"all messages up to a few blocks x all divisions into updates x all lengths around block boundaries; all 64-bit lengths for the length accounting",
 "Vectors use one or two update calls with short text; division points, the padding boundary lengths and carries of the bit counter are not covered.",
 ["wizard/md5.c","wizard/sha1.c","wizard/sha2224.c","wizard/sha2256.c","wizard/sha2384.c","wizard/sha2512.c","wizard/sha3.c","wizard/hash.c"],
 [("buffering","Update* functions"),("padding and length","Finalize* functions"),("compression","Transform* functions")],
 ["digest bytes, blocks fed to the compression function"])
prop("C05","HMAC equals the RFC 2104 construction for every key and message",
 "For every supported hash, key length and message, the authentication code equals the hash of (key xor outer pad, hash of (key xor inner pad, message)), where keys longer than the block are hashed first and shorter ones are zero padded. Computing a code leaves the key and message untouched, and a second computation with the same object is not influenced by the first.",
 ["inputs","histories"],"all keys around the block size, all messages within bounds, repeated use",
 "Three short RFC vectors; key lengths at, one below and one above the block size and reuse after a longer key are not covered.",
 ["wizard/hmac.c","wizard/hash.c"],
 [("construction","ConstructHMAC / InitializeHMAC / UpdateHMAC / FinalizeHMAC")],
 ["byte strings given to the hash, resulting digest"])
prop("C06","CRC-64 is the documented polynomial checksum, in one call or many",
 "The checksum of a message equals the bitwise definition with the toolkit's polynomial for every message, and feeding the message in any number of pieces gives the same value as feeding it at once.",
 ["inputs","histories"],"all messages up to a bound x all divisions",
 "One vector; 256 table entries, most never indexed.",
 ["wizard/crc64.c"],[("table and update loop","UpdateCRC64, FinalizeCRC64")],["checksum bytes"])
prop("C07","Random bytes are never handed out twice and never skip reseeding state",
 "The bytes returned by successive requests are successive, non-overlapping parts of one keyed stream, so dividing a request differently never repeats or reorders bytes, and no two stream blocks are made from the same counter value. Uniform deviates lie in the half-open unit interval and depend on fresh stream bytes only.",
 ["inputs","histories"],"all sequences of request lengths within bounds, all counter values, all internal states for the deviates",
 "Tests only check that two keys differ; a repeated block or an off-by-one in the leftover buffer looks random.",
 ["wizard/random.c"],[("stream","SetRandomKey, GetRandomKey"),("counter","IncrementRandomNonce"),("deviates","GetRandomValue, GetPseudoRandomValue")],
 ["bytes returned by the random API"])
prop("C08","Secret keys authenticate with the right passphrase and only with it",
 "A key generated under a passphrase is recovered unchanged when authenticated with the same passphrase and identifier, and authentication reports success only if the identifier recomputed from passphrase and recovered key equals the stored identifier. Generation reports success only if the key has been stored.",
 ["inputs","histories","fault_sequences"],"all keys, passphrases, identifiers and stored records within bounds; store and lookup failures",
 "One round trip with one passphrase; wrong passphrase, damaged record and failed store are not tried.",
 ["wizard/secret.c","wizard/authenticate.c","wizard/keyring.c"],
 [("authentication","AuthenticateSecretKey"),("generation","GenerateSecretKey")],["return status, recovered key"])
prop("C09","The keyring returns exactly what was stored, and rejects damaged files",
 "After storing keys, looking up an identifier returns the key and nonce stored under it and other records are unaffected; an unknown identifier, a truncated or a damaged file and an I/O failure make the operation report failure through its status, without crashing, hanging or returning partial key material.",
 ["inputs","histories","fault_sequences","crash_points"],"all record contents, all prefixes of a keyring file, all bytes of the header, all read/write failures",
 "The suite uses one freshly written keyring; truncation and failures of individual reads and writes are not simulated.",
 ["wizard/keyring.c","wizard/file.c"],[("lookup","ExportKeyringKey"),("append","ImportKeyringKey")],["status, id, key and nonce of the keyring object, file bytes"])
prop("C10","File transfers complete in spite of short, interrupted and ended I/O",
 "Reading or writing a chunk transfers all bytes in order even if the system transfers fewer bytes per call or interrupts a call, stops at end of file or on error reporting the exact number of bytes transferred, and always returns. Fixed-width integers written to a file read back unchanged and are stored least significant byte first.",
 ["fault_sequences","inputs"],"all sequences of per-call results (short counts, interruption, error, end of file), all integer values",
 "Regular files never return short counts or interruptions in the test environment.",
 ["wizard/file.c"],[("chunk loops","ReadFileChunk, WriteFileChunk"),("integers","Read/WriteFile16/32/64Bits")],["returned counts, buffer and file bytes"])
prop("C11","A file lock is held by one owner at a time and survives other contenders",
 "While a live process holds a file's lock no other process obtains it, and a process that fails to obtain the lock leaves the holder's lock in place. A lock left behind by a dead process does not prevent acquisition, and releasing removes exactly the lock that was obtained.",
 ["schedules","fault_sequences"],"all states of an existing lock file (own, live other, dead other, truncated), all results of the lock-file operations",
 "No test opens the same file from two processes or leaves a stale lock.",
 ["wizard/file.c"],[("lock file","AcquireFileLock, RelinquishFileLock, AcquireFileInfo, DestroyFileInfo")],["lock-file operations issued, returned object"])
prop("C12","Content transformed for entropy is restored exactly or refused",
 "Compressing content and restoring it gives back the original bytes and length, and both directions report success only if the compressor or decompressor finished the whole stream; a truncated or damaged stream, or a result that does not fit the announced length, is reported as failure and never returned as content.",
 ["inputs","fault_sequences"],"all results the compression libraries are documented to return, all lengths",
 "Tests round-trip one short text; truncated and damaged streams, and lengths beyond 32 bits, are not tried.",
 ["wizard/zip.c","wizard/bzip.c","wizard/lzma.c","wizard/entropy.c"],[("codecs","Increase*/Restore* functions")],["status and resulting content"])
prop("C13","A linked list behaves as a sequence under every history of operations",
 "After any sequence of append, insert at a position, sorted insert, removal by position, by value and from the end, the list holds exactly the elements, order and count that the same operations give on an ordinary sequence, and the iterator visits each element once in order. Every value is released exactly once on destruction.",
 ["histories","inputs"],"all operation histories up to a bound from the empty list, all positions and values",
 "The suite has no list test; only append and iteration are used by other tests.",
 ["wizard/hashmap.c"],[("list operations","Append/Insert/Remove/Get functions of linked lists")],["values returned by the API, element count"])
prop("C14","A hash-map behaves as a finite map under every history of operations",
 "After any sequence of insertions, replacements, lookups and removals, a lookup returns the value most recently stored under an equal key or nothing, the entry count equals the number of distinct keys, and iteration yields every entry exactly once; growing the map changes nothing observable. Replaced and removed keys and values are released exactly once.",
 ["histories","inputs"],"all operation histories up to a bound, colliding and non-colliding keys, map growth",
 "No test replaces a key, forces a collision or grows a map.",
 ["wizard/hashmap.c"],[("map operations","Put/Get/Remove/Iterate functions, IncreaseHashmapCapacity")],["values returned by the API, entry count, release callbacks"])
prop("C15","A splay-tree behaves as an ordered map under every history of operations",
 "After any sequence of insertions, replacements, lookups, deletions and clones, lookups return the value most recently stored under an equal key or nothing, the node count is the number of distinct keys, and iteration yields the keys in ascending order exactly once. Keys and values are released exactly once, and no released key or value is ever used again.",
 ["histories","inputs"],"all operation histories up to a bound, all key orders",
 "Only indirect use with a few keys; deletion orders, rebalancing and replacing a key while iterating are not covered.",
 ["wizard/splay-tree.c"],[("tree operations","Add/Get/Delete/Remove/Clone/Iterate functions, Splay")],["values returned by the API, node count, release callbacks"])
prop("C16","String and buffer operations yield the exact text within bounds",
 "Copying, concatenating, splitting, substituting, stripping, comparing and converting strings and byte buffers give exactly the result the operation's description defines for every content and length, and never read or write outside the buffers involved. Truncating copies are always terminated; a copy reports the length of the stored text, a concatenation the untruncated length.",
 ["inputs"],"all string contents and lengths up to a bound, all buffer sizes",
 "Tests use one or two long-enough buffers; exact-fit, one-short and empty cases are missing.",
 ["wizard/string.c"],[("byte buffers","ConcatenateStringInfo, SplitStringInfo, SetStringInfo, CompareStringInfo"),("strings","CopyWizardString, ConcatenateWizardString, SubstituteString, StripString, StringToArgv")],["resulting strings and buffers"])
prop("C17","Base64 and hexadecimal text decode to the bytes that were encoded",
 "Encoding any byte string and decoding the text gives back the same bytes and length, the encoded text is the standard one, and text that is not a valid encoding is rejected without touching memory outside the buffers.",
 ["inputs"],"all byte strings and all candidate texts up to a bound",
 "No test covers base64; hexadecimal only through digests.",
 ["wizard/utility.c","wizard/string.c"],[("base64","Base64Encode, Base64Decode"),("hex","StringInfoToHexString, HexStringToStringInfo")],["returned buffer and length"])
prop("C18","Tokens, glob patterns and options parse within bounds and as documented",
 "Every NUL-terminated input is parsed without touching memory outside it and its result buffer, the parser always advances or stops, and results follow the documented meaning: wildcard, set and alternative patterns match exactly the texts they describe, tokens are the delimited parts of the input, and an option name maps to its value and back.",
 ["inputs"],"all texts and patterns up to a bound",
 "Only well-formed inputs occur in the tests; unterminated sets, trailing escapes and empty items do not.",
 ["wizard/token.c","wizard/option.c"],[("tokens","GetNextToken"),("glob","GlobExpression"),("options","ParseWizardOption, WizardOptionToMnemonic")],["returned token, match result, option value"])
prop("C19","Paths are split into the documented parts within bounds",
 "For every path, the head, tail, root, base, extension, subnode and component list are the documented parts of it, recombining head and tail names the same file, and no memory outside the path and result buffers is touched. Appending an extension changes only the extension.",
 ["inputs"],"all paths up to a bound, including separators, dots and brackets in every position",
 "Tests use a few ordinary file names.",
 ["wizard/utility.c"],[("components","GetPathComponent, GetPathComponents, ChopPathComponents, AppendFileExtension")],["component buffers"])
prop("C20","XML text is parsed and produced safely and faithfully",
 "Any text given to the XML reader is processed without touching memory outside it and either yields a tree or an exception; content and attributes written by the toolkit and read back are unchanged. Adding, replacing and removing attributes and inserting and pruning elements behave like the same operations on an ordered tree.",
 ["inputs","histories"],"all texts up to a bound, all attribute operation histories up to a bound",
 "Configuration files in the tests are well formed and use a small subset of XML.",
 ["wizard/xml-tree.c"],[("reader","NewXMLTree, ParseEntities, ConvertUTF16ToUTF8"),("attributes","SetXMLTreeAttribute, GetXMLTreeAttribute"),("elements","InsertTagIntoXMLTree, PruneTagFromXMLTree"),("writer","CanonicalXMLContent")],["tree content and attributes"])
prop("C21","Resource use never exceeds its limit and is accounted exactly",
 "A memory, map, disk or file request is granted exactly if the resulting use stays below the limit (an unlimited resource grants whatever its 63-bit account can hold), a refused request leaves the accounted use unchanged, and releasing returns exactly what was granted. This holds for every size, including sizes near the top of the range. An area request is judged by its own size alone. A temporary file takes one file unit while it exists and is removed when it is refused or released.",
 ["inputs","histories"],"all sizes and limits, all histories of acquire/release up to a bound",
 "No test reaches a limit.",
 ["wizard/resource.c"],[("accounting","AcquireWizardResource, RelinquishWizardResource, SetWizardResourceLimit"),("temporary files","AcquireUniqueFileResource, RelinquishUniqueFileResource")],["grant status, reported use"])
prop("C22","Memory requests are exact or refused; sizes never wrap",
 "An allocation or resize of count times size yields at least that many usable bytes with the old content preserved, or is refused; a product or sum that does not fit is always refused, never wrapped. Large buffers obtained by any backing (heap, map, file) are released by the matching means exactly once and the accounted resources return to their previous values.",
 ["inputs","fault_sequences"],"all counts and sizes, all patterns of backing failures",
 "Tests allocate small sizes that never fail.",
 ["wizard/memory.c"],[("quantum memory","AcquireQuantumMemory, ResizeQuantumMemory, AcquireAlignedMemory"),("virtual memory","AcquireVirtualMemory, RelinquishVirtualMemory")],["returned pointers, resource accounting"])
prop("C23","Files and blobs are read and written faithfully under short transfers",
 "Reading a file or stream into memory returns exactly its bytes up to the requested extent whatever the sizes of the individual transfers, and blob reads and writes move exactly the reported number of bytes, without touching memory outside the buffers and always returning.",
 ["fault_sequences","inputs"],"all sequences of transfer sizes, interruption and failure, all extents",
 "Tests read small regular files in one transfer.",
 ["wizard/blob.c"],[("whole file","FileToBlob"),("streams","ReadBlob, ReadBlobChunk, WriteBlob, WriteBlobChunk")],["returned buffer and length"])
prop("C24","An enciphered file deciphers to the original; tampering is reported",
 "Whatever the content, chunk size, cipher, mode, entropy and integrity settings, deciphering an enciphered file with the right key reproduces the original bytes; if the stored ciphertext of a chunk has been altered, deciphering reports an error and does not accept the altered chunk as content.",
 ["inputs","configurations","fault_sequences"],"all contents within bounds, all alignments of content length to chunk and block size, all modes, all altered bytes",
 "The utility tests encipher one short text with one setting.",
 ["utilities/encipher.c","utilities/decipher.c","utilities/content.c"],[("file format loops","EncipherContent, DecipherContent"),("header","GetContentInfo")],["bytes written to the plaintext file, status"])
prop("C25","Shared collections and accounts release their lock on every path",
 "Every public operation of lists, maps, trees, resource accounting and exceptions leaves every lock as it found it on every path, including early returns and failures, never acquires a lock it already holds, and changes shared state only while the lock is held.",
 ["schedules","inputs","fault_sequences"],"all operations from all states reachable within bounds",
 "Tests are single threaded and do not observe locks; a missing release shows only as a hang later.",
 ["wizard/hashmap.c","wizard/splay-tree.c","wizard/resource.c","wizard/exception.c"],[("locking","LockSemaphoreInfo / UnlockSemaphoreInfo pairs in public operations")],["lock state at return"])
prop("C26","Exceptions are recorded in order and reported by severity",
 "Each raised exception that differs from the previous one is recorded once in order, the reported severity and texts are those of the latest one, inheriting copies all of them, and clearing removes all of them and releases them exactly once; reporting calls the handler that matches each exception's severity.",
 ["histories","inputs"],"all sequences of raise, inherit, clear and report up to a bound, all severities",
 "Tests raise no exceptions on purpose.",
 ["wizard/exception.c"],[("list of exceptions","ThrowException, InheritException, ClearWizardException, CatchException")],["severity, reason, handler calls"])
prop("C27","A key map returns the key stored for a content, and nothing for others",
 "A key stored in a key map for a content identifier is returned unchanged for that identifier until it is replaced, is never returned for a different identifier, and is kept enciphered in memory while stored.",
 ["inputs","histories"],"all keys and identifiers within bounds, any invertible session cipher",
 "One key is stored and fetched once.",
 ["wizard/key.c"],[("key map","SetKeyInfo, GetKeyInfo")],["returned key"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
