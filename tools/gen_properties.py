#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)

p("C01","Encipher then decipher gives back exactly the same text",
  "Any message text over the supported alphabet (A-Z, a-z, 0-9, space, Å Ä Ö å ä ö and ? - . , : + /) that is enciphered yields only letters A-Z in whole groups, and deciphering that traffic with the same key or chain of keys gives back exactly the same text, for every key length of at least 20, group size and number of chained keys. Enciphering succeeds whenever the store holds enough unused, uncompromised keys the recipients keep, and text with any other character is refused with an error rather than altered.",
  ["inputs","configurations"],"every text over the alphabet, every key material, every group size 1..10, key length >= 20, and every split of the text over chained keys",
  "The only cipher test enciphers one fixed sentence with one key; the space of texts, case/table switches and key-change positions is unbounded.",
  ["cipher.go","diana/diana.go"],
  [("encodeCharacter / decodeCharacter state machine (table, shift)","cipher.go"),("chunking and changeKey at charCounter threshold","cipher.go Encipher"),("padding with table switches","cipher.go pad")],
  ["Message.Encipher/Decipher, NewTextMessage: KeyId, CipherText, PlainText, error"])

p("C02","A pad key is never used to encipher two messages at a station",
  "Over any history of sending (key picked automatically or named explicitly), failed sends, receiving, importing, deleting, saving and reloading at one station, no key - the first or a continuation key of a chain - enciphers more than one message or two parts of one message. A key that has enciphered part of a message is marked used before the message is handed out and stays marked, also after save and reload, so that it is refused for any later message. (A key that is deleted or overwritten and then imported anew counts as another key.)",
  ["histories","inputs"],"every sequence of station operations, with single-key and chained messages, automatic and explicit keys, and failures in between",
  "Tests run one Encipher; key lifetime is a property of whole histories with failures and reloads.",
  ["cipher.go","messages.go","persistence.go"],
  [("Used flag set in EnrichWithKey / Encipher / Decipher, released on failure","cipher.go"),("FindKey skips used keys","cipher.go")],
  ["Key.Used and the chain of keys each released cipher text decodes with"],
  [("Key.Used","key has enciphered or deciphered traffic","krypto431.go")])

p("C03","Only eligible keys encipher a message",
  "Every key in the chain that enciphers a message was, at that moment, unused, not marked compromised, had an id as long as the group size, and was kept by every recipient of the message (or was an anonymous key without keepers when the message has no recipients). When no such key exists the message is refused with an error; an explicitly named key that does not exist, is used, is compromised or is of the wrong length is refused likewise. (A first key that the operator names explicitly need not be kept by every recipient; the keys that continue it must be.)",
  ["inputs","histories"],"every key store (any mix of used/compromised/keepers/id lengths) and every recipient list",
  "Tests use one anonymous fresh key; eligibility ranges over all combinations of key attributes and recipients, and over continuation keys.",
  ["cipher.go","functions.go"],
  [("FindKey, AllNeedlesInHaystack","cipher.go, functions.go"),("EnrichWithKey explicit key checks","cipher.go")],
  ["keys decoded from the released cipher text against the key store before the send"])

p("C04","A send that fails returns an error and changes nothing",
  "If a message can not be enciphered - no key, too few keys for a long text, an unsupported character, an empty text, a bad explicit key, an unparsable radiogram - the call returns an error without crashing, stores no message, and leaves every key (id, letters, keepers, used and compromised marks) and every stored message exactly as before, so the same keys can be used afterwards. No cipher text of the failed attempt is left on the message object.",
  ["fault_sequences","inputs","histories"],"every way a send can fail, at every position in the text, from every key store",
  "No test exercises a failing send; partial failures depend on where in the chain the failure happens.",
  ["cipher.go","messages.go"],
  [("deferred release of keys and wiping on failure","cipher.go Encipher"),("message.Wipe on failure","messages.go NewTextMessage")],
  ["store before and after a failing Encipher / NewTextMessage"])

p("C05","Receiving marks exactly the keys used; failure leaves no trace",
  "Deciphering a received message marks as used exactly the keys the traffic was enciphered with, and no other key. If deciphering fails (key not in store, a continuation key missing, too short a key, letters outside A-Z) no key is marked and no message text is lost: traffic that can not be read is kept verbatim as text with no key id and can be deciphered later once the key arrives; text that is not cipher text is stored unchanged.",
  ["inputs","histories","fault_sequences"],"every received traffic, every subset of its key chain present, every order of key arrival and retry",
  "No test receives anything; the failure cases depend on which part of a chain is missing.",
  ["cipher.go","messages.go"],
  [("markKeysUsed deferred in Decipher","cipher.go"),("restore in TryDecipherPlainText","cipher.go")],
  ["Message fields and Key.Used before/after NewTextMessage, TryDecipherPlainText, Decipher"])

p("C06","Traffic follows the published legend, so hand and machine agree",
  "Deciphering interprets letters exactly as the printed coding legend says: primary table A-P, space (Q), R-Y, Z switches table; secondary table 0-9 ? - Å Ä Ö . Q , Z : + / with X toggling case, Y followed by one group naming the next key (after which coding restarts in the primary table, upper case), and Z switching back. Any legend-conformant letter sequence, including redundant switches that the program itself would not emit, deciphers to the text the legend defines, and what the program enciphers is readable by the legend.",
  ["inputs"],"every letter sequence (not only those the encoder emits) and every text",
  "A test samples one sentence through the program's own encoder and decoder; a matched change to both would pass while breaking pen-and-paper partners.",
  ["cipher.go","print.go","README.md"],
  [("CharacterTables, control characters","cipher.go"),("KeyFooter legend","print.go")],
  ["Decipher of arbitrary traffic; decoding of Encipher output by the legend; printed legend text"])

p("C07","The DIANA trigraph is reciprocal and equals the printed table",
  "For all letters x and y the trigraph is the letter number (25-x-y) mod 26, is symmetric in x and y, and applying it again with the same key letter returns the original letter; input outside A-Z or a nil argument is refused with an error and writes nothing. The printed reciprocal table shows exactly this function, and the stream helper advances its key index by one per letter and refuses indexes that are out of range.",
  ["inputs"],"all 26x26 letter pairs, all byte values and runes, both the byte and rune variants, every cell of the printed table",
  "Tests sample a few pairs; the table and out-of-range handling are universally quantified (the domain is small enough to enumerate completely).",
  ["diana/diana.go","print.go"],
  [("TrigraphByte / TrigraphRune / AppendTrigraphByteByKey","diana/diana.go"),("ReciprocalTable","diana/")],
  ["return values and written letters; text of the reciprocal table"])

p("C08","Saving then loading reproduces the store exactly",
  "Whatever keys, messages and settings a station holds, saving and then loading with the same key gives an instance with exactly the same keys (id, letters, keepers, created/expiry times, used, compromised, comment, order), messages (id, recipients, sender, time, key id, text, cipher text, binary, radiogram) and settings, also when loading into an instance that already holds other data, which is replaced. Loaded keys and messages work as before saving, and stores written by earlier versions still load.",
  ["inputs","histories"],"every store content (empty, large, many chunks), every sequence of save/load/modify, loading into fresh and into populated instances",
  "No test saves or loads anything.",
  ["persistence.go","krypto431.go"],
  [("gob+gzip+XSalsa20Poly1305 stream","persistence.go Save/Load"),("re-binding of instance pointers","persistence.go Load")],
  ["Save/Load and the exported fields of the instance"])

p("C09","A wrong key or a damaged store is rejected, never half-loaded",
  "Loading with a wrong key or salt, or loading a file that was truncated, extended, bit-flipped, reordered or is not a store at all, returns an error without crashing, and neither the file nor the keys, messages and settings of the loading instance are changed; the file remains loadable afterwards with the right key. Loading never reports success with content that differs from what was saved.",
  ["inputs","fault_sequences"],"every truncation length, every byte position corrupted, block reorder/replay, every wrong key",
  "No test loads a store; the fault positions are far too many for unit tests.",
  ["persistence.go"],
  [("authenticated encryption per block, gzip and gob framing","persistence.go Load")],
  ["Load error and instance/file content before and after"])

p("C10","Saving is atomic: a crash or write error never loses the store",
  "If the process is killed or the disk fills up at any point while a store is being saved over an existing one, the file afterwards loads with either the complete old or the complete new content; what takes the place of the old store has been brought to the disk before, so that a power failure does not lose both. A save that reports success has written a complete, loadable store, and a save that fails for any reason (no or invalid key, write error, an error when bringing the data to the disk, unwritable directory) reports an error, does not crash and leaves the previous file content intact and loadable.",
  ["crash_points","fault_sequences"],"every byte offset at which writing stops (process death or write error) and every system call of the save",
  "Unit tests cannot stop the process or fail a write in the middle of a save.",
  ["persistence.go"],
  [("file creation, stream/gzip close and error propagation","persistence.go Save")],
  ["Load of the file after the interrupted save, return value of Save"])

p("C11","An existing file is not overwritten unless it is meant to be",
  "Saving to a path where a file already exists fails and leaves that file untouched unless the instance was loaded from a store or overwriting was explicitly requested; this guards initialising, exporting and saving fresh instances alike. Missing persistence name, missing key, or invalid settings are reported as errors before anything on disk is touched.",
  ["histories","configurations"],"every combination of loaded/fresh instance, overwrite option, existing/missing file, key present/absent/invalid; API and command line",
  "No test saves; the guard is about combinations of state and configuration.",
  ["persistence.go","krypto431.go","cmd/krypto431/initialize.go","cmd/krypto431/keys.go"],
  [("overwritePersistenceIfExists","persistence.go Save/Load"),("-y flag","cmd/krypto431")],
  ["file bytes before/after, Save error, exit code"])

p("C12","Key export/import transfers exactly the selected keys, correctly owned",
  "An export holds exactly the keys selected by the filter, with unchanged id, letters, times, marks and comment, and no messages. Importing adds exactly the selected keys whose id length fits the receiving group size, with the receiver's call-sign removed from and the exporting station's call-sign added to the keepers; an existing key with the same id is never replaced unless overwriting was requested, in which case exactly that key is replaced, and the returned count equals the number of keys imported. Both stations can thereafter exchange messages with those keys, and the receiver can still save its store under its own key.",
  ["inputs","histories","configurations"],"every key set, selection, id collision pattern, overwrite setting, and way of supplying the key and salt",
  "No test exports or imports.",
  ["persistence.go","keys.go"],
  [("ExportKeys / ImportKeys","persistence.go"),("AddKeeper / RemoveKeeper","keys.go")],
  ["key lists of exporter, exported file and importer; receiver's PFK and salt; later Save"])

p("C13","An operation on one key, message or instance never changes another",
  "Keys, messages and instances are independent: wiping, deleting, enciphering with, editing or failing on one of them never alters the id, letters, keepers, marks or text of any other key or message, in the same store or in a store it was exported from or imported into. Each operation changes only what it is documented to change.",
  ["histories"],"every sequence of operations over several keys, messages and instances that were derived from each other",
  "Sharing of memory shows only in multi-step histories (send then delete, export then wipe, import then delete).",
  ["cipher.go","persistence.go","krypto431.go","keys.go","messages.go"],
  [("copying of rune slices (RuneCopy) where values cross objects","cipher.go, persistence.go")],
  ["full projection of all stores after every operation"])

p("C14","Deleting removes exactly the named keys or messages",
  "Deleting keys (ids compared case-insensitively) or messages (ids case-sensitive) removes exactly those that are named and exist, reports how many were removed, and leaves all others - including their relative usability and content - untouched. Deleting unknown or repeated ids is harmless, also in an empty store and when the last or only item is deleted.",
  ["inputs","histories"],"every store, every list of existing/unknown/repeated ids, and the summary-line and string variants",
  "No test deletes anything.",
  ["keys.go","messages.go"],
  [("DeleteKey, DeleteMessage and their string variants","keys.go, messages.go")],
  ["store before/after and the returned count"])

p("C15","Generated keys are unique, complete, random and correctly kept",
  "Every generated key has an id of group-size letters A-Z that no other key in the store has, key material of the configured length rounded up to whole groups consisting of letters A-Z drawn uniformly and freshly from the system's cryptographic random source, is neither used nor compromised, and expires when asked (by default after one year). Its keepers are exactly the given call-signs, split on commas and spaces, upper-cased and without the station's own call-sign, and an invalid expiry is refused without generating keys.",
  ["inputs","configurations"],"every group size, key length, count, keeper list, expiry and random stream, including id collisions",
  "The test generates keys and looks at their count; uniqueness under collisions, keeper normalisation and use of the random source are not visible to it.",
  ["keys.go","crand/crand.go","functions.go"],
  [("NewKey / GenerateKeys / VettedKeepers","keys.go, functions.go"),("crand over crypto/rand","crand/crand.go")],
  ["Keys after GenerateKeys/NewKey, with the random source recorded or scripted"])

p("C16","Wiping leaves no plaintext, cipher text or key material in memory",
  "After wiping or deleting a key, message or instance, and after closing an instance, the memory that held its key letters, id, keepers, comment, message text, cipher text, key id, raw radiogram, and the persistence key and salt no longer holds that content, whatever its size; this holds also when the random source fails. Passwords handed to key derivation are wiped as well, and the temporary encodings of a failed send are not left on the message.",
  ["inputs","fault_sequences"],"every object content and size, each wipe variant (default, random, zero, close, delete), working and failing random source",
  "No test wipes anything; the effect is on backing memory that ordinary assertions do not look at.",
  ["krypto431.go","keys.go","messages.go","persistence.go"],
  [("Wipe/RandomWipe/ZeroWipe on slices, Key, Message, Krypto431","krypto431.go")],
  ["the backing arrays, through aliases kept from before the wipe"])

p("C17","Printed traffic sent by one station is read unchanged by another",
  "The traffic text a station prints for a message it enciphered, entered as a radiogram at a station that holds the same keys, is stored there with the same sender, date-time and text as the original, with a group count that matches the groups printed; this holds for every supported text, any number of recipients and chained keys, with line wrapping, and after saving and reloading on either side.",
  ["inputs","histories"],"every supported text, recipient list, call-sign, group size and key chain, printed at any width and re-entered",
  "No test joins printing, parsing and deciphering; the composition can break while each part works on samples.",
  ["print.go","messages.go","cipher.go"],
  [("Message.String traffic example","print.go"),("ParseRadiogram and TryDecipherPlainText","messages.go, cipher.go")],
  ["printed string at the sender, stored message at the receiver"])

p("C18","Radiogram forms are parsed into the right parts",
  "A radiogram in any of the documented forms (full, semi, short, mini; any case, with line breaks, optional date-time group, group count, instructions and trailing = K, K, +, AR) is parsed into exactly its recipients, sender, date-time and message text, without losing or adding text characters; a message from the station itself is treated as outgoing, any other as incoming, and an incoming one without recipients is addressed to the station. Text that is not a radiogram is refused with an error.",
  ["inputs"],"every combination of form, call-sign list, separators, DTG form, group count, text, trailer, case and line breaks",
  "No test parses a radiogram.",
  ["messages.go","functions.go"],
  [("MessageRegexpFull/Semi/Short/Mini, MessageTrailRegexp","messages.go"),("VettedRecipients","functions.go")],
  ["ParseRadiogram / NewTextMessage result fields"])

p("C19","Printed keys and messages are complete and correct",
  "Key sheets and message sheets, as text or PDF, contain every selected key or message exactly once and no other, each with its complete key letters in whole groups in order (or complete text and cipher groups, preceded by the key id), its identifying data (id, keepers, expiry, sender, recipients, time), and for keys the reciprocal table and coding legend that match the cipher. This holds for every number and size of items, across page breaks and for every column setting allowed.",
  ["inputs","configurations"],"every number of items around page breaks, key length, group size, column widths, recipients and text lengths",
  "No test prints anything; losses appear only at particular page fills and sizes.",
  ["print.go","functions.go"],
  [("Key.String, Message.String, groups()","print.go, functions.go"),("KeysPDF / MessagesPDF paging","print.go")],
  ["returned strings, written text files, text extracted from the PDF"])

p("C20","Command-line selections pick exactly what the options say",
  "The keys and messages a command lists, exports, prints, imports or deletes are exactly those matching the given options: ids (alone decisive when given), keepers or recipients (all of them, or any with --or), sender, --all, --used, --unused, --compromised, --expired, --valid n and --invalid (expired or compromised), combined conjunctively; --all selects everything whatever else is given. Without options everything is selected; deleting non-interactively removes only the ids named.",
  ["inputs","configurations"],"every combination of options over stores covering every combination of key attributes",
  "There are no tests for the command-line program.",
  ["cmd/krypto431/keys.go","cmd/krypto431/messages.go","functions.go"],
  [("filterFunction in keys and messages commands","cmd/krypto431"),("AllNeedlesInHaystack/AnyNeedleInHaystack/AnyOfThem","functions.go")],
  ["output and resulting store of the real command-line program"])

p("C21","Cipher text is released only after the used keys are saved",
  "The command-line program shows the cipher text of a new message only after the store recording the message and its used keys has been saved; if saving fails or the program is killed before that, nothing enciphered has been shown and the exit status reports failure. Every other command that reports success has saved its effect, so running the next command continues from it.",
  ["crash_points","fault_sequences","histories"],"every crash point and write failure between enciphering and exit, and command sequences",
  "There are no tests for the command-line program, and unit tests cannot kill it in the middle.",
  ["cmd/krypto431/messages.go","cmd/krypto431/keys.go","cmd/krypto431/initialize.go"],
  [("order of Save and printing","cmd/krypto431/messages.go")],
  ["standard output and the store on disk of the killed or failing program"])

p("C22","Changing the store key re-encrypts it; only the new key opens it",
  "Changing the persistence key or password of a store (to a password, with another salt, to a given key or to a random key) leaves keys, messages and settings unchanged, after which exactly the new key opens the store and the old one does not; the random key printed is the one that opens it. Keys are derived deterministically from password and salt (PBKDF2-SHA256, 310000 iterations), different passwords or salts give different keys, and malformed keys, salts or conflicting options are refused with the store untouched.",
  ["inputs","configurations","fault_sequences"],"every way to supply old and new key, password and salt, valid and malformed",
  "There are no tests for persistence keys.",
  ["persistence.go","cmd/krypto431/pfk.go","cmd/krypto431/functions.go","krypto431.go"],
  [("DerivePFKFromPassword, SetPFKFromString, SetSaltFromString, With*","persistence.go, krypto431.go"),("managePFK","cmd/krypto431/pfk.go")],
  ["which keys open the file afterwards and its content; derived key bytes"])

p("C23","The random source is safe for concurrent use and reports failure",
  "Concurrent use of the random functions never reads the underlying cryptographic source from two goroutines at once and never hands the same source bytes to two callers; every value returned is made from bytes actually read from the source, filling the whole buffer. A failing source is reported (error or panic), never silently replaced by predictable values, and integers drawn for a range are within the range and unbiased.",
  ["schedules","inputs","fault_sequences"],"every interleaving of concurrent callers, every request size, every failure position of the source",
  "Tests check distribution statistics single-threaded with a working source.",
  ["crand/crand.go"],
  [("mutex around cryptoRand.Reader","crand/crand.go")],
  ["a recording random source underneath: overlap, order and use of bytes"])

p("C24","No pad key enciphers two messages anywhere in a network of stations",
  "Among stations that share keys by export and import, no key is used to encipher two different messages, over any history of sending, delivering traffic (possibly late or in another order), importing, saving and reloading. In particular a station that has received and deciphered traffic never enciphers with the keys of that traffic, and importing a key that is in the store, without asking to overwrite it, never changes its used mark or makes it usable again.",
  ["histories","schedules"],"every interleaving of sends, deliveries, imports and reloads between stations sharing keys",
  "Tests know only one station and one message.",
  ["cipher.go","messages.go","persistence.go"],
  [("marking received keys used","cipher.go Decipher"),("copying Used on import","persistence.go ImportKeys")],
  ["key chains of all cipher texts released in the network"])

p("C25","Listings show each selected key and message truthfully",
  "A listing of keys or messages has one line for every selected item and no other. Below the names of the columns (id, keepers, created, expires, used, compromised and comment; id, DTG, to, from and digest) every line has the item's own values, complete and separated from each other whatever their lengths, with the marks for no keepers, recipients or sender where there are none; the digest is the text (or else the cipher text) of the message without line breaks, or its beginning followed by an ellipsis. The numbers of keys and messages shown with it are those of the store. Deleting by lines of a listing deletes exactly the items of those lines.",
  ["inputs","configurations"],"any number of keepers and recipients, lengths of ids, call-signs, comments and texts, group sizes, and any selection",
  "There are no tests of listings; what is read from them decides which keys are used, handed out or deleted.",
  ["keys.go","messages.go","functions.go","cmd/krypto431/keys.go","cmd/krypto431/messages.go"],
  [("SummaryOfKeys/DeleteKeysBySummaryString","keys.go"),("SummaryOfMessages/DeleteMessagesBySummaryString","messages.go"),("predictColumnSizesOfKeys/predictColumnSizesOfMessages","functions.go")],
  ["lines of listings; stores after deleting"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
