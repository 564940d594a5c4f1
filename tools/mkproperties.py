import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
                 "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})

prop("C01","TDES keys: terminal and host derive the same key for every KSN",
"For every 16-byte TDES base derivative key and every KSN of 1 to 10 bytes (shorter ones count as left-padded with FF), the derived initial key is the one ANSI X9.24-1 defines, and depends on nothing of the KSN's low 21 counter bits. For every initial key and every KSN, whatever its counter, the derived transaction key is the X9.24-1 one: exactly the key that a terminal loaded with that initial key holds when it has advanced to that KSN.",
["inputs","histories"],"every key, every KSN (all 2^21 counter values and all device ids), and every sequence of transactions a terminal runs through",
"The tests compare a handful of published vectors with counters 1..17 or so; a wrong bit mask, step order or boundary shows only for particular counter bits or device ids.",
["pkg/des/des.go","pkg/des/des_internal.go","encryption/des_ecb.go","pkg/util.go"],
[("DerivationOfInitialKey / DeriveCurrentTransactionKey and the non-reversible key generation","pkg/des")],
[("KSN register","device id and 21-bit transaction counter","KSN argument")],["des.DerivationOfInitialKey","des.DeriveCurrentTransactionKey"])

prop("C02","AES keys: terminal and host derive the same key for every KSN",
"For every AES-128, AES-192 and AES-256 base derivative key and every KSN of at least 8 bytes, the derived initial key is the ANSI X9.24-3 one for the KSN's first 8 bytes and has the length of the base key. For every initial key of these sizes and every 12-byte KSN, whatever its counter, the derived transaction key is the X9.24-3 one, has the same length, and is the key a terminal loaded with that initial key holds when it has advanced to that KSN.",
["inputs","histories"],"every key of the three sizes, every 12-byte KSN (all 32 counter bits), every sequence of terminal transactions",
"The tests use published vectors for a few small counters and no AES-192 derivation below the initial key; anything that depends on high counter bits, two-block derivations or device ids stays unseen.",
["pkg/aes/aes.go","pkg/aes/aes_internal.go","encryption/aes_ecb.go","pkg/util.go"],
[("createDerivationData / deriveKey / DeriveCurrentTransactionKey","pkg/aes")],
[("derivation data","usage, algorithm, length, initial key id or derivation id and counter","pkg/aes")],["aes.DerivationOfInitialKey","aes.DeriveCurrentTransactionKey"])

prop("C03","TDES KSNs: the next KSN is the next usable one, each once, then exhaustion",
"For a TDES KSN of 4 to 10 bytes, generating the next KSN yields the same KSN with its 21-bit counter advanced to the smallest larger value that has at most ten one bits, and changes no other bit. From any counter at or above the last usable one (1FF800) it yields an error and no KSN. So repeated generation visits every usable counter exactly once, in ascending order, and then stops.",
["inputs","histories"],"every KSN (all 2^21 counters, all lengths and device ids) and every chain of generations",
"The tests advance a couple of KSNs by one step; skipping, repeating or wrapping happens at particular bit patterns and at the end of the one million KSNs of a key.",
["pkg/util.go"],[("GenerateNextDesKsn","pkg/util.go")],
[("transaction counter","low 21 bits of the KSN","KSN argument")],["pkg.GenerateNextDesKsn"])

prop("C04","AES KSNs: the next KSN is the next usable one, each once; validity",
"For a 12-byte AES KSN, generating the next KSN yields the same KSN with its 32-bit counter advanced to the smallest larger value that has at most sixteen one bits, and changes no other bit; from any counter at or above the last usable one (FFFF0000) it yields an error. A KSN is reported valid exactly when it is longer than 4 bytes and its last 32 bits are not zero and have at most sixteen one bits.",
["inputs","histories"],"every 12-byte KSN (all 2^32 counters) and every chain of generations; every byte string for validity",
"The tests advance a few KSNs by a step; the end of the counter range and dense bit patterns are not reached.",
["pkg/util.go"],[("GenerateNextAesKsn, IsValidAesKsn","pkg/util.go")],
[("transaction counter","last 32 bits of the KSN","KSN argument")],["pkg.GenerateNextAesKsn","pkg.IsValidAesKsn"])

prop("C05","TDES PIN blocks: encrypted in the named format, and they come back",
"Encrypting a PIN under a TDES transaction key yields the 8-byte TDES encryption, under that key's X9.24-1 PIN variant, of a clear PIN block in the named format (ISO-0, ISO-1, ISO-2, ISO-3, ANSI, ECI1-4, VISA1-4, in any letter case) for that PIN and account number; other formats, ISO-4 among them, PINs shorter than 4 or (where the format has no room) longer than 12 digits, and, for formats that use it, account numbers of fewer than 13 digits are refused. Decrypting with the same key, format and account number gives back the digits the format carries: all of them, except that ECI2 carries the first 4, ECI3 and VISA2 at most the first 6, and ISO-1, ISO-2, ECI4 and VISA3 at most the first 12. Decrypting any other 8-byte block gives the PIN its clear block encodes in that format, or an error, never a crash.",
["inputs"],"every key, PIN, account number, format name and cipher block",
"The tests encrypt one PIN and one account number per format; PIN lengths, digit values, fill digits, and blocks of unexpected shape are sampled once or never.",
["pkg/des/des.go","pkg/des/des_internal.go"],[("EncryptPin / DecryptPin, the PIN variant, the choice of formatter","pkg/des")],(),["des.EncryptPin","des.DecryptPin"])

prop("C06","AES PIN blocks: ISO-4 under the PIN working key, and they come back",
"Encrypting a PIN under an AES transaction key and KSN yields the 16-byte ISO 9564 format 4 PIN block for that PIN (4 to 12 digits) and account number (12 to 19 digits), enciphered under the X9.24-3 PIN encryption working key for that KSN and the named AES key type; decrypting it with the same arguments gives the PIN back. PINs or account numbers of other lengths or with characters that are no digits (hexadecimal ones are tolerated), key types that are no AES key type or do not fit the key's length, and KSNs that are not 12 bytes long are refused.",
["inputs"],"every key of the three sizes, KSN, PIN, account number and key type",
"The tests encrypt one PIN per key size for one KSN.",
["pkg/aes/aes.go","pkg/aes/aes_internal.go"],[("EncryptPin / DecryptPin, working key derivation","pkg/aes")],(),["aes.EncryptPin","aes.DecryptPin"])

prop("C07","TDES MAC: the retail MAC under the direction's MAC variant, for any text",
"For every 16-byte transaction key and every text of any length and content, the TDES MAC is the 8-byte ISO 16609 (ANSI X9.19) CBC MAC of the text padded with zero bytes to whole 8-byte blocks, under the key's X9.24-1 MAC variant: the response variant when the action is exactly \"response\", the request variant for any other action.",
["inputs"],"every key, text and action",
"The tests MAC one text per direction; block boundaries, empty and long texts, and bytes outside ASCII are not reached.",
["pkg/des/des.go","pkg/des/des_internal.go"],[("GenerateMac, MAC variants","pkg/des")],(),["des.GenerateMac"])

prop("C08","AES MACs: CMAC and HMAC under the direction's working key, for any text",
"For every transaction key of 16, 24 or 32 bytes, 12-byte KSN and text, the CMAC is AES-CMAC (SP 800-38B) of the text under the X9.24-3 message authentication working key for the key's AES type, and the HMAC is HMAC-SHA256 of the text under the working key for the key's HMAC type and length: the verification key when the action is exactly \"response\", the generation key for any other. A key type that is not one of the operation's own kind (AES types for CMAC, HMAC types for HMAC) or does not fit the key's length is refused.",
["inputs"],"every key of the three sizes, KSN, text, key type and action",
"The tests use one text and one KSN per type; subkey doubling, padding, block boundaries, 192-bit keys and the direction of other actions are sampled or missed.",
["pkg/aes/aes.go","pkg/aes/aes_internal.go"],[("GenerateCMAC / GenerateHMAC, working key derivation","pkg/aes")],(),["aes.GenerateCMAC","aes.GenerateHMAC"])

prop("C09","TDES data: CBC under the direction's data key, and it comes back",
"For every 16-byte transaction key, text, initial vector and action, TDES data encryption is two-key TDES CBC of the text padded with zero bytes to whole 8-byte blocks, under the key's X9.24-1 data encryption key (the response one when the action is exactly \"response\", the request one otherwise); a missing or short initial vector is padded with zero bytes, a longer one truncated. Decryption with the same key, vector and action inverts it: it returns the zero-padded text, for any text; a cipher text that is not a whole number of blocks is itself zero-padded first.",
["inputs"],"every key, text, vector and action",
"The tests encrypt one text with a zero vector per direction; other lengths, vectors and contents are not reached.",
["pkg/des/des.go","pkg/des/des_internal.go"],[("EncryptData / DecryptData, data variants","pkg/des")],(),["des.EncryptData","des.DecryptData"])

prop("C10","AES data: CBC under the direction's working key, and it comes back",
"For every transaction key of 16, 24 or 32 bytes with its AES key type, 12-byte KSN, text, initial vector and action, AES data encryption is AES CBC of the text padded with zero bytes to whole 16-byte blocks, under the X9.24-3 data encryption working key for that KSN (the data decryption one when the action is exactly \"response\"); a missing or short initial vector is padded with zero bytes, a longer one truncated. Decryption with the same arguments returns the zero-padded text; a cipher text that is not a whole number of blocks is itself zero-padded first; key types that are not AES types or do not fit the key's length are refused.",
["inputs"],"every key of the three sizes, KSN, text, vector, key type and action",
"The tests encrypt one text per key size with a zero vector.",
["pkg/aes/aes.go","pkg/aes/aes_internal.go"],[("EncryptData / DecryptData, working key derivation","pkg/aes")],(),["aes.EncryptData","aes.DecryptData"])

prop("C11","Library calls leave the caller's memory alone",
"No library call ever writes to a byte slice it is given, nor to the spare capacity behind it or anything around it, not even for a moment; and no slice it returns shares memory with its arguments or with an earlier result. Calling again with the same arguments gives the same answer (except for random PIN fill), whatever the caller does to earlier results.",
["inputs","histories"],"every call of the library, with any arguments, and what the caller does with the results afterwards",
"The tests look at results only; none keeps an argument and looks at it again, or gives slices with spare capacity.",
["pkg/util.go","pkg/des","pkg/aes","encryption"],[("copies made of KSNs, keys, vectors","pkg/util.go, pkg/aes/aes.go, pkg/des/des.go")],(),["every exported function of pkg, pkg/des, pkg/aes, encryption"])

prop("C12","Malformed input is refused with an error, never a crash or a made-up answer",
"For every library operation and arguments of any length and content, nil and empty ones included, the call returns: either the answer the other properties define, or an error. A base, initial or transaction key of the wrong length, a TDES KSN that is empty or longer than 10 bytes, an AES KSN that is shorter than 8 bytes (initial key) or not 12 bytes (everything else), a PIN cipher block of the wrong length, and an unknown key type or PIN format are always refused with an error.",
["inputs"],"every operation with every combination of argument lengths, key types and formats",
"The tests try a few wrong lengths; a panic or a silently accepted argument shows only at a particular length or combination.",
["pkg/util.go","pkg/des","pkg/aes","encryption"],[("length checks at the head of each operation","pkg/des, pkg/aes, pkg/util.go, encryption")],(),["every exported function of pkg, pkg/des, pkg/aes, encryption"])

prop("C13","A machine's transaction key always belongs to its current KSN",
"At every point of every history of service calls, each machine the service reports has the initial key of its base derivative key and first KSN, and the transaction key that its initial key derives for exactly the current KSN reported with it. Advancing a machine reports the successor KSN of the one before (never the same one twice in its life) with its key; when there is no successor, or the machine's KSN cannot have one, it fails and leaves the machine as it was.",
["histories","inputs"],"every sequence of create, advance, get, list and delete on any number of TDES and AES machines, up to and past the exhaustion of KSNs",
"The tests create one machine and advance it once; nothing follows a machine through a history or to the end of its KSNs.",
["pkg/server/service.go","pkg/server/machine.go","pkg/server/wrapper.go"],
[("CreateMachine, MakeNextKSN","pkg/server/service.go")],
[("CurrentKSN, TransactionKey","the KSN of the machine's current transaction and its key","server.Machine")],["Service.CreateMachine","Service.MakeNextKSN","Service.GetMachine","Service.GetMachines"])

prop("C14","The machine registry: unique initial keys, exact lookup, no side effects",
"A machine that was created is found under its initial key (lower-case hexadecimal, compared exactly) and listed exactly once, with the base key it was created from, until it is deleted, and then no more; it can be created again afterwards and starts afresh. Creating a machine whose initial key is already registered fails as \"already exists\", looking up or advancing one that is not registered fails as \"not found\", other failures are neither, deleting one that is not there succeeds; a call that fails, and any call on another machine, changes nothing.",
["histories","inputs"],"every sequence of service calls over any number of machines",
"The tests create one or two machines and look them up; sequences with duplicates, deletes, re-creation and failures in between are not explored.",
["pkg/server/service.go","pkg/server/repository.go"],
[("StoreMachine, FindMachine, FindAllMachines, DeleteMachine","pkg/server/repository.go"),("CreateMachine, GetMachine, GetMachines, DeleteMachine","pkg/server/service.go")],
[("machines","initial key -> machine","pkg/server/repository.go")],["Service.CreateMachine","Service.GetMachine","Service.GetMachines","Service.DeleteMachine"])

prop("C15","Service operations use the machine's current key, and change nothing",
"Encrypting or decrypting a PIN or data and generating a MAC through the service answers exactly what the library operation for the machine's algorithm and key type answers with the machine's current transaction key and KSN (hexadecimal in lower case; decrypted text as it is), before and after every advance: the PIN format defaults to ISO-0, a HMAC uses the HMAC type of the machine's key size, AES machines accept the MAC types \"cmac\" and \"hmac\" only and TDES machines ignore it. Where the library refuses, the service returns an error; an unknown machine is \"not found\"; none of these operations changes any machine.",
["histories","inputs"],"every history of service calls and every argument",
"The tests call each operation once on one machine per algorithm with its first key.",
["pkg/server/service.go","pkg/server/wrapper.go"],
[("EncryptPin, DecryptPin, GenerateMac, EncryptData, DecryptData","pkg/server/service.go and wrapper.go")],(),["Service.*"])

prop("C16","Concurrent clients: the service is linearizable and no KSN is handed out twice",
"Whatever calls any number of goroutines make on one service at the same time, every call's answer is one it could have given had the calls happened one at a time in some order that respects which call returned before another began. In particular no two advances of a machine ever report the same KSN, no advance is lost, a reported KSN and transaction key always belong together, of several concurrent creations of the same machine exactly one succeeds, and no call crashes or waits forever.",
["schedules","histories"],"every interleaving of any set of concurrent service calls",
"The tests call the service from one goroutine only.",
["pkg/server/service.go","pkg/server/repository.go"],
[("service and repository locks","pkg/server/service.go, repository.go")],
[("stored machines","shared by all requests","pkg/server/repository.go")],["Service.*","HTTP handlers"])

prop("C17","Machines handed out are the caller's own; later calls and callers do not show",
"A machine that the service hands out or takes in is a snapshot: what it shows does not change when the service later advances or deletes the machine, and overwriting it (or a list of machines) changes nothing in the service or in machines handed to others. A failed creation leaves the caller's machine as it was; a successful one fills in its initial key, current KSN and transaction key.",
["histories"],"every history of service calls mixed with reads and writes of any machine handed out earlier",
"The tests never keep a machine across a later call.",
["pkg/server/service.go"],[("copies made in CreateMachine, GetMachine, GetMachines, MakeNextKSN","pkg/server/service.go")],
[("stored machines","never shared with callers","pkg/server/repository.go")],["Service.CreateMachine","Service.GetMachine","Service.GetMachines","Service.MakeNextKSN"])

prop("C18","HTTP: every endpoint does its service operation and answers its result",
"A well-formed HTTP request that its service operation accepts is answered with status 200 and JSON that carries the operation's result under the endpoint's field, and has exactly that operation's effect: GET /machines (machines), GET /machine/{ik} (machine), POST /machine (ik, machine), POST /generate_ksn/{ik} (ksn), POST /encrypt_pin/{ik} and /encrypt_data/{ik} (encrypted), /decrypt_pin/{ik} (decrypted), /decrypt_data/{ik} (data), /generate_mac/{ik} (generated), with a null error and the content type application/json. What one request encrypts, the matching decrypt request turns back for the same machine and KSN; requests with fields missing count them as empty.",
["histories","inputs"],"every sequence of requests with every well-formed body",
"The tests post one request per endpoint and look at few of the fields; two endpoints did the wrong operation unnoticed.",
["pkg/server/handlers.go","pkg/server/routing.go"],[("endpoints and decoders","pkg/server/handlers.go"),("routes, encodeResponse","pkg/server/routing.go")],(),["HTTP responses of server.MakeHTTPHandler"])

prop("C19","HTTP: every failure is reported as one, and changes nothing",
"A request that fails is answered with an error status and a JSON body whose \"error\" is a non-empty text and which carries no result: 404 when the machine is unknown, 400 when the machine to create already exists, and a 4xx or 5xx status other than 404 for every other refusal and for a body that is not the JSON object expected (malformed, empty, or with fields of the wrong type). No such request changes any machine or ends the server, and no failure is ever answered with status 200.",
["histories","inputs"],"every failing request in every state of the service",
"The tests check few failures, and took status 200 with an empty error object for one.",
["pkg/server/handlers.go","pkg/server/routing.go"],[("encodeError, codeFrom, encodeResponse","pkg/server/routing.go"),("bindJSON","pkg/server/handlers.go")],(),["HTTP responses of server.MakeHTTPHandler"])

prop("C20","CLI: flags select the operation, its library answer is printed, failures exit",
"Each invocation of the command line tool carries out the one operation its flags select (-ik, -tk, -ep, -dp, -gm, -en, -de; the first of these in that order, if several) with the algorithm, key type and parameters given, prints \"RESULT: \" and exactly what the library operation answers, and exits with 0. It exits with 1 and no result when a parameter the operation needs is missing or its action or MAC type is invalid, or no operation is selected, and with 2 and no result when the algorithm is unknown or the operation refuses its arguments (1 or 2 when both apply); key types are accepted in any letter case and a HMAC uses the HMAC type of the key type.",
["inputs","configurations"],"every combination of flags and values",
"No test runs the tool.",
["cmd/dukptcli/main.go","pkg/server/wrapper.go"],[("main, makeFuncCall","cmd/dukptcli/main.go")],(),["exit code and standard output of dukptcli"])

prop("C21","ECB primitives: exactly DES, TDES and AES on one block",
"The exported block cipher helpers encrypt and decrypt one block exactly as DES (8-byte keys), two- and three-key TDES in E-D-E (16- and 24-byte keys) and AES (16-, 24- and 32-byte keys) are defined, decryption inverting encryption. Keys and blocks of any other length are refused with an error.",
["inputs"],"every key and block",
"The tests encrypt one block per cipher.",
["encryption/des_ecb.go","encryption/aes_ecb.go"],[("NewDesECB, NewTripleDesECB, NewAesECB, Encrypt, Decrypt","encryption")],(),["encryption.DesECB","encryption.AesECB"])

prop("C22","Hexadecimal texts and transaction counters are read exactly",
"Encoding bytes gives their lower-case hexadecimal text and decoding accepts either letter case and inverts it; a text that is not hexadecimal or has an odd number of digits decodes to no bytes. The transaction counter read from a KSN is the number in its last 21 bits (TDES, KSNs longer than 3 bytes) or last 32 bits (AES, longer than 4 bytes), whatever the bits before, and 0 for shorter ones.",
["inputs"],"every byte string and every text",
"The tests decode a few well-formed texts.",
["pkg/util.go"],[("HexDecode, HexEncode, GetDesTcFromKsn, GetAesTcFromKsn","pkg/util.go")],(),["pkg.HexDecode","pkg.HexEncode","pkg.GetDesTcFromKsn","pkg.GetAesTcFromKsn"])

prop("C23","Library calls are independent: no call sees another, in sequence or in parallel",
"Every library call answers by its arguments alone. Any number of calls made at the same time from any goroutines, on the same or different arguments, sharing argument slices or not, answer exactly what each would have answered alone; and no earlier call, successful or failed, has any influence on a later one.",
["schedules","histories","inputs"],"every set of concurrent calls, every interleaving, every preceding sequence of calls",
"The tests make one call at a time and mostly one per process; shared buffers, caches and in-place work show only when different calls overlap or follow each other.",
["pkg/util.go","pkg/des","pkg/aes","encryption"],[("no package-level mutable state; values owned by each call","pkg, pkg/des, pkg/aes, encryption")],(),["every exported function of pkg, pkg/des, pkg/aes, encryption"])

prop("C24","The HTTP front: routes, ping, and cross-origin headers",
"The server answers GET /ping with 200 and the text PONG, any OPTIONS request with 200 and an empty body, a path it does not offer, or a path with a method it does not offer there, with 404 or 405 (a path that is not in its shortest form may instead be redirected to that form), none of which changes any machine. Responses to preflight, ping and every request whose body could be read carry Access-Control-Allow-Origin equal to the request's Origin (with Allow-Methods, Allow-Headers and Allow-Credentials) exactly when that origin starts with http://localhost: or https://, and no such header otherwise. A started server process serves all this on the address it was given and keeps its machines from one request to the next until it ends.",
["inputs","histories"],"every method, path, origin and sequence of requests",
"The tests try one origin and the ping.",
["pkg/server/routing.go","cmd/server/main.go"],[("MakeHTTPHandler, preflightHandler, respondWithSavedCORSHeaders","pkg/server/routing.go"),("main","cmd/server/main.go")],(),["HTTP responses of the server process"])

prop("C25","Unified operations: named algorithm, hexadecimal in, the library's answer out",
"Each unified operation of the server package (InitialKey, TransactionKey, EncryptPin, DecryptPin, GenerateMac, EncryptData, DecryptData), given the algorithm by name (\"aes\"; any other name acts as TDES) and its binary values as hexadecimal texts, answers exactly what the library operation of that algorithm answers on the decoded values, in lower-case hexadecimal (PINs and decrypted text as they are), or an error exactly when that operation errors. A text that is not hexadecimal counts as empty; under AES a MAC type other than cmac and hmac is refused; under TDES the MAC type and the key type have no influence. An algorithm name is valid exactly when it is \"des\" or \"aes\".",
["inputs"],"every algorithm name, key type, key, KSN, PIN, text and option, given as texts",
"The tests call each operation on one key per algorithm; arguments that are passed on in the wrong place, dropped, or replaced by a default show only for other values.",
["pkg/server/wrapper.go","pkg/server/errors.go"],[("encrypt/decrypt/MAC/key operations by WrapperCall parameters","pkg/server/wrapper.go")],(),["server.InitialKey","server.TransactionKey","server.EncryptPin","server.DecryptPin","server.GenerateMac","server.EncryptData","server.DecryptData"])

prop("C26","The machine store is an exact map, and the service works on what its store holds",
"A machine stored in the in-memory store under an initial key is found under exactly that text and listed exactly once, until it is deleted; storing under an initial key that is taken fails as \"already exists\" and leaves what is there, finding one that is not there fails as \"not found\", deleting one that is not there succeeds, and storing no machine fails; none of these has any other effect. A service over a store that holds machines already answers as if it had created them: what it looks up, lists, advances and computes with is what the store holds. Any number of these calls at the same time are linearizable.",
["histories","inputs","schedules"],"every sequence, and every interleaving, of store calls, alone and together with a service over the same store",
"The tests store and find one machine in an empty store, from one goroutine.",
["pkg/server/repository.go","pkg/server/service.go"],[("StoreMachine, FindMachine, FindAllMachines, DeleteMachine","pkg/server/repository.go")],
[("machines","initial key -> machine","pkg/server/repository.go")],["server.Repository"])

prop("C27","A store that fails: the failure is reported, and nothing changes",
"When the store behind a service refuses to store, find or delete a machine, the service call that needed it answers with an error (a creation with the store's own, so that \"already exists\" stays that), reports no result, and no machine changes; calls that do not need the failing operation are unaffected, and once the store works again the service goes on from where it was. A creation that fails this way leaves the caller's machine as it was.",
["histories","crash_points"],"every history of service calls with a store failure at any of its calls",
"The in-memory store of the tests never fails.",
["pkg/server/service.go"],[("error returns of the store calls","pkg/server/service.go")],
[("machines","behind the Repository interface","pkg/server/repository.go")],["Service.*"])
prop("C28","The server process: where it serves, what it logs, and how it ends",
"The server process serves plain HTTP, or HTTPS (TLS 1.2 or newer) exactly when both HTTPS_CERT_FILE and HTTPS_KEY_FILE are given, at the address of its flag or, when given, of HTTP_BIND_ADDRESS, and its version at /version of the administration address (flag, or HTTP_ADMIN_BIND_ADDRESS); when it cannot listen at one of them or load the certificate it ends by itself, without crashing and serving nothing. Told to end by SIGTERM or SIGINT it takes no new connections, still answers every request already begun (however many signals follow), is not held up by idle connections, and then ends with status 0. Its log is JSON exactly when LOG_FORMAT, or else the flag, says json, names the version, and never contains keys, PINs, account numbers or data of requests.",
["configurations","histories","schedules"],"every configuration, and every order of requests, connections and signals in a process's life",
"No test starts the process.",
["cmd/server/main.go"],[("main","cmd/server/main.go")],
[("listeners, errs channel","addresses served; the first reason to end","cmd/server/main.go")],["the server's command line, environment, listeners, log and exit status"])

prop("C29","Random PIN fill is drawn anew for every encryption",
"In the PIN formats with a random fill - ISO-1 and ECI4 (the digits behind the PIN, 0 to 9), ISO-3 (A to F), ECI2 and ECI3 (any hexadecimal digit) and VISA2 (0 to 9) behind the PIN field, VISA3 (one letter A to F, repeated), ISO-4 of AES (8 bytes) - every PIN encryption draws its fill anew and at random, whether through the library, the unified operations, the service, HTTP or the command line. The fill depends on nothing, not on the arguments, nor on calls before or at the same time, nor on other processes: over many encryptions of one PIN, or of several, every fill digit takes all its values, about equally often, none tells another or the next, and fills with room enough do not come again. In the formats with a fixed fill equal arguments give equal blocks.",
["histories","schedules","inputs"],"every sequence of PIN encryptions, in one process or several, one after the other or at the same time",
"The tests encrypt each PIN once and look at what decryption gives back, which is the same whatever the fill is.",
["pkg/des/des.go","pkg/aes/aes.go","pkg/server/wrapper.go","pkg/server/service.go"],[("EncryptPin","pkg/des/des.go"),("EncryptPin","pkg/aes/aes.go"),("EncryptPin","pkg/server/wrapper.go")],(),["the PIN blocks of every layer"])
prop("C30","Stalled clients are cut off, slow ones served, others not held up",
"A connection to the server on which a whole request (or a TLS handshake) has not come in about 30 seconds after it began, or whose answers nobody takes for about 30 seconds, is closed, not before, and the request has no effect and is not answered with success; one that is idle between requests stays usable for about 60 seconds and is then closed. A request that comes in slowly but in time is answered like one sent at once. However many connections stall, other clients are answered meanwhile, and a server told to end does end, at the latest when the stalled ones are cut off, and still answers a request whose body was coming in and comes in time.",
["schedules","histories","configurations"],"every course of a connection in time: what of a request comes when, and when answers are taken; any number of them at once, under HTTP and HTTPS, and a signal at any time",
"No test starts the process, and none waits.",
["cmd/server/main.go","pkg/server/http.go"],[("http.Server: ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout","cmd/server/main.go"),("shutdownServer","cmd/server/main.go")],
[("connections","what came in and went out on each, and when","cmd/server/main.go")],["the server's connections"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P), max(len(p['title']) for p in P))
