TECH = "TLA+ specification checked with TLC; TLC validates traces of the real code replaying TLC-generated behaviours"

P_("C09", "A BTP message-range proof verifies exactly for the messages of its block",
   "For every list of messages and every contiguous range in it, the proof built for the range carries exactly those messages in order and, when verified, yields the block's message root, the number of messages before the range and the total number of messages. No other set of nodes and contents, with whatever claimed counts, verifies to the same root and total while presenting something that is not a message of the block at the claimed position. Ranges outside the list are refused with an error.",
   ["inputs", "programs"],
   "every number of leaves, every way of growing the tree (at once or by adding), every range, every presentation of a cut of the tree with forged leaf counts, both network types",
   "The existing tests build trees of a few fixed sizes and check honest proofs only; shapes that appear at particular sizes and dishonest proofs are outside of them.",
   ["common/mbt/tree.go", "common/mbt/proof.go", "common/mbt/path.go"],
   [("MerkleBinaryTree.Add / Proof", "common/mbt/tree.go"), ("MerkleBinaryTreeProof verification", "common/mbt/tree.go")],
   technique=TECH,
   note="Design: completeness and soundness on the term model of the tree, exhaustive for all ranges of trees up to 24 (40) leaves and all forgeries of trees up to 7 (9) leaves. Binding: every range of every tree up to 24 (48) leaves and every generated forgery is run through the real code and the result validated by TLC. Trusts the hash function to be collision free.")

P_("C10", "Accumulator witnesses prove exactly the leaves of the accumulator",
   "For every accumulator of any length and every leaf in it, the witness given for the leaf (for the present length or for any earlier one) verifies against that accumulator and against every later or earlier accumulator of the same history that contains the leaf. Nothing that is not a leaf of the accumulator verifies, whatever witness and length are presented with it. Asking for a leaf that is not there, or verifying garbage, gives an error and never a crash.",
   ["inputs", "histories"],
   "all accumulator lengths, all leaf positions, all pairs (length of the prover, length of the verifier), all single-element corruptions, truncations, extensions of witnesses and all substituted hashes",
   "The tests check a few fixed lengths; the carry structure gives each length its own shape, and cross-length verification has a case per pair of lengths.",
   ["common/mta/accumulator.go", "common/mta/extaccumulator.go"],
   [("WitnessForWithAccLength", "common/mta/accumulator.go"), ("VerifyWithAccLength", "common/mta/accumulator.go"), ("WitnessForAt / VerifyAt", "common/mta/extaccumulator.go")],
   technique=TECH,
   note="Design: Complete, Newer and Sound hold for all pairs of lengths up to 16 (40), attacks up to 6 (9) leaves. Binding: the real accumulator answers every (length, leaf, earlier length) up to the bound and every generated attack; TLC validates each answer against the closed form. Trusts the hash.")

P_("C11", "A recovered accumulator is the last completely flushed one",
   "After any history of additions, flushes, failed flushes and crashes in the middle of a flush, recovering gives an accumulator equal to the one of the last flush that completed (empty if there was none), with all its witnesses and data readable. A flush that could not write reports the error and leaves the accumulator in memory unchanged and flushable again.",
   ["histories", "crash_points", "fault_sequences"],
   "all histories of add/flush/recover with a write failure or crash at any write of any flush",
   "The tests flush and recover once on an in-memory store which never fails.",
   ["common/mta/accumulator.go", "common/mta/extaccumulator.go"],
   [("Flush writes nodes before the state record", "common/mta/accumulator.go"), ("Recover", "common/mta/accumulator.go")],
   technique="TLA+ specification with crash and write-failure actions checked with TLC; TLC validates fault-injected traces of the real code",
   note="Design: the flush is modelled write by write; every crash point keeps the durable state closed. Binding: histories generated by TLC run on the real accumulator over a bucket that fails or stops persisting at the k-th write; all witnesses are observed after each step.")

P_("C12", "A bucket of every database backend behaves as a durable map",
   "For each database backend, a bucket is a map: get returns the last value set under the key in that bucket (also the empty value), has tells whether there is one, delete removes it, and buckets with different identifiers never interfere. The content survives closing and reopening the database, and bytes given to or received from a bucket are not affected by later changes of the caller's buffers.",
   ["histories", "configurations"],
   "all histories of set/delete/get/has/reopen on several buckets including the empty and prefix-related identifiers, on map, goleveldb and badger backends",
   "The tests set and get one or two keys per backend.",
   ["common/db/database.go", "common/db/map_db.go", "common/db/go_level_db.go", "common/db/badger_db.go", "common/db/bucket.go"],
   [("internalKey prefixing", "common/db/bucket.go"), ("backend Get/Has/Set/Delete", "common/db/go_level_db.go")],
   technique=TECH,
   note="Keys of equal length, as all users of the package use (hashes or fixed keys): with keys of arbitrary length the concatenation of bucket identifier and key is ambiguous by design. Histories of 30 operations generated by TLC, every bucket and key observed after each step.")

P_("C13", "A database layer isolates its writes until flushed, and never loses them",
   "Reads through a layer see the layer's own writes and deletions over the content below; nothing written to a layer is visible below before it is flushed. Flushing with write makes the content below equal to the view through the layer, discarding drops the layer's writes, and from then on the layer is transparent. If writing fails half-way the failure is reported and the view through the layer is unchanged, so the flush can be repeated.",
   ["histories", "fault_sequences"],
   "all histories of writes at any level of a stack of layers, flushes, discards and flushes failing at any write, with buckets obtained before or after each step",
   "The tests make one layer over a map database and flush it once.",
   ["common/db/layer_db.go"],
   [("layerBucket and Flush", "common/db/layer_db.go")],
   technique="TLA+ specification with failing flushes checked with TLC; TLC validates fault-injected traces of the real code",
   note="Design: ViewStable for two layers, exhaustive to depth 6. Binding: TLC-generated histories of 30 steps over two stacked layers on the map and goleveldb backends, all levels observed after every step.")

P_("C01", "A Link relays every block and message once, in order, without gaps",
   "Starting from the status of the destination, the relay messages a Link hands to its sender form, one after the other, a gapless walk along the source chain: each block update follows the block before it and only once the messages of that block are all proven; each message proof starts at the message after the last one proven and stays inside one block; nothing is empty, repeated or skipped. Whenever the Link comes to rest, everything its receiver announced is relayed, and when all transactions are executed the destination holds every block and message, also with other relayers, restarts and transactions executed in any order.",
   ["histories", "schedules", "configurations"],
   "all source chains, starting points, size limits, batch settings, BTP 2.0 and bridge style sources, all interleavings of announcements, results, status notifications, other relayers' deliveries and restarts",
   "The package has no tests; the behaviour depends on how announcements, results and statuses interleave and on how message sizes fall around the limit.",
   ["common/link/link.go", "common/link/type.go"],
   [("buildRelayMessage / buildProof", "common/link/link.go"), ("clearing of relayed items and blocks on a status", "common/link/link.go")],
   technique=TECH,
   note="Design: LinkDesign with source, Link, in-flight transactions, destination, other relayers and restarts; Forward, Chain and Delivered (liveness) exhaustive for small chains. Binding: thousands of TLC-generated environments run on the real Link with fake receiver and sender under testing/synctest (deterministic quiescence); TLC validates each trace.")

P_("C02", "A relay message never exceeds the size limit of the destination",
   "For every size limit, margin and mix of item sizes, the size of each relay message handed to the sender, as the sum of its items, is at most the sender's transaction size limit minus its margin, unless the message consists of one single item which alone is bigger.",
   ["inputs", "histories"],
   "all limits, margins, item sizes and histories",
   "No test exercises the packing; only particular combinations of sizes reach the limit.",
   ["common/link/link.go"],
   [("limitSize", "common/link/link.go"), ("addRelayMessageItem", "common/link/link.go")],
   technique=TECH,
   note="Same generated environments as C01; TLC judges the sum of the item sizes of every relay message.")

P_("C03", "A Link recovers from rejections and reports every failure",
   "When the destination rejects a relay message because it cannot be verified yet or its witness is too old, the Link asks for the destination's status and relays again from there, and everything is delivered in the end; a rejection as already verified is harmless; any other rejection, and any failure of the receiver, the sender, or closing of their channels, ends the Link with an error (never silently, never by hanging) and no more messages are sent on the old position before the status is known.",
   ["histories", "fault_sequences", "schedules"],
   "all result codes at all points of a run, all single failures of a receiver or sender call at its k-th invocation, closing of either channel",
   "There are no tests of the Link; failures must be injected at each call of each collaborator in each state.",
   ["common/link/link.go", "common/link/type.go"],
   [("result handling", "common/link/link.go"), ("Start and its error channel", "common/link/link.go")],
   technique="TLA+ specification with rejections, faults and restarts checked with TLC; TLC validates fault-injected traces of the real code",
   note="Unknown BMV result codes stop the process by design (Panicf), which counts as reported. Faults are injected at each collaborator call generated by LinkGenFault.cfg.")

FAULTTECH = "TLA+ specification with faults checked with TLC; TLC validates traces of the real code against a simulated node playing TLC-generated scenarios"

P_("C04", "The BTP 2.0 receiver presents the source chain completely and in order",
   "Started at any status of the destination, the receiver of an ICON BTP network announces every BTP block from there on, once, in order, with the right last sequence, also the rest of a block whose messages were delivered only in part. At any time, a block update of the requested height on is the block's header with its proof, in order and without a gap until the size limit; a message proof starts at the requested sequence, carries as many of the block's messages as fit into the limit (at least one) with a merkle proof that leads to the root in the header, and says truthfully what the status will be afterwards. Heights of sequences are answered truthfully, and forgetting finalised blocks never loses an undelivered one. A failing or misbehaving node ends the stream instead of leaving a gap.",
   ["inputs", "histories", "fault_sequences"],
   "all chains of BTP blocks with any numbers and sizes of messages and network section updates, all starting points, limits, questions in any order while blocks arrive, and any one failure of the node at any block",
   "The package has no tests: it needs a node. Which messages fit, and what remains after a partial delivery, depends on the combination of chain, status and limit.",
   ["chain/icon/btp2/btp2.go", "chain/icon/btp2/message.go", "chain/icon/client/client.go", "common/mbt/tree.go"],
   [("Monitoring and getReceiveStatus", "chain/icon/btp2/btp2.go"), ("BuildBlockUpdate / BuildMessageProof", "chain/icon/btp2/btp2.go"), ("FinalizedStatus", "chain/icon/btp2/btp2.go")],
   technique=FAULTTECH,
   note="Design: RecvDesign (chain, receiver, Link asking, finality, failures): NoGap and NoLoss exhaustive for small chains. Binding: about 1,100 (12,000) generated chains and question sequences per run against the real receiver over HTTP and WebSocket; proofs are verified by an independent implementation; TLC judges every answer.")

P_("C05", "The ICON bridge receiver presents the source chain completely and in order",
   "Started at any status of the destination, the receiver of the ICON bridge announces every block with messages from there on, once, in order, with the right last sequence, also the rest of a block delivered only in part. A message proof starts exactly at the requested sequence, contains the consecutive messages of one block with their height, as many as fit into the limit (at least one), and says truthfully what the status will be afterwards; heights of sequences are answered truthfully and forgetting finalised blocks never loses an undelivered one. A failing or misbehaving node ends the stream instead of leaving a gap.",
   ["inputs", "histories", "fault_sequences"],
   "all chains, numbers and sizes of messages, starting points, limits, questions in any order while blocks arrive, and any one failure of the node at any block",
   "The package has no tests: it needs a node, and the outcome depends on the combination of chain, status and limit.",
   ["chain/icon/bridge/bridge.go", "chain/icon/bridge/message.go", "chain/icon/client/client.go"],
   [("Monitoring", "chain/icon/bridge/bridge.go"), ("BuildMessageProof", "chain/icon/bridge/bridge.go")],
   technique=FAULTTECH,
   note="As C04, with the encoding of the bridge relay message decoded by an independent RLP decoder.")

P_("C06", "The EVM bridge receiver presents the source chain completely and in order",
   "Started at any status of the destination, the receiver of an EVM chain announces every block with messages for its destination, once, in order, with the right last sequence, whether it polls or is notified of new heads, also when heads are skipped or repeated; messages to other destinations and logs of other contracts are ignored. A message proof starts exactly at the requested sequence, contains the consecutive messages of one block with their height and transaction index, as many as fit into the limit (at least one). Heights of sequences are answered truthfully and forgetting finalised blocks never loses an undelivered one. A failing node ends the stream instead of leaving a gap.",
   ["inputs", "histories", "fault_sequences", "configurations"],
   "all chains, numbers and sizes of messages and distributions over transactions, starting points, limits, both ways of following the chain, skipped and repeated heads, and any one failure of the node at any block",
   "The package has no tests: it needs a node, and skipped heads, foreign logs and partial delivery only appear on live chains.",
   ["chain/ethbr/receiver.go", "chain/ethbr/message.go", "chain/ethbr/client/client.go"],
   [("Monitoring", "chain/ethbr/receiver.go"), ("MonitorBlock / Monitor / Poll", "chain/ethbr/client/client.go"), ("BuildMessageProof", "chain/ethbr/receiver.go")],
   technique=FAULTTECH,
   note="As C04; the retry interval of polling, an exported variable, is shortened. The limit of polling retries (the receiver then ends with an error) is the code's own policy.")

P_("C07", "The ICON sender delivers a relay message whole, or reports that it did not",
   "Each relay message reaches the BMC as one handleRelayMessage transaction, or, from the size limit on, as fragments with the indexes -k, k-1, .., 0 whose concatenation is the message, none above the limit; every transaction is complete, for the right network, contract and link, and signed by the wallet over its contents. A transaction the pool could not take, or which expired, is sent again (expired ones signed anew); one already in the pool counts as sent; any other refusal makes the relay call fail and nothing more of the message is sent. The outcome of the last transaction is followed until it is final: a rejection with a BTP code is reported once with the message's id and exactly this code, a success is not reported as anything else, and in every case the status of the BMC follows. A status that could not be read is never handed over.",
   ["inputs", "histories", "fault_sequences", "schedules"],
   "all message sizes around multiples of the limit, all sequences of answers of the node to sends, result queries and status queries, several messages in flight",
   "The package has no tests: it needs a node and the answers come in any order at any fragment.",
   ["chain/icon/sender.go", "chain/icon/client/client.go", "chain/icon/client/serialize.go"],
   [("_relay and sendFragment", "chain/icon/sender.go"), ("sendTransaction retry loops", "chain/icon/sender.go"), ("GetResult / mapErrorWithTransactionResult", "chain/icon/sender.go"), ("SignTransaction", "chain/icon/client/client.go")],
   technique=FAULTTECH,
   note="Design: SendDesign (sender, pool, contract buffer): Intact, Complete, Truthful and Told (liveness), exhaustive for 2 (3) messages. Binding: 700 (6,000) generated scripts against the real sender; hash and signature are verified with an independent serialisation.")

P_("C08", "The EVM sender delivers a relay message whole, or reports that it did not",
   "Each relay message reaches the BMC as one handleRelayMessage transaction with exactly the message and the link as arguments, to the BMC of the destination, signed by the wallet for the chain of the node. If it cannot be sent the relay call fails. The outcome is followed until the transaction is final: a revert is reported once with the message's id and the code in the revert reason (25 if there is none), a success is not reported as anything else, and in every case the status of the BMC follows, with all its fields in place. A status that could not be read is never handed over, and no answer of the node crashes the relay.",
   ["inputs", "histories", "fault_sequences", "schedules"],
   "all message sizes, all sequences of answers of the node to sends, transaction, receipt and status queries, several messages in flight",
   "The package has no tests: it needs a node and the answers come in any order.",
   ["chain/ethbr/sender.go", "chain/ethbr/client/client.go", "chain/ethbr/binding/bmc_abigen.go"],
   [("_relay", "chain/ethbr/sender.go"), ("GetResult", "chain/ethbr/sender.go"), ("GetStatus", "chain/ethbr/sender.go")],
   technique=FAULTTECH,
   note="As C07; transactions are decoded and their sender recovered independently of the code under test.")

P_("C14", "Encoding and decoding a value is lossless, and damage is reported",
   "For every value of the supported kinds (integers of all widths, booleans, byte strings, text, lists, structures, maps, nil and nested combinations, also with custom encoders), decoding what RLP or MessagePack encoding produced gives back an equal value, whatever the target held before; the RLP encoding is the canonical one that any other implementation of the format produces and understands. Encodings that are truncated, or whose sizes do not fit the data, are reported as errors: never a crash, never an invented value, and several values in one stream are read one after another.",
   ["inputs"],
   "all values by structure and by the size classes of the format (0, 1, 55, 56, 255, 256, 65535, 65536 bytes), all structural truncations and size damages of their encodings, targets with former contents",
   "The package has no tests; every size class, nesting and nil has its own path in both directions.",
   ["common/codec/rlp.go", "common/codec/bytes.go", "common/codec/codec.go", "common/codec/msgpack.go"],
   [("rlpReader / rlpWriter", "common/codec/rlp.go"), ("encoder and decoder by reflection", "common/codec/codec.go")],
   technique=TECH,
   note="Design: RLPDesign proves round trip, unambiguity and detection of truncation on the specification's encoder for all values to depth 3. Binding: every generated value is encoded and decoded by the real code; the bytes are compared by TLC with the specification's encoding. Excluded by design: integers that do not fit the target, arrays of another length.")

P_("C15", "Integer conversions are exact for every value, and refuse what is not one",
   "Converting an integer (of 16, 32 or 64 bits, signed or not, or big) to its byte form or its hexadecimal text and back gives the same integer, the byte form is the shortest two's complement (or unsigned) one in big-endian order, and the text is the canonical 0x form also inside JSON. Text that is not an integer, or does not fit the type asked for, is refused with an error and never gives another value.",
   ["inputs"],
   "all integers around every byte and bit boundary of every width with both signs, random big ones, and all short texts over the alphabet of the format with ranges of each type",
   "The tests sample a few values; sign extension and the widths have a boundary each.",
   ["common/intconv/bytes.go", "common/intconv/string.go", "common/hexint.go", "chain/icon/client/type.go"],
   [("BigIntToBytes / BigIntSetBytes", "common/intconv/bytes.go"), ("ParseInt / FormatInt", "common/intconv/string.go"), ("HexInt, HexInt16/32/64, HexUint", "common/hexint.go")],
   technique=TECH,
   note="Integers beyond TLC's 32 bits are written as digit sequences (spec/common/Ints.tla). Design: IntsDesign proves the byte and text forms bijective with the integers for all lengths to the bound. Unprefixed text (decimal or hexadecimal by function) and the empty text are outside by design.")

P_("C16", "Every form of an address denotes the same one, and malformed ones are refused",
   "A BTP address is taken apart into exactly its protocol, network, chain and contract, and passes validation exactly when its protocol is btp, its chain is a supported one and it has a contract; an address of ICON keeps its kind (contract or account) and its bytes through its text, JSON, byte and RLP forms, equal addresses have equal forms and different ones different forms; the address of a public key is the one the network derives. A part of a BTP address ends at the next separator and is empty if it is not there; a shorter ICON address is padded on the left. Malformed text, JSON or bytes are refused with an error, never crash and never leave parts of a former value behind.",
   ["inputs"],
   "all combinations of present, empty and repeated components of BTP addresses, all kinds and lengths of address bytes and texts including upper case, prefixes and foreign characters, targets with former contents",
   "The packages have no tests of addresses.",
   ["common/types/btpaddress.go", "common/address.go", "chain/icon/client/type.go"],
   [("BtpAddress accessors", "common/types/btpaddress.go"), ("Address.SetString / SetBytes", "common/address.go"), ("client.Address.Value", "chain/icon/client/type.go")],
   technique=TECH,
   note="Design: AddrDesign proves the forms injective and the accessors consistent. An id of more than 20 bytes is cut by design.")

P_("C24", "The relay program delivers each enabled direction completely, also after kills",
   "The relay program, started with two chains, their accounts and a direction (front, reverse or both), delivers every message of the enabled directions to the BMC of the other side exactly once and in order, with transactions signed by the account configured for the chain they go to and naming the other side as their link; it sends nothing for a direction that is not enabled. Killed at any moment and started again, or overtaken by another relayer, or rejected as not verifiable, it goes on to deliver everything. A wrong password, a missing key or endpoint, an unknown direction or chain, a rejection it cannot handle and the loss of a source end the program with a failure exit code, and with a wrong configuration nothing is sent.",
   ["configurations", "histories", "crash_points", "fault_sequences"],
   "all pairs of chain kinds (ICON BTP block, ICON bridge, EVM), directions, ways of giving the configuration, chains of blocks, kills, rejections and faults",
   "No test starts the program; directions, wallets and receivers are chosen by configuration, and only a run between two live chains shows whether they fit together.",
   ["cmd/relay/main.go", "cmd/relay/linkfatory.go", "common/link/link.go", "chain/icon/sender.go", "chain/ethbr/sender.go"],
   [("NewLink by direction", "cmd/relay/linkfatory.go"), ("newReceiver / newSender by chain", "cmd/relay/linkfatory.go"), ("Wallet and configuration", "cmd/relay/main.go")],
   technique="TLA+ specification with kills, other relayers and faults checked with TLC; TLC validates what two simulated chains saw of the real program in TLC-generated worlds",
   note="Design: RelayDesign (both directions, kills, other relayers): Once, Only and Delivered (liveness), exhaustive for 2-3 messages. Binding: 170 (1,700) generated worlds per run, the relay binary as a child process between two simulated nodes whose BMCs verify and execute what they get (independent decoding, merkle verification and signature recovery).")

P_("C17", "A key store opens with its password alone and gives back exactly its key",
   "A key store written by the relay, or by another implementation of the two formats (ICON and Ethereum), gives back with its password exactly the key, and thus the wallet of the address, it was made for, whatever the key, the password and the cost parameters are; the wallet then signs for this key. With any other password, or when its ciphertext, authentication code, salt, parameters or recorded address were altered, cut off, replaced by values of another type or left out, opening it is an error: never a crash and never a wallet of another key. Members that do not matter (order, letter case of hexadecimal text, additional ones) do not matter.",
   ["inputs", "histories"],
   "all sequences of damages (of about 30 kinds) and passwords over stores of both kinds, random keys and parameters, stores of the relay and of an independent implementation in both directions",
   "No test opens a damaged key store or one of another implementation.",
   ["common/wallet/keystore.go", "common/wallet/wallet.go", "common/wallet/keystore_evm.go", "common/wallet/wallet_evm.go"],
   [("DecryptKeyStore / EncryptKeyAsKeyStore", "common/wallet/keystore.go"), ("DecryptEvmKeyStore", "common/wallet/keystore_evm.go")],
   technique=TECH,
   note="Design: StoreDesign proves that no sequence of changes opens a store for another key or password. Binding: 2,300 (20,000+) generated histories of damages on real stores; an independent implementation (scrypt, AES-CTR, SHA3) writes and reads stores. Not claimed for Ethereum stores: alterations of the IV, which that format does not authenticate, and parameters on which go-ethereum fails.")

P_("C18", "Signatures and secrets are valid for exactly their key and message",
   "A signature made with a private key over a message hash verifies with its public key and recovers to it, in every serialised form (with or without V, V in front or at the end) and in other implementations of secp256k1; it does not verify for another key, another message, or with any altered part, and recovery then gives an error or another key. Public keys have the same identity in compressed and uncompressed form, and all parts of a key pair fit together. Both sides of an exchange derive the same secret, different ones for different partners, and a text encrypted for a public key is read by the owner of the private key only; bytes of the wrong size for a key or signature, numbers that are no private key and points that are not on the curve are errors and never crash, also while keys are made and used at the same time.",
   ["inputs", "histories", "schedules"],
   "all sequences of conversions and alterations of a signature over several keys and messages, random keys and messages with short and all-zero ones, malformed keys and signatures",
   "The tests use one key and one message.",
   ["common/crypto/signature.go", "common/crypto/key.go", "common/wallet/encrypted.go", "common/wallet/wallet.go"],
   [("NewSignature, Verify, RecoverPublicKey", "common/crypto/signature.go"), ("ParsePrivateKey, ParsePublicKey, ECDH", "common/crypto/key.go"), ("NewEncrypted / Decrypt", "common/wallet/encrypted.go")],
   technique=TECH,
   note="Design: SignDesign (signatures as terms with altered parts) proves Sound and Complete for all histories to the bound. Binding: 1,500 (12,000) histories and 200 (3,000) key exchanges on the real code, cross-checked with go-ethereum's secp256k1. Not claimed: ParsePublicKey does not decide whether bytes are a point of the curve.")

P_("C22", "An error keeps its code, cause and text through every wrapping",
   "An error made or wrapped with a code reports this code through any number of further wrappings by this package, by fmt or by stack annotations; the outermost code counts, and an error without one has the code of unknown errors. errors.Is finds every error that was wrapped and none that was not, CoderOf and AsValue find the coded one, an error equals exactly the code it reports, and no error (nil) equals none. The text is that of the outermost layer which has one; printing shows the code of a coded error in front of it and, in detail, the texts of all layers. Nothing of this crashes.",
   ["inputs", "programs"],
   "all sequences of constructors and wrappers to the bound with all codes",
   "The tests wrap once or twice.",
   ["common/errors/errors.go"],
   [("Wrap, WithCode, CodeOf, Is", "common/errors/errors.go"), ("Code methods", "common/errors/errors.go")],
   technique=TECH,
   note="Design: ErrsDesign. Binding: all histories of up to 3 (4) layers, sampled to 6,000 (40,000), performed on the real package.")

P_("C19", "A subscription hands over every notification once, in order, and reports its end",
   "A subscription to BTP blocks, blocks or events of an ICON node sends exactly the request it was given, hands every notification to its subscriber exactly as the node sent it, once and in the order of sending, and none of another. A monitor of BTP blocks stops at the first error of its subscriber and returns this error. When the node refuses the subscription, sends what is not a notification, or the connection ends, the monitor returns an error, and tells it to the error callback once, unless the node closed normally; it never goes on silently without the connection. A refused subscription calls the subscriber never. Closing the monitors ends them, also while they end by themselves, and never crashes.",
   ["histories", "fault_sequences", "schedules"],
   "all feeds of notifications up to the bound with every end (close frames, drop, garbage) and every point of failure of the subscriber, refusals, concurrent closing",
   "The package has no tests: it needs a node with a WebSocket.",
   ["chain/icon/client/client.go"],
   [("Monitor, MonitorBTP, MonitorBlock, MonitorEvent", "chain/icon/client/client.go"), ("wsReadJSONLoop", "chain/icon/client/client.go"), ("CloseAllMonitor", "chain/icon/client/client.go")],
   technique=FAULTTECH,
   note="Design: MonDesign (node, wire, subscriber): Right and Over (liveness). Binding: all 588 (1,500+) feeds, refusals and concurrent closings against the real client with a simulated node. As the code is, monitors of blocks and events ignore an error of their subscriber.")

P_("C20", "An answer of a node is understood as exactly what it says",
   "A call of an ICON node sends one JSON-RPC request with the method, the parameters and the headers asked for. A result is handed over exactly as the node sent it, and only if the answer is a complete and successful one; an error object is returned as such with its code, message and data, whatever the HTTP status is; an HTTP error without one is returned with its status and body; anything else (cut off, not JSON, of another type, no answer) is an error, and then the target of the result keeps its contents. Errors of the transaction pool (overflow, expired, future, pending) and of the connection are told apart as the sender needs it to decide on sending again, no other error is taken for one of them, and none crashes the relay. Each method of the client asks for what its name says and gives back what the node says.",
   ["inputs", "fault_sequences"],
   "all combinations of HTTP status, content type and kind of body, with random results and error codes; all methods of the client with results, errors and malformed results",
   "The packages have no tests: they need a node.",
   ["common/jsonrpc/client.go", "common/jsonrpc/type.go", "common/http.go", "chain/icon/client/client.go"],
   [("Client.Do", "common/jsonrpc/client.go"), ("MapError", "chain/icon/client/client.go"), ("HasContentType / NewHttpError", "common/http.go")],
   technique=TECH,
   note="Design: RpcDesign proves the outcome function sound for all 784 answers. Binding: each answer twice (20 times) with random contents, and 150 (2,000) rounds of all 16 methods, against the real client with a simulated node. Numbers beyond 2^53 in results are not claimed (the protocol writes them as text).")

P_("C21", "A setting counts from flag, environment or file, and saving keeps its meaning",
   "Each setting of the relay has the value of its flag if given, else of its environment variable, else of the configuration file, else its default. 'save' writes a file which, loaded again from any working directory, by flag or environment, means the same: every setting keeps its value, base_dir and the log file keep the place they denote (unset ones stay unset), the key stores stay the same keys under the same passwords, and missing ones are made once and kept. Passwords are never written into the file; a secret file counts before a password. Whatever cannot be read, parsed or decrypted (configuration file, key store, secret, password, number, boolean, unknown flag, missing address or endpoint at start) is refused with an error, and nothing is written.",
   ["inputs", "histories"],
   "histories of saves and loads with all settings from all sources, two working directories, two target folders, relative and absolute paths",
   "The command has no tests; the meaning of a value depends on its source, on the working directory and on the file it is saved to.",
   ["cmd/relay/main.go", "common/cli/helper.go", "common/config/fileconfig.go", "chain/config.go"],
   [("PersistentPreRunE, saveCmd, EnsureWallet", "cmd/relay/main.go"), ("ViperDecodeOptJson", "common/cli/helper.go"), ("FileConfig.ResolveRelative / ResolveAbsolute", "common/config/fileconfig.go")],
   technique=TECH,
   note="Design: ConfDesign, all histories of two saves over five settings. Binding: 168 (2,000) generated histories of three saves of up to six overrides over all 32 settings, each followed by one of 14 kinds of bad use, with the relay program itself in scratch folders. Names in options are compared in lower case.")

BMC = "javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java"
JNOTE = " The contract runs in a simulated ICON VM (harness/java/rt) with three linked BMCs, programmable services and a verifier that accepts exactly the next messages."

P_("C25", "The BMC gives every message exactly one outcome, in the order of sending",
   "A message centre (javascore/bmc) takes relay messages of a link only at the sequence it expects, and each contained message gets exactly one outcome: it is handed to the service it names, exactly as sent; forwarded unchanged on the link that leads to its destination; or, when that fails for any reason (no route, no service, the service or the chain refuses), reported to its source by one error message with the right code if it asked for an answer, and dropped with an event if not. A failed message has no other effect and never stops the messages behind it. A two-way message is answered once: by the reply of its service or by an error, with the network serial number of the request; a second answer is refused. Serial and link sequence numbers are given without gaps, and events and status tell exactly this.",
   ["histories", "fault_sequences"],
   "generated histories of 45 calls after five start networks (event links, BTP links, triangle, routes) with every kind of service behaviour, verifier refusals, junk, unexpected and hostile messages",
   "The tests of the contract need a running network and are not among the tests that can run; outcomes depend on histories over several chains.",
   [BMC, "javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessage.java", "javascore/bmc/src/main/java/foundation/icon/btp/bmc/Link.java"],
   [("handleRelayMessage, dispatch, handleMessage, sendMessage, sendError", BMC), ("resolveNext", BMC)],
   technique=TECH,
   note="Design: BmcDesign (closed network, exhaustive to the bound and random walks): Links, Once, Quiet, Coins. Binding: 250 (3,000) histories with full comparison of state, events and calls after each call (about 18,000 calls)." + JNOTE)

P_("C26", "Fees of the BMC are conserved: each is a reward of one account, or on its way",
   "What a service pays for a message is at least the fee of the table for the whole way (both ways if it wants an answer), the excess is a reward of the fee handler. Each hop takes its own share for the relay that delivered the message, and nothing else; what is left when a message ends (one-way received, dropped, answered, not answerable) goes to the fee handler's account there, once. Errors and replies take the shares paid for the way back in the right order. A claim pays exactly the reward of the caller (or of the BMC, for the fee handler) to the receiver, at once for its own network, else by a message to the network of the fee; if that is refused, the reward returns to the caller, and it is paid only once. No history creates or loses coins; the claimed, accumulated and reported amounts agree.",
   ["histories", "fault_sequences"],
   "generated histories with all fee tables (0 to 4 hops), claims of local and remote rewards and their errors, drops, hostile fee fields",
   "The tests of the contract need a running network and are not among the tests that can run; a coin may be lost in any message's end.",
   [BMC, "javascore/bmc/src/main/java/foundation/icon/btp/bmc/FeeInfo.java"],
   [("accumulateFee, addRemainFee, claimReward, handleResponse, setFeeTable, swap in sendError", BMC)],
   technique=TECH,
   note="Design: BmcDesign, invariant Coins (balance = rewards + fees and claims on the way) and Once. Binding: 250 (3,000) histories biased to fees and claims, all rewards, balances and fees compared after each call. Five genuine defects found here and repaired (KNOWN_FINDINGS)." + JNOTE)

P_("C27", "Only owners administer the BMC; links, routes, relays, services stay consistent",
   "Verifiers, services, links, BTP links, routes, relays, owners, fee table, fee handler and dropped messages are changed by owners only, and relay messages are taken from relays registered for the link only. Each change does exactly what it says or is refused with the right code and changes nothing: no duplicate, no removal of what does not exist, no link without verifier or under a used network id, no route over a missing link, no removal of a link in use. A new link tells its neighbours (Init, Link) and a removed one too (Unlink), and the reachable networks are what the neighbours told. Whatever was removed leaves nothing behind: a link added again starts with fresh sequences, without the old relays, fees and network id. A destination is resolved by a direct link first, then a route, then by what neighbours reach.",
   ["histories", "inputs"],
   "generated histories of administration by owners and others, mixed with traffic, failures of the chain's BTP interface, and re-creation of links",
   "The tests of the contract need a running network and are not among the tests that can run; consistency is about histories of additions and removals.",
   [BMC, "javascore/lib/src/main/java/foundation/icon/btp/lib/OwnerManagerImpl.java", "javascore/bmc/src/main/java/foundation/icon/score/data/EnumerableDictDB.java"],
   [("addLink, removeLink, addBTPLink, setBTPLinkNetworkId, addRoute, addRelay, ...", BMC), ("OwnerManagerImpl", "javascore/lib/src/main/java/foundation/icon/btp/lib/OwnerManagerImpl.java")],
   technique=TECH,
   note="Binding: 250 (3,000) histories of 45 calls, mostly administrative; codes of refusals and the whole visible state compared with the specification after each call." + JNOTE)

P_("C28", "A relay message in fragments counts exactly as the whole, or not at all",
   "A relay message which a relay hands over in fragments has, with the last one, exactly the effect it would have in one piece; before that, fragments have no effect on links, messages or rewards. Fragments are kept for each relay and link by themselves, so relays do not disturb each other; a first fragment begins anew whatever was there, and one out of order, missing, repeated or from another account is refused and changes nothing.",
   ["histories", "schedules"],
   "generated histories with fragments of 2 to 4 parts of several relays and links, missing, doubled, wrong and restarted parts, mixed with ordinary traffic",
   "The tests of the contract need a running network and are not among the tests that can run.",
   [BMC],
   [("handleFragment", BMC)],
   technique=TECH,
   note="Binding: 250 (3,000) histories with about 10,000 (120,000) fragment calls, with full comparison after each call." + JNOTE)

BMVB = "javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java"
BMVBD = "javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/"
P_("C29", "The BTP block verifier hands over only the source chain's messages, in order",
   "Whatever is relayed to the verifier of BTP blocks, in whatever order, altered, damaged or repeated, the messages it hands to the BMC are exactly those of the source network, each once and in order. It takes only the next block of its network, and only with valid signatures of more than two thirds of the validators in force at that block, which change exactly with an accepted update whose proof context matches its hash; message proofs count only against the root and the position reached in the last accepted block. What an honest relay makes is taken (any division of a block's messages, any sequence offset, any path of sections, absent signatures left null); a refused call changes nothing and says already verified or not verifiable when that is why. Only its BMC, for its own address and the source network, at the current sequence, is served.",
   ["inputs", "histories"],
   "generated chains (3 to 7 blocks, 0 to 13 messages each, paths up to 3, validator sets of 2 to 8 changing) and relay calls: every kind of alteration of headers (re-signed too), signatures and proofs, forged node counts, damaged bytes",
   "The tests of the contract need a running network and are not among the tests that can run.",
   [BMVBD],
   [("handleRelayMessage", BMVB), ("handleBlockUpdateMessage", BMVB), ("verifyProof", BMVB), ("handleMessageProof", BMVB), ("MessageProof.proveMessage", BMVBD + "MessageProof.java"), ("BlockHeader.getNetworkSectionsRoot", BMVBD + "BlockHeader.java")],
   technique=TECH,
   note="Design: BmvBtp on two small chains with every order of relay messages (prefix, position, validators in force, quorum). Binding: 600 (8,000) histories of 14 relay messages against the contract, with its real cryptography checks." + JNOTE)

XC = "javascore/xcall/src/main/java/foundation/icon/btp/xcall/CallServiceImpl.java"
P_("C30", "A cross-chain call runs once; its rollback runs once and only if it failed",
   "A call sent with the arbitrary call service (javascore/xcall) arrives on the other network with exactly its caller, target and data, and is executed at most once, whoever asks for it and even if the called contract calls back. If it carries rollback data, its outcome (0, the code the contract reverted with, -1 for any other failure, -2 when the BMC could not deliver it) is sent back once; success forgets the rollback, anything else enables it, and then it is executed at most once, on the contract that sent the call. Accounts that are no contract cannot ask for a rollback, and data or rollback data above the limits are refused. The sender pays at least the fee; the protocol fee goes to its handler (or is kept until there is one), all else to the BMC. Only the BMC delivers, only the owner names an admin, only the admin sets fee and handler; a refused call changes nothing, and an update of the contract keeps everything.",
   ["histories", "schedules"],
   "generated histories of calls, deliveries in any order, errors, executions and rollbacks (also repeated, of wrong ids and re-entrant), fees and administration on two networks",
   "The tests of the contract need a running network and are not among the tests that can run; the guarantees are about every interleaving of messages and executions.",
   [XC],
   [("sendCallMessage, executeCall, executeRollback", XC), ("handleBTPMessage, handleBTPError, handleResponse", XC), ("setAdmin, setProtocolFee, setProtocolFeeHandler", XC)],
   technique=TECH,
   note="Design: Xcall on two networks, every interleaving of 2 (3) calls: once, not both, at rest, coins conserved. Binding: 500 (6,000) histories of 60 operations against two instances of the contract in a simulated ICON VM (harness/java/rt) with stand-ins of the BMC and of the contracts using it; events, messages sent, calls made, balances and settings compared after each.")

BMVR = "javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java"
P_("C31", "The bridge verifier hands over the next messages whole, in order, without gaps",
   "From a relay message of receipts, the verifier of the bridge hands to the BMC exactly the messages from the sequence after the BMC's on, each once and in the order of their sequences, however they are divided into receipts and relay messages and however relays overlap. Receipts below the height reached and messages before the sequence are skipped; a gap in the sequence is refused as not verifiable; the status reports the height of the last receipt taken. Only its BMC, for its own address and the source network, is served; what cannot be decoded is refused, and a refused call changes nothing.",
   ["inputs", "histories"],
   "generated histories of relay messages of several receipts: honest, overlapping, repeated, out of order, with gaps, damaged, by wrong callers",
   "The tests of the contract need a running network and are not among the tests that can run.",
   [BMVR],
   [("handleRelayMessage", BMVR), ("RelayMessage, ReceiptProof, EventDataBTPMessage", "javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/")],
   technique=TECH,
   note="Design: BmvBridge with honest relays at any position and any division of a source of four blocks: in order, complete. Binding: 600 (8,000) histories of 30 relay messages against the contract in a simulated ICON VM (harness/java/rt).")

NC = "javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java"
P_("C32", "Coins sent to another network are held, paid out once or fully refundable",
   "A transfer with the native coin service (javascore/nativecoin) takes exactly the named coins from the sender (native coins sent along, tokens only with approval), and the amount less the fee (the ratio of the amount rounded down, at least 1) is asked of the other network, for exactly the named receiver and coins, also in a batch with the same coin several times. What was taken is locked for the sender until the answer: on success the lock ends, the fee is kept, and the transferred tokens are burnt; on any other answer or error all of it, fee included, becomes refundable to the sender, who alone can reclaim it, in parts and never more than that, even if the paid contract calls back. Each transfer is answered once; further answers change nothing. A request from another network pays native coins or mints registered tokens to the receiver for exactly the amounts asked, sums of repeated coins included, and answers once; or (unknown coin, amount not positive, invalid receiver, receiver refuses) does nothing at all. So the coins that circulate on the other network are backed and what users locked, can reclaim or paid as fees is there, whatever becomes of the messages. Only the BMC delivers messages and errors; only owners register coins and set the fee ratio (1 to 9999 of 10000); a refused call changes nothing.",
   ["histories", "schedules"],
   "generated histories of transfers (single, batch, repeated coins, bad values), deliveries in any order, errors, refusals, reclaims (re-entrant too), requests of a third network and administration on two networks",
   "The tests of the contract need a running network and are not among the tests that can run; conservation is about every interleaving of messages.",
   [NC],
   [("transferNativeCoin, transfer, transferBatch, reclaim", NC), ("handleBTPMessage, handleBTPError, handleRequest, handleResponse", NC), ("mint, burn, transfer of tokens", "javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/irc31/OwnerBasedIRC31Supplier.java")],
   technique=TECH,
   note="Design: Coin on two networks, every interleaving of 2 (3) transfers with errors, refusals and re-entrant reclaims: backed, solvent, nothing locked at rest. Binding: 250 (5,000) histories of 90 operations against two instances of the contract and of its tokens in a simulated ICON VM (harness/java/rt) with stand-ins of the BMC and of the IRC31 library; balances, locks, refunds, fees, pending transfers, events and messages compared after each. Known finding: an error for an answer (see KNOWN_FINDINGS.jsonl).")

BI = "javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/"
P_("C33", "The ICON verifier accepts only voted blocks and proven messages, in order",
   "The verifier of ICON blocks (javascore/bmv/icon) advances by a block update only if it has the next height, more than two thirds of the current validators voted for exactly this header (height, round, block, parts), each counted once and nobody else voting, and, where the header names other validators for the next block, these are given and have the hash in the header; they alone count for the next block. A block proof is accepted only for a header that was accepted at its height, with a witness for the accumulator as it stands. Messages are handed over only from events with a Merkle proof to the receipts of the last block of the relay message, of the source BMC, with the name of the message event and this BMC as next, whole and in order of their sequences from the one after the BMC's, without a gap. The status reports the height, the offset and the height of the last block that had messages. Only its BMC, for its own address and the source network, is served; a refused call changes nothing and names the reason.",
   ["inputs", "histories"],
   "generated histories of relay messages from generated sources: changes of validators, votes short of the quorum, repeated or for something else, competing blocks, old, newer and altered witnesses and proofs, receipts and events in tries of up to 150 entries, inline and hashed event logs, decoy events, wrong sequences, damaged messages, wrong callers",
   "The tests of the contract need a running network and are not among the tests that can run; that no forged history is accepted is about every relay message.",
   [BI + "BTPMessageVerifier.java"],
   [("handleRelayMessage, verifyBlockUpdates, verifyVotes, verifyBlockProof, proveReceiptProof", BI + "BTPMessageVerifier.java"), ("add, verify", BI + "MerkleTreeAccumulator.java"), ("prove", BI + "MerklePatriciaTree.java"), ("Validators, BlockHeader, Votes, Receipt, EventLog", BI)],
   technique=TECH,
   note="Design: BmvIcon with arbitrary relays and less than a third of dishonest validators, on a source of four blocks with a change of validators: only the source's blocks, its messages in order, and always a way on. Binding: 260 (4,000) histories of 24 relay messages, made with real signatures, tries and witnesses, against the contract in a simulated ICON VM (harness/java/rt).")

LG = "common/log/"
P_("C23", "Log entries reach the console, the file and every forwarder by their levels",
   "An entry made with a logger exists if the level of the log admits it. It is then in the log file, if one is set, whatever the console shows; on the console if the level set for its module, or else the level of the console, admits it; and at every forwarder (logstash) whose level admits it. It appears there once, in order, whole, with the level, the wallet (four characters), the chain, the module (that of the logger, or the package of who logs), the prefix and the other fields of its logger, and with its place in the code if that is asked for, also when several log at once. Loggers made from a logger have its fields, their own instead where both have one, and share its levels and outputs; the functions of the package use the global logger. A level name is read in any case and nothing else is a level; a forwarder of an unknown kind, with an unknown level or nobody listening, is refused. The log file is not longer than set; what is more is in numbered files before it, of which as many are kept, as long and in the form that the configuration says, and no line is lost, cut or repeated.",
   ["inputs", "histories", "schedules"],
   "generated histories of loggers made from loggers with fields, changes of the levels of the log, the console and modules, files, forwarders with every level, entries of every level through every form of call, alone and several at once, level names, rotating files",
   "The tests parse two forwarder configurations; what reaches which output after which settings is about every history.",
   [LG + "log.go", LG + "filter.go"],
   [("New, WithFields, SetGlobalLogger, ParseLevel, getPackageName", LG + "log.go"), ("Format, SetModuleLevel, SetFileWriter", LG + "filter.go"), ("Format", LG + "formatter.go"), ("HookLevels, Fire, AddForwarder", LG + "forwarder.go"), ("NewWriter", LG + "writer.go")],
   technique=TECH,
   note="Design: Log with all levels and two modules, all histories of settings: what is on the console was made and is in the file, a more severe entry is where a less severe one is, raising a level hides nothing, a module's level concerns that module alone. Binding: 500 (6,000) histories of 60 operations against the package, with the console captured, several file writers and listening TCP servers as forwarders, and 12 (79) log files filled beyond their size.")

FE = "javascore/fee-aggregation/src/main/java/foundation/icon/btp/"
P_("C34", "Syndications of collected fees: shares, refunds and the fund always add up",
   "The fee aggregation (javascore/fee-aggregation) sells the tokens it collects. A deposit for a registered token starts a syndication, numbered in order, for all it has of the token that is not promised and not in an ended syndication (refused if that is nothing) for the time set; further deposits until then join it, and a depositor's deposits add up. The first deposit after that starts the next one and ends it, as does a claim of the token; then the tokens are promised to the depositors: what each paid for at the oracle's price less 10 percent, or, if more was deposited than all are worth, all by their shares (rounded down), and the ICX beyond the price of the share is refundable to each; the fund (CPS) gets exactly the deposits that are not refundable. So the contract always has the ICX of all refundable amounts and running deposits and the tokens of all promises and the running syndication. claim and withdrawal pay the caller's own promise and refund in full and once, also if the receiver calls again meanwhile; if the payment fails it stays promised or refundable. Only the owner registers tokens, each name once, and sets the time. ICX that is just sent goes to the fund. A refused call changes nothing; the codes and the events say what happened.",
   ["inputs", "histories", "faults"],
   "generated histories of fees, deposits (also of nothing), claims, withdrawals, prices, waits up to and beyond the end, a fund, an oracle or token contracts out of order, receivers that refuse or call again, for three tokens of both kinds",
   "The tests of the contract need a running network and are not among the tests that can run; that the accounts are always covered is about every history.",
   [FE + "FeeAggregationSCORE.java", FE + "Syndication.java"],
   [("deposit, claim, withdrawal, endAuction, distributeTokenShare, availableBalance, registerIRC2, registerIRC31", FE + "FeeAggregationSCORE.java"), ("deposit", FE + "Syndication.java"), ("getUnit, isIRC31", FE + "Token.java")],
   technique=TECH,
   note="Design: Fees with two depositors, one of which calls again, prices and outages, all histories within bounds: promises and refunds are covered, every depositor pays what his tokens cost but for rounding, what is owed is paid when asked for. Binding: 320 (5,000) histories of 90 operations against the contract in a simulated ICON VM (harness/java/rt), with stand-ins for the token contracts, the oracle and the fund; all balances and answers compared after every operation.")
