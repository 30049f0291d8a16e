#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the property texts).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Generic encoding: documented layout and lossless round trip",
 "Encoding a value of any type the generic codec supports (fixed-size integers, booleans, strings, slices, arrays, structs, optional pointers, types with custom codecs, nested freely) appends exactly the layout documented for the format (big-endian two's complement, length prefixes, 0/1 booleans and optional flags, elements in order) to the caller's buffer and leaves that buffer's existing bytes alone. Decoding that encoding, with arbitrary further bytes behind it, reports exactly the encoded length as consumed and yields a value equal to the original. Decoding into a variable used before gives the same result and leaves values taken from it earlier as they were.",
 ["inputs"], "for every value of every supported type shape (all integer values, all byte contents, every slice/string length up to the bound, every presence pattern of optionals) and every trailing byte string",
 "The tests encode and decode one hand-written literal per kind; sign extension, byte order of every lane, nesting and the length prefix at each width are sampled at a single value.",
 ["beserial/encode.go", "beserial/decode.go", "beserial/tags.go", "beserial/doc.go"],
 [("Marshal/marshal/marshalNumber/marshalInt", "beserial/encode.go"), ("Unmarshal/value/number/pop", "beserial/decode.go"), ("struct tag parsing", "beserial/tags.go")],
 observe=["beserial.Marshal", "beserial.Unmarshal", "beserial.UnmarshalFull"])

prop("C02", "Generic decoding is total, bounded and strict on arbitrary bytes",
 "Decoding arbitrary bytes into any supported type never panics, never reports more bytes consumed than were given and never allocates more elements than the input has bytes. Input that ends early, a boolean or optional flag other than 0 or 1, and (for the full-buffer variant) leftover bytes are rejected with an error. Whatever is accepted re-encodes to exactly the bytes consumed, and the decoded value does not alias the input buffer.",
 ["inputs"], "for every byte string up to the stated length and every supported type shape",
 "Tests feed a handful of well-formed buffers and one invalid boolean; malformed, truncated and adversarial length prefixes are the untested majority of the input space.",
 ["beserial/decode.go", "beserial/errors.go"],
 [("bounds check in pop", "beserial/decode.go"), ("slice length sanity check", "beserial/decode.go"), ("strict flag/bool switch", "beserial/decode.go")],
 observe=["beserial.Unmarshal", "beserial.UnmarshalFull"])

prop("C03", "Reported size equals the encoded length",
 "For every value that can be encoded, the size the library reports for it is exactly the number of bytes its encoding has. This holds for every kind the generic codec supports, for types with a custom codec wherever they are nested, and for blocks, transactions, accounts, peer addresses and every protocol message.",
 ["inputs"], "for every encodable value of every supported type shape and of every wire type, up to the stated sizes",
 "Size tests use nine literals and never a type with a custom codec or a boolean.",
 ["beserial/size.go", "wire/msg_types.go", "wire/block.go", "wire/tx.go", "wire/account.go", "wire/p2p.go", "wire/signature.go", "wire/bitset.go", "wire/hash.go"],
 [("Size/valueSize", "beserial/size.go"), ("SizeBESerial methods", "wire/*.go")],
 observe=["beserial.Size", "SizeBESerial methods"])

prop("C04", "Values that cannot be encoded are reported, never corrupted",
 "Encoding reports an error, and never a silently truncated or incomplete encoding, when any part of the value cannot be represented: a nil pointer that is not optional, a slice or string longer than its length prefix can count, a slice or string without a length prefix, or an unsupported kind, at any nesting depth. The same goes for the protocol's own codecs and parts that do not fit together: a bit set whose bytes are not exactly those that hold its bits, a Merkle path without exactly one node per branch, an interlink without exactly one hash per unset repeat bit, a network address whose IP does not fit its kind and a peer address with the details of another protocol. Handing the encoder, decoder or sizer something that is not a non-nil pointer yields an error instead of a panic or a silent success.",
 ["inputs"], "for every position of an unencodable part inside the supported type shapes, every length around each prefix's limit, every combination of part lengths within the stated bounds, and every invalid top-level argument shape",
 "No test exercises any encoding failure.",
 ["beserial/encode.go", "beserial/decode.go", "beserial/size.go", "beserial/errors.go", "wire/bitset.go", "wire/signature.go", "wire/block.go", "wire/p2p.go"],
 [("error returns of marshal", "beserial/encode.go"), ("InvalidUnmarshalError", "beserial/errors.go")],
 observe=["beserial.Marshal", "beserial.Unmarshal", "beserial.Size"])

prop("C05", "Blocks and interlinks decode exactly and re-encode canonically",
 "Decoding arbitrary bytes as a block or interlink never panics; when it succeeds, re-encoding gives back exactly the bytes consumed, and decoding the encoding of a block gives an equal block with every header, interlink and body field in the documented order and width. In a decoded interlink the i-th hash is the next unread hash from the input when repeat bit i is 0 and the previously read hash when it is 1, and only the repeat bits and the unread hashes are on the wire. Decoding into a variable used before gives the same result and leaves interlinks and bodies taken from it earlier as they were.",
 ["inputs"], "for every interlink of every repeat-bit count 0..255 within the stated content bounds, every block with bodies up to the stated list sizes, and every byte string up to the stated length",
 "Only two fixed genesis blocks are decoded by tests, whose interlinks are empty; no test checks a decoded hash.",
 ["wire/block.go", "wire/bitset.go", "beserial/decode.go"],
 [("BlockInterlink.UnmarshalBESerial/MarshalBESerial", "wire/block.go"), ("BitSet codec", "wire/bitset.go")],
 observe=["beserial.Unmarshal into wire.Block / wire.BlockInterlink"])

prop("C06", "Transactions encode and decode losslessly in both formats",
 "A basic or extended transaction, wrapped with its type byte, encodes to the documented field layout and decodes back to an equal transaction of the same format, consuming exactly its own bytes. Arbitrary bytes never panic the decoder, an unknown type byte or a truncated transaction is rejected, and accepted bytes re-encode identically. Decoding into a variable used before gives the same result and leaves transactions taken from it earlier as they were.",
 ["inputs"], "for every field value, every data and proof content up to the stated lengths, and every byte string up to the stated length",
 "Two signed transactions are encoded by the wallet tests; nothing ever decodes one.",
 ["wire/tx.go", "wire/tx_basic.go", "wire/tx_extended.go"],
 [("WrapTx codec", "wire/tx.go"), ("struct field order", "wire/tx_basic.go, wire/tx_extended.go")],
 observe=["wire.WrapTx"])

prop("C07", "Accounts encode losslessly and compare by their full content",
 "A basic, vesting or hashed-timelock account, wrapped with its type byte, encodes to the documented field layout, decodes back to an equal account of the same kind, and accepted bytes re-encode identically; unknown type bytes and truncated input are rejected without panicking. Two accounts compare equal exactly when they are of the same kind and agree in every field, that is, exactly when their encodings are identical; a missing account equals nothing. Decoding into a variable used before gives the same result and leaves accounts taken from it earlier as they were.",
 ["inputs"], "for every field value of the three account kinds, every pair of accounts, and every byte string up to the stated length",
 "Account encodings appear in tests only as opaque basic-account blobs; comparison is never tested.",
 ["wire/account.go", "wire/hash.go"],
 [("WrapAccount codec", "wire/account.go"), ("AccountEq", "wire/account.go"), ("Hash codec", "wire/hash.go")],
 observe=["wire.WrapAccount", "wire.AccountEq"])

prop("C08", "Protocol messages round-trip through their type number",
 "For every protocol message kind the library defines, encoding a message yields its 8-byte big-endian type number followed by its body, and decoding that body under that type number yields an equal message of the same kind reporting the same type number. Decoding arbitrary bytes under any type number never panics: unknown type numbers are reported as unknown, bodies with missing or extra bytes are rejected, and accepted bodies re-encode to the same bytes.",
 ["inputs"], "for every message kind and all field contents up to the stated list sizes, every 64-bit type number, and every body up to the stated length",
 "The message layer has no tests at all.",
 ["wire/msg_types.go", "wire/msg.go", "wire/msg_inv.go", "wire/msg_p2p.go"],
 [("UnmarshalMessage/MarshalMessage", "wire/msg_types.go"), ("Type methods", "wire/msg*.go")],
 observe=["wire.MarshalMessage", "wire.UnmarshalMessage"])

prop("C09", "Peer and network addresses survive encoding unchanged",
 "A network address of any of its four kinds and a peer address of the plain, WS and WSS protocols encode and decode back to equal values, with the address kind, IP bytes, protocol, services, timestamp, keys and host/port/TLS details all preserved and the exact byte count consumed. An IPv4 address takes four bytes whichever of its two in-memory lengths it is held in. Arbitrary bytes never panic the decoder, unknown kinds and protocols are rejected, and accepted bytes re-encode identically. Decoding into a variable used before gives the same result and leaves addresses taken from it earlier as they were.",
 ["inputs"], "for every field value, every host up to the stated length, and every byte string up to the stated length",
 "No test touches peer or network addresses.",
 ["wire/p2p.go"],
 [("NetAddress codec", "wire/p2p.go"), ("PeerAddress codec", "wire/p2p.go")],
 observe=["wire.NetAddress", "wire.PeerAddress"])

prop("C10", "Peer address signatures bind protocol, services and timestamp",
 "A peer address signed with a key verifies under that key, carries that key's public key, and its signature covers exactly protocol, services and timestamp: changing any one of these three, the public key or the signature makes verification fail, while changing any other field does not. A peer's identifier is the first 16 bytes of the BLAKE2b hash of its public key.",
 ["inputs"], "for every key, every field value and every change to any field (idealised Ed25519 and BLAKE2b)",
 "Signing and verification of peer addresses are not tested.",
 ["wire/p2p.go"], [("PeerAddress.Sign/VerifySignature", "wire/p2p.go"), ("GetPeerID", "wire/p2p.go")],
 observe=["wire.PeerAddress.Sign", "wire.PeerAddress.VerifySignature", "wire.GetPeerID"])

prop("C11", "Signature proofs name the signer their Merkle path commits to",
 "The signer of a signature proof is the first 20 bytes of the Merkle root obtained by hashing the public key and then, branch by branch, hashing it concatenated with the path's node on the side each branch bit says (node first when the bit is set). With an empty path this is exactly the address of the public key, and changing only the public key, only one path node, or only the direction of a branch whose node differs from the hash beside it names a different signer. Proofs and Merkle paths survive encoding unchanged, and arbitrary bytes never panic their decoder. Decoding into a variable used before gives the same result and leaves proofs taken from it earlier as they were.",
 ["inputs"], "for every public key, every path up to the stated length (decoding: every branch count 0..255) and every byte string up to the stated length (idealised BLAKE2b)",
 "Tests only produce proofs with an empty path and never decode or evaluate one.",
 ["wire/signature.go", "wire/bitset.go", "wire/account.go"], [("MerklePath.ComputeRoot", "wire/signature.go"), ("SignatureProof.SignerAddress", "wire/signature.go"), ("PublicKeyToAddress", "wire/account.go")],
 observe=["wire.SignatureProof.SignerAddress", "wire.MerklePath"])

prop("C12", "Compact targets are faithful, ordered and never crash",
 "Converting any positive target or difficulty to compact form never panics; the compact form's exponent and mantissa denote the target with its low bytes cut off (never more than the target, and less by under one unit of the last mantissa byte), the mantissa's top bit is never set, and a larger target never gets a smaller compact form. The target of a difficulty is the maximum target divided by it, rounded down.",
 ["inputs"], "for every positive target up to the maximum target within the stated byte-length bounds, and every difficulty in the stated range",
 "No test calls the conversion.",
 ["wire/utils.go", "policy/policy.go"], [("TargetToCompact/DifficultyToCompact/DifficultyToTarget", "wire/utils.go")],
 observe=["wire.TargetToCompact", "wire.DifficultyToTarget", "wire.DifficultyToCompact"])

prop("C13", "Key paths convert exactly between bytes, nibbles and hex",
 "Expanding a 20-byte key into nibbles gives its 40 half-bytes in order, collapsing them gives the key back, and compressing any nibble list packs two nibbles per byte (a last odd nibble in the high half) without ever panicking. The hex form is the lower-case hex digit of each nibble; the common prefix of two lists is the longest list that is a prefix of both, and the prefix test is true exactly when the first list starts the second.",
 ["inputs"], "for every 20-byte key and every pair of nibble lists up to the stated length, for both copies of the code",
 "Tests check three keys and three short strings; collapsing, compressing and prefix logic are untested.",
 ["tree/store.go", "wire/nibbles.go"], [("KeyToNibbles/ToKey/Compress/HexBytes/CommonPrefix/PrefixOf", "tree/store.go, wire/nibbles.go")],
 observe=["tree.Nibbles", "wire.Nibbles"])

prop("C14", "Basic accounts move exact amounts and never overspend or wrap",
 "Spending from a basic account succeeds exactly when its balance covers value plus fee computed without overflow, and then leaves exactly the difference; otherwise it reports an error. Receiving adds exactly the value, or reports an error when the sum is not representable. The account passed in is never modified.",
 ["inputs"], "for every balance, value, fee and height, and both transaction formats",
 "Account arithmetic is only exercised through one pruning test with tiny amounts.",
 ["wire/account.go"], [("BasicAccount.ApplyOutgoingTx/ApplyIncomingTx", "wire/account.go")],
 observe=["wire.BasicAccount"])

prop("C15", "Vesting contracts release funds only on schedule and to the owner",
 "A vesting contract lets a spend through exactly when the transaction's proof names the owner and the balance left after value plus fee (computed without overflow) is at least the amount still locked, namely the vesting total minus one step amount per whole step elapsed since the start (nothing is locked if the step length or step amount is zero). A successful spend lowers the balance by exactly value plus fee and changes nothing else; a vesting contract never accepts incoming funds, and no call panics.",
 ["inputs"], "for every contract state, height, value, fee and proof within the stated numeric bounds",
 "No test spends from a vesting contract.",
 ["wire/account.go"], [("VestingAccount.ApplyOutgoingTx/ApplyIncomingTx", "wire/account.go")],
 observe=["wire.VestingAccount"])

prop("C16", "Hashed-timelock contracts pay only the entitled party in its phase",
 "A hashed-timelock contract lets a spend through exactly when its balance covers value plus fee (computed without overflow) and the proof is one of: a regular transfer not after the timeout with matching hash algorithm and root and the recipient as signer; an early resolve signed by recipient and sender; or a timeout resolve after the timeout with the sender as signer. A successful spend lowers the balance by exactly value plus fee and changes nothing else; such a contract never accepts incoming funds, and no proof bytes make it panic.",
 ["inputs"], "for every contract state, height, value, fee and every proof byte string within the stated lengths",
 "No test spends from a hashed-timelock contract.",
 ["wire/account.go"], [("HTLCAccount.ApplyOutgoingTx/ApplyIncomingTx", "wire/account.go")],
 observe=["wire.HTLCAccount"])

prop("C17", "Contract creation data determines the contract exactly",
 "A contract is created from a transaction exactly when its data has one of the documented layouts (vesting: 24, 36 or 44 bytes; hashed-timelock: 78 bytes with a non-zero hash count), and then every contract field holds the documented piece of the data, with vesting defaults of start 0, step amount and total equal to the transaction value where the short forms omit them, and the balance already at the address. Any other data is rejected with an error, never a panic.",
 ["inputs"], "for every data content at every length up to the stated bound, every value and prior balance",
 "One 24-byte vesting creation is pushed and its resulting fields are never inspected.",
 ["wire/account.go"], [("VestingAccount.Init", "wire/account.go"), ("HTLCAccount.Init", "wire/account.go")],
 observe=["wire.VestingAccount.Init", "wire.HTLCAccount.Init", "accounts.Accounts.Push"])

prop("C18", "Applying a block conserves value up to the block reward",
 "When a block is applied successfully, the sum of all account balances grows by exactly the block reward for its height: transferred values and fees only move between accounts, all fees go to the miner, and nothing is created, lost, or wrapped around.",
 ["inputs", "histories"], "for every starting state and every block within the stated numbers of accounts and transactions, every aliasing of sender, recipient and miner, and all amounts",
 "One test pushes two blocks and never inspects a balance.",
 ["accounts/accounts.go", "wire/account.go", "policy/policy.go"],
 [("Push", "accounts/accounts.go"), ("pushInherents", "accounts/accounts.go"), ("Apply*Tx", "wire/account.go")],
 observe=["accounts.Accounts.Push", "accounts.Accounts.GetAccount"])

prop("C19", "A rejected block leaves no trace and no block can crash the node",
 "Applying a block either succeeds or returns an error, and never panics, whatever the block contains, including a missing body, height zero, transfers into contracts, and malformed contract data or proofs. When an error is returned, every account and the state root hash are exactly what they were before.",
 ["inputs", "fault_sequences"], "for every starting state and every block within the stated bounds, with the failure at any phase (sender, recipient, creation, pruning, reward)",
 "Tests only push valid blocks.",
 ["accounts/accounts.go", "wire/account.go"],
 [("Push", "accounts/accounts.go"), ("documented atomic application", "accounts/accounts.go")],
 observe=["accounts.Accounts.Push", "tree.PMTree.Hash"])

prop("C20", "Blocks must list exactly the contracts they empty",
 "A block that empties a contract is accepted only if its prune list contains that contract's address with exactly the emptied contract's remaining content, and the contract is then gone from the state; a block whose prune list names an account that was not emptied by it, or misquotes one, is rejected. Empty basic accounts disappear from the state without being listed, and accounts that are not emptied stay.",
 ["inputs"], "for every contract state, spend and prune list within the stated bounds",
 "The one pruning test stops before the pruning case (marked TODO).",
 ["accounts/accounts.go"], [("pruneAccounts", "accounts/accounts.go"), ("PutAccount", "accounts/accounts.go")],
 observe=["accounts.Accounts.Push", "accounts.Accounts.GetAccount"])

prop("C21", "Block application follows the protocol's phase order",
 "The state after a successfully applied block is exactly that of the protocol's phases run in order over the whole block: every sender is charged value plus fee, then every recipient credited, then contracts created, then emptied contracts removed, then the reward plus all fees credited to the miner. A transaction whose declared sender type, or (unless it creates a contract) recipient type, differs from the account's actual kind makes the block fail, and accounts not involved in the block are untouched.",
 ["inputs", "histories"], "for every starting state and every block within the stated numbers of transactions, all amounts and types and every aliasing of addresses",
 "Only two fixed blocks are pushed and nothing but the absence of an error is checked.",
 ["accounts/accounts.go"], [("Push phases", "accounts/accounts.go"), ("pushTx type check", "accounts/accounts.go")],
 observe=["accounts.Accounts.Push", "accounts.Accounts.GetAccount"])

prop("C22", "Stored accounts read back exactly and empty basic accounts vanish",
 "After an account is stored under an address, reading that address returns an equal account of the same kind and no other address changes; storing nothing or an empty basic account removes the entry, and an address without entry reads as an empty basic account. Emptied contracts stay stored until pruned.",
 ["inputs", "histories"], "for every account content and every sequence of stores within the stated number of addresses and steps",
 "No test reads an account back.",
 ["accounts/accounts.go", "tree/tree.go"], [("GetAccount/PutAccount", "accounts/accounts.go")],
 observe=["accounts.Accounts.GetAccount", "accounts.Accounts.PutAccount"])

prop("C23", "The state tree behaves as a map under any update history",
 "After any sequence of insertions, updates and deletions, reading a key returns the value last written to it, and nothing for a key never written or deleted last. An update reports a change exactly when the stored value differs from before, with writing an empty value meaning deletion.",
 ["inputs", "histories"], "for every sequence of updates within the stated number of steps, keys and key shapes, and every value",
 "Tests insert and delete three fixed keys in three fixed orders and never read a value back.",
 ["tree/tree.go", "tree/store_mem.go", "tree/store.go"], [("PutEntry/GetEntry/update/prune", "tree/tree.go")],
 observe=["tree.PMTree.GetEntry", "tree.PMTree.PutEntry"])

prop("C24", "The root hash is the canonical commitment to the tree's contents",
 "After any sequence of insertions, updates and deletions the root hash equals the hash the protocol defines for the tree built from the final contents alone: leaves hash their path and value, branches hash their path, child count and each child's suffix and hash, single-child branches other than the root are merged away. It therefore depends on the contents and not on the history, and different contents have different root hashes.",
 ["inputs", "histories"], "for every sequence of updates within the stated number of steps, keys and key shapes, and every value (idealised BLAKE2b)",
 "Tests compare the root for three keys in three insertion orders, all sharing one fixed shape, and delete only in one order.",
 ["tree/tree.go", "tree/node.go", "tree/store.go"],
 [("update/invalidatePath/prune/updateHashes", "tree/tree.go"), ("Branch.Hash/Leaf.Hash", "tree/node.go")],
 observe=["tree.PMTree.Hash"])

prop("C25", "Overlay stores isolate changes until they are flushed",
 "A tree on an overlay store reads through to the lower store's contents, and all its changes leave the lower store, its contents and its root hash untouched until the overlay is flushed; discarding the overlay discards them. After a flush the lower store holds exactly the overlay's view, including deletions, the overlay is empty, and both stores return exactly the node last put under a path and nothing after a delete.",
 ["inputs", "histories"], "for every lower content and every sequence of operations within the stated number of steps and keys",
 "The overlay store has no tests.",
 ["tree/store_overlay.go", "tree/store_mem.go", "tree/tree.go"], [("OverlayStore.GetNode/PutNode/DelNode/Flush", "tree/store_overlay.go")],
 observe=["tree.OverlayStore", "tree.PMTree.Hash"])

prop("C26", "Block rewards follow the emission formula and never exceed the cap",
 "For every circulating supply up to the total supply and every height, the reward computed from them is 0 at height 0, the constant tail reward from the tail height on while at least that much remains, and otherwise the remaining supply divided by the emission speed, rounded down. Adding the reward never exceeds the total supply, and the supply between two heights is the sum of the rewards in that half-open range.",
 ["inputs"], "for every supply up to the total supply and every 32-bit height; ranges up to the stated number of blocks",
 "Tests sample fourteen heights of the one canonical history.",
 ["policy/policy.go"], [("BlockRewardBySupply/SupplyBetween", "policy/policy.go")],
 observe=["policy.BlockRewardBySupply", "policy.SupplyBetween"])

prop("C27", "Supply and reward queries do not depend on earlier or concurrent ones",
 "The supply after a height and the reward of a block are functions of the height alone: any sequence of earlier queries, in any order, and any concurrent queries on other goroutines leave every answer the same, equal to the supply obtained by adding up rewards from the initial supply. Concurrent queries are free of data races.",
 ["schedules", "histories", "inputs"], "for every sequence and every interleaving of queries within the stated number of queries, goroutines and height range",
 "Tests query increasing heights once, from one goroutine.",
 ["policy/policy.go"], [("supply cache and its lock", "policy/policy.go")],
 state=[{"name": "supplyCache", "meaning": "supply at each multiple of the cache interval", "where": "policy/policy.go"}],
 observe=["policy.SupplyAfter", "policy.BlockReward"])

prop("C28", "Address text encodes and decodes every address losslessly",
 "Encoding any 20-byte address gives \"NQ\", two check digits, and eight groups of four characters of the address alphabet, separated by single spaces, with the groups being the base-32 digits of the address. Decoding that text, with its spaces removed or further spaces inserted anywhere, gives back the same address.",
 ["inputs"], "for every address and spacing within the stated symbolic-character windows",
 "One address is encoded; benchmarks sample random ones.",
 ["address/address.go"], [("Encode/Decode/addressCheck", "address/address.go")],
 observe=["address.Encode", "address.Decode"])

prop("C29", "Only well-formed addresses with a valid checksum decode",
 "A text decodes exactly when, ignoring spaces, it has 36 characters, starts with \"NQ\", continues with characters of the address alphabet from the fifth character on, and its IBAN-style checksum (rotated by four, letters as 10..35, modulo 97) is 1; in every other case an error is returned and nothing panics. In particular replacing one letter by another letter, or one digit by another digit, of a valid address never goes unnoticed.",
 ["inputs"], "for every text within the stated length and symbolic-character windows",
 "Tests try seven malformed texts.",
 ["address/address.go"], [("Decode/truncateWhitespace/addressCheck", "address/address.go")],
 observe=["address.Decode"])

prop("C30", "Wallet signatures are valid for the signed transaction and signer",
 "A transaction signed by a wallet carries a signature that verifies under the wallet's public key over the transaction's content encoding, and the signer named by an extended transaction's proof is the wallet's address; changing any content field afterwards invalidates it. A wallet refuses to sign a basic transaction whose sender key is not its own, leaving it unmodified, and its address is always the one derived from its public key.",
 ["inputs"], "for every seed, every transaction field and every later change (idealised Ed25519 and BLAKE2b)",
 "Two fixed transactions are signed and compared to golden bytes; nothing is verified or refused.",
 ["wallet/basic.go", "wire/tx.go"], [("SignBasicTx/SignExtendedTx/GetAddress", "wallet/basic.go"), ("TxContent", "wire/tx.go")],
 observe=["wallet.Basic"])

prop("C31", "All views of a transaction agree",
 "The amount, sender, recipient, signing content and extended form of a transaction agree field by field with the transaction itself in both formats: a basic transaction's sender is the address of its key, with basic account types, no data and no flags, and its extended form has the same signing content and a proof that names the same signer with the same signature. The signing content encodes all ten content fields injectively, so two transactions with different content never share signing bytes.",
 ["inputs"], "for every field value of both formats and data up to the stated length (idealised BLAKE2b)",
 "Only the signing bytes of two fixed transactions are covered, indirectly.",
 ["wire/tx.go", "wire/tx_basic.go", "wire/tx_extended.go"], [("AsTxContent/AsExtendedTx/GetSender/GetRecipient/Amount", "wire/tx_basic.go, wire/tx_extended.go")],
 observe=["wire.Tx"])

prop("C32", "Genesis initialisation yields the profile's state or an error",
 "Initialising a state from a genesis profile stores every listed account, applies the genesis block, and succeeds exactly when the resulting root hash equals the one in the genesis block's header; otherwise it reports an error. On success the state is exactly the listed accounts with the genesis block applied.",
 ["inputs"], "for every profile with up to the stated number of accounts, all balances, contract kinds and header hashes (idealised BLAKE2b)",
 "Tests open the two embedded profiles only, so the mismatch path and other account lists are never reached.",
 ["genesis/genesis.go", "accounts/accounts.go"], [("Profile.InitAccounts", "genesis/genesis.go")],
 observe=["genesis.Profile.InitAccounts"])

prop("C33", "Genesis profile files load faithfully",
 "Opening a genesis profile yields the configuration, block and account list that its files contain, with every configuration key honoured, and reports an error for missing, malformed or over-long files.",
 ["configurations", "inputs"], "for every profile directory content",
 "Tests open the two embedded profiles and never look at the configuration.",
 ["genesis/genesis.go"], [("OpenProfile/openProfileFromFS/readConfigFromFS", "genesis/genesis.go")],
 observe=["genesis.OpenProfile"])

prop("C34", "Block replay from an export stops at the first bad block",
 "Replaying a block export applies its blocks in order on top of the genesis state and stops with a failure at the first block that cannot be read, decoded or applied, or whose header's state root differs from the resulting one; it reports the number of blocks and transactions only when all matched.",
 ["inputs", "histories"], "for every export archive",
 "The command is only compiled by the test suite.",
 ["cmd/gimiq/main.go"], [("main loop", "cmd/gimiq/main.go")], observe=["cmd/gimiq"])

prop("C35", "Separate values can be used from separate goroutines",
 "Calls on values that share nothing, made at the same time on different goroutines, are free of data races and give exactly what they give when made alone: encoding, sizing and decoding of every wire and generic type, messages, address texts, signature proofs, peer addresses, wallets, compact targets, rewards, contracts, trees, overlays, states and genesis profiles. Encoding, sizing, comparing and formatting the same value on several goroutines only reads it.",
 ["schedules", "inputs"], "for every pair of calls listed, every interleaving of their synchronisation points, and the stated symbolic contents",
 "No test uses more than one goroutine, and state shared behind a package's functions is invisible to sequential tests.",
 ["beserial/encode.go", "beserial/decode.go", "beserial/size.go", "address/address.go", "wire/msg_types.go", "wire/signature.go", "wire/p2p.go", "wire/account.go", "tree/tree.go", "tree/node.go", "accounts/accounts.go", "wallet/basic.go", "genesis/genesis.go", "policy/policy.go"],
 [("package-level variables", "every package"), ("codec", "beserial/encode.go"), ("tree hashing", "tree/node.go")],
 observe=["beserial.Marshal", "beserial.Unmarshal", "address.Encode", "address.Decode", "tree.PMTree", "accounts.Accounts.Push", "wallet.Basic", "genesis.OpenProfile"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
