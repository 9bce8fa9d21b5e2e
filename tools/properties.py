#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os, sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    e=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: e["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(e)

p("C01","Consensus objects have Grin's wire format and survive a round trip",
 "Every header, proof of work, input, output, kernel, block, compact block and transaction encodes to exactly the bytes of the Grin wire format (field order, widths, big-endian numbers, packed edge nonces, counts, sorted lists). Decoding those bytes consumes exactly them and gives back the same object, with every field equal and times in UTC.",
 ["inputs"],"all field values, edge sizes 1 to 32, times, lists of any length up to the counts' limits, duplicates",
 "The tests decode and re-encode one recorded block and one transaction; widths, bit packing for other edge sizes, large and empty lists and extreme field values are never reached.",
 ["consensus/block.go","consensus/transaction.go","consensus/proof.go","consensus/locator.go"],
 [("Bytes and Read of every object","consensus/block.go, transaction.go, proof.go"),("edge nonce packing","consensus/proof.go ProofBytes, Read")],
 ["Bytes() and Read() of the exported types"])
p("C02","P2P messages have Grin's layout and survive a round trip",
 "Ping, pong, address requests, addresses (IPv4 and IPv6), header requests, headers, block requests and error messages carry their type number and encode to exactly the bytes of the protocol. Decoding those bytes consumes exactly them and gives back the same fields.",
 ["inputs"],"all field values, list lengths from 0 to the protocol's limits, IPv4 and IPv6 addresses, strings with any bytes",
 "The tests cover one or two fixed messages; no test has IPv6 addresses, full lists, or strings.",
 ["p2p/messages.go","p2p/helpers.go","consensus/locator.go"],
 [("Bytes and Read of every message","p2p/messages.go"),("address (de)serialisation","p2p/helpers.go")],
 ["Bytes(), Read(), Type() of the messages; addresses through the peers table"])
p("C03","A decoder accepts a message only if it re-encodes to the bytes it read",
 "Whatever bytes arrive, decoding a message accepts them exactly when they start with a valid encoding of it: malformed prefixes, flags, lengths, unordered transaction lists, non-zero padding and out-of-range counts are rejected, valid encodings never are. What is accepted re-encodes (lists in the order received) to exactly the bytes that were consumed.",
 ["inputs"],"arbitrary and near-valid byte strings, delivered in pieces of any size, for every message type",
 "The tests feed valid messages only; malleable or lenient decoding shows on inputs near the valid ones, of which there are too many to list.",
 ["consensus/block.go","consensus/transaction.go","consensus/proof.go","consensus/locator.go","p2p/messages.go","p2p/helpers.go"],
 [("validation in Read of every object","consensus, p2p")],["Read() followed by Bytes()"])
p("C04","No bytes from a peer make a decoder crash, hang or hoard memory",
 "Decoding any byte string as any message returns, with an error or a message that can be hashed, printed, re-encoded and validated; it never panics, ends the process, or loops. Truncated messages are errors, the protocol's limits on counts and string lengths are enforced, and the memory used is in proportion to the bytes received, not to the lengths announced.",
 ["inputs"],"arbitrary bytes, corrupted and truncated encodings, extreme lengths and counts, broken readers",
 "The tests never feed malformed input.",
 ["consensus/block.go","consensus/transaction.go","consensus/proof.go","consensus/locator.go","p2p/messages.go","p2p/helpers.go"],
 [("limits on counts","Read of the lists"),("bounded strings","p2p/helpers.go readString")],["Read() of every message, and Hash, String, Bytes, Validate of what was accepted"])
p("C05","Framing: a stream of frames is read and written frame by frame",
 "Reading a message from a stream takes exactly its frame, whatever the message makes of the body, so that the next read starts at the next frame, and reports the bytes taken; writing produces exactly magic, type, length and body and reports the bytes written. Wrong magic, an unexpected type, a length over the limit, and frames that are cut short or whose writing fails are errors, and a bad frame never makes reading continue into the next one.",
 ["inputs","fault_sequences"],"sequences of frames with any bodies, over- and undersized bodies, corrupted frame headers, fragmented delivery, writers that fail at any byte",
 "The tests frame single messages into a buffer.",
 ["p2p/protocol.go","p2p/messages.go"],[("ReadMessage, WriteMessage","p2p/protocol.go"),("Header.Read, Header.Write","p2p/messages.go")],["ReadMessage, WriteMessage, Header"])
p("C06","Lists are in consensus order on the wire, whatever their order in memory",
 "Inputs, outputs and kernels of blocks, compact blocks and transactions are always written sorted by their hashes, and short ids as they are sorted, so that permuting a list doesn't change the encoding. A transaction whose lists arrive out of order is rejected, one whose lists are in order is accepted.",
 ["inputs"],"lists of any length with duplicates, all permutations, lists that are out of order in one place only",
 "The tests have one sorted transaction; order mistakes show on particular pairs of hashes.",
 ["consensus/block.go","consensus/transaction.go","consensus/id.go"],[("Less of the lists","consensus/block.go, id.go"),("sorting in Bytes, checks in Read","consensus/block.go, transaction.go")],["Bytes() of shuffled objects, Read() of unordered ones, the lists' sort.Interface"])
p("C07","Short ids are the first six bytes of SipHash-2-4 keyed by the block hash",
 "The short id of a hash in a block is the SipHash-2-4 of the hash under the key made of the block hash's first 16 bytes as two little-endian numbers, cut to its low six bytes, little-endian. Computing it changes neither hash.",
 ["inputs"],"all hashes and block hashes","The tests compare three constants.",
 ["consensus/id.go"],[("ShortID","consensus/id.go")],["Hash.ShortID"])
p("C08","Cuckoo verifiers accept exactly the simple cycles of the keyed graph",
 "The verifiers for Cuckoo and Cuckaroo accept a list of nonces exactly when they are strictly ascending, within the graph's allowed range, and their edges, computed with SipHash from the key as specified, form one simple cycle through all of them. Branching, joined, disjoint, dangling, repeated or reordered edge sets are rejected without panic.",
 ["inputs"],"all keys, edge sizes and nonce lists; graphs with real cycles of 4 to 64 edges, and near-misses of them",
 "The tests verify a handful of recorded 42-cycles and one or two bad ones.",
 ["cuckoo/cuckoo.go","cuckoo/siphash24.go"],[("Verify of both graphs","cuckoo/cuckoo.go"),("edge generation","cuckoo/cuckoo.go NewEdge, siphash24.go")],["Verify, NewEdge, SipHash24"])
p("C09","Hashes are Blake2b-256 of exactly the bytes that identify the object",
 "A block's identity is the Blake2b-256 of its packed proof of work, the same for the header, the block and the compact block and after decoding, and every bit of every edge nonce counts while nothing else does. Inputs and kernels hash their encoding; outputs hash theirs without the range proof.",
 ["inputs"],"all headers and items","The tests compare one or two recorded hashes.",
 ["consensus/block.go","consensus/proof.go"],[("Hash methods","consensus/block.go, proof.go")],["Hash() of headers, blocks, inputs, outputs, kernels, proofs"])
p("C10","The proof of work binds every bit of the header",
 "A mined header's proof of work is valid; changing any bit of any other part of the header, or the edge nonces (flip, swap, repeat, drop, truncate), or the edge size, or moving the proof to another header makes the proof and the header invalid. The proof must be a cycle of exactly 42 edges.",
 ["inputs"],"every bit and byte range of the header and the proof of real mined headers",
 "One recorded block is validated; no test changes anything in it.",
 ["consensus/proof.go","consensus/block.go","cuckoo/cuckoo.go"],[("Proof.Validate","consensus/proof.go"),("bytesWithoutPOW","consensus/block.go")],["Proof.Validate, BlockHeader.Validate"])
p("C11","A header is accepted exactly if it obeys the header rules",
 "A header is valid exactly when its version is right for its height under the hard fork schedule, its time is at most 12 minutes ahead of the clock, its edge size is 29, or at least 30 with a scaling of 1, and its proof of work is good. Nothing else about it or the time of validation matters.",
 ["inputs","configurations"],"versions and heights around every fork, times around the limit, edge sizes and scalings, with real proofs of work",
 "Header validation is tested on one block at the present time; it takes mined headers at other versions, sizes and times to reach the rest.",
 ["consensus/block.go","consensus/consensus.go"],[("BlockHeader.Validate","consensus/block.go"),("ValidateBlockVersion","consensus/block.go")],["BlockHeader.Validate under a simulated clock, ValidateBlockVersion"])
p("C12","A block is accepted exactly if it obeys the block rules",
 "A block is valid exactly when its header is, it has at least one output and one kernel, its lists are in consensus order, it has at most one coinbase output and one coinbase kernel, every range proof proves its output's commitment, every commitment is on the curve and every kernel's signature is right. Validating doesn't change the block.",
 ["inputs"],"blocks with real proofs of work, range proofs and signatures, and any one fault in any item",
 "One recorded block is validated; a block with one fault in one item needs valid proofs everywhere else to be meaningful.",
 ["consensus/block.go"],[("Block.Validate and the checks it calls","consensus/block.go")],["Block.Validate"])
p("C13","Kernel signatures are verified and made as specified, and only by the key",
 "A kernel is valid exactly when its signature is the Schnorr signature of fee and lock height under its excess, a curve point; changing the fee, lock height, excess or signature invalidates it. Signatures that gringo makes decode to themselves and verify, for that key and message only.",
 ["inputs"],"all keys, nonces, fees and lock heights; every bit of signature and key; excesses that are not on the curve",
 "The tests check one or two fixed signatures.",
 ["consensus/block.go","secp256k1zkp/schnorr.go"],[("TxKernel.Validate","consensus/block.go"),("SignMessage, VerifySignature, DecodeSignature","secp256k1zkp/schnorr.go")],["TxKernel.Validate, SignMessage, VerifySignature, DecodeSignature, ComputeMessage"])
p("C14","Pedersen commitments commit: vG*H as defined, homomorphic and binding",
 "The commitment to a value under a blinding factor is blind*G + value*H for the specified generators, the sum of two commitments is the commitment to the sums, and different openings give different commitments. It is serialised as Grin does, and computing it doesn't change the opening.",
 ["inputs"],"all blinding factors and 64-bit values, including zero and openings that cancel",
 "There is no test of commitments.",
 ["secp256k1zkp/pedersen.go","secp256k1zkp/constants.go"],[("CommitValue","secp256k1zkp/pedersen.go"),("generators","secp256k1zkp/constants.go")],["CommitValue, Point.Bytes, Output.BytesWithoutProof"])
p("C15","The next difficulty follows the damped, bounded moving average",
 "The difficulty of the next block is the specified function of the latest 71 blocks, latest first: the average difficulty of the latest 60 scaled by the damped and clamped time between the medians at both ends of the window, at least one, and one for shorter histories. Older blocks don't count, it moves by at most a factor of two from the average, and the list isn't changed.",
 ["inputs","histories"],"histories of 0 to 140 blocks with any spacing, jitter, order of times and difficulties",
 "One test runs it on an even history.",
 ["consensus/difficulty.go"],[("NextDifficulty","consensus/difficulty.go")],["NextDifficulty"])
p("C16","A hash's difficulty is the maximum target divided by its first 64 bits",
 "The difficulty of a hash is 0x0fffffffffffffff divided by its first eight bytes as a big-endian number (by one if that is zero), whatever the receiver, and a proof's difficulty is that of its hash. It never panics.",
 ["inputs"],"all hashes, in particular around powers of two and zero","The tests check one hash.",
 ["consensus/difficulty.go","consensus/proof.go"],[("FromHash","consensus/difficulty.go"),("ToDifficulty","consensus/proof.go")],["Difficulty.FromHash, FromNum, IntoNum, Proof.ToDifficulty"])
p("C17","Peers get the headers after the first locator hash we know, and blocks by id",
 "For a locator, the chain returns the headers that follow the first of its at most 14 hashes that the chain knows, in order, at most 512 of them, and none if it knows no hash. A block is found by hash, height or both, and only if all that is given matches; asking changes nothing.",
 ["inputs","histories"],"chains of 1 to 600 blocks, locators with known, unknown and repeated hashes of any length",
 "There is no test of it; the limits show on long chains only.",
 ["chain/chain.go","chain/storage.go"],[("GetBlockHeaders, GetBlock, GetBlockID","chain/chain.go")],["Chain.GetBlockHeaders, GetBlock, GetBlockID over a model of the storage"])
p("C18","A block joins the chain only if its rules and its place in the chain allow it",
 "A block is accepted exactly when it is valid by itself and either is the present tip, or has an unknown parent, or follows its parent: later than it, with the total difficulty that its proof of work adds to the parent's, and with at least the difficulty that the parent's history demands. A rejected block changes nothing, and the chain stays usable afterwards.",
 ["inputs","histories"],"valid blocks on chains of up to 80 ancestors and with later blocks, with any one property of the link broken; blocks that resemble the tip",
 "There is no test of it: it takes mined blocks with valid bodies on top of chains with full difficulty windows.",
 ["chain/chain.go"],[("ProcessBlock","chain/chain.go")],["Chain.ProcessBlock, then the state of the chain"])
p("C19","Validating the chain finds any bad or missing block below the head",
 "Validating a chain succeeds exactly when every block from the head down to the chain's genesis block is found, linked by hash and valid by itself. It changes nothing, can be repeated, and leaves the chain usable.",
 ["inputs","histories"],"chains of mined blocks with any one block bad, missing, or leading to another genesis block",
 "There is no test of it.",
 ["chain/chain.go"],[("Validate","chain/chain.go")],["Chain.Validate"])
p("C20","A list of headers is accepted exactly if every header is valid",
 "Processing a list of headers from a peer succeeds exactly when each of them obeys the header rules, wherever a bad one is. It doesn't change the chain.",
 ["inputs"],"lists of 0 to 12 mined headers, with bad ones at any place",
 "There is no test of it.",["chain/chain.go"],[("ProcessHeaders","chain/chain.go")],["Chain.ProcessHeaders"])
p("C21","A new chain takes up where the storage left off",
 "A chain that is opened on a storage reports the height, total difficulty and head of the storage's last block, or of the genesis block if there is none, and the genesis block it was given. Opening it writes nothing. The genesis blocks of the known networks are complete: a chain on any of them can serve its genesis and what follows it, and they stay the blocks that those networks started with.",
 ["inputs"],"all genesis blocks and last blocks, and those of the known networks","There is no test of it.",
 ["chain/chain.go"],[("New","chain/chain.go")],["chain.New, Height, TotalDifficulty, Head, Genesis"])

p("C22","A connection needs a complete handshake with the same version and genesis",
 "Dialling or accepting a connection succeeds exactly when the other side sends one well-formed greeting of the right kind with our protocol version and genesis block, however it is cut into pieces; then the peer has the version, capabilities, total difficulty and user agent that were sent, and later messages are processed. In all other cases (malformed, oversized, wrong, silent or closed) it fails within a bounded time, closes the connection and processes nothing. Our own greeting is well-formed, with our version, capabilities, addresses and genesis, and a nonce by which we recognise and refuse connections to ourselves.",
 ["inputs","fault_sequences"],"all greetings and corruptions of them, any fragmentation, hang-ups and silence at any byte, messages right behind the greeting, both directions",
 "There is no test of handshakes; it takes a second node that misbehaves at every point.",
 ["p2p/handshake.go","p2p/peer.go"],[("shakeByHand, handByShake","p2p/handshake.go"),("NewPeer, AcceptNewPeer","p2p/peer.go")],["p2p.NewPeer, AcceptNewPeer over loopback sockets"])
p("C23","Every message has exactly its effect, in order, and the answer it asks for",
 "A connected peer's messages take effect in the order they were sent, each exactly once: pings get one pong with the chain's present height and total difficulty, requests for addresses, headers and known blocks get one answer with what the table or the chain holds, headers, blocks and transactions reach the chain and the mempool unchanged, addresses reach the table, and pings, pongs and blocks update what we know of the peer. Nothing else is sent, and every message we are asked to send goes out whole and once.",
 ["inputs","histories"],"histories of all message types with any contents, in one or many pieces, with and without a mempool",
 "There is no test of message processing.",
 ["p2p/sync.go","p2p/peer.go","p2p/pool.go"],[("ProcessMessage","p2p/sync.go"),("readHandler, Send...","p2p/peer.go"),("connectPeer","p2p/pool.go")],
 ["the bytes on a peer's connection, the calls of the chain and the mempool, the peers table"])
p("C24","A peer that sends something invalid is banned for good, and only that peer",
 "When a block, list of headers or transaction of a peer is rejected, the peer's address is banned: its connection is closed, nothing that it sent afterwards takes effect, it is neither listed nor given to others, and neither adding it again nor other peers' address lists make us connect to it again. The same holds for banning an address explicitly, whether it is known, connected or being connected. Other peers stay connected and are served as before; a single rejected header notification bans nobody.",
 ["inputs","histories","schedules"],"message histories around an offence, bans at any moment of a connection, attempts to get back",
 "There is no test of banning; it needs a running node with misbehaving peers.",
 ["p2p/pool.go","p2p/sync.go"],[("Ban, IsBan, Add","p2p/pool.go"),("ProcessMessage","p2p/sync.go")],["the running node: connections, IsBan, PeerInfo, Peers"],
 [("BannedPeers","addresses that must not come back","p2p/pool.go")])
p("C25","The peers table holds exactly the usable addresses it was given",
 "An address is in the table exactly if it was added, resolves, isn't multicast or port 0, isn't banned, and the table wasn't full; adding it again changes nothing. Listing peers gives at most 256 different addresses, all of them in the table, with all the capabilities that were asked for, and none that is banned or that can't be reached; with fewer of them, all are listed. The entry of a connected peer has the version and capabilities that it sent. The table never holds over 10,000 addresses, also when several goroutines use it.",
 ["inputs","histories","schedules"],"sequences of additions, bans and listings with usable, unusable, equal and many addresses, also concurrent ones",
 "There is no test of the table.",
 ["p2p/pool.go"],[("Add, Ban, IsBan, Peers, PeerInfo","p2p/pool.go")],["Pool.Add, Ban, IsBan, Peers, PeerInfo"],
 [("PeersTable","all known addresses","p2p/pool.go")])
p("C26","The node keeps up to 15 connections and always gets back to that",
 "A running node never keeps more than 15 connections. While it has fewer and its table has a peer that accepts connections, it connects to one soon, whatever failed before: refused connections, bad handshakes, hang-ups, an empty table and bans cost no capacity for ever. It keeps at most one connection to an address.",
 ["fault_sequences","histories","schedules"],"any sequence of failing, hanging up, returning and newly added peers",
 "There is no test of the connection manager; capacity that leaks shows only after 15 failures.",
 ["p2p/pool.go"],[("Run, connectPeer, notConnected","p2p/pool.go")],["the connections that scripted peers see"],
 [("pool","taken connection slots","p2p/pool.go")])
p("C27","Concurrent sending and closing never blocks for ever or tears frames",
 "Sending from any number of goroutines, closing, disconnecting and waiting for the end of a connection all return in any interleaving, also with a peer that hangs up, sends garbage, or doesn't read and is then closed. The peer receives whole frames only, of what was sent, each at most once and in each sender's order, all of them if the connection stays up. After closing, the connection is closed and waiting for it returns.",
 ["schedules","fault_sequences"],"numbers of senders, message sizes, moments of closing and of the peer's misbehaviour",
 "There is no test of concurrency.",
 ["p2p/peer.go"],[("WriteMessage, writeHandler, Disconnect, WaitForDisconnect","p2p/peer.go")],["p2p.Peer's methods and the bytes on the connection"])
p("C28","Stopping the node ends all its activity, whatever it is doing",
 "After Stop, Run returns, every connection is closed and no new one is made, whether the node was stopped before, while or after connecting, with silent, busy, failing or banned peers. Nothing panics or deadlocks.",
 ["schedules","fault_sequences"],"moments of stopping, states of the peers",
 "There is no test of stopping.",
 ["p2p/pool.go","p2p/sync.go"],[("Run, Stop","p2p/pool.go")],["Syncer.Run, Stop and the connections of scripted peers"])
p("C29","A new top block is passed on once to every connected peer that is behind",
 "When a peer sends a block that the chain accepts and that is at the chain's height, it is sent, unchanged and exactly once, to each connected peer whose last known height or total difficulty is below the block's, and to no other peer. Rejected blocks and blocks that aren't at the chain's height are not passed on.",
 ["inputs","histories"],"numbers of peers, their claimed heights and total difficulties, sequences of blocks above, at and below them and the chain",
 "There is no test of propagation; it needs several peers.",
 ["p2p/sync.go","p2p/pool.go"],[("ProcessMessage","p2p/sync.go"),("PropagateBlock","p2p/pool.go")],["the frames that scripted peers of a running node receive"])
p("C30","Malformed traffic ends that peer's connection and nothing else",
 "A frame with wrong magic, an unknown type, a length over 20,000,000 or a body that isn't a valid message ends that peer's connection, without any effect of the frame or of what follows; well-formed frames before it have their effect. Whatever bytes a peer sends, the node doesn't crash, other peers are served as before, and the chain stays usable.",
 ["inputs","fault_sequences"],"valid traffic with corrupted, truncated and random frames at any place, against a node with a real chain",
 "There is no test with malformed input.",
 ["p2p/peer.go","p2p/messages.go","p2p/sync.go","chain/chain.go"],[("readHandler","p2p/peer.go")],["a running node over loopback sockets"])
p("C31","Results depend on the arguments only, not on what is done before or meanwhile",
 "Encoding, decoding, framing, hashing, validating, signing and asking the chain give the same results alone, in any order, repeated, and from any number of goroutines at once, also on shared objects. A result that was handed out doesn't change by what is done later, and decoded objects don't depend on the buffer they were read from.",
 ["inputs","histories","schedules"],"mixtures of operations and the order or overlap in which they run",
 "Unit tests run one operation at a time, once, in a fresh process; shared buffers and caches show with the second.",
 ["consensus/block.go","consensus/proof.go","consensus/id.go","p2p/protocol.go","cuckoo/cuckoo.go","chain/chain.go","secp256k1zkp/schnorr.go"],[("Bytes, Read, Hash, Validate of all messages","consensus/block.go"),("WriteMessage, ReadMessage","p2p/protocol.go")],["the results of exported functions and methods"])
p("C32","The nonces of signatures are random",
 "No two signatures of different messages or keys have nonces that are equal, negatives, small multiples or near one another, not in one process, nor from several goroutines, nor in different processes; no nonce is short or can be computed from what is public. Signatures' nonces, and the random scalars and bytes they come from, have no bias in any bit.",
 ["inputs","schedules","histories"],"keys, messages that are nearly the same, orders, goroutines and processes of signing",
 "A test of one signature can't tell a nonce that repeats, and every private key that signed with one is lost.",
 ["secp256k1zkp/schnorr.go"],[("RandomBytes, RandomInt, SignMessage","secp256k1zkp/schnorr.go")],["secp256k1zkp.SignMessage: with the private key, s = k + e x gives the nonce k"])
p("C33","A connection that has ended leaves nothing behind",
 "However a connection ends - closed from either side, reset, half closed, cut inside a frame, ended because of malformed traffic or a failed handshake, while messages are being sent or asked for, or with a peer that doesn't read - the node hangs up its side, and no goroutine and no socket of it remains. The same holds for all connections of a node that is stopped.",
 ["fault_sequences","schedules"],"sets of connections, ways and moments in which they end",
 "There is no test of connections' ends; what is left over matters after days only.",
 ["p2p/peer.go","p2p/pool.go","p2p/handshake.go"],[("Disconnect, readHandler, writeHandler","p2p/peer.go"),("NewPeer, AcceptNewPeer","p2p/peer.go")],["the process's goroutines and sockets; the connections that scripted peers see"])
p("C34","The node program connects to its peer, serves it, and survives whatever it sends",
 "cmd/node, once started, connects to its first peer, introduces itself, answers pings with the state of its chain, locators with headers, and requests for addresses with those it knows, connects to the addresses it is told, comes back after a connection ends, except to a peer that sent an invalid block, and doesn't end, whatever is sent to it.",
 ["inputs","histories"],"histories of valid, malformed and random traffic and of ends of the connection",
 "There is no test of the program; what ends the process can only be seen from outside.",
 ["cmd/node/main.go","p2p/sync.go","storage/mysql.go","chain/chain.go"],[("main","cmd/node/main.go"),("NewSyncer","p2p/sync.go")],["the process and its connections to scripted peers on the loopback interface"])
READY = ["C%02d" % i for i in range(22, 35)]
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for e in P:
            if e["id"] < "C22" or e["id"] in READY:
                f.write(json.dumps(e) + "\n")
