#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))

SS="signer/sign_state.go"; LC="signer/local_cosigner.go"; TV="signer/threshold_validator.go"
SER="signer/Serialization.go"; RS="signer/raft_store.go"; RE="signer/raft_events.go"
REM="signer/remote_signer.go"; CFG="cmd/horcrux/cmd/config.go"; ST="cmd/horcrux/cmd/state.go"
CO="signer/Cosigner.go"; START="cmd/horcrux/cmd/cosigner.go"; SGN="cmd/horcrux/cmd/signer.go"
KS="signer/cosigner_key_shares.go"; CK="signer/cosigner_key.go"; GS="signer/grpc_server.go"

p("P01","A cosigner never signs conflicting data for one height, round and step",
  "Once a cosigner has produced a signature share for a height, round and step (vote type or proposal), it never again produces a share for data at that same position that differs in anything other than the timestamp. This holds whatever votes and proposals it is asked to sign afterwards, in whatever order, and whether it signed the first one itself or learned it from the cluster or from its state file. A recorded position whose data is not known is never signed.",
  ["inputs","histories"],"every pre-existing sign state and every later vote or proposal (all heights, rounds, block IDs, POL rounds, timestamps)",
  "The tests sign exactly one message per cosigner; no test presents a second, conflicting message, and the watermark test body is commented out.",
  [LC,SS,SER],[("check against the last sign state before signing",LC+" sign"),("compare-except-timestamp",SS+" onlyDifferByTimestamp")],
  [("share sign state","highest position signed and the bytes signed there",SS+" SignState")],["share-signing request result"])
p("P02","A cosigner never signs below its watermark",
  "A cosigner answers a request whose height, round and step is lower than the highest position it has signed or learned with an error, returns no signature share for it, and its watermark stays where it was. A request that is answered with a share leaves the watermark at exactly that request's position, or already there.",
  ["inputs","histories"],"every pre-existing sign state and every vote or proposal",
  "No test asks a cosigner for a lower position than one already signed.",
  [LC,SS],[("height/round/step comparison",SS+" CheckHRS"),("save refuses regressions",SS+" GetErrorIfLessOrEqual")],
  [("watermark","height, round, step",SS+" SignState")],["share-signing request result","sign state after the request"])
p("P03","A sign state accepts only strictly higher positions",
  "Saving a position into a sign state succeeds if and only if it is strictly above the current one in (height, round, step) order, and then the state holds exactly the saved position, signature and sign bytes. Otherwise the state, its file and the signatures on record are left entirely unchanged and an error is returned, which identifies the case of an equal position.",
  ["inputs","histories"],"every current state and every saved position, over the full 64-bit and 8-bit ranges",
  "Tests only save increasing positions of a few small values.",
  [SS],[("lexicographic comparison",SS+" GetErrorIfLessOrEqual"),("guarded mutation",SS+" Save")],
  [("watermark","height, round, step, signature, sign bytes",SS+" SignState")],["Save result and state"])
p("P04","A signature is never released before its watermark is on disk",
  "When a save of a sign state reports success, when a cosigner returns a signature share, or when a replicated watermark has been applied, the sign-state file already holds a position at least as high; and whatever the timing of later saves, the file never goes back to a lower one. A crash at any moment followed by a restart therefore never forgets a signature that was given out.",
  ["crash_points","schedules","histories"],"every interleaving of savers and crash after any released signature",
  "Tests never crash or reload between signing and looking; they sleep before reading the file.",
  [SS,LC],[("write sign state on save",SS+" Save/save")],[("state file","persisted watermark",SS+" filePath")],["state file content at the moment of return"])
p("P05","Persisted sign state reloads unchanged and is never silently lost",
  "Loading a sign-state file written by the signer yields the same height, round, step, signature, sign bytes and ephemeral key, and the reloaded state recognises the signature stored at that position. A missing or unreadable file makes loading fail; load-or-create keeps a readable file's contents and otherwise starts from the zero position.",
  ["inputs","histories","fault_sequences"],"every sign state content; file missing, unreadable, malformed or well-formed",
  "Tests reload only zero states or one fixed height.",
  [SS],[("save/load pair",SS+" save, LoadSignState, LoadOrCreateSignState")],[],["LoadSignState / LoadOrCreateSignState result"])
p("P06","The signature cache returns exactly what was recorded, for recent heights",
  "After any sequence of saves, looking up a position returns the signature and sign bytes recorded for exactly that position, together with the latest position, or nothing if none was recorded. Entries no more than three heights below the latest stay available and older ones are dropped.",
  ["inputs","histories"],"every sequence of up to three saves on any start state and any looked-up position",
  "No test reads the cache.",
  [SS],[("cache insert and eviction",SS+" Save"),("lookup",SS+" GetFromCache")],[("cache","recent signatures by position",SS)],["GetFromCache result"])
p("P07","The signing position is read correctly from every message",
  "For every vote and proposal a chain node can ask to have signed, the height, round, step and timestamp that a cosigner derives from the canonical sign bytes are those of the message itself, for every chain ID. Bytes that are neither a canonical vote nor a canonical proposal produce an error and never crash the signer.",
  ["inputs"],"all heights, rounds, vote types, nil and non-nil block IDs, timestamps and chain IDs, and arbitrary byte strings",
  "Three fixed messages with small values and one chain ID are tried.",
  [SER,SS],[("decode sign bytes",SER+" UnpackHRST"),("step mapping",SS+" VoteToStep, CanonicalVoteToStep, ProposalToStep")],[],["UnpackHRST result"])
p("P08","Only-differs-by-timestamp is decided exactly",
  "Two sign-byte strings for the same position count as differing only by timestamp if and only if they decode to the same kind of message and agree in every field other than the timestamp. Anything else, including nil versus non-nil block, another block, another POL round, another chain ID or undecodable bytes, is reported as a conflict.",
  ["inputs"],"every pair of votes or proposals, and undecodable bytes",
  "No test exercises the comparison.",
  [SS],[("field comparison after equalising timestamps",SS+" checkVoteOnlyDifferByTimestamp, checkProposalOnlyDifferByTimestamp")],[],["OnlyDifferByTimestamp result"])
p("P09","An ephemeral nonce is never used to sign two different messages",
  "A cosigner never produces two signature shares for different messages (or for the same message under different combined nonces) from one and the same of its own ephemeral secrets, whatever requests it receives. Doing so would reveal its private key share.",
  ["inputs","histories"],"every pair of sign requests following any nonce exchange, including equal-but-differently-encoded messages and extreme timestamps",
  "Tests sign one message per nonce.",
  [LC],[("nonces keyed by height, round, step, timestamp",LC+" hrsMeta, dealShares, sign")],[("nonce table","dealt secrets by position and timestamp",LC+" hrsMeta")],["signature shares returned"])
p("P10","Only authentic nonce parts are used",
  "A nonce part is used by a cosigner only if it carries a valid signature by the key of the cosigner it claims to come from, over exactly its contents, and decrypts under the receiver's key. A sign request containing any other part (forged, altered, unsigned, from an unknown cosigner, or encrypted for somebody else) is answered with an error, no signature share, and an unchanged watermark.",
  ["inputs","fault_sequences"],"every choice and combination of tampered fields of a part, for every source",
  "Tests only ever deliver honest parts.",
  [LC],[("verify source signature, decrypt, store",LC+" setEphemeralSecretPart")],[],["SetEphemeralSecretPartsAndSign result"])
p("P11","Nonce parts go to the right recipients and stay consistent",
  "Asked for nonce parts, a cosigner returns exactly one part per other configured cosigner, addressed to it, encrypted so that only that cosigner can read it, carrying that cosigner's own share of the secret and signed by the sender. Repeating the request for the same position and timestamp, as long as the cosigner has signed nothing higher, yields parts of the same secret; a different position or timestamp yields an independent one. Any threshold of the shares, and no fewer, determine the secret.",
  ["inputs","configurations","histories"],"every cosigner id, cluster size up to the bound, and pairs of positions/timestamps",
  "Tests use the two-cosigner exchange once.",
  [LC],[("deal, encrypt, sign parts",LC+" dealShares, getEphemeralSecretPart, GetEphemeralSecretParts")],[],["GetEphemeralSecretParts result"])
p("P12","Any threshold of cosigners running the protocol yields a valid signature",
  "For any subset of cosigners of threshold size and any vote or proposal above their watermarks, exchanging nonce parts within the subset and signing gives shares that combine into a signature valid for exactly that message under the validator key. Repeating the same request afterwards returns the same share and ephemeral key.",
  ["inputs","configurations","histories"],"every threshold-size subset for the bounded cluster sizes, all messages, and a repeat of the request",
  "Tests run one fixed subset and one fixed message.",
  [LC,TV],[("sum of nonce shares and public parts, share signing",LC+" sign"),("combination",TV+" SignBlock")],[],["shares and combined signature"])
p("P13","A signature reported as success is valid for the returned message",
  "Whenever the threshold validator answers a vote or proposal request without error, the returned signature is non-empty and verifies under the validator's public key for the message as returned, including its timestamp. An invalid combination is never returned, cached or broadcast.",
  ["inputs","histories","fault_sequences"],"every previous sign state and in-progress position, every message, every set of cosigner responses including bad ones",
  "Tests issue one honest request per validator.",
  [TV],[("verify before saving and returning",TV+" SignBlock"),("reuse of existing signatures",TV+" getExistingBlockSignature")],
  [("last signed / initiated states","leader's view",TV)],["SignVote/SignProposal/SignBlock result"])
p("P14","The leader never re-opens an older or conflicting position",
  "The leader starts gathering signature shares only for positions above every one it has started before, except to re-sign the position it last started with data that differs only by timestamp from what was signed there. Any other request is answered from the recorded signature for identical data, or with an error, without contacting the cosigners.",
  ["inputs","histories","schedules"],"every pair of requests in sequence and concurrently, on every start state",
  "No test sends a second request to a validator.",
  [TV,SS],[("initiated watermark",TV+" SaveLastSignedStateInitiated"),("existing signature lookup",TV+" getExistingBlockSignature")],[],["SignBlock result, calls made to cosigners"])
p("P15","Signing succeeds when, and only when, a threshold of cosigners takes part",
  "If the leader's own cosigner and at least threshold minus one peers answer correctly, a new block is signed no matter which of the remaining peers fail or stay silent at the first step. With fewer valid participants the request ends in an error, not a crash, a hang or a signature, nobody is asked to sign before a threshold has answered the first step, and at most threshold cosigners are asked to sign.",
  ["fault_sequences","schedules","configurations"],"every combination of peer failures for the bounded cluster sizes and every order of their answers",
  "Tests have all peers answering; no failure is ever injected.",
  [TV],[("wait for threshold-1 nonce responses, then threshold signatures",TV+" SignBlock, waitForPeerEphemeralShares, waitForPeerSetEphemeralSharesAndSign")],[],["SignBlock result, calls received by cosigners"])
p("P16","A follower relays requests to the leader unchanged and never signs itself",
  "A node that is not the raft leader never starts signing on its own: it passes the chain ID and the complete block (height, round, step, sign bytes, timestamp) unchanged to the leader and returns exactly the leader's signature, or an error if the leader refuses or cannot be reached. A node that has no raft yet answers with an error.",
  ["inputs","fault_sequences","schedules"],"every block, every raft state, leader answers and failures",
  "Tests run single-node raft where the node is always leader.",
  [TV,RE,GS],[("proxy to leader",TV+" SignBlock; "+RE+" LeaderSignBlock"),("server side",GS+" SignBlock")],[],["request seen by the leader, result on the follower"])
p("P17","Cosigner messages survive the wire unchanged",
  "Every position, nonce part, sign request, block and response sent between cosigners arrives with every field unchanged after conversion to and from the wire format, for every value that fits it (32-bit numbers, timestamps in int64 nanoseconds), and lists keep their length and order.",
  ["inputs"],"all field values, lists up to the bound",
  "No test converts to or from the wire format.",
  [CO,GS,"signer/remote_cosigner.go",TV],[("toProto/FromProto pairs",CO),("server adapters",GS),("client adapters","signer/remote_cosigner.go")],[],["message received by the remote cosigner and result seen by the caller"])
p("P18","The replicated store is deterministic and snapshots are faithful",
  "Replaying the same command log on any node gives the same key-value contents: the last set wins, delete removes, and unknown or malformed entries change nothing and do not crash. A snapshot taken at any point and restored on another node reproduces exactly the contents at that point, unaffected by later writes, and watermark events are never retained as stored values.",
  ["histories","inputs","crash_points"],"every command sequence up to the bound, with a snapshot at any point",
  "One set and one delete are tried; snapshots are never taken.",
  [RS,RE],[("apply",RS+" Apply, applySet, applyDelete"),("snapshot/restore",RS+" Snapshot, Persist, Restore")],[("m","replicated map",RS)],["Get after replay/restore"])
p("P19","A broadcast watermark advances every cosigner that applies it",
  "When a node applies a broadcast signed position, its validator state and its cosigner's share state are both at least at that position afterwards, and from then on its cosigner signs nothing lower and nothing conflicting at that position. A leader that reports a signature has broadcast its position. Replayed, reordered, duplicated or malformed broadcasts never lower either state and never crash the node.",
  ["histories","schedules","fault_sequences"],"every pair of broadcasts in any order on every pair of start states, and later requests",
  "No test delivers a broadcast to a second node.",
  [RE,TV,LC,SS],[("LSS event handler",RE+" handleLSSEvent"),("emit",TV+" SignBlock; "+RS+" Emit")],[],["both sign states after apply"])
p("P20","Every chain-node request gets one matching response and cannot crash the signer",
  "Each message received from a chain node is answered by one response of the corresponding kind: on success it carries the signed vote or proposal (same contents, plus signature) or the public key and no error; on failure it carries an error and no signature. No message, including ones with missing or invalid fields or unknown kinds, crashes the signer.",
  ["inputs","fault_sequences"],"every message kind and field value, every outcome of the underlying validator",
  "The remote signer has no tests.",
  [REM,SS,TV],[("dispatch and response building",REM+" handleRequest and handlers")],[],["response message"])
p("P21","Requests to the private validator are served one at a time",
  "Whatever number of chain nodes ask concurrently, at most one vote, proposal or key request is inside the underlying validator at any time, each caller gets the result of its own request, and the guard is released after every outcome, including a panic.",
  ["schedules","fault_sequences"],"all interleavings of three concurrent callers with any outcome",
  "Nothing tests the guard.",
  ["signer/PvGuard.go"],[("mutex","signer/PvGuard.go")],[],["calls observed by the wrapped validator"])
p("P22","Key sharding honours exactly the requested threshold and share count",
  "Splitting a validator key into n shares with threshold t either fails or yields exactly n key files numbered 1..n of a t-of-n sharing of that key, each holding its own share, the common public key, its own RSA key and all RSA public keys in order of number. Impossible or unrepresentable requests are rejected rather than silently changed.",
  ["inputs","configurations"],"every threshold and share count an operator can type",
  "No test creates shares through the command.",
  [KS,"cmd/horcrux/cmd/key2shares.go"],[("dealing and numbering",KS+" CreateCosignerShares")],[],["returned cosigner keys"])
p("P23","A key share file round-trips exactly",
  "Writing a cosigner key to a file and loading it yields the same public key, secret share, RSA private key, number and list of RSA public keys in the same order. A file with a corrupted or missing key is rejected with an error instead of loading partially.",
  ["inputs","fault_sequences"],"all ids, share bytes, and peer lists up to the bound; corruption of any key field",
  "One fixture file is loaded without checking its contents.",
  [CK,KS],[("MarshalJSON/UnmarshalJSON",CK)],[],["LoadCosignerKey result"])
p("P24","Only safe cosigner configurations are accepted",
  "A cosigner configuration that passes validation has a chain ID, a threshold not larger than the number of cosigners, peers with pairwise distinct numbers between 1 and the number of shares with at least one number left for the local node, a valid timeout, and only parseable chain-node addresses; every configuration with these qualities passes.",
  ["inputs","configurations"],"every configuration with up to the bounded number of peers and nodes",
  "A handful of configurations are tried; ordering of good and bad entries is not.",
  [CFG],[("validation",CFG+" validateCosignerConfig, validateCosignerPeers, duplicatePeers, validateChainNodes")],[],["validation result"])
p("P25","Configuration edits do exactly what was asked, or nothing",
  "Adding nodes or peers results in the old list followed by the new entries, removing results in the old list without the named entries, and set-shares and chain-id change only that value, and a chain-id change carries the node's recorded sign states along to the new name and never replaces those of another chain; the file written equals the configuration in memory. An edit that is rejected leaves the configuration and its file untouched, and no edit leaves an invalid peer set or empties a list.",
  ["inputs","configurations","histories"],"every existing configuration and argument list up to the bound",
  "A fixed sequence of edits with fixed addresses is tried.",
  [CFG],[("set difference and validation",CFG+" diffSetChainNode, diffSetCosignerPeer, addNodesCmd, removeNodesCmd, addPeersCmd, removePeersCmd, setSharesCmd, setChainIDCmd")],[],["config and config file after the command"])
p("P26","Setting the state height never lowers the watermark and is durable",
  "When the state-set command finishes, both the validator and share state files hold a position at least as high as before, and exactly the requested height with no stale signature if that height is above both, in which case it is carried out, in the default home directory as well as in one given on the command line. It refuses to run while the signer is running or if either file cannot be read, and then changes neither file.",
  ["inputs","crash_points","fault_sequences"],"every pair of existing states, every height argument, each file missing or unreadable",
  "One height on zero states is tried, after sleeping for the write to happen.",
  [ST,SS],[("load, save both",ST+" setStateCmd")],[],["state files at command exit"])
p("P27","A cosigner starts only with its own readable watermark and consistent wiring",
  "Starting a cosigner never begins serving unless the share sign-state file could be read, and then serves with exactly that watermark, its own key share and, for every configured peer, the RSA key with that peer's number. Everything reachable from the network is fully wired before it can be reached, and peers with numbers that have no key are refused.",
  ["configurations","fault_sequences","schedules"],"every configuration and key up to the bound, state file present/missing/corrupt, and every start-up interleaving",
  "No test starts a cosigner.",
  [START],[("start-up sequence",START+" StartCosignerCmd")],[],["services started, states they hold"])
p("P28","A restarted single signer keeps its watermark",
  "In single-signer mode, a signer restarted with an existing state file continues from the height, round and step recorded there, so that it refuses what it would have refused before the restart.",
  ["crash_points","histories"],"every recorded state",
  "No test starts the single signer.",
  [SGN],[("load validator and state",SGN+" StartSignerCmd")],[],["watermark of the validator that serves requests"])
p("P29","Concurrent requests cannot bypass a cosigner's double-sign protection",
  "When several requests reach one cosigner at the same time (sign requests, nonce requests and broadcast watermarks), the outcome is the same as for some one-after-another order: two conflicting messages for one position are never both signed, the watermark ends at the highest signed position, and no request is left hanging.",
  ["schedules","inputs"],"all interleavings of two or three concurrent requests with arbitrary contents",
  "No test calls a cosigner concurrently.",
  [LC,SS],[("lastSignStateMutex",LC)],[],["results of the concurrent requests and final watermark"])
p("P30","The cluster never produces two conflicting signatures for one position",
  "With a threshold larger than half of the cosigners, no sequence of leader changes, lost or delayed broadcasts, unanswering peers, restarts and competing leaders lets the cluster as a whole put two valid validator signatures on the same height, round and step for data that differs in more than the timestamp, and once a position is signed, no conflicting request for it succeeds at any node.",
  ["histories","schedules","fault_sequences"],"every pair and triple of requests at any nodes, every choice of leader, of reached nodes and of answering peers, restarts in between, and two leaders at once",
  "Tests run one validator with one request; no test has a second leader, a second request for a position or a restart.",
  [TV,LC,SS,RS,RE],[("quorum of cosigners, each refusing conflicts",TV+" SignBlock; "+LC+" sign"),("watermark broadcast",RE+" handleLSSEvent")],
  [("last sign states","one per validator, one per cosigner",SS+" SignState")],["signatures returned by the validators of all nodes"])
p("P31","Leadership moves only to the named cosigner, among the configured members",
  "Every raft node starts with exactly the configured cosigners as members, itself included, each once under its own number and at its own address. An election asked for on the command line reaches the current leader, whichever node that is, with the name that was typed; a leader asked to hand over to a named cosigner hands over to exactly that one (and keeps leadership if that is itself), one asked without a name hands over to another member, and a node that does not lead changes nothing.",
  ["inputs","configurations"],"every set of cosigner numbers and addresses, every leader, every node asked and every name",
  "No test transfers leadership; the only raft test has a single member.",
  [GS,RS,"cmd/horcrux/cmd/leader_election.go"],[("transfer",GS+" TransferLeadership"),("membership",RS+" Open"),("request","cmd/horcrux/cmd/leader_election.go leaderElectionCmd")],[],["raft leader and membership afterwards"])
p("P32","Every chain node has its own connection, restored after every failure",
  "A started signer connects to every configured chain node and answers the requests on each connection one by one. Whatever goes wrong with one node (it cannot be reached, the handshake fails, it sends half a request or none, or its connection breaks before, while or after a request is served) keeps no other node waiting, leaves no failed connection open, and is followed by another attempt until that node is served again; a request that arrived whole is put to the validator once. A stopped signer serves no further connection.",
  ["fault_sequences","inputs"],"every sequence of connection failures at a node up to the bound, at any place of the configuration, with any requests in between",
  "The remote signer has no tests.",
  [REM],[("connection loop",REM+" loop, StartRemoteSigners")],[],["connections and responses seen by the chain nodes"])
p("P33","Initialisation writes what was asked for and never resets a signer",
  "When the configuration is initialised successfully, the file reads back as exactly what was given (chain ID, chain nodes, key file, and for a cosigner the threshold, listen address, time-out and peers, with one share for each peer and one for itself), and the chain's validator sign state, and for a cosigner its share sign state, exist: a readable one that was there before is unchanged, a new one is at the zero position. An existing configuration is replaced only if overwriting was asked for, and a refused initialisation leaves configuration and sign states as they were.",
  ["inputs","configurations"],"every combination of proper and improper arguments with a home directory that is new or holds a configuration and sign states at any positions",
  "The tests run init a few times in an empty directory and look at whether it fails, not at what is written or overwritten.",
  [CFG,SS],[("init command",CFG+" initCmd"),("load or create",SS+" LoadOrCreateSignState")],[],["config.yaml and the state files after the command"])
p("P34","Every signature share is protected by the cosigner's own nonce",
  "Whenever a cosigner answers a sign request with a signature share, the nonce of that share combines a secret of its own for that position and timestamp with the nonces of exactly the parts it was given for it, whichever parts arrived, in whatever order, before or with the request, and whether or not it was ever asked for its own parts. Nobody who dealt, recorded or replays the parts of others can therefore compute a cosigner's key share from what it signs.",
  ["inputs","histories"],"every order of being asked for parts, receiving parts of any others for this or another attempt (perhaps meant for somebody else) and the sign request with any subset of parts, also after a restart",
  "The tests follow the regular protocol, in which every cosigner is asked for its own parts first.",
  [LC],[("dealing",LC+" dealShares"),("signing",LC+" sign")],[("nonce metadata","one entry per position and timestamp",LC+" hrsMeta")],["the ephemeral public key of a response against those of the parts"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
