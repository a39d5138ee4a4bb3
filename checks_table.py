# Per property: how its check is run and what it must have observed to count.
HON = ("Two real endpoints (random versions, capabilities, algorithms, chains, measurement sets, both transports) run a random "
       "sequence of operations; a reference model replays every frame. Non-trivial and distinct: a run whose sequence of frames "
       "(first bytes of every request and response) no other run had.")
MON = "runtime monitoring: real endpoints under random, hostile and stress workloads, judged online by a reference model of the protocol"
NOTE = ("Exploration: holds on the executions observed. Trusts the harness's reference model and its stand-in cryptography "
        "(real SHA-2, HMAC and HKDF; toy AEAD, signatures and DH with the library's callback interface).")
NOT_APPLICABLE = {
    "C27": "nothing of it can be executed here: the tdisp crate takes no part in the repository's build and does not compile against the spdmlib of this tree (written for an older interface; 52 errors), and the executables that would use it need submodules that are absent",
}
PUP = (" Further cases: the harness itself plays the requester against a real responder, with legal, illegal, damaged, replayed, "
       "mis-keyed and oversized requests in every state, each answer judged by the model. Non-trivial and distinct: a run whose "
       "sequence of requests and answers no other run had.")
FAKE = (" Further cases: the harness plays the responder against a real requester, honest or hostile at a random step (wrong "
        "contents everywhere, correctly signed and sealed or not, errors, silence, replays, damage), each outcome judged by the model. "
        "Non-trivial and distinct: a run whose sequence of operations, attacks and results no other run had.")
ADV = ("Two real endpoints joined by an adversary that drops, repeats, reorders, replays, injects, damages or coherently rewrites frames "
       "(random frames, the n-th frame of a code, or a consistent rewriting of the negotiation); the oracle compares, byte for byte, what "
       "each side sent with what the other received for everything a successful authentication covers. Non-trivial and distinct: a run "
       "whose sequence of operations, changes and results no other run had.")
FLT = (" Further cases (C23: all): an honest run is repeated with services of one or both endpoints failing (every kind of call equally likely, "
       "once, several times or from then on); the operation hit must fail cleanly, others must be untouched, and a new connection must work in "
       "full. Non-trivial and distinct: a run whose operations, failing calls and results no other run had.")
FRM = ("Messages of random and boundary sizes are wrapped and unwrapped by both transports with buffers of every interesting size, and hostile frames (wrong type, "
       "vendor, object type, length, truncated, extended, random) are unwrapped; each result is compared with an independent reading of the binding "
       "specifications; further cases check every frame two real endpoints send. Non-trivial and distinct: a message, a frame or a sequence of real frames no other case had.")
X509 = ("Certificate chains - generated, and the certificates in the repository - and structural mutations of them (lengths, tags, elements removed, doubled, swapped, emptied, "
        "cut at every byte) are given to the format check; the verdict is compared with an independent DER reading that says conforming, not conforming or no opinion. "
        "Non-trivial and distinct: a chain and algorithm whose bytes no other evaluation had.")
CODEC = ("One description of the layouts produces random well formed messages of every kind (33 message codes, encapsulated and vendor payloads, opaque data, measurement records, "
         "algorithm structures, integers) under random negotiated parameters and reads any bytes: these messages, cut at every byte, with bytes behind them, damaged, read under other "
         "parameters, and random bytes are decoded, re-encoded into exact, larger and every too small buffer, and decoded again. Non-trivial and distinct: a well formed message no other case had.")
SEC = (" Every secret that passes the cryptographic services (shared secret, every derivation, PSK secrets; first and last 12 bytes) is followed with the sessions it belongs to: "
       "the allocator knows every heap block the library holds and searches every block it frees for any secret; after each operation the blocks and context objects of both ends are searched "
       "for secrets of sessions that are gone; every frame sent is searched for any secret.")
NOTE2 = "Exploration: holds on the executions observed. Trusts the harness's independent reading of the format."
REQ = ["attacked operations refused", "operations that succeeded", "ERROR responses mapped", "recoveries with an honest responder"]
RSP = ["exchanges checked", "illegal requests refused", "legal requests served", "msg established", "damaged request"]
PROPS = {
    "C01": dict(rule=HON, need=["op init", "op challenge", "op start_session", "op start_session psk", "op app data", "op key_update all", "op end_session", "records opened"]),
    "C02": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg version", "msg capabilities", "msg algorithms", "unusual algorithm offer"]),
    "C03": dict(rule=ADV, need=["authentications", "authentications under attack", "rounds attacked", "frames attacked", "sessions established at the responder, checked", "undisturbed rounds"]),
    "C04": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg challenge", "msg signed measurements", "msg key_exchange", "signatures produced"]),
    "C05": dict(rule=FAKE.strip(), need=REQ + ["attack chain", "attack certificate", "attack signature", "msg certificate"]),
    "C06": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg established", "msg finish", "wrong finish"]),
    "C07": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg key_exchange", "msg psk_exchange", "msg established", "msg key_update"]),
    "C08": dict(rule=HON + PUP + FAKE + FLT + " Further cases: " + ADV, need=["attacked operations refused", "rounds attacked", "operations hit", "records opened", "msg key_update"]),
    "C09": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "records opened", "op app data", "records that must be ignored"]),
    "C10": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg key_update", "op key_update single", "op key_update all"]),
    "C11": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg end_session", "msg established"]),
    "C12": dict(rule=PUP.strip(), need=RSP),
    "C13": dict(rule=HON + PUP, need=["exchanges checked", "responses too large for the requester", "illegal requests refused"]),
    "C14": dict(rule=PUP.strip(), need=RSP + ["recoveries by an honest requester"]),
    "C15": dict(rule=FAKE.strip(), need=REQ + ["attack record", "attack key exchange", "attack measurements", "attack no answer"]),
    "C16": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg digests", "msg certificate"]),
    "C17": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg measurements", "msg signed measurements"]),
    "C18": dict(rule=CODEC, need=["accepted", "refused", "round trips", "encodings into too small a buffer", "messages cut short", "damaged messages accepted",
                "messages with bytes behind them", "reader and writer sequences", "random bytes", "message 60", "message 63", "message 64", "message 66", "VendorReq", "SupVer", "Record"], note=NOTE2),
    "C19": dict(rule=FRM, need=["messages unwrapped", "buffers too small for a frame refused", "buffers too small for a message refused", "messages too large for the transport refused",
                "frames refused: empty", "frames refused: of another message type", "frames refused: of another vendor", "frames refused: of another object type",
                "frames refused: shorter than its length field"], note=NOTE2),
    "C20": dict(rule=X509, need=["judged strictly conforming", "judged not conforming", "chains from certificates on disk", "refused for: no public key", "refused for: another version",
                "refused for: a leaf signature algorithm that is not the selected one"], note=NOTE2),
    "C21": dict(rule=HON + PUP + FAKE + FLT, need=["attacked operations refused", "fresh fields checked", "failures of the random source"]),
    "C22": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg established", "wrong encapsulated exchange"]),
    "C23": dict(rule=FLT.strip(), need=["operations hit", "recoveries", "failed Req rand", "failed Rsp rand", "failed Req send", "failed Rsp send",
                "failed Req recv", "failed Req verify", "failed Rsp sign", "failed Req dhe_final", "failed Rsp psk_hs", "failed Req hkdf_expand",
                "failed Rsp meas", "failed Req verify_chain", "failed Req encrypt", "failed Rsp decrypt", "hit start_session", "hit key_update all"]),
    "C24": dict(technique=MON + "; allocator that searches freed and held memory for registered secrets", rule=HON + PUP + FAKE + FLT + " Further cases: " + ADV + SEC, note=NOTE + " Copies on the stack and in registers, and secrets shorter than 12 bytes, are not searched for.",
                need=["blocks freed by the library and searched", "frames searched", "searches of both ends", "blocks held by the library searched", "secrets of released sessions sought",
                      "secret dhe_secret", "secret psk_hs", "secret psk_ms", "secret hkdf_extract", "secret hkdf_expand", "msg end_session", "hit start_session", "op end_session"]),
    "C25": dict(rule=FAKE.strip(), need=REQ + ["attack ERROR 06", "attack ERROR 42", "attack ERROR 43", "attack no answer"]),
    "C26": dict(rule=HON + PUP + FAKE, need=["attacked operations refused", "msg vendor"]),
}
for _p in PROPS.values():
    _p.setdefault("technique", MON)
    _p.setdefault("note", NOTE)
