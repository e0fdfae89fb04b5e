"""The RSocket 1.0 frame layouts and the public constructors and accessors of the frame types.

Written from the protocol specification, independently of the code under analysis.
"""

IGNORE, METADATA, FOLLOWS, RESUME, RESPOND, COMPLETE, LEASE, NEXT = 0x200, 0x100, 0x80, 0x80, 0x80, 0x40, 0x40, 0x20
MAX31 = (1 << 31) - 1
MAX63 = (1 << 63) - 1

# argument kinds: sid r31 n31 (r31, must not be 0) r63 u32 u16 bool bytes optbytes payload flags version
# wire kinds: r31 r63 u32 u16 lp16 lp8, ("version", arg)
FRAMES = [
    dict(ty="SetupFrame", variant="Setup", code=0x01, conn=True, ctype="SETUP", args=None,
         wire=[("u16", "major"), ("u16", "minor"), ("r31", "keepalive"), ("r31", "lifetime"), ("opt16", "token", RESUME), ("lp8", "mmime"), ("lp8", "dmime")],
         flags={RESUME: ("some", "token"), LEASE: ("is", "lease"), METADATA: ("meta",)}, tail="payload",
         acc=[("is_lease", ("flag", LEASE)), ("is_resume", ("flag", RESUME)), ("version", ("version", "major", "minor")),
              ("keepalive_interval", ("ms", "keepalive")), ("keepalive_timeout", ("ms", "lifetime")), ("resume_token", ("opt", "token")),
              ("metadata_mimetype", ("ascii", "mmime")), ("data_mimetype", ("ascii", "dmime")),
              ("metadata", ("pmeta",)), ("data", ("pdata",)), ("payload", ("payload",))]),
    dict(ty="LeaseFrame", variant="Lease", code=0x02, conn=True, ctype="LEASE", args=[("ttl", "r31"), ("requests", "r31"), ("metadata", "optbytes")],
         wire=[("r31", "ttl"), ("r31", "requests")], flags={METADATA: ("some", "metadata")}, tail="optmeta",
         acc=[("ttl", ("ms", "ttl")), ("number_of_requests", ("int", "requests")), ("metadata", ("opt", "metadata"))]),
    dict(ty="KeepaliveFrame", variant="Keepalive", code=0x03, conn=True, ctype="KEEPALIVE",
         args=[("position", "r63"), ("data", "optbytes"), ("respond", "bool")],
         wire=[("r63", "position")], flags={RESPOND: ("is", "respond")}, tail="data",
         acc=[("last_received_position", ("int", "position")), ("data", ("opt", "data")), ("is_respond", ("flag", RESPOND))]),
    dict(ty="RequestResponseFrame", variant="RequestResponse", code=0x04, conn=False, ctype="REQUEST_RESPONSE",
         args=[("sid", "sid"), ("follows", "bool"), ("payload", "payload")],
         wire=[], flags={FOLLOWS: ("is", "follows"), METADATA: ("meta",)}, tail="payload",
         acc=[("stream_id", ("int", "sid")), ("is_follows", ("flag", FOLLOWS)), ("metadata", ("pmeta",)), ("data", ("pdata",)), ("payload", ("payload",))]),
    dict(ty="RequestFnfFrame", variant="RequestFnf", code=0x05, conn=False, ctype="REQUEST_FNF",
         args=[("sid", "sid"), ("follows", "bool"), ("payload", "payload")],
         wire=[], flags={FOLLOWS: ("is", "follows"), METADATA: ("meta",)}, tail="payload",
         acc=[("stream_id", ("int", "sid")), ("is_follows", ("flag", FOLLOWS)), ("metadata", ("pmeta",)), ("request_data", ("pdata",)), ("payload", ("payload",))]),
    dict(ty="RequestStreamFrame", variant="RequestStream", code=0x06, conn=False, ctype="REQUEST_STREAM",
         args=[("sid", "sid"), ("follows", "bool"), ("n", "n31"), ("payload", "payload")],
         wire=[("r31", "n")], flags={FOLLOWS: ("is", "follows"), METADATA: ("meta",)}, tail="payload",
         acc=[("stream_id", ("int", "sid")), ("is_follows", ("flag", FOLLOWS)), ("initial_request_n", ("int", "n")), ("metadata", ("pmeta",)),
              ("data", ("pdata",)), ("payload", ("payload",))]),
    dict(ty="RequestChannelFrame", variant="RequestChannel", code=0x07, conn=False, ctype="REQUEST_CHANNEL",
         args=[("sid", "sid"), ("follows", "bool"), ("complete", "bool"), ("n", "n31"), ("payload", "payload")],
         wire=[("r31", "n")], flags={FOLLOWS: ("is", "follows"), COMPLETE: ("is", "complete"), METADATA: ("meta",)}, tail="payload",
         acc=[("stream_id", ("int", "sid")), ("is_follows", ("flag", FOLLOWS)), ("is_complete", ("flag", COMPLETE)), ("initial_request_n", ("int", "n")),
              ("metadata", ("pmeta",)), ("data", ("pdata",)), ("payload", ("payload",))]),
    dict(ty="RequestNFrame", variant="RequestN", code=0x08, conn=False, ctype="REQUEST_N", args=[("sid", "sid"), ("n", "n31")],
         wire=[("r31", "n")], flags={}, tail=None, acc=[("stream_id", ("int", "sid")), ("request_n", ("int", "n"))]),
    dict(ty="CancelFrame", variant="Cancel", code=0x09, conn=False, ctype="CANCEL", args=[("sid", "sid")],
         wire=[], flags={}, tail=None, acc=[("stream_id", ("int", "sid"))]),
    dict(ty="PayloadFrame", variant="Payload", code=0x0A, conn=False, ctype="PAYLOAD", args=[("sid", "sid"), ("flags", "flags"), ("payload", "payload")],
         wire=[], flags={FOLLOWS: ("bit", "flags", 7), COMPLETE: ("bit", "flags", 6), NEXT: ("bit", "flags", 5), METADATA: ("meta",)}, tail="payload",
         acc=[("stream_id", ("int", "sid")), ("is_follows", ("flag", FOLLOWS)), ("is_complete", ("flag", COMPLETE)), ("is_next", ("flag", NEXT)),
              ("metadata", ("pmeta",)), ("data", ("pdata",)), ("payload", ("payload",))]),
    dict(ty="ErrorFrame", variant="Error", code=0x0B, conn=False, ctype="ERROR", args=[("sid", "sid"), ("code", "u32"), ("data", "optbytes")],
         wire=[("u32", "code")], flags={}, tail="data",
         acc=[("stream_id", ("int", "sid")), ("error_code", ("int", "code")), ("data", ("opt", "data")), ("data_utf8", ("utf8", "data"))]),
    dict(ty="MetadataPushFrame", variant="MetadataPush", code=0x0C, conn=True, ctype="METADATA_PUSH", args=[("metadata", "bytes")],
         wire=[], flags={METADATA: ("always",)}, tail="metadata", acc=[("metadata", ("bytes", "metadata"))]),
    dict(ty="ResumeFrame", variant="Resume", code=0x0D, conn=True, ctype="RESUME",
         args=[("version", "version"), ("token", "bytes"), ("server", "r63"), ("client", "r63")],
         wire=[("u16", "major"), ("u16", "minor"), ("lp16", "token"), ("r63", "server"), ("r63", "client")], flags={}, tail=None,
         acc=[("version", ("version", "major", "minor")), ("resume_token", ("bytes", "token")), ("last_received_server_position", ("int", "server")),
              ("first_available_client_position", ("int", "client"))]),
    dict(ty="ResumeOkFrame", variant="ResumeOk", code=0x0E, conn=True, ctype="RESUME_OK", args=[("position", "r63")],
         wire=[("r63", "position")], flags={}, tail=None, acc=[("last_received_server_position", ("int", "position"))]),
]
BY_TY = {f["ty"]: f for f in FRAMES}
EXT = 0x3F
CODES = {f["ctype"]: f["code"] for f in FRAMES}
CODES["EXT"] = EXT

# lengths a prefix can carry
LIMIT = {"token": 65535, "mmime": 255, "dmime": 255, "metadata": (1 << 24) - 1}

# error codes: name -> (code, level)
ERRORS = {"INVALID_SETUP": 0x001, "UNSUPPORTED_SETUP": 0x002, "REJECTED_SETUP": 0x003, "REJECTED_RESUME": 0x004,
          "CONNECTION_ERROR": 0x101, "CONNECTION_CLOSE": 0x102,
          "APPLICATION_ERROR": 0x201, "REJECTED": 0x202, "CANCELED": 0x203, "INVALID": 0x204}
STREAM0_ERRORS = [0x001, 0x002, 0x003, 0x004, 0x101, 0x102]
STREAM_ERRORS = [0x201, 0x202, 0x203, 0x204]
