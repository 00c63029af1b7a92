"""What is run for each property."""
import json
import os
from check import G, V, M, K

CHECKS = {}


def check(prop, parts, **kw):
    CHECKS[prop] = dict(parts=parts, **kw)


ROUTER = ["handlers other than the probes of the harness are not involved",
          "the request passes hyper's parser, with the path percent-encoded"]

check("R01", [G("MCRouter", "router", {"wire", "order", "winner", "status"}),
              V("RouterTrace", "router", (8000, 200000), {"wire", "order", "winner", "status"})], assumptions=ROUTER)
check("R02", [G("MCRouter", "router", {"vars"}),
              V("RouterTrace", "router", (8000, 200000), {"vars"})], assumptions=ROUTER)
check("R03", [G("MCRouter", "router", {"links", "restored", "targets"}),
              V("RouterTrace", "router", (8000, 200000), {"links", "restored", "targets"}),
              G("MCCompose", "compose", {"links", "targets"}), V("ComposeTrace", "compose", (6000, 100000), {"links", "targets"})], assumptions=ROUTER)
check("R04", [G("MCRouter", "router", {"modes", "order", "winner", "status"}),
              V("RouterTrace", "router", (8000, 200000), {"modes", "order", "winner", "status"})], assumptions=ROUTER)

check("R05", [G("MCBuilder", "builder"), V("BuilderTrace", "builder", (5000, 100000)), K("builder")],
      assumptions=ROUTER + ["variables are collected next to the handlers, as in the default router (see the known finding for other layouts)"])
COMPOSED = {"wire", "log", "answered", "status", "sent", "restored"}
check("R06", [G("MCCompose", "compose", COMPOSED), V("ComposeTrace", "compose", (8000, 100000), COMPOSED)], assumptions=ROUTER)

LIFE = ["requests are neither HEAD nor HTTP/1.0, and handlers don't preset Transfer-Encoding",
        "filters are deterministic scripts of what they were given and how many times they were called"]


def life(*fields):
    f = set(fields)
    return [G("MCLife", "life", f), V("LifeTrace", "life", (5000, 120000), f, chunk=2500)]


check("R11", life("body", "calls", "status", "hdr"), assumptions=LIFE)
check("R12", life("body", "calls", "status"), assumptions=LIFE)
check("R13", life("results", "written", "body", "crashed"), assumptions=LIFE)
check("R14", life("wire", "status", "hdr", "body", "crashed"), assumptions=LIFE)
check("R15", [G("MCSending", "sending"), V("SendingTrace", "sending", (6000, 200000))],
      assumptions=["I/O errors are those of std; paths and files are in R22"])

TARGET = ["targets are UTF-8, since hyper rejects others", "absolute targets have no dot segments or backslashes, which hyper's URL parser normalizes away"]
check("R07", [G("MCTarget", "target", {"wire", "form", "same", "status", "handled", "path", "views", "fragment", "host", "query"}),
              V("TargetTrace", "target", (4000, 300000), {"wire", "form", "same", "status", "handled", "path", "views", "fragment", "host", "query"})], assumptions=TARGET)
check("R08", [G("MCTarget", "target", {"query", "body"}), G("MCEncoding", "encoding"),
              V("TargetTrace", "target", (4000, 300000), {"query", "body", "roundtrip"})], assumptions=TARGET)

SERVER = LIFE + ["requests are served in memory, through hyper's request parser and response writer, and with real connections where that's said",
                 "the Date header can't be removed, since hyper adds it"]


def server(*fields):
    f = set(fields)
    return [G("MCServer", "server", f), V("ServerTrace", "server", (3000, 60000), f, chunk=1500)]


check("R09", server("events", "truth", "status", "body", "calls", "wire"), assumptions=SERVER)
check("R10", server("storage") + life("storage"), assumptions=SERVER)
check("R16", server("crashed", "crashstatus", "cutoff", "close") + life("crashed", "crashstatus", "cutoff")
      + [G("MCServer", "netserver", {"served", "crashstatus", "cutoff", "ended", "status", "close", "wire"}, cfg="MCServerNet"),
         G("MCServer", "stress", {"close", "status", "crashed"}, cfg="MCServerStress")], assumptions=SERVER)
check("R17", server("close")
      + [G("MCServer", "netserver", {"served", "close", "ended"}, cfg="MCServerNet"), G("MCServer", "stress", {"close"}, cfg="MCServerStress")],
      assumptions=SERVER)
check("R18", life("written", "results", "body", "wire") + [G("MCWriting", "writing"), V("WritingTrace", "writing", (2500, 60000), chunk=2500)],
      assumptions=LIFE + ["adapters of std, over filters that work on single bytes"])
check("R25", server("hdr", "truth", "events") + life("hdr"), assumptions=SERVER)
check("R26", [G("MCFaulty", "faulty"), V("FaultyTrace", "faulty", (2500, 60000), chunk=2500)],
      assumptions=["the failure is permanent; buffering between the response and the connection is either none or unlimited"])
check("R19", [G("MCGlobal", "global"), V("GlobalTrace", "global", (6000, 200000))],
      assumptions=["at most 14 types, and tuples of some patterns of equal types"])
check("R20", [G("MCText", "text"), V("TextTrace", "text", (4000, 200000))],
      assumptions=["values are made by conversions or edits; the public variants are used directly only to compare values, and borrowed buffers are not leaked"])
check("R21", [G("MCParams", "params"), G("MCParams", "params", cfg="MCParamsValues"), V("ParamsTrace", "params", (4000, 200000))],
      assumptions=["typed access is exercised with u8, u16, i8, bool, char and String"])
check("R23", [G("MCPathCheck", "pathcheck"), V("PathCheckTrace", "pathcheck", (10000, 200000))],
      assumptions=["Unix paths; the file system is not looked at, so links inside of the root are not followed"])


def types(ctx):
    """The lines of the bundled type table, for the specification."""
    out = ctx.path("types.ndjson")
    with ctx.lock:
        with open("/repo/build/apache/mime.types", "rb") as f, open(out + ".new", "w") as o:
            for line in f.read().split(b"\n"):
                o.write(json.dumps({"line": list(line)}) + "\n")
        os.replace(out + ".new", out)
    return {"TYPES": out}


check("R22", [G("MCFiles", "files", env=types), G("MCFiles", "files", cfg="MCFileTypes", env=types),
              V("FilesTrace", "files", (3000, 100000), env=types, chunk=5000)],
      assumptions=["regular files that don't change while they are sent; unreadable files are represented by directories, loops and bad names, since everything can be read by root"])
check("R24", [G("MCBody", "body"), G("MCBody", "body", cfg="MCBodyTypes"), G("MCBody", "body", cfg="MCBodyParts"),
              V("BodyTrace", "body", (3000, 100000), chunk=5000)],
      assumptions=["the framing is either a length or chunks, as told apart by hyper",
                   "content types are parsed by the mime library, which drops what follows a quoted value",
                   "parts are split by the multipart library, which may give up when it gets its input in small pieces"])
check("R27", [G("MCWalk", "walk"), G("MCWalk", "walk", cfg="MCWalkDeep", tiers=("thorough",)), V("WalkTrace", "walk", (4000, 100000))],
      assumptions=["a place is only gone back to while the segments before it are still passed in the same way"])
check("R28", [G("MCMock", "mock"), G("MCRouter", "router", {"mock"}),
              V("MockTrace", "mock", (4000, 100000)), V("RouterTrace", "router", (4000, 100000), {"mock"})],
      assumptions=["mocked responses have no filters, since there is no way to give them any"])
check("R29", [G("MCConfig", "config"), G("MCPool", "pool"), V("ConfigTrace", "config", (6000, 150000))],
      assumptions=["how many cores there are is what num_cpus says, also to the implementation",
                   "connections are taken up in the order they came in, as the kernel does it; the TLS implementation is a stand-in that masks every byte"])
SHARED = {"wire", "order", "winner", "status", "vars", "links", "targets", "restored", "modes"}
check("R30", [G("MCShared", "shared"), G("MCShared", "shared", cfg="MCSharedDeep", tiers=("thorough",)),
              V("RouterTrace", "shared", (6000, 150000), SHARED),
              V("ComposeTrace", "sharedcompose", (5000, 100000), COMPOSED | {"links", "targets"}),
              G("MCBuilder", "builder", {"warmed"})],
      assumptions=ROUTER + ["random requests of several threads are interleaved by the operating system"])
