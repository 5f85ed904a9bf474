#!/usr/bin/env python3
"""check.py C01            run the check of a property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE    show again that a recorded violation is rejected"""
import json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from vf import Ctx, CheckError

CHECKS = {}
# property: (modules of the specification, what its check covers)
SPECS = {
    "C08": ("SarTime", "Boundary instants for every type on new and reused objects, seeded instants over 64 bits, any bytes of any length."),
    "C09": ("SarFlags", "Every field and option of every header on several header words, all pairs of settings, every byte value, unknown fields and options."),
    "C10": ("SarFlags", "All sequences of two (thorough: three) list edits and seeded longer ones with similar names; default flags under random settings."),
    "C11": ("SarNode, SarLoop, SarFrames", "All interleavings of three (thorough: four) datagrams of every class on two families; the real node is sent every generated frame and truncation, damaged and random datagrams, control sequences, all small and the largest sizes, and floods from eight sockets, each followed by requests on both families that must be answered."),
    "C12": ("SarNode, SarLoop, SarFrames", "All interleavings of three (thorough: four) datagrams of every class on two families; the real node is sent every generated frame and truncation with every version and type, damaged and random datagrams, control sequences, all small and the largest sizes, over both families; every answer is collected."),
    "C13": ("SarRequests, SarFiles", "All header fields and request types against names of every kind on a small tree, all pairs of requests of two peers and sessions, seeded histories, and concurrent ones explained by some order; seeded histories sent to the running node over both families."),
    "C14": ("SarRequests, SarFiles", "All header fields and request types against names of every kind on a small tree, all pairs of requests of two peers and sessions, seeded histories, and concurrent ones explained by some order; seeded histories sent to the running node over both families."),
    "C15": ("SarRequests, SarFiles", "All header fields and request types against names of every kind on a small tree, all pairs of requests of two peers and sessions, seeded histories, and concurrent ones explained by some order; the whole scratch tree is looked at after each; seeded histories sent to the running node."),
    "C16": ("SarPeers", "All histories of three beacons from two addresses that differ in one thing, seeded longer ones, and concurrent ones explained by some order; the same and seeded datagrams of every kind sent to the running node over both families, whose table is looked at."),
    "C17": ("SarTransfers, SarFiles", "All histories of three starts and removals of every type on a small tree, every type with names of every kind, seeded histories of starts, removals and searches with handles kept across them, command lines, and concurrent calls explained by some order."),
    "C18": ("SarTransfers, SarFiles", "All histories of three starts and removals of every type on a small tree, every type with names of every kind, seeded histories, command lines and concurrent calls; the whole scratch tree is looked at after each."),
    "C19": ("SarStatus, SarFrames", "All ways to cut up to 9 holes into frames of up to 4; every descriptor, timestamp, error code and all-holes flag with hole counts around multiples of what fits, seeded flags, packet sizes from 70 to 60000 bytes, holes up to 2^63."),
    "C20": ("SarCommands", "All single lines and histories of three of every setting command with good, bad and missing words; seeded lines of every command with odd words and spacing on varied settings, lines typed with editing keys, and lines at the same time explained by some order."),
    "C21": ("SarMeta", "All pairs of descriptions of files, directories, pipes and links with one object; seeded contents, sizes to 2^40, times in and out of range, files changing in between."),
    "C22": ("SarConfig", "Every setting and table entry varied, every option of every default flag, damaged and wrongly typed files, all sequences of three copies and changes, seeded longer ones."),
    "C23": ("SarBlocks", "All sequences of four operations on a file with small blocks, seeded longer ones on three files and several handles, with offsets up to the largest."),
    "C24": ("SarBeacons, SarCommands, SarFrames", "All histories of four (replayed: two, and some of three) beacon and setting commands; seeded lists of good and bad addresses in several spellings under seeded settings, counts up to 100, intervals, and commands at the same time explained by some order."),
    "C25": ("SarShare, SarFrames", "All histories of five (thorough: seven) operations of a program with two buffers, two objects and packets passed on, for each kind of frame; those of four (five) are replayed, and seeded ones with three of each; all memory is looked at after every operation."),
    "C26": ("SarShow, SarCommands", "All command lines of up to three words in each of a number of states of the settings, the transfers, the peers and the help; seeded lines in seeded states. Facts shown are compared, not wording."),
    "C27": ("SarEditor", "All sequences of seven (thorough: nine) keys on the model, those of five (six) replayed; seeded editing with any characters, an ASCII and a non-ASCII prompt, and lines wrapped in a wide and in a narrow window."),
    "C28": ("SarSend, SarFrames", "All histories of two good or bad frames of every kind on five sockets, open and closed; seeded frames of any content in sequence and at the same time over both families; all sizes around the packet sizes and the largest datagram."),
    "C29": ("SarWindows", "All histories of five (thorough: six) prints, clears, keys and resizings, those of three replayed; seeded longer ones with messages of any shape, colour and length, and up to four activities printing and clearing at the same time, explained by some order."),
    "C01": ("SarHoles", "All histories of 3 ranges on 6 positions and seeded longer ones, up to the largest integers."),
    "C02": ("SarHoles", "All histories of 3 ranges on 6 positions and seeded longer ones, up to the largest integers."),
    "C03": ("SarWire", "All flag lists of up to two items, boundary values, truncations at every length, damaged and random bytes; histories of buffers, objects and packets that must not share memory."),
    "C04": ("SarWire", "All flag lists of up to two items, boundary values, truncations at every length, damaged and random bytes; histories of buffers, objects and packets that must not share memory."),
    "C05": ("SarWire", "All flag lists of up to two items, boundary values, truncations at every length, damaged and random bytes; histories of buffers, objects and packets that must not share memory."),
    "C06": ("SarWire", "All flag lists of up to two items, boundary values, truncations at every length, damaged and random bytes; histories of buffers, objects and packets that must not share memory."),
    "C07": ("SarWire", "All flag lists of up to two items, boundary values, truncations at every length, damaged and random bytes; histories of buffers, objects and packets that must not share memory."),
}
ASSUME = ["TLC and the Go toolchain are trusted", "the drivers record faithfully what the code returned",
          "only behaviours within the stated bounds and samples were explored"]


def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco


@check("C01", "C02")
def c_holes(c):
    c.model("MCHoles", "MCHoles.cfg")
    scen = c.generate("MCHoles", "GenHoles.cfg")
    c.validate("TraceHoles", c.drive("vlib", ["-what", "holes"], scen=scen, scale=20 if c.thorough else 1), chunk=12000)


KINDS = ("data", "status", "request", "metadata", "beacon")


def sharecfg(kind, depth, keep, what):
    return "SPECIFICATION Spec\nCONSTANTS Kind0 = \"%s\"\n Depth = %d\n Keep = %s\n%s\nCHECK_DEADLOCK FALSE\n" % (
        kind, depth, "TRUE" if keep else "FALSE", what)


def share(c, kinds, thorough):
    scen = c.tmp("scen")
    with open(scen, "w") as f:
        for k in kinds:
            c.model("MCShare", sharecfg(k, 6 if thorough else 5 if len(kinds) > 1 else 4, False, "INVARIANT Genuine\nPROPERTIES OneCell Kept"), "MCShare/" + k, workers=8)
            f.write(open(c.generate("MCShare", sharecfg(k, 4, True, "INVARIANT Emit"), limit=12000 if thorough else 900, workers=4)).read())
    c.validate("TraceShare", c.drive("vlib", ["-what", "share"], scen=scen, scale=20 if thorough else 1), chunk=4000)


@check("C25")
def c_share(c):
    share(c, KINDS, c.thorough)


def sendcfg(depth, keep, what):
    return "SPECIFICATION Spec\nCONSTANTS Depth = %d\n Keep = %s\n%s\nCHECK_DEADLOCK FALSE\n" % (depth, "TRUE" if keep else "FALSE", what)


@check("C28")
def c_send(c):
    c.model("MCSend", sendcfg(3 if c.thorough else 2, False, "INVARIANT Genuine\nPROPERTY OneEach"), workers=8)
    scen = c.generate("MCSend", sendcfg(2, True, "INVARIANT Emit"), limit=8000 if c.thorough else 900, workers=8)
    c.validate("TraceSend", c.drive("vlib", ["-what", "send"], scen=scen, scale=15 if c.thorough else 1), chunk=1500)


FT = {"C03": "data", "C04": "status", "C05": "request", "C06": "metadata", "C07": "beacon"}


def wirecfg(ft, spec, inv, vals, cut=0):
    return "SPECIFICATION %s\nCONSTANTS Vals = {%s}\n MaxCut = %d\n Types = {\"%s\"}\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
        spec, ", ".join(map(str, vals)), cut, ft, inv)


@check(*FT)
def c_wire(c):
    ft = FT[c.prop]
    small = [1, 2, 3, 4, 6] if ft != "status" or c.thorough else [1, 2, 3, 6]
    c.model("MCWire", wirecfg(ft, "MCSpec", "RoundTrip Stable NoGarbling", small, 40), "MCWire/" + ft)
    flags = c.generate("MCWire", wirecfg(ft, "GenSpec", "Emit", [1]), limit=None if c.thorough else 2500)
    frames = c.generate("MCWire", wirecfg(ft, "FrameSpec", "EmitFrame", [1, 2, 3, 4, 5, 6, 7]), limit=None if c.thorough else 1500)
    scen = c.tmp("scen")
    with open(scen, "w") as f:
        f.write(open(flags).read() + open(frames).read())
    c.validate("TraceWire", c.drive("vlib", ["-what", "wire-" + ft], scen=scen, scale=20 if c.thorough else 1))
    share(c, [ft], c.thorough)


@check("C08")
def c_time(c):
    c.model("MCTime", "MCTime.cfg")
    scen = c.generate("MCTime", "GenTime.cfg")
    c.validate("TraceTime", c.drive("vlib", ["-what", "time"], scen=scen, scale=40 if c.thorough else 1))


def flagcfg(kind, spec, what, depth=0):
    return "SPECIFICATION %s\nCONSTANTS Kind = \"%s\"\n Depth = %d\n%s\nCHECK_DEADLOCK FALSE\n" % (spec, kind, depth, what)


@check("C09")
def c_bits(c):
    for k in ("beacon", "request", "metadata", "data", "status", "dirent"):
        c.model("MCFlags", flagcfg(k, "MCSpec", "INVARIANTS Independent NoStray Bytes256 Disjoint"), "MCFlags/" + k, workers=2)
    a = c.generate("MCFlags", flagcfg("data", "GenSpec", "INVARIANT Emit", 2), limit=None if c.thorough else 1200)
    b = c.generate("MCFlags", flagcfg("dirent", "GenSpec", "INVARIANT Emit", 2))
    scen = c.tmp("scen")
    with open(scen, "w") as f:
        f.write(open(a).read() + open(b).read())
    c.validate("TraceFlags", c.drive("vlib", ["-what", "bits"], scen=scen, scale=15 if c.thorough else 1), chunk=12000)


@check("C10")
def c_lists(c):
    c.model("MCFlags", flagcfg("lists", "LSpec", "INVARIANT ListOK\nPROPERTY ReplaceOnlyThat"), "MCFlags/lists")
    scen = c.generate("MCFlags", flagcfg("lists", "LGenSpec", "INVARIANT Emit", 3 if c.thorough else 2), limit=60000)
    c.validate("TraceFlags", c.drive("vlib", ["-what", "lists"], scen=scen, scale=20 if c.thorough else 1), chunk=12000)


@check("C16")
def c_peers(c):
    c.model("MCPeers", "MCPeers.cfg")
    scen = c.generate("MCPeers", "GenPeers.cfg")
    c.validate("TracePeers", c.drive("vlib", ["-what", "peers"], scen=scen, scale=20 if c.thorough else 1), cfg="TraceM.cfg")
    c.validate("TracePeers", c.drive("vtran", ["-what", "nodepeers"], scen=scen, scale=10 if c.thorough else 1, node="nodectl"), cfg="TraceM.cfg", chunk=600)


@check("C23")
def c_blocks(c):
    c.model("MCBlocks", open(vf.SPEC + "/MCBlocks.cfg").read().replace("Depth = 5", "Depth = 5" if c.thorough else "Depth = 4"))
    scen = c.generate("MCBlocks", "GenBlocks.cfg", limit=None if c.thorough else 800)
    c.validate("TraceBlocks", c.drive("vlib", ["-what", "blocks"], scen=scen, scale=20 if c.thorough else 1))


@check("C21")
def c_meta(c):
    c.model("MCMeta", "MCMeta.cfg")
    scen = c.generate("MCMeta", "GenMeta.cfg", limit=None if c.thorough else 1500)
    c.validate("TraceMeta", c.drive("vlib", ["-what", "meta"], scen=scen, scale=20 if c.thorough else 1))


@check("C22")
def c_config(c):
    c.model("MCConfig", "MCConfig.cfg" if c.thorough else open(vf.SPEC + "/MCConfig.cfg").read().replace("Depth = 5", "Depth = 4"))
    scen = c.generate("MCConfig", "GenConfig.cfg", limit=None if c.thorough else 300)
    c.validate("TraceConfig", c.drive("vlib", ["-what", "config"], scen=scen, scale=15 if c.thorough else 1), chunk=800)


def reqcfg(spec, depth, wide, what):
    n = "{1, 2}" if not wide else "{1}"
    return "SPECIFICATION %s\nCONSTANTS Peers = %s\n Sessions = %s\n Depth = %d\n Wide1 = %s\n%s\nCHECK_DEADLOCK FALSE\n" % (
        spec, n, n, depth, "TRUE" if wide else "FALSE", what)


@check("C13", "C14", "C15")
def c_requests(c):
    c.model("MCRequests", reqcfg("MCSpec", 3 if c.thorough else 2, False, "INVARIANTS Safe OnePerKey Total\nPROPERTY Keeps"), workers=8)
    single = c.generate("MCRequests", reqcfg("GenSpec", 1, True, "INVARIANT Emit"), limit=None if c.thorough else 3000)
    pairs = c.generate("MCRequests", reqcfg("GenSpec", 2, False, "INVARIANT Emit"), limit=15000 if c.thorough else 2500, workers=8)
    scen = c.tmp("scen")
    with open(scen, "w") as f:
        f.write(open(single).read() + open(pairs).read())
    c.validate("TraceRequests", c.drive("vtran", ["-what", "requests"], scen=scen, scale=8 if c.thorough else 1, timeout=1500), cfg="TraceM.cfg", chunk=3000)
    c.validate("TraceRequests", c.drive("vtran", ["-what", "nodereq"], scale=10 if c.thorough else 1, node="nodectl"), cfg="TraceM.cfg", chunk=400)


def xfercfg(depth, names, types, keep, what):
    return "SPECIFICATION Spec\nCONSTANTS Depth = %d\n Names = {%s}\n Types = {%s}\n Keep = %s\n%s\nCHECK_DEADLOCK FALSE\n" % (
        depth, names, ", ".join('"%s"' % t for t in types.split()), "TRUE" if keep else "FALSE", what)


@check("C17", "C18")
def c_transfers(c):
    every = "get take getdir put give putblind delete"
    c.model("MCTransfers", xfercfg(4 if c.thorough else 3, "1, 2, 3, 4, 5, 6, 7, 8", every, False,
            "INVARIANTS Untouched NewAreEmpty OnePerFile OnePerKey Fresh\nPROPERTY Small"), workers=8)
    a = c.generate("MCTransfers", xfercfg(2, "1, 2, 3, 4, 5, 6, 7, 8", every, True, "INVARIANT Emit"), limit=None if c.thorough else 1500, workers=4)
    b = c.generate("MCTransfers", xfercfg(4, "1, 2", "get put delete", True, "INVARIANT Emit"), limit=None if c.thorough else 800, workers=8)
    scen = c.tmp("scen")
    with open(scen, "w") as f:
        f.write(open(a).read() + open(b).read())
    c.validate("TraceTransfers", c.drive("vtran", ["-what", "transfers"], scen=scen, scale=10 if c.thorough else 1), cfg="TraceM.cfg", chunk=3000)


@check("C19")
def c_status(c):
    c.model("MCStatus", open(vf.SPEC + "/MCStatus.cfg").read().replace("N = 9", "N = 14" if c.thorough else "N = 9"))
    scen = c.generate("MCStatus", "GenStatus.cfg", limit=None if c.thorough else 4000)
    c.validate("TraceStatus", c.drive("vtran", ["-what", "status"], scen=scen, scale=15 if c.thorough else 1), chunk=1000)


def cmdcfg(depth, keep, what):
    return "SPECIFICATION Spec\nCONSTANTS Depth = %d\n Keep = %s\n%s\nCHECK_DEADLOCK FALSE\n" % (depth, "TRUE" if keep else "FALSE", what)


@check("C20")
def c_commands(c):
    inv = "INVARIANT AlwaysValid\nPROPERTY OnlyNamed"
    c.model("MCCommands", cmdcfg(1, False, inv), "MCCommands/1")
    c.model("MCCommands", cmdcfg(4 if c.thorough else 3, False, inv), "MCCommands/histories", workers=8)
    a = c.generate("MCCommands", cmdcfg(1, True, "INVARIANT Emit"))
    b = c.generate("MCCommands", cmdcfg(2, True, "INVARIANT Emit"), limit=None if c.thorough else 800)
    scen = c.tmp("scen")
    with open(scen, "w") as f:
        f.write(open(a).read() + open(b).read())
    c.validate("TraceCommands", c.drive("vtran", ["-what", "commands"], scen=scen, scale=10 if c.thorough else 1), cfg="TraceM.cfg", chunk=1500)


@check("C24")
def c_beacons(c):
    c.model("MCBeacons", cmdcfg(5 if c.thorough else 4, False, "INVARIANTS Count Genuine Tells\nPROPERTY NothingElse"), workers=8)
    a = c.generate("MCBeacons", cmdcfg(2, True, "INVARIANT Emit"))
    b = c.generate("MCBeacons", cmdcfg(3, True, "INVARIANT Emit"), limit=None if c.thorough else 400)
    scen = c.tmp("scen")
    with open(scen, "w") as f:
        f.write(open(a).read() + open(b).read())
    c.validate("TraceBeacons", c.drive("vtran", ["-what", "beacons"], scen=scen, scale=10 if c.thorough else 1), cfg="TraceM.cfg", chunk=600)


def nodecfg(spec, grams, what):
    return "SPECIFICATION %s\nCONSTANTS Families = {\"v4\", \"v6\"}\n Grams = %d\n Max = 50\n%s\nCHECK_DEADLOCK FALSE\n" % (spec, grams, what)


@check("C11", "C12")
def c_node(c):
    c.model("MCNode", nodecfg("MCNodeSpec", 4 if c.thorough else 3, "INVARIANTS OnceEach Lively\nPROPERTY Served"), "MCNode/loop", workers=8)
    c.model("MCNode", nodecfg("GenSpec", 0, "INVARIANTS OneVerdict NoPingPong Short"), "MCNode/datagrams")
    scen = c.generate("MCNode", nodecfg("GenSpec", 0, "INVARIANT Emit"))
    c.validate("TraceNode", c.drive("vtran", ["-what", "node"], scen=scen, scale=10 if c.thorough else 1, node="node", timeout=2000), chunk=4000)


def showcfg(spec, changes, keep, what):
    return "SPECIFICATION %s\nCONSTANTS Changes = %d\n Keep = %s\n%s\nCHECK_DEADLOCK FALSE\n" % (spec, changes, "TRUE" if keep else "FALSE", what)


@check("C26")
def c_show(c):
    c.model("MCShow", showcfg("Spec", 3 if c.thorough else 2, False, "INVARIANTS Recognised TablesOk\nPROPERTY TellsApart"), workers=8)
    a = c.generate("MCShow", showcfg("GenSpec", 1, True, "INVARIANT Emit"), limit=None if c.thorough else 1500)
    b = c.generate("MCShow", showcfg("GenSpec", 2, True, "INVARIANT Emit"), limit=20000 if c.thorough else 1500, workers=4)
    scen = c.tmp("scen")
    with open(scen, "w") as f:
        f.write(open(a).read() + open(b).read())
    c.validate("TraceShow", c.drive("vtran", ["-what", "show"], scen=scen, scale=10 if c.thorough else 1), cfg="TraceM.cfg", chunk=1500)


def edcfg(depth, chars, keep, what):
    return "SPECIFICATION Spec\nCONSTANTS Depth = %d\n Chars = {%s}\n Keep = %s\n%s\nCHECK_DEADLOCK FALSE\n" % (depth, chars, "TRUE" if keep else "FALSE", what)


@check("C27")
def c_editor(c):
    c.model("MCEditor", edcfg(9 if c.thorough else 7, '"a", ":"', False, "INVARIANTS Inside Numbered\nPROPERTY RunsTheLine"), workers=8)
    scen = c.generate("MCEditor", edcfg(6 if c.thorough else 5, '"a", ":"', True, "INVARIANT Emit"), limit=12000 if c.thorough else 1500, workers=4)
    sc = 10 if c.thorough else 1
    c.validate("TraceEditor", c.drive("vtran", ["-what", "editor"], scen=scen, scale=sc), cfg="TraceM.cfg", chunk=4000)
    c.validate("TraceEditor", c.drive("vtran", ["-what", "editor8"], scale=sc), cfg="TraceM.cfg", chunk=4000)
    c.validate("TraceEditor", c.drive("vtran", ["-what", "editor"], scale=sc, env={"VERIF_TERM": "80x40"}), cfg="TraceM.cfg", chunk=4000)


def wincfg(depth, keep, what):
    return "SPECIFICATION Spec\nCONSTANTS Depth = %d\n Keep = %s\n%s\nCHECK_DEADLOCK FALSE\n" % (depth, "TRUE" if keep else "FALSE", what)


@check("C29")
def c_windows(c):
    c.model("MCWindows", wincfg(6 if c.thorough else 5, False, "INVARIANTS Whole Around\nPROPERTY OneWindow"), workers=8)
    scen = c.generate("MCWindows", wincfg(3, True, "INVARIANT Emit"), limit=None if c.thorough else 400, workers=4)
    c.validate("TraceWindows", c.drive("vtran", ["-what", "windows"], scen=scen, scale=10 if c.thorough else 1), cfg="TraceM.cfg", chunk=1000)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    c = Ctx(r["property"], r["tier"], r["seed"])
    t = c.tmp("replay.ndjson")
    with open(t, "w") as f:
        for e in r["run"]:
            f.write(json.dumps(e) + "\n")
    env = dict(r["env"], TRACE=t, PROP=r["property"])
    rc, out = c.tlc(r["trace_spec"], r["cfg"], env=env)
    print(out[-3000:])
    print("REJECTED AGAIN" if '"REJECT"' in out else "ACCEPTED")
    return 1 if '"REJECT"' in out else 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    if prop not in CHECKS:
        print("no check for", prop)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    c = Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    c.assumptions = list(ASSUME)
    try:
        CHECKS[prop](c)
        return c.finish()
    except CheckError as e:
        if c.violations:      # something was found before the trouble
            return c.finish()
        print("CHECK-ERROR %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
