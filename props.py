"""The properties' checks: what each runs."""
import vlib
from vlib import run_harness, validate, model_check

PROPS = {}

TV = "TLA+ specification checked with TLC; traces of the real code validated against it"

def prop(id, **kw):
    def deco(f):
        PROPS[id] = dict(fn=f, **kw)
        return f
    return deco

def files(h, *names, dest="verifh"):
    return {"%s/harness/%s/%s" % (vlib.VERIF, h, f): "%s/%s/%s" % (dest, h, f) for f in names}

# -- the sample stream ------------------------------------------------------
def playlist_exe(ctx):
    return ctx.build("pl", files("pl", "pl_test.go", "edits_test.go"), "./verifh/pl")

def stream_part(ctx, profile, quick, thorough, served):
    tr = run_harness(ctx, playlist_exe(ctx), profile, ctx.n(quick, thorough))
    validate(ctx, "StreamTrace", "StreamTrace.cfg", tr, "playlist stream (%s)" % profile)
    tr = run_harness(ctx, srv_exe(ctx), served, ctx.n(120, 2000), one=True)
    validate(ctx, "StreamTrace", "StreamTrace.cfg", tr, "stream of a server (%s)" % served)
    model_check(ctx, "StreamMC", "StreamMC.cfg" if ctx.tier == "quick" else "StreamMCBig.cfg")

@prop("P01", technique=TV)
def p01(ctx):
    tr = run_harness(ctx, playlist_exe(ctx), "edits", ctx.n(400, 12000))
    validate(ctx, "PlaylistEditsTrace", "PlaylistEditsTrace.cfg", tr, "edits of a playlist")
    tr = run_harness(ctx, srv_exe(ctx), "edits", ctx.n(160, 4000), one=True)
    validate(ctx, "PlaylistEditsTrace", "PlaylistEditsTrace.cfg", tr, "edit commands")
    model_check(ctx, "EditsImpl", "EditsImpl.cfg")

@prop("P02", technique=TV)
def p02(ctx):
    tr = run_harness(ctx, playlist_exe(ctx), "brink", ctx.n(400, 6000))
    validate(ctx, "StreamTrace", "StreamTrace.cfg", tr, "a playlist on the brink of being empty")
    stream_part(ctx, "order", 480, 8000, "announce")

@prop("P03", technique=TV)
def p03(ctx):
    stream_part(ctx, "integrity", 400, 6000, "chunks")

@prop("P04", technique=TV)
def p04(ctx):
    tr = run_harness(ctx, srv_exe(ctx), "announce", ctx.n(400, 6000), one=True)
    validate(ctx, "StreamTrace", "StreamTrace.cfg", tr, "announcements of the stream")

@prop("P06", technique=TV)
def p06(ctx):
    tr = run_harness(ctx, srv_exe(ctx), "chunks", ctx.n(240, 4000), one=True)
    validate(ctx, "ChunksTrace", "ChunksTrace.cfg", tr, "chunks as clients get them")
    validate(ctx, "StreamTrace", "StreamTrace.cfg", tr, "chunks laid end to end")
    model_check(ctx, "Chunks", "Chunks.cfg")

@prop("P05", technique=TV)
def p05(ctx):
    stream_part(ctx, "pause", 480, 8000, "announce")

# -- broadcasting -------------------------------------------------------------
def srv_exe(ctx):
    return ctx.build("srv", files("srv", "srv_test.go", "fanout_test.go", "wire_test.go", "world_test.go", "state_test.go", "console_test.go", "operator_test.go", "songs_test.go", "stamps_test.go", "lyrics_test.go"), "./verifh/srv")

def fanout_part(ctx, profile, quick, thorough, what):
    tr = run_harness(ctx, srv_exe(ctx), profile, ctx.n(quick, thorough), one=False)
    validate(ctx, "FanoutTrace", "FanoutTrace.cfg", tr, what)
    model_check(ctx, "FanoutImpl", "FanoutImpl.cfg" if ctx.tier == "quick" else "FanoutImplSmall.cfg")

@prop("P07", technique=TV)
def p07(ctx):
    fanout_part(ctx, "fanout", 160, 4000, "broadcasts among changing clients")

@prop("P08", technique=TV)
def p08(ctx):
    fanout_part(ctx, "faults", 96, 2000, "broadcasts among misbehaving clients")

@prop("P24", technique=TV)
def p24(ctx):
    fanout_part(ctx, "errors", 160, 4000, "reports of broadcasts with failing clients")

@prop("P09", technique=TV)
def p09(ctx):
    tr = run_harness(ctx, srv_exe(ctx), "wire", ctx.n(400, 12000))
    validate(ctx, "WireTrace", "WireTrace.cfg", tr, "messages over a connection")
    model_check(ctx, "MCWire", "MCWire.cfg")

# -- what clients are told of the state ----------------------------------------
@prop("P10", technique=TV)
def p10(ctx):
    tr = run_harness(ctx, srv_exe(ctx), "volume", ctx.n(320, 8000), one=True)
    validate(ctx, "VolumeTrace", "VolumeTrace.cfg", tr, "volume commands and what clients are told")
    model_check(ctx, "VolumeImpl", ctx.n("VolumeImpl.cfg", "VolumeImplBig.cfg"))
    tr = run_harness(ctx, client_exe(ctx), "levels", ctx.n(100, 2000), one=True)
    validate(ctx, "LevelsTrace", "LevelsTrace.cfg", tr, "what a player does with its volumes")

def info_part(ctx, profile, quick, thorough, what):
    tr = run_harness(ctx, srv_exe(ctx), profile, ctx.n(quick, thorough), one=True)
    validate(ctx, "InfoTrace", "InfoTrace.cfg", tr, what)
    model_check(ctx, "InfoImpl", ctx.n("InfoImpl.cfg", "InfoImplBig.cfg"))

@prop("P11", technique=TV)
def p11(ctx):
    info_part(ctx, "join", 320, 8000, "clients joining among announcements")

@prop("P12", technique=TV)
def p12(ctx):
    info_part(ctx, "history", 320, 8000, "histories of pause changes")

# -- the operators' terminals ----------------------------------------------------
def ssh_exe(ctx):
    return ctx.build("ssh", files("ssh", "ssh_test.go", "parse_test.go", "terminal_test.go"), "./verifh/ssh")

@prop("P16", technique=TV)
def p16(ctx):
    tr = run_harness(ctx, client_exe(ctx), "levels", ctx.n(200, 5000), one=True)
    validate(ctx, "LevelsTrace", "LevelsTrace.cfg", tr, "players' samples")

@prop("P17", technique=TV)
def p17(ctx):
    tr = run_harness(ctx, client_exe(ctx), "display", ctx.n(200, 5000), one=True)
    validate(ctx, "DisplayTrace", "DisplaySongTrace.cfg", tr, "displays")

@prop("P18", technique=TV)
def p18(ctx):
    tr = run_harness(ctx, client_exe(ctx), "display", ctx.n(200, 5000), one=True)
    validate(ctx, "DisplayTrace", "DisplayLyricsTrace.cfg", tr, "lyrics on displays")
    tr = run_harness(ctx, srv_exe(ctx), "lyrics", ctx.n(160, 4000), one=True)
    validate(ctx, "LyricsTrace", "LyricsTrace.cfg", tr, "lyrics announced")

# A client of the harness may ask about a key it has not got, and go on with something else.
ASKING = ("golang.org/x/crypto", [("ssh/client_auth.go", """		}, []byte(pub.Type()), pubKey))
		if err != nil {
""", """		}, []byte(pub.Type()), pubKey))
		if err != nil && err.Error() == "not mine" {
			continue
		}
		if err != nil {
""")])

def sys_exe(ctx):
    return ctx.build("sys", files("sys", "sys_test.go", "login_test.go", "logging_test.go", "life_test.go"), "./verifh/sys", patch=[ASKING])

@prop("P19", technique=TV)
def p19(ctx):
    tr = run_harness(ctx, sys_exe(ctx), "login", ctx.n(800, 12000), one=True)
    validate(ctx, "LoginTrace", "LoginTrace.cfg", tr, "logins")

@prop("P20", technique=TV)
def p20(ctx):
    tr = run_harness(ctx, ssh_exe(ctx), "parse", ctx.n(160, 4000))
    tr += run_harness(ctx, ssh_exe(ctx), "parallel", ctx.n(12, 200), env={"GOMAXPROCS": "4"}, per=1)
    validate(ctx, "ShellTrace", "ShellTrace.cfg", tr, "command lines split")
    model_check(ctx, "ShellMC", "ShellMC.cfg")

@prop("P21", technique=TV)
def p21(ctx):
    tr = run_harness(ctx, ssh_exe(ctx), "complete", ctx.n(160, 4000))
    validate(ctx, "ShellTrace", "ShellTrace.cfg", tr, "completions of lines")
    model_check(ctx, "ShellMC", "ShellMC.cfg")

@prop("P22", technique=TV)
def p22(ctx):
    tr = run_harness(ctx, srv_exe(ctx), "commands", ctx.n(240, 6000), one=True)
    validate(ctx, "ConsoleTrace", "ConsoleTrace.cfg", tr, "commands in any state")

@prop("P23", technique=TV)
def p23(ctx):
    tr = run_harness(ctx, srv_exe(ctx), "songs", ctx.n(320, 8000), one=True)
    validate(ctx, "CatalogueTrace", "CatalogueTrace.cfg", tr, "names of songs")

@prop("P27", technique=TV)
def p27(ctx):
    tr = run_harness(ctx, ssh_exe(ctx), "terminals", ctx.n(240, 6000), one=True)
    validate(ctx, "TerminalsTrace", "TerminalsTrace.cfg", tr, "operators' terminals")
    model_check(ctx, "TerminalsMC", ctx.n("TerminalsMC.cfg", "TerminalsMCDeep.cfg"))

# -- clients ---------------------------------------------------------------------
def queue_exe(ctx):
    return ctx.build("queue", {"%s/harness/queue/verif_queue_test.go" % vlib.VERIF: "playback/verif_queue_test.go"}, "./playback")

@prop("P14", technique=TV)
def p14(ctx):
    tr = run_harness(ctx, queue_exe(ctx), "queue", ctx.n(1200, 30000))
    validate(ctx, "SampleQueueTrace", "SampleQueueTrace.cfg", tr, "operations on the queue of samples")
    model_check(ctx, "SampleQueueImpl", ctx.n("SampleQueueImpl.cfg", "SampleQueueImplBig.cfg"))

def client_exe(ctx):
    return ctx.build("client", files("client", "client_test.go", "sync_test.go", "play_test.go", "levels_test.go", "display_test.go"), "./verifh/client")

@prop("P13", technique=TV)
def p13(ctx):
    tr = run_harness(ctx, client_exe(ctx), "sync", ctx.n(240, 6000), one=True)
    validate(ctx, "TimingTrace", "TimingTrace.cfg", tr, "synchronising clocks")
    tr = run_harness(ctx, srv_exe(ctx), "stamps", ctx.n(80, 2000), one=True)
    validate(ctx, "TimingTrace", "TimingTrace.cfg", tr, "the server's answers")
    model_check(ctx, "TimingMC", ctx.n("TimingMC.cfg", "TimingMCBig.cfg"))

@prop("P15", technique=TV)
def p15(ctx):
    tr = run_harness(ctx, client_exe(ctx), "play", ctx.n(300, 6000), one=True)
    validate(ctx, "PlayerTrace", "PlayerTrace.cfg", tr, "players' output")
    model_check(ctx, "PlayerImpl", ctx.n("PlayerImpl.cfg", "PlayerImplBig.cfg"))
    model_check(ctx, "PlayerImpl", "PlayerImplGap.cfg")

@prop("P25", technique=TV)
def p25(ctx):
    tr = run_harness(ctx, sys_exe(ctx), "logging", ctx.n(400, 8000), one=True)
    validate(ctx, "LoggingTrace", "LoggingTrace.cfg", tr, "messages logged")

@prop("P26", technique=TV)
def p26(ctx):
    tr = run_harness(ctx, sys_exe(ctx), "life", ctx.n(800, 12000), one=True)
    validate(ctx, "LifecycleTrace", "LifecycleTrace.cfg", tr, "commands from start to end")

def e2e_exe(ctx):
    return ctx.build("e2e", files("e2e", "e2e_test.go"), "./verifh/e2e", nodes=("pa", "pb", "di"))

@prop("P28", technique=TV)
def p28(ctx):
    tr = run_harness(ctx, e2e_exe(ctx), "evening", ctx.n(160, 2400), one=True)
    validate(ctx, "UnisonTrace", "UnisonTrace.cfg", tr, "a server, players and a display")
    model_check(ctx, "UnisonMC", ctx.n("UnisonMC.cfg", "UnisonMCBig.cfg"))
