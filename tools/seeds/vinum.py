C = "dissect/volume/vinum/config.py"
V = "dissect/volume/vinum/vinum.py"

PRE = '''
import struct
from datetime import datetime, timezone
from io import BytesIO

from dissect.volume.vinum.c_vinum import c_vinum
from dissect.volume.vinum.config import parse_vinum_config
from dissect.volume.vinum.vinum import Vinum

NOW = datetime(2020, 1, 1, tzinfo=timezone.utc)
START = c_vinum.GV_DATA_START


def drive(name, config, sec, body, usec=0):
    """A drive named name; body is its content from the start of the data area."""
    hdr = c_vinum.header()
    hdr.magic = c_vinum.GV_MAGIC
    hdr.config_length = 4096
    hdr.label.name = name.ljust(32, b"\\x00")
    hdr.label.last_update.sec = sec
    hdr.label.last_update.usec = usec
    hdr.label.drive_size = START + len(body)
    raw = hdr.dumps()
    out = bytearray(START)
    out[c_vinum.GV_HDR_OFFSET:c_vinum.GV_HDR_OFFSET + len(raw)] = raw
    out[c_vinum.GV_CFG_OFFSET:c_vinum.GV_CFG_OFFSET + len(config)] = config
    return BytesIO(bytes(out) + body)

'''

SEEDS = [
    dict(
        id="vinum-disorganised-plex", property="P11",
        needs="a plex with an organisation that is none of the known ones",
        breaks="a stripe size is expected behind every organisation but concat, so the configuration is lost from that plex on",
        edits=[(C, "                if org == PlexOrg.RAID5 or org == PlexOrg.STRIPED:\n", "                if org != PlexOrg.CONCAT:\n")],
        demo=PRE + '''
got = parse_vinum_config(NOW, b"plex name p org ? volume v state up\\nplex name q org concat volume v\\n")["plexes"]
assert [(p.name, p.volume) for p in got] == [(b"p", b"v"), (b"q", b"v")], got
''',
    ),
    dict(
        id="vinum-carriage-return", property="P11",
        needs="a configuration with a carriage return within a name",
        breaks="a carriage return ends a line too",
        edits=[(C, 're.compile(b"[\\x00\\n]")', 're.compile(b"[\\x00\\r\\n]")')],
        demo=PRE + '''
got = parse_vinum_config(NOW, b"volume a\\rb state up\\nvolume c state up\\n")["volumes"]
assert [v.name for v in got] == [b"a\\rb", b"c"] and got[0].state is not None, got
''',
    ),
    dict(
        id="vinum-empty-subdisk", property="P11",
        needs="a subdisk with a length of zero",
        breaks="a length of zero becomes the mark of an automatic length",
        edits=[(C, "                if length < 0:\n", "                if length <= 0:\n")],
        demo=PRE + '''
got = parse_vinum_config(NOW, b"sd name s drive d length 0 driveoffset 265s plex p plexoffset 0s\\n")["sds"]
assert got[0].length == 0, got
''',
    ),
    dict(
        id="vinum-same-second-update", property="P12",
        needs="two drives, the configurations of which were written in the same second",
        breaks="the microseconds of the update time of a drive are ignored, so an outdated configuration can win",
        edits=[(V, "        config_epoch = last_update.sec + last_update.usec * 1e-6\n", "        config_epoch = last_update.sec\n")],
        demo=PRE + '''
def config(first, second):
    return (b"volume v state up\\nplex name v.p0 org concat volume v state up\\n"
            b"sd name v.p0.s0 drive d0 len 8s driveoffset %s plex v.p0 plexoffset 0s state up\\n" % (first,)
            + b"sd name v.p0.s1 drive d1 len 8s driveoffset %s plex v.p0 plexoffset 8s state up\\n" % (second,))

a = drive(b"d0", config(b"265s", b"265s"), 1000, b"A" * 4096 + b"a" * 4096, usec=10)
b = drive(b"d1", config(b"273s", b"273s"), 1000, b"B" * 4096 + b"b" * 4096, usec=900000)
for order in ([a, b], [b, a]):
    vd = Vinum(order).configurations[0].virtual_disks[0]
    assert {i: off for i, (off, _) in vd.disk_map.items()} == {0: 4096, 1: 4096}, vd.disk_map
''',
    ),
    dict(
        id="vinum-growable-sd", property="P12",
        needs="a plex with a subdisk in the growable state",
        breaks="a subdisk that can grow is left out as if its content was not valid",
        edits=[(V, "                        sd.state != SDState.DOWN and sd.state != SDState.DEGRADED and sd.state != SDState.INITIALIZING\n",
                "                        sd.state is None or sd.state == SDState.UP\n")],
        demo=PRE + '''
cfg = (b"volume v state up\\nplex name v.p0 org striped 16s volume v state up\\n"
       b"sd name v.p0.s0 drive d0 len 32s driveoffset 265s plex v.p0 plexoffset 0s state up\\n"
       b"sd name v.p0.s1 drive d1 len 32s driveoffset 265s plex v.p0 plexoffset 16s state growable\\n")
vd = Vinum([drive(b"d0", cfg, 1, b"A" * 16384), drive(b"d1", cfg, 1, b"B" * 16384)]).configurations[0].virtual_disks[0]
assert vd.open().read(16384) == b"A" * 8192 + b"B" * 8192
''',
    ),
]
