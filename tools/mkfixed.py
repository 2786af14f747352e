#!/usr/bin/env python3
"""Write known_findings.jsonl: one 'fixed:' line per fix commit of /repo (open findings are kept)."""
import subprocess, os
MAP = [  # first matching text in the subject decides the property
 ('FileLock.acquire() raises','P01'),('FileLock does not take','P01'),('FileLock and MemoryLock','P01'),('FileLock timeout','P01'),
 ('FileCache tolerates','P02'),('release the cache lock','P02'),('cache size management','P03'),('cache size limit','P03'),
 ('MemoryCache.getmtime','P04'),('MemoryFile','P04'),('MemoryCache.open','P04'),
 ('MemoryCache.rename','P05'),('download_file','P05'),('only complete data files','P05'),('failed refresh','P06'),
 ('sessions that start at the same time can both create the configuration','P07'),('malformed line in the configuration','P07'),
 ('configuration file is saved atomically','P07'),('configuration file that cannot be read','P07'),
 ('configuration views','P08'),('set to None','P08'),('temporary configuration value','P08'),('set_temp()','P08'),('version update','P08'),
 ('telemetry.ignore','P10'),('elemetry','P09'),('busy indicator','P22'),('log file','P21'),
 ('duplicated frame','P11'),('frame buffers are flushed','P11'),('resetting a DRX','P11'),('FrameBufferBase','P11'),('reordered COR','P11'),
 ('interleaved','P16'),('VDIF reader','P17'),('read_frame_i8','P17'),('DR spectrometer reader','P17'),('frame readers check','P17'),
 ('tbx.read_frame_ci8','P17'),('TBX reader checks','P17'),('TBX frame and channel counts','P17'),
 ('SplitFileWrapper','P18'),('split file','P18'),
 ('offset()','P14'),('TBXFile.read() works after','P14'),
 ('closed more than once','P15'),('not kept open','P15'),('LWADataFile','P15'),('I/O error while looking','P15'),
 ('USTEC','P19'),('.Z maps','P19'),('ionosphere cache','P19'),('etadata tarball','P20'),('session specifications','P20'),('command scripts','P20'),
]
EXTRA = {}
here = os.path.dirname(os.path.abspath(__file__))
fn = os.path.join(here, '..', 'known_findings.jsonl')
keep = [l for l in open(fn) if l.startswith('{')]
out = ['# One JSON object per line: {"property":..., "sig":..., "what":...} for open findings; "fixed:" lines suppress nothing.\n'] + keep
extra = os.path.join(here, 'fixmap.txt')
if os.path.exists(extra):
    MAP = [tuple(l.rstrip('\n').split('\t')) for l in open(extra) if l.strip()] + MAP
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','d8da113..'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    s = s[5:]
    p = next((p for k, p in MAP if k in s), 'P13')
    out.append(f'fixed: property={p} {h} before it this did not hold: {s}\n')
open(fn, 'w').writelines(out)
