"""Shared by P07/P08: reading the stored configuration and drawing parameter values."""
from .common import *

CF = '/home/.lsl/lsl.cfg'
PARAMS = {   # name -> values that survive a text round trip
    'observing.observer_name': ['Ada Lovelace', 'J. Doe', None, 'x=y', 'semi;colon # not a comment'],
    'observing.observer_id': [1, 99, None, 'ID-7', 2.5],
    'observing.project_name': ['All Sky', None, '[bracket]'],
    'observing.project_id': ['LH001', None, 'TEST'],
    'ldp.drx_buffer_size': [20, 10, 40],
    'ldp.tbx_autofill_size': [25, 5],
    'astro.leapsec_url': ['https://hpiers.obspm.fr/iers/bul/bulc/Leap_Second.dat', 'https://other.example/leap?a=b'],
    'ionosphere.igs_mirror': ['ftp://gssc.esa.int/gnss/products/ionex/', None, 'ftp://m/'],
    'ionosphere.max_cache_size': [-1, 0, 512],
    'telemetry.enabled': [True, False],
    'telemetry.timeout': [30, 5],
    'download.block_size': [8192, 1],
    'download.timeout': [120, 60, 3],
    'download.refresh_age': [14, 1, 365],
}


def parse(text):
    """Independent reader of the configuration text: {name: value} of everything set."""
    out, sec = {}, None
    for line in text.split('\n'):
        line = line.strip()
        if len(line) < 3 or line[0] == '#':
            continue
        if line[0] == '[':
            sec = line.strip('[]').strip()
            continue
        if '=' not in line:
            out['?malformed'] = line
            continue
        k, v = [x.strip() for x in line.split('=', 1)]
        k = (sec + '.' if sec else '') + k
        if v in ('True', 'False'):
            v = v == 'True'
        elif v == '':
            v = None
        else:
            try:
                v = int(v)
            except ValueError:
                try:
                    v = float(v)
                except ValueError:
                    pass
        out[k] = v
    return out


def stored(sim, defaults):
    """The configuration a new session should see, from the bytes on the simulated disk."""
    raw = sim.vfs.get(CF)
    d = dict(defaults)
    if raw is not None:
        d.update(parse(raw.decode('utf-8', 'replace')))
    return d


def seen(cfg):
    return {n: cfg._parameters[n].value for n in cfg._parameters} if False else {n: cfg.get(n) for n in ALLNAMES[0]}


ALLNAMES = [None]


def defaults_of(mod):
    d = {}
    for s in mod.DEFAULTS_ALL:
        for i in mod.DEFAULTS_ALL[s]:
            d[s + '.' + i] = mod.DEFAULTS_ALL[s][i]['value']
    ALLNAMES[0] = sorted(d)
    return d


def exit_handlers(proc):
    """What lsl.config registered to run when the interpreter exits."""
    out = []
    for x in proc.atexit:
        fn = x[0]
        mod = getattr(getattr(fn, '__func__', fn), '__module__', None)
        if mod == 'lsl.config':
            out.append(x)
    return out


def exit_handler(proc):
    h = exit_handlers(proc)
    return h[0][0] if h else (lambda: None)
