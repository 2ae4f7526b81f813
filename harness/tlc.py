"""Running TLC."""
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
JARS = [os.path.join(TLA, 'tla2tools.jar'), os.path.join(TLA, 'CommunityModules-deps.jar')]
CLASSES = os.path.join(VERIF, '.build', 'java')


class TlcError(Exception):
    pass


def build():
    """compile the Java accelerator of BigFloat (values identical to the TLA+ definitions, see SelfTest)"""
    src = os.path.join(VERIF, 'java', 'BigFloat.java')
    out = os.path.join(CLASSES, 'BigFloat.class')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(CLASSES, exist_ok=True)
        subprocess.run(['javac', '-nowarn', '-cp', ':'.join(JARS), '-d', CLASSES, src], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def run(module, cfg_text, env=None, workers=2, mem='3g', timeout=800, fast=True, args=()):
    """returns (ok, states generated, distinct states, stdout)"""
    tmp = tempfile.mkdtemp(prefix='tlc-')
    try:
        cfg = os.path.join(tmp, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(2, workers), '-Xmx' + mem, '-Xss16m']
        cp = list(JARS)
        if fast:
            cmd.append('-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigFloat')
            cp = [CLASSES] + cp
        cmd += ['-cp', ':'.join(cp), 'tlc2.TLC', '-metadir', os.path.join(tmp, 'meta'), '-workers', str(workers),
                '-config', cfg] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        e['JAVA_TOOL_OPTIONS'] = ''
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise TlcError('%s: no answer within %s s' % (module, timeout))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout.replace(',', ''))
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left', p.stdout)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        ok = p.returncode == 0 and 'No error has been found' in p.stdout
        return ok, gen, dist, p.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tail(out, n=25):
    keep = [x for x in out.splitlines()
            if not x.startswith(('Semantic', 'Linting', 'Parsing', 'Computed', 'Progress'))]
    return '\n'.join(keep[-n:])
