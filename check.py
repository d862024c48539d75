#!/usr/bin/env python3
"""Builds and runs the simulation checks.

  check.py setup                         build everything
  check.py run PROPERTY                  VERIF_TIER=quick|thorough, VERIF_SEED=n
  check.py replay FILE                   replay a violation in a new process
  check.py selftest                      programs with known defects
  check.py determinism [PROPERTY...]     compare trace hashes of repeated runs
"""

import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
SIM = os.path.join(HERE, 'sim')

sys.path.insert(0, os.path.join(HERE, 'tools'))
from table import CHECKS, GROUPS, TOOLS  # noqa: E402

COMMON = ['-std=c++14', '-O1', '-g1', '-w', '-include', 'functional',
          '-I' + os.path.join(REPO, 'include'),
          '-I/usr/include/hdf5/serial', '-I/usr/include/eigen3', '-DWITH_HDF5']

FLAVOURS = {
    'asan': {'core': ['-fsanitize=address'],
             'scen': ['-fsanitize=address', '-D_GLIBCXX_ASSERTIONS'],
             'link': ['-fsanitize=address']},
    'thr': {'core': ['-DSIM_FLAVOUR="thr"', '-DSIM_THREADS'],
            'scen': ['-fsanitize=thread', '-DSIM_THREADS', '-D_GLIBCXX_ASSERTIONS', '-fopenmp'],
            'link': [],
            'rename': ['memcpy', 'memmove', 'memset', 'memcmp', 'malloc', 'calloc', 'realloc']},
}

LIBS = ['-ldl', '-lpthread', '-ltinyxml2', '-lflann', '-llz4',
        '-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_cpp', '-lhdf5']

CORE = {'asan': ['core', 'driver', 'io'], 'thr': ['core', 'driver', 'io', 'sched']}


def sha(data):
    return hashlib.sha256(data).hexdigest()


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def fallback_config():
    """Configuration headers are generated by CMake; provide them if absent."""
    want = ['Aleph', 'Eigen', 'FLANN', 'HDF5', 'RapidJSON', 'TinyXML2']
    have = os.path.join(REPO, 'include/aleph/config')
    missing = [w for w in want if not os.path.exists(os.path.join(have, w + '.hh'))]
    if not missing:
        return []
    target = os.path.join(BUILD, 'config/aleph/config')
    os.makedirs(target, exist_ok=True)
    for w in missing:
        source = None
        for d in (have, os.path.join(REPO, 'cmake'), REPO):
            for suffix in ('.hh.in', '.in'):
                c = os.path.join(d, w + suffix)
                if os.path.exists(c):
                    source = c
        lines = []
        if source:
            for line in read(source).decode().splitlines():
                words = line.split()
                if line.startswith('#cmakedefine'):
                    lines.append('#define ' + words[1] + (' 1' if '@' in line else ''))
                elif '@' in line:
                    name = words[1] if len(words) > 1 else 'X'
                    lines.append('#define %s 1' % name)
                else:
                    lines.append(line)
        text = '\n'.join(lines) + '\n'
        path = os.path.join(target, w + '.hh')
        if not os.path.exists(path) or read(path).decode() != text:
            with open(path, 'w') as f:
                f.write(text)
    return ['-I' + os.path.join(BUILD, 'config')]


def dep_key(depfile):
    """Hash of all files of /repo and /verif an object was made from."""
    try:
        text = read(depfile).decode()
    except OSError:
        return None
    text = text.replace('\\\n', ' ')
    files = sorted(set(w for w in text.split(':', 1)[1].split()
                       if w.startswith(REPO) or w.startswith(HERE)))
    h = hashlib.sha256()
    for f in files:
        try:
            h.update(f.encode() + b'\0' + read(f) + b'\0')
        except OSError:
            return None
    return h.hexdigest()


def compile_unit(source, obj, flags, rename, entry=None):
    cmd = ['g++'] + flags + ['-MMD', '-MF', obj + '.d', '-c', source, '-o', obj]
    stamp = obj + '.key'
    key = dep_key(obj + '.d')
    recipe = sha(repr((cmd, rename, entry)).encode())
    if key and os.path.exists(obj) and os.path.exists(stamp) and read(stamp).decode() == recipe + key:
        return None
    if os.path.exists(stamp):
        os.remove(stamp)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return 'cannot compile %s:\n%s' % (source, r.stdout.decode(errors='replace')[:4000])
    if rename:
        subprocess.run(['objcopy'] + ['--redefine-sym=%s=sim_%s' % (n, n) for n in rename] + [obj], check=True)
    if entry:
        # Tools define equal names differently: only the entry point stays visible.
        subprocess.run(['ld', '-r', '--force-group-allocation', obj, '-o', obj + '.r'], check=True)
        subprocess.run(['objcopy', '--keep-global-symbol=main', obj + '.r'], check=True)
        subprocess.run(['objcopy', '--redefine-sym=main=' + entry, '--redefine-sym=exit=sim_tool_exit', obj + '.r', obj], check=True)
        os.remove(obj + '.r')
    with open(stamp, 'w') as f:
        f.write(recipe + dep_key(obj + '.d'))
    return None


def build(pairs):
    """Builds the programs for (group, flavour) pairs; returns their paths."""
    os.makedirs(BUILD, exist_ok=True)
    extra = fallback_config()
    units = {}
    programs = {}
    for group, flavour in pairs:
        f = FLAVOURS[flavour]
        objs = []
        for c in CORE[flavour]:
            source = os.path.join(SIM, 'core', c + '.cc')
            obj = os.path.join(BUILD, '%s.core.%s.o' % (flavour, c))
            units[obj] = (source, COMMON + extra + f['core'], [], None)
            objs.append(obj)
        for t in GROUPS[group]:
            source = os.path.join(SIM, 'scen', t + '.cc')
            obj = os.path.join(BUILD, '%s.%s.o' % (flavour, t))
            units[obj] = (source, COMMON + extra + f['scen'], f.get('rename', []), None)
            objs.append(obj)
        directory, tools = TOOLS.get(group, ('', []))
        for t in tools:
            source = os.path.join(REPO, directory, t + '.cc')
            obj = os.path.join(BUILD, '%s.tool.%s.o' % (flavour, t))
            entry = 'sim_tool_' + t
            flags = ['-include', os.path.join(SIM, 'scen/seam.hh')]
            units[obj] = (source, COMMON + extra + f['scen'] + flags, f.get('rename', []), entry)
            objs.append(obj)
        programs[(group, flavour)] = (os.path.join(BUILD, '%s.%s' % (group, flavour)), objs)

    with ThreadPoolExecutor(max_workers=8) as pool:
        errors = [e for e in pool.map(lambda o: compile_unit(units[o][0], o, *units[o][1:]), units) if e]
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return None

    def link(item):
        program, objs = item
        cmd = ['g++'] + FLAVOURS[program.rsplit('.', 1)[1]]['link'] + ['-Wl,-z,muldefs', '-no-pie'] + objs + ['-o', program] + LIBS
        key = sha(repr(cmd).encode() + b''.join(read(o + '.key') for o in objs))
        stamp = program + '.key'
        if os.path.exists(program) and os.path.exists(stamp) and read(stamp).decode() == key:
            return None
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            return 'cannot link %s:\n%s' % (program, r.stdout.decode(errors='replace')[:4000])
        with open(stamp, 'w') as f:
            f.write(key)
        return None

    with ThreadPoolExecutor(max_workers=4) as pool:
        errors = [e for e in pool.map(link, programs.values()) if e]
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return None
    return {k: v[0] for k, v in programs.items()}


def environment():
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:symbolize=0:allocator_may_return_null=1:detect_stack_use_after_return=0'
    env['LC_ALL'] = 'C'
    env.pop('ASAN_SYMBOLIZER_PATH', None)
    return env


def known_findings(prop):
    known = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in read(path).decode().splitlines():
            if line.startswith('known: property=%s ' % prop):
                words = line.split(' ', 3)
                known[words[2].split('=', 1)[1]] = words[3]
    return known


def run(prop):
    start = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    check = CHECKS[prop]
    programs = build([(p['group'], p['flavour']) for p in check['parts']])
    if programs is None:
        return 3
    built = time.time()

    out = os.path.join(BUILD, 'out')
    os.makedirs(out, exist_ok=True)
    known = known_findings(prop)
    reports = []
    code = 0
    violation = None
    for part in check['parts']:
        runs = part[tier]
        result = os.path.join(out, '%s-%s.json' % (prop, part['flavour']))
        if os.path.exists(result):
            os.remove(result)
        cmd = [programs[(part['group'], part['flavour'])], 'run', '--property', prop, '--seed', str(seed & (2**63 - 1)),
               '--runs', str(runs), '--seconds', str(part.get('seconds', {}).get(tier, 60 if tier == 'quick' else 400)),
               '--workers', '8', '--out', result, '--replays', out]
        for k in known:
            cmd += ['--known', k]
        r = subprocess.run(cmd, env=environment(), stdout=subprocess.PIPE)
        text = r.stdout.decode(errors='replace')
        sys.stdout.write(text)
        sys.stdout.flush()
        try:
            report = json.loads(read(result).decode())
        except (OSError, ValueError):
            print('check %s: no report from %s (exit %d)' % (prop, cmd[0], r.returncode), file=sys.stderr)
            return 3
        reports.append((part, report))
        for cls in report['known']:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[cls]))
        if r.returncode == 1:
            code = 1
            violation = report['violation']
            print('VIOLATION property=%s replay=%s' % (prop, violation['replay']))
            break
        if r.returncode != 0:
            code = 3
            break

    write_evidence(prop, check, tier, seed, reports, violation, start, built)
    return code


def write_evidence(prop, check, tier, seed, reports, violation, start, built):
    faults = {}
    scenarios = {}
    total = {k: 0 for k in ('runs', 'nontrivial', 'discarded', 'distinct', 'shapes', 'events', 'decisions', 'simulated_ns', 'seconds')}
    samples = []
    for part, r in reports:
        for k in total:
            total[k] += r[k]
        for k, n in r['counters'].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r['scenarios'].items():
            name = '%s (%s)' % (k, part['flavour'])
            scenarios[name] = scenarios.get(name, 0) + n
        samples += r['samples'][:3]
    hours = max(total['seconds'], 1e-6) / 3600.0
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': check['level'],
        'coverage': {
            'evaluations': total['runs'],
            'distinct_nontrivial': total['distinct'],
            'rule': 'One evaluation is one simulated run in its own process, a function of its seed. Non-trivial: at least one injected fault, '
                    'perturbation or scheduling decision reached the code under test. Distinct: different hash over all events of the run '
                    '(decisions, faults, system calls, schedule, observed results). ' + check['rule'],
            'samples': samples,
            'nontrivial_runs': total['nontrivial'],
            'distinct_scenario_shapes': total['shapes'],
            'discarded_runs': total['discarded'],
            'runs_per_hour': int(total['runs'] / hours),
            'seeds_per_hour': int(total['runs'] / hours),
            'decisions_drawn': total['decisions'],
            'events_traced': total['events'],
            'simulated_time_s': total['simulated_ns'] / 1e9,
            'faults_injected': faults,
            'runs_by_scenario': scenarios,
            'components_real': check['real'],
            'components_stub': check['stub'],
            'known_findings_met': sorted(set(k for _, r in reports for k in r['known'])),
            'build_s': round(built - start, 2),
            'simulation_s': round(total['seconds'], 2),
        },
        'assumptions': check['assumptions'],
        'wall_s': round(time.time() - start, 3),
        'violations': 1 if violation else 0,
    }
    if violation:
        evidence['coverage']['violation'] = violation
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)


def setup():
    pairs = sorted(set((p['group'], p['flavour']) for c in CHECKS.values() for p in c['parts']))
    return 0 if build(pairs) is not None else 3


def replay(path):
    flavour = prop = None
    for line in read(path).decode(errors='replace').splitlines():
        if line.startswith('flavour '):
            flavour = line.split()[1]
        if line.startswith('property '):
            prop = line.split()[1]
        if line.startswith('tape '):
            break
    part = [p for p in CHECKS[prop]['parts'] if p['flavour'] == flavour][0]
    programs = build([(part['group'], flavour)])
    if programs is None:
        return 3
    return subprocess.run([programs[(part['group'], flavour)], 'replay', '--file', path], env=environment()).returncode


def determinism(props):
    """Hashes of the same seeds from two processes and from a worker pool."""
    bad = 0
    for prop in props or sorted(CHECKS):
        for part in CHECKS[prop]['parts']:
            program = build([(part['group'], part['flavour'])])[(part['group'], part['flavour'])]
            n = int(os.environ.get('VERIF_RUNS', '200'))

            def hashes(first, runs):
                cmd = [program, 'hashes', '--property', prop, '--seed', '7', '--first', str(first), '--runs', str(runs)]
                return subprocess.run(cmd, env=environment(), stdout=subprocess.PIPE).stdout.decode().splitlines()

            once = hashes(0, n)
            with ThreadPoolExecutor(max_workers=8) as pool:
                pieces = list(pool.map(lambda k: hashes(k, min(10, n - k)), range(0, n, 10)))
            again = [line for piece in pieces for line in piece]
            differ = [(a, b) for a, b in zip(once, again) if a != b]
            status = 'same' if not differ and len(once) == len(again) == n else 'DIFFERENT'
            print('%s %s %d runs, one process vs. %d concurrent processes: %s' % (prop, part['flavour'], n, len(pieces), status))
            for a, b in differ[:5]:
                print('   %s | %s' % (a, b))
            bad += len(differ)
    return 1 if bad else 0


def selftest():
    """The simulator finds the planted defects and nothing else."""
    programs = build([('selftest', 'asan'), ('selftest', 'thr')])
    if programs is None:
        return 3
    bad = 0
    for (_, flavour), program in sorted(programs.items()):
        names = [line.split(' ', 1)[1] for line in subprocess.run([program, 'list'], stdout=subprocess.PIPE).stdout.decode().splitlines()]
        for name in names:
            threads = name.split(' ', 1)[1] not in ('uninitialised', 'leak')
            if threads != (flavour == 'thr'):
                continue
            cmd = [program, 'survey', '--property', 'SELF', '--scenario', name, '--seed', os.environ.get('VERIF_SEED', '1'), '--runs', '2000', '--workers', '8']
            text = subprocess.run(cmd, env=environment(), stdout=subprocess.PIPE).stdout.decode()
            found = [line.split(':')[0] for line in text.splitlines() if line[:1].isdigit() and 'x ' in line.split(' [')[0] and ' [' in line]
            right = bool(found) == name.startswith('bad')
            bad += not right
            print('%-4s %-20s %s %s' % (flavour, name, 'as expected' if right else 'UNEXPECTED', '; '.join(found)))
    return 1 if bad else 0


if __name__ == '__main__':
    if len(sys.argv) == 2 and sys.argv[1] == 'selftest':
        sys.exit(selftest())
    if len(sys.argv) >= 2 and sys.argv[1] == 'setup':
        sys.exit(setup())
    if len(sys.argv) == 3 and sys.argv[1] == 'run' and sys.argv[2] in CHECKS:
        sys.exit(run(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        sys.exit(replay(os.path.abspath(sys.argv[2])))
    if len(sys.argv) >= 2 and sys.argv[1] == 'determinism':
        sys.exit(determinism(sys.argv[2:]))
    print(__doc__, file=sys.stderr)
    sys.exit(64)
