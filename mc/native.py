"""Programs compiled from the C++ sources of the repository against stand-in headers."""
import os
import shutil
import subprocess

from mc import core

HEADERS = os.path.join(core.VERIF, 'stubs_cc')
OPTIONS = ['-std=c++17', '-O0', '-D_GLIBCXX_ASSERTIONS', '-I' + HEADERS,
           '-isystem', '/usr/include/eigen3']


def build(source, variants):
  """One program per list of extra options, in the scratch directory of this run."""
  out, running = [], []
  folder = core.scratch()
  for i, extra in enumerate(variants):
    out.append(os.path.join(folder, 'program%d' % i))
    running.append(subprocess.Popen(['g++'] + OPTIONS + extra + [source, '-o', out[-1]],
                                    stderr=subprocess.PIPE, text=True))
  for p in running:
    errors = p.communicate()[1]
    if p.returncode != 0:
      raise RuntimeError('%s does not compile\n%s' % (source, errors[-3000:]))
  return out


def empty(folder):
  shutil.rmtree(folder, ignore_errors=True)
  os.makedirs(folder)
  return folder


def call(argv, folder, path=None, extra=None):
  env = dict(PATH=(path + ':' if path else '') + os.environ.get('PATH', '/usr/bin:/bin'),
             STANDIN_LOG=os.path.join(folder, 'requests.log'), PYTHONDONTWRITEBYTECODE='1', **(extra or {}))
  return subprocess.call(argv, cwd=folder, env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def requests(folder):
  """What the program asked of its stand-ins, in order."""
  path = os.path.join(folder, 'requests.log')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return f.read().splitlines()
