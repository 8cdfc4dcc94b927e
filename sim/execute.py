"""Execute one plan, in a process forked for it, so that every run starts from the same state."""
import gc
import io
import json
import logging
import os
import resource
import select
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get('SIM_REPO', '/repo')
SLOTS = 9
_slots = None


def prepare():
    """Import the copies of the library; done once, before any fork."""
    global _slots
    if _slots is not None:
        return _slots
    sys.dont_write_bytecode = True
    sys.path[:0] = [REPO, os.path.join(REPO, 'segpy-ext', 'segpy_numpy'), os.path.dirname(os.path.abspath(__file__))]
    warnings.simplefilter('ignore')
    logging.raiseExceptions = False
    logging.lastResort = None
    logging.getLogger().addHandler(logging.NullHandler())
    from . import story, handles, ref, model  # noqa
    from .slots import Slots
    _slots = Slots(SLOTS)
    import gzip, posixpath, shutil, uuid, tempfile, fcntl, ntpath, multiprocessing.pool, queue, hashlib, copyreg, zlib, mmap  # noqa
    gc.collect()
    gc.freeze()
    gc.disable()
    return _slots


def from_library(tb):
    """Was the exception raised by the library, rather than by the harness?"""
    last = None
    for f in traceback.extract_tb(tb):
        last = f.filename
        if last.startswith(os.path.join(REPO, 'segpy')):
            return True
    return False


def execute(plan):
    """Run a plan in this process.  Only once for each process."""
    from .story import Story
    from .world import World, Violation
    from .fs import SimBudget
    import random
    slots = prepare()
    if plan.get('memory'):
        limit = plan['memory'] << 20
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    logging.disable(logging.CRITICAL)
    world = World(plan, slots)
    out = {}
    story = Story(world, plan)
    try:
        story.run()
        out['status'] = 'ok'
    except Violation as v:
        out.update(status='violation', cls=v.cls, text=v.text)
    except SimBudget as e:
        out.update(status='violation', cls='endless', text='a bounded amount of work was exceeded: %s' % e)
    except Exception as e:
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if from_library(e.__traceback__):
            out.update(status='violation', cls='unexpected-' + type(e).__name__, text=text)
        else:
            out.update(status='harness', cls=type(e).__name__, text=text)
    out.update(world.finish())
    out['realised'] = story.realised
    if world.log is not None:
        out['log'] = world.log
    return out


def forked(plan, timeout=30.0):
    """Run a plan in a child; a child which does not end in time is killed."""
    prepare()
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))     # damaged entries can ask for anything
            data = json.dumps(execute(plan), default=str).encode()
        except BaseException as e:
            data = json.dumps(dict(status='harness', cls=type(e).__name__, text=traceback.format_exc()[-3000:])).encode()
        try:
            view = memoryview(data)
            while len(view):
                view = view[_write(w, view):]
        finally:
            _exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    ended = True
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            ended = False
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            ended = False
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if not ended:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if not ended:
        return dict(status='timeout', cls='endless', text='no end within %g s' % timeout)
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return dict(status='died', cls='died', text='the simulation process died: wait status %d' % status)


_write = os.write
_exit = os._exit
