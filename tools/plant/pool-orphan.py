PROP="C17"; SHM=False
NEEDS="a keyboard interrupt while the results are waited for"
BREAKS="the worker pool goes on running"
EDITS=[("structures.py","""            results = {
                k: v for k, v in results.items()
                if not isinstance(v, Exception)
            }
    finally:
        pool.terminate()
    return results""","""            results = {
                k: v for k, v in results.items()
                if not isinstance(v, Exception)
            }
    except Exception:
        pool.terminate()
        raise
    pool.terminate()
    return results""")]
DEMO='''
import multiprocessing
import os
import signal
import sys
import time
from dustgoggles.structures import map_into_pool


def job():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    time.sleep(60)


if __name__ == "__main__":
    signal.signal(signal.SIGALRM, signal.default_int_handler)
    signal.setitimer(signal.ITIMER_REAL, 2)
    held, left = None, []
    try:
        map_into_pool(job, [{}, {}], threads=2)
    except KeyboardInterrupt as ex:
        held = ex
    end = time.time() + 10
    while time.time() < end:
        left = multiprocessing.active_children()
        if not left:
            break
        time.sleep(0.2)
    for p in left:
        p.kill()
    print(held, left)
    sys.stdout.flush()
    os._exit(1 if left or held is None else 0)
'''
