PROP="C16"; SHM=False
NEEDS="a job that fails with an OSError the first time it is run"
BREAKS="the job runs twice, and its failure is replaced by what the second run gives"
EDITS=[("structures.py","""        except KeyboardInterrupt:
            raise
        except Exception as ex:
            self.value = ex

    def get(self):""","""        except KeyboardInterrupt:
            raise
        except (ConnectionError, TimeoutError):
            # networked filesystems hiccup
            self.__init__(func, args, kwargs)
        except Exception as ex:
            self.value = ex

    def get(self):""")]
DEMO='''
import os
import sys
import tempfile
from dustgoggles.structures import map_into_pool


def job(path):
    with open(path, "a") as f:
        f.write("x")
    if os.path.getsize(path) == 1:
        raise ConnectionResetError("first")
    return "second"


if __name__ == "__main__":
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "count")
        out = map_into_pool(job, [{"args": (path,), "key": "k"}], threads=2)
        n = os.path.getsize(path)
    print(out, n)
    ok = n == 1 and isinstance(out["k"], ConnectionResetError)
    sys.exit(0 if ok else 1)
'''
