"""Runs scenarios on several processes: mpi_worker.py SCENARIOS.json START OUT.ndjson"""
import json
import os
import sys
import threading
import traceback

from mpi4py import MPI

import chk_c19

LIMIT = 25


def main():
    scens = json.load(open(sys.argv[1]))
    start, out = int(sys.argv[2]), sys.argv[3]
    world = MPI.COMM_WORLD

    def stop(kind, msg, tb=()):
        if os.path.exists(out + ".crash"):
            return
        with open(f"{out}.{world.rank}", "w") as f:
            json.dump({"msg": msg, "traceback": list(tb), "rank": world.rank,
                       "ev": [{"op": "crash", "kind": kind}]}, f)
        os.replace(f"{out}.{world.rank}", out + ".crash")

    def late():  # a thread, since a process that waits for another runs no handlers
        stop("hang", "no result on every process in time",
             traceback.format_stack(sys._current_frames()[main_thread])[-6:])
        os._exit(17)

    main_thread = threading.get_ident()
    for i in range(start, len(scens)):
        if world.rank == 0:
            with open(out + ".progress", "w") as f:
                f.write(str(i))
        watch = threading.Timer(LIMIT, late)
        watch.daemon = True
        watch.start()
        try:
            res = chk_c19.play(scens[i], world)
        except Exception as ex:
            stop("exception", repr(ex)[:300],
                 traceback.format_exc().strip().splitlines()[-12:])
            os._exit(18)
        watch.cancel()
        if world.rank == 0:
            with open(out, "a") as f:
                f.write(json.dumps(res, default=lambda o: o.item()) + "\n")
    world.Barrier()
    if world.rank == 0:
        with open(out + ".progress", "w") as f:
            f.write("done")


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
